prop='C12'
edits=[('jxl/src/frame/modular/decode/common.rs', '        if buffers[j].data.size() != buffers[chan].data.size()\n            || buffers[j].shift != buffers[chan].shift\n        {', '        if buffers[j].data.size() != buffers[chan].data.size() {')]
needs='a squeezed image with two channels of equal size but different shifts, and a tree that looks at previous channels'
what='Previous-channel properties consider channels of equal size even if they are subsampled differently.'
gens=['samples --kind small --n 20000']
args=['']
