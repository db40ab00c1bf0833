prop='C16'
edits=[('jxl/src/headers/encodings.rs', '        for i in 0..64 {\n            if (selector & (1u64 << i)) != 0 {', '        for i in 0..32 {\n            if (selector & (1u64 << i)) != 0 {')]
needs='a header with an extension of number 32 or more'
what='Sizes of extensions 32 to 63 are not read, so that everything after them is read from the wrong place.'
gens=['/tmp/bx/files/hv']
args=['']
