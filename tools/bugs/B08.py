prop='C18'
edits=[('jxl/src/icc/tag.rs', '        prev_tagsize = tagsize;\n', '        if command & 128 != 0 {\n            prev_tagsize = tagsize;\n        }\n')]
needs='an ICC profile whose tag list has a tag with an implied size of 20 followed by a tag with no start or no size of its own'
what='The size of a tag whose size is implied by its kind is not remembered, so that the tags after it get a wrong start or size.'
gens=['profiles --kind valid --n 4000']
args=['']
