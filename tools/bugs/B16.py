prop='C11'
edits=[('jxl/src/render/low_memory_pipeline/save/identity.rs', '        JxlDataFormat::U8 { .. } => true,\n        JxlDataFormat::F16 { endianness, .. }\n        | JxlDataFormat::U16 { endianness, .. }', '        JxlDataFormat::U8 { .. } | JxlDataFormat::F16 { .. } => true,\n        JxlDataFormat::U16 { endianness, .. }')]
needs='half-float output in big-endian order of an image that is not rotated'
what='Half floats are copied in native order whatever order was requested.'
gens=['--kind film --n 2000 --dim 6']
args=['--fmt f16be']
