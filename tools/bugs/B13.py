prop='C15'
edits=[('jxl/src/entropy_coding/decode.rs', '                if lz77_state.num_decoded == 0 {\n                    self.errors.lz77_repeat = true;\n                    return 0;\n                }\n\n', '')]
needs='an LZ77 stream that begins with a copy'
what='A copy before any value has been decoded reads from an empty window and panics instead of being reported.'
gens=["profiles --kind code --n 4000"]
args=['']
