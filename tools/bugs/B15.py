prop='C02'
edits=[('jxl/src/entropy_coding/decode.rs', '                lz77_state.num_to_copy = num_to_copy;\n                lz77_state.copy_pos = copy_pos;\n                lz77_state.num_decoded = num_decoded;\n            }\n        }\n\n        self.ans_reader = checkpoint.ans_reader;', '                lz77_state.copy_pos = copy_pos;\n                lz77_state.num_decoded = num_decoded;\n                let _ = num_to_copy;\n            }\n        }\n\n        self.ans_reader = checkpoint.ans_reader;')]
needs='an ICC profile coded with LZ77 and input that ends inside a copy'
what='An interrupted LZ77 copy is resumed with the length guessed from missing bits.'
gens=['profiles --kind valid --n 3000']
args=['--step 1', '--step 3']
