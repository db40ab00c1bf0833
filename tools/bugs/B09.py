prop='C17'
edits=[('jxl/src/entropy_coding/hybrid_uint.rs', '            && self.msb_in_token == 2\n            && self.lsb_in_token == 0\n', '            && self.msb_in_token == 2\n')]
needs='a modular stream without LZ77 all of whose integer configurations are (4, 2, n), some with n > 0'
what='Integer configurations with low bits in the token take the fast path for (4, 2, 0) and yield wrong values.'
gens=['samples --kind tokens --n 8000']
args=['']
