prop='C14'
edits=[('jxl/src/api/inner/codestream_parser/mod.rs', 'xs.saturating_mul(ys).saturating_mul(3 + num_ec)', 'xs.saturating_mul(ys).wrapping_mul(3 + num_ec)')]
needs='an image of 2^30 x 2^30 pixels with so many extra channels that the number of samples wraps around'
what='The number of samples is computed modulo 2^64.'
gens=['/tmp/bx/files/lh']
args=['--limit 100000000']
