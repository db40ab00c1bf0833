prop='C06'
edits=[('jxl/src/api/inner/codestream_parser/frame_scan_info.rs', '(duration_ticks as f64) * 1000.0 * (anim.tps_denominator as f64)\n                        / (anim.tps_numerator as f64)', '(duration_ticks.saturating_mul(1000) as f64) * (anim.tps_denominator as f64)\n                        / (anim.tps_numerator as f64)')]
needs='a frame of more than 4294967 ticks'
what='The scanned duration of very long frames is too short.'
gens=['--kind film --n 2000 --dim 12']
args=['--scan']
