prop="C01"
edits=[("jxl/src/api/inner/box_parser.rs","if self.ooo_jxlp_buffer.contains_key(&idx) {","if last && self.ooo_jxlp_buffer.contains_key(&idx) {")]
needs="a container that stores the same not-yet-wanted codestream part twice before the parts preceding it"
what="A repeated out-of-order codestream part is no longer rejected: the second copy silently replaces the first."
gens=["--kind boxed --n 3000 --dim 6"]
args=[""]
