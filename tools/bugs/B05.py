prop="C03"
edits=[("jxl/src/api/inner/codestream_parser/mod.rs","                    if c > 0 || made_progress || enlarge {\n","                    if c > 0 || made_progress {\n")]
needs="a first frame with a header of several kilobytes (extensions) that arrives with the image header"
what="The decoder asks for more input although everything a header needs is there."
gens=["--kind film --n 4000 --dim 6"]
args=["","--step 700", "--step 3000"]
