prop='C13'
edits=[('jxl/src/api/inner/codestream_parser/frame_info.rs', '                let Some(s) = &grp else {\n                    break;\n                };\n                self.section_state.completed_passes[g] += 1;\n                sections.push((pass, BitReader::new(&s.data)));', '                let Some(s) = &grp else {\n                    continue;\n                };\n                self.section_state.completed_passes[g] = pass as u8 + 1;\n                sections.push((pass, BitReader::new(&s.data)));')]
needs='several passes, a permuted table of contents that puts a later pass of a group before an earlier one, and input in parts'
what='A pass that arrives before an earlier pass of its group is decoded at once and the earlier one never.'
gens=['/tmp/bx/files/rel']
args=['--step 100', '--step 1000']
