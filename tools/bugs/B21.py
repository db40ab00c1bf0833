prop='C07'
edits=[('jxl/src/frame/modular/transforms/step.rs', '                        if let Some(op) = info.out_prev {\n                            ans.push(TransformDependency::new_order_only(op.0, op.1));\n                        }\n', '')]
needs='squeeze over several groups and a group that is decoded before its left or upper neighbour'
what='Undoing squeeze does not wait for the preceding group.'
gens=['--kind film --n 1200 --dim 400 --frames 2']
args=['--runner rev', '--runner evenodd']
