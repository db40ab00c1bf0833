prop='C07'
edits=[('jxl/src/render/low_memory_pipeline/group_scheduler.rs', '        (false, 3) => group_rect.end().0 + border_size.0,', '        (false, 3) => group_rect.end().0,')]
needs='a frame with filters and several groups, a group of which is finished after its right neighbour'
what='The strip right of a group is not rendered when the group completes it.'
gens=["--kind effects --n 800 --dim 400 --frames 2"]
args=['--runner rev', '--runner evenodd']
