prop='C07'
edits=[('jxl/src/frame/modular/transforms/step.rs', '[(0, -1), (-1, 0), (-1, -1)]', '[(0, -1), (-1, -1)]')]
needs='a palette with delta entries over several groups, and a group that is decoded before its left neighbour'
what='Expanding a predicted palette does not wait for the group to the left.'
gens=['/tmp/bx/files/thr']
args=['--runner rev', '--runner evenodd']
