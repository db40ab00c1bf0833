prop='C19'
edits=[('jxl/src/features/patches.rs', '        patches_for_row_result.sort();', '        patches_for_row_result.sort_unstable_by_key(|i| (self.positions[*i].y, *i));')]
needs='a frame with overlapping patches of which a later one starts above an earlier one'
what='Patches on a row are drawn in the order of their top edges instead of the order in which they are coded.'
gens=['films --kind patches --n 4000']
args=['']
