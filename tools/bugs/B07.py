prop='C10'
edits=[('jxl/src/render/stages/extend.rs', '        } else if c - 3 < self.ec_blending_info.len() {\n            self.ec_blending_info[c - 3].source as usize', '        } else if c - 3 < self.ec_blending_info.len() {\n            match self.ec_blending_info[c - 3].mode {\n                // Nothing to blend with: the extra channel surrounds the frame as the color does.\n                BlendingMode::Replace => self.blending_info.source as usize,\n                _ => self.ec_blending_info[c - 3].source as usize,\n            }')]
needs='a cropped frame whose extra channel is replaced and names another source slot than the colour'
what="Outside a cropped frame, an extra channel that is replaced shows the colour's source slot instead of its own."
gens=['films --kind canvas --n 4000']
args=['']
