prop='C09'
edits=[('jxl/src/frame/render.rs', '        if let Some(api_buffers) = api_buffers {\n            let mut api_buffers_iter', '        let shown = api_buffers.is_some();\n        if let Some(api_buffers) = api_buffers {\n            let mut api_buffers_iter'), ('jxl/src/frame/render.rs', '        pipeline_mut!(self, p, p.render_outside_frame(&buffer_splitter)?);\n', '        // The surroundings of a frame that is not delivered are never seen.\n        if shown || !self.header.is_visible() {\n            pipeline_mut!(self, p, p.render_outside_frame(&buffer_splitter)?);\n        }\n')]
needs='skipping a cropped visible frame that is saved and later blended onto'
what='A skipped frame is saved without the canvas around it.'
gens=['--kind film --n 3000 --dim 12']
args=['--skip 0', '--skip 1,2', '--skip 2']
