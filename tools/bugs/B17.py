prop='C14'
edits=[('jxl/src/api/inner/codestream_parser/frame_info.rs', '        check_size_limit(\n            decode_options.sample_limit,\n            frame_header.size(),\n            frame_header.num_extra_channels as usize,\n        )?;', '        if frame_header.is_visible() {\n            check_size_limit(\n                decode_options.sample_limit,\n                frame_header.size(),\n                frame_header.num_extra_channels as usize,\n            )?;\n        }')]
needs='a frame that is not shown, is larger than the image and exceeds the limit while the image does not'
what='The sample limit is not enforced for frames that are not shown.'
gens=['/tmp/bx/files/lf']
args=['--limit 40','--limit 300','--limit 1000']
