prop="C04"
edits=[("jxl/src/api/inner/codestream_parser/frame_info.rs","""        let nonserialized = if is_preview {
            file_header
                .preview_frame_header_nonserialized()
                .unwrap_or_else(|| file_header.frame_header_nonserialized())
        } else {
            file_header.frame_header_nonserialized()
        };
""","""        let mut nonserialized = if is_preview {
            file_header
                .preview_frame_header_nonserialized()
                .unwrap_or_else(|| file_header.frame_header_nonserialized())
        } else {
            file_header.frame_header_nonserialized()
        };
        // Timecodes carry no information that is needed for decoding.
        nonserialized.have_timecode &= nonserialized.have_animation && !is_preview;
""")]
needs="an animation with timecodes and a preview image"
what="The preview frame's timecode is not read, so that its header is misread."
gens=["--kind film --n 6000 --dim 6"]
args=[""]
