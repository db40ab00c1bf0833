prop="C05"
edits=[("jxl/src/api/inner/codestream_parser/frame_scan_info.rs","""            for blending_info in header
                .ec_blending_info
                .iter()
                .chain(std::iter::once(&header.blending_info))
            {
""","""            let replaces_color = header.blending_info.mode == BlendingMode::Replace;
            for blending_info in header
                .ec_blending_info
                .iter()
                .filter(|_| !replaces_color)
                .chain(std::iter::once(&header.blending_info))
            {
"""),("jxl/src/api/inner/codestream_parser/frame_scan_info.rs","use crate::headers::frame_header::FrameHeader;","use crate::headers::frame_header::{BlendingMode, FrameHeader};")]
needs="an animation frame whose colour replaces but whose extra channel blends onto another slot than the colour's source, and a seek to it"
what="The seek target ignores the slot extra channels blend with when the colour channels replace."
gens=["--kind film --n 3000 --dim 6"]
args=["--seek 1,2,3 --scans","--seek 2 --scans"]
