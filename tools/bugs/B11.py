prop='C08'
edits=[('jxl/src/render/low_memory_pipeline/mod.rs', '            .filter(|&c| self.shared.channel_is_used[c])\n            .all(|c| self.shared.group_chan_complete[g][c].load(Ordering::Relaxed));\n        // The caller', '            .filter(|&c| self.shared.channel_is_used[c])\n            .any(|c| self.shared.group_chan_complete[g][c].load(Ordering::Relaxed));\n        // The caller')]
needs='a flush after some but not all channels of a group are final'
what='A group of which one channel is final is not rendered again.'
gens=['--kind film --n 2000 --dim 300 --frames 2']
args=['--step 40 --flush', '--step 13 --flush']
