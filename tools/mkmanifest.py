#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py."""
import json, sys
sys.path.insert(0, "/verif")
from checks import CHECKS
TECH = {
 "C01": ("TLA+ Container spec model-checked by TLC; every box sequence TLC enumerates is replayed on the decoder and recorded sessions are checked against the spec",
         "All sequences of up to 4 (thorough: 5) boxes over the alphabet in MCContainer are realised with pieces of real codestreams; random arrangements beyond that. Trusts the harness's container writer."),
 "C02": ("TLA+ Session spec; recorded sessions over random delivery schedules validated by TLC",
         "Random films (all structure known) and the repository's sample files; random delivery schedules incl. byte-wise and cuts at every structural boundary."),
 "C03": ("TLA+ Session spec: exact byte threshold of every event; recorded sessions validated by TLC",
         "Thresholds are computed from the written file, independent of the decoder; truncated files, retries and containers included."),
 "C04": ("TLA+ Session spec: announcement order; recorded sessions validated by TLC", "Random films of up to 6 frames of all kinds."),
 "C05": ("TLA+ Session spec with reference-slot dataflow; all short films and histories enumerated by TLC (MCSession) and replayed; recorded seek sessions validated by TLC", "Soundness of each reported seek target is decided by the slot dataflow of the spec, and pictures after seeks are compared with sequential decoding."),
 "C06": ("TLA+ Session/Container specs; recorded scan lists validated by TLC", "Every field of every record at every call of random sessions, bare and boxed."),
 "C07": ("TLA+ Scheduler and Areas specs (group readiness, borders, buffers) model-checked by TLC over all interleavings; every arrival script TLC enumerates (MCSchedule) is replayed on the decoder; sessions with permuted and threaded runners validated by TLC", "Models of up to 2x2 and 3x1 groups; scripts of 2x2, 4x1, 2x3 and 6x1 groups x passes with cuts and flushes. Task orders: sequential, reversed, shuffled, real threads."),
 "C08": ("TLA+ Session spec; arrival scripts with flushes enumerated by TLC (MCSchedule) and sample files laid out anew (MCLayout) replayed; recorded sessions with flushes validated by TLC", "Flushes at random need-input points under random delivery, and at section boundaries."),
 "C09": ("TLA+ Session spec; all short films with every choice of skips enumerated by TLC (MCSession) and replayed; recorded sessions validated by TLC", "Random subsets of frames skipped, films and sample files."),
 "C15": ("TLA+ Session automaton over damaged files; recorded sessions validated by TLC", "Mutations of films, containers and sample files; panics, hangs and memory beyond the bound in HostileTrace are violations; small damaged files are measured bytewise and every delivery must agree."),
 "C16": ("TLA+ Headers spec (image header, frame headers, tables of contents): TLC reads the same bytes and compares every reported field; headers it forbids must be refused",
         "Random headers over all fields and alternative encodings, bit flips, random bytes, cut files, and films walked frame by frame.  Custom transform data are only checked for their extent."),
 "C12": ("TLA+ spec of the whole lossless path (bits, entropy codes, trees, predictors, transforms, tiles): TLC decodes the same bytes and compares every sample",
         "Integer depths up to 16 bits.  TLC decodes a sample of the images; all images are compared with a second model in Rust and every difference is referred to TLC."),
 "C13": ("TLA+ Codestream spec (sections, groups, passes, permutation): the same pictures in several layouts, decoded by TLC and by the decoder; sample files whose layout TLC reads (MCLayout) laid out in other orders", "Multi-group pictures that are thin enough for TLC, plus larger ones through the Rust model with TLC as arbiter of differences."),
 "C17": ("TLA+ Entropy spec (prefix, ANS, context maps, hybrid integers, LZ77): TLC decodes the same bytes and compares every value", "Random code shapes over pictures whose samples are the coded values; all images are compared with the writer's values and every difference is referred to TLC."),
 "C18": ("TLA+ spec of the profile coding (command streams, prediction, shuffles, tag lists): TLC computes the profile from the same bytes and compares it byte for byte",
         "Generated profiles over the whole command language, and damaged ones; values beyond 30 bits in the coding are left open."),
 "C10": ("TLA+ Canvas spec (slots, crops, blend modes, saving): TLC decodes the same bytes, composes every frame in exact fractions and compares every sample",
         "Random films of up to 8 frames with sample types and values for which the compositions are exact fractions; samples that are not are left open. All films are compared with a second model in Rust and every difference is referred to TLC."),
 "C11": ("TLA+ Output spec (formats, byte order, channels, alpha, spot colours, orientation, rows): TLC decodes the same bytes and decides which codes every sample of every buffer may hold, and that nothing else is written",
         "Random films, formats per buffer, strides, alignments, orientations and options; wrong buffers must be refused.  Bytes may be dithered.  Samples whose value depends on rounding are left open."),
 "C14": ("TLA+ LimitTrace over the Headers spec: from the same bytes TLC computes the announced sample counts and says which limits must refuse and which must not; recorded decodings with their peak memory are checked",
         "Random image and frame headers, limits at and around the announced counts, and huge announced sizes with a memory bound."),
 "C19": ("TLA+ Canvas spec of patch dictionaries: TLC reads the dictionary from the same bytes, draws the patches and compares every sample; dictionaries it forbids must be refused",
         "Random dictionaries over films, and ones spoilt in one field."),
}
NA = [("C20", "Accuracy of lossy decoding is a numerical tolerance against a floating-point reference (DCT, colour conversion, filters); TLA+/TLC has no real arithmetic and an explicit-state model of it would only restate the code. Lossy paths are still covered for determinism (C02, C05, C07, C08, C09) and hostile input (C15).")]
claimed = list(CHECKS)
allp = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
na = [{"property": p, "reason": r} for p, r in NA if p not in claimed]
na += [{"property": p, "reason": "The check of this property is not built yet."} for p in allp if p not in claimed and p not in [x[0] for x in NA]]
m = {"version": 1, "setup_cmd": "python3 /verif/run.py build",
 "hooks": {"guard": "none", "enable": "The checks use the public API only; no hooks are needed.", "source_commits": []},
 "checks": [{"property": p, "quick_cmd": f"python3 run.py {p} quick", "thorough_cmd": f"python3 run.py {p} thorough",
   "technique": TECH[p][0], "level": "model_checking", "level_note": TECH[p][1]} for p in claimed],
 "not_applicable": na,
 "notes": "Specifications in /verif/spec (TLA+, checked with TLC); harness in /verif/harness; DESIGN.md explains how each property is decided."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
