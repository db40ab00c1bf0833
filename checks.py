"""What each property's check consists of."""
BASE_ASSUMPTIONS = [
    "The harness's writer, feed and buffers (harness/src) are trusted; every check that passes exercised them against the decoder.",
    "Bounds: the model-checked instances and sample sizes listed in coverage.steps.",
]

# --- alterations a validated record must not survive -------------------------
def c_session(r, rng):
    """Changes one answer in a session log."""
    L = [e for e in r["log"] if e["op"] != "panic"]
    if not L:
        return False
    e = rng.choice(L)
    done = e["r"] == "done"
    k = rng.randrange(6)
    if k == 0 and done and e["op"] in ("init", "next", "decode", "skip") and e["v"] > 0 and not r["opaque"] \
            and e is r["log"][0] and r["bare"]:
        e["v"] = r["info"] - 1
        return True
    if k == 1 and done and e.get("sc"):
        e["sc"][-1]["off"] += 1
        return True
    if k == 2 and done and e["op"] == "next" and not r["opaque"]:
        e["name"] += "x"
        return True
    if k == 3 and done and e["op"] == "decode" and not any(x["op"] == "seek" for x in r["log"]):
        e["pix"] = "0"
        return True
    if k == 4 and done and "more" in e and e["op"] in ("decode", "skip"):
        e["more"] = not e["more"]
        return True
    if k == 5 and done:
        e["n"] += 1
        return True
    return False

def sessions(kind, quick, thorough, seed=0, dim=12):
    return {"do": "trace", "name": f"sessions-{kind}", "module": "SessionTrace",
            "args": ["sessions", "--kind", kind, "--dim", dim], "seed": seed,
            "quick": {"n": quick}, "thorough": {"n": thorough}, "corrupt": c_session}

def large(kind, quick, thorough, seed):
    """Images of several groups, with filters, noise and upsampling."""
    a = sessions(kind, quick, thorough, seed, 400)
    a["name"] += "-large"
    a["args"] += ["--frames", 2]
    return a

def corpus(kind, quick, thorough, seed=0, qmax=6100, tmax=130000):
    return {"do": "trace", "name": f"samples-{kind}", "module": "SessionTrace",
            "args": ["corpus", "--kind", kind], "seed": seed,
            "quick": {"per": quick, "max": qmax}, "thorough": {"per": thorough, "max": tmax}, "corrupt": c_session}

def threads(quick, thorough):
    a = sessions("threads", 1500 * quick, 1500 * thorough, 7)
    b = large("threads", 600 * quick, 600 * thorough, 70)
    c = {"do": "trace", "name": "samples-threads", "module": "SessionTrace",
         "args": ["corpus", "--kind", "threads", "--coarse", 1], "seed": 71,
         "quick": {"per": 4 * quick, "max": 200000}, "thorough": {"per": 4 * thorough, "max": 2000000}}
    d = corpus("threads", 3 * quick, 6 * thorough, 72)
    d["name"] += "-small"
    return [a, b, c, d]

def hostile(quick, thorough):
    return {"do": "trace", "name": "damaged-files", "module": "HostileTrace", "args": ["hostile"], "seed": 15,
            "quick": {"n": quick, "max": 7000}, "thorough": {"n": thorough, "max": 50000}}

def c_samples(r, rng):
    """Changes one decoded sample."""
    if r["err"] or not r["ch"]:
        return False
    c = rng.choice(r["ch"])
    if not c:
        return False
    c[rng.randrange(len(c))] += rng.choice([-1, 1, 256])
    return True

def samples(kind, quick, thorough, judge, tjudge, seed=0):
    """quick/thorough: images decoded; judge: how many of them the specification decodes as well."""
    return {"do": "trace", "name": f"images-{kind}", "module": "SampleTrace", "args": ["samples", "--kind", kind],
            "seed": seed, "quick": {"n": quick, "judge": judge}, "thorough": {"n": thorough, "judge": tjudge},
            "corrupt": c_samples}

def c_profile(r, rng):
    """Changes one byte of a delivered profile, or the outcome."""
    if r["out"] != "icc" or not r["icc"]:
        return False
    if rng.random() < 0.8:
        k = rng.randrange(len(r["icc"]))
        r["icc"][k] ^= 1 << rng.randrange(8)
    else:
        r["out"] = "InvalidIccStream"
    return True

def profiles(kind, quick, thorough, judge, tjudge, seed):
    return {"do": "trace", "name": f"profiles-{kind}", "module": "IccTrace", "args": ["profiles", "--kind", kind],
            "seed": seed, "quick": {"n": quick, "judge": judge}, "thorough": {"n": thorough, "judge": tjudge},
            "corrupt": c_profile}

def c_film(r, rng):
    """Changes one delivered sample."""
    if r["err"] or not r["shown"]:
        return False
    c = rng.choice(rng.choice(r["shown"]))
    c["px"][rng.randrange(len(c["px"]))] += rng.choice([-1, 1, 200])
    return True

def films(kind, quick, thorough, judge, tjudge, seed, *more):
    return {"do": "trace", "name": f"films-{kind}" + "".join(str(x) for x in more).replace("--", "-"), "module": "CanvasTrace",
            "args": ["films", "--kind", kind] + list(more),
            "seed": seed, "quick": {"n": quick, "judge": judge}, "thorough": {"n": thorough, "judge": tjudge},
            "corrupt": None if kind == "badpatches" else c_film}

def c_meta(r, rng):
    """Changes one reported value."""
    if r["out"] != "info":
        return False
    g = r["got"]
    k = rng.randrange(8)
    if k == 0:
        g["size"][rng.randrange(2)] += 1
    elif k == 1:
        g["o"] = g["o"] % 8 + 1
    elif k == 2:
        g["depth"]["bits"] += 1
    elif k == 3:
        g["ecs"].append({"ty": 0, "assoc": False})
    elif k == 4:
        g["tone"]["target"][1] ^= 8192
    elif k == 5 and r.get("scans"):
        rng.choice(r["scans"])["at"] += 1
    elif k == 6 and r.get("heads"):
        rng.choice(r["heads"])["name"].append(120)
    elif k == 7 and not g["prof"]["icc"] and "intent" in g["prof"]:
        g["prof"]["intent"] = (g["prof"]["intent"] + 1) % 4
    else:
        return False
    # without a reading of its own the profile settles what is open
    return not g["prof"]["icc"]

def headers(kind, quick, thorough, seed):
    return {"do": "trace", "name": f"headers-{kind}", "module": "MetaTrace", "args": ["headers", "--kind", kind],
            "seed": seed, "quick": {"n": quick}, "thorough": {"n": thorough},
            "corrupt": c_meta if kind in ("valid", "frames") else None}

def c_limit(r, rng):
    """Changes the limit a refused file was decoded with, or the outcome."""
    if r["out"] == "size" and r["heads"] == 0:
        r["limit"] = 2147483647
        return True
    if r["out"] == "end":
        r["out"] = "size"
        return True
    return False

def limits(kind, quick, thorough, seed):
    return {"do": "trace", "name": f"limits-{kind}", "module": "LimitTrace", "args": ["limits", "--kind", kind],
            "seed": seed, "quick": {"n": quick}, "thorough": {"n": thorough}, "corrupt": c_limit}

def c_output(r, rng):
    """Changes one byte of a buffer, or the outcome."""
    if r["err"] or not r["frames"]:
        return False
    g = rng.choice(rng.choice(r["frames"]) or [None])
    if g is None:
        return False
    k = rng.randrange(len(g["m"]))
    g["m"][k] ^= 64
    return True

def outputs(quick, thorough, seed, *more):
    return {"do": "trace", "name": "outputs" + "".join(str(x) for x in more).replace("--", "-"), "module": "OutputTrace",
            "args": ["outputs"] + list(more), "seed": seed, "quick": {"n": quick}, "thorough": {"n": thorough},
            "corrupt": c_output}

MC_CONTAINER = {"do": "mc", "name": "box-sequences", "module": "MCContainer", "replay": "boxes", "judge": "SessionTrace",
                "quick": {"cfg": "MCContainer"}, "thorough": {"cfg": "MCContainer5"}}

def schedules(cfg, ng, np, quick, thorough):
    return {"do": "mc", "name": f"arrival-scripts-{cfg}", "module": "MCSchedule", "replay": "schedules", "judge": "SessionTrace",
            "replay_args": ["--ng", ng, "--np", np],
            "quick": {"cfg": f"MCSchedule{cfg}", "replay_args": ["--take", quick]},
            "thorough": {"cfg": f"MCSchedule{cfg}", "replay_args": ["--take", thorough]}}

def histories(cfg, tcfg, quick, thorough):
    """All short films of the model with what is done with their frames, then a seek to every frame."""
    return {"do": "mc", "name": f"histories-{cfg}", "module": "MCSession", "replay": "filmcases", "judge": "SessionTrace",
            "quick": {"cfg": f"MCSession{cfg}", "replay_args": ["--take", quick]},
            "thorough": {"cfg": f"MCSession{tcfg}", "replay_args": ["--take", thorough]}}

def relayouts(kind, quick, thorough, qmax=130000):
    """Sample files (VarDCT mostly) with the sections of their frames in other orders, cut anywhere."""
    return {"do": "mc", "name": "relaid-samples", "module": "MCLayout", "input": ["bytes"], "replay": "relayout", "judge": "SessionTrace",
            "replay_args": ["--kind", kind],
            "quick": {"input": ["--max", qmax], "replay_args": ["--per", quick]},
            "thorough": {"input": ["--max", 480000], "replay_args": ["--per", thorough]}}

def rule(cfg, name):
    return {"do": "mc", "name": name, "module": "MCSession", "tiers": ("thorough",), "thorough": {"cfg": f"MCSession{cfg}"}}

MC_SCHEDULER = [
    {"do": "mc", "name": "scheduler-2x1", "module": "Scheduler", "quick": {"cfg": "Scheduler21"}, "thorough": {"cfg": "Scheduler21"}},
    {"do": "mc", "name": "scheduler-2x2", "module": "Scheduler", "quick": {"cfg": "Scheduler22"}, "thorough": {"cfg": "Scheduler22rounds"}},
    {"do": "mc", "name": "scheduler-3x1", "module": "Scheduler", "tiers": ("thorough",), "thorough": {"cfg": "Scheduler31"}},
    {"do": "mc", "name": "scheduler-2x2-fine", "module": "Scheduler", "tiers": ("thorough",), "thorough": {"cfg": "Scheduler22fine"}},
    {"do": "mc", "name": "areas", "module": "Areas", "quick": {"cfg": "Areas"}, "thorough": {"cfg": "AreasWide"}},
]

CHECKS = {
    "C01": {"steps": [MC_CONTAINER, sessions("container", 4000, 60000, 1)]},
    "C02": {"steps": [sessions("plain", 4000, 60000, 2), large("plain", 200, 4000, 20), corpus("plain", 6, 40, 2), relayouts("plain", 4, 60)]},
    "C03": {"steps": [sessions("bare", 4000, 60000, 3), sessions("container", 2000, 30000, 30), relayouts("bare", 4, 60)]},
    "C04": {"steps": [sessions("all", 5000, 60000, 4, 6)]},
    "C05": {"steps": [histories("4", "4", 4000, 16635), rule("5", "seek-rule-5-frames"), rule("4w", "seek-rule-3-slots"),
                      sessions("seek", 5000, 60000, 5), corpus("seek", 6, 40, 5)]},
    "C06": {"steps": [sessions("scan", 4000, 60000, 6), sessions("all", 2000, 30000, 60), corpus("scan", 4, 20, 6)]},
    "C07": {"steps": MC_SCHEDULER + [schedules("22", 2, 2, 648, 648), schedules("41", 4, 1, 648, 648),
                                     schedules("23", 2, 3, 1500, 36720), schedules("61", 6, 1, 1500, 36720)]
                     + threads(1, 12)},
    "C08": {"steps": [schedules("23", 2, 3, 1000, 36720), schedules("41", 4, 1, 648, 648), sessions("flush", 4000, 60000, 8), large("flush", 400, 6000, 80), corpus("flush", 3, 40, 8), relayouts("flush", 8, 80, 480000)]},
    "C09": {"steps": [histories("3ds", "3ds", 3294, 3294), sessions("skip", 5000, 60000, 9), corpus("skip", 6, 40, 9), relayouts("skip", 3, 40)]},
    "C10": {"steps": [films("canvas", 30000, 1000000, 2500, 60000, 51),
                      films("canvas", 3000, 60000, 400, 6000, 52, "--dim", 20, "--frames", 8, "--rich", 1),
                      films("canvas", 1500, 30000, 200, 4000, 53, "--dim", 4, "--frames", 4, "--long", 300)]},
    "C11": {"steps": [outputs(8000, 300000, 101), outputs(2000, 60000, 102, "--dim", 20),
                      outputs(400, 20000, 103, "--dim", 4, "--long", 300),
                      outputs(5000, 200000, 104, "--effects", 1), outputs(1000, 40000, 105, "--dim", 20, "--effects", 1),
                      outputs(300, 20000, 106, "--dim", 4, "--long", 300, "--effects", 1)]},
    "C12": {"steps": [samples("small", 60000, 2000000, 1500, 30000, 12), samples("thin", 20000, 400000, 200, 4000, 13),
                      samples("lf", 4000, 60000, 24, 400, 14), samples("big", 1500, 30000, 0, 0, 15),
                      samples("mixed", 3, 30, 3, 30, 16)]},
    "C13": {"steps": [samples("layout", 6000, 200000, 150, 4000, 21), samples("lf", 3000, 60000, 24, 400, 22),
                      samples("biglf", 1000, 20000, 0, 0, 23), samples("biglayout", 100, 3000, 0, 0, 24), relayouts("all", 8, 120, 480000)]},
    "C14": {"steps": [limits("headers", 20000, 400000, 81), limits("films", 12000, 200000, 82),
                      limits("huge", 8000, 200000, 83)]},
    "C15": {"steps": [hostile(40000, 1000000), sessions("all", 2000, 20000, 15)]},
    "C16": {"steps": [headers("valid", 12000, 200000, 71), headers("bad", 12000, 200000, 72),
                      headers("random", 12000, 200000, 73), headers("cut", 2000, 20000, 74),
                      headers("frames", 5000, 80000, 75), headers("frames-bad", 6000, 100000, 76)]},
    "C17": {"steps": [samples("tokens", 100000, 3000000, 3000, 60000, 31), samples("small", 20000, 400000, 500, 10000, 32),
                      profiles("code", 8000, 300000, 8000, 300000, 33)]},
    "C18": {"steps": [profiles("valid", 20000, 1000000, 5000, 100000, 41),
                      profiles("payload", 6000, 200000, 6000, 200000, 42)]},
    "C19": {"steps": [films("patches", 20000, 600000, 1200, 30000, 61), films("badpatches", 2000, 60000, 2000, 60000, 62),
                      films("all", 3000, 60000, 300, 6000, 63, "--dim", 20, "--rich", 1),
                      films("all", 2000, 40000, 200, 4000, 64, "--dim", 4, "--frames", 4, "--long", 300)]},
}
