"""C06: batch runs (spec/Batch.tla)."""
import json
import os

import life
import vp


NOWHERE = ["@/" + "n" * 300 + ".csv", "@/no/such/dir/x.csv", "@/r0.wav/x.csv", "@", "@/" + "deep/" * 1000 + "x", "/dev/full"]


def main_case(drv, exe, signals, args, texts, **k):
    return dict(op="main", exe=exe, sigs=signals, args=args, texts=texts, cwd=vp.REPO, **k)


def alone(ctx, drv, exe, signals, flags, pairs):
    """What each pair gives on its own, through the program's single-pair mode."""
    todo = sorted({(json.dumps(f), p) for f in flags for p in pairs})
    cases = [main_case(drv, exe, {k: v for k, v in signals.items() if "@/%s.wav" % k in p},
                       ["--reference_file=" + p[0], "--degraded_file=" + p[1], "--results_csv=@/out.csv", "--output_debug=@/out.json"] + json.loads(f),
                       {"junk.wav": "not audio at all, but long enough to look at" * 3}) for f, p in todo]
    base = []
    for (f, p), r in zip(todo, ctx.drive(drv, cases, timeout=120, keep=True)):
        ok = len(r.get("json", {}).get("objs", [])) == 1 and len(r["console"]["scores"]) > 0
        base.append({"key": f, "ref": p[0], "deg": p[1], "ok": ok, "score": r["console"]["scores"][0] if ok else "",
                     "row": r["csv"]["rows"][1] if ok and len(r["csv"]["rows"]) == 2 else [], "hash": r["json"]["objs"][0]["hash"] if ok else ""})
    path = os.path.join(ctx.work, "alone.json")
    json.dump(base, open(path, "w"))
    return path, base


def run(ctx):
    bins = ctx.build("drv_cli", "visqol")
    drv, exe = bins["drv_cli"], bins["visqol"]
    r = ctx.rng
    gen = ctx.generate("BatchMC", spec="Spec", consts={"MaxLen": ctx.scale(7, 8), "Syms": ["a", "b", ",", "lf", "crlf"]},
                       invariants=["StreamIsDefinition", "Case"], properties=["Monotone"], what="BatchMC")
    texts = [g["t"] for g in gen]
    r.shuffle(texts)
    texts = texts[:ctx.scale(12000, 10**9)]
    names = ["/a/ref 1.wav", "x.wav", "d/../e.wav", " lead.wav", "trail.wav ", "", "é.wav", "\"q\".wav", "c:\\d.wav", "reference", "degraded",
             "#c.wav", "# note", "//n/x.wav", ";s.wav", "%d.wav", "a;b.wav", "'s.wav", "\tt.wav", "-", "~/h.wav", "$x.wav", "!b.wav", "*.wav", "a|b.wav",
             "REFERENCE", "0", "nan", "a=b.wav", "[1].wav", "s/" + "n" * 300 + ".wav", "/" + "deep/" * 150 + "f.wav", "l" * 1100, "n" * 4100 + ".wav"]
    for i in range(ctx.scale(1500, 20000)):
        t = ""
        for _ in range(r.randint(0, 9)):
            n = r.choice([0, 1, 2, 2, 2, 2, 2, 3, 5])
            t += ",".join(r.choice(names[:11] if i % 2 else names[:-4]) for _ in range(n)) + r.choice(["\n", "\n", "\r\n", "\n\n", "\r\n\r\n"])
        if t and r.random() < .4:
            t = t.rstrip("\r\n")
        texts.append(t)
    cases = [{"op": "pairs", "texts": texts[i:i + 40]} for i in range(0, len(texts), 40)]
    ctx.drive_and_judge(drv, cases, "CliTrace", "BatchViolations", "batch texts vs Batch.tla", jenv={"BASE": os.devnull})

    # long rows and many rows: the text is built from the rows here, and the rows are what is expected
    cases = []
    for i in range(ctx.scale(120, 1500)):
        many = i % 12 == 0
        rows = [[r.choice(names[:5] if many else names[1:]) or "x" for _ in range(r.choice([2, 2, 2, 3]))]
                for _ in range(r.choice([255, 256, 257, 1000, 1030]) if many else r.randint(1, 6))]
        cases.append({"op": "pairs", "rows": rows, "texts": [r.choice(["\n", "\r\n"]).join(["reference,degraded"] + [",".join(x) for x in rows]) + r.choice(["\n", ""])]})
    ctx.drive_and_judge(drv, cases, "CliTrace", "BatchRowsViolations", "long batch files", jenv={"BASE": os.devnull})

    # the program itself
    signals = {k: v for k, v in life.sigs(r).items() if k in ("r0", "d0", "r1", "d1", "late", "tiny", "fast", "silent")}
    signals["empty"] = life.sig("speech", 9, 0, 8000)
    signals["lead"] = life.sig("speech", 12, 8000, 8000, ["delay", 16000])      # two seconds of silence first
    signals["short"] = life.sig("speech", 6, 2400, 8000)
    w = lambda k: "@/%s.wav" % k
    good = [(w("r0"), w("d0")), (w("r1"), w("d1")), (w("r0"), w("late")), (w("r1"), w("d0")), (w("d0"), w("d0")), (w("r0"), w("silent"))]
    bad = [(w("tiny"), w("d0")), (w("fast"), w("d0")), (w("gone"), w("d0")), (w("r0"), w("gone")), (w("junk"), w("d0")), (w("r0"), w("junk")), (w("empty"), w("d1")), (w("lead"), w("short")),
           (w("n" * 300), w("d0")), (w("r1"), "@/" + "deep/" * 1000 + "x.wav"), ("@", w("d1"))]
    sp = ["--use_speech_mode", "--nouse_lattice_model"]
    flags = [sp + ["--disable_global_alignment"], sp, sp + ["--search_window_radius=5"], ["--use_speech_mode"], ["--search_window_radius=10"]]
    path, base = alone(ctx, drv, exe, signals, flags, good + bad)
    if not any(b["ok"] for b in base) or all(b["ok"] for b in base):
        ctx.report(["no-pair-can-be-scored-alone" if not any(b["ok"] for b in base) else "every-pair-is-scored"], {"in": base})
    cases = []
    for i in range(ctx.scale(64, 900)):
        mix = r.choice([.3, .6, .9])
        if i % 16 == 15:                                    # a long run, mostly of pairs that fail
            mix = .15
        rows = [r.choice(good if r.random() < mix else bad) for _ in range(r.randint(12, 20) if i % 16 == 15 else r.randint(0, 6))]
        eol = r.choice(["\n", "\r\n"])
        lines = ["reference,degraded"] + [",".join(p) for p in rows]
        for _ in range(r.choice([0, 0, 1, 2])):
            lines.insert(r.randint(1, len(lines)), r.choice(["", w("r0"), "nothing here"]))
        text = eol.join(lines) + r.choice([eol, "", eol + eol])
        f = r.choice(flags)
        csv, js = r.random() < .8, r.random() < .8
        args = ["--batch_input_csv=@/batch.csv"] + f + (["--results_csv=@/out.csv"] if csv else []) + (["--output_debug=@/out.json"] if js else [])
        # a result file that cannot be written costs no result
        if not csv and r.random() < .6:
            args.append("--results_csv=" + r.choice(NOWHERE))
        if not js and r.random() < .6:
            args.append("--output_debug=" + r.choice(NOWHERE))
        if r.random() < .2:
            args += ["--reference_file=" + w("r0"), "--degraded_file=" + w("d0")]
        if r.random() < .3:
            args.append("--verbose")
        used = {k: v for k, v in signals.items() if w(k) in text or k in ("r0", "d0")}
        cases.append(main_case(drv, exe, used, args, {"batch.csv": text, "junk.wav": "not audio at all, but long enough to look at" * 3},
                               key=json.dumps(f), csv=csv, json=js))
    ctx.drive_and_judge(drv, cases, "CliTrace", "BatchRunViolations", "batch runs of the program vs each pair alone", timeout=120, jenv={"BASE": path})
