"""C15: reference patches beyond the degraded signal are dropped (spec/PatchMatch.tla)."""


def run(ctx):
    drv = ctx.build("drv_match")["drv_match"]
    ctx.mc("PatchMC", spec="Spec", consts={"P": 3, "N": 2, "K": 1, "W": 4, "MaxRad": 2, "Neg": False, "Emit": False},
           invariants=["Suffix", "Reachable"], what="PatchMC dropping")
    r, cases = ctx.rng, []
    # every position of one to three patches around the end of the degraded signal
    for w in (1, 2, 3, 4, 5):
        for n in (1, 2, 5, 9):
            for start in range(0, n + 2 * w + 3):
                for gap in ([1, w] if w > 1 else [1]):
                    for p in (1, 2, 3):
                        for rad in (0, 1, 3):
                            cases.append({"op": "match", "n": n, "w": w, "rad": rad, "fd": "0.25",
                                          "r": [start + gap * k for k in range(p)],
                                          "sim": [[1 + (i * 7 + j * 3) % 5 for j in range(n)] for i in range(p)]})
    r.shuffle(cases)
    cases = cases[:ctx.scale(1500, 100000)]
    for n in (1, 7, 30):
        for rad in (0, 1, 60):
            cases.append({"op": "match", "n": n, "w": 3, "rad": rad, "fd": "0.25", "r": [], "sim": []})
    for _ in range(ctx.scale(300, 3000)):
        w, n, p = r.randint(1, 30), r.randint(1, 80), r.randint(1, 6)
        st, pos = [], r.randint(0, n + w)
        for _ in range(p):
            st.append(pos)
            pos += r.randint(1, w)
        cases.append({"op": "match", "n": n, "w": w, "rad": r.choice([1, 2, 60]), "fd": "0.02",
                      "r": st, "sim": [[r.randint(1, 9) for _ in range(n)] for _ in range(p)]})
    ctx.drive_and_judge(drv, cases, "PatchTrace", "DropViolations", "patch dropping vs PatchMatch.tla")
