"""C07: result files are append-only and report what was computed (spec/Writer.tla)."""
FILES = ["c0", "c1", "j0"]
NAMES = ["a.wav", "some dir/ref 1.wav", "/x/y_z-2.wav", "Ünïcode/é.wav", "d.wav", "", "tab\tname.wav", "back\\slash.wav", "semi;colon{}[].wav"]


def num(r):
    k = r.random()
    if k < .5:
        return repr(r.uniform(0, 1))
    if k < .6:
        return r.choice(["0", "1", "5", "0.1", "0.30000000000000004", "1e-05", "123456789", "2.5", "-1", "0.999999999999"])
    return repr(r.choice([-1, 1]) * r.uniform(1, 10) * 10 ** r.randint(-12, 10))


def msg(r, bands, patches=None):
    v = lambda n: [num(r) for _ in range(n)]
    return dict(ref=r.choice(NAMES), deg=r.choice(NAMES), mos=repr(r.uniform(1, 5)) if r.random() < .8 else r.choice(["1", "5", "4.123456789"]),
                vnsim=num(r), lag=num(r), fvnsim=v(bands), fvnsim10=v(bands), fstd=v(bands), fen=v(bands),
                bands=[repr(50 + 200.25 * i) for i in range(bands)],
                patches=[dict(sim=num(r), means=v(bands), rs=num(r), re=num(r), ds=num(r), de=num(r)) for _ in range(patches if patches is not None else r.randint(0, 4))])


def run(ctx):
    drv = ctx.build("drv_cli")["drv_cli"]
    r = ctx.rng
    gen = ctx.generate("WriterMC", spec="Spec", consts={"MaxOps": ctx.scale(4, 5)},
                       invariants=["OneHeader", "HeaderUnlessOld", "Ordered", "Case"], properties=["AppendOnly"], what="WriterMC")
    cases = []

    def case(steps, bands, patches=None):
        out = []
        for s in steps:
            s = dict(s)
            if s["f"] == "put":
                s["text"] = "" if s.pop("empty") else r.choice(["old line\n", "reference,degraded,moslqo\nx,y,1\n", '{"moslqo":1.0}', "x,y\r\n"])
                if s["file"] == "j0":
                    s["text"] = s["text"] and '{"moslqo":1.0}'
            elif s["f"] == "write":
                s.update(verbose=r.random() < .5, speech=r.random() < .5, lattice=r.random() < .5, msg=msg(r, bands, patches))
            out.append(s)
        cases.append({"op": "write", "files": FILES, "steps": out})

    for g in r.sample(gen, min(len(gen), ctx.scale(1200, 12000))):
        case(g["steps"], r.choice([1, 2, 3]))
    for _ in range(ctx.scale(150, 1500)):
        steps = []
        for _ in range(r.randint(3, 12)):
            k = r.random()
            if k < .8:
                steps.append(dict(f="write", csv=r.choice(["c0", "c0", "c1", ""]), json=r.choice(["j0", ""])))
            elif k < .9:
                steps.append(dict(f="put", file=r.choice(FILES), empty=r.random() < .4))
            else:
                steps.append(dict(f="del", file=r.choice(FILES)))
        case(steps, r.choice([1, 2, 21, 32]))
    # long comparisons: many patches, many bands
    for bands, patches in [(1, 100), (2, 101), (32, 150), (21, 260), (128, 12), (300, 3), (1, 1100)]:
        case([dict(f="write", csv="c0", json="j0"), dict(f="write", csv="c0", json="j0")], bands, patches)
    ctx.drive_and_judge(drv, cases, "WriterTrace", "WriterViolations", "result histories vs Writer.tla")
