"""C02: damaged and unsupported WAV input (spec/Wav.tla)."""
from c01 import le, random_file, reads_for


def damage(r, b):
    b = list(b)
    k = r.randrange(6)
    if k == 0:
        return b[:r.randrange(len(b))]
    if k == 1:  # one byte of the fixed header
        p = r.choice([0, 1, 2, 3, 8, 9, 10, 11, 12, 13, 14, 15, 20, 21, 22, 23])
        b[p] = r.randrange(256)
        if p == 23:
            b[p] = r.choice([0, 1])
        return b
    if k == 2:
        b[34] = r.choice([0, 1, 7, 8, 15, 17, 18, 20, 22, 23, 24, 32, 64])
        return b
    if k == 3:
        b[16] = r.randrange(64)
        return b
    # change the declared data size / the data id / cut inside the data
    i = bytes(b).rfind(b"data")
    if k == 4:
        if r.random() < .3:
            b[i + r.randrange(4)] = r.randrange(256)
        else:
            b[i + 4:i + 8] = le(r.choice([0, 1, 2, 3, 9, 10, 500, 501, 70000, 131072]), 4)
        return b
    return b[:min(len(b), i + 8 + r.randrange(12))]


def run(ctx):
    drv = ctx.build("drv_wav")["drv_wav"]
    gen = ctx.generate("WavMC", spec="Spec", consts={"Mode": "bad", "Big": ctx.thorough},
                       invariants=["InBounds", "DataChunkOnly", "Case"],
                       properties=["Progress"], what="WavMC damaged files")
    cases = []
    for g in gen:
        cases.append({"bytes": g["bytes"], "reads": reads_for(ctx.rng, 6)})
    if not ctx.thorough:
        ctx.rng.shuffle(cases)
        cases = cases[:2500]
    cases.append({"bytes": [], "reads": [1]})
    for _ in range(ctx.scale(700, 8000)):
        b, n = random_file(ctx.rng, ctx.thorough)
        d = damage(ctx.rng, b)
        if ctx.rng.random() < .15:
            d = damage(ctx.rng, d) if len(d) > 60 else d
        cases.append({"bytes": d, "reads": reads_for(ctx.rng, n)})
    # every byte of small headers, every format tag and sample depth below 256
    for tag, ext in ((1, []), (65534, le(22, 2) + [0] * 22)):
        b = list(b"RIFF") + le(52, 4) + list(b"WAVEfmt ") + le(16 + len(ext), 4) + le(tag, 2) + le(2, 2) + le(8000, 4) + le(32000, 4) + le(4, 2) + le(16, 2) + ext
        b += (list(b"fact") + le(4, 4) + le(2, 4) if tag != 1 else []) + list(b"LIST") + le(2, 4) + [1, 2] + list(b"data") + le(8, 4) + [1, 2, 3, 4, 5, 6, 7, 8]
        for p in range(len(b) - 8):
            if p >= len(b) - 10:   # the declared data size stays small
                continue
            vals = range(256) if p in (20, 34) else {0, 1, 2, 3, 6, 17, 32, 127, 128, 255, b[p] ^ 1, b[p] ^ 32, b[p] ^ 128}
            for v in set(vals) - {b[p]}:
                cases.append({"bytes": b[:p] + [v] + b[p + 1:], "reads": [5, 2]})
        for n in range(len(b)):
            cases.append({"bytes": b[:n], "reads": [5, 2]})
    # sizes of the parts before the samples that reach past the end, or would be negative if signed
    for size in [200, 32767, 32768, 40000, 65526, 65535, 65536, 1 << 24, (1 << 31) - 1, 1 << 31, (1 << 31) + 100, (1 << 32) - 60, (1 << 32) - 8, (1 << 32) - 1]:
        fmt = le(2, 2) + le(8000, 4) + le(32000, 4) + le(4, 2) + le(16, 2)
        head, data = list(b"RIFF") + le(52, 4) + list(b"WAVEfmt "), list(b"data") + le(8, 4) + [1, 2, 3, 4, 5, 6, 7, 8]
        if size < 65536:
            cases.append({"bytes": head + le(18, 4) + le(1, 2) + fmt + le(size, 2) + data, "reads": [5, 2]})
        for skip in ([], [0, 0, 0, 0]):
            cases.append({"bytes": head + le(18, 4) + le(65534, 2) + fmt + le(0, 2) + list(b"fact") + le(size, 4) + skip + data, "reads": [5, 2]})
            cases.append({"bytes": head + le(16, 4) + le(1, 2) + fmt + list(b"LIST") + le(size, 4) + skip + data, "reads": [5, 2]})
        cases.append({"bytes": head + le(size, 4) + le(1, 2) + fmt + le(0, 2) + data, "reads": [5, 2]})
    # big and cut short
    for n, have in [(70001, 70000), (140000, 66000), (140000, 139999)]:
        b = list(b"RIFF") + le(0, 4) + list(b"WAVEfmt ") + le(16, 4) + le(1, 2) + le(2, 2) + le(8000, 4) + le(32000, 4) + le(4, 2) + le(16, 2)
        cases.append({"bytes": b + list(b"data") + le(2 * n, 4) + list(ctx.rng.randbytes(2 * have)), "reads": [n, 4]})
    ctx.drive_and_judge(drv, cases, "WavTrace", "WavViolations", "damaged WAV loading vs Wav.tla")
