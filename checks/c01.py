"""C01: decoding of well-formed WAV input (spec/Wav.tla)."""


def le(v, n):
    return [(v >> (8 * i)) & 255 for i in range(n)]


def random_file(r, big):
    ch = r.choice([1, 1, 2, 2, 3, 4, 5, 8, r.randint(6, 40), r.choice([9, 16, 64, 257])])
    n = r.choice([1, 2, 3, 7, 31, 64] if ch < 9 else [1, 2, 3]) * ch + (r.randrange(ch) if r.random() < .2 else 0)
    tag = r.choice([1, 1, 1, 65534])
    ext = None if r.random() < .4 else [r.randrange(256) for _ in range(r.choice([0, 1, 2, 22, 40, 127, 128, 200]))]
    body = le(tag, 2) + le(ch, 2) + le(r.choice([8000, 16000, 44100, 48000, 96000, 192000, 1, r.randrange(1, 1 << r.randint(1, 31)), (1 << 31) - 1]), 4) + \
        le(r.randrange(1 << 31), 4) + le(r.randrange(65536), 2) + le(16, 2)
    if ext is not None:
        body += le(len(ext), 2) + ext
    b = list(b"RIFF") + le(r.randrange(1 << 32), 4) + list(b"WAVE") + list(b"fmt ") + le(len(body), 4) + body
    if tag == 65534:
        k = r.choice([4, 4, 0, 8, 130])
        b += list(b"fact") + le(k, 4) + [r.randrange(256) for _ in range(k)]
    for _ in range(r.choice([0, 0, 1, 2, 4])):
        k = 2 * r.choice([0, 1, 5, 13, 70, 150])
        p = [r.randrange(256) for _ in range(k)]
        if k >= 10 and r.random() < .3:
            p[0:8] = list(b"data") + le(4, 4)
        b += list(r.choice([b"LIST", b"JUNK", b"bext", b"fact", b"dat_", b"Data", b"id3 "])) + le(k, 4) + p
    b += list(b"data") + le(2 * n, 4)
    for _ in range(n):
        b += le(r.choice([-32768, 32767, 0, -1, 1, r.randrange(-32768, 32768)]) & 65535, 2)
    t = r.choice([0, 0, 1, 2, 9, 24])
    b += [r.randrange(256) for _ in range(t)] if r.random() < .5 else (list(b"LIST") + le(4, 4) + [1] * 4)[:t]
    return b, n


def reads_for(r, n):
    k = r.random()
    if k < .25:
        return [n, 3]
    if k < .5:
        return [n + r.choice([1, 5, 40])] * 2
    out, left = [], n
    while left > 0 and len(out) < 6:
        q = r.randrange(0, left + 3)
        out.append(q)
        left -= q
    return out + [n + 2]


def run(ctx):
    drv = ctx.build("drv_wav")["drv_wav"]
    gen = ctx.generate("WavMC", spec="Spec", consts={"Mode": "good", "Big": ctx.thorough},
                       invariants=["RoundTrip", "InBounds", "DataChunkOnly", "Case"],
                       properties=["Progress"], what="WavMC good files")
    cases = []
    for g in gen:
        cases.append({"bytes": g["bytes"], "reads": reads_for(ctx.rng, 6)})
    for _ in range(ctx.scale(500, 6000)):
        b, n = random_file(ctx.rng, ctx.thorough)
        cases.append({"bytes": b, "reads": reads_for(ctx.rng, n)})
    # big ones: long chunks before the samples, many samples
    for junk, n in [(70000, 6), (65536, 2), (140000, 3), (0, 70001), (12, 140003)] + [(200000, 300001)] * ctx.thorough:
        b = list(b"RIFF") + le(0, 4) + list(b"WAVEfmt ") + le(16, 4) + le(1, 2) + le(2 if n % 2 == 0 else 1, 2) + le(8000, 4) + le(16000, 4) + le(2, 2) + le(16, 2)
        b += (list(b"LIST") + le(junk, 4) + list(ctx.rng.randbytes(junk)) if junk else []) + list(b"data") + le(2 * n, 4) + list(ctx.rng.randbytes(2 * n)) + [7] * 5
        cases.append({"bytes": b, "reads": reads_for(ctx.rng, n)})
    for chunks in [15, 16, 17, 33, 100, 300]:      # many chunks before the samples
        b = list(b"RIFF") + le(0, 4) + list(b"WAVEfmt ") + le(16, 4) + le(1, 2) + le(1, 2) + le(8000, 4) + le(16000, 4) + le(2, 2) + le(16, 2)
        for _ in range(chunks):
            k = ctx.rng.choice([0, 2, 4])
            b += list(ctx.rng.choice([b"LIST", b"JUNK", b"cue "])) + le(k, 4) + [0] * k
        cases.append({"bytes": b + list(b"data") + le(6, 4) + [1, 2, 3, 4, 5, 255], "reads": reads_for(ctx.rng, 3)})
    ctx.drive_and_judge(drv, cases, "WavTrace", "WavViolations", "WAV loading vs Wav.tla")
    ctx.assumptions.append("ancillary chunks of even size (odd-sized ones carry a pad byte; see DESIGN.md)")
