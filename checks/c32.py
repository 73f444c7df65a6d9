"""C32: the published scores (spec/Pipeline.tla)."""
import os

import life
import pipeline as P
import vp

T = os.path.join(vp.REPO, "testdata")
S = os.path.join(T, "conformance_testdata_subset")
AUDIO = [("strauss", "strauss48_stereo", "strauss48_stereo_lp35"), ("steely", "steely48_stereo", "steely48_stereo_lp7"),
         ("sopr", "sopr48_stereo", "sopr48_stereo_256kbps_aac"), ("ravel", "ravel48_stereo", "ravel48_stereo_128kbps_opus"),
         ("moonlight", "moonlight48_stereo", "moonlight48_stereo_128kbps_aac"),
         ("harpsichord", "harpsichord48_stereo", "harpsichord48_stereo_96kbps_mp3"),
         ("guitar", "guitar48_stereo", "guitar48_stereo_64kbps_aac"), ("glock", "glock48_stereo", "glock48_stereo_48kbps_aac"),
         ("contrabassoon", "contrabassoon48_stereo", "contrabassoon48_stereo_24kbps_aac"),
         ("castanets", "castanets48_stereo", "castanets48_stereo")]


def run(ctx):
    drv = ctx.build("drv_pipe")["drv_pipe"]
    P.plans(ctx)
    cases = []

    def case(name, ref, deg, **k):
        q = dict(life.opt(radius=60, lattice=False), **k)
        cases.append({"fork": True, "opt": q, "pairs": [{"name": name, "ref": {"file": ref}, "deg": {"file": deg}}]})

    for n, a, b in AUDIO:
        case(n, os.path.join(S, a + ".wav"), os.path.join(S, b + ".wav"))
    g, g5 = os.path.join(S, "guitar48_stereo.wav"), os.path.join(T, "short_duration/5_second/guitar48_stereo_5_sec.wav")
    ca, cat = os.path.join(T, "clean_speech/CA01_01.wav"), os.path.join(T, "clean_speech/transcoded_CA01_01.wav")
    case("shortdeg", g, g5)
    case("shortref", g5, g)
    case("ca01audio", ca, cat)
    case("ca01", ca, cat, speech=True)
    case("ca01unscaled", ca, ca, speech=True, unscaled=True)
    case("different", g, ca, speech=True)
    case("bad", os.path.join(T, "alignment/reference.wav"), os.path.join(T, "alignment/degraded.wav"), speech=True)
    ctx.rng.shuffle(cases)
    ctx.drive_and_judge(drv, cases, "PipeTrace", "TableViolations", "published scores", timeout=400, per=1)
    ctx.assumptions.append("the stand-in for pffft computes the same transforms; scores of the trained lattice are not covered")
