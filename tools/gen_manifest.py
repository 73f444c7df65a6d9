#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json; a property is claimed when checks/cNN.py exists."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GEN = "TLA+ specification model-checked with TLC; "
REPLAY = "its enumerated behaviours and random ones are replayed into the real code, whose recorded behaviour TLC validates against the specification"
TRUST = " Trusts TLC, the Java double-arithmetic override (F64), the driver, and where the code calls them the stand-ins for pffft and TFLite in /verif/shim."
T = {
    "C01": ("WAV reader state machine (Wav.tla)", "All header variants x chunk layouts within the bounds of WavMC plus random files; every sample compared exactly."),
    "C02": ("WAV reader state machine (Wav.tla) with corruptions and truncations", "Every truncation and single-field corruption of the enumerated files plus random ones."),
    "C03": ("result well-formedness predicates over pipeline traces (Pipeline.tla)", "Every result of random and adversarial comparisons is judged by the specification."),
    "C04": ("life-cycle state machine with a memory of results (Lifecycle.tla)", "Histories enumerated by TLC are replayed on real instances; results compared bit for bit."),
    "C05": ("loader/predictor concurrency model (Conc.tla), schedules replayed and recorded", "All interleavings of the model within the bounds; recorded call logs of real threads validated; ThreadSanitizer-built driver."),
    "C06": ("batch processing state machine (Batch.tla)", "Enumerated and random batch files run through the real parser and command line."),
    "C07": ("results-writer state machine (Writer.tla)", "Histories of writes enumerated by TLC; resulting files parsed and validated."),
    "C08": ("command-line decision table (Cli.tla)", "Exhaustive over the abstract option space, replayed into the real parser in forked processes."),
    "C09": ("API state machine (Lifecycle.tla, ApiMC.tla)", "All configurations x call orders within the bounds replayed."),
    "C10": ("life-cycle state machine (Lifecycle.tla)", "All histories within the bounds replayed plus random longer ones."),
    "C11": ("mode decision tables over pipeline traces (Pipeline.tla)", "All mode/option combinations on generated signals; results judged by the specification."),
    "C12": ("segmentation state machine (Segmentation.tla)", "Exhaustive over spectrogram/patch lengths within the bounds, all replayed."),
    "C13": ("voice activity state machine (Segmentation.tla)", "Exhaustive over loud/quiet histories within the bounds, replayed as samples."),
    "C14": ("patch assignment transition system (PatchMatch.tla)", "The dynamic programme is shown optimal against all assignments by TLC within the bounds; its cases and random ones replayed, whole answer compared."),
    "C15": ("patch dropping rules (PatchMatch.tla)", "Exhaustive over starts, lengths and windows within the bounds, replayed."),
    "C16": ("realignment transition system (PatchMatch.tla)", "All result lists within the bounds; replayed through the real realigner with recorded component calls."),
    "C17": ("time segment definition (PatchMatch.tla)", "All start/end quarter-samples within the bounds replayed. One recorded known finding."),
    "C18": ("delay channel and alignment (Align.tla)", "All bursts x delays within the bounds replayed; random signals validated against the envelope/correlation definition."),
    "C19": ("alignment truncation (Align.tla)", "As C18, with the truncation equations."),
    "C20": ("framing state machine (Spectro.tla)", "Framing exhaustive; frame contents on random signals."),
    "C21": ("filter bank definition (Spectro.tla)", "Definition evaluated by TLC with IEEE doubles; random bands, rates and signals."),
    "C22": ("spectrogram preparation (Spectro.tla)", "Exhaustive over small spectrograms at the floor values, replayed; random ones."),
    "C23": ("level matching under a volume control (Similarity.tla)", "Exhaustive over small signals and gains; random signals; end-to-end comparisons under gain."),
    "C24": ("NSIM definition (Similarity.tla)", "Algebraic laws exhaustive over small patches; random patches compared with the definition."),
    "C25": ("aggregation definitions (Similarity.tla)", "Exhaustive over small patch lists; random ones through the real pipeline with stub components."),
    "C26": ("speech mapping (Similarity.tla)", "Monotone and clamped at every step of a fine walk; real mapper compared with the definition."),
    "C27": ("support-vector decision function and load/predict life cycle (Mapping.tla)", "Histories of load/train/predict replayed; decision function evaluated by TLC from the model files."),
    "C28": ("lattice tensor protocol (Mapping.tla)", "Recorded tensor writes of the stand-in TFLite validated; histories of predictions."),
    "C29": ("transform and correlation definitions (Align.tla)", "Small cases exhaustive; random lengths, shifts and pairs."),
    "C30": ("matrix register machine (Matrix.tla)", "Histories of operations enumerated by TLC and random ones replayed; every register compared after every operation."),
    "C31": ("identity and delay laws over pipeline traces (Pipeline.tla)", "Random and structured signals in every mode."),
    "C34": ("resource ownership machine (Resources.tla) and the behaviours of the other specifications under counting and access-checking builds", "Every history of one object within the bounds, operations cut short anywhere, replayed as loops whose heap and open files are counted; behaviours of fifteen other specifications under the same law and under AddressSanitizer; needs at growing lengths with wide tolerance. One recorded known finding (libsvm)."),
    "C32": ("published score table (Pipeline.tla)", "Finite table, bundled recordings; non-lattice scores only, tolerance 1e-4."),
}
T = {k: (GEN + a + "; " + REPLAY, b + TRUST) for k, (a, b) in T.items()}
NA = {
    "C33": "The oracle (human listeners) is not in the repository: no specification of the code's state and transitions can express it.",
}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if os.path.exists(os.path.join(V, "checks", pid.lower() + ".py")):
        tech, note = T[pid]
        checks.append({"property": pid, "quick_cmd": "python3 check.py %s quick" % pid,
                       "thorough_cmd": "python3 check.py %s thorough" % pid,
                       "evidence_file": "evidence/%s.json" % pid,
                       "technique": tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": pid, "reason": NA.get(pid, "Not built yet: see DESIGN.md for the plan.")})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked with TLC; drivers in driver/ replay generated behaviours into the code under test "
              "and record its behaviour, which TLC validates against the specification. No hooks are needed in /repo: the drivers use the public API."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed")
