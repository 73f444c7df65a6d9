"""Runner shared by all checks: builds the code under test, drives it, lets TLC
judge what it did, and reports.  See DESIGN.md."""
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import time

import build as B

VERIF = B.VERIF
REPO = B.REPO
OUT = B.OUT
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 1)


class CheckError(Exception):
    pass


def java_classes():
    d = os.path.join(OUT, "java")
    src = os.path.join(VERIF, "lib/java/F64.java")
    cls = os.path.join(d, "F64.class")
    if not os.path.exists(cls) or os.path.getmtime(cls) < os.path.getmtime(src):
        os.makedirs(d, exist_ok=True)
        tmp = d + ".%d" % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        r = subprocess.run(["javac", "-cp", TLA, "-d", tmp, src],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise CheckError("javac failed: " + r.stdout)
        for f in os.listdir(tmp):
            os.replace(os.path.join(tmp, f), os.path.join(d, f))
        os.rmdir(tmp)
    return d


def tla_value(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return v if v.startswith("<-") else '"%s"' % v
    if isinstance(v, (list, tuple)):
        return "{" + ", ".join(tla_value(x) for x in v) + "}"
    raise ValueError(v)


class TlcResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        self.generated, self.distinct, self.left = map(int, m[-1]) if m else (0, 0, -1)
        self.ok = "Model checking completed. No error has been found." in out
        self.violated = re.findall(r"Error: Invariant (\S+) is violated|Error: Action property (\S+) is violated", out)
        m = re.search(r"The depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.rng = random.Random("%s/%d" % (pid, seed))
        self.t0 = time.time()
        self.work = os.path.join(OUT, "work", "%s.%d" % (pid, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.validated = 0
        self.evals = 0
        self.samples = []
        self.mc_runs = []
        self.judged = []
        self.violations = []   # (clauses, record)
        self.known_hits = {}
        self.assumptions = []
        self.n = 0
        self.hangs = 0
        self.exhaustive = None

    # ---------------------------------------------------------------- build
    def build(self, *targets, flavour=""):
        try:
            return B.build(list(targets), flavour)
        except B.BuildError as e:
            raise CheckError("build failed:\n" + str(e))

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, spec=None, init=None, next=None, consts=None, invariants=(),
            properties=(), constraints=(), action_constraints=(), postcondition=None,
            view=None, workers=NCPU, env=None, args=(), timeout=600, symmetry=None, heap="6g"):
        self.n += 1
        d = os.path.join(self.work, "tlc%d" % self.n)
        os.makedirs(d)
        cfg = []
        if spec:
            cfg.append("SPECIFICATION " + spec)
        if init:
            cfg.append("INIT " + init)
        if next:
            cfg.append("NEXT " + next)
        for k, v in (consts or {}).items():
            tv = tla_value(v)
            cfg.append("CONSTANT %s %s" % (k, tv if tv.startswith("<-") else "= " + tv))
        for i in invariants:
            cfg.append("INVARIANT " + i)
        for i in properties:
            cfg.append("PROPERTY " + i)
        for i in constraints:
            cfg.append("CONSTRAINT " + i)
        for i in action_constraints:
            cfg.append("ACTION_CONSTRAINT " + i)
        if postcondition:
            cfg.append("POSTCONDITION " + postcondition)
        if view:
            cfg.append("VIEW " + view)
        if symmetry:
            cfg.append("SYMMETRY " + symmetry)
        cfg.append("CHECK_DEADLOCK FALSE")
        c = os.path.join(d, "MC.cfg")
        open(c, "w").write("\n".join(cfg) + "\n")
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Djava.io.tmpdir=" + d,
               "-DTLA-Library=" + SPEC,
               "-cp", ":".join([java_classes(), TLA, CM]), "tlc2.TLC",
               "-config", c, "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
               "-workers", str(workers)] + list(args) + [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ, LC_ALL="C.UTF-8", **(env or {}))
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors="replace", env=e, timeout=timeout, cwd=d)
            out, rc = r.stdout, r.returncode
        except subprocess.TimeoutExpired as ex:
            raise CheckError("TLC timed out on %s" % module)
        res = TlcResult(out, rc)
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        open(os.path.join(d, "out.txt"), "w").write(out)
        return res

    def mc(self, module, **kw):
        """Exhaustive check of a specification's own invariants.  A violation
        here is an error of the specification, not of the code."""
        what = kw.pop("what", module)
        min_states = kw.pop("min_states", 2)
        r = self.tlc(module, **kw)
        if not r.ok:
            raise CheckError("TLC did not accept %s:\n%s" % (what, r.out[-5000:]))
        if r.distinct < min_states:
            raise CheckError("TLC: vacuous model %s (%d states)" % (what, r.distinct))
        self.states += r.distinct
        self.transitions += r.generated
        self.mc_runs.append({"model": what, "states": r.distinct, "transitions": r.generated,
                             "depth": r.depth, "checked": list(kw.get("invariants", ())) +
                             list(kw.get("properties", ()))})
        return r

    def generate(self, module, **kw):
        """TLC enumerates a specification and prints one JSON record per case."""
        r = self.mc(module, **kw)
        out = []
        for line in r.out.splitlines():
            if line.startswith('"{') and line.endswith('}"'):
                out.append(json.loads(json.loads(line)))
        # one print per distinct record (an invariant may be evaluated again)
        seen, uniq = set(), []
        for x in out:
            k = json.dumps(x, sort_keys=True)
            if k not in seen:
                seen.add(k)
                uniq.append(x)
        uniq.sort(key=lambda x: json.dumps(x, sort_keys=True))
        return uniq

    # --------------------------------------------------------------- drivers
    def drive(self, exe, cases, shards=NCPU, timeout=60, env=None, cwd=None, args=(), per=4, keep=False):
        """Runs the driver on the cases; returns one record per case, in order.
        A case that kills the driver (or hangs it) yields a crash record."""
        if not cases:
            return []
        shards = max(1, min(shards, (len(cases) + per - 1) // per))
        parts = [list(range(i, len(cases), shards)) for i in range(shards)]
        self.n += 1
        tag = self.n

        def run(si):
            idx = parts[si]
            out = {}
            pos = 0
            d = os.path.join(self.work, "drv%d_%d" % (tag, si))
            os.makedirs(d)
            cin, cout = os.path.join(d, "in"), os.path.join(d, "out")
            scratch = os.path.join(d, "scratch")
            os.makedirs(scratch)
            crashes, hangs = 0, 0
            while pos < len(idx):
                with open(cin, "w") as f:
                    for i in idx[pos:]:
                        f.write(json.dumps(cases[i]) + "\n")
                if os.path.exists(cout):
                    os.unlink(cout)
                e = dict(os.environ, VERIF_SCRATCH=scratch, **(env or {}))
                p = subprocess.Popen([exe, cin, cout] + list(args), stdout=subprocess.DEVNULL,
                                     stderr=subprocess.DEVNULL, env=e, cwd=cwd or scratch, start_new_session=True)
                # once something hung there is a finding; do not spend long on more
                patience = timeout if not self.hangs else min(timeout, max(20, timeout / 4))
                last, deadline = 0, time.time() + patience
                rc = None
                while True:
                    try:
                        rc = p.wait(0.05 if rc is None else 1)
                        break
                    except subprocess.TimeoutExpired:
                        sz = os.path.getsize(cout) if os.path.exists(cout) else 0
                        if sz != last:
                            last, deadline = sz, time.time() + patience
                        if time.time() > deadline:
                            os.killpg(p.pid, signal.SIGKILL)
                            p.wait()
                            self.hangs += 1
                            hangs += 1
                            rc = "hang"
                            break
                lines = []
                if os.path.exists(cout):
                    data = open(cout, errors="replace").read()
                    lines = data.split("\n")
                    lines = lines[:-1]
                for k, s in enumerate(lines):
                    out[idx[pos + k]] = json.loads(s)
                pos += len(lines)
                if rc == 0 and pos < len(idx):
                    raise CheckError("driver %s stopped early" % exe)
                if rc != 0:
                    if pos >= len(idx):
                        break
                    if rc == 77:
                        raise CheckError("driver %s: bad case %s" % (exe, json.dumps(cases[idx[pos]])[:500]))
                    out[idx[pos]] = {"in": cases[idx[pos]], "crash": "hang" if rc == "hang" else str(rc)}
                    pos += 1
                    crashes += 1
                    if crashes > 60 or hangs > 1:  # enough evidence
                        for i in idx[pos:]:
                            out[i] = {"in": cases[i], "skipped": True}
                        break
            return out

        res = {}
        with cf.ThreadPoolExecutor(shards) as ex:
            for o in ex.map(run, range(shards)):
                res.update(o)
        self.evals += len(cases)
        return [res[i] for i in range(len(cases)) if keep or not res[i].get("skipped")]

    # ----------------------------------------------------------------- judge
    def _judge(self, module, op, records, consts=None, timeout=800, env=None):
        if not records:
            return []
        rejects = []
        alive = list(range(len(records)))
        for attempt in range(25):
            self.n += 1
            tf = os.path.join(self.work, "trace%d.ndjson" % self.n)
            with open(tf, "w") as f:
                for i in alive:
                    f.write(json.dumps(records[i]) + "\n")
            c = {"Violations": "<- " + op}
            c.update(consts or {})
            r = self.tlc(module, spec="JSpec", consts=c, invariants=["Report"],
                         env=dict(env or {}, TRACE=tf), timeout=timeout)
            if r.ok:
                if r.distinct != 2 * len(alive):
                    raise CheckError("%s judged %d of %d records" % (module, r.distinct // 2, len(alive)))
                for line in r.out.splitlines():
                    if line.startswith('"{') and line.endswith('}"'):
                        j = json.loads(json.loads(line))
                        rejects.append((alive[j["reject"] - 1], sorted(j["clauses"])))
                self.states += r.distinct
                self.transitions += r.generated
                return sorted(rejects)
            # A record the specification cannot even evaluate (ill-shaped).
            m = re.findall(r"(?m)^(?:/\\ )?l = (\d+)", r.out)
            if not m or "Error:" not in r.out:
                raise CheckError("TLC failed on %s:\n%s" % (module, r.out[-5000:]))
            k = int(m[-1])
            rejects.append((alive[k - 1], ["unexplainable-record"]))
            self.last_eval_error = r.out[-3000:]
            del alive[k - 1]
            if not alive:
                return rejects
        return sorted(rejects)

    def judge(self, module, op, records, redo=None, what=None, consts=None, timeout=800, env=None):
        """TLC validates the records against `op` of `module`.  `redo(indices)`
        must reproduce the records of those indices; a rejection counts only if
        it is repeated."""
        rej = self._judge(module, op, records, consts, timeout, env)
        self.validated += len(records)
        self.judged.append({"records": len(records), "against": what or (module + "!" + op),
                            "rejected_first": len(rej)})
        if os.environ.get("VERIF_DEBUG") and rej:
            for i, c in rej[:int(os.environ["VERIF_DEBUG"])]:
                print("REJECT", c, json.dumps(records[i])[:900])
            if hasattr(self, "last_eval_error"):
                print(self.last_eval_error)
        if records:
            for k in (0, len(records) // 2):
                if len(self.samples) < 6:
                    self.samples.append(_short(records[k]))
        if not rej:
            return
        # those with a clause that is not a known finding first: they must not
        # be crowded out
        known = known_findings(self.pid)
        rej.sort(key=lambda x: (set(x[1]) <= set(known), x[0]))
        sel = rej[:400 if not self.hangs else 24]
        if redo is not None:
            again = [(i, c, x) for (i, c), x in zip(sel, redo([i for i, _ in sel])) if not x.get("skipped")]
            rej2 = dict(self._judge(module, op, [x for _, _, x in again], consts, timeout, env))
            rej = [(i, sorted(set(c) & set(rej2[k]))) for k, (i, c, _) in enumerate(again)
                   if k in rej2 and set(c) & set(rej2[k])]
        for i, c in rej:
            self.report(c, records[i])

    def drive_and_judge(self, exe, cases, module, op, what=None, consts=None, timeout=60,
                        shards=NCPU, env=None, args=(), jenv=None, per=4):
        recs = self.drive(exe, cases, timeout=timeout, shards=shards, env=env, args=args, per=per)
        self.judge(module, op, recs,
                   lambda idx: self.drive(exe, [recs[i]["in"] for i in idx], timeout=timeout,
                                          shards=shards, env=env, args=args, per=per, keep=True),
                   what, consts, env=jenv)
        return recs

    # ---------------------------------------------------------------- report
    def report(self, clauses, record):
        known = known_findings(self.pid)
        rest = []
        for c in clauses:
            if c in known:
                self.known_hits[c] = known[c]
            else:
                rest.append(c)
        if rest:
            self.violations.append((rest, record))

    def finish(self, level="model_checking", extra=None):
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.validated,
                "evaluations": self.evals,
                "models": self.mc_runs, "validated": self.judged,
                "samples": self.samples or ["none"],
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        if extra:
            ev["coverage"].update(extra)
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, ".%s.%d" % (self.pid, os.getpid()))
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(d, self.pid + ".json"))
        for c, t in sorted(self.known_hits.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, t))
        if self.violations:
            rd = os.path.join(OUT, "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s.json" % self.pid)
            json.dump([{"clauses": c, "record": r} for c, r in self.violations[:50]],
                      open(path, "w"), indent=1)
            seen = set()
            for c, r in self.violations[:50]:
                k = tuple(c)
                if k in seen:
                    continue
                seen.add(k)
                print("  broken: %s on %s" % (", ".join(c), json.dumps(_short(r))[:400]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.work, ignore_errors=True)
        return 1 if self.violations else 0


def _short(x, n=1500):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."


def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) clause=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    return out
