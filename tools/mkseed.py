"""mk(id, property, needs, breaks, edits, demo_cc, srcs=(), shim=False): writes /verif/seeded/<id>."""
import json, os, shutil, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = r'''#!/bin/bash
# Run in /repo after the build. Exit 0: the property holds on this input.
set -e
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
R=$PWD
ABSL=$(for l in flags_parse flags flags_usage flags_usage_internal flags_internal flags_marshalling flags_reflection flags_config flags_private_handle_accessor flags_commandlineflag flags_commandlineflag_internal flags_program_name statusor status strerror str_format_internal cord cord_internal cordz_info cordz_handle cordz_functions exponential_biased synchronization graphcycles_internal symbolize demangle_internal debugging_internal stacktrace malloc_internal time civil_time time_zone strings strings_internal raw_hash_set hash city low_level_hash hashtablez_sampler bad_optional_access bad_variant_access int128 throw_delegate base spinlock_wait raw_logging_internal log_severity; do [ -e /usr/lib/x86_64-linux-gnu/libabsl_$l.a -o -e /usr/lib/x86_64-linux-gnu/libabsl_$l.so ] && echo -labsl_$l; done)
OPTS="-std=c++17 -O1 -w -pthread -DARMA_DONT_USE_WRAPPER -I$D -I$D/shim -I$R/src/include -I$R/src/svr_training -I$R -I$R/_build/gen -I/usr/include/libsvm"
N=0
for s in $D/demo.cc @SRCS@; do
  N=$((N+1))
  g++ $OPTS -c $s -o $W/$N.o &
  PIDS="$PIDS $!"
done
for p in $PIDS; do wait $p; done
g++ -pthread $W/*.o $R/_build/libvisqol_lib.a -Wl,--start-group $ABSL -lprotobuf -lsvm -ldl -Wl,--end-group -o $W/demo
cd $W
timeout 200 ./demo $R
'''


def mk(id, prop, needs, breaks, edits, demo, srcs=(), shim=False, repo="/repo", sh=None, files=None):
    d = os.path.join(V, "seeded", id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        for f, a, b in edits:
            p = os.path.join(repo, f)
            s = open(p).read()
            assert s.count(a) == 1, (id, f, s.count(a), a)
            open(p, "w").write(s.replace(a, b))
        open(os.path.join(d, "patch.diff"), "wb").write(subprocess.check_output(["git", "-C", repo, "diff"]))
    finally:
        subprocess.check_call(["git", "-C", repo, "checkout", "-q", "--", "."])
    if demo:
        open(os.path.join(d, "demo.cc"), "w").write(demo)
    open(os.path.join(d, "demo.sh"), "w").write(sh or SH.replace("@SRCS@", " ".join("$R/src/" + s for s in srcs)))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    for n, t in (files or {}).items():
        open(os.path.join(d, n), "w").write(t)
    if shim:
        shutil.copytree(os.path.join(V, "shim"), os.path.join(d, "shim"))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
