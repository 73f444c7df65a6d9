"""Builds the code under test (all of /repo/src, with stand-ins for the two
libraries this sandbox lacks) and the conformance drivers, from /repo's current
working tree into /verif/build.  Incremental (ninja)."""
import glob
import os
import subprocess
import fcntl
import shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))


class BuildError(Exception):
    pass


def _esc(s):
    return s.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


MUTEX = "_ZN4absl7debian35Mutex"


def wraps(flavour):
    w = ["svm_load_model"]
    if flavour == "_tsan":   # the library's locks, which ThreadSanitizer cannot see into
        w += [MUTEX + m for m in ("4LockEv", "6UnlockEv", "7TryLockEv", "10ReaderLockEv", "12ReaderUnlockEv")]
    return " ".join("-Wl,--wrap=" + x for x in w)


def write_ninja(flavour=""):
    b = os.path.join(OUT, "obj" + flavour)
    os.makedirs(b, exist_ok=True)
    gen = os.path.join(b, "gen")
    os.makedirs(gen, exist_ok=True)
    cxx = "g++"       # no compiler cache: one filled while a source was being changed would hide that change
    opt = {"": "-O1", "_asan": "-O1 -fsanitize=address,bounds "
           "-fno-sanitize-recover=bounds -fno-omit-frame-pointer",
           "_tsan": "-O1 -g -fsanitize=thread"}[flavour]
    inc = " ".join("-I" + d for d in [
        os.path.join(VERIF, "shim"), os.path.join(VERIF, "driver"),
        os.path.join(REPO, "src/include"), os.path.join(REPO, "src/svr_training"),
        REPO, gen, "/usr/include/libsvm"])
    flags = ("-std=c++17 %s -w -pthread -DNDEBUG -DARMA_DONT_USE_WRAPPER "
             "-D_GLIBCXX_ASSERTIONS %s" % (opt, inc))
    san = opt if flavour else ""
    libs = " ".join("-l" + l for l in [
        "absl_flags", "absl_flags_parse", "absl_flags_usage",
        "absl_flags_internal", "absl_flags_marshalling", "absl_flags_reflection",
        "absl_flags_config", "absl_flags_private_handle_accessor",
        "absl_flags_commandlineflag", "absl_flags_commandlineflag_internal",
        "absl_flags_program_name", "absl_flags_usage_internal",
        "absl_status", "absl_statusor", "absl_strings", "absl_strings_internal",
        "absl_synchronization", "absl_time", "absl_time_zone", "absl_cord",
        "absl_cord_internal", "absl_base", "absl_raw_logging_internal",
        "absl_raw_hash_set", "absl_hash", "absl_throw_delegate",
        "absl_bad_optional_access", "absl_bad_variant_access", "absl_int128",
        "absl_strerror", "absl_stacktrace", "absl_symbolize", "absl_str_format_internal",
        "absl_log_severity", "protobuf", "svm", "dl"]
        if glob.glob("/usr/lib/x86_64-linux-gnu/lib%s.*" % l))
    n = []
    n.append("rule cxx\n  command = %s %s -MMD -MF $out.d -c $in -o $out\n"
             "  depfile = $out.d\n  deps = gcc\n" % (cxx, flags))
    n.append("rule ar\n  command = rm -f $out && ar crs $out $in\n")
    n.append("rule ld\n  command = g++ -pthread %s $in $ldflags -Wl,--start-group "
             "%s -Wl,--end-group -o $out\n" % (san, libs))
    n.append("rule pb\n  command = protoc --cpp_out=%s -I%s $in\n" % (gen, REPO))
    n.append("rule so\n  command = gcc -O1 -shared -fPIC $in -o $out\n")
    objs, pbh, pbsrc = [], [], []
    for p in sorted(glob.glob(os.path.join(REPO, "src/proto/*.proto"))):
        nm = os.path.splitext(os.path.basename(p))[0]
        o = os.path.join(gen, "src/proto", nm + ".pb")
        n.append("build %s.cc %s.h: pb %s\n" % (_esc(o), _esc(o), _esc(p)))
        pbh.append(o + ".h")
        pbsrc.append(o + ".cc")
    hdr = " ".join(_esc(h) for h in pbh)
    srcs = (glob.glob(os.path.join(REPO, "src/*.cc")) +
            glob.glob(os.path.join(REPO, "src/svr_training/*.cc")))
    mains = []
    for s in sorted(srcs) + pbsrc:
        o = os.path.join(b, "o", os.path.basename(s) + ".o")
        n.append("build %s: cxx %s || %s\n" % (_esc(o), _esc(s), hdr))
        (mains if os.path.basename(s) == "main.cc" else objs).append(o)
    lib = os.path.join(b, "libvisqol.a")
    n.append("build %s: ar %s\n" % (_esc(lib), " ".join(map(_esc, objs))))
    exe = os.path.join(b, "visqol")
    n.append("build %s: ld %s %s\n" % (_esc(exe), " ".join(map(_esc, mains)), _esc(lib)))
    n.append("build visqol: phony %s\n" % _esc(exe))
    for d in sorted(glob.glob(os.path.join(VERIF, "driver/*.cc"))):
        nm = os.path.splitext(os.path.basename(d))[0]
        o = os.path.join(b, "d", nm + ".o")
        n.append("build %s: cxx %s || %s\n" % (_esc(o), _esc(d), hdr))
        x = os.path.join(b, nm)
        n.append("build %s: ld %s %s\n  ldflags = %s\n" % (
            _esc(x), _esc(o), _esc(lib),
            wraps(flavour) if nm == "drv_conc" else ""))
        n.append("build %s: phony %s\n" % (nm, _esc(x)))
    n.append("build held.so: so %s\n" % _esc(os.path.join(VERIF, "lib/c/held.c")))
    text = "\n".join(n)
    f = os.path.join(b, "build.ninja")
    if not os.path.exists(f) or open(f).read() != text:
        open(f, "w").write(text)
    return b


def build(targets, flavour=""):
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, "lock" + flavour), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        b = write_ninja(flavour)
        env = dict(os.environ, LC_ALL="C.UTF-8")
        r = subprocess.run(["ninja", "-C", b, "-j8"] + list(targets), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(r.stdout[-6000:])
    return {t: os.path.join(b, t) for t in targets}


if __name__ == "__main__":
    import sys
    print(build(sys.argv[1:] or ["visqol"]))
