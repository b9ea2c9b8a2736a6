"""Mechanical extraction: real sources in /repo -> LLVM IR (for the verifier) and shared objects (for replay)."""
import subprocess, os, hashlib, json, fcntl

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CXXSTD = ["-std=gnu++20"]
PASSES = ("cgscc(inline),function(sroa<modify-cfg>,early-cse,simplifycfg<no-switch-to-lookup;no-switch-range-to-icmp;no-sink-common-insts;keep-loops>,"
          "instcombine<no-verify-fixpoint>,sroa<modify-cfg>,early-cse<memssa>,gvn,simplifycfg<no-switch-to-lookup;no-switch-range-to-icmp;no-sink-common-insts;keep-loops>,"
          "instcombine<no-verify-fixpoint>,dce,loop-simplify)")
UNROLL = "function(loop-simplify,lcssa,loop(loop-unroll-full),sroa<modify-cfg>,early-cse<memssa>,instcombine<no-verify-fixpoint>,gvn,simplifycfg<no-switch-to-lookup;no-switch-range-to-icmp;no-sink-common-insts;keep-loops>,instcombine<no-verify-fixpoint>,dce,loop-simplify)"


class BuildError(Exception):
    pass


def workdir():
    w = os.environ.get("VERIF_WORK")
    if not w:
        w = "/tmp/verif_work.%d" % os.getpid()
        os.environ["VERIF_WORK"] = w
    os.makedirs(w, exist_ok=True)
    return w


def gen_include():
    """directory holding fimex_config.h (generated by the project's cmake); regenerate if absent"""
    b = os.path.join(REPO, "_build", "src")
    if os.path.exists(os.path.join(b, "fimex_config.h")):
        return b
    w = os.path.join(workdir(), "cfg")
    if not os.path.exists(os.path.join(w, "src", "fimex_config.h")):
        os.makedirs(w, exist_ok=True)
        subprocess.run(["cmake", "-S", REPO, "-B", w, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DBUILD_TESTING=ON",
                        "-DCMAKE_PROJECT_TOP_LEVEL_INCLUDES=/opt/vp/fimex/skip-mi.cmake", "-DENABLE_NETCDF=ON", "-DENABLE_FELT=ON", "-DENABLE_PROTOBUF=ON",
                        "-DENABLE_ECCODES=ON", "-DENABLE_LOG4CPP=ON"], capture_output=True, timeout=300)
    return os.path.join(w, "src")


def flags():
    return ["-I" + REPO + "/include", "-I" + gen_include(), "-I" + gen_include() + "/io/netcdf", "-I" + REPO + "/src", "-I" + HERE + "/shims", "-I/usr/include/libxml2", "-DNDEBUG", "-fPIC"]


def run(cmd, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stderr[-3000:]))
    return p.stdout


def src_path(tu):
    if tu.startswith("shim:"):
        return os.path.join(HERE, "shims", tu[5:])
    return os.path.join(REPO, "src", tu)


def make_ir(tu, public=None, noinline=(), defines=(), rounds=0):
    """compile one translation unit to normalised IR text"""
    src = src_path(tu)
    cxx = src.endswith((".cc", ".cpp"))
    tag = hashlib.sha1(("%s|%s|%s|%s" % (tu, public, noinline, rounds)).encode()).hexdigest()[:12]
    base = os.path.join(workdir(), tag)
    cmd = (["clang++-18"] + CXXSTD if cxx else ["clang-18", "-std=gnu99"]) + ["-S", "-emit-llvm", "-O1", "-Xclang", "-disable-llvm-passes", "-ffp-contract=off",
           "-fno-discard-value-names", "-fno-strict-aliasing", "-w", "-DVERIF_IR"] + (["-fno-access-control", "-Xclang", "-mno-constructor-aliases"] if cxx else []) + list(defines) + flags() + [src, "-o", base + ".0.ll"]
    run(cmd)
    passes = PASSES + "," + UNROLL
    for _ in range(rounds):
        passes += "," + PASSES
    cmd = ["opt-18", "-S", "-inline-threshold=20000", "-inlinehint-threshold=20000", "-inlinecold-threshold=20000", "-unroll-threshold=20000", "-unroll-max-upperbound=64", "-unroll-full-max-count=64"]
    if public:
        cmd += ["-internalize-public-api-list=" + ",".join(public)]
        passes = "internalize,globaldce," + passes + ",globaldce," + PASSES + ",globaldce"
    for n in noinline:
        cmd += ["-force-attribute=%s:noinline" % n]
    if noinline:
        passes = "forceattrs," + passes
    cmd += ["-passes=" + passes, base + ".0.ll", "-o", base + ".ll"]
    run(cmd)
    with open(base + ".ll") as fh:
        return fh.read()


def make_so(tus, name, link_fimex=False, extra=(), libs=()):
    """native shared object for replay, compiled from the same sources with the project's compiler"""
    out = os.path.join(workdir(), name + ".so")
    objs = []
    procs = []
    for tu in tus:
        src = src_path(tu)
        cxx = src.endswith((".cc", ".cpp"))
        o = os.path.join(workdir(), name + "." + os.path.basename(src) + ".o")
        cmd = (["g++"] + CXXSTD if cxx else ["gcc", "-std=gnu99"]) + ["-O1", "-g", "-w", "-DVERIF_NATIVE", "-c"] + (["-fno-access-control"] if cxx else []) + flags() + list(extra) + [src, "-o", o]
        procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
        objs.append(o)
    for cmd, p in procs:
        so, se = p.communicate()
        if p.returncode:
            raise BuildError("%s\n%s" % (" ".join(cmd), se[-3000:]))
    cmd = ["g++", "-shared", "-Wl,-Bsymbolic", "-o", out] + objs
    if link_fimex:
        lib = ensure_lib()
        cmd += [lib, "-Wl,-rpath," + os.path.dirname(lib)]
    cmd += ["-lm"] + list(libs)
    run(cmd)
    return out


def plugin_path(plugins):
    return ":".join(os.path.join(REPO, "_build", "src", "io", p) for p in plugins)


def ensure_lib(plugins=()):
    """libfimex (and io plugins) built from the current working tree (incremental, in the git-ignored build folder)"""
    b = os.path.join(REPO, "_build")
    if not os.path.exists(os.path.join(b, "build.ninja")):
        subprocess.run(["cmake", "-S", REPO, "-B", b, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DBUILD_TESTING=ON",
                        "-DCMAKE_PROJECT_TOP_LEVEL_INCLUDES=/opt/vp/fimex/skip-mi.cmake", "-DCMAKE_MAKE_PROGRAM=/usr/bin/ninja",
                        "-DPython_EXECUTABLE=/usr/bin/python3.12", "-DPYTHON_EXECUTABLE=/usr/bin/python3.12",
                        "-DENABLE_NETCDF=ON", "-DENABLE_FELT=ON", "-DENABLE_PROTOBUF=ON", "-DENABLE_ECCODES=ON",
                        "-DENABLE_LOG4CPP=ON", "-DENABLE_FIMEX_OMP=ON", "-DENABLE_FORTRAN=ON", "-DENABLE_PYTHON=ON"], capture_output=True, timeout=600,
                       env=dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++", FC="/usr/bin/gfortran"))
    with open(os.path.join(workdir(), "lib.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        p = subprocess.run(["ninja", "-C", b, "-j8", "libfimex"] + ["libfimex-io-" + p for p in plugins], capture_output=True, text=True)
    if p.returncode != 0:
        raise BuildError("ninja libfimex failed\n" + p.stdout[-2000:] + p.stderr[-1000:])
    for f in sorted(os.listdir(b + "/src")):
        if f.startswith("libfimex") and f.endswith(".so"):
            return os.path.join(b, "src", f)
    raise BuildError("libfimex not found")


def make_exe(tu, defines=(), plugins=(), libs=()):
    """program of /verif/harness linked with the current libfimex"""
    src = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", tu)
    out = os.path.join(workdir(), "p_" + tu.replace(".", "_"))
    lib = ensure_lib(plugins)
    run(["g++"] + CXXSTD + ["-O1", "-g", "-w"] + list(defines) + flags() + [src, "-o", out, lib, "-Wl,-rpath," + os.path.dirname(lib), "-lm"] + list(libs))
    return out
