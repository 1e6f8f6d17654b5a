#!/usr/bin/env python3
"""Build the simulator from /repo's working tree into /verif/build (incremental)."""
import hashlib, os, shutil, subprocess, sys, glob, fcntl
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(VERIF, "build")
WRAPS = """time clock clock_gettime gettimeofday exit abort read readv fopen fopen64 open open64 pthread_mutex_lock
__cxa_guard_acquire __cxa_guard_release __cxa_guard_abort _ZNSt6chrono3_V212steady_clock3nowEv
_ZNSt6chrono3_V212system_clock3nowEv _ZNSt13random_device9_M_getvalEv""".split()
FLAGS = ["-std=c++17", "-O1", "-g1", "-fPIC", "-w", "-I" + REPO + "/include", "-I" + VERIF + "/sim"]


def deps_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def compile_one(src, obj, rename=(), extra=()):
    """compile unless an object made from identical preprocessed input exists"""
    cmd = ["g++"] + FLAGS + list(extra)
    pre = subprocess.run(cmd + ["-E", "-P", src], capture_output=True)
    if pre.returncode:
        return pre.stderr.decode()
    key = hashlib.sha256(" ".join(cmd + list(rename)).encode() + pre.stdout).hexdigest()
    stamp = obj + ".key"
    if os.path.exists(obj) and os.path.exists(stamp) and open(stamp).read() == key:
        return ""
    cache = os.path.join(B, "objcache", key + ".o")
    if os.path.exists(cache):
        if os.path.exists(obj):
            os.unlink(obj)
        os.link(cache, obj)
    else:
        r = subprocess.run(cmd + ["-c", src, "-o", obj + ".tmp"], capture_output=True)
        if r.returncode:
            return r.stderr.decode()
        for n in rename:
            r = subprocess.run(["objcopy", "--redefine-sym", n, obj + ".tmp"], capture_output=True)
            if r.returncode:
                return r.stderr.decode()
        os.replace(obj + ".tmp", obj)
        os.makedirs(os.path.dirname(cache), exist_ok=True)
        try:
            os.link(obj, cache)
        except OSError:
            pass
    with open(stamp, "w") as f:
        f.write(key)
    return ""


PYTHON = "/opt/vp/venv/bin/python"
SUFFIX = ".cpython-312-x86_64-linux-gnu.so"


def python_package():
    """the Python package below build/py, with an extension module that has the same seams"""
    lock = open(os.path.join(B, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    top = os.path.join(B, "py")
    pkg = os.path.join(top, "pystreed")
    os.makedirs(pkg, exist_ok=True)
    fresh = {os.path.relpath(f, REPO + "/pystreed"): open(f, "rb").read() for f in glob.glob(REPO + "/pystreed/**/*.py", recursive=True)}
    for f in glob.glob(pkg + "/**/*.py", recursive=True):
        if os.path.relpath(f, pkg) not in fresh:
            os.unlink(f)
    for n, t in fresh.items():
        f = os.path.join(pkg, n)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        if not os.path.exists(f) or open(f, "rb").read() != t:
            with open(f, "wb") as h:
                h.write(t)
    for d in glob.glob(pkg + "/**/__pycache__", recursive=True):
        shutil.rmtree(d, ignore_errors=True)
    out = subprocess.run([PYTHON, "-c", "import sysconfig, pybind11; print(sysconfig.get_paths()['include']); print(pybind11.get_include())"], capture_output=True)
    if out.returncode:
        sys.stderr.write(out.stderr.decode())
        return 2
    inc = out.stdout.decode().split()
    jobs = [(REPO + "/src/bindings.cpp", os.path.join(B, "obj", "py_bindings.o"), ["-fvisibility=hidden", "-include", VERIF + "/sim/py_pybind.h"] + ["-I" + i for i in inc]),
            (VERIF + "/sim/py_api.cpp", os.path.join(B, "obj", "py_api.o"), [])]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: compile_one(j[0], j[1], (), j[2]), jobs))
    for j, e in zip(jobs, res):
        if e:
            sys.stderr.write("compiling %s failed:\n%s\n" % (j[0], e[-4000:]))
            return 2
    objs = [j[1] for j in jobs] + [o for o in native_objects() if os.path.basename(o) not in ("repo_main.cpp.o",)]
    script = os.path.join(top, "exports")
    with open(script, "w") as f:
        f.write("{ global: PyInit_cstreed; sim_*; ref_*; local: *; };\n")
    so = os.path.join(pkg, "cstreed" + SUFFIX)
    key = hashlib.sha256(b"".join(open(o + ".key", "rb").read() for o in objs) + " ".join(WRAPS).encode()).hexdigest()
    if not (os.path.exists(so) and os.path.exists(so + ".key") and open(so + ".key").read() == key):
        cmd = ["g++", "-shared", "-fPIC", "-static-libstdc++", "-static-libgcc", "-o", so + ".tmp"] + objs + [
            "-Wl," + ",".join("--wrap=" + w for w in WRAPS), "-Wl,-Bsymbolic", "-Wl,--version-script=" + script, "-lpthread"]
        r = subprocess.run(cmd, capture_output=True)
        if r.returncode:
            sys.stderr.write(r.stderr.decode()[-4000:])
            return 2
        os.replace(so + ".tmp", so)
        with open(so + ".key", "w") as f:
            f.write(key)
    pre, src = os.path.join(top, "pre.so"), VERIF + "/sim/py_pre.c"
    if not os.path.exists(pre) or os.path.getmtime(pre) < os.path.getmtime(src):
        r = subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", pre + ".tmp", src, "-ldl"], capture_output=True)
        if r.returncode:
            sys.stderr.write(r.stderr.decode()[-4000:])
            return 2
        os.replace(pre + ".tmp", pre)
    return 0


def native_objects():
    """objects of the project and of the parts of the simulator the extension module shares"""
    out = []
    for s in sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True)):
        rel = os.path.relpath(s, REPO + "/src").replace("/", "_")
        if rel != "bindings.cpp":
            out.append(os.path.join(B, "obj", "repo_" + rel + ".o"))
    return out + [os.path.join(B, "obj", "sim_seam.cpp.o"), os.path.join(B, "obj", "sim_model.cpp.o")]


DENSE = "-fsanitize-coverage=trace-pc"


def main(dense=False):
    """dense: build simrun-dense, in which every basic block of the project is a scheduling point"""
    os.makedirs(os.path.join(B, "obj"), exist_ok=True)
    lock = open(os.path.join(B, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    jobs = []
    for s in sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True)):
        rel = os.path.relpath(s, REPO + "/src").replace("/", "_")
        if rel == "bindings.cpp":
            continue
        rename = ["main=streed_cli_main"] if rel == "main.cpp" else []
        jobs.append((s, os.path.join(B, "obj", ("dense_" if dense else "repo_") + rel + ".o"), rename, [DENSE] if dense else []))
    for s in sorted(glob.glob(VERIF + "/sim/*.cpp")):
        if os.path.basename(s).startswith("py_"):
            continue
        d = dense and os.path.basename(s) == "box.cpp"
        jobs.append((s, os.path.join(B, "obj", ("dsim_" if d else "sim_") + os.path.basename(s) + ".o"), [], [DENSE] if d else []))
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: compile_one(*j), jobs))
    for j, e in zip(jobs, res):
        if e:
            sys.stderr.write("compiling %s failed:\n%s\n" % (j[0], e[-4000:]))
            return 2
    objs = [j[1] for j in jobs]
    out = os.path.join(B, "simrun-dense" if dense else "simrun")
    key = hashlib.sha256(b"".join(open(o + ".key", "rb").read() for o in objs) + " ".join(WRAPS).encode()).hexdigest()
    if not (os.path.exists(out) and os.path.exists(out + ".key") and open(out + ".key").read() == key):
        cmd = ["g++", "-no-pie", "-static-libstdc++", "-static-libgcc", "-o", out + ".tmp"] + objs + ["-Wl," + ",".join("--wrap=" + w for w in WRAPS), "-lpthread"]
        r = subprocess.run(cmd, capture_output=True)
        if r.returncode:
            sys.stderr.write(r.stderr.decode()[-4000:])
            return 2
        os.replace(out + ".tmp", out)
        with open(out + ".key", "w") as f:
            f.write(key)
    # keep the object cache small
    cd = os.path.join(B, "objcache")
    fs = sorted(glob.glob(cd + "/*.o"), key=os.path.getmtime)
    for f in fs[:-260]:
        os.unlink(f)
    return 0


if __name__ == "__main__":
    sys.exit(main() or main(True) or python_package())
