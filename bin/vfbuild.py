"""Builds the library from /repo's current working tree, and the monitor binaries on top of it.

Every object is keyed by the content of everything it is made from (the tree's sources and
headers, the harness, the stand-ins, the flags): a changed tree is always rebuilt.
"""
import concurrent.futures
import hashlib
import os
import re
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
CXX = os.environ.get("VF_CXX", "clang++-18" if shutil.which("clang++-18") else "clang++")

COMMON = ["-std=c++20", "-g1", "-fno-omit-frame-pointer", "-w"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr,function,null,alignment,object-size,pointer-overflow", "-fno-sanitize-recover=all"]
FLAVORS = {
    # Assertions of the library enabled, address and undefined behaviour sanitizers.
    "asan": (["-O1"] + SAN, SAN, []),
    # As above, optimised less, quicker to compile.
    "asan0": (["-O0"] + SAN, SAN, []),
    # The release configuration of the library (assertions off).
    "asanrel": (["-O1", "-DNDEBUG"] + SAN, SAN, []),
    # As asan0, over the stand-in of TBB.
    "asanshim": (["-O0"] + SAN, SAN, ["-I", os.path.join(VERIF, "standin_tbb")]),
    # For programs with libraries.
    "asanso": (["-O0", "-fPIC"] + SAN, SAN, []),
    "asanshimso": (["-O0", "-fPIC"] + SAN, SAN, ["-I", os.path.join(VERIF, "standin_tbb")]),
    "plain": (["-O1"], [], []),
    # Thread sanitizer: TBB is replaced by an instrumented stand-in.
    "tsan": (["-O1", "-fsanitize=thread"], ["-fsanitize=thread"], ["-I", os.path.join(VERIF, "standin_tbb")]),
    "tsanrel": (["-O1", "-DNDEBUG", "-fsanitize=thread"], ["-fsanitize=thread"], ["-I", os.path.join(VERIF, "standin_tbb")]),
    "tsan0": (["-O0", "-fsanitize=thread"], ["-fsanitize=thread"], ["-I", os.path.join(VERIF, "standin_tbb")]),
}
BACKTRACE = "/usr/lib/gcc/x86_64-linux-gnu/13/libbacktrace.a"
LIBS = ["-lboost_serialization", "-lfmt", "-lgmpxx", "-lgmp", "-ldl", "-lpthread"]


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:32]


def tree_files(root, exts):
    out = []
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return out


def digest(paths):
    return sha(*[x for p in paths for x in (p, open(p, "rb").read())])


def gen_config():
    src = open(os.path.join(REPO, "config.hpp.in")).read()
    m = re.search(r"project\(obake\s+VERSION\s+([\d.]+)", open(os.path.join(REPO, "CMakeLists.txt")).read())
    ver = m.group(1) if m else "0.0.0"
    parts = (ver.split(".") + ["0", "0", "0"])[:3]
    sub = {"obake_VERSION": ver, "obake_VERSION_MAJOR": parts[0], "obake_VERSION_MINOR": parts[1],
           "obake_VERSION_PATCH": parts[2]}
    txt = re.sub(r"@(\w+)@", lambda mm: sub.get(mm.group(1), ""), src)
    d = os.path.join(BUILD, "config-" + sha(txt))
    p = os.path.join(d, "obake", "config.hpp")
    if not os.path.exists(p):
        os.makedirs(os.path.dirname(p), exist_ok=True)
        tmp = p + ".%d" % os.getpid()
        open(tmp, "w").write(txt)
        os.replace(tmp, p)
    return d, txt


class Builder:
    def __init__(self, log=sys.stderr):
        self.log = log
        os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
        os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
        self.cfg, cfgtxt = gen_config()
        inc = tree_files(os.path.join(REPO, "include"), (".hpp", ".h", ".ipp"))
        std = tree_files(os.path.join(VERIF, "standin"), ("",)) + tree_files(os.path.join(VERIF, "standin_tbb"), ("",))
        har = tree_files(os.path.join(VERIF, "harness"), (".hpp",))
        self.lib_dig = sha(digest(inc), digest(std), cfgtxt)
        bt = [p for p in tree_files(os.path.join(REPO, "src"), (".cpp",)) if "libbacktrace" in p]
        self.har_dig = sha(self.lib_dig, digest(har), digest(bt), digest(tree_files(os.path.join(VERIF, "standin_bt"), (".h",))))
        self.lock = threading.Lock()

    def lib_sources(self):
        return [p for p in tree_files(os.path.join(REPO, "src"), (".cpp",)) if "libbacktrace" not in p]

    def compile(self, src, flavor, is_lib, extra=()):
        cflags, _, incs = FLAVORS[flavor]
        args = COMMON + cflags + list(extra)
        if os.path.basename(src).startswith("c22_"):
            # The names of the functions for the stack traces.
            args = args + ["-g"]
        key = sha(self.lib_dig if is_lib else self.har_dig, open(src, "rb").read(), src, CXX, *args)
        obj = os.path.join(BUILD, "obj", os.path.basename(src) + "-" + flavor + "-" + key + ".o")
        if os.path.exists(obj):
            os.utime(obj)
            return obj
        tmp = obj + ".%d.tmp" % os.getpid()
        if os.path.basename(src).endswith("_bt.cpp"):
            incs = incs + ["-I", os.path.join(VERIF, "standin_bt")]
        cmd = [CXX] + args + incs + ["-I", self.cfg, "-I", os.path.join(REPO, "include"), "-I",
                                     os.path.join(VERIF, "standin"), "-I", os.path.join(VERIF, "harness"),
                                     "-c", src, "-o", tmp]
        t = time.time()
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            # One more attempt, e.g. for a compiler killed for lack of memory.
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError("cannot compile %s (%s):\n%s" % (src, flavor, r.stdout[-6000:]))
        os.replace(tmp, obj)
        print("  compiled %s [%s] in %.1fs" % (os.path.basename(src), flavor, time.time() - t), file=self.log)
        return obj

    def build(self, bins):
        """bins: list of (name, flavor, [harness sources], [sources of the libraries]). Returns {(name, flavor): path}."""
        self.prune()
        jobs = {}
        with concurrent.futures.ThreadPoolExecutor(max_workers=max(2, os.cpu_count() or 8)) as ex:
            def want(src, flavor, is_lib, extra=()):
                k = (src, flavor, tuple(extra))
                if k not in jobs:
                    jobs[k] = ex.submit(self.compile, src, flavor, is_lib, extra)
                return jobs[k]
            plan = []
            # Harness sources first: they take longest.
            for name, flavor, srcs, parts in bins:
                objs = [want(os.path.join(VERIF, "harness", s), flavor, False) for s in srcs]
                # The libraries have their own copies of what the headers define.
                pobjs = [want(os.path.join(VERIF, "harness", s), flavor, False,
                              ("-fvisibility=hidden", "-fvisibility-inlines-hidden")) for s in parts]
                plan.append((name, flavor, objs, pobjs))
            plan2 = []
            for name, flavor, objs, pobjs in plan:
                objs = objs + [want(os.path.join(VERIF, "harness", "vf_main.cpp"), flavor, False)]
                lobjs = [want(s, flavor, True) for s in self.lib_sources()]
                plan2.append((name, flavor, objs, pobjs, lobjs))
            out = {}
            for name, flavor, objs, pobjs, lobjs in plan2:
                paths = [o.result() for o in objs]
                ppaths = [o.result() for o in pobjs]
                lpaths = [o.result() for o in lobjs]
                if ppaths:
                    out[(name, flavor)] = ex.submit(self.link_parts, name, flavor, paths, ppaths, lpaths)
                else:
                    out[(name, flavor)] = ex.submit(self.link, name, flavor, paths + lpaths)
            return {k: v.result() for k, v in out.items()}

    def run_link(self, name, flavor, args, path):
        _, lflags, _ = FLAVORS[flavor]
        tmp = path + ".%d.tmp" % os.getpid()
        r = subprocess.run([CXX] + lflags + args + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError("cannot link %s (%s):\n%s" % (name, flavor, r.stdout[-6000:]))
        os.replace(tmp, path)

    def link_parts(self, name, flavor, objs, pobjs, lobjs):
        """An executable, the shared library, and three libraries to be loaded by the executable (next to it)."""
        key = sha(*(objs + pobjs + lobjs))
        d = os.path.join(BUILD, "bin")
        path = os.path.join(d, name + "-" + flavor + "-" + key)
        shared = os.path.join(d, "libobake-" + name + "-" + flavor + "-" + key + ".so")
        parts = [path + "-lib%d.so" % i for i in (1, 2, 3)]
        if all(os.path.exists(p) for p in [path, shared] + parts):
            for p in [path, shared] + parts:
                os.utime(p)
            return path
        libs = ([] if "shim" in flavor else ["-ltbb"]) + LIBS
        dep = ["-L" + d, "-l:" + os.path.basename(shared), "-Wl,-rpath," + d] + libs
        self.run_link(name, flavor, ["-shared"] + lobjs + ["-Wl,-soname," + os.path.basename(shared)] + libs, shared)
        for p in parts:
            self.run_link(name, flavor, ["-shared"] + pobjs + dep, p)
        self.run_link(name, flavor, objs + dep, path)
        return path

    def link(self, name, flavor, objs):
        _, lflags, _ = FLAVORS[flavor]
        key = sha(*objs)
        path = os.path.join(BUILD, "bin", name + "-" + flavor + "-" + key)
        if os.path.exists(path):
            os.utime(path)
            return path
        tbb = [] if flavor.startswith("tsan") or "shim" in flavor else ["-ltbb"]
        tmp = path + ".%d.tmp" % os.getpid()
        # The binaries about stack traces export their symbols, and carry libbacktrace.
        bt = ["-rdynamic", BACKTRACE] if any(os.path.basename(o).startswith("c22_bt") for o in objs) else []
        cmd = [CXX] + lflags + objs + ["-o", tmp] + bt + tbb + LIBS
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError("cannot link %s (%s):\n%s" % (name, flavor, r.stdout[-6000:]))
        os.replace(tmp, path)
        return path

    def prune(self):
        # Keep the cache below 6 GB.
        fs = []
        for sub in ("obj", "bin"):
            d = os.path.join(BUILD, sub)
            for f in os.listdir(d):
                p = os.path.join(d, f)
                try:
                    st = os.stat(p)
                except OSError:
                    continue
                fs.append((st.st_mtime, st.st_size, p))
        tot = sum(x[1] for x in fs)
        for mt, sz, p in sorted(fs):
            if tot < 6e9:
                break
            if time.time() - mt > 3600:
                try:
                    os.remove(p)
                    tot -= sz
                except OSError:
                    pass
