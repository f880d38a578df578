"""Builds the extractor, extracts the facts of every translation unit of the current tree, loads them.

The facts of a unit are cached under a key made of the extractor's source, the flags, the contents of every
repository header and the contents of the unit: a cache hit therefore means "byte-identical inputs".
"""
import glob
import gzip
import hashlib
import json
import os
import pickle
import subprocess
import sys
import concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
CACHE = os.path.join(VERIF, ".cache")
RES = "/usr/lib/llvm-18/lib/clang/18"
LLVM = "/usr/lib/llvm-18"


FRESH = False  # ignore cached facts (thorough tier)


class AnalysisError(Exception):
    """The analysis itself could not be carried out (no verdict)."""


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def build_extractor():
    src = os.path.join(VERIF, "tool", "extract.cpp")
    key = sha(read(src))
    exe = os.path.join(BUILD, "extract-" + key)
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        tmp = exe + ".%d" % os.getpid()
        cmd = ["g++", "-std=c++17", "-O1", "-fno-rtti", "-fno-exceptions", src, "-o", tmp,
               "-I" + LLVM + "/include", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS",
               "-L" + LLVM + "/lib", LLVM + "/lib/libclang-cpp.so.18.1", "-lLLVM-18", "-Wl,-rpath," + LLVM + "/lib"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise AnalysisError("cannot build the extractor:\n" + r.stderr[-4000:])
        os.replace(tmp, exe)
    return exe, key


SKIP_DIRS = ("test/", "_build/")


def units():
    out = []
    for pat in ("src/**/*.cpp", "extensions/*/src/**/*.cpp"):
        out += glob.glob(os.path.join(REPO, pat), recursive=True)
    return sorted(os.path.relpath(p, REPO) for p in out)


def headers():
    out = []
    for top in ("include", "src", "extensions"):
        for ext in ("hpp", "hxx", "h"):
            out += glob.glob(os.path.join(REPO, top, "**", "*." + ext), recursive=True)
    return sorted(p for p in out if "/test/resources/" not in p)


def flags():
    fl = ["-std=gnu++11", "-include", "cmath", "-w", "-I" + REPO + "/include", "-I" + REPO + "/src"]
    for d in sorted(glob.glob(REPO + "/extensions/*/include")) + sorted(glob.glob(REPO + "/extensions/*/src")):
        fl.append("-I" + d)
    fl += ["-isystem", "/usr/include/libxml2", "-DBOOST_ATOMIC_DYN_LINK", "-DBOOST_DATE_TIME_DYN_LINK",
           "-DBOOST_FILESYSTEM_DYN_LINK", "-DBOOST_SYSTEM_DYN_LINK"]
    return fl


def run_unit(exe, mode, src, out, fl):
    tmp = out + ".%d.tmp" % os.getpid()
    cmd = [exe, REPO, mode, src, tmp, "--"] + fl + ["-resource-dir", RES]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        if os.path.exists(tmp):
            os.unlink(tmp)
        return "%s: %s" % (src, (r.stderr or r.stdout)[-3000:])
    recs = []
    with open(tmp) as f:
        for line in f:
            recs.append(json.loads(line))
    os.unlink(tmp)
    with open(tmp, "wb") as f:
        pickle.dump(recs, f, protocol=4)
    os.replace(tmp, out)
    return None


def extract(verbose=False):
    """Returns (list of pickle paths, unit names)."""
    exe, ekey = build_extractor()
    os.makedirs(CACHE, exist_ok=True)
    fl = flags()
    hs = headers()
    hkey = sha(ekey, " ".join(fl), *[p[len(REPO):].encode() + b"\1" + read(p) for p in hs])
    incs = [os.path.relpath(p, REPO + "/include") for p in hs if p.startswith(REPO + "/include/") and p.endswith(".hpp")]
    exts = [p for p in hs if p.startswith(REPO + "/extensions/") and p.endswith(".hpp")]
    # header units: one for include/, one for the extensions' headers and private headers
    hdir = os.path.join(CACHE, "h-" + hkey)
    os.makedirs(hdir, exist_ok=True)
    allh = os.path.join(hdir, "all.hpp")
    allc = os.path.join(hdir, "all.cpp")
    # clang refuses a precompiled header when a header was written again, even with the same text
    pch = os.path.join(hdir, "all-%s.pch" % sha(*[str(os.stat(p).st_mtime_ns) for p in hs]))
    body = "".join('#include <%s>\n' % i for i in incs)
    tpl = "".join('#include <%s>\n' % os.path.relpath(p, REPO + "/include") for p in hs if p.startswith(REPO + "/include/") and p.endswith(".hxx"))
    for p, b in ((allh, body), (allc, body + tpl + "".join('#include "%s"\n' % e for e in exts))):
        if not os.path.exists(p) or read(p).decode() != b:
            with open(p, "w") as f:
                f.write(b)
    hout = os.path.join(hdir, "headers.pkl")
    us = units()
    if len(us) < 200:
        raise AnalysisError("only %d translation units found" % len(us))
    todo = []
    outs = []
    for u in us:
        k = sha(hkey, u, read(os.path.join(REPO, u)))
        o = os.path.join(CACHE, "u-" + k + ".pkl")
        outs.append(o)
        if FRESH or not os.path.exists(o):
            todo.append((u, o))
    # uses of templates that the library does not instantiate itself
    inst = os.path.join(VERIF, "tool", "inst.cpp")
    iout = os.path.join(CACHE, "u-" + sha(hkey, "inst", read(inst)) + ".pkl")
    if FRESH or not os.path.exists(iout):
        todo.append((inst, iout))
    errors = []
    n = os.cpu_count() or 4
    with cf.ThreadPoolExecutor(n) as ex:
        hf = None
        if FRESH or not os.path.exists(hout):
            hf = ex.submit(run_unit, exe, "headers", allc, hout, fl)
        if todo:
            if not os.path.exists(pch):
                tmp = pch + ".%d" % os.getpid()
                r = subprocess.run(["clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++", "-x", "c++-header"] + fl + [allh, "-o", tmp], capture_output=True, text=True)
                if r.returncode != 0:
                    raise AnalysisError("headers do not compile:\n" + r.stderr[-4000:])
                os.replace(tmp, pch)
            # longest first
            todo.sort(key=lambda t: -os.path.getsize(os.path.join(REPO, t[0])))
            futs = [ex.submit(run_unit, exe, "uses" if o == iout else "unit", os.path.join(REPO, u), o, fl + ["-include-pch", pch]) for u, o in todo]
            for f, (u, o) in zip(futs, todo):
                e = f.result()
                if e and o == iout:
                    with open(iout, "wb") as out:       # an interface it uses is not there any more
                        pickle.dump([], out, protocol=4)
                elif e:
                    errors.append(e)
        if hf is not None:
            e = hf.result()
            if e:
                errors.append(e)
    if errors:
        raise AnalysisError("%d translation unit(s) could not be parsed:\n%s" % (len(errors), "\n".join(errors[:3])))
    prune(hdir, set(outs + [iout]))
    return [hout] + outs + [iout], us, len(todo)


def prune(hdir, keep):
    """Keep the cache small: at most 4 header generations and 1500 unit files."""
    try:
        hs = sorted(glob.glob(CACHE + "/h-*"), key=os.path.getmtime)
        for h in hs[:-4]:
            if h != hdir:
                for f in glob.glob(h + "/*"):
                    os.unlink(f)
                os.rmdir(h)
        fs = sorted((f for f in glob.glob(CACHE + "/u-*.pkl") if f not in keep), key=os.path.getmtime)
        for f in fs[:-1200]:
            os.unlink(f)
    except OSError:
        pass


class Program:
    def __init__(self):
        self.funcs = {}
        self.classes = {}
        self.enums = {}
        self.globals = {}
        self.units = []
        self.extracted = 0


def load():
    paths, us, ntodo = extract()
    p = Program()
    p.units = us
    p.extracted = ntodo
    import gc
    gc.disable()
    for path in paths:
        with open(path, "rb") as f:
            recs = pickle.load(f)
        for r in recs:
            k = r["r"]
            if k == "func":
                p.funcs.setdefault(r["id"], r)
            elif k == "class":
                p.classes.setdefault(r["id"], r)
            elif k == "enum":
                p.enums.setdefault(r["id"], r)
            elif k == "global":
                p.globals.setdefault(r["id"], r)
    gc.enable()
    return p


if __name__ == "__main__":
    import time
    t = time.time()
    try:
        p = load()
    except AnalysisError as e:
        print(e)
        sys.exit(2)
    print("units", len(p.units), "extracted", p.extracted, "funcs", len(p.funcs), "classes", len(p.classes), "enums", len(p.enums), "globals", len(p.globals), "%.1fs" % (time.time() - t))
