"""Builds the fact extractor, runs it over /repo's current sources and loads the
resulting program model.

Every run re-reads the sources: a cached AST dump is used only if the extractor,
the flags, the translation unit and every repository file that it includes are
byte-for-byte the ones that it was made from.
"""
import concurrent.futures
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
TOOL_SRC = os.path.join(VERIF, "tool", "extract.cc")
LLVM = "/usr/lib/llvm-18"


class AnalysisError(Exception):
    """The analysis could not be carried out (exit code 2)."""


def _sha(data):
    return hashlib.sha256(data).hexdigest()


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _tool():
    os.makedirs(BUILD, exist_ok=True)
    h = _sha(_read(TOOL_SRC))[:16]
    exe = os.path.join(BUILD, "extract-" + h)
    if not os.path.exists(exe):
        tmp = exe + ".%d" % os.getpid()
        cmd = ["g++", "-std=c++17", "-O1", "-fno-rtti", "-w",
               "-I" + LLVM + "/include", "-D_GNU_SOURCE", TOOL_SRC, "-o", tmp,
               LLVM + "/lib/libclang-cpp.so.18.1", LLVM + "/lib/libLLVM-18.so",
               "-Wl,-rpath," + LLVM + "/lib"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise AnalysisError("cannot build the extractor:\n" + r.stderr[-3000:])
        os.replace(tmp, exe)
    return exe, h


def _generated_includes():
    """Directories with the protobuf and natsort headers (generated files)."""
    dirs = []
    proto = os.path.join(REPO, "src/mlio/detail/protobuf")
    b = os.path.join(REPO, "_build/mlio/src")
    if glob.glob(b + "/mlio/detail/protobuf/*.pb.h"):
        dirs.append(b)
    else:
        out = os.path.join(BUILD, "gen")
        os.makedirs(out + "/mlio/detail/protobuf", exist_ok=True)
        for p in glob.glob(os.path.join(REPO, "src/**/*.proto"), recursive=True):
            subprocess.run(["protoc", "-I" + os.path.join(REPO, "src"),
                            "--cpp_out=" + out, p], check=True)
        dirs.append(out)
    n = os.path.join(REPO, "_build/natsort/install/include")
    if os.path.exists(n + "/strnatcmp.h"):
        dirs.append(n)
    else:
        out = os.path.join(BUILD, "natsort")
        if not os.path.exists(out + "/strnatcmp.h"):
            shutil.copytree(os.path.join(REPO, "third-party/natsort"), out, dirs_exist_ok=True)
            with open(out + "/strnatcmp.h.patch", "rb") as f:
                subprocess.run(["patch", "-s"], stdin=f, cwd=out, check=True)
        dirs.append(out)
    return dirs


def _flags(group):
    base = ["-x", "c++", "-std=c++17", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-DFMT_SHARED",
            "-DMLIO_COMPILE_LIB", "-DFMT_DEPRECATED_OSTREAM", "-w", "-ferror-limit=20",
            "-resource-dir", LLVM + "/lib/clang/18", "-fPIC"]
    if group in ("core", "probe"):
        base += ["-DMLIO_BUILD_IMAGE_READER", "-I" + REPO + "/include", "-I" + REPO + "/src"]
        for d in _generated_includes():
            base += ["-isystem", d]
        base += ["-isystem", "/usr/include/opencv4"]
    else:
        base += ["-I" + REPO + "/include", "-isystem", "/usr/include/python3.12",
                 "-isystem", REPO + "/src/mlio-py/mlio/contrib/insights/hll"]
    base += ["-isystem", "/opt/vp/compat/include"]
    return base


def tus(group):
    if group == "core":
        return sorted(glob.glob(REPO + "/src/mlio/**/*.cc", recursive=True))
    if group == "py":
        return sorted(p for p in glob.glob(REPO + "/src/mlio-py/mlio/core/**/*.cc", recursive=True))
    if group == "insights":
        return sorted(glob.glob(REPO + "/src/mlio-py/mlio/contrib/insights/**/*.cc", recursive=True))
    if group == "probe":        # instantiates templates of the public headers that the library does not use itself
        return sorted(glob.glob(VERIF + "/analysis/probe/*.cc"))
    raise ValueError(group)


def _extract(exe, toolhash, tu, flags):
    cache = os.path.join(BUILD, "cache")
    os.makedirs(cache, exist_ok=True)
    key = _sha((toolhash + "\0" + "\0".join(flags) + "\0" + tu).encode())[:24]
    meta_p = os.path.join(cache, key + ".meta")
    data_p = os.path.join(cache, key + ".json")
    if os.path.exists(meta_p) and os.path.exists(data_p):
        try:
            meta = json.load(open(meta_p))
            if all(os.path.exists(f) and _sha(_read(f)) == h for f, h in meta["deps"].items()):
                return json.load(open(data_p))
        except (ValueError, KeyError):
            pass
    fd, tmp = tempfile.mkstemp(dir=cache, suffix=".tmp")
    os.close(fd)
    r = subprocess.run([exe, "--root", REPO + "/src", "--root", REPO + "/include", "-o", tmp, tu, "--"] + flags,
                       capture_output=True, text=True)
    if r.returncode != 0:
        os.unlink(tmp)
        raise AnalysisError("cannot parse %s:\n%s" % (tu, r.stderr[-3000:]))
    d = json.load(open(tmp))
    if d["errors"]:
        os.unlink(tmp)
        raise AnalysisError("errors while parsing %s:\n%s" % (tu, r.stderr[-3000:]))
    deps = {f: _sha(_read(f)) for f in set(d["deps"]) | {tu}}
    os.replace(tmp, data_p)
    with open(meta_p + ".%d" % os.getpid(), "w") as f:
        json.dump({"deps": deps}, f)
    os.replace(meta_p + ".%d" % os.getpid(), meta_p)
    return d


def extract(groups):
    exe, h = _tool()
    jobs = []
    for g in groups:
        fl = _flags(g)
        for tu in tus(g):
            jobs.append((tu, fl))
    if not jobs:
        raise AnalysisError("no sources found below " + REPO)
    # long ones first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]) - (100000 if "mlio-py" in j[0] else 0))
    out = {}
    with concurrent.futures.ThreadPoolExecutor(max_workers=int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        futs = {ex.submit(_extract, exe, h, tu, fl): tu for tu, fl in jobs}
        for f in concurrent.futures.as_completed(futs):
            out[futs[f]] = f.result()
    return out


if __name__ == "__main__":
    import time
    t = time.time()
    o = extract(sys.argv[1:] or ["core", "py", "insights"])
    print(len(o), "translation units", sum(len(d["decls"]) for d in o.values()), "declarations", "%.1f s" % (time.time() - t))
