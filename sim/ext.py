"""The compiled parts of the repository, for the sources as they are now.

The .so files beside the repository are used when they are there and the C and
Cython sources are those they were built from on the unchanged tree (ext.sha);
otherwise the extensions are built into a folder of this directory.
"""
import hashlib
import os
import re
import shutil
import subprocess
import sys
import sysconfig
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
CACHE = os.path.join(os.path.dirname(HERE), ".build")


def sources(repo):
    out = []
    for d, ds, fs in os.walk(os.path.join(repo, "hyperstatic")):
        ds.sort()
        for f in sorted(fs):
            if os.path.splitext(f)[1] not in (".pyx", ".pxd", ".pxi", ".c", ".h"):
                continue
            if f.endswith(".c") and f[:-2] + ".pyx" in fs:
                continue                     # generated
            out.append(os.path.join(d, f))
    return out + [os.path.join(repo, "setup.py")]


def digest(repo):
    h = hashlib.sha256()
    for p in sources(repo):
        h.update(os.path.relpath(p, repo).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def modules(repo):
    with open(os.path.join(repo, "setup.py"), encoding="utf-8") as f:
        return sorted(set(re.findall(r"Extension\(\s*['\"](\w+)", f.read())))


def complete(folder, repo):
    suf = sysconfig.get_config_var("EXT_SUFFIX")
    return all(os.path.exists(os.path.join(folder, m + suf)) for m in modules(repo))


def path(repo):
    """-> the folder to import the extensions from"""
    sha = digest(repo)
    with open(os.path.join(HERE, "ext.sha")) as f:
        known = f.read().split()
    if sha in known and complete(repo, repo):
        return repo
    out = os.path.join(CACHE, sha[:16])
    if complete(out, repo):
        return out
    os.makedirs(CACHE, exist_ok=True)
    w = tempfile.mkdtemp(dir=CACHE)
    try:
        for p in sources(repo):
            q = os.path.join(w, os.path.relpath(p, repo))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            shutil.copy(p, q)
        r = subprocess.run([sys.executable, "setup.py", "build_ext", "--inplace", "-j", "6"], cwd=w, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=600)
        if not complete(w, repo):
            sys.stderr.write(r.stdout.decode(errors="replace")[-2000:])
            raise RuntimeError("the extensions of %s do not build" % repo)
        os.makedirs(out, exist_ok=True)
        for f in os.listdir(w):
            if f.endswith(".so"):
                os.replace(os.path.join(w, f), os.path.join(out, f))
        return out
    finally:
        shutil.rmtree(w, ignore_errors=True)
