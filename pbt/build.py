"""Build the Cython extensions from the repository's current working tree.

The sources are copied to a scratch directory outside /repo, built there with
the repository's own setup.py, and the resulting .so files are kept in
/verif/.cache keyed by the hash of everything they are built from.  The pure
Python part of the package is always imported from the working tree itself.
"""
import hashlib
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NATIVE = (".pyx", ".pxd", ".pxi", ".c", ".h")


class BuildError(Exception):
    pass


def _sources():
    src = os.path.join(REPO, "src")
    pyx = set()
    found = []
    for d, dirs, files in os.walk(src):
        dirs[:] = sorted(x for x in dirs
                         if x != "__pycache__" and not x.endswith(".egg-info"))
        for f in sorted(files):
            p = os.path.join(d, f)
            if f.endswith(".pyx"):
                pyx.add(p[:-4])
            found.append(p)
    # a .c beside a .pyx of the same name is Cython's output
    found = [p for p in found
             if not (p.endswith(".c") and p[:-2] in pyx)
             and not p.endswith((".so", ".pyc", ".html"))]
    return found


def native_key(found):
    h = hashlib.sha256(sys.version.encode())
    for p in found + [os.path.join(REPO, "setup.py")]:
        if p.endswith(NATIVE) or p.endswith("setup.py"):
            h.update(os.path.relpath(p, REPO).encode() + b"\0")
            with open(p, "rb") as f:
                h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:32]


def ensure_built():
    """Return {module name: path of its .so}."""
    found = _sources()
    key = native_key(found)
    cache = os.path.join(VERIF, ".cache", "ext", key)
    if not os.path.exists(os.path.join(cache, "DONE")):
        _build(found, cache)
    mods = {}
    for d, _, files in os.walk(cache):
        for f in files:
            if f.endswith(".so"):
                rel = os.path.relpath(os.path.join(d, f.split(".")[0]), cache)
                mods[rel.replace(os.sep, ".")] = os.path.join(d, f)
    return mods


def _build(found, cache):
    tmp = tempfile.mkdtemp(prefix="vp-build-")
    try:
        for p in found:
            dst = os.path.join(tmp, os.path.relpath(p, REPO))
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copyfile(p, dst)
        for f in ("setup.py", "README.md", "MANIFEST.in"):
            p = os.path.join(REPO, f)
            if os.path.exists(p):
                shutil.copyfile(p, os.path.join(tmp, f))
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", HOME=tmp)
        r = subprocess.run([sys.executable, "setup.py", "-q", "build_ext",
                            "--inplace", "-j3"], cwd=tmp, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise BuildError(r.stdout.decode(errors="replace")[-4000:])
        os.makedirs(os.path.dirname(cache), exist_ok=True)
        stage = tempfile.mkdtemp(prefix="stage-", dir=os.path.dirname(cache))
        src = os.path.join(tmp, "src")
        n = 0
        for d, _, files in os.walk(src):
            for f in files:
                if f.endswith(".so"):
                    dst = os.path.join(stage, os.path.relpath(d, src), f)
                    os.makedirs(os.path.dirname(dst), exist_ok=True)
                    shutil.copyfile(os.path.join(d, f), dst)
                    n += 1
        if n == 0:
            raise BuildError("no extension was built")
        open(os.path.join(stage, "DONE"), "w").close()
        try:
            os.rename(stage, cache)
        except OSError:
            if not os.path.exists(os.path.join(cache, "DONE")):
                raise
            shutil.rmtree(stage)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class _Finder:
    def __init__(self, mods):
        self.mods = mods

    def find_spec(self, name, path=None, target=None):
        so = self.mods.get(name)
        if so is None:
            return None
        loader = importlib.machinery.ExtensionFileLoader(name, so)
        return importlib.util.spec_from_file_location(name, so, loader=loader)


def install():
    """Build, and make `import finalfusion` use the working tree."""
    mods = ensure_built()
    for m in list(sys.modules):
        if m == "finalfusion" or m.startswith("finalfusion."):
            del sys.modules[m]
    sys.meta_path.insert(0, _Finder(mods))
    sys.path.insert(0, os.path.join(REPO, "src"))
    import finalfusion
    src = os.path.realpath(os.path.join(REPO, "src"))
    assert os.path.realpath(finalfusion.__file__).startswith(src + os.sep), \
        finalfusion.__file__
    for m, so in mods.items():
        got = importlib.import_module(m)
        got = sys.modules[m]
        assert os.path.realpath(got.__file__) == os.path.realpath(so), got


if __name__ == "__main__":
    for k, v in sorted(ensure_built().items()):
        print(k, v)
