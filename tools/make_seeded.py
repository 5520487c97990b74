#!/usr/bin/env python3
"""tools/make_seeded.py [id...]: (re)writes seeded/<id>/ from the definitions in tools/seeded_defs.py.

Only a development aid; no check reads it or seeded/.
"""
import json, os, pathlib, shutil, subprocess, sys, tempfile, textwrap
HERE = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
from seeded_defs import BUGS  # noqa: E402

SEEDED = HERE.parent / "seeded"
DEMO = '''#!/bin/bash
# Exits 0 if the behaviour is right. All files go to a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
SCRATCH=$scratch python "$here/demo.py"
'''
HEAD = '''import os, struct, subprocess, sys
import numpy as np
import finalfusion as ff
from finalfusion import *
from finalfusion.storage import *
from finalfusion.vocab import *
from finalfusion.subword import *
from finalfusion.norms import *
from finalfusion.metadata import *
from finalfusion.compat import *

D = os.environ["SCRATCH"]
path = os.path.join(D, "file")
rng = np.random.RandomState(7)
f32 = lambda *s: rng.standard_normal(s).astype(np.float32)

'''
want = sys.argv[1:]
for bug in BUGS:
    if want and bug["id"] not in want:
        continue
    with tempfile.TemporaryDirectory(dir="/tmp") as tmp:
        subprocess.run(["git", "clone", "-q", "/repo", tmp + "/r"], check=True)
        for name, old, new in bug["edits"]:
            p = pathlib.Path(tmp, "r/src/finalfusion", name)
            text = p.read_text()
            assert text.count(old) == 1, (bug["id"], name, text.count(old), old)
            p.write_text(text.replace(old, new))
        diff = subprocess.run(["git", "-C", tmp + "/r", "diff"], check=True, capture_output=True).stdout
    d = SEEDED / bug["id"]
    shutil.rmtree(d, ignore_errors=True)
    d.mkdir(parents=True)
    (d / "patch.diff").write_bytes(diff)
    (d / "demo.sh").write_text(DEMO)
    (d / "demo.py").write_text(HEAD + textwrap.dedent(bug["demo"]).lstrip())
    (d / "meta.json").write_text(json.dumps({k: bug[k] for k in ("property", "needs", "what_it_breaks")}, indent=1) + "\n")
    os.chmod(d / "demo.sh", 0o755)
