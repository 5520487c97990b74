#!/bin/bash
# tools/try_bug.sh seeded/<id> [checks...]: confirms a planted bug in a scratch copy of /repo
# (stable tests pass, demo fails with the patch and passes without) and runs checks on it.
set -u
VERIF=$(cd "$(dirname "$0")/.." && pwd)
BUG=$(cd "$1" && pwd); shift
W=$(mktemp -d /tmp/vp-bug.XXXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; rm -rf "$W/repo/.git/index.lock"
R=$W/repo
export PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LC_ALL=C.UTF-8
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTEST_DISABLE_PLUGIN_AUTOLOAD=1
cp -r "$BUG" "$W/demo"; rm -f "$W"/demo/*.diff "$W"/demo/meta.json
(cd "$R" && PYTHONPATH=$R/src timeout 300 bash "$W/demo/demo.sh" >"$W/log" 2>&1) && echo "demo clean: ok" || { echo "demo clean: FAILS"; tail -5 "$W/log"; }
(cd "$R" && git apply "$BUG/patch.diff") || { echo "patch does not apply"; exit 1; }
if git -C "$R" diff --name-only | grep -qE '\.(pyx|pxd)$'; then
    (cd "$R" && rm -f src/finalfusion/subword/{explicit_indexer,hash_indexers,ngrams}.c && find src -name '*.so' -delete && python setup.py -q build_ext --inplace -j3 >"$W/log" 2>&1) || { echo "build fails"; tail "$W/log"; exit 1; }
fi
(cd "$R" && PYTHONPATH=$R/src timeout 300 bash "$W/demo/demo.sh" >"$W/log" 2>&1) && echo "demo bug: PASSES (bad)" || { echo "demo bug: fails (good)"; tail -2 "$W/log"; }
(cd "$R" && PYTHONPATH=$R/src python -m pytest -q -x -p no:cacheprovider --doctest-modules --deselect tests/test_storage.py::test_from_matrix --basetemp="$W/pt" >"$W/log" 2>&1) && echo "tests: pass" || { echo "tests: FAIL"; grep -E '^(FAILED|ERROR)' "$W/log"; }
mkdir "$W/cli"; ln -s "$R/tests" "$W/cli/tests"
for s in "$R"/tests/integration/*.sh; do
    [ "$(basename "$s")" = all.sh ] || (cd "$W/cli" && PYTHONPATH=$R/src bash "$s" >"$W/log" 2>&1) || echo "integration FAIL $s"
done
for c in "$@"; do
    VERIF_REPO=$R VERIF_EVIDENCE=$W/ev VERIF_REPLAYS=$W/rp python "$VERIF/check.py" "$c" --tier quick >"$W/out" 2>&1
    rc=$?; echo "$c exit $rc: $(grep -m1 -A1 non-trivial "$W/out" | head -1 | cut -c1-80)"; [ $rc = 1 ] && grep -v "non-trivial" "$W/out" | head -2 | cut -c1-200
done
