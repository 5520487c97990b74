#!/opt/venv/bin/python
"""tools/mutate.py OUT.jsonl [--files RE] [--jobs N] [--scale S] [--sample N]

Development aid: generates mutants of /repo/src/finalfusion, keeps those that pass the stable
tests, and reports which checks notice them.  Works on copies under /tmp/mut.
"""
import argparse, ast, io, json, os, pathlib, random, re, shutil, subprocess, sys, tokenize
from concurrent.futures import ThreadPoolExecutor, as_completed
import queue

VERIF = pathlib.Path(__file__).resolve().parent.parent
SRC = pathlib.Path("/repo/src/finalfusion")
FILES = ["embeddings.py", "io.py", "metadata.py", "norms.py", "_util.py", "compat/fasttext.py",
         "compat/text.py", "compat/word2vec.py", "scripts/analogy.py",
         "scripts/bucket_to_explicit.py", "scripts/convert.py", "scripts/select.py",
         "scripts/similar.py", "scripts/util.py", "storage/__init__.py", "storage/ndarray.py",
         "storage/quantized.py", "vocab/__init__.py", "vocab/simple_vocab.py",
         "vocab/subword.py", "vocab/vocab.py", "subword/explicit_indexer.pyx",
         "subword/hash_indexers.pyx", "subword/ngrams.pyx"]
CMP = {"<": ["<=", ">"], "<=": ["<", ">="], ">": [">=", "<"], ">=": [">", "<="],
       "==": ["!="], "!=": ["=="]}
OPS = {"+": ["-"], "-": ["+"], "*": ["+"], "//": ["*"], "/": ["*"], "%": ["+"], "&": ["|"],
       "**": ["*"], "^=": ["|="], "*=": ["+="], "+=": ["-="], "-=": ["+="], "/=": ["*="]}
WORDS = {"and": ["or"], "or": ["and"], "True": ["False"], "False": ["True"], "not": [""],
         "continue": ["break", "pass"], "break": ["continue"], "all": ["any"],
         "min": ["max"], "max": ["min"]}


def offsets(text):
    out, at = [0], 0
    for line in text.splitlines(keepends=True):
        at += len(line)
        out.append(at)
    return out


def doc_lines(text, pyx):
    """Lines inside docstrings or annotations-only code to skip (tokenizer based)."""
    skip = set()
    prev = None
    for tok in tokenize.generate_tokens(io.StringIO(text).readline):
        if tok.type == tokenize.STRING and (prev is None or prev in (
                tokenize.NEWLINE, tokenize.INDENT, tokenize.NL, tokenize.DEDENT)):
            skip.update(range(tok.start[0], tok.end[0] + 1))
        prev = tok.type
    return skip


def token_mutants(text, pyx):
    lines = offsets(text)
    skip = doc_lines(text, pyx)
    pos = lambda p: lines[p[0] - 1] + p[1]
    toks = list(tokenize.generate_tokens(io.StringIO(text).readline))
    for i, t in enumerate(toks):
        if t.start[0] in skip:
            continue
        line = t.line.strip()
        if re.match(r"(from|import|cimport|cdef extern|@|__all__)", line):
            continue
        a, b = pos(t.start), pos(t.end)
        reps = []
        if t.type == tokenize.OP:
            reps = CMP.get(t.string, []) + OPS.get(t.string, [])
            if t.string == "-" and toks[i - 1].type == tokenize.OP and toks[i - 1].string in "([,=:":
                reps = [""]
            if t.string == "*" and (toks[i - 1].string in "(,"):
                reps = []
        elif t.type == tokenize.NAME:
            reps = WORDS.get(t.string, [])
            if t.string == "is" and toks[i + 1].string == "None":
                reps = ["is not"]
            elif t.string == "is" and toks[i + 1].string == "not":
                yield a, pos(toks[i + 1].end), "is"
            elif t.string == "in" and not line.startswith("for ") and " for " not in line:
                reps = ["not in"] if toks[i - 1].string != "not" else ["in"]
        elif t.type == tokenize.NUMBER and re.fullmatch(r"\d+", t.string):
            n = int(t.string)
            reps = [str(n + 1)] + ([str(n - 1)] if n else [])
        elif t.type == tokenize.STRING:
            s = t.string
            if re.fullmatch(r"""f?['"]<?[\w{}.]*['"]""", s) and re.search(r"[QIfiqdbx?]", s) and \
                    re.search(r"struct|_binary|calcsize|_header|dtype", t.line):
                for x, y in (("Q", "I"), ("I", "Q"), ("I", "i"), ("q", "i"), ("<", ">")):
                    if x in s:
                        reps.append(s.replace(x, y, 1))
            elif len(s) > 2 and s[0] in "'\"" and not re.search(r"\w\s+\w|->|Error|: '", s + t.line[:0]) \
                    and not re.search(r"->|__all__|raise |: '", t.line):
                reps.append(s[0] + s[0])
        for r in reps:
            yield a, b, r


def stmt_mutants(text):
    """Deleting statements, forcing conditions, dropping call arguments."""
    tree = ast.parse(text)
    lines = offsets(text)
    enc = [x.encode() for x in text.splitlines(keepends=True)]

    def pos(l, c):
        return lines[l - 1] + len(enc[l - 1][:c].decode())
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    for node in ast.walk(tree):
        if isinstance(node, (ast.Expr, ast.AugAssign, ast.Assert, ast.Raise)):
            if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
                continue
            yield (*span(node), "pass")
        if isinstance(node, (ast.If, ast.IfExp, ast.While)):
            if "__main__" in ast.unparse(node.test):
                continue
            a, b = span(node.test)
            yield a, b, "True"
            yield a, b, "False"
        if isinstance(node, ast.Call):
            for kw in node.keywords:
                if kw.arg in ("help", "metavar", "description", "prog"):
                    continue
                a, b = span(kw.value)
                s = pos(kw.lineno, kw.col_offset)
                m = re.match(r"\s*,", text[b:])
                yield s, b + (m.end() if m else 0), ""
        if isinstance(node, ast.Attribute) and node.attr in ("T", "strip", "rstrip"):
            a, b = span(node)
            if node.attr == "T":
                yield (*span(node), ast.unparse(node.value))
        if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
            a, b = span(node)
            yield a, b, text[slice(*span(node.value))]
        if isinstance(node, ast.Return) and node.value is not None and not (
                isinstance(node.value, ast.Constant) and node.value.value is None):
            yield (*span(node), "return None")
        if isinstance(node, ast.BinOp) or isinstance(node, ast.BoolOp):
            parts = [node.left, node.right] if isinstance(node, ast.BinOp) else node.values
            if len(parts) == 2:
                for q in parts:
                    yield (*span(node), "(" + text[slice(*span(q))] + ")")
            else:
                for q in parts:
                    rest = [text[slice(*span(x))] for x in parts if x is not q]
                    op = " and " if isinstance(node.op, ast.And) else " or "
                    yield (*span(node), "(" + op.join(rest) + ")")


def mutants(name):
    text = (SRC / name).read_text()
    seen = set()
    gens = [token_mutants(text, name.endswith(".pyx"))]
    if name.endswith(".py"):
        gens.append(stmt_mutants(text))
    else:
        lines = text.splitlines(keepends=True)
        skip = doc_lines(text, True)
        off = offsets(text)

        def drop():
            for i, l in enumerate(lines):
                if i + 1 in skip or not l.startswith("    ") or not l.strip():
                    continue
                if re.match(r"\s+(ngrams\.append|i \+= 1|h [\^*]=|return ngrams|self\.|assert|word =|max_n =)", l):
                    ind = re.match(r"\s*", l).group()
                    yield off[i], off[i] + len(l.rstrip("\n")), ind + "pass"
                m = re.match(r"(\s+if )(.*):\s*$", l)
                if m:
                    yield off[i] + m.start(2), off[i] + m.end(2), "True"
                    yield off[i] + m.start(2), off[i] + m.end(2), "False"
                for x, y in (("uint64_t", "uint32_t"), ("uint32_t", "uint8_t"), ("uint32_t", "uint64_t"),
                             ("int8_t", "uint8_t"), ("Py_ssize_t", "uint8_t")):
                    for m in re.finditer(r"\b%s\b" % x, l):
                        if "import" not in l:
                            yield off[i] + m.start(), off[i] + m.end(), y
        gens.append(drop())
    for g in gens:
        for a, b, r in g:
            new = text[:a] + r + text[b:]
            if new == text or new in seen:
                continue
            if name.endswith(".py"):
                try:
                    if ast.dump(ast.parse(new)) == ast.dump(ast.parse(text)):
                        continue
                except SyntaxError:
                    continue
            seen.add(new)
            line = text.count("\n", 0, a) + 1
            yield dict(file=name, line=line, a=a, old=text[a:b], new=r), new


ENV = dict(os.environ, PATH="/opt/venv/bin:" + os.environ["PATH"], PYTHONDONTWRITEBYTECODE="1",
           PYTHONHASHSEED="0", LC_ALL="C.UTF-8", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
           PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")


def sh(cmd, cwd, timeout, **env):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=dict(ENV, **env), capture_output=True, text=True,
                           timeout=timeout, errors="replace")
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return -99, "timeout"


def judge(mut, new, w, scale, checks):
    repo = w / "repo"
    target = repo / "src/finalfusion" / mut["file"]
    orig = (SRC / mut["file"]).read_text()
    pyx = mut["file"].endswith(".pyx")
    try:
        target.write_text(new)
        if pyx:
            sub = repo / "src/finalfusion/subword"
            for f in list(sub.glob("*.so")) + list(sub.glob("*.c")):
                f.unlink()
            if sh([sys.executable, "setup.py", "-q", "build_ext", "--inplace"], repo, 200)[0]:
                return dict(mut, status="build fails")
        rc, out = sh([sys.executable, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--doctest-modules",
                      "--deselect", "tests/test_storage.py::test_from_matrix", f"--basetemp={w}/pt"],
                     repo, 90, PYTHONPATH=str(repo / "src"))
        if rc:
            return dict(mut, status="tests")
        cli = w / "cli"
        shutil.rmtree(cli, ignore_errors=True)
        cli.mkdir()
        (cli / "tests").symlink_to(repo / "tests")
        for s in sorted((repo / "tests/integration").glob("*.sh")):
            if s.name != "all.sh" and sh(["bash", str(s)], cli, 90, PYTHONPATH=str(repo / "src"))[0]:
                return dict(mut, status="tests")
        for c in checks(mut["file"]):
            rc, out = sh([sys.executable, str(VERIF / "check.py"), c, "--tier", "quick", "--scale", str(scale)],
                         w, 600, VERIF_REPO=str(repo), VERIF_EVIDENCE=str(w / "ev"), VERIF_REPLAYS=str(w / "rp"),
                         VERIF_JOBS="1")
            if rc == 1:
                msg = [l for l in out.splitlines() if "non-trivial" not in l and "VIOLATION" not in l]
                return dict(mut, status="caught", by=c, msg=" ".join(msg)[:160])
            if rc != 0:
                return dict(mut, status="broken check", by=c, msg=out[-800:])
        return dict(mut, status="SURVIVED")
    finally:
        target.write_text(orig)


ORDER = {
    "embeddings.py": "C28 C12 C11 C13 C14 C15 C01 C04 C02 C03 C05",
    "io.py": "C03 C02 C04 C01 C17 C27 C05", "metadata.py": "C25 C02 C04 C01", "norms.py": "C17 C03 C04 C02 C01",
    "_util.py": "C18 C20 C19", "compat/fasttext.py": "C20 C26 C21 C27", "compat/text.py": "C19 C26 C21 C27",
    "compat/word2vec.py": "C18 C26 C21", "scripts/": "C22 C23 C24 C15 C21 C27",
    "storage/": "C16 C17 C05 C03 C04 C01 C02", "vocab/": "C06 C10 C03 C04 C02 C01 C15",
    "subword/": "C07 C08 C09 C10 C06"}
ALL = [f"C{i:02}" for i in range(1, 29)]


def checks(name):
    first = []
    for k, v in ORDER.items():
        if name.startswith(k):
            first = v.split()
    return first + [c for c in ALL if c not in first]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--files", default=".")
    ap.add_argument("--jobs", type=int, default=7)
    ap.add_argument("--scale", type=float, default=0.15)
    ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--list", action="store_true")
    args = ap.parse_args()
    todo = [(m, n) for f in FILES if re.search(args.files, f) for m, n in mutants(f)]
    done = set()
    if os.path.exists(args.out):
        for l in open(args.out):
            d = json.loads(l)
            done.add((d["file"], d["a"], d["old"], d["new"]))
    todo = [x for x in todo if (x[0]["file"], x[0]["a"], x[0]["old"], x[0]["new"]) not in done]
    if args.sample and len(todo) > args.sample:
        todo = random.Random(1).sample(todo, args.sample)
    print(len(todo), "mutants", flush=True)
    if args.list:
        return
    pool = queue.Queue()
    for i in range(args.jobs):
        w = pathlib.Path(f"/tmp/mut/{os.getpid()}-{i}")
        shutil.rmtree(w, ignore_errors=True)
        w.mkdir(parents=True)
        shutil.copytree("/repo", w / "repo", symlinks=True)
        pool.put(w)

    def one(x):
        w = pool.get()
        try:
            return judge(*x, w, args.scale, checks)
        except Exception as e:
            return dict(x[0], status="error", msg=repr(e))
        finally:
            pool.put(w)
    with ThreadPoolExecutor(args.jobs) as ex, open(args.out, "a") as f:
        for r in as_completed([ex.submit(one, x) for x in todo]):
            f.write(json.dumps(r.result()) + "\n")
            f.flush()
    shutil.rmtree("/tmp/mut", ignore_errors=True)


main()
