"""C31: loading, writing and querying affect nothing but the named output."""
import copy
import gc
import os
import random
import resource
import signal
import stat
import sys
import threading
import warnings

import numpy as np
from hypothesis import strategies as st

from .. import cli, gen, model as M, oracle as O, foreign as F, source as S
from ..core import Sub, require, outcome, sut
from .c27 import limit

LEVEL = "exploration"
ASSUMPTIONS = ["Descriptors are counted for library calls; the tools end their process anyway.",
               "A write that fails may leave its own output incomplete, but nothing else.",
               "Descriptors held by memory maps count only after the embeddings are gone."]

OPS = ["load", "load", "load", "chunk", "write", "write", "query", "tool", "tool", "swap", "swap",
       "drop"]
DAMAGE = ["none", "none", "cut", "flip", "missing", "directory", "empty"]


@st.composite
def strategy(draw):
    n = draw(st.integers(1, 3))
    srcs = [draw(S.source(hi=5, large=False))]
    for _ in range(n):
        how = draw(st.integers(0, 2))
        if how == 0:                          # same words and size, other numbers
            s = copy.deepcopy(srcs[0])
            s["seed"] += 1
            if "storage" in s:
                s["storage"]["seed"] += 1
        else:
            s = draw(S.source(formats=(srcs[0]["fmt"],) if how == 1 else S.ALL, hi=5))
        srcs.append(s)
    for s in srcs:
        s["at"] = 0
    ops = draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 31), st.integers(0, 31),
                                  st.sampled_from(DAMAGE)), min_size=2, max_size=7))
    return dict(srcs=srcs, ops=[list(o) for o in ops])


def fds():
    out = {}
    for n in os.listdir("/proc/self/fd"):
        try:
            out[int(n)] = os.readlink("/proc/self/fd/" + n)
        except OSError:
            pass                              # the listing itself
    return out


def tree(top):
    out = {}
    for d, dirs, files in os.walk(top):
        for n in dirs:
            out[os.path.join(d, n)] = "dir"
        for n in files:
            p = os.path.join(d, n)
            s = os.lstat(p)
            with open(p, "rb") as f:
                out[p] = (stat.S_IMODE(s.st_mode), s.st_mtime_ns, s.st_size, f.read())
    return out


def world():
    """Process-wide state a library call must leave alone."""
    rs = np.random.get_state()
    um = os.umask(0o22)
    os.umask(um)
    return dict(errstate=np.geterr(), print=repr(sorted(np.get_printoptions().items(), key=str)),
                random=(rs[0], rs[1].tobytes(), rs[2:]), pyrandom=random.getstate(), cwd=os.getcwd(), umask=um,
                environ=dict(os.environ), recursion=sys.getrecursionlimit(),
                path=list(sys.path), threads=threading.active_count(),
                filters=list(warnings.filters), sigint=signal.getsignal(signal.SIGINT),
                sigpipe=signal.getsignal(signal.SIGPIPE), switch=sys.getswitchinterval(),
                gc=gc.isenabled(), stdout=id(sys.stdout), stderr=id(sys.stderr),
                stdin=id(sys.stdin), argv=list(sys.argv))


class Snapshot:
    def __init__(self, ctx, count=True):
        self.ctx, self.count = ctx, count
        self.world, self.tree = world(), tree(ctx.scratch)
        self.fds = fds()

    def compare(self, what, outputs=()):
        if self.count:
            now = fds()
            extra = {k: v for k, v in now.items() if self.fds.get(k) != v}
            require(not extra and len(now) == len(self.fds),
                    lambda: f"{what}: descriptors left open {extra}, closed "
                            f"{ {k: v for k, v in self.fds.items() if k not in now} }")
        now = world()
        for k, v in self.world.items():
            require(now[k] == v, lambda: f"{what}: {k} changed from {str(v)[:200]} to "
                    f"{str(now[k])[:200]}")
        after = tree(self.ctx.scratch)
        for p in set(self.tree) | set(after):
            if p in outputs:
                continue
            require(p in after, lambda: f"{what}: removed {os.path.basename(p)!r}")
            require(p in self.tree, lambda: f"{what}: created {os.path.basename(p)!r}")
            require(after[p] == self.tree[p], lambda: f"{what}: changed {os.path.basename(p)!r}: "
                    f"{self.tree[p][:3]} {after[p][:3]}")


def damaged(data, how, k):
    if how == "cut":
        return data[:k * 7 % max(1, len(data))]
    if how == "flip" and data:
        b = bytearray(data)
        b[(k * 13) % len(b)] ^= 1 + k
        return bytes(b)
    if how == "empty":
        return b""
    return data


def load(s, path, mmap):
    import finalfusion
    if s.fmt == "finalfusion":
        return finalfusion.load_finalfusion(path, mmap=mmap)
    return F.loader(s.fmt)(path)


def same_as(e, s, what):
    """Loaded embeddings against what the file at that path now holds."""
    if s.fmt == "finalfusion":
        O.emb_equals(e, s.em, what)
        for w in s.em.vocab.words[:4]:
            with sut(what):
                O.check_vector(e[w], s.em.lookup(w), f"{what}: {w!r}")
        return
    with sut(what):
        require(list(e.vocab.words) == s.vm.words, lambda: f"{what}: words "
                f"{list(e.vocab.words)[:9]}, expected {s.vm.words[:9]}")
        n = len(s.vm.words)
        got = np.asarray(e.storage)[:n].astype(np.float64) * np.asarray(e.norms)[:, None]
    O.close(got, s.vectors, s.tol, what)


def place(s, path, data):
    with open(path, "wb") as f:
        f.write(data)
    os.utime(path, ns=(10 ** 18, 10 ** 18))   # the same time stamp for every content


def check(case, ctx):
    import finalfusion
    from finalfusion import storage, vocab, norms, metadata
    np.random.seed(4711)                      # Hypothesis restores both
    random.seed(4711)
    srcs, datas, paths = [], [], []
    for i, c in enumerate(case["srcs"]):
        s = S.make(c, ctx, f"in{i}")
        with open(s.path, "rb") as f:
            datas.append(f.read())
        place(s, s.path, datas[-1])
        srcs.append(s)
        paths.append(s.path)
    at = list(range(len(srcs)))               # which content lies at which path
    shared = ctx.path("shared")
    os.mkdir(ctx.path("dir"))
    held = []
    done = 0
    for name, a, b, dam in case["ops"]:
        i = a % len(srcs)
        s, path = srcs[at[i]], paths[i]
        what = f"{name} {s.fmt}"
        if name == "load":
            if dam == "none":
                target = path
            elif dam == "missing":
                target = ctx.path("nowhere")
            elif dam == "directory":
                target = ctx.path("dir")
            else:
                target = ctx.path("damaged")
                place(s, target, damaged(datas[at[i]], dam, b))
            mm = bool(b & 1) and s.fmt == "finalfusion"
            snap = Snapshot(ctx, count=not mm)
            how, e = outcome(lambda: load(s, target, mm))
            what += f" ({dam}, mmap={mm})"
            snap.compare(what)
            require(dam not in ("missing", "directory") or how == "err", f"{what}: loaded")
            if dam == "none":
                require(how == "ok" or 0 in s.vectors.shape,
                        lambda: f"{what}: {type(e).__name__}: {e}")
                if how == "ok":
                    same_as(e, s, what)
                    if not mm:
                        held.append((e, s))
            if mm:                            # releases the map and its descriptor
                snap.fds = {k: v for k, v in snap.fds.items()}
                del e
                gc.collect()
                snap.count = True
                snap.compare(what + ", released")
                e = None
            done += 1
        elif name == "chunk" and s.fmt == "finalfusion":
            target = path
            if dam not in ("none", "missing", "directory"):
                target = ctx.path("damaged")
                place(s, target, damaged(datas[at[i]], dam, b))
            fn = [vocab.load_vocab, storage.load_storage, norms.load_norms,
                  metadata.load_metadata, storage.load_ndarray, storage.load_quantized_array,
                  vocab.load_simple_vocab, vocab.load_explicit_vocab][b % 8]
            snap = Snapshot(ctx)
            how, got = outcome(lambda: fn(target))
            snap.compare(f"{fn.__name__} ({how})")
            done += 1
        elif name == "write" and held:
            e, hs = held[a % len(held)]
            fmt = S.ALL[b % 5]
            out = ctx.path("dir") if dam == "directory" else ctx.path("no/where") \
                if dam == "missing" else ctx.path(f"out{a % 2}")
            snap = Snapshot(ctx)
            if dam == "cut":                  # the disk is full after b * 29 bytes
                with limit(b * 29):
                    how, err = outcome(lambda: F.writer(fmt)(out, e))
            else:
                how, err = outcome(lambda: F.writer(fmt)(out, e))
            snap.compare(f"writing {fmt} ({how})", () if dam in ("directory", "missing") else (out,))
            same_as(e, hs, f"embeddings after writing {fmt}")
            done += 1
        elif name == "query" and held:
            e, hs = held[a % len(held)]
            words = hs.vm.words[:3] + ["zzz", "ab", ""]
            w = words[b % len(words)]
            snap = Snapshot(ctx)
            for fn in (lambda: e.embedding(w), lambda: e.word_similarity(w, 3),
                       lambda: e.analogy(w, words[0], words[-1], 2),
                       lambda: e.embedding_with_norm(w), lambda: list(e),
                       lambda: e.embedding_similarity(np.zeros(e.dims, dtype=np.float32)),
                       lambda: e.bucket_to_explicit(), lambda: repr(e)):
                outcome(fn)
            snap.compare(f"querying {w!r}")
            done += 1
        elif name == "tool":
            tool = ["convert", "select", "similar", "analogy", "explicit"][b % 5]
            target = path
            if dam in ("cut", "flip", "empty"):
                target = ctx.path("damaged")
                place(s, target, damaged(datas[at[i]], dam, b))
            elif dam == "missing":
                target = ctx.path("nowhere")
            full = b * 29 if dam == "none" and a & 16 else resource.RLIM_INFINITY
            words = ctx.path("words")
            place(s, words, "\n".join(s.vm.words[:2] + ["zzz"]).encode("utf-8") + b"\n")
            out = ctx.path("dir/out") if dam != "directory" else ctx.path("dir")
            outputs, stdin = (out,), b""
            to = S.ALL[a % 5]
            if tool == "convert":
                argv = ["-f", s.fmt, "-t", to, target, out]
            elif tool == "select":
                argv = ["-f", s.fmt, "-t", to, "--ignore_unk", target, words, out]
            elif tool == "explicit":
                argv = ["-f", s.fmt, target, out]
            else:
                argv, outputs = ["-f", s.fmt, target, words], ()
                if tool == "analogy":
                    place(s, words, b"a b c\nzz b a\n")
            if dam == "directory":
                outputs = ()
            snap = Snapshot(ctx, count=False)
            with limit(full):
                code, _, _ = cli.run(tool, argv, stdin)
            snap.compare(f"ffp-{tool} of {s.fmt} ({dam}), exit {code}", outputs)
            done += 1
        elif name == "swap":                  # other content of the same time at the same path
            j = b % len(srcs)
            same = [k for k in range(len(srcs)) if srcs[k].fmt == s.fmt]
            j = same[j % len(same)]
            if a & 16:
                place(s, shared, datas[j])
                os.replace(shared, path)
            else:
                place(s, path, datas[j])
            at[i] = j
        elif name == "drop" and held:
            held.pop(a % len(held))
        for e, hs in held:
            same_as(e, hs, f"held {hs.fmt} embeddings after {name}")
        ctx.label(name)
    return done > 0


@st.composite
def disk_strategy(draw):
    s = draw(S.source(hi=5, large=False))
    s["at"] = 0
    return dict(src=s, steps=[list(x) for x in draw(st.lists(st.tuples(
        st.integers(0, 4), st.integers(0, 5), st.integers(0, 1100)), min_size=1, max_size=4))])


def check_disk(case, ctx):
    """Writing and converting onto a disk that is full after some bytes."""
    s = S.make(case["src"], ctx)
    how, e = outcome(lambda: load(s, s.path, False))
    if how == "err":
        return False
    failed = 0
    for fmt, what, size in case["steps"]:
        fmt = S.ALL[fmt]
        out = ctx.path("out")
        snap = Snapshot(ctx, count=what < 4)
        if what == 4:
            fn = lambda: cli.run("convert", ["-f", s.fmt, "-t", fmt, s.path, out])
        elif what == 5:
            fn = lambda: cli.run("explicit", ["-f", s.fmt, s.path, out])
        elif what == 3:
            fn = lambda: e.chunks()[size % len(e.chunks())].write(out)
        else:
            fn = lambda: F.writer(fmt)(out, e)
        with limit(size if what else 0):
            how, err = outcome(fn)
        if how == "err" or what > 3 and err[0] != 0:
            failed += 1
        err = None                            # the traceback holds the frames' files
        snap.compare(f"{fmt} output {what} on a disk full after {size} bytes", (out,))
        same_as(e, s, "embeddings afterwards")
    ctx.label("failed writes", failed)
    return failed > 0


@st.composite
def reload_strategy(draw):
    base = draw(S.source(hi=5, large=False))
    base["at"] = 0
    srcs = [base]
    for k in range(1, draw(st.integers(2, 3))):
        s = copy.deepcopy(base)               # the same size, other numbers, perhaps other order
        s["seed"] += k
        if "storage" in s:
            s["storage"]["seed"] += k
        if draw(st.integers(0, 2)) == 0:
            s["vocab"]["words"]["list"].reverse()
        srcs.append(s)
    steps = draw(st.lists(st.tuples(st.integers(0, 2), st.booleans(), st.integers(0, 5)),
                          min_size=2, max_size=6))
    return dict(srcs=srcs, steps=[list(x) for x in steps])


def check_reload(case, ctx):
    """One path, overwritten or replaced again and again, loaded after each."""
    from finalfusion import storage, vocab, norms, metadata
    srcs, datas = [], []
    for i, c in enumerate(case["srcs"]):
        s = S.make(c, ctx, f"in{i}")
        with open(s.path, "rb") as f:
            datas.append(f.read())
        srcs.append(s)
    path, side = ctx.path("path"), ctx.path("side")
    last, changes, mapped = None, 0, None
    for k, replace, how in case["steps"]:
        k %= len(srcs)
        s = srcs[k]
        if replace:
            place(s, side, datas[k])
            os.replace(side, path)
            if mapped is not None:            # of the file that had the name before
                same_as(mapped[0], mapped[1], f"mapped {s.fmt} file after it was replaced")
                ctx.label("mapped file replaced")
        else:
            mapped = None                     # may see the change
            gc.collect()
            place(s, path, datas[k])
        what = f"{s.fmt} file {k} after {last}"
        if s.fmt != "finalfusion" or how < 2:
            kind, e = outcome(lambda: load(s, path, how == 1))
            require(kind == "ok" or 0 in s.vectors.shape, lambda: f"{what}: {e}")
            if kind == "ok":
                same_as(e, s, what)
                if how == 1:
                    mapped = e, s
                e = None
        else:
            with sut(what):
                if how == 2:
                    O.storage_equals(storage.load_storage(path), s.em.storage, what)
                elif how == 3:
                    O.vocab_equals(vocab.load_vocab(path), s.em.vocab, what)
                elif how == 4 and s.em.norms is not None:
                    O.norms_equal(norms.load_norms(path), s.em.norms, what)
                elif how == 5 and s.em.meta is not None:
                    O.meta_equal(metadata.load_metadata(path), s.em.meta, what)
        changes += last is not None and datas[k] != datas[last]
        last = k
    return changes > 0


SUBS = [
    Sub("effects", strategy, check, "histories of loads, writes, queries, tool runs and replaced "
        "files; after each the scratch directory, descriptors and process state are compared; "
        "non-trivial: at least one such operation.", 3000),
    Sub("disk", disk_strategy, check_disk, "writes and tool runs with a file size limit; non-trivial: "
        "one of them failed.", 1200),
    Sub("reload", reload_strategy, check_reload, "one path whose content is overwritten or replaced "
        "by other content of the same time and mostly the same size, loaded after each change; "
        "non-trivial: the content changed between two loads.", 1500),
]
