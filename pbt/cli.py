"""In-process runs of the command line tools, on real files and descriptors."""
import contextlib
import importlib
import io
import os
import sys
import traceback

from .core import Violation, surroundings

TOOLS = dict(convert="convert", select="select", similar="similar", analogy="analogy",
             explicit="bucket_to_explicit")


def run(tool, argv, stdin=b""):
    """(exit code, stdout text, stderr text)"""
    main = importlib.import_module(f"finalfusion.scripts.{TOOLS[tool]}").main
    if len(stdin) < 60000:
        rd, wr = os.pipe()
        os.write(wr, stdin)
        os.close(wr)
    else:
        rd = os.memfd_create("stdin")
        os.write(rd, stdin)
        os.lseek(rd, 0, os.SEEK_SET)
    saved = os.dup(0) if _open(0) else None
    os.dup2(rd, 0)
    os.close(rd)
    std = sys.argv, sys.stdin
    out, err = io.BytesIO(), io.BytesIO()
    wout = io.TextIOWrapper(out, encoding="utf-8", newline="\n")
    werr = io.TextIOWrapper(err, encoding="utf-8", newline="\n", errors="backslashreplace")
    sys.argv = ["ffp"] + [str(a) for a in argv]
    sys.stdin = open(os.dup(0), encoding="utf-8")
    code = 0
    try:
        with contextlib.redirect_stdout(wout), contextlib.redirect_stderr(werr):
            try:
                with surroundings():
                    main()
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except Violation:
                raise
            except Exception:
                traceback.print_exc()
                code = 1
    finally:
        with contextlib.suppress(Exception):
            sys.stdin.close()
        sys.argv, sys.stdin = std
        if saved is not None:
            os.dup2(saved, 0)
            os.close(saved)
        else:
            with contextlib.suppress(OSError):
                os.close(0)
    wout.flush(), werr.flush()
    return code, out.getvalue().decode("utf-8"), err.getvalue().decode("utf-8")


def _open(fd):
    try:
        os.fstat(fd)
        return True
    except OSError:
        return False
