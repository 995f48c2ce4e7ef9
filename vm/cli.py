"""Running the command line tools in this process, within a scratch folder."""
import io
import itertools
import logging
import os
import sys
from contextlib import chdir, contextmanager, nullcontext, redirect_stderr, redirect_stdout
from pathlib import Path
from unittest.mock import patch

TOOLS = {"vfb2json": ("vfbLib.cmdline", "vfb2json"), "vfb3ufo": ("vfbLib.cmdline", "vfb2ufo"),
         "vfb2tth": ("vfbLib.tth", "vfb2tth"), "vfbcu2qu": ("vfbLib.cu2qu", "vfbcu2qu"),
         "vfbdiff": ("vfbLib.diff", "diffvfb"), "yuri": ("vfbLib.value", "yuri")}


class Result:
    def __init__(self, out, err, exc):
        self.out, self.err, self.exc = out, err, exc
        code = exc.code if isinstance(exc, SystemExit) else None
        self.ok = exc is None or (isinstance(exc, SystemExit) and code in (None, 0))
        self.why = "" if self.ok else (f"exit {code!r}" if isinstance(exc, SystemExit)
                                       else f"{type(exc).__name__}: {exc}")


@contextmanager
def _logs():
    """the tools may configure logging"""
    root = logging.getLogger()
    before = list(root.handlers), root.level
    try:
        yield
    finally:
        for h in list(root.handlers):
            if h not in before[0]:
                root.removeHandler(h)
        root.setLevel(before[1])


WAYS = itertools.cycle(("relative", "absolute", "relative", "from the folder", "roundabout"))


def paths(argv):
    """the same arguments in one of the ways to write a path -> arguments, where to run"""
    way = next(WAYS)
    here = nullcontext()
    argv = [Path(a) if isinstance(a, str) and "/" in a and Path(a.split("/")[0] or "/").is_dir() else a
            for a in argv]
    ps = [a for a in argv if isinstance(a, Path)]
    if not ps or way == "relative":
        return argv, here
    if way == "absolute":
        return [a.absolute() if isinstance(a, Path) else a for a in argv], here
    folder = ps[-1].absolute().parent
    if not folder.is_dir():
        return argv, here
    if way == "from the folder":
        here = chdir(folder)
        return [os.path.relpath(a, folder) if isinstance(a, Path) else a for a in argv], here
    return [f"{folder}/../{folder.name}/./{os.path.relpath(a, folder)}" if isinstance(a, Path) else a
            for a in argv], here


def call(tool, *argv):
    import importlib

    argv, here = paths(argv)

    mod, name = TOOLS[tool]
    fn = getattr(importlib.import_module(mod), name)
    out, err, exc = io.StringIO(), io.StringIO(), None
    with here, _logs(), patch.object(sys, "argv", [tool, *map(str, argv)]), \
            redirect_stdout(out), redirect_stderr(err):
        try:
            fn()
        except (Exception, SystemExit) as e:
            exc = e
    return Result(out.getvalue(), err.getvalue(), exc)


def tree(d):
    """{relative path: bytes, or None for folders}"""
    return {str(p.relative_to(d)): None if p.is_dir() else p.read_bytes()
            for p in sorted(d.rglob("*"))}


def jsonish(x):
    """what JSON makes of it"""
    if isinstance(x, dict):
        return {str(k): jsonish(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonish(v) for v in x]
    if isinstance(x, float) and (x != x or x in (float("inf"), float("-inf"))):
        return None
    return x
