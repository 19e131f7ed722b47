"""C27: logger configuration is idempotent and never leaks handlers or levels."""

import contextlib
import importlib
import io
import json
import logging
import os
import shutil
import subprocess
import sys
import tempfile

import numpy as np
from hypothesis import strategies as st

import quantfinlib.datasets as qdata
import quantfinlib.distance as qd
import quantfinlib.sim as qs
from quantfinlib.clustering import HC
from quantfinlib.util import configure_logger, logger
from pbt.bootstrap import REPO
from pbt.core import Sub, ensure, seeds

PROPERTY = "C27"
RULE = "a history with at least two configurations and messages both at or above and below the verbosity"
ASSUMPTIONS = [
    "the console is sys.stderr or sys.stdout at the time of the configuration",
    "log files live in a scratch directory that the check creates and removes",
    "verbosities are positive integers (NOTSET is not used) and log files can be opened",
]
LEVELS = (5, 10, 15, 20, 25, 30, 35, 40, 50, 60)


@contextlib.contextmanager
def scratch():
    where = tempfile.mkdtemp(prefix="logs.")
    cwd = os.getcwd()
    level, handlers, propagate, disabled = logger.level, logger.handlers[:], logger.propagate, logger.disabled
    try:
        os.chdir(where)
        yield where
    finally:
        os.chdir(cwd)
        for h in logger.handlers[:]:
            logger.removeHandler(h)
            if h not in handlers:
                h.close()
        for h in handlers:
            logger.addHandler(h)
        logger.setLevel(level)
        logger.propagate, logger.disabled = propagate, disabled
        shutil.rmtree(where, ignore_errors=True)


def open_files(where):
    out = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            continue
        if t.startswith(os.path.realpath(where) + os.sep):
            out.append(t)
    return sorted(out)


def read(path):
    try:
        with open(path) as f:
            return f.read()
    except FileNotFoundError:
        return None


def use_library(which, r):
    """Other parts of the library that may log or be imported at any time."""
    if which == "mutual_info":
        qd.get_info_distance_matrix(r.standard_normal((12, 2)), method="mutual_info")
    elif which == "correlation":
        qd.get_corr_distance_matrix(r.standard_normal((12, 3)))
    elif which == "load":
        qdata.load_vix()
    elif which == "cluster":
        HC(X=r.standard_normal((12, 4))).linkage
    elif which == "simulate":
        qs.BrownianMotion().path_sample(num_steps=3, random_state=1)
    elif which == "import":
        # import every module again, except those that own the logger
        old = {k: v for k, v in sys.modules.items() if k.startswith("quantfinlib.") and not k.startswith("quantfinlib.util")}
        for k in old:
            del sys.modules[k]
        try:
            for k in sorted(old):
                importlib.import_module(k)
        finally:
            sys.modules.update(old)
            for k, v in old.items():  # the attributes of the parent packages as well
                parent, _, child = k.rpartition(".")
                if parent in sys.modules:
                    setattr(sys.modules[parent], child, v)


def history_test(case, ctx):
    with scratch() as where:
        r = np.random.default_rng(case["seed"])
        expected = {}  # path -> messages that must be in that file, in order
        before = {}  # path -> contents from before this history
        for name in case["existing"]:
            before[name] = f"old line of {name}\n"
            with open(name, "w") as f:
                f.write(before[name])
        console, verbosity, current, want_console = None, None, None, []
        n_conf, above, below, counter = 0, 0, 0, 0
        retired = []
        for op in case["ops"]:
            kind = op[0]
            if kind == "configure":
                _, verbosity, path, style = op
                if console is not None:
                    retired.append((console, console.getvalue()))
                old = [h for h in logger.handlers]
                console, want_console = io.StringIO(), []
                with contextlib.redirect_stderr(console), contextlib.redirect_stdout(console):
                    if style == "positional":
                        configure_logger(verbosity, path is not None, path or "unused.log")
                    elif style == "keyword":
                        configure_logger(log_file_path=path or "unused.log", log_to_file=path is not None, verbosity=verbosity)
                    elif path is None:
                        configure_logger(verbosity)
                    else:  # the default file name
                        path = "quantfinlib.log"
                        configure_logger(verbosity, log_to_file=True)
                current = path
                n_conf += 1
                if path is not None:
                    expected.setdefault(path, [])
                for h in old:
                    ensure(h not in logger.handlers, f"a handler of an earlier configuration is still attached: {h}")
            elif kind == "log" and n_conf:
                _, level, child = op
                counter += 1
                token = f"message-{counter}-end"
                target = logger if not child else logging.getLogger("quantfinlib." + child)
                target.log(level, token)
                if level >= verbosity:
                    above += 1
                    want_console.append(token)
                    if current is not None:
                        expected[current].append(token)
                else:
                    below += 1
            elif kind == "use":
                level, handlers = logger.level, list(logger.handlers)
                marks = (console.getvalue() if console else "", read(current) if current else "")
                use_library(op[1], r)
                ensure(logger.level == level, f"{op[1]} changed the level from {level} to {logger.level}")
                ensure(logger.handlers == handlers, f"{op[1]} changed the handlers from {handlers} to {logger.handlers}")
                if current is not None:
                    new = console.getvalue()[len(marks[0]):]
                    new_file = read(current)[len(marks[1] or ""):]
                    ensure(new.count("\n") == new_file.count("\n"), f"{op[1]}: console got {new!r}, the log file {new_file!r}")
            elif kind == "delete" and n_conf:
                # a file that is no longer in use must not come back
                for name in list(expected):
                    if name != current:
                        os.remove(name)
                        before.pop(name, None)
                        del expected[name]
            if not n_conf:
                continue
            # the handlers
            files = [h for h in logger.handlers if isinstance(h, logging.FileHandler)]
            streams = [h for h in logger.handlers if not isinstance(h, logging.FileHandler)]
            ensure(len(streams) == 1 and isinstance(streams[0], logging.StreamHandler), f"console handlers: {streams}")
            ensure(len(files) == (current is not None), f"file handlers: {files}, expected {current}")
            if files:
                ensure(os.path.realpath(files[0].baseFilename) == os.path.realpath(current),
                       f"log file {files[0].baseFilename}, expected {current}")
            ensure(logger.level == verbosity, f"level {logger.level}, expected {verbosity}")
            # the console and the files
            text = console.getvalue()
            got = [f"message-{i}-end" for i in range(1, counter + 1) for _ in range(text.count(f"message-{i}-end"))]
            ensure(got == want_console, f"console got {got}, expected {want_console} (verbosity {verbosity})")
            for c, old_text in retired:
                ensure(c.getvalue() == old_text, f"an earlier console got {c.getvalue()[len(old_text):]!r}")
            for name, tokens in expected.items():
                text = read(name)
                ensure(text is not None, f"{name} does not exist")
                ensure(text.startswith(before.get(name, "")), f"the old contents of {name} were lost")
                got = [f"message-{i}-end" for i in range(1, counter + 1) for _ in range(text.count(f"message-{i}-end"))]
                ensure(got == tokens, f"{name} got {got}, expected {tokens} (verbosity {verbosity})")
                where_at = [text.index(t) for t in tokens]
                ensure(where_at == sorted(where_at), f"{name}: messages out of order")
            extra = set(os.listdir(where)) - set(expected) - set(before)
            ensure(not extra, f"unexpected files {extra}")
            opened = open_files(where)
            ensure(len(opened) == (current is not None), f"open files {opened}, expected only {current}")
        ctx.label(f"configurations={min(n_conf, 4)}")
        ctx.nontrivial(n_conf >= 2 and above > 0 and below > 0)


CHILD = """
import sys, json, logging, pkgutil, importlib
sys.path.insert(0, {repo!r})
first, level, path, order = json.loads({args!r})
import quantfinlib
if first != "nothing":
    importlib.import_module(first)
from quantfinlib.util import configure_logger
lg = logging.getLogger("quantfinlib")
root = (logging.getLogger().level, list(logging.getLogger().handlers))
configure_logger(level, log_to_file=bool(path), log_file_path=path or "x.log")
before = (lg.level, list(lg.handlers), lg.propagate, lg.disabled)
names = sorted(m.name for m in pkgutil.walk_packages(quantfinlib.__path__, "quantfinlib."))
names = names[order % len(names):] + names[:order % len(names)]
for name in names:
    importlib.import_module(name)
    now = (lg.level, list(lg.handlers), lg.propagate, lg.disabled)
    if now != before:
        print(json.dumps(f"importing {{name}} changed the logger from {{before}} to {{now}}"))
        sys.exit(0)
if (logging.getLogger().level, list(logging.getLogger().handlers)) != root:
    print(json.dumps("importing the library changed the root logger"))
    sys.exit(0)
print(json.dumps(None))
"""


def fresh_test(case, ctx):
    """In a fresh process: configure first, then import every module of the library, in some order."""
    where = tempfile.mkdtemp(prefix="logs.")
    try:
        args = json.dumps([case["first"], case["level"], case["path"], case["order"]])
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", CHILD.format(repo=REPO, args=args)], cwd=where,
                           capture_output=True, text=True, timeout=200)
        ensure(p.returncode == 0, f"importing everything failed: {p.stderr[-1500:]}")
        msg = json.loads(p.stdout.strip().splitlines()[-1])
        ensure(msg is None, msg)
        files = os.listdir(where)
        ensure(sorted(files) == ([case["path"]] if case["path"] else []), f"files {files} after importing everything")
    finally:
        shutil.rmtree(where, ignore_errors=True)
    ctx.nontrivial()


level = st.sampled_from(LEVELS)
name = st.sampled_from(["a.log", "b.log", "quantfinlib.log"])
configure = st.tuples(st.just("configure"), st.one_of(st.sampled_from(LEVELS[2:7]), level), st.one_of(st.none(), name), st.sampled_from(["positional", "keyword", "default"]))
log = st.tuples(st.just("log"), level, st.sampled_from(["", "", "", "sub", "distance.x"]))
op = st.one_of(
    configure, log, log, log,
    st.tuples(st.just("use"), st.sampled_from(["mutual_info", "correlation", "load", "cluster", "simulate", "import"])),
    st.tuples(st.just("delete")),
)
SUBS = [
    Sub("histories", st.fixed_dictionaries(dict(
        seed=seeds(), existing=st.lists(name, max_size=2, unique=True),
        ops=st.tuples(configure, st.lists(op, min_size=5, max_size=16)).map(lambda t: [t[0]] + t[1]))), history_test, quick=220),
    Sub("fresh_process", st.fixed_dictionaries(dict(
        first=st.sampled_from(["nothing", "quantfinlib.util", "quantfinlib.sim", "quantfinlib.distance", "quantfinlib.datasets"]),
        level=level, path=st.sampled_from(["", "own.log"]), order=st.integers(0, 60))), fresh_test, quick=5, weight=0.5),
]
