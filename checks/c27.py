"""What is logged is what the level asks for."""
import io
import itertools
import logging
import os
import re
import sys

from hypothesis import strategies as st

import gen
import repo
import solve
from harness import Part, check, sut

PROPERTY = "C27"
HX = ("log",)
FLAVOUR = "rel"
RULE = ("Histories of levels chosen directly or by a call of an algorithm, and of messages of every severity; everything written to standard "
        "output and error is read back. Non-trivial: at least one message is shown and one is not, after the level was changed at least twice.")
LEVELS = [0, 10, 20, 30, 40, 50]
NAMES = ["trace", "debug", "info", "warning", "error", "fatal"]
CALLS = ["collapse", "path_collapse", "extension_unitary_gain", "extension_unitary_gain_collapse", "extension_unitary_loss", "path_extension",
         "path_extension_collapse", "path_extension_until_prize_feasible", "solve_pctsp"]
_n = itertools.count()


def setup():
    global hx, A, U
    solve.setup(FLAVOUR)
    logging.disable(logging.NOTSET)
    hx = repo.hx("log")
    import pctsp.algorithms as A
    import pctsp.utils as U


op = st.one_of(st.tuples(st.just("init"), st.sampled_from(LEVELS)).map(list),
               st.tuples(st.just("call"), st.sampled_from(CALLS), st.sampled_from(LEVELS)).map(list),
               st.tuples(st.just("emit"), st.integers(0, 5)).map(list), st.tuples(st.just("emit"), st.integers(0, 5)).map(list))


@st.composite
def native_case(draw):
    return {"g": draw(gen.toured(4, 6, costs=("pos",), prizes=("pos",))), "ops": [["init", draw(st.sampled_from(LEVELS))]] + draw(st.lists(op, min_size=2, max_size=12))}


def captured(fn):
    f = os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), "log-%d.txt" % os.getpid())
    sys.stdout.flush()
    sys.stderr.flush()
    hx.start(f)
    try:
        fn()
    finally:
        hx.stop()
    with open(f, errors="replace") as h:
        t = h.read()
    os.unlink(f)
    return t


LINE = re.compile(r"\[(trace|debug|info|warning|error|fatal)\]")


def native_run(case):
    g = case["g"]
    G = gen.to_nx(g)
    t, q, r = list(g["tour"]), g["quota"], g["root"]
    level, changes, shown, hidden = None, 0, 0, 0
    for o in case["ops"]:
        if o[0] == "init":
            level = o[1]
            changes += 1
            check(captured(lambda: sut(hx.init, level)) == "", "choosing a level writes something")
            check(sut(hx.boost_level, level) == LEVELS.index(level), "level %s is severity %s", level, hx.boost_level(level))
        elif o[0] == "emit":
            text = "m%dx" % next(_n)
            out = captured(lambda: hx.emit(o[1], text))
            want = LEVELS[o[1]] >= level
            k = out.count(text)
            check(k == (1 if want else 0), "level %s, message of severity %s written %s times", level, NAMES[o[1]], k)
            if want:
                m = LINE.search(out)
                check(m and m.group(1) == NAMES[o[1]], "message of severity %s written as %r", NAMES[o[1]], out)
            shown, hidden = shown + want, hidden + (not want)
        else:
            level = o[2]
            changes += 1
            name, L = o[1], dict(logging_level=level)

            def run():
                if name in ("collapse", "path_collapse", "extension_unitary_gain_collapse"):
                    sut(getattr(A, name), G, t, q, r, **L)
                elif name == "extension_unitary_gain":
                    sut(A.extension_unitary_gain, G, t, **L)
                elif name in ("extension_unitary_loss", "path_extension"):
                    sut(getattr(A, name), G, t, r, **L)
                elif name == "solve_pctsp":
                    x = solve.solve(g, solve.SETTINGS, (), params={"timing/clocktype": 1}, time_limit=5.0, level=level)
                    check("exc" not in x, "solve raised %r", x.get("exc"))
                else:
                    sut(getattr(A, name), G, t, r, q, **L)
            out = captured(run)
            found = LINE.findall(out)
            for s in found:
                check(LEVELS[NAMES.index(s)] >= level, "%s at level %s wrote a message of severity %s: %r", name, level, s, out[:300])
            if name == "solve_pctsp" and level <= 20:
                check("info" in found, "a solve at level %s wrote no information: %r", level, out[:300])
            # the level of the call is the level afterwards
            text = "m%dx" % next(_n)
            out = captured(lambda: [hx.emit(s, text) for s in range(6)])
            got = LINE.findall(out)
            check(got == [NAMES[i] for i in range(6) if LEVELS[i] >= level], "after %s at level %s: written %s", name, level, got)
    return sorted({o[1] for o in case["ops"] if o[0] == "call"}) if changes >= 2 and shown and hidden else None


# ---------------------------------------------------------------- Python
@st.composite
def python_case(draw):
    return {"ops": draw(st.lists(st.one_of(st.tuples(st.just("get"), st.integers(0, 2), st.sampled_from(LEVELS[1:])).map(list),
                                           st.tuples(st.just("emit"), st.integers(0, 2), st.integers(1, 5)).map(list)), min_size=1, max_size=12)),
            "dir": draw(st.booleans()), "ext": draw(st.sampled_from([None, "log", "txt"]))}


def python_run(case):
    base = "vp%d" % next(_n)
    level, n_get, shown, hidden = {}, 0, 0, 0
    old, old_raise = sys.stderr, logging.raiseExceptions
    buf = io.StringIO()
    sys.stderr = buf
    try:
        for o in case["ops"]:
            name = base + "-%d" % o[1]
            if o[0] == "get":
                lg = sut(U.get_pctsp_logger, name, o[2])
                lg.propagate = False
                check(lg is logging.getLogger(name), "logger %s is another logger", name)
                level[name] = o[2]
                n_get += 1
            elif name in level:
                buf.seek(0)
                buf.truncate()
                text = "m%dx" % next(_n)
                logging.getLogger(name).log(LEVELS[o[2]], text)
                out = buf.getvalue()
                want = LEVELS[o[2]] >= level[name]
                check(out.count(text) == (1 if want else 0), "level %s, message of level %s written %s times", level[name], LEVELS[o[2]], out.count(text))
                if want:
                    check(logging.getLevelName(LEVELS[o[2]]) in out, "message of level %s written as %r", LEVELS[o[2]], out)
                shown, hidden = shown + want, hidden + (not want)
    finally:
        sys.stderr = old
        for name in level:
            logging.getLogger(name).handlers.clear()
            logging.Logger.manager.loggerDict.pop(name, None)
    from pathlib import Path
    d = Path(os.environ.get("VERIF_SCRATCH", "/tmp")) / base
    if case["dir"]:
        d.mkdir()
    f = sut(U.get_scip_log_filepath, d, "run.1", **({} if case["ext"] is None else {"log_extension": case["ext"]}))
    check(f == d / ("run.1." + (case["ext"] or "txt")), "log file %s", f)
    check(d.is_dir() and not list(d.iterdir()), "directory of the log file: %s", d)
    d.rmdir()
    return ["python"] if n_get >= 2 and shown and hidden else None


PARTS = [Part("native", native_case(), native_run, 600, 20000, budget={"quick": 15}),
         Part("python", python_case(), python_run, 2000, 40000)]
