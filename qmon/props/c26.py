"""C26: circuits are reproducible and have no side effects.

Monitors: (1) the same session (circuits, reports, drawings, summaries, programs) is
played in several processes that differ in hash seed, working directory, locale, time zone,
terminal size and in what ran before, and everything they answered is compared; (2) sessions run
under an audit hook, with both output descriptors captured, and a snapshot of the
process-wide state before and after."""
import contextlib
import io
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import warnings

import numpy as np

from .. import drive, gen, model, qasm
from ..env import SRC
from ..procstate import changes, state
from ..core import VERIF, Inconclusive, expect, rng_for, sut

from qudiet.qasm.qasm_parser import circuit_from_qasm, parse_qasm

QUICK_SEEDS = 1
RULE = (
    "Random sessions of circuits and QASM programs: built, drawn as text, summarised and run in every form of report. Played in three "
    "processes with different hash seeds, directories, locales, time zones, terminal sizes and warm-ups, their answers must agree; played in "
    "process, an audit hook and snapshots must see no output, no file opened for writing, no process, socket or thread, "
    "and no change of process-wide state; non-trivial: every session."
)
REQUIRED = {"processes": 30, "answers_compared": 1500, "quiet_sessions": 100, "audited_events": 1, "state_items": 3000, "drawn": 100, "imports": 1, "programs": 100, "drawings": 6}
NO_SHRINK = True
CASE_SECONDS = 150


def cases(tier, seed):
    quick = tier == "quick"
    out = []
    for i in range(12 if quick else 150):
        r = rng_for("C26", seed, "processes", i)
        out.append({"what": "processes", "session": session(r, 14), "other": session(r, 4), "seeds": [r.randrange(1, 2**32) for _ in range(2)]})
    for i in range(120 if quick else 3000):
        r = rng_for("C26", seed, "quiet", i)
        out.append({"what": "quiet", "session": session(r, 3)})
    out.append({"what": "import"})
    for i in range(8 if quick else 100):
        r = rng_for("C26", seed, "drawing", i)
        out.append({"what": "drawing", "spec": gen.circuit(r, maxn=60, nmax=5, dmax=6, depth=r.choice([0, 1, 4, 12])), "measured": r.random() < 0.6, "compress": r.choice([None, 1, 0.5, 3])})
    return out


def session(r, n):
    out = []
    for _ in range(n):
        if r.random() < 0.35:
            declared = gen.layout(r, maxn=32, nmin=1, nmax=5, dmax=5)
            kinds = "hxzctt" if len(declared) >= 3 else "hxzc" if len(declared) > 1 else "hxz"
            ops = qasm.random_ops(r, declared, r.choice([0, 2, 5, 8]), 72, kinds)
            text = qasm.program(r, qasm.raised(declared, ops), ops, declared)
            if r.random() < 0.2:
                text = text.replace("\n", "  # noted\n")
            out.append({"program": text, "file": r.random() < 0.5, "backend": r.choice(["numpy", "sparse", None])})
        else:
            s = gen.circuit(r, maxn=r.choice([40, 40, 40, 120, 160]), nmax=6, dmax=7) if r.random() < 0.9 else gen.wide(r, 7, 10, 1 << 10, depth=r.choice([2, 4]), kinds="xxcctzh", span=150)
            if r.random() < 0.04:
                s = gen.circuit(r, maxn=9, nmin=1, nmax=2, dmax=3, depth=r.choice([260, 400, 700]), kinds="hxzc")
            out.append({"spec": s, "early": r.random() < 0.5, "form": r.choice([None, ["print", "probability"], ["state", "amplitude"], ["state", "probability"]])})
    return out


def plain(x):
    """A report or an answer as JSON-able data; numbers as [re, im]."""
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, dict):
        return [[plain(k), plain(v)] for k, v in x.items()]
    if isinstance(x, (bool, str, type(None))):
        return x
    if isinstance(x, (int, np.integer)):
        return int(x)
    v = complex(x)
    return {"re": v.real, "im": v.imag}


def play(items, where, obs=None, kind="program"):
    """Plays a session; returns every answer."""
    answers = []
    for n, item in enumerate(items):
        if "program" in item:
            backend = drive.BACKENDS[item["backend"]]
            if item["file"]:
                path = os.path.join(where, "%s-%d.txt" % (kind, n))
                with sut("parse_qasm"):
                    qc = parse_qasm(path, backend)
            else:
                with sut("circuit_from_qasm"):
                    qc = circuit_from_qasm(item["program"], backend)
            if obs is not None:
                obs.hit("programs")
        else:
            form = item["form"]
            out = drive.output_for(item["spec"]["dims"], *form) if form else "auto"
            qc = drive.construct(item["spec"], output=out)
            for j, o in enumerate(item["spec"]["ops"]):
                with sut("request %r" % (o,)):
                    answers.append(plain(drive.issue(qc, o, item["spec"]["dims"])))
            if item.get("early"):
                with sut("inspecting an unmeasured circuit"):
                    answers += [str(qc), plain(qc.get_circuit_config()), plain(qc.get_circuit_info())]
            with sut("measure_all"):
                answers.append(plain(qc.measure_all()))
        with sut("summaries, drawing and run()"):
            answers += [str(qc), plain(qc.get_circuit_config()), plain(qc.get_circuit_info())]
            answers.append([[list(map(plain, drive.describe(g))) for g in m.peek_list()] for m in qc.op_flow.peek()])
            answers.append(plain(qc.run()))
            answers.append(plain(qc.run()))
        if obs is not None:
            obs.hit("drawn")
    return answers


def files_of(items, where, kind="program"):
    for n, item in enumerate(items):
        if item.get("file"):
            with open(os.path.join(where, "%s-%d.txt" % (kind, n)), "w") as f:
                f.write(item["program"])


def same(a, b, what):
    """Equal, numbers up to rounding."""
    if isinstance(a, dict) and isinstance(b, dict):
        d = abs(complex(a["re"], a["im"]) - complex(b["re"], b["im"]))
        expect(d <= 1e-12, "%s: %r and %r", what, a, b)
    elif isinstance(a, list) and isinstance(b, list):
        expect(len(a) == len(b), "%s: %r and %r", what, a, b)
        for x, y in zip(a, b):
            same(x, y, what)
    else:
        expect(type(a) is type(b) and a == b, "%s:\n%s\nand\n%s", what, a, b)


def run_case(case, obs):
    root = tempfile.mkdtemp(prefix="qmon-c26-")
    try:
        {"processes": processes, "quiet": quiet, "import": importing, "drawing": drawing}[case["what"]](case, obs, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


# ---- the same session in different processes --------------------------------------------
def child(path):
    with open(path) as f:
        case = json.load(f)
    files_of(case["session"], case["where"])
    files_of(case["other"], case["where"], "other")
    if case["warm"]:
        play(case["other"], case["where"], kind="other")
        random.seed(case["warm"])
        np.random.seed(case["warm"] % 2**31)
    out = json.dumps(play(case["session"], case["where"]))
    with open(path + ".out", "w") as f:
        f.write(out)


def processes(case, obs, root):
    answers = []
    variants = [
        ({"PYTHONHASHSEED": "0", "LC_ALL": "C.UTF-8", "TZ": "UTC"}, root, 0),
        ({"PYTHONHASHSEED": str(case["seeds"][0]), "LC_ALL": "C", "LANG": "C", "TZ": "Asia/Kolkata", "COLUMNS": "40", "TERM": "dumb", "USER": "someone", "HOME": root}, "/", 1),
        ({"PYTHONHASHSEED": str(case["seeds"][1]), "COLUMNS": "211", "LINES": "3", "NO_COLOR": "1", "DEBUG": "1", "PYTHONOPTIMIZE": "1"}, tempfile.gettempdir(), 2),
    ]
    for n, (env, cwd, warm) in enumerate(variants):
        path = os.path.join(root, "case-%d.json" % n)
        where = os.path.join(root, "p%d" % n)
        os.mkdir(where)
        with open(path, "w") as f:
            json.dump(dict(case, warm=warm, where=where), f)
        e = {k: v for k, v in os.environ.items() if not k.startswith(("LC_", "LANG", "PYTHON", "TZ"))}
        e.update(env, PYTHONPATH=VERIF, PYTHONDONTWRITEBYTECODE="1")
        try:
            p = subprocess.run([sys.executable, "-c", "from qmon import env\nfrom qmon.props import c26\nimport sys\nc26.child(sys.argv[1])", path],
                               cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        except subprocess.TimeoutExpired:
            raise Inconclusive("the session did not finish")
        expect(p.returncode == 0, "the session failed in a process with %r:\n%s", env, p.stderr.decode(errors="replace")[-1500:])
        expect(not p.stdout, "the session, or importing the package, printed %r", p.stdout[:300])
        obs.hit("processes")
        with open(path + ".out") as f:
            answers.append(json.load(f))
    for n in (1, 2):
        expect(len(answers[0]) == len(answers[n]), "sessions of different length")
        for x, y in zip(answers[0], answers[n]):
            same(x, y, "the same session answered differently in a process with %r" % (variants[n][0],))
            obs.hit("answers_compared")


IMPORT = """
import sys, matplotlib.pyplot, unittest
sys.path[:0] = [%r, %r]
sys.dont_write_bytecode = True
from qmon.procstate import changes, state
before = state()
import qudiet.core.quantum_circuit, qudiet.qasm.qasm_parser, qudiet.core.backend.NumpyBackend, qudiet.utility.circuit_draw
print("CHANGED", changes(before, state()))
"""


def importing(case, obs, root):
    """Importing the package changes nothing of the process either."""
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent-qmon-pycache", MPLCONFIGDIR=root)
    try:
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", IMPORT % (SRC, VERIF)], cwd=root, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    except subprocess.TimeoutExpired:
        raise Inconclusive("importing the package did not finish")
    expect(p.returncode == 0, "importing the package failed:\n%s", p.stderr.decode(errors="replace")[-1500:])
    expect(p.stdout.decode().strip() == "CHANGED []", "importing the package printed something or changed process-wide state:\n%s", p.stdout.decode(errors="replace")[:600])
    obs.hit("imports")


def drawing(case, obs, root):
    """Drawing a circuit leaves the process as it was, windows aside."""
    import matplotlib.pyplot as plt

    fig = plt.figure()  # what matplotlib sets up at its first use
    fig.text(0, 0, "$x$").set_fontsize(9)
    fig.canvas.draw()
    plt.close("all")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        qc = drive.build(case["spec"], measure=case["measured"])
        plt.show()
        mine = plt.figure()
        mine.text(0, 0, "mine")
        before = state()
        try:
            with contextlib.redirect_stdout(io.StringIO()), sut("draw('mpl')"):
                qc.draw()
                if case["compress"] is None:
                    qc.draw("mpl")
                else:
                    qc.draw("mpl", compress=case["compress"])
                qc.print_opflow_list()
        finally:
            after = state()
            kept = plt.fignum_exists(mine.number) and [t.get_text() for t in mine.texts] == ["mine"] and not mine.axes
            plt.close("all")
    expect(kept, "drawing a circuit closed or changed a figure of the caller")
    changed = changes(before, after)
    expect(not changed, "drawing a circuit changed the %s", "; ".join(changed))
    obs.hit("drawings")


# ---- no side effects --------------------------------------------------------------------
_armed = False
_seen = []
_installed = False
_events = 0
BAD = {"os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.link", "os.symlink", "os.truncate", "os.chmod", "os.chown", "os.utime", "os.chdir", "os.fchdir", "os.putenv", "os.unsetenv",
       "os.system", "os.exec", "os.fork", "os.forkpty", "os.spawn", "os.posix_spawn", "os.startfile", "subprocess.Popen", "os.kill", "os.setxattr",
       "socket.connect", "socket.bind", "socket.__new__", "socket.getaddrinfo", "shutil.rmtree", "shutil.move", "shutil.copyfile", "tempfile.mkstemp", "tempfile.mkdtemp",
       "_thread.start_new_thread", "urllib.Request", "webbrowser.open", "builtins.input", "sqlite3.connect", "signal.pthread_kill", "resource.setrlimit"}


def hook(event, args):
    global _events
    if not _armed:
        return
    _events += 1
    if event in BAD:
        _seen.append("%s%r" % (event, args[:2]))
    elif event == "open":
        path, mode, flags = args
        writes = isinstance(mode, str) and any(c in mode for c in "wax+") or isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
        if writes:
            _seen.append("open(%r, %r)" % (path, mode))


@contextlib.contextmanager
def descriptors():
    """Everything written to descriptors 1 and 2, whichever way."""
    sys.stdout.flush(), sys.stderr.flush()
    keep = os.dup(1), os.dup(2)
    with tempfile.TemporaryFile() as f:
        os.dup2(f.fileno(), 1), os.dup2(f.fileno(), 2)
        got = []
        try:
            yield got
        finally:
            sys.stdout.flush(), sys.stderr.flush()
            os.dup2(keep[0], 1), os.dup2(keep[1], 2)
            os.close(keep[0]), os.close(keep[1])
            f.seek(0)
            got.append(f.read())


def quiet(case, obs, root):
    global _armed, _installed
    if not _installed:
        sys.addaudithook(hook)
        _installed = True
    items = case["session"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        # the files of the session are made before the monitors are armed
        files_of(items, root)
        out, err = io.StringIO(), io.StringIO()
        keep = sys.stdout, sys.stderr
        _seen.clear()
        with descriptors() as got:
            sys.stdout, sys.stderr = out, err
            before = state()
            files = listing(root)
            _armed, n = True, _events
            try:
                first = play(items, root)
                again = play(items, root, obs)
            finally:
                _armed = False
                after = state()
                sys.stdout, sys.stderr = keep
    obs.hit("audited_events", _events - n)
    expect(not _seen, "building and running circuits did %s", "; ".join(_seen[:5]))
    expect(not out.getvalue() and not err.getvalue(), "building and running circuits printed %r", (out.getvalue() + err.getvalue())[:300])
    expect(not got[0], "building and running circuits wrote %r", got[0][:300])
    expect(listing(root) == files, "files appeared or changed")
    changed = changes(before, after)
    expect(not changed, "building and running circuits changed the %s", "; ".join(changed))
    obs.hit("state_items", len(before))
    same(first, again, "the same session answered differently the second time")
    obs.hit("answers_compared", len(first))
    obs.hit("quiet_sessions")


def listing(root):
    return {n: os.stat(os.path.join(root, n)).st_mtime_ns for n in sorted(os.listdir(root))}
