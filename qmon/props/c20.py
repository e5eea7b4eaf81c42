"""C20: the batch runner saves every good file's result and survives bad files.

Monitor: the runner is started as users start it, on a scratch tree; the tree is recorded
before and after, and every pickle is compared with the reference model."""
import os
import pickle
import re
import shutil
import subprocess
import sys
import tempfile


from .. import contain, drive, gen, model, qasm
from ..core import Inconclusive, expect, rng_for, sut
from ..env import REPO, SRC, STANDIN

from qudiet.qasm.qasm_parser import parse_qasm

QUICK_SEEDS = 1
RULE = (
    "The batch runner started as a process on random directory trees that mix good programs, programs that cannot be parsed or run, "
    "directories and links with the name of a program, results that cannot be written, files of other kinds and earlier results, on either backend and extension; every file of the tree is compared before and "
    "after, every pickle with the reference model; non-trivial: at least one good and one other file."
)
REQUIRED = {"runs": 16, "pickles": 60, "bad_files": 25, "untouched": 40, "good_after_bad": 8, "shown": 10, "nested": 20, "faults": 15, "gpu_pickles": 4, "odd_directories": 8, "many": 1}
CASE_SECONDS = 150

BAD = [
    "# bad\n.qubit 2\n\nqubit x0\nqubit x1\n\n.begin\nX x0\nFOO x1\n.end",
    "# bad\n.qubit 2\n\nqubit x0\nqubit x1\n\n.begin\nX x0\nX x7\n.end",
    "# bad\n.qubit 2\n\nqubit x0\nqubit x1\n\n.begin\nCX x0 x2\n.end",
    "# bad\n.qubit 2\n\nqubit x0\nqubit x1\n\n.begin\nCX x1 x1\n.end",
    "# bad\n.qubit 2\n\nqubit x0\nqubit x1\n\n.begin\nX y\n.end",
    "# bad\n.qubit 2\n\nqubit x0\nqubit x1\n\n.begin\nToffoli x0 x1 x5\n.end",
    "# bad\n.qubit 2\n\nqubit x0\nqubit x1\n\n.begin\nBAR [/x] [red] x1\n.end",
    "# bad\n.qubit 2\n\nqubit x0\nqubit x1\n\n.begin\nRX x0 90\n.end",
    "# bad\n.qubit 3\n\nqubit x0\nqubit x1\nqubit x2\n\n.begin\nH x2\nToffoli x0, x1, x0\n.end",  # parsed, but not run
    "# bad\n.qubit 3\n\nqubit x0\nqubit x1\nqubit x2\n\n.begin\nToffoli x2, x1, x1\nX x0\n.end",
    "",
    "some notes, not a program\n",
    "{\"json\": true}",
]
BADBYTES = b"\xff\xfe\x00\x80 not text"


def cases(tier, seed):
    k = 1 if tier == "quick" else 12
    out = []
    for i in range(32 * k):
        r = rng_for("C20", seed, i)
        files = {}
        ext = r.choice(["txt", "txt", "qasm"])
        # the GPU backends run on the stand-in for CuPy (see C25)
        backend = r.choice(["numpy", "sparse"]) if i % 6 else ["cuda", "sparse-cuda"][i // 6 % 2]
        other = "qasm" if ext == "txt" else "txt"
        stems = ["a", "b", "c", "prog", "toffoli_4", "p.q", "with space", "Z", "long_name_" * 3, "m[1]", "v1.2.3.4.5"]
        dirs = ["", "", "sub", "sub/deeper", "sub/deeper/still", "other dir", "x.y", "d[/k]", "x.1.2/y.3.4.5.6"]
        n = r.randint(4, 9)
        twins = r.choice(stems) if i % 3 == 0 else None
        for j in range(n):
            d = r.choice(dirs)
            name = os.path.join(d, "%s%s" % (r.choice(stems), r.choice(["", str(j)])))
            if twins and j < 4:  # programs of one name in several directories
                name = os.path.join(["", "sub", "x.y", "other dir"][j], twins)
            kind = "good" if j < 2 else r.choice(["good", "good", "bad", "bad", "bad", "badbytes", "dir", "dangling", "blocked", "other", "unrelated", "result"])
            if kind == "other":
                files[name + "." + other] = program(r)
            elif kind == "unrelated":
                files[name + r.choice([".md", ".py", ".json", "", "." + ext + ".bak", ext])] = ["text", r.choice(["notes", "X x0\n"])]
            elif kind == "result":
                files[name + "-old.pkl"] = ["text", "old result"]
            elif kind == "bad":
                files[name + "." + ext] = ["text", r.choice(BAD)]
                if r.random() < 0.3:
                    files[name + "-%s.pkl" % backend] = ["text", "earlier result of a program that is bad now"]
            elif kind == "badbytes":
                files[name + "." + ext] = ["bytes"]
            elif kind == "dir":  # a directory with the name of a program
                files[name + "." + ext] = ["dir"]
                if r.random() < 0.5:
                    files[os.path.join(name + "." + ext, "inside." + ext)] = program(r)
            elif kind == "dangling":
                files[name + "." + ext] = ["dangling"]
            elif kind == "blocked":  # where the result would be written there is a directory
                files[name + "." + ext] = program(r)
                files[name + "-%s.pkl" % backend] = ["dir"]
            else:
                files[name + "." + ext] = program(r)
                if r.random() < 0.15:
                    files[name + "-%s.pkl" % backend] = ["text", "earlier result"]
        def clash(name):
            parts = name.split("/")
            return any("/".join(parts[:j]) in files and files["/".join(parts[:j])] != ["dir"] for j in range(1, len(parts))) or files[name] != ["dir"] and any(o.startswith(name + "/") for o in files)

        for name in [n for n in files if clash(n)]:
            del files[name]
        out.append({
            "files": files, "ext": ext, "backend": backend, "explicit": r.random() < 0.6, "verbose": r.random() < 0.4, "v": [["-v"], ["-vv"], ["--verbose"], ["-v", "-v"]][i % 4],
            "terminal": r.random() < 0.15, "relative": r.random() < 0.4, "slash": r.random() < 0.4, "here": r.random() < 0.25,
            "top": r.choice(["tree", "tree", "tree", "runs[1]", "x*", "what?", "v1.2", "[a-c]", "two words"]),
        })
    for i in range(1 if tier == "quick" else 6):  # very many programs
        r = rng_for("C20", seed, "many", i)
        ext = r.choice(["txt", "qasm"])
        files = {}
        for j in range(r.choice([270, 330, 520])):
            d = r.choice(["", "", "sub", "sub/deeper"])
            if r.random() < 0.05:
                files[os.path.join(d, "p%d.%s" % (j, ext))] = ["text", r.choice(BAD)]
            else:
                declared = [r.choice([2, 3]) for _ in range(r.randint(1, 2))]
                files[os.path.join(d, "p%d.%s" % (j, ext))] = ["program", declared, qasm.random_ops(r, declared, r.choice([0, 1, 2]), 9, "xhz"), r.randrange(2**30)]
        out.append({"files": files, "ext": ext, "backend": "sparse", "explicit": True, "verbose": False, "terminal": False, "relative": False, "slash": False, "here": False, "top": "tree", "many": True})
    return out


def program(r):
    declared = gen.layout(r, maxn=40, nmin=1, nmax=5, dmax=5)
    kinds = "hxzct" if len(declared) >= 3 else "hxzc" if len(declared) > 1 else "hxz"
    ops = qasm.random_ops(r, declared, r.choice([0, 1, 3, 6]), 80, kinds)
    return ["program", declared, ops, r.randrange(2**30)]


def prepare():
    contain.works()


def nontrivial(case):
    return len({v[0] for v in case["files"].values()}) > 1


def contents(root):
    out = {}
    for base, dirs, names in os.walk(root):
        for n in names:
            p = os.path.join(base, n)
            if os.path.islink(p):
                out[os.path.relpath(p, root)] = os.readlink(p)
                continue
            with open(p, "rb") as f:
                out[os.path.relpath(p, root)] = f.read()
    return out


def run_case(case, obs):
    root = tempfile.mkdtemp(prefix="qmon-c20-")
    try:
        tree(case, obs, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def tree(case, obs, root):
    ext = case["ext"]
    tree_name = case.get("top", "tree")
    top = os.path.join(root, tree_name)
    os.mkdir(top)
    obs.hit("odd_directories", tree_name != "tree")
    good = {}
    bad = []
    for name, what in case["files"].items():
        path = os.path.join(top, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if what[0] == "dir":
            os.makedirs(path, exist_ok=True)
            obs.hit("faults")
            continue
        if what[0] == "dangling":
            os.symlink("nowhere", path)
            obs.hit("faults")
            continue
        if what[0] == "program":
            text = qasm.program(rng_for("C20 text", what[3]), qasm.raised(what[1], what[2]), what[2], what[1])
            if name.endswith("." + ext):
                result = name[: -len(ext) - 1] + "-" + case["backend"] + ".pkl"
                if case["files"].get(result) == ["dir"]:
                    bad.append(name)
                else:
                    good[name] = (what, text)
        else:
            text = what[1] if what[0] == "text" else None
            if name.endswith("." + ext):
                bad.append(name)
        with open(path, "wb") as f:
            f.write(BADBYTES if text is None else text.encode())
    before = contents(top)
    env = {k: v for k, v in os.environ.items() if not k.startswith(("QMON", "CUDA"))}
    env.update(PYTHONPATH=SRC, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent-qmon-pycache", MPLBACKEND="Agg", MPLCONFIGDIR=root, HOME=root, COLUMNS="200")
    gpu = "cuda" in case["backend"]
    if gpu:
        env.update(PYTHONPATH=SRC + os.pathsep + STANDIN, CUDA_HOME="/nonexistent-cuda")
    cmd = [sys.executable, os.path.join(REPO, "experimental.py")]
    if ext != "txt" or case["explicit"]:
        cmd += ["-m", ext]
    if case["backend"] != "sparse" or case["explicit"]:
        cmd += ["-b", case["backend"]]
    if case["verbose"]:
        cmd += case.get("v") or ["-v"]
    if case["terminal"]:
        cmd += ["-t", "1"]
    # started in the directory itself only where a version that takes "." for "/" does no harm
    here = case.get("here") and contain.works()
    obs.hit("here", here)
    where = "." if here else tree_name if case["relative"] else top
    cmd.append(where + ("/" if case["slash"] else ""))
    contain.give(root)
    try:
        p = subprocess.run(cmd, cwd=top if here else root, env=env, **contain.user(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    except subprocess.TimeoutExpired:
        raise Inconclusive("the batch runner did not finish")
    text = p.stdout.decode(errors="replace")
    expect(p.returncode == 0, "the batch runner ended with status %d:\n%s", p.returncode, text[-1500:])
    obs.hit("runs")
    obs.hit("many", case.get("many", False))
    after = contents(top)
    expected = {}
    for name in good:
        expected[name[: -len(ext) - 1] + "-" + case["backend"] + ".pkl"] = name
    for name, data in before.items():
        if name not in expected:
            expect(name in after, "%s was removed", name)
            expect(after[name] == data, "%s was changed", name)
            obs.hit("untouched")
    extra = sorted(set(after) - set(before) - set(expected))
    expect(not extra, "files were created that belong to no good program: %r", extra)
    squeezed = re.sub(r"\s", "", text)
    for name in bad:
        obs.hit("bad_files")
        base = re.sub(r"\s", "", name)
        expect(re.search(re.escape(base) + r".{0,400}?(exception|error|fail)", squeezed, re.I), "%s cannot be run, but is not reported:\n%s", name, text[-1500:])
    order = {n: squeezed.rfind(re.sub(r"\s", "", n)) for n in list(good) + bad}
    for pkl, name in expected.items():
        expect(pkl in after, "there is no result %s for %s:\n%s", pkl, name, text[-1500:])
        with sut("loading %s" % pkl):
            result = load(os.path.join(top, pkl), env if gpu else None)
        _, declared, ops, _ = good[name][0]
        dims = qasm.raised(declared, ops)
        expect(isinstance(result, dict) and {"value", "config", "loading-time", "execution-time"} <= set(result), "the result of %s is %r", name, result)
        drive.same_state(drive.report_state(result["value"], dims), model.simulate(dims, [0] * len(dims), ops), "saved report of %s" % name)
        with sut("parse_qasm and run"):
            qc = parse_qasm(os.path.join(top, name), drive.BACKENDS["numpy" if gpu else case["backend"]])
            direct = qc.run()
        obs.hit("gpu_pickles", gpu)
        expect([list(e) for e in direct] == [list(e) for e in result["value"]], "the saved report of %s lists %r, not %r", name, result["value"][:5], direct[:5])
        drive.same_state(drive.report_state(result["value"], dims), drive.report_state(direct, dims), "saved report of %s" % name)
        want = {"width": len(dims), "depth": len(model.pack(len(dims), ops))}
        expect(result["config"] == want, "the saved configuration of %s is %r, not %r", name, result["config"], want)
        for t in ("loading-time", "execution-time"):
            expect(isinstance(result[t], (int, float)) and result[t] >= 0, "%s of %s is %r", t, name, result[t])
        obs.hit("pickles")
        if "/" in name:
            obs.hit("nested")
        if any(order[b] < order[name] for b in bad):
            obs.hit("good_after_bad")
    junk = [n for n, what in case["files"].items() if n.endswith(".pkl") and n not in expected]
    if not junk and expected:
        shown(case, obs, root, env, top, after, expected)


LOAD = """
import pickle, sys
with open(sys.argv[1], "rb") as f:
    result = pickle.load(f)
if sys.argv[2] == "str":
    result["value"] = str(result["value"])
else:
    result["value"] = [{k: complex(v.item() if hasattr(v, "item") else v) for k, v in e.items()} for e in result["value"]]
sys.stdout.buffer.write(pickle.dumps(result))
"""


def load(path, env=None, how=None):
    """A saved result; one of a GPU backend is read by a process that has the stand-in."""
    if env is None:
        with open(path, "rb") as f:
            return pickle.load(f)
    p = subprocess.run([sys.executable, "-c", LOAD, path, "str" if how else "numbers"], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    expect(p.returncode == 0, "a saved result cannot be read back: %s", p.stderr.decode(errors="replace")[-600:])
    return pickle.loads(p.stdout)


def shown(case, obs, root, env, top, after, expected):
    """The pickle mode prints what was saved."""
    cmd = [sys.executable, os.path.join(REPO, "experimental.py"), "-m", "pkl", os.path.basename(top) if case["relative"] else top]
    contain.give(root)
    try:
        p = subprocess.run(cmd, cwd=root, env=env, **contain.user(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    except subprocess.TimeoutExpired:
        raise Inconclusive("the batch runner did not finish in pickle mode")
    text = p.stdout.decode(errors="replace")
    expect(p.returncode == 0, "the batch runner ended with status %d in pickle mode:\n%s", p.returncode, text[-1500:])
    expect(contents(top) == after, "pickle mode changed the tree")
    squeezed = re.sub(r"\s", "", text)
    for pkl in expected:
        result = load(os.path.join(top, pkl), env if "cuda" in case["backend"] else None, str)
        want = re.sub(r"\s", "", str(result["value"]))
        expect(want in squeezed, "pickle mode does not show the report of %s:\n%s", pkl, text[-1500:])
        obs.hit("shown")
