"""C22: the license-header tool is idempotent and preserves file contents.

Monitor: the tool is started as a process on scratch trees; contents, permissions and (for
files it must not touch) modification times are recorded before and after every call."""
import datetime
import os
import shutil
import subprocess
import sys
import tempfile

from .. import contain
from ..core import Inconclusive, Violation, expect, rng_for
from ..env import REPO

QUICK_SEEDS = 2
RULE = (
    "Random trees of Python, stub and other files with, with a damaged and without header, coding and interpreter lines, CRLF or missing final line "
    "ends, nested, hidden and dunder directories, handed over as files, directories or both, absolute or relative; each is checked, "
    "fixed, checked and fixed again, and compared byte by byte; non-trivial: every case."
)
REQUIRED = {"files_fixed": 120, "files_left": 120, "kept_lines": 30, "check_failed": 25, "check_passed": 40, "crlf": 8, "empty": 2, "skipped_directories": 10, "damaged": 20}
KEEP = ["# -*- coding: utf-8 -*-\n", "#!/usr/bin/env python\n"]
NO_SHRINK = True
BODIES = [
    "", "\n", "\n\n", "x = 1\n", "import os\nprint('a')\n", "\"\"\"docstring\"\"\"\n\nx = 'ü'\n", "# a comment\n\ny = 2", "class A:\n    pass\n\n\n",
    "#\n#\n", "# ---\n# This file\n", "def f():\n\treturn 1\n", "#!/usr/bin/env python3\nx = 1\n", "# SPDX-License-Identifier: MIT\nx = 1\n", "# SPDX-License-Identifier: AGPL-3.0\nx = 1\n", "# Copyright (c) 2024. Someone\n#\n\nx = 1\n", "# This file is part of something\n", "\n# SPDX-License-Identifier: AGPL-3.0\n", "\f\nx=1\n", "x = '''\n\n  spaces  \n'''   \n",
]
DAMAGE = ["first", "half", "most", "year", "name", "missing", "noblank", "extra", "case", "twice_first"]


def damaged(kind, header):
    """A header that is not the header any more."""
    lines = header.splitlines(True)
    if kind == "first":
        return lines[0]
    if kind == "half":
        return "".join(lines[: len(lines) // 2])
    if kind == "most":
        return "".join(lines[:-3])
    if kind == "year":
        return header.replace("(c) 20", "(c) 19")
    if kind == "name":
        return header.replace("QuDiet", "Other")
    if kind == "missing":
        return "".join(lines[:5] + lines[6:])
    if kind == "noblank":
        return header.rstrip("\n") + "\n"
    if kind == "extra":
        return "".join(lines[:3] + ["# more\n"] + lines[3:])
    if kind == "case":
        return header.replace("Copyright", "copyright")
    if kind == "twice_first":
        return lines[0] + header
    raise ValueError(kind)


def cases(tier, seed):
    k = 1 if tier == "quick" else 8
    out = []
    for i in range(280 * k):
        r = rng_for("C22", seed, i)
        files = {}
        allgood = i % 6 == 0
        for j in range(r.randint(1, 9)):
            d = r.choice(["", "", "pkg", "pkg/sub", "pkg/sub/deep", ".hidden", "__pycache__", "pkg/__data", "pkg/.cache/x", "a b",
                          r.choice(["build", "pkg/dist", "venv", "node_modules/a", "tests", "pkg/rebuild", "x_cache", "env", "q.egg-info", "third_party", "pkg/_private", "docs", "_build", "x.py", "vendor/pkg", "migrations"])])
            name = r.choice(["m%d.py", "m%d.py", "m%d.py", "s%d.pyi", "t%d.txt", "p%d.py.bak", "q%d.pyx", "w%d.pyw", "c%d.pyc", "n%d.ipynb", "u%d.PY", "r%d.rpy", "h%dpy", "happy%d", "__init%d__.py", ".rc%d.py"]) % j
            keep = []
            if r.random() < 0.35:
                keep = r.sample(KEEP, r.randint(1, 2))
            files[os.path.join(d, name)] = {
                "keep": keep, "header": allgood or r.random() < 0.3, "body": r.choice(BODIES), "damaged": r.choice(DAMAGE) if r.random() < 0.35 else None, "crlf": r.random() < 0.15 and not allgood,
                "mode": r.choice([0o644, 0o644, 0o755, 0o600]),
            }
        names = sorted(files)
        how = r.choice(["dir", "dir", "files", "both", "subdirs", "missing"])
        if how == "dir":
            sources = ["."]
        elif how == "files":
            sources = r.sample(names, r.randint(1, len(names)))
        elif how == "both":
            sources = [r.choice(names), "."]
        elif how == "subdirs":
            sources = sorted({n.split("/")[0] for n in names if "/" in n}) or ["."]
        else:
            sources = ["nothing_here", "."]
        if i % 20 == 7:  # a very long file, or a very long line
            files["pkg/big.py"] = {"keep": [], "header": r.random() < 0.3, "body": "", "damaged": None, "crlf": False, "mode": 0o644, "repeat": [["x = 1\n", 120000], ["y = 2\n\n", 700], ["# ", 150000], ["'a', ", 3000]][i // 20 % 4]}
            out.append({"files": files, "sources": ["."], "relative": r.random() < 0.5, "first": "fix"})
            continue
        out.append({"files": files, "sources": sources, "relative": r.random() < 0.5, "first": r.choice(["check", "fix"])})
    for i in range(1 if tier == "quick" else 3):  # very many files
        r = rng_for("C22", seed, "many", i)
        files = {"%sm%d.py" % (r.choice(["", "pkg/", "pkg/sub/"]), j): {"keep": [], "header": r.random() < 0.1, "body": r.choice(BODIES), "damaged": None, "crlf": False, "mode": 0o644} for j in range(1100)}
        out.append({"files": files, "sources": ["."], "relative": False, "first": "check"})
    return out


def prepare():
    contain.works()


def snap(root):
    out = {}
    for base, _, names in os.walk(root):
        for n in names:
            p = os.path.join(base, n)
            st = os.lstat(p)
            with open(p, "rb") as f:
                out[os.path.relpath(p, root)] = (f.read(), st.st_mode, st.st_mtime_ns)
    return out


def tool(mode, sources, cwd):
    cmd = [sys.executable, os.path.join(REPO, "scripts", "license-headers.py"), mode] + sources
    try:
        p = subprocess.run(cmd, cwd=cwd, **contain.user(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=dict(os.environ, PYTHONUTF8="1", PYTHONDONTWRITEBYTECODE="1"))
    except subprocess.TimeoutExpired:
        raise Inconclusive("the tool did not finish")
    err = p.stderr.decode(errors="replace")
    expect("Traceback" not in err, "%s mode raised: %s", mode, err[-600:])
    return p.returncode, p.stdout.decode(errors="replace")


def header_of(root):
    """The header is what fix mode writes into an empty file."""
    d = os.path.join(root, "probe")
    os.mkdir(d)
    p = os.path.join(d, "probe.py")
    open(p, "w").close()
    contain.give(root)
    code, _ = tool("fix", [p], d)
    with open(p) as f:
        h = f.read()
    expect(code == 0 and h, "fix mode left an empty Python file alone (status %d)", code)
    year = datetime.date.today().year
    for part in ("This file is part of the QuDiet package.", "SPDX-License-Identifier: AGPL-3.0", "Copyright (c) %d." % year):
        if "Copyright" in part and any("(c) %d." % y in h for y in (year - 1, year + 1)):
            continue  # a year change during the run
        expect(h.count(part) == 1, "the header has %d times %r:\n%s", h.count(part), part, h)
    expect(all(l == "" or l.startswith("#") for l in h.split("\n")) and h.endswith("\n"), "the header is not made of comments:\n%s", h)
    return h


def run_case(case, obs):
    root = tempfile.mkdtemp(prefix="qmon-c22-")
    try:
        tree(case, obs, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def covered(name, sources):
    if not name.endswith((".py", ".pyi")):
        return False
    if any(p.startswith((".", "__")) for p in name.split("/")[:-1]):
        return False
    return any(s in (".", name) or name.startswith(s + "/") for s in sources)


def tree(case, obs, root):
    header = header_of(root)
    top = os.path.join(root, "tree")
    os.mkdir(top)
    want = {}
    for name, f in case["files"].items():
        path = os.path.join(top, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        eol = "\r\n" if f["crlf"] else "\n"
        keep, body = "".join(f["keep"]), f["body"] if not f.get("repeat") else f["repeat"][0] * f["repeat"][1]
        if f.get("damaged") and not f["header"] and not f["crlf"]:
            body = damaged(f["damaged"], header) + "y = 2\n" + body
            obs.hit("damaged", covered(name, case["sources"]))
        text = keep + (header if f["header"] else "") + body
        data = text.replace("\n", eol).encode()
        with open(path, "wb") as out:
            out.write(data)
        os.chmod(path, f["mode"])
        os.utime(path, (10**9, 10**9))
        if covered(name, case["sources"]) and not f["header"]:
            # a body that starts with a line the tool keeps has no header line before it
            want[name] = [data, (keep + header + body).encode(), (keep + header + body).replace("\n", eol).encode()]
            if f["crlf"]:
                mixed = keep.replace("\n", eol) + header + body.replace("\n", eol)
                want[name].append(mixed.encode())
                obs.hit("crlf")
            obs.hit("kept_lines", bool(keep))
            obs.hit("empty", data == b"")
        elif name.endswith((".py", ".pyi")) and not covered(name, ["."]):
            obs.hit("skipped_directories")
    sources = case["sources"] if case["relative"] else [os.path.join(top, s) for s in case["sources"]]
    contain.give(root)
    before = snap(top)

    def check_mode(should_fail, what):
        a = snap(top)
        code, text = tool("check", sources, top)
        expect(snap(top) == a, "check mode changed a file")
        expect((code != 0) == should_fail, "check mode ends with status %d %s:\n%s", code, what, text)
        obs.hit("check_failed" if should_fail else "check_passed")

    if case["first"] == "check":
        check_mode(bool(want), "before fixing %d files" % len(want))
    code, text = tool("fix", sources, top)
    expect(code == 0, "fix mode ends with status %d:\n%s", code, text)
    after = snap(top)
    expect(sorted(after) == sorted(before), "fix mode created or removed files: %r", sorted(set(after) ^ set(before)))
    for name in before:
        if name not in want:
            expect(after[name] == before[name], "fix mode touched %s", name)
            obs.hit("files_left")
            continue
        f = case["files"][name]
        data = after[name][0]
        expect(after[name][1] == before[name][1], "fix mode changed the permissions of %s", name)
        if f["crlf"]:
            ok = data in want[name][2:]
        else:
            ok = data == want[name][1]
        if not ok:
            raise Violation("fix mode turned %s from %r into %r" % (name, before[name][0][:300], data[:1500]))
        obs.hit("files_fixed")
    check_mode(False, "after fixing")
    code, text = tool("fix", sources, top)
    expect(code == 0, "fixing again ends with status %d:\n%s", code, text)
    expect(snap(top) == after, "fixing again changed a file")
