"""Containment: programs under test that write files run as nobody, who owns the scratch
directory and nothing else, so that a version that escapes it reaches nothing real."""
import os
import subprocess
import sys

from .env import REPO, SRC, STANDIN

NOBODY = 65534
_works = None


def works():
    """Whether nobody can be switched to and can read what the program needs."""
    global _works
    if _works is None:
        _works = False
        if os.getuid() == 0:
            code = "import sys\nsys.path.insert(0, %r)\nimport numpy, rich, qudiet\nopen(%r).close()\nopen(%r).close()\nimport os\nos.listdir(%r)" % (
                SRC, os.path.join(REPO, "experimental.py"), os.path.join(REPO, "scripts", "license-headers.py"), STANDIN)
            try:
                p = subprocess.run([sys.executable, "-c", code], cwd="/", env=dict(os.environ, HOME="/"), user=NOBODY, group=NOBODY, extra_groups=[],
                                   stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
                _works = p.returncode == 0
            except (OSError, subprocess.SubprocessError):
                pass
    return _works


def user():
    """Arguments for subprocess.run."""
    return {"user": NOBODY, "group": NOBODY, "extra_groups": []} if works() else {}


def give(root):
    """Makes the scratch directory nobody's."""
    if works():
        os.lchown(root, NOBODY, NOBODY)
        for base, dirs, names in os.walk(root):
            for n in dirs + names:
                os.lchown(os.path.join(base, n), NOBODY, NOBODY)
