"""C08: mixed-radix encoding and decoding are inverse bijections."""
import itertools
import math

import numpy as np

from .. import drive  # noqa: F401
from ..core import expect, rng_for, sut

from qudiet.utils.linalg import clip, ttg
from qudiet.utils.numpy import Nbase_to_bin, bin_to_Nbase, get_index

RULE = (
    "Every base list of length 1-4 over 2-5 with every index, plus random base lists (length up to 260, bases up to 1025, "
    "products far beyond 2^64) with random and extreme indices; non-trivial: every case."
)
REQUIRED = {"encoded": 1000, "array_numbers": 300, "decoded": 1000, "rows": 1000, "lookups": 300, "huge": 500}
NO_SHRINK = True


def cases(tier, seed):
    quick = tier == "quick"
    out = []
    for n in range(1, 5 if quick else 6):
        for bases in itertools.product((2, 3, 4, 5) if n < 4 else (2, 3, 4), repeat=n):
            out.append({"what": "all", "bases": list(bases)})
    for d in range(2, 41):
        out.append({"what": "all", "bases": [d]})
        out.append({"what": "all", "bases": [d, 2]})
        out.append({"what": "all", "bases": [3, d]})
    for i in range(300 if quick else 8000):
        r = rng_for("C08", seed, i)
        bases = []
        for _ in range(r.randint(1, 14)):
            b = r.choice([2, 2, 3, 4, r.randint(2, 10), r.randint(2, 40)])
            if math.prod(bases) * b < 2**63:
                bases.append(b)
        out.append({"what": "random", "bases": bases, "seed": i})
    for d in (64, 100, 127, 128, 129, 130, 200, 255, 256, 257, 300, 511, 513, 1000, 1025):
        out.append({"what": "all", "bases": [d]})
        out.append({"what": "all", "bases": [2, d]})
        out.append({"what": "all", "bases": [d, 3]})
    for d in (32769, 65537, 70000):  # levels that small integer types cannot hold
        out.append({"what": "all", "bases": [d], "few": True})
    out.append({"what": "all", "bases": [2, 33000], "few": True})
    for i in range(60 if quick else 1500):  # many registers
        r = rng_for("C08", seed, "long", i)
        bases = [r.choice([2, 2, 2, 3]) for _ in range(r.randint(15, 61))]
        while math.prod(bases) >= 2**63:
            bases.pop()
        out.append({"what": "random", "bases": bases, "seed": i})
    for i in range(60 if quick else 1500):  # bases of 1, whose digit is always 0
        r = rng_for("C08", seed, "ones", i)
        bases = [r.choice([1, 1, 2, 3, 4, 7]) for _ in range(r.randint(1, 6))]
        out.append({"what": "all" if math.prod(bases) <= 700 else "random", "bases": bases, "seed": i})
    for i in range(60 if quick else 1500):  # numbers beyond 64 bits
        r = rng_for("C08", seed, "huge", i)
        bases = [r.choice([2, 3, 5, r.randint(2, 40), r.randint(2, 10**6)]) for _ in range(r.randint(15, 60))]
        out.append({"what": "huge", "bases": bases, "seed": i})
        if i % 3 == 0:  # numbers of very many digits, of one base
            out.append({"what": "huge", "bases": [r.choice([2, 2, 3, 10, 1000])] * r.choice([63, 64, 65, 66, 100, 129, 260]), "seed": i})
    for i in range(60 if quick else 1500):
        r = rng_for("C08", seed, "mid", i)
        bases = []
        for _ in range(r.randint(2, 7)):
            b = r.randint(2, 7)
            if math.prod(bases) * b <= 700:
                bases.append(b)
        out.append({"what": "all", "bases": bases})
    for i in range(20 if quick else 400):  # rows of many digits
        r = rng_for("C08", seed, "rows", i)
        bases = []
        for _ in range(r.randint(7, 11)):
            b = r.choice([2, 2, 2, 2, 3])
            if math.prod(bases) * b <= 2048:
                bases.append(b)
        out.append({"what": "all", "bases": bases})
    return out


def digits_of(i, bases):
    out = []
    for b in reversed(bases):
        out.append(i % b)
        i //= b
    return out[::-1]


def roundtrip(i, bases, obs, as_numpy=False):
    want = digits_of(i, bases)
    arg = list(bases)
    if i >= 2**63:
        number = i
    elif as_numpy and i % 3 == 0:  # a number that the callee could change
        number = np.array(i)
        obs.hit("array_numbers")
    else:
        number = np.int64(i) if as_numpy else i
    with sut("Nbase_to_bin(%d, %r)" % (i, bases)):
        got = Nbase_to_bin(number, arg)
        got = [int(x) for x in got]
    expect(number == i, "Nbase_to_bin changed the number %d it was given to %d", i, number)
    expect(got == want, "Nbase_to_bin(%d, %r) is %r instead of %r", i, bases, got, want)
    expect(arg == list(bases), "Nbase_to_bin changed its base list")
    obs.hit("decoded")
    obs.hit("huge", i >= 2**63)
    dig = list(want)
    with sut("bin_to_Nbase(%r, %r)" % (want, bases)):
        back = int(bin_to_Nbase(dig, arg))
        expect(back == i, "bin_to_Nbase(%r, %r) is %d instead of %d", want, bases, back, i)
        expect(dig == want and arg == list(bases), "bin_to_Nbase changed its arguments")
        obs.hit("encoded")
        if as_numpy:
            dig = np.array(want)
            back = int(bin_to_Nbase(dig, arg))
            expect(back == i and dig.tolist() == want and arg == list(bases), "bin_to_Nbase of the array %r and %r is %d instead of %d, or changed them", want, bases, back, i)
            dig = want
        if len(set(bases)) == 1:
            back = int(bin_to_Nbase(dig, bases[0]))
            expect(back == i, "bin_to_Nbase(%r, %d) is %d instead of %d", want, bases[0], back, i)
        if set(bases) == {2}:
            back = int(bin_to_Nbase(dig))
            expect(back == i, "bin_to_Nbase(%r) is %d instead of %d", want, back, i)


def run_case(case, obs):
    bases = case["bases"]
    n = math.prod(bases)
    r = rng_for("C08 case", case.get("seed"), bases)
    if case["what"] in ("random", "huge"):
        idx = {0, n - 1, n // 2, 1 % n} | {r.randrange(n) for _ in range(20)}
        w = 1
        for b in reversed(bases):
            idx |= {w, w * b - 1, w * (b - 1)}
            w *= b
        for i in sorted(idx):
            if i < n:
                roundtrip(i, bases, obs, r.random() < 0.5)
    else:
        for i in sorted({0, 127, 128, 32767, 32768, n // 2, n - 1}) if case.get("few") else range(n):
            roundtrip(i, bases, obs, i % 2)
        arg = list(bases)
        with sut("ttg(%r)" % bases):
            table = ttg(arg)
            rows = [[int(x) for x in row] for row in table]
        expect(arg == list(bases), "ttg changed its argument")
        expect(rows == [list(t) for t in itertools.product(*[range(b) for b in bases])], "ttg(%r) does not list the rows in order", bases)
        obs.hit("rows", len(rows))
        for i in {0, n - 1, r.randrange(n), r.randrange(n)}:
            with sut("get_index"):
                j = get_index(table, np.array(rows[i]))
            expect(j == i, "get_index finds row %r at %r instead of %d", rows[i], j, i)
            with sut("get_index"):
                j = get_index(table, rows[i])
            expect(j == i, "get_index finds row %r at %r instead of %d", rows[i], j, i)
            obs.hit("lookups")
    for _ in range(3):
        a = r.randrange(len(bases))
        b = r.randrange(a, len(bases))
        arg = list(bases)
        with sut("clip"):
            got = list(clip(arg, a, b))
        expect(got == [bases[x] for x in range(a, b + 1)] and arg == list(bases), "clip(%r, %d, %d) is %r", bases, a, b, got)
        obs.hit("clips")
        with sut("clip"):
            got = list(clip(list(bases), a, len(bases) + r.randint(0, 3)))
        expect(got == bases[a:], "clip(%r, %d) to beyond the end is %r", bases, a, got)
