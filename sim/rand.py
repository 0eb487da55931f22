"""Planned outcomes of numpy's global random state.

The next 624 outputs of the generator (312 doubles) are chosen: the wanted 32-bit words are put
through the inverse of its output function and placed in its state, through the public interface.
"""

import random

import numpy as np


def _untemper(y):
    y ^= y >> 18
    y ^= (y << 15) & 0xEFC60000
    x = y
    for _ in range(5):
        x = y ^ ((x << 7) & 0x9D2C5680)
    y = x & 0xFFFFFFFF
    x = y
    for _ in range(3):
        x = y ^ (x >> 11)
    return x & 0xFFFFFFFF


def place(quantiles, seed):
    """The next doubles of the generator are these quantiles, and random ones afterwards."""
    r = random.Random(seed)
    words = []
    for u in quantiles[:312]:
        k = min(int(u * 2**53), 2**53 - 1)
        a, b = k >> 26, k & (2**26 - 1)
        words += [(a << 5) | r.getrandbits(5), (b << 6) | r.getrandbits(6)]
    while len(words) < 624:
        words.append(r.getrandbits(32))
    key = np.array([_untemper(w) for w in words], dtype=np.uint32)
    np.random.set_state(("MT19937", key, 0, 0, 0.0))


def gen_quantiles(rng, n=None):
    """Adversarial quantiles. A third of the plans is plain random."""
    style = rng.choice(["random", "tiny", "huge", "half", "mixed", "mixed", "alternate"])
    n = n or rng.choice([4, 20, 80, 312])
    out = []
    for i in range(n):
        s = style
        if s == "mixed":
            s = rng.choice(["random", "random", "tiny", "huge", "half"])
        if s == "alternate":
            s = ["tiny", "huge", "half", "random"][i % 4]
        if s == "tiny":
            u = 10 ** rng.uniform(-9, -2)
        elif s == "huge":
            u = 1 - 10 ** rng.uniform(-9, -2)
        elif s == "half":
            u = 0.5 + rng.choice([-1, 1]) * 10 ** rng.uniform(-9, -2)
        else:
            u = rng.random()
        out.append(u)
    return {"style": style, "q": out, "seed": rng.randrange(2**31)}


def same_state(a, b):
    return a[0] == b[0] and np.array_equal(a[1], b[1]) and a[2:] == b[2:]
