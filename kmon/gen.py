"""Random data generators."""
from __future__ import annotations

WORDS = ["system", "get_sysinfo", "a", "", "err_code", "méthode", "日本", "x" * 40, "smartlife.iot", "on_off"]


def rtext(rng, n=None):
    n = rng.choice([0, 1, 2, 5, 17, 63, 200]) if n is None else n
    pool = rng.choice(["abcdefghijklmnop 0123456789", "aé日🙂\"\\/\n\t\u0001ß", "\x00\x7f~ "])
    return "".join(rng.choice(pool) for _ in range(n))


def rjson(rng, depth=3):
    k = rng.randrange(9 if depth > 0 else 6)
    if k == 0:
        return rng.choice([0, 1, -1, 7, 2 ** 31, -2 ** 53, 2 ** 53, 2 ** 63 - 1])
    if k == 1:
        return rng.choice([True, False, None])
    if k == 2:
        return rng.choice([0.5, -1.25, 1e10, 3.0])
    if k in (3, 4, 5):
        return rtext(rng)
    if k in (6, 7):
        return {rng.choice(WORDS) + str(i): rjson(rng, depth - 1) for i in range(rng.randrange(4))}
    return [rjson(rng, depth - 1) for _ in range(rng.randrange(4))]


def rcuts(rng, n, k=None):
    k = rng.choice([1, 1, 2, 3, 7]) if k is None else k
    if n <= 1:
        return []
    special = [1, 2, 3, 4, 5, n - 1]
    return sorted({min(max(1, rng.choice([rng.randrange(1, n), rng.choice(special)])), n - 1) for _ in range(k)})
