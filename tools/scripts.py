"""Scripts which enumerate a finite domain instead of sampling it."""


def charge_pairs(tier, seed):
    """every pair of representatives of the small groups, and the extreme representatives of all of them"""
    out = []

    def begin():
        out.append({"op": "begin", "dst": 1, "a": 1, "b": 1})

    def pair(g, p, q, op="pair"):
        out.append({"op": op, "dst": 1, "a": 1, "b": 1, "m": 0, "g": g, "p": p, "q": q})
    k = 3 if tier == "thorough" else 2
    for n in (1, 2, 3, 4, 5, 6, 7):
        begin()
        w = range(-k * n, k * n + 1)
        for p in w:
            for q in w:
                if tier == "thorough" or (p * 7 + q) % 3 == 0 or abs(p) % n == 0 or abs(q) % n == 0:
                    pair([n], [p], [q], "grp")
                    if (p + 3 * q) % 5 == 0:
                        pair([n], [p], [q])
    ext = [-32768, -32767, -32766, -16384, -1, 0, 1, 16384, 32766, 32767]
    for n in (100, 32767, 32768, 60001):
        begin()
        for p in ext + [n // 2 % 32768, -(n // 2 % 32768), min(n, 32767), -min(n, 32767)]:
            for q in ext:
                pair([n], [p], [q], "grp")
    begin()
    for p in range(-4, 5):
        for q in range(-4, 5):
            pair([0], [p], [q], "grp")
    for p, q in ((32767, -1), (-32767, 1), (32767, -32767), (16000, 16000), (-16000, -16000)):
        if abs(2 * p) <= 32767:
            pair([0], [p], [q], "grp")
    return out
