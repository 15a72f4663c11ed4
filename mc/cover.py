"""Covering arrays: rows over given choices such that for any `strength` of the choices every
combination of their values is in some row. Greedy, one choice after the other, without randomness;
every combination is counted again at the end."""
import itertools, math


def rows(sizes, strength):
    t = strength
    order = sorted(range(len(sizes)), key=lambda i: -sizes[i])
    out = _generate([sizes[i] for i in order], t)
    back = [order.index(i) for i in range(len(sizes))]
    out = [[r[b] for b in back] for r in out]
    _count(out, sizes, t)
    return out


def _generate(sizes, t):
    rows = [list(r) for r in itertools.product(*(range(s) for s in sizes[:t]))]
    for d in range(t, len(sizes)):
        ways = list(itertools.combinations(range(d), t - 1))
        left = {w: {vs: set(range(sizes[d])) for vs in itertools.product(*(range(sizes[i]) for i in w))} for w in ways}
        # in strides, so that equal beginnings do not all come at once
        n = len(rows)
        step = next(s for s in range(n * 5 // 8 or 1, n + 1) if math.gcd(s, n) == 1)
        for x in range(n):
            r = rows[x * step % n]
            sets = [left[w][tuple([r[i] for i in w])] for w in ways]
            gain = [0] * sizes[d]
            for s in sets:
                for v in s:
                    gain[v] += 1
            best = max(range(sizes[d]), key=lambda v: (gain[v], -((v + x) % sizes[d])))
            r.append(best)
            for s in sets:
                s.discard(best)
        more = []
        for w in ways:
            for vs, s in left[w].items():
                for v in sorted(s):
                    need = [*zip(w, vs), (d, v)]
                    r = next((m for m in more if all(m[i] in (None, x) for i, x in need)), None)
                    if r is None:
                        r = [None] * (d + 1)
                        more.append(r)
                    for i, x in need:
                        r[i] = x
        for k, m in enumerate(more):
            rows.append([(k * 7 + i) % sizes[i] if v is None else v for i, v in enumerate(m)])
    return rows


def _count(rows, sizes, t):
    for w in itertools.combinations(range(len(sizes)), t):
        there = len({tuple([r[i] for i in w]) for r in rows})
        assert there == math.prod(sizes[i] for i in w), w
