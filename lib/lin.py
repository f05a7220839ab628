"""Linear arithmetic over symbolic terms: proves  a <= b  from the facts of the current path.

Widths are ignored (a sum is a mathematical sum): the obligations here are about sizes far below the word size.
"""
from psim import is_c, C
INF = float('inf')
MAXT = 6


def lin(t, m=1, acc=None):
    """dict atom -> coefficient, constant under None."""
    if acc is None:
        acc = {}
    k = t[0]
    if k == 'c':
        acc[None] = acc.get(None, 0) + m * t[1]
    elif k in ('zx', 'sx', 'tr'):
        lin(t[1], m, acc)
    elif k == 'bin' and t[1] in ('add', 'sub'):
        lin(t[2], m, acc); lin(t[3], m if t[1] == 'add' else -m, acc)
    elif k == 'bin' and t[1] == 'mul' and is_c(t[3]):
        lin(t[2], m * t[3][1], acc)
    elif k == 'bin' and t[1] == 'shl' and is_c(t[3]) and 0 <= t[3][1] < 62:
        lin(t[2], m << t[3][1], acc)
    elif k == 'p':
        acc[t[1]] = acc.get(t[1], 0) + m
        acc[None] = acc.get(None, 0) + m * t[2]
        for x, c in t[3]:
            lin(x, m * c, acc)
    else:
        acc[t] = acc.get(t, 0) + m
    for x in [x for x, v in acc.items() if v == 0]:
        del acc[x]
    return acc


def add(a, b, m=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + m * v
        if r[k] == 0:
            del r[k]
    return r


def lower(sim, st, d):
    """least value of a linear form, from the intervals of its atoms."""
    s = d.get(None, 0)
    for t, m in d.items():
        if t is None:
            continue
        lo, hi = sim.interval(st, t)
        s += m * lo if m > 0 else m * hi
        if s == -INF or s != s:
            return -INF
    return s


def narrow(t):
    return t[0] == 'tr' or t[0] in ('zx', 'sx') and narrow(t[1]) or t[0] == 'bin' and (narrow(t[2]) or narrow(t[3]))


def facts(sim, st, strict=False):
    """linear forms known to be >= 0 on this path."""
    r = []; nz = []
    for t, (lo, hi, ne) in st.facts.items():
        if t[0] == 'icmp':
            if lo != hi:
                continue
            p, a, b = t[1], t[2], t[3]
            if strict and (narrow(a) or narrow(b) or p == 'slt' and (sim.interval(st, a)[0] < 0 or sim.interval(st, b)[0] < 0)):
                continue        # a comparison of truncated or possibly negative values says little about sizes
            if p in ('ult', 'slt'):
                f = add(lin(b), lin(a), -1)
                if lo == 1:
                    f = add(f, {None: -1})
                else:
                    f = {k: -v for k, v in f.items()}
                if len(f) <= MAXT:
                    r.append(f)
            elif p == 'eq' and lo == 1:
                f = add(lin(b), lin(a), -1)
                if len(f) <= MAXT:
                    r.append(f); r.append({k: -v for k, v in f.items()})
            elif p == 'eq':
                f = add(lin(b), lin(a), -1)
                if len(f) <= MAXT:
                    nz.append(f); nz.append({k: -v for k, v in f.items()})
        elif t[0] in ('bin', 'zx', 'sx', 'tr', 'p'):
            f = lin(t)
            if len(f) > MAXT or not f or strict and narrow(t):
                continue
            if 0 in ne and lo <= 0:
                nz.append(f)
            if lo > -INF:
                r.append(add(f, {None: -int(lo)}))
            if hi < INF:
                r.append(add({k: -v for k, v in f.items()}, {None: int(hi)}))
    for f in nz:        # non zero and not negative
        if nonneg(sim, st, f, r, 1):
            r.append(add(f, {None: -1}))
    return r


def le(sim, st, a, b, slack=0, depth=2, strict=False):
    """is a <= b + slack established on this path?  a, b: terms or linear forms."""
    d = add(b if isinstance(b, dict) else lin(b), a if isinstance(a, dict) else lin(a), -1)
    d = add(d, {None: slack})
    return nonneg(sim, st, d, facts(sim, st, strict), depth)


def nonneg(sim, st, d, F, depth):
    if lower(sim, st, d) >= 0:
        return True
    if depth == 0:
        return False
    at = {k for k, v in d.items() if k is not None}
    for f in F:
        if any(k in f and f[k] * d[k] > 0 for k in at):
            if nonneg(sim, st, add(d, f, -1), F, depth - 1):
                return True
    return False
