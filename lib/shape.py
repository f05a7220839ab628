"""Path enumeration with a symbolic heap for small functions over linked nodes (shape analysis).

Objects are symbols: parameters, results of calls, initial contents of fields of other objects.  Distinct symbols are
distinct nodes (the structures are trees or lists by induction).  Loops are not unrolled: a loop over a node pointer is
analysed for one arbitrary iteration ('it'); its back edge ends the path with a 'tail' event."""
from ir import *

NUL = ('n',)
CMPS = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'slt': lambda a, b: a < b, 'sgt': lambda a, b: a > b, 'sle': lambda a, b: a <= b, 'sge': lambda a, b: a >= b,
        'ult': lambda a, b: a % 2**64 < b % 2**64, 'ugt': lambda a, b: a % 2**64 > b % 2**64, 'ule': lambda a, b: a % 2**64 <= b % 2**64, 'uge': lambda a, b: a % 2**64 >= b % 2**64}
INV = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
SWP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}
BIN = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b, 'mul': lambda a, b: a * b,
       'shl': lambda a, b: a << b, 'lshr': lambda a, b: a >> b, 'ashr': lambda a, b: a >> b}


class Undecided(Exception):
    pass


def ev(t, sym):
    k = t[0]
    if k == 'c':
        return t[1]
    if k == 'n':
        return 0
    if t in sym:
        return sym[t]
    if k == 'bin':
        a, b = ev(t[2], sym), ev(t[3], sym)
        r = None if a is None or b is None or t[1] not in BIN else BIN[t[1]](a, b)
        return r & 1 if r is not None and len(t) > 4 and t[4] == 1 else r
    if k == 'icmp':
        a, b = ev(t[2], sym), ev(t[3], sym)
        return None if a is None or b is None else int(CMPS[t[1]](a, b))
    if k == 'cast':
        a = ev(t[2], sym)
        if a is None:
            return None
        if t[1] == 'trunc':
            a &= (1 << t[3]) - 1
        return a
    return None


def syms(t, acc=None):
    acc = set() if acc is None else acc
    if t[0] in ('bin', 'icmp'):
        syms(t[2], acc); syms(t[3], acc)
    elif t[0] == 'cast':
        syms(t[2], acc)
    elif t[0] not in ('c', 'n'):
        acc.add(t)
    return acc


def uncast(t):
    while t[0] == 'cast':
        t = t[2]
    return t


class St:
    __slots__ = ('env', 'heap', 'cond', 'sign', 'null', 'ev', 'stale', 'loops')
    def copy(s):
        n = St(); n.env = dict(s.env); n.heap = dict(s.heap); n.cond = dict(s.cond); n.sign = dict(s.sign); n.null = dict(s.null); n.ev = s.ev; n.stale = s.stale; n.loops = s.loops
        return n


class Shape:
    limit = 60000
    def __init__(s, prog, fn):
        s.prog, s.fn = prog, fn
        s.paths = []       # (state, kind, value, inst)
        s.n = 0
        s.loops = fn.loops()

    # hooks
    def ignore(s, t): return False        # terms whose comparisons do not matter
    def flagbits(s, t): return None       # list of masks if the symbol is a flag word
    def on_call(s, st, i, name, args): return None    # list of (state, value) or None
    def is_node(s, v): return True

    def val(s, st, o):
        k = o[0]
        if k == 'v':
            return st.env[o[1]]
        if k == 'c':
            return ('c', o[1])
        if k in ('n', 'z'):
            return NUL
        if k == 'f':
            return ('fn', o[1])
        if k == 'g':
            return ('g',) + tuple(o[1:])
        return ('u', repr(o))

    def isnull(s, st, v):
        if v == NUL or v == ('c', 0):
            return True
        if v[0] in ('fn', 'g', 'al', 'p', 'new', 'ext'):
            return False
        return st.null.get(v)

    def addr(s, v):
        if v[0] == 'p':
            return v[1], v[2]
        return v, 0

    def load(s, st, a):
        o, off = a
        if o not in st.null and o[0] not in ('al', 'g', 'fn', 'n', 'new'):
            st.null[o] = False
        if a in st.heap:
            return st.heap[a]
        return ('f', o, off)

    def assume(s, st, t, truth):
        """states in which term t is truth"""
        if t[0] == 'c':
            return [st] if bool(t[1]) == truth else []
        if t == NUL:
            return [] if truth else [st]
        if t[0] == 'bin' and t[1] == 'xor' and t[3] in (('c', 1), ('c', -1)):
            return s.assume(st, t[2], not truth)
        if t[0] == 'bin' and t[1] in ('and', 'or') and all(x[0] == 'icmp' or x[0] == 'bin' and len(x) > 4 and x[4] == 1 for x in (t[2], t[3])):
            if (t[1] == 'and') == truth:
                return [y for x in s.assume(st, t[2], truth) for y in s.assume(x, t[3], truth)]
            r = s.assume(st.copy(), t[2], truth)
            return r + [y for x in s.assume(st.copy(), t[2], not truth) for y in s.assume(x, t[3], truth)]
        if t[0] == 'cast' and uncast(t)[0] == 'icmp':
            return s.assume(st, uncast(t), truth)
        if t[0] != 'icmp':
            return s.assume(st, ('icmp', 'ne', t, ('c', 0)), truth)
        p, a, b = t[1:]
        if not truth:
            p = INV[p]
        if a[0] in ('c', 'n') and b[0] not in ('c', 'n'):
            a, b, p = b, a, SWP[p]
        while a[0] == 'cast' and b[0] in ('c', 'n') and (uncast(a)[0] == 'icmp' or a[1] in ('zext', 'sext')):
            a = a[2]
        if (a[0] == 'icmp' or a[0] == 'bin' and a[1] in ('xor', 'and', 'or') and len(a) > 4 and a[4] == 1) and b[0] in ('c', 'n') and p in ('eq', 'ne'):
            v = 0 if b == NUL else b[1]
            return s.assume(st, a, (p == 'eq') == (v != 0))
        e = ev(('icmp', p, a, b), {})
        if e is not None:
            return [st] if e else []
        if b[0] == 'c' and a[0] == 'cmp':
            cur = st.sign.get(a, frozenset((-1, 0, 1)))
            n = set()
            for x in cur:
                vals = {-1: (-2, -1), 0: (0,), 1: (1, 2)}[x]
                if any(CMPS[p](v, b[1]) for v in vals):
                    n.add(x)
            if not n:
                return []
            st.sign[a] = frozenset(n)
            return [st]
        if p in ('eq', 'ne') and (b == NUL or b == ('c', 0)) and (a[0] in ('f', 'arg', 'rec', 'it', 'call', 'ext', 'p', 'al', 'new', 'fn', 'g')):
            if s.flagbits(a) is None:
                k = s.isnull(st, a)
                if k is not None:
                    return [st] if k == (p == 'eq') else []
                st.null[a] = p == 'eq'
                return [st]
        if s.ignore(('icmp', p, a, b)):
            return [st]
        if p == 'eq' and a == b:
            return [st]
        S = syms(a) | syms(b)
        if len(S) == 1:
            x = next(iter(S)); m = s.flagbits(x)
            if m is not None:
                cs = st.cond.get(x)
                cur = cs if cs is not None else frozenset(range(1 << len(m)))
                n = frozenset(c for c in cur if ev(('icmp', p, a, b), {x: s.word(m, c)}) != 0)
                if not n:
                    return []
                st.cond[x] = n
                return [st]
        if p in ('ne',):
            key, tr = ('icmp', 'eq', a, b), False
        else:
            key, tr = ('icmp', p, a, b), True
        inv = ('icmp', INV[p], a, b) if p != 'ne' else key
        if key in st.cond:
            return [st] if st.cond[key] == tr else []
        if inv in st.cond and inv != key:
            return [st] if st.cond[inv] != tr else []
        st.cond[key] = tr
        return [st]

    @staticmethod
    def word(m, c):
        r = 0
        for k, b in enumerate(m):
            if c >> k & 1:
                r |= b
        return r

    def run(s, st=None):
        if st is None:
            st = St(); st.heap = {}; st.cond = {}; st.sign = {}; st.null = {}; st.ev = (); st.stale = frozenset(); st.loops = frozenset()
            st.env = {a['id']: ('arg', k) for k, a in enumerate(s.fn.args)}
            s.start(st)
        live = s.fn.livein()
        work = [(0, None, st)]; seen = set()
        while work:
            b, pb, st = work.pop()
            s.n += 1
            if s.n > s.limit:
                raise Undecided('%s: too many paths' % s.fn.name)
            # phis
            phis = [i for i in s.fn.blocks[b] if i.op == 'phi']
            new = {}
            for i in phis:
                for v, q in i.ops:
                    if q == pb:
                        new[i.id] = s.val(st, v)
            if b in s.loops:
                if b in st.loops and pb in s.loops[b]:
                    for i in phis:
                        st.ev += (('tail', i.id, new[i.id], i),)
                    s.paths.append((st, 'back', None, phis[0] if phis else s.fn.blocks[b][0]))
                    continue
                if b not in st.loops:
                    s.enter(st, b)
                    e = s.chase(b, phis, new)
                    if e is not None:
                        st.loops |= {b}
                        i, w, T = e
                        x = ('ext', w, T)
                        st.heap[(x, w)] = NUL
                        new[i.id] = x
                    else:
                        st.loops |= {b}
                        for i in phis:
                            x = ('it', i.id)
                            st.ev += (('loop', i.id, new[i.id], i),)
                            new[i.id] = x
            st.env.update(new)
            key = (b, tuple(sorted((k, st.env[k]) for k in live[b] if k in st.env)) + tuple(sorted(new.items())), frozenset(st.heap.items()), frozenset(st.cond.items()),
                   frozenset(st.sign.items()), frozenset(st.null.items()), tuple(e[:-1] for e in st.ev), st.loops, st.stale)
            if key in seen:
                continue
            seen.add(key)
            sts = [st]
            for i in s.fn.blocks[b]:
                if i.op == 'phi':
                    continue
                if i.op in ('br', 'switch', 'ret', 'unreachable'):
                    break
                nx = []
                for x in sts:
                    nx += s.step(x, i)
                sts = nx
            for x in sts:
                if i.op == 'ret':
                    s.paths.append((x, 'ret', s.val(x, i.ops[0]) if i.ops else None, i))
                elif i.op == 'br':
                    if len(i.ops) == 1:
                        work.append((i.ops[0][1], b, x))
                    else:
                        c = s.val(x, i.ops[0])
                        for tr, t in ((True, i.ops[2][1]), (False, i.ops[1][1])):
                            for y in s.assume(x.copy(), c, tr):
                                work.append((t, b, y))
                elif i.op == 'switch':
                    c = s.val(x, i.ops[0]); rest = [x.copy()]
                    for v, t in i.d['cases']:
                        q = ('icmp', 'eq', c, ('c', v))
                        for y in s.assume(x.copy(), q, True):
                            work.append((t, b, y))
                        rest = [z for y in rest for z in s.assume(y, q, False)]
                    d = i.d.get('def')
                    if d is None:
                        raise Undecided('switch')
                    for y in rest:
                        work.append((d, b, y))
        return s

    def start(s, st): pass
    def enter(s, st, b): pass

    def chase(s, b, phis, new):
        """loop that only follows one field to its end: while (t->f) t = t->f"""
        body = s.loops[b]
        if len(phis) != 1:
            return None
        i = phis[0]
        for q in body:
            for j in s.fn.blocks[q]:
                if j.op not in ('phi', 'getelementptr', 'load', 'icmp', 'br', 'freeze', 'bitcast'):
                    return None
                if j.op == 'icmp' and not any(o[0] in ('n', 'z') for o in j.ops):
                    return None
        offs = set()
        for v, q in i.ops:
            if q in body:
                j = s.fn.inst.get(v[1]) if v[0] == 'v' else None
                if j is None or j.op != 'load':
                    return None
                g = s.fn.inst.get(j.ops[0][1])
                if g is None or g.op != 'getelementptr' or tuple(g.ops[0]) != ('v', i.id) or g.d.get('voff'):
                    return None
                offs.add(g.d['off'])
        return (i, offs.pop(), new[i.id]) if len(offs) == 1 else None

    def step(s, st, i):
        op = i.op
        if op == 'getelementptr':
            o, off = s.addr(s.val(st, i.ops[0]))
            if i.d.get('voff'):
                st.env[i.id] = ('u', i.id); return [st]
            off += i.d['off']
            st.env[i.id] = ('p', o, off) if off else o
        elif op == 'load':
            st.env[i.id] = s.load(st, s.addr(s.val(st, i.ops[0])))
        elif op == 'store':
            a = s.addr(s.val(st, i.ops[1]))
            s.load(st, a)
            if not s.skip_store(a):
                st.heap[a] = s.val(st, i.ops[0])
                s.on_store(st, i, a, st.heap[a])
        elif op == 'alloca':
            st.env[i.id] = ('al', i.id)
        elif op == 'icmp':
            st.env[i.id] = ('icmp', i.d['pred'], s.val(st, i.ops[0]), s.val(st, i.ops[1]))
        elif op in ('sext', 'zext', 'trunc'):
            v = s.val(st, i.ops[0])
            w = int(i.d['ty'][1:]) if i.d.get('ty', '').startswith('i') else 64
            st.env[i.id] = ('cast', op, v, w) if v[0] != 'c' else v
        elif op in ('bitcast', 'freeze', 'inttoptr', 'ptrtoint'):
            st.env[i.id] = s.val(st, i.ops[0])
        elif op in BIN:
            a, b = s.val(st, i.ops[0]), s.val(st, i.ops[1])
            t = ('bin', op, a, b) + ((1,) if i.d.get('ty') == 'i1' else ())
            e = ev(t, {})
            st.env[i.id] = ('c', e) if e is not None else t
        elif op == 'select':
            c = s.val(st, i.ops[0]); out = []
            for tr in (True, False):
                for y in s.assume(st.copy(), c, tr):
                    y.env[i.id] = s.val(y, i.ops[1] if tr else i.ops[2]); out.append(y)
            return out
        elif 'callee' in i.d:
            args = [s.val(st, o) for o in i.ops]
            n = i.callee
            if n and (n.startswith('llvm.memcpy') or n.startswith('llvm.memmove') or n in ('memcpy', 'memmove')):
                if args[2][0] != 'c':
                    raise Undecided('memcpy')
                s.copy(st, i, args[0], args[1], args[2][1])
                st.env[i.id] = args[0]
                return [st]
            if n and (n.startswith('llvm.memset') or n == 'memset') and args[2][0] == 'c' and args[2][1] <= 256 and args[1] == ('c', 0):
                o, off = s.addr(args[0])
                for k in range(0, args[2][1], 4):
                    if not s.skip_store((o, off + k)):
                        st.heap[(o, off + k)] = ('c', 0)
                st.env[i.id] = args[0]
                return [st]
            if n and (n.startswith('llvm.') or n == 'onion_log'):
                st.env[i.id] = ('u', i.id)
                return [st]
            r = s.on_call(st, i, n, args)
            if r is None:
                st.env[i.id] = ('call', i.id)
                return [st]
            for y, v in r:
                y.env[i.id] = v
            return [y for y, _ in r]
        else:
            st.env[i.id] = ('u', i.id)
        return [st]

    offs = ()
    def copy(s, st, i, d, src, n):
        do, doff = s.addr(d); so, soff = s.addr(src)
        v = {o: s.load(st, (so, soff + o)) for o in s.offs if o < n}
        for o, x in v.items():
            if not s.skip_store((do, doff + o)):
                st.heap[(do, doff + o)] = x
                s.on_store(st, i, (do, doff + o), x)

    def skip_store(s, a): return False
    def on_store(s, st, i, a, v): pass
