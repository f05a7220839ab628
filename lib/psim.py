"""Path-sensitive dataflow engine (property simulation over the CFG).

A state is: SSA environment, known memory cells, interval/disequality facts on
symbolic terms, and a rule-specific typestate.  States are propagated along CFG
edges, branch conditions prune contradictory edges, states equal after liveness
pruning are merged, loop-carried values are widened to fresh symbols.  No path
is enumerated to a solver and no code is executed.
"""
import sys
from collections import defaultdict
from front import AnalysisBroken

INF = float('inf')
NREF = 0
# external functions that do not write through their pointer arguments
READONLY = set('''strlen strnlen strcmp strncmp strcasecmp strncasecmp strchr strrchr strstr strspn strcspn memcmp memchr
 atoi atol atoll strtol strtoul strtoll strtoull strdup strndup printf fprintf puts fputs perror exit abort isspace isalnum isdigit
 toupper tolower write send close fclose closedir unlink rename mkdir rmdir chmod access open open64 openat socket
 bind listen dlsym getenv puts fwrite fflush setenv free malloc calloc getpid time strerror htons htonl ntohs ntohl __ctype_b_loc
 __errno_location signal gnutls_strerror gai_strerror pthread_self getpwnam regexec getpwuid_r_none xmlStrcmp dup dup2 lseek fcntl
 usleep sleep sd_listen_fds pow log sqrt fputc putc remove xmlFree opendir'''.split())
# library functions known (from their summary) never to change analysed state: logging
IOFN = {('onion_listen_point_t', 'write'), ('onion_listen_point_t', 'read')}
PUREFN = {'onion_log', 'onion_log_stderr', 'onion_log_syslog'}


class Stop(Exception):
    pass


class State:
    __slots__ = ('env', 'mem', 'facts', 'ts', 'path')

    def __init__(s):
        s.env = {}; s.mem = {}; s.facts = {}; s.ts = {}; s.path = None

    def copy(s):
        n = State()
        n.env = dict(s.env); n.mem = dict(s.mem); n.facts = dict(s.facts)
        n.ts = dict(s.ts); n.path = s.path
        return n


def C(n):
    return ('c', n)


NULL = ('c', 0)


def is_c(v):
    return v[0] == 'c'


def gep(base, off, vs=()):
    if base[0] == 'p':
        off += base[2]
        if base[3]:
            vs = tuple(sorted(base[3] + tuple(vs), key=repr))
        base = base[1]
    if base[0] == 'c' and not vs:
        return ('c', base[1] + off)
    if off == 0 and not vs:
        return base
    return ('p', base, off, tuple(vs))


def root(v):
    return v[1] if v[0] == 'p' else v


def atoms(v, acc):
    k = v[0]
    if k in ('c', 'fn', 'g', 'top'):
        return acc
    if k == 'p':
        atoms(v[1], acc)
        for x, _ in v[3]:
            atoms(x, acc)
    elif k == 'bin' or k == 'icmp':
        atoms(v[2], acc); atoms(v[3], acc)
    elif k in ('zx', 'sx', 'tr', 'cast'):
        atoms(v[1], acc)
    else:
        acc.add(v)
    return acc


_acache = {}


def atomset(v):
    r = _acache.get(v)
    if r is None:
        r = frozenset(atoms(v, set()))
        if len(_acache) > 400000:
            _acache.clear()
        _acache[v] = r
    return r


def subst(v, a, b):
    if v == a:
        return b
    k = v[0]
    if k in ('c', 'fn', 'g', 'top'):
        return v
    if a not in atomset(v):
        return v
    if k == 'p':
        return gep(subst(v[1], a, b), v[2], tuple((subst(x, a, b), m) for x, m in v[3]))
    if k in ('bin', 'icmp'):
        return (k, v[1], subst(v[2], a, b), subst(v[3], a, b)) + v[4:]
    if k in ('zx', 'sx', 'tr', 'cast'):
        return (k, subst(v[1], a, b)) + v[2:]
    return v


INVERT = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}
FLIP = {'slt': ('slt', 0, 1), 'sgt': ('slt', 1, 1), 'sge': ('slt', 0, 0), 'sle': ('slt', 1, 0),
        'ult': ('ult', 0, 1), 'ugt': ('ult', 1, 1), 'uge': ('ult', 0, 0), 'ule': ('ult', 1, 0), 'eq': ('eq', 0, 1), 'ne': ('eq', 0, 0)}


def canon(pred, a, b):
    p, sw, t = FLIP[pred]
    if p == 'eq':
        if repr(a) > repr(b):
            a, b = b, a
    elif sw:
        a, b = b, a
    return ('icmp', p, a, b), t


def within(t, a, b):
    """t with the value a replaced by b, looking through width changes and constant offsets; None if a is not there."""
    if t == a:
        return b
    if t[0] in ('zx', 'sx', 'tr'):
        x = within(t[1], a, b)
        if x is None:
            return None
        return x if is_c(x) else (t[0], x) + t[2:]
    if t[0] == 'bin' and t[1] == 'add' and is_c(t[3]):
        x = within(t[2], a, b)
        if x is None:
            return None
        if is_c(x):
            return C(x[1] + t[3][1])
        if x[0] == 'bin' and x[1] == 'add' and is_c(x[3]):
            return ('bin', 'add', x[2], C(x[3][1] + t[3][1]), x[4]) if x[3][1] + t[3][1] else x[2]
        return ('bin', 'add', x) + t[3:]
    return None


class Sim:
    """Subclass and override the on_* hooks."""
    max_states = 60000
    flat_limit = 0    # the same outside of loop heads, if higher
    retry = 40000     # further states when a rule seems broken
    limit = 48        # states per (block, typestate) before joining
    nonnull = set()
    track_facts = True
    # accessors without side effects: same arguments, unchanged state, same result
    memo = {'onion_request_get_header', 'onion_dict_get', 'onion_request_get_data', 'onion_block_data', 'onion_block_size', 'onion_request_get_path',
            'onion_request_get_fullpath', 'onion_request_get_query', 'onion_request_get_post', 'onion_request_get_file', 'onion_request_get_flags',
            'onion_dict_get_dict'}

    scale = 1         # thorough runs keep more states apart
    def __init__(s, prog, fn):
        if s.scale > 1:
            s.limit, s.flat_limit = s.limit * s.scale, s.flat_limit * s.scale
        s.prog = prog; s.fn = fn
        s.viol = {}
        s.nstates = 0; s.nblocks = set()
        s.loopb = fn.in_loop(); s.live = fn.livein()
        s.back = fn.backedges()
        s.loopbody = fn.loops()
        s.mods = prog.mods(); s.constf = prog.const_fields()
        s.escaped = s._escaped()
        s.truncated = False; s._imods = {}
        s._cyc = {}; s._thr = None

    def _escaped(s):
        """allocas whose address is stored to memory (not merely passed to a call)."""
        esc = set()
        for i in s.fn.insts():
            if i.op == 'store' and i.ops[0][0] == 'v':
                for r in s._static_roots(i.ops[0]):
                    if r.op == 'alloca':
                        esc.add(('al', r.id))
        return esc

    def _static_roots(s, v):
        """instructions a pointer may have been computed from, through steps, casts and joins."""
        out = []; seen = set(); w = [v]
        while w:
            v = w.pop()
            if v[0] != 'v' or v[1] in seen:
                continue
            seen.add(v[1])
            i = s.fn.inst.get(v[1])
            if i is None:
                out.append(None)
            elif i.op in ('getelementptr', 'bitcast'):
                w.append(i.ops[0])
            elif i.op == 'phi':
                w += [o for o, _ in i.ops]
            elif i.op == 'select':
                w += i.ops[1:]
            else:
                out.append(i)
        return [i for i in out if i is not None]

    def _static_root(s, v):
        r = s._static_roots(v)
        return r[0] if len(r) == 1 else None

    # ---- hooks
    def on_start(s, st): pass
    def on_call(s, st, i, args): return None
    def on_load(s, st, i, addr, val): pass
    def on_store(s, st, i, addr, val): pass
    def on_ret(s, st, i, val): pass
    def on_subst(s, st, a, b): pass
    def on_inst(s, st, i): pass
    def on_branch(s, st, i, term, truth): pass
    def ts_atoms(s, st): return ()
    def ts_key(s, st):
        return frozenset(st.ts.items())
    def ts_group(s, st):
        """part of the typestate on which states must agree to be joined."""
        return None
    def ts_join(s, A, B):
        return dict(B.ts)
    def after_call(s, st, i, args, ret): pass
    def nonnull_call(s, i): return i.callee in s.nonnull

    # ---- values
    def val(s, st, o):
        k = o[0]
        if k == 'c':
            return ('c', o[1])
        if k == 'v':
            r = st.env.get(o[1])
            if r is None:
                if o[1] < s.fn.nargs:
                    return ('arg', o[1])
                return ('un', o[1])
            return r
        if k == 'n' or k == 'z':
            return NULL
        if k == 'f':
            return ('fn', o[1])
        if k == 'g':
            return gep(('g', o[1]), o[2])
        return ('top',)

    # ---- facts
    def interval(s, st, t):
        k = t[0]
        if k == 'c':
            return (t[1], t[1])
        lo, hi = -INF, INF
        f = st.facts.get(t)
        if f:
            lo, hi = f[0], f[1]
        if k == 'p':
            if lo < 1 and s.is_nonnull_base(st, t[1]) and not t[3] and 0 <= t[2]:
                lo = 1
        elif k in ('al', 'g', 'fn'):
            lo = max(lo, 1)
        elif k == 'zx':
            l2, h2 = s.interval(st, t[1])
            if l2 >= 0:
                lo = max(lo, l2); hi = min(hi, h2)
            else:
                lo = max(lo, 0)
                if t[2] <= 32:
                    hi = min(hi, (1 << t[2]) - 1)
        elif k == 'sx':
            l2, h2 = s.interval(st, t[1])
            lo = max(lo, l2); hi = min(hi, h2)
        elif k == 'tr':
            l2, h2 = s.interval(st, t[1])
            b = t[2]
            if l2 >= -(1 << (b - 1)) and h2 < (1 << (b - 1)):
                lo = max(lo, l2); hi = min(hi, h2)
        elif k == 'bin':
            op = t[1]
            if op == 'and':
                for a, b in ((t[2], t[3]), (t[3], t[2])):
                    if is_c(b) and b[1] >= 0:
                        lo = max(lo, 0); hi = min(hi, b[1])
                        # (x & m) with x & M == 0 known, m subset of M
                        for ft, fv in st.facts.items():
                            if ft[0] == 'bin' and ft[1] == 'and' and ft[2] == t[2] and is_c(ft[3]) and fv[0] == 0 == fv[1] and (ft[3][1] & b[1]) == b[1]:
                                hi = 0
                        ia = s.interval(st, a)
                        if ia[0] == ia[1]:
                            lo = hi = int(ia[0]) & b[1]
            elif op == 'add' and is_c(t[3]):
                l2, h2 = s.interval(st, t[2])
                lo = max(lo, l2 + t[3][1]); hi = min(hi, h2 + t[3][1])
                f = st.facts.get(('bin', 'add', t[2], C(t[3][1] - 1), t[4]))
                if f:
                    lo = max(lo, f[0] + 1); hi = min(hi, f[1] + 1)
            elif op == 'sub' and is_c(t[3]):
                l2, h2 = s.interval(st, t[2])
                lo = max(lo, l2 - t[3][1]); hi = min(hi, h2 - t[3][1])
            elif op == 'or':
                for b in (t[2], t[3]):
                    l2, h2 = s.interval(st, b)
                    if l2 > 0:
                        pass
                # or with a positive constant is non zero
                if is_c(t[3]) and t[3][1] > 0:
                    l2, _ = s.interval(st, t[2])
                    if l2 >= 0:
                        lo = max(lo, t[3][1])
            elif op in ('urem', 'srem') and is_c(t[3]) and t[3][1] > 0:
                if op == 'urem' or s.interval(st, t[2])[0] >= 0:
                    lo = max(lo, 0); hi = min(hi, t[3][1] - 1)
        elif k == 'icmp':
            lo = max(lo, 0); hi = min(hi, 1)
            if lo != hi:
                d = s.decide_icmp(st, t[1], t[2], t[3])
                if d is not None:
                    lo = hi = int(d)
        return (lo, hi)

    def is_nonnull_base(s, st, b):
        if b[0] in ('al', 'g', 'fn'):
            return True
        return s.nonzero(st, b)

    def nonzero(s, st, t):
        lo, hi = s.interval(st, t)
        if lo > 0 or hi < 0:
            return True
        f = st.facts.get(t)
        if f and 0 in f[2]:
            return True
        if t[0] in ('zx', 'sx'):
            return s.nonzero(st, t[1])
        if t[0] == 'bin' and t[1] == 'or':
            return s.nonzero(st, t[2]) or s.nonzero(st, t[3])
        if t[0] == 'p' and not t[3] and t[2] != 0:
            # member address of an object: assume objects are not at page zero
            return s.nonzero(st, t[1])
        return False

    def is_zero(s, st, t):
        lo, hi = s.interval(st, t)
        return lo == 0 == hi

    def decide_icmp(s, st, p, a, b):
        """truth of canonical icmp (eq/slt/ult) or None."""
        if a == b and a[0] not in ('top',):
            return p == 'eq'
        la, ha = s.interval(st, a); lb, hb = s.interval(st, b)
        if p == 'eq':
            if la == ha == lb == hb:
                return True
            if ha < lb or hb < la:
                return False
            for x, y in ((a, b), (b, a)):
                if is_c(y):
                    f = st.facts.get(x)
                    if f and y[1] in f[2]:
                        return False
                    if y[1] == 0 and s.nonzero(st, x):
                        return False
        elif p == 'slt':
            if ha < lb:
                return True
            if la >= hb:
                return False
        elif p == 'ult':
            if la >= 0 and lb >= 0:
                if ha < lb:
                    return True
                if la >= hb:
                    return False
            if hb == 0 == lb:
                return False
            if la == 0 == ha and s.nonzero(st, b):
                return True
        f = st.facts.get(('icmp', p, a, b))
        if f and f[0] == f[1]:
            return bool(f[0])
        return None

    def setfact(s, st, t, lo=-INF, hi=INF, ne=None):
        if t[0] in ('top',):
            return True
        f = st.facts.get(t, (-INF, INF, frozenset()))
        nlo, nhi = max(f[0], lo), min(f[1], hi)
        n = f[2]
        if ne is not None:
            n = n | {ne}
        while nlo in n and nlo <= nhi:
            nlo += 1
        while nhi in n and nlo <= nhi:
            nhi -= 1
        il, ih = s.interval(st, t)
        if max(nlo, il) > min(nhi, ih):
            return False
        n = frozenset(x for x in n if nlo < x < nhi)
        if len(n) > 24:
            n = frozenset(sorted(n)[:24])
        st.facts[t] = (nlo, nhi, n)
        return True

    def assume_cmp(s, st, pred, a, c, depth=0):
        """assume a PRED const c."""
        k = a[0]
        if k == 'icmp' and pred in ('eq', 'ne') and c in (0, 1, -1):
            tr = (pred == 'eq') == (c != 0)
            return s.assume(st, a, tr)
        if k == 'bin' and a[1] == 'xor' and is_c(a[3]) and a[3][1] in (1, -1) and len(a) > 4 and a[4] == 1 and pred in ('eq', 'ne') and c in (0, 1, -1):
            tr = (pred == 'eq') == (c != 0)
            return s.assume_cmp(st, 'eq', a[2], 0 if tr else 1) if a[2][0] != 'icmp' else s.assume(st, a[2], not tr)
        if k in ('zx', 'sx'):
            if a[1][0] == 'icmp' or (k == 'zx' and a[2] == 1):
                if pred in ('eq', 'ne'):
                    if c not in (0, 1):
                        return pred == 'ne'
                    return s.assume_cmp(st, pred, a[1], c)
            if k == 'sx' or (pred in ('eq', 'ne') and 0 <= c < (1 << (a[2] - 1))) or s.interval(st, a[1])[0] >= 0:
                if not s.assume_cmp(st, pred, a[1], c, depth + 1):
                    return False
        if k == 'bin' and a[1] == 'add' and is_c(a[3]) and pred in ('eq', 'ne', 'slt', 'sle', 'sgt', 'sge'):
            if not s.assume_cmp(st, pred, a[2], c - a[3][1], depth + 1):
                return False
        if k == 'bin' and a[1] == 'sub' and is_c(a[3]) and pred in ('eq', 'ne', 'slt', 'sle', 'sgt', 'sge'):
            if not s.assume_cmp(st, pred, a[2], c + a[3][1], depth + 1):
                return False
        if k == 'p' and not a[3] and a[2] == 0:
            return s.assume_cmp(st, pred, a[1], c)
        if k == 'bin' and a[1] == 'or' and pred == 'eq' and c == 0:
            for x in (a[2], a[3]):
                if not is_c(x) and not s.assume_cmp(st, 'eq', x, 0):
                    return False
        if pred == 'eq':
            if s.decide_icmp(st, 'eq', a, C(c)) is False:
                return False
            return s.setfact(st, a, c, c)
        if pred == 'ne':
            if s.decide_icmp(st, 'eq', a, C(c)) is True:
                return False
            return s.setfact(st, a, ne=c)
        if pred == 'slt':
            return s.setfact(st, a, hi=c - 1)
        if pred == 'sle':
            return s.setfact(st, a, hi=c)
        if pred == 'sgt':
            return s.setfact(st, a, lo=c + 1)
        if pred == 'sge':
            return s.setfact(st, a, lo=c)
        if pred in ('ult', 'ule'):
            if c >= 0:
                if k == 'bin' and a[1] == 'add' and is_c(a[3]) and abs(a[3][1]) < 1 << 30 and s.interval(st, a[2])[0] >= 0:
                    # the sum of a non negative value and a small constant does not wrap
                    if not s.assume_cmp(st, 'sle', a[2], c - (pred == 'ult') - a[3][1], depth + 1):
                        return False
                return s.setfact(st, a, lo=0, hi=c - (pred == 'ult'))
            return True
        if pred in ('ugt', 'uge'):
            if c >= 0:
                if s.interval(st, a)[0] >= 0:
                    return s.setfact(st, a, lo=c + (pred == 'ugt'))
                if (pred, c) == ('ugt', 0) or (pred, c) == ('uge', 1):
                    return s.assume_cmp(st, 'ne', a, 0)
                if s.interval(st, a)[1] <= c - (pred == 'uge') and s.interval(st, a)[0] >= 0:
                    return False
                if c <= 3:
                    for x in range(c + (pred == 'ugt')):
                        if not s.assume_cmp(st, 'ne', a, x):
                            return False
                elif s.wide_facts:
                    st.facts[('icmp', 'ult', a, C(c + (pred == 'ugt')))] = (0, 0, frozenset())
            return True
        return True

    def assume(s, st, t, truth):
        """assume boolean term; False if contradictory."""
        if t[0] == 'c':
            return bool(t[1]) == truth
        if t[0] != 'icmp':
            return s.assume_cmp(st, 'ne' if truth else 'eq', t, 0)
        p, a, b = t[1], t[2], t[3]
        d = s.decide_icmp(st, p, a, b)
        if d is not None:
            return d == truth
        if is_c(b):
            pred = p if truth else INVERT[p]
            return s.assume_cmp(st, pred, a, b[1])
        if is_c(a):
            pred = SWAP[p if truth else INVERT[p]]
            return s.assume_cmp(st, pred, b, a[1])
        st.facts[t] = (int(truth), int(truth), frozenset())
        if p == 'eq' and truth:
            ia, ib = s.interval(st, a), s.interval(st, b)
            lo, hi = max(ia[0], ib[0]), min(ia[1], ib[1])
            if lo > hi:
                return False
            if lo > -INF or hi < INF:
                if not s.setfact(st, a, lo, hi) or not s.setfact(st, b, lo, hi):
                    return False
            for x, y in ((a, b), (b, a)):
                f = st.facts.get(x)
                if f and 0 in f[2] and not s.setfact(st, y, ne=0):
                    return False
        elif p == 'slt':
            ia, ib = s.interval(st, a), s.interval(st, b)
            if truth:
                if ib[1] < INF and not s.setfact(st, a, hi=ib[1] - 1): return False
                if ia[0] > -INF and not s.setfact(st, b, lo=ia[0] + 1): return False
            else:
                if ib[0] > -INF and not s.setfact(st, a, lo=ib[0]): return False
                if ia[1] < INF and not s.setfact(st, b, hi=ia[1]): return False
        return True

    # ---- symbol redefinition in loops
    def define(s, st, i, atom):
        if i.bb in s.loopb:
            s.retire(st, atom)
        return atom

    def mentions(s, st, atom):
        for v in st.env.values():
            if atom in atomset(v):
                return True
        for a, (v, l) in st.mem.items():
            if atom in atomset(a) or atom in atomset(v):
                return True
        for t in st.facts:
            if atom in atomset(t):
                return True
        for v in s.ts_atoms(st):
            if atom in atomset(v):
                return True
        return False

    def retire(s, st, atom):
        if not s.mentions(st, atom):
            return
        old = ('old', atom)
        if s.mentions(st, old):
            s.rename(st, old, ('top',))
        s.rename(st, atom, old)

    def rename(s, st, a, b):
        st.env = {k: subst(v, a, b) for k, v in st.env.items()}
        nm = {}
        for ad, (v, l) in st.mem.items():
            ad2 = subst(ad, a, b)
            if ('top',) == root(ad2) or b == ('top',) and a in atomset(v):
                continue
            nm[ad2] = (subst(v, a, b), l)
        st.mem = nm
        nf = {}
        for t, f in st.facts.items():
            t2 = subst(t, a, b)
            if b == ('top',) and a in atomset(t):
                continue
            nf[t2] = f
        st.facts = nf
        s.on_subst(st, a, b)

    # ---- execution
    def mkbin(s, st, op, a, b, bits):
        if is_c(a) and is_c(b):
            x, y = a[1], b[1]
            try:
                r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y,
                     'xor': lambda: x ^ y, 'shl': lambda: x << y if 0 <= y < 64 else 0, 'lshr': lambda: (x & ((1 << bits) - 1)) >> y,
                     'ashr': lambda: x >> y}.get(op, lambda: None)()
            except Exception:
                r = None
            if r is not None and -(1 << 63) <= r < (1 << 64):
                m = 1 << bits
                r &= m - 1
                if r >= m >> 1 and bits > 1:
                    r -= m
                return C(r)
            return ('top',)
        if op in ('add', 'mul', 'and', 'or', 'xor') and is_c(a):
            a, b = b, a
        if op == 'sub' and is_c(b):
            op, b = 'add', C(-b[1])
        if op == 'add' and is_c(b):
            if b[1] == 0:
                return a
            if a[0] == 'bin' and a[1] == 'add' and is_c(a[3]):
                return s.mkbin(st, 'add', a[2], C(a[3][1] + b[1]), bits)
        if op in ('or', 'xor', 'shl', 'lshr', 'ashr') and is_c(b) and b[1] == 0:
            return a
        if op == 'and' and is_c(b) and b[1] == 0:
            return C(0)
        if depth_of(a) + depth_of(b) > 8:
            return ('top',)
        return ('bin', op, a, b, bits)

    def kill_call(s, st, i, args):
        c = i.callee
        if c is None:
            m = s.indirect_mods(i)
            s.kill(st, m, True)
            io = s.io_call(i)
            if io == 'log':
                pass
            elif io is None:
                s.kill_args(st, args)
            elif io == 'read':
                s.kill_args(st, args[1:2])
            return
        if c.startswith('llvm.'):
            if c.startswith(('llvm.memcpy', 'llvm.memset', 'llvm.memmove')):
                r = root(args[0])
                lab = s.fn.label(i.ops[0])
                for a in [a for a, (v, l) in st.mem.items() if root(a) == r and not (lab and l and l != lab and l[0] == lab[0]) and not s.before(a, args[0])]:
                    del st.mem[a]
            return
        if c in PUREFN:
            return
        if c in ('strcpy', 'stpcpy', 'strncpy', 'memcpy', 'memset') and args and args[0][0] != 'top':
            # writes upwards from its destination
            r = root(args[0]); o = 0 if args[0] == r else args[0][2]
            dyn = args[0][0] == 'p' and args[0][3]
            for a in [a for a in st.mem if root(a) == r and (dyn or a[0] == 'p' and (a[3] or a[2] >= o) or a == r and o == 0)]:
                del st.mem[a]
            return
        if c in s.mods:
            m = s.mods[c]
            for k in s.prog.called_params.get(c, ()):
                if k < len(args):
                    if args[k][0] == 'fn':
                        m = m | s.mods.get(args[k][1], set() if args[k][1] in READONLY or args[k][1].startswith('onion_low_') else {'?'})
                    elif args[k] != NULL:
                        m = m | {'?'}
            if '?' in m:
                s.kill(st, None, True)
            else:
                s.kill(st, m, True)
            s.kill_args(st, args, only_alloca=True, mods=None if '?' in m else m)
            return
        if c in READONLY:
            return
        if c.startswith('pthread_') and ('lock' in c):
            s.kill(st, None, True)
            return
        s.kill_args(st, args)

    def io_call(s, i):
        """'write'/'read' for a call through the transport's operations, else None."""
        j = s.fn.inst.get(i.calleev[1]) if i.calleev[0] == 'v' else None
        l = s.fn.label(j.ops[0]) if j is not None and j.op == 'load' else None
        return l[1] if l in IOFN else 'log' if l == ('@', 'onion_log') else None

    def arr_range(s, st, o):
        """byte range (relative to the root object) of the fixed-size array an indexed pointer stays in, or ()."""
        j = s.fn.inst.get(o[1]) if o[0] == 'v' else None
        if j is None or j.op != 'getelementptr' or not j.d.get('sty', '').startswith('[') or j.ops[1][0] != 'c' or j.ops[1][1] != 0:
            return ()
        b = s.val(st, j.ops[0])
        if b[0] == 'p' and b[3]:
            return ()
        off = b[2] if b[0] == 'p' else 0
        return (off, off + j.d['ssz'])

    def indirect_mods(s, i):
        """labels a call through a pointer may write, None when unknown."""
        r = s._imods.get(i.id, 0)
        if r != 0:
            return r
        j = s.fn.inst.get(i.calleev[1]) if i.calleev[0] == 'v' else None
        if j is not None and j.op == 'load' and s.fn.label(j.ops[0]) == ('@', 'onion_log'):
            r = set()
        elif j is not None and j.op == 'load' and s.fn.label(j.ops[0]) in IOFN:
            r = set()       # transport I/O moves bytes: it does not change library objects
        else:
            tg = s.prog.targets(s.fn, i)
            r = None
            if tg:
                r = set()
                for t in tg:
                    if t in s.mods:
                        r |= s.mods[t]
                    elif t not in READONLY:
                        r = None; break
                if r is not None and '?' in r:
                    r = None
        s._imods[i.id] = r
        return r

    def kill(s, st, labels, heap):
        for a in list(st.mem):
            r = root(a)
            if r[0] == 'al' and r not in s.escaped:
                continue
            if r[0] == 'g' and s.prog.globals.get(r[1], {}).get('const'):
                continue
            if st.mem[a][1] in s.constf:
                continue
            if r[0] == 'g' and r[1].startswith('$memo'):
                if labels is None or '?' in labels or labels & s.prog.reads().get(r[1][6:], set()):
                    del st.mem[a]
                continue
            if labels is None or st.mem[a][1] in labels or (st.mem[a][1] is None and labels):
                del st.mem[a]

    def before(s, a, w):
        """is the cell a (of the same object, known offset) wholly before w, from where memory is written upwards?"""
        off = lambda x: 0 if x[0] != 'p' else x[2] if not x[3] else None
        p, q = off(a), off(w)
        return p is not None and q is not None and p + 16 <= q

    def kill_args(s, st, args, only_alloca=False, mods=None):
        rs = {root(a) for a in args if a[0] != 'c'}
        if only_alloca:
            rs = {r for r in rs if r[0] == 'al'}
        for a in [a for a, (v, l) in st.mem.items() if root(a) in rs]:
            l = st.mem[a][1]
            if mods is not None and l is not None and l not in mods and l[0] in s.prog.structs:
                continue        # a field the called function does not write
            del st.mem[a]

    def step(s, st, i):
        """execute one instruction; returns list of states."""
        op = i.op
        s.on_inst(st, i)
        if op == 'load':
            addr = s.val(st, i.ops[0])
            c = st.mem.get(addr)
            if c is None or i.d.get('at'):
                v = s.const_load(addr)
                if v is None:
                    v = s.define(st, i, ('ld', i.id))
                    addr = s.val(st, i.ops[0])
                    if root(addr) != ('top',):
                        st.mem[addr] = (v, s.fn.label(i.ops[0]))
            else:
                v = c[0]
            st.env[i.id] = v
            s.on_load(st, i, addr, v)
        elif op == 'store':
            v = s.val(st, i.ops[0]); addr = s.val(st, i.ops[1])
            s.on_store(st, i, addr, v)
            lab = s.fn.label(i.ops[1])
            r = root(addr); rng = None
            for a in list(st.mem):
                if a == addr:
                    continue
                ra = root(a)
                if ra == r:
                    if a[0] == 'p' and a[3] or addr[0] == 'p' and addr[3]:
                        if rng is None:
                            rng = s.arr_range(st, i.ops[1])
                        if rng and (a == r or not a[3]):
                            o = 0 if a == r else a[2]
                            if o < rng[0] or o >= rng[1]:
                                continue
                        l2 = st.mem[a][1]
                        if l2 == lab or l2 is None or lab is None:
                            del st.mem[a]
                    continue
                if ra[0] == 'al' and (ra not in s.escaped or r[0] in ('al', 'g')):
                    continue
                if r[0] == 'al' and r not in s.escaped:
                    continue
                if ra[0] == 'g' and ra[1].startswith('$memo'):
                    if lab is not None and lab in s.prog.reads().get(ra[1][6:], set()):
                        del st.mem[a]
                    continue
                if ra[0] == 'g' and r[0] == 'g':
                    continue
                l2 = st.mem[a][1]
                if lab is not None and l2 is not None and lab != l2:
                    continue
                if (lab is None) != (l2 is None):
                    # untyped (char/int through pointer) store against a typed field: type-based disambiguation
                    continue
                del st.mem[a]
            if r != ('top',):
                st.mem[addr] = (v, lab)
        elif op == 'getelementptr':
            b = s.val(st, i.ops[0])
            if 'off' in i.d:
                off = i.d['off']; vs = []
                for o, m in i.d.get('voff', []):
                    x = s.val(st, tuple(o) if not isinstance(o[1], list) else o)
                    if is_c(x):
                        off += x[1] * m
                    elif x[0] == 'bin' and x[1] == 'add' and is_c(x[3]):
                        off += x[3][1] * m; vs.append((x[2], m))
                    else:
                        vs.append((x, m))
                if b[0] == 'top':
                    st.env[i.id] = b
                elif sum(depth_of(x) for x, _ in vs) > 6 or len(vs) + (len(b[3]) if b[0] == 'p' else 0) > 3:
                    st.env[i.id] = s.define(st, i, ('gp', i.id))
                else:
                    st.env[i.id] = gep(b, off, tuple(sorted(vs, key=repr)))
            else:
                st.env[i.id] = s.define(st, i, ('gp', i.id))
        elif op == 'alloca':
            st.env[i.id] = ('al', i.id)
        elif op == 'icmp':
            a, b = s.val(st, i.ops[0]), s.val(st, i.ops[1])
            t, tr = canon(i.d['pred'], a, b)
            if a[0] == 'top' or b[0] == 'top':
                st.env[i.id] = s.define(st, i, ('ic', i.id))
            else:
                d = s.decide_icmp(st, t[1], t[2], t[3])
                if d is not None:
                    st.env[i.id] = C(int(d == bool(tr)))
                elif depth_of(a) + depth_of(b) > 8:
                    st.env[i.id] = s.define(st, i, ('ic', i.id))
                else:
                    st.env[i.id] = t if tr else ('bin', 'xor', t, C(1), 1)
        elif op in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast', 'freeze'):
            st.env[i.id] = s.val(st, i.ops[0])
        elif op in ('zext', 'sext', 'trunc'):
            v = s.val(st, i.ops[0])
            if is_c(v):
                if op == 'zext':
                    ob = obits(s.fn, i.ops[0])
                    v = C(v[1] & ((1 << ob) - 1)) if ob else v
                elif op == 'trunc':
                    b = tbits(i.ty); x = v[1] & ((1 << b) - 1)
                    if b > 1 and x >= 1 << (b - 1):
                        x -= 1 << b
                    v = C(x)
                st.env[i.id] = v
            elif op == 'trunc':
                if v[0] in ('zx', 'sx') and v[2] == tbits(i.ty):
                    st.env[i.id] = v[1]
                else:
                    st.env[i.id] = ('tr', v, tbits(i.ty)) if v[0] != 'top' else v
            else:
                ob = obits(s.fn, i.ops[0]) or 32
                st.env[i.id] = ('zx' if op == 'zext' else 'sx', v, ob) if v[0] != 'top' else v
        elif op == 'select':
            c = s.val(st, i.ops[0])
            out = []
            for tr, o in ((True, i.ops[1]), (False, i.ops[2])):
                n = st.copy()
                if s.assume_b(n, c, tr):
                    n.env[i.id] = s.val(n, o); out.append(n)
            return out
        elif op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            a, b = s.val(st, i.ops[0]), s.val(st, i.ops[1])
            if a[0] == 'top' or b[0] == 'top':
                st.env[i.id] = s.define(st, i, ('bo', i.id))
            else:
                r = s.mkbin(st, op, a, b, tbits(i.ty) or 64)
                if r == ('top',):
                    r = s.define(st, i, ('bo', i.id))
                st.env[i.id] = r
        elif 'callee' in i.d:
            args = [s.val(st, o) for o in i.ops]
            if i.callee and i.callee.startswith('llvm.dbg'):
                return [st]
            r = s.on_call(st, i, args)
            if r is not None:
                return r
            s.default_call(st, i, args)
        elif op in ('br', 'switch', 'ret', 'unreachable'):
            pass
        else:
            if i.ty != 'void':
                st.env[i.id] = s.define(st, i, ('in', i.id))
        return [st]

    def default_call(s, st, i, args):
        s.kill_call(st, i, args)
        if i.callee and i.callee.startswith('pthread_') and i.ty != 'void':
            a = st.env[i.id] = s.define(st, i, ('call', i.id))
            if i.callee != 'pthread_self' and i.ty.startswith('i'):
                s.setfact(st, a, lo=0)      # error numbers are positive
            s.after_call(st, i, args, a)
            return
        if i.callee and i.callee.startswith('llvm.expect'):
            st.env[i.id] = args[0]; return
        if i.ty != 'void':
            mk = None
            if i.callee in s.memo and all(x[0] != 'top' for x in args):
                mk = ('p', ('g', '$memo ' + i.callee), 0, tuple((x, k + 1) for k, x in enumerate(args)))
                c = st.mem.get(mk)
                if c is not None:
                    st.env[i.id] = c[0]
                    s.after_call(st, i, args, c[0]); return
            a = s.define(st, i, ('call', i.id))
            st.env[i.id] = a
            if mk is not None:
                args2 = [s.val(st, o) for o in i.ops]
                mk = ('p', ('g', '$memo ' + i.callee), 0, tuple((x, k + 1) for k, x in enumerate(args2)))
                st.mem[mk] = (a, ('$memo', i.callee))
            if s.nonnull_call(i):
                s.setfact(st, a, lo=1)
        s.after_call(st, i, args, st.env.get(i.id))

    def const_load(s, addr):
        r = root(addr)
        if r[0] == 'g':
            g = s.prog.globals.get(r[1])
            if g and g.get('const') and g.get('init') and g['init'][0] == 's' and (addr[0] == 'g' or not addr[3]):
                o = 0 if addr[0] == 'g' else addr[2]
                if 0 <= o < len(g['init'][1]):
                    return C(ord(g['init'][1][o]))
        return None

    def assume_b(s, st, c, tr):
        if c[0] == 'bin' and c[1] == 'xor' and is_c(c[3]) and c[3][1] in (1, -1) and c[4] == 1:
            return s.assume_b(st, c[2], not tr)
        if c[0] == 'icmp' or c[0] == 'c':
            return s.assume(st, c, tr)
        if c[0] == 'bin' and c[1] in ('and', 'or') and c[4] == 1:
            if c[1] == 'and' and tr or c[1] == 'or' and not tr:
                return s.assume_b(st, c[2], tr) and s.assume_b(st, c[3], tr)
        return s.assume_cmp(st, 'ne' if tr else 'eq', c, 0)

    def edge(s, st, b, t):
        """apply phi nodes on edge b->t."""
        new = {}
        isback = (b, t) in s.back
        phis = [i for i in s.fn.blocks[t] if i.op == 'phi']
        for i in phis:
            for v, pb in i.ops:
                if pb == b:
                    new[i.id] = s.val(st, v); break
        if isback:
            body = s.loopbody[t]
            for i in phis:
                v = new.get(i.id)
                if v is None:
                    continue
                wid = s.cyclic(i, body)
                if not wid and v[0] not in ('c', 'call', 'ld', 'arg', 'al', 'fn', 'g', 'ph', 'j'):
                    wid = any(a[0] != 'arg' for a in atomset(v)) or v[0] == 'top'
                if wid:
                    at = ('ph', i.id)
                    # widen: fresh symbol for the loop-carried value; keep non-negativity / non-nullness
                    iv = s.interval(st, v)
                    nz = s.nonzero(st, v)
                    gh = [a for a, c in st.mem.items() if a[0] == 'al' and isinstance(a[1], str) and s.same_sum(c[0], v)]
                    s.retire(st, at)
                    for a in gh:       # ghost variables equal to the loop-carried value stay equal
                        st.mem[a] = (at, None)
                    new = {k: subst(x, at, ('old', at)) for k, x in new.items()}
                    if iv[0] >= 0:
                        st.facts[at] = (0 if not nz else 1, s.phihi(i, iv[1]), frozenset())
                    elif nz:
                        st.facts[at] = (-INF, INF, frozenset({0}))
                    new[i.id] = at
        for i in phis:
            if i.id in new:
                st.env[i.id] = new[i.id]
        return st

    phi_bounds = False
    wide_facts = False     # remember lower bounds of values that may be huge as comparisons

    def phihi(s, i, h):
        """upper bound assumed for a loop-carried counter; run() repeats with a larger one when a path exceeds it."""
        if not s.phi_bounds:
            return INF
        c = s.phb.get(i.id)
        if c is None:
            c = s.phb[i.id] = s.whi(max(h, 2))
        if h > c:
            s.phb2[i.id] = max(s.phb2.get(i.id, 0), s.whi(h))
        return c

    def cyclic(s, phi, body):
        """phi is updated through arithmetic around its loop (a counter or a moving pointer)."""
        k = (phi.id,)
        if k in s._cyc:
            return s._cyc[k]
        AR = {'add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'getelementptr', 'udiv', 'sdiv', 'urem', 'srem', 'or', 'and', 'xor'}
        res = False
        seen = set()
        w = [(v, False) for v, pb in phi.ops if pb in body and v[0] == 'v']
        while w:
            v, ar = w.pop()
            if (v, ar) in seen:
                continue
            seen.add((v, ar))
            if v[1] == phi.id:
                if ar:
                    res = True; break
                continue
            j = s.fn.inst.get(v[1])
            if j is None or j.bb not in body:
                continue
            if j.op == 'phi':
                w += [(o, ar) for o, _ in j.ops if o[0] == 'v']
            elif j.op in AR or j.op in ('zext', 'sext', 'trunc', 'select', 'bitcast'):
                w += [(o, ar or j.op in AR) for o in j.ops if o[0] == 'v']
        s._cyc[k] = res
        return res

    def same_sum(s, a, b):
        from lin import lin
        return a == b or lin(a) == lin(b)

    def join(s, A, B, b):
        """least-precise common state: used only when a block has accumulated many states."""
        r = State(); r.path = B.path; r.ts = s.ts_join(A, B)
        tsat = set()
        for v in s.ts_atoms(B):
            tsat |= atomset(v)
        for v in s.ts_atoms(A):
            tsat |= atomset(v)
        # give corresponding differing symbols one common name first (alpha-renaming of both states)
        A = A.copy(); B = B.copy()
        SIMPLE = ('ld', 'call', 'ph', 'arg', 'j', 'old', 'out', 'jm', 'bo', 'in')
        for k in sorted(A.env.keys() & B.env.keys()):
            va, vb = A.env[k], B.env[k]
            if va != vb and va[0] in SIMPLE and vb[0] in SIMPLE and va[0] != 'arg' and vb[0] != 'arg' and va not in tsat and vb not in tsat:
                at = ('j', b, k)
                if va != at and s.mentions(A, at) or vb != at and s.mentions(B, at):
                    continue
                if va != at:
                    s.rename(A, va, at)
                if vb != at:
                    s.rename(B, vb, at)
        merged = []
        for k in A.env.keys() & B.env.keys():
            va, vb = A.env[k], B.env[k]
            if va == vb:
                r.env[k] = va; continue
            at = ('j', b, k)
            r.env[k] = at
            merged.append((va, vb, at))
            la, ha = s.interval(A, va); lb, hb = s.interval(B, vb)
            lo = min(la, lb); hi = max(ha, hb)
            lo = 1 if lo >= 1 else 0 if lo >= 0 else -1 if lo >= -1 else -INF
            hi = s.whi(hi)
            ne = frozenset({0}) if s.nonzero(A, va) and s.nonzero(B, vb) else frozenset()
            if lo > -INF or hi < INF or ne:
                r.facts[at] = (lo, hi, ne)
        for a in A.mem.keys() & B.mem.keys():
            va, vb = A.mem[a][0], B.mem[a][0]
            if va == vb:
                r.mem[a] = A.mem[a]
            elif a[0] == 'al' and isinstance(a[1], str):
                # ghost variables stay equal to a program variable that is equal in both states
                for x, y, at in merged:
                    if s.same_sum(x, va) and s.same_sum(y, vb):
                        r.mem[a] = (at, None)
                        break
            else:
                at = ('jm', b, a)
                if depth_of(a) > 3 or 'jm' in repr(a):
                    continue
                r.mem[a] = (at, A.mem[a][1])
                merged.append((va, vb, at))
                la, ha = s.interval(A, va); lb, hb = s.interval(B, vb)
                lo = min(la, lb); hi = s.whi(max(ha, hb))
                lo = 1 if lo >= 1 else 0 if lo >= 0 else -INF
                ne = frozenset({0}) if s.nonzero(A, va) and s.nonzero(B, vb) else frozenset()
                if lo > -INF or ne or hi < INF:
                    r.facts[at] = (lo, hi, ne)
        # comparisons both states make with their own value of a merged location
        for X, Y, k in ((A, B, 0), (B, A, 1)):
            for t, f in X.facts.items():
                if t[0] != 'icmp' or f[0] != f[1]:
                    continue
                op = []
                for n in (2, 3):
                    L = [(t[n], t[n])]
                    for m in merged:
                        if not is_c(m[k]):
                            x = within(t[n], m[k], m[1 - k])
                            if x is not None:
                                L.append((x, within(t[n], m[k], m[2])))
                    op.append(L[:4])
                for x, u in op[0]:
                    for y, v in op[1]:
                        if (u is t[2] and v is t[3]) or x[0] == 'top' or y[0] == 'top':
                            continue
                        if s.decide_icmp(Y, t[1], x, y) == bool(f[0]):
                            r.facts[('icmp', t[1], u, v)] = f
        for t in A.facts.keys() & B.facts.keys():
            fa, fb = A.facts[t], B.facts[t]
            lo = min(fa[0], fb[0]); hi = max(fa[1], fb[1])
            if fa[0] != fb[0]:
                lo = 1 if lo >= 1 else 0 if lo >= 0 else -INF
            if fa[1] != fb[1]:
                hi = s.whi(hi)
            ne = frozenset(x for x in fa[2] | fb[2] if (x in fa[2] or not fa[0] <= x <= fa[1]) and (x in fb[2] or not fb[0] <= x <= fb[1]) and lo <= x <= hi)
            if 0 not in ne and lo <= 0 <= hi and s.nonzero(A, t) and s.nonzero(B, t):
                ne = ne | {0}
            if lo > -INF or hi < INF or ne:
                r.facts[t] = (lo, hi, ne)
        return r

    def flagphis(s):
        """phis that only ever hold a few constants (flags carried around a loop)."""
        ph = {i.id: i for i in s.fn.insts() if i.op == 'phi'}
        r = set()
        for x in ph:
            seen = {x}; w = [x]; vals = set(); ok = True
            while w and ok:
                for o, _ in ph[w.pop()].ops:
                    if o[0] == 'c':
                        vals.add(o[1])
                    elif o[0] == 'v' and o[1] in ph:
                        if o[1] not in seen:
                            seen.add(o[1]); w.append(o[1])
                    else:
                        ok = False; break
            if ok and len(vals) <= 3:
                r.add(x)
        return r

    def whi(s, h):
        """widen an upper bound to the next constant the function compares with."""
        if s._thr is None:
            t = {1}
            for i in s.fn.insts():
                if i.op == 'icmp':
                    for o in i.ops:
                        if o[0] == 'c' and o[1] > 0:
                            t |= {o[1] - 1, o[1], o[1] + 1}
            s._thr = sorted(t)
        if h <= 1:
            return h
        for x in s._thr:
            if x >= h:
                return x
        return INF

    def gc(s, st, b):
        lv = s.live[b]
        phis = {i.id for i in s.fn.blocks[b] if i.op == 'phi'}
        st.env = {k: v for k, v in st.env.items() if k in lv or k in phis}
        keep = set()
        for v in st.env.values():
            keep |= atomset(v)
        for v in s.ts_atoms(st):
            keep |= atomset(v)
        # arguments stay
        ch = True
        mem = st.mem
        # cells reachable from kept roots
        done = set()
        while ch:
            ch = False
            for a, (v, l) in mem.items():
                if a in done:
                    continue
                r = root(a)
                if r[0] in ('g', 'arg', 'al') or r in keep:
                    done.add(a)
                    n = len(keep); keep |= atomset(v)
                    if len(keep) != n:
                        ch = True
        st.mem = {a: c for a, c in mem.items() if a in done}
        nf = {}
        for t, f in st.facts.items():
            at = atomset(t)
            if all(x in keep or x[0] == 'arg' for x in at):
                nf[t] = f
        st.facts = nf

    def key(s, st, b):
        return (b, frozenset(st.env.items()), frozenset((a, c[0]) for a, c in st.mem.items()), frozenset(st.facts.items()), s.ts_key(st))

    def run_any(s):
        """with fewer states kept apart if there are too many."""
        l, fl = s.limit, s.flat_limit
        for k in (1, 4, 16):
            try:
                s.limit, s.flat_limit = max(2, l // k), fl // k
                return s.run0()
            except AnalysisBroken as e:
                if 'state explosion' not in str(e) or k == 16:
                    raise
                s.viol = {}; s.reset(); s.nstates = 0
            finally:
                s.limit, s.flat_limit = l, fl

    def run(s):
        r = s.run_any()
        if s.viol and s.njoins and s.retry:
            # joining states may have lost what proves the rule: look again with more states kept apart
            v, l, m, fl = s.viol, s.limit, s.max_states, s.flat_limit
            s.viol = {}; s.limit = l * 2; s.flat_limit = 2000; s.max_states = s.nstates + s.retry
            s.reset()
            try:
                r = s.run0()
            except AnalysisBroken:
                s.viol = v
            if len(s.viol) > len(v):
                s.viol = v
            s.limit, s.max_states, s.flat_limit = l, m, fl
        return r

    def run0(s):
        if not s.phi_bounds:
            return s.run1()
        s.phb = {}
        for n in range(24):
            s.phb2 = {}; s.viol = {}; s.reset()
            r = s.run1()
            if not s.phb2:
                return r
            for k, v in s.phb2.items():
                s.phb[k] = INF if n > 12 else v
        raise AnalysisBroken('loop bounds do not stabilise in %s' % s.fn.name)

    def reset(s): pass

    def run1(s):
        st = State()
        for a in s.fn.args:
            st.env[a['id']] = ('arg', a['id'])
        s.on_start(st)
        work = [(0, st)]
        seen = set(); cnt = {}; joined = {}; s.njoins = 0
        # states that disagree on a constant selected at this join point (a return code, a flag) are not merged
        heads = set(s.loopbody)
        cph = {i.id for b, L in enumerate(s.fn.blocks) if b not in heads for i in L if i.op == 'phi'}
        cph |= s.flagphis()
        phic = [tuple(sorted(cph & (s.live[b] | {i.id for i in L if i.op == 'phi'}))) for b, L in enumerate(s.fn.blocks)]
        while work:
            b, st = work.pop()
            s.gc(st, b)
            k = s.key(st, b)
            if k in seen:
                continue
            g = s.ts_group(st)
            g = (b, k[4] if g is None else g, frozenset((x, st.env[x]) for x in phic[b] if x in st.env and st.env[x][0] == 'c'))
            cnt[g] = cnt.get(g, 0) + 1
            if cnt[g] > (s.limit if b in heads else max(s.limit, s.flat_limit)):
                acc = joined.get(g)
                if acc is not None:
                    st = s.join(acc, st, b)
                    s.gc(st, b)
                k = s.key(st, b)
                joined[g] = st.copy()
                s.njoins += 1
                if k in seen:
                    continue
            seen.add(k)
            s.nstates += 1; s.nblocks.add(b)
            if s.nstates > s.max_states:
                raise AnalysisBroken('state explosion in %s (rule %s)' % (s.fn.name, type(s).__name__))
            cur = [st]
            term = None
            for i in s.fn.blocks[b]:
                if i.op == 'phi':
                    continue
                if i.op in ('br', 'switch', 'ret', 'unreachable', 'resume') or i.op == 'invoke':
                    term = i
                    if i.op != 'invoke':
                        break
                nxt = []
                for x in cur:
                    try:
                        nxt += s.step(x, i)
                    except Stop:
                        pass
                cur = nxt
            for x in cur:
                s.term(x, b, term, work)
        return s

    def term(s, st, b, i, work):
        if i.op == 'ret':
            s.on_ret(st, i, s.val(st, i.ops[0]) if i.ops else None)
            return
        if i.op == 'br':
            if len(i.ops) == 1:
                t = s.fn.succ[b][0]
                s.edge(st, b, t); work.append((t, st))
                return
            c = s.val(st, i.ops[0])
            # ops: cond, false, true (LLVM stores successors reversed)
            tt, ff = i.ops[2][1], i.ops[1][1]
            for tr, t in ((True, tt), (False, ff)):
                n = st.copy()
                if s.assume_b(n, c, tr):
                    n.path = (i, tr, st.path)
                    try:
                        s.on_branch(n, i, c, tr)
                    except Stop:
                        continue
                    s.edge(n, b, t); work.append((t, n))
            return
        if i.op == 'switch':
            c = s.val(st, i.ops[0])
            for v, t in i.d['cases']:
                n = st.copy()
                if s.assume_cmp(n, 'eq', c, v) if not is_c(c) else c[1] == v:
                    n.path = (i, v, st.path)
                    try:
                        s.on_branch(n, i, c, v)
                    except Stop:
                        continue
                    s.edge(n, b, t); work.append((t, n))
            n = st.copy()
            ok = True
            for v, t in i.d['cases']:
                if is_c(c):
                    ok = ok and c[1] != v
                else:
                    ok = ok and s.assume_cmp(n, 'ne', c, v)
            if ok:
                n.path = (i, 'default', st.path)
                s.edge(n, b, i.d['def']); work.append((i.d['def'], n))
            return
        if i.op == 'invoke':
            for t in (i.d['normal'], i.d['unwind']):
                n = st.copy(); n.path = (i, 'unwind' if t == i.d['unwind'] else 'ok', st.path)
                s.edge(n, b, t); work.append((t, n))
            return

    # ---- reporting
    def trace(s, st, n=14):
        r = []
        p = st.path
        while p and len(r) < n:
            i, tr, p = p
            r.append('%s:%s' % (i.loc(), {True: 'true', False: 'false'}.get(tr, tr)))
        return list(reversed(r))

    def report(s, key, msg, st=None, inst=None):
        if key not in s.viol:
            s.viol[key] = dict(msg=msg, where=inst.where() if inst is not None else s.fn.src, path=s.trace(st) if st is not None else [])


def depth_of(v):
    if v[0] in ('bin', 'icmp'):
        return 1 + max(depth_of(v[2]), depth_of(v[3]))
    if v[0] in ('zx', 'sx', 'tr', 'cast'):
        return depth_of(v[1])
    if v[0] == 'p':
        return 1 + max([depth_of(x) for x, _ in v[3]] + [depth_of(v[1])])
    return 0


def tbits(ty):
    if ty.startswith('i') and ty[1:].isdigit():
        return int(ty[1:])
    if ty == 'ptr':
        return 64
    return 0


def obits(fn, o):
    if o[0] == 'c':
        return o[2]
    if o[0] == 'v':
        i = fn.inst.get(o[1])
        if i is not None:
            return tbits(i.ty)
        return tbits(fn.args[o[1]]['ty'])
    return 0
