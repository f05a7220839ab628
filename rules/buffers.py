"""Bounds of local arrays, freshly allocated blocks and onion_block buffers."""
import re
from common import *
from gates import RecSim
from lin import lin, add, le, lower
import parser
from par import pmap, fweight

ALLOC = {'malloc': (0,), 'onion_low_malloc': (0,), 'onion_low_scalar_malloc': (0,), 'calloc': (0, 1), 'onion_low_calloc': (0, 1),
         'realloc': (1,), 'onion_low_realloc': (1,), 'onion_low_try_malloc': (0,), 'onion_low_try_scalar_malloc': (0,), 'onion_low_try_calloc': (0, 1), 'onion_low_try_realloc': (1,)}
# callee -> [(buffer argument, size argument)] : writes up to size bytes
WR = {'llvm.memcpy.p0.p0.i64': (0, 2), 'llvm.memmove.p0.p0.i64': (0, 2), 'llvm.memset.p0.i64': (0, 2), 'memcpy': (0, 2), 'memmove': (0, 2), 'memset': (0, 2),
      '__memcpy_chk': (0, 2), 'strncpy': (0, 2), 'snprintf': (0, 1), 'vsnprintf': (0, 1), 'read': (1, 2), 'recv': (1, 2), 'fgets': (0, 1), 'strftime': (0, 1),
      'readlink': (1, 2), 'getcwd': (0, 1), 'gethostname': (0, 1), 'getnameinfo': (2, 3), 'inet_ntop': (2, 3), 'onion_random_generate': (0, 1), 'pread': (1, 2),
      'gnutls_record_recv': (1, 2), 'gnutls_rnd': (1, 2), 'fread': (0, 2), 'onion_websocket_read': (1, 2)}
RD = {'llvm.memcpy.p0.p0.i64': (1, 2), 'llvm.memmove.p0.p0.i64': (1, 2), 'memcpy': (1, 2), 'memmove': (1, 2), 'write': (1, 2), 'onion_response_write': (1, 2), 'onion_block_add_data': (1, 2),
      'onion_websocket_write': (1, 2), 'onion_base64_encode': (0, 1), 'gnutls_record_send': (1, 2), 'memcmp': (0, 2)}
FIXED = {'onion_shortcut_etag': (1, 32), 'onion_shortcut_date_string': (1, 32), 'onion_shortcut_date_string_iso': (1, 21), 'onion_sha1': (2, 20), 'realpath': (1, 4096)}


def fmt_max(P, f, args, rest):
    """longest output of a format string, or None when a %s is unbounded."""
    n = 0; k = 0
    for m in re.finditer(r'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t)?([a-zA-Z%])|([^%])', f):
        fl, w, pr, ln, c, ch = m.groups()
        if ch is not None:
            n += 1; continue
        if c == '%':
            n += 1; continue
        if w == '*' or pr == '*':
            return None
        if c in 'di':
            x = 20 if ln in ('l', 'll', 'z', 'j', 't') else 11
        elif c in 'uxXo':
            x = 22 if ln in ('l', 'll', 'z', 'j', 't') else 11
            if c in 'xX':
                x = 16 if ln else {'hh': 2, 'h': 4}.get(ln, 8)
            elif c == 'u':
                x = 20 if ln else 10
        elif c == 'c':
            x = 1
        elif c == 'p':
            x = 18
        elif c == 's':
            t = rest(k)
            if pr:
                x = int(pr)
            elif t is not None:
                x = t
            else:
                return None
        else:
            return None
        n += max(x, int(w or 0)); k += 1
    return n


INF = float('inf')


def fixed(d):
    return set(d) <= {None}


class BufSim(RecSim):
    limit = 24

    def reset(s):
        s.n = {'proved': set(), 'open': {}}

    def prep(s):
        s.stored = {i.ops[1][1] for f in s.prog.funcs.values() for i in f.insts() if i.op == 'store' and i.ops[1][0] == 'g'}
        s.uses = {}; s.rbuf = s.prog.field('onion_response_t', 'buffer')['s']
        for b in s.fn.blocks:
            for i in b:
                for o in (x[0] if i.op == 'phi' else x for x in i.ops):
                    if o[0] == 'v':
                        s.uses.setdefault(o[1], []).append(i)
        s.blk = s.prog.structs.get('onion_block_t') and any(a.get('name') for a in s.fn.args) and s.fn.name.startswith('onion_block_') and s.fn.args[0]['ty'] == 'ptr'

    def on_start(s, st):
        if s.blk:
            o = {f['n']: f['o'] for f in s.prog.structs['onion_block_t']['fields']}
            B = ('arg', 0)
            D, S, M = ('in', 'blkdata'), ('in', 'blksize'), ('in', 'blkmax')
            for f, x in (('data', D), ('size', S), ('maxsize', M)):
                st.mem[gep(B, o[f])] = (x, ('onion_block_t', f))
            s.setfact(st, S, lo=0); s.setfact(st, M, lo=16); s.setfact(st, D, lo=1)
            s.setfact(st, ('icmp', 'slt', M, S), lo=0, hi=0)
            s.rec(st, ('obj', D), (), (M,))
            if len(s.fn.args) > 1 and s.fn.args[1]['ty'].startswith('i'):
                s.setfact(st, ('arg', 1), lo=0)

    def size(s, st, r):
        """size (linear form) of the object with root r, or None."""
        if r[0] == 'al':
            i = s.fn.inst[r[1]]
            if i.ops and i.ops[0][0] != 'c':
                t = s.alsz.get(r[1])
                x = st.ts.get(('al', r[1]))
                return {k: v * i.d['asz'] for k, v in lin(x[1][0]).items()} if x else None
            n = i.ops[0][1] if i.ops and i.ops[0][0] == 'c' else 1
            return {None: i.d['asz'] * n}
        x = st.ts.get(('obj', r))
        if x:
            d = {None: 1}
            if len(x[1]) == 2:
                a, b = lin(x[1][0]), lin(x[1][1])
                if set(b) <= {None}:
                    return {k: v * b.get(None, 0) for k, v in a.items()}
                if set(a) <= {None}:
                    return {k: v * a.get(None, 0) for k, v in b.items()}
                return None
            return lin(x[1][0])
        return None

    def index(s, a):
        d = dict(lin(a)); r = root(a)
        d[r] = d.get(r, 0) - 1
        if not d[r]:
            del d[r]
        return d

    def on_inst(s, st, i):
        if i.op == 'alloca' and i.ops and i.ops[0][0] != 'c':
            s.rec(st, ('al', i.id), (), (s.val(st, i.ops[0]),))

    def access(s, st, i, addr, n, what, o=None, wr=True):
        """n: linear form of the number of bytes."""
        r = root(addr)
        z = s.size(st, r)
        rng = s.arr_range(st, o) if o is not None else ()
        if z is None and not rng:
            return
        d = s.index(addr)
        lo, hi = {}, z
        if rng:
            lo, hi = {None: rng[0]}, {None: rng[1]}
        e = add(d, n)
        lw = lower(s, st, add(d, lo, -1))
        if le(s, st, e, hi) and (lw >= 0 or lw == float('-inf') or le(s, st, lo, d)):
            s.n['proved'].add(i.id); return
        if set(n) <= {None} and n.get(None, 0) <= 0 or s.zero(st, n):
            s.n['proved'].add(i.id); return
        if len(n) == 1:
            (k, v), = n.items()
            x = st.ts.get(('rdret', k))
            if x and v == 1 and x[1][0] == addr:
                s.n['proved'].add(i.id); return
        up = -lower(s, st, add(hi, e, -1))
        lw = lower(s, st, add(d, lo, -1))
        inf = [k for k, v in add(hi, e, -1).items() if k is not None and (s.interval(st, k)[1] == INF if v < 0 else s.interval(st, k)[0] == -INF)]
        if not any(v < 0 and k in inf for k, v in add(hi, e, -1).items()):
            inf = []                                # only the size is unknown
        kind = 'unknown'
        if 0 < up < INF and (fixed(hi) or fixed(add(hi, e, -1))):
            kind = 'over'
        elif -INF < lw < 0 and not (0 < up < INF) and lw > -64:
            kind = 'under'
        elif inf and wr and all(k[0] in ('arg', 'ld', 'call', 'in') for k in inf):
            kind = 'unbounded'
        elif inf and wr and fixed(hi) and all(k[0] in ('arg', 'ld', 'call', 'ph') for k in inf) and not any(s.compared(k) for k in inf):
            kind = 'unchecked loop'
        s.flag(st, i, kind, what, hi, wr)

    def flag(s, st, i, kind, what, hi, wr=True):
        s.n['open'][(i.id, kind)] = 1
        if kind == 'unknown':
            return
        sz = 'of %d bytes' % hi.get(None, 0) if fixed(hi) else 'just allocated'
        how = {'over': 'past its end', 'under': 'before its start', 'unbounded': 'for a length nothing bounds', 'unchecked loop': 'at an index that is never compared with its size'}[kind]
        s.report((kind, i.id), 'a buffer %s is %s at %s (%s) %s' % (sz, 'written' if wr else 'read', i.where(), what, how), st, i)

    def compared(s, k):
        """is the variable (a loop phi) compared with anything?"""
        if k[0] != 'ph':
            return False
        if s.cmpd(k[1], True):
            return True
        for b in s.fn.blocks:
            if any(j.id == k[1] for j in b):
                return any(j.op == 'phi' and s.cmpd(j.id, False) for j in b)
        return False

    def cmpd(s, v, const):
        seen = set(); todo = [v]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for j in s.uses.get(x, ()):
                if j.op in ('icmp', 'switch'):
                    if const or j.op == 'icmp' and not any(o[0] == 'c' or o[0] == 'null' for o in j.ops):
                        return True
                if j.op in ('phi', 'add', 'sub', 'zext', 'sext', 'trunc', 'select', 'and', 'or', 'mul', 'shl', 'getelementptr'):
                    todo.append(j.id)
        return False

    def zero(s, st, n):
        return le(s, st, n, {})

    def on_load(s, st, i, addr, val):
        l = s.fn.label(i.ops[0])
        if l == ('onion_response_t', 'buffer_pos') and s.rbuf:
            s.setfact(st, val, lo=0, hi=s.rbuf)
        if addr[0] == 'p' and addr[3]:
            s.access(st, i, addr, {None: i.d.get('sz', 1)}, 'read', i.ops[0], wr=False)

    def on_store(s, st, i, addr, val):
        if addr[0] in ('p',) or root(addr)[0] != 'al':
            s.access(st, i, addr, {None: i.d.get('sz', 1)}, 'write', i.ops[1])

    def fmt(s, st, i, args):
        f = s.prog.cstr(i.ops[1])
        return fmt_max(s.prog, f, args, lambda k: s.smax(st, i, k + 2, args)) if f is not None else None

    def smax(s, st, i, k, args):
        """longest string argument k can be, or None."""
        if k >= len(args):
            return None
        c = s.prog.cstr(i.ops[k])
        if c is not None:
            return len(c)
        x = st.ts.get(('maxlen', args[k]))
        if x:
            return x[0][0]
        j = s.fn.inst.get(i.ops[k][1]) if i.ops[k][0] == 'v' else None
        if j is not None and j.op == 'load':
            return s.ptrs(j.ops[0])
        return None

    def ptrs(s, o):
        """longest of the constant strings in a local table of strings."""
        j = s.fn.inst.get(o[1]) if o[0] == 'v' else None
        while j is not None and j.op == 'getelementptr':
            o = j.ops[0]; j = s.fn.inst.get(o[1]) if o[0] == 'v' else None
        if j is None or j.op != 'alloca':
            return None
        best = None
        for u in s.uses.get(j.id, ()):
            if 'callee' in u.d and u.callee and u.callee.startswith('llvm.memcpy') and u.ops[0] == o and u.ops[1][0] == 'g':
                g = s.prog.globals.get(u.ops[1][1])
                for e in (g or {}).get('init') and g['init'][0] == 'a' and g['init'][1:] or ():
                    c = s.prog.cstr(tuple(e)) if isinstance(e, (list, tuple)) else None
                    if c is None:
                        return None
                    best = max(best or 0, len(c))
        return best

    def slen(s, st, i, k, v):
        c = s.prog.cstr(i.ops[k]) if k is not None else None
        if c is not None:
            return {None: len(c)}
        if k is not None and i.ops[k][0] == 'v':
            j = s.fn.inst.get(i.ops[k][1])
            if j is not None and j.op == 'load' and j.ops[0][0] == 'g':
                g = s.prog.globals.get(j.ops[0][1])
                c = s.prog.cstr(g['init']) if g and g.get('init') and j.ops[0][1] not in s.stored else None
                if c is not None:
                    return {None: len(c)}
        x = st.ts.get(('sl', v))
        return lin(x[1][0]) if x else None

    def on_call(s, st, i, args):
        c = i.callee
        if c is None and len(args) == 3:
            j = s.fn.inst.get(i.calleev[1]) if i.calleev[0] == 'v' else None
            if j is not None and j.op == 'load' and s.fn.label(j.ops[0]) in (('onion_listen_point_t', 'read'), ('onion_listen_point_t', 'write')):
                s.access(st, i, args[1], lin(args[2]), 'listen point ' + s.fn.label(j.ops[0])[1], i.ops[1], wr=s.fn.label(j.ops[0])[1] == 'read')
        if c in WR:
            b, z = WR[c]
            n = lin(args[z])
            if c == 'fread':
                n = {k: v * (args[1][1] if is_c(args[1]) else 1) for k, v in n.items()}
            s.access(st, i, args[b], n, c, i.ops[b])
        if c in RD:
            b, z = RD[c]
            s.access(st, i, args[b], lin(args[z]), c + ' source', i.ops[b])
        if c in FIXED:
            b, n = FIXED[c]
            s.access(st, i, args[b], {None: n}, c, i.ops[b])
        if c in ('strcpy', 'strcat', 'sprintf'):
            r = root(args[0])
            if s.size(st, r) is not None:
                cur = {}
                if c == 'strcat':
                    x = st.ts.get(('cur', args[0]))
                    cur = lin(x[1][0]) if x else None
                if c == 'sprintf':
                    n = s.fmt(st, i, args)
                    n = {None: n} if n is not None else None
                else:
                    n = s.slen(st, i, 1, args[1])
                if n is None or cur is None:
                    s.flag(st, i, 'unbounded', c, s.size(st, root(args[0])) or {})
                else:
                    s.access(st, i, args[0], add(add(n, cur), {None: 1}), c)
                if c == 'strcpy' and n is not None:
                    x = st.ts.get(('sl', args[1]))
                    if x:
                        s.rec(st, ('cur', args[0]), (), (x[1][0],))
        if c == 'strncat':
            x = s.slen(st, i, None, args[0])
            if s.size(st, root(args[0])) is not None:
                if x is None:
                    s.flag(st, i, 'unbounded', c, s.size(st, root(args[0])) or {})
                else:
                    s.access(st, i, args[0], add(add(x, lin(args[2])), {None: 1}), c)
        return None

    def on_ret(s, st, i, val):
        if not s.blk:
            return
        o = {f['n']: f['o'] for f in s.prog.structs['onion_block_t']['fields']}
        D, S, M = (st.mem.get(gep(('arg', 0), o[f]), (None,))[0] for f in ('data', 'size', 'maxsize'))
        if None in (D, S, M):
            return
        z = s.size(st, root(D))
        if z is not None and not le(s, st, lin(M), z):
            s.report(('blkmax', i.id), 'the block returned at %s may have less memory than its recorded size' % i.where(), st, i)
        if not le(s, st, lin(S), lin(M)):
            s.report(('blksz', i.id), 'the block returned at %s may hold more bytes than its memory' % i.where(), st, i)

    def after_call(s, st, i, args, ret):
        c = i.callee
        if c == 'strlen':
            s.setfact(st, ret, lo=0)
            s.rec(st, ('sl', args[0]), (), (ret,))
        if c in ('read', 'recv', 'pread', 'onion_websocket_read') and is_c(args[2]):
            s.setfact(st, ret, lo=-1, hi=args[2][1])
        elif c in ('read', 'recv', 'pread', 'onion_websocket_read'):
            s.setfact(st, ('icmp', 'slt', args[2], ret), lo=0, hi=0)
        if c in ('read', 'recv', 'pread', 'onion_websocket_read'):
            s.rec(st, ('rdret', ret), (), (args[1],))
        if c in ('epoll_wait', 'epoll_pwait'):
            s.setfact(st, ret, lo=-1, hi=args[2][1] if is_c(args[2]) else (1 << 31) - 1)
        if c == 'strftime' and is_c(args[1]):
            s.rec(st, ('maxlen', args[0]), (args[1][1] - 1,))
        if c == 'sprintf':
            n = s.fmt(st, i, args)
            if n is not None:
                s.setfact(st, ret, lo=0, hi=n)
        if c in ALLOC and ret is not None:
            s.rec(st, ('obj', ret), (), tuple(args[k] for k in ALLOC[c]))


def run(ctx):
    P = ctx.prog; nn = infer_nonnull(P)
    P.mods(); P.const_fields(); P.reads()
    skip = set(parser.states(P))        # decided by B01 with the parser's own invariants
    def one(n):
        s = BufSim(P, P.funcs[n]); s.nonnull = nn; s.alsz = {}; s.reset(); s.prep()
        s.run()
        return s.n, s.nstates, dict(s.viol)
    res = pmap(one, [n for n in P.funcs if n not in skip], fweight(P))
    proved = unknown = 0
    for n in sorted(res):
        op = res[n][0]['open']
        proved += len(res[n][0]['proved'] - {k for k, _ in op})
        unknown += len({k for k, kd in op if kd == 'unknown'})
        for v in res[n][2].values():
            ctx.violation(v)
    ctx.need(proved >= 100, 'only %d buffer accesses were recognised' % proved)
    ctx.cover(functions=len(res), accesses_within_bounds=proved, accesses_not_decided=unknown, states=sum(x[1] for x in res.values()))
