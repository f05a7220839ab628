"""Quoting functions: for every path from reading an input character to reading the next one, the characters the
path can stand for (from its conditions) and what it puts out for them."""
from common import *
from gates import RecSim
from websocket import ev
from lin import lin, add, le


class Row:
    def __init__(s, cls, exact, al, out, tabs, inc, trace, at):
        s.cls, s.exact, s.al, s.out, s.tabs, s.inc, s.trace, s.at = cls, exact, al, out, tabs, inc, trace, at


def tbytes(init):
    if init[0] == 's':
        return [ord(x) & 255 for x in init[1]]
    return [x[1] & 255 if isinstance(x, (list, tuple)) else x & 255 for x in init[1:]]


class EncSim(RecSim):
    """collects (class of input characters -> output) per path through one iteration of the loop."""
    limit = 200
    counter = None      # phi id of the size counter, for counting functions

    def reset(s):
        s.rows = []; s.stops = 0; s.wrongnull = []; s.neg = {}; s.bound_ok = set(); s.bound_bad = {}

    def roots(s, o, seen=None):
        """the objects a pointer operand can be derived from."""
        if o[0] in ('a', 'arg'):
            return {('arg', o[1])}
        if o[0] != 'v':
            return {tuple(o[:2])}
        if o[1] in s.rcache:
            return s.rcache[o[1]]
        seen = seen or set()
        if o[1] in seen:
            return set()
        seen.add(o[1])
        j = s.fn.inst.get(o[1])
        if j is None:
            return {('arg', o[1])}
        if j.op == 'phi':
            r = set().union(*[s.roots(x[0], seen) for x in j.ops])
        elif j.op == 'select':
            r = s.roots(j.ops[1], seen) | s.roots(j.ops[2], seen)
        elif j.op in ('getelementptr', 'bitcast'):
            r = s.roots(j.ops[0], seen)
        else:
            r = {('v', j.id)}
        return r

    def src(s, i):
        return s.roots(i.ops[0]) == {('arg', s.inp)}

    def ts_join(s, A, B):
        r = dict(B.ts)
        r[('joined',)] = ((), ())       # conditions of this path are lost
        return r

    def edge(s, st, b, t):
        phis = [i for i in s.fn.blocks[t] if i.op == 'phi' and i.ty != 'ptr'] if t in s.loopbody else []
        if (b, t) in s.back:
            for i in phis:
                x = st.ts.get(('cur', i.id))
                for v, pb in i.ops:
                    if pb == b and x is not None:
                        d = add(lin(s.val(st, v)), lin(x[1][0]), -1)
                        s.drop(st, lambda k, p, t: k == ('inc', i.id))
                        if set(d) == {None} and d[None] < 0 and not le(s, st, C(0), s.val(st, v)):
                            s.neg.setdefault(i.id, []).append(('the space left can become negative: it is not compared with what is written', s.fn.blocks[t][0], s.trace(st)))
                        if set(d) <= {None}:
                            s.rec(st, ('inc', i.id), (d.get(None, 0),))
        r = RecSim.edge(s, st, b, t)
        for i in phis:
            if i.id in st.env:
                s.rec(st, ('cur', i.id), (), (st.env[i.id],))
        return r

    def table(s, addr):
        """(bytes of the constant table, offset term) for an address into one."""
        r = root(addr)
        if r[0] != 'g' or not (s.prog.globals.get(r[1], {}).get('const') or r[1] not in s.written):
            return None
        init = s.prog.globals.get(r[1], {}).get('init')
        if not init or init[0] not in ('s', 'a'):
            return None
        return r[1]

    def on_load(s, st, i, addr, val):
        if i.ty == 'i8' and addr[0] == 'p' and addr[3] and val[0] == 'ld' and s.table(addr):
            off = C(addr[2])
            for x, c in addr[3]:
                off = ('bin', 'add', off, x if c == 1 else ('bin', 'mul', x, C(c), 64), 64)
            s.rec(st, ('tab', s.table(addr), i.id), (), (val, off))
            return
        if not s.src(i) or i.ty != 'i8':
            return
        x = st.ts.get(('ch',))
        if x is not None and x[1][1] == addr:
            if x[1][0] != val:      # read again: the same character
                s.rec(st, ('alias', i.id), (), (val,))
            return
        if x is not None:
            if s.same_iter(st, addr, x):
                return
            s.close(st, i)
        s.rec(st, ('ch',), (i.bb,), (val, addr))
        s.drop(st, lambda k, p, t: k[0] in ('out', 'alias', 'tab', 'lit', 'joined', 'inc', 'nxt', 'hex'))

    def same_iter(s, st, addr, x):
        """a further character of the same step (escape sequences)."""
        d = add(lin(addr), lin(x[1][1]), -1)
        if set(d) == {None} and 0 < d[None] < 8:
            v = st.mem.get(addr)
            if v is not None:
                s.rec(st, ('nxt', d[None]), (), (v[0],))
            return True
        return False

    def emit(s, st, vals):
        o = st.ts.get(('out',))
        t = (o[1] if o else ()) + tuple(vals)
        if len(t) > 12:
            t = t[:12]
        s.rec(st, ('out',), (), t)

    def on_store(s, st, i, addr, val):
        if s.roots(i.ops[1]) & s.dst(st) and i.d.get('sz') == 1:
            s.emit(st, [val])
            if s.outp is not None and s.bound is not None and any(i.bb in L for L in s.loopbody.values()):
                if le(s, st, add(lin(addr), {None: 2}), add(lin(('arg', s.outp)), lin(('arg', s.bound)))):
                    s.bound_ok.add(i.id)
                else:
                    s.bound_bad.setdefault(i.id, (i, s.trace(st)))
        if addr[0] == 'p' and addr[3]:
            s.drop(st, lambda k, p, t: k == ('lit', root(addr)))

    def dst(s, st):
        return {('arg', s.outp)} if s.outp is not None else s.mall

    def on_call(s, st, i, args):
        c = i.callee
        if c and c.startswith('llvm.memcpy') and is_c(args[2]) and i.ops[1][0] == 'g':
            g = s.prog.globals.get(i.ops[1][1], {})
            if g.get('const') and (g.get('init') or [0])[0] == 's':
                s.rec(st, ('lit', root(args[0])), (g['init'][1][i.ops[1][2]:][:args[2][1]],))
        elif c == 'onion_block_add_data':
            n = args[2]
            if is_c(n):
                v = s.prog.cstr(i.ops[1])
                if v is not None:
                    s.emit(st, [C(ord(x)) for x in v[:n[1]]])
                else:
                    r = args[1]
                    l = st.ts.get(('lit', root(r)))
                    o = r[2] if r[0] == 'p' else 0
                    lit = l[0][0] if l and (r[0] != 'p' or not r[3]) else ''
                    cells = [st.mem.get(gep(r, k)) for k in range(n[1])]
                    s.emit(st, [x[0] if x else C(ord(lit[o + k])) if o + k < len(lit) else ('top',) for k, x in enumerate(cells)])
            else:
                s.emit(st, [('top',)])
        elif c == 'onion_block_add_char':
            s.emit(st, [args[1]])
        elif c in ('strtol', 'strtoul', 'strtoll', 'strtoull'):
            x = st.ts.get(('ch',))
            ok = True
            if x is not None and is_c(args[2]):
                r = args[0]; nx = {k[1]: t[0] for k, p, t in s.recs(st, 'nxt')}
                cells = [st.mem.get(gep(r, k)) for k in range(3)]
                cells = [y and y[0] for y in cells]
                if all(y is not None for y in cells) and nx.get(1) is not None and nx.get(2) is not None:
                    ok = cells[0] == nx[1] and cells[1] == nx[2] and cells[2] == C(0)
                s.rec(st, ('hex', i.id), (args[2][1] == 16, ok))
        elif c in ('onion_block_add_str',):
            v = s.prog.cstr(i.ops[1])
            s.emit(st, [C(ord(x)) for x in v] if v is not None else [('top',)])
        return None

    def on_ret(s, st, i, val):
        s.stops += 1
        if val == NULL and s.counter is not None:
            # nothing to quote: only if the counted size equals the length
            a = ('ph', s.counter); fs = [(f, x) for f, x in st.facts.items() if a in atomset(f) and f != a]
            if fs and not any(f[0] == 'icmp' and f[1] == 'eq' and x[0] == 1 or x[0] == x[1] == 0 and f[0] == 'bin' and f[1] == 'sub' for f, x in fs):
                s.wrongnull.append((i, s.trace(st)))

    def close(s, st, i):
        ch = st.ts[('ch',)][1][0]
        al = [ch] + [t[0] for k, p, t in s.recs(st, 'alias')]
        o = st.ts.get(('out',))
        c, exact = s.cls(st, al)
        exact = exact and ('joined',) not in st.ts
        tabs = [(k[1], t[0], t[1]) for k, p, t in s.recs(st, 'tab')]
        inc = {k[1]: p[0] for k, p, t in s.recs(st, 'inc')}
        r = Row(c, exact, al, o[1] if o else (), tabs, inc, s.trace(st), i)
        nx = {k[1]: t[0] for k, p, t in s.recs(st, 'nxt')}
        r.nxt = nx.get(1)
        if r.nxt is not None:
            r.cls2 = s.cls(st, [r.nxt])[0]
        r.hex = [p for k, p, t in s.recs(st, 'hex')]
        r.depth = max(s.depth(st.ts[('ch',)][0][0]), s.depth(i.bb))
        s.rows.append(r)

    def depth(s, b):
        return sum(b in L for L in s.loopbody.values())

    def out(s, row, b):
        """what the path puts out for input byte b: list of bytes with None for the unknown."""
        env = {a: b if b < 128 else b - 256 for a in row.al}
        for g, v, off in row.tabs:
            x = ev(off, env)
            t = tbytes(s.prog.globals[g]['init'])
            if x is not None and 0 <= x < len(t):
                env[v] = t[x]
        r = []
        for t in row.out:
            x = ev(t, env)
            r.append(None if x is None else x & 255)
        return r

    def cls(s, st, al):
        r = []; exact = True; als = set(al)
        for b in range(1, 256):
            env = {}
            for a in al:
                env[a] = b if b < 128 else b - 256
            ok = True
            for f, (lo, hi, ne) in st.facts.items():
                if f[0] == 'icmp':
                    x, y = ev(f[2], env), ev(f[3], env)
                    if x is None or y is None:
                        exact = exact and not als & atomset(f)
                        continue
                    if f[1] == 'ult':
                        x &= (1 << 64) - 1; y &= (1 << 64) - 1
                    e = int({'eq': x == y, 'slt': x < y, 'ult': x < y}[f[1]])
                else:
                    e = ev(f, env)
                if e is None:
                    exact = exact and not als & atomset(f)
                    continue
                if e < lo or e > hi or e in ne:
                    ok = False; break
            if ok:
                r.append(b)
        return r, exact




ALNUM = set(b'0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz')
HTML = {60: b'&lt;', 62: b'&gt;', 38: b'&amp;', 34: b'&quot;', 39: b'&#39;'}
HTML2 = {60: (b'&#60;', b'&#x3c;', b'&#x3C;'), 62: (b'&#62;', b'&#x3e;', b'&#x3E;'), 38: (b'&#38;', b'&#x26;'), 34: (b'&#34;', b'&#x22;'), 39: (b'&#x27;', b'&apos;')}
CESC = {9: b'\\t', 13: b'\\r', 34: b'\\"', 92: b'\\\\'}
JESC = {8: b'\\b', 12: b'\\f', 10: b'\\n', 13: b'\\r', 9: b'\\t', 34: b'\\"', 92: b'\\\\'}


def want_html(b):
    return [HTML[b]] + list(HTML2[b]) if b in HTML else [bytes([b])]


def want_url(b):
    e = [b'%%%02X' % b, b'%%%02x' % b]
    if b in ALNUM or b in b'-_.~':
        return [bytes([b])] + ([] if b in ALNUM else e)
    return e


def want_c(b):
    if b in CESC:
        return [CESC[b]]
    if b == 10:
        return [b'\\n', b'\\n"\n"']
    if b > 127:
        return [b'\\%03o' % b]
    if b < 32 or b == 127:
        return [bytes([b]), b'\\%03o' % b]
    return [bytes([b])]


def want_json(b):
    e = [b'\\u%04x' % b, b'\\u%04X' % b]
    if b in JESC:
        return [JESC[b]] + e
    if b < 32:
        return e
    if b == 127:
        return e + [bytes([b])]
    if b == 47:
        return [b'/', b'\\/']
    return [bytes([b])]


FUNCS = (('onion_html_quote', 0, None, want_html, 'HTML'), ('onion_json_quote_add', 1, 0, want_json, 'JSON'), ('onion_c_quote', 0, 1, want_c, 'C'), ('onion_quote', 0, 1, want_url, 'URL'))


def sim(P, nn, name, inp, outp):
    s = EncSim(P, P.f(name)); s.bound = 2 if name in ('onion_quote', 'onion_c_quote') else None; s.nonnull = nn; s.inp = inp; s.outp = outp; s.rcache = {}
    if name == 'onion_json_unquote_add':
        s.limit = 48
    s.mall = {('v', i.id) for i in s.fn.calls() if i.callee in ('onion_low_scalar_malloc', 'onion_low_malloc', 'malloc', 'onion_low_calloc')}
    s.written = {i.ops[1][1] for f in P.funcs.values() for i in f.insts() if i.op == 'store' and i.ops[1][0] == 'g'} | taken(P)
    if name == 'onion_html_quote':
        for m in [i for i in s.fn.calls() if ('v', i.id) in s.mall]:
            r = base_of(s.fn, m.ops[0])
            if r and r[0] is not None:
                s.counter = r[0].id
    s.reset(); s.run()
    return s


def taken(P):
    """globals handed to a call or stored somewhere: their contents may change."""
    r = set()
    for f in P.funcs.values():
        for i in f.insts():
            if 'callee' in i.d or i.op in ('store', 'phi', 'select', 'ret'):
                for k, o in enumerate(i.ops):
                    if i.op == 'phi':
                        o = o[0]
                    if i.op == 'store' and k == 1:
                        continue
                    if o[0] == 'g':
                        r.add(o[1])
    return r


def emits(s, b):
    """the block's loop writes output."""
    L = set().union(*[s.loopbody[h] for h in s.loopbody if b in s.loopbody[h]] or [set()])
    for x in L:
        for i in s.fn.blocks[x]:
            if i.op == 'store' and i.d.get('sz') == 1 and s.roots(i.ops[1]) & s.dst(None) or i.callee and i.callee.startswith('onion_block_add'):
                return True
    return False


def show(b):
    return repr(chr(b)) if 32 <= b < 127 else '0x%02x' % b


def run(ctx):
    P = ctx.prog; nn = infer_nonnull(P)
    per = {}
    for name, inp, outp, want, what in FUNCS:
        s = sim(P, nn, name, inp, outp)
        per[name] = (s, compare(ctx, s, want, what + ' quoting'))
    for i, tr in per['onion_html_quote'][0].wrongnull[:1]:
        ctx.flag(per['onion_html_quote'][0].fn, i, 'says there is nothing to quote although the quoted size differs from the length', tr)
    size_rules(ctx, P, nn, per)
    limit_rules(ctx, per)
    decoders(ctx, P, nn)
    base64(ctx, P, nn)
    dup_rules(ctx, P, nn)
    pages(ctx, P)


def compare(ctx, s, want, what):
    f = s.fn; bad = set(); dec = {}; n = 0; skip = 0
    for r in s.rows:
        if r.depth > 1 or not emits(s, r.at.bb):
            continue
        if not r.exact:
            skip += 1; continue
        n += 1
        for b in r.cls:
            o = s.out(r, b); w = want(b)
            if None in o or w is None:
                skip += 1; continue
            dec.setdefault(b, []).append((bytes(o), r))
            k = (r.at.id, bytes(o) if len(r.cls) == 1 else len(o))
            if bytes(o) not in w and k not in bad:
                bad.add(k)
                ctx.flag(f, r.at, '%s puts out %r for the character %s (expected %s)' % (what, bytes(o).decode('latin1'), show(b), ' or '.join(repr(x.decode('latin1')) for x in w[:2])), r.trace)
    ctx.count('paths compared: ' + f.name, n)
    ctx.count('characters decided: ' + f.name, len(dec))
    if skip:
        ctx.count('not decided (path, character): ' + f.name, skip)
    return dec


def want_unq(b):
    return [b' '] if b == 43 else [bytes([b])]


UNESC = {98: 8, 102: 12, 110: 10, 114: 13, 116: 9}


def decoders(ctx, P, nn):
    s = sim(P, nn, 'onion_unquote_inplace', 0, 0)
    compare(ctx, s, want_unq, 'URL unquoting')
    seen = set()
    for r in s.rows:
        for b16, ok in r.hex:
            ctx.count('hexadecimal escapes')
            if r.exact and r.cls and r.cls != [37] and 'p' not in seen:
                seen.add('p'); ctx.flag(s.fn, r.at, 'URL unquoting takes the character %s as the start of an escape' % show(r.cls[0]), r.trace)
            if not b16 and 'b' not in seen:
                seen.add('b'); ctx.flag(s.fn, r.at, 'URL unquoting does not read %XX as hexadecimal', r.trace)
            if not ok and 'o' not in seen:
                seen.add('o'); ctx.flag(s.fn, r.at, 'URL unquoting does not convert exactly the two characters after %', r.trace)
    s = sim(P, nn, 'onion_json_unquote_add', 1, 0)
    rows = s.rows; s.rows = [r for r in rows if r.nxt is None and r.cls and 92 not in r.cls]
    compare(ctx, s, lambda b: [bytes([b])], 'JSON unquoting')
    bad = set(); n = 0
    for r in rows:
        if r.depth > 1 or r.nxt is None or not r.exact or r.cls != [92] or len(r.out) != 1:
            continue
        for b in r.cls2:
            if b == 117:
                continue
            env = {r.nxt: b if b < 128 else b - 256, r.al[0]: 92}
            x = ev(r.out[0], env)
            if x is None:
                continue
            n += 1
            if x & 255 != UNESC.get(b, b) and b not in bad and len(bad) < 3:
                bad.add(b)
                ctx.flag(s.fn, r.at, 'JSON unquoting turns \\%s into %s' % (show(b).strip("'"), show(x & 255)), r.trace)
    ctx.count('JSON escapes compared', n)


def limit_rules(ctx, per):
    """the writers that take a size never put out more than it."""
    for name, larg in (('onion_c_quote', 2), ('onion_quote', 2)):
        s, dec = per[name]; f = s.fn
        down = None
        for h in s.loopbody:
            for i in f.blocks[h]:
                if i.op == 'phi' and i.ty != 'ptr':
                    init = [v for v, pb in i.ops if pb not in s.loopbody[h]]
                    if init and arg_based(f, init[0], larg):
                        down = i
        if down is not None:
            bad = False
            for r in s.rows:
                if not r.exact or down.id not in r.inc or r.at.bb not in s.loopbody[down.bb]:
                    continue
                for b in r.cls:
                    ctx.count('output budget compared: ' + name)
                    if -r.inc[down.id] < len(r.out) and not bad:
                        bad = True
                        ctx.flag(f, r.at, 'takes %d bytes off the space left for the character %s, but writes %d' % (-r.inc[down.id], show(b), len(r.out)), r.trace)
            for msg, i, tr in s.neg.get(down.id, [])[:1]:
                ctx.flag(f, i, msg, tr)
        else:
            ctx.count('stores bounded: ' + name, len(s.bound_ok))
            for i, tr in list(s.bound_bad.values())[:2]:
                ctx.flag(f, i, 'writes to the result without having checked that it fits the given size', tr)


def arg_based(f, o, k):
    """argument k, possibly with a constant added."""
    n = 0
    while o[0] == 'v' and n < 8:
        if o[1] == k and o[1] not in f.inst:
            return True
        j = f.inst.get(o[1]); n += 1
        if j is None:
            return False
        if j.op in ('sext', 'zext', 'trunc') or j.op in ('add', 'sub') and j.ops[1][0] == 'c':
            o = j.ops[0]; continue
        return False
    return o[0] in ('a', 'arg') and o[1] == k



B64 = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


def pyexpr(t, names):
    """python source of a term over named atoms, None when it has others."""
    if t in names:
        return names[t]
    if is_c(t):
        return '(%d)' % t[1]
    if t[0] == 'bin':
        a, b = pyexpr(t[2], names), pyexpr(t[3], names)
        op = {'add': '+', 'sub': '-', 'mul': '*', 'and': '&', 'or': '|', 'xor': '^', 'shl': '<<', 'ashr': '>>'}.get(t[1])
        if a is None or b is None:
            return None
        if t[1] == 'lshr':
            return '((%s&%d)>>%s)' % (a, (1 << (t[4] or 64)) - 1, b)
        return op and '(%s%s%s)' % (a, op, b)
    if t[0] in ('zx', 'tr'):
        a = pyexpr(t[1], names)
        return a and '(%s&%d)' % (a, (1 << t[2]) - 1)
    if t[0] == 'sx':
        a = pyexpr(t[1], names)
        h = 1 << (t[2] - 1)
        return a and '((%s+%d&%d)-%d)' % (a, h, 2 * h - 1, h)
    return None


class B64Sim(RecSim):
    """per iteration: characters taken (in order) and bytes stored (in order)."""
    limit = 120

    def reset(s):
        s.rows = []; s.tabs = {}; s.pads = []; s.loads = 0

    roots = EncSim.roots

    def seq(s, st, k, terms):
        x = st.ts.get((k,))
        s.rec(st, (k,), (), (x[1] if x else ()) + tuple(terms))

    def on_load(s, st, i, addr, val):
        if i.ty != 'i8':
            return
        r = root(addr)
        if s.decode and r[0] == 'g' and addr[0] == 'p' and addr[3]:
            s.tabs[r[1]] = i
            s.seq(st, 'in', [val])
        elif not s.decode:
            if r[0] == 'g' and addr[0] == 'p' and addr[3]:
                s.tabs[r[1]] = i
            elif s.roots(i.ops[0]) == {('arg', 0)} and val[0] == 'ld':
                s.seq(st, 'in', [val]); s.seq(st, 'ina', [addr])

    def on_store(s, st, i, addr, val):
        if i.d.get('sz') == 1 and s.roots(i.ops[1]) & s.mall:
            if not s.decode and val == C(61):
                n = st.ts.get(('pad',))
                s.rec(st, ('pad',), (1 + (n[0][0] if n else 0),))
                return
            inn = st.ts.get(('in',))
            if inn and any(a in atomset(val) for x in inn[1] for a in atomset(x)):
                s.seq(st, 'out', [val])
                s.row(st, i)

    def row(s, st, i):
        inn = st.ts.get(('in',)); out = st.ts.get(('out',))
        if len(out[1]) == (3 if s.decode else 4):
            x = inn[1]; ia = st.ts.get(('ina',))
            if ia and len(ia[1]) == len(x):     # input bytes in the order of their addresses
                d = [add(lin(a), lin(ia[1][0]), -1) for a in ia[1]]
                if not all(set(k) <= {None} for k in d):
                    return
                x = tuple(v for _, v in sorted((k.get(None, 0), v) for k, v in zip(d, x)))
            s.rows.append((x, out[1], i, s.trace(st)))

    def edge(s, st, b, t):
        if s.heads is None:
            s.heads = set()
            for L in s.fn.blocks:
                for i in L:
                    if i.op == 'store' and i.d.get('sz') == 1 and s.roots(i.ops[1]) & s.mall:
                        hs = [h for h in s.loopbody if i.bb in s.loopbody[h]]
                        if hs:
                            s.heads.add(min(hs, key=lambda h: len(s.loopbody[h])))
        if t in s.heads:
            body = s.loopbody[t]
            if (b, t) in s.back or b not in body:
                s.drop(st, lambda k, p, t: k[0] in ('in', 'ina', 'out'))
        return RecSim.edge(s, st, b, t)

    def on_ret(s, st, i, val):
        p = st.ts.get(('pad',)); n = p[0][0] if p else 0
        rem = None
        for r in (0, 1, 2):     # what the path says about length % 3
            ok = True; seen = False
            for f, (lo, hi, ne) in st.facts.items():
                t = f
                m = [x for x in terms_of(t) if x[0] == 'bin' and x[1] in ('srem', 'urem') and x[3] == C(3)]
                if not m:
                    continue
                env = {x: r for x in m}
                if f[0] == 'icmp':
                    x, y = ev(f[2], env), ev(f[3], env)
                    if x is None or y is None:
                        continue
                    e = int({'eq': x == y, 'slt': x < y, 'ult': x < y}[f[1]])
                else:
                    e = ev(f, env)
                    if e is None:
                        continue
                seen = True
                if e < lo or e > hi or e in ne:
                    ok = False
            if seen and ok:
                s.pads.append((r, n, i, s.trace(st)))


def terms_of(t):
    r = [t]
    for x in t[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            r += terms_of(x)
    return r


def base64(ctx, P, nn):
    for name, decode in (('onion_base64_decode', True), ('onion_base64_encode', False)):
        f = P.f(name)
        s = B64Sim(P, f); s.nonnull = nn; s.decode = decode; s.heads = None; s.rcache = {}
        s.mall = {('v', i.id) for i in f.calls() if i.callee in ('onion_low_scalar_malloc', 'onion_low_malloc', 'malloc', 'onion_low_calloc')}
        s.reset(); s.run()
        for g, i in s.tabs.items():
            G = P.globals.get(g, {})
            if not G.get('const') or (G.get('init') or [0])[0] not in ('s', 'a'):
                continue
            t = tbytes(G['init'])
            ctx.count('base64 tables')
            if decode and len(t) > 122:
                for k, c in enumerate(B64):
                    if t[c] != k:
                        ctx.flag(f, i, 'the decode table gives %d for %s (expected %d)' % (t[c], show(c), k)); break
            elif not decode and len(t) >= 64:
                for k, c in enumerate(B64):
                    if t[k] != c:
                        ctx.flag(f, i, 'the encode table gives %s for %d (expected %s)' % (show(t[k]), k, show(c))); break
        ref = ['(a<<2|b>>4)&255', '(b<<4|c>>2)&255', '(c<<6|d)&255'] if decode else ['a>>2', '(a<<4|b>>4)&63', '(b<<2|c>>6)&63', 'c&63']
        nin = 4 if decode else 3; R = range(64 if decode else 256)
        done = set(); bad = set()
        for inn, out, i, tr in s.rows:
            ins = list(inn)
            if len(ins) != nin or len(set(ins)) != nin:
                continue
            if decode:
                names = {x: 'abcd'[k] for k, x in enumerate(ins)}
            else:       # stored as signed characters
                names = {x: 'abc'[k] for k, x in enumerate(ins)}
            for k, t in enumerate(out):
                e = pyexpr(t, names)
                if e is None or (e, k) in done:
                    continue
                done.add((e, k))
                ctx.count('base64 expressions compared: ' + name)
                vs = [v for v in 'abcd'[:nin] if v in ref[k]]
                # a term may use inputs it should not: vary those a little as well
                extra = [v for v in 'abcd'[:nin] if v in e.replace('and', '') and v not in vs]
                mask = 255 if decode else 63
                g = eval('lambda %s: ((%s)&255)!=(%s)' % (','.join('abcd'[:nin]), e, ref[k]))
                hit = None
                one = [None] * nin
                def loop(vars_, vals):
                    if not vars_:
                        v = [vals.get(x, 0) for x in 'abcd'[:nin]]
                        return v if g(*v) else None
                    for x in (R if vars_[0] in vs else (0, 21, R[-1])):
                        vals[vars_[0]] = x if decode or x < 128 else x - 256
                        h = loop(vars_[1:], vals)
                        if h:
                            return h
                    return None
                # the reference is in unsigned bytes
                if not decode:
                    g0 = g
                    rr = eval('lambda %s: %s' % (','.join('abcd'[:nin]), ref[k]))
                    ff = eval('lambda %s: (%s)&255' % (','.join('abcd'[:nin]), e))
                    g = lambda *v: ff(*v) != rr(*[x & 255 for x in v])
                hit = loop(vs + extra, {})
                if hit and k not in bad:
                    bad.add(k)
                    ctx.flag(f, i, 'base64: byte %d put out for the input group %s is wrong' % (k + 1, hit), tr)
        if not decode:
            for r, n, i, tr in s.pads:
                ctx.count('base64 padding compared')
                if n != (0, 2, 1)[r]:
                    ctx.flag(f, i, 'base64: %d padding characters for a length that leaves %d over (expected %d)' % (n, r, (0, 2, 1)[r]), tr); break


class DupSim(RecSim):
    """the raw text goes out only where quoting said there is nothing to quote."""
    limit = 40

    def reset(s):
        s.bad = []; s.n = 0

    def quoted(s, st):
        return any(s.interval(st, t[0]) == (0, 0) for k, p, t in s.recs(st, 'q'))

    def on_call(s, st, i, args):
        c = i.callee
        if c in ('onion_response_write', 'onion_response_write0', 'onion_response_printf', 'onion_low_strdup', 'strdup'):
            for a in args[(0 if 'dup' in c else 1):]:
                if a == ('arg', s.data):
                    s.n += 1
                    if not s.quoted(st):
                        s.bad.append((i, s.trace(st)))
        return None

    def after_call(s, st, i, args, ret):
        if i.callee == 'onion_html_quote' and args and args[0] == ('arg', s.data) and ret is not None:
            s.rec(st, ('q',), (), (ret,))


def dup_rules(ctx, P, nn):
    for name, data in (('onion_response_write_html_safe', 1), ('onion_html_quote_dup', 0)):
        if name not in P.funcs:
            continue
        s = DupSim(P, P.f(name)); s.nonnull = nn; s.data = data; s.reset(); s.run()
        ctx.count('unquoted text passed on: ' + name, s.n)
        for i, tr in s.bad[:1]:
            ctx.flag(s.fn, i, 'passes text on unquoted without onion_html_quote having found nothing to quote', tr)


SINK = {'onion_response_printf': 1, 'onion_response_vprintf': 1, 'onion_response_write0': 1, 'onion_response_write': 1}
CLEAN = {'onion_html_quote_dup', 'onion_html_quote', 'onion_quote_new'}
FILL = {'snprintf': 0, 'sprintf': 0, 'strcpy': 0, 'strncpy': 0, 'strcat': 0, 'strncat': 0, 'memcpy': 0, 'llvm.memcpy.p0.p0.i64': 0, 'realpath': 1, 'vsnprintf': 0}


class Taint:
    """where the bytes behind a pointer come from, per function (flow-insensitive)."""
    def __init__(s, P, f):
        s.P = P; s.f = f; s.memo = {}
        s.users = {}
        for i in f.insts():
            if 'callee' in i.d:
                for o in i.ops:
                    b = s.strip(o)
                    s.users.setdefault(b, []).append(i)

    def strip(s, o):
        n = 0
        while o[0] == 'v' and n < 20:
            j = s.f.inst.get(o[1])
            if j is None or j.op not in ('getelementptr', 'bitcast'):
                break
            o = j.ops[0]; n += 1
        return tuple(o[:2])

    def of(s, o, seen=frozenset()):
        """set of reasons why the text is not safe."""
        if o[0] in ('g', 'c', 'f', 'null', 'u'):
            return set()
        if o[0] != 'v':
            return set()
        if o[1] in seen:
            return set()
        seen = seen | {o[1]}
        j = s.f.inst.get(o[1])
        if j is None:
            a = s.f.args[o[1]] if o[1] < len(s.f.args) else {}
            return {'its argument %s' % (a.get('name') or o[1])} if a.get('ty') == 'ptr' else set()
        if j.op == 'phi':
            return set().union(*[s.of(x[0], seen) for x in j.ops])
        if j.op == 'select':
            return s.of(j.ops[1], seen) | s.of(j.ops[2], seen)
        if j.op in ('getelementptr', 'bitcast'):
            lab = s.f.label(o)
            if lab and lab[1] in ('d_name',):
                return {'a file name'}
            return s.of(j.ops[0], seen)
        if j.op == 'load':
            lab = s.f.label(j.ops[0])
            if lab and lab[1] in ('fullpath', 'path', 'session_id', 'd_name'):
                return set() if lab[1] == 'session_id' else {'the request path'}
            return set()
        if j.op == 'alloca':
            r = set()
            for u in s.users.get(('v', j.id), []):
                c = u.callee
                if c in FILL and s.strip(u.ops[FILL[c]]) == ('v', j.id):
                    for k, x in enumerate(u.ops):
                        if k != FILL[c]:
                            r |= s.of(x, seen)
            return r
        if 'callee' in j.d:
            c = j.callee
            if c in CLEAN:
                return set()
            if c in ('onion_request_get_path', 'onion_request_get_fullpath', 'onion_request_get_header', 'onion_request_get_query', 'onion_request_get_post', 'onion_request_get_cookie', 'onion_request_get_queryd',
                     'onion_dict_get', 'onion_request_get_file'):
                return {'the request (%s)' % c}
            if c == 'onion_block_data':
                r = set()
                for u in s.users.get(s.strip(j.ops[0]), []):
                    if u.callee in ('onion_block_add_str', 'onion_block_add_data', 'onion_json_quote_add'):
                        x = s.of(u.ops[1], seen)
                        if u.callee == 'onion_json_quote_add' and not s.html:
                            x = set()
                        r |= x
                return r
            if c in ('onion_low_strdup', 'strdup', 'basename', 'strrchr', 'strchr', 'strstr'):
                return s.of(j.ops[0], seen)
        return set()


def html_functions(P):
    """functions of the library's own handlers that write pages."""
    from gates import handler_of
    todo = []
    for c in ('onion_handler_export_local_new', 'onion_internal_status', 'onion_handler_webdav', 'onion_handler_auth_pam', 'onion_handler_static', 'onion_handler_opack', 'onion_handler_path'):
        if c in P.funcs:
            try:
                todo += handler_of(P, c)
            except Exception:
                pass
    todo += [f for n, f in P.funcs.items() if n.startswith('onion_handler_export_local_header') or n.startswith('onion_handler_export_local_footer')]
    todo += [f for n, f in P.funcs.items() if n in ('onion_default_error', 'onion_listen_point_request_default_error')]
    seen = {}
    while todo:
        f = todo.pop()
        if f.name in seen:
            continue
        seen[f.name] = f
        for i in f.insts():
            for k, o in enumerate(i.ops):
                o = o[0] if i.op == 'phi' else o
                if o[0] == 'f' and o[1] in P.funcs:
                    todo.append(P.funcs[o[1]])
            if i.callee and i.callee in P.funcs and 'handlers/' in (i.file or ''):
                todo.append(P.funcs[i.callee])
    return [f for f in seen.values()]


def pages(ctx, P):
    for f in html_functions(P):
        if not any('handlers/' in (i.file or '') or 'onion.c' in (i.file or '') for b in f.blocks for i in b):
            continue
        T = Taint(P, f); T.html = True
        for i in f.calls():
            if i.callee in SINK:
                ops = i.ops[1:]
                ctx.count('page writes')
                for o in ops:
                    r = T.of(o)
                    if r:
                        ctx.flag(f, i, 'writes %s into the page without HTML quoting' % ', '.join(sorted(r)))


def base_of(f, o, seen=None, loops=None):
    """(header phi, constant added) behind a size expression."""
    if o[0] == 'c':
        return None, o[1]
    if o[0] != 'v':
        return None
    j = f.inst.get(o[1])
    if j is None:
        return None
    if j.op in ('zext', 'sext', 'trunc'):
        return base_of(f, j.ops[0])
    if j.op in ('add', 'sub') and j.ops[1][0] == 'c':
        r = base_of(f, j.ops[0])
        return r and (r[0], r[1] + (j.ops[1][1] if j.op == 'add' else -j.ops[1][1]))
    if j.op == 'phi':
        if len(j.ops) == 1:
            return base_of(f, j.ops[0][0])
        return j, 0
    return None


def size_rules(ctx, P, nn, per):
    """what the size computation adds per character is at least what is put out for it."""
    for counter, inp, writer, extra in (('onion_html_quote', 0, 'onion_html_quote', 1), ('onion_quote_new', 0, 'onion_quote', 1), ('onion_c_quote_new', 0, 'onion_c_quote', 3)):
        dec = per[writer][1]
        f = P.f(counter)
        if counter == writer:
            s = per[writer][0]
        else:
            s = sim(P, nn, counter, inp, None)
        for m in [i for i in f.calls() if i.callee in ('onion_low_scalar_malloc', 'onion_low_malloc', 'malloc')]:
            r = base_of(f, m.ops[0])
            if not r or r[0] is None:
                ctx.count('size not decided: ' + counter); continue
            ph, base = r
            h = ph.bb
            if h not in s.loopbody:
                ctx.count('size not decided: ' + counter); continue
            init = [v for v, pb in ph.ops if pb not in s.loopbody[h]]
            if len(init) != 1 or init[0][0] != 'c':
                ctx.count('size not decided: ' + counter); continue
            base += init[0][1]
            ctx.count('size counters')
            if base < extra:
                ctx.flag(f, m, 'allocates %d bytes besides the characters, %d are written' % (base, extra), [])
            bad = False
            for row in s.rows:
                if row.at.bb not in s.loopbody[h] or not row.exact or ph.id not in row.inc:
                    continue
                for b in row.cls:
                    need = max([len(o) for o, _ in dec.get(b, [])] or [0])
                    if row.inc[ph.id] < need and not bad:
                        bad = True
                        ctx.flag(f, row.at, 'counts %d bytes for the character %s, which takes %d when written' % (row.inc[ph.id], show(b), need), row.trace)
                    if need:
                        ctx.count('sizes compared: ' + counter)
