"""P05: what the client sent is found where it belongs: method, path, query, form fields, headers, cookies."""
import os, re, front
from shape import *
from ir import *
from polling import strip, unc, subterms

RQ = 'onion_request_t'; TK = 'onion_token_s'
DUP = {'onion_low_strdup', 'strdup'}


class Parts(Shape):
    limit = 150000
    def __init__(s, P, fn, O):
        Shape.__init__(s, P, fn); s.O = O

    def log(s, st, *e):
        st.ev += (e,)

    def step(s, st, i):
        if i.op == 'getelementptr' and i.d.get('voff'):
            o, off = s.addr(s.val(st, i.ops[0]))
            idx = tuple((unc(s.val(st, tuple(v))), m) for v, m in i.d['voff'])
            c = i.d.get('off', 0)
            if all(x[0] == 'c' for x, m in idx):
                c += off + sum(x[1] * m for x, m in idx)
                st.env[i.id] = ('p', o, c) if c else o
                return [st]
            o = ('idx', ('p', o, off) if off else o, idx)
            st.env[i.id] = ('p', o, c) if c else o
            return [st]
        if i.op == 'store':
            a = s.addr(s.val(st, i.ops[1])); v = s.val(st, i.ops[0])
            s.load(st, a)
            st.heap[a] = v
            if a[0][0] != 'al':
                s.log(st, 'store', a[0], a[1], v, i)
            return [st]
        if 'callee' in i.d and i.callee and (i.callee.startswith('llvm.mem') or i.callee in ('memcpy', 'memmove')) and 'cpy' in i.callee + 'cpy' * (i.callee == 'memmove' or 'memmove' in i.callee):
            args = [s.val(st, o) for o in i.ops]
            if args[2][0] != 'c':
                o = s.addr(args[0])[0]
                while o[0] in ('idx', 'p'):
                    o = o[1]
                for k in [k for k in st.heap if k[0] == o]:
                    del st.heap[k]
                s.log(st, 'copy', args[0], args[1], args[2], i)
                st.env[i.id] = args[0]
                return [st]
        return Shape.step(s, st, i)

    def on_call(s, st, i, n, args):
        if n is None:
            v = s.val(st, i.calleev) if i.calleev else ('u', 0)
            if v[0] == 'f' and v[1][0] == 'g' and v[1][1] == 'onion_log':
                return [(st, NUL)]
            s.log(st, 'cb', v, tuple(args), i)
            return [(st, ('call', i.id))]
        if n in DUP:
            return [(st, ('dup', args[0], i.id))]
        if n == 'onion_dict_new':
            return [(st, ('new', i.id))]
        if n in ('strcmp', 'strcasecmp'):
            return [(st, ('cmp', args[0], args[1], n))]
        if n in ('strchr', 'strchrnul', 'strstr', 'strpbrk'):
            return [(st, (n, args[0], args[1]))]
        s.log(st, 'call', n, tuple(args), i)
        if n in ('onion_request_get_header',):
            return [(st, ('hdr', args[0], args[1]))]
        if n == 'onion_dict_get':
            return [(st, ('get', args[0], args[1]))]
        return None

    def possible(s, st, asg):
        for k, v in st.cond.items():
            if k[0] == 'icmp':
                r = ev(k, asg)
                if r is not None and bool(r) != v:
                    return False
        for k, v in st.null.items():
            if k in asg and (asg[k] == 0) != v:
                return False
        return True

    def isnull(s, st, v):
        if v[0] in ('dup', 'idx'):
            return False
        return Shape.isnull(s, st, v)


class Run:
    def __init__(s, ctx):
        s.ctx = ctx; s.P = ctx.prog; s.seen = set(); s.undecided = []; s.checked = set(); s.paths = s.obl = 0
        f = {x['n']: x['o'] for x in s.P.structs[RQ]['fields']}
        s.R = f
        s.T = {x['n']: x['o'] for x in s.P.structs[TK]['fields']}
        s.memo = {}

    def bad(s, t, i, msg):
        k = (t.fn.name, msg)
        if k in s.seen:
            return
        s.seen.add(k)
        s.ctx.violation(dict(msg='%s%s' % (msg, ' at ' + i.where() if i is not None else ' in ' + t.fn.name), where=i.where() if i is not None else t.fn.name, path=[]))

    def shape(s, name):
        if name in s.memo:
            return s.memo[name]
        f = s.P.funcs.get(name)
        s.ctx.need(f is not None, name + ' not found')
        t = Parts(s.P, f, None)
        try:
            t.run()
        except Undecided as e:
            s.undecided.append('%s: %s' % (name, e)); t = None
        else:
            t.paths = [x for x in t.paths if not any(k[0] == 'icmp' and k[1] in ('eq', 'ne') and k[2][0] in ('dup', 'idx', 'p') and k[3] in (NUL, ('c', 0)) and v == (k[1] == 'eq') for k, v in x[0].cond.items())]
            s.paths += len(t.paths); s.checked.add(name)
        s.memo[name] = t
        return t

    def text(s, v):
        try:
            r = s.P.cstr(v)
        except Exception:
            return None
        return r.decode('latin1') if isinstance(r, bytes) else r

    # ------------------------------------------------------------------ pairs
    def loop_of(s, t, callee):
        hs = [(len(body), h) for h, body in t.loops.items() if any('callee' in i.d and i.callee == callee for q in body for i in t.fn.blocks[q])]
        return min(hs)[1] if hs else None

    def marks(s, t, H):
        """per path through the loop at H: (state, kind, inst, inits, tails, events of the iteration)"""
        ids = {i.id for i in t.fn.blocks[H] if i.op == 'phi'}
        out = []
        for st, kind, v, i in t.paths:
            ks = [k for k, e in enumerate(st.ev) if e[0] == 'loop' and e[1] in ids]
            if not ks:
                continue
            if kind == 'back' and i.bb != H:
                continue                                     # a loop inside or after
            init = {('it', e[1]): e[2] for e in st.ev if e[0] == 'loop' and e[1] in ids}
            tail = {('it', e[1]): e[2] for e in st.ev if e[0] == 'tail' and e[1] in ids} if kind == 'back' else None
            out.append((st, kind, i, init, tail, st.ev[ks[-1] + 1:], st.ev[:ks[0]]))
        return out

    def roles(s, t, M):
        P = None
        for x in M[0][3]:
            ts = [m[4][x] for m in M if m[4] is not None and x in m[4]]
            if ts and all(v == ('p', x, 1) for v in ts):
                P = x
        adds = [e for m in M for e in m[5] if e[0] == 'call' and e[1] == 'onion_dict_add']
        K = {e[2][1] for e in adds}
        V = {e[2][2] for e in adds if e[2][2][0] == 'it'}
        if len(V) > 1:
            V -= K
        return P, K, V

    def pairs(s, name, field, what, start, decoded=True):
        """key=value&... split into a dictionary"""
        t = s.shape(name)
        if not t:
            return
        H = s.loop_of(t, 'onion_dict_add')
        if H is None:
            s.undecided.append('%s: no loop that adds to a dictionary' % name); return
        M = s.marks(t, H)
        if not any(m[1] == 'back' for m in M):
            s.undecided.append('%s: loop not understood' % name); return
        P, K, V = s.roles(t, M)
        if P is None or len(K) != 1 or len(V) != 1 or next(iter(K))[0] != 'it':
            s.undecided.append('%s: variables of the loop not understood' % name); return
        K, V = next(iter(K)), next(iter(V)); C = ('f', P, 0)
        # the variable that tells whether a value has begun
        S = None
        for x in M[0][3]:
            if x in (P, K) or M[0][3][x][0] not in ('c', 'n'):
                continue
            b = {m[4][x] for m in M if m[4] is not None and any(e[0] == 'store' and e[1] == P for e in m[5]) and t.possible(m[0], {C: 61}) and not any(e[0] == 'call' and e[1] == 'onion_dict_add' for e in m[5])}
            if len(b) == 1:
                y = next(iter(b))
                if y[0] == 'c' and y != M[0][3][x] or y == ('p', P, 1) and M[0][3][x] == NUL:
                    if S is None or y[0] == 'c':
                        S = (x, 0 if M[0][3][x] == NUL else M[0][3][x][1], y[1] if y[0] == 'c' else 4096, y)
        if S is None:
            s.undecided.append('%s: state of the loop not understood' % name); return
        S, s0, s1, t1 = S
        s0v = M[0][3][S]
        for st, kind, i, init, tail, evs, pre in M:
            if kind == 'back' or kind == 'ret':
                start(t, st, i, init[P], init[K], pre)
            adds = [(k, e) for k, e in enumerate(evs) if e[0] == 'call' and e[1] == 'onion_dict_add']
            unq = [(k, e) for k, e in enumerate(evs) if e[0] == 'call' and e[1] == 'onion_unquote_inplace']
            cuts = [(k, e) for k, e in enumerate(evs) if e[0] == 'store' and e[1] == P]
            oth = [e for e in evs if e[0] == 'store' and e[1] in (K, V) or e[0] == 'store' and e[1] == P and e[2] != 0]
            for sv in (s0, s1):
                for ch in ((38, 61, 97, 37, 43, 59, 32, 63) if kind == 'back' else (0,)):
                    kc = 97
                    if not t.possible(st, {S: sv, C: ch, ('f', K, 0): kc}) or sv == s1 and st.null.get(V) is True:
                        continue
                    s.obl += 1
                    end = ch in (0, 38)
                    if oth:
                        s.bad(t, oth[0][-1], '%s: other text than a separator is overwritten' % what)
                    if not end and adds:
                        s.bad(t, adds[0][1][-1], '%s: a field ends at a character that is no separator' % what); continue
                    if end and len(adds) != 1:
                        s.bad(t, i, '%s: a field is %s' % (what, 'lost' if not adds else 'added twice')); continue
                    cut = ch == 38 or ch == 61 and sv == s0
                    if cut and (len(cuts) != 1 or cuts[0][1][3] != ('c', 0)):
                        s.bad(t, i, '%s: a field is not ended at its separator' % what); continue
                    if not cut and cuts:
                        s.bad(t, cuts[0][1][-1], '%s: text that is no separator is overwritten' % what); continue
                    if adds:
                        k, e = adds[0]; d, key, val, fl = e[2][:4]
                        if t.load(st, (('arg', 0), s.R[field])) != d:
                            s.bad(t, e[-1], '%s: a field is added to another dictionary' % what)
                        if key != K:
                            s.bad(t, e[-1], '%s: a field is added under another name' % what)
                        if sv == s1 and val != V or sv == s0 and s.text(val) != '':
                            s.bad(t, e[-1], '%s: a field is added with another value' % what)
                        if fl != ('c', 0) and not (fl[0] == 'c' and not fl[1] & 0x46 & ~0x36 and (fl[1] & 0x10 or not fl[1] & 2) and (fl[1] & 0x20 or not fl[1] & 4)):
                            s.bad(t, e[-1], '%s: a field is added as something that is to be released' % what)
                        if cuts and cuts[0][0] > k:
                            s.bad(t, e[-1], '%s: a field is added before it is ended' % what)
                        want = [K] + ([V] if sv == s1 else [])
                        got = [x[2][0] for j, x in unq]
                        if sorted(map(repr, got)) != sorted(map(repr, want if decoded else [])):
                            s.bad(t, e[-1], '%s: name or value of a field is not decoded exactly once' % what)
                        elif any(j > k for j, x in unq) and e[2][3][0] == 'c' and e[2][3][1] & 0x30:
                            s.bad(t, e[-1], '%s: a field is decoded after being added' % what)
                        elif cuts and any(j < cuts[0][0] for j, x in unq if sv == s0 or x[2][0] != K):
                            s.bad(t, e[-1], '%s: a field is decoded together with what follows it' % what)
                        elif got and s.keyed_after(unq, k, K):
                            s.bad(t, e[-1], '%s: the name of a field is decoded after being added' % what)
                    elif unq:
                        s.bad(t, unq[0][1][-1], '%s: text is decoded before the field ends' % what)
                    if tail is None:
                        continue
                    nk, nv, ns = tail.get(K, K), tail.get(V, V), tail.get(S, S)
                    if ch == 38:
                        if nk != ('p', P, 1):
                            s.bad(t, i, '%s: the next name does not begin after the separator' % what)
                        if ns != s0v and not (ns == S and sv == s0):
                            s.bad(t, i, '%s: the next field begins as if it had a value already' % what)
                    else:
                        if nk != K:
                            s.bad(t, i, '%s: the name of a field is forgotten' % what)
                        if ch == 61 and sv == s0:
                            if nv != ('p', P, 1) or ns not in (t1,):
                                s.bad(t, i, '%s: the value does not begin after the equals sign' % what)
                        else:
                            if sv == s1 and nv != V:
                                s.bad(t, i, '%s: the value of a field is forgotten' % what)
                            if ns != S and not (ns[0] == 'c' and ns[1] == sv):
                                s.bad(t, i, '%s: a value begins or ends at a character that is no separator' % what)

    def keyed_after(s, unq, k, K):
        return any(j > k and x[2][0] == K for j, x in unq)

    # ------------------------------------------------------------------ query
    def query(s):
        full = s.R['fullpath']
        def start(t, st, i, p0, k0, pre):
            if p0 != k0:
                s.bad(t, i, 'query: the first name does not begin with the query')
            ok = False
            if p0[0] == 'p' and p0[2] == 1:
                q = p0[1]
                cut = [k for k, e in enumerate(pre) if e[0] == 'store' and e[1] == q and e[2] == 0 and e[3] == ('c', 0)]
                unq = [k for k, e in enumerate(pre) if e[0] == 'call' and e[1] == 'onion_unquote_inplace']
                fp = t.load(st, (('arg', 0), full))
                if q[0] == 'it':
                    ok = st.cond.get(('icmp', 'eq', ('cast', 'sext', ('f', q, 0), 32), ('c', 63))) is True or not t.possible(st, {('f', q, 0): 97}) and t.possible(st, {('f', q, 0): 63}) or \
                        any(k[0] == 'icmp' and v for k, v in st.cond.items() if ev(k, {('f', q, 0): 63}) is not None)
                    init = [e[2] for e in pre if e[0] == 'loop' and ('it', e[1]) == q]
                    ok = ok and init and init[0] == fp
                elif q[0] in ('strchr',):
                    ok = q[1] == fp and q[2] == ('c', 63)
                if ok and not cut:
                    s.bad(t, i, 'query: the path is not ended where the query begins')
                elif ok and (len(unq) != 1 or pre[unq[0]][2][0] != fp):
                    s.bad(t, i, 'the path is not decoded exactly once')
                elif ok and cut and unq[0] < cut[0]:
                    s.bad(t, pre[unq[0]][-1], 'the query is decoded before it is split')
            if not ok:
                s.undecided.append('query: start')
                if p0[0] not in ('p',):
                    s.bad(t, i, 'query: the first name does not begin after the question mark')
        s.pairs('parse_headers_URL', 'GET', 'query', start)
        t = s.shape('parse_headers_URL')
        if not t:
            return
        # the walk to the question mark, and paths without query
        H = None
        for st, kind, v, i in t.paths:
            if kind == 'ret':
                fp = t.load(st, (('arg', 0), full))
                w = [e for e in st.ev if e[0] == 'store' and e[1] == ('arg', 0) and e[2] == full]
                nx = [e for e in st.ev if e[0] == 'call' and e[1].startswith('parse_headers')]
                if not nx:
                    if w and not any(e[0] == 'cb' for e in st.ev):
                        pass
                    continue
                if not w or w[-1][3][0] != 'dup' or strip(w[-1][3][1]) != ('f', ('arg', 0), s.R['parser_data']):
                    s.bad(t, i, 'the path of the request is not the one in its first line')
                    continue
                unq = [e for e in st.ev if e[0] == 'call' and e[1] == 'onion_unquote_inplace' and e[2][0] == fp]
                if st.null.get(fp) is True or any(k == ('f', ('arg', 0), s.R['GET']) and z is False for k, z in st.null.items()) and not unq:
                    continue                      # already parsed
                if len(unq) != 1:
                    s.bad(t, i, 'the path is not decoded exactly once')
        for st, kind, v, i in t.paths:
            if kind != 'back':
                continue
            for e in st.ev:
                if e[0] == 'tail' and any(x[0] == 'loop' and x[1] == e[1] and strip(x[2])[0] in ('dup',) for x in st.ev):
                    p = ('it', e[1])
                    if e[2] != ('p', p, 1):
                        s.bad(t, i, 'query: the search for the question mark skips characters')
                    elif t.possible(st, {('f', p, 0): 63}):
                        s.bad(t, i, 'query: a question mark is passed over')
                    elif not t.possible(st, {('f', p, 0): 97}):
                        s.bad(t, i, 'query: the path is cut at a character that is no question mark')

    def urlencoded(s):
        T = s.T
        def start(t, st, i, p0, k0, pre):
            tok = ('f', ('arg', 0), s.R['parser_data'])
            if p0 != k0 or strip(p0) != ('f', tok, T['extra']):
                s.bad(t, i, 'form: the fields are not read from the body of the request')
        s.pairs('parse_POST_urlencode', 'POST', 'form', start)

    # ------------------------------------------------------------------ headers
    def headers(s):
        tok = ('f', ('arg', 0), s.R['parser_data']); n = 0
        for f in s.P.funcs.values():
            if not (f.name.startswith('parse_headers') or f.name.startswith('prepare')):
                continue
            if not any('callee' in i.d and i.callee == 'onion_dict_add' for i in f.insts()) or f.name == 'parse_headers_URL':
                continue
            t = s.shape(f.name)
            if not t:
                continue
            for st, kind, v, i in t.paths:
                for k, e in enumerate(st.ev):
                    if e[0] != 'call' or e[1] != 'onion_dict_add':
                        continue
                    d = strip(e[2][0])
                    if s.text(e[2][1]) is not None:
                        continue                         # a fixed name: a file that was sent
                    n += 1; s.obl += 1
                    if d != ('f', ('arg', 0), s.R['headers']):
                        s.bad(t, e[-1], 'a header is added to another dictionary'); continue
                    if strip(e[2][1]) != ('f', tok, s.T['extra']):
                        s.bad(t, e[-1], 'a header is added under another name')
                    x = e[2][2]
                    if x[0] == 'it':
                        ini = [y[2] for y in st.ev if y[0] == 'loop' and ('it', y[1]) == x]
                        y = ini[0] if ini else x
                    else:
                        y = x
                    if strip(y)[0] == 'idx' and strip(y)[1] == tok and any(z[0] == 'call' and s.spaces(t, z) for z, m in strip(y)[2]):
                        y = tok
                    if strip(y) != tok and strip(y) != ('p', tok, s.T['str']):
                        s.bad(t, e[-1], 'a header is added with another value')
                    fl = e[2][3]
                    if fl[0] != 'c' or fl[1] & 0x24 != 0x24 or not (fl[1] & 0x36 == 0x36 or fl[1] & 2):
                        s.bad(t, e[-1], 'a header is not kept apart from the buffer it was read in')
                    dec = [y for y in st.ev[:k] if y[0] == 'call' and 'unquote' in y[1]]
                    if dec:
                        s.bad(t, dec[0][-1], 'a header is decoded')
                    if st.heap.get((strip_obj(st, tok), s.T['extra'])) is None and not any(y[0] == 'store' and y[2] == s.T['extra'] for y in st.ev[k:]) and fl[0] == 'c' and not fl[1] & 0x10:
                        s.bad(t, e[-1], 'the name of a header is kept for the next one')
                if kind == 'back':
                    for e in st.ev:
                        if e[0] == 'tail' and any(x[0] == 'loop' and x[1] == e[1] and strip(x[2]) in (tok, ('p', tok, s.T['str'])) for x in st.ev):
                            p = ('it', e[1])
                            if any(t.possible(st, {('f', p, 0): c}) for c in (97, 61, 44)) or e[2] != ('p', p, 1):
                                s.bad(t, i, 'characters at the beginning of a header value are lost')
        if not n:
            s.undecided.append('headers: no place found where they are added')
        # the name
        t = s.shape('parse_headers_KEY')
        if t:
            m = 0
            for st, kind, v, i in t.paths:
                if kind != 'ret' or not any(e[0] == 'call' and e[1] == 'parse_headers_VALUE' for e in st.ev):
                    continue
                m += 1
                w = [e for e in st.ev if e[0] == 'store' and e[2] == s.T['extra'] and strip(e[1]) == tok]
                if not w or w[-1][3][0] != 'dup' or strip(w[-1][3][1]) != tok:
                    s.bad(t, i, 'the name of a header is not the one that was read')
            if not m:
                s.undecided.append('header names')

    def spaces(s, t, z):
        """the call is strspn() over blanks"""
        i = t.fn.inst.get(z[1])
        x = s.text(i.ops[1]) if i is not None and i.callee == 'strspn' else None
        return x is not None and set(x) <= set(' \t\r\n')

    # ------------------------------------------------------------------ the characters themselves
    def tokens(s):
        tok = ('f', ('arg', 0), s.R['parser_data']); POS = ('f', tok, s.T['pos'])
        blank = {32, 9, 10, 13}
        for name, sep, drop in (('parse_headers_GET', blank, ()), ('parse_headers_URL', blank, ()), ('parse_headers_VERSION', blank, ()), ('parse_headers_KEY', {58, 10}, (13,)), ('parse_headers_VALUE', {10}, ())):
            t = s.shape(name)
            if not t:
                continue
            c = set()
            for st, kind, v, i in t.paths:
                for e in st.ev:
                    if e[0] == 'loop' and e[2][0] == 'f' and e[2][1][0] == 'idx' and strip(e[2][1][1])[:2] == ('f', ('arg', 1)):
                        c.add(('it', e[1]))
            if len(c) != 1:
                s.undecided.append(name + ': characters'); continue
            c = next(iter(c)); H = t.fn.inst[c[1]].bb
            place = ('idx', tok, ((POS, 1),)); before = ('idx', tok, ((('bin', 'sub', POS, ('c', 1)), 1),)); n = 0
            for st, kind, i, init, tail, evs, pre in s.marks(t, H):
                asg = {x: y[1] for x, y in init.items() if y[0] == 'c'}
                for ch in (97, 90, 45, 61, 63, 37, 46, 44, 59, 58, 32, 9, 13, 10, 34, -61):
                    a = dict(asg); a.update({c: ch, POS: 5})
                    if not t.possible(st, a):
                        continue
                    n += 1; s.obl += 1
                    w = [e for e in evs if e[0] == 'store' and e[1][0] == 'idx' and strip(e[1][1]) == tok and strip(e[3]) == c]
                    go = kind == 'ret' and any(e[0] in ('call', 'cb') and e[1] != 'strncpy' for e in evs)
                    if ch in sep:
                        if kind == 'back':
                            s.bad(t, i, 'what the client sent is read on past its end (%r)' % chr(ch))
                        elif go:
                            z = [e for e in evs if e[0] == 'store' and e[1][0] == 'idx' and strip(e[1][1]) == tok and e[3] == ('c', 0)]
                            if not z:
                                s.bad(t, i, 'what the client sent is not ended where it ends')
                            elif at(z[0][1], POS) != 5 and not (at(z[0][1], POS) == 4 and any(y and k[0] == 'icmp' and k[1] == 'eq' and k[3] == ('c', 13) for k, y in st.cond.items())):
                                s.bad(t, z[0][-1], 'the end of what the client sent is lost')
                        continue
                    if kind != 'back':
                        if go:
                            s.bad(t, i, 'what the client sent is cut at %r' % (chr(ch) if ch > 0 else 'a byte over 127'))
                            continue
                        if ev(v_of(st, t), {}) not in (1, None):
                            s.bad(t, i, 'a request is refused because of a character (%r)' % (chr(ch) if ch > 0 else 'a byte over 127'))
                            continue
                    elif tail is not None and c in tail and not any(y[0] == 'f' and y[1][0] == 'idx' for y in subterms(tail[c])):
                        s.bad(t, i, 'a character the client sent is replaced')
                    if ch in drop:
                        continue
                    if not w:
                        s.bad(t, i, 'a character the client sent is lost (%r)' % (chr(ch) if ch > 0 else 'a byte over 127'))
                    elif at(w[0][1], POS) not in (5, None):
                        s.bad(t, w[0][-1], 'a character the client sent is kept at another place')
                    else:
                        x = [e for e in evs if e[0] == 'store' and strip(e[1]) == tok and e[2] == s.T['pos']]
                        if not x or ev(x[-1][3], {POS: 5}) != 6:
                            s.bad(t, w[0][-1], 'a character the client sent is kept at another place')
            if not n:
                s.undecided.append(name + ': characters')
        # continuation lines
        for f in s.P.funcs.values():
            if not f.name.startswith('parse_headers_VALUE_') or not any('callee' in i.d and i.callee == 'parse_headers_VALUE' for i in f.insts()) or f.name not in s.P.funcs:
                continue
            t = s.shape(f.name)
            if not t:
                continue
            for st, kind, v, i in t.paths:
                if kind != 'ret' or not any(e[0] == 'call' and e[1] == 'parse_headers_VALUE' for e in st.ev):
                    continue
                s.obl += 1
                w = [e for e in st.ev if e[0] == 'store' and e[1][0] == 'idx' and strip(e[1][1]) == tok]
                x = [e for e in st.ev if e[0] == 'store' and strip(e[1]) == tok and e[2] == s.T['pos']]
                if not x:
                    back = [e for e in st.ev if e[0] == 'store' and e[1] == ('arg', 1)]
                    if back:
                        s.undecided.append(f.name)
                    continue
                k = ev(x[-1][3], {POS: 5})
                if k is None:
                    s.undecided.append(f.name); continue
                if len(w) != k - 5 or not w or strip(w[-1][3])[0] != 'f' or w[0][3] not in (('c', 32), ('c', 9)):
                    s.bad(t, i, 'a character of a header that goes on in the next line is lost')

    # ------------------------------------------------------------------ first line
    def firstline(s):
        fl = ('f', ('arg', 0), s.R['flags']); tok = ('f', ('arg', 0), s.R['parser_data'])
        t = s.shape('parse_headers_GET'); n = 0
        g = s.P.globals.get('onion_request_methods')
        names = []
        if g and g.get('init') and g['init'][0] == 'a':
            for x in g['init'][1:]:
                x = tuple(x)
                names.append(s.text(x) if x[0] == 'g' else None)
        if t and names:
            for st, kind, v, i in t.paths:
                if kind != 'ret' or not any(e[0] == 'call' and e[1] == 'parse_headers_URL' for e in st.ev):
                    continue
                w = [e for e in st.ev if e[0] == 'store' and e[1] == ('arg', 0) and e[2] == s.R['flags']]
                hit = [k for k, z in st.sign.items() if z == frozenset((0,)) and k[0] == 'cmp']
                past = [k for k, z in st.cond.items() if k[0] == 'icmp' and z and ev(k, {x: 15 for x in syms(k)}) == 0 and ev(k, {x: 16 for x in syms(k)}) == 1]
                if past and None in names[:16]:
                    continue                             # the table ends earlier
                n += 1
                if not hit or not w:
                    s.bad(t, i, 'a request goes on without a known method'); continue
                h = hit[-1]; a = [x for x in h[1:3] if strip(x) == tok]; b = [x for x in h[1:3] if strip(x) != tok]
                if len(a) != 1 or len(b) != 1:
                    s.bad(t, i, 'the method is not compared with the known ones'); continue
                if len(h) > 3 and h[3] != 'strcmp':
                    s.bad(t, i, 'methods are compared without case')
                ix = {x for y in subterms(b[0]) for x in [y] if x[0] == 'it'}
                if len(ix) != 1:
                    s.undecided.append('method'); continue
                ix = next(iter(ix))
                for j in (0, 3, 9):
                    for old in (0, 0xA5, 0x10):
                        r = ev(w[-1][3], {ix: j, fl: old, ('cast', 'sext', ix, 64): j})
                        if r is not None and (r & 0xF) != j:
                            s.bad(t, w[-1][-1], 'the method kept is not the one of the request')
                        if r is not None and (r & ~0xF) != (old & ~0xF):
                            s.bad(t, w[-1][-1], 'other flags of the request change with its method')
        if not n:
            s.undecided.append('method')
        # the table of names and the numbers applications use
        hd = re.findall(r'\bOR_([A-Z]+)\s*=\s*(\d+)\s*,', open(os.path.join(front.REPO, 'src/onion/request.h')).read())
        for nm, k in hd:
            if int(k) < 16 and int(k) < len(names):
                if names[int(k)] is not None and names[int(k)] != nm:
                    s.ctx.violation(dict(msg='method %s is taken for %s (onion_request_methods in src/onion/request.c)' % (names[int(k)], nm), where='onion_request_methods', path=[]))
        t = s.shape('parse_headers_VERSION'); n = 0
        if t:
            for st, kind, v, i in t.paths:
                if kind != 'ret' or not any(e[0] == 'call' and e[1].startswith('parse_headers_KEY') for e in st.ev):
                    continue
                cm = [(k, z) for k, z in st.sign.items() if k[0] == 'cmp' and any(s.text(x) == 'HTTP/1.1' for x in k[1:3])]
                if not cm:
                    x = t.load(st, (('arg', 0), s.R['flags']))
                    cm = [(k, None) for k in subterms(x) if k[0] == 'cmp' and any(s.text(y) == 'HTTP/1.1' for y in k[1:3])]
                if not cm:
                    s.bad(t, i, 'the version of a request is not looked at'); continue
                n += 1
                k, z = cm[-1]
                x = t.load(st, (('arg', 0), s.R['flags']))
                for old, sg in ((o, g) for o in (0, 3, 0x101) for g in ((None,) if z is not None else (-1, 0, 1))):
                    r = ev(x, {fl: old} if sg is None else {fl: old, k: sg})
                    if sg is not None:
                        z = (sg,)
                    if r is None:
                        continue
                    if 0 in z and r != old | 0x10:
                        s.bad(t, i, 'a request of version 1.1 is not kept as such')
                    if any(z) and r != old:
                        s.bad(t, i, 'a request of another version is kept as 1.1')
                if not any(strip(y) == tok for y in k[1:3]):
                    s.bad(t, i, 'the version of a request is not looked at')
        if not n:
            s.undecided.append('version')

    # ------------------------------------------------------------------ cookies
    def cookies(s):
        t = s.shape('onion_request_get_cookies_dict')
        if not t:
            return
        ck = s.R['cookies']
        for st, kind, v, i in t.paths:
            if kind == 'ret':
                if strip(v) != strip(t.load(st, (('arg', 0), ck))):
                    s.bad(t, i, 'cookies: another dictionary is given')
        H = s.loop_of(t, 'onion_dict_add')
        M = s.marks(t, H) if H is not None else []
        if not any(m[1] == 'back' for m in M):
            s.undecided.append('cookies'); return
        P, K, V = s.roles(t, M)
        if P is None or len(K) != 1 or len(V) != 1 or next(iter(K))[0] != 'it':
            s.undecided.append('cookies: variables'); return
        K, V = next(iter(K)), next(iter(V)); C = ('f', P, 0)
        if K == V or zero(M[0][3].get(K)) is False or zero(M[0][3].get(V)) is False:
            s.undecided.append('cookies: variables'); return
        for st, kind, i, init, tail, evs, pre in M:
            p0 = init[P]
            if not (p0[0] == 'dup' and (p0[1][0] == 'hdr' and s.text(p0[1][2]) == 'Cookie' or p0[1][0] == 'get' and s.text(p0[1][2]) == 'Cookie' and strip(p0[1][1]) == ('f', ('arg', 0), s.R['headers']))):
                s.bad(t, i, 'cookies: not read from the Cookie header')
            adds = [(k, e) for k, e in enumerate(evs) if e[0] == 'call' and e[1] == 'onion_dict_add']
            cuts = [(k, e) for k, e in enumerate(evs) if e[0] == 'store' and e[1] == P]
            for k, e in enumerate(evs):
                if e[0] == 'call' and 'unquote' in e[1]:
                    s.bad(t, e[-1], 'cookies: a value is changed')
            for kk, vv in ((0, 0), (1, 0), (1, 1)):
                for ch in ((32, 61, 59, 97, 34, 44) if kind == 'back' else (0,)):
                    a = {K: kk * 4096, C: ch}
                    if vv == 0:
                        a[V] = 0
                    if not t.possible(st, a) or vv and st.null.get(V) is True:
                        continue
                    s.obl += 1
                    if (kk, vv) == (1, 1) and ch == 0:
                        # the last one (an empty value may be left out)
                        if not adds and t.possible(st, {K: 4096, C: 0, V: 4200, P: 4300}):
                            s.bad(t, i, 'cookies: the last cookie is lost')
                    want = (kk, vv) == (1, 1) and ch in (59, 0)
                    if adds and not want:
                        s.bad(t, adds[0][1][-1], 'cookies: a cookie ends at a character that is no separator'); continue
                    if want and ch == 59 and len(adds) != 1:
                        s.bad(t, i, 'cookies: a cookie is lost'); continue
                    cut = (kk, vv, ch) in ((1, 0, 61), (1, 1, 59))
                    if cut and (len(cuts) != 1 or cuts[0][1][2] != 0 or cuts[0][1][3] != ('c', 0)):
                        s.bad(t, i, 'cookies: name or value is not ended at its separator'); continue
                    if not cut and cuts:
                        s.bad(t, cuts[0][1][-1], 'cookies: text that is no separator is overwritten'); continue
                    for k, e in adds:
                        if strip(e[2][0]) != strip(t.load(st, (('arg', 0), ck))) or e[2][1] != K or e[2][2] != V:
                            s.bad(t, e[-1], 'cookies: a cookie is added with another name, value or dictionary')
                        if e[2][3] != ('c', 0) and not (e[2][3][0] == 'c' and e[2][3][1] & 0x36 == 0x36):
                            s.bad(t, e[-1], 'cookies: a cookie is added as something that is to be released')
                    if tail is None:
                        continue
                    nk, nv = tail.get(K, K), tail.get(V, V)
                    wk, wv = K, V
                    if (kk, vv) == (0, 0):
                        wk = K if ch == 32 else P
                    elif (kk, vv, ch) == (1, 0, 61):
                        wv = ('p', P, 1)
                    elif (kk, vv, ch) == (1, 1, 59):
                        wk = wv = NUL
                    if (kk, vv, ch) == (0, 0, 59) and nk in (K, NUL):
                        wk = nk
                    if (kk, vv, ch) == (1, 0, 59) and nk == NUL:
                        wk = nk
                    same = lambda x, w, z: x == w or zero(x) is True and (w == NUL or z == 0 and w[0] == 'it')
                    if not same(nk, wk, kk):
                        s.bad(t, i, 'cookies: the name of a cookie does not begin with its first character')
                    if not same(nv, wv, vv):
                        s.bad(t, i, 'cookies: the value of a cookie does not begin after the equals sign')

    # ------------------------------------------------------------------ accessors
    def accessors(s):
        for name, field in (('onion_request_get_header', 'headers'), ('onion_request_get_query', 'GET'), ('onion_request_get_post', 'POST'), ('onion_request_get_file', 'FILES')):
            t = s.shape(name)
            if not t:
                continue
            for st, kind, v, i in t.paths:
                if kind != 'ret':
                    continue
                s.obl += 1
                d = ('f', ('arg', 0), s.R[field])
                if v == ('get', d, ('arg', 1)):
                    continue
                if zero(v) and st.null.get(d) is True:
                    continue
                if zero(v) and any(z and k == ('get', d, ('arg', 1)) for k, z in st.null.items()):
                    continue
                s.bad(t, i, '%s() does not give what the client sent in that part' % name)
        for name, field in (('onion_request_get_header_dict', 'headers'), ('onion_request_get_query_dict', 'GET'), ('onion_request_get_post_dict', 'POST'), ('onion_request_get_file_dict', 'FILES')):
            t = s.shape(name)
            if not t:
                continue
            for st, kind, v, i in t.paths:
                s.obl += 1
                if kind == 'ret' and v != ('f', ('arg', 0), s.R[field]):
                    s.bad(t, i, '%s() does not give what the client sent in that part' % name)
        t = s.shape('onion_request_get_queryd')
        if t:
            for st, kind, v, i in t.paths:
                if kind != 'ret':
                    continue
                qs = [k for k in list(st.null) if k[0] == 'call' or k[0] == 'get']
                found = [k for k in qs if st.null[k] is False]
                if v == ('arg', 2) and found and not any(st.null[k] for k in qs):
                    s.bad(t, i, 'onion_request_get_queryd() gives the default although the client sent a value')
                if v != ('arg', 2) and not found and v[0] not in ('call', 'get'):
                    s.bad(t, i, 'onion_request_get_queryd() does not give what the client sent')

    # ------------------------------------------------------------------ multipart
    def multipart(s):
        n = 0
        M = {x['n']: x['o'] for x in s.P.structs['onion_multipart_buffer_s']['fields']} if 'onion_multipart_buffer_s' in s.P.structs else None
        if M is None:
            s.undecided.append('multipart'); return
        for f in s.P.funcs.values():
            if not f.name.startswith('parse_POST_multipart') or not any('callee' in i.d and i.callee == 'onion_dict_add' for i in f.insts()):
                continue
            for i in f.insts():
                if 'callee' not in i.d or i.callee != 'onion_dict_add':
                    continue
                n += 1; s.obl += 1
                lab = [f.label(f.inst[o[1]].ops[0]) if o[0] == 'v' and o[1] in f.inst and f.inst[o[1]].op == 'load' else None for o in i.ops[:3]]
                d, k, v = lab
                if d not in ((RQ, 'POST'), (RQ, 'FILES')):
                    if d is None:
                        s.undecided.append('multipart dictionary'); continue
                    s.ctx.violation(dict(msg='a part of a form is added to another dictionary at %s' % i.where(), where=i.where(), path=[])); continue
                if k != ('onion_multipart_buffer_s', 'name'):
                    if k is not None:
                        s.ctx.violation(dict(msg='a part of a form is added under another name at %s' % i.where(), where=i.where(), path=[]))
                    continue
                if d[1] == 'POST' and v not in (('onion_multipart_buffer_s', 'data'), ('onion_multipart_buffer_s', 'filename'), None):
                    s.ctx.violation(dict(msg='a part of a form is added with another value at %s' % i.where(), where=i.where(), path=[]))
                if d[1] == 'FILES' and v is not None:
                    s.ctx.violation(dict(msg='an uploaded file is not found under its temporary name at %s' % i.where(), where=i.where(), path=[]))
                if d[1] == 'FILES' and not (i.ops[3][0] == 'c' and i.ops[3][1] & 0x24 == 0x24):
                    s.ctx.violation(dict(msg='the name of an uploaded file is not kept at %s' % i.where(), where=i.where(), path=[]))
        if not n:
            s.undecided.append('multipart')


def v_of(st, t):
    for x, kind, v, i in t.paths:
        if x is st:
            return v
    return ('u', 0)


def at(a, POS):
    x = [ev(y, {POS: 5}) for y, m in strip(a)[2]]
    return x[0] if len(x) == 1 else None


def strip_obj(st, tok):
    return tok


def zero(v):
    if v is None:
        return None
    if v == NUL or v == ('c', 0):
        return True
    return False if v[0] in ('c', 'p', 'dup') else None


def run(ctx):
    r = Run(ctx)
    r.query(); r.urlencoded(); r.headers(); r.tokens(); r.firstline(); r.cookies(); r.accessors(); r.multipart()
    ctx.cover(functions=sorted(r.checked), paths=r.paths, obligations=r.obl, undecided=sorted(set(r.undecided)))
    ctx.need(len(r.checked) >= 6 and r.obl >= 20, 'only %d functions and %d obligations' % (len(r.checked), r.obl))
