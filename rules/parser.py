"""Request parser: progress, buffer bounds, size limits.

The parser is a set of state functions stored in onion_request_t.parser; they are found through that field, token
readers and preparation helpers are inlined into them.  Each is analysed from an arbitrary state with input left.
"""
from gates import *
INF = float('inf')
from par import pmap, fweight

POS = ('sym', 'pos'); SIZE = ('sym', 'size'); DATA = ('sym', 'data'); TOK = ('sym', 'tok'); TPOS = ('sym', 'tpos')
BUF = 'onion_buffer_s'; TK = 'onion_token_s'; MP = 'onion_multipart_buffer_s'
STRFN = {'onion_low_strdup': (0,), 'strdup': (0,), 'strcmp': (0, 1), 'strcasecmp': (0, 1), 'strstr': (0, 1), 'strlen': (0,), 'onion_dict_add': (1, 2), 'strchr': (0,), 'strrchr': (0,),
         'onion_dict_get': (1,), 'strncmp': (0, 1)}


def states(P):
    t = P.field_targets().get(('onion_request_t', 'parser'))
    if not t:
        raise AnalysisBroken('the parser states cannot be enumerated')
    return sorted(t)


class ParseSim(RecSim):
    limit = 24
    phi_bounds = True
    empty_entry = frozenset()
    max_states = 150000

    def setup(s):
        P = s.prog
        o = lambda a, b: P.field(a, b)['o']
        s.a_pos = gep(('arg', 1), o(BUF, 'pos')); s.a_size = gep(('arg', 1), o(BUF, 'size')); s.a_data = gep(('arg', 1), o(BUF, 'data'))
        s.a_tok = gep(('arg', 0), o('onion_request_t', 'parser_data')); s.a_parser = gep(('arg', 0), o('onion_request_t', 'parser'))
        s.a_tpos = gep(TOK, o(TK, 'pos')); s.a_extra = gep(TOK, o(TK, 'extra')); s.a_esize = gep(TOK, o(TK, 'extra_size'))
        s.stro = o(TK, 'str'); s.strn = P.field(TK, 'str')['s']
        s.NEED = P.enum('OCS_NEED_MORE_DATA')

    def reset(s):
        s.out = {}

    def on_start(s, st):
        s.setup()
        st.mem[s.a_pos] = (POS, (BUF, 'pos')); st.mem[s.a_size] = (SIZE, (BUF, 'size')); st.mem[s.a_data] = (DATA, (BUF, 'data'))
        st.mem[s.a_tok] = (TOK, ('onion_request_t', 'parser_data')); st.mem[s.a_tpos] = (TPOS, (TK, 'pos'))
        s.setfact(st, TOK, lo=1); s.setfact(st, DATA, lo=1); s.setfact(st, POS, lo=0); s.setfact(st, SIZE, lo=1)
        if s.fn.name in s.empty_entry:      # another state may go on here with no input left
            st.facts[('icmp', 'ult', SIZE, POS)] = (0, 0, frozenset())
        else:
            st.facts[('icmp', 'ult', POS, SIZE)] = (1, 1, frozenset())
        s.rec(st, ('keep',), (), (TOK, DATA))
        lo, hi = s.entry
        s.setfact(st, TPOS, lo=lo, hi=hi)
        if s.fn.name in s.needterm:
            s.rec(st, ('term',))
        s.start2(st)

    def start2(s, st): pass

    def on_call(s, st, i, args):
        if i.callee in s.allstates and args[:2] == [('arg', 0), ('arg', 1)]:
            # a step that goes on in another state: same as selecting that state
            us = s.fn.users(i.id)
            if any(u.op not in ('ret', 'phi') for u in us):
                raise AnalysisBroken('%s inspects the result of another parser state' % s.fn.name)
            s.delegate(st, i, i.callee)
            raise Stop()
        return s.call2(st, i, args)

    def call2(s, st, i, args): return None

    def delegate(s, st, i, g):
        c = st.mem.get(s.a_tpos)
        s.note(g, s.interval(st, c[0]) if c else (-INF, INF))

    def note(s, g, iv):
        o = s.out.get(g)
        s.out[g] = iv if o is None else (min(o[0], iv[0]), max(o[1], iv[1]))

    def may_continue(s, st, val):
        return s.decide_icmp(st, 'eq', val, C(s.NEED)) is not False

    def note_exit(s, st, val):
        """token position with which the next state is entered."""
        if not s.may_continue(st, val):
            return
        g = s.next_state(st)
        c = st.mem.get(s.a_tpos)
        s.note(g, s.interval(st, c[0]) if c else (-INF, INF))

    def next_state(s, st):
        r = st.ts.get(('moved',))
        v = r[1][0] if r else None
        return v[1] if v is not None and v[0] == 'fn' else s.fn.name if v is None else None


def entries(P, nn, S):
    """interval invariant of token->pos at the entry of each parser state (assume/guarantee fixpoint)."""
    f = P.f('onion_request_write')
    start = {o[1] for i in f.insts() if i.op == 'store' and f.label(i.ops[1]) == ('onion_request_t', 'parser') for o in [i.ops[0]] if o[0] == 'f'}
    if not start:
        raise AnalysisBroken('the initial parser state is not found')
    E = {n: (0, 0) for n in start}
    todo = set(start); n = 0; grown = {}
    def one(x):
        s = InvSim(P, P.f(x)); s.nonnull = nn; s.entry = E[x]; s.needterm = set(); s.allstates = set(S); s.out = {}; s.out = {}
        s.run()
        return s.out
    while todo:
        n += 1
        if n > 40:
            raise AnalysisBroken('token position invariant does not stabilise')
        R = pmap(one, sorted(todo), weight=fweight(P))
        todo = set()
        for x in R:
            for g, iv in R[x].items():
                if g is None:
                    raise AnalysisBroken('unknown next parser state in %s' % x)
                o = E.get(g)
                nw = iv if o is None else (min(o[0], iv[0]), max(o[1], iv[1]))
                if nw != o:
                    grown[g] = grown.get(g, 0) + 1
                    if grown[g] > 6:
                        nw = (nw[0] if o and nw[0] == o[0] else -INF, nw[1] if o and nw[1] == o[1] else INF)
                    if nw != o:
                        E[g] = nw; todo.add(g)
    return E


# ------------------------------------------------------------------ progress
class InvSim(ParseSim):
    limit = 12

    def on_store(s, st, i, addr, val):
        if addr == s.a_parser:
            s.rec(st, ('moved',), (), (val,))

    def on_ret(s, st, i, val):
        s.note_exit(st, val)


class ProgressSim(ParseSim):
    limit = 12

    def reset(s):
        s.out = {}; s.eats = set(); s.exits = 0; s.silent = {}

    def on_store(s, st, i, addr, val):
        if addr in (s.a_pos, s.a_size):
            if val != (POS if addr == s.a_pos else SIZE):
                # one consumed character is told apart, so that giving it back is noticed
                s.rec(st, ('ate',), (val[0] == 'bin' and val[1] == 'add' and val[2] == POS and val[3] == C(1),)); s.eats.add(i.id)
            elif st.mem.get(s.a_size if addr == s.a_pos else s.a_pos, (None,))[0] == (SIZE if addr == s.a_pos else POS):
                st.ts.pop(('ate',), None)      # what was consumed is given back
        elif addr == s.a_parser:
            s.rec(st, ('moved',), (), (val,))

    def on_branch(s, st, i, term, truth):
        if ('end',) in st.ts or ('ate',) in st.ts:
            return
        p = st.mem.get(s.a_pos); z = st.mem.get(s.a_size)
        if p and z and (s.decide_icmp(st, 'ult', p[0], z[0]) is False or s.is_zero(st, ('bin', 'sub', z[0], p[0], 64))):
            raise Stop()      # a state function is only entered with input left

    def on_ret(s, st, i, val):
        s.exits += 1
        if not s.may_continue(st, val) or ('ate',) in st.ts:
            return
        s.quiet(st, i, s.next_state(st))

    def delegate(s, st, i, g):
        s.exits += 1
        if ('ate',) not in st.ts:
            s.quiet(st, i, g)

    def quiet(s, st, i, g):
        if g is None:
            s.report(('unk', i.loc()), 'the parser moves to an unknown state at %s without consuming input' % i.where(), st, i)
        else:
            s.silent.setdefault(g, (i.where(), s.trace(st)))


def run_progress(ctx):
    P = ctx.prog; nn = infer_nonnull(P); S = states(P)
    ctx.need(len(S) >= 8, 'only %d parser states' % len(S))
    E = entries(P, nn, S)
    dead = [n for n in S if n not in E]
    S = [n for n in S if n in E]
    def one(n):
        s = ProgressSim(P, P.f(n)); s.nonnull = nn; s.entry = E[n]; s.needterm = set(); s.allstates = set(S); s.out = {}; s.eats = set(); s.exits = 0; s.silent = {}
        s.run()
        return list(s.viol.values()), s.silent, len(s.eats), s.exits, s.nstates
    R = pmap(one, S, weight=fweight(P))
    G = {}
    eats = ex = nst = 0
    for n in S:
        v, sil, e, x, k = R[n]
        for a in v:
            ctx.violation(a)
        G[n] = sil; eats += e; ex += x; nst += k
    ctx.need(eats >= 3, 'input consumption not recognised')
    # a cycle of silent moves (including staying put) would spin forever on the same input
    def cyc(n, path):
        for g in G.get(n, {}):
            if g in path:
                k = path.index(g)
                return path[k:] + [g]
            r = cyc(g, path + [g])
            if r:
                return r
        return None
    seen = set()
    for n in S:
        c = cyc(n, [n])
        if c and frozenset(c) not in seen:
            seen.add(frozenset(c))
            w, tr = G[c[-2]][c[-1]]
            ctx.violation('the parser can ask for more data forever without consuming any: %s (return at %s)' % (' -> '.join(P.f(x).src for x in c), w), where=w, path=tr)
    # the driver: enters a state only with input left, goes on with the state the parser selected, and only on "need more"
    f = P.f('onion_request_write')
    d = DriverSim(P, f); d.nonnull = nn; d.calls = set(); d.run()
    for v in d.viol.values():
        ctx.violation(v)
    ctx.need(d.calls, 'the parser driver calls no state')
    ctx.cover(parser_states=len(S), unreachable_states=dead, token_position_invariants={P.f(n).src: str(E[n]) for n in S}, consuming_stores=eats, exits=ex, silent_moves={P.f(a).src: [P.f(b).src for b in G[a]] for a in G if G[a]}, states=nst)


class DriverSim(RecSim):
    def on_call(s, st, i, args):
        if i.callee is None:
            j = s.fn.inst.get(i.calleev[1]) if i.calleev[0] == 'v' else None
            if not args or args[0] != ('arg', 0) or len(args) != 2 or root(args[1])[0] != 'al':
                return None
            s.calls.add(i.id)
            P = s.prog; b = args[1]
            p = st.mem.get(gep(b, P.field(BUF, 'pos')['o'])); z = st.mem.get(gep(b, P.field(BUF, 'size')['o']))
            ok = p and z and s.decide_icmp(st, 'ult', p[0], z[0]) is True
            if not ok:
                s.report(('nodata', i.loc()), 'a parser state is entered at %s without input left' % i.where(), st, i)
            r = st.ts.get(('status',))
            if r is not None and s.decide_icmp(st, 'eq', r[1][0], C(P.enum('OCS_NEED_MORE_DATA'))) is not True:
                s.report(('goon', i.loc()), 'parsing goes on at %s although the previous step did not ask for more data' % i.where(), st, i)
            cur = st.mem.get(gep(('arg', 0), P.field('onion_request_t', 'parser')['o']))
            fv = s.val(st, i.calleev)
            if cur is None or cur[0] != fv:
                s.report(('stale', i.loc()), 'the parser goes on at %s in another state than the one selected by the previous step' % i.where(), st, i)
            s.default_call(st, i, args)
            s.rec(st, ('status',), (), (st.env[i.id],))
            return [st]
        return None

    def on_ret(s, st, i, val):
        r = st.ts.get(('status',))
        if r is not None and s.decide_icmp(st, 'eq', r[1][0], C(s.prog.enum('OCS_NEED_MORE_DATA'))) is not True and val != r[1][0]:
            s.report(('lost', i.loc()), 'the outcome of a parsing step is not reported at %s' % i.where(), st, i)


# ------------------------------------------------------------------ memory bounds
from lin import lin, le, add
EXTRA = ('sym', 'extra'); ESIZE = ('sym', 'esize'); MPDATA = ('sym', 'mpdata'); PTOT = ('sym', 'ptot')
COPY = {'llvm.memcpy.p0.p0.i64': (0, 1, 2), 'llvm.memmove.p0.p0.i64': (0, 1, 2), 'memcpy': (0, 1, 2), 'memmove': (0, 1, 2), 'write': (None, 1, 2), 'onion_block_add_data': (None, 1, 2),
        'llvm.memset.p0.i64': (0, None, 2), 'strncpy': (0, None, 2)}
ALLOCN = {'onion_low_malloc': (0,), 'onion_low_scalar_malloc': (0,), 'malloc': (0,), 'onion_low_calloc': (0, 1), 'calloc': (0, 1)}


class BoundsSim(InvSim):
    limit = 12
    sizes_ok = True
    track_pos = False      # carry "position <= size" around loops: more states, only tried when the plain run does not prove the reads

    def reset(s):
        from collections import defaultdict
        s.out = {}; s.exits = 0; s.needs = s.flatw = s.dposw = False; s.emptied = set(); s.n = defaultdict(set)

    def start2(s, st):
        P = s.prog; o = lambda f: P.field(MP, f)['o']
        s.a_mpdata = gep(EXTRA, o('data')); s.a_ptot = gep(EXTRA, o('post_total_size'))
        s.mpsize = max(f['o'] + f['s'] for f in P.structs[MP]['fields'])
        st.mem[s.a_extra] = (EXTRA, (TK, 'extra')); st.mem[s.a_esize] = (ESIZE, (TK, 'extra_size'))
        st.mem[s.a_mpdata] = (MPDATA, (MP, 'data')); st.mem[s.a_ptot] = (PTOT, (MP, 'post_total_size'))
        s.setfact(st, ESIZE, lo=0); s.setfact(st, PTOT, lo=0); s.setfact(st, MPDATA, lo=1)
        s.rec(st, ('keep',), (), (TOK, DATA, EXTRA, ESIZE, MPDATA, PTOT, TPOS))
        if s.track_pos:
            s.rec(st, ('inside',))

    def bad(s, kind, st, i, msg):
        s.report((kind, i.loc()), msg % i.where(), st, i)

    # -- the position in the input never passes its size
    def in_le(s, st, a, b):
        p = st.mem.get(s.a_pos); z = st.mem.get(s.a_size)
        if le(s, st, a, b):
            return True
        if not (p and z and ('inside',) in st.ts):
            return False
        k = ('icmp', 'ult', z[0], p[0])
        if k in st.facts:
            return False
        st.facts[k] = (0, 0, frozenset())
        r = le(s, st, a, b)
        del st.facts[k]
        return r

    def pos_store(s, st, val):
        if not s.track_pos:
            return
        z = st.mem.get(s.a_size)
        if z and s.in_le(st, lin(val), lin(z[0])):
            s.rec(st, ('inside',))
        else:
            st.ts.pop(('inside',), None)

    # -- token text
    def in_str(s, a):
        return root(a) == TOK and (0 if a == TOK else a[2]) < s.stro + s.strn and (a == TOK or a[2] >= s.stro or a[3])

    def index(s, a):
        """linear form of the offset of an address from its root."""
        d = lin(a); d = dict(d); r = root(a)
        d[r] = d.get(r, 0) - 1
        if not d[r]:
            del d[r]
        return d

    def str_access(s, st, i, addr, n=1):
        if not s.in_str(addr) or addr[0] == 'p' and not addr[3] and addr[2] >= s.stro + s.strn:
            return
        s.n['token text'].add(i.id)
        d = add(s.index(addr), {None: -s.stro})
        if not le(s, st, {}, d) or not le(s, st, add(d, {None: n}), {None: s.strn}):
            s.bad('tok', st, i, 'the request token buffer may be accessed outside its %d bytes at %%s' % s.strn)

    def data_read(s, st, i, addr, n, what):
        if root(addr) != DATA:
            return
        s.n['input'].add(i.id)
        z = st.mem.get(s.a_size)
        if z is None or not s.in_le(st, add(s.index(addr), n), lin(z[0])):
            s.bad('in', st, i, 'request input may be read past the received bytes at %s')

    def on_load(s, st, i, addr, val):
        s.str_access(st, i, addr)
        if i.ty == 'i8':
            s.data_read(st, i, addr, {None: 1}, 'read')
        s.local(st, i, addr, i.ops[0])

    def local(s, st, i, addr, o):
        """fixed-size local buffers."""
        if root(addr)[0] != 'al' or addr[0] != 'p' or not addr[3]:
            return
        rng = s.arr_range(st, o)
        if not rng:
            return
        s.n['local buffers'].add(i.id)
        d = s.index(addr)
        if not le(s, st, {None: rng[0]}, d) or not le(s, st, add(d, {None: 1}), {None: rng[1]}):
            s.bad('loc', st, i, 'a local buffer of %d bytes may be accessed outside its bounds at %%s' % (rng[1] - rng[0]))

    def on_store(s, st, i, addr, val):
        super().on_store(st, i, addr, val)
        if addr == s.a_pos:
            s.pos_store(st, val)
        elif addr == s.a_size:
            st.ts.pop(('inside',), None)
        if addr == s.a_esize and not is_c(val) and s.sizes_ok:
            s.setfact(st, val, lo=0)     # a size
        if s.in_str(addr):
            s.str_access(st, i, addr)
            if is_c(val) and val[1] == 0:
                # the terminator may not leave stale bytes between the text and itself
                t = st.mem.get(s.a_tpos); d = add(s.index(addr), {None: -s.stro})
                if t is not None and le(s, st, d, lin(t[0])) or set(d) <= {None}:
                    s.rec(st, ('term',))
            else:
                st.ts.pop(('term',), None); s.rec(st, ('dirty',))
        s.local(st, i, addr, i.ops[1])
        if addr == s.a_ptot:
            o = st.mem.get(addr)
            if o is not None:
                d = add(lin(o[0]), lin(val), -1)     # amount paid
                s.n['budget'].add(i.id)
                if not (le(s, st, d, lin(o[0])) or d == {None: 1} and s.nonzero(st, o[0])):
                    s.bad('under', st, i, 'the space left for form data is reduced by more than what is left at %s')
                s.balance(st, i, d)
        if i.d.get('sz') == 1:
            s.ext_write(st, i, addr, {None: 1}, i.ops[1])

    def on_call(s, st, i, args):
        r = super().on_call(st, i, args)
        return r

    def call2(s, st, i, args):
        c = i.callee
        if c in COPY:
            d, sr, n = COPY[c]
            ln = lin(args[n])
            if sr is not None:
                s.data_read(st, i, args[sr], ln, c)
            if d is not None:
                s.ext_write(st, i, args[d], ln, i.ops[d])
        if c == 'strcpy' or c == 'stpcpy':
            k = st.ts.get(('len', args[1]))
            n = add(lin(k[1][0]), {None: 1}) if k else None
            if n is None:
                s.bad('strcpy', st, i, 'text of unmeasured length is copied at %s')
            else:
                s.ext_write(st, i, args[0], n, i.ops[0])
        use = STRFN.get(c, ()) if c else range(len(args))
        for k in use:
            if k < len(args) and s.in_str(args[k]) and (c is not None or i.callee is None and k > 0):
                s.n['token string uses'].add(i.id)
                if ('term',) not in st.ts:
                    if ('dirty',) in st.ts:
                        s.bad('unterm', st, i, 'the request token is used as a string without being terminated at %s')
                    else:
                        s.needs = True
        return None

    def after_call(s, st, i, args, ret):
        c = i.callee
        if c in ALLOCN and ret is not None:
            n = ALLOCN[c]
            t = args[n[0]] if len(n) == 1 else s.mkbin(st, 'mul', args[n[0]], args[n[1]], 64)
            s.rec(st, ('alloc', i.id), (), (ret, t))
        elif c == 'strlen' and ret is not None:
            for k in [k for k in st.ts if k[0] == 'len' and k[1] == args[0]]:
                del st.ts[k]
            s.rec(st, ('len', args[0]), (), (ret,))
            s.setfact(st, ret, lo=0)

    # -- heap areas
    def form_area(s, o):
        """the pointer comes from the multipart area."""
        seen = set(); w = [o]
        while w:
            v = w.pop()
            if v[0] != 'v' or v[1] in seen:
                continue
            seen.add(v[1])
            j = s.fn.inst.get(v[1])
            if j is None:
                continue
            if j.op == 'load':
                l = s.fn.label(j.ops[0])
                if l and l[0] == MP and l[1] in ('data', 'name', 'filename'):
                    return True
            elif j.op == 'phi':
                w += [x for x, _ in j.ops]
            elif j.op == 'select':
                w += j.ops[1:]
            elif j.op in ('getelementptr', 'bitcast', 'freeze'):
                w.append(j.ops[0])
        return False

    def ext_write(s, st, i, addr, n, o):
        r = root(addr)
        if r in (TOK, DATA) or r[0] in ('al', 'g', 'arg'):
            return
        off = s.index(addr)
        if r == EXTRA:
            if addr[0] == 'p' and not addr[3] and addr[2] + n.get(None, 0) <= s.mpsize and set(n) <= {None} and addr[2] > 0:
                return
            s.n['body writes'].add(i.id); s.flatw = True
            e = st.mem.get(s.a_esize)
            if e is None or not le(s, st, add(off, n), add(lin(e[0]), {None: 1})):
                s.bad('body', st, i, 'form data may be written past its buffer at %s')
            return
        for k, p, t in s.recs(st, 'alloc'):
            if t[0] == r:
                s.n['body writes'].add(i.id)
                if not le(s, st, add(off, n), lin(t[1])):
                    s.bad('new', st, i, 'more is written at %s than what was allocated')
                return
        if r != MPDATA and not s.form_area(o):
            return
        # the area multipart fields are copied to: every byte is paid from post_total_size
        s.n['body writes'].add(i.id)
        if r == MPDATA and TPOS in off:
            s.dposw = True
        if r == MPDATA and not any(x == TPOS or x is not None and x[0] == 'jm' for x in off):
            h = st.ts.get(('hw',))
            e = add(off, n)
            if h and le(s, st, e, dict(h[0][0])):
                return
            if TPOS not in e:
                s.rec(st, ('hw',), (tuple(sorted(e.items(), key=repr)),))
        s.balance(st, i, {k: -v for k, v in n.items()})
        b = s.bal(st)
        if not le(s, st, {}, b):
            p = st.mem.get(s.a_ptot)
            if p is None or not le(s, st, {}, add(b, lin(p[0]))):
                s.bad('space', st, i, 'a multipart field is stored at %s without checking the space left')

    def bal(s, st):
        r = st.ts.get(('bal',))
        return dict(r[0][0]) if r else {}

    def balance(s, st, i, d):
        b = add(s.bal(st), d)
        if set(b) == {None} and b[None] > 4:
            b = {None: 4}
        if b:
            s.rec(st, ('bal',), (tuple(sorted(b.items(), key=repr)),))
        else:
            st.ts.pop(('bal',), None)

    def leave(s, st, i, g):
        if g in s.needterm and ('term',) not in st.ts and not (g == s.fn.name and ('dirty',) not in st.ts):
            s.bad('enter', st, i, 'the parser goes at %%s to a state that uses the request token (%s) without terminating it' % s.prog.f(g).src)
        if not le(s, st, {}, s.bal(st)):
            s.bad('unpaid', st, i, 'multipart data was stored without reducing the space left (return at %s)')
        # areas prepared for the next state
        x = st.mem.get(s.a_extra)
        al = [t for k, p, t in s.recs(st, 'alloc') if x and t[0] == x[0]]
        if al:
            s.n['prepared areas'].add((i.id, g))
            e = st.mem.get(s.a_esize)
            md = st.mem.get(gep(x[0], s.prog.field(MP, 'data')['o'])); pt = st.mem.get(gep(x[0], s.prog.field(MP, 'post_total_size')['o']))
            if md is not None:
                d = dict(lin(md[0])); d[x[0]] = d.get(x[0], 0) - 1
                if not d[x[0]]: del d[x[0]]
                if pt is None or not le(s, st, add(d, lin(pt[0])), lin(al[0][1])):
                    s.bad('mpalloc', st, i, 'the multipart area prepared at %s is smaller than the space announced for form data')
            elif g in s.flat:
                if e is None or not le(s, st, add(lin(e[0]), {None: 1}), lin(al[0][1])):
                    s.bad('ualloc', st, i, 'the form buffer prepared at %s has no room for the announced size and its terminator')
        md = st.mem.get(s.a_mpdata); pt = st.mem.get(s.a_ptot)
        if x and x[0] == EXTRA and md and pt:
            a = add(lin(md[0]), lin(pt[0])); z = add(lin(MPDATA), lin(PTOT)); tp = st.mem.get(s.a_tpos)
            if s.dposw:      # here the token position counts the bytes already stored
                z = add(z, lin(TPOS)); a = add(a, lin(tp[0]) if tp else {('top',): 1})
            if not any(k is not None and k[0] == 'jm' for k in a) and (md[0] != MPDATA or pt[0] != PTOT):
                if not le(s, st, a, z):
                    s.bad('adv', st, i, 'the multipart area advances by more than what was paid for (return at %s)')

    def on_ret(s, st, i, val):
        super().on_ret(st, i, val)
        s.exits += 1
        if s.may_continue(st, val):
            s.leave(st, i, s.next_state(st))

    def delegate(s, st, i, g):
        super().delegate(st, i, g)
        s.exits += 1
        p = st.mem.get(s.a_pos); z = st.mem.get(s.a_size)
        if not (p and z and le(s, st, add(lin(p[0]), {None: 1}), lin(z[0]))):
            s.emptied.add(g)
        s.leave(st, i, g)


def run_bounds(ctx):
    P = ctx.prog; nn = infer_nonnull(P); S = states(P)
    ctx.need(len(S) >= 8, 'only %d parser states' % len(S))
    E = entries(P, nn, S)
    S = [n for n in S if n in E]
    need = set(); flat = set(); emp = set()
    def one(n):
        from collections import defaultdict
        s = BoundsSim(P, P.f(n)); s.nonnull = nn; s.entry = E[n]; s.needterm = need; s.flat = flat; s.empty_entry = emp; s.emptied = set(); s.allstates = set(S); s.out = {}; s.exits = 0; s.needs = False; s.flatw = s.dposw = False; s.n = defaultdict(set)
        s.run()
        if any(k[0] == 'in' for k in s.viol):
            v = s.viol; s.viol = {}; s.reset(); s.track_pos = True
            s.run()
            if len(s.viol) >= len(v):
                s.viol = v
        return list(s.viol.values()), s.needs, s.flatw, {k: len(v) for k, v in s.n.items()}, s.exits, s.nstates, s.emptied
    for rnd in range(8):
        R = pmap(one, S, weight=fweight(P))
        n2 = need | {n for n in S if R[n][1]}; f2 = flat | {n for n in S if R[n][2]}
        e2 = emp.union(*[R[n][6] for n in S])
        if n2 == need and f2 == flat and e2 == emp:
            break
        need, flat, emp = n2, f2, e2
    else:
        raise AnalysisBroken('entry conditions of the parser states do not stabilise')
    tot = {}; ex = nst = 0
    for n in S:
        for v in R[n][0]:
            ctx.violation(v)
        for k, v in R[n][3].items():
            tot[k] = tot.get(k, 0) + v
        ex += R[n][4]; nst += R[n][5]
    for k in ('token text', 'input', 'token string uses', 'body writes', 'budget', 'prepared areas'):
        ctx.need(tot.get(k), 'no %s obligation found' % k)
    ctx.cover(parser_states=len(S), obligations=tot, needs_terminated_token=sorted(P.f(n).src for n in need), entered_without_input=sorted(P.f(n).src for n in emp), token_position_invariants={P.f(n).src: str(E[n]) for n in S}, exits=ex, states=nst)


# ------------------------------------------------------------------ body size: limits and completeness
class BodySim(BoundsSim):
    """also used with the other obligations switched off: only the announced size, the limits and the end of the body."""
    sizes_ok = False

    def bad(s, kind, st, i, msg):
        if kind in s.kinds:
            super().bad(kind, st, i, msg)

    def reset(s):
        super().reset()
        s.flatp = set(); s.mpp = set()

    def start2(s, st):
        super().start2(st)
        P = s.prog
        s.a_ft = gep(EXTRA, P.field(MP, 'file_total_size')['o'])
        s.READY = P.enum('OCS_REQUEST_READY')

    def limits(s, st, f):
        return [t[0] for k, p, t in s.recs(st, 'lim') if k[1] == f]

    def on_load(s, st, i, addr, val):
        super().on_load(st, i, addr, val)
        l = s.fn.label(i.ops[0])
        if l and l[1] in ('max_post_size', 'max_file_size') and not is_c(val):
            s.rec(st, ('lim', l[1], i.id), (), (val,))
            if s.interval(st, val)[0] < 0:
                s.setfact(st, val, lo=0)

    def on_branch(s, st, i, term, truth):
        if term[0] == 'icmp' and term[1] == 'eq' and not truth and add(lin(term[2]), lin(term[3]), -1) == {}:
            raise Stop()          # equal but for width changes
        t, tr = term, bool(truth)
        while t[0] == 'icmp' and t[1] == 'eq' and t[2][0] == 'icmp' and t[3] == C(0):
            t, tr = t[2], not tr
        if t[0] == 'icmp' and t[1] in ('ult', 'slt'):
            d = add(lin(t[3]), lin(t[2]), -1)
            if set(d) <= {None} and (d.get(None, 0) > 0) != tr:
                raise Stop()      # contradicts itself but for width changes
        if s.files:
            ft = st.mem.get(s.a_ft)
            for L in s.limits(st, 'max_file_size'):
                if ft and le(s, st, lin(ft[0]), lin(L)):
                    s.rec(st, ('filecheck',))
                if ft and le(s, st, add(lin(ft[0]), {None: 1}), lin(L)):
                    s.rec(st, ('fileroom',))

    def on_store(s, st, i, addr, val):
        super().on_store(st, i, addr, val)
        if addr == s.a_ft:
            o = st.mem.get(addr)
            if not is_c(val):
                s.credit(st, 1)
        if i.d.get('sz') == 1 and root(addr)[0] == 'al' and s.files and s.from_input(i.ops[0]):
            s.append(st, i, True)

    def from_input(s, o):
        j = s.fn.inst.get(o[1]) if o[0] == 'v' else None
        return j is not None and j.op == 'load'

    def credit(s, st, n):
        b = st.ts.get(('fc',)); c = (b[0][0] if b else 0) + n
        c = min(c, 1)
        if c:
            s.rec(st, ('fc',), (c,))
        else:
            st.ts.pop(('fc',), None)
        return c

    def append(s, st, i, fresh=False):
        s.n['file bytes'].add(i.id)
        # bytes held back as a possible boundary are in the count already, the byte just read is not
        if (('fileroom',) if fresh else ('filecheck',)) not in st.ts:
            s.bad('filelimit', st, i, 'uploaded file data is stored at %s without checking that the configured maximum file size leaves room for it')
        st.ts.pop(('filecheck',), None); st.ts.pop(('fileroom',), None)
        if s.credit(st, -1) < -1:
            s.bad('filecount', st, i, 'uploaded file data is stored at %s without counting it')
            s.credit(st, 1)

    def call2(s, st, i, args):
        c = i.callee
        if c in ('write', 'onion_block_add_data', 'memcpy', 'llvm.memcpy.p0.p0.i64') and root(args[1]) == DATA:
            s.n['body copies'].add(i.id)
            e = st.mem.get(s.a_esize); t = st.mem.get(s.a_tpos)
            got = ([lin(t[0])] if t else []) + [lin(x[1][0]) for k, x in st.ts.items() if k[0] == 'bsize']
            n = lin(args[2])
            if e is None or not any(le(s, st, add(g, n), lin(e[0])) for g in got):
                s.bad('over', st, i, 'more body data than the announced size may be taken at %s')
            if c == 'onion_block_add_data':
                for k, x in list(st.ts.items()):
                    if k[0] == 'bsize':
                        s.rec(st, ('btotal',), (), (x[1][0], args[2]))
        elif c == 'write' and s.files and root(args[1])[0] != 'al':
            s.append(st, i)
        return super().call2(st, i, args)

    def after_call(s, st, i, args, ret):
        super().after_call(st, i, args, ret)
        c = i.callee
        if c == 'onion_block_size' and ret is not None:
            s.rec(st, ('bsize', i.id), (), (ret,))
        elif c in ('onion_dict_get', 'onion_request_get_header') and len(args) > 1 and (s.prog.cstr(i.ops[1]) or '').lower() == 'content-length':
            s.rec(st, ('cl', i.id), (), (ret,))
        elif i.ty == 'i64' and c in ('atol', 'strtol', 'strtoul', 'strtoll', 'strtoull', 'atoll') and ret is not None:
            if any(t[0] == args[0] for k, p, t in s.recs(st, 'cl')):
                s.rec(st, ('cln', i.id), (), (ret,))

    def leave(s, st, i, g):
        super().leave(st, i, g)
        e = st.mem.get(s.a_esize)
        if e is None or e[0] == ESIZE:
            return
        x = st.mem.get(s.a_extra)
        s.n['announced sizes'].add((i.id, g))
        mp = x and st.mem.get(gep(x[0], s.prog.field(MP, 'data')['o'])) and x[0] != EXTRA
        f = 'max_file_size' if g in s.putstates else 'max_post_size'
        terms = [e[0]]
        if mp:
            s.mpp.add(g)
            pt = st.mem.get(gep(x[0], s.prog.field(MP, 'post_total_size')['o']))
            terms.append(pt[0] if pt else ('top',))
            ft = st.mem.get(gep(x[0], s.prog.field(MP, 'file_total_size')['o']))
            if ft is None or ft[0] != C(0):
                s.bad('ftinit', st, i, 'the size of the uploaded files does not start at zero (%s)')
        else:
            s.flatp.add(g)
            t = st.mem.get(s.a_tpos)
            if t is None or s.interval(st, t[0]) != (0, 0):
                s.bad('start', st, i, 'reading of the body starts at %s with a position other than zero')
            if not any(t[0] == e[0] for k, p, t in s.recs(st, 'cln')):
                s.bad('notcl', st, i, 'the body prepared at %s is not given the announced Content-Length')
        for t in terms:
            if not any(le(s, st, lin(t), lin(L), strict=True) for L in s.limits(st, f)):
                s.bad('limit', st, i, 'a request body goes on at %%s without being checked against %s' % f)

    def on_ret(s, st, i, val):
        super().on_ret(st, i, val)
        ready = s.decide_icmp(st, 'eq', val, C(s.READY)) is not False
        need = s.decide_icmp(st, 'eq', val, C(s.NEED)) is not False
        if s.fn.name in s.flatst and s.next_state(st) == s.fn.name:
            e = st.mem.get(s.a_esize); t = st.mem.get(s.a_tpos)
            got = [lin(t[0])] if t else []
            b = st.ts.get(('btotal',))
            if b:
                got.append(add(lin(b[1][0]), lin(b[1][1])))
            s.n['body ends'].add((i.id, ready))
            if ready and not need:
                if e is None or not any(le(s, st, lin(e[0]), g) for g in got):
                    s.bad('early', st, i, 'a request is handed over at %s before its whole body has arrived')
            elif need and not ready:
                if e is None or not any(le(s, st, add(g, {None: 1}), lin(e[0])) for g in got):
                    s.bad('late', st, i, 'more data is waited for at %s although the body may be complete')
        if ready and not need and s.fn.name in s.headst:
            s.n['bodyless ends'].add(i.id)
            ok = any(s.is_zero(st, t[0]) for k, p, t in s.recs(st, 'cl')) or any(s.interval(st, t[0])[1] <= 0 for k, p, t in s.recs(st, 'cln'))
            if not ok:
                s.bad('nobody', st, i, 'a request that announces a body is handed over at %s without reading it')


def body(ctx, kinds, needed):
    P = ctx.prog; nn = infer_nonnull(P); S = states(P)
    ctx.need(len(S) >= 8, 'only %d parser states' % len(S))
    E = entries(P, nn, S)
    S = [n for n in S if n in E]
    # states that put body bytes in a file
    put = {n for n in S if any(i.callee == 'write' for i in P.f(n).insts() if 'callee' in i.d)}
    mpf = {n for n in put if any(P.f(n).label(i.ops[0]) == (MP, 'file_total_size') for i in P.f(n).insts() if i.op == 'load')}
    flat = set(); head = set()
    def one(n):
        s = BodySim(P, P.f(n)); s.nonnull = nn; s.entry = E[n]; s.needterm = set(); s.flat = set(); s.allstates = set(S); s.kinds = kinds; s.putstates = put - mpf; s.files = n in mpf
        s.flatst = flat; s.headst = head
        s.run()
        return list(s.viol.values()), s.flatp, s.mpp, {k: len(v) for k, v in s.n.items()}, s.exits, s.nstates
    for rnd in range(3):
        R = pmap(one, S, weight=fweight(P))
        f2 = flat.union(*[R[n][1] for n in S]); h2 = {n for n in S if R[n][1] or R[n][2]}
        if f2 == flat and h2 == head:
            break
        flat, head = f2, h2
    mp = set().union(*[R[n][2] for n in S])
    ctx.need(flat and mp and head, 'the body states are not found')
    tot = {}; ex = nst = 0
    for n in S:
        for v in R[n][0]:
            ctx.violation(v)
        for k, v in R[n][3].items():
            tot[k] = tot.get(k, 0) + v
        ex += R[n][4]; nst += R[n][5]
    for k in needed:
        ctx.need(tot.get(k), 'no %s obligation found' % k)
    ctx.cover(parser_states=len(S), body_states=sorted(P.f(n).src for n in flat), multipart_start=sorted(P.f(n).src for n in mp), file_states=sorted(P.f(n).src for n in put), obligations={k: tot[k] for k in needed}, exits=ex, states=nst)


def run_limits(ctx):
    body(ctx, {'limit', 'over', 'filelimit', 'filecount', 'ftinit', 'start'}, ('announced sizes', 'body copies', 'file bytes'))
    P = ctx.prog
    for fn, fl in (('onion_set_max_post_size', 'max_post_size'), ('onion_set_max_file_size', 'max_file_size')):
        f = P.f(fn)
        st = [i for i in f.insts() if i.op == 'store' and f.label(i.ops[1]) and f.label(i.ops[1])[1] == fl]
        if not any(i.ops[0] == ('v', 1) or list(i.ops[0])[:2] == ['v', 1] for i in st):
            ctx.violation('%s() does not set the limit it is given' % f.src, where=f.src)


def run_complete(ctx):
    body(ctx, {'early', 'late', 'nobody', 'notcl', 'start', 'over'}, ('announced sizes', 'body copies', 'body ends', 'bodyless ends'))
