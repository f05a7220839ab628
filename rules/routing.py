"""H04: a request goes to the first handler whose turn it is and whose pattern matches, and to no other."""
from gates import *

H = 'onion_handler_t'; U = 'onion_url_data_t'


def field_base(s, i, op, lab):
    """(label of the cell, base object value) for a load through op."""
    return s.fn.label(op) == lab


class ChainSim(RecSim):
    """walks a linked list of candidates: the next candidate is looked at only after the current one declined."""
    NEXT = (H, 'next')

    def on_load(s, st, i, addr, val):
        lab = s.fn.label(i.ops[0])
        if lab is not None and lab == s.NEXT:
            base = s.base(addr, lab)
            if base is None:
                return
            s.advances += 1
            if not s.declined(st, base):
                s.report(('skip', i.loc()), 'the next handler is tried at %s although the current one was not asked or did not decline' % i.where(), st, i)
            s.rec(st, ('next', i.id), (), (val, base))

    def base(s, addr, lab):
        off = s.prog.field(lab[0], lab[1])['o']
        b = gep(addr, -off)
        return b

    def cell(s, st, base, lab):
        off = s.prog.field(lab[0], lab[1])['o']
        c = st.mem.get(gep(base, off))
        return c[0] if c else None

    def exhausted(s, st):
        """the candidate last considered is NULL."""
        for k, p, t in s.recs(st, 'next'):
            if s.is_zero(st, t[0]):
                return True
        return False


class HandleSim(ChainSim):
    def declined(s, st, base):
        h = s.cell(st, base, (H, 'handler'))
        if h is not None and s.is_zero(st, h):
            return True
        for k, p, t in s.recs(st, 'res'):
            if t[1] == base and s.is_zero(st, t[0]):
                return True
        return False

    def on_call(s, st, i, args):
        c = i.callee
        if not c:
            j = s.fn.inst.get(i.calleev[1]) if i.calleev[0] == 'v' else None
            if j is not None and j.op == 'load' and (s.fn.label(j.ops[0]) or ('',))[0] == '@':
                return None           # the log function
            cv = s.val(st, i.calleev)
            base = None
            for a, (v, l) in st.mem.items():
                if v == cv and l == (H, 'handler'):
                    base = s.base(a, l)
            s.calls += 1
            if base is None:
                s.report(('who', i.loc()), 'the function called at %s is not the one of the handler whose turn it is' % i.where(), st, i)
                return None
            if base != ('arg', 0) and not any(t[0] == base for k, p, t in s.recs(st, 'next')):
                s.report(('order', i.loc()), 'the handler called at %s is not the first or the one after the last that declined' % i.where(), st, i)
            if any(not s.is_zero(st, t[0]) for k, p, t in s.recs(st, 'res')):
                s.report(('again', i.loc()), 'another handler is called at %s although one may already have answered' % i.where(), st, i)
            pd = s.cell(st, base, (H, 'priv_data'))
            if len(args) < 3 or (pd is None or args[0] != pd) or args[1] != ('arg', 1) or args[2] != ('arg', 2):
                s.report(('args', i.loc()), 'a handler is called at %s with something else than its own private data, the request and the response' % i.where(), st, i)
            s.drop(st, lambda k, p, t: k[0] == 'res')
            s.pend = base
        elif c == 'onion_response_flush' and args[0] == ('arg', 2):
            s.rec(st, ('flushed',))
        elif c == 'onion_response_set_length' and args[0] == ('arg', 2):
            off = s.prog.field('onion_response_t', 'buffer_pos')['o']
            v = st.mem.get(gep(('arg', 2), off))
            if v is None or strip(args[1]) != strip(v[0]):
                s.report(('len', i.loc()), 'the length announced at %s is not the amount of data written so far' % i.where(), st, i)
            fo = s.prog.field('onion_response_t', 'flags')['o']
            fl = st.mem.get(gep(('arg', 2), fo))
            if fl is None or bit(s, st, fl[0], s.SENT) != 0:
                s.report(('lensent', i.loc()), 'the length is set at %s although the headers may have been sent' % i.where(), st, i)
            iv = s.interval(st, v[0]) if v else None
            if v is not None and iv[1] >= s.BUF:
                s.report(('lenbuf', i.loc()), 'the length is set at %s although part of the answer may already have left the buffer' % i.where(), st, i)
        return None

    def after_call(s, st, i, args, ret):
        if not i.callee and s.pend is not None:
            s.rec(st, ('res',), (), (ret, s.pend)); s.pend = None
            s.drop(st, lambda k, p, t: k[0] == 'flushed')
        elif i.callee == 'onion_websocket_call':
            s.rec(st, ('ws',), (), (ret,))

    def on_ret(s, st, i, val):
        s.exits += 1
        res = s.recs(st, 'res')
        answered = [t[0] for k, p, t in res if not s.is_zero(st, t[0])]
        if not answered:
            if val != C(s.NP) and not s.is_zero(st, val) and not any(strip(t[0]) == strip(val) for k, p, t in res):
                s.report(('made', i.loc()), 'a result other than not-processed is returned at %s although no handler answered' % i.where(), st, i)
            if not s.exhausted(st) and not s.is_zero(st, ('arg', 0)):
                s.report(('early', i.loc()), 'returns at %s before all handlers were asked' % i.where(), st, i)
            return
        r = answered[0]
        if ('flushed',) not in st.ts:
            s.report(('noflush', i.loc()), 'returns at %s without sending the pending data of the answer' % i.where(), st, i)
        if strip(val) == strip(r):
            if s.decide_icmp(st, 'eq', strip(r), C(s.WS)) is not False and s.decide_icmp(st, 'eq', r, C(s.WS)) is not False:
                s.report(('wsret', i.loc()), 'the websocket result of a handler is returned at %s instead of starting the websocket' % i.where(), st, i)
            return
        if is_c(val) and s.decide_icmp(st, 'eq', r, val) is True:
            return
        if s.decide_icmp(st, 'eq', r, C(s.WS)) is True:
            ws = s.recs(st, 'ws')
            if ws and ws[0][2][0] == val:
                return
            if val == C(s.IE):
                c = st.mem.get(gep(('arg', 1), s.prog.field('onion_request_t', 'websocket')['o']))
                if c and s.is_zero(st, c[0]):
                    return
        s.report(('other', i.loc()), 'the result returned at %s is not the one the handler gave' % i.where(), st, i)


def strip(v):
    while v[0] in ('sx', 'zx', 'tr'):
        v = v[1]
    return v


def bit(s, st, v, m):
    t = ('bin', 'and', v, C(m), 32)
    if is_c(v):
        return v[1] & m
    for f in list(st.facts):
        if f[0] == 'bin' and f[1] == 'and' and strip(f[2]) == strip(v) and f[3] == C(m):
            if s.is_zero(st, f):
                return 0
            if s.nonzero(st, f):
                return m
    return None


class UrlSim(ChainSim):
    NEXT = (U, 'next')

    def on_start(s, st):
        pass

    def entry_ok(s, st, base):
        return any(t[0] == base for k, p, t in s.recs(st, 'next')) or any(t[0] == base for k, p, t in s.recs(st, 'first'))

    def on_load(s, st, i, addr, val):
        if addr == ('arg', 0):
            s.rec(st, ('first', i.id), (), (val,))
        ChainSim.on_load(s, st, i, addr, val)

    def declined(s, st, base):
        for k, p, t in s.recs(st, 'try'):
            if t[1] == base and s.nonzero(st, t[0]):
                return True
        return False

    def matched(s, st, base):
        return [p[0] for k, p, t in s.recs(st, 'try') if t[1] == base and s.is_zero(st, t[0])]

    def after_call(s, st, i, args, ret):
        c = i.callee
        if c in ('strcmp', 'regexec') and len(args) >= 2:
            s.tries += 1
            base = None
            if c == 'strcmp':
                for x, y in ((0, 1), (1, 0)):
                    for a, (v, l) in st.mem.items():
                        if v == args[x] and l and l[0] == U and l[1] and l[1].split('.')[-1] in ('str', 'regexp') or v == args[x] and l and l[0] == U and a == gep(root(a), s.strof):
                            base = gep(a, -s.strof)
                            if not s.is_path(st, args[y]):
                                s.report(('what', i.loc()), 'the pattern is compared at %s with something else than the path still to be matched' % i.where(), st, i)
            else:
                base = gep(args[0], -s.regof)
                if not s.is_path(st, args[1]):
                    s.report(('what', i.loc()), 'the expression is matched at %s against something else than the path still to be matched' % i.where(), st, i)
                if args[2:] and is_c(args[2]) and args[2][1] < 1:
                    s.report(('nm', i.loc()), 'the expression is matched at %s without asking where it matched' % i.where(), st, i)
                if len(args) > 4 and args[4] != C(0):
                    s.report(('fl', i.loc()), 'the expression is matched at %s with altered anchors' % i.where(), st, i)
            if base is None:
                return
            if s.CLS is U and not s.kind_ok(st, base, c):
                s.report(('kind', i.loc()), 'at %s an entry is compared by %s although it may have been added as the other kind' % (i.where(), c), st, i)
            s.rec(st, ('try', c), (c,), (ret, base, args[3] if c == 'regexec' else C(0)))

    def is_path(s, st, v):
        if v[0] == 'call' and s.fn.inst[v[1]].callee == 'onion_request_get_path':
            return True
        a = gep(('arg', 1), s.prog.field('onion_request_t', 'path')['o'])
        return a in st.mem and st.mem[a][0] == v

    def kind_ok(s, st, base, c):
        fl = s.cell(st, base, (U, 'flags'))
        if fl is None:
            return False
        want = s.kinds
        # which of the two values the constructor stores are compatible with what is known about the flags
        poss = set()
        for kind, val in want.items():
            ok = True
            for f in st.facts:
                e = evalt(f, fl, val)
                if e is None:
                    continue
                lo, hi = s.interval(st, f)[:2]
                if not (lo <= e <= hi) or (e == 0 and s.nonzero(st, f)):
                    ok = False
            if ok:
                poss.add(kind)
        return poss == {c}

    def on_call(s, st, i, args):
        c = i.callee
        if c == 'onion_handler_handle':
            s.calls += 1
            base = None
            for a, (v, l) in st.mem.items():
                if v == args[0] and l == (s.CLS, 'inside'):
                    base = s.base(a, l)
            if base is None:
                s.report(('who', i.loc()), 'the handler called at %s is not the one of a matching entry' % i.where(), st, i)
                return None
            m = s.matched(st, base)
            if not m:
                s.report(('nomatch', i.loc()), 'the handler called at %s belongs to a pattern that may not match the path' % i.where(), st, i)
            if s.CLS is U and not s.entry_ok(st, base):
                s.report(('order', i.loc()), 'the handler called at %s belongs to an entry that is not next in order' % i.where(), st, i)
            if args[1] != ('arg', 1) or args[2] != ('arg', 2):
                s.report(('args', i.loc()), 'the handler called at %s is not given the request and the response' % i.where(), st, i)
            if not any(t[0] == base for k, p, t in s.recs(st, 'adv')):
                s.report(('noadv', i.loc()), 'the handler is called at %s without removing the matched part from the path' % i.where(), st, i)
        elif c == 'onion_request_advance_path':
            if any(True for k in st.ts if k[0] == 'adv'):
                s.report(('adv2', i.loc()), 'the path is advanced again at %s' % i.where(), st, i)
            ok = None
            for k, p, t in s.recs(st, 'try'):
                if not s.is_zero(st, t[0]):
                    continue
                if p[0] == 'strcmp':
                    v = strip(args[1])
                    if v[0] == 'call' and s.fn.inst[v[1]].callee == 'strlen':
                        ok = t[1]
                else:
                    c0 = st.mem.get(gep(t[2], 4))
                    if c0 is not None and strip(c0[0]) == strip(args[1]):
                        ok = t[1]
            if ok is None:
                s.report(('adv', i.loc()), 'the path is advanced at %s by something else than the length of the match' % i.where(), st, i)
            else:
                s.rec(st, ('adv',), (), (ok,))
        elif c == 'onion_dict_add' and s.CLS is U:
            pass
        return None

    def on_ret(s, st, i, val):
        s.exits += 1
        if s.recs(st, 'done'):
            return
        v = strip(val)
        if v[0] == 'call' and s.fn.inst[v[1]].callee == 'onion_handler_handle':
            return
        if s.CLS is U:
            fin = s.exhausted(st) or any(s.is_zero(st, t[0]) for k, p, t in s.recs(st, 'first'))
        else:
            fin = any(s.nonzero(st, t[0]) for k, p, t in s.recs(st, 'try'))
        if not fin:
            s.report(('early', i.loc()), 'returns at %s although a pattern still has to be tried or has matched' % i.where(), st, i)
        elif not s.is_zero(st, val):
            s.report(('made', i.loc()), 'returns something else than not-processed at %s although nothing matched' % i.where(), st, i)


def evalt(t, var, val):
    """value of a term over var with var = val, or None."""
    if t == var:
        return val
    if is_c(t):
        return t[1]
    if t[0] == 'bin' and t[1] in ('and', 'or', 'xor', 'add', 'sub'):
        a, b = evalt(t[2], var, val), evalt(t[3], var, val)
        if a is None or b is None or var not in atomset(t) and t[2] != var:
            return None
        return {'and': a & b, 'or': a | b, 'xor': a ^ b, 'add': a + b, 'sub': a - b}[t[1]]
    if t[0] in ('zx', 'sx', 'tr'):
        return evalt(t[1], var, val)
    return None


class AddSim(RecSim):
    """onion_url_add_handler: appended at the end, kind by the first character, with its own pattern and handler."""
    def on_load(s, st, i, addr, val):
        if addr == ('arg', 1):
            s.rec(st, ('c0',), (), (val,))
        elif i.ty == 'ptr' and s.fn.label(i.ops[0]) in (None, (U, 'next')):
            s.rec(st, ('tail', i.id), (), (addr, val))

    def after_call(s, st, i, args, ret):
        c = i.callee
        if c == 'regcomp':
            s.sites.add(i.id)
            s.rec(st, ('re',), (args[1] == ('arg', 1),), (ret, gep(args[0], -s.regof)))
            if args[1] != ('arg', 1):
                s.report(('pat', i.loc()), 'another expression than the one given is compiled at %s' % i.where(), st, i)
        elif c in ('onion_low_strdup', 'strdup') and args[0] == ('arg', 1):
            s.rec(st, ('dup', i.id), (), (ret,))

    def on_store(s, st, i, addr, val):
        lab = s.fn.label(i.ops[1])
        r = root(addr)
        if lab and lab[0] == U and r[0] == 'call' and (s.fn.inst[r[1]].callee or '').startswith('onion_low_'):
            s.rec(st, ('f', gep(addr, 0)[2] if addr[0] == 'p' else 0), (), (val, root(addr)))

    def on_ret(s, st, i, val):
        s.exits += 1
        v = {k[1]: t for k, p, t in s.recs(st, 'f')}
        re = s.recs(st, 're')
        failed = re and s.decide_icmp(st, 'eq', re[0][2][0], C(0)) is False
        if failed:
            if s.is_zero(st, val):
                s.report(('ok', i.loc()), 'success is returned at %s for an expression that cannot be compiled' % i.where(), st, i)
            return
        if not s.is_zero(st, val):
            s.report(('fail', i.loc()), 'failure is returned at %s although the entry was added' % i.where(), st, i)
            return
        o = s.off
        ins = v.get(o['inside']); nx = v.get(o['next']); fl = v.get(o['flags'])
        if ins is None or ins[0] != ('arg', 2):
            s.report(('ins',), 'the entry added at %s is not given the handler passed in' % i.where(), st, i)
        if nx is None or not s.is_zero(st, nx[0]):
            s.report(('nx',), 'the entry added at %s does not end the list' % i.where(), st, i)
        if fl is None or not is_c(fl[0]):
            s.report(('fl',), 'the kind of the entry added at %s is not set' % i.where(), st, i)
            return
        kind = 'regexec' if re else 'strcmp'
        st_ = v.get(s.strof)
        if kind == 'strcmp' and (st_ is None or not any(t[0] == st_[0] for k, p, t in s.recs(st, 'dup'))):
            s.report(('str',), 'the text the entry added at %s compares with is not a copy of the one given' % i.where(), st, i)
        # expression exactly when the pattern starts with ^
        c0 = [t[0] for k, p, t in s.recs(st, 'c0')]
        iv = s.interval(st, c0[0]) if c0 else None
        if not c0 or (kind == 'regexec') != (iv[0] == iv[1] == 94) or (kind == 'strcmp' and s.decide_icmp(st, 'eq', c0[0], C(94)) is not False and s.decide_icmp(st, 'eq', strip(c0[0]), C(94)) is not False):
            s.report(('caret', kind), 'the entry added at %s is treated as %s although the pattern may %sstart with ^' % (i.where(), 'an expression' if kind == 'regexec' else 'plain text', 'not ' if kind == 'regexec' else ''), st, i)
        s.kinds.setdefault(kind, set()).add(fl[0][1])
        # linked through the terminating NULL of the list
        ent = fl[1]
        lk = s.recs(st, 'link')
        if not any(t[1] == ent and p[0] for k, p, t in lk):
            s.report(('link',), 'the entry added at %s is not appended at the end of the list' % i.where(), st, i)


class AddSim2(AddSim):
    def on_store(s, st, i, addr, val):
        # the store that links the new entry: *w = data with *w known to be NULL
        r = root(val)
        if r[0] == 'call' and s.fn.inst.get(r[1]) is not None and (s.fn.inst[r[1]].callee or '').startswith('onion_low_') and val == r and addr[0] != 'al':
            c = st.mem.get(addr)
            s.rec(st, ('link', i.id), (c is not None and s.is_zero(st, c[0]) or any(t[0] == addr and s.is_zero(st, t[1]) for k, p, t in s.recs(st, 'tail')),), (addr, val))
        AddSim.on_store(s, st, i, addr, val)


class AppendSim(RecSim):
    """onion_handler_add: appended behind the last handler."""
    def on_store(s, st, i, addr, val):
        if s.fn.label(i.ops[1]) == (H, 'next'):
            s.sites.add(i.id)
            c = st.mem.get(addr)
            if c is None or not s.is_zero(st, c[0]) or val != ('arg', 1):
                s.report(('app', i.loc()), 'the handler added at %s is not appended behind the last one' % i.where(), st, i)
            s.rec(st, ('app',))

    def on_ret(s, st, i, val):
        if ('app',) not in st.ts:
            s.report(('noapp',), 'returns at %s without adding the handler' % i.where(), st, i)


class NewSim(RecSim):
    def on_store(s, st, i, addr, val):
        lab = s.fn.label(i.ops[1])
        if lab and lab[0] == H:
            want = {'handler': ('arg', 0), 'priv_data': ('arg', 1), 'priv_data_free': ('arg', 2)}.get(lab[1])
            s.sites.add(i.id)
            if want and val != want:
                s.report(('new', lab), 'a new handler is given the wrong %s at %s' % (lab[1], i.where()), st, i)
            s.rec(st, ('set', lab[1]))

    def on_ret(s, st, i, val):
        for f in ('handler', 'priv_data', 'priv_data_free'):
            if ('set', f) not in st.ts:
                s.report(('unset', f), 'a new handler is returned at %s without its %s' % (i.where(), f), st, i)


def run(ctx):
    P = ctx.prog; nn = infer_nonnull(P)
    cov = {}
    def go(s, **kw):
        s.nonnull = nn; s.sites = set(); s.exits = 0; s.calls = 0; s.advances = 0; s.tries = 0
        for k, v in kw.items():
            setattr(s, k, v)
        s.run()
        for v in s.viol.values():
            ctx.violation(v)
        cov[s.fn.name] = dict(exits=s.exits, calls=s.calls, advances=s.advances, matches=s.tries, states=s.nstates)
        return s
    buf = P.field('onion_response_t', 'buffer')['s']
    s = go(HandleSim(P, P.f('onion_handler_handle')), pend=None, NP=P.enum('OCS_NOT_PROCESSED'), WS=P.enum('OCS_WEBSOCKET'), IE=P.enum('OCS_INTERNAL_ERROR'), SENT=P.enum('OR_HEADER_SENT'), BUF=buf)
    ctx.need(s.calls and s.exits and s.advances, 'onion_handler_handle does not walk a list of handlers')
    go(AppendSim(P, P.f('onion_handler_add'))); go(NewSim(P, P.f('onion_handler_new')))
    off = {f['n']: f['o'] for f in P.struct(U)['fields']}
    regof = [f['o'] for f in P.struct(U)['fields'] if f['t'] == 'regex_t' or f['t'] == 're_pattern_buffer'][0]
    strof = [f['o'] for f in P.struct(U)['fields'] if f['t'] == 'char*' and f['n'].split('.')[-1] not in ('orig', 'fastmap') and f['o'] <= regof + 8][0]
    a = go(AddSim2(P, P.f('onion_url_add_handler')), off=off, regof=regof, strof=strof, kinds={})
    kinds = {}
    for k, v in a.kinds.items():
        if len(v) == 1:
            kinds[k] = min(v)
    ctx.need(len(kinds) == 2 or ctx.viol, 'cannot tell the two kinds of url entries apart: %s' % a.kinds)
    if len(kinds) == 2 and kinds['strcmp'] == kinds['regexec']:
        ctx.violation('url entries of both kinds carry the same flags', where='onion_url_add_handler')
    for f in handler_of(P, 'onion_url_new'):
        s = go(UrlSim(P, f), CLS=U, regof=regof, strof=strof, kinds=kinds)
        ctx.need(s.calls and s.tries >= 2, '%s matches no patterns' % f.name)
    PD = 'onion_handler_path_data_t'
    for f in handler_of(P, 'onion_handler_path'):
        s = UrlSim(P, f); s.NEXT = None
        s = go(s, CLS=PD, regof=P.field(PD, 'path')['o'], strof=-1, kinds={})
        ctx.need(s.calls and s.tries, '%s matches no pattern' % f.name)
    ctx.cover(functions=cov, kinds=kinds)
