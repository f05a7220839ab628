"""Request reuse and teardown: nothing of one request survives into the next, nothing is lost."""
import re
from gates import *

REQ = 'onion_request_t'
OWNED = ['headers', 'fullpath', 'GET', 'POST', 'FILES', 'session', 'session_id', 'data', 'cookies', 'free_list', 'parser_data', 'connection.cli_info']


class TearSim(RecSim):
    """what happens to the values held by the fields of the request given as first argument."""

    def is_free(s, i):
        return i.callee is not None and re.search(r'(^|_)free$', i.callee)

    def fields_of(s, st, v):
        return [f for f in s.fields if s.cur(st, f) == v]

    def cell(s, f):
        return gep(('arg', 0), s.off[f])

    def cur(s, st, f):
        r = st.ts.get(('orig', f))
        return r[1][0] if r else None

    def on_load(s, st, i, addr, val):
        for f in s.fields:
            if addr == s.cell(f) and ('orig', f) not in st.ts and ('set', f) not in st.ts:
                s.rec(st, ('orig', f), (), (val,))

    def on_call(s, st, i, args):
        c = i.callee
        if s.is_free(i):
            for f in s.fields_of(st, args[0]):
                if args[0] == NULL or is_c(args[0]):
                    continue
                s.sites.add(i.id)
                if ('freed', f) in st.ts:
                    s.report(('twice', f), 'the %s of a request is released a second time at %s' % (f, i.where()), st, i)
                if f == 'FILES' and ('unlinked',) not in st.ts:
                    s.report(('unlink', s.fn.name), 'the uploaded files of a request are forgotten at %s before their temporary files are deleted' % i.where(), st, i)
                if f == 'session' and ('saved',) not in st.ts:
                    s.report(('save', s.fn.name), 'the session of a request is released at %s without having been saved or removed' % i.where(), st, i)
                s.rec(st, ('freed', f))
        elif c == 'onion_dict_preorder' and 'FILES' in s.fields_of(st, args[0]) and i.ops[1][0] == 'f' and i.ops[1][1] in s.prog.funcs:
            g = s.prog.funcs[i.ops[1][1]]
            if any(j.callee in ('unlink', 'remove') and j.ops[0] == ('v', 2) for j in g.calls()):
                s.rec(st, ('unlinked',))
        elif c == 'onion_ptr_list_foreach' and 'free_list' in s.fields_of(st, args[0]) and i.ops[1][0] == 'f':
            s.rec(st, ('items',), (bool(re.search('(^|_)free$', i.ops[1][1])),))
        elif c == 'onion_sessions_save':
            if 'session_id' in s.fields_of(st, args[1]) and 'session' in s.fields_of(st, args[2]):
                s.rec(st, ('saved',))
        elif c == 'onion_sessions_remove':
            if 'session_id' in s.fields_of(st, args[1]):
                # only an empty session (or none at all) may be thrown away
                s.on_branch(st, i, None, None)
                if not (('empty',) in st.ts or s.null(st, 'session')):
                    s.report(('lose', s.fn.name), 'a session that may hold data is removed from the store at %s when its request ends' % i.where(), st, i)
                s.rec(st, ('saved',))
        return None

    def after_call(s, st, i, args, ret):
        if i.callee == 'onion_dict_count' and 'session' in s.fields_of(st, args[0]):
            s.rec(st, ('count', i.id), (), (ret,))

    def on_store(s, st, i, addr, val):
        for f in s.fields:
            if addr == s.cell(f):
                if ('freed', f) not in st.ts and ('set', f) not in st.ts and not s.null(st, f):
                    s.report(('lost', f), 'the %s of a request is overwritten at %s without being released' % (f, i.where()), st, i)
                s.rec(st, ('set', f), (), (val,))

    def on_branch(s, st, i, term, truth):
        for f in s.fields:
            o = s.cur(st, f)
            if o is not None and s.is_zero(st, o):
                s.rec(st, ('null', f))
        # a session is attached only together with its identifier (property S04)
        if 'session' in s.fields and ('set', 'session') not in st.ts and ('set', 'session_id') not in st.ts and ('null', 'session_id') in st.ts:
            o = s.cur(st, 'session')
            if o is not None and s.nonzero(st, o):
                raise Stop()
        for k, p, t in s.recs(st, 'count'):
            if s.is_zero(st, t[0]):
                s.rec(st, ('empty',))

    def null(s, st, f):
        o = s.cur(st, f)
        return ('null', f) in st.ts or o is not None and s.is_zero(st, o)

    def released(s, st, f):
        return ('freed', f) in st.ts or s.null(st, f)


class CleanSim(TearSim):
    def on_call(s, st, i, args):
        if i.callee == 'onion_dict_set_flags':
            r = st.ts.get(('set', 'headers'))
            if r and r[1][0] == args[0] and is_c(args[1]) and args[1][1] & s.ICASE:
                s.rec(st, ('icase',))
        return TearSim.on_call(s, st, i, args)

    def on_store(s, st, i, addr, val):
        if addr == gep(('arg', 0), s.off['flags']):
            s.rec(st, ('flags',), (), (val,))
        if addr == gep(('arg', 0), s.off['path']):
            s.rec(st, ('path',), (), (val,))
        TearSim.on_store(s, st, i, addr, val)

    def on_ret(s, st, i, val):
        s.exits += 1
        for f in s.fields:
            r = st.ts.get(('set', f))
            nul = r is not None and s.is_zero(st, r[1][0]) or r is None and s.null(st, f)
            if f == 'headers':
                if r is None or r[1][0][0] != 'call' or s.fn.inst[r[1][0][1]].callee != 'onion_dict_new':
                    s.report(('headers',), 'the next request on the connection starts with the headers of the previous one (return at %s)' % i.where(), st, i)
                elif ('icase',) not in st.ts:
                    s.report(('icase',), 'the headers of the next request are not case insensitive (return at %s)' % i.where(), st, i)
                continue
            if f == 'session' and not nul:
                # no identifier: no session was attached
                nul = r is None and ('freed', f) not in st.ts and s.null(st, 'session_id')
            if not nul:
                s.report(('left', f), 'the next request on the connection still sees the %s of the previous one (return at %s)' % (f, i.where()), st, i)
        if 'headers' not in s.fields:
            return s.fin(st, i)
        r = st.ts.get(('flags',))
        ok = r is not None and (r[1][0] == C(0) or r[1][0][0] == 'bin' and r[1][0][1] == 'and' and is_c(r[1][0][3]) and not r[1][0][3][1] & ~s.NOKA)
        if not ok:
            s.report(('flags',), 'flags of the previous request survive into the next one on the connection (return at %s)' % i.where(), st, i)
        s.fin(st, i)

    def fin(s, st, i):
        if ('freed', 'fullpath') in st.ts:
            r = st.ts.get(('path',))
            if r is None or not s.is_zero(st, r[1][0]):
                s.report(('path',), 'the path of the previous request is left dangling (return at %s)' % i.where(), st, i)
        if ('freed', 'free_list') in st.ts and not (('items',) in st.ts and st.ts[('items',)][0][0]):
            s.report(('items',), 'the memory a request deferred freeing is lost (return at %s)' % i.where(), st, i)


class FreeReqSim(TearSim):
    def on_call(s, st, i, args):
        r = TearSim.on_call(s, st, i, args)
        if s.is_free(i) and args[0] == ('arg', 0):
            s.exits += 1
            for f in s.fields:
                ok = s.released(st, f)
                if f == 'session' and not ok:
                    ok = s.null(st, 'session_id')
                if not ok:
                    s.report(('leak', f), 'a request is freed at %s without releasing its %s' % (i.where(), f), st, i)
            if ('freed', 'free_list') in st.ts and not (('items',) in st.ts and st.ts[('items',)][0][0]):
                s.report(('items',), 'the memory a request deferred freeing is lost at %s' % i.where(), st, i)
            if not s.closed(st):
                s.report(('close',), 'a request is freed at %s without closing its connection' % i.where(), st, i)
            st.ts[('gone',)] = ((), ())
        if i.callee is None:
            j = s.fn.inst.get(i.calleev[1])
            if j is not None and j.op == 'load' and s.fn.label(j.ops[0]) == ('onion_listen_point_t', 'close') and args and args[0] == ('arg', 0):
                if ('closed',) in st.ts:
                    s.report(('close2',), 'the connection is closed a second time at %s' % i.where(), st, i)
                s.rec(st, ('closed',))
        return r

    def on_load(s, st, i, addr, val):
        TearSim.on_load(s, st, i, addr, val)
        l = s.fn.label(i.ops[0])
        if l == ('onion_listen_point_t', 'close'):
            s.rec(st, ('closefn',), (), (val,))
        elif addr == s.cell('connection.listen_point'):
            s.rec(st, ('lp',), (), (val,))

    def closed(s, st):
        if ('closed',) in st.ts:
            return True
        for k in ('closefn', 'lp'):
            r = st.ts.get((k,))
            if r and s.is_zero(st, r[1][0]):
                return True
        return False

    def on_ret(s, st, i, val):
        if ('gone',) not in st.ts:
            s.report(('struct',), 'onion_request_free returns at %s without freeing the request' % i.where(), st, i)


class ReuseSim(RecSim):
    """process: a connection that goes on is given a clean request."""
    def on_call(s, st, i, args):
        if i.callee == 'onion_request_clean' and args[0] == ('arg', 0):
            s.sites.add(i.id)
            s.rec(st, ('clean',))
            if ('resfree',) not in st.ts:
                s.report(('early',), 'the request is reset at %s before its response has ended' % i.where(), st, i)
        elif i.callee == 'onion_response_free':
            s.rec(st, ('resfree',))
        return None

    def on_ret(s, st, i, val):
        s.exits += 1
        if ('clean',) not in st.ts and s.decide_icmp(st, 'eq', val, C(s.KEEP)) is not False:
            s.report(('noclean',), 'the connection may be kept alive at %s without resetting the request' % i.where(), st, i)


def run(ctx):
    P = ctx.prog; nn = infer_nonnull(P)
    off = {f['n']: f['o'] for f in P.struct(REQ)['fields']}
    for f in OWNED + ['flags', 'path']:
        P.field(REQ, f)
    tot = 0; sites = 0; ex = 0
    groups = [['session', 'session_id']] + [[f] for f in OWNED if not f.startswith('session')]
    for cls, name, fields in [(c, n, g) for c, n in ((CleanSim, 'onion_request_clean'), (FreeReqSim, 'onion_request_free')) for g in groups + ([['websocket']] if c is FreeReqSim else [])] + [(ReuseSim, 'onion_request_process', [])]:
        s = cls(P, P.f(name)); s.nonnull = nn; s.fields = fields; s.off = off; s.sites = set(); s.exits = 0; s.limit = 4 if fields else 96
        s.ICASE = P.enum('OD_ICASE'); s.NOKA = P.enum('OR_NO_KEEP_ALIVE'); s.KEEP = P.enum('OCS_KEEP_ALIVE')
        s.run()
        ctx.need(s.exits, '%s never finishes' % name)
        tot += s.nstates; sites += len(s.sites); ex += s.exits
        for v in s.viol.values():
            ctx.violation(v)
    ctx.need(sites >= 4, 'only %d releases found' % sites)
    ctx.cover(fields=len(OWNED) + 1, releases=sites, exits=ex, states=tot)
