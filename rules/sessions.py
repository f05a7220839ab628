"""Session rules: which identifiers a request may adopt, what the stores do with them, how they are generated."""
from gates import *

SID = ('onion_request_t', 'session_id'); SES = ('onion_request_t', 'session')


class SidSim(RecSim):
    def after_call(s, st, i, args, ret):
        if i.callee == 'onion_sessions_get':
            s.rec(st, ('get', i.id), (), (ret, args[1]))
        elif i.callee == 'onion_sessions_create':
            s.rec(st, ('new', i.id), (), (ret,))

    def on_store(s, st, i, addr, val):
        l = s.fn.label(i.ops[1])
        if l == SID:
            s.n.add(i.id)
            if val == NULL or s.is_zero(st, val):
                return
            if any(t[0] == val for k, p, t in s.recs(st, 'new')):
                return
            if any(t[1] == val and s.nonzero(st, t[0]) for k, p, t in s.recs(st, 'get')):
                return
            s.report(('sid', i.loc()), 'a request adopts at %s a session identifier that is neither new nor known to the session store on this path' % i.where(), st, i)
        elif l == SES:
            s.n.add(i.id)
            if val == NULL or s.is_zero(st, val):
                return
            if not any(t[0] == val for k, p, t in s.recs(st, 'get')):
                s.report(('ses', i.loc()), 'a request is given at %s session data that was not looked up in the session store' % i.where(), st, i)
            else:
                # data and identifier belong together
                cell = [v for a, (v, l2) in st.mem.items() if l2 == SID]
                ids = [t[1] for k, p, t in s.recs(st, 'get') if t[0] == val]
                s.rec(st, ('pair',), (), (val,) + tuple(ids[:1]))

    def on_ret(s, st, i, val):
        p = st.ts.get(('pair',))
        if p is not None:
            cells = {v for a, (v, l2) in st.mem.items() if l2 == SID}
            ses = {v for a, (v, l2) in st.mem.items() if l2 == SES}
            if p[1][0] in ses and cells and p[1][1] not in cells:
                s.report(('pairing', s.fn.name), '%s leaves the request with the data of one session and the identifier of another' % s.fn.src, st, i)


class SaveSim(RecSim):
    """a store's save(id, data): NULL data removes the entry of that id, other data is written under that id."""
    OPS = ('DELETE', 'INSERT')

    def after_call(s, st, i, args, ret):
        c = i.callee
        if c == 'onion_dict_get_dict' and args[1] == ('arg', 1):
            s.rec(st, ('have', i.id), (), (ret,))
        elif c.startswith('sqlite3_bind_') if c else False:
            s.rec(st, ('anyb', i.id), (), (ret,))
            if args[2] == ('arg', 1):
                s.rec(st, ('bound', i.id), (), (ret, args[0]))

    def stmt_kind(s, v):
        if v[0] == 'ld':
            return s.stmts.get(s.fn.label(s.fn.inst[v[1]].ops[0]))
        return None

    def on_call(s, st, i, args):
        c = i.callee
        if c == 'onion_dict_remove' and args[1] == ('arg', 1):
            s.rec(st, ('removed',))
        elif c == 'onion_dict_add' and args[1] == ('arg', 1):
            s.rec(st, ('saved',))
        elif c == 'redisCommand':
            q = (s.prog.cstr(i.ops[1]) or '').split()
            if args[2] == ('arg', 1):
                if q[:1] in (['HDEL'], ['DEL']):
                    s.rec(st, ('removed',))
                elif q[:1] in (['HSET'], ['SET'], ['HMSET']):
                    s.rec(st, ('saved',))
        elif c == 'sqlite3_step':
            k = s.stmt_kind(args[0])
            b = any(t[1] == args[0] and s.is_zero(st, t[0]) for _, p, t in s.recs(st, 'bound'))
            if k and b:
                s.rec(st, ('removed',) if k == 'DELETE' else ('saved',) if k in ('INSERT', 'REPLACE', 'UPDATE') else ('other',))
        return None

    def on_ret(s, st, i, val):
        D = ('arg', 2)
        s.exits += 1
        failed = any(not s.is_zero(st, t[0]) and s.nonzero(st, t[0]) for _, p, t in s.recs(st, 'bound'))
        if s.is_zero(st, D):
            s.nrem += 1
            absent = any(s.is_zero(st, t[0]) for _, p, t in s.recs(st, 'have'))
            if ('removed',) not in st.ts and not absent and not failed:
                s.report(('rem', s.fn.name), '%s returns at %s without removing the session it was told to remove' % (s.fn.src, i.where()), st, i)
            if ('saved',) in st.ts:
                s.report(('rem2', s.fn.name), '%s stores something when told to remove the session' % s.fn.src, st, i)
        elif s.nonzero(st, D):
            s.nsave += 1
            if ('saved',) not in st.ts and not failed and not s.bindfail(st):
                s.report(('sav', s.fn.name), '%s returns at %s without storing the session data under its identifier' % (s.fn.src, i.where()), st, i)

    def bindfail(s, st):
        return any(s.nonzero(st, t[0]) for k, p, t in s.recs(st, 'anyb'))


class GetSim(RecSim):
    def after_call(s, st, i, args, ret):
        c = i.callee
        if c == 'onion_dict_get_dict':
            s.rec(st, ('have', i.id), (args[1] == ('arg', 1),), (ret,))
        elif c == 'onion_dict_dup':
            s.rec(st, ('dup', i.id), (), (ret, args[0]))
        elif c == 'redisCommand':
            q = (s.prog.cstr(i.ops[1]) or '').split()
            s.rec(st, ('redis', i.id), (q[0] if q else '?', args[2] == ('arg', 1)), (ret,))
        elif c == 'onion_dict_from_json':
            s.rec(st, ('json', i.id), (), (ret, args[0]))
        elif c == 'sqlite3_bind_text':
            s.rec(st, ('bound', i.id), (args[2] == ('arg', 1),), (ret, args[0]))
        elif c == 'sqlite3_step':
            s.rec(st, ('step', i.id), (), (ret, args[0]))
        elif c == 'sqlite3_column_text':
            s.rec(st, ('col', i.id), (), (ret, args[0]))

    def ok(s, st, v):
        for k, p, t in s.recs(st, 'dup'):
            if t[0] == v:
                return any(p2[0] and t2[0] == t[1] for _, p2, t2 in s.recs(st, 'have'))
        for k, p, t in s.recs(st, 'have'):
            if t[0] == v:
                return p[0]
        for k, p, t in s.recs(st, 'json'):
            if t[0] == v:
                src = t[1]
                if src[0] == 'ld':
                    a = s.val(st, s.fn.inst[src[1]].ops[0]) if False else None
                    base = s.jsrc.get(src)
                    return any(p2[0] in ('HGET', 'GET') and p2[1] and t2[0] == base for _, p2, t2 in s.recs(st, 'redis'))
                for _, p2, t2 in s.recs(st, 'col'):
                    if t2[0] == src:
                        return any(p3[0] and t3[1] == t2[1] and s.is_zero(st, t3[0]) for _, p3, t3 in s.recs(st, 'bound')) and \
                            any(t3[1] == t2[1] and s.interval(st, t3[0]) == (100, 100) for _, p3, t3 in s.recs(st, 'step'))
        return False

    def on_load(s, st, i, addr, val):
        if val[0] == 'ld':
            s.jsrc[val] = root(addr)

    def on_ret(s, st, i, val):
        s.exits += 1
        if val is None or s.is_zero(st, val):
            return
        if not s.ok(st, val):
            s.report(('get', s.fn.name), '%s returns at %s data that is not what the store holds under the requested identifier' % (s.fn.src, i.where()), st, i)


class GenSim(RecSim):
    """identifier generation inside onion_sessions_create."""

    def on_call(s, st, i, args):
        c = i.callee
        if c == 'onion_random_generate':
            n = args[1]
            s.rec(st, ('rnd', i.id), (n[1] if is_c(n) else 0,), (root(args[0]),))
            s.rnd += 1
            return None
        if c is None:
            j = s.fn.inst.get(i.calleev[1])
            if j is not None and j.op == 'load' and s.fn.label(j.ops[0]) == ('onion_sessions_t', 'save'):
                s.saves += 1
                r = [p[0] for k, p, t in s.recs(st, 'rnd') if t[0] == args[1]]
                if not r or max(r) < 32:
                    s.report(('short', i.loc()), 'the new session identifier stored at %s has only %s random bytes (32 needed)' % (i.where(), max(r) if r else 0), st, i)
            return None
        if c.startswith('llvm.mem') or c in s.prog.funcs or c in s.prog.EXT_WRITES:
            for k in s.prog.call_writes(i):
                if k < len(args) and any(t[0] == root(args[k]) for _, p, t in s.recs(st, 'rnd')):
                    s.report(('over', i.loc()), 'the random session identifier is overwritten at %s by %s' % (i.where(), c), st, i)
        return None

    def on_store(s, st, i, addr, val):
        if not any(t[0] == root(addr) for _, p, t in s.recs(st, 'rnd')):
            return
        s.stores += 1
        if val == NULL:
            # terminator: must not cut the identifier short
            lo, hi = (addr[2], addr[2]) if addr[0] == 'p' and not addr[3] else (None, None)
            if addr[0] != 'p':
                lo = 0
            elif addr[3]:
                lo = s.interval(st, addr[3][0][0])[0] + addr[2] if len(addr[3]) == 1 and addr[3][0][1] == 1 else -1
            if lo is not None and lo < 32:
                s.report(('cut', i.loc()), 'the session identifier may be cut short at %s (terminator at offset >= %s)' % (i.where(), lo), st, i)
            return
        ok = s.rand_based(i.ops[0], root(addr))
        if not ok:
            s.report(('const', i.loc()), 'a character of the session identifier written at %s does not depend on the random data' % i.where(), st, i)
        elif ok is not True and ok < 62:
            s.report(('mod', i.loc()), 'characters of the session identifier written at %s are drawn from only %s symbols' % (i.where(), ok), st, i)

    def rand_based(s, v, buf, seen=None, mod=None):
        """static slice: the value derives from a byte load out of the random buffer."""
        seen = set() if seen is None else seen
        st = [v]; found = False; mod = True
        while st:
            v = st.pop()
            if v[0] != 'v' or v[1] in seen:
                continue
            seen.add(v[1])
            i = s.fn.inst.get(v[1])
            if i is None:
                continue
            if i.op == 'load':
                r = s._static_root(i.ops[0])
                if r is not None and 'callee' in r.d and ('call', r.id) == buf:
                    found = True; continue
                g = s.fn.inst.get(i.ops[0][1]) if i.ops[0][0] == 'v' else None
                if g is not None and g.op == 'getelementptr':
                    st += [o for o in g.ops[1:]]
                continue
            if i.op in ('urem', 'srem', 'and') and i.ops[1][0] == 'c':
                m = i.ops[1][1] + (1 if i.op == 'and' else 0)
                if i.op != 'and' or m <= 128:
                    mod = m if mod is True else min(mod, m)
            if i.op == 'phi':
                st += [o for o, _ in i.ops]
            elif 'callee' not in i.d:
                st += list(i.ops)
        return mod if found else False


def run(ctx):
    P = ctx.prog
    nn = infer_nonnull(P)
    P.field(*SID); P.field(*SES)
    n = set(); states = 0; fns = 0
    for f in P.funcs.values():
        if any(i.op == 'store' and f.label(i.ops[1]) in (SID, SES) for i in f.insts()):
            s = SidSim(P, f); s.nonnull = nn; s.n = n; s.run(); states += s.nstates; fns += 1
            for v in s.viol.values():
                ctx.violation(v)
    ctx.need(len(n) >= 2, 'only %d stores of session identifiers' % len(n))
    ctx.cover(adopting_functions=fns, adoption_sites=len(n), states=states)


def stmts(P):
    """which SQL each prepared statement member holds: label -> verb."""
    r = {}
    for f in P.funcs.values():
        prep = {}
        for i in f.calls('sqlite3_prepare_v2'):
            q = (P.cstr(i.ops[1]) or '').split()
            if q and i.ops[3][0] == 'v':
                prep[i.ops[3][1]] = q[0].upper()
                l = f.label(i.ops[3])
                if l:
                    r[l] = q[0].upper()
        for i in f.insts():
            if i.op == 'store' and i.ops[0][0] == 'v':
                j = f.inst.get(i.ops[0][1])
                if j is not None and j.op == 'load' and j.ops[0][0] == 'v' and j.ops[0][1] in prep:
                    l = f.label(i.ops[1])
                    if l:
                        r[l] = prep[j.ops[0][1]]
    return r


def run_store(ctx):
    P = ctx.prog
    nn = infer_nonnull(P)
    ft = P.field_targets()
    saves = ft.get(('onion_sessions_t', 'save')); gets = ft.get(('onion_sessions_t', 'get'))
    ctx.need(saves and gets, 'session stores not found')
    ctx.need(len(saves) >= 3 and len(gets) >= 3, 'expected the memory, sqlite and redis stores')
    sm = stmts(P); states = 0; nr = ns = ng = 0
    for n in sorted(saves):
        s = SaveSim(P, P.f(n)); s.nonnull = nn; s.stmts = sm; s.exits = s.nrem = s.nsave = 0
        s.run(); states += s.nstates; nr += s.nrem; ns += s.nsave
        ctx.need(s.exits > 0, n)
        for v in s.viol.values():
            ctx.violation(v)
    for n in sorted(gets):
        s = GetSim(P, P.f(n)); s.nonnull = nn; s.exits = 0; s.jsrc = {}
        s.run(); states += s.nstates; ng += s.exits
        for v in s.viol.values():
            ctx.violation(v)
    # removal reaches the store with NULL data
    f = P.f('onion_sessions_remove'); k = 0
    for i in f.calls():
        if i.callee is None and P.targets(f, i) == saves:
            k += 1
            if i.ops[2][0] not in ('n',):
                ctx.violation('onion_sessions_remove does not ask the store to remove the session', where=i.where())
            if i.ops[1] != ('v', 1):
                ctx.violation('onion_sessions_remove acts on another session', where=i.where())
    if not k:
        ctx.violation('onion_sessions_remove never asks the store to remove the session', where=f.src)
    ctx.cover(stores=len(saves), remove_exits=nr, save_exits=ns, lookup_exits=ng, statements={'%s.%s' % a: b for a, b in sm.items()}, states=states)


def run_gen(ctx):
    P = ctx.prog
    f = P.f('onion_sessions_create')
    s = GenSim(P, f); s.nonnull = infer_nonnull(P); s.saves = s.rnd = s.stores = 0
    s.run()
    for v in s.viol.values():
        ctx.violation(v)
    ctx.need(s.saves and s.rnd, 'identifier generation not found (%d/%d)' % (s.saves, s.rnd))
    g = P.f('onion_random_generate')
    n = 0
    class G(RecSim):
        def on_call(s, st, i, args):
            if i.callee in ('gnutls_rnd',):
                if args[1] == ('arg', 0) and args[2] == ('arg', 1):
                    s.rec(st, ('done',))
            return None
        def on_ret(s, st, i, val):
            if ('done',) not in st.ts:
                s.report(('g', s.fn.name), '%s returns at %s without filling the whole buffer from the cryptographic generator' % (s.fn.src, i.where()), st, i)
    q = G(P, g); q.run()
    for v in q.viol.values():
        ctx.violation(v)
    weak = {'rand', 'random', 'rand_r', 'drand48', 'lrand48', 'srand', 'srandom'}
    for h in P.funcs.values():
        for i in h.calls(*weak):
            ctx.violation('predictable generator %s is used at %s' % (i.callee, i.where()), where=i.where())
    ctx.cover(publications=s.saves, random_calls=s.rnd, identifier_writes=s.stores, states=s.nstates + q.nstates)
