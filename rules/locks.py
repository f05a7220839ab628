"""C01: every lock taken is released on every exit (typestate over all functions)."""
from common import *

ACQ = {'pthread_mutex_lock': 0, 'pthread_rwlock_rdlock': 0, 'pthread_rwlock_wrlock': 0, 'onion_dict_lock_read': 0, 'onion_dict_lock_write': 0}
REL = {'pthread_mutex_unlock': 0, 'pthread_rwlock_unlock': 0, 'onion_dict_unlock': 0}
TRY = {'pthread_mutex_trylock': 0}
# the library's own lock API: these functions return holding / release on behalf of the caller, by contract
CONTRACT = {'onion_dict_lock_read': +1, 'onion_dict_lock_write': +1, 'onion_dict_unlock': -1}


class LockSim(Sim):
    contract = 0

    def ts_atoms(s, st):
        return [k[0] for k in st.ts]

    def on_subst(s, st, a, b):
        st.ts = {(subst(k[0], a, b), k[1]): v for k, v in st.ts.items()}

    def on_call(s, st, i, args):
        c = i.callee
        if c in ACQ:
            L = args[ACQ[c]]; kind = 'dict' if c.startswith('onion_') else 'lock'
            k = (L, kind)
            if st.ts.get(k, 0) > 0 and not (c.endswith('rdlock') or c.endswith('lock_read')) and not s.recursive(i):
                s.report(('relock', i.loc()), 'lock %s is acquired at %s while already held (%s)' % (pp(s.fn, L), i.where(), c), st, i)
            st.ts[k] = st.ts.get(k, 0) + 1
            s.sites.add((i.fn.name, i.id))
            s.default_call(st, i, args)
            return [st]
        if c in REL:
            L = args[REL[c]]; kind = 'dict' if c.startswith('onion_') else 'lock'
            k = (L, kind)
            s.sites.add((i.fn.name, i.id))
            n = st.ts.get(k, 0)
            if n <= 0 and s.contract >= 0:
                s.report(('unheld', i.loc()), 'lock %s is released at %s without being held on this path' % (pp(s.fn, L), i.where()), st, i)
            if n - 1 <= 0:
                st.ts.pop(k, None)
                if s.contract < 0:
                    s.released = True
            else:
                st.ts[k] = n - 1
            s.default_call(st, i, args)
            return [st]
        if c in TRY:
            L = args[TRY[c]]; k = (L, 'lock')
            a = st.copy(); s.default_call(a, i, args); b = st.copy(); s.default_call(b, i, args)
            s.assume_cmp(a, 'eq', a.env[i.id], 0); s.assume_cmp(b, 'ne', b.env[i.id], 0)
            a.ts[k] = a.ts.get(k, 0) + 1
            s.sites.add((i.fn.name, i.id))
            return [a, b]
        return None

    def recursive(s, i):
        # the poller's mutex is created recursive (PTHREAD_MUTEX_RECURSIVE)
        l = s.fn.label(i.ops[0])
        return l in s.recursive_fields

    def on_ret(s, st, i, val):
        s.exits += 1
        for (L, kind), n in st.ts.items():
            if n > s.contract:
                s.report(('leak', s.fn.name, repr(L)), 'returns at %s still holding %s' % (i.where(), pp(s.fn, L)), st, i)


def recursive_mutexes(P):
    rec = set()
    for f in P.funcs.values():
        for i in f.calls('pthread_mutexattr_settype'):
            if i.ops[1] == ('c', 1, 32):      # PTHREAD_MUTEX_RECURSIVE
                for j in f.calls('pthread_mutex_init'):
                    if j.ops[1][0] != 'n':
                        l = f.label(j.ops[0])
                        if l:
                            rec.add(l)
    return rec


def run(ctx):
    P = ctx.prog
    nn = infer_nonnull(P)
    sites = set(); exits = 0; fns = 0; states = 0
    rec = recursive_mutexes(P)
    for f in P.funcs.values():
        if not any(i.callee in ACQ or i.callee in REL or i.callee in TRY for i in f.calls()):
            continue
        s = LockSim(P, f); s.nonnull = nn; s.sites = sites; s.exits = 0; s.recursive_fields = rec
        s.contract = CONTRACT.get(f.name, 0)
        s.run()
        fns += 1; exits += s.exits; states += s.nstates
        for v in s.viol.values():
            ctx.violation(v)
    ctx.need(fns >= 10, 'only %d functions use locks' % fns)
    ctx.need(len(sites) >= 20, 'only %d lock operations seen' % len(sites))
    ctx.cover(functions=fns, lock_operations=len(sites), exits_checked=exits, states=states, recursive_mutexes=sorted('%s.%s' % r for r in rec))


# ---------------------------------------------------------------- C02: shared state only under its lock
# (struct, field): how the lock is found ('self': a lock inside the same object, 'any': some lock of the named struct)
SHARED = {('onion_poller_t', 'head'): 'self', ('onion_poller_t', 'n'): 'self', ('onion_poller_t', 'stop'): 'self', ('onion_poller_t', 'npollers'): 'self',
          ('onion_poller_slot_t', 'next'): 'onion_poller_t', ('onion_dict_t', 'refcount'): 'self',
          ('onion_t', 'client_data'): 'self', ('onion_t', 'client_data_free'): 'self'}
# in the destructor nobody else may use the object any more: these may be touched without the lock
DTOR_FREE = {'onion_poller_free': {('onion_poller_t', 'n'), ('onion_poller_t', 'stop')}, 'onion_free': {('onion_t', 'client_data'), ('onion_t', 'client_data_free')}}
ALLOCS = ('onion_low_malloc', 'onion_low_calloc', 'onion_low_scalar_malloc', 'malloc', 'calloc')
EXCL = {'pthread_mutex_lock': 'w', 'pthread_rwlock_wrlock': 'w', 'onion_dict_lock_write': 'w', 'pthread_rwlock_rdlock': 'r', 'onion_dict_lock_read': 'r', 'pthread_mutex_trylock': 'w'}
DICT_READ = {'onion_dict_get', 'onion_dict_get_dict', 'onion_dict_count', 'onion_dict_preorder', 'onion_dict_print_dot', 'onion_dict_to_json', 'onion_dict_rget', 'onion_dict_rget_dict', 'onion_dict_dup', 'onion_dict_hard_dup'}
HANDLE_CALLS = ('sqlite3_', 'redis')


class GuardSim(Sim):
    """records, for every access to shared state, which locks are held."""
    def ts_atoms(s, st):
        return [x for k, v in st.ts.items() for x in ((k[1],) if k[0] == 'L' else (k[1], v[0]))]

    def on_subst(s, st, a, b):
        n = {}
        for k, v in st.ts.items():
            if k[0] == 'L':
                n[('L', subst(k[1], a, b), k[2])] = v
            else:
                n[('V', subst(k[1], a, b))] = (subst(v[0], a, b), v[1])
        st.ts = n

    def fresh(s, v):
        r = root(v)
        return r[0] == 'al' or (r[0] == 'call' and s.fn.inst.get(r[1]) is not None and s.fn.inst[r[1]].callee in ALLOCS)

    def locks(s, st, addr):
        """descriptors of the locks held, relative to the object at addr."""
        out = set()
        for k, mode in st.ts.items():
            if k[0] != 'L':
                continue
            r = root(k[1])
            if r[0] == 'g':
                out.add((('@', r[1]), mode))
            elif r == root(addr):
                out.add((('self', k[2]), mode))
            if k[2]:
                out.add((('any', k[2][0]), mode))
        return out

    def access(s, st, i, var, addr, write):
        s.sites.add((s.fn.name, i.id))
        s.acc.append((var, s.locks(st, addr), write, i, s.trace(st)))

    def handed_out(s, op):
        """the object is what this function returns as new: nobody has it yet"""
        fn = s.fn
        b = op
        while b[0] == 'v' and b[1] in fn.inst and fn.inst[b[1]].op in ('getelementptr', 'bitcast') and not fn.inst[b[1]].d.get('voff'):
            b = fn.inst[b[1]].ops[0]
        out = set(); todo = [tuple(o) for i in fn.insts() if i.op == 'ret' for o in i.ops]
        while todo:
            o = todo.pop()
            if o in out:
                continue
            out.add(o)
            if o[0] == 'v' and o[1] in fn.inst and fn.inst[o[1]].op in ('phi', 'select'):
                todo += [tuple(x[0]) if isinstance(x[0], (tuple, list)) else tuple(x) for x in fn.inst[o[1]].ops]
        return tuple(b) in out

    def mem(s, st, i, addr, op, write):
        lab = s.fn.label(op)
        if lab in SHARED:
            if lab == ('onion_poller_slot_t', 'next') and s.handed_out(op):
                return
            if not s.fresh(addr) and lab not in DTOR_FREE.get(s.fn.name, ()):
                s.access(st, i, lab, addr, write)
        elif lab and lab[0] == '@' and lab[1] in s.gvars:
            s.access(st, i, lab, addr, write)

    def on_load(s, st, i, addr, val):
        s.mem(st, i, addr, i.ops[0], False)
        lab = s.fn.label(i.ops[0])
        if lab in s.handles and not s.dtor and not s.fresh(addr):
            st.ts[('V', val)] = (addr, lab)

    def on_store(s, st, i, addr, val):
        s.mem(st, i, addr, i.ops[1], True)

    def on_inst(s, st, i):
        if i.op in ('atomicrmw', 'cmpxchg'):
            lab = s.fn.label(i.ops[0])
            if lab and lab[0] == '@' and lab[1] in s.gvars or lab in SHARED:
                read = i.op == 'atomicrmw' and i.ops[1][0] == 'c' and i.ops[1][1] == 0
                if not read:
                    s.access(st, i, lab, s.val(st, i.ops[0]), True)

    def uses(s, st, i, args):
        c = i.callee or ''
        for a in args:
            h = st.ts.get(('V', a))
            if h is None:
                continue
            addr, lab = h
            if lab[1] == 'data':           # the dictionary of the in-memory store: locked through its own lock
                if c in ACQ or c in REL or c in ('onion_dict_free',):
                    continue
                held = {m for k, m in st.ts.items() if k[0] == 'L'}
                s.sites.add((s.fn.name, i.id))
                if not held or (c.startswith('onion_dict_') and c not in DICT_READ and a == args[0] and 'w' not in held):
                    s.report(('store', i.loc()), 'the shared session table is used by %s() at %s %s' % (c, i.where(), 'without holding its lock' if not held else 'while only a read lock is held'), st, i)
            elif c.startswith(HANDLE_CALLS) or lab[1] == 'column':
                if c in ACQ or c in REL:
                    continue
                s.sites.add((s.fn.name, i.id))
                if not any(d[0] == 'self' and m == 'w' for d, m in s.locks(st, addr)):
                    s.report(('handle', i.loc()), '%s() at %s uses the shared handle %s.%s without holding the lock of its store' % (c or 'a callback', i.where(), lab[0], lab[1]), st, i)

    def on_call(s, st, i, args):
        c = i.callee
        s.uses(st, i, args)
        if c in ACQ:
            L = args[ACQ[c]]
            lab = s.fn.label(i.ops[0])
            st.ts[('L', L, lab)] = EXCL[c]
            s.default_call(st, i, args)
            return [st]
        if c in REL:
            L = args[REL[c]]
            for k in [k for k in st.ts if k[0] == 'L' and k[1] == L]:
                del st.ts[k]
            s.default_call(st, i, args)
            return [st]
        if c in TRY:
            L = args[TRY[c]]
            a = st.copy(); s.default_call(a, i, args); b = st.copy(); s.default_call(b, i, args)
            s.assume_cmp(a, 'eq', a.env[i.id], 0); s.assume_cmp(b, 'ne', b.env[i.id], 0)
            a.ts[('L', L, s.fn.label(i.ops[0]))] = 'w'
            return [a, b]
        return None

    def after_call(s, st, i, args, ret):
        if ret is None:
            return
        if i.callee in ('sqlite3_column_text', 'onion_dict_get', 'onion_dict_get_dict') and args and ('V', args[0]) in st.ts:
            addr, lab = st.ts[('V', args[0])]
            st.ts[('V', ret)] = (addr, (lab[0], 'data' if lab[1] == 'data' else 'column'))

    def on_ret(s, st, i, val):
        if val is not None and ('V', val) in st.ts and not s.is_zero(st, val) and st.ts[('V', val)][1] in (('onion_sessions_t', 'data'),):
            s.report(('ret', i.loc()), 'a session of the shared table is returned at %s without a reference of its own' % i.where(), st, i)


def lname(l):
    if l is None:
        return 'a lock'
    if isinstance(l, str):
        return l
    return (l[1] if l[0] == '@' else '%s.%s' % l).split('.__data')[0]


def run_guard(ctx):
    P = ctx.prog
    nn = infer_nonnull(P)
    ft = P.field_targets()
    hooks = {k: set(v or ()) for k, v in ft.items()}
    ops = {n for fld in ('get', 'save') for n in hooks.get(('onion_sessions_t', fld), ())}
    dtors = set(hooks.get(('onion_sessions_t', 'free'), ()))
    # globals that are shared and changed after start up: those some function accesses under a lock, and the named ones
    gvars = {n for n in ('onion_random_refcount', 'listen_counter', 'poller_counter', 'onion_response_last_date_header', 'onion_response_last_time', 'onion_mime_dict') if n in P.globals}
    st_fields = {}
    for t in ('onion_session_sqlite3', 'onion_session_redis', 'onion_session_sqlite3_t', 'onion_session_redis_t'):
        if t in P.structs:
            st_fields[t] = [x['n'] for x in P.structs[t]['fields'] if x['n'] != 'mutex']
    stores = {(t, n) for t, fs in st_fields.items() for n in fs}
    acc = []; sites = set(); fns = 0; states = 0
    for f in P.funcs.values():
        lk = any(i.callee in ACQ or i.callee in REL or i.callee in TRY for i in f.calls())
        touch = lk or f.name in ops
        if not touch:
            for i in f.insts():
                o = i.ops[0] if i.op in ('load', 'atomicrmw', 'cmpxchg') else i.ops[1] if i.op == 'store' else None
                if o is not None:
                    l = f.label(o)
                    if l in SHARED or l in stores or (l and l[0] == '@' and l[1] in gvars):
                        touch = True; break
        if not touch or f.name in dtors:
            continue
        s = GuardSim(P, f); s.nonnull = nn; s.sites = sites; s.acc = acc; s.gvars = gvars
        s.dtor = f.name in dtors
        s.handles = set(stores)
        if f.name in ops and any(i.callee in ('onion_dict_lock_read', 'onion_dict_lock_write', 'onion_dict_unlock', 'onion_dict_get_dict') for i in f.calls()):
            s.handles.add(('onion_sessions_t', 'data'))
        s.run(); fns += 1; states += s.nstates
        for v in s.viol.values():
            ctx.violation(v)
    byvar = {}
    for a in acc:
        byvar.setdefault(a[0], []).append(a)
    guards = {}
    for var, l in byvar.items():
        how = SHARED.get(var)
        def ok(d):
            return d[0] == '@' or (d[0] == 'self' if how == 'self' else d == ('any', how))
        cand = {}
        for _, locks, write, i, _ in l:
            for d in {d for d, m in locks if ok(d) and (not write or m == 'w')}:
                cand[d] = cand.get(d, 0) + 1
        best = max(cand, key=lambda d: (cand[d], repr(d))) if cand else None
        guards['%s.%s' % var] = lname(best[1]) if best else None
        for _, locks, write, i, tr in l:
            if best is None or not any(d == best and (not write or m == 'w') for d, m in locks):
                ctx.violation(dict(msg='%s.%s is %s at %s without %s' % (var[0].replace('@', 'global'), var[1], 'changed' if write else 'read', i.where(),
                                    'any lock' if best is None else 'the lock that protects it elsewhere (%s)' % lname(best[1])),
                                   where=i.where(), path=tr, key=(var, i.loc())))
    ctx.need(len(byvar) >= 6, 'only %d shared variables seen' % len(byvar))
    ctx.cover(functions=fns, shared_variables=len(byvar), accesses=len(acc), guards=guards, sites=len(sites), states=states)


# ---------------------------------------------------------------- C03: no deadlock by lock order, no waiting under a lock
WAITS = {'pthread_join', 'onion_low_pthread_join', 'epoll_wait', 'pthread_cond_wait', 'sem_wait', 'accept', 'accept4', 'sleep', 'usleep', 'nanosleep', 'onion_poller_poll', 'onion_listen'}
EVENT = {('onion_handler_t', 'handler'), ('onion_poller_slot_t', 'f'), ('onion_listen_point_t', 'read_ready'), ('onion_websocket_t', 'callback'), ('onion_poller_slot_t', 'shutdown')}


def lock_label(f, i):
    l = f.label(i.ops[0])
    if i.callee.startswith('onion_dict_'):
        return ('onion_dict_t', 'lock')
    if l is None:
        return None
    return (l[0], (l[1] or '').split('.__data')[0])


def may_acquire(P):
    direct = {}; calls = {}; waits = {}
    for f in P.funcs.values():
        d = set(); cs = set(); w = None
        for i in f.calls():
            if i.callee in ACQ or i.callee in TRY:
                l = lock_label(f, i)
                if l:
                    d.add(l)
            if i.callee in WAITS:
                w = i.callee
            if i.callee:
                cs.add(i.callee)
            else:
                v = i.calleev
                j = f.inst.get(v[1]) if v[0] == 'v' else None
                if j is not None and j.op == 'load' and f.label(j.ops[0]) in EVENT:
                    d.add('event')
                else:
                    cs |= P.targets(f, i) or set()
        direct[f.name] = d; calls[f.name] = cs; waits[f.name] = w
    acq = {n: set(d) for n, d in direct.items()}
    wt = dict(waits)
    ch = True
    while ch:
        ch = False
        for n, cs in calls.items():
            for c in cs:
                if c in acq:
                    if acq[c] - acq[n]:
                        acq[n] |= acq[c]; ch = True
                    if wt[c] and not wt[n]:
                        wt[n] = wt[c]; ch = True
    return acq, wt


class OrderSim(LockSim):
    def on_call(s, st, i, args):
        c = i.callee
        held = {}
        for (L, kind) in st.ts:
            held.setdefault(s.lab.get((L, kind)), (L, kind))
        if held:
            if c in WAITS or (c and s.wt.get(c)) or (not c and any(s.wt.get(t) for t in s.prog.targets(s.fn, i) or ())):
                w = c or 'a callback'
                s.report(('wait', i.loc()), '%s() at %s waits for another thread or client%s while %s is held' % (w, i.where(), '' if c in WAITS else ' (through %s)' % s.wt.get(c), ', '.join(lname(h) for h in held)), st, i)
            new = set()
            if c in ACQ or c in TRY:
                l = lock_label(s.fn, i)
                L = args[0]
                if l and (L, 'dict' if c.startswith('onion_dict') else 'lock') not in st.ts:
                    new.add(l)
            elif c in s.acq:
                new |= s.acq[c]
            elif not c:
                v = i.calleev
                j = s.fn.inst.get(v[1]) if v[0] == 'v' else None
                if j is not None and j.op == 'load' and s.fn.label(j.ops[0]) in EVENT:
                    new.add('event')
                for t in s.prog.targets(s.fn, i) or ():
                    new |= s.acq.get(t, set())
            for n in new:
                if n == 'event' and s.fn.name == 'onion_poller_free':
                    continue                # no poller thread is left: the lock only keeps stragglers out
                if n == 'event':
                    s.report(('event', i.loc()), 'a request handler or event callback can run at %s while %s is held' % (i.where(), ', '.join(lname(h) for h in held)), st, i)
                    continue
                for h in held:
                    if h is not None:
                        s.edges.setdefault((h, n), (i, s.trace(st), args, held[h]))
        r = LockSim.on_call(s, st, i, args)
        if c in ACQ or c in TRY:
            l = lock_label(s.fn, i)
            for st2 in r or ():
                for k in st2.ts:
                    if k not in s.lab:
                        s.lab[k] = l
        return r

    def report(s, key, msg, st=None, inst=None):
        if key[0] in ('wait', 'event'):
            LockSim.report(s, key, msg, st, inst)

    def on_subst(s, st, a, b):
        for (L, k) in list(st.ts):
            s.lab[(subst(L, a, b), k)] = s.lab.get((L, k))
        LockSim.on_subst(s, st, a, b)


def run_order(ctx):
    P = ctx.prog
    nn = infer_nonnull(P)
    acq, wt = may_acquire(P)
    rec = {(a, (b or '').split('.__data')[0]) for a, b in recursive_mutexes(P)}
    edges = {}; fns = 0; sites = set()
    for f in P.funcs.values():
        if not any(i.callee in ACQ or i.callee in TRY for i in f.calls()) or f.name in CONTRACT:
            continue
        s = OrderSim(P, f); s.nonnull = nn; s.sites = sites; s.exits = 0; s.recursive_fields = set(); s.acq = acq; s.wt = wt; s.edges = edges; s.lab = {}
        s.run(); fns += 1
        for v in s.viol.values():
            ctx.violation(v)
    g = {}
    for (a, b), w in edges.items():
        if a == b:
            if a not in rec and a != ('onion_dict_t', 'lock') and a != ('onion_dict_t', 'refmutex'):
                ctx.violation(dict(msg='%s is taken again by %s() at %s while it is already held' % (lname(a), w[0].callee or 'a callback', w[0].where()), where=w[0].where(), path=w[1]))
            continue
        g.setdefault(a, set()).add(b)
    def reach(a, b, seen):
        if a == b:
            return True
        for n in g.get(a, ()):
            if n not in seen:
                seen.add(n)
                if reach(n, b, seen):
                    return True
        return False
    for (a, b), w in edges.items():
        if a != b and reach(b, a, {b}):
            ctx.violation(dict(msg='lock order: %s is held while %s is taken at %s, and elsewhere the other way round' % (lname(a), lname(b), w[0].where()), where=w[0].where(), path=w[1]))
    ctx.need(fns >= 8, 'only %d functions take locks' % fns)
    ctx.cover(functions=fns, lock_operations=len(sites), order_edges=sorted('%s -> %s' % (lname(a), lname(b)) for a, b in edges), may_wait=sorted(n for n, w in wt.items() if w)[:40])


# ---------------------------------------------------------------- C04: no hidden static state
NONREENTRANT = set('''asctime ctime gmtime localtime strtok getpwnam getpwuid getgrnam getgrgid gethostbyname gethostbyname2 gethostbyaddr getservbyname
getservbyport getprotobyname inet_ntoa ttyname getlogin tmpnam tempnam ctermid l64a ecvt fcvt basename_r rand srand random srandom drand48 lrand48
mrand48 setenv putenv unsetenv setlocale localeconv strsignal readdir64_r getmntent chdir fchdir umask'''.split())
# state of the process that is set up once, by the application or under pthread_once, or only holds an idempotent hint
SETUP = {'last_onion', 'onion_log', 'onion_log_flags', 'onion_poller_last_time', 'onion_poller_max_events', 'onion_use_sendfile', 'shutdown_server_first_call', 'is_logging_initialized', 'onion_poller_static'}
SETUP_FN = {'onion_low_initialize_memory_allocation', 'onion_low_initialize_threads'}
READS_ONLY = {'strlen', 'strcmp', 'strncmp', 'strcasecmp', 'strncasecmp', 'strstr', 'strchr', 'memcmp', 'onion_low_strdup', 'strdup'}


class StaticSim(GuardSim):
    def mem(s, st, i, addr, op, write):
        pass

    def uses(s, st, i, args):
        pass

    def glob(s, v):
        r = root(v)
        return r[1] if r[0] == 'g' and r[1] in s.muts else None

    def change(s, st, i, g):
        s.nw += 1
        if not any(k[0] == 'L' for k in st.ts):
            s.report(('static', g, i.loc()), 'the static variable %s is changed at %s without a lock: concurrent requests share it' % (g, i.where()), st, i)

    def on_store(s, st, i, addr, val):
        g = s.glob(addr)
        if g:
            s.change(st, i, g)

    def on_inst(s, st, i):
        pass

    def on_load(s, st, i, addr, val):
        pass

    def on_call(s, st, i, args):
        c = i.callee
        if c and c not in ACQ and c not in REL and c not in TRY and not c.startswith(('pthread_', 'llvm.dbg', 'llvm.lifetime')):
            for k, a in enumerate(args):
                g = s.glob(a)
                if g and c not in READS_ONLY and s.writes(c, k):
                    s.change(st, i, g)
        return GuardSim.on_call(s, st, i, args)

    def writes(s, c, k):
        if c in ('snprintf', 'sprintf', 'vsnprintf', 'memcpy', 'memset', 'memmove', 'strcpy', 'strcat', 'strncpy', 'strncat', 'strftime') or c.startswith(('llvm.memcpy', 'llvm.memset', 'llvm.memmove')):
            return k == 0
        if c in ('read', 'recv', 'fread', 'getcwd', 'realpath', 'localtime_r', 'gmtime_r'):
            return True
        if c in s.prog.funcs:
            w = s.prog.argwrites().get(c)
            return w is None or k in w
        return c in ('time', 'clock_gettime', 'stat', 'gettimeofday')


def run_static(ctx):
    P = ctx.prog
    nn = infer_nonnull(P)
    calls = 0; fns = 0; nw = 0
    muts = set()
    missing = SETUP - set(P.globals)
    for n, g in P.globals.items():
        if g.get('const') or g.get('tls') or not g.get('file') or n in SETUP or 'mutex' in (g.get('dty') or '') or 'rwlock' in (g.get('dty') or '') or 'pthread_once' in (g.get('dty') or ''):
            continue
        muts.add(n)
    # a setup variable that was merely renamed keeps its file and type
    base = {'last_onion': ('onion.c', 'onion_t*'), 'onion_poller_last_time': ('poller.c', 'time_t'), 'onion_poller_max_events': ('poller.c', 'size_t'),
            'onion_use_sendfile': ('shortcuts.c', 'int'), 'shutdown_server_first_call': ('onion.c', '_Bool'), 'onion_log_flags': ('log.c', 'int'), 'onion_poller_static': ('poller.c', 'anon')}
    for m in missing:
        for n in sorted(muts):
            g = P.globals[n]
            if m in base and os_base(g.get('file')) == base[m][0] and g.get('dty') == base[m][1]:
                muts.discard(n); break
    for f in P.funcs.values():
        for i in f.calls():
            if i.callee:
                calls += 1
                if i.callee in NONREENTRANT:
                    ctx.violation(dict(msg='%s() is called at %s: it works on state all threads share' % (i.callee, i.where()), where=i.where(), path=[]))
        if f.name in SETUP_FN:
            continue
        if not any(o[0] == 'g' and o[1] in muts for i in f.insts() for o in operands(i)):
            continue
        s = StaticSim(P, f); s.nonnull = nn; s.sites = set(); s.acc = []; s.gvars = set(); s.dtor = False; s.handles = set(); s.muts = muts; s.nw = 0
        s.run(); fns += 1; nw += s.nw
        for v in s.viol.values():
            ctx.violation(v)
    ctx.need(calls > 500, 'only %d calls' % calls)
    ctx.cover(calls_examined=calls, static_variables=sorted(muts), functions_touching_them=fns, guarded_writes=nw)


def os_base(f):
    return (f or '').rsplit('/', 1)[-1]


def operands(i):
    for o in i.ops:
        if isinstance(o, tuple) and o and isinstance(o[0], tuple):
            yield o[0]
        else:
            yield o
