"""Resource ownership typestate: descriptors, directory/FILE handles, third-party handles, heap blocks.

Every acquired resource is a symbol with a status: H held by this activation, R released.  Storing it into
memory that outlives the function, returning it or handing it to a parameter that keeps it ends the obligation;
storing it into a block this activation still owns makes that block its owner (ownership tree).
Summaries (which parameters a function releases / keeps, whether it returns a fresh resource) are inferred
bottom-up over the library's call graph.
"""
from common import *
from nulls import DEREF

# acquire: callee -> (kind, failure test on the result)
ACQ_RET = {}
for n in 'open open64 openat socket accept accept4 epoll_create1 epoll_create eventfd timerfd_create mkstemp mkstemp64 mkostemp mkostemp64 mkostemp dup dup3 inotify_init1'.split():
    ACQ_RET[n] = ('fd', 'neg')
for n in 'opendir fdopendir'.split():
    ACQ_RET[n] = ('DIR', 'null')
for n in 'fopen fdopen tmpfile fopen64'.split():
    ACQ_RET[n] = ('FILE', 'null')
for n in 'malloc calloc strdup strndup realpath onion_low_malloc onion_low_calloc onion_low_scalar_malloc onion_low_strdup onion_low_realloc realloc'.split():
    ACQ_RET[n] = ('heap', 'null')
ACQ_RET.update({'xmlParseMemory': ('xmlDoc', 'null'), 'xmlBufferCreate': ('xmlBuffer', 'null'), 'xmlNewTextWriterMemory': ('xmlWriter', 'null'),
                'redisConnect': ('redisContext', 'null'), 'redisCommand': ('redisReply', 'null')})
# objects of the library with their own destructor
OBJ = {'onion_dict_new': 'dict', 'onion_dict_dup': 'dict', 'onion_dict_hard_dup': 'dict', 'onion_dict_from_json': 'dict', 'onion_block_new': 'block', 'onion_dict_to_json': 'block',
       'onion_response_new': 'response', 'onion_request_new': 'request', 'onion_request_new_from_socket': 'request',
       'onion_poller_slot_new': 'slot', 'onion_ptr_list_new': 'ptrlist', 'onion_poller_new': 'poller', 'onion_listen_point_new': 'listenpoint'}
# acquire through an out parameter: callee -> (arg index, kind, success test)
ACQ_OUT = {'getaddrinfo': (3, 'addrinfo', 'zero'), 'sqlite3_prepare_v2': (3, 'sqlite3_stmt', 'zero'), 'sqlite3_open': (1, 'sqlite3', 'any'),
           'gnutls_init': (0, 'gnutls_session', 'zero')}
# resources whose handle is the address itself: callee -> (arg index, kind, success test)
ACQ_ADDR = {'regcomp': (0, 'regex', 'zero')}
REL = {'close': (0, 'fd'), 'closedir': (0, 'DIR'), 'fclose': (0, 'FILE'), 'free': (0, 'heap'), 'onion_low_free': (0, 'heap'), 'xmlFreeDoc': (0, 'xmlDoc'),
       'xmlBufferFree': (0, 'xmlBuffer'), 'xmlFreeTextWriter': (0, 'xmlWriter'), 'redisFree': (0, 'redisContext'), 'freeReplyObject': (0, 'redisReply'),
       'onion_handler_free': (0, 'handler'), 'onion_websocket_free': (0, 'websocket'),
       'onion_dict_free': (0, 'dict'), 'onion_block_free': (0, 'block'), 'onion_response_free': (0, 'response'), 'onion_request_free': (0, 'request'),
       'onion_poller_slot_free': (0, 'slot'), 'onion_ptr_list_free': (0, 'ptrlist'), 'onion_poller_free': (0, 'poller'), 'onion_listen_point_free': (0, 'listenpoint'),
       'freeaddrinfo': (0, 'addrinfo'), 'sqlite3_finalize': (0, 'sqlite3_stmt'), 'sqlite3_close': (0, 'sqlite3'), 'gnutls_deinit': (0, 'gnutls_session'),
       'regfree': (0, 'regex'), 'xmlFree': (0, 'heap'), 'fdopen': (0, 'fd'), 'fdopendir': (0, 'fd')}
# external functions that keep a pointer argument
EXT_KEEP = {'pthread_create': (3,), 'pthread_setspecific': (1,), 'png_set_write_fn': (1,), 'setenv': (), 'gnutls_transport_set_ptr': (),
            'gnutls_certificate_set_dh_params': (1,), 'atexit': (0,)}
# never keep an argument: the allocator, and what is decided by flags or counted references
# references back to an object somebody else owns
SETTER = lambda n: n.startswith('onion_set_') or n == 'onion_shortcut_internal_redirect'
REPLACED = {('onion_listen_point_t', 'port'), ('onion_listen_point_t', 'hostname'), ('onion_request_t', 'fullpath')}
BACKREF = {('onion_response_t', 'request'), ('onion_websocket_t', 'req'), ('onion_listen_point_t', 'server')}
NO_KEEP = {'onion_dict_add', 'onion_dict_dup', 'onion_low_malloc', 'onion_low_calloc', 'onion_low_scalar_malloc', 'onion_low_realloc', 'onion_low_strdup', 'onion_low_free',
           'onion_low_try_malloc', 'onion_low_try_calloc', 'onion_low_try_scalar_malloc', 'onion_low_try_realloc', 'onion_low_try_strdup'}


class ResSim(Sim):
    max_states = 50000
    limit = 64

    # ts: key ('r', atom) -> (kind, status, owner atom or None, acq inst id) ; values hashable
    def ts_atoms(s, st):
        r = []
        for k, v in st.ts.items():
            r.append(k[1])
            if v[2] is not None:
                r.append(v[2])
        return r

    def on_subst(s, st, a, b):
        n = {}
        for k, v in st.ts.items():
            k2 = (k[0], subst(k[1], a, b))
            v2 = (v[0], v[1], subst(v[2], a, b) if v[2] is not None else None, v[3], v[4])
            if b == ('top',) and k[0] in 'sk' and a in atomset(k[1]):
                continue
            if b == ('top',) and k[1] == a:
                if v[1] == 'H' and not s.failed(st, k[1], v):
                    s.leak(st, k[1], v, s.fn.inst.get(v[3]), 'overwritten in a loop')
                continue
            n[k2] = v2
        st.ts = n

    def ts_group(s, st):
        return frozenset((k, v) for k, v in st.ts.items() if v[1] == 'H' or k[0] == 'r' and k[1][0] == 'arg')

    def ts_join(s, A, B):
        r = {}
        for X, Y in ((A, B), (B, A)):
            for k, v in X.ts.items():
                if v[1] == 'H' or k in Y.ts or k[0] == 'k' or k[0] == 'r' and s.done(Y, k[1]) or k[0] == 's' and k[1] in Y.mem and s.done(Y, Y.mem[k[1]][0]):
                    r[k] = v
        return r

    def failed(s, st, atom, v):
        t = v[4]
        if t == 'neg':
            return s.interval(st, atom)[1] < 0
        if t == 'null':
            return s.is_zero(st, atom)
        return False

    def get(s, st, v):
        return st.ts.get(('r', v))

    def done(s, st, x):
        """the value x needs no release any more."""
        r = st.ts.get(('r', x))
        return r is not None and r[1] == 'R' or s.is_zero(st, x) or s.interval(st, x)[1] < 0

    def kill_call(s, st, i, args):
        old = dict(st.mem)
        Sim.kill_call(s, st, i, args)
        for a, c in old.items():
            if a not in st.mem and root(a)[0] in ('arg', 'ld', 'ph', 'call') and c[1] in s.ptrf and s.done(st, c[0]):
                st.ts[('s', a)] = ('slot', 'S', None, i.id, '')

    ADR = {'regex'}

    def rk(s, v, kind):
        return ('cast', v, 'adr') if kind in s.ADR else v

    def acquire(s, st, i, atom, kind, test):
        s.nacq.add((s.fn.name, i.id, kind))
        s.acqat[atom] = (kind, i)
        st.ts[('r', atom)] = (kind, 'H', None, i.id, test)

    def release(s, st, i, v, kind):
        obj = v
        v = s.rk(v, kind)
        r = st.ts.get(('r', v))
        s.nrel.add((s.fn.name, i.id))
        for a, c in st.mem.items():
            if c[0] == obj and c[1]:
                s.rellab.add(c[1])
        if kind in s.ADR and s.fn.label(i.ops[0]):
            s.rellab.add(s.fn.label(i.ops[0]))
        if v == NULL:
            return
        if kind == 'heap':
            s.destroy(st, i, v)
        elif kind not in s.ADR:
            for k, o in list(st.ts.items()):
                if o[1] == 'H' and o[2] == v:
                    st.ts.pop(k)
        if r is None:
            if kind in s.ADR:
                st.ts[('r', v)] = (kind, 'R', None, i.id, '')
            elif v[0] == 'arg':
                s.relargs.add(v[1])
                st.ts[('r', v)] = (kind, 'R', None, i.id, '')
            elif v[0] in ('ld', 'call', 'jm', 'j', 'ph'):
                st.ts[('r', v)] = (kind, 'R', None, i.id, '')
            return
        if r[1] == 'R':
            if not s.failed(st, v, r):
                s.report(('double', i.loc()), '%s %s is released at %s after it was already released at %s' % (r[0], pp(s.fn, v), i.where(), s.fn.inst[r[3]].loc() if r[3] in s.fn.inst else '?'), st, i)
            return
        # raw free of a block that still owns other resources
        if kind == 'heap':
            for k, o in list(st.ts.items()):
                if o[1] == 'H' and o[2] == v and not s.failed(st, k[1], o):
                    # still reachable through another owner?
                    s.leak(st, k[1], o, i, 'its owner is freed at %s' % i.loc())
                    st.ts.pop(k)
        st.ts[('r', v)] = (r[0], 'R', r[2], i.id, r[4])

    def report(s, key, msg, st=None, inst=None):
        # a request's session always comes with its identifier (decided by S04)
        if st is not None:
            for a, (v, l) in st.mem.items():
                if l == ('onion_request_t', 'session') and s.nonzero(st, v):
                    for a2, (v2, l2) in st.mem.items():
                        if l2 == ('onion_request_t', 'session_id') and root(a2) == root(a) and s.is_zero(st, v2):
                            return
        Sim.report(s, key, msg, st, inst)

    def leak(s, st, atom, v, i, why):
        a = s.fn.inst.get(v[3])
        if v[0] == 'response' and any(f[0] == f[1] == s.YIELD for f in st.facts.values()):
            return      # taken over by the handler
        if a is not None and a.op == 'store':
            s.report(('leak', v[0], s.fn.name, a.loc()), '%s held in %s.%s is replaced at %s and not released on a path: %s' % ((v[0],) + s.fn.label(a.ops[1]) + (a.where(), why)), st, a)
            return
        s.report(('leak', v[0], s.fn.name, a.loc() if a else repr(atom), a.callee if a else ''), '%s acquired at %s (%s) is not released on a path: %s' % (
            v[0], a.where() if a else '?', a.callee if a else '', why), st, a or i)

    def keep(s, st, v):
        """v escapes: obligations on it and on what it owns end here."""
        todo = [v]
        if v[0] in ('ld', 'out', 'call') and ('r', v) not in st.ts:
            st.ts[('k', v)] = ('kept', 'S', None, 0, '')
        while todo:
            x = todo.pop()
            r = root(x)
            for cand in {x, r}:
                k = ('r', cand)
                if k in st.ts and st.ts[k][1] == 'H':
                    st.ts.pop(k)
                    todo += [kk[1] for kk, o in st.ts.items() if o[2] == cand and o[1] == 'H']
            if r[0] == 'al':
                todo += [c[0] for a, c in st.mem.items() if root(a) == r and ('r', c[0]) in st.ts]
            if x[0] == 'arg':
                s.keptargs.add(x[1])
            elif r[0] == 'arg' and r == x:
                s.keptargs.add(r[1])

    def on_store(s, st, i, addr, val):
        s.use(st, i, addr, 'written through')
        st.ts.pop(('s', addr), None)
        r = root(addr)
        k = ('r', val)
        c = st.mem.get(addr)
        if c is not None and c[0] != val and c[0][0] in ('ld', 'out') and s.ownl and r[0] != 'al':
            # replacing the owner's reference makes this activation responsible for the old value
            l = s.fn.label(i.ops[1])
            if l in s.ownl and ('r', c[0]) not in st.ts and ('k', c[0]) not in st.ts and not s.done(st, c[0]) and not any(x[0] == c[0] for a, x in st.mem.items() if a != addr and root(a)[0] != 'al'):
                kind = s.ownl[l]
                s.nacq.add((s.fn.name, i.id, kind))
                st.ts[('r', c[0])] = (kind, 'H', None, i.id, 'neg' if kind == 'fd' else 'null')
        if c is None and s.ownl and SETTER(s.fn.name) and r[0] not in ('al', 'g') and not (('r', r) in st.ts and st.ts[('r', r)][1] == 'H') and ('s', addr) not in st.ts:
            l = s.fn.label(i.ops[1])
            if l in s.ownl and l in REPLACED:
                s.report(('leak', s.fn.name, l), '%s held in %s.%s is replaced at %s without being released' % (s.ownl[l], l[0], l[1], i.where()), st, i)
        if val in s.acqat and r[0] != 'al' and r != val:
            s.own(s.fn.label(i.ops[1]), addr, s.acqat[val][0], s.acqat[val][1])
        if s.fn.label(i.ops[1]) in BACKREF:
            return
        if val[0] == 'arg' and r[0] != 'al' :
            s.keptargs.add(val[1])
        if k not in st.ts and ('r', root(val)) in st.ts and s.fn.inst and val[0] == 'p':
            k = ('r', root(val))     # interior pointer
        if k in st.ts and st.ts[k][1] == 'H':
            if r[0] == 'al':
                return
            ro = st.ts.get(('r', r))
            if ro is not None and ro[1] == 'H' and r != k[1]:
                o = st.ts[k]
                st.ts[k] = (o[0], o[1], r, o[3], o[4])
            else:
                s.keep(st, k[1])
        # storing a pointer into an owned block: link for blocks stored elsewhere

    def own(s, label, addr, kind, i):
        if label and label[0] != '@':
            s.owned.setdefault(label, set()).add((kind, i.where()))

    def objtype(s, v):
        """struct type of the object v points to, from declarations and field accesses."""
        if v in s._ot:
            return s._ot[v]
        T = None
        if v[0] == 'arg':
            T = s.fn.args[v[1]].get('dty')
            if v[1] == 0 and s.fn.name in s.prog._hooks and not (T and T[:-1] in s.prog.structs):
                T = s.prog._hooks[s.fn.name]
                T = T and T + '*'
            ids = [('v', s.fn.args[v[1]]['id'])]
        elif v[0] in ('ld', 'ph') and v[1] in s.fn.inst:
            i = s.fn.inst[v[1]]
            if i.op == 'load':
                l = s.fn.label(i.ops[0])
                if l and l[0] in s.prog.structs:
                    for f in s.prog.structs[l[0]].get('fields', []):
                        if f['n'] == l[1]:
                            T = f['t']
        if T and T.endswith('*') and T[:-1] in s.prog.structs:
            T = T[:-1]
        else:
            T = None
            if v[0] in ('arg', 'ld', 'ph', 'call') and len(v) > 1:
                w = [s.fn.args[v[1]]['id'] if v[0] == 'arg' else v[1]]; seen = set(w)
                while w and T is None:
                    vid = w.pop()
                    for u in s.fn.users(vid):
                        if u.op == 'getelementptr' and tuple(u.ops[0]) == ('v', vid) and u.d.get('st') in s.prog.structs:
                            T = u.d['st']; break
                        if u.op == 'phi' and u.id not in seen:
                            seen.add(u.id); w.append(u.id)
        s._ot[v] = T
        return T

    def destroy(s, st, i, v):
        if i.callee not in ('free', 'onion_low_free'):
            return
        T = s.objtype(v)
        if T is None or (('r', v) in st.ts and st.ts[('r', v)][1] == 'H' and st.ts[('r', v)][2] is None and v[0] == 'call'):
            return
        if s.is_zero(st, v):
            return
        un = s.slots.setdefault((T, i.where()), {})
        vals = {}
        for a, c in st.mem.items():
            if root(a) != v:
                vals.setdefault(c[0], []).append(a)
        F = s.prog.structs[T].get('fields', [])
        # the object's own release hook was looked at and is not set
        nohook = any(f['t'] == 'fn*' and gep(v, f['o']) in st.mem and s.is_zero(st, st.mem[gep(v, f['o'])][0]) for f in F)
        for f in F:
            if f['n'] in un or nohook and f['t'] == 'void*':
                continue
            a = gep(v, f['o'])
            if ('r', ('cast', a, 'adr')) in st.ts and st.ts[('r', ('cast', a, 'adr'))][1] == 'R':
                un.setdefault('@%d' % f['o'], None)
                continue
            c = st.mem.get(a)
            if c is not None:
                x = c[0]
                r = st.ts.get(('r', x))
                if s.done(st, x):
                    continue
                if x in vals:      # moved elsewhere
                    continue
                if x[0] == 'ld' and any(u.op == 'phi' for u in s.fn.users(x[1])):
                    continue        # carried on by the loop that releases a list
            elif s.carried(st, v, T, f['n']):
                continue            # read into the variable the releasing loop goes on with
            if ('s', a) in st.ts:
                continue
            un[f['n']] = (f, s.trace(st))

    def carried(s, st, v, T, n):
        for l in s.fn.insts():
            if l.op == 'load' and s.fn.label(l.ops[0]) == (T, n):
                b = s.fn.inst.get(l.ops[0][1]) if l.ops[0][0] == 'v' else None
                if b is not None and b.op == 'getelementptr':
                    b = s.fn.inst.get(b.ops[0][1]) if b.ops[0][0] == 'v' else None
                if b is not None and b.op == 'phi' and b.id in st.env and st.env[b.id] == v and any(tuple(o) == ('v', l.id) for o, _ in b.ops):
                    return True
        return False

    def on_load(s, st, i, addr, val):
        s.use(st, i, addr, 'read through')

    def use(s, st, i, addr, how):
        r = root(addr)
        k = st.ts.get(('r', r))
        if k is not None and k[1] == 'R' and k[0] not in ('fd', 'regex'):
            s.report(('uaf', i.loc()), '%s %s is %s at %s after being released at %s' % (k[0], pp(s.fn, r), how, i.where(), s.fn.inst[k[3]].loc() if k[3] in s.fn.inst else '?'), st, i)
        s.nuse += 1

    def useval(s, st, i, v, how):
        k = st.ts.get(('r', v))
        if k is None and v[0] == 'p':
            k = st.ts.get(('r', v[1]))
        if k is not None and k[1] == 'R' and not s.failed(st, v, k) and k[0] != 'regex':
            s.report(('uaf', i.loc()), '%s %s is %s at %s after being released at %s' % (k[0], pp(s.fn, v), how, i.where(), s.fn.inst[k[3]].loc() if k[3] in s.fn.inst else '?'), st, i)

    def on_call(s, st, i, args):
        c = i.callee
        if c is None:
            for a in args:
                s.useval(st, i, a, 'passed to a callback')
            s.handed(st, i, args, s.prog.targets(s.fn, i))
            s.keep_indirect(st, i, args)
            return None
        if c.startswith('llvm.'):
            if c.startswith('llvm.mem'):
                s.use(st, i, args[0], 'written')
                if 'set' not in c:
                    s.use(st, i, args[1], 'copied')
            return None
        # release
        rel = dict()
        if c in REL:
            k, kind = REL[c]
            rel[k] = kind
        for k, kind in s.summ_frees.get(c, {}).items():
            rel.setdefault(k, kind)
        for k, a in enumerate(args):
            if k not in rel and a[0] != 'c':
                s.useval(st, i, a, 'passed to %s' % c) if c not in ('onion_log', 'fcntl') else None
        if c in ('onion_low_realloc', 'realloc'):
            old = args[0]
            s.release(st, i, old, 'heap')
            s.default_call(st, i, args)
            s.acquire(st, i, st.env[i.id], 'heap', 'null')
            # ownership follows the block
            return [st]
        for k, kind in rel.items():
            if k < len(args):
                s.release(st, i, args[k], kind)
        for k in (set(s.summ_keeps.get(c, ())) | set(EXT_KEEP.get(c, ())) if c not in NO_KEEP else ()):
            if k < len(args):
                for a, cc in st.mem.items():
                    if cc[0] == args[k] and root(a)[0] != 'al':
                        st.ts[('s', a)] = ('slot', 'S', None, i.id, '')
                s.keep(st, args[k])
        s.special(st, i, c, args)
        if c in s.prog.funcs:
            s.handed(st, i, args, [c])
        # acquire
        if c in ACQ_OUT or c in ACQ_ADDR:
            k, kind, test = (ACQ_OUT.get(c) or ACQ_ADDR[c])
            s.default_call(st, i, args)
            out = []
            for ok in (True, False):
                n = st.copy()
                if test == 'zero' and not s.assume_cmp(n, 'eq' if ok else 'ne', n.env[i.id], 0):
                    continue
                if not ok and test == 'any':
                    continue
                if ok:
                    if c in ACQ_ADDR:
                        kk = ('r', s.rk(args[k], kind))
                        s.acquire(n, i, kk[1], kind, '')
                        if root(args[k])[0] != 'al':
                            s.own(s.fn.label(i.ops[k]), args[k], kind, i)
                            ro = n.ts.get(('r', root(args[k])))
                            if ro is not None and ro[1] == 'H':
                                o = n.ts[kk]
                                n.ts[kk] = (o[0], o[1], root(args[k]), o[3], o[4])
                            else:
                                n.ts.pop(kk)
                    else:
                        at = ('out', i.id)
                        if root(args[k])[0] != 'al':
                            s.own(s.fn.label(i.ops[k]), args[k], kind, i)
                        if i.bb in s.loopb:
                            s.retire(n, at)
                        n.mem[args[k]] = (at, s.fn.label(i.ops[k]))
                        s.setfact(n, at, ne=0)
                        if root(args[k])[0] == 'al':
                            s.acquire(n, i, at, kind, '')
                        else:
                            ro = n.ts.get(('r', root(args[k])))
                            if ro is not None and ro[1] == 'H':
                                s.acquire(n, i, at, kind, '')
                                o = n.ts[('r', at)]
                                n.ts[('r', at)] = (o[0], o[1], root(args[k]), o[3], o[4])
                out.append(n)
            return out
        src = ACQ_RET.get(c)
        if src is None and c in OBJ:
            src = (OBJ[c], 'null')
        if src is None and c in s.summ_fresh:
            src = s.summ_fresh[c]
        if c == 'realpath' and len(args) > 1 and args[1] != NULL:
            src = None
        if src is not None:
            s.default_call(st, i, args)
            s.acquire(st, i, st.env[i.id], src[0], src[1])
            if src[1] == 'neg' or src[1] == 'null':
                # split on success so that later tests correlate
                out = []
                if s.nonnull_call(i):
                    return [st]
                a = st.copy(); b = st.copy()
                v = st.env[i.id]
                if src[1] == 'neg':
                    if s.assume_cmp(a, 'sge', v, 0):
                        out.append(a)
                    if s.assume_cmp(b, 'slt', v, 0):
                        b.ts.pop(('r', v), None); out.append(b)
                else:
                    if s.assume_cmp(a, 'ne', v, 0):
                        out.append(a)
                    if s.assume_cmp(b, 'eq', v, 0):
                        b.ts.pop(('r', v), None); out.append(b)
                return out
            return [st]
        return None

    def handed(s, st, i, args, targets):
        """what a callee was given it may have released: the values, and the fields of objects it reads."""
        lab = set(); any_ = not targets
        if any_ and s.io_call(i):
            return
        for t in targets or ():
            lab |= s.rlab.get(t, set())
        vals = set(args)
        for a, c in st.mem.items():
            if c[0] in vals and root(a)[0] != 'al' and i.callee is None:
                st.ts[('s', a)] = ('slot', 'S', None, i.id, '')
        for v in vals:
            T = s.objtype(v) if v[0] in ('arg', 'ld', 'ph', 'call') else None
            if T:
                for f in s.prog.structs[T].get('fields', []):
                    if (T, f['n']) in s.ptrf and (any_ or (T, f['n']) in lab):
                        st.ts[('s', gep(v, f['o']))] = ('slot', 'S', None, i.id, '')

    def keep_indirect(s, st, i, args):
        """callbacks borrow what they are given, except hooks that release an object and targets known to take it."""
        if s.io_call(i):
            return
        j = s.fn.inst.get(i.calleev[1]) if i.calleev[0] == 'v' else None
        l = s.fn.label(j.ops[0]) if j is not None and j.op == 'load' else None
        if l is not None and any(x in l[1] for x in ('free', 'shutdown', 'delete')):
            ks = range(len(args))
        else:
            ks = set()
            for t in s.prog.targets(s.fn, i) or ():
                ks |= set(s.summ_keeps.get(t, ())) | set(s.summ_frees.get(t, ()))
                if t in REL:
                    ks.add(REL[t][0])
        for k in ks:
            if k < len(args):
                s.keep(st, args[k])

    def special(s, st, i, c, args):
        # dict ownership by flag: OD_FREE_KEY / OD_FREE_VALUE hand the strings over
        if c == 'onion_dict_add' and len(args) > 3:
            if is_c(args[3]):
                fl = args[3][1]
                if fl & s.OD_FREE_KEY and fl & s.OD_DUP_KEY != s.OD_DUP_KEY:
                    s.keep(st, args[1])
                if fl & s.OD_FREE_VALUE and fl & s.OD_DUP_VALUE != s.OD_DUP_VALUE:
                    s.keep(st, args[2])
            else:
                s.keep(st, args[1]); s.keep(st, args[2])
        if c in ('onion_handler_new', 'onion_sessions_new'):
            for a in args:
                s.keep(st, a)

    def on_ret(s, st, i, val):
        s.exits += 1
        if val is not None:
            r = st.ts.get(('r', val))
            if r is not None:
                if r[1] == 'H':
                    s.fresh.add((r[0], r[4]))
                    s.keep(st, val)
                elif r[1] == 'R' and not s.failed(st, val, r) and r[0] != 'fd':
                    s.report(('uaf', i.loc()), '%s %s is returned at %s after being released' % (r[0], pp(s.fn, val), i.where()), st, i)
            elif val[0] == 'p' and ('r', val[1]) in st.ts and st.ts[('r', val[1])][1] == 'H':
                s.keep(st, val[1]); s.fresh_no = True
            elif val != NULL and not (is_c(val) and val[1] < 0):
                s.fresh_no = True
            if val[0] == 'arg':
                s.keptargs.add(val[1]); s.retargs.add(val[1])
        for k, v in list(st.ts.items()):
            if v[1] == 'H' and not s.failed(st, k[1], v):
                o = v[2]
                if o is not None:
                    oo = st.ts.get(('r', o))
                    if oo is None:
                        continue
                s.leak(st, k[1], v, i, 'function exits at %s while still holding it' % i.loc())
        for a in range(s.fn.nargs):
            v = st.ts.get(('r', ('arg', a)))
            if v is not None and v[1] == 'R':
                s.argrel[a] = s.argrel.get(a, 0) + 1; s.argkind[a] = v[0]
            elif not s.is_zero(st, ('arg', a)) and not s.interval(st, ('arg', a))[1] < 0:
                s.argnot[a] = s.argnot.get(a, 0) + 1


def mk(P, f, nn, summ):
    s = ResSim(P, f); s.nonnull = nn
    s.summ_frees, s.summ_keeps, s.summ_fresh = summ
    s.ptrf = P.__dict__.setdefault('_ptrf', {(T, f['n']) for T, d in P.structs.items() for f in d.get('fields', []) if f['t'].endswith('*') or f['t'] in ('int', 'gnutls_session_t', 'pthread_t')})
    s.ownl = P.__dict__.setdefault('_own', {}); s.YIELD = P.enum('OCS_YIELD')
    s.loaded = {f2 for i in f.insts() if i.op == 'load' for f2 in [f.label(i.ops[0])] if f2}
    s.acqat = {}; s.rellab = set(); s.rlab = P.__dict__.setdefault('_rlab', {})
   
    s.owned = {}; s.slots = {}; s._ot = {}
    s.nacq = set(); s.nrel = set(); s.relargs = set(); s.keptargs = set(); s.retargs = set(); s.fresh = set(); s.fresh_no = False
    s.argrel = {}; s.argnot = {}; s.argkind = {}; s.exits = 0; s.nuse = 0
    s.OD_FREE_KEY = P.enum('OD_FREE_KEY'); s.OD_FREE_VALUE = P.enum('OD_FREE_VALUE'); s.OD_DUP_KEY = P.enum('OD_DUP_KEY'); s.OD_DUP_VALUE = P.enum('OD_DUP_VALUE')
    return s


def waves(P):
    """functions grouped so that each group only calls earlier groups (or, in recursion, itself)."""
    cg = P.callgraph(); lvl = {}
    def level(n, stack):
        if n in lvl:
            return lvl[n]
        if n in stack:
            return 0
        r = 0
        for c in cg[n]:
            if c in P.funcs and c != n:
                r = max(r, 1 + level(c, stack | {n}))
        lvl[n] = r
        return r
    for n in sorted(P.funcs):
        level(n, frozenset())
    g = {}
    for n, l in lvl.items():
        g.setdefault(l, []).append(n)
    return [sorted(g[l]) for l in sorted(g)]


ATTRS = 'loaded rellab viol owned slots argrel argnot argkind keptargs fresh fresh_no exits nuse nacq nrel nstates'.split()


def analyse(P, rounds=3):
    from par import pmap, fweight
    nn = infer_nonnull(P)
    P.mods(); P.reads(); P.const_fields(); P.argwrites()
    frees, keeps, fresh = {}, {}, {}; P._rlab = {}; P._own = {}; P._hooks = hooks(P)
    W = waves(P)
    res = {}
    prev = None
    dirty = None
    for rnd in range(rounds):
        changed = set()
        for w in W:
            todo = [n for n in w if dirty is None or n in dirty]
            if not todo:
                continue
            def one(n):
                s = mk(P, P.funcs[n], nn, (frees, keeps, fresh)).run()
                return {a: getattr(s, a) for a in ATTRS}
            for n, r in pmap(one, todo, fweight(P)).items():
                res[n] = r
                rl = set(r['rellab'])
                for c in P.callgraph()[n]:
                    rl |= P._rlab.get(c, set())
                for c in P.funcs[n].calls():
                    if c.callee is None:
                        for t in P.targets(P.funcs[n], c) or ():
                            rl |= P._rlab.get(t, set())
                if rl != P._rlab.get(n, set()):
                    P._rlab[n] = rl; changed.add(n)
                f = P.funcs[n]; fr = {}
                if n not in REL:
                    for a in r['argrel']:
                        if (f.args[a]['ty'] == 'ptr' or r['argkind'][a] == 'fd') and not r['argnot'].get(a):
                            fr[a] = r['argkind'][a]
                k = set(a for a in r['keptargs'] if a not in fr)
                # a parameter released on some paths only is treated as taken
                k |= {a for a in r['argrel'] if a not in fr and n not in REL}
                fre = None
                if n not in ACQ_RET and n not in OBJ and len(r['fresh']) == 1 and not r['fresh_no']:
                    fre = list(r['fresh'])[0]
                for D, v in ((frees, fr), (keeps, k), (fresh, fre)):
                    if v != D.get(n) and (v or n in D):
                        changed.add(n)
                        if v:
                            D[n] = v
                        else:
                            del D[n]
        own = {}
        for l, x in owned_slots(res).items():
            ks = {k for k, _ in x}
            if len(ks) == 1:
                own[l] = ks.pop()
        diff = {l for l in set(own) | set(P._own) if own.get(l) != P._own.get(l)}
        P._own = own
        if not changed and not diff:
            break
        cg = P.callgraph()
        dirty = {n for n in P.funcs if cg[n] & changed or diff and any(i.op == 'store' and P.funcs[n].label(i.ops[1]) in diff for i in P.funcs[n].insts())}
    return res, (frees, keeps, fresh)


HANDLES = {'fd', 'DIR', 'FILE', 'xmlDoc', 'xmlBuffer', 'xmlWriter', 'redisContext', 'redisReply', 'addrinfo', 'sqlite3_stmt', 'sqlite3', 'gnutls_session', 'regex'}
# decided by their own rules: requests by R04; dictionary nodes own keys and values by flag
SLOT_EXEMPT = {'onion_request_t', 'onion_dict_node_t', 'onion_dict_node_data_t'}


# destructors of the public interface release the object itself on every path (the weak ones only when the last user is gone)
DTOR = {'onion_block_free', 'onion_handler_free', 'onion_listen_point_free', 'onion_free', 'onion_ptr_list_free', 'onion_request_free', 'onion_response_free', 'onion_websocket_free'}
DTOR_WEAK = {'onion_dict_free', 'onion_poller_free'}
# documented to consume an argument
CONSUME = {'onion_shortcut_response_json': 0}
# field types that mean ownership wherever an object with such a field is destroyed
OWNING_TYPES = {'onion_handler_t*': 'handler'}
SLOT_HOOKS = {('onion_listen_point_t', 'free_user_data'): [('onion_listen_point_t', 'user_data')],
              ('onion_listen_point_t', 'close'): [('onion_request_t', 'connection.fd'), ('onion_request_t', 'connection.user_data')],
              ('onion_listen_point_t', 'listen_stop'): [('onion_listen_point_t', 'listenfd')]}


def hooks(P):
    """functions registered to destroy private data -> struct they are given (or None)."""
    h = {}
    for f in P.funcs.values():
        for i in f.calls('onion_handler_new'):
            if len(i.ops) > 2 and i.ops[2][0] == 'f' and i.ops[2][1] in P.funcs:
                T = None
                if i.ops[1][0] == 'v':
                    for u in f.users(i.ops[1][1]):
                        if u.op == 'getelementptr' and u.d.get('st') in P.structs:
                            T = u.d['st']; break
                h[i.ops[2][1]] = h.get(i.ops[2][1]) or T
    for n in P.field_targets().get(('onion_sessions_t', 'free')) or ():
        if n in P.funcs:
            h[n] = 'onion_sessions_t'
    return h


def dtor_violations(P, res):
    out = []; n = 0
    must = {(d, 0): 'destructor' for d in DTOR}
    must.update({(d, 0): 'release hook' for d in P._hooks})
    must.update({(d, a): 'function documented to free it' for d, a in CONSUME.items()})
    for (d, a), why in sorted(must.items()):
        r = res.get(d)
        if r is None or d.startswith('onion_low_'):
            continue
        n += 1
        f = P.funcs[d]
        if not r['argrel'].get(a) or r['argnot'].get(a):
            out.append(dict(msg='%s (%s) does not release its argument %s on %s' % (d, why, f.args[a].get('name') or a, 'any path' if not r['argrel'].get(a) else 'some path'),
                            where='%s:%s in %s' % (f.file.split('/repo/')[-1], f.line, d), path=[]))
    for d in sorted(DTOR_WEAK):
        r = res.get(d)
        if r is not None:
            n += 1
            if not r['argrel'].get(0):
                out.append(dict(msg='%s never releases its argument' % d, where=d, path=[]))
    for h, slots in sorted(SLOT_HOOKS.items()):
        for d in sorted(P.field_targets().get(h) or ()):
            r = res.get(d)
            if r is None:
                continue
            for sl in slots:
                if sl == slots[0] or sl in r['loaded']:
                    n += 1
                    if sl not in P._rlab.get(d, set()):
                        out.append(dict(msg='%s, installed as %s, does not release %s.%s' % (d, h[1], sl[0], sl[1]), where=d, path=[]))
    return out, n


def owned_slots(res):
    own = {}
    for r in res.values():
        for l, x in r['owned'].items():
            own.setdefault(l, set()).update(x)
    return own


def slot_violations(P, res, handles):
    own = owned_slots(res); out = []; n = 0; nd = 0
    for T, d in P.structs.items():
        for f in d.get('fields', []):
            if f['t'] in OWNING_TYPES:
                own.setdefault((T, f['n']), set()).add((OWNING_TYPES[f['t']], 'its owner'))
    for fn, r in sorted(res.items()):
        for (T, w), un in sorted(r['slots'].items()):
            nd += 1
            if T in SLOT_EXEMPT:
                continue
            F = {f['n']: f for f in P.structs[T].get('fields', [])}
            for (T2, f), src in sorted(own.items()):
                kinds = {k for k, _ in src}
                if T2 != T or f not in F or bool(kinds & HANDLES) != handles:
                    continue
                n += 1
                if un.get(f):
                    # another member of the same storage released, or the very value also kept in an accounted member
                    if any(g != f and F[g]['o'] == F[f]['o'] and not un.get(g) and g in F for g in F) or '@%d' % F[f]['o'] in un:
                        continue
                    if all(any(l[0] == T and l[1] != f and x in v and not un.get(l[1]) for l, v in own.items()) for x in src):
                        continue
                    out.append(dict(msg='%s.%s (acquired at %s) is not released when the %s is freed at %s' % (T, f, sorted(src)[0][1], T, w), where=w, path=un[f][1]))
    return out, n, nd


def run_part(ctx, part):
    P = ctx.prog
    res, (fr, ke, fre) = analyse(P)
    acq = set(); rel = set(); st = ex = use = 0
    for n, r in res.items():
        st += r['nstates']; ex += r['exits']; use += r['nuse']
        acq |= {x for x in r['nacq']}; rel |= r['nrel']
        for k, v in r['viol'].items():
            kind = v['msg'].split(' ')[0]
            h = kind in HANDLES
            if part == 'handles' and h or part == 'leak' and not h and k[0] == 'leak' or part == 'uaf' and not h and k[0] != 'leak':
                ctx.violation(v)
    if part in ('handles', 'leak'):
        sv, n, nd = slot_violations(P, res, part == 'handles')
        for v in sv:
            ctx.violation(v)
        if part == 'leak':
            dv, n2 = dtor_violations(P, res)
            for v in dv:
                ctx.violation(v)
            ctx.cover(destructors_checked=n2)
        ctx.cover(owned_fields_checked=n, destructor_sites=nd)
    A = {x for x in acq if (x[2] in HANDLES) == (part == 'handles')} if part != 'uaf' else acq
    ctx.need(len(A) >= 10 and len(rel) >= 20, 'only %d acquisitions and %d releases seen' % (len(A), len(rel)))
    ctx.cover(functions=len(res), acquisitions=len(A), releases=len(rel), exits_checked=ex, dereferences_checked=use, states=st,
              functions_releasing_arguments=len(fr), functions_returning_fresh=len(fre))


def run_handles(ctx):
    run_part(ctx, 'handles')


def run_leaks(ctx):
    run_part(ctx, 'leak')


def run_uaf(ctx):
    run_part(ctx, 'uaf')
