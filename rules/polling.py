"""C05: the poller serves each descriptor one event at a time, rearms it or removes it as its callback says, and loses
neither slots nor timeouts."""
from shape import *
import shape
from ir import *

PL = 'onion_poller_t'; SL = 'onion_poller_slot_t'; EV = 'epoll_event'
HUP = 0x2010; ONESHOT = 0x40000000; FOREVER = 0x7fffffff
EVBITS = [0x10, 0x2000, 1, 4, 8]
STABLE = {(SL, 'fd'), (SL, 'f'), (SL, 'data'), (PL, 'fd'), (PL, 'eventfd'), (PL, 'timerfd')}
BIN['sdiv'] = lambda a, b: None if b == 0 else int(a / b) if abs(a) < 2**50 else (abs(a) // abs(b)) * (1 if (a < 0) == (b < 0) else -1)
BIN['udiv'] = lambda a, b: None if b == 0 else a // b
BIN['srem'] = lambda a, b: None if b == 0 else a - b * int(a / b)
INIT = [('now', 'x')]


class Off:
    def __init__(s, P):
        f = {x['n']: x['o'] for x in P.structs[SL]['fields']}
        s.fd, s.f, s.data, s.type, s.shutdown, s.sdata, s.timeout, s.limit, s.next = [f[x] for x in ('fd', 'f', 'data', 'type', 'shutdown', 'shutdown_data', 'timeout', 'timeout_limit', 'next')]
        p = {x['n']: x['o'] for x in P.structs[PL]['fields']}
        s.pfd, s.efd, s.tfd, s.cur, s.stop, s.np, s.head = [p[x] for x in ('fd', 'eventfd', 'timerfd', 'current_timeout_limit', 'stop', 'npollers', 'head')]
        s.slot = sorted(f.values())


def strip(t):
    """the same term without the epochs of its loads"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'f':
        return ('f', strip(t[1]), t[2])
    return tuple(strip(x) for x in t)


def unc(t):
    while t[0] == 'cast':
        t = t[2]
    return t


def subst(t, m):
    if not isinstance(t, tuple):
        return t
    if t in m:
        return m[t]
    r = tuple(subst(x, m) for x in t)
    if r and r[0] in ('f', 'p') and r[1] and isinstance(r[1], tuple) and r[1][0] == 'p':
        return (r[0], r[1][1], r[1][2] + r[2]) + r[3:]
    return r


class Poll(Shape):
    limit = 120000
    def __init__(s, P, fn, O):
        Shape.__init__(s, P, fn)
        s.O = O; s.offs = tuple(O.slot)
        s.labels = {}
        s.effects = {}
        for b, body in s.loops.items():
            s.effects[b] = any(i.op in ('store', 'cmpxchg', 'atomicrmw') and s.label(i) not in (None,) and (s.label(i)[0] in (PL, SL) or s.label(i)[0] == '@')
                               or 'callee' in i.d and not i.callee for q in body for i in s.fn.blocks[q])

        s.localits = set()
        for b in fn.blocks:
            for i in b:
                if i.op == 'phi' and any(s.localptr(v) for v, q in i.ops):
                    s.localits.add(i.id)

    def localptr(s, v):
        while v[0] == 'v' and v[1] in s.fn.inst:
            i = s.fn.inst[v[1]]
            if i.op == 'alloca':
                return True
            if i.op not in ('getelementptr', 'bitcast'):
                return False
            v = i.ops[0]
        return False

    def local(s, o):
        while o[0] in ('idx', 'p'):
            o = o[1]
        return o[0] == 'al' or o[0] == 'it' and o[1] in s.localits

    def label(s, i):
        k = {'load': 0, 'store': 1, 'cmpxchg': 0, 'atomicrmw': 0}.get(i.op)
        if k is None:
            return None
        if i.id not in s.labels or i.op == 'store':
            return s.fn.label(i.ops[k])
        return s.labels[i.id]

    def flagbits(s, t):
        if t[0] == 'f' and t[2] == 0 and t[1][0] in ('idx', 'al', 'p', 'it') and s.evobj(t[1]):
            return EVBITS
        if t in s.flagargs:
            return [1, 2, 4]
        return None
    flagargs = ()
    evs = frozenset()

    def evobj(s, o):
        return o in s.evs

    def havoc(s, st, loc=False):
        for a in list(st.heap):
            if not s.local(a[0]):
                del st.heap[a]
        st.stale = frozenset([max(st.stale, default=0) + 1])

    def load_at(s, st, a, lab):
        o, off = a
        if o not in st.null and o[0] not in ('al', 'g', 'fn', 'n', 'new'):
            st.null[o] = False
        if a in st.heap:
            return st.heap[a]
        e = max(st.stale, default=0)
        if s.local(o) or lab in STABLE or lab is None and off == 0 or not e:
            return ('f', o, off)
        return ('f', o, off, e)

    def load(s, st, a):
        return s.load_at(st, a, None)

    def enter(s, st, b):
        if s.effects.get(b):
            s.havoc(st)

    def log(s, st, *e):
        st.ev += (e,)

    def step(s, st, i):
        op = i.op
        if op == 'getelementptr' and i.d.get('voff'):
            o, off = s.addr(s.val(st, i.ops[0]))
            idx = tuple((unc(s.val(st, tuple(v))), m) for v, m in i.d['voff'])
            c = i.d.get('off', 0)
            o = ('idx', ('p', o, off) if off else o, idx)
            st.env[i.id] = ('p', o, c) if c else o
            return [st]
        if op == 'load':
            a = s.addr(s.val(st, i.ops[0])); lab = s.label(i)
            v = s.load_at(st, a, lab)
            if lab and lab[0] == EV:
                s.evs |= {a[0]}
                if lab[1].startswith('data') or a[1] >= 4:
                    s.log(st, 'slot', v, a[0], i)
            if lab and lab[0] == SL and lab[1] not in ('fd',):
                s.log(st, 'read', a[0], a[1], i)
            if lab == (PL, 'stop'):
                s.log(st, 'ldstop', v, i)
            st.env[i.id] = v
            return [st]
        if op == 'store':
            a = s.addr(s.val(st, i.ops[1])); lab = s.label(i)
            v = s.val(st, i.ops[0])
            s.load_at(st, a, lab)
            st.heap[a] = v
            if lab and lab[0] in (SL, PL) or a[0][0] == 'idx':
                s.log(st, 'store', a[0], a[1], v, i)
            elif a[0][0] != 'al':
                s.log(st, 'store', a[0], a[1], v, i)
            return [st]
        if op in ('cmpxchg', 'atomicrmw'):
            a = s.addr(s.val(st, i.ops[0]))
            v = s.val(st, i.ops[-1])
            if op == 'atomicrmw':
                v = ('bin', i.d.get('pred') or i.d.get('rmw') or '?', s.load_at(st, a, s.label(i)), v)
            s.log(st, 'store', a[0], a[1], v, i)
            st.heap.pop(a, None)
            st.env[i.id] = ('u', i.id)
            return [st]
        return Shape.step(s, st, i)

    def on_store(s, st, i, a, v):
        s.log(st, 'store', a[0], a[1], v, i)

    def content(s, st, p, off):
        o, q = s.addr(p)
        return s.load_at(st, (o, q + off), None)

    def on_call(s, st, i, n, args):
        if n is None:
            v = s.val(st, i.calleev) if i.calleev else ('u', 0)
            if v[0] == 'f' and v[1][0] == 'g' and v[1][1] == 'onion_log':
                return [(st, NUL)]
            s.log(st, 'cb', v, tuple(args), max(st.stale, default=0) + 1, i)
            s.havoc(st)
            return [(st, ('call', i.id))]
        if n == 'clock_gettime':
            o, off = s.addr(args[1])
            st.heap[(o, off)] = ('now', i.id); st.heap[(o, off + 8)] = ('nsec', i.id)
            s.log(st, 'now', args[0], i)
            return [(st, ('call', i.id))]
        if n == 'time':
            s.log(st, 'now', ('time',), i)
            return [(st, ('now', i.id))]
        if n.startswith('llvm.memset'):
            return None
        if n == 'epoll_ctl':
            ev = (None, None) if args[3] == NUL else (s.content(st, args[3], 0), s.content(st, args[3], 4))
            s.log(st, 'ctl', args[0], args[1], args[2], ev, i)
            return [(st, ('call', i.id))]
        if n == 'epoll_wait':
            o, _ = s.addr(args[1])
            for a in list(st.heap):
                b = a[0]
                while b[0] in ('idx', 'p'):
                    b = b[1]
                if b == o:
                    del st.heap[a]
            s.log(st, 'wait', args[0], i)
            return [(st, ('call', i.id))]
        if n == 'timerfd_settime':
            s.log(st, 'settime', args[0], args[1], tuple(s.content(st, args[2], k) for k in (0, 8, 16, 24)), i)
            return [(st, ('call', i.id))]
        if n in ('pthread_mutex_lock', 'pthread_mutex_trylock'):
            s.havoc(st); s.log(st, 'lock', i)
            return [(st, ('call', i.id))]
        if n == 'pthread_mutex_unlock':
            s.log(st, 'unlock', i)
            return [(st, ('call', i.id))]
        s.log(st, 'call', n, tuple(args), i)
        if n in ('onion_poller_remove', 'onion_poller_stop', 'onion_poller_slot_free', 'onion_poller_timer', 'onion_poller_add'):
            s.havoc(st)
        return None

    # ---- helpers on finished paths
    def possible(s, st, asg):
        for k, v in st.cond.items():
            if k[0] == 'icmp':
                r = ev(k, asg)
                if r is not None and bool(r) != v:
                    return False
            elif k in asg and isinstance(v, frozenset):
                m = s.flagbits(k)
                if m is not None and not any(s.word(m, c) == asg[k] for c in v):
                    return False
        for k, v in st.null.items():
            if k in asg and (asg[k] == 0) != v:
                return False
        return True


def zeroed(v):
    return v == NUL or v[0] == 'c' and v[1] == 0


class Here:
    def __init__(s, fn): s.fn = fn


class Run:
    def __init__(s, ctx):
        s.ctx = ctx; s.P = ctx.prog; s.O = Off(s.P); s.undecided = []; s.paths = 0; s.checked = set(); s.seen = set(); s.memo = {}

    def bad(s, t, i, msg):
        k = (t.fn.name, msg, i.where() if i is not None else '')
        if k in s.seen:
            return
        s.seen.add(k)
        s.ctx.violation(dict(msg='%s: %s%s' % (t.fn.name, msg, ' at ' + i.where() if i is not None else ''), where=i.where() if i is not None else t.fn.name, path=[]))

    def shape(s, name, **kw):
        if name in s.memo:
            return s.memo[name]
        f = s.P.funcs.get(name)
        s.ctx.need(f is not None, name + ' not found')
        t = Poll(s.P, f, s.O)
        for k, v in kw.items():
            setattr(t, k, v)
        try:
            t.run()
        except Undecided as e:
            s.undecided.append('%s: %s' % (name, e)); t = None
        else:
            s.paths += len(t.paths); s.checked.add(name)
        s.memo[name] = t
        return t

    # ------------------------------------------------------------------ slots
    def slots(s):
        O = s.O
        t = s.shape('onion_poller_slot_new')
        if t:
            ok = 0
            for st, kind, v, i in t.paths:
                if kind != 'ret' or zeroed(v):
                    continue
                ok += 1
                o, off = t.addr(v)
                g = lambda q: st.heap.get((o, off + q))
                for q, w, what in ((O.fd, ('arg', 0), 'fd'), (O.f, ('arg', 1), 'f'), (O.data, ('arg', 2), 'data')):
                    if g(q) is None or unc(g(q)) != w:
                        s.bad(t, i, 'a new slot does not keep its %s' % what)
                for q, what in ((O.shutdown, 'shutdown'), (O.next, 'next')):
                    x = g(q)
                    if x is None or not (zeroed(x) or x[0] == 'f' and x[1][0] == 'g'):
                        s.bad(t, i, 'a new slot keeps the %s of the previous use of the descriptor' % what)
                x = g(O.limit)
                if x is None or x[0] != 'c' or x[1] < FOREVER:
                    s.bad(t, i, 'a new slot is born with a timeout')
                x = g(O.timeout)
                if x is None or x[0] != 'c' or x[1] > 0:
                    s.bad(t, i, 'a new slot is born with a timeout')
                x = g(O.type)
                if x is not None and x[0] == 'c' and not x[1] & ONESHOT:
                    s.bad(t, i, 'slot type without EPOLLONESHOT: two threads can serve the descriptor at once')
                if x is None or x[0] != 'c' or not x[1] & 1:
                    s.bad(t, i, 'a new slot does not wait for input')
                if o[0] == 'idx' and not any(unc(a) == ('arg', 0) for a, m in o[2]):
                    s.bad(t, i, 'slots are not told apart by their descriptor')
            s.ctx.need(ok, 'onion_poller_slot_new never gives a slot')
        t = s.shape('onion_poller_slot_set_type', flagargs=(('arg', 1),))
        if t:
            for st, kind, v, i in t.paths:
                x = st.heap.get((('arg', 0), O.type))
                if x is None or x[0] not in ('c', 'bin'):
                    s.bad(t, i, 'the type of the slot is not set'); continue
                for c in st.cond.get(('arg', 1), range(8)):
                    w = t.word([1, 2, 4], c)
                    e = ev(x, {('arg', 1): w})
                    if e is None:
                        s.undecided.append('set_type'); continue
                    for b, m, what in ((1, 1, 'reading'), (2, 4, 'writing')):
                        if bool(w & b) != bool(e & m):
                            s.bad(t, i, 'slot type for %s is %s' % (what, 'lost' if w & b else 'set without being asked for'))
                    if not e & ONESHOT:
                        s.bad(t, i, 'slot type without EPOLLONESHOT: two threads can serve the descriptor at once')
        # every type is one shot
        n = 0
        for f in s.P.funcs.values():
            for i in f.insts():
                if i.op == 'store' and f.label(i.ops[1]) == (SL, 'type'):
                    n += 1
                    if f.name not in ('onion_poller_slot_set_type', 'onion_poller_slot_new') and not Poll.localptr(Here(f), i.ops[1]) and not (i.ops[0][0] == 'c' and i.ops[0][1] & ONESHOT):
                        s.ctx.violation(dict(msg='slot type without EPOLLONESHOT at %s: two threads can serve the descriptor at once' % i.where(), where=i.where(), path=[]))
        s.ctx.need(n >= 1, 'no store of a slot type found')
        t = s.shape('onion_poller_slot_set_timeout')
        if t:
            for st, kind, v, i in t.paths:
                x, y = st.heap.get((('arg', 0), O.timeout)), st.heap.get((('arg', 0), O.limit))
                now = [z for z in (syms(y) if y else ()) if z[0] == 'now']
                for ms in (5000, 61000, 1000):
                    a = {('arg', 1): ms}
                    if not t.possible(st, a):
                        continue
                    if x is None or ev(x, a) != ms // 1000:
                        s.bad(t, i, 'the timeout of the slot is not the one asked for')
                    if y is None or len(now) != 1 or ev(y, {('arg', 1): ms, now[0]: 777}) != 777 + ms // 1000:
                        s.bad(t, i, 'the time limit is not now plus the timeout')
        t = s.shape('onion_poller_slot_set_shutdown')
        if t:
            for st, kind, v, i in t.paths:
                if st.heap.get((('arg', 0), O.shutdown)) != ('arg', 1) or st.heap.get((('arg', 0), O.sdata)) != ('arg', 2):
                    s.bad(t, i, 'the shutdown function or its data is not kept')
        t = s.shape('onion_poller_slot_free')
        if t:
            s.shutdowns(t, [(p, ('arg', 0)) for p in t.paths])

    def shutdowns(s, t, L):
        """each path runs the shutdown of slot el exactly once, if it has one"""
        O = s.O
        for (st, kind, v, i), el in L:
            f = ('f', el, O.shutdown)
            cbs = [e for e in st.ev if e[0] == 'cb']
            fr = [e for e in st.ev if e[0] == 'call' and e[1] == 'onion_poller_slot_free']
            if fr and t.fn.name != 'onion_poller_slot_free':
                if len(fr) + len(cbs) > 1:
                    s.bad(t, (fr + cbs)[1][-1], 'the shutdown of a slot runs twice')
                elif strip(fr[0][2][0]) != strip(el):
                    s.bad(t, fr[0][-1], 'another slot is shut down')
                continue
            mine = [e for e in cbs if strip(e[1]) == strip(f)]
            nul = [k for k, z in st.null.items() if strip(k) == strip(f) and z]
            if len(cbs) != len(mine):
                s.bad(t, cbs[0][-1], 'a removed slot calls something that is not its shutdown')
            if len(mine) > 1:
                s.bad(t, mine[1][-1], 'the shutdown of a slot runs twice')
            if not mine and not nul:
                s.bad(t, i, 'a slot is dropped without running its shutdown')
            for e in mine:
                if not e[2] or strip(e[2][0]) != strip(('f', el, O.sdata)):
                    s.bad(t, e[-1], 'the shutdown of a slot gets other data')

    # ------------------------------------------------------------------ list walks
    def walk(s, t, cursors, cond=None):
        """the loop of t that walks the list: (cursor term, loop phis). cursors(st) gives the slots a back path looked at"""
        O = s.O; head = ('f', ('arg', 0), O.head)
        cand = None
        for st, kind, v, i in t.paths:
            if kind != 'back':
                continue
            c = {x for x in map(strip, cursors(st)) if any(y[0] == 'it' for y in subterms(x))}
            cand = c if cand is None else cand & c
        if not cand:
            return None
        return cand

    def run_walk(s, t, looked, what):
        """all slots are looked at: start at the head, one step each time, end at NULL. Returns the cursor or None (reported)"""
        O = s.O; head = ('f', ('arg', 0), O.head); nx = lambda x: ('f', x, O.next)
        backs = [p for p in t.paths if p[1] == 'back']
        its = lambda st: {x for x in map(strip, looked(st)) if any(y[0] == 'it' for y in subterms(x))}
        hs = {i.bb for st, kind, v, i in backs if its(st) and any(e[0] == 'tail' and ('it', e[1]) in subterms(tuple(its(st))) for e in st.ev)}
        backs = [p for p in backs if p[3].bb in hs]
        if not backs:
            s.bad(t, None, '%s does not walk the list of slots' % what); return None
        cand = None
        for st, kind, v, i in backs:
            c = {strip(x) for x in looked(st)}
            c = {x for x in c if any(y[0] == 'it' for y in subterms(x))}
            cand = c if cand is None else cand & c
        if not cand:
            s.bad(t, backs[0][3], '%s passes over a slot without looking at it' % what); return None
        best = None
        for c in sorted(cand, key=repr):
            errs = []
            for st, kind, v, i in backs:
                m = {('it', e[1]): strip(e[2]) for e in st.ev if e[0] == 'tail'}
                m0 = {('it', e[1]): strip(e[2]) for e in st.ev if e[0] == 'loop'}
                n = subst(c, m); a = subst(c, m0)
                if n != nx(c) and n != c_next(c, O):
                    errs.append((i, '%s does not go on with the next slot' % what))
                if a == nx(head):
                    if not any(strip(x) == head for x in looked(st)) and not any(z and strip(k) == head for k, z in st.null.items()):
                        errs.append((i, '%s does not look at the first slot' % what))
                elif a != head:
                    errs.append((i, '%s does not start at the first slot' % what))
            for st, kind, v, i in t.paths:
                if kind != 'ret' or not any(e[0] == 'loop' for e in st.ev):
                    continue
                if any(strip(x) == c for x in looked(st)) and s.stops(t, st, c):
                    continue
                if not any(z and strip(k) in (c, base(c)) for k, z in st.null.items()):
                    errs.append((i, '%s ends before the last slot' % what))
            if not errs:
                return c
            best = best or errs
        s.bad(t, best[0][0], best[0][1])
        return None

    def stops(s, t, st, c):
        """path that found what it was looking for at slot c"""
        fd = ('f', c, s.O.fd)
        return any(v is True and k[0] == 'icmp' and k[1] == 'eq' and fd in map(strip, map(unc, k[2:])) for k, v in st.cond.items())

    def fdcmp(s, st, val=None):
        """slots whose descriptor was compared with the argument"""
        r = []
        for k, v in st.cond.items():
            if k[0] == 'icmp' and k[1] == 'eq' and (val is None or v is val):
                a, b = map(unc, k[2:])
                for x, y in ((a, b), (b, a)):
                    if x[0] == 'f' and x[2] == s.O.fd and y == ('arg', 1):
                        r.append(x[1])
        return r

    def get(s):
        t = s.shape('onion_poller_get')
        if not t:
            return
        s.run_walk(t, lambda st: s.fdcmp(st), 'the search for a descriptor')
        for st, kind, v, i in t.paths:
            if kind != 'ret':
                continue
            hit = [strip(x) for x in s.fdcmp(st, True)]
            isn = t.isnull(st, v)
            if hit and strip(v) not in hit:
                s.bad(t, i, 'a slot that is not the one of the descriptor is given')
            if not hit and not isn:
                s.bad(t, i, 'a slot of another descriptor is given')

    def remove(s):
        t = s.shape('onion_poller_remove')
        if not t:
            return
        O = s.O; p = ('arg', 0); head = ('f', p, O.head)
        c = s.run_walk(t, lambda st: s.fdcmp(st), 'the removal of a descriptor')
        pairs = s.pairs(t)
        n = 0
        for st, kind, v, i in t.paths:
            links = [e for e in st.ev if e[0] == 'store' and (e[2] == O.next and e[1] != p or e[1] == p and e[2] == O.head or e[1][0] == 'it' and e[2] == 0)]
            fr = [e for e in st.ev if e[0] == 'call' and e[1] == 'onion_poller_slot_free']
            cbs = [e for e in st.ev if e[0] == 'cb']
            hit = [strip(x) for x in s.fdcmp(st, True)]
            if kind == 'back' or not hit:
                if links:
                    s.bad(t, links[0][-1], 'a slot of another descriptor is unlinked')
                if fr or cbs:
                    s.bad(t, (fr + cbs)[0][-1], 'a slot of another descriptor is shut down')
                continue
            n += 1
            r = hit[-1]
            dels = [e for e in st.ev if e[0] == 'ctl' and e[2] == ('c', 2)]
            if not any(unc(e[3]) == ('arg', 1) and strip(e[1]) == ('f', p, O.pfd) for e in dels):
                s.bad(t, i, 'a removed descriptor stays in the epoll set')
            if len(links) != 1:
                s.bad(t, links[1][-1] if links else i, 'the slot of a removed descriptor is %s' % ('unlinked twice' if links else 'left in the list')); continue
            e = links[0]
            if strip(e[3]) != ('f', r, O.next):
                s.bad(t, e[-1], 'slots that follow the removed one are lost')
            w = strip(e[1]); ok = False
            nulls = {strip(k) for k, z in st.null.items() if z}
            if e[1] == p and e[2] == O.head:
                ok = r == head or any(r == b and a in nulls for a, b in pairs)
            elif e[1][0] == 'it' and e[2] == 0 and r == ('f', w, 0):
                ok = True
            else:
                ok = r == ('f', w, O.next) or (w, r) in pairs
            if not ok:
                s.bad(t, e[-1], 'the link changed is not the one of the removed slot')
            if fr:
                if len(fr) > 1 or cbs:
                    s.bad(t, (fr + cbs)[1][-1], 'the shutdown of a slot runs twice')
                if strip(fr[0][2][0]) != r:
                    s.bad(t, fr[0][-1], 'another slot is shut down')
                if [x for x in st.ev].index(fr[0]) < st.ev.index(e):
                    s.bad(t, fr[0][-1], 'the slot is shut down while still in the list')
            else:
                s.shutdowns(t, [((st, kind, v, i), r)])
        s.ctx.need(n >= 1, 'onion_poller_remove: no removal path')

    def pairs(s, t):
        """pairs of loop variables (a, b) with: a NULL and b the head, or a->next == b"""
        O = s.O; head = ('f', ('arg', 0), O.head)
        its = set()
        for st, *_ in t.paths:
            its |= {('it', e[1]) for e in st.ev if e[0] == 'loop'}
        r = set()
        for a in its:
            for b in its:
                if a == b:
                    continue
                ok = True
                for st, kind, v, i in t.paths:
                    for what in ('loop', 'tail'):
                        m = {('it', e[1]): strip(e[2]) for e in st.ev if e[0] == what}
                        if a in m and b in m:
                            if not (zeroed(m[a]) and m[b] == head and what == 'loop' or m[b] == ('f', m[a], O.next)):
                                ok = False
                if ok:
                    r.add((a, b))
        return r

    # ------------------------------------------------------------------ add
    def add(s):
        t = s.shape('onion_poller_add')
        if not t:
            return
        O = s.O; p, el = ('arg', 0), ('arg', 1); head = ('f', p, O.head)
        n = 0
        inner = s.scanloops(t)
        for st, kind, v, i in t.paths:
            if kind == 'back':
                continue
            n += 1
            H = {}; done = None
            for k, e in enumerate(st.ev):
                if e[0] == 'store' and (e[1] == p and e[2] == O.head or e[1] != p and e[2] == O.next):
                    H[(strip(e[1]), e[2])] = strip(e[3]); done = k
            nulls = {strip(k) for k, z in st.null.items() if z}
            null = lambda x: zeroed(x) or x in nulls
            if not H:
                s.bad(t, i, 'a slot is added without being linked'); continue
            chain = []; x = H.get((p, O.head), head)
            while not null(x) and len(chain) < 6 and x not in chain:
                chain.append(x)
                if x[0] == 'ext':
                    x = H.get((x, O.next), NUL)
                    continue
                if x == el and (x, O.next) not in H:
                    break
                x = H.get((x, O.next), ('f', x, O.next))
            orig = []; x = head
            while not null(x) and len(orig) < 6:
                orig.append(x); x = ('f', x, O.next)
            ext = [k for k in H if k[0][0] == 'ext']
            if ext:
                if not (len(H) == 1 and H[ext[0]] == el and strip(ext[0][0][2]) in (head, ('f', head, O.next))):
                    s.bad(t, i, 'adding a slot loses others')
            elif chain.count(el) != 1:
                s.bad(t, i, 'a slot is added without being linked once')
            else:
                rest = [x for x in chain if x != el]
                if rest != orig[:len(rest)] or (chain[-1] == el and orig != rest and (el, O.next) not in H) or (chain[-1] == el and (el, O.next) in H and not null(H[(el, O.next)])):
                    s.bad(t, i, 'adding a slot loses others')
            ctl = [(k, e) for k, e in enumerate(st.ev) if e[0] == 'ctl']
            if len(ctl) != 1:
                s.bad(t, i, 'an added descriptor is not put in the epoll set once'); continue
            k, e = ctl[0]
            if e[2] != ('c', 1) or strip(e[1]) != ('f', p, O.pfd) or unc(strip(e[3])) != ('f', el, O.fd):
                s.bad(t, e[-1], 'the descriptor of the slot is not the one added to the epoll set')
            if unc(strip(e[4][0])) != ('f', el, O.type):
                s.bad(t, e[-1], 'the descriptor is not added with the type of its slot')
            if e[4][1] != el:
                s.bad(t, e[-1], 'the event of the descriptor does not lead to its slot')
            if done is not None and done > k:
                s.bad(t, e[-1], 'the descriptor can fire before its slot is in the list')
            err = any(t2[0] == 'icmp' and x and ('call', e[-1].id) in syms(t2) and ev(t2, {('call', e[-1].id): 0}) == 0 for t2, x in st.cond.items())
            err = err or not t.possible(st, {('call', e[-1].id): 0})
            if not err:
                s.armed(t, st, i, ('f', el, O.limit), k)
        s.ctx.need(n, 'onion_poller_add has no path')

    def armed(s, t, st, i, limit, k):
        """after event k the timer is set unless the limit is known to be no earlier than the current one"""
        if any(e[0] == 'settime' or e[0] == 'call' and e[1] == 'onion_poller_timer' for e in st.ev[k:]):
            return
        for c, v in st.cond.items():
            if c[0] != 'icmp':
                continue
            a, b = map(unc, c[2:]); cur = ('f', ('arg', 0), s.O.cur)
            x = [y for y in (a, b) if strip(y) == cur]
            y = [y for y in (a, b) if strip(y) != cur]
            if len(x) == 1 and len(y) == 1:
                fits = [w for w in (4, 5, 6) if bool(ev(c, {x[0]: 5, y[0]: w} if y[0][0] != 'bin' else {x[0]: 5, **num(y[0], w)})) == v]
                if 4 not in fits:
                    return
        s.bad(t, i, 'the timer is not set for a slot that ends earlier')

    # ------------------------------------------------------------------ timer
    def scanloops(s, t):
        return {b for b, body in t.loops.items() if any(i.callee == 'shutdown' for q in body for i in t.fn.blocks[q] if 'callee' in i.d)}

    def timer(s):
        O = s.O; n = 0
        t = s.shape('onion_poller_timer')
        if not t:
            return
        lim = lambda x: ('f', x, O.limit)
        looked = lambda st: [x[1] for k in st.cond if k[0] == 'icmp' for x in syms(k) if x[0] == 'f' and x[2] == O.limit]
        c = s.run_walk(t, looked, 'the search for timeouts')
        if c is None:
            return
        backs = [p for p in t.paths if p[1] == 'back']
        head = strip(('f', ('arg', 0), O.head))
        its = {e[1] for st, k, v, i in backs for e in st.ev if e[0] == 'loop'}
        # the loop variable that holds the next limit: its value ends in the timer
        nt = None
        for st, kind, v, i in t.paths:
            if kind != 'ret':
                continue
            sets = [e for e in st.ev if e[0] == 'settime']
            if not sets:
                s.bad(t, i, 'the timer is not set again'); return
            e = sets[-1]
            if strip(e[1]) != ('f', ('arg', 0), O.tfd):
                s.bad(t, e[-1], 'another descriptor is used as timer')
            S = [x for x in syms(e[3][2]) if x[0] == 'it']
            nows = [x for x in syms(e[3][2]) if x[0] == 'now']
            if not any(x[0] == 'loop' for x in st.ev):
                s.bad(t, i, 'the timer is set without looking at the slots'); return
            if len(S) != 1 or len(nows) > 1:
                s.bad(t, e[-1], 'the timer is not set to the next limit'); return
            nt = S[0]
            for a, b in ((1000, 1007), (50, 51), (5, 86405)):
                asg = {nt: b}
                for x in nows:
                    asg[x] = a
                r = ev(e[3][2], asg)
                want = b if e[2] == ('c', 1) else b - a
                if r != want:
                    s.bad(t, e[-1], 'the timer is not set to the next limit'); break
            cur = [x for x in st.ev if x[0] == 'store' and x[1] == ('arg', 0) and x[2] == O.cur]
            if not cur or cur[-1][3] != nt:
                s.bad(t, i, 'the limit the timer is set for is not kept')
            else:
                k0 = max(k for k, x in enumerate(st.ev) if x[0] == 'loop' and x[1] == nt[1])
                k1 = st.ev.index(cur[-1]); k2 = st.ev.index(e)
                if any(x[0] == 'unlock' for x in st.ev[k0:max(k1, k2)]):
                    s.bad(t, cur[-1][-1], 'the slots can change between the search for the next limit and setting the timer for it')
        if nt is None:
            return
        for st, kind, v, i in backs:
            L = [e for e in st.ev if e[0] == 'loop' and e[1] == nt[1]]
            T = [e for e in st.ev if e[0] == 'tail' and e[1] == nt[1]]
            if not L or not T:
                continue
            now = [x for k in list(st.cond) + [L[0][2]] for x in syms(k) if x[0] == 'now']
            if not now:
                s.bad(t, i, 'limits are not compared with the present time'); continue
            now = now[0]
            if (ev(L[0][2], {now: 1000}) or 0) < 1001:
                s.bad(t, i, 'the timer can be set for a time that has passed')
            ls = [x for k in list(st.cond) + [T[0][2]] for x in syms(k) if x[0] == 'f' and x[2] == O.limit and strip(x[1]) == c]
            for l in (990, 1000, 1001, 1005, 1010, 1020):
                for m in (1003, 1010, 1015):
                    a = {now: 1000, nt: m}
                    for x in ls:
                        a[x] = l
                    if not t.possible(st, a):
                        continue
                    n += 1
                    sh = [e for e in st.ev if e[0] == 'call' and e[1] == 'shutdown']
                    r = ev(T[0][2], a)
                    if l <= 1000:
                        if len(sh) != 1 or unc(strip(sh[0][2][0])) != ('f', c, O.fd):
                            s.bad(t, i, 'a slot whose time is over is not ended')
                        elif sh[0][2][1] not in (('c', 0), ('c', 2)):
                            s.bad(t, sh[0][-1], 'a slot whose time is over can still read')
                        if r not in (m,):
                            s.bad(t, i, 'the timer does not wait for the nearest limit')
                    else:
                        if sh:
                            s.bad(t, sh[0][-1], 'a slot is ended before its time')
                        if r != min(l, m):
                            s.bad(t, i, 'the timer does not wait for the nearest limit')
        s.ctx.need(n, 'no timer obligations')
        s.obl = n
        # the same clock everywhere
        clocks = {}
        for f in s.P.funcs.values():
            if f.name.startswith('onion_poller'):
                for i in f.insts():
                    if 'callee' in i.d and i.callee in ('clock_gettime', 'time'):
                        clocks.setdefault((i.callee, tuple(i.ops[0][:2]) if i.callee == 'clock_gettime' else ()), []).append(i)
        if len(clocks) > 1:
            i = min(clocks.values(), key=len)[0]
            s.ctx.violation(dict(msg='limits are set and checked with different clocks at %s' % i.where(), where=i.where(), path=[]))

    # ------------------------------------------------------------------ free
    def free(s):
        t = s.shape('onion_poller_free')
        if not t:
            return
        O = s.O
        looked = lambda st: [k[1] for k in st.null if k[0] == 'f' and k[2] == O.shutdown] + [e[2][0] for e in st.ev if e[0] == 'call' and e[1] == 'onion_poller_slot_free']
        c = s.run_walk(t, looked, 'the end of the poller')
        if c is None:
            return
        s.shutdowns(t, [(p, c) for p in t.paths if p[1] == 'back'])
        for st, kind, v, i in t.paths:
            if kind == 'ret':
                ends = [e for e in st.ev if e[0] == 'call' and e[1] in ('free', 'onion_low_free')]
                if ends and not any(e[0] == 'loop' for e in st.ev):
                    s.bad(t, i, 'the poller ends without shutting its slots down')

    # ------------------------------------------------------------------ poll
    def poll(s):
        t = s.shape('onion_poller_poll')
        if not t:
            return
        O = s.O; p = ('arg', 0); n = 0
        evl = None
        for st, kind, v, i in t.paths:
            for e in st.ev:
                if e[0] == 'slot':
                    b = e[-1].bb
                    evl = b if b is not None else evl
        s.ctx.need(evl is not None, 'onion_poller_poll takes no slot from an event')
        loops = sorted(((len(body), h) for h, body in t.loops.items() if evl in body))
        s.ctx.need(loops, 'onion_poller_poll has no loop')
        inner = t.loops[loops[0][1]]; outer = loops[-1][1]
        for st, kind, v, i in t.paths:
            if kind == 'back' and i is not None and i.bb in inner and i.bb != loops[0][1]:
                continue                               # one step of a loop inside the handling of an event
            E = [(k, e) for k, e in enumerate(st.ev) if e[0] == 'slot']
            if kind == 'ret':
                np = 0
                for e in st.ev:
                    if e[0] == 'store' and e[1] == p and e[2] == O.np:
                        d = [ev(e[3], {x: 10}) for x in syms(e[3])]
                        np += d[0] - 10 if d and d[0] is not None else 99
                if np:
                    s.bad(t, i, 'the count of polling threads is not restored')
            if not E:
                continue
            n += 1
            s.event(t, st, kind, i, E)
        s.ctx.need(n >= 4, 'too few event paths in onion_poller_poll')
        s.events = n
        s.stopping(t, outer)

    def event(s, t, st, kind, i, E):
        O = s.O; p = ('arg', 0)
        el, obj = E[0][1][1], E[0][1][2]
        if any(e[1] != el for _, e in E):
            return
        if st.null.get(el) is True:
            return
        cbs = [(k, e) for k, e in enumerate(st.ev) if e[0] == 'cb']
        w = ('f', obj, 0)
        combos = st.cond.get(w, range(1 << len(EVBITS)))
        words = [t.word(EVBITS, c) for c in combos]
        for k, e in cbs:
            if strip(e[1]) != ('f', el, O.f):
                s.bad(t, e[-1], 'an event calls something that is not the callback of its slot')
            elif not e[2] or strip(e[2][0]) != ('f', el, O.data):
                s.bad(t, e[-1], 'a callback gets other data')
        if len(cbs) > 1:
            s.bad(t, cbs[1][1][-1], 'a callback runs twice for one event')
        if cbs and any(x & HUP for x in words):
            s.bad(t, cbs[0][1][-1], 'a callback runs for a descriptor that hung up')
        if not cbs and any(not x & HUP for x in words):
            s.bad(t, i, 'an event is dropped without running its callback')
        rem = [(k, e) for k, e in enumerate(st.ev) if e[0] == 'call' and e[1] == 'onion_poller_remove']
        ctl = [(k, e) for k, e in enumerate(st.ev) if e[0] == 'ctl']
        for k, e in rem:
            if unc(strip(e[2][1])) != ('f', el, O.fd) or e[2][0] != p:
                s.bad(t, e[-1], 'another descriptor is removed')
        if len(rem) > 1:
            s.bad(t, rem[1][1][-1], 'a descriptor is removed twice')
        for k, e in ctl:
            if e[2] != ('c', 3):
                s.bad(t, e[-1], 'an event changes the epoll set other than by rearming'); continue
            if strip(e[1]) != ('f', p, O.pfd) or unc(strip(e[3])) != ('f', el, O.fd):
                s.bad(t, e[-1], 'another descriptor is rearmed')
            x = unc(e[4][0])
            if strip(x) != ('f', el, O.type):
                s.bad(t, e[-1], 'the descriptor is not rearmed with the type of its slot')
            elif cbs and (len(x) < 4 or x[3] < cbs[0][1][3]):
                s.bad(t, e[-1], 'the descriptor is rearmed with the type it had before its callback')
            if strip(e[4][1]) != strip(el):
                s.bad(t, e[-1], 'the rearmed event does not lead to its slot')
            if cbs and k < cbs[0][0]:
                s.bad(t, e[-1], 'the descriptor is rearmed before its callback is done')
        if len(ctl) > 1:
            s.bad(t, ctl[1][1][-1], 'a descriptor is rearmed twice')
        # what the callback said
        res = ('call', cbs[0][1][-1].id) if cbs else None
        for v in (-5, -1, 0, 1, 7) if cbs else (-1,):
            a = {res: v} if cbs else {}
            if not t.possible(st, a):
                continue
            if v < 0:
                if not rem:
                    s.bad(t, i, 'a descriptor stays although its callback asked for its removal' if cbs else 'a descriptor that hung up is not removed')
                if ctl:
                    s.bad(t, ctl[0][1][-1], 'a descriptor is rearmed although it must go')
            else:
                if rem:
                    s.bad(t, rem[0][1][-1], 'a descriptor is removed although its callback wants more')
                elif not ctl and t.possible(st, {('f', p, O.pfd): 3}):
                    s.bad(t, i, 'a descriptor is not rearmed although its callback wants more')
        # nothing is done to the slot once another thread may serve it
        last = min([k for k, _ in ctl + rem], default=None)
        if last is not None:
            for e in st.ev[last + 1:]:
                if e[0] in ('read', 'store') and strip(e[1]) == strip(el):
                    s.bad(t, e[-1], 'the slot is used after it was rearmed or removed')
        # timeouts
        if cbs:
            k = cbs[0][0]
            sets = [(j, e) for j, e in enumerate(st.ev) if e[0] == 'store' and strip(e[1]) == strip(el) and e[2] == O.limit]
            pre = [e for j, e in sets if j < k]
            if not pre or pre[-1][3][0] != 'c' or pre[-1][3][1] < FOREVER:
                s.bad(t, cbs[0][1][-1], 'the timeout of a descriptor runs while its callback does')
            post = [(j, e) for j, e in sets if j > k]
            T = {x for c in st.cond if c[0] == 'icmp' for x in syms(c) if strip(x) == strip(('f', el, O.timeout))} | \
                {x for _, e in post for x in syms(e[3]) if strip(x) == strip(('f', el, O.timeout))}
            for v in (-1, 0, 1, 9):
                if not t.possible(st, {x: v for x in T}):
                    continue
                gone = rem and (not post)
                if v > 0 and not gone:
                    now = {x for _, e in post[-1:] for x in syms(e[3]) if x[0] == 'now'}
                    a = {x: v for x in T}; a.update({x: 500 for x in now})
                    if not post or len(now) != 1 or ev(post[-1][1][3], a) != 500 + v:
                        s.bad(t, i, 'the timeout of a descriptor does not start again after its callback')
                    else:
                        s.armed(t, st, i, None, post[-1][0])
                elif v <= 0 and post and post[-1][1][3][0] != 'c':
                    s.bad(t, post[-1][1][-1], 'a descriptor without timeout gets one')

    def says(s, t, q, val, asg):
        r = ev(val, asg)
        if r is None:
            return False
        waits = [st.null.get(('it', q)) for st, *_ in t.paths if any(e[0] == 'wait' for e in st.ev)]
        return bool(waits) and all(z is (r != 0) for z in waits) if r != 0 else bool(waits) and all(z is False for z in waits)

    def stopping(s, t, outer):
        """a stopped poller waits no more"""
        O = s.O; p = ('arg', 0); n = 0
        phis = {i.id for i in t.fn.blocks[outer] if i.op == 'phi'}
        for st, kind, v, i in t.paths:
            if kind != 'back' or i is not None and i.bb != outer:
                continue
            n += 1
            W = max((k for k, e in enumerate(st.ev) if e[0] == 'wait'), default=-1)
            tl = {e[1]: e[2] for e in st.ev if e[0] == 'tail'}
            if any(s.says(t, q, val, {}) for q, val in tl.items()):
                continue                                  # ends by itself
            ld = [e[1] for e in st.ev[W + 1:] if e[0] == 'ldstop']
            if not ld:
                # looked at before waiting again?
                pre = [e[1] for e in st.ev[:W] if e[0] == 'ldstop']
                if not any(st.null.get(x) is True for x in pre[-1:]) or not any(e[0] == 'loop' for e in st.ev[:[k for k, e in enumerate(st.ev) if e[0] == 'ldstop'][-1]]):
                    s.bad(t, i, 'the poller goes on without looking at whether it was stopped')
                continue
            x = ld[-1]
            if st.null.get(x) is True:
                continue
            # may be stopped: some loop variable must say so, and be tested before waiting
            ok = any(s.says(t, q, val, {x: 1, **{y: 77 for y in syms(val) if y != x}}) for q, val in tl.items())
            if not ok:
                s.bad(t, i, 'the poller goes on although it was stopped')
        s.ctx.need(n >= 1, 'onion_poller_poll does not loop')
        t2 = s.shape('onion_poller_stop')
        if not t2:
            return
        for st, kind, v, i in t2.paths:
            if kind != 'ret':
                continue
            sets = [e for e in st.ev if e[0] == 'store' and e[1] == p and e[2] == O.stop]
            if not sets or sets[-1][3][0] != 'c' or sets[-1][3][1] == 0:
                s.bad(t2, i, 'stopping does not mark the poller as stopped')
            N = {x for c in list(st.cond) + list(st.null) for x in syms(c) if strip(x) == ('f', p, O.np)}
            wr = [e for e in st.ev if e[0] == 'call' and e[1] == 'write' and strip(unc(e[2][0])) == ('f', p, O.efd)]
            if t2.possible(st, {x: 1 for x in N}) and not wr:
                s.bad(t2, i, 'stopping does not wake up a waiting thread')
            if wr and sets and st.ev.index(wr[0]) < st.ev.index(sets[0]):
                s.bad(t2, wr[0][-1], 'a thread is woken up before the poller is marked as stopped')


def num(t, w):
    S = list(syms(t)); r = {x: 0 for x in S}
    if S:
        r[S[0]] = w
    return r


def base(c):
    while c[0] == 'f':
        c = c[1]
    return c


def c_next(c, O):
    return ('f', ('p', c, O.next), 0)


def subterms(t):
    yield t
    for x in t:
        if isinstance(x, tuple):
            yield from subterms(x)


def run(ctx):
    r = Run(ctx)
    r.obl = r.events = 0
    r.slots(); r.get(); r.remove(); r.add(); r.timer(); r.free(); r.poll()
    ctx.cover(functions=sorted(r.checked), paths=r.paths, event_paths=r.events, timer_obligations=r.obl, undecided=r.undecided)
    ctx.assume.append('slots reached through different links are distinct (the links form a list; shown to be kept by each function)')
    ctx.assume.append('the epoll poller is the one built (poller_libev.c and poller_libevent.c are not analysed)')
