"""P03: dictionaries are search trees: each function keeps the in-order sequence of entries, looks on the side the
comparison says, and keeps or releases keys and values as their flags say."""
from shape import *
from ir import *

D = 'onion_dict_t'; N = 'onion_dict_node_t'
MASKS = [1, 2, 4, 0x10, 0x20, 0x40, 0x100]
FREE = {'free', 'onion_low_free'}
NEW = {'malloc', 'calloc', 'onion_low_malloc', 'onion_low_calloc', 'onion_low_scalar_malloc'}


class Off:
    def __init__(s, P):
        f = {x['n']: x['o'] for x in P.structs[N]['fields']}
        s.left, s.right, s.level = f['left'], f['right'], f['level']
        s.key, s.value, s.flags = f['data.key'], f['data.value'], f['data.flags']
        d = {x['n']: x['o'] for x in P.structs[D]['fields']}
        s.root, s.cmp, s.ref = d['root'], d['cmp'], d['refcount']


class Tree(Shape):
    flagargs = ()
    def __init__(s, P, fn, O, summ):
        Shape.__init__(s, P, fn)
        s.O = O; s.summ = summ; s.offs = (O.key, O.value, O.flags)

    def ignore(s, t):
        return any(x[0] == 'f' and x[2] == s.O.level and x[1] not in s.dicts for x in syms(t))
    dicts = ()

    def flagbits(s, t):
        if t[0] == 'f' and t[2] == s.O.flags and t[1][0] != 'al' or t in s.flagargs:
            return MASKS
        return None

    def skip_store(s, a):
        return a[1] == s.O.level and a[0] not in s.dicts and a[0][0] != 'al'

    def on_call(s, st, i, n, args):
        if n is None:
            v = s.val(st, i.calleev) if i.calleev else ('u', 0)
            if v[0] == 'f' and v[2] == s.O.cmp:
                return [(st, ('cmp', args[0], args[1]))]
            st.ev += (('callback', v, tuple(args), i),)
            return [(st, ('call', i.id))]
        if n in FREE:
            st.ev += (('free', args[0], i),)
            return [(st, NUL)]
        if n == 'onion_dict_free':
            st.ev += (('dfree', args[0], i),)
            return [(st, NUL)]
        if n in NEW:
            return [(st, ('new', i.id))]
        if n in ('onion_low_strdup', 'strdup'):
            return [(st, ('dup', args[0]))]
        if n == 'onion_dict_hard_dup':
            return [(st, ('ddup', args[0]))]
        if n in ('strcmp', 'strcasecmp'):
            return [(st, ('cmp', args[0], args[1], n))]
        if n in s.summ or n == s.fn.name:
            k = s.summ.get(n, ('self',))
            p = k[1] if len(k) > 1 else None
            T = args[s.nodearg(n)] if s.nodearg(n) is not None else NUL
            r = ('rec', n, T) + tuple(a for j, a in enumerate(args) if j != s.nodearg(n))
            for a in list(st.heap):          # what hangs below T is rearranged
                if s.below(a[0], T):
                    del st.heap[a]
            st.ev += (('rec', n, T, tuple(args), i),)
            w = k[1] if k[0] == 'take' else s.taking
            if w is not None and (k[0] == 'take' or n == s.fn.name):
                j = k[2] if k[0] == 'take' else s.dataarg
                o, off = s.addr(args[j])
                for q in s.offs:
                    st.heap[(o, off + q - s.O.key)] = ('tk', w, T, q)
                r = ('rec', w, T)
            return [(st, r)]
        st.ev += (('call', n, tuple(args), i),)
        return None
    taking = None; dataarg = None

    def nodearg(s, n):
        f = s.prog.funcs.get(n)
        if f is None:
            return None
        for k, a in enumerate(f.args):
            if a.get('dty') == N + '*' or (a.get('dty') or '').replace('const ', '') == N + '*':
                return k
        return None

    def below(s, o, T):
        while o[0] == 'f':
            if o == T:
                return True
            o = o[1]
        return o == T

    # in-order sequence of a subtree
    def seq(s, st, v, final, depth=0):
        if depth > 12:
            return [('cycle',)]
        k = s.isnull(st, v)
        if k:
            return []
        if k is None:
            return [('sub', v)]
        L = lambda off: st.heap.get((v, off), ('f', v, off)) if final else ('f', v, off)
        return s.seq(st, L(s.O.left), final, depth + 1) + [('node', v, L(s.O.key), L(s.O.value), L(s.O.flags))] + s.seq(st, L(s.O.right), final, depth + 1)

    def freed(s, st, v):
        return sum(1 for e in st.ev if e[0] == 'free' and e[1] == v)

    def released(s, st, n):
        """problem with how the key and value of node n were released on this path, for some flags; None if right."""
        O = s.O
        fl = ('f', n, O.flags); ky = ('f', n, O.key); vl = ('f', n, O.value)
        cs = st.cond.get(fl)
        nk = s.freed(st, ky); nv = s.freed(st, vl); nd = sum(1 for e in st.ev if e[0] == 'dfree' and e[1] == vl)
        for c in (cs if cs is not None else range(1 << len(MASKS))):
            w = s.word(MASKS, c)
            if nk != (1 if w & 2 else 0):
                return 'the key of an entry is %s although its flags %s' % (('released', 'say it is not owned') if nk else ('not released', 'say it is owned'))
            if nv + nd != (1 if w & 4 else 0):
                return 'the value of an entry is %s although its flags %s' % (('released', 'say it is not owned') if nv + nd else ('not released', 'say it is owned'))
            if w & 4 and (nd == 1) != bool(w & 0x100):
                return 'the value of an entry is released as %s although it is %s' % (('a dictionary', 'text') if nd else ('text', 'a dictionary'))
        return None


class Run:
    def __init__(s, ctx):
        s.ctx = ctx; s.P = ctx.prog; s.O = Off(s.P); s.summ = {}; s.undecided = []; s.paths = 0; s.checked = set()

    def bad(s, t, i, msg):
        s.ctx.violation(dict(msg='%s at %s' % (msg, i.where()) if i is not None else msg, where=i.where() if i is not None else t.fn.name, path=[]))

    def tree(s, name, **kw):
        f = s.P.funcs.get(name)
        s.ctx.need(f is not None, name + ' not found')
        t = Tree(s.P, f, s.O, s.summ)
        for k, v in kw.items():
            setattr(t, k, v)
        try:
            t.run()
        except Undecided as e:
            s.undecided.append('%s: %s' % (name, e)); return None
        s.paths += len(t.paths); s.checked.add(name)
        return t

    def recs(s, f):
        """recursive functions over nodes that f calls"""
        out = []
        for i in f.calls():
            g = s.P.funcs.get(i.callee)
            if g is not None and g is not f and any((a.get('dty') or '').replace('const ', '') == N + '*' for a in g.args) and any(j.callee == g.name for j in g.calls()):
                if g.name not in out:
                    out.append(g.name)
        return out

    def iterative(s, f):
        return bool(f.loops())

    def arg(s, f, dty):
        for k, a in enumerate(f.args):
            if (a.get('dty') or '').replace('const ', '') == dty:
                return k
        return None

    # ---- take first / last
    def take(s, name):
        if name in s.summ:
            return s.summ[name]
        f = s.P.funcs[name]; O = s.O
        t0 = Tree(s.P, f, O, s.summ); na = t0.nodearg(name)
        da = next((k for k, a in enumerate(f.args) if k != na and (a.get('dty') or '').endswith('_data_t*')), None)
        if da is None:
            s.undecided.append(name); return None
        errs = {}
        for w, side, other in (('first', O.left, O.right), ('last', O.right, O.left)):
            t = s.tree(name, taking=w, dataarg=da)
            if t is None:
                return None
            n = ('arg', na); e = None
            for st, kind, v, i in t.paths:
                if kind != 'ret':
                    s.undecided.append(name + ': loop'); return None
                st.null.setdefault(n, False)
                if st.null.get(n):
                    continue
                c = ('f', n, side); d = ('arg', da)
                got = tuple(st.heap.get((d, q - O.key)) for q in t.offs)
                if t.isnull(st, c):
                    if got != tuple(('f', n, q) for q in t.offs):
                        e = (i, 'the entry taken out of the tree is not the one handed over')
                    elif t.seq(st, v, True) != t.seq(st, ('f', n, other), False):
                        e = (i, 'taking an entry out of the tree loses or misplaces others')
                    elif t.freed(st, n) != 1:
                        e = (i, 'the node taken out of the tree is not released')
                elif t.isnull(st, c) is None:
                    e = (i, 'an entry is taken out without looking for the %s one' % w)
                else:
                    r = ('rec', w, c)
                    if got != tuple(('tk', w, c, q) for q in t.offs):
                        e = (i, 'the entry taken out of the tree is not the one handed over')
                    want = t.seq(st, r, False); me = [('node', n) + tuple(('f', n, q) for q in t.offs)]
                    oth = t.seq(st, ('f', n, other), False)
                    want = want + me + oth if w == 'first' else oth + me + want
                    if t.seq(st, v, True) != want:
                        e = (i, 'taking an entry out of the tree loses or misplaces others')
                if e:
                    break
            if e is None:
                s.summ[name] = ('take', w, da)
                return s.summ[name]
            errs[w] = e
        # report for the side it follows
        w = 'first' if any(i.op == 'store' and f.label(i.ops[1]) == (N, 'left') for i in f.insts()) else 'last'
        i, m = errs[w]
        s.bad(t0, i, m)
        s.summ[name] = ('take', w, da)
        return s.summ[name]

    # ---- add
    def add(s):
        O = s.O; f = s.P.funcs['onion_dict_add']
        R = s.recs(f)
        if len(R) != 1:
            if not R and self_loops(f):
                s.undecided.append('onion_dict_add is iterative'); return
            s.ctx.need(False, 'insertion function not found')
        name = R[0]
        s.summ[name] = ('add',)
        g = s.P.funcs[name]
        # entry
        t = s.tree('onion_dict_add', flagargs=(('arg', 3),))
        roots = (('arg', 0), O.root)
        newarg = None
        if t:
            for st, kind, v, i in t.paths:
                rc = [e for e in st.ev if e[0] == 'rec' and e[1] == name]
                if t.isnull(st, ('arg', 1)):
                    if rc:
                        s.bad(t, i, 'an entry without key is added')
                    continue
                if len(rc) != 1:
                    s.bad(t, i, 'a path of onion_dict_add does not add the entry'); continue
                e = rc[0]; na = t.nodearg(name)
                if e[2] != ('f', ('arg', 0), O.root):
                    s.bad(t, e[-1], 'an entry is not added to the root of the dictionary')
                r = st.heap.get(roots)
                if not r or r[0] != 'rec' or r[1] != name:
                    s.bad(t, i, 'the root of the dictionary is not updated after adding an entry')
                new = [a for a in e[3] if a[0] == 'new']
                if len(new) != 1:
                    s.undecided.append('new node'); continue
                n = new[0]; newarg = e[3].index(n)
                H = lambda q: st.heap.get((n, q))
                for q, nm in ((O.left, 'left'), (O.right, 'right')):
                    if H(q) != NUL:
                        s.bad(t, e[-1], 'a new entry is added with its %s link not empty' % nm)
                cs = st.cond.get(('arg', 3)); m = None
                for c in (cs if cs is not None else range(1 << len(MASKS))):
                    w = t.word(MASKS, c)
                    k = ('dup', ('arg', 1)) if w & 0x12 == 0x12 else ('arg', 1)
                    vv = ('arg', 2) if w & 0x24 != 0x24 else ('ddup', ('arg', 2)) if w & 0x100 else ('dup', ('arg', 2))
                    fl = ev(H(O.flags), {('arg', 3): w}) if H(O.flags) else None
                    if H(O.key) != k:
                        m = 'a key is %s although the flags of onion_dict_add say otherwise' % ('not copied' if k[0] == 'dup' else 'copied')
                    elif H(O.value) != vv:
                        m = 'the value of an entry is not %s as the flags of onion_dict_add say' % {'arg': 'kept as given', 'dup': 'copied as text', 'ddup': 'copied as a dictionary'}[vv[0]]
                    elif fl is None or fl & 0x106 != w & 0x106:
                        m = 'the flags kept with an entry are not those given to onion_dict_add'
                    elif fl & 0x40 != w & 0x40:
                        m = 'the replace flag given to onion_dict_add is lost'
                    if m:
                        s.bad(t, i, m); break
        # recursive insertion
        t = s.tree(name)
        if t is None:
            return
        na = t.nodearg(name)
        if newarg is None:
            newarg = next(k for k, a in enumerate(g.args) if k != na and (a.get('dty') or '').endswith('_node_t*'))
        n = ('arg', na); m = ('arg', newarg); done = set()
        for st, kind, v, i in t.paths:
            if kind != 'ret':
                s.undecided.append(name + ': loop'); return
            s.insert_path(t, name, st, v, i, n, m, na, newarg)

    def order(s, t, st, key, nk, i):
        """sign of comparing key with the key of the node, on this path"""
        for c, sg in st.sign.items():
            if len(c) > 3:
                s.bad(t, i, 'keys are compared with %s instead of the comparison of the dictionary' % c[3])
                return None
            if c[1:3] == (key, nk):
                return sg
            if c[1:3] == (nk, key):
                return frozenset(-x for x in sg)
        return frozenset((-1, 0, 1))

    def insert_path(s, t, name, st, v, i, n, m, na, newarg):
        O = s.O
        if t.isnull(st, n):
            if v != m:
                s.bad(t, i, 'an entry added to an empty place is lost')
            return
        if t.isnull(st, n) is None:
            if v != n or True:
                s.bad(t, i, 'an entry is added without looking whether there is a node')
            return
        st.null[m] = False
        sg = s.order(t, st, ('f', m, O.key), ('f', n, O.key), i)
        if sg is None:
            return
        rc = [e for e in st.ev if e[0] == 'rec' and e[1] == name]
        me = ('node', n) + tuple(('f', n, q) for q in t.offs)
        l, r = ('f', n, O.left), ('f', n, O.right)
        if not rc:
            # replaced
            want = t.seq(st, l, False) + [('node', n) + tuple(('f', m, q) for q in t.offs)] + t.seq(st, r, False)
            if sg != frozenset((0,)):
                s.bad(t, i, 'an entry is replaced by, or lost to, one with another key'); return
            fl = st.cond.get(('f', m, O.flags))
            if fl is None or not all(t.word(MASKS, c) & 0x40 for c in fl):
                s.bad(t, i, 'an entry is replaced although this was not asked for')
            if t.seq(st, v, True) != want:
                s.bad(t, i, 'replacing an entry does not put the new data in its place'); return
            p = t.released(st, n)
            if p:
                s.bad(t, i, p + ' when it is replaced')
            if t.freed(st, m) != 1:
                s.bad(t, i, 'the node of a replacing entry is not released')
            return
        if len(rc) > 1:
            s.bad(t, i, 'an entry is added twice'); return
        e = rc[0]
        fl = st.cond.get(('f', m, O.flags))
        if 0 in sg and not (fl is not None and not any(t.word(MASKS, c) & 0x40 for c in fl)):
            s.bad(t, e[-1], 'an entry with a key that is already there may be added although replacing was asked for')
        if e[3][newarg] != m:
            s.bad(t, e[-1], 'another entry than the given one is added'); return
        x = ('rec', name, e[2]) + tuple(a for j, a in enumerate(e[3]) if j != na)
        if e[2] == l:
            if 1 in sg:
                s.bad(t, e[-1], 'an entry with a greater key is put on the left side'); return
            want = t.seq(st, x, False) + [me] + t.seq(st, r, False)
        elif e[2] == r:
            if -1 in sg:
                s.bad(t, e[-1], 'an entry with a smaller key is put on the right side'); return
            want = t.seq(st, l, False) + [me] + t.seq(st, x, False)
        else:
            s.bad(t, e[-1], 'an entry is not added below the node it was compared with'); return
        if t.seq(st, v, True) != want:
            s.bad(t, i, 'rebalancing after adding an entry loses or misplaces entries')
        if any(y[0] in ('free', 'dfree') for y in st.ev):
            s.bad(t, i, 'adding an entry releases another')

    # ---- remove
    def remove(s):
        O = s.O; f = s.P.funcs['onion_dict_remove']
        R = s.recs(f)
        if len(R) != 1:
            if not R and self_loops(f):
                s.undecided.append('onion_dict_remove is iterative'); return
            s.ctx.need(False, 'removal function not found')
        name = R[0]
        for k in s.recs(s.P.funcs[name]):
            s.take(k)
        s.summ[name] = ('remove',)
        t = s.tree('onion_dict_remove')
        if t:
            for st, kind, v, i in t.paths:
                rc = [e for e in st.ev if e[0] == 'rec' and e[1] == name]
                if not rc:
                    if t.isnull(st, ('f', ('arg', 0), O.root)) or t.isnull(st, ('arg', 0)) or t.isnull(st, ('arg', 1)):
                        continue
                    s.bad(t, i, 'a path of onion_dict_remove removes nothing'); continue
                if rc[0][2] != ('f', ('arg', 0), O.root) or ('arg', 1) not in rc[0][3]:
                    s.bad(t, i, 'onion_dict_remove does not look for the given key from the root')
                r = st.heap.get((('arg', 0), O.root))
                if not r or r[0] != 'rec' or r[1] != name:
                    s.bad(t, i, 'the root of the dictionary is not updated after removing an entry')
        t = s.tree(name)
        if t is None:
            return
        na = t.nodearg(name); g = s.P.funcs[name]
        ka = next((k for k, a in enumerate(g.args) if (a.get('dty') or '').replace('const ', '') == 'char*'), None)
        if ka is None:
            s.undecided.append(name); return
        n = ('arg', na); key = ('arg', ka); l, r = ('f', n, O.left), ('f', n, O.right)
        for st, kind, v, i in t.paths:
            if kind != 'ret':
                s.undecided.append(name + ': loop'); return
            if t.isnull(st, n):
                if t.isnull(st, v) is not True and v != n:
                    s.bad(t, i, 'removing from an empty subtree gives nodes')
                continue
            sg = s.order(t, st, key, ('f', n, O.key), i)
            if sg is None:
                return
            rc = [e for e in st.ev if e[0] == 'rec' and e[1] == name]
            me = ('node', n) + tuple(('f', n, q) for q in t.offs)
            got = t.seq(st, v, True)
            if sg == frozenset((0,)):
                p = t.released(st, n)
                if p:
                    s.bad(t, i, p + ' when it is removed'); continue
                cand = []
                L, R = t.seq(st, l, False), t.seq(st, r, False)
                if t.freed(st, n) == 1:
                    cand.append(L + R)
                elif t.freed(st, n) == 0:
                    for w, side in (('first', r), ('last', l)):
                        x = t.seq(st, ('rec', w, side), False); nd = [('node', n) + tuple(('tk', w, side, q) for q in t.offs)]
                        cand.append(L + nd + x if w == 'first' else x + nd + R)
                if got not in cand:
                    s.bad(t, i, 'removing an entry loses, keeps or misplaces other entries')
                continue
            side = {-1: l, 1: r}
            if not rc and got == t.seq(st, n, False) and all(x in side and t.isnull(st, side[x]) for x in sg) and not any(y[0] in ('free', 'dfree') for y in st.ev):
                continue            # nothing on the side where it would be
            if len(rc) != 1 or e_side(rc[0][2], l, r) is None or rc[0][3][ka] != key:
                s.bad(t, i, 'an entry is removed, or not looked for, although its key is another'); continue
            e = rc[0]
            x = t.seq(st, ('rec', name, e[2]) + tuple(a for j, a in enumerate(e[3]) if j != na), False)
            if e[2] == l:
                if sg & {0, 1}:
                    s.bad(t, e[-1], 'an entry with a greater key is looked for on the left side'); continue
                want = x + [me] + t.seq(st, r, False)
            else:
                if sg & {0, -1}:
                    s.bad(t, e[-1], 'an entry with a smaller key is looked for on the right side'); continue
                want = t.seq(st, l, False) + [me] + x
            if got != want:
                s.bad(t, i, 'rebalancing after removing an entry loses or misplaces entries')
            if any(y[0] in ('free', 'dfree') for y in st.ev):
                s.bad(t, i, 'removing an entry releases another')

    # ---- lookups
    def lookups(s):
        O = s.O
        for fname, dict_ in (('onion_dict_get', False), ('onion_dict_get_dict', True)):
            f = s.P.funcs[fname]
            R = s.recs(f)
            for r in R:
                if r not in s.summ:
                    s.summ[r] = ('find',); s.find(r)
            t = s.tree(fname)
            if t is None:
                continue
            for st, kind, v, i in t.paths:
                if kind == 'back':
                    s.step_ok(t, st, i, ('arg', 1)); continue
                if t.isnull(st, ('arg', 0)) or t.isnull(st, ('arg', 1)):
                    if not t.isnull(st, v):
                        s.bad(t, i, 'a lookup in no dictionary finds something')
                    continue
                node = None
                for e in st.ev:
                    if e[0] == 'rec':
                        if e[2] != ('f', ('arg', 0), O.root):
                            s.bad(t, e[-1], 'a lookup does not start at the root of the dictionary')
                        if ('arg', 1) not in e[3]:
                            s.bad(t, e[-1], 'a lookup looks for another key')
                        node = ('rec', e[1], e[2]) + tuple(a for j, a in enumerate(e[3]) if j != t.nodearg(e[1]))
                    elif e[0] == 'loop' and e[3].d.get('ty') == 'ptr':
                        if e[2] != ('f', ('arg', 0), O.root):
                            if t.nodelike(e[1]):
                                s.bad(t, e[-1], 'a lookup does not start at the root of the dictionary')
                        node = ('it', e[1])
                if node is None:
                    if t.isnull(st, ('f', ('arg', 0), O.root)) and t.isnull(st, v):
                        continue
                    if t.isnull(st, v):
                        s.bad(t, i, 'a path of %s does not look for the key' % fname)
                    else:
                        s.bad(t, i, 'a path of %s answers without looking for the key' % fname)
                    continue
                if node[0] == 'it' and t.isnull(st, node) is not True:
                    sg = s.order(t, st, ('arg', 1), ('f', node, O.key), i)
                    if sg is None:
                        return
                    if sg != frozenset((0,)):
                        s.bad(t, i, 'a lookup ends at an entry whose key may be another'); continue
                if t.isnull(st, node):
                    if not t.isnull(st, v):
                        s.bad(t, i, 'a lookup of an absent key gives a value')
                    continue
                fl = st.cond.get(('f', node, O.flags))
                isd = None if fl is None else {bool(t.word(MASKS, c) & 0x100) for c in fl}
                if t.isnull(st, v) and v[0] in ('n', 'c'):
                    if isd != {not dict_}:
                        s.bad(t, i, 'a lookup does not give the value of an entry that is there')
                else:
                    if v != ('f', node, O.value):
                        s.bad(t, i, 'a lookup gives something else than the value of the entry')
                    if isd != {dict_}:
                        s.bad(t, i, 'a lookup may give %s' % ('text as a dictionary' if dict_ else 'a dictionary as text'))

    def step_ok(s, t, st, i, key):
        O = s.O
        for e in st.ev:
            if e[0] == 'tail' and t.nodelike(e[1]):
                n = ('it', e[1])
                sg = s.order(t, st, key, ('f', n, O.key), i)
                if sg is None:
                    return
                s.side(t, e[-1], e[2], n, sg)

    def side(s, t, i, x, n, sg):
        O = s.O
        if x == ('f', n, O.left):
            if sg & {0, 1}:
                s.bad(t, i, 'a lookup of a key that is not smaller goes to the left side')
        elif x == ('f', n, O.right):
            if sg & {0, -1}:
                s.bad(t, i, 'a lookup of a key that is not greater goes to the right side')
        else:
            s.bad(t, i, 'a lookup goes on elsewhere than below the node')

    def find(s, name):
        O = s.O
        t = s.tree(name)
        if t is None:
            return
        na = t.nodearg(name); g = s.P.funcs[name]
        ka = next((k for k, a in enumerate(g.args) if (a.get('dty') or '').replace('const ', '') == 'char*'), None)
        if ka is None:
            s.undecided.append(name); return
        n = ('arg', na); key = ('arg', ka)
        for st, kind, v, i in t.paths:
            if kind != 'ret':
                s.undecided.append(name + ': loop'); return
            if t.isnull(st, n):
                if not t.isnull(st, v) and v != n:
                    s.bad(t, i, 'a lookup in an empty subtree finds something')
                continue
            sg = s.order(t, st, key, ('f', n, O.key), i)
            if sg is None:
                return
            rc = [e for e in st.ev if e[0] == 'rec' and e[1] == name]
            if not rc:
                if v == n:
                    if sg != frozenset((0,)):
                        s.bad(t, i, 'a lookup ends at an entry whose key may be another')
                elif t.isnull(st, v):
                    c = {-1: ('f', n, O.left), 1: ('f', n, O.right)}
                    if not all(x in c and t.isnull(st, c[x]) for x in sg):
                        s.bad(t, i, 'a lookup gives up although the key may be there')
                else:
                    s.bad(t, i, 'a lookup gives another node than the one with the key')
                continue
            e = rc[-1]
            s.side(t, e[-1], e[2], n, sg)
            if e[3][ka] != key:
                s.bad(t, e[-1], 'a lookup goes on with another key')
            x = ('rec', name, e[2]) + tuple(a for j, a in enumerate(e[3]) if j != na)
            if v != x:
                s.bad(t, i, 'what a lookup found below is not returned')

    # ---- traversals
    def visits(s, entry, what):
        O = s.O; f = s.P.funcs[entry]
        R = s.recs(f)
        for name in R:
            if name in s.summ:
                continue
            s.summ[name] = ('visit',)
            t = s.tree(name)
            if t is None:
                continue
            na = t.nodearg(name)
            for st, kind, v, i in t.paths:
                n = ('arg', na)
                lp = [e for e in st.ev if e[0] == 'loop' and t.nodelike(e[1])]
                if lp:
                    if lp[0][2] != n:
                        s.bad(t, i, 'a visit of a subtree does not start at its node')
                    n = ('it', lp[0][1])
                if t.isnull(st, n):
                    continue
                evs = []
                for e in st.ev:
                    if e[0] == 'rec' and e[1] == name:
                        evs.append(('sub', e[2]))
                        if what != 'free' and what != 'count' and any(a != ('arg', k) for k, a in enumerate(e[3]) if k != na):
                            s.bad(t, e[-1], 'the visit of a subtree is not given the same function and data')
                    elif e[0] == 'tail' and t.nodelike(e[1]):
                        evs.append(('sub', e[2]))
                    elif e[0] == 'callback':
                        evs.append(('cb', e[1], e[2]))
                for q, nm in ((O.left, 'left'), (O.right, 'right')):
                    c = ('f', n, q); k = evs.count(('sub', c))
                    if k > 1 or k == 0 and not t.isnull(st, c):
                        s.bad(t, i, 'the entries on the %s side are %s' % (nm, 'left out' if k == 0 else 'visited twice'))
                if what == 'visit':
                    cb = [e for e in evs if e[0] == 'cb']
                    want = (('arg', None), ('f', n, O.key), ('f', n, O.value), ('f', n, O.flags))
                    if len(cb) != 1:
                        s.bad(t, i, 'an entry is given to the function %s times' % len(cb)); continue
                    a = tuple(strip(x) for x in cb[0][2])
                    if a[1:] != want[1:]:
                        s.bad(t, i, 'the function is not given the key, value and flags of the entry')
                    sq = [e for e in evs if e[0] == 'cb' or e[1] in (('f', n, O.left), ('f', n, O.right))]
                    kinds = ['C' if e[0] == 'cb' else 'L' if e[1] == ('f', n, O.left) else 'R' for e in sq]
                    if kinds != sorted(kinds, key='LCR'.index):
                        s.bad(t, i, 'entries are not visited in order')
                elif what == 'free':
                    p = t.released(st, n)
                    if p:
                        s.bad(t, i, p + ' when the dictionary is released')
                    if t.freed(st, n) != 1:
                        s.bad(t, i, 'a node is not released with the dictionary')
                elif what == 'count' and not lp:
                    tot = count_terms(v)
                    subs = sorted(repr(e[1]) for e in evs)
                    if tot is None or tot[0] != 1 or sorted(repr(x[2]) for x in tot[1]) != subs:
                        s.bad(t, i, 'the entries counted are not those of the node and its subtrees')
            # the entry function starts it at the root
        t = s.tree(entry)
        if t is None or not R:
            return
        for st, kind, v, i in t.paths:
            rc = [e for e in st.ev if e[0] == 'rec' and e[1] in R]
            root = ('f', ('arg', 0), O.root)
            if what == 'free':
                destroyed = t.freed(st, ('arg', 0))
                if destroyed and not rc and not t.isnull(st, root):
                    s.bad(t, i, 'a dictionary is released without its entries')
                if rc and not destroyed:
                    s.bad(t, i, 'the entries of a dictionary that stays are released')
                # the last reference, and only the last, releases it
                if t.isnull(st, ('arg', 0)) is not True:
                    ref = ('f', ('arg', 0), O.ref)
                    now = st.heap.get((('arg', 0), O.ref))
                    if ev(now, {ref: 7}) != 6 if now else True:
                        s.bad(t, i, 'a release does not take away exactly one reference'); continue
                    last = {x for x in (1, 2, 3) if all(ev(c, {ref: x}) in (None, int(tr)) for c, tr in st.cond.items() if isinstance(tr, bool))}
                    if not (last == {1} if destroyed else 1 not in last):
                        s.bad(t, i, 'a dictionary %s' % ('still in use is released' if destroyed else 'is not released with its last reference'))
            elif t.isnull(st, ('arg', 0)) is not True and t.isnull(st, root) is not True:
                if len(rc) != 1 or rc[0][2] != root:
                    s.bad(t, i, 'the entries of a dictionary are not visited from its root')

    # ---- copies
    def copies(s):
        O = s.O
        f = s.P.funcs['onion_dict_dup']
        t = s.tree('onion_dict_dup')
        if t:
            for st, kind, v, i in t.paths:
                ref = ('f', ('arg', 0), O.ref); now = st.heap.get((('arg', 0), O.ref))
                if v != ('arg', 0) or not now or ev(now, {ref: 7}) != 8:
                    s.bad(t, i, 'a duplicate of a dictionary is not the same dictionary with one reference more')
        for fname, keepcmp in (('onion_dict_hard_dup', True), ('onion_dict_merge', False)):
            f = s.P.funcs[fname]
            cbs = {o[1] for i in f.calls() if i.callee == 'onion_dict_preorder' for o in i.ops if o[0] == 'f'}
            if not cbs:
                s.undecided.append(fname); continue
            for cb in cbs:
                t = s.tree(cb, flagargs=(('arg', 3),))
                if t is None:
                    continue
                for st, kind, v, i in t.paths:
                    ad = [e for e in st.ev if e[0] == 'call' and e[1] == 'onion_dict_add']
                    if len(ad) != 1:
                        s.bad(t, i, 'an entry of a copied dictionary is added %d times' % len(ad)); continue
                    a = ad[0][2]
                    if a[:3] != (('arg', 0), ('arg', 1), ('arg', 2)):
                        s.bad(t, i, 'an entry of a copied dictionary is added with another key or value'); continue
                    cs = st.cond.get(('arg', 3))
                    for c in (cs if cs is not None else range(1 << len(MASKS))):
                        w = t.word(MASKS, c)
                        x = ev(a[3], {('arg', 3): w})
                        if x is None or x & 0x36 != 0x36:
                            s.bad(t, i, 'an entry of a copied dictionary shares key or value with the original'); break
                        if x & 0x100 != w & 0x100:
                            s.bad(t, i, 'an entry of a copied dictionary changes its type'); break
            t = s.tree(fname)
            if t:
                for st, kind, v, i in t.paths:
                    pr = [e for e in st.ev if e[0] == 'call' and e[1] == 'onion_dict_preorder']
                    if len(pr) != 1:
                        s.bad(t, i, 'the entries of a copied dictionary are not all added'); continue
                    a = pr[0][2]
                    src, dst = (('arg', 0), v) if fname == 'onion_dict_hard_dup' else (('arg', 1), ('arg', 0))
                    if a[0] != src or a[2] != dst:
                        s.bad(t, i, 'a dictionary is copied from or to another one'); continue
                    if keepcmp and st.heap.get((dst, O.cmp)) != ('f', src, O.cmp):
                        sf = [e for e in st.ev if e[0] == 'call' and e[1] == 'onion_dict_set_flags']
                        if not sf:
                            s.bad(t, i, 'a copy of a dictionary does not compare keys as the original')


def strip(v):
    while v[0] == 'cast':
        v = v[2]
    return v


def count_terms(v):
    """(constant, [rec...]) of a sum"""
    v = strip(v)
    if v[0] == 'c':
        return v[1], []
    if v[0] == 'rec':
        return 0, [v]
    if v[0] == 'bin' and v[1] == 'add':
        a, b = count_terms(v[2]), count_terms(v[3])
        return None if a is None or b is None else (a[0] + b[0], a[1] + b[1])
    return None


def e_side(x, l, r):
    return 'l' if x == l else 'r' if x == r else None


def self_loops(f):
    return bool(f.loops())


def _nodelike(t, pid):
    """the loop variable is a node: some field of it is accessed"""
    return any(u.op == 'getelementptr' and u.d.get('st') in (N,) for u in t.fn.users(pid))


Tree.nodelike = _nodelike


def run(ctx):
    r = Run(ctx)
    r.add(); r.remove(); r.lookups()
    r.visits('onion_dict_preorder', 'visit'); r.visits('onion_dict_free', 'free'); r.visits('onion_dict_count', 'count')
    r.copies()
    ctx.cover(functions=sorted(r.checked), paths=r.paths, undecided=r.undecided)
    ctx.need(len(r.checked) >= 8, 'only %d dictionary functions could be analysed' % len(r.checked))
    ctx.assume.append('nodes reached through different links are distinct (the links form a tree; shown to be kept by each function)')
