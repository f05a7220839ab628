"""Program representation over irdump's JSON: functions, CFG, call graph, fields."""
import os, re
from collections import defaultdict
from front import AnalysisBroken, REPO


def relfile(f):
    f = f or ''
    rp = os.path.realpath(REPO)
    for p in (rp + '/', REPO + '/'):
        if f.startswith(p):
            return f[len(p):]
    i = f.find('/src/')
    return f[i + 1:] if i >= 0 else f


# allocator entry points: by contract they do not touch library objects (the pluggable back end is user code)
LOWFN = ('onion_low_malloc', 'onion_low_calloc', 'onion_low_scalar_malloc', 'onion_low_realloc', 'onion_low_strdup', 'onion_low_free', 'onion_low_try_')


class Inst:
    __slots__ = ('id', 'op', 'ty', 'ops', 'line', 'file', 'sc', 'inl', 'd', 'fn', 'bb', 'idx', 'callee')

    def __init__(s, d, fn, bb, idx):
        s.id = d['id']; s.op = d['op']; s.ty = d['ty']; s.ops = [tuple(_t(o)) for o in d['ops']]
        s.line = d.get('line', 0); s.file = d.get('file', ''); s.sc = d.get('sc', ''); s.inl = d.get('inl', 0)
        s.d = d; s.fn = fn; s.bb = bb; s.idx = idx
        s.callee = None
        if 'callee' in d:
            c = d['callee']
            s.callee = c[1] if c[0] == 'f' else None

    @property
    def calleev(s):
        return tuple(_t(s.d['callee'])) if 'callee' in s.d else None

    def loc(s):
        return '%s:%s' % (relfile(s.file), s.line)

    def where(s):
        f = s.fn.src
        if s.sc and s.sc != f:
            f = '%s (inlined into %s)' % (s.sc, f)
        return '%s in %s' % (s.loc(), f)

    def __repr__(s):
        return '<%s %%%d %s %s>' % (s.op, s.id, s.callee or '', s.loc())


def _t(o):
    return [tuple(_t(x)) if isinstance(x, list) else x for x in o]


class Func:
    def __init__(s, d, prog):
        s.prog = prog
        s.name = d['name']; s.src = d['src']; s.file = d['file']; s.line = d['line']
        s.internal = d['internal']; s.vararg = d['vararg']; s.ret = d['ret']; s.dret = d['dret']
        s.args = d['args']
        s.blocks = []; s.succ = []
        s.inst = {}
        for bi, b in enumerate(d['blocks']):
            L = []
            for k, i in enumerate(b['i']):
                x = Inst(i, s, bi, k); L.append(x); s.inst[x.id] = x
            s.blocks.append(L); s.succ.append(list(dict.fromkeys(b['s'])))
        s.pred = [[] for _ in s.blocks]
        for b, ss in enumerate(s.succ):
            for t in ss:
                s.pred[t].append(b)
        s.nargs = len(s.args)
        s._live = None; s._dom = None; s._scc = None; s._users = None; s._label = {}

    def insts(s):
        for b in s.blocks:
            yield from b

    def calls(s, *names):
        for i in s.insts():
            if 'callee' in i.d and (not names or i.callee in names):
                yield i

    def users(s, vid):
        if s._users is None:
            u = defaultdict(list)
            for i in s.insts():
                for o in opvals(i):
                    if o[0] == 'v':
                        u[o[1]].append(i)
            s._users = u
        return s._users.get(vid, [])

    # --- liveness of SSA values at block entry (phi uses count at the edge)
    def livein(s):
        if s._live is not None:
            return s._live
        n = len(s.blocks)
        use = [set() for _ in range(n)]; dfn = [set() for _ in range(n)]; phiuse = [set() for _ in range(n)]
        for b in range(n):
            for i in s.blocks[b]:
                if i.op == 'phi':
                    for v, pb in i.ops:
                        if v[0] == 'v':
                            phiuse[pb].add(v[1])
                else:
                    for o in opvals(i):
                        if o[0] == 'v' and o[1] not in dfn[b]:
                            use[b].add(o[1])
                dfn[b].add(i.id)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                out = set(phiuse[b])
                for t in s.succ[b]:
                    out |= live[t]
                new = use[b] | (out - dfn[b])
                # phi results are defined at block entry
                new -= {i.id for i in s.blocks[b] if i.op == 'phi'}
                if new != live[b]:
                    live[b] = new; ch = True
        s._live = live
        return live

    def dom(s):
        if s._dom is not None:
            return s._dom
        n = len(s.blocks)
        full = set(range(n))
        D = [full.copy() for _ in range(n)]; D[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in range(1, n):
                ps = [D[p] for p in s.pred[b]]
                new = set.intersection(*ps) if ps else set()
                new = new | {b}
                if new != D[b]:
                    D[b] = new; ch = True
        s._dom = D
        return D

    def backedges(s):
        """set of (src, header) edges where header dominates src."""
        D = s.dom()
        return {(b, t) for b in range(len(s.blocks)) for t in s.succ[b] if t in D[b]}

    def loops(s):
        """header -> set of blocks in the natural loop."""
        L = {}
        for b, h in s.backedges():
            body = L.setdefault(h, {h})
            st = [b]
            while st:
                x = st.pop()
                if x in body:
                    continue
                body.add(x); st += s.pred[x]
        return L

    def in_loop(s):
        r = set()
        for h, b in s.loops().items():
            r |= b
        return r

    # --- static field label of a pointer operand
    def label(s, v, depth=0):
        """(struct, field) for a pointer expression, or None."""
        if v[0] == 'g':
            return ('@', v[1]) if v[2] == 0 else ('@', v[1])
        if v[0] != 'v' or depth > 12:
            return None
        if v[1] in s._label:
            return s._label[v[1]]
        s._label[v[1]] = None
        r = None
        i = s.inst.get(v[1])
        if i is not None and i.op == 'getelementptr':
            st, off = s.gep_root(i)
            if st:
                r = (st, s.prog.field_at(st, off))
            else:
                r = s.label(i.ops[0], depth + 1)
                if r and r[0] == '@':
                    pass
        elif i is not None and i.op in ('bitcast', 'addrspacecast'):
            r = s.label(i.ops[0], depth + 1)
        elif i is not None and i.op == 'phi':
            ls = {s.label(o, depth + 1) for o, _ in i.ops if o[0] in ('v', 'g')}
            ls.discard(None)
            if len(ls) == 1:
                r = ls.pop()
        elif i is not None and i.op == 'select':
            ls = {s.label(o, depth + 1) for o in i.ops[1:] if o[0] in ('v', 'g')}
            ls.discard(None)
            if len(ls) == 1:
                r = ls.pop()
        s._label[v[1]] = r
        return r

    def gep_root(s, i):
        """struct type and byte offset of a GEP chain measured from its outermost named struct."""
        off = 0; st = None
        while True:
            off_i = i.d.get('off')
            g = i.d.get('st')
            if off_i is None:
                return (None, 0)
            if g and g in s.prog.structs and 'fields' in s.prog.structs[g]:
                size = s.prog.structs[g].get('size') or 1
                st, so = g, off + (off_i % size if not i.d.get('fz') or off_i >= size or off_i < 0 else off_i)
                # keep going outwards: a nested member of another named struct
                nxt = s.inst.get(i.ops[0][1]) if i.ops[0][0] == 'v' else None
                if nxt is not None and nxt.op == 'getelementptr':
                    st2, so2 = s.gep_root(nxt)
                    if st2 and st2 != st and s.prog.contains(st2, so2, st):
                        return (st2, so2 + so)
                return (st, so)
            off += off_i
            if i.d.get('voff') and not g:
                # array indexing inside a struct member: label of the array itself
                off -= off_i
            b = i.ops[0]
            nxt = s.inst.get(b[1]) if b[0] == 'v' else None
            if nxt is None or nxt.op != 'getelementptr':
                return (None, 0)
            i = nxt

    def __repr__(s):
        return '<Func %s>' % s.name


def opvals(i):
    if i.op == 'phi':
        return [o for o, _ in i.ops]
    r = list(i.ops)
    if 'callee' in i.d and i.d['callee'][0] == 'v':
        r.append(tuple(i.d['callee']))
    return r


class Program:
    def __init__(s, js):
        s.js = js
        s.structs = js['structs']; s.globals = js['globals']; s.enums = js['enums']
        s.units = js['units']; s.inlined = js['inlined']
        s.funcs = {}
        s.decls = set(js['decls'])
        for f in js['funcs']:
            s.funcs[f['name']] = Func(f, s)
        s._fcache = {}
        s._addr = None; s._mods = None; s._cg = None

    def f(s, name):
        if name not in s.funcs:
            raise AnalysisBroken('anchor function %s is not in the program' % name)
        return s.funcs[name]

    def has(s, name):
        return name in s.funcs

    def enum(s, n):
        if n not in s.enums:
            raise AnalysisBroken('enumerator %s vanished' % n)
        return s.enums[n]

    def struct(s, n):
        if n not in s.structs:
            raise AnalysisBroken('struct %s vanished' % n)
        return s.structs[n]

    def field(s, st, name):
        for f in s.struct(st)['fields']:
            if f['n'] == name:
                return f
        raise AnalysisBroken('field %s.%s vanished' % (st, name))

    def field_at(s, st, off):
        k = (st, off)
        if k in s._fcache:
            return s._fcache[k]
        best = None
        for f in s.structs[st].get('fields', []):
            if f['o'] <= off < f['o'] + max(f['s'], 1):
                if best is None or f['s'] < best['s'] or (f['s'] == best['s'] and f['n'].count('.') > best['n'].count('.')):
                    best = f
        # members of unions of equal offset: keep the smallest enclosing; array members keep the array name
        r = best['n'] if best else '+%d' % off
        s._fcache[k] = r
        return r

    def contains(s, st, off, inner):
        for f in s.structs[st].get('fields', []):
            if f['o'] <= off < f['o'] + max(f['s'], 1) and f['t'] == inner:
                return True
        return True  # anonymous nesting

    def cstr(s, v):
        """string literal behind an operand, or None."""
        if v[0] == 'g' and v[1] in s.globals:
            g = s.globals[v[1]]
            init = g.get('init')
            if init and init[0] == 's' and g['const']:
                return init[1][v[2]:].split('\0')[0]
            if init and init[0] == 'z' and g['const']:
                return ''
        return None

    # functions whose address is taken somewhere (stored, passed, in an initialiser)
    def addr_taken(s):
        if s._addr is None:
            t = defaultdict(list)
            def scan(c, where):
                if isinstance(c, (list, tuple)):
                    if len(c) == 2 and c[0] == 'f' and isinstance(c[1], str):
                        t[c[1]].append(where)
                    else:
                        for x in c:
                            scan(x, where)
            for f in s.funcs.values():
                for i in f.insts():
                    for k, o in enumerate(i.ops):
                        if i.op == 'phi':
                            o = o[0]
                        if o[0] == 'f':
                            t[o[1]].append((i, k))
            for n, g in s.globals.items():
                scan(g.get('init'), ('global', n))
            s._addr = t
        return s._addr

    def callgraph(s):
        """caller -> set of direct callees (names, defined or not); '?' for indirect."""
        if s._cg is None:
            cg = {}
            for f in s.funcs.values():
                cs = set()
                for i in f.calls():
                    cs.add(i.callee if i.callee else '?')
                cg[f.name] = cs
            s._cg = cg
        return s._cg

    def reach(s, name, indirect=None):
        """all functions transitively called from name; indirect: call inst -> iterable of names."""
        seen = set(); w = [name]
        while w:
            x = w.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in s.funcs:
                w += [c for c in s.callgraph()[x] if c not in seen]
        seen.discard(name)
        return seen

    # --- fields written only while constructing a freshly allocated object
    def const_fields(s):
        if getattr(s, '_cf', None) is not None:
            return s._cf
        bad = set(); seen = set()
        def fresh(f, v, d=0):
            while v[0] == 'v' and d < 20:
                i = f.inst.get(v[1])
                if i is None:
                    return False
                if i.op in ('getelementptr', 'bitcast'):
                    v = i.ops[0]; d += 1; continue
                if i.op == 'phi':
                    return all(o[0] == 'v' and o[1] != i.id and fresh(f, o, d + 5) for o, _ in i.ops)
                return i.op == 'alloca' or 'callee' in i.d and i.callee is not None and (
                    i.callee in ('malloc', 'calloc') or 'malloc' in i.callee or 'calloc' in i.callee or i.callee.endswith('_new'))
            return False
        for f in s.funcs.values():
            for i in f.insts():
                if i.op == 'store':
                    l = f.label(i.ops[1])
                    if l:
                        seen.add(l)
                        if l[0] == '@' or not fresh(f, i.ops[1]):
                            bad.add(l)
                    else:
                        pass
        allf = set()
        for f in s.funcs.values():
            for i in f.insts():
                if i.op == 'getelementptr':
                    l = f.label(('v', i.id))
                    if l and l[0] != '@':
                        allf.add(l)
                        # address escapes (passed to a call): may be written through it
                        for u in f.users(i.id):
                            if 'callee' in u.d and not (u.callee or '').startswith('pthread_') or u.op == 'store' and u.ops[0] == ('v', i.id):
                                bad.add(l)
        s._cf = allf - bad
        return s._cf

    # --- targets of a call through a function pointer held in a known field or global
    def field_targets(s):
        """label -> set of function names stored there, or None when some stored value is not a known function."""
        if getattr(s, '_ft', None) is not None:
            return s._ft
        t = {}
        def consts(f, v, seen=()):
            if v[0] == 'f':
                return {v[1]}
            if v[0] in ('n', 'z') or v[0] == 'c' and v[1] == 0:
                return set()
            if v[0] == 'v' and v[1] not in seen:
                i = f.inst.get(v[1])
                if i is not None and i.op == 'phi':
                    r = set()
                    for o, _ in i.ops:
                        c = consts(f, o, seen + (v[1],))
                        if c is None:
                            return None
                        r |= c
                    return r
                if i is not None and i.op == 'select':
                    a, b = consts(f, i.ops[1], seen + (v[1],)), consts(f, i.ops[2], seen + (v[1],))
                    return None if a is None or b is None else a | b
                if i is not None and i.op == 'load' and f.label(i.ops[0]):
                    return {('copy', f.label(i.ops[0]))}
            return None
        for f in s.funcs.values():
            for i in f.insts():
                if i.op == 'store' and i.d.get('sz') == 8:
                    l = f.label(i.ops[1])
                    if l is None:
                        continue
                    c = consts(f, i.ops[0])
                    if c is None:
                        t[l] = None
                    elif t.get(l, 0) is not None:
                        t.setdefault(l, set()).update(c)
        for n, g in s.globals.items():
            init = g.get('init')
            if init and init[0] == 'f':
                l = ('@', n)
                if t.get(l, 0) is not None:
                    t.setdefault(l, set()).add(init[1])
        # a value copied from another place can be whatever is stored there
        ch = True
        while ch:
            ch = False
            for l, c in list(t.items()):
                for m in [x for x in c or () if isinstance(x, tuple)]:
                    if m[1] == l:
                        continue
                    d = t.get(m[1])
                    if d is None:
                        t[l] = None; ch = True; break
                    if not d <= c:
                        c |= d; ch = True
        for l, c in t.items():
            if c is not None:
                t[l] = {x for x in c if not isinstance(x, tuple)}
        s._ft = t
        return t

    def targets(s, f, i):
        """possible callees of an indirect call instruction, or None."""
        v = i.calleev
        if v[0] != 'v':
            return None
        j = f.inst.get(v[1])
        if j is None or j.op != 'load':
            return None
        l = f.label(j.ops[0])
        return s.field_targets().get(l) if l else None

    # --- mod sets: which (struct, field) labels a library function may write, transitively
    def mods(s):
        if s._mods is not None:
            return s._mods
        m = {}; indirect = {}; pc = {}
        for f in s.funcs.values():
            x = set()
            for i in f.insts():
                if i.op == 'store':
                    l = f.label(i.ops[1])
                    if l:
                        x.add(l)
                elif 'callee' in i.d:
                    if i.callee is None:
                        tg = s.targets(f, i)
                        if tg is None or not tg:
                            j = f.inst.get(i.calleev[1]) if i.calleev[0] == 'v' else None
                            if j is not None and j.op == 'load' and f.label(j.ops[0]) == ('@', 'onion_log'):
                                continue
                            if i.calleev[0] == 'v' and i.calleev[1] < f.nargs:
                                pc.setdefault(f.name, set()).add(i.calleev[1])
                            else:
                                x.add('?')
                        else:
                            indirect[f.name] = indirect.get(f.name, set()) | tg
                    elif i.callee.startswith(('llvm.memcpy', 'llvm.memset', 'llvm.memmove')) or i.callee in ('memcpy', 'memset', 'memmove'):
                        l = f.label(i.ops[0])
                        x.add(l if l else 'mem')
            m[f.name] = x if not f.name.startswith(LOWFN) else set()
        # function parameters that are called: resolved at each call site that passes a known function
        ch = True
        while ch:
            ch = False
            for f in s.funcs.values():
                for i in f.calls():
                    for k in pc.get(i.callee, ()):
                        o = i.ops[k] if k < len(i.ops) else ('u',)
                        if o[0] == 'f':
                            if o[1] not in indirect.setdefault(f.name, set()):
                                indirect[f.name].add(o[1]); ch = True
                        elif o[0] == 'v' and o[1] < f.nargs:
                            if o[1] not in pc.setdefault(f.name, set()):
                                pc[f.name].add(o[1]); ch = True
                        elif o[0] not in ('n', 'z') and '?' not in m[f.name]:
                            m[f.name].add('?'); ch = True
        s.called_params = pc; s.indirect = indirect
        cg = {k: set(v) | indirect.get(k, set()) for k, v in s.callgraph().items()}
        for k in cg:
            if k.startswith(LOWFN):
                cg[k] = set()
        ch = True
        while ch:
            ch = False
            for f in s.funcs:
                x = m[f]; n = len(x)
                for c in cg[f]:
                    if c in m:
                        x |= m[c]
                if len(x) != n:
                    ch = True
        s._mods = m
        return m

    # --- read sets: which labels a function may read, transitively
    def reads(s):
        if getattr(s, '_reads', None) is not None:
            return s._reads
        m = {}
        cg = {}
        for f in s.funcs.values():
            x = set(); cs = set()
            for i in f.insts():
                if i.op == 'load':
                    l = f.label(i.ops[0])
                    x.add(l if l else 'mem')
                elif 'callee' in i.d:
                    if i.callee is None:
                        cs |= s.targets(f, i) or set()
                    else:
                        cs.add(i.callee)
            m[f.name] = x; cg[f.name] = cs
        ch = True
        while ch:
            ch = False
            for f in s.funcs:
                x = m[f]; n = len(x)
                for c in cg[f]:
                    if c in m:
                        x |= m[c]
                if len(x) != n:
                    ch = True
        s._reads = m
        return m

    # --- which arguments a function writes through (directly or via callees)
    EXT_WRITES = {'snprintf': (0,), 'sprintf': (0,), 'vsnprintf': (0,), 'vsprintf': (0,), 'strncpy': (0,), 'strcpy': (0,), 'strcat': (0,), 'strncat': (0,), 'read': (1,), 'recv': (1,),
                  'realpath': (1,), 'stat': (1,), 'lstat': (1,), 'fstat': (1,), 'stat64': (1,), 'memcpy': (0,), 'memmove': (0,), 'memset': (0,), 'dirname': (0,), 'basename': (0,),
                  'strftime': (0,), 'gmtime_r': (1,), 'localtime_r': (1,), 'getpwuid_r': (1, 2, 4), 'fgets': (0,), 'readlink': (1,), 'mkstemp': (0,), 'mkostemp': (0,), 'strtok_r': (0, 2), 'strtol': (1,),
                  'strtoul': (1,), 'getnameinfo': (2, 4), 'poll': (0,), 'gnutls_record_recv': (1,), 'sscanf': None, 'fread': (0,), 'pthread_create': (0,), 'opendir': (), 'readdir': (0,),
                  'closedir': (0,), 'stat': (1,), 'chmod': (), 'remove': (), 'rename': (), 'mkdir': (), 'xmlParseMemory': (), 'xmlTextWriterWriteElement': (0,), 'gnutls_rnd': (1,)}

    def argwrites(s):
        if getattr(s, '_aw', None) is not None:
            return s._aw
        from psim import READONLY
        aw = {n: set() for n in s.funcs}
        def roots(f, v, seen):
            """argument indices a pointer value may be based on."""
            r = set()
            st = [v]
            while st:
                v = st.pop()
                if v[0] != 'v' or v[1] in seen:
                    continue
                seen.add(v[1])
                if v[1] < f.nargs:
                    r.add(v[1]); continue
                i = f.inst.get(v[1])
                if i is None:
                    continue
                if i.op in ('getelementptr', 'bitcast'):
                    st.append(i.ops[0])
                elif i.op == 'phi':
                    st += [o for o, _ in i.ops]
                elif i.op == 'select':
                    st += i.ops[1:]
            return r
        ch = True
        while ch:
            ch = False
            for f in s.funcs.values():
                n0 = len(aw[f.name])
                for i in f.insts():
                    if i.op == 'store':
                        aw[f.name] |= roots(f, i.ops[1], set())
                    elif 'callee' in i.d:
                        c = i.callee
                        if c is None:
                            continue
                        if c.startswith('llvm.mem'):
                            ks = (0,)
                        elif c in aw:
                            ks = aw[c]
                        elif c in s.EXT_WRITES:
                            ks = s.EXT_WRITES[c]
                            if ks is None:
                                ks = range(len(i.ops))
                        elif c in READONLY or c.startswith('llvm.'):
                            ks = ()
                        else:
                            ks = range(len(i.ops))
                        for k in ks:
                            if k < len(i.ops):
                                aw[f.name] |= roots(f, i.ops[k], set())
                if len(aw[f.name]) != n0:
                    ch = True
        s._aw = aw
        return aw

    def call_writes(s, i):
        """argument positions a call instruction may write through."""
        from psim import READONLY
        c = i.callee
        if c is None:
            return range(len(i.ops))
        if c.startswith('llvm.mem'):
            return (0,)
        if c in s.funcs:
            return s.argwrites()[c]
        if c in s.EXT_WRITES:
            k = s.EXT_WRITES[c]
            return range(len(i.ops)) if k is None else k
        if c in READONLY or c.startswith('llvm.'):
            return ()
        return range(len(i.ops))
