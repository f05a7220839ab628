"""R06: a replaced allocator or thread library is used for everything.

Value-flow analysis over the whole library: every pointer carries the allocator that made it (the replaceable
onion_low_* family, or the C library), through locals, parameters, results, struct fields, globals and function
pointers, and is followed to every place that releases it."""
from gates import *

LOW = {'onion_low_malloc': 0, 'onion_low_scalar_malloc': 0, 'onion_low_calloc': 0, 'onion_low_realloc': 0, 'onion_low_strdup': 0, 'onion_low_try_malloc': 0,
       'onion_low_try_scalar_malloc': 0, 'onion_low_try_calloc': 0, 'onion_low_try_realloc': 0, 'onion_low_try_strdup': 0}
SCALAR = {'onion_low_scalar_malloc', 'onion_low_try_scalar_malloc'}
# what the C library gives because its interface leaves no choice
FORCED = {'realpath', 'get_current_dir_name', 'backtrace_symbols', 'canonicalize_file_name', 'tempnam', 'open_memstream', 'scandir'}
FORCED_OUT = {'asprintf': 0, 'vasprintf': 0, 'getline': 0, 'getdelim': 0, 'open_memstream': 0, 'scandir': 1, 'scandir64': 1}
# what has a replaceable counterpart, so must not be used
DIRECT = {'malloc', 'calloc', 'realloc', 'strdup', 'strndup', 'reallocarray', 'aligned_alloc', 'posix_memalign', 'memalign', '__strdup'}
THREADS = {'pthread_create', 'pthread_join', 'pthread_cancel', 'pthread_detach', 'pthread_exit', 'pthread_sigmask'}
FREE_LOW = {'onion_low_free': 0, 'onion_low_realloc': 0, 'onion_low_try_realloc': 0}
FREE_LIBC = {'free': 0, 'realloc': 0, 'reallocarray': 0, 'cfree': 0}
SAME = {'strcpy', 'strcat', 'strncpy', 'strncat', 'memcpy', 'memmove', 'memset', 'fgets', 'getcwd', 'strtok', '__strcpy_chk', '__strcat_chk', '__memcpy_chk', 'mkdtemp'}
IMPL = 'low.c'
PREFIX = 'onion_low_'


def impl(f):
    return f.file.rsplit('/', 1)[-1] == IMPL


class Flow:
    def __init__(s, P):
        s.P = P
        s.tags = {}      # node -> set of tags
        s.succ = {}      # node -> set of nodes
        s.icalls = {}    # node of the called value -> [(f, call)]
        s.done = set()
        s.work = []
        s.sites = 0
        for f in P.funcs.values():
            s.build(f)
        s.solve()

    def edge(s, a, b):
        if a is None or b is None or a == b:
            return
        e = s.succ.setdefault(a, set())
        if b not in e:
            e.add(b)
            if s.tags.get(a):
                s.work.append(a)

    def tag(s, n, t):
        if n is None:
            return
        T = s.tags.setdefault(n, set())
        if t not in T:
            T.add(t); s.work.append(n)

    def node(s, f, o):
        """the node of an operand; function constants are tags of a fresh node"""
        if o[0] == 'v':
            i = f.inst.get(o[1])
            if i is None:
                return ('a', f.name, o[1])
            return ('v', f.name, o[1])
        if o[0] == 'f':
            n = ('fn', o[1]); s.tag(n, ('fn', o[1], '')); return n
        return None

    def cell(s, f, o, depth=0):
        """the node of what an address points to"""
        l = f.label(o)
        if l and l[0] == '@':
            return ('m',) + tuple(l)
        if l and l[1]:
            return ('m',) + tuple(l)
        if o[0] == 'v':
            i = f.inst.get(o[1])
            if i is None:
                return ('d', f.name, o[1])            # what a parameter points to
            if i.op == 'alloca':
                return ('l', f.name, i.id)
            if i.op in ('bitcast', 'getelementptr') and depth < 8:
                return s.cell(f, i.ops[0], depth + 1)
            if i.op == 'load':
                c = s.cell(f, i.ops[0], depth + 1) if depth < 4 else None
                return ('*', c) if c and c[0] != '*' else None
            if i.op == 'call':
                return ('c', f.name, i.id)
        return None

    def build(s, f):
        skip = impl(f)
        for i in f.insts():
            me = ('v', f.name, i.id)
            if i.op in ('phi',):
                for o, _ in i.ops:
                    s.edge(s.node(f, o), me)
            elif i.op == 'select':
                for o in i.ops[1:]:
                    s.edge(s.node(f, o), me)
            elif i.op in ('bitcast', 'freeze', 'inttoptr', 'ptrtoint'):
                s.edge(s.node(f, i.ops[0]), me)
            elif i.op == 'getelementptr':
                if i.d.get('off') == 0 and not i.d.get('voff'):
                    s.edge(s.node(f, i.ops[0]), me)
            elif i.op == 'load':
                s.edge(s.cell(f, i.ops[0]), me)
            elif i.op == 'store':
                s.edge(s.node(f, i.ops[0]), s.cell(f, i.ops[1]))
            elif i.op == 'ret':
                if i.ops:
                    s.edge(s.node(f, i.ops[0]), ('r', f.name))
            elif 'callee' in i.d:
                if i.callee is None:
                    n = s.node(f, i.calleev)
                    if n:
                        s.icalls.setdefault(n, []).append((f, i))
                        if s.tags.get(n):
                            s.work.append(n)
                else:
                    s.call(f, i, i.callee)

    def call(s, f, i, c):
        if (f.name, i.id, c) in s.done:
            return
        s.done.add((f.name, i.id, c))
        me = ('v', f.name, i.id)
        if c in LOW:
            s.tag(me, ('low', c, i.where())); s.sites += 1
            if c in SCALAR:
                s.tag(me, ('scalar', c, i.where()))
        elif c in FREE_LOW or c in FREE_LIBC and impl(f):
            pass
        elif c in DIRECT or c in FORCED:
            if c == 'realpath' and not (len(i.ops) > 1 and i.ops[1][0] == 'n'):
                s.edge(s.node(f, i.ops[1]) if len(i.ops) > 1 else None, me)
            elif not impl(f):
                s.tag(me, ('libc', c, i.where())); s.sites += 1
        elif c == 'onion_dict_add':
            fl = i.ops[3] if len(i.ops) > 3 else None
            for k, free, dup in ((1, 2, 0x10), (2, 4, 0x20)):
                if fl and fl[0] == 'c' and fl[1] & free and not fl[1] & dup:
                    s.edge(s.node(f, i.ops[k]), ('dict', 'onion_dict_add', k))
        elif c in s.P.funcs:
            g = s.P.funcs[c]
            for k, a in enumerate(g.args):
                if k < len(i.ops):
                    s.edge(s.node(f, i.ops[k]), ('a', c, a['id']))
                    # what the arguments point to is shared both ways, when it is a local of the caller
                    if i.ops[k][0] == 'v':
                        d = s.cell(f, i.ops[k])
                        if d and d[0] in ('l', 'd'):
                            s.edge(('d', c, a['id']), d); s.edge(d, ('d', c, a['id']))
                        elif d and d[0] == 'm' and (f.inst.get(i.ops[k][1]) is not None and f.inst[i.ops[k][1]].op == 'getelementptr'):
                            s.edge(('d', c, a['id']), d); s.edge(d, ('d', c, a['id']))
            s.edge(('r', c), me)
        elif c in SAME and i.ops:
            s.edge(s.node(f, i.ops[0]), me)
        if c in FORCED_OUT and not impl(f) and len(i.ops) > FORCED_OUT[c]:
            s.tag(s.cell(f, i.ops[FORCED_OUT[c]]), ('libc', c, i.where())); s.sites += 1
        if c in ('getcwd',) and i.ops and i.ops[0][0] == 'n':
            s.tag(me, ('libc', c, i.where())); s.sites += 1

    def solve(s):
        while s.work:
            n = s.work.pop()
            T = s.tags.get(n, set())
            for t in list(T):
                if t[0] == 'fn':
                    for f, i in s.icalls.get(n, ()):
                        s.call(f, i, t[1])
            for m in list(s.succ.get(n, ())):
                M = s.tags.setdefault(m, set())
                if not T <= M:
                    M |= T; s.work.append(m)

    def of(s, f, o):
        n = s.node(f, o)
        return s.tags.get(n, set()) if n else set()

    def callees(s, f, i):
        if i.callee is not None:
            return {i.callee}
        return {t[1] for t in s.of(f, i.calleev) if t[0] == 'fn'}


def kinds(T, k):
    return sorted(t for t in T if t[0] == k)


def run_flow(ctx):
    P = ctx.prog
    F = Flow(P)
    rel = 0; direct = 0; scal = 0; conv = 0
    # conversation functions whose answers somebody else releases
    resp = {('m', 'pam_response', 'resp')}
    answers = set()
    for f in P.funcs.values():
        for i in f.insts():
            if i.op == 'store':
                l = f.label(i.ops[1])
                if l == ('pam_response', 'resp'):
                    conv += 1
                    T = F.of(f, i.ops[0])
                    for t in kinds(T, 'low'):
                        ctx.flag(f, i, 'the answer made by %s at %s is released by PAM with free()' % (t[1], t[2]))
                    answers |= set(kinds(T, 'libc'))
    pamfns = {f.name for f in P.funcs.values() for i in f.insts() if i.op == 'store' and f.label(i.ops[1]) == ('pam_response', 'resp')}
    for f in P.funcs.values():
        if f.name in pamfns:
            for i in f.insts():
                # the array is handed out through a parameter
                if i.op == 'store':
                    c = F.cell(f, i.ops[1])
                    if c and c[0] == 'd':
                        T = F.of(f, i.ops[0])
                        for t in kinds(T, 'low'):
                            ctx.flag(f, i, 'the answers made by %s at %s are released by PAM with free()' % (t[1], t[2]))
                        answers |= set(kinds(T, 'libc'))
    for f in P.funcs.values():
        if impl(f):
            continue
        for i in f.insts():
            if i.op == 'store':
                v = i.ops[0]
                j = f.inst.get(v[1]) if v[0] == 'v' else None
                isptr = v[0] in ('g', 'f') or v[0] == 'v' and (j.ty == 'ptr' if j is not None else any(a['id'] == v[1] and a['ty'] == 'ptr' for a in f.args))
                if isptr:
                    b = i.ops[1]; d = 0; T = set()
                    while b[0] == 'v' and d < 16:
                        d += 1
                        T |= F.of(f, b)
                        k = f.inst.get(b[1])
                        if k is None or k.op not in ('getelementptr', 'bitcast'):
                            break
                        b = k.ops[0]
                    # a member that holds several kinds of block in turn is judged by its users: only when no other block can be here
                    sc = {t[2] for t in kinds(T, 'scalar')}
                    for t in kinds(T, 'scalar') if all(t[2] in sc for t in kinds(T, 'low') + kinds(T, 'libc')) else ():
                        ctx.flag(f, i, 'a pointer is stored in the block made by %s at %s, where a replaced allocator does not look for pointers' % (t[1], t[2]))
                continue
            if 'callee' not in i.d:
                continue
            for c in sorted(F.callees(f, i)):
                if c in FREE_LOW or c in FREE_LIBC:
                    rel += 1
                    T = F.of(f, i.ops[0]) if i.ops else set()
                    bad, who = ('libc', 'the C library') if c in FREE_LOW else ('low', 'the replaceable allocator')
                    for t in kinds(T, bad)[:3]:
                        ctx.flag(f, i, '%s releases what was made by %s (%s) at %s' % (c, who, t[1], t[2]))
                if c in DIRECT:
                    direct += 1
                    if ('libc', c, i.where()) not in answers:
                        ctx.flag(f, i, '%s is called directly, so a replaced allocator does not make this memory' % c)
                if c in THREADS:
                    direct += 1
                    ctx.flag(f, i, '%s is called directly, so a replaced thread library is not used' % c)
                if c == 'onion_dict_add':
                    for t in kinds(F.tags.get(('dict', c, 1), set()) | F.tags.get(('dict', c, 2), set()), 'libc'):
                        pass
    for k in (1, 2):
        for t in kinds(F.tags.get(('dict', 'onion_dict_add', k), set()), 'libc'):
            ctx.violation('memory made by the C library (%s) at %s is released by the dictionary with onion_low_free' % (t[1], t[2]), where=t[2])
    scal = len({t for T in F.tags.values() for t in T if t[0] == 'scalar'})
    ctx.cover(allocations=F.sites, releases_followed=rel, direct_uses=direct, scalar_blocks=scal, pam_answers=conv, values=len(F.tags))
    ctx.need(F.sites >= 60 and rel >= 60, 'only %d allocations and %d releases were found' % (F.sites, rel))


# ---- the replaceable functions themselves
MEM = 'onion_low_initialize_memory_allocation'
THR = 'onion_low_initialize_threads'
# function -> (initializer, parameter that replaces it, what the C library calls it, never fails)
REPL = {
    'onion_low_malloc': (MEM, 0, 'malloc', True), 'onion_low_try_malloc': (MEM, 0, 'malloc', False),
    'onion_low_scalar_malloc': (MEM, 1, 'malloc', True), 'onion_low_try_scalar_malloc': (MEM, 1, 'malloc', False),
    'onion_low_calloc': (MEM, 2, 'calloc', True), 'onion_low_try_calloc': (MEM, 2, 'calloc', False),
    'onion_low_realloc': (MEM, 3, 'realloc', True), 'onion_low_try_realloc': (MEM, 3, 'realloc', False),
    'onion_low_strdup': (MEM, 4, 'strdup', True), 'onion_low_try_strdup': (MEM, 4, 'strdup', False),
    'onion_low_free': (MEM, 5, 'free', False),
    'onion_low_pthread_create': (THR, 0, 'pthread_create', False), 'onion_low_pthread_join': (THR, 1, 'pthread_join', False),
    'onion_low_pthread_cancel': (THR, 2, 'pthread_cancel', False), 'onion_low_pthread_detach': (THR, 3, 'pthread_detach', False),
    'onion_low_pthread_exit': (THR, 4, 'pthread_exit', False), 'onion_low_pthread_sigmask': (THR, 5, 'pthread_sigmask', False)}
FAIL = 6
NULLS = {'onion_low_calloc', 'onion_low_try_calloc', 'onion_low_strdup', 'onion_low_try_strdup', 'onion_low_free'}
ENDS = {'abort', 'exit', '_exit', 'quick_exit', '__assert_fail'}


class LowSim(RecSim):
    limit = 64

    def on_start(s, st):
        s.calls = 0

    def loaded(s, v):
        j = s.fn.inst.get(v[1]) if v[0] == 'v' else None
        seen = set()
        r = set(); todo = [v]
        while todo:
            v = todo.pop()
            if v in seen:
                continue
            seen.add(v)
            j = s.fn.inst.get(v[1]) if v[0] == 'v' else None
            if j is None:
                r.add(('f', v[1]) if v[0] == 'f' else None)
            elif j.op == 'load':
                l = s.fn.label(j.ops[0])
                r.add(('g', l[1]) if l and l[0] == '@' else None)
            elif j.op == 'phi':
                todo += [x for x, _ in j.ops]
            elif j.op == 'select':
                todo += list(j.ops[1:])
            elif j.op in ('bitcast', 'freeze'):
                todo.append(j.ops[0])
            else:
                r.add(None)
        return r

    def on_load(s, st, i, addr, val):
        l = s.fn.label(i.ops[0])
        if l and l == ('@', s.slotg):
            s.rec(st, ('slot', i.id), (), (val,))

    def noslot(s, st):
        return any(s.is_zero(st, t[0]) for k, p, t in s.recs(st, 'slot'))

    def made(s, st, i, args, how, ret):
        s.calls += 1
        if s.recs(st, 'made'):
            s.report(('twice', i.id), '%s: the work is done twice' % s.fn.name, st, i)
        n = s.fn.nargs
        for k in range(n):
            if k >= len(args) or args[k] != ('arg', k) and not (is_c(args[k]) and s.is_eq(st, k, args[k][1])):
                s.report(('args', i.id), '%s: argument %d is not passed on as it was given' % (s.fn.name, k), st, i)
        s.rec(st, ('made',), (how, i.id), (ret if ret is not None else ('top',),))

    def is_eq(s, st, k, c):
        lo, hi = s.interval(st, ('arg', k))
        return lo == hi == c

    def after_call(s, st, i, args, ret):
        c = i.callee
        if c is None:
            L = s.loaded(i.calleev)
            v = s.val(st, i.calleev)
            if v[0] == 'fn':
                L = {('f', v[1])}
            if L == {('g', s.failg)}:
                s.rec(st, ('failed',)); return
            if ('g', s.slotg) in L and L <= {('g', s.slotg), ('f', s.plain)}:
                if not (L == {('g', s.slotg)} or s.isload(st, v)) :
                    s.plainly(st, i, args, ret)
                else:
                    s.made(st, i, args, 'slot', ret)
                return
            if L == {('f', s.plain)}:
                s.plainly(st, i, args, ret); return
            if s.fn.label and L & {('g', x) for x in s.others}:
                s.report(('other', i.id), '%s: calls what replaces another function (%s)' % (s.fn.name, ', '.join(sorted(str(x[1]) for x in L if x))), st, i)
            return
        if c == s.plain:
            s.plainly(st, i, args, ret)
        elif c in DIRECT | THREADS | {'free'}:
            s.report(('direct', i.id), '%s: %s of the C library is called here' % (s.fn.name, c), st, i)
        elif c in ENDS and s.never and not s.recs(st, 'failed'):
            s.report(('silent', i.id), '%s: ends the program without telling the replaced failure function' % s.fn.name, st, i)

    def isload(s, st, v):
        return any(t[0] == v for k, p, t in s.recs(st, 'slot'))

    def plainly(s, st, i, args, ret):
        if not s.noslot(st):
            s.report(('plain', i.id), '%s: %s of the C library is called even if it was replaced' % (s.fn.name, s.plain), st, i)
        s.made(st, i, args, 'libc', ret)

    def on_ret(s, st, i, val):
        m = s.recs(st, 'made')
        name = s.fn.name
        none = name in NULLS and any(not s.assume_cmp(st.copy(), 'ne', ('arg', k), 0) for k in range(s.fn.nargs))
        if not m:
            if not none:
                s.report(('none', i.id), '%s: returns without doing it' % name, st, i)
            elif val is not None and i.ops and not s.is_zero(st, val):
                s.report(('ret', i.id), '%s: returns something when there is nothing to do' % name, st, i)
            return
        if s.fn.ret != 'void' and i.ops:
            r = m[0][2][0]
            if val != r and not (is_c(val) and s.interval(st, r) == (val[1], val[1])):
                s.report(('ret', i.id), '%s: the result is not what was made' % name, st, i)
            elif s.never and s.assume_cmp(st.copy(), 'eq', val, 0):
                s.report(('null', i.id), '%s: may return NULL, and its callers do not expect it' % name, st, i)


def slots(ctx, init):
    """parameter -> global set by the initializer"""
    P = ctx.prog; f = P.f(init); r = {}
    for i in f.insts():
        if i.op == 'store' and i.ops[1][0] == 'g' and i.ops[0][0] == 'v' and i.ops[0][1] < f.nargs:
            r.setdefault(i.ops[0][1], set()).add(i.ops[1][1])
    for k in range(f.nargs):
        if k not in r:
            ctx.flag(f, None, 'parameter %d is not kept' % k)
    # the last store wins: a function kept over another one is lost
    last = {}
    for i in f.insts():
        if i.op == 'store' and i.ops[1][0] == 'g':
            last[i.ops[1][1]] = i.ops[0]
    return {k: {g for g in gs if last[g] == ('v', k)} for k, gs in r.items()}


def run_low(ctx):
    P = ctx.prog
    S = {x: slots(ctx, x) for x in (MEM, THR)}
    n = 0
    for name, (init, k, plain, never) in REPL.items():
        f = P.f(name)
        sl = S[init].get(k, set())
        g = [x for x in sl if any(i.op == 'load' and f.label(i.ops[0]) == ('@', x) for i in f.insts())]
        if not g:
            ctx.flag(f, None, 'never uses what %s was given to replace it' % init); continue
        s = LowSim(P, f)
        s.slotg = g[0]; s.failg = next(iter(S[MEM].get(FAIL, {None})), None); s.plain = plain; s.never = never
        s.others = {x for d in S.values() for q in d.values() for x in q} - {g[0], s.failg}
        s.run(); n += 1
        for v in s.viol.values():
            ctx.violation(v)
        if init == THR:
            gi = P.globals.get(g[0], {}).get('init')
            if not gi or gi[0] != 'f' or gi[1] != plain:
                ctx.flag(f, None, 'does nothing, or something else, when it was not replaced (%s)' % (gi,))
    ctx.cover(replaceable=n)


def run(ctx):
    run_flow(ctx)
    run_low(ctx)
