"""R05: descriptors are not inherited by the programs the application starts."""
from gates import *

# creator -> index of the argument with the flags, and the flag
FLAGGED = {'open': (1, 0o2000000), 'open64': (1, 0o2000000), 'openat': (2, 0o2000000), 'socket': (1, 0o2000000), 'accept4': (3, 0o2000000), 'epoll_create1': (0, 0o2000000),
           'eventfd': (1, 0o2000000), 'timerfd_create': (1, 0o2000000), 'mkostemp': (1, 0o2000000), 'mkostemp64': (1, 0o2000000), 'pipe2': (1, 0o2000000), 'dup3': (2, 0o2000000),
           'inotify_init1': (0, 0o2000000), 'signalfd': (2, 0o2000000)}
NAKED = {'accept', 'epoll_create', 'mkstemp', 'mkstemp64', 'dup', 'dup2', 'creat', 'inotify_init', 'creat64'}
LIVE = {'pipe', 'socketpair'}


def has(v, bit):
    if is_c(v):
        return bool(v[1] & bit)
    if v[0] == 'bo' and len(v) >= 4:
        a, b = v[2:4]
        if v[1] == 'or':
            return has(a, bit) or has(b, bit)
        if v[1] == 'and':
            return has(a, bit) and has(b, bit)
    return None


class ExecSim(RecSim):
    limit = 24
    def flag(s, st, o, bit, depth=0):
        """does the operand surely have this bit?"""
        if o[0] == 'c':
            return bool(o[1] & bit)
        i = s.fn.inst.get(o[1]) if o[0] == 'v' else None
        if i is None or depth > 8:
            return False
        if i.op == 'or':
            return any(s.flag(st, tuple(x), bit, depth + 1) for x in i.ops)
        if i.op == 'phi':
            v = s.val(st, o)
            return is_c(v) and bool(v[1] & bit) or all(s.flag(st, tuple(x), bit, depth + 1) for x, q in i.ops)
        if i.op == 'select':
            v = s.val(st, o)
            return is_c(v) and bool(v[1] & bit) or all(s.flag(st, tuple(x), bit, depth + 1) for x in i.ops[1:])
        if i.op in ('zext', 'sext', 'trunc', 'freeze'):
            return s.flag(st, tuple(i.ops[0]), bit, depth + 1)
        v = s.val(st, o)
        return is_c(v) and bool(v[1] & bit)

    def on_call(s, st, i, args):
        c = i.callee
        if c in ('fcntl', 'fcntl64') and is_c(args[1]) and args[1][1] in (1, 2):
            if args[1][1] == 2 and s.flag(st, tuple(i.ops[2]), 1):
                s.drop(st, lambda k, p, t: k[0] == 'naked' and t[0] == args[0])
        elif c == 'close':
            for k, p, t in s.recs(st, 'naked'):
                if t[0] == args[0]:
                    s.naked(st, i, k, t[0])
        return None

    def after_call(s, st, i, args, ret):
        c = i.callee
        if c in FLAGGED and len(i.ops) > FLAGGED[c][0]:
            s.sites.add(i.id)
            k, b = FLAGGED[c]
            if not s.flag(st, tuple(i.ops[k]), b):
                s.rec(st, ('naked', i.id), (), (ret,))
        elif c in NAKED or c in ('fopen', 'fopen64') and not s.emode(i):
            s.sites.add(i.id)
            if c not in ('fopen', 'fopen64'):
                s.rec(st, ('naked', i.id), (), (ret,))
        elif c in LIVE:
            s.sites.add(i.id)
            s.report(('pair', i.id), 'descriptors made at %s are inherited by programs the application starts' % i.where(), st, i)

    def emode(s, i):
        return True

    def on_ret(s, st, i, val):
        for k, p, t in s.recs(st, 'naked'):
            s.naked(st, i, k, t[0])

    def naked(s, st, i, k, v):
        b = st.copy()
        if is_c(v):
            if v[1] < 0:
                return
        elif v != ('top',) and not s.assume_cmp(b, 'sge', v, 0):
            return
        j = s.fn.inst[k[1]]
        s.report(k, 'the descriptor made at %s is inherited by programs the application starts' % j.where(), st, i)

    def on_subst(s, st, a, b):
        st.ts = {k: (p, tuple(subst(x, a, b) for x in t)) for k, (p, t) in st.ts.items()}


def run(ctx):
    P = ctx.prog; n = 0; fs = []
    for f in P.funcs.values():
        if not any('callee' in i.d and i.callee in set(FLAGGED) | NAKED | LIVE for i in f.insts()):
            continue
        s = ExecSim(P, f); s.sites = set()
        s.run()
        fs.append(f.name); n += len(s.sites)
        for v in s.viol.values():
            ctx.violation(v)
    ctx.cover(functions=sorted(fs), descriptors_made=n)
    ctx.need(n >= 8, 'only %d sites that make descriptors were found' % n)
    ctx.assume.append('streams (fopen, opendir) are not covered: directory streams are closed on exec by the C library, the table of mime types is read at once')
