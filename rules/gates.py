"""Gate rules: a sensitive operation is reached only on paths where its guard has succeeded.

The path-sensitive engine carries the guard results as symbolic facts; at every sink the rule asks whether the facts of
*this* path establish the guard for the very value the sink is given.
"""
from common import *


class RecSim(Sim):
    """typestate entries are key -> (plain tuple, tuple of terms)."""
    record = set()
    limit = 96

    def ts_atoms(s, st):
        r = []
        for p, t in st.ts.values():
            r += t
        return r

    def on_subst(s, st, a, b):
        n = {}
        for k, (p, t) in st.ts.items():
            t2 = tuple(subst(x, a, b) for x in t)
            if b == ('top',) and t2 != t and ('top',) in t2:
                continue
            n[k] = (p, t2)
        st.ts = n

    def rec(s, st, key, plain=(), terms=()):
        st.ts[key] = (tuple(plain), tuple(terms))

    def recs(s, st, name):
        return [(k, p, t) for k, (p, t) in st.ts.items() if k[0] == name]

    def drop(s, st, pred):
        for k in [k for k, (p, t) in st.ts.items() if pred(k, p, t)]:
            del st.ts[k]


def handler_of(P, ctor, exclude=()):
    """the handler function a public constructor registers (found by data flow, not by name)."""
    f = P.f(ctor)
    fs = [i.ops[0][1] for i in f.calls('onion_handler_new') if i.ops[0][0] == 'f']
    if not fs:
        raise AnalysisBroken('%s registers no handler' % ctor)
    return [P.f(x) for x in fs]


# ------------------------------------------------------------------ path containment
CMP = {'strncmp': 2, 'memcmp': 2, 'strcmp': None}


class PathSim(RecSim):
    """records realpath/strlen/strncmp results and the bytes inspected of the compared paths."""

    def after_call(s, st, i, args, ret):
        c = i.callee
        if c == 'realpath':
            if args[1] != NULL:
                s.drop(st, lambda k, p, t: k[0] in ('cmp', 'len') and args[1] in t or k[0] == 'byte' and root(t[0]) == root(args[1]))
            s.rec(st, ('rp', i.id), (), (ret, args[1], args[0]))
        elif c == 'strlen':
            s.rec(st, ('len', i.id), (), (ret, args[0]))
        elif c in CMP and not (s.prog.cstr(i.ops[0]) or s.prog.cstr(i.ops[1])):
            s.rec(st, ('cmp', i.id), (c,), (ret, args[0], args[1], args[2] if len(args) > 2 else NULL))
        elif c == 'dirname':
            s.rec(st, ('dirname', i.id), (), (ret, args[0]))
        elif c in ('strcpy',):
            s.rec(st, ('copy', i.id), (), (args[0], args[1]))
        elif c in ('strdup', 'onion_low_strdup'):
            s.rec(st, ('copy', i.id), (), (ret, args[0]))
        else:
            for k in s.prog.call_writes(i):
                if k < len(args):
                    r = root(args[k])
                    if r[0] in ('al',):
                        s.drop(st, lambda kk, p, t: kk[0] in ('cmp', 'len', 'rp') and any(root(x) == r for x in t[1:3]) or kk[0] == 'byte' and root(t[0]) == r)
        s.after2(st, i, args, ret)

    def after2(s, st, i, args, ret): pass

    def on_load(s, st, i, addr, val):
        if i.d.get('sz') == 1 and addr[0] == 'p' and addr[3]:
            s.rec(st, ('byte', i.id), (), (addr, val))

    def resolved(s, st):
        """terms known to be the output of a successful realpath: {term: (source term, realpath inst)}"""
        r = {}
        for k, p, (ret, buf, src) in s.recs(st, 'rp'):
            if s.nonzero(st, ret):
                r[ret] = src
                if buf != NULL:
                    r[buf] = src
        return r

    def aliases(s, st, P):
        al = {P}
        for k, p, (ret, buf, src) in s.recs(st, 'rp'):
            if buf != NULL and (ret == P or buf == P):
                al |= {ret, buf}
        return al

    def contained(s, st, P):
        """base term B such that P is known to be B or something below B, or None with a reason."""
        why = 'it is never compared with the exported directory'
        Pa = s.aliases(st, P)
        lens = [t for k, p, t in s.recs(st, 'len')]
        for k, p, (ret, a, b, n) in s.recs(st, 'cmp'):
            for x, y in ((a, b), (b, a)):
                if x not in Pa or y in Pa:
                    continue
                if not s.is_zero(st, ret):
                    why = 'the comparison with the exported directory has not succeeded on this path'; continue
                if p[0] == 'strcmp':
                    return y, None
                L = [l for l, of in lens if of == y]
                if n not in L:
                    why = 'the comparison does not cover the whole exported directory name'; continue
                why = 'nothing ensures that the match ends at a path component boundary'
                for kk, pp_, (addr, val) in s.recs(st, 'byte'):
                    for l in L:
                        if addr[1] in Pa and addr[2] == 0 and addr[3] == ((l, 1),):
                            if s.is_zero(st, val) or s.interval(st, val) == (47, 47):
                                return y, None
                        if addr[1] == y and addr[2] == -1 and addr[3] == ((l, 1),):
                            if s.interval(st, val) == (47, 47):
                                return y, None
        return None, why


FS_SINKS = {'open': (0,), 'open64': (0,), 'openat': (1,), 'fopen': (0,), 'opendir': (0,), 'onion_shortcut_response_file': (0,), 'unlink': (0,), 'remove': (0,), 'rmdir': (0,), 'mkdir': (0,),
            'rename': (0, 1), 'chmod': (0,), 'onion_shortcut_rename': (0, 1), 'symlink': (0, 1), 'link': (0, 1), 'truncate': (0,), 'creat': (0,), 'chown': (0,), 'scandir': (0,), 'execv': (0,), 'fopen64': (0,)}


class ExportSim(PathSim):
    max_states = 80000

    def on_call(s, st, i, args):
        for k in FS_SINKS.get(i.callee, ()):
            s.sinks.add((s.fn.name, i.id))
            P = args[k]
            R = s.resolved(st)
            if P not in R:
                s.report(('raw', i.loc()), '%s is given a path that is not the resolved (realpath) name of the request at %s' % (i.callee, i.where()), st, i)
                continue
            B, why = s.contained(st, P)
            if B is None:
                s.report(('cont', i.loc()), '%s is reached at %s but %s' % (i.callee, i.where(), why), st, i)
            elif not (B[0] == 'ld' and s.fn.label(s.fn.inst[B[1]].ops[0]) == ('onion_handler_export_local_data_t', 'localpath')):
                s.report(('base', i.loc()), '%s is reached at %s for a path compared with something that is not the exported directory' % (i.callee, i.where()), st, i)
        return None


def run_export(ctx):
    P = ctx.prog
    P.field('onion_handler_export_local_data_t', 'localpath')
    sinks = set(); states = 0; hs = handler_of(P, 'onion_handler_export_local_new')
    nn = infer_nonnull(P)
    for f in hs:
        s = ExportSim(P, f); s.nonnull = nn; s.sinks = sinks
        s.run(); states += s.nstates
        for v in s.viol.values():
            ctx.violation(v)
    ctx.need(len(sinks) >= 2, 'the export handler opens nothing')
    # the exported directory itself is a resolved name, fixed at construction
    base = ('onion_handler_export_local_data_t', 'localpath')
    ns = 0
    for f in P.funcs.values():
        if any(i.op == 'store' and f.label(i.ops[1]) == base for i in f.insts()):
            s = BaseSim(P, f); s.nonnull = nn; s.base = base; s.n = 0
            s.run(); ns += s.n; states += s.nstates
            for v in s.viol.values():
                ctx.violation(v)
    ctx.need(ns >= 1, 'the exported directory is never set')
    ctx.cover(handlers=[f.src for f in hs], file_system_sinks=len(sinks), base_stores=ns, states=states,
              rule='every path-taking call is reached only with realpath output, strncmp(base,len(base))==0 and a component boundary')


class BaseSim(PathSim):
    def on_store(s, st, i, addr, val):
        if s.fn.label(i.ops[1]) == s.base:
            s.n += 1
            if val not in s.resolved(st):
                s.report(('bs', i.loc()), 'the exported directory is set at %s to a name that is not a successfully resolved (realpath) one' % i.where(), st, i)


# ------------------------------------------------------------------ webdav
class DavSim(RecSim):
    max_states = 120000
    limit = 10

    def on_call(s, st, i, args):
        c = i.callee
        if c is None:
            j = s.fn.inst.get(i.calleev[1])
            if j is not None and j.op == 'load' and s.fn.label(j.ops[0]) == ('onion_webdav_t', 'check_permissions'):
                s.default_call(st, i, args)
                s.checks.add(i.id)
                base_ok = args[0][0] == 'ld' and s.fn.label(s.fn.inst[args[0][1]].ops[0]) == ('onion_webdav_t', 'path')
                s.rec(st, ('perm', i.id), (base_ok,), (st.env[i.id], args[1]))
                return [st]
            return None
        sinks = dict(FS_SINKS); sinks['stat'] = (0,); sinks['lstat'] = (0,)
        for k in sinks.get(c, ()):
            s.sinks.add(i.id)
            p = args[k]
            if c == 'onion_shortcut_rename' and k == 0 and s.uploaded(p):
                continue
            ok = s.approved(st, p)
            if not ok and c in ('stat', 'lstat'):
                ok = any(t[0] == p for kk, pl, t in s.recs(st, 'derived'))
            if not ok:
                s.report(('perm', i.loc(), k), '%s acts at %s on a path for which the permission check has not succeeded on this path' % (c, i.where()), st, i)
        # buffers rewritten: approvals end
        der = None
        if c in ('snprintf', 'strncpy', 'strcpy') and args:
            srcs = args[3:] if c == 'snprintf' else [args[1]]
            fmt_ok = c != 'snprintf' or (s.prog.cstr(i.ops[2]) or '').startswith('%s')
            if fmt_ok and srcs and (s.approved(st, srcs[0])) and all(s.dname(x) for x in srcs[1:]):
                der = args[0]
        for k in s.prog.call_writes(i):
            if k < len(args):
                r = root(args[k])
                s.drop(st, lambda kk, p, t: kk[0] == 'perm' and root(t[1]) == r or kk[0] == 'derived' and root(t[0]) == r)
        if der is not None:
            s.rec(st, ('derived', i.id), (), (der,))
        return None

    def on_store(s, st, i, addr, val):
        r = root(addr)
        if r[0] == 'al':
            s.drop(st, lambda kk, p, t: kk[0] == 'perm' and root(t[1]) == r or kk[0] == 'derived' and root(t[0]) == r)

    def dname(s, v):
        r = root(v)
        while r[0] == 'old':
            r = r[1]
        return r[0] == 'call' and s.fn.inst[r[1]].callee in ('readdir', 'readdir64')

    def uploaded(s, v):
        r = root(v)
        if r[0] == 'call' and s.fn.inst[r[1]].callee == 'onion_block_data':
            return True
        return False

    def approved(s, st, p):
        return any(t[1] == p and pl[0] and s.is_zero(st, t[0]) for k, pl, t in s.recs(st, 'perm'))


class DavDefaultSim(PathSim):
    def on_ret(s, st, i, val):
        if val is None or not (s.is_zero(st, val) or not s.nonzero(st, val)):
            return
        s.grants += 1
        R = s.resolved(st)
        best = 'no resolved name of the file is compared'
        for P, src in R.items():
            if not s.fileof(st, src):
                continue
            B, why = s.contained(st, P)
            if B is None:
                best = why; continue
            if B in R and R[B] == ('arg', 0):
                return
            best = 'the comparison is not with the resolved exported directory'
        s.report(('grant', s.fn.name), 'permission is granted (0 returned at %s) although %s' % (i.where(), best), st, i)

    def fileof(s, st, src):
        """src names the requested file, or the directory that would contain it."""
        if src == ('arg', 1):
            return True
        for k, p, (ret, a) in s.recs(st, 'dirname'):
            if ret == src:
                for k2, p2, (dst, of) in s.recs(st, 'copy'):
                    if dst == a and of == ('arg', 1):
                        return True
        return False


def run_webdav(ctx):
    P = ctx.prog
    nn = infer_nonnull(P)
    sinks = set(); checks = set(); states = 0
    hs = handler_of(P, 'onion_handler_webdav')
    for f in hs:
        s = DavSim(P, f); s.nonnull = nn; s.sinks = sinks; s.checks = checks
        s.run(); states += s.nstates
        for v in s.viol.values():
            ctx.violation(v)
    ctx.need(len(checks) >= 1 and len(sinks) >= 4, 'webdav: %d checks, %d sinks' % (len(checks), len(sinks)))
    d = P.f('onion_webdav_default_check_permissions')
    s = DavDefaultSim(P, d); s.nonnull = nn; s.grants = 0
    s.run(); states += s.nstates
    for v in s.viol.values():
        ctx.violation(v)
    ctx.need(s.grants >= 1, 'the default permission check never grants')
    # a handler always has a checker, and it is the default one unless the application gave one
    lab = ('onion_webdav_t', 'check_permissions'); n = 0
    for f in P.funcs.values():
        if any(i.op == 'store' and f.label(i.ops[1]) == lab for i in f.insts()):
            q = DavCtor(P, f); q.nonnull = nn; q.lab = lab; q.n = 0; q.run(); n += q.n
            for v in q.viol.values():
                ctx.violation(v)
    ctx.need(n >= 1, 'no permission checker is ever installed')
    ctx.cover(handlers=[f.src for f in hs], permission_checks=len(checks), file_system_sinks=len(sinks), grant_exits=s.grants, checker_stores=n, states=states)


class DavCtor(RecSim):
    def on_store(s, st, i, addr, val):
        if s.fn.label(i.ops[1]) == s.lab:
            s.n += 1
            if val == ('fn', 'onion_webdav_default_check_permissions'):
                return
            if val[0] == 'arg' and s.nonzero(st, val):
                return
            s.report(('ctor', i.loc()), 'a webdav handler is created at %s with a permission checker that is neither the default nor the (non NULL) one given' % i.where(), st, i)


# ------------------------------------------------------------------ PAM
class PamSim(RecSim):
    max_states = 80000

    def after_call(s, st, i, args, ret):
        c = i.callee
        if c in ('pam_start', 'pam_authenticate', 'pam_acct_mgmt'):
            s.rec(st, (c,), (), (ret, args[0]))
            if c == 'pam_start':
                s.rec(st, ('user',), (), (args[1],))
                s.drop(st, lambda k, p, t: k[0] in ('pam_authenticate', 'pam_acct_mgmt'))
        elif c in ('onion_request_get_session', 'onion_dict_get') and s.prog.cstr(i.ops[1]) == s.flag:
            s.rec(st, ('logged', i.id), (), (ret,))
        elif c == 'onion_base64_decode':
            s.rec(st, ('cred', i.id), (), (ret,))
        elif c == 'onion_response_set_code' and is_c(args[1]):
            s.rec(st, ('code',), (args[1][1],), ())

    def authed(s, st):
        for c in ('pam_start', 'pam_authenticate', 'pam_acct_mgmt'):
            r = st.ts.get((c,))
            if r is None or not s.is_zero(st, r[1][0]):
                return False
        return True

    def on_call(s, st, i, args):
        c = i.callee
        if c == 'onion_handler_handle':
            s.sinks.add(i.id)
            s.rec(st, ('handled',), (), ())
            if s.authed(st) or any(s.nonzero(st, t[0]) for k, p, t in s.recs(st, 'logged')):
                return None
            s.report(('inside', i.loc()), 'the protected handler is called at %s on a path where neither PAM accepted the credentials (start, authenticate and account check) nor the session is logged in' % i.where(), st, i)
        elif c == 'onion_dict_add':
            key = s.prog.cstr(i.ops[1])
            if key == s.flag:
                s.marks.add(i.id)
                if not s.authed(st):
                    s.report(('mark', i.loc()), 'the session is marked as logged in at %s on a path where PAM has not accepted the credentials' % i.where(), st, i)
        elif c == 'pam_start':
            u = root(args[1])
            if not any(t[0] == u for k, p, t in s.recs(st, 'cred')):
                s.report(('user', i.loc()), 'PAM is asked at %s about a user that does not come from the request credentials' % i.where(), st, i)
        return None

    def on_ret(s, st, i, val):
        s.exits += 1
        if ('handled',) in st.ts:
            return
        r = st.ts.get(('code',))
        if r is None or r[0][0] != s.unauth:
            s.report(('deny', i.loc()), 'a request that was not let in is answered at %s without the unauthorized status' % i.where(), st, i)


def run_pam(ctx):
    P = ctx.prog
    nn = infer_nonnull(P)
    hs = handler_of(P, 'onion_handler_auth_pam')
    sinks = set(); marks = set(); ex = 0; states = 0
    for f in hs:
        # the session key that means "already authenticated": the one whose presence lets the request in
        flags = {P.cstr(i.ops[1]) for i in f.calls('onion_request_get_session', 'onion_dict_get')} - {None}
        flags = {x for x in flags if any(P.cstr(i.ops[1]) == x for i in f.calls('onion_dict_add'))}
        ctx.need(len(flags) == 1, 'cannot identify the login session key (%s)' % sorted(flags))
        s = PamSim(P, f); s.nonnull = nn; s.sinks = sinks; s.marks = marks; s.exits = 0; s.flag = flags.pop(); s.unauth = P.enum('HTTP_UNAUTHORIZED')
        s.run(); ex += s.exits; states += s.nstates
        for v in s.viol.values():
            ctx.violation(v)
    ctx.need(len(sinks) >= 2 and marks, 'PAM handler: %d inner calls, %d login marks' % (len(sinks), len(marks)))
    ctx.cover(handlers=[f.src for f in hs], protected_calls=len(sinks), login_marks=len(marks), exits=ex, states=states)
