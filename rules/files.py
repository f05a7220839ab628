"""Answers with the content of a file: what is sent is what the headers announce."""
from gates import *
from lin import lin, le, add

DONE = ('al', 'ghost-done'); LEFT = ('al', 'ghost-left')
RESP = {'onion_response_set_header', 'onion_response_set_code', 'onion_response_set_length', 'onion_response_write', 'onion_response_write0', 'onion_response_printf',
        'onion_response_write_headers', 'onion_response_flush', 'onion_response_add_cookie', 'onion_response_write_html_safe'}
FSIZE = ('sym', 'fsize')
QF = ('onion_request_t', 'flags')
TEXTW = {'strncat', 'strcat', 'strcpy', 'strncpy', 'snprintf', 'sprintf', 'memcpy', 'onion_shortcut_etag', 'llvm.memcpy.p0.p0.i64', 'vsnprintf'}


def same(a, b):
    return add(lin(a), lin(b), -1) == {}


class FileSim(RecSim):
    wide_facts = True
    limit = 64; flat_limit = 400

    def reset(s):
        from collections import defaultdict
        s.n = defaultdict(set); s.exits = 0

    def bad(s, kind, st, i, msg):
        s.report((kind, i.loc()), msg % i.where(), st, i)

    def get(s, st, name):
        r = st.ts.get((name,))
        return r[1] if r else None

    def on_branch(s, st, i, term, truth):
        t, tr = term, bool(truth)
        while t[0] == 'icmp' and t[1] == 'eq' and t[2][0] == 'icmp' and t[3] == C(0):
            t, tr = t[2], not tr
        if t[0] == 'icmp' and t[1] == 'ult':
            a, b = t[2], t[3]
            if tr and is_c(a) and not is_c(b) and le(s, st, {}, lin(b)):
                s.setfact(st, b, lo=a[1] + 1)
            elif not tr and is_c(b) and not is_c(a) and le(s, st, {}, lin(a)):
                s.setfact(st, a, lo=b[1])
        for t, f in st.facts.items():
            if t[0] == 'bin' and t[1] == 'and' and t[3] == C(0o170000) and s.lab_of(t[2]) == ('stat', 'st_mode'):
                if 0o040000 in f[2] or f[1] < 0o040000 or f[0] > 0o040000:
                    s.rec(st, ('notdir',))
            if t[0] == 'bin' and t[1] == 'and' and t[3] == C(s.METHODS) and s.is_flags(st, t[2]):
                if s.HEAD in f[2] or f[1] < s.HEAD or f[0] > s.HEAD:
                    s.rec(st, ('nothead',))

    def lab_of(s, v):
        while v[0] in ('old', 'zx', 'sx', 'tr'):
            v = v[1]
        return s.fn.label(s.fn.inst[v[1]].ops[0]) if v[0] == 'ld' else None

    def is_flags(s, st, v):
        while v[0] in ('zx', 'sx', 'tr', 'old'):
            v = v[1]
        if v[0] == 'ld':
            return s.fn.label(s.fn.inst[v[1]].ops[0]) == QF
        return any(t[0] == v for k, p, t in s.recs(st, 'flags'))

    def is_resp(s, args):
        return bool(args) and args[0] == s.res

    def on_call(s, st, i, args):
        c = i.callee
        if c in RESP and s.is_resp(args):
            s.rec(st, ('touched',))
            s.n['response calls'].add(i.id)
            if c == 'onion_response_set_code':
                s.rec(st, ('code',), (), (args[1],))
                if args[1] == C(304):
                    e = s.get(st, 'etag')
                    ok = e and any(p == ('strcmp',) and e[0] in t[1:] and any(h[0] in t[1:] for _, _, h in s.recs(st, 'inm')) and s.is_zero(st, t[0]) for k, p, t in s.recs(st, 'cmp'))
                    s.n['not modified'].add(i.id)
                    if not ok:
                        s.bad('304', st, i, '"not modified" is answered at %s although the tag of the client was not found equal to the tag of the file')
            elif c == 'onion_response_set_length':
                s.rec(st, ('length',), (), (args[1],))
                st.mem[DONE] = (C(0), None); st.mem[LEFT] = (args[1], None)
            elif c == 'onion_response_set_header':
                n = (s.prog.cstr(i.ops[1]) or '').lower()
                if n == 'etag':
                    s.rec(st, ('etag',), (), (args[2],))
                elif n == 'content-range':
                    s.range_header(st, i, args[2])
            elif c == 'onion_response_write_headers':
                s.headers(st, i)
            elif c in ('onion_response_write', 'onion_response_write0') and len(args) > 1:
                s.body(st, i, args)
        elif c == 'lseek' and args[2] == C(0):
            s.rec(st, ('seek',), (), (args[1],))
        elif c == 'lseek':
            s.rec(st, ('seek',), (), (('top',),))
        elif c in ('read', 'pread', 'pread64'):
            s.take(st, i, args[2], args[3] if c != 'read' else None)
        elif c in ('sendfile', 'sendfile64'):
            s.take(st, i, args[3], None if args[2] == NULL else ('ptr', args[2]))
            L = s.get(st, 'length')
            if L and not same(args[3], L[0]):
                s.bad('sendlen', st, i, 'sendfile at %s does not send the announced length')
            s.rec(st, ('unaccounted',), (), (args[3],))
        elif c == 'snprintf' and len(args) > 3:
            f = s.prog.cstr(i.ops[2]) or ''
            if f.startswith('bytes %') and len(args) >= 6:
                s.rec(st, ('rngtext',), ('full',), (args[0],) + tuple(args[3:6]))
            elif f.startswith('bytes */') and len(args) >= 4:
                s.rec(st, ('rngtext',), ('none',), (args[0], args[3]))
        if c in TEXTW:
            e = s.get(st, 'etag')
            if e and args and root(e[0]) == root(args[0]):
                st.ts.pop(('etag',), None)
        return None

    def after_call(s, st, i, args, ret):
        c = i.callee
        if c in ('stat', 'fstat', 'stat64', 'fstat64'):
            o = s.prog.field('stat', 'st_size')['o']
            st.mem[gep(args[1], o)] = (FSIZE, ('stat', 'st_size'))
            s.setfact(st, FSIZE, lo=0)
        elif c == 'onion_request_get_flags':
            s.rec(st, ('flags', i.id), (), (ret,))
        elif c == 'onion_request_get_header' and len(args) > 1:
            n = (s.prog.cstr(i.ops[1]) or '').lower()
            if n == 'if-none-match':
                s.rec(st, ('inm', i.id), (), (ret,))
        elif c == 'strcmp':
            s.rec(st, ('cmp', i.id), (c,), (ret, args[0], args[1]))
        elif c in ('read', 'pread', 'pread64') and ret is not None:
            s.rec(st, ('got',), (), (ret, args[1]))
            for a, op in ((DONE, 'add'), (LEFT, 'sub')):
                m = st.mem.get(a)
                if m:
                    st.mem[a] = (s.mkbin(st, op, m[0], ret, 64), None)
        elif c in ('sendfile', 'sendfile64') and ret is not None:
            s.rec(st, ('sent',), (), (ret,))

    # -- obligations
    def range_header(s, st, i, text):
        r = st.ts.get(('rngtext',))
        if not r or r[1][0] != text:
            s.bad('rangetext', st, i, 'the Content-Range header set at %s was not made from the range that is sent')
            return
        s.n['ranges'].add(i.id)
        if r[0] == ('none',):
            if not same(r[1][1], FSIZE):
                s.bad('rsize', st, i, 'the Content-Range header set at %s does not give the size of the file')
            s.rec(st, ('norange',))
            return
        _, a, z, n = r[1]
        if not same(n, FSIZE):
            s.bad('rsize', st, i, 'the Content-Range header set at %s does not give the size of the file')
        if not le(s, st, lin(a), lin(z)):
            s.bad('rorder', st, i, 'the Content-Range header set at %s may give a range that ends before it starts')
        if s.interval(st, FSIZE)[0] < 1 and not any(t[0] == 'icmp' and t[1] == 'ult' and t[3] == FSIZE and f[0] == 1 for t, f in st.facts.items()):
            s.bad('rempty', st, i, 'the Content-Range header set at %s may give a range of an empty file')
        if not le(s, st, add(lin(z), {None: 1}), lin(FSIZE)):
            s.bad('rend', st, i, 'the Content-Range header set at %s may give a range that ends past the end of the file')
        s.rec(st, ('range',), (), (a, z))

    def code(s, st):
        c = s.get(st, 'code')
        return c[0] if c else C(200)

    def headers(s, st, i):
        c = s.code(st); r = s.get(st, 'range'); L = s.get(st, 'length')
        s.n['header points'].add(i.id)
        if ('notdir',) not in st.ts:
            s.bad('dir', st, i, 'a directory may be answered as a file at %s')
        if c == C(206) and not r:
            s.bad('206', st, i, 'partial content is announced at %s without saying which range')
        if c == C(206) and r and not (L and add(lin(L[0]), add(add(lin(r[1]), lin(r[0]), -1), {None: 1}), -1) == {}):
            s.bad('rlen', st, i, 'the length announced at %s is not that of the range')
        if c == C(200):
            if r:
                s.bad('200', st, i, 'a range of the file is answered at %s as if it was the whole')
            if not (L and same(L[0], FSIZE)):
                s.bad('len', st, i, 'the length announced at %s is not the size of the file')
        if c == C(416) and ('norange',) not in st.ts:
            s.bad('416', st, i, 'the range is refused at %s without telling the size of the file')
        if c == C(304) and not (L and L[0] == C(0)):
            s.bad('304len', st, i, 'a body is announced at %s for a file that was not modified')
        s.rec(st, ('sentheaders',))
        s.drop(st, lambda k, p, t: k[0] in ('cmp', 'inm', 'rngtext', 'etag'))

    def take(s, st, i, n, off):
        s.n['file reads'].add(i.id)
        c = s.code(st); r = s.get(st, 'range'); L = s.get(st, 'length'); k = s.get(st, 'seek')
        if ('sentheaders',) not in st.ts:
            s.bad('early', st, i, 'file content is taken at %s before the headers were sent')
            return
        if c in (C(304), C(416)):
            s.bad('nobody', st, i, 'file content is sent at %s in an answer that has no body')
        if ('nothead',) not in st.ts:
            s.bad('head', st, i, 'file content may be sent at %s in the answer to a HEAD request')
        d = st.mem.get(DONE); l = st.mem.get(LEFT)
        if not L or not (d and le(s, st, add(lin(d[0]), lin(n)), lin(L[0])) or l and le(s, st, lin(n), lin(l[0]))):
            s.bad('over', st, i, 'more file content than the announced length may be sent at %s')
        # where it is taken from
        start = lin(r[0]) if r else {}
        if off is None:
            if add(lin(k[0]) if k else {}, start, -1) != {}:
                s.bad('seek', st, i, 'the content sent at %s does not start where the answer says')
        elif off[0] == 'ptr':
            m = st.mem.get(off[1])
            if not m or add(lin(m[0]), start, -1) != {}:
                s.bad('seek', st, i, 'the content sent at %s does not start where the answer says')
        else:
            if not d or add(lin(off), add(start, lin(d[0])), -1) != {}:
                s.bad('seek', st, i, 'the content sent at %s does not start where the answer says')

    def body(s, st, i, args):
        n = args[2] if len(args) > 2 else None
        if n == C(0):
            return
        s.n['body writes'].add(i.id)
        g = s.get(st, 'got')
        if not g or g[1] != args[1] or n is None or not same(n, g[0]):
            s.bad('other', st, i, 'what is written at %s is not what was just read from the file')

    def on_store(s, st, i, addr, val):
        u = s.get(st, 'unaccounted')
        l = s.fn.label(i.ops[1])
        if u and l == ('onion_response_t', 'sent_bytes') and (add(lin(val), lin(u[0]), -1) != lin(val)):
            d = add(lin(val), lin(u[0]), -1)
            if len(d) == 1:
                st.ts.pop(('unaccounted',), None)

    def on_ret(s, st, i, val):
        s.exits += 1
        if val is None:
            return
        if s.decide_icmp(st, 'eq', val, C(s.NOTP)) is not False and ('touched',) in st.ts:
            s.bad('touched', st, i, 'the file is reported as not handled at %s after the response was already changed')
        if s.decide_icmp(st, 'eq', val, C(s.PROC)) is not False:
            if ('touched',) not in st.ts or ('sentheaders',) not in st.ts:
                s.bad('silent', st, i, 'the file is reported as answered at %s but nothing was answered')
            if ('unaccounted',) in st.ts:
                s.bad('account', st, i, 'content sent by sendfile is not counted as sent when returning at %s')
            t = s.get(st, 'sent')
            L = s.get(st, 'length')
            if t and L and not (le(s, st, lin(t[0]), lin(L[0])) and le(s, st, lin(L[0]), lin(t[0]))):
                s.bad('short', st, i, 'a file that was not sent completely is reported as answered at %s')


def run_files(ctx):
    P = ctx.prog; nn = infer_nonnull(P)
    f = P.f('onion_shortcut_response_file')
    s = FileSim(P, f); s.nonnull = nn; s.reset()
    s.res = ('arg', 2); s.constf = set(s.constf) | {('stat', 'st_size')}
    s.METHODS = P.enum('OR_METHODS'); s.HEAD = P.enum('OR_HEAD'); s.NOTP = P.enum('OCS_NOT_PROCESSED'); s.PROC = P.enum('OCS_PROCESSED')
    s.run()
    for v in s.viol.values():
        ctx.violation(v)
    for k in ('response calls', 'not modified', 'ranges', 'header points', 'file reads'):
        ctx.need(s.n.get(k), 'no %s obligation found' % k)
    # the tag tells apart different sizes and modification times
    e = P.f('onion_shortcut_etag'); seen = set()
    for i in e.insts():
        if i.op == 'load':
            l = e.label(i.ops[0])
            if l and l[0] == 'stat':
                seen.add(l[1])
    used = set()
    for i in e.calls('snprintf'):
        for o in i.ops[3:]:
            used |= sources(e, o)
    for fl in ('st_size', 'st_mtim'):
        if not any(x.startswith(fl) for x in used):
            ctx.violation('the tag of a file does not depend on its %s' % ('size' if fl == 'st_size' else 'modification time'), where=e.src)
    ctx.cover(function=f.src, obligations={k: len(v) for k, v in s.n.items()}, exits=s.exits, states=s.nstates, tag_fields=sorted(used))


def sources(f, o):
    r = set(); w = [o]; seen = set()
    while w:
        v = w.pop()
        if v[0] != 'v' or v[1] in seen:
            continue
        seen.add(v[1])
        j = f.inst.get(v[1])
        if j is None:
            continue
        if j.op == 'load':
            l = f.label(j.ops[0])
            if l:
                r.add(l[1])
        elif j.op == 'phi':
            w += [x for x, _ in j.ops]
        else:
            w += [x for x in j.ops if x[0] == 'v']
    return r
