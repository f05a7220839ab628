"""HTTP semantics: response framing, outcome -> status mapping, keep-alive, request reuse."""
from gates import *

RF = ('onion_response_t', 'flags'); QF = ('onion_request_t', 'flags')


class FlagSim(RecSim):
    """remembers, per path, what branches learnt about the bits of flag words (history of tests, survives calls)."""
    flagl = (RF, QF)

    def _scan(s, st):
        for t, f in list(st.facts.items()):
            if t[0] == 'bin' and t[1] == 'and' and is_c(t[3]):
                m = t[3][1]
                l = s.lab_of(s.under(t[2], m))
                if l in s.flagl:
                    if f[0] == f[1] == 0:
                        s.rec(st, ('tst', l, m, 'z'))
                    elif f[0] == f[1]:
                        s.rec(st, ('tst', l, m, int(f[0])))
                        if f[0] == m and bin(m).count('1') == 1:
                            s.rec(st, ('tst', l, m, 'nz'))
                    elif f[0] > 0 or 0 in f[2] or f[1] < 0:
                        s.rec(st, ('tst', l, m, 'nz'))
                    for x in f[2]:
                        if x:
                            s.rec(st, ('tst', l, m, 'ne%d' % x))

    def under(s, v, m):
        # the flag word below updates of other bits
        while v[0] == 'bin' and is_c(v[3]) and (v[1] == 'or' and not v[3][1] & m or v[1] == 'and' and (v[3][1] & m) == m):
            v = v[2]
        return v

    def lab_of(s, v):
        while v[0] in ('old', 'zx', 'sx', 'tr', 'cast'):
            v = v[1]
        if v[0] == 'ld':
            return s.fn.label(s.fn.inst[v[1]].ops[0])
        return None

    def on_branch(s, st, i, term, truth):
        s._scan(st)

    def zero(s, st, l, m):
        """bits m of the flag word l were tested and found clear."""
        return any(k[0] == 'tst' and k[1] == l and k[3] == 'z' and (k[2] & m) == m for k in st.ts)

    def isset(s, st, l, m):
        return any(k[0] == 'tst' and k[1] == l and k[2] == m and k[3] == 'nz' for k in st.ts)

    def anyset(s, st, l, m):
        """one of the bits m was found set."""
        return any(k[0] == 'tst' and k[1] == l and (k[3] == 'nz' and not k[2] & ~m or isinstance(k[3], int) and k[3] & m) for k in st.ts)

    def value(s, st, l, m):
        """(known value or None, set of excluded values) of l & m."""
        v = None; ne = set()
        for k in st.ts:
            if k[0] == 'tst' and k[1] == l and k[2] == m:
                if k[3] == 'z':
                    v = 0
                elif isinstance(k[3], int):
                    v = k[3]
                elif k[3] == 'nz':
                    ne.add(0)
                elif k[3].startswith('ne'):
                    ne.add(int(k[3][2:]))
        return v, ne

    def ev(s, st, name):
        s.rec(st, ('ev', name))

    def has(s, st, name):
        return ('ev', name) in st.ts

    def setbits(s, st, i, val, l):
        """bits set / written by a store to a flag word: ('or', mask) | ('eq', const) | None."""
        if val[0] == 'bin' and val[1] == 'or' and is_c(val[3]):
            return val[3][1]
        if is_c(val):
            return val[1]
        return 0


WR = {'onion_response_write': 1, 'onion_response_write0': 1, 'onion_response_printf': 1, 'onion_response_vprintf': 1}


class HeadersSim(FlagSim):
    """onion_response_write_headers: one status line, headers, one blank line, once."""

    def on_call(s, st, i, args):
        c = i.callee
        if c in WR and args[0] == ('arg', 0) or c == 'onion_dict_preorder' and args[2] == ('arg', 0):
            txt = s.prog.cstr(i.ops[1]) or ''
            s.sites.add(i.id)
            if not s.has(st, 'begun'):
                s.ev(st, 'begun')
                if not s.zero(st, RF, s.SENT):
                    s.report(('twice', i.loc()), 'header data is written at %s on a path where nothing established that the headers were not sent before' % i.where(), st, i)
                if not s.has(st, 'marked'):
                    s.report(('unmarked', i.loc()), 'header data is written at %s before the response is marked as having sent its headers' % i.where(), st, i)
            if s.has(st, 'blank'):
                s.report(('after', i.loc()), 'header data is written at %s after the blank line that ends the headers' % i.where(), st, i)
            if c == 'onion_response_printf' and txt.startswith('HTTP/'):
                if s.has(st, 'status'):
                    s.report(('status2', i.loc()), 'a second status line is written at %s' % i.where(), st, i)
                s.ev(st, 'status'); s._scan(st)
                if txt.startswith('HTTP/%s') and len(args) > 2 and args[2][0] in ('g', 'p'):
                    g = args[2] if args[2][0] == 'g' else args[2][1]
                    v = s.prog.cstr((g[0], g[1], args[2][2] if args[2][0] == 'p' else 0)) if g[0] == 'g' else None
                    txt = 'HTTP/' + v + txt[7:] if v else txt
                if txt.startswith('HTTP/1.1') and not s.isset(st, QF, s.H11) or txt.startswith('HTTP/1.0') and not s.zero(st, QF, s.H11):
                    s.report(('version', i.loc()), 'the status line at %s does not answer with the version of the request' % i.where(), st, i)
                s.status_args.add((i.id, next((l for l in (s.lab_of(a) for a in args[2:]) if l == ('onion_response_t', 'code')), None)))
            else:
                if not s.has(st, 'status'):
                    s.report(('nostatus', i.loc()), 'a header is written at %s before the status line' % i.where(), st, i)
                if txt == '\r\n':
                    s.ev(st, 'blank')
                elif txt.lower().startswith('transfer-encoding: chunked'):
                    s.ev(st, 'te')
                    s._scan(st)
                    if not s.zero(st, RF, s.LEN):
                        s.report(('te-len', i.loc()), 'chunked encoding is announced at %s although the response length may be set' % i.where(), st, i)
                    if not s.isset(st, QF, s.H11):
                        s.report(('te-10', i.loc()), 'chunked encoding is announced at %s to a client that may not be HTTP/1.1' % i.where(), st, i)
                elif c == 'onion_dict_preorder':
                    s.ev(st, 'dict')
                elif txt.lower().startswith('content-length'):
                    s.ev(st, 'cl')
                for ln in [txt] if txt and c != 'onion_dict_preorder' and txt != '\r\n' and c != 'onion_response_write0' else []:
                    if not txt.endswith('\n'):
                        s.report(('eol', i.loc()), 'the header written at %s is not ended by a new line' % i.where(), st, i)
        return None

    def on_store(s, st, i, addr, val):
        l = s.fn.label(i.ops[1])
        if l == RF:
            b = s.setbits(st, i, val, l)
            for n, m in (('marked', s.SENT), ('skip', s.SKIP), ('chunked', s.CHUNK)):
                if b & m:
                    s.ev(st, n)

    def on_ret(s, st, i, val):
        if not s.has(st, 'begun'):
            return
        s.exits += 1
        if not (s.has(st, 'status') and s.has(st, 'dict') and s.has(st, 'blank')):
            s.report(('incomplete', i.loc()), 'the headers are left incomplete (status line, headers and blank line) on a path to %s' % i.where(), st, i)
        v, ne = s.value(st, QF, s.METH)
        head = v == s.HEAD; nohead = v is not None and v != s.HEAD or s.HEAD in ne
        if not head and not nohead:
            s.report(('head?', i.loc()), 'the headers are sent on a path to %s that never checks whether the request is HEAD' % i.where(), st, i)
        if head and not s.has(st, 'skip'):
            s.report(('head', i.loc()), 'the body of a HEAD answer is not suppressed on a path to %s' % i.where(), st, i)
        if nohead and s.has(st, 'skip'):
            s.report(('nohead', i.loc()), 'the body is suppressed on a path to %s for a request that is not HEAD' % i.where(), st, i)
        if s.has(st, 'te') and not head and not s.has(st, 'chunked'):
            s.report(('te', i.loc()), 'chunked encoding is announced but not used on a path to %s' % i.where(), st, i)
        if s.has(st, 'chunked') and not s.has(st, 'te'):
            s.report(('te2', i.loc()), 'chunked encoding is used but not announced on a path to %s' % i.where(), st, i)
        if s.has(st, 'chunked') and head:
            s.report(('te3', i.loc()), 'a HEAD answer is ended with chunk data on a path to %s' % i.where(), st, i)


class RawSim(FlagSim):
    """flush / free: what reaches the connection, in which state."""

    def is_raw(s, i):
        if i.callee is not None:
            return False
        j = s.fn.inst.get(i.calleev[1]) if i.calleev[0] == 'v' else None
        return j is not None and j.op == 'load' and s.fn.label(j.ops[0]) == ('onion_listen_point_t', 'write')

    def after_call(s, st, i, args, ret):
        if i.callee == 'snprintf':
            f = s.prog.cstr(i.ops[2]) or ''
            if f.lower() in ('%x\r\n', '%lx\r\n', '%zx\r\n'):
                s.rec(st, ('chunkline',), (s.lab_of(args[3]),), (root(args[0]),))


class FlushSim(RawSim):
    def on_call(s, st, i, args):
        if s.is_raw(i):
            s.sites.add(i.id)
            s._scan(st)
            if not s.isset(st, RF, s.SENT):
                s.report(('unsent', i.loc()), 'response data reaches the connection at %s on a path where the headers may not have been sent' % i.where(), st, i)
            if not s.zero(st, RF, s.SKIP):
                s.report(('skip', i.loc()), 'response data reaches the connection at %s on a path where the body may have to be suppressed (HEAD)' % i.where(), st, i)
            chunk = s.isset(st, RF, s.CHUNK); plain = s.zero(st, RF, s.CHUNK)
            cl = st.ts.get(('chunkline',))
            txt = s.prog.cstr(i.ops[1])
            if cl and cl[1][0] == root(args[1]):
                if not chunk:
                    s.report(('cl', i.loc()), 'a chunk size is sent at %s although the response is not chunked' % i.where(), st, i)
                if s.has(st, 'size') or s.has(st, 'data'):
                    s.report(('cl2', i.loc()), 'a chunk size is sent at %s out of order' % i.where(), st, i)
                s.ev(st, 'size')
                s.default_call(st, i, args)
                s.rec(st, ('sizew',), (), (st.env[i.id],))
                return [st]
            elif txt == '\r\n':
                if not chunk:
                    s.report(('crlf', i.loc()), 'a chunk terminator is sent at %s although the response is not chunked' % i.where(), st, i)
                if not s.has(st, 'data'):
                    s.report(('crlf2', i.loc()), 'a chunk terminator is sent at %s before the chunk data' % i.where(), st, i)
                s.ev(st, 'crlf')
            else:
                s.ev(st, 'data')
                if s.has(st, 'crlf'):
                    s.report(('data2', i.loc()), 'data is sent at %s after the chunk terminator' % i.where(), st, i)
                if chunk and not s.has(st, 'size'):
                    s.report(('data', i.loc()), 'chunk data is sent at %s without its size' % i.where(), st, i)
                s.data.add(i.id)
                r = st.ts.get(('datap', i.id))
                if r is not None and (r[1][0] == args[1] or r[1][1] == args[2]):
                    s.report(('again', i.loc()), 'after a short write the loop at %s sends %s again instead of continuing with the rest' % (
                        i.where(), 'the same data' if r[1][0] == args[1] else 'the same amount'), st, i)
                st.ts.pop(('ev', 'full'), None); st.ts.pop(('dataw',), None)
                s.default_call(st, i, args)
                s.rec(st, ('dataw',), (), (st.env[i.id], s.val(st, i.ops[2])))
                s.rec(st, ('datap', i.id), (), (s.val(st, i.ops[1]), s.val(st, i.ops[2])))
                if i.bb in s.loopb:
                    s.ev(st, 'full')    # a sending loop: its exit test is on what is left
                return [st]
        elif i.callee == 'onion_response_write_headers':
            s.ev(st, 'headers')
        elif i.callee == 'onion_response_write':
            s.ev(st, 'rewrite')
        return None

    def full(s, st):
        r = st.ts.get(('dataw',))
        if r is None:
            return
        w, n = r[1]
        for x, f in st.facts.items():
            if x[0] == 'icmp' and x[1] == 'eq' and f[0] == f[1] == 1 and w in (x[2], x[3]) and s.lab_of(x[2] if x[3] == w else x[3]) == ('onion_response_t', 'buffer_pos'):
                s.ev(st, 'full')
        if s.decide_icmp(st, 'eq', w, n) is True or s.decide_icmp(st, 'eq', n, w) is True:
            s.ev(st, 'full')

    def on_branch(s, st, i, term, truth):
        s._scan(st); s.full(st)

    def on_ret(s, st, i, val):
        s.exits += 1
        ok = val is not None and not (s.interval(st, val)[1] < 0)
        if s.has(st, 'data') and ok:
            chunk = s.isset(st, RF, s.CHUNK); plain = s.zero(st, RF, s.CHUNK)
            if not chunk and not plain:
                s.report(('ch?', i.loc()), 'data is sent on a path to %s that never checks whether the response is chunked' % i.where(), st, i)
            if chunk and not s.has(st, 'crlf'):
                s.report(('noend', i.loc()), 'a chunk is left unterminated on a path to %s' % i.where(), st, i)
            s.full(st)
            if not s.has(st, 'full'):
                s.report(('short', i.loc()), 'flush reports success at %s although the last write may have been short' % i.where(), st, i)
        if not s.has(st, 'data') and not s.has(st, 'rewrite') and ok:
            empty = any(s.is_zero(st, t) for t in [v for a, (v, l) in st.mem.items() if l == ('onion_response_t', 'buffer_pos')])
            if not empty and not s.isset(st, RF, s.SKIP):
                s.report(('lost', i.loc()), 'flush reports success at %s without sending the pending data' % i.where(), st, i)
        if s.has(st, 'headers') != s.has(st, 'rewrite'):
            s.report(('hdr', i.loc()), 'the pending data is not written again after the headers on a path to %s' % i.where(), st, i)


class FreeSim(RawSim):
    def on_call(s, st, i, args):
        c = i.callee
        if s.is_raw(i):
            s.sites.add(i.id)
            s._scan(st)
            if s.prog.cstr(i.ops[1]) == '0\r\n\r\n':
                if not s.has(st, 'flush'):
                    s.report(('early', i.loc()), 'the end of the chunked data is sent at %s before the pending data' % i.where(), st, i)
                if not s.isset(st, RF, s.CHUNK):
                    s.report(('nochunk', i.loc()), 'an end of chunked data is sent at %s although the response is not chunked' % i.where(), st, i)
                s.ev(st, 'last')
            else:
                s.report(('raw', i.loc()), 'unframed data is sent at %s when the response ends' % i.where(), st, i)
        elif c == 'onion_response_write_headers':
            s.ev(st, 'headers')
        elif c == 'onion_response_flush':
            s._scan(st)
            if not s.has(st, 'headers') and not s.isset(st, RF, s.SENT):
                s.report(('nohdr', i.loc()), 'a response ends at %s on a path where its headers may never be sent' % i.where(), st, i)
            s.ev(st, 'flush')
        elif c == 'onion_low_free' and args[0] == ('arg', 0):
            s._scan(st)
            if not s.has(st, 'flush'):
                s.report(('noflush', i.loc()), 'a response is freed at %s without sending its pending data' % i.where(), st, i)
            if not s.has(st, 'last') and not s.zero(st, RF, s.CHUNK):
                s.report(('nolast', i.loc()), 'a chunked response may be freed at %s without its end of data mark' % i.where(), st, i)
            s.ev(st, 'freed')
        return None

    def after_call(s, st, i, args, ret):
        if i.callee == 'onion_request_keep_alive':
            s.rec(st, ('ka', i.id), (), (ret,))

    def on_branch(s, st, i, term, truth):
        s._scan(st)
        for k, p, t in s.recs(st, 'ka'):
            if s.nonzero(st, t[0]):
                s.ev(st, 'wants')
        # length == sent comparison
        for t, f in st.facts.items():
            if t[0] == 'icmp' and t[1] == 'eq' and f[0] == f[1] == 1:
                if {s.lab_of(t[2]), s.lab_of(t[3])} == {('onion_response_t', 'length'), ('onion_response_t', 'sent_bytes')}:
                    s.ev(st, 'whole')

    def on_ret(s, st, i, val):
        s.exits += 1
        if val is None:
            return
        s.on_branch(st, i, None, None)
        if s.decide_icmp(st, 'eq', val, C(s.KEEP)) is False:
            return
        s.keeps += 1
        if not s.has(st, 'wants'):
            s.report(('wants', i.loc()), 'the connection is kept alive at %s on a path where the client did not ask for it' % i.where(), st, i)
        if not (s.anyset(st, RF, s.SKIP | s.CHUNK) or s.has(st, 'whole')):
            s.report(('frame', i.loc()), 'the connection is kept alive at %s although the end of the response is not known to the client (no length match, not chunked, no HEAD)' % i.where(), st, i)


def consts(P, s):
    E = P.enum
    s.SENT = E('OR_HEADER_SENT'); s.SKIP = E('OR_SKIP_CONTENT'); s.CHUNK = E('OR_CHUNKED'); s.LEN = E('OR_LENGTH_SET'); s.H11 = E('OR_HTTP11')
    s.METH = E('OR_METHODS'); s.HEAD = E('OR_HEAD'); s.KEEP = E('OCS_KEEP_ALIVE')


def sim(ctx, cls, f, nn, **kw):
    s = cls(ctx.prog, f); s.nonnull = nn; s.sites = set(); s.exits = 0
    consts(ctx.prog, s)
    for k, v in kw.items():
        setattr(s, k, v)
    s.run()
    for v in s.viol.values():
        ctx.violation(v)
    return s


def run_frame(ctx):
    P = ctx.prog; nn = infer_nonnull(P)
    h = sim(ctx, HeadersSim, P.f('onion_response_write_headers'), nn, status_args=set())
    ctx.need(len(h.sites) >= 2 and h.exits, 'header writer: %d writes, %d exits' % (len(h.sites), h.exits))
    for iid, l in h.status_args:
        if l != ('onion_response_t', 'code'):
            ctx.violation('the status line does not carry the response code', where=h.fn.src)
    fl = sim(ctx, FlushSim, P.f('onion_response_flush'), nn, data=set())
    ctx.need(len(fl.sites) >= 1 and fl.data, 'flush: %d raw writes' % len(fl.sites))
    fr = sim(ctx, FreeSim, P.f('onion_response_free'), nn, keeps=0)
    ctx.need(fr.exits and fr.keeps, 'response end not found')
    # content-length is the announced length
    ctx.cover(header_writes=len(h.sites), header_exits=h.exits, raw_writes=len(fl.sites) + len(fr.sites), flush_exits=fl.exits, end_exits=fr.exits,
              states=h.nstates + fl.nstates + fr.nstates)


# ------------------------------------------------------------------ outcome mapping
class ProcSim(FlagSim):
    flagl = ()

    def after_call(s, st, i, args, ret):
        if i.callee == 'onion_handler_handle':
            l = s.lab_of(args[0])
            if l == ('onion_t', 'root_handler'):
                s.rec(st, ('hs',), (), (ret,))
            elif l == ('onion_t', 'internal_error_handler'):
                r = st.ts.get(('hs',))
                s.errs.add(i.id)
                if r is None:
                    s.report(('first', i.loc()), 'the error handler is called at %s before the root handler' % i.where(), st, i)
                    return
                t = r[1][0]
                for code, flag in s.map.items():
                    if s.decide_icmp(st, 'eq', t, C(code)) is not False:
                        if ('ev', 'f%d' % flag) not in st.ts and s.decide_icmp(st, 'eq', t, C(code)) is True:
                            s.report(('flag', code), 'the error page for outcome %s is produced at %s without marking the request with the matching error' % (s.names[code], i.where()), st, i)
                s.rec(st, ('err',), (), (ret,))
            else:
                s.report(('who', i.loc()), 'an unknown handler is called at %s' % i.where(), st, i)

    def on_store(s, st, i, addr, val):
        if s.fn.label(i.ops[1]) == QF:
            b = s.setbits(st, i, val, QF) & 0xF000
            r = st.ts.get(('hs',))
            if b and r is not None:
                s.ev(st, 'f%d' % b)
                for code, flag in s.map.items():
                    if flag == b and s.decide_icmp(st, 'eq', r[1][0], C(code)) is not True:
                        s.report(('wrongflag', i.loc()), 'the request is marked at %s with the error of another outcome' % i.where(), st, i)

    def on_call(s, st, i, args):
        if i.callee == 'onion_response_free':
            s.ev(st, 'resfree')
        return None

    def on_ret(s, st, i, val):
        s.exits += 1
        r = st.ts.get(('hs',))
        if r is None:
            s.report(('noroot', i.loc()), 'a request is finished at %s without calling the root handler' % i.where(), st, i)
            return
        t = r[1][0]
        if ('err',) not in st.ts:
            for code in s.map:
                if s.decide_icmp(st, 'eq', t, C(code)) is not False:
                    s.report(('unanswered', code), 'a request whose handler ended with %s may be finished at %s without an answer from the error handler' % (s.names[code], i.where()), st, i)
        last = st.ts[('err',)][1][0] if ('err',) in st.ts else t
        y = s.decide_icmp(st, 'eq', last, C(s.YIELD))
        if s.has(st, 'resfree'):
            if y is not False:
                s.report(('yield', i.loc()), 'the response of a request taken over by another thread may be finished at %s' % i.where(), st, i)
        elif y is not True:
            s.report(('unfinished', i.loc()), 'the response may be neither finished nor handed over at %s' % i.where(), st, i)


class ErrSim(FlagSim):
    def on_call(s, st, i, args):
        c = i.callee
        if c == 'onion_response_set_code':
            s._scan(st)
            v, ne = s.value(st, QF, 0xF000)
            s.seen += 1
            if not is_c(args[1]):
                s.report(('code?', i.loc()), 'the error page at %s does not have a definite status' % i.where(), st, i)
                return None
            code = args[1][1]
            want = s.codes.get(v) if v is not None else None
            if want is not None and code != want:
                s.report(('code', v), 'requests marked with error 0x%x are answered with %d instead of %d at %s' % (v, code, want, i.where()), st, i)
            if v is None:
                poss = {c2 for f2, c2 in s.codes.items() if f2 not in ne}
                if any(c2 != code for c2 in poss):
                    s.report(('codeany', i.loc()), 'the error page at %s answers %d for requests that may have another error' % (i.where(), code), st, i)
            s.ev(st, 'code')
        elif c in ('onion_response_write_headers', 'onion_response_write', 'onion_response_flush', 'onion_response_write0', 'onion_response_printf'):
            if not s.has(st, 'code'):
                s.report(('late', i.loc()), 'the error page writes at %s before setting its status' % i.where(), st, i)
            s.ev(st, 'wrote')
        elif c == 'onion_response_set_length':
            s.rec(st, ('len',), (), (args[1],))
        if c == 'onion_response_write' and ('len',) in st.ts:
            if st.ts[('len',)][1][0] != args[2] and not (args[2][0] == 'sx' and args[2] == st.ts[('len',)][1][0]):
                s.report(('clen', i.loc()), 'the error page at %s writes a different amount than it announces' % i.where(), st, i)
        return None

    def on_ret(s, st, i, val):
        s.exits += 1
        if not s.has(st, 'code'):
            s.report(('nocode', i.loc()), 'an error page may be answered without an error status (return at %s)' % i.where(), st, i)


def run_outcome(ctx):
    P = ctx.prog; nn = infer_nonnull(P); E = P.enum
    names = ['INTERNAL_ERROR', 'NOT_IMPLEMENTED', 'FORBIDDEN']
    mp = {E('OCS_' + n): E('OR_' + n) for n in names}
    mp[E('OCS_NOT_PROCESSED')] = E('OR_NOT_FOUND')
    nm = {E('OCS_' + n): 'OCS_' + n for n in names + ['NOT_PROCESSED']}
    p = sim(ctx, ProcSim, P.f('onion_request_process'), nn, map=mp, names=nm, errs=set(), YIELD=E('OCS_YIELD'))
    ctx.need(p.errs and p.exits, 'request processing not recognised')
    # the default error handler (found through the server constructor)
    hs = handler_of(P, 'onion_new')
    codes = {E('OR_' + n): E('HTTP_' + n) for n in names}; codes[E('OR_NOT_FOUND')] = E('HTTP_NOT_FOUND'); codes[0] = E('HTTP_NOT_FOUND')
    seen = 0; ex = 0
    for f in hs:
        e = sim(ctx, ErrSim, f, nn, codes=codes, seen=0)
        seen += e.seen; ex += e.exits
    ctx.need(seen, 'default error page sets no status')
    # every status the library knows has a reason phrase of its own
    f = P.f('onion_response_code_description')
    class D(FlagSim):
        def on_ret(s, st, i, val):
            lo, hi = s.interval(st, ('arg', 0))
            if lo == hi and val is not None and val[0] == 'g' or val is not None and val[0] == 'p':
                g = (val[1], 0) if val[0] == 'g' else (val[1][1], val[2])
                s.desc[int(lo) if lo == hi else None] = s.prog.cstr(('g',) + g)
            elif val is not None and val[0] == 'g':
                s.desc[None] = s.prog.cstr(('g', val[1], 0))
    d = sim(ctx, D, f, nn, desc={})
    known = {n: v for n, v in P.enums.items() if n.startswith('HTTP_') and isinstance(v, int) and 100 <= v < 600}
    ctx.need(len(known) >= 15, 'status codes not found')
    dflt = d.desc.get(None)
    for n, v in sorted(known.items()):
        if d.desc.get(v) in (None, '') or d.desc.get(v) == dflt:
            ctx.violation('status %s (%d) has no reason phrase of its own' % (n, v), where=f.src)
    vals = [d.desc[v] for v in set(known.values()) if d.desc.get(v)]
    for x in {x for x in vals if vals.count(x) > 1}:
        ctx.violation('reason phrase %r is used for several statuses' % x, where=f.src)
    ctx.cover(outcomes=len(mp), process_exits=p.exits, error_page_exits=ex, reason_phrases=len(known), states=p.nstates)


# ------------------------------------------------------------------ keep alive decision
class KaSim(FlagSim):
    flagl = (QF,)

    def after_call(s, st, i, args, ret):
        c = i.callee
        if c in ('onion_request_get_header', 'onion_dict_get') and (s.prog.cstr(i.ops[1]) or '').lower() == 'connection':
            s.rec(st, ('conn', i.id), (), (ret,))
        elif c in ('strcasecmp', 'strcmp', 'strncasecmp'):
            a, b = s.prog.cstr(i.ops[0]), s.prog.cstr(i.ops[1])
            lit = a if a is not None else b
            other = args[1] if a is not None else args[0]
            if lit is not None:
                s.rec(st, ('cmp', i.id), (lit.lower(), c == 'strcasecmp'), (ret, other))

    def on_branch(s, st, i, term, truth):
        s._scan(st)
        for k, p, t in s.recs(st, 'conn'):
            if s.is_zero(st, t[0]):
                s.ev(st, 'absent')
        for k, p, t in s.recs(st, 'cmp'):
            if not any(t2[0] == t[1] for _, _, t2 in s.recs(st, 'conn')):
                continue
            if not p[1]:
                continue
            if s.is_zero(st, t[0]):
                s.ev(st, 'is ' + p[0])
            elif s.nonzero(st, t[0]):
                s.ev(st, 'not ' + p[0])

    def on_ret(s, st, i, val):
        s.exits += 1
        s.on_branch(st, i, None, None)
        outs = []
        for want in (True, False):
            n = st.copy()
            if val[0] == 'c':
                if bool(val[1]) == want:
                    outs.append((n, want))
            elif s.assume_b(n, val, want):
                s.on_branch(n, i, None, None); outs.append((n, want))
        for n, keep in outs:
            if not keep:
                continue
            s.keeps += 1
            if not s.zero(n, QF, s.NOKA):
                s.report(('noka', i.loc()), 'keep alive may be granted at %s although the application disabled it for this request' % i.where(), n, i)
            if s.isset(n, QF, s.H11):
                if not (s.has(n, 'absent') or s.has(n, 'not close')):
                    s.report(('close', i.loc()), 'keep alive may be granted at %s to an HTTP/1.1 client that asked to close' % i.where(), n, i)
            elif s.zero(n, QF, s.H11):
                if not s.has(n, 'is keep-alive'):
                    s.report(('ka10', i.loc()), 'keep alive may be granted at %s to an HTTP/1.0 client that did not ask for it' % i.where(), n, i)
            else:
                s.report(('ver', i.loc()), 'keep alive may be granted at %s without looking at the protocol version' % i.where(), n, i)


def run_keepalive(ctx):
    P = ctx.prog; nn = infer_nonnull(P)
    k = sim(ctx, KaSim, P.f('onion_request_keep_alive'), nn, NOKA=P.enum('OR_NO_KEEP_ALIVE'), keeps=0)
    ctx.need(k.keeps, 'keep alive is never granted')
    fr = sim(ctx, FreeSim, P.f('onion_response_free'), nn, keeps=0)
    ctx.need(fr.keeps, 'response end not found')
    ctx.cover(decision_exits=k.exits, end_exits=fr.exits, states=k.nstates + fr.nstates)
