"""H05: the websocket handshake.  H06: websocket frames are read and written with the lengths they announce."""
import re
from gates import *
from routing import strip, bit

W = 'onion_websocket_t'
GUID = '258EAFA5-E914-47DA-95CA-C5AB0DC85B11'
SETTERS = {'onion_response_set_code', 'onion_response_set_header', 'onion_response_write_headers', 'onion_response_write', 'onion_response_write0', 'onion_response_printf'}


class ShakeSim(RecSim):
    memo = RecSim.memo - {'onion_request_get_header'}

    def hdr(s, st, v):
        """which request header a value is."""
        for k, p, t in s.recs(st, 'hdr'):
            if t[0] == v:
                return p[0]
        return None

    def on_call(s, st, i, args):
        c = i.callee
        if c in SETTERS and args and args[0] == ('arg', 1):
            s.rec(st, ('touched',))
            s.sites.add(i.id)
            if not s.accepted(st):
                s.report(('pre', i.loc()), 'the response is changed at %s although the request may not be a valid websocket upgrade' % i.where(), st, i)
            if c == 'onion_response_set_code':
                s.rec(st, ('code',), (), (args[1],))
            elif c == 'onion_response_set_header':
                n = s.prog.cstr(i.ops[1])
                if ('sent',) in st.ts:
                    s.report(('late', i.loc()), 'a handshake header is set at %s after the headers were sent' % i.where(), st, i)
                s.rec(st, ('set', (n or '?').lower()), (s.prog.cstr(i.ops[2]),), (args[2],))
                if (n or '').lower() == 'sec-websocket-accept':
                    s.accept_ok(st, i, args[2])
            elif c == 'onion_response_write_headers':
                s.need_hdrs(st, i)
                s.rec(st, ('sent',))
        if c in ('onion_response_flush', 'onion_response_write') and args and args[0] == ('arg', 1) and ('sent',) in st.ts:
            if c == 'onion_response_flush' or s.is_zero(st, args[2]):
                s.rec(st, ('flushed',))
        return None

    def need_hdrs(s, st, i):
        code = s.recs(st, 'code')
        if not code or code[0][2][0] != C(s.CODE):
            s.report(('code', i.loc()), 'the handshake is sent at %s with another status than switching protocols' % i.where(), st, i)
        up = st.ts.get(('set', 'upgrade'))
        if up is None or (up[0][0] or '').lower() != 'websocket':
            s.report(('up', i.loc()), 'the handshake is sent at %s without announcing the upgrade' % i.where(), st, i)
        if ('set', 'sec-websocket-accept') not in st.ts:
            s.report(('noacc', i.loc()), 'the handshake is sent at %s without the accept key' % i.where(), st, i)

    def accept_ok(s, st, i, v):
        b = [(p, t) for k, p, t in s.recs(st, 'b64') if t[0] == v]
        if not b:
            s.report(('acc', i.loc()), 'the accept key set at %s is not the encoded digest' % i.where(), st, i)
            return
        if ('nlcut',) not in st.ts:
            pass

    def after_call(s, st, i, args, ret):
        c = i.callee
        if c == 'onion_request_get_header' and args[0] == ('arg', 0):
            n = s.prog.cstr(i.ops[1])
            if n:
                s.rec(st, ('hdr', n.lower()), (n.lower(),), (ret,))
        elif c in ('strcasecmp', 'strcmp'):
            for a, o in ((0, 1), (1, 0)):
                if s.hdr(st, args[a]) == 'upgrade' and (s.prog.cstr(i.ops[o]) or '').lower() == 'websocket':
                    s.rec(st, ('upcmp',), (), (ret,))
        elif c in ('atoi', 'strtol', 'atol'):
            if s.hdr(st, args[0]) == 'sec-websocket-version':
                s.rec(st, ('ver',), (), (ret,))
        elif c == 'strlen' and s.hdr(st, args[0]) == 'sec-websocket-key':
            s.rec(st, ('klen',), (), (ret,))
        elif c in ('strcpy', 'stpcpy') and s.hdr(st, args[1]) == 'sec-websocket-key':
            s.rec(st, ('cpy',), (), (args[0],))
        elif c == 'strcat':
            x = s.recs(st, 'cpy')
            g = s.prog.cstr(i.ops[1]) or s.gstr(st, args[1], i.ops[1])
            if x and x[0][2][0] == args[0] and g == GUID:
                s.rec(st, ('cat',), (), (args[0],))
        elif c in ('memcpy', 'sprintf', 'snprintf', 'onion_low_strdup', 'asprintf', 'strncpy', 'strncat', 'stpcpy') or (c or '').startswith('llvm.memcpy'):
            s.rec(st, ('opaque',))
        elif c == 'onion_sha1':
            x = s.recs(st, 'cat')
            n = s.recs(st, 'klen')
            good = None
            if x and x[0][2][0] == args[0]:
                e = strip(args[1])
                good = bool(n) and plus(e, strip(n[0][2][0])) == 36
            elif not s.recs(st, 'opaque'):
                good = False
            if good is False:
                s.report(('sha', i.loc()), 'the digest computed at %s is not taken over the whole client key followed by the protocol constant' % i.where(), st, i)
            s.rec(st, ('sha',), (), (args[2],))
        elif c == 'onion_base64_encode':
            x = s.recs(st, 'sha')
            if x and x[0][2][0] == args[0]:
                if args[1] != C(20):
                    s.report(('b64', i.loc()), 'the accept key made at %s does not encode the whole digest' % i.where(), st, i)
                s.rec(st, ('b64',), (), (ret,))

    def gstr(s, st, v, op):
        """the protocol constant through a char * global."""
        j = s.fn.inst.get(op[1]) if op[0] == 'v' else None
        if j is not None and j.op == 'load' and j.ops[0][0] == 'g':
            init = s.prog.globals.get(j.ops[0][1], {}).get('init')
            if init:
                return s.prog.cstr(tuple(init)) if init[0] == 'g' else None
        return None

    def accepted(s, st):
        h = {p[0]: t[0] for k, p, t in s.recs(st, 'hdr')}
        up = s.recs(st, 'upcmp'); ver = s.recs(st, 'ver')
        return ('upgrade' in h and s.nonzero(st, h['upgrade']) and up and s.is_zero(st, up[0][2][0])
                and 'sec-websocket-key' in h and s.nonzero(st, h['sec-websocket-key'])
                and ver and s.decide_icmp(st, 'eq', ver[0][2][0], C(13)) is True)

    def on_ret(s, st, i, val):
        s.exits += 1
        if s.is_zero(st, val):
            if ('touched',) in st.ts:
                s.report(('half', i.loc()), 'no websocket is returned at %s although the response was already changed' % i.where(), st, i)
            return
        a = gep(('arg', 0), s.wsoff)
        c = st.mem.get(a)
        if c and c[0] == val and root(val)[0] != 'call':
            return          # the websocket the request already has
        if not s.accepted(st):
            s.report(('gate', i.loc()), 'a websocket is returned at %s although the request may not be a valid upgrade (header, key, version 13)' % i.where(), st, i)
        if ('sent',) in st.ts and ('flushed',) not in st.ts:
            s.report(('noflush', i.loc()), 'a websocket is returned at %s while the handshake may still be waiting in the response buffer' % i.where(), st, i)
        if ('sent',) not in st.ts:
            s.report(('nosend', i.loc()), 'a websocket is returned at %s before the handshake was sent' % i.where(), st, i)
        if not c or c[0] != val:
            s.report(('att', i.loc()), 'the websocket returned at %s is not attached to the request' % i.where(), st, i)
        for f, want in (('callback', 0), ('data_left', 0), ('flags', 0), ('req', ('arg', 0))):
            x = st.mem.get(gep(val, s.prog.field(W, f)['o']))
            if x is None or (x[0] != want if want else not s.is_zero(st, x[0])):
                s.report(('init', f), 'the websocket returned at %s does not start with %s' % (i.where(), 'its request' if want else 'no ' + f), st, i)


def plus(e, n):
    """e = n + k -> k"""
    if e == n:
        return 0
    if e[0] == 'bin' and e[1] == 'add':
        for a, b in ((e[2], e[3]), (e[3], e[2])):
            if is_c(b):
                r = plus(strip(a), n)
                if r is not None:
                    return r + b[1]
    return None


def run_shake(ctx):
    P = ctx.prog; nn = infer_nonnull(P)
    s = ShakeSim(P, P.f('onion_websocket_new')); s.nonnull = nn; s.sites = set(); s.exits = 0
    s.CODE = P.enum('HTTP_SWITCH_PROTOCOL'); s.wsoff = P.field('onion_request_t', 'websocket')['o']
    if s.CODE != 101:
        ctx.violation('the switching protocols status is %d' % s.CODE, where='response.h')
    s.run()
    for v in s.viol.values():
        ctx.violation(v)
    ctx.need(len(s.sites) >= 3 and s.exits, 'onion_websocket_new sends no handshake')
    ctx.cover(response_calls=len(s.sites), exits=s.exits, states=s.nstates)


# ------------------------------------------------------------------ frames
def ev(t, env):
    """evaluate a term under env (atom -> int); None when something is unknown."""
    if t in env:
        return env[t]
    if is_c(t):
        return t[1]
    if t[0] == 'bin':
        a, b = ev(t[2], env), ev(t[3], env)
        if a is None or b is None:
            return None
        bits = t[4] if len(t) > 4 and t[4] else 64
        m = (1 << bits) - 1
        try:
            r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: (a & m) & (b & m), 'or': lambda: (a & m) | (b & m), 'xor': lambda: (a & m) ^ (b & m),
                 'shl': lambda: a << b if 0 <= b < 64 else 0, 'lshr': lambda: (a & m) >> b, 'ashr': lambda: a >> b}[t[1]]()
        except (KeyError, ValueError):
            return None
        r &= m
        return r - (1 << bits) if r >> (bits - 1) and bits > 1 else r
    if t[0] in ('zx', 'sx'):
        a = ev(t[1], env)
        if a is None:
            return None
        m = (1 << t[2]) - 1
        a &= m
        if t[0] == 'sx' and a >> (t[2] - 1):
            a -= 1 << t[2]
        return a
    if t[0] == 'tr':
        a = ev(t[1], env)
        if a is None:
            return None
        m = (1 << t[2]) - 1
        a &= m
        return a - (1 << t[2]) if a >> (t[2] - 1) and t[2] > 1 else a
    return None


class FrameSim(RecSim):
    """reader side: header layout, payload bounded by what is left of the frame, masking."""
    limit = 48

    def ind(s, st, i):
        """'read'/'write' for calls through the listen point's reader/writer."""
        v = s.val(st, i.calleev)
        for a, (x, l) in st.mem.items():
            if x == v and l and l[0] == 'onion_listen_point_t':
                return l[1]
        j = s.fn.inst.get(i.calleev[1]) if i.calleev[0] == 'v' else None
        if j is not None and j.op == 'load':
            l = s.fn.label(j.ops[0])
            if l and l[0] == 'onion_listen_point_t':
                return l[1]
        if j is not None and j.op == 'phi':
            return None
        return None

    def dl(s, st):
        c = st.mem.get(gep(('arg', 0), s.o['data_left']))
        return c[0] if c else None

    def on_load(s, st, i, addr, val):
        r = root(addr)
        if r == ('arg', 0) and addr[0] == 'p' and s.o['mask'] <= addr[2] < s.o['mask'] + 4 and i.ty == 'i8':
            t = strip(addr[3][0][0]) if len(addr[3]) == 1 and addr[3][0][1] == 1 else None
            good = t is not None and t[0] == 'bin' and (t[1] == 'and' and C(3) in t[2:4] or t[1] in ('urem', 'srem') and t[3] == C(4))
            if s.payload:
                if ('mask',) in st.ts and ('mp0',) not in st.ts:
                    s.report(('mpr', i.loc()), 'a new mask is applied at %s without starting at its first byte' % i.where(), st, i)
                n = st.ts.get(('mln',))
                if n is not None:
                    if not addr[3] and n[0][0] < 4 and addr[2] - s.o['mask'] != n[0][0]:
                        s.report(('mpo', i.loc()), 'byte %d of the payload is unmasked at %s with mask byte %d' % (n[0][0], i.where(), addr[2] - s.o['mask']), st, i)
                    s.rec(st, ('mln',), (min(4, n[0][0] + 1),))
            s.rec(st, ('mload', i.id), (int(good or not addr[3]),), (val,))
        if r[0] == 'al' and i.ty == 'i8':
            # a byte of a header buffer
            off = 0 if addr == r else addr[2]
            vs = () if addr == r else addr[3]
            s.rec(st, ('byte', i.id), (off, tuple(m for _, m in vs)), (val, r) + tuple(x for x, _ in vs))

    def done(s, st, i):
        """every fixed-size header read must have been complete."""
        for k, p, t in s.recs(st, 'rd'):
            if s.decide_icmp(st, 'eq', t[0], C(p[0])) is not True and s.decide_icmp(st, 'eq', ('tr', t[0], 32), C(p[0])) is not True:
                s.report(('short', k[1]), 'a websocket header is used at %s although fewer bytes than its %d may have arrived' % (i.where(), p[0]), st, i)

    def len_known(s, st, i):
        """length field complete: 126 and 127 must have been replaced by the extended length."""
        l7 = s.recs(st, 'l7')
        if not l7 or ('ext',) in st.ts:
            return
        v = l7[0][2][0]
        for n in (126, 127):
            if s.decide_icmp(st, 'eq', v, C(n)) is not False:
                s.report(('ext', n, i.loc()), 'a frame of announced length %d is taken at %s without reading its extended length' % (n, i.where()), st, i)

    def on_call(s, st, i, args):
        c = i.callee
        if c is None:
            k = s.ind(st, i)
            if k == 'read':
                s.reads += 1
                b, n = args[1], args[2]
                if root(b) == ('arg', 1) and s.payload:
                    s.payload_read(st, i, b, n)
                elif is_c(n):
                    if root(b)[0] == 'al' and n[1] == 2 and not s.recs(st, 'rd') and not s.recs(st, 'l7'):
                        s.rec(st, ('stage',), ('h',))
                        s.rec(st, ('buf', 'h'), (n[1],), (root(b),))
                    elif b == gep(('arg', 0), s.o['mask']):
                        s.len_known(st, i)
                        s.done(st, i)
                        if n[1] != 4:
                            s.report(('masklen', i.loc()), 'the mask read at %s is not 4 bytes' % i.where(), st, i)
                        fl = s.recs(st, 'mflag')
                        s.rec(st, ('mask',))
                    elif root(b)[0] == 'al' and ('ext',) not in st.ts and s.recs(st, 'l7') and n[1] in (2, 8) and \
                            any(s.decide_icmp(st, 'eq', s.recs(st, 'l7')[0][2][0], C(x)) is not False for x in (126, 127)):
                        v = s.recs(st, 'l7')[0][2][0]
                        want = {2: 126, 8: 127}[n[1]]
                        op = s.opclose(st)
                        if not op:
                            if s.decide_icmp(st, 'eq', v, C(want)) is not True:
                                s.report(('extlen', i.loc()), 'an extended length of %d bytes is read at %s although the frame may announce another form' % (n[1], i.where()), st, i)
                            s.done(st, i)
                            s.rec(st, ('ext',), (n[1],), (root(b),))
                    s.pend = n[1]
            elif k != 'write' and not s.payload:
                # the callback: the header must be complete, and what follows starts afresh
                s.done(st, i); s.len_known(st, i)
                for k in list(st.ts):
                    if k[0] in ('rd', 'l7', 'ext', 'byte', 'mload', 'mask', 'buf', 'stage', 'mp0', 'mpinc'):
                        del st.ts[k]
        elif c in ('onion_websocket_read',) and args and args[0] == ('arg', 0):
            s.done(st, i); s.len_known(st, i)
            if s.payload and args[1] == ('arg', 1) and ('subbed',) in st.ts and not s.is_zero(st, st.ts[('payl',)][1][1]):
                s.report(('again', i.loc()), 'the rest of the message is read at %s over the part already received' % i.where(), st, i)
        return None

    def opclose(s, st):
        return ('mask',) in st.ts or ('closing',) in st.ts

    def payload_read(s, st, i, b, n):
        d = s.dl(st)
        s.pay += 1
        n0 = n
        if d is None:
            s.report(('nodl', i.loc()), 'payload is read at %s without knowing how much of the frame is left' % i.where(), st, i)
            return
        if not leq(s, st, n0, d):
            s.report(('over', i.loc()), 'the payload read at %s may go past the end of the frame' % i.where(), st, i)
        if n0 != ('arg', 2) and not leq(s, st, n0, ('arg', 2)):
            s.report(('cap', i.loc()), 'the payload read at %s may be larger than the buffer given' % i.where(), st, i)
        if b != ('arg', 1):
            s.report(('buf', i.loc()), 'the payload read at %s does not start at the beginning of the buffer' % i.where(), st, i)
        s.rec(st, ('payl',), (), (d, C(0)))
        st.ts.pop(('mpst',), None)
        s.pend = 'pay'

    def after_call(s, st, i, args, ret):
        if i.callee is None and s.pend is not None:
            if s.pend == 'pay':
                x = st.ts[('payl',)]
                s.rec(st, ('payl',), (), (x[1][0], ret))
            else:
                s.rec(st, ('rd', i.id), (s.pend,), (ret,))
            s.pend = None

    def on_store(s, st, i, addr, val):
        if root(addr) == ('arg', 1) and s.payload and i.d.get('sz') == 1:
            s.unmask(st, i, addr, val)
        if addr[0] != 'p' or root(addr) != ('arg', 0):
            return
        off = addr[2]
        if addr[3]:
            return
        if off == s.o['data_left']:
            s.dlstores += 1
            self_dl = s.dl(st)
            p = st.ts.get(('payl',))
            if p is not None:
                a, r = p[1]
                if not minus(val, a, r):
                    s.report(('sub', i.loc()), 'what is left of the frame is not reduced at %s by exactly what was read' % i.where(), st, i)
                else:
                    s.rec(st, ('subbed',))
                return
            s.header_len(st, i, val)
        elif off == s.o['mask_pos']:
            s.rec(st, ('mpst',))
            old = st.mem.get(addr)
            v = strip(val)
            if s.is_zero(st, val):
                if s.payload and st.ts.get(('payl',)) is not None:
                    s.report(('mp0', i.loc()), 'the position in the mask is reset at %s in the middle of a frame' % i.where(), st, i)
                s.rec(st, ('mp0',))
                s.rec(st, ('mln',), (0,))
            else:
                b = strip(old[0]) if old else None
                n = None
                if b is not None:
                    n = plus(v, b)
                    if n is None and is_c(v) and is_c(b):
                        n = v[1] - b[1]
                    if n is None and v[0] == b[0] == 'bin' and v[1] == b[1] == 'add' and v[2] == b[2] and is_c(v[3]) and is_c(b[3]):
                        n = v[3][1] - b[3][1]
                if n is not None and n != 1:
                    s.report(('mp', i.loc()), 'the position in the mask is not moved on by one at %s' % i.where(), st, i)
                s.rec(st, ('mpinc',))

    def header_len(s, st, i, val):
        if s.is_zero(st, val):
            return
        bys = s.recs(st, 'byte')
        ats = atomset(val)
        used = [(p, t) for k, p, t in bys if t[0] in ats]
        if not used:
            return
        s.done(st, i)
        ext = st.ts.get(('ext',))
        if ext is None:
            # 7 bit length: second byte without its top bit
            for b in (0, 1, 5, 125, 126, 127, 128, 200, 255):
                env = {t[0]: (b if b < 128 else b - 256) if p[0] == 1 else 0x5a for p, t in used}
                e = ev(val, env)
                if e is None:
                    return
                if e != (b & 0x7f):
                    s.report(('l7', i.loc()), 'the length taken at %s from the second header byte %d is %d' % (i.where(), b, e), st, i)
                    return
            s.rec(st, ('l7',), (), (val,))
            return
        if ext[0][0] == 2:
            for b0, b1 in ((0, 126), (1, 0), (255, 255), (128, 3), (127, 254), (18, 52)):
                env = {}
                for p, t in used:
                    x = b0 if p[0] == 0 else b1
                    env[t[0]] = x if x < 128 else x - 256
                e = ev(val, env)
                if e is None:
                    return
                if e != b0 * 256 + b1:
                    s.report(('l16', i.loc()), 'the length taken at %s from the extended bytes %d %d is %d' % (i.where(), b0, b1, e), st, i)
                    return
            s.len16 = True
        else:
            # accumulated byte by byte in a loop: old + (byte i << 8 * (7 - i))
            d = s.dl(st)
            if d is None or len(used) != 1 or len(used[0][1]) != 3 or used[0][0][1] != (1,):
                return
            p, t = used[0]; idx = t[2]
            for k in range(8):
                for b in (1, 0x7f, 0x80, 0xff):
                    for old in (0, 7):
                        env = {t[0]: b if b < 128 else b - 256, idx: k - p[0], strip(idx): k - p[0]}
                        if not is_c(d):
                            env[d] = old
                        elif old != d[1]:
                            continue
                        e = ev(val, env)
                        if e is None:
                            return
                        exp = [old + (b << (8 * (7 - k))), (old << 8) + b]
                        M = (1 << 64) - 1
                        if e & M not in [x & M for x in exp]:
                            s.report(('l64', i.loc()), 'byte %d of the 64 bit length is given the wrong weight at %s' % (k, i.where()), st, i)
                            return
            s.len64 = True

    def unmask(s, st, i, addr, val):
        v = strip(val)
        s.unm += 1
        mp = gep(('arg', 0), s.o['mask'])
        ok = False
        def parts(x):
            x = strip(x)
            return parts(x[2]) + parts(x[3]) if x[0] == 'bin' and x[1] == 'xor' else [x]
        ps = parts(v)
        if len(ps) != 2:
            return
        src = False
        for k, p, q in s.recs(st, 'mload'):
            if strip(q[0]) in ps:
                src = True
                ok |= p[0] == 1
        for a, (x, l) in st.mem.items():
            if root(a) == ('arg', 0) and a[0] == 'p' and a[2] == s.o['mask'] and a[3] and strip(x) in ps:
                t, m = a[3][0]
                t = strip(t)
                if m == 1 and t[0] == 'bin' and t[1] == 'and' and C(3) in t[2:4] or m == 1 and t[0] == 'bin' and t[1] in ('urem', 'srem') and t[3] == C(4):
                    ok = True
        s.rec(st, ('unm',))
        if not ok:
            s.report(('xor', i.loc()), 'the byte stored at %s is not unmasked with the mask byte of its position' % i.where(), st, i)
        fl = st.mem.get(gep(('arg', 0), s.o['flags']))
        if fl is not None and len(ps) == 2 and bit(s, st, fl[0], s.MASK) == 0:
            s.report(('nomask', i.loc()), 'the byte stored at %s is unmasked although the frame is not masked' % i.where(), st, i)

    def on_ret(s, st, i, val):
        s.exits += 1
        p = st.ts.get(('payl',))
        neg = s.interval(st, val)[1] < 0
        if p is not None and ('unm',) in st.ts and ('mpst',) not in st.ts:
            s.report(('mpk', i.loc()), 'returns at %s after unmasking a part of the payload without keeping the position in the mask for the next part' % i.where(), st, i)
        if p is not None and not neg:
            r = p[1][1]
            if s.interval(st, r)[0] >= 0 and ('subbed',) not in st.ts and not s.is_zero(st, r):
                s.report(('nosub', i.loc()), 'returns at %s without reducing what is left of the frame' % i.where(), st, i)
            if s.interval(st, r)[0] > 0 or not s.is_zero(st, r):
                fl = st.mem.get(gep(('arg', 0), s.o['flags']))
                if s.interval(st, r)[0] > 0 and fl is not None and bit(s, st, fl[0], s.MASK) == s.MASK and not s.recs(st, 'mpinc'):
                    s.report(('plain', i.loc()), 'masked payload may be returned at %s as it was received' % i.where(), st, i)
        if not neg and p is None:
            s.done(st, i); s.len_known(st, i)


def leq(s, st, a, b):
    if strip(a) == strip(b):
        return True
    for x in {a, strip(a)}:
        for y in {b, strip(b)}:
            if leq1(s, st, x, y):
                return True
    return False


def leq1(s, st, a, b):
    if s.decide_icmp(st, 'ult', b, a) is False or s.decide_icmp(st, 'slt', b, a) is False:
        return True
    if s.decide_icmp(st, 'ult', a, b) is True or s.decide_icmp(st, 'slt', a, b) is True:
        return True
    ia, ib = s.interval(st, a), s.interval(st, b)
    return 0 <= ia[0] and ia[1] <= ib[0]


def minus(v, a, r):
    v = strip(v); a = strip(a); r = strip(r)
    if is_c(r) and r[1] == 0 and v == a:
        return True
    if v[0] == 'bin' and v[1] == 'sub' and strip(v[2]) == a and strip(v[3]) == r:
        return True
    if is_c(r) and v[0] == 'bin' and v[1] == 'add' and strip(v[2]) == a and v[3] == C(-r[1]):
        return True
    if v[0] == 'bin' and v[1] == 'add':
        for x, y in ((v[2], v[3]), (v[3], v[2])):
            y = strip(y)
            if strip(x) == a and y[0] == 'bin' and y[1] == 'sub' and y[2] == C(0) and strip(y[3]) == r:
                return True
    return False


class SendSim(FrameSim):
    """writer side: the header announces the length of the payload, in the shortest form."""
    payload = False; writer = True

    def on_store(s, st, i, addr, val): pass
    def on_load(s, st, i, addr, val): pass
    def after_call(s, st, i, args, ret): pass

    def on_call(s, st, i, args):
        if i.callee is not None or s.ind(st, i) != 'write' and not s.is_writer(st, i):
            return None
        b = args[1]; r = root(b)
        if ('hdr',) not in st.ts:
            s.rec(st, ('hdr',))
            if r[0] == 'al' and is_c(args[2]):
                s.header(st, i, r, args[2][1])
            return None
        return None

    def is_writer(s, st, i):
        return len(i.ops) == 3

    def header(s, st, i, buf, n):
        s.hdrs += 1
        L = ('arg', 2)
        lo, hi = s.interval(st, L)
        def cell(k):
            c = st.mem.get(gep(buf, k))
            return c[0] if c else None
        c0 = cell(0); c1 = cell(1)
        if c0 is None or c1 is None:
            return
        oc = st.mem.get(gep(('arg', 0), s.o['opcode']))
        def chk(cond, key, msg):
            if not cond:
                s.report((key, i.loc()), msg % i.where(), st, i)
        at = [a for a in atomset(c0) if not is_c(a)]
        if len(at) == 1:
            for x in range(16):
                e = ev(c0, {at[0]: x})
                if e is not None:
                    chk(e & 0xff == 0x80 | x, 'op', 'the first header byte sent at %s is not a final frame of the chosen type')
        # lengths that can reach this form, by sampling the interval the path allows
        form = None
        e1 = ev(c1, {L: 5})
        cst = is_c(c1)
        def reach(x):
            """can the payload length be x on this path?"""
            f = st.copy()
            return s.assume_cmp(f, 'eq', L, x) is not False and s.consistent(f, L, x)
        if n == 2:
            for x in (0, 1, 125):
                e = ev(c1, {L: x})
                if e is not None:
                    chk(e & 0xff == x, 'l7', 'the length byte sent at %s is not the length of the payload, unmasked')
            for x in (126, 127, 200, 65536):
                chk(not reach(x), 'l7r', 'a payload of 126 bytes or more may be announced at %s in a single byte')
        elif n == 4:
            e = ev(c1, {L: 300})
            chk(e is None or e & 0xff == 126, 'l16', 'the extended length sent at %s is not announced as one')
            for x in (0, 125):
                chk(not reach(x), 'l16s', 'the length sent at %s does not use its shortest form')
            for x in (65536, 70000, 1 << 32):
                chk(not reach(x), 'l16r', 'a payload of 65536 bytes or more may be announced at %s in two bytes')
            c2, c3 = cell(2), cell(3)
            if c2 is not None and c3 is not None:
                for x in (126, 300, 0xff00, 0x1234):
                    a, b = ev(c2, {L: x}), ev(c3, {L: x})
                    if a is not None and b is not None:
                        chk((a & 0xff) * 256 + (b & 0xff) == x, 'l16b', 'the two length bytes sent at %s are not the length of the payload')
        elif n == 10:
            e = ev(c1, {L: 1 << 20})
            chk(e is None or e & 0xff == 127, 'l64', 'the 64 bit length sent at %s is not announced as one')
            for k in range(2, 10):
                c = cell(k)
                for x in (65536, 0x123456, 0x7fedcba987654321 if k < 6 else 0x7edcba):
                    e = ev(c, {L: x}) if c is not None else None
                    if e is not None:
                        chk(e & 0xff == x >> (8 * (9 - k)) & 0xff, 'l64b', 'the eight length bytes sent at %s are not the length of the payload')
            for x in (0, 125, 126, 65535):
                chk(not reach(x), 'l64s', 'the length sent at %s does not use its shortest form')
        else:
            chk(False, 'hlen', 'the frame header sent at %s has a wrong size')

    def consistent(s, st, L, x):
        for f, (lo, hi, ne) in list(st.facts.items()):
            e = ev(f, {L: x}) if f[0] != 'icmp' else None
            if f[0] == 'icmp':
                a, b = ev(f[2], {L: x}), ev(f[3], {L: x})
                if a is None or b is None:
                    continue
                if f[1] == 'ult':
                    a &= (1 << 64) - 1; b &= (1 << 64) - 1
                e = int({'eq': a == b, 'slt': a < b, 'ult': a < b}[f[1]])
            if e is not None and (e < lo or e > hi or e in ne):
                return False
        return True

    def on_ret(s, st, i, val):
        s.exits += 1


def run_frames(ctx):
    P = ctx.prog; nn = infer_nonnull(P)
    o = {f['n']: f['o'] for f in P.struct(W)['fields']}
    cov = {}
    for name, cls, payload in (('onion_websocket_read', FrameSim, True), ('onion_websocket_call', FrameSim, False), ('onion_websocket_write', SendSim, False)):
        s = cls(P, P.f(name)); s.nonnull = nn; s.o = o; s.payload = payload; s.writer = cls is SendSim
        s.exits = s.reads = s.pay = s.dlstores = s.unm = s.hdrs = 0; s.pend = None; s.len16 = s.len64 = False
        s.MASK = P.enum('WS_MASK')
        s.run()
        for v in s.viol.values():
            ctx.violation(v)
        cov[name] = dict(exits=s.exits, reads=s.reads, payload_reads=s.pay, length_updates=s.dlstores, unmasked_stores=s.unm, headers_sent=s.hdrs, len16=s.len16, len64=s.len64, states=s.nstates)
    ctx.need(cov['onion_websocket_read']['payload_reads'] and cov['onion_websocket_call']['reads'] and cov['onion_websocket_write']['headers_sent'], 'websocket reads or writes not recognised: %s' % cov)
    ctx.cover(functions=cov)
