"""H09: no optional value is dereferenced without a check (path-sensitive nullness)."""
from common import *
from par import pmap, fweight

# calls whose result is NULL for some input the client / environment controls
MAYNULL = set('''onion_dict_get onion_dict_get_dict onion_dict_rget onion_dict_rget_dict onion_request_get_header onion_request_get_query
onion_request_get_post onion_request_get_file onion_request_get_cookie onion_request_get_data onion_request_get_queryd_none
onion_request_get_header_dict_none onion_request_get_post_dict onion_request_get_file_dict onion_base64_decode_none
onion_request_get_session_dict onion_dict_from_json onion_sessions_get onion_poller_get onion_poller_slot_new onion_get_listen_point
onion_websocket_new onion_sessions_mem_get
strstr strchr strrchr memchr realpath opendir fopen fdopen getenv getpwuid getpwnam readdir strtok strtok_r
xmlParseMemory xmlDocGetRootElement xmlBufferCreate xmlNewTextWriterMemory sqlite3_column_text redisConnect redisCommand
malloc calloc realloc strdup strndup dlsym gmtime_r_none localtime_r_none gmtime localtime onion_https_new onion_http_new_none'''.split())
# pointer members that are legitimately NULL for some history of the object
MAYNULL_FIELDS = {('onion_request_t', x) for x in ('session', 'session_id', 'cookies', 'websocket', 'connection.cli_info', 'free_list')} | \
    {('_xmlNode', x) for x in ('children', 'content', 'next')} | {('xmlNode', x) for x in ('children', 'content', 'next')} | {('onion_listen_point_t', x) for x in ('request_init', 'close', 'listen', 'listen_stop', 'free_user_data')} | \
    {('onion_t', x) for x in ('client_data_free',)} | {('onion_handler_t', x) for x in ('handler', 'priv_data_free', 'next')} | \
    {('onion_poller_slot_t', x) for x in ('shutdown', 'next')} | {('onion_dict_t', 'root')} | {('onion_websocket_t', x) for x in ('callback', 'free_user_data')}

# external functions that dereference the given argument positions
DEREF = {'strlen': (0,), 'strcmp': (0, 1), 'strncmp': (0, 1), 'strcasecmp': (0, 1), 'strncasecmp': (0, 1), 'strcpy': (0, 1), 'strncpy': (0, 1),
         'strcat': (0, 1), 'strncat': (0, 1), 'strstr': (0, 1), 'strchr': (0,), 'strrchr': (0,), 'memcpy': (0, 1), 'memmove': (0, 1), 'memcmp': (0, 1),
         'memset': (0,), 'strdup': (0,), 'strndup': (0,), 'atoi': (0,), 'atol': (0,), 'atoll': (0,), 'strtol': (0,), 'strtoul': (0,), 'strtoll': (0,),
         'fclose': (0,), 'closedir': (0,), 'readdir': (0,), 'sprintf': (0, 1), 'fprintf': (0, 1), 'fwrite': (0,), 'getc': (0,), 'unlink': (), 'open': (),
         'pthread_mutex_lock': (0,), 'pthread_rwlock_wrlock': (0,), 'pthread_rwlock_rdlock': (0,), 'pthread_mutex_unlock': (0,), 'pthread_rwlock_unlock': (0,), 'xmlTextWriterStartDocument': (0,), 'xmlTextWriterStartElement': (0,), 'freeReplyObject': (), 'redisFree': (), 'strftime': (3,), 'dirname': ()}


def P_len(P, c, k):
    a = P.funcs[c].args
    return k < len(a) and a[k]['ty'] in ('i64', 'i32') and a[k]['dty'] in ('size_t', 'ssize_t', 'int', 'unsigned int', 'unsigned long')


class NullSim(Sim):
    report_on = True
    max_states = 40000

    def on_start(s, st):
        pass

    def maybe(s, st, v):
        """pointer atom that may be NULL here and comes from an optional source."""
        r = root(v)
        base = r
        while base[0] == 'old':
            base = base[1]
        if base[0] == 'call':
            i = s.fn.inst.get(base[1])
            if i is None or i.callee not in s.maynull:
                return None
        elif base[0] == 'ld':
            i = s.fn.inst[base[1]]
            l = s.fn.label(i.ops[0])
            if l not in s.mayfields:
                return None
        elif base[0] == 'arg':
            i = None
        elif base == NULL:
            i = None
        else:
            return None
        if s.nonzero(st, r):
            return None
        return (base, i)

    def deref(s, st, i, v, how):
        if v[0] == 'c' and 0 <= v[1] < 4096:
            key = ('null', i.loc(), how)
            # constant null: an optional value known to be absent on this path
            if s.report_on:
                s.derefs.add((s.fn.name, i.id))
                s.report(key, 'NULL is dereferenced at %s (%s)' % (i.where(), how), st, i)
            return
        m = s.maybe(st, v)
        s.derefs.add((s.fn.name, i.id))
        if m is None:
            return
        base, src = m
        if base[0] == 'arg':
            s.needs.add(base[1])
            s.setfact(st, root(v), lo=1)
            return
        lo, hi = s.interval(st, root(v))
        s.report(('null', s.fn.name, src.id, i.loc()), 'possibly-NULL %s (from %s) is dereferenced at %s (%s) without a check' % (
            pp(s.fn, root(v)), src.where(), i.where(), how), st, i)
        s.setfact(st, root(v), lo=1)

    def on_load(s, st, i, addr, val):
        s.deref(st, i, addr, 'read')

    def on_store(s, st, i, addr, val):
        s.deref(st, i, addr, 'write')

    def on_call(s, st, i, args):
        c = i.callee
        if c is None:
            cv = s.val(st, i.calleev)
            s.deref(st, i, cv, 'call through pointer')
            return None
        if c.startswith('llvm.mem'):
            for k in ((0, 1) if 'cpy' in c or 'move' in c else (0,)):
                n = args[2]
                if s.interval(st, n)[1] != 0:
                    s.deref(st, i, args[k], 'memory copy')
            return None
        for k in DEREF.get(c, ()):
            if k < len(args):
                if c in ('memcpy', 'memmove', 'memset', 'memcmp') and len(args) > 2 and s.is_zero(st, args[2]):
                    continue
                s.deref(st, i, args[k], 'argument %d of %s' % (k + 1, c))
        for k in s.req.get(c, ()):
            if k < len(args):
                if k + 1 < len(args) and s.is_zero(st, args[k + 1]) and P_len(s.prog, c, k + 1):
                    continue        # an empty (pointer, length) pair
                s.deref(st, i, args[k], 'argument %d of %s, which dereferences it' % (k + 1, c))
        return None

    def after_call(s, st, i, args, ret):
        if ret is not None and i.callee in s.maynull and i.callee not in ('onion_poller_slot_new',):
            pass


def requires(P, maynull, fields, nn):
    """interprocedural fixpoint: which pointer parameters each function dereferences without a check."""
    req = {}
    todo = list(P.funcs)
    calls = {n: {i.callee for i in P.funcs[n].calls()} for n in P.funcs}
    P.mods(); P.const_fields(); P.reads()
    res = {}
    for rnd in range(8):
        def one(n):
            s = mk(P, P.funcs[n], maynull, fields, nn, req)
            s.run()
            return (frozenset(k for k in s.needs if P.funcs[n].args[k]['ty'] == 'ptr'), dict(s.viol), len(s.derefs), s.nstates)
        r = pmap(one, todo, fweight(P))
        res.update(r)
        changed = set()
        for n, x in r.items():
            new = x[0] | req.get(n, frozenset())
            if new != req.get(n, frozenset()):
                req[n] = new; changed.add(n)
        todo = [n for n in P.funcs if calls[n] & changed]
        if not todo:
            break
    return req, res


def mk(P, f, maynull, fields, nn, req):
    s = NullSim(P, f); s.nonnull = nn; s.maynull = maynull; s.mayfields = fields; s.req = req; s.needs = set(); s.derefs = set()
    return s


def run(ctx):
    P = ctx.prog
    nn = infer_nonnull(P)
    req, res = requires(P, MAYNULL, MAYNULL_FIELDS, nn)
    srcs = sum(1 for f in P.funcs.values() for i in f.calls() if i.callee in MAYNULL)
    for n in sorted(res):
        for v in res[n][1].values():
            ctx.violation(v)
    ctx.need(srcs >= 40, 'only %d optional sources found' % srcs)
    ctx.cover(functions=len(P.funcs), dereference_sites=sum(x[2] for x in res.values()), optional_sources=srcs, states=sum(x[3] for x in res.values()),
              functions_requiring_nonnull_arguments=len(req))
