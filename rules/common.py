import sys
from front import AnalysisBroken
from psim import Sim, State, C, NULL, is_c, gep, root, atomset, subst, Stop

# allocation wrappers abort the process on failure: their results are never NULL
NONNULL = set('''onion_low_malloc onion_low_calloc onion_low_realloc onion_low_scalar_malloc onion_low_strdup
onion_dict_new onion_block_new onion_ptr_list_new onion_new onion_request_new onion_request_new_from_socket onion_response_new
onion_handler_new onion_url_new onion_sessions_new onion_listen_point_new onion_http_new'''.split())


def infer_nonnull(prog):
    """functions all of whose returned pointers are results of non-null calls."""
    nn = set(x for x in ('onion_low_malloc', 'onion_low_calloc', 'onion_low_scalar_malloc', 'onion_low_strdup', 'onion_low_realloc') if x in prog.funcs or x in prog.decls)
    def nonnull(f, v, seen):
        if v[0] in ('g', 'f'):
            return True
        if v[0] != 'v' or v[1] in seen:
            return v[0] == 'v' and v[1] in seen
        seen = seen | {v[1]}
        i = f.inst.get(v[1])
        if i is None:
            return False
        if i.op == 'phi':
            return all(nonnull(f, o, seen) for o, _ in i.ops)
        if i.op in ('bitcast',):
            return nonnull(f, i.ops[0], seen)
        if 'callee' in i.d:
            return i.callee in nn
        return False
    ch = True
    while ch:
        ch = False
        for f in prog.funcs.values():
            if f.name in nn or f.ret != 'ptr':
                continue
            rets = [i for i in f.insts() if i.op == 'ret']
            if rets and all(nonnull(f, i.ops[0], frozenset()) for i in rets):
                nn.add(f.name); ch = True
    return nn


def pp(fn, v, prog=None):
    """readable rendering of a symbolic value."""
    k = v[0]
    if k == 'c':
        return str(v[1])
    if k == 'arg':
        return fn.args[v[1]]['name'] or 'arg%d' % v[1]
    if k == 'p':
        s = pp(fn, v[1])
        return '%s+%d%s' % (s, v[2], '+..' if v[3] else '')
    if k == 'g':
        return v[1]
    if k == 'fn':
        return v[1]
    if k == 'al':
        return 'local %s' % fn.inst[v[1]].d.get('name', '?').split('.addr')[0]
    if k in ('call', 'ld', 'ph', 'gp', 'bo', 'in', 'ic') and len(v) > 1 and v[1] in fn.inst:
        i = fn.inst[v[1]]
        if k == 'call':
            return '%s()@%s' % (i.callee or 'indirect call', i.line)
        if k == 'ld':
            l = fn.label(i.ops[0])
            return '%s@%s' % ('%s.%s' % l if l else '*ptr', i.line)
        return '%s@%s' % (k, i.line)
    if k == 'old':
        return 'previous ' + pp(fn, v[1])
    return repr(v)
