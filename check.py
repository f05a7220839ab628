#!/usr/bin/env python3
"""check.py <ID> [quick|thorough]: decide one property statically on /repo's current tree."""
import sys, os, json, time, hashlib, traceback, importlib
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, 'lib'), os.path.join(V, 'rules')]
sys.setrecursionlimit(10000)
import front
from front import AnalysisBroken
import registry


class Ctx:
    def __init__(s, pid):
        s.pid = pid; s.viol = []; s.coverage = {}; s._prog = None; s._cpp = None; s.assume = []
        s.tier = os.environ.get('VERIF_TIER', 'quick')

    @property
    def prog(s):
        if s._prog is None:
            from ir import Program
            c = os.environ.get('ONION_JSON')
            s._prog = Program(json.load(open(c)) if c else front.load('c'))
        return s._prog

    @property
    def cpp(s):
        if s._cpp is None:
            from ir import Program
            s._cpp = Program(front.load('cpp'))
        return s._cpp

    def violation(s, v, **kw):
        if isinstance(v, str):
            v = dict(msg=v, where=kw.get('where', ''), path=kw.get('path', []))
        v = dict(v)
        v.setdefault('key', v['msg'])
        s.viol.append(v)

    def count(s, k, n=1):
        s.coverage[k] = s.coverage.get(k, 0) + n

    def flag(s, fn, i, msg, path=()):
        s.violation(dict(msg='%s: %s' % (fn.name, msg), where='%s (%s)' % (i.loc(), fn.name) if i is not None else fn.name, path=list(path)))

    def need(s, cond, msg):
        if not cond:
            raise AnalysisBroken('anchor check failed: ' + msg)

    def cover(s, **kw):
        s.coverage.update(kw)


def known():
    p = os.path.join(V, 'known_findings.json')
    # entries that are text record repaired defects and suppress nothing
    return [k for k in json.load(open(p)) if isinstance(k, dict)] if os.path.exists(p) else []


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    ctx = Ctx(pid); ctx.tier = tier
    if tier == 'thorough':
        import psim; psim.Sim.scale = 2
    level, rules = registry.CHECKS[pid]
    broken = []
    for name in rules:
        modn, _, fn = name.partition(':')
        try:
            m = importlib.import_module(modn)
            getattr(m, fn or 'run')(ctx)
        except AnalysisBroken as e:
            broken.append('%s: %s' % (name, e))
        except Exception:
            broken.append('%s: %s' % (name, traceback.format_exc()))
    new = []; kn = []
    for v in ctx.viol:
        for k in known():
            if k.get('status') == 'open' and k['property'] == pid and all(x in (v['msg'] + ' @ ' + v.get('where', '')) for x in k['match']):
                kn.append((k, v)); break
        else:
            new.append(v)
    seen = set()
    for k, v in kn:
        if k['id'] not in seen:
            seen.add(k['id']); print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    uniq = {}
    for v in new:
        uniq.setdefault(v['msg'], v)
    new = list(uniq.values())
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=level,
              coverage=dict(ctx.coverage), wall_s=round(time.time() - t0, 2), violations=len(new),
              assumptions=ctx.assume)
    if ctx._prog is not None:
        ev['coverage'].setdefault('units', len(ctx._prog.units)); ev['coverage'].setdefault('program_functions', len(ctx._prog.funcs))
    ev['coverage']['explanation'] = 'Static analysis of the current sources of %d translation units: every control-flow path of the functions listed or counted here was covered by the rule(s) %s; nothing was executed.' % (
        len(ctx._prog.units) if ctx._prog is not None else 0, ', '.join(rules))
    if broken:
        ev['coverage']['analysis_broken'] = broken
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    if 'ONION_NOEVIDENCE' not in os.environ:
        json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    if new:
        os.makedirs(os.path.join(V, 'evidence', 'replay'), exist_ok=True)
        for v in new:
            h = hashlib.sha1(v['msg'].encode()).hexdigest()[:8]
            rp = os.path.join(V, 'evidence', 'replay', '%s-%s.txt' % (pid, h))
            with open(rp, 'w') as f:
                f.write('property %s\nrule violation: %s\nconstruct: %s\npath (branch decisions): %s\nre-run: python3 %s %s\n' % (
                    pid, v['msg'], v.get('where', ''), ' -> '.join(v.get('path', [])) or '(whole function)', os.path.abspath(__file__), pid))
            print('%s: %s [%s]' % (pid, v['msg'], v.get('where', '')))
            if v.get('path'):
                print('    path: ' + ' -> '.join(v['path']))
            print('VIOLATION property=%s replay=%s' % (pid, rp))
        for b in broken:
            print('note: part of the analysis failed: ' + b)
        return 1
    if broken:
        for b in broken:
            print('ANALYSIS-BROKEN property=%s %s' % (pid, b))
        return 3
    print('%s: holds; analysed %s' % (pid, json.dumps(ev['coverage'])[:600]))
    return 0


if __name__ == '__main__':
    sys.exit(main())
