"""Run a per-function analysis over many functions on all cores (fork; results must pickle)."""
import os, multiprocessing as mp, traceback
from front import AnalysisBroken

_work = None


def _call(x):
    try:
        return (x, _work(x), None)
    except AnalysisBroken as e:
        return (x, None, str(e))
    except Exception:
        return (x, None, traceback.format_exc())


def pmap(fn, items, weight=None, jobs=None):
    """{item: fn(item)}; a failed item raises AnalysisBroken."""
    global _work
    items = list(items)
    if weight:
        items.sort(key=weight, reverse=True)
    jobs = jobs or min(8, os.cpu_count() or 1)
    _work = fn
    out = {}
    if len(items) < 4 or jobs == 1 or 'ONION_SERIAL' in os.environ:
        res = map(_call, items)
    else:
        pool = mp.get_context('fork').Pool(jobs)
        res = pool.imap_unordered(_call, items)
    errs = []
    try:
        for x, r, e in res:
            if e:
                errs.append('%s: %s' % (x, e))
            out[x] = r
    finally:
        if not isinstance(res, map):
            pool.terminate()
    if errs:
        raise AnalysisBroken('; '.join(sorted(errs)[:3]))
    return out


def fweight(P):
    return lambda n: sum(len(b) for b in P.funcs[n].blocks)
