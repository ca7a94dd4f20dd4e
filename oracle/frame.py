"""Registry and runner of the concrete contract oracles."""
import contextlib
import hashlib
import io
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

import numpy as np

from oracle.lib import Violation, Skip

CASES = {}
SCALE = dict(quick=8, thorough=6)
KNOWN = {}


def case(prop, quick=60, thorough=1500, fixed=False):
    """Register a concrete contract check. fn(rng) -> short description."""
    def deco(fn):
        CASES.setdefault(prop, []).append(
            dict(name=fn.__name__, fn=fn, quick=quick, thorough=thorough,
                 fixed=fixed))
        return fn
    return deco


def known(prop, text):
    """Register a listed finding: fn() raises Violation while it persists."""
    def deco(fn):
        KNOWN.setdefault(prop, []).append(dict(name=fn.__name__, fn=fn, text=text))
        return fn
    return deco


def rng_for(prop, name, seed, i):
    h = hashlib.sha256(('%s/%s/%d/%d' % (prop, name, seed, i)).encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], 'little'))


class _Timeout(BaseException):
    pass


def _alarm(*_):
    raise _Timeout()


def run_one(prop, c, seed, i, limit=120):
    """Returns (status, text): ok / skip / violation / timeout."""
    rng = rng_for(prop, c['name'], seed, i)
    np.random.seed(int(rng.integers(2 ** 31)))
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    buf = io.StringIO()
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(buf), \
                contextlib.redirect_stderr(buf), \
                np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            desc = c['fn'](rng)
        return 'ok', str(desc)
    except Skip:
        return 'skip', ''
    except Violation as e:
        return 'violation', str(e)
    except _Timeout:
        return 'timeout', ''
    except MemoryError:
        return 'timeout', ''
    except Exception as e:
        tb = traceback.format_exc(limit=-6)
        return 'violation', 'unexpected %s: %s\n%s' % (type(e).__name__, e, tb)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def _work(job):
    prop, name, seed, lo, hi, deadline = job
    c = [c for c in CASES[prop] if c['name'] == name][0]
    out = dict(name=name, ok=0, skip=0, timeout=0, descs=[], viol=[], cut=0)
    seen = set()
    for i in range(lo, hi):
        if time.time() > deadline:
            out['cut'] += hi - i
            break
        st, txt = run_one(prop, c, seed, i)
        if st == 'ok':
            out['ok'] += 1
            seen.add(hashlib.sha256(txt.encode()).hexdigest()[:12])
            if len(out['descs']) < 2:
                out['descs'].append('%s #%d: %s' % (name, i, txt))
        elif st == 'violation':
            out['viol'].append(dict(case=name, seed=seed, index=i, message=txt))
            if len(out['viol']) >= 2:
                out['cut'] += hi - i - 1
                break
        else:
            out[st] += 1
    out['seen'] = sorted(seen)
    return out


def run_prop(prop, tier, seed, budget):
    t0 = time.time()
    deadline = t0 + budget
    jobs = []
    for c in CASES.get(prop, []):
        n = c[tier] * SCALE[tier] if not c['fixed'] else 1
        k = max(1, min(8, n // 8))
        step = -(-n // k)
        for lo in range(0, n, step):
            jobs.append((prop, c['name'], seed, lo, min(n, lo + step), deadline))
    ctx = mp.get_context('fork')
    results = []
    import concurrent.futures as cfu
    with cfu.ProcessPoolExecutor(max_workers=min(8, max(1, len(jobs))),
                                 mp_context=ctx) as ex:
        for r in ex.map(_work, jobs):
            results.append(r)
    agg = dict(prop=prop, evaluations=0, distinct=0, skipped=0, timeouts=0,
               cut=0, samples=[], violations=[], cases={}, known=[])
    distinct = set()
    for r in results:
        agg['evaluations'] += r['ok'] + len(r['viol'])
        agg['skipped'] += r['skip']
        agg['timeouts'] += r['timeout']
        agg['cut'] += r['cut']
        agg['violations'] += r['viol']
        agg['cases'][r['name']] = agg['cases'].get(r['name'], 0) + r['ok']
        distinct |= {(r['name'], s) for s in r['seen']}
        if sum(s.startswith(r['name'] + ' ') for s in agg['samples']) < 1:
            agg['samples'] += r['descs'][:1]
    agg['distinct'] = len(distinct)
    for k in KNOWN.get(prop, []):
        st, txt = run_one(prop, dict(name=k['name'], fn=lambda rng, k=k: k['fn']()),
                          seed, 0)
        if st == 'violation':
            agg['known'].append(dict(name=k['name'], text=k['text'],
                                     message=txt.splitlines()[0]))
    agg['wall_s'] = time.time() - t0
    return agg
