"""Runs the contract units of a property in worker processes."""
import importlib
import json
import multiprocessing as mp
import os
import resource
import sys
import time
import traceback

MODULES = ['matrix', 'solvers', 'transfer', 'amplitude', 'costs', 'frames', 'noise', 'simulate', 'optim',
           'data', 'parallel', 'filterfn']


def load(here=None):
    from . import unit
    if not unit.UNITS:
        for m in MODULES:
            try:
                importlib.import_module('contracts.' + m)
            except ModuleNotFoundError as e:
                if e.name != 'contracts.' + m:
                    raise
    return unit.UNITS


def _work(conn, u, root, seconds, seed):
    from . import unit as un
    from .values import CTX, Unsupported
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(20000)
    t0 = time.time()
    st = un.U(u['name'], root, t0 + seconds * 0.95, seed)
    err = ''
    try:
        u['f'](st)
    except BaseException as e:
        err = '%s: %s' % (type(e).__name__, e)
        if os.environ.get('VC_TRACE'):
            traceback.print_exc()
        st.record('unit completes', 'open', '', err + ' | ' + traceback.format_exc()[-700:])
    if not st.obl:
        st.record('unit has obligations', 'open', '', 'no obligation generated')
    conn.send(dict(obligations=st.obl, seconds=time.time() - t0, queries=CTX.queries,
                   solver_seconds=CTX.time, executed=sorted(st.I.executed),
                   used_contracts=sorted(st.I.used_contracts), ext=sorted(st.I.ext_used),
                   assumed=st.assumed, paths=st.paths, error=err,
                   loops=sum(len(x[1]) for x in st.I.loop_obl)))
    conn.close()


def run_unit(u, root, seconds, seed=1):
    """Run one unit in a process of its own."""
    a, b = mp.Pipe(False)
    p = mp.get_context('fork').Process(target=_work, args=(b, u, root, seconds, seed))
    p.start()
    b.close()
    return p, a


def run_units(prop, tier, seed, deadline, root, only=None, jobs=8, names=None, limit=None):
    us = [u for u in load() if u['prop'] == prop and (tier == 'thorough' or u['tier'] == 'quick')
          and (only is None or only in u['name']) and (names is None or u['name'] in names)]
    out, running, todo = [], [], list(us)
    while todo or running:
        while todo and len(running) < jobs:
            u = todo.pop(0)
            left = deadline - time.time()
            lim = limit or u['timeout'] or 100
            if tier == 'thorough':
                lim *= 3
            sec = min(lim, left)
            if sec < 2:
                out.append(result(u, None, 'not run: out of time'))
                continue
            p, c = run_unit(u, root, sec, seed)
            running.append((u, p, c, time.time() + sec))
        for r in list(running):
            u, p, c, end = r
            res, why = None, None
            try:
                if c.poll(0.01):
                    res = c.recv()
                elif not p.is_alive():
                    if c.poll(0.2):
                        res = c.recv()
                    else:
                        why = 'worker ended (exit code %s)' % p.exitcode
                elif time.time() > end + 3:
                    why = 'timeout'
            except EOFError:
                why = 'worker ended'
            if res is not None or why is not None:
                if p.is_alive() and res is None:
                    p.kill()
                p.join(5)
                running.remove(r)
                out.append(result(u, res, why))
        time.sleep(0.01)
    order = {u['name']: i for i, u in enumerate(us)}
    out.sort(key=lambda r: order[r['name']])
    return out


def result(u, res, why):
    if res is None:
        res = dict(obligations=[dict(name='unit completes', status='open', by='', detail=why)],
                   seconds=0, queries=0, solver_seconds=0, executed=[], used_contracts=[],
                   ext=[], assumed=[], error=why, paths=0)
    r = dict(res)
    r.update(name=u['name'], functions=u['functions'], domain=u['domain'], bounded=u['bounded'])
    return r


def trusted(units):
    return sorted({e for u in units for e in u.get('ext', [])})


def samples(units):
    out = []
    for u in units:
        for o in u['obligations'][:2]:
            out.append('%s / %s: %s %s' % (u['name'], o['name'], o['status'], o['by']))
    return out[:8]


COMMON = ['machine arithmetic is treated as exact real/complex arithmetic; float literals stand '
          'for the simplest rational they round to',
          'external functions (numpy, scipy, listed in trusted_base) behave as their contracts in '
          'pyvc/npstub.py state',
          'quotients are only considered where their denominators are not zero']


def assumptions(prop, units):
    return COMMON + sorted({a for u in units for a in u.get('assumed', [])})


def main():
    """Development: python3-vt -m pyvc.driver C09 [filter]"""
    prop = sys.argv[1]
    only = sys.argv[2] if len(sys.argv) > 2 else None
    root = os.environ.get('VC_ROOT', '/repo')
    for p in ([prop] if prop != 'all' else sorted({u['prop'] for u in load()})):
        t = time.time()
        us = run_units(p, 'thorough', 1, time.time() + 900, root, only)
        nd = 0
        for u in us:
            d = sum(o['status'] == 'discharged' for o in u['obligations'])
            nd += d
            print('%s %-40s %d/%d  %.1fs paths=%d loops=%d %s' % (
                p, u['name'], d, len(u['obligations']), u['seconds'], u['paths'],
                u.get('loops', 0), u['error'][:200]))
            for o in u['obligations']:
                if o['status'] != 'discharged':
                    print('   %s %s: %s' % (o['status'].upper(), o['name'], o['detail'][:700]))
        print(p, 'discharged', nd, 'of', sum(len(u['obligations']) for u in us),
              '%.1fs' % (time.time() - t))


if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from pyvc import driver
    driver.main()
