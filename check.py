#!/usr/bin/env python3
"""Check of one property:  python3-vt check.py C01 [--tier quick|thorough]

1. The contracts of the property (contracts/) are verified against the source
   that is in /repo now: every function is executed symbolically, calls are
   replaced by the callee's contract, every postcondition is an obligation.
2. The same contracts run on concrete inputs against the real code (bounded);
   this replays refutations and covers what the engine cannot reach.
Exit 0: nothing violated; 1: VIOLATION line; other: the check failed.
"""
import argparse
import json
import os
import subprocess
import sys
import time

sys.dont_write_bytecode = True
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'      # the same order of everything on every run
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = '/opt/venv/bin/python'


def listed(prop, name):
    path = os.path.join(HERE, 'known_findings.txt')
    start = 'finding: property=%s %s ' % (prop, name)
    return any(line.startswith(start) for line in open(path))


def exhausted(o):
    """The resources of this run were used up: neither proved nor failed."""
    return o['status'] == 'open' and any(x in o.get('detail', '') for x in (
        'out of time', 'timeout', 'worker ended', 'MemoryError'))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default='/repo')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    t0 = time.time()
    budget = 150 if tier == 'quick' else 420
    pbudget = 480 if tier == "quick" else 600
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rdir = os.path.join(HERE, 'replays')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(a.prop + '_'):
            os.unlink(os.path.join(rdir, f))
    out = os.path.join(rdir, a.prop + '_oracle.out')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg')

    from pyvc import driver
    end = time.time() + pbudget
    units = driver.run_units(a.prop, tier, seed, end, a.repo)
    late = {u['name'] for u in units if any(exhausted(o) for o in u['obligations'])}
    if late and end - time.time() > 60:
        # out of time: again with all the time that is left
        again = {u['name']: u for u in driver.run_units(
            a.prop, tier, seed, end, a.repo, names=late, jobs=4, limit=end - time.time())}
        units = [again.get(u['name'], u) for u in units]

    def concrete(tier, seed, budget):
        cmd = [PY, os.path.join(HERE, 'oracle', 'run.py'), a.prop, '--tier', tier,
               '--seed', str(seed), '--budget', str(budget), '--out', out]
        try:
            pr = subprocess.run(cmd, env=env, cwd=HERE, stdout=subprocess.PIPE,
                                stderr=subprocess.STDOUT, text=True, timeout=budget + 140)
        except subprocess.TimeoutExpired:
            return None
        if not os.path.exists(out):
            print(pr.stdout[-3000:])
            return None
        orc = json.load(open(out))
        os.unlink(out)
        return orc

    orc = concrete(tier, seed, budget)
    if orc is None:
        print('the concrete contract runner failed')
        return 3
    more = None
    if not orc['violations'] and any(o['status'] != 'discharged' and not exhausted(o)
                                     for u in units for o in u['obligations']):
        # an obligation failed: look longer for an input that shows it
        left = int(min(240, 730 - (time.time() - t0)))
        if left > 20:
            more = concrete('thorough', seed + 1000, left)
        if more is not None:
            orc['violations'] = more['violations']
            for k in ('evaluations', 'distinct', 'skipped', 'timeouts', 'cut', 'wall_s'):
                orc[k] += more[k]

    viol = []
    for k in orc['known']:
        if not listed(a.prop, k['name']):
            f = os.path.join(rdir, '%s_%s.json' % (a.prop, k['name']))
            json.dump(dict(property=a.prop, known=k['name'], message=k['message']),
                      open(f, 'w'), indent=1)
            viol.append((f, k['message'][:200], ''))
    for v in orc['violations'][:20]:
        f = os.path.join(rdir, '%s_%s_%d.json' % (a.prop, v['case'], v['index']))
        failed = [o['name'] for u in units for o in u['obligations'] if o['status'] == 'refuted']
        json.dump(dict(property=a.prop, case=v['case'], seed=v['seed'], index=v['index'],
                       message=v['message'], failed_obligations=failed,
                       how='%s %s/oracle/run.py --replay <this file>' % (PY, HERE)),
                  open(f, 'w'), indent=1)
        viol.append((f, v['message'].splitlines()[0][:200], ''))
    # counterexamples to the symbolic obligation first, then those not discharged
    failed = sorted(((u, o) for u in units for o in u['obligations']
                     if o['status'] != 'discharged' and not exhausted(o)),
                    key=lambda x: x[1]['status'] != 'refuted')
    if not viol:
        for n, (u, o) in enumerate(failed[:10]):
            f = os.path.join(rdir, '%s_obligation_%d.json' % (a.prop, n))
            json.dump(dict(property=a.prop, unit=u['name'], obligation=o['name'],
                           functions=u.get('functions', []), status=o['status'],
                           verifier_output=o.get('detail', '')), open(f, 'w'), indent=1)
            viol.append((f, 'failed obligation: %s / %s' % (u['name'], o['name']),
                         ' no-failing-input-found'))

    obl = [o for u in units if not u['bounded'] for o in u['obligations']]
    part = [u for u in units if u['bounded']]
    dis = [o for o in obl if o['status'] == 'discharged']
    undis = [dict(unit=u['name'], obligation=o['name'], reason=o.get('detail', '')[:300])
             for u in units for o in u['obligations'] if o['status'] != 'discharged']
    cfg = json.load(open(os.path.join(HERE, 'contracts', 'levels.json')))
    level = cfg.get(a.prop, 'other')
    cov = dict(
        obligations=len(obl), discharged=len(dis), undischarged=undis,
        checker_cmd='python3-vt check.py %s --tier %s' % (a.prop, tier),
        functions_under_contract=sorted({f for u in units for f in u.get('functions', [])}),
        contracts_used_at_calls=sorted({f for u in units for f in u.get('used_contracts', [])}),
        bodies_executed=sorted({f for u in units for f in u.get('executed', [])}),
        bounded_units=[dict(name=u['name'], bound=u['bounded'],
                            obligations=len(u['obligations']),
                            discharged=sum(o['status'] == 'discharged'
                                           for o in u['obligations'])) for u in part],
        units=[dict(name=u['name'], bound=u['bounded'] or 'none', obligations=len(u['obligations']),
                    discharged=sum(o['status'] == 'discharged' for o in u['obligations']),
                    seconds=round(u.get('seconds', 0), 2),
                    solver_queries=u.get('queries', 0),
                    solver_seconds=round(u.get('solver_seconds', 0), 2),
                    domain=u.get('domain', ''), error=u.get('error', ''))
               for u in units],
        back_ends={'normal form (sum-of-products, exact rationals)':
                   sum(o.get('by') == 'nf' for o in dis),
                   'normal form + z3 on integer side conditions':
                   sum(o.get('by') == 'z3' for o in dis),
                   'exact structural comparison of heap and results':
                   sum(o.get('by') == 'struct' for o in dis)},
        solver_seconds=round(sum(u.get('solver_seconds', 0) for u in units), 2),
        trusted_base=driver.trusted(units),
        bounded=dict(
            note='concrete contract checks on the real code: bounded, never counted as proved',
            evaluations=orc['evaluations'], distinct=orc['distinct'],
            skipped=orc['skipped'], timeouts=orc['timeouts'], not_run=orc['cut'],
            cases=orc['cases'], wall_s=round(orc['wall_s'], 2)),
        evaluations=orc['evaluations'], distinct_nontrivial=orc['distinct'],
        rule='random inputs of each contract case (numpy Generator seeded by property, case, '
             'seed and index); distinct = different case/description pairs whose contract was '
             'evaluated to the end',
        samples=(driver.samples(units) + orc['samples'])[:12],
        explanation='obligations of the contracts verified symbolically for all inputs of the '
                    'stated domains on the source in /repo; the contracts are also evaluated on '
                    'concrete inputs (bounded) against the real code')
    ev = dict(property=a.prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=driver.assumptions(a.prop, units), wall_s=round(time.time() - t0, 2),
              violations=len(viol))
    json.dump(ev, open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w'), indent=1)

    nb = sum(len(u['obligations']) for u in part)
    print('%s: %d obligations, %d discharged%s; %d concrete evaluations; %.1f s'
          % (a.prop, len(obl), len(dis), ', %d more in bounded units' % nb if nb else '',
             orc['evaluations'], time.time() - t0))
    for u in undis:
        print('UNDISCHARGED %s / %s: %s' % (u['unit'], u['obligation'], u['reason'][:160]))
    for k in orc['known']:
        if listed(a.prop, k['name']):
            print('KNOWN-FINDING: property=%s %s (%s)' % (a.prop, k['text'], k['name']))
    for f, msg, tail in viol:
        print(msg)
        print('VIOLATION property=%s replay=%s%s' % (a.prop, f, tail))
    return 1 if viol else 0


if __name__ == '__main__':
    sys.exit(main())
