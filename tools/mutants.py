#!/usr/bin/env python3
"""Does the prover accept wrong statements?  python3-vt tools/mutants.py [filter]

Every program of tools/conform.py and every one of its mutants (changed constants,
operators, operands, indices, dropped statements) are executed on the same symbolic
inputs; the prover, without its search for counterexamples, is asked whether the
results agree. If it says so, CPython and numpy run both at sampled inputs; a
difference there means that the engine or the prover is unsound."""
import ast
import copy
import itertools
import multiprocessing
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from conform import *
from pyvc.prove import Prover

NEW = {ast.Add: [ast.Sub, ast.Mult], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.Div: [ast.Mult],
       ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.FloorDiv: [ast.Mod], ast.Mod: [ast.FloorDiv],
       ast.Pow: [ast.Mult]}


def mutants(src):
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    for q, x in enumerate(nodes):
        def cp(f):
            t = copy.deepcopy(tree)
            y = list(ast.walk(t))[q]
            f(y, t)
            return ast.unparse(ast.fix_missing_locations(t)) + '\n'
        if isinstance(x, ast.Constant) and isinstance(x.value, (int, float, complex)) and \
                not isinstance(x.value, bool):
            for d in (1, -1):
                yield cp(lambda y, t: setattr(y, 'value', y.value + d))
        if isinstance(x, (ast.BinOp, ast.AugAssign)):
            for op in NEW.get(type(x.op), ()):
                yield cp(lambda y, t: setattr(y, 'op', op()))
        if isinstance(x, ast.BinOp):
            def swap(y, t):
                y.left, y.right = y.right, y.left
            yield cp(swap)
        if isinstance(x, ast.Compare):
            for op in NEW.get(type(x.ops[0]), ()):
                yield cp(lambda y, t: setattr(y, 'ops', [op()]))
        if isinstance(x, ast.Call) and len(x.args) > 1:
            yield cp(lambda y, t: setattr(y, 'args', y.args[::-1]))
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'range':
            yield cp(lambda y, t: setattr(y, 'args', y.args[:-1] + [ast.BinOp(
                y.args[-1], ast.Sub(), ast.Constant(1))]))
        if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Tuple) and \
                len(x.slice.elts) == 2:
            yield cp(lambda y, t: setattr(y.slice, 'elts', y.slice.elts[::-1]))
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and \
                x.func.attr in ('conj', 'copy', 'conjugate') and not x.args:
            yield cp(lambda y, t: y.__dict__.update(ast.parse('(%s)[:]' % ast.unparse(
                y.func.value), mode='eval').body.__dict__) if 0 else setattr(y.func, 'attr', {
                    'conj': 'copy', 'conjugate': 'copy', 'copy': 'view'}[y.func.attr]))
        for field in ('body', 'orelse'):
            b = getattr(x, field, None)
            if isinstance(b, list) and isinstance(x, (ast.FunctionDef, ast.For, ast.If)):
                for r in range(len(b)):
                    if isinstance(b[r], ast.Return):
                        continue

                    def drop(y, t, r=r):
                        getattr(y, field)[r] = ast.Pass()
                    yield cp(drop)


def leaves(u, v, out):
    v = unl(v)
    if isinstance(v, Arr):
        out.append(v)
    elif isinstance(v, (PList, Range)):
        s = u.I.seq(v)
        out.append(('list', s.n))
        if s.n.cint is not None:
            for j in range(s.n.cint):
                leaves(u, s.at(const(j)), out)
        else:
            t = T.temp()
            with CTX.ranges([t], [s.n]):
                sub = []
                leaves(u, s.at(P(t)), sub)
            out.append(('each', t, s.n, sub))
    elif hasattr(v, 'p') and isinstance(v.p, T.Poly):
        out.append(v.p)
    elif isinstance(v, (bool, int, float, complex)):
        out.append(pol(v) if not isinstance(v, bool) else v)
    else:
        out.append(v)
    return out


def agree(u, x, y):
    if len(x) != len(y):
        return False
    for a, b in zip(x, y):
        if type(a) is not type(b):
            return False
        if isinstance(a, Arr):
            if a.ndim != b.ndim or a.dtype != b.dtype or \
                    not all(zero(s - t) for s, t in zip(a.shape, b.shape)):
                return False
            ts = [T.temp() for _ in a.shape]
            with CTX.ranges(ts, a.shape):
                if not zero(a.el(*[P(t) for t in ts]) - b.el(*[P(t) for t in ts])):
                    return False
        elif isinstance(a, T.Poly):
            if not zero(a - b):
                return False
        elif isinstance(a, tuple):
            if a[0] != b[0]:
                return False
            if a[0] == 'list':
                if not zero(a[1] - b[1]):
                    return False
            else:
                s, t = a[3], b[3]
                if len(s) != len(t) or not zero(a[2] - b[2]):
                    return False
                # the elements of b at the index of a
                with CTX.ranges([a[1]], [a[2]]):
                    CTX.push()
                    try:
                        with CTX.ranges([b[1]], [b[2]]):
                            CTX.assume(eq0(P(a[1]) - P(b[1])))
                            if not agree(u, s, t):
                                return False
                    finally:
                        CTX.pop()
        elif a is not b and a != b:
            return False
    return True


def zero(p):
    return Prover(deadline=time.time() + 4, refute=False).zero(p)[0] == 'discharged'


def samples(case):
    import random
    rnd = np.random.default_rng(5)
    for q in range(12):
        ints = {k: int(rnd.choice(v)) for k, v in DIMS.items()}
        if 'e' in case.args:
            ints['p'] = min(ints['p'], ints['n'])
        out = []
        for a in case.args:
            kind, ds = A[a]
            sh = tuple(ints[c] for c in ds)
            r = lambda *s: rnd.normal(size=s)
            out.append({'l': lambda: list(r(*sh)), 'i': lambda: q % 3,
                        'L': lambda: [r(sh[1], sh[1]) + 1j * r(sh[1], sh[1])
                                      for _ in range(sh[0])],
                        'x': lambda: rnd.integers(0, ints['n'], size=sh),
                        'x2': lambda: rnd.permutation(ints['n'])[:sh[0]],
                        'c': lambda: r(*sh) + 1j * r(*sh) if sh else complex(*r(2)),
                        'r': lambda: r(*sh) if sh else float(r())}[kind]())
        yield ints, out


def concrete(src, args):
    space = {}
    exec(src, space)
    try:
        with np.errstate(all='ignore'):
            return 'ok', space['f'](*copy.deepcopy(args))
    except Exception as e:
        return 'raise', type(e).__name__


def plain(v):
    if isinstance(v, np.ndarray):
        return v
    if isinstance(v, (list, tuple)):
        return type(v)(plain(x) for x in v)
    return v


def different(case, src):
    """Input at which program and mutant return different values."""
    for ints, args in samples(case):
        x, y = concrete(case.src, args), concrete(src, args)
        if x[0] != 'ok':
            continue
        if y[0] != 'ok' and y[1] == 'TypeError':
            continue        # errors of builtins are not modelled
        if y[0] != 'ok':
            return '%s: %r, mutant %r' % (ints, x, y)
        try:
            r = same(plain(y[1]), plain(x[1]))
        except Exception as e:
            r = repr(e)
        if r and 'nan' not in r and 'inf' not in r:
            return '%s%s' % (ints, r)
    return ''


def one(k):
    case = CASES[k]
    n = acc = 0
    bad = []
    seen = {ast.unparse(ast.parse(case.src))}
    for src in mutants(case.src):
        key = ast.unparse(ast.parse(src))
        if key in seen:
            continue
        seen.add(key)
        try:
            compile(src, 'x', 'exec')
        except SyntaxError:
            continue
        n += 1
        u = U(case.name, '/repo', time.time() + 20)
        CTX.push()
        try:
            args, more = case.symbolic(u), case.symbolic(u)
            u.source('case', case.src)
            u.source('mut', src)
            f, g = [u.mod(m).env.slots['f'] for m in ('case', 'mut')]
            results = []

            def cap(kind, v, mark):
                if kind != 'ok':
                    results.append(None if kind != 'ok' and v is not None else None)
                    return
                results.append(agree(u, leaves(u, v[0], []), leaves(u, v[1], [])))

            def both():
                return u.I.call(f, args, {}), u.I.call(g, more, {})
            u.I.explore(both, cap)
            ok = bool(results) and all(r is True for r in results if r is not None) and \
                any(r is True for r in results)
            if any(r is None for r in results):
                ok = False      # a mutant or program that raises on some path
        except Exception as e:
            ok = False
        finally:
            CTX.pop()
        if ok:
            acc += 1
            d = different(case, src)
            if d:
                bad.append('UNSOUND %s\n%s    %s' % (case.name, src, d))
    return case.name, n, acc, bad


CASES = []


def main():
    global CASES
    CASES = [c for c in all_cases() if len(sys.argv) < 2 or sys.argv[1] in c.name]
    n = acc = wrong = 0
    with multiprocessing.Pool(int(os.environ.get('J', '8'))) as pool:
        for name, m, a, bad in pool.imap_unordered(one, range(len(CASES)), 1):
            n += m
            acc += a
            wrong += len(bad)
            for b in bad:
                print(b, flush=True)
    print('%d mutants of %d programs, %d proved equal, %d wrongly' % (n, len(CASES), acc, wrong))
    return 1 if wrong else 0


if __name__ == '__main__':
    sys.exit(main())
