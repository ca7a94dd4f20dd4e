"""Numeric evaluation of terms at random small instances: looks for a
counterexample of an obligation that the normal form leaves open."""
import cmath
import hashlib
import math
import random

import numpy as np
import scipy.linalg as sla
import z3

from .terms import *
from . import terms as T


class NoValue(Exception):
    pass


def _h(*parts):
    s = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(s[:8], 'big') / 2 ** 64, int.from_bytes(s[8:16], 'big') / 2 ** 64


def _r(x):
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, np.ndarray):
        return ('a',) + x.shape + tuple(_r(y) for y in x.ravel().tolist())
    x = complex(x)
    return (round(x.real, 7) + 0., round(x.imag, 7) + 0.)


class Env:
    def __init__(self, seed, ints, interp=None):
        self.seed, self.ints, self.interp = seed, ints, interp or {}
        self.cache = {}
        self.vals = {}
        self.work = 0
        self.rec = 0

    def poly(self, p, bd):
        fv = tuple((v.key, bd[v]) for v in p.free if v in bd)
        k = (p.key, fv)
        r = self.cache.get(k)
        if r is None:
            r = self.cache[k] = self._poly(p, bd)
        return r

    def _poly(self, p, bd):
        tot = 0
        for m, c in p.terms.items():
            x = self.mono(m.binders, m.atoms, bd)
            if isinstance(x, int):
                c = c if c.denominator != 1 else int(c)
                x = x * c
                x = int(x) if x == int(x) else float(x)
            else:
                x = x * float(c)
            tot = tot + x
        if isinstance(tot, Fraction):
            tot = float(tot)
        return tot

    def mono(self, bs, atoms, bd):
        if not bs:
            x = 1
            for a, e in atoms:
                y = self.atom(a, bd)
                if y == 0 and e > 0:
                    return 0
                if e < 0:
                    if y == 0:
                        raise NoValue('division by zero')
                    y = 1. / y
                    e = -e
                x = x * y ** e
            return x
        (v, r), rest = bs[0], bs[1:]
        n = self.poly(r, bd)
        tot = 0
        old = bd.get(v)
        for i in range(self.int(n)):
            self.work += 1
            if self.work > 100000:
                raise NoValue('too much work')
            bd[v] = i
            tot = tot + self.mono(rest, atoms, bd)
        if old is None:
            bd.pop(v, None)
        else:
            bd[v] = old
        return tot

    def int(self, x):
        if isinstance(x, complex):
            if abs(x.imag) > 1e-9:
                raise NoValue('integer')
            x = x.real
        if abs(x - round(x)) > 1e-9:
            raise NoValue('integer')
        return int(round(x))

    def real(self, x):
        if isinstance(x, complex):
            if abs(x.imag) > 1e-7 * (1 + abs(x.real)):
                raise NoValue('real')
            return x.real
        return x

    def lam(self, l, bd):
        shp = [self.int(self.poly(s, bd)) for s in l.shape]
        out = np.zeros(shp, dtype=complex)
        old = {v: bd.get(v) for v in l.vars}
        for idx in np.ndindex(*shp):
            for v, i in zip(l.vars, idx):
                bd[v] = i
            out[idx] = self.poly(l.body, bd)
        for v, o in old.items():
            if o is None:
                bd.pop(v, None)
            else:
                bd[v] = o
        return out

    def value(self, sort, *key):
        k = (sort, key)
        r = self.vals.get(k)
        if r is None:
            r = self.vals[k] = self._value(sort, *key)
        return r

    def _value(self, sort, *key):
        u, w = _h(self.seed, *key)
        if sort == 'i':
            return int(u * 3)
        x = 2 * u - 1
        x = x + (0.2 if x >= 0 else -0.2)
        if sort == 'r':
            return x
        return complex(x, 2 * w - 1)

    def atom(self, a, bd):
        if a is T.IM:
            return 1j
        if a in bd:
            return bd[a]
        if a.kind in ('v', 't', 'b'):
            if a.sort == 'i':
                if a.key not in self.ints:
                    raise NoValue('unbound ' + a.key)
                return self.ints[a.key]
            if a.name == 'pi':
                return math.pi
            if a.name in ('inf', 'nan'):
                raise NoValue(a.name)
            x = self.value(a.sort, a.key)
            return abs(x) if a.name in T.POSITIVE else x
        if a.kind == 'f':
            from .loops import DEFS
            if a.name in DEFS:
                self.rec += 1
                if self.rec > 60:
                    raise NoValue('recursion')
                try:
                    return self.poly(DEFS[a.name].unfold([
                        T.toP(self.int(self.poly(x, bd))) if isinstance(x, Poly) and
                        x.is_int() else self.close(x, bd) for x in a.args]), bd)
                finally:
                    self.rec -= 1
            args = [self.lam(x, bd) if isinstance(x, Lam) else self.poly(x, bd) for x in a.args]
            if a.name in self.interp:
                return self.interp[a.name](self, *args)
            x = self.value(a.sort, a.name, tuple(_r(y) for y in args))
            if a.name in T.CTX.fbounds:
                lo, hi = [self.int(self.poly(T.toP(b), bd)) for b in T.CTX.fbounds[a.name]]
                if hi <= lo:
                    raise NoValue('empty range')
                return lo + _h(self.seed, a.name, args)[0].__mul__(hi - lo).__floor__()
            return abs(x) if a.name in T.POSITIVE else x
        return self.gfun(a, bd)

    def close(self, x, bd):
        mp = {v: const(bd[v]) for v in x.free if v in bd}
        if isinstance(x, Lam):
            return x.map(lambda b: T.subst(b, mp)) if mp else x
        return T.subst(x, mp)

    def gfun(self, a, bd):
        n = a.name
        if n == 'bool':
            if a.args[0] == 'forall':
                l = a.args[1]
                m = self.lam(l, bd)
                return int(bool(np.all(np.abs(m - 1) < 1e-9)))
            if a.args[0] == 'close':
                x, y = self.poly(a.args[1], bd), self.poly(a.args[2], bd)
                return int(bool(np.isclose(x, y)))
            if all(isinstance(x, (str, Poly)) for x in a.args):
                u, _ = _h(self.seed, 'bool', tuple(
                    x if isinstance(x, str) else _r(self.poly(x, bd)) for x in a.args))
                return int(u < 0.5)
            raise NoValue('bool')
        args = [self.lam(x, bd) if isinstance(x, Lam) else
                self.poly(x, bd) if isinstance(x, Poly) else x for x in a.args]
        x = args[0]
        if n == 'ge':
            x = self.real(x)
            if not isinstance(x, int) and abs(x) < 1e-9:
                raise NoValue('comparison of close values')
            return int(x >= 0)
        if n == 'eq':
            return int(abs(x) < 1e-9)
        if n == 'fdiv':
            return self.int(x) // self.int(args[1])
        if n == 'sqrt':
            if isinstance(x, complex) and abs(x.imag) < 1e-12:
                x = x.real
            if a.args[0].is_real():
                if self.real(x) < 0:
                    raise NoValue('sqrt')
                return math.sqrt(self.real(x))
            return cmath.sqrt(x)
        if n == 'inv':
            if abs(x) < 1e-9:
                raise NoValue('inverse')
            return 1. / x
        if n == 'conj':
            return complex(x).conjugate()
        if n in ('exp', 'sin', 'cos', 'tan', 'log', 'expm1', 'sinh', 'cosh', 'tanh', 'arctan',
                 'arcsin', 'arccos'):
            with np.errstate(all='ignore'):
                y = complex(getattr(np, n)(complex(x)))
            if not (math.isfinite(y.real) and math.isfinite(y.imag)):
                raise NoValue(n)
            return y.real if a.sort == 'r' else y
        ij = tuple(self.int(y) for y in args[1:]) if n != 'frechet' and n != 'norm' and \
            not n.startswith('red_') and all(isinstance(y, (int, float, complex))
                                             for y in args[1:]) else None
        if n == 'expm':
            return complex(self.mat('expm', x, sla.expm)[ij])
        if n == 'frechet':
            ij = tuple(self.int(y) for y in args[2:])
            d = x.shape[0]
            M = np.block([[x, args[1]], [np.zeros((d, d)), x]])
            return complex(self.mat('fr', M, sla.expm)[:d, d:][ij])
        if n == 'matinv':
            return complex(self.mat('inv', x, np.linalg.inv)[ij])
        if n in ('eigh_val', 'eigh_vec') and np.allclose(x, x.conj().T):
            w, v = self.mat('eigh', x, np.linalg.eigh)
            return float(w[ij]) if n == 'eigh_val' else complex(v[ij])
        if n in ('eig_val', 'eig_vec'):
            w, v = self.mat('eig', x, np.linalg.eig)
            return complex(w[ij]) if n == 'eig_val' else complex(v[ij])
        if n.startswith('svd_'):
            u, s, v = self.mat('svd', x, np.linalg.svd)
            r = dict(svd_u=u, svd_s=s, svd_v=v)[n][ij]
            return float(r) if n == 'svd_s' else complex(r)
        if n == 'erfinv':
            from scipy.special import erfinv
            if not -1 < self.real(x) < 1:
                raise NoValue('erfinv')
            return float(erfinv(self.real(x)))
        if n == 'rfft':
            return complex(np.fft.rfft(x.real)[ij])
        if n == 'irfft':
            return float(np.fft.irfft(x, n=ij[0])[ij[1]])
        if n in ('red_max', 'red_min', 'red_prod', 'red_argmin', 'red_argmax'):
            if x.size == 0:
                raise NoValue('empty')
            y = {'red_max': np.max, 'red_min': np.min, 'red_prod': np.prod,
                 'red_argmin': np.argmin, 'red_argmax': np.argmax}[n](
                     x.real if n != 'red_prod' else x)
            return int(y) if 'arg' in n else complex(y) if n == 'red_prod' else float(y)
        if n in self.interp:
            return self.interp[n](self, *args)
        raise NoValue('function ' + n)

    def mat(self, tag, x, f):
        k = (tag, x.tobytes(), x.shape)
        if k not in self.cache:
            try:
                self.cache[k] = f(x)
            except Exception as e:
                raise NoValue(str(e))
        return self.cache[k]


def int_vars(ps):
    out = {}
    seen = set()

    def walk(p):
        if p.key in seen:
            return
        seen.add(p.key)
        for v in p.free:
            if v.sort == 'i' and v.kind in 'vtb':
                out[v.key] = v
    for p in ps:
        if isinstance(p, tuple):
            walk(p[0])
            walk(p[1])
        else:
            walk(p)
    return list(out.values())


def sample_ints(vs, rng, small=False):
    """Random values of integer variables that satisfy the facts."""
    s = CTX.solver
    s.push()
    try:
        vs = sorted(vs, key=lambda v: v.key)
        order = list(vs)
        rng.shuffle(order)
        for v in order:
            x = CTX.zterm_atom(v)
            cands = [1, 1, 2, 2, 1, 2] if small else [0, 1, 2, 3, 2, 3]
            rng.shuffle(cands)
            for c in cands[:3] + [1, 2, 3, 4, 5] if small else cands[:3] + [4, 5]:
                s.push()
                s.add(x == c)
                if s.check() == z3.sat:
                    break
                s.pop()
        if s.check() != z3.sat:
            return None
        m = s.model()
        out = {}
        for v in vs:
            r = m.eval(CTX.zterm_atom(v), model_completion=True)
            out[v.key] = r.as_long()
        return out
    except Exception:
        return None
    finally:
        while s.num_scopes() > len(CTX.stack):
            s.pop()


def instances(ps, seed, tries, interp=None):
    """Environments that satisfy the current facts."""
    rng = random.Random(seed)
    facts = [f for f in CTX.polys]
    vs = int_vars(list(ps) + facts)
    deep = max([len(m.binders) for p in ps if isinstance(p, Poly) for m in p.terms] or [0]) > 4
    for t in range(tries):
        ints = sample_ints(vs, rng, small=deep)
        if ints is None:
            continue
        if any(abs(x) > 12 for x in ints.values()):
            continue
        for u in range(8):
            env = Env('%s.%d.%d' % (seed, t, u), ints, interp)
            try:
                ok = True
                for f in facts:
                    if isinstance(f, tuple):
                        x, n = env.poly(f[0], {}), env.poly(f[1], {})
                        ok = 0 <= x < n
                    else:
                        ok = abs(env.poly(f, {}) - 1) < 1e-9
                    if not ok:
                        break
            except (NoValue, ZeroDivisionError, OverflowError):
                ok = False
            if ok:
                yield env
                break


def describe_env(env, ps):
    return 'integers %s; other values random (seed %s)' % (
        {k.split(':')[1].rstrip("'i"): v for k, v in sorted(env.ints.items())}, env.seed)


def counterexample(p, seed='1', tries=3, interp=None):
    """(env, value) with p != 0, or None; also the number of instances tried."""
    n = 0
    for env in instances([p], seed, tries, interp):
        try:
            x = env.poly(p, {})
        except (NoValue, ZeroDivisionError, OverflowError, ValueError):
            continue
        n += 1
        scale = 1.
        for m, c in list(p.terms.items())[:50]:
            try:
                scale = max(scale, abs(env.mono(m.binders, m.atoms, {}) * float(c)))
            except NoValue:
                pass
        if abs(x) > 1e-6 * scale and abs(x) == abs(x):
            return (env, x), n
    return None, n
