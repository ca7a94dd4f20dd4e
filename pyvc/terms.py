"""Scalar terms in a sum-of-products normal form.

A Poly is a finite sum of monomials with rational coefficients. A monomial is a
product of atoms (with integer exponents) under zero or more finite sums: the
index variables of these sums are bound, canonically named and their order is
irrelevant, so that matrix products, traces and einsum contractions have one
normal form. Atoms: variables, applications of uninterpreted functions (array
elements), interpreted functions (exp, sqrt, inv, fdiv, indicators, ...) and
elements of functions of matrices (expm). The imaginary unit is the atom I.
"""
import itertools
import math
import re as regex
import time
from fractions import Fraction

import z3

_counter = itertools.count()


class Budget(Exception):
    """The engine gives up on a term that grows too large."""


# ------------------------------------------------------------------ atoms
FNAMES = set()


class Atom:
    __slots__ = ('kind', 'name', 'args', 'sort', 'key', 'free', 'height', 'fns')
    table = {}

    def __repr__(self):
        return self.key


def _mk(kind, name, args, sort):
    key = '%s:%s' % (kind, name)
    if args:
        key += '(' + ','.join(a.key if isinstance(a, (Poly, Lam)) else repr(a) for a in args) + ')'
    key += '' if sort == 'c' else "'" + sort
    a = Atom.table.get(key)
    if a is not None:
        return a
    a = Atom()
    a.kind, a.name, a.args, a.sort, a.key = kind, name, args, sort, key
    free, h, fns = set(), 0, set()
    for x in args:
        if isinstance(x, (Poly, Lam)):
            free |= x.free
            h = max(h, x.height)
            fns |= x.fns
    if kind in ('v', 'b', 't'):
        free = {a}
    if kind in ('f', 'g'):
        fns = fns | {name}
        if kind == 'f':
            FNAMES.add(name)
    a.free, a.height, a.fns = frozenset(free), h, frozenset(fns)
    Atom.table[key] = a
    return a


def var(name, sort='i'):
    """A named variable: sort i (integer), r (real), c (complex)."""
    return P(_mk('v', name, (), sort))


def temp(sort='i'):
    return _mk('t', 't%d' % next(_counter), (), sort)


def fn(name, *args, sort='c'):
    """Uninterpreted function application."""
    return P(_mk('f', name, tuple(toP(a) if not isinstance(a, Lam) else a for a in args), sort))


IM = _mk('v', 'I', (), 'c')
POSITIVE = set()       # names of positive variables / functions


# ------------------------------------------------------------------ lambda
class Lam:
    """Array expression as an argument of a function: body over bound indices."""
    __slots__ = ('shape', 'vars', 'body', 'key', 'free', 'height', 'fns')

    def __init__(self, shape, tvars, body):
        one = {v: ZERO for v, s in zip(tvars, shape) if s.cint == 1 and v in body.free}
        if one:
            body = subst(body, one)
        h = max([body.height] + [s.height for s in shape]) + 1
        vs = tuple(_mk('b', 'l%d.%d' % (h, i), (), 'i') for i in range(len(tvars)))
        body = body.rename(dict(zip(tvars, vs)))
        self.shape, self.vars, self.body = tuple(shape), vs, body
        self.key = 'L[%s|%s]' % (','.join(s.key for s in shape), body.key)
        f = set(body.free) - set(vs)
        for s in shape:
            f |= s.free
        self.free, self.height = frozenset(f), h
        fns = set(body.fns)
        for s in shape:
            fns |= s.fns
        self.fns = frozenset(fns)

    def __eq__(self, o):
        return isinstance(o, Lam) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def at(self, *idx):
        return subst(self.body, dict(zip(self.vars, idx)))

    def open(self):
        ts = [temp() for _ in self.vars]
        return ts, self.body.rename(dict(zip(self.vars, ts)))

    def map(self, f):
        """Lam with the same indices and the body f(body)."""
        ts, b = self.open()
        with CTX.ranges(ts, self.shape):
            nb = f(b)
        return Lam([f(s) for s in self.shape], ts, nb)


# ------------------------------------------------------------------ polynomials
class Mono:
    """(binders, atoms): binders = ((var, range), ...), atoms = ((atom, exp), ...)."""
    __slots__ = ('binders', 'atoms', 'key', 'free', 'height', 'fns')
    table = {}

    def bvars(self):
        return [v for v, _ in self.binders]


def _mono(binders, atoms):
    key = ''
    if binders:
        key = 'S[' + ','.join(r.key for _, r in binders) + ']'
    key += '*'.join(a.key if e == 1 else '%s^%d' % (a.key, e) for a, e in atoms)
    m = Mono.table.get(key)
    if m is None:
        m = Mono()
        m.binders, m.atoms, m.key = binders, atoms, key
        free, h, fns = set(), 0, set()
        for a, _ in atoms:
            free |= a.free
            h = max(h, a.height)
            fns |= a.fns
        for v, r in binders:
            free |= r.free
            h = max(h, r.height)
            fns |= r.fns
        m.height = h + 1 if binders else h
        m.free = frozenset(free - {v for v, _ in binders})
        m.fns = frozenset(fns)
        Mono.table[key] = m
    return m


ONE_M = None
MAXTERMS = 6000


class Poly:
    __slots__ = ('terms', '_key', '_free', '_height', '_fns')

    def __init__(self, terms):
        self.terms = terms
        self._key = None
        self._free = None
        self._height = None
        self._fns = None
        if len(terms) > MAXTERMS:
            raise Budget('term with %d monomials' % len(terms))

    @property
    def key(self):
        if self._key is None:
            self._key = '(' + '+'.join(
                ('%s' % c if m.key == '' else m.key if c == 1 else '%s.%s' % (c, m.key))
                for m, c in sorted(self.terms.items(), key=lambda t: t[0].key)) + ')'
        return self._key

    @property
    def free(self):
        if self._free is None:
            f = set()
            for m in self.terms:
                f |= m.free
            self._free = frozenset(f)
        return self._free

    @property
    def fns(self):
        if self._fns is None:
            f = set()
            for m in self.terms:
                f |= m.fns
            self._fns = frozenset(f)
        return self._fns

    @property
    def height(self):
        if self._height is None:
            self._height = max([m.height for m in self.terms], default=0)
        return self._height

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, Poly) and self.key == o.key

    def __repr__(self):
        return self.key

    # arithmetic
    def __add__(self, o):
        o = toP(o)
        t = dict(self.terms)
        for m, c in o.terms.items():
            n = t.get(m, 0) + c
            if n:
                t[m] = n
            else:
                t.pop(m, None)
        return Poly(t)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.terms.items()})

    def __sub__(self, o):
        return self + (-toP(o))

    def __rsub__(self, o):
        return toP(o) - self

    def __mul__(self, o):
        o = toP(o)
        if not self.terms or not o.terms:
            return ZERO
        if self.const is not None:
            c = self.const
            return Poly({m: k * c for m, k in o.terms.items()})
        if o.const is not None:
            c = o.const
            return Poly({m: k * c for m, k in self.terms.items()})
        if len(self.terms) * len(o.terms) > 4 * MAXTERMS:
            raise Budget('product of %d and %d monomials' % (len(self.terms), len(o.terms)))
        out = {}
        for m1, c1 in self.terms.items():
            for m2, c2 in o.terms.items():
                for m, c in mono_mul(m1, m2).terms.items():
                    n = out.get(m, 0) + c * c1 * c2
                    if n:
                        out[m] = n
                    else:
                        out.pop(m, None)
        return Poly(out)

    __rmul__ = __mul__

    def __pow__(self, n):
        if n < 0:
            return inv(self) ** (-n)
        r = ONE
        for _ in range(n):
            r = r * self
        return r

    def __truediv__(self, o):
        return self * inv(toP(o))

    def __rtruediv__(self, o):
        return toP(o) * inv(self)

    @property
    def const(self):
        """The rational value or None."""
        if not self.terms:
            return Fraction(0)
        if len(self.terms) == 1:
            (m, c), = self.terms.items()
            if m.key == '':
                return c
        return None

    @property
    def cint(self):
        c = self.const
        return int(c) if c is not None and c.denominator == 1 else None

    def single(self):
        """The atom this polynomial consists of, or None."""
        if len(self.terms) == 1:
            (m, c), = self.terms.items()
            if c == 1 and not m.binders and len(m.atoms) == 1 and m.atoms[0][1] == 1:
                return m.atoms[0][0]
        return None

    def rename(self, mp):
        """Replace index atoms by index atoms (no simplification)."""
        if not (self.free & set(mp)):
            return self
        return subst(self, {k: P(v) for k, v in mp.items()})

    def is_int(self):
        return all(c.denominator == 1 and all(a.sort == 'i' and e > 0 for a, e in m.atoms)
                   for m, c in self.terms.items())

    def is_real(self):
        return all(a.sort in 'ir' for m in self.terms for a, e in m.atoms) or \
            conj(self) == self


def P(a):
    return Poly({_mono((), ((a, 1),)): Fraction(1)})


def const(c):
    c = Fraction(c)
    return Poly({ONE_M: c}) if c else ZERO


ONE_M = _mono((), ())
ZERO = Poly({})
ONE = Poly({ONE_M: Fraction(1)})
I = P(IM)


def simplest(x):
    """Rational a float literal stands for."""
    if x == int(x) and abs(x) < 1e15:
        return Fraction(int(x))
    for d in (10, 1000, 10 ** 6):
        f = Fraction(x).limit_denominator(d)
        if f != 0 and abs(float(f) - x) <= 2e-16 * abs(x):
            return f
    return Fraction(repr(x))


def toP(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return P(x)
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        return const(x)
    if isinstance(x, float):
        if math.isinf(x):
            return P(_mk('v', 'inf', (), 'r')) * (1 if x > 0 else -1)
        if math.isnan(x):
            return P(_mk('v', 'nan', (), 'r'))
        return const(simplest(x))
    if isinstance(x, complex):
        return toP(x.real) + toP(x.imag) * I
    raise TypeError('not a scalar: %r' % (x,))


# ------------------------------------------------------------------ monomials
def _norm_atoms(atoms):
    """Combine a dict atom -> exponent. Returns Poly (without binders)."""
    coeff = Fraction(1)
    plain = {}
    extra = ONE
    exps = None
    for a, e in atoms.items():
        if e == 0:
            continue
        if a is IM:
            e %= 4
            if e >= 2:
                coeff = -coeff
                e -= 2
            if e:
                plain[a] = 1
        elif a.kind == 'g':
            if a.name in ('eq', 'ge', 'bool'):
                plain[a] = 1
            elif a.name == 'sqrt':
                p = a.args[0]
                q, r = divmod(e, 2)
                if q > 0:
                    extra = extra * p ** q
                elif q < 0:
                    extra = extra * inv(p) ** (-q)
                if r:
                    plain[a] = 1
            elif a.name == 'exp':
                x = a.args[0] * e
                exps = x if exps is None else exps + x
            elif a.name == 'inv':
                if e < 0:
                    extra = extra * a.args[0] ** (-e)
                else:
                    plain[a] = e
            else:
                plain[a] = e
        else:
            plain[a] = e
    if exps is not None:
        ex = exp(exps)
        s = ex.single()
        if s is not None and s.kind == 'g' and s.name == 'exp':
            plain[s] = 1
        else:
            extra = extra * ex
    eqs = [a for a in plain if a.kind == 'g' and a.name == 'eq']
    if eqs and len(plain) > 1:
        # an indicator of x == x is one, of a constant is constant: done in eq
        pass
    m = _mono((), tuple(sorted(plain.items(), key=lambda t: t[0].key)))
    r = Poly({m: coeff})
    if extra is not ONE:
        r = r * extra
    return r


_mm_cache = {}


def mono_mul(m1, m2):
    k = (m1.key, m2.key) if m1.key <= m2.key else (m2.key, m1.key)
    if (m1.binders or m2.binders) and (_mono_cond(m1) or _mono_cond(m2)):
        k += (CTX.version,)
    r = _mm_cache.get(k)
    if r is not None:
        return r
    if not m1.binders and not m2.binders:
        d = dict(m1.atoms)
        for a, e in m2.atoms:
            d[a] = d.get(a, 0) + e
        r = _norm_atoms(d)
    else:
        b1, a1 = open_mono(m1)
        b2, a2 = open_mono(m2)
        d = dict(a1)
        for a, e in a2:
            d[a] = d.get(a, 0) + e
        r = _norm_atoms(d)
        for v, n in reversed(b1 + b2):
            r = Sum(v, n, r)
    _mm_cache[k] = r
    return r


def _mono_cond(m):
    return any(_atom_cond(a) for a, _ in m.atoms)


def open_mono(m):
    """Binders with fresh variables and the atoms in terms of them."""
    if not m.binders:
        return [], list(m.atoms)
    mp = {v: P(temp()) for v, _ in m.binders}
    bs = [(mp[v].single(), subst_plain(r, mp)) for v, r in m.binders]
    return bs, [(rename_atom(a, mp), e) for a, e in m.atoms]


def subst_plain(p, mp):
    if not (p.free & set(mp)):
        return p
    return subst(p, mp, simp=False)


def rename_atom(a, mp):
    """Rename index variables in an atom, structure preserved."""
    if not (a.free & set(mp)):
        return a
    if a in mp:
        return mp[a].single()
    args = tuple(x if not isinstance(x, (Poly, Lam)) or not (x.free & set(mp)) else
                 (rename_poly(x, mp) if isinstance(x, Poly) else rename_lam(x, mp))
                 for x in a.args)
    return _mk(a.kind, a.name, args, a.sort)


def rename_lam(l, mp):
    r = Lam.__new__(Lam)
    ts = [temp() for _ in l.vars]
    b = rename_poly(l.body, {v: P(t) for v, t in zip(l.vars, ts)})
    b = rename_poly(b, mp)
    return Lam([rename_poly(s, mp) for s in l.shape], ts, b)


def rename_poly(p, mp):
    if not (p.free & set(mp)):
        return p
    out = {}
    for m, c in p.terms.items():
        if m.free & set(mp):
            if m.binders:
                bs, at = open_mono(m)
                at = [(rename_atom(a, mp), e) for a, e in at]
                bs = [(v, rename_poly(r, mp)) for v, r in bs]
                m = close_mono(bs, at)
            else:
                d = {}
                for a, e in m.atoms:
                    a = rename_atom(a, mp)
                    d[a] = d.get(a, 0) + e
                m = _mono((), tuple(sorted(d.items(), key=lambda t: t[0].key)))
        n = out.get(m, 0) + c
        if n:
            out[m] = n
        else:
            out.pop(m, None)
    return Poly(out)


_cm_cache = {}


def close_mono(bs, atoms):
    """Canonical naming of the bound variables bs = [(temp, range)]."""
    h = 0
    for a, _ in atoms:
        h = max(h, a.height)
    for _, r in bs:
        h = max(h, r.height)
    h += 1
    k = len(bs)
    if k > 16:
        raise Budget('%d nested sums' % k)
    names = [_mk('b', 's%d.%d' % (h, i), (), 'i') for i in range(k)]
    vs = [v for v, _ in bs]
    rng = dict(bs)
    if k == 1:
        orders = [vs]
    else:
        # colour refinement, then try the permutations inside a class
        col = {v: '' for v in vs}
        for _ in range(3):
            new = {}
            for v in vs:
                mp = {w: P(_mk('b', 'c' + ('*' if w is v else '?' + col[w]), (), 'i')) for w in vs}
                sig = sorted(('%s^%d' % (rename_atom(a, mp).key, e) for a, e in atoms
                              if v in a.free))
                sig.append('R' + rename_poly(rng[v], mp).key)
                sig += sorted('U' + rename_poly(rng[w], mp).key for w in vs
                              if v in rng[w].free)
                new[v] = '|'.join(sig)
            ranks = {s: i for i, s in enumerate(sorted(set(new.values())))}
            col = {v: '%d' % ranks[new[v]] for v in vs}
            if len(ranks) == k:
                break
        classes = {}
        for v in vs:
            classes.setdefault(int(col[v]), []).append(v)
        groups = [classes[c] for c in sorted(classes)]
        size = 1
        for g in groups:
            size *= math.factorial(len(g))
        if size > 5040:
            raise Budget('too many symmetric sums')
        orders = [sum(map(list, ps), []) for ps in
                  itertools.product(*[itertools.permutations(g) for g in groups])]
    best = None
    for o in orders:
        mp = {v: P(n) for v, n in zip(o, names)}
        at = tuple(sorted(((rename_atom(a, mp), e) for a, e in atoms), key=lambda t: t[0].key))
        b = tuple((n, rename_poly(rng[v], mp)) for v, n in zip(o, names))
        m = _mono(b, at)
        if best is None or m.key < best.key:
            best = m
    return best


# ------------------------------------------------------------------ sums
def Sum(v, n, body):
    """Sum of body over the temp v in range(n)."""
    n = toP(n)
    if not body.terms or n.const == 0:
        return ZERO
    if v not in body.free:
        return body * n
    if n.cint is not None and 0 < n.cint <= 4:
        r = ZERO
        for i in range(n.cint):
            r = r + subst(body, {v: const(i)})
        return r
    out = ZERO
    for m, c in body.terms.items():
        out = out + _sum_mono(v, n, m) * c
    return out


def _lin(p, v):
    """(a, b) with p = a*v + b, a rational constant, v not in b; or None."""
    a, b = Fraction(0), {}
    for m, c in p.terms.items():
        if v in m.free:
            if m.binders or len(m.atoms) != 1 or m.atoms[0] != (v, 1):
                return None
            a = c
        else:
            b[m] = c
    return a, Poly(b)


def _bound(p, v):
    """p >= 0 as (1, lo): v >= lo or (-1, hi): v < hi, for integers; or None."""
    if not p.is_int():
        return None
    l = _lin(p, v)
    if l is not None:
        if l[0] == 1:
            return 1, -l[1]
        if l[0] == -1:
            return -1, l[1] + 1
    q, r = {}, {}
    for m, c in p.terms.items():
        if v not in m.free:
            r[m] = c
            continue
        if m.binders:
            return None
        d = dict(m.atoms)
        if d.pop(v, 0) != 1 or any(v in a.free for a in d):
            return None
        q[_mono((), tuple(sorted(d.items(), key=lambda t: t[0].key)))] = c
    if len(q) != 1:
        return None
    q, r = Poly(q), Poly(r)
    if CTX.entails_ge(q - 1):
        return 1, fdiv(q - 1 - r, q)
    if CTX.entails_ge(-q - 1):
        return -1, fdiv(r, -q) + 1
    return None


def _sum_mono(v, n, m):
    if v not in m.free:
        return Poly({m: Fraction(1)}) * n
    bs, atoms = open_mono(m)
    # eliminate sums over Kronecker deltas
    for a, e in atoms:
        if a.kind == 'g' and a.name == 'eq' and v in a.free:
            l = _lin(a.args[0], v)
            if l is not None and abs(l[0]) == 1:
                x = -l[1] * l[0]
                if any(w in x.free for w, _ in bs):
                    # sum over the inner variable first
                    for j, (w, r) in enumerate(bs):
                        lw = _lin(a.args[0], w)
                        if lw is not None and abs(lw[0]) == 1 and v not in r.free:
                            rest = [(b, f) for b, f in atoms if b is not a]
                            xw = -lw[1] * lw[0]
                            body = _mono_poly(rest)
                            with CTX.ranges([v], [n]):
                                body = subst(body, {w: xw}) * in_range(xw, r)
                            bs2 = bs[:j] + bs[j + 1:]
                            for u, s in reversed(bs2):
                                body = Sum(u, subst(s, {w: xw}), body)
                            return Sum(v, n, body)
                    if any(v in r.free for _, r in bs):
                        break
                rest = [(b, f) for b, f in atoms if b is not a]
                body = _mono_poly(rest)
                cond = bs and (any(_atom_cond(b) for b, _ in rest) or has_cond(x))
                if cond:
                    CTX.push_ranges([u for u, _ in bs], [s for _, s in bs])
                try:
                    body = subst(body, {v: x}) * in_range(x, n)
                finally:
                    if cond:
                        CTX.pop_ranges()
                for u, s in reversed(bs):
                    body = Sum(u, subst(s, {v: x}), body)
                return body
    # restrict the range by indicators
    for a, e in atoms:
        if a.kind == 'g' and a.name == 'ge' and v in a.free and \
                not any(w in a.free for w, _ in bs):
            l = _bound(a.args[0], v)
            if l is not None:
                rest = _mono_poly([(b, f) for b, f in atoms if b is not a])
                for u, s in reversed(bs):
                    rest = Sum(u, s, rest)
                if l[0] == 1:           # v >= lo
                    lo = l[1]
                    if CTX.entails_ge(-lo):
                        return Sum(v, n, rest)
                    if CTX.entails_ge(lo) and CTX.entails_ge(n - lo):
                        w = temp()
                        with CTX.ranges([w], [n - lo]):
                            b = subst(rest, {v: P(w) + lo})
                        return Sum(w, n - lo, b)
                else:                   # v <= hi, i.e. v < hi + 1
                    hi = l[1]
                    if CTX.entails_ge(hi - n):
                        return Sum(v, n, rest)
                    if CTX.entails_ge(n - hi) and CTX.entails_ge(hi):
                        return Sum(v, hi, rest)
    # split a range of product length
    if len(n.terms) == 1:
        for a, e in atoms:
            q = _find_fdiv(a, v)
            if q is not None:
                w = div_exact(n, q)
                if w is not None:
                    t1, t2 = temp(), temp()
                    body = _mono_poly(atoms)
                    with CTX.ranges([t1, t2] + [u for u, _ in bs], [w, q] + [s for _, s in bs]):
                        body = subst(body, {v: P(t1) * q + P(t2)})
                        for u, s in reversed(bs):
                            body = Sum(u, s, body)
                        r = Sum(t2, q, body)
                        return Sum(t1, w, r)
    if bs:
        r = _merge(bs + [(v, n)], atoms)
        if r is not None:
            return r
    return Poly({close_mono(bs + [(v, n)], atoms): Fraction(1)})


def _merge(bs, atoms):
    """Join two sums whose variables occur only as v1*r2 + v2 (v2 < r2)."""
    vs = [v for v, _ in bs]
    for v2, r2 in bs:
        at = [a for a, _ in atoms if v2 in a.free]
        if not at or r2.cint is not None or any(w in r2.free for w in vs):
            continue
        for v1, r1 in bs:
            if v1 is v2 or v1 not in at[0].free or any(w in r1.free for w in vs):
                continue
            if any((v1 in a.free) != (v2 in a.free) for a, _ in atoms) or \
                    not any(v1.key + '*' in x.key or '*' + v1.key in x.key for x in at[0].args
                            if isinstance(x, (Poly, Lam))) and at[0].kind == 'f':
                continue
            if any(v1 in r.free or v2 in r.free for _, r in bs):
                continue
            w = temp()
            mp = {v2: P(w) - P(v1) * r2}
            with CTX.ranges([w], [r1 * r2]):
                q = ONE
                for a, e in atoms:
                    x = subst_atom(a, mp) if v2 in a.free else P(a)
                    if v1 in x.free:
                        break
                    q = q * (x ** e if e > 0 else inv(x) ** (-e))
                else:
                    for u, s in bs:
                        if u is not v1 and u is not v2:
                            q = Sum(u, s, q)
                    return Sum(w, r1 * r2, q)
    return None


def _mono_poly(atoms):
    d = {}
    for a, e in atoms:
        d[a] = d.get(a, 0) + e
    return Poly({_mono((), tuple(sorted(d.items(), key=lambda t: t[0].key))): Fraction(1)})


def _find_fdiv(a, v):
    if v not in a.free:
        return None
    if a.kind == 'g' and a.name == 'fdiv' and v in a.args[0].free and v not in a.args[1].free \
            and a.args[0].key == P(v).key:
        return a.args[1]
    for x in a.args:
        ps = [x] if isinstance(x, Poly) else [x.body] if isinstance(x, Lam) else []
        for p in ps:
            if v in p.free:
                for m in p.terms:
                    for b, _ in m.atoms:
                        q = _find_fdiv(b, v)
                        if q is not None and not any(w.kind == 'b' for w in q.free):
                            return q
    return None


def div_exact(p, q):
    """p / q if the quotient is a polynomial, else None (q a monomial)."""
    if len(q.terms) != 1:
        return ONE if p == q else None
    (mq, cq), = q.terms.items()
    if mq.binders:
        return None
    out = {}
    dq = dict(mq.atoms)
    for m, c in p.terms.items():
        if m.binders:
            return None
        d = dict(m.atoms)
        for a, e in dq.items():
            k = d.get(a, 0) - e
            if k < 0:
                return None
            if k:
                d[a] = k
            else:
                d.pop(a)
        c = c / cq
        if c.denominator != 1:
            return None
        out[_mono((), tuple(sorted(d.items(), key=lambda t: t[0].key)))] = c
    return Poly(out)


def quotient(p, q):
    """p / q if it is a polynomial, else None (q any polynomial without sums)."""
    if any(m.binders for m in q.terms) or any(m.binders for m in p.terms):
        return None
    ats = sorted({a for x in (p, q) for m in x.terms for a, _ in m.atoms}, key=lambda a: a.key)

    def order(m):
        d = dict(m.atoms)
        return tuple(d.get(a, 0) for a in ats)
    mq = max(q.terms, key=order)
    out = ZERO
    for _ in range(40):
        if not p.terms:
            return out
        mp = max(p.terms, key=order)
        e = [(a, x - y) for a, x, y in zip(ats, order(mp), order(mq)) if x != y]
        if any(x < 0 for _, x in e):
            return None
        t = Poly({_mono((), tuple(e)): p.terms[mp] / q.terms[mq]})
        out = out + t
        p = p - t * q
    return None


def cancel(p):
    """p = n / d with exact division of n by d, else None."""
    ds = {a for m in p.terms for a, _ in m.atoms if a.kind == 'g' and a.name == 'inv'}
    if len(ds) != 1:
        return None
    a, = ds
    n = ZERO
    for m, c in p.terms.items():
        d = dict(m.atoms)
        if m.binders or d.get(a) != 1:
            return None
        n = n + Poly({_mono((), tuple(x for x in m.atoms if x[0] is not a)): c})
    return quotient(n, a.args[0])


# ------------------------------------------------------------------ functions
def _top_indicator(p):
    """An indicator among the factors of p (the smallest)."""
    best = None
    for m in p.terms:
        for a, _ in m.atoms:
            if a.kind == 'g' and a.name in ('eq', 'ge') and \
                    not any(v in a.free for v in m.bvars()) and \
                    (best is None or a.key < best.key):
                best = a
    return best


def _decided(p, c, val):
    """p with the factor c (an indicator) replaced by val."""
    out = ZERO
    for m, k in p.terms.items():
        if any(a is c for a, _ in m.atoms):
            if not val.terms:
                continue
            m = close_mono(*_drop(m, {c: 1})) if m.binders else \
                _mono((), tuple(x for x in m.atoms if x[0] is not c))
        out = out + Poly({m: k})
    return out


def _drop(m, com):
    bs, atoms = open_mono(m)
    out = []
    for a, e in atoms:
        e -= com.get(a, 0)
        if e:
            out.append((a, e))
    return bs, out


def _common(p):
    """Atoms (with positive exponents) that every summand of p contains."""
    com = None
    for m in p.terms:
        vs = m.bvars()
        d = {a: e for a, e in m.atoms if e > 0 and not any(v in a.free for v in vs) and not (
            a.kind == 'g' and a.name in ('eq', 'ge', 'bool'))}
        com = d if com is None else {a: min(e, d[a]) for a, e in com.items() if a in d}
        if not com:
            return None
    return com


def inv(p):
    if p.const is not None:
        if p.const == 0:
            return P(_mk('g', 'inv', (ZERO,), 'r'))
        return const(1 / p.const)
    if len(p.terms) == 1:
        (m, c), = p.terms.items()
        if not m.binders:
            d = {}
            for a, e in m.atoms:
                d[a] = -e
            return _norm_atoms(d) * (1 / c)
    c = _top_indicator(p)
    if c is not None:
        p0, p1 = _decided(p, c, ZERO), _decided(p, c, ONE)
        if p1.const != 0 and p0.const != 0:
            return P(c) * inv(p1) + (ONE - P(c)) * inv(p0)
    com = _common(p)
    if com:
        q = ZERO
        for m, c in p.terms.items():
            d = dict(m.atoms)
            for a, e in com.items():
                d[a] -= e
            if m.binders:
                # common atoms hold no bound variable: the names of the binders stay canonical
                m = close_mono(*_drop(m, com))
                q = q + Poly({m: c})
            else:
                q = q + _norm_atoms(d) * c
        return _norm_atoms({a: -e for a, e in com.items()}) * inv(q)
    m0 = min(p.terms, key=lambda m: m.key)
    c0 = p.terms[m0]
    q = p * (1 / c0)
    s = 'r' if all(a.sort in 'ir' for m in q.terms for a, e in m.atoms) else 'c'
    return P(_mk('g', 'inv', (q,), s)) * (1 / c0)


def _frac_sqrt(c):
    if c < 0:
        return None
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return Fraction(n, d)
    return None


def sqrt(p):
    if p.const is not None:
        s = _frac_sqrt(p.const)
        if s is not None:
            return const(s)
    if len(p.terms) == 1:
        (m, c), = p.terms.items()
        if not m.binders and m.atoms and all(e % 2 == 0 for _, e in m.atoms):
            s = _frac_sqrt(c)
            if s is not None:
                r = const(s)
                ok = True
                for a, e in m.atoms:
                    if a.sort == 'c' and (e // 2) % 2:
                        ok = False
                        break
                    b = P(a) ** abs(e // 2) if e > 0 else inv(P(a)) ** (-e // 2)
                    if (e // 2) % 2 and not (a.name in POSITIVE or CTX.entails_ge(P(a))):
                        ok = False
                        break
                    r = r * b
                if ok:
                    return r
    return P(_mk('g', 'sqrt', (p,), 'r' if p.is_real() else 'c'))


def exp(p):
    if not p.terms:
        return ONE
    return P(_mk('g', 'exp', (p,), 'r' if p.is_real() else 'c'))


def gfun(name, *args, sort='r'):
    """An analytic function without further rules."""
    return P(_mk('g', name, tuple(toP(a) if not isinstance(a, Lam) else a for a in args), sort))


def absv(p):
    if p.is_real():
        if CTX.entails_ge(p):
            return p
        if CTX.entails_ge(-p):
            return -p
    return sqrt(p * conj(p))


_conj_cache = {}


def conj_atom(a):
    if a is IM:
        return -I
    if a.sort in 'ir':
        return P(a)
    if a.kind in ('v', 't', 'f'):
        return P(_mk('g', 'conj', (P(a),), 'c'))
    if a.kind == 'g':
        if a.name == 'conj':
            return a.args[0]
        if a.name in ('expm', 'inverse'):
            return P(_mk('g', a.name, (a.args[0].map(conj),) + a.args[1:], 'c'))
        if a.name in ('exp', 'sqrt', 'inv', 'sin', 'cos', 'expm1'):
            f = {'exp': exp, 'sqrt': sqrt, 'inv': inv}.get(
                a.name, lambda p: gfun(a.name, p, sort='c'))
            return f(conj(a.args[0]))
        return P(_mk('g', 'conj', (P(a),), 'c'))
    raise TypeError(a.key)


def conj(p):
    ck = (p.key, CTX.version if has_cond(p) else None)
    r = _conj_cache.get(ck)
    if r is not None:
        return r
    if all(a.sort in 'ir' for m in p.terms for a, e in m.atoms):
        return p
    out = ZERO
    for m, c in p.terms.items():
        bs, atoms = open_mono(m)
        q = const(c)
        for a, e in atoms:
            x = conj_atom(a)
            q = q * (x ** e if e > 0 else inv(x) ** (-e))
        for v, n in reversed(bs):
            q = Sum(v, n, q)
        out = out + q
    _conj_cache[ck] = out
    return out


def re(p):
    return (p + conj(p)) * Fraction(1, 2)


def im(p):
    return (p - conj(p)) * I * Fraction(-1, 2)


# ------------------------------------------------------------------ conditions
def _content(p):
    """Integer polynomial divided by the gcd of its non-constant coefficients."""
    g = 0
    for m, c in p.terms.items():
        if m.key:
            g = math.gcd(g, int(c))
    return g


def ge(p):
    """Indicator of p >= 0 (p real)."""
    p = toP(p)
    if p.const is not None:
        return ONE if p.const >= 0 else ZERO
    isint = p.is_int()
    if isint:
        g = _content(p)
        if g > 1:
            p = Poly({m: Fraction(int(c) // g) if not m.key else c / g
                      for m, c in p.terms.items() if m.key or int(c) // g})
    else:
        lead = abs(p.terms[min(p.terms, key=lambda m: m.key)])
        p = p * (1 / lead)
    r = CTX.decide_ge(p)
    if r is not None:
        return ONE if r else ZERO
    if isint:
        for a, r, q in _multiples(p):
            if CTX.entails_ge(r) and CTX.entails_ge(q - 1 - r):
                return ge(a)
        lead = p.terms[min((m for m in p.terms if m.key), key=lambda m: m.key)]
        if lead < 0:
            return ONE - P(_mk('g', 'ge', (-p - 1,), 'i'))
    return P(_mk('g', 'ge', (p,), 'i'))


def _multiples(p):
    """(a, r, q) with p = a * q + r for variables q > 0 that occur in products."""
    if len(p.terms) < 2:
        return
    qs = {}
    for m in p.terms:
        if not m.binders and len(m.atoms) > 1:
            for x, e in m.atoms:
                if x.sort == 'i' and x.kind == 'v' and e == 1:
                    qs[x.key] = x
    for k in sorted(qs):
        x = qs[k]
        q = P(x)
        a, r = {}, {}
        for m, c in p.terms.items():
            d = dict(m.atoms)
            if not m.binders and d.get(x) == 1:
                d.pop(x)
                a[_mono((), tuple(sorted(d.items(), key=lambda t: t[0].key)))] = c
            else:
                r[m] = c
        a, r = Poly(a), Poly(r)
        if a.const is None and CTX.entails_ge(q - 1):
            yield a, r, q


def eq0(p):
    """Indicator of p == 0."""
    p = toP(p)
    if p.const is not None:
        return ONE if p.const == 0 else ZERO
    if CTX.injective and len(p.terms) == 2:
        at = []
        for m, c in p.terms.items():
            if not m.binders and len(m.atoms) == 1 and m.atoms[0][1] == 1 and abs(c) == 1 and \
                    m.atoms[0][0].kind == 'f' and m.atoms[0][0].name in CTX.injective:
                at.append((m.atoms[0][0], c))
        if len(at) == 2 and at[0][1] == -at[1][1] and at[0][0].name == at[1][0].name and \
                at[0][0].args[:-1] == at[1][0].args[:-1]:
            return eq0(at[0][0].args[-1] - at[1][0].args[-1])
    whole = p
    lead = p.terms[min((m for m in p.terms if m.key), key=lambda m: m.key)]
    p = p * (1 / lead)
    if all(a.sort in 'ir' for m in p.terms for a, e in m.atoms):
        r = CTX.decide_eq(p)
        if r is not None:
            return ONE if r else ZERO
    if whole.is_int():
        for a, r, q in _multiples(whole):
            if r.terms and CTX.entails_ge(q - 1 - r) and CTX.entails_ge(q - 1 + r):
                return eq0(a) * eq0(r)
    return P(_mk('g', 'eq', (p,), 'i'))


def in_range(x, n):
    if n.const is None and x.const is None and x.is_int():
        for a, r, q in _multiples(x):
            if q == n:
                return eq0(a + fdiv(r, n))
    return ge(x) * ge(n - 1 - x)


def boolvar(name, *args):
    return P(_mk('g', 'bool', (name,) + tuple(args), 'i'))


def Not(c):
    return ONE - c


def And(*cs):
    r = ONE
    for c in cs:
        r = r * c
    return r


def Or(a, b):
    return a + b - a * b


def ite(c, a, b):
    if c.const is not None:
        return a if c.const else b
    if a == b:
        return a
    return b + c * (a - b)


def divisors(m):
    """Proper divisors of a monomial of dimensions other than 1, largest degree first."""
    out = [ONE]
    for a, e in m.atoms:
        if a.sort == 'i':
            out = [p * P(a) ** k if k else p for p in out for k in range(e + 1)]
    deg = lambda p: sum(e for mm in p.terms for _, e in mm.atoms)
    n = sum(e for _, e in m.atoms)
    return sorted((p for p in out if 0 < deg(p) < n), key=lambda p: (-deg(p), p.key))


def fdiv(p, q):
    """Floor division of integers, q > 0."""
    p, q = toP(p), toP(q)
    if p.cint is not None and q.cint is not None:
        return const(p.cint // q.cint)
    if q.const == 1:
        return p
    k = (CTX.version, 'fdiv', p.key, q.key)
    r = CTX.cache.get(k)
    if r is None:
        r = _fdiv(p, q)
        CTX.cache[k] = r
    return r


def _fdiv(p, q):
    # split off multiples of q
    mult, rest = {}, {}
    if len(q.terms) == 1:
        for m, c in p.terms.items():
            x = div_exact(Poly({m: c}), q)
            if x is not None:
                for mm, cc in x.terms.items():
                    mult[mm] = mult.get(mm, 0) + cc
            else:
                rest[m] = c
        a, b = Poly({m: c for m, c in mult.items() if c}), Poly(rest)
    else:
        a, b = (ONE, ZERO) if p == q else (ZERO, p)
    if not b.terms:
        return a
    if len(b.terms) == 1:
        # (x // y) // q = x // (y*q) for positive integers
        (mb, cb), = b.terms.items()
        if cb == 1 and not mb.binders and len(mb.atoms) == 1 and mb.atoms[0][1] == 1:
            x = mb.atoms[0][0]
            if x.kind == 'g' and x.name == 'fdiv':
                return a + fdiv(x.args[0], x.args[1] * q)
    if len(q.terms) == 1:
        # p = f*A + B with 0 <= B < f for a factor f of q: p // q = A // (q/f)
        (mq, cq), = q.terms.items()
        if cq == 1 and sum(e for _, e in mq.atoms) > 1:
            tried = set()
            for F in divisors(mq):
                A, B = {}, {}
                for m, c in b.terms.items():
                    x = div_exact(Poly({m: c}), F)
                    if x is not None:
                        A.update(x.terms)
                    else:
                        B[m] = c
                A, B = Poly(A), Poly(B)
                if not A.terms or B.key in tried:
                    continue
                tried.add(B.key)
                if CTX.entails_ge(B) and CTX.entails_ge(F - 1 - B):
                    return a + fdiv(A, div_exact(q, F))
    if CTX.entails_ge(b) and CTX.entails_ge(q - 1 - b):
        return a
    for k in (1, -1):
        if CTX.facts_n and CTX.entails_ge(b - q * k) and CTX.entails_ge(q * (k + 1) - 1 - b):
            return a + k
    return a + P(_mk('g', 'fdiv', (b, q), 'i'))


def mod(p, q):
    return toP(p) - toP(q) * fdiv(p, q)


def expm_el(lam, i, j):
    """Element of the exponential of a matrix given as Lam."""
    if not lam.body.terms:
        return eq0(toP(i) - toP(j))
    return P(_mk('g', 'expm', (lam, toP(i), toP(j)), 'c'))


def rebuild(a, args):
    """Apply the constructor of the atom a to new arguments."""
    if a.kind == 'g':
        n = a.name
        if n == 'ge':
            return ge(args[0])
        if n == 'eq':
            return eq0(args[0])
        if n == 'fdiv':
            return fdiv(*args)
        if n == 'sqrt':
            return sqrt(args[0])
        if n == 'exp':
            return exp(args[0])
        if n == 'inv':
            return inv(args[0])
        if n == 'conj':
            return conj(args[0])
        if n == 'expm':
            return expm_el(*args)
    return P(_mk(a.kind, a.name, tuple(args), a.sort))


# ------------------------------------------------------------------ substitution
_sub_cache = {}


def has_cond(p):
    """Indicators or divisions occur, whose simplification depends on facts."""
    for m in p.terms:
        for a, _ in m.atoms:
            if _atom_cond(a):
                return True
    return False


_ac = {}


def _atom_cond(a):
    r = _ac.get(a.key)
    if r is None:
        r = a.kind == 'g' and a.name in ('ge', 'eq', 'fdiv', 'sqrt')
        if not r:
            for x in a.args:
                if isinstance(x, Poly) and has_cond(x) or isinstance(x, Lam) and has_cond(x.body):
                    r = True
                    break
        _ac[a.key] = r
    return r


def subst(p, mp, simp=True):
    """Replace variables by polynomials; everything is renormalised."""
    if not (p.free & set(mp)):
        return p
    mp = {k: v for k, v in mp.items() if k in p.free}
    ck = None
    if len(p.terms) < 200:
        ck = (p.key, tuple(sorted((k.key, v.key) for k, v in mp.items())),
              CTX.version if has_cond(p) else None)
        r = _sub_cache.get(ck)
        if r is not None:
            return r
    out = ZERO
    for m, c in p.terms.items():
        out = out + _subst_mono(m, mp) * c if m.free & set(mp) else out + Poly({m: c})
    if ck is not None:
        _sub_cache[ck] = out
    return out


def _subst_mono(m, mp):
    bs, atoms = open_mono(m)
    bs = [(v, subst(r, mp)) for v, r in bs]
    cond = bs and any(_atom_cond(a) for a, _ in atoms)
    if cond:
        CTX.push_ranges([v for v, _ in bs], [r for _, r in bs])
    try:
        q = ONE
        d = {}
        for a, e in atoms:
            if a.free & set(mp):
                x = subst_atom(a, mp)
                s = x.single()
                if s is not None:
                    d[s] = d.get(s, 0) + e
                else:
                    q = q * (x ** e if e > 0 else inv(x) ** (-e))
            else:
                d[a] = d.get(a, 0) + e
        q = _norm_atoms(d) * q
    finally:
        if cond:
            CTX.pop_ranges()
    for v, n in reversed(bs):
        q = Sum(v, n, q)
    return q


def subst_atom(a, mp):
    if a in mp:
        return mp[a]
    args = [subst(x, mp) if isinstance(x, Poly) else
            (x.map(lambda b: subst(b, mp)) if isinstance(x, Lam) and x.free & set(mp) else x)
            for x in a.args]
    return rebuild(a, args)


def subst_fn(p, defs):
    """Replace applications of uninterpreted functions: defs name -> f(args)."""
    if not (p.fns & set(defs)):
        return p
    out = ZERO
    for m, c in p.terms.items():
        if not (m.fns & set(defs)):
            out = out + Poly({m: c})
            continue
        bs, atoms = open_mono(m)
        bs = [(v, subst_fn(r, defs)) for v, r in bs]
        with CTX.ranges([v for v, _ in bs], [r for _, r in bs]):
            q = const(c)
            for a, e in atoms:
                if a.fns & set(defs):
                    args = [subst_fn(x, defs) if isinstance(x, Poly) else
                            (x.map(lambda b: subst_fn(b, defs)) if isinstance(x, Lam) else x)
                            for x in a.args]
                    if a.kind == 'f' and a.name in defs:
                        x = defs[a.name](*args)
                        if x is None:
                            x = rebuild(a, args)
                    else:
                        x = rebuild(a, args)
                    q = q * (x ** e if e > 0 else inv(x) ** (-e))
                else:
                    q = q * (P(a) ** e if e > 0 else inv(P(a)) ** (-e))
        for v, n in reversed(bs):
            q = Sum(v, n, q)
        out = out + q
    return out


_rn_cache = {}


def renorm(p):
    """Rebuild the conditional atoms under the current facts."""
    if not has_cond(p):
        return p
    ck = (p.key, CTX.version)
    r = _rn_cache.get(ck)
    if r is not None:
        return r
    out = ZERO
    for m, c in p.terms.items():
        if not _mono_cond(m) and not any(has_cond(r) for _, r in m.binders):
            out = out + Poly({m: c})
            continue
        bs, atoms = open_mono(m)
        bs = [(v, renorm(r)) for v, r in bs]
        with CTX.ranges([v for v, _ in bs], [r for _, r in bs]):
            q = const(c)
            for a, e in atoms:
                if _atom_cond(a):
                    args = [renorm(x) if isinstance(x, Poly) else
                            (x.map(renorm) if isinstance(x, Lam) else x) for x in a.args]
                    x = rebuild(a, args)
                else:
                    x = P(a)
                q = q * (x ** e if e > 0 else inv(x) ** (-e))
        for v, n in reversed(bs):
            q = Sum(v, n, q)
        out = out + q
    _rn_cache[ck] = out
    return out


# ------------------------------------------------------------------ facts and z3
TEMP = regex.compile(r't:t\d+')
_sym = {}


def symbols(p):
    """Variables and uninterpreted functions of a term."""
    r = _sym.get(p.key)
    if r is None:
        r = frozenset(v.key for v in p.free) | (p.fns & FNAMES)
        for m in p.terms:
            for a, _ in m.atoms:
                if a.name == 'bool':
                    r = r | {a.key}
        _sym[p.key] = r
    return r


RLIMIT = 2500000         # z3 resources per query, independent of the load


EXTREMES = []


class Ctx:
    """Facts (path conditions, ranges of indices) and their consequences."""

    def __init__(self):
        self.reset()

    def reset(self):
        self._solver = z3.Solver()
        self._solver.set('rlimit', RLIMIT)
        self._zdepth = self._zfacts = 0     # what the solver has been told
        self._small = z3.Solver()
        self._small.set('rlimit', RLIMIT)
        self.facts = []
        self.polys = []         # the facts as indicator polynomials
        self.syms = []          # their symbols
        self.cache = {}
        self.version = 0
        self._vers = {}
        self.stack = []
        self.zc = {}
        self.injective = set()  # integer functions f(.., i) injective in i
        self.fbounds = {}       # integer function name -> (lo, hi): lo <= value < hi
        self.queries = 0
        self.time = 0.

    @property
    def facts_n(self):
        return len(self.facts)

    @property
    def solver(self):
        """The solver, knowing all facts."""
        while self._zdepth < len(self.stack):
            self._add(self.stack[self._zdepth])
            self._solver.push()
            self._zdepth += 1
        self._add(len(self.facts))
        return self._solver

    def _add(self, n):
        for i in range(self._zfacts, n):
            self._solver.add(*self.zfact(i))
        self._zfacts = max(self._zfacts, n)

    def zfact(self, i):
        k = '!' + self.facts[i]
        x = self.zc.get(k)
        if x is None:
            f = self.polys[i]
            if isinstance(f, tuple):
                v, n = f
                y = self.zterm_atom(v.single())
                x = [y >= 0]
                if n.is_int() or n.is_real():
                    x.append(y < self.zterm(n))
            elif not f.terms:
                x = [z3.BoolVal(False)]
            else:
                x = [self.zbool(f)]
            self.zc[k] = x
        return x

    def _bump(self):
        k = tuple(self.facts)
        self.version = self._vers.setdefault(k, len(self._vers) + 1)

    # -- pushing facts
    def assume(self, c):
        """c: indicator polynomial that is known to be one."""
        if c.const is not None:
            if c.const == 0:
                self.facts.append('false')
                self.polys.append(ZERO)
                self.syms.append(None)
                self._bump()
            return
        self.facts.append(c.key)
        self.polys.append(c)
        self.syms.append(symbols(c))
        self._bump()

    def push(self):
        self.stack.append(len(self.facts))

    def pop(self):
        n = self.stack.pop()
        if len(self.facts) > n:
            del self.facts[n:]
            del self.polys[n:]
            del self.syms[n:]
            self._bump()
        if self._zdepth > len(self.stack):
            self._solver.pop()
            self._zdepth -= 1
            self._zfacts = min(self._zfacts, n)

    def push_ranges(self, vs, ns):
        self.push()
        for v, n in zip(vs, ns):
            self.facts.append('0<=%s<%s' % (v.key, n.key))
            self.polys.append((P(v), n))
            self.syms.append(frozenset([v.key]) | symbols(n))
        self._bump()

    def pop_ranges(self):
        self.pop()

    def relevant(self, sy):
        """Indices of the facts connected with the symbols."""
        sy = set(sy)
        todo = list(range(len(self.facts)))
        out = []
        bounds = dict(self.fbounds)
        while True:
            for f in [f for f in bounds if f in sy]:
                for b in bounds.pop(f):
                    sy |= symbols(toP(b))
            rest = []
            for i in todo:
                x = self.syms[i]
                if x is None or not sy.isdisjoint(x):
                    out.append(i)
                    if x:
                        sy |= x
                else:
                    rest.append(i)
            if len(rest) == len(todo):
                out.sort()
                return out
            todo = rest

    def extremes(self, p, rel):
        """Instances of: the maximum (minimum) of a list is not below (above)
        its elements, at the indices that range over the list."""
        red, apps = {}, {}

        def walk(q):
            for m in q.terms:
                for a, _ in m.atoms:
                    if a.kind == 'f':
                        apps.setdefault(a.name, []).append(a)
                    if a.kind == 'g' and a.name in ('red_max', 'red_min') and \
                            len(a.args[0].shape) == 1:
                        red[a.key] = a
                    else:
                        for x in a.args:
                            if isinstance(x, Poly):
                                walk(x)
        walk(p)
        for i in rel:
            f = self.polys[i]
            walk(f[1] if isinstance(f, tuple) else f)
        out = []
        for a in red.values():
            l = a.args[0]
            at = {ZERO.key: ZERO}
            for f in self.polys:
                if isinstance(f, tuple) and f[1] == l.shape[0]:
                    at[f[0].key] = f[0]
            b = l.body.single()
            if b is not None and b.kind == 'f':
                for k, x in enumerate(b.args):
                    if isinstance(x, Poly) and x.single() is l.vars[0]:
                        for y in apps.get(b.name, ()):
                            if len(y.args) == len(b.args):
                                at[y.args[k].key] = y.args[k]
            for x in at.values():
                d = P(a) - l.at(x)
                out.append((x, l.shape[0], d if a.name == 'red_max' else -d))
        return out

    def ask(self, p, key, formulas):
        """Which of the formulas is unsatisfiable with the relevant facts (its
        number) or None; answers are reused up to the names of variables."""
        k = (self.version, key, p.key)
        r = self.cache.get(k, 0)
        if r != 0:
            return r
        rel = self.relevant(symbols(p))
        names = {}

        def ren(m):
            return names.setdefault(m.group(0), 't:%d' % len(names))
        lem = self.extremes(p, rel) if EXTREMES else ()
        canon = TEMP.sub(ren, '%s|%s|%s' % (key, p.key, '|'.join(self.facts[i] for i in rel)))
        if lem:
            canon += TEMP.sub(ren, '|'.join('+%s<%s:%s' % (x[0].key, x[1].key, x[2].key) for x in lem))
        r = self.cache.get(canon, 0)
        if r == 0:
            r = None
            s = self._small
            s.push()
            for i in rel:
                s.add(*self.zfact(i))
            for x in lem:
                i, n, d = x
                i, n = self.zterm(i), self.zterm(n)
                s.add(z3.Implies(z3.And(i >= 0, i < n), self.zterm(d) >= 0))
            for n, f in enumerate(formulas()):
                self.queries += 1
                t = time.time()
                s.push()
                s.add(f)
                x = s.check()
                s.pop()
                self.time += time.time() - t
                if x == z3.unsat:
                    r = n + 1
                    break
            s.pop()
            self.cache[canon] = r
        self.cache[k] = r
        return r

    class _R:
        def __init__(self, ctx, vs, ns):
            self.a = (ctx, [v if isinstance(v, Atom) else v.single() for v in vs],
                      [toP(n) for n in ns])

        def __enter__(self):
            self.a[0].push_ranges(self.a[1], self.a[2])

        def __exit__(self, *_):
            self.a[0].pop()

    def ranges(self, vs, ns):
        return Ctx._R(self, vs, ns)

    # -- translation
    def zterm_atom(self, a):
        x = self.zc.get(a.key)
        if x is not None:
            return x
        if a.kind == 'g' and a.name == 'fdiv':
            x = self.zterm(a.args[0]) / self.zterm(a.args[1])
        elif a.kind == 'g' and a.name in ('ge', 'eq'):
            t = self.zterm(a.args[0])
            x = z3.If(t >= 0 if a.name == 'ge' else t == 0, z3.IntVal(1), z3.IntVal(0))
        elif a.kind == 'g' and a.name == 'bool':
            x = z3.If(z3.Bool(a.key), z3.IntVal(1), z3.IntVal(0))
        elif a.sort == 'i':
            x = z3.Int(a.key)
            if getattr(a, 'name', None) in self.fbounds:
                lo, hi = [self.zterm(toP(b)) for b in self.fbounds[a.name]]
                x = z3.If(x < lo, lo, z3.If(x >= hi, hi - 1, x))
        else:
            x = z3.Real(a.key)
        self.zc[a.key] = x
        return x

    def zterm(self, p):
        k = '#' + p.key
        x = self.zc.get(k)
        if x is not None:
            return x
        isint = p.is_int()
        tot = None
        for m, c in p.terms.items():
            if isint:
                t = z3.IntVal(int(c))
            else:
                t = z3.RealVal(str(c))
            first = c == 1
            if m.binders:
                y = z3.Int(m.key) if isint else z3.Real(m.key)
                t = y if first else t * y
            else:
                for a, e in m.atoms:
                    y = self.zterm_atom(a)
                    if not isint and y.sort() == z3.IntSort():
                        y = z3.ToReal(y)
                    if e < 0:
                        y = 1 / y
                    for _ in range(abs(e)):
                        t = y if first else t * y
                        first = False
            tot = t if tot is None else tot + t
        if tot is None:
            tot = z3.IntVal(0) if isint else z3.RealVal(0)
        self.zc[k] = tot
        return tot

    def zbool(self, c):
        """z3 formula of an indicator polynomial."""
        s = c.single()
        if s is not None and s.kind == 'g':
            if s.name == 'ge':
                return self.zterm(s.args[0]) >= 0
            if s.name == 'eq':
                return self.zterm(s.args[0]) == 0
            if s.name == 'bool':
                return z3.Bool(s.key)
        return self.zterm(c) >= 1

    # -- queries
    def entails(self, c):
        """Do the facts imply the indicator polynomial c == 1?"""
        if c.const is not None:
            return c.const == 1
        return self.ask(c, 'e', lambda: [z3.Not(self.zbool(c))]) == 1

    def feasible(self, c=None):
        """False only if the facts (and c) are contradictory."""
        if c is None:
            k = (self.version, 'feas')
            r = self.cache.get(k)
            if r is None:
                names = {}

                def ren(m):
                    return names.setdefault(m.group(0), 't:%d' % len(names))
                canon = TEMP.sub(ren, 'F|' + '|'.join(self.facts))
                r = self.cache.get(canon)
                if r is None:
                    self.queries += 1
                    t = time.time()
                    r = self.cache[canon] = self.solver.check() != z3.unsat
                    self.time += time.time() - t
                self.cache[k] = r
            return r
        if c.const is not None:
            return c.const == 1 and self.feasible()
        return self.ask(c, 'f', lambda: [self.zbool(c)]) is None and self.feasible()

    def bounds_of(self):
        """Ranges 0 <= v < n of the indices and lower bounds of variables among the facts."""
        r = self.cache.get((self.version, 'bounds'))
        if r is None:
            lo, rg = {}, {}
            for i, f in enumerate(self.polys):
                if isinstance(f, tuple):
                    v = _dictpoly(f[0])
                    n = _dictpoly(f[1])
                    if v is not None and n is not None and len(v) == 1:
                        (((a, _),), _), = v.items()
                        rg[a] = (i, n)
                elif len(f.terms) == 1 and f.terms[next(iter(f.terms))] == 1:
                    m, = f.terms
                    if m.binders:
                        continue
                    for a, e in m.atoms:
                        if a.name == 'ge':
                            x = _dictpoly(a.args[0])
                            if x is None:
                                continue
                            c = x.pop((), 0)
                            if len(x) == 1:
                                (k, w), = x.items()
                                if len(k) == 1 and k[0][1] == 1 and w == 1:
                                    lo[k[0][0]] = max(lo.get(k[0][0], -c), -c)
            r = self.cache[(self.version, 'bounds')] = (lo, rg)
        return r

    def bound_ge(self, p):
        """p >= 0 by inserting the bounds of the indices and dimensions: sufficient only."""
        if not self.facts:
            return False
        d = _dictpoly(p)
        if d is None or len(d) > 40:
            return False
        k = (self.version, 'bound', p.key)
        r = self.cache.get(k)
        if r is None:
            lo, rg = self.bounds_of()
            d, rg = _split_div(p, d, rg)
            r = self.cache[k] = _bound_ge(d, lo, rg, [0])
        return r

    def decide_ge(self, p):
        if p.is_int():
            if self.bound_ge(p):
                return True
            if self.bound_ge(-p - 1):
                return False

        def f():
            t = self.zterm(p)
            yield z3.Not(t >= 0)
            yield t >= 0
        r = self.ask(p, 'ge', f)
        return None if r is None else r == 1

    def decide_eq(self, p):
        def f():
            t = self.zterm(p)
            yield t == 0
            yield z3.Not(t == 0)
        r = self.ask(p, 'eq', f)
        return None if r is None else r == 2

    def entails_ge(self, p):
        p = toP(p)
        if p.const is not None:
            return p.const >= 0
        if not (p.is_int() or p.is_real()):
            return False
        return self.decide_ge(p) is True

    def entails_eq(self, a, b):
        p = toP(a) - toP(b)
        if not p.terms:
            return True
        if p.const is not None:
            return False
        return self.decide_eq(p) is True if all(
            x.sort in 'ir' for m in p.terms for x, e in m.atoms) else False


def _dictpoly(p):
    """Polynomial in integer atoms as {((atom key, exponent), ..): coefficient}."""
    d = {}
    for m, c in p.terms.items():
        if m.binders:
            return None
        for a, e in m.atoms:
            if a.sort != 'i' or e < 0:
                return None
        d[tuple(sorted((a.key, e) for a, e in m.atoms))] = c
    return d


def _monomial(d):
    if d is not None and len(d) == 1:
        (m, c), = d.items()
        if c == 1:
            return dict(m)
    return None


def _split_div(p, d, rg):
    """t = y*Q + R with Q = t // y for indices t in a range divisible by y."""
    div = {}
    for m in p.terms:
        for a, _ in m.atoms:
            if a.name == 'fdiv' and a.kind == 'g':
                t = _dictpoly(a.args[0])
                t, y = _monomial(t), _monomial(_dictpoly(a.args[1]))
                if t is None or y is None or len(t) != 1 or list(t.values()) != [1]:
                    continue
                t, = t
                n = _monomial(rg[t][1]) if t in rg else None
                if n is None or any(n.get(x, 0) < e for x, e in y.items()) or \
                        t in div and div[t][0] != a.key:
                    continue
                div[t] = (a.key, y, n)
    if not div:
        return d, rg
    rg, out = dict(rg), {}
    for t, (q, y, n) in div.items():
        rest = {x: e - y.get(x, 0) for x, e in n.items()}
        i = rg[t][0]
        rg[q] = (i, {tuple(sorted((x, e) for x, e in rest.items() if e)): Fraction(1)})
        rg['%' + q] = (i, {tuple(sorted(y.items())): Fraction(1)})
    for m, c in d.items():
        ts = [((), c)]
        for a, e in m:
            for _ in range(e):
                if a in div:
                    q, y, _n = div[a]
                    ts = [x for k, w in ts for x in (
                        (k + ((q, 1),) + tuple(y.items()), w), (k + (('%' + q, 1),), w))]
                else:
                    ts = [(k + ((a, 1),), w) for k, w in ts]
        for k, w in ts:
            z = {}
            for a, e in k:
                z[a] = z.get(a, 0) + e
            kk = tuple(sorted(z.items()))
            out[kk] = out.get(kk, 0) + w
    return {m: c for m, c in out.items() if c}, rg


def _bound_ge(d, lo, rg, work):
    work[0] += 1
    if work[0] > 200:
        return False
    neg = [m for m, c in d.items() if c < 0]
    if not neg:
        # products of non-negative numbers
        return all(a in rg or lo.get(a, -1) >= 0 for m in d for a, _ in m)
    best = None
    for m in d:
        for a, e in m:
            if a in rg and (best is None or rg[a][0] > rg[best][0]):
                best = a
    if best is None:
        # v = lo + v' with v' >= 0
        out = {(): Fraction(0)}
        for m, c in d.items():
            t = {(): c}
            for a, e in m:
                if a not in lo:
                    return False
                for _ in range(e):
                    t2 = {}
                    for k, w in t.items():
                        q = dict(k)
                        q[a] = q.get(a, 0) + 1
                        k2 = tuple(sorted(q.items()))
                        t2[k2] = t2.get(k2, 0) + w
                        if lo[a]:
                            t2[k] = t2.get(k, 0) + w * lo[a]
                    t = t2
            for k, w in t.items():
                out[k] = out.get(k, 0) + w
        return all(w >= 0 for w in out.values())
    n = rg[best][1]
    c, r = {}, {}
    for m, w in d.items():
        e = dict(m).get(best, 0)
        if e > 1:
            return False
        if e:
            c[tuple(x for x in m if x[0] != best)] = w
        else:
            r[m] = w
    # linear in the index: the minimum is at one of the ends
    top = dict(r)
    for m, w in c.items():
        top[m] = top.get(m, 0) - w
        for k, x in n.items():
            q = dict(m)
            for a, e in k:
                q[a] = q.get(a, 0) + e
            kk = tuple(sorted(q.items()))
            top[kk] = top.get(kk, 0) + w * x
    top = {m: w for m, w in top.items() if w}
    if all(w >= 0 for w in c.values()) and all(a in rg or lo.get(a, -1) >= 0
                                               for m in c for a, _ in m):
        return _bound_ge(r, lo, rg, work)
    if all(w <= 0 for w in c.values()) and all(a in rg or lo.get(a, -1) >= 0
                                               for m in c for a, _ in m):
        return _bound_ge(top, lo, rg, work)
    return _bound_ge(r, lo, rg, work) and _bound_ge(top, lo, rg, work)


CTX = Ctx()
