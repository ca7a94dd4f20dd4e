"""Discharging obligations p == 0: normal form, case split on the indicators,
congruence, unfolding of recursive definitions; refutation by evaluation."""
import itertools
import time

from .values import *
from . import terms as T
from . import values as V
from .loops import DEFS
from .numeric import counterexample, describe_env


class Giveup(Exception):
    pass


BOUND = ('s', 'l', 'c')


def is_bound(v):
    """Bound variables of sums and lambdas (indices of arrays are free)."""
    return v.kind == 'b' and not v.name.startswith('ix')


def atoms_of(p, deep=True, out=None, seen=None):
    """Atoms of a term that contain no bound variable."""
    if out is None:
        out, seen = [], set()
    for m in p.terms:
        for q in [r for _, r in m.binders]:
            atoms_of(q, deep, out, seen)
        for a, e in m.atoms:
            _atom(a, deep, out, seen)
    return out


def _atom(a, deep, out, seen):
    if a.key in seen:
        return
    seen.add(a.key)
    if deep:
        for x in a.args:
            if isinstance(x, Poly):
                atoms_of(x, deep, out, seen)
            elif isinstance(x, Lam):
                for s in x.shape:
                    atoms_of(s, deep, out, seen)
                atoms_of(x.body, deep, out, seen)
    if not any(is_bound(v) for v in a.free):
        out.append(a)


def replace_atom(p, a, q):
    """p with the atom a replaced by the polynomial q everywhere."""
    return subst_fn2(p, {a.key: q})


def subst_fn2(p, mp):
    out = ZERO
    for m, c in p.terms.items():
        if not any(k in m.key for k in mp):
            out = out + Poly({m: c})
            continue
        bs, atoms = T.open_mono(m)
        bs = [(v, subst_fn2(r, mp)) for v, r in bs]
        with CTX.ranges([v for v, _ in bs], [r for _, r in bs]):
            q = const(c)
            for a, e in atoms:
                if a.key in mp:
                    x = mp[a.key]
                elif any(k in a.key for k in mp):
                    args = [subst_fn2(x, mp) if isinstance(x, Poly) else
                            x.map(lambda b: subst_fn2(b, mp)) if isinstance(x, Lam) else x
                            for x in a.args]
                    x = T.rebuild(a, args)
                else:
                    x = P(a)
                q = q * (x ** e if e > 0 else inv(x) ** (-e))
        for v, n in reversed(bs):
            q = T.Sum(v, n, q)
        out = out + q
    return out


class Rule:
    """Rewrite rule f(pattern) -> rhs from an assumed universal equality."""

    def __init__(self, name, args, vars_, rhs, shape):
        self.name, self.args, self.vars, self.rhs, self.shape = name, args, vars_, rhs, shape

    def apply(self, *args):
        if len(args) != len(self.args):
            return None
        mp = {}
        for a, b in zip(self.args, args):
            if isinstance(a, Lam) or isinstance(b, Lam):
                if a != b:
                    return None
                continue
            s = a.single()
            if s is not None and s in self.vars:
                if s in mp and mp[s] != b:
                    return None
                mp[s] = b
            elif a != b:
                return None
        if len(mp) != len(self.vars):
            return None
        for v, n in zip(self.vars, self.shape):
            if not (CTX.entails_ge(mp[v]) and CTX.entails_ge(n - 1 - mp[v])):
                return None
        return subst(self.rhs, mp)


def rules_of_facts():
    """Rewrite rules from forall-facts of the form x[i] == y[i]."""
    out = []
    for f in CTX.polys:
        if isinstance(f, tuple):
            continue
        s = f.single()
        if s is None or s.kind != 'g' or s.name != 'bool' or s.args[0] != 'forall':
            continue
        l = s.args[1]
        e = l.body.single()
        if e is None or e.name != 'eq':
            continue
        d = e.args[0]
        for m, c in d.terms.items():
            if m.binders or len(m.atoms) != 1 or m.atoms[0][1] != 1:
                continue
            a = m.atoms[0][0]
            if a.kind == 'f' and set(l.vars) <= a.free:
                rhs = (d - Poly({m: c})) * (-1 / c)
                if a.name in rhs.fns:
                    continue
                out.append(Rule(a.name, a.args, l.vars, rhs, l.shape))
                break
    return out


def rewrite(p, rules):
    by = {}
    for r in rules:
        by.setdefault(r.name, []).append(r)

    def ap(rs):
        def f(*args):
            for r in rs:
                x = r.apply(*args)
                if x is not None:
                    return x
            return None
        return f
    defs = {n: ap(rs) for n, rs in by.items()}
    for _ in range(4):
        q = T.subst_fn(p, defs)
        if q == p:
            return q
        p = q
    return p


def clear_denominators(p):
    for _ in range(6):
        q = None
        for m in p.terms:
            for a, e in m.atoms:
                if a.kind == 'g' and a.name == 'inv' and not any(is_bound(v) for v in a.free):
                    q = a
                    break
            if q is not None:
                break
        if q is None:
            return p
        k = max((e for m in p.terms for a, e in m.atoms if a is q), default=0)
        den = q.args[0]
        out = ZERO
        for m, c in p.terms.items():
            bs, atoms = T.open_mono(m)
            e0 = 0
            rest = []
            for a, e in atoms:
                if a is q:
                    e0 = e
                else:
                    rest.append((a, e))
            t = T._mono_poly(rest)
            for v, n in reversed(bs):
                t = T.Sum(v, n, t)
            out = out + t * c * den ** (k - e0)
        p = out
    return p


def leads(p):
    """inv(q) and [q == 0] under sums with the leading term of q chosen so that the key of the
    summand is the smallest: the name of a bound variable does not decide about signs."""
    out, changed = ZERO, False
    for m, c in p.terms.items():
        best = None
        if m.binders:
            bs, atoms = T.open_mono(m)
            vs = {v for v, _ in bs}
            ch, size = [], 1
            for x, (a, e) in enumerate(atoms):
                if a.kind == 'g' and a.name in ('inv', 'eq') and a.free & vs and \
                        isinstance(a.args[0], Poly) and len(a.args[0].terms) > 1:
                    ch.append((x, sorted(a.args[0].terms.items(), key=lambda t: t[0].key)))
                    size *= len(ch[-1][1])
            if ch and size <= 64:
                for pick in itertools.product(*[t for _, t in ch]):
                    at, k = list(atoms), c
                    for (x, _), (_, l) in zip(ch, pick):
                        a, e = atoms[x]
                        at[x] = T._mk('g', a.name, (a.args[0] * (1 / l),), a.sort), e
                        if a.name == 'inv':
                            k = k * (1 / l) ** e if e > 0 else k * l ** -e
                    d = {}
                    for a, e in at:
                        d[a] = d.get(a, 0) + e
                    n = T.close_mono(bs, sorted(d.items(), key=lambda t: t[0].key))
                    if best is None or n.key < best[0].key:
                        best = n, k
        if best is None or best[0] == m:
            out = out + Poly({m: c})
        else:
            out, changed = out + Poly({best[0]: best[1]}), True
    return out if changed else None


class Prover:
    def __init__(self, deadline=None, lemmas=(), interp=None, refute=True, seed='1'):
        self.deadline = deadline
        self.lemmas = list(lemmas)      # functions Poly -> Poly (sound rewrites)
        self.interp = interp
        self.refute = refute
        self.seed = seed
        self.splits = 0
        self.max_splits = 400
        self.unfolds = 2
        self.open = None

    def simplify(self, p):
        p = T.renorm(self.use_facts(p))
        rs = rules_of_facts()
        if rs:
            p = rewrite(p, rs)
        for l in self.lemmas:
            p = l(p)
        return p

    def zero(self, p):
        """('discharged', by) | ('refuted', text) | ('open', text)"""
        p = toP(p)
        if not p.terms:
            return 'discharged', 'nf'
        q0 = CTX.queries
        self.splits = 0
        self.open = None
        try:
            q = self.simplify(p)
            if not q.terms:
                return 'discharged', 'nf' if CTX.queries == q0 else 'z3'
            if self.refute:
                ce, n = counterexample(q, self.seed, 2, self.interp)
                if ce is not None:
                    return 'refuted', self.ce_text(ce, q)
            if self.prove(q, 0):
                return 'discharged', 'z3'
        except (Giveup, Budget, Unsupported, RecursionError) as e:
            self.open = self.open or str(e) or type(e).__name__
        if self.refute:
            ce, n = counterexample(p, self.seed + 'b', 6, self.interp)
            if ce is not None:
                return 'refuted', self.ce_text(ce, p)
        return 'open', str(self.open)[:int(__import__("os").environ.get("KEYLEN","400"))]

    def ce_text(self, ce, p):
        env, x = ce
        return 'difference %r at %s; term %s' % (x, describe_env(env, [p]), p.key[:600])

    def check_time(self):
        if self.deadline and time.time() > self.deadline:
            raise Giveup('out of time')

    def prove(self, p, unfolds):
        """True if p == 0 under the current facts."""
        self.check_time()
        p = self.simplify(p)
        if not p.terms:
            return True
        if not CTX.feasible():
            return True
        p = clear_denominators(p)
        if not p.terms:
            return True
        # case split
        c = self.pick(p)
        if c is not None:
            self.splits += 1
            if self.splits > self.max_splits:
                raise Giveup('too many cases')
            for val in (True, False):
                cond = P(c) if val else Not(P(c))
                CTX.push()
                try:
                    CTX.assume(cond)
                    if not CTX.feasible():
                        continue
                    q = replace_atom(p, c, ONE if val else ZERO)
                    if val and c.name == 'eq':
                        q = self.use_eq(q, c.args[0])
                    if not self.prove(q, unfolds):
                        return False
                finally:
                    CTX.pop()
            return True
        q = self.congruence(p)
        if q is not None:
            return self.prove(q, unfolds)
        if unfolds < self.unfolds:
            q = self.unfold(p)
            if q is not None:
                return self.prove(q, unfolds + 1)
        q = leads(p)
        if q is not None:
            p = q
            if not p.terms:
                return True
        for q in peelings(p):
            if self.prove(q, unfolds):
                return True
        if self.contradiction():
            return True
        self.open = self.open or 'normal form of the difference: ' + p.key[:int(__import__("os").environ.get("KEYLEN","380"))]
        return False

    def contradiction(self):
        """Are the facts contradictory after use of the equalities among them?"""
        eqs = []
        for f in CTX.polys:
            s = None if isinstance(f, tuple) else f.single()
            if s is not None and s.kind == 'g' and s.name == 'eq':
                eqs.append(s.args[0])
        if not eqs:
            return False
        seen = set()
        for f in list(CTX.polys):
            if isinstance(f, tuple):
                continue
            for d in eqs:
                f = self.use_eq(f, d)
            if not f.terms or (ONE - f).key in seen:
                return True
            seen.add(f.key)
        return False

    def pick(self, p):
        best = None
        for a in atoms_of(p):
            if a.kind == 'g' and a.name in ('ge', 'eq') or a.kind == 'g' and a.name == 'bool':
                k = (len(a.key), a.key)
                if best is None or k < best[0]:
                    best = (k, a)
        return best[1] if best else None

    def use_facts(self, p):
        """Substitute by the equalities and one-element ranges among the facts."""
        for f in CTX.polys:
            if isinstance(f, tuple):
                v, n = f
                if v.single() in p.free and (n.const == 1 or n.const is None and
                                             CTX.entails_eq(n, ONE)):
                    p = subst(p, {v.single(): ZERO})
                continue
            s = f.single()
            if s is not None and s.kind == 'g' and s.name == 'eq':
                p = self.use_eq(p, s.args[0])
            for a in atoms_of(f):
                if a.kind == 'g' and a.name == 'ge' and len(a.args[0].free) == 1:
                    # a bound of one variable: is it at its bound?
                    v, = a.args[0].free
                    l = T._lin(a.args[0], v) if v in p.free and v.sort == 'i' else None
                    if l is not None and l[0] and l[1].const is not None:
                        x = -l[1].const / l[0]
                        for c in {x, x - 1, x + 1}:
                            if c.denominator == 1 and v in p.free and CTX.entails_eq(
                                    P(v), const(int(c))):
                                p = subst(p, {v: const(int(c))})
        return p

    def use_eq(self, p, d):
        for v in sorted(d.free, key=lambda a: a.key):
            if v.sort != 'i' or v.kind not in 'vtb':
                continue
            l = T._lin(d, v)
            if l is not None and abs(l[0]) == 1:
                x = -l[1] * l[0]
                if v in x.free:
                    continue
                return subst(p, {v: x})
        return p

    def congruence(self, p):
        """Identify applications of a function whose arguments are equal."""
        groups = {}
        for a in atoms_of(p):
            if a.args and a.kind in 'fg' and a.name not in ('ge', 'eq', 'bool', 'inv', 'conj'):
                groups.setdefault((a.kind, a.name, len(a.args)), []).append(a)
        for key, l in groups.items():
            if len(l) < 2 or len(l) > 8:
                continue
            for i in range(len(l)):
                for j in range(i + 1, len(l)):
                    if self.same_args(l[i], l[j]):
                        return replace_atom(p, l[j], P(l[i]))
        return None

    def same_args(self, a, b):
        k = (CTX.version, a.key, b.key)
        memo = self.__dict__.setdefault('_same', {})
        if k in memo:
            return memo[k]
        memo[k] = False
        r = True
        for x, y in zip(a.args, b.args):
            if isinstance(x, Poly) and isinstance(y, Poly):
                if x == y:
                    continue
                r = self.quiet(x - y)
            elif isinstance(x, Lam) and isinstance(y, Lam):
                if x == y:
                    continue
                if len(x.shape) != len(y.shape):
                    r = False
                else:
                    for s, t in zip(x.shape, y.shape):
                        if not (s == t or CTX.entails_eq(s, t)):
                            r = False
                    if r:
                        ts = [T.temp() for _ in x.vars]
                        with CTX.ranges(ts, x.shape):
                            r = self.quiet(x.at(*[P(t) for t in ts]) -
                                           y.at(*[P(t) for t in ts]))
            else:
                r = x == y
            if not r:
                break
        memo[k] = r
        return r

    def quiet(self, d):
        if not d.terms:
            return True
        if self.refute:
            ce, n = counterexample(d, self.seed, 1, self.interp)
            if ce is not None:
                return False
        o = self.open
        try:
            return self.prove(d, self.unfolds)
        except Giveup:
            return False
        finally:
            self.open = o

    def unfold(self, p):
        """Unfold the applications of a recursive definition with the largest
        index (also below sums)."""
        apps = {}
        rec_apps(p, apps)
        for (name, _), j in sorted(apps.items()):
            if any(n == name and (i - j).const is not None and (i - j).const > 0
                   for (n, _), i in apps.items()):
                continue

            def f(*args):
                if args[0] != j:
                    return None
                return DEFS[name].unfold(list(args))
            q = T.subst_fn(p, {name: f})
            if q != p:
                return q
        return None


def rec_apps(p, out):
    for m in p.terms:
        for _, r in m.binders:
            rec_apps(r, out)
        for a, _ in m.atoms:
            if a.kind == 'f' and a.name in DEFS and not any(is_bound(v) for v in a.args[0].free):
                out[a.name, a.args[0].key] = a.args[0]
            for x in a.args:
                if isinstance(x, Poly):
                    rec_apps(x, out)
                elif isinstance(x, Lam):
                    rec_apps(x.body, out)


def peelings(p):
    """p with the first (last) terms of its longer sums written out, if sums
    over n and n + c terms occur."""
    bounds = {}
    for m in p.terms:
        for _, r in m.binders:
            if not any(is_bound(v) for v in r.free):
                bounds[r.key] = r
    best = None
    for r in bounds.values():
        if not any(0 < ((n - r).const or 0) <= 3 for n in bounds.values()) or \
                not CTX.entails_ge(r):
            continue
        k = sum(1 for n in bounds.values() if 0 < ((n - r).const or 0) <= 3)
        if best is None or k > best[1]:
            best = (r, k)
    if best is None:
        blocks = dict(bounds)
        for m in p.terms:
            rs = [r for _, r in m.binders if not any(is_bound(v) for v in r.free)]
            for x, y in itertools.combinations(rs, 2):
                blocks[(x * y).key] = x * y
        cand = []
        for n in bounds.values():
            for r in blocks.values():
                d = n - r
                if d.const is None and CTX.entails_ge(d) and CTX.entails_ge(r):
                    k = (d.key not in blocks, len(d.terms))
                    cand += [(k, n, d), (k, n, r)]
        cand.sort(key=lambda x: x[0])
        for _, n, k in cand[:4]:
            yield cut(p, n, k)
        return
    r = best[0]
    longer = [(n, int((n - r).const)) for n in bounds.values() if 0 < ((n - r).const or 0) <= 3]
    for low in (False, True):
        q = p
        for n, c in longer:
            q = peel(q, n, c, low)
        yield q


def peel(p, n, c, low):
    out = ZERO
    for m, co in p.terms.items():
        if not any(r == n for _, r in m.binders):
            out = out + Poly({m: co})
            continue
        bs, atoms = T.open_mono(m)
        k = [i for i, (v, r) in enumerate(bs) if r == n][0]
        v = bs[k][0]
        rest = bs[:k] + bs[k + 1:]
        with CTX.ranges([w for w, _ in bs], [r for _, r in bs]):
            q = T._mono_poly(atoms) * co
        parts = [subst(q, {v: const(i) if low else n - 1 - i}) for i in range(c)]
        w = T.temp()
        with CTX.ranges([w], [n - c]):
            parts.append(T.Sum(w, n - c, subst(q, {v: P(w) + (c if low else 0)})))
        for x in parts:
            for u, r in reversed(rest):
                x = T.Sum(u, r, x)
            out = out + x
    return out


def cut(p, n, k):
    """The sums over n terms of p as sums over the first k and the other ones."""
    out = ZERO
    for m, co in p.terms.items():
        if not any(r == n for _, r in m.binders):
            out = out + Poly({m: co})
            continue
        bs, atoms = T.open_mono(m)
        i = [i for i, (v, r) in enumerate(bs) if r == n][0]
        v = bs[i][0]
        rest = bs[:i] + bs[i + 1:]
        with CTX.ranges([w for w, _ in bs], [r for _, r in bs]):
            q = T._mono_poly(atoms) * co
        for lo, c in ((ZERO, k), (k, n - k)):
            w = T.temp()
            with CTX.ranges([w], [c]):
                x = T.Sum(w, c, subst(q, {v: P(w) + lo}))
            for u, r in reversed(rest):
                x = T.Sum(u, r, x)
            out = out + x
    return out
