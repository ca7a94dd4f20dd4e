"""Loops of symbolic length, summarised exactly.

One iteration is executed at a symbolic index k with every location the loop
modifies replaced by a placeholder h(k, ...). The resulting recurrences
s(0) = init, s(k+1) = U(k, s(k)) are solved (unchanged, last value, sum,
overwrite); what cannot be solved becomes a recursive definition that proofs
unfold. Lists that grow become families of elements over the iteration index.
"""
import hashlib

from .values import *
from . import terms as T
from . import values as V

_uid = itertools.count()
DEFS = {}          # name -> Def
LEAVES = {}        # name of a placeholder -> Leaf


class Def:
    """Recursive definition; its arguments are the iteration, the indices of the
    element, parameters and arrays that are states of enclosing loops."""

    def __init__(self, name, nidx, params, k, body, init, kind):
        self.name, self.nidx, self.params, self.k = name, nidx, params, k
        self.body, self.init, self.kind = body, init, kind

    def unfold(self, args):
        """Right-hand side for the arguments (index, element indices, params)."""
        j = args[0]
        idx = args[1:1 + self.nidx]
        ps = args[1 + self.nidx:]
        mp = dict(zip(IX, idx))
        mp.update(zip(self.params, ps))
        fs = {'outer.%d' % i: a.at for i, a in enumerate(ps[len(self.params):])}

        def inst(p, mp):
            return subst(subst_fn(p, fs) if fs else p, mp)
        if self.kind == 'list':
            mp[self.k] = j
            return inst(self.body, mp)
        z = eq0(j)
        out = ZERO
        if z.terms:
            out = out + z * inst(self.init, mp)
        nz = Not(z)
        if nz.terms:
            mp[self.k] = j - 1
            out = out + nz * inst(self.body, mp)
        return out


class _Restart(Exception):
    pass


class _Shape(Exception):
    """Structures of the initial and the later values differ: peel."""


def same_ref(a, b):
    if a is b:
        return True
    if isinstance(a, Obj) and isinstance(b, Obj):
        return a.org is not None and a.org == b.org
    if isinstance(a, Arr) and isinstance(b, Arr):
        return a.same(b)
    if isinstance(a, PList) and isinstance(b, PList):
        return a.same(b) and a.tup == b.tup
    if isinstance(a, Bound) and isinstance(b, Bound):
        return a.fn is b.fn and a.self_ is b.self_
    if isinstance(a, Num) and isinstance(b, Num):
        return a.ty == b.ty and a.p == b.p
    if type(a) is type(b) and isinstance(a, (int, float, complex, str, bool)):
        return a == b
    if isinstance(a, SStr) and isinstance(b, SStr):
        return a.parts == b.parts
    return False


# ------------------------------------------------------------------ merging
def merge_values(cands, memo=None):
    """Value that is v1 under g1, else v2 under g2, ..., else the last one."""
    vals = [v for _, v in cands]
    first = vals[0]
    if all(same_ref(first, v) for v in vals[1:]):
        return first
    if memo is None:
        memo = {}
    gs = [g for g, _ in cands]
    if all(isinstance(v, (Num, int, float, complex)) for v in vals):
        from .npstub import badfloat, promote, kind_of, sty, is_np
        if any(badfloat(v) for v in vals):
            return MISSING
        kinds = {kind_of(v) for v in vals}
        if 'b' in kinds and kinds != {'b'}:
            return MISSING
        p = ite_chain(gs, [pol(v) for v in vals])
        return num(p, sty(promote(*kinds), any(is_np(v) for v in vals)))
    if all(isinstance(v, Arr) for v in vals):
        shp = first.shape
        for v in vals[1:]:
            if len(v.shape) != len(shp) or not all(
                    x == y or CTX.entails_eq(x, y) for x, y in zip(v.shape, shp)):
                return MISSING
        key = ('a',) + tuple(id(v.buf) for v in vals) + tuple(m.key for v in vals for m in v.maps)
        if key not in memo:
            from .npstub import promote
            snap = vals
            r = mkarr(shp, lambda *i: ite_chain(gs, [v.el(*i) for v in snap]),
                      promote(*{v.dtype for v in vals}))
            r.buf.ro = True
            memo[key] = r
        return memo[key]
    if all(isinstance(v, Obj) for v in vals):
        if any(v.cls is not first.cls for v in vals):
            return MISSING
        key = ('o',) + tuple(id(v) for v in vals)
        if key in memo:
            return memo[key]
        o = Obj(first.cls)
        memo[key] = o
        names = set(first.slots)
        if any(set(v.slots) != names for v in vals):
            return MISSING
        for n in first.slots:
            m = merge_values([(g, unl(v.slots[n])) for g, v in cands], memo)
            if m is MISSING:
                return MISSING
            o.slots[n] = m
        o.ro = True
        return o
    if all(isinstance(v, PList) for v in vals):
        if any(v.tup != first.tup for v in vals):
            return MISSING
        if all(v.items is not None for v in vals):
            n = len(first.items)
            if any(len(v.items) != n for v in vals):
                return MISSING
            out = []
            for i in range(n):
                m = merge_values([(g, unl(v.items[i])) for g, v in cands], memo)
                if m is MISSING:
                    return MISSING
                out.append(m)
            r = plist(out, first.tup)
            r.st.ro = not first.tup
            return r
        return MISSING
    return MISSING


def unl(v):
    return v.force() if isinstance(v, Lazy) else v


def ite_chain(gs, ps):
    r = ps[-1]
    for g, p in zip(reversed(gs[:-1]), reversed(ps[:-1])):
        r = ite(g, p, r)
    return r


# ------------------------------------------------------------------ instances
def inst(I, v, mp, memo, clock):
    """Copy of a value with variables replaced; older cells are kept."""
    if isinstance(v, (str, bool, int, float, complex)) or v is None:
        return v
    if isinstance(v, Num):
        p = subst(v.p, mp)
        return v if p is v.p else num(p, v.ty)
    if isinstance(v, LazyB):
        return LazyB(lambda: inst(I, v.force(), mp, memo, clock))
    if isinstance(v, Lazy):
        return inst(I, v.force(), mp, memo, clock)
    if isinstance(v, Arr):
        b = v.buf
        if b.born > clock:
            fam = getattr(memo, 'fam', None)
            B = fam.block(b) if fam is not None else None
            if B is not None:
                return Arr(B, [subst(s, mp) for s in v.shape],
                           [memo.j] + [subst(m, mp) for m in v.maps], v.ro)
            k = ('b', id(b))
            if k not in memo:
                nb = Buffer([subst(s, mp) for s in b.shape], subst(b.body, mp), b.dtype)
                nb.ro = True
                memo[k] = (nb, b)
            b = memo[k][0]
        return Arr(b, [subst(s, mp) for s in v.shape], [subst(m, mp) for m in v.maps], v.ro)
    if isinstance(v, PList):
        st = v.st
        if st.born > clock:
            fam = getattr(memo, 'fam', None)
            S = fam.store(st) if fam is not None else None
            if S is not None:
                return PList(S, [memo.j] + [subst(p, mp) for p in v.pre], v.tup)
            k = ('l', id(st))
            if k not in memo:
                ns = LStore(st.nd, None, st.dims)
                ns.ro = True
                memo[k] = (ns, st)
                ns.slots['content'] = inst_content(I, st.slots['content'], mp, memo, clock)
            st = memo[k][0]
        return PList(st, [subst(p, mp) for p in v.pre], v.tup)
    if isinstance(v, Obj):
        if v.born <= clock:
            return v
        k = ('o', id(v))
        if k not in memo:
            o = Obj(v.cls)
            memo[k] = (o, v)
            for n, x in v.slots.items():
                o.slots[n] = inst(I, x, mp, memo, clock)
            o.ro = True
            fam = getattr(memo, 'fam', None)
            if fam is not None:
                o.org = (id(fam), id(v) if v.org is None else v.org, memo.j.key)
                fam.keep.append(v)
        return memo[k][0]
    if isinstance(v, DictV):
        if v.born <= clock:
            return v
        k = ('d', id(v))
        if k not in memo:
            d = DictV()
            memo[k] = (d, v)
            d.slots['content'] = tuple((a, inst(I, b, mp, memo, clock)) for a, b in v.pairs)
            d.ro = True
        return memo[k][0]
    if isinstance(v, Range):
        return Range(subst(v.n, mp), lambda i: inst(I, v.at(i), mp, memo, clock))
    if isinstance(v, Bound):
        return Bound(inst(I, v.fn, mp, memo, clock), inst(I, v.self_, mp, memo, clock))
    if isinstance(v, PyFunc):
        if v.env is None or v.env.born <= clock:
            return v
        f = PyFunc(v.node, inst_frame(I, v.env, mp, memo, clock), v.mod, v.name, v.cls,
                   [inst(I, d, mp, memo, clock) for d in v.defaults], v.kwdefaults)
        return f
    if isinstance(v, SStr):
        return SStr(*[inst(I, p, mp, memo, clock) for p in v.parts])
    if isinstance(v, Poison):
        return v
    return v


def inst_frame(I, fr, mp, memo, clock):
    if fr is None or fr.born <= clock:
        return fr
    k = ('f', id(fr))
    if k not in memo:
        f = Frame(None, fr.mod, fr.fn)
        memo[k] = (f, fr)
        f.parent = inst_frame(I, fr.parent, mp, memo, clock)
        for n, x in fr.slots.items():
            f.slots[n] = inst(I, x, mp, memo, clock)
    return memo[k][0]


def inst_content(I, c, mp, memo, clock):
    if c[0] == 'items':
        return ('items', tuple(inst(I, x, mp, memo, clock) for x in c[1]))
    _, n, pieces = c
    return ('sym', subst(n, mp), tuple(
        (subst(g, mp), Templ(lambda *i, t=t: inst(I, t.at(*i), mp, memo, clock)))
        for g, t in pieces))


class LazyB(Lazy):
    """Lazy value that is recomputed, since forcing it may branch."""

    def __init__(self, f):
        self.f, self.done, self.v = f, False, None

    def force(self):
        return self.f()


class FamMemo(dict):
    """Instances of one iteration of a family."""

    def __init__(self, fam, j):
        super().__init__()
        self.fam, self.j = fam, j


class Family:
    """The values that iteration k of a loop creates, for every k in 0..n-1.

    Arrays become slices of blocks with a leading axis for the iteration and
    lists become rows of families of lists, so that they can be changed later."""

    def __init__(self, I, katom, n, clock, defs=None):
        self.I, self.katom, self.n, self.clock, self.defs = I, katom, n, clock, defs or {}
        self.blocks, self.stores, self.memos = {}, {}, {}
        self.open = True
        self.keep = []

    def fixmap(self, mp):
        return SubstMap(mp, self.defs)

    def prepare(self, v):
        """Create the blocks of everything reachable from v now (the facts of
        this moment hold whenever the family is used)."""
        t = T.temp()
        with CTX.ranges([t], [self.n]):
            self.walk(self.at(v, P(t)), set())

    def walk(self, v, seen):
        v = v if isinstance(v, LazyB) else unl(v)
        if isinstance(v, Obj):
            if id(v) not in seen:
                seen.add(id(v))
                for x in v.slots.values():
                    self.walk(x, seen)
        elif isinstance(v, PList):
            if id(v.st) in seen or not any(v.st is S for S in self.stores.values()
                                           if S is not None) and v.items is None:
                return
            seen.add(id(v.st))
            c = v.st.slots['content']
            if c[0] == 'items':
                for x in c[1]:
                    self.walk(x, seen)
                return
            ts = [T.temp() for _ in range(v.st.nd + 1)]
            idx = [P(t) for t in ts]
            n = subst(c[1], dict(zip(IX, idx)))
            with CTX.ranges(ts, list(v.st.dims) + [n]):
                for g, t in c[2]:
                    try:
                        self.walk(t.at(*idx), seen)
                    except (Unsupported, Infeasible):
                        pass
        elif isinstance(v, DictV):
            for _, x in v.pairs:
                self.walk(x, seen)

    def seal(self):
        self.open = False

    def block(self, b):
        """Block with the arrays of all iterations, or None."""
        k = id(b)
        if k in self.blocks:
            return self.blocks[k]
        if not self.open:
            return None
        self.keep.append(b)
        self.blocks[k] = None
        shape = [subst(s, self.fixmap({})) for s in b.shape]
        if any(self.katom in s.free for s in shape):
            return None
        nb = len(shape)
        full = [self.n] + shape

        def f(j, *i):
            mp = dict(zip(IX[:nb], i))
            mp[self.katom] = j
            return subst(b.body, self.fixmap(mp))
        B = Buffer(full, V.body_of(full, f), b.dtype)
        B.ro = b.ro
        self.blocks[k] = B
        return B

    def store(self, st):
        k = id(st)
        if k in self.stores:
            return self.stores[k]
        if not self.open:
            return None
        self.keep.append(st)
        c = st.slots['content']
        if c is None:
            return None
        S = LStore(st.nd + 1, None, (self.n,) + tuple(
            subst(d, self.fixmap({})) for d in st.dims))
        S.ro = st.ro
        self.stores[k] = S
        _, n, pieces = as_sym(c)
        mp = self.fixmap({**{IX[q]: IXP[q + 1] for q in range(st.nd + 1)},
                          self.katom: IXP[0]})
        S.slots['content'] = ('sym', subst(n, mp), tuple(
            (subst(g, mp), self.templ(t)) for g, t in pieces))
        return S

    def templ(self, t):
        return Templ(lambda *i: self.at(t.at(*i[1:]), i[0]))

    def at(self, v, j):
        j = toP(j)
        m = self.memos.setdefault((j.key, CTX.version), None)
        if m is None:
            m = self.memos[(j.key, CTX.version)] = FamMemo(self, j)
        return inst(self.I, v, self.fixmap({self.katom: j}), m, self.clock)


def family_list(I, n, f, tup=False):
    """List with n elements f(i), each with storage of its own."""
    n = toP(n)
    clock = next(V._clock)
    t = T.temp()
    gen, I.generic = I.generic, I.generic | {t}
    try:
        with CTX.ranges([t], [n]):
            v = f(P(t))
    finally:
        I.generic = gen
    fam = Family(I, t, n, clock)
    fam.prepare(v)
    fam.seal()
    r = PList(LStore(0, ('sym', n, ((ONE, Templ(lambda i: fam.at(v, i))),))), (), tup)
    return r


# ------------------------------------------------------------------ leaves
def leaves(v, path=(), out=None, clock=None):
    """[(path, kind, value)] of the numeric leaves of a fresh structure."""
    if out is None:
        out = []
    v = unl(v)
    if isinstance(v, (Num, int, float, complex)) and not isinstance(v, bool):
        out.append((path, 'num', v))
    elif isinstance(v, Arr):
        out.append((path, 'arr', v))
    elif isinstance(v, Obj):
        for n in v.slots:
            leaves(v.slots[n], path + (n,), out, clock)
    elif isinstance(v, PList) and v.items is not None:
        for i, x in enumerate(v.items):
            leaves(x, path + (i,), out, clock)
    elif isinstance(v, (PList, DictV, Range)):
        raise Unsupported('loop-carried list of symbolic length')
    return out


def compatible(a, b, path=()):
    """Same structure up to numeric leaves."""
    a, b = unl(a), unl(b)
    if isnum(a) and isnum(b) and not isinstance(a, bool) and not isinstance(b, bool):
        return True
    if isinstance(a, Arr) and isinstance(b, Arr):
        return len(a.shape) == len(b.shape) and all(
            x == y or CTX.entails_eq(x, y) for x, y in zip(a.shape, b.shape))
    if isinstance(a, Obj) and isinstance(b, Obj):
        return a is b or a.cls is b.cls and set(a.slots) == set(b.slots) and all(
            compatible(a.slots[n], b.slots[n]) for n in a.slots)
    if isinstance(a, PList) and isinstance(b, PList):
        if a.same(b):
            return True
        return a.tup == b.tup and a.items is not None and b.items is not None and \
            len(a.items) == len(b.items) and all(map(compatible, a.items, b.items))
    return same_ref(a, b)


def build(v, path, f, clock):
    """Copy of the structure with the numeric leaves replaced by f(path, leaf)."""
    v = unl(v)
    if isinstance(v, (Num, int, float, complex)) and not isinstance(v, bool) or isinstance(v, Arr):
        return f(path, v)
    if isinstance(v, Obj):
        o = Obj(v.cls)
        for n in v.slots:
            o.slots[n] = build(v.slots[n], path + (n,), f, clock)
        o.ro = True
        return o
    if isinstance(v, PList):
        if v.items is None:
            raise Unsupported('loop-carried list of symbolic length')
        r = plist([build(x, path + (i,), f, clock) for i, x in enumerate(v.items)], v.tup)
        r.st.ro = not v.tup
        return r
    if isinstance(v, DictV):
        raise Unsupported('loop-carried dictionary')
    return v


def at_path(v, path):
    for p in path:
        v = unl(v)
        v = v.slots[p] if isinstance(v, Obj) else v.items[p]
    return unl(v)


# ------------------------------------------------------------------ the loop
class Leaf:
    """Unknown function of the iteration and element indices."""

    def __init__(self, name, kind, nidx, shape, sort, init, ty):
        self.name, self.kind, self.nidx = name, kind, nidx
        self.shape, self.sort, self.init, self.ty = shape, sort, init, ty
        self.U = None           # over k and IX
        self.sol = None         # Poly -> Poly over IX

    def ph(self, j, *idx):
        return fn(self.name, j, *idx, sort=self.sort)


def sym_loop(I, n, run):
    from .interp import _Return, _Break, _Continue

    def body(k):
        try:
            run(k)
        except (_Return, _Break):
            raise Unsupported('break or return in a loop of symbolic length')
        except _Continue:
            pass
    try:
        _sym_loop(I, n, body)
    except _Shape:
        # first iteration apart
        if I.branch(ge(n - 1)):
            body(ZERO)
            I.iterate(Range(n - 1, lambda i: toP(i)), lambda i: body(toP(i) + 1))


def _sym_loop(I, n, body):
    # probe the first iteration
    CTX.push()
    CTX.assume(ge(n - 1))
    ok = CTX.feasible()
    CTX.pop()
    if not ok:
        return
    locs = {}
    clock = next(V._clock)

    def cap_probe(kind, v, mark):
        ms = modified(mark)
        out = {}
        for (c, key), old in ms.items():
            if c.born <= clock and not same_binding(c, old, c.slots.get(key, MISSING)):
                out[(c, key)] = c.slots.get(key, MISSING)
        return out
    CTX.push()
    CTX.assume(ge(n - 1))
    try:
        paths = I.explore(lambda: body(ZERO), cap_probe)
    finally:
        CTX.pop()
    oks = [p for p in paths if p.kind == 'ok']
    if not oks:
        # always raises (if the loop is entered)
        if I.branch(ge(n - 1)):
            body(ZERO)
            raise Unsupported('loop raises')
        return
    for p in oks:
        for l in p.cap:
            if l not in locs:
                locs[l] = p.cap[l]
    carry, hyp = set(), {}
    for _ in range(60):
        try:
            st = Attempt(I, n, body, locs, carry, clock, hyp)
            st.execute()
            if st.paths:
                st.learn()
            break
        except NeedCarry as e:
            if e.loc in carry or e.loc not in locs:
                raise Unsupported('loop-carried value')
            carry.add(e.loc)
        except _Restart:
            continue
    else:
        raise Unsupported('loop summary does not converge')
    st.solve()
    st.finish()


class Attempt:
    def __init__(self, I, n, body, locs, carry, clock, hyp):
        self.hyp = hyp
        self.I, self.n, self.body, self.locs, self.carry, self.clock = I, n, body, locs, carry, clock
        self.uid = next(_uid)
        self.katom = hyp.setdefault('katom', None) or T.temp()
        hyp['katom'] = self.katom
        self.k = P(self.katom)
        self.leafs = []
        self.state = {}
        self.memo = {}
        self.nl = 0

    def leaf(self, kind, nidx, shape, sort, init, ty):
        l = Leaf('h%d.%d' % (self.uid, self.nl), kind, nidx, shape, sort, init, ty)
        self.nl += 1
        self.leafs.append(l)
        LEAVES[l.name] = l
        return l

    # -- placeholders
    def prepare(self):
        for loc, probe in list(self.locs.items()):
            cell, key = loc
            cur = cell.slots.get(key, MISSING)
            if isinstance(cell, Buffer):
                l = self.leaf('state', len(cell.shape), cell.shape, SORT[cell.dtype], cur,
                              cell.dtype)
                self.state[loc] = ('buf', l)
                jset(cell, key, self.norm(cell.shape, lambda *i: l.ph(self.k, *i)))
            elif isinstance(cell, LStore):
                self.prepare_list(loc, cell, cur, probe)
            elif isinstance(cell, DictV):
                self.state[loc] = ('ref', None)
                # dictionaries: only unchanged or overwritten as a whole
                raise Unsupported('dictionary changed in a loop of symbolic length')
            else:
                cv = unl(cur) if not isinstance(cur, LazyB) else cur
                numeric = isnum(cv) and not isinstance(cv, bool) and isnum(probe) and \
                    not isinstance(probe, bool)
                from .npstub import badfloat, promote, kind_of, sty, is_np
                if numeric and not badfloat(cv) and not badfloat(probe):
                    kd = promote(kind_of(cv), kind_of(probe))
                    ty = sty(kd, is_np(cv) or is_np(probe)) if tyof(cv) != tyof(probe) \
                        else tyof(cv)
                    l = self.leaf('state', 0, (), SORT[kd], pol(cv), ty)
                    self.state[loc] = ('num', l)
                    jset(cell, key, Num(l.ph(self.k), ty))
                elif loc in self.carry:
                    if cv is MISSING:
                        raise Unsupported('unbound loop-carried variable')
                    cv = unl(cv)
                    if not compatible(cv, probe):
                        raise _Shape()
                    tmap = {}

                    def f(path, leafv):
                        init = at_path(cv, path)
                        if isinstance(leafv, Arr):
                            l = self.leaf('state', leafv.ndim, leafv.shape, SORT[leafv.dtype],
                                          V.body_of(leafv.shape, init.el), leafv.dtype)
                            tmap[path] = l
                            r = mkarr(leafv.shape, lambda *i: l.ph(self.k, *i), leafv.dtype)
                            return r
                        kd = promote(kind_of(init), kind_of(leafv))
                        l = self.leaf('state', 0, (), SORT[kd], pol(init), tyof(leafv))
                        tmap[path] = l
                        return Num(l.ph(self.k), tyof(leafv))
                    # in-place changes of the placeholder are refused: it is an
                    # object of the previous iteration, which others may share
                    ph = build(probe, (), f, self.clock)
                    roarr(ph)
                    self.state[loc] = ('carry', tmap, probe, ph)
                    jset(cell, key, ph)
                else:
                    self.state[loc] = ('ref', cur)
                    jset(cell, key, Poison(loc))

    def norm(self, shape, f):
        return V.body_of(shape, f)

    def prepare_list(self, loc, cell, cur, probe):
        c0 = as_sym(cur)
        L0 = c0[1]
        nd = cell.nd
        hyp = self.hyp.get(loc)
        if hyp is None and nd == 0:
            d = as_sym(probe)[1] - L0
            D = d.cint
            if D is None or D < 0:
                raise Unsupported('list grows by a symbolic number of elements per iteration')
            if D:
                hyp = self.hyp[loc] = ('app', D, ONE)
        if hyp is None:
            hyp = self.hyp[loc] = ('find',)
        k = self.k
        pieces = list(c0[2])
        info = dict(c0=c0, L0=L0, cell=cell, ph={}, orig=cur, hyp=hyp, probe=probe)
        L = L0
        if hyp[0] == 'app':
            D, row = hyp[1], hyp[2]
            info['D'] = D
            if self.touched(cur, probe, D, nd):
                poison = Poison(loc)
                pieces.append((row, Templ(lambda *_: poison, True)))

            def at(*idx):
                x = idx[nd] - subst(L0, dict(zip(IX, idx)))
                j, r = self.split(x, D)
                if r is None:
                    raise Unsupported('element of a list that grows by several per iteration')
                return self.list_place(info, r, j)
            pieces.append((row * ge(IXP[nd] - L0) if L0.terms else row, Templ(at)))
            L = L0 + row * k * D
        elif hyp[0] == 'set':
            _, J, dL, ops = hyp
            poison = Poison(loc)
            for g in ops:
                reg = in_range(J, k) * subst(g, {self.katom: J}) if J is not None else \
                    ge(k - 1) * g
                pieces.append((reg, Templ(lambda *_: poison, True)))
            if dL.terms:
                L = L0 + in_range(J, k) * subst(dL, {self.katom: J})
        self.state[loc] = ('list', info)
        start = ('sym', L, tuple(pieces))
        info['start'] = start
        jset(cell, 'content', start)

    def touched(self, cur, probe, D, nd):
        """Did the first iteration also change elements that were there before?"""
        if cur[0] == 'items' and probe[0] == 'items':
            return any(not same_ref(a, b) for a, b in zip(cur[1], probe[1]))
        if cur[0] == 'items' or probe[0] == 'items':
            return True
        c0, cp = cur, probe
        return len(cp[2]) != len(c0[2]) + D or any(
            a is not b for a, b in zip([t for _, t in c0[2]], [t for _, t in cp[2]]))

    def split(self, x, D):
        if D == 1:
            return x, 0
        j = T.fdiv(x, const(D))
        r = x - j * D
        return j, r.cint

    def list_place(self, info, r, j):
        """Placeholder of the r-th element appended by iteration j."""
        if r not in info['ph']:
            probe, nd = info['probe'], info['cell'].nd
            if probe[0] == 'items':
                el = probe[1][len(probe[1]) - info['D'] + r]
            else:
                el = probe[2][len(probe[2]) - info['D'] + r][1].value
                if el is None:
                    raise Unsupported('appended element')
                el = el[0]
            tm = {}

            def f(path, leafv):
                if isinstance(leafv, Arr):
                    l = self.leaf('list', leafv.ndim, leafv.shape, SORT[leafv.dtype], None,
                                  leafv.dtype)
                else:
                    from .npstub import kind_of
                    l = self.leaf('list', 0, (), SORT[kind_of(leafv)], None, tyof(leafv))
                tm[path] = l
                return leafv
            build(el, (), f, self.clock)
            info['ph'][r] = (el, tm)
        el, tm = info['ph'][r]

        def g(path, leafv):
            l = tm[path]
            if isinstance(leafv, Arr):
                a = mkarr([subst(s, {self.katom: j}) for s in leafv.shape],
                          lambda *i: l.ph(j, *i), leafv.dtype)
                a.buf.ro = True
                return a
            return Num(l.ph(j), tyof(leafv))
        key = (id(info), r, j.key)
        if key not in self.memo:
            self.memo[key] = build(el, (), g, self.clock)
        return self.memo[key]

    # -- one iteration
    def execute(self):
        I, n = self.I, self.n
        mark0 = len(JOURNAL)
        c0 = next(V._clock)
        self.c0 = c0
        try:
            with CTX.ranges([self.katom], [n]):
                self.prepare()

                def cap(kind, v, mark):
                    ms = modified(mark)
                    for (c, key), old in ms.items():
                        if c.born <= self.clock and (c, key) not in self.locs and \
                                not same_binding(c, old, c.slots.get(key, MISSING)):
                            self.locs[(c, key)] = c.slots.get(key, MISSING)
                            raise _Restart()
                    return {l: l[0].slots.get(l[1], MISSING) for l in self.locs}
                paths = I.explore(lambda: self.body(self.k), cap)
        finally:
            undo(mark0)
        own = {l.name for l in self.leafs}
        if any(st[0] == 'list' and st[1]['hyp'] == ('find',) for st in self.state.values()):
            # the state is a guess: only the kind of the list operations counts
            self.paths = [p for p in paths if p.kind == 'ok']
            if not self.paths:
                raise Unsupported('list operations of the loop')
            return
        # decide conditions that do not depend on the iteration outside the loop
        for p in paths:
            for c in p.conds:
                if self.katom not in c.free and not (c.fns & own):
                    CTX.push()
                    CTX.assume(ge(n - 1))
                    und = CTX.feasible(c) and CTX.feasible(Not(c))
                    CTX.pop()
                    if und and not CTX.entails(c) and not CTX.entails(Not(c)):
                        I.branch(c)
                        raise _Restart()
        oks = [p for p in paths if p.kind == 'ok']
        raises = [p for p in paths if p.kind == 'raise']
        for p in raises:
            dep = [c for c in p.conds if self.katom in c.free or c.fns & own]
            if not dep and not oks:
                if I.branch(ge(n - 1)):
                    raise p.val
                self.paths = []
                return
            with CTX.ranges([self.katom], [n]):
                r = P(T._mk('g', 'bool', ('raises%d' % self.uid, str(p.val)) +
                            tuple(subst(c, {}) for c in ()), 'i'))
            # some iteration raises, or none does
            if I.branch(r):
                w = T.temp()
                CTX.assume(in_range(P(w), n)) if False else None
                raise p.val
        if not oks:
            raise Unsupported('every iteration raises')
        self.paths = oks

    # -- recurrences
    def solve(self):
        gs = [p.cond for p in self.paths]
        self.result = {}
        with CTX.ranges([self.katom], [self.n]):
            for loc, st in self.state.items():
                vals = [p.cap[loc] for p in self.paths]
                if st[0] == 'buf':
                    st[1].U = ite_chain(gs, vals)
                elif st[0] == 'num':
                    if not all(isnum(unl(v)) and not isinstance(unl(v), bool) for v in vals):
                        raise Unsupported('loop variable changes its type')
                    st[1].U = ite_chain(gs, [pol(unl(v)) for v in vals])
                    for v in vals:
                        from .npstub import kind_of
                        if 'ifc'.find(kind_of(unl(v))) > 'ifc'.find(kindof(st[1].ty)):
                            raise Unsupported('loop variable changes its type')
                elif st[0] == 'carry':
                    v = merge_values(list(zip(gs, vals))) if len(vals) > 1 else vals[0]
                    if v is MISSING or not compatible(v, st[2]):
                        raise _Shape()
                    for path, l in st[1].items():
                        x = at_path(v, path)
                        if isinstance(x, Arr):
                            l.U = V.body_of(l.shape, x.el)
                        else:
                            l.U = pol(x)
                elif st[0] == 'ref':
                    v = merge_values(list(zip(gs, vals))) if len(vals) > 1 else vals[0]
                    self.result[loc] = ('branch', list(zip(gs, vals))) if v is MISSING else \
                        ('val', v)
                elif st[0] == 'list':
                    self.solve_list(loc, st[1], gs, vals)
            own = {l.name: l for l in self.leafs}
            todo = [l for l in self.leafs]
            for l in todo:
                if l.U is None:
                    raise Unsupported('placeholder without a value')
            progress = True
            while todo and progress:
                progress = False
                for l in list(todo):
                    if self.solve_leaf(l, {x.name for x in todo}):
                        todo.remove(l)
                        progress = True
                        defs = {l.name: lambda *a, l=l: subst(l.sol(a[0]), dict(zip(IX, a[1:])))}
                        for x in todo:
                            x.U = subst_fn(x.U, defs)
            if todo:
                self.recursion(todo)
        self.defs = {l.name: (lambda *a, l=l: subst(l.sol(a[0]), dict(zip(IX, a[1:]))))
                     for l in self.leafs}
        I = self.I
        I.loop_obl.append((self.uid, [(l.kind, l.how) for l in self.leafs]))

    def list_ops(self, loc, info, vals):
        """What one iteration does to the list: (growth, [(guard, template per
        path)]); learns the kind of the operations."""
        start = info['start']
        nd = info['cell'].nd
        per, dL = [], None
        for c in vals:
            if c[0] != 'sym':
                raise Unsupported('list replaced in a loop')
            d = c[1] - start[1]
            if dL is not None and d != dL and not CTX.entails_eq(d, dL):
                raise Unsupported('number of appended elements depends on the iteration')
            dL = d
            ns = len(start[2])
            if len(c[2]) < ns or any(a[1] is not b[1] or a[0] != b[0]
                                     for a, b in zip(c[2][:ns], start[2])):
                raise Unsupported('list rebuilt in a loop')
            per.append(c[2][ns:])
        m = len(per[0])
        if any(len(p) != m for p in per) or any(
                p[i][0] != per[0][i][0] for p in per for i in range(m)):
            raise Unsupported('different list operations on different paths')
        return dL, [(per[0][i][0], [p[i][1] for p in per]) for i in range(m)]

    def learn(self):
        """Compare the list operations with the assumed ones."""
        for loc, st in self.state.items():
            if st[0] != 'list':
                continue
            info = st[1]
            hyp, nd = info['hyp'], info['cell'].nd
            if hyp[0] == 'app':
                continue
            with CTX.ranges([self.katom], [self.n]):
                dL, ops = self.list_ops(loc, info, [p.cap[loc] for p in self.paths])
                own = {l.name for l in self.leafs}
                gs = [g for g, _ in ops]
                if any(g.fns & own for g in gs) or dL.fns & own:
                    raise Unsupported('list index depends on the state of the loop')
                if hyp[0] == 'set':
                    if dL != hyp[2] or gs != list(hyp[3]):
                        if self.hyp.setdefault(('n', loc), 0) > 2:
                            raise Unsupported('list operations do not converge')
                        self.hyp['n', loc] += 1
                    else:
                        continue
                if hyp[0] == 'find' and not ops and not dL.terms:
                    self.hyp[loc] = ('set', None, ZERO, ())
                    raise _Restart()
                # appended to one row?
                if dL.terms and self.katom not in dL.free:
                    if len(dL.terms) != 1:
                        raise Unsupported('growth of a family of lists')
                    (m, c), = dL.terms.items()
                    if c.denominator != 1 or not all(
                            a.kind == 'g' and a.name == 'eq' for a, _ in m.atoms) or m.binders:
                        raise Unsupported('growth of a family of lists')
                    self.hyp[loc] = ('app', int(c), Poly({m: Fraction(1)}))
                    # the appended structures
                    raise _Restart()
                J = 0
                for g in gs + ([dL] if dL.terms else []):
                    j = self.jof(g)
                    if J == 0:
                        J = j
                    elif j != J:
                        raise Unsupported('list assignments that overlap')
                if J == 0:
                    J = None
                if J is None and dL.terms:
                    raise Unsupported('growth of a family of lists')
                new = ('set', J, dL, tuple(gs))
                if new != hyp:
                    self.hyp[loc] = new
                    raise _Restart()

    def jof(self, g):
        """The only iteration in which the guard can hold, over IX; None if
        the guard does not depend on the iteration."""
        if self.katom not in g.free:
            return None
        cand = None
        for m in g.terms:
            js = []
            for a, e in m.atoms:
                if a.kind == 'g' and a.name == 'eq' and self.katom in a.free:
                    l = T._lin(a.args[0], self.katom)
                    if l is not None and abs(l[0]) == 1:
                        js.append(-l[1] * l[0])
            if m.binders or not js:
                raise Unsupported('list assignment with a complicated index')
            if cand is None:
                cand = js
            else:
                cand = [j for j in cand if j in js]
        if not cand:
            raise Unsupported('list assignment with a complicated index')
        return cand[0]

    def solve_list(self, loc, info, gs, vals):
        """Appended elements and assignments of one iteration."""
        st, hyp = info['start'], info['hyp']
        nd = info['cell'].nd
        dL, ops = self.list_ops(loc, info, vals)

        def value(ts):
            if ts[0].value is not None and all(t.value is not None for t in ts):
                vs = [t.value[0] for t in ts]
                v = vs[0] if len(vs) == 1 else merge_values(list(zip(gs, vs)))
                if v is MISSING:
                    raise Unsupported('list elements of different structure')
                return Templ.const(v)
            if len(ts) > 1:
                raise Unsupported('list elements of different structure')
            return ts[0]
        if hyp[0] != 'app':
            info['setv'] = [(g, value(ts)) for g, ts in ops]
            return
        D, row = hyp[1], hyp[2]
        if dL != row * D:
            raise Unsupported('number of appended elements depends on the iteration')
        apps, sets = [], []
        for g, ts in ops:
            r = None
            for m in [x for x in g.terms][:1]:
                for a, e in m.atoms:
                    if a.kind == 'g' and a.name == 'eq' and IX[nd] in a.free:
                        l = T._lin(a.args[0], IX[nd])
                        if l is None or abs(l[0]) != 1:
                            continue
                        x = -l[1] * l[0] - self.k * D - self.at_row(info['L0'], row, nd)
                        if x.cint is not None and row * P(a) == g:
                            r = x.cint
            if r is not None and 0 <= r < D:
                apps.append((r, value(ts)))
            else:
                sets.append((g, value(ts)))
        if [r for r, _ in apps] != list(range(D)):
            raise Unsupported('appended elements are changed')
        if sets:
            raise Unsupported('elements are set in a list that grows')
        if any(t.value is None for _, t in apps):
            raise Unsupported('appended elements')
        info['apps'] = [t.value[0] for _, t in apps]
        for r, (el, tm) in info['ph'].items():
            v = info['apps'][r]
            if not compatible(v, el):
                raise Unsupported('appended elements change their structure')
            for path, l in tm.items():
                x = at_path(v, path)
                l.U = V.body_of(l.shape, x.el) if isinstance(x, Arr) else pol(x)

    def at_row(self, L0, row, nd):
        """Initial length of the row that is appended to."""
        mp = {}
        for m in row.terms:
            for a, e in m.atoms:
                for q in range(nd):
                    l = T._lin(a.args[0], IX[q]) if IX[q] in a.free else None
                    if l is not None and abs(l[0]) == 1:
                        mp[IX[q]] = -l[1] * l[0]
        return subst(L0, mp)

    def solve_leaf(self, l, unresolved):
        U, k = l.U, self.katom
        fns = U.fns & unresolved
        l.how = None
        if l.kind == 'list':
            if fns:
                return False
            l.how = 'element'
            l.sol = lambda j: subst(U, {k: j})
            return True
        if fns - {l.name}:
            return False
        self_atom = l.ph(self.k, *IXP[:l.nidx]).single()
        U = l.U = self.align(U, l, self_atom)
        A, R = {}, {}
        for m, c in U.terms.items():
            e = dict(m.atoms).get(self_atom)
            if e == 1 and not m.binders:
                rest = T._mono_poly([(a, x) for a, x in m.atoms if a is not self_atom])
                for mm, cc in rest.terms.items():
                    A[mm] = A.get(mm, 0) + cc * c
            elif e == 1 and self.inside(m, self_atom):
                bs, atoms = T.open_mono(m)
                rest = T._mono_poly([(a, x) for a, x in atoms if a is not self_atom])
                for v, n in reversed(bs):
                    rest = T.Sum(v, n, rest)
                for mm, cc in rest.terms.items():
                    A[mm] = A.get(mm, 0) + cc * c
            else:
                R[m] = c
        A, R = Poly({m: c for m, c in A.items() if c}), Poly(R)
        if l.name in A.fns or l.name in R.fns:
            return False
        init = l.init
        if not A.terms:
            l.how = 'last value'
            l.sol = lambda K: self.last(K, R, init)
            return True
        if A.const == 1:
            l.how = 'sum' if R.terms else 'unchanged'
            if not R.terms:
                l.sol = lambda K: init
                return True
            l.sol = lambda K: init + self.total(K, R)
            return True
        c = ONE - A
        hit = self.hits(c, R, l)
        if hit is not None:
            l.how = 'overwrite'
            E = R - c * init
            l.sol = lambda K: init + hit(K, E)
            return True
        return False

    def inside(self, m, self_atom):
        return dict(m.atoms).get(self_atom) == 1 and \
            sum(self_atom.name in a.fns for a, _ in m.atoms) == 1

    def align(self, U, l, self_atom):
        """h(k, j, ...) next to the factor [j == ix] is h(k, ix, ...)."""
        out = ZERO
        for m, c in U.terms.items():
            if l.name in (Poly({m: c})).fns and not m.binders:
                eqs = {a.key for a, _ in m.atoms if a.kind == 'g' and a.name == 'eq'}
                new = []
                for a, e in m.atoms:
                    if a is not self_atom and a.kind == 'f' and a.name == l.name and \
                            len(a.args) == l.nidx + 1 and a.args[0] == self.k and all(
                            x == y or d.const == 1 or eq0(x - y).key in
                            {P(b).key for b, _ in m.atoms if b.key in eqs}
                            for x, y, d in zip(a.args[1:], IXP, l.shape)):
                        a = self_atom
                    new.append((a, e))
                q = ONE
                for a, e in new:
                    q = q * (P(a) ** e if e > 0 else inv(P(a)) ** (-e))
                out = out + q * c
            else:
                out = out + Poly({m: c})
        return out

    def last(self, K, R, init):
        K = toP(K)
        z = eq0(K)
        out = z * init if z.terms else ZERO
        nz = Not(z)
        if nz.terms:
            out = out + nz * subst(R, {self.katom: K - 1})
        return out

    def total(self, K, R):
        t = T.temp()
        with CTX.ranges([t], [K]):
            b = subst(R, {self.katom: P(t)})
        return T.Sum(t, K, b)

    def hit_once(self, p):
        """f(.., k) - x with an injective f and x free of k."""
        k, n = self.katom, 0
        for m, c in p.terms.items():
            if k not in m.free:
                continue
            if m.binders or len(m.atoms) != 1 or m.atoms[0][1] != 1 or abs(c) != 1:
                return False
            a = m.atoms[0][0]
            if a.kind != 'f' or a.name not in T.CTX.injective or \
                    any(k in x.free for x in a.args[:-1]):
                return False
            q = T._lin(a.args[-1], k)
            if q is None or not q[0]:
                return False
            n += 1
        return n == 1

    def hits(self, c, R, l):
        """If every element is changed by at most one iteration, sums over them.
        Iteration k changes s to (1 - c) * s + R."""
        k = self.katom
        ts = V.depth_vars(l.nidx)
        V._depth[0] -= 1
        mp = dict(zip(IX, [P(t) for t in ts]))
        with CTX.ranges(ts, l.shape):
            cc, RR = subst(c, mp), subst(R, mp)
            cands = []
            for m in cc.terms:
                for a, e in m.atoms:
                    if a.kind == 'g' and a.name == 'eq' and k in a.free:
                        q = T._lin(a.args[0], k)
                        if q is not None and q[0] or self.hit_once(a.args[0]):
                            cands.append(('eq', a))
                    if a.kind == 'g' and a.name == 'ge' and k in a.free:
                        # idx >= k*m or idx < (k+1)*m
                        p = a.args[0]
                        co = {}
                        ok = True
                        for mm, x in p.terms.items():
                            d = dict(mm.atoms)
                            if k in mm.free:
                                if d.get(k) != 1 or mm.binders:
                                    ok = False
                                    break
                                co = (T._mono_poly([(b, f) for b, f in mm.atoms if b is not k]), x)
                        if ok and co and abs(co[1]) == 1:
                            for t in ts:
                                if t in p.free:
                                    cands.append(('ge', t, co[0]))
            for cand in cands:
                if cand[0] == 'eq':
                    # the factor eq(a*k + b - idx) occurs in every monomial
                    if all(any(a is cand[1] for a, _ in m.atoms) for m in cc.terms) and \
                            self.without(cand[1], RR):
                        def f(K, E):
                            return self.total(K, E)
                        return f
                else:
                    t, m = cand[1], cand[2]
                    J = T.fdiv(P(t), m)
                    inr = CTX.entails_ge(J) and CTX.entails_ge(self.n - 1 - J)
                    one = subst(cc, {k: J})
                    # outside of the block of J nothing is hit
                    w = T.temp()
                    with CTX.ranges([w], [self.n]):
                        CTX.push()
                        CTX.assume(Not(eq0(P(w) - J)))
                        other, r = subst(cc, {k: P(w)}), T.renorm(subst(RR, {k: P(w)}))
                        zero = (not other.terms or CTX.entails(Not(other))) and not r.terms
                        CTX.pop()
                    if zero and inr and one.const == 1:
                        back = {tt: IXP[i] for i, tt in enumerate(ts)}
                        Jx = subst(J, back)

                        def f(K, E, Jx=Jx):
                            return in_range(Jx, K) * subst(E, {self.katom: Jx})
                        return f
        return None

    def without(self, atom, p):
        """p vanishes if the condition does not hold."""
        p = Poly({m: c for m, c in p.terms.items() if not any(a is atom for a, _ in m.atoms)})
        if not p.terms:
            return True
        CTX.push()
        try:
            CTX.assume(Not(P(atom)))
            return not T.renorm(p).terms
        finally:
            CTX.pop()

    def recursion(self, todo):
        names = {l.name: i for i, l in enumerate(todo)}
        polys = [p for l in todo for p in [l.U, l.init] if p is not None]
        outer = self.outer_states(polys, names)
        free = set()
        for p in polys + [s for l in todo for s in l.shape] + [
                s for _, l in outer.values() for s in l.shape] + [q for q, _ in outer.values()]:
            free |= set(p.free)
        free -= {self.katom, T.IM} | set(IX)
        params = sorted((a for a in free if a.kind in 'vtb'), key=lambda a: a.key)
        # only temporaries vary between instances; named variables stay global
        params = [a for a in params if a.kind != 'v']
        canon = {a: T._mk('t', 'p%d' % i, (), a.sort) for i, a in enumerate(params)}
        kc = T._mk('t', 'kk', (), 'i')
        mp = {a: P(b) for a, b in canon.items()}
        mp[self.katom] = P(kc)
        # states of enclosing loops: arrays as arguments
        out = {x: (lambda *a, i=i, l=l: fn('outer.%d' % i, *a[1:], sort=l.sort))
               for i, (x, (q, l)) in enumerate(outer.items())}
        bodies = []
        for l in todo:
            # recursive references must be to earlier iterations
            self.check_refs(l, names)
            d = {x.name: (lambda *a, x=x: fn('rec.%d' % names[x.name], *a, sort=x.sort))
                 for x in todo}
            d.update(out)
            U = subst_plain(l.U, mp)
            init = subst_fn(subst_plain(l.init, mp), out) if l.init is not None else None
            bodies.append((subst_fn(U, d), init, l.kind))
        shapes = [';'.join(subst_plain(s, mp).key for s in l.shape) for _, l in outer.values()]
        h = hashlib.sha256('|'.join(['%s;%s;%s' % (
            b.key, i.key if i is not None else '', kd) for b, i, kd in bodies] +
            shapes).encode()).hexdigest()[:10]
        cparams = [canon[a] for a in params]

        def lams(mp, f):
            r = []
            for i, (x, (q, l)) in enumerate(outer.items()):
                ts = [T.temp() for _ in l.shape]
                sh = [subst_plain(s, mp) for s in l.shape]
                with CTX.ranges(ts, sh):
                    r.append(T.Lam(sh, ts, f(i, x, q, l, [P(t) for t in ts])))
            return tuple(r)
        inner = lams(mp, lambda i, x, q, l, ts: fn('outer.%d' % i, *ts, sort=l.sort))
        args = tuple(P(a) for a in params) + lams(
            {}, lambda i, x, q, l, ts: fn(x, q, *ts, sort=l.sort))
        for l in todo:
            l.rec = 'rec_%s.%d' % (h, names[l.name])
        d = {'rec.%d' % names[x.name]: (lambda *a, x=x: fn(
            x.rec, *(a + tuple(P(c) for c in cparams) + inner), sort=x.sort)) for x in todo}
        for l, (b, init, kd) in zip(todo, bodies):
            DEFS[l.rec] = Def(l.rec, l.nidx, cparams, kc, subst_fn(b, d), init, kd)
            l.how = 'recursion'
            l.sol = lambda j, l=l: fn(l.rec, *((j,) + tuple(IXP[:l.nidx]) + args), sort=l.sort)

    def outer_states(self, polys, names):
        """States of enclosing loops: name -> (iteration, leaf)."""
        r = {}

        def walk(p):
            if not p.fns & set(LEAVES):
                return
            for m in p.terms:
                for _, n in m.binders:
                    walk(n)
                for a, _ in m.atoms:
                    if a.kind == 'f' and a.name in LEAVES and a.name not in names:
                        l, q = LEAVES[a.name], a.args[0]
                        if l.kind != 'state' or r.setdefault(a.name, (q, l))[0] != q or \
                                any(x is self.katom or x.kind == 'b'
                                    for x in q.free):
                            raise Unsupported('reference to the lists of an enclosing loop')
                    for x in a.args:
                        if isinstance(x, Poly):
                            walk(x)
                        elif isinstance(x, T.Lam):
                            for s in x.shape:
                                walk(s)
                            walk(x.body)
        for p in polys:
            walk(p)
        return dict(sorted(r.items()))

    def check_refs(self, l, names):
        def walk(p):
            for m in p.terms:
                for a, _ in m.atoms:
                    if a.kind == 'f' and a.name in names:
                        j = a.args[0]
                        x = [y for y in self.leafs if y.name == a.name][0]
                        if x.kind == 'state':
                            if j != self.k:
                                raise Unsupported('reference to another iteration')
                        elif l.kind == 'state':
                            pass
                        elif not CTX.entails_ge(self.k - 1 - j):
                            raise Unsupported('reference to a later iteration')
                    for x in a.args:
                        if isinstance(x, Poly):
                            walk(x)
                        elif isinstance(x, Lam):
                            walk(x.body)
        walk(l.U)

    # -- the state after the loop
    def fix(self, v, memo, mp):
        """Instance of a value of iteration k with all placeholders solved."""
        return inst2(self.I, v, mp, memo, self.c0, self.defs)

    def finish(self):
        n, I = self.n, self.I
        if not self.paths:
            return
        self.fam = fam = Family(I, self.katom, n, self.c0, self.defs)
        at = fam.at
        for loc, st in self.state.items():
            if st[0] == 'ref':
                res = self.result[loc]
                for v in [res[1]] if res[0] == 'val' else [v for _, v in res[1]]:
                    fam.prepare(v)
            elif st[0] == 'list':
                nd = st[1]['cell'].nd
                for v in st[1].get('apps', ()):
                    fam.prepare(v)
                for g, t in st[1].get('setv', ()):
                    ts = [T.temp() for _ in range(nd + 1)]
                    fam.prepare(t.at(*[P(x) for x in ts]))
        fam.seal()
        for loc, st in self.state.items():
            cell, key = loc
            if st[0] == 'buf':
                jset(cell, key, V.body_of(cell.shape, lambda *i: subst(
                    st[1].sol(n), dict(zip(IX, i)))))
            elif st[0] == 'num':
                jset(cell, key, num(st[1].sol(n), st[1].ty))
            elif st[0] == 'carry':
                def f(path, leafv, st=st):
                    l = st[1][path]
                    if isinstance(leafv, Arr):
                        return mkarr(l.shape, lambda *i: subst(l.sol(n), dict(zip(IX, i))),
                                     leafv.dtype)
                    return num(l.sol(n), tyof(leafv))
                v = build(st[2], (), f, self.clock)
                unro(v)
                jset(cell, key, v)
            elif st[0] == 'ref':
                self.finish_ref(cell, key, st[1], self.result[loc], at)
            else:
                self.finish_list(cell, st[1], at)

    def finish_ref(self, cell, key, old, res, at):
        I, n = self.I, self.n
        if res[0] == 'val' and isinstance(old, (int, str, bool, float)) and \
                same_ref(old, res[1]):
            return

        def value():
            if res[0] == 'val':
                return at(res[1], n - 1)
            for g, v in res[1]:
                if I.branch(subst(subst_fn(g, self.defs), {self.katom: n - 1})):
                    return at(v, n - 1)
            raise Infeasible()
        if CTX.entails_ge(n - 1) and res[0] == 'val':
            jset(cell, key, value())
            return

        def force():
            if I.branch(ge(n - 1)):
                return value()
            if old is MISSING:
                I.raise_('NameError', str(key))
            return unl(old)
        jset(cell, key, LazyB(force))

    def finish_list(self, cell, info, at):
        n, nd = self.n, info['cell'].nd
        L0, hyp = info['L0'], info['hyp']
        pieces = list(info['c0'][2])
        L = L0
        if hyp[0] == 'app':
            D, row = hyp[1], hyp[2]
            apps = info['apps']
            L = L0 + row * n * D

            def pos(idx):
                return idx[nd] - subst(L0, dict(zip(IX, idx)))
            for r in range(D):
                x = IXP[nd] - L0
                g = row * (ge(x) if L0.terms else ONE)
                if D > 1:
                    g = g * eq0(T.mod(x, const(D)) - r)
                pieces.append((g, Templ(lambda *idx, r=r: at(
                    apps[r], pos(idx) if D == 1 else T.fdiv(pos(idx), const(D))))))
        else:
            if not info['setv']:
                jset(cell, 'content', info['orig'])
                return
            _, J, dL, ops = hyp
            if dL.terms:
                L = L0 + in_range(J, n) * subst(dL, {self.katom: J})
            for g, t in info['setv']:
                if J is None:
                    pieces.append((g * ge(n - 1), Templ(
                        lambda *idx, t=t: at(t.at(*idx), n - 1))))
                else:
                    pieces.append((in_range(J, n) * subst(g, {self.katom: J}), Templ(
                        lambda *idx, t=t: at(t.at(*idx), subst(J, dict(zip(IX, idx)))))))
        jset(cell, 'content', ('sym', L, tuple(pieces)))


def same_binding(c, old, new):
    """A name or attribute that is bound to the same object again."""
    if isinstance(c, (Buffer, LStore, DictV)) or old is MISSING or new is MISSING:
        return False
    if old is new:
        return isinstance(old, (Arr, Obj, PList))
    old, new = (x.v if isinstance(x, Lazy) and x.done else x for x in (old, new))
    if isinstance(old, Arr) and isinstance(new, Arr):
        return old.same(new)
    if isinstance(old, PList) and isinstance(new, PList):
        return old.same(new)
    return old is new and isinstance(old, (Arr, Obj))


def roarr(v):
    if isinstance(v, Obj):
        for x in v.slots.values():
            roarr(x)
    elif isinstance(v, Arr):
        v.buf.ro = True
    elif isinstance(v, PList):
        for x in v.items or ():
            roarr(x)


def unro(v):
    if isinstance(v, Obj):
        v.ro = False
        for x in v.slots.values():
            unro(x)
    elif isinstance(v, Arr):
        v.buf.ro = False
    elif isinstance(v, PList):
        v.st.ro = False
        for x in v.items or ():
            unro(x)


def inst2(I, v, mp, memo, clock, defs):
    """inst with the placeholder functions replaced by their solutions."""
    return inst(I, v, SubstMap(mp, defs), memo, clock)


class SubstMap(dict):
    """Substitution of variables after that of function symbols."""

    def __init__(self, mp, defs):
        super().__init__(mp)
        self.defs = defs


_subst0 = T.subst


def subst(p, mp, simp=True):
    if isinstance(mp, SubstMap):
        if p.fns & set(mp.defs):
            p = subst_fn(p, mp.defs)
        return _subst0(p, dict(mp))
    return _subst0(p, mp)


subst_plain = T.subst_plain
