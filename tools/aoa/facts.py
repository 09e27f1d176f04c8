"""Path facts of an abstract state and the (incomplete, terminating) entailment test used by joins, branches and rules."""
from .terms import *
from . import terms as tm


class Info:
    __slots__ = ('lits', 'sub', 'ineqs', 'nes', 'bools', 'bounds', 'ors', 'cache', 'bad', 'byatom')

    def __init__(self):
        self.lits = frozenset()
        self.sub, self.ineqs, self.nes, self.bools, self.bounds, self.ors = {}, [], set(), set(), {}, []
        self.cache, self.bad = {}, False
        self.byatom = {}

    def copy(self):
        n = Info()
        n.lits, n.sub, n.ineqs, n.nes, n.bools = self.lits, dict(self.sub), list(self.ineqs), set(self.nes), set(self.bools)
        n.bounds, n.ors, n.bad = dict(self.bounds), list(self.ors), self.bad
        n.byatom = {k: list(v) for k, v in self.byatom.items()}
        return n


EMPTYINFO = Info()
_cache = {frozenset(): EMPTYINFO}


def occurs(x, t):
    return t is x or any(_occ(x, y) for y in t.a)


def _occ(x, y):
    if type(y) is T:
        return occurs(x, y) if (x.op not in ('phi', 'sym', 'ver') or x in y.syms) else False
    if type(y) is tuple:
        return any(_occ(x, z) for z in y)
    return False


def info(lits):
    i = _cache.get(lits)
    if i is None:
        i = Info()
        # equalities first: fewer rebuilds
        for l in sorted(lits, key=lambda l: (l.op not in ('eq0', 'eqv'), l.id)):
            _add(i, l)
        i.lits = lits
        if len(_cache) > 60000:
            _cache.clear()
            _cache[frozenset()] = EMPTYINFO
        _cache[lits] = i
    return i


def simp(i, t):
    return subst(t, i.sub) if i.sub else t


def _add(i, l):
    l = simp(i, l)
    if l is TRUE:
        return
    if l is FALSE:
        i.bad = True
        return
    if l.op == 'band':
        for x in l.a:
            _add(i, x)
        return
    if l.op == 'eq0':
        d = l.a[0]
        c, p = parts(d)
        best = None
        for a, n in p:
            if abs(n) != 1 or any(occurs(a, b) for b, _ in p if b is not a):
                continue
            k = (a.op in ('phi', 'sym'), a.op in ('pj', 'discr', 'app', 'phi', 'sym'), a.id)
            if best is None or k > best[0]:
                best = (k, a, n)
        if best:
            _, a, n = best
            rhs = lincomb((-n, mklin(c, {x: m for x, m in p if x is not a})))
            _addsub(i, a, rhs)
            # keep the type range of the eliminated atom
            lo, hi = rng(a)
            if rng(rhs)[0] < lo:
                _ineq(i, addc(rhs, -lo))
            if rng(rhs)[1] > hi and hi < tm.INF:
                _ineq(i, lincomb((-1, rhs), (hi, ONE)))
        else:
            i.ineqs.append(d)
            i.ineqs.append(lincomb((-1, d)))
            _reindex(i)
        return
    if l.op == 'eqv':
        x, y = l.a
        if (x.size, x.id) > (y.size, y.id):
            x, y = y, x
        if y.op in ('adt', 'arr'):
            x, y = y, x
        if occurs(y, x) or y.op in ('adt', 'arr', 'int'):
            i.bools.add(l)
        else:
            _addsub(i, y, x)
        return
    if l.op == 'ge0':
        _ineq(i, l.a[0])
        return
    if l.op == 'ne0':
        d = l.a[0]
        i.nes.add(d)
        _tighten(i, d)
        return
    if l.op == 'bor':
        i.ors.append(l)
        return
    i.bools.add(l)


def _addsub(i, a, rhs):
    m = {a: rhs}
    i.sub = {k: subst(v, m) for k, v in i.sub.items()}
    i.sub[a] = rhs
    old = i.ineqs, i.nes, i.bools, i.ors
    i.ineqs, i.nes, i.bools, i.ors, i.bounds, i.byatom = [], set(), set(), [], {}, {}
    for d in old[0]:
        l = ge0(subst(d, m))
        _add(i, l)
    for d in old[1]:
        _add(i, neg(eqz(subst(d, m))))
    for b in old[2]:
        _add(i, subst(b, m))
    for b in old[3]:
        _add(i, subst(b, m))


def _reindex(i):
    i.byatom = {}
    for d in i.ineqs:
        for a, n in parts(d)[1]:
            i.byatom.setdefault(a, []).append(d)


def _ineq(i, d):
    d2 = ge0(d)
    if d2 is TRUE:
        return
    if d2 is FALSE:
        i.bad = True
        return
    d = d2.a[0]
    if d in i.ineqs:
        return
    i.ineqs.append(d)
    c, p = parts(d)
    for a, n in p:
        i.byatom.setdefault(a, []).append(d)
    if len(p) == 1:
        a, n = p[0]
        lo, hi = i.bounds.get(a) or rng(a)
        if n > 0:
            lo = max(lo, -(c // n))
        else:
            hi = min(hi, c // -n)
        if lo > hi:
            i.bad = True
            return
        i.bounds[a] = (lo, hi)
        if lo == hi:
            _addsub(i, a, I(lo))
            return
        for e in list(i.nes):
            if a in [x for x, _ in parts(e)[1]]:
                _tighten(i, e)


def _tighten(i, d):
    c, p = parts(d)
    if len(p) == 1 and abs(p[0][1]) == 1:
        a, n = p[0]
        v = -c * n
        lo, hi = i.bounds.get(a) or rng(a)
        if v == lo:
            _ineq(i, addc(a, -lo - 1))
        elif v == hi:
            _ineq(i, sub(I(hi - 1), a))


def brng(i, t):
    """range of t using single-atom bounds"""
    if t.op == 'int':
        return t.a[0], t.a[0]
    b = i.bounds.get(t)
    if t.op == 'lin':
        lo = hi = t.a[0]
        for a, n in t.a[1]:
            l, h = brng(i, a)
            if n > 0:
                lo += n * l
                hi += n * h
            else:
                lo += n * h
                hi += n * l
        return lo, hi
    r = rng(t)
    if b:
        return max(r[0], b[0]), min(r[1], b[1])
    if t.op == 'min':
        bs = [brng(i, x) for x in t.a]
        return min(x[0] for x in bs), min(r[1], min(x[1] for x in bs))
    if t.op == 'max':
        bs = [brng(i, x) for x in t.a]
        return max(x[0] for x in bs), max(x[1] for x in bs)
    return r


def assume(lits, l):
    """lits plus l, or None when l contradicts them; literals implied already are not added"""
    if l is TRUE:
        return lits
    if l is FALSE:
        return None
    if l in lits:
        return lits
    if l.op == 'band':
        for x in l.a:
            lits = assume(lits, x)
            if lits is None:
                return None
        return lits
    if l.op not in tm.BOOL and l.op != 'ite':
        l = i2b(l)
        return assume(lits, l)
    i = info(lits)
    if i.bad:
        return None
    if entails(lits, neg(l)):
        return None
    if entails(lits, l):
        # keep equalities that only hold syntactically through the substitution out
        return lits
    # a difference that is not zero and has a sign
    if l.op == 'ne0' and (len(parts(l.a[0])[1]) > 1 or rng(l.a[0])[0] < 0):
        for d in (l.a[0], lincomb((-1, l.a[0]))):
            if entails(lits, ge0(d)):
                return assume(lits, ge0(addc(d, -1)))
    if l.op == 'ge0' and i.nes:
        d = simp(i, l.a[0])
        if d in i.nes or lincomb((-1, d)) in i.nes:
            return assume(lits, ge0(addc(d, -1)))
    n = lits | {l}
    if n not in _cache:
        j = i.copy()
        _add(j, l)
        j.lits = n
        _cache[n] = j
    j = _cache[n]
    if j.bad:
        return None
    # unit propagation of disjunctions
    for o in list(j.ors):
        rest = [x for x in o.a if not entails(n, neg(x))]
        if not rest:
            return None
        if len(rest) == 1 and not entails(n, rest[0]):
            return assume(n, rest[0])
    return n


def entails(lits, l, depth=2):
    if l is TRUE or l in lits:
        return True
    if l is FALSE:
        return info(lits).bad
    i = info(lits)
    if i.bad:
        return True
    r = i.cache.get((l, depth))
    if r is None:
        i.cache[(l, depth)] = False
        r = _ent(i, l, depth)
        if not r and depth == 2:
            j = spread(i)
            r = j is not None and (j.bad or _ent(j, l, depth))
        i.cache[(l, depth)] = r
    return r


def spread(i):
    """the facts with every bound on the least (greatest) of several made a bound on each of them, or None when there is none"""
    j = i.cache.get('spread', i)
    if j is i:
        j = None
        for l in i.lits:
            if l.op not in ('ge0', 'ne0'):
                continue
            c, p = parts(l.a[0])
            if len(p) == 1 and p[0][0].op == ('min' if p[0][1] > 0 else 'max') and (l.op == 'ge0' or c == 0 and p[0][0].op == 'min' and rng(p[0][0])[0] >= 0):
                for x in p[0][0].a:
                    m = lincomb((p[0][1], x))
                    m = ge0(addc(m, c)) if l.op == 'ge0' else neg(eq(x, tm.ZERO))
                    if not _ent(i, m, 1):
                        if j is None:
                            j = i.copy()
                            j.lits = i.lits
                        _add(j, m)
        i.cache['spread'] = j
    return j


def _ent(i, l, depth):
    l = simp(i, l)
    if l is TRUE:
        return True
    if l is FALSE:
        return i.bad
    op = l.op
    if op == 'band':
        return all(_ent(i, x, depth) for x in l.a)
    if op == 'bor':
        if any(_ent(i, x, depth) for x in l.a) or l in i.ors:
            return True
        if depth > 0:
            # assume all but one false
            for k, x in enumerate(l.a):
                lits = i.lits
                for y in l.a[:k] + l.a[k + 1:]:
                    lits = assume(lits, neg(y))
                    if lits is None:
                        return True
                if entails(lits, x, depth - 1):
                    return True
                break
        return False
    if op == 'ge0':
        r = prove_ge0(i, l.a[0], 4)
    elif op == 'eq0':
        d = l.a[0]
        r = prove_ge0(i, d, 3) and prove_ge0(i, lincomb((-1, d)), 3)
    elif op == 'ne0':
        d = l.a[0]
        r = d in i.nes or lincomb((-1, d)) in i.nes or prove_ge0(i, addc(d, -1), 3) or prove_ge0(i, lincomb((-1, d), (-1, ONE)), 3)
    elif op == 'ite':
        return _split(i, l.a[0], l.a[1], l.a[2], depth)
    elif op in ('eqv', 'not'):
        r = l in i.bools
        if not r and op == 'eqv' and (l.a[0].op == 'ite' or l.a[1].op == 'ite'):
            x, y = l.a if l.a[0].op == 'ite' else l.a[::-1]
            return depth > 0 and _split(i, x.a[0], eq(x.a[1], y), eq(x.a[2], y), depth)
        if not r and op == 'not' and l.a[0].op == 'eqv' and depth > 0:
            # distinct because a difference between components is known: try components
            x, y = l.a[0].a
            if x.op == 'ite' or y.op == 'ite':
                x, y = (x, y) if x.op == 'ite' else (y, x)
                return _split(i, x.a[0], neg(eq(x.a[1], y)), neg(eq(x.a[2], y)), depth)
    else:
        r = l in i.bools or _ent(i, i2b(l), depth) if i2b(l) is not l else l in i.bools
    if r:
        return True
    if depth > 0 and i.ors and i.lits:
        for o in i.ors:
            ok = True
            for x in o.a:
                n = _plus(i.lits, x, o)
                if n is not None and not entails(n, l, depth - 1):
                    ok = False
                    break
            if ok:
                return True
    return False


def _plus(lits, x, drop):
    n = assume(frozenset(y for y in lits if y is not drop), x)
    return n


def _split(i, c, a, b, depth):
    if depth <= 0:
        return False
    n = assume(i.lits, c)
    if n is not None and not entails(n, a, depth - 1):
        return False
    n = assume(i.lits, neg(c))
    if n is not None and not entails(n, b, depth - 1):
        return False
    return True


def prove_ge0(i, d, depth, seen=None):
    d = ge0(d)
    if d is TRUE:
        return True
    if d is FALSE:
        return False
    d = d.a[0]
    if brng(i, d)[0] >= 0:
        return True
    if depth <= 0:
        return False
    if seen is None:
        seen = set()
    if d in seen:
        return False
    seen.add(d)
    c, p = parts(d)
    for a, n in p:
        if a.op in ('min', 'max'):
            up = (a.op == 'min') == (n > 0)
            rest = lincomb((1, d), (-n, a))
            gs = [lincomb((1, rest), (n, x)) for x in a.a]
            # up: the atom equals one of its arguments, all must work; otherwise it is bounded by each, one suffices
            if up:
                if all(prove_ge0(i, g, depth - 1, set(seen)) for g in gs):
                    return True
            elif any(prove_ge0(i, g, depth - 1, seen) for g in gs):
                return True
        elif a.op == 'ite' and i.lits is not None and depth >= 2:
            rest = lincomb((1, d), (-n, a))
            x, y = lincomb((1, rest), (n, a.a[1])), lincomb((1, rest), (n, a.a[2]))
            ok = True
            for cond, g in ((a.a[0], x), (neg(a.a[0]), y)):
                l2 = assume(i.lits, cond)
                if l2 is not None and not prove_ge0(info(l2), simp(info(l2), g), depth - 2):
                    ok = False
                    break
            if ok:
                return True
    # combine with a known inequality that cancels an atom
    for a, n in sorted(p, key=lambda q: (q[1] > 0, q[0].id)):
        for e in i.byatom.get(a, ()):
            m = dict(parts(e)[1])[a]
            if (m > 0) == (n > 0) and n % m == 0:
                if prove_ge0(i, lincomb((1, d), (-(n // m), e)), depth - 1, seen):
                    return True
        if n < 0 and a.op == 'mul' and False:
            pass
        if a.op == 'div' and n < 0:
            # a div b <= a
            if prove_ge0(i, lincomb((1, d), (-n, a), (n, a.a[0])), depth - 1, seen):
                return True
        if a.op == 'mul' and n < 0:
            # (x div b) * b <= x
            for k, f in enumerate(a.a):
                if f.op == 'div' and f.a[1] in a.a:
                    rest = [g for j, g in enumerate(a.a) if j != k]
                    rest.remove(f.a[1])
                    x = f.a[0]
                    for g in rest:
                        x = mul(x, g)
                    if prove_ge0(i, lincomb((1, d), (-n, a), (n, x)), depth - 1, seen):
                        return True
    return False
