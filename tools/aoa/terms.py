"""Hash-consed terms of the abstract domain: integers in linear normal form, booleans as linear (dis)equalities,
aggregates, functional memory (with/store), references to places, and named join symbols (phi)."""


class T:
    __slots__ = ('op', 'a', 'id', 'syms', 'size')

    def __repr__(self):
        return show(self)


_tab = {}
_list = []
EMPTY = frozenset()
RNG = {}              # atom -> (lo, hi) from its type
U = {8: (1 << 8) - 1, 16: (1 << 16) - 1, 32: (1 << 32) - 1, 64: (1 << 64) - 1, 128: (1 << 128) - 1}
INF = (1 << 200)


def _syms(x):
    if type(x) is T:
        return x.syms
    if type(x) is tuple:
        r = EMPTY
        for y in x:
            s = _syms(y)
            if s:
                r = r | s if r else s
        return r
    return EMPTY


def _size(x):
    if type(x) is T:
        return x.size
    if type(x) is tuple:
        return sum(_size(y) for y in x)
    return 0


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.id = op, a, len(_list)
        t.syms = frozenset((t,)) if op in ('phi', 'sym', 'ver') else _syms(a)
        t.size = min(1 + _size(a), 1 << 40)
        _tab[k] = t
        _list.append(t)
    return t


def I(n):
    return mk('int', n)


ZERO, ONE = I(0), I(1)
TRUE, FALSE = ONE, ZERO
UNDEF = mk('undef')
UNIT = mk('adt', '()', 0, ())


def is_int(t):
    return t.op == 'int'


# ------------------------------------------------------------------ linear forms
def parts(t):
    if t.op == 'int':
        return t.a[0], ()
    if t.op == 'lin':
        return t.a[0], t.a[1]
    return 0, ((t, 1),)


def mklin(c, d):
    """c + sum d[atom]*atom"""
    items = [(k, v) for k, v in d.items() if v]
    # recombine halves of a wide value: shr(K,64)*2^64*c + trunc(64,K)*c -> c*K
    if len(items) >= 2:
        for k, v in items:
            if k.op == 'trunc' and k.a[0] == 64:
                K = k.a[1]
                h = shr(K, 64)
                if h.op not in ('int', 'lin') and d.get(h) == v << 64:
                    d = dict(d)
                    d[k] = 0
                    d[h] = 0
                    kc, kp = parts(K)
                    for a, n in kp:
                        d[a] = d.get(a, 0) + n * v
                    return mklin(c + kc * v, d)
    if not items:
        return I(c)
    if len(items) == 1 and c == 0 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda kv: kv[0].id)
    return mk('lin', c, tuple(items))


def lincomb(*terms):
    """sum coef*term"""
    c, d = 0, {}
    for k, t in terms:
        tc, tp = parts(t)
        c += k * tc
        for a, n in tp:
            d[a] = d.get(a, 0) + k * n
    return mklin(c, d)


def add(a, b):
    return lincomb((1, a), (1, b))


def sub(a, b):
    return lincomb((1, a), (-1, b))


def addc(a, n):
    return lincomb((1, a), (n, ONE))


BELOW = {'rem': slice(0, 1), 'div': slice(0, 1), 'shr': slice(0, 1), 'and': slice(0, 2), 'trunc': slice(1, 2), 'min': slice(0, 9)}


def rng(t):
    if t.op == 'int':
        return t.a[0], t.a[0]
    r = RNG.get(t)
    if t.op == 'lin':
        lo = hi = t.a[0]
        for a, n in t.a[1]:
            l, h = rng(a)
            if n > 0:
                lo += n * l
                hi += n * h
            else:
                lo += n * h
                hi += n * l
        if len(t.a[1]) > 1:
            pos = {a: n for a, n in t.a[1] if n > 0}
            for b, n in t.a[1]:
                if n < 0 and b.op in BELOW:
                    # b is at most a
                    for a in b.a[BELOW[b.op]]:
                        if type(a) is T and pos.get(a, 0) >= -n and rng(a)[0] >= 0:
                            l, h = rng(a)
                            lo += -n * rng(b)[1] + n * l
                            pos[a] += n
                            break
        if r:
            lo, hi = max(lo, r[0]), min(hi, r[1])
        return max(lo, -INF), min(hi, INF)
    if t.op in ('ge0', 'eq0', 'ne0', 'eqv', 'not', 'b2i'):
        return 0, 1
    if t.op == 'ite':
        l1, h1 = rng(t.a[1])
        l2, h2 = rng(t.a[2])
        return min(l1, l2), max(h1, h2)
    if t.op == 'min':
        rs = [rng(x) for x in t.a]
        return min(x[0] for x in rs), min(x[1] for x in rs)
    if t.op == 'max':
        rs = [rng(x) for x in t.a]
        return max(x[0] for x in rs), max(x[1] for x in rs)
    if t.op == 'trunc':
        return 0, U[t.a[0]] if t.a[0] in U else (1 << t.a[0]) - 1
    if t.op == 'shr' and is_int(t.a[1]):
        l, h = rng(t.a[0])
        return 0, h >> t.a[1].a[0]
    if t.op == 'rem':
        h = rng(t.a[1])[1]
        return 0, max(h - 1, 0)
    if t.op == 'div':
        return 0, rng(t.a[0])[1]
    if t.op == 'and':
        return 0, min(rng(t.a[0])[1], rng(t.a[1])[1])
    if t.op == 'len':
        return 0, U[64]
    if r:
        return r
    return 0, INF


INTW = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64}


def note_type(t, ty):
    """record the range a type gives to an atom"""
    w = INTW.get(ty)
    # a range is recorded once and for all, so only for opaque atoms: what holds of a computed value depends on the path
    if w and t.op not in ('int', 'lin', 'ite', 'min', 'max'):
        r = (0, U[w])
        o = RNG.get(t)
        if o is None or o[1] > r[1]:
            RNG[t] = r
    elif ty == 'bool' and t.op not in ('int', 'lin'):
        RNG.setdefault(t, (0, 1))


def mul(a, b):
    if is_int(a):
        return lincomb((a.a[0], b))
    if is_int(b):
        return lincomb((b.a[0], a))
    # distribute over linear sums so that products have one normal form
    for x, y in ((a, b), (b, a)):
        if x.op == 'div' and x.a[1] is y and rng(x.a[0])[0] >= 0:
            return lincomb((1, x.a[0]), (-1, rem(x.a[0], y)))
    ca, pa = parts(a)
    cb, pb = parts(b)
    c, d = ca * cb, {}
    for x, n in pa:
        if cb:
            d[x] = d.get(x, 0) + n * cb
        for y, m in pb:
            f = factors(x) + factors(y)
            k = mk('mul', *sorted(f, key=lambda t: t.id))
            d[k] = d.get(k, 0) + n * m
    if ca:
        for y, m in pb:
            d[y] = d.get(y, 0) + m * ca
    return mklin(c, d)


def factors(x):
    return list(x.a) if x.op == 'mul' else [x]


def div(a, b):
    if is_int(a) and is_int(b) and b.a[0]:
        return I(a.a[0] // b.a[0])
    if b is ONE:
        return a
    # exact division of every coefficient, or (x*b + r)/b with 0 <= r < b for constant b
    if is_int(b) and b.a[0] > 0:
        n = b.a[0]
        c, p = parts(a)
        q, r = {}, {}
        for x, k in p:
            if k % n == 0:
                q[x] = k // n
            else:
                r[x] = k
        rest = mklin(c % n if not r else c, r)
        lo, hi = rng(rest)
        if lo >= 0 and lo // n == hi // n:
            return mklin((c - c % n) // n + lo // n if not r else lo // n, q)
        if q and lo >= 0:
            return lincomb((1, mklin((c - c % n) // n if not r else 0, q)), (1, div(rest, b)))
        if n >= 1 << 32 and n & (n - 1) == 0 and rng(a)[0] >= 0:
            return mk('shr', a, I(n.bit_length() - 1))
    else:
        c, p = parts(a)
        if c == 0 and p and all(x.op == 'mul' and b in x.a for x, k in p):
            d = {}
            for x, k in p:
                f = list(x.a)
                f.remove(b)
                y = mk('mul', *f) if len(f) > 1 else f[0]
                d[y] = d.get(y, 0) + k
            return mklin(0, d)
        # (q*b + r) / b for a sum b: q is read off the terms that hold none of b's atoms
        cb, pb = parts(b)
        if len(pb) >= 1 and cb > 0 and (len(p) > 1 or c) and rng(b)[0] > 0:
            at = {y for y, m in pb}
            q0 = {x: k for x, k in p if not any(y in at for y in factors(x))}
            if all(k % cb == 0 for k in q0.values()):
                q = mklin(c // cb, {x: k // cb for x, k in q0.items()})
                if q is not ZERO:
                    lo, hi = rng(lincomb((1, a), (-1, mul(q, b))))
                    if 0 <= lo and hi < rng(b)[0]:
                        return q
    return mk('div', a, b)


def rem(a, b):
    if is_int(a) and is_int(b) and b.a[0]:
        return I(a.a[0] % b.a[0])
    if b is ONE:
        return ZERO
    if is_int(b) and rng(a)[1] < b.a[0] and rng(a)[0] >= 0:
        return a
    # drop multiples of the modulus
    c, p = parts(a)
    d = {}
    ch = False
    for x, k in p:
        if (is_int(b) and k % b.a[0] == 0 and b.a[0]) or (x.op == 'mul' and b in x.a) or x is b:
            ch = True
            continue
        d[x] = k
    if ch:
        return rem(mklin(c, d), b)
    return mk('rem', a, b)


def shl(a, n, w=128):
    if is_int(a) and a.a[0] > 0 and a.a[0] & (a.a[0] - 1) == 0 and n.op == 'lin' and n.a[0] > 0 and len(n.a[1]) == 1 and n.a[1][0][1] == -1:
        # 2^k << (c - x) is 2^(k+c) >> x
        k = a.a[0].bit_length() - 1 + n.a[0]
        if k <= w - 1:
            return shr(I(1 << k), n.a[1][0][0])
    if is_int(n):
        return lincomb((1 << n.a[0], a)) if rng(a)[1] << n.a[0] <= (1 << w) - 1 else mk('shl', a, n)
    return mk('shl', a, n)


def shr(a, n):
    if not isinstance(n, int):
        if not is_int(n):
            return mk('shr', a, n)
        n = n.a[0]
    if n == 0:
        return a
    if is_int(a):
        return I(a.a[0] >> n)
    q = div(a, I(1 << n))
    if q.op == 'div':
        return mk('shr', a, I(n))
    return q


def trunc(w, a):
    if is_int(a):
        return I(a.a[0] & ((1 << w) - 1))
    lo, hi = rng(a)
    if 0 <= lo and hi < (1 << w):
        return a
    c, p = parts(a)
    d = {x: k for x, k in p if k % (1 << w)}
    if len(d) < len(p):
        return trunc(w, mklin(c, d))
    if a.op == 'trunc':
        return trunc(min(w, a.a[0]), a.a[1])
    if w == 1 and a.op == 'shr':
        # a single bit
        m = shl(ONE, a.a[1])
        if m.op in ('shr', 'int'):
            return b2i(neg(eqz(band(a.a[0], m))))
    return mk('trunc', w, a)


def band(a, b):
    if is_int(a) and is_int(b):
        return I(a.a[0] & b.a[0])
    if a is ZERO or b is ZERO:
        return ZERO
    if is_int(a):
        a, b = b, a
    if is_int(b):
        n = b.a[0]
        if n and (n & (n + 1)) == 0:
            return trunc(n.bit_length(), a)
        if n and n & (n - 1) == 0:
            lo, hi = rng(trunc(n.bit_length(), a))
            if 0 <= lo and hi < n:
                return ZERO
            if n <= lo and hi < 2 * n:
                return I(n)
        k = n & -n
        lo, hi = rng(trunc(n.bit_length(), a))
        if 0 <= lo and hi < k:
            return ZERO
    if a.op == 'ite' and not (b.op == 'ite' and b.id < a.id):
        pass
    if a.id > b.id:
        a, b = b, a
    return a if a is b else mk('and', a, b)


def disjoint(a, b):
    """bits of a and b cannot overlap: a multiple of 2^k, b below 2^k"""
    for x, y in ((a, b), (b, a)):
        c, p = parts(x)
        k = 0
        while k < 128 and c % (1 << (k + 1)) == 0 and all(n % (1 << (k + 1)) == 0 for _, n in p):
            k += 1
        lo, hi = rng(y)
        if 0 <= lo and hi < (1 << k):
            return True
    return False


def bor(a, b):
    if is_int(a) and is_int(b):
        return I(a.a[0] | b.a[0])
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    if disjoint(a, b):
        return add(a, b)
    if a.id > b.id:
        a, b = b, a
    return a if a is b else mk('or', a, b)


def bxor(a, b):
    if is_int(a) and is_int(b):
        return I(a.a[0] ^ b.a[0])
    if a is b:
        return ZERO
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    if disjoint(a, b):
        return add(a, b)
    if is_int(a):
        a, b = b, a
    if is_int(b) and b.a[0] & (b.a[0] + 1) == 0:
        lo, hi = rng(a)
        if lo is not None and hi is not None and lo >= 0 and hi <= b.a[0]:
            return sub(b, a)
    if a.id > b.id:
        a, b = b, a
    return mk('xor', a, b)


def tmin(*xs):
    return _mm('min', xs)


def tmax(*xs):
    return _mm('max', xs)


def _mm(op, xs):
    flat, const = set(), None
    for x in xs:
        for y in (x.a if x.op == op else (x,)):
            if is_int(y):
                n = y.a[0]
                const = n if const is None else (min(const, n) if op == 'min' else max(const, n))
            else:
                flat.add(y)
    if const is not None:
        if op == 'min' and any(rng(y)[1] <= const for y in flat):
            const = None
        elif op == 'max' and any(rng(y)[0] >= const for y in flat):
            const = None
    l = sorted(flat, key=lambda t: t.id)
    if const is not None:
        l.append(I(const))
    if len(l) == 1:
        return l[0]
    return mk(op, *l)


# ------------------------------------------------------------------ booleans
def ge0(d):
    c, p = parts(d)
    if not p:
        return TRUE if c >= 0 else FALSE
    lo, hi = rng(d)
    if lo >= 0:
        return TRUE
    if hi < 0:
        return FALSE
    g = 0
    for _, n in p:
        g = _gcd(g, abs(n))
    if g > 1:
        d = mklin(c // g, {a: n // g for a, n in p})
        c, p = parts(d)
    if len(p) == 1 and abs(p[0][1]) == 1:
        # bounds of a quotient by a constant are bounds of the dividend
        a, n = p[0]
        k = 0
        if a.op == 'shr' and is_int(a.a[1]):
            k = 1 << a.a[1].a[0]
        elif a.op == 'div' and is_int(a.a[1]):
            k = a.a[1].a[0]
        if k > 0 and rng(a.a[0])[0] >= 0:
            if n > 0:
                return ge0(addc(a.a[0], c * k))
            return ge0(lincomb((-1, a.a[0]), (c * k + k - 1, ONE)))
        # a quotient exists only where its divisor is not zero
        if a.op == 'div' and not is_int(a.a[1]) and rng(a.a[0])[0] >= 0 and rng(a.a[1])[0] >= 0:
            if n > 0 and c == -1:
                return ge0(sub(a.a[0], a.a[1]))
            if n < 0 and c == 0:
                return lt(a.a[0], a.a[1])
    return mk('ge0', d)


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def lt(a, b):
    return ge0(lincomb((1, b), (-1, a), (-1, ONE)))


def le(a, b):
    return ge0(sub(b, a))


def eqz(d):
    c, p = parts(d)
    if not p:
        return TRUE if c == 0 else FALSE
    lo, hi = rng(d)
    if lo > 0 or hi < 0:
        return FALSE
    g = 0
    for _, n in p:
        g = _gcd(g, abs(n))
    if g > 1:
        if c % g:
            return FALSE
        d = mklin(c // g, {a: n // g for a, n in p})
        c, p = parts(d)
    if p[0][1] < 0:
        d = lincomb((-1, d))
        c, p = parts(d)
    if c == 0 and len(p) == 2 and p[0][1] == -p[1][1]:
        # x & bit == bit
        for x, m in ((p[0][0], p[1][0]), (p[1][0], p[0][0])):
            if x.op == 'and' and m in x.a and m.op == 'shr' and is_int(m.a[0]) and m.a[0].a[0] in (1 << 63, 1 << 127):
                return neg(eqz(x))
    if len(p) == 1 and abs(p[0][1]) == 1:
        a = p[0][0]
        v = -c
        if a.op == 'b2i':
            return a.a[0] if v == 1 else neg(a.a[0]) if v == 0 else FALSE
        if a.op == 'ite' and a.a[1].op == 'int' and a.a[2].op == 'int':
            x, y = a.a[1].a[0] == v, a.a[2].a[0] == v
            return TRUE if x and y else a.a[0] if x else neg(a.a[0]) if y else FALSE
        # top-bit test: (x & 2^k) == 0 with x < 2^(k+1)
        if a.op == 'and' and v == 0:
            for m, x in (a.a, a.a[::-1]):
                if is_int(m):
                    n = m.a[0]
                    if n & (n - 1) == 0 and rng(x)[1] < 2 * n and rng(x)[0] >= 0:
                        return ge0(sub(I(n - 1), x))
        if a.op == 'div' and v == 0 and rng(a.a[0])[0] >= 0 and rng(a.a[1])[0] >= 0:
            return lt(a.a[0], a.a[1])
        if a.op == 'shr' and v == 0 and is_int(a.a[1]):
            return ge0(sub(I((1 << a.a[1].a[0]) - 1), a.a[0]))
        if a.op == 'xor' and v == 0:
            return eqz(sub(*a.a))
        lo, hi = rng(a)
        if v == lo:
            return ge0(sub(I(v), a))
        if v == hi:
            return ge0(addc(a, -v))
    return mk('eq0', d)


def _isnum(t):
    return t.op in ('int', 'lin') or t in RNG or t.op in ('min', 'max', 'trunc', 'and', 'shr', 'rem', 'div', 'mul', 'b2i', 'len', 'shl', 'or', 'xor') \
        or t.op == 'ite' and t.a[1].op not in BOOL and t.a[2].op not in BOOL and (_isnum(t.a[1]) or _isnum(t.a[2]))


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'adt' and b.op == 'adt':
        if a.a[0] == b.a[0]:
            if a.a[1] != b.a[1]:
                return FALSE
            r = TRUE
            for x, y in zip(a.a[2], b.a[2]):
                r = conj(r, eq(x, y))
            return r
    if a.op == 'arr' and b.op == 'arr' and len(a.a) == len(b.a):
        r = TRUE
        for x, y in zip(a.a, b.a):
            r = conj(r, eq(x, y))
        return r
    if a.op in BOOL and b.op == 'int':
        return a if b.a[0] else neg(a)
    if b.op in BOOL and a.op == 'int':
        return b if a.a[0] else neg(b)
    if a.op in BOOL or b.op in BOOL:
        return eqz(sub(b2i(a), b2i(b)))
    if a.op in AGG or b.op in AGG or (not (_isnum(a) or _isnum(b))):
        if a.id > b.id:
            a, b = b, a
        return mk('eqv', a, b)
    return eqz(sub(a, b))


AGG = ('adt', 'arr', 'with', 'store', 'ref', 'mem0')
BOOL = ('ge0', 'eq0', 'ne0', 'eqv', 'not', 'band', 'bor')


def neg(t):
    if t.op == 'int':
        return FALSE if t.a[0] else TRUE
    if t.op == 'ge0':
        return ge0(lincomb((-1, t.a[0]), (-1, ONE)))
    if t.op == 'eq0':
        return mk('ne0', t.a[0])
    if t.op == 'ne0':
        return mk('eq0', t.a[0])
    if t.op == 'not':
        return t.a[0]
    if t.op == 'band':
        return disj(*[neg(x) for x in t.a])
    if t.op == 'bor':
        return conj(*[neg(x) for x in t.a])
    if t.op == 'lin' or t.op == 'b2i':
        # a boolean in integer clothing: 1 - b
        return i2b(sub(ONE, t))
    if t.op == 'ite':
        return ite(t.a[0], neg(t.a[1]), neg(t.a[2]))
    if t.op == 'eqv' or t.op == 'undef':
        return mk('not', t)
    return neg(i2b(t))


def _bb(op, xs, unit):
    l = set()
    zero = FALSE if unit is TRUE else TRUE
    for x in xs:
        for y in (x.a if x.op == op else (x,)):
            if y is zero:
                return zero
            if y is not unit:
                l.add(y)
    for y in l:
        if neg(y) in l:
            return zero
    if not l:
        return unit
    if len(l) == 1:
        return next(iter(l))
    return mk(op, *sorted(l, key=lambda t: t.id))


def conj(*xs):
    return _bb('band', xs, TRUE)


def disj(*xs):
    return _bb('bor', xs, FALSE)


def b2i(t):
    """0/1 integer of a boolean, one polarity canonical"""
    if t.op == 'int':
        return t
    if t.op not in BOOL:
        return t          # an opaque boolean is its own 0/1 value
    if t.op == 'ge0':
        c, p = parts(t.a[0])
        if len(p) == 1 and RNG.get(p[0][0]) == (0, 1):
            if c == -1 and p[0][1] == 1:
                return p[0][0]
            if c == 0 and p[0][1] == -1:
                return sub(ONE, p[0][0])
    if t.op == 'not':
        return sub(ONE, b2i(t.a[0]))
    n = neg(t)
    if t.op == 'ne0' or (t.op in ('ge0', 'band', 'bor') and n.id < t.id and n.op == t.op):
        return sub(ONE, mk('b2i', n))
    if t.op == 'ge0' and n.op == 'ge0':
        # canonical: smaller id of the two polarities
        if n.id < t.id:
            return sub(ONE, mk('b2i', n))
    return mk('b2i', t)


def i2b(t):
    """boolean of a 0/1 integer"""
    if t.op == 'int':
        return TRUE if t.a[0] else FALSE
    if t.op == 'b2i':
        return t.a[0]
    if t.op == 'lin':
        c, p = parts(t)
        if len(p) == 1 and c == 1 and p[0][1] == -1:
            return neg(i2b(p[0][0]))
    if t.op in BOOL:
        return t
    if t.op == 'ite':
        return ite(t.a[0], i2b(t.a[1]), i2b(t.a[2]))
    if t.op == 'undef':
        return t
    RNG.setdefault(t, (0, 1))
    return ge0(addc(t, -1))


def ite(c, a, b):
    if c.op == 'int':
        return a if c.a[0] else b
    if a is b:
        return a
    if c.op in ('not', 'ne0'):
        return ite(neg(c), b, a)
    n = neg(c)
    if n.op == c.op and n.id < c.id:
        return ite(n, b, a)
    if a is ONE and b is ZERO:
        return c if c.op in BOOL else c
    if a is ZERO and b is ONE:
        return neg(c)
    if c.op == 'ge0':
        # min / max recognition: c is (a <= b) up to the integer gap
        d = c.a[0]
        if d is sub(b, a):
            return tmin(a, b)
        if d is sub(a, b):
            return tmax(a, b)
        if d is addc(sub(b, a), -1):
            return tmin(a, b)
        if d is addc(sub(a, b), -1):
            return tmax(a, b)
    if a.op == 'adt' and b.op == 'adt' and a.a[0] == b.a[0] and a.a[1] == b.a[1]:
        return mk('adt', a.a[0], a.a[1], tuple(ite(c, x, y) for x, y in zip(a.a[2], b.a[2])))
    if a.op == 'ite' and a.a[0] is c:
        a = a.a[1]
    if b.op == 'ite' and b.a[0] is c:
        b = b.a[2]
    # a bound that applies in one case only
    for x, y, sw in ((a, b, False), (b, a, True)):
        if x.op == 'min' and y.op not in ('int', 'lin') :
            ys = y.a if y.op == 'min' else (y,)
            if all(k in x.a for k in ys):
                rest = [k for k in x.a if k not in ys]
                if rest and all(U[64] >= rng(k)[1] for k in rest):
                    r = tmin(*rest)
                    return tmin(y, ite(c, I(U[64]), r) if sw else ite(c, r, I(U[64]))) if rng(y)[1] <= U[64] else mk('ite', c, a, b)
    return mk('ite', c, a, b)


# ------------------------------------------------------------------ aggregates and memory
def adt(name, variant, fields):
    return mk('adt', name, variant, tuple(fields))


def ref(root, path):
    return mk('ref', root, tuple(path))


def provably_distinct(a, b):
    d = sub(a, b)
    c, p = parts(d)
    if not p:
        return c != 0
    lo, hi = rng(d)
    if lo > 0 or hi < 0:
        return True
    g = 0
    for _, n in p:
        g = _gcd(g, abs(n))
    return g > 1 and c % g != 0


def last_seg_eq(a, b):
    return a.split('::')[-1] == b


def proj(t, p):
    op = t.op
    k = p[0]
    if op == 'adt':
        if k == 'f':
            if p[1] is not None and p[1] != t.a[1]:
                return UNDEF
            fs = t.a[2]
            return fs[p[2]] if p[2] < len(fs) else UNDEF
        if k == 'as' and last_seg_eq(t.a[0], p[1]):
            return t
    elif op == 'arr':
        if k == 'i' and is_int(p[1]):
            n = p[1].a[0]
            return t.a[n] if n < len(t.a) else UNDEF
    elif op == 'rep':
        if k == 'i':
            return t.a[0]
    elif op == 'with':
        for q, v in t.a[1]:
            if q == p:
                return v
        if k in ('i', 'r') and any(q[0] in ('r', 'i') and _rel(p, q) for q, _ in t.a[1]):
            return mk('pj', t, p)
        if any((q[0] == 'as') != (k == 'as') or k == 'as' for q, _ in t.a[1]):
            return mk('pj', t, p)       # the same bytes under another type
        if k in ('f', 'rc', 'cell', 'as', 'r', 'bx'):
            return proj(t.a[0], p)
        if k == 'i':
            return proj(t.a[0], p)
    elif op == 'store':
        if k == 'i':
            if t.a[1] is p[1]:
                return t.a[2]
            if provably_distinct(t.a[1], p[1]):
                return proj(t.a[0], p)
            return mk('pj', t, p)
        return proj(t.a[0], p)
    elif op == 'ite':
        return ite(t.a[0], proj(t.a[1], p), proj(t.a[2], p))
    elif op == 'undef':
        return UNDEF
    return mk('pj', t, p)


def _rel(p, q):
    """may two byte-range projections overlap"""
    def span(x):
        if x[0] == 'i' and is_int(x[1]):
            return x[1], addc(x[1], 1)
        if x[0] == 'r':
            return x[1], x[2]
        return None
    a, b = span(p), span(q)
    if a is None or b is None:
        return True
    d1, d2 = sub(b[0], a[1]), sub(a[0], b[1])
    return not (rng(d1)[0] >= 0 or rng(d2)[0] >= 0)


def setp(t, p, v):
    op = t.op
    k = p[0]
    if op == 'adt' and k == 'f' and (p[1] is None or p[1] == t.a[1]) and p[2] < len(t.a[2]):
        fs = list(t.a[2])
        fs[p[2]] = v
        return mk('adt', t.a[0], t.a[1], tuple(fs))
    if op == 'arr' and k == 'i' and is_int(p[1]) and p[1].a[0] < len(t.a):
        fs = list(t.a)
        fs[p[1].a[0]] = v
        return mk('arr', *fs)
    if k == 'i' and not (is_int(p[1]) and op in ('with', 'mem0') and _has_range(t)):
        if v is proj(t, p):
            return t
        if op == 'store':
            if t.a[1] is p[1]:
                return mkstore(t.a[0], p[1], v)
            if provably_distinct(t.a[1], p[1]):
                # canonical order by index id
                if t.a[1].id > p[1].id:
                    return mkstore(setp(t.a[0], p, v), t.a[1], t.a[2])
        return mkstore(t, p[1], v)
    base, m = (t.a[0], dict(t.a[1])) if op == 'with' else (t, {})
    if k in ('r', 'i'):
        for q in list(m):
            if q != p and q[0] in ('r', 'i') and _rel(p, q):
                m[q] = mk('clob', m[q], v)
    for q in list(m):
        if q != p and (k == 'as' or q[0] == 'as'):
            m[q] = mk('clob', m[q], v)
    if proj(base, p) is v:
        m.pop(p, None)
    else:
        m[p] = v
    if not m:
        return base
    return mk('with', base, tuple(sorted(m.items(), key=_pk)))


def _has_range(t):
    return t.op == 'with' and any(q[0] == 'r' for q, _ in t.a[1])


def mkstore(b, i, v):
    return mk('store', b, i, v)


def _pk(kv):
    return tuple(x.id if type(x) is T else (-1 if x is None else x) if not isinstance(x, str) else 0 for x in kv[0][1:]), kv[0][0], str(kv[0])


def getpath(t, path):
    for p in path:
        t = proj(t, p)
    return t


def setpath(t, path, v):
    if not path:
        return v
    p = path[0]
    return setp(t, p, setpath(proj(t, p), path[1:], v))


def subst(t, m, cache=None):
    """replace terms by m (dict T->T), rebuilding through the smart constructors"""
    if cache is None:
        cache = {}
    return _subst(t, m, cache)


def _subst(t, m, cache):
    r = m.get(t)
    if r is not None:
        return r
    r = cache.get(t)
    if r is not None:
        return r
    op, a = t.op, t.a
    if op in ('int', 'undef', 'sym', 'phi', 'ver', 'fn'):
        return t
    if op == 'lin':
        r = lincomb((a[0], ONE), *[(n, _subst(x, m, cache)) for x, n in a[1]])
    else:
        na = tuple(_sub_any(x, m, cache) for x in a)
        r = t if na == a else rebuild(op, na)
    cache[t] = r
    return r


def _sub_any(x, m, cache):
    if type(x) is T:
        return _subst(x, m, cache)
    if type(x) is tuple:
        return tuple(_sub_any(y, m, cache) for y in x)
    return x


def rebuild(op, a):
    f = REB.get(op)
    if f:
        return f(*a)
    if op == 'with':
        t = a[0]
        for p, v in a[1]:
            t = setp(t, p, v)
        return t
    if op == 'store':
        return setp(a[0], ('i', a[1]), a[2])
    if op == 'pj':
        return proj(a[0], a[1])
    return mk(op, *a)


def _mulN(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = mul(r, x)
    return r


REB = {'ge0': ge0, 'eq0': eqz, 'ne0': lambda d: neg(eqz(d)), 'eqv': eq, 'not': neg, 'band': conj, 'bor': disj, 'b2i': b2i,
       'ite': ite, 'min': tmin, 'max': tmax, 'mul': _mulN, 'div': div, 'rem': rem, 'shr': shr, 'shl': shl, 'trunc': trunc,
       'and': band, 'or': bor, 'xor': bxor}


def show(t, d=0):
    if type(t) is not T:
        if type(t) is tuple:
            return '(' + ','.join(show(x, d) for x in t) + ')'
        return str(t)
    if d > 9:
        return '..'
    op, a = t.op, t.a
    if op == 'int':
        n = a[0]
        return str(n) if abs(n) < 1 << 31 else hex(n)
    if op == 'lin':
        s = ' + '.join(('%s*' % (n if abs(n) < 1 << 31 else hex(n)) if n != 1 else '') + show(x, d + 1) for x, n in a[1])
        return '(%s%s)' % (s, ' + %s' % show(I(a[0])) if a[0] else '')
    if op in ('sym', 'ver'):
        return '%s' % (a[0],)
    if op == 'phi':
        return 'phi#%d{%s}' % (t.id, a[1] if isinstance(a[1], str) else show(a[1], d + 1))
    if op == 'pj':
        return show(a[0], d + 1) + _sp(a[1], d)
    if op == 'adt':
        return '%s#%s{%s}' % (a[0], a[1], ', '.join(show(x, d + 1) for x in a[2]))
    if op == 'ge0':
        return '%s>=0' % show(a[0], d + 1)
    if op == 'eq0':
        return '%s==0' % show(a[0], d + 1)
    if op == 'ne0':
        return '%s!=0' % show(a[0], d + 1)
    if op == 'ref':
        return '&' + _sr(a[0], d) + ''.join(_sp(p, d) for p in a[1])
    if op == 'mem0':
        return _sr(a[0], d)
    if op == 'with':
        return show(a[0], d + 1) + '{' + ', '.join(_sp(p, d) + ':=' + show(v, d + 1) for p, v in a[1]) + '}'
    return op + '(' + ', '.join(show(x, d + 1) for x in a) + ')'


def _sr(r, d):
    if r[0] == 'L':
        return '_%s@%s' % (r[2], r[1])
    if r[0] == 'O':
        return '*' + show(r[1], d + 1)
    return str(r[1])


def _sp(p, d):
    if p[0] == 'f':
        return '.%s%s' % ('' if p[1] is None else str(p[1]) + '.', p[2])
    if p[0] == 'i':
        return '[%s]' % show(p[1], d + 1)
    if p[0] == 'r':
        return '[%s..%s]' % (show(p[1], d + 1), show(p[2], d + 1))
    return '.' + ':'.join(show(x, d + 1) if type(x) is T else str(x) for x in p)
