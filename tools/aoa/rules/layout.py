"""P31 (and the encoded summary size of P05): the typed views of an account and the published sizes.

The views are taken of a buffer of symbolic length, with the size of the callback type symbolic too; their byte ranges come
out as polynomials, whose order and extent are compared."""
from .common import *
from ..terms import factors


class Layout(Rules):
    def __init__(self, P):
        super().__init__(P)
        self.tag = P.adt('AccountTag')

    def view(self, ty, variant, size, facts=()):
        b = self.need(ty, 'from_buffer')
        E = self.engine()
        root = ('O', mk('sym', 'buffer'))
        st = State()
        for f in facts:
            st = st.assume(f)
        arg = ref(root, (('r', ZERO, size),))
        tag = adt(self.tag.path, [v[0] for v in self.tag.variants].index(variant), ())
        out = []
        for v, s in E.exec_function(b, [arg, tag], st, E.cs_id(0, 'root', None)):
            if not (v.op == 'adt' and v.a[1] == 0):
                continue
            ob = v.a[2][0]
            if ob.op != 'adt':
                raise Unsupported('view of ' + ty)
            out.append((b, ob, s, E))
        self.bodies |= {x.name for x in E.analysed}
        return out

    def region(self, ob, ty, name):
        """byte range of a field of a view, and the type it is seen as"""
        i = [f[0] for f in self.P.adt(ty).variants[0][2]].index(name)
        x = ob.a[2][i]
        if x.op != 'ref' or x.a[0] != ('O', mk('sym', 'buffer')):
            return None
        p = x.a[1]
        if len(p) == 2 and p[0][0] == 'r' and p[1][0] == 'as':
            return p[0][1], p[0][2], p[1][1]
        return None

    def divs(self, st, terms):
        """0 <= q*d <= n for every quotient q = n/d that occurs"""
        seen = set()
        for t in terms:
            for x in atoms(t):
                if x.op == 'div' and x not in seen:
                    seen.add(x)
                    n, d = x.a
                    c, ps = parts(d)
                    prod = lincomb((c, x), *((k, mk('mul', *sorted(factors(x) + factors(y), key=lambda t: t.id))) for y, k in ps))
                    r = rem(n, d)
                    for l in (le(prod, n), lt(n, add(prod, d)), le(add(prod, r), n), le(n, add(prod, r))):
                        s = st.assume(l)
                        st = s if s is not None else st
        return st

    SPEC = {
        'Slab': ('Bids', 'SlabHeader', (('leaf_nodes', 'LeafNode'), ('inner_nodes', 'InnerNode'), ('callback_infos', 'C')), 'leaf_nodes', 1),
        'EventQueue': ('EventQueue', 'EventQueueHeader', (('events', 'FillEvent'), ('callback_infos', 'C')), 'events', 2),
    }

    def run(self):
        for ty in self.SPEC:
            self.disjoint(ty)
            self.alloc(ty)
        self.market()
        return self

    def size(self, E, t):
        return E.sizeof(t)

    def disjoint(self, ty):
        variant, hdr, arrays, slots, per = self.SPEC[ty]
        E = self.engine()
        C = E.sizeof('C')
        x = mk('sym', 'extra')
        note_type(x, 'u32')
        least = add(I(8), E.sizeof(hdr))
        if ty == 'Slab':
            least = add(least, add(E.sizeof('LeafNode'), C))
        size = add(least, x)
        vs = self.view(ty, variant, size)
        b = self.need(ty, 'from_buffer')
        self.chk('P31', bool(vs), 'no view of a large enough account', b)
        for b, ob, s, E in vs:
            regs = [('header', hdr)] + list(arrays)
            R = [self.region(ob, ty, n) for n, t in regs]
            if None in R:
                self.chk('P31', False, 'a region of the %s view is not a range of the account' % ty, b)
                continue
            s = self.divs(s, [y for r in R for y in r[:2]])
            prev = I(8)
            for (n, t), (lo, hi, asty) in zip(regs, R):
                self.chk('P31', le(prev, lo), 'the %s of the %s view overlaps what comes before it' % (n, ty), b, st=s)
                self.chk('P31', le(lo, hi), 'the %s of the %s view has a negative extent' % (n, ty), b, st=s)
                self.chk('P31', last_seg(asty.strip('[]')) == t, 'the %s of the %s view are seen as %s' % (n, ty, asty), b)
                prev = hi
            self.chk('P31', le(prev, size), 'the %s view reaches past the account' % ty, b, st=s)
            self.chk('P31', eq(sub(R[0][1], R[0][0]), E.sizeof(hdr)), 'the header region of %s has another size than the header' % ty, b, st=s)
            names = [n for n, t in regs]
            sl, cb = R[names.index(slots)], R[names.index('callback_infos')]
            n = div(sub(sl[1], sl[0]), E.sizeof(dict(regs)[slots]))
            need = mul(mul(I(per), n), C)
            self.chk('P31', le(need, sub(cb[1], cb[0])), 'not every slot of the %s view has its callback cell%s' % (ty, 's' if per > 1 else ''), b, st=s)
            if ty == 'Slab':
                i = R[names.index('inner_nodes')]
                m = div(sub(i[1], i[0]), E.sizeof('InnerNode'))
                self.chk('P31', le(n, addc(m, 1)), 'a book view holds too few inner nodes for its leaves', b, st=s)

    def alloc(self, ty):
        variant, hdr, arrays, slots, per = self.SPEC[ty]
        a = self.P.find(ty, 'compute_allocation_size')
        if a is None:
            raise Unsupported('no compute_allocation_size of ' + ty)
        E = self.engine()
        C = E.sizeof('C')
        m = mk('sym', 'capacity less one')
        note_type(m, 'u32')
        n = addc(m, 1)
        got = False
        for sz, st in E.exec_function(a, [n], State(), E.cs_id(0, 'root', None)):
            got = True
            for b, ob, s, E2 in self.view(ty, variant, sz, st.facts):
                R = {k: self.region(ob, ty, k) for k, t in arrays}
                if None in R.values():
                    self.chk('P31', False, 'a region of the %s view is not a range of the account' % ty, b)
                    continue
                s = self.divs(s, [y for r in R.values() for y in r[:2]])
                ext = lambda k: sub(R[k][1], R[k][0])
                self.chk('P31', eq(ext(slots), mul(n, E.sizeof(dict(arrays)[slots]))), 'the allocation size of %s for a capacity does not yield that capacity' % ty, a, st=s)
                self.chk('P31', eq(ext('callback_infos'), mul(mul(I(per), n), C)), 'the allocation size of %s leaves bytes over or short' % ty, a, st=s)
                self.chk('P31', eq(R['callback_infos'][1], sz), 'the view of %s does not extend to the end of the account' % ty, a, st=s)
        self.chk('P31', got, 'no allocation size is computed', a)
        self.bodies |= {x.name for x in E.analysed}

    def market(self):
        b = self.need('MarketState', 'from_buffer')
        E = self.engine()
        root = ('O', mk('sym', 'buffer'))
        n = add(I(8), E.sizeof('MarketState'))
        tag = adt(self.tag.path, [v[0] for v in self.tag.variants].index('Market'), ())
        for v, s in E.exec_function(b, [ref(root, (('r', ZERO, n),)), tag], State(), E.cs_id(0, 'root', None)):
            if v.op == 'adt' and v.a[1] == 0:
                x = v.a[2][0]
                ok = x.op == 'ref' and x.a[0] == root and x.a[1][0][0] == 'r' and s.holds(eq(x.a[1][0][1], I(8))) and s.holds(eq(x.a[1][0][2], n)) and len(x.a[1]) == 2 and last_seg(x.a[1][1][1]) == 'MarketState'
                self.chk('P31', ok, 'the market record is not what follows the tag', b)
        self.bodies |= {x.name for x in E.analysed}


def atoms(t):
    for x, k in parts(t)[1]:
        for y in (x.a if x.op == 'mul' else (x,)):
            if type(y) is T:
                yield y


def run(P):
    return Layout(P).run()
