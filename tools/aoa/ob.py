"""Contracts of the slab, queue and fixed-point operations, used when analysing the code above them.
The slab and queue operations themselves are checked against these contracts by the P21..P28 rules."""
from .terms import *
from .engine import *
from . import models as M


class Unsupported(Exception):
    pass


def G(st, name, default=ZERO):
    return st.mem.get(('G', name), default)


def setG(st, name, v):
    st.mem[('G', name)] = v


class Slabs:
    """abstract slab operations; the tree is a version term, leaves keep their arrays"""

    def __init__(self, E, P):
        self.E, self.P = E, P
        self.F = {}
        a = P.adt('Slab')
        if a is None:
            raise Unsupported('no Slab type')
        self.fi = {f[0]: i for i, f in enumerate(a.variants[0][2])}
        h = P.adt('SlabHeader')
        self.hi = {f[0]: i for i, f in enumerate(h.variants[0][2])}
        l = P.adt('LeafNode')
        self.li = {f[0]: i for i, f in enumerate(l.variants[0][2])}
        self.lkey_arr = l.variants[0][2][self.li['key']][1].startswith('[')
        self.on_remove = self.on_insert = self.on_best = None

    # ---- places
    def fref(self, st, slab, name):
        r, p = self.E.target(slab)
        return self.E.read(st, r, tuple(p) + (('f', None, self.fi[name]),))

    def header(self, st, slab, name):
        r, p = self.E.target(self.fref(st, slab, 'header'))
        v = self.E.read(st, r, tuple(p) + (('f', None, self.hi[name]),))
        note_type(v, 'u64')
        return v

    def leaf(self, st, slab, h):
        r, p = self.E.target(self.fref(st, slab, 'leaf_nodes'))
        return self.E.read(st, r, tuple(p) + (('i', h),))

    def leafplace(self, st, slab, h, field):
        r, p = self.E.target(self.fref(st, slab, 'leaf_nodes'))
        return r, tuple(p) + (('i', h), ('f', None, self.li[field]))

    def qty(self, st, slab, h):
        v = proj(self.leaf(st, slab, h), ('f', None, self.li['base_quantity']))
        note_type(v, 'u64')
        return v

    def keyof(self, leaf):
        k = proj(leaf, ('f', None, self.li['key']))
        return self.u128(k)

    def u128(self, k):
        if not self.lkey_arr:
            note_type(k, 'u128')
            return k
        a, b = proj(k, ('i', ZERO)), proj(k, ('i', ONE))
        note_type(a, 'u64')
        note_type(b, 'u64')
        return add(a, shl(b, I(64)))

    def price(self, leaf):
        return shr(self.keyof(leaf), I(64))

    def cbref(self, st, slab, h):
        r, p = self.E.target(self.fref(st, slab, 'callback_infos'))
        return ref(r, tuple(p) + (('i', h),))

    def ver(self, st, slab):
        k = ('G', 'tree', slab)
        v = st.mem.get(('G', 'tree%d' % slab.id))
        return v if v is not None else mk('tree', slab)

    def newver(self, fr, st, slab):
        v = mk('sym', 'tree', fr.cs, fr.at, slab.id)
        self.E.stale(st, v)
        st.mem[('G', 'tree%d' % slab.id)] = v
        return v

    def canon(self, slab):
        """reference terms to the same slab are the same term"""
        return slab

    def best(self, st, slab, kind):
        h = mk('app', kind + 'leaf', slab, self.ver(st, slab))
        note_type(h, 'u32')
        return h

    # ---- anchors
    def h_find(self, kind):
        def h(E, fr, st, vals, tys, dty, span):
            slab = vals[0]
            n = self.header(st, slab, 'leaf_count')
            out = []
            s = st.assume(eq(n, ZERO))
            if s is not None:
                out.append((NONE, s))
            s = st.assume(neg(eq(n, ZERO)))
            if s is not None:
                hd = self.best(s, slab, kind)
                if self.on_best:
                    self.on_best(E, fr, s, slab, kind, hd, span)
                out.append((SOME(hd), s))
            return out
        return h

    def locate(self, st, slab, key):
        for kind in ('min', 'max'):
            h = self.best(st, slab, kind)
            if st.holds(eq(key, self.keyof(self.leaf(st, slab, h)))) and not st.holds(eq(self.header(st, slab, 'leaf_count'), ZERO)):
                return h, True
        h = mk('app', 'leafof', slab, self.ver(st, slab), key)
        note_type(h, 'u32')
        return h, False

    def h_remove(self, E, fr, st, vals, tys, dty, span):
        slab, key = vals
        out = []
        h, sure = self.locate(st, slab, key)
        lf = self.leaf(st, slab, h)
        present = ge0(addc(b2i(mk('bapp', 'present', slab, self.ver(st, slab), key)), -1)) if False else None
        pt = mk('app', 'present', slab, self.ver(st, slab), key)
        RNG.setdefault(pt, (0, 1))
        if not sure:
            s = st.assume(eq(pt, ZERO))
            if s is not None:
                s = s.copy() if s is st else s
                out.append((NONE, s))
        s = st.assume(eq(pt, ONE))
        if s is None:
            return out
        s = s.copy() if s is st else s
        if not sure:
            s2 = s.assume(eq(self.keyof(lf), key))
            if s2 is not None:
                s = s2.copy() if s2 is s else s2
        if self.on_remove:
            self.on_remove(E, fr, s, slab, key, h, sure, lf, span)
        n = self.header(s, slab, 'leaf_count')
        r, p = self.E.target(self.fref(s, slab, 'header'))
        hv = mk('sym', 'header', fr.cs, fr.at, slab.id)
        self.E.stale(s, hv)
        n = self.header(s, slab, 'leaf_count')
        s.mem[r] = setpath(self.E.rd_root(s, r), p, hv) if p else hv
        s.mem[r] = setpath(s.mem[r], tuple(p) + (('f', None, self.hi['leaf_count']),), addc(n, -1))
        # the freed slot's quantity becomes the free list link
        r2, p2 = self.leafplace(s, slab, h, 'base_quantity')
        lk = mk('sym', 'freelink', fr.cs, fr.at, slab.id)
        self.E.stale(s, lk)
        note_type(lk, 'u64')
        s.mem[r2] = setpath(self.E.rd_root(s, r2), p2, lk)
        nv = self.newver(fr, s, slab)
        if E.RANK is not None:
            # removing an order leaves room for another
            f = mk('app', 'slabfull', slab, nv)
            RNG.setdefault(f, (0, 1))
            s = s.assume(eq(f, ZERO)) or s
        # the symbols made stale above may occur in h and lf: read them back through the place that was saved
        out.append((SOME(adt('(,)', 0, (lf, self.cbref(s, slab, h)))), s))
        return out

    def h_insert(self, E, fr, st, vals, tys, dty, span):
        slab, lr = vals
        lf = E.deref(st, lr)
        out = []
        full = mk('app', 'slabfull', slab, self.ver(st, slab))
        RNG.setdefault(full, (0, 1))
        s = st.assume(eq(full, ONE))
        if s is not None:
            s = s.copy() if s is st else s
            if E.RANK is not None:
                # a full book (of at least one slot) is not empty
                s = s.assume(le(ONE, self.header(s, slab, 'leaf_count'))) or s
            setG(s, '#full', ONE)
            out.append((ERR(adt_err(E, 'SlabOutOfSpace')), s))
        s = st.assume(eq(full, ZERO))
        if s is not None:
            s = s.copy() if s is st else s
            h = mk('app', 'newleaf', slab, self.ver(s, slab))
            note_type(h, 'u32')
            if self.on_insert:
                self.on_insert(E, fr, s, slab, lf, h, span)
            n = self.header(s, slab, 'leaf_count')
            r, p = E.target(self.fref(s, slab, 'header'))
            hv = mk('sym', 'header', fr.cs, fr.at, slab.id)
            E.stale(s, hv)
            n = self.header(s, slab, 'leaf_count')
            s.mem[r] = setpath(E.rd_root(s, r), p, hv) if p else hv
            s.mem[r] = setpath(s.mem[r], tuple(p) + (('f', None, self.hi['leaf_count']),), addc(n, 1))
            r2, p2 = E.target(self.fref(s, slab, 'leaf_nodes'))
            s.mem[r2] = setpath(E.rd_root(s, r2), tuple(p2) + (('i', h),), lf)
            self.newver(fr, s, slab)
            out.append((OK(adt('(,)', 0, (h, NONE))), s))
        return out

    def install(self, anchors):
        P = self.P
        for m, h in (('find_min', self.h_find('min')), ('find_max', self.h_find('max')), ('remove_by_key', self.h_remove), ('insert_leaf', self.h_insert)):
            b = P.find('Slab', m)
            if b is None:
                raise Unsupported('no Slab::' + m)
            anchors[id(b)] = h
        b = P.find('Slab', 'find_min_max')
        if b is not None:
            def fmm(E, fr, st, vals, tys, dty, span):
                k = vals[1]
                if k is TRUE or k is FALSE:
                    return self.h_find('max' if k is TRUE else 'min')(E, fr, st, vals[:1], tys, dty, span)
                out = []
                for kind, l in (('max', i2b(k)), ('min', neg(k))):
                    s = st.assume(l)
                    if s is not None:
                        out += self.h_find(kind)(E, fr, s, vals[:1], tys, dty, span)
                return out
            anchors[id(b)] = fmm


def adt_err(E, name):
    a = E.P.adt('AoError')
    return adt(a.path, a.vidx(name), ())


class Queue:
    def __init__(self, E, P):
        self.E, self.P = E, P
        self.on_push = None

    def h_push(self, E, fr, st, vals, tys, dty, span):
        q, ev, mk_, tk = vals
        ety = last_seg(strip_generics(tys[1] or ''))

        def opt(v):
            if v.op == 'adt':
                return None if v.a[1] == 0 else E.deref(st, v.a[2][0])
            return mk('app', 'optderef', v)
        s = st.copy()
        room = mk('app', 'queuefull', q, G(st, 'qver', ZERO))
        RNG.setdefault(room, (0, 1))
        out = []
        s = st.assume(eq(room, ZERO))
        if s is not None:
            s = s.copy() if s is st else s
            if self.on_push:
                self.on_push(E, fr, s, ety, ev, opt(mk_), opt(tk), span)
            v = mk('sym', 'qver', fr.cs, fr.at)
            E.stale(s, v)
            setG(s, 'qver', v)
            out.append((OK(UNIT), s))
        s = st.assume(eq(room, ONE))
        if s is not None:
            s = s.copy() if s is st else s
            setG(s, '#qfull', ONE)
            out.append((ERR(ev), s))
        return out

    def install(self, anchors):
        b = self.P.find('EventQueue', 'push_back')
        if b is None:
            raise Unsupported('no EventQueue::push_back')
        anchors[id(b)] = self.h_push
