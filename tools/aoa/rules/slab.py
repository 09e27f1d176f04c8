"""P24-P28, P33, P34 on the critbit slab.

The walk rules follow the tree with ghosts: a value read as children[side] of the current inner node moves the cursor there.  The
cursor, its parent and grandparent and the sides taken are ghosts that the fixpoint keeps equal to whatever the code stores them
in, so that the final link written by insert and remove can be compared with the place the cursor was reached from."""
from .common import *
from ..engine import State
from .queue import driver, samebool

MAXH = (1 << 32) - 1
TOP = 1 << 31


class SlabRules(Rules):
    def __init__(self, P):
        super().__init__(P)
        g = lambda n: P.adt(n)
        self.sa, self.ha, self.la, self.na = g('Slab'), g('SlabHeader'), g('LeafNode'), g('InnerNode')
        if None in (self.sa, self.ha, self.la, self.na):
            raise Unsupported('slab types')
        ix = lambda a: {f[0]: i for i, f in enumerate(a.variants[0][2])}
        self.si, self.hi, self.li, self.ni = ix(self.sa), ix(self.ha), ix(self.la), ix(self.na)
        self.kinds = []

    # ---------------------------------------------------------------- symbolic slab
    def setup(self, E, split=False):
        slab = mk('sym', 'slab')
        st = State()
        S = Slabs(E, self.P)
        self.S = S
        r, p = E.target(slab)
        f = lambda n: E.read(st, r, tuple(p) + (('f', None, self.si[n]),))
        self.slab = slab
        self.hdr, self.leaves, self.inner, self.cb = [E.target(f(n)) for n in ('header', 'leaf_nodes', 'inner_nodes', 'callback_infos')]
        self.v = {n: self.h(E, st, n) for n in self.hi}
        self.nl, self.ni_ = E.lenof(st, self.ref(self.leaves)), E.lenof(st, self.ref(self.inner))
        v = self.v
        cnt, rt = v['leaf_count'], v['root_node']
        fl, fi = v['leaf_free_list_len'], v['inner_node_free_list_len']
        base = [eq(self.nl, addc(self.ni_, 1)), le(self.nl, I(TOP - 1)), eq(E.lenof(st, self.ref(self.cb)), self.nl),
                eq(add(cnt, fl), v['leaf_bump_index']), le(v['leaf_bump_index'], self.nl), le(v['inner_node_bump_index'], self.ni_)]
        # exactly the one-leaf tree has a leaf at the root
        kinds = [[eq(cnt, ZERO), eq(fi, v['inner_node_bump_index'])],
                 [eq(cnt, ONE), eq(fi, v['inner_node_bump_index']), self.isleaf(rt)],
                 [le(I(2), cnt), eq(add(addc(cnt, -1), fi), v['inner_node_bump_index']), neg(self.isleaf(rt))]]
        frees = [[[eq(fl, ZERO)], [le(ONE, fl), lt(v['leaf_free_list_head'], v['leaf_bump_index'])]],
                 [[eq(fi, ZERO)], [le(ONE, fi), lt(v['inner_node_free_list_head'], v['inner_node_bump_index'])]]]
        if not split:
            kinds, frees = [[]], [[[]], [[]]]
        out = []
        for k in kinds:
            for f1 in frees[0]:
                for f2 in frees[1]:
                    t = State()
                    for l in base + k + f1 + f2:
                        t = t and t.assume(l)
                    if t is None:
                        continue
                    t = t.copy()
                    setG(t, 'cur', rt)
                    setG(t, '#depth', ZERO)
                    self.empty = kinds[0] is k
                    out.append(self.live(E, t, rt) if split and k is not kinds[0] else t)
        return slab, out

    def ref(self, place):
        return E_ref(place)

    def h(self, E, st, name):
        x = E.read(st, *self.hplace(name))
        note_type(x, 'u32')
        return x

    def hplace(self, name):
        return self.hdr[0], tuple(self.hdr[1]) + (('f', None, self.hi[name]),)

    def leafplace(self, h, field=None):
        p = tuple(self.leaves[1]) + (('i', h),)
        return self.leaves[0], p + ((('f', None, self.li[field]),) if field else ())

    def innerplace(self, h, field=None, side=None):
        p = tuple(self.inner[1]) + (('i', sub(I(MAXH), h)),)
        if field:
            p += (('f', None, self.ni[field]),)
        if side is not None:
            p += (('i', b2i(side) if type(side) is T else I(side)),)
        return self.inner[0], p

    def mem0(self, place):
        return getpath(mk('mem0', place[0]), place[1])

    def leafkey(self, h):
        return self.S.keyof(self.mem0(self.leafplace(h)))

    def innerkey(self, h):
        k = self.mem0(self.innerplace(h, 'key'))
        note_type(k, 'u128')
        return k

    def plen(self, h):
        v = self.mem0(self.innerplace(h, 'prefix_len'))
        RNG.setdefault(v, (0, (1 << 64) - 1))
        return v

    def bit(self, key, n):
        return neg(eq(band(key, shr(I(1 << 127), n)), ZERO))

    def isleaf(self, h):
        return lt(h, I(TOP))

    def live(self, E, st, h, inner=None):
        """representation invariant of a handle in the tree, as far as its kind is decided: in range, not on the free list"""
        v = self.v
        note_type(h, 'u32')
        if inner is None:
            inner = False if st.holds(self.isleaf(h)) else True if st.holds(neg(self.isleaf(h))) else None
        if inner is None:
            return st
        ih = sub(I(MAXH), h)
        if inner:
            # an inner node branches at one of the 128 bits
            ls = [neg(self.isleaf(h)), lt(ih, v['inner_node_bump_index']), le(self.plen(h), I(127))]
            if not st.holds(eq(v['inner_node_free_list_len'], ZERO)):
                ls.append(neg(eq(ih, v['inner_node_free_list_head'])))
        else:
            ls = [lt(h, v['leaf_bump_index'])]
            if not st.holds(eq(v['leaf_free_list_len'], ZERO)):
                ls.append(neg(eq(h, v['leaf_free_list_head'])))
        for l in ls:
            st = st.assume(l) or st
        return st

    def invariants(self, E, st):
        if st.holds(eq(self.v['leaf_count'], ZERO)):
            return st
        cur = G(st, 'cur')
        k = ONE if st.holds(self.isleaf(cur)) else I(2) if st.holds(neg(self.isleaf(cur))) else ZERO
        if k is not G(st, '#kind'):
            st = st.copy()
            setG(st, '#kind', k)
        st = self.live(E, st, cur)
        d = G(st, '#depth')
        if d is not ZERO:
            st = self.live(E, st, G(st, 'par'), True)
            if d is not ONE:
                st = self.live(E, st, G(st, 'gpar'), True)
                # prefixes grow strictly on the way down: no node is its own parent
                st = st.assume(neg(eq(G(st, 'par'), G(st, 'gpar')))) or st
            if k is I(2):
                st = st.assume(neg(eq(cur, G(st, 'par')))) or st
        return st

    def execute(self, E, b, args, sts):
        outs = []
        for i, st in enumerate(sts):
            outs += E.exec_function(b, args, st, E.cs_id(0, 'case', i))
        return outs

    # ---------------------------------------------------------------- following the walk
    def childof(self, v):
        """(index of the inner node, side) if v is the initial value of a child link"""
        if v.op == 'ite':
            x, y = self.childof(v.a[1]), self.childof(v.a[2])
            if x and y and x[0] is y[0]:
                return x[0], ite(v.a[0], b2i(x[1]), b2i(y[1]))
            return None
        if v.op != 'pj' or v.a[1][0] != 'i':
            return None
        side, a = v.a[1][1], v.a[0]
        if a.op != 'pj' or a.a[1] != ('f', None, self.ni['children']):
            return None
        a = a.a[0]
        if a.op != 'pj' or a.a[1][0] != 'i':
            return None
        base = getpath(mk('mem0', self.inner[0]), self.inner[1])
        if a.a[0] is not base:
            return None
        return a.a[1][1], side

    def values(self, st, fr):
        for k, v in st.mem.items():
            if k[0] == 'L':
                yield v
                if v.op == 'adt':
                    for x in v.a[2]:
                        yield x
                        if x.op == 'adt':
                            yield from x.a[2]

    def walker(self, onstep=None, onedge=None):
        def on_edge(E, fr, bb, tgt, st):
            for _ in range(3):
                cur = G(st, 'cur')
                hit = None
                for v in self.values(st, fr):
                    c = self.childof(v)
                    if c is not None and (c[0] is sub(I(MAXH), cur) or st.holds(eq(c[0], sub(I(MAXH), cur)))):
                        if hit is not None and hit[0] is not v:
                            hit = False       # both children are at hand: the choice is still to come
                            break
                        hit = (v, c)
                if not hit:
                    break
                v, (idx, side) = hit
                st = st.copy()
                s = i2b(side)
                if onstep:
                    onstep(E, fr, st, cur, s, v)
                d = G(st, '#depth')
                if d is not ZERO:
                    setG(st, 'gpar', G(st, 'par'))
                    setG(st, 'gside', G(st, 'side'))
                setG(st, '#depth', ONE if d is ZERO else I(2))
                setG(st, 'par', cur)
                setG(st, 'side', s)
                setG(st, 'cur', v)
                if E.RANK is not None:
                    setG(st, '@moved', ONE)
            st = self.invariants(E, st)
            if onedge:
                st = onedge(E, fr, bb, tgt, st) or st
            return st
        return on_edge

    def link(self, st):
        """place of the link the cursor was reached through"""
        if G(st, '#depth') is ZERO:
            return self.hplace('root_node')
        return self.innerplace(G(st, 'par'), 'children', G(st, 'side'))

    def glink(self, st):
        if G(st, '#depth') is ONE:
            return self.hplace('root_node')
        return self.innerplace(G(st, 'gpar'), 'children', G(st, 'gside'))

    def unfound(self, E, prop, b):
        for kind, data, s, fr, span in E.final_events('chk'):
            self.chk(data[0], data[1], data[2], fr.body, span)

    # ---------------------------------------------------------------- handle kinds (P28)
    def indexing(self, E):
        """every array access is in range without relying on the bounds check, which holds only for handles of the right kind"""
        def on_assert(E, fr, st, c, t):
            if 'index out of bounds' in str(t[3]):
                E.event(fr, 'idx', st.holds(c), st, t[-1])
        E.on_assert = on_assert

        def access(E, fr, st, root, path, *a):
            if root not in (self.leaves[0], self.cb[0]):
                return
            for pl in (self.leaves, self.cb):
                k = len(pl[1])
                if root == pl[0] and len(path) > k and path[:k] == tuple(pl[1]) and path[k][0] == 'i' and self.complemented(path[k][1]):
                    E.event(E.cur[0], 'idx', False, st, E.cur[1])
        E.on_read = access
        E.on_write = lambda E, fr, st, root, path, old, new: access(E, fr, st, root, path)

    def complemented(self, i):
        """an index that may be computed as the complement of something"""
        if i.op == 'ite':
            return self.complemented(i.a[1]) or self.complemented(i.a[2])
        return i.op == 'lin' and any(n < 0 for t, n in parts(i)[1])

    def idxcheck(self, E, panics=None):
        for kind, ok, s, fr, span in E.final_events('idx'):
            self.chk('P28', ok, 'an array is indexed by a handle that may be of the other kind or out of range', fr.body, span)
        for kind, data, s, fr, span in E.final_events('panic'):
            self.chk(panics or 'P28', False, 'a slab operation may panic', fr.body, span)

    def run(self):
        self.kindfn()
        self.alloc('leaf')
        self.alloc('inner')
        self.minmax()
        self.insert()
        self.remove()
        self.find()
        self.iterate()
        self.misc()
        self.writers()
        return self

    # ---------------------------------------------------------------- handle kinds
    def kindfn(self):
        b = self.P.find('Node', 'from_handle')
        na = self.P.adt('Node')
        if b is None or na is None:
            return
        E = self.engine()
        h = mk('sym', 'handle')
        note_type(h, 'u32')
        seen = set()
        for v, s in E.exec_function(b, [h], State(), E.cs_id(0, 'root', None)):
            ok = v.op == 'adt'
            if ok:
                name = na.variants[v.a[1]][0]
                seen.add(name)
                ok = s.holds(self.isleaf(h) if name == 'Leaf' else neg(self.isleaf(h)))
            self.chk('P28', ok, 'the kind of a handle is not decided by its top bit', b)
        self.chk('P28', seen == {'Leaf', 'Inner'}, 'a kind of handle is never recognised', b)
        self.done(E)

    # ---------------------------------------------------------------- allocators (P24)
    def alloc(self, kind):
        if kind == 'leaf':
            al, fr_ = self.need('Slab', 'allocate_leaf'), self.need('Slab', 'free_leaf')
            pre, arr, n = 'leaf', 'leaves', 'nl'
            enc = lambda h: h
        else:
            al, fr_ = self.need('Slab', 'allocate_inner_node'), self.need('Slab', 'free_inner_node')
            pre, arr, n = 'inner_node', 'inner', 'ni_'
            enc = lambda h: sub(I(MAXH), h)
        L, Hd, B = pre + '_free_list_len', pre + '_free_list_head', pre + '_bump_index'
        c = lambda ok, m, b, s=None, sc='': self.chk('P24', ok, m, b, st=s, scope=sc)
        # allocate from any state
        E = self.engine()
        slab, sts = self.setup(E, True)
        self.indexing(E)
        nerr = nok = 0
        for v, s in self.execute(E, al, [slab], sts):
            if v.op != 'adt':
                c(False, 'the result of allocating is not determined', al)
                continue
            if v.a[1] == 1:
                nerr += 1
                c(conj(eq(self.v[L], ZERO), le(getattr(self, n), self.v[B])), 'allocation may fail although a free slot exists', al, s)
                c(not unexpected(s, ()), 'a failed allocation changes the slab', al)
                continue
            nok += 1
            h = v.a[2][0]
            for case in (eq(self.v[L], ZERO), neg(eq(self.v[L], ZERO))):
                t = s.assume(case)
                if t is None:
                    continue
                if case is eq(self.v[L], ZERO):
                    c(eq(enc(h), self.v[B]), 'with an empty free list the allocated slot is not the next unused one', al, t)
                    c(lt(enc(h), getattr(self, n)), 'an allocated slot may lie beyond the array', al, t)
                    c(eq(self.h(E, t, B), addc(self.v[B], 1)), 'the high-water mark does not grow by one', al, t)
                    c(eq(self.h(E, t, L), ZERO), 'the free list length changes although it was empty', al, t)
                else:
                    c(eq(enc(h), self.v[Hd]), 'the allocated slot is not the head of the free list', al, t)
                    c(eq(self.h(E, t, L), addc(self.v[L], -1)), 'the free list does not shrink by one', al, t)
                    c(eq(self.h(E, t, B), self.v[B]), 'the high-water mark moves although a free slot was reused', al, t)
            c('P28' and (self.isleaf(h) if kind == 'leaf' else neg(self.isleaf(h))), 'an allocated handle is of the wrong kind', al, s)
            self.chk('P28', self.isleaf(h) if kind == 'leaf' else neg(self.isleaf(h)), 'an allocated handle is of the wrong kind', al, st=s)
            ch = unexpected(s, [self.hplace(x) for x in (L, Hd, B)])
            c(not ch, 'allocating changes something else: ' + '; '.join(describe(r, p) for r, p, _ in ch), al)
        self.idxcheck(E)
        c(nerr > 0 and nok > 0, 'allocation never fails or never succeeds', al)
        self.done(E)
        # free, then what was freed is allocated again, last in first out
        for k in (1, 2):
            E = self.engine()
            slab, sts = self.setup(E)
            st = sts[0]
            hs = []
            for i in range(k):
                h = mk('sym', 'freed handle %d' % i)
                note_type(h, 'u32')
                hs.append(h)
                st = st.assume(self.isleaf(h) if kind == 'leaf' else neg(self.isleaf(h)))
                st = st.assume(lt(enc(h), self.v[B]))
            if k == 2:
                st = st.assume(neg(eq(hs[0], hs[1])))
            sts = [st]
            for i, h in enumerate(hs):
                nx = []
                for s0 in sts:
                    for _, s in E.exec_function(fr_, [slab, h], s0, E.cs_id(0, 'free', i)):
                        nx.append(s)
                        if i == 0:
                            c(eq(self.h(E, s, L), addc(self.v[L], 1)), 'freeing does not lengthen the free list by one', fr_, s)
                            c(eq(self.h(E, s, B), self.v[B]), 'freeing moves the high-water mark', fr_, s)
                            own = self.leafplace(h) if kind == 'leaf' else self.innerplace(h)
                            ch = unexpected(s, [self.hplace(L), self.hplace(Hd), own])
                            c(not ch, 'freeing changes something else: ' + '; '.join(describe(r, p) for r, p, _ in ch), fr_)
                sts = nx
            c(bool(sts), 'freeing never returns', fr_)
            for j, h in enumerate(reversed(hs)):
                nx = []
                for s0 in sts:
                    for v, s in E.exec_function(al, [slab], s0, E.cs_id(0, 'again', j)):
                        ok = v.op == 'adt' and v.a[1] == 0
                        c(ok, 'a freed slot cannot be allocated again', al)
                        if not ok:
                            continue
                        x = v.a[2][0]
                        c(eq(self.res(s, x), h), 'a freed slot is not the next to be reused, or the list behind it is lost', al, s)
                        nx.append(s)
                sts = nx
            for s in sts:
                c(eq(self.h(E, s, L), self.v[L]), 'the free list does not return to its length', al, s)
                c(eq(self.h(E, s, B), self.v[B]), 'the high-water mark moves although freed slots were reused', al, s)
                t = s.assume(neg(eq(self.v[L], ZERO)))
                if t is not None:
                    c(eq(self.res(t, self.h(E, t, Hd)), self.v[Hd]), 'the rest of the free list is lost', al, t)
            self.done(E)

    def res(self, s, t, d=0):
        """resolve reads of written array elements with the facts of the state"""
        if d > 12 or t.op not in ('pj', 'trunc', 'lin', 'ite', 'with', 'b2i', 'adt', 'as'):
            return t
        if t.op == 'pj':
            a = self.res(s, t.a[0], d + 1)
            p = t.a[1]
            if p[0] == 'i' and not is_int(p[1]) and rng(p[1])[1] <= 1:
                for k in (ZERO, ONE):
                    if s.holds(eq(p[1], k)):
                        p = ('i', k)
                        return self.res(s, proj(a, p), d + 1)
            if p[0] == 'i' and a.op == 'store':
                if s.holds(eq(a.a[1], p[1])):
                    return self.res(s, a.a[2], d + 1)
                if s.holds(neg(eq(a.a[1], p[1]))):
                    return self.res(s, proj(a.a[0], p), d + 1)
            r = proj(a, p)
            return r if r is t else self.res(s, r, d + 1) if r.op != 'pj' or r.a[0] is not a else r
        if t.op == 'trunc':
            return trunc(t.a[0], self.res(s, t.a[1], d + 1))
        if t.op == 'ite':
            if s.holds(t.a[0]):
                return self.res(s, t.a[1], d + 1)
            if s.holds(neg(t.a[0])):
                return self.res(s, t.a[2], d + 1)
        if t.op == 'with':
            return t
        if t.op == 'lin':
            c0, p = parts(t)
            r = I(c0)
            for x, k in p:
                r = lincomb((1, r), (k, self.res(s, x, d + 1)))
            return r
        return t

    def rd(self, E, s, place):
        return self.res(s, E.read(s, *place))

    # ---------------------------------------------------------------- find_min / find_max (P27)
    def minmax(self):
        for m, side in (('find_min', FALSE), ('find_max', TRUE)):
            b = self.need('Slab', m)
            E = self.engine()
            slab, sts = self.setup(E, True)

            def onstep(E, fr, st, cur, s, v, side=side, m=m):
                E.event(fr, 'chk', ('P27', s is side or st.holds(eq(b2i(s), b2i(side))), '%s does not descend to the %s child' % (m, 'right' if side is TRUE else 'left')), st)
                E.event(fr, 'chk', ('P28', st.holds(neg(self.isleaf(cur))), 'a child is read of a node that may be a leaf'), st)
            E.on_edge = self.walker(onstep)
            self.indexing(E)
            outs = self.execute(E, b, [slab], sts)
            steps = [e for e in E.final_events('chk')]
            for kind, data, s, fr, span in steps:
                self.chk(data[0], data[1], data[2], fr.body, span)
            some = 0
            for v, s in outs:
                c = lambda ok, msg: self.chk('P27', ok, msg, b, st=s)
                self.chk('P34', not unexpected(s, ()), 'a look-up changes the slab', b)
                if v.op != 'adt':
                    c(False, 'the result of %s is not determined' % m)
                elif v.a[1] == 0:
                    c(eq(self.v['leaf_count'], ZERO), '%s returns nothing although the tree is not empty' % m)
                else:
                    some += 1
                    h = v.a[2][0]
                    c(neg(eq(self.v['leaf_count'], ZERO)), '%s may return a handle of an empty tree' % m)
                    c(eq(h, G(s, 'cur')), '%s returns another node than the one reached' % m)
                    c(self.isleaf(h), '%s may return an inner node' % m)
            self.idxcheck(E)
            self.chk('P27', some > 0 and bool(steps), '%s never descends or never returns a leaf' % m, b)
            self.done(E)
        b = self.P.find('Slab', 'root')
        if b is not None:
            E = self.engine()
            slab, sts = self.setup(E, True)
            for v, s in self.execute(E, b, [slab], sts):
                ok = v.op == 'adt' and (s.holds(eq(self.v['leaf_count'], ZERO)) if v.a[1] == 0 else s.holds(conj(neg(eq(self.v['leaf_count'], ZERO)), eq(v.a[2][0], self.v['root_node']))))
                self.chk('P27', ok, 'the root of the tree is not reported', b)
            self.done(E)

    # ---------------------------------------------------------------- search by key
    def stepcheck(self, key, prop, what):
        def onstep(E, fr, st, cur, s, v):
            E.event(fr, 'chk', (prop, samebool(st, s, self.bit(key, self.plen(cur))), '%s does not descend by the branching bit of the key' % what), st)
            E.event(fr, 'chk', ('P28', st.holds(neg(self.isleaf(cur))), 'a child is read of a node that may be a leaf'), st)
        return onstep

    def find(self):
        b = self.P.find('Slab', 'find_by_key')
        if b is None:
            return
        E = self.engine()
        slab, sts = self.setup(E, True)
        key = mk('sym', 'search key')
        note_type(key, 'u128')
        E.on_edge = self.walker(self.stepcheck(key, 'P27', 'searching'))
        self.indexing(E)
        outs = self.execute(E, b, [slab, key], sts)
        steps = list(E.final_events('chk'))
        for kind, data, s, fr, span in steps:
            self.chk(data[0], data[1], data[2], fr.body, span)
        for v, s in outs:
            c = lambda ok, msg: self.chk('P27', ok, msg, b, st=s)
            self.chk('P34', not unexpected(s, ()), 'a look-up changes the slab', b)
            cur = G(s, 'cur')
            if v.op != 'adt':
                c(False, 'the result of searching is not determined')
            elif v.a[1] == 0:
                c(self.absent(s, cur, key), 'searching may miss a key that is present')
            else:
                c(eq(v.a[2][0], cur), 'searching returns another node than the one reached')
                c(conj(neg(eq(self.v['leaf_count'], ZERO)), self.isleaf(cur), eq(self.leafkey(cur), key)), 'searching may return an order with another key')
        self.idxcheck(E)
        self.chk('P27', len(outs) > 1 and bool(steps), 'searching never descends or never answers', b)
        self.done(E)

    def absent(self, s, cur, key):
        if s.holds(eq(self.v['leaf_count'], ZERO)):
            return TRUE
        if s.holds(self.isleaf(cur)):
            return TRUE if s.holds(neg(eq(self.leafkey(cur), key))) else FALSE
        # all keys below an inner node share its prefix
        return TRUE if s.holds(neg(self.isleaf(cur))) and s.holds(lt(self.clz(self.innerkey(cur), key), self.plen(cur))) else FALSE

    def counts(self, E, s, prop, b, what):
        """the counting part of the representation invariant after an operation"""
        h = lambda n: self.h(E, s, n)
        c = lambda ok, m: self.chk(prop, ok, m + ' ' + what, b, st=s)
        c(eq(add(h('leaf_count'), h('leaf_free_list_len')), h('leaf_bump_index')), 'the leaves in use, freed and ever used do not add up after')
        for case, want in ((eq(h('leaf_count'), ZERO), ZERO), (neg(eq(h('leaf_count'), ZERO)), addc(h('leaf_count'), -1))):
            t = s.assume(case)
            if t is not None:
                self.chk(prop, eq(add(want, h('inner_node_free_list_len')), h('inner_node_bump_index')), 'the inner nodes in use, freed and ever used do not add up after ' + what, b, st=t)

    # ---------------------------------------------------------------- insert (P25)
    def insert(self):
        b = self.need('Slab', 'insert_leaf')
        E = self.engine()
        slab, sts = self.setup(E, True)
        lf = mk('sym', 'new leaf')
        nr = E.target(lf)
        newleaf = E.read(State(), *nr)
        key = self.S.keyof(newleaf)

        step0 = self.stepcheck(key, 'P25', 'insertion')

        def onstep(E, fr, st, cur, s, v):
            step0(E, fr, st, cur, s, v)
            E.event(fr, 'chk', ('P25', st.holds(le(self.plen(cur), self.clz(self.innerkey(cur), key))), 'insertion descends below a node whose prefix differs from the key'), st)
        E.on_edge = self.walker(onstep)
        self.indexing(E)
        outs = self.execute(E, b, [slab, lf], sts)
        steps = list(E.final_events('chk'))
        for kind, data, s, fr, span in steps:
            self.chk(data[0], data[1], data[2], fr.body, span)
        self.idxcheck(E, 'P25')
        kinds = {}
        for v, s in outs:
            for case in (eq(self.v['leaf_count'], ZERO), neg(eq(self.v['leaf_count'], ZERO))):
                t = s.assume(case)
                if t is not None:
                    k = self.insert_out(E, b, v, t, newleaf, key)
                    kinds[k] = kinds.get(k, 0) + 1
        for k in ('first', 'clobber', 'split', 'full'):
            self.chk('P25', kinds.get(k, 0) > 0, 'insertion has no outcome of kind ' + k, b)
        self.chk('P25', bool(steps), 'insertion never descends', b)
        self.done(E)

    def clz(self, a, b):
        r = mk('app', 'leading_zeros', I(128), bxor(a, b))
        RNG.setdefault(r, (0, 128))
        return r

    def insert_out(self, E, b, v, s, newleaf, key):
        c = lambda ok, m: self.chk('P25', ok, m, b, st=s)
        V = self.v
        if v.op != 'adt':
            c(False, 'the outcome of insertion is not determined')
            return '?'
        if v.a[1] == 1:
            full = conj(eq(V['leaf_free_list_len'], ZERO), le(self.nl, V['leaf_bump_index']))
            c(full, 'insertion may fail although there is room')
            e = v.a[2][0]
            c(e is adt_err(E, 'SlabOutOfSpace') or s.holds(eq(E.discr(e, 'AoError'), E.discr(adt_err(E, 'SlabOutOfSpace'), 'AoError'))), 'a full slab is not reported as SlabOutOfSpace')
            ch = unexpected(s, ())
            c(not ch, 'a failed insertion changes the slab: ' + '; '.join(describe(r, p) for r, p, _ in ch))
            return 'full'
        tup = v.a[2][0]
        h, old = (tup.a[2] if tup.op == 'adt' else (UNDEF, UNDEF))
        if old.op != 'adt':
            c(False, 'whether insertion displaced a leaf is not determined')
            return '?'
        self.chk('P28', self.isleaf(h), 'insertion returns a handle that is not a leaf', b, st=s)
        cur = G(s, 'cur')
        lp = self.leafplace(h)
        val = self.rd(E, s, lp)
        c(val is newleaf or s.holds(eq(val, newleaf)), 'the new leaf is not stored under the returned handle')
        alloc = [self.hplace(n) for n in ('leaf_bump_index', 'leaf_free_list_len', 'leaf_free_list_head')]
        innera = [self.hplace(n) for n in ('inner_node_bump_index', 'inner_node_free_list_len', 'inner_node_free_list_head')]
        if old.a[1] == 1:
            c(eq(h, cur), 'an existing leaf is displaced that is not the one reached')
            c(conj(neg(eq(V['leaf_count'], ZERO)), self.isleaf(cur)), 'an existing leaf is displaced at a node that is not a leaf')
            c(self.samekey(cur, newleaf, s), 'a leaf with another key is displaced')
            o = old.a[2][0]
            was = self.mem0(self.leafplace(cur))
            c(o is was or s.holds(eq(o, was)), 'the displaced leaf is not returned')
            ch = unexpected(s, [lp])
            c(not ch, 'replacing a leaf changes something else: ' + '; '.join(describe(r, p) for r, p, _ in ch))
            return 'clobber'
        # a newly used slot
        for case in (eq(V['leaf_free_list_len'], ZERO), neg(eq(V['leaf_free_list_len'], ZERO))):
            t = s.assume(case)
            if t is not None:
                self.chk('P25', eq(h, V['leaf_bump_index'] if case is eq(V['leaf_free_list_len'], ZERO) else V['leaf_free_list_head']), 'the new leaf is stored in a slot that is not free', b, st=t)
        c(eq(self.h(E, s, 'leaf_count'), addc(V['leaf_count'], 1)), 'the number of leaves does not grow by one')
        self.counts(E, s, 'P25', b, 'insertion')
        if s.holds(eq(V['leaf_count'], ZERO)):
            c(eq(self.h(E, s, 'root_node'), h), 'the first leaf does not become the root')
            ch = unexpected(s, alloc + [self.hplace('leaf_count'), self.hplace('root_node'), lp])
            c(not ch, 'inserting the first leaf changes something else: ' + '; '.join(describe(r, p) for r, p, _ in ch))
            return 'first'
        link = self.link(s)
        nh = self.rd(E, s, link)
        for case in (eq(V['inner_node_free_list_len'], ZERO), neg(eq(V['inner_node_free_list_len'], ZERO))):
            t = s.assume(case)
            if t is not None:
                w = V['inner_node_bump_index'] if case is eq(V['inner_node_free_list_len'], ZERO) else V['inner_node_free_list_head']
                self.chk('P25', eq(sub(I(MAXH), nh), w), 'the link the walk came through does not get a fresh inner node', b, st=t)
        pl = self.rd(E, s, self.innerplace(nh, 'prefix_len'))
        for case in (self.isleaf(cur), neg(self.isleaf(cur))):
            t = s.assume(case)
            if t is None:
                continue
            ck = self.leafkey(cur) if case is self.isleaf(cur) else self.innerkey(cur)
            z = self.clz(ck, key)
            self.chk('P25', eq(self.res(t, pl), z), 'the new inner node does not branch at the first bit in which the keys differ', b, st=t)
            if case is self.isleaf(cur):
                self.chk('P25', neg(self.samekey(cur, newleaf, t)), 'a leaf with the same key is inserted twice', b, st=t)
            else:
                self.chk('P25', lt(z, self.plen(cur)), 'insertion splits above an inner node whose whole prefix agrees with the key', b, st=t)
            nk = self.rd(E, t, self.innerplace(nh, 'key'))
            self.chk('P25', disj(eq(nk, key), eq(nk, ck)), 'the new inner node does not carry the common prefix', b, st=t)
            bit = self.bit(key, z)
            for cb, side in ((bit, 1), (neg(bit), 0)):
                u = t.assume(cb)
                if u is None:
                    continue
                a = self.rd(E, u, self.innerplace(nh, 'children', side))
                o = self.rd(E, u, self.innerplace(nh, 'children', 1 - side))
                self.chk('P25', eq(a, h), 'the new leaf is not on the side of its branching bit', b, st=u)
                self.chk('P25', eq(o, cur), 'the subtree reached is not kept on the other side', b, st=u)
        ch = unexpected(s, alloc + innera + [self.hplace('leaf_count'), lp, self.innerplace(nh), link])
        c(not ch, 'insertion changes something else: ' + '; '.join(describe(r, p) for r, p, _ in ch))
        return 'split'

    def samekey(self, cur, newleaf, s):
        a = eq(self.leafkey(cur), self.S.keyof(newleaf))
        f = ('f', None, self.li['key'])
        b = eq(proj(self.mem0(self.leafplace(cur)), f), proj(newleaf, f))
        return b if s.holds(b) or s.holds(neg(b)) else a

    # ---------------------------------------------------------------- remove (P26)
    def remove(self):
        b = self.need('Slab', 'remove_by_key')
        E = self.engine()
        slab, sts = self.setup(E, True)
        key = mk('sym', 'search key')
        note_type(key, 'u128')
        E.on_edge = self.walker(self.stepcheck(key, 'P26', 'removal'))
        self.indexing(E)
        outs = self.execute(E, b, [slab, key], sts)
        steps = list(E.final_events('chk'))
        for kind, data, s, fr, span in steps:
            self.chk(data[0], data[1], data[2], fr.body, span)
        self.idxcheck(E, 'P26')
        V = self.v
        kinds = {}
        for v, s in outs:
            c = lambda ok, m: self.chk('P26', ok, m, b, st=s)
            cur = G(s, 'cur')
            if v.op != 'adt':
                c(False, 'the outcome of removal is not determined')
                continue
            if v.a[1] == 0:
                c(self.absent(s, cur, key), 'removal may miss a key that is present')
                ch = unexpected(s, ())
                c(not ch, 'removing an absent key changes the slab: ' + '; '.join(describe(r, p) for r, p, _ in ch))
                kinds['none'] = 1
                continue
            tup = v.a[2][0]
            lf, cb = tup.a[2] if tup.op == 'adt' else (UNDEF, UNDEF)
            was = self.mem0(self.leafplace(cur))
            lf = self.res(s, lf)
            c(lf is was or s.holds(eq(lf, was)), 'the leaf returned is not the one that was found')
            c(conj(neg(eq(V['leaf_count'], ZERO)), self.isleaf(cur), eq(self.leafkey(cur), key)), 'a leaf with another key may be removed')
            ok = cb.op == 'ref' and cb.a[0] == self.cb[0] and samepath(s, tuple(cb.a[1]), tuple(self.cb[1]) + (('i', cur),))
            c(ok, 'the callback information returned is not that of the removed order')
            if cb.op == 'ref' and cb.a[1] and cb.a[1][-1][0] == 'i':
                self.chk('P28', not self.complemented(cb.a[1][-1][1]), 'callback information is looked up by the complement of a handle', b, st=s)
            c(eq(self.h(E, s, 'leaf_count'), addc(V['leaf_count'], -1)), 'the number of leaves does not shrink by one')
            self.counts(E, s, 'P26', b, 'removal')
            c(eq(self.h(E, s, 'leaf_free_list_head'), cur), 'the removed leaf is not freed')
            allowed = [self.hplace(n) for n in ('leaf_count', 'leaf_free_list_len', 'leaf_free_list_head', 'root_node')] + [self.leafplace(cur)]
            if G(s, '#depth') is ZERO:
                kinds['root'] = 1
                c(eq(self.h(E, s, 'leaf_count'), ZERO), 'removing the only leaf does not empty the tree')
                ch = unexpected(s, allowed)
            else:
                kinds['deep' if G(s, '#depth') is I(2) else 'child'] = 1
                par = G(s, 'par')
                c(eq(self.h(E, s, 'inner_node_free_list_head'), sub(I(MAXH), par)), 'the parent of the removed leaf is not freed')
                side = G(s, 'side')
                link = self.glink(s)
                for cb_, sd in ((side, 0), (neg(side), 1)):
                    t = s.assume(cb_)
                    if t is None:
                        continue
                    sib = self.mem0(self.innerplace(par, 'children', sd))
                    self.chk('P26', eq(self.rd(E, t, link), sib), 'the sibling of the removed leaf does not take the place of their parent', b, st=t)
                allowed = [a for a in allowed if a != self.hplace('root_node')] + [self.hplace(n) for n in ('inner_node_free_list_len', 'inner_node_free_list_head')] + [self.innerplace(par), link]
                ch = unexpected(s, allowed)
            c(not ch, 'removal changes something else: ' + '; '.join(describe(r, p) for r, p, _ in ch))
        for k in ('none', 'root', 'child', 'deep'):
            self.chk('P26', k in kinds, 'removal has no outcome of kind ' + k, b)
        self.chk('P26', bool(steps), 'removal never descends', b)
        self.done(E)

    # ---------------------------------------------------------------- iteration (P27)
    def iterate(self):
        P = self.P
        b = self.P.find('SlabIterator', 'next') or self.nextbody()
        ia = P.adt('SlabIterator')
        if b is None or ia is None:
            raise Unsupported('slab iterator')
        ii = {f[0]: i for i, f in enumerate(ia.variants[0][2])}
        fs = {'stack': [i for n, i in ii.items() if 'Vec' in ia.variants[0][2][i][1]], 'slab': [i for n, i in ii.items() if 'Slab' in ia.variants[0][2][i][1]],
              'asc': [i for n, i in ii.items() if ia.variants[0][2][i][1] == 'bool']}
        if any(len(x) != 1 for x in fs.values()):
            raise Unsupported('fields of the slab iterator')
        fs = {k: x[0] for k, x in fs.items()}
        # creation
        c0 = self.need('Slab', 'into_iter')
        E = self.engine()
        slab, sts = self.setup(E, True)
        asc = mk('sym', 'ascending')
        note_type(asc, 'bool')
        asc = i2b(asc)
        flags = set()
        sval = E.deref(sts[0], slab)
        for v, s in self.execute(E, c0, [sval, asc], sts):
            c = lambda ok, m: self.chk('P27', ok, m, c0, st=s)
            if v.op != 'adt':
                c(False, 'the iterator is not determined')
                continue
            st_ = v.a[2][fs['stack']]
            n = proj(st_, ('f', None, 1))
            arr = proj(st_, ('f', None, 0))
            if s.holds(eq(self.v['leaf_count'], ZERO)):
                c(eq(n, ZERO), 'iteration over an empty tree does not start empty')
            else:
                c(eq(n, ONE), 'iteration does not start with the root alone')
                c(eq(proj(arr, ('i', ZERO)), self.v['root_node']), 'iteration does not start at the root')
            f = i2b(v.a[2][fs['asc']])
            c(f is asc or f is neg(asc), 'the direction of iteration is not that requested')
            flags.add('asc' if f is asc else 'desc')
            c(v.a[2][fs['slab']] is sval, 'the iterator does not hold the slab')
        self.chk('P27', len(flags) == 1, 'the direction of iteration is not that requested', c0)
        self.done(E)
        flag = asc if flags == {'asc'} else neg(asc)
        # one step
        E = self.engine()
        slab, sts = self.setup(E, True)
        it = mk('sym', 'iterator')
        vec = mk('sym', 'search stack')
        n = mk('sym', 'stack size')
        note_type(n, 'u32')
        r, p = E.target(it)
        fields = [None, None, None]
        fields[fs['stack']] = adt('Vec', 0, (vec, n))
        fields[fs['slab']] = E.deref(sts[0], slab)
        fields[fs['asc']] = flag
        initial = adt(ia.path, 0, fields)
        fv, ln = ('f', None, 0), ('f', None, 1)
        stackp = (r, tuple(p) + (('f', None, fs['stack']),))

        def pushes(E, fr, st, vals, span):
            """the values pushed so far are those the order asks for"""
            for v in vals:
                k = G(st, '#pushed')
                h = G(st, 'h', None)
                bad = h is None or k is I(2) or not st.holds(neg(self.isleaf(h)))
                if not bad:
                    side = asc if k is ZERO else neg(asc)
                    ch = self.childof(v)
                    bad = not (ch is not None and st.holds(eq(ch[0], sub(I(MAXH), h))) and samebool(st, i2b(ch[1]), side))
                    # both sides apart when the direction is decided
                    if bad:
                        bad = not all(st.assume(c_) is None or st.assume(c_).holds(eq(self.res(st.assume(c_), v), self.mem0(self.innerplace(h, 'children', sd))))
                                      for c_, sd in ((side, 1), (neg(side), 0)))
                E.event(fr, 'chk', ('P27', not bad, 'an inner node does not put its children on the stack, the far one first'), st, span)
                setG(st, '#pushed', I(min(k.a[0] + 1, 3)))
                if bad:
                    st.mem.pop(('G', '@popped'), None)

        def mine(E, fr, vals):
            return vals and E.target(vals[0])[0] == r

        def push(E, fr, st, func, vals, tys, dty, span):
            if 'Vec' not in func or not mine(E, fr, vals):
                return None
            st = st.copy()
            pushes(E, fr, st, vals[1:2], span)
            return E.M.model(E, fr, st, func, vals, tys, dty, span)

        def extend(E, fr, st, func, vals, tys, dty, span):
            if not mine(E, fr, vals) or vals[1].op != 'arr' and not (vals[1].op == 'ref' and E.deref(st, vals[1]).op == 'arr'):
                return None
            xs = vals[1] if vals[1].op == 'arr' else E.deref(st, vals[1])
            st = st.copy()
            pushes(E, fr, st, xs.a, span)
            a, q = stackp
            v = E.read(st, a, q)
            for x in xs.a:
                k = proj(v, ln)
                v = adt('Vec', 0, (setp(proj(v, fv), ('i', k), x), addc(k, 1)))
            E.write(fr, st, a, q, v)
            return [(UNIT, st)]

        def finished(E, fr, st, span):
            """what is owed for the node popped last"""
            h = G(st, 'h', None)
            if h is None:
                ok = True
            else:
                ok = G(st, '#pushed') is I(2) and st.holds(neg(self.isleaf(h)))
            E.event(fr, 'chk', ('P27', ok, 'a node taken from the stack is dropped, or its children are not all visited'), st, span)

        def pop(E, fr, st, func, vals, tys, dty, span):
            if 'Vec' not in func or not mine(E, fr, vals):
                return None
            finished(E, fr, st, span)
            out = []
            for v, s in E.M.model(E, fr, st, func, vals, tys, dty, span) or []:
                s = s.copy()
                setG(s, '#pushed', ZERO)
                if v.op == 'adt' and v.a[1] == 1:
                    h = v.a[2][0]
                    note_type(h, 'u32')
                    setG(s, 'h', h)
                    setG(s, '#popped', ONE)
                    if E.RANK is not None and G(s, '@popped', None) is ZERO:
                        setG(s, '@popped', ONE)
                else:
                    setG(s, '#popped', I(2))
                    s.mem.pop(('G', 'h'), None)
                out.append((v, s))
            return out
        E.externs = {'push': push, 'pop': pop, 'extend': extend, 'extend_from_slice': extend}

        def on_edge(E, fr, bb, tgt, st):
            h = G(st, 'h', None)
            if h is not None:
                k = ONE if st.holds(self.isleaf(h)) else I(2) if st.holds(neg(self.isleaf(h))) else ZERO
                if k is not G(st, '#kind'):
                    st = st.copy()
                    setG(st, '#kind', k)
                st = self.live(E, st, h)
            return st
        E.on_edge = on_edge
        self.indexing(E)
        kinds = set()
        st = sts[-1].copy()
        st.mem[r] = E.setpath(st, mk('mem0', r), p, initial)
        setG(st, '#pushed', ZERO)
        setG(st, '#popped', ZERO)
        for v, s in E.exec_function(b, [it], st, E.cs_id(0, 'root', None)):
            c = lambda ok, m: self.chk('P27', ok, m, b, st=s)
            ch = [x for x in unexpected(s, [stackp]) if x[0] != r] + [(r, stackp[1][:-1] + (('f', None, i),), UNDEF) for i in range(3)
                  if i != fs['stack'] and E.read(s, r, stackp[1][:-1] + (('f', None, i),)) is not fields[i]]
            self.chk('P34', not ch, 'iterating changes something else: ' + '; '.join(describe(q, pp) for q, pp, _ in ch), b)
            if v.op != 'adt':
                c(False, 'the result of iterating is not determined')
            elif v.a[1] == 0:
                kinds.add('none')
                c(G(s, '#popped') is I(2), 'iteration may end although the stack is not empty')
            else:
                kinds.add('some')
                h = G(s, 'h', None)
                ok = h is not None and G(s, '#pushed') is ZERO and s.holds(self.isleaf(h))
                c(ok, 'iteration may return something else than the leaf taken from the stack')
                if ok:
                    w = self.mem0(self.leafplace(h))
                    c(v.a[2][0] is w or s.holds(eq(v.a[2][0], w)), 'iteration does not return the order of the leaf it reached')
        evs = list(E.final_events('chk'))
        for kind, data, s, fr, span in evs:
            self.chk(data[0], data[1], data[2], fr.body, span)
        self.idxcheck(E)
        self.chk('P27', kinds == {'none', 'some'} and len(evs) >= 3, 'iteration never descends, never ends or never returns an order', b)
        self.done(E)

    def nextbody(self):
        for (mod, ty, m), b in self.P.fns.items():
            if m == 'next' and b.params and 'SlabIterator' in b.params[0][1]:
                return b
        return None

    # ---------------------------------------------------------------- small accessors
    def misc(self):
        P = self.P
        for m in ('get_callback_info', 'get_callback_info_mut'):
            b = P.find('Slab', m)
            if b is None:
                continue
            E = self.engine()
            slab, sts = self.setup(E)
            h = mk('sym', 'handle')
            note_type(h, 'u32')
            for v, s in self.execute(E, b, [slab, h], sts):
                ok = v.op == 'ref' and v.a[0] == self.cb[0] and samepath(s, tuple(v.a[1]), tuple(self.cb[1]) + (('i', h),))
                self.chk('P27', ok and not unexpected(s, ()), 'the callback information of an order is looked up under another handle', b)
            self.done(E)
        oa = P.adt('OrderBookState')
        sd = P.adt('Side')
        oi = {f[0]: i for i, f in enumerate(oa.variants[0][2])}
        b = P.find('OrderBookState', 'find_bbo')
        mm = {m: P.find('Slab', 'find_' + m) for m in ('min', 'max')}

        def anchors(E, log):
            def h(m):
                def f(E, fr, st, vals, tys, dty, span):
                    root, path = E.target(vals[0])
                    q = path[-1][2] if path and path[-1][0] == 'f' else None
                    none = st.assume(eq(mk('sym', m, q), ZERO))
                    x = mk('app', m + 'leaf', vals[0])
                    note_type(x, 'u32')
                    out = []
                    k = mk('sym', 'orders', m, q)
                    RNG.setdefault(k, (0, 1 << 32))
                    log[q] = k
                    s = st.assume(eq(k, ZERO))
                    if s is not None:
                        out.append((NONE, s))
                    s = st.assume(neg(eq(k, ZERO)))
                    if s is not None:
                        # the search of a well-formed slab gives a leaf (P02)
                        hd = mk('app', m, I(q) if q is not None else UNDEF)
                        note_type(hd, 'u32')
                        s = s.assume(lt(hd, E.lenof(s, E.read(s, root, tuple(path) + (('f', None, self.si['leaf_nodes']),)))))
                        if s is not None:
                            out.append((SOME(hd), s))
                    return out
                return f
            for m, bb in mm.items():
                E.anchors[id(bb)] = h(m)
        if b is not None:
            for side, m, tree in (('Bid', 'max', 'bids'), ('Ask', 'min', 'asks')):
                E = self.engine()
                anchors(E, {})
                want = mk('app', m, I(oi[tree]))
                some = 0
                for v, s in E.exec_function(b, [mk('sym', 'orderbook'), adt(sd.path, sd.vidx(side), ())], State(), E.cs_id(0, 'root', None)):
                    ok = v.op == 'adt' and (v.a[1] == 0 or v.a[2][0] is want)
                    some += v.op == 'adt' and v.a[1] == 1
                    self.chk('P27', ok, 'the best %s is not the %s of the %s' % (side.lower(), 'maximum' if m == 'max' else 'minimum', tree), b)
                self.chk('P27', some > 0, 'there is never a best ' + side.lower(), b)
                self.done(E)
        b = P.find('OrderBookState', 'get_spread')
        if b is not None:
            E = self.engine()
            log = {}
            anchors(E, log)
            ob = mk('sym', 'orderbook')
            for v, s in E.exec_function(b, [ob], State(), E.cs_id(0, 'root', None)):
                self.chk('P34', not unexpected(s, ()), 'reading the spread changes the book', b)
                for k, m, tree in ((0, 'max', 'bids'), (1, 'min', 'asks')):
                    x = proj(v, ('f', None, k))
                    S = Slabs(E, P)
                    r, p = E.target(ob)
                    h = mk('app', m, I(oi[tree]))
                    lr = E.read(s, r, tuple(p) + (('f', None, oi[tree]), ('f', None, self.si['leaf_nodes'])))
                    lf = E.read(s, *self.at(E, lr, h))
                    price = S.price(lf)
                    cases = [(s, x)]
                    if x.op == 'ite':
                        cases = [(s.assume(x.a[0]), x.a[1]), (s.assume(neg(x.a[0])), x.a[2])]
                    for t, y in cases:
                        if t is None:
                            continue
                        n = log.get(oi[tree])
                        ok = n is not None and y.op == 'adt' and (t.holds(eq(n, ZERO)) if y.a[1] == 0 else t.holds(neg(eq(n, ZERO))) and t.holds(eq(y.a[2][0], price)))
                        self.chk('P27', ok, 'the spread does not report the price of the best %s' % ('bid' if k == 0 else 'ask'), b)
            self.done(E)
        b = P.find('OrderBookState', 'is_empty')
        if b is not None:
            E = self.engine()
            ob = mk('sym', 'orderbook')
            S = Slabs(E, P)
            r, p = E.target(ob)
            for v, s in E.exec_function(b, [ob], State(), E.cs_id(0, 'root', None)):
                cnt = []
                for tree in ('bids', 'asks'):
                    hr = E.read(s, r, tuple(p) + (('f', None, oi[tree]), ('f', None, self.si['header'])))
                    q, pp = E.target(hr)
                    x = E.read(s, q, tuple(pp) + (('f', None, self.hi['leaf_count']),))
                    note_type(x, 'u32')
                    cnt.append(eq(x, ZERO))
                v = i2b(v)
                for pol in (v, neg(v)):
                    t = s.assume(pol)
                    if t is not None:
                        self.chk('P04', all(t.holds(x) for x in cnt) if pol is v else t.holds(disj(neg(cnt[0]), neg(cnt[1]))), 'the book is reported empty exactly when both sides are', b)
                self.chk('P34', not unexpected(s, ()), 'a query changes the book', b)
            self.done(E)
        b = P.find('OrderBookState', 'get_tree')
        if b is not None:
            for side, tree in (('Bid', 'bids'), ('Ask', 'asks')):
                E = self.engine()
                ob = mk('sym', 'orderbook')
                for v, s in E.exec_function(b, [ob, adt(sd.path, sd.vidx(side), ())], State(), E.cs_id(0, 'root', None)):
                    r, p = E.target(ob)
                    self.chk('P29', v is ref(r, tuple(p) + (('f', None, oi[tree]),)), 'the tree of a side is not that of the %s' % tree, b)
        for m in ('price', 'order_id', 'price_from_key'):
            b = P.find('LeafNode', m)
            if b is None:
                continue
            E = self.engine()
            S = Slabs(E, P)
            if m == 'price_from_key':
                k = mk('sym', 'key')
                note_type(k, 'u128')
                args, want = [k], shr(k, I(64))
            else:
                lf = mk('sym', 'leaf')
                val = E.read(State(), *E.target(lf))
                args, want = [lf], S.price(val) if m == 'price' else S.keyof(val)
            for v, s in E.exec_function(b, args, State(), E.cs_id(0, 'root', None)):
                self.chk('P20', s.holds(eq(v, want)), 'the %s of an order is not read from its key' % ('price' if 'price' in m else 'id'), b)
            self.done(E)

    def at(self, E, sl, h):
        r, p = E.target(sl)
        return r, tuple(p) + (('i', h),)

    # ---------------------------------------------------------------- who else writes
    def writers(self):
        from .. import effects
        P = self.P
        f = lambda m: P.find('Slab', m)
        alloc = [f('allocate_leaf'), f('free_leaf'), f('allocate_inner_node'), f('free_inner_node')]
        tree = [f('insert_leaf'), f('remove_by_key')]
        no = [P.find('OrderBookState', 'new_order')]
        cg = effects.callers(P)
        hn = {i: n for n, i in self.hi.items()}
        ln = {i: n for n, i in self.li.items()}
        for b, span, ty, fi, kind in effects.writes(P):
            if ty == 'SlabHeader' and fi is not None:
                n = hn[fi]
                prop, roots = ('P25', tree) if n in ('root_node', 'leaf_count') else ('P24', alloc)
            elif ty == 'InnerNode':
                prop, roots = 'P25', tree + alloc
            elif ty == 'LeafNode':
                prop, roots = 'P25', tree + alloc + (no if fi is not None and ln[fi] == 'base_quantity' else [])
            else:
                continue
            roots = [r for r in roots if r is not None]
            self.chk(prop, b in roots or effects.only_through(P, b, roots, cg), 'the order tree is written outside its own operations', b, span)


def E_ref(place):
    r, p = place
    return r[1] if r[0] == 'O' and not p else ref(r, p)


def run(P):
    return SlabRules(P).run()
