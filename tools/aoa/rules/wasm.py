"""P36: the queries of the WebAssembly slab reader (best order, order sequence, level-2 depth).

The tree behind a handle is opaque: reading a node yields an inner node with two children or an order.  A cursor ghost
names the node read last; what is pushed on and popped from the work list, and every change of the result, is compared
with the step a best-first traversal takes at that cursor.  The best-first property then follows by induction on the
traversal."""
from .common import *
import re
from ..models import OPT, UNIT, RES

# what happened since the last handle was popped
START, ROOT, POPPED, FAR, NEAR, ADDED, QTY, LEVEL, EMPTY, ONE_, BAD = range(11)


class Wasm(Rules):
    def __init__(self, P):
        super().__init__(P)
        self.mod = 'critbit'
        self.slab = P.adt('Slab')
        if self.slab is None:
            raise Unsupported('no Slab')
        self.sf = {f[0]: i for i, f in enumerate(self.slab.variants[0][2])}
        self.node = P.adt('Node')
        self.vi = [v[0] for v in self.node.variants]
        self.inner = P.adt('InnerNode')
        self.leaf = P.adt('LeafNode')

    def run(self):
        for q, biggest in (('find_min', 0), ('find_max', 1)):
            self.best(q, biggest)
        for inc in (0, 1):
            self.walk('find_l2_depth', inc)
            self.walk('find_node_sequence', inc)
        self.price()
        self.slot()
        self.decoding()
        for q, a in (('find_max', 0), ('find_min', 0), ('find_l2_depth', 2)):
            self.export(q, a)
        return self

    # ------------------------------------------------------------ what is exported, and the slots nodes are read from
    def export(self, name, extra):
        b = self.P.find('', name, '')
        if b is None:
            raise Unsupported('no exported ' + name)
        E = self.engine()
        data, cl, ss, depth, inc = [mk('sym', x) for x in ('data', 'callback_info_len', 'slot_size', 'depth', 'increasing')]
        for x in (cl, ss, depth):
            note_type(x, 'u64')
        note_type(inc, 'bool')
        slab = mk('sym', 'the slab')

        def new(E, fr, st, vals, tys, dty, span):
            buf = vals[0]
            for _ in range(4):
                if occurs(data, buf) or buf.op != 'ref':
                    break
                buf = E.deref(st, buf)
            E.event(fr, 'chk', (occurs(data, buf) and vals[1] is cl and vals[2] is ss, 'the slab is read of other data than was passed'), st, span)
            return [(slab, st)]
        E.anchors[id(self.need('Slab', 'new'))] = new
        E.externs['new'] = lambda E, fr, st, func, vals, tys, dty, span: [(vals[0], st)] if re.search(r'\b(Rc|RefCell|Cell|Arc)\b', func) else None
        res = mk('sym', 'the result')

        def query(E, fr, st, vals, tys, dty, span):
            v = vals[0] if vals[0] is slab else E.deref(st, vals[0])
            ok = v is slab and (not extra or vals[1] is depth and vals[2] is inc)
            E.event(fr, 'chk', (ok, 'a query is passed on with other arguments'), st, span)
            return [(res, st)]
        E.anchors[id(self.need('Slab', name))] = query
        n = 0
        for v, s in E.exec_function(b, [data, cl, ss] + [depth, inc][:extra], State(), E.cs_id(0, 'root', None)):
            n += 1
            self.chk('P36', v is res, 'an exported query does not return the result of the query of its name', b)
        self.chk('P36', n > 0, 'an exported query never returns', b)
        self.chkevents(E)

    def decoding(self):
        b = self.need('LeafNode', 'deserialize')
        E = self.engine()
        root = ('O', mk('sym', 'bytes'))
        cl = mk('sym', 'callback length')
        note_type(cl, 'u32')
        n = mk('sym', 'slot length')
        note_type(n, 'u32')
        reg = ('r', ZERO, n)
        m = mk('mem0', root)
        lf = {f[0]: i for i, f in enumerate(self.leaf.variants[0][2])}
        good = 0
        for v, s in E.exec_function(b, [ref(root, (reg,)), cl], State(), E.cs_id(0, 'root', None)):
            if v.op != 'adt' or v.a[1]:
                continue
            good += 1
            x = v.a[2][0]
            for f, lo, hi, t in (('key', ZERO, I(16), 'u128'), ('base_quantity', addc(cl, 16), addc(cl, 24), 'u64')):
                y = proj(x, ('f', None, lf[f]))
                ok = y is proj(proj(m, ('r', lo, hi)), ('as', t))
                self.chk('P36', ok, 'the %s of an order is not read from its bytes' % f, b)
        self.chk('P36', good > 0, 'no order is ever decoded', b)
        self.chkevents(E)
        b = self.need('Node', 'deserialize')
        E = self.engine()
        leaf = mk('sym', 'order')
        tail = ('r', ONE, n)

        def isrest(st, x):
            for _ in range(3):
                if x.op != 'ref' or x.a[0] == root:
                    break
                x = E.deref(st, x)
            return x.op == 'ref' and x.a[0] == root and x.a[1] and x.a[1][-1][0] == 'r' and st.holds(eq(x.a[1][-1][1], ONE))

        def lde(E, fr, st, vals, tys, dty, span):
            E.event(fr, 'chk', (isrest(st, vals[0]) and vals[1] is cl, 'an order is not decoded from the bytes after its tag'), st, span)
            return [(RES(True, leaf), st), (RES(False, mk('sym', 'error')), st.copy())]
        E.anchors[id(self.need('LeafNode', 'deserialize'))] = lde

        def ide(E, fr, st, func, vals, tys, dty, span):
            E.event(fr, 'chk', (isrest(st, vals[0]), 'an inner node is not decoded from the bytes after its tag'), st, span)
            return [(RES(True, mk('app', 'decoded', func)), st), (RES(False, mk('sym', 'error')), st.copy())]
        E.externs['deserialize'] = ide
        for (ty, mm), l in self.P.by_tm.items():
            if mm == 'deserialize' and ty in ('InnerNode', 'FreeNode'):
                for _, x in l:
                    E.anchors[id(x)] = lambda E, fr, st, vals, tys, dty, span, ty=ty: ide(E, fr, st, ty, vals, tys, dty, span)
        byte = proj(m, ('i', ZERO))
        note_type(byte, 'u8')
        seen = set()
        for v, s in E.exec_function(b, [ref(root, (reg,)), cl], State(), E.cs_id(0, 'root', None)):
            if v.op != 'adt' or v.a[1]:
                continue
            x = v.a[2][0]
            name = self.vi[x.a[1]] if x.op == 'adt' else '?'
            if name in ('Inner', 'Leaf'):
                seen.add(name)
                self.chk('P36', eq(byte, I(1 if name == 'Inner' else 2)), 'a node of another tag is decoded as %s' % name, b, st=s)
                y = x.a[2][0]
                self.chk('P36', y is leaf if name == 'Leaf' else 'InnerNode' in str(y), 'a node is decoded as one of another kind', b)
        self.chk('P36', seen == {'Inner', 'Leaf'}, 'a kind of node is never decoded', b)
        self.chkevents(E)

    def slot(self):
        b = self.need('Slab', 'get_node')
        d = self.need('Node', 'deserialize')
        E = self.engine()
        root = ('O', mk('sym', 'slab'))
        key = mk('sym', 'handle')
        note_type(key, 'u32')
        m = mk('mem0', root)
        size = proj(m, ('f', None, self.sf['slot_size']))
        note_type(size, 'u32')
        H = ZERO
        for n, t in [(f[0], f[1]) for f in self.P.adt('SlabHeader').variants[0][2]]:
            H = add(H, {'AccountTag': ONE, 'u64': I(8), 'u32': I(4), '[u8; 32]': I(32)}[t.replace(' ', '').replace(';', '; ')])
        node = mk('sym', 'decoded')

        def dec(E, fr, st, vals, tys, dty, span):
            x = vals[0]
            p = x.a[1][-1] if x.op == 'ref' and x.a[1] else ('?',)
            lo = add(H, mul(key, size))
            ok = p[0] == 'r' and st.holds(eq(p[1], lo)) and st.holds(eq(p[2], add(lo, size)))
            E.event(fr, 'chk', (ok, 'a node is not read of its own slot'), st, span)
            return [(RES(True, node), st), (RES(False, mk('sym', 'error')), st.copy())]
        E.anchors[id(d)] = dec
        for v, s in E.exec_function(b, [ref(root, ()), key], State(), E.cs_id(0, 'root', None)):
            self.chk('P36', v.op == 'adt' and (v.a[1] == 0 or v.a[2][0] is node), 'another node is returned than was read', b)
        self.chkevents(E)

    # ------------------------------------------------------------ the opaque tree
    def isleaf(self, h):
        return neg(eq(self.kind(h), ZERO))

    def kind(self, h):
        x = mk('app', 'is an order', h)
        note_type(x, 'bool')
        return x

    def child(self, h, side):
        x = mk('app', 'child', h, I(side))
        note_type(x, 'u32')
        return x

    def leafval(self, h, f):
        x = mk('app', f, h)
        note_type(x, 'u128' if f == 'key' else 'u64')
        return x

    def tree(self, E):
        """anchors the reading of a node"""
        E.keyatoms = set(E.keyatoms) | {self.leaf_count}

        def get(E, fr, st, vals, tys, dty, span):
            h = vals[1]
            out = []
            for leaf in (0, 1):
                s = st.assume(self.isleaf(h) if leaf else neg(self.isleaf(h)))
                if s is None:
                    continue
                if leaf:
                    a, name = self.leaf, 'Leaf'
                    f = [self.leafval(h, x[0]) if x[0] in ('key', 'base_quantity') else mk('app', x[0], h) for x in a.variants[0][2]]
                else:
                    a, name = self.inner, 'Inner'
                    f = [mk('arr', self.child(h, 0), self.child(h, 1)) if x[0] == 'children' else mk('app', x[0], h) for x in a.variants[0][2]]
                s = s.copy()
                s = self.visit(E, fr, s, h, span) or s
                out.append((OPT(adt(self.node.path, self.vi.index(name), (adt(a.path, 0, tuple(f)),))), s))
            return out
        b = self.need('Slab', 'get_node')
        E.anchors[id(b)] = get
        self.tops = E.anchors

    def visit(self, E, fr, st, h, span):
        return None

    def setup(self, E):
        root = ('O', mk('sym', 'slab'))
        h = proj(mk('mem0', root), ('f', None, self.sf['header']))
        ha = self.P.adt('SlabHeader')
        hf = {f[0]: i for i, f in enumerate(ha.variants[0][2])}
        self.root_node = proj(h, ('f', None, hf['root_node']))
        self.leaf_count = proj(h, ('f', None, hf['leaf_count']))
        note_type(self.root_node, 'u32')
        note_type(self.leaf_count, 'u64')
        return ref(root, ())

    def chkevents(self, E):
        seen = False
        for kind, data, s, fr, span in E.final_events('chk'):
            seen = True
            self.chk('P36', data[0], data[1], fr.body, span)
        for kind, data, s, fr, span in E.final_events('panic'):
            self.chk('P36', False, 'a query may panic', fr.body, span)
        self.bodies |= {x.name for x in E.analysed}
        return seen

    # ------------------------------------------------------------ best order
    def best(self, name, side):
        b = self.need('Slab', name)
        E = self.engine()
        slab = self.setup(E)
        self.tree(E)
        st = State()
        setG(st, '#k', I(START))
        setG(st, 'cur', self.root_node)

        def visit(E, fr, s, h, span):
            E.event(fr, 'chk', (s.holds(eq(h, G(s, 'cur'))), 'the search for the best order leaves its path'), s, span)
        self.visit = visit

        def on_edge(E, fr, bb, tgt, s):
            for _ in range(3):
                cur = G(s, 'cur')
                hit = {v for v in self.scalars(s, fr) if v.op == 'app' and v.a[0] == 'child' and (v.a[1] is cur or s.holds(eq(v.a[1], cur)))}
                if len(hit) != 1:
                    break
                v = hit.pop()
                E.event(fr, 'chk', (v.a[2] is I(side), 'the search for the best order takes the wrong child'), s)
                s = s.copy()
                setG(s, 'cur', v)
            return s
        E.on_edge = on_edge
        kinds = set()
        for v, s in E.exec_function(b, [slab], st, E.cs_id(0, 'root', None)):
            if v.op != 'adt':
                self.chk('P36', False, 'the best order is not determined', b)
            elif v.a[1] == 0:
                kinds.add('none')
                self.chk('P36', eq(self.leaf_count, ZERO), 'no best order is found in a book with orders', b, st=s)
            else:
                kinds.add('some')
                h = v.a[2][0]
                self.chk('P36', neg(eq(self.leaf_count, ZERO)), 'a best order is found in an empty book', b, st=s)
                self.chk('P36', eq(h, G(s, 'cur')), 'the best order found is not the one the search ended at', b, st=s)
                self.chk('P36', self.isleaf(h), 'the best order found may be an inner node', b, st=s)
        self.chk('P36', kinds == {'none', 'some'}, 'the search for the best order has not both outcomes', b)
        self.chkevents(E)

    def scalars(self, st, fr):
        for k, v in st.mem.items():
            if k[0] == 'L' and k[1] == fr.cs:
                yield v

    # ------------------------------------------------------------ traversals
    def walk(self, name, inc):
        b = self.P.find('Slab', name)
        if b is None:
            if name == 'find_l2_depth':
                raise Unsupported('no Slab::' + name)
            return
        levels = name == 'find_l2_depth'
        E = self.engine()
        slab = self.setup(E)
        self.tree(E)
        depth = mk('sym', 'depth')
        note_type(depth, 'u32')
        st = State()
        setG(st, '#k', I(START))
        setG(st, 'cur', mk('sym', 'nothing'))
        ev = lambda fr, s, ok, m, span: E.event(fr, 'chk', (bool(ok), m), s, span)
        near, far = (0, 1) if inc else (1, 0)
        full = I(0)

        def visit(E, fr, s, h, span):
            ev(fr, s, eqh(s, h, G(s, 'cur')), 'a node is visited that is not the next one of the work list', span)
        self.visit = visit

        def eqh(s, a, c):
            return a is c or s.holds(eq(a, c))

        def isstack(vec, func, st):
            return not (levels and 'u64' in func) if levels else st.mem.get(('G', 'stack')) is vec

        def last(E, s, root, path):
            v = E.read(s, root, path)
            n = v.a[2][1] if v.op == 'adt' else proj(v, ('f', None, 1))
            return n, lambda i: E.read(s, root, tuple(path) + (('f', None, 0), ('i', i)))

        def push(E, fr, st, func, vals, tys, dty, span):
            root, path = E.target(vals[0])
            k = G(st, '#k').a[0]
            cur, x = G(st, 'cur'), vals[1]
            ty = func + (tys[0] or '')
            if levels:
                stack = 'u64' not in ty
            else:
                # both lists hold handles; the work list is the one children and the root go to
                stack = not (k == POPPED and eqh(st, x, cur))
            nk = BAD
            if stack:
                if k == START:
                    ev(fr, st, eqh(st, x, self.root_node), 'the traversal does not start at the root', span)
                    nk = ROOT
                elif k == POPPED:
                    ev(fr, st, st.holds(neg(self.isleaf(cur))) and eqh(st, x, self.child(cur, far)), 'the child pushed first is not the one visited last', span)
                    nk = FAR
                elif k == FAR:
                    ev(fr, st, eqh(st, x, self.child(cur, near)), 'the child visited next is not the better one', span)
                    nk = NEAR
            elif levels:
                n, at = last(E, st, root, path)
                if k == POPPED:
                    ev(fr, st, st.holds(self.isleaf(cur)) and eqh(st, x, self.leafval(cur, 'base_quantity')), 'a level does not begin with the quantity of its first order', span)
                    p = self.leafprice(cur)
                    ev(fr, st, st.holds(eq(n, ZERO)) or st.holds(neg(eq(at(addc(n, -1)), p))), 'a level is begun for the price of the previous one', span)
                    ev(fr, st, st.holds(lt(n, mul(I(2), depth))) or st.holds(neg(eq(n, mul(I(2), depth)))), 'more levels are reported than were asked for', span)
                    nk = QTY
                elif k == QTY:
                    ev(fr, st, eqh(st, x, self.leafprice(cur)), 'a level does not carry the price of its first order', span)
                    nk = LEVEL
            else:
                n, at = last(E, st, root, path)
                ev(fr, st, st.holds(self.isleaf(cur)), 'an inner node is reported as an order', span)
                ev(fr, st, st.holds(lt(n, depth)) or st.holds(neg(eq(n, depth))), 'more orders are reported than were asked for', span)
                nk = ONE_
            ev(fr, st, nk != BAD, 'the traversal takes an unexpected step', span)
            s = st.copy()
            E.write(fr, s, root, path, E.read(s, root, path))
            r = dflt(E, fr, s, 'push', vals, tys, dty)
            out = []
            for v, s2 in r:
                setG(s2, '#k', I(nk))
                out.append((v, s2))
            return out

        def pop(E, fr, st, func, vals, tys, dty, span):
            root, path = E.target(vals[0])
            k = G(st, '#k').a[0]
            n, at = last(E, st, root, path)
            if k == START:
                ev(fr, st, st.holds(eq(n, ONE)) and eqh(st, at(ZERO), self.root_node), 'the traversal does not start at the root', span)
            else:
                ev(fr, st, k in (ROOT, NEAR, ADDED, LEVEL, ONE_), 'the traversal goes on before the step at a node is done', span)
            out = []
            for v, s in dflt(E, fr, st, 'pop', vals, tys, dty):
                s = s.copy()
                if v.a[1] == 0:
                    setG(s, '#k', I(EMPTY))
                else:
                    setG(s, '#k', I(POPPED))
                    setG(s, 'cur', v.a[2][0])
                # an empty result and one with levels are told apart
                n = result(s, fr)
                for z, c in ((0, eq(n, ZERO)), (1, lt(ZERO, n))) if n is not None else ((0, TRUE),):
                    s2 = s.assume(c)
                    if s2 is not None:
                        s2 = s2.copy()
                        setG(s2, '#z', I(z))
                        out.append((v, s2))
            return out

        def result(s, fr):
            for r, v in s.mem.items():
                if levels and r[0] == 'L' and r[1] == fr.cs and last_seg(fr.body.types.get(r[2], '')) == 'Vec' and 'u64' in fr.body.types[r[2]]:
                    return v.a[2][1] if v.op == 'adt' else proj(v, ('f', None, 1))

        def ext(E, fr, st, func, vals, tys, dty, span):
            v = E.deref(st, vals[1])
            if v.op != 'arr':
                return None
            sts = [st]
            for x in v.a:
                sts = [s2 for s in sts for _, s2 in push(E, fr, s, func, [vals[0], x], tys, dty, span)]
            return [(UNIT, s) for s in sts]
        from .. import models
        dflt = models.vec_method
        E.externs.update(push=push, pop=pop, extend_from_slice=ext)
        for m in ('clear', 'truncate', 'insert', 'remove', 'swap_remove', 'append', 'drain', 'retain', 'sort', 'reverse', 'dedup'):
            E.externs[m] = lambda E, fr, st, func, vals, tys, dty, span: (ev(fr, st, False, 'the lists of a traversal are changed otherwise', span), None)[1]

        def on_write(E, fr, st, root, path, old, new):
            # the running sum of a level
            if levels and root[0] == 'L' and len(path) >= 2 and path[-1][0] == 'i' and path[-2] == ('f', None, 0) and E.inpush == 0:
                ty = fr.body.types.get(root[2], '') if root[1] == fr.cs else ''
                n, at = last(E, st, root, path[:-2])
                cur = G(st, 'cur')
                q = self.leafval(cur, 'base_quantity')
                k = G(st, '#k').a[0]
                ev(fr, st, k == POPPED, 'the quantity of an order is counted twice', E.cur[1])
                ev(fr, st, st.holds(self.isleaf(cur)) and st.holds(eq(path[-1][1], addc(n, -2))), 'the quantity of an order goes to another level', E.cur[1])
                ev(fr, st, eqh(st, new, add(old, q)), 'a level does not grow by the quantity of the order', E.cur[1])
                ev(fr, st, st.holds(eq(at(addc(n, -1)), self.leafprice(cur))), 'an order is counted in a level of another price', E.cur[1])
                setG(st, '#k', I(ADDED))
        E.inpush = 0

        def guarded(f):
            def g(*a):
                E.inpush += 1
                try:
                    return f(*a)
                finally:
                    E.inpush -= 1
            return g
        for m in ('push', 'pop', 'extend_from_slice'):
            E.externs[m] = guarded(E.externs[m])
        E.on_write = on_write
        E.local_writes = True

        def on_edge(E, fr, bb, tgt, s):
            # levels are begun by two entries at once: a result that is not empty has two of them
            if levels and G(s, '#k').a[0] != QTY:
                n = result(s, fr)
                if n is not None and s.holds(lt(ZERO, n)):
                    s = s.assume(lt(ONE, n)) or s
            return s
        E.on_edge = on_edge
        done = set()
        for v, s in E.exec_function(b, [slab, depth, I(inc)], st, E.cs_id(0, 'root', None)):
            k = G(s, '#k').a[0]
            n = v.a[2][1] if v.op == 'adt' else proj(v, ('f', None, 1))
            cur = G(s, 'cur')
            if k in (START, ROOT):
                done.add('empty')
                self.chk('P36', s.holds(eq(self.leaf_count, ZERO)) or s.holds(eq(depth, ZERO)), 'a traversal of a book with orders reports nothing', b)
                self.chk('P36', eq(n, ZERO), 'something is reported of an empty book', b, st=s)
            elif k == EMPTY:
                done.add('all')
            elif levels and k == POPPED:
                done.add('full')
                self.chk('P36', self.isleaf(cur), 'the traversal ends at an inner node', b, st=s)
                self.chk('P36', s.holds(le(mul(I(2), depth), n)) or s.holds(eq(n, mul(I(2), depth))), 'the traversal ends before enough levels are complete', b)
                at = addc(n, -1)
                p = proj(proj(v, ('f', None, 0)), ('i', at))
                ok = s.holds(eq(n, ZERO)) or s.holds(neg(eq(p, self.leafprice(cur))))
                self.chk('P36', ok, 'the traversal ends within a price level', b)
            elif not levels and k in (POPPED, NEAR, ONE_, ROOT):
                done.add('full')
                self.chk('P36', s.holds(le(depth, n)) or s.holds(eq(n, depth)), 'the traversal ends before enough orders are found', b)
            else:
                self.chk('P36', False, 'the traversal may end before the last level is complete', b)
        self.chk('P36', {'empty', 'all'} <= done, 'the traversal never comes to an end', b)
        self.chkevents(E)

    def leafprice(self, h):
        p = shr(self.leafval(h, 'key'), I(64))
        return p

    def price(self):
        b = self.P.find('LeafNode', 'price')
        if b is None:
            return
        E = self.engine()
        root = ('O', mk('sym', 'leaf'))
        lf = {f[0]: i for i, f in enumerate(self.leaf.variants[0][2])}
        key = proj(mk('mem0', root), ('f', None, lf['key']))
        note_type(key, 'u128')
        for v, s in E.exec_function(b, [ref(root, ())], State(), E.cs_id(0, 'root', None)):
            self.chk('P36', eq(v, shr(key, I(64))), 'the price of an order is not the upper half of its key', b, st=s)


def run(P):
    return Wasm(P).run()
