"""P01-P04, P06, P07, P29, P30, P32, P34 on the instruction processors.

Every processor is interpreted from its entry with symbolic accounts. The bytes of an account are one object, typed views
are projections of byte ranges, so a read or write of account data is seen wherever it happens (inlined or in a helper).
The matching engine (OrderBookState::new_order) and the removal of an order enter by their contracts."""
from .common import *
from .. import effects

# account info fields (solana-program, pinned by Cargo.lock)
KEY, LAMPORTS, DATA, OWNER = 0, 1, 2, 3
SIGNER = 5
BOOKS = ('bids', 'asks')
TAGNAME = {'market': 'Market', 'event_queue': 'EventQueue', 'bids': 'Bids', 'asks': 'Asks'}
ERRNAME = {'market': 'Market', 'event_queue': 'EventQueue', 'bids': 'Bids', 'asks': 'Asks'}
BOUND = ('event_queue', 'bids', 'asks')

OPS = {
    # owner checked, address checked, tag required on success
    'new_order': (('market', 'event_queue', 'bids', 'asks'), BOUND, ('market', 'event_queue', 'bids', 'asks')),
    'cancel_order': (('market', 'event_queue', 'bids', 'asks'), BOUND, ('market', 'bids', 'asks')),
    'mass_cancel_orders': (('market', 'event_queue', 'bids', 'asks'), BOUND, ('market', 'bids', 'asks')),
    'consume_events': (('market', 'event_queue'), ('event_queue',), ('market', 'event_queue')),
    'close_market': (('market',), BOUND, ('market', 'event_queue', 'bids', 'asks')),
    'create_market': (('event_queue', 'bids', 'asks'), (), ('market', 'event_queue', 'bids', 'asks')),
}


def stepb(lo, hi, ty=None):
    return (('r', I(lo), I(hi)),) + ((('as', ty),) if ty else ())


class ProcRules(Rules):
    def __init__(self, P):
        super().__init__(P)
        self.mutated = {}
        self.signed = {}
        e = P.adt('AoError')
        if e is None:
            raise Unsupported('error type')
        self.code = {v[0]: v[1] for v in e.variants}
        t = P.adt('AccountTag')
        if t is None:
            raise Unsupported('account tags')
        self.tags = {v[0]: v[1] for v in t.variants}
        m = P.adt('MarketState')
        self.mi = {f[0]: i for i, f in enumerate(m.variants[0][2])}
        self.hl = {f[0]: i for i, f in enumerate(P.adt('SlabHeader').variants[0][2])}
        self.hq = {f[0]: i for i, f in enumerate(P.adt('EventQueueHeader').variants[0][2])}
        self.os = {f[0]: i for i, f in enumerate(P.adt('OrderSummary').variants[0][2])}

    def body(self, op):
        for b in effects.allbodies(self.P):
            if b.name == 'processor::%s::process' % op:
                return b
        raise Unsupported('no processor ' + op)

    def run(self):
        self.tagvalues()
        for op in OPS:
            self.op(op)
        self.spread()
        return self

    def tagvalues(self):
        used = ['Uninitialized', 'Market', 'EventQueue', 'Bids', 'Asks', 'Disabled']
        vals = [self.tags.get(x) for x in used]
        a = self.P.adt('AccountTag')
        self.out.append(('P03', None not in vals and len(set(vals)) == len(vals), 'two account states share a tag value', 'enum ' + a.path, self.P.name))
        self.out.append(('P03', self.tags.get('Uninitialized') == 0 and all(v is not None and 0 <= v < 256 for v in vals), 'a fresh account does not read as uninitialised, or a tag does not fit the tag byte', 'enum ' + a.path, self.P.name))

    # ------------------------------------------------------------ accounts
    def params(self, op):
        for a in (self.P.adts.values() if isinstance(self.P.adts, dict) else self.P.adts):
            if a.path.endswith(op + '::Params'):
                return a
        raise Unsupported('no Params of ' + op)

    def accounts(self, op):
        for a in (self.P.adts.values() if isinstance(self.P.adts, dict) else self.P.adts):
            if a.path.endswith(op + '::Accounts'):
                return a
        raise Unsupported('no Accounts of ' + op)

    def cell(self, E, acct, field):
        """root behind account.<field>: Rc<RefCell<&mut X>>"""
        st = State()
        r, p = E.target(acct)
        rc = E.read(st, r, tuple(p) + (('f', None, field),))
        r, p = E.target(rc)
        v = E.read(st, r, tuple(p) + (('cell',),))
        return E.target(v)[0], v

    def setup(self, E, op):
        a = self.accounts(op)
        self.acct = {f[0]: mk('sym', 'acct_' + f[0]) for f in a.variants[0][2]}
        self.pid = mk('sym', 'program_id')
        self.D = {n: self.cell(E, x, DATA)[0] for n, x in self.acct.items()}
        self.L = {n: self.cell(E, x, LAMPORTS)[0] for n, x in self.acct.items()}
        self.role = {r: n for n, r in self.D.items()}
        self.lrole = {r: n for n, r in self.L.items()}
        self.len = {n: mk('len', self.cell(E, x, DATA)[1]) for n, x in self.acct.items()}
        st = State()
        g = lambda n, f: E.deref(st, E.read(st, ('O', self.acct[n]), (('f', None, f),)))
        self.owner = {n: eq(g(n, OWNER), E.deref(st, self.pid)) for n in self.acct}
        mk_ = tuple(stepb(8, 0)[:0])
        self.rec = None
        md = mk('mem0', self.D['market'])
        self.msize = E.sizeof('MarketState').a[0]
        # the record is everything after the tag
        self.recpaths = [(('r', I(8), self.len['market']), ('as', 'MarketState')), stepb(8, 8 + self.msize, 'MarketState')]
        self.recs = [self.getm(md, p) for p in self.recpaths]
        self.key = {}
        for n in BOUND:
            if n in self.acct:
                k = g(n, KEY)
                self.key[n] = [eq(k, proj(rc, ('f', None, self.mi[n]))) for rc in self.recs]
        self.g = g
        return adt(a.path, 0, [self.acct[f[0]] for f in a.variants[0][2]])

    def getm(self, v, path):
        for p in path:
            v = proj(v, p)
        return v

    def tagterms(self, n, v=None):
        m = mk('mem0', self.D[n]) if v is None else v
        w = self.getm(m, stepb(0, 8, 'u64'))
        b = proj(m, ('i', ZERO))
        note_type(w, 'u64')
        note_type(b, 'u8')
        return w, b

    def tagis(self, st, n, val):
        return any(st.holds(eq(t, I(val))) for t in self.tagterms(n))

    def tagnot(self, st, n, val):
        return any(st.holds(neg(eq(t, I(val)))) for t in self.tagterms(n))

    def keyis(self, st, n):
        return any(st.holds(l) for l in self.key[n])

    def keynot(self, st, n):
        return any(st.holds(neg(l)) for l in self.key[n])

    def istag(self, path):
        if not path:
            return False
        p = path[0]
        if p[0] == 'i':
            return rng(p[1])[1] < 8
        if p[0] == 'r':
            return rng(p[2])[1] <= 8
        return False

    # ------------------------------------------------------------ one operation
    def op(self, op):
        b = self.body(op)
        owners, keys, tags = OPS[op]
        E = self.engine()
        acc = self.setup(E, op)
        want = {n: (self.tags['Uninitialized'] if op == 'create_market' else self.tags[TAGNAME[n]]) for n in TAGNAME}
        self.mut = set()

        def access(E, fr, st, root, path, span, write=False, vals=None):
            n = self.role.get(root)
            if n is None or n not in TAGNAME:
                return
            ev = lambda p, ok, m: E.event(fr, 'chk', (p, ok, m), st, span)
            for o in owners:
                if o in self.acct:
                    ev('P01', st.holds(self.owner[o]), 'account data is accessed before the owner of %s is known to be the program' % o)
            if n != 'market':
                for k in keys:
                    ev('P02', self.keyis(st, k), '%s data is accessed before the address of %s is known to be the recorded one' % (n, k))
            if write or not self.istag(path):
                ev('P03', self.tagis(st, n, want[n]), 'the %s account is %s before its tag is known to be that of its role' % (n, 'changed' if write else 'interpreted'))
            if write:
                old, new = vals
                same = new is old or tm_num(new) and tm_num(old) and st.holds(eq(new, old)) or self.istag(path) and new.op == 'int' and self.tagis(st, n, new.a[0])
                if not same:
                    E.event(fr, 'mut', (n,), st, span)
                    if n == 'market' and op != 'create_market' and not (op == 'close_market' and self.istag(path)):
                        ev('P34', False, 'the market record is modified')
                    if op == 'new_order' and n != 'market':
                        ev('P07', self.priceok(st), 'book or queue data changes before the limit price is validated')
                    if op in ('cancel_order', 'mass_cancel_orders') and n != 'market':
                        p = 'P29' if op == 'cancel_order' else 'P30'
                        ev(p, False, 'a cancellation changes %s data other than by removing the order' % n)
        cur = lambda E: E.cur
        ainfo = {('O', x): n for n, x in self.acct.items()}
        signed = self.signed[op] = set()

        def read(E, fr, st, root, path):
            if root in ainfo and path and path[0][0] == 'f' and path[0][2] == SIGNER:
                signed.add(ainfo[root])
            if fr is not None:
                access(E, fr, st, root, path, E.cur[1])
        E.on_read = read
        E.externs['check_signer'] = lambda E, fr, st, func, vals, tys, dty, span: signed.update(n for n, x in self.acct.items() if x is vals[0]) or None
        E.on_write = lambda E, fr, st, root, path, old, new: access(E, fr, st, root, path, E.cur[1], True, (old, new))

        def result(E, fr, st, func, res, dty, span):
            if not dty or last_seg(strip_ref(dty)) != 'Result' or not res or dty.strip().startswith('&'):
                return res
            out = []
            for v, s in res:
                if v.op == 'adt':
                    if v.a[1] == 1:
                        s = s.copy()
                        setG(s, '#failed', ONE)
                    out.append((v, s))
                    continue
                d = E.discr(v, dty)
                for k in (0, 1):
                    t = s.assume(eq(d, I(k)))
                    if t is not None:
                        t = t.copy()
                        if k:
                            setG(t, '#failed', ONE)
                        out.append((v, t))
            return out
        E.on_result = result
        self.anchors(E, op)
        pa = self.params(op)
        self.P_ = {f[0]: i for i, f in enumerate(pa.variants[0][2])}
        self.par = mk('sym', 'params')
        for f, i in self.P_.items():
            note_type(proj(self.par, ('f', None, i)), pa.variants[0][2][i][1])
        if op == 'new_order':
            self.price = proj(self.par, ('f', None, self.P_['limit_price']))
            self.tick = [proj(rc, ('f', None, self.mi['tick_size'])) for rc in self.recs]
            for t in self.tick:
                note_type(t, 'u64')
            self.post = i2b(proj(self.par, ('f', None, self.P_['post_allowed'])))
        args = [self.pid, acc] + ([self.par] if len(b.params) > 2 else [])
        st = State()
        for n in ('removed', 'base', 'quote'):
            setG(st, n, ZERO)
        if E.RANK is not None:
            st = self.wellformed(E, st, op == 'create_market')
        outs = []
        # orders that may be posted and orders that may not: two cases of the entry state
        for i, case in enumerate((self.post, neg(self.post)) if op == 'new_order' else (TRUE,)):
            s = st.assume(case)
            outs += E.exec_function(b, args, s, E.cs_id(0, 'root%d' % i, None))
        self.exits(E, b, op, outs, owners, keys, tags, want)
        for kind, data, st, fr, span in E.final_events('chk'):
            self.chk(data[0], data[1], data[2], fr.body, span)
        for kind, data, st, fr, span in E.final_events('mut'):
            self.mut.add(data[0])
        for v, st in outs:
            for root, path, x in changes(st):
                if root in self.lrole:
                    self.mut.add(self.lrole[root])
        self.mutated[op] = set(self.mut)
        self.bodies |= {x.name for x in E.analysed}

    def wellformed(self, E, st, fresh):
        """the accounts of an existing market: their tags, room for one element each, a tick size; fresh ones are just not empty"""
        if fresh:
            for n in TAGNAME:
                st = st.assume(le(ONE, self.len[n])) or st
            return st
        one = {'market': I(self.msize), 'event_queue': add(E.sizeof('EventQueueHeader'), add(E.sizeof('FillEvent'), mul(I(2), E.sizeof('C'))))}
        for n in TAGNAME:
            if n not in self.acct:
                continue
            for t in self.tagterms(n):
                st = st.assume(eq(t, I(self.tags[TAGNAME[n]]))) or st
            least = one.get(n) or add(E.sizeof('SlabHeader'), add(E.sizeof('LeafNode'), E.sizeof('C')))
            st = st.assume(le(add(I(8), least), self.len[n])) or st
        for rc in self.recs:
            t = proj(rc, ('f', None, self.mi['tick_size']))
            note_type(t, 'u64')
            st = st.assume(le(ONE, t)) or st
        return st

    def priceok(self, st):
        return any(st.holds(eq(rem(self.price, t), ZERO)) and self.postok(st, t) for t in self.tick)

    def postok(self, st, t):
        s = st.assume(self.post)
        # a positive multiple of the tick is at least one tick
        return s is None or s.holds(le(t, self.price)) or s.holds(neg(eq(self.price, ZERO)))

    def anchors(self, E, op):
        P = self.P
        self.book = {}
        if E.RANK is not None:
            # the best order of a book is one of its leaves
            S = Slabs(E, P)
            for kind in ('min', 'max'):
                b = P.find('Slab', 'find_' + kind)
                if b is not None:
                    E.anchors[id(b)] = S.h_find(kind)
        if op == 'new_order':
            b = P.find('OrderBookState', 'new_order')
            if b is None:
                raise Unsupported('no OrderBookState::new_order')
            oa = P.adt('OrderBookState')
            oi = {f[0]: i for i, f in enumerate(oa.variants[0][2])}
            qa = {f[0]: i for i, f in enumerate(P.adt('EventQueue').variants[0][2])}
            sa = {f[0]: i for i, f in enumerate(P.adt('Slab').variants[0][2])}

            def h(E, fr, st, vals, tys, dty, span):
                ev = lambda p, ok, m: E.event(fr, 'chk', (p, ok, m), st, span)
                ev('P07', self.priceok(st), 'an order is executed before its limit price is validated')
                ev('P32', st.mem.get(('G', '#failed')) is None, 'an order is executed after a failed check')
                pv = vals[1] if vals[1].op != 'ref' else E.deref(st, vals[1])
                ev('P14', pv is self.par or all(proj(pv, ('f', None, i)) is proj(self.par, ('f', None, i)) for i in self.P_.values()), 'the order executed is not the one requested')
                ev('P14', any(st.holds(eq(vals[3], proj(rc, ('f', None, self.mi['min_base_order_size'])))) for rc in self.recs), 'the minimum order size enforced is not the market\'s')
                ob = E.deref(st, vals[0])
                for tree in BOOKS:
                    hd = proj(proj(ob, ('f', None, oi[tree])), ('f', None, sa['header']))
                    ev('P02', hd.op == 'ref' and hd.a[0] == self.D[tree], 'the %s of the order book are not those of the %s account' % (tree, tree))
                    E.event(fr, 'mut', (tree,), st, span)
                q = E.deref(st, vals[2])
                hd = proj(q, ('f', None, qa['header']))
                ev('P02', hd.op == 'ref' and hd.a[0] == self.D['event_queue'], 'the queue events go to is not that of the event queue account')
                E.event(fr, 'mut', ('event_queue',), st, span)
                ev('P32', G(st, '#orders') is ZERO, 'the order is executed more than once')
                out = []
                for k in (0, 1):
                    s = st.copy()
                    setG(s, '#orders', ONE)
                    out.append((OK(mk('sym', 'summary')) if k == 0 else ERR(mk('sym', 'order error')), s))
                return out
            E.anchors[id(b)] = h
        if op in ('cancel_order', 'mass_cancel_orders'):
            prop = 'P29' if op == 'cancel_order' else 'P30'
            S = Slabs(E, P)
            la = P.adt('LeafNode')
            b = P.find('Slab', 'remove_by_key')
            if b is None:
                raise Unsupported('no Slab::remove_by_key')

            def h(E, fr, st, vals, tys, dty, span):
                out = []
                for c, slab in self.branches(st, vals[0]):
                    hd = S.fref(c, slab, 'header')
                    r = E.target(hd)[0]
                    side = self.role.get(r)
                    ev = lambda p, ok, m: E.event(fr, 'chk', (p, ok, m), c, span)
                    key = vals[1]
                    flag = band(key, I(1 << 63))
                    ok = side == 'bids' and c.holds(neg(eq(flag, ZERO))) or side == 'asks' and c.holds(eq(flag, ZERO))
                    ev(prop, ok, 'an order is looked for on a side other than the one its id denotes')
                    n = G(c, 'removed')
                    ids = proj(self.par, ('f', None, self.P_['order_id' if op == 'cancel_order' else 'order_ids']))
                    if op == 'mass_cancel_orders':
                        item = proj(proj(ids, ('f', None, 0)), ('i', n))
                    else:
                        item = ids
                        ev(prop, n is ZERO, 'more than one order is removed')
                    note_type(item, 'u128')
                    ev(prop, c.holds(eq(key, item)), 'the order removed is not the one listed')
                    E.event(fr, 'mut', (side or '?',), c, span)
                    s = c.copy()
                    setG(s, '#absent', ONE)
                    setG(s, '#failed', ONE)
                    out.append((NONE, s))
                    s = c.copy()
                    lf = mk('sym', 'removed order', fr.cs, fr.at)
                    E.stale(s, lf)
                    q = proj(lf, ('f', None, S.li['base_quantity']))
                    note_type(q, 'u64')
                    s = s.assume(eq(S.keyof(lf), key)) or s
                    setG(s, 'base', add(G(s, 'base'), q))
                    m = mk('app', 'mulfloor', q, shr(key, I(64)))
                    note_type(m, 'u64')
                    setG(s, 'quote', add(G(s, 'quote'), m))
                    setG(s, 'removed', addc(G(s, 'removed'), 1))
                    out.append((SOME(adt('(,)', 0, (lf, mk('sym', 'callback of', fr.cs, fr.at)))), s))
                return out
            E.anchors[id(b)] = h
            for m in ('remove_min', 'remove_max', 'insert_leaf'):
                bb = P.find('Slab', m)
                if bb is not None:
                    E.anchors[id(bb)] = lambda E, fr, st, vals, tys, dty, span, m=m: E.event(fr, 'chk', (prop, False, 'a cancellation calls ' + m), st, span) or []
            bb = self.need('EventQueue', 'push_back')
            E.anchors[id(bb)] = lambda E, fr, st, vals, tys, dty, span: E.event(fr, 'chk', (prop, False, 'a cancellation enqueues an event'), st, span) or []

            def fp(name):
                def f(E, fr, st, func, vals, tys, dty, span):
                    a, bq = vals
                    x, s0 = None, st.copy()
                    for y, z in ((a, bq), (bq, a)):
                        pass
                    # the price of the order: upper half of its id
                    m = mk('app', name, a, self.normprice(s0, S, bq))
                    note_type(m, 'u64')
                    s1 = st.copy()
                    setG(s1, '#failed', ONE)
                    return [(SOME(m), s0), (NONE, s1)]
                return f
            E.externs['fp32_mul_floor'] = fp('mulfloor')
            E.externs['fp32_mul_ceil'] = fp('mulceil')
            E.externs['fp32_div'] = fp('fpdiv')

            def on_add(E, fr, st, a, bq, ty):
                if ty not in ('u64', 'usize'):
                    return
                t = add(a, bq)
                ok = rng(t)[1] <= U[64] or st.holds(le(t, I(U[64])))
                if any(x.op in ('app',) and x.a[0] in ('mulfloor', 'mulceil') or x.op == 'sym' and x.a[0] == 'removed order' for x in subterms(t)):
                    E.event(fr, 'chk', (prop, ok, 'the reported sum may wrap'), st, E.cur[1])
            E.on_add = on_add

    def normprice(self, st, S, p):
        """the upper half of the id of the order removed last, whichever way it is written"""
        lf = None
        for x in subterms(p):
            if x.op == 'sym' and x.a[0] == 'removed order':
                lf = x
        if lf is not None:
            k = S.keyof(lf)
            if st.holds(eq(p, shr(k, I(64)))):
                for l in st.facts:
                    pass
                return self.same(st, k, p)
        return p

    def same(self, st, k, p):
        """shr(key) for the key equal to k"""
        ids = proj(self.par, ('f', None, self.P_.get('order_id', self.P_.get('order_ids'))))
        cands = [ids, proj(proj(ids, ('f', None, 0)), ('i', addc(G(st, 'removed'), -1)))]
        for c in cands:
            if st.holds(eq(k, c)):
                return shr(c, I(64))
        return p

    def branches(self, st, v):
        if v.op == 'ite':
            out = []
            for c, x in ((v.a[0], v.a[1]), (neg(v.a[0]), v.a[2])):
                s = st.assume(c)
                if s is not None:
                    out += self.branches(s, x)
            return out
        return [(st.copy(), v)]

    # ------------------------------------------------------------ exits
    def errcode(self, v):
        """(variant, code) of a determined error result"""
        if v.op == 'adt' and v.a[1] == 1:
            e = v.a[2][0]
            if e.op == 'adt' and e.a[0].endswith('ProgramError'):
                return e.a[1], e.a[2][0].a[0] if e.a[2] and e.a[2][0].op == 'int' else None
            return '?', None
        return None

    def iserr(self, st, v):
        if v.op == 'adt':
            return v.a[1] == 1
        return st.holds(eq(mk('discr', v), ONE))

    def exits(self, E, b, op, outs, owners, keys, tags, want):
        c = lambda p, ok, m, s=None: self.chk(p, ok, m, b, st=s)
        oks = errs = 0
        for v, s in outs:
            err = self.iserr(s, v)
            ok = v.op == 'adt' and v.a[1] == 0
            code = self.errcode(v)
            num = code[1] if code and code[0] == 'Custom' else None
            if not err and not ok:
                c('P32', False, 'the outcome of the instruction is not determined')
            oks += ok
            # owners
            bad = [o for o in owners if s.holds(neg(self.owner[o]))]
            good = all(s.holds(self.owner[o]) for o in owners)
            if ok:
                c('P01', good, 'the instruction succeeds without all owner checks')
            if bad:
                c('P01', num in [self.code.get('Wrong%sOwner' % ERRNAME[o]) for o in bad], 'an account of a wrong owner is not reported by its error')
            for o in TAGNAME:
                if num is not None and num == self.code.get('Wrong%sOwner' % ERRNAME[o]):
                    c('P01', o in bad, 'the owner error of %s is returned although its owner is the program' % o)
            # addresses
            bad = [k for k in keys if self.keynot(s, k)]
            if ok:
                c('P02', all(self.keyis(s, k) for k in keys), 'the instruction succeeds without all address checks')
            if bad:
                c('P02', num in [self.code.get('Wrong%sAccount' % ERRNAME[k]) for k in bad], 'an account at a wrong address is not reported by its error')
            for k in keys:
                if num is not None and num == self.code.get('Wrong%sAccount' % ERRNAME[k]):
                    c('P02', k in bad, 'the address error of %s is returned although its address is the recorded one' % k)
            # tags
            for n in tags:
                if ok:
                    c('P03', self.tagis(s, n, want[n]), 'the instruction succeeds without the tag of %s being that of its role' % n)
                elif self.tagnot(s, n, want[n]):
                    c('P03', not [1 for r, p, x in changes(s) if r == self.D[n]], 'an account of a wrong type is modified')
            if ok:
                c('P32', s.mem.get(('G', '#failed')) is None, 'the instruction succeeds although a step failed')
            getattr(self, 'x_' + op)(E, b, v, s, ok, err, num, c)
        c('P32', oks > 0, 'the instruction never succeeds')

    def x_new_order(self, E, b, v, s, ok, err, num, c):
        bad = any(s.holds(neg(eq(rem(self.price, t), ZERO))) for t in self.tick)
        low = s.holds(self.post) and any(s.holds(lt(self.price, t)) for t in self.tick)
        if bad or low:
            c('P07', num == self.code.get('InvalidLimitPrice'), 'an invalid limit price is not reported by its error')
        if ok:
            c('P07', self.priceok(s), 'an order of invalid limit price succeeds')
            c('P32', v.a[2][0] is mk('sym', 'summary'), 'the summary returned is not that of the order')
            c('P32', G(s, '#orders') is ONE, 'the instruction succeeds without executing the order')

    def summary(self, b, v, s, c, prop, base, quote):
        r = v.a[2][0]
        f = lambda n: proj(r, ('f', None, self.os[n]))
        pid = f('posted_order_id')
        c(prop, pid.op == 'adt' and pid.a[1] == 0, 'a cancellation reports an order id')
        c(prop, eq(f('total_base_qty_posted'), ZERO), 'a cancellation reports a posted quantity', s)
        c(prop, eq(f('total_base_qty'), base), 'the base reported is not what was left of the orders removed', s)
        c(prop, eq(f('total_quote_qty'), quote), 'the quote reported is not the base left at each order\'s own price, rounded down', s)
        c('P13', eq(f('total_quote_qty'), quote), 'the amount a cancellation reports is not rounded down', s)

    def absent(self, s, ok, num, c, prop):
        if s.mem.get(('G', '#absent')) is not None:
            c(prop, num == self.code.get('OrderNotFound'), 'an order that is not resting is not reported by its error')

    def x_cancel_order(self, E, b, v, s, ok, err, num, c):
        self.absent(s, ok, num, c, 'P29')
        if ok:
            c('P29', G(s, 'removed') is ONE, 'a cancellation succeeds without removing the order')
            self.summary(b, v, s, c, 'P29', G(s, 'base'), G(s, 'quote'))

    def x_mass_cancel_orders(self, E, b, v, s, ok, err, num, c):
        self.absent(s, ok, num, c, 'P30')
        if ok:
            ids = proj(self.par, ('f', None, self.P_['order_ids']))
            c('P30', eq(G(s, 'removed'), proj(ids, ('f', None, 1))), 'not every listed order is removed', s)
            self.summary(b, v, s, c, 'P30', G(s, 'base'), G(s, 'quote'))

    def header(self, E, n):
        lo = 8
        ty = 'SlabHeader' if n in BOOKS else 'EventQueueHeader'
        return stepb(lo, lo + E.sizeof(ty).a[0], ty)

    def advanced(self, s, h, to, syms):
        """h is to, or to reduced by a capacity (that the reduction is right is decided on the queue operation itself)"""
        if h.op == 'ite':
            a, b = s.assume(h.a[0]), s.assume(neg(h.a[0]))
            return (a is None or self.advanced(a, h.a[1], to, syms)) and (b is None or self.advanced(b, h.a[2], to, syms))
        if h.op == 'rem':
            return self.advanced(s, h.a[0], to, syms)
        if s.holds(eq(h, to)):
            return True
        d = sub(to, h)
        return d.op != 'int' and not any(occurs(x, d) for x in syms)

    def x_consume_events(self, E, b, v, s, ok, err, num, c):
        if not ok:
            return
        D = self.D['event_queue']
        hp = self.header(E, 'event_queue')
        f = lambda m, n: self.getm(m, hp + (('f', None, self.hq[n]),))
        m0, m1 = mk('mem0', D), E.rd_root(s, D)
        cnt, head = f(m0, 'count'), f(m0, 'head')
        note_type(cnt, 'u64')
        note_type(head, 'u64')
        n = tmin(cnt, proj(self.par, ('f', None, self.P_['number_of_entries_to_consume'])))
        c('P23', eq(f(m1, 'count'), sub(cnt, n)), 'consuming does not remove as many events as were asked for and present', s)
        h1 = f(m1, 'head')
        c('P23', self.advanced(s, h1, add(head, n), (head, cnt)), 'consuming does not advance the head past the events removed', s)
        c('P23', not unexpected(s, [(D, hp + (('f', None, self.hq[k]),)) for k in ('count', 'head')] + [(self.D[k], stepb(0, 8, 'u64')) for k in ('market', 'event_queue')]), 'consuming changes something else')

    def x_close_market(self, E, b, v, s, ok, err, num, c):
        four = ('market', 'event_queue', 'bids', 'asks')
        if ok:
            for n in BOOKS:
                q = self.getm(mk('mem0', self.D[n]), self.header(E, n) + (('f', None, self.hl['leaf_count']),))
                c('P04', eq(q, ZERO), 'a market closes while the %s may hold orders' % n, s)
            q = self.getm(mk('mem0', self.D['event_queue']), self.header(E, 'event_queue') + (('f', None, self.hq['count']),))
            c('P04', eq(q, ZERO), 'a market closes while the event queue may hold events', s)
            for n in four:
                t = self.tagterms(n, E.rd_root(s, self.D[n]))
                c('P04', any(x is I(self.tags['Disabled']) for x in t), 'the %s account is not disabled by closing' % n)
                c('P03', any(x is I(self.tags['Disabled']) for x in t), 'the %s account is not disabled by closing' % n)
            lam = lambda n, m=None: (mk('mem0', self.L[n]) if m is None else E.rd_root(m, self.L[n]))
            for n in four:
                c('P04', lam(n, s) is ZERO, 'the %s account keeps lamports after closing' % n)
            tot = lam('lamports_target_account')
            for n in four:
                tot = add(tot, lam(n))
            c('P04', eq(lam('lamports_target_account', s), tot), 'the target does not gain the sum of the four balances', s)
            allowed = [(self.L[n], ()) for n in self.acct] + [(self.D[n], p) for n in four for p in (stepb(0, 8, 'u64'), (('i', ZERO),))]
            c('P04', not unexpected(s, allowed), 'closing changes something else')
        else:
            for r, p, x in changes(s):
                old = self.getm(mk('mem0', r), p)
                c('P04', eq(x, old), 'an account changes although the market is not closed', s)

    def x_create_market(self, E, b, v, s, ok, err, num, c):
        if not ok:
            return
        for n in ('market', 'event_queue', 'bids', 'asks'):
            d = [l for l in s.facts if any(x.op == 'app' and 'rent_exempt' in str(x.a[0]) and any(y is self.acct[n] or y is E.deref(s, self.acct[n]) for y in x.a[1:]) for x in subterms(l))]
            ok_ = any(s.holds(eq(mk('discr', x), ZERO)) for l in d for x in subterms(l) if x.op == 'app' and 'rent_exempt' in str(x.a[0]) and any(y is self.acct[n] or y is E.deref(s, self.acct[n]) for y in x.a[1:]))
            c('P06', ok_, 'a market is created although the %s account may not be rent exempt' % n)
            t = self.tagterms(n, E.rd_root(s, self.D[n]))
            c('P03', any(x is I(self.tags[TAGNAME[n]]) for x in t), 'market creation does not stamp the %s account with its tag' % n)
        for f in ('min_base_order_size', 'tick_size'):
            c('P06', neg(eq(proj(self.par, ('f', None, self.P_[f])), ZERO)), 'a market is created with a zero ' + f, s)
        c('P06', eq(self.len['market'], I(8 + self.msize)), 'the market account may not have exactly the market size', s)
        C = E.sizeof('C')
        slot = add(E.sizeof('FillEvent'), mul(I(2), C))
        hdr = add(I(8), E.sizeof('EventQueueHeader'))
        n = self.len['event_queue']
        c('P06', le(add(hdr, mul(I(5), slot)), n), 'the event queue may be smaller than five slots', s)
        c('P06', eq(rem(sub(n, hdr), slot), ZERO), 'the event queue may not hold a whole number of slots', s)
        m = E.rd_root(s, self.D['market'])
        want = {k: self.g(k, KEY) for k in BOUND}
        want.update({f: proj(self.par, ('f', None, self.P_[f])) for f in ('min_base_order_size', 'tick_size')})
        recs = [self.getm(m, p) for p in self.recpaths]
        for f, w in want.items():
            c('P06', any(s.holds(eq(proj(r, ('f', None, self.mi[f])), w)) for r in recs), 'the market record does not hold the supplied ' + f)

    # ------------------------------------------------------------ the exported spread query
    def spread(self):
        P = self.P
        b = P.find('', 'get_spread')
        gs = P.find('OrderBookState', 'get_spread')
        if b is None or gs is None:
            return
        E = self.engine()
        acc = [mk('sym', 'acct_bids'), mk('sym', 'acct_asks')]
        D = [self.cell(E, x, DATA)[0] for x in acc]
        oi = {f[0]: i for i, f in enumerate(P.adt('OrderBookState').variants[0][2])}
        sa = {f[0]: i for i, f in enumerate(P.adt('Slab').variants[0][2])}
        done = []

        def h(E, fr, st, vals, tys, dty, span):
            ob = E.deref(st, vals[0])
            for tree, d in zip(BOOKS, D):
                hd = proj(proj(ob, ('f', None, oi[tree])), ('f', None, sa['header']))
                E.event(fr, 'chk', ('P27', hd.op == 'ref' and hd.a[0] == d, 'the spread is computed over the wrong accounts'), st, span)
            done.append(1)
            return [(mk('sym', 'spread'), st)]
        E.anchors[id(gs)] = h
        st = State()
        if E.RANK is not None:
            for d, n, x in zip(D, BOOKS, acc):
                b0 = proj(mk('mem0', d), ('i', ZERO))
                note_type(b0, 'u8')
                st = st.assume(eq(b0, I(self.tags[TAGNAME[n]]))) or st
                least = add(add(I(8), E.sizeof('SlabHeader')), add(E.sizeof('LeafNode'), E.sizeof('C')))
                st = st.assume(le(least, mk('len', self.cell(E, x, DATA)[1]))) or st
        for v, s in E.exec_function(b, acc, st, E.cs_id(0, 'root', None)):
            self.chk('P27', v is mk('sym', 'spread'), 'the spread returned is not that of the book', b)
            self.chk('P34', not unexpected(s, ()), 'reading the spread changes the book', b)
        for kind, data, st, fr, span in E.final_events('chk'):
            self.chk(data[0], data[1], data[2], fr.body, span)
        self.done(E)


def tm_num(v):
    return v.op in ('int', 'lin', 'pj', 'phi', 'sym', 'app', 'ite', 'min', 'max', 'div', 'rem')


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if t in seen:
        return
    seen.add(t)
    yield t
    for x in t.a:
        yield from _subs(x, seen)


def _subs(x, seen):
    if type(x) is T:
        yield from subterms(x, seen)
    elif type(x) is tuple:
        for y in x:
            yield from _subs(y, seen)


def run(P):
    return ProcRules(P).run()
