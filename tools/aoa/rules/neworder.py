"""P08-P20, P22, P33 on OrderBookState::new_order, for every combination of side, self-trade policy and posting flags."""
from ..terms import *
from ..engine import *
from ..ob import *
from .. import effects

FP = 'bonfida_utils::fp_math::'


def mulname(side):
    return FP + ('fp32_mul_ceil' if side == 'Bid' else 'fp32_mul_floor')


class NewOrder:
    def __init__(self, P, side, policy, post_only, post_allowed):
        self.P, self.side, self.policy, self.po, self.pa = P, side, policy, post_only, post_allowed
        self.name = '%s/%s/post_only=%s/post_allowed=%s/%s' % (side, policy, post_only, post_allowed, P.name)
        self.exits = []

    # ------------------------------------------------------------ set-up
    def run(self):
        P = self.P
        E = self.E = Engine(P)
        S = self.S = Slabs(E, P)
        Q = self.Q = Queue(E, P)
        S.install(E.anchors)
        Q.install(E.anchors)
        S.on_remove, S.on_insert, Q.on_push = self.on_remove, self.on_insert, self.on_push
        E.on_write, E.on_edge = self.on_write, self.on_edge
        self.divs = {}
        for n in ('fp32_mul_ceil', 'fp32_mul_floor'):
            E.externs[n] = self.h_mul
        E.externs['fp32_div'] = self.h_div
        b = P.find('OrderBookState', 'new_order')
        if b is None:
            raise Unsupported('no OrderBookState::new_order')
        self.me, self.q = mk('sym', 'book'), mk('sym', 'queue')
        sd, stb = P.adt('Side'), P.adt('SelfTradeBehavior')
        self.sidev = adt(sd.path, sd.vidx(self.side), ())
        self.sided = {n: I(sd.variants[sd.vidx(n)][1]) for n in ('Bid', 'Ask')}
        vals = {'side': self.sidev, 'self_trade_behavior': adt(stb.path, stb.vidx(self.policy), ()),
                'post_only': TRUE if self.po else FALSE, 'post_allowed': TRUE if self.pa else FALSE}
        pa = [a for a in P.adts.values() if a.path.split('::')[-1] == 'Params' and any(f[0] == 'match_limit' for f in a.variants[0][2])]
        if len(pa) != 1:
            raise Unsupported('parameters of new_order')
        pa = pa[0]
        self.p = {}
        fs = []
        for f, t in pa.variants[0][2]:
            v = vals.get(f)
            if v is None:
                v = mk('sym', f)
                note_type(v, t)
            self.p[f] = v
            fs.append(v)
        self.params = adt(pa.path, 0, fs)
        args = []
        self.minq = None
        for n, t in b.params:
            l = last_seg(strip_generics(t))
            if l == 'OrderBookState':
                args.append(self.me)
            elif l == 'EventQueue':
                args.append(self.q)
            elif l == 'Params':
                args.append(self.params)
            elif t == 'u64':
                self.minq = mk('sym', 'min_base_order_size')
                note_type(self.minq, 'u64')
                args.append(self.minq)
            else:
                raise Unsupported('parameter type ' + t)
        ob = P.adt('OrderBookState')
        fi = {f[0]: i for i, f in enumerate(ob.variants[0][2])}
        self.slab = {n: ref(('O', self.me), (('f', None, fi[n]),)) for n in ('bids', 'asks')}
        self.own, self.opp = (self.slab['bids'], self.slab['asks']) if self.side == 'Bid' else (self.slab['asks'], self.slab['bids'])
        self.oppside = 'Ask' if self.side == 'Bid' else 'Bid'
        self.bestk, self.worstk = ('min', 'min') if self.side == 'Bid' else ('max', 'max')
        qa = P.adt('EventQueue')
        qh = P.adt('EventQueueHeader')
        qi = {f[0]: i for i, f in enumerate(qa.variants[0][2])}
        hi = {f[0]: i for i, f in enumerate(qh.variants[0][2])}
        st = State()
        self.seqpath = (('f', None, qi['header']),), (('f', None, hi['seq_num']),)
        self.seq0 = self.seq(st)
        note_type(self.seq0, 'u64')
        for g in ('sb', 'sq', 'cnt', 'owed', '#tr', '#rm', '#an', '#posted', '#full', '#qfull', '#cb', '#stop', '#ev', '#small', '#left', '#self'):
            setG(st, g, ZERO)
        st.mem[('G', 'postq')] = ZERO
        self.body = b
        self.exits = E.exec_function(b, args, st, E.cs_id(0, 'root', None))
        for v, s in self.exits:
            self.at_exit(v, s)

    def seq(self, st):
        r, p = self.E.target(self.q)
        h = self.E.read(st, r, tuple(p) + self.seqpath[0])
        r, p = self.E.target(h)
        return self.E.read(st, r, tuple(p) + self.seqpath[1])

    # ------------------------------------------------------------ helpers
    def chk(self, fr, st, prop, cond, msg, span=''):
        ok = st.holds(cond) if type(cond) is T else bool(cond)
        self.E.event(fr, 'chk', (prop, ok, msg), st, span)
        return ok

    def best(self, st):
        return self.S.best(st, self.opp, self.bestk)

    def crosses(self, price):
        return le(price, self.p['limit_price']) if self.side == 'Bid' else le(self.p['limit_price'], price)

    def better(self, price):
        """the limit price is strictly better than the price of a resting order of the own side"""
        return lt(price, self.p['limit_price']) if self.side == 'Bid' else lt(self.p['limit_price'], price)

    def h_mul(self, E, fr, st, func, vals, tys, dty, span):
        r = mk('app', strip_generics(func), *vals)
        out = []
        d = E.discr(r, 'Option')
        s = st.assume(eq(d, ZERO))
        # what a quantity of quote buys is worth at most that: its conversion succeeds
        if s is not None and not (E.RANK is not None and any(
                st.holds(le(vals[0], ite(eq(E.discr(dv, 'Option'), ONE), proj(dv, ('f', 1, 0)), I((1 << 64) - 1)))) for q, dv in self.divs.get(vals[1], ()))):
            out.append((NONE, s))
        s = st.assume(eq(d, ONE))
        if s is not None:
            v = proj(r, ('f', 1, 0))
            note_type(v, 'u64')
            # contract of the fixed-point library: x <= div(q, p) implies mul(x, p) <= q (also when the division has no result)
            for q, dv in self.divs.get(vals[1], ()):
                bound = ite(eq(E.discr(dv, 'Option'), ONE), proj(dv, ('f', 1, 0)), I((1 << 64) - 1))
                if s.holds(le(vals[0], bound)):
                    n = s.assume(le(v, q))
                    if n is None:
                        return out
                    s = n
            out.append((SOME(v), s))
        return out

    def h_div(self, E, fr, st, func, vals, tys, dty, span):
        r = mk('app', strip_generics(func), *vals)
        l = self.divs.setdefault(vals[1], [])
        if (vals[0], r) not in l:
            l.append((vals[0], r))
        out = []
        d = E.discr(r, 'Option')
        s = st.assume(eq(d, ZERO))
        if s is not None:
            out.append((NONE, s))
        s = st.assume(eq(d, ONE))
        if s is not None:
            v = proj(r, ('f', 1, 0))
            note_type(v, 'u64')
            out.append((SOME(v), s))
        return out

    def divs_or_max(self, q, p):
        r = mk('app', FP + 'fp32_div', q, p)
        d = self.E.discr(r, 'Option')
        v = proj(r, ('f', 1, 0))
        note_type(v, 'u64')
        return ite(eq(d, ONE), v, I((1 << 64) - 1))

    def mul(self, x, p):
        r = mk('app', mulname(self.side), x, p)
        v = proj(r, ('f', 1, 0))
        note_type(v, 'u64')
        return self.E.discr(r, 'Option'), v

    def topost(self, st):
        return tmin(self.divs_or_max(sub(self.p['max_quote_qty'], G(st, 'sq')), self.p['limit_price']), sub(self.p['max_base_qty'], G(st, 'sb')))

    def cbid(self, cb):
        return cb

    def field(self, ev, name):
        a = self.P.adt(ev.a[0]) if ev.op == 'adt' else None
        if a is None:
            return mk('app', 'field ' + name, ev)
        i = [f[0] for f in a.variants[0][2]].index(name)
        return ev.a[2][i] if ev.op == 'adt' else proj(ev, ('f', None, i))

    def cbval(self, st, slab, h):
        return self.E.deref(st, self.S.cbref(st, slab, h))

    def same_id(self, st, a, b):
        """literal: the two callback infos have the same identity"""
        return eq(self.ident(st, a), self.ident(st, b))

    def ident(self, st, v):
        return self.E.deref(st, mk('app', 'as_callback_id', v))

    # ------------------------------------------------------------ hooks
    def on_push(self, E, fr, st, ety, ev, mcb, tcb, span):
        S = self.S
        if ety == 'FillEvent':
            self.settle(E, fr, st, span)
            h = self.best(st)
            lf = S.leaf(st, self.opp, h)
            key, price, qty = S.keyof(lf), S.price(lf), S.qty(st, self.opp, h)
            base, quote = self.field(ev, 'base_size'), self.field(ev, 'quote_size')
            mid = S.u128(self.field(ev, 'maker_order_id'))
            sb, sq, owed = G(st, 'sb'), G(st, 'sq'), G(st, 'owed')
            c = lambda p, l, m: self.chk(fr, st, p, l, m, span)
            c('P08', not self.po, 'a post-only order records a fill')
            c('P08', self.crosses(price), 'a fill is recorded although the limit price may not reach the maker price')
            ne = neg(eq(S.header(st, self.opp, 'leaf_count'), ZERO))
            c('P09', conj(eq(mid, key)), 'the fill does not name the best order of the opposite book as the maker')
            c('P10', eq(self.field(ev, 'taker_side'), self.sided[self.side]), 'the taker side of the fill is not the side of the order')
            c('P10', eq(mid, key), 'the maker order id of the fill is not that of the order whose quantity is reduced')
            c('P10', mcb is not None and eq(mcb, self.cbval(st, self.opp, h)), 'the maker callback information of the fill is not that of the maker order')
            c('P10', tcb is not None and eq(tcb, self.p['callback_info']), 'the taker callback information of the fill is not that of the order')
            c('P10', eq(owed, ZERO) if owed.op == 'int' and owed.a[0] == 0 else eq(owed, lincomb((-1, base))), 'the resting quantity was reduced by something else than the filled base')
            c('P11', le(ONE, base), 'a fill of zero base may be recorded')
            c('P11', le(ONE, quote), 'a fill of zero quote may be recorded')
            c('P11', le(base, sub(qty, owed)), 'a fill may exceed the resting quantity')
            c('P11', le(add(sb, base), self.p['max_base_qty']), 'the base traded may exceed the base cap')
            c('P11', le(add(sq, quote), self.p['max_quote_qty']), 'the quote traded may exceed the quote cap')
            d, v = self.mul(base, price)
            ex = tmin(v, sub(self.p['max_quote_qty'], sq))
            c('P13', eq(d, ONE), 'a fill is recorded although the base-to-quote conversion of its direction was not found to succeed')
            ok = c('P13', eq(quote, ex), 'the quote of the fill is not the base converted at the maker price with the rounding of the taker side, capped by the remaining quote')
            if not ok:
                # which price was used?
                anyp = False
                for n in ('fp32_mul_ceil', 'fp32_mul_floor'):
                    x = proj(mk('app', FP + n, base, price), ('f', 1, 0))
                    if st.holds(eq(quote, tmin(x, sub(self.p['max_quote_qty'], sq)))) or st.holds(eq(quote, x)):
                        anyp = True
                c('P09', anyp, 'the quote of the fill is not computed at the price of the maker order')
            else:
                # the cap by the remaining quote must never lower the quote: the base is bounded by what the remaining quote buys
                c('P09', eq(quote, v), 'the quote of the fill may be less than the filled base is worth at the maker price')
            c('P15', lt(G(st, 'cnt'), self.p['match_limit']), 'a fill is recorded although the match limit may be used up')
            if self.policy != 'DecrementTake':
                c('P16', neg(self.same_id(st, self.p['callback_info'], self.cbval(st, self.opp, h))), 'a fill is recorded against an order of the same identity under ' + self.policy)
            else:
                c('P16', True, '')
            c('P10', eq(G(st, '#an'), ZERO), 'a removal was announced but the order was not removed')
            setG(st, 'sb', add(sb, base))
            setG(st, 'sq', add(sq, quote))
            setG(st, 'cnt', addc(G(st, 'cnt'), 1))
            setG(st, 'owed', add(owed, base))
            setG(st, '#tr', ONE)
            setG(st, 'rem', sub(qty, G(st, 'owed')))
            return
        if ety == 'OutEvent':
            side, oid, base = self.field(ev, 'side'), S.u128(self.field(ev, 'order_id')), self.field(ev, 'base_size')
            c = lambda l, m: self.chk(fr, st, 'P19', l, m, span)
            if G(st, '#rm') is ONE:
                c(eq(side, G(st, 'rmside')), 'the out event does not carry the side of the removed order')
                c(eq(oid, G(st, 'rmkey')), 'the out event does not carry the id of the removed order')
                c(eq(base, G(st, 'rmqty')), 'the out event does not carry the remaining quantity of the removed order')
                c(mcb is not None and eq(mcb, G(st, 'rmcb')), 'the out event does not carry the callback information of the removed order')
                setG(st, '#rm', ZERO)
                for g in ('rmside', 'rmkey', 'rmqty', 'rmcb'):
                    setG(st, g, ZERO)
            else:
                c(G(st, '#an') is ZERO, 'two out events without a removal between them')
                setG(st, '#an', ONE)
                setG(st, 'anside', side)
                setG(st, 'ankey', oid)
                setG(st, 'anqty', base)
                setG(st, 'ancb', mcb if mcb is not None else UNDEF)
            return
        self.chk(fr, st, 'P10', False, 'an event of unknown kind is enqueued', span)

    def on_remove(self, E, fr, st, slab, key, h, sure, lf, span):
        S = self.S
        c = lambda p, l, m: self.chk(fr, st, p, l, m, span)
        c('P19', G(st, '#rm') is ZERO, 'an order is removed before the previous removal was announced')
        qty = S.qty(st, slab, h)
        if slab is self.opp:
            b = self.best(st)
            c('P09', sure and eq(h, b), 'an order other than the best opposite one is removed')
            if G(st, '#tr') is ONE:
                rem = G(st, 'rem')
                c('P17', lt(rem, self.minq), 'a maker order is removed although its remainder may be at least the minimum size')
                qty = rem
                setG(st, '#tr', ZERO)
                setG(st, 'owed', ZERO)
                setG(st, 'rem', ZERO)
            else:
                c('P10', eq(G(st, 'owed'), ZERO), 'a resting quantity was changed without a fill')
                c('P08', not self.po, 'a post-only order removes a resting order of the other side')
                c('P16', self.policy == 'CancelProvide', 'a resting order is removed without a fill although the self-trade policy is ' + self.policy)
                c('P16', self.same_id(st, self.p['callback_info'], self.cbval(st, slab, h)), 'a resting order of another identity is removed')
                c('P16', self.crosses(S.price(lf)), 'a resting order that would not have been matched is removed')
                c('P15', lt(G(st, 'cnt'), self.p['match_limit']), 'a resting order is removed although the match limit may be used up')
                setG(st, 'cnt', addc(G(st, 'cnt'), 1))
        elif slab is self.own:
            c('P18', G(st, '#full') is ONE, 'an order of the own side is removed although the book was not found full')
            c('P18', G(st, '#ev') is ZERO, 'more than one order is evicted')
            w = S.best(st, slab, self.worstk)
            c('P18', sure and eq(h, w), 'the evicted order is not the least aggressive one')
            c('P18', self.better(S.price(lf)), 'an order is evicted although its price may not be worse than the new limit price')
            c('P18', self.pa, 'an order is evicted by an order that may not be posted')
            setG(st, '#ev', ONE)
            setG(st, '#full', ZERO)
        else:
            c('P19', False, 'an order is removed from a book that is neither side')
            return
        side = self.sided[self.oppside if slab is self.opp else self.side]
        cb = self.cbval(st, slab, h)
        if G(st, '#an') is ONE:
            c('P19', eq(G(st, 'ankey'), S.keyof(lf)), 'the out event does not carry the id of the removed order')
            c('P19', eq(G(st, 'anside'), side), 'the out event does not carry the side of the removed order')
            c('P19', eq(G(st, 'anqty'), qty), 'the out event does not carry the remaining quantity of the removed order')
            c('P19', eq(G(st, 'ancb'), cb), 'the out event does not carry the callback information of the removed order')
            setG(st, '#an', ZERO)
            for g in ('anside', 'ankey', 'anqty', 'ancb'):
                setG(st, g, ZERO)
        else:
            setG(st, '#rm', ONE)
            setG(st, 'rmside', side)
            setG(st, 'rmkey', S.keyof(lf))
            setG(st, 'rmqty', qty)
            setG(st, 'rmcb', cb)

    def on_insert(self, E, fr, st, slab, lf, h, span):
        S = self.S
        c = lambda p, l, m: self.chk(fr, st, p, l, m, span)
        self.settle(E, fr, st, span)
        key = S.keyof(lf)
        qty = proj(lf, ('f', None, S.li['base_quantity']))
        note_type(qty, 'u64')
        c('P14', slab is self.own, 'an order is inserted into the book of the other side')
        c('P14', G(st, '#posted') is ZERO, 'an order is posted twice')
        c('P14', self.pa, 'an order is posted although posting is not allowed')
        c('P14', le(self.minq, qty), 'an order below the minimum size is posted')
        c('P14', eq(shr(key, I(64)), self.p['limit_price']), 'the posted order does not rest at the limit price')
        c('P14', eq(qty, self.topost(st)), 'the posted quantity is not the remaining base bounded by what the remaining quote buys at the limit price')
        c('P11', le(add(G(st, 'sb'), qty), self.p['max_base_qty']), 'the base traded and posted may exceed the base cap')
        c('P11', le(qty, self.divs_or_max(sub(self.p['max_quote_qty'], G(st, 'sq')), self.p['limit_price'])), 'the quote traded and the quote value of the posted base may exceed the quote cap')
        c('P14', self.nocross(st) or G(st, '#stop') is ONE, 'an order is posted although the best opposite order may be crossed by the limit price')
        c('P15', self.nocross(st) or G(st, '#stop') is ONE, 'an order stopped by the match limit may be posted')
        lower = self.seq0 if self.side == 'Ask' else sub(I((1 << 64) - 1), self.seq0)
        c('P20', eq(key, add(shl(self.p['limit_price'], I(64)), lower)), 'the order id is not the limit price over the (complemented, for bids) next sequence number')
        c('P20', eq(self.seq(st), addc(self.seq0, 1)), 'the sequence number is not advanced exactly once for the posted order')
        setG(st, '#posted', ONE)
        setG(st, 'postk', key)
        setG(st, 'postq', qty)
        setG(st, 'posth', h)

    def nocross(self, st):
        n = self.S.header(st, self.opp, 'leaf_count')
        if st.holds(eq(n, ZERO)):
            return True
        return st.holds(neg(self.crosses(self.S.price(self.S.leaf(st, self.opp, self.best(st))))))

    def stopkind(self, st):
        """why matching stopped: 1 nothing (more) to match, 2 the best order is crossed, 3 the match limit is used up"""
        if self.nocross(st):
            return 1
        n = self.S.header(st, self.opp, 'leaf_count')
        if st.holds(neg(eq(n, ZERO))) and st.holds(self.crosses(self.S.price(self.S.leaf(st, self.opp, self.best(st))))):
            return 2
        if st.holds(le(self.p['match_limit'], G(st, 'cnt'))):
            return 3
        return 0

    def exhausted(self, st):
        """nothing more can be traded: post-only, a size of zero, or an error is about to be returned"""
        if self.po or G(st, '#qfull') is ONE:
            return True
        n = self.S.header(st, self.opp, 'leaf_count')
        h = self.best(st)
        price, qty = self.S.price(self.S.leaf(st, self.opp, h)), self.S.qty(st, self.opp, h)
        rb, rq = sub(self.p['max_base_qty'], G(st, 'sb')), sub(self.p['max_quote_qty'], G(st, 'sq'))
        size = tmin(qty, rb, self.divs_or_max(rq, price))
        if st.holds(eq(rb, ZERO)) or st.holds(eq(rq, ZERO)) or st.holds(eq(size, ZERO)):
            return True
        d, q = self.mul(size, price)
        if st.holds(eq(d, ZERO)):
            return True                 # overflow error
        if st.holds(eq(tmin(q, rq), ZERO)) or st.holds(eq(q, ZERO)):
            return True
        if self.policy == 'AbortTransaction' and st.holds(self.same_id(st, self.p['callback_info'], self.cbval(st, self.opp, h))):
            return 'self'
        return False

    def settle(self, E, fr, st, span):
        """a point where a trade must be complete"""
        if G(st, '#tr') is ONE:
            self.chk(fr, st, 'P17', le(self.minq, G(st, 'rem')), 'a maker order keeps resting although its remainder may be below the minimum size', span)
            self.chk(fr, st, 'P10', eq(G(st, 'owed'), ZERO), 'the resting quantity is not reduced by exactly the filled base', span)
            setG(st, '#tr', ZERO)
            setG(st, 'owed', ZERO)
            setG(st, 'rem', ZERO)

    def looping(self, fr, bb):
        """block bb of this frame runs inside a loop of this or a calling function"""
        if any(bb in l for l in fr.body._loops.values()):
            return True
        u = fr.up
        while u is not None:
            f, at = u
            if at and any(at[0] in l for l in f.body._loops.values()):
                return True
            u = f.up
        return False

    def on_edge(self, E, fr, bb, tgt, st):
        body = fr.body
        rpo, loops = body._rpo, body._loops
        if tgt in body._heads and rpo[bb] >= rpo.get(tgt, 0):
            st = st.copy()
            sp = ''
            self.settle(E, fr, st, sp)
            self.chk(fr, st, 'P10', eq(G(st, 'owed'), ZERO), 'a resting quantity was changed without a fill')
            self.chk(fr, st, 'P19', G(st, '#rm') is ZERO, 'an order was removed without an out event')
            self.chk(fr, st, 'P19', G(st, '#an') is ZERO, 'an out event is enqueued for an order that is not removed')
            return st
        if self.looping(fr, tgt):
            return st
        if any(bb in l and tgt not in l for l in loops.values()):
            st = st.copy()
            setG(st, '#left', ONE)
            k = self.stopkind(st)
            ok = k in (1, 3) or st.holds(le(self.p['match_limit'], G(st, 'cnt'))) or self.exhausted(st)
            if ok == 'self':
                setG(st, '#self', ONE)
            self.chk(fr, st, 'P40', ok, 'matching stops although the best opposite order is crossed and limit, caps and match limit are not used up')
            if not ok:
                n = self.S.header(st, self.opp, 'leaf_count')
                e = st.assume(conj(neg(eq(n, ZERO)), eq(self.S.price(self.S.leaf(st, self.opp, self.best(st))), self.p['limit_price']), lt(G(st, 'cnt'), self.p['match_limit'])))
                ok = e is None or self.exhausted(e)
            self.chk(fr, st, 'P08', ok, 'matching may stop although the best opposite price equals the limit price')
            if k:
                setG(st, '#stop', I(k))
        elif G(st, '#left') is ONE and G(st, '#posted') is ZERO:
            # record the reason for not posting before the paths that return are joined
            if G(st, '#stop') is ZERO:
                k = self.stopkind(st)
                if k:
                    st = st.copy()
                    setG(st, '#stop', I(k))
            if self.pa and G(st, '#small') is ZERO and G(st, '#full') is ZERO and st.holds(lt(self.topost(st), self.minq)):
                st = st.copy()
                setG(st, '#small', ONE)
        return st

    def on_write(self, E, fr, st, root, path, old, new):
        S = self.S
        span = ''
        for n in ('opp', 'own'):
            slab = getattr(self, n)
            r, p = E.target(S.fref(st, slab, 'leaf_nodes'))
            if root == r:
                if n == 'opp' and len(path) > len(p) and path[len(p)][0] == 'i':
                    h = path[len(p)][1]
                    rest = path[len(p) + 1:]
                    fq = ('f', None, S.li['base_quantity'])
                    if rest == (fq,):
                        o, w = old, new
                    elif rest == ():
                        o, w = proj(old, fq), proj(new, fq)
                        self.chk(fr, st, 'P10', eq(proj(old, ('f', None, S.li['key'])), proj(new, ('f', None, S.li['key']))), 'the id of a resting order is changed')
                    else:
                        self.chk(fr, st, 'P10', False, 'a resting order is changed other than in its quantity')
                        return
                    self.chk(fr, st, 'P10', eq(h, self.best(st)), 'the quantity of an order other than the maker is changed')
                    self.chk(fr, st, 'P08', not self.po, 'a post-only order changes a resting order of the other side')
                    setG(st, 'owed', sub(G(st, 'owed'), sub(o, w)))
                    return
                self.chk(fr, st, 'P10', False, 'the orders of the %s side are written outside the slab operations' % n)
                return
            r, p = E.target(S.fref(st, slab, 'callback_infos'))
            if root == r:
                ok = n == 'own' and G(st, '#posted') is ONE and len(path) == len(p) + 1 and path[-1][0] == 'i' and st.holds(eq(path[-1][1], G(st, 'posth')))
                self.chk(fr, st, 'P14', ok, 'callback information of a resting order is overwritten')
                if ok:
                    self.chk(fr, st, 'P14', eq(new, self.p['callback_info']), 'the posted order does not carry the callback information of the order')
                    setG(st, '#cb', ONE)
                return
            for f in ('inner_nodes', 'header'):
                r, p = E.target(S.fref(st, slab, f))
                if root == r:
                    self.chk(fr, st, 'P10', False, 'the %s of a book are written outside the slab operations' % f)
                    return

    def at_exit(self, v, st):
        E = self.E
        out = self.chks = getattr(self, 'chks', [])

        def c(prop, cond, msg):
            ok = st.holds(cond) if type(cond) is T else bool(cond)
            out.append((prop, ok, msg + ' [at a return of new_order]', self.body, ''))
            return ok
        a = self.P.adt('AoError')
        vid = lambda n: a.vidx(n)
        if v.op != 'adt':
            c('P32', False, 'the result of new_order is not determined')
            return
        if v.a[1] == 1:
            e = v.a[2][0]
            code = e.a[1] if e.op == 'adt' else None
            qf = G(st, '#qfull') is ONE
            c('P22', not qf or code == vid('EventQueueFull'), 'a full event queue is reported as another error')
            c('P22', code != vid('EventQueueFull') or qf, 'the queue-full error is returned although no event was refused')
            if code == vid('WouldSelfTrade'):
                c('P16', self.policy == 'AbortTransaction', 'the self-trade error is returned under ' + self.policy)
                h = self.best(st)
                c('P16', self.same_id(st, self.p['callback_info'], self.cbval(st, self.opp, h)), 'the self-trade error is returned for an order of another identity')
                c('P16', self.crosses(self.S.price(self.S.leaf(st, self.opp, h))), 'the self-trade error is returned for an order that would not have been matched')
            elif code == vid('NumericalOverflow'):
                c('P13', self.overflowed(st), 'the overflow error is returned although no conversion overflowed')
            elif code != vid('EventQueueFull'):
                c('P32', False, 'new_order fails with an error that none of its checks stands for')
            return
        c('P16', G(st, '#self') is ZERO, 'new_order succeeds although the next order it would have matched has the same identity, under AbortTransaction')
        c('P22', G(st, '#qfull') is ZERO, 'new_order succeeds although an event was refused')
        c('P13', not self.overflowed(st), 'new_order succeeds although a conversion overflowed')
        if G(st, '#tr') is ONE:
            c('P17', le(self.minq, G(st, 'rem')), 'a maker order keeps resting although its remainder may be below the minimum size')
        c('P10', eq(G(st, 'owed'), ZERO), 'the resting quantity is not reduced by exactly the filled base')
        c('P19', G(st, '#rm') is ZERO, 'an order was removed without an out event')
        c('P19', G(st, '#an') is ZERO, 'an out event is enqueued for an order that is not removed')
        s = v.a[2][0]
        sa = self.P.adt('OrderSummary')
        fi = {f[0]: i for i, f in enumerate(sa.variants[0][2])}
        g = lambda n: proj(s, ('f', None, fi[n]))
        pid, tb, tq, tp = g('posted_order_id'), g('total_base_qty'), g('total_quote_qty'), g('total_base_qty_posted')
        if G(st, '#posted') is ONE:
            pq = G(st, 'postq')
            c('P12', eq(E.discr(pid, 'Option'), ONE), 'a posted order is not reported')
            c('P12', eq(proj(pid, ('f', 1, 0)), G(st, 'postk')), 'the reported order id is not the id of the posted order')
            c('P12', eq(tp, pq), 'the reported posted base is not the posted quantity')
            c('P12', eq(tb, add(G(st, 'sb'), pq)), 'the reported base is not the sum of traded and posted base')
            d, m = self.mul(pq, self.p['limit_price'])
            ok = c('P13', eq(d, ONE), 'the quote value of the posted remainder was not found to be representable')
            x = c('P12', eq(tq, add(G(st, 'sq'), m)), 'the reported quote is not the traded quote plus the quote value of the posted base')
            if not x:
                other = FP + ('fp32_mul_floor' if self.side == 'Bid' else 'fp32_mul_ceil')
                c('P13', not st.holds(eq(tq, add(G(st, 'sq'), proj(mk('app', other, pq, self.p['limit_price']), ('f', 1, 0))))), 'the quote value of the posted remainder is rounded in the wrong direction')
            c('P14', G(st, '#cb') is ONE, 'the callback information of the posted order is not stored')
            c('P18', G(st, '#full') is ZERO, 'an order is posted into a full book')
        else:
            c('P12', eq(E.discr(pid, 'Option'), ZERO), 'an order id is reported although nothing was posted')
            c('P12', eq(tp, ZERO), 'posted base is reported although nothing was posted')
            c('P12', eq(tb, G(st, 'sb')), 'the reported base is not the traded base')
            c('P12', eq(tq, G(st, 'sq')), 'the reported quote is not the traded quote')
            c('P10', conj(eq(tb, G(st, 'sb')), eq(tq, G(st, 'sq'))), 'what the taker is reported to have traded is not what its fill events record')
            c('P20', disj(eq(self.seq(st), self.seq0), eq(self.seq(st), addc(self.seq0, 1))), 'the sequence number changes by more than one')
            stop = G(st, '#stop')
            why = (not self.pa) or stop in (I(2), I(3)) or G(st, '#small') is ONE or st.holds(lt(self.topost(st), self.minq))
            if not why and G(st, '#full') is ONE:
                w = self.S.best(st, self.own, self.worstk)
                why = st.holds(neg(self.better(self.S.price(self.S.leaf(st, self.own, w)))))
                c('P18', why, 'a full book refuses an order that has a better price than its least aggressive order')
            elif not why:
                k = self.stopkind(st)
                why = k in (2, 3)
                c('P14', why, 'an order with an allowed, non-crossing and large enough remainder is not posted')
            else:
                c('P14', True, '')

    def overflowed(self, st):
        for l in st.facts:
            if l.op == 'eq0' or l.op == 'ge0':
                for t, n in parts(l.a[0])[1]:
                    if t.op == 'discr' and t.a[0].op == 'app' and 'fp32_mul' in t.a[0].a[0] and st.holds(eq(t, ZERO)):
                        return True
        return False

    # ------------------------------------------------------------ results
    def results(self):
        for kind, data, st, fr, span in self.E.final_events('chk'):
            yield data[0], data[1], data[2], fr.body, span
        for kind, data, st, fr, span in self.E.final_events('wrap', 'mwrap'):
            yield 'P33', False, 'a subtraction of a quantity may go below zero: %s - %s' % (show(data[0])[:60], show(data[1])[:60]), fr.body, span
        for kind, data, st, fr, span in self.E.final_events('subok'):
            yield 'P33', True, 'a subtraction of a quantity may go below zero: %s - %s' % (show(data[0])[:60], show(data[1])[:60]), fr.body, span
        for x in self.chks:
            yield x


def scenarios(P, policies=('DecrementTake', 'CancelProvide', 'AbortTransaction')):
    for side in ('Bid', 'Ask'):
        for pol in policies:
            for po in (False, True):
                for pa in (False, True):
                    yield NewOrder(P, side, pol, po, pa)


def identity(P):
    """the identity of a built-in callback information is all of it"""
    E = Engine(P)
    for b in effects.allbodies(P):
        k = getattr(b, 'key', None)
        if not k or k[-1] != 'as_callback_id' or getattr(b, 'trait', None) != 'CallbackInfo' or not k[1].startswith('['):
            continue
        v = mk('sym', 'info')
        for r, s in E.exec_function(b, [v], State(), E.cs_id(0, 'root', None)):
            yield E.deref(s, r) is E.deref(s, v), 'two callback informations that differ can have the same identity', b
