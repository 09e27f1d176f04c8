"""P21-P23, P33 and the ids of P20 on the event queue operations."""
from .common import *


class QueueRules(Rules):
    def __init__(self, P):
        super().__init__(P)
        self.qa, self.ha = P.adt('EventQueue'), P.adt('EventQueueHeader')
        if self.qa is None or self.ha is None:
            raise Unsupported('event queue types')
        self.fi = {f[0]: i for i, f in enumerate(self.qa.variants[0][2])}
        self.hi = {f[0]: i for i, f in enumerate(self.ha.variants[0][2])}
        self.tag = {vr[0]: vr[1] for vr in P.adt('EventTag').variants}

    # symbolic queue under its representation invariant
    def setup(self, E):
        q = mk('sym', 'queue')
        st = State()
        r, p = E.target(q)
        f = lambda n: E.read(st, r, tuple(p) + (('f', None, self.fi[n]),))
        hdr, ev, cb = f('header'), f('events'), f('callback_infos')
        self.q, self.hdr, self.ev, self.cb = q, E.target(hdr), E.target(ev), E.target(cb)
        self.head, self.count, self.seq = self.h(E, st, 'head'), self.h(E, st, 'count'), self.h(E, st, 'seq_num')
        self.n = E.lenof(st, ev)
        self.m = E.lenof(st, cb)
        for l in (le(ONE, self.n), le(self.count, self.n), lt(self.head, self.n), eq(self.m, lincomb((2, self.n))), le(self.m, I((1 << 48)))):
            st = st.assume(l)
        return q, st

    def h(self, E, st, name):
        v = E.read(st, self.hdr[0], tuple(self.hdr[1]) + (('f', None, self.hi[name]),))
        note_type(v, 'u64')
        return v

    def hplace(self, name):
        return self.hdr[0], tuple(self.hdr[1]) + (('f', None, self.hi[name]),)

    def run(self):
        self.push()
        self.pop()
        self.peek()
        self.iterate()
        self.misc()
        self.ids()
        self.writers()
        return self

    # ---------------------------------------------------------------- push_back
    def event_types(self):
        r = []
        for (mod, ty, m), b in self.P.fns.items():
            if m == 'to_generic':
                r.append(ty)
        return r or ['FillEvent', 'OutEvent']

    def push(self):
        P = self.P
        b = self.need('EventQueue', 'push_back')
        kinds = {'FillEvent': 'Fill', 'OutEvent': 'Out'}
        for ety in sorted(set(self.event_types()) | set(kinds)):
            ea = P.adt(ety)
            if ea is None:
                raise Unsupported('event type ' + ety)
            ei = {f[0]: i for i, f in enumerate(ea.variants[0][2])}
            for mk_ in (0, 1):
                for tk in (0, 1):
                    E = self.engine()
                    q, st = self.setup(E)
                    scope = '%s, maker info %s, taker info %s, %s' % (ety, 'given' if mk_ else 'absent', 'given' if tk else 'absent', P.name)
                    ev = adt(ea.path, 0, [self.fieldsym(n, t) for n, t in ea.variants[0][2]])
                    mref, tref = mk('sym', 'makerinfo'), mk('sym', 'takerinfo')
                    args = [q, ev, SOME(mref) if mk_ else NONE, SOME(tref) if tk else NONE]
                    outs = E.exec_function(b, args, st, E.cs_id(0, 'root', None), tmap={'Ev': ea.path})
                    c = lambda p, ok, m, s=None: self.chk(p, ok, m, b, st=s, scope=scope)
                    n_ok = n_err = 0
                    for v, s in outs:
                        if v.op != 'adt':
                            c('P21', False, 'the result of enqueueing is not determined')
                            continue
                        if v.a[1] == 1:
                            n_err += 1
                            c('P22', le(self.n, self.count), 'enqueueing may fail although the queue is not full', s)
                            ch = unexpected(s, ())
                            c('P22', not ch, 'a refused event changes the queue: ' + '; '.join(describe(r, p) for r, p, _ in ch))
                            c('P22', v.a[2][0] is ev or s.holds(eq(v.a[2][0], ev)), 'the refused event is not handed back')
                            continue
                        n_ok += 1
                        c('P22', lt(self.count, self.n), 'an event may be stored although the queue is full', s)
                        hc = self.hplace('count')
                        idx = self.slots(s, self.ev)
                        good = len(idx) == 1 and ismod(s, idx[0], add(self.head, self.count), self.n)
                        c('P21', good, 'the event is not stored in the slot after the last pending one')
                        allowed = [hc]
                        if len(idx) == 1:
                            i = idx[0]
                            pl = (self.ev[0], tuple(self.ev[1]) + (('i', i),))
                            allowed.append(pl)
                            val = E.read(s, *pl)
                            want = setp(ev, ('f', None, ei['tag']), I(self.tag[kinds[ety]]))
                            if ety != self.evelem():
                                want = proj(want, ('as', self.evelem()))
                            c('P21', val is want or s.holds(eq(val, want)), 'the stored event is not the enqueued one with the tag of its kind')
                            for given, rf, off in ((mk_, mref, 0), (tk, tref, 1)):
                                cp = (self.cb[0], tuple(self.cb[1]) + (('i', addc(lincomb((2, i)), off)),))
                                cv = E.read(s, *cp)
                                old = getpath(mk('mem0', cp[0]), cp[1])
                                if given:
                                    allowed.append(cp)
                                    w = E.deref(s, rf)
                                    c('P21', cv is w or s.holds(eq(cv, w)), 'the %s callback information is not stored in the cell of the slot' % ('taker' if off else 'maker'))
                                else:
                                    c('P21', cv is old or s.holds(eq(cv, old)), 'the %s callback cell is overwritten although no information was given' % ('taker' if off else 'maker'))
                        else:
                            allowed.append((self.ev[0], tuple(self.ev[1])))
                        c('P21', eq(E.read(s, *hc), addc(self.count, 1)), 'the number of pending events does not grow by one', s)
                        ch = unexpected(s, allowed)
                        c('P21', not ch, 'enqueueing changes something else: ' + '; '.join(describe(r, p) for r, p, _ in ch))
                        c('P23', eq(self.now(E, s, 'head'), self.head), 'enqueueing moves the head', s)
                        c('P20', eq(self.now(E, s, 'seq_num'), self.seq), 'enqueueing changes the sequence number', s)
                    c('P22', n_err > 0, 'enqueueing never refuses an event')
                    c('P21', n_ok > 0, 'enqueueing never succeeds')
                    self.done(E, scope=scope)

    def evelem(self):
        t = self.qa.variants[0][2][self.fi['events']][1]
        return last_seg(strip_generics(strip_ref(re.sub(r"'\w+ ", '', t)).strip('[] ')))

    def fieldsym(self, n, t):
        v = mk('sym', 'event ' + n)
        note_type(v, t)
        return v

    def now(self, E, s, name):
        return E.read(s, *self.hplace(name))

    def slots(self, s, place):
        """indices at which the array at place was written"""
        r = []
        k = len(place[1])
        for root, path, v in changes(s):
            if root == place[0]:
                if len(path) > k and path[k][0] == 'i':
                    if not any(path[k][1] is x or s.holds(eq(path[k][1], x)) for x in r):
                        r.append(path[k][1])
                else:
                    return []
        return r

    # ---------------------------------------------------------------- pop_n
    def pop(self):
        b = self.need('EventQueue', 'pop_n')
        E = self.engine()
        q, st = self.setup(E)
        n = mk('sym', 'n')
        note_type(n, 'u64')
        outs = E.exec_function(b, [q, n], st, E.cs_id(0, 'root', None))
        for v, s in outs:
            k = tmin(n, self.count)
            c = lambda ok, m: self.chk('P23', ok, m, b, st=s)
            self.chk('P33', le(self.now(E, s, 'count'), self.count), 'the pending count may wrap below zero', b, st=s)
            c(eq(self.now(E, s, 'count'), sub(self.count, k)), 'the pending count is not lowered by the smaller of the requested number and the number pending')
            c(ismod(s, self.now(E, s, 'head'), add(self.head, k), self.n), 'the head is not advanced, modulo the capacity, by the number of events removed')
            ch = unexpected(s, [self.hplace('head'), self.hplace('count')])
            c(not ch, 'consuming changes something else: ' + '; '.join(describe(r, p) for r, p, _ in ch))
            self.chk('P20', eq(self.now(E, s, 'seq_num'), self.seq), 'consuming changes the sequence number', b, st=s)
        self.chk('P23', bool(outs), 'consuming never returns', b)
        self.done(E)

    # ---------------------------------------------------------------- reading
    def eventref(self, E, s, v, i):
        """v is the reference to the event in slot i, with its kind and callback cells: list of complaints"""
        bad = []
        if v.op != 'adt':
            return ['the kind of the returned event is not determined']
        ra = self.P.adt('EventRef')
        var = ra.variants[v.a[1]][0]
        slot = (self.ev[0], tuple(self.ev[1]) + (('i', i),))
        ea = self.P.adt(self.evelem())
        ti = [f[0] for f in ea.variants[0][2]].index('tag')
        tag = proj(E.read(s, *slot), ('f', None, ti))
        if not s.holds(eq(tag, I(self.tag[var]))):
            bad.append('an event is returned as %s although its slot may hold another kind' % var)
        inner = v.a[2][0]
        ia = self.P.adt(inner.a[0]) if inner.op == 'adt' else None
        if ia is None:
            return bad + ['the returned event is not determined']
        names = [f[0] for f in ia.variants[0][2]]
        for n, x in zip(names, inner.a[2]):
            if x.op != 'ref':
                bad.append('the %s of the returned event is not determined' % n)
                continue
            r, p = x.a
            p = tuple(q for q in p if q[0] != 'as')
            if n == 'event':
                ok = r == slot[0] and samepath(s, p, slot[1])
            else:
                off = 1 if n.startswith('taker') else 0
                ok = r == self.cb[0] and samepath(s, p, tuple(self.cb[1]) + (('i', addc(lincomb((2, i)), off)),))
            if not ok:
                bad.append('the %s of the returned event is not that of its slot' % n.replace('_', ' '))
        return bad

    def peek(self):
        b = self.need('EventQueue', 'peek_at')
        E = self.engine()
        q, st = self.setup(E)
        i = mk('sym', 'index')
        note_type(i, 'u64')
        outs = E.exec_function(b, [q, i], st, E.cs_id(0, 'root', None))
        some = 0
        for v, s in outs:
            c = lambda ok, m: self.chk('P21', ok, m, b, st=s)
            self.chk('P34', not unexpected(s, ()), 'reading an event changes the queue', b)
            if v.op != 'adt':
                c(False, 'the result of reading an event is not determined')
            elif v.a[1] == 0:
                c(le(self.count, i), 'reading a pending position may return nothing')
            else:
                some += 1
                c(lt(i, self.count), 'an event beyond the pending ones may be returned')
                w = v.a[2][0]
                bad = ['the returned event is not determined']
                slot = self.refslot(w)
                if slot is not None:
                    bad = self.eventref(E, s, w, slot)
                    c(ismod(s, slot, add(self.head, i), self.n), 'reading a position returns another slot than head plus position')
                for m in bad:
                    c(False, m)
                if not bad:
                    c(True, 'the returned event is that of its slot')
        self.chk('P21', some > 0, 'reading an event never returns one', b)
        self.done(E)

    def refslot(self, w):
        """index of the event slot an EventRef value refers to"""
        if w.op == 'adt' and w.a[2] and w.a[2][0].op == 'adt':
            for x in w.a[2][0].a[2]:
                if x.op == 'ref' and x.a[0] == self.ev[0]:
                    for q in x.a[1][len(self.ev[1]):]:
                        if q[0] == 'i':
                            return q[1]
        return None

    def iterate(self):
        P = self.P
        b = self.need('EventQueue', 'iter')
        drv = driver(P, 'EventQueue', 'iter', b.ret, "state::event_queue::EventQueue<'_, C>", 'state::event_queue::EventRef<\'_, C>')
        E = self.engine()
        q, st = self.setup(E)
        st.mem[('G', 'k')] = ZERO
        seen = {'some': 0, 'none': 0}

        def on_edge(E, fr, bb, tgt, s):
            if fr.body is not drv:
                return s
            val = lambda i: s.mem.get(('L', fr.cs, i), UNDEF)
            k = G(s, 'k')
            if tgt == drv.some:
                v = proj(val(4), ('f', 1, 0))
                seen['some'] += 1
                s = s.copy()
                E.event(fr, 'chk', ('P21', s.holds(lt(k, self.count)), 'iteration returns an event beyond the pending ones'), s)
                slot = self.refslot(v)
                bad = ['iteration returns an undetermined event'] if slot is None else self.eventref(E, s, v, slot)
                E.event(fr, 'chk', ('P21', not bad, '; '.join(bad) or 'iteration returns the event of its slot'), s)
                if slot is not None:
                    E.event(fr, 'chk', ('P21', ismod(s, slot, add(self.head, k), self.n), 'iteration does not return the pending events in order'), s)
                setG(s, 'k', addc(k, 1))
            elif tgt == drv.none:
                seen['none'] += 1
                E.event(fr, 'chk', ('P21', s.holds(eq(k, self.count)), 'iteration ends before all pending events were returned'), s)
                E.event(fr, 'chk', ('P34', not unexpected(s, ()), 'iterating changes the queue'), s)
            return s
        E.on_edge = on_edge
        E.exec_function(drv, [q], st, E.cs_id(0, 'root', None))
        for kind, data, s, fr, span in E.final_events('chk'):
            self.chk(data[0], data[1], data[2], b)
        self.chk('P21', seen['some'] > 0 and seen['none'] > 0, 'iteration never starts or never ends', b)
        self.done(E)

    def misc(self):
        for m, want, prop in (('len', lambda: self.count, 'P34'), ('is_empty', lambda: eq(self.count, ZERO), 'P34'), ('full', lambda: le(self.n, self.count), 'P22')):
            b = self.P.find('EventQueue', m)
            if b is None:
                continue
            E = self.engine()
            q, st = self.setup(E)
            for v, s in E.exec_function(b, [q], st, E.cs_id(0, 'root', None)):
                w = want()
                if m == 'len':
                    ok = s.holds(eq(v, w))
                else:
                    v = i2b(v)
                    ok = samebool(s, v, w)
                self.chk(prop, ok, 'the %s query does not report the state of the queue' % m, b)
                self.chk('P34', not unexpected(s, ()), 'a query changes the queue', b)
            self.done(E)

    def writers(self):
        """who else moves the head or changes the count"""
        from .. import effects
        P = self.P
        cg = effects.callers(P)
        push, pop, gen = P.find('EventQueue', 'push_back'), P.find('EventQueue', 'pop_n'), P.find('EventQueue', 'gen_order_id')
        roots = {'head': [pop], 'count': [push, pop], 'seq_num': [gen]}
        for b, span, ty, f, kind in effects.writes(P):
            if ty != 'EventQueueHeader':
                continue
            for name, rs in roots.items():
                if f is not None and self.hi[name] != f:
                    continue
                prop = 'P20' if name == 'seq_num' else 'P23'
                if f is None and prop == 'P20':
                    continue
                self.chk(prop, b in rs or effects.only_through(P, b, [r for r in rs if r]), 'the %s of the event queue is written outside its own operations' % name, b, span)

    # ---------------------------------------------------------------- order ids
    def ids(self):
        P = self.P
        b = self.P.find('EventQueue', 'gen_order_id')
        if b is not None:
            sd = P.adt('Side')
            for side in ('Bid', 'Ask'):
                E = self.engine()
                q, st = self.setup(E)
                price = mk('sym', 'price')
                note_type(price, 'u64')
                for v, s in E.exec_function(b, [q, price, adt(sd.path, sd.vidx(side), ())], st, E.cs_id(0, 'root', None)):
                    c = lambda ok, m: self.chk('P20', ok, m, b, st=s, scope=side)
                    low = self.seq if side == 'Ask' else sub(I((1 << 64) - 1), self.seq)
                    c(eq(v, add(shl(price, I(64)), low)), 'an order id is not the price over the (complemented, for bids) sequence number')
                    c(eq(self.now(E, s, 'seq_num'), addc(self.seq, 1)), 'the sequence number is not advanced by one')
                    c(not unexpected(s, [self.hplace('seq_num')]), 'generating an id changes something else')
                    self.chk('P23', conj(eq(self.now(E, s, 'head'), self.head), eq(self.now(E, s, 'count'), self.count)), 'generating an id moves the head or changes the count', b, st=s, scope=side)
                self.done(E)
        # the side is read back from the id
        c = [x for x in P.bodies.get('utils::get_side_from_order_id', [])] or [bl[0] for n, bl in P.bodies.items() if n.split('::')[-1] == 'get_side_from_order_id']
        sd = P.adt('Side')
        for b in c[:1]:
            for side in ('Bid', 'Ask'):
                E = self.engine()
                price, seq = mk('sym', 'price'), mk('sym', 'sequence number below 2^63')
                note_type(price, 'u64')
                RNG[seq] = (0, (1 << 63) - 1)
                st = State()
                low = seq if side == 'Ask' else sub(I((1 << 64) - 1), seq)
                for v, s in E.exec_function(b, [add(shl(price, I(64)), low)], st, E.cs_id(0, 'root', None)):
                    ok = s.holds(eq(E.discr(v, 'Side'), I(sd.variants[sd.vidx(side)][1]))) or (v.op == 'adt' and v.a[1] == sd.vidx(side))
                    self.chk('P20', ok, 'the side read back from the id of a %s is another one' % side.lower(), b)
                self.done(E)
        if not c:
            raise Unsupported('get_side_from_order_id')


def samebool(s, a, b):
    """a and b have the same truth value"""
    for x, y in ((a, b), (neg(a), neg(b))):
        t = s.assume(x)
        if t is not None and not t.holds(y):
            return False
    return True


def driver(P, ty, meth, itty, selfty, item, extra='', extraty=()):
    """a body that iterates to the end: for x in self.meth(extra) {}"""
    from .. import mir
    name = 'aoa::drive_%s_%s' % (ty, meth)
    ps = ''.join(', _%d: %s' % (20 + i, t) for i, t in enumerate(extraty))
    args = ''.join(', copy _%d' % (20 + i) for i, t in enumerate(extraty))
    mod = selfty.split('<')[0]
    text = """fn %s(_1: &%s%s) -> () {
    let mut _0: ();
    let mut _2: %s;
    let mut _3: &mut %s;
    let mut _4: std::option::Option<%s>;
    let mut _5: isize;

    bb0: {
        _2 = %s::<'_, C>::%s(copy _1%s) -> [return: bb1, unwind continue];
    }

    bb1: {
        _3 = &mut _2;
        _4 = <%s as std::iter::Iterator>::next(move _3) -> [return: bb2, unwind continue];
    }

    bb2: {
        _5 = discriminant(_4);
        switchInt(move _5) -> [0: bb4, 1: bb3, otherwise: bb4];
    }

    bb3: {
        goto -> bb1;
    }

    bb4: {
        return;
    }
}
""" % (name, selfty, ps, itty, itty, item, mod, meth, args, itty)
    b = mir.parse(text)[name][0]
    b.some, b.none = 3, 4
    b.key = None
    return b


def run(P):
    return QueueRules(P).run()
