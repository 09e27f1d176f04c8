"""P35, P41: the TypeScript client reads and writes what the on-chain program writes and reads.

The client's functions are run over their syntax trees with a symbolic account; every field an object ends up with is a read of
some bytes of the account, which is compared with where the layout of the Rust type puts that field.  Regions of books and
queues are compared with those of the Rust views, walks of the tree by one arbitrary round of each loop."""
import os, re
from ..ts.interp import *
from ..ts import interp as TI
from .. import front
from ..engine import Engine
from ..ob import Unsupported as Unsup
from . import layout

FILES = ['slab.ts', 'event_queue.ts', 'market_state.ts', 'raw_instructions.ts', 'utils.ts', 'bindings.ts']
D = mk('sym', 'account')


def snake(s):
    return re.sub(r'([A-Z])', lambda m: '_' + m.group(1).lower(), s)


def camel(s):
    return re.sub(r'_([a-z0-9])', lambda m: m.group(1).upper(), s)


class Client:
    def __init__(self, P):
        self.P = P
        self.L = layout.Layout(P)
        self.E = Engine(P)
        d = os.path.join(P.repo if hasattr(P, 'repo') else front.REPO, 'js', 'src')
        files = [f for f in FILES if os.path.exists(os.path.join(d, f))]
        files += sorted(f for f in os.listdir(d) if f.endswith('.ts') and f not in files and f not in ('index.ts', 'types.ts'))
        self.I = Interp(d, files)
        self.out = []
        self.undecided = []
        self.C = self.E.sizeof('C')

    def chk(self, cond, msg, where, st=None):
        ok = cond
        if type(cond) is T:
            ok = st.holds(cond) if st is not None else cond is ONE
        self.out.append((self.prop, bool(ok), msg, 'js/src/' + where, 'client'))
        return bool(ok)

    def where(self, cname, meth=None):
        self.at = w = self.where_(cname, meth)
        return w

    def where_(self, cname, meth=None):
        c = self.I.cls(cname)
        if c is None:
            return cname
        ci = self.I.cinfo(c)
        n = ci['node']
        if meth:
            n = ci['methods'].get(meth) or ci['smethods'].get(meth) or n
        return '%s:%d %s%s' % (ci['file'], n['l'], cname, '.' + meth if meth else '')

    # ------------------------------------------------------------ Rust side
    def fields(self, ty):
        """[(name, type, offset, size)] of a repr(C) record without implicit padding"""
        a = self.P.adt(ty)
        off, r = 0, []
        for f, t in a.variants[0][2]:
            n = self.E.sizeof(t)
            if not is_int(n):
                raise Unsupported('size of ' + t)
            r.append((f, t, off, n.a[0]))
            off += n.a[0]
        tot = self.E.sizeof(ty)
        if not (is_int(tot) and tot.a[0] == off):
            raise Unsupported('layout of ' + ty)
        return r

    def enum(self, ty):
        return {v[0]: v[1] for v in self.P.adt(ty).variants}

    # ------------------------------------------------------------ run
    LAYOUT = ('enums', 'records', 'lens', 'slab', 'queue', 'sizes', 'market', 'instructions', 'create')
    QUERIES = ('price', 'find', 'items', 'top', 'depth', 'peek', 'fills')

    def run(self, prop):
        self.prop = prop
        for f in self.LAYOUT if prop == 'P35' else self.QUERIES:
            self.I.anchors, self.I.hooks = {}, {}
            if prop == 'P41':
                self.I.hooks['crash'] = lambda I2, st, what: self.chk(False, 'an exception is thrown: ' + what, self.at)
            n = len(self.out)
            try:
                getattr(self, f)()
            except (Unsupported, Unsup) as e:
                # a shape the interpreter does not follow: nothing is claimed about this part
                del self.out[n:]
                self.undecided.append('%s: %s' % (f, e))
        return self

    # ------------------------------------------------------------ enums
    def enums(self):
        for js, rust in (('EventType', 'EventTag'), ('Side', 'Side'), ('AccountTag', 'AccountTag'), ('SelfTradeBehavior', 'SelfTradeBehavior')):
            v = self.I.lookup_module(js, self.I.mods and list(self.I.mods)[0])
            if v is None or v[0] != 'enum':
                raise Unsupported('no enum ' + js)
            f = next(x for x, m in self.I.mods.items() if js in m)
            w = '%s enum %s' % (f, js)
            d, r = dict(v[2]), self.enum(rust)
            for k, n in sorted(r.items(), key=lambda x: x[1]):
                self.chk(k in d and d[k] == n, '%s.%s is not %s as in the program' % (js, k, n), w)
            for k in sorted(d):
                self.chk(k in r, '%s.%s does not exist in the program' % (js, k), w)

    # ------------------------------------------------------------ records
    VIEWS = (('SlabHeader', 'SlabHeader', 'accountTag'), ('EventQueueHeader', 'EventQueueHeader', 'tag'), ('MarketState', 'MarketState', 'tag'),
             ('LeafNode', 'LeafNode', None), ('InnerNode', 'InnerNode', None), ('EventFill', 'FillEvent', None), ('EventOut', 'OutEvent', None))

    def expect(self, rust, tag):
        fs = self.fields(rust)
        base = 8 if tag else 0
        r = {camel(f): (base + o, n, t) for f, t, o, n in fs if not f.startswith('_')}
        pad = [(base + o, base + o + n) for f, t, o, n in fs if f.startswith('_')]
        if tag:
            r[tag] = (0, 8, 'AccountTag')
        else:
            r.pop('tag', None)
        return r, pad, base + sum(n for _, _, _, n in fs)

    def bytes_of(self, v, st):
        """(offset, size) of the bytes of the account a value is read from, or None"""
        I_ = self.I
        if v[0] in ('num', 'bn') and v[1].op == 'app' and v[1].a[0] == 'rd' and v[1].a[1] is D:
            return v[1].a[2], v[1].a[3]
        if v[0] in ('buf', 'bufs') and v[1] is D:
            return v[2], v[3]
        if v[0] == 'opq' and v[1].op == 'app' and v[1].a[0] == 'PublicKey':
            b = v[1].a[1]
            if b.op == 'app' and b.a[0] == 'bytes' and b.a[1] is D:
                return b.a[2], b.a[3]
        if v[0] == 'obj' and I_.obj(st, v)[0] == 'arr':
            lo = None
            for x in I_.obj(st, v)[2]['items']:
                b = self.bytes_of(x, st)
                if b is None or lo is not None and not st.holds(eq(b[0], add(lo[0], lo[1]))):
                    return None
                lo = b if lo is None else (lo[0], add(lo[1], b[1]))
            return lo
        return None

    def compare(self, v, st, cls, rust, tag, base, w, skip=()):
        """fields of the object v against the record at offset base"""
        I_ = self.I
        exp, pad, size = self.expect(rust, tag)
        kind, c, d = I_.obj(st, v)
        types = dict(I_.cinfo(c)['props']) if c else {}
        for f, (o, n, t) in sorted(exp.items(), key=lambda x: x[1]):
            b = self.bytes_of(d.get(f, U), st)
            self.chk(b is not None and st.holds(conj(eq(b[0], add(base, I(o))), eq(b[1], I(n)))),
                     '%s.%s is not read from the bytes of %s.%s' % (cls, f, rust, snake(f)), w)
            ty = types.get(f)
            if ty and ty['k'] == 'TypeReference' and ty['typeName'].get('text') in ('AccountTag', 'Side', 'EventType', 'SelfTradeBehavior'):
                self.chk(d.get(f, U)[0] == 'num', '%s.%s is declared as an enum but is not a number' % (cls, f), w)
        for f, x in sorted(d.items()):
            if f in exp or f in skip:
                continue
            # anything else may only look at padding
            for r in reads(x):
                o, n = sub(r.a[2], base), r.a[3]
                self.chk(is_int(o) and any(lo <= o.a[0] and o.a[0] + n.a[0] <= hi for lo, hi in pad), '%s.%s reads bytes of another field of %s' % (cls, f, rust), w)

    def records(self):
        I_ = self.I
        for cls, rust, tag in self.VIEWS:
            c = I_.cls(cls)
            if c is None:
                raise Unsupported('no class ' + cls)
            w = self.where(cls)
            sch = I_.static(c, 'schema')
            n = 0
            for v, st in I_.native(S(), 'deserializeUnchecked', [sch, c, ('buf', D, ZERO, mk('app', 'len', D))]):
                n += 1
                self.compare2(v, st, cls, rust, tag, ZERO, w)
            self.chk(n > 0, cls + ' cannot be read', w)

    def compare2(self, v, s, cls, rust, tag, base, w, skip=()):
        self.compare(v, _St(s, self.I), cls, rust, tag, base, w, skip)

    def lens(self):
        I_ = self.I
        for cls, rust, tag in self.VIEWS:
            v = I_.static(I_.cls(cls), 'LEN')
            if v is not None:
                n = self.expect(rust, tag)[2]
                self.chk(v == num(n), '%s.LEN is not the size of %s, %d bytes' % (cls, rust, n), self.where(cls))

    # ------------------------------------------------------------ regions
    def regions(self, ty, size):
        variant, hdr, arrays, slots, per = self.L.SPEC[ty]
        vs = self.L.view(ty, variant, size)
        out = []
        for b, ob, s, E in vs:
            out.append(({n: self.L.region(ob, ty, n) for n, t in arrays}, s))
        if len(out) != 1 or None in out[0][0].values():
            raise Unsupported('regions of ' + ty)
        return out[0]

    def slab(self):
        """a book of any size: where nodes and callback cells are read from"""
        I_ = self.I
        extra = mk('sym', 'extra')
        note_type(extra, 'u32')
        leaf, inner = self.E.sizeof('LeafNode'), self.E.sizeof('InnerNode')
        size = add(add(I(8), self.E.sizeof('SlabHeader')), add(add(leaf, self.C), extra))
        R, rs = self.regions('Slab', size)
        buf = ('buf', D, ZERO, size)
        h = sym('handle', 'u32')
        for v, s in I_.method(S(), I_.cls('Slab'), 'deserialize', [buf, num(self.C)]):
            hd = I_.obj(s, v)[2].get('header')
            if hd is None or hd[0] != 'obj':
                raise Unsupported('header of Slab')
            self.compare2(hd, s, 'SlabHeader', 'SlabHeader', 'accountTag', ZERO, self.where('Slab', 'deserialize'))
            w = self.where('Slab', 'getNode')
            inside = []
            I_.hooks['slice'] = lambda I2, st, b, lo, hi: inside.append((st, b, lo, hi))
            I_.hooks['deserialized'] = lambda I2, st, c, b, n, w=w: self.chk(st.holds(le(n, b[3])), 'a record is read from fewer bytes than it has', w)
            n = 0
            for x, s2 in I_.method(s, v, 'getNode', [num(h)]):
                n += 1
                leaves = s2.holds(lt(h, I(1 << 31)))
                if not leaves and not s2.holds(le(I(1 << 31), h)):
                    self.chk(False, 'a handle is not recognised as one of a leaf or of an inner node by its top bit', w)
                    continue
                name = I_.cinfo(I_.obj(s2, x)[1])['name'] if x[0] == 'obj' and I_.obj(s2, x)[1] else '?'
                want = 'LeafNode' if leaves else 'InnerNode'
                if not self.chk(name == want, 'the node of a handle with%s top bit is read as %s' % ('out' if leaves else '', name), w):
                    continue
                at = add(R['leaf_nodes'][0], mul(leaf, h)) if leaves else add(R['inner_nodes'][0], mul(inner, sub(I(0xffffffff), h)))
                self.compare2(x, s2, want, want, None, at, w)
            self.chk(n >= 2, 'getNode does not tell leaves from inner nodes', w)
            # the slices do not cut the last slot off
            m = R['leaf_nodes']
            cap = div(sub(m[1], m[0]), leaf)
            for st, b, lo, hi in inside:
                s3 = st.st
                for l in (lt(h, cap),) if st.holds(lt(h, I(1 << 31))) else (lt(sub(I(0xffffffff), h), div(sub(R['inner_nodes'][1], R['inner_nodes'][0]), inner)),):
                    s3 = s3.assume(l) if s3 is not None else None
                end = add(lo, leaf if st.holds(lt(h, I(1 << 31))) else inner)
                if s3 is not None:
                    self.chk(s3.holds(conj(le(end, b[3]), le(end, hi))), 'a node in use lies behind the end of the buffer it is read from', w)
            del inside[:]
            w = self.where('Slab', 'getCallBackInfo')
            for x, s2 in I_.method(s, v, 'getCallBackInfo', [num(h)]):
                leaves = s2.holds(lt(h, I(1 << 31)))
                if not leaves:
                    self.chk(x == U and s2.holds(le(I(1 << 31), h)), 'an inner node is given callback information', w)
                    continue
                b = self.bytes_of(x, _St(s2, I_))
                c = R['callback_infos']
                s3 = s2.assume(lt(h, div(sub(R['leaf_nodes'][1], R['leaf_nodes'][0]), leaf)))
                end = mul(addc(h, 1), self.C)
                s3 = s3.assume(le(end, sub(c[1], c[0]))) if s3 is not None else None     # (h + 1) C <= leaf slots * C
                for st, buf, lo, hi in inside:
                    if s3 is not None and st.holds(lt(h, I(1 << 31))):
                        self.chk(s3.holds(le(hi, buf[3])), 'the callback information of a leaf in use lies behind the end of the buffer it is read from', w)
                self.chk(b is not None and s2.holds(conj(eq(b[0], add(R['callback_infos'][0], mul(self.C, h))), eq(b[1], self.C))), 'the callback information of a leaf is not read from its cell', w)
            I_.hooks.pop('slice'), I_.hooks.pop('deserialized')

    def queue_view(self):
        """a queue of n events as create_market accepts it: no bytes left over"""
        I_ = self.I
        n = sym('event capacity', 'u32')
        ev = self.E.sizeof('FillEvent')
        slot = add(ev, mul(I(2), self.C))
        hdr = add(I(8), self.E.sizeof('EventQueueHeader'))
        size = add(hdr, mul(slot, n))
        buf = ('buf', D, ZERO, size)
        r = I_.method(S(), I_.cls('EventQueue'), 'parse', [num(self.C), buf])
        out = []
        for v, s in r:
            s = s.assume(le(ONE, n))
            if s is not None:
                out.append((v, s))
        return n, ev, hdr, out

    def queue(self):
        I_ = self.I
        n, ev, hdr, vs = self.queue_view()
        i = sym('index', 'u32')
        w = self.where('EventQueue', 'parseEvent')
        cells = add(hdr, mul(ev, n))
        for v, s in vs:
            hd = I_.obj(s, v)[2].get('header')
            if hd is None or hd[0] != 'obj':
                raise Unsupported('header of EventQueue')
            self.compare2(hd, s, 'EventQueueHeader', 'EventQueueHeader', 'tag', ZERO, self.where('EventQueue', 'parse'))
            s = s.assume(lt(i, n))
            inside = []
            I_.hooks['slice'] = lambda I2, st, b, lo, hi: inside.append((st, b, lo, hi))
            I_.hooks['deserialized'] = lambda I2, st, c, b, n, w=w: self.chk(st.holds(le(n, b[3])), 'a record is read from fewer bytes than it has', w)
            kinds = set()
            at = add(hdr, mul(ev, i))
            tag = mk('app', 'rd', D, at, ONE)
            tags = self.enum('EventTag')
            for x, s2 in I_.method(s, v, 'parseEvent', [num(i)]):
                name = I_.cinfo(I_.obj(s2, x)[1])['name'] if x[0] == 'obj' and I_.obj(s2, x)[1] else '?'
                if name not in ('EventFill', 'EventOut'):
                    self.chk(False, 'an event is read as ' + name, w)
                    continue
                k = name[5:]
                kinds.add(k)
                self.chk(s2.holds(eq(tag, I(tags[k]))), 'an event is read as %s although its tag is not that of %s' % (name, k), w)
                d = I_.obj(s2, x)[2]
                cb = {'makerCallbackInfo': 0, 'takerCallbackInfo': 1} if k == 'Fill' else {'callbackInfo': 0}
                self.compare2(x, s2, name, 'FillEvent' if k == 'Fill' else 'OutEvent', None, at, w, skip=cb)
                for f, j in cb.items():
                    b = self.bytes_of(d.get(f, U), _St(s2, I_))
                    self.chk(b is not None and s2.holds(conj(eq(b[0], add(cells, mul(self.C, addc(mul(I(2), i), j)))), eq(b[1], self.C))),
                             '%s.%s is not read from cell 2i%s of the event' % (name, f, '+1' if j else ''), w)
            self.chk(kinds == {'Fill', 'Out'}, 'not both kinds of events can be read', w)
            for st, b, lo, hi in inside:
                if not occurs_in(self.C, hi):
                    end = add(lo, ev)
                    self.chk(st.holds(conj(le(end, b[3]), le(end, hi))), 'an event lies behind the end of the buffer it is read from', w)
            I_.hooks.pop('slice'), I_.hooks.pop('deserialized')

    def peek(self):
        I_ = self.I
        n, ev, hdr, vs = self.queue_view()
        i = sym('index', 'u32')
        w = self.where('EventQueue', 'peekAt')
        for v, s in vs:
            head = I_.obj(s, I_.obj(s, v)[2]['header'])[2]['head'][1]
            s = s.assume(lt(head, n)).assume(lt(i, n))
            seen = []
            I_.anchors[('EventQueue', 'parseEvent')] = lambda I2, st, this, args, node: seen.append((st, args[0])) or [(('opq', mk('sym', 'event')), st)]
            for x, s2 in I_.method(s, v, 'peekAt', [num(i)]):
                self.chk(x == ('opq', mk('sym', 'event')), 'peekAt does not return the event', w)
            self.chk(bool(seen), 'peekAt reads no event', w)
            for st, a in seen:
                self.chk(a[0] == 'num' and self.ismod(st, a[1], add(i, head), n), 'the event at a position of the queue is not read from the slot (head + position) mod capacity', w)

    FILLS = 'the events are not read from the slots (head + i) mod capacity for i below the number of events asked for'

    def ismod(self, st, a, s, n):
        for c in (lt(s, n), le(n, s)):
            t = st.assume(c)
            if t is None:
                continue
            tgt = s if c is lt(s, n) else sub(s, n)
            if not (t.holds(eq(a, tgt)) or t.holds(eq(a, rem(s, n)))):
                return False
        return True

    def fills(self):
        I_ = self.I
        n, ev, hdr, vs = self.queue_view()
        w = self.where('EventQueue', 'parseFill')
        fill, outc = I_.cls('EventFill'), I_.cls('EventOut')
        lim = sym('limit', 'u32')
        for v, s in vs:
            hd = I_.obj(s, I_.obj(s, v)[2]['header'])[2]
            head, count = hd['head'][1], hd['count'][1]
            s = s.assume(lt(head, n)).assume(le(count, n))
            for arg in (U, num(lim)):
                s0 = s if arg == U else s.assume(le(ONE, lim))
                seen, evs, rounds = [], [], []

                def parse(I2, st, this, args, node):
                    seen.append((st, args[0]))
                    r = []
                    for c in (fill, outc):
                        st2 = st.copy()
                        o = I2.new(st2, 'inst', c, {'@slot': args[0]})
                        st2.gh['event'] = (c, o)
                        r.append((o, st2))
                    return r
                I_.anchors[('EventQueue', 'parseEvent')] = parse

                def back(I2, nd, rec, st, env):
                    rounds.append((rec, st, env))
                I_.hooks['back'] = back
                rets = I_.method(s0, v, 'parseFill', [] if arg == U else [arg])
                want = count if arg == U else tmin(lim, count)
                whole = [(x, st) for x, st in rets if x[0] == 'seq']
                for x, st in whole:
                    k, e = x[1], x[3][1] if x[3][0] == 'dropped' else x[3]
                    if k.op == 'app' and k.a[0] == 'filtered':
                        k = k.a[1]
                    a = I_.obj(st, e)[2].get('@slot', U) if e[0] == 'obj' else U
                    s3 = st.assume(conj(le(ZERO, x[2]), lt(x[2], want)))
                    ok = st.holds(eq(k, want)) and a[0] == 'num' and (s3 is None or self.ismod(s3, a[1], add(x[2], head), n))
                    self.chk(ok, self.FILLS, w)
                for st, a in seen if not whole else ():
                    ok = False
                    if a[0] == 'num':
                        for lp in st.loops:
                            if lp[0] == 'index' and st.holds(eq(lp[2], want)) and self.ismod(st, a[1], add(lp[1], head), n):
                                ok = True
                        for x in symbols(a[1]):
                            rs = [(rec, s2, env) for rec, s2, env in rounds for nm, (old, new) in rec.items() if new[1:2] == (x,)]
                            if rs and self.counting(rs, x, want) and st.holds(lt(x, want)) and self.ismod(st.assume(le(ZERO, x)) or st, a[1], add(x, head), n):
                                ok = True
                    self.chk(ok, self.FILLS, w)
                self.chk(bool(seen), 'no event is read', w)
                for x, st in rets:
                    if 'event' not in st.gh:
                        continue
                    c, o = st.gh['event']
                    if x[0] == 'seq':
                        self.chk((x[3] == o) == (c == fill) and (c == fill or x[3][0] == 'dropped'), 'an event that is %sa fill is %s' % (('', 'left out') if c == fill else ('not ', 'returned')), w)
                for rec, st, env in rounds:
                    if 'event' not in st.gh:
                        continue
                    c, o = st.gh['event']
                    for nm, (old, new) in rec.items():
                        if new[0] == 'list':
                            t = st.heap[new[1]][2]['tail']
                            self.chk(t == ((o,) if c == fill else ()), 'an event that is %sa fill is %s' % (('', 'left out') if c == fill else ('not ', 'returned')), w)

    def counting(self, rs, x, want):
        """a variable that runs from 0 in steps of one"""
        for rec, st, env in rs:
            for nm, (old, new) in rec.items():
                if new[1:2] == (x,):
                    now = self.I.lookup(st, env, nm) if self.I.find_scope(st, env, nm) else None
                    if not (old == num(0) and now is not None and now[0] == 'num' and st.holds(eq(now[1], addc(x, 1)))):
                        return False
        return True

    # ------------------------------------------------------------ sizes and prices
    def allocation(self, ty, n):
        """size that the program computes for a capacity"""
        b = self.P.find(ty, 'compute_allocation_size')
        E = Engine(self.P)
        r = {v for v, s in E.exec_function(b, [n], State(), E.cs_id(0, 'root', None))}
        if len(r) != 1:
            raise Unsupported('size of ' + ty)
        return r.pop()

    def sizes(self):
        I_ = self.I
        m = mk('sym', 'capacity less one')
        note_type(m, 'u32')
        n = addc(m, 1)
        for ty in ('Slab', 'EventQueue'):
            sz = self.allocation(ty, n)
            w = self.where(ty, 'computeAllocationSize')
            for v, s in I_.method(S(), I_.cls(ty), 'computeAllocationSize', [num(n), num(self.C)]):
                self.chk(v[0] == 'num' and s.holds(eq(v[1], sz)), 'the size computed for a capacity differs from the one the program computes', w)

    def price(self):
        I_ = self.I
        key = sym('key', 'u128')
        want = div(key, I(1 << 64))
        f = I_.lookup_module('getPriceFromKey', FILES[0])
        if f is not None and f[0] == 'fn':
            for v, s in I_.invoke(S(), f, [bn(key)]):
                self.chk(v[0] == 'bn' and s.holds(eq(v[1], want)), 'the price of an order is not the upper half of its key', 'utils.ts getPriceFromKey')
        c = I_.cls('LeafNode')
        st = S()
        o = I_.new(st, 'inst', c, {'key': bn(key), 'baseQuantity': bn(sym('qty', 'u64'))})
        if 'getPrice' in I_.cinfo(c)['methods']:
            for v, s in I_.method(st, o, 'getPrice', []):
                self.chk(v[0] == 'bn' and s.holds(eq(v[1], want)), 'the price of an order is not the upper half of its key', self.where('LeafNode', 'getPrice'))

    def market(self):
        I_ = self.I
        c = I_.cls('MarketState')
        for v, s in I_.method(S(), c, 'deserialize', [('buf', D, ZERO, mk('app', 'len', D)), num(self.C)]):
            self.compare2(v, s, 'MarketState', 'MarketState', 'tag', ZERO, self.where('MarketState', 'deserialize'), skip=('callbackInfoLen',))
            for side in ('Bids', 'Asks'):
                m = 'load%sSlab' % side
                asked = []

                def slab(I2, st, this, args, node):
                    asked.append((st, args))
                    return [(('opq', mk('sym', 'slab')), st)]
                I_.anchors[('Slab', 'deserialize')] = slab
                key = I_.obj(s, v)[2].get(side.lower())
                if m not in I_.cinfo(c)['methods']:
                    raise Unsupported('no ' + m)
                I_.method(s, v, m, [('opq', mk('sym', 'connection'))])
                w = self.where('MarketState', m)
                self.chk(bool(asked), 'no book is read', w)
                for st, args in asked:
                    self.chk(key is not None and key[0] == 'opq' and occurs_in(key[1], I_.term(st, args[0])), 'the book is not read from the account that the market names for it', w)
                    self.chk(len(args) > 1 and args[1][0] == 'num' and st.holds(eq(args[1][1], self.C)), 'the book is read with another length of the callback information', w)

    # ------------------------------------------------------------ walks
    def nodes(self, cnt, w):
        """getNode by contract: leaf or inner node by the top bit, with opaque contents"""
        I_ = self.I
        leaf, inner = I_.cls('LeafNode'), I_.cls('InnerNode')

        def get(I2, st, this, args, node):
            h = args[0]
            if h == U:
                self.chk(False, 'a node is read whose handle is undefined', w)
                return []
            if h[0] != 'num':
                raise Unsupported('handle of kind ' + h[0])
            h = h[1]
            self.chk(st.holds(neg(eq(cnt, ZERO))), 'the root of an empty book is read', w)
            out = []
            for ok, s in I2.fork(st, mk('app', 'leaf', h)):
                s = s.copy()
                if ok:
                    k, q = app('lkey', h), app('lqty', h)
                    note_type(k, 'u128'); note_type(q, 'u64')
                    o = I2.new(s, 'inst', leaf, {'key': bn(k), 'baseQuantity': bn(q)})
                else:
                    ch = [app('child', h, I(i)) for i in (0, 1)]
                    k, p = app('ikey', h), app('plen', h)
                    note_type(k, 'u128'); note_type(p, 'u8')
                    for x in ch:
                        note_type(x, 'u32')
                    a = I2.new(s, 'arr', None, {'items': tuple(num(x) for x in ch)})
                    o = I2.new(s, 'inst', inner, {'key': bn(k), 'prefixLen': bn(p), 'children': a})
                    s2 = s.assume(le(p, I(127)))
                    s = s2 if s2 is not None else s
                s.gh['node'] = (h, ok, o)
                s.gh['reads'] = s.gh.get('reads', 0) + 1
                out.append((o, s))
            return out
        I_.anchors[('Slab', 'getNode')] = get

        def cb(I2, st, this, args, node):
            return [(('opq', app('cb', args[0][1])), st)]
        I_.anchors[('Slab', 'getCallBackInfo')] = cb

        def isleaf(I2, st, this, args, node):
            return [(boolv(mk('app', 'leaf', args[0][1])), st)]
        I_.anchors[('', 'isLeaf')] = isleaf

    def book(self):
        I_ = self.I
        st = S()
        root, cnt = sym('root', 'u32'), sym('leaf count', 'u32')
        h = I_.new(st, 'inst', I_.cls('SlabHeader'), {'rootNode': num(root), 'leafCount': num(cnt)})
        o = I_.new(st, 'inst', I_.cls('Slab'), {'header': h, 'callBackInfoLen': num(self.C)})
        return st, o, root, cnt

    def start(self):
        """ghosts of a round are cleared when it starts"""
        def head(I2, n, st, rec):
            st.gh = {k: v for k, v in st.gh.items() if k not in ('node', 'reads')}
            st.gh['round'] = rec
            st.gh['ys'] = len(st.gh.get('yields', ((),))[-1])
        self.I.hooks['head'] = head

    def find(self):
        I_ = self.I
        st, o, root, cnt = self.book()
        key = sym('key', 'u128')
        w = self.where('Slab', 'getNodeByKey')
        self.nodes(cnt, w)
        self.start()
        seen = []

        def cursor(rec, h):
            return [nm for nm, (old, new) in rec.items() if new[0] == 'num' and new[1] is h]

        def back(I2, n, rec, s, env):
            nd = s.gh.get('node')
            if nd is None:
                self.chk(False, 'a round of the search reads no node', w)
                return
            h, isleaf, ob = nd
            cs = cursor(rec, h)
            seen.append(1)
            if not self.chk(bool(cs), 'the search reads another node than the one it has come to', w):
                return
            old = rec[cs[0]][0]
            self.chk(old == num(root), 'the search does not start at the root', w)
            now = I2.lookup(s, env, cs[0])
            bit = app('bit', key, sub(I(127), app('plen', h)))
            ok = now[0] == 'num' and any(now[1] is app('child', h, I(b)) and s.holds(eq(bit, ZERO) if b == 0 else neg(eq(bit, ZERO))) for b in (0, 1))
            self.chk(not isleaf and ok, 'the search does not go on at the child on the side of the critical bit of the key', w)
        I_.hooks['back'] = back
        n = 0
        for v, s in I_.method(st, o, 'getNodeByKey', [bn(key)]):
            n += 1
            nd = s.gh.get('node')
            if v == U:
                if nd is None:
                    self.chk(s.holds(eq(cnt, ZERO)), 'nothing is found although the book is not empty', w)
                elif nd[1]:
                    self.chk(s.holds(neg(eq(app('lkey', nd[0]), key))), 'nothing is found although the key is there', w)
                else:
                    h = nd[0]
                    x, y = sorted((app('ikey', h), key), key=lambda z: z.id)
                    bl = app('bitlen', app('xor', x, y))
                    self.chk(s.holds(lt(sub(I(128), bl), app('plen', h))), 'the search gives up although the key may lie below the node', w)
            else:
                self.chk(nd is not None and v == nd[2] and nd[1] and s.holds(eq(app('lkey', nd[0]), key)), 'an order is returned for a key that is not its own', w)
        self.chk(n > 0 and bool(seen), 'the search does not walk the tree', w)

    def stackrule(self, rec, s, w, near):
        """one round of a traversal with a stack: the popped node's children go on it, the near one last"""
        lists = [(nm, x) for nm, x in rec.items() if x[1][0] == 'list']
        nd = s.gh.get('node')
        if nd is None:
            self.chk(False, 'a round of the walk reads no node', w)
            return None
        h, isleaf, ob = nd
        st = [(nm, x) for nm, x in lists if h.op == 'app' and h.a[0] == 'elem' and h.a[1] is x[1][2]]
        if not self.chk(len(st) == 1 and s.gh.get('reads') == 1, 'the walk reads another node than the one taken off the stack', w):
            return None
        nm, (old, new) = st[0]
        d = s.heap[new[1]][2]
        self.chk(h.a[2] is addc(new[3], -1) and d['len'] is addc(new[3], -1), 'the walk does not take its last node off the stack', w)
        want = () if isleaf else (num(app('child', h, I(1 - near))), num(app('child', h, I(near))))
        self.chk(d['tail'] == want, 'an order puts nodes on the stack' if isleaf else 'an inner node does not put its children on the stack, the far one first', w)
        return nm, h, isleaf, ob, old

    def items(self):
        I_ = self.I
        w = self.where('Slab', 'items')
        for desc in (0, 1):
            st, o, root, cnt = self.book()
            self.nodes(cnt, w)
            self.start()
            st.gh['yields'] = ()
            seen = []

            def back(I2, n, rec, s, env, desc=desc):
                r = self.stackrule(rec, s, w, desc)
                if r is None:
                    return
                nm, h, isleaf, ob, old = r
                seen.append(isleaf)
                self.chk(old[0] == 'was' and old[2].get('items') == (num(root),), 'the walk does not start with the root alone', w)
                ys = s.gh['yields'][-1][s.gh.get('ys', 0):]
                if isleaf:
                    ok = len(ys) == 1 and ys[0][0] == 'obj'
                    if ok:
                        d = I2.obj(s, ys[0])[2]
                        ok = d.get('leafNode') == ob and d.get('callbackInfo') == ('opq', app('cb', h))
                    self.chk(ok, 'an order is not yielded once, with its own callback information', w)
                else:
                    self.chk(not ys, 'an inner node is yielded', w)

            def exit_(I2, n, rec, s, why):
                ls = [new for old, new in rec.values() if new[0] == 'list']
                self.chk(len(ls) == 1 and not s.heap[ls[0][1]][2]['tail'] and s.holds(eq(s.heap[ls[0][1]][2]['len'], ZERO)), 'the walk ends although there are nodes on its stack', w)
            I_.hooks['back'], I_.hooks['exit'] = back, exit_
            for v, s in I_.method(st, o, 'items', [boolv(I(desc))]):
                if not s.gh.get('round'):
                    self.chk(s.holds(eq(cnt, ZERO)), 'the walk yields nothing although the book is not empty', w)
            self.chk(set(seen) == {True, False}, 'the walk does not visit orders and inner nodes', w)

    def top(self):
        I_ = self.I
        w = self.where('Slab', 'getMinMaxNodes')
        n, mx = sym('wanted', 'u32'), sym('max', 'bool')
        st, o, root, cnt = self.book()
        called = []

        def el(I2, i):
            return ('opq', app('order', i))

        def items(I2, s, this, args, node):
            called.append((s, args))
            return [(('gen', el, ()), s)]
        I_.anchors[('Slab', 'items')] = items
        seen = []

        # the list never grows beyond n: len <= n, or len < n, holds at the start of every round
        inv = {'le': True, 'lt': True}

        backs, exits = [], []

        def thelist(rec, s):
            ls = [(nm, old, new) for nm, (old, new) in rec.items() if new[0] == 'list']
            if len(ls) != 1:
                raise Unsupported('lists of getMinMaxNodes')
            d = s.heap[ls[0][2][1]][2]
            return ls[0][1], d, addc(d['len'], len(d['tail']))

        def back(I2, nd, rec, s, env):
            old, d, k = thelist(rec, s)
            seen.append(1)
            idx = [x for x in s.loops if x[0] == 'index']
            self.chk(old[2].get('items') == (), 'the list of orders does not start empty', w)
            self.chk(len(d['tail']) == 1 and idx and d['tail'][0] == el(I2, idx[-1][1]), 'an order of the walk is left out or changed', w)
            now = {nm: I2.lookup(s, env, nm) for nm, (o_, new) in rec.items() if new[0] == 'num' and I2.find_scope(s, env, nm)}
            backs.append((rec, s, d['len'], k, now))

        def exit_(I2, nd, rec, s, why):
            old, d, k = thelist(rec, s)
            exits.append((rec, s, d['len'], k, why))

        def head(I2, nd, s, rec):
            if not s.holds(lt(ZERO, n)):
                inv['lt'] = False
        I_.hooks['back'], I_.hooks['exit'], I_.hooks['head'] = back, exit_, head
        I_.method(st, o, 'getMinMaxNodes', [num(n), boolv(mx)])
        # counters that run along with the length of the list
        ties = []
        for nm in {x for rec, s, a, k, now in backs for x in now}:
            for sign, start in ((1, num(0)), (-1, num(n))):
                if all(nm in now and now[nm][0] == 'num' and rec[nm][0] == start and s.holds(eq(sub(now[nm][1], rec[nm][1][1]), mul(I(sign), sub(k, a)))) for rec, s, a, k, now in backs):
                    ties.append((nm, sign, start[1]))

        def tied(rec, s, a):
            for nm, sign, start in ties:
                if s is not None and nm in rec:
                    s = s.assume(eq(rec[nm][1][1], add(start, mul(I(sign), a))))
            return s
        for rec, s, a, k, x in backs + exits:
            end = type(x) is not dict
            s = tied(rec, s, a)
            if s is None:
                continue
            for c, rel in (('le', le), ('lt', lt)):
                s2 = s.assume(rel(a, n))
                if s2 is not None and not s2.holds((le if end else rel)(k, n)):
                    inv[c] = False
        for rec, s, a, k, why in exits:
            s = tied(rec, s, a)
            if why != 'cond' and s is not None:
                self.chk(s.holds(le(n, k)), 'the list ends although more orders were asked for', w)
        if not called or not seen:
            raise Unsupported('shape of getMinMaxNodes')
        self.chk(inv['le'] or inv['lt'], 'more orders are returned than were asked for', w)
        for s, args in called:
            self.chk(bool(args) and args[0][0] == 'bool' and s.holds(eq(args[0][1], mx)) or args and args[0] == boolv(mx), 'the largest orders are not walked downwards, or the smallest not upwards', w)

    def depth(self):
        I_ = self.I
        w = self.where('Slab', 'getL2DepthJS')
        for inc in (0, 1):
            st, o, root, cnt = self.book()
            self.nodes(cnt, w)
            dep = sym('depth', 'u32')
            lists = {}

            def head(I2, n, s, rec):
                s.gh = {k: v for k, v in s.gh.items() if k not in ('node', 'reads')}
                for nm, (old, new) in rec.items():
                    if new[0] == 'list' and s.heap[new[1]][2]['kind'] == 'bn':
                        # the list of levels holds pairs
                        d = dict(s.heap[new[1]][2])
                        half = mk('app', 'pairs', new[2])
                        note_type(half, 'u32')
                        d['len'] = mul(I(2), half)
                        s.heap[new[1]] = ('sarr', None, d)
                        lists[new[1]] = (new[2], d['len'])
                        rec[nm] = (old, ('list', new[1], new[2], d['len']))
            I_.hooks['head'] = head
            seen, res, steps, ends = [], [], set(), []

            def back(I2, n, rec, s, env, inc=inc):
                lv = [x for x in rec.values() if x[1][0] == 'list' and x[1][1] in lists]
                nd = s.gh.get('node')
                if nd is None and not lv:
                    # the loop that builds the result
                    for nm, (old, new) in rec.items():
                        if new[0] == 'list':
                            t = s.heap[new[1]][2]['tail']
                            ok = old[2].get('items') == () and len(t) == 1 and t[0][0] == 'obj'
                            if ok:
                                d = I2.obj(s, t[0])[2]
                                i = [x for x in rec.values() if x[1][0] == 'num']
                                ok = len(i) == 1 and i[0][0] == num(0)
                                if ok:
                                    iv = i[0][1][1]
                                    base = next(iter(lists.values()))[0]
                                    nmi = [m for m, x in rec.items() if x[1][0] == 'num'][0]
                                    step = sub(I2.lookup(s, env, nmi)[1], iv)
                                    steps.add(step)
                                    at = mul(I(2), iv) if step is ONE else iv if step is I(2) else None
                                    if step is I(2):
                                        # from 0 in steps of two: an even number
                                        if s.holds(eq(addc(iv, 1), next(iter(lists.values()))[1])):
                                            return
                                    ok = at is not None and d.get('size') == bn(app('elem', base, at)) and d.get('price') == bn(app('elem', base, addc(at, 1)))
                            res.append(1)
                            self.chk(ok, 'a level is not returned with its own price and size', w)
                    return
                r = self.stackrule(rec, s, w, 0 if inc else 1)
                if r is None:
                    return
                nm, h, isleaf, ob, old = r
                self.chk(old[0] == 'was' and old[2].get('items') == (num(root),), 'the walk does not start with the root alone', w)
                if len(lv) != 1:
                    raise Unsupported('levels')
                seen.append(isleaf)
                lold, lnew = lv[0]
                self.chk(lold[2].get('items') == (), 'the list of levels does not start empty', w)
                d = s.heap[lnew[1]][2]
                if not isleaf:
                    self.chk(d['tail'] == () and d['over'] == () and d['len'] is lnew[3], 'an inner node changes the levels', w)
                    return
                price, qty = div(app('lkey', h), I(1 << 64)), app('lqty', h)
                ln = lnew[3]
                last = app('elem', lnew[2], addc(ln, -1))
                if s.holds(lt(ZERO, ln)) and s.holds(eq(last, price)):
                    at = addc(ln, -2)
                    ok = d['tail'] == () and len(d['over']) == 1 and d['over'][0][0] is at and d['over'][0][1][0] == 'bn' and s.holds(eq(d['over'][0][1][1], add(app('elem', lnew[2], at), qty)))
                    self.chk(ok, 'an order at the price of the last level does not add its quantity to it', w)
                else:
                    if d['tail'] == () and d['over'] == () and s.holds(le(mul(I(2), dep), ln)):
                        return      # enough levels: the rest of the walk changes nothing
                    new = s.holds(eq(ln, ZERO)) or s.holds(neg(eq(last, price)))
                    self.chk(new and d['over'] == () and len(d['tail']) == 2 and d['tail'][0] == bn(qty) and d['tail'][1][0] == 'bn' and s.holds(eq(d['tail'][1][1], price)),
                             'an order at a new price does not open a level of its quantity and price', w)
                    self.chk(s.holds(neg(eq(ln, mul(I(2), dep)))) or s.holds(lt(ln, mul(I(2), dep))), 'more levels are returned than were asked for', w)

            def exit_(I2, n, rec, s, why):
                lv = [x for x in rec.values() if x[1][0] == 'list' and x[1][1] in lists]
                st_ = [x[1] for x in rec.values() if x[1][0] == 'list' and x[1][1] not in lists]
                if not lv:
                    iv = [x[1][1] for x in rec.values() if x[1][0] == 'num']
                    if lists and len(iv) == 1:
                        ends.append((s, iv[0]))
                    return
                lold, lnew = lv[0]
                d = s.heap[lnew[1]][2]
                self.chk(d['tail'] == () and d['over'] == (), 'the walk ends in the middle of a level', w)
                if any(s.holds(eq(s.heap[x[1]][2]['len'], ZERO)) and not s.heap[x[1]][2]['tail'] for x in st_) and 'node' not in s.gh:
                    return
                nd = s.gh.get('node')
                ok = nd is not None and nd[1]
                if ok:
                    price = div(app('lkey', nd[0]), I(1 << 64))
                    ln = lnew[3]
                    ok = s.holds(le(mul(I(2), dep), ln)) and (s.holds(eq(ln, ZERO)) or s.holds(neg(eq(app('elem', lnew[2], addc(ln, -1)), price))))
                self.chk(ok, 'the walk ends before the levels asked for are complete', w)
            I_.hooks['back'], I_.hooks['exit'] = back, exit_
            if 'getL2DepthJS' not in I_.cinfo(I_.cls('Slab'))['methods']:
                raise Unsupported('no getL2DepthJS')
            for v, s in I_.method(st, o, 'getL2DepthJS', [num(dep), boolv(I(inc))]):
                if v[0] == 'obj' and I_.obj(s, v)[0] == 'arr' and not I_.obj(s, v)[2]['items']:
                    self.chk(s.holds(disj(eq(cnt, ZERO), eq(dep, ZERO))), 'no level is returned although the book is not empty', w)
            for s, iv in ends:
                at = {ONE: mul(I(2), iv), I(2): iv}.get(next(iter(steps)) if len(steps) == 1 else None)
                self.chk(at is not None and s.holds(le(next(iter(lists.values()))[1], at)), 'not all levels are returned', w)
            if set(seen) != {True, False} or not res:
                raise Unsupported('shape of getL2DepthJS')

    # ------------------------------------------------------------ instructions
    INSTR = (('createMarketInstruction', 'CreateMarket', 'create_market'), ('newOrderInstruction', 'NewOrder', 'new_order'), ('consumeEventsInstruction', 'ConsumeEvents', 'consume_events'),
             ('cancelOrderInstruction', 'CancelOrder', 'cancel_order'), ('closeMarketInstruction', 'CloseMarket', 'close_market'), ('massCancelOrderInstruction', 'MassCancelOrders', 'mass_cancel_orders'))

    def borsh(self, t):
        t = t.strip()
        s = t.split('::')[-1]
        if s == 'Pubkey':
            return ('[u8; 32]',)
        if s == 'bool' or s in ('Side', 'SelfTradeBehavior'):
            return ('u8', 'bool')
        m = re.match(r'(?:[\w:]*::)?Vec<(.*)>$', t)
        if m:
            return tuple('Vec<%s>' % x for x in self.borsh(m.group(1)))
        if t == 'C':
            return ('[u8; ?]',)
        return (t,)

    def instructions(self):
        I_ = self.I
        tags = self.enum('AgnosticOrderbookInstruction')
        for cls, variant, mod in self.INSTR:
            c = I_.cls(cls)
            if c is None:
                raise Unsupported('no class ' + cls)
            w = self.where(cls)
            ci = I_.cinfo(c)
            st = S()
            given = {}
            for name, ty in I_.fields_of(st, I_.static(c, 'schema'), c):
                given[name] = ('opq', mk('sym', 'given ' + name))
            obj = I_.new(st, 'inst', None, dict(given))
            params = [p['name']['text'] for p in ci['methods']['getInstruction']['parameters']]
            vals = [('opq', mk('sym', p)) for p in params]
            rust = [(f, t) for f, t in self.P.adt('processor::%s::Params' % mod).variants[0][2]]
            accs = [f for f, t in self.P.adt('processor::%s::Accounts' % mod).variants[0][2]]
            done = 0
            for o, s in I_.construct(st, c, [obj]):
                for v, s2 in I_.method(s, o, 'getInstruction', vals):
                    done += 1
                    d = I_.obj(s2, v)[2]
                    enc = d.get('data')
                    if enc is None or enc[0] != 'encoded':
                        raise Unsupported('instruction data')
                    enc = enc[1]
                    self.chk(bool(enc) and enc[0][1] == 'u8' and enc[0][2] == num(tags.get(variant, -1)), 'the instruction does not start with the code of %s, %s' % (variant, tags.get(variant)), w)
                    got = [(snake(n), t, x) for n, t, x in enc[1:]]
                    self.chk([g[0] for g in got] == [f for f, t in rust], 'the encoded parameters %s are not those of the program, %s' % ([g[0] for g in got], [f for f, t in rust]), w)
                    for (n, t, x), (f, rt) in zip(got, rust):
                        if n == f:
                            want = self.borsh(rt)
                            self.chk(t in want or any(y.endswith('?]') and t.startswith('[u8;') for y in want), 'the parameter %s is encoded as %s where the program expects %s' % (n, t, want[0]), w)
                    for n, t, x in got:
                        self.chk(x == given.get(camel(n)), 'the parameter %s is encoded from another value' % n, w)
                    keys = d.get('keys')
                    ks = []
                    for kk in I_.obj(s2, keys)[2]['items']:
                        kd = I_.obj(s2, kk)[2]
                        ks.append((kd.get('pubkey'), kd.get('isWritable') == boolv(ONE)))
                    self.chk(len(ks) >= len(accs), 'too few accounts are passed', w)
                    wr = self.writable(mod)
                    for i, a in enumerate(accs):
                        if i < len(ks):
                            self.chk(ks[i][0] == ('opq', mk('sym', camel(a))), 'account %d is not %s' % (i, a), w)
                            if a in wr:
                                self.chk(ks[i][1], 'the account %s is not passed as writable' % a, w)
                    self.chk(d.get('programId') == ('opq', mk('sym', 'programId')), 'the instruction is addressed to another program', w)
            self.chk(done > 0, 'no instruction is built', w)

    def writable(self, mod):
        """accounts that the program's own builder marks writable"""
        src = self.P.src('src/processor/%s.rs' % mod)
        src = src if isinstance(src, str) else '\n'.join(src)
        m = re.search(r'pub struct Accounts\b.*?\{(.*?)\n\}', src, re.S)
        return set(re.findall(r'#\[cons\([^\)]*writable[^\)]*\)\]\s*(?:///[^\n]*\n\s*)*pub (\w+)', m.group(1))) if m else set()

    # ------------------------------------------------------------ accounts of a new market
    def create(self):
        I_ = self.I
        f = I_.lookup_module('createMarket', 'bindings.ts')
        if f is None or f[0] != 'fn':
            raise Unsupported('no createMarket')
        n, file = TI.Interp._nodes[f[1]]
        names = [p['name']['text'] for p in n['parameters']]
        for given in (True, False):
            self.create1(f, names, given)

    def create1(self, f, names, given):
        """given: the caller names the program"""
        I_ = self.I
        args = [num(self.C) if p == 'callbackInfoLen' else num(addc(sym(p, 'u32'), 1)) if p in ('eventCapacity', 'orderCapacity') else
                U if p == 'programId' and not given else ('opq', mk('sym', p)) for p in names]
        if not given:
            args = args[:-1] if names[-1] == 'programId' else args
        self.pk = 0
        made, built = [], []

        def keypair(st):
            self.pk += 1
            return [(('opq', mk('sym', 'keypair%d' % self.pk)), st)]

        def ns(I2, st, name, args, node=None):
            if name == 'SystemProgram.createAccount':
                d = I2.obj(st, args[0])[2]
                made.append((st, d))
                c = ('opq', mk('sym', 'creation%d' % len(made)))
                st = st.copy()
                st.gh = {**st.gh, 'made': st.gh.get('made', ()) + ((c, d),)}
                return [(c, st)]
            if name == 'Keypair' or name == 'Keypair.generate':
                return keypair(st)
            return orig(st, name, args, node)
        orig = I_.native
        I_.native = lambda st, name, a, node=None: ns(I_, st, name, a, node)

        def gi(I2, st, this, args, node):
            built.append((st, this, args))
            return [(('opq', mk('sym', 'instruction')), st)]
        I_.anchors[('createMarketInstruction', 'getInstruction')] = gi
        old = I_.x_NewExpression
        I_.x_NewExpression = lambda n_, st, env: keypair(st) if n_['expression'].get('text') == 'Keypair' else old(n_, st, env)
        try:
            st = S()
            for x in ('undef', 'null'):
                # a program that is named is an object
                st = st.assume(neg(mk('app', 'is', mk('sym', 'programId'), '()' + x)))
            res = I_.invoke(st.assume(mk('app', 'truthy', mk('sym', 'programId'))), f, args)
        finally:
            del I_.native, I_.x_NewExpression
        w = 'bindings.ts createMarket'
        self.chk(bool(built) and bool(made) and bool(res), 'no market is created', w)
        val = dict(zip(names, args))
        if not {'callbackInfoLen', 'eventCapacity', 'orderCapacity'} <= set(names):
            raise Unsupported('parameters of createMarket')
        accs = [x for x, t in self.P.adt('processor::create_market::Accounts').variants[0][2]]
        ev, bk = self.allocation('EventQueue', val['eventCapacity'][1]), self.allocation('Slab', val['orderCapacity'][1])
        want = {'event_queue': ev, 'bids': bk, 'asks': bk, 'market': I(self.expect('MarketState', 'tag')[2])}
        for st, this, a in built:
            ks = a[1:]
            self.chk(len({x for x in ks}) == len(ks) >= len(accs), 'the accounts of a new market are not distinct', w)
            if given:
                self.chk(a[0] == ('opq', mk('sym', 'programId')), 'the market is not created in the program that was named', w)
            else:
                self.chk(a[0] not in (U, ('null',)), 'the market is created in no program when none is named', w)
            for i, x in enumerate(accs):
                m = [d for c, d in st.gh.get('made', ()) if i < len(ks) and d.get('newAccountPubkey') == ks[i]]
                self.chk(bool(m) and all(d.get('space', U)[0] == 'num' and st.holds(eq(d['space'][1], want[x])) for d in m), 'the account created for %s does not have its size' % x, w)
                for d in m:
                    self.chk(d.get('programId') == a[0], 'the account created for %s does not belong to the program' % x, w)
                    l = d.get('lamports', U)
                    if l[0] == 'opq':
                        r = [t for t in subterms(l[1]) if t.op == 'app' and 'getMinimumBalanceForRentExemption' in t.a and t.a[-1] not in ('getMinimumBalanceForRentExemption',)]
                        if r:
                            self.chk(any(st.holds(eq(t.a[-1], want[x])) for t in r), 'the account created for %s is funded for another size' % x, w)
            # parameters of the program keep the values they were given
            d = I_.obj(st, this)[2] if this is not None and this[0] == 'obj' else {}
            for x, t in self.P.adt('processor::create_market::Params').variants[0][2]:
                if camel(x) in d and camel(x) in val:
                    self.chk(d[camel(x)] == val[camel(x)], 'the market is not created with the %s that was asked for' % x, w)
        for v, s in res:
            it = I_.obj(s, v)[2].get('items') if v[0] == 'obj' and I_.obj(s, v)[0] == 'arr' else None
            if it is None or len(it) != 2 or any(x[0] != 'obj' or I_.obj(s, x)[0] != 'arr' for x in it):
                raise Unsupported('result of createMarket')
            signers, ixs = (I_.obj(s, x)[2]['items'] for x in it)
            for c, d in s.gh.get('made', ()):
                pk = d.get('newAccountPubkey', U)
                self.chk(any(x[0] == 'opq' and pk[0] == 'opq' and x[1] in subterms(pk[1]) for x in signers), 'the key of an account to be created is not among the signers', w)
                ix = ('opq', mk('sym', 'instruction'))
                self.chk(c in ixs and ix in ixs and ixs.index(c) < ixs.index(ix), 'an account of the market is not created before the market', w)


class _St:
    """a path with its interpreter, as the comparisons need it"""
    def __init__(self, s, I_):
        self.s, self.I = s, I_
        self.heap = s.heap

    def holds(self, c):
        return self.s.holds(c)


def reads(v):
    """reads of the account that a value depends on"""
    out, todo = [], [x for x in v if isinstance(x, T)] if isinstance(v, tuple) else []
    seen = set()
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == 'app' and t.a[0] == 'rd':
            out.append(t)
        for x in t.a:
            if isinstance(x, T):
                todo.append(x)
            elif isinstance(x, tuple):
                todo.extend(y for y in flatten(x) if isinstance(y, T))
    return out


def flatten(x):
    for y in x:
        if isinstance(y, tuple):
            yield from flatten(y)
        else:
            yield y


def symbols(t):
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, T):
            if x.op == 'sym':
                out.add(x)
            todo.extend(x.a)
        elif isinstance(x, tuple):
            todo.extend(x)
    return out


def subterms(t):
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        if isinstance(x, T) and x not in out:
            out.append(x)
            todo += [y for y in x.a if isinstance(y, T)]
    return out


def occurs_in(x, t):
    from .common import occurs
    return occurs(x, t)


def run(registry, rep):
    P = registry.program(solana=True)
    c = Client(P).run(rep.prop)
    rep.scopes.append('client against ' + P.name)
    rep.functions |= {'js:' + x for x in c.I.functions}
    rep.notes += ['undecided: ' + x for x in c.undecided]
    for prop, ok, msg, loc, scope in c.out:
        rep.add(ok, msg, loc, scope)
    return c
