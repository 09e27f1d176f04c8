"""P05, P07 (price rounding), P32 on the dispatcher, the entry point, the client builders and the parameter encodings.

The dispatcher is interpreted with symbolic accounts and instruction bytes, each operation standing for its result; the
builders are interpreted with symbolic accounts, so the code and the account list they emit are compared with the slots the
dispatcher hands to the operation and with what the operation was found to mutate."""
from .common import *
from .. import effects
from . import proc

OPS = ('create_market', 'new_order', 'consume_events', 'cancel_order', 'close_market', 'mass_cancel_orders')
INTW = {'u8': 1, 'bool': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'u128': 16, 'i64': 8}
SUMMARY = ('new_order', 'cancel_order', 'mass_cancel_orders')


class Dispatch(Rules):
    def __init__(self, P, mutated, signed):
        super().__init__(P)
        self.mutated = mutated
        self.signed = signed
        self.byname = {b.name: b for b in effects.allbodies(P)}
        self.A, self.Pa = {}, {}
        for a in (P.adts.values() if isinstance(P.adts, dict) else P.adts):
            for op in OPS:
                if a.path.endswith(op + '::Accounts'):
                    self.A[op] = a
                if a.path.endswith(op + '::Params'):
                    self.Pa[op] = a
        self.code, self.slots = {}, {}

    def run(self):
        self.dispatcher()
        self.entrypoint()
        for op in OPS:
            self.builder(op)
            self.encoding(self.Pa[op])
        for n in ('Side', 'SelfTradeBehavior', 'OrderSummary'):
            a = self.P.adt(n)
            if a is None:
                raise Unsupported('no ' + n)
            self.encoding(a)
        self.summarysize()
        self.rounding()
        return self

    def summarysize(self):
        a = self.P.adt('OrderSummary')
        E = self.engine()
        v = E.const_named('state::orderbook::ORDER_SUMMARY_SIZE')
        if v is None:
            return

        def size(t):
            t = t.strip()
            if t in INTW:
                return INTW[t]
            m = re.match(r'^(?:[\w:]*::)?Option<(.*)>$', t)
            if m:
                n = size(m.group(1))
                return None if n is None else 1 + n
            return None
        l = [size(t) for n, t in a.variants[0][2]]
        if None not in l:
            self.chk('P05', v is I(sum(l)), 'the published size of an order summary is not that of its encoding', None)

    # ------------------------------------------------------------ dispatcher
    def dispatcher(self):
        b = self.byname.get('processor::process_instruction')
        if b is None:
            raise Unsupported('no processor::process_instruction')
        E = self.engine()
        pid, accs, data = [mk('sym', x) for x in ('program_id', 'accounts', 'instruction_data')]
        root = E.target(data)
        m0 = E.deref(State(), data)
        byte = proj(m0, ('i', ZERO))
        note_type(byte, 'u8')
        for op in OPS:
            p = self.byname.get('processor::%s::process' % op)
            if p is None:
                raise Unsupported('no operation ' + op)

            def h(E, fr, st, vals, tys, dty, span, op=op):
                c = lambda p, ok, m: E.event(fr, 'chk', (p, ok, m), st, span)
                code = [k for k in range(256) if st.holds(eq(byte, I(k)))]
                c('P05', len(code) == 1, 'an operation runs for no single instruction code')
                E.event(fr, 'code', (op, code[0] if len(code) == 1 else None), st, span)
                c('P05', G(st, '#op') is ZERO, 'more than one operation runs')
                c('P05', vals[0] is pid, 'an operation gets another program id')
                acc = vals[1] if vals[1].op == 'adt' else E.deref(st, vals[1])
                sl = []
                for i, f in enumerate(self.A[op].variants[0][2]):
                    x = proj(acc, ('f', None, i))
                    k = None
                    if x.op == 'ref' and x.a[0] == E.target(accs)[0] and len(x.a[1]) >= 1 and x.a[1][-1][0] == 'i' and x.a[1][-1][1].op == 'int':
                        k = x.a[1][-1][1].a[0]
                    sl.append((f[0], k))
                c('P05', all(k is not None for f, k in sl) and len({k for f, k in sl}) == len(sl), 'an account of the operation is not taken from its own slot')
                E.event(fr, 'slots', (op, tuple(sl)), st, span)
                if len(vals) > 2 and self.Pa[op].variants[0][2]:
                    x = vals[2]
                    good = x.op == 'pj' and x.a[0].op == 'app' and x.a[0].a[0] == 'decode'
                    c('P05', good, 'the parameters of the operation are not decoded from the instruction data')
                    if good:
                        ty, src = x.a[0].a[1], x.a[0].a[2]
                        c('P05', src.op == 'ref' and src.a[0] == root[0] and tuple(src.a[1]) == (('r', ONE, mk('len', data)),), 'the parameters are not decoded from the bytes after the instruction code')
                        c('P05', ty == self.Pa[op].path, 'the parameters are decoded as those of another operation')
                out = []
                r = mk('sym', 'result of ' + op)
                for k in (0, 1):
                    s = st.copy()
                    setG(s, '#op', I(OPS.index(op) + 1))
                    setG(s, '#err', I(k))
                    v = mk('sym', ('error of ' if k else 'value of ') + op)
                    out.append((ERR(v) if k else OK(v if op in SUMMARY else UNIT), s))
                return out
            E.anchors[id(p)] = h

        def dec(E, fr, st, func, vals, tys, dty, span):
            m = re.match(r'^<(.*) as .*>::(try_from_slice|deserialize)', func)
            ty = strip_generics(E.tsub(fr, m.group(1)) or m.group(1)) if m else '?'
            src = vals[0]
            if func.rstrip('>').endswith('deserialize') or '::deserialize' in func:
                # a cursor: &mut &[u8]
                src = E.deref(st, vals[0])
            r = mk('app', 'decode', ty, src)
            out = []
            for k in (0, 1):
                s = st.assume(eq(mk('discr', r), I(k)))
                if s is not None:
                    s = s.copy()
                    if k:
                        setG(s, '#bad', ONE)
                    out.append((OK(proj(r, ('f', 0, 0))) if k == 0 else ERR(proj(r, ('f', 1, 0))), s))
            return out
        E.externs['try_from_slice'] = dec
        E.externs['deserialize'] = dec
        st = State()
        if E.RANK is not None:
            st = st.assume(lt(ZERO, mk('len', data)))
        outs = E.exec_function(b, [pid, accs, data], st, E.cs_id(0, 'root', None))
        ran = set()
        for v, s in outs:
            o = G(s, '#op')
            k = o.a[0] if o.op == 'int' else -1
            ok = v.op == 'adt' and v.a[1] == 0
            err = v.op == 'adt' and v.a[1] == 1
            self.chk('P32', ok or err, 'the outcome of an instruction is not determined', b)
            if k == 0:
                self.chk('P05', err, 'an instruction that runs no operation succeeds', b)
                continue
            if k < 0:
                self.chk('P05', False, 'more than one operation may have run', b)
                continue
            op = OPS[k - 1]
            ran.add(op)
            if G(s, '#err') is ONE:
                self.chk('P32', err and v.a[2][0] is mk('sym', 'error of ' + op), 'the failure of %s is not returned' % op, b)
            else:
                self.chk('P32', ok, 'the success of %s is reported as a failure' % op, b)
                if ok:
                    w = v.a[2][0]
                    want = w.op == 'adt' and (w.a[1] == 1 and w.a[2][0] is mk('sym', 'value of ' + op) if op in SUMMARY else w.a[1] == 0)
                    self.chk('P32', want, 'the result of %s is not the one returned' % op, b)
            self.chk('P32', s.mem.get(('G', '#bad')) is None, '%s runs on parameters that do not decode' % op, b)
        self.chk('P05', ran == set(OPS), 'an operation is not reachable from any instruction code: %s' % sorted(set(OPS) - ran), b)
        for kind, data_, st, fr, span in E.final_events('chk'):
            self.chk(data_[0], data_[1], data_[2], fr.body, span)
        for kind, data_, st, fr, span in E.final_events('code'):
            self.code.setdefault(data_[0], set()).add(data_[1])
        for kind, data_, st, fr, span in E.final_events('slots'):
            self.slots.setdefault(data_[0], set()).add(data_[1])
        self.chk('P05', all(len(x) == 1 for x in self.code.values()) and len({y for x in self.code.values() for y in x}) == len(OPS), 'the instruction codes of two operations coincide', b)
        self.chk('P05', all(len(x) == 1 for x in self.slots.values()), 'an operation is handed its accounts in two orders', b)
        self.bodies |= {x.name for x in E.analysed}

    # ------------------------------------------------------------ entry point
    def entrypoint(self):
        b = self.byname.get('entrypoint::process_instruction')
        if b is None:
            raise Unsupported('no entrypoint::process_instruction')
        P = self.P
        E = self.engine()
        pid, accs, data = [mk('sym', x) for x in ('program_id', 'accounts', 'instruction_data')]
        n = mk('len', accs)
        res = mk('sym', 'instruction result')

        def h(E, fr, st, vals, tys, dty, span):
            c = lambda p, ok, m: E.event(fr, 'chk', (p, ok, m), st, span)
            c('P32', G(st, '#ran') is ZERO, 'the instruction is processed more than once')
            c('P05', vals[0] is pid and (vals[2] is data or vals[2].op == 'ref' and vals[2].a[0] == E.target(data)[0] and not vals[2].a[1]), 'the instruction is processed with another program id or other data')
            a = vals[1]
            good = a.op == 'ref' and a.a[0] == E.target(accs)[0] and len(a.a[1]) == 1 and a.a[1][0][0] == 'r' and a.a[1][0][1] is ZERO and st.holds(eq(a.a[1][0][2], addc(n, -1)))
            c('P05', good, 'the operation does not get exactly the accounts before the register')
            out = []
            for k in (0, 1):
                s = st.copy()
                setG(s, '#ran', ONE)
                setG(s, '#err', I(k))
                out.append((ERR(mk('sym', 'error')) if k else OK(res), s))
            return out
        E.anchors[id(self.byname['processor::process_instruction'])] = h

        def ser(E, fr, st, func, vals, tys, dty, span):
            c = lambda p, ok, m: E.event(fr, 'chk', (p, ok, m), st, span)
            v = E.pureval(st, vals[0], tys[0])
            c('P32', v is res and G(st, '#err') is ZERO and G(st, '#ran') is ONE, 'something else than the result of a successful operation is serialised')
            c('P32', G(st, '#written') is ZERO, 'the register is written more than once')
            root = E.target(E.deref(st, vals[1]))
            c('P32', root[0] in regs and not root[1], 'the result is written to an account other than the last one')
            out = []
            for k in (0, 1):
                s = st.copy()
                setG(s, '#written', ONE)
                if k:
                    setG(s, '#short', ONE)
                out.append((ERR(mk('sym', 'io error')) if k else OK(UNIT), s))
            return out
        st = State().assume(lt(ZERO, n))
        # roots of the register's data
        r, p = E.target(accs)
        acct = E.mkref(r, tuple(p) + (('i', addc(n, -1)),))
        pr = proc.ProcRules.__new__(proc.ProcRules)
        regs = {proc.ProcRules.cell(pr, E, acct, proc.DATA)[0]}
        E.externs['serialize'] = ser
        E.on_write = lambda E, fr, st, root, path, old, new: E.event(fr, 'chk', ('P32', False, 'account data is written other than by serialising the result'), st, E.cur[1]) if root[0] == 'O' and root in regs else None
        for v, s in E.exec_function(b, [pid, accs, data], st, E.cs_id(0, 'root', None)):
            ok = v.op == 'adt' and v.a[1] == 0
            if G(s, '#ran') is ZERO:
                self.chk('P32', not ok, 'the entry point succeeds without processing the instruction', b)
            elif G(s, '#err') is ONE:
                self.chk('P32', v.op == 'adt' and v.a[1] == 1 and v.a[2][0] is mk('sym', 'error'), 'a failed operation is not reported by its error', b)
                self.chk('P32', G(s, '#written') is ZERO, 'the register is written on failure', b)
            else:
                self.chk('P32', not ok or G(s, '#written') is ONE and s.mem.get(('G', '#short')) is None, 'the entry point succeeds without writing the result', b)
                self.chk('P32', ok or s.mem.get(('G', '#short')) is not None, 'a successful operation is reported as a failure', b)
        for kind, d, st, fr, span in E.final_events('chk'):
            self.chk(d[0], d[1], d[2], fr.body, span)
        self.bodies |= {x.name for x in E.analysed}

    # ------------------------------------------------------------ client builders
    def builder(self, op):
        b = self.byname.get('instruction::' + op)
        if b is None:
            raise Unsupported('no builder ' + op)
        E = self.engine()
        a = self.A[op]
        names = [f[0] for f in a.variants[0][2]]
        acc = adt(a.path, 0, [mk('sym', 'key_' + n) for n in names])
        reg, par = mk('sym', 'register_key'), mk('sym', 'params')
        key = {E.deref(State(), mk('sym', 'key_' + n)): n for n in names}
        gv = [x for n, x in self.byname.items() if n.endswith('get_accounts_vec') and n.startswith('processor::%s::' % op)]

        def gi(E, fr, st, func, vals, tys, dty, span):
            if len(gv) != 1:
                raise Unsupported('account list of ' + op)
            s = st.copy()
            root = ('L', fr.cs, 'self%s' % (fr.at,))
            s.mem[root] = vals[0] if vals[0].op == 'adt' else E.deref(st, vals[0])
            out = []
            for v, t in E.call_body(fr, s, gv[0], [ref(root, ())], [None]):
                out.append((adt('Instruction', 0, (vals[1], v, mk('app', 'encode', vals[2], vals[3]))), t))
            return out
        E.externs['get_instruction'] = gi
        for v, s in E.exec_function(b, [acc, reg, par], State(), E.cs_id(0, 'root', None)):
            if v.op == 'ref':
                v = E.deref(s, v)
            d = proj(v, ('f', None, 2))
            good = d.op == 'app' and d.a[0] == 'encode'
            self.chk('P05', good and d.a[2] is par, 'the builder of %s does not encode the given parameters' % op, b)
            code = d.a[1] if good else UNDEF
            self.chk('P05', code.op == 'int' and self.code.get(op) == {code.a[0]}, 'the builder of %s emits a code the dispatcher does not route to it' % op, b)
            vec = proj(v, ('f', None, 1))
            n = proj(vec, ('f', None, 1))
            self.chk('P05', n.op == 'int', 'the account list of %s has no fixed length' % op, b)
            if n.op != 'int':
                continue
            metas = [proj(proj(vec, ('f', None, 0)), ('i', I(k))) for k in range(n.a[0])]
            f = lambda m, i: proj(m, ('f', None, i))
            got = [key.get(f(m, 0)) for m in metas]
            slots = [dict(x) for x in self.slots.get(op, ())]
            self.chk('P05', len(slots) == 1 and len(got) == len(names) + 1 and all(got[k] == nm for nm, k in slots[0].items() if k is not None and k < len(got)), 'the builder of %s lists the accounts in another order than the operation parses' % op, b)
            self.chk('P05', bool(metas) and f(metas[-1], 0) is reg and f(metas[-1], 2) is TRUE , 'the register account is not appended last and writable by the builder of ' + op, b)
            for m, nm in zip(metas, got + [None] * (len(metas) - len(got))):
                if nm not in self.signed.get(op, ()):
                    self.chk('P05', f(m, 1) is FALSE, 'the builder of %s demands a signature that the operation does not check' % op, b)
                if nm in self.mutated.get(op, ()):
                    self.chk('P05', f(m, 2) is TRUE, '%s mutates the %s account, which the builder does not mark as writable' % (op, nm), b)
        self.bodies |= {x.name for x in E.analysed}

    # ------------------------------------------------------------ encodings
    def encoding(self, a):
        """fields are read in the order and types in which they are written, and the size is their sum"""
        nm = last_seg(a.path)
        ser = self.impl(a, 'serialize')
        de = self.impl(a, 'deserialize_reader')
        if ser is None or de is None:
            raise Unsupported('encoding of ' + a.path)
        lab = '::'.join(a.path.split('::')[-2:])
        tags = set()
        for vi, (vn, vd, fields) in enumerate(a.variants):
            W = self.trace(a, ser, vi, vd, fields)
            if W is None:
                continue
            got = list(W)
            tag = None
            if a.kind == 'enum':
                ok = bool(got) and got[0][0] == 'tag' and got[0][1] not in tags
                self.chk('P05', ok, '%s::%s is not encoded by its own tag' % (lab, vn), ser)
                tag = got[0][1] if ok else vi
                tags.add(tag)
                got = got[1:]
            self.chk('P05', sorted(x for x in got) == sorted(('f', i) for i in range(len(fields))), 'the encoding of %s does not hold every field once' % lab, ser)
            order = [i for k, i in got if k == 'f']
            R = self.reads(a, de, vi, tag, fields)
            self.chk('P05', R is not None and R == order, '%s is decoded in another field order than it is encoded' % lab, de)
        bl = self.impl(a, 'borsh_len')
        if bl is not None:
            self.borshlen(a, bl, lab)

    def impl(self, a, meth):
        c = self.P.by_tm.get((last_seg(a.path), meth), [])
        mod = '::'.join(a.path.split('::')[:-1])
        m = [b for mm, b in c if mm == mod]
        return m[0] if len(m) == 1 else None

    def trace(self, a, body, vi, vd, fields):
        E = self.engine()
        st = State()
        obj = mk('sym', 'value')
        root, path = E.target(obj)
        base = E.deref(st, obj)
        vidx = vi if a.kind == 'enum' else None
        fs = [proj(base, ('f', vidx, i)) for i in range(len(fields))]
        if a.kind == 'enum':
            st = st.assume(eq(mk('discr', base), I(vd)))
            st.mem[root] = adt(a.path, vi, fs)
            base = st.mem[root]

        def w(E, fr, st, func, vals, tys, dty, span):
            x = E.pureval(st, vals[0], tys[0])
            k = None
            for i, f in enumerate(fs):
                if x is f:
                    k = ('f', i)
            if k is None and x.op == 'int':
                k = ('tag', x.a[0])
            n = G(st, '#n')
            out = []
            for e in (0, 1):
                s = st.copy()
                setG(s, '#n', addc(n, 1))
                setG(s, '#w%d' % n.a[0], mk('arr', mk('str', k[0]), I(k[1])) if k else UNDEF)
                if e:
                    setG(s, '#e', ONE)
                out.append((ERR(mk('sym', 'io')) if e else OK(UNIT), s))
            return out
        E.externs['serialize'] = w
        for (ty, m), l in self.P.by_tm.items():
            for mm, x in l:
                if m == 'serialize' and x is not body:
                    E.anchors[id(x)] = lambda E, fr, st, vals, tys, dty, span: w(E, fr, st, '', vals, ['&'], dty, span)

        def wa(E, fr, st, func, vals, tys, dty, span):
            x = E.deref(st, vals[1])
            y = x.a[2] if x.op == 'app' and x.a[0] == 'to_le_bytes' and x.a[1] is I(8) else proj(x, ('i', ZERO))
            return w(E, fr, st, func, [y], [None], dty, span)
        E.externs['write_all'] = wa
        for v, s in E.exec_function(body, [obj, mk('sym', 'writer')], st, E.cs_id(0, 'root', None)):
            if s.mem.get(('G', '#e')) is not None:
                self.chk('P05', v.op == 'adt' and v.a[1] == 1, 'a failed write of an encoding is not reported', body)
                continue
            out = []
            for i in range(G(s, '#n').a[0]):
                x = G(s, '#w%d' % i)
                out.append((x.a[0].a[0], x.a[1].a[0]) if x.op == 'arr' else ('?', i))
            self.bodies |= {x.name for x in E.analysed}
            return out
        return None

    def reads(self, a, body, vi, tag, fields):
        """order in which the fields of the variant are read"""
        E = self.engine()

        def r(E, fr, st, func, vals, tys, dty, span):
            n = G(st, '#n')
            out = []
            for e in (0, 1):
                s = st.copy()
                setG(s, '#n', addc(n, 1))
                if e:
                    setG(s, '#e', ONE)
                x = mk('sym', 'read', n.a[0])
                if a.kind == 'enum' and n is ZERO:
                    x = I(tag)
                out.append((ERR(mk('sym', 'io')) if e else OK(x), s))
            return out
        E.externs['deserialize_reader'] = r
        for (ty, m), l in self.P.by_tm.items():
            for mm, x in l:
                if m == 'deserialize_reader' and x is not body:
                    E.anchors[id(x)] = lambda E, fr, st, vals, tys, dty, span: r(E, fr, st, '', vals, tys, dty, span)
        res = None
        for v, s in E.exec_function(body, [mk('sym', 'reader')], State(), E.cs_id(0, 'root', None)):
            if s.mem.get(('G', '#e')) is not None or v.op != 'adt':
                self.chk('P05', v.op == 'adt' and v.a[1] == 1, 'a failed read of an encoding is not reported', body)
                continue
            if v.a[1] == 1:
                continue
            x = v.a[2][0]
            if x.op != 'adt' or x.a[1] != (vi if a.kind == 'enum' else 0):
                return None
            got = {}
            for i, f in enumerate(x.a[2]):
                if f.op == 'sym' and f.a[0] == 'read':
                    got[f.a[1]] = i
            off = 1 if a.kind == 'enum' else 0
            res = [got.get(k + off) for k in range(len(fields))]
        self.bodies |= {x.name for x in E.analysed}
        return res

    def borshlen(self, a, body, lab):
        E = self.engine()
        st = State()
        obj = mk('sym', 'value')
        base = E.deref(st, obj)
        if a.kind == 'enum':
            for v, s in E.exec_function(body, [obj], st, E.cs_id(0, 'root', None)):
                self.chk('P05', v is ONE, 'the encoded size of %s is not one byte' % lab, body)
            return
        fields = a.variants[0][2]
        fs = [proj(base, ('f', None, i)) for i in range(len(fields))]

        def size(E, fr, st, func, vals, tys, dty, span):
            return [(mk('app', 'encoded size', E.pureval(st, vals[0], tys[0])), st)]
        E.externs['borsh_len'] = size
        for sd in ('Side', 'SelfTradeBehavior'):
            x = self.impl(self.P.adt(sd), 'borsh_len')
            if x is not None:
                E.anchors[id(x)] = lambda E, fr, st, vals, tys, dty, span: size(E, fr, st, '', vals, tys, dty, span)
        tot = ZERO
        for f, t in zip(fs, fields):
            x = mk('app', 'encoded size', f)
            note_type(x, 'usize')
            tot = add(tot, x)
        for v, s in E.exec_function(body, [obj], st, E.cs_id(0, 'root', None)):
            self.chk('P05', eq(v, tot), 'the encoded size of %s is not the sum over its fields' % lab, body, st=s)
        self.bodies |= {x.name for x in E.analysed}

    # ------------------------------------------------------------ price rounding
    def rounding(self):
        b = self.P.find('', 'round_price')
        if b is None:
            return
        side = self.P.adt('Side')
        for vi, (vn, vd, _) in enumerate(side.variants):
            E = self.engine()
            tick, price = mk('sym', 'tick'), mk('sym', 'price')
            note_type(tick, 'u64')
            note_type(price, 'u64')
            st = State().assume(lt(ZERO, tick))
            n = 0
            for v, s in E.exec_function(b, [tick, price, adt(side.path, vi, ())], st, E.cs_id(0, 'root', None)):
                n += 1
                if vn == 'Bid':
                    want = [mul(tick, div(price, tick)), sub(price, rem(price, tick))]
                    ok = any(s.holds(eq(v, w)) for w in want)
                else:
                    c = mul(tick, div(addc(add(price, tick), -1), tick))
                    r = rem(price, tick)
                    up = add(sub(price, r), tick)
                    ok = s.holds(eq(v, c)) or self.cases(s, r, v, price, up, tick)
                self.chk('P07', ok, 'rounding a price for %s does not give the nearest tick multiple on its side' % vn, b)
            self.chk('P07', n > 0, 'rounding never returns', b)
            self.bodies |= {x.name for x in E.analysed}

    def cases(self, s, r, v, price, up, tick):
        z = s.assume(eq(r, ZERO))
        nz = s.assume(neg(eq(r, ZERO)))
        a = z is None or z.holds(eq(v, price)) or z.holds(eq(v, sub(price, r))) or z.holds(eq(v, mul(tick, div(price, tick))))
        b = nz is None or nz.holds(eq(v, up)) or nz.holds(eq(v, mul(tick, addc(div(price, tick), 1)))) or nz.holds(eq(v, add(mul(tick, div(price, tick)), tick)))
        return a and b


def run(P):
    pr = proc.ProcRules(P)
    for op in proc.OPS:
        pr.op(op)
    return Dispatch(P, pr.mutated, pr.signed).run()
