"""Abstract interpreter over MIR: trace-partitioned, relational value analysis computed as a fixpoint.

A state maps memory roots to terms and carries a set of facts.  In-states are kept per (block, partition key) where the key
records the enum variants and constant booleans of live locals and the decided discriminants of the entry parameters; states
with equal key are joined.  Joins name differing values by one symbol per value class, use the distinguishing branch condition
where there is one (gated join), keep linear relations between classes and re-verify facts per edge.  Crate-local functions and
closures are analysed in the caller's context; the rest is modelled in models.py."""
import re
from .terms import *
from . import terms as tm
from .facts import assume, entails, info, simp
from . import mir
from .front import strip_ref, strip_generics, last_seg

STDV = {'None': 0, 'Some': 1, 'Ok': 0, 'Err': 1, 'Continue': 0, 'Break': 1, 'Borrowed': 0, 'Owned': 1}
STDE = {'Option': ['None', 'Some'], 'Result': ['Ok', 'Err'], 'ControlFlow': ['Continue', 'Break'], 'Ordering': ['Less', 'Equal', 'Greater'],
        'Cow': ['Borrowed', 'Owned']}


class EngineError(Exception):
    pass


class State:
    __slots__ = ('mem', 'facts')

    def __init__(self, mem=None, facts=frozenset()):
        self.mem, self.facts = mem if mem is not None else {}, facts

    def copy(self):
        return State(dict(self.mem), self.facts)

    def assume(self, l):
        f = assume(self.facts, l)
        if f is None:
            return None
        if f is self.facts:
            return self
        return State(dict(self.mem), f)

    def holds(self, l):
        return entails(self.facts, l)

    def same(self, o):
        return self.facts == o.facts and self.mem == o.mem


class Frame:
    __slots__ = ('body', 'cs', 'tmap', 'live', 'rpo', 'heads', 'depth', 'at', 'seq', 'pk', 'run', 'up')

    def __init__(self, body, cs, tmap, depth):
        self.body, self.cs, self.tmap, self.depth = body, cs, tmap, depth
        self.at = None
        self.seq = 0
        self.pk = None
        self.run = 0
        self.up = None


def OK(v):
    return adt('Result', 0, (v,))


def ERR(v):
    return adt('Result', 1, (v,))


def SOME(v):
    return adt('Option', 1, (v,))


NONE = adt('Option', 0, ())


def ty_args(t):
    """generic arguments of a type path"""
    t = strip_ref(t)
    i = t.find('<')
    while i >= 0:
        j = mir.match_close(t, i)
        if j == len(t) - 1:
            return [x for x in mir.split_top(t[i + 1:j]) if not x.startswith("'")]
        i = t.find('<', j)
    return []


class Engine:
    MAXPART = 40
    RANK = None               # a list: engines record, for every loop, what decreases on its back edges

    def __init__(self, prog, anchors=None, keyatoms=(), models=None):
        self.P = prog
        self.anchors = anchors or {}        # id(body) -> handler
        self.keyatoms = set(keyatoms)
        self.events = {}
        self.analysed = []
        self.subs = 0
        self.cstab = {}
        self.csinfo = [('', None, None)]
        self.on_write = None
        self.local_writes = False     # on_write sees locals too
        self.on_call = None
        self.on_edge = None
        self.on_assert = None
        self.on_read = None
        self.on_result = None
        self.on_add = None
        self.cur = (None, '')
        self.fnstat = {}
        self.cmem = {}
        self.cfacts = frozenset()
        self.stack = []
        self.unmodelled = {}
        self.sizes = {}
        self.bodycalls = set()
        self.adtcache = {}
        self.steps = 0
        self.forced = 0
        self.runs = 0
        self.lastrun = {}
        self.finalins = {}
        self.externs = {}
        self.deadline = None
        self.opaque_fns = set()
        if Engine.RANK is not None:
            Engine.RANK.append(self)
        self.heads = {}
        from . import models as M
        self.M = models or M
        self.M.setup(self)

    # ------------------------------------------------------------ types
    def adt_of(self, ty):
        r = self.adtcache.get(ty, 0)
        if r == 0:
            r = self.adtcache[ty] = self.P.adt(ty) if ty else None
        return r

    def tsub(self, fr, ty):
        if fr.tmap and ty:
            for k, v in fr.tmap.items():
                if k in ty:
                    ty = re.sub(r'(?<![\w:])%s(?![\w])' % re.escape(k), lambda m: v, ty)
        return ty

    def vidx(self, ty, name):
        if isinstance(name, int):
            return name
        a = self.adt_of(strip_ref(ty))
        if a is not None and a.kind == 'enum':
            return a.vidx(name)
        b = last_seg(ty)
        if b in STDE and name in STDE[b]:
            return STDE[b].index(name)
        if name in STDV:
            return STDV[name]
        return name

    def nvar(self, ty):
        a = self.adt_of(strip_ref(ty))
        if a is not None and a.kind == 'enum':
            return len(a.variants)
        b = last_seg(ty)
        return len(STDE[b]) if b in STDE else None

    def discr(self, t, ty):
        if t.op == 'adt':
            a = self.adt_of(t.a[0]) if t.a[0] not in STDE else None
            v = t.a[1]
            if a is not None and a.kind == 'enum':
                return I(a.variants[v][1])
            if t.a[0] == 'Ordering':
                return I(v - 1)
            return I(v) if isinstance(v, int) else mk('vdiscr', t.a[0], v)
        if t.op == 'ite':
            return ite(t.a[0], self.discr(t.a[1], ty), self.discr(t.a[2], ty))
        d = mk('discr', t)
        a = self.adt_of(strip_ref(ty)) if ty else None
        if a is not None and a.kind == 'enum':
            ds = [v[1] for v in a.variants]
            RNG.setdefault(d, (min(ds), max(ds)))
        elif last_seg(ty or '') in STDE:
            n = len(STDE[last_seg(ty)])
            RNG.setdefault(d, (0, n - 1) if last_seg(ty) != 'Ordering' else (0, tm.INF))
        return d

    def variants(self, ty):
        """[(name, discr, nfields)] of an enum type, or None"""
        a = self.adt_of(strip_ref(ty))
        if a is not None and a.kind == 'enum':
            return [(v[0], v[1], len(v[2])) for v in a.variants]
        b = last_seg(ty)
        if b in ('Option',):
            return [('None', 0, 0), ('Some', 1, 1)]
        if b in ('Result', 'ControlFlow'):
            return [(n, k, 1) for k, n in enumerate(STDE[b])]
        return None

    # ------------------------------------------------------------ memory
    def rd_root(self, st, root):
        v = st.mem.get(root)
        if v is None:
            v = self.cmem.get(root)
            if v is None:
                v = mk('mem0', root) if root[0] == 'O' else UNDEF
        return v

    def read(self, st, root, path):
        if self.on_read is not None and root[0] == 'O':
            self.on_read(self, self.cur[0], st, root, tuple(path))
        return self.getpath(st, self.rd_root(st, root), path)

    def step(self, st, t, p):
        """projection that sees through element writes at indices the facts tell apart"""
        if p[0] == 'i':
            while t.op == 'store' and t.a[1] is not p[1]:
                if st.holds(eq(t.a[1], p[1])):
                    return t.a[2]
                if not st.holds(neg(eq(t.a[1], p[1]))):
                    break
                t = t.a[0]
        return proj(t, p)

    def getpath(self, st, t, path):
        for p in path:
            t = self.step(st, t, p)
        return t

    def setpath(self, st, t, path, v):
        if not path:
            return v
        p = path[0]
        return setp(t, p, self.setpath(st, self.step(st, t, p), path[1:], v))

    def write(self, fr, st, root, path, v):
        old = self.rd_root(st, root)
        if self.on_write is not None and (root[0] == 'O' or self.local_writes):
            self.on_write(self, fr, st, root, tuple(path), self.getpath(st, old, path), v)
        st.mem[root] = self.setpath(st, old, path, v)

    def place(self, fr, st, pl):
        root, path, ty = ('L', fr.cs, pl.local), [], self.tsub(fr, fr.body.types.get(pl.local))
        var = None
        for pr in pl.proj:
            k = pr[0]
            if k == 'deref':
                v = self.read(st, root, path)
                root, path = self.target(v)
                path = list(path)
                if ty:
                    t2 = ty.strip()
                    if t2.startswith(('std::boxed::Box<', 'alloc::boxed::Box<', 'Box<')):
                        ty = ty_args(t2)[0]
                    else:
                        t3 = re.sub(r"^&('\w+ )?(mut )?", '', t2)
                        ty = t3 if t3 != t2 else re.sub(r"^\*(const|mut) ", '', t2)
                var = None
            elif k == 'field':
                # a box is the pointer inside it
                if not (ty and pr[1] == 0 and re.match(r'(std|core|alloc)::(boxed::Box|ptr::Unique|ptr::NonNull)<', ty.strip())):
                    path.append(('f', var, pr[1]))
                ty = self.tsub(fr, pr[2])
                var = None
            elif k == 'down':
                var = self.vidx(ty or '', pr[1])
            elif k == 'index':
                iv = self.read(st, ('L', fr.cs, pr[1]), ())
                self.index(path, iv)
                ty = self.elem(ty)
            elif k == 'cindex':
                if pr[2]:
                    n = self.lenof(st, ref(root, path), ty)
                    self.index(path, addc(n, -pr[1]))
                else:
                    self.index(path, I(pr[1]))
                ty = self.elem(ty)
            elif k == 'sub':
                n = self.lenof(st, ref(root, path), ty)
                path = self.subslice(path, I(pr[1]), addc(n, -pr[2]) if pr[3] else I(pr[2]))
        return root, path, ty

    def elem(self, ty):
        if not ty:
            return None
        t = ty.strip()
        if t.startswith('['):
            return mir.split_top(t[1:-1], ';')[0]
        return None

    def index(self, path, iv):
        if path and path[-1][0] == 'r':
            lo = path[-1][1]
            path[-1] = ('i', add(lo, iv))
        else:
            path.append(('i', iv))

    def subslice(self, path, lo, hi):
        path = list(path)
        if path and path[-1][0] == 'r':
            b = path[-1][1]
            path[-1] = ('r', add(b, lo), add(b, hi))
        else:
            path.append(('r', lo, hi))
        return path

    def target(self, v):
        """place a reference value points to"""
        if v.op == 'ref':
            return v.a
        if v.op == 'int':
            return ('O', v), ()
        return ('O', v), ()

    def mkref(self, root, path):
        if root[0] == 'O' and not path:
            return root[1]
        return ref(root, path)

    def deref(self, st, v):
        r, p = self.target(v)
        return self.read(st, r, p)

    def lenof(self, st, rf, ty=None):
        """length of the slice a reference points to"""
        if ty:
            t = strip_ref(ty)
            m = re.fullmatch(r'\[.*; (.+)\]', t)
            if m:
                n = self.constlen(m.group(1))
                if n is not None:
                    return n
        if rf.op == 'ref':
            root, path = rf.a
            if path and path[-1][0] == 'r':
                return sub(path[-1][2], path[-1][1])
            if path and path[-1][0] == 'as' and len(path) > 1 and path[-2][0] == 'r':
                q = path[-2]
                return div(sub(q[2], q[1]), self.sizeof(path[-1][1]))
            if rf in self.__dict__.get('vecrefs', ()):
                # the contents of a vector
                v = self.getpath(st, self.rd_root(st, root), path[:-1])
                n = v.a[2][1] if v.op == 'adt' and v.a[0] == 'Vec' else proj(v, ('f', None, 1))
                RNG.setdefault(n, (0, (1 << 63) - 1))
                return n
            v = self.getpath(st, self.rd_root(st, root), path)
            if v.op == 'arr':
                return I(len(v.a))
            if v.op == 'rep':
                return v.a[1]
            if v.op == 'app' and v.a[0] in ('to_le_bytes', 'to_be_bytes', 'to_ne_bytes'):
                return I(v.a[1].a[0] // 8)
            if v.op == 'adt' and v.a[0] == 'Vec':
                return v.a[2][1]
            # an unchanged field of an opaque object keeps the identity of its place
            n = mk('len', rf)
        else:
            if rf.op == 'ite':
                return ite(rf.a[0], self.lenof(st, rf.a[1]), self.lenof(st, rf.a[2]))
            n = mk('len', rf)
        RNG.setdefault(n, (0, (1 << 63) - 1))
        return n

    def constlen(self, s):
        s = s.strip()
        m = re.fullmatch(r'(\d+)(_?usize)?', s)
        if m:
            return I(int(m.group(1)))
        c = self.const_named(s)
        if c is not None and c.op == 'int':
            return c
        return None

    # ------------------------------------------------------------ sizes (repr(C) layout)
    PRIM = {'u8': 1, 'i8': 1, 'bool': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'u64': 8, 'i64': 8, 'usize': 8, 'isize': 8, 'u128': 16, 'i128': 16}

    def layout(self, ty):
        """(size, align) or None for a type parameter"""
        t = strip_ref(ty) if not ty.startswith('&') else ty
        if t in self.PRIM:
            n = self.PRIM[t]
            # u128 is 8-aligned for the pinned compiler (rustc 1.76, x86_64 and sbf)
            return n, min(n, 8)
        if t.startswith('['):
            p = mir.split_top(t[1:-1], ';')
            e, n = self.layout(p[0]), self.constlen(p[1]) if len(p) == 2 else None
            if e and n is not None:
                return e[0] * n.a[0], e[1]
            return None
        if last_seg(t) == 'Pubkey':
            return 32, 1
        a = self.adt_of(t)
        if a is not None and a.kind == 'struct':
            off, al = 0, 1
            for _, fty in a.variants[0][2]:
                l = self.layout(fty)
                if l is None:
                    return None
                off = -(-off // l[1]) * l[1] + l[0]
                al = max(al, l[1])
            return -(-off // al) * al, al
        if a is not None and a.kind == 'enum' and all(not v[2] for v in a.variants):
            return 1, 1
        return None

    def sizeof(self, ty):
        l = self.layout(ty)
        if l:
            return I(l[0])
        s = mk('sym', 'size_of::<%s>' % last_seg(ty))
        RNG.setdefault(s, (0, 1 << 32))
        return s

    # ------------------------------------------------------------ constants
    def const(self, fr, st, text):
        t = text.strip()
        if t.startswith('const '):
            t = t[6:]
        m = re.fullmatch(r'(-?\d+)_([iu]\w+)', t)
        if m:
            return I(int(m.group(1)))
        if t in ('true', 'false'):
            return TRUE if t == 'true' else FALSE
        if t in ('()', 'core::ops::range::RangeFull', 'RangeFull'):
            return UNIT
        m = re.fullmatch(r'\{discr (\w+)::(\w+)\}', t)
        if m:
            a = self.adt_of(m.group(1))
            i = a.vidx(m.group(2)) if a is not None else None
            return I(a.variants[i][1]) if isinstance(i, int) else mk('fn', t)
        m = re.fullmatch(r"(?:std::|core::)?[iu](\d+|size)::(MAX|MIN)", t) or re.fullmatch(r"core::num::<impl u(\d+|size)>::(MAX|MIN)", t)
        if m:
            w = 64 if m.group(1) == 'size' else int(m.group(1))
            return I((1 << w) - 1) if m.group(2) == 'MAX' else ZERO
        if t.startswith('"') or t.startswith('b"'):
            return mk('str', t)
        if t.startswith('{closure@') or t.startswith('ZeroSized: {closure'):
            return adt(t.replace('ZeroSized: ', ''), 0, ())
        if re.fullmatch(r'\{alloc\d+.*', t):
            return mk('str', 'alloc')
        c = self.const_named(t, fr)
        if c is not None:
            return c
        # unit structs / unit variants / fn items
        return mk('fn', self.tsub(fr, t) if fr else t)

    def const_named(self, t, fr=None):
        b = self.P.promoted.get(t)
        if b is None:
            b = self.P.consts.get(t)
        if b is None:
            s = strip_generics(t)
            segs = s.split('::')
            cands = []
            for n, bb in list(self.P.consts.items()) + list(self.P.promoted.items()):
                if n.split('::')[-1] != segs[-1]:
                    continue
                cands.append((n, bb))
            if '<impl at' in t or 'promoted[' in t:
                cands = [x for x in cands if x[0] == t]
            elif len(segs) > 1:
                # Type::CONST of an impl block, or module::CONST
                cc = [x for x in cands if strip_generics(x[0]) == s]
                if not cc:
                    for n, bb in cands:
                        m = re.search(r'<impl at ([^>]*)>', n)
                        if m:
                            io = self.P.impl_of(m.group(1))
                            if io and io[0] == segs[-2]:
                                cc.append((n, bb))
                cands = cc
            b = cands[0][1] if len(cands) == 1 else None
            if b is None:
                return None
        return self.eval_const(b)

    def eval_const(self, b):
        v = getattr(b, '_cval', None)
        if v is not None and getattr(b, '_ceng', None) is self:
            return v
        if not b.blocks:
            return None
        cs = self.cs_id(0, ('const', b.name), None)
        st = State()
        outs = self.exec_function(b, [], st, cs, {}, keep=True)
        if len(outs) != 1:
            return mk('sym', 'const ' + b.name)
        v, s = outs[0]
        for k, x in s.mem.items():
            if k not in self.cmem:
                self.cmem[k] = x
        b._cval, b._ceng = v, self
        return v

    def operand(self, fr, st, op):
        if op[0] == 'p':
            root, path, ty = self.place(fr, st, op[1])
            v = self.read(st, root, path)
            if v.op == 'ite':
                # the choice may have been decided since
                if v.a[0] in st.facts or st.holds(v.a[0]):
                    v = v.a[1]
                elif neg(v.a[0]) in st.facts or st.holds(neg(v.a[0])):
                    v = v.a[2]
            if ty:
                self.note(v, ty)
            return v
        return self.const(fr, st, op[1])

    def note(self, v, ty):
        if v.op in ('pj', 'phi', 'sym', 'app', 'ver', 'clob') and v not in RNG:
            note_type(v, ty)

    def optype(self, fr, op):
        if op[0] == 'p':
            ty = self.tsub(fr, fr.body.types.get(op[1].local))
            for pr in op[1].proj:
                if pr[0] == 'deref':
                    t2 = (ty or '').strip()
                    ty = ty_args(t2)[0] if 'Box<' in t2[:20] else re.sub(r"^&('\w+ )?(mut )?", '', t2)
                elif pr[0] == 'field':
                    ty = self.tsub(fr, pr[2])
                elif pr[0] in ('index', 'cindex'):
                    ty = self.elem(ty)
            return ty
        m = re.fullmatch(r'-?\d+_([iu]\w+)', op[1].strip())
        if m:
            return m.group(1)
        if op[1].strip() in ('true', 'false'):
            return 'bool'
        m = re.search(r'::<impl at', op[1])
        c = self.P.consts.get(op[1].strip())
        if c is not None:
            return c.ret if c.ret else None
        return None

    # ------------------------------------------------------------ rvalues
    def arith(self, fr, st, n, a, b, ty):
        w = tm.INTW.get(ty, 64)
        signed = ty and ty[0] == 'i' and ty != 'isize'
        if n.startswith('Checked'):
            n2 = n[7:]
            v = self.arith(fr, st, n2, a, b, ty)
            return adt('(,)', 0, (v, FALSE))
        if n in ('Add', 'AddUnchecked'):
            if self.on_add is not None:
                self.on_add(self, fr, st, a, b, ty)
            return add(a, b)
        if n in ('Sub', 'SubUnchecked'):
            if signed:
                return sub(a, b)
            if st.holds(le(b, a)):
                self.event(fr, 'subok', (a, b, ty), st)
                return sub(a, b)
            self.event(fr, 'wrap', (a, b, ty), st)
            r = mk('wsub', w, a, b)
            note_type(r, ty)
            return r
        if n in ('Mul', 'MulUnchecked'):
            return mul(a, b)
        if n == 'Div':
            return div(a, b)
        if n == 'Rem':
            return rem(a, b)
        isb = ty == 'bool'
        if n == 'BitAnd':
            if isb:
                return conj(i2b(a), i2b(b))
            return band(a, b)
        if n == 'BitOr':
            if isb:
                return disj(i2b(a), i2b(b))
            return bor(a, b)
        if n == 'BitXor':
            if isb:
                return neg(eq(i2b(a), i2b(b)))
            return bxor(a, b)
        if n in ('Shl', 'ShlUnchecked'):
            return shl(a, b, w)
        if n in ('Shr', 'ShrUnchecked'):
            return shr(a, b)
        if n == 'Eq':
            return eq(a, b)
        if n == 'Ne':
            return neg(eq(a, b))
        if n == 'Lt':
            return lt(a, b)
        if n == 'Le':
            return le(a, b)
        if n == 'Gt':
            return lt(b, a)
        if n == 'Ge':
            return le(b, a)
        return mk('app', n, a, b)

    def rvalue(self, fr, st, rv, dty):
        k = rv[0]
        if k == 'use':
            return self.operand(fr, st, rv[1])
        if k == 'bin':
            a, b = self.operand(fr, st, rv[2]), self.operand(fr, st, rv[3])
            ty = self.optype(fr, rv[2]) or self.optype(fr, rv[3]) or dty
            return self.arith(fr, st, rv[1], a, b, ty)
        if k == 'un':
            a = self.operand(fr, st, rv[2])
            ty = self.optype(fr, rv[2]) or dty
            if rv[1] == 'Not':
                if ty == 'bool' or a.op in tm.BOOL:
                    return neg(a)
                w = tm.INTW.get(ty)
                if w:
                    return sub(I((1 << w) - 1), a)
                return mk('app', 'not', a)
            return lincomb((-1, a))
        if k == 'len':
            root, path, ty = self.place(fr, st, rv[1])
            return self.lenof(st, self.mkref(root, path), ty)
        if k == 'discr':
            root, path, ty = self.place(fr, st, rv[1])
            return self.discr(self.read(st, root, path), ty)
        if k == 'ref':
            root, path, ty = self.place(fr, st, rv[2])
            return self.mkref(root, path)
        if k == 'cast':
            v = self.operand(fr, st, rv[1])
            if rv[3].startswith('IntToInt'):
                w = tm.INTW.get(rv[2])
                sty = self.optype(fr, rv[1])
                if v.op in tm.BOOL or sty == 'bool':
                    v = b2i(i2b(v))
                a = self.adt_of(sty) if sty else None
                if a is not None and a.kind == 'enum':
                    v = self.discr(v, sty)
                if w:
                    t = trunc(w, v)
                    if t is not v and st.holds(le(v, I((1 << w) - 1))) and st.holds(le(ZERO, v)):
                        return v
                    return t
                return v
            if rv[3].startswith(('PointerCoercion', 'Pointer', 'PtrToPtr')):
                return v
            if rv[3] == 'ShallowInitBox':
                return v
            return mk('app', 'cast', rv[2], v)
        if k == 'tuple':
            return adt('(,)', 0, [self.operand(fr, st, x) for x in rv[1]]) if rv[1] else UNIT
        if k == 'array':
            return mk('arr', *[self.operand(fr, st, x) for x in rv[1]])
        if k == 'repeat':
            n = self.constlen(rv[2])
            v = self.operand(fr, st, rv[1])
            if n is not None and n.a[0] <= 64:
                return mk('arr', *([v] * n.a[0]))
            return mk('rep', v, n if n is not None else mk('sym', 'N ' + rv[2]))
        if k == 'closure':
            return adt(rv[1], 0, [self.operand(fr, st, x) for x in rv[2]])
        if k == 'agg' and rv[1] == 'ShallowInitBox':
            return self.operand(fr, st, rv[2][0][1])
        if k == 'agg':
            return self.aggregate(fr, st, rv[1], rv[2], dty)
        if k == 'nullary':
            if rv[1] == 'SizeOf':
                return self.sizeof(self.tsub(fr, rv[2]))
            return mk('app', rv[1], rv[2])
        return mk('app', 'rv', str(rv))

    def aggregate(self, fr, st, path, fields, dty):
        vals = [(n, self.operand(fr, st, o)) for n, o in fields]
        s = strip_generics(path)
        segs = s.split('::')
        if len(segs) >= 2:
            par = '::'.join(segs[:-1])
            a = self.adt_of(par) if segs[-2][:1].isupper() else None
            if a is not None and a.kind == 'enum':
                v = a.vidx(segs[-1])
                if isinstance(v, int):
                    return adt(a.path, v, self.order(a, v, vals))
            if segs[-2] in STDE:
                return adt(segs[-2], STDE[segs[-2]].index(segs[-1]), [x for _, x in vals])
        a = self.adt_of(s)
        if a is not None and a.kind == 'struct':
            return adt(a.path, 0, self.order(a, 0, vals))
        b = last_seg(dty or '')
        if segs[-1] in STDV and b in STDE:
            return adt(b, STDE[b].index(segs[-1]), [x for _, x in vals])
        if not vals and not (len(segs) >= 2 and segs[-2][:1].isupper()) and segs[-1][:1].islower():
            return mk('fn', self.tsub(fr, path))
        if len(segs) >= 2 and segs[-2][:1].isupper():
            return adt(segs[-2], segs[-1], [x for _, x in vals])
        return adt(segs[-1], 0, [x for _, x in vals])

    def order(self, a, v, vals):
        fs = a.variants[v][2]
        names = [f[0] for f in fs]
        out = [UNDEF] * len(fs)
        for n, x in vals:
            i = names.index(n) if n in names else int(n)
            out[i] = x
        return out

    # ------------------------------------------------------------ events
    def event(self, fr, kind, data, st, span=''):
        self.events[(fr.cs, fr.at, kind, fr.seq)] = (kind, data, st, fr, span or (fr.at and self.spanof(fr)) or '')
        fr.seq += 1

    def valid(self, fr, at):
        """does (frame, node) belong to the final fixpoint"""
        while True:
            if self.lastrun.get(fr.cs) != fr.run or at not in self.finalins.get(fr.cs, ()):
                return False
            if fr.up is None:
                return True
            fr, at = fr.up

    def final_events(self, *kinds):
        for (cs, at, kind, seq), (k, data, st, fr, span) in list(self.events.items()):
            if (not kinds or kind in kinds) and self.valid(fr, at):
                yield kind, data, st, fr, span

    def spanof(self, fr):
        b = fr.body.blocks[fr.at[0]]
        return b.term[-1] if b.term else ''

    def cs_id(self, parent, key, extra):
        k = (parent, key, extra)
        i = self.cstab.get(k)
        if i is None:
            i = self.cstab[k] = len(self.csinfo)
            self.csinfo.append((parent, key, extra))
        return i

    def cs_descends(self, cs, anc):
        while cs > anc:
            cs = self.csinfo[cs][0]
        return cs == anc

    def where(self, fr, span=''):
        return '%s' % self.P.loc(fr.body, span) if hasattr(fr.body, 'key') and fr.body.key else fr.body.name

    # ------------------------------------------------------------ functions
    def prep(self, body):
        if getattr(body, '_prep', False):
            return
        succ = {}
        for i, b in body.blocks.items():
            succ[i] = self.succs(b)
        order, seen = [], set()

        def dfs(r):
            st = [(r, iter(succ.get(r, ())))]
            seen.add(r)
            while st:
                n, it = st[-1]
                for x in it:
                    if x in body.blocks and x not in seen:
                        seen.add(x)
                        st.append((x, iter(succ[x])))
                        break
                else:
                    order.append(n)
                    st.pop()
        dfs(0)
        rpo = {b: k for k, b in enumerate(reversed(order))}
        heads = set()
        for n in rpo:
            for x in succ[n]:
                if x in rpo and rpo[x] <= rpo[n]:
                    heads.add(x)
        # natural loop nests decide the processing order: a loop is finished before what follows it
        body._rpo, body._heads, body._succ = self.loop_order(succ, rpo, heads), heads, succ
        body._loops = self.loops
        body._live, body._addr = liveness(body, rpo)
        npred = {}
        for n in rpo:
            for x in set(succ[n]):
                npred[x] = npred.get(x, 0) + 1
        body._brlocal = {}
        for n in rpo:
            b = body.blocks[n]
            if npred.get(n, 0) < 2 or n in heads or not b.term or b.term[0] != 'switch' or b.term[1][0] != 'p' or b.term[1][1].proj:
                continue
            l = b.term[1][1].local
            for s in reversed(b.stmts):
                if s[0] == 'assign' and s[1].local == l:
                    l = s[2][1][1].local if not s[1].proj and s[2][0] == 'use' and s[2][1][0] == 'p' and not s[2][1][1].proj else None
                    if l is None:
                        break
            if l is not None and body.types.get(l) == 'bool':
                body._brlocal[n] = l
        body._prep = True

    def loop_order(self, succ, rpo, heads):
        """order in which every loop body precedes the blocks after the loop"""
        pred = {}
        for n in rpo:
            for x in succ[n]:
                if x in rpo:
                    pred.setdefault(x, set()).add(n)
        self.loops = loops = {}
        for h in heads:
            body, work = {h}, [p for p in pred[h] if rpo[p] >= rpo[h]]
            while work:
                n = work.pop()
                if n in body:
                    continue
                body.add(n)
                work.extend(pred.get(n, ()))
            loops[h] = body
        # topological order ignoring back edges, preferring to stay in the innermost open loop
        indeg = {n: sum(1 for p in pred.get(n, ()) if rpo[p] < rpo[n]) for n in rpo}
        ready = [n for n in rpo if indeg[n] == 0]
        out, openl = {}, []
        left = {h: set(b) for h, b in loops.items()}
        while ready:
            best = None
            for n in ready:
                k = tuple(-1 if n in loops[h] else 1 for h in reversed(openl)) , rpo[n]
                if best is None or k < best[0]:
                    best = (k, n)
            n = best[1]
            ready.remove(n)
            out[n] = len(out)
            if n in heads:
                openl.append(n)
            for h in list(openl):
                left[h].discard(n)
                if not left[h]:
                    openl.remove(h)
            for x in set(succ[n]):
                if x in rpo and rpo[n] < rpo[x]:
                    indeg[x] -= 1
                    if indeg[x] == 0:
                        ready.append(x)
        return out

    def succs(self, b):
        t = b.term
        if t is None:
            return []
        if t[0] == 'goto':
            return [t[1]]
        if t[0] == 'switch':
            return [x for _, x in t[2]] + ([t[3]] if t[3] is not None else [])
        if t[0] == 'assert':
            return [t[5]]
        if t[0] == 'call':
            return [t[4]] if t[4] is not None else []
        return []

    def call_body(self, fr, st, body, args, argtypes, extra=None, rty=None):
        """analyse body in the context of the current call site; [(value, state)]"""
        tmap = {}
        for (n, t), at in zip(body.params, argtypes or []):
            if at:
                unify(t, at, tmap)
        if rty and body.ret:
            unify(body.ret, rty, tmap)
        if fr is not None:
            for k, v in fr.tmap.items():
                tmap.setdefault(k, v)
        tmap = {k: v for k, v in tmap.items() if k != v}
        cs = self.cs_id(fr.cs if fr else 0, (fr.body.name if fr else '', fr.at if fr else None, body.name), extra)
        return self.exec_function(body, args, st, cs, tmap, depth=(fr.depth + 1 if fr else 0), up=fr)

    def exec_function(self, body, args, st, cs, tmap=None, depth=0, keep=False, up=None):
        self.prep(body)
        if body not in self.analysed:
            self.analysed.append(body)
        if depth > 40 or body.name in self.stack and self.stack.count(body.name) > 2:
            raise EngineError('recursion through ' + body.name)
        self.stack.append(body.name)
        try:
            return self._exec(body, args, st, cs, tmap or {}, depth, keep, up)
        finally:
            self.stack.pop()

    def _exec(self, body, args, st0, cs, tmap, depth, keep, up=None):
        fr = Frame(body, cs, tmap, depth)
        self.runs += 1
        fr.run = self.runs
        self.lastrun[cs] = fr.run
        if up is not None:
            fr.up = (up, up.at)
        self.bodycalls.add(body.name)
        st = st0.copy()
        for k in [k for k in st.mem if k[0] == 'L' and k[1] >= cs and self.cs_descends(k[1], cs)]:
            del st.mem[k]
        for (n, t), v in zip(body.params, args):
            self.note(v, self.tsub(fr, t))
            st.mem[('L', cs, n)] = v
        rpo, heads = body._rpo, body._heads
        edges, ins, sticky, prod = {}, {}, {}, {}
        fwdkeys = {}
        visits = {}
        n0 = (0, self.pkey(fr, st, 0))
        edges[n0] = {('entry', 0): st}
        work = {n0}
        rets = {}
        iters = 0
        while work:
            node = min(work, key=lambda n: (rpo[n[0]], n[1]))
            work.discard(node)
            iters += 1
            self.steps += 1
            if iters > 6000:
                raise EngineError('no fixpoint in ' + body.name)
            bb = node[0]
            es = edges.get(node)
            if not es:
                # all edges vanished
                self._retract(node, edges, prod, ins, work, rets)
                continue
            old = ins.get(node)
            stt = self.join(fr, node, es, bb in heads, sticky)
            if old is not None and stt.same(old):
                continue
            v = visits[node] = visits.get(node, 0) + 1
            if v > 12 and old is not None:
                # force convergence: what was established before is one more way to get here
                es2 = dict(es)
                es2[('entry', 1)] = old
                stt = self.join(fr, node, es2, True, sticky)
                if v > 16 and all(stt.mem.get(k) is x for k, x in old.mem.items()):
                    # only what was known before and still holds: forgetting is always sound
                    stt.facts = stt.facts & old.facts
                if stt.same(old):
                    continue
                self.forced += 1
            ins[node] = stt
            fr.at, fr.seq = node, 0
            sth = stt.copy()
            if Engine.RANK is not None and bb in heads:
                self.rankhead(fr, sth, bb)
            outs = self.block(fr, sth, bb)
            newp = {}
            cnt = {}
            for tgt, s in self.decide(fr, outs):
                if tgt == 'ret':
                    c = cnt.setdefault('ret', 0)
                    cnt['ret'] += 1
                    newp[('ret', c)] = s
                    continue
                if tgt not in rpo:
                    continue
                if self.on_edge is not None:
                    s = self.on_edge(self, fr, node[0], tgt, s) or s
                self.gc(fr, s, tgt)
                if Engine.RANK is not None and tgt in heads and rpo[bb] >= rpo[tgt]:
                    self.event(fr, 'rank', (tgt, self.ranked(fr, s, tgt)), s)
                pk = self.pkey(fr, s, tgt)
                t = (tgt, pk)
                if tgt in heads and rpo[bb] >= rpo[tgt] and pk:
                    # facts learnt inside the loop about its invariants do not split the loop head
                    # (a head that only back edges reach would not be a place where the loop is joined)
                    sp = set(pk)
                    gh = {x for x in sp if x.startswith('#')}
                    c = [f for f in fwdkeys.get(tgt, ()) if {x for x in f if x.startswith('#')} == gh]
                    if c and pk not in c:
                        pk = max(c, key=lambda f: (len(sp & set(f)), -len(f), f))
                        t = (tgt, pk)
                elif tgt in heads:
                    fwdkeys.setdefault(tgt, set()).add(pk)
                if t not in ins and sum(1 for n in edges if n[0] == tgt and edges[n]) >= self.MAXPART:
                    pk = self.pkey(fr, s, tgt, coarse=True)
                    t = (tgt, pk)
                c = cnt.get(t, 0)
                cnt[t] = c + 1
                newp[(t, c)] = s
            oldp = prod.get(node, {})
            rets[node] = [s for k, s in newp.items() if k[0] == 'ret']
            for k in oldp:
                if k not in newp and k[0] != 'ret':
                    t = k[0]
                    if edges.get(t, {}).pop((node, k[1]), None) is not None:
                        work.add(t)
            for k, s in newp.items():
                if k[0] == 'ret':
                    continue
                t = k[0]
                e = edges.setdefault(t, {})
                prev = e.get((node, k[1]))
                if prev is None or not prev.same(s):
                    e[(node, k[1])] = s
                    work.add(t)
            prod[node] = newp
        res = []
        for node in sorted(rets, key=lambda n: (rpo[n[0]], n[1])):
            if node not in ins:
                continue
            for s in rets[node]:
                v = s.mem.get(('L', cs, 0), UNIT if body.ret == '()' else UNDEF)
                if not keep:
                    for k in [k for k in s.mem if k[0] == 'L' and k[1] >= cs and self.cs_descends(k[1], cs)]:
                        del s.mem[k]
                res.append((v, s))
        self.finalins[cs] = set(ins)
        self.fnstat[body.name] = max(self.fnstat.get(body.name, 0), len(ins))
        return res

    def decide(self, fr, outs):
        """a condition that the next block branches on is decided before other ways into that block are joined with this one"""
        for tgt, s in outs:
            l = fr.body._brlocal.get(tgt)
            v = s.mem.get(('L', fr.cs, l)) if l is not None else None
            if v is None or v.op in ('int', 'undef', 'phi', 'sym', 'pj', 'ver', 'clob') or v in s.facts or neg(i2b(v)) in s.facts:
                yield tgt, s
                continue
            c = i2b(v)
            for b, x in ((c, ONE), (neg(c), ZERO)):
                s2 = s.assume(b)
                if s2 is not None:
                    s2 = s2.copy()
                    s2.mem[('L', fr.cs, l)] = x
                    yield tgt, s2

    # ------------------------------------------------------------ ranking
    def rankhead(self, fr, st, bb):
        """remember what the locals are when an iteration starts"""
        self.heads.setdefault((fr.body, bb), set()).add(fr.cs)
        pre = '@r|%d|%d|' % (fr.cs, bb)
        for k in [k for k in st.mem if k[0] == 'L' and k[1] == fr.cs]:
            v = st.mem[k]
            if tm._isnum(v) or v.op == 'adt' or v.op in ('phi', 'sym', 'pj', 'app', 'ver'):
                st.mem[('G', pre + str(k[2]))] = v
        st.mem[('G', '@moved')] = st.mem[('G', '@popped')] = ZERO

    def ranked(self, fr, st, bb):
        """measures that this back edge makes smaller"""
        pre = '@r|%d|%d|' % (fr.cs, bb)
        ms = {}
        for k, v in st.mem.items():
            if k[0] == 'G' and k[1].startswith(pre):
                loc = k[1][len(pre):]
                now = st.mem.get(('L', fr.cs, int(loc) if loc.isdigit() else loc))
                if now is not None:
                    for path, a, b in pairs(v, now):
                        ms[(k[1][len(pre):],) + path] = (a, b)
                    a, b = remaining(v), remaining(now)
                    if a is not None and b is not None:
                        ms[(k[1][len(pre):], 'remaining')] = (a, b)
        own = set()
        for (cs, node), o in getattr(self, 'owntab', {}).items():
            if cs == fr.cs and node[0] == bb:
                own |= o
        out = set()
        for k, (a, b) in ms.items():
            if a is b or not (tm._isnum(a) or tm._isnum(b)):
                continue
            if st.holds(lt(b, a)) and (rng(b)[0] >= 0 or st.holds(le(ZERO, b)) or self.nonzero(st, a, b)):
                out.add(k + ('down',))
            elif st.holds(lt(a, b)):
                if rng(b)[1] <= 1 << 16 or any(x is y and k2 != k and st.holds(le(b, x)) for k2, (x, y) in ms.items()) or self.bounded(st, a, own):
                    out.add(k + ('up',))
        cur = st.mem.get(('G', 'cur'))
        if st.mem.get(('G', '@moved')) is ONE and cur is not None and any(k[0] == 'L' and k[1] == fr.cs and v is cur for k, v in st.mem.items()):
            out.add(('cursor', 'down'))
        if st.mem.get(('G', '@popped')) is ONE:
            out.add(('stack', 'pop'))
        return frozenset(out)

    def nonzero(self, st, a, b):
        """one less than an unsigned number that is not zero"""
        return rng(a)[0] >= 0 and st.holds(eq(a, add(b, ONE))) and st.holds(neg(eq(a, ZERO)))

    def bounded(self, st, a, own):
        """some condition keeps a below something that the loop does not change"""
        _, pa = parts(a)
        if len(pa) != 1 or pa[0][1] != 1:
            return False
        x = pa[0][0]
        for l in st.facts:
            if l.op == 'ge0':
                _, p = parts(l.a[0])
                if any(y is x and n < 0 for y, n in p) and all(y is x or not (own & set(y.syms)) for y, n in p):
                    return True
        return False

    def _retract(self, node, edges, prod, ins, work, rets):
        ins.pop(node, None)
        rets.pop(node, None)
        for k in prod.pop(node, {}):
            if k[0] != 'ret' and edges.get(k[0], {}).pop((node, k[1]), None) is not None:
                work.add(k[0])

    def gc(self, fr, st, bb):
        live, addr = fr.body._live.get(bb, ()), fr.body._addr
        for k in [k for k in st.mem if k[0] == 'L' and k[1] == fr.cs and str(k[2])[:3] != "ext" and k[2] not in live and k[2] not in addr]:
            del st.mem[k]

    def pkey(self, fr, st, bb, coarse=False):
        out = []
        for l in st.facts:
            if l.op in ('ge0', 'eq0', 'ne0'):
                p = parts(l.a[0])[1]
                if len(p) == 1 and p[0][0] in self.keyatoms:
                    out.append('f%d' % l.id)
        out.sort()
        if coarse:
            return tuple(out)
        for r in sorted((k for k in st.mem if k[0] == 'L' and k[1] == fr.cs), key=lambda k: str(k[2])):
            ty = fr.body.types.get(r[2], '')
            s = vkey(st.mem[r], ty, st)
            if s:
                out.append('%s:%s' % (r[2], s))
            v = st.mem[r]
            if v.op == 'ref' and v.a[0][0] == 'L' and not v.a[1]:
                v = st.mem.get(v.a[0], v)
            s = itkey(v)
            if s:
                out.append('#%s:%s' % (r[2], s))      # short loops over fixed arrays are unrolled
        for r in st.mem:
            if r[0] == 'G' and r[1].startswith('#'):
                out.append('%s=%s' % (r[1], show(st.mem[r])))
        return tuple(out)

    # ------------------------------------------------------------ blocks
    def block(self, fr, st, bb):
        b = fr.body.blocks[bb]
        for s in b.stmts:
            k = s[0]
            if k == 'assign':
                self.cur = fr, s[-1]
                dty = None
                pl = s[1]
                root, path, dty = self.place(fr, st, pl)
                v = self.rvalue(fr, st, s[2], dty)
                if dty:
                    self.note(v, dty)
                if root[0] == 'L' and not path:
                    st.mem[root] = v
                else:
                    self.write(fr, st, root, path, v)
            elif k == 'dead':
                st.mem.pop(('L', fr.cs, s[1]), None)
            elif k == 'setdiscr':
                root, path, ty = self.place(fr, st, s[1])
                self.write(fr, st, root, path, adt(last_seg(ty or '?'), s[2], ()))
            elif k == 'bad':
                raise EngineError('unparsed statement %s' % s[1])
        t = b.term
        if t:
            self.cur = fr, t[-1] if type(t[-1]) is str else ''
        k = t[0] if t else 'dead'
        if k == 'goto':
            return [(t[1], st)]
        if k == 'return':
            return [('ret', st)]
        if k == 'dead':
            return []
        if k == 'switch':
            return self.switch(fr, st, t)
        if k == 'assert':
            c = self.operand(fr, st, t[1])
            c = i2b(c) if t[2] else neg(c)
            if self.on_assert is not None:
                self.on_assert(self, fr, st, c, t)
            if Engine.RANK is not None:
                if st.holds(c):
                    self.event(fr, 'nopanic', (str(t[3]).strip('"')[:40],), st, t[-1])
                else:
                    self.event(fr, 'panic', ('assert', c), st, t[-1])
            s = st.assume(c)
            return [(t[5], s if s is not st else st)] if s is not None else []
        if k == 'call':
            return self.call(fr, st, t)
        raise EngineError('terminator ' + k)

    def switch(self, fr, st, t):
        v = self.operand(fr, st, t[1])
        ty = self.optype(fr, t[1])
        out = []
        rest = st
        isb = v.op in tm.BOOL or ty == 'bool'
        sg = re.fullmatch(r'i(8|16|32|64|128)', ty or '')
        if v.op == 'int' and v.a[0] < 0 and not sg:
            sg = re.fullmatch(r'i(8)', 'i8')       # the discriminants of Ordering
        for val, tgt in t[2]:
            if sg and val >= 1 << int(sg.group(1)) - 1:
                val -= 1 << int(sg.group(1))
            if isb:
                l = i2b(v) if val else neg(v)
            else:
                l = eq(v, I(val))
            if rest is None:
                break
            s = rest.assume(l)
            if s is not None:
                out.append((tgt, s.copy() if s is st else s))
            rest = rest.assume(neg(l))
        if rest is not None and t[3] is not None:
            tb = fr.body.blocks.get(t[3])
            if not (tb and not tb.stmts and tb.term and tb.term[0] == 'dead'):
                out.append((t[3], rest.copy()))
        # an otherwise branch that is dead makes the last listed value certain; nothing to add
        return out

    def call(self, fr, st, t):
        dest, func, args, bb = t[1], t[2], t[3], t[4]
        func = self.tsub(fr, func)
        vals = [self.operand(fr, st, a) for a in args]
        tys = [self.optype(fr, a) for a in args]
        dty = None
        if dest is not None:
            _, _, dty = self.place(fr, st, dest)
        if func.startswith(('move ', 'copy ')):
            res = self.through(fr, st, self.operand(fr, st, mir.parse_operand(func)), vals, tys, dty)
        else:
            res = self.apply(fr, st, func, vals, tys, dty, t)
        self.cur = fr, t[-1]
        if self.on_result is not None:
            res = self.on_result(self, fr, st, func, res, dty, t[-1])
        out = []
        if bb is None:
            return out
        for v, s in res:
            s = s.copy() if s is st else s
            if dest is not None:
                root, path, dty = self.place(fr, s, dest)
                if dty:
                    self.note(v, dty)
                if root[0] == 'L' and not path:
                    s.mem[root] = v
                else:
                    self.write(fr, s, root, path, v)
            out.append((bb, s))
        return out

    def resolve(self, func, argtypes):
        """crate-local Body of a call path, or None"""
        f = func
        m = re.match(r'^<(.*) as (.*)>::([A-Za-z_0-9]+)(::<.*>)?$', f)
        if m:
            x, meth = m.group(1), m.group(3)
            tr = last_seg(m.group(2))
            c = self.P.by_tm.get((last_seg(x), meth), [])
            mod = '::'.join(strip_generics(x).lstrip('&').replace('mut ', '').strip().split('::')[:-1])
            c = [(mm, b) for mm, b in c if getattr(b, 'trait', None) in (tr, None)]
            if len(c) > 1 and any(mm == mod for mm, b in c):
                c = [(mm, b) for mm, b in c if mm == mod]
            c = [b for _, b in c]
            if tr == 'From' and len(c) > 1:
                c = [b for b in c if argtypes and b.params and last_seg(b.params[0][1]) == last_seg(argtypes[0] or '')]
            if len(c) >= 1 and not (tr == 'From' and argtypes and last_seg(c[0].params[0][1]) != last_seg(argtypes[0] or '')):
                if x.startswith('&') and c[0].params and not c[0].params[0][1].startswith('&&'):
                    return None
                return c[0]
            # derived FromPrimitive and friends are indexed under the primitive argument
            if tr == 'FromPrimitive':
                for (mod, ty, mm), b in self.P.fns.items():
                    if mm == meth and ('FromPrimitive_FOR_' + last_seg(x)) in mod:
                        return b
            return None
        s = strip_generics(f)
        segs = s.split('::')
        if segs[0] in ('std', 'core', 'alloc', 'bytemuck', 'solana_program', 'bonfida_utils', 'borsh', 'num_traits'):
            return None
        if segs[0] == 'crate':
            segs = segs[1:]
        meth = segs[-1]
        if len(segs) >= 2:
            b = self.P.fns.get(('::'.join(segs[:-2]), segs[-2], meth))
            if b is not None:
                return b
            b = self.P.fns.get(('::'.join(segs[:-1]), '', meth))
            if b is not None:
                return b
            c = self.P.by_tm.get((segs[-2], meth), [])
            if len(c) == 1 and segs[-2][:1].isupper():
                return c[0][1]
            if len(c) > 1 and segs[-2][:1].isupper():
                cc = [b for mod, b in c if mod == '::'.join(segs[:-2])]
                if len(cc) == 1:
                    return cc[0]
        c = [b for (mod, ty, mm), b in self.P.fns.items() if mm == meth and ty == '' and (len(segs) == 1 or ('::'.join([mod, meth])).endswith(s))]
        if len(c) == 1:
            return c[0]
        # a function nested in a method: name contains the outer path
        c = [bl[0] for n, bl in self.P.bodies.items() if n.split('::')[-1] == meth and bl[0].kind == 'fn' and strip_impl(n) == s]
        return c[0] if len(c) == 1 else None

    def apply(self, fr, st, func, vals, tys, dty, t=None):
        """effect of calling func; [(value, state)]"""
        key = (func, tuple(x or '' for x in tys[:1]))
        cache = self.__dict__.setdefault('_rescache', {})
        if key not in cache:
            cache[key] = self.resolve(func, tys)
        body = cache[key]
        span = t[-1] if t else ''
        if self.on_call is not None:
            self.on_call(self, fr, st, func, body, vals, span)
        if body is not None:
            h = self.anchors.get(id(body))
            if h is not None:
                r = h(self, fr, st, vals, tys, dty, span)
                if r is not None:
                    return r
            return self.call_body(fr, st, body, vals, tys, rty=self.tsub(fr, dty) if dty else None)
        h = self.externs.get(strip_generics(func).split('::')[-1]) if self.externs else None
        if h is not None:
            r = h(self, fr, st, func, vals, tys, dty, span)
            if r is not None:
                return r
        r = self.M.model(self, fr, st, func, vals, tys, dty, span)
        if r is not None:
            return r
        return self.unknown(fr, st, func, vals, tys, dty)

    def through(self, fr, st, f, vals, tys, dty):
        """call through a function pointer, which may depend on a condition"""
        if f.op != 'ite':
            return self.call_value(fr, st, f, vals, tys, dty)
        out = []
        for c, g in ((f.a[0], f.a[1]), (neg(f.a[0]), f.a[2])):
            s = st.assume(c)
            if s is not None:
                out += self.through(fr, s, g, vals, tys, dty)
        return out

    def call_value(self, fr, st, f, args, tys, dty, extra=None):
        """call a closure or function value with already evaluated arguments"""
        if f.op == 'ref' or (f.op not in ('adt', 'fn') and f.op in ('pj',)):
            g = self.deref(st, f)
            if g.op in ('adt', 'fn'):
                f = g
        if f.op == 'fn':
            name = f.a[0]
            s = strip_generics(name).split('::')
            if s[-1] in STDV:
                e = 'Option' if s[-1] in ('Some', 'None') else 'Result' if s[-1] in ('Ok', 'Err') else 'ControlFlow'
                return [(adt(e, STDV[s[-1]], args), st)]
            if len(s) >= 2 and s[-2][:1].isupper():
                a = self.adt_of('::'.join(s[:-1]))
                if a is not None and a.kind == 'enum' and isinstance(a.vidx(s[-1]), int):
                    return [(adt(a.path, a.vidx(s[-1]), args), st)]
            a = self.adt_of('::'.join(s))
            if a is not None and a.kind == 'struct' and s[-1][:1].isupper():
                return [(adt(a.path, 0, args), st)]
            return self.apply(fr, st, name, args, tys, dty)
        if f.op == 'adt' and f.a[0].startswith('{closure@'):
            b = self.P.closures.get(f.a[0])
            if b is None:
                raise EngineError('closure body ' + f.a[0])
            env = f
            if b.params[0][1].startswith('&'):
                s = st.copy()
                root = ('L', fr.cs, 'env%s.%s' % (fr.at, f.a[0]))
                s.mem[root] = f
                env = ref(root, ())
                st = s
            # closure parameters are passed untupled in the printed body
            return self.call_body(fr, st, b, [env] + list(args), [None] + list(tys), extra)
        return self.unknown(fr, st, 'fnvalue', [f] + list(args), [None] + list(tys), dty)

    def pureval(self, st, v, ty, depth=0):
        """value an argument stands for: references are replaced by what they point to"""
        n = 0
        while ty and ty.strip().startswith('&') and n < 4:
            v = self.deref(st, v)
            ty = re.sub(r"^&('\w+ )?(mut )?", '', ty.strip())
            n += 1
        return v

    def fresh(self, fr, st, tag, ty=None):
        """a new symbol for this program point; older occurrences become stale"""
        s = mk('sym', tag, fr.cs, fr.at)
        self.stale(st, s)
        if ty:
            note_type(s, ty)
        return s

    def stale(self, st, s, n=0):
        used = any(s in v.syms for v in st.mem.values()) or any(s in l.syms for l in st.facts) or any(k[0] == 'O' and s in k[1].syms for k in st.mem)
        if not used:
            return
        o = mk('phi', 'old', s)
        if s in RNG:
            RNG.setdefault(o, RNG[s])
        if n < 6:
            self.stale(st, o, n + 1)
        ren_state(st, {s: o})

    def unknown(self, fr, st, func, vals, tys, dty):
        self.unmodelled[func] = self.unmodelled.get(func, 0) + 1
        muts = [(v, t) for v, t in zip(vals, tys) if t and re.match(r"&('\w+ )?mut ", t.strip())]
        clos = [v for v in vals if v.op == 'adt' and v.a[0].startswith('{closure@')]
        args = tuple(self.pureval(st, v, t) for v, t in zip(vals, tys))
        s = st.copy()
        if not muts and not clos:
            r = mk('app', func, *args)
            return [(r, s)]
        r = self.fresh(fr, s, 'ret ' + strip_generics(func))
        for v, t in muts:
            root, path = self.target(v)
            h = mk('sym', 'havoc ' + strip_generics(func), fr.cs, fr.at, v.id)
            self.stale(s, h)
            self.write(fr, s, root, path, h)
        self.event(fr, 'unknown', (func,), s)
        return [(r, s)]

    # ------------------------------------------------------------ joins
    def join(self, fr, node, es, head, sticky):
        keys = sorted(es, key=lambda e: (e[0] != 'entry', e[0][0] if e[0] != 'entry' else 0, str(e[0]), e[1]))
        if len(keys) == 1 and not head:
            return es[keys[0]]
        rp = fr.body._rpo
        fwd = [k for k in keys if k[0] == 'entry' or rp[k[0][0]] < rp[node[0]]]
        back = [k for k in keys if k not in fwd]
        keys = fwd + back
        sts = [es[k] for k in keys]
        tag = (fr.cs, node)
        # symbols named by this join that arrive from an earlier visit are stale copies
        own = self.owntab.setdefault(tag, set()) if hasattr(self, 'owntab') else None
        if own is None:
            self.owntab = {}
            own = self.owntab.setdefault(tag, set())
        if own:
            n = []
            for s in sts:
                s = s.copy()
                for p in sorted(own, key=lambda t: t.id):
                    self.stale(s, p)
                n.append(s)
            sts = n
        if len(sts) == 1:
            return sts[0]
        J = Join(self, fr, node, sts, head, tag, own, sticky.setdefault(node, {}), len(fwd))
        return J.run()


def strip_impl(n):
    return re.sub(r'<impl at [^>]*>::', '', n)


def ren_state(st, m):
    cache = {}
    nm = {}
    for k, v in st.mem.items():
        if k[0] == 'O':
            k = ('O', subst(k[1], m, cache))
        nm[k] = subst_roots(v, m, cache)
    st.mem = nm
    st.facts = frozenset(subst(l, m, cache) for l in st.facts)


def subst_roots(t, m, cache):
    return subst(t, m, cache)


def vkey(v, ty, st=None, depth=0):
    """partitioning part of a value: enum variant, constant boolean"""
    if v.op == 'adt':
        nm = v.a[0]
        if nm.startswith('{closure') or depth > 2:
            return ''
        s = ''
        if nm in STDE or isinstance(v.a[1], str) or v.a[1] != 0 or nm[:1] not in '(':
            s = str(v.a[1]) if nm in STDE or v.a[1] != 0 else ''
            if nm in STDE or not v.a[2]:
                s = '%s.%s' % (nm.split('::')[-1][:6], v.a[1])
        if nm.endswith('ProgramError'):
            # error codes are told apart
            return '%s%s' % (v.a[1], show(v.a[2][0]) if v.a[2] and v.a[2][0].op == 'int' else '')
        inner = [vkey(x, '', None, depth + 1) for x in v.a[2]] if nm in STDE or depth < 1 or nm.startswith('(') else []
        if any(inner):
            s += '(' + ','.join(inner) + ')'
        return s
    if ty == 'bool' and v.op == 'int':
        return 'T' if v.a[0] else 'F'
    if ty == 'bool' and st is not None and v.op not in ('undef',):
        b = i2b(v)
        if b in st.facts or st.holds(b):
            return 'T'
        if neg(b) in st.facts or st.holds(neg(b)):
            return 'F'
    return ''


def pairs(a, b, path=(), d=0):
    """matching numeric parts of two values of the same shape"""
    if a.op == 'adt' and b.op == 'adt' and d < 5:
        if a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]):
            for i, (x, y) in enumerate(zip(a.a[2], b.a[2])):
                yield from pairs(x, y, path + (i,), d + 1)
    elif a.op != 'adt' and b.op != 'adt':
        yield path, a, b


def remaining(v):
    """number of items an iterator still has to give"""
    if v.op != 'adt':
        return None
    k, f = v.a[0].split('::')[-1], v.a[2]
    if k in ('SIter', 'VIter') or k == 'Range' and len(f) == 2:
        return sub(f[-1], f[-2])
    if k == 'OIter':
        return I(f[0].a[1]) if f[0].op == 'adt' else None
    if k == 'Chain':
        a, b = remaining(f[0]), remaining(f[1])
        return add(a, b) if a is not None and b is not None else None
    if k in ('Rev', 'Enumerate', 'Copied', 'Cloned', 'Map'):
        return remaining(f[0])
    return None


def itkey(v, depth=0):
    """position of an iterator over a short array"""
    if v.op != 'adt' or depth > 3:
        return ''
    if v.a[0] in ('SIter', 'VIter', 'Range') or v.a[0].endswith('::Range'):
        f = v.a[2]
        lo, hi = (f[1], f[2]) if len(f) == 3 else (f[0], f[1])
        return '%d' % lo.a[0] if lo.op == 'int' and hi.op == 'int' and 0 <= hi.a[0] <= 16 else ''
    if v.a[0] == 'OIter':
        return 'o%s' % v.a[2][0].a[1] if v.a[2][0].op == 'adt' else ''
    if v.a[0] == 'Chain':
        p, q = itkey(v.a[2][0], depth + 1), itkey(v.a[2][1], depth + 1)
        return p + '+' + q if p and q else ''
    if v.a[0] in ('Rev', 'Enumerate', 'Copied', 'Cloned', 'Map', 'Take', 'Zip', 'Peek'):
        for x in v.a[2]:
            s = itkey(x, depth + 1)
            if s:
                return s
    return ''


def unify(p, a, out):
    """bind type parameters of p (single identifiers) to the matching part of a"""
    p, a = p.strip(), a.strip()
    while True:
        mp, ma = re.match(r"&('\w+ )?(mut )?", p), re.match(r"&('\w+ )?(mut )?", a)
        if p.startswith('&') and a.startswith('&'):
            p, a = p[mp.end():], a[ma.end():]
        else:
            break
    if re.fullmatch(r'[A-Z]\w{0,3}', p):
        if p != a and not re.fullmatch(r'_', a):
            out.setdefault(p, a)
        return
    if p.endswith('>') and a.endswith('>') and strip_generics(p) == strip_generics(a):
        for x, y in zip(ty_args(p), ty_args(a)):
            unify(x, y, out)


def liveness(body, rpo):
    use, deff, addr = {}, {}, set()

    def up(pl, u, d, write=False):
        for pr in pl.proj:
            if pr[0] == 'index' and pr[1] not in d:
                u.add(pr[1])
        if write and not pl.proj:
            if pl.local not in u:
                d.add(pl.local)
        else:
            if pl.local not in d:
                u.add(pl.local)

    def uo(o, u, d):
        if o[0] == 'p':
            up(o[1], u, d)

    for i in rpo:
        b = body.blocks[i]
        u, d = set(), set()
        for s in b.stmts:
            if s[0] == 'assign':
                rv = s[2]
                k = rv[0]
                if k in ('use', 'cast', 'repeat'):
                    uo(rv[1], u, d)
                elif k == 'bin':
                    uo(rv[2], u, d)
                    uo(rv[3], u, d)
                elif k == 'un':
                    uo(rv[2], u, d)
                elif k in ('len', 'discr'):
                    up(rv[1], u, d)
                elif k == 'ref':
                    up(rv[2], u, d)
                    if not any(p[0] == 'deref' for p in rv[2].proj):
                        addr.add(rv[2].local)
                elif k in ('tuple', 'array'):
                    for x in rv[1]:
                        uo(x, u, d)
                elif k == 'closure':
                    for x in rv[2]:
                        uo(x, u, d)
                elif k == 'agg':
                    for _, x in rv[2]:
                        uo(x, u, d)
                up(s[1], u, d, True)
            elif s[0] == 'setdiscr':
                up(s[1], u, d)
        t = b.term
        if t:
            if t[0] == 'switch':
                uo(t[1], u, d)
            elif t[0] == 'assert':
                uo(t[1], u, d)
            elif t[0] == 'call':
                for x in t[3]:
                    uo(x, u, d)
                if t[1] is not None:
                    up(t[1], u, d, True)
            elif t[0] == 'return':
                if 0 not in d:
                    u.add(0)
        use[i], deff[i] = u, d
    live = {i: set(use[i]) for i in rpo}
    ch = True
    order = sorted(rpo, key=lambda i: -rpo[i])
    while ch:
        ch = False
        for i in order:
            out = set()
            for x in body._succ[i]:
                if x in live:
                    out |= live[x]
            n = use[i] | (out - deff[i])
            if n != live[i]:
                live[i] = n
                ch = True
    return live, addr


MISSING = mk('missing')


class Join:
    def __init__(self, eng, fr, node, sts, head, tag, own, sticky, nfwd):
        self.e, self.fr, self.node, self.sts, self.head, self.tag, self.own, self.sticky, self.nfwd = eng, fr, node, sts, head, tag, own, sticky, nfwd
        self.n = len(sts)
        self.classes = {}      # value tuple -> joined term
        self.reps = []         # (tuple, phi) of numeric classes
        self.inv = [dict() for _ in sts]
        self.mapback = {}      # joined symbol -> value tuple
        self.extra = []        # facts that hold on every edge about related symbols

    def run(self):
        sts = self.sts
        roots = []
        seen = set()
        for s in sts:
            for k in s.mem:
                if k not in seen:
                    seen.add(k)
                    roots.append(k)
        mem = {}
        self.facts0 = frozenset.intersection(*[s.facts for s in sts])
        if self.head:
            self.facts0 = frozenset(l for l in self.facts0 if not any(x.op == 'phi' and x.a[0] == 'old' for x in l.syms))
        for r in sorted(roots, key=rkey):
            vs = []
            for s in sts:
                v = s.mem.get(r)
                if v is None:
                    if r[0] == 'O':
                        v = mk('mem0', r)
                    else:
                        v = None
                vs.append(v)
            if any(v is None for v in vs):
                continue          # a local not initialised on every path is dead or moved out
            if all(v is vs[0] for v in vs):
                mem[r] = vs[0]
            else:
                mem[r] = self.val(tuple(vs), (r,), self.ltype(r))
        facts = self.facts(mem)
        for l in self.extra:
            facts = assume(facts, l) or facts
        return State(mem, facts)

    def ck(self, vs, ty):
        """the class a tuple of values belongs to (flags of a loop are no counters, even if both start as 0, 1)"""
        k = _nk(vs)
        if self.head and ty == 'bool' and all(v.op == 'int' for v in k):
            return ('flag',) + k
        return k

    def ltype(self, r):
        if r[0] == 'L' and r[1] == self.fr.cs:
            return self.e.tsub(self.fr, self.fr.body.types.get(r[2]))
        return None

    def val(self, vs, loc, ty):
        """join the values one location has on the edges"""
        v0 = vs[0]
        if all(v is v0 for v in vs):
            return v0
        if any(v.op == 'undef' for v in vs):
            return UNDEF
        if self.ck(vs, ty) in self.classes:
            return self.classes[self.ck(vs, ty)]
        # same shape: field by field
        if v0.op == 'adt' and all(v.op == 'adt' and v.a[0] == v0.a[0] and v.a[1] == v0.a[1] and len(v.a[2]) == len(v0.a[2]) for v in vs):
            return mk('adt', v0.a[0], v0.a[1], tuple(self.val(tuple(v.a[2][i] for v in vs), loc + (('f', v0.a[1], i),), None) for i in range(len(v0.a[2]))))
        if v0.op == 'arr' and all(v.op == 'arr' and len(v.a) == len(v0.a) for v in vs):
            return mk('arr', *[self.val(tuple(v.a[i] for v in vs), loc + (('i', i),), None) for i in range(len(v0.a))])
        if any(v.op == 'with' for v in vs) and all(v.op in ('with', 'mem0', 'pj', 'ver', 'phi', 'sym', 'store') for v in vs):
            bases = [v.a[0] if v.op == 'with' else v for v in vs]
            if all(b is bases[0] for b in bases):
                ks = []
                for v in vs:
                    if v.op == 'with':
                        for q, _ in v.a[1]:
                            if q not in ks:
                                ks.append(q)
                ks.sort(key=str)
                t = bases[0]
                for q in ks:
                    t = setp(t, q, self.val(tuple(proj(v, q) for v in vs), loc + (q,), None))
                return t
        if any(v.op == 'store' for v in vs):
            t = self.stores(vs, loc)
            if t is not None:
                return t
        if v0.op == 'ref' and all(v.op == 'ref' and v.a[0] == v0.a[0] and len(v.a[1]) == len(v0.a[1]) for v in vs):
            # the same place up to index terms
            path = []
            for i in range(len(v0.a[1])):
                ps = [v.a[1][i] for v in vs]
                if all(p == ps[0] for p in ps):
                    path.append(ps[0])
                elif all(p[0] == 'i' for p in ps):
                    path.append(('i', self.val(tuple(p[1] for p in ps), loc + (('ri', i),), 'usize')))
                else:
                    path = None
                    break
            if path is not None:
                return ref(v0.a[0], path)
        return self.scalar(vs, loc, ty)

    def stores(self, vs, loc):
        """arrays that differ in the elements written at the same indices"""
        def chain(v):
            idx = []
            while v.op == 'store':
                idx.append(v.a[1])
                v = v.a[0]
            return v, idx
        cs = [chain(v) for v in vs]
        if not all(c[0] is cs[0][0] for c in cs):
            return None
        idx = []
        for c in cs:
            for i in c[1]:
                if i not in idx:
                    idx.append(i)
        if self.head:
            return None
        # the same index must mean the same element on every edge
        for a in range(len(idx)):
            for b in range(a):
                if not provably_distinct(idx[a], idx[b]):
                    for s in self.sts:
                        if not (s.holds(neg(eq(idx[a], idx[b])))):
                            return None
        t = cs[0][0]
        for i in idx:
            t = setp(t, ('i', i), self.val(tuple(proj(v, ('i', i)) for v in vs), loc + (('i', i),), None))
        return t

    def scalar(self, vs, loc, ty):
        st = self.sticky
        isnum = all(tm._isnum(v) or v.op in ('phi', 'sym', 'pj', 'app') for v in vs) and not any(v.op in tm.BOOL for v in vs)
        if ty == 'bool':
            vs = tuple(i2b(v) for v in vs)
            # a truth value decided on its edge
            vs = tuple(v if v is TRUE or v is FALSE else TRUE if s.holds(v) else FALSE if s.holds(neg(v)) else v for v, s in zip(vs, self.sts))
            if all(v is vs[0] for v in vs):
                return vs[0]
            if self.ck(vs, ty) in self.classes:
                return self.classes[self.ck(vs, ty)]
        if not self.head:
            g = self.gate(vs, list(range(self.n)), 0)
            if g is not None and g.size <= 900:
                self.classes[self.ck(vs, ty)] = g
                self.back(g, vs)
                return g
        key = lockey(loc)
        if self.head and isnum and key not in st and ty != 'bool':
            for ws, w in self.reps:
                for s in (1, -1):
                    k = lincomb((1, vs[0]), (s, ws[0]))
                    if all(lincomb((1, a), (s, b)) is k for a, b in zip(vs[1:], ws[1:])):
                        if not any(o in k.syms for o in self.own) and not any(x.op == 'phi' and x.a[0] == 'old' and x.a[1] in self.own for x in k.syms):
                            r = lincomb((1, k), (-s, w))
                            self.classes[self.ck(vs, ty)] = r
                            if all(x.holds(ge0(v)) for x, v in zip(self.sts, vs)):
                                self.extra.append(ge0(r))
                            return r
        # the range is part of the phi's identity: a range is recorded once and for all, so a wider value is another symbol
        w = self.width(vs)
        o = st.get(key)
        if o is not None and o is not True and (w is None or o == 0 or w < o):
            w = 0 if w is None or o == 0 else o
        st[key] = w = w or 0
        p = mk('phi', self.tag, key, w)
        self.own.add(p)
        self.classes[self.ck(vs, ty)] = p
        if w:
            RNG.setdefault(p, (0, w))
        if ty:
            note_type(p, ty)
        if isnum and ty != 'bool':
            self.reps.append((vs, p))
        self.back(p, vs)
        return p

    def width(self, vs):
        rs = [rng(v) for v in vs]
        hi = max(r[1] for r in rs)
        if min(r[0] for r in rs) < 0:
            return None
        if all(v.op in tm.BOOL or RNG.get(v) == (0, 1) or v in (ONE, ZERO) for v in vs) and any(v.op in tm.BOOL or RNG.get(v) == (0, 1) for v in vs):
            return 1
        const = all(v.op == 'int' for v in vs)
        for w in (8, 16, 32, 64, 128):
            if hi <= U[w] and (w >= 32 or not const and all(v.op != 'int' for v in vs)):
                return U[64] if const and w < 64 else U[w]
        return None

    def back(self, j, vs):
        self.mapback[j] = vs
        for i, v in enumerate(vs):
            if v.op == 'lin' and len(v.a[1]) == 1 and v.a[1][0][1] in (1, -1) and j.op == 'phi':
                # v = c + s*x, so x = s*(j - c)
                x, n = v.a[1][0]
                self.inv[i].setdefault(x, lincomb((n, j), (-n, I(v.a[0]))))
            elif v.op not in ('int', 'adt', 'undef', 'lin') and v.op not in tm.BOOL:
                self.inv[i].setdefault(v, j)

    def gate(self, vs, idx, depth):
        if all(vs[i] is vs[idx[0]] for i in idx):
            return vs[idx[0]]
        if depth > 4:
            return None
        if any(vs[i].size > 400 for i in idx):
            return None
        # a literal decided on every edge of idx, differently
        sts = self.sts
        cand = set()
        for i in idx[:2] + idx[-1:]:
            cand |= sts[i].facts - self.facts0
        best = None
        for l in sorted(cand, key=lambda l: (l.size, l.id)):
            if l.op not in ('ge0', 'eq0', 'ne0', 'eqv', 'not', 'bor', 'band'):
                continue
            if any(o in l.syms for o in self.own) :
                continue
            a, b = [], []
            nl = neg(l)
            for i in idx:
                f = sts[i].facts
                if l in f:
                    a.append(i)
                elif nl in f or entails(f, nl):
                    b.append(i)
                elif entails(f, l):
                    a.append(i)
                else:
                    break
            else:
                if a and b:
                    x = self.gate(vs, a, depth + 1)
                    if x is None:
                        continue
                    y = self.gate(vs, b, depth + 1)
                    if y is None:
                        continue
                    r = ite(l, x, y)
                    if best is None or r.size < best.size:
                        best = r
                    if best.size <= 60:
                        break
        return best

    def facts(self, mem):
        sts = self.sts
        facts = self.facts0
        cand = []
        seen = set(facts)
        for i, s in enumerate(sts):
            inv = self.inv[i]
            for l in s.facts:
                if l in facts:
                    continue
                for c in ((l, subst(l, inv)) if inv else (l,)):
                    if c not in seen:
                        seen.add(c)
                        cand.append(c)
        if not self.head:
            # a strict order on one edge and an equality on another leave an order
            for i, s in enumerate(sts):
                for l in s.facts:
                    if l not in facts and l.op == 'eq0' and l.size < 40 and l.a[0].op not in tm.BOOL:
                        for c in (ge0(l.a[0]), ge0(sub(ZERO, l.a[0]))):
                            if c not in seen and c.op == 'ge0':
                                seen.add(c)
                                cand.append(c)
        # order relations between joined numbers and their entry values
        for j, vs in self.mapback.items():
            if j.op == 'phi' and vs[0].op not in tm.BOOL and tm._isnum(vs[0]):
                for c in (le(j, vs[0]), le(vs[0], j)):
                    if c not in seen and c.op != 'int':
                        seen.add(c)
                        cand.append(c)
            if self.head and j.op == 'phi' and vs[0].op == 'int' and tm._isnum(vs[0]) and len(vs) > 1:
                # a counter and the quantities it is measured against
                xs = set()
                for i in range(1, self.n):
                    near = set(vs[i].syms)
                    for l in sts[i].facts:
                        if l.op in ('ne0', 'ge0') and l.size < 40 and (near & set(l.syms) or vs[i].op == 'int'):
                            near |= set(l.syms)
                    xs |= {x for x in near if x.op == 'sym' and x is not j and RNG.get(x, (0, 0))[1] > 1}
                for x in sorted(xs, key=lambda x: x.id)[:12]:
                    c = le(j, x)
                    if c not in seen and c.op != 'int':
                        seen.add(c)
                        cand.append(c)
        # counters that advance in a fixed proportion
        cs = [(j, vs) for j, vs in self.mapback.items() if j.op == 'phi' and any(v.op == 'int' and 0 < v.a[0] <= 64 for v in vs) and tm._isnum(j)]
        for a, (j, vs) in enumerate(cs[:12]):
            for k, ws in cs[:a]:
                p = [(v.a[0], w.a[0]) for v, w in zip(vs, ws) if v.op == w.op == 'int']
                p = [(v, w) for v, w in p if 0 < v <= 64 and 0 < w <= 64 and v != w]
                if p:
                    c = eq(lincomb((p[0][1], j)), lincomb((p[0][0], k)))
                    if c not in seen and c.op != 'int':
                        seen.add(c)
                        cand.append(c)
        oldsyms = None
        cand.sort(key=lambda c: (c.size, c.id))
        out = facts
        for c in cand[:400]:
            ok = True
            if any(x.op == 'phi' and x.a[0] == 'old' for x in c.syms) and self.head:
                continue
            for i, s in enumerate(sts):
                m = {j: vs[i] for j, vs in self.mapback.items()}
                ci = subst(c, m) if any(j in c.syms or j.op != 'phi' for j in m) else c
                if not s.holds(ci):
                    ok = False
                    break
            if ok:
                n = assume(out, c)
                if n is not None:
                    out = n
        return out


def _nk(vs):
    """booleans and their 0/1 values are one class"""
    return tuple(b2i(v) if v.op in tm.BOOL else v for v in vs)


def rkey(r):
    if r[0] == 'L':
        return (0, r[1], str(r[2]).rjust(12), 0)
    if r[0] == 'G':
        return (1, 0, r[1], 0)
    return (2, 0, '', r[1].id)


def lockey(loc):
    return mk('loc', *[_lk(x) for x in loc])


def _lk(x):
    return x if type(x) is tuple else (x,)
