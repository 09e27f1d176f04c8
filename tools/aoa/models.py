"""Effects of the functions outside the crate (std, bytemuck, solana_program) on abstract states."""
import re
from .terms import *
from . import terms as tm
from . import mir
from .front import strip_ref, strip_generics, last_seg

INTS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64}


def setup(E):
    pass


def OPT(v=None):
    return adt('Option', 0, ()) if v is None else adt('Option', 1, (v,))


def RES(ok, v):
    return adt('Result', 0 if ok else 1, (v,))


def targs(t):
    from .engine import ty_args
    return ty_args(t)


def argty(E, ty, k):
    a = targs(ty or '')
    return a[k] if len(a) > k else None


def cases(E, st, v, ty):
    """[(variant, payload, state)] of an enum value"""
    if v.op == 'adt':
        return [(v.a[1], v.a[2][0] if v.a[2] else None, st)]
    if v.op == 'ite':
        out = []
        for c, x in ((v.a[0], v.a[1]), (neg(v.a[0]), v.a[2])):
            s = st.assume(c)
            if s is not None:
                out += cases(E, s if s is not st else st.copy(), x, ty)
        return out
    vs = E.variants(ty or '')
    if vs is None:
        return None
    d = E.discr(v, ty)
    out = []
    for k, (nm, dv, nf) in enumerate(vs):
        s = st.assume(eq(d, I(dv)))
        if s is None:
            continue
        p = None
        if nf:
            p = proj(v, ('f', k, 0))
            b = last_seg(ty or '')
            a = targs(strip_ref(ty or ''))
            if b == 'Option' and a:
                E.note(p, a[0])
            elif b == 'Result' and len(a) > k:
                E.note(p, a[k])
        out.append((k, p, s.copy() if s is st else s))
    return out


def conv(E, fr, st, v, src, dst):
    """From/Into"""
    if src and dst and (last_seg(src) == last_seg(dst)):
        return [(v, st)]
    if dst and src:
        f = '<%s as std::convert::From<%s>>::from' % (dst, src)
        b = E.resolve(f, [src])
        if b is not None:
            h = E.anchors.get(id(b))
            return E.call_body(fr, st, b, [v], [src])
        if dst.strip() in INTS and (src.strip() in INTS or src.strip() == 'bool'):
            return [(b2i(v) if src.strip() == 'bool' else v, st)]
    return [(mk('app', 'conv', v), st)]


def split_trait(func):
    m = re.match(r'^<(.*) as (.*)>::([A-Za-z_0-9]+)(::<.*>)?$', func)
    if not m:
        return None
    return m.group(1), m.group(2), m.group(3)


ORD = {'is_eq': (0,), 'is_ne': (-1, 1), 'is_lt': (-1,), 'is_le': (-1, 0), 'is_gt': (1,), 'is_ge': (0, 1), 'reverse': ()}


def model(E, fr, st, func, vals, tys, dty, span):
    tr = split_trait(func)
    if tr:
        return trait_model(E, fr, st, func, tr, vals, tys, dty, span)
    name = strip_generics(func)
    segs = name.split('::')
    meth = segs[-1]
    own = segs[-2] if len(segs) > 1 else ''
    if own.startswith('<impl') or '<impl ' in func:
        m = re.search(r'<impl ([^>]*?(?:<[^>]*>)?[^>]*)>::(\w+)', func)
        t = m.group(1).strip() if m else ''
        if t in INTS or t in ('i64', 'i32', 'isize', 'i8', 'i128', 'i16'):
            return int_method(E, fr, st, t, meth, vals, tys, dty)
        if t.startswith('['):
            return slice_method(E, fr, st, t, meth, vals, tys, dty, func)
        if t == 'bool' or func.startswith('core::bool'):
            return bool_method(E, fr, st, meth, vals, tys, dty)
        return None
    if own == 'Ordering' and len(vals) == 1 and meth in ORD:
        v = E.deref(st, vals[0]) if vals[0].op == 'ref' else vals[0]
        if meth == 'reverse':
            return [(adt('Ordering', 2 - v.a[1], ()), st)] if v.op == 'adt' else None
        d, r = E.discr(v, 'Ordering'), FALSE
        for k in ORD[meth]:
            r = disj(r, eq(d, I(k)))
        return [(r, st)]
    if own == 'RangeInclusive' and meth == 'new':
        return [(adt('RangeInclusive', 0, (vals[0], vals[1], FALSE)), st)]
    if own == 'RangeInclusive' and meth == 'into_inner':
        return [(tup(vals[0].a[2][0], vals[0].a[2][1]), st)] if vals[0].op == 'adt' else None
    if own in ('Range', 'RangeInclusive', 'RangeFrom', 'RangeTo', 'RangeToInclusive') and meth == 'contains':
        r, x = E.deref(st, vals[0]), E.deref(st, vals[1])
        if r.op != 'adt':
            return None
        f, c = r.a[2], TRUE
        if own in ('Range', 'RangeInclusive', 'RangeFrom'):
            c = le(f[0], x)
        if own != 'RangeFrom':
            hi = f[0] if own in ('RangeTo', 'RangeToInclusive') else f[1]
            c = conj(c, le(x, hi) if 'Inclusive' in own else lt(x, hi))
        return [(c, st)]
    if own in ('Range', 'RangeInclusive') and meth == 'is_empty':
        r = E.deref(st, vals[0])
        return None if r.op != 'adt' else [(lt(r.a[2][1], r.a[2][0]) if own == 'RangeInclusive' else le(r.a[2][1], r.a[2][0]), st)]
    if own == 'Peekable' and meth == 'peek':
        return iter_method(E, fr, st, None, meth, vals, tys, dty, func)
    if own == 'Option':
        return option_method(E, fr, st, meth, vals, tys, dty, func)
    if own == 'Result':
        return result_method(E, fr, st, meth, vals, tys, dty, func)
    if own == 'Vec':
        return vec_method(E, fr, st, meth, vals, tys, dty)
    if own in ('RefCell',):
        return cell_method(E, fr, st, meth, vals, tys, dty)
    if own in ('Ref', 'RefMut') and meth == 'map':
        r = E.deref(st, vals[0]) if vals[0].op != 'adt' else vals[0]
        out = []
        for v, s in E.call_value(fr, st, vals[1], [r.a[2][0] if r.op == 'adt' else proj(r, ('f', None, 0))], [None], None):
            out.append((adt('Guard', 0, (v,)), s))
        return out
    if own in ('Rc', 'Arc') and meth == 'new' or own == 'Box' and meth == 'new':
        return None
    if name in ('std::mem::size_of', 'core::mem::size_of', 'std::mem::size_of_val'):
        m = re.search(r'::<(.*)>$', func)
        return [(E.sizeof(m.group(1)), st)] if m else None
    if own == 'mem':
        return mem_fn(E, fr, st, meth, vals, tys, dty)
    if own == 'cmp':
        if meth == 'min':
            return [(tmin(vals[0], vals[1]), st)]
        if meth == 'max':
            return [(tmax(vals[0], vals[1]), st)]
    if segs[0] == 'bytemuck':
        return bytemuck_fn(E, fr, st, meth, vals, tys, dty, func)
    if meth in ('sol_log', 'print', '_print', '_eprint', 'sol_log_compute_units', 'log'):
        return [(UNIT, st)]
    if 'panicking' in segs or meth in ('panic', 'panic_fmt', 'begin_panic', 'unreachable_unchecked', 'unwrap_failed', 'panic_str', 'assert_failed', 'unreachable_display', 'panic_display'):
        E.event(fr, 'panic', (func,), st, span)
        return []
    if own == 'hint' and meth == 'must_use' or meth in ('black_box',):
        return [(vals[0], st)]
    if meth == 'next_account_info':
        return next_item(E, fr, st, vals, tys, dty, acct=True)
    if own == 'AccountInfo' and vals and vals[0].op in ('ref', 'sym', 'pj'):
        r = account_method(E, fr, st, meth, vals)
        if r is not None:
            return r
    if own == 'Pubkey':
        if meth in ('to_bytes', 'new_from_array', 'as_ref'):
            return [(E.pureval(st, vals[0], tys[0]), st)]
    if own == 'AccountMeta':
        if meth == 'new':
            return [(adt('AccountMeta', 0, (vals[0], vals[1], TRUE)), st)]
        if meth == 'new_readonly':
            return [(adt('AccountMeta', 0, (vals[0], vals[1], FALSE)), st)]
    if meth == 'exchange_malloc' or (own == 'Box' and meth == 'new_uninit'):
        s = st.copy()
        b = E.fresh(fr, s, 'box')
        s.mem[('O', b)] = UNDEF
        return [(b, s)]
    if meth in ('box_new',) or (own == 'Box' and meth == 'new'):
        s = st.copy()
        b = E.fresh(fr, s, 'box')
        s.mem[('O', b)] = vals[0]
        return [(b, s)]
    if meth == 'box_assume_init_into_vec_unsafe' or meth == 'into_vec':
        v = E.deref(st, vals[0])
        n = I(len(v.a)) if v.op == 'arr' else mk('len', v)
        return [(adt('Vec', 0, (v, n)), st)]
    if meth == 'from_elem' and len(vals) == 2:
        return [(adt('Vec', 0, (mk('rep', vals[0], vals[1]), vals[1])), st)]
    if own == 'convert' and meth == 'identity':
        return [(vals[0], st)]
    if own == 'iter' and meth == 'from_fn':
        return [(adt('FromFn', 0, (vals[0],)), st)]
    if own == 'iter' and meth == 'successors':
        return [(adt('Successors', 0, (vals[0], vals[1])), st)]
    if own == 'iter' and meth == 'once':
        return [(adt('OIter', 0, (OPT(vals[0]),)), st)]
    if own == 'iter' and meth == 'empty':
        return [(adt('OIter', 0, (OPT(),)), st)]
    return None


# ------------------------------------------------------------------ traits
def trait_model(E, fr, st, func, tr, vals, tys, dty, span):
    x, trait, meth = tr
    t = last_seg(trait)
    xb = last_seg(x)
    if t == 'Try' and meth == 'branch':
        out = []
        cs = cases(E, st, vals[0], x)
        if cs is None:
            return None
        for k, p, s in cs:
            good = (xb == 'Option' and k == 1) or (xb == 'Result' and k == 0)
            if good:
                out.append((adt('ControlFlow', 0, (p,)), s))
            elif xb == 'Option':
                out.append((adt('ControlFlow', 1, (OPT(),)), s))
            else:
                out.append((adt('ControlFlow', 1, (RES(False, p),)), s))
        return out
    if t == 'Try' and meth == 'from_output':
        return [(OPT(vals[0]) if xb == 'Option' else RES(True, vals[0]), st)]
    if t == 'FromResidual':
        if xb == 'Option':
            return [(OPT(), st)]
        if xb == 'Result':
            rt = re.match(r'.*?FromResidual<(.*)>$', trait)
            src = argty(E, rt.group(1), 1) if rt else None
            dst = argty(E, x, 1)
            out = []
            for k, p, s in cases(E, st, vals[0], 'Result<std::convert::Infallible, %s>' % src) or []:
                if k == 0:
                    continue
                for v, s2 in conv(E, fr, s, p, src, dst):
                    out.append((RES(False, v), s2))
            return out
    if t == 'Into' and meth == 'into':
        return conv(E, fr, st, vals[0], x, targs(trait)[0] if targs(trait) else None)
    if t == 'From' and meth == 'from':
        a = targs(trait)
        return conv_noloop(E, fr, st, vals[0], a[0] if a else None, x)
    if t == 'TryFrom' and meth == 'try_from' or t == 'TryInto' and meth == 'try_into':
        a = targs(trait)
        src, dst = (a[0] if a else None, x) if t == 'TryFrom' else (x, a[0] if a else None)
        if (src or '').strip() in INTS and (dst or '').strip() in INTS:
            m = tm.U[INTS[dst.strip()]]
            out = []
            s = st.assume(le(vals[0], I(m)))
            if s is not None:
                out.append((RES(True, vals[0]), s))
            s = st.assume(lt(I(m), vals[0]))
            if s is not None:
                out.append((RES(False, mk('str', 'TryFromIntError')), s))
            return out
        m = re.fullmatch(r'(&(?:mut )?)?\[.*; (.+)\]', (dst or '').strip())
        if m and re.match(r'&(mut )?\[[^;]*\]$', (src or '').strip()):
            n, k = E.lenof(st, vals[0], src), E.constlen(m.group(2))
            if k is None:
                return None
            out = []
            s = st.assume(eq(n, k))
            if s is not None:
                out.append((RES(True, vals[0] if m.group(1) else E.deref(s, vals[0])), s))
            s = st.assume(neg(eq(n, k)))
            if s is not None:
                out.append((RES(False, mk('str', 'TryFromSliceError')), s))
            return out
        return None
    if t == 'PartialEq' and meth in ('eq', 'ne'):
        a, b = E.pureval(st, vals[0], tys[0]), E.pureval(st, vals[1], tys[1])
        ta, tb = strip_ref(tys[0] or ''), strip_ref(tys[1] or '')
        r = eq_typed(E, fr, st, a, b, ta)
        if r is None:
            return None
        return [(v if meth == 'eq' else neg(v), s) for v, s in r]
    if t == 'PartialOrd' and meth in ('lt', 'le', 'gt', 'ge'):
        a, b = E.pureval(st, vals[0], tys[0]), E.pureval(st, vals[1], tys[1])
        if strip_ref(x) in INTS or tm._isnum(a) or tm._isnum(b):
            return [({'lt': lt(a, b), 'le': le(a, b), 'gt': lt(b, a), 'ge': le(b, a)}[meth], st)]
        return None
    if t in ('Ord', 'PartialOrd') and meth in ('cmp', 'partial_cmp'):
        a, b = E.pureval(st, vals[0], tys[0]), E.pureval(st, vals[1], tys[1])
        out = []
        for k, l in ((0, lt(a, b)), (1, eq(a, b)), (2, lt(b, a))):
            s = st.assume(l)
            if s is not None:
                v = adt('Ordering', k, ())
                out.append((OPT(v) if meth == 'partial_cmp' else v, s))
        return out
    if t == 'Ord' and meth in ('min', 'max'):
        return [((tmin if meth == 'min' else tmax)(vals[0], vals[1]), st)]
    if t == 'Ord' and meth == 'clamp':
        return [(tmin(tmax(vals[0], vals[1]), vals[2]), st)]
    if t == 'Clone' and meth == 'clone':
        return [(E.deref(st, vals[0]), st)]
    if t == 'Clone' and meth == 'clone_from':
        s = st.copy()
        E.write(fr, s, *E.target(vals[0]), E.deref(st, vals[1]))
        return [(UNIT, s)]
    if t in ('ToOwned',) and meth == 'to_owned':
        return [(E.deref(st, vals[0]), st)]
    if t in ('Deref', 'DerefMut'):
        return deref_model(E, fr, st, x, vals, tys)
    if t in ('AsRef', 'AsMut', 'Borrow', 'BorrowMut'):
        if xb in ('Ref', 'RefMut', 'Rc', 'Vec'):
            return deref_model(E, fr, st, x, vals, tys)
        return [(vals[0], st)]
    if t in ('Index', 'IndexMut'):
        return index_model(E, fr, st, x, trait, vals, tys)
    if t == 'Default' and meth == 'default':
        b = x.strip()
        if b in INTS:
            return [(ZERO, st)]
        if b == 'bool':
            return [(FALSE, st)]
        if xb == 'Option':
            return [(OPT(), st)]
        if xb == 'Vec':
            return [(adt('Vec', 0, (mk('vec0'), ZERO)), st)]
        return None
    if t == 'IntoIterator' and meth == 'into_iter':
        return into_iter(E, fr, st, vals[0], tys[0], x)
    if t in ('Iterator', 'DoubleEndedIterator', 'ExactSizeIterator'):
        return iter_method(E, fr, st, x, meth, vals, tys, dty, func)
    if t in ('Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr') and strip_ref(x) in INTS:
        a, b = E.pureval(st, vals[0], tys[0]), E.pureval(st, vals[1], tys[1])
        return [(E.arith(fr, st, t, a, b, strip_ref(x)), st)]
    if t.endswith('Assign') and t[:-6] in ('Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr') and strip_ref(x) in INTS:
        s = st.copy()
        root, path = E.target(vals[0])
        a, b = E.read(s, root, path), E.pureval(s, vals[1], tys[1])
        E.write(fr, s, root, path, E.arith(fr, s, t[:-6], a, b, strip_ref(x)))
        return [(UNIT, s)]
    if t == 'Not' and meth == 'not':
        a = E.pureval(st, vals[0], tys[0])
        if strip_ref(x) == 'bool':
            return [(neg(a), st)]
        if strip_ref(x) in INTS:
            return [(sub(I(tm.U[INTS[strip_ref(x)]]), a), st)]
    if t in ('FnOnce', 'FnMut', 'Fn') and meth.startswith('call'):
        f = vals[0]
        a = vals[1]
        args = list(a.a[2]) if a.op == 'adt' else []
        ft = (tys[0] or '')
        if f.op == 'ref' and ft.startswith('&'):
            g = E.deref(st, f)
            b = E.P.closures.get(g.a[0]) if g.op == 'adt' else None
            if b is not None:
                env = f if b.params[0][1].startswith('&') else g
                return E.call_body(fr, st, b, [env] + args, [None] * (1 + len(args)))
            f = g
        return E.call_value(fr, st, f, args, [None] * len(args), dty)
    if t == 'FromPrimitive' and meth.startswith('from_'):
        ad = E.adt_of(x)
        if ad is None or ad.kind != 'enum' or any(v[2] for v in ad.variants):
            return None
        out = []
        none = st
        for k, vr in enumerate(ad.variants):
            s = st.assume(eq(vals[0], I(vr[1])))
            if s is not None:
                out.append((OPT(adt(ad.path, k, ())), s))
            none = none.assume(neg(eq(vals[0], I(vr[1])))) if none is not None else None
        if none is not None:
            out.append((OPT(), none))
        return out
    if t == 'CallbackInfo' and meth == 'as_callback_id':
        return [(mk('app', 'as_callback_id', E.pureval(st, vals[0], tys[0])), st)]
    if t == 'Sum' or t == 'FromIterator' or t == 'Extend':
        return None
    if t == 'Drop':
        return [(UNIT, st)]
    if t == 'ToString' or t == 'Debug' or t == 'Display':
        return [(mk('str', '?'), st)]
    return None


def conv_noloop(E, fr, st, v, src, dst):
    if src and dst and last_seg(src) == last_seg(dst):
        return [(v, st)]
    if (dst or '').strip() in INTS and ((src or '').strip() in INTS or (src or '').strip() == 'bool'):
        return [(b2i(v) if src.strip() == 'bool' else v, st)]
    return [(mk('app', 'conv', v), st)]


def eq_typed(E, fr, st, a, b, ty):
    if a is b:
        return [(TRUE, st)]
    ad = E.adt_of(ty)
    if ad is not None and ad.kind == 'enum' and all(not v[2] for v in ad.variants):
        return [(eq(E.discr(a, ty), E.discr(b, ty)), st)]
    if last_seg(ty) in ('Option', 'Result'):
        out = []
        ca = cases(E, st, a, ty)
        for k, p, s in ca:
            for k2, p2, s2 in cases(E, s, b, ty):
                if k != k2:
                    out.append((FALSE, s2))
                elif p is None:
                    out.append((TRUE, s2))
                else:
                    pt = argty(E, ty, 0 if last_seg(ty) == 'Option' else k) or ''
                    if pt.startswith('&'):
                        p, p2 = E.pureval(s2, p, pt), E.pureval(s2, p2, pt)
                    out += eq_typed(E, fr, s2, p, p2, strip_ref(pt)) or [(eq(p, p2), s2)]
        return out
    return [(eq(a, b), st)]


def deref_model(E, fr, st, x, vals, tys):
    xb = last_seg(x)
    if xb in ('Ref', 'RefMut', 'MutexGuard'):
        g = E.deref(st, vals[0])
        return [(proj(g, ('f', None, 0)) if g.op != 'adt' else g.a[2][0], st)]
    if xb in ('Rc', 'Arc', 'Box'):
        return [(E.deref(st, vals[0]), st)]
    if xb == 'Vec':
        root, path = E.target(vals[0])
        rf = E.mkref(root, tuple(path) + (('f', None, 0),))
        E.__dict__.setdefault('vecrefs', set()).add(rf)
        return [(rf, st)]
    if xb == 'String':
        return [(mk('str', '?'), st)]
    return None


def veclen(E, st, v):
    if v.op == 'adt' and v.a[0] == 'Vec':
        return v.a[2][1]
    n = proj(v, ('f', None, 1))
    RNG.setdefault(n, (0, (1 << 63) - 1))
    return n


def rangearg(E, st, r, n):
    """(lo, hi) of a range value over a slice of length n"""
    if r.op != 'adt':
        return None
    nm, f = r.a[0].split('::')[-1], r.a[2]
    if nm == 'Range':
        return f[0], f[1]
    if nm == 'RangeFrom':
        return f[0], n
    if nm == 'RangeTo':
        return ZERO, f[0]
    if nm == 'RangeFull' or nm == '()':
        return ZERO, n
    if nm == 'RangeInclusive':
        return f[0], addc(f[1], 1)
    if nm == 'RangeToInclusive':
        return ZERO, addc(f[0], 1)
    return None


def vlen_ref(E, st, rf):
    """length behind a slice reference, vectors included"""
    if rf.op == 'ref' and rf.a[1] and rf.a[1][-1] == ('f', None, 0):
        v = E.read(st, rf.a[0], rf.a[1][:-1])
        if v.op == 'adt' and v.a[0] == 'Vec':
            return v.a[2][1]
    return E.lenof(st, rf)


def demand(E, fr, st, c):
    """the state after an operation of the library that panics unless c holds"""
    if E.RANK is not None:
        if st.holds(c):
            E.event(fr, 'nopanic', ('demand',), st, None)
        else:
            E.event(fr, 'panic', ('assert', c), st, None)
    return st.assume(c)


def index_model(E, fr, st, x, trait, vals, tys):
    rf = vals[0]
    if last_seg(x) == 'Vec':
        root, path = E.target(rf)
        rf = E.mkref(root, tuple(path) + (('f', None, 0),))
        E.__dict__.setdefault('vecrefs', set()).add(rf)
    it = vals[1]
    root, path = E.target(rf)
    n = vlen_ref(E, st, rf)
    if tm._isnum(it) or it.op in ('pj', 'phi', 'sym', 'app') and 'usize' in trait and 'Range' not in trait:
        s = demand(E, fr, st, lt(it, n))
        if s is None:
            return []
        p = list(path)
        E.index(p, it)
        return [(E.mkref(root, p), s)]
    ra = rangearg(E, st, it, n)
    if ra is None:
        return None
    c = conj(le(ra[0], ra[1]), le(ra[1], n))
    s = demand(E, fr, st, c)
    if s is None:
        return []
    if ra[0] is ZERO and ra[1] is n:
        return [(rf, s)]
    return [(E.mkref(root, E.subslice(path, ra[0], ra[1])), s)]


# ------------------------------------------------------------------ Option / Result
def self_val(E, st, v, ty):
    """value of an Option/Result given by value or by reference; (value, type, reference or None)"""
    if ty and ty.strip().startswith('&'):
        return E.deref(st, v), strip_ref(ty), v
    return v, ty, None


def two(E, fr, st, v, ty, good, f_good, f_bad):
    out = []
    cs = cases(E, st, v, ty)
    if cs is None:
        return None
    for k, p, s in cs:
        r = (f_good if k == good else f_bad)(p, s)
        if r is None:
            return None
        out += r
    return out


def option_method(E, fr, st, meth, vals, tys, dty, func):
    v, ty, rf = self_val(E, st, vals[0], tys[0])
    if not ty or last_seg(ty) != 'Option':
        m = re.match(r'.*Option::<(.*)>::\w+', func)
        ty = 'Option<%s>' % m.group(1) if m else 'Option'
    pt = argty(E, ty, 0)
    return opt_like(E, fr, st, meth, v, ty, rf, vals, tys, dty, 1, pt, func)


def result_method(E, fr, st, meth, vals, tys, dty, func):
    v, ty, rf = self_val(E, st, vals[0], tys[0])
    return opt_like(E, fr, st, meth, v, ty, rf, vals, tys, dty, 0, argty(E, ty, 0), func)


def opt_like(E, fr, st, meth, v, ty, rf, vals, tys, dty, good, pt, func):
    isopt = good == 1

    def G(x):
        return OPT(x) if isopt else RES(True, x)

    def B(x):
        return OPT() if isopt else RES(False, x)

    def T2(a, b):
        return two(E, fr, st, v, ty, good, a, b)

    def call(f, args, s, w):
        return E.call_value(fr, s, f, args, [None] * len(args), None, w)
    bt = argty(E, ty, 1)
    if meth in ('is_some', 'is_ok'):
        return [(eq(E.discr(v, ty), I(good)), st)]
    if meth in ('is_none', 'is_err'):
        return [(neg(eq(E.discr(v, ty), I(good))), st)]
    if meth in ('unwrap', 'expect', 'unwrap_unchecked'):
        def bad(p, s):
            E.event(fr, 'panic', (func, v), s)
            return []
        return T2(lambda p, s: [(p, s)], bad)
    if meth in ('unwrap_err', 'expect_err'):
        return T2(lambda p, s: [], lambda p, s: [(p, s)])
    if meth in ('unwrap_or', 'unwrap_or_default'):
        d = vals[1] if meth == 'unwrap_or' else (ZERO if (pt or '').strip() in INTS else FALSE if (pt or '').strip() == 'bool' else None)
        if d is None:
            return None
        if v.op == 'adt':
            return [(v.a[2][0] if v.a[1] == good else d, st)]
        p = proj(v, ('f', good, 0))
        if pt:
            E.note(p, pt)
        return [(ite(eq(E.discr(v, ty), I(good)), p, d), st)]
    if meth == 'unwrap_or_else':
        return T2(lambda p, s: [(p, s)], lambda p, s: call(vals[1], [] if isopt else [p], s, 'b'))
    if meth == 'map':
        return T2(lambda p, s: [(G(x), s2) for x, s2 in E.call_value(fr, s, vals[1], [p], [pt], None, 'm')], lambda p, s: [(B(p), s)])
    if meth == 'map_err':
        return T2(lambda p, s: [(RES(True, p), s)], lambda p, s: [(RES(False, x), s2) for x, s2 in E.call_value(fr, s, vals[1], [p], [bt], None, 'm')])
    if meth == 'and_then':
        return T2(lambda p, s: E.call_value(fr, s, vals[1], [p], [pt], None, 'm'), lambda p, s: [(B(p), s)])
    if meth == 'and':
        return T2(lambda p, s: [(vals[1], s)], lambda p, s: [(B(p), s)])
    if meth == 'or':
        return T2(lambda p, s: [(G(p), s)], lambda p, s: [(vals[1], s)])
    if meth == 'or_else':
        return T2(lambda p, s: [(G(p), s)], lambda p, s: call(vals[1], [] if isopt else [p], s, 'b'))
    if meth == 'map_or':
        return T2(lambda p, s: E.call_value(fr, s, vals[2], [p], [pt], None, 'm'), lambda p, s: [(vals[1], s)])
    if meth == 'map_or_else':
        return T2(lambda p, s: E.call_value(fr, s, vals[2], [p], [pt], None, 'm'), lambda p, s: call(vals[1], [] if isopt else [p], s, 'b'))
    if meth in ('is_some_and', 'is_ok_and'):
        return T2(lambda p, s: E.call_value(fr, s, vals[1], [p], [pt], None, 'm'), lambda p, s: [(FALSE, s)])
    if meth == 'is_none_or':
        return T2(lambda p, s: E.call_value(fr, s, vals[1], [p], [pt], None, 'm'), lambda p, s: [(TRUE, s)])
    if meth == 'ok_or' and isopt:
        return T2(lambda p, s: [(RES(True, p), s)], lambda p, s: [(RES(False, vals[1]), s)])
    if meth == 'ok_or_else' and isopt:
        return T2(lambda p, s: [(RES(True, p), s)], lambda p, s: [(RES(False, x), s2) for x, s2 in call(vals[1], [], s, 'b')])
    if meth == 'ok' and not isopt:
        return T2(lambda p, s: [(OPT(p), s)], lambda p, s: [(OPT(), s)])
    if meth == 'err' and not isopt:
        return T2(lambda p, s: [(OPT(), s)], lambda p, s: [(OPT(p), s)])
    if meth == 'filter' and isopt:
        def g(p, s):
            out = []
            s = s.copy()
            root = ('L', fr.cs, 'flt%s' % (fr.at,))
            s.mem[root] = p
            for x, s2 in E.call_value(fr, s, vals[1], [ref(root, ())], [None], None, 'm'):
                for c, r in ((i2b(x), OPT(p)), (neg(x), OPT())):
                    s3 = s2.assume(c)
                    if s3 is not None:
                        out.append((r, s3))
            return out
        return T2(g, lambda p, s: [(OPT(), s)])
    if meth in ('as_ref', 'as_mut', 'as_deref', 'as_deref_mut') and rf is not None:
        root, path = E.target(rf)
        gp = E.mkref(root, tuple(path) + (('f', good, 0),))
        bp = E.mkref(root, tuple(path) + (('f', 1 - good, 0),))
        return T2(lambda p, s: [(G(gp), s)], lambda p, s: [(B(bp), s)])
    if meth in ('copied', 'cloned'):
        return T2(lambda p, s: [(G(E.deref(s, p)), s)], lambda p, s: [(B(p), s)])
    if meth in ('take', 'replace', 'insert') and rf is not None and isopt:
        s = st.copy()
        root, path = E.target(rf)
        E.write(fr, s, root, path, OPT() if meth == 'take' else OPT(vals[1]))
        if meth == 'insert':
            return [(E.mkref(root, tuple(path) + (('f', 1, 0),)), s)]
        return [(v, s)]
    if meth in ('get_or_insert', 'get_or_insert_with') and rf is not None and isopt:
        root, path = E.target(rf)
        inner = E.mkref(root, tuple(path) + (('f', 1, 0),))

        def put(x, s):
            s = s.copy()
            E.write(fr, s, root, path, OPT(x))
            return (inner, s)
        return T2(lambda p, s: [(inner, s)], lambda p, s: [put(vals[1], s)] if meth == 'get_or_insert' else [put(x, s2) for x, s2 in call(vals[1], [], s, 'b')])
    if meth == 'xor' and isopt:
        return T2(lambda p, s: [(OPT(p) if k == 0 else OPT(), s2) for k, q, s2 in cases(E, s, vals[1], tys[1]) or []], lambda p, s: [(vals[1], s)])
    if meth == 'zip' and isopt:
        def z(p, s):
            out = []
            for k, q, s2 in cases(E, s, vals[1], tys[1]) or []:
                out.append((OPT(adt('(,)', 0, (p, q))) if k == 1 else OPT(), s2))
            return out
        return T2(z, lambda p, s: [(OPT(), s)])
    if meth == 'flatten':
        return T2(lambda p, s: [(p, s)], lambda p, s: [(B(p), s)])
    if meth in ('inspect', 'inspect_err'):
        def look(p, s):
            s = s.copy()
            root = ('L', fr.cs, 'extins%s' % (fr.at,))
            s.mem[root] = p
            return call(vals[1], [ref(root, ())], s, 'm')
        if meth == 'inspect':
            return T2(lambda p, s: [(G(p), s2) for _, s2 in look(p, s)], lambda p, s: [(B(p), s)])
        return T2(lambda p, s: [(G(p), s)], lambda p, s: [(B(p), s2) for _, s2 in look(p, s)])
    if meth == 'unwrap_or_default':
        return None
    if meth == 'iter':
        return [(adt('OIter', 0, (v,)), st)] if v.op == 'adt' else None
    if meth == 'transpose':
        return None
    return None


# ------------------------------------------------------------------ integers, bool
def int_method(E, fr, st, t, meth, vals, tys, dty):
    w = INTS.get(t)
    if w is None:
        return None
    M = I(tm.U[w])
    vals = [E.pureval(st, v, y) for v, y in zip(vals, tys)]
    a = vals[0]
    b = vals[1] if len(vals) > 1 else None

    def fork(c, good, bad):
        out = []
        s = st.assume(c)
        if s is not None:
            out.append((good, s))
        s = st.assume(neg(c))
        if s is not None:
            out.append((bad, s))
        return out
    if meth == 'checked_sub':
        return fork(le(b, a), OPT(sub(a, b)), OPT())
    if meth == 'checked_add':
        return fork(le(add(a, b), M), OPT(add(a, b)), OPT())
    if meth == 'checked_mul':
        return fork(le(mul(a, b), M), OPT(mul(a, b)), OPT())
    if meth == 'checked_div':
        return fork(neg(eq(b, ZERO)), OPT(div(a, b)), OPT())
    if meth == 'checked_rem':
        return fork(neg(eq(b, ZERO)), OPT(rem(a, b)), OPT())
    if meth in ('saturating_sub', 'min', 'max') and st.holds(le(b, a)):
        return [(sub(a, b) if meth == 'saturating_sub' else b if meth == 'min' else a, st)]
    if meth in ('min', 'max') and st.holds(le(a, b)):
        return [(a if meth == 'min' else b, st)]
    if meth == 'saturating_sub':
        return [(sub(a, tmin(a, b)), st)]
    if meth == 'saturating_add':
        return [(tmin(add(a, b), M), st)]
    if meth == 'saturating_mul':
        return [(tmin(mul(a, b), M), st)]
    if meth == 'wrapping_sub':
        if st.holds(le(b, a)):
            return [(sub(a, b), st)]
        E.event(fr, 'mwrap', (a, b, t), st)
        r = mk('wsub', w, a, b)
        note_type(r, t)
        return [(r, st)]
    if meth == 'wrapping_add':
        if st.holds(le(add(a, b), M)):
            return [(add(a, b), st)]
        r = mk('wadd', w, *sorted((a, b), key=lambda x: x.id))
        note_type(r, t)
        return [(r, st)]
    if meth == 'wrapping_mul' and st.holds(le(mul(a, b), M)):
        return [(mul(a, b), st)]
    if meth == 'abs_diff':
        return [(ite(le(b, a), sub(a, b), sub(b, a)), st)]
    if meth == 'leading_zeros':
        r = mk('app', 'leading_zeros', I(w), a)
        RNG.setdefault(r, (0, w))
        return [(r, st)]
    if meth in ('min', 'max'):
        return [((tmin if meth == 'min' else tmax)(a, b), st)]
    if meth in ('ilog2', 'checked_ilog2'):
        lz = mk('app', 'leading_zeros', I(w), a)
        RNG.setdefault(lz, (0, w))
        if meth == 'checked_ilog2':
            return fork(neg(eq(a, ZERO)), OPT(sub(I(w - 1), lz)), OPT())
        s = demand(E, fr, st, neg(eq(a, ZERO)))
        return [] if s is None else [(sub(I(w - 1), lz), s)]
    if meth in ('checked_shl', 'checked_shr'):
        from .terms import shl, shr
        return fork(lt(b, I(w)), OPT((shl(a, b, w) if meth == 'checked_shl' else shr(a, b))), OPT())
    if meth == 'overflowing_mul' and st.holds(le(mul(a, b), M)):
        return [(adt('(,)', 0, (mul(a, b), FALSE)), st)]
    if meth == 'checked_neg':
        return fork(eq(a, ZERO), OPT(ZERO), OPT())
    if meth == 'next_multiple_of':
        s = demand(E, fr, st, neg(eq(b, ZERO)))
        return [] if s is None else [(mul(div(addc(add(a, b), -1), b), b), s)]
    if meth == 'swap_bytes' or meth == 'reverse_bits':
        r = mk('app', meth, I(w), a)
        note_type(r, t)
        return [(r, st)]
    if meth == 'count_ones' or meth == 'trailing_zeros':
        r = mk('app', meth, I(w), a)
        RNG.setdefault(r, (0, w))
        return [(r, st)]
    if meth == 'div_ceil':
        return [(div(addc(add(a, b), -1), b), st)]
    if meth == 'pow' and is_int(a) and is_int(b):
        return [(I(a.a[0] ** b.a[0]), st)]
    if meth == 'is_power_of_two':
        return [(mk('app', meth, a), st)]
    if meth == 'overflowing_sub':
        c = le(b, a)
        return [(adt('(,)', 0, (ite(c, sub(a, b), mk('wsub', w, a, b)), b2i(neg(c)))), st)]
    if meth == 'overflowing_add':
        c = le(add(a, b), M)
        return [(adt('(,)', 0, (ite(c, add(a, b), sub(add(a, b), addc(M, 1))), b2i(neg(c)))), st)]
    if meth in ('rem_euclid',):
        return [(rem(a, b), st)]
    if meth in ('div_euclid',):
        return [(div(a, b), st)]
    if meth in ('to_le_bytes', 'to_be_bytes', 'to_ne_bytes'):
        # both targets are little endian
        return [(mk('app', meth.replace('_ne_', '_le_'), I(w), a), st)]
    if meth in ('from_le_bytes', 'from_be_bytes', 'from_ne_bytes'):
        meth = meth.replace('_ne_', '_le_')
        if meth == 'from_le_bytes' and a.op == 'pj' and a.a[1][0] == 'r' and sub(a.a[1][2], a.a[1][1]) is I(w // 8):
            r = proj(a, ('as', 'u%d' % w))
            note_type(r, t)
            return [(r, st)]
        if a.op == 'app' and a.a[0] == meth.replace('from', 'to') and a.a[1] is I(w):
            return [(a.a[2], st)]
        r = mk('app', meth, I(w), a)
        note_type(r, t)
        return [(r, st)]
    return None


def bool_method(E, fr, st, meth, vals, tys, dty):
    if meth in ('then', 'then_some'):
        out = []
        c = i2b(vals[0])
        s = st.assume(c)
        if s is not None:
            if meth == 'then_some':
                out.append((OPT(vals[1]), s))
            else:
                out += [(OPT(x), s2) for x, s2 in E.call_value(fr, s, vals[1], [], [], None, 'm')]
        s = st.assume(neg(c))
        if s is not None:
            out.append((OPT(), s))
        return out
    return None


# ------------------------------------------------------------------ mem, cells
def mem_fn(E, fr, st, meth, vals, tys, dty):
    if meth in ('drop', 'forget'):
        return [(UNIT, st)]
    if meth in ('swap', 'replace', 'take'):
        s = st.copy()
        r1, p1 = E.target(vals[0])
        a = E.read(s, r1, p1)
        if meth == 'swap':
            r2, p2 = E.target(vals[1])
            b = E.read(s, r2, p2)
            E.write(fr, s, r1, p1, b)
            E.write(fr, s, r2, p2, a)
            return [(UNIT, s)]
        if meth == 'replace':
            E.write(fr, s, r1, p1, vals[1])
            return [(a, s)]
        ty = strip_ref(tys[0] or '')
        d = ZERO if ty in INTS else FALSE if ty == 'bool' else OPT() if last_seg(ty) == 'Option' else None
        if d is None:
            return None
        E.write(fr, s, r1, p1, d)
        return [(a, s)]
    if meth == 'discriminant':
        return [(E.discr(E.deref(st, vals[0]), strip_ref(tys[0] or '')), st)]
    return None


def account_method(E, fr, st, meth, vals):
    """methods of solana's AccountInfo { key, lamports: Rc<RefCell<&mut u64>>, data: Rc<RefCell<&mut [u8]>>, owner, .. }"""
    root, path = E.target(vals[0])
    path = tuple(path)

    def inner(field):
        r, p = E.target(E.read(st, root, path + (('f', None, field),)))
        return E.mkref(r, tuple(p) + (('cell',),))

    failed = lambda: (RES(False, adt('ProgramError', 'AccountBorrowFailed', ())), st.copy())
    if meth in ('lamports', 'try_lamports'):
        v = E.deref(st, E.deref(st, inner(1)))
        note_type(v, 'u64')
        return [(v, st)] if meth == 'lamports' else [(RES(True, v), st), failed()]
    if meth in ('data_len', 'try_data_len', 'data_is_empty', 'try_data_is_empty'):
        v = E.lenof(st, E.deref(st, inner(2)))
        if meth.endswith('empty'):
            v = eq(v, ZERO)
        return [(RES(True, v), st), failed()] if meth.startswith('try') else [(v, st)]
    if meth in ('try_borrow_lamports', 'try_borrow_mut_lamports', 'try_borrow_data', 'try_borrow_mut_data'):
        return [(RES(True, adt('Guard', 0, (inner(1 if meth.endswith('lamports') else 2),))), st), failed()]
    if meth == 'unsigned_key':
        return [(E.read(st, root, path + (('f', None, 0),)), st)]
    if meth == 'realloc':
        s = st.copy()
        r, p = E.target(E.deref(s, inner(2)))
        E.write(fr, s, r, tuple(p), E.fresh(fr, s, 'realloc'))
        return [(RES(True, UNIT), s), (RES(False, adt('ProgramError', 'InvalidRealloc', ())), st.copy())]
    if meth == 'assign':
        s = st.copy()
        r, p = E.target(E.read(s, root, path + (('f', None, 3),)))
        E.write(fr, s, r, tuple(p), E.deref(s, vals[1]))
        return [(UNIT, s)]
    return None


def cell_method(E, fr, st, meth, vals, tys, dty):
    root, path = E.target(vals[0])
    inner = E.mkref(root, tuple(path) + (('cell',),))
    g = adt('Guard', 0, (inner,))
    if meth in ('borrow', 'borrow_mut'):
        E.event(fr, 'borrow', (inner, meth), st)
        return [(g, st)]
    if meth in ('try_borrow', 'try_borrow_mut'):
        return [(RES(True, g), st), (RES(False, mk('str', 'BorrowError')), st.copy())]
    if meth in ('get_mut', 'as_ptr'):
        return [(inner, st)]
    if meth == 'replace':
        s = st.copy()
        old = E.deref(s, inner)
        r, p = E.target(inner)
        E.write(fr, s, r, p, vals[1])
        return [(old, s)]
    return None


# ------------------------------------------------------------------ slices, vectors
def slice_method(E, fr, st, t, meth, vals, tys, dty, func):
    rf = vals[0]
    root, path = E.target(rf)
    n = vlen_ref(E, st, rf) if meth not in ('into_vec',) else None
    el = mir.split_top(t[1:-1], ';')[0]

    def at(k):
        p = list(path)
        E.index(p, k)
        return E.mkref(root, p)

    def rngref(lo, hi):
        return E.mkref(root, E.subslice(path, lo, hi))

    def fork(c, good, bad):
        out = []
        s = st.assume(c)
        if s is not None:
            out.append((good, s))
        s = st.assume(neg(c))
        if s is not None:
            out.append((bad, s))
        return out
    if meth == 'len':
        return [(n, st)]
    if meth == 'is_empty':
        return [(eq(n, ZERO), st)]
    if meth == 'contains':
        k = n.a[0] if n.op == 'int' else None
        if k is None or k > 8:
            return None
        x, out = E.deref(st, vals[1]), []
        todo = [(ZERO, st)]
        for i in range(k):
            new = []
            for c, s in todo:
                r = eq_typed(E, fr, s, E.deref(s, at(I(i))), x, strip_ref(el))
                if r is None:
                    return None
                new += [(disj(c, e), s2) for e, s2 in r]
            todo = new
        return todo
    if meth in ('split_at', 'split_at_mut'):
        s = demand(E, fr, st, le(vals[1], n))
        if s is None:
            return []
        return [(adt('(,)', 0, (rngref(ZERO, vals[1]), rngref(vals[1], n))), s)]
    if meth in ('get', 'get_mut'):
        k = vals[1]
        ra = rangearg(E, st, k, n)
        if ra is not None:
            return fork(conj(le(ra[0], ra[1]), le(ra[1], n)), OPT(rngref(*ra)), OPT())
        return fork(lt(k, n), OPT(at(k)), OPT())
    if meth in ('get_unchecked', 'get_unchecked_mut'):
        return [(at(vals[1]), st)]
    if meth in ('first', 'first_mut'):
        return fork(lt(ZERO, n), OPT(at(ZERO)), OPT())
    if meth in ('last', 'last_mut'):
        return fork(lt(ZERO, n), OPT(at(addc(n, -1))), OPT())
    if meth in ('split_first', 'split_first_mut'):
        return fork(lt(ZERO, n), OPT(adt('(,)', 0, (at(ZERO), rngref(ONE, n)))), OPT())
    if meth in ('split_last', 'split_last_mut'):
        return fork(lt(ZERO, n), OPT(adt('(,)', 0, (at(addc(n, -1)), rngref(ZERO, addc(n, -1))))), OPT())
    if meth in ('iter', 'iter_mut'):
        return [(adt('SIter', 0, (rf, ZERO, n)), st)]
    if meth in ('chunks_exact', 'chunks_exact_mut'):
        s = demand(E, fr, st, neg(eq(vals[1], ZERO)))
        return [] if s is None else [(adt('Chunks', 0, (rf, ZERO, n, vals[1])), s)]
    if meth in ('starts_with', 'ends_with'):
        k = E.lenof(st, vals[1], tys[1])
        out = []
        s = st.assume(le(k, n))
        if s is not None:
            part = rngref(ZERO, k) if meth == 'starts_with' else rngref(sub(n, k), n)
            r = eq_typed(E, fr, s, E.deref(s, part), E.deref(s, vals[1]), '[%s]' % el)
            if r is None:
                return None
            out += r
        s = st.assume(lt(n, k))
        if s is not None:
            out.append((FALSE, s))
        return out
    if meth == 'swap':
        s = st.copy()
        p1, p2 = list(path), list(path)
        E.index(p1, vals[1])
        E.index(p2, vals[2])
        a, b = E.read(s, root, p1), E.read(s, root, p2)
        E.write(fr, s, root, p1, b)
        E.write(fr, s, root, p2, a)
        return [(UNIT, s)]
    if meth in ('copy_from_slice', 'clone_from_slice'):
        s = demand(E, fr, st.copy(), eq(n, E.lenof(st, vals[1], tys[1])))
        if s is None:
            return []
        x = E.deref(s, vals[1])
        if x.op == 'app' and x.a[0] == 'to_le_bytes' and path and path[-1][0] == 'r':
            path, x = tuple(path) + (('as', 'u%d' % x.a[1].a[0]),), x.a[2]
        E.write(fr, s, root, path, x)
        return [(UNIT, s)]
    if meth == 'fill':
        s = st.copy()
        E.write(fr, s, root, path, mk('rep', vals[1], n))
        return [(UNIT, s)]
    if meth == 'into_vec':
        v = E.deref(st, rf)
        return [(adt('Vec', 0, (v, I(len(v.a)) if v.op == 'arr' else mk('len', v))), st)]
    if meth == 'to_vec':
        return [(adt('Vec', 0, (E.deref(st, rf), n)), st)]
    return None


def vec_method(E, fr, st, meth, vals, tys, dty):
    if meth in ('new', 'with_capacity'):
        return [(adt('Vec', 0, (mk('vec0'), ZERO)), st)]
    if not vals:
        return None
    root, path = E.target(vals[0])
    path = tuple(path)
    v = E.read(st, root, path)
    n = veclen(E, st, v)
    arr = proj(v, ('f', None, 0))
    AP, LP = path + (('f', None, 0),), path + (('f', None, 1),)
    if meth == 'len':
        return [(n, st)]
    if meth == 'is_empty':
        return [(eq(n, ZERO), st)]
    if meth == 'push':
        s = st.copy()
        if arr.op == 'undef':
            E.write(fr, s, root, path, adt('Vec', 0, (mk('vec0'), n)))
        elif arr.op == 'arr':
            # a literal grows one element at a time
            if n is I(len(arr.a)):
                E.write(fr, s, root, path, adt('Vec', 0, (mk('arr', *(arr.a + (vals[1],))), addc(n, 1))))
                return [(UNIT, s)]
        E.write(fr, s, root, AP + (('i', n),), vals[1])
        E.write(fr, s, root, LP, addc(n, 1))
        return [(UNIT, s)]
    if meth == 'pop':
        out = []
        s = st.assume(eq(n, ZERO))
        if s is not None:
            out.append((OPT(), s))
        s = st.assume(neg(eq(n, ZERO)))
        if s is not None:
            s = s.copy()
            x = E.read(s, root, AP + (('i', addc(n, -1)),))
            pt = argty(E, dty or '', 0)
            if pt:
                E.note(x, pt)
            E.write(fr, s, root, LP, addc(n, -1))
            out.append((OPT(x), s))
        return out
    if meth == 'clear':
        s = st.copy()
        E.write(fr, s, root, LP, ZERO)
        return [(UNIT, s)]
    if meth in ('as_slice', 'as_mut_slice'):
        return [(E.mkref(root, AP), st)]
    if meth in ('reserve', 'shrink_to_fit'):
        return [(UNIT, st)]
    if meth in ('extend_from_slice', 'append', 'insert', 'remove', 'swap_remove', 'truncate'):
        return None
    return None


# ------------------------------------------------------------------ iterators
def into_iter(E, fr, st, v, ty, x):
    t = (x or ty or '').strip()
    b = last_seg(t)
    if t.startswith('&'):
        inner = strip_ref(t)
        if last_seg(inner) == 'Vec':
            root, path = E.target(v)
            rf = E.mkref(root, tuple(path) + (('f', None, 0),))
            return [(adt('SIter', 0, (rf, ZERO, veclen(E, st, E.read(st, root, path)))), st)]
        if inner.startswith('['):
            return [(adt('SIter', 0, (v, ZERO, E.lenof(st, v, inner))), st)]
        return [(v, st)]
    if b == 'Vec':
        return [(adt('VIter', 0, (proj(v, ('f', None, 0)), ZERO, veclen(E, st, v))), st)]
    if t.startswith('['):
        n = I(len(v.a)) if v.op == 'arr' else E.lenof(st, v, t)
        return [(adt('VIter', 0, (v, ZERO, n)), st)]
    if b == 'Option':
        return [(adt('OIter', 0, (v,)), st)]
    return [(halfopen(v), st)]


def halfopen(v):
    if v.op == 'adt' and v.a[0].split('::')[-1] == 'RangeInclusive':
        return adt('Range', 0, (v.a[2][0], addc(v.a[2][1], 1)))
    return v


def itlen(it):
    """how many items an iterator of known length has left"""
    if it.op != 'adt':
        return None
    k, f = it.a[0].split('::')[-1], it.a[2]
    if k in ('SIter', 'VIter'):
        return sub(f[2], f[1])
    if k == 'Range':
        return tmax(sub(f[1], f[0]), ZERO)
    if k in ('Rev', 'Map', 'Copied', 'Cloned', 'Enumerate'):
        return itlen(f[0])
    if k == 'Take':
        n = itlen(f[0])
        return None if n is None else tmin(n, f[1])
    if k == 'Zip':
        a, b = itlen(f[0]), itlen(f[1])
        return None if a is None or b is None else tmin(a, b)
    return None


def nesting(it):
    return 0 if it.op != 'adt' or not it.a[2] else 1 + max(nesting(x) for x in it.a[2])


def step(E, fr, st, it, back=False):
    """one next() of iterator value it: [(item or None, new iterator, state)] or None when unknown"""
    if it.op != 'adt':
        return None
    k, f = it.a[0].split('::')[-1], it.a[2]
    out = []
    if k in ('SIter', 'VIter', 'Range'):
        lo, hi = (f[1], f[2]) if k != 'Range' else (f[0], f[1])
        s = st.assume(lt(lo, hi))
        if s is not None:
            i = lo if not back else addc(hi, -1)
            if k == 'SIter':
                root, path = E.target(f[0])
                p = list(path)
                E.index(p, i)
                x = E.mkref(root, p)
            elif k == 'VIter':
                x = proj(f[0], ('i', i))
            else:
                x = i
            nl, nh = (addc(lo, 1), hi) if not back else (lo, addc(hi, -1))
            out.append((x, adt(it.a[0], 0, (f[0], nl, nh) if k != 'Range' else (nl, nh)), s))
        s = st.assume(le(hi, lo))
        if s is not None:
            out.append((None, it, s))
        return out
    if k == 'Rev':
        r = step(E, fr, st, f[0], not back)
        return None if r is None else [(x, adt('Rev', 0, (n,)), s) for x, n, s in r]
    if k == 'Enumerate' and back:
        n0 = itlen(f[0])
        r = step(E, fr, st, f[0], True) if n0 is not None else None
        if r is None:
            return None
        i = addc(add(f[1], n0), -1)
        return [(None if x is None else adt('(,)', 0, (i, x)), adt('Enumerate', 0, (n, f[1])), s) for x, n, s in r]
    if k in ('Filter', 'FilterMap') and not back:
        root = ('L', fr.cs, 'extflt%s.%d' % (fr.at, nesting(it)))
        s = st.copy()
        s.mem[root] = f[0]
        fam, E.synthfam = getattr(E, 'synthfam', 'Result'), 'Option'
        r = E.call_body(fr, s, synth(E, '$find' if k == 'Filter' else '$find_map'), [ref(root, ()), f[1]], [None, None])
        E.synthfam = fam
        for x, s2 in r:
            n = E.read(s2, root, ())
            for c, y, s3 in cases(E, s2, x, 'std::option::Option<T>') or []:
                out.append((y if c == 1 else None, adt(k, 0, (n, f[1])), s3))
        return out
    if k in ('TakeWhile', 'MapWhile', 'Inspect') and not back:
        # once None has come, these are stepped again only by code that calls next() by hand
        r = step(E, fr, st, f[0])
        if r is None:
            return None
        for x, n, s in r:
            it2 = adt(k, 0, (n, f[1]))
            if x is None:
                out.append((None, it2, s))
                continue
            a = x
            if k != 'MapWhile':
                root = ('L', fr.cs, 'exttw%s.%d' % (fr.at, nesting(it)))
                s = s.copy()
                s.mem[root] = x
                a = ref(root, ())
            for y, s2 in E.call_value(fr, s, f[1], [a], [None], None, 'it'):
                if k == 'Inspect':
                    out.append((x, it2, s2))
                elif k == 'MapWhile':
                    for c, z, s3 in cases(E, s2, y, 'std::option::Option<T>') or []:
                        out.append((z if c == 1 else None, it2, s3))
                else:
                    for c, z in ((i2b(y), x), (neg(y), None)):
                        s3 = s2.assume(c)
                        if s3 is not None:
                            out.append((z, it2, s3))
        return out
    if k == 'StepBy' and not back:
        s = st.assume(lt(f[0], f[1]))
        if s is not None:
            out.append((f[0], adt(k, 0, (addc(f[0], f[2].a[0]), f[1], f[2])), s))
        s = st.assume(le(f[1], f[0]))
        if s is not None:
            out.append((None, it, s))
        return out
    if k == 'Chunks' and not back:
        lo, hi, w = f[1], f[2], f[3]
        root, path = E.target(f[0])
        s = st.assume(le(add(lo, w), hi))
        if s is not None:
            out.append((E.mkref(root, E.subslice(path, lo, add(lo, w))), adt(k, 0, (f[0], add(lo, w), hi, w)), s))
        s = st.assume(lt(hi, add(lo, w)))
        if s is not None:
            out.append((None, it, s))
        return out
    if k == 'FromFn' and not back:
        root = ('L', fr.cs, 'extff%s.%d' % (fr.at, nesting(it)))
        s = st.copy()
        s.mem[root] = f[0]
        for y, s2 in model(E, fr, s, '$call', [ref(root, ())], [None], None, None):
            n = adt(k, 0, (E.read(s2, root, ()),))
            for c, z, s3 in cases(E, s2, y, 'std::option::Option<T>') or []:
                out.append((z if c == 1 else None, n, s3))
        return out
    if k == 'Successors' and not back:
        for c, x, s in cases(E, st, f[0], 'std::option::Option<T>') or []:
            if c != 1:
                out.append((None, it, s))
                continue
            root = ('L', fr.cs, 'extsc%s.%d' % (fr.at, nesting(it)))
            s = s.copy()
            s.mem[root] = x
            for y, s2 in E.call_value(fr, s, f[1], [ref(root, ())], [None], None, 'it'):
                out.append((x, adt(k, 0, (y, f[1])), s2))
        return out
    if k == 'Enumerate' and not back:
        r = step(E, fr, st, f[0])
        if r is None:
            return None
        return [(None if x is None else adt('(,)', 0, (f[1], x)), adt('Enumerate', 0, (n, addc(f[1], 1) if x is not None else f[1])), s) for x, n, s in r]
    if k in ('Copied', 'Cloned'):
        r = step(E, fr, st, f[0], back)
        return None if r is None else [(None if x is None else E.deref(s, x), adt(k, 0, (n,)), s) for x, n, s in r]
    if k == 'Map':
        r = step(E, fr, st, f[0], back)
        if r is None:
            return None
        for x, n, s in r:
            if x is None:
                out.append((None, adt('Map', 0, (n, f[1])), s))
            else:
                for y, s2 in E.call_value(fr, s, f[1], [x], [None], None, 'it'):
                    out.append((y, adt('Map', 0, (n, f[1])), s2))
        return out
    if k == 'OIter':
        v = f[0]
        if v.op == 'adt':
            return [(v.a[2][0], adt('OIter', 0, (OPT(),)), st)] if v.a[1] == 1 else [(None, it, st)]
        return None
    if k == 'Chain':
        a, b = (1, 0) if back else (0, 1)
        r = step(E, fr, st, f[a], back)
        if r is None:
            return None
        for x, n, s in r:
            g = [f[0], f[1]]
            g[a] = n
            if x is not None:
                out.append((x, adt('Chain', 0, g), s))
                continue
            r2 = step(E, fr, s, f[b], back)
            if r2 is None:
                return None
            for y, n2, s2 in r2:
                h = list(g)
                h[b] = n2
                out.append((y, adt('Chain', 0, h), s2))
        return out
    if k == 'Peek' and not back:
        if f[1].op == 'adt' and f[1].a[1] == 1:
            x = f[1].a[2][0]
            return [(x.a[2][0] if x.a[1] == 1 else None, adt("Peek", 0, (f[0], OPT())), st)]
        r = step(E, fr, st, f[0])
        return None if r is None else [(x, adt("Peek", 0, (n, OPT())), s) for x, n, s in r]
    if k == 'Take' and not back:
        s = st.assume(eq(f[1], ZERO))
        if s is not None:
            out.append((None, it, s))
        s = st.assume(neg(eq(f[1], ZERO)))
        if s is not None:
            r = step(E, fr, s, f[0])
            if r is None:
                return None
            for x, n, s2 in r:
                out.append((x, adt('Take', 0, (n, addc(f[1], -1) if x is not None else f[1])), s2))
        return out
    if k == 'Zip' and not back:
        r = step(E, fr, st, f[0])
        if r is None:
            return None
        for x, n, s in r:
            if x is None:
                out.append((None, adt('Zip', 0, (n, f[1])), s))
                continue
            r2 = step(E, fr, s, f[1])
            if r2 is None:
                return None
            for y, m, s2 in r2:
                out.append((None if y is None else adt('(,)', 0, (x, y)), adt('Zip', 0, (n, m)), s2))
        return out
    return None


def next_item(E, fr, st, vals, tys, dty, acct=False, back=False):
    root, path = E.target(vals[0])
    it = E.read(st, root, path)
    r = step(E, fr, st, it, back)
    if r is None:
        return None
    out = []
    for x, n, s in r:
        s = s.copy()
        E.write(fr, s, root, path, n)
        if acct:
            v = RES(True, x) if x is not None else RES(False, adt('ProgramError', 'NotEnoughAccountKeys', ()))
        else:
            v = OPT(x) if x is not None else OPT()
        if x is not None:
            t = argty(E, dty or '', 0)
            if t:
                E.note(x, t)
        out.append((v, s))
    return out


SYNTH = r'''
fn $for_each(_1: I, _2: F) -> () {
    bb0: {
        _4 = &mut _1;
        _3 = $next(copy _4) -> [return: bb1, unwind continue];
    }
    bb1: {
        _5 = discriminant(_3);
        switchInt(move _5) -> [0: bb3, 1: bb2, otherwise: bb4];
    }
    bb2: {
        _6 = move ((_3 as Some).0: T);
        _8 = &mut _2;
        _7 = $call(copy _8, move _6) -> [return: bb0, unwind continue];
    }
    bb3: {
        _0 = const ();
        return;
    }
    bb4: {
        unreachable;
    }
}

fn $fold(_1: I, _9: A, _2: F) -> A {
    bb0: {
        _4 = &mut _1;
        _3 = $next(copy _4) -> [return: bb1, unwind continue];
    }
    bb1: {
        _5 = discriminant(_3);
        switchInt(move _5) -> [0: bb3, 1: bb2, otherwise: bb4];
    }
    bb2: {
        _6 = move ((_3 as Some).0: T);
        _8 = &mut _2;
        _9 = $call(copy _8, move _9, move _6) -> [return: bb0, unwind continue];
    }
    bb3: {
        _0 = move _9;
        return;
    }
    bb4: {
        unreachable;
    }
}

fn $try_for_each(_1: &mut I, _2: F) -> R {
    bb0: {
        _3 = $next(copy _1) -> [return: bb1, unwind continue];
    }
    bb1: {
        _5 = discriminant(_3);
        switchInt(move _5) -> [0: bb3, 1: bb2, otherwise: bb4];
    }
    bb2: {
        _6 = move ((_3 as Some).0: T);
        _8 = &mut _2;
        _7 = $call(copy _8, move _6) -> [return: bb5, unwind continue];
    }
    bb5: {
        _9 = $isgood(copy _7) -> [return: bb6, unwind continue];
    }
    bb6: {
        switchInt(copy _9) -> [0: bb7, otherwise: bb0];
    }
    bb7: {
        _0 = move _7;
        return;
    }
    bb3: {
        _0 = $unitgood() -> [return: bb8, unwind continue];
    }
    bb8: {
        return;
    }
    bb4: {
        unreachable;
    }
}

fn $try_fold(_1: &mut I, _9: A, _2: F) -> R {
    bb0: {
        _3 = $next(copy _1) -> [return: bb1, unwind continue];
    }
    bb1: {
        _5 = discriminant(_3);
        switchInt(move _5) -> [0: bb3, 1: bb2, otherwise: bb4];
    }
    bb2: {
        _6 = move ((_3 as Some).0: T);
        _8 = &mut _2;
        _7 = $call(copy _8, move _9, move _6) -> [return: bb5, unwind continue];
    }
    bb5: {
        _10 = $isgood(copy _7) -> [return: bb6, unwind continue];
    }
    bb6: {
        switchInt(copy _10) -> [0: bb7, otherwise: bb9];
    }
    bb9: {
        _9 = $payload(move _7) -> [return: bb0, unwind continue];
    }
    bb7: {
        _0 = move _7;
        return;
    }
    bb3: {
        _0 = $good(move _9) -> [return: bb8, unwind continue];
    }
    bb8: {
        return;
    }
    bb4: {
        unreachable;
    }
}

fn $any(_1: &mut I, _2: F) -> bool {
    bb0: {
        _3 = $next(copy _1) -> [return: bb1, unwind continue];
    }
    bb1: {
        _5 = discriminant(_3);
        switchInt(move _5) -> [0: bb3, 1: bb2, otherwise: bb4];
    }
    bb2: {
        _6 = move ((_3 as Some).0: T);
        _8 = &mut _2;
        _7 = $call(copy _8, move _6) -> [return: bb5, unwind continue];
    }
    bb5: {
        switchInt(copy _7) -> [0: bb0, otherwise: bb7];
    }
    bb7: {
        _0 = const true;
        return;
    }
    bb3: {
        _0 = const false;
        return;
    }
    bb4: {
        unreachable;
    }
}

fn $all(_1: &mut I, _2: F) -> bool {
    bb0: {
        _3 = $next(copy _1) -> [return: bb1, unwind continue];
    }
    bb1: {
        _5 = discriminant(_3);
        switchInt(move _5) -> [0: bb3, 1: bb2, otherwise: bb4];
    }
    bb2: {
        _6 = move ((_3 as Some).0: T);
        _8 = &mut _2;
        _7 = $call(copy _8, move _6) -> [return: bb5, unwind continue];
    }
    bb5: {
        switchInt(copy _7) -> [0: bb7, otherwise: bb0];
    }
    bb7: {
        _0 = const false;
        return;
    }
    bb3: {
        _0 = const true;
        return;
    }
    bb4: {
        unreachable;
    }
}

fn $find(_1: &mut I, _2: F) -> O {
    bb0: {
        _3 = $next(copy _1) -> [return: bb1, unwind continue];
    }
    bb1: {
        _5 = discriminant(_3);
        switchInt(move _5) -> [0: bb3, 1: bb2, otherwise: bb4];
    }
    bb2: {
        _6 = move ((_3 as Some).0: T);
        _8 = &mut _2;
        _10 = &_6;
        _7 = $call(copy _8, copy _10) -> [return: bb5, unwind continue];
    }
    bb5: {
        switchInt(copy _7) -> [0: bb0, otherwise: bb7];
    }
    bb7: {
        _0 = $some(copy _6) -> [return: bb8, unwind continue];
    }
    bb8: {
        return;
    }
    bb3: {
        _0 = $none() -> [return: bb9, unwind continue];
    }
    bb9: {
        return;
    }
    bb4: {
        unreachable;
    }
}

fn $position(_1: &mut I, _2: F) -> O {
    bb0: {
        _11 = const 0_usize;
        goto -> bb6;
    }
    bb6: {
        _3 = $next(copy _1) -> [return: bb1, unwind continue];
    }
    bb1: {
        _5 = discriminant(_3);
        switchInt(move _5) -> [0: bb3, 1: bb2, otherwise: bb4];
    }
    bb2: {
        _6 = move ((_3 as Some).0: T);
        _8 = &mut _2;
        _7 = $call(copy _8, copy _6) -> [return: bb5, unwind continue];
    }
    bb5: {
        switchInt(copy _7) -> [0: bb10, otherwise: bb7];
    }
    bb10: {
        _11 = Add(copy _11, const 1_usize);
        goto -> bb6;
    }
    bb7: {
        _0 = $some(copy _11) -> [return: bb8, unwind continue];
    }
    bb8: {
        return;
    }
    bb3: {
        _0 = $none() -> [return: bb9, unwind continue];
    }
    bb9: {
        return;
    }
    bb4: {
        unreachable;
    }
}

fn $last(_1: I) -> O {
    bb0: {
        _9 = $none() -> [return: bb6, unwind continue];
    }
    bb6: {
        _4 = &mut _1;
        _3 = $next(copy _4) -> [return: bb1, unwind continue];
    }
    bb1: {
        _5 = discriminant(_3);
        switchInt(move _5) -> [0: bb3, 1: bb2, otherwise: bb4];
    }
    bb2: {
        _6 = move ((_3 as Some).0: T);
        _9 = $some(copy _6) -> [return: bb6, unwind continue];
    }
    bb3: {
        _0 = copy _9;
        return;
    }
    bb4: {
        unreachable;
    }
}

fn $find_map(_1: &mut I, _2: F) -> O {
    bb0: {
        _3 = $next(copy _1) -> [return: bb1, unwind continue];
    }
    bb1: {
        _5 = discriminant(_3);
        switchInt(move _5) -> [0: bb3, 1: bb2, otherwise: bb4];
    }
    bb2: {
        _6 = move ((_3 as Some).0: T);
        _8 = &mut _2;
        _7 = $call(copy _8, copy _6) -> [return: bb5, unwind continue];
    }
    bb5: {
        _10 = discriminant(_7);
        switchInt(move _10) -> [0: bb0, 1: bb7, otherwise: bb4];
    }
    bb7: {
        _0 = copy _7;
        return;
    }
    bb3: {
        _0 = $none() -> [return: bb9, unwind continue];
    }
    bb9: {
        return;
    }
    bb4: {
        unreachable;
    }
}

'''
_synth = {}


def synth(E, name):
    key = (id(E), name)
    if not _synth.get('parsed'):
        _synth['parsed'] = True
        for n, bl in mir.parse(SYNTH).items():
            b = bl[0]
            for k in range(0, 12):
                b.types.setdefault(k, '')
            b.types[3] = 'std::option::Option<T>'
            if n == '$find_map':
                b.types[7] = 'std::option::Option<T>'
            if n == '$last':
                b.types[9] = 'std::option::Option<T>'
            if n == '$position':
                b.types[11] = 'usize'
            b.key = ('', '', n)
            _synth[n] = b
    return _synth[name]


def synth_call(E, fr, st, func, vals, tys, dty):
    """the helper calls inside the synthetic iterator loops"""
    return None


def total(E, fr, st, it, meth, limit=16):
    """sum/product of an iterator whose items can be listed"""
    work, out = [(it, ZERO if meth == 'sum' else ONE, st, 0)], []
    while work:
        it, acc, s, n = work.pop()
        r = step(E, fr, s, it)
        if r is None or n > limit:
            return None
        for x, it2, s2 in r:
            if x is None:
                out.append((acc, s2))
                continue
            v = E.deref(s2, x) if x.op == 'ref' or not tm._isnum(x) else x
            work.append((it2, add(acc, v) if meth == 'sum' else mul(acc, v), s2, n + 1))
    return out


def iter_method(E, fr, st, x, meth, vals, tys, dty, func):
    if meth in ('next', 'next_back'):
        return next_item(E, fr, st, vals, tys, dty, back=meth == 'next_back')
    if meth == 'peek':
        root, path = E.target(vals[0])
        it = E.read(st, root, path)
        if it.op != 'adt' or it.a[0] != 'Peek':
            return None
        out = []
        p = tuple(path) + (('f', None, 1), ('f', 1, 0))
        todo = [(it, st)]
        if it.a[2][1].a[1] == 0:
            r = step(E, fr, st, it.a[2][0])
            if r is None:
                return None
            todo = []
            for x, n, s in r:
                s = s.copy()
                v = adt('Peek', 0, (n, OPT(OPT() if x is None else OPT(x))))
                E.write(fr, s, root, path, v)
                todo.append((v, s))
        for v, s in todo:
            got = v.a[2][1].a[2][0].a[1] == 1
            out.append((OPT(E.mkref(root, p + (('f', 1, 0),))) if got else OPT(), s))
        return out
    it = halfopen(vals[0])
    vals = [it] + list(vals[1:])
    if meth == 'peekable':
        return [(adt("Peek", 0, (it, OPT())), st)]
    if meth == 'rev':
        return [(adt('Rev', 0, (it,)), st)]
    if meth == 'enumerate':
        return [(adt('Enumerate', 0, (it, ZERO)), st)]
    if meth in ('copied', 'cloned'):
        return [(adt('Copied', 0, (it,)), st)]
    if meth == 'map':
        return [(adt('Map', 0, (it, vals[1])), st)]
    if meth == 'take':
        return [(adt('Take', 0, (it, vals[1])), st)]
    if meth == 'zip':
        r = into_iter(E, fr, st, vals[1], tys[1], tys[1])
        return [(adt('Zip', 0, (it, r[0][0])), st)]
    if meth == 'by_ref':
        return [(it, st)]
    if meth == 'chain':
        r = into_iter(E, fr, st, vals[1], tys[1], tys[1])
        return [(adt('Chain', 0, (it, r[0][0])), st)] if r else None
    if meth == 'skip' and it.op == 'adt' and it.a[0].split('::')[-1] in ('SIter', 'VIter', 'Range'):
        f = list(it.a[2])
        k = 0 if len(f) == 2 else 1
        f[k] = tmin(add(f[k], vals[1]), f[k + 1]) if not (f[k + 1].op == 'int' and vals[1].op == 'int') else I(min(f[k].a[0] + vals[1].a[0], f[k + 1].a[0])) if f[k].op == 'int' else tmin(add(f[k], vals[1]), f[k + 1])
        return [(adt(it.a[0], 0, f), st)]
    base = E.deref(st, it) if it.op == 'ref' else it
    if base.op != 'adt' or base.a[0].split('::')[-1] not in ('SIter', 'VIter', 'Range', 'Rev', 'Enumerate', 'Copied', 'Cloned', 'Map', 'Take', 'Zip', 'Peek', 'Chain', 'OIter',
                                                             'Filter', 'FilterMap', 'TakeWhile', 'MapWhile', 'Inspect', 'StepBy', 'Chunks', 'FromFn', 'Successors'):
        return None
    if meth in ('filter', 'filter_map', 'take_while', 'inspect', 'map_while'):
        return [(adt({'filter': 'Filter', 'filter_map': 'FilterMap', 'take_while': 'TakeWhile', 'inspect': 'Inspect', 'map_while': 'MapWhile'}[meth], 0, (it, vals[1])), st)]
    if meth == 'flatten':
        return [(adt('FilterMap', 0, (it, mk('fn', 'std::convert::identity'))), st)]
    if meth == 'step_by' and base.a[0].split('::')[-1] == 'Range' and is_int(vals[1]) and vals[1].a[0] > 0:
        return [(adt('StepBy', 0, (base.a[2][0], base.a[2][1], vals[1])), st)]
    if meth == 'nth' and vals[0].op == 'ref' and base.a[0].split('::')[-1] in ('SIter', 'VIter', 'Range'):
        r = iter_method(E, fr, st, x, 'skip', [base, vals[1]], [None, None], None, func)
        root, path = E.target(vals[0])
        s = r[0][1].copy()
        E.write(fr, s, root, path, r[0][0])
        return next_item(E, fr, s, vals[:1], tys[:1], dty)
    if meth in ('for_each', 'fold', 'try_for_each', 'try_fold', 'any', 'all', 'find', 'position', 'find_map'):
        b = synth(E, '$' + meth)
        R = dty or ''

        def hook(E2, fr2, st2, f, v2, t2, d2):
            return None
        fam = 'Option' if last_seg(R) == 'Option' else 'Result'
        E.synthfam = fam
        return E.call_body(fr, st, b, list(vals), [None] * len(vals))
    if meth in ('sum', 'product'):
        return total(E, fr, st, base, meth)
    if meth in ('min', 'max') and len(vals) == 1:
        return extreme(E, fr, st, base, meth)
    if meth == 'last':
        r = last_item(E, fr, st, base)
        if r is None:
            E.synthfam = 'Option'
            r = E.call_body(fr, st, synth(E, '$last'), [base], [None])
        return r
    if meth == 'len' and itlen(base) is not None:
        return [(itlen(base), st)]
    if meth in ('len', 'count') and base.a[0] in ('SIter', 'VIter'):
        return [(sub(base.a[2][2], base.a[2][1]), st)]
    if meth == 'count' and base.a[0] == 'Range':
        return [(tmax(sub(base.a[2][1], base.a[2][0]), ZERO), st)]
    return None


def extreme(E, fr, st, it, meth, limit=8):
    """least or greatest of the numbers an iterator gives, when they can be listed"""
    work, out = [(it, None, False, st, 0)], []
    while work:
        it, acc, refs, s, n = work.pop()
        r = step(E, fr, s, it)
        if r is None or n > limit:
            return None
        for x, it2, s2 in r:
            if x is None:
                if acc is None:
                    out.append((OPT(), s2))
                elif refs:
                    root = ('L', fr.cs, 'ext%s' % (fr.at,))
                    s2 = s2.copy()
                    E.write(fr, s2, root, (), acc)
                    out.append((OPT(E.mkref(root, ())), s2))
                else:
                    out.append((OPT(acc), s2))
                continue
            v = E.deref(s2, x) if x.op == 'ref' else x
            if not tm._isnum(v) and v.op not in ('phi', 'sym', 'pj', 'app'):
                return None
            work.append((it2, v if acc is None else (tmin if meth == 'min' else tmax)(acc, v), x.op == 'ref', s2, n + 1))
    return out


def last_item(E, fr, st, it, limit=8):
    work, out = [(it, None, st, 0)], []
    while work:
        it, acc, s, n = work.pop()
        r = step(E, fr, s, it)
        if r is None or n > limit:
            return None
        for x, it2, s2 in r:
            if x is None:
                out.append((OPT() if acc is None else OPT(acc), s2))
            else:
                work.append((it2, x, s2, n + 1))
    return out


_model0 = model


def model(E, fr, st, func, vals, tys, dty, span):
    if func.startswith('$'):
        if func == '$next':
            return next_item(E, fr, st, vals, tys, None)
        if func == '$call':
            f = vals[0]
            g = E.deref(st, f)
            if g.op == 'adt':
                b = E.P.closures.get(g.a[0])
                if b is not None:
                    env = f if b.params[0][1].startswith('&') else g
                    return E.call_body(fr, st, b, [env] + list(vals[1:]), [None] * len(vals))
            return E.call_value(fr, st, g, list(vals[1:]), [None] * (len(vals) - 1), None)
        good = 1 if getattr(E, 'synthfam', 'Result') == 'Option' else 0
        if func == '$isgood':
            return [(eq(E.discr(vals[0], E.synthfam), I(good)), st)]
        if func == '$payload':
            return [(proj(vals[0], ('f', good, 0)), st)]
        if func == '$some':
            return [(OPT(vals[0]), st)]
        if func == '$none':
            return [(OPT(), st)]
        if func in ('$good', '$unitgood'):
            p = vals[0] if vals else UNIT
            return [(OPT(p) if good else RES(True, p), st)]
    return _model0(E, fr, st, func, vals, tys, dty, span)


# ------------------------------------------------------------------ bytemuck
def bytemuck_fn(E, fr, st, meth, vals, tys, dty, func):
    m = re.search(r'::<(.*)>$', func)
    ta = mir.split_top(m.group(1)) if m else []
    tri = meth.startswith('try_')
    base = meth[4:] if tri else meth
    root, path = E.target(vals[0]) if vals else (None, None)

    def out(v):
        if tri:
            return [(RES(True, v), st), (RES(False, adt('PodCastError', 'Other', ())), st.copy())]
        return [(v, st)]
    if base in ('from_bytes', 'from_bytes_mut'):
        return out(E.mkref(root, tuple(path) + (('as', last_seg(ta[0]) if ta[0] not in INTS else ta[0]),)))
    if base in ('cast_slice', 'cast_slice_mut'):
        return out(E.mkref(root, tuple(path) + (('as', last_seg(ta[1]) if ta[1] not in INTS else ta[1]),)))
    if base in ('cast_ref', 'cast_mut'):
        return out(E.mkref(root, tuple(path) + (('as', last_seg(ta[1])),)))
    if base == 'cast':
        return out(proj(vals[0], ('as', last_seg(ta[1]))))
    if base in ('bytes_of', 'bytes_of_mut'):
        return out(E.mkref(root, tuple(path) + (('as', 'bytes'),)))
    if base in ('pod_read_unaligned',):
        return out(E.read(st, root, tuple(path) + (('as', last_seg(ta[0])),)))
    return None
