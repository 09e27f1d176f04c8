"""Syntactic effects over all bodies of a program: which functions write (or mutably borrow) which field of which type, and who calls whom."""
import re
from .front import strip_ref, strip_generics, last_seg


def allbodies(P):
    for bl in P.bodies.values():
        for b in bl:
            if b.kind == 'fn':
                yield b


def deref_ty(t):
    t = t.strip()
    m = re.match(r'(?:std|alloc)::boxed::Box<(.*)>$', t)
    if m:
        return m.group(1)
    t2 = re.sub(r"^&('\w+ )?(mut )?", '', t)
    return t2 if t2 != t else re.sub(r'^\*(const|mut) ', '', t)


def places(body, pl):
    """types along a place: [(projection, type before it)] and the final type"""
    ty = body.types.get(pl.local) or ''
    out = []
    for pr in pl.proj:
        out.append((pr, ty))
        if pr[0] == 'deref':
            ty = deref_ty(ty)
        elif pr[0] == 'field':
            ty = pr[2]
        elif pr[0] in ('index', 'cindex'):
            t = ty.strip()
            ty = re.sub(r';[^;]*$', '', t[1:-1]) if t.startswith('[') else ''
    return out, ty


def writes(P):
    """(body, span, type name, field index or None for the whole value, kind)"""
    for b in allbodies(P):
        for blk in b.blocks.values():
            if blk.cleanup:
                continue
            for s in blk.stmts:
                if s[0] in ('assign', 'setdiscr'):
                    yield from _w(b, s[1], s[-1], 'assign')
                    if s[0] == 'assign' and s[2][0] == 'ref' and s[2][1]:
                        yield from _w(b, s[2][2], s[-1], 'borrow')
            if blk.term and blk.term[0] == 'call':
                yield from _w(b, blk.term[1], blk.term[-1], 'assign')


def _w(b, pl, span, kind):
    if not any(p[0] == 'deref' for p in pl.proj):
        # a local or a part of one
        return
    ps, ty = places(b, pl)
    nd = max(i for i, (p, t) in enumerate(ps) if p[0] == 'deref')
    for i, (p, t) in enumerate(ps):
        if p[0] == 'field' and i > nd:
            yield b, span, last_seg(strip_generics(t)), p[1], kind
    if kind == 'assign':
        yield b, span, last_seg(strip_generics(ty)), None, kind


def calls(P):
    """(body, callee text, span)"""
    for b in allbodies(P):
        for blk in b.blocks.values():
            if blk.term and blk.term[0] == 'call' and not blk.cleanup:
                yield b, blk.term[2], blk.term[-1]


def callers(P):
    """method name -> set of bodies that mention a call of it"""
    r = {}
    for b, f, s in calls(P):
        r.setdefault(last_seg(strip_generics(f)), set()).add(b)
    return r


def only_through(P, body, roots, cg=None):
    """every caller chain of body passes through one of the root bodies"""
    cg = cg or callers(P)
    seen, work = set(), [body]
    while work:
        b = work.pop()
        if b in seen or b in roots:
            continue
        seen.add(b)
        m = b.name.split('::')[-1]
        if '{closure' in b.name:
            m = None
            own = [x for x in allbodies(P) if x.name == re.sub(r'::\{closure#\d+\}.*$', '', b.name)]
            cs = set(own)
        else:
            cs = cg.get(m, set())
        if not cs and not (m and P.is_private(b)):
            return False              # an entry point (a private function without callers never runs)
        work += list(cs)
    return True
