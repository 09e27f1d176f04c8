"""Shared parts of the rules: symbolic objects, comparison of post-states with the specified effects."""
from ..terms import *
from ..engine import *
from ..ob import *


class Rules:
    """collects obligations of one program"""

    def __init__(self, P):
        self.P = P
        self.out = []            # (prop, ok, msg, loc, scope)
        self.bodies = set()

    def chk(self, prop, cond, msg, body=None, span='', st=None, scope=''):
        ok = cond
        if type(cond) is T:
            ok = st.holds(cond) if st is not None else cond is TRUE
        self.out.append((prop, bool(ok), msg, self.P.loc(body, span) if body is not None else '', scope or self.P.name))
        return bool(ok)

    def engine(self, **kw):
        E = Engine(self.P, **kw)
        return E

    def done(self, E, props=('P33',), scope=''):
        self.bodies |= {b.name for b in E.analysed}
        for kind, data, st, fr, span in E.final_events('wrap', 'subok'):
            for p in props:
                self.chk(p, kind == 'subok', 'a subtraction of a quantity may go below zero: %s - %s' % (show(data[0])[:60], show(data[1])[:60]), fr.body, span, scope=scope)

    def need(self, ty, meth, mod=None):
        b = self.P.find(ty, meth, mod)
        if b is None:
            raise Unsupported('no %s::%s' % (ty, meth))
        return b


def flat(v, base, path=()):
    """the places below a root at which v differs from base, with the new values"""
    if v is base:
        return []
    if v.op == 'with':
        r = flat(v.a[0], base, path)
        for q, x in v.a[1]:
            r += flat(x, proj(base, q), path + (q,))
        return r
    if v.op == 'store':
        return flat(v.a[0], base, path) + flat(v.a[2], proj(base, ('i', v.a[1])), path + (('i', v.a[1]),))
    return [(path, v)]


def changes(st, ignore=()):
    """[(root, path, new value)] of everything reachable from references that differs from the initial state"""
    r = []
    for root, v in st.mem.items():
        if root[0] != 'O':
            continue
        for path, x in flat(v, mk('mem0', root)):
            r.append((root, path, x))
    return r


def samepath(st, a, b):
    if len(a) != len(b):
        return False
    for p, q in zip(a, b):
        if p == q:
            continue
        if p[0] == 'i' and q[0] == 'i' and st.holds(eq(p[1], q[1])):
            continue
        if p[0] == 'f' and q[0] == 'f' and p[2] == q[2] and (p[1] is None or q[1] is None):
            continue
        return False
    return True


def unexpected(st, allowed):
    """changes outside the allowed places (root, path prefix)"""
    bad = []
    for root, path, v in changes(st):
        for r, p in allowed:
            if r == root and len(p) <= len(path) and samepath(st, path[:len(p)], p):
                break
        else:
            bad.append((root, path, v))
    return bad


def ismod(st, a, s, n):
    """a == s mod n, where 0 <= s < 2n"""
    for case in (lt(s, n), le(n, s)):
        t = st.assume(case)
        if t is None:
            continue
        tgt = s if case is lt(s, n) else sub(s, n)
        if not (t.holds(eq(a, tgt)) or t.holds(eq(a, rem(s, n)))):
            return False
    return True


def describe(root, path):
    return show(ref(root, path))[:80]


def occurs(x, t):
    """x is a part of the term t"""
    seen, todo = set(), [t]
    while todo:
        y = todo.pop()
        if y is x:
            return True
        if type(y) is T:
            if y in seen:
                continue
            seen.add(y)
            todo.extend(y.a)
        elif type(y) is tuple:
            todo.extend(y)
    return False
