"""P42: on the accounts of an existing market no operation panics."""
from ..terms import *
from ..engine import Engine, State
from ..ob import Slabs, G
from .proc import subterms
from . import loops

LEAF = ('minleaf', 'maxleaf', 'newleaf', 'leafof', 'min', 'max')


def root_of(fr):
    while fr.up is not None:
        fr = fr.up[0]
    return fr.body


def lengths(E, slab, st=None):
    """number of leaves and of callback infos in a book"""
    S, out = Slabs(E, E.P), []
    for n in ('leaf_nodes', 'callback_infos'):
        v = S.fref(st or State(), slab, n)
        out.append(E.lenof(st, v) if st is not None and v.op == 'ref' else mk('len', v))
    return out


def books(E):
    """both slabs of the order book that the queries on the whole book are analysed with"""
    fi = [f[0] for f in E.P.adt('OrderBookState').variants[0][2]]
    return {mk('sym', n): [ref(('O', mk('sym', n)), (('f', None, fi.index(x)),)) for x in ('bids', 'asks')] for n in ('book', 'orderbook')}


def closes(E, st, cond, root):
    """the condition holds, given what holds in every well-formed book and queue"""
    tagi = [f[0] for f in E.P.adt('FillEvent').variants[0][2]].index('tag')
    tags = max(v[1] for v in E.P.adt('EventTag').variants)
    terms = set()
    for t in list(st.facts) + ([cond] if cond is not None else []):
        terms |= set(subterms(t))
    handles = any(t == 'u32' for n, t in root.params)
    lens = [t for t in (subterms(cond) if cond is not None else ()) if t.op == 'len']
    new = []
    for t in terms:
        if t.op == 'rem':
            new.append((le(ONE, t.a[1]), lt(t, t.a[1])))
        elif t.op == 'div':
            new.append((le(t.a[1], t.a[0]), le(ONE, t)))
            k = parts(t.a[1])[0]
            if k > 0 and all(n > 0 for _, n in parts(t.a[1])[1]):
                # the quotient times the part of the divisor that is known
                new.append((le(ZERO, t.a[0]), le(mul(I(k), t), t.a[0])))
        elif t.op == 'app' and t.a[0] in LEAF and len(t.a) > 1:
            s = t.a[1]
            if type(s) is T and s.op == 'ref':
                # the leaf that an operation of the book returned
                for n in lengths(E, s) + lengths(E, s, st):
                    new.append((TRUE, lt(t, n)))
            elif type(s) is T and s.op == 'int' and s.a[0] in (0, 1):
                # the best leaf of one side of the book
                for b in books(E).values():
                    for n in lengths(E, b[s.a[0]]):
                        new.append((TRUE, lt(t, n)))
        elif t.op == 'sym' and len(t.a) == 1 and handles and rng(t)[1] == (1 << 32) - 1:
            # a handle given by the caller is one that the book handed out
            new += [(TRUE, lt(t, n)) for n in lens]
        elif t.op == 'pj' and t.a[1] == ('f', None, tagi) and type(t.a[0]) is T and t.a[0].op == 'pj' and t.a[0].a[1][0] == 'i':
            # a stored event has one of the event tags
            new.append((TRUE, le(t, I(tags))))
    for need, fact in new:
        if st.holds(need):
            s = st.assume(fact)
            if s is None:
                return True
            st = s
    return cond is not None and st.holds(cond)


def run(registry, rep):
    engines, seen, agg = loops.ranks(registry, rep)
    for E in engines:
        P = E.P
        for kind, data, s, fr, span in E.final_events('panic', 'nopanic'):
            root = root_of(fr)
            glue = root.name.split('::')[-1] == 'process_instruction'
            if glue and fr.body.name.split('::')[-1] not in ('process_instruction', 'parse'):
                continue       # the operations, on well-formed accounts, are judged on their own
            if kind == 'nopanic':
                rep.add(True, data[0], P.loc(fr.body, span), P.name)
                continue
            if data[0] == 'assert':
                rep.add(closes(E, s, data[1], root), 'this may be out of range, or divide by zero, and panic on well-formed accounts', P.loc(fr.body, span), P.name)
                continue
            ok = glue and G(s, '#short') is ONE or closes(E, s, None, root)
            rep.add(ok, 'the operation may panic here on well-formed accounts instead of returning an error', P.loc(fr.body, span), P.name)
