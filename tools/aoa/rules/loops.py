"""P37: every loop of an instruction makes something bounded smaller on every round, and nothing recurses."""
import re
from .. import effects as F
from ..engine import Engine
from ..front import last_seg, strip_generics


def ranks(registry, rep):
    """rerun the rules of the operations with recording of what every back edge decreases"""
    from ..report import Report
    saved = registry._neworder, registry._mod
    registry._neworder, registry._mod = {}, {}
    Engine.RANK = []
    try:
        for m, p in (('slab', 'P24'), ('queue', 'P21'), ('proc', 'P01'), ('dispatch', 'P05'), (None, 'P15')):
            r = Report(p)
            (registry.module(m) if m else registry.neworder)(r)
            rep.functions |= r.functions
            rep.scopes += r.scopes
        engines = Engine.RANK
    finally:
        Engine.RANK = None
        registry._neworder, registry._mod = saved
    seen, agg = set(), {}
    for E in engines:
        for (body, h), css in E.heads.items():
            seen.add((body, h))
        for kind, data, s, fr, span in E.final_events('rank'):
            agg.setdefault((fr.body, data[0]), {}).setdefault((id(E), fr.cs), []).append(data[1])
    return engines, seen, agg


def loops_of(E, b):
    E.prep(b)
    return b._heads


def head_loc(P, b, h):
    t = b.blocks[h]
    sp = t.stmts[0][-1] if t.stmts else (t.term[-1] if t.term else '')
    return P.loc(b, sp) if getattr(b, 'key', None) else b.name


def entry_bodies(P):
    return [b for b in F.allbodies(P) if 'processor::' in b.name and b.name.split('::')[-1] in ('process', 'process_instruction')
            or b.name.split('::')[-1] == 'process_instruction']


def graph(P, E):
    """body -> {body it may call: span}; closures count as called by the function they are written in"""
    g = {b: {} for b in F.allbodies(P)}
    methods = {}
    for b in g:
        if '{closure' in b.name:
            own = re.sub(r'::\{closure#\d+\}.*$', '', b.name)
            for x in g:
                if x.name == own:
                    g[x][b] = ''
        else:
            methods.setdefault(b.name.split('::')[-1], []).append(b)
    for b in g:
        for blk in b.blocks.values():
            t = blk.term
            if not t or t[0] != 'call' or blk.cleanup:
                continue
            f, a0 = t[2], t[3][0] if t[3] else None
            ty = b.types.get(a0[1].local) if a0 and a0[0] in ('copy', 'move') and not a0[1].proj else ''
            c = E.resolve(f, [ty or ''])
            m = re.match(r"^<(\w+) as (.*)>::(\w+)(::<.*>)?$", f)
            if c is not None:
                g[b][c] = t[-1]
            elif m and re.match(r'(crate::)?(%s)::' % '|'.join(sorted({x.name.split('::')[0] for x in g if '::' in x.name and x.name[0] != '<'})), m.group(2)):
                # a method of one of our traits on a type parameter: any implementation
                for c in methods.get(m.group(3), ()):
                    if getattr(c, 'trait', None) == last_seg(strip_generics(m.group(2))):
                        g[b][c] = t[-1]
    return g


def run(registry, rep):
    engines, seen, agg = ranks(registry, rep)
    for P in registry.cfgs():
        E = Engine(P)
        edges = graph(P, E)
        reach, work = set(), entry_bodies(P)
        while work:
            b = work.pop()
            if b in reach:
                continue
            reach.add(b)
            work += edges[b]
        rep.add(len(reach) > 20, 'the code that instructions run is found', P.name, P.name)
        # loops: those of the instructions, and those of iterators that were driven to their end
        driven = {b for e in engines if e.P is P for b, h in e.heads if '$' not in b.name}
        for b in sorted(reach | driven, key=lambda b: b.name):
            for h in sorted(loops_of(E, b)):
                loc = head_loc(P, b, h)
                if (b, h) not in seen:
                    rep.add(False, 'a loop that an instruction can reach is not covered by the analysis of its operation', loc, P.name)
                    continue
                for (e, cs), sets in sorted(agg.get((b, h), {}).items(), key=lambda x: x[0][1]):
                    common = frozenset.intersection(*sets)
                    rep.add(bool(common), 'a round of this loop does not bring it closer to its end: nothing bounded decreases on every way back to its start', loc, P.name)
        # recursion
        state, stack = {}, []

        def visit(b):
            state[b] = 1
            for t in edges[b]:
                if state.get(t) == 1:
                    rep.add(False, 'the function can call itself, so its depth is not bounded', P.loc(b, edges[b][t]), P.name)
                elif t not in state:
                    visit(t)
            state[b] = 2
        for b in reach:
            if b not in state:
                visit(b)
        rep.add(True, 'no function that an instruction runs calls itself', '%d functions' % len(reach), P.name)
