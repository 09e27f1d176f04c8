"""Which analyses decide which property."""
from .report import Report
from . import front

_programs = {}


def program(crate='program', solana=False):
    k = (crate, solana)
    if k not in _programs:
        _programs[k] = front.Program(crate=crate, solana=solana) if crate == 'program' else front.Program(crate=crate, features='')
    return _programs[k]


def cfgs():
    yield program(solana=False)
    yield program(solana=True)


# ---------------------------------------------------------------- analyses
_neworder = {}


def neworder(rep):
    from .rules import neworder as no
    for P in cfgs():
        if P.name not in _neworder:
            l = []
            for n in no.scenarios(P):
                n.run()
                l.append((n, list(n.results())))
            _neworder[P.name] = l
        for n, rs in _neworder[P.name]:
            rep.scopes.append(n.name)
            rep.functions |= {b.name for b in n.E.analysed}
            for prop, ok, msg, body, span in rs:
                if prop == rep.prop:
                    rep.add(ok, msg, P.loc(body, span), n.name)


def identity(rep):
    from .rules import neworder as no
    for P in cfgs():
        for ok, msg, b in no.identity(P):
            rep.functions.add(b.name)
            rep.add(ok, msg, P.loc(b, None), P.name)


RULES = {}
for _p in ('P08', 'P09', 'P10', 'P11', 'P12', 'P13', 'P14', 'P15', 'P16', 'P17', 'P18', 'P19', 'P20', 'P22', 'P33', 'P40'):
    RULES.setdefault(_p, []).append(neworder)
RULES['P16'].append(identity)

# rule modules with run(P) -> Rules
_mod = {}


def module(name, crate='program', both=True):
    def f(rep):
        import importlib
        m = importlib.import_module('.rules.' + name, __package__)
        ps = list(cfgs()) if crate == 'program' and both else [program(crate)]
        for P in ps:
            k = (name, P.name)
            if k not in _mod:
                _mod[k] = m.run(P)
            r = _mod[k]
            rep.scopes.append('%s %s' % (name, P.name))
            rep.functions |= r.bodies
            for prop, ok, msg, loc, scope in r.out:
                if prop == rep.prop:
                    rep.add(ok, msg, loc, scope)
    f.__name__ = name
    return f


def compound(name, parts):
    """a property that is the conjunction of the obligations of others (see DESIGN.md for the argument)"""
    base = module(name)

    def f(rep):
        for q in parts:
            r = Report(q)
            base(r)
            rep.scopes += [x for x in r.scopes if x not in rep.scopes]
            rep.functions |= r.functions
            for o in r.obs:
                rep.add(o.ok, o.msg, o.loc, o.scope)
    f.__name__ = name
    return f


def termination(rep):
    import sys
    from .rules import loops
    loops.run(sys.modules[__name__], rep)


def nopanic(rep):
    import sys
    from .rules import panics
    panics.run(sys.modules[__name__], rep)


def client(rep):
    import sys
    from .rules import js
    js.run(sys.modules[__name__], rep)


def uses(f, *props):
    for p in props:
        RULES.setdefault(p, []).append(f)


uses(module('queue'), 'P20', 'P21', 'P22', 'P23', 'P33', 'P34')
uses(module('slab'), 'P20', 'P24', 'P25', 'P26', 'P27', 'P28', 'P33', 'P34')
uses(module('slab'), 'P29', 'P30')
uses(module('proc'), 'P01', 'P02', 'P03', 'P04', 'P06', 'P07', 'P13', 'P14', 'P23', 'P27', 'P29', 'P30', 'P32', 'P34')
uses(compound('slab', ('P24', 'P25', 'P26')), 'P38')
uses(termination, 'P37')
uses(nopanic, 'P42')
uses(module('dispatch'), 'P05', 'P07', 'P32')
uses(module('layout'), 'P31')
uses(module('wasm', 'js/wasm'), 'P36')
uses(client, 'P35', 'P41')

AI = 'abstract interpretation of the compiled MIR (symbolic path states, typestate ghosts), all paths, both target configurations'
NOTE = 'Every path of the analysed functions is covered for all inputs; the slab and queue operations enter new_order by their contracts (checked by P21-P28), fixed-point arithmetic by its contract. Trusts rustc\'s MIR and the interpreter in tools/aoa; additions are taken as not overflowing.'
ABOUT = {p: (AI, NOTE) for p in RULES}
for p in ('P35', 'P41'):
    ABOUT[p] = ('abstract interpretation of the TypeScript syntax trees (symbolic accounts, one arbitrary round per loop), compared with the layouts and constants of the compiled Rust types',
                'Every path of the client functions named in the rule is covered for all account contents. Trusts the TypeScript parser, the interpreter in tools/aoa/ts, and models of bn.js, borsh and Buffer; numbers are exact (no rounding above 2^53). A function whose shape the interpreter does not follow is listed as undecided in the evidence and nothing is claimed about it.')
LEVEL = {}

BASE = ('rustc (MIR, THIR and type information of the crate as compiled)', 'the MIR interpreter and term simplifier in tools/aoa')
TRUST = {p: ('the TypeScript parser and the interpreter in tools/aoa/ts', 'models of bn.js, borsh and Buffer') for p in ('P35', 'P41')}


def all_props():
    return sorted(RULES)


def run(p):
    rep = Report(p)
    for f in RULES[p]:
        f(rep)
    return rep.finish(trusted=BASE + TRUST.get(p, ()))
