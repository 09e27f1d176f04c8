"""Abstract interpreter for the TypeScript client.

Runs functions over their syntax trees with symbolic arguments, following every path.  Numbers and big numbers are terms of
aoa.terms, byte buffers are ranges of named accounts, objects live in a heap that is copied when a path forks.  A loop whose
rounds are not known is entered once in an arbitrary state (everything it changes is replaced by symbols), and the rules judge
that one round: what it does, how it ends, and what it leaves for the next."""
import json, os, subprocess
from ..terms import *
from .. import terms as tm
from ..engine import State

HERE = os.path.dirname(os.path.abspath(__file__))


class Unsupported(Exception):
    pass


U, NULL = ('undef',), ('null',)


def num(t):
    return ('num', I(t) if isinstance(t, int) else t)


def bn(t):
    return ('bn', I(t) if isinstance(t, int) else t)


def quotient(x, y):
    """q with x = q*y as polynomials, where y has a constant part; None if there is none that is seen"""
    c, p = parts(y)
    d, q = parts(x)
    if not c or d % c:
        return None
    ys = {f for m, _ in p for f in (m.a if m.op == 'mul' else (m,))}
    r = {}
    for m, k in q:
        if not ys & set(m.a if m.op == 'mul' else (m,)):
            if k % c:
                return None
            r[m] = k // c
    r = mklin(d // c, r)
    return r if mul(r, y) is x else None


def boolv(t):
    return ('bool', t)


def sym(name, ty=None):
    s = mk('sym', name)
    if ty:
        note_type(s, ty)
    return s


def app(f, *a):
    return mk('app', f, *a)


class Scope:
    """a heap object of names"""


class S:
    """one path: heap, facts and the ghosts of the rules"""
    __slots__ = ('heap', 'st', 'gh', 'loops')

    def __init__(self):
        self.heap, self.st, self.gh, self.loops = {}, State(), {}, ()

    def copy(self):
        n = S.__new__(S)
        n.heap, n.st, n.gh, n.loops = dict(self.heap), self.st, dict(self.gh), self.loops
        return n

    def assume(self, c):
        st = self.st.assume(c)
        if st is None:
            return None
        n = self.copy()
        n.st = st
        return n

    def holds(self, c):
        return self.st.holds(c)


def load(files):
    p = subprocess.run(['node', os.path.join(HERE, 'dump.js')] + files, capture_output=True, text=True)
    if p.returncode:
        raise Unsupported('the TypeScript parser failed: ' + p.stderr[-300:])
    return json.loads(p.stdout)


SIZES = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'u128': 16, 'u256': 32, 'u512': 64}


class Interp:
    def __init__(self, root, files):
        self.root = root
        paths = [os.path.join(root, f) for f in files]
        self.files = dict(zip(files, (load(paths)[p] for p in paths))) if len(paths) == 1 else None
        if self.files is None:
            d = load(paths)
            self.files = {f: d[p] for f, p in zip(files, paths)}
        for f, d in self.files.items():
            if d['errors']:
                raise Unsupported('syntax errors in ' + f)
        self.oid = 0
        self.fresh_n = 0
        self.anchors = {}          # (class or '', function) -> handler(I, st, this, args, node) -> [(value, st)] or None
        self.hooks = {}
        self.onloop = None
        self.mods = {}
        self.base = S()
        self.functions = set()
        self.depth = 0
        self.steps = 0
        for f in files:
            self.mods[f] = {}
        for f in files:
            self.declare(f)
        for f in files:
            self.initialise(f)

    # ------------------------------------------------------------ modules
    def declare(self, f):
        """names of a file; imports are resolved by name across the files"""
        m = self.mods[f]
        for n in self.files[f]['statements']:
            k = n['k']
            if k == 'ClassDeclaration':
                m[n['name']['text']] = self.mkclass(n, f)
            elif k == 'FunctionDeclaration' and 'body' in n:
                m[n['name']['text']] = ('fn', id(n), None, None, f)
                self.keep(n, f)
            elif k == 'EnumDeclaration':
                vals, nxt = {}, 0
                for x in n['members']:
                    if 'initializer' in x:
                        v = self.const(x['initializer'])
                        if v is None:
                            raise Unsupported('value of enum member')
                        nxt = v
                    vals[x['name']['text']] = nxt
                    nxt = nxt + 1 if isinstance(nxt, int) else nxt
                m[n['name']['text']] = ('enum', n['name']['text'], tuple(sorted(vals.items())))

    def const(self, n):
        if n['k'] == 'NumericLiteral':
            return int(n['text']) if n['text'].isdigit() else None
        if n['k'] == 'PrefixUnaryExpression' and n['operator'] == '-':
            v = self.const(n['operand'])
            return None if v is None else -v
        if n['k'] == 'BinaryExpression':
            a, b = self.const(n['left']), self.const(n['right'])
            if a is not None and b is not None:
                return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '<<': lambda: a << b, '|': lambda: a | b}.get(n['op'], lambda: None)()
        return None

    _nodes = {}

    def keep(self, n, f):
        Interp._nodes[id(n)] = (n, f)

    def mkclass(self, n, f):
        self.keep(n, f)
        c = {'name': n['name']['text'] if 'name' in n else '', 'file': f, 'static': {}, 'methods': {}, 'smethods': {}, 'getters': {}, 'ctor': None, 'props': [], 'inits': [], 'node': n}
        for m in n['members']:
            mods = {x['k'] for x in m.get('modifiers', [])}
            if m['k'] == 'Constructor':
                if 'body' in m:
                    c['ctor'] = m
            elif m['k'] == 'MethodDeclaration':
                nm = m['name'].get('text') or ('@@iterator' if m['name']['k'] == 'ComputedPropertyName' else '?')
                c['smethods' if 'StaticKeyword' in mods else 'methods'][nm] = m
            elif m['k'] == 'GetAccessor':
                c['getters'][m['name']['text']] = m
            elif m['k'] == 'PropertyDeclaration':
                if 'StaticKeyword' in mods:
                    c['static'][m['name']['text']] = m
                else:
                    c['props'].append((m['name'].get('text', '?'), m.get('type')))
                    if 'initializer' in m:
                        c['inits'].append((m['name']['text'], m['initializer']))
            self.keep(m, f)
        cls = ('cls', id(n))
        self.classes = getattr(self, 'classes', {})
        self.classes[id(n)] = c
        c['val'] = cls
        return cls

    def initialise(self, f):
        """constants and static fields"""
        m = self.mods[f]
        for n in self.files[f]['statements']:
            if n['k'] in ('FirstStatement', 'VariableStatement'):
                for d in n['declarationList']['declarations']:
                    if d['name']['k'] == 'Identifier' and 'initializer' in d:
                        self.lazy(f, d['name']['text'], d['initializer'])

    def lazy(self, f, name, node):
        self.mods[f][name] = ('lazy', id(node))
        self.keep(node, f)

    def lookup_module(self, name, f):
        for g in [f] + [x for x in self.mods if x != f]:
            if name in self.mods[g]:
                v = self.mods[g][name]
                if v[0] == 'lazy':
                    node, ff = Interp._nodes[v[1]]
                    r = self.eval(node, self.base.copy(), ('top', ff))
                    if len(r) != 1:
                        raise Unsupported('initial value of ' + name)
                    v, s = r[0]
                    self.merge_base(s)
                    self.mods[g][name] = v
                return v
        return None

    def merge_base(self, s):
        self.base.heap.update(s.heap)

    def cls(self, name):
        for m in self.mods.values():
            if name in m and m[name][0] == 'cls':
                return m[name]
        return None

    def cinfo(self, c):
        return self.classes[c[1]]

    def static(self, c, name):
        ci = self.cinfo(c)
        cache = ci.setdefault('sv', {})
        if name not in cache:
            n = ci['static'].get(name)
            if n is None:
                return None
            if 'initializer' not in n:
                cache[name] = U
            else:
                r = self.eval(n['initializer'], self.base.copy(), ('top', ci['file']))
                if len(r) != 1:
                    raise Unsupported('static ' + name)
                cache[name] = r[0][0]
                self.merge_base(r[0][1])
        return cache[name]

    # ------------------------------------------------------------ heap
    def new(self, st, kind, cls, fields):
        self.oid += 1
        st.heap[self.oid] = (kind, cls, fields)
        return ('obj', self.oid)

    def obj(self, st, v):
        o = st.heap.get(v[1])
        return o if o is not None else self.base.heap[v[1]]

    def fresh(self, name, kind='num', ty=None):
        self.fresh_n += 1
        return (kind, sym('%s#%d' % (name, self.fresh_n), ty))

    # scopes: ('sc', oid); fields: names, parent
    def scope(self, st, parent, f):
        self.oid += 1
        st.heap[self.oid] = ('scope', parent, {})
        return ('sc', self.oid, f)

    def declare_var(self, st, env, name, v):
        k, p, d = st.heap[env[1]]
        d = dict(d)
        d[name] = v
        st.heap[env[1]] = (k, p, d)

    def find_scope(self, st, env, name):
        while env[0] == 'sc':
            k, p, d = st.heap[env[1]]
            if name in d:
                return env
            env = p
        return None

    def lookup(self, st, env, name):
        e = self.find_scope(st, env, name)
        if e is not None:
            return st.heap[e[1]][2][name]
        f = env[2] if env[0] == 'sc' else env[1]
        v = self.lookup_module(name, f)
        if v is not None:
            return v
        if name == 'undefined':
            return U
        return ('native', name)

    # ------------------------------------------------------------ truth
    def truth(self, v):
        """term of the condition that v is truthy"""
        k = v[0]
        if k == 'bool':
            return v[1]
        if k == 'num':
            return neg(self.eqz(v[1]))
        if k in ('undef', 'null'):
            return ZERO
        if k == 'str':
            return ONE if v[1] else ZERO
        if k == 'opq':
            return mk('app', 'truthy', v[1])
        if k == 'maybe':
            return neg(v[1])
        return ONE

    def eqz(self, t):
        return self.cmp_eq(t, ZERO)

    def fork(self, st, c):
        """[(True, st), (False, st)] of the possible outcomes of condition c"""
        if c is ONE:
            return [(True, st)]
        if c is ZERO:
            return [(False, st)]
        out = []
        a, b = st.assume(c), st.assume(neg(c))
        if a is not None:
            out.append((True, a))
        if b is not None:
            out.append((False, b))
        return out

    def frac(self, t):
        return t.a if t.op == 'fdiv' else None

    def i32(self, t):
        """unsigned 32-bit pattern of a number"""
        if t.op == 'app' and t.a[0] == 'int32':
            return t.a[1]
        if t.op == 'int' or is_int(t):
            return I(t.a[0] & 0xffffffff)
        return t

    def sint32(self, st, t):
        """the number that a 32-bit pattern stands for"""
        if is_int(t):
            n = t.a[0] & 0xffffffff
            return I(n - (1 << 32) if n >> 31 else n)
        if st.holds(lt(t, I(1 << 31))):
            return t
        return app('int32', t)

    def cmp_eq(self, a, b):
        ia, ib = (x.op == 'app' and x.a[0] == 'int32' for x in (a, b))
        if ia or ib:
            a, b = self.i32(a), self.i32(b)
        fa, fb = self.frac(a), self.frac(b)
        if fa:
            a, b = fa[0], mul(b, fa[1])
        elif fb:
            a, b = mul(a, fb[1]), fb[0]
        p = self.andbit(a) if b is ZERO else self.andbit(b) if a is ZERO else None
        if p is not None:
            return eq(p, ZERO)
        return eq(a, b)

    def andbit(self, t):
        if t.op == 'app' and t.a[0] == 'andbit':
            return app('bit', t.a[1], t.a[2])
        return None

    def cmp_lt(self, a, b):
        if any(x.op == 'app' and x.a[0] == 'int32' for x in (a, b)):
            if b is ZERO:
                return le(I(1 << 31), a.a[1])
            if a.op == 'app' and is_int(b) and b.a[0] >= 0 or True:
                return mk('app', 'slt', a, b)
        fa, fb = self.frac(a), self.frac(b)
        if fa:
            return self.cmp_lt(fa[0], mul(b, fa[1]))
        if fb:
            return self.cmp_lt(mul(a, fb[1]), fb[0])
        return lt(a, b)

    # ------------------------------------------------------------ functions
    def call_fn(self, st, node, f, env, this, args, name='', cls=None):
        """body of a function declaration, method or arrow function"""
        self.depth += 1
        if self.depth > 40:
            raise Unsupported('deep recursion in the client code')
        self.functions.add((cls + '.' if cls else '') + name)
        sc = self.scope(st, env, f)
        self.declare_var(st, sc, 'this', this if this is not None else U)
        try:
            states = self.params(node, args, st, sc)
            body = node['body']
            out = []
            gen = 'asteriskToken' in node
            for s in states:
                if gen:
                    s = s.copy()
                    s.gh['yields'] = s.gh.get('yields', ()) + ((),)
                if body['k'] != 'Block':
                    out += [(v, s2) for v, s2 in self.eval(body, s, sc)]
                    continue
                for sig, v, s2 in self.block(body['statements'], s, sc):
                    if sig == 'throw':
                        self.hook('throw', s2, v)
                        continue
                    out.append((v if sig == 'return' else U, s2))
            return out
        finally:
            self.depth -= 1

    def hook(self, name, *a):
        h = self.hooks.get(name)
        if h:
            return h(self, *a)

    def crash(self, st, what):
        """the path ends in a TypeError"""
        self.hook('crash', st, what)
        return []

    def bind(self, pat, v, st, env):
        """declare the names of a binding pattern; [states]"""
        k = pat['k']
        if k == 'Identifier':
            st = st.copy()
            self.declare_var(st, env, pat['text'], v)
            return [st]
        if k == 'ObjectBindingPattern':
            states = [st]
            for e in pat['elements']:
                nm = (e.get('propertyName') or e['name'])['text']
                nxt = []
                for s in states:
                    for x, s2 in self.getprop(v, nm, s):
                        if x == U and 'initializer' in e:
                            for y, s3 in self.eval(e['initializer'], s2, env):
                                nxt += self.bind(e['name'], y, s3, env)
                        else:
                            nxt += self.bind(e['name'], x, s2, env)
                states = nxt
            return states
        if k == 'ArrayBindingPattern':
            states = [st]
            for i, e in enumerate(pat['elements']):
                if e['k'] == 'OmittedExpression':
                    continue
                nxt = []
                for s in states:
                    for x, s2 in self.getindex(v, num(i), s):
                        nxt += self.bind(e['name'], x, s2, env)
                states = nxt
            return states
        raise Unsupported('binding ' + k)

    def invoke(self, st, fv, args, this=None, node=None):
        """call a function value: [(value, st)]"""
        k = fv[0]
        if k == 'fn':
            n, f = Interp._nodes[fv[1]]
            name = n['name']['text'] if 'name' in n and n['name'].get('text') else '(function)'
            h = self.anchors.get(('', name))
            if h is not None:
                r = h(self, st, this, args, node or n)
                if r is not None:
                    return r
            if n['k'] == 'ArrowFunction':
                env = fv[2]
                return self.arrow(st, n, f, env, args)
            return self.call_fn(st, n, f, fv[2] or ('top', f), this, args, name)
        if k == 'bound':
            return self.method(st, fv[1], fv[2], args, node)
        if k == 'native':
            return self.native(st, fv[1], args, node)
        if k == 'opq':
            return [(self.opq('call', fv[1]), st)]
        raise Unsupported('call of ' + k)

    def params(self, node, args, st, sc):
        """bind the parameters of a function: [states]"""
        states = [st]
        for i, p in enumerate(node.get('parameters', [])):
            nxt = []
            for s in states:
                if 'dotDotDotToken' in p:
                    v = self.new(s, 'arr', None, {'items': tuple(args[i:])})
                else:
                    v = args[i] if i < len(args) else U
                vs = [(v, s)]
                if v == U and 'initializer' in p:
                    vs = self.eval(p['initializer'], s, sc)
                for v2, s2 in vs:
                    nxt += self.bind(p['name'], v2, s2, sc)
            states = nxt
        return states

    def arrow(self, st, n, f, env, args):
        self.depth += 1
        try:
            sc = self.scope(st, env, f)
            states = self.params(n, args, st, sc)
            out = []
            for s in states:
                if n['body']['k'] != 'Block':
                    out += self.eval(n['body'], s, sc)
                    continue
                for sig, v, s2 in self.block(n['body']['statements'], s, sc):
                    if sig == 'throw':
                        continue
                    out.append((v if sig == 'return' else U, s2))
            return out
        finally:
            self.depth -= 1

    def opq(self, *a):
        return ('opq', mk('app', *[x if isinstance(x, (T, str)) else str(x) for x in a]))

    def construct(self, st, c, args, node=None):
        ci = self.cinfo(c)
        h = self.anchors.get(('new', ci['name']))
        if h is not None:
            r = h(self, st, c, args, node)
            if r is not None:
                return r
        st = st.copy()
        o = self.new(st, 'inst', c, {})
        states = [st]
        for name, init in ci['inits']:
            nxt = []
            for s in states:
                sc = self.scope(s, ('top', ci['file']), ci['file'])
                self.declare_var(s, sc, 'this', o)
                for v, s2 in self.eval(init, s, sc):
                    nxt.append(self.setprop(o, name, v, s2))
            states = nxt
        if ci['ctor'] is None:
            return [(o, s) for s in states]
        out = []
        for s in states:
            # parameter properties
            for i, p in enumerate(ci['ctor'].get('parameters', [])):
                if p.get('modifiers') and p['name']['k'] == 'Identifier':
                    s = self.setprop(o, p['name']['text'], args[i] if i < len(args) else U, s)
            for v, s2 in self.call_fn(s, ci['ctor'], ci['file'], ('top', ci['file']), o, args, 'constructor', ci['name']):
                out.append((o, s2))
        return out

    def setprop(self, o, name, v, st):
        st = st.copy()
        if o[0] != 'obj':
            if o[0] in ('opq', 'cls'):
                return st
            raise Unsupported('assignment to a property of ' + o[0])
        k, c, d = self.obj(st, o)
        d = dict(d)
        d[name] = v
        st.heap[o[1]] = (k, c, d)
        return st

    # ------------------------------------------------------------ properties
    def getprop(self, v, name, st):
        k = v[0]
        if k == 'obj':
            kind, c, d = self.obj(st, v)
            if kind == 'arr':
                if name == 'length':
                    return [(num(len(d['items'])), st)]
                return [(('bound', v, name), st)]
            if kind == 'sarr':
                if name == 'length':
                    return [(num(addc(d['len'], len(d['tail']))), st)]
                return [(('bound', v, name), st)]
            if kind == 'map':
                return [(('bound', v, name), st)]
            if name in d:
                return [(d[name], st)]
            if c is not None:
                ci = self.cinfo(c)
                if name in ci['getters']:
                    return self.call_fn(st.copy(), ci['getters'][name], ci['file'], ('top', ci['file']), v, [], name, ci['name'])
                if name in ci['methods']:
                    return [(('bound', v, name), st)]
            return [(U, st)]
        if k == 'cls':
            ci = self.cinfo(v)
            if name in ci['static']:
                return [(self.static(v, name), st)]
            return [(('bound', v, name), st)]
        if k == 'enum':
            d = dict(v[2])
            if name in d:
                x = d[name]
                return [(num(x) if isinstance(x, int) else ('str', x), st)]
            return [(U, st)]
        if k == 'buf':
            if name in ('length', 'byteLength'):
                return [(num(v[3]), st)]
            return [(('bound', v, name), st)]
        if k == 'bufs':
            if name == 'length':
                return [(num(v[3]), st)]
            return [(('bound', v, name), st)]
        if k == 'str' and name == 'length':
            return [(num(len(v[1])), st)]
        if k in ('bn', 'num', 'str', 'seq', 'bool'):
            if name == 'length' and k == 'seq':
                return [(num(v[1]), st)]
            return [(('bound', v, name), st)]
        if k == 'native':
            return [(('native', v[1] + '.' + name), st)]
        if k == 'opq':
            return [(('opq', mk('app', 'prop', v[1], name)), st)]
        if k in ('undef', 'null'):
            return self.crash(st, 'property %s of %s' % (name, 'undefined' if k == 'undef' else 'null'))
        if k in ('fn', 'bound'):
            return [(('bound', v, name), st)]
        raise Unsupported('property %s of %s' % (name, k))

    def getindex(self, v, i, st):
        if v[0] == 'obj':
            kind, c, d = self.obj(st, v)
            if i[0] == 'str':
                return self.getprop(v, i[1], st)
            if i[0] == 'bn':
                raise Unsupported('index of kind bn')
            if kind == 'arr' and i[0] in ('num', 'bool'):
                items = d['items']
                if is_int(i[1]):
                    n = i[1].a[0]
                    return [(items[n] if 0 <= n < len(items) else U, st)]
                out = []
                for n, x in enumerate(items):
                    s = st.assume(eq(i[1], I(n)))
                    if s is not None:
                        out.append((x, s))
                s = st.assume(neg(conj(le(ZERO, i[1]), lt(i[1], I(len(items))))))
                if s is not None:
                    out.append((U, s))
                return out
            if kind == 'sarr':
                return self.sread(v, d, i[1], st)
        if v[0] in ('buf', 'bufs'):
            return [(num(self.rdterm(v, i[1], 1)), st)]
        if v[0] == 'seq':
            return [(self.opq('elem', v[1]), st)]
        if v[0] == 'opq':
            return [(('opq', mk('app', 'prop', v[1], str(i[1]))), st)]
        if v[0] == 'enum':
            return [(self.opq('enumname', v[1]), st)]
        if v[0] in ('undef', 'null'):
            return self.crash(st, 'element of undefined')
        raise Unsupported('index of ' + v[0])

    def rdterm(self, buf, off, size):
        t = mk('app', 'rd', buf[1], add(buf[2], off), I(size))
        if size in (1, 2, 4, 8, 16):
            note_type(t, 'u%d' % (8 * size))
        return t

    # symbolic arrays: an unknown number of elements, then a known tail
    def sread(self, v, d, i, st):
        if self.frac(i):
            raise Unsupported('fractional index')
        for n, x in enumerate(d['tail']):
            if st.holds(eq(i, addc(d['len'], n))):
                return [(x, st)]
        out = []
        for ok, s in self.fork(st, conj(le(ZERO, i), lt(i, d['len']))):
            if ok:
                out.append((self.selem(d, i), s))
            else:
                if d['tail'] and not s.holds(disj(lt(i, ZERO), le(addc(d['len'], len(d['tail'])), i))):
                    raise Unsupported('unknown index near the end of an array')
                out.append((U, s))
        return out

    def selem(self, d, i):
        for j, x in d['over']:
            if j is i:
                return x
        if callable(d['kind']):
            return d['kind'](self, i)
        t = mk('app', 'elem', d['base'], i)
        if d['kind'] == 'num':
            note_type(t, 'u64')
        return (d['kind'], t)

    def symarr(self, st, base, kind, length=None):
        b = mk('sym', base)
        n = length if length is not None else mk('app', 'count', b)
        note_type(n, 'u32') if length is None else None
        return self.new(st, 'sarr', None, {'base': b, 'len': n, 'tail': (), 'over': (), 'kind': kind})

    # ------------------------------------------------------------ methods of values
    def method(self, st, recv, name, args, node=None):
        k = recv[0]
        if k == 'obj':
            kind, c, d = self.obj(st, recv)
            if kind == 'arr':
                return self.arr_method(st, recv, d, name, args, node)
            if kind == 'sarr':
                return self.sarr_method(st, recv, d, name, args, node)
            if kind == 'map':
                return self.map_method(st, recv, d, name, args)
            if c is not None:
                ci = self.cinfo(c)
                h = self.anchors.get((ci['name'], name))
                if h is not None:
                    r = h(self, st, recv, args, node)
                    if r is not None:
                        return r
                m = ci['methods'].get(name)
                if m is not None:
                    return self.call_fn(st.copy(), m, ci['file'], ('top', ci['file']), recv, args, name, ci['name'])
        if k == 'cls':
            ci = self.cinfo(recv)
            h = self.anchors.get((ci['name'], name))
            if h is not None:
                r = h(self, st, recv, args, node)
                if r is not None:
                    return r
            m = ci['smethods'].get(name)
            if m is not None:
                return self.call_fn(st.copy(), m, ci['file'], ('top', ci['file']), recv, args, name, ci['name'])
        if k == 'bn':
            return self.bn_method(st, recv[1], name, args)
        if k == 'num':
            if name in ('toString', 'toFixed'):
                return [(self.opq(name, recv[1]), st)]
            if name == 'valueOf':
                return [(recv, st)]
            if name not in ('toPrecision', 'toExponential', 'toLocaleString'):
                return self.crash(st, 'method %s of a number' % name)
        if k in ('buf', 'bufs'):
            return self.buf_method(st, recv, name, args)
        if k == 'seq':
            return self.seq_method(st, recv, name, args)
        if k == 'opq':
            return [(('opq', mk('app', 'call', recv[1], name, *[self.term(st, a) for a in args])), st)]
        if k in ('fn', 'bound') and name in ('call', 'apply', 'bind'):
            if name == 'call':
                return self.invoke(st, recv, args[1:], args[0], node)
            if name == 'bind':
                return [(recv, st)]
        if k == 'str':
            return [(self.opq('str', name), st)]
        if k in ('undef', 'null'):
            return self.crash(st, 'method %s of undefined' % name)
        raise Unsupported('method %s of %s' % (name, k))

    def term(self, st, v):
        """a term that stands for a value"""
        k = v[0]
        if k in ('num', 'bn', 'bool', 'opq'):
            return v[1]
        if k == 'str':
            return mk('sym', repr(v[1]))
        if k in ('buf', 'bufs'):
            return mk('app', 'bytes', v[1], v[2], v[3])
        if k == 'obj':
            return mk('sym', 'obj%d' % v[1])
        return mk('sym', str(v)[:60])

    def clamp(self, st, i, n):
        """an index argument of slice: truncated, and counted from the end when negative"""
        if self.frac(i):
            return app('truncated', i)
        if is_int(i) and i.a[0] < 0:
            return add(n, i)
        return i

    def buf_method(self, st, b, name, args):
        if name in ('slice', 'subarray'):
            lo = self.clamp(st, args[0][1], b[3]) if args and args[0][0] == 'num' else ZERO
            hi = self.clamp(st, args[1][1], b[3]) if len(args) > 1 and args[1][0] == 'num' else b[3]
            self.hook('slice', st, b, lo, hi)
            return [((b[0], b[1], add(b[2], lo), sub(hi, lo)), st)]
        for pre, size in (('readUInt8', 1), ('readUint8', 1), ('readUInt16LE', 2), ('readUint16LE', 2), ('readUInt32LE', 4), ('readUint32LE', 4)):
            if name == pre:
                return [(num(self.rdterm(b, args[0][1] if args else ZERO, size)), st)]
        if name in ('readBigUInt64LE', 'readBigUint64LE'):
            return [(bn(self.rdterm(b, args[0][1] if args else ZERO, 8)), st)]
        if name in ('toString', 'toJSON'):
            return [(self.opq(name, self.term(st, b)), st)]
        if name == 'concat':
            return [(self.opq('concat', self.term(st, b)), st)]
        raise Unsupported('buffer method ' + name)

    def arr_method(self, st, o, d, name, args, node):
        items = d['items']
        if name == 'push':
            st = st.copy()
            st.heap[o[1]] = ('arr', None, {'items': items + tuple(args)})
            return [(num(len(items) + len(args)), st)]
        if name == 'pop':
            st = st.copy()
            st.heap[o[1]] = ('arr', None, {'items': items[:-1]})
            return [(items[-1] if items else U, st)]
        if name == 'concat':
            st = st.copy()
            more = items
            for a in args:
                if a[0] == 'obj' and self.obj(st, a)[0] == 'arr':
                    more += self.obj(st, a)[2]['items']
                else:
                    more += (a,)
            return [(self.new(st, 'arr', None, {'items': more}), st)]
        if name in ('keys', 'values', 'entries'):
            st = st.copy()
            it = tuple(num(i) for i in range(len(items))) if name == 'keys' else items
            return [(self.new(st, 'arr', None, {'items': it}), st)]
        if name in ('map', 'forEach', 'filter', 'every', 'some', 'find'):
            outs = [((), st)]
            for i, x in enumerate(items):
                nxt = []
                for acc, s in outs:
                    for v, s2 in self.invoke(s, args[0], [x, num(i), o]):
                        if name == 'filter':
                            for b, s3 in self.fork(s2, self.truth(v)):
                                nxt.append((acc + ((x,) if b else ()), s3))
                        else:
                            nxt.append((acc + (v,), s2))
                outs = nxt
            if name == 'forEach':
                return [(U, s) for _, s in outs]
            if name in ('map', 'filter'):
                r = []
                for acc, s in outs:
                    s = s.copy()
                    r.append((self.new(s, 'arr', None, {'items': acc}), s))
                return r
        if name == 'reverse':
            st = st.copy()
            st.heap[o[1]] = ('arr', None, {'items': items[::-1]})
            return [(o, st)]
        if name in ('slice',):
            a = args[0][1].a[0] if args and is_int(args[0][1]) else 0
            b = args[1][1].a[0] if len(args) > 1 and is_int(args[1][1]) else None
            st = st.copy()
            return [(self.new(st, 'arr', None, {'items': items[a:b]}), st)]
        if name == 'at' and args:
            return self.getindex(o, num(len(items) + args[0][1].a[0]) if is_int(args[0][1]) and args[0][1].a[0] < 0 else args[0], st)
        if name == 'join':
            return [(self.opq('join', 'x'), st)]
        raise Unsupported('array method ' + name)

    def sarr_method(self, st, o, d, name, args, node):
        if name == 'push':
            st = st.copy()
            e = dict(d)
            e['tail'] = d['tail'] + tuple(args)
            st.heap[o[1]] = ('sarr', None, e)
            self.hook('push', st, o, d, args)
            return [(num(addc(e['len'], len(e['tail']))), st)]
        if name == 'pop':
            if d['tail']:
                st = st.copy()
                e = dict(d)
                e['tail'] = d['tail'][:-1]
                st.heap[o[1]] = ('sarr', None, e)
                return [(d['tail'][-1], st)]
            out = []
            for ok, s in self.fork(st, lt(ZERO, d['len'])):
                if not ok:
                    out.append((U, s))
                    continue
                s = s.copy()
                e = dict(d)
                e['len'] = addc(d['len'], -1)
                v = self.selem(d, addc(d['len'], -1))
                s.heap[o[1]] = ('sarr', None, e)
                self.hook('pop', s, o, d, v)
                out.append((v, s))
            return out
        if name == 'at' and args and is_int(args[0][1]) and args[0][1].a[0] < 0:
            return self.sread(o, d, addc(add(d['len'], I(len(d['tail']))), args[0][1].a[0]), st)
        if name in ('slice', 'concat', 'filter', 'map', 'reverse', 'values', 'entries', 'keys'):
            return self.seq_method(st, self.as_seq(st, o), name, args)
        if name == 'forEach':
            return self.each(st, o, args[0])
        raise Unsupported('array method ' + name)

    def as_seq(self, st, o):
        """(seq, count, index, element): an arbitrary element of a sequence"""
        if o[0] == 'seq':
            return o
        if o[0] == 'obj':
            kind, c, d = self.obj(st, o)
            if kind == 'sarr' and not d['tail']:
                i = self.fresh('idx', 'num', 'u32')
                return ('seq', d['len'], i[1], self.selem(d, i[1]))
        raise Unsupported('sequence of ' + o[0])

    def seq_method(self, st, q, name, args):
        n, i, x = q[1], q[2], q[3]
        if name == 'map':
            s = st.assume(conj(le(ZERO, i), lt(i, n)))
            if s is None:
                return [(q, st)]
            s.loops = s.loops + (('index', i, n),)
            return [(('seq', n, i, v), s2) for v, s2 in self.invoke(s, args[0], [x, ('num', i)])]
        if name == 'filter':
            out = []
            for v, s in self.invoke(st, args[0], [x, ('num', i)]):
                for ok, s2 in self.fork(s, self.truth(v)):
                    out.append((('seq', mk('app', 'filtered', n, i), i, x if ok else ('dropped', x)), s2))
            return out
        if name == 'forEach':
            s = st.assume(conj(le(ZERO, i), lt(i, n)))
            if s is None:
                return [(U, st)]
            s.loops = s.loops + (('index', i, n),)
            return [(U, s2) for v, s2 in self.invoke(s, args[0], [x, ('num', i)])]
        if name in ('keys',):
            return [(('seq', n, i, ('num', i)), st)]
        if name in ('values', 'flat'):
            return [(q, st)]
        if name == 'slice' and (not args or args[0] == num(0)):
            hi = args[1] if len(args) > 1 else U
            if hi == U:
                return [(q, st)]
            if hi[0] == 'num' and st.holds(le(ZERO, hi[1])):
                filtered = n.op == 'app' and n.a[0] in ('filtered', 'cut')
                return [(('seq', mk('app', 'cut', n, hi[1]) if filtered else tmin(n, hi[1]), i, x), st)]
        raise Unsupported('sequence method ' + name)

    def each(self, st, o, fn):
        q = self.as_seq(st, o)
        return self.seq_method(st, q, 'forEach', [fn])

    def map_method(self, st, o, d, name, args):
        if name == 'get':
            for k, v in d['pairs']:
                if k == args[0]:
                    return [(v, st)]
            return [(U, st)]
        if name == 'set':
            st = st.copy()
            st.heap[o[1]] = ('map', None, {'pairs': d['pairs'] + ((args[0], args[1]),)})
            return [(o, st)]
        raise Unsupported('map method ' + name)

    # ------------------------------------------------------------ big numbers
    def bnarg(self, st, v):
        if v[0] in ('bn', 'num'):
            return v[1]
        if v[0] == 'opq':
            return v[1]
        raise Unsupported('big number from ' + v[0])

    def pow2(self, n):
        return I(1 << n.a[0]) if is_int(n) and 0 <= n.a[0] < 300 else app('pow2', n)

    def bn_method(self, st, t, name, args):
        one = lambda v: [(v, st)]
        a = self.bnarg(st, args[0]) if args and args[0][0] in ('bn', 'num', 'opq') else None
        if name in ('add', 'iadd', 'addn', 'iaddn'):
            return one(bn(add(t, a)))
        if name in ('sub', 'isub', 'subn', 'isubn'):
            return one(bn(sub(t, a)))
        if name in ('mul', 'imul', 'muln', 'imuln'):
            return one(bn(self.times(t, a)))
        if name in ('div', 'divn', 'idivn'):
            return one(bn(div(t, a)))
        if name in ('mod', 'modn', 'umod', 'modrn'):
            return one((bn if not name.endswith('n') or name == 'modn' and False else num)(rem(t, a)) if name in ('modn', 'modrn') else bn(rem(t, a)))
        if name in ('shln', 'ushln', 'ishln'):
            return one(bn(mul(t, I(1 << a.a[0])) if is_int(a) else self.times(t, self.pow2(a))))
        if name in ('shrn', 'ushrn', 'ishrn'):
            return one(bn(div(t, I(1 << a.a[0])) if is_int(a) else app('shr', t, a)))
        if name in ('and', 'iand', 'uand', 'iuand', 'andln'):
            v = self.land(t, a)
            return one(num(v) if name == 'andln' else bn(v))
        if name in ('xor', 'ixor', 'uxor', 'iuxor'):
            x, y = sorted((t, a), key=lambda z: z.id)
            return one(bn(app('xor', x, y)))
        if name in ('or', 'ior', 'uor', 'iuor'):
            return one(bn(bor(t, a)))
        if name in ('notn', 'inotn') and is_int(a):
            return one(bn(sub(I((1 << a.a[0]) - 1), t)))
        if name == 'maskn' and is_int(a):
            return one(bn(trunc(a.a[0], t)))
        if name == 'isZero':
            if t.op == 'app' and t.a[0] == 'xor':
                return one(boolv(eq(t.a[1], t.a[2])))
            return one(boolv(self.eqz(t)))
        if name == 'testn':
            return one(boolv(neg(eq(app('bit', t, a), ZERO))))
        if name in ('isOdd', 'isEven'):
            b = eq(app('bit', t.a[1], t.a[2]), ZERO) if t.op == 'app' and t.a[0] == 'shr' else eq(rem(t, I(2)), ZERO)
            return one(boolv(b if name == 'isEven' else neg(b)))
        if name in ('toNumber', 'valueOf'):
            return one(num(t))
        if name in ('clone', 'abs', 'toBN'):
            return one(bn(t))
        if name in ('eq', 'eqn'):
            return one(boolv(self.cmp_eq(t, a)))
        if name in ('lt', 'ltn'):
            return one(boolv(lt(t, a)))
        if name in ('lte', 'lten'):
            return one(boolv(le(t, a)))
        if name in ('gt', 'gtn'):
            return one(boolv(lt(a, t)))
        if name in ('gte', 'gten'):
            return one(boolv(le(a, t)))
        if name in ('cmp', 'cmpn', 'ucmp'):
            out = []
            for ok, s in self.fork(st, self.cmp_eq(t, a)):
                if ok:
                    out.append((num(0), s))
                else:
                    out += [(num(-1 if less else 1), s2) for less, s2 in self.fork(s, lt(t, a))]
            return out
        if name == 'pow' and is_int(t) and t.a[0] == 2:
            return one(bn(self.pow2(a)))
        if name == 'pow' and is_int(t) and is_int(a) and 0 <= a.a[0] <= 256:
            return one(bn(I(t.a[0] ** a.a[0])))
        if name == 'bitLength':
            return one(num(app('bitlen', t)))
        if name == 'byteLength':
            return one(num(app('bytelen', t)))
        if name in ('toString', 'toArray', 'toArrayLike', 'toBuffer', 'toJSON'):
            return one(self.opq(name, t))
        if name == 'isNeg':
            return one(boolv(lt(t, ZERO)))
        raise Unsupported('big number method ' + name)

    def times(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x is ONE:
                return y
        return mul(a, b)

    def land(self, a, b):
        for x, y in ((a, b), (b, a)):
            if y.op == 'app' and y.a[0] == 'pow2':
                return app('andbit', x, y.a[1])
            if y is ONE and x.op == 'app' and x.a[0] == 'shr':
                t = app('bit', x.a[1], x.a[2])
                note_type(t, 'bool')
                return t
        return band(a, b)

    # ------------------------------------------------------------ library
    def native(self, st, name, args, node=None):
        one = lambda v: [(v, st)]
        n0 = args[0][1] if args and args[0][0] in ('num', 'bn', 'bool') else None
        if name in ('Math.floor', 'Math.trunc'):
            f = self.frac(n0)
            if f:
                return one(num(div(f[0], f[1])))
            return one(num(n0))
        if name == 'Math.ceil':
            f = self.frac(n0)
            return one(num(div(sub(add(f[0], f[1]), ONE), f[1]) if f else n0))
        if name in ('Math.min', 'Math.max'):
            ts = [a[1] for a in args if a[0] == 'num']
            if len(ts) != len(args):
                raise Unsupported(name)
            return one(num((tmin if name == 'Math.min' else tmax)(*ts)))
        if name == 'Math.pow' and is_int(n0) and is_int(args[1][1]):
            return one(num(n0.a[0] ** args[1][1].a[0]))
        if name in ('Number', 'parseInt', 'Number.parseInt'):
            if args[0][0] in ('num', 'bn'):
                return one(num(n0))
            x = self.term(st, args[0])
            if x.op == 'app' and x.a[0] in ('toString', 'toJSON') and len(x.a) == 2 and isinstance(x.a[1], T):
                return one(num(x.a[1]))
            return one(self.opq('Number', self.term(st, args[0])))
        if name == 'BigInt':
            return one(bn(n0)) if n0 is not None else one(self.opq('BigInt', self.term(st, args[0])))
        if name == 'Boolean':
            return one(boolv(self.truth(args[0])))
        if name in ('Buffer.from', 'Uint8Array.from', 'Array.from'):
            a = args[0]
            if a[0] == 'encoded':
                return one(a)
            if a[0] in ('buf', 'bufs'):
                return one(('bufs' if name.startswith('Array') else 'buf',) + a[1:])
            if name == 'Array.from':
                if a[0] == 'seq' or a[0] == 'obj' and self.obj(st, a)[0] in ('sarr', 'arr'):
                    if len(args) > 1:
                        return self.method(st, a, 'map', args[1:])
                    return one(a)
                if a[0] == 'obj':
                    r = []
                    for ln, s in self.getprop(a, 'length', st):
                        i = self.fresh('idx', 'num', 'u32')
                        q = ('seq', ln[1], i[1], U)
                        if len(args) > 1:
                            s2 = s.assume(lt(i[1], ln[1]))
                            if s2 is None:
                                r.append((q, s))
                                continue
                            s2.loops = s2.loops + (('index', i[1], ln[1]),)
                            r += [(('seq', ln[1], i[1], v), s3) for v, s3 in self.invoke(s2, args[1], [U, i])]
                        else:
                            r.append((q, s))
                    return r
            return one(a if a[0] == 'opq' else self.opq(name, self.term(st, a)))
        if name == 'Array' and n0 is not None:
            i = self.fresh('idx', 'num', 'u32')
            return one(('seq', n0, i[1], U))
        if name in ('Array.isArray', 'Buffer.isBuffer'):
            return one(boolv(ONE if args[0][0] in ('obj', 'buf', 'bufs', 'seq') else ZERO))
        if name in ('deserializeUnchecked', 'deserialize', 'borsh.deserializeUnchecked', 'borsh.deserialize'):
            return self.deserialize(st, *args[:3])
        if name in ('serialize', 'borsh.serialize'):
            return self.serialize(st, *args[:2])
        if name in ('assert', 'console.log', 'console.warn', 'console.error', 'console.assert'):
            return one(U)
        if name in ('Object.freeze', 'Promise.resolve'):
            return one(args[0])
        if name.startswith('Symbol'):
            return one(self.opq(name))
        if name == 'Error':
            return one(self.opq('error'))
        return one(('opq', mk('app', 'native', name, *[self.term(st, a) for a in args])))

    def fields_of(self, st, schema, c):
        """[(name, type)] of a struct in a borsh schema"""
        kind, _, d = self.obj(st, schema)
        if kind != 'map':
            raise Unsupported('schema')
        for k, v in d['pairs']:
            if k == c:
                f = self.obj(st, self.obj(st, v)[2]['fields'])[2]['items']
                out = []
                for x in f:
                    it = self.obj(st, x)[2]['items']
                    out.append((it[0][1], it[1]))
                return out
        raise Unsupported('class not in the schema')

    def deserialize(self, st, schema, c, buf):
        if buf[0] == 'opq':
            buf = ('buf', mk('sym', 'bytes of ' + show(buf[1])), ZERO, mk('app', 'len', buf[1]))
        vals, off = {}, ZERO
        st = st.copy()
        for name, ty in self.fields_of(st, schema, c):
            v, size = self.rdtype(st, ty, buf, off)
            vals[name] = v
            off = add(off, size)
        self.hook('deserialized', st, c, buf, off)
        arg = self.new(st, 'inst', None, vals)
        return self.construct(st, c, [arg])

    def rdtype(self, st, ty, buf, off):
        if ty[0] == 'str':
            s = SIZES.get(ty[1])
            if s is None:
                raise Unsupported('borsh type ' + ty[1])
            return (num if s <= 4 else bn)(self.rdterm(buf, off, s)), I(s)
        items = self.obj(st, ty)[2]['items']
        if len(items) == 1 and items[0][0] == 'num':
            return ('buf', buf[1], add(buf[2], off), items[0][1]), items[0][1]
        if len(items) == 2 and items[1][0] == 'num' and is_int(items[1][1]):
            vs, o = [], off
            for _ in range(items[1][1].a[0]):
                v, s = self.rdtype(st, items[0], buf, o)
                vs.append(v)
                o = add(o, s)
            return self.new(st, 'arr', None, {'items': tuple(vs)}), sub(o, off)
        raise Unsupported('borsh type')

    def serialize(self, st, schema, o):
        kind, c, d = self.obj(st, o)
        out = []
        for name, ty in self.fields_of(st, schema, c):
            out.append((name, self.tyname(st, ty), d.get(name, U)))
        return [(('encoded', tuple(out)), st)]

    def tyname(self, st, ty):
        if ty[0] == 'str':
            return ty[1]
        items = self.obj(st, ty)[2]['items']
        if len(items) == 1 and items[0][0] == 'num':
            return '[u8; %s]' % items[0][1].a[0]
        if len(items) == 2:
            return '[%s; %s]' % (self.tyname(st, items[0]), items[1][1].a[0])
        return 'Vec<%s>' % self.tyname(st, items[0])

    # ------------------------------------------------------------ expressions
    def evals(self, nodes, st, env):
        """[(values, st)]; spreads are flattened"""
        outs = [((), st)]
        for n in nodes:
            nxt = []
            for acc, s in outs:
                if n['k'] == 'SpreadElement':
                    for v, s2 in self.eval(n['expression'], s, env):
                        if v[0] == 'obj' and self.obj(s2, v)[0] == 'arr':
                            nxt.append((acc + self.obj(s2, v)[2]['items'], s2))
                        else:
                            nxt.append((acc + (('spread', v),), s2))
                else:
                    for v, s2 in self.eval(n, s, env):
                        nxt.append((acc + (v,), s2))
            outs = nxt
        return outs

    def eval(self, n, st, env):
        self.steps += 1
        if self.steps > 400000:
            raise Unsupported('the client code has too many paths')
        f = getattr(self, 'x_' + n['k'], None)
        if f is None:
            raise Unsupported('expression ' + n['k'])
        return f(n, st, env)

    def x_Identifier(self, n, st, env):
        return [(self.lookup(st, env, n['text']), st)]

    def x_ThisKeyword(self, n, st, env):
        return [(self.lookup(st, env, 'this'), st)]

    def x_NumericLiteral(self, n, st, env):
        t = n['text']
        if not t.lstrip('-').isdigit():
            x = float(t)
            if x != int(x):
                return [(self.opq('float', t), st)]
            t = int(x)
        return [(num(int(t)), st)]

    def x_BigIntLiteral(self, n, st, env):
        return [(bn(int(n['text'].rstrip('n'), 0)), st)]

    def x_StringLiteral(self, n, st, env):
        return [(('str', n['text']), st)]

    x_NoSubstitutionTemplateLiteral = x_StringLiteral

    def x_TemplateExpression(self, n, st, env):
        return [(self.opq('template', 't'), st)]

    def x_RegularExpressionLiteral(self, n, st, env):
        return [(self.opq('regexp'), st)]

    def x_TrueKeyword(self, n, st, env):
        return [(boolv(ONE), st)]

    def x_FalseKeyword(self, n, st, env):
        return [(boolv(ZERO), st)]

    def x_NullKeyword(self, n, st, env):
        return [(NULL, st)]

    def x_ParenthesizedExpression(self, n, st, env):
        return self.eval(n['expression'], st, env)

    x_AsExpression = x_NonNullExpression = x_TypeAssertionExpression = x_SatisfiesExpression = x_AwaitExpression = x_ParenthesizedExpression

    def x_ArrowFunction(self, n, st, env):
        f = env[2] if env[0] == 'sc' else env[1]
        self.keep(n, f)
        return [(('fn', id(n), env, None, f), st)]

    x_FunctionExpression = x_ArrowFunction

    def x_ClassExpression(self, n, st, env):
        raise Unsupported('class expression')

    def x_TypeOfExpression(self, n, st, env):
        out = []
        for v, s in self.eval(n['expression'], st, env):
            out.append((('str', {'num': 'number', 'bn': 'object', 'str': 'string', 'undef': 'undefined', 'bool': 'boolean', 'fn': 'function'}.get(v[0], 'object')), s))
        return out

    def x_VoidExpression(self, n, st, env):
        return [(U, s) for v, s in self.eval(n['expression'], st, env)]

    def x_ArrayLiteralExpression(self, n, st, env):
        out = []
        for vs, s in self.evals(n['elements'], st, env):
            sp = [v for v in vs if v[0] == 'spread']
            if sp:
                if len(vs) != 1:
                    raise Unsupported('spread of an unknown sequence')
                v = sp[0][1]
                if v[0] in ('buf', 'bufs'):
                    out.append((('bufs',) + v[1:], s))
                elif v[0] == 'seq' or v[0] == 'opq':
                    out.append((v, s))
                elif v[0] == 'obj' and self.obj(s, v)[0] == 'sarr':
                    kind, c, d = self.obj(s, v)
                    s = s.copy()
                    out.append((self.new(s, 'sarr', None, dict(d)), s))
                elif v[0] == 'gen':
                    out.append((v, s))
                else:
                    raise Unsupported('spread of ' + v[0])
                continue
            s = s.copy()
            out.append((self.new(s, 'arr', None, {'items': vs}), s))
        return out

    def x_ObjectLiteralExpression(self, n, st, env):
        outs = [({}, st)]
        f = env[2] if env[0] == 'sc' else env[1]
        for p in n['properties']:
            nxt = []
            for d, s in outs:
                if p['k'] == 'PropertyAssignment':
                    nm = p['name'].get('text')
                    if nm is None:
                        raise Unsupported('computed property')
                    for v, s2 in self.eval(p['initializer'], s, env):
                        nxt.append(({**d, nm: v}, s2))
                elif p['k'] == 'ShorthandPropertyAssignment':
                    nxt.append(({**d, p['name']['text']: self.lookup(s, env, p['name']['text'])}, s))
                elif p['k'] == 'SpreadAssignment':
                    for v, s2 in self.eval(p['expression'], s, env):
                        if v[0] == 'obj':
                            nxt.append(({**d, **self.obj(s2, v)[2]}, s2))
                        else:
                            raise Unsupported('object spread')
                else:
                    raise Unsupported('property ' + p['k'])
            outs = nxt
        r = []
        for d, s in outs:
            s = s.copy()
            r.append((self.new(s, 'inst', None, d), s))
        return r

    @staticmethod
    def optional(n):
        """the chain n contains `?.`: an undefined receiver ends it quietly"""
        while n['k'] in ('PropertyAccessExpression', 'ElementAccessExpression', 'CallExpression', 'NonNullExpression'):
            if 'questionDotToken' in n:
                return True
            n = n['expression']
        return False

    def x_PropertyAccessExpression(self, n, st, env):
        out = []
        for v, s in self.eval(n['expression'], st, env):
            if v[0] in ('undef', 'null') and self.optional(n):
                out.append((U, s))
                continue
            out += self.getprop(v, n['name']['text'], s)
        return out

    def x_ElementAccessExpression(self, n, st, env):
        out = []
        for v, s in self.eval(n['expression'], st, env):
            if v[0] in ('undef', 'null') and self.optional(n):
                out.append((U, s))
                continue
            for i, s2 in self.eval(n['argumentExpression'], s, env):
                out += self.getindex(v, i, s2)
        return out

    def x_CallExpression(self, n, st, env):
        e = n['expression']
        while e['k'] in ('ParenthesizedExpression', 'NonNullExpression'):
            e = e['expression']
        out = []
        if e['k'] == 'PropertyAccessExpression':
            for recv, s in self.eval(e['expression'], st, env):
                if recv[0] in ('undef', 'null'):
                    if self.optional(e):
                        out.append((U, s))
                    else:
                        self.crash(s, 'method %s of undefined' % e['name']['text'])
                    continue
                name = e['name']['text']
                for args, s2 in self.evals(n['arguments'], s, env):
                    out += self.call_member(n, e, recv, name, args, s2, env)
            return out
        for fv, s in self.eval(e, st, env):
            if fv[0] in ('undef', 'null'):
                if self.optional(n):
                    out.append((U, s))
                else:
                    self.crash(s, 'call of undefined')
                continue
            for args, s2 in self.evals(n['arguments'], s, env):
                out += self.invoke(s2, fv, list(args), None, n)
        return out

    def call_member(self, n, e, recv, name, args, st, env):
        args = list(args)
        if any(a[0] == 'spread' for a in args):
            if len(args) == 1 and name == 'push':
                raise Unsupported('push of an unknown sequence')
            args = [a[1] if a[0] == 'spread' else a for a in args]
        if recv[0] == 'native':
            return self.native(st, recv[1] + '.' + name, args, n)
        if recv[0] in ('obj', 'cls'):
            # a stored function?
            if recv[0] == 'obj':
                kind, c, d = self.obj(st, recv)
                if kind == 'inst' and name in d and d[name][0] in ('fn', 'bound', 'native'):
                    return self.invoke(st, d[name], args, recv, n)
            elif name in self.cinfo(recv)['static']:
                return self.invoke(st, self.static(recv, name), args, recv, n)
        r = self.method(st, recv, name, args, n)
        # in-place operations of big numbers change the place they were read from
        if recv[0] == 'bn' and name in ('iadd', 'isub', 'imul', 'iaddn', 'isubn', 'imuln', 'ishln', 'ishrn', 'iand', 'ior', 'ixor', 'inotn', 'iuor', 'iuand', 'iuxor', 'idivn'):
            r = [(v, s3) for v, s2 in r for s3 in self.assign_to(e['expression'], v, s2, env, soft=True)]
        return r

    def x_NewExpression(self, n, st, env):
        out = []
        for c, s in self.eval(n['expression'], st, env):
            for args, s2 in self.evals(n.get('arguments') or [], s, env):
                args = list(args)
                if c[0] == 'cls':
                    out += self.construct(s2, c, args, n)
                    continue
                nm = c[1] if c[0] == 'native' else ''
                if nm == 'BN' or nm.endswith('.BN'):
                    a = args[0] if args else num(0)
                    if a[0] in ('num', 'bn'):
                        out.append((bn(a[1]), s2))
                    else:
                        out.append((('bn', mk('app', 'BN', self.term(s2, a), *[self.term(s2, x) for x in args[1:]])), s2))
                elif nm == 'Map':
                    pairs = ()
                    if args and args[0][0] == 'obj':
                        pairs = tuple(tuple(self.obj(s2, x)[2]['items']) for x in self.obj(s2, args[0])[2]['items'])
                    s2 = s2.copy()
                    out.append((self.new(s2, 'map', None, {'pairs': pairs}), s2))
                elif nm == 'Array':
                    if args and args[0][0] == 'num':
                        out += self.native(s2, 'Array', args)
                    else:
                        s2 = s2.copy()
                        out.append((self.new(s2, 'arr', None, {'items': tuple(args)}), s2))
                elif nm == 'PublicKey':
                    out.append((('opq', mk('app', 'PublicKey', self.term(s2, args[0]))), s2))
                elif nm in ('Uint8Array', 'Buffer') and args and args[0][0] in ('buf', 'bufs', 'encoded'):
                    out.append((args[0] if args[0][0] == 'encoded' else ('buf',) + args[0][1:], s2))
                else:
                    self.hook('new', s2, nm, args)
                    d = {}
                    if args and args[0][0] == 'obj' and self.obj(s2, args[0])[0] == 'inst':
                        d = dict(self.obj(s2, args[0])[2])
                    s2 = s2.copy()
                    out.append((self.new(s2, 'inst', None, {**d, '@new': ('str', nm)}), s2))
        return out

    def x_ConditionalExpression(self, n, st, env):
        out = []
        for ok, s in self.cond(n['condition'], st, env):
            out += self.eval(n['whenTrue' if ok else 'whenFalse'], s, env)
        return out

    def cond(self, n, st, env):
        """[(outcome, st)]"""
        k = n['k']
        if k == 'ParenthesizedExpression':
            return self.cond(n['expression'], st, env)
        if k == 'PrefixUnaryExpression' and n['operator'] == '!':
            return [(not b, s) for b, s in self.cond(n['operand'], st, env)]
        if k == 'BinaryExpression' and n['op'] in ('&&', '||'):
            out = []
            for b, s in self.cond(n['left'], st, env):
                if b == (n['op'] == '||'):
                    out.append((b, s))
                else:
                    out += self.cond(n['right'], s, env)
            return out
        out = []
        for v, s in self.eval(n, st, env):
            out += self.fork(s, self.truth(v))
        return out

    def x_PrefixUnaryExpression(self, n, st, env):
        op = n['operator']
        if op in ('++', '--'):
            out = []
            for v, s in self.eval(n['operand'], st, env):
                w = ('num', addc(v[1], 1 if op == '++' else -1))
                out += [(w, s2) for s2 in self.assign_to(n['operand'], w, s, env)]
            return out
        out = []
        for v, s in self.eval(n['operand'], st, env):
            if op == '!':
                out.append((boolv(neg(self.truth(v))), s))
            elif op == '-':
                out.append(((v[0], sub(ZERO, v[1])), s))
            elif op == '+':
                out.append((num(v[1]), s))
            elif op == '~':
                if v[0] == 'bn':
                    out.append((bn(sub(I(-1), v[1])), s))
                else:
                    out.append((num(self.sint32(s, sub(I(0xffffffff), self.i32(v[1])))), s))
            else:
                raise Unsupported('operator ' + op)
        return out

    def x_PostfixUnaryExpression(self, n, st, env):
        out = []
        for v, s in self.eval(n['operand'], st, env):
            w = (v[0], addc(v[1], 1 if n['operator'] == '++' else -1))
            out += [(v, s2) for s2 in self.assign_to(n['operand'], w, s, env)]
        return out

    def assign_to(self, n, v, st, env, soft=False):
        """[states] after assigning v to the place n"""
        k = n['k']
        if k in ('ParenthesizedExpression', 'NonNullExpression', 'AsExpression'):
            return self.assign_to(n['expression'], v, st, env, soft)
        if k == 'Identifier':
            e = self.find_scope(st, env, n['text'])
            if e is None:
                if soft:
                    return [st]
                raise Unsupported('assignment to ' + n['text'])
            st = st.copy()
            self.declare_var(st, e, n['text'], v)
            return [st]
        if k == 'PropertyAccessExpression':
            return [self.setprop(o, n['name']['text'], v, s) if not soft or o[0] == 'obj' else s for o, s in self.eval(n['expression'], st, env)]
        if k == 'ElementAccessExpression':
            out = []
            for o, s in self.eval(n['expression'], st, env):
                for i, s2 in self.eval(n['argumentExpression'], s, env):
                    out.append(self.setindex(o, i, v, s2))
            return out
        if k == 'ArrayLiteralExpression':
            states = [st]
            for j, x in enumerate(n['elements']):
                states = [s3 for s in states for y, s2 in self.getindex(v, num(j), s) for s3 in self.assign_to(x, y, s2, env)]
            return states
        if soft:
            return [st]
        raise Unsupported('assignment to ' + k)

    def setindex(self, o, i, v, st):
        if o[0] != 'obj':
            raise Unsupported('element assignment to ' + o[0])
        kind, c, d = self.obj(st, o)
        st = st.copy()
        if i[0] == 'str':
            return self.setprop(o, i[1], v, st)
        if kind == 'arr' and is_int(i[1]):
            items = list(d['items'])
            j = i[1].a[0]
            while len(items) <= j:
                items.append(U)
            items[j] = v
            st.heap[o[1]] = ('arr', None, {'items': tuple(items)})
            return st
        if kind == 'sarr':
            for j in range(len(d['tail'])):
                if st.holds(eq(i[1], addc(d['len'], j))):
                    e = dict(d)
                    e['tail'] = d['tail'][:j] + (v,) + d['tail'][j + 1:]
                    st.heap[o[1]] = ('sarr', None, e)
                    return st
            if st.holds(lt(i[1], d['len'])) and st.holds(le(ZERO, i[1])):
                e = dict(d)
                e['over'] = tuple(x for x in d['over'] if x[0] is not i[1]) + ((i[1], v),)
                st.heap[o[1]] = ('sarr', None, e)
                return st
        raise Unsupported('element assignment')

    def x_BinaryExpression(self, n, st, env):
        op = n['op']
        if op == '=':
            out = []
            for v, s in self.eval(n['right'], st, env):
                out += [(v, s2) for s2 in self.assign_to(n['left'], v, s, env)]
            return out
        if op == ',':
            return [r for v, s in self.eval(n['left'], st, env) for r in self.eval(n['right'], s, env)]
        if op.endswith('=') and op not in ('==', '===', '!=', '!==', '<=', '>='):
            out = []
            for a, s in self.eval(n['left'], st, env):
                for b, s2 in self.eval(n['right'], s, env):
                    v = self.arith(op[:-1], a, b, s2)
                    out += [(v, s3) for s3 in self.assign_to(n['left'], v, s2, env)]
            return out
        if op in ('&&', '||', '??'):
            out = []
            for a, s in self.eval(n['left'], st, env):
                if op == '??':
                    if a[0] in ('undef', 'null'):
                        out += self.eval(n['right'], s, env)
                    else:
                        out.append((a, s))
                    continue
                for b, s2 in self.fork(s, self.truth(a)):
                    if b == (op == '||'):
                        out.append((a, s2))
                    else:
                        out += self.eval(n['right'], s2, env)
            return out
        out = []
        for a, s in self.eval(n['left'], st, env):
            for b, s2 in self.eval(n['right'], s, env):
                if op == 'instanceof':
                    out.append((boolv(self.instance(a, b, s2)), s2))
                else:
                    out.append((self.arith(op, a, b, s2), s2))
        return out

    def instance(self, a, c, st):
        if a[0] == 'obj':
            kind, cl, d = self.obj(st, a)
            if c[0] == 'cls':
                return ONE if cl == c else ZERO
            if c[0] == 'native':
                return ONE if c[1] == 'Array' and kind in ('arr', 'sarr') else ZERO
        if a[0] == 'bn':
            return ONE if c == ('native', 'BN') else ZERO
        if a[0] == 'opq':
            return mk('app', 'instanceof', a[1], str(c[1]))
        return ZERO

    def arith(self, op, a, b, st):
        if op in ('==', '===', '!=', '!=='):
            t = self.equal(a, b, op in ('===', '!=='))
            return boolv(t if op[0] == '=' else neg(t))
        nums = ('num', 'bool', 'bn')
        if a[0] == 'opq' or b[0] == 'opq' or a[0] not in nums or b[0] not in nums:
            if op == '+' and 'str' in (a[0], b[0]):
                return self.opq('concat', self.term(st, a), self.term(st, b))
            if a[0] in ('undef', 'null') or b[0] in ('undef', 'null'):
                return ('num', mk('sym', 'NaN')) if op not in ('<', '>', '<=', '>=') else boolv(ZERO)
            t = mk('app', 'op' + op, self.term(st, a), self.term(st, b))
            return boolv(t) if op in ('<', '>', '<=', '>=') else ('opq', t)
        x, y = a[1], b[1]
        kind = 'bn' if a[0] == b[0] == 'bn' else 'num'
        if op == '+':
            return (kind, add(x, y))
        if op == '-':
            return (kind, sub(x, y))
        if op == '*':
            for p, q in ((x, y), (y, x)):
                if self.frac(p) and is_int(self.frac(p)[1]) and is_int(q):
                    if q.a[0] % p.a[1].a[0] == 0:
                        return (kind, mul(p.a[0], I(q.a[0] // p.a[1].a[0])))
            return (kind, mul(x, y))
        if op == '/':
            if kind == 'bn':
                return (kind, div(x, y))
            if is_int(x) and is_int(y) and y.a[0] and x.a[0] % y.a[0] == 0:
                return (kind, I(x.a[0] // y.a[0]))
            if y is ONE:
                return (kind, x)
            if st.holds(eq(rem(x, y), ZERO)):
                return (kind, div(x, y))
            for m, k in parts(x)[1]:
                if m.op == 'rem' and m.a[1] is y and k == -1 and add(x, m) is m.a[0]:
                    return (kind, div(m.a[0], y))
            q = quotient(x, y)
            if q is not None and st.holds(lt(ZERO, y)):
                return (kind, q)
            return (kind, mk('fdiv', x, y))
        if op == '%':
            return (kind, rem(x, y))
        if op == '**' and is_int(x):
            if is_int(y):
                return (kind, I(x.a[0] ** y.a[0]))
            return (kind, self.pow2(y) if x.a[0] == 2 else app('pow', x, y))
        if op in ('<', '>', '<=', '>='):
            t = {'<': lambda: self.cmp_lt(x, y), '>': lambda: self.cmp_lt(y, x), '<=': lambda: neg(self.cmp_lt(y, x)), '>=': lambda: neg(self.cmp_lt(x, y))}[op]()
            return boolv(t)
        if kind == 'bn':
            if op == '&':
                return bn(self.land(x, y))
            if op == '<<':
                return bn(self.times(x, self.pow2(y)))
            if op == '>>':
                return bn(div(x, I(1 << y.a[0])) if is_int(y) else app('shr', x, y))
            if op == '^':
                p, q = sorted((x, y), key=lambda z: z.id)
                return bn(app('xor', p, q))
            if op == '|':
                return bn(bor(x, y))
        if op in ('&', '|', '^', '<<', '>>', '>>>'):
            fx = self.frac(x)
            if fx and op in ('|', '>>', '>>>') and y is ZERO:
                return num(div(fx[0], fx[1]))
            p, q = self.i32(x), self.i32(y)
            if op == '&':
                return num(self.sint32(st, band(p, q)))
            if op == '|':
                return num(x) if q is ZERO and st.holds(lt(p, I(1 << 31))) else num(self.sint32(st, bor(p, q)))
            if op == '^':
                if is_int(q) and q.a[0] == 0xffffffff:
                    return num(self.sint32(st, sub(I(0xffffffff), p)))
                return num(self.sint32(st, bxor(p, q)))
            if is_int(q):
                sh = q.a[0] & 31
                if op == '<<':
                    return num(self.sint32(st, trunc(32, mul(p, I(1 << sh)))))
                if op == '>>>':
                    return num(div(p, I(1 << sh)))
                if st.holds(lt(p, I(1 << 31))):
                    return num(div(p, I(1 << sh)))
                if is_int(p):
                    return num((p.a[0] - (1 << 32) if p.a[0] >> 31 else p.a[0]) >> sh)
                return num(app('sar', p, I(sh)))
            return num(app('bits' + op, p, q))
        raise Unsupported('operator ' + op)

    def equal(self, a, b, strict):
        nums = ('num', 'bool')
        if a[0] in nums and b[0] in nums:
            return self.cmp_eq(a[1], b[1])
        if a[0] == b[0]:
            if a[0] == 'str':
                return ONE if a[1] == b[1] else ZERO
            if a[0] in ('undef', 'null'):
                return ONE
            if a[0] == 'obj':
                return ONE if a[1] == b[1] else ZERO
            if a[0] == 'bn':
                return ZERO                    # two objects
            if a[0] == 'opq':
                return eq(a[1], b[1])
        if {a[0], b[0]} == {'undef', 'null'}:
            return ZERO if strict else ONE
        if 'opq' in (a[0], b[0]):
            x, y = (a, b) if a[0] == 'opq' else (b, a)
            return mk('app', 'is', x[1], str(y[1:])[:40] + y[0])
        return ZERO

    def x_YieldExpression(self, n, st, env):
        out = []
        for v, s in self.eval(n['expression'], st, env) if 'expression' in n else [(U, st)]:
            s = s.copy()
            ys = s.gh.get('yields', ((),))
            s.gh['yields'] = ys[:-1] + (ys[-1] + (v,),)
            self.hook('yield', s, v)
            out.append((U, s))
        return out

    def x_DeleteExpression(self, n, st, env):
        return [(boolv(ONE), st)]

    # ------------------------------------------------------------ statements
    def block(self, stmts, st, env):
        """[(signal, value, st)]; signal None when it falls through"""
        f = env[2] if env[0] == 'sc' else env[1]
        for n in stmts:
            if n['k'] == 'FunctionDeclaration':
                self.keep(n, f)
                self.declare_var(st, env, n['name']['text'], ('fn', id(n), env, None, f))
        outs, done = [st], []
        for n in stmts:
            nxt = []
            for s in outs:
                for sig, v, s2 in self.stmt(n, s, env):
                    if sig is None:
                        nxt.append(s2)
                    else:
                        done.append((sig, v, s2))
            outs = nxt
            if len(outs) + len(done) > 4000:
                raise Unsupported('the client code has too many paths')
        return done + [(None, U, s) for s in outs]

    def stmt(self, n, st, env):
        f = getattr(self, 's_' + n['k'], None)
        if f is None:
            raise Unsupported('statement ' + n['k'])
        return f(n, st, env)

    def s_EmptyStatement(self, n, st, env):
        return [(None, U, st)]

    s_FunctionDeclaration = s_InterfaceDeclaration = s_TypeAliasDeclaration = s_EmptyStatement

    def s_Block(self, n, st, env):
        st = st.copy()
        return self.block(n['statements'], st, self.scope(st, env, env[2] if env[0] == 'sc' else env[1]))

    def s_FirstStatement(self, n, st, env):
        return self.decls(n['declarationList'], st, env)

    s_VariableStatement = s_FirstStatement

    def decls(self, l, st, env):
        states = [st]
        for d in l['declarations']:
            nxt = []
            for s in states:
                if 'initializer' in d:
                    for v, s2 in self.eval(d['initializer'], s, env):
                        if v[0] == 'obj' and 'type' in d:
                            s2 = s2.copy()
                            s2.gh[('type', v[1])] = self.tystr(d['type'])
                        nxt += self.bind(d['name'], v, s2, env)
                else:
                    nxt += self.bind(d['name'], U, s, env)
            states = nxt
        return [(None, U, s) for s in states]

    def tystr(self, t):
        k = t['k']
        if k == 'ArrayType':
            return self.tystr(t['elementType']) + '[]'
        if k == 'TypeReference':
            return t['typeName'].get('text', '?')
        return {'NumberKeyword': 'number', 'StringKeyword': 'string'}.get(k, '?')

    def s_ExpressionStatement(self, n, st, env):
        return [(None, U, s) for v, s in self.eval(n['expression'], st, env)]

    def s_ReturnStatement(self, n, st, env):
        if 'expression' not in n:
            return [('return', U, st)]
        return [('return', v, s) for v, s in self.eval(n['expression'], st, env)]

    def s_ThrowStatement(self, n, st, env):
        return [('throw', n, st)]

    def s_BreakStatement(self, n, st, env):
        return [('break', n.get('label', {}).get('text') if 'label' in n else None, st)]

    def s_ContinueStatement(self, n, st, env):
        return [('continue', n.get('label', {}).get('text') if 'label' in n else None, st)]

    def s_IfStatement(self, n, st, env):
        out = []
        for ok, s in self.cond(n['expression'], st, env):
            if ok:
                out += self.stmt(n['thenStatement'], s, env)
            elif 'elseStatement' in n:
                out += self.stmt(n['elseStatement'], s, env)
            else:
                out.append((None, U, s))
        return out

    def s_SwitchStatement(self, n, st, env):
        out = []
        clauses = n['caseBlock']['clauses']
        for v, s in self.eval(n['expression'], st, env):
            s = s.copy()
            sc = self.scope(s, env, env[2] if env[0] == 'sc' else env[1])
            rest, dflt = [s], None
            for i, c in enumerate(clauses):
                if c['k'] == 'DefaultClause':
                    dflt = i
                    continue
                nxt = []
                for r in rest:
                    for w, r2 in self.eval(c['expression'], r, sc):
                        for ok, r3 in self.fork(r2, self.equal(v, w, True)):
                            if ok:
                                out += self.fall(clauses, i, r3, sc)
                            else:
                                nxt.append(r3)
                rest = nxt
            for r in rest:
                out += self.fall(clauses, dflt, r, sc) if dflt is not None else [(None, U, r)]
        return out

    def fall(self, clauses, i, st, env):
        stmts = [x for c in clauses[i:] for x in c['statements']]
        return [((None, U, s) if sig == 'break' and v is None else (sig, v, s)) for sig, v, s in self.block(stmts, st, env)]

    def s_TryStatement(self, n, st, env):
        return self.stmt(n['tryBlock'], st, env)

    def s_LabeledStatement(self, n, st, env):
        out = []
        lab = n['label']['text']
        for sig, v, s in self.stmt(n['statement'], st, env):
            out.append((None, U, s) if sig in ('break', 'continue') and v == lab else (sig, v, s))
        return out

    # ------------------------------------------------------------ loops
    def s_WhileStatement(self, n, st, env):
        return self.loop(n, st, env, n['expression'], n['statement'], None)

    def s_DoStatement(self, n, st, env):
        return self.loop(n, st, env, n['expression'], n['statement'], None, post=True)

    def s_ForStatement(self, n, st, env):
        st = st.copy()
        sc = self.scope(st, env, env[2] if env[0] == 'sc' else env[1])
        states = [(None, U, st)]
        if 'initializer' in n:
            i = n['initializer']
            states = self.decls(i, st, sc) if i['k'] == 'VariableDeclarationList' else [(None, U, s) for v, s in self.eval(i, st, sc)]
        out = []
        for _, _, s in states:
            out += self.loop(n, s, sc, n.get('condition'), n['statement'], n.get('incrementor'))
        return out

    MUT = ('push', 'pop', 'unshift', 'shift', 'splice', 'iadd', 'isub', 'iaddn', 'isubn', 'reverse', 'sort')

    def changed(self, *nodes):
        """names that code may assign, and names whose arrays or objects it may change"""
        vs, objs = set(), set()

        def root(e):
            while e['k'] in ('PropertyAccessExpression', 'ElementAccessExpression', 'NonNullExpression', 'ParenthesizedExpression', 'AsExpression'):
                e = e['expression']
            return e.get('text') if e['k'] == 'Identifier' else None

        def walk(n):
            if isinstance(n, list):
                for x in n:
                    walk(x)
                return
            if not isinstance(n, dict):
                return
            k = n.get('k')
            if k == 'BinaryExpression' and n['op'].endswith('=') and n['op'] not in ('==', '===', '!=', '!==', '<=', '>='):
                t = n['left']
                for x in (t['elements'] if t['k'] == 'ArrayLiteralExpression' else [t]):
                    if x['k'] == 'Identifier':
                        vs.add(x['text'])
                    elif root(x):
                        objs.add(root(x))
            elif k in ('PrefixUnaryExpression', 'PostfixUnaryExpression') and n['operator'] in ('++', '--'):
                if n['operand']['k'] == 'Identifier':
                    vs.add(n['operand']['text'])
                elif root(n['operand']):
                    objs.add(root(n['operand']))
            elif k == 'CallExpression' and n['expression']['k'] == 'PropertyAccessExpression' and n['expression']['name']['text'] in self.MUT:
                e = n['expression']['expression']
                if root(e):
                    (vs if e['k'] == 'Identifier' and n['expression']['name']['text'][0] == 'i' else objs).add(root(e))
                    if e['k'] == 'Identifier':
                        objs.add(e['text'])
            for v in n.values():
                if isinstance(v, (dict, list)):
                    walk(v)
        for n in nodes:
            walk(n)
        return vs, objs

    def havoc(self, n, st, env, nodes):
        """an arbitrary later round: [(name, entry value, head value)]"""
        vs, objs = self.changed(*nodes)
        st = st.copy()
        rec = {}
        for name in sorted(vs):
            e = self.find_scope(st, env, name)
            if e is None:
                continue
            old = st.heap[e[1]][2][name]
            if old[0] in ('num', 'bn', 'bool'):
                new = self.fresh(name, old[0])
                if old[0] == 'num':
                    note_type(new[1], 'u64')
                if old[0] == 'bool':
                    note_type(new[1], 'bool')
            elif old[0] in ('undef', 'null', 'opq', 'cls', 'str'):
                new = ('opq', self.fresh(name)[1])
            elif old[0] == 'obj':
                objs.add(name)
                continue
            else:
                raise Unsupported('loop variable %s of kind %s' % (name, old[0]))
            self.declare_var(st, e, name, new)
            rec[name] = (old, new)
        for name in sorted(objs):
            e = self.find_scope(st, env, name)
            old = st.heap[e[1]][2][name] if e is not None else None
            if old is None or old[0] != 'obj' or name == 'this':
                continue
            kind, c, d = self.obj(st, old)
            if kind in ('arr', 'sarr'):
                ty = st.gh.get(('type', old[1]), '')
                if kind == 'sarr':
                    ek = d['kind']
                elif ty == 'BN[]':
                    ek = 'bn'
                elif d['items'] and d['items'][0][0] in ('num', 'bn'):
                    ek = d['items'][0][0]
                elif ty == 'number[]':
                    ek = 'num'
                else:
                    ek = self.objelem
                self.fresh_n += 1
                base = mk('sym', '%s#%d' % (name, self.fresh_n))
                ln = mk('app', 'count', base)
                note_type(ln, 'u32')
                entry = (kind, d)
                st.heap[old[1]] = ('sarr', None, {'base': base, 'len': ln, 'tail': (), 'over': (), 'kind': ek, 'name': name})
                rec[name] = (('was', kind, d), ('list', old[1], base, ln))
            elif kind == 'inst' and name in vs:
                raise Unsupported('loop variable %s is an object' % name)
        return rec, st

    def objelem(self, interp, i):
        return ('opq', mk('app', 'elem', i))

    def loop(self, n, st, env, cond, body, inc, post=False, intro=None):
        """one arbitrary round of a loop"""
        nodes = [x for x in (cond, body, inc) if x]
        rec, head = self.havoc(n, st, env, nodes)
        h = self.hooks.get('head')
        if h:
            head = h(self, n, head, rec) or head
        head.loops = head.loops + (('loop', id(n), n['l']),)
        out = []
        backs = []
        starts = []
        if cond is None or post:
            starts = [head]
        else:
            for ok, s in self.cond(cond, head, env):
                if ok:
                    starts.append(s)
                else:
                    out.append((None, U, s))
                    self.hook('exit', n, rec, s, 'cond')
        if intro:
            starts = [s2 for s in starts for s2 in intro(s)]
        for s in starts:
            for sig, v, s2 in self.stmt(body, s, env):
                if sig in (None, 'continue') and v in (None, U):
                    for s3 in ([x for _, x in self.eval(inc, s2, env)] if inc else [s2]):
                        if post:
                            for ok, s4 in self.cond(cond, s3, env):
                                if ok:
                                    backs.append(s4)
                                else:
                                    out.append((None, U, s4))
                        else:
                            backs.append(s3)
                elif sig == 'break' and v is None:
                    out.append((None, U, s2))
                    self.hook('exit', n, rec, s2, 'break')
                else:
                    if sig == 'return':
                        self.hook('exit', n, rec, s2, ('return', v))
                    out.append((sig, v, s2))
        for s in backs:
            self.hook('back', n, rec, s, env)
        for _, _, s in out:
            s.loops = tuple(x for x in s.loops if x[1] != id(n))
        return out

    def s_ForOfStatement(self, n, st, env):
        out = []
        for v, s in self.eval(n['expression'], st, env):
            f = env[2] if env[0] == 'sc' else env[1]
            pat = n['initializer']['declarations'][0]['name'] if n['initializer']['k'] == 'VariableDeclarationList' else n['initializer']
            if v[0] == 'obj' and self.obj(s, v)[0] == 'inst':
                c = self.obj(s, v)[1]
                if c is not None and '@@iterator' in self.cinfo(c)['methods']:
                    rs = self.method(s, v, '@@iterator', [], n)
                else:
                    raise Unsupported('iteration over an object')
            else:
                rs = [(v, s)]
            for v, s in rs:
                if v[0] == 'obj' and self.obj(s, v)[0] == 'arr':
                    outs = [s]
                    for x in self.obj(s, v)[2]['items']:
                        nxt = []
                        for q in outs:
                            q = q.copy()
                            sc = self.scope(q, env, f)
                            for q2 in self.bind(pat, x, q, sc):
                                for sig, w, q3 in self.stmt(n['statement'], q2, sc):
                                    if sig in (None, 'continue'):
                                        nxt.append(q3)
                                    elif sig == 'break':
                                        out.append((None, U, q3))
                                    else:
                                        out.append((sig, w, q3))
                        outs = nxt
                    out += [(None, U, q) for q in outs]
                    continue
                if v[0] == 'gen':
                    i = self.fresh('idx', 'num', 'u32')
                    el, cnt = v[1](self, i[1]), mk('app', 'yields', *v[2])
                else:
                    q = self.as_seq(s, v)
                    cnt, i, el = q[1], ('num', q[2]), q[3]
                s = s.copy()
                sc = self.scope(s, env, f)
                more = self.fresh('more', 'bool')
                note_type(more[1], 'bool')

                def intro(s1, el=el, i=i, cnt=cnt, sc=sc):
                    r = s1.assume(conj(le(ZERO, i[1]), lt(i[1], cnt)))
                    if r is None:
                        return []
                    r.loops = r.loops + (('index', i[1], cnt),)
                    return self.bind(pat, el, r, sc)
                node = {'k': 'Literal', 'l': n['l'], 'value': more}
                out += self.loop(n, s, sc, node, n['statement'], None, intro=intro)
        return out

    def x_Literal(self, n, st, env):
        return [(n['value'], st)]
