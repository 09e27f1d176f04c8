"""Struct and enum declarations from the macro-expanded source (cfg already applied by the compiler)."""
import re
from .mir import split_top, match_close


def strip_comments(src):
    out, i, n = [], 0, len(src)
    while i < n:
        c = src[i]
        if c == '"':
            j = i + 1
            while src[j] != '"':
                j += 2 if src[j] == '\\' else 1
            out.append('""')
            i = j + 1
            continue
        if c == 'r' and re.match(r'r#*"', src[i:i + 8]) and (i == 0 or not (src[i - 1].isalnum() or src[i - 1] == '_')):
            m = re.match(r'r(#*)"', src[i:i + 8])
            j = src.index('"' + m.group(1), i + m.end())
            out.append('""')
            i = j + 1 + len(m.group(1))
            continue
        if c == "'" and i + 2 < n:
            m = re.match(r"'(\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F]+\}|.)|[^\\'])'", src[i:i + 12])
            if m:
                out.append("' '")
                i += m.end()
                continue
        if src.startswith('//', i):
            j = src.find('\n', i)
            i = n if j < 0 else j
            continue
        if src.startswith('/*', i):
            d, j = 1, i + 2
            while d:
                if src.startswith('/*', j):
                    d += 1
                    j += 2
                elif src.startswith('*/', j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            i = j
            continue
        out.append(c)
        i += 1
    return ''.join(out)


class Adt:
    def __init__(self, path, kind):
        self.path, self.kind = path, kind
        self.variants = []          # (name, discriminant, [(field, type)])
        self.repr = ''

    @property
    def name(self):
        return self.path.split('::')[-1]

    def vidx(self, name):
        for i, v in enumerate(self.variants):
            if v[0] == name:
                return i
        return None

    def fidx(self, fname, variant=0):
        for i, (f, _) in enumerate(self.variants[variant][2]):
            if f == fname:
                return i
        return None


def _blk(s, i):
    d = 0
    while True:
        c = s[i]
        if c in '([{':
            d += 1
        elif c in ')]}':
            d -= 1
            if d == 0:
                return i
        i += 1


def _split_simple(s):
    out, d, st = [], 0, 0
    for i, c in enumerate(s):
        if c in '([{':
            d += 1
        elif c in ')]}':
            d -= 1
        elif c == ',' and d == 0:
            out.append(s[st:i].strip())
            st = i + 1
    out.append(s[st:].strip())
    return [x for x in out if x]


def parse(src, consteval=None):
    src = strip_comments(src)
    adts = {}
    consts = {}

    def fields(body, named):
        out = []
        for k, x in enumerate(split_top(body)):
            x = re.sub(r'#\[[^\]]*\]\s*', '', x).strip()
            x = re.sub(r'^pub(\s*\([^)]*\))?\s+', '', x)
            if not x:
                continue
            if named:
                a, b = x.split(':', 1)
                out.append((a.strip(), b.strip()))
            else:
                out.append((str(k), x))
        return out

    def items(s, mod):
        i, n, attrs = 0, len(s), ''
        tok = re.compile(r'[A-Za-z_][A-Za-z0-9_]*|\S')
        while i < n:
            m = tok.search(s, i)
            if not m:
                return
            w = m.group(0)
            i = m.end()
            if w == '#':
                k = s.index('[', i)
                j = _blk(s, k)
                attrs += s[k:j + 1]
                i = j + 1
                continue
            if w in ('pub', 'unsafe', 'async', 'default'):
                mm = re.compile(r'\s*\([^)]*\)').match(s, i)
                if w == 'pub' and mm and not re.match(r'\s*\(\s*\)', s[i:]):
                    i = mm.end()
                continue
            if w == 'mod':
                m2 = re.compile(r'\s*(\w+)\s*').match(s, i)
                i = m2.end()
                if s[i] == '{':
                    j = _blk(s, i)
                    items(s[i + 1:j], mod + [m2.group(1)])
                    i = j + 1
                else:
                    i = s.index(';', i) + 1
            elif w == 'struct':
                m2 = re.compile(r'\s*(\w+)').match(s, i)
                a = Adt('::'.join(mod + [m2.group(1)]), 'struct')
                a.repr = attrs
                i = m2.end()
                while s[i] not in '{(;':
                    if s[i] == '<':
                        i = match_close(s, i)
                    i += 1
                if s[i] == '{':
                    j = _blk(s, i)
                    a.variants = [(a.name, 0, fields(s[i + 1:j], True))]
                    i = j + 1
                elif s[i] == '(':
                    j = _blk(s, i)
                    a.variants = [(a.name, 0, fields(s[i + 1:j], False))]
                    i = s.index(';', j) + 1
                else:
                    a.variants = [(a.name, 0, [])]
                    i += 1
                adts[a.path] = a
            elif w == 'enum':
                m2 = re.compile(r'\s*(\w+)').match(s, i)
                a = Adt('::'.join(mod + [m2.group(1)]), 'enum')
                a.repr = attrs
                i = s.index('{', m2.end())
                j = _blk(s, i)
                nxt = 0
                for x in _split_simple(s[i + 1:j]):
                    while x.startswith('#'):
                        k = _blk(x, x.index('['))
                        x = x[k + 1:].strip()
                    if not x:
                        continue
                    m3 = re.match(r'(\w+)\s*', x)
                    rest, fs = x[m3.end():], []
                    if rest[:1] in '({' and rest:
                        k = _blk(rest, 0)
                        fs = fields(rest[1:k], rest[0] == '{')
                        rest = rest[k + 1:].strip()
                    if rest.startswith('='):
                        e = rest[1:].strip()
                        try:
                            nxt = int(eval(re.sub(r'(?<=\d)_?[iu](8|16|32|64|128|size)\b', '', e), {'__builtins__': {}}))
                        except Exception:
                            nxt = None
                    a.variants.append((m3.group(1), nxt, fs))
                    nxt = None if nxt is None else nxt + 1
                adts[a.path] = a
                i = j + 1
            elif w in ('impl', 'trait', 'fn', 'extern', 'union', 'macro_rules'):
                # skip to the body or ';'
                while s[i] not in '{;':
                    if s[i] in '([':
                        i = _blk(s, i)
                    i += 1
                if s[i] == '{':
                    i = _blk(s, i) + 1
                else:
                    i += 1
                if w == 'extern' and re.match(r'\s*;', s[i:]):
                    pass
            elif w in ('use', 'const', 'static', 'type', 'let'):
                # `const fn`
                if w == 'const' and re.match(r'\s*(unsafe\s+)?fn\b', s[i:i + 20]):
                    continue
                while s[i] != ';':
                    if s[i] in '([{':
                        i = _blk(s, i)
                    i += 1
                i += 1
            else:
                if w in '([{':
                    i = _blk(s, m.start()) + 1
            attrs = ''

    items(src, [])
    return adts
