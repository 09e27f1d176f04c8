"""Parser for the textual MIR printed by the pinned compiler (rustc 1.76, mir-opt-level 0)."""
import re

OPEN, CLOSE = '([{<', ')]}>'


def split_top(s, sep=','):
    """Split s at top-level separators (depth over brackets, '->' is not a bracket, strings skipped)."""
    out, depth, i, st, n = [], 0, 0, 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i += 1
            while i < n and s[i] != '"':
                i += 2 if s[i] == '\\' else 1
        elif c == "'" and i + 2 < n and (s[i + 2] == "'" or s[i + 1] == '\\'):
            i = s.index("'", i + 2)
        elif c in OPEN:
            depth += 1
        elif c in CLOSE:
            if not (c == '>' and i and s[i - 1] in '-='):
                depth -= 1
        elif depth == 0 and s.startswith(sep, i):
            out.append(s[st:i].strip())
            i += len(sep)
            st = i
            continue
        i += 1
    t = s[st:].strip()
    if t or out:
        out.append(t)
    return [x for x in out if x != ''] if sep == ',' else out


def match_close(s, i):
    """Index of the bracket closing the one at s[i]."""
    depth, n = 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i += 1
            while i < n and s[i] != '"':
                i += 2 if s[i] == '\\' else 1
        elif c == "'" and i + 2 < n and (s[i + 2] == "'" or s[i + 1] == '\\'):
            i = s.index("'", i + 2)
        elif c in OPEN:
            depth += 1
        elif c in CLOSE and not (c == '>' and s[i - 1] in '-='):
            depth -= 1
            if depth == 0:
                return i
        i += 1
    raise ValueError('unbalanced: ' + s)


class Place:
    __slots__ = ('local', 'proj')

    def __init__(self, local, proj):
        self.local, self.proj = local, proj

    def __repr__(self):
        return '_%d%s' % (self.local, ''.join(map(str, self.proj)))


def parse_place(s):
    p, rest = _place(s, 0)
    if rest != len(s):
        raise ValueError('place: %r' % s)
    return p


def _place(s, i):
    if s[i] == '_':
        m = re.compile(r'_(\d+)').match(s, i)
        local, proj, i = int(m.group(1)), [], m.end()
    elif s[i] == '(':
        j = match_close(s, i)
        if s[i + 1] == '*':
            p, k = _place(s, i + 2)
            if k != j:
                raise ValueError('place: %r' % s)
            local, proj = p.local, p.proj + [('deref',)]
        else:
            p, k = _place(s, i + 1)
            if s[k] == '.':
                m = re.compile(r'\.(\d+): ').match(s, k)
                local, proj = p.local, p.proj + [('field', int(m.group(1)), s[m.end():j])]
            elif s.startswith(' as ', k):
                nm = s[k + 4:j]
                if nm.startswith('variant#'):
                    nm = int(nm[8:])
                local, proj = p.local, p.proj + [('down', nm)]
            else:
                raise ValueError('place: %r' % s)
        i = j + 1
    else:
        raise ValueError('place: %r' % s[i:])
    while i < len(s) and s[i] == '[':
        j = match_close(s, i)
        inner = s[i + 1:j]
        if re.fullmatch(r'_\d+', inner):
            proj = proj + [('index', int(inner[1:]))]
        else:
            m = re.fullmatch(r'(-?)(\d+) of (\d+)', inner)
            if m:
                proj = proj + [('cindex', int(m.group(2)), bool(m.group(1)))]
            else:
                m = re.fullmatch(r'(\d*):(-?)(\d*)', inner)
                proj = proj + [('sub', int(m.group(1) or 0), int(m.group(3) or 0), bool(m.group(2)) or not m.group(3))]
        i = j + 1
    return Place(local, proj), i


# operands: ('p', Place, move?) | ('c', text)
def parse_operand(s):
    s = s.strip()
    if s.startswith('move '):
        return ('p', parse_place(s[5:]), True)
    if s.startswith('copy '):
        return ('p', parse_place(s[5:]), False)
    if s.startswith('const '):
        return ('c', s[6:])
    if s and (s[0] == '_' or s[0] == '('):
        try:
            return ('p', parse_place(s), False)
        except ValueError:
            pass
    return ('c', s)


BINOPS = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitXor', 'BitAnd', 'BitOr', 'Shl', 'Shr', 'Eq', 'Lt', 'Le', 'Ne', 'Ge',
          'Gt', 'CheckedAdd', 'CheckedSub', 'CheckedMul', 'Offset', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked',
          'ShlUnchecked', 'ShrUnchecked', 'Cmp'}


def parse_rvalue(s):
    m = re.match(r'([A-Za-z]+)\(', s)
    if m:
        n = m.group(1)
        if n in BINOPS and s.endswith(')'):
            a = split_top(s[m.end():-1])
            if len(a) == 2:
                return ('bin', n, parse_operand(a[0]), parse_operand(a[1]))
        if n in ('Not', 'Neg'):
            return ('un', n, parse_operand(s[m.end():-1]))
        if n == 'Len':
            return ('len', parse_place(s[4:-1]))
        if n == 'discriminant':
            return ('discr', parse_place(s[len('discriminant('):-1]))
        if n in ('SizeOf', 'AlignOf'):
            return ('nullary', n, s[m.end():-1])
    if s.startswith('&'):
        t = s[1:]
        mut = False
        for pre in ('raw mut ', 'raw const ', 'mut ', 'fake shallow ', 'fake ', 'two_phase_mut '):
            if t.startswith(pre):
                mut = 'mut' in pre
                t = t[len(pre):]
                break
        return ('ref', mut, parse_place(t))
    if s.startswith('deref_copy '):
        return ('use', ('p', parse_place(s[11:]), False))
    mm = re.match(r'^(.*) \(([A-Za-z]+(?:\([A-Za-z()]*\))?)\)$', s)
    if mm and ' as ' in mm.group(1):
        body, kind = mm.group(1), mm.group(2)
        # the operand ends at the first top-level ' as '
        parts = split_top(body, ' as ')
        op = parts[0]
        if op.startswith(('move ', 'copy ', 'const ', '_', '(')):
            return ('cast', parse_operand(op), ' as '.join(parts[1:]), kind)
    if s.startswith(('move ', 'copy ', 'const ')):
        return ('use', parse_operand(s))
    if s.startswith('_') or s.startswith('(*') or s.startswith('(('):
        try:
            return ('use', ('p', parse_place(s), False))
        except (ValueError, AttributeError):
            pass
    if s.startswith('('):
        try:
            return ('use', ('p', parse_place(s), False))
        except (ValueError, AttributeError):
            pass
        return ('tuple', [parse_operand(x) for x in split_top(s[1:-1])])
    if s.startswith('['):
        inner = s[1:-1]
        sp = split_top(inner, ';')
        if len(sp) == 2:
            return ('repeat', parse_operand(sp[0]), sp[1])
        return ('array', [parse_operand(x) for x in split_top(inner)])
    if s.startswith('{closure@') or s.startswith('{coroutine@'):
        j = match_close(s, 0)
        rest = s[j + 1:].strip()
        caps = []
        if rest.startswith('{'):
            for x in split_top(rest[1:-1]):
                caps.append(parse_operand(x.split(': ', 1)[1]))
        return ('closure', s[:j + 1], caps)
    # ADT aggregates
    if s.endswith('}'):
        i = _agg_brace(s)
        if i is not None:
            fs = []
            for x in split_top(s[i + 1:-1]):
                k, v = x.split(': ', 1)
                fs.append((k, parse_operand(v)))
            return ('agg', s[:i].strip(), fs)
    if s.endswith(')'):
        i = _agg_paren(s)
        if i is not None:
            return ('agg', s[:i], [(str(k), parse_operand(x)) for k, x in enumerate(split_top(s[i + 1:-1]))])
    return ('agg', s, [])


def _agg_brace(s):
    depth = 0
    for i, c in enumerate(s):
        if c in '<([':
            depth += 1
        elif c in '>)]' and not (c == '>' and s[i - 1] in '-='):
            depth -= 1
        elif c == '{' and depth == 0 and s[i - 1] == ' ':
            return i
    return None


def _agg_paren(s):
    depth = 0
    for i, c in enumerate(s):
        if c == '(' and depth == 0:
            return i
        if c in '<([{':
            depth += 1
        elif c in '>)]}' and not (c == '>' and s[i - 1] in '-='):
            depth -= 1
    return None


class Block:
    __slots__ = ('stmts', 'term', 'cleanup')

    def __init__(self, cleanup):
        self.stmts, self.term, self.cleanup = [], None, cleanup


class Body:
    def __init__(self, name, params, ret):
        self.name, self.params, self.ret = name, params, ret
        self.types = {}
        self.debug = {}
        self.blocks = {}
        self.kind = 'fn'

    def finish(self):
        for n, t in self.params:
            self.types[n] = t
        self.named = set(self.debug.values())


SPAN = re.compile(r'\s+//\s.*$')
SPAN_AT = re.compile(r'//.*?\bat (\S+?:\d+:\d+(?:: \d+:\d+)?)')
UNEV = re.compile(r'const_: Const \{.* val: Unevaluated\((.*), \[.*\], (None|Some\(promoted\[(\d+)\]\))\) \}')


def consts_in(x):
    if type(x) is tuple and len(x) == 2 and x[0] == 'c' and isinstance(x[1], str):
        t = x[1].strip()
        return ['_'] if t in ('_', 'const _') else []
    if type(x) in (tuple, list):
        out = []
        for y in x:
            out += consts_in(y)
        return out
    return []


def repl_consts(x, it):
    if type(x) is tuple and len(x) == 2 and x[0] == 'c' and isinstance(x[1], str):
        if x[1].strip() in ('_', 'const _'):
            return ('c', next(it, '_'))
        return x
    if type(x) is tuple:
        return tuple(repl_consts(y, it) for y in x)
    if type(x) is list:
        return [repl_consts(y, it) for y in x]
    return x


def parse_term(s):
    if s.startswith('goto -> '):
        return ('goto', int(s[10:]))
    if s == 'return':
        return ('return',)
    if s in ('unreachable', 'resume', 'terminate(cleanup)', 'terminate(abi)', 'abort'):
        return ('dead', s)
    if s.startswith('switchInt('):
        j = match_close(s, 9)
        op = parse_operand(s[10:j])
        k = s.index('[', j)
        tg, oth = [], None
        for x in split_top(s[k + 1:-1]):
            a, b = x.rsplit(': ', 1)
            if a == 'otherwise':
                oth = int(b[2:])
            else:
                tg.append((int(a), int(b[2:])))
        return ('switch', op, tg, oth)
    if s.startswith('drop('):
        j = match_close(s, 4)
        m = re.search(r'return: bb(\d+)', s[j:])
        return ('goto', int(m.group(1))) if m else ('dead', s)
    if s.startswith('assert('):
        j = match_close(s, 6)
        a = split_top(s[7:j])
        c = a[0]
        pol = True
        if c.startswith('!'):
            pol, c = False, c[1:]
        m = re.search(r'success: bb(\d+)', s[j:])
        return ('assert', parse_operand(c), pol, a[1] if len(a) > 1 else '', [parse_operand(x) for x in a[2:]], int(m.group(1)))
    if s.startswith('falseEdge') or s.startswith('falseUnwind'):
        m = re.search(r'real: bb(\d+)', s)
        return ('goto', int(m.group(1)))
    # call
    m = re.match(r'^(.*) -> (\[.*\]|unwind .*)$', s)
    if m:
        lhs, tail = m.group(1), m.group(2)
        parts = split_top(lhs, ' = ')
        dest = parse_place(parts[0])
        call = ' = '.join(parts[1:])
        # the argument list is the last top-level paren group
        depth, i = 0, len(call) - 1
        assert call[-1] == ')', s
        st = _last_group(call)
        func = call[:st]
        args = [parse_operand(x) for x in split_top(call[st + 1:-1])]
        mm = re.search(r'return: bb(\d+)', tail)
        return ('call', dest, func, args, int(mm.group(1)) if mm else None)
    raise ValueError('terminator: ' + s)


def _last_group(s):
    """start of the argument list: scan forward, remember the last top-level '(' group."""
    i, n, last = 0, len(s), None
    while i < n:
        c = s[i]
        if c in '([{<':
            j = match_close(s, i)
            if c == '(' and j == n - 1:
                return i
            i = j + 1
            continue
        i += 1
    raise ValueError(s)


def parse_stmt(s):
    if s.startswith(('StorageLive', 'nop', 'PlaceMention', 'FakeRead', 'Retag', 'AscribeUserType', 'ConstEvalCounter', 'Coverage', 'Deinit')):
        return None
    if s.startswith('StorageDead('):
        return ('dead', int(s[13:-1]))
    parts = split_top(s, ' = ')
    if len(parts) < 2:
        return ('other', s)
    lhs, rhs = parts[0], ' = '.join(parts[1:])
    if lhs.startswith('discriminant('):
        return ('setdiscr', parse_place(lhs[13:-1]), int(rhs))
    return ('assign', parse_place(lhs), parse_rvalue(rhs))


def parse(text, want=None):
    """text -> {name: Body}; consts and promoteds are kept as bodies too (kind const/promoted)."""
    bodies = {}
    cur = blk = None
    for raw in text.split('\n'):
        if not raw:
            continue
        c0 = raw[0]
        if cur is None:
            if raw.endswith('{') and c0 not in ' }/':
                if raw.startswith('fn '):
                    h = raw[3:-2]
                    # name is everything up to the parameter list
                    i = _fn_params(h)
                    j = match_close(h, i)
                    name = h[:i]
                    ret = h[j + 1:].strip()
                    ret = ret[3:] if ret.startswith('-> ') else '()'
                    params = []
                    for x in split_top(h[i + 1:j]):
                        a, t = x.split(': ', 1)
                        params.append((int(a[1:]), t))
                    cur = Body(name, params, ret)
                elif re.match(r'(const|static|promoted)', raw) or ': ' in raw:
                    m = re.match(r'^(?:(const|static mut|static) )?(.*) = \{$', raw)
                    if not m or raw.startswith('alloc'):
                        continue
                    nm = m.group(2)
                    # split name and type at the last top-level ': '
                    pp = split_top(nm, ': ')
                    cur = Body(pp[0], [], ': '.join(pp[1:]))
                    cur.kind = 'promoted' if nm.startswith('promoted[') else 'const'
                if cur is not None:
                    cur.skip = want is not None and not want(cur)
            continue
        if c0 == '}':
            cur.finish()
            if not cur.skip:
                bodies.setdefault(cur.name, []).append(cur)
            cur = blk = None
            continue
        if cur.skip:
            continue
        line = raw.strip()
        if line.startswith('//') or line in ('}', ''):
            m = UNEV.search(line) if blk is not None and not blk.cleanup else None
            if m:
                tok = 'promoted[%s] in %s' % (m.group(3), cur.name) if m.group(3) else m.group(1)
                if blk.term is not None:
                    if consts_in(blk.term[:-1]):
                        blk.term = repl_consts(blk.term[:-1], iter([tok])) + blk.term[-1:]
                elif blk.stmts and consts_in(blk.stmts[-1][:-1]):
                    blk.stmts[-1] = repl_consts(blk.stmts[-1][:-1], iter([tok])) + blk.stmts[-1][-1:]
            continue
        sp = SPAN_AT.search(line)
        line2 = SPAN.sub('', line) if '//' in line else line
        if not line2:
            continue
        if line2.startswith('scope ') or line2 == '}':
            continue
        if line2.startswith('debug '):
            m = re.match(r'debug (\S+) => (.*);', line2)
            if m:
                mm = re.fullmatch(r'_(\d+)', m.group(2))
                if mm:
                    cur.debug[m.group(1) + '@' + mm.group(1)] = int(mm.group(1))
            continue
        if line2.startswith('let '):
            m = re.match(r'let (?:mut )?_(\d+): (.*);$', line2)
            cur.types[int(m.group(1))] = m.group(2)
            continue
        m = re.match(r'bb(\d+)( \(cleanup\))?: \{$', line2)
        if m:
            blk = Block(bool(m.group(2)))
            cur.blocks[int(m.group(1))] = blk
            continue
        if blk is None or blk.cleanup:
            continue
        if line2.endswith(';'):
            s = line2[:-1]
            span = sp.group(1) if sp else ''
            try:
                if s.startswith(('goto', 'return', 'unreachable', 'resume', 'switchInt', 'drop(', 'assert(', 'falseEdge', 'falseUnwind', 'terminate')) or ' -> [' in s or ' -> unwind' in s:
                    blk.term = parse_term(s) + (span,)
                else:
                    st = parse_stmt(s)
                    if st:
                        blk.stmts.append(st + (span,))
            except Exception as e:
                blk.stmts.append(('bad', s + ' // ' + repr(e), span))
                if blk.term is None and ('->' in s):
                    blk.term = ('dead', 'bad', span)
    return bodies


def _fn_params(h):
    """index of the '(' opening the parameter list: first top-level '(' followed by '_1' or ')'"""
    i, n = 0, len(h)
    while i < n:
        c = h[i]
        if c == '(' and (h.startswith('(_1', i) or h.startswith('()', i)):
            return i
        if c in OPEN:
            i = match_close(h, i)
        i += 1
    raise ValueError(h)
