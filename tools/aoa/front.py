"""Front end: asks the pinned compiler for the MIR and the expanded source of /repo's current tree."""
import os, re, subprocess, sys, tempfile, shutil
from . import mir, decls

REPO = os.environ.get('AOA_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
WRAP = os.path.join(HERE, '..', 'rustc_wrap.sh')
MIRFLAGS = ['-Zunpretty=mir', '-Zmir-opt-level=0', '-Cdebug-assertions=off', '-Coverflow-checks=off', '-Zmir-include-spans',
            '-Ztrim-diagnostic-paths=no', '-Awarnings']


class FrontError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(HOME='/root', PATH='/root/.cargo/bin:/usr/local/bin:/usr/local/sbin:/usr/bin:/usr/sbin:/bin:/sbin',
             RUSTUP_TOOLCHAIN='1.76.0', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1',
             CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', RUST_BACKTRACE='0',
             RUSTC_WORKSPACE_WRAPPER=os.path.abspath(WRAP))
    e.pop('CARGO_TARGET_DIR', None)
    return e


def _run(crate, flags, features, scratch=None):
    e = env()
    if scratch:
        e['CARGO_TARGET_DIR'] = scratch
    cmd = ['cargo', 'rustc', '--offline', '--lib']
    if features:
        cmd += ['--features', features]
    p = subprocess.run(cmd + ['--'] + flags, cwd=os.path.join(REPO, crate), env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       text=True, errors='replace', timeout=800)
    return p


def rustc(crate, flags, features=''):
    """Uses the build cache cargo keeps in the crate (git-ignored); falls back to a private one."""
    p = _run(crate, flags, features)
    if p.returncode == 0 and not p.stdout:
        # cargo thought it fresh: force it through a throw-away fingerprint
        p = _run(crate, flags + ['--cfg', 'aoa_run_%d' % os.getpid()], features)
    if p.returncode == 0 and p.stdout:
        return p.stdout
    d = tempfile.mkdtemp(prefix='aoa-target-')
    try:
        p = _run(crate, flags, features, d)
        if p.returncode == 0 and p.stdout:
            return p.stdout
    finally:
        shutil.rmtree(d, ignore_errors=True)
    raise FrontError('the compiler rejected %s:\n%s' % (crate, p.stderr[-3000:]))


class Program:
    def __init__(self, crate='program', features='utils', solana=False):
        self.crate, self.solana = crate, solana
        cfg = ['--cfg', 'target_os="solana"'] if solana else []
        self.text = rustc(crate, MIRFLAGS + cfg, features)
        exp = rustc(crate, ['-Zunpretty=expanded', '-Awarnings'] + cfg, features)
        self.bodies = mir.parse(self.text)
        self.adts = decls.parse(exp)
        self.exp = exp
        self.name = crate + ('[solana]' if solana else '[native]')
        self._src = {}
        self.index()
        self.named_consts(crate, cfg, features)

    def named_consts(self, crate, cfg, features):
        """The MIR printer writes named constants as `_`; the typed tree (THIR) names them, matched by source span."""
        occ = []
        for bl in self.bodies.values():
            for b in bl:
                if getattr(b, 'key', None) is None:
                    b.key = self.keyof(b) if b.kind != 'promoted' else ('', '', b.name)
                for blk in b.blocks.values():
                    for n, s in enumerate(blk.stmts):
                        if s[0] == 'assign' and '_' in _consts(s[2]):
                            occ.append((b, blk, n, s, s[-1]))
                    if blk.term and '_' in _consts(blk.term[:-1]):
                        occ.append((b, blk, None, blk.term, blk.term[-1]))
        if not occ:
            return
        txt = rustc(crate, [f for f in MIRFLAGS if 'unpretty' not in f and 'include-spans' not in f] + ['-Zunpretty=thir-flat'] + cfg, features)
        cands = {}
        hdr = [(m.start(), m.group(1)) for m in re.finditer(r'^DefId\(\S+ ~ (.*)\):$', txt, re.M)]
        import bisect
        hpos = [h[0] for h in hdr]
        for m in re.finditer(r'kind: NamedConst \{\s*def_id: DefId\(\S+ ~ ([^\n]*)\),\n', txt):
            t = re.compile(r'\n {12}ty: (.*),\n').search(txt, m.end())
            p = re.compile(r'\n {12}span: (.*) \(#\d+\),\n').search(txt, m.end())
            if not t or not p:
                continue
            sp = span_of(p.group(1))
            if sp:
                cands.setdefault(sp[0], {}).setdefault((sp[1:], m.group(1), t.group(1)), [0])
        used = set()
        occ.sort(key=lambda o: (o[0].name, id(o[0]), _extent(o[4])))
        for b, blk, n, st, span in occ:
            sp = span_of(span)
            toks = []
            if sp:
                inner = [(c[0], c[1], c[2]) for c in cands.get(sp[0], {}) if sp[1:3] <= c[0][0:2] and c[0][2:4] <= sp[3:5]]
                inner = [c for c in sorted(inner) if (id(b), c) not in used]
                k = _consts(st[2] if n is not None else st[:-1]).count('_')
                if len(inner) > k:
                    # operands of this statement come last: earlier constants belong to sub-expressions of their own
                    inner = inner[:0]
                for c in inner:
                    used.add((id(b), c))
                    toks.append(self.const_token(b, sp[0], c))
            if not toks:
                continue
            it = iter(toks)
            if n is not None:
                blk.stmts[n] = st[:2] + (_repl(st[2], it),) + st[3:]
            else:
                blk.term = _repl(st[:-1], it) + st[-1:]

    def const_token(self, b, f, c):
        (l1, c1, l2, c2), path, ty = c
        m = re.search(r'::(\w+)::(\w+)::\{constant#\d+\}$', path)
        if m:
            return '{discr %s::%s}' % (m.group(1), m.group(2))
        try:
            t = self.src(f)[l1 - 1][c1 - 1:c2 - 1] if l1 == l2 else ''
        except (OSError, IndexError):
            t = ''
        t = t.strip()
        if not re.fullmatch(r'[\w:<> ]+', t) or t.split('::')[-1] != path.split('::')[-1]:
            t = ty + '::' + path.split('::')[-1] if '{impl#' in path and re.fullmatch(r'[iu]\w+', ty) else path.split('::')[-1]
        if t.startswith('Self::'):
            own = b.key[1] if b.key else ''
            if not own:
                m = re.search(r'<impl at ([^>]*)>', b.name)
                io = self.impl_of(m.group(1)) if m else None
                own = io[0] if io else ''
            if own:
                t = own + t[4:]
        return t

    def src(self, f):
        if f not in self._src:
            with open(os.path.join(REPO, self.crate, f)) as fh:
                self._src[f] = fh.read().split('\n')
        return self._src[f]

    def impl_of(self, span):
        """(self type name, trait name or None) of the impl block at 'file:l:c: l:c' (None for derives)."""
        m = re.match(r'(\S+?):(\d+):(\d+): (\d+):(\d+)', span)
        f, l1, c1, l2, c2 = m.group(1), *map(int, m.groups()[1:])
        try:
            ls = self.src(f)
        except OSError:
            return None
        if l1 == l2:
            t = ls[l1 - 1][c1 - 1:c2 - 1]
        else:
            t = ' '.join([ls[l1 - 1][c1 - 1:]] + ls[l1:l2 - 1] + [ls[l2 - 1][:c2 - 1]])
        t = t.strip()
        if not t.startswith('impl'):
            return None
        t = t[4:].strip()
        if t.startswith('<'):
            t = t[mir.match_close(t, 0) + 1:].strip()
        t = re.split(r'\bwhere\b', t)[0].strip()
        tr = None
        parts = mir.split_top(t, ' for ')
        if len(parts) == 2:
            tr, t = parts
            tr = last_seg(tr)
        return last_seg(t), tr

    def index(self):
        """fns: (module, self type or '', method) -> Body"""
        self.fns = {}
        self.closures = {}
        self.promoted = {}
        self.consts = {}
        for name, bl in self.bodies.items():
            for b in bl:
                if b.kind == 'promoted':
                    self.promoted[name] = b
                    continue
                if b.kind == 'const':
                    self.consts[name] = b
                    continue
                b.key = self.keyof(b)
                if b.key is None:
                    continue
                if '{closure#' in name:
                    m = re.search(r'\{closure@[^}]*\}', b.params[0][1]) if b.params else None
                    if m:
                        self.closures[m.group(0)] = b
                    continue
                self.fns.setdefault(b.key, b)
        self.by_tm = {}
        for (mod, ty, m), b in self.fns.items():
            self.by_tm.setdefault((ty, m), []).append((mod, b))

    def keyof(self, b):
        name = b.name
        m = re.search(r'<impl at ([^>]*)>', name)
        if not m:
            parts = name.split('::')
            return ('::'.join(parts[:-1]), '', parts[-1])
        mod = name[:m.start()].rstrip(':')
        meth = name[m.end():].lstrip(':')
        io = self.impl_of(m.group(1))
        if io is None:
            # derive: the self type is in the signature
            t = b.params[0][1] if b.params else b.ret
            if meth.startswith('deserialize'):
                m = re.match(r'^[\w:]*Result<(.*)>$', b.ret.strip())
                if m:
                    t = mir.split_top(m.group(1), ',')[0]
            return (mod, last_seg(strip_ref(t)), meth)
        b.trait = io[1]
        return (mod, io[0], meth)

    def find(self, ty, meth, mod=None):
        c = self.by_tm.get((ty, meth), [])
        if mod is not None:
            c = [x for x in c if x[0] == mod] or [x for x in c if x[0].endswith(mod)]
        return c[0][1] if c else None

    def adt(self, path):
        p = strip_generics(path)
        if p in self.adts:
            return self.adts[p]
        c = [a for k, a in self.adts.items() if k.split('::')[-1] == p.split('::')[-1]]
        if len(c) == 1:
            return c[0]
        if len(c) > 1:
            cc = [a for a in c if p.endswith(a.path) or a.path.endswith(p)]
            if cc:
                return cc[0]
        return None

    def is_private(self, body):
        """nothing outside the crate can call the function: not `pub`, and not a method of a trait"""
        n = re.escape(body.name.split('::')[-1])
        if re.search(r'\bpub\s+((const|unsafe|async)\s+)*fn\s+%s\b' % n, self.exp) or not re.search(r'\bfn\s+%s\b' % n, self.exp):
            return False
        src = decls.strip_comments(self.exp)
        for m in re.finditer(r'(?:^|\n)\s*(?:unsafe\s+)?(impl\b[^{};]*\sfor\s[^{};]*|(?:pub\s+)?trait\b[^{};]*)\{', src):
            if re.search(r'\bfn\s+%s\b' % n, src[m.end():decls._blk(src, m.end() - 1)]):
                return False
        return True

    def loc(self, body, span=''):
        return '%s::%s%s' % ('::'.join(x for x in body.key[:2] if x), body.key[2], (' at ' + self.crate + '/' + re.sub(r': \d+:\d+$', '', span)) if span else '')


def span_of(s):
    m = re.match(r'(\S+?):(\d+):(\d+): (\d+):(\d+)', s or '')
    return (m.group(1),) + tuple(map(int, m.groups()[1:])) if m else None


def _extent(s):
    p = span_of(s)
    return (p[3] - p[1], p[4] - p[2]) if p else (1 << 30, 0)


_consts, _repl = mir.consts_in, mir.repl_consts


def strip_ref(t):
    t = t.strip()
    while True:
        if t.startswith('&mut '):
            t = t[5:]
        elif t.startswith('&'):
            t = t[1:]
        elif t.startswith("*const "):
            t = t[7:]
        elif t.startswith("*mut "):
            t = t[5:]
        elif re.match(r"'\w+ ", t):
            t = t.split(' ', 1)[1]
        else:
            return t.strip()


def strip_generics(t):
    t = strip_ref(t)
    out, i = [], 0
    while i < len(t):
        if t[i] == '<' and i > 0:
            j = mir.match_close(t, i)
            if out[-2:] == [':', ':'] and t[j + 1:j + 3] == '::':
                out = out[:-2]
            elif out[-2:] == [':', ':']:
                out = out[:-2]
            i = j + 1
            continue
        out.append(t[i])
        i += 1
    return ''.join(out)


def last_seg(t):
    return strip_generics(t).split('::')[-1]
