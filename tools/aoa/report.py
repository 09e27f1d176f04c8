"""Collection of the obligations of one run, evidence, replay files and the exit status."""
import json, os, sys, time, re

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
KNOWN = os.path.join(VERIF, 'known-findings.txt')


class Ob:
    __slots__ = ('prop', 'ok', 'msg', 'loc', 'scope', 'detail')

    def __init__(self, prop, ok, msg, loc, scope, detail=''):
        self.prop, self.ok, self.msg, self.loc, self.scope, self.detail = prop, ok, msg, loc, scope, detail


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.obs = []
        self.functions = set()
        self.scopes = []
        self.notes = []
        self.t0 = time.time()

    def add(self, ok, msg, loc='', scope='', detail=''):
        self.obs.append(Ob(self.prop, bool(ok), msg, loc, scope, detail))

    def finish(self, level='proof', trusted=()):
        p = self.prop
        bad, seen = [], set()
        for o in self.obs:
            if not o.ok and (o.msg, o.loc) not in seen:
                seen.add((o.msg, o.loc))
                bad.append(o)
        known = load_known().get(p, [])
        new, old = [], []
        for o in bad:
            k = [x for x in known if x[0] in o.loc and x[1] in o.msg]
            (old if k else new).append(o)
        ev = {
            'property': p,
            'tier': os.environ.get('VERIF_TIER', 'quick') if os.environ.get('VERIF_TIER') in ('quick', 'thorough') else 'quick',
            'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': level,
            'coverage': {
                'obligations': len(self.obs),
                'discharged': sum(1 for o in self.obs if o.ok),
                'distinct_obligations': len({(o.msg, o.loc) for o in self.obs}),
                'known_findings': len(old),
                'checker_cmd': 'python3 tools/check.py ' + p,
                'trusted_base': list(trusted),
                'functions_analysed': sorted(self.functions),
                'scopes': len(set(self.scopes)),
                'notes': self.notes,
                'scope_samples': sorted(set(self.scopes))[:8],
                'samples': [{'rule': o.msg, 'site': o.loc, 'scope': o.scope, 'holds': o.ok} for o in sample(self.obs)],
            },
            'wall_s': round(time.time() - self.t0, 2),
        }
        evdir = os.environ.get('AOA_EVIDENCE', os.path.join(VERIF, 'evidence'))
        os.makedirs(evdir, exist_ok=True)
        with open(os.path.join(evdir, p + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for o in old:
            print('KNOWN-FINDING: property=%s %s: %s' % (p, o.loc, o.msg))
        if not self.obs:
            print('%s: no obligation was found to check' % p, file=sys.stderr)
            return 2
        if new:
            os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
            rp = os.path.join(VERIF, 'replay', p + '.txt')
            with open(rp, 'w') as f:
                for o in new:
                    f.write('%s\n  construct: %s\n  scope: %s\n' % (o.msg, o.loc, o.scope))
                    if o.detail:
                        f.write('  %s\n' % o.detail)
            for o in new[:20]:
                print('%s: %s (%s)' % (o.loc or '?', o.msg, o.scope))
            print('VIOLATION property=%s replay=%s' % (p, os.path.relpath(rp, VERIF)))
            return 1
        print('%s: %d obligations hold (%d scopes, %.1f s)' % (p, len(self.obs), len(set(self.scopes)), time.time() - self.t0))
        return 0


def sample(obs):
    out, seen = [], set()
    for o in obs:
        if o.msg not in seen:
            seen.add(o.msg)
            out.append(o)
        if len(out) >= 12:
            break
    return out


def load_known():
    """lines 'finding: property=P35 site=<substring of the construct> what=<substring of the message>'; lines 'fixed: ...' suppress nothing"""
    r = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'finding: property=(\S+) site=(.*?) what=(.*)$', l.strip())
            if m:
                r.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
    return r
