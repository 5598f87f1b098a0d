"""Check context: obligations, violations, known findings, evidence."""
import gc
import json, os, sys, time, traceback
from . import build
from .mir import Mir

VERIF = build.VERIF


def _errors():
    from .interp import Limit, Coarse
    from .rustmini import RErr
    from .bitsem import Unknown, Panic, Ret, Brk, Cont
    from .mir import Undecided
    return (Unknown, Panic, Ret, Brk, Cont, Undecided, Limit, Coarse, RErr, KeyError, IndexError, ValueError, AttributeError, TypeError, RecursionError, StopIteration, AssertionError)


ANALYSIS_ERRORS = _errors()


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.viol = {}
        self.obs = {}
        self.analysed = set()
        self.notes = []
        self.samples = []
        self.rules = []
        self._mir = None

    @property
    def mir(self):
        if self._mir is None:
            self._mir = Mir(build.export())
        return self._mir

    # -- reporting
    def rule(self, text):
        self.rules.append(text)

    def ob(self, kind, n=1):
        self.obs[kind] = self.obs.get(kind, 0) + n

    def sample(self, s, cap=12):
        if len(self.samples) < cap:
            self.samples.append(str(s)[:400])

    def check(self, kind, ok, key, msg, where=''):
        """One obligation; `key` names the construct, without line numbers."""
        self.ob(kind)
        if not ok:
            self.violation(key, msg, where)
        return ok

    def violation(self, key, msg, where=''):
        self.viol.setdefault(key, (msg, where))

    def undecided(self, what, why=''):
        """A part whose code the analysis cannot follow: recorded, no verdict."""
        self.notes.append('undecided: %s %s' % (what, str(why)[:200]))
        self.ob('undecided')

    def part(self, name, f, *a):
        """Run one part of a check; what the analysis cannot follow is recorded as undecided."""
        try:
            return f(*a)
        except ANALYSIS_ERRORS as e:
            if os.environ.get('PSV_STRICT'):
                raise
            self.undecided(name, '%s: %s' % (type(e).__name__, e))

    def parallel(self, jobs):
        """jobs: [(name, f, args…)], f takes the context first; run as parts in forked workers -> results"""
        import multiprocessing
        global JOBS
        self.mir
        if os.environ.get('PSV_SERIAL') or len(jobs) < 2:
            return [self.part(j[0], j[1], self, *j[2:]) for j in jobs]
        JOBS = (self, jobs)
        gc.collect()
        gc.freeze()
        gc.set_threshold(200000, 20, 50)
        with multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 1, len(jobs))) as pool:
            out = []
            for r, viol, obs, analysed, notes, samples in pool.imap(_job, range(len(jobs)), 1):
                for k, v in viol.items():
                    self.viol.setdefault(k, v)
                for k, n in obs.items():
                    self.ob(k, n)
                self.analysed |= analysed
                self.notes += notes
                for x in samples:
                    self.sample(x)
                out.append(r)
        JOBS = None
        return out

    def floor(self, kind, n):
        """Fail closed: fewer instances than the language has means that the anchor was lost."""
        if self.obs.get(kind, 0) < n:
            if self.obs.get('undecided'):
                return
            self.violation('anchor:' + kind, 'only %d instances of "%s" were found, at least %d exist in the language'
                           % (self.obs.get(kind, 0), kind, n))

    def finish(self):
        known = {}
        kf = os.path.join(VERIF, 'known_findings.json')
        if os.path.exists(kf):
            for e in json.load(open(kf))['findings']:
                if e['property'] == self.prop:
                    known[e['key']] = e['what']
        new = {k: v for k, v in self.viol.items() if k not in known}
        for k in sorted(self.viol):
            if k in known:
                print('KNOWN-FINDING: property=%s %s [%s]' % (self.prop, known[k], k))
        total = sum(self.obs.values())
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = {
            'property': self.prop, 'tier': self.tier,
            'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': 'other',
            'coverage': {
                'explanation': 'Static analysis of the MIR of the current tree; rule: ' + ' '.join(self.rules),
                'obligations': total,
                'discharged': total - len(self.viol) - self.obs.get('undecided', 0),
                'obligations_by_kind': self.obs,
                'functions_analysed': len(self.analysed),
                'functions': sorted(self.analysed)[:80],
                'samples': self.samples,
                'notes': self.notes,
                'known_findings_reproduced': sorted(k for k in self.viol if k in known),
            },
            'violations': len(new),
            'wall_s': round(time.time() - self.t0, 2),
        }
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w'), indent=1)
        if new:
            rp = os.path.join(VERIF, 'evidence', self.prop + '.violations.json')
            json.dump([{'key': k, 'what': v[0], 'where': v[1]} for k, v in sorted(new.items())], open(rp, 'w'), indent=1)
            for k, v in sorted(new.items()):
                print('  %s: %s %s' % (k, v[0], ('at ' + v[1]) if v[1] else ''))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        print('OK property=%s obligations=%d functions=%d wall=%.1fs' % (self.prop, total, len(self.analysed), time.time() - self.t0))
        return 0


JOBS = None


def _job(i):
    c0, jobs = JOBS
    j = jobs[i]
    c = Ctx(c0.prop, c0.tier)
    c._mir = c0._mir
    sys.setrecursionlimit(20000)
    r = c.part(j[0], j[1], c, *j[2:])
    return r, c.viol, c.obs, c.analysed, c.notes, c.samples


def main(argv):
    import importlib
    prop = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    c = Ctx(prop, tier)
    sys.setrecursionlimit(20000)
    from .checks import REGISTRY
    for modname, fname in REGISTRY[prop]:
        mod = importlib.import_module('psv.checks.' + modname)
        c.part(modname + '.' + fname, getattr(mod, fname), c)
    return c.finish()
