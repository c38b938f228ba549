import os
import sys
import json
import time
import random
import shutil
import tempfile
import atexit

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
VENV = '/opt/detools/venv/bin/python3'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'

_work = None


def work():
    """A scratch directory of this run, removed at exit."""
    global _work
    if _work is None:
        _work = tempfile.mkdtemp(prefix='verif-')
        atexit.register(shutil.rmtree, _work, True)
    return _work


def rng(*salt):
    return random.Random('%d/%s' % (SEED, '/'.join(map(str, salt))))


def scale(quick, thorough):
    return thorough if THOROUGH else quick


class CheckError(Exception):
    """The check itself could not be carried out."""


class Report:
    def __init__(self, prop, level='model_checking'):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0,
                    'samples': []}
        self.assumptions = []
        self.violations = []

    def add(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def sample(self, s, limit=6):
        if len(self.cov['samples']) < limit:
            s = json.dumps(s, default=str) if not isinstance(s, str) else s
            self.cov['samples'].append(s[:1500])

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def violation(self, what, replay):
        """what: one line; replay: JSON-able description that reproduces it."""
        self.violations.append((what, replay))

    def known(self):
        path = os.path.join(VERIF, 'known-findings.txt')
        out = []
        if os.path.exists(path):
            for line in open(path):
                line = line.strip()
                if line.startswith('KNOWN ') or line.startswith('known:'):
                    out.append(line)
        return out

    def finish(self):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = {'property': self.prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick',
              'seed': SEED, 'level': self.level, 'coverage': self.cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.violations)}
        if not self.cov['samples']:
            self.cov['samples'].append('none')
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for n, (what, replay) in enumerate(self.violations[:5]):
            d = os.path.join(VERIF, 'build', 'replay')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s-%d.json' % (self.prop, n))
            with open(path, 'w') as f:
                json.dump({'property': self.prop, 'what': what, 'replay': replay}, f,
                          indent=1, default=str)
            print('# ' + what)
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
        sys.stdout.flush()
        if not self.violations:
            print('ok property=%s %s' % (self.prop, json.dumps(
                {k: v for k, v in self.cov.items() if k != 'samples'})))
        return 1 if self.violations else 0
