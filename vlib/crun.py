"""Build the C harness against /repo's sources and run sessions in it."""
import os
import json
import subprocess
from concurrent.futures import ThreadPoolExecutor
from . import common
from .common import REPO, CheckError

HERE = os.path.dirname(os.path.abspath(__file__))
C_SRC = [REPO + '/c/detools.c', REPO + '/c/heatshrink/heatshrink_decoder.c']
_built = {}


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode != 0:
        raise CheckError('%s\n%s' % (' '.join(cmd), p.stdout.decode('utf-8', 'replace')[-3000:]))
    return p.stdout


def build(variant='plain', source='harness.c', dynamic=False, config=()):
    """variant: plain or asan; dynamic: the heatshrink decoder on the heap;
    config: what DETOOLS_CONFIG_* switches are given, as (name, value)."""
    key = (variant, source, dynamic, config)
    if key in _built:
        return _built[key]
    out = os.path.join(common.work(), '%s-%s%s' % (source.replace('.c', ''), variant, '-dyn' if dynamic else ''))
    out += ''.join('-%s%d' % (n.split('_')[-1], v) for n, v in config)
    cmd = ['gcc', '-std=gnu99', '-g', '-w', '-I' + REPO + '/c', '-I' + REPO + '/c/heatshrink']
    if variant == 'asan':
        cmd += ['-O1', '-fsanitize=address', '-fno-omit-frame-pointer']
    else:
        cmd += ['-O1']
    if dynamic:
        cmd += ['-DHEATSHRINK_DYNAMIC_ALLOC=1']
    cmd += ['-DDETOOLS_CONFIG_%s=%d' % c for c in config]
    cmd += [os.path.join(HERE, 'c', source)] + C_SRC + ['-llzma', '-o', out]
    sh(cmd)
    _built[key] = out
    return out


def hexs(b):
    return b.hex() if b else '-'


def _run(binary, text, limit):
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=1:allocator_may_return_null=1'
    p = subprocess.run([binary, str(limit)], input=text.encode(), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, env=env)
    return p.stdout.decode('latin-1'), p.stderr.decode('latin-1')


def parse(text, n):
    out = [[] for _ in range(n)]
    cur = None
    for line in text.split('\n'):
        if not line:
            continue
        try:
            e = json.loads(line)
        except ValueError:
            continue        # the last words of a session that was killed
        if e.get('e') == 'session':
            cur = e['i']
        elif cur is not None:
            e.pop('z', None)
            out[cur].append(e)
    return out


def run(scripts, variant='plain', dynamic=False, limit=10, jobs=8, config=()):
    """scripts: list of lists of lines.  Returns one list of events each."""
    binary = build(variant, dynamic=dynamic, config=config)
    n = len(scripts)
    per = max(1, (n + jobs - 1) // jobs)
    parts = [scripts[i:i + per] for i in range(0, n, per)]
    res = []
    errs = ''

    def one(part):
        text = ''.join('S\n' + '\n'.join(s) + '\nE\n' for s in part)
        o, e = _run(binary, text, limit)
        return parse(o, len(part)), e
    with ThreadPoolExecutor(jobs) as ex:
        for evs, e in ex.map(one, parts):
            res += evs
            errs += e
    for r in res:
        if not r:
            raise CheckError('harness gave no events: ' + errs[-500:])
    return res
