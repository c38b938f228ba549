"""Run TLC."""
import os
import re
import json
import shutil
import subprocess
import tempfile
from . import common
from .common import SPEC, CheckError

JAR = ('/opt/veriftools/tla/tla2tools.jar:'
       '/opt/veriftools/tla/CommunityModules-deps.jar')


class Result:
    def __init__(self, rc, text, wall):
        self.rc = rc
        self.text = text
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', text)
        ms = re.findall(r'(\d+) states generated[^,]*, (\d+) distinct states found', text)
        self.transitions = int(ms[-1][0]) if ms else 0
        self.states = int(ms[-1][1]) if ms else 0

    @property
    def ok(self):
        return self.rc == 0

    @property
    def violated(self):
        # 10 assumption, 11 deadlock, 12 safety, 13 liveness
        return self.rc in (10, 11, 12, 13)

    @property
    def undefined(self):
        """The specification has no value for what was recorded."""
        return (self.rc in (75, 76) or self.rc == 255 and 'when TLC was evaluating the nested' in self.text) and 'StackOverflow' not in self.text and 'OutOfMemory' not in self.text

    def lines(self, prefix):
        return [l for l in self.text.split('\n') if l.startswith(prefix)]


def run(module, cfg, consts=None, workers=8, heap='8g', stack='256m', timeout=800,
        data=None, deadlock=True, extra=(), partial=False):
    """module: name in spec/; cfg: text of the configuration.  data: object
    written as JSON to the file named by IOEnv/`Data` constant."""
    import time
    d = tempfile.mkdtemp(prefix='tlc-', dir=common.work())
    for f in os.listdir(SPEC):
        if f.endswith('.tla'):
            shutil.copy(os.path.join(SPEC, f), d)
    env = dict(os.environ)
    if data is not None:
        path = os.path.join(d, 'data.json')
        with open(path, 'w') as f:
            json.dump(data, f)
        env['TRACE_DATA'] = path
    env['TLC_OUT'] = os.path.join(d, 'out.json')
    with open(os.path.join(d, module + '.cfg'), 'w') as f:
        f.write(cfg)
    os.mkdir(os.path.join(d, 'tmp'))
    cmd = ['java', '-Djava.io.tmpdir=' + os.path.join(d, 'tmp'), '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss' + stack, '-cp', JAR,
           'tlc2.TLC', '-config', module + '.cfg', '-workers', str(workers),
           '-metadir', os.path.join(d, 'states'), '-noGenerateSpecTE'] + list(extra)
    if not deadlock:
        cmd.append('-deadlock')
    cmd.append(module + '.tla')
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError('TLC timed out on ' + module)
    r = Result(p.returncode, p.stdout.decode('utf-8', 'replace'), time.time() - t)
    r.wall = time.time() - t
    r.out = None
    if os.path.exists(env['TLC_OUT']):
        r.out = env['TLC_OUT']
        r.out_text = open(r.out).read()
    shutil.rmtree(d, True)
    if not (r.ok or r.violated or partial and r.undefined):
        raise CheckError('TLC failed on %s (rc %d)\n%s' % (module, r.rc, r.text[-4000:]))
    return r


def last_state(text):
    """Variables of the last state of the printed counterexample."""
    blocks = re.split(r'\nState \d+: ', text)
    if len(blocks) < 2:
        return ''
    return blocks[-1]


def rejected(text):
    """(session index, event index) of the last state in a trace check."""
    st = last_state(text)
    s = re.search(r'/\\ s = (\d+)', st)
    i = re.search(r'/\\ i = (\d+)', st)
    if not s:
        m = re.search(r'/\\ s = (\d+)', text)
        return (int(m.group(1)) if m else None), None
    return int(s.group(1)), int(i.group(1)) if i else None


def _find(module, cfg, sessions, header, alive, kw):
    """1-based position in alive of a session whose first state is undefined."""
    lo, hi = 0, len(alive)
    while hi - lo > 1:
        mid = (lo + hi) // 2
        data = dict(header or {})
        data['sessions'] = [sessions[j] for j in alive[lo:mid]]
        r = run(module, cfg, data=data, partial=True, **kw)
        if r.ok:
            lo = mid
        else:
            hi = mid
    return lo + 1 if hi > lo else None


def check_traces(module, cfg, sessions, header=None, max_rejects=int(os.environ.get('VERIF_REJECTS', '3')), **kw):
    """Check recorded sessions.  Returns (results, rejects) with rejects =
    list of (session index, event index, TLC text)."""
    alive = list(range(len(sessions)))
    rejects = []
    total = None
    while alive:
        data = dict(header or {})
        data['sessions'] = [sessions[j] for j in alive]
        r = run(module, cfg, data=data, partial=True, **kw)
        if total is None:
            total = r
        else:
            total.states += r.states
            total.transitions += r.transitions
        if r.ok:
            break
        s, i = rejected(r.text)
        if s is None and r.undefined:
            s = _find(module, cfg, sessions, header, alive, kw)
        if s is None:
            raise CheckError('cannot parse TLC output\n' + r.text[-3000:])
        rejects.append((alive[s - 1], i, r.text[-6000:]))
        del alive[s - 1]
        if len(rejects) >= max_rejects:
            break
    return total, rejects
