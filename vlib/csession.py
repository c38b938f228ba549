"""Sessions with the C library: scripts, and recordings in the form the trace
specification TraceC.tla reads."""
from . import gen, crun, tlc, common


class Env:
    def __init__(self, kind, base, patch, steps=True, hw=8, hl=7, declared=None):
        self.kind = kind
        self.base = base
        self.patch = patch
        self.steps = steps
        self.hw = hw
        self.hl = hl
        self.lib = [0, 1, 2, 4]     # the compressions built in

    def json(self):
        lz = b''
        bad = False
        body = lzma_body(self.kind, self.patch)
        if body is not None:
            lz, bad = lzma_plain(body)
        return {'kind': self.kind, 'base': list(self.base), 'patch': list(self.patch),
                'lz': list(lz), 'lzbad': bad, 'hw': self.hw, 'hl': self.hl,
                'steps': self.steps, 'lib': self.lib}


def lzma_body(kind, patch, comps=(gen.LZMA,)):
    """Where the LZMA stream of a patch starts (None if there is none)."""
    if not patch or (patch[0] & 15) not in comps:
        return None
    i = 1
    for _ in range(1 if kind == 'seq' else 5):
        while i < len(patch) and patch[i] & 0x80:
            i += 1
        i += 1
    if i > len(patch):
        return None
    return patch[i:]


def lzma_plain(stream):
    """All plain bytes a stream yields; whether it is damaged."""
    import lzma
    d = lzma.LZMADecompressor(format=lzma.FORMAT_ALONE)
    out = bytearray()
    try:
        out += d.decompress(stream)
        return bytes(out), not d.eof or bool(d.unused_data)
    except lzma.LZMAError:
        pass
    except EOFError:
        return bytes(out), False
    d = lzma.LZMADecompressor(format=lzma.FORMAT_ALONE)
    out = bytearray()
    for b in stream:
        try:
            if d.eof:
                break
            out += d.decompress(bytes([b]))
        except lzma.LZMAError:
            break
    return bytes(out), True


class Session:
    def __init__(self, envs, label=''):
        self.envs = envs
        self.lines = []
        self.label = label
        for k, e in enumerate(envs):
            self.lines.append('i %d %s %s' % (k, crun.hexs(e.base), crun.hexs(e.patch)))

    def init(self, k=0):
        e = self.envs[k]
        if e.kind == 'seq':
            self.lines.append('I %d s -1' % k)
        else:
            self.lines.append('I %d p -1 %d' % (k, 1 if e.steps else 0))
        return self

    def feed(self, sizes, k=0):
        for n in sizes:
            self.lines.append('p %d %d' % (k, n))
        return self

    def fin(self, k=0):
        self.lines.append('f %d' % k)
        return self

    def line(self, text):
        self.lines.append(text)
        return self

    def pull(self, k=0):
        e = self.envs[k]
        self.lines.append('c %d %s %d' % (k, 's' if e.kind == 'seq' else 'p', 1 if e.steps else 0))
        return self

    def describe(self):
        return {'label': self.label, 'script': self.lines}


def events(raw):
    """Harness events -> trace events."""
    out = []
    for e in raw:
        if e['e'] == 'session':
            continue
        e = dict(e)
        if e['e'] == 'm':
            e['img'] = list(bytes.fromhex(e['img']))
        else:
            e['w'] = list(bytes.fromhex(e.get('w', '')))
            ops = []
            for op in e.get('ops', []):
                if op[0] in ('w', 'c'):
                    op = [op[0], op[1], list(bytes.fromhex(op[2]))]
                ops.append(op)
            e['ops'] = ops
        e.setdefault('n', 0)
        e.setdefault('frv', 0)
        out.append(e)
    return out


CFG = '''SPECIFICATION Spec
INVARIANT SuccessIsComplete
VIEW Position
CONSTANTS
  Rules = {%s}
  Exact = %s
  Dynamic = %s
'''


def record(report, sessions, dynamic=False, variant='plain', limit=10, config=()):
    """Run sessions on the real code.  Returns the sessions that came to an end
    and their recordings."""
    scripts = [s.lines for s in sessions]
    raw = crun.run(scripts, variant=variant, dynamic=dynamic, limit=limit, config=config)
    recs = []
    keep = []
    sure = 0
    for s, r in zip(sessions, raw):
        killed = [e for e in r if e['e'] == 'killed']
        if killed and sure >= 4:
            continue        # enough of them have been shown
        if killed:
            # again, with more time, to be sure
            again = crun.run([s.lines], variant=variant, dynamic=dynamic, limit=limit * 3, config=config)[0]
            killed = [e for e in again if e['e'] == 'killed']
            if killed:
                sure += 1
                what = ('does not terminate' if killed[0]['sig'] == 14
                        else 'crashes (signal %d)' % killed[0]['sig'])
                report.violation('%s: the library %s' % (s.label, what), s.describe())
                continue
            r = again
        recs.append({'env': [e.json() for e in s.envs], 'ev': events(r)})
        keep.append(s)
    return keep, recs


def conform(report, sessions, rules=(), exact=False, dynamic=False, variant='plain',
            name='', limit=10, samples=2):
    """Run sessions on the real code, check the recordings with TLC."""
    if not sessions:
        return
    keep, recs = record(report, sessions, dynamic, variant, limit)
    return judge(report, keep, recs, rules, exact, dynamic, name, samples)


def judge(report, keep, recs, rules=(), exact=False, dynamic=False, name='', samples=2):
    if not recs:
        return
    cfg = CFG % (', '.join('"%s"' % r for r in rules), 'TRUE' if exact else 'FALSE',
                 'TRUE' if dynamic else 'FALSE')
    total, rejects = tlc.check_traces('TraceC', cfg, recs)
    report.add(states=total.states, transitions=total.transitions,
               traces_validated_against_impl=len(recs) - len(rejects))
    for j in range(min(samples, len(keep))):
        report.sample({'session': keep[j].label, 'script': [l[:160] for l in keep[j].lines[:8]],
                       'events': len(recs[j]['ev'])})
    for j, i, text in rejects:
        ev = recs[j]['ev'][i - 1] if i and i <= len(recs[j]['ev']) else None
        report.violation('%s %s: event %s is no behaviour of the specification: %s'
                         % (name, keep[j].label, i, str(ev)[:300]),
                         {'session': keep[j].describe(), 'event': i, 'what': ev})
    return recs
