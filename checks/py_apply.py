"""C16, C17, C19, C23: the Python package reads patches."""
from vlib import gen, common, tlc, pyrun, csession
from vlib.common import scale
from vlib.gen import NONE, LZMA, CRLE, BZ2, HEATSHRINK, ZSTD, LZ4, CNAMES
from checks import large
from checks.c_apply import damage, bad_bodies, bad_geometries, bad_inp_bodies, related

ALL = list(range(7))
CFG = 'SPECIFICATION Spec\nVIEW Position\n'


class Case:
    """One call of the package: a job, and the session the specification sees."""

    def __init__(self, label, job, session, fill):
        self.label = label
        self.job = job
        self.session = session
        self.fill = fill

    def describe(self):
        return {'label': self.label, 'job': self.job}


def stream_info(kind, patch):
    b = csession.lzma_body(kind, patch, (LZMA, BZ2, ZSTD, LZ4))
    if b is None:
        return [], 'whole'
    plain, end = gen.opaque_plain(patch[0] & 15, b)
    return list(plain), end


def result(r, s):
    if r is None:
        s['res'] = 'dead'
        return
    s['res'] = 'raise' if 'exc' in r else 'ok'


def apply_case(kind, base, patch, label, files=False, skip=0):
    lz, end = stream_info(kind, patch)
    s = {'op': 'apply', 'kind': kind, 'base': list(base), 'patch': list(patch), 'lz': lz, 'lzend': end,
         'ret': 0, 'out': [], 'same': True, 'res': 'ok'}
    if kind == 'seq':
        j = {'op': 'apply', 'kind': 'seq', 'from': base.hex(), 'patch': patch.hex(), 'files': files, 'skip': skip}
    else:
        j = {'op': 'inplace', 'mem': base.hex(), 'patch': patch.hex(), 'files': files}

    def fill(r):
        result(r, s)
        if r is not None:
            s['ret'] = num(r.get('ret', 0))
            s['out'] = list(bytes.fromhex(r['out']))
            s['same'] = r['same']
    return Case('%s %s %s' % (kind, gen.COMPNAME.get(patch[0] & 15 if patch else 99, '?'), label), j, s, fill)


def num(x):
    """Numbers TLC can read."""
    try:
        x = int(x)
    except (TypeError, ValueError):
        return -999999999
    return x if abs(x) < 2 ** 30 else (2 ** 30 if x > 0 else -2 ** 30)


def info_case(kind, patch, label):
    lz, end = stream_info(kind, patch)
    s = {'op': 'info', 'kind': kind, 'base': [], 'patch': list(patch), 'lz': lz, 'lzend': end, 'res': 'ok',
         'info': {'type': ''}}
    j = {'op': 'info', 'patch': patch.hex()}

    def part(v):
        return {'tosize': num(v[0]), 'diffs': [num(x) for x in v[1]], 'extras': [num(x) for x in v[2]],
                'adjs': [num(x) for x in v[3]], 'nbytes': num(v[4]) if v[4] == int(v[4]) else -1}

    def fill(r):
        result(r, s)
        if s['res'] != 'ok':
            return
        try:
            v = r['info']
            hs = v[2] or {}
            f = {'patchsize': num(v[0]), 'comp': CNAMES.get(v[1], 99), 'hw': num(hs.get('window-sz2', 0)),
                 'hl': num(hs.get('lookahead-sz2', 0))}
            if r['kind'] == 'sequential':
                f.update(type='seq', dfsize=num(v[3]), **part(v[6:]))
            elif r['kind'] == 'in-place':
                f.update(type='inp', mem=num(v[3]), seg=num(v[4]), shift=num(v[5]), tosize=num(v[7]),
                         segs=[dict(dfsize=num(x[0]), **part(x[2])) for x in v[8]])
                f['from'] = num(v[6])
            else:
                f['type'] = str(r['kind'])
            s['info'] = f
        except (TypeError, IndexError, KeyError, AttributeError) as e:
            s['info'] = {'type': 'unreadable %s' % e}
    return Case('info %s %s' % (kind, label), j, s, fill)


def conform(R, cases, name, module='TracePy', cfg=CFG, header=None, asan=False, limit=20):
    if not cases:
        return
    try:
        raw = pyrun.run([c.job for c in cases], limit=limit, asan=asan)
    except pyrun.BrokenPackage as e:
        R.violation('%s: the package cannot be imported: %s' % (name, str(e)[-300:]), {})
        return
    for c, r in zip(cases, raw):
        c.fill(r)
    total, rejects = tlc.check_traces(module, cfg, [c.session for c in cases], header=header)
    R.add(states=total.states, transitions=total.transitions,
          traces_validated_against_impl=len(cases) - len(rejects))
    for k in (0, len(cases) // 2):
        R.sample({'case': cases[k].label, 'result': str(raw[k])[:300]})
    for k, i, text in rejects:
        R.violation('%s: %s: %s is not what the specification allows' % (name, cases[k].label, short(raw[k])),
                    dict(cases[k].describe(), result=raw[k]))


def short(r):
    if r is None:
        return 'hanging or crashing'
    r = dict(r)
    for k in ('out', 'patch'):
        if k in r:
            r[k] = r[k][:80]
    return str(r)[:300]


# -- inputs ------------------------------------------------------------------------

def hs_kw(rng):
    if rng.random() < 0.5:
        return {}
    w = rng.randint(4, 15)
    return {'w': w, 'l': rng.randint(3, w - 1)}


def seq_input(rng, comp, n=None):
    f = gen.image(rng, rng.choice([0, 1, 5, 64, 130, 300, rng.randint(0, 500)]))
    n = rng.choice([0, 1, 2, 17, 63, 64, 128, 200, rng.randint(1, 400)]) if n is None else n
    t = related(rng, f, n) if rng.random() < 0.5 and f else gen.image(rng, n)
    kw = {}
    if comp == HEATSHRINK:
        kw = hs_kw(rng)
    if comp == CRLE:
        kw = {'crle_kw': {'zero': True, 'pads': rng.random() < 0.5}}
    p = gen.seq_patch(rng, f, t, comp, rng.random() < 0.3, maxrec=rng.choice([1, 3, 12]), **kw)
    if not t:
        p = gen.seq_header(comp, 0)
    return f, t, p


def boundary_patches(rng, comp, every):
    """Compressed streams that end around a multiple of 4096."""
    out = []
    blob = gen.image(rng, 9000, 'random')
    for k in (1, 2):
        span = {NONE: 4, CRLE: 5, HEATSHRINK: 4, LZMA: 12, BZ2: 30, ZSTD: 6, LZ4: 16}[comp]

        def make(n):
            recs = [(b'', blob[:n], 0)]
            b = gen.body(recs)
            kw = {'prob': 0.0, 'rng': rng} if comp == HEATSHRINK else {}
            if comp == CRLE:
                return gen.seq_header(comp, n) + gen.crle(b)
            if comp == HEATSHRINK:
                return gen.seq_header(comp, n) + gen.heatshrink(b, **kw)
            return gen.seq_header(comp, n) + gen.compress(comp, b)
        lo, hi = 1, 9000
        target = 4096 * k

        def clen(n):
            return len(make(n)) - len(gen.seq_header(comp, n))
        while lo < hi:
            m = (lo + hi) // 2
            if clen(m) < target - span:
                lo = m + 1
            else:
                hi = m
        n = lo
        c = 0
        while clen(n) <= target + span // 2 + 2 and n < 9000:
            if c % every == 0:
                out.append((b'', blob[:n], make(n)))
            n += 1
            c += 1
    return out


def big_records(rng, comp):
    """Records longer than the read and chunk sizes."""
    f = gen.image(rng, 9000, rng.choice(['random', 'text', 'runs']))
    out = []
    for d, e in ((4096, 4096), (4095, 1), (4097, 4097), (8192, 10), (9000, 0), (100, 8193)):
        to = bytes((x + (i % 7 == 0)) & 255 for i, x in enumerate(f[:d])) + gen.image(rng, e, 'text')
        recs = [(bytes((to[i] - f[i]) & 255 for i in range(d)), to[d:], 0)]
        kw = {'w': 11, 'l': 4} if comp == HEATSHRINK else {}
        out.append((f, to, gen.seq_header(comp, len(to)) + gen.compress(comp, gen.body(recs), rng, **kw)))
    return out


def c16(R):
    rng = common.rng('C16')
    C = []
    for n in range(scale(420, 6000)):
        comp = ALL[n % 7]
        f, t, p = seq_input(rng, comp)
        C.append(apply_case('seq', f, p, 'to %d' % len(t), files=n % 3 == 0, skip=5 if n % 5 == 1 and n % 3 else 0))
    for comp in ALL:
        for f, t, p in boundary_patches(rng, comp, scale(2, 1)) + big_records(rng, comp)[::scale(2, 1)]:
            C.append(apply_case('seq', f, p, 'boundary %d' % len(p), files=rng.random() < 0.3))
    conform(R, C, 'C16')
    large.py_apply(R, 'C16', scale(28, 280))


def good_inputs(rng, n):
    for k in range(n):
        yield seq_input(rng, ALL[k % 7], rng.choice([1, 5, 20, 60]))


def wild(kind, p):
    lz, _ = stream_info(kind, p)
    if len(lz) > 20000:
        return True
    return False


def c17(R):
    rng = common.rng('C17')
    C = []

    def add(kind, base, p, label):
        if not wild(kind, p):
            C.append(apply_case(kind, base, p, label, files=rng.random() < 0.25))
    # all truncations
    for f, t, p in good_inputs(rng, scale(9, 70)):
        for a in range(len(p)):
            add('seq', f, p[:a], 'truncated to %d of %d' % (a, len(p)))
        # something behind the end
        for x in (b'\x00', b'\x01', b'abc', b'\x00\x00\x00', b'\x00\x05', b'\x01\x05'):
            add('seq', f, p + x, 'and %s' % x.hex())
        if len(f) > 2:
            add('seq', f[:-1], p, 'short from-image')
            add('seq', f[:len(f) // 2], p, 'short from-image')
    for n in range(scale(6, 40)):
        kind, base, p = inp_input(rng, ALL[n % 7])
        for a in range(0, len(p)):
            add(kind, base, p[:a], 'truncated to %d of %d' % (a, len(p)))
        for x in (b'\x00', b'\x01', b'abc', b'\x00\x00\x00'):
            add(kind, base, p + x, 'and %s' % x.hex())
    # structured damage
    for to in (5, 130):
        for what, b in bad_bodies(to):
            for comp in ALL:
                for frm in (b'', gen.image(rng, 200, 'random')):
                    if not common.THOROUGH and rng.random() < 0.4:
                        continue
                    add('seq', frm, gen.seq_header(comp, to) + gen.compress(comp, b, rng), what)
    for what, b in more_bodies():
        for comp in rng.sample(ALL, scale(3, 7)):
            add('seq', b'0123456789', gen.seq_header(comp, 6) + gen.compress(comp, b, rng), what)
    # headers
    for typ in range(8):
        for comp in range(16):
            if typ != 2:
                for kind in ('seq', 'inp'):
                    add(kind, b'1234', bytes([(typ << 4) | comp]) + gen.size(3) + gen.body([(b'', b'abc', 0)]),
                        'type %d comp %d' % (typ, comp))
    for h in (b'\x00\xff\xff\xff\xff\xff\x01', b'\x00\x80\x80\x80\x80\x00', b'\x00\x43abc', b'', b'\x00', b'\x80\x01',
              b'\x00\x43', b'\x00\x7f\x00', b'\x00\xc3\x00'):
        add('seq', b'12345', h + gen.body([(b'', b'abc', 0)]) if len(h) > 1 else h, 'header ' + h.hex())
        add('seq', b'12345', h, 'header ' + h.hex())
    # CRLE streams
    for raw in (b'\x02\x01a', b'\x00\x05ab', b'\x01\x05', b'\x00\x80\x80\x80\x80\x80\x00', b'\x01\x84\x00a', b'\xff', b'\x00',
                b'\x00\x00', b'\x01\x00a', b'\x01\x00', b'\x00\x80'):
        whole = gen.crle(gen.body([(b'', b'abcd', 0)]))
        for body in (b'', whole[:-2], whole):
            add('seq', b'12345', gen.seq_header(CRLE, 4) + body + raw, 'crle stream')
    for w, l in ((4, 3), (8, 7), (8, 6), (9, 7), (15, 14), (16, 15), (19, 18), (5, 5), (4, 9)):
        st = bytes([((w - 4) << 4) | (l - 3)]) + gen.hs_encode([(0,), (0,), (4,), (65,), (1, 3), (0,)], w, l)
        add('seq', b'12345', gen.seq_header(HEATSHRINK, 4) + st, 'heatshrink %d %d' % (w, l))
    # in-place
    for g in sorted({g for _, g in bad_geometries(rng)}) + PY_GEOS:
        mem, seg, shift, frm, to = g
        for body in (gen.body([(b'', gen.image(rng, min(abs(to), 64)), 0)]), b''):
            p = gen.inp_header(NONE, mem, seg, shift, frm, to) + body
            add('inp', gen.image(rng, max(0, min(1024, mem))), p, 'geometry %s' % (g,))
            add('inp', gen.image(rng, 70), p, 'geometry %s' % (g,))
    for what, b in bad_inp_bodies(32, 8, 8, 24, 20):
        for comp in rng.sample(ALL, scale(3, 7)):
            p = gen.inp_header(comp, 32, 8, 8, 24, 20) + gen.compress(comp, b, rng)
            add('inp', gen.image(rng, 32), p, what)
            add('inp', gen.image(rng, 50), p, what)
    # random damage
    for n in range(scale(420, 9000)):
        if n % 4:
            f, t, p = seq_input(rng, ALL[n % 7])
            kind = 'seq'
        else:
            kind, f, p = inp_input(rng, ALL[n % 7])
        q = damage(rng, p, 0)
        if (q[:1] or b'\0')[0] >> 4 & 7 == 2:
            continue
        add(kind, f, q, 'damaged')
    for n in range(scale(150, 3000)):
        p = bytes([rng.choice([0, 0, 2, 4, 0x10, 0x12, rng.randrange(256)])]) + gen.image(rng, rng.randint(0, 40), 'random' if n % 2 else 'few')
        if p[0] >> 4 & 7 != 2:
            add('inp' if p[0] >> 4 & 7 == 1 else 'seq', gen.image(rng, 64), p, 'random')
    conform(R, C, 'C17')
    from checks import formats
    formats.damaged(R, 'C17', scale(42, 420))


PY_GEOS = [(-32, 8, 8, 8, 8), (32, -8, 8, 8, 8), (32, 8, -8, 8, 8), (32, 8, 8, -8, 8), (32, 8, 8, 8, -8), (32, 0, 8, 8, 8),
           (32, 8, 40, 8, 8), (32, 8, 8, 8, 40), (32, 8, 0, 40, 8)]


def more_bodies():
    """Bodies for a to-image of six bytes and a from-image of ten."""
    s = gen.size

    def b(*recs):
        return gen.body(list(recs))
    z = b'\0' * 8
    return [
        ('back before the start', b((z[:2], b'', -3), (z[:4], b'', 0))),
        ('back before the start at the end', b((z[:6], b'', -7))),
        ('back to the start', b((z[:2], b'', -2), (z[:4], b'', 0))),
        ('past the end', b((z[:2], b'', 5), (z[:4], b'', 0))),
        ('far away', b((z[:2], b'', 5000), (z[:4], b'', 0))),
        ('up to the end', b((z[:2], b'', 4), (z[:4], b'', 0))),
        ('negative diff', b'\0' + s(-1) + s(6) + b'abcdef' + s(0)),
        ('negative diff first', b'\0' + s(0) + s(2) + b'ab' + s(0) + s(-2) + s(6) + b'abcdef' + s(0)),
        ('negative extra', b'\0' + s(3) + z[:3] + s(-3) + s(0) + s(6) + z[:6] + s(0) + s(0)),
        ('long number', b'\0' + b'\x80\x80\x80\x80\x80\x80\x00' + b'\x86\x80\x80\x80\x80\x80\x00' + b'abcdef' + s(0)),
        ('huge adjustment', b'\0' + s(0) + s(6) + b'abcdef' + b'\x80' + b'\xff' * 10 + b'\x01'),
        ('huge diff', b'\0' + b'\x80' + b'\xff' * 10 + b'\x01' + b'abcdef'),
        ('missing adjustment', b'\0' + s(0) + s(6) + b'abcdef'),
        ('one more record', b((b'', b'abcdef', 0), (b'', b'', 0))),
        ('negative data-format size', s(-1) + s(0) + s(6) + b'abcdef' + s(0)),
        ('surplus byte', b((b'', b'abcdef', 0)) + b'\0'),
    ]


# -- in place ----------------------------------------------------------------------

def py_inp_patch(rng, comp, geo=None, from_only=True):
    """A well-formed patch for the Python package: reads the from-image only."""
    mem, seg, shift, frm, to = geo or gen.geometry(rng, rng.random() < 0.7)
    mem0 = gen.image(rng, mem)
    k = max(0, min(frm, mem - shift))
    shifted = bytearray(mem0)
    shifted[shift:shift + k] = mem0[:k]
    target = gen.image(rng, to)
    if rng.random() < 0.5 and k:
        src = mem0[:frm]
        target = (related(rng, src, to) + target)[:to]
    out = bytearray()
    pos = i = 0
    while pos < to:
        end = min(seg * (i + 1), to)
        lo = max(seg * (i + 1), shift)
        hi = max(lo, shift + k)
        fpos = lo
        out += gen.size(0)
        first, n = True, 0
        while pos < end or first:
            first = False
            left = end - pos
            d = max(0, min(rng.choice([0, 1, 2, 64, left, rng.randint(0, left)]), left, hi - fpos if lo <= fpos else 0))
            e = min(rng.choice([0, 1, 64, rng.randint(0, left - d), left - d]), left - d)
            n += 1
            if n > 8 or (d + e == 0 and rng.random() < 0.6):
                e = left - d
            out += gen.size(d) + bytes((target[pos + j] - shifted[fpos + j]) & 255 for j in range(d))
            pos += d
            fpos += d
            out += gen.size(e) + target[pos:pos + e]
            pos += e
            adj = rng.randint(lo, hi) - fpos if rng.random() < 0.8 else 0
            out += gen.size(adj)
            if pos < end:
                fpos += adj
        i += 1
    kw = hs_kw(rng) if comp == HEATSHRINK else {}
    pads = tuple(rng.choice([0, 0, 0, 1, 4]) for _ in range(5))
    p = gen.inp_header(comp, mem, seg, shift, frm, to, pads)
    if to:
        p += gen.compress(comp, bytes(out), rng, **kw)
    return mem0, target, p, (mem, seg, shift, frm, to)


def inp_input(rng, comp, geo=None):
    mem0, t, p, g = py_inp_patch(rng, comp, geo)
    return 'inp', mem0 + gen.image(rng, rng.choice([0, 0, 1, 50])), p


def c19(R):
    rng = common.rng('C19')
    C = []
    for n in range(scale(520, 8000)):
        mem0, t, p, g = py_inp_patch(rng, ALL[n % 7])
        more = gen.image(rng, rng.choice([0, 0, 1, 50]))
        C.append(apply_case('inp', mem0 + more, p, '%s' % (g,), files=n % 3 == 0))
        if n % 4 == 0 and len(mem0):
            k = rng.choice([1, 1, len(mem0), rng.randint(1, len(mem0))])
            C.append(apply_case('inp', mem0[:len(mem0) - k], p, '%s too small by %d' % (g, k), files=n % 3 == 0))
    # all small geometries
    c = 0
    for nm in range(1, scale(3, 5)):
        for seg in (1, 3):
            mem = seg * nm
            for shift in range(0, mem + 1, seg):
                for frm in range(mem + 2):
                    for to in range(0, mem + 1):
                        c += 1
                        mem0, t, p, g = py_inp_patch(rng, NONE if c % 3 else ALL[c % 7], (mem, seg, shift, frm, to))
                        C.append(apply_case('inp', mem0 + b'zz' * (c % 2), p, '%s' % (g,)))
    # larger than the read and chunk sizes
    for n in range(scale(14, 60)):
        seg = rng.choice([4096, 5000, 8192])
        geo = (2 * seg, seg, seg * rng.randint(0, 2), rng.randint(0, 2 * seg), rng.randint(seg, 2 * seg))
        mem0, t, p, g = py_inp_patch(rng, ALL[n % 7] if n % 7 != HEATSHRINK else NONE, geo)
        C.append(apply_case('inp', mem0, p, '%s' % (g,), files=n % 2 == 0))
    conform(R, C, 'C19')
    large.py_inplace(R, 'C19', scale(28, 280))


# -- C23 -----------------------------------------------------------------------------

def c23(R):
    rng = common.rng('C23')
    C = []
    for n in range(scale(500, 8000)):
        comp = ALL[n % 7]
        if n % 2:
            f, t, p = seq_input(rng, comp)
            kind = 'seq'
        else:
            kind, f, p = inp_input(rng, comp)
        C.append(info_case(kind, p, 'well-formed'))
        if n % 10 < 2:
            for a in rng.sample(range(len(p)), min(len(p), scale(6, 30))):
                C.append(info_case(kind, p[:a], 'truncated'))
            for x in (b'\0', b'\1', b'abc', b'\0\0\0'):
                C.append(info_case(kind, p + x, 'and %s' % x.hex()))
    for what, b in more_bodies() + list(bad_bodies(6)):
        for comp in rng.sample(ALL, scale(3, 7)):
            C.append(info_case('seq', gen.seq_header(comp, 6) + gen.compress(comp, b, rng), what))
            C.append(info_case('inp', gen.inp_header(comp, 8, 8, 0, 8, 6) + gen.compress(comp, b, rng), what))
    # every length of a number
    for x in (0, 1, 63, 64, 8191, 8192, 1048575, 1048576, 134217727):
        for sg in (1, -1):
            for pad in (0, 1, 3):
                b = b'\0' + gen.size(0) + gen.size(4, pad) + b'abcd' + gen.size(sg * x, pad)
                C.append(info_case('seq', gen.seq_header(NONE, 4, pad) + b, 'number %d' % x))
        C.append(info_case('inp', gen.inp_header(NONE, max(x, 4), max(x, 4), 0, x, 4) + gen.body([(b'', b'abcd', 5)]), 'number %d' % x))
    for typ in range(8):
        for comp in range(16):
            if typ != 2:
                p = bytes([(typ << 4) | comp]) + gen.size(3) + gen.body([(b'', b'abc', 0)])
                C.append(info_case('inp' if typ == 1 else 'seq', p, 'type %d comp %d' % (typ, comp)))
    conform(R, C, 'C23')
    large.py_info(R, 'C23', scale(21, 140))


CHECKS = {'C16': c16, 'C17': c17, 'C19': c19, 'C23': c23}
