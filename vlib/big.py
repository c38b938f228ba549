"""Sessions at scale: images of hundreds of kilobytes, judged by TraceBig.tla
on runs of equal bytes."""
import bisect
import lzma
import bz2
from . import gen, crun, tlc, common
from .gen import NONE, LZMA, CRLE, BZ2, HEATSHRINK, ZSTD, LZ4

CFG = 'SPECIFICATION Spec\nVIEW Position\n'
LIMIT = 400000          # runs of one session


def runs(b):
    out = []
    i = 0
    n = len(b)
    while i < n:
        v = b[i]
        # gallop
        j = i + 1
        step = 64
        while j < n and b[j] == v:
            if step > 64 and b[j:j + step] == bytes([v]) * len(b[j:j + step]):
                j += len(b[j:j + step])
                step *= 2
                continue
            j += 1
            if j - i > 64 and step == 64:
                step = 128
            elif step > 64:
                step = max(65, step // 2)
        out.append([v, j - i])
        i = j
    return out


def starts(r):
    out = []
    x = 0
    for _, n in r:
        out.append(x)
        x += n
    return out


# -- images -------------------------------------------------------------------

def image(rng, n, style=None):
    style = style or rng.choice(['long', 'mixed', 'const', 'stripes'])
    if style == 'random':
        return rng.randbytes(n)
    if style == 'const':
        return bytes([rng.randrange(256)]) * n
    if style == 'stripes':
        p = b''.join(bytes([rng.randrange(256)]) * rng.choice([40, 100, 127, 128, 129, 255, 256, 300]) for _ in range(7))
        return (p * (n // len(p) + 1))[:n]
    out = bytearray()
    while len(out) < n:
        if style == 'mixed' and rng.random() < 0.4:
            out += gen.image(rng, rng.randint(1, 90))
        else:
            out += bytes([rng.randrange(256)]) * rng.choice([300, 1000, 4095, 4096, 4097, 9000, 33000, 65535, 65536, 65537])
    return bytes(out[:n])


def related(rng, f, n, style=None):
    out = bytearray()
    while len(out) < n:
        if f and rng.random() < (0.3 if style == 'random' else 0.75):
            a = rng.randrange(len(f))
            b = bytearray(f[a:a + rng.choice([100, 4096, 5000, 66000, 70000])])
            for _ in range(rng.choice([0, 0, 3])):
                b[rng.randrange(len(b))] ^= 0x55
            out += b
        else:
            out += image(rng, rng.choice([10, 500, 20000]), style)
    return bytes(out[:n])


def diff(to, frm):
    n = len(to)
    if to == frm:
        return bytes(n)
    return bytes((a - b) & 255 for a, b in zip(to, frm))


def seq_records(rng, f, t, lens=(0, 1, 200, 4096, 33000, 65535, 65536, 65537, 70000), maxrec=40):
    recs = []
    pos = fpos = 0
    while pos < len(t):
        left = len(t) - pos
        d = min(rng.choice(lens), left, max(0, len(f) - fpos))
        e = min(rng.choice(lens), left - d)
        if len(recs) >= maxrec:
            e = left - d
        adj = rng.randint(0, len(f)) - fpos - d
        recs.append((diff(t[pos:pos + d], f[fpos:fpos + d]), t[pos + d:pos + d + e], adj))
        pos += d + e
        fpos += d + adj
    return recs


def compress(comp, data, rng=None, w=8, l=7):
    if comp == HEATSHRINK:
        h = gen.third('heatshrink2')
        return gen.hs_header(w, l) + h.compress(data, window_sz2=w, lookahead_sz2=l)
    if comp == CRLE:
        return crle(data, rng)
    return gen.compress(comp, data, rng)


def crle(data, rng):
    """A legal CRLE stream with long segments of both kinds."""
    out = bytearray()
    for v, n in join(data):
        while n:
            if isinstance(v, bytes):
                out += bytes([0]) + gen.usize(len(v)) + v
                n = 0
            else:
                k = n if rng is None or rng.random() < 0.7 else rng.randint(1, n)
                if rng is not None and rng.random() < 0.15:
                    # a long stretch of the same, written out
                    out += bytes([0]) + gen.usize(k) + bytes([v]) * k
                else:
                    out += bytes([1]) + gen.usize(k) + bytes([v])
                n -= k
    return bytes(out)


def join(data):
    """Runs, the short ones joined to literal stretches."""
    lit = bytearray()
    for v, n in runs(data):
        if n < 6:
            lit += bytes([v]) * n
            continue
        if lit:
            yield bytes(lit), len(lit)
            lit = bytearray()
        yield v, n
    if lit:
        yield bytes(lit), len(lit)


def seq_patch(rng, f, t, comp, recs=None, **kw):
    return gen.seq_header(comp, len(t)) + compress(comp, gen.body(recs or seq_records(rng, f, t)), rng, **kw)


def inp_case(rng, comp, mem, seg, shift, frm, to, lens=(0, 1, 50, 4096, 5000), styles=None, maxrec=10):
    """A safe in-place patch that reads old data only."""
    m0 = image(rng, mem, styles)
    keep = max(0, min(frm, mem - shift))
    t = related(rng, m0[:keep], to, styles)
    out = bytearray()
    pos = i = 0
    while pos < to:
        end = min(seg * (i + 1), to)
        lo = max(seg * (i + 1), shift)
        hi = max(lo, shift + keep)
        fpos = lo
        out += gen.size(0)
        n = 0
        while pos < end:
            left = end - pos
            d = max(0, min(rng.choice(lens + (left,)), left, hi - fpos))
            e = min(rng.choice(lens + (left,)), left - d)
            n += 1
            if n > maxrec:
                e = left - d
            out += gen.size(d) + diff(t[pos:pos + d], m0[fpos - shift:fpos - shift + d])
            out += gen.size(e) + t[pos + d:pos + d + e]
            pos += d + e
            fpos += d
            adj = rng.randint(lo, hi) - fpos
            if hi == lo:
                adj = 0
            out += gen.size(adj)
            fpos += adj
        i += 1
    return m0, t, gen.inp_header(comp, mem, seg, shift, frm, to) + compress(comp, bytes(out), rng)


# -- reading patches (what is claimed here is verified by the specification) ----

def fields(kind, patch):
    nums = []
    i = 1
    for _ in range(1 if kind == 'seq' else 5):
        j = i
        while j < len(patch) and patch[j] & 128:
            j += 1
        x = patch[i] & 63 if i < len(patch) else 0
        m = 6
        for b in patch[i + 1:j + 1]:
            x |= (b & 127) << m
            m += 7
        nums.append(-x if i < len(patch) and patch[i] & 64 else x)
        i = j + 1
    return nums, i


def un_crle(b):
    out = bytearray()
    i = 0
    while i < len(b):
        k = b[i]
        i += 1
        n = m = 0
        while True:
            n |= (b[i] & 127) << m
            m += 7
            i += 1
            if not b[i - 1] & 128:
                break
        if k == 0:
            out += b[i:i + n]
            i += n
        else:
            out += b[i:i + 1] * n
            i += 1
    return bytes(out)


def un_hs(b):
    w, l = (b[0] >> 4) + 4, (b[0] & 15) + 3
    x = int.from_bytes(b[1:], 'big')
    n = 8 * (len(b) - 1)
    bits = bin(x)[2:].zfill(n) if n else ''
    out = bytearray()
    i = 0
    while i < n:
        if bits[i] == '1':
            if i + 9 > n:
                break
            out.append(int(bits[i + 1:i + 9], 2))
            i += 9
        else:
            if i + 1 + w + l > n:
                break
            d = int(bits[i + 1:i + 1 + w], 2) + 1
            k = int(bits[i + 1 + w:i + 1 + w + l], 2) + 1
            i += 1 + w + l
            if d > len(out):
                z = min(k, d - len(out))
                out += bytes(z)
                k -= z
            if k > 0:
                if d >= k:
                    out += out[-d:len(out) - d + k]
                else:
                    part = bytes(out[-d:])
                    out += (part * (k // d + 1))[:k]
    return bytes(out)


def plain(kind, patch):
    """The plain body of a patch (nothing if it cannot be read)."""
    comp = patch[0] & 15
    try:
        b = patch[fields(kind, patch)[1]:]
        if comp == NONE:
            return b''
        if comp == CRLE:
            return un_crle(b)
        if comp == HEATSHRINK:
            return un_hs(b)
        out, end = gen.opaque_plain(comp, b) if comp != ZSTD else zplain(b)
        return out if end == 'whole' else b''
    except Exception:
        return b''


def zplain(b):
    d = gen.third('zstandard').ZstdDecompressor().decompressobj()
    out = d.decompress(b)
    return (out, 'whole') if d.eof and not d.unused_data else (b'', 'broken')


# -- sessions -------------------------------------------------------------------

class Case:
    def __init__(self, label, kind, base, patch, **more):
        self.label = label
        self.kind = kind
        self.base = base
        self.patch = patch
        self.img = b''
        self.res = -1
        self.log = []
        self.info = []
        self.comp = -1
        self.geo = []
        self.hs = []
        self.want = -1
        self.more = more

    def session(self):
        if self.kind == 'bs':
            return self.bsdiff()
        r = {'patch': runs(self.patch), 'plain': runs(plain(self.kind, self.patch)), 'base': runs(self.base),
             'img': runs(self.img)}
        if any(len(x) > LIMIT for x in r.values()):
            raise common.CheckError('%s: too many runs' % self.label)
        r.update(kind=self.kind, bst=starts(r['base']), pst=starts(r['plain']), res=self.res, log=self.log, info=self.info,
                 comp=self.comp, geo=self.geo, hs=self.hs)
        return r

    def bsdiff(self):
        """The three blocks of a BSDIFF40 patch; what cannot be read is empty."""
        import bz2
        p, at, plain, sizes = self.patch, 32, [], []
        ends = [int.from_bytes(p[i:i + 8], 'little') for i in (8, 16)] + [len(p)]
        for n in ends:
            b = p[at:at + n]
            at += n
            sizes.append(len(b))
            d = bz2.BZ2Decompressor()
            try:
                x = d.decompress(b)
                plain.append(x if d.eof and not d.unused_data else b'')
            except (OSError, ValueError):
                plain.append(b'')
        r = {'patch': runs(plain[0]), 'plain': runs(plain[1]), 'extra': runs(plain[2]), 'base': runs(self.base), 'img': runs(self.img)}
        if any(len(x) > LIMIT for x in r.values()):
            raise common.CheckError('%s: too many runs' % self.label)
        r.update(kind='bs', head=list(p[:32]), sizes=sizes[:2], bst=starts(r['base']), res=self.res, want=self.want)
        return r

    def describe(self):
        return dict(self.more, label=self.label, kind=self.kind, patch=self.patch.hex()[:200000],
                    base_runs=runs(self.base)[:2000], result=self.res)


def judge(R, cases, name, timeout=800):
    """cases with their outcome filled in."""
    if not cases:
        return
    total, rejects = tlc.check_traces('TraceBig', CFG, [c.session() for c in cases], timeout=timeout, heap='12g')
    R.add(states=total.states, transitions=total.transitions,
          traces_validated_against_impl=len(cases) - len(rejects), sessions_at_scale=len(cases))
    R.sample({'at scale': cases[0].label, 'patch': len(cases[0].patch), 'image': len(cases[0].img)})
    for k, i, text in rejects:
        import re
        m = re.search(r'tpos \|-> (\d+)', tlc.last_state(text))
        R.violation('%s: %s: result %s, after %s bytes of the image this is not what the patch describes'
                    % (name, cases[k].label, cases[k].res, m.group(1) if m else '?'), cases[k].describe())


# -- the C library --------------------------------------------------------------

def c_lines(case, steps=True):
    return ['i 0 %s %s' % (crun.hexs(case.base), crun.hexs(case.patch))]


def init(case, steps=True):
    return 'I 0 s -1' if case.kind == 'seq' else 'I 0 p -1 %d' % (1 if steps else 0)


def outcome(case, evs):
    """What the environment of a session ends up with: the to-stream is cut
    at the offset a restored object reports."""
    sink = bytearray()
    fed = 0
    slots = {}
    for e in evs:
        if e['e'] == 'I':
            sink, fed = bytearray(), 0
        elif e['e'] in 'pfc':
            sink += bytes.fromhex(e['w'])
            fed += e.get('n', 0)
            if e['e'] in 'fc' and e['fault'] != 'X':
                case.res = e['res']
        elif e['e'] == 'd':
            slots[e['slot']] = (fed, bytes(sink)) if e['res'] == 0 else (-1, b'')
        elif e['e'] == 'r':
            case.log.append([slots[e['slot']][0], len(slots[e['slot']][1]), e['po'] if e['res'] == 0 else -2, e['to']])
            sink = bytearray(slots[e['slot']][1][:e['to']])
            fed = e['po']
        elif e['e'] == 'm' and case.kind == 'inp':
            case.img = bytes.fromhex(e['img'])[:fields('inp', case.patch)[0][4]]
    if case.kind == 'seq':
        case.img = bytes(sink)


def run_c(R, cases, name, variant='plain', limit=60):
    """cases: Case with .more['script']."""
    raw = crun.run([c.more['script'] for c in cases], variant=variant, limit=limit)
    keep = []
    for c, evs in zip(cases, raw):
        killed = [e for e in evs if e['e'] == 'killed']
        if killed:
            again = crun.run([c.more['script']], variant=variant, limit=limit * 2)[0]
            killed = [e for e in again if e['e'] == 'killed']
            if killed:
                what = 'does not terminate' if killed[0]['sig'] == 14 else 'crashes (signal %d)' % killed[0]['sig']
                c.more['script'] = [l[:300] for l in c.more['script']]
                R.violation('%s: %s: the library %s' % (name, c.label, what), c.describe())
                continue
            evs = again
        outcome(c, evs)
        c.more['script'] = [l[:300] for l in c.more['script']]
        keep.append(c)
    judge(R, keep, name)


def chunks(rng, n):
    out = []
    while n:
        k = min(n, rng.choice([1, 100, 512, 4096, 5000, 20000, 65535, 65536, 70000, n]))
        out.append(k)
        n -= k
    return out
