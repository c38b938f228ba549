"""C15, C18, C20, C21, C22, C24, C26: the Python package creates patches."""
import bz2
from itertools import product
from vlib import gen, common, tlc, pyrun, csession, crun
from vlib.common import scale
from vlib.gen import NONE, LZMA, CRLE, BZ2, HEATSHRINK, ZSTD, LZ4
from checks import models, large
from checks.c_apply import related
from checks.py_apply import ALL, Case, conform, result, stream_info, apply_case, num

ALGS = ('sais', 'divsufsort')


# -- image pairs ----------------------------------------------------------------

def mutate(rng, f):
    """An edited version of f: changed, inserted, removed and moved pieces."""
    b = bytearray(f)
    for _ in range(rng.randint(1, 6)):
        r = rng.random()
        a = rng.randint(0, len(b))
        k = rng.choice([1, 1, 2, 4, 9, 20, 60])
        if r < 0.35:
            for i in range(a, min(a + k, len(b)), rng.choice([1, 3])):
                b[i] = (b[i] + rng.choice([1, 4, 255, 128])) & 255
        elif r < 0.55:
            b[a:a] = gen.image(rng, k)
        elif r < 0.75:
            del b[a:a + k]
        else:
            part = b[a:a + 3 * k]
            del b[a:a + 3 * k]
            c = rng.randint(0, len(b))
            b[c:c] = part
    return bytes(b)


def pair(rng, top=400):
    f = gen.image(rng, rng.choice([0, 1, 2, 7, 8, 9, 30, 64, 128, 300, rng.randint(0, top)]))
    r = rng.random()
    if r < 0.4:
        t = mutate(rng, f)
    elif r < 0.5:
        t = f
    elif r < 0.75 and f:
        t = related(rng, f, rng.randint(0, top))
    elif r < 0.8:
        t = b''
    elif r < 0.87:
        # the to-image starts or ends in the middle of the from-image
        t = f[rng.randint(0, len(f)):] + gen.image(rng, rng.randint(0, 20)) + f[:rng.randint(0, len(f))]
    else:
        t = gen.image(rng, rng.choice([1, 8, 64, rng.randint(0, top)]))
    return f, t


def small_pairs(rng, n, more):
    words = [bytes(w) for k in range(n + 1) for w in product(b'\0\1', repeat=k)]
    allp = [(a, b) for a in words for b in words]
    return allp if len(allp) <= more else rng.sample(allp, more)


def blocky_pairs(rng, count):
    """Permutations of blocks longer than the eight bytes a match must win by."""
    for _ in range(count):
        k = rng.randint(2, 5)
        style = rng.choice(['random', 'few', 'runs'])
        blocks = [gen.image(rng, rng.choice([8, 9, 10, 16, 17, 33, 70]), style) for _ in range(k)]
        f = b''.join(blocks)
        t = b''
        for _ in range(rng.randint(1, 6)):
            b = bytearray(rng.choice(blocks))
            for _ in range(rng.choice([0, 0, 1, 3])):
                b[rng.randrange(len(b))] ^= rng.choice([1, 255])
            a = rng.choice([0, 0, rng.randrange(len(b))])
            t += bytes(b[a:]) + (gen.image(rng, rng.randint(1, 12)) if rng.random() < 0.3 else b'')
        yield f, t


# -- C15 ----------------------------------------------------------------------------

def create_case(f, t, comp, label='', files=False, hs=None, **kw):
    w, l = hs or (8, 7)
    kw = dict(kw, compression=gen.COMPNAME[comp])
    if hs:
        kw.update(heatshrink_window_sz2=w, heatshrink_lookahead_sz2=l)
    s = {'op': 'create', 'kind': 'seq', 'base': list(f), 'to': list(t), 'comp': comp, 'hw': w, 'hl': l,
         'patch': [], 'lz': [], 'lzend': 'whole', 'same': True, 'res': 'ok'}

    def fill(r):
        result(r, s)
        if r is not None:
            s['same'] = r.get('same', True)
            p = bytes.fromhex(r.get('patch') or '')
            s['patch'] = list(p)
            s['lz'], s['lzend'] = stream_info('seq', p)
    return Case('create %s %d->%d %s %s' % (gen.COMPNAME[comp], len(f), len(t), kw.get('suffix_array_algorithm', ''), label),
                {'op': 'create', 'from': f.hex(), 'to': t.hex(), 'files': files, 'kw': kw}, s, fill)


def hs_params(rng):
    r = rng.random()
    if r < 0.4:
        return None
    w = rng.randint(4, 15)
    return w, rng.randint(3, w - 1)


def big_pairs(rng, count, top):
    for k in range(count):
        f = gen.image(rng, rng.randint(top // 2, top), ['random', 'text', 'runs'][k % 3])
        t = f
        for _ in range(4):
            t = mutate(rng, t)
        yield f, t[:top]


def c15(R):
    rng = common.rng('C15')
    C = []

    def add(f, t, comp, label=''):
        k = len(C)
        C.append(create_case(f, t, comp, label, files=k % 3 == 0, hs=hs_params(rng) if comp == HEATSHRINK else None,
                             suffix_array_algorithm=ALGS[k // 3 % 2], use_mmap=k // 6 % 2 == 0))
    for n in range(scale(700, 9000)):
        f, t = pair(rng)
        add(f, t, ALL[n % 7])
    for n, (f, t) in enumerate(blocky_pairs(rng, scale(250, 4000))):
        add(f, t, ALL[n % 7], 'blocks')
    for n, (f, t) in enumerate(small_pairs(rng, 4, scale(400, 10000))):
        add(f, t, NONE if n % 3 else ALL[n % 7], 'small')
    for w in range(4, 16):
        for l in range(3, w):
            for k in range(scale(1, 6)):
                f, t = pair(rng, 200)
                C.append(create_case(f, t + b'x', HEATSHRINK, '%d %d' % (w, l), hs=(w, l)))
    for n, (f, t) in enumerate(big_pairs(rng, scale(7, 35), scale(12000, 40000))):
        add(f, t, ALL[n % 7], 'big')
    conform(R, C, 'C15', limit=60)
    large.py_create(R, 'C15', scale(28, 210))


# -- C18 ----------------------------------------------------------------------------

def inplace_case(f, t, comp, mem, seg, minshift, label='', files=False, hs=None, **kw):
    w, l = hs or (8, 7)
    kw = dict(kw, compression=gen.COMPNAME[comp], patch_type='in-place', memory_size=mem, segment_size=seg)
    if minshift is not None:
        kw['minimum_shift_size'] = minshift
    if hs:
        kw.update(heatshrink_window_sz2=w, heatshrink_lookahead_sz2=l)
    s = {'op': 'createinp', 'kind': 'inp', 'base': list((f + bytes(max(0, mem - len(f))))[:max(0, mem)]),
         'fromlen': len(f), 'to': list(t), 'comp': comp, 'hw': w, 'hl': l, 'mem': mem, 'seg': seg,
         'minshift': 2 * seg if minshift is None else minshift,
         'patch': [], 'lz': [], 'lzend': 'whole', 'same': True, 'res': 'ok'}

    def fill(r):
        result(r, s)
        if r is not None:
            s['same'] = r.get('same', True)
            p = bytes.fromhex(r.get('patch') or '')
            s['patch'] = list(p)
            s['lz'], s['lzend'] = stream_info('inp', p)
    return Case('create in-place %s %d->%d memory %d segment %d shift %s %s'
                % (gen.COMPNAME[comp], len(f), len(t), mem, seg, minshift, label),
                {'op': 'create', 'from': f.hex(), 'to': t.hex(), 'files': files, 'kw': kw}, s, fill)


def geometry(rng):
    seg = rng.choice([1, 2, 3, 8, 16, 64, 100, 256])
    segs = rng.randint(1, 12)
    mem = seg * segs
    shift = seg * rng.choice([0, 1, 1, 2, segs, rng.randint(0, segs)])
    return mem, seg, None if rng.random() < 0.15 else min(shift, mem)


def c18(R):
    rng = common.rng('C18')
    models.expect(R, 'MCShift', 'SPECIFICATION Spec\nINVARIANT Sound\nCONSTANTS MaxMem = %d\n' % scale(12, 24), True, 'shift sizes')
    C = []

    def add(f, t, mem, seg, shift, label=''):
        k = len(C)
        comp = ALL[k % 7]
        C.append(inplace_case(f, t, comp, mem, seg, shift, label, files=k % 4 == 0,
                              hs=hs_params(rng) if comp == HEATSHRINK else None,
                              suffix_array_algorithm=ALGS[k // 3 % 2], use_mmap=k // 6 % 2 == 0))
    for n in range(scale(750, 9000)):
        mem, seg, shift = geometry(rng)
        f = gen.image(rng, min(mem, rng.choice([mem, mem - 1, 0, 1, seg, rng.randint(0, mem), rng.randint(0, mem)])) if mem else 0)
        t = mutate(rng, f) if n % 3 else related(rng, f, rng.randint(0, mem))
        t = t[:mem]
        add(f, t, mem, seg, shift)
    # the from-image is needed near the edge of what is still there
    for n in range(scale(250, 4000)):
        seg = rng.choice([16, 20, 32])
        segs = rng.randint(2, 6)
        mem = seg * segs
        f = gen.image(rng, mem - seg * rng.randint(0, segs - 1) - rng.choice([0, 0, 1, seg // 2]), 'random')
        k = rng.choice([0, 1, 2, 3, seg - 1, seg, seg + 1, rng.randint(0, mem)])
        t = {0: gen.image(rng, k, 'few') + f, 1: f[k:] + gen.image(rng, k), 2: f[k:] + f[:k], 3: f[::-1]}[n % 4][:mem]
        add(f, t, mem, seg, rng.choice([0, seg, 2 * seg if segs > 1 else seg, mem]), 'edge')
    # all small geometries, possible and impossible ones
    for mem in range(0, scale(7, 10)):
        for seg in (-1, 0, 1, 2, 3, 4):
            for shift in sorted({None, -1, 0, 1, 2, 3, 4, mem, mem + 1, mem + seg}, key=lambda x: -9 if x is None else x):
                for fl in sorted({0, 1, mem - 1, mem, mem + 1, mem + 3}):
                    for tl in sorted({0, 1, mem // 2, mem, mem + 1}):
                        if fl < 0 or (not common.THOROUGH and rng.random() < 0.8):
                            continue
                        f = gen.image(rng, fl, 'few')
                        t = (f * 3 + b'abcdefghij')[rng.randint(0, fl):][:tl]
                        add(f, t, mem, seg, shift, 'small')
    for n in range(scale(30, 200)):
        # not a multiple, too large, too small
        seg = rng.choice([8, 10])
        mem, shift, fl, tl = [(8 * seg + 1, seg, 20, 20), (8 * seg, seg + 1, 20, 20), (8 * seg, seg, 20, 8 * seg + 1),
                              (8 * seg, 9 * seg, 20, 20), (8 * seg, seg, 8 * seg + 1, 30), (8 * seg, -seg, 20, 20),
                              (8 * seg, 8 * seg, 8 * seg, 8 * seg)][n % 7]
        f = gen.image(rng, fl)
        add(f, (f + gen.image(rng, tl))[:tl], mem, seg, shift, 'edge of the possible')
    for n in range(scale(4, 20)):
        seg = rng.choice([2048, 4096])
        f = gen.image(rng, rng.randint(seg, 3 * seg), ['random', 'text', 'runs'][n % 3])
        add(f, mutate(rng, mutate(rng, f))[:4 * seg], 4 * seg, seg, seg * rng.randint(0, 2), 'big')
    conform(R, C, 'C18', limit=60)
    large.py_create_inplace(R, 'C18', scale(21, 140))


# -- C20 ----------------------------------------------------------------------------

def block_info(b):
    """The plain bytes of a bzip2 block and how it ends."""
    d = bz2.BZ2Decompressor()
    out = bytearray()
    try:
        for i in range(len(b)):
            if d.eof:
                return bytes(out), 'open'
            out += d.decompress(b[i:i + 1])
    except OSError:
        return bytes(out), 'broken'
    return bytes(out), 'whole' if d.eof else 'broken'


def bs_fields(p):
    def num8(i):
        v = int.from_bytes(p[i:i + 8], 'little')
        return -(v & (1 << 63) - 1) if v >> 63 else v
    s = {'patch': list(p), 'ctrl': [], 'diff': [], 'extra': [], 'ctrlend': 'whole', 'diffend': 'whole', 'extraend': 'whole',
         'cut': [0, 0]}
    if len(p) < 32:
        return s
    left = len(p) - 32
    c = min(max(num8(8), 0), left)
    d = min(max(num8(16), 0), left - c)
    s['cut'] = [c, d]
    for name, b in (('ctrl', p[32:32 + c]), ('diff', p[32 + c:32 + c + d]), ('extra', p[32 + c + d:])):
        plain, end = block_info(b)
        s[name], s[name + 'end'] = list(plain), end
    return s


def bscreate_case(f, t, files=False):
    s = {'op': 'bscreate', 'from': list(f), 'to': list(t), 'same': True, 'res': 'ok'}
    s.update(bs_fields(b''))

    def fill(r):
        result(r, s)
        if r is not None:
            s['same'] = r.get('same', True)
            s.update(bs_fields(bytes.fromhex(r.get('patch') or '')))
    kw = {'patch_type': 'bsdiff'}
    return Case('create bsdiff %d->%d' % (len(f), len(t)),
                {'op': 'create', 'from': f.hex(), 'to': t.hex(), 'files': files, 'kw': kw}, s, fill)


def bsapply_case(f, p, label, files=False):
    s = {'op': 'bsapply', 'from': list(f), 'ret': 0, 'out': [], 'same': True, 'res': 'ok'}
    s.update(bs_fields(p))

    def fill(r):
        result(r, s)
        if r is not None:
            s['ret'] = num(r.get('ret', 0))
            s['out'] = list(bytes.fromhex(r['out']))
            s['same'] = r['same']
    return Case('bsdiff %s' % label, {'op': 'apply', 'kind': 'bsdiff', 'from': f.hex(), 'patch': p.hex(), 'files': files}, s, fill)


def bs_input(rng, top=200):
    f = gen.image(rng, rng.choice([0, 1, 30, 100, rng.randint(0, top)]))
    t = related(rng, f, rng.randint(0, top)) if rng.random() < 0.5 else gen.image(rng, rng.randint(0, top))
    recs = gen.seq_records(rng, f, t, rng.choice([1, 3, 8])) if t else []
    return f, t, recs


def c20(R):
    rng = common.rng('C20')
    C = []
    for n in range(scale(300, 5000)):
        f, t = pair(rng)
        C.append(bscreate_case(f, t, files=n % 3 == 0))
    for f, t in blocky_pairs(rng, scale(150, 3000)):
        C.append(bscreate_case(f, t))
    for f, t in small_pairs(rng, 4, scale(250, 5000)):
        C.append(bscreate_case(f, t))
    for f, t in big_pairs(rng, scale(3, 15), scale(9000, 30000)):
        C.append(bscreate_case(f, t))
    conform(R, C, 'C20', module='TraceParts', limit=60)
    large.bsdiff(R, 'C20', scale(20, 120))
    C = []
    for n in range(scale(350, 5000)):
        f, t, recs = bs_input(rng)
        p = gen.bs_patch(recs, len(t))
        C.append(bsapply_case(f, p, 'well-formed', files=n % 3 == 0))
        if n % 4:
            continue
        hdr = bytearray(p)
        more = [(b'BSDIFF41', 'magic'), (b'bsdiff40', 'magic')]
        for m, what in more:
            C.append(bsapply_case(f, m + p[8:], what))
        for i in (8, 16, 24):
            for x in (-1, 0, 1, 1000, len(p), 1 << 31, 1 << 40, -(1 << 40), (1 << 63) - 1):
                if rng.random() < 0.3:
                    C.append(bsapply_case(f, p[:i] + gen.off(x) + p[i + 8:], 'header'))
        C.append(bsapply_case(f, gen.bs_patch(recs, len(t) + 1), 'to-size one more'))
        if t:
            C.append(bsapply_case(f, gen.bs_patch(recs, len(t) - 1), 'to-size one less'))
        for k in range(3):
            m = [b'', b'', b'']
            m[k] = rng.choice([b'\0', b'\0' * 24, b'abc'])
            C.append(bsapply_case(f, gen.bs_patch(recs, len(t), tuple(m)), 'surplus in block %d' % k))
        if recs:
            k = rng.randrange(len(recs))
            d, e, a = recs[k][:3]
            for bad in ((d, e, a, len(d) + 1), (d, e, a, len(d) - 1), (d, e, a, -1), (d, e, a, len(d), len(e) + 1),
                        (d, e, a, len(d), len(e) - 1), (d, e, a, len(d), -1), (d, e, a - len(f) - 1), (d, e, a + len(f) + 1),
                        (d[:-1], e, a, len(d)), (d, e[:-1], a, len(d), len(e)), (d, e, a, 1 << 40), (d, e, a, len(d), 1 << 40),
                        (d, e, 1 << 40), (d, e, -(1 << 40)), (d, e, a, (1 << 31) - 1)):
                C.append(bsapply_case(f, gen.bs_patch(recs[:k] + [bad] + recs[k + 1:], len(t)), 'record %s' % (bad[2:],)))
            C.append(bsapply_case(f, gen.bs_patch(recs[:-1], len(t)), 'last record missing'))
            C.append(bsapply_case(f, gen.bs_patch(recs + [(b'', b'', 0)], len(t)), 'one more record'))
            C.append(bsapply_case(f[:-1], p, 'short from-image'))
        for a in rng.sample(range(len(p)), scale(8, 40)):
            C.append(bsapply_case(f, p[:a], 'truncated to %d of %d' % (a, len(p))))
        C.append(bsapply_case(f, p + b'x', 'something behind'))
        for _ in range(scale(4, 20)):
            hdr = bytearray(p)
            hdr[rng.randrange(len(p))] ^= 1 << rng.randrange(8)
            C.append(bsapply_case(f, bytes(hdr), 'damaged'))
    conform(R, C, 'C20', module='TraceParts')


# -- C21 ----------------------------------------------------------------------------

def sa_case(text):
    s = {'op': 'sa', 'text': list(text), 'sais': [], 'divsufsort': [], 'inv': [], 'res': 'ok'}

    def fill(r):
        result(r, s)
        if s['res'] == 'ok':
            s['sais'], s['divsufsort'] = r['sais'], r['divsufsort']
            n = len(text) + 1
            inv = [0] * n
            for k, p in enumerate(s['sais']):
                if 0 <= p < n:
                    inv[p] = k + 1
            s['inv'] = inv
    return Case('suffix array of %d bytes %s' % (len(text), bytes(text).hex()[:40]), {'op': 'sa', 'data': bytes(text).hex()}, s, fill)


def fib(n):
    a, b = b'a', b'ab'
    while len(b) < n:
        a, b = b, b + a
    return b[:n]


def thue(n):
    return bytes(97 + bin(i).count('1') % 2 for i in range(n))


def debruijn(k, n):
    """All words of n letters out of k, overlapping."""
    a = [0] * k * n
    out = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                out.extend(a[1:p + 1])
            return
        a[t] = a[t - p]
        db(t + 1, p)
        for j in range(a[t - p] + 1, k):
            a[t] = j
            db(t + 1, t)
    db(1, 1)
    return bytes(out)


def alternating(rng, n, lo=b'a', hi=b'cd'):
    """Every other suffix is of the kind divsufsort sorts itself; hardly any room for its buffer."""
    return bytes(rng.choice(hi if k % 2 else lo) for k in range(n))


def alternating_words(rng, n, k):
    """The same of repeated words, so that long prefixes are equal."""
    lo, hi = rng.choice([b'a', b'ab']), rng.choice([b'c', b'cd', b'cde'])
    w = [alternating(rng, rng.choice([2, 10, 60, 200]), lo, hi) for _ in range(k)]
    out = b''
    while len(out) < n:
        out += rng.choice(w) * rng.choice([1, 1, 2, 5])
    return out[:n]


def bucket(rng, n):
    """One bucket of n suffixes in random order, all told apart by their third byte: bad pivots happen."""
    x = list(range(2, 250))
    rng.shuffle(x)
    return b''.join(bytes([1, 251, v]) for v in (x * (n // len(x) + 1))[:n])


def grammar(rng, top):
    """A text made by pasting its own earlier parts together."""
    s = [b'a', b'b', bytes([rng.choice(b'abc')])]
    while len(s[-1]) < top:
        s.append(b''.join(rng.choice(s[-4:]) for _ in range(rng.choice([2, 2, 3, 4, 8]))))
    return s[-1][:top]


def texts(rng, top):
    """Texts that take the algorithms into their corners."""
    yield b'a' * top
    for p in (b'ab', b'abc', b'aab', b'ba', b'abracadabra', bytes(range(256)), bytes(range(255, -1, -1)), b'\0\xff', b'\xff\xff\0'):
        yield (p * top)[:top]
        yield (p * top)[:top - 1] + b'\xff'
        yield b'\0' + (p * top)[:top - 1]
    yield fib(top)
    yield thue(top)
    yield fib(top // 2) + fib(top // 2)
    yield debruijn(2, 11)[:top]
    yield debruijn(4, 5)[:top]
    for k in (2, 3, 4, 16, 256):
        yield bytes(rng.randrange(k) for _ in range(top))
    for hi in (b'c', b'cd', b'cde'):
        yield alternating(rng, top, b'a', hi)
    for k in (2, 4, 9):
        yield alternating_words(rng, top, k)
    for _ in range(2):
        yield grammar(rng, top)
    yield bucket(rng, top // 3)
    # many different bucket fills, repeated
    for _ in range(4):
        w = [gen.image(rng, rng.randint(1, 50), 'random') for _ in range(6)]
        yield b''.join(rng.choice(w) for _ in range(top // 10))[:top]
    for k in (255, 256, 257, 1023, 1024, 1025):
        if k <= top:
            yield gen.image(rng, k, 'random')
            yield gen.image(rng, k, 'few')


def c21(R):
    rng = common.rng('C21')
    models.expect(R, 'MCSuffix', 'SPECIFICATION Spec\nINVARIANT Agree One\nCONSTANTS MaxLen = %d\nAlphabet = {1, 2%s}\n'
                  % (4, ', 3' if common.THOROUGH else ''), True, 'suffix arrays')
    C = []
    for n in range(scale(10, 13)):
        for w in product(b'\0\xff', repeat=n):
            C.append(sa_case(bytes(w)))
    for n in range(1, scale(6, 8)):
        for w in product(b'abc', repeat=n):
            C.append(sa_case(bytes(w)))
    for _ in range(scale(600, 8000)):
        C.append(sa_case(gen.image(rng, rng.randint(0, 40))))
        C.append(sa_case(gen.image(rng, rng.randint(41, 300))))
    for _ in range(scale(1200, 9000)):
        C.append(sa_case(bucket(rng, rng.randint(16, 31))))
        C.append(sa_case(grammar(rng, rng.choice([30, 60, 150]))))
    for t in texts(rng, 700):
        C.append(sa_case(t))
    conform(R, C, 'C21', module='TraceParts', limit=60)
    C = [sa_case(alternating_words(rng, rng.choice([6000, 9000, 12000, 20000, 20000]), rng.choice([2, 4, 9]))) for _ in range(scale(50, 300))]
    C += [sa_case(t) for top in scale((5000, 20000), (5000, 20000, 70000)) for t in texts(rng, top)]
    conform(R, C, 'C21', module='TraceParts', limit=120)
    # the same memory-checked
    C = [sa_case(t) for t in texts(rng, 3000)] + [sa_case(bucket(rng, rng.randint(16, 31))) for _ in range(200)]
    C += [sa_case(bytes(w)) for n in range(8) for w in product(b'ab', repeat=n)]
    C += [sa_case(gen.image(rng, rng.randint(0, 300))) for _ in range(scale(200, 3000))]
    conform(R, C, 'C21', module='TraceParts', limit=120, asan=True)


# -- C22 ----------------------------------------------------------------------------

def suffix_array(t):
    return [len(t)] + sorted(range(len(t)), key=lambda i: t[i:])


def delta_case(f, t, label=''):
    s = {'op': 'delta', 'from': list(f), 'to': list(t), 'chunks': [], 'res': 'ok'}

    def fill(r):
        result(r, s)
        if s['res'] == 'ok':
            s['chunks'] = [list(bytes.fromhex(c)) for c in r['chunks']]
    return Case('delta %d->%d %s' % (len(f), len(t), label),
                {'op': 'delta', 'from': f.hex(), 'to': t.hex(), 'sa': suffix_array(f)}, s, fill)


def add_case(a, b):
    s = {'op': 'add', 'a': list(a), 'b': list(b), 'out': [], 'res': 'ok', 'free': True}

    def fill(r):
        result(r, s)
        if r is not None:
            s['out'] = list(bytes.fromhex(r.get('out', '')))
            s['free'] = r.get('free', True)
    return Case('add %s %s' % (a.hex()[:20], b.hex()[:20]), {'op': 'add', 'a': a.hex(), 'b': b.hex()}, s, fill)


def c22(R):
    rng = common.rng('C22')
    for asan in (False, True):
        C = []
        for f, t in small_pairs(rng, 5, scale(700, 100000) if not asan else scale(150, 4000)):
            C.append(delta_case(f, t, 'small'))
        for n in range(scale(700, 9000) if not asan else scale(200, 3000)):
            f, t = pair(rng, 300)
            C.append(delta_case(f, t))
        for f, t in blocky_pairs(rng, scale(600, 9000) if not asan else scale(200, 3000)):
            C.append(delta_case(f, t, 'blocks'))
        for f, t in big_pairs(rng, scale(6, 20), 9000):
            C.append(delta_case(f, t, 'big'))
        for n in range(scale(200, 2000)):
            a = gen.image(rng, rng.choice([0, 1, 2, 7, 8, 9, 255, 300]), 'random')
            b = gen.image(rng, rng.choice([len(a), len(a), len(a) + 1, max(0, len(a) - 1), 0]), 'random')
            C.append(add_case(a, b))
        C.append(add_case(bytes(range(256)) * 256, b''.join(bytes([x]) * 256 for x in range(256))))
        conform(R, C, 'C22', module='TraceParts', limit=60, asan=asan)


# -- C24 ----------------------------------------------------------------------------

def c24(R):
    rng = common.rng('C24')
    C = []
    for n in range(scale(420, 6000)):
        comp = [NONE, LZMA, CRLE, HEATSHRINK][n % 4]
        if n % 8 < 5:
            f, t = pair(rng)
            C.append(create_case(f, t, comp, suffix_array_algorithm=ALGS[n % 2]))
        else:
            mem, seg, shift = geometry(rng)
            f = gen.image(rng, rng.choice([mem, rng.randint(0, mem)]))
            t = (mutate(rng, f) if n % 3 else gen.image(rng, rng.randint(0, mem)))[:mem]
            C.append(inplace_case(f, t, comp, mem, seg, seg if shift is None else shift))
    for n, (f, t) in enumerate(big_pairs(rng, scale(8, 30), scale(9000, 20000))):
        comp = [NONE, LZMA, CRLE, HEATSHRINK][n % 4]
        if n % 8 < 4:
            C.append(create_case(f, t, comp, 'big'))
        else:
            C.append(inplace_case(f[:8192], t[:12288], comp, 16384, 4096, 4096, 'big'))
    try:
        made = pyrun.run([c.job for c in C], limit=60)
    except pyrun.BrokenPackage as e:
        R.violation('C24: the package cannot be imported: %s' % str(e)[-300:], {})
        return
    jobs, scripts, S = [], [], []
    for c, r in zip(C, made):
        c.fill(r)
        s = c.session
        base, p = bytes(s['base']), bytes(s['patch'])
        s['op'] = 'interop'
        s['rescreate'] = s['res']
        kind = s['kind']
        if kind == 'seq':
            jobs.append({'op': 'apply', 'kind': 'seq', 'from': base.hex(), 'patch': p.hex()})
        else:
            jobs.append({'op': 'inplace', 'mem': base.hex(), 'patch': p.hex()})
        sc = ['i 0 %s %s' % (crun.hexs(base), crun.hexs(p)), 'I 0 s -1' if kind == 'seq' else 'I 0 p -1 0']
        sc += ['p 0 %d' % k for k in gen.cuts(rng, len(p))] + ['f 0']
        scripts.append(sc)
    py = pyrun.run(jobs, limit=60)
    cc = crun.run(scripts, limit=30)
    for c, r, ev in zip(C, py, cc):
        s = c.session
        n = len(s['to'])
        s['pyres'] = 'dead' if r is None else 'raise' if 'exc' in r else 'ok'
        s['pyret'] = num((r or {}).get('ret', -1))
        out = list(bytes.fromhex((r or {}).get('out', '')))
        s['pyout'] = out if s['kind'] == 'seq' else out[:n]
        if any(e['e'] == 'killed' for e in ev):
            s['cret'], s['cout'] = -1000, []
        else:
            s['cret'] = ([e['res'] for e in ev if e['e'] == 'f'] or [-1000])[-1]
            w = b''.join(bytes.fromhex(e.get('w', '')) for e in ev)
            mem = [bytes.fromhex(e['img']) for e in ev if e['e'] == 'm']
            s['cout'] = list(w if s['kind'] == 'seq' else (mem[-1][:n] if mem else b''))
        S.append(s)
    total, rejects = tlc.check_traces('TracePy', 'SPECIFICATION Spec\nVIEW Position\n', S)
    R.add(states=total.states, transitions=total.transitions, traces_validated_against_impl=2 * (len(S) - len(rejects)))
    R.sample({'case': C[0].label, 'python': str(py[0])[:200], 'c': str(cc[0][-1])[:200]})
    for k, i, _ in rejects:
        s = S[k]
        R.violation('C24: %s: created: %s, Python: %s %s, C: %s, same image: %s %s'
                    % (C[k].label, s['rescreate'], s['pyres'], s['pyret'], s['cret'], s['pyout'] == s['to'], s['cout'] == s['to']),
                    dict(C[k].describe(), patch=bytes(s['patch']).hex()))
    # the same step by step against the automaton of the C library
    sess = []
    for s in S[::scale(4, 2)]:
        if s['rescreate'] == 'ok' and len(s['patch']) < 3000:
            p = bytes(s['patch'])
            sess.append(csession.Session([csession.Env(s['kind'], bytes(s['base']), p)], 'created').init().feed(gen.cuts(rng, len(p))).fin())
    csession.conform(R, sess, name='C24')
    large.interop(R, 'C24', scale(16, 100))


CHECKS = {'C15': c15, 'C18': c18, 'C20': c20, 'C21': c21, 'C22': c22, 'C24': c24}
