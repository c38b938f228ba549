"""Generators of images and patches, written from the patch format and not
from the code under test.  They only make inputs; what an input means is
decided by spec/PatchCodec.tla."""
import lzma
import zlib

NONE, LZMA, CRLE, BZ2, HEATSHRINK, ZSTD, LZ4 = range(7)
COMPNAME = {NONE: 'none', LZMA: 'lzma', CRLE: 'crle', BZ2: 'bz2',
            HEATSHRINK: 'heatshrink', ZSTD: 'zstd', LZ4: 'lz4'}
CNAMES = {v: k for k, v in COMPNAME.items()}
C_COMPS = [NONE, LZMA, CRLE, HEATSHRINK]


# -- numbers -----------------------------------------------------------------

def tail(x, pad=0):
    out = bytearray()
    while True:
        if x < 128 and pad == 0:
            out.append(x)
            return bytes(out)
        if x < 128:
            pad -= 1
        out.append(0x80 | (x & 0x7f))
        x >>= 7


def size(x, pad=0):
    m = abs(x)
    s = 0x40 if x < 0 else 0
    if m < 64 and pad == 0:
        return bytes([s | m])
    if m < 64:
        pad -= 1
    return bytes([0x80 | s | (m & 63)]) + tail(m >> 6, pad)


def usize(x, pad=0):
    return tail(x, pad)


# -- compressions ------------------------------------------------------------

def crle(data, rng=None, zero=False, pads=False):
    """Some legal CRLE stream for data."""
    out = bytearray()
    i = 0
    n = len(data)

    def pad():
        return rng.choice([0, 0, 0, 1, 2]) if pads and rng else 0
    while i < n:
        if rng is not None and zero and rng.random() < 0.2:
            if rng.random() < 0.5:
                out += bytes([0]) + usize(0, pad())
            else:
                out += bytes([1]) + usize(0, pad()) + bytes([rng.randrange(256)])
        j = i + 1
        while j < n and data[j] == data[i]:
            j += 1
        run = j - i
        if rng is None:
            take = run >= 6
            k = run
        else:
            take = rng.random() < (0.8 if run >= 3 else 0.15)
            k = run if rng.random() < 0.7 else rng.randint(1, run)
        if take:
            out += bytes([1]) + usize(k, pad()) + data[i:i + 1]
            i += k
        else:
            k = (rng.choice([1, 2, 5, 17, 63, 64, 127, 128, 129, 300]) if rng
                 else max(1, min(n - i, 40)))
            k = min(k, n - i)
            out += bytes([0]) + usize(k, pad()) + data[i:i + k]
            i += k
    return bytes(out)


class Bits:
    def __init__(self):
        self.b = []

    def put(self, v, n):
        for i in range(n - 1, -1, -1):
            self.b.append((v >> i) & 1)

    def done(self, padbit=0):
        while len(self.b) % 8:
            self.b.append(padbit)
        return bytes(int(''.join(map(str, self.b[i:i + 8])), 2)
                     for i in range(0, len(self.b), 8))


def hs_symbols(data, rng, w, l, prob=0.9):
    """Some legal sequence of heatshrink symbols for data."""
    syms = []
    i = 0
    n = len(data)
    hist = bytes(1 << w)          # bytes before the start read as zero
    while i < n:
        best = None
        if rng is None or rng.random() < prob:
            buf = hist + data[:i]
            maxd = 1 << w
            maxl = min(1 << l, n - i)
            cands = []
            base = len(buf)
            look = data[i:i + maxl]
            # candidates: positions where the next byte(s) match
            tries = list(range(1, maxd + 1)) if maxd <= 64 else None
            if tries is None:
                tries = []
                seg = data[max(0, i - maxd):i]
                pat = data[i:i + min(3, maxl)]
                p = seg.rfind(pat)
                cnt = 0
                while p >= 0 and cnt < 8:
                    tries.append(len(seg) - p)
                    p = seg.rfind(pat, 0, p + len(pat) - 1) if p > 0 else -1
                    cnt += 1
                if i:
                    tries.append(1)
                if look[0] == 0 and i < maxd:
                    tries.append(min(maxd, i + 1 + (rng.randrange(8) if rng else 0)))
                    tries.append(maxd)
            for d in tries:
                k = 0
                while k < maxl:
                    src = base + k - d
                    c = buf[src] if src < base else look[src - base]
                    if c != look[k]:
                        break
                    k += 1
                if k:
                    cands.append((k, d))
            if cands:
                cands.sort(reverse=True)
                best = cands[0] if rng is None or rng.random() < 0.7 else rng.choice(cands)
                if best[0] < 2 and rng is None:
                    best = None
        if best is None:
            syms.append((data[i],))
            i += 1
        else:
            k, d = best
            if rng is not None and rng.random() < 0.2:
                k = rng.randint(1, k)
            syms.append((d, k))
            i += k
    return syms


def hs_encode(syms, w, l, padbit=0):
    b = Bits()
    for s in syms:
        if len(s) == 1:
            b.put(1, 1)
            b.put(s[0], 8)
        else:
            b.put(0, 1)
            b.put(s[0] - 1, w)
            b.put(s[1] - 1, l)
    return b.done(padbit)


def hs_header(w, l):
    return bytes([((w - 4) << 4) | (l - 3)])


def heatshrink(data, rng=None, w=8, l=7, prob=0.9):
    return hs_header(w, l) + hs_encode(hs_symbols(data, rng, w, l, prob), w, l)


def lzma_alone(data):
    """As detools does it; half of the data with other settings: what they are
    depends on the data alone.  The size of the dictionary told in the header
    may be larger than needed."""
    k = zlib.crc32(data)
    if k % 2:
        return lzma.compress(data, format=lzma.FORMAT_ALONE)
    k //= 2
    lc, lp = [(3, 0), (0, 0), (4, 0), (0, 4), (1, 2), (2, 2)][k % 6]
    s = lzma.compress(data, format=lzma.FORMAT_ALONE,
                      filters=[{'id': lzma.FILTER_LZMA1, 'dict_size': 1 << (12 + k // 6 % 8), 'lc': lc, 'lp': lp,
                                'pb': k // 48 % 5, 'mode': lzma.MODE_FAST, 'mf': lzma.MF_HC3, 'nice_len': 32}])
    told = [None, None, 1 << 16, 1 << 20, 3 << 22, 1 << 24, 3 << 24, 1 << 26][k // 240 % 8]
    if told is not None and told > int.from_bytes(s[1:5], 'little'):
        s = s[:1] + told.to_bytes(4, 'little') + s[5:]
    return s


def lzma_plain(stream):
    """The plain bytes of a (possibly cut or damaged) stream."""
    d = lzma.LZMADecompressor(format=lzma.FORMAT_ALONE)
    out = b''
    try:
        # byte by byte, to get all that can be had from a cut stream
        out = d.decompress(stream)
        return out, d.eof, d.unused_data if d.eof else b''
    except lzma.LZMAError:
        return None, False, b''


def compress(comp, data, rng=None, **kw):
    if comp == NONE:
        return data
    if comp == CRLE:
        return crle(data, rng, **kw)
    if comp == HEATSHRINK:
        return heatshrink(data, rng, **kw)
    if comp == LZMA:
        return lzma_alone(data)
    if comp == BZ2:
        import bz2
        return bz2.compress(data, rng.choice([1, 9]) if rng else 9)
    if comp == ZSTD:
        z = third('zstandard')
        if rng is None or rng.random() < 0.6:
            return z.ZstdCompressor(level=rng.choice([1, 3, 22]) if rng else 22).compress(data)
        if rng.random() < 0.5:
            # a frame that does not tell its size, and maybe asks for a large window
            w = rng.choice([10, 17, 20, 23, 24, 25, 27])
            c = z.ZstdCompressor(compression_params=z.ZstdCompressionParameters.from_level(1, window_log=w, chain_log=6, hash_log=6)).compressobj()
        else:
            c = z.ZstdCompressor(level=3).compressobj()
        out = b''
        for i in cuts(rng, len(data), 'random'):
            out += c.compress(data[:i])
            data = data[i:]
            if rng.random() < 0.3:
                out += c.flush(z.COMPRESSOBJ_FLUSH_BLOCK)
        return out + c.flush()
    if comp == LZ4:
        f = third('lz4.frame')
        if rng is None or rng.random() < 0.6:
            return f.compress(data)
        c = f.LZ4FrameCompressor(block_linked=rng.random() < 0.5, content_checksum=rng.random() < 0.5,
                                 block_checksum=rng.random() < 0.3, block_size=rng.choice([0, 4, 5, 6, 7]))
        out = c.begin()
        for i in cuts(rng, len(data), 'random'):
            out += c.compress(data[:i])
            data = data[i:]
        return out + c.flush()
    raise ValueError(comp)


def third(name):
    """The compression packages of the environment the package runs in."""
    import sys
    import glob
    import importlib
    for d in glob.glob('/opt/detools/venv/lib/python3*/site-packages'):
        if d not in sys.path:
            sys.path.append(d)
    return importlib.import_module(name)


def opaque_plain(comp, stream):
    """All the plain bytes that can be had from a stream, and whether it is
    whole, broken (cut or damaged) or open (whole, but followed by more)."""
    def make():
        if comp == LZMA:
            return lzma.LZMADecompressor()
        if comp == BZ2:
            import bz2
            return bz2.BZ2Decompressor()
        if comp == LZ4:
            return third('lz4.frame').LZ4FrameDecompressor()
        return third('zstandard').ZstdDecompressor().decompressobj()
    d = make()
    try:
        out = d.decompress(stream)
        if d.eof:
            return out, 'open' if d.unused_data else 'whole'
    except Exception:
        pass
    d = make()
    out = bytearray()
    for b in stream:
        try:
            if d.eof:
                break
            out += d.decompress(bytes([b]))
        except Exception:
            break
    return bytes(out), 'open' if comp == ZSTD else 'broken'


# -- images and edit scripts ---------------------------------------------------

def image(rng, n, style=None):
    style = style or rng.choice(['random', 'few', 'runs', 'period', 'text'])
    if style == 'random':
        return bytes(rng.randrange(256) for _ in range(n))
    if style == 'few':
        return bytes(rng.choice(b'\x00\x01\xff') for _ in range(n))
    if style == 'runs':
        out = bytearray()
        while len(out) < n:
            out += bytes([rng.randrange(256)]) * rng.choice([1, 2, 5, 6, 7, 30, 127, 128, 129])
        return bytes(out[:n])
    if style == 'period':
        p = bytes(rng.randrange(256) for _ in range(rng.randint(1, 9)))
        return (p * (n // len(p) + 1))[:n]
    return bytes(rng.choice(b'abcdefgh \n') for _ in range(n))


def record_sizes(rng, total, big=False):
    """Split total into record sizes, with a taste for boundaries."""
    marks = [1, 2, 3, 7, 62, 63, 64, 65, 126, 127, 128, 129, 130, 255, 256, 257, 300]
    out = []
    left = total
    while left:
        k = rng.choice(marks) if rng.random() < 0.6 else rng.randint(1, max(1, left))
        k = min(k, left)
        out.append(k)
        left -= k
    return out


def seq_records(rng, frm, to, maxrec=12, empties=True, far=True):
    """Records (diff bytes, extra bytes, adjustment) that make frm into to."""
    recs = []
    pos = 0
    fpos = 0
    n = len(to)
    while pos < n or not recs:
        left = n - pos
        if len(recs) >= maxrec:
            d = min(left, max(0, len(frm) - fpos)) if rng.random() < 0.5 else 0
            e = left - d
        else:
            d = rng.choice([0, 1, 63, 64, 127, 128, 129, 256, rng.randint(0, left)])
            d = max(0, min(d, left, len(frm) - fpos))
            e = rng.choice([0, 0, 1, 64, 128, 129, rng.randint(0, left - d)])
            e = min(e, left - d)
            if d + e == 0 and (not empties or rng.random() < 0.5):
                e = min(left, 1)
        diff = bytes((to[pos + i] - frm[fpos + i]) & 255 for i in range(d))
        extra = to[pos + d:pos + d + e]
        fpos += d
        pos += d + e
        if far and rng.random() < 0.05:
            # far beyond the end and back again with the next record
            adj = rng.choice([8191, 8192, 1048575, 1048576, 3000000])
        elif len(frm):
            adj = rng.randint(0, len(frm)) - fpos
            if rng.random() < 0.15:
                adj = 0
        else:
            adj = 0
        if fpos + adj < 0:
            adj = -fpos
        recs.append((diff, extra, adj))
        fpos += adj
    return recs


def body(recs, rng=None, pads=False, df=b'\x00'):
    def pad():
        return rng.choice([0, 0, 0, 0, 1]) if pads and rng else 0
    out = bytearray(df)
    for d, e, a in recs:
        out += size(len(d), pad()) + d + size(len(e), pad()) + e + size(a, pad())
    return bytes(out)


def seq_header(comp, to_size, pad=0, typ=0):
    return bytes([(typ << 4) | comp]) + size(to_size, pad)


def seq_patch(rng, frm, to, comp, pads=False, maxrec=12, far=True, crle_kw=None, **kw):
    kw.update(crle_kw or {})
    h = seq_header(comp, len(to), rng.choice([0, 0, 0, 1]) if pads else 0)
    if len(to) == 0:
        # an empty image has no records at all
        b = b''
        if comp == HEATSHRINK and rng.random() < 0.5:
            return h + hs_header(8, 7)
        return h if comp != LZMA else h + lzma_alone(b'')
    return h + compress(comp, body(seq_records(rng, frm, to, maxrec, far=far), rng, pads), rng, **kw)


# -- in-place ------------------------------------------------------------------

def inp_header(comp, mem, seg, shift, frm, to, pads=(0, 0, 0, 0, 0), typ=1):
    return (bytes([(typ << 4) | comp]) + size(mem, pads[0]) + size(seg, pads[1])
            + size(shift, pads[2]) + size(frm, pads[3]) + size(to, pads[4]))


def ceil_div(a, b):
    return (a + b - 1) // b


def inp_patch(rng, mem0, mem, seg, shift, frm_size, to, comp, pads=False, **kw):
    """A well-formed, safe in-place patch that makes mem0 into to."""
    ns = ceil_div(min(frm_size, mem - shift), seg) if shift else 0
    m = bytearray(mem0)
    for k in range(ns - 1, -1, -1):
        m[shift + k * seg:shift + (k + 1) * seg] = mem0[k * seg:(k + 1) * seg]
    out = bytearray()
    pos = 0
    i = 0
    while pos < len(to):
        end = min(seg * (i + 1), len(to))
        lo = seg * (i + 1)
        fpos = max(lo, shift)
        out += size(0)
        first = True
        n = 0
        while pos < end or first:
            first = False
            left = end - pos
            d = rng.choice([0, 0, 1, 2, 64, 128, 129, left, rng.randint(0, left)])
            d = max(0, min(d, left, mem - fpos if fpos >= lo else 0))
            e = rng.choice([0, 1, 64, 129, rng.randint(0, left - d), left - d])
            e = min(e, left - d)
            n += 1
            if n > 8 or (d + e == 0 and rng.random() < 0.6):
                e = left - d
            diff = bytes((to[pos + j] - m[fpos + j]) & 255 for j in range(d))
            pos += d
            extra = to[pos:pos + e]
            pos += e
            fpos += d
            adj = (rng.randint(lo, max(lo, mem)) - fpos) if rng.random() < 0.8 else 0
            if fpos + adj < lo:
                adj = 0
            out += size(len(diff), rng.choice([0, 0, 1]) if pads else 0) + diff
            out += size(len(extra)) + extra + size(adj)
            if pos < end:
                fpos += adj
        i += 1
    pd = tuple(rng.choice([0, 0, 1]) for _ in range(5)) if pads else (0,) * 5
    h = inp_header(comp, mem, seg, shift, frm_size, len(to), pd)
    if not to:
        return h if comp != LZMA else h + lzma_alone(b'')
    return h + compress(comp, bytes(out), rng, **kw)


def geometry(rng, small=False):
    """mem, seg, shift, from size, to size of a possible in-place patch."""
    seg = rng.choice([4, 8, 16] if small else [4, 8, 16, 32, 64, 128, 256, 200])
    nmem = rng.randint(1, 6 if small else 8)
    mem = seg * nmem
    shift = seg * rng.randint(0, nmem)
    r = rng.random()
    if r < 0.1:
        frm = 0
    elif r < 0.7:
        frm = rng.randint(0, mem)
    elif r < 0.85:
        frm = min(mem, seg * rng.randint(0, nmem))
    else:
        frm = mem
    r = rng.random()
    if r < 0.15:
        to = mem
    elif r < 0.4:
        to = min(mem, seg * rng.randint(1, nmem))
    else:
        to = rng.randint(1, mem)
    return mem, seg, shift, frm, to


def cuts(rng, n, style=None):
    """Chunk sizes that add up to n."""
    style = style or rng.choice(['one', 'bytes', 'random', 'random', 'halves', 'empties', 'tail'])
    if style == 'one':
        return [n]
    if style == 'bytes':
        return [1] * n
    if style == 'halves':
        return [n // 2, n - n // 2]
    if style == 'tail':
        return [n - 1, 1] if n > 1 else [n]
    out = []
    left = n
    while left:
        if style == 'empties' and rng.random() < 0.4:
            out.append(0)
        k = min(left, rng.choice([1, 1, 2, 3, 5, 8, 13, 40, 127, 128, 129, 512, rng.randint(1, left)]))
        out.append(k)
        left -= k
    if style == 'empties':
        out.append(0)
    return out


def seq_patch_x(rng, frm, to, comp, pads, kw):
    """seq_patch, sometimes with longer seeks and other record counts."""
    return seq_patch(rng, frm, to, comp, pads, maxrec=rng.choice([1, 3, 12, 12, 30]),
                     far=comp != HEATSHRINK or rng.random() < 0.5,
                     **({'crle_kw': kw} if comp == CRLE else {}))


def off(x):
    """A number of a BSDIFF40 patch."""
    return (abs(x) | (1 << 63 if x < 0 else 0)).to_bytes(8, 'little')


def bs_patch(recs, to_size, more=(b'', b'', b''), sizes=None, magic=b'BSDIFF40', level=9):
    """recs: (diff data, extra data, adjustment), or explicit numbers."""
    import bz2
    ctrl = b''.join(off(r[3] if len(r) > 3 else len(r[0])) + off(r[4] if len(r) > 4 else len(r[1])) + off(r[2]) for r in recs) + more[0]
    diff = b''.join(r[0] for r in recs) + more[1]
    extra = b''.join(r[1] for r in recs) + more[2]
    c, d, e = [bz2.compress(x, level) for x in (ctrl, diff, extra)]
    n = sizes or (len(c), len(d))
    return magic + off(n[0]) + off(n[1]) + off(to_size) + c + d + e
