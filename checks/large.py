"""Sessions at scale (TraceBig.tla): images beyond every internal buffer,
block and number boundary, many records, many segments."""
from vlib import gen, big, common, pyrun
from vlib.common import scale
from vlib.gen import NONE, LZMA, CRLE, HEATSHRINK, C_COMPS
from vlib.big import Case

ALL = list(range(7))
MANY = (0, 1, 3, 20, 64, 128)


def seq_input(rng, comp, top=150000, dense=None):
    """A from-image, a to-image and a patch."""
    if dense or dense is None and comp != NONE and rng.random() < 0.4:
        # hardly to be compressed: long streams
        f = gen.image(rng, rng.choice([0, 3000]), 'random')
        t = f[:1000] + gen.image(rng, rng.choice([5000, 9000, 14000]), rng.choice(['random', 'random', 'text']))
        return f, t, big.seq_patch(rng, f, t, comp)
    f = big.image(rng, rng.choice([0, 30, 66000, top]))
    t = big.related(rng, f, rng.choice([50000, 66000, top]))
    if rng.random() < 0.3:
        # very many records
        f, t = f[:9000], t[:9000]
        return f, t, big.seq_patch(rng, f, t, comp, big.seq_records(rng, f, t, MANY, 1000))
    return f, t, big.seq_patch(rng, f, t, comp)


# -- the C library -----------------------------------------------------------------

def c_case(rng, comp, mode, dense=None):
    f, t, p = seq_input(rng, comp, dense=dense)
    c = Case('large %s %s %d->%d patch %d' % (mode, gen.COMPNAME[comp], len(f), len(t), len(p)), 'seq', f, p)
    s = big.c_lines(c)
    start = [big.init(c)]
    if mode == 'one':
        s += start + ['p 0 -1', 'f 0']
    elif mode == 'chunks':
        s += start + ['p 0 %d' % k for k in big.chunks(rng, len(p))] + ['f 0']
    elif mode == 'small':
        k = rng.choice([1, 7, 100])
        n = len(p) // k + 1
        s += start + (['p 0 %d' % k] * n if n < 20000 else ['p 0 509'] * (len(p) // 509 + 1)) + ['f 0']
    elif mode == 'pull':
        s += ['c 0 s 1']
    else:
        # dumped, lost and restored
        s += start
        left = len(p)
        slots = []
        for _ in range(rng.randint(3, 25)):
            r = rng.random()
            if r < 0.5 or not slots:
                s.append('p 0 %d' % rng.choice([1, 2, 100, 4096, max(1, len(p) // 7), 66000]))
                if rng.random() < 0.7:
                    slots.append(rng.randrange(4))
                    s.append('d 0 %d' % slots[-1])
            elif r < 0.75:
                s += ['r 0 %d' % rng.choice(slots)]
            else:
                s.append('p 0 %d' % rng.randint(1, 3000))
        s += ['p 0 -1', 'f 0']
    c.more['script'] = s
    return c


def c_seq(R, name, modes, count, comps=C_COMPS):
    rng = common.rng(name, 'large')
    C = [c_case(rng, comps[n % len(comps)], modes[n // len(comps) % len(modes)]) for n in range(count)]
    if 'chunks' in modes:
        C += [c_case(rng, comp, 'chunks', True) for comp in comps if comp != NONE for _ in range(4 if comp == LZMA else 1)]
    big.run_c(R, C, name)


def inp_geometry(rng, many):
    if many:
        seg = rng.choice([2, 4, 8, 16])
        segs = rng.choice([257, 300, 520])
    else:
        seg = rng.choice([4096, 8192, 1000, 65536, 33000])
        segs = rng.randint(2, max(2, min(30, 200000 // seg)))
    mem = seg * segs
    shift = seg * rng.choice([0, 1, 2, segs // 2, rng.randint(0, segs)])
    frm = rng.choice([mem, mem - 1, rng.randint(0, mem), max(0, mem - shift)])
    to = rng.choice([mem, mem - 1, rng.randint(1, mem), rng.randint(mem // 2, mem)])
    return mem, seg, shift, frm, to


def c_inp(R, name, modes, count, comps=C_COMPS):
    rng = common.rng(name, 'large in-place')
    C = []
    for n in range(count):
        comp = comps[n % len(comps)]
        mode = modes[n // len(comps) % len(modes)]
        many = n % 3 == 0 or mode == 'many'
        g = inp_geometry(rng, many)
        dense = n % 5 == 2
        if dense:
            # hardly to be compressed
            seg = rng.choice([1000, 4096])
            g = (seg * 5, seg, seg * rng.randint(0, 2), seg * 3, seg * 4 - rng.randint(0, 9))
        m0, t, p = big.inp_case(rng, comp, *g, lens=(0, 1, 5, 16) if many else (0, 1, 50, 4096, 5000, 66000),
                                styles='random' if dense else None)
        c = Case('large in-place %s %s %s patch %d' % (mode, gen.COMPNAME[comp], g, len(p)), 'inp', m0, p)
        s = big.c_lines(c)
        if mode == 'crash':
            ops = max(6, 3 * (g[0] // g[1]) if g[2] else 2) + 3 * (g[4] // g[1]) + 9
            for _ in range(rng.randint(1, 5)):
                s += ['x 0 %d %d' % (rng.randint(1, ops), rng.randrange(4)), big.init(c)]
                s += ['p 0 %d' % k for k in big.chunks(rng, len(p))] + ['f 0', 'y 0']
            s += ['x 0 0 0', big.init(c), 'p 0 -1', 'f 0']
        elif mode == 'pull':
            s += ['c 0 p 1']
        else:
            s += [big.init(c, n % 4 != 1)] + ['p 0 %d' % k for k in big.chunks(rng, len(p))] + ['f 0']
        c.more['script'] = s
        C.append(c)
    big.run_c(R, C, name)


# -- the Python package --------------------------------------------------------------

def run_py(R, C, jobs, fill, name, limit=90):
    try:
        res = pyrun.run(jobs, limit=limit)
    except pyrun.BrokenPackage as e:
        R.violation('%s: the package cannot be imported: %s' % (name, str(e)[-300:]), {})
        return
    for c, r in zip(C, res):
        c.more['answer'] = 'hangs or crashes' if r is None else r.get('exc', 'returned')
        if r is not None and 'exc' not in r:
            fill(c, r)
    big.judge(R, C, name)


def number(x):
    return x if isinstance(x, int) and not isinstance(x, bool) and abs(x) < 1 << 30 else -1


def py_apply(R, name, count):
    rng = common.rng(name, 'large')
    C, jobs = [], []
    for n in range(count):
        comp = ALL[n % 7]
        f, t, p = seq_input(rng, comp, 220000)
        C.append(Case('large apply %s %d->%d patch %d' % (gen.COMPNAME[comp], len(f), len(t), len(p)), 'seq', f, p))
        jobs.append({'op': 'apply', 'kind': 'seq', 'from': f.hex(), 'patch': p.hex(), 'files': n % 2 == 0})

    def fill(c, r):
        c.res = number(r['ret'])
        c.img = bytes.fromhex(r['out'])
    run_py(R, C, jobs, fill, name)


def py_inplace(R, name, count):
    rng = common.rng(name, 'large')
    C, jobs = [], []
    for n in range(count):
        comp = ALL[n % 7]
        many = n % 5 == 0
        g = inp_geometry(rng, many)
        if n % 5 == 1:
            # much to shift, and not far
            seg = rng.choice([4096, 8192])
            mem = 200704 // seg * seg
            g = (mem, seg, seg, mem - seg - rng.randint(0, 9), mem - rng.randint(0, 9))
        m0, t, p = big.inp_case(rng, comp, *g, lens=(0, 1, 5, 16) if many else (0, 1, 50, 4096, 5000, 66000))
        C.append(Case('large in-place %s %s patch %d' % (gen.COMPNAME[comp], g, len(p)), 'inp', m0, p))
        jobs.append({'op': 'inplace', 'mem': m0.hex(), 'patch': p.hex(), 'files': n % 2 == 0})

    def fill(c, r):
        c.res = number(r['ret'])
        out = bytes.fromhex(r['out'])
        c.img = out[:big.fields('inp', c.patch)[0][4]]
        if len(out) != len(c.base):
            c.res = -1
    run_py(R, C, jobs, fill, name)


def edited(rng, f, n):
    """Something like a new version of f."""
    t = bytearray(f)
    for _ in range(rng.randint(1, 12)):
        a = rng.randint(0, len(t))
        r = rng.random()
        k = rng.choice([1, 8, 100, 5000])
        if r < 0.4:
            t[a:a] = gen.image(rng, min(k, 300))
        elif r < 0.7:
            del t[a:a + k]
        else:
            for i in range(a, min(len(t), a + k), 7):
                t[i] = (t[i] + 3) & 255
    if len(t) < n:
        t += big.image(rng, n - len(t))
    return bytes(t[:n])


def text(rng, n):
    """Something to find matches in: blocks that come again."""
    w = [gen.image(rng, rng.randint(20, 400), rng.choice(['runs', 'text', 'period', 'random'])) for _ in range(12)]
    out = b''
    while len(out) < n:
        out += rng.choice(w) + bytes([rng.randrange(256)]) * rng.choice([0, 5, 300])
    return out[:n]


def pairs(rng, n):
    k = n % 7
    if k == 6:
        # many records
        f = gen.image(rng, 30000, 'random')
        t, at = bytearray(), 0
        while at < len(f):
            m = rng.randint(30, 90)
            t += f[at:at + m] + gen.image(rng, rng.randint(10, 30), 'random')
            at += m + rng.choice([0, 0, 20])
        return f, bytes(t)
    if k == 0:
        # little to a lot (and back)
        return gen.image(rng, rng.randint(0, 5)), big.image(rng, rng.choice([100000, 140000]), 'mixed')
    if k == 1:
        return big.image(rng, rng.choice([70000, 100000]), 'mixed'), gen.image(rng, rng.randint(1, 50))
    if k == 2:
        f = big.image(rng, rng.choice([65536, 70000, 131072]))
        return f, f
    if k == 3:
        f = text(rng, 60000)
        return f, edited(rng, f, 62000)
    if k == 4:
        f = text(rng, 30000)
        return f, f[len(f) // 2:] + gen.image(rng, 3000, 'random') + f[:len(f) // 2]
    f = text(rng, 20000) + big.image(rng, 66000)
    return f, big.image(rng, 1000) + edited(rng, f, 80000)


def py_create(R, name, count):
    rng = common.rng(name, 'large')
    C, jobs = [], []
    for n in range(count):
        comp = ALL[n % 7]
        f, t = pairs(rng, n + n // 7)
        c = Case('large create %s %d->%d' % (gen.COMPNAME[comp], len(f), len(t)), 'seq', f, b'\0\0')
        c.comp = comp
        c.img, c.want = t, len(t)
        kw = {'compression': gen.COMPNAME[comp], 'suffix_array_algorithm': ('sais', 'divsufsort')[n % 2], 'use_mmap': n % 3 != 2}
        if comp == HEATSHRINK and n % 2:
            c.hs = [11, 5]
            kw.update(heatshrink_window_sz2=11, heatshrink_lookahead_sz2=5)
        C.append(c)
        jobs.append({'op': 'create', 'from': f.hex(), 'to': t.hex(), 'files': n % 4 != 3, 'kw': kw})

    def fill(c, r):
        c.patch = bytes.fromhex(r['patch'])
        if r['same'] and c.patch:
            c.res = c.want
    run_py(R, C, jobs, fill, name)


def bsdiff(R, name, count):
    """BSDIFF40 patches created, and others applied."""
    rng = common.rng(name, 'large')
    C, jobs = [], []
    for n in range(count):
        if n % 2:
            f, t = pairs(rng, n // 2)
            c = Case('large create bsdiff %d->%d' % (len(f), len(t)), 'bs', f, b'')
            c.img = t
            jobs.append({'op': 'create', 'from': f.hex(), 'to': t.hex(), 'files': n % 4 == 1, 'kw': {'patch_type': 'bsdiff'}})
        else:
            f = big.image(rng, rng.choice([0, 30, 66000, 150000, 300000]))
            t = big.related(rng, f, rng.choice([50000, 66000, 200000, 300000]))
            recs = big.seq_records(rng, f, t, MANY, 1500) if n % 3 == 0 else big.seq_records(rng, f, t)
            p = gen.bs_patch(recs, len(t), level=rng.choice([1, 1, 9]))
            c = Case('large apply bsdiff %d->%d records %d' % (len(f), len(t), len(recs)), 'bs', f, p)
            jobs.append({'op': 'apply', 'kind': 'bsdiff', 'from': f.hex(), 'patch': p.hex(), 'files': n % 4 == 0})
        c.want = len(t)
        C.append(c)

    def fill(c, r):
        if c.patch:
            c.res = number(r['ret'])
            c.img = bytes.fromhex(r['out'])
        else:
            c.patch = bytes.fromhex(r['patch'])
            if r['same']:
                c.res = c.want
    run_py(R, C, jobs, fill, name)


def py_create_inplace(R, name, count):
    rng = common.rng(name, 'large in-place')
    C, jobs = [], []
    for n in range(count):
        comp = ALL[n % 7]
        k = (n + n // 7) % 7
        f, t = pairs(rng, k if k != 2 else 5)
        seg = rng.choice([4096, 8192, 500, 66000])
        need = -(-max(len(f), len(t)) // seg)
        mem = seg * (need + rng.randint(0, 3))
        minshift = seg * rng.choice([0, 1, 2])
        c = Case('large create in-place %s %d->%d memory %d segment %d' % (gen.COMPNAME[comp], len(f), len(t), mem, seg), 'inp', f, b'\x10\0')
        c.comp = comp
        c.img, c.want = t, len(t)
        c.geo = [mem, seg, minshift, len(f)]
        kw = {'compression': gen.COMPNAME[comp], 'suffix_array_algorithm': ('sais', 'divsufsort')[n % 2], 'patch_type': 'in-place',
              'memory_size': mem, 'segment_size': seg, 'minimum_shift_size': minshift, 'use_mmap': n % 3 != 2}
        C.append(c)
        jobs.append({'op': 'create', 'from': f.hex(), 'to': t.hex(), 'files': n % 4 != 3, 'kw': kw})

    def fill(c, r):
        c.patch = bytes.fromhex(r['patch'])
        if r['same'] and c.patch:
            c.res = c.want
    run_py(R, C, jobs, fill, name)


def py_info(R, name, count):
    rng = common.rng(name, 'large')
    C, jobs = [], []
    for n in range(count):
        comp = ALL[n % 7]
        if n % 2:
            g = inp_geometry(rng, n % 4 == 1)
            m0, t, p = big.inp_case(rng, comp, *g, lens=(0, 1, 5, 16) if n % 4 == 1 else (0, 1, 50, 4096, 5000, 66000))
            c = Case('large info in-place %s %s' % (gen.COMPNAME[comp], g), 'inp', m0, p)
            c.told = big.fields('inp', p)[0]
        else:
            f, t, p = seq_input(rng, comp)
            c = Case('large info %s %d' % (gen.COMPNAME[comp], len(t)), 'seq', f, p)
        c.img = t
        C.append(c)
        jobs.append({'op': 'info', 'patch': p.hex()})

    def part(v):
        return {'ds': [number(x) for x in v[1]], 'es': [number(x) for x in v[2]], 'ad': v[3], 'bytes': int(v[4]) if v[4] == int(v[4]) else -1}

    def fill(c, r):
        try:
            v = r['info']
            if v[0] != len(c.patch) or v[1] != gen.COMPNAME[c.patch[0] & 15]:
                return
            if c.kind == 'seq' and r['kind'] == 'sequential':
                c.info = [part(v[6:])]
                c.res = number(v[6])
            elif c.kind == 'inp' and r['kind'] == 'in-place' and list(v[3:8]) == c.told:
                c.info = [part(x[2]) for x in v[8]]
                c.res = number(sum(x[2][0] for x in v[8]))
        except (TypeError, IndexError, KeyError):
            pass
    run_py(R, C, jobs, fill, name)


# -- both ------------------------------------------------------------------------

def interop(R, name, count):
    """Created by Python, applied by both."""
    from vlib import crun
    rng = common.rng(name, 'large')
    jobs, meta = [], []
    for n in range(count):
        comp = C_COMPS[n % 4]
        f, t = pairs(rng, n // 4 + n)
        if n % 4 == 2 and n < 8:
            # runs beyond every CRLE length boundary
            f, t = b'', big.image(rng, [2200000, 300000][n // 4], 'const')
        kw = {'compression': gen.COMPNAME[comp]}
        kind = 'seq'
        if n % 3 == 2 and n != 2:
            kind = 'inp'
            seg = rng.choice([4096, 66000])
            kw.update(patch_type='in-place', memory_size=seg * (-(-max(len(f), len(t)) // seg) + 1), segment_size=seg,
                      minimum_shift_size=seg)
        jobs.append({'op': 'create', 'from': f.hex(), 'to': t.hex(), 'files': n % 2 == 0, 'kw': kw})
        meta.append((kind, f, t, kw))
    try:
        made = pyrun.run(jobs, limit=120)
    except pyrun.BrokenPackage as e:
        R.violation('%s: the package cannot be imported: %s' % (name, str(e)[-300:]), {})
        return
    C, D, apply_jobs = [], [], []
    for (kind, f, t, kw), r in zip(meta, made):
        label = 'large %s %s %d->%d' % (kind, kw['compression'], len(f), len(t))
        if r is None or 'exc' in r:
            R.violation('%s: %s: creation: %s' % (name, label, r and r['exc']), {'kw': kw})
            continue
        p = bytes.fromhex(r['patch'])
        base = f if kind == 'seq' else (f + bytes(kw['memory_size'] - len(f)))
        c = Case(label + ' in C', kind, base, p)
        c.more['script'] = big.c_lines(c) + [big.init(c, False)] + ['p 0 %d' % k for k in big.chunks(rng, len(p))] + ['f 0']
        C.append(c)
        d = Case(label + ' in Python', kind, base, p)
        D.append(d)
        apply_jobs.append({'op': 'apply', 'kind': 'seq', 'from': base.hex(), 'patch': p.hex()} if kind == 'seq' else
                          {'op': 'inplace', 'mem': base.hex(), 'patch': p.hex()})
        c.to = d.to = t

    def fill(c, r):
        c.res = number(r['ret'])
        out = bytes.fromhex(r['out'])
        c.img = out if c.kind == 'seq' else out[:len(c.to)]
    big.run_c(R, C, name)
    run_py(R, D, apply_jobs, fill, name)
    for c in C + D:
        if c.res >= 0 and c.img != c.to:
            R.violation('%s: %s: not the requested image' % (name, c.label), c.describe())


# -- CRLE ------------------------------------------------------------------------

def crle(R, name, count):
    """Long runs and long literals through the Python compressor and
    decompressor and the C reader."""
    rng = common.rng(name, 'large')
    C, jobs, X = [], [], []
    for n in range(count):
        img = big.image(rng, rng.choice([66000, 140000, 300000] if n else [2200000]), 'long' if n % 2 or not n else 'mixed')
        if n % 4 == 1:
            # a literal stretch longer than 64 KiB
            img = bytes(range(256)) * 260 + img
        b = gen.body([(b'', img, 0)])
        head = gen.seq_header(CRLE, len(img))
        lo = len(b) - len(img) - 1
        cuts = big.chunks(rng, len(b))
        pieces = []
        at = 0
        for k in cuts:
            pieces.append(b[at:at + k].hex())
            at += k
        c = Case('CRLE compress %d bytes' % len(b), 'seq', b'', head)
        c.img, c.n = img, len(img)
        C.append(c)
        jobs.append({'op': 'crle_c', 'data': pieces})
        st = big.crle(b, rng)
        d = Case('CRLE decompress %d bytes' % len(b), 'seq', b'', head + st)
        d.n, d.cut, d.total = len(img), (lo, lo + len(img)), len(b)
        C.append(d)
        jobs.append({'op': 'crle_d', 'stream': st.hex(),
                     'calls': [[k, rng.choice([100, 70000, len(b)])] for k in big.chunks(rng, len(st))] + [[0, 70000]] * (len(b) // 70000 + 2)})
        e = Case('CRLE in C %d bytes' % len(b), 'seq', b'', head + st)
        e.more['script'] = big.c_lines(e) + [big.init(e)] + ['p 0 %d' % k for k in big.chunks(rng, len(e.patch))] + ['f 0']
        X.append(e)

    def fill(c, r):
        if 'out' in r:
            c.patch += bytes.fromhex(''.join(r['out']))
            c.res = c.n
        else:
            ev = r['ev']
            if len(ev) > 1 and ev[-2]['eof']:
                # (asked once more after the end)
                ev = ev[:-1]
            if any(e['exc'] for e in ev) or not ev[-1]['eof']:
                return
            out = bytes.fromhex(''.join(e['w'] for e in ev))
            c.img = out[c.cut[0]:c.cut[1]]
            if len(out) == c.total:
                c.res = c.n
    run_py(R, C, jobs, fill, name)
    big.run_c(R, X, name)
