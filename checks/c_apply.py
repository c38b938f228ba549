"""C01..C11: the apply objects of the C library against TraceC.tla."""
from concurrent.futures import ThreadPoolExecutor
from vlib import gen, big, common, csession, crun
from checks import exhaust, models, large
from vlib.csession import Session, Env, conform
from vlib.gen import NONE, LZMA, CRLE, HEATSHRINK, C_COMPS
from vlib.common import scale

ALLRULES = ('bounds', 'flash', 'needed', 'steps')


# -- material ------------------------------------------------------------------

def related(rng, f, n):
    """An image of n bytes that shares parts with f."""
    out = bytearray()
    while len(out) < n:
        r = rng.random()
        if f and r < 0.6:
            a = rng.randrange(len(f))
            b = bytearray(f[a:a + rng.randint(1, 200)])
            if rng.random() < 0.5:
                for _ in range(rng.randint(0, 4)):
                    b[rng.randrange(len(b))] = rng.randrange(256)
            out += b
        else:
            out += gen.image(rng, rng.randint(1, 60))
    return bytes(out[:n])


def seq_case(rng, comp, big=False):
    if big:
        f = gen.image(rng, rng.choice([500, 1500, 3000]))
        t = related(rng, f, rng.choice([700, 1500, 2600]))
    else:
        f = gen.image(rng, rng.choice([0, 1, 2, 10, 60, 63, 64, 65, 127, 128, 129, 200, 300]))
        t = related(rng, f, rng.choice([0, 1, 2, 10, 60, 63, 64, 65, 127, 128, 129, 200, 300]))
    return f, t


def seq_env(rng, comp=None, big=False, small=False, pads=True, **kw):
    comp = rng.choice(C_COMPS) if comp is None else comp
    f, t = seq_case(rng, comp, big)
    if small:
        f = gen.image(rng, rng.choice([0, 1, 3, 9, 20]))
        t = related(rng, f, rng.choice([1, 2, 5, 11, 24]))
    if comp == CRLE:
        kw.setdefault('zero', rng.random() < 0.3)
        kw.setdefault('pads', pads and rng.random() < 0.3)
    return Env('seq', f, gen.seq_patch_x(rng, f, t, comp, pads and rng.random() < 0.3, kw)), t


def inp_env(rng, comp=None, small=True, steps=None, geo=None, big=False):
    comp = rng.choice(C_COMPS) if comp is None else comp
    mem, seg, shift, frm, to = geo or gen.geometry(rng, small)
    m0 = gen.image(rng, mem)
    t = related(rng, m0, to)
    p = gen.inp_patch(rng, m0, mem, seg, shift, frm, t, comp, rng.random() < 0.2)
    steps = rng.random() < 0.7 if steps is None else steps
    return Env('inp', m0, p, steps=steps), (mem, seg, shift, frm, to)


def lab(env, extra=''):
    return '%s %s %dB base %dB %s' % (env.kind, gen.COMPNAME.get(env.patch[0] & 15, '?') if env.patch else '-',
                                     len(env.patch), len(env.base), extra)


def simple(rng, env, style=None):
    s = Session([env], lab(env))
    return s.init().feed(gen.cuts(rng, len(env.patch), style)).fin()


# -- C01 -------------------------------------------------------------------------

def c01(R):
    rng = common.rng('C01')
    S = []
    for n in range(scale(320, 4000)):
        env, _ = seq_env(rng, C_COMPS[n % 4], big=n % 9 == 0)
        S.append(simple(rng, env, rng.choice(['one', 'one', 'random', 'bytes']) if n % 9 else 'one'))
    # every record size around the internal boundaries
    f = gen.image(rng, 700, 'random')
    for n in scale([0, 1, 62, 63, 64, 65, 127, 128, 129, 255, 256, 257, 384, 385], range(0, 600)):
        for comp in (C_COMPS if common.THOROUGH or n in (0, 64, 128, 129, 257) else [NONE]):
            d = gen.image(rng, n, 'random')
            e = gen.image(rng, 7, 'random')
            for recs in ([(d, b'', -n)], [(b'', d, 0)], [(d, e, -n), (d[:5], d, 3), (e, e, -5)]):
                to = sum(len(x[0]) + len(x[1]) for x in recs)
                p = gen.seq_header(comp, to)
                p += gen.compress(comp, gen.body(recs), rng) if to else b''
                S.append(simple(rng, Env('seq', f, p), 'one'))
    # long numbers: far seeks
    for adj in [63, 64, 8191, 8192, 1048575, 1048576, 134217727 - 700]:
        recs = [(f[:4], b'ab', adj), (b'', b'x', -adj - 2), (f[:9], b'', 0)]
        p = gen.seq_header(NONE, 16) + gen.body(recs)
        S.append(simple(rng, Env('seq', f, p), 'one'))
    conform(R, S, name='C01')
    exhaustive(R, 'seq', name='C01')
    large.c_seq(R, 'C01', ['one', 'chunks'], scale(16, 160))


def exhaustive(R, kind, name, cutmode='one'):
    exhaust.run(R, kind, name, cutmode)


# -- C02 -------------------------------------------------------------------------

def c02(R):
    rng = common.rng('C02')
    S = []
    for n in range(scale(36, 400)):
        if n % 3 == 2:
            env, _ = inp_env(rng, C_COMPS[(n // 3) % 4], steps=True if n % 2 else False)
        else:
            env, _ = seq_env(rng, C_COMPS[n % 4], small=n % 2 == 0)
        p = env.patch
        if len(p) > scale(130, 400):
            points = sorted(rng.sample(range(len(p) + 1), scale(60, 200)))
        else:
            points = range(len(p) + 1)
        for a in (points if env.kind == 'seq' else [None]):
            pass
        if env.kind == 'seq':
            s = Session([env], lab(env, 'every cut'))
            for a in points:
                s.init().feed([a, len(p) - a]).fin()
            s.init().feed([1] * len(p)).fin()
            s.init().feed(gen.cuts(rng, len(p), 'empties')).fin()
            s.pull()
            S.append(s)
        else:
            for a in rng.sample(list(points), min(len(points), scale(14, 60))):
                S.append(Session([env], lab(env, 'cut %d' % a)).init().feed([a, len(p) - a]).fin())
            S.append(Session([env], lab(env, 'bytes')).init().feed([1] * len(p)).fin())
            S.append(Session([env], lab(env, 'empties')).init().feed(gen.cuts(rng, len(p), 'empties')).fin())
            S.append(Session([env], lab(env, 'pull')).pull())
    # cuts inside every header, all header lengths
    for n in range(scale(12, 60)):
        env, g = inp_env(rng, NONE, geo=(512, 64, 64 * rng.randint(0, 8), rng.randint(0, 512), rng.randint(1, 512)))
        for a in range(1, 14):
            S.append(Session([env], lab(env, 'header cut %d' % a)).init().feed([a, 1, -1]).fin())
    # random schedules
    for n in range(scale(160, 3000)):
        env = seq_env(rng, big=n % 11 == 0)[0] if n % 3 else inp_env(rng, small=n % 2)[0]
        S.append(simple(rng, env, rng.choice(['random', 'empties', 'tail', 'halves'])))
        if n % 5 == 0:
            S.append(Session([env], lab(env, 'pull')).pull())
    # beyond the 512 byte blocks of the pull interface
    for comp in C_COMPS:
        for size in (500, 512, 1024, 1500):
            f = gen.image(rng, 400, 'random')
            t = gen.image(rng, size, 'random')
            env = Env('seq', f, gen.seq_patch(rng, f, t, comp, far=False))
            S.append(Session([env], lab(env, 'pull')).pull())
    conform(R, S, name='C02')
    exhaust.run(R, 'seq', 'C02', 'cuts')
    exhaust.run(R, 'inp', 'C02', 'bytes')
    large.c_seq(R, 'C02', ['chunks', 'small', 'pull'], scale(12, 120))
    large.c_inp(R, 'C02', ['chunks', 'pull'], scale(8, 60))


# -- C03 -------------------------------------------------------------------------

def c03(R):
    rng = common.rng('C03')
    S = []
    comps = [NONE, CRLE, HEATSHRINK]
    for n in range(scale(24, 200)):
        env, _ = seq_env(rng, comps[n % 3], small=n % 4 != 3)
        p = env.patch
        pts = range(len(p) + 1)
        if len(p) > 60:
            pts = sorted(rng.sample(pts, scale(30, 120)))
        s = Session([env], lab(env, 'every dump point'))
        for a in pts:
            # dump, go on for a while, lose it, restore, finish
            s.init().feed([a]).line('d 0 0').feed([rng.randint(0, max(0, len(p) - a))])
            s.line('r 0 0').line('o 0').feed(gen.cuts(rng, len(p), 'random') if rng.random() < .3 else [-1]).fin()
        S.append(s)
    for n in range(scale(120, 2500)):
        env, _ = seq_env(rng, comps[n % 3], big=n % 10 == 0)
        p = env.patch
        s = Session([env], lab(env, 'history')).init()
        dumped = []
        for _ in range(rng.randint(2, 14)):
            r = rng.random()
            if r < 0.5:
                s.feed([rng.choice([0, 1, 2, 3, rng.randint(0, max(1, len(p) // 3))])])
            elif r < 0.75:
                k = rng.randrange(4)
                s.line('d 0 %d' % k)
                dumped.append(k)
            elif r < 0.95 and dumped:
                s.line('r 0 %d' % rng.choice(dumped)).line('o 0')
            else:
                s.line('o 0')
        s.feed(gen.cuts(rng, len(p)) if rng.random() < 0.5 else []).feed([-1]).line('o 0').fin()
        S.append(s)
    # a dump that cannot be made is refused
    for n in range(4):
        env, _ = seq_env(rng, LZMA)
        S.append(Session([env], lab(env, 'lzma dump')).init().feed([1]).line('d 0 0').feed([len(env.patch) // 2 + 3])
                 .line('d 0 1').feed([-1]).fin())
    conform(R, S, name='C03')
    if common.THOROUGH:
        conform(R, S, name='C03', variant='asan', limit=30)
    large.c_seq(R, 'C03', ['dump'], scale(15, 150), [NONE, CRLE, HEATSHRINK])
    mc(R, 'MCSeq', 'dump')


def mc(R, module, what):
    models.run(R, module, what)


# -- C04 -------------------------------------------------------------------------

def damage(rng, p, hdr):
    """A damaged version of patch p."""
    p = bytearray(p)
    r = rng.random()
    n = len(p)
    if r < 0.3 or n < 3:
        return bytes(p[:rng.randint(0, n)])
    if r < 0.6:
        for _ in range(rng.randint(1, 3)):
            p[rng.randrange(n)] = rng.choice([0, 1, 0x40, 0x41, 0x7f, 0x80, 0xc0, 0xff, rng.randrange(256)])
        return bytes(p)
    if r < 0.7:
        i = rng.randrange(n)
        p[i] ^= 1 << rng.randrange(8)
        return bytes(p)
    if r < 0.8:
        i = rng.randrange(n)
        del p[i:i + rng.randint(1, 4)]
        return bytes(p)
    if r < 0.9:
        i = rng.randrange(n)
        p[i:i] = gen.image(rng, rng.randint(1, 4))
        return bytes(p)
    return bytes(p) + gen.image(rng, rng.randint(1, 5))


def bad_bodies(to):
    """Plain bodies with one thing wrong, for a to-image of `to` bytes."""
    z = bytes
    s = gen.size
    big = 134217727
    yield 'negative diff', s(0) + s(-1) + s(to) + z(to) + s(0)
    yield 'negative diff later', s(0) + s(1) + z(1) + s(0) + s(0) + s(-1) + s(to) + z(to) + s(0)
    yield 'negative extra', s(0) + s(0) + s(-2) + s(0) + s(to) + z(to + 4) + s(0)
    yield 'minus zero', s(0) + b'\x40' + s(to) + z(to) + s(0)
    yield 'large diff', s(0) + s(to + 1) + z(to + 1) + s(0) + s(0)
    yield 'large extra', s(0) + s(0) + s(to + 1) + z(to + 1) + s(0)
    yield 'large sum', s(0) + s(to - 1) + z(to - 1) + s(2) + z(2) + s(0)
    yield 'huge diff', s(0) + s(big) + z(to)
    yield 'huge extra', s(0) + s(0) + s(big) + z(to)
    yield 'huge negative', s(0) + s(-big) + z(to) + s(-big)
    yield 'overlong', s(0) + b'\x80\x80\x80\x80\x80\x01' + z(to)
    yield 'overlong diff', s(0) + b'\xff\xff\xff\xff\xff\xff\x00' + z(to)
    yield 'seek before start', s(0) + s(0) + s(1) + z(1) + s(-1) + s(1) + z(1) + s(to - 2) + z(to - 2) + s(0)
    yield 'seek far', s(0) + s(0) + s(1) + z(1) + s(5000) + s(1) + z(1) + s(to - 2) + z(to - 2) + s(0)
    yield 'data format', s(4) + z(4) + s(0) + s(to) + z(to) + s(0)
    yield 'no last adjustment', s(0) + s(0) + s(to) + z(to)
    yield 'unterminated', s(0) + s(0) + s(to) + z(to) + b'\x80'
    yield 'surplus', s(0) + s(0) + s(to) + z(to) + s(0) + b'\x00'
    yield 'surplus record', s(0) + s(0) + s(to) + z(to) + s(0) + s(0) + s(0) + s(0)


def c04(R):
    rng = common.rng('C04')
    S = []
    # all truncations
    for n in range(scale(8, 40)):
        env, _ = seq_env(rng, C_COMPS[n % 4], small=True)
        for a in range(len(env.patch)):
            e2 = Env('seq', env.base, env.patch[:a])
            S.append(Session([e2], lab(e2, 'truncated')).init().feed(gen.cuts(rng, a)).fin())
        s = Session([env], lab(env, 'stopped early'))
        for a in range(0, len(env.patch), 1):
            s.init().feed([a]).fin()
        S.append(s)
    # structured damage, in every compression
    for to in (5, 130):
        for what, b in bad_bodies(to):
            for comp in C_COMPS:
                for frm in (b'', gen.image(rng, 200, 'random')):
                    p = gen.seq_header(comp, to) + gen.compress(comp, b, rng)
                    e = Env('seq', frm, p)
                    S.append(Session([e], lab(e, what)).init().feed(gen.cuts(rng, len(p))).fin())
    # headers
    for typ in range(8):
        for comp in range(16):
            p = gen.seq_header(comp, 3, typ=typ) + gen.body([(b'', b'abc', 0)])
            e = Env('seq', b'', p)
            S.append(Session([e], lab(e, 'type %d comp %d' % (typ, comp))).init()
                     .feed(gen.cuts(rng, len(p))).fin())
    for h in (b'\x00\xff\xff\xff\xff\xff\x01', b'\x00\x80\x80\x80\x80\x00', b'\x00\x43abc', b'', b'\x00', b'\x80\x01'):
        e = Env('seq', b'12345', h + gen.body([(b'', b'abc', 0)]) if len(h) > 1 else h)
        S.append(Session([e], lab(e, 'header')).init().feed(gen.cuts(rng, len(e.patch))).fin())
    # CRLE and heatshrink streams
    for raw in (b'\x02\x01a', b'\x00\x05ab', b'\x01\x05', b'\x01\xff\xff\xff\xff\xff\x01a', b'\x00\x80\x80\x80\x80\x80\x00',
                b'\x01\x84\x00a', b'\xff', b'\x00'):
        for body in (b'', gen.crle(gen.body([(b'', b'abcd', 0)])[:-2])):
            p = gen.seq_header(CRLE, 4) + body + raw
            e = Env('seq', b'12345', p)
            S.append(Session([e], lab(e, 'crle stream')).init().feed(gen.cuts(rng, len(p))).fin())
    for w, l in ((4, 3), (8, 7), (8, 6), (9, 7), (15, 14), (16, 15), (19, 18)):
        p = gen.seq_header(HEATSHRINK, 4) + bytes([((w - 4) << 4) | (l - 3)]) + gen.hs_encode([(0,), (0,), (4,), (65,), (1, 3), (0,)], w, l)
        e = Env('seq', b'12345', p)
        S.append(Session([e], lab(e, 'heatshrink %d %d' % (w, l))).init().feed(gen.cuts(rng, len(p))).fin())
    # random damage
    for n in range(scale(330, 8000)):
        env, _ = (seq_env(rng, small=n % 3 == 0) if n % 4 else inp_env(rng))
        p = damage(rng, env.patch, 0)
        if damaged_lzma_is_wild(env.kind, p):
            continue
        e = Env(env.kind, env.base, p, steps=env.steps)
        S.append(Session([e], lab(e, 'damaged')).init().feed(gen.cuts(rng, len(p))).fin())
    for n in range(scale(60, 1500)):
        p = bytes([rng.choice([0, 0, 2, 4, 0x10, 0x12, rng.randrange(256)])]) + gen.image(rng, rng.randint(0, 40), 'random' if n % 2 else 'few')
        if damaged_lzma_is_wild('seq', p):
            continue
        for kind in ('seq', 'inp'):
            e = Env(kind, gen.image(rng, 64), p)
            S.append(Session([e], lab(e, 'random')).init().feed(gen.cuts(rng, len(p))).fin())
    exhaust.patches(R, 'seq', 'C04')
    exhaust.patches(R, 'inp', 'C04')
    conform(R, S, name='C04', rules=())
    conform(R, S if common.THOROUGH else S[::3], name='C04', rules=(), variant='asan', limit=30)


def damaged_lzma_is_wild(kind, p):
    b = csession.lzma_body(kind, p)
    if b is None:
        return False
    plain, _ = csession.lzma_plain(b)
    return len(plain) > 20000


# -- C05 .. C08: in place ----------------------------------------------------------

def c05(R):
    rng = common.rng('C05')
    S = []
    for n in range(scale(420, 5000)):
        env, g = inp_env(rng, C_COMPS[n % 4], small=n % 3 != 0)
        s = Session([env], lab(env, str(g))).init()
        if n % 7 == 0:
            s.lines.pop()
            s.pull()
        else:
            s.feed(gen.cuts(rng, len(env.patch))).fin()
        S.append(s)
    S += geometry_sweep(rng, scale(3, 5), scale(3, 1))
    # geometry numbers of all lengths
    for mem, seg in ((64 * 130, 64), (1 << 20, 1 << 16), (1 << 26, 1 << 13), (8192 * 9, 8192)):
        for frm in (0, 63, 64, 8191, 8192, 1048576, 100000000):
            # nothing is shifted and nothing is read: only the announced numbers are large
            t = gen.image(rng, 40)
            p = gen.inp_header(NONE, mem, seg, mem, frm, len(t)) + gen.body([(b'', t, 0)])
            e = Env('inp', gen.image(rng, 64), p, steps=True)
            S.append(Session([e], lab(e, 'large numbers')).init().feed(gen.cuts(rng, len(p))).fin())
    conform(R, S, name='C05')
    exhaustive(R, 'inp', name='C05')
    large.c_inp(R, 'C05', ['chunks', 'pull', 'many'], scale(18, 160))


def geometry_sweep(rng, nmax, every, steps=True):
    """All small geometries."""
    S = []
    seg = 4
    c = 0
    for nm in range(1, nmax + 1):
        mem = seg * nm
        for shift in range(0, mem + 1, seg):
            for frm in range(0, mem + 1):
                for to in range(1, mem + 1):
                    c += 1
                    if c % every:
                        continue
                    env, g = inp_env(rng, C_COMPS[c % 4] if c % 3 == 0 else NONE, geo=(mem, seg, shift, frm, to),
                                     steps=steps if steps is not None else None)
                    S.append(Session([env], lab(env, str(g))).init().feed(gen.cuts(rng, len(env.patch))).fin())
    return S


def crash_sessions(rng, count, maxpoints, nested=True, comps=C_COMPS):
    S = []
    for n in range(count):
        env, g = inp_env(rng, comps[n % len(comps)], small=True, steps=True)
        mem, seg, shift, frm, to = g
        ns = gen.ceil_div(min(frm, mem - shift), seg) if shift else 0
        nops = ns * 3 + 4 * gen.ceil_div(to, seg) + 2
        pts = list(range(1, nops + 1))
        if len(pts) > maxpoints:
            pts = rng.sample(pts, maxpoints)
        for a in pts:
            for mode in (rng.sample(range(4), 2) if maxpoints < 100 else range(4)):
                s = Session([env], lab(env, '%s power loss at %d mode %d' % (g, a, mode)))
                s.line('x 0 %d %d' % (a, mode)).init().feed(gen.cuts(rng, len(env.patch))).fin().line('y 0')
                if nested:
                    for _ in range(rng.choice([0, 0, 1, 1, 2, 4])):
                        s.line('x 0 %d %d' % (rng.randint(1, max(2, nops // 2)), rng.randrange(4)))
                        s.init().feed(gen.cuts(rng, len(env.patch))).fin().line('y 0')
                    if rng.random() < 0.2:
                        # switched off between two calls
                        s.line('x 0 0 0').init().feed([rng.randint(0, len(env.patch))]).line('y 0')
                s.line('x 0 0 0').init().feed(gen.cuts(rng, len(env.patch))).fin()
                S.append(s)
    return S


def many_segments(rng, count):
    """More segments and steps than a byte can count."""
    S = []
    for n in range(count):
        seg = rng.choice([2, 3, 4])
        mem = seg * rng.choice([257, 260, 300])
        shift = seg * rng.choice([0, 1, 2, 100])
        m0, t, p = big.inp_case(rng, C_COMPS[n % 4], mem, seg, shift, mem - rng.choice([0, shift, 5]), mem - rng.randint(0, 3),
                                lens=(0, 1, 2), styles='mixed', maxrec=2)
        e = Env('inp', m0, p)
        s = Session([e], 'many segments %d %d %d' % (mem, seg, shift))
        if n % 2:
            s.line('x 0 %d %d' % (rng.choice([900, 1300, rng.randint(3, 1200)]), rng.randrange(4)))
            s.init().feed(gen.cuts(rng, len(p), 'one')).fin().line('y 0').line('x 0 0 0')
        s.init().feed(gen.cuts(rng, len(p), 'random')).fin()
        S.append(s)
    return S


def c06(R):
    rng = common.rng('C06')
    S = crash_sessions(rng, scale(40, 300), scale(9, 200))
    conform(R, S, name='C06')
    large.c_inp(R, 'C06', ['crash'], scale(20, 200))
    mc(R, 'MCInPlace', 'recover')


def bad_geometries(rng):
    out = []
    for mem, seg, shift, frm, to in ((64, 0, 16, 20, 20), (64, 0, 0, 0, 1), (64, 16, 80, 20, 20), (64, 16, 128, 64, 64),
                                     (64, 16, 16, 20, 65), (64, 16, 16, 64, 100), (0, 16, 0, 0, 4), (0, 0, 0, 0, 1),
                                     (64, 128, 0, 64, 64), (64, 128, 128, 64, 64), (60, 16, 16, 60, 60),
                                     (64, 16, 8, 20, 20), (64, 16, 24, 64, 64), (64, 48, 48, 64, 64), (64, 3, 6, 10, 10),
                                     (48, 32, 32, 48, 40), (134217727, 134217727, 0, 134217727, 134217727),
                                     (64, 16, 134217727, 64, 64), (64, 16, 16, 64, 134217727),
                                     (64, 134217727, 16, 64, 64), (64, 1, 65, 1, 64), (63, 16, 16, 63, 63)):
        for comp in (NONE, CRLE, HEATSHRINK, LZMA):
            t = gen.image(rng, min(to, 64))
            body = gen.body([(b'', t, 0)])
            out.append((gen.inp_header(comp, mem, seg, shift, frm, to) + gen.compress(comp, body, rng),
                        (mem, seg, shift, frm, to)))
    return out


def bad_inp_bodies(mem, seg, shift, frm, to):
    s = gen.size
    z = bytes
    n = min(seg, to)
    big = 134217727
    yield 'read before', s(0) + s(0) + s(1) + z(1) + s(-5000) + s(2) + z(2) + s(n - 3) + z(n - 3) + s(0)
    for k in (1, 2, 60, 127, 128, 129):
        for m in (1, 5, 100, 130):
            if m <= n - 2 and (k == 1 or n > 200):
                yield 'read %d before' % k, s(0) + s(0) + s(1) + z(1) + s(-max(seg, shift) - k) + s(m) + z(m) + s(n - 1 - m) + z(n - 1 - m) + s(0)
    yield 'read beyond', s(0) + s(0) + s(1) + z(1) + s(mem) + s(2) + z(2) + s(n - 3) + z(n - 3) + s(0)
    yield 'read beyond by one', s(0) + s(0) + s(1) + z(1) + s(mem - max(seg, shift) - 1) + s(2) + z(2) + s(n - 3) + z(n - 3) + s(0)
    yield 'read far', s(0) + s(0) + s(1) + z(1) + s(big) + s(2) + z(2) + s(n - 3) + z(n - 3) + s(0)
    yield 'record longer than the segment', s(0) + s(0) + s(min(to, seg + 1)) + z(min(to, seg + 1)) + s(0) + s(0) + s(to) + z(to) + s(0)
    yield 'diff longer than the segment', s(0) + s(min(to, seg + 1)) + z(min(to, seg + 1)) + s(0) + s(0) + s(0)
    yield 'everything in one segment', s(0) + s(0) + s(to) + z(to) + s(0)
    yield 'negative diff', s(0) + s(-3) + s(to) + z(to) + s(0)
    yield 'negative extra', s(0) + s(0) + s(-3) + s(0) + s(0) + s(to) + z(to) + s(0)
    yield 'huge diff', s(0) + s(big) + z(to + 20)
    yield 'huge extra', s(0) + s(0) + s(big) + z(to + 20)
    yield 'sum', s(0) + s(n - 1) + z(n - 1) + s(2) + z(2) + s(0)
    yield 'data format', s(3) + z(40)
    yield 'overlong', s(0) + b'\x80\x80\x80\x80\x80\x01' + z(to)


def c07(R):
    rng = common.rng('C07')
    S = []
    for n in range(scale(200, 2500)):
        env, g = inp_env(rng, C_COMPS[n % 4], small=n % 3 != 0)
        S.append(Session([env], lab(env, str(g))).init().feed(gen.cuts(rng, len(env.patch))).fin())
    S += geometry_sweep(rng, scale(3, 5), scale(5, 1), steps=None)
    S += crash_sessions(rng, scale(10, 100), scale(5, 100))
    for p, g in bad_geometries(rng):
        for memsize in (64, 0):
            e = Env('inp', gen.image(rng, memsize), p, steps=rng.random() < 0.5)
            S.append(Session([e], lab(e, 'geometry %s' % (g,))).init().feed(gen.cuts(rng, len(p))).fin())
    for g in ((64, 16, 16, 50, 60), (64, 16, 32, 64, 20), (32, 8, 0, 32, 30), (64, 16, 64, 64, 64), (512, 256, 256, 300, 500)):
        for what, b in bad_inp_bodies(*g):
            for comp in C_COMPS:
                p = gen.inp_header(comp, *g) + gen.compress(comp, b, rng)
                e = Env('inp', gen.image(rng, g[0]), p, steps=rng.random() < 0.5)
                S.append(Session([e], lab(e, '%s %s' % (what, g))).init().feed(gen.cuts(rng, len(p))).fin())
    for n in range(scale(200, 4000)):
        env, g = inp_env(rng)
        p = damage(rng, env.patch, 0)
        if damaged_lzma_is_wild('inp', p):
            continue
        e = Env('inp', env.base, p, steps=env.steps)
        S.append(Session([e], lab(e, 'damaged %s' % (g,))).init().feed(gen.cuts(rng, len(p))).fin())
    S += many_segments(rng, scale(2, 12))
    conform(R, S, name='C07', rules=('bounds', 'flash', 'needed'))
    mc(R, 'MCInPlace', 'flash')


def c08(R):
    rng = common.rng('C08')
    S = []
    for n in range(scale(160, 2500)):
        env, g = inp_env(rng, C_COMPS[n % 4], small=n % 3 != 0)
        s = Session([env], lab(env, str(g))).init()
        if n % 6 == 0:
            s.lines.pop()
            s.pull()
        else:
            s.feed(gen.cuts(rng, len(env.patch))).fin()
        S.append(s)
    S += geometry_sweep(rng, scale(3, 5), scale(6, 1), steps=None)
    S += crash_sessions(rng, scale(24, 250), scale(7, 200))
    S += many_segments(rng, scale(4, 24))
    conform(R, S, name='C08', rules=('steps',))
    mc(R, 'MCInPlace', 'steps')


# -- C09 -------------------------------------------------------------------------

def c09(R):
    rng = common.rng('C09')
    S = []
    values = (-1, -5, -77)
    for n in range(scale(30, 250)):
        env, _ = seq_env(rng, C_COMPS[n % 4], small=n % 3 == 0)
        cut = gen.cuts(rng, len(env.patch), 'random')
        for kind in 'rsw':
            top = rng.sample(range(1, 9), 3) if n % 2 else range(1, 5)
            for a in top:
                s = Session([env], lab(env, 'fault %s %d' % (kind, a)))
                s.line('q 0 %s %d %d' % (kind, a, rng.choice(values))).init().feed(cut).feed([1, 0, 2]).fin()
                S.append(s)
        for a in (1, 2, 3):
            s = Session([env], lab(env, 'patch read fault %d' % a))
            s.line('q 0 P %d %d' % (a, rng.choice(values))).pull()
            S.append(s)
            s = Session([env], lab(env, 'pull with write fault %d' % a))
            s.line('q 0 %s %d %d' % (rng.choice('rsw'), a, rng.choice(values))).pull()
            S.append(s)
        if (env.patch[0] & 15) != LZMA:
            a = rng.randint(0, len(env.patch))
            s = Session([env], lab(env, 'dump and restore faults')).init().feed([a])
            s.line('q 0 D 1 -3').line('d 0 0').line('d 0 1')
            s.line('q 0 U 1 -1').line('r 0 1')
            s.line('q 0 s 1 -1').line('r 0 1').line('q 0 - 0 0').line('r 0 1').feed([-1]).fin()
            S.append(s)
            # nothing is done with what could not be restored
            for kind in 'Us':
                s = Session([env], lab(env, 'failed restore')).init().feed([a]).line('d 0 0').init()
                s.line('q 0 %s 1 -1' % kind).line('r 0 0').feed(rng.choice([[], [-1], [1, 2, -1]])).fin()
                S.append(s)
    for n in range(scale(36, 250)):
        if n % 3 == 2:
            # segments of several blocks, most of them shifted
            seg = rng.choice([200, 256, 400])
            k = rng.randint(2, 4)
            env, g = inp_env(rng, C_COMPS[n // 3 % 4], steps=n % 2 == 0,
                             geo=(seg * k, seg, seg, seg * (k - 1) - rng.choice([0, 0, 60]), rng.randint(seg, seg * k)))
        else:
            env, g = inp_env(rng, C_COMPS[n % 4], steps=n % 5 != 0)
        cut = gen.cuts(rng, len(env.patch), 'random')
        for kind in ('RWESG' if env.steps else 'RWE'):
            for a in (rng.sample(range(1, 30), 3) if kind == 'G' else rng.sample(range(1, 9), 5 if n % 3 == 2 and kind in 'RW' else 3)):
                s = Session([env], lab(env, 'fault %s %d %s' % (kind, a, g)))
                s.line('q 0 %s %d %d' % (kind, a, rng.choice(values))).init().feed(cut).feed([1, 0, 2]).fin()
                if env.steps:
                    # resumable
                    s.line('y 0').line('q 0 - 0 0').init().feed(gen.cuts(rng, len(env.patch))).fin()
                S.append(s)
        s = Session([env], lab(env, 'pull with patch fault'))
        S.append(s.line('q 0 P 1 -1').pull())
    conform(R, S, name='C09', rules=())


# -- C10 -------------------------------------------------------------------------

def c10(R):
    rng = common.rng('C10')
    S = []
    # random call sequences
    for n in range(scale(220, 4000)):
        if n % 3 == 0:
            env, _ = inp_env(rng)
        else:
            env, _ = seq_env(rng, small=n % 2 == 0)
        if rng.random() < 0.4:
            p = damage(rng, env.patch, 0)
            if damaged_lzma_is_wild(env.kind, p):
                continue
            env = Env(env.kind, env.base, p, steps=env.steps)
        s = Session([env], lab(env, 'life cycle')).init()
        for _ in range(rng.randint(0, 9)):
            r = rng.random()
            if r < 0.75:
                s.feed([rng.choice([0, 1, 1, 2, 5, rng.randint(0, len(env.patch) + 1)])])
            elif env.kind == 'seq':
                s.line('o 0')
        if rng.random() < 0.7:
            s.feed([-1]).feed([0])
        s.fin()
        S.append(s)
    # surplus bytes after the end, in compressions that allow them to be seen as such
    for n in range(scale(40, 400)):
        kind = 'seq' if n % 2 else 'inp'
        comp = [NONE, CRLE, HEATSHRINK][n % 3]
        env = (seq_env(rng, comp, small=True) if kind == 'seq' else inp_env(rng, comp))[0]
        tail = gen.image(rng, rng.randint(1, 8))
        e = Env(kind, env.base, env.patch + tail, steps=env.steps)
        S.append(Session([e], lab(e, 'surplus')).init().feed([len(env.patch)]).feed([1] * (len(tail) - 1)).feed([-1]).fin())
    # the documented codes, sequential and in place, every place
    for kind in ('seq', 'inp'):
        g = (64, 16, 16, 40, 40)

        def head(comp, to, typ):
            return (gen.seq_header(comp, to, typ=typ) if kind == 'seq'
                    else gen.inp_header(comp, g[0], g[1], g[2], g[3], to, typ=typ))
        right = 0 if kind == 'seq' else 1
        base = gen.image(rng, 64)
        P = []
        for typ in range(8):
            for comp in (0, 2, 4, 3, 5, 6, 7, 15):
                b = gen.body([(b'', b'abc', 0)])
                P.append(head(comp, 3, typ) + (gen.compress(comp, b, rng) if comp in (0, 2, 4) else b))
        for comp in (0, 2, 4):
            for what, b in list(bad_bodies(5)) + list(bad_inp_bodies(64, 16, 16, 40, 40)):
                P.append(head(comp, 5, right) + gen.compress(comp, b, rng))
        for b in (b'\x02', b'\x00\x01\x00\x03', b'\x00\x81\x81\x81\x81\x81\x01', b'\x01\x81\x81\x81\x81\x01\x01'):
            P.append(head(CRLE, 5, right) + b)
        for b in (b'\x00', b'\x12', b'\xff', b'\x45'):
            P.append(head(HEATSHRINK, 5, right) + b + b'\x00' * 4)
        for i in range(1, 2 if kind == 'seq' else 6):
            h = bytes([right << 4])
            for j in range(1, 6):
                h += b'\xff\xff\xff\xff\xff\xff\x01' if i == j else gen.size(16)
            P.append(h)
        for p in P:
            e = Env(kind, base, p)
            S.append(Session([e], lab(e, 'codes')).init().feed(gen.cuts(rng, len(p))).feed([0]).fin())
            s = Session([e], lab(e, 'after a failure')).init().feed([-1])
            S.append(s.fin())
        for p in P[::5]:
            e = Env(kind, base, p + b'abcdef')
            S.append(Session([e], lab(e, 'fed after a failure')).init().feed([len(p), 1, 0, 2, -1]).fin())
        # nothing fed
        e = Env(kind, base, P[0])
        S.append(Session([e], lab(e, 'nothing fed')).init().fin())
        S.append(Session([e], lab(e, 'nothing fed')).init().feed([0, 0]).fin())
    # callbacks that fail
    for n in range(scale(110, 1000)):
        env = seq_env(rng, small=n % 4 == 1)[0] if n % 2 else inp_env(rng, small=n % 4 == 0)[0]
        kind = rng.choice('rsw' if env.kind == 'seq' and env.patch[0] & 15 == LZMA else 'rswDU' if env.kind == 'seq' else 'RWESG' if env.steps else 'RWE')
        s = Session([env], lab(env, 'failing %s' % kind))
        q = 'q 0 %s %d %d' % (kind, rng.choice([1, 1, 2, 3, 5]), rng.choice((-1, -5, -10, -24, -77)))
        if kind in 'DU':
            s.init().feed([rng.randint(0, len(env.patch))]).line('d 0 0').line(q)
            for _ in range(3):
                s.line('d 0 1' if kind == 'D' else 'r 0 0')
            s.line('d 0 2').feed([-1])
        elif n % 5 == 0:
            S.append(Session([env], lab(env, 'failing pull')).line(rng.choice([q, 'q 0 P 1 -4'])).pull())
            continue
        else:
            s.line(q).init().feed(gen.cuts(rng, len(env.patch)))
        S.append(s.feed([1]).fin())
    conform(R, S, name='C10', exact=True)


# -- C11 -------------------------------------------------------------------------

def interleavings(a, b):
    if not a or not b:
        yield list(a) + list(b)
        return
    for r in interleavings(a[1:], b):
        yield [a[0]] + r
    for r in interleavings(a, b[1:]):
        yield [b[0]] + r


# -- C31 (builds with features left out) -------------------------------------------------------------------------

SWITCH = {NONE: 'COMPRESSION_NONE', LZMA: 'COMPRESSION_LZMA', CRLE: 'COMPRESSION_CRLE', HEATSHRINK: 'COMPRESSION_HEATSHRINK'}


def reduced_sessions(rng, lib, n, dynamic):
    """Lives of patches of every compression, whether built in or not."""
    S = []
    for k in range(n):
        comp = C_COMPS[k % 4]
        env = seq_env(rng, comp, small=k % 3 == 0, big=k % 16 == 5)[0] if k // 4 % 2 else inp_env(rng, comp)[0]
        if k % 9 == 4:
            p = damage(rng, env.patch, 0)
            if not damaged_lzma_is_wild(env.kind, p):
                env = Env(env.kind, env.base, p, steps=env.steps)
        env.lib = lib
        p = env.patch
        s = Session([env], '%s built with %s' % (lab(env), lib))
        r = rng.random()
        if r < 0.2:
            s.pull()
        elif env.kind == 'seq' and r < 0.6:
            s.init().feed([0 if k % 9 == 4 else rng.choice([0, 1])]).line('d 0 0').feed([rng.randint(0, 4)]).line('r 0 0')
            for _ in range(rng.randint(1, 5)):
                s.feed([rng.randint(0, len(p) // 2 + 1)]).line('d 0 0')
                if k % 9 != 4 and rng.random() < 0.6 and comp in lib and comp != LZMA and not (dynamic and comp == HEATSHRINK):
                    s.feed([rng.randint(0, 9)]).line('r 0 0').line('o 0')
            s.feed([-1, 1, 0]).fin()
        elif r < 0.8:
            if rng.random() < 0.5 and env.kind == 'inp':
                s.line('q 0 %s %d -5' % (rng.choice('RWE'), rng.randint(1, 4)))
            s.init().feed(gen.cuts(rng, len(p))).feed([rng.choice([0, 1])]).fin()
        else:
            s.init().feed([rng.randint(0, len(p))] * rng.choice([1, 1, 2])).fin()
        S.append(s)
    return S


def c31(R):
    rng = common.rng('C31')
    recs = {False: ([], []), True: ([], [])}
    crun.build()
    jobs = []
    for bits in range(16):
        lib = [c for k, c in enumerate(C_COMPS) if bits >> k & 1]
        for dynamic in (False, True) if HEATSHRINK in lib else (False,):
            for files in (0, 1):
                config = (('FILE_IO', files),) + tuple((SWITCH[c], int(c in lib)) for c in C_COMPS)
                for variant in ('plain', 'asan') if files else ('plain',):
                    jobs.append((lib, dynamic, config, variant))

    def make(j):
        try:
            return crun.build(j[3], dynamic=j[1], config=j[2])
        except common.CheckError as e:
            return str(e)
    with ThreadPoolExecutor(8) as ex:
        built = list(ex.map(make, jobs))
    for (lib, dynamic, config, variant), out in zip(jobs, built):
        what = ' '.join('%s=%d' % c for c in config) + (' dynamic' if dynamic else '')
        if '\n' in out:
            R.violation('C31: the library does not build with %s' % what, {'output': out[-1500:]})
            continue
        k, r = csession.record(R, reduced_sessions(rng, lib, scale(20, 240), dynamic), dynamic, variant, config=config)
        recs[dynamic][0].extend(k)
        recs[dynamic][1].extend(r)
    for dynamic, (k, r) in recs.items():
        csession.judge(R, k, r, exact=True, dynamic=dynamic, name='C31', rules=ALLRULES)


def c11(R):
    rng = common.rng('C11')
    S = []

    def calls(env, k, parts):
        n = len(env.patch)
        s = Session([env] * 0)
        init = ('I %d s -1' % k) if env.kind == 'seq' else 'I %d p -1 %d' % (k, 1 if env.steps else 0)
        out = [init]
        left = n
        for j in range(parts):
            m = left if j == parts - 1 else rng.randint(0, left)
            out.append('p %d %d' % (k, m))
            left -= m
        out.append('f %d' % k)
        return out

    def env_of(c):
        kind, comp = c
        return seq_env(rng, comp, small=True)[0] if kind == 'seq' else inp_env(rng, comp)[0]
    kinds = [(k, c) for k in ('seq', 'inp') for c in C_COMPS]
    # all interleavings of two short lives
    pairs = [(a, b) for i, a in enumerate(kinds) for b in kinds[i:]]
    for n, (a, b) in enumerate(pairs):
        ea, eb = env_of(a), env_of(b)
        ia = list(interleavings(calls(ea, 0, 2), calls(eb, 1, 2)))
        for r in (ia if common.THOROUGH else rng.sample(ia, 9)):
            s = Session([ea, eb], '%s %s with %s %s' % (a[0], a[1], b[0], b[1]))
            s.lines += r
            S.append(s)
    # three and four objects, with dumps and failures in between
    for n in range(scale(60, 900)):
        envs = []
        seqs = []
        for k in range(rng.choice([2, 3, 4])):
            e = env_of(rng.choice(kinds))
            if rng.random() < 0.2:
                p = damage(rng, e.patch, 0)
                if not damaged_lzma_is_wild(e.kind, p):
                    e = Env(e.kind, e.base, p, steps=e.steps)
            envs.append(e)
            c = calls(e, k, rng.randint(1, 6))
            if e.kind == 'seq' and (e.patch[:1] or b'\0')[0] & 15 in (0, 2, 4) and rng.random() < 0.5:
                i = rng.randint(1, len(c) - 1)
                c[i:i] = ['d %d %d' % (k, k), 'r %d %d' % (k, k)]
            seqs.append(c)
        s = Session(envs, '%d objects' % len(envs))
        while any(seqs):
            q = rng.choice([q for q in seqs if q])
            s.lines.append(q.pop(0))
        S.append(s)
    # whole calls of one object in the middle of a callback of another (those
    # whose callback is never reached do not happen)
    for n in range(scale(160, 2500)):
        ea, eb = env_of(rng.choice(kinds)), env_of(rng.choice(kinds))
        s = Session([ea, eb], 'nested %s %s' % (lab(ea), lab(eb)))
        cb = calls(eb, 1, rng.randint(1, 6))
        ca = calls(ea, 0, rng.randint(1, 4))
        inner = rng.randint(1, min(7, len(cb)))
        inner = min(inner, len(cb) - 1)
        first = rng.randint(1, len(cb) - inner)
        s.lines += cb[:first]
        at = sorted(rng.randint(1, 6) for _ in range(inner))
        kind = rng.choice('rws' if ea.kind == 'seq' else 'RWE')
        for c, m in zip(at, cb[first:first + inner]):
            s.line('N 0 %s %d %s' % (kind, c, m))
        s.lines += ca
        S.append(s)
    conform(R, S, name='C11', rules=ALLRULES)


CHECKS = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C06': c06, 'C07': c07,
          'C08': c08, 'C09': c09, 'C10': c10, 'C11': c11, 'C31': c31}
