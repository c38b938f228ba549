"""C12..C14: the parts of the C library and their Python counterparts."""
import os
import json
import subprocess
from vlib import gen, common, crun, tlc
from vlib.common import scale, CheckError, REPO
from checks import exhaust, large

# -- C12: the heatshrink decoder ------------------------------------------------


def hs_build(dynamic, variant):
    out = os.path.join(common.work(), 'hs-%s-%s' % ('dyn' if dynamic else 'static', variant))
    if not os.path.exists(out):
        cmd = ['gcc', '-std=gnu99', '-g', '-O1', '-w', '-I' + REPO + '/c/heatshrink', '-o', out,
               os.path.join(crun.HERE, 'c', 'hs.c'), REPO + '/c/heatshrink/heatshrink_decoder.c']
        if dynamic:
            cmd.append('-DHEATSHRINK_DYNAMIC_ALLOC=1')
        if variant == 'asan':
            cmd += ['-fsanitize=address,undefined', '-fno-sanitize=shift', '-fno-sanitize-recover=all']
        crun.sh(cmd)
    return out


def hs_run(scripts, dynamic, variant='plain'):
    """Events per script; None where the program died."""
    binary = hs_build(dynamic, variant)

    def one(part, limit):
        """What the first of them did; the last of these is None if it died."""
        text = ''.join('S\n' + '\n'.join(s) + '\n' for s in part)
        p = subprocess.run([binary, str(limit)], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1'))
        res = []
        ended = False
        for l in p.stdout.decode('latin-1').split('\n'):
            try:
                e = json.loads(l)
            except ValueError:
                continue
            if e['e'] == 'session':
                res.append([])
            elif e['e'] == 'end':
                ended = True
            else:
                res[-1].append(e)
        if p.returncode != 0 or not ended:
            if not res:
                raise CheckError('heatshrink harness: no answer\n%s' % p.stderr[-500:])
            res[-1] = None
        elif len(res) != len(part):
            raise CheckError('heatshrink harness: %d answers for %d uses' % (len(res), len(part)))
        return res

    def go(part):
        res = []
        deaths = 0
        while len(res) < len(part):
            res += one(part[len(res):], 10 if deaths < 2 else 1)
            deaths += res[-1] is None
        return res
    out = []
    from concurrent.futures import ThreadPoolExecutor
    per = max(1, (len(scripts) + 7) // 8)
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(go, [scripts[i:i + per] for i in range(0, len(scripts), per)]):
            out += r
    return out


def hs_stream(rng, w, l, n, top=2000):
    """A stream of random symbols."""
    syms = []
    size = 0
    while len(syms) < n:
        if rng.random() < 0.45:
            syms.append((rng.randrange(256),))
            size += 1
        else:
            W, L = 1 << w, 1 << l
            d = rng.choice([1, 2, W, W - 1, rng.randint(1, W), max(1, min(W, size)), max(1, min(W, size + 1)),
                            max(1, min(W, size + rng.randint(1, 20)))])
            k = rng.choice([1, 2, L, L - 1, rng.randint(1, L), rng.randint(1, min(L, 40))])
            if k > top:
                k = rng.randint(1, min(L, top, 300))
            syms.append((d, k))
            size += k
    return gen.hs_encode(syms, w, l, rng.choice([0, 1, 1]))


def hs_history(rng, b, w, l, stream):
    script = ['a %d %d %d' % (b, w, l)]
    data = []
    i = 0
    n = len(stream)
    style = rng.choice(['bytes', 'big', 'mixed', 'mixed', 'full'])
    steps = 0
    if rng.random() < 0.2:
        # another stream before, abandoned
        junk = gen.image(rng, rng.randint(1, 30))
        script.append('s ' + junk.hex())
        data.append(junk)
        script.append('p %d' % rng.randint(0, 20))
        script.append('R')
    if rng.random() < 0.3:
        script.append('f')
    # (the generator does not know how much a sink accepts: it polls until
    # the specification says the decoder must have room)
    while i < n:
        k = {'bytes': 1, 'big': n, 'full': b}.get(style) or rng.choice([0, 1, 2, 3, 7, b, b + 5, rng.randint(0, n)])
        k = min(k, n - i, b)
        script.append('s ' + stream[i:i + k].hex())
        data.append(stream[i:i + k])
        i += k
        while rng.random() < 0.4:
            script.append('p %d' % rng.choice([0, 1, 2, 3, 5, 17]))
        if rng.random() < 0.15:
            script.append('f')
        # everything out: repeated polls with room to spare
        script.append('P')
    script.append('f')
    return script, data


def hs_greedy(rng, b, w, l, stream):
    """Sinks as much as the decoder takes, at any time, and reads a little."""
    script = ['a %d %d %d' % (b, w, l), 'D ' + stream.hex()]
    for _ in range(rng.randint(1, 40)):
        r = rng.random()
        if r < 0.45:
            script.append('n %d' % rng.choice([1, 2, 5, b, b + 1, 2 * b, len(stream), rng.randint(0, len(stream))]))
        elif r < 0.97:
            script.append('p %d' % rng.choice([0, 1, 2, 3, 8, 50, 300, rng.randint(0, 40)]))
        else:
            script.append('f')
    return script + ['Q %d %d' % (rng.choice([1, 3, b, 2 * b]), rng.choice([3, 7, 100, 5000])), 'f']


def hs_expand(script, rng):
    out = []
    for l in script:
        if l == 'P':
            out += ['p %d' % rng.choice([4096, 40000])] * 2 + ['p 100000']
        else:
            out.append(l)
    return out


def hs_sessions(R, jobs, dynamic, variant):
    """jobs: list of (params, script)"""
    raw = hs_run([s for _, s in jobs], dynamic, variant)
    recs = []
    keep = []
    for (par, script), ev in zip(jobs, raw):
        if ev is None:
            R.violation('C12: the decoder crashes or does not terminate', {'par': par, 'script': script})
            continue
        sinks = [l for l in script if l.startswith('s ')]
        k = 0
        evs = []
        for e in ev:
            e = dict(e)
            if e['e'] == 's' and 'data' in e:
                e['data'] = list(bytes.fromhex(e['data']))
            elif e['e'] == 's':
                e['data'] = list(bytes.fromhex(sinks[k][2:]))
                k += 1
            if e['e'] == 'p':
                e['w'] = list(bytes.fromhex(e['w']))
            evs.append(e)
        recs.append({'par': dict(zip('bwl', par)), 'ev': evs})
        keep.append((par, script))
    if not recs:
        return
    cfg = 'SPECIFICATION Spec\nVIEW Position\nCONSTANT Static = %s\n' % ('FALSE' if dynamic else 'TRUE')
    total, rejects = tlc.check_traces('TraceHs', cfg, recs)
    R.add(states=total.states, transitions=total.transitions,
          traces_validated_against_impl=len(recs) - len(rejects))
    R.sample({'heatshrink': keep[0][0], 'script': [l[:80] for l in keep[0][1][:6]]})
    for j, i, _ in rejects:
        R.violation('C12 %s: event %s is no behaviour of the specification: %s'
                    % (keep[j][0], i, str(recs[j]['ev'][(i or 1) - 1])[:200]),
                    {'par': keep[j][0], 'script': keep[j][1], 'event': i})


def c12(R):
    rng = common.rng('C12')
    jobs = []
    for n in range(scale(250, 3000)):
        par = (256, 8, 7)
        s, _ = hs_history(rng, *par, hs_stream(rng, 8, 7, rng.choice([1, 3, 10, 30, 80])))
        jobs.append((par, hs_expand(s, rng)))
    for n in range(scale(200, 3000)):
        par = (256, 8, 7)
        jobs.append((par, hs_greedy(rng, *par, hs_stream(rng, 8, 7, rng.choice([10, 30, 80, 300, 600]), 4))))
    hs_sessions(R, jobs, False, 'asan')
    jobs = []
    for w in range(4, 16):
        for n in range(scale(12, 120)):
            l = rng.randint(3, w - 1)
            par = (rng.choice([1, 2, 3, 8, 16, 64, 256]), w, l)
            jobs.append((par, hs_greedy(rng, *par, hs_stream(rng, w, l, rng.choice([5, 20, 60]), 30))))
        for l in range(3, w):
            for n in range(scale(4, 40)):
                par = (rng.choice([1, 2, 3, 16, 256, 1000]), w, l)
                s, _ = hs_history(rng, *par, hs_stream(rng, w, l, rng.choice([2, 10, 25, 60])))
                jobs.append((par, hs_expand(s, rng)))
    # parameters that are refused
    for par in [(0, 8, 7), (1, 3, 3), (1, 16, 7), (1, 8, 8), (1, 8, 9), (1, 8, 2), (1, 15, 15), (1, 4, 4), (1, 0, 0),
                (1, 15, 14), (65535, 15, 14), (1, 4, 3)]:
        jobs.append((par, ['a %d %d %d' % par]))
    # past the window and past 65536 bytes of output
    for w, l in ((15, 14), (14, 13), (12, 8), (15, 3)):
        syms = [(65,), (66,), (67,)] + [(3, 1 << l)] * (6 if l > 12 else 20) + [(1 << w, 1 << l), (90,), (1 << w, 7)]
        syms += [((1 << w) - k, 5) for k in range(3)]
        if l == 14:
            syms += [(90 + k, 16000) for k in range(2)] + [(1,), (1 << w, 20)]
        st = gen.hs_encode(syms, w, l)
        s = ['a 256 %d %d' % (w, l)]
        for i in range(0, len(st), 40):
            s += ['s ' + st[i:i + 40].hex()] + ['p 50000'] * 4
        jobs.append(((256, w, l), s + ['f']))
    hs_sessions(R, jobs, True, 'asan')
    # every stream of two (three) bytes
    hs_all(R)


def hs_all(R):
    rng = common.rng('hs_all')
    cases = [dict(w=4, l=3, head=[], more=2, alphabet=list(range(256)))]
    for w, l in ((5, 4), (6, 3), (8, 7), (9, 7), (9, 8), (11, 10)):
        cases.append(dict(w=w, l=l, head=[0xa0, 0xd0 | 3, 0x37], more=scale(3, 4),
                          alphabet=[0, 1, 0x80, 0x40, 0xff, 0x55] if common.THOROUGH else [0, 0x80, 0x41, 0xff]))
    items = exhaust.cases_of('HsGen', 'SPECIFICATION Spec\nPROPERTY Monotone\nINVARIANT Emit\n', cases, R, 'C12')
    top = scale(20000, 200000)
    if len(items) > top:
        items = rng.sample(items, top)
    for dyn in (True, False):
        part = [x for x in items if dyn or (cases[x[0] - 1]['w'], cases[x[0] - 1]['l']) == (8, 7)]
        scripts = []
        for c, b, out in part:
            sink = ['s ' + bytes(b).hex()] if rng.random() < 0.5 else \
                   sum([['s %02x' % v, 'p 9999'] for v in b], [])
            scripts.append(['a 256 %d %d' % (cases[c - 1]['w'], cases[c - 1]['l'])] + sink
                           + ['p 9999', 'p 9999', 'f'])
        for (c, b, out), s, ev in zip(part, scripts, hs_run(scripts, dyn, 'plain')):
            got = None if ev is None else b''.join(bytes.fromhex(e['w']) for e in ev if e['e'] == 'p')
            if got != bytes(out) or ev[-1]['res'] != 0:
                R.violation('C12: stream %s (window %d, lookahead %d) decodes to %s instead of %s'
                            % (bytes(b).hex(), cases[c - 1]['w'], cases[c - 1]['l'],
                               got.hex() if got is not None else 'nothing', bytes(out).hex()), {'script': s})
        R.add(traces_validated_against_impl=len(part))



# -- C13: CRLE ----------------------------------------------------------------------

from vlib import csession                            # noqa: E402
from vlib.gen import CRLE, NONE                      # noqa: E402
from checks import models                            # noqa: E402
from checks.py_apply import Case, conform, result    # noqa: E402


def crlec_case(pieces):
    s = {'op': 'crlec', 'res': 'ok', 'data': [list(x) for x in pieces], 'out': []}

    def fill(r):
        result(r, s)
        if s['res'] == 'ok':
            s['out'] = [list(bytes.fromhex(x)) for x in r['out']]
    return Case('compress %d bytes in %d pieces' % (sum(map(len, pieces)), len(pieces)),
                {'op': 'crle_c', 'data': [bytes(x).hex() for x in pieces]}, s, fill)


def crled_case(stream, calls):
    s = {'op': 'crled', 'res': 'ok', 'stream': list(stream), 'ev': []}

    def fill(r):
        result(r, s)
        for e in (r or {}).get('ev', []):
            s['ev'].append({'n': e['n'], 'size': e['size'], 'w': list(bytes.fromhex(e['w'])), 'exc': bool(e['exc']),
                            'eof': bool(e['eof']), 'needs': bool(e['needs'])})
        if s['res'] != 'ok':
            # (crashed, hung or not even constructed)
            s['ev'] = [{'n': 0, 'size': 0, 'w': [], 'exc': True, 'eof': False, 'needs': False}] * 2
    return Case('decompress %s' % bytes(stream).hex()[:60],
                {'op': 'crle_d', 'stream': bytes(stream).hex(), 'calls': calls}, s, fill)


def reader_case(comp, data, sizes):
    s = {'op': 'reader', 'comp': comp, 'res': 'ok', 'stream': list(data), 'ev': [], 'eof': False}

    def fill(r):
        result(r, s)
        if s['res'] == 'ok':
            s['eof'] = bool(r['eof'])
            s['ev'] = [{'size': e['size'], 'w': list(bytes.fromhex(e['w'])), 'exc': bool(e['exc'])} for e in r['ev']]
        else:
            s['ev'] = [{'size': 0, 'w': [1], 'exc': False}]
    return Case('reader %s' % bytes(data).hex()[:60],
                {'op': 'reader', 'data': bytes(data).hex(), 'compression': gen.COMPNAME[comp], 'sizes': sizes}, s, fill)


def runs_text(rng, n):
    """Runs around the lengths where the compressor changes its mind."""
    out = bytearray()
    while len(out) < n:
        out += bytes([rng.choice([0, 0, 1, 2, 255])]) * rng.choice([1, 1, 2, 4, 5, 5, 6, 6, 7, 12, 63, 64, 127, 128, 130])
    return bytes(out[:n])


def pieces_of(rng, data):
    style = rng.choice(['one', 'bytes', 'cut', 'cut'])
    if style == 'one':
        return [data]
    if style == 'bytes':
        return [data[i:i + 1] for i in range(len(data))]
    out = []
    i = 0
    while i < len(data):
        k = rng.choice([0, 1, 2, 5, 6, 7, 20, rng.randint(0, len(data))])
        out.append(data[i:i + k])
        i += k
    return out + ([b''] if rng.random() < 0.3 else [])


def crle_calls(rng, stream, total):
    calls = []
    i = 0
    while i < len(stream):
        k = rng.choice([1, 1, 2, 3, 7, len(stream)])
        calls.append([k, rng.choice([0, 1, 2, 5, 100, 10000])])
        i += k
        while rng.random() < 0.4:
            calls.append([0, rng.choice([0, 1, 3, 50])])
    left = total
    while left > 0 and len(calls) < 400:
        k = rng.choice([1, 4, 64, left, left + 5])
        calls.append([0, k])
        left -= k
    return calls + [[0, 10]] * 2


def stop_at_eof(calls):
    return calls


def c13(R):
    rng = common.rng('C13')
    C = []
    # every short string, compressed at once and byte by byte
    from itertools import product
    for n in range(scale(12, 15)):
        for t in product(b'ab', repeat=n):
            if n > 9 and rng.random() < 0.6 and not common.THOROUGH:
                continue
            C.append(crlec_case([bytes(t)]))
            if n < 10:
                C.append(crlec_case([bytes([x]) for x in t]))
    for n in range(scale(400, 4000)):
        d = runs_text(rng, rng.choice([0, 1, 5, 6, 7, 40, 200, 700])) if n % 3 else gen.image(rng, rng.randint(0, 400))
        C.append(crlec_case(pieces_of(rng, d)))
    for n in (8191, 8192, 16383, 16384, 19000):
        C.append(crlec_case([b'z' * n]))
        C.append(crlec_case([b'abc', b'z' * n, b'def']))
    conform(R, C, 'C13', module='TraceParts')
    # every way of writing a string
    cases = [dict(plain=list(p), maxsegs=m, nulls=z, pads=d) for p, m, z, d in
             [(b'', 3, 3, [0, 1, 2]), (b'a', 4, 2, [0, 1]), (b'aab', 5, 1, [0, 1]), (b'aaaa', 4, 1, [0, 2]),
              (b'abba', 5, 1, [0]), (b'\0\1\0', 4, 1, [0, 1]), (b'aaaaaaab', scale(4, 6), 0, [0]), (b'a' * 130 + b'bc', 2, 0, [0, 1])]]
    items = exhaust.cases_of('CrleGen', 'SPECIFICATION Spec\nINVARIANT Decoded\nINVARIANT Emit\n', cases, R, 'C13')
    top = scale(3000, 60000)
    if len(items) > top:
        items = rng.sample(items, top)
    R.sample('%d enumerated CRLE streams' % len(items))
    C = []
    for c, st in items:
        plain, st = bytes(cases[c - 1]['plain']), bytes(st)
        if rng.random() < 0.6:
            C.append(crled_case(st, crle_calls(rng, st, len(plain))))
        else:
            sizes = [1] * len(plain) if rng.random() < 0.5 else gen.cuts(rng, len(plain))
            C.append(reader_case(CRLE, st, sizes + rng.choice([[], [], [1]])))
    # longer streams, cut and damaged ones
    for n in range(scale(500, 6000)):
        d = runs_text(rng, rng.choice([3, 40, 300])) if n % 2 else gen.image(rng, rng.randint(0, 300))
        st = gen.crle(d, rng, zero=True, pads=n % 3 == 0)
        if n % 5 == 1:
            st = st[:rng.randint(0, len(st))]
        if n % 5 == 2 and st:
            st = bytearray(st)
            st[rng.randrange(len(st))] = rng.choice([0, 1, 2, 3, 255])
            st = bytes(st)
        if n % 5 == 3:
            st += bytes([rng.choice([2, 3, 7, 128, 255])]) + b'ab'
        if n % 2:
            C.append(crled_case(st, crle_calls(rng, st, len(d))))
        else:
            C.append(reader_case(CRLE, st, gen.cuts(rng, len(d)) + rng.choice([[], [1]])))
    for n in range(scale(60, 400)):
        d = gen.image(rng, rng.choice([0, 1, 4095, 4096, 4097, 8192, rng.randint(0, 200)]))
        C.append(reader_case(NONE, d, gen.cuts(rng, len(d)) + rng.choice([[], [1]])))
        C.append(reader_case(CRLE, gen.crle(d, rng, zero=True), gen.cuts(rng, len(d)) + rng.choice([[], [1]])))
    C = [c for c in C if crle_small(c.session['stream'])]
    conform(R, C, 'C13', module='TraceParts')
    # the C patch reader: the string is the body of a patch
    bodies = [gen.body([(b'', b'ab', 0)]), gen.body([(b'\1', b'a', 1), (b'', b'b', 0)])]
    cases = [dict(plain=list(b), maxsegs=scale(4, 5), nulls=z, pads=p) for b in bodies for z, p in ((1, [0]), (0, [0, 1]))]
    items = exhaust.cases_of('CrleGen', 'SPECIFICATION Spec\nINVARIANT Decoded\nINVARIANT Emit\n', cases, R, 'C13')
    top = scale(4000, 80000)
    if len(items) > top:
        items = rng.sample(items, top)
    reps = []
    base = b'0123'
    outs = [b'ab', bytes([(b'0'[0] + 1) % 256]) + b'ab']
    for c, st in items:
        out = outs[(c - 1) // 2]
        p = gen.seq_header(CRLE, len(out)) + bytes(st)
        for sizes in ([len(p)], [1] * len(p)):
            reps.append((base, p, sizes, exhaust.judge_script('seq', out), 'CRLE stream'))
    exhaust.replay(R, 'seq', reps, 'C13')
    sess = []
    for n in range(scale(150, 2000)):
        f = gen.image(rng, 200)
        t = runs_text(rng, rng.randint(1, 400))
        body = gen.body(gen.seq_records(rng, f, t, 4))
        p = gen.seq_header(CRLE, len(t)) + gen.crle(body, rng, zero=True, pads=n % 2 == 0)
        s = csession.Session([csession.Env('seq', f, p)], 'CRLE').init().feed(gen.cuts(rng, len(p))).fin()
        sess.append(s)
    csession.conform(R, sess, name='C13')
    large.crle(R, 'C13', scale(4, 24))


def crle_small(stream):
    """No absurd run (the specification would have to write it down)."""
    i = total = 0
    while i < len(stream):
        k = stream[i]
        i += 1
        n = sh = 0
        while i < len(stream):
            b = stream[i]
            i += 1
            n |= (b & 127) << sh
            sh += 7
            if b < 128:
                break
        if k == 0:
            i += n
        elif k == 1:
            total += n
            i += 1
        else:
            return total < 15000
    return total < 15000


# -- C14: size numbers -----------------------------------------------------------------

def bits(x):
    x = abs(x)
    return [x >> k & 1 for k in range(x.bit_length())]


def pack_case(fn, x):
    lo, hi = {'size': (-2 ** 63, 2 ** 63 - 1), 'usize': (0, 2 ** 64 - 1), 'crle': (0, 2 ** 63 - 1)}[fn]
    v = x - 2 ** 64 if fn == 'usize' and x >= 2 ** 63 else x
    s = {'op': 'pack', 'fn': fn, 'fits': lo <= x <= hi, 'neg': v < 0, 'bits': bits(v), 'bytes': [], 'res': 'ok'}

    def fill(r):
        x = r['res'][0] if r else None
        s['res'] = 'dead' if x is None else 'raise' if isinstance(x, dict) else 'ok'
        if s['res'] == 'ok':
            s['bytes'] = list(bytes.fromhex(x))
    return Case('%s %d' % (fn, x), {'op': 'pack', 'values': [[fn, str(x)]]}, s, fill)


def unpack_case(fn, data):
    n = 0
    m = 0
    for k, b in enumerate(data):
        m |= (b & (63 if k == 0 and fn != 'crle' else 127)) << n
        n += 6 if k == 0 and fn != 'crle' else 7
        if b < 128:
            break
    s = {'op': 'unpack', 'fn': fn, 'fits': fn != 'usize' or m < 2 ** 63, 'neg': False, 'bits': [], 'bytes': list(data),
         'used': 0, 'read': 0, 'res': 'ok'}

    def fill(r):
        x = r['res'][0] if r else None
        s['res'] = 'dead' if x is None else 'raise' if isinstance(x, dict) else 'ok'
        if s['res'] == 'ok':
            v = int(x[0])
            if fn == 'usize' and v >= 2 ** 63:
                v -= 2 ** 64
            s['neg'], s['bits'] = v < 0, bits(v)
            s['used'] = x[1] if isinstance(x[1], int) else -2
            s['read'] = x[2]
    return Case('unpack %s %s' % (fn, bytes(data).hex()), {'op': 'unpack', 'values': [[fn, bytes(data).hex()]]}, s, fill)


def numbers(rng, more):
    v = set(range(0, 300))
    for k in range(65):
        v |= {2 ** k + d for d in (-2, -1, 0, 1, 2)}
    v |= {rng.getrandbits(rng.randint(1, 64)) for _ in range(more)}
    return sorted(x for x in v if x >= 0)


def c14(R):
    rng = common.rng('C14')
    vals = ', '.join(map(str, sorted(set(range(0, scale(700, 20000))) | {2 ** k + d for k in range(8, 27) for d in (-1, 0, 1)} | {2 ** 27 - 1})))
    models.expect(R, 'MCNumbers', 'SPECIFICATION Spec\nINVARIANT Same SameU Padded\nCONSTANT Values = {%s}\n' % vals, True, 'numbers')
    C = []
    for x in numbers(rng, scale(800, 20000)):
        C.append(pack_case('size', x))
        C.append(pack_case('size', -x))
        C.append(pack_case('usize', x))
        C.append(pack_case('crle', x))
        p = rng.choice([0, 0, 1, 3])
        behind = rng.choice([b'', b'\0', b'\xff\x80'])
        for fn, e in (('size', gen.size(x, p)), ('size1', gen.size(-x, p)), ('bytes', gen.size(-x, p)), ('usize', gen.size(x, p)),
                      ('usize', gen.size(-x, p)), ('crle', gen.usize(x, p))):
            C.append(unpack_case(fn, e + behind))
            if rng.random() < 0.3:
                k = rng.randint(0, len(e) - 1)
                C.append(unpack_case(fn, bytes(b | 128 for b in e[:k])))
    for a in range(256):
        for fn in ('size', 'usize', 'crle', 'size1', 'bytes'):
            C.append(unpack_case(fn, bytes([a])))
            C.append(unpack_case(fn, bytes([a, rng.randrange(256), rng.randrange(256)])))
    conform(R, C, 'C14', module='TraceParts')
    c14_c(R, rng)


def c14_c(R, rng):
    """The C library: in headers, in patch data, in CRLE segments."""
    S = []

    def add(kind, base, p, label):
        s = csession.Session([csession.Env(kind, base, p)], label).init()
        S.append(s.feed(rng.choice([[len(p)], [1] * len(p)])).fin())
    xs = sorted({x for k in range(28) for x in (2 ** k - 1, 2 ** k, 2 ** k + 1)} | {rng.getrandbits(rng.randint(1, 27)) for _ in range(scale(20, 400))})
    f = gen.image(rng, 40, 'random')
    for x in xs:
        if x >= 2 ** 27:
            # does not fit: an error wherever it stands
            add('seq', f, b'\0' + gen.size(x) + gen.body([(b'', b'a', 0)]), 'header %d' % x)
            add('seq', f, gen.seq_header(NONE, 2) + b'\0' + gen.size(0) + gen.size(1) + b'a' + gen.size(x), 'adjustment %d' % x)
            continue
        for pad in (0, 1, 2):
            if len(gen.size(x, pad)) > 4:
                continue
            # forth and back again
            b = [gen.size(0), gen.size(0), gen.size(0), gen.size(x, pad), gen.size(0), gen.size(0), gen.size(3 - x, pad),
                 gen.size(2), b'\0\1', gen.size(1), b'z', gen.size(0)]
            if len(gen.size(3 - x, pad)) <= 4:
                add('seq', f, gen.seq_header(NONE, 3) + b''.join(b), 'adjustment %d' % x)
            # the size in the header bounds the first record
            if x > 0:
                for comp in (NONE, CRLE):
                    for n in (x, x + 1):
                        if len(gen.size(n)) > 4:
                            continue
                        for z in (b'\0' + gen.size(n), b'\0' + gen.size(0) + gen.size(n)):
                            add('seq', f, gen.seq_header(comp, x, pad) + gen.compress(comp, z), 'to-size %d, record of %d' % (x, n))
            if len(gen.usize(x, pad)) <= 4 and 0 < x < 9000:
                # a CRLE run of x bytes as extra data
                b = b'\0' + gen.size(0) + gen.size(x)
                st = b'\0' + gen.usize(len(b)) + b + b'\1' + gen.usize(x, pad) + b'z' + b'\0\1\0'
                add('seq', f, gen.seq_header(CRLE, x) + st, 'run of %d' % x)
                st = b'\0' + gen.usize(len(b)) + b + b'\0' + gen.usize(x, pad) + b'y' * x + b'\0\1\0'
                if x < 1000:
                    add('seq', f, gen.seq_header(CRLE, x) + st, 'segment of %d' % x)
    # in-place headers
    for x in (0, 1, 2, 63, 64, 65, 127, 128, 8191, 8192):
        for pads in ((0,) * 5, (1, 0, 1, 0, 2)):
            mem = max(x, 1)
            if mem > 300 and pads[0]:
                continue
            p = gen.inp_header(NONE, mem, mem, 0, x, min(x, 3), pads) + (gen.body([(b'', b'abc'[:min(x, 3)], 0)]) if x else b'')
            add('inp', gen.image(rng, mem), p, 'in-place header %d' % x)
            p = gen.inp_header(NONE, mem, 1, mem, x, 1, pads) + (gen.body([(b'', b'a', 0)]))
            if mem < 70:
                add('inp', gen.image(rng, mem), p, 'in-place header %d' % x)
    csession.conform(R, S, name='C14', exact=True)


CHECKS = {'C12': c12, 'C13': c13, 'C14': c14}
