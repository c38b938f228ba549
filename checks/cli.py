"""C29: the command line of the Python package."""
import re
from vlib import gen, common, tlc, pyrun
from vlib.common import scale
from vlib.gen import NONE, HEATSHRINK, COMPNAME
from checks import formats
from checks import c_apply
from checks.py_apply import stream_info, py_inp_patch, wild
from vlib.elf import write_elf
from checks.py_create import pair as image_pair, geometry, bs_fields, bs_input

CFG = 'SPECIFICATION Spec\nVIEW Position\n'
CMDS = {'create': 'create_patch', 'createinp': 'create_patch_in_place', 'createbs': 'create_patch_bsdiff', 'apply': 'apply_patch',
        'applyinp': 'apply_patch_in_place', 'applybs': 'apply_patch_bsdiff', 'info': 'patch_info'}
RANGES = ['--from-data-offsets', '--from-code-addresses', '--from-data-addresses',
          '--to-data-offsets', '--to-code-addresses', '--to-data-addresses']
KEYS = ['from_data_offset', 'from_code', 'from_data', 'to_data_offset', 'to_code', 'to_data']


def text(s):
    return [ord(c) for c in s]


class Use:
    """One command line: a job, and the session the specification sees."""

    def __init__(self, rng, cmd, base=b'', to=b'', patch=b'', frm='file', tof='file', pat='file', dest='new', usage=False, **o):
        self.cmd = cmd
        self.o = o
        kind = {'createinp': 'inp', 'applyinp': 'inp', 'createbs': 'bs', 'applybs': 'bs'}.get(cmd, o.get('kind', 'seq'))
        old = gen.image(rng, rng.choice([0, 5, 300]))
        creates = cmd.startswith('create')
        files = {}
        for name, how, data, used in (('from', frm, base, cmd != 'info'), ('to', tof, to, creates), ('patch', pat, patch, not creates)):
            if used and how != 'missing':
                files[name] = 'dir' if how == 'dir' else data.hex()
        self.place = 'result'
        if dest == 'old':
            files['result'] = old.hex()
        elif dest == 'dir':
            files['result'] = 'dir'
        elif dest == 'nodir':
            self.place = 'no/result'
        if cmd == 'applyinp':
            self.place = 'from'
        flags = []
        for k, name in (('compression', '-c'), ('compression_', '--compression'), ('sa', '-s'), ('sa_', '--suffix-array-algorithm'),
                        ('algorithm', '-a'), ('mem', '--memory-size'), ('seg', '--segment-size'), ('minshift', '--minimum-shift-size'),
                        ('window', '--heatshrink-window-sz2'), ('lookahead', '--heatshrink-lookahead-sz2'), ('format', '--data-format'),
                        ('type', '-t')):
            if k in o:
                flags.append([name, str(o[k])])
        for name, r in zip(RANGES, o.get('ranges', [])):
            if r is not None:
                flags.append([name, r] if r.startswith('-') is False else ['%s=%s' % (name, r)])
        elfs = []
        for side, e in (('from', o.get('felf')), ('to', o.get('telf'))):
            if e is None:
                elfs.append({'given': False})
                continue
            raw, view = write_elf(**e['elf'])
            files[side + '.elf'] = raw.hex()
            flags.append(['--%s-elf-file' % side, [side + '.elf']])
            view.update(given=True, offset=-1 if e['offset'] is None else e['offset'])
            if e['offset'] is not None:
                flags.append(['--%s-elf-offset' % side, rng.choice(['%d', '0x%x']) % e['offset']])
            elif rng.random() < 0.1:
                flags.append(['--%s-elf-offset' % side, 'none'])
            elfs.append(view)
        for k, name in (('nommap', '--no-mmap'), ('plain', '--no-human'), ('detailed', '--detailed')):
            if o.get(k):
                flags.append([name])
        rng.shuffle(flags)
        names = {'create': ['from', 'to', 'result'], 'createinp': ['from', 'to', 'result'], 'createbs': ['from', 'to', 'result'],
                 'apply': ['from', 'patch', 'result'], 'applybs': ['from', 'patch', 'result'], 'applyinp': ['from', 'patch'],
                 'info': ['patch']}[cmd]
        names = [[self.place if n == 'result' else n] for n in names]
        argv = [CMDS[cmd]]
        for f in flags:
            if rng.random() < 0.3 and names:
                argv.append(names.pop(0))
            argv += f
        argv += names
        argv = o.get('argv', argv)
        if rng.random() < 0.1:
            argv = ['-l', 'critical'] + argv
        self.job = {'op': 'cli', 'argv': argv, 'files': files, 'process': o.get('process', False)}
        lz, end = ([], 'whole')
        if kind != 'bs' and not usage:
            lz, end = stream_info(kind, patch)
        self.patch = patch
        self.s = {'cmd': cmd, 'kind': kind, 'df': bool(o.get('df') or o.get('format')), 'usage': usage, 'frm': frm, 'tof': tof, 'pat': pat,
                  'dest': dest, 'elf': elfs,
                  'base': list(base) + [170] * (o.get('memory', 0) - len(base)), 'from': list(base), 'to': list(to), 'patch': list(patch), 'old': list(old), 'lz': lz, 'lzend': end,
                  'opts': {'compression': o.get('compression', o.get('compression_', '')), 'window': o.get('window', 0),
                           'lookahead': o.get('lookahead', 0), 'mem': text(o.get('mem', '')), 'seg': text(o.get('seg', '')),
                           'minshift': text(o.get('minshift', '')), 'format': o.get('format', ''), 'plain': bool(o.get('plain')),
                           'detailed': bool(o.get('detailed')), 'ranges': [text(r or '') for r in o.get('ranges', [None] * 6)]},
                  'status': -1, 'error': False, 'names': '', 'there': False, 'after': [], 'same': True, 'res': '', 'ret': 0, 'out': [],
                  'told': {'success': False, 'ranges': [], 'readable': False}}
        if kind == 'bs':
            self.s.update(bs_fields(patch))
        self.label = ' '.join(a if isinstance(a, str) else '@' + a[0] for a in argv) + ' [%s %s %s %s]' % (frm, tof, pat, dest)

    def fill(self, r):
        s = self.s
        if r is None:
            return
        s['status'] = r['status']
        lines = r['err'].rstrip('\n').split('\n')
        s['error'] = lines[-1].startswith('error: ')
        m = re.match(r'error: (--[a-z-]+): ', lines[-1])
        s['names'] = m.group(1) if m else ''
        after = r['files']
        for n, v in self.job['files'].items():
            if n != self.place and after.get(n) != v:
                s['same'] = False
        if set(after) - set(self.job['files']) - {self.place}:
            s['same'] = False
        got = after.get(self.place)
        s['there'] = got is not None
        if got not in (None, 'dir'):
            s['after'] = s['out'] = list(bytes.fromhex(got))
        if self.cmd.startswith('create'):
            p = bytes(s['after']) if s['status'] == 0 else b''
            s['patch'] = list(p)
            if s['kind'] == 'bs':
                s.update(bs_fields(p))
            else:
                s['lz'], s['lzend'] = stream_info(s['kind'], p)
        out = r['out']
        s['told']['success'] = ("Successfully created '@%s' in " % self.place) in out
        ranges = []
        for name in ('From data offsets', 'From code addresses', 'From data addresses', 'To data offsets', 'To code addresses',
                     'To data addresses'):
            m = re.search(name + r': +0x([0-9a-f]{8,})-0x([0-9a-f]{8,})\n', out)
            if m:
                ranges.append([list((int(x, 16) % (1 << 64)).to_bytes(8, 'little')) for x in m.groups()])
        s['told']['ranges'] = ranges
        if self.cmd == 'info' and s['status'] == 0:
            try:
                s['told'].update(report(out, s))
                s['told']['readable'] = True
            except (ValueError, KeyError, IndexError, AttributeError) as e:
                s['told']['unreadable'] = str(e)


def amount(v):
    if v == '-':
        return [-1, 0, '-']
    m = re.match(r'(\d+)(?:\.(\d{1,2}))? (\w+)$', v)
    return [int(m.group(1)), int(((m.group(2) or '') + '00')[:2]), m.group(3)]


def part(lines):
    g = {'sizes': {}, 'ends': {}, 'counts': {}, 'ratios': {}, 'type': '', 'format': '', 'comp': '', 'hw': 0, 'hl': 0}
    for l in lines:
        if not l.strip():
            continue
        m = re.match(r'([A-Z][a-z/ ]+): +(.*)$', l)
        k, v = m.groups()
        if k == 'Type':
            g['type'] = v
        elif k == 'Data format':
            g['format'] = v
        elif k == 'Compression':
            m = re.match(r'(\w+)(?: \(window-sz2: (\d+), lookahead-sz2: (\d+)\))?$', v)
            g['comp'] = m.group(1)
            g['hw'], g['hl'] = int(m.group(2) or 0), int(m.group(3) or 0)
        elif k.startswith('Number of'):
            g['counts'][k] = int(v)
        elif k.endswith('ratio'):
            m = re.match(r'(\d+)\.(\d) % \((?:low|high)er is better\)$', v)
            g['ratios'][k] = -1 if v.startswith('inf %') else 10 * int(m.group(1)) + int(m.group(2))
        elif k.endswith('range'):
            a, b = v.split(' - ')
            g['sizes'][k], g['ends'][k] = amount(a), amount(b)
        else:
            g['sizes'][k] = amount(v)
    return g


def report(out, s):
    """The report of patch_info, read."""
    res = {'details': False, 'df': {}, 'segs': []}
    if 'Data format details:' in out:
        out, details = out.split('Data format details:\n', 1)
        res['details'] = True
        m = re.search(r'Data format: +(\S+)', out)
        fmt = formats.FORMATS.index(m.group(1))
        res['df'] = formats.parse_info(details, fmt, False)
    pieces = re.split(r'-{10,} Segment (\d+) -{10,}\n', out)
    res['head'] = part(pieces[0].split('\n'))
    for n, p in zip(pieces[1::2], pieces[2::2]):
        g = part(p.split('\n'))
        g['number'] = int(n)
        res['segs'].append(g)
    return res


def damage(rng, p, kind='bs'):
    q = c_apply.damage(rng, p, 12)
    if kind == 'bs':
        return p if len(q) < 32 or q[:8] != p[:8] or q[8:32] != p[8:32] else q
    if not q or (q[0] >> 4) & 7 != (p[0] >> 4) & 7 or wild(kind, q):
        return p[:-1]
    return q


# -- uses ------------------------------------------------------------------------------

def size_text(rng, n):
    """A size as somebody may write it."""
    c = [str(n), str(n), '%db' % n, '%d bytes' % n]
    if n % 1024 == 0 and n:
        c += ['%d%s' % (n // 1024, u) for u in ('k', 'K', 'KiB', ' kib', 'kB')] * 2
    return rng.choice(c)


def range_text(rng, a, b):
    f = rng.choice(['0x%x-0x%x', '0x%08X-0x%x', '%d-%d']) if b < 1 << 63 else '0x%x-0x%x'
    return f % (a, b)


def create_opts(rng):
    o = {}
    c = rng.choice([None, 0, 1, 2, 3, 4, 4, 5, 6])
    if c is not None:
        o[rng.choice(['compression', 'compression_'])] = COMPNAME[c]
    if c == HEATSHRINK and rng.random() < 0.8:
        o['window'] = rng.choice([4, 5, 8, 9, 11, 15])
        if rng.random() < 0.7:
            o['lookahead'] = rng.randint(3, o['window'] - 1)
        elif o['window'] <= 7:
            o['lookahead'] = 3
    r = rng.random()
    if r < 0.3:
        o['sa'] = 'sais'
    elif r < 0.4:
        o['sa_'] = 'divsufsort'
    o['nommap'] = rng.random() < 0.4
    return o


def spoil(rng):
    """Files that are not there."""
    return dict(rng.choice([{}, {}, {}, {}, {}, {'dest': 'old'}, {'dest': 'old'}, {'dest': 'nodir'}, {'dest': 'dir'}, {'frm': 'missing'},
                            {'frm': 'dir'}, {'tof': 'missing'}, {'tof': 'dir'}, {'pat': 'missing'}, {'pat': 'dir'}])) \
        if rng.random() < 0.5 else {'dest': rng.choice(['new', 'old'])}


BAD_RANGES = ['0x10', '16', '1-2-3', '0x20-0x10', '9-8', '-', '5-', '-5', 'a-b', '0x-1', '0xg-0xh', '1.5-2', '12z-13', '']


def segment_kw(rng, fmt, n):
    a, b, how, kw = formats.pair(rng, fmt, n)
    ranges = []
    for k in KEYS:
        lo, hi = kw.get(k + '_begin'), kw.get(k + '_end')
        if lo is None or hi < lo:
            ranges.append(None)
        else:
            ranges.append(range_text(rng, lo, hi))
    return a.image(), b.image(), ranges


def create_uses(rng, n):
    for k in range(n):
        o = create_opts(rng)
        r = rng.random()
        if r < 0.35:
            f, t = image_pair(rng)
            if rng.random() < 0.2:
                o['algorithm'] = 'bsdiff'
                o['type'] = 'sequential'
        else:
            fmt = k % 3
            f, t, ranges = segment_kw(rng, fmt, 14)
            if r < 0.9:
                o['format'] = formats.FORMATS[fmt]
            if rng.random() < 0.15:
                ranges[rng.randrange(6)] = rng.choice(BAD_RANGES[:-1])
            o['ranges'] = ranges
        yield Use(rng, 'create', f, t, **spoil(rng), **o)


def elf_of(rng, a, binary):
    """An ELF file somebody may have made the binary of layout a from."""
    wide = a.fmt == 1
    code = [b''.join(b for _, b in c) for c in a.code]
    base = rng.choice([0x8000, 0x100000, 0x10000000])
    text = code[0] + rng.choice([b'', gen.image(rng, 8)]) + code[1]
    data = b''.join(a.data) + a.fill
    begin = a.begin if a.begin < 1 << 29 else 0x20000000 + (a.begin & 0xfff)
    sections = [('.text', base, text, True), ('.data', begin, data, True)]
    if rng.random() < 0.5:
        sections.append(('.rodata', base + len(text) + rng.choice([0, 16]), gen.image(rng, rng.choice([8, 40])), True))
    if rng.random() < 0.3:
        sections.append(('.bss', begin + len(data) + 64, bytes(rng.choice([4, 30])), False))
    if rng.random() < 0.3:
        sections.append(('.debug', 0, gen.image(rng, 30), True))
    if rng.random() < 0.3:
        # another view of the same addresses
        k = rng.randrange(2)
        sections.insert(rng.randint(0, len(sections)), ('.more', sections[k][1] - rng.choice([0, 4]), gen.image(rng, 12), True))
    rng.shuffle(sections)
    syms = []
    for name, addr, content, _ in sections:
        main = {'.text': 'func', '.data': 'object', '.rodata': 'object', '.bss': 'object'}.get(name, 'other')
        mixed = rng.random() < 0.3
        at = 0
        while at < len(content):
            n = min(rng.choice([1, 4, 8, 20, 50, 200]), len(content) - at)
            typ = main
            if mixed and rng.random() < 0.4:
                typ = rng.choice(['func', 'object', 'other'])
            if rng.random() < 0.9 and not (name in ('.more', '.debug')):
                syms.append((typ, addr + at, n if rng.random() < 0.93 else 0))
                if rng.random() < 0.1:
                    syms.append(syms[-1])
            at += n
    if rng.random() < 0.05:
        syms.append((rng.choice(['func', 'object', 'other']), 0x1f000000, rng.choice([0, 4])))
    if rng.random() < 0.1:
        syms = [x for x in syms if x[0] != rng.choice(['func', 'object'])]
    rng.shuffle(syms)
    return {'elf': dict(wide=wide, machine=[40, 183, 94][a.fmt], sections=sections, syms=syms, dyn=rng.random() < 0.2,
                        lift=a.begin - begin if a.begin > begin else rng.choice([0, 0, 0x40000000, 0xc0000000] + [0xffffffff80000000, 0x4000000000] * wide))}


def elf_uses(rng, n):
    for k in range(n):
        fmt = k % 3
        a, b, _, _ = formats.pair(rng, fmt, 14, False)
        f, t = a.image(), b.image()
        o = create_opts(rng)
        for side, x, binary in (('felf', a, f), ('telf', b, t)):
            if rng.random() < 0.85:
                e = elf_of(rng, x, binary)
                e['offset'] = None
                if rng.random() < 0.25:
                    e['offset'] = rng.choice([0, 0x34, 100])
                o[side] = e
            elif rng.random() < 0.5:
                o.setdefault('ranges', [None] * 6)
        if rng.random() < 0.15:
            f = f[:-9] + f[len(f) - 8:]
            f = f or b'x'
        if rng.random() < 0.95:
            o['format'] = formats.FORMATS[fmt]
        if rng.random() < 0.3:
            o['ranges'] = [range_text(rng, 4, 9)] * 6
        yield Use(rng, 'create', f, t or b'y', dest=rng.choice(['new', 'old']), **o)


def createinp_uses(rng, n):
    for k in range(n):
        f, t = image_pair(rng)
        if k % 3:
            mem, seg, shift = geometry(rng)
        else:
            seg = rng.choice([512, 1024, 2048])
            mem = seg * rng.choice([2, 4, 6])
            shift = rng.choice([None, seg, 2 * seg])
        o = create_opts(rng)
        o['mem'] = size_text(rng, mem)
        o['memory'] = mem
        o['seg'] = size_text(rng, seg)
        if shift is not None:
            o['minshift'] = size_text(rng, shift)
        if rng.random() < 0.1:
            o['ranges'] = [None] * 6
            o['ranges'][rng.randrange(6)] = rng.choice(BAD_RANGES[:-1])
        yield Use(rng, 'createinp', f, t, **spoil(rng), **o)


def createbs_uses(rng, n):
    for k in range(n):
        f, t = image_pair(rng)
        yield Use(rng, 'createbs', f, t, **spoil(rng))


def apply_uses(rng, n):
    for k in range(n):
        if k % 3 == 0:
            base, _, p, _ = py_inp_patch(rng, k % 7)
            if rng.random() < 0.4:
                p = damage(rng, p, 'inp')
            if rng.random() < 0.1:
                base = base[:rng.randint(0, len(base))]
            yield Use(rng, 'applyinp', base, patch=p, **dict(spoil(rng), dest='new'))
        elif k % 3 == 1:
            f = gen.image(rng, rng.randint(0, 300))
            t = gen.image(rng, rng.randint(1, 300))
            p = gen.seq_patch(rng, f, t, k % 7)
            if rng.random() < 0.4:
                p = damage(rng, p, 'seq')
            yield Use(rng, 'apply', f, patch=p, **spoil(rng))
        else:
            f, t, recs = bs_input(rng)
            p = gen.bs_patch(recs, len(t))
            if rng.random() < 0.3:
                p = damage(rng, p)
            yield Use(rng, 'applybs', f, patch=p, **spoil(rng))


def info_uses(rng, n):
    for k in range(n):
        o = {'plain': rng.random() < 0.5, 'detailed': rng.random() < 0.5}
        comp = k % 7
        if k % 4 == 0:
            _, _, p, _ = py_inp_patch(rng, comp)
            o['kind'] = 'inp'
        elif k % 4 == 1:
            fmt = rng.randrange(3)
            a = formats.Layout(rng, fmt, 12)
            f = a.image()
            t = gen.image(rng, rng.choice([40, 200, 500]))
            df = formats.df_patch(rng, fmt, a, len(t), rng.choice(['none', 'data', 'code', 'both']))
            b = gen.body(gen.seq_records(rng, f, t), df=gen.size(len(df)) + gen.size(fmt) + df)
            p = gen.seq_header(comp, len(t)) + gen.compress(comp, b, rng)
            o['df'] = True
        elif k % 4 == 2:
            f = gen.image(rng, 3000)
            t = gen.image(rng, rng.choice([0, 1, 1023, 1024, 1025, 1500, 2047, 3000]))
            p = gen.seq_patch(rng, f, t, comp, maxrec=rng.choice([2, 5, 20])) if t else gen.seq_header(comp, 0)
        else:
            geo = (4096, rng.choice([512, 1024]), 1024, rng.randint(0, 3072), rng.randint(0, 4000))
            _, _, p, _ = py_inp_patch(rng, comp, geo)
            o['kind'] = 'inp'
        if rng.random() < 0.2:
            p = damage(rng, p, o.get('kind', 'seq'))
        yield Use(rng, 'info', patch=p, **dict(spoil(rng), frm='file', tof='file', dest='new'), **o)


def usage_uses(rng):
    f, t = b'abc', b'abd'
    P = [['from'], ['to'], ['result']]
    cp, ci = 'create_patch', 'create_patch_in_place'
    for argv in ([], ['nothing'], [cp], [cp] + P[:2], [cp] + P + [['more']], [cp, '-c', 'zip'] + P, [cp, '-s', 'qsort'] + P,
                 [cp, '-a', 'xdelta'] + P, [cp, '-t', 'in-place'] + P, [cp, '--data-format', 'z80'] + P, [cp, '--what'] + P,
                 [cp, '--heatshrink-window-sz2', 'x'] + P, [cp, '--memory-size', '4'] + P, ['create_patch_bsdiff', '-c', 'none'] + P,
                 [ci] + P, [ci, '--memory-size', '4096'] + P, [ci, '--segment-size', '512'] + P,
                 [ci, '--memory-size', 'four', '--segment-size', '512'] + P, [ci, '--memory-size', '4096', '--segment-size', 'x'] + P,
                 [ci, '--memory-size', '4096', '--segment-size', '512', '--minimum-shift-size', '5 q'] + P,
                 [ci, '--memory-size', '', '--segment-size', '512'] + P,
                 ['apply_patch', ['from'], ['to']], ['apply_patch', ['from']], ['apply_patch_in_place', ['from']],
                 ['apply_patch_bsdiff', ['from'], ['to']], ['patch_info'], ['patch_info', '--human', ['from']],
                 ['-l', 'loud', cp] + P):
        yield Use(rng, 'create', f, t, usage=True, argv=argv, dest=rng.choice(['new', 'old']))


def conform(R, name, U):
    rng = common.rng(name + ' processes')
    for u in rng.sample(U, len(U) // 30):
        u.job['process'] = True
    try:
        raw = pyrun.run([u.job for u in U], limit=60)
    except pyrun.BrokenPackage as e:
        R.violation('%s: the package cannot be imported: %s' % (name, str(e)[-300:]), {})
        return
    for u, r in zip(U, raw):
        u.fill(r)
    S = [u.s for u in U]
    total, rejects = tlc.check_traces('TraceCli', CFG, S)
    R.add(states=total.states, transitions=total.transitions, traces_validated_against_impl=len(S) - len(rejects))
    R.sample({'exit status 0': sum(s['status'] == 0 for s in S), 'others': sum(s['status'] != 0 for s in S)})
    for k in (0, len(U) // 2, len(U) - 30):
        R.sample({'command': U[k].label, 'result': str(raw[k])[:300]})
    for k, i, t in rejects:
        r = raw[k] or {}
        R.violation('%s: detools %s: status %s, %s' % (name, U[k].label, r.get('status'), r.get('err', '')[-200:].strip()),
                    {'job': U[k].job, 'result': r})


def c29(R):
    rng = common.rng('C29')
    U = []
    for g in (create_uses(rng, scale(220, 2500)), elf_uses(rng, scale(30, 300)), createinp_uses(rng, scale(140, 1500)),
              createbs_uses(rng, scale(50, 500)), apply_uses(rng, scale(180, 2000)), info_uses(rng, scale(260, 3000)), usage_uses(rng)):
        U += list(g)
    conform(R, 'C29', U)


def c30(R):
    conform(R, 'C30', list(elf_uses(common.rng('C30'), scale(400, 4000))))


CHECKS = {'C29': c29, 'C30': c30}
