"""C25: the file interfaces of the C library and its command line tool."""
import os
import json
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from vlib import gen, common, tlc, crun, csession
from vlib.common import scale, REPO, CheckError
from vlib.gen import NONE, LZMA, CRLE, HEATSHRINK, C_COMPS
from checks.c_apply import related, bad_bodies, bad_geometries, bad_inp_bodies, damage
from checks.py_apply import py_inp_patch


def build(variant='plain'):
    out = os.path.join(common.work(), 'files-' + variant)
    if os.path.exists(out):
        return out, out + '-tool'
    base = ['gcc', '-std=gnu99', '-g', '-O1', '-w', '-I' + REPO + '/c', '-I' + REPO + '/c/heatshrink']
    if variant == 'asan':
        base += ['-fsanitize=address,undefined', '-fno-sanitize=shift,alignment', '-fno-sanitize-recover=all']
    crun.sh(base + [REPO + '/c/main.c'] + crun.C_SRC + ['-llzma', '-o', out + '-tool'])
    crun.sh(base + [os.path.join(crun.HERE, 'c', 'files.c')] + crun.C_SRC + ['-llzma', '-o', out])
    return out, out + '-tool'


class Use:
    """One use: where things are, and what is there."""

    def __init__(self, kind, base, patch, label, tool=False, frm='file', pat='file', dest='file', old=None, limit=-1, reads=True,
                 args=None):
        self.__dict__.update(locals())
        del self.__dict__['self']


def slurp(p):
    try:
        with open(p, 'rb') as f:
            return f.read()
    except OSError:
        return None


def put(d, name, what, data):
    p = os.path.join(d, name)
    if what == 'dir':
        os.mkdir(p)
    elif what == 'full':
        return '/dev/full'
    elif what in ('file', 'limit') and data is not None:
        with open(p, 'wb') as f:
            f.write(data)
    elif what == 'nodir':
        return os.path.join(d, 'no', name)
    return p


def run(uses, variant='plain'):
    harness, tool = build(variant)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1')

    def go(part):
        top = tempfile.mkdtemp(prefix='files-', dir=common.work())
        lines = []
        paths = []
        for n, u in enumerate(part):
            d = os.path.join(top, str(n))
            os.mkdir(d)
            f = put(d, 'from', u.frm, u.base)
            p = put(d, 'patch', u.pat, u.patch)
            t = put(d, 'to', u.dest, u.old)
            paths.append((f, p, t))
            if u.kind == 'usage':
                lines.append('c -1 %s %s' % (tool, ' '.join({'F': f, 'P': p, 'T': t}.get(a, a) for a in u.args)))
            elif u.tool:
                lines.append('c %d %s %s' % (u.limit, tool, 'apply_patch %s %s %s' % (f, p, t) if u.kind == 'seq'
                                             else 'apply_patch_in_place %s %s' % (f, p)))
            else:
                lines.append('%s %d %s %s%s' % ('s' if u.kind == 'seq' else 'p', u.limit, f, p, ' ' + t if u.kind == 'seq' else ''))
        q = subprocess.run([harness], input=('\n'.join(lines) + '\n').encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, env=env)
        res = [json.loads(l) for l in q.stdout.decode().split('\n') if l]
        if len(res) != len(part):
            raise CheckError('file harness: %d answers for %d uses\n%s' % (len(res), len(part), q.stderr[-500:]))
        out = []
        for u, r, (f, p, t) in zip(part, res, paths):
            same = True
            if u.kind == 'seq' and u.frm == 'file':
                same = slurp(f) == u.base
            if u.pat == 'file':
                same = same and slurp(p) == u.patch
            after = None
            if u.kind == 'seq' and u.dest in ('file', 'limit'):
                after = slurp(t)
            if u.kind == 'inp' and u.frm == 'file':
                after = slurp(f)
            out.append((r, same, after or b''))
        shutil.rmtree(top, True)
        return out
    per = max(1, (len(uses) + 7) // 8)
    res = []
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(go, [uses[i:i + per] for i in range(0, len(uses), per)]):
            res += r
    return res


def session(u, r, same, after):
    lz, bad = b'', False
    body = csession.lzma_body(u.kind, u.patch)
    if body is not None:
        lz, bad = csession.lzma_plain(body)
    s = {'kind': u.kind, 'from': u.frm, 'pat': u.pat, 'dest': u.dest, 'limit': u.limit, 'base': list(u.base), 'patch': list(u.patch),
         'lz': list(lz), 'lzbad': bad, 'reads': u.reads, 'after': list(after), 'same': same, 'leak': r.get('leak', 0)}
    if 'exit' in r:
        s.update(alive=r['sig'] == 0, ok=r['exit'] == 0 and r['sig'] == 0, ret=-1)
    else:
        s.update(alive=r['sig'] == 0, ok=r['res'] >= 0 and r['sig'] == 0, ret=r['res'] if r['sig'] == 0 else -1)
    return s


def c25(R):
    rng = common.rng('C25')
    U = []

    def both(*a, **kw):
        U.append(Use(*a, **kw))
        U.append(Use(*a, tool=True, **kw))

    def seq(comp, n=None):
        f = gen.image(rng, rng.choice([0, 1, 60, 200, rng.randint(0, 400)]))
        n = rng.choice([0, 1, 64, 128, 200, rng.randint(0, 500)]) if n is None else n
        t = related(rng, f, n) if f and rng.random() < 0.6 else gen.image(rng, n)
        p = gen.seq_patch(rng, f, t, comp, rng.random() < 0.2)
        return f, t, gen.seq_header(comp, 0) if not t else p

    def inp(comp, geo=None):
        m, t, p, g = py_inp_patch(rng, comp, geo)
        if comp == HEATSHRINK and g[4]:
            p = gen.inp_header(comp, *g) + gen.heatshrink(bytes(rest(p, g)), rng)
        return m, t, p, g

    def rest(p, g):
        from vlib import gen as G
        m, t, q, g2 = py_inp_patch(rng, NONE, g)
        return q[len(G.inp_header(NONE, *g)):]
    for n in range(scale(160, 2500)):
        comp = C_COMPS[n % 4]
        f, t, p = seq(comp)
        both('seq', f, p, 'fine', old=rng.choice([None, b'', gen.image(rng, len(t) + 50), b'x']))
        if n % 3 == 0:
            for limit in sorted({0, 1, len(t) - 1, len(t), len(t) + 1} - {-1}):
                both('seq', f, p, 'limit %d of %d' % (limit, len(t)), dest='limit', limit=limit)
            both('seq', f, p, 'full', dest='full')
        if n % 4 == 0:
            k = rng.randrange(max(1, len(p)))
            both('seq', f, p[:k], 'truncated', old=b'before')
            both('seq', f, p + b'\0', 'surplus')
            both('seq', f[:len(f) // 2], p, 'short from')
            both('seq', f, damage(rng, p, 0), 'damaged')
    for n in range(scale(12, 60)):
        f, t, p = seq(C_COMPS[n % 4])
        for frm in ('file', 'missing', 'nodir'):
            for pat in ('file', 'missing', 'dir', 'nodir'):
                for dest in ('file', 'dir', 'nodir', 'full'):
                    if (frm, pat, dest) != ('file', 'file', 'file'):
                        both('seq', f, p, '%s %s %s' % (frm, pat, dest), frm=frm, pat=pat, dest=dest)
        both('seq', f, b'', 'empty patch')
        t = gen.image(rng, 40)
        both('seq', b'', gen.seq_header(NONE, 40) + gen.body([(b'', t, 0)]), 'from is a directory', frm='dir', reads=False)
        both('seq', b'', gen.seq_header(NONE, 40) + gen.body([(b'\0' * 5, t[5:], 0)]), 'from is a directory', frm='dir')
    for what, b in bad_bodies(70):
        for comp in rng.sample(C_COMPS, 2):
            both('seq', gen.image(rng, 100), gen.seq_header(comp, 70) + gen.compress(comp, b, rng), what)
    # larger than the buffers of stdio
    for n in range(scale(6, 24)):
        f = gen.image(rng, 9000, 'text')
        t = related(rng, f, rng.choice([4095, 4096, 4097, 8192, 9000]))
        p = gen.seq_patch(rng, f, t, C_COMPS[n % 4])
        both('seq', f, p, 'large')
        for limit in (0, 4095, 4096, len(t) - 1):
            both('seq', f, p, 'large, limit %d of %d' % (limit, len(t)), dest='limit', limit=min(limit, len(t)))
        both('seq', f, p, 'large, full', dest='full')
    # in place
    for n in range(scale(160, 2500)):
        comp = C_COMPS[n % 4]
        m, t, p, g = inp(comp)
        both('inp', m + gen.image(rng, rng.choice([0, 0, 1, 30])), p, '%s' % (g,))
        if n % 4 == 0:
            both('inp', m[:rng.randint(0, len(m))], p, 'short memory file %s' % (g,))
            both('inp', m, p[:rng.randrange(max(1, len(p)))], 'truncated')
            both('inp', m, p + b'\0', 'surplus')
            both('inp', m, damage(rng, p, 0), 'damaged')
        if n % 8 == 0:
            for frm, pat in (('missing', 'file'), ('file', 'missing'), ('dir', 'file'), ('file', 'dir'), ('nodir', 'nodir')):
                both('inp', m, p, '%s %s' % (frm, pat), frm=frm, pat=pat)
            both('inp', m, b'', 'empty patch')
            both('inp', bytes(len(m)), p, 'full', frm='full')
    for g in gen_bad(rng):
        mem, sg, shift, frm, to = g
        both('inp', gen.image(rng, max(0, min(300, mem))), gen.inp_header(NONE, *g) + gen.body([(b'', gen.image(rng, min(max(to, 0), 60)), 0)]),
             'geometry %s' % (g,))
    for what, b in bad_inp_bodies(32, 8, 8, 24, 20):
        both('inp', gen.image(rng, 32), gen.inp_header(NONE, 32, 8, 8, 24, 20) + b, what)
    f, t, p = seq(NONE, 20)
    m, t2, p2, g = inp(NONE)
    for args in ([], ['apply_patch'], ['apply_patch', 'F'], ['apply_patch', 'F', 'P'], ['apply_patch', 'F', 'P', 'T', 'T'],
                 ['apply_patch_in_place'], ['apply_patch_in_place', 'F'], ['apply_patch_in_place', 'F', 'P', 'T'], ['apply'],
                 ['apply_patch_', 'F', 'P', 'T'], ['create_patch', 'F', 'P', 'T'], ['-h']):
        U.append(Use('usage', f, p, 'usage %s' % args, args=args))
    check(R, U, 'plain')
    check(R, rng.sample(U, min(len(U), scale(500, 5000))), 'asan')


def gen_bad(rng):
    return sorted({g for _, g in bad_geometries(rng)})


def check(R, uses, variant):
    got = run(uses, variant)
    S = [session(u, *g) for u, g in zip(uses, got)]
    total, rejects = tlc.check_traces('TraceFiles', 'SPECIFICATION Spec\nVIEW Position\n', S)
    R.add(states=total.states, transitions=total.transitions, traces_validated_against_impl=len(S) - len(rejects))
    for k in (0, len(S) // 2):
        R.sample({'use': uses[k].label, 'tool': uses[k].tool, 'answer': str(got[k][0])})
    for k, _, _ in rejects:
        u = uses[k]
        R.violation('C25: %s, %s (%s): %s, files unchanged: %s, file afterwards: %s bytes %s'
                    % (u.kind, u.label, 'tool' if u.tool or u.kind == 'usage' else 'library', got[k][0], got[k][1], len(got[k][2]), got[k][2][:30].hex()),
                    {k2: v if not isinstance(v, bytes) else v.hex() for k2, v in u.__dict__.items()})


CHECKS = {'C25': c25}
