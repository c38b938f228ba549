"""Replay of every small patch that TLC enumerates (ScriptGen, PatchGen)."""
import json
from vlib import tlc, crun, gen, common
from vlib.common import scale, CheckError
from vlib.gen import NONE, LZMA, CRLE, HEATSHRINK, C_COMPS


def cases_of(module, cfg, cases, R, what):
    r = tlc.run(module, cfg, data={'cases': cases}, deadlock=False)
    if not r.ok:
        raise CheckError('%s: the specification is broken\n%s' % (module, r.text[-3000:]))
    out = []
    for l in r.lines('"CASE'):
        out.append(json.loads(json.loads(l)[5:]))
    if len(out) < len(cases):
        raise CheckError('%s printed %d cases' % (module, len(out)))
    R.add(states=r.states, transitions=r.transitions)
    return out


def seq_scripts():
    out = []

    def case(base, tos, md, me, adjs, recs):
        c = dict(kind='seq', base=base, tosizes=tos, maxdiff=md, maxextra=me, adjs=adjs, recs=recs,
                 mem=0, seg=1, shift=0)
        c['from'] = 0
        out.append(c)
    case([10, 20, 30], [0, 1, 2, 3, 4], 2, 2, [0, 1, -1, 2, -3], scale(2, 3))
    case([250, 7, 255, 1, 128], [5], 3, 3, [0, -2, 4], scale(2, 3))
    case([], [0, 1, 2, 3], 1, 3, [0, 5, -5], 3)
    if common.THOROUGH:
        case([1, 2], [1, 2, 3], 2, 2, [0, 1, -1, 70, -70], 4)
    return out


def inp_scripts():
    out = []
    geos = [(1, 1), (2, 1), (3, 1), (2, 2), (4, 2)] + ([(4, 1), (5, 1), (6, 2), (6, 3), (8, 4)] if common.THOROUGH else [(6, 3)])
    for mem, seg in geos:
        for shift in range(0, mem + 1, seg):
            for frm in sorted(set(range(mem + 1)) if common.THOROUGH or mem < 5 else {0, 1, seg, seg + 1, mem}):
                c = dict(kind='inp', base=[(37 * i + 5) % 256 for i in range(mem)], tosizes=list(range(mem + 1)),
                         maxdiff=min(seg, 3), maxextra=min(seg, 3), adjs=[0, 1], recs=1 if mem > 3 else 2,
                         mem=mem, seg=seg, shift=shift)
                c['from'] = frm
                out.append(c)
    return out


SCRIPT_CFG = 'SPECIFICATION Spec\nINVARIANT RoundTrip\nINVARIANT Emit\n'
PATCH_CFG = ('SPECIFICATION Spec\nINVARIANT Bounded\nINVARIANT Complete\nINVARIANT Chunks\n'
             'PROPERTY Monotone\nINVARIANT Emit\n')


def feeds(n, cutmode, rng):
    if cutmode == 'one':
        return [[n]]
    if cutmode == 'bytes':
        return [[1] * n]
    if cutmode == 'cuts':
        return [[a, n - a] for a in range(n + 1)]
    return [gen.cuts(rng, n)]


def replay(R, kind, items, name, limit=10):
    """items: (base, patch, feed sizes, judge, what)"""
    scripts = []
    for base, patch, sizes, _, _ in items:
        s = ['i 0 %s %s' % (crun.hexs(base), crun.hexs(patch))]
        s.append('I 0 s -1' if kind == 'seq' else 'I 0 p -1 0')
        s += ['p 0 %d' % n for n in sizes]
        s.append('f 0')
        scripts.append(s)
    raw = crun.run(scripts, limit=limit)
    for (base, patch, sizes, judge, what), ev, script in zip(items, raw, scripts):
        if any(e['e'] == 'killed' for e in ev):
            bad = 'the library crashes or does not terminate'
        else:
            res = [e['res'] for e in ev if e['e'] == 'f'][-1]
            w = b''.join(bytes.fromhex(e.get('w', '')) for e in ev)
            mem = [bytes.fromhex(e['img']) for e in ev if e['e'] == 'm']
            bad = judge(res, w if kind == 'seq' else (mem[-1] if mem else None))
        if bad:
            R.violation('%s %s: %s (patch %s)' % (name, what, bad, bytes(patch).hex()),
                        {'script': script, 'events': ev[-3:]})
    R.add(traces_validated_against_impl=len(items))


def judge_script(kind, out):
    def judge(res, got):
        if res != len(out):
            return 'result %d instead of %d' % (res, len(out))
        if got is None:
            return 'no memory image'
        if (got if kind == 'seq' else got[:len(out)]) != out:
            return 'image %s instead of %s' % (got.hex(), out.hex())
    return judge


def judge_patch(kind, comp, st, surplus, out, safe):
    def judge(res, got):
        good = st == 'done' and surplus == 0
        if kind == 'seq':
            if st != 'toobig' and got != out[:len(got)]:
                return 'wrote %s, not a beginning of %s' % (got.hex(), out.hex())
        elif not safe:
            return None
        if good and res != len(out):
            return 'result %d instead of %d' % (res, len(out))
        if res >= 0:
            if st != 'done' or (comp == NONE and surplus):
                return 'accepted with result %d (%s)' % (res, st)
            if (got if kind == 'seq' else got[:len(out)]) != out:
                return 'image %s instead of %s' % (got.hex(), out.hex())
    return judge


def run(R, kind, name, cutmode='one'):
    rng = common.rng('exhaust', kind, name)
    cases = seq_scripts() if kind == 'seq' else inp_scripts()
    items = []
    k = 0
    for c, patch, out in cases_of('ScriptGen', SCRIPT_CFG, cases, R, name):
        base = bytes(cases[c - 1]['base'])
        out = bytes(out)
        hdr = len(gen.seq_header(0, len(out))) if kind == 'seq' else None
        patch = bytes(patch)
        variants = [patch]
        k += 1
        if kind == 'seq':
            for comp in (CRLE, HEATSHRINK, LZMA):
                if common.THOROUGH or k % 7 == comp:
                    body = patch[hdr:]
                    variants.append(gen.seq_header(comp, len(out))
                                    + (gen.compress(comp, body, rng) if body else b''))
        for p in variants:
            for sizes in feeds(len(p), cutmode, rng):
                items.append((base, p, sizes, judge_script(kind, out), 'script'))
    top = scale(4500, 60000)
    if len(items) > top:
        items = rng.sample(items, top)
    replay(R, kind, items, name)
    R.sample({'enumerated %s scripts replayed' % kind: len(items), 'one': bytes(items[-1][1]).hex()})


def patches(R, kind, name):
    """Every byte string over a small alphabet after some beginnings."""
    rng = common.rng('patches', kind, name)
    cases = []

    def case(head, more, alphabet, base=(1, 2, 3)):
        cases.append(dict(kind=kind, base=list(base), head=list(head), more=more, alphabet=alphabet, hw=8, hl=7))
    A = [0, 1, 2, 64, 65, 128, 255]
    z = gen.size
    if kind == 'seq':
        case([], 2, [0, 1, 2, 4, 64, 128, 255, 16, 32])
        case([0, 2], scale(4, 6), A)
        case([0, 1], scale(4, 5), [0, 1, 64, 192, 129])
        case([0, 3, 0, 1, 7], scale(3, 5), A)
        case([0, 2, 0, 0, 0], scale(3, 5), A)
        B = [0, 1, 2, 3, 64, 66]
        case([2, 2], scale(3, 6), B)
        case([2, 2, 0, 1, 0, 1, 0], scale(3, 6), [0, 1, 2, 3, 128])
        case([2, 3, 1, 2, 0], scale(4, 6), B)
        hb = gen.hs_encode([(0,), (0,), (2,), (7,)], 8, 7)
        case([4, 2], 2, [0, 0x45, 0x44, 0x54, 0xff])
        case(bytes([4, 2, 0x44]) + hb[:-1], scale(2, 4), [0, 0x80, 0x40, 0x20, 0xff, hb[-1]])
        case(bytes([4, 2, 0x44]), scale(3, 4), [0, 0x80, 0x40, 0xff])
    else:
        base = (1, 2, 3, 4)
        case([16], 5, [0, 1, 2, 4], base)
        case([16, 4, 2, 2, 4, 3], scale(4, 5), A, base)
        case([16, 4, 2, 2, 4, 3, 0, 0, 2, 9, 8, 0], scale(4, 5), A, base)
        case([16, 4, 1, 0, 4, 2, 0], scale(4, 5), A, base)
    items = []
    for c, patch, st, surplus, out, safe in cases_of('PatchGen', PATCH_CFG, cases, R, name):
        p = bytes(patch)
        comp = p[0] & 15 if p else 0
        n = len(p)
        sizes = rng.choice([[n], [1] * n, [n // 2, n - n // 2]])
        items.append((bytes(cases[c - 1]['base']), p, sizes,
                      judge_patch(kind, comp, st, surplus, bytes(out), safe), 'byte string'))
    top = scale(4000, 80000)
    if len(items) > top:
        items = rng.sample(items, top)
    replay(R, kind, items, name)
    R.sample({'enumerated %s byte strings replayed' % kind: len(items), 'one': items[-1][1].hex()})
