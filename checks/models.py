"""Model checking of the designs (MCSeq, MCInPlace)."""
from vlib import tlc, common, gen
from vlib.common import scale, CheckError


def expect(R, module, cfg, ok, what, **kw):
    r = tlc.run(module, cfg, deadlock=False, **kw)
    R.add(states=r.states, transitions=r.transitions)
    if ok and not r.ok:
        raise CheckError('%s (%s) is violated: the specification is wrong\n%s' % (module, what, r.text[-3000:]))
    if not ok and not r.violated:
        raise CheckError('%s (%s) is not refuted: the specification checks nothing' % (module, what))
    return r


def seq_cases():
    s = gen.size
    z = bytes
    out = []

    def case(base, patch):
        out.append({'base': list(base), 'patch': list(patch), 'lz': [], 'lzbad': False, 'hw': 8, 'hl': 7})
    body = gen.body([(b'\x01', b'\x09', 1), (b'\x01', b'', 0)])
    case(b'\x05\x06\x07\x08', gen.seq_header(0, 3) + body)
    case(b'', gen.seq_header(0, 2) + gen.body([(b'', b'ab', 0)]))
    case(b'\x05\x06', gen.seq_header(2, 3) + b'\x01\x02\x00' + b'\x00\x02\x03\x63' + b'\x01\x01\x63' + b'\x00\x02\x64\x00')
    case(b'', gen.seq_header(0, 0))
    case(b'', gen.seq_header(2, 0))
    case(b'\x05', gen.seq_header(0, 3) + gen.body([(b'', b'ab', 0)]))           # too short
    case(b'\x05', gen.seq_header(0, 1) + gen.body([(b'\x01', b'ab', 0)]))       # too long
    hb = gen.seq_header(4, 2) + gen.heatshrink(gen.body([(b'', b'aa', 0)]))
    case(b'', hb)
    if common.THOROUGH:
        case(b'\x05\x06\x07\x08', gen.seq_header(2, 5) + gen.crle(gen.body([(b'\x01', b'\x09', 1), (b'\x01', b'zz', 0)])))
        case(b'\x05\x06\x07\x08', gen.seq_header(4, 5) + gen.heatshrink(gen.body([(b'\x01', b'\x09', 1), (b'\x01', b'zz', 0)])))
        case(b'\x05\x06\x07\x08', gen.seq_header(0, 9) + gen.body([(b'\x01\x00\x02', b'\x09', -3), (b'', b'', 1), (b'\x01', b'zzzz', 0)]))
    return out


def run(R, module, what):
    if module == 'MCSeq':
        data = {'cases': seq_cases()}
        inv = 'INVARIANT FilePrefix\nINVARIANT Success\nINVARIANT NoFalseAlarm\n'

        def cfg(mode):
            return 'SPECIFICATION Spec\n%sCONSTANT Mode = "%s"\n' % (inv, mode)
        expect(R, module, cfg('ok'), True, 'ok', data=data)
        for mode in ('lostpos', 'keepfile', 'early'):
            expect(R, module, cfg(mode), False, mode, data={'cases': data['cases'][:1]})
        R.sample('MCSeq model checked: %d patches' % len(data['cases']))
        return
    inv = 'INVARIANT Recoverable\nINVARIANT Right\nINVARIANT StoredIsDone\nINVARIANT RulesAgree\n'

    def cfg(mode, mem, crashes, live=False):
        return ('SPECIFICATION Spec\n%s%sCONSTANTS Mode = "%s" MaxMem = %d Crashes = %d\n'
                % (inv, 'PROPERTY Completes\n' if live else '', mode, mem, crashes))
    r = expect(R, module, cfg('ok', scale(3, 5), 2), True, 'ok')
    expect(R, module, cfg('ok', scale(2, 3), 2, True), True, 'liveness')
    for mode in ('upwards', 'eager', 'nostep', 'unsafe'):
        expect(R, module, cfg(mode, 3, 1), False, mode)
    R.sample('MCInPlace model checked: %d states, memories up to %d' % (r.states, scale(3, 5)))
