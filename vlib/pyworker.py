"""Runs jobs against the Python package under test.  Started with the
package directory, a job file and a scratch directory; one JSON result per
job on stdout.  A job that runs for too long ends the process."""
import sys
import os
import json
import types
import signal
import resource
import logging
from io import BytesIO

pkgdir, jobs, scratch, limit = sys.argv[1:5]
sys.path.insert(0, pkgdir)
stub = types.ModuleType('detools.hdiffpatch')
sys.modules['detools.hdiffpatch'] = stub
import detools                                              # noqa: E402
stub.create_patch = stub.apply_patch = None
from detools import common, bsdiff, suffix_array            # noqa: E402
from detools import apply as dapply                         # noqa: E402
from detools.compression import crle                        # noqa: E402
logging.disable(logging.CRITICAL)
resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
if not os.environ.get('VERIF_ASAN'):
    resource.setrlimit(resource.RLIMIT_AS, (5500 << 20, 5500 << 20))
resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))
signal.signal(signal.SIGXFSZ, signal.SIG_IGN)


def hx(s):
    return bytes.fromhex(s)


class Odd(BytesIO):
    """A file object that must not be written."""


def path(name, data=None):
    p = os.path.join(scratch, name)
    if data is None:
        if os.path.exists(p):
            os.unlink(p)
    else:
        with open(p, 'wb') as f:
            f.write(data)
    return p


def slurp(p):
    try:
        with open(p, 'rb') as f:
            return f.read()
    except OSError:
        return None


def do_apply(j):
    frm, patch = hx(j['from']), hx(j['patch'])
    bs = j['kind'] == 'bsdiff'
    res = {}
    if j.get('files'):
        f, p, t = path('f', frm), path('p', patch), path('t')
        fn = detools.apply_patch_bsdiff_filenames if bs else detools.apply_patch_filenames
        try:
            res['ret'] = fn(f, p, t)
        except Exception as e:
            res['exc'] = exc(e)
        res['out'] = (slurp(t) or b'').hex()
        res['same'] = slurp(f) == frm and slurp(p) == patch
    else:
        f, p, t = BytesIO(frm), BytesIO(patch), BytesIO()
        if j.get('skip'):
            # the patch starts somewhere inside the file object
            p = BytesIO(b'\xa5' * j['skip'] + patch)
            p.seek(j['skip'])
        fn = detools.apply_patch_bsdiff if bs else detools.apply_patch
        try:
            res['ret'] = fn(f, p, t)
        except Exception as e:
            res['exc'] = exc(e)
        res['out'] = t.getvalue().hex()
        res['same'] = f.getvalue() == frm and p.getvalue()[j.get('skip', 0):] == patch
    return res


def do_inplace(j):
    mem, patch = hx(j['mem']), hx(j['patch'])
    res = {}
    if j.get('files'):
        f, p = path('m', mem), path('p', patch)
        try:
            res['ret'] = detools.apply_patch_in_place_filenames(f, p)
        except Exception as e:
            res['exc'] = exc(e)
        res['out'] = (slurp(f) or b'').hex()
        res['same'] = slurp(p) == patch
    else:
        f, p = BytesIO(mem), BytesIO(patch)
        try:
            res['ret'] = detools.apply_patch_in_place(f, p)
        except Exception as e:
            res['exc'] = exc(e)
        res['out'] = f.getvalue().hex()
        res['same'] = p.getvalue() == patch
    return res


def do_create(j):
    frm, to = hx(j['from']), hx(j['to'])
    res = {}
    if j.get('files'):
        f, t, p = path('f', frm), path('t', to), path('p')
        try:
            detools.create_patch_filenames(f, t, p, **j['kw'])
            res['patch'] = slurp(p).hex()
        except Exception as e:
            res['exc'] = exc(e)
        res['same'] = slurp(f) == frm and slurp(t) == to
    else:
        f, t, p = BytesIO(frm), BytesIO(to), BytesIO()
        try:
            detools.create_patch(f, t, p, **j['kw'])
            res['patch'] = p.getvalue().hex()
        except Exception as e:
            res['exc'] = exc(e)
        res['same'] = f.getvalue() == frm and t.getvalue() == to
    return res


def do_info(j):
    p = BytesIO(hx(j['patch']))
    try:
        kind, v = detools.patch_info(p)
        return {'kind': kind, 'info': json.loads(json.dumps(v, default=str))}
    except Exception as e:
        return {'exc': exc(e)}


def do_pack(j):
    out = []
    for fn, x in j['values']:
        try:
            v = {'size': bsdiff.pack_size, 'usize': common.pack_usize, 'crle': crle.pack_size}[fn](int(x))
            out.append(bytes(v).hex())
        except Exception as e:
            out.append({'exc': exc(e)})
    return {'res': out}


def do_unpack(j):
    out = []
    for fn, s in j['values']:
        try:
            b = hx(s)
            if fn == 'size':
                f = BytesIO(b)
                v, n = common.unpack_size_with_length(f)
                out.append([str(v), int(n) if n == int(n) else n, f.tell()])
            elif fn == 'size1':
                f = BytesIO(b)
                v = common.unpack_size(f)
                out.append([str(v), f.tell(), f.tell()])
            elif fn == 'bytes':
                v = common.unpack_size_bytes(b)
                out.append([str(v), -1, -1])
            elif fn == 'usize':
                f = BytesIO(b)
                v = common.unpack_usize(f)
                out.append([str(v), f.tell(), f.tell()])
            else:
                v, n = crle.unpack_size(b, 0)
                out.append([str(v), n, n])
        except Exception as e:
            out.append({'exc': exc(e)})
    return {'res': out}


def do_crle_c(j):
    try:
        c = crle.CrleCompressor()
        out = []
        for s in j['data']:
            out.append(bytes(c.compress(hx(s))).hex())
        out.append(bytes(c.flush()).hex())
        return {'out': out}
    except Exception as e:
        return {'exc': exc(e)}


def do_crle_d(j):
    """calls: [chunk, size]; records what every call returned."""
    stream = hx(j['stream'])
    d = crle.CrleDecompressor(len(stream))
    ev = [{'n': 0, 'size': 0, 'w': '', 'eof': d.eof, 'needs': d.needs_input, 'exc': ''}]
    pos = 0
    for n, size in j['calls']:
        e = {'n': n, 'size': size, 'w': '', 'exc': ''}
        try:
            e['w'] = bytes(d.decompress(stream[pos:pos + n], size)).hex()
        except Exception as x:
            e['exc'] = exc(x)
        pos += n
        try:
            e['eof'] = d.eof
            e['needs'] = d.needs_input
        except Exception as x:
            e['exc'] = e['exc'] or exc(x)
            e['eof'] = e['needs'] = False
        ev.append(e)
        if e['exc']:
            break
    return {'ev': ev}


def do_reader(j):
    """The patch reader: decompress(size) calls."""
    p = BytesIO(hx(j['data']))
    ev = []
    try:
        r = dapply.PatchReader(p, j['compression'])
    except Exception as x:
        return {'exc': exc(x)}
    for size in j['sizes']:
        try:
            ev.append({'size': size, 'w': bytes(r.decompress(size)).hex(), 'exc': ''})
        except Exception as x:
            ev.append({'size': size, 'w': '', 'exc': exc(x)})
            break
    try:
        eof = bool(r.eof)
    except Exception as x:
        eof = False
    return {'ev': ev, 'eof': eof}


def do_sa(j):
    data = hx(j['data'])
    res = {}
    for name, fn in (('sais', suffix_array.sais), ('divsufsort', suffix_array.divsufsort)):
        # (the guard shows writes outside)
        buf = bytearray(b'\xee' * (4 * (len(data) + 1)))
        try:
            fn(data, buf)
            res[name] = [int.from_bytes(buf[i:i + 4], 'little', signed=True) for i in range(0, len(buf), 4)]
        except Exception as e:
            res[name] = []
            res['exc'] = exc(e)
    return res


def do_delta(j):
    frm, to = hx(j['from']), hx(j['to'])
    sa = bytearray()
    for v in j['sa']:
        sa += int(v).to_bytes(4, 'little', signed=True)
    try:
        chunks = bsdiff.create_patch(sa, frm, to, bytearray(len(to) + 1))
        return {'chunks': [bytes(c).hex() for c in chunks]}
    except Exception as e:
        return {'exc': exc(e)}


def do_add(j):
    a, b = bytearray(hx(j['a'])), bytearray(hx(j['b']))
    res = {'free': True}
    try:
        res['out'] = bytes(bsdiff.add_bytes(a, b)).hex()
    except Exception as e:
        res['exc'] = exc(e)
    try:
        # (an object whose buffer is still held cannot change its size)
        a += b'x'
        b += b'x'
    except BufferError:
        res['free'] = False
    return res


def do_cli(j):
    """One use of the command line.  files: name -> hex data, "dir" or
    nothing; argv: words, or [name] for the path of a file."""
    import io
    import shutil
    import subprocess
    import contextlib
    d = os.path.join(scratch, 'cli')
    shutil.rmtree(d, True)
    os.mkdir(d)
    for n, v in j['files'].items():
        if v == 'dir':
            os.mkdir(os.path.join(d, n))
        elif v is not None:
            with open(os.path.join(d, n), 'wb') as f:
                f.write(hx(v))
    argv = [os.path.join(d, a[0]) if isinstance(a, list) else a for a in j['argv']]
    res = {}
    if j.get('process'):
        code = ('import sys, types; sys.path.insert(0, %r); s = types.ModuleType("detools.hdiffpatch"); '
                'sys.modules["detools.hdiffpatch"] = s; s.create_patch = s.apply_patch = None; '
                'sys.argv = ["detools"] + %r; import runpy; '
                'runpy.run_module("detools", run_name="__main__", alter_sys=False)' % (pkgdir, argv))
        p = subprocess.run([sys.executable, '-c', code], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        res['status'], out, err = p.returncode, p.stdout.decode('latin-1'), p.stderr.decode('latin-1')
    else:
        out, err = io.StringIO(), io.StringIO()
        sys.argv = ['detools'] + argv
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                detools._main()
                res['status'] = 0
            except SystemExit as e:
                if e.code is None or isinstance(e.code, int):
                    res['status'] = e.code or 0
                else:
                    err.write(str(e.code) + '\n')
                    res['status'] = 1
            except Exception as e:
                err.write('Traceback: %s\n' % exc(e))
                res['status'] = 1
        out, err = out.getvalue(), err.getvalue()
    res['out'] = out.replace(d + '/', '@')
    res['err'] = err.replace(d + '/', '@')
    res['files'] = {}
    for n in os.listdir(d):
        b = slurp(os.path.join(d, n))
        res['files'][n] = b.hex() if b is not None else 'dir'
    shutil.rmtree(d, True)
    return res


def exc(e):
    return '%s: %s' % (type(e).__name__, str(e)[:200])


OPS = {k[3:]: v for k, v in list(globals().items()) if k.startswith('do_')}


def main():
    out = sys.stdout
    for line in open(jobs):
        j = json.loads(line)
        signal.alarm(int(float(limit)))
        if j['op'] == 'multi':
            r = {'parts': [OPS[x['op']](x) for x in j['parts']]}
        else:
            r = OPS[j['op']](j)
        signal.alarm(0)
        out.write(json.dumps(r) + '\n')
        out.flush()


main()
