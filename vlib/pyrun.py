"""The Python package under test: built from /repo into the work directory,
driven by vlib/pyworker.py."""
import os
import json
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from . import common, crun
from .common import REPO, VENV, CheckError

_built = {}


def build(asan=False):
    """The directory that holds the package."""
    if asan in _built:
        return _built[asan]
    d = os.path.join(common.work(), 'py-asan' if asan else 'py')
    pkg = os.path.join(d, 'detools')
    shutil.copytree(os.path.join(REPO, 'detools'), pkg,
                    ignore=shutil.ignore_patterns('*.so', '__pycache__', '*.pyc'))
    q = subprocess.run([VENV, '-c', 'import sysconfig as s;print(s.get_paths()["include"]);'
                        'print(s.get_config_var("EXT_SUFFIX"))'], stdout=subprocess.PIPE, check=True)
    inc, so = q.stdout.decode().split()
    base = ['gcc', '-g', '-w', '-shared', '-fPIC', '-I' + inc, '-I' + pkg]
    base += ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=alignment'] if asan else ['-O2']
    with ThreadPoolExecutor(2) as ex:
        list(ex.map(crun.sh, [
            base + ['-o', os.path.join(pkg, 'bsdiff' + so), os.path.join(pkg, 'bsdiff.c')],
            base + ['-o', os.path.join(pkg, 'suffix_array' + so), os.path.join(pkg, 'suffix_array.c'),
                    os.path.join(pkg, 'sais', 'sais.c'), os.path.join(pkg, 'libdivsufsort', 'divsufsort.c')]]))
    _built[asan] = d
    return d


def run(jobs, asan=False, limit=20, procs=8):
    """Results per job; None where the worker died or hung."""
    d = build(asan)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    if asan:
        libs = [subprocess.run(['gcc', '-print-file-name=' + l], stdout=subprocess.PIPE).stdout.decode().strip()
                for l in ('libasan.so', 'libubsan.so')]
        env.update(LD_PRELOAD=':'.join(libs), ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1',
                   PYTHONMALLOC='malloc', VERIF_ASAN='1')

    deaths = []

    def go(part):
        if not part:
            return []
        scratch = tempfile.mkdtemp(prefix='job-', dir=common.work())
        path = os.path.join(scratch, 'jobs')
        with open(path, 'w') as f:
            for j in part:
                f.write(json.dumps(j) + '\n')
        p = subprocess.run([VENV, os.path.join(crun.HERE, 'pyworker.py'), d, path, scratch, str(limit)],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
        shutil.rmtree(scratch, True)
        out = []
        for l in p.stdout.decode('latin-1').split('\n'):
            try:
                out.append(json.loads(l))
            except ValueError:
                break
        if len(out) >= len(part):
            return out[:len(part)]
        if not out and not getattr(go, 'alive', False):
            # does it run at all?
            probe = subprocess.run([VENV, os.path.join(crun.HERE, 'pyworker.py'), d, '/dev/null', '/tmp', '5'],
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
            if probe.returncode:
                raise BrokenPackage(probe.stderr.decode('latin-1')[-1500:])
            go.alive = True
        # this job killed the worker
        deaths.append(1)
        if len(deaths) > 6:
            return out + [None] * (len(part) - len(out))
        return out + [None] + go(part[len(out) + 1:])
    per = max(1, (len(jobs) + procs - 1) // procs)
    res = []
    with ThreadPoolExecutor(procs) as ex:
        for r in ex.map(go, [jobs[i:i + per] for i in range(0, len(jobs), per)]):
            res += r
    return res


class BrokenPackage(CheckError):
    """The package cannot even be imported."""
