"""Builds, from /repo's current working tree, the symbolically executable and the native (replay)
variant of a harness."""
import os
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from rewrite import rewrite

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('NLCG_REPO', '/repo')
CLANG = '/usr/lib/llvm-18/bin/clang++'
INC = ['-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + HERE, '-I' + ROOT + '/harness',
       '-isystem', '/usr/include/trilinos',
       '-isystem', '/usr/lib/x86_64-linux-gnu/openmpi/include',
       '-isystem', '/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi',
       '-isystem', '/usr/include/x86_64-linux-gnu/openblas-pthread']
BASE = ['-std=c++17', '-DNDEBUG', '-DKOKKOS_DEPENDENCE', '-w', '-ffp-contract=off', '-fno-access-control']
LIBS = ['-ltrilinos_kokkosalgorithms', '-ltrilinos_kokkoscontainers', '-ltrilinos_kokkoscore', '-ldl', '-lpthread']


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError(' '.join(cmd) + '\n' + r.stdout[-4000:])
    return r.stdout


def instrumented(src, obj, work, extra=(), idbase=0):
    base = os.path.basename(obj)[:-2]
    ll, ll2 = os.path.join(work, base + '.ll'), os.path.join(work, base + '.sym.ll')
    sh([CLANG] + BASE + list(extra) + ['-O1', '-Xclang', '-disable-llvm-passes', '-S', '-emit-llvm'] + INC + [src, '-o', ll])
    funcs, nops = rewrite(ll, ll2, idbase)
    sh([CLANG, '-O1', '-c', '-w', '-x', 'ir', ll2, '-o', obj])
    os.unlink(ll)
    os.unlink(ll2)
    return funcs, nops


def native(src, obj, extra=()):
    sh([CLANG] + BASE + list(extra) + ['-O1', '-g0', '-c'] + INC + [src, '-o', obj])


KNOWN = {'nlcglib.cpp', 'gpu/acc.cpp', 'la/cusolver.cpp', 'la/magma.cpp'}


def extra_sources():
    """translation units of the library besides the driver (none today); device-only ones are left out"""
    out = []
    for d, _, fs in os.walk(REPO + '/src'):
        for f in fs:
            r = os.path.relpath(os.path.join(d, f), REPO + '/src')
            if f.endswith(('.cpp', '.cc', '.cxx')) and r not in KNOWN:
                out.append(os.path.join(d, f))
    return sorted(out)


def optional(fn, *a):
    try:
        fn(*a)
        return True
    except BuildError:
        return False


def link(out, objs, libs, work, stub):
    """Link; library routines without a model get a stub that ends the path (which leaves the
    properties that go through it undecided instead of giving no answer)."""
    cmd = [CLANG, '-o', out] + objs + ['-Wl,--no-demangle,--allow-multiple-definition'] + libs
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode == 0:
        return
    miss = sorted(set(re.findall(r"undefined (?:reference to|symbol:?) [`'\"]?([A-Za-z_][A-Za-z0-9_]*)", r.stdout)))
    miss = [m for m in miss if m.startswith(('MPI_', 'PMPI_', 'cblas_', 'LAPACKE_', 'ompi_'))]
    if not miss:
        raise BuildError(' '.join(cmd) + '\n' + r.stdout[-4000:])
    src = os.path.join(work, os.path.basename(out) + '_stubs.c')
    with open(src, 'w') as f:
        f.write('#include <stdlib.h>\n' + ('void __rt_cut(const char*);\n' if stub == 'sym' else ''))
        for m in miss:
            if m.startswith('ompi_'):
                f.write('char %s[2048];\n' % m)
            else:
                f.write('long %s(void) { %s; return 0; }\n' % (m, '__rt_cut("%s is not modelled")' % m if stub == 'sym' else 'exit(78)'))
    sh(['/usr/lib/llvm-18/bin/clang', '-w', '-fno-builtin', '-c', src, '-o', src[:-2] + '.o'])
    sh(cmd[:3] + objs + [src[:-2] + '.o', '-Wl,--no-demangle,--allow-multiple-definition'] + libs)


def build(harness, work, with_driver=False, defines=()):
    """returns dict(sym=path, replay=path, funcs={tu: [names]}, nops=int)"""
    os.makedirs(work, exist_ok=True)
    j = lambda n: os.path.join(work, n)
    hs = harness
    jobs = {}
    D = list(defines)
    with ThreadPoolExecutor(8) as ex:
        jobs['h'] = ex.submit(instrumented, hs, j('h.o'), work, D)
        jobs['la'] = ex.submit(instrumented, HERE + '/la_model.cpp', j('la.o'), work)
        jobs['rt'] = ex.submit(native, HERE + '/rt.cpp', j('rt.o'))
        jobs['mpi'] = ex.submit(native, HERE + '/mpi_model.cpp', j('mpi.o'))
        jobs['hr'] = ex.submit(native, hs, j('hr.o'), ['-DVREPLAY'] + D)
        jobs['rr'] = ex.submit(native, HERE + '/replay_rt.cpp', j('rr.o'), ['-DVREPLAY'])
        jobs['mpir'] = ex.submit(native, HERE + '/mpi_model.cpp', j('mpir.o'), ['-DVREPLAY'])
        jobs['lar'] = ex.submit(native, HERE + '/la_replay.cpp', j('lar.o'), ['-DVREPLAY'])
        if with_driver:
            jobs['drv'] = ex.submit(instrumented, REPO + '/src/nlcglib.cpp', j('drv.o'), work, (), 100000)
            jobs['drvr'] = ex.submit(native, REPO + '/src/nlcglib.cpp', j('drvr.o'))
        xs = extra_sources()
        xj = [(ex.submit(optional, instrumented, s, j('x%d.o' % i), work, (), 200000 + 50000 * i), ex.submit(optional, native, s, j('xr%d.o' % i)))
              for i, s in enumerate(xs)]
        xso = [j('x%d.o' % i) for i, (a, b) in enumerate(xj) if a.result() and b.result()]
        xro = [j('xr%d.o' % i) for i, (a, b) in enumerate(xj) if a.result() and b.result()]
        res = {k: f.result() for k, f in jobs.items()}
    so = [j('h.o'), j('la.o'), j('rt.o'), j('mpi.o')] + ([j('drv.o')] if with_driver else []) + xso
    ro = [j('hr.o'), j('rr.o'), j('mpir.o'), j('lar.o')] + ([j('drvr.o')] if with_driver else []) + xro
    with ThreadPoolExecutor(2) as ex:
        a = ex.submit(link, j('sym'), so, LIBS, work, 'sym')
        b = ex.submit(link, j('replay'), ro, ['-llapacke', '-lopenblas'] + LIBS, work, 'replay')
        a.result()
        b.result()
    funcs = list(res['h'][0])
    nops = res['h'][1]
    if with_driver:
        nops += res['drv'][1]
    return {'sym': j('sym'), 'replay': j('replay'), 'funcs': funcs, 'dfuncs': res['drv'][0] if with_driver else [], 'nops': nops}
