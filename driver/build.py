"""Builds a worker binary from /repo's working tree and /verif/harness.

Objects are cached in /verif/build (git-ignored), keyed by the compile command
and the contents of every non-system file they include, so a change in /repo is
always seen and an unchanged tree is not rebuilt in the same sandbox.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
BUILD = os.environ.get('VF_BUILD', os.path.join(VERIF, 'build'))
HARNESS = os.path.join(VERIF, 'harness')
CXX = 'clang++'
L = '/usr/lib/x86_64-linux-gnu'

INC = ['-isystem', L + '/openmpi/include', '-isystem', L + '/openmpi/include/openmpi']
for d in ('petsc', 'trilinos', 'hdf5/openmpi', 'scotch', 'suitesparse', 'opencascade', 'slepc'):
    INC += ['-isystem', '/usr/include/' + d]
INC += ['-isystem', '/opt/vp/compat/include']
FORCE = []
for h in ('boost/container_hash/hash.hpp', 'deal.II/base/multithread_info.h',
          'deal.II/distributed/tria_base.h', 'deal.II/lac/vector.h'):
    FORCE += ['-include', h]
BASE = ['-std=c++17', '-O0', '-g0', '-DNDEBUG', '-D_GLIBCXX_ASSERTIONS', '-w', '-fPIC'] + INC
MFMG_INC = ['-I' + REPO + '/include', '-I' + HARNESS]

LIBS = ['deal.ii', 'tbb'] + ['trilinos_' + x for x in (
    'anasaziepetra', 'anasazi', 'ml', 'ifpack', 'amesos', 'aztecoo', 'zoltan', 'epetraext', 'epetra',
    'belos', 'belosepetra', 'thyracore', 'thyraepetra', 'stratimikos', 'teuchosnumerics', 'teuchoscomm',
    'teuchosparameterlist', 'teuchosparser', 'teuchoscore', 'teuchosremainder', 'tpetra', 'tpetraclassic',
    'kokkoscore')] + ['parpack', 'arpack', 'lapacke', 'umfpack', 'metis', 'boost_serialization', 'boost_system',
                      'boost_iostreams', 'boost_thread', 'petsc', 'slepc', 'p4est', 'sc', 'lapack', 'blas', 'z', 'mpi_cxx', 'mpi']
LINK = ['-fuse-ld=lld', '-Wl,--as-needed', '-L' + L + '/openmpi/lib', '-L' + L,
        '-Wl,-rpath,' + L + '/openmpi/lib:' + L + '/hdf5/openmpi'] + ['-l' + x for x in LIBS] + ['-lm', '-lpthread']

HEAVY = ('amge_host.cc', 'dealii_hierarchy_helpers.cc', 'dealii_matrix_free_hierarchy_helpers.cc')

# property -> (harness source, repo sources: list, or 'light' / 'all')
GROUPS = {
    'utils': ['utils.cc'],
    'none': [],
    'amge': ['amge.cc', 'dealii_utils.cc'],
    'light': None,
    'all': None,
}


class BuildError(Exception):
    pass


def sha(path):
    with open(path, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()


def repo_sources():
    out = []
    for sub in ('common', 'dealii'):
        d = os.path.join(REPO, 'source', sub)
        for root, _, files in sorted(os.walk(d)):
            out += [os.path.join(root, f) for f in sorted(files) if f.endswith(('.cc', '.cpp', '.cxx'))]
    return out


def _deps(dfile):
    txt = open(dfile).read().replace('\\\n', ' ')
    deps = []
    for rule in txt.splitlines():
        if ':' in rule:
            deps += rule.split(':', 1)[1].split()
    roots = (os.path.realpath(REPO) + '/', os.path.realpath(VERIF) + '/')
    return sorted({os.path.realpath(p) for p in deps if os.path.realpath(p).startswith(roots)})


def compile_one(src, obj, flags, pch=None, lang=None):
    cmd = [CXX] + BASE + (['-include-pch', pch] if pch else []) + FORCE + MFMG_INC + flags
    cmd += ['-MMD', '-MF', obj + '.d', '-c', src, '-o', obj]
    key = hashlib.sha256('\0'.join(cmd).encode()).hexdigest()
    meta = obj + '.json'
    try:
        m = json.load(open(meta))
        if m['key'] == key and os.path.exists(obj) and all(sha(p) == h for p, h in m['deps'].items()):
            return obj, 0.0
    except (OSError, ValueError, KeyError):
        pass
    t = time.time()
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        for f in (obj, meta):
            if os.path.exists(f):
                os.unlink(f)
        e = BuildError('%s\n%s' % (' '.join(cmd), r.stderr[-6000:]))
        e.fatal = src.startswith(HARNESS)
        raise e
    json.dump({'key': key, 'deps': {p: sha(p) for p in _deps(obj + '.d')}}, open(meta, 'w'))
    return obj, time.time() - t


def build_pch():
    pch = os.path.join(BUILD, 'pch.pch')
    src = os.path.join(HARNESS, 'pch.hpp')
    # clang refuses a precompiled header whose sources have another time stamp
    key = hashlib.sha256((' '.join(BASE + FORCE) + sha(src) + str(os.stat(src).st_mtime_ns)).encode()).hexdigest()
    kf = pch + '.key'
    if os.path.exists(pch) and os.path.exists(kf) and open(kf).read() == key:
        return pch
    r = subprocess.run([CXX] + BASE + FORCE + ['-x', 'c++-header', src, '-o', pch], capture_output=True, text=True)
    if r.returncode:
        raise BuildError('pch: ' + r.stderr[-4000:])
    open(kf, 'w').write(key)
    return pch


EXTERN = '''// generated: instantiate AMGe_host only in its own translation units
#include <mfmg/dealii/amge_host.hpp>
#include <mfmg/dealii/dealii_mesh_evaluator.hpp>
#include <mfmg/dealii/dealii_matrix_free_mesh_evaluator.hpp>
#include <deal.II/lac/la_parallel_vector.h>
#define VFV dealii::LinearAlgebra::distributed::Vector<double>
%s
'''
EXT_AMGE = '\n'.join('extern template class mfmg::AMGe<%d, VFV>;' % d for d in (2, 3))
EXT_HOST = '\n'.join('extern template class mfmg::AMGe_host<%d, mfmg::%s<%d>, VFV>;' % (d, e, d)
                     for d in (2, 3) for e in ('DealIIMeshEvaluator', 'DealIIMatrixFreeMeshEvaluator'))


def write_if_changed(path, txt):
    if not os.path.exists(path) or open(path).read() != txt:
        open(path, 'w').write(txt)


def split_amge_host(src):
    """One translation unit per explicit instantiation of AMGe_host, or None."""
    txt = open(src).read()
    inst = list(re.finditer(r'^template\s+class\s+mfmg::AMGe_host<[^;]*?>;[ \t]*$', txt, re.M | re.S))
    mem = list(re.finditer(r'^INSTANTIATE_COMPUTE_LOCAL_EIGENVECTORS\((\d), (mfmg::\w+)\)[ \t]*$', txt, re.M))
    if len(inst) != 4 or len(mem) != 4:
        return None

    def sig(m):
        t = re.sub(r'\s', '', m.group(0))
        return (re.search(r'(\d)', t).group(1), 'MatrixFree' in t)
    if sorted(map(sig, inst)) != sorted(map(sig, mem)) or len(set(map(sig, inst))) != 4:
        return None
    out = []
    for keep in inst:
        k = sig(keep)
        cut = [m.span() for m in inst + mem if sig(m) != k]
        # blank out, keeping the line structure
        chars = list(txt)
        for a, b in cut:
            for i in range(a, b):
                if chars[i] != '\n':
                    chars[i] = ' '
        p = os.path.join(BUILD, 'split_amge_host_%s%s.cc' % (k[0], 'f' if k[1] else 'm'))
        write_if_changed(p, '#include "%s"\n' % os.path.join(BUILD, 'extern_amge.hpp') + ''.join(chars))
        out.append(p)
    return out


def jobs_for(srcs, fast, suf='.o'):
    """(src, obj, flags) of the repo objects; fast: use the split/extern tricks."""
    jobs = []
    for s in srcs:
        b = os.path.basename(s)
        rel = os.path.relpath(s, REPO).replace('/', '_')
        if fast and b == 'amge_host.cc':
            parts = split_amge_host(s)
            if parts:
                for p in parts:
                    jobs.append((p, os.path.join(BUILD, os.path.basename(p) + suf), ['-I' + os.path.dirname(s)]))
                continue
        flags = []
        if fast and b in ('dealii_hierarchy_helpers.cc', 'dealii_matrix_free_hierarchy_helpers.cc'):
            flags = ['-include', os.path.join(BUILD, 'extern_host.hpp')]
        jobs.append((s, os.path.join(BUILD, rel + suf), flags))
    # long ones first
    jobs.sort(key=lambda j: 0 if 'hierarchy_helpers' in j[0] else 1 if 'amge' in j[0] else 2)
    return jobs


def thunks(objs):
    """g++ (which built deal.II) and clang++ mangle some enable_if templates
    differently: jumps from the one name to the other, as an object file."""
    def names(cmd):
        r = subprocess.run(cmd, capture_output=True, text=True).stdout.split('\n')
        return {x.split()[-1] for x in r if 'enable_if' in x}

    def demangled(xs):
        r = subprocess.run(['c++filt'], input='\n'.join(xs), capture_output=True, text=True).stdout.split('\n')
        return dict(zip(xs, r))
    undef = names(['nm', '-u'] + objs)
    if not undef:
        return []
    lib = names(['nm', '-D', '--defined-only', os.path.join(L, 'libdeal.ii.so')])
    undef = sorted(undef - lib)
    by = {v: k for k, v in demangled(sorted(lib)).items()}
    asm = '.text\n'
    for u, dm in demangled(undef).items():
        if dm in by:
            asm += '.globl %s\n.type %s,@function\n%s: jmp %s@PLT\n' % (u, u, u, by[dm])
    asm += '.section .note.GNU-stack,"",@progbits\n'
    h = hashlib.sha256(asm.encode()).hexdigest()[:16]
    src, obj = os.path.join(BUILD, 'thunks_%s.s' % h), os.path.join(BUILD, 'thunks_%s.o' % h)
    if not os.path.exists(obj):
        open(src, 'w').write(asm)
        r = subprocess.run([CXX, '-c', src, '-o', obj], capture_output=True, text=True)
        if r.returncode:
            raise BuildError('thunks: ' + r.stderr[-2000:])
    return [obj]


def build(prop, harness_src, group, use_pch=True, log=None):
    """Returns (path of the worker binary, seconds). Raises BuildError."""
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        write_if_changed(os.path.join(BUILD, 'extern_amge.hpp'), EXTERN % EXT_AMGE)
        write_if_changed(os.path.join(BUILD, 'extern_host.hpp'), EXTERN % (EXT_AMGE + '\n' + EXT_HOST))
        every = repo_sources()
        light = [s for s in every if os.path.basename(s) not in HEAVY]
        named = [s for s in every if os.path.basename(s) in (GROUPS[group] or [])]
        if group == 'all':
            variants = [(every, True), (every, False)]
        elif group == 'light':
            variants = [(light, True), (every, True), (every, False)]
        else:
            variants = [(named, True), (light, True), (every, True), (every, False)]
        pch = build_pch() if use_pch else None
        own = [os.path.join(HARNESS, harness_src), os.path.join(HARNESS, 'core.cc'), os.path.join(HARNESS, 'dense.cc')]
        err = None
        exe = os.path.join(BUILD, 'w_' + prop)
        times = {}
        for srcs, fast in variants:
            jobs = [(s, os.path.join(BUILD, 'h_' + os.path.basename(s) + ('.o' if use_pch else '.n.o')), ['-O2'] if s.endswith('dense.cc') else []) for s in own]
            rj = jobs_for(srcs, fast, '.o' if use_pch else '.n.o')
            k = sum(1 for j in rj if 'hierarchy_helpers' in j[0] or 'amge' in j[0])
            jobs = rj[:k] + jobs[:1] + rj[k:] + jobs[1:]
            try:
                with cf.ThreadPoolExecutor(8) as ex:
                    fs = [(j, ex.submit(compile_one, j[0], j[1], j[2],
                                        pch if not os.path.basename(j[0]).startswith(('utils', 'dense')) else None)) for j in jobs]
                    objs = []
                    for j, f in fs:
                        o, dt = f.result()
                        objs.append(o)
                        times[os.path.basename(o)] = round(dt, 1)
                lkey = hashlib.sha256(' '.join([sha(o) for o in objs] + LINK).encode()).hexdigest()
                kf = exe + '.key'
                if not (os.path.exists(exe) and os.path.exists(kf) and open(kf).read() == lkey):
                    r = subprocess.run([CXX] + objs + thunks(objs) + LINK + ['-o', exe + '.tmp'], capture_output=True, text=True)
                    if r.returncode:
                        e = BuildError('link: ' + r.stderr[-6000:])
                        e.fatal = 'mfmg::' not in r.stderr
                        raise e
                    os.replace(exe + '.tmp', exe)
                    open(kf, 'w').write(lkey)
                err = None
                break
            except BuildError as e:
                err = err or e
                if getattr(e, 'fatal', False):
                    break
        if err:
            raise err
        if log:
            json.dump(times, open(log, 'w'))
        return exe, time.time() - t0


