"""Compile the tree under verification to LLVM IR (mechanical extraction, done on every run)."""
import glob
import os
import subprocess

CLANG = '/usr/bin/clang++-18'
LINK = '/usr/bin/llvm-link-18'
FLAGS = ['-std=c++17', '-O0', '-g', '-fstandalone-debug', '-S', '-emit-llvm', '-fno-discard-value-names',
         '-fno-access-control', '-Xclang', '-disable-llvm-passes', '-w']


class BuildError(Exception):
    pass


def sources(repo):
    return sorted(glob.glob(os.path.join(repo, 'threadpp', '**', '*.cpp'), recursive=True))


def compile_ir(repo, harness, out):
    """one module with every source file of the library, unmodified, and the template instantiations of the harness"""
    tu = os.path.join(out, 'all.cpp')
    with open(tu, 'w') as f:
        for s in sources(repo):
            f.write('#include "%s"\n' % s)
        f.write('#include "%s"\n' % harness)
    ll = os.path.join(out, 'all.ll')
    p = subprocess.run([CLANG] + FLAGS + ['-I' + repo, tu, '-o', ll], capture_output=True, text=True)
    if p.returncode != 0:
        # name clashes between source files: compile them one by one and link
        parts = []
        for i, s in enumerate(sources(repo) + [harness]):
            o = os.path.join(out, 'part%d.ll' % i)
            q = subprocess.run([CLANG] + FLAGS + ['-I' + repo, s, '-o', o], capture_output=True, text=True)
            if q.returncode != 0:
                raise BuildError(q.stderr[-4000:])
            parts.append(o)
        q = subprocess.run([LINK, '-S'] + parts + ['-o', ll], capture_output=True, text=True)
        if q.returncode != 0:
            raise BuildError(p.stderr[-4000:] + q.stderr[-2000:])
    with open(ll) as f:
        return f.read()


def native(repo, src, exe, extra=()):
    """a native program: driver source plus the library's own sources"""
    cmd = ['/usr/bin/g++', '-std=c++17', '-O1', '-g', '-pthread', '-w', '-I' + repo] + list(extra) + [src] + sources(repo) + ['-o', exe]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise BuildError(p.stderr[-4000:])
