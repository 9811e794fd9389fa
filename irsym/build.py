"""Turn a harness plus the analysed sources into one IR module, and into a
native program for replays.  Everything is rebuilt from /repo's current tree."""
import concurrent.futures
import os
import re
import shutil
import subprocess
import tempfile

from . import irparse

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
NOT_BUILT = ('General/Vector.cpp', 'SFile/ConfigurationSFile.cpp', 'SFile_MAT.Matlab.cpp')
CLANG = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
LINK = 'llvm-link-18' if shutil.which('llvm-link-18') else 'llvm-link'
OPT = 'opt-18' if shutil.which('opt-18') else 'opt'


class BuildError(Exception):
    pass


def all_sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in sorted(fs):
            if f.endswith('.cpp'):
                p = os.path.relpath(os.path.join(d, f), REPO)
                if not p.endswith(NOT_BUILT):
                    out.append(p)
    return sorted(out)


def gen_config(dst):
    src = open(os.path.join(REPO, 'include/softlib/config.h.in')).read()
    on = {'PRECISION_DOUBLE', 'UNIX'}

    def sub(m):
        n = m.group(1)
        return '#define ' + n if n in on else '/* #undef %s */' % n
    src = re.sub(r'#cmakedefine (\w+)', sub, src)
    os.makedirs(os.path.join(dst, 'softlib'), exist_ok=True)
    open(os.path.join(dst, 'softlib', 'config.h'), 'w').write(src)


def run(cmd, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if p.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), (p.stderr or p.stdout)[-3000:]))
    return p.stdout


class Builder:
    """One scratch directory; IR of each source compiled at most once."""

    def __init__(self, defines=()):
        self.dir = tempfile.mkdtemp(prefix='irsym_')
        gen_config(os.path.join(self.dir, 'inc'))
        self.defines = list(defines)
        self.bc = {}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def ir_flags(self):
        return ['-std=c++17', '-O0', '-fopenmp', '-Xclang', '-disable-O0-optnone', '-fno-vectorize', '-w',
                '-include', VERIF + '/shim/std/verif_prelude.h', '-I' + VERIF + '/shim/std', '-I' + VERIF + '/shim/lib',
                '-I' + VERIF + '/harness', '-I' + self.dir + '/inc', '-I' + REPO + '/include', '-DHAS_LIBPNG',
                '-DVERIF_SYMBOLIC', '-D_FILE_OFFSET_BITS=64'] + ['-D' + d for d in self.defines]

    def compile_one(self, path):
        out = os.path.join(self.dir, re.sub(r'[^A-Za-z0-9]', '_', path) + '.bc')
        run([CLANG] + self.ir_flags() + ['-emit-llvm', '-c', path, '-o', out])
        return out

    def module(self, harness, sources, entries, extra=()):
        paths = [os.path.join(VERIF, 'harness', harness)] + [os.path.join(REPO, s) for s in sources] + \
                [os.path.join(VERIF, 'shim/rt/rt.cpp')] + [os.path.join(VERIF, e) for e in extra]
        todo = [p for p in paths if p not in self.bc]
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for p, o in zip(todo, ex.map(self.compile_one, todo)):
                self.bc[p] = o
        linked = os.path.join(self.dir, 'linked.bc')
        run([LINK, '-o', linked] + [self.bc[p] for p in paths])
        out = os.path.join(self.dir, 'final.ll')
        run([OPT, '-S', '-passes=internalize,globaldce,function(sroa,instsimplify,simplifycfg)',
             '-internalize-public-api-list=' + ','.join(entries), linked, '-o', out])
        return irparse.parse_module(open(out).read())

    def native(self, harness, sources, extra=(), sanitize=True, cxx='g++', shim_libs=False, defines=()):
        """Native build of the same harness against the real libraries."""
        out = os.path.join(self.dir, 'native_' + re.sub(r'[^A-Za-z0-9]', '_', harness))
        if os.path.exists(out):
            return out
        inc = ['-I' + VERIF + '/harness', '-I' + self.dir + '/inc', '-I' + REPO + '/include']
        libs = ['-lgsl', '-lgslcblas', '-lpng', '-lm']
        inc += ['-I/usr/include/hdf5/serial']
        libs = ['-L/usr/lib/x86_64-linux-gnu/hdf5/serial', '-lhdf5_cpp', '-lhdf5'] + libs
        fl = ['-std=c++17', '-O1', '-g', '-w', '-fopenmp', '-DHAS_LIBPNG', '-DVERIF_NATIVE'] + ['-D' + d for d in self.defines] + \
             ['-D' + d for d in defines]
        if sanitize:
            fl += ['-rdynamic', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fsanitize=float-cast-overflow']
        paths = [os.path.join(VERIF, 'harness', harness), os.path.join(VERIF, 'harness', 'replay.cpp')] + \
                [os.path.join(REPO, s) for s in sources] + [os.path.join(VERIF, e) for e in extra]
        objs = []

        def one(p):
            o = os.path.join(self.dir, 'n_' + re.sub(r'[^A-Za-z0-9]', '_', p) + '.o')
            run([cxx] + fl + inc + ['-c', p, '-o', o])
            return o
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(one, paths))
        run([cxx, '-rdynamic'] + fl + objs + libs + ['-o', out])
        return out
