"""Scratch build of /repo: sources, generated tables, LLVM IR, native libraries."""
import os, subprocess, tempfile, shutil, atexit, hashlib, sys

REPO = os.environ.get('NTT_REPO', '/repo')
CFLAGS = ['-std=c99', '-DNDEBUG', '-D_DEFAULT_SOURCE']
SIZES = (16, 256, 512, 1024)


class BuildError(Exception):
    pass


def sh(cmd, cwd=None, timeout=300, env=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
    if r.returncode:
        raise BuildError('%s: exit %d\n%s' % (' '.join(cmd), r.returncode, r.stdout.decode(errors='replace')[-4000:]))
    return r.stdout.decode(errors='replace')


class Scratch:
    def __init__(self, tables=True):
        self.dir = tempfile.mkdtemp(prefix='nttv.', dir=os.environ.get('NTT_SCRATCH', '/tmp'))
        atexit.register(self.clean)
        self.pid = os.getpid()
        self.src = os.path.join(self.dir, 'src')
        shutil.copytree(os.path.join(REPO, 'src'), self.src,
                        ignore=shutil.ignore_patterns('*.o', '*_build*'))
        self.env = {k: v for k, v in os.environ.items() if k not in ('MAKEFLAGS', 'CFLAGS', 'CPPFLAGS', 'LDFLAGS')}
        self.env['CC'] = 'gcc'
        if tables:
            self.tables()

    def clean(self):
        if os.getpid() == self.pid and os.path.isdir(self.dir):
            shutil.rmtree(self.dir, ignore_errors=True)

    def tables(self):
        s = self.src
        sh(['make', '-C', s, 'clean'], env=self.env)
        g = ['make_tables', 'make_red_tables', 'make_bitrev_table']
        for n in SIZES:
            g += ['ntt%d_tables.c' % n, 'ntt%d_tables.h' % n, 'ntt_red%d_tables.c' % n, 'ntt_red%d_tables.h' % n,
                  'bitrev%d_table.c' % n, 'bitrev%d_table.h' % n]
        sh(['make', '-C', s, '-j1'] + g, env=self.env)

    def ir(self, cfile, flags=(), src=None):
        """LLVM IR text of one C file (O0 + mem2reg)"""
        p = os.path.join(src or self.src, cfile)
        tag = hashlib.sha1((p + ' '.join(flags)).encode()).hexdigest()[:10]
        out = os.path.join(self.dir, tag + '.ll')
        if not os.path.exists(out):
            sh(['clang', '-O0', '-Xclang', '-disable-O0-optnone'] + CFLAGS + list(flags) +
               ['-w', '-S', '-emit-llvm', p, '-o', out + '.0.%d' % os.getpid()])
            sh(['opt-18' if shutil.which('opt-18') else 'opt', '-passes=mem2reg', '-S', out + '.0.%d' % os.getpid(), '-o', out + '.1.%d' % os.getpid()])
            os.rename(out + '.1.%d' % os.getpid(), out)
        return open(out).read()

    def native(self, cfiles, name, flags=('-O3',), extra=()):
        """shared library from the real sources, as the Makefile compiles them"""
        out = os.path.join(self.dir, name + '.so')
        objs = []
        procs = []
        for c in cfiles:
            o = os.path.join(self.dir, name + '.' + os.path.basename(c) + '.o')
            p = c if os.path.isabs(c) else os.path.join(self.src, c)
            procs.append((c, subprocess.Popen(['gcc', '-w', '-fPIC'] + CFLAGS + list(flags) + ['-I', self.src, '-c', p, '-o', o],
                                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
            objs.append(o)
        for c, p in procs:
            txt = p.communicate()[0]
            if p.returncode:
                raise BuildError('gcc %s failed\n%s' % (c, txt.decode()[-3000:]))
        sh(['gcc', '-shared', '-o', out] + objs + list(flags) + list(extra))
        return out

    def asm_obj(self, sfile='ntt_asm.S'):
        out = os.path.join(self.dir, 'asm.o')
        if not os.path.exists(out):
            sh(['gcc', '-c', os.path.join(self.src, sfile), '-o', out])
        return out
