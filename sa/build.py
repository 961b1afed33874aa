"""Compile the current /repo tree into one LLVM module per configuration."""
import glob, os, subprocess, sys, hashlib, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
from . import ir

REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = 'clang-18' if shutil.which('clang-18') else 'clang'
LINK = 'llvm-link-18'
OPT = 'opt-18'
HERE = os.path.dirname(os.path.abspath(__file__))


class BuildError(Exception):
    pass


def run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stderr[-4000:]))
    return r.stdout


BASE = ['-S', '-emit-llvm', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-discard-value-names',
        '-std=gnu11', '-fwrapv', '-w', '-ffile-prefix-map=%s=/repo' % REPO]


def user_inc():
    return ['-I' + REPO, '-I' + REPO + '/arch', '-I' + REPO + '/src']


def user_sources():
    return sorted(glob.glob(REPO + '/src/*.c') + glob.glob(REPO + '/arch/*.c'))


CONFIGS = {
    'default': dict(defs=['-DJENT_CONF_ENABLE_INTERNAL_TIMER']),
    'notimer': dict(defs=[]),
}


def build_user(name='default', passes='mem2reg', extra=(), only=None):
    defs = CONFIGS[name]['defs'] if name in CONFIGS else []
    tmp = tempfile.mkdtemp(prefix='jentir')
    try:
        srcs = only or user_sources()

        def one(s):
            o = os.path.join(tmp, os.path.basename(s)[:-2] + '.ll')
            run([CLANG] + BASE + user_inc() + list(defs) + list(extra) + [s, '-o', o])
            return o
        with ThreadPoolExecutor(8) as ex:
            lls = list(ex.map(one, srcs))
        linked = os.path.join(tmp, 'linked.ll')
        run([LINK, '-S'] + lls + ['-o', linked])
        out = os.path.join(tmp, 'out.ll')
        run([OPT, '-S', '-passes=' + passes, linked, '-o', out])
        return ir.parse(open(out).read())
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def kernel_headers():
    c = sorted(glob.glob('/usr/src/linux-headers-*-generic'))
    if not c:
        raise BuildError('no kernel headers installed')
    return c[-1]


def kflags():
    return ['-nostdinc', '-I./arch/x86/include', '-I./arch/x86/include/generated', '-I./include',
            '-I./arch/x86/include/uapi', '-I./arch/x86/include/generated/uapi', '-I./include/uapi',
            '-I./include/generated/uapi', '-include', './include/linux/compiler-version.h',
            '-include', './include/linux/kconfig.h', '-I./ubuntu/include',
            '-include', './include/linux/compiler_types.h', '-D__KERNEL__', '-std=gnu11', '-fshort-wchar',
            '-funsigned-char', '-fno-common', '-fno-PIE', '-fno-strict-aliasing', '-mno-sse', '-mno-mmx',
            '-mno-sse2', '-mno-3dnow', '-mno-avx', '-m64', '-mno-80387', '-mno-red-zone', '-mcmodel=kernel',
            '-w', '-DMODULE', '-DLINUX_KERNEL', '-I' + REPO + '/linux_kernel', '-I' + REPO, '-I' + REPO + '/src',
            '-I' + REPO + '/arch',
            '-DCONFIG_EXTERNAL_JITTERENTROPY_TESTINTERFACE', '-DCONFIG_EXTERNAL_JITTERENTROPY_KCAPI',
            '-DCONFIG_EXTERNAL_JITTERENTROPY_CHARDEV', '-DCONFIG_EXTERNAL_JITTERENTROPY_HWRNG',
            '-DKBUILD_MODNAME="jitter_rng"', '-D__KBUILD_MODNAME=kmod_jitter_rng',
            '-S', '-emit-llvm', '-O1', '-Xclang', '-disable-llvm-passes', '-U__OPTIMIZE__', '-g',
            '-fno-discard-value-names', '-ffile-prefix-map=%s=/repo' % REPO]


def build_kernel(passes='mem2reg', only=None, extra=()):
    kdir = kernel_headers()
    tmp = tempfile.mkdtemp(prefix='jentkir')
    try:
        srcs = only or sorted(glob.glob(REPO + '/linux_kernel/*.c'))

        def one(s):
            b = os.path.basename(s)[:-2]
            o = os.path.join(tmp, b + '.ll')
            run([CLANG] + kflags() + list(extra) + ['-DKBUILD_BASENAME="%s"' % b, s, '-o', o], cwd=kdir)
            return o
        with ThreadPoolExecutor(8) as ex:
            lls = list(ex.map(one, srcs))
        linked = os.path.join(tmp, 'linked.ll')
        run([LINK, '-S'] + lls + ['-o', linked])
        out = os.path.join(tmp, 'out.ll')
        run([OPT, '-S', '-passes=' + passes, linked, '-o', out])
        return ir.parse(open(out).read())
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
