"""The C++ kernels under /repo, compiled outside of it on every run: to a library (the code that runs) and to LLVM IR (the code that is
verified)."""
import atexit
import os
import subprocess
import tempfile

FLAGS = ['-std=c++17', '-march=x86-64-v2', '-mpclmul', '-maes']


def here():
    return os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'mplang', 'kernels')


_dir = None


def scratch():
    global _dir
    if _dir is None:
        _dir = tempfile.mkdtemp(prefix='vfk')
        atexit.register(lambda: subprocess.run(['rm', '-rf', '--', _dir]))
    return _dir


_lib = {}


def library(opt='-O2'):
    if opt in _lib:
        return _lib[opt]
    d = scratch()
    src = sorted(f for f in os.listdir(here()) if f.endswith('.cpp'))
    out = os.path.join(d, f'libk{opt}.so')
    ps = [subprocess.Popen(['g++', *FLAGS, opt, '-fopenmp', '-fPIC', '-w', '-c', os.path.join(here(), f), '-o', os.path.join(d, f + opt + '.o')],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT) for f in src]
    for f, p in zip(src, ps):
        o = p.communicate()[0]
        if p.returncode:
            raise RuntimeError(f'{f} does not compile: {o.decode()[-600:]}')
    subprocess.run(['g++', '-shared', '-fopenmp', '-o', out] + [os.path.join(d, f + opt + '.o') for f in src], check=True)
    _lib[opt] = out
    return out


def ir(name, inline=False):
    """the LLVM IR of one kernel source (clang; OpenMP pragmas are ignored, so loops are sequential)"""
    out = os.path.join(scratch(), f'{name}.{int(inline)}.ll')
    cmd = ['clang++', *FLAGS, '-O1', '-S', '-emit-llvm', '-w', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-exceptions',
           '-fno-discard-value-names', os.path.join(here(), name), '-o', out]
    if not inline:
        cmd.insert(1, '-fno-inline')
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise RuntimeError(f'{name} does not compile: {p.stderr[-600:]}')
    return open(out).read()


def use(field_impl, native):
    """let the backend load the freshly compiled library, or find none"""
    field_impl._KERNEL_LIB_PATH = library() if native else os.path.join(scratch(), 'absent.so')
    field_impl._LIB = None
