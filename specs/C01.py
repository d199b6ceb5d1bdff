"""C01  File-backed storage never leaves its root directory."""
import os, posixpath, sys
from pyvc.worker import H
from pyvc import core
from pyvc.core import Unsupported

INSTRUMENT = ['mplang.runtime.object_store']
ASSUMPTIONS = ['containment is lexical, on normalized absolute paths (os.path.abspath); symbolic links created inside the root by others are not resolved',
               'the root is not changed concurrently; the process working directory is fixed during a call']
TRUSTED = ['os.path.abspath/normpath return a normalized absolute path that is a function of the argument', 'os.path.join, dirname, commonpath, isabs contracts',
           'os/shutil/open/pickle touch only the paths they are given']

import mplang.runtime.object_store as OS
FS = OS.FileSystemBackend


# ------------------------------------------------------------------ trusted path contracts (symbolic mode)
class FakePath:
    sep = '/'

    def __init__(self, env, log, root):
        self.env, self.log, self.root = env, log, root
        self.n = 0

    def _uf(self, name, s):
        import z3
        return core.SStr(z3.Function('path.' + name, z3.StringSort(), z3.StringSort())(core.sterm(s)))

    def abspath(self, s):
        r = self._uf('abs', s)
        core.ENG.assume(r.startswith('/'))
        core.ENG.assume(core.Or(r == '/', core.Not(r.endswith('/'))))
        # a normalized path is its own normal form
        core.ENG.assume(self._uf('abs', r) == r)
        return r

    normpath = realpath = abspath

    def isabs(self, s):
        return s.startswith('/')

    def join(self, a, *rest):
        for b in rest:
            if b.startswith('/'):
                a = b
            elif a == '' or a.endswith('/'):
                a = a + b
            else:
                a = a + '/' + b
        return a

    def dirname(self, p):
        r = self._uf('dir', p)
        R = self.root
        core.ENG.assume(core.Implies(strictly(p, R), core.Or(r == R, strictly(r, R))))
        return r

    def basename(self, p):
        return self._uf('base', p)

    def commonpath(self, ps):
        a, b = list(ps)
        r = self._uf('common', a + '\0' + b)
        core.ENG.assume(core.Iff(r == a, core.Or(a == b, strictly(b, a))))
        core.ENG.assume(core.Iff(r == b, core.Or(a == b, strictly(a, b))))
        return r

    def _q(self, what, p):
        self.log.append((what, p))
        self.n += 1
        return self.env.bool(f'fs{self.n}.{what}')

    def exists(self, p): return self._q('stat', p)
    def lexists(self, p): return self._q('stat', p)
    def isdir(self, p): return self._q('stat', p)
    def isfile(self, p): return self._q('stat', p)
    def islink(self, p): return self._q('stat', p)

    def samefile(self, a, b):
        self.log.append(('stat', a)); return self._q('stat', b)

    def getsize(self, p):
        self.log.append(('stat', p))
        self.n += 1
        return self.env.int(f'fs{self.n}.size', 0)


class FakeOS:
    sep = '/'

    def __init__(self, env, root):
        self.log = []
        self.path = FakePath(env, self.log, root)

    def makedirs(self, p, *a, exist_ok=False, **k): self.log.append(('makedirs', p))
    def mkdir(self, p, *a, **k): self.log.append(('makedirs', p))
    def remove(self, p): self.log.append(('remove', p))
    def unlink(self, p): self.log.append(('remove', p))
    def symlink(self, a, b): self.log.append(('write', b)); self.log.append(('read', a))
    def rename(self, a, b): self.log.append(('remove', a)); self.log.append(('write', b))
    def replace(self, a, b): self.log.append(('remove', a)); self.log.append(('write', b))
    def fspath(self, p): return p

    # shutil
    def move(self, a, b): self.log.append(('remove', a)); self.log.append(('write', b))

    def copy2(self, a, b): self.log.append(('read', a)); self.log.append(('write', b))
    copy = copyfile = copy2

    def open(self, p, mode='r', *a, **k):
        self.log.append(('write' if 'w' in mode else 'read', p))
        return Handle()


class Handle:
    _vf_ok = True

    def __enter__(self): return self
    def __exit__(self, *a): return False
    def read(self, *a): return b''
    def write(self, b): return None


class FakePickle:
    def dump(self, v, f, *a, **k): return None
    def load(self, f): return 'loaded'


def strictly(p, R):
    """p lies strictly below R (both normalized)."""
    return core.Or(core.And(R == '/', p.startswith('/'), core.Not(p == '/')), core.And(core.Not(R == '/'), p.startswith(R + '/')))


def inside(p, R):
    return core.Or(p == R, strictly(p, R))


def setup(env):
    root_arg = env.str('root')
    fos = FakeOS(env, None)
    R = fos.path.abspath(root_arg)
    fos.path.root = R
    env.patch(OS, 'os', fos)
    env.patch(OS, 'shutil', fos)
    env.patch(OS, 'pickle', FakePickle())
    env.patch(OS, 'open', fos.open)
    env.patch(FS, '_same_file_content', staticmethod(lambda a, b: fos.path.samefile(a, b)))
    be = FS(root_arg)
    fos.log[:] = []
    return be, fos, R


def resolved(fos, R, key):
    """Where a key points: below the root, leading slashes ignored."""
    return fos.path.abspath(fos.path.join(R, key.lstrip('/')))


def check_log(env, fos, R, allowed=()):
    for what, p in fos.log:
        if not core.isstr(p):
            env.fail(f'{what} of a non-path')
        ok = inside(p, R)
        if what == 'makedirs':
            ok = core.Or(ok, p == fos.path.dirname(R))     # an existing ancestor: nothing is created
        env.prove(f'{what}: inside the root', core.Or(ok, *[p == a for a in allowed]), p)


def op_harness(op):
    def h(env):
        be, fos, R = setup(env)
        key = env.str('key')
        P = resolved(fos, R, key)
        ok_inside = inside(P, R)
        res = env.run(lambda: getattr(be, op)(*([key, 'v'] if op == 'put' else [key])))
        if res[0] == 'exc' and isinstance(res[1], ValueError):
            env.prove('refused only when the key points outside', env.not_(ok_inside))
            env.prove('refused before any file is touched', len([x for x in fos.log if x[0] != 'stat']) == 0)
        else:
            env.prove('a key pointing outside is refused', ok_inside)
            # the files touched are those of the key
            for what, p in fos.log:
                if what in ('read', 'write', 'remove', 'stat'):
                    env.prove('touches the file of the key', p == P)
        check_log(env, fos, R)
        env.cover(res[0])
    h.__doc__ = f'FileSystemBackend.{op}: every path it touches is inside the root; refused iff the key points outside.'
    return h


def h_upload(env):
    """upload under a relative key moves the source only to the key's file inside the root."""
    be, fos, R = setup(env)
    key, source = env.str('key'), env.str('source')
    env.assume(env.not_(key.startswith('/')))
    P, S = resolved(fos, R, key), fos.path.abspath(source)
    res = env.run(be.upload, source, key)
    if res[0] == 'exc' and isinstance(res[1], ValueError):
        env.prove('refused only when the key points outside', env.not_(inside(P, R)))
    elif not (res[0] == 'exc' and isinstance(res[1], FileNotFoundError)):
        env.prove('a key pointing outside is refused', inside(P, R))
    for what, p in fos.log:
        if what == 'makedirs':
            env.prove('directories inside the root', core.Or(inside(p, R), p == fos.path.dirname(R)))
        elif what == 'write':
            env.prove('written only at the key', env.and_(p == P, inside(p, R)))
        else:
            env.prove('other paths: the source or the key', core.Or(p == S, env.and_(p == P, inside(p, R))))


def h_download(env):
    """download of a relative key is refused when the key points outside the root."""
    be, fos, R = setup(env)
    key, dest = env.str('key'), env.str('dest')
    env.assume(env.not_(key.startswith('/')))
    P, Dd = resolved(fos, R, key), fos.path.abspath(dest)
    cwd = fos.path.abspath(key)
    res = env.run(be.download, key, dest)
    if res[0] == 'exc' and isinstance(res[1], ValueError):
        env.prove('refused only when the key points outside', env.not_(inside(P, R)))
        env.prove('nothing touched', len([x for x in fos.log if x[0] != 'stat']) == 0)
    else:
        env.prove('a key pointing outside is refused', inside(P, R))
    for what, p in fos.log:
        if what in ('write', 'remove'):
            env.prove('changes only the destination', p == Dd)
        elif what == 'read':
            env.prove('links to the key (or, if absent there, the working directory)', core.Or(p == P, p == cwd))


# ------------------------------------------------------------------ the real file system (concrete mode, unprivileged scratch)
AUDIT = []
_hook = [False]


def audit(ev, args):
    if _hook[0] and ev in ('open', 'os.remove', 'os.rename', 'os.mkdir', 'os.symlink', 'os.link', 'os.rmdir', 'shutil.move', 'os.truncate', 'os.chmod'):
        AUDIT.append((ev, [a for a in args[:2] if isinstance(a, (str, bytes))]))


_installed = []


def gen_key(base):
    def g(r):
        parts = [r.choice(['a', 'b', '..', '.', '', 'store', 'store-evil', 'store2', 'é', 'f.txt', '...', '..a', 'x y'])
                 for _ in range(r.randint(0, 5))]
        ups = 0
        for i, p in enumerate(parts):
            if p == '..':
                ups += 1
                if ups > 3:
                    parts[i] = 'u'
        k = '/'.join(parts)
        return r.choice(['', '', '', '/', '//', base + '/', base + '/store-evil/', base + '/store/']) + k
    return g


def h_real(env):
    """All operations on the real file system: effects only inside the root, refused iff the key points outside."""
    if not _installed:
        sys.addaudithook(audit)
        _installed.append(1)
    base = env.scratch()
    root = base + '/p/q/w/store'
    for d in ('store', 'store-evil', 'store2', 'store/sub'):
        os.makedirs(base + '/p/q/w/' + d)
    for f in ('store-evil/a', 'store2/b', 'store/a', 'store/sub/f.txt', 'a'):
        open(base + '/p/q/w/' + f, 'wb').write(b'\x80\x04K\x07.')
    src = base + '/p/src'
    open(src, 'wb').write(b'data')
    form = env.choice('rootform', ['abs', 'slash', 'dotted', 'rel'])
    arg = {'abs': root, 'slash': root + '/', 'dotted': base + '/p/q/../q/w/./store', 'rel': os.path.relpath(root)}[form]
    be = FS(arg)
    b = base + '/p/q/w'
    key = env.str('key', conc=gen_key(b))
    op = env.choice('op', ['put', 'get', 'delete', 'exists', 'upload', 'download'])
    if op in ('upload', 'download'):
        env.assume(not key.startswith('/'))
    P = posixpath.normpath(root + '/' + key.lstrip('/'))
    ins = P == root or P.startswith(root + '/')
    before = tree(base, root)
    AUDIT.clear()
    _hook[0] = True
    try:
        if op == 'put': res = env.run(be.put, key, 42)
        elif op == 'upload': res = env.run(be.upload, src, key)
        elif op == 'download': res = env.run(be.download, key, base + '/p/dest')
        else: res = env.run(getattr(be, op), key)
    finally:
        _hook[0] = False
    refused = res[0] == 'exc' and isinstance(res[1], ValueError)
    if '\0' not in key:
        env.prove('refused exactly when the key points outside the root', refused == (not ins), (key, P, repr(res)))
    for ev, paths in AUDIT:
        for p in paths:
            p = os.path.abspath(os.fsdecode(p))
            if p.startswith(base) and p not in (src, base + '/p/dest'):
                env.prove('every path touched is inside the root', p == root or p.startswith(root + '/') or (ev == 'os.mkdir' and root.startswith(p)), (ev, p, key))
            elif ev != 'open':
                env.prove('nothing outside is changed', p in (src, base + '/p/dest'), (ev, p, key))
    env.prove('files outside the root are unchanged', tree(base, root) == before, key)
    if op == 'put' and res[0] == 'ok':
        env.prove('stored at the key', os.path.isfile(P))
        env.prove('readable back', be.get(key) == 42 and be.exists(key))
        be.delete(key)
        env.prove('deleted', not os.path.exists(P))


def tree(base, root):
    out = []
    for d, ds, fs in os.walk(base):
        if d == root or d.startswith(root + '/'):
            continue
        for f in fs:
            if d + '/' + f not in (base + '/p/src', base + '/p/dest'):
                out.append((d, f, os.path.getsize(d + '/' + f)))
        for x in ds:
            if d + '/' + x != base + '/p/dest':
                out.append((d, x))
    return sorted(out, key=repr)


def h_list(env):
    """list_keys names exactly the stored files, as keys that resolve to them."""
    base = env.scratch()
    root = base + '/w/store'
    be = FS(root)
    n = env.length('n', 0, 6)
    keys = {}
    for i in range(n):
        k = '/'.join(env.choice(f'p{i}.{j}', ['a', 'b', 'c', 'dd']) for j in range(env.choice(f'd{i}', [1, 2, 3]))) + f'.{i}'
        be.put(k, i)
        keys[k] = i
    os.makedirs(base + '/w/store-x')
    open(base + '/w/store-x/out', 'w').write('x')
    got = be.list_keys()
    env.prove('exactly the stored keys', sorted(got) == sorted(keys))
    for k in got:
        env.prove('each resolves to its value', be.get(k) == keys[k])


OPS = ['put', 'get', 'delete', 'exists']


def harnesses():
    hs = [H(op, op_harness(op), conc=0, functions=[f'FileSystemBackend.{op}', 'FileSystemBackend._resolve_key', 'FileSystemBackend.__init__'], timeout_ms=20000)
          for op in OPS]
    hs += [H('upload', h_upload, conc=0, functions=['FileSystemBackend.upload'], timeout_ms=20000),
           H('download', h_download, conc=0, functions=['FileSystemBackend.download'], timeout_ms=20000),
           H('real-fs', h_real, sym=False, conc=4000, conc_s=8, functions=['FileSystemBackend.*']),
           H('list-keys', h_list, sym=False, conc=200, functions=['FileSystemBackend.list_keys'])]
    return hs
