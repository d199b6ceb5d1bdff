"""C02  The object store is a faithful map from URI to value."""
import os, types, uuid
from pyvc.worker import H
from pyvc import core, models as M
from specs import C01 as P

INSTRUMENT = ['mplang.runtime.object_store', 'mplang.backends.store_impl']
ASSUMPTIONS = ['keys of the file store that name the same normalized path are the same key; no stored key is a directory of another',
               'uuid4 never repeats and never equals an identifier chosen by a user', 'one operation at a time']
TRUSTED = P.TRUSTED + ['pickle.load returns what pickle.dump wrote']

import mplang.runtime.object_store as OS
import mplang.backends.store_impl as SI
V = core.Sort('Value')


class MapBackend(OS.StoreBackend):
    """A persistent backend that satisfies the StoreBackend contract: a map from keys to values."""
    _vf_ok = True
    scheme = 'fs'

    def __init__(self, data): self._m = data
    def put(self, key, value): self._m[key] = value

    def get(self, key):
        if key not in self._m:
            raise KeyError('absent')
        return self._m[key]

    def delete(self, key): self._m.pop(key, None)
    def exists(self, key): return key in self._m
    def list_keys(self): return list(self._m.keys())
    def download(self, key, dest): self.dl = (key, dest)
    def upload(self, source, key): self.ul = (source, key)


KEYS = ['a', 'b', 'a/b', '', 'x://y', '://', 'mem', 'mem:', 'fs:/a', 'é']
conc_v = lambda r: f'v{r.randrange(100)}'


def uri(env, n, key):
    """A full URI (store, key) in one of its spellings."""
    s = env.choice(n + '.scheme', ['mem', 'fs'])
    return s, s + '://' + key


def setup(env, persistent=True):
    pm = env.str_map('pers', V, KEYS, conc_v)
    st = OS.ObjectStore(MapBackend(pm) if persistent else None)
    env.bind(st, '_transient')
    env.bind(st._transient, '_data')
    tm = env.str_map('mem', V, KEYS, conc_v)
    st._transient._data = tm
    return st, {'fs': pm, 'mem': tm}


def lookup(env, st, u):
    """What the store says about u: (exists, outcome of get)."""
    return env.run(st.exists, u), env.run(st.get, u)


def same_outcome(env, a, b):
    (e1, g1), (e2, g2) = a, b
    if e1[0] != e2[0] or g1[0] != g2[0]:
        return False
    r = True
    if e1[0] == 'ok':
        r = env.and_(r, env.iff(e1[1], e2[1]))
    if g1[0] == 'ok':
        r = env.and_(r, env.eq(g1[1], g2[1]))
    else:
        r = env.and_(r, type(g1[1]) is type(g2[1]))
    return r


def key(env, n):
    return env.str(n, conc=lambda r: r.choice(KEYS))


def h_get(env):
    """get/exists answer from exactly the addressed store and key; absent is an error; nothing changes."""
    st, maps = setup(env)
    k = key(env, 'k')
    s, u = uri(env, 'u', k)
    present = env.contains(maps[s], k)
    r = env.run(st.get, u)
    if r[0] == 'ok':
        env.prove('a value is only returned for a stored URI', present)
        env.prove('the stored value', env.eq(r[1], env.run(lambda: maps[s][k])[1]))
    else:
        env.prove('an error only for an absent URI', env.not_(present))
        env.prove('reported as a key error', isinstance(r[1], KeyError))
    e = env.run(st.exists, u)
    env.prove('exists answers', e[0] == 'ok')
    env.prove('exists iff stored', env.iff(e[1], present))
    env.cover(r[0])


def h_write(env, op):
    """put/delete change exactly the addressed URI; every other URI of either store is untouched."""
    st, maps = setup(env)
    k, k2 = key(env, 'k'), key(env, 'k2')
    s, u = uri(env, 'u', k)
    s2, u2 = uri(env, 'u2', k2)
    before = lookup(env, st, u2)
    v = env.opaque('v', V, conc=conc_v)
    hit = None
    if op == 'put':
        r = env.run(st.put, v, u)
        env.prove('returns the URI', r[0] == 'ok' and env.eq(r[1], u))
        hit = (s, k)
    elif op == 'put_bare':
        env.assume(env.not_(env.contains(k, '://')))
        r = env.run(st.put, v, k)
        env.prove('text without a scheme names the persistent store', env.and_(r[0] == 'ok', env.eq(r[1], 'fs://' + k)))
        s, u = 'fs', 'fs://' + k
        hit = ('fs', k)
    elif op == 'delete':
        r = env.run(st.delete, u)
        env.prove('delete succeeds', r[0] == 'ok')
        hit = (s, k)
    elif op == 'put_new':
        if env.sym:
            import z3
            U = core.SStr(z3.String('uuid_hex'))
            core.ENG.assume(core.Not(env.contains(maps['mem'], U)))
            M.MODELS[uuid.uuid4] = lambda: types.SimpleNamespace(hex=U)
        r = env.run(st.put, v)
        env.prove('succeeds', r[0] == 'ok')
        u = r[1]
        env.prove('a transient URI', env.run(u.startswith, 'mem://')[1])
        if env.sym:
            env.prove('an identifier not in use', env.or_(env.not_(env.eq(u2, u)), before[1][0] == 'exc'))
            env.assume(env.not_(env.eq(u2, u)))
        hit = ('new', None)
    elif op == 'resolve':
        r = env.run(st.resolve_uri, k)
        if env.contains(k, '://'):
            env.prove('full URIs unchanged', env.and_(r[0] == 'ok', env.eq(r[1], k)))
        else:
            env.prove('bare text names the persistent store', env.and_(r[0] == 'ok', env.eq(r[1], 'fs://' + k)))
    else:
        env.run(getattr(st, op), u)
    after = lookup(env, st, u2)
    if hit is None:
        env.prove('reading changes nothing', same_outcome(env, before, after))
    elif hit[0] == 'new':
        env.prove('other URIs unchanged', same_outcome(env, before, after))
        now = lookup(env, st, u)
        env.prove('stored', now[0] == ('ok', True) or env.and_(now[0][1], True))
        env.prove('stored value is returned', now[1][0] == 'ok' and env.eq(now[1][1], v))
    else:
        other = env.or_(s2 != hit[0], env.not_(env.eq(k2, hit[1])))
        env.prove('other URIs unchanged', env.implies(other, same_outcome(env, before, after)))
        now = lookup(env, st, u)
        if op == 'delete':
            env.prove('deleted', env.and_(now[0][0] == 'ok', env.not_(now[0][1]), now[1][0] == 'exc'))
        else:
            env.prove('stored', env.and_(now[0][0] == 'ok', now[0][1]))
            env.prove('stored value is returned', now[1][0] == 'ok' and env.eq(now[1][1], v))
    env.cover(op)


def h_bad(env):
    """Unknown schemes and missing schemes are refused by get/exists/delete; bare put without a persistent store is refused."""
    st, maps = setup(env, persistent=env.choice('persistent', [True, False]))
    u = key(env, 'u')
    op = env.choice('op', ['get', 'exists', 'delete', 'put'])
    known = ['mem'] + (['fs'] if st.persistent is not None else [])
    env.assume(env.not_(env.or_(*[env.run(u.startswith, s + '://')[1] for s in known])))
    k2 = key(env, 'k2')
    s2 = env.choice('s2', known)
    before = lookup(env, st, s2 + '://' + k2)
    if op == 'put':
        if st.persistent is not None:
            env.assume(env.contains(u, '://'))
        r = env.run(st.put, env.opaque('v', V, conc=conc_v), u)
    else:
        r = env.run(getattr(st, op), u)
    env.prove('refused', r[0] == 'exc' and isinstance(r[1], (ValueError, RuntimeError)))
    env.prove('nothing changes', same_outcome(env, before, lookup(env, st, s2 + '://' + k2)))


def h_saveload(env):
    """The save and load operations use the store: load after save returns the value; save returns its operand."""
    st, maps = setup(env)
    k = key(env, 'k')
    u = k if env.choice('bare', [0, 1]) else uri(env, 'u', k)[1]
    if u is k:
        env.assume(env.not_(env.contains(k, '://')))
    v = env.opaque('v', V, conc=conc_v)
    ip = types.SimpleNamespace(store=st)
    op = types.SimpleNamespace(attrs={'uri_base': u})
    r = env.run(SI.save_impl, ip, op, v)
    env.prove('save passes its operand on', r[0] == 'ok' and env.eq(r[1], v))
    r = env.run(SI.load_impl, ip, op)
    env.prove('load returns what was saved', r[0] == 'ok' and env.eq(r[1], v))
    r2 = env.run(SI.load_impl, types.SimpleNamespace(store=None), op)
    env.prove('no store is an error', r2[0] == 'exc')


# ------------------------------------------------------------------ the file backend is such a map
class Files:
    """Trusted model of the files below the root: path -> value."""

    def __init__(self, env, root):
        self.data = env.str_map('files', V)
        self.os = P.FakeOS(env, root)
        fp = self.os.path
        fp.exists = fp.lexists = fp.isfile = lambda p: env.contains(self.data, p)
        fp.isdir = fp.islink = lambda p: False

        def rm(p):
            if not env.contains(self.data, p):
                raise FileNotFoundError()
            self.data.pop(p)
        self.os.remove = self.os.unlink = rm

        def mv(a, b):
            self.data[b] = self.data[a]
            self.data.pop(a)
        self.os.replace = self.os.rename = self.os.move = mv

    def open(self, p, mode='r', *a, **k):
        h = P.Handle()
        h.path = p
        if 'w' in mode:
            self.data[p] = 'truncated'
        elif not bool(p in self.data):
            raise FileNotFoundError()
        return h

    def dump(self, v, f, *a, **k): self.data[f.path] = v
    def load(self, f): return self.data[f.path]


def h_fs(env):
    """FileSystemBackend: get returns the last value put under the key; another key's file is never affected."""
    root_arg = env.str('root')
    fs = Files(env, None)
    R = fs.os.path.abspath(root_arg)
    fs.os.path.root = R
    for n, x in (('os', fs.os), ('shutil', fs.os), ('open', fs.open)):
        env.patch(OS, n, x)
    env.patch(OS, 'pickle', types.SimpleNamespace(dump=fs.dump, load=fs.load, HIGHEST_PROTOCOL=5, DEFAULT_PROTOCOL=4))
    be = OS.FileSystemBackend(root_arg)
    k, k2 = env.str('k'), env.str('k2')
    p, p2 = P.resolved(fs.os, R, k), P.resolved(fs.os, R, k2)
    env.assume(env.and_(P.inside(p, R), P.inside(p2, R)))
    before = (env.run(be.exists, k2), env.run(be.get, k2))
    v = env.opaque('v', V)
    op = env.choice('op', ['put', 'delete', 'get', 'exists'])
    r = env.run(be.put, k, v) if op == 'put' else env.run(getattr(be, op), k)
    after = (env.run(be.exists, k2), env.run(be.get, k2))
    if op in ('get', 'exists'):
        env.prove('reading changes nothing', same_outcome(env, before, after))
        return
    env.prove('succeeds', r[0] == 'ok')
    env.prove('other files unchanged', env.implies(env.not_(env.eq(p, p2)), same_outcome(env, before, after)))
    now = (env.run(be.exists, k), env.run(be.get, k))
    if op == 'put':
        env.prove('stored', env.and_(now[0][0] == 'ok', now[0][1]))
        env.prove('value returned', now[1][0] == 'ok' and env.eq(now[1][1], v))
        alias = env.and_(after[0][0] == 'ok', after[0][1], after[1][0] == 'ok', env.eq(after[1][1], v) if after[1][0] == 'ok' else False)
        env.prove('another key of the same file yields the stored value', env.implies(env.eq(p, p2), alias))
    else:
        env.prove('gone', env.and_(now[0][0] == 'ok', env.not_(now[0][1])))
        env.prove('reading it is a key error', now[1][0] == 'exc' and isinstance(now[1][1], KeyError))
        gone = env.and_(after[0][0] == 'ok', env.not_(after[0][1]), after[1][0] == 'exc' and isinstance(after[1][1], KeyError))
        env.prove('another key of the same file is gone too', env.implies(env.eq(p, p2), gone))


# ------------------------------------------------------------------ histories on the real thing
VALS = [None, 0, False, '', 'x', b'\x00', 3.5, [1, [2]], {'a': None}, (1, 2)]


def h_history(env):
    """Random histories against a reference dictionary, in memory and on real files."""
    base = env.scratch()
    st = OS.ObjectStore(OS.FileSystemBackend(base + '/root'))
    ref = {}
    n = env.length('n', 0, 12)
    pool = ['mem://a', 'mem://b', 'mem://', 'fs://f', 'fs://d/e', 'fs://g', 'mem://a/b', 'mem://x://y', 'fs://mem', 'fs://d/mem:']
    for i in range(n):
        op = env.choice(f'op{i}', ['put', 'put', 'put_bare', 'new', 'delete', 'get', 'list'])
        u = env.choice(f'u{i}', pool) if not (ref and env.choice(f'old{i}', [0, 1])) else sorted(ref)[env.int(f'w{i}', 0, len(ref) - 1)]
        v = env.choice(f'v{i}', VALS)
        if op == 'put':
            env.prove('uri', st.put(v, u) == u); ref[u] = v
        elif op == 'put_bare':
            b = env.choice(f'b{i}', ['f', 'd/e', 'q', 'mem', 'h/i'])
            env.prove('uri', st.put(v, b) == 'fs://' + b); ref['fs://' + b] = v
        elif op == 'new':
            nu = st.put(v)
            env.prove('new identifier', nu not in ref and nu.startswith('mem://')); ref[nu] = v
        elif op == 'delete':
            st.delete(u); ref.pop(u, None)
        elif op == 'list':
            env.prove('list_keys', sorted(st.list_keys()) == sorted(ref))
        for w in set(pool) | set(ref):
            env.prove('exists', st.exists(w) == (w in ref), (w, i))
            r = env.run(st.get, w)
            if w in ref:
                env.prove('value', r[0] == 'ok' and r[1] == ref[w] and type(r[1]) is type(ref[w]), (w, i))
            else:
                env.prove('absent is an error', r[0] == 'exc' and isinstance(r[1], KeyError), (w, i))


def h_aliases(env):
    """Random histories in which one file is named by several spellings of its key."""
    base = env.scratch()
    st = OS.ObjectStore(OS.FileSystemBackend(base + '/root'))
    ref = {}
    pool = {'fs://d/e': 'd/e', 'fs:///d/e': 'd/e', 'fs://d//e': 'd/e', 'fs://./d/e': 'd/e', 'fs://d/x/../e': 'd/e', 'fs://f': 'f', 'fs:///f': 'f', 'fs://./f': 'f', 'fs://q/../f': 'f', 'fs://F': 'F'}
    us = sorted(pool)
    n = env.length('n', 0, 12)
    for i in range(n):
        op = env.choice(f'op{i}', ['put', 'put', 'delete', 'get', 'bare'])
        u = env.choice(f'u{i}', us)
        v = env.choice(f'v{i}', VALS)
        if op == 'put':
            env.prove('uri', st.put(v, u) == u); ref[pool[u]] = v
        elif op == 'bare':
            st.put(v, u[5:]); ref[pool[u]] = v
        elif op == 'delete':
            st.delete(u); ref.pop(pool[u], None)
        for w in ([u] if env.choice(f's{i}', [0, 1]) else us):
            env.prove('exists', st.exists(w) == (pool[w] in ref), (w, i))
            r = env.run(st.get, w)
            if pool[w] in ref:
                env.prove('value', r[0] == 'ok' and r[1] == ref[pool[w]] and type(r[1]) is type(ref[pool[w]]), (w, i))
            else:
                env.prove('absent is an error', r[0] == 'exc' and isinstance(r[1], KeyError), (w, i))


def harnesses():
    S = ['ObjectStore.' + m for m in ('__init__', 'put', 'get', 'delete', 'exists', '_parse_uri', 'resolve_uri')] + ['MemoryBackend.*']
    return [H('get', h_get, functions=S), *[H('write-' + op, (lambda env, op=op: h_write(env, op)), functions=S, conc_s=2, timeout_ms=20000, what=h_write.__doc__) for op in ('put', 'put_bare', 'delete', 'put_new', 'get', 'exists', 'resolve')], H('bad', h_bad, functions=S),
            H('save-load', h_saveload, functions=['save_impl', 'load_impl']),
            H('file-backend', h_fs, conc=0, functions=['FileSystemBackend.put/get/delete/exists'], timeout_ms=20000),
            H('history', h_history, sym=False, conc=600, conc_s=8, functions=S + ['FileSystemBackend.*', 'list_keys']),
            H('aliases', h_aliases, sym=False, conc=600, conc_s=8, functions=['FileSystemBackend.*'])]
