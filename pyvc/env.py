"""Harness environment: one specification, run symbolically or on concrete inputs.

mode 'sym'  : inputs are proxies, obligations go to the solver (unbounded unless bound is set)
mode 'conc' : inputs are concrete (random or preset), obligations are evaluated
"""
from __future__ import annotations
import random, string, sys, time, traceback
import z3
from . import core, containers as C, models as M
from .core import (Engine, Sym, SBool, SInt, SStr, SVal, Sort, Unsupported, Kill, Control, And, Or, Not, Implies, Iff, mkbool, bterm, iterm, sym_eq)
from .containers import VList, VTuple, VDict, VSet, sym_seq, seq_len, seq_get, forall_term


class Refuted(Exception):
    pass


class Skip(Exception):
    pass


class Tok:
    """A concrete opaque value; compared by identity unless equal ids."""
    _n = 0

    def __init__(self, sort, i, attrs=None):
        self.sort, self.i = sort, i
        self.__dict__.update(attrs or {})

    def __eq__(self, o): return isinstance(o, Tok) and (self.sort, self.i) == (o.sort, o.i)
    def __hash__(self): return hash((self.sort, self.i))
    def __repr__(self): return f'{self.sort}#{self.i}'


def stands_in(t):
    return getattr(t, '_vf_ok', False) is True and t.__module__.split('.')[0] in ('pyvc', 'specs', '__main__') or getattr(t, '_vf_standin', False)


def lacking(e):
    """The code used an operation that a stand-in of a specification does not have: that says nothing about the code, so it is undecided."""
    import re
    msg = e.args[0] if e.args and type(e.args[0]) is str else ''
    if isinstance(e, AttributeError):
        o = getattr(e, 'obj', None)
        t = o if isinstance(o, type) else type(o)
        if stands_in(t):
            raise Unsupported(f'{t.__name__}.{getattr(e, "name", "?")}: no contract')
    elif isinstance(e, (TypeError, ValueError)) and re.search(r"<(specs|pyvc)\.", msg):
        raise Unsupported(f'{msg}: no contract')
    elif isinstance(e, TypeError) and re.search(r"unsupported operand|not supported between|bad operand|object is not|has no len|does not support|cannot unpack", msg):
        names = set(re.findall(r"'(\w+)'", msg)) | set(re.findall(r"non-iterable (\w+)", msg))
        seen, todo = set(), [object]
        while todo:
            c = todo.pop()
            for d in type.__subclasses__(c):
                if d not in seen:
                    seen.add(d)
                    todo.append(d)
                    if d.__name__ in names and stands_in(d):
                        raise Unsupported(f'{msg}: no contract')


class Env:
    def __init__(self, mode, bound=None, rng=None, preset=None, size=3):
        self.mode = mode
        self.sym = mode == 'sym'
        self.bound = bound
        self.rng = rng
        self.preset = preset or {}
        self.inputs = {}          # name -> proxy or concrete
        self.choices = {}
        self.size = size
        self.covered = set()
        self.obs = []
        self.n_obl = 0

    # -- inputs
    def _conc(self, name, gen):
        v = self.preset[name] if name in self.preset else gen()
        self.inputs[name] = v
        return v

    def int(self, name, lo=None, hi=None, conc=None):
        if self.sym:
            v = SInt(z3.Int(name))
            if lo is not None: core.ENG.assume(v >= lo)
            if hi is not None: core.ENG.assume(v <= hi)
            self.inputs[name] = v
            return v

        def gen():
            if conc is not None:
                return conc(self.rng)
            a = lo if lo is not None else -8
            b = hi if hi is not None else (a + 16)
            if b - a > 1 << 20 and self.rng.random() < .7:
                return self.rng.choice([a, b, a + self.rng.randrange(16), b - self.rng.randrange(16)])
            return self.rng.randint(a, b)
        return self._conc(name, gen)

    def bool(self, name):
        if self.sym:
            v = SBool(z3.Bool(name))
            self.inputs[name] = v
            return v
        return self._conc(name, lambda: self.rng.random() < .5)

    def str(self, name, conc=None):
        if self.sym:
            v = SStr(z3.String(name))
            self.inputs[name] = v
            return v

        def gen():
            if conc is not None:
                return conc(self.rng)
            n = self.rng.choice([0, 1, 1, 2, 3, 6])
            return ''.join(self.rng.choice('ab/.:-_0 é') for _ in range(n))
        return self._conc(name, gen)

    def opaque(self, name, sort, conc=None):
        if self.sym:
            v = sort.const(name)
            self.inputs[name] = v
            return v
        return self._conc(name, lambda: conc(self.rng) if conc else Tok(sort.name, self.rng.randrange(6)))

    def bytes(self, name, conc=None):
        if self.sym:
            from .sbytes import SBytes
            v = SBytes.blob(name)
            self.inputs[name] = v
            return v
        return self._conc(name, lambda: conc(self.rng) if conc else bytes(self.rng.randrange(256) for _ in range(self.rng.choice([0, 1, 2, 5, 40]))))

    def choice(self, name, options):
        """Explored exhaustively in sym mode."""
        if self.sym:
            i = core.ENG.choose(len(options))
            self.choices[name] = i
            self.inputs[name] = i
            return options[i]
        i = self.preset[name] if name in self.preset else self.rng.randrange(len(options))
        self.inputs[name] = i
        return options[i]

    def length(self, name, lo=0, hi=None):
        if self.sym:
            if self.bound is not None:
                opts = list(range(lo, min(hi, self.bound) + 1 if hi is not None else self.bound + 1))
                i = core.ENG.choose(len(opts))
                self.inputs[name] = opts[i]
                return opts[i]
            n = SInt(z3.Int(name))
            core.ENG.assume(n >= lo)
            if hi is not None:
                core.ENG.assume(n <= hi)
            self.inputs[name] = n
            return n
        h = hi if hi is not None else lo + self.size
        return self._conc(name, lambda: self.rng.randint(lo, h))

    def seq(self, name, elem, n=None, lo=0, hi=None, kind='list'):
        """Sequence of n (arbitrary) elements elem(k).  elem receives an index (proxy or int)."""
        if n is None:
            n = self.length(name + '.len', lo, hi)
        if isinstance(n, int):
            xs = [elem(i) for i in range(n)]
            if not self.sym:
                return xs if kind == 'list' else tuple(xs)
            return VList(xs) if kind == 'list' else tuple(xs)
        return sym_seq(n, elem, kind)

    def fn(self, name, kinds, out, conc=None):
        """An arbitrary function (uninterpreted / random table)."""
        if self.sym:
            f = z3.Function(name, *[core.zsort(k) for k in kinds], core.zsort(out))
            self.inputs.setdefault(name, ('fn', f, kinds, out))
            return lambda *a: core.wrap(f(*[core.unwrap(x, k if isinstance(k, Sort) else None) for x, k in zip(a, kinds)]), out)
        table = {}

        def g(*a):
            key = f'{name}{a!r}'
            if key not in table:
                if key in self.preset:
                    table[key] = self.preset[key]
                elif conc is not None:
                    table[key] = conc(self.rng, *a)
                elif out in ('int', int):
                    table[key] = self.rng.randint(-4, 8)
                elif out in ('bool', bool):
                    table[key] = self.rng.random() < .5
                elif out in ('str', str):
                    table[key] = ''.join(self.rng.choice('ab/:.') for _ in range(self.rng.randint(0, 3)))
                else:
                    table[key] = Tok(out.name, self.rng.randrange(6))
                self.inputs[key] = table[key]
            return table[key]
        return g

    def int_seq(self, name, n=None, lo=None, hi=None, nlo=0, nhi=None, kind='list', conc=None):
        if n is None:
            n = self.length(name + '.len', nlo, nhi)
        f = self.fn(name, ['int'], 'int', conc=(lambda r, i: conc(r)) if conc else (lambda r, i: r.randint(lo if lo is not None else -4, hi if hi is not None else 8)))
        if self.sym:
            q = z3.Int(name + 'q')
            zf = z3.Function(name, z3.IntSort(), z3.IntSort())
            cs = ([zf(q) >= lo] if lo is not None else []) + ([zf(q) <= hi] if hi is not None else [])
            if cs:
                core.ENG.assume(z3.ForAll([q], z3.And(*cs), patterns=[zf(q)]))
        return self.seq(name, lambda k: f(k), n=n, kind=kind)

    # -- logic
    def assume(self, c):
        if self.sym:
            core.ENG.assume(bterm(c))
            return
        if not c:
            raise Skip()

    def prove(self, label, c, info=None):
        self.n_obl += 1
        if self.sym:
            return core.ENG.prove(label, c, info)
        if not bool(c):
            raise Refuted(f'{label}: {info}' if info is not None else label)
        return True

    def fail(self, label, info=None):
        return self.prove(label, False, info)

    def cover(self, label):
        if self.sym and label not in self.covered:
            if core.ENG.feasible():
                self.covered.add(label)
        else:
            self.covered.add(label)

    def each(self, name, n, lo=0):
        """Arbitrary index in [lo,n): one fresh index symbolically, all of them concretely."""
        if self.sym and not isinstance(n, int):
            k = C.fresh_int(name)
            core.ENG.assume(And(k >= lo, k < n))
            if core.ENG.feasible():
                yield k
            return
        for i in range(lo, n):
            yield i

    def eq(self, a, b):
        return sym_eq(a, b) if self.sym else (a == b)

    def unfold(self, k):
        """instantiate the recurrences of the loop-carried locals at iteration k"""
        if self.sym:
            for r in core.ENG.recs:
                r.unfold(k)

    def len(self, x):
        return M.m_len(x) if self.sym else len(x)

    def get(self, x, i):
        from . import rt
        return rt.getitem(x, i) if self.sym else x[i]

    def prove_seq(self, label, got, n, elem):
        """len(got)==n and got[k]==elem(k) for every k."""
        if not isinstance(got, (list, tuple)):
            return self.fail(label, f'not a sequence: {got!r}')
        self.prove(label + ': length', self.eq(self.len(got), n), (got,))
        for k in self.each('k', n):
            self.prove(label + ': element', self.eq(self.get(got, k), elem(k)), (k, got))

    def run(self, fn, *a, **k):
        """('ok', value) or ('exc', exception); engine control passes through."""
        try:
            if self.sym:
                return ('ok', M.call(fn, a, k))
            return ('ok', fn(*a, **k))
        except Control:
            raise
        except (Refuted, Skip):
            raise
        except Exception as e:
            if isinstance(e, (RecursionError, MemoryError)):
                raise
            if self.sym:
                lacking(e)
            return ('exc', e)

    def and_(self, *xs):
        return And(*xs) if self.sym else all(xs)

    def or_(self, *xs):
        return Or(*xs) if self.sym else any(xs)

    def not_(self, x):
        return Not(x) if self.sym else (not x)

    def implies(self, a, b):
        return Implies(a, b) if self.sym else ((not a) or b)

    def iff(self, a, b):
        return Iff(a, b) if self.sym else (bool(a) == bool(b))

    def forall(self, n, pred, lo=0):
        if self.sym and not isinstance(n, int):
            return mkbool(forall_term(n, pred))
        if self.sym:
            return And(*[pred(i) for i in range(lo, n)])
        return all(pred(i) for i in range(lo, n))

    def exists(self, n, pred):
        if self.sym and not isinstance(n, int):
            return mkbool(C.exists_term(n, pred))
        if self.sym:
            return Or(*[pred(i) for i in range(n)])
        return any(pred(i) for i in range(n))

    def contains(self, c, x):
        from . import rt
        return rt.contains(c, x) if self.sym else (x in c)

    def bind(self, obj, *names):
        """The representation this contract is written over; if it changed, the contract does not apply (undecided, not violated)."""
        self.rep = True
        for n in names:
            if not hasattr(obj, n):
                raise Unsupported(f'{type(obj).__name__}.{n} no longer exists: representation contract not applicable')
        return getattr(obj, names[-1])

    def int_map(self, name, keys, default=False, lo=0, conc=None):
        """Arbitrary dict int -> int (>= lo); `keys` are the keys used in concrete mode."""
        if self.sym:
            has = z3.Function(name + '.has', z3.IntSort(), z3.BoolSort())
            val = z3.Function(name + '.val', z3.IntSort(), z3.IntSort())
            q = z3.Int(name + '.q')
            core.ENG.assume(z3.ForAll([q], val(q) >= lo, patterns=[val(q)]))
            d = C.VDefaultDict(int) if default else VDict()
            d._sym = C.SymBase(lambda k: mkbool(has(iterm(k))), lambda k: core.mkint(val(iterm(k))))
            self.inputs[name] = ('map', has, val, list(keys))
            return d
        import collections
        d = collections.defaultdict(int) if default else {}
        pre = self.preset.get(name)
        if pre is not None:
            d.update({int(k): v for k, v in pre.items()} if isinstance(pre, dict) else pre)
        else:
            for k in keys:
                if self.rng.random() < .6:
                    d[k] = conc(self.rng) if conc else self.rng.randint(lo, lo + 3)
        self.inputs[name] = dict(d)
        return d

    def str_map(self, name, out, keys=(), conc=None):
        """Arbitrary dict str -> out."""
        if self.sym:
            has = z3.Function(name + '.has', z3.StringSort(), z3.BoolSort())
            val = z3.Function(name + '.val', z3.StringSort(), core.zsort(out))
            d = VDict()
            d._sym = C.SymBase(lambda k: mkbool(has(core.sterm(k))), lambda k: core.wrap(val(core.sterm(k)), out))
            return d
        d = {}
        for k in keys:
            if self.rng.random() < .6:
                d[k] = conc(self.rng)
        self.inputs[name] = dict(d)
        return d

    def patch(self, obj, name, value):
        """monkeypatch for the duration of the harness run"""
        old = getattr(obj, name, None)
        had = hasattr(obj, name)
        setattr(obj, name, value)
        self._undo.append((obj, name, old, had))

    rep = False        # the harness is written over a private representation

    def scratch(self):
        """Concrete mode: a fresh directory, owned by an unprivileged user this process becomes."""
        import os, tempfile, shutil
        if os.geteuid() == 0:
            base = tempfile.mkdtemp(prefix='vfs-')
            os.chmod(base, 0o711)
            os.chown(base, 65534, 65534)
            Env._base = base
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
            if os.geteuid() == 0:
                raise Unsupported('cannot become an unprivileged user')
        d = tempfile.mkdtemp(prefix='r-', dir=Env._base)
        self._scratch.append(d)
        return d

    _base = None
    _scratch = ()

    _undo = None

    def begin(self):
        self._undo = []
        self._scratch = []

    def end(self):
        for obj, name, old, had in reversed(self._undo or []):
            if had:
                setattr(obj, name, old)
            else:
                delattr(obj, name)
        self._undo = []
        if self._scratch:
            import shutil
            for d in self._scratch:
                shutil.rmtree(d, ignore_errors=True)
            self._scratch = []
        M.STUBS.clear()
        from . import loops
        loops.HANDLERS.clear()
        loops.WHILE_HANDLERS.clear()
        loops.CLOSED.clear()
        C.FILTERS.clear()
        loops.SYM_WHILE.clear()


def run_sym(h, bound=None, timeout_ms=10000, branch_ms=2000, budget=120, max_paths=4000, mbqi=True):
    """Explore harness h symbolically.  Returns a result dict."""
    e = Engine(timeout_ms, branch_ms, mbqi)
    e.bound = bound
    core.set_engine(e)
    t0 = time.time()
    e.deadline = t0 + budget
    o = core.Oracle()
    status = 'ok'
    why = None
    cex = None
    covered = set()
    where = None
    try:
        while True:
            o.restart()
            e.oracles = [o]
            e.solver = z3.Solver()
            e.pc = []
            e.lazy = []
            e.recs = []
            e.fresh_n = 0
            e.decisions_in_path = 0
            e.frames = []
            env = Env('sym', bound=bound)
            env.begin()
            n0 = len(e.obligations)
            try:
                h(env)
                covered.add('end')
            except Kill:
                pass
            except Unsupported as u:
                status, why = 'unsupported', str(u)
                where = traceback.format_exc()[-1800:]
                raise
            except (Refuted, Skip):
                raise
            except Exception as ex:
                # an unexpected exception of the verified code or the harness
                if env.rep and not isinstance(ex, AssertionError):
                    status, why = 'unsupported', f'representation contract not applicable? {type(ex).__name__}: {ex}'
                    where = traceback.format_exc()[-1800:]
                    raise Unsupported(why)
                if e.feasible():
                    tb = traceback.format_exc()
                    try:            # the path may be infeasible after all: branches are decided under a short time limit
                        e.prove('no unexpected exception', z3.BoolVal(False), f'{type(ex).__name__}: {ex}')
                    except Kill:
                        pass
                    if e.obligations[-1]['status'] != 'discharged':
                        e.obligations[-1]['tb'] = tb[-1500:]
            finally:
                env.end()
            covered |= env.covered
            e.paths += 1
            for ob in e.obligations[n0:]:
                if ob.get('model') is not None:
                    m = ob.pop('model')
                    if 'inputs' not in ob:
                        ob['inputs'] = concretize(env, m, bound)
            if any(ob['status'] == 'refuted' for ob in e.obligations[n0:]) and bound is not None:
                break   # bounded search: the first counterexample is enough
            if not o.next_path():
                break
            if e.paths > max_paths:
                status, why = 'unsupported', 'too many paths'
                break
    except Unsupported as u:
        status, why = 'unsupported', str(u)
        for ob in e.obligations:
            ob.pop('model', None)
    except z3.Z3Exception as z:
        status, why = 'unsupported', f'z3: {z}'
    return dict(status=status, why=why, obligations=e.obligations, paths=e.paths, checks=e.n_checks,
                solver_s=round(e.solver_time, 3), wall_s=round(time.time() - t0, 3), notes=sorted(e.notes), covered=sorted(covered), bound=bound, where=where)


def model_or_none(e):
    try:
        return e.solver.model()
    except Exception:
        return None


def concretize(env, m, bound):
    """Input name -> concrete value under model m."""
    out = {}
    uni = {}

    def cv(v):
        if v is None or isinstance(v, (int, str, bytes, bool)):
            return v
        if isinstance(v, SInt):
            r = m.eval(v.t, model_completion=True)
            return r.as_long()
        if isinstance(v, SBool):
            return z3.is_true(m.eval(v.t, model_completion=True))
        if isinstance(v, SStr):
            return core.zstr(m.eval(v.t, model_completion=True))
        if isinstance(v, SVal):
            r = str(m.eval(v.t, model_completion=True))
            k = (v.sort.name, r)
            uni.setdefault(k, len(uni))
            return {'__tok__': [v.sort.name, uni[k]]}
        from .sbytes import SBytes
        if isinstance(v, SBytes):
            n = m.eval(iterm(v.vf_len()), model_completion=True).as_long()
            k = ('bytes', str(v.parts))
            uni.setdefault(k, len(uni))
            return {'__bytes__': [n, uni[k]]}
        if isinstance(v, tuple) and v and v[0] == 'fn':
            return None
        return None
    try:
        for nme, v in env.inputs.items():
            if isinstance(v, tuple) and v and v[0] == 'map':
                out[nme] = {str(k): m.eval(v[2](z3.IntVal(k)), model_completion=True).as_long() for k in v[3]
                            if z3.is_true(m.eval(v[1](z3.IntVal(k)), model_completion=True))}
                continue
            if isinstance(v, tuple) and v and v[0] == 'fn':
                _, f, kinds, outk = v
                if all(k in ('int', int) for k in kinds):
                    rng = range(0, 8)
                    import itertools
                    for a in itertools.product(*[rng for _ in kinds]):
                        r = cv(core.wrap(f(*[z3.IntVal(x) for x in a]), outk))
                        out[f'{nme}{tuple(a)!r}'] = r
                continue
            r = cv(v)
            if r is not None:
                out[nme] = r
    except Exception as ex:
        out['__error__'] = str(ex)
    return out


def decode_preset(p):
    out = {}
    for k, v in (p or {}).items():
        if isinstance(v, dict) and '__tok__' in v:
            out[k] = Tok(v['__tok__'][0], v['__tok__'][1])
        elif isinstance(v, dict) and '__bytes__' in v:
            n, i = v['__bytes__']
            out[k] = bytes((i * 37 + j * 11 + 1) % 256 for j in range(min(n, 1 << 16)))
        else:
            out[k] = v
    return out


def run_conc(h, seed, preset=None, size=3):
    """One concrete execution.  Returns None when fine, else a failure record."""
    core.set_engine(None)
    rng = random.Random(seed)
    env = Env('conc', rng=rng, preset=decode_preset(preset), size=size)
    env.begin()
    try:
        h(env)
        return dict(ok=True, n=env.n_obl, inputs=env.inputs)
    except Skip:
        return dict(ok=True, skip=True, n=env.n_obl, inputs=env.inputs)
    except Refuted as r:
        return dict(ok=False, why=str(r), inputs={k: repr(v)[:300] for k, v in env.inputs.items()}, seed=seed, size=size, n=env.n_obl)
    except Control as c:
        return dict(ok=True, skip=True, n=0, inputs={}, note=f'{type(c).__name__}: {c}')
    except Exception as ex:
        if env.rep:
            return dict(ok=True, skip=True, n=0, inputs={}, note=f'{type(ex).__name__}: {ex}')
        return dict(ok=False, why=f'unexpected {type(ex).__name__}: {ex}', tb=traceback.format_exc()[-1500:],
                    inputs={k: repr(v)[:300] for k, v in env.inputs.items()}, seed=seed, size=size, n=env.n_obl)
    finally:
        env.end()
