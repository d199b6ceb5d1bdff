"""Models of builtins and library functions on symbolic arguments."""
from __future__ import annotations
import builtins, functools, itertools, collections, dataclasses, operator, sys, types, copy, typing
import z3
from . import core
from .core import (Control, Unsupported, Kill, Sym, SBool, SInt, SStr, SVal, And, Or, Not, Implies, mkbool, mkint, bterm, iterm,
                   has_sym, sym_eq, hashing, isnum, isstr)
from . import containers as C
from .containers import (SymRange, VList, VTuple, VDict, VSet, VDefaultDict, LazySeq, SymView, sym_seq, seq_len, seq_get, seq_parts,
                         seq_from_parts, materialize, is_symbolic_iterable, forall_term, exists_term, seq_reversed, part_get)


def E():
    return core.ENG


MODELS = {}       # callable -> model(args, kwargs)
GETITEM = {}      # type -> model
METHODS = {}      # (type, name) -> model(self, args, kwargs)
STUBS = {}        # verified function -> contract stub
TRANSPARENT = set()   # callables which may receive symbolic values natively


def model(*fs):
    def d(g):
        for f in fs:
            MODELS[f] = g
        return g
    return d


def verified_fn(f):
    g = getattr(f, '__globals__', None)
    if g is None and hasattr(f, '__func__'):
        g = getattr(f.__func__, '__globals__', None)
    return g is not None and ('__vf_instrumented__' in g or '__vf_harness__' in g or g.get('__name__', '').startswith(('pyvc.', 'specs.')))


def call(f, a, k):
    try:
        m = MODELS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*a, **k)
    if STUBS and not isinstance(f, (types.FunctionType, types.MethodType, Sym)):
        try:
            st = STUBS.get(f)
        except TypeError:
            st = None
        if st is not None:
            return st(*a, **k)
    if isinstance(f, types.FunctionType) or isinstance(f, types.MethodType):
        st = STUBS.get(getattr(f, '__func__', f))
        if st is not None:
            if isinstance(f, types.MethodType):
                return st(f.__self__, *a, **k)
            return st(*a, **k)
        if verified_fn(f):
            return f(*a, **k)
    if isinstance(f, (Sym,)):
        return f(*a, **k)
    if isinstance(f, type):
        mod = sys.modules.get(f.__module__)
        if getattr(f, '_vf_ok', False) or (mod is not None and getattr(mod, '__vf_instrumented__', False)):
            if dataclasses.is_dataclass(f):
                r = f(*a, **k)
                fix_dataclass(r)
                return r
            return f(*a, **k)
        if f.__module__.startswith('pyvc.') or f.__module__.startswith('specs'):
            return f(*a, **k)
        if issubclass(f, BaseException):
            return f(*[plain_msg(x) for x in a], **k)
    slf = getattr(f, '__self__', None)
    if isinstance(slf, BaseException) and getattr(f, '__name__', '') == '__init__':
        return f(*a, **k)
    if slf is not None and not isinstance(slf, types.ModuleType):
        nm = getattr(f, '__name__', '')
        if isinstance(f, (types.BuiltinMethodType, types.MethodType)):
            t = type(slf)
            if type(slf) in (str, bytes, list, tuple, dict, set, frozenset, int):
                mm = METHODS.get((t, nm))
                if mm is not None:
                    r = mm(slf, *a, **k)
                    if r is not NotImplemented:
                        return r
            if (isinstance(slf, (VList, VTuple, VDict, VSet, Sym)) or getattr(t, '_vf_sym', False) or getattr(t, '_vf_ok', False)):
                return f(*a, **k)
            if verified_cls(t):
                return f(*a, **k)
    if f in TRANSPARENT_SAFE(f):
        return f(*a, **k)
    if any(has_symc(x) for x in a) or any(has_symc(x) for x in k.values()):
        if getattr(f, '_vf_ok', False) or isinstance(f, functools.partial) and verified_fn(f.func):
            return f(*a, **k)
        raise Unsupported(f'call of {describe(f)} with symbolic arguments')
    # concrete arguments: run natively; containers become plain
    a = [plain(x) if type(x) in (VList, VDict, VSet, VTuple, VDefaultDict) else x for x in a] if not_own(f) else a
    r = f(*a, **k)
    if type(r) is list:
        return VList(r)
    return r


def not_own(f):
    mod = getattr(f, '__module__', None) or ''
    if mod.split('.')[0] in ('jax', 'jaxlib', 'numpy', 'pyarrow', 'pandas'):
        return True
    return isinstance(f, (types.BuiltinFunctionType,)) and mod in ('_json', 'json', '_struct', 'zlib', '_hashlib', 'binascii')


def TRANSPARENT_SAFE(f):
    try:
        return TRANSPARENT if f in TRANSPARENT else ()
    except TypeError:
        return ()


def verified_cls(t):
    return getattr(sys.modules.get(t.__module__), '__vf_instrumented__', False) or getattr(t, '_vf_ok', False)


def describe(f):
    return f'{getattr(f, "__module__", "")}.{getattr(f, "__qualname__", repr(f))}'


def has_symc(x):
    if isinstance(x, (VList, VTuple)) and x._parts is not None:
        return True
    if isinstance(x, VDict) and (x._sym is not None or x._symkeys):
        return True
    if isinstance(x, VSet) and (x._sym is not None or x._has_symel):
        return True
    return has_sym(x)


def plain_msg(x):
    return x


def plain(x):
    if isinstance(x, VList) and x._parts is None:
        return [plain(e) for e in list.__iter__(x)]
    if isinstance(x, VDict) and x._sym is None:
        with hashing():
            return {k: plain(v) for k, v in dict.items(x)}
    if isinstance(x, VSet) and x._sym is None:
        with hashing():
            return set(x._order)
    if isinstance(x, VTuple) and x._parts is None:
        return tuple(x)
    if type(x) is tuple:
        return tuple(plain(e) for e in x)
    return x


def fix_dataclass(o):
    """default factories (list/dict/set) run inside generated code: make them journaled."""
    d = getattr(o, '__dict__', None)
    if d is None:
        for c in type(o).__mro__:
            for s in getattr(c, '__slots__', ()) if not isinstance(getattr(c, '__slots__', ()), str) else ():
                v = getattr(o, s, None)
                w = _fixv(v)
                if w is not v:
                    object.__setattr__(o, s, w)
        return
    for k, v in list(d.items()):
        w = _fixv(v)
        if w is not v:
            d[k] = w
    if not hasattr(o, '_vf_stamp'):
        try:
            object.__setattr__(o, '_vf_stamp', E().new_stamp() if core.ENG else 0)
        except Exception:
            pass


def _fixv(v):
    if type(v) is list:
        return VList(v)
    if type(v) is dict:
        return VDict(v)
    if type(v) is set:
        return VSet(v)
    return v


_VT = {VList: list, VTuple: tuple, VDict: dict, VSet: set, VDefaultDict: collections.defaultdict, SBool: bool, SInt: int, SStr: str}


def real_type(t):
    return _VT.get(t, t)


# ---------------------------------------------------------------- builtins
@model(builtins.isinstance)
def m_isinstance(x, t):
    if isinstance(t, (tuple, types.UnionType)):
        ts = t if isinstance(t, tuple) else t.__args__
        for u in ts:
            r = m_isinstance(x, u)
            if r is True:
                return True
            if isinstance(r, SBool) and r:
                return True
        return False
    if isinstance(x, Sym):
        if t is object:
            return True
        if isinstance(x, SBool):
            return t in (bool, int) or _abc(t, True)
        if isinstance(x, SInt):
            return t is int or _abc(t, 1)
        if isinstance(x, SStr):
            return t is str or _abc(t, '')
        if isinstance(x, SVal):
            f = x.sort.methods.get('__isinstance__')
            if f is not None:
                return f(x, t)
            if isinstance(t, type):
                return any(issubclass(p, t) for p in x.sort.pytypes)
            return False
        f = getattr(x, 'vf_isinstance', None)
        if f is not None:
            return f(t)
        raise Unsupported(f'isinstance of {type(x).__name__}')
    if isinstance(x, LazySeq):
        return t in (types.GeneratorType, object)
    if isinstance(x, VSet) and x._frozen:
        return t in (frozenset, object) or _abc(t, frozenset())
    if isinstance(x, VDefaultDict) and t is collections.defaultdict:
        return True
    if t is frozenset and isinstance(x, VSet):
        return x._frozen
    try:
        return isinstance(x, t)
    except TypeError:
        raise


def _abc(t, sample):
    return isinstance(t, type) and isinstance(sample, t)


@model(builtins.len)
def m_len(x):
    f = getattr(x, 'vf_len', None)
    if f is not None and not isinstance(x, type):
        return f()
    if isinstance(x, SVal):
        m = x.sort.methods.get('__len__')
        if m:
            return m(x)
        raise Unsupported(f'len of an opaque {x.sort.name}')
    if isinstance(x, Sym):
        raise TypeError(f"object of type '{real_type(type(x)).__name__}' has no len()")
    f = getattr(type(x), '__len__', None)
    if f is not None and isinstance(f, types.FunctionType):
        return f(x)       # verified class: may return a symbolic integer
    return len(x)


@model(builtins.range)
def m_range(*a):
    if not any(isinstance(x, Sym) for x in a):
        return range(*a)
    if len(a) == 1:
        return SymRange(0, a[0])
    if len(a) == 2:
        return SymRange(a[0], a[1])
    return SymRange(*a)


@model(builtins.list)
def m_list(it=()):
    it = materialize(it)
    r = seq_from_parts(seq_parts(it), 'list')
    return r


@model(builtins.tuple)
def m_tuple(it=()):
    if type(it) is tuple:
        return it
    it = materialize(it)
    return seq_from_parts(seq_parts(it), 'tuple')


@model(builtins.set)
def m_set(it=()):
    if isinstance(it, VSet):
        return it.copy()
    return VSet(it)


@model(builtins.frozenset)
def m_frozenset(it=()):
    if not is_symbolic_iterable(it) and not has_symc(it):
        return frozenset(it)
    s = VSet(it)
    s._frozen = True
    return s


@model(builtins.dict)
def m_dict(*a, **k):
    if a and is_symbolic_iterable(a[0]) and not isinstance(a[0], VDict):
        return dict_from_pairs(materialize(a[0]))
    if a and isinstance(a[0], LazySeq):
        return dict_from_pairs(a[0].seq)
    return VDict(*a, **k)


def dict_from_pairs(seq):
    fl = C.flatten_concrete(seq)
    if fl is not None:
        d = VDict()
        for k, v in fl:
            d[k] = v
        return d
    # run the equivalent loop through the summariser
    from . import loops
    d = VDict()

    def body(x):
        from .rt import unpack
        k, v = unpack(x, 2)
        d[k] = v
    loops.sym_for(seq, body, lambda: {}, lambda s: None, 'dict(...)')
    return d


@model(collections.defaultdict)
def m_defaultdict(f=None, *a, **k):
    return VDefaultDict(f, *a, **k)


@model(collections.OrderedDict)
def m_odict(*a, **k):
    return VDict(*a, **k)


@model(builtins.enumerate)
def m_enumerate(it, start=0):
    if is_symbolic_iterable(it):
        s = materialize(it)
        off = [0]
        parts = []
        o = start
        for p in seq_parts(s):
            if p[0] == 'c':
                parts.append(('c', [(o + i, x) for i, x in enumerate(p[1])]))
                o = o + len(p[1])
            else:
                parts.append(('s', p[1], (lambda i, p=p, o=o: (o + i, part_get(p, i))), {}))
                o = o + p[1]
        return LazySeq(seq_from_parts(parts, 'list'))
    return enumerate(it, start)


@model(builtins.zip)
def m_zip(*its, strict=False):
    if any(is_symbolic_iterable(i) for i in its):
        ss = [materialize(i) for i in its]
        ns = [seq_len(s) for s in ss]
        n = ns[0]
        for m in ns[1:]:
            if strict:
                if not (n == m):
                    raise ValueError('zip() arguments have different lengths')
            else:
                if isinstance(n, Sym) or isinstance(m, Sym):
                    n = n if n is m or (isinstance(n, SInt) and isinstance(m, SInt) and n.t.eq(m.t)) else (n if n <= m else m)
                else:
                    n = min(n, m)
        if isinstance(n, int) and n <= 64:
            return iter([tuple(seq_get(s, i) for s in ss) for i in range(n)])
        return LazySeq(sym_seq(n, lambda i: tuple(seq_get(s, i) for s in ss)))
    return zip(*its, strict=strict)


@model(builtins.map)
def m_map(f, *its):
    if len(its) == 1 and is_symbolic_iterable(its[0]):
        from .rt import comp
        return comp('gen', its[0], lambda x: call(f, (x,), {}), None, False)
    if any(is_symbolic_iterable(i) for i in its):
        from .rt import comp
        return comp('gen', m_zip(*its), lambda x: call(f, tuple(x), {}), None, False)
    return iter([call(f, xs, {}) for xs in zip(*its)])


@model(builtins.filter)
def m_filter(f, it):
    from .rt import comp
    return comp('gen', it, lambda x: x, (lambda x: call(f, (x,), {})) if f else (lambda x: x), False)


@model(builtins.reversed)
def m_reversed(it):
    if is_symbolic_iterable(it):
        return LazySeq(seq_reversed(materialize(it)))
    return reversed(it)


@model(builtins.all)
def m_all(it):
    if is_symbolic_iterable(it):
        s = materialize(it)
        conds = []
        for p in seq_parts(s):
            if p[0] == 'c':
                conds += [truthy(x) for x in p[1]]
            else:
                conds.append(mkbool(forall_term(p[1], lambda k, p=p: truthy(part_get(p, k)))))
        return And(*conds)
    for x in it:
        if not x:
            return False
    return True


@model(builtins.any)
def m_any(it):
    if is_symbolic_iterable(it):
        s = materialize(it)
        conds = []
        for p in seq_parts(s):
            if p[0] == 'c':
                conds += [truthy(x) for x in p[1]]
            else:
                conds.append(mkbool(exists_term(p[1], lambda k, p=p: truthy(part_get(p, k)))))
        return Or(*conds)
    for x in it:
        if x:
            return True
    return False


def truthy(x):
    if isinstance(x, (bool, SBool)):
        return x
    if isinstance(x, Sym) and not isinstance(x, SVal):
        return mkbool(core.truth_term(x))
    return bool(x)


@model(builtins.sum)
def m_sum(it, start=0):
    if is_symbolic_iterable(it):
        raise Unsupported('sum of a symbolic sequence')
    acc = start
    for x in it:
        acc = acc + x
    return acc


def _minmax(which, a, key=None, default=C._MISS):
    if len(a) == 1:
        it = a[0]
        if is_symbolic_iterable(it):
            s = materialize(it)
            if key is not None:
                raise Unsupported('max with key')
            n = seq_len(s)
            if not (n > 0):
                if default is not C._MISS:
                    return default
                raise ValueError('max() arg is an empty sequence')
            m = C.fresh_int('mx')
            e = E()
            e.assume(mkbool(forall_term(n, lambda k: seq_get(s, k) <= m if which == 'max' else seq_get(s, k) >= m)))
            j = C.fresh_int('mxi')
            e.assume(And(j >= 0, j < n))
            e.assume(seq_get(s, j) == m)
            return m
        xs = list(it)
    else:
        xs = list(a)
    if not xs:
        if default is not C._MISS:
            return default
        raise ValueError(f'{which}() arg is an empty sequence')
    best = xs[0]
    kb = key(best) if key else best
    for x in xs[1:]:
        kx = key(x) if key else x
        if key is None and isnum(kx) and isnum(kb) and (isinstance(kx, Sym) or isinstance(kb, Sym)):
            c = kx > kb if which == 'max' else kx < kb
            best = kb = mkint(z3.If(bterm(c), iterm(kx), iterm(kb)))
            continue
        if (kx > kb) if which == 'max' else (kx < kb):
            best, kb = x, kx
    return best


@model(builtins.max)
def m_max(*a, key=None, default=C._MISS):
    return _minmax('max', a, key, default)


@model(builtins.min)
def m_min(*a, key=None, default=C._MISS):
    return _minmax('min', a, key, default)


@model(builtins.abs)
def m_abs(x):
    return abs(x)


@model(builtins.divmod)
def m_divmod(a, b):
    return (a // b, a % b)


@model(builtins.sorted)
def m_sorted(it, key=None, reverse=False):
    if key is None and not reverse:
        # sets of integers given by a predicate: the ascending sequence of the members
        if isinstance(it, VSet) and it._sym is not None and (it._sym.seq is None or pred_part(it._sym.seq)):
            return C.pred_seq('sorted', it._mem(), kind='list')
        d = it.d if isinstance(it, C.SymView) and it.kind == 'keys' else it
        if isinstance(d, VDict) and d._sym is not None and not d._symkeys and not dict.__len__(d) and d._sym.n is not None and isinstance(d._sym.key(0), SInt):
            return C.pred_seq('sorted', d._sym.has, kind='list', n=d._sym.n)
        if isinstance(it, (VList, VTuple)) and it._parts is not None and pred_part(it) and it._parts[0][3].get('asc'):
            return C.seq_from_parts(list(it._parts), 'list')
    if is_symbolic_iterable(it) and C.flatten_concrete(materialize(it)) is None:
        s = materialize(it)
        return sort_sym(s, key, reverse)
    xs = C.flatten_concrete(materialize(it)) if is_symbolic_iterable(it) else list(it)
    ks = [call(key, (x,), {}) if key else x for x in xs]
    if not any(has_sym(k) for k in ks):
        order = sorted(range(len(xs)), key=lambda i: ks[i], reverse=reverse)
        return VList([xs[i] for i in order])
    # insertion sort with forking comparisons (stable)
    out = []
    for x, k in zip(xs, ks):
        p = len(out)
        while p > 0:
            kk = out[p - 1][1]
            if (lt(kk, k) if reverse else lt(k, kk)):
                p -= 1
            else:
                break
        out.insert(p, (x, k))
    return VList([x for x, _ in out])


def pred_part(s):
    ps = C.seq_parts(s)
    return len(ps) == 1 and ps[0][0] == 's' and 'mem' in ps[0][3]


def lt(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        for x, y in zip(a, b):
            if sym_eq(x, y):
                continue
            return bool(lt(x, y))
        return len(a) < len(b)
    return bool(a < b)


def sort_sym(s, key, reverse):
    e = E()
    n = seq_len(s)
    nm = e.fresh('sort')
    perm = z3.Function(nm + '_p', z3.IntSort(), z3.IntSort())
    inv = z3.Function(nm + '_q', z3.IntSort(), z3.IntSort())
    q = z3.Int('pq')
    rng = lambda t: z3.And(t >= 0, t < iterm(n))
    e.assume(z3.ForAll([q], z3.Implies(rng(q), z3.And(rng(perm(q)), inv(perm(q)) == q)), patterns=[perm(q)]))
    def kf(x):
        return call(key, (x,), {}) if key else x

    # where the elements are values of functions of the position, mentioning one brings its position in the result
    apps = []

    def collect(u, seen=set()):
        if z3.is_app(u) and u.num_args():
            if u.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(a.eq(q) for a in u.children()) and not any(a.eq(u) for a in apps):
                apps.append(u)
            for c in u.children():
                collect(c)
    k0 = None
    ps = C.seq_parts(s)
    if len(ps) == 1 and ps[0][0] == 's':
        kb = C.kbody(n, lambda k: kf(C.part_get(ps[0], k)))
        if len(kb.outcomes) == 1 and kb.outcomes[0]['kind'] == 'val':
            k0 = kb.instantiate(SInt(q))
            if isinstance(k0, Sym) and getattr(k0, 't', None) is not None:
                collect(k0.t)
    e.assume(z3.ForAll([q], z3.Implies(rng(q), z3.And(rng(inv(q)), perm(inv(q)) == q)), patterns=[inv(q)] + apps))
    if isinstance(k0, SInt) and not reverse:
        # distinct integers of 0..n-1 are all of them (pigeonhole), so sorting them yields 0..n-1
        x, y = z3.Ints(nm + '_x ' + nm + '_y')
        at = lambda t: z3.substitute(k0.t, (q, t))
        e.assume_lazy(z3.Implies(z3.And(z3.ForAll([x], z3.Implies(rng(x), rng(at(x))), patterns=[z3.substitute(a, (q, x)) for a in apps] or []),
                                   z3.ForAll([x, y], z3.Implies(z3.And(rng(x), rng(y), at(x) == at(y)), x == y))),
                            z3.ForAll([x], z3.Implies(rng(x), at(perm(x)) == x), patterns=[perm(x)])))

    def elem(i):
        return seq_get(s, mkint(perm(iterm(i))))
    r = sym_seq(n, elem)
    e.assume(mkbool(forall_term(n, lambda j: mkbool(forall_term(j, lambda i: (kf(seq_get(r, i)) <= kf(seq_get(r, j))) if not reverse else (kf(seq_get(r, i)) >= kf(seq_get(r, j))))))))
    r._sort = dict(perm=perm, inv=inv)
    return r


@model(builtins.int)
def m_int(x=0, *a):
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return x._int()
    if isinstance(x, SStr):
        if a and a[0] != 10:
            raise Unsupported('int(str, base)')
        t = z3.StrToInt(x.t)
        if E().decide(t >= 0):
            return mkint(t)
        raise Unsupported('int() of a symbolic string')
    if isinstance(x, SVal):
        m = x.sort.methods.get('__int__')
        if m:
            return m(x)
        raise Unsupported(f'int of an opaque {x.sort.name}')
    return int(x, *a)


# MODELS keyed by `bool` also matches nothing else
@model(builtins.bool)
def m_bool(x=False):
    if isinstance(x, SBool):
        return x
    return truthy(x) if isinstance(x, Sym) else bool(x)


@model(builtins.str)
def m_str(x='', *a):
    if a:
        if has_sym(x):
            from .sbytes import SBytes
            if isinstance(x, SBytes):
                return x.decode(*a)
        return str(x, *a)
    return to_str(x, -1, '')


UNIQ_STR = {}


def to_str(v, conv=-1, spec=''):
    if not has_sym(v) and not has_symc(v):
        return format(v, spec) if conv == -1 else format(repr(v) if conv == 114 else str(v), spec)
    if isinstance(v, SStr) and conv != 114 and spec == '':
        return v
    if isinstance(v, SInt) and spec in ('', 'd'):
        return int_str(v)
    if isinstance(v, SBool) and spec == '':
        return core.mkstr(z3.If(v.t, z3.StringVal('True'), z3.StringVal('False')))
    f = getattr(type(v), 'vf_str', None)
    if f is not None and conv != 114 and spec == '':
        return f(v)
    # anything else: an unspecified text (error messages, reprs)
    if type(v).__module__ and verified_cls(type(v)) and conv != 114 and spec == '' and type(v).__str__ is not object.__str__:
        try:
            return type(v).__str__(v)
        except Unsupported:
            pass
    E().notes.add(f'text of a {type(v).__name__} left unspecified')
    return core.ENG_fresh_str('text')


def int_str(v):
    t = v.t
    if core.ENG and core.ENG.check(t < 0) == z3.unsat:
        return core.mkstr(z3.IntToStr(t))
    return core.mkstr(z3.If(t >= 0, z3.IntToStr(t), z3.Concat(z3.StringVal('-'), z3.IntToStr(-t))))


@model(builtins.repr)
def m_repr(x):
    if has_symc(x):
        E().notes.add(f'repr of a {type(x).__name__} left unspecified')
        return core.ENG_fresh_str('repr')
    return repr(plain(x))


@model(builtins.print)
def m_print(*a, **k):
    return None


@model(builtins.hash)
def m_hash(x):
    h = sym_hash(x)
    return h if isinstance(h, Sym) and any_uninterp_var(h.t) else (hash_concrete(x) if isinstance(h, Sym) else h)


def any_uninterp_var(t):
    """Does the hash term mention anything but literals?"""
    todo, seen = [t], set()
    while todo:
        u = todo.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_const(u):
            if not (z3.is_int_value(u) or z3.is_string_value(u)):
                return True
        elif u.decl().kind() == z3.Z3_OP_UNINTERPRETED and not u.decl().name().startswith('hash.'):
            return True
        todo += u.children()
    return False


def hash_concrete(x):
    """x has no symbolic content: the real hash."""
    if isinstance(x, tuple):
        return hash(tuple(hash_concrete(e) for e in x))
    if isinstance(x, (int, str)):
        return hash(x)
    h = type(x).__hash__
    if verified_cls(type(x)) and dataclasses.is_dataclass(x) and isinstance(h, types.FunctionType) and '__vf_instrumented__' not in h.__globals__:
        return hash(tuple(hash_concrete(getattr(x, f.name)) for f in dataclasses.fields(x) if (f.hash if f.hash is not None else f.compare)))
    if verified_cls(type(x)) and isinstance(h, types.FunctionType):
        r = h(x)
        return r if not isinstance(r, Sym) else 0
    return hash(x)


def seq_hash(x):
    """hash of a tuple of symbolic length: some number, the same for equal tuples hashed on this path"""
    e = core.ENG
    h = core.fresh_int('hash')
    if getattr(e, 'hashed_path', None) != e.paths:
        e.hashed_path, e.hashed = e.paths, []
    seen = e.hashed
    for y, g in seen:
        e.assume(core.Implies(sym_eq(x, y), mkbool(iterm(h) == iterm(g))))
    seen.append((x, h))
    return h


def sym_hash(x):
    """hash as a function of the value: equal values get equal hashes."""
    if isinstance(x, tuple):
        hs = [sym_hash(e) for e in x] if not isinstance(x, VTuple) or x._parts is None else None
        if hs is None:
            return seq_hash(x)
        if not any(isinstance(h, Sym) for h in hs):
            return hash(tuple(hs)) if has_symc(x) else hash(x)
        f = z3.Function(f'hash.tuple{len(hs)}', *([z3.IntSort()] * len(hs)), z3.IntSort())
        return mkint(f(*[iterm(h) for h in hs]))
    if isinstance(x, Sym):
        if isinstance(x, SBool):
            x = x._int()
        t = x.t
        return mkint(z3.Function(f'hash.{t.sort()}', t.sort(), z3.IntSort())(t))
    if isinstance(x, (int,)) and not isinstance(x, bool) or isinstance(x, bool):
        return mkint(z3.Function('hash.Int', z3.IntSort(), z3.IntSort())(z3.IntVal(int(x))))
    if isinstance(x, str):
        return mkint(z3.Function('hash.String', z3.StringSort(), z3.IntSort())(z3.StringVal(x)))
    h = getattr(type(x), 'vf_hash', None)       # a hash given by the specification
    if h is not None:
        return h(x)
    h = type(x).__hash__
    if h is None:
        raise TypeError(f"unhashable type: '{real_type(type(x)).__name__}'")
    if isinstance(x, VSet):
        if x._sym is not None:
            raise Unsupported('hash of a symbolic frozenset')
        hs = [sym_hash(e) for e in x._order]       # the elements of a set are distinct: any symmetric function of their hashes
        f = z3.Function(f'hash.frozenset{len(hs)}', z3.IntSort(), z3.IntSort())
        m = z3.Function('hash.member', z3.IntSort(), z3.IntSort())
        return mkint(f(z3.Sum([m(iterm(h)) for h in hs]) if hs else z3.IntVal(0)))
    if verified_cls(type(x)):
        if isinstance(h, types.FunctionType):
            if dataclasses.is_dataclass(x) and '__vf_instrumented__' not in h.__globals__:
                flds = [f for f in dataclasses.fields(x) if (f.hash if f.hash is not None else f.compare)]
                return sym_hash(tuple(getattr(x, f.name) for f in flds))
            r = h(x)
            if isinstance(r, Sym) or isinstance(r, int):
                return r
        if dataclasses.is_dataclass(x):
            flds = [f for f in dataclasses.fields(x) if (f.hash if f.hash is not None else f.compare)]
            return sym_hash(tuple(getattr(x, f.name) for f in flds))
    if has_symc(x):
        raise Unsupported(f'hash of {type(x).__name__}')
    return hash(x)


@model(builtins.type)
def m_type(*a):
    if len(a) != 1:
        return type(*a)
    x = a[0]
    if isinstance(x, SVal):
        if len(x.sort.pytypes) == 1:
            return x.sort.pytypes[0]
        f = x.sort.methods.get('__type__')
        if f:
            return f(x)
        raise Unsupported(f'type of an opaque {x.sort.name}')
    f = getattr(x, 'vf_type', None)
    if f is not None and isinstance(x, Sym):
        return f()
    if isinstance(x, VSet) and x._frozen:
        return frozenset
    return real_type(type(x))


@model(builtins.iter)
def m_iter(x, *a):
    if not a and is_symbolic_iterable(x):
        return LazyIter(materialize(x))
    if a:
        return iter(x, *a)
    if isinstance(x, LazySeq):
        return x
    return iter(x)


class LazyIter(LazySeq):
    def __init__(self, seq):
        super().__init__(seq)
        self.pos = 0

    def __next__(self):
        return m_next(self)


@model(builtins.next)
def m_next(it, *d):
    if isinstance(it, LazySeq):
        pos = getattr(it, 'pos', 0)
        n = seq_len(it.seq)
        if pos < n:
            it.pos = pos + 1
            return seq_get(it.seq, pos)
        if d:
            return d[0]
        raise StopIteration
    return next(it, *d)


@model(builtins.getattr)
def m_getattr(o, name, *d):
    if isinstance(o, SVal):
        try:
            return getattr(o, name)
        except Unsupported:
            if d:
                return d[0]
            raise
    if isinstance(name, Sym):
        raise Unsupported('getattr with a symbolic name')
    return getattr(o, name, *d)


@model(builtins.hasattr)
def m_hasattr(o, name):
    if isinstance(o, SVal):
        if name in o.sort.attrs or name in o.sort.methods:
            return True
        f = o.sort.methods.get('__hasattr__')
        if f:
            return f(o, name)
        return False
    if isinstance(o, (SInt, SBool, SStr)):
        return hasattr(real_type(type(o)), name)
    if isinstance(o, (VList, VTuple, VDict, VSet)):
        return hasattr(real_type(type(o)), name)
    return hasattr(o, name)


@model(builtins.setattr)
def m_setattr(o, n, v):
    from .rt import setattr_
    return setattr_(o, n, v)


@model(object.__setattr__)
def m_osetattr(o, n, v):
    if core.ENG is not None:
        E().touch(o)
    object.__setattr__(o, n, v)


@model(builtins.id)
def m_id(x):
    if isinstance(x, SVal):
        f = z3.Function(f'id.{x.sort.name}', x.sort.z, z3.IntSort())
        # identity of distinct references is distinct
        inv = z3.Function(f'idinv.{x.sort.name}', z3.IntSort(), x.sort.z)
        E().assume(inv(f(x.t)) == x.t)
        return mkint(f(x.t))
    if isinstance(x, Sym):
        raise Unsupported('id of a symbolic value')
    return id(x)


@model(builtins.callable)
def m_callable(x):
    if isinstance(x, SVal):
        return x.sort.call is not None
    return callable(x)


@model(builtins.bytes)
def m_bytes(*a, **k):
    from .sbytes import SBytes
    if a and isinstance(a[0], SBytes):
        return a[0]
    if a and (has_symc(a[0])):
        m = None
        if isinstance(a[0], SVal):
            m = a[0].sort.methods.get('__bytes__')
        if m:
            return m(a[0])
        if isinstance(a[0], (list, tuple)) and not getattr(a[0], '_vf_seq', False):
            from .sbytes import pack_byte, fin
            r = SBytes([])
            for x in a[0]:
                r = r + pack_byte(x)
            return fin(r)
        raise Unsupported('bytes() of a symbolic value')
    return bytes(*[plain(x) for x in a], **k)


@model(builtins.float)
def m_float(x=0.0):
    if isinstance(x, SVal):
        m = x.sort.methods.get('__float__')
        if m:
            return m(x)
    if isinstance(x, Sym):
        raise Unsupported('float of a symbolic value')
    return float(x)


@model(builtins.round)
def m_round(x, *a):
    if isinstance(x, SInt):
        return x
    return round(x, *a)


@model(builtins.issubclass)
def m_issubclass(a, b):
    return issubclass(real_type(a), b)


# ---------------------------------------------------------------- stdlib
@model(dataclasses.field)
def m_field(**k):
    df = k.get('default_factory')
    if df is list:
        k['default_factory'] = VList
    elif df is dict:
        k['default_factory'] = VDict
    elif df is set:
        k['default_factory'] = VSet
    return dataclasses.field(**k)


@model(dataclasses.replace)
def m_replace(o, **ch):
    r = dataclasses.replace(o, **ch)
    fix_dataclass(r)
    return r


@model(typing.cast)
def m_cast(t, x):
    return x


@model(copy.copy)
def m_copy(x):
    if isinstance(x, (VList, VDict, VSet)):
        return x.copy()
    return copy.copy(x)


@model(functools.reduce)
def m_reduce(f, it, *init):
    it = materialize(it)
    fl = C.flatten_concrete(it) if getattr(it, '_vf_seq', False) else list(it)
    if fl is None:
        raise Unsupported('reduce over a symbolic sequence')
    xs = list(init) + list(fl)
    if not xs:
        raise TypeError('reduce() of empty iterable with no initial value')
    acc = xs[0]
    for x in xs[1:]:
        acc = call(f, (acc, x), {})
    return acc


@model(itertools.chain.from_iterable)
def m_chain_fi(its):
    out = VList()
    for i in its:
        out.extend(i)
    return iter(out) if not out._vf_seq else LazySeq(out)


@model(itertools.chain)
def m_chain(*its):
    return m_chain_fi(its)


def _opmodel(nm):
    f = getattr(operator, nm)

    def g(*a):
        if nm == 'contains':
            from . import rt
            return rt.contains(*a)
        return f(*[VList(x) if type(x) is list else x for x in a])
    MODELS[f] = g


for _n in ('and_', 'or_', 'xor', 'add', 'sub', 'mul', 'floordiv', 'mod', 'lshift', 'rshift', 'neg', 'invert', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'contains'):
    _opmodel(_n)


def _op_not(x):
    return core.Not(x) if isinstance(x, Sym) else not x


MODELS[operator.not_] = _op_not


@model(operator.itemgetter)
def m_itemgetter(*ks):
    from .rt import getitem

    def f(o):
        if len(ks) == 1:
            return getitem(o, ks[0])
        return tuple(getitem(o, k) for k in ks)
    return f


# str methods on concrete receivers with symbolic arguments
def _str_join(s, it):
    it = materialize(it)
    if getattr(it, '_vf_seq', False):
        fl = C.flatten_concrete(it)
        if fl is None:
            raise Unsupported('join of a symbolic sequence')
        it = fl
    xs = list(it)
    if not any(isinstance(x, Sym) for x in xs):
        return s.join(xs)
    acc = xs[0]
    for x in xs[1:]:
        for y in ((s, x) if s else (x,)):
            acc = acc + y if not (isinstance(acc, str) and isinstance(y, Sym)) else y.__radd__(acc)
    return acc


METHODS[(str, 'join')] = _str_join


def _str_fmt(s, *a, **k):
    if any(has_symc(x) for x in a) or any(has_symc(x) for x in k.values()):
        raise Unsupported('str.format with symbolic values')
    return s.format(*a, **k)


METHODS[(str, 'format')] = _str_fmt


def _lift_str(nm):
    def f(s, *a, **k):
        if any(isinstance(x, Sym) for x in a):
            return getattr(SStr(z3.StringVal(s)), nm)(*a, **k)
        return NotImplemented
    return f


for _n in ('startswith', 'endswith', 'partition', 'rpartition', 'removeprefix', 'removesuffix', 'find'):
    METHODS[(str, _n)] = _lift_str(_n)


def _bytes_join(s, it):
    it = materialize(it)
    if getattr(it, '_vf_seq', False):
        from .sbytes import join_seq
        return join_seq(s, it)
    xs = list(it)
    if not any(isinstance(x, Sym) for x in xs):
        return s.join(xs)
    acc = b''
    for i, x in enumerate(xs):
        if i and s:
            acc = acc + s
        acc = x if (isinstance(acc, bytes) and acc == b'') else (acc + x if not (isinstance(acc, bytes) and isinstance(x, Sym)) else x.__radd__(acc))
    return acc


METHODS[(bytes, 'join')] = _bytes_join


def _native_list_guard(nm):
    def f(s, *a, **k):
        if core.ENG is not None:
            E().touch(s)
        if any(getattr(x, '_vf_seq', False) for x in a) and nm == 'extend':
            raise Unsupported('native list extended by a symbolic sequence')
        if isinstance(a[0] if a else None, Sym) and nm in ('pop', 'insert'):
            raise Unsupported('native list with a symbolic index')
        return getattr(s, nm)(*a, **k)
    return f


for _n in ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse'):
    METHODS[(list, _n)] = _native_list_guard(_n)


def _native_dict(nm):
    def f(s, *a, **k):
        if a and has_sym(a[0]):
            if nm in ('get', '__contains__'):
                return getattr(VDict(s), nm)(*a)
            if nm in ('pop', 'setdefault'):
                raise Unsupported('native dict modified with a symbolic key')
        return NotImplemented
    return f


for _n in ('get', 'pop', 'setdefault', '__contains__'):
    METHODS[(dict, _n)] = _native_dict(_n)


class Logger:
    """logging.getLogger stand-in is not needed: logging calls are modelled away."""


import logging


def _nolog(f):
    def g(*a, **k):
        return None if core.ENG else f(*a, **k)
    return g


for _n in ('debug', 'info', 'warning', 'error', 'exception', 'critical', 'log'):
    MODELS[getattr(logging, _n)] = _nolog(getattr(logging, _n))

_old_call = call


def call(f, a, k):  # noqa: F811
    if isinstance(f, types.MethodType) and isinstance(f.__self__, (logging.Logger, logging.LoggerAdapter)):
        if core.ENG and getattr(f, '__name__', '') in ('debug', 'info', 'warning', 'warn', 'error', 'exception', 'critical', 'log'):
            return None
    return _old_call(f, a, k)


import warnings
MODELS[warnings.warn] = _nolog(warnings.warn)


def _tree(name):
    """jax pytrees: the real function on plain containers; leaves may be symbolic (trusted: flatten/unflatten are inverse)."""
    import jax.tree_util as jt
    f = getattr(jt, name)

    def g(*a, **k):
        r = f(*[plain(x) for x in a], **k)
        if name == 'tree_flatten':
            return (VList(r[0]), r[1])
        return lift_containers(r)
    return g


def lift_containers(x):
    if type(x) is list:
        return VList([lift_containers(e) for e in x])
    if type(x) is dict:
        return VDict({k: lift_containers(v) for k, v in x.items()})
    if type(x) is tuple:
        return tuple(lift_containers(e) for e in x)
    return x


def enable_trees():
    import jax.tree_util as jt
    import jax
    for n in ('tree_flatten', 'tree_unflatten', 'tree_map', 'tree_leaves', 'tree_structure'):
        MODELS[getattr(jt, n)] = _tree(n)
