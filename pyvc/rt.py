"""Run-time hooks the instrumented source calls."""
from __future__ import annotations
import builtins, operator, types
import z3
from . import core
from .core import (Control, Unsupported, Kill, Sym, SBool, SInt, SStr, SVal, And, Or, Not, mkbool, mkint, bterm, iterm,
                   has_sym, sym_eq, hashing)
from . import containers as C
from .containers import (VList, VTuple, VDict, VSet, VDefaultDict, LazySeq, SymView, sym_seq, seq_len, seq_get, seq_parts,
                         seq_from_parts, materialize, is_symbolic_iterable, kbody, filtered, KBody, part_get)
from . import models as M


def E():
    return core.ENG


class _Poison:
    """A local whose value is not determined (assigned only inside an unrolled loop)."""
    def __getattr__(self, n):
        raise Unsupported('use of a loop-carried temporary')
    def __bool__(self): raise Unsupported('use of a loop-carried temporary')
    def __eq__(self, o): raise Unsupported('use of a loop-carried temporary')
    __hash__ = None
    def __iter__(self): raise Unsupported('use of a loop-carried temporary')
    def __call__(self, *a, **k): raise Unsupported('use of a loop-carried temporary')
    for _o in ('add', 'radd', 'sub', 'rsub', 'mul', 'lt', 'le', 'gt', 'ge', 'getitem', 'len', 'contains', 'floordiv', 'mod'):
        exec(f'def __{_o}__(self, *a): raise Unsupported("use of a loop-carried temporary")')


POISON = _Poison()


# ---------------------------------------------------------------- simple hooks
def list_(l):
    return VList(l)


def list_star(parts):
    ps = []
    for star_, v in parts:
        if star_:
            ps += seq_parts(materialize(v))
        else:
            ps.append(('c', [v]))
    return seq_from_parts(ps, 'list')


def tuple_star(parts):
    return M.m_tuple(list_star(parts))


def set_(l):
    return VSet(l)


def dict_(items):
    d = VDict()
    for unpack_, k, v in items:
        if unpack_:
            d.update(v)
        else:
            d[k] = v
    return d


def dict_native(d):
    return VDict(d)


def star(x):
    if is_symbolic_iterable(x):
        f = C.flatten_concrete(materialize(x))
        if f is None:
            raise Unsupported('star-argument of symbolic length')
        return f
    return x


def dstar(d):
    if isinstance(d, VDict):
        if d._sym is not None:
            raise Unsupported('** of a symbolic dict')
        return dict(d._items())
    return d


def unpack(v, n):
    if isinstance(v, (VList, VTuple)) and v._parts is not None:
        if not (seq_len(v) == n):
            raise ValueError(f'not enough values to unpack (expected {n})')
        return [seq_get(v, i) for i in range(n)]
    r = list(v)
    if len(r) != n:
        raise ValueError(f'not enough values to unpack (expected {n})' if len(r) < n else f'too many values to unpack (expected {n})')
    return r


def mkslice(a, b, c):
    return slice(a, b, c)


def getitem(o, i):
    if type(o) in (list, tuple, str, bytes):
        symidx = isinstance(i, Sym) or (isinstance(i, slice) and (isinstance(i.start, Sym) or isinstance(i.stop, Sym)))
        if symidx:
            if type(o) is list or type(o) is tuple:
                if isinstance(i, slice):
                    return VList(o)[i] if type(o) is list else C.VTuple(o)[i]
                return C.get_native(list(o), i)
            if type(o) is str:
                return SStr(z3.StringVal(o))[i]
            from .sbytes import SBytes
            return SBytes.lit(o)[i]
        r = o[i]
        if type(r) is list:
            return VList(r)
        return r
    if type(o) is dict and (has_sym(i)):
        return VDict(o)[i]
    if isinstance(i, Sym) and not isinstance(o, (Sym, VList, VTuple, VDict)) and not _verified(type(o)):
        m = M.GETITEM.get(type(o))
        if m:
            return m(o, i)
        if not getattr(type(o), '_vf_sym', False):
            raise Unsupported(f'{type(o).__name__}[symbolic]')
    return o[i]


def _verified(t):
    return getattr(__import__('sys').modules.get(t.__module__), '__vf_instrumented__', False) or getattr(t, '_vf_ok', False)


def setitem(o, i, v):
    if type(o) is dict and (has_sym(i)):
        raise Unsupported('symbolic key stored in a native dict')
    if type(o) is list:
        if core.ENG: core.ENG.touch(o)
        if isinstance(i, Sym):
            raise Unsupported('symbolic index stored in a native list')
    o[i] = v


def delitem(o, i):
    del o[i]


def setattr_(o, name, v):
    if core.ENG is not None and core.ENG.frames and not isinstance(o, Sym):
        core.ENG.touch(o)
    setattr(o, name, v)


def delattr_(o, name):
    if core.ENG is not None and core.ENG.frames:
        core.ENG.touch(o)
    delattr(o, name)


def cmp(op, a, b):
    if op == 'Eq':
        if isinstance(a, (tuple,)) and isinstance(b, tuple) and not isinstance(a, VTuple) and not isinstance(b, VTuple) and type(a).__eq__ is tuple.__eq__:
            return sym_eq(a, b)
        if core.generated_eq(a, b) is not None and core.ENG is not None:
            return sym_eq(a, b)
        return a == b
    if op == 'NotEq':
        if isinstance(a, (tuple,)) and isinstance(b, tuple) and not isinstance(a, VTuple) and not isinstance(b, VTuple) and type(a).__ne__ is tuple.__ne__:
            return Not(sym_eq(a, b))
        if core.generated_eq(a, b) is not None and core.ENG is not None:
            return Not(sym_eq(a, b))
        return a != b
    if op == 'Is' or op == 'IsNot':
        r = is_(a, b)
        return r if op == 'Is' else Not(r)
    r = contains(b, a)
    return r if op == 'In' else Not(r)


def is_(a, b):
    if a is b:
        return True
    if isinstance(a, SVal) and isinstance(b, SVal):
        return a == b
    if isinstance(a, SBool) and isinstance(b, (bool, SBool)) or isinstance(b, SBool) and isinstance(a, bool):
        return a == b
    if isinstance(a, type) and isinstance(b, type):
        return M.real_type(a) is M.real_type(b)
    return False


def contains(c, x):
    f = getattr(c, 'vf_contains', None)
    if f is not None and not isinstance(c, type):
        return f(x)
    if type(c) in (tuple, list):
        return Or(*[True if e is x else sym_eq(e, x) for e in c]) if has_sym(x) or has_sym(c) else (x in c)
    if type(c) in (dict, set, frozenset) or isinstance(c, (dict, set, frozenset, types.MappingProxyType)):
        if has_sym(x) and not isinstance(c, (VDict, VSet)):
            return Or(*[sym_eq(e, x) for e in c])
        return x in c
    if type(c) is str and isinstance(x, SStr):
        return mkbool(z3.Contains(z3.StringVal(c), x.t))
    if isinstance(c, LazySeq):
        return contains(c.seq, x)
    if isinstance(c, range) and isinstance(x, Sym):
        if c.step == 1:
            return And(x >= c.start, x < c.stop)
        return Or(*[x == e for e in c])
    if isinstance(c, C.SymRange):
        return c.vf_contains(x)
    r = c.__contains__(x) if hasattr(type(c), '__contains__') else (x in c)
    return r


def not_(x):
    if isinstance(x, SBool):
        return Not(x)
    if isinstance(x, Sym):
        return not x
    return not x


_OPS = {'Add': operator.add, 'Mult': operator.mul, 'Mod': operator.mod, 'Sub': operator.sub}
_IOPS = {'Add': operator.iadd, 'Sub': operator.isub, 'Mult': operator.imul, 'FloorDiv': operator.ifloordiv, 'Mod': operator.imod,
         'BitOr': operator.ior, 'BitAnd': operator.iand, 'BitXor': operator.ixor, 'LShift': operator.ilshift, 'RShift': operator.irshift,
         'Div': operator.itruediv, 'Pow': operator.ipow, 'MatMult': operator.imatmul}


def binop(op, a, b):
    if op == 'Mod' and isinstance(a, str):
        if has_sym(b):
            raise Unsupported('% formatting of a symbolic value')
        return a % b
    if op == 'Add':
        if type(a) is list and isinstance(b, list):
            return seq_from_parts(seq_parts(a) + seq_parts(b), 'list')
        if type(a) is tuple and isinstance(b, VTuple):
            return b.__radd__(a)
        if type(a) is bytes and isinstance(b, Sym):
            return b.__radd__(a)
        if type(a) is str and isinstance(b, SStr):
            return b.__radd__(a)
    r = _OPS[op](a, b)
    if type(r) is list:
        return VList(r)
    return r


def iop(op, a, b):
    if type(a) is str and isinstance(b, SStr) or type(a) is bytes and isinstance(b, Sym) or (type(a) is tuple and isinstance(b, VTuple)):
        return binop(op, a, b)
    if type(a) is list and core.ENG:
        core.ENG.touch(a)
        if getattr(b, '_vf_seq', False):
            raise Unsupported('native list += symbolic sequence')
    return _IOPS[op](a, b)


def fstr(parts):
    acc = ''
    sym = any(not isinstance(p, str) and has_sym(p[0]) for p in parts)
    for p in parts:
        if isinstance(p, str):
            s = p
        else:
            v, conv, spec = p
            if has_sym(v):
                s = M.to_str(v, conv, spec)
            else:
                if isinstance(v, (VList, VDict, VSet)) or isinstance(v, LazySeq):
                    v = M.plain(v)
                if conv == 115: v = str(v)
                elif conv == 114: v = repr(v)
                elif conv == 97: v = ascii(v)
                s = format(v, spec)
        acc = s if type(acc) is str and not acc else (acc + s if not isinstance(s, Sym) or isinstance(acc, Sym) else s.__radd__(acc))
    return acc


# ---------------------------------------------------------------- calls
def call(f, *a, **k):
    return M.call(f, a, k)


# ---------------------------------------------------------------- comprehensions
def comp(kind, it, f, cond, flat):
    if isinstance(it, types.GeneratorType) or not is_symbolic_iterable(it):
        if kind == 'gen' and not _pure_concrete(it):
            return _gen(it, f, cond, flat)
        out = VList()
        for x in it:
            if cond is not None and not cond(x):
                continue
            v = f(x)
            if flat:
                out.extend(v)
            else:
                out.append(v)
        return _finish(kind, out)
    seq = materialize(it)
    fl = C.flatten_concrete(seq) if all(p[0] == 'c' for p in seq_parts(seq)) else None
    if fl is not None:
        return comp(kind, fl, f, cond, flat)
    if flat:
        raise Unsupported('nested comprehension over a symbolic sequence')
    parts = []
    for p in seq_parts(seq):
        if p[0] == 'c':
            o = VList()
            for x in p[1]:
                if cond is None or cond(x):
                    o.append(f(x))
            parts += seq_parts(o)
        else:
            parts += sym_comp(p, f, cond)
    out = seq_from_parts(parts, 'list')
    return _finish(kind, out)


def _pure_concrete(it):
    return isinstance(it, (list, tuple, dict, set, range, str, bytes))


def _gen(it, f, cond, flat):
    def g():
        for x in it:
            if cond is not None and not cond(x):
                continue
            if flat:
                yield from f(x)
            else:
                yield f(x)
    return g()


def _finish(kind, out):
    if kind == 'list' or kind == 'pairs':
        return out
    if kind == 'gen':
        if getattr(out, '_vf_seq', False):
            return LazySeq(out)
        return iter(list(out))
    if kind == 'set':
        return VSet(out)
    if kind == 'dict':
        if getattr(out, '_vf_seq', False):
            return M.dict_from_pairs(out)
        d = VDict()
        for k, v in out:
            d[k] = v
        return d
    raise AssertionError(kind)


def sym_comp(p, f, cond):
    """Map/filter over a symbolic part ('s', n, elem)."""
    e = E()
    n = p[1]

    def body(k):
        x = part_get(p, k)
        if cond is not None:
            if not cond(x):
                return None
        return (True, f(x))
    kb = kbody(n, body)
    for o in kb.outcomes:
        for ob, st, new in o['effects']:
            raise Unsupported('comprehension with side effects')
    exc = [o for o in kb.outcomes if o['kind'] == 'exc']
    vals = [o for o in kb.outcomes if o['kind'] == 'val']
    if exc:
        # some element raises: earliest such index
        r = e.choose(len(exc) + 1)
        if r > 0:
            o = exc[r - 1]
            j = C.fresh_int('j')
            e.assume(And(j >= 0, j < n))
            q = z3.Int(j.t.decl().name() + 'q')
            no_exc = z3.And(*[z3.Not(kb.cond(x, SInt(q))) for x in exc])
            e.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < j.t), no_exc)))
            s = kb.sub(j)
            for c in o['pc']:
                e.assume(s.term(c))
            if not e.feasible():
                raise Kill('no raising element')
            raise s_exc(s, o['value'])
        q = z3.Int(e.fresh('nx') + 'q')
        no_exc = z3.And(*[z3.Not(kb.cond(x, SInt(q))) for x in exc])
        e.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < iterm(n)), no_exc)))
    if cond is None:
        vb = KBody(kb.k, [dict(o, value=o['value'][1]) for o in vals], kb.fresh0, kb.fresh1)
        return [('s', n, (lambda i: vb.instantiate(i)), {})]
    keep = [o for o in vals if o['value'] is not None]
    if not keep:
        return []
    vb = KBody(kb.k, [dict(o, value=o['value'][1]) for o in keep], kb.fresh0, kb.fresh1)
    if len(keep) == len(vals):
        return [('s', n, (lambda i: vb.instantiate(i)), {})]

    def guard(j):
        return mkbool(z3.Or(*[vb.cond(o, j) for o in keep]))
    s = filtered(n, guard, lambda j: vb.instantiate(j))
    return seq_parts(s)


def s_exc(s, e):
    """the exception of the element at the index taken, rather than at the arbitrary one"""
    if not C.has_sym(e.args) and not any(C.has_sym(v) for v in e.__dict__.values()):
        return e
    import copy
    r = copy.copy(e)
    r.args = tuple(s.value(a) for a in e.args)
    for k, v in e.__dict__.items():
        if C.has_sym(v):
            r.__dict__[k] = s.value(v)
    return r


# ---------------------------------------------------------------- loops
def is_return(r):
    return r is not None and r[0] == 'R'


def not_broken(r):
    return r is None


def for_(it, body, get, set_, info):
    if isinstance(it, LazySeq) or is_symbolic_iterable(it):
        seq = materialize(it)
        if getattr(seq, '_vf_seq', False) and not all(p[0] == 'c' for p in seq_parts(seq)):
            from . import loops
            return loops.sym_for(seq, body, get, set_, info)
        it = C.flatten_concrete(seq) if getattr(seq, '_vf_seq', False) else list(seq)
    if isinstance(it, C.SymRange):
        from . import loops
        return loops.sym_for(it.seq(), body, get, set_, info)
    if isinstance(it, Sym):
        it = materialize(it)
    for x in it:
        r = body(x)
        if r is not None:
            return r
    return None


def while_(cond, body, get, set_, info):
    n = 0
    from . import loops
    h = loops.while_handler(info)
    if h is not None:
        return h(cond, body, get, set_, info)
    e = E()
    if loops.SYM_WHILE and e is not None and e.bound is None:
        return loops.sym_while(cond, body, get, set_, info)
    while True:
        c = cond()
        if isinstance(c, Sym):
            d0 = e.decisions_in_path if e else 0
            if not c:
                return None
            n += 1
            if n > loops.WHILE_UNROLL and e is not None and e.bound is None:
                raise Unsupported(f'while loop needs an invariant ({info})')
            if n > loops.WHILE_UNROLL:
                e.notes.add(f'while loop cut at {loops.WHILE_UNROLL} iterations ({info})')
                raise Kill('unrolling bound')
        elif not c:
            return None
        else:
            n += 1
            if n > 200000:
                raise Unsupported('concrete while loop does not end')
        r = body()
        if r is not None:
            if r[0] == 'B':
                return r
            return r
