"""Journaled containers: native behaviour on concrete content, symbolic mode otherwise."""
from __future__ import annotations
import z3
from . import core
from .core import (Sym, SBool, SInt, SStr, SVal, Sort, Unsupported, Kill, And, Or, Not, Implies, mkbool, mkint,
                   bterm, iterm, has_sym, sym_eq, hashing, fresh_int, wrap, isnum, norm_slice)


def E():
    return core.ENG


# ------------------------------------------------------------------ bodies as functions of an index
def free_consts(t, acc=None, seen=None):
    acc = {} if acc is None else acc
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc[x.decl().name()] = x
        if z3.is_quantifier(x):
            stack.append(x.body())
        else:
            stack.extend(x.children())
    return acc


def fresh_no(name):
    i = name.rfind('!')
    if i < 0:
        return -1
    try:
        return int(name[i + 1:])
    except ValueError:
        return -1


class Substitution:
    def __init__(self, pairs, fresh0, fresh1):
        self.pairs = list(pairs)
        self.fresh0, self.fresh1 = fresh0, fresh1
        self.map = {}

    def term(self, t):
        extra = []
        for n, c in free_consts(t).items():
            if any(c.eq(a) for a, _ in self.pairs):
                continue
            no = fresh_no(n)
            if self.fresh0 < no <= self.fresh1:
                if n not in self.map:
                    self.map[n] = z3.Const(E().fresh(n.split('!')[0]), c.sort())
                extra.append((c, self.map[n]))
        return z3.substitute(t, *(self.pairs + extra))

    def value(self, v, memo=None):
        memo = {} if memo is None else memo
        if id(v) in memo:
            return memo[id(v)]
        if isinstance(v, SBool):
            return mkbool(self.term(v.t))
        if isinstance(v, SInt):
            return mkint(self.term(v.t))
        if isinstance(v, SStr):
            return core.mkstr(self.term(v.t))
        if isinstance(v, SVal):
            n = SVal(self.term(v.t), v.sort)
            return n
        if isinstance(v, Sym) and hasattr(v, '_vf_subst'):
            return v._vf_subst(self)
        if v is None or isinstance(v, (bool, int, float, str, bytes, type)) or callable(v):
            return v
        if isinstance(v, (VList, VTuple)) and v._parts is not None:
            r = object.__new__(type(v)) if False else None
            parts = [self.part(p) for p in v._parts]
            return seq_from_parts(parts, 'list' if isinstance(v, VList) else 'tuple')
        if isinstance(v, VList):
            r = VList()
            memo[id(v)] = r
            list.extend(r, [self.value(e, memo) for e in list.__iter__(v)])
            return r
        if type(v) is list:
            return [self.value(e, memo) for e in v]
        if type(v) is tuple:
            return tuple(self.value(e, memo) for e in v)
        if isinstance(v, VDict) and v._sym is None or type(v) is dict:
            r = VDict() if isinstance(v, VDict) else {}
            memo[id(v)] = r
            with hashing():
                for k, x in dict.items(v):
                    dict.__setitem__(r, self.value(k, memo), self.value(x, memo))
            if isinstance(v, VDict):
                r._symkeys = v._symkeys
            return r
        if isinstance(v, VDict):
            b, r = v._sym, VDict()
            memo[id(v)] = r
            at = lambda f: None if f is None else (lambda x: self.element(f, x))
            r._sym = SymBase(at(b.has), at(b.val), None if b.n is None else self.value(b.n), at(b.key), at(b.at))
            with hashing():
                for k, x in dict.items(v):
                    dict.__setitem__(r, self.value(k, memo), x if x is _DEL else self.value(x, memo))
            r._symkeys = True
            return r
        d = getattr(v, '__dict__', None)
        if d is not None and core.held(v):
            if not has_sym(v):
                return v
            r = object.__new__(type(v))
            memo[id(v)] = r
            for k, x in d.items():
                object.__setattr__(r, k, self.value(x, memo))
            return r
        if not has_sym(v):
            return v
        raise Unsupported(f'substitution in {type(v)}')

    def part(self, p):
        if p[0] == 'c':
            return ('c', [self.value(e) for e in p[1]])
        _, n, f, _c = p
        n2 = self.value(n)
        return ('s', n2, (lambda i: self.element(f, i)), {})

    def element(self, f, i):
        """f(i) with the substitution applied to its value and to the facts that come with it."""
        outs = E().explore(lambda: f(i))
        if not outs or any(o['kind'] == 'exc' for o in outs):
            raise Unsupported('exception in an element of a substituted sequence')
        o = outs[E().choose(len(outs)) if len(outs) > 1 else 0]
        for p in o['pc']:
            E().assume(self.term(p))
        if len(outs) > 1 and not E().feasible():
            raise Kill('outcome infeasible')
        return self.value(o['value'])


class KBody:
    """Outcomes of a body at a generic index k."""

    def __init__(self, k, outcomes, fresh0, fresh1):
        self.k, self.outcomes = k, outcomes
        self.fresh0, self.fresh1 = fresh0, fresh1

    def sub(self, j):
        return Substitution([(self.k.t, iterm(j))], self.fresh0, self.fresh1)

    def cond(self, o, j):
        """Existentially closed condition of outcome o at index j."""
        t = z3.And(*o['pc']) if o['pc'] else z3.BoolVal(True)
        return self.close(t, j)

    def close(self, t, j):
        fr = [c for n, c in free_consts(t).items()
              if self.fresh0 < fresh_no(n) <= self.fresh1 and not c.eq(self.k.t)]
        if fr:
            # fresh constants introduced inside the body are determined by the index
            bound = [z3.Const(c.decl().name() + 'q', c.sort()) for c in fr]
            t = z3.Exists(bound, z3.substitute(t, *zip(fr, bound)))
        return z3.substitute(t, (self.k.t, iterm(j)))

    def instantiate(self, j, pick=None):
        """Value at index j (forks over outcomes)."""
        outs = [o for o in self.outcomes if pick is None or pick(o)]
        merged = self.merged(outs)
        s = self.sub(j)
        if merged is not None:
            return s.value(merged)
        if len(outs) == 1:
            i = 0
        else:
            i = E().choose(len(outs))
        o = outs[i]
        for p in o['pc']:
            E().assume(s.term(p))
        if len(outs) > 1 and not E().feasible():
            raise Kill('outcome infeasible')
        return s.value(o['value'])

    def merged(self, outs):
        if len(outs) == 1 and not outs[0]['pc']:
            return outs[0]['value']
        if not outs:
            return None
        for o in outs:
            for p in o['pc']:
                if len(outs) > 1 and 'lastwrite' in p.sexpr():      # facts about a named witness, not only a case distinction
                    return None
                for n in free_consts(p):
                    if self.fresh0 < fresh_no(n) <= self.fresh1 and n != self.k.t.decl().name():
                        return None
        vs = [o['value'] for o in outs]
        if all(isinstance(v, (bool, SBool)) for v in vs):
            conv, mk = bterm, mkbool
        elif all(isinstance(v, (int, SInt)) and not isinstance(v, bool) for v in vs):
            conv, mk = iterm, mkint
        elif all(isinstance(v, (str, SStr)) for v in vs):
            conv, mk = core.sterm, core.mkstr
        elif all(isinstance(v, SVal) for v in vs) and len({v.sort.name for v in vs}) == 1:
            srt = vs[0].sort
            conv, mk = (lambda v: v.t), (lambda t: SVal(t, srt))
        else:
            return None
        t = conv(vs[-1])
        for o, v in zip(reversed(outs[:-1]), reversed(vs[:-1])):
            t = z3.If(z3.And(*o['pc']) if o['pc'] else z3.BoolVal(True), conv(v), t)
        return mk(t)


def kbody(n, fn, base='k'):
    """Explore fn(k) for an arbitrary 0<=k<n."""
    e = E()
    f0 = e.fresh_n
    k = fresh_int(base)

    def run():
        e.assume(z3.And(k.t >= 0, k.t < iterm(n)))
        return fn(k)
    outs = e.explore(run)
    # strip the range assumption from every pc
    rng = z3.simplify(z3.And(k.t >= 0, k.t < iterm(n)))
    for o in outs:
        o['pc'] = [p for p in o['pc'] if not p.eq(rng)]
    return KBody(k, outs, f0, e.fresh_n)


def forall_term(n, pred):
    """z3 formula: for all 0<=k<n, pred(k)."""
    kb = kbody(n, lambda k: bterm_val(pred(k)), 'a')
    if any(o['kind'] == 'exc' for o in kb.outcomes):
        raise Unsupported('exception inside a quantified predicate')
    q = z3.Int(kb.k.t.decl().name() + 'q')
    disj = []
    for o in kb.outcomes:
        t = z3.And(*o['pc'], bterm(o['value']))
        disj.append(kb.close(t, SInt(q)))
    body = z3.Or(*disj) if disj else z3.BoolVal(True)
    body = z3.simplify(body)
    if z3.is_true(body):
        return body
    return z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < iterm(n)), body))


def bterm_val(x):
    if isinstance(x, (bool, SBool)):
        return x
    if isinstance(x, Sym):
        return mkbool(core.truth_term(x))
    return bool(x)


def exists_term(n, pred):
    kb = kbody(n, lambda k: bterm_val(pred(k)), 'e')
    if any(o['kind'] == 'exc' for o in kb.outcomes):
        raise Unsupported('exception inside a quantified predicate')
    q = z3.Int(kb.k.t.decl().name() + 'q')
    disj = []
    for o in kb.outcomes:
        t = z3.And(*o['pc'], bterm(o['value']))
        disj.append(kb.close(t, SInt(q)))
    body = z3.simplify(z3.Or(*disj)) if disj else z3.BoolVal(False)
    if z3.is_false(body):
        return body
    return z3.Exists([q], z3.And(q >= 0, q < iterm(n), body))


# ------------------------------------------------------------------ sequences
def part_len(p):
    return len(p[1]) if p[0] == 'c' else p[1]


def part_get(p, i):
    """Element i (a valid index) of a part."""
    if p[0] == 'c':
        es = p[1]
        if isinstance(i, int):
            return es[i]
        for j in range(len(es) - 1):
            if i == j:
                return es[j]
        E().assume(iterm(i) == len(es) - 1)
        return es[-1]
    _, n, f, cache = p
    key = ('i', i) if isinstance(i, int) else ('t', i.t.get_id())
    if key in cache:
        return cache[key][1]
    v = f(i)
    if E().in_sub == 0:
        cache[key] = (i, v)
    return v


class _SeqMixin:
    """Shared symbolic-mode behaviour; _parts is None when the native content is authoritative."""

    def vf_parts(self):
        if self._parts is not None:
            return self._parts
        return [('c', list(self._nat()))]

    @property
    def _vf_seq(self):
        return self._parts is not None

    def vf_len(self):
        if self._parts is None:
            return self._natlen()
        t = 0
        for p in self._parts:
            t = t + part_len(p)
        return t

    def vf_get(self, i):
        if self._parts is None:
            return get_native(list(self._nat()), i)
        n = self.vf_len()
        if i < 0:
            i = i + n
        if i < 0 or i >= n:
            raise IndexError('list index out of range')
        ps = [p for p in self._parts if not (p[0] == 'c' and not p[1])]
        for p in ps[:-1]:
            m = part_len(p)
            if i < m:
                return part_get(p, i)
            i = i - m
        return part_get(ps[-1], i)

    def vf_slice(self, a, b):
        n = self.vf_len()
        a, b = norm_slice(a, b, n)
        kind = self._kind
        out = []
        off = 0
        for p in self.vf_parts():
            m = part_len(p)
            lo, hi = off, off + m
            off = hi
            # intersection [max(a,lo), min(b,hi))
            if a >= hi or b <= lo:
                continue
            s = a - lo if a > lo else 0
            e_ = b - lo if b < hi else m
            if p[0] == 'c':
                s, e_ = core.concrete_int(s), core.concrete_int(e_)
                if s is None or e_ is None:
                    raise Unsupported('slicing a concrete list at symbolic offsets')
                out.append(('c', p[1][s:e_]))
            else:
                out.append(('s', e_ - s, (lambda i, p=p, s=s: part_get(p, i + s)), {}))
        return seq_from_parts(out, kind)

    def __getitem__(self, i):
        if isinstance(i, slice):
            if self._parts is None and not isinstance(i.start, Sym) and not isinstance(i.stop, Sym):
                return self._wrapnat(self._natget(i))
            if i.step == -1 and i.start is None and i.stop is None:
                return seq_reversed(self)
            if i.step not in (None, 1):
                raise Unsupported('slice step')
            return self.vf_slice(i.start, i.stop)
        if self._parts is None and not isinstance(i, Sym):
            return self._natget(i)
        return self.vf_get(i)

    def __len__(self):
        n = self.vf_len()
        if isinstance(n, Sym):
            return n.__index__()
        return n

    def __bool__(self):
        n = self.vf_len()
        return bool(n > 0)

    def __iter__(self):
        if self._parts is None:
            return self._nat()
        flat = flatten_concrete(self)
        if flat is not None:
            return iter(flat)
        raise Unsupported('native iteration over a sequence of symbolic length')

    def __eq__(self, o):
        if self._parts is None and not getattr(o, '_vf_seq', False):
            if isinstance(o, (list, tuple)) and isinstance(o, list) == isinstance(self, list):
                a, b = list(self._nat()), list(o)
                if len(a) != len(b):
                    return False
                return And(*[sym_eq(x, y) for x, y in zip(a, b)])
            return NotImplemented
        if isinstance(o, (list, tuple)) and isinstance(o, list) == isinstance(self, list):
            return seq_eq(self, o)
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    def __contains__(self, x):
        return bool(self.vf_contains(x))

    def vf_contains(self, x):
        alts = []
        for p in self.vf_parts():
            if p[0] == 'c':
                alts += [sym_eq(e, x) for e in p[1]]
            elif 'mem' in p[3]:
                alts.append(p[3]['mem'](x))
            else:
                alts.append(mkbool(exists_term(p[1], lambda k, p=p: sym_eq(part_get(p, k), x))))
        return Or(*alts)

    def __add__(self, o):
        if not isinstance(o, (list, tuple)) or isinstance(o, list) != isinstance(self, list):
            return NotImplemented
        return seq_from_parts(self.vf_parts() + seq_parts(o), self._kind)

    def __radd__(self, o):
        if not isinstance(o, (list, tuple)) or isinstance(o, list) != isinstance(self, list):
            return NotImplemented
        return seq_from_parts(seq_parts(o) + self.vf_parts(), self._kind)

    def __mul__(self, n):
        if isinstance(n, SInt):
            return core.repeat(self, n)
        if self._parts is None:
            return self._wrapnat(list(self._nat()) * n)
        return seq_from_parts(self._parts * n, self._kind)
    __rmul__ = __mul__

    def index(self, x, *a):
        if self._parts is None and not a:
            for i, e in enumerate(list(self._nat())):
                if core.ENG is None or True:
                    if sym_eq(e, x):
                        return i
            raise ValueError(f'{x!r} is not in list')
        if a:
            raise Unsupported('index bounds')
        return seq_index(self, x)

    def count(self, x):
        if self._parts is None:
            return sum(1 for e in list(self._nat()) if sym_eq(e, x))
        raise Unsupported('count on a symbolic sequence')

    def __reversed__(self):
        return iter(seq_reversed(self))

    def __hash__(self):
        raise TypeError(f"unhashable type: 'list'")


def seq_index(s, x):
    if bool(s.vf_contains(x)) is False:
        raise ValueError('not in list')
    i = fresh_int('ix')
    e = E()
    e.assume(And(i >= 0, i < s.vf_len()))
    e.assume(sym_eq(s.vf_get(i), x))
    e.assume(mkbool(forall_term(i, lambda k: Not(sym_eq(s.vf_get(k), x)))))
    return i


def flatten_concrete(s):
    out = []
    for p in seq_parts(s):
        if p[0] == 'c':
            out.extend(p[1])
        else:
            n = p[1] if isinstance(p[1], int) else None
            if n is None:
                n = core.concrete_int(p[1])
            if n is None or n > 64:
                return None
            for i in range(n):
                out.append(part_get(p, i))
    return out


def get_native(lst, i):
    if isinstance(i, int):
        return lst[i]
    n = len(lst)
    if i < 0:
        i = i + n
    if i < 0 or i >= n:
        raise IndexError('list index out of range')
    return part_get(('c', lst), i)


class VList(_SeqMixin, list):
    _kind = 'list'

    def __init__(self, it=()):
        list.__init__(self, it)
        self._parts = None
        self._vf_stamp = E().new_stamp() if core.ENG else 0

    def _nat(self): return list.__iter__(self)
    def _natlen(self): return list.__len__(self)
    def _natget(self, i): return list.__getitem__(self, i)
    def _wrapnat(self, v): return VList(v)
    @property
    def _vf_sym_(self): return self._parts is not None

    def _vf_save(self):
        return (self._parts if self._parts is None else list(self._parts), list(list.__iter__(self)))

    def _vf_restore(self, st):
        self._parts = None if st[0] is None else list(st[0])
        list.__setitem__(self, slice(None), st[1])

    def _t(self):
        if core.ENG:
            core.ENG.touch(self)

    def _topart(self):
        if self._parts is None:
            self._parts = [('c', list(list.__iter__(self)))]
            list.clear(self)

    def set_parts(self, parts):
        self._t()
        self._parts = list(parts)
        list.clear(self)

    def append(self, x):
        self._t()
        if self._parts is None:
            list.append(self, x)
        else:
            if self._parts and self._parts[-1][0] == 'c':
                self._parts[-1] = ('c', self._parts[-1][1] + [x])
            else:
                self._parts.append(('c', [x]))

    def extend(self, it):
        self._t()
        it = materialize(it)
        if self._parts is None and not getattr(it, '_vf_seq', False):
            list.extend(self, it)
        else:
            self._topart()
            self._parts = self._parts + seq_parts(it)

    def __iadd__(self, it):
        self.extend(it)
        return self

    def __imul__(self, n):
        self._t()
        r = self * n
        self._vf_restore(r._vf_save())
        return self

    def insert(self, i, x):
        self._t()
        if self._parts is None and not isinstance(i, Sym):
            return list.insert(self, i, x)
        if i == 0:
            self._parts = [('c', [x])] + list(self.vf_parts())
            list.clear(self)
            return
        raise Unsupported('insert')

    def pop(self, i=-1):
        self._t()
        if self._parts is None and not isinstance(i, Sym):
            return list.pop(self, i)
        n = self.vf_len()
        if n == 0:
            raise IndexError('pop from empty list')
        v = self.vf_get(i)
        if i == -1:
            r = self.vf_slice(0, n - 1)
        elif i == 0:
            r = self.vf_slice(1, n)
        else:
            raise Unsupported('pop')
        self._vf_restore(r._vf_save())
        return v

    def remove(self, x):
        self._t()
        if self._parts is None:
            for i in range(list.__len__(self)):
                if sym_eq(list.__getitem__(self, i), x):
                    list.pop(self, i)
                    return
            raise ValueError('list.remove(x): x not in list')
        raise Unsupported('remove on a symbolic list')

    def clear(self):
        self._t()
        self._parts = None
        list.clear(self)

    def reverse(self):
        self._t()
        r = seq_reversed(self)
        self._vf_restore(VList.of(r)._vf_save())

    @staticmethod
    def of(x):
        return x if isinstance(x, VList) else VList(x)

    def sort(self, key=None, reverse=False):
        self._t()
        from .models import m_sorted
        r = m_sorted(self, key=key, reverse=reverse)
        self._vf_restore(VList.of(r)._vf_save())

    def copy(self):
        r = VList()
        r._vf_restore(self._vf_save())
        return r

    def __setitem__(self, i, v):
        self._t()
        if self._parts is None and not isinstance(i, Sym) and not (isinstance(i, slice) and (isinstance(i.start, Sym) or isinstance(i.stop, Sym) or getattr(v, '_vf_seq', False))):
            return list.__setitem__(self, i, v)
        if isinstance(i, slice):
            raise Unsupported('slice assignment')
        n = self.vf_len()
        if i < 0:
            i = i + n
        if i < 0 or i >= n:
            raise IndexError('list assignment index out of range')
        if self._parts is None:
            for j in range(n):
                if i == j:
                    return list.__setitem__(self, j, v)
            raise Kill('index')
        old = seq_from_parts(self._parts, 'list')

        def elem(j, old=old, i=i, v=v):
            if j == i:
                return v
            return old.vf_get(j)
        self._parts = [('s', n, elem, {'upd': (old, i, v)})]

    def __delitem__(self, i):
        self._t()
        if self._parts is None and not isinstance(i, Sym):
            return list.__delitem__(self, i)
        if isinstance(i, slice) and i.step is None:
            a, b = norm_slice(i.start, i.stop, self.vf_len())
            r = self.vf_slice(0, a) + self.vf_slice(b, None)
            self._vf_restore(VList.of(r)._vf_save())
            return
        raise Unsupported('del on a symbolic list')

    def __repr__(self):
        if self._parts is None:
            return list.__repr__(self)
        return f'<VList {self._parts}>'

    def __lt__(self, o): return _lex(self, o, True)
    def __gt__(self, o): return _lex(o, self, True)

    __hash__ = None

    def __copy__(self): return self.copy()

    def __deepcopy__(self, memo):
        raise Unsupported('deepcopy of VList')

    def __reduce_ex__(self, p):
        if self._parts is None:
            return (list, (list(list.__iter__(self)),))
        raise Unsupported('pickling a symbolic list')


def _lex(a, b, strict):
    la, lb = list(a), list(b)
    for x, y in zip(la, lb):
        if sym_eq(x, y):
            continue
        return x < y
    return len(la) < len(lb)


class VTuple(_SeqMixin, tuple):
    _kind = 'tuple'

    def __new__(cls, it=(), parts=None):
        return tuple.__new__(cls, it)

    def __init__(self, it=(), parts=None):
        self._parts = parts
        self._vf_stamp = E().new_stamp() if core.ENG else 0

    def _nat(self): return tuple.__iter__(self)
    def _natlen(self): return tuple.__len__(self)
    def _natget(self, i): return tuple.__getitem__(self, i)
    def _wrapnat(self, v): return tuple(v)

    def __hash__(self):
        if self._parts is None:
            return tuple.__hash__(self)
        if core._hash_ok[0]:
            return id(self) >> 4
        raise Unsupported('hash of a symbolic tuple')

    def __repr__(self):
        if self._parts is None:
            return tuple.__repr__(self)
        return f'<VTuple {self._parts}>'


def seq_parts(x):
    if isinstance(x, _SeqMixin):
        return list(x.vf_parts())
    return [('c', list(x))]


def seq_from_parts(parts, kind='list'):
    ps = []
    for p in parts:
        if p[0] == 's' and isinstance(p[1], int) and p[1] == 0:
            continue
        if p[0] == 'c':
            if not p[1]:
                continue
            if ps and ps[-1][0] == 'c':
                ps[-1] = ('c', ps[-1][1] + list(p[1]))
                continue
        ps.append(p)
    if not ps:
        return VList() if kind == 'list' else ()
    if len(ps) == 1 and ps[0][0] == 'c':
        return VList(ps[0][1]) if kind == 'list' else tuple(ps[0][1])
    if kind == 'list':
        r = VList()
        r._parts = ps
        return r
    return VTuple((), ps)


def sym_seq(n, elem, kind='list'):
    return seq_from_parts([('s', n, elem, {})], kind)


def pred_seq(name, pred, asc=True, kind='tuple', n=None):
    """an arbitrary sequence of integers whose members are exactly those satisfying pred (ascending, without repetition, when asc)"""
    e = E()
    nm = e.fresh(name)
    n = n if n is not None else fresh_int(nm + '.len')
    f, idx = z3.Function(nm + '.at', z3.IntSort(), z3.IntSort()), z3.Function(nm + '.pos', z3.IntSort(), z3.IntSort())
    P = z3.Function(nm + '.mem', z3.IntSort(), z3.BoolSort())
    x, y = z3.Ints(nm + '.x ' + nm + '.y')
    t = bterm(pred(SInt(x)))
    apps = []

    def collect(u):
        if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED and u.num_args() == 1 and u.arg(0).eq(x):
            apps.append(u)
        elif z3.is_app(u):
            for c in u.children():
                collect(c)
    collect(t)
    if apps and apps[0].eq(t):
        P = t.decl()
    else:
        e.assume_lazy(z3.ForAll([x], P(x) == t, patterns=[P(x)] + apps))
    mem = lambda v: mkbool(P(iterm(v))) if isnum(v) else False
    rng = lambda t: z3.And(t >= 0, t < iterm(n))
    e.assume(n >= 0)
    e.assume_lazy(z3.ForAll([x], z3.Implies(rng(x), z3.And(P(f(x)), idx(f(x)) == x) if asc else P(f(x))), patterns=[f(x)]))
    e.assume_lazy(z3.ForAll([x], z3.Implies(P(x), z3.And(rng(idx(x)), f(idx(x)) == x)), patterns=[P(x)]))
    if asc:
        e.assume_lazy(z3.ForAll([x, y], z3.Implies(z3.And(x >= 0, x < y, y < iterm(n)), f(x) < f(y)), patterns=[z3.MultiPattern(f(x), f(y))]))
    r = seq_from_parts([('s', n, lambda k: SInt(f(iterm(k))), {'mem': mem, 'asc': asc})], kind)
    return r


def forall_int(pred):
    q = z3.Int(E().fresh('any'))
    return mkbool(z3.ForAll([q], bterm(pred(SInt(q)))))


def repeat_sym(seq, n):
    ps = seq_parts(seq)
    if len(ps) == 1 and ps[0][0] == 'c' and len(ps[0][1]) == 1:
        v = ps[0][1][0]
        m = n if n > 0 else 0
        return sym_seq(m, lambda i: v, 'list' if isinstance(seq, list) else 'tuple')
    raise Unsupported('repeating a sequence a symbolic number of times')


def seq_reversed(x):
    ps = seq_parts(x)
    out = []
    for p in reversed(ps):
        if p[0] == 'c':
            out.append(('c', list(reversed(p[1]))))
        else:
            out.append(('s', p[1], (lambda i, p=p: part_get(p, p[1] - 1 - i)), {}))
    return seq_from_parts(out, 'list')


def seq_len(x):
    if hasattr(x, 'vf_len'):
        return x.vf_len()
    return len(x)


def seq_get(x, i):
    if hasattr(x, 'vf_get'):
        return x.vf_get(i)
    return get_native(list(x), i)


def seq_eq(a, b):
    la, lb = seq_len(a), seq_len(b)
    if la is not lb and not (la == lb):
        return False
    pa, pb = seq_parts(a), seq_parts(b)
    conds = []
    if len(pa) == len(pb) and all((p[0] == q[0]) and (part_len(p) is part_len(q) or (isinstance(part_len(p), int) and part_len(p) == part_len(q)) or (isinstance(part_len(p), SInt) and isinstance(part_len(q), SInt) and part_len(p).t.eq(part_len(q).t))) for p, q in zip(pa, pb)):
        for p, q in zip(pa, pb):
            if p[0] == 'c':
                conds += [sym_eq(x, y) for x, y in zip(p[1], q[1])]
            else:
                conds.append(mkbool(forall_term(p[1], lambda k, p=p, q=q: sym_eq(part_get(p, k), part_get(q, k)))))
        return And(*conds)
    return mkbool(forall_term(la, lambda k: sym_eq(seq_get(a, k), seq_get(b, k))))


def materialize(it):
    """A list/VList of an iterable."""
    if isinstance(it, (VList, VTuple)):
        return it
    if isinstance(it, SymRange):
        return it.seq()
    if isinstance(it, LazySeq):
        return it.seq
    if isinstance(it, (VSet,)):
        return it.vf_aslist()
    if isinstance(it, VDict):
        return it.vf_keys()
    if isinstance(it, SymView):
        return it.seq()
    if isinstance(it, (list, tuple)):
        return it
    if isinstance(it, Sym):
        v = getattr(it, 'vf_iter', None)
        if v is not None:
            return v()
        if isinstance(it, SVal) and '__iter__' in it.sort.methods:
            return it.sort.methods['__iter__'](it)
        raise Unsupported(f'iterating {type(it).__name__}')
    if standin_iter(it):
        return it.vf_iter()
    return list(it)


def standin_iter(it):
    """Does a stand-in of a specification say how it is iterated?  One that only has an index would be iterated for ever."""
    t = type(it)
    if getattr(t, '_vf_ok', False) is not True:
        return False
    if hasattr(t, 'vf_iter'):
        return True
    if hasattr(t, '__getitem__') and not hasattr(t, '__iter__') and not isinstance(it, (list, tuple, dict, str, bytes)):
        raise Unsupported(f'iterating {t.__name__}')
    return False


def is_symbolic_iterable(it):
    if isinstance(it, (VList, VTuple)):
        return it._parts is not None
    if isinstance(it, (LazySeq, SymRange)):
        return True
    if isinstance(it, VSet):
        return it._sym is not None
    if isinstance(it, VDict):
        return it._sym is not None
    if isinstance(it, SymView):
        return True
    if isinstance(it, SVal):
        return '__iter__' in it.sort.methods
    if isinstance(it, Sym):
        return hasattr(it, 'vf_iter')
    return standin_iter(it)


def _ordered(base, op):
    f = getattr(base, op)

    def g(self, o):
        if self._parts is not None or has_sym(self) or has_sym(o):
            raise Unsupported('ordering symbolic sequences')
        return f(self, o)
    return g


for _op in ('__lt__', '__le__', '__gt__', '__ge__'):
    for _v, _b in ((VList, list), (VTuple, tuple)):
        if _op not in _v.__dict__:
            setattr(_v, _op, _ordered(_b, _op))


class SymRange:
    _vf_sym = True

    def __init__(self, a, b, step=1):
        self.a, self.b, self.step = a, b, step

    def vf_len(self):
        a, b, s = self.a, self.b, self.step
        if not isinstance(s, int):
            if s == 0:
                raise ValueError('range() arg 3 must not be zero')
            if not (s > 0):
                raise Unsupported('range with symbolic negative step')
        if isinstance(s, int) and s < 0:
            d = (a - b + (-s) - 1) // (-s)
        elif isinstance(s, int) and s == 1:
            d = b - a
        else:
            d = (b - a + s - 1) // s
        if isinstance(d, int):
            return max(0, d)
        return mkint(z3.If(iterm(d) > 0, iterm(d), 0))

    def vf_get(self, i):
        return self.a + self.step * i

    def seq(self):
        return sym_seq(self.vf_len(), lambda i: self.a + self.step * i, 'list')

    def vf_contains(self, x):
        if not isnum(x):
            return False
        if isinstance(self.step, int) and self.step == 1:
            return And(x >= self.a, x < self.b)
        raise Unsupported('membership in a strided range')

    def __iter__(self):
        return iter(self.seq())

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self.seq()[i]
        return self.seq().vf_get(i)


class LazySeq:
    """An iterator-like object over a symbolic sequence (generator expression, enumerate, zip...)."""
    _vf_sym = True

    def __init__(self, seq):
        self.seq = seq

    def __iter__(self):
        return iter(self.seq)


def filtered(n, guard, elem, kind='list'):
    """Sequence of elem(k) for 0<=k<n with guard(k): index function with an inverse."""
    e = E()
    f0 = e.fresh('flt')
    m = SInt(z3.Int(f0 + '_m'))
    idx = z3.Function(f0 + '_idx', z3.IntSort(), z3.IntSort())
    inv = z3.Function(f0 + '_inv', z3.IntSort(), z3.IntSort())
    q, r = z3.Int('fq'), z3.Int('fr')
    e.assume(z3.And(m.t >= 0, m.t <= iterm(n)))

    def g(j):
        return bterm(guard(SInt(j)))
    e.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < m.t),
                                       z3.And(idx(q) >= 0, idx(q) < iterm(n), g(idx(q)), inv(idx(q)) == q)), patterns=[idx(q)]))
    e.assume(z3.ForAll([q, r], z3.Implies(z3.And(q >= 0, q < r, r < m.t), idx(q) < idx(r)), patterns=[z3.MultiPattern(idx(q), idx(r))]))
    e.assume(z3.ForAll([r], z3.Implies(z3.And(r >= 0, r < iterm(n), g(r)),
                                       z3.And(inv(r) >= 0, inv(r) < m.t, idx(inv(r)) == r)), patterns=[inv(r)]))
    s = sym_seq(m, lambda j: elem(mkint(idx(iterm(j)))), kind)
    s._flt = dict(n=n, idx=idx, inv=inv, guard=guard, m=m)
    for f in FILTERS:
        f(s)
    return s


FILTERS = []     # harness callbacks: f(filtered sequence)


# ------------------------------------------------------------------ dictionaries
_MISS = object()


class Heap:
    """Ghost heap field: opaque reference -> value, last write wins.

    base(x) is the value before any write.  Values are proxies/constants of one kind.
    """

    def __init__(self, base, kind):
        self.base, self.kind, self.writes = base, kind, ()
        self._vf_stamp = E().new_stamp() if core.ENG else 0

    def _vf_save(self): return (self.base, self.writes)
    def _vf_restore(self, st): self.base, self.writes = st

    def set(self, x, v):
        if core.ENG: core.ENG.touch(self)
        self.writes = self.writes + ((x, v),)

    def get(self, x):
        t = core.unwrap(self.base(x), self.kind if isinstance(self.kind, Sort) else None)
        for y, v in self.writes:
            c = sym_eq(x, y)
            if c is True:
                t = core.unwrap(v)
            elif c is not False:
                t = z3.If(bterm(c), core.unwrap(v), t)
        return core.wrap(z3.simplify(t), self.kind)


class SymBase:
    """Arbitrary initial content of a dictionary: has(k), val(k), optional enumeration."""

    def __init__(self, has, val, n=None, key=None, at=None):
        self.has, self.val, self.n, self.key, self.at = has, val, n, key, at


class VDict(dict):
    """dict with journaling; symbolic keys are resolved against the existing keys by forking."""

    def __init__(self, *a, **kw):
        dict.__init__(self)
        self._symkeys = False
        self._sym = None          # SymBase when the initial content is symbolic
        self._vf_stamp = E().new_stamp() if core.ENG else 0
        if a:
            self.update(a[0])
        for k, v in kw.items():
            dict.__setitem__(self, k, v)

    def _vf_save(self):
        with hashing():
            return (self._symkeys, self._sym, list(dict.items(self)))

    def _vf_restore(self, st):
        with hashing():
            self._symkeys, self._sym = st[0], st[1]
            dict.clear(self)
            for k, v in st[2]:
                dict.__setitem__(self, k, v)

    def _t(self):
        if core.ENG:
            core.ENG.touch(self)

    def _canon(self, k):
        if not self._symkeys and not has_sym(k) and not _custom_key(k):
            hash(k)
            return k
        with hashing():
            keys = list(dict.keys(self))
        for kk in keys:
            if kk is k:
                return kk
        # syntactically equal first, to avoid pointless forks
        for kk in keys:
            r = sym_eq(kk, k)
            if r is True:
                return kk
            if r is False:
                continue
            if r:
                return kk
        return k

    def _natget(self, k):
        with hashing():
            return dict.get(self, k, _MISS)

    def _lookup(self, k):
        """value or _MISS"""
        k = self._canon(k)
        v = self._natget(k)
        if v is _DEL:
            return _MISS
        if v is _MISS and self._sym is not None:
            if bool(self._sym.has(k)):
                return self._sym.val(k)
            return _MISS
        return v

    def __getitem__(self, k):
        v = self._lookup(k)
        if v is _MISS:
            m = getattr(type(self), '__missing__', None)
            if m is not None:
                return m(self, k)
            if has_sym(k):
                raise KeyError('<symbolic key>')
            raise KeyError(k)
        return v

    def get(self, k, d=None):
        v = self._lookup(k)
        return d if v is _MISS else v

    def __contains__(self, k):
        return self._lookup(k) is not _MISS

    def __setitem__(self, k, v):
        self._t()
        kk = self._canon(k)
        if has_sym(kk) or _custom_key(kk):
            self._symkeys = True
        with hashing():
            dict.__setitem__(self, kk, v)

    def __delitem__(self, k):
        v = self._lookup(k)
        if v is _MISS:
            raise KeyError(k if not has_sym(k) else '<symbolic key>')
        self._t()
        kk = self._canon(k)
        with hashing():
            if self._sym is not None:
                if has_sym(kk):
                    self._symkeys = True
                dict.__setitem__(self, kk, _DEL)
            else:
                dict.__delitem__(self, kk)

    def pop(self, k, *d):
        v = self._lookup(k)
        if v is _MISS:
            if d:
                return d[0]
            raise KeyError(k if not has_sym(k) else '<symbolic key>')
        VDict.__delitem__(self, k)
        return v

    def setdefault(self, k, d=None):
        v = self._lookup(k)
        if v is _MISS:
            self[k] = d
            return d
        return v

    def update(self, *a, **kw):
        self._t()
        if a:
            o = a[0]
            if isinstance(o, VDict) and o._sym is not None:
                with hashing():
                    if self._sym is None and not dict.__len__(self):
                        self._vf_restore(o._vf_save())
                        return
                raise Unsupported('update from a symbolic dict')
            if isinstance(o, dict):
                with hashing():
                    its = list(dict.items(o))
                for k, v in its:
                    self[k] = v
            elif is_symbolic_iterable(o):
                raise Unsupported('update from a symbolic iterable')
            else:
                if hasattr(o, 'keys'):
                    for k in o.keys():
                        self[k] = o[k]
                else:
                    for k, v in o:
                        self[k] = v
        for k, v in kw.items():
            self[k] = v

    def clear(self):
        self._t()
        with hashing():
            dict.clear(self)
        self._sym = None
        self._symkeys = False

    def copy(self):
        r = VDict()
        r._vf_restore(self._vf_save())
        return r

    def _items(self):
        with hashing():
            its = [(k, v) for k, v in dict.items(self)]
        if self._sym is not None:
            raise Unsupported('enumerating a symbolic dict')
        return its

    def vf_keys(self):
        if self._sym is not None:
            with hashing():
                if not dict.__len__(self) and self._sym.n is not None:
                    return sym_seq(self._sym.n, self._sym.key, 'list')
            raise Unsupported('enumerating a modified symbolic dict')
        return VList([k for k, _ in self._items()])

    def vf_items(self):
        if self._sym is not None:
            with hashing():
                if not dict.__len__(self) and self._sym.n is not None:
                    b = self._sym
                    return sym_seq(b.n, lambda i: (b.key(i), b.at(i)), 'list')
            raise Unsupported('enumerating a modified symbolic dict')
        return VList([(k, v) for k, v in self._items()])

    def vf_values(self):
        if self._sym is not None:
            with hashing():
                if not dict.__len__(self) and self._sym.n is not None:
                    return sym_seq(self._sym.n, self._sym.at, 'list')
            raise Unsupported('enumerating a modified symbolic dict')
        return VList([v for _, v in self._items()])

    def items(self):
        if self._sym is None and not self._symkeys:
            return dict.items(self)
        return SymView(self, 'items')

    def keys(self):
        if self._sym is None and not self._symkeys:
            return dict.keys(self)
        return SymView(self, 'keys')

    def values(self):
        if self._sym is None and not self._symkeys:
            return dict.values(self)
        return SymView(self, 'values')

    def __iter__(self):
        if self._sym is None:
            return iter([k for k, _ in self._items()])
        return iter(self.vf_keys())

    def vf_len(self):
        with hashing():
            n = dict.__len__(self)
        if self._sym is None:
            return n
        if n == 0 and self._sym.n is not None:
            return self._sym.n
        raise Unsupported('len of a modified symbolic dict')

    def __len__(self):
        n = self.vf_len()
        return n if isinstance(n, int) else n.__index__()

    def __bool__(self):
        return bool(self.vf_len() > 0)

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if self._sym is not None or getattr(o, '_sym', None) is not None:
            if self is o:
                return True
            raise Unsupported('equality of symbolic dicts')
        its = self._items()
        with hashing():
            n2 = dict.__len__(o)
        if len(its) != n2:
            return False
        conds = []
        oo = o if isinstance(o, VDict) else VDict(o)
        for k, v in its:
            w = oo._lookup(k)
            if w is _MISS:
                return False
            conds.append(sym_eq(v, w))
        return And(*conds)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    __hash__ = None

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __ror__(self, o):
        r = VDict(o)
        r.update(self)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def popitem(self):
        its = self._items()
        if not its:
            raise KeyError('popitem(): dictionary is empty')
        k, v = its[-1]
        VDict.__delitem__(self, k)
        return k, v

    def __repr__(self):
        with hashing():
            return dict.__repr__(self)

    @property
    def _vf_symbolic(self):
        return self._sym is not None or self._symkeys

    def __reduce_ex__(self, p):
        if self._sym is None and not self._symkeys:
            return (dict, (list(dict.items(self)),))
        raise Unsupported('pickling a symbolic dict')


_DEL = object()


def _custom_key(k):
    """A key whose class is verified code with its own __eq__ (its hash may be symbolic)."""
    return False


class VDefaultDict(VDict):
    def __init__(self, factory=None, *a, **kw):
        self.default_factory = factory
        VDict.__init__(self, *a, **kw)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        v = self.default_factory()
        if type(v) is list:
            v = VList(v)
        elif type(v) is dict:
            v = VDict(v)
        elif type(v) is set:
            v = VSet(v)
        self[k] = v
        return v

    def copy(self):
        r = VDefaultDict(self.default_factory)
        r._vf_restore(self._vf_save())
        return r


class SymView:
    _vf_sym = True

    def __init__(self, d, kind):
        self.d, self.kind = d, kind

    def seq(self):
        return getattr(self.d, 'vf_' + self.kind)()

    def __iter__(self):
        return iter(self.seq())

    def __len__(self):
        return self.d.__len__()

    def vf_len(self):
        return self.d.vf_len()

    def __contains__(self, x):
        if self.kind == 'keys':
            return x in self.d
        if self.kind == 'values':
            return bool(self.seq().vf_contains(x))
        raise Unsupported('membership in items()')

    def __eq__(self, o):
        if self.kind == 'keys':
            return VSet(self.seq()) == (VSet(materialize(o)))
        return NotImplemented

    __hash__ = None


def sym_dict(name, keykind, val, n=None):
    """Arbitrary dictionary input: n keys key(i) (distinct), values val(i)."""
    e = E()
    n = n if n is not None else SInt(z3.Int(name + '.n'))
    e.assume(n >= 0)
    ks = core.zsort(keykind)
    keyf = z3.Function(name + '.key', z3.IntSort(), ks)
    idx = z3.Function(name + '.idx', ks, z3.IntSort())
    q = z3.Int('dq')
    e.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < iterm(n)), idx(keyf(q)) == q), patterns=[keyf(q)]))

    def has(k):
        kt = core.unwrap(k, keykind if isinstance(keykind, Sort) else None)
        i = idx(kt)
        return mkbool(z3.And(i >= 0, i < iterm(n), keyf(i) == kt))

    def valk(k):
        kt = core.unwrap(k, keykind if isinstance(keykind, Sort) else None)
        return val(mkint(idx(kt)))
    d = VDict()
    cache = {}

    def at(i):
        key = ('i', i) if isinstance(i, int) else ('t', i.t.get_id())
        if key not in cache:
            cache[key] = (i, val(i))
        return cache[key][1]
    d._sym = SymBase(has, lambda k: at(mkint(idx(core.unwrap(k, keykind if isinstance(keykind, Sort) else None)))), n,
                     lambda i: wrap(keyf(iterm(i)), keykind), at)
    return d


# ------------------------------------------------------------------ sets
class SetBase:
    def __init__(self, mem, card=None, seq=None):
        self.mem, self.card, self.seq = mem, card, seq


class VSet(set):
    """set with journaling; symbolic elements canonicalised by forking; `_sym` adds a predicate part."""

    def __init__(self, it=()):
        set.__init__(self)
        self._sym = None
        self._has_symel = False
        self._frozen = False
        self._order = []
        self._vf_stamp = E().new_stamp() if core.ENG else 0
        it = materialize(it)
        if getattr(it, '_vf_seq', False):
            flat = flatten_concrete(it)
            if flat is None:
                s = seq_from_parts(list(seq_parts(it)), 'tuple')
                self._sym = SetBase(lambda x: s.vf_contains(x), set_card(s), s)
                return
            it = flat
        for x in it:
            self._add(x)

    def _vf_save(self):
        with hashing():
            return (self._sym, self._has_symel, list(self._order))

    def _vf_restore(self, st):
        with hashing():
            self._sym, self._has_symel = st[0], st[1]
            self._order = list(st[2])
            set.clear(self)
            for x in self._order:
                set.add(self, x)

    def _t(self):
        if core.ENG:
            core.ENG.touch(self)

    def _find(self, x):
        """(found, canonical)"""
        if not self._has_symel and not has_sym(x):
            return (set.__contains__(self, x), x)
        for y in self._order:
            if y is x:
                return True, y
        for y in self._order:
            r = sym_eq(y, x)
            if r is True:
                return True, y
            if r is False:
                continue
            if r:
                return True, y
        return False, x

    def _add(self, x):
        f, c = self._find(x)
        if not f:
            if has_sym(x):
                self._has_symel = True
            with hashing():
                set.add(self, x)
            self._order.append(x)

    def add(self, x):
        self._t()
        if self._sym is not None and self._sym.card is not None:
            self._sym = SetBase(self._sym.mem, None, None)
        self._add(x)

    def vf_contains(self, x):
        alts = [sym_eq(y, x) for y in self._order]
        if self._sym is not None:
            alts.append(self._sym.mem(x))
        return Or(*alts)

    def __contains__(self, x):
        if self._sym is None and not self._has_symel and not has_sym(x):
            return set.__contains__(self, x)
        return bool(self.vf_contains(x))

    def _mem(self):
        """membership as of now"""
        order, sym = list(self._order), self._sym
        return lambda x: Or(*[sym_eq(y, x) for y in order], *([sym.mem(x)] if sym is not None else []))

    def _only_native(self):
        if self._sym is not None:
            raise Unsupported('operation on a symbolic set')

    def remove(self, x):
        self._t()
        self._only_native()
        f, c = self._find(x)
        if not f:
            raise KeyError(x)
        self._order = [y for y in self._order if y is not c and not (not has_sym(y) and not has_sym(c) and y == c)]
        with hashing():
            set.discard(self, c)

    def discard(self, x):
        self._t()
        self._only_native()
        f, c = self._find(x)
        if f:
            self.remove(c)

    def update(self, *its):
        self._t()
        for it in its:
            it = materialize(it)
            if getattr(it, '_vf_seq', False) and flatten_concrete(it) is None:
                o = VSet(it)
                old = self._sym
                if old is None:
                    self._sym = SetBase(o._sym.mem)
                else:
                    self._sym = SetBase(lambda x, a=old, b=o._sym: Or(a.mem(x), b.mem(x)))
            else:
                for x in (it if not getattr(it, '_vf_seq', False) else flatten_concrete(it)):
                    self._add(x)

    def clear(self):
        self._t()
        self._sym = None
        self._order = []
        with hashing():
            set.clear(self)

    def pop(self):
        self._t()
        self._only_native()
        if not self._order:
            raise KeyError('pop from an empty set')
        x = self._order[0]
        self.remove(x)
        return x

    def vf_aslist(self):
        if self._sym is not None:
            if not self._order and self._sym.seq is not None and getattr(self._sym, 'distinct', False):
                return self._sym.seq
            raise Unsupported('enumerating a symbolic set')
        return VList(self._order)

    def __iter__(self):
        if self._sym is None:
            if not self._has_symel:
                return set.__iter__(self)
            return iter(list(self._order))
        return iter(self.vf_aslist())

    def vf_len(self):
        if self._sym is None:
            return len(self._order)
        if not self._order and self._sym.card is not None:
            return self._sym.card
        raise Unsupported('cardinality of a symbolic set')

    def __len__(self):
        n = self.vf_len()
        return n if isinstance(n, int) else n.__index__()

    def __bool__(self):
        if self._order:
            return True
        if self._sym is None:
            return False
        if self._sym.card is not None:
            return bool(self._sym.card > 0)
        return bool(Not(forall_int(lambda x: Not(self._sym.mem(x)))))

    def _subset_cond(self, o):
        """self ⊆ o"""
        o = VSet.of(o)
        conds = [o.vf_contains(x) for x in self._order]
        if self._sym is not None:
            s = self._sym.seq
            if s is None or any('mem' in p[3] for p in seq_parts(s) if p[0] == 's'):
                mem = self._sym.mem
                return And(*conds, forall_int(lambda x: Implies(mem(x), o.vf_contains(x))))
            for p in seq_parts(s):
                if p[0] == 'c':
                    conds += [o.vf_contains(x) for x in p[1]]
                else:
                    conds.append(mkbool(forall_term(p[1], lambda k, p=p: o.vf_contains(part_get(p, k)))))
        return And(*conds)

    @staticmethod
    def of(o):
        if isinstance(o, VSet):
            return o
        return VSet(o)

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        o = VSet.of(o)
        if self._sym is None and o._sym is None and not self._has_symel and not o._has_symel:
            return set.__eq__(self, o)
        return And(self._subset_cond(o), o._subset_cond(self))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    def issubset(self, o): return self._subset_cond(VSet.of(o))
    def issuperset(self, o): return VSet.of(o)._subset_cond(self)
    def __le__(self, o): return self._subset_cond(o)
    def __ge__(self, o): return VSet.of(o)._subset_cond(self)
    def __lt__(self, o): return And(self._subset_cond(o), Not(VSet.of(o)._subset_cond(self)))
    def __gt__(self, o): return And(VSet.of(o)._subset_cond(self), Not(self._subset_cond(o)))

    def copy(self):
        r = VSet()
        r._vf_restore(self._vf_save())
        return r

    def union(self, *os):
        r = self.copy()
        for o in os:
            r.update(o)
        return r

    def __or__(self, o):
        if not isinstance(o, (set, frozenset)): return NotImplemented
        return self.union(o)
    def __ror__(self, o): return VSet.of(o).union(self)

    def __ior__(self, o):
        self.update(o)
        return self

    def intersection(self, *os):
        r = self
        for o in os:
            o = VSet.of(o)
            if r._sym is None:
                r = VSet([x for x in r._order if o.vf_contains(x)])
            elif o._sym is None:   # r keeps no more than o has
                r = VSet([x for x in o._order if r.vf_contains(x)])
            else:
                a, b = r._mem(), o._mem()
                r = VSet()
                r._sym = SetBase(lambda x, a=a, b=b: And(a(x), b(x)))
        return r

    def __and__(self, o):
        if not isinstance(o, (set, frozenset)): return NotImplemented
        return self.intersection(o)
    def __rand__(self, o): return VSet.of(o).intersection(self)

    def difference(self, *os):
        r = self
        for o in os:
            o = VSet.of(o)
            if r._sym is None:
                r = VSet([x for x in r._order if not o.vf_contains(x)])
            else:
                if r._order:
                    raise Unsupported('difference of a partly symbolic set')
                s = r._sym.seq
                if s is None:
                    raise Unsupported('difference of a predicate set')
                rr = VSet()
                a, b = r._mem(), o._mem()
                base = filtered(seq_len(s), lambda k: Not(b(seq_get(s, k))), lambda k: seq_get(s, k))
                rr._sym = SetBase(lambda x, a=a, b=b: And(a(x), Not(b(x))), set_card(base), base)
                r = rr
        return r

    def __sub__(self, o):
        if not isinstance(o, (set, frozenset)): return NotImplemented
        return self.difference(o)
    def __rsub__(self, o): return VSet.of(o).difference(self)

    def symmetric_difference(self, o):
        return self.difference(o).union(VSet.of(o).difference(self))
    __xor__ = symmetric_difference
    __rxor__ = symmetric_difference

    def _become(self, r):
        self._t()
        self._vf_restore(r._vf_save())
        return self

    def intersection_update(self, *os): self._become(self.intersection(*os))
    def difference_update(self, *os): self._become(self.difference(*os))
    def symmetric_difference_update(self, o): self._become(self.symmetric_difference(o))
    def __iand__(self, o): return self._become(self & o)
    def __isub__(self, o): return self._become(self - o)
    def __ixor__(self, o): return self._become(self ^ o)

    def isdisjoint(self, o):
        o = VSet.of(o)
        if self._sym is None:
            return And(*[Not(o.vf_contains(x)) for x in self._order])
        if o._sym is None:
            return o.isdisjoint(self)
        return forall_int(lambda x: Not(And(self.vf_contains(x), o.vf_contains(x))))

    def __hash__(self):
        if self._frozen:
            return hash(frozenset(set.__iter__(self)))
        raise TypeError("unhashable type: 'set'")

    def __repr__(self):
        return f'<VSet {self._order} {self._sym}>'

    def __reduce_ex__(self, p):
        return (set, (list(self._order),))


def set_card(s):
    """Cardinality of {s[0..n)}."""
    e = E()
    n = seq_len(s)
    c = fresh_int('card')
    e.assume(And(c >= 0, c <= n))
    e.assume(Implies(n >= 1, c >= 1))
    try:
        d = distinct_term(s)
        e.assume(mkbool((c.t == iterm(n)) == d))
    except Unsupported:
        pass
    return c


def distinct_term(s):
    """forall i<j: s[i] != s[j]"""
    ps = seq_parts(s)
    n = seq_len(s)
    i = z3.Int(E().fresh('di'))
    kb_i = forall_term(n, lambda k: mkbool(forall_term(k, lambda j: Not(sym_eq(seq_get(s, j), seq_get(s, k))))))
    return kb_i
