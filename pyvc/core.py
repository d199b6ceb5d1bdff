"""Symbolic execution core.

The verified text is /repo's own source, instrumented mechanically (instr.py) and
executed by CPython itself.  Inputs are proxies holding z3 terms; every branch on a
proxy asks `Engine.decide`, which explores both outcomes by re-execution.
"""
from __future__ import annotations
import itertools, os, subprocess, sys, tempfile, time
import z3

z3.set_param('smt.string_solver', 'seq')


class Control(BaseException):
    """Engine control flow; never caught by verified code."""


class Unsupported(Control):
    """The code left the fragment the engine can reason about."""


class Kill(Control):
    """The current path is infeasible or finished."""


# --------------------------------------------------------------------------- engine
class Oracle:
    def __init__(self):
        self.trace = []   # list of [value, has_alternative]
        self.pos = 0

    def restart(self):
        self.pos = 0

    def next_path(self):
        """Flip the deepest decision that still has an alternative."""
        while self.trace:
            v, alt = self.trace[-1]
            if alt:
                nv = alt.pop(0)
                self.trace[-1] = [nv, alt]
                return True
            self.trace.pop()
        return False


class Frame:
    """Records state of containers/objects mutated since the frame was opened."""

    def __init__(self, start):
        self.start = start
        self.saved = {}   # id -> (obj, state)
        self.reads = set()


class Engine:
    def __init__(self, timeout_ms=10000, branch_timeout_ms=2000, mbqi=True):
        self.solver = z3.Solver()
        self.mbqi = mbqi
        if not mbqi:
            self.solver.set('mbqi', False)
        self.timeout_ms = timeout_ms
        self.branch_timeout_ms = branch_timeout_ms
        self.oracles = []
        self.pc = []
        self.fresh_n = 0
        self.stamp = 0
        self.frames = []
        self.obligations = []      # dicts
        self.solver_time = 0.0
        self.n_checks = 0
        self.max_decisions = 4000
        self.loop_handlers = []
        self.deadline = None
        self.notes = set()
        self.paths = 0
        self.bound = None          # None: unbounded sequences; int: bounded mode
        self.in_sub = 0
        self.decisions_in_path = 0
        self.lemmas = []
        self.cex_first = False
        self.lazy = []
        self.recs = []

    # -- naming
    def fresh(self, base='v'):
        self.fresh_n += 1
        return f'{base}!{self.fresh_n}'

    def new_stamp(self):
        self.stamp += 1
        return self.stamp

    # -- solver
    def check(self, *extra, timeout=None):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of the harness used up')
        t0 = time.time()
        self.solver.set('timeout', timeout or self.branch_timeout_ms)
        r = self.solver.check(*extra)
        self.solver_time += time.time() - t0
        self.n_checks += 1
        return r

    def check_full(self, *extra):
        """from scratch, with the facts kept for obligations"""
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', self.timeout_ms)
        s.set('mbqi', self.mbqi)
        s.add(*self.pc, *self.lazy, *extra)
        r = s.check()
        self.solver_time += time.time() - t0
        self.n_checks += 1
        return r, s

    def assume(self, t):
        if isinstance(t, bool):
            if not t:
                raise Kill('assume false')
            return
        if isinstance(t, Sym):
            t = t.t
        t = z3.simplify(t)
        if z3.is_true(t):
            return
        if z3.is_false(t):
            raise Kill('assume false')
        self.pc.append(t)
        self.solver.add(t)

    def assume_lazy(self, t):
        """A valid fact that is expensive for the solver: used for obligations only, not for branching."""
        self.lazy.append(t)

    def feasible(self):
        return self.check() != z3.unsat

    def decide(self, t):
        """Truth value of z3 term t on this path; forks when undetermined."""
        if isinstance(t, bool):
            return t
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if not self.oracles:
            raise Unsupported('decision outside exploration')
        o = self.oracles[-1]
        if o.pos < len(o.trace):
            v = o.trace[o.pos][0]
            o.pos += 1
            self.assume(t if v else z3.Not(t))
            return v
        self.decisions_in_path += 1
        if self.decisions_in_path > self.max_decisions:
            raise Unsupported('too many decisions on one path')
        rt = self.check(t)
        rf = self.check(z3.Not(t))
        if rt == z3.unsat and rf == z3.unsat:
            raise Kill('infeasible path')
        if rt == z3.unsat:
            v, alt = False, []
        elif rf == z3.unsat:
            v, alt = True, []
        else:
            v, alt = True, [False]
        o.trace.append([v, alt])
        o.pos += 1
        self.assume(t if v else z3.Not(t))
        return v

    def choose(self, n):
        """Nondeterministic choice 0..n-1 (all explored)."""
        if n <= 0:
            raise Kill('empty choice')
        if n == 1:
            return 0
        o = self.oracles[-1]
        if o.pos < len(o.trace):
            v = o.trace[o.pos][0]
            o.pos += 1
            return v
        o.trace.append([0, list(range(1, n))])
        o.pos += 1
        return 0

    # -- mutation journal
    def touch(self, obj):
        """Call before mutating obj (a journaled container or object)."""
        if not self.frames:
            return
        st = getattr(obj, '_vf_stamp', None)
        if st is None:
            st = -1
        for fr in reversed(self.frames):
            if st <= fr.start and id(obj) not in fr.saved:
                fr.saved[id(obj)] = (obj, save_state(obj))

    def read(self, obj):
        for fr in self.frames:
            fr.reads.add(id(obj))

    def rollback(self, fr):
        for obj, st in fr.saved.values():
            restore_state(obj, st)

    # -- sub-exploration: run fn() on all its paths from the current state
    def explore(self, fn, keep_effects=False):
        """Returns list of outcomes: dict(pc, kind, value, effects, frame)."""
        res = []
        o = Oracle()
        depth_pc = len(self.pc)
        self.in_sub += 1
        fresh0 = self.fresh_n
        try:
            while True:
                o.restart()
                self.oracles.append(o)
                self.solver.push()
                fr = Frame(self.stamp)
                self.frames.append(fr)
                out = None
                try:
                    try:
                        v = fn()
                        out = dict(kind='val', value=v)
                    except Kill:
                        out = None
                    except Control:
                        raise
                    except Exception as e:  # program exception
                        out = dict(kind='exc', value=e)
                    if out is not None and not self.feasible():
                        out = None
                    if out is not None:
                        out['pc'] = list(self.pc[depth_pc:])
                        out['reads'] = set(fr.reads)
                        out['effects'] = [(ob, st, save_state(ob)) for ob, st in fr.saved.values()]
                        res.append(out)
                finally:
                    self.rollback(fr)
                    self.frames.pop()
                    self.solver.pop()
                    del self.pc[depth_pc:]
                    self.oracles.pop()
                if not o.next_path():
                    break
                if len(res) > 400:
                    raise Unsupported('too many paths in a loop body')
        finally:
            self.in_sub -= 1
        return res

    # -- obligations
    def prove(self, label, cond, info=None):
        """Obligation: cond holds on the current path.  Continues assuming it."""
        if isinstance(cond, Sym):
            cond = truth_term(cond)
        rec = dict(label=label, status=None)
        if isinstance(cond, bool) or not z3.is_expr(cond):
            ok = bool(cond)
            t = z3.BoolVal(ok)
        else:
            t = cond
        t0 = time.time()
        neg = z3.Not(t)
        if z3.is_true(z3.simplify(t)):
            rec.update(status='discharged', backend='simplifier')
        else:
            r = self.check(neg, timeout=self.timeout_ms if not self.lazy else max(1000, self.timeout_ms // 4))
            sv = self.solver
            if r != z3.unsat and self.lazy:
                r, sv = self.check_full(neg)
            if r == z3.unsat:
                rec.update(status='discharged', backend='z3')
            elif r == z3.sat:
                m = sv.model()
                rec.update(status='refuted', backend='z3', model=m)
            else:
                rr = self.cvc5(neg)
                if rr == 'unsat':
                    rec.update(status='discharged', backend='cvc5')
                else:
                    rec.update(status='unknown', backend='z3+cvc5', reason=str(self.solver.reason_unknown()))
        rec['time'] = round(time.time() - t0, 4)
        if rec['status'] != 'discharged':
            rec['formula'] = str(z3.simplify(t))[:2000]
            rec['pc'] = [str(p)[:400] for p in self.pc][:60]
            if info is not None:
                rec['info'] = str(info)[:1000]
        self.obligations.append(rec)
        if rec['status'] != 'discharged':
            # keep going under the assumption, so that later obligations are independent
            if z3.is_false(z3.simplify(t)):
                raise Kill('obligation refuted on this path')
            self.assume(t)
        return rec['status'] == 'discharged'

    def cvc5(self, neg):
        try:
            s = z3.Solver()
            for p in self.pc + self.lazy:
                s.add(p)
            s.add(neg)
            txt = '(set-logic ALL)\n' + s.to_smt2()
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
                f.write(txt)
            t = max(2, self.timeout_ms // 1000)
            p = subprocess.run(['cvc5', '--strings-exp', f'--tlimit={t*1000}', f.name],
                               capture_output=True, text=True, timeout=t + 5)
            return p.stdout.strip().split('\n')[0] if p.stdout else 'unknown'
        except Exception:
            return 'unknown'
        finally:
            try:
                os.unlink(f.name)
            except Exception:
                pass


ENG: Engine = None  # current engine


def eng() -> Engine:
    return ENG


def set_engine(e):
    global ENG
    ENG = e


# --------------------------------------------------------------------------- journaled state
def save_state(obj):
    f = getattr(obj, '_vf_save', None)
    if f is not None and not isinstance(obj, type):
        return f()
    if isinstance(obj, list):
        return list(obj)
    d = getattr(obj, '__dict__', None)
    if d is not None and not isinstance(obj, type):
        return dict(d)
    if isinstance(obj, type):
        return dict(vars(obj))
    # slots
    st = {}
    for c in type(obj).__mro__:
        for s in getattr(c, '__slots__', ()):
            if hasattr(obj, s):
                st[s] = getattr(obj, s)
    return st


def restore_state(obj, st):
    f = getattr(obj, '_vf_restore', None)
    if f is not None and not isinstance(obj, type):
        return f(st)
    if isinstance(obj, list):
        list.__setitem__(obj, slice(None), st)
        return
    d = getattr(obj, '__dict__', None)
    if isinstance(obj, type):
        for k in list(vars(obj)):
            if k not in st:
                type.__delattr__(obj, k)
        for k, v in st.items():
            if vars(obj).get(k, None) is not v:
                type.__setattr__(obj, k, v)
        return
    if d is not None:
        d.clear()
        d.update(st)
        return
    for k, v in st.items():
        object.__setattr__(obj, k, v)


# --------------------------------------------------------------------------- proxies
class Sym:
    __slots__ = ('t',)
    _vf_sym = True

    def __init__(self, t):
        self.t = t

    def __hash__(self):
        if _hash_ok[0]:
            return id(self) >> 4
        raise Unsupported(f'native hash of a symbolic {type(self).__name__}')

    def __repr__(self):
        return f'<{type(self).__name__} {self.t}>'

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported('pickling a symbolic value')


_hash_ok = [0]


class hashing:
    def __enter__(self):
        _hash_ok[0] += 1

    def __exit__(self, *a):
        _hash_ok[0] -= 1


def mkbool(t):
    if isinstance(t, bool):
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def bterm(x):
    """z3 Bool of a python bool / SBool."""
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, Sym):
        return truth_term(x)
    if z3.is_expr(x):
        return x
    return z3.BoolVal(bool(x))


def truth_term(x):
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, SInt):
        return x.t != 0
    if isinstance(x, SStr):
        return z3.Length(x.t) > 0
    if isinstance(x, bool):
        return z3.BoolVal(x)
    return z3.BoolVal(bool(x))


def _cb(x):
    """concrete truth value or None"""
    return x if isinstance(x, bool) else None


def And(*xs):
    rest = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
        else:
            rest.append(x)
    if not rest:
        return True
    return mkbool(z3.And(*[bterm(x) for x in rest])) if len(rest) > 1 else mkbool(bterm(rest[0]))


def Or(*xs):
    rest = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
        else:
            rest.append(x)
    if not rest:
        return False
    return mkbool(z3.Or(*[bterm(x) for x in rest])) if len(rest) > 1 else mkbool(bterm(rest[0]))


def Not(x):
    if not isinstance(x, Sym) and not z3.is_expr(x):
        return not x
    return mkbool(z3.Not(bterm(x)))


def Implies(a, b):
    if isinstance(a, bool):
        return (b if isinstance(b, bool) else mkbool(bterm(b))) if a else True
    if isinstance(b, bool) and b:
        return True
    return mkbool(z3.Implies(bterm(a), bterm(b)))


def Iff(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    return mkbool(bterm(a) == bterm(b))


class SBool(Sym):
    __slots__ = ()

    def __bool__(self):
        return ENG.decide(self.t)

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(self.t == bterm(o))
        if isinstance(o, (int, SInt)):
            return SInt(z3.If(self.t, 1, 0)) == o
        return NotImplemented if isinstance(o, Sym) else False

    def __ne__(self, o):
        return Not(self == o)

    __hash__ = Sym.__hash__

    def __and__(self, o):
        if isinstance(o, (bool, SBool)):
            return And(self, o)
        return self._int() & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SBool)):
            return Or(self, o)
        return NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(z3.Xor(self.t, bterm(o)))
        return NotImplemented
    __rxor__ = __xor__

    def _int(self):
        return SInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._int() + o

    __radd__ = __add__

    def __sub__(self, o): return self._int() - o
    def __rsub__(self, o): return o - self._int()
    def __mul__(self, o): return self._int() * o
    __rmul__ = __mul__
    def __lt__(self, o): return self._int() < o
    def __le__(self, o): return self._int() <= o
    def __gt__(self, o): return self._int() > o
    def __ge__(self, o): return self._int() >= o

    def __index__(self):
        return 1 if self else 0

    __int__ = __index__


def isfin(o):
    return type(o) is float and o - o == 0


def fterm(o):
    import fractions
    f = fractions.Fraction(o)
    return z3.Q(f.numerator, f.denominator)


def iterm(x):
    if isinstance(x, SInt):
        return x.t
    if isinstance(x, SBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if hasattr(x, '__index__') and not isinstance(x, Sym):
        return z3.IntVal(x.__index__())
    raise Unsupported(f'int term of {type(x)}')


def isnum(x):
    return isinstance(x, (int, SInt, SBool))


def mkint(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SInt(t)


class SInt(Sym):
    __slots__ = ()

    def __bool__(self):
        return ENG.decide(self.t != 0)

    def __eq__(self, o):
        if isnum(o):
            return mkbool(self.t == iterm(o))
        if isinstance(o, float):
            if o == int(o):
                return mkbool(self.t == int(o))
            return False
        return NotImplemented if isinstance(o, Sym) else False

    def __ne__(self, o):
        return Not(self == o)

    __hash__ = Sym.__hash__

    def _bin(self, o, f):
        if not isnum(o):
            return NotImplemented
        return mkint(f(self.t, iterm(o)))

    def _rbin(self, o, f):
        if not isnum(o):
            return NotImplemented
        return mkint(f(iterm(o), self.t))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._rbin(o, lambda a, b: a + b)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._rbin(o, lambda a, b: a - b)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str, bytes)) or getattr(o, '_vf_seq', False):
            return repeat(o, self)
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__
    def __neg__(self): return mkint(-self.t)
    def __pos__(self): return self
    def __abs__(self): return mkint(z3.If(self.t >= 0, self.t, -self.t))

    def _divmod(self, a, b, which):
        # Python floor semantics
        if not isinstance(b, Sym) and isinstance(b, int):
            if b == 0:
                raise ZeroDivisionError('integer modulo by zero')
            if b > 0:
                return mkint(iterm(a) / b) if which == 'd' else mkint(iterm(a) % b)
        else:
            if b == 0:
                raise ZeroDivisionError('integer modulo by zero')
            if b > 0:
                return mkint(iterm(a) / iterm(b)) if which == 'd' else mkint(iterm(a) % iterm(b))
        na, nb = -a, -b   # b<0: a//b == (-a)//(-b), a%b == -((-a)%(-b))
        r = self._divmod(na, nb, which)
        return r if which == 'd' else -r

    def __floordiv__(self, o):
        return self._divmod(self, o, 'd') if isnum(o) else NotImplemented

    def __rfloordiv__(self, o):
        return self._divmod(o, self, 'd') if isnum(o) else NotImplemented

    def __mod__(self, o):
        return self._divmod(self, o, 'm') if isnum(o) else NotImplemented

    def __rmod__(self, o):
        return self._divmod(o, self, 'm') if isnum(o) else NotImplemented

    def __divmod__(self, o):
        return (self // o, self % o)

    def __lshift__(self, o):
        if isinstance(o, int):
            return self * (1 << o)
        raise Unsupported('symbolic shift')

    def __rshift__(self, o):
        if isinstance(o, int):
            return self // (1 << o)
        raise Unsupported('symbolic shift')

    def __rlshift__(self, o):
        # o << self : power of two function
        return o * pow2(self)

    def __and__(self, o):
        if isinstance(o, int) and not isinstance(o, bool) and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        if isinstance(o, SInt):         # some function of both
            return mkint(z3.Function('bits.and', z3.IntSort(), z3.IntSort(), z3.IntSort())(self.t, o.t))
        raise Unsupported('symbolic bitwise and')
    __rand__ = __and__

    def __xor__(self, o): raise Unsupported('symbolic bitwise xor')
    __rxor__ = __xor__
    def __or__(self, o): raise Unsupported('symbolic bitwise or')
    __ror__ = __or__

    def __truediv__(self, o): raise Unsupported('symbolic true division')
    __rtruediv__ = __truediv__

    def __pow__(self, o): raise Unsupported('symbolic power')

    def __rpow__(self, o):
        if o == 2:
            return pow2(self)
        raise Unsupported('symbolic power')

    def __lt__(self, o): return mkbool(self.t < iterm(o)) if isnum(o) else mkbool(z3.ToReal(self.t) < fterm(o)) if isfin(o) else NotImplemented
    def __le__(self, o): return mkbool(self.t <= iterm(o)) if isnum(o) else mkbool(z3.ToReal(self.t) <= fterm(o)) if isfin(o) else NotImplemented
    def __gt__(self, o): return mkbool(self.t > iterm(o)) if isnum(o) else mkbool(z3.ToReal(self.t) > fterm(o)) if isfin(o) else NotImplemented
    def __ge__(self, o): return mkbool(self.t >= iterm(o)) if isnum(o) else mkbool(z3.ToReal(self.t) >= fterm(o)) if isfin(o) else NotImplemented

    def __index__(self):
        v = concrete_int(self)
        if v is None:
            raise Unsupported('symbolic integer used where a machine integer is needed')
        return v
    __int__ = __index__

    def bit_length(self): raise Unsupported('bit_length of a symbolic int')


POW2 = z3.Function('pow2', z3.IntSort(), z3.IntSort())


def pow2(n):
    if isinstance(n, int):
        return 1 << n
    t = POW2(n.t)
    ENG.assume(z3.Implies(n.t >= 0, t >= 1))
    ENG.assume(POW2(z3.IntVal(0)) == 1)
    ENG.assume(z3.Implies(n.t >= 1, t == 2 * POW2(n.t - 1)))
    return SInt(t)


def concrete_int(x):
    """The only value x can have on this path, or None."""
    if isinstance(x, int):
        return x
    if ENG.check(z3.BoolVal(True)) != z3.sat:
        return None
    v = ENG.solver.model().eval(x.t, model_completion=True)
    if ENG.check(x.t != v) == z3.unsat:
        return v.as_long()
    return None


# ---- strings
def sterm(x):
    if isinstance(x, SStr):
        return x.t
    if isinstance(x, str):
        return z3.StringVal(x)
    raise Unsupported(f'string term of {type(x)}')


def mkstr(t):
    t = z3.simplify(t)
    if z3.is_string_value(t):
        return zstr(t)
    return SStr(t)


def zstr(t):
    s = t.as_string()
    import re
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)


def _suf(name, t, arg):
    """String function of (t, arg): the same call gives the same term."""
    f = z3.Function(f'str.{name}', z3.StringSort(), z3.StringSort(), z3.StringSort())
    return SStr(f(t, sterm(arg)))


def isstr(x):
    return isinstance(x, (str, SStr))


def str_parts(t):
    """Flattened concatenation: ('lit', text) | ('its', int term) | ('t', term)."""
    out = []

    def go(u):
        if z3.is_string_value(u):
            x = zstr(u)
            if x:
                if out and out[-1][0] == 'lit':
                    out[-1] = ('lit', out[-1][1] + x)
                else:
                    out.append(('lit', x))
        elif u.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            for c in u.children():
                go(c)
        elif u.decl().kind() == z3.Z3_OP_INT_TO_STR or u.decl().name() == 'int.to.str' or u.decl().name() == 'str.from_int':
            out.append(('its', u.arg(0)))
        else:
            out.append(('t', u))
    go(t)
    return out


def _nolit(L):
    return [x for x in L if not (x[0] == 'lit' and x[1] == '')]


def str_term(L):
    ts = [z3.StringVal(v) if k == 'lit' else (z3.IntToStr(v) if k == 'its' else v) for k, v in L]
    return z3.StringVal('') if not ts else (ts[0] if len(ts) == 1 else z3.Concat(*ts))


def _digits_end(rest):
    """The text after a decimal number cannot continue it."""
    return not rest or (rest[0][0] == 'lit' and not rest[0][1][0].isdigit())


def _digits_begin(rest):
    return not rest or (rest[-1][0] == 'lit' and not rest[-1][1][-1].isdigit())


def str_eq(a, b):
    """a == b, simplified by unambiguous parsing of decimal numbers (every IntToStr argument is known non-negative)."""
    P, Q = str_parts(a), str_parts(b)
    conj = []
    F = z3.BoolVal(False)
    changed = True
    while changed and P and Q:
        changed = False
        for side in (0, 1):
            if not P or not Q:
                break
            i = 0 if side == 0 else -1
            x, y = P[i], Q[i]
            if x[0] == 'lit' and y[0] == 'lit':
                u, v = x[1], y[1]
                n = min(len(u), len(v))
                if side == 0:
                    if u[:n] != v[:n]:
                        return F
                    ru, rv = u[n:], v[n:]
                else:
                    if u[-n:] != v[-n:]:
                        return F
                    ru, rv = u[:-n], v[:-n]
                for L, r in ((P, ru), (Q, rv)):
                    if r:
                        L[i] = ('lit', r)
                    else:
                        L.pop(i)
                changed = True
                continue
            if x[0] == y[0] and x[0] != 'lit' and x[1].eq(y[1]):
                P.pop(i); Q.pop(i)
                changed = True
                continue
            rp, rq = (P[1:], Q[1:]) if side == 0 else (P[:-1], Q[:-1])
            okp = _digits_end(rp) if side == 0 else _digits_begin(rp)
            okq = _digits_end(rq) if side == 0 else _digits_begin(rq)
            if x[0] == 'its' and y[0] == 'its' and okp and okq:
                conj.append(x[1] == y[1])
                P, Q = rp, rq
                changed = True
                continue
            if x[0] == 'lit' and y[0] == 'its':
                P, Q, x, y, rp, rq, okp, okq = Q, P, y, x, rq, rp, okq, okp
            if x[0] == 'its' and y[0] == 'lit' and okp:
                s = y[1]
                k = 0
                if side == 0:
                    while k < len(s) and s[k] in '0123456789':
                        k += 1
                    d, r = s[:k], s[k:]
                    whole = k == len(s)
                else:
                    while k < len(s) and s[len(s) - 1 - k] in '0123456789':
                        k += 1
                    d, r = s[len(s) - k:], s[:len(s) - k]
                    whole = k == len(s)
                if k == 0:
                    return F
                if whole and rq:
                    continue            # the number may extend into the next part
                if len(d) > 1 and d[0] == '0' and side == 0:
                    return F
                if side == 1 and len(d) > 1 and d[0] == '0':
                    return F
                conj.append(x[1] == z3.IntVal(int(d)))
                P = rp
                Q = rq if not r else ([('lit', r)] + rq if side == 0 else rq + [('lit', r)])
                changed = True
                continue

    tm = str_term
    for L, M_ in ((P, Q), (Q, P)):
        if not L and any(k in ('its',) or (k == 'lit' and v) for k, v in M_):
            return F
    if P or Q:
        conj.append(tm(P) == tm(Q))
    return z3.And(*conj) if conj else z3.BoolVal(True)


class SStr(Sym):
    __slots__ = ()

    def __bool__(self):
        return ENG.decide(z3.Length(self.t) > 0)

    def __eq__(self, o):
        if isstr(o):
            return mkbool(str_eq(self.t, sterm(o)))
        return NotImplemented if isinstance(o, Sym) else False

    def __ne__(self, o): return Not(self == o)
    __hash__ = Sym.__hash__

    def __add__(self, o):
        return mkstr(z3.Concat(self.t, sterm(o))) if isstr(o) else NotImplemented

    def __radd__(self, o):
        return mkstr(z3.Concat(sterm(o), self.t)) if isstr(o) else NotImplemented

    def __contains__(self, o):
        return ENG.decide(z3.Contains(self.t, sterm(o)))

    def vf_contains(self, o):
        if not isstr(o):
            raise TypeError("'in <string>' requires string as left operand")
        if isinstance(o, str) and any(k == 'lit' and o in v for k, v in str_parts(self.t)):
            return True
        return mkbool(z3.Contains(self.t, sterm(o)))

    def __lt__(self, o): return mkbool(self.t < sterm(o)) if isstr(o) else NotImplemented
    def __le__(self, o): return mkbool(self.t <= sterm(o)) if isstr(o) else NotImplemented
    def __gt__(self, o): return mkbool(sterm(o) < self.t) if isstr(o) else NotImplemented
    def __ge__(self, o): return mkbool(sterm(o) <= self.t) if isstr(o) else NotImplemented

    def vf_len(self): return mkint(z3.Length(self.t))
    def __len__(self): return self.vf_len().__index__()

    def startswith(self, p, *a):
        if a: raise Unsupported('startswith with bounds')
        if isinstance(p, tuple):
            return Or(*[self.startswith(q) for q in p])
        A, B = str_parts(self.t), str_parts(sterm(p))
        while A and B:
            x, y = A[0], B[0]
            if x[0] == y[0] and x[0] != 'lit' and x[1].eq(y[1]) and (x[0] != 'its' or (_digits_end(A[1:]) and _digits_end(B[1:]) and B[1:])):
                A, B = A[1:], B[1:]
                continue
            if x[0] == 'lit' and y[0] == 'lit':
                n = min(len(x[1]), len(y[1]))
                if x[1][:n] != y[1][:n]:
                    return False
                A = ([('lit', x[1][n:])] if x[1][n:] else []) + A[1:]
                B = ([('lit', y[1][n:])] if y[1][n:] else []) + B[1:]
                continue
            break
        if not B:
            return True
        return mkbool(z3.PrefixOf(str_term(B), str_term(A)))

    def endswith(self, p, *a):
        if a: raise Unsupported('endswith with bounds')
        if isinstance(p, tuple):
            return Or(*[self.endswith(q) for q in p])
        return mkbool(z3.SuffixOf(sterm(p), self.t))

    def _lit_find(self, sep):
        """Split syntactically at the first occurrence of sep when that is certain: (before, after) terms or None."""
        parts = str_parts(self.t)
        if isinstance(sep, str) and parts and parts[0][0] == 'lit' and sep in parts[0][1]:
            i = parts[0][1].index(sep)
            return (parts[0][1][:i], [('lit', parts[0][1][i + len(sep):])] + parts[1:])
        return None

    def partition(self, sep):
        lf = self._lit_find(sep)
        if lf is not None:
            return (lf[0], sep, mkstr(str_term(_nolit(lf[1]))))
        if self.vf_contains(sep):
            a, b = _suf('part', self.t, sep), _suf('rest', self.t, sep)
            st = sterm(sep)
            ENG.assume(self.t == z3.Concat(a.t, st, b.t))
            # first occurrence: sep does not occur in a + sep minus its last character
            if isinstance(sep, str) and len(sep) >= 1:
                head = z3.Concat(a.t, z3.StringVal(sep[:-1])) if len(sep) > 1 else a.t
                ENG.assume_lazy(z3.Not(z3.Contains(head, st)))
            return (a, sep, b)
        return (self, '', '')

    def rpartition(self, sep):
        parts = str_parts(self.t)
        if isinstance(sep, str) and parts and parts[-1][0] == 'lit' and sep in parts[-1][1]:
            i = parts[-1][1].rindex(sep)
            return (mkstr(str_term(_nolit(parts[:-1] + [('lit', parts[-1][1][:i])]))), sep, parts[-1][1][i + len(sep):])
        if self.vf_contains(sep):
            a, b = _suf('rpart', self.t, sep), _suf('rrest', self.t, sep)
            st = sterm(sep)
            ENG.assume(self.t == z3.Concat(a.t, st, b.t))
            if isinstance(sep, str) and len(sep) >= 1:
                tail = z3.Concat(z3.StringVal(sep[1:]), b.t) if len(sep) > 1 else b.t
                ENG.assume_lazy(z3.Not(z3.Contains(tail, st)))
            return (a, sep, b)
        return ('', '', self)

    def split(self, sep=None, maxsplit=-1):
        if sep is not None and maxsplit == 1:
            a, s, b = self.partition(sep)
            from .containers import VList
            return VList([a, b]) if s != '' else VList([a])
        raise Unsupported('str.split')

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is not None and maxsplit == 1:
            a, s, b = self.rpartition(sep)
            from .containers import VList
            return VList([a, b]) if s != '' else VList([b])
        raise Unsupported('str.rsplit')

    def lstrip(self, chars=None):
        if not isinstance(chars, str) or len(chars) != 1:
            raise Unsupported('str.lstrip')
        a, r = _suf('lstripped', self.t, chars), _suf('lstrip', self.t, chars)
        ENG.assume(self.t == z3.Concat(a.t, r.t))
        ENG.assume(z3.InRe(a.t, z3.Star(z3.Re(chars))))
        ENG.assume(z3.Not(z3.PrefixOf(z3.StringVal(chars), r.t)))
        return r

    def rstrip(self, chars=None):
        if not isinstance(chars, str) or len(chars) != 1:
            raise Unsupported('str.rstrip')
        a, r = _suf('rstripped', self.t, chars), _suf('rstrip', self.t, chars)
        ENG.assume(self.t == z3.Concat(r.t, a.t))
        ENG.assume(z3.InRe(a.t, z3.Star(z3.Re(chars))))
        ENG.assume(z3.Not(z3.SuffixOf(z3.StringVal(chars), r.t)))
        return r

    def removeprefix(self, p):
        if self.startswith(p):
            n = z3.Length(sterm(p))
            return mkstr(z3.SubString(self.t, n, z3.Length(self.t) - n))
        return self

    def removesuffix(self, p):
        if self.endswith(p):
            return mkstr(z3.SubString(self.t, 0, z3.Length(self.t) - z3.Length(sterm(p))))
        return self

    def encode(self, enc='utf-8', errors='strict'):
        from .sbytes import utf8_encode
        return utf8_encode(self)

    def find(self, s, *a):
        if a: raise Unsupported('str.find bounds')
        return mkint(z3.IndexOf(self.t, sterm(s), 0))

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step not in (None, 1): raise Unsupported('string slice step')
            n = self.vf_len()
            a, b = norm_slice(i.start, i.stop, n)
            return mkstr(z3.SubString(self.t, iterm(a), iterm(b) - iterm(a)))
        n = self.vf_len()
        if i < 0:
            i = i + n
        if i < 0 or i >= n:
            raise IndexError('string index out of range')
        return mkstr(z3.SubString(self.t, iterm(i), 1))

    def __iter__(self): raise Unsupported('iterating a symbolic string')

    def _cased(self, how):
        # an arbitrary function of the text, except on constants
        if z3.is_string_value(self.t):
            return getattr(zstr(self.t), how)()
        return SStr(z3.Function('str.' + how, z3.StringSort(), z3.StringSort())(self.t))

    def lower(self): return self._cased('lower')
    def upper(self): return self._cased('upper')
    def casefold(self): return self._cased('casefold')

    def strip(self, *a):
        if a: raise Unsupported('strip of given characters')
        return self._cased('strip')

    def __format__(self, spec):
        raise Unsupported('native format of a symbolic string')

    def __str__(self):
        raise Unsupported('native str() of a symbolic string')

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        if hasattr(str, name):
            raise Unsupported(f'str.{name} on a symbolic string')
        raise AttributeError(f"'str' object has no attribute '{name}'")


def norm_slice(a, b, n):
    """Python slice bounds clamped to [0,n]; forks."""
    if a is None:
        a = 0
    elif a < 0:
        a = a + n
        if a < 0:
            a = 0
    elif a > n:
        a = n
    if b is None:
        b = n
    elif b < 0:
        b = b + n
        if b < 0:
            b = 0
    elif b > n:
        b = n
    if b < a:
        b = a
    return a, b


def ENG_fresh_str(base):
    return SStr(z3.String(ENG.fresh(base)))


def fresh_int(base='i'):
    return SInt(z3.Int(ENG.fresh(base)))


def fresh_bool(base='b'):
    return SBool(z3.Bool(ENG.fresh(base)))


# ---- opaque values
class Sort:
    """A family of opaque values with an attribute schema."""
    _all = {}

    def __init__(self, name, attrs=None, pytype=None, methods=None, call=None, truth=None, axiom=None, classes=(), setters=None):
        self.name = name
        self.setters = setters or {}
        self.z = z3.DeclareSort(name)
        self.attrs = attrs or {}
        self.methods = methods or {}
        self.call = call
        self.truth = truth
        self.pytypes = tuple(pytype) if isinstance(pytype, (tuple, list)) else ((pytype,) if pytype else ())
        self.axiom = axiom
        Sort._all[name] = self

    def fn(self, name, out):
        return z3.Function(f'{self.name}.{name}', self.z, zsort(out))

    def const(self, name):
        v = SVal(z3.Const(name, self.z), self)
        return v

    def fresh(self, base=None):
        return self.const(ENG.fresh(base or self.name))


def zsort(k):
    if isinstance(k, Sort):
        return k.z
    if k in ('int', int):
        return z3.IntSort()
    if k in ('bool', bool):
        return z3.BoolSort()
    if k in ('str', str):
        return z3.StringSort()
    if z3.is_sort(k):
        return k
    raise TypeError(k)


def wrap(t, kind):
    """Python-level proxy of z3 term t of the given kind."""
    if isinstance(kind, Sort):
        return SVal(t, kind)
    if kind in ('int', int):
        return mkint(t)
    if kind in ('bool', bool):
        return mkbool(t)
    if kind in ('str', str):
        return mkstr(t)
    raise TypeError(kind)


def unwrap(x, kind=None):
    if isinstance(kind, Sort):
        if isinstance(x, SVal):
            return x.t
        raise Unsupported(f'{x!r} is not of sort {kind.name}')
    if isinstance(x, (bool, SBool)):
        return bterm(x)
    if isinstance(x, (int, SInt)):
        return iterm(x)
    if isinstance(x, (str, SStr)):
        return sterm(x)
    if isinstance(x, SVal):
        return x.t
    if getattr(x, '_vf_term', None) is not None:
        return x._vf_term()
    raise Unsupported(f'no term for {type(x)}')


def uf(name, args, kinds, out):
    """Uninterpreted function application on proxies."""
    f = z3.Function(name, *[zsort(k) for k in kinds], zsort(out))
    return wrap(f(*[unwrap(a, k if isinstance(k, Sort) else None) for a, k in zip(args, kinds)]), out)


class SVal(Sym):
    __slots__ = ('sort', '_vf_attrs')

    def __init__(self, t, sort):
        self.t = t
        self.sort = sort
        self._vf_attrs = None

    def __bool__(self):
        if self.sort.truth is not None:
            return bool(self.sort.truth(self))
        raise Unsupported(f'truth value of an opaque {self.sort.name}')

    def __eq__(self, o):
        if isinstance(o, SVal):
            if o.sort is self.sort:
                return mkbool(self.t == o.t)
            return False
        if isinstance(o, Sym):
            return NotImplemented
        return False

    def __ne__(self, o): return Not(self == o)
    __hash__ = Sym.__hash__

    def __getattr__(self, name):
        if name in ('t', 'sort', '_vf_attrs'):
            raise AttributeError(name)
        s = self.sort
        if name in s.attrs:
            spec = s.attrs[name]
            if self._vf_attrs is not None and name in self._vf_attrs:
                return self._vf_attrs[name]
            if callable(spec) and not isinstance(spec, (type, Sort)):
                v = spec(self)
            elif isinstance(spec, (Sort, str, type)) or z3.is_sort(spec):
                v = wrap(s.fn(name, spec)(self.t), spec)
            else:
                v = spec
            return v
        if name in s.methods:
            m = s.methods[name]
            return lambda *a, **k: m(self, *a, **k)
        if name.startswith('__') or name.startswith('_vf') or name.startswith('vf_'):
            raise AttributeError(name)
        raise Unsupported(f'attribute {name} of an opaque {s.name}')

    def __setattr__(self, name, v):
        if name in ('t', 'sort', '_vf_attrs'):
            object.__setattr__(self, name, v)
        elif name in self.sort.setters:
            self.sort.setters[name](self, v)
        else:
            raise Unsupported(f'assignment to attribute {name} of an opaque {self.sort.name}')

    def __call__(self, *a, **k):
        if self.sort.call is None:
            raise Unsupported(f'call of an opaque {self.sort.name}')
        return self.sort.call(self, *a, **k)

    def __iter__(self): raise Unsupported(f'iterating an opaque {self.sort.name}')


def _opq(op):
    def f(self, *a):
        m = self.sort.methods.get(op)
        if m is None:
            raise Unsupported(f'{op} on an opaque {self.sort.name}')
        return m(self, *a)
    return f


for _op in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__floordiv__', '__mod__', '__xor__', '__rxor__', '__or__', '__ror__',
            '__and__', '__rand__', '__invert__', '__lt__', '__le__', '__gt__', '__ge__', '__getitem__', '__len__', '__neg__', '__truediv__', '__rtruediv__',
            '__matmul__', '__enter__', '__exit__', '__lshift__', '__rshift__'):
    setattr(SVal, _op, _opq(_op))


def held(x):
    """x is an object of the code under verification, or of a specification: its attributes are looked into"""
    return type(x).__module__.startswith('mplang') or getattr(type(x), '_vf_ok', False) is True


def has_sym(x, depth=0):
    if isinstance(x, Sym) or getattr(type(x), '_vf_sym', False):
        return True
    if depth > 6:
        return False
    if getattr(x, '_vf_seq', False):
        return True
    if isinstance(x, (set, frozenset)) and getattr(x, '_sym', None) is not None:
        return True
    if isinstance(x, (tuple, list, set, frozenset)):
        with hashing():
            return any(has_sym(e, depth + 1) for e in x)
    if isinstance(x, dict):
        if getattr(x, '_sym', None) is not None:
            return True
        with hashing():
            return any(has_sym(k, depth + 1) or has_sym(v, depth + 1) for k, v in dict.items(x))
    d = getattr(x, '__dict__', None)
    if d and not isinstance(x, type) and held(x):
        return any(has_sym(v, depth + 1) for v in d.values())
    return False


def sym_eq(a, b):
    """Equality as a (possibly symbolic) truth value without forking when possible."""
    if a is b:
        return True
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and not getattr(a, '_vf_seq', False) and not getattr(b, '_vf_seq', False):
        if isinstance(a, tuple) != isinstance(b, tuple):
            return False
        if len(a) != len(b):
            return False
        return And(*[sym_eq(x, y) for x, y in zip(list(a), list(b))])
    fs = generated_eq(a, b)
    if fs is not None:
        return And(*[sym_eq(getattr(a, f), getattr(b, f)) for f in fs]) if type(a) is type(b) else False
    r = a == b
    if isinstance(r, (bool, SBool)):
        return r
    if isinstance(r, Sym):
        return mkbool(truth_term(r))
    return bool(r)


def generated_eq(a, b):
    """the fields compared by the __eq__ a dataclass decorator generated, None for any other comparison"""
    t = type(a)
    q = getattr(t, '__dataclass_fields__', None)
    e = getattr(t, '__eq__', None)
    c = getattr(e, '__code__', None)
    if q is None or c is None or c.co_filename != '<string>' or t.__ne__ is not object.__ne__ or '__dataclass_fields__' not in t.__dict__:
        return None
    if not isinstance(b, t):
        return None
    return [n for n, f in q.items() if f.compare and f._field_type.name == '_FIELD']


def repeat(seq, n):
    v = concrete_int(n) if isinstance(n, SInt) else n
    if v is not None:
        return seq * v
    from .containers import repeat_sym
    return repeat_sym(seq, n)
