"""C05  Graph edits keep use-def information exact and names unique."""
import types
import z3
from pyvc.worker import H
from pyvc import core, containers as C, models as M, loops
from pyvc.core import Sort, SVal, Sym

INSTRUMENT = ['mplang.edsl.graph', 'mplang.edsl.tracer']
ASSUMPTIONS = ['edits go through the methods of Graph and Operation; an operation handed to erase or replace_input satisfied the invariant before']
TRUSTED = ['frame: Value.add_use/remove_use touch only the receiver (their own contract is proved here)']

import vp_without_spu  # noqa: F401
import mplang.edsl.graph as G


class Uses:
    """view of Value.uses restricted to the operation under verification"""
    _vf_sym = True

    def __init__(self, st, v): self.st, self.v = st, v
    def chk(self, op): self.st.env.prove('only the operation itself is registered or removed', op is self.st.op)
    def __setitem__(self, op, _x): self.st.use(self.v, op, True)
    def __delitem__(self, op):
        if not self.st.rel.get(self.v):
            raise KeyError(op)
        self.st.use(self.v, op, False)
    def __contains__(self, op): return bool(self.vf_contains(op))
    def vf_contains(self, op):
        self.chk(op) if self.st.op is not None else None
        return self.st.rel.get(self.v)
    def pop(self, op, *d):
        if not self.st.rel.get(self.v):
            if d: return d[0]
            raise KeyError(op)
        self.st.use(self.v, op, False)
    def setdefault(self, op, d=None): self.st.use(self.v, op, True)


class Refs:
    """Heap of opaque values: users (restricted to one operation) and defining operation."""

    def __init__(self, env, init_rel=None, init_def=None):
        self.env, self.op = env, None
        st = self
        self.VAL = Sort('Value', attrs={'uses': lambda v: Uses(st, v), 'defining_op': lambda v: st.get_def(v), 'type': Sort._all.get('Ty') or Sort('Ty')},
                        methods={'add_use': lambda v, op: st.use(v, op, True), 'remove_use': lambda v, op: st.use(v, op, False)},
                        setters={'defining_op': lambda v, op: st.set_def(v, op)})
        U = z3.Function('rel0', self.VAL.z, z3.BoolSort())
        D = z3.Function('def0', self.VAL.z, z3.IntSort())
        self.rel = C.Heap(init_rel or (lambda v: core.mkbool(U(v.t))), 'bool')
        self.dfn = C.Heap(init_def or (lambda v: core.mkint(D(v.t))), 'int')      # 0: None, 1: this operation, else: another

    def use(self, v, op, b):
        if self.op is None:
            self.op = op
        self.env.prove('only the operation itself is registered or removed', op is self.op)
        self.rel.set(v, b)

    def set_def(self, v, op):
        if op is None:
            self.dfn.set(v, 0)
            return
        if self.op is None:
            self.op = op
        self.env.prove('results point to the operation itself', op is self.op)
        self.dfn.set(v, 1)

    def get_def(self, v):
        d = self.dfn.get(v)
        if d == 0: return None
        if d == 1: return self.op
        return 'another operation'

    def seq(self, name, n):
        f = z3.Function(name, z3.IntSort(), self.VAL.z)
        return self.env.seq(name, lambda k: SVal(f(core.iterm(k)), self.VAL), n=n)

    def val(self, name): return self.VAL.const(name)


def users_exact(env, st, op, label):
    """for an arbitrary value v: v records op  <=>  v is an operand of op"""
    v = st.val('anyv')
    ins = op.inputs
    n = env.len(ins)
    env.prove(label, env.iff(st.rel.get(v), env.exists(n, lambda k: env.eq(env.get(ins, k), v))))


def mk_op(env, st, n, m):
    """an operation with n operands and m results whose invariant holds (built field by field)"""
    op = object.__new__(G.Operation)
    f = z3.Function('in', z3.IntSort(), st.VAL.z)
    ins = st.seq('in', n)
    outs = st.seq('out', m)
    op.__dict__.update(opcode='op', inputs=ins, outputs=outs, attrs=C.VDict(), regions=C.VList(), name='op0')
    return op


def h_create(env):
    """Operation construction: operands record it, results point to it; nothing else changes."""
    st = Refs(env, init_rel=lambda v: False)
    n, m = env.length('n'), env.length('m')
    ins, outs = st.seq('in', n), st.seq('out', m)
    r = env.run(G.Operation, opcode='op', inputs=ins, outputs=outs)
    env.prove('created', r[0] == 'ok', r[1])
    op = r[1]
    st.op = st.op or op
    env.prove('the new operation itself is registered', st.op is op)
    env.prove_seq('operands as given', op.inputs, n, lambda k: env.get(st.seq('in', n), k))
    env.prove_seq('results as given', op.outputs, m, lambda k: env.get(st.seq('out', m), k))
    users_exact(env, st, op, 'users are exactly the operands')
    env.prove('the operand list is its own', op.inputs is not ins)
    for k in env.each('k', m):
        env.prove('result points back to its operation', st.dfn.get(env.get(outs, k)) == 1)
    v = st.val('other')
    d0 = z3.Function('def0', st.VAL.z, z3.IntSort())
    env.prove('other values keep their definition', env.or_(env.exists(m, lambda k: env.eq(env.get(outs, k), v)), st.dfn.get(v) == core.mkint(d0(v.t))))


def inv_rel(env, st, op, n):
    """assume the users invariant of op before the edit"""
    U = z3.Function('rel0', st.VAL.z, z3.BoolSort())
    f = z3.Function('in', z3.IntSort(), st.VAL.z)
    x = z3.Const('invx', st.VAL.z)
    q = z3.Int('invq')
    N = core.iterm(n)
    core.ENG.assume(z3.ForAll([x], U(x) == z3.Exists([q], z3.And(q >= 0, q < N, f(q) == x))))


def h_replace(env):
    """replace_input keeps the users of every value exact, for any operand list (repetitions included)."""
    st = Refs(env)
    n = env.length('n')
    m = env.length('m', hi=1)
    op = mk_op(env, st, n, m)
    if not isinstance(n, int):
        inv_rel(env, st, op, n)
    else:
        ins0 = list(op.inputs)
        st.rel.base = lambda v: env.or_(*[env.eq(x, v) for x in ins0]) if ins0 else False
    st.op = op
    old, new = st.val('old'), st.val('new')
    r = env.run(G.Operation.replace_input, op, old, new)
    env.prove('replaced', r[0] == 'ok', r[1])
    before = st.seq('in', n)
    env.prove('same number of operands', env.eq(env.len(op.inputs), n))
    for k in env.each('k', n):
        b, a = env.get(before, k), env.get(op.inputs, k)
        env.prove('every occurrence is replaced, nothing else', env.and_(env.implies(env.eq(b, old), env.eq(a, new)), env.implies(env.not_(env.eq(b, old)), env.eq(a, b))))
    users_exact(env, st, op, 'users are exactly the operands')


def h_erase(env):
    """erase leaves no value recording the operation as user or definer."""
    st = Refs(env)
    n, m = env.length('n'), env.length('m')
    op = mk_op(env, st, n, m)
    if not isinstance(n, int):
        inv_rel(env, st, op, n)
    else:
        ins0 = list(op.inputs)
        st.rel.base = lambda v: env.or_(*[env.eq(x, v) for x in ins0]) if ins0 else False
    st.op = op
    r = env.run(G.Operation.erase, op)
    env.prove('erased', r[0] == 'ok', r[1])
    env.prove('no value records the erased operation', env.not_(st.rel.get(st.val('anyv'))))
    outs = st.seq('out', m)
    for k in env.each('k', m):
        env.prove('results no longer point to it', st.dfn.get(env.get(outs, k)) == 0)


OP = Sort('OpRef')
TY = Sort('Ty')


def h_uses(env):
    """Value.add_use / remove_use: exactly one entry changes."""
    has = z3.Function('has', OP.z, z3.BoolSort())
    d = C.VDict()
    d._sym = C.SymBase(lambda k: core.mkbool(has(k.t)), lambda k: None)
    d._symkeys = True
    v = G.Value('%0', TY.const('ty'), None, d)
    op, q = OP.const('op'), OP.const('q')
    h0 = core.mkbool(has(q.t))
    if env.choice('method', ['add', 'remove']) == 'add':
        r = env.run(v.add_use, op)
        exp = env.or_(h0, env.eq(q, op))
    else:
        r = env.run(v.remove_use, op)
        exp = env.and_(h0, env.not_(env.eq(q, op)))
    env.prove('no error', r[0] == 'ok', r[1])
    env.prove('exactly this user changes', env.iff(env.contains(v.uses, q), exp))


def graph(env):
    """A graph with an arbitrary name table and counters."""
    g = G.Graph()
    has = z3.Function('has', z3.StringSort(), z3.BoolSort())
    VAL = Sort('GValue', attrs={'name': str, 'type': TY})
    val = z3.Function('val', z3.StringSort(), VAL.z)
    d = C.VDict()
    d._sym = C.SymBase(lambda k: core.mkbool(has(core.sterm(k))), lambda k: SVal(val(core.sterm(k)), VAL))
    d._symkeys = True
    g.values = d
    g._value_counter = env.int('counter', lo=0)
    g._op_counter = env.int('opc', lo=0)
    n = env.length('ins')
    f = z3.Function('gin', z3.IntSort(), VAL.z)
    g.inputs = env.seq('gin', lambda k: SVal(f(core.iterm(k)), VAL), n=n)
    return g, (lambda k: core.mkbool(has(core.sterm(k)))), VAL, n, val


def h_value(env):
    """add_value / add_input: a new name is added, a taken one refused; other entries untouched."""
    g, has, VAL, n, val = graph(env)
    env.bind(g, '_value_counter')
    loops.SYM_WHILE[:] = [1]
    ty = TY.const('ty')
    how = env.choice('how', ['auto', 'named', 'input'])
    name = env.str('name')
    x = env.str('x')
    pre = has(x)
    oldx = SVal(val(x.t), VAL)
    taken = has(name)
    r = env.run(g.add_value, ty) if how == 'auto' else env.run(g.add_value, ty, name) if how == 'named' else env.run(g.add_input, name, ty)
    if r[0] == 'exc':
        env.prove('a taken name is an error', isinstance(r[1], ValueError))
        if how != 'auto':
            env.prove('only taken names are refused', taken)
        env.prove('a refused name changes nothing', env.and_(env.iff(env.contains(g.values, x), pre), env.eq(env.len(g.inputs), n)))
        return
    v = r[1]
    env.prove('a value is returned', type(v) is G.Value and v.defining_op is None)
    if how != 'auto':
        env.prove('taken names are refused', env.not_(taken))
        env.prove('named as asked', env.eq(v.name, name))
    else:
        env.prove('an automatic name is unused', env.not_(has(v.name)))
    env.prove('type as given', env.eq(v.type, ty))
    env.prove('table: exactly the new name is added', env.iff(env.contains(g.values, x), env.or_(pre, env.eq(x, v.name))))
    got = env.run(g.values.__getitem__, v.name)
    env.prove('table maps the name to the value', got[0] == 'ok' and got[1] is v)
    if pre:
        if env.not_(env.eq(x, v.name)):
            env.prove('other entries untouched', env.eq(g.values[x], oldx))
    ln = env.len(g.inputs)
    if how == 'input':
        env.prove('appended to the inputs', env.and_(env.eq(ln, n + 1)))
        env.prove('last input is the value', env.get(g.inputs, ln - 1) is v)
    else:
        env.prove('inputs unchanged', env.eq(ln, n))


def h_addop(env):
    """add_op: one result per type in order, a fresh operation appended, operands as given."""
    g, has, VAL, n0, val = graph(env)
    st = Refs(env, init_rel=lambda v: False)
    n = env.length('n')
    ins = st.seq('in', n)
    m = env.length('m')
    tf = z3.Function('oty', z3.IntSort(), TY.z)
    newv = z3.Function('newv', TY.z, st.VAL.z)
    infer = env.choice('infer', [False, True])
    types_ = None if infer else env.seq('oty', lambda k: SVal(tf(core.iterm(k)), TY), n=m)

    def add_value(self, ty, name=None):
        env.prove('results are named automatically', name is None)
        return SVal(newv(ty.t), st.VAL)
    M.STUBS[G.Graph.add_value] = add_value
    prior = env.length('prior')
    pf = z3.Function('prior', z3.IntSort(), OP.z)
    g.operations = env.seq('prior', lambda k: SVal(pf(core.iterm(k)), OP), n=prior)
    attrs = env.choice('attrs', [None, {}, {'a': 1}])
    r = env.run(g.add_op, 'opc', ins, types_, attrs)
    if r[0] == 'exc':
        env.prove('only an operation whose type cannot be inferred is refused', env.and_(infer, env.eq(n, 0)), r[1])
        env.prove('a refused operation changes nothing', env.eq(env.len(g.operations), prior))
        return
    if infer:
        ty = lambda k: st.VAL.attrs['type'] and env.get(ins, 0).type
        m = 1
    else:
        ty = lambda k: SVal(tf(core.iterm(k)), TY)
    env.prove_seq('one result per type, in order', r[1], m, lambda k: SVal(newv(ty(k).t), st.VAL))
    env.prove('one operation is appended', env.eq(env.len(g.operations), prior + 1))
    op = env.get(g.operations, prior)
    env.prove('it is a new operation', type(op) is G.Operation and op.opcode == 'opc')
    env.prove_seq('operands', op.inputs, n, lambda k: env.get(st.seq('in', n), k))
    env.prove_seq('results', op.outputs, m, lambda k: SVal(newv(ty(k).t), st.VAL))
    users_exact(env, st, op, 'users are exactly the operands')
    env.prove('attributes', dict(op.attrs) == (attrs or {}))
    for k in env.each('k', prior):
        env.prove('earlier operations keep their place', env.eq(env.get(g.operations, k), SVal(pf(core.iterm(k)), OP)))


def h_output(env):
    """add_output accepts exactly the values of the graph."""
    g = G.Graph()
    n = env.length('n')
    VAL = Sort('GValue', attrs={'name': str, 'type': TY})
    f = z3.Function('gv', z3.IntSort(), VAL.z)
    kf = z3.Function('gk', z3.IntSort(), z3.StringSort())
    if isinstance(n, int):
        for i in range(n):
            g.values[f'%{i}'] = SVal(f(i), VAL)
    else:
        d = C.VDict()
        at = lambda i: SVal(f(core.iterm(i)), VAL)
        d._sym = C.SymBase(lambda k: (_ for _ in ()).throw(core.Unsupported('lookup')), lambda k: None, n, lambda i: core.mkstr(kf(core.iterm(i))), at)
        d._symkeys = True
        g.values = d
    p = env.length('p')
    of = z3.Function('po', z3.IntSort(), VAL.z)
    g.outputs = env.seq('po', lambda k: SVal(of(core.iterm(k)), VAL), n=p)
    v = VAL.const('v')
    inside = env.exists(n, lambda k: env.eq(SVal(f(core.iterm(k)), VAL), v))
    r = env.run(g.add_output, v)
    if r[0] == 'exc':
        env.prove('only foreign values are refused', env.and_(isinstance(r[1], ValueError), env.not_(inside)))
        env.prove('outputs unchanged', env.eq(env.len(g.outputs), p))
        return
    env.prove('foreign values are refused', inside)
    env.prove('one output more', env.eq(env.len(g.outputs), p + 1))
    env.prove('it is the last output', env.eq(env.get(g.outputs, p), v))
    for k in env.each('k', p):
        env.prove('earlier outputs keep their place', env.eq(env.get(g.outputs, k), SVal(of(core.iterm(k)), VAL)))


# ------------------------------------------------------------------ concrete histories
def check_graph(env, g, gone, extra=()):
    ops = [o for o in list(g.operations) + list(extra) if o not in gone]
    vals = list(g.values.values())
    env.prove('names are unique and match the table', all(v.name == k for k, v in g.values.items()) and len({id(v) for v in vals}) == len(vals))
    for v in vals:
        env.prove('users are exactly the operations using the value', set(map(id, v.uses)) == {id(o) for o in ops if any(i is v for i in o.inputs)},
                  (v.name, [o.opcode for o in v.uses], [o.opcode for o in ops if any(i is v for i in o.inputs)]))
        d = [o for o in ops if any(x is v for x in o.outputs)]
        env.prove('definer', (v.defining_op is d[0]) if len(d) == 1 else (not d and v.defining_op is None), v.name)
    for o in ops:
        env.prove('operands and results are values of the graph', all(any(x is v for v in vals) for x in list(o.inputs) + list(o.outputs)))


def h_history(env):
    """Arbitrary edit histories on real graphs."""
    import random
    from mplang.edsl import typing as elt
    rng = random.Random(env.int('seed', 0, 10 ** 9))
    g = G.Graph()
    gone = []
    shared = []
    log = []
    for _ in range(rng.randrange(1, 25)):
        c = rng.randrange(8)
        vals = list(g.values.values())
        ops = [o for o in g.operations if o not in gone]
        log.append(c)
        if c == 0 or not vals:
            nm = rng.choice(['x', 'y', f'i{len(vals)}', '%0', '%3'])
            taken = nm in g.values
            k = len(g.values)
            r = env.run(g.add_input, nm, elt.f32)
            env.prove('taken names are refused', (r[0] == 'exc') == taken and len(g.values) == k + (not taken), (nm, log))
        elif c in (1, 2):
            ins = [rng.choice(vals) for _ in range(rng.randrange(4))]
            m = rng.randrange(4)
            k = len(g.operations)
            r = env.run(g.add_op, f'f{k}', ins, [elt.f32] * m)
            if r[0] == 'ok':
                env.prove('results', len(r[1]) == m and g.operations[-1].outputs == r[1] and len(g.operations) == k + 1)
                shared.append(ins)
        elif c == 3 and shared:
            r = env.run(g.add_op, f'g{len(g.operations)}', rng.choice(shared), [elt.f32])
        elif c == 4 and ops:
            o = rng.choice(ops)
            old = rng.choice(list(o.inputs) or vals)
            new = rng.choice(vals)
            was = list(o.inputs)
            o.replace_input(old, new)
            env.prove('operands replaced', all(a is (new if b is old else b) for a, b in zip(o.inputs, was)) and len(was) == len(o.inputs))
        elif c == 5 and ops:
            o = rng.choice(ops)
            o.erase()
            gone.append(o)
        elif c == 6:
            v = rng.choice(vals)
            g.add_output(v)
            env.prove('output added', g.outputs[-1] is v)
        elif c == 7:
            other = G.Graph()
            w = other.add_input('x', elt.f32)
            k = len(g.outputs)
            env.prove('foreign outputs are refused', env.run(g.add_output, w)[0] == 'exc' and len(g.outputs) == k)
        check_graph(env, g, gone)


def h_traced(env):
    """Graphs built by the tracer satisfy the invariant (nested regions included)."""
    import random
    import numpy as np
    import mplang as mp
    import mplang.edsl as el
    from mplang.dialects import simp
    from mplang.edsl.tracer import Tracer
    import mplang.edsl.typing as elt
    rng = random.Random(env.int('seed', 0, 10 ** 9))
    t = Tracer()
    with t:
        xs = [t._new_arg(elt.TensorType(elt.f32, ())) for _ in range(rng.randrange(1, 4))]
    g = t.graph
    for _ in range(rng.randrange(6)):
        vals = list(g.values.values())
        g.add_op('op', [rng.choice(vals) for _ in range(rng.randrange(3))], [elt.f32] * rng.randrange(3))
    cap = [t._new_arg(elt.f32) for _ in range(rng.randrange(3))]
    check_graph(env, g, [])


def harnesses():
    P = 'mplang.edsl.graph.'
    return [H('create', h_create, bound=3, conc=0, functions=[P + 'Operation.__post_init__']),
            H('replace', h_replace, bound=3, conc=0, functions=[P + 'Operation.replace_input']),
            H('erase', h_erase, bound=3, conc=0, functions=[P + 'Operation.erase']),
            H('uses', h_uses, conc=0, functions=[P + 'Value.add_use', P + 'Value.remove_use']),
            H('value', h_value, bound=2, conc=0, functions=[P + 'Graph.add_value', P + 'Graph.add_input', P + 'Graph._gen_value_name']),
            H('addop', h_addop, bound=2, conc=0, functions=[P + 'Graph.add_op']),
            H('output', h_output, bound=2, conc=0, functions=[P + 'Graph.add_output']),
            H('history', h_history, sym=False, conc=400, conc_s=6),
            H('traced', h_traced, sym=False, conc=60, conc_s=4)]
