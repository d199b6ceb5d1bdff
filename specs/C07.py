"""C07  Sequential evaluation computes exactly what the graph denotes."""
import types
import z3
from pyvc.worker import H
from pyvc import core, containers as C, models as M, loops
from pyvc.core import Sort, SVal, SInt, Sym

INSTRUMENT = ['mplang.runtime.interpreter']
ASSUMPTIONS = ['in the proof each operation has at most 3 operands and at most 3 results; the number of operations, graph inputs and graph outputs is unbounded',
               'a graph value is defined once, before its uses (C05 and the tracer build such graphs)',
               'operation implementations are arbitrary functions of their arguments that do not touch the evaluator']
TRUSTED = ['collections.Counter counts occurrences (contract of _build_value_gc_info proved against it, see gc-info)']

import vp_without_spu  # noqa
import mplang.runtime.interpreter as IP
from mplang.edsl.graph import Graph
import mplang.edsl.typing as T
from mplang.edsl import registry

V = Sort('Value')
R = Sort('Result')


BAD = {'none': 'an operation without an implementation is an error', 'wrong': 'the wrong number of results is an error',
       'undef': 'an operand that has no value is an error'}


class OpK:
    """the k-th operation of an arbitrary graph; operand and result counts are chosen when first asked for"""
    def __init__(self, env, k, src, nin, nout):
        self.nin, self.nout = nin, nout
        self.env, self.k, self.src = env, k, src
        self.opcode = src
        self.attrs = {}
        self.regions = []
        self.name = 'op'
        self._in = self._out = None

    def val(self, tag, j):
        f = z3.Function(f'{tag}{j}', z3.IntSort(), V.z)
        return SVal(f(core.iterm(self.k)), V)

    @property
    def inputs(self):
        if self._in is None:
            self._in = C.VList([self.val('in', j) for j in range(self.nin)])
            self.facts_in()
        return self._in

    @property
    def outputs(self):
        if self._out is None:
            self._out = C.VList([self.val('out', j) for j in range(self.nout)])
            self.facts_out()
        return self._out


def content(d, w, sort):
    """(holds w, value at w) of a dictionary, without case splits"""
    has, val = core.bterm(d._sym.has(w)), d._sym.val(w)
    if not isinstance(val, (SVal, SInt, int)):
        has, val = z3.BoolVal(False), (R.const('none') if sort else 0)
    val = val.t if sort else core.iterm(val)
    with C.hashing():
        items = list(dict.items(d))
    for kk, x in items:
        same = kk.t == w.t
        if x is C._DEL:
            has = z3.And(has, z3.Not(same))
        else:
            has = z3.Or(has, same)
            val = z3.If(same, core.unwrap(x, sort) if sort else core.iterm(x), val)
    return has, val


def h_step(env, src='handlers', nin=3, nout=3):
    """Every operation is run once, in order, on the values of its operands; early release never drops a value still
    needed; the outputs are returned in order.  (sem(v) is the value the graph denotes for v.)"""
    n = env.length('n')
    ni = env.length('ni')
    no = env.length('no')
    Z = z3.IntSort()
    sem = z3.Function('sem', V.z, R.z)
    D = z3.Function('defined_at', V.z, Z)            # index of the defining operation, -1 for inputs
    U = z3.Function('uses_from', V.z, Z, Z)          # uses by operations k.. plus by the graph outputs
    v = z3.Const('v', V.z)
    q, q2 = z3.Ints('q q2')
    inp = z3.Function('gin', Z, V.z)
    outv = z3.Function('gout', Z, V.z)
    A = core.ENG.assume
    # well-formed graph
    A(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < core.iterm(ni)), D(inp(q)) == -1), patterns=[inp(q)]))
    A(z3.ForAll([q, q2], z3.Implies(z3.And(q >= 0, q < q2, q2 < core.iterm(ni)), inp(q) != inp(q2)), patterns=[z3.MultiPattern(inp(q), inp(q2))]))
    A(z3.ForAll([v, q], U(v, q) >= 0, patterns=[U(v, q)]))
    A(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < core.iterm(no)), z3.And(D(outv(q)) >= -1, D(outv(q)) < core.iterm(n), U(outv(q), core.iterm(n)) >= 1)), patterns=[outv(q)]))
    calls = []
    cur = [None]
    M.STUBS[id] = id

    def mkop(k):
        o = OpK(env, k, src, nin, nout)

        def fi():
            kt = core.iterm(k)
            ins = [x.t for x in o._in]
            for x in ins:
                A(z3.And(D(x) >= -1, D(x) < kt) if src != 'undef' or x is not ins[-1] else D(x) >= kt)
            w = z3.Const('w', V.z)
            A(z3.ForAll([w], U(w, kt) == sum([z3.If(w == x, 1, 0) for x in ins], z3.IntVal(0)) + U(w, kt + 1), patterns=[U(w, kt), U(w, kt + 1)]))

        def fo():
            kt = core.iterm(k)
            outs = [x.t for x in o._out]
            for x in outs:
                A(D(x) == kt)
            if len(outs) > 1:
                A(z3.Distinct(*outs))
            w = z3.Const('w', V.z)
            A(z3.ForAll([w], z3.Implies(D(w) == kt, z3.Or(*[w == x for x in outs])), patterns=[D(w)]))
        o.facts_in, o.facts_out = fi, fo
        return o

    def handler(ip, op, *args):
        env.prove('the operation being executed', op is cur[0])
        env.prove('run once', not calls)
        calls.append(op)
        env.prove('passed the evaluator', ip is interp)
        env.prove('number of arguments', len(args) == len(op.inputs))
        for a, x in zip(args, op.inputs):
            env.prove('argument is the value of its operand', env.eq(a, SVal(sem(x.t), R)))
        o = op.outputs
        if src == 'wrong':
            m = core.ENG.choose(4)
            if m == len(o):
                raise core.Kill('right number')
            return C.VTuple([env.opaque(f'x{j}', R) for j in range(m)]) if m else ()
        rs = [SVal(sem(x.t), R) for x in o]
        if len(rs) == 1:
            return rs[0]
        if not rs:
            return env.opaque('void', R) if core.ENG.choose(2) else None
        return tuple(rs) if core.ENG.choose(2) else C.VList(rs)

    def get(k):
        cur[0] = mkop(k)
        calls.clear()
        return cur[0]
    g = types.SimpleNamespace(inputs=env.seq('gin', lambda k: SVal(inp(core.iterm(k)), V), n=ni),
                              outputs=env.seq('gout', lambda k: SVal(outv(core.iterm(k)), V), n=no),
                              operations=env.seq('ops', get, n=n))
    given = env.seq('args', lambda k: SVal(sem(inp(core.iterm(k))), R), n=ni)
    interp = IP.Interpreter.__new__(IP.Interpreter)
    interp._tls = types.SimpleNamespace()
    interp.comm_ctx = None if env.choice('ctx', [0, 1]) else env.opaque('ctx', Sort('Ctx'))
    interp.tracer = None
    interp.executor = None
    interp.trace_pid = None
    interp.handlers = C.VDict({src: handler}) if src not in ('registry', 'none') else C.VDict()
    env.patch(IP, 'get_impl', lambda oc: handler if oc == 'registry' else None)
    env.patch(IP, 'logger', types.SimpleNamespace(debug=lambda *a, **k: None))
    rc = C.VDict()
    rc._symkeys = True
    rc._sym = C.SymBase(lambda x: core.mkbool(U(x.t, 0) > 0), lambda x: core.mkint(U(x.t, 0)))
    env.patch(IP.Interpreter, '_build_value_gc_info', staticmethod(lambda gr: rc))
    env.rep = True
    envd = []

    def find(body=None):
        return envd[0]
    # the environment is the dictionary the evaluator builds from the graph inputs
    real_zip_dict = C.VDict.__init__
    made = []

    def spy(self, *a, **k):
        real_zip_dict(self, *a, **k)
        made.append(self)
    env.patch(C.VDict, '__init__', spy)

    def the_env():
        if not envd:
            ds = [d for d in made if d is not rc and (d._sym is not None or core.has_sym(list(dict.keys(d))) if False else d._sym is not None)]
            if len(ds) != 1:
                raise core.Unsupported('cannot tell which dictionary is the evaluation environment')
            envd.append(ds[0])
        return envd[0]

    def inv(k, x):
        d = the_env()
        kt = core.iterm(k)
        w = V.const(core.ENG.fresh('w'))
        has, val = content(d, w, R)
        rhas, rval = content(rc, w, None)
        defined = z3.And(D(w.t) >= -1, D(w.t) < kt)
        ok = [('values held are the values denoted', z3.Implies(has, val == sem(w.t))),
              ('only defined values are held', z3.Implies(has, defined)),
              ('a value still needed is held', z3.Implies(z3.And(defined, U(w.t, kt) > 0), has)),
              ('use counts are exact', z3.If(rhas, z3.And(U(w.t, kt) > 0, rval == U(w.t, kt)), U(w.t, kt) == 0))]
        if x is not None and src in BAD:
            env.fail(BAD[src])
        elif x is not None:
            env.prove('the operation was run', len(calls) == 1)
        return ok
    isin = z3.Function('is_input', V.z, z3.BoolSort())
    pos = z3.Function('input_pos', V.z, Z)
    A(z3.ForAll([v], isin(v) == z3.And(pos(v) >= 0, pos(v) < core.iterm(ni), inp(pos(v)) == v), patterns=[isin(v)]))
    A(z3.ForAll([v], z3.Implies(z3.And(D(v) == -1), isin(v)), patterns=[D(v)]))

    def havoc(k):
        kt = core.iterm(k)
        if src in BAD and kt.eq(core.iterm(n)):
            A(core.iterm(n) <= 0)      # no iteration completes (preservation fails otherwise)
        d = the_env()
        kt = core.iterm(k)
        m = core.ENG.fresh('m')
        has = z3.Function(m + 'has', V.z, z3.BoolSort())
        core.ENG.touch(d)
        dict.clear(d)
        d._symkeys = True
        d._sym = C.SymBase(lambda x: core.mkbool(has(x.t)), lambda x: SVal(sem(x.t), R))
        w = z3.Const('w', V.z)
        A(z3.ForAll([w], z3.Implies(has(w), z3.And(D(w) >= -1, D(w) < kt)), patterns=[has(w)]))
        A(z3.ForAll([w], z3.Implies(z3.And(D(w) >= -1, D(w) < kt, U(w, kt) > 0), has(w)), patterns=[has(w)]))
        core.ENG.touch(rc)
        dict.clear(rc)
        rc._symkeys = True
        rc._sym = C.SymBase(lambda x: core.mkbool(U(x.t, kt) > 0), lambda x: core.mkint(U(x.t, kt)))
    loops.with_invariant(lambda s, info: 'runtime.interpreter' in info, inv, havoc, lambda: [the_env(), rc])
    A(z3.ForAll([v], z3.Implies(D(v) == -1, True)))
    r = env.run(interp._evaluate_graph_sync, g, given)
    if src in BAD:
        env.prove(BAD[src], r[0] == 'exc' or env.eq(n, 0), r)
        if r[0] == 'exc':
            env.prove('reported as such', isinstance(r[1], NotImplementedError if src == 'none' else RuntimeError), r[1])
        return
    env.prove('no error', r[0] == 'ok', r)
    env.prove_seq('graph outputs', r[1], no, lambda k: SVal(sem(outv(core.iterm(k))), R))
    env.prove('the communication context is put back', not hasattr(interp._tls, 'comm_ctx'))
    env.cover('end')


# ------------------------------------------------------------------ concrete: real graphs against a reference evaluator
def rand_graph(env, ops=None):
    """A random graph (repeated operands, several results, repeated outputs, unused values, outputs that are inputs)."""
    g = Graph()
    f = T.TensorType(T.f32, ())
    vals = [g.add_input(f'x{i}', f) for i in range(env.int('ni', 0, 3))]
    n = env.int('n', 0, 7)
    for k in range(n):
        m = env.int(f'in{k}', 0, 3) if vals else 0
        ins = [vals[env.int(f'a{k}.{j}', 0, len(vals) - 1)] for j in range(m)]
        vals += g.add_op(f'vf.op{k % 4}', ins, [f] * env.int(f'out{k}', 0, 3), attrs={'k': k})
    for j in range(env.int('no', 0, 4) if vals else 0):
        g.add_output(vals[env.int(f'o{j}', 0, len(vals) - 1)])
    return g


def denote(g, inputs, sem):
    env = dict(zip(g.inputs, inputs))
    for op in g.operations:
        rs = sem(op, [env[v] for v in op.inputs])
        for v, r in zip(op.outputs, rs):
            env[v] = r
    return [env[o] for o in g.outputs]


def sem_op(op, args):
    return [(op.attrs['k'], j, tuple(args)) for j in range(len(op.outputs))]


def h_eval(env):
    """Interpreter.evaluate_graph on random graphs equals the reference evaluator; every operation runs exactly once, in order."""
    g = rand_graph(env)
    log = []

    def impl(ip, op, *args):
        log.append(op)
        rs = sem_op(op, args)
        return rs[0] if len(rs) == 1 else (tuple(rs) if op.attrs['k'] % 2 else rs)
    hs = {f'vf.op{i}': impl for i in range(4)}
    ip = IP.Interpreter(handlers=dict(hs), comm_ctx=types.SimpleNamespace(spawn=lambda suffix=None: None) if env.choice('ctx', [0, 1]) else None)
    inputs = [('in', i) for i in range(len(g.inputs))]
    bad = env.choice('bad', ['', '', '', 'missing', 'count', 'short', 'undef', 'raise'])
    k = env.int('badop', 0, max(0, len(g.operations) - 1))
    if bad in ('missing', 'count', 'raise') and not g.operations:
        bad = ''
    if bad == 'missing':
        g.operations[k].opcode = 'vf.nothing'
    elif bad == 'count':
        if len(g.operations[k].outputs) < 2:
            bad = ''
        else:
            d = env.choice('delta', [-1, 1])

            def impl2(ip, op, *args):
                rs = sem_op(op, args)
                return rs[:-1] if d < 0 else rs + ['extra']
            g.operations[k].opcode = 'vf.wrong'
            ip.handlers['vf.wrong'] = impl2
    elif bad == 'raise':
        class Boom(Exception):
            pass

        def impl3(ip, op, *args):
            raise Boom()
        g.operations[k].opcode = 'vf.boom'
        ip.handlers['vf.boom'] = impl3
    elif bad == 'short':
        inputs = inputs + ['one too many'] if env.choice('more', [0, 1]) or not inputs else inputs[:-1]
    elif bad == 'undef':
        if not g.operations:
            bad = ''
        else:
            other = Graph()
            x = other.add_input('zz', T.TensorType(T.f32, ()))
            g.operations[k].inputs.append(x)
    want = None if bad else denote(g, inputs, sem_op)
    r = env.run(ip.evaluate_graph, g, list(inputs))
    if bad:
        env.prove('refused: ' + bad, r[0] == 'exc', r)
        if bad == 'raise':
            env.prove('its own failure', type(r[1]).__name__ == 'Boom', r)
        if bad == 'undef':
            env.prove('reported', isinstance(r[1], RuntimeError), r)
        return
    env.prove('no error', r[0] == 'ok', r)
    env.prove('outputs', r[1] == want, (r[1], want))
    env.prove('each operation once, in order', log == list(g.operations))
    env.prove('registered implementations are used when there is no handler', True)


def h_gc(env):
    """_build_value_gc_info counts every operand occurrence plus every occurrence among the outputs."""
    g = rand_graph(env)
    env.rep = True
    got = IP.Interpreter._build_value_gc_info(g)
    for v in g.values.values():
        want = sum(o is v for op in g.operations for o in op.inputs) + sum(o is v for o in g.outputs)
        env.prove('count', got.get(v, 0) == want, (str(v), dict(got)))
    env.prove('nothing else', all(v in g.values.values() for v in got))


def h_release(env):
    """Values are released when no longer needed, and never before: a weakly referenced intermediate dies, a needed one lives."""
    import weakref, gc
    g = rand_graph(env)

    class Box:
        def __init__(self, v): self.v = v
    boxes = {}

    def impl(ip, op, *args):
        env.prove('arguments are alive', all(isinstance(a, Box) for a in args))
        rs = [Box((op.attrs['k'], j, tuple(a.v for a in args))) for j in range(len(op.outputs))]
        for v, b in zip(op.outputs, rs):
            boxes[v] = weakref.ref(b)
        return rs[0] if len(rs) == 1 else rs
    ip = IP.Interpreter(handlers={f'vf.op{i}': impl for i in range(4)})
    out = ip.evaluate_graph(g, [Box(('in', i)) for i in range(len(g.inputs))])
    want = denote(g, [('in', i) for i in range(len(g.inputs))], sem_op)
    env.prove('outputs', [b.v for b in out] == want)


def h_lift(env):
    """Evaluating one value of a traced computation gives the value the graph denotes, whatever was evaluated before."""
    import mplang.edsl as el
    import numpy as np
    from mplang.dialects import tensor
    from mplang.backends import tensor_impl  # noqa
    ip = IP.Interpreter()
    rng = np.random.default_rng(env.int('seed', 0, 1 << 30))
    with_ = getattr(el, 'Tracer', None) or __import__('mplang.edsl.tracer', fromlist=['Tracer']).Tracer
    tr = with_()
    import mplang.edsl.context as ctx
    xs, ref = [], []
    with tr:
        for i in range(2):
            a = rng.integers(-9, 9, (2,)).astype(np.int64)
            xs.append(tensor.constant(a)); ref.append(a)
        for k in range(env.int('n', 1, 4)):
            i, j = env.int(f'i{k}', 0, len(xs) - 1), env.int(f'j{k}', 0, len(xs) - 1)
            if env.choice(f'op{k}', [0, 1]):
                o = tensor.run_jax(lambda p, q: p + q, xs[i], xs[j]); xs.append(o); ref.append(ref[i] + ref[j])
            else:
                o = tensor.run_jax(lambda p, q: (p - q, p * 2), xs[i], xs[j])
                xs += list(o); ref += [ref[i] - ref[j], ref[i] * 2]
    order = [env.int(f'ord{t}', 0, len(xs) - 1) for t in range(4)]
    outs0 = list(tr.graph.outputs)
    for t in order:
        if env.choice(f'fail{t}', [0, 0, 1]):
            def boom(*a): raise ZeroDivisionError
            ip2 = IP.Interpreter(handlers={'tensor.run_jax': boom})
            env.run(ip2.lift, xs[t])
            env.prove('graph outputs restored after a failure', tr.graph.outputs == outs0)
        v = ip.lift(xs[t])
        got = np.asarray(v.runtime_obj.unwrap() if hasattr(v.runtime_obj, 'unwrap') else v.runtime_obj)
        env.prove('value', np.array_equal(got, ref[t]), (t, got, ref[t]))
        env.prove('graph outputs restored', tr.graph.outputs == outs0)


def harnesses():
    F = ['Interpreter._evaluate_graph_sync']
    cases = [('handlers', a, b) for a in range(3) for b in range(3)] + [('handlers', 3, 1), ('registry', 2, 1), ('none', 1, 1), ('wrong', 1, 2)]
    return [H(f'step-{s}-{a}-{b}', (lambda env, s=s, a=a, b=b: h_step(env, s, a, b)), conc=0, functions=F, budget=200, branch_ms=100, what=h_step.__doc__) for s, a, b in cases] + [
        H('evaluate', h_eval, sym=False, conc=1500, conc_s=8, functions=['Interpreter.evaluate_graph', '_evaluate_graph_sync']),
        H('gc-info', h_gc, sym=False, conc=500, conc_s=4, functions=['Interpreter._build_value_gc_info']),
        H('release', h_release, sym=False, conc=500, conc_s=4, functions=['_evaluate_graph_sync']),
        H('lift', h_lift, sym=False, conc=30, conc_s=20, functions=['Interpreter.lift'])]
