"""C14  Party types are sound."""
import z3
from pyvc.worker import H
from pyvc import core, containers as C, models as M, loops
from pyvc.core import Sort

INSTRUMENT = ['mplang.dialects.simp', 'mplang.edsl.typing', 'mplang.edsl.tracer', 'mplang.edsl.graph', 'mplang.utils.func_utils']
ASSUMPTIONS = ['calls have up to 3 operands (arguments and captured values); party sets, requests and routing tables are arbitrary',
               'party sets in types are written in ascending order without repetition (that is how every multi-party operation writes them: proved here)']
TRUSTED = ['jax.tree_util flattens and rebuilds argument trees']

import vp_without_spu  # noqa
import mplang.edsl as el
import mplang.edsl.typing as T
from mplang.dialects import simp

V1, V2 = T.TensorType(T.f32, (2,)), T.TensorType(T.i32, ())


class Obj(el.Object):
    _vf_ok = True

    def __init__(self, t):
        self.t = t

    @property
    def type(self):
        return self.t


def parties(env, nm, neg=False, asc=True):
    """an arbitrary party set: (membership predicate, the tuple that writes it)"""
    if not env.sym:
        xs = [env.int(f'{nm}.{i}', -2 if neg else 0, 6) for i in range(env.int(nm + '.n', 0, 4))]
        if not neg:
            xs = sorted(set(xs))
        return (lambda x: x in xs), tuple(xs)
    f = z3.Function(nm, z3.IntSort(), z3.BoolSort())
    if not neg:
        q = z3.Int(nm + 'q')
        core.ENG.assume_lazy(z3.ForAll([q], z3.Implies(f(q), q >= 0), patterns=[f(q)]))
    return (lambda x: core.mkbool(f(core.iterm(x)))), C.pred_seq(nm, lambda x: core.mkbool(f(core.iterm(x))), asc=asc)


def all_ints(env, pred):
    if env.sym:
        return C.forall_int(pred)
    return all(pred(x) for x in range(-4, 10))


def some_int(env, pred):
    return env.not_(all_ints(env, lambda x: env.not_(pred(x))))


def ascending(env, t):
    n = env.len(t)
    return env.forall(n, lambda i: env.implies(i >= 1, env.get(t, i - 1) < env.get(t, i)))


def same_set(env, label, t, pred):
    """t writes exactly the set pred"""
    env.prove(label + ': a party set', t is not None)
    env.prove(label + ': ascending, without repetition', ascending(env, t))
    env.prove(label + ': nobody else', env.forall(env.len(t), lambda i: pred(env.get(t, i))))
    env.prove(label + ': everybody', all_ints(env, lambda x: env.implies(pred(x), env.contains(t, x))))


def operands(env, n):
    """n operands, each with a known party set, a party set only known at run time, or no party set at all"""
    out = []
    for i in range(n):
        k = env.choice(f'kind{i}', ['known', 'dynamic', 'plain'])
        if k == 'known':
            p, t = parties(env, f'held{i}')
            out.append((p, Obj(T.MPType(V1, t))))
        else:
            out.append((None, Obj(T.MPType(V1, None) if k == 'dynamic' else V1)))
    return out


def run_traced(env, objs, prog):
    """build a program whose inputs are objs; (outcome, operation it consists of)"""
    tr = el.Tracer()

    def go():
        with tr:
            xs = [tr.lift(o) for o in objs]
            return prog(tr, xs)
    r = env.run(go)
    return tr.graph, r


def h_pcall(env):
    """A restricted call is accepted exactly when every named party holds all inputs, and its results are placed on exactly those parties."""
    n = env.choice('n', [0, 1, 2, 3])
    nc = env.choice('captured', [0, 1]) if n in (1, 2) else 0
    ops = operands(env, n)
    req, t = parties(env, 'req', neg=True, asc=False)
    nout = env.choice('nout', [0, 1, 2] if n < 2 else [n] if n == 2 else [1])

    def prog(tr, xs):
        args, caps = xs[:n - nc], xs[n - nc:]

        def local(*a):
            al = list(a) + caps
            return tuple(al[j % len(al)] for j in range(nout)) if al else ()
        # captured values become operands when they are used
        used = set(range(n - nc)) | {j % n for j in range(nout)} if n else set()
        return used, tr.bind_primitive(simp.pcall_static_p, (t, local, *args), {})
    g, r = run_traced(env, [o for _, o in ops], prog)
    used = set(range(n - nc)) | ({j % n for j in range(nout)} if n else set())
    held = [ops[j][0] for j in sorted(used) if ops[j][0] is not None]
    ok = all_ints(env, lambda x: env.implies(req(x), env.and_(x >= 0, *[h(x) for h in held])))
    if r[0] == 'exc':
        env.prove('refused only when some named party does not hold some input, or is no party', env.and_(isinstance(r[1], (ValueError, TypeError)), env.not_(ok)), r)
        return
    env.prove('accepted only when every named party holds all inputs', ok)
    env.prove('one operation', len(g.operations) == 1)
    op = g.operations[0]
    env.prove('of this kind', op.opcode == simp.pcall_static_p.name)
    same_set(env, 'the parties told to run it', op.attrs['parties'], req)
    outs = r[1][1]
    env.prove('as many results', len(op.outputs) == len(op.regions[0].outputs) == len(outs))
    env.prove('operands are the inputs', len(op.inputs) == len(op.regions[0].inputs) == len(used), (len(op.inputs), used))
    for v, u, w in zip(op.outputs, op.regions[0].outputs, outs):
        env.prove('results are multi-party values', isinstance(v.type, T.MPType) and w.type is v.type)
        env.prove('of the type computed locally', v.type.value_type == u.type == V1)
        same_set(env, 'result', v.type.parties, req)
    env.cover('end')


def h_dynamic(env):
    """A call whose parties are decided at run time claims no party set."""
    n = env.choice('n', [0, 1, 2, 3])
    ops = operands(env, n)
    g, r = run_traced(env, [o for _, o in ops], lambda tr, xs: tr.bind_primitive(simp.pcall_dynamic_p, (lambda *a: a, *xs), {}))
    env.prove('accepted', r[0] == 'ok', r)
    env.prove('one operation', len(g.operations) == 1 and g.operations[0].opcode == simp.pcall_dynamic_p.name)
    for v in g.operations[0].outputs:
        env.prove('not known before it runs', isinstance(v.type, T.MPType) and v.type.parties is None and v.type.value_type == V1)
    env.cover('end')


def h_shuffle(env):
    """A shuffle is accepted exactly when every source holds the data, and its result is placed on exactly the targets."""
    (p, o), = operands(env, 1)
    if env.sym:
        n = env.int('n', 0)
        src = z3.Function('src', z3.IntSort(), z3.IntSort())
        d = C.sym_dict('routing', 'int', lambda i: core.mkint(src(core.iterm(i))), n)
        key, val = (lambda i: d._sym.key(i)), (lambda i: core.mkint(src(core.iterm(i))))
    else:
        d = {env.int(f't{i}', -2, 6): env.int(f's{i}', -2, 6) for i in range(env.int('n', 0, 4))}
        n = len(d)
        key, val = (lambda i: list(d)[i]), (lambda i: list(d.values())[i])
    g, r = run_traced(env, [o], lambda tr, xs: tr.bind_primitive(simp.shuffle_static_p, (xs[0],), {'routing': d}))
    mp = isinstance(o.type, T.MPType)
    good = env.and_(mp, n >= 1, env.forall(n, lambda i: env.and_(key(i) >= 0, val(i) >= 0, p(val(i)) if p else True)))
    if r[0] == 'exc':
        env.prove('refused only when some source does not hold the data, or somebody is no party', env.and_(isinstance(r[1], (ValueError, TypeError)), env.not_(good)), r)
        return
    env.prove('accepted only when every source holds the data', good)
    env.prove('one operation', len(g.operations) == 1 and g.operations[0].opcode == simp.shuffle_static_p.name)
    op = g.operations[0]
    env.prove('with the routing that was asked for', op.attrs['routing'] is d or op.attrs['routing'] == d)
    v = op.outputs[0]
    env.prove('one result of the same kind', len(op.outputs) == 1 and isinstance(v.type, T.MPType) and v.type.value_type == V1)
    t = v.type.parties
    env.prove('placed on a known party set', t is not None)
    env.prove('ascending, without repetition', ascending(env, t))
    env.prove('every target', env.forall(n, lambda i: env.contains(t, key(i))))
    env.prove('as many as targets', env.eq(env.len(t), n))
    env.cover('end')


def h_converge(env):
    """A converge is accepted exactly for values of one kind whose party sets are disjoint, as far as they are known, and is held by their union."""
    n = env.choice('n', [0, 1, 2, 3])
    ops, kinds = operands(env, n), []
    for i, (p, o) in enumerate(ops):
        if env.choice(f'other{i}', [False, True]) and isinstance(o.type, T.MPType):
            o.t = T.MPType(V2, o.t.parties)
            kinds.append(V2)
        else:
            kinds.append(V1)
    g, r = run_traced(env, [o for _, o in ops], lambda tr, xs: tr.bind_primitive(simp.converge_p, tuple(xs), {}))
    one_kind = n >= 1 and all(k is kinds[0] for k in kinds) and all(isinstance(o.type, T.MPType) for _, o in ops)
    known = [p for p, _ in ops if p is not None]
    disjoint = env.and_(True, *[all_ints(env, lambda x, a=a, b=b: env.not_(env.and_(a(x), b(x)))) for i, a in enumerate(known) for b in known[i + 1:]])
    if r[0] == 'exc':
        env.prove('refused only for overlapping party sets or different kinds', env.and_(isinstance(r[1], (ValueError, TypeError)), env.not_(env.and_(one_kind, disjoint))), r)
        return
    env.prove('accepted only for one kind', one_kind)
    env.prove('accepted only for disjoint party sets', disjoint)
    op = g.operations[0]
    env.prove('one operation, one result', len(g.operations) == 1 and len(op.outputs) == 1 and op.opcode == simp.converge_p.name)
    v = op.outputs[0].type
    env.prove('of the same kind', isinstance(v, T.MPType) and v.value_type == kinds[0])
    if len(known) < n:
        env.prove('not known before it runs', v.parties is None)
    else:
        same_set(env, 'union', v.parties, lambda x: env.or_(False, *[p(x) for p in known]))
    env.cover('end')


TY = Sort('Type')


class Ty(T.BaseType):
    """an arbitrary type (party set included), equal to another as its token is"""
    _vf_ok = True

    def __init__(self, env, tok):
        self.env, self.tok = env, tok

    def __eq__(self, o):
        return self.env.eq(self.tok, o.tok) if isinstance(o, Ty) else False

    def __ne__(self, o):
        return self.env.not_(self == o)

    def __hash__(self):
        return 0

    def __str__(self):
        return 'Ty'
    __repr__ = __str__

    def to_json(self):
        return {}

    @classmethod
    def from_json(cls, d):
        raise NotImplementedError


def typed(env, n):
    mp = env.choice('mp', [False, True]) if n <= 2 else False

    def ty(i):
        t = Ty(env, env.opaque(f'type{i}', TY))
        if mp:
            t = T.MPType(t, parties(env, f'held{i}')[1] if env.choice(f'known{i}', [True, False]) else None)
        return Obj(t)
    return [ty(i) for i in range(n)]


def picks(env, nm, k, n):
    return [env.choice(f'{nm}{i}', list(range(n))) for i in range(k)]


def h_cond(env):
    """The two branches of a conditional place their results on the same parties, and so does the conditional."""
    n = env.choice('n', [1, 2, 3])
    ops = typed(env, n)
    a, b = picks(env, 'then', env.choice('n_then', [0, 1, 2]), n), picks(env, 'else', env.choice('n_else', [0, 1, 2]), n)
    g, r = run_traced(env, [Obj(T.MPType(V2, None))] + ops, lambda tr, xs: tr.bind_primitive(simp.uniform_cond_p, (xs[0], lambda *v: tuple(v[i] for i in a), lambda *v: tuple(v[i] for i in b), *xs[1:]), {}))
    same = len(a) == len(b) and env.and_(True, *[ops[i].type == ops[j].type for i, j in zip(a, b)])
    if r[0] == 'exc':
        env.prove('refused only when the branches differ', env.and_(isinstance(r[1], TypeError), env.not_(same)), r)
        return
    env.prove('accepted only when the branches agree', same)
    env.prove('one operation', len(g.operations) == 1 and g.operations[0].opcode == simp.uniform_cond_p.name)
    env.prove('as many results', len(g.operations[0].outputs) == len(a) == len(r[1]))
    for v, w, i in zip(g.operations[0].outputs, r[1], a):
        env.prove('placed as the branches place them', env.and_(v.type == ops[i].type, w.type == ops[i].type))
    env.cover('end')


def h_while(env):
    """A loop keeps every state value where it is."""
    n = env.choice('n', [1, 2, 3])
    ops = typed(env, n)
    out = picks(env, 'body', env.choice('n_body', sorted({max(n - 1, 1), n})), n)
    extra = Obj(T.MPType(V2, None))

    def prog(tr, xs):
        return tr.bind_primitive(simp.while_loop_p, (lambda s: xs[0], lambda s: tuple(s[i] for i in out), tuple(xs[1:])), {})
    g, r = run_traced(env, [extra] + ops, prog)
    same = len(out) == n and env.and_(True, *[ops[i].type == ops[j].type for j, i in enumerate(out)])
    if r[0] == 'exc':
        env.prove('refused only when the body moves or changes the state', env.and_(isinstance(r[1], TypeError), env.not_(same)), r)
        return
    env.prove('accepted only when the state stays where it is', same)
    env.prove('one operation', len(g.operations) == 1 and g.operations[0].opcode == simp.while_loop_p.name)
    env.prove('as many results as state values', len(g.operations[0].outputs) == n == len(r[1]))
    for j in range(n):
        env.prove('placed as the state', env.and_(g.operations[0].outputs[j].type == ops[j].type, r[1][j].type == ops[j].type))
    env.cover('end')


def harnesses():
    return [H('branches', h_cond, conc=300, conc_s=4, mbqi=False, branch_ms=100, size=1, functions=['_uniform_cond_trace', 'TracedFunction.is_output_signature_match'], what=h_cond.__doc__),
            H('loops', h_while, conc=300, conc_s=4, mbqi=False, branch_ms=100, size=1, functions=['_while_loop_trace'], what=h_while.__doc__),
            H('pcall', h_pcall, conc=300, conc_s=6, mbqi=False, branch_ms=100, functions=['_pcall_static_trace', '_deduce_parties', '_LocalMPTracer'], what=h_pcall.__doc__),
            H('pcall-dynamic', h_dynamic, conc=60, conc_s=3, functions=['_pcall_dynamic_trace'], what=h_dynamic.__doc__),
            H('shuffle', h_shuffle, conc=300, conc_s=6, mbqi=False, branch_ms=100, functions=['_shuffle_ae'], what=h_shuffle.__doc__),
            H('converge', h_converge, conc=300, conc_s=6, mbqi=False, branch_ms=100, functions=['_converge_ae'], what=h_converge.__doc__)]
