"""C19  Arguments and results keep their structure through flattening."""
import collections
import z3
from pyvc.worker import H
from pyvc import core, containers as C, loops, models as M
from pyvc.core import Sort, bterm, iterm, mkint, mkbool

INSTRUMENT = ['mplang.utils.func_utils']
ASSUMPTIONS = ['the values are trees as jax.tree_util knows them (tuples, lists, dictionaries, None, registered classes)']
TRUSTED = ['jax.tree_util.tree_flatten/tree_unflatten: flattening lists the leaves in order, unflattening puts given leaves into the same places',
           'the number of elements before r that pass a test is counted by a function with cnt(0)=0 and cnt(r+1)=cnt(r)+[r passes]; in a filtered list an element that passes stands at that number']

import mplang.utils.func_utils as F

LEAF = Sort('Leaf')
VAL = Sort('Value')


class Count:
    """ghost: how many of the first r leaves are variables; lemmas proved by induction"""

    def __init__(self, env, B, n):
        self.env, self.B, self.n = env, B, n
        self.f = z3.Function('cnt', z3.IntSort(), z3.IntSort())
        a, b, r = z3.Ints('ca cb cr')
        f, g = self.f, (lambda t: bterm(B(mkint(t))))
        e = core.ENG
        e.assume(f(0) == 0)
        step = lambda t: f(t + 1) == f(t) + z3.If(g(t), 1, 0)
        inv = lambda x, y: z3.And(f(x) <= f(y), x - f(x) <= y - f(y))
        # induction on b >= a
        env.prove('lemma: counting grows (start)', mkbool(inv(a, a)))
        env.prove('lemma: counting grows (step)', mkbool(z3.Implies(z3.And(0 <= a, a <= b, inv(a, b), step(b)), inv(a, b + 1))))
        e.assume(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a <= b), inv(a, b)), patterns=[z3.MultiPattern(f(a), f(b))]))
        self.step = step

    def at(self, k):
        t = iterm(k)
        core.ENG.assume(z3.Implies(t >= 0, self.step(t)))
        core.ENG.assume(z3.Implies(t >= 1, self.step(t - 1)))
        return mkint(self.f(t))


def ghost(env, B, n):
    c = Count(env, B, n)
    loops.CLOSED[:] = [lambda k: c.at(k), lambda k: k - c.at(k)]

    def link(s):
        d = s._flt
        r, m = z3.Int('lr'), d['m'].t
        g = bterm(d['guard'](core.SInt(r)))
        for pol, cnt in ((lambda t: bterm(B(core.SInt(t))), c.f), (lambda t: z3.Not(bterm(B(core.SInt(t)))), lambda t: t - c.f(t))):
            e = core.ENG
            if e.check(z3.And(r >= 0, r < iterm(n), g != pol(r))) == z3.unsat:
                e.assume(m == cnt(iterm(d['n'])))
                e.assume(z3.ForAll([r], z3.Implies(z3.And(r >= 0, r < iterm(d['n']), g), z3.And(d['inv'](r) == cnt(r), d['idx'](cnt(r)) == r)), patterns=[c.f(r)]))
                return
    C.FILTERS.append(link)
    return c


def h_split(env):
    """Splitting a list by any test keeps every element: the r-th element stands in its own part at the number of elements of that part before it."""
    n = env.length('n')
    leaf = env.fn('leaf', ['int'], LEAF)
    var = env.fn('is_variable', [LEAF], 'bool')
    if env.sym:
        B = lambda i: var(leaf(i))
        c = ghost(env, B, n)
    seq = env.seq('origin', leaf, n=n)
    r = env.run(F.list_split, seq, var)
    env.prove('splits', r[0] == 'ok', r)
    fst, snd, idx = r[1]
    if not env.sym:
        B = [bool(var(leaf(i))) for i in range(n)]
        env.prove('parts', fst == [leaf(i) for i in range(n) if B[i]] and snd == [leaf(i) for i in range(n) if not B[i]] and list(idx) == [i for i in range(n) if B[i]])
        return
    env.prove('sizes', env.and_(env.eq(env.len(fst), c.at(n)), env.eq(env.len(idx), c.at(n)), env.eq(env.len(snd), n - c.at(n))))
    k = env.int('k', 0)
    env.assume(k < n)
    j = c.at(k)
    if B(k):
        env.prove('variable in its place', env.and_(env.eq(env.get(fst, j), leaf(k)), env.eq(env.get(idx, j), k)))
        env.cover('variable')
    else:
        env.prove('constant in its place', env.eq(env.get(snd, k - j), leaf(k)))
        env.cover('constant')


def parts(env):
    """lists split by any classification B, the variables and constants possibly replaced by others"""
    n = env.length('n')
    isvar = env.fn('is_variable_at', ['int'], 'bool')
    fe, se = env.fn('variable', ['int'], LEAF), env.fn('constant', ['int'], LEAF)
    if not env.sym:
        B = [bool(isvar(i)) for i in range(n)]
        m = sum(B)
        return n, isvar, [fe(i) for i in range(m)], [se(i) for i in range(n - m)], [i for i in range(n) if B[i]], (lambda k: fe(sum(B[:k])) if B[k] else se(k - sum(B[:k])))
    c = ghost(env, isvar, n)
    m = c.at(n)
    pos = z3.Function('position', z3.IntSort(), z3.IntSort())
    j, q = z3.Ints('pj pq')
    b = lambda t: bterm(isvar(core.SInt(t)))
    core.ENG.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m.t), z3.And(pos(j) >= 0, pos(j) < iterm(n), b(pos(j)), c.f(pos(j)) == j)), patterns=[pos(j)]))
    core.ENG.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < iterm(n), b(q)), pos(c.f(q)) == q), patterns=[c.f(q)]))
    env.assume(env.and_(m >= 0, m <= n))
    return n, isvar, env.seq('first', fe, n=m), env.seq('second', se, n=n - m), C.sym_seq(m, lambda i: mkint(pos(iterm(i))), 'list'), (lambda k: fe(c.at(k)) if isvar(k) else se(k - c.at(k)))


def h_merge(env):
    """Merging two lists by the positions of the first restores the order and length: the element for position r is the next one of its own list."""
    n, isvar, fst, snd, idx, want = parts(env)
    r = env.run(F.list_reconstruct, fst, snd, idx)
    env.prove('merges', r[0] == 'ok', r)
    env.prove('length', env.eq(env.len(r[1]), n))
    k = env.int('k', 0)
    env.assume(k < n)
    env.prove('element', env.eq(env.get(r[1], k), want(k)))
    env.cover('end')


class TreeDef:
    _vf_ok = True

    def __init__(self, n): self.n = n


def tree_contracts(env, leaves, n, rebuilt):
    """jax's trees by contract: flatten gives the leaves and a definition, unflatten takes leaves back to the same places"""
    td = TreeDef(n)

    def flatten(v):
        return C.sym_seq(n, leaves, 'list'), td

    def unflatten(d, xs):
        core.ENG.prove('unflattened with the definition of the value', d is td)
        core.ENG.prove('as many leaves as the definition has', bterm(core.sym_eq(C.seq_len(xs), n)))
        rebuilt.append(xs)
        return ('rebuilt', xs)
    flatten._vf_ok = unflatten._vf_ok = True
    env.patch(F, 'tree_flatten', flatten)
    env.patch(F, 'tree_unflatten', unflatten)
    return td


def h_morph(env):
    """Taking any structure apart and putting it together again gives it back; with other variables, each stands where the one it replaces stood."""
    n = env.length('n')
    leaf = env.fn('leaf', ['int'], LEAF)
    var = env.fn('is_variable', [LEAF], 'bool')
    B = lambda i: var(leaf(i))
    c = ghost(env, B, n)
    rebuilt = []
    tree_contracts(env, leaf, n, rebuilt)
    r = env.run(F.var_morph, env.opaque('values', VAL), var)
    env.prove('taken apart', r[0] == 'ok', r)
    vs, morph = r[1]
    k = env.int('k', 0)
    env.assume(k < n)
    if env.choice('with', ['the same variables', 'others']) == 'others':
        new = env.fn('new_variable', ['int'], LEAF)
        vs = env.seq('new', new, n=env.len(vs))
        want = (lambda: new(c.at(k)) if B(k) else leaf(k))
    else:
        want = (lambda: leaf(k))
    d = env.run(F.var_demorph, vs, morph)
    env.prove('put together', d[0] == 'ok' and len(rebuilt) == 1 and d[1][0] == 'rebuilt', d)
    env.prove('leaves', env.eq(env.len(rebuilt[0]), n))
    env.cover('variable' if B(k) else 'constant')
    c.at(k)
    env.prove('every leaf in its own place', env.eq(env.get(rebuilt[0], k), want()))
    env.cover('end')


Point = collections.namedtuple('Point', 'x y')


class Var:
    def __init__(self, n): self.n = n
    def __repr__(self): return f'Var{self.n}'


def tree(g, depth, ctr):
    r = g.random()
    if depth == 0 or r < .35:
        x = g.random()
        if x < .45:
            ctr[0] += 1
            return Var(ctr[0])
        return g.choice([0, 1, 1, True, 'a', 'b', 2.5, (), [], {}, None])
    m = g.randint(0, 3)
    xs = [tree(g, depth - 1, ctr) for _ in range(m)]
    if r < .5:
        return xs
    if r < .65:
        return tuple(xs)
    if r < .75 and m >= 2:
        return Point(xs[0], xs[1])
    return dict(zip(g.sample(['b', 'a', 'z', 'c'], m), xs))


def alike(a, b, sub):
    if isinstance(a, Var):
        return b is sub.get(a, a)
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(alike(x, y, sub) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(alike(a[x], b[x], sub) for x in a)
    return a is b or a == b


def variables(t):
    if isinstance(t, Var):
        return [t]
    if isinstance(t, (list, tuple)):
        return [v for x in t for v in variables(x)]
    if isinstance(t, dict):
        return [v for x in sorted(t) for v in variables(t[x])]
    return []


def h_trees(env):
    """The same with real structures, through var_morph/var_demorph and normalize_fn."""
    g = env.rng
    t = tree(g, 4, [0])
    isv = lambda x: isinstance(x, Var)
    vs, morph = F.var_morph(t, isv)
    F.validate_morph_struct(morph)
    env.prove('the variables in order', list(map(id, vs)) == list(map(id, variables(t))), (t, vs))
    env.prove('the same structure', alike(t, F.var_demorph(list(vs), morph), {}), t)
    new = [Var(-i) for i in range(len(vs))]
    env.prove('replaced in place', alike(t, F.var_demorph(new, morph), dict(zip(vs, new))), t)
    env.prove('twice', alike(t, F.var_demorph(list(vs), morph), {}), t)
    args, kw = tuple(tree(g, 3, [100 * i]) for i in range(g.randint(0, 3))), {k: tree(g, 2, [1000]) for k in g.sample(['p', 'q', 'r'], g.randint(0, 3))}
    seen = []

    def fn(*a, **k):
        seen.append((a, k))
        return 'result'
    nf, params = F.normalize_fn(fn, args, kw, isv)
    new = [Var(-i) for i in range(len(params))]
    env.prove('calls the function', nf(new) == 'result' and len(seen) == 1)
    sub = dict(zip(params, new))
    env.prove('with its own arguments', alike(args, seen[0][0], sub) and alike(kw, seen[0][1], sub) and len(params) == len(variables(args)) + len(variables(kw)), (args, kw))
    env.cover('end')


def h_normalize(env):
    """The normalised function calls the original one with the structure of its arguments, the variables replaced by those given."""
    args, kw = env.opaque('args', VAL), env.opaque('kwargs', VAL)
    n = env.length('n')
    leaf, new = env.fn('leaf', ['int'], LEAF), env.fn('new', ['int'], LEAF)
    var = env.fn('is_variable', [LEAF], 'bool')
    given, calls = [], []
    a0, k0 = env.opaque('a0', LEAF), env.opaque('k0', LEAF)

    def morph(v, p):
        core.ENG.prove('the arguments are taken apart together', isinstance(v, tuple) and len(v) == 2 and v[0] is args and v[1] is kw and p is var)
        return 'variables', 'morph'

    def demorph(v, m):
        core.ENG.prove('put together with what was taken apart', m == 'morph')
        given.append(v)
        return (a0,), {'k': k0}

    def fn(*a, **k):
        calls.append((a, k))
        return 'result'
    for f in (morph, demorph, fn):
        f._vf_ok = True
    env.patch(F, 'var_morph', morph)
    env.patch(F, 'var_demorph', demorph)
    r = env.run(F.normalize_fn, fn, args, kw, var)
    env.prove('normalised', r[0] == 'ok' and r[1][1] == 'variables', r)
    xs = env.seq('xs', new, n=n)
    q = env.run(r[1][0], xs)
    env.prove('the result is the function\'s', q[0] == 'ok' and q[1] == 'result', q)
    env.prove('called once with the rebuilt arguments', len(calls) == 1 and len(given) == 1 and given[0] is xs and len(calls[0][0]) == 1 and calls[0][0][0] is a0 and set(calls[0][1]) == {'k'} and calls[0][1]['k'] is k0)


def harnesses():
    return [
        H('split', h_split, conc=300, functions=['list_split'], mbqi=False, branch_ms=100, what=h_split.__doc__),
        H('merge', h_merge, conc=3000, functions=['list_reconstruct'], mbqi=False, branch_ms=100, budget=120, what=h_merge.__doc__),
        H('morph', h_morph, conc=0, functions=['var_morph', 'var_demorph', 'list_split', 'list_reconstruct'], mbqi=False, branch_ms=100, budget=120, what=h_morph.__doc__),
        H('normalize', h_normalize, conc=0, functions=['normalize_fn'], what=h_normalize.__doc__),
        H('trees', h_trees, sym=False, conc=6000, conc_s=6, functions=['var_morph', 'var_demorph', 'normalize_fn', 'validate_morph_struct'], what=h_trees.__doc__)]
