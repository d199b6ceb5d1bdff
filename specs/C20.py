"""C20  Type equality, hashing and serialization agree."""
import json
import z3
from pyvc.worker import H
from pyvc import core, containers as C
from pyvc.core import Sort

INSTRUMENT = ['mplang.edsl.typing', 'mplang.dialects.crypto', 'mplang.dialects.tee', 'mplang.dialects.bfv', 'mplang.dialects.phe', 'mplang.edsl.serde']
ASSUMPTIONS = ['components are of the declared types (a shape is a tuple of integers, parties a tuple of ranks or None, a schema a dictionary with string keys)',
               'the types of mplang.dialects.phe have no written form (to_json raises TypeError); only equality and hashing are claimed for them']
TRUSTED = ['hash() of a tuple, a set or a builtin value is a function of that value']

import vp_without_spu  # noqa
import mplang.edsl.serde as serde
import mplang.edsl.typing as T
import mplang.dialects.crypto as CR
import mplang.dialects.tee as TE
import mplang.dialects.bfv as B
import mplang.dialects.phe as P

NESTED = Sort('Nested')


class Inner:
    """any type (induction hypothesis): equality and hash are functions of what it is, and it survives being written out"""
    _vf_ok = True

    def __init__(self, v): self.v = v
    def __eq__(self, o): return core.sym_eq(self.v, o.v) if isinstance(o, Inner) else False
    def __ne__(self, o): return core.Not(self == o)
    def __hash__(self): return hash('Inner') if isinstance(self.v, core.Sym) else hash(self.v)
    def vf_hash(self): return core.mkint(z3.Function('hash.Nested', NESTED.z, z3.IntSort())(self.v.t))
    def __str__(self): return 'inner'
    __repr__ = __str__
    def to_json(self): return {'ref': self}
    @classmethod
    def from_json(cls, data): return data['ref']


def inner(name, base):
    return serde.register_class(type(name, (Inner, base), dict(_serde_kind='vf.' + name, _vf_ok=True)))


ANY, SCALAR = inner('AnyInner', T.BaseType), inner('ScalarInner', T.ScalarType)


def any_type(env, n): return ANY(env.opaque(n, NESTED))
def scalar(env, n): return SCALAR(env.opaque(n, NESTED))
def vector(env, n): return build(env, T.VectorType, n)
RESEMBLING = ['ss', 'SS', 'ss ', ' ss', 'Ss', 's', '', 'sſ', 'aby3', 'ABY3', 'a.b', 'a/b', 'a', 'A']      # concretely: strings that are easily taken for one another


def text(env, n): return env.str(n, conc=lambda rng: rng.choice(RESEMBLING))
def number(env, n): return env.int(n)
def flag(env, n): return env.bool(n)
def floating(env, n): return build(env, T.FloatType, n)


def dims(env, n):
    ln = env.length(n + '_rank')
    f = env.fn(n + '_dim', ['int'], 'int')
    env.assume(env.forall(ln, lambda i: env.or_(f(i) > 0, env.eq(f(i), -1))))
    return env.seq(n, f, n=ln, kind='tuple')


def ranks(env, n):
    if env.choice(n + '_dynamic', [False, True]):
        return None
    return env.seq(n, env.fn(n + '_rank', ['int'], 'int'), n=env.length(n + '_n'), kind='tuple')


# class -> component name -> arbitrary component
CLASSES = {
    T.IntegerType: dict(bitwidth=number, signed=flag),
    T.FloatType: dict(bitwidth=number),
    T.ComplexType: dict(inner_type=floating),
    T.TensorType: dict(element_type=any_type, shape=dims),
    T.VectorType: dict(element_type=scalar, size=number),
    T.CustomType: dict(kind=text),
    T.SSType: dict(secret_type=any_type, enc_schema=text),
    T.MPType: dict(value_type=any_type, parties=ranks),
    CR.PointType: dict(curve=text), CR.ScalarType: dict(curve=text), CR.PrivateKeyType: dict(suite=text), CR.PublicKeyType: dict(suite=text), CR.SymmetricKeyType: dict(suite=text),
    TE.QuoteType: {}, TE.AttestedKeyType: dict(curve=text), TE.MeasurementType: {},
    B.KeyType: dict(kind=text, poly_modulus_degree=number), B.PlaintextType: dict(vector_type=vector), B.CiphertextType: dict(vector_type=vector), B.EncoderType: dict(poly_modulus_degree=number),
    P.KeyType: dict(scheme=text, is_public=flag), P.PlaintextType: dict(bitwidth=number), P.CiphertextType: dict(scheme=text)}
UNWRITTEN = (P.KeyType, P.PlaintextType, P.CiphertextType)
LOCAL = {c: f'{c.__module__.rsplit(".", 1)[1]}.{c.__name__}' for c in [*CLASSES, T.TableType]}


def parts_of(env, cls, n):
    return {k: f(env, f'{n}_{k}') for k, f in CLASSES[cls].items()}


def build(env, cls, n, parts=None):
    parts = parts_of(env, cls, n) if parts is None else parts
    r = env.run(lambda: cls(**parts))
    env.assume(r[0] == 'ok')        # the types that can be built
    return r[1]


def agree(env, cls, a, b, same):
    env.prove('equal exactly when all components are', env.iff(env.eq(a, b), same))
    env.prove('unequal otherwise', env.iff(a != b, env.not_(same)))
    env.prove('equal types have equal hashes', env.implies(same, env.eq(hash_of(env, a), hash_of(env, b))))


def hash_of(env, x):
    if not env.sym:
        return hash(x)
    from pyvc import models
    return models.sym_hash(x)


def h_class(env, cls):
    pa, pb = parts_of(env, cls, 'a'), parts_of(env, cls, 'b')
    a, b = build(env, cls, 'a', pa), build(env, cls, 'b', pb)
    agree(env, cls, a, b, env.and_(True, *[env.eq(pa[k], pb[k]) for k in pa]))
    env.prove('equal to itself', env.eq(a, a))
    if cls not in UNWRITTEN:
        j = env.run(serde.to_json, a)
        env.prove('written out', j[0] == 'ok', j)
        back = env.run(serde.from_json, j[1])
        env.prove('read back', back[0] == 'ok', back)
        env.prove('the same class', type(back[1]) is cls)
        env.prove('an equal type', env.eq(back[1], a))
    env.cover('end')


def table(env, n, count, m):
    """a table type with m columns"""
    names = [env.str(f'{n}_name{i}') for i in range(m)]
    types = [any_type(env, f'{n}_type{i}') for i in range(m)]
    for i in range(m):
        for j in range(i):
            env.assume(env.not_(env.eq(names[i], names[j])))
    return names, types, build(env, T.TableType, n, dict(schema=dict_of(env, names, types), nrows=env.int(n + '_nrows')))


def dict_of(env, names, types):
    d = C.VDict() if env.sym else {}
    for k, v in zip(names, types):
        d[k] = v
    return d


def h_table_eq(env):
    """Tables: equal exactly when they have the same columns with the same types and the same row count; equal ones hash alike (up to two columns each)."""
    n, m = env.choice('columns', [0, 1, 2]), env.choice('other', [0, 1, 2])
    na, ta, a = table(env, 'a', 'na', n)
    nb, tb, b = table(env, 'b', 'nb', m)
    same = env.and_(n == m, env.eq(a.nrows, b.nrows), *[env.or_(False, *[env.and_(env.eq(na[i], nb[j]), env.eq(ta[i], tb[j])) for j in range(m)]) for i in range(n)])
    agree(env, T.TableType, a, b, same)


def h_table_json(env):
    """A table type with any number of columns reads back equal."""
    n = env.length('columns')
    ty = env.fn('type', ['int'], NESTED)
    name = env.fn('name', ['int'], NAME)
    d = C.sym_dict('schema', NAME, lambda i: ANY(ty(i)), n=n)
    a = build(env, T.TableType, 'a', dict(schema=d, nrows=env.int('nrows')))
    back = env.run(lambda: serde.from_json(serde.to_json(a)))
    env.prove('read back', back[0] == 'ok', back)
    b = back[1]
    env.prove('a table', type(b) is T.TableType)
    env.prove('the same row count', env.eq(b.nrows, a.nrows))
    env.prove('as many columns', env.eq(env.len(b.schema), n))
    i = env.int('i', 0)
    env.assume(i < n)
    env.prove('the same columns', env.eq(b.schema[d._sym.key(i)], d[d._sym.key(i)]))
    env.cover('end')


NAME = Sort('Name', pytype=str)


def h_kinds(env):
    """Types of different classes are never equal, whatever their components, and are written under different kinds."""
    cs = [*CLASSES, T.TableType]
    objs = {c: build(env, c, LOCAL[c], None if c is not T.TableType else dict(schema=dict_of(env, [], []), nrows=-1)) for c in cs}
    for c in cs:
        for d in cs:
            if c is not d:
                env.prove(f'{LOCAL[c]} is not {LOCAL[d]}', env.not_(env.eq(objs[c], objs[d])))
    kinds = [c._serde_kind for c in cs if c not in UNWRITTEN]
    env.prove('kinds differ', len(set(kinds)) == len(kinds))
    for c in cs:
        if c not in UNWRITTEN:
            env.prove(f'{LOCAL[c]} is read by its class', serde.get_registered_class(c._serde_kind) is c)


# ---- real nested types
def rtype(g, depth, scalar=False):
    pick = g.choice
    base = [lambda: T.IntegerType(bitwidth=pick([8, 32, 64, 128]), signed=pick([True, False])), lambda: T.FloatType(bitwidth=pick([16, 32, 64])), lambda: T.ComplexType(inner_type=T.FloatType(bitwidth=pick([32, 64])))]
    vec = lambda: T.VectorType(rtype(g, 0, True), pick([1, 4, 4096]))
    flat = [lambda: T.CustomType(pick(['string', 'date', 'x y', 'É'])), *[(lambda c=c: c(pick(['secp256k1', 'x25519', '']))) for c in (CR.PointType, CR.ScalarType, CR.PrivateKeyType, CR.PublicKeyType, CR.SymmetricKeyType, TE.AttestedKeyType)],
            TE.QuoteType, TE.MeasurementType, lambda: B.KeyType(pick(['Public', 'Private', 'Relin', 'Galois']), pick([1024, 4096])), lambda: B.PlaintextType(vec()), lambda: B.CiphertextType(vec()), lambda: B.EncoderType(pick([1024, 4096])), vec]
    if scalar:
        return pick(base)()
    if depth == 0 or g.random() < .25:
        return pick(base + flat)()
    sub = lambda: rtype(g, depth - 1)
    return pick([lambda: T.TensorType(sub(), tuple(pick([-1, 1, 2, 3]) for _ in range(g.randint(0, 3)))),
                 lambda: T.TableType({k: sub() for k in g.sample(['a', 'b', 'c', ''], g.randint(0, 3))}, nrows=pick([-1, 1, 5])),
                 lambda: T.SSType(sub(), pick(['ss', 'x', 'SS', 'ss '])), lambda: T.MPType(sub(), pick([None, (), (0,), (1, 0), (0, 1)]))])()


def canon(t):
    """what a type is made of, read from its attributes"""
    a = {k: v for k, v in vars(t).items()}
    out = [type(t).__module__, type(t).__name__]
    for k in sorted(a):
        v = a[k]
        if isinstance(v, T.BaseType):
            v = canon(v)
        elif isinstance(v, dict):
            v = tuple(sorted((n, canon(x)) for n, x in v.items()))
        out.append((k, v))
    return tuple(map(repr, out))


def h_nested(env):
    """Real nested types: equality, hash and the written form agree with what the types are made of; the written form survives JSON text."""
    g = env.rng
    st = g.getstate()
    a = rtype(g, 3)
    if g.random() < .6:         # nearly the same
        import random
        h = random.Random()
        h.setstate(st)
        b = rtype(h, 3)
    else:
        b = rtype(g, 3)
    if g.random() < .5:
        twist(g, b)
    same = canon(a) == canon(b)
    env.prove('equality', (a == b) is same and (b == a) is same and (a != b) is (not same), (a, b))
    env.prove('hash', not same or hash(a) == hash(b), (a, b))
    for t in (a, b):
        r = serde.from_json(json.loads(json.dumps(serde.to_json(t))))
        env.prove('round trip', r == t and canon(r) == canon(t) and hash(r) == hash(t), (t, r))
        env.prove('through bytes', serde.loads(serde.dumps(t)) == t and serde.loads_b64(serde.dumps_b64(t)) == t if hasattr(serde, 'dumps_b64') else True)
    env.cover('equal' if same else 'different')


def twist(g, t):
    """change one component somewhere"""
    d = vars(t)
    if not d:
        return
    k = g.choice(sorted(d))
    v = d[k]
    if isinstance(v, T.BaseType):
        return twist(g, v)
    if isinstance(v, dict):
        if len(v) > 1 and g.random() < .4:       # the same columns in another order
            d[k] = dict(list(v.items())[::-1])
            return
        if v and g.random() < .5:
            return twist(g, v[g.choice(sorted(v))])
        d[k] = {**v, 'new': T.i32} if g.random() < .5 or not v else dict(list(v.items())[:-1])
    elif isinstance(v, bool):
        d[k] = not v
    elif isinstance(v, int):
        d[k] = {-1: 7}.get(v, v * 2)
    elif k in ('scheme', '_scheme'):
        return
    elif isinstance(v, str):
        # something else that is easily taken for it
        d[k] = g.choice([x for x in (v + 'z', v.swapcase(), v + ' ', ' ' + v, v[:-1], v[::-1], v.replace('2', '1'), v + '/a') if x not in (v, '')])
    elif isinstance(v, tuple):
        d[k] = v[::-1] + ((3,) if v == v[::-1] else ())
    elif v is None:
        d[k] = (2,)


def harnesses():
    hs = [H('type-' + LOCAL[c], (lambda env, c=c: h_class(env, c)), conc=0, functions=[f'{LOCAL[c]}.{m}' for m in ('__init__', '__eq__', '__hash__', 'to_json', 'from_json')],
            what='two types of this class are equal exactly when all their components are, equal ones hash alike, and each reads back equal') for c in CLASSES]
    return hs + [
        H('table-eq', h_table_eq, conc=0, unbounded=False, bound=2, functions=['TableType.__eq__', 'TableType.__hash__'], what=h_table_eq.__doc__),
        H('table-json', h_table_json, conc=0, functions=['TableType.to_json', 'TableType.from_json'], what=h_table_json.__doc__),
        H('kinds', h_kinds, conc=0, functions=['BaseType'], what=h_kinds.__doc__),
        H('nested', h_nested, sym=False, conc=6000, conc_s=10, functions=['serde.to_json', 'serde.from_json'], what=h_nested.__doc__)]
