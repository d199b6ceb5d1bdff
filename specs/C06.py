"""C06  Graphs and program artifacts survive serialization unchanged."""
import dataclasses
import json
import random
import types
from typing import ClassVar
import z3
from pyvc.worker import H
from pyvc import core, containers as C, models as M, loops
from pyvc.core import Sort, SVal, SInt, Sym

INSTRUMENT = ['mplang.edsl.graph', 'mplang.edsl.program', 'mplang.tool.program']
ASSUMPTIONS = ['serde.from_json(serde.to_json(x)) is x again for types and attribute values (C03, C20), and, by induction on nesting, for the regions of a graph',
               'Graph.add_op and Graph.add_output behave as their contracts proved under C05',
               'the graph was built by the library: value names are unique, operands are defined before they are used, outputs are values of the graph (C05, C14)',
               'SHA-256 has no collisions; json.dumps of equal documents is equal text']
TRUSTED = ['json, gzip and tar containers (their behaviour is exercised concretely)']

import pyvc.nospu  # noqa: F401
import mplang.edsl.graph as G
import mplang.edsl.program as PR
import mplang.tool.program as TP
from mplang.edsl.typing import BaseType

TY = Sort('Type6', pytype=BaseType)
REG = Sort('Region6', pytype=G.Graph)
AV = Sort('AttrVal6')


@dataclasses.dataclass
class Enc:
    """the document of a value whose encoding is proved elsewhere"""
    x: object
    _vf_ok: ClassVar = True


def codec(env):
    def frm(d):
        if not isinstance(d, Enc):
            raise core.Unsupported('reads a document it did not write')
        return d.x
    env.patch(G, 'serde', types.SimpleNamespace(to_json=Enc, from_json=frm))


I, S = z3.IntSort(), z3.StringSort()
F = {n: z3.Function('c6_' + n, *ks) for n, ks in dict(
    iname=(I, S), ity=(I, TY.z), opc=(I, S), nin=(I, I), opnd=(I, I, S), m=(I, I), oname=(I, I, S), oty=(I, I, TY.z), nreg=(I, I), reg=(I, I, REG.z),
    nat=(I, I), akey=(I, I, S), aidx=(I, S, I), aval=(I, I, AV.z), gname=(I, S), xname=(I, S), dop=(S, I), dpos=(S, I)).items()}
NI, NO, NX = z3.Int('NI'), z3.Int('NO'), z3.Int('NX')


def before(x, k):
    """x names an input, or a result of an operation before the k-th"""
    o, p = F['dop'](x), F['dpos'](x)
    return z3.Or(z3.And(o == -1, p >= 0, p < NI, F['iname'](p) == x), z3.And(o >= 0, o < k, p >= 0, p < F['m'](o), F['oname'](o, p) == x))


def original(env):
    """any graph the library can build, as its fields"""
    e = core.ENG
    k, j = z3.Ints('ok oj')
    a = e.assume
    a(z3.And(NI >= 0, NO >= 0, NX >= 0))
    a(z3.ForAll([k], z3.And(F['nin'](k) >= 0), patterns=[F['nin'](k)]))
    a(z3.ForAll([k], z3.And(F['m'](k) >= 0), patterns=[F['m'](k)]))
    a(z3.ForAll([k], z3.And(F['nreg'](k) >= 0), patterns=[F['nreg'](k)]))
    a(z3.ForAll([k], z3.And(F['nat'](k) >= 0), patterns=[F['nat'](k)]))
    a(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < NI), z3.And(F['dop'](F['iname'](k)) == -1, F['dpos'](F['iname'](k)) == k)), patterns=[F['iname'](k)]))
    a(z3.ForAll([k, j], z3.Implies(z3.And(k >= 0, k < NO, j >= 0, j < F['m'](k)), z3.And(F['dop'](F['oname'](k, j)) == k, F['dpos'](F['oname'](k, j)) == j)),
                patterns=[F['oname'](k, j)]))
    a(z3.ForAll([k, j], z3.Implies(z3.And(k >= 0, k < NO, j >= 0, j < F['nin'](k)), before(F['opnd'](k, j), k)), patterns=[F['opnd'](k, j)]))
    a(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < NX), before(F['xname'](k), NO)), patterns=[F['xname'](k)]))
    a(z3.ForAll([k, j], z3.Implies(z3.And(j >= 0, j < F['nat'](k)), F['aidx'](k, F['akey'](k, j)) == j), patterns=[F['akey'](k, j)]))
    a(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < NO), z3.Length(F['gname'](k)) > 0), patterns=[F['gname'](k)]))
    t = core.iterm
    V = lambda name, ty: types.SimpleNamespace(name=core.mkstr(name), type=SVal(ty, TY) if ty is not None else None)

    def op(k):
        k = t(k)
        at = C.VDict()
        n = SInt(F['nat'](k))

        def has(x):
            i = F['aidx'](k, core.sterm(x))
            return core.mkbool(z3.And(i >= 0, i < n.t, F['akey'](k, i) == core.sterm(x)))
        val = lambda i: SVal(F['aval'](k, t(i)), AV)
        at._sym = C.SymBase(has, lambda x: val(SInt(F['aidx'](k, core.sterm(x)))), n, lambda i: core.mkstr(F['akey'](k, t(i))), val)
        at._symkeys = True
        return types.SimpleNamespace(
            opcode=core.mkstr(F['opc'](k)), name=core.mkstr(F['gname'](k)), attrs=at,
            inputs=C.sym_seq(SInt(F['nin'](k)), lambda j: V(F['opnd'](k, t(j)), None)),
            outputs=C.sym_seq(SInt(F['m'](k)), lambda j: V(F['oname'](k, t(j)), F['oty'](k, t(j)))),
            regions=C.sym_seq(SInt(F['nreg'](k)), lambda j: SVal(F['reg'](k, t(j)), REG)))
    g = G.Graph()
    g.inputs = C.sym_seq(SInt(NI), lambda i: V(F['iname'](t(i)), F['ity'](t(i))))
    g.operations = C.sym_seq(SInt(NO), op)
    g.outputs = C.sym_seq(SInt(NX), lambda i: V(F['xname'](t(i)), None))
    return g


class New:
    """The graph being rebuilt: name table, names and types of its values."""

    def __init__(self, env):
        self.env = env
        st = self
        self.NV = Sort('NewValue6', attrs={'name': lambda v: st.name.get(v), 'type': lambda v: SVal(st.ty(v.t), TY), 'defining_op': None},
                       setters={'name': lambda v, s: st.name.set(v, s)})
        self.img = z3.Function('c6_img', S, self.NV.z)
        self.nm = z3.Function('c6_nm', self.NV.z, S)
        self.ty = z3.Function('c6_ty', self.NV.z, TY.z)
        x = z3.String('imgx')
        # the value standing for a name of the original: that name, that type
        core.ENG.assume(z3.ForAll([x], z3.And(self.nm(self.img(x)) == x, self.ty(self.img(x)) == z3.If(F['dop'](x) == -1, F['ity'](F['dpos'](x)), F['oty'](F['dop'](x), F['dpos'](x)))),
                                  patterns=[self.img(x)]))
        self.name = C.Heap(lambda v: core.mkstr(self.nm(v.t)), 'str')
        self.g = g = G.Graph()
        g.values = C.VDict()
        self.table(lambda x: z3.BoolVal(False), lambda x: self.img(x))
        self.adds = []

    def table(self, has, val):
        d = self.g.values
        core.ENG.touch(d)
        w = C.VDict()
        w._sym = C.SymBase(lambda x: core.mkbool(has(core.sterm(x))), lambda x: SVal(val(core.sterm(x)), self.NV))
        w._symkeys = True
        d._vf_restore(w._vf_save())

    def known(self, x, k):
        """name x is in the table exactly if it is defined before operation k, and then stands for the value of that name and type"""
        e = self.env
        got = core.mkbool(before(core.sterm(x), k))
        e.prove('the name table has exactly the names defined so far', e.iff(e.contains(self.g.values, x), got))

    def names(self, g, k):
        """invariant state before operation k"""
        self.table(lambda x: before(x, k), self.img)
        core.ENG.touch(self.name)
        self.name._vf_restore((lambda v: core.mkstr(self.nm(v.t)), ()))
        core.ENG.touch(g)
        g._value_counter = core.fresh_int('counter')
        core.ENG.assume(g._value_counter >= 0)

    def add_op(self, g, opcode, inputs, output_types=None, attrs=None, regions=None):
        """contract of Graph.add_op (C05)"""
        e, env = core.ENG, self.env
        env.prove('result types are given', output_types is not None)
        m = env.len(output_types)
        d = g.values
        tag = e.fresh('add')
        gen = z3.Function(tag + '_gen', I, S)
        new = z3.Function(tag + '_new', I, self.NV.z)
        gix = z3.Function(tag + '_gix', S, I)
        nix = z3.Function(tag + '_nix', self.NV.z, I)
        q = z3.Int(tag + 'q')
        has0, val0 = d._sym.has, d._sym.val
        rng = z3.And(q >= 0, q < core.iterm(m))
        e.assume(z3.ForAll([q], z3.Implies(rng, z3.And(gix(gen(q)) == q, z3.Not(core.bterm(has0(core.mkstr(gen(q))))))), patterns=[gen(q)]))
        e.assume(z3.ForAll([q], z3.Implies(rng, nix(new(q)) == q), patterns=[new(q)]))
        x = z3.String(tag + 'x')
        e.assume(z3.ForAll([q, x], z3.Implies(rng, new(q) != self.img(x)), patterns=[z3.MultiPattern(new(q), self.img(x))]))
        nmA = z3.Function(tag + '_name', self.NV.z, S)
        before = self.name._vf_save()
        e.assume(z3.ForAll([q], z3.Implies(rng, nmA(new(q)) == gen(q)), patterns=[new(q), gen(q)]))
        if before[1]:
            raise core.Unsupported('renamed before')
        e.assume(z3.ForAll([x], nmA(self.img(x)) == core.sterm(before[0](SVal(self.img(x), self.NV))), patterns=[self.img(x)]))
        e.touch(self.name)
        self.name._vf_restore((lambda v: core.mkstr(nmA(v.t)), ()))
        isgen = lambda s: z3.And(gix(s) >= 0, gix(s) < core.iterm(m), gen(gix(s)) == s)
        self.table(lambda s: z3.Or(isgen(s), core.bterm(has0(core.mkstr(s)))), lambda s: z3.If(isgen(s), new(gix(s)), core.unwrap(val0(core.mkstr(s)))))
        outs = C.sym_seq(m, lambda j: SVal(new(core.iterm(j)), self.NV))
        op = object.__new__(G.Operation)
        op.__dict__.update(opcode=opcode, inputs=inputs, outputs=outs, attrs=attrs or {}, regions=regions or [], name='op#')
        self.adds.append((op, output_types, lambda j: SVal(new(core.iterm(j)), self.NV)))
        g.operations.append(op)
        return outs

    def add_output(self, g, v):
        """contract of Graph.add_output (C05)"""
        self.env.prove('an output is a value of the graph', self.env.contains(g.values, v.name))
        g.outputs.append(v)


def overlay(d, base):
    """writes to a table since it was `base`"""
    with core.hashing():
        old = {id(k): v for k, v in base[2]}
        its = [(k, v) for k, v in dict.items(d) if old.get(id(k), old) is not v]
    if d._sym is not base[1]:
        raise core.Unsupported('the table is replaced')
    return its


def inner_rule(st, p, body, get, set_):
    """Hoare's rule for a loop over the results of one operation that drops or adds names: the names it writes in iteration j are keys key(j),
    pairwise different; after i iterations exactly those of the iterations before are written."""
    env, g = st.env, st.g
    e = core.ENG
    n, entry = p[1], get()
    base, hbase = g.values._vf_save(), st.name._vf_save()
    if base[2]:
        raise core.Unsupported('pending writes')

    def once(k):
        set_(entry)
        r = body(C.part_get(p, k))
        return (r, overlay(g.values, base), [w for w in st.name.writes if w not in hbase[1]])
    kb = C.kbody(n, once)
    set_(entry)
    goes = [o for o in kb.outcomes if o['kind'] == 'val' and o['value'][0] is None]
    if not goes:
        raise core.Unsupported('the loop never iterates')
    shapes = {tuple(v is C._DEL for _, v in o['value'][1]) + (len(o['value'][2]),) for o in goes}
    if not any(any(x) for x in shapes) and not any(o['value'][1] for o in goes):
        return loops.sym_part(p, body, get, set_, 'pure')
    if len(shapes) != 1 or len(goes[0]['value'][1]) != 1:
        raise core.Unsupported('writes of the loop differ')
    o = goes[0]
    (key, v), names = o['value'][1][0], o['value'][2]
    at = lambda x, j: C.KBody(kb.k, [dict(o, value=x, pc=[])], kb.fresh0, kb.fresh1).instantiate(j)
    tag = e.fresh('dl')
    ix = z3.Function(tag + '_ix', S, I)
    K = lambda j: core.sterm(at(key, SInt(j)))
    a, b = core.fresh_int('a'), core.fresh_int('b')
    rng = core.And(a >= 0, a < b, b < n)
    env.prove('different results write different names', env.implies(rng, core.mkbool(K(a.t) != K(b.t))))
    q = z3.Int(tag + 'q')
    e.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < core.iterm(n)), ix(K(q)) == q), patterns=[K(q)]))
    has0, val0 = base[1].has, base[1].val
    nx = z3.Function(tag + '_nx', st.NV.z, I)
    if names:
        if len(names) > 1:
            raise core.Unsupported('several renames')
        Y = lambda j: at(names[0][0], SInt(j)).t
        env.prove('different values are renamed', env.implies(rng, core.mkbool(Y(a.t) != Y(b.t))))
        e.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < core.iterm(n)), nx(Y(q)) == q), patterns=[Y(q)]))
    prev = C.Heap(hbase[0], 'str')
    prev.writes = hbase[1]

    def install(i):
        i = core.iterm(i)
        done = lambda s: z3.And(ix(s) >= 0, ix(s) < i, K(ix(s)) == s)
        if v is C._DEL:
            st.table(lambda s: z3.And(core.bterm(has0(core.mkstr(s))), z3.Not(done(s))), lambda s: core.unwrap(val0(core.mkstr(s))))
        else:
            st.table(lambda s: z3.Or(done(s), core.bterm(has0(core.mkstr(s)))),
                     lambda s: z3.If(done(s), core.unwrap(at(v, SInt(ix(s)))), core.unwrap(val0(core.mkstr(s)))))
        if names:
            dn = lambda w: z3.And(nx(w) >= 0, nx(w) < i, Y(nx(w)) == w)
            e.touch(st.name)
            st.name._vf_restore((lambda w: core.mkstr(z3.If(dn(w.t), core.sterm(at(names[0][1], SInt(nx(w.t)))), core.sterm(prev.get(w)))), ()))
    for nm in get():
        pass
    if st.target == 'result' and env.choice('loop', ['iteration', 'after']) == 'iteration':
        i = core.fresh_int('i')
        e.assume(core.And(i >= 0, i < n))
        install(i)
        b2, h2 = g.values._vf_save(), st.name._vf_save()
        r = body(C.part_get(p, i))
        if r is not None:
            return r
        w = overlay(g.values, b2)
        env.prove('each iteration writes its name', env.and_(len(w) == 1, env.eq(w[0][0], at(key, i)), (w[0][1] is C._DEL) == (v is C._DEL)))
        if v is not C._DEL:
            env.prove('each iteration stores its value', env.eq(w[0][1], at(v, i)))
        ws = [x for x in st.name.writes if x not in h2[1]]
        env.prove('each iteration renames as the others do', env.and_(len(ws) == len(names), *[env.and_(env.eq(x[0], at(y[0], i)), env.eq(x[1], at(y[1], i))) for x, y in zip(ws, names)]))
        raise core.Kill('end of the arbitrary iteration')
    install(n)
    set_({nm: x if nm in entry and x is entry[nm] else loops.Poison(nm) for nm, x in get().items()})
    return None


def outer(st):
    """Hoare's rule for the loops of from_json over inputs, operations and outputs."""
    env, g = st.env, st.g
    e = core.ENG
    NV = st.NV
    once = {}

    def handler(seq, body, get, set_, info):
        ps = C.seq_parts(seq)
        sym = [p for p in ps if p[0] == 's']
        if len(ps) != 1 or not sym:
            raise core.Unsupported('partly known sequence')
        p = ps[0]
        n = p[1]
        entry = get()
        if once.get('deep'):
            return inner_rule(st, p, body, get, set_)
        N = core.iterm(n)
        which = 'inputs' if N.eq(NI) else 'operations' if N.eq(NO) else 'outputs' if N.eq(NX) else None
        if which is None:
            return loops.sym_part(p, body, get, set_, info)
        img = lambda x: SVal(st.img(x), NV)
        once[which] = once.get(which, 0) + 1
        if once[which] > 1:
            raise core.Unsupported('several passes')

        def install(i):
            i = core.iterm(i)
            st.names(g, z3.IntVal(0) if which == 'inputs' else i if which == 'operations' else NO)
            if which == 'inputs':
                h = lambda x: z3.And(F['dop'](x) == -1, F['dpos'](x) >= 0, F['dpos'](x) < i, F['iname'](F['dpos'](x)) == x)
                st.table(h, st.img)
                g.inputs = C.sym_seq(SInt(i), lambda j: img(F['iname'](core.iterm(j))))
            elif which == 'operations':
                f = z3.Function('c6_earlier', I, z3.DeclareSort('OpRef6'))
                g.operations = C.sym_seq(SInt(i), lambda j: SVal(f(core.iterm(j)), OPR))
            else:
                g.outputs = C.sym_seq(SInt(i), lambda j: img(F['xname'](core.iterm(j))))
        x = env.str('anyname')
        if st.target == which or st.target == 'result' and which == 'operations':
            i = core.fresh_int('i')
            e.assume(core.And(i >= 0, i < n))
            install(i)
            ins0, ops0, outs0 = g.inputs, g.operations, g.outputs
            li, lo, lx = env.len(ins0), env.len(ops0), env.len(outs0)
            once['deep'] = which == 'operations'
            r = body(C.part_get(p, i))
            once['deep'] = False
            if st.target == 'result':
                env.cover('end')
                raise core.Kill('after the loops')
            if r is not None:
                raise core.Unsupported('leaves the loop')
            grow = lambda w: 1 if w == which else 0
            env.prove('exactly one entry is added', env.and_(env.eq(env.len(g.inputs), li + grow('inputs')), env.eq(env.len(g.operations), lo + grow('operations')),
                                                             env.eq(env.len(g.outputs), lx + grow('outputs'))))
            if which == 'inputs':
                nm = F['iname'](i.t)
                v = env.get(g.inputs, li)
                env.prove('input: same name', env.eq(v.name, core.mkstr(nm)))
                env.prove('input: same type', env.eq(v.type, SVal(F['ity'](i.t), TY)))
                got = env.run(g.values.__getitem__, core.mkstr(nm))
                env.prove('input: found by its name', got[0] == 'ok' and got[1] is v)
                j = x.t
                env.prove('other names untouched', env.iff(env.contains(g.values, x), core.mkbool(z3.And(F['dop'](j) == -1, F['dpos'](j) >= 0, F['dpos'](j) <= i.t, F['iname'](F['dpos'](j)) == j))))
                for k in env.each('k', li):
                    env.prove('earlier inputs keep their place', env.eq(env.get(g.inputs, k), img(F['iname'](core.iterm(k)))))
            elif which == 'outputs':
                env.prove('output: the same value', env.eq(env.get(g.outputs, lx), img(F['xname'](i.t))))
                env.prove('names untouched', env.iff(env.contains(g.values, x), core.mkbool(before(x.t, NO))))
                for k in env.each('k', lx):
                    env.prove('earlier outputs keep their place', env.eq(env.get(g.outputs, k), img(F['xname'](core.iterm(k)))))
            else:
                check_op(env, st, g, i, lo, x)
            env.cover('end')
            raise core.Kill('end of the arbitrary iteration')
        install(n)
        set_({nm: v if nm in entry and v is entry[nm] else loops.Poison(nm) for nm, v in get().items()})
        return None
    loops.HANDLERS.append((lambda seq, info: True, handler))


OPR = Sort('OpRef6')


def check_op(env, st, g, i, lo, x):
    e = core.ENG
    k = i.t
    t = core.iterm
    op = env.get(g.operations, lo)
    env.prove('operation: opcode', env.eq(op.opcode, core.mkstr(F['opc'](k))))
    env.prove('operation: name', env.eq(op.name, core.mkstr(F['gname'](k))))
    env.prove_seq('operation: operands are the values of those names', op.inputs, SInt(F['nin'](k)), lambda j: SVal(st.img(F['opnd'](k, t(j))), st.NV))
    env.prove_seq('operation: regions', op.regions, SInt(F['nreg'](k)), lambda j: SVal(F['reg'](k, t(j)), REG))
    at = op.attrs
    s = env.str('anykey')
    ai = F['aidx'](k, s.t)
    there = core.mkbool(z3.And(ai >= 0, ai < F['nat'](k), F['akey'](k, ai) == s.t))
    env.prove('operation: attribute names', env.iff(env.contains(at, s), there))
    if there:
        env.prove('operation: attribute values', env.eq(at[s], SVal(F['aval'](k, ai), AV)))
    env.prove('operation: number of results', env.eq(env.len(op.outputs), SInt(F['m'](k))))
    tys = next(a[1] for a in st.adds if a[0] is op)
    for j in env.each('j', SInt(F['m'](k))):
        v = env.get(op.outputs, j)
        nm = core.mkstr(F['oname'](k, t(j)))
        env.prove('result: same name', env.eq(v.name, nm))
        env.prove('result: same type', env.eq(env.get(tys, j), SVal(F['oty'](k, t(j)), TY)))
        env.prove('result: in the table under its name', env.contains(g.values, nm))
        env.prove('result: found by its name', env.eq(g.values[nm], v))
    env.prove('the name table has exactly the names defined so far', env.iff(env.contains(g.values, x), core.mkbool(before(x.t, k + 1))))
    if core.mkbool(before(x.t, k)):
        env.prove('earlier names keep their values', env.eq(g.values[x], SVal(st.img(x.t), st.NV)))
        env.prove('earlier values keep their names', env.eq(g.values[x].name, x))


def h_graph(env, target):
    """Any graph: from_json of to_json has the same inputs, operations (opcode, operands, results, types, attributes, regions, name) and outputs."""
    if env.bound is not None:
        raise core.Kill('any graph only')
    codec(env)
    g0 = original(env)
    r = env.run(G.Graph.to_json, g0)
    env.prove('a graph can be written', r[0] == 'ok', r)
    st = New(env)
    st.target = target
    M.STUBS[G.Graph.add_op] = st.add_op
    M.STUBS[G.Graph.add_output] = st.add_output
    outer(st)
    r = env.run(G.Graph.from_json.__func__, lambda: st.g, r[1])
    env.prove('it can be read back', r[0] == 'ok', r)
    env.prove('the graph built is returned', r[1] is st.g)
    t = core.iterm
    g = st.g
    img = lambda s: SVal(st.img(s), st.NV)
    env.prove_seq('inputs', g.inputs, SInt(NI), lambda j: img(F['iname'](t(j))))
    env.prove('operations', env.eq(env.len(g.operations), SInt(NO)))
    env.prove_seq('outputs', g.outputs, SInt(NX), lambda j: img(F['xname'](t(j))))


def h_validate(env):
    """A program is accepted exactly if signature, operation list, digest and party count are those of its graph."""
    g = G.Graph()
    ni, no = env.length('ni'), env.length('no')
    g.inputs = env.seq('gi', lambda k: k, n=ni)
    g.outputs = env.seq('go', lambda k: k, n=no)
    actual = env.choice('actual', [(), ('a',), ('a', 'b')])
    listed = env.choice('listed', [(), ('a',), ('b',), ('a', 'b'), ('b', 'a'), ('a', 'a'), ('a', 'b', 'b'), ('a', 'b', 'c')])
    ia, oa = env.int('input_arity'), env.int('output_arity')
    dg, dr = env.str('actual_digest'), env.str('recorded_digest')
    if not env.sym:
        # digests as they are, and ones that resemble them
        dg = '%064x' % env.rng.getrandbits(256)
        k = env.rng.randrange(64)
        if env.rng.random() < .8:
            listed = tuple(actual)[::env.rng.choice([1, -1])]
            ia = ni if env.rng.random() < .9 else ia
            oa = no if env.rng.random() < .9 else oa
        dr = env.rng.choice([dg, dg, dg, '', dg[:k], dg[:k] + '0123456789abcdef'[(int(dg[k], 16) + 1) % 16] + dg[k + 1:], dg[:16], dg[:32], dg[:12] + dr, dg + dr, dg[::-1]])
    ws = env.int('actual_parties', 0)
    wr = None if env.choice('parties_recorded', [True, False]) is False else env.int('recorded_parties')
    if not env.sym and wr is not None and env.rng.random() < .5:
        wr = ws
    env.patch(TP, '_collect_opcodes', lambda gr: set(actual) if gr is g else env.fail('operations of another graph'))
    env.patch(TP, '_compute_required_world_size', lambda gr: ws)
    env.patch(TP, 'compute_graph_digest', lambda gr: dg)
    env.patch(TP, 'serde', types.SimpleNamespace(to_json=lambda x: 'document', from_json=None))
    sig = PR.FlatIOSignature(input_arity=ia, output_arity=oa)
    p = PR.CompiledProgram(graph=g, signature=sig, required_opcodes=list(listed), graph_digest=dr, required_world_size=wr)
    r = env.run(TP._validate_program, p)
    good = env.and_(env.eq(ia, ni), env.eq(oa, no), sorted(listed) == sorted(actual), env.or_(env.eq(dr, ''), env.eq(dg, dr)), True if wr is None else env.eq(wr, ws))
    if r[0] == 'ok':
        env.prove('accepted only if every recorded fact holds of the graph', good)
        env.cover('accepted')
    else:
        env.prove('refused with an explanation', type(r[1]) is ValueError, r[1])
        env.prove('refused only if a recorded fact does not hold', env.not_(good))
        env.cover('refused')


def h_unpack(env):
    """Whatever the container holds, unpack returns only a program that was validated."""
    prog = object.__new__(PR.CompiledProgram)
    back = env.choice('content', ['program', 'other'])
    verdict = env.choice('valid', [True, False])
    seen = []

    def validate(p):
        seen.append(p)
        if not verdict:
            raise ValueError('invalid')
    env.patch(TP, '_validate_program', validate)
    env.patch(TP, 'serde', types.SimpleNamespace(from_json=lambda d: prog if back == 'program' else {'a': 1}, to_json=None))
    import io
    import tarfile
    size = env.choice('size', ['fits', 'large'])
    buf = io.BytesIO()
    with tarfile.open(fileobj=buf, mode='w') as tf:
        info = tarfile.TarInfo('artifact.json')
        info.size = 2
        tf.addfile(info, io.BytesIO(b'{}'))
    r = env.run(TP.unpack, buf.getvalue(), max_artifact_json_bytes=2 if size == 'fits' else 1)
    env.prove('returned only if valid', (r[0] == 'ok') == (back == 'program' and verdict and size == 'fits'), r)
    if r[0] == 'ok':
        env.prove('the program read was validated', r[1] is prog and seen == [prog])


def h_restrict(env):
    """A trace with captures, constant outputs or inputs that are not graph inputs is refused; any other is accepted."""
    nc, nx, ni, nv = (env.length(x) for x in ('captured', 'constants', 'inputs', 'in_vars'))
    mk = lambda name, n: env.seq(name, lambda k: k, n=n)
    t = types.SimpleNamespace(captured=mk('c', nc), out_imms=mk('x', nx), graph=types.SimpleNamespace(inputs=mk('i', ni)), in_var_pos=mk('v', nv))
    r = env.run(TP._validate_traced_for_artifact, t)
    good = env.and_(env.eq(nc, 0), env.eq(nx, 0), env.eq(ni, nv))
    if r[0] == 'ok':
        env.prove('accepted', good)
    else:
        env.prove('refused', env.and_(type(r[1]) is ValueError, env.not_(good)))


def h_parties(env):
    """The party count is one more than the largest party named by any operation, and parties that are no party numbers are refused."""
    g = G.Graph()
    sets = []
    for i in range(env.choice('operations', [0, 1, 2])):
        kind = env.choice('attribute', ['absent', 'list', 'tuple', 'other'])
        at = {}
        if kind == 'other':
            at = {'parties': 'AB'}
        elif kind != 'absent':
            ps = [env.int(f'p{i}_{j}') for j in range(env.choice('count', [0, 1, 2]))]
            at = {'parties': ps if kind == 'list' else tuple(ps)}
        sets.append((kind, at.get('parties')))
        nested = env.choice('nested', [False, True])
        op = types.SimpleNamespace(opcode=f'o{i}', attrs=at, regions=[])
        if nested:
            inner = G.Graph()
            inner.operations.append(op)
            g.operations.append(types.SimpleNamespace(opcode='outer', attrs={}, regions=[inner]))
        else:
            g.operations.append(op)
    r = env.run(TP._compute_required_world_size, g)
    ps = [p for k, v in sets if k in ('list', 'tuple') for p in v]
    bad = any(k == 'other' for k, v in sets)
    if r[0] == 'exc':
        env.prove('refused only for parties that are none', env.or_(bad, *[p < 0 for p in ps]))
        return
    env.prove('parties that are none are refused', env.and_(not bad, *[p >= 0 for p in ps]))
    env.prove('as many as needed', env.and_(*[p < r[1] for p in ps]))
    env.prove('no more than needed', env.or_(*[env.eq(p + 1, r[1]) for p in ps]) if ps else env.eq(r[1], 0))


def h_program(env):
    """CompiledProgram.to_json and from_json keep every recorded field."""
    env.patch(PR, 'serde', types.SimpleNamespace(to_json=Enc, from_json=lambda d: d.x))
    g = G.Graph()
    opt = lambda name: None if env.choice(name + '_absent', [True, False]) else env.str(name)
    n = env.length('ops')
    f = z3.Function('opname', I, S)
    p = PR.CompiledProgram(graph=g, signature=PR.FlatIOSignature(env.int('ia'), env.int('oa')), required_opcodes=env.seq('ops', lambda k: core.mkstr(f(core.iterm(k))), n=n),
                           graph_digest=env.str('digest'), required_world_size=None if env.choice('nows', [True, False]) else env.int('ws'), created_at=opt('at'), mplang_version=opt('ver'), name=opt('name'))
    d = env.run(PR.CompiledProgram.to_json, p)
    env.prove('written', d[0] == 'ok', d)
    r = env.run(PR.CompiledProgram.from_json, d[1])
    env.prove('read back', r[0] == 'ok', r)
    q = r[1]
    env.prove('the same graph', q.graph is g)
    same = lambda a, b: (a is None and b is None) or (a is not None and b is not None and env.eq(a, b))
    for k in ('graph_digest', 'required_world_size', 'created_at', 'mplang_version', 'name', 'schema_version'):
        env.prove(f'same {k}', same(getattr(p, k), getattr(q, k)))
    env.prove('same signature', env.and_(env.eq(p.signature.input_arity, q.signature.input_arity), env.eq(p.signature.output_arity, q.signature.output_arity)))
    env.prove_seq('same operation list', q.required_opcodes, n, lambda k: core.mkstr(f(core.iterm(k))))


# ------------------------------------------------------------------ concrete graphs and artifacts
def attr(rng, depth=0):
    import numpy as np
    from mplang.edsl import typing as elt
    c = rng.randrange(11 if depth < 2 else 7)
    if c == 0: return rng.choice([None, True, False])
    if c == 1: return rng.choice([0, -1, 1 << 70, 3])
    if c == 2: return rng.choice([0.0, -0.0, 1e300, 2.5, float('inf')])
    if c == 3: return rng.choice(['', 'é\n"', 'x', '%0'])
    if c == 4: return bytes(rng.randrange(256) for _ in range(rng.randrange(4)))
    if c == 5: return np.arange(rng.randrange(4)).astype(rng.choice(['<i4', '>f8', 'u1', '?']))
    if c == 6: return typ(rng)
    if c == 7: return [attr(rng, depth + 1) for _ in range(rng.randrange(3))]
    if c == 8: return tuple(attr(rng, depth + 1) for _ in range(rng.randrange(3)))
    if c == 9: return {rng.choice('abcd'): attr(rng, depth + 1) for _ in range(rng.randrange(3))}
    return tuple(range(rng.randrange(1, 4)))


def typ(rng):
    from mplang.edsl import typing as elt
    c = rng.randrange(5)
    t = lambda: elt.TensorType(rng.choice([elt.f32, elt.i64, elt.IntegerType(bitwidth=rng.choice([8, 256]), signed=rng.random() < .5)]), rng.choice([(), (3,), (2, -1)]))
    if c == 0: return t()
    if c == 1: return elt.MPType(t(), rng.choice([None, (0,), (0, 2), (1, 5)]))
    if c == 2: return elt.TableType({rng.choice('zyxab') + str(i): rng.choice([elt.f32, elt.STRING, elt.i64]) for i in range(rng.randrange(1, 4))})
    if c == 3: return elt.SSType(t(), rng.choice(['ss', 'he']))
    return elt.CustomType(rng.choice(['Key', 'Quote']))


def rgraph(rng, depth=0):
    g = G.Graph()
    for i in range(rng.randrange(3)):
        nm = rng.choice([f'arg{i}', f'%{rng.randrange(12)}', 'é', f'%{i}'])
        if nm not in g.values:
            g.add_input(nm, typ(rng))
    for k in range(rng.randrange(6)):
        vals = list(g.values.values())
        at = {rng.choice(['fn', 'k', 'shape', 'name']): attr(rng) for _ in range(rng.randrange(3))}
        if rng.random() < .4:
            at['parties'] = rng.choice([(0,), (0, 1), (3,), [2, 5], None])
        regions = [rgraph(rng, depth + 1) for _ in range(rng.randrange(3))] if depth < 2 and rng.random() < .3 else []
        g.add_op(rng.choice(['simp.pcall_static', 'tensor.run_jax', 'o1', 'o2']), [rng.choice(vals) for _ in range(rng.randrange(4))] if vals else [],
                 [typ(rng) for _ in range(rng.randrange(4))], attrs=at, regions=regions)
    vals = list(g.values.values())
    for _ in range(rng.randrange(3)):
        if vals:
            g.add_output(rng.choice(vals))
    return g


def same(a, b):
    import numpy as np
    from mplang.edsl import typing as elt
    if isinstance(a, G.Graph):
        return isinstance(b, G.Graph) and same_graph(a, b) is None
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, elt.TableType):
        return list(a.schema.items()) == list(b.schema.items()) and a.nrows == b.nrows
    if isinstance(a, elt.MPType):
        return a.parties == b.parties and same(a.value_type, b.value_type)
    if isinstance(a, float):
        return repr(a) == repr(b)
    return a == b


def same_graph(a, b):
    m = {}

    def bind(x, y):
        m[id(x)] = y
        return x.name == y.name and same(x.type, y.type)
    if len(a.inputs) != len(b.inputs) or not all(bind(x, y) for x, y in zip(a.inputs, b.inputs)):
        return 'inputs'
    if len(a.operations) != len(b.operations):
        return 'operations'
    for o, q in zip(a.operations, b.operations):
        if (o.opcode, o.name, len(o.inputs), len(o.outputs), len(o.regions)) != (q.opcode, q.name, len(q.inputs), len(q.outputs), len(q.regions)):
            return 'operation', o, q
        if not all(m.get(id(x)) is y for x, y in zip(o.inputs, q.inputs)):
            return 'operands', o, q
        if not all(bind(x, y) for x, y in zip(o.outputs, q.outputs)) or any(y.defining_op is not q for y in q.outputs):
            return 'results', o, q
        if not same(dict(o.attrs), dict(q.attrs)):
            return 'attributes', o.attrs, q.attrs
        for r, t in zip(o.regions, q.regions):
            d = same_graph(r, t)
            if d:
                return 'region', d
    if len(a.outputs) != len(b.outputs) or not all(m.get(id(x)) is y for x, y in zip(a.outputs, b.outputs)):
        return 'outputs'
    if {k: m.get(id(v)) for k, v in a.values.items()} != b.values:
        return 'name table'
    return None


def h_graphs(env):
    """Random graphs with arbitrary names, nesting and attributes survive JSON text; so do the artifacts made of them."""
    from mplang.edsl import serde
    rng = random.Random(env.int('seed', 0, 10 ** 9))
    g = rgraph(rng)
    h = serde.from_json(json.loads(json.dumps(serde.to_json(g))))
    env.prove('same graph', same_graph(g, h) is None, (same_graph(g, h), g.to_string(), h.to_string()))
    h2 = serde.loads(serde.dumps(g))
    env.prove('same graph after message encoding', same_graph(g, h2) is None, same_graph(g, h2))
    b = serde.loads_binary(serde.dumps_binary(g)) if hasattr(serde, 'dumps_binary') else h2
    env.prove('same graph after binary encoding', same_graph(g, b) is None, same_graph(g, b))
    env.prove('same digest', PR.compute_graph_digest(g) == PR.compute_graph_digest(h))
    p = program(g)
    q = TP.unpack(TP.pack(p, compress=rng.random() < .5))
    env.prove('same graph in an artifact', same_graph(g, q.graph) is None, same_graph(g, q.graph))
    env.prove('same facts in an artifact', (p.signature, p.required_opcodes, p.graph_digest, p.required_world_size, p.created_at, p.name) ==
              (q.signature, q.required_opcodes, q.graph_digest, q.required_world_size, q.created_at, q.name))


def all_ops(g):
    for o in g.operations:
        yield o
        for r in o.regions:
            yield from all_ops(r)


def program(g):
    """facts of the graph, computed independently of the tool"""
    ops = list(all_ops(g))
    parties = [int(p) for o in ops for p in (o.attrs.get('parties') or [])]
    return PR.CompiledProgram(graph=g, signature=PR.FlatIOSignature(len(g.inputs), len(g.outputs)), required_opcodes=sorted({o.opcode for o in ops}),
                              graph_digest=PR.compute_graph_digest(g), required_world_size=max(parties) + 1 if parties else 0, created_at='t', name='p')


def repack(doc):
    import io
    import tarfile
    raw = json.dumps(doc).encode()
    buf = io.BytesIO()
    with tarfile.open(fileobj=buf, mode='w:gz') as tf:
        info = tarfile.TarInfo('artifact.json')
        info.size = len(raw)
        tf.addfile(info, io.BytesIO(raw))
    return buf.getvalue()


def leaves(d, path=()):
    if isinstance(d, dict):
        for k, v in d.items():
            yield from leaves(v, path + (k,))
    elif isinstance(d, list):
        for i, v in enumerate(d):
            yield from leaves(v, path + (i,))
        yield path, d
    else:
        yield path, d


def h_tamper(env):
    """Changing anything recorded in an artifact, or anything in its graph, makes unpack refuse it."""
    from mplang.edsl import serde
    rng = random.Random(env.int('seed', 0, 10 ** 9))
    g = rgraph(rng)
    p = program(g)
    doc = serde.to_json(p)
    text = json.dumps(doc)
    env.prove('an untouched artifact is accepted', env.run(TP.unpack, repack(json.loads(text)))[0] == 'ok')
    facts = [(('signature', 'input_arity'), p.signature.input_arity + 1), (('signature', 'output_arity'), p.signature.output_arity + 1), (('signature', 'input_arity'), -1),
             (('signature', 'kind'), 'flat_list_v1'), (('schema_version',), 2), (('graph_digest',), p.graph_digest[::-1] + '0'), (('graph_digest',), p.graph_digest.upper() + ' '),
             (('required_opcodes',), p.required_opcodes + ['extra']), (('required_opcodes',), p.required_opcodes[1:] if p.required_opcodes else ['x']),
             (('required_opcodes',), p.required_opcodes * 2 if p.required_opcodes else ['y']),
             (('required_world_size',), p.required_world_size + 1), (('required_world_size',), p.required_world_size - 1)]
    for path, v in facts:
        d = json.loads(text)
        x = d
        for k in path[:-1]:
            x = x[k]
        x[path[-1]] = v
        env.prove('a recorded fact that does not hold is refused', env.run(TP.unpack, repack(d))[0] == 'exc', (path, v))
    base = json.loads(text)['graph']
    spots = [x for x in leaves(base)]
    rng.shuffle(spots)
    for path, v in spots[:25]:
        d = json.loads(text)
        x = d['graph']
        for k in path[:-1]:
            x = x[k]
        if isinstance(v, list):
            new = v[:-1] if v and rng.random() < .5 else v + [v[-1] if v else 'x'] if rng.random() < .5 else v[::-1]
        elif isinstance(v, bool) or v is None:
            new = 1 if v is None else (not v)
        elif isinstance(v, (int, float)):
            new = v + 1 if v + 1 != v else 0
        else:
            new = v + 'x' if rng.random() < .5 else v[:-1]
        if not path:
            continue
        x[path[-1]] = new
        if json.dumps(new) == json.dumps(v):
            continue
        r = env.run(TP.unpack, repack(d))
        if r[0] == 'ok':
            # only if the document says the same graph in another way
            env.prove('a changed graph is refused', same_graph(g, r[1].graph) is None, (path, v, new))
    data = TP.pack(p, compress=rng.random() < .5)
    cut = rng.randrange(len(data) // 2)
    r = env.run(TP.unpack, data[:cut])
    env.prove('a truncated artifact is refused unless only padding is lost', r[0] == 'exc' or same_graph(g, r[1].graph) is None, cut)


def h_compile(env):
    """compile_program records the facts of the traced graph; the artifact is accepted and runs to the same result."""
    import numpy as np
    import mplang as mp
    import mplang.edsl as el
    from pyvc.nospu import cluster
    rng = random.Random(env.int('seed', 0, 10 ** 9))
    sim = cluster(3)
    a, b, par = rng.randrange(9), rng.randrange(9), rng.randrange(3)
    depth = rng.randrange(3)

    def fn(x, y):
        z = mp.put(f'P{par}', 1) if False else x
        f = lambda u, v: u * 2 + v
        from mplang.dialects import simp, tensor
        r = simp.pcall_static((par,), lambda u, v: tensor.run_jax(f, u, v), x, y)
        if depth == 2:
            r = (r, x)
        return r
    from mplang.dialects import simp, tensor

    def consts():
        return simp.constant((par,), a), simp.constant((par,), b)
    with sim:
        x, y = consts()
    t = env.run(TP.compile_program, fn, x, y, context=sim)
    env.prove('compiles', t[0] == 'ok', t)
    p = t[1]
    q = TP.unpack(TP.pack(p))
    env.prove('facts of the graph', program(p.graph).required_opcodes == p.required_opcodes and program(p.graph).required_world_size == p.required_world_size == par + 1
              and p.graph_digest == PR.compute_graph_digest(q.graph), (p.required_opcodes, p.required_world_size))
    env.prove('same graph', same_graph(p.graph, q.graph) is None)


def harnesses():
    P = 'mplang.edsl.graph.'
    FG = [P + 'Graph.to_json', P + 'Graph.from_json']
    return [H('graph-' + t, (lambda env, t=t: h_graph(env, t)), bound=None, conc=0, functions=FG, budget=300, branch_ms=60, what=f'{h_graph.__doc__}  [{t}]')
            for t in ('inputs', 'operations', 'result', 'outputs', 'whole')] + [
        H('validate', h_validate, bound=2, conc=400, conc_s=5, functions=['mplang.tool.program._validate_program'], cover=('accepted', 'refused')),
        H('unpack', h_unpack, conc=0, functions=['mplang.tool.program.unpack']),
        H('restrict', h_restrict, bound=2, conc=0, functions=['mplang.tool.program._validate_traced_for_artifact']),
        H('parties', h_parties, unbounded=False, bound=2, conc=0, functions=['mplang.tool.program._' + n for n in ('compute_required_world_size', 'collect_parties', 'iter_graphs')], what=h_parties.__doc__ + ' (two operations, two parties each, one level of nesting)'),
        H('program', h_program, bound=2, conc=0, functions=['mplang.edsl.program.CompiledProgram.to_json', 'mplang.edsl.program.CompiledProgram.from_json', 'mplang.edsl.program.FlatIOSignature.to_json']),
        H('graphs', h_graphs, sym=False, conc=400, conc_s=10, what=h_graphs.__doc__),
        H('tamper', h_tamper, sym=False, conc=60, conc_s=10, what=h_tamper.__doc__),
        H('compile', h_compile, sym=False, conc=20, conc_s=10, what=h_compile.__doc__)]
