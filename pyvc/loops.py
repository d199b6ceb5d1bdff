"""Loops over sequences of symbolic length.

A loop body is a closure.  It is explored once for an arbitrary index k with the
modified state replaced by a hypothesis about the state after k iterations
(lists: prefix maps/filters, sets, counters); the hypothesis is then *proved*
inductive (every path of the body maps prefix(k) to prefix(k+1)).
"""
from __future__ import annotations
import itertools
import re

import z3
from . import core, containers as C
from .core import Unsupported, Kill, Sym, SBool, SInt, SStr, SVal, And, Or, Not, mkbool, mkint, bterm, iterm, sym_eq
from .containers import VList, VDict, VSet, VTuple, KBody, kbody, seq_parts, seq_from_parts, part_get, filtered, seq_len, seq_get, sym_seq, SetBase

WHILE_UNROLL = 12
HANDLERS = []      # harness-provided loop handlers: f(seq, body, get, set_, info) -> (handled, result)
WHILE_HANDLERS = []


def E():
    return core.ENG


def while_handler(info):
    for pred, h in WHILE_HANDLERS:
        if pred(info):
            return h
    return None


def sym_for(seq, body, get, set_, info):
    for pred, h in HANDLERS:
        if pred(seq, info):
            return h(seq, body, get, set_, info)
    for p in seq_parts(seq):
        if p[0] == 'c':
            for x in p[1]:
                r = body(x)
                if r is not None:
                    return r
        else:
            r = sym_part(p, body, get, set_, info)
            if r is not None:
                return r
    return None


class Acc:
    """Base: hypothesis for one modified piece of state."""


def list_items_appended(old, new):
    """items appended to a VList state, or None.  States are (parts, native)."""
    po = old[0] if old[0] is not None else [('c', old[1])]
    pn = new[0] if new[0] is not None else [('c', new[1])]
    # flatten trailing concrete part
    po = [p for p in po if not (p[0] == 'c' and not p[1])]
    pn = [p for p in pn if not (p[0] == 'c' and not p[1])]
    i = 0
    while i < len(po) and i < len(pn) and (po[i] is pn[i] or (po[i][0] == 'c' and pn[i][0] == 'c' and len(po[i][1]) == len(pn[i][1]) and all(a is b for a, b in zip(po[i][1], pn[i][1])))
                                           or (po[i][0] == 's' and pn[i][0] == 's' and po[i][2] is pn[i][2] and po[i][1] is pn[i][1])):
        i += 1
    rest_o, rest_n = po[i:], pn[i:]
    if not rest_o:
        if all(p[0] == 'c' for p in rest_n):
            return [x for p in rest_n for x in p[1]]
        return None
    if len(rest_o) == 1 and rest_o[0][0] == 'c' and rest_n and rest_n[0][0] == 'c':
        a, b = rest_o[0][1], rest_n[0][1]
        if len(b) >= len(a) and all(x is y for x, y in zip(a, b)):
            if all(p[0] == 'c' for p in rest_n):
                return b[len(a):] + [x for p in rest_n[1:] for x in p[1]]
    return None


def sym_while(cond, body, get, set_, info):
    """while loop of unknown length: N iterations, the condition holding before each and failing after the last
    (partial correctness: termination is not claimed)."""
    e = E()
    n = C.fresh_int('N')
    e.assume(n >= 0)

    def body1(k):
        if not cond():
            raise Kill('loop ended earlier')
        return body()
    r = sym_part(('s', n, (lambda k: k), {}), body1, get, set_, info, is_while=True)
    if r is not None:
        return r
    if cond():
        raise Kill('loop continues')
    return None


def sym_part(p, body, get, set_, info, is_while=False):
    """With several candidate closed forms, every assignment to the loop-carried integers is tried."""
    if len(CLOSED) < 2:
        return sym_part1(p, body, get, set_, info, is_while)
    forms, entry = list(CLOSED), get()
    last = None
    for perm in itertools.permutations(forms):
        CLOSED[:] = perm
        PROVED.clear()
        try:
            return sym_part1(p, body, get, set_, info, is_while)
        except Unsupported as u:
            if PROVED:
                raise
            last = u
            set_(entry)
        finally:
            CLOSED[:] = forms
    raise last


PROVED = []


def sym_part1(p, body, get, set_, info, is_while=False):
    e = E()
    n = p[1]
    entry_locals = get()

    def run(k):
        x = part_get(p, k)
        set_(entry_locals)
        r = body(x)
        return (r, get())

    # ---- phase 1: discover modified state
    kb = kbody(n, run)
    set_(entry_locals)
    mod_objs, mod_locals = {}, set()
    for o in kb.outcomes:
        for ob, st, new in o['effects']:
            mod_objs[id(ob)] = ob
        if o['kind'] == 'val':
            for nm, v in o['value'][1].items():
                if nm not in entry_locals or not same(entry_locals[nm], v):
                    mod_locals.add(nm)
    # ---- hypotheses
    hyps = {}
    changed = True
    # objects
    lh = {}
    used = []
    for nm in sorted(mod_locals):
        lh[nm] = make_local_hyp(nm, entry_locals, kb, n, used)
    if any(isinstance(h, (RecHyp, ClosedHyp)) for h in lh.values()):
        # appended values may mention the recursively defined locals: explore again with those installed
        def run1(k):
            for nm in mod_locals:
                if isinstance(lh[nm], RecHyp):
                    lh[nm].assume_cands(k)
            d = dict(entry_locals)
            for nm in mod_locals:
                v = lh[nm].at(k)
                if v is not UNSET and isinstance(lh[nm], (RecHyp, ClosedHyp, CountHyp)):
                    d[nm] = v
            set_(d)
            r = body(part_get(p, k))
            return (r, get())
        while True:
            kb = kbody(n, run1)
            set_(entry_locals)
            if not [1 for nm in mod_locals if isinstance(lh[nm], RecHyp) and lh[nm].drop_cands(kb)]:
                break
        for nm in mod_locals:
            if isinstance(lh[nm], RecHyp):
                lh[nm].assert_cands(n)
        for o in kb.outcomes:
            for ob, st, new in o['effects']:
                mod_objs[id(ob)] = ob
    for i, ob in mod_objs.items():
        hyps[i] = make_obj_hyp(ob, kb, i)
    entry_states = {i: core.save_state(ob) for i, ob in mod_objs.items()}

    def set_prefix(j):
        for i, ob in mod_objs.items():
            E().touch(ob)
            hyps[i].install(ob, entry_states[i], j)
        d = dict(entry_locals)
        for nm in mod_locals:
            h = lh[nm]
            v = h.at(j)
            if v is not UNSET:
                d[nm] = v
        set_(d)
        return d

    # ---- phase 2: prove the hypotheses inductive
    if mod_objs or mod_locals:
        for rnd in range(3):
            mism = []

            def run2(k):
                d = set_prefix(k)
                pre = {i: core.save_state(ob) for i, ob in mod_objs.items()}
                x = part_get(p, k)
                r = body(x)
                post = get()
                if r is None:
                    for i, ob in mod_objs.items():
                        if not hyps[i].check(ob, pre[i], core.save_state(ob), k):
                            raise Unsupported(f'loop state of a {type(ob).__name__} does not follow a prefix form ({info})')
                    for nm in mod_locals:
                        if not lh[nm].check(d, post, k):
                            raise Unsupported(f'loop-carried variable {nm} does not follow a prefix form ({info})')
                return (r, post)
            kb2 = kbody(n, run2)
            set_(entry_locals)
            for ob_id, ob in mod_objs.items():
                core.restore_state(ob, entry_states[ob_id])
            new_objs = {}
            for o in kb2.outcomes:
                for ob, st, new in o['effects']:
                    if id(ob) not in mod_objs:
                        new_objs[id(ob)] = ob
            new_locals = set()
            for o in kb2.outcomes:
                if o['kind'] == 'val':
                    for nm, v in o['value'][1].items():
                        if nm not in mod_locals and (nm not in entry_locals or not same(entry_locals[nm], v)):
                            new_locals.add(nm)
            if not new_objs and not new_locals:
                kb = kb2
                break
            raise Unsupported(f'loop modifies more state than its first iteration ({info})')
    # ---- exits
    PROVED.append(info)
    stops = [o for o in kb.outcomes if o['kind'] == 'exc' or o['value'][0] is not None]
    goes = [o for o in kb.outcomes if o['kind'] == 'val' and o['value'][0] is None]
    for nm, h in lh.items():
        if isinstance(h, RecHyp):
            h.kb, h.goes, h.n = kb, goes, n
            e.recs.append(h)

    def all_go(upto):
        if is_while:
            q = z3.Int(e.fresh('gq') + 'q')
            g = z3.Or(*[kb.cond(x, SInt(q)) for x in goes]) if goes else z3.BoolVal(False)
            e.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < iterm(upto)), g)))
    if stops:
        c = e.choose(2)
        if c == 1:
            j = C.fresh_int('j')
            e.assume(And(j >= 0, j < n))
            q = z3.Int(j.t.decl().name() + 'q')
            ns = z3.And(*[z3.Not(kb.cond(x, SInt(q))) for x in stops])
            e.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < j.t), ns)))
            all_go(j)
            e.assume(z3.Or(*[kb.cond(x, j) for x in stops]))
            if not e.feasible():
                raise Kill('loop never stops early')
            touch_all(mod_objs)
            set_prefix(j)
            x = part_get(p, j)
            r = body(x)          # raises or returns ('B'/'R', value)
            if r is None:
                raise Kill('iteration does not stop the loop')
            return r
        q = z3.Int(e.fresh('nq') + 'q')
        ns = z3.And(*[z3.Not(kb.cond(x, SInt(q))) for x in stops])
        e.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < iterm(n)), ns)))
    if not goes:
        e.assume(iterm(n) <= 0)
        return None
    all_go(n)
    touch_all(mod_objs)
    set_prefix(n)
    return None


def touch_all(objs):
    for ob in objs.values():
        E().touch(ob)


UNSET = object()


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (SInt, SBool, SStr, SVal)) and type(a) is type(b):
        return a.t.eq(b.t)
    if isinstance(a, (int, str, bool, bytes)) and type(a) is type(b):
        return a == b
    return False


def must_eq(a, b):
    """Provably equal on this path."""
    if same(a, b):
        return True
    try:
        r = sym_eq(a, b)
    except Unsupported:
        return False
    if isinstance(r, bool):
        return r
    return E().check(z3.Not(bterm(r))) == z3.unsat or pointwise_eq(a, b)


def pointwise_eq(a, b):
    """Equal field by field, and sequences element by element at an arbitrary index (whose facts are premises)."""
    fs = core.generated_eq(a, b)
    if fs:
        return all(must_eq(getattr(a, f), getattr(b, f)) for f in fs)
    if type(a) is type(b) and isinstance(a, (VList, VTuple)) and (a._vf_seq or b._vf_seq):
        n = a.vf_len()
        if not must_eq(n, b.vf_len()):
            return False
        k = C.fresh_int('pe')

        def run():
            E().assume(And(k >= 0, k < n))
            return must_eq(a.vf_get(k), b.vf_get(k))
        try:
            return all(o['kind'] == 'val' and o['value'] for o in E().explore(run))
        except Unsupported:
            return False
    return False


class ListHyp:
    """list: old ++ items of iterations 0..k-1"""

    def __init__(self, ob, kb, i):
        self.cases = []
        counts = set()
        for o in kb.outcomes:
            if o['kind'] != 'val' or o['value'][0] is not None:
                continue
            eff = [(st, new) for ob2, st, new in o['effects'] if ob2 is ob]
            items = list_items_appended(*eff[0]) if eff else []
            if items is None:
                raise Unsupported('loop changes a list other than by appending')
            counts.add(len(items))
            self.cases.append((o, items))
        self.kb = kb
        self.counts = counts
        if len(counts) > 1 and counts != {0, 1}:
            raise Unsupported('loop appends a varying number of items')

    def items_body(self):
        outs = [dict(o, value=items[0]) for o, items in self.cases if items]
        return KBody(self.kb.k, outs, self.kb.fresh0, self.kb.fresh1)

    def install(self, ob, old, j):
        core.restore_state(ob, old)
        base = seq_parts(ob)
        if self.counts == {0} or not self.counts:
            return
        if self.counts == {1}:
            vb = self.items_body()
            ps = [('s', j, (lambda i: vb.instantiate(i)), {})]
        elif len(self.counts) == 1:
            c = next(iter(self.counts))
            bodies = []
            for m in range(c):
                bodies.append(KBody(self.kb.k, [dict(o, value=items[m]) for o, items in self.cases], self.kb.fresh0, self.kb.fresh1))

            def elem(i, c=c, bodies=bodies):
                q, r = i // c, i % c
                for m in range(c - 1):
                    if r == m:
                        return bodies[m].instantiate(q)
                return bodies[c - 1].instantiate(q)
            ps = [('s', j * c, elem, {})]
        else:
            vb = self.items_body()
            keep = [o for o, items in self.cases if items]

            def guard(x):
                return mkbool(z3.Or(*[vb.cond(o, x) for o in keep]))
            s = filtered(j, guard, lambda i: vb.instantiate(i))
            ps = seq_parts(s)
        ob.set_parts(base + ps)

    def check(self, ob, pre, post, k):
        items = list_items_appended(pre, post)
        if items is None:
            return False
        # which hypothesised case applies on this path?
        for o, its in self.cases:
            c = self.kb.cond(o, k)
            if E().check(z3.Not(c)) == z3.unsat:
                if len(its) != len(items):
                    return False
                s = self.kb.sub(k)
                for t in o['pc']:           # c holds: name the values that make it so
                    E().assume(s.term(t))
                return all(must_eq(s.value(a), b) for a, b in zip(its, items))
        # undetermined: all compatible cases must agree
        ok = False
        for o, its in self.cases:
            c = self.kb.cond(o, k)
            if E().check(c) != z3.unsat:
                if len(its) != len(items):
                    return False
                s = self.kb.sub(k)
                E().solver.push()
                E().solver.add(c)
                for t in o['pc']:
                    E().solver.add(s.term(t))
                r = all(must_eq(s.value(a), b) for a, b in zip(its, items))
                E().solver.pop()
                if not r:
                    return False
                ok = True
        return ok


class SetHyp:
    def __init__(self, ob, kb, i):
        self.kb = kb
        self.cases = []
        for o in kb.outcomes:
            if o['kind'] != 'val' or o['value'][0] is not None:
                continue
            eff = [(st, new) for ob2, st, new in o['effects'] if ob2 is ob]
            added = []
            if eff:
                st, new = eff[0]
                if st[0] is not new[0] or len(new[2]) < len(st[2]) or any(a is not b for a, b in zip(st[2], new[2])):
                    # card info may be dropped by add(); accept if only that changed
                    if not (len(new[2]) >= len(st[2]) and all(a is b for a, b in zip(st[2], new[2]))):
                        raise Unsupported('loop removes from a set')
                added = new[2][len(st[2]):]
            self.cases.append((o, added))

    def mem(self, x, j):
        """x was added in one of the iterations 0..j-1"""
        alts = []
        for o, added in self.cases:
            for m, a in enumerate(added):
                vb = KBody(self.kb.k, [dict(o, value=a)], self.kb.fresh0, self.kb.fresh1)
                q = z3.Int(E().fresh('sq') + 'q')
                t = z3.And(*o['pc'], bterm(sym_eq(a, x)))
                t = vb.close(t, SInt(q))
                alts.append(mkbool(z3.Exists([q], z3.And(q >= 0, q < iterm(j), t))))
        return Or(*alts)

    def install(self, ob, old, j):
        core.restore_state(ob, old)
        base = ob._sym
        order = list(ob._order)

        def mem(x):
            r = self.mem(x, j)
            return Or(base.mem(x), r) if base is not None else r
        ob._sym = SetBase(mem)

    def check(self, ob, pre, post, k):
        if len(post[2]) < len(pre[2]) or any(a is not b for a, b in zip(pre[2], post[2])):
            return False
        added = post[2][len(pre[2]):]
        # every element added now must be an element the hypothesis adds at k, and conversely
        hyp = []
        for o, its in self.cases:
            c = self.kb.cond(o, k)
            s = self.kb.sub(k)
            for a in its:
                hyp.append((c, s.value(a)))
        for x in added:
            f = Or(*[And(mkbool(c), sym_eq(a, x)) for c, a in hyp])
            if E().check(z3.Not(bterm(f))) != z3.unsat:
                return False
        for c, a in hyp:
            # if the hypothesis adds a at k, then a must now be a member (added or already there)
            f = Or(Not(mkbool(c)), *[sym_eq(a, x) for x in added], ob.vf_contains(a))
            if E().check(z3.Not(bterm(f))) != z3.unsat:
                return False
        return True


class DictHyp:
    """dict: base updated by key(i) -> val(i) for 0<=i<k (later wins)."""

    def __init__(self, ob, kb, i):
        self.kb = kb
        self.cases = []
        for o in kb.outcomes:
            if o['kind'] != 'val' or o['value'][0] is not None:
                continue
            eff = [(st, new) for ob2, st, new in o['effects'] if ob2 is ob]
            writes = []
            if eff:
                writes = dict_writes(*eff[0])
                if writes is None:
                    raise Unsupported('loop deletes from a dict')
            self.cases.append((o, writes))
        if any(len(w) > 1 for _, w in self.cases):
            raise Unsupported('loop writes several dict entries per iteration')

    def install(self, ob, old, j):
        core.restore_state(ob, old)
        if all(not w for _, w in self.cases):
            return
        kb = self.kb
        keep = [(o, w[0]) for o, w in self.cases if w]
        kbk = KBody(kb.k, [dict(o, value=w[0]) for o, w in keep], kb.fresh0, kb.fresh1)
        kbv = KBody(kb.k, [dict(o, value=w[1]) for o, w in keep], kb.fresh0, kb.fresh1)
        kpair = KBody(kb.k, [dict(o, value=(w[0], w[1])) for o, w in keep], kb.fresh0, kb.fresh1)
        base = VDict()
        base._vf_restore(old)

        def plain(t):
            """every iteration takes the one case there is, and its key is not chosen inside the body"""
            return len(self.cases) == 1 and not any(kb.fresh0 < C.fresh_no(c) <= kb.fresh1 and c != kb.k.t.decl().name() for c in C.free_consts(t))

        def writes_at(x, q):
            """iteration q writes key x"""
            ds = []
            for o, w in keep:
                t = bterm(sym_eq(w[0], x))
                if not plain(t):
                    t = z3.And(*o['pc'], t)
                ds.append(kpair.close(t, SInt(q)))
            return z3.Or(*ds)

        def find(x):
            """(index term) of the last write of x, or None"""
            q = z3.Int(E().fresh('wq') + 'q')
            w = z3.Exists([q], z3.And(q >= 0, q < iterm(j), writes_at(x, q)))
            if not E().decide(w):
                return None
            i = SInt(last_write(writes_at, x, iterm(j)))
            E().assume(And(i >= 0, i < j))
            E().assume(writes_at(x, i.t))
            q2 = z3.Int(E().fresh('wq') + 'q')
            E().assume(z3.ForAll([q2], z3.Implies(z3.And(q2 > i.t, q2 < iterm(j)), z3.Not(writes_at(x, q2)))))
            return i
        cache = {}

        def lookup(x):
            ck = key_id(x)
            if ck in cache and E().in_sub == 0:
                return cache[ck][1]
            i = find(x)
            if i is None:
                v = base._lookup(x)
                r = (v is not C._MISS, v)
            else:
                r = (True, kbv.instantiate(i))
            if E().in_sub == 0:
                cache[ck] = (x, r)
            return r
        every = len(keep) == len(self.cases)
        n = key = at = None
        if every and base._sym is None and not base._items() and distinct_keys(kbk, j):
            n, key, at = j, kbk.instantiate, kbv.instantiate
        ob._sym = C.SymBase(lambda x: lookup(x)[0], lambda x: lookup(x)[1], n, key, at)
        with core.hashing():
            dict.clear(ob)
        ob._symkeys = True

    def check(self, ob, pre, post, k):
        w = dict_writes(pre, post)
        if w is None:
            return False
        s = self.kb.sub(k)
        for o, its in self.cases:
            c = self.kb.cond(o, k)
            if E().check(z3.Not(c)) == z3.unsat:
                if len(its) != len(w):
                    return False
                for t in o['pc']:
                    E().assume(s.term(t))
                return all(must_eq(s.value(a[0]), b[0]) and must_eq(s.value(a[1]), b[1]) for a, b in zip(its, w))
        ok = False
        for o, its in self.cases:
            c = self.kb.cond(o, k)
            if E().check(c) != z3.unsat:
                if len(its) != len(w):
                    return False
                E().solver.push()
                E().solver.add(c)
                r = all(must_eq(s.value(a[0]), b[0]) and must_eq(s.value(a[1]), b[1]) for a, b in zip(its, w))
                E().solver.pop()
                if not r:
                    return False
                ok = True
        return ok


WRITES = {}                 # abstracted writes_at term -> (function, term); terms kept alive


def key_terms(x):
    if isinstance(x, tuple):
        return [t for y in x for t in key_terms(y)]
    return [x.t] if isinstance(x, Sym) else []


def last_write(writes_at, x, j):
    """The index of the last write of key x before j: a function of the key, of j and of everything the loop body mentions, so that two lookups of the same key name the same index."""
    xs = key_terms(x)
    holes = [z3.Const(f'lw!x{i}', t.sort()) for i, t in enumerate(xs)]
    t = z3.substitute(writes_at(x, z3.Int('lw!q')), *zip(xs, holes))
    known = {h.get_id() for h in holes}
    params = [c for c in sorted(C.free_consts(t).values(), key=lambda c: c.decl().name()) if c.get_id() not in known and c.decl().name() != 'lw!q']
    names = [z3.Const(f'lw!p{i}', p.sort()) for i, p in enumerate(params)]
    shape = normal(z3.substitute(t, *zip(params, names)) if params else t)
    key = (shape, repr(key_id(x)) if not xs else '')
    if key not in WRITES:
        WRITES[key] = z3.Function(f'lastwrite{len(WRITES)}', *[a.sort() for a in params + xs + [j]], z3.IntSort())
    return WRITES[key](*params, *xs, j)


def normal(t):
    """The text of a term with its bound names numbered by first occurrence."""
    bound, seen, stack = {}, set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            bound.update((x.var_name(i), None) for i in range(x.num_vars()))
            stack.append(x.body())
        else:
            stack.extend(x.children())
    order = {}
    return re.sub(r'[^\s()|]+', lambda m: order.setdefault(m.group(), f'bound#{len(order)}') if m.group() in bound else m.group(), t.sexpr())


def distinct_keys(kbk, j):
    """The keys written by different iterations differ (entailed by the current path)."""
    if len(kbk.outcomes) != 1:
        return False
    a, b = z3.Int(E().fresh('da')), z3.Int(E().fresh('db'))
    o = kbk.outcomes[0]
    try:
        t = bterm(sym_eq(kbk.sub(SInt(a)).value(o['value']), kbk.sub(SInt(b)).value(o['value'])))
    except Unsupported:
        return False
    return E().check(z3.And(a >= 0, a < b, b < iterm(j), t)) == z3.unsat


def key_id(x):
    if isinstance(x, Sym):
        return ('t', x.t.get_id())
    if isinstance(x, tuple):
        return tuple(key_id(y) for y in x)
    return ('c', x)


def dict_writes(st, new):
    if st[1] is not new[1]:
        return None
    with core.hashing():
        a = [(k, v) for k, v in st[2]]
        b = [(k, v) for k, v in new[2]]
        out = []
        da = {id(k): v for k, v in a}
        kb_ = {id(k) for k, _ in b}
        for k, v in a:
            if id(k) not in kb_:
                if not any((not core.has_sym(k)) and k2 == k for k2, _ in b if not core.has_sym(k2)):
                    return None
        for k, v in b:
            if v is C._DEL:
                return None
            if id(k) in da:
                if da[id(k)] is not v:
                    out.append((k, v))
            else:
                m = [v2 for k2, v2 in a if not core.has_sym(k2) and not core.has_sym(k) and k2 == k]
                if m:
                    if m[0] is not v:
                        out.append((k, v))
                else:
                    out.append((k, v))
        return out


class AttrHyp:
    """object attributes: each changed attribute must be a counter"""

    def __init__(self, ob, kb, i):
        self.kb = kb
        self.attrs = {}
        for o in kb.outcomes:
            if o['kind'] != 'val' or o['value'][0] is not None:
                continue
            for ob2, st, new in o['effects']:
                if ob2 is ob:
                    for a, v in new.items():
                        if a not in st or not same(st[a], v):
                            self.attrs.setdefault(a, [])
        for a in self.attrs:
            for o in kb.outcomes:
                if o['kind'] != 'val' or o['value'][0] is not None:
                    continue
                eff = [(st, new) for ob2, st, new in o['effects'] if ob2 is ob]
                if eff:
                    st, new = eff[0]
                else:
                    st = new = core.save_state(ob)
                if not isinstance(st.get(a), (int, SInt)) or not isinstance(new.get(a), (int, SInt)):
                    raise Unsupported(f'loop changes attribute {a}')
                d = core.mkint(z3.simplify(iterm(new[a]) - iterm(st[a])))
                self.attrs[a].append(d)
        for a, ds in self.attrs.items():
            if not all(isinstance(d, int) and d == ds[0] for d in ds):
                raise Unsupported(f'attribute {a} does not change by a constant')
            self.attrs[a] = ds[0]

    def install(self, ob, old, j):
        core.restore_state(ob, old)
        for a, d in self.attrs.items():
            object.__setattr__(ob, a, old[a] + d * j)

    def check(self, ob, pre, post, k):
        for a in post:
            if a in self.attrs:
                if not must_eq(post[a], pre[a] + self.attrs[a]):
                    return False
            elif not same(pre.get(a), post[a]):
                return False
        return True


class HeapHyp:
    """ghost heap field: after j iterations, the last write of iterations 0..j-1 wins."""

    def __init__(self, ob, kb, i):
        self.kb = kb
        self.cases = []
        for o in kb.outcomes:
            if o['kind'] != 'val' or o['value'][0] is not None:
                continue
            w = []
            for ob2, st, new in o['effects']:
                if ob2 is ob:
                    if st[0] is not new[0] or new[1][:len(st[1])] != st[1]:
                        raise Unsupported('heap rewritten in a loop')
                    w = list(new[1][len(st[1]):])
            self.cases.append((o, w))

    def at(self, x, q, ob):
        """(written in iteration q, value) for reference x, as terms"""
        wr, val = z3.BoolVal(False), None
        for o, w in self.cases:
            if not w:
                continue
            pcs = z3.And(*o['pc']) if o['pc'] else z3.BoolVal(True)
            hit = z3.Or(*[bterm(sym_eq(y, x)) for y, _ in w])
            v = core.unwrap(w[0][1])
            for y, u in w[1:]:
                v = z3.If(bterm(sym_eq(y, x)), core.unwrap(u), v)
            c = z3.And(pcs, hit)
            wr = z3.Or(wr, c)
            val = v if val is None else z3.If(c, v, val)
        if val is None:
            return None
        for t in (wr, val):
            for nme in C.free_consts(t):
                if self.kb.fresh0 < C.fresh_no(nme) <= self.kb.fresh1 and nme != self.kb.k.t.decl().name():
                    raise Unsupported('heap write depends on values introduced in the loop body')
        sub = lambda t: z3.substitute(t, (self.kb.k.t, q))
        return sub(wr), sub(val)

    def install(self, ob, old, j):
        core.restore_state(ob, old)
        base0 = C.Heap(old[0], ob.kind)
        base0.writes = old[1]
        if all(not w for _, w in self.cases):
            return
        F = {}

        def base(x):
            xt = core.unwrap(x)
            key = xt.get_id()
            if key in F:
                return F[key][1]
            b = core.unwrap(base0.get(x))
            r = z3.Const(E().fresh('heap'), b.sort())
            q, q2 = z3.Int(E().fresh('hq') + 'q'), z3.Int(E().fresh('hq') + 'q')
            wr, val = self.at(x, q, ob)
            wr2, _ = self.at(x, q2, ob)
            jt = iterm(j)
            none = z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < jt), z3.Not(wr)))
            i = z3.Int(E().fresh('hi'))
            wri, vali = self.at(x, i, ob)
            last = z3.And(i >= 0, i < jt, wri, z3.ForAll([q2], z3.Implies(z3.And(q2 > i, q2 < jt), z3.Not(wr2))))
            E().assume(z3.Or(z3.And(none, r == b), z3.And(last, r == vali)))
            v = core.wrap(r, ob.kind)
            if E().in_sub == 0:
                F[key] = (xt, v)
            return v
        ob.base = base
        ob.writes = ()

    def check(self, ob, pre, post, k):
        if pre[0] is not post[0] or post[1][:len(pre[1])] != pre[1]:
            return False
        w = post[1][len(pre[1]):]
        s = self.kb.sub(k)
        for o, its in self.cases:
            c = self.kb.cond(o, k)
            if E().check(z3.Not(c)) == z3.unsat:
                return len(its) == len(w) and all(must_eq(s.value(a[0]), b[0]) and must_eq(s.value(a[1]), b[1]) for a, b in zip(its, w))
        return False


class PointHyp:
    """list of fixed length: iteration k writes at index k only"""

    @staticmethod
    def write(old, new, k):
        """value written at index k (None: unchanged), or raises"""
        if new[0] is None:
            if old[0] is None and len(old[1]) == len(new[1]) and all(x is y for x, y in zip(old[1], new[1])):
                return None
            raise Unsupported('loop rewrites a list of fixed size')
        if old[0] is not None and len(old[0]) == len(new[0]) and all(a is b for a, b in zip(old[0], new[0])):
            return None
        if len(new[0]) != 1 or 'upd' not in new[0][0][3]:
            raise Unsupported('loop changes a list other than by appending or updating')
        base, i, v = new[0][0][3]['upd']
        if not must_eq(i, k):
            raise Unsupported('loop updates a list at another index')
        st = (base._parts, list(list.__iter__(base)) if base._parts is None else [])
        PointHyp.write(old, st, k)      # earlier writes of the same iteration are overwritten
        return v

    def __init__(self, ob, kb, i):
        self.kb = kb
        self.cases = []
        for o in kb.outcomes:
            if o['kind'] != 'val' or o['value'][0] is not None:
                continue
            w = None
            for ob2, st, new in o['effects']:
                if ob2 is ob:
                    E().solver.push()
                    for c in o['pc']:
                        E().solver.add(c)
                    w = self.write(st, new, kb.k)
                    E().solver.pop()
            self.cases.append((o, w))

    def install(self, ob, old, j):
        core.restore_state(ob, old)
        base = seq_from_parts(seq_parts(ob.copy()), 'list')
        n = seq_len(base)
        kb = self.kb
        ps = seq_parts(base)
        if len(ps) != 1 or ps[0][0] != 's':
            raise Unsupported('element-wise update of a composite list')
        outs = [dict(o, value=w if w is not None else part_get(ps[0], kb.k)) for o, w in self.cases]
        vb = KBody(kb.k, outs, kb.fresh0, kb.fresh1)

        def elem(i):
            if i < j:
                return vb.instantiate(i)
            return seq_get(base, i)
        ob.set_parts([('s', n, elem, {})])

    def check(self, ob, pre, post, k):
        w = self.write(pre, post, k)
        s = self.kb.sub(k)
        for o, v in self.cases:
            c = self.kb.cond(o, k)
            if E().check(z3.Not(c)) == z3.unsat:
                if (v is None) != (w is None):
                    return False
                return v is None or must_eq(s.value(v), w)
        return False


def make_obj_hyp(ob, kb, i):
    if isinstance(ob, C.Heap):
        return HeapHyp(ob, kb, i)
    if isinstance(ob, VList):
        for o in kb.outcomes:
            for ob2, st, new in o['effects']:
                if ob2 is ob and new[0] is not None and len(new[0]) == 1 and 'upd' in new[0][0][3]:
                    return PointHyp(ob, kb, i)
        return ListHyp(ob, kb, i)
    if isinstance(ob, VSet):
        return SetHyp(ob, kb, i)
    if isinstance(ob, VDict):
        return DictHyp(ob, kb, i)
    if isinstance(ob, list):
        raise Unsupported('loop mutates a native list')
    return AttrHyp(ob, kb, i)


class TempHyp:
    """assigned in the body before use; undetermined between iterations"""

    def __init__(self, nm, entry):
        self.nm, self.entry = nm, entry

    def at(self, j):
        from .rt import POISON
        return POISON

    def check(self, pre, post, k):
        return True


class CountHyp:
    def __init__(self, nm, v0, d):
        self.nm, self.v0, self.d = nm, v0, d

    def at(self, j):
        return self.v0 + self.d * j

    def check(self, pre, post, k):
        return must_eq(post[self.nm], pre[self.nm] + self.d)


class RecHyp:
    """accumulator: f(0)=v0 and f(k+1)=step(f(k),k), f a fresh function symbol.

    The recurrence is instantiated on demand (unfold) instead of being asserted for all k.
    """

    def __init__(self, nm, v0, kind):
        self.nm, self.v0 = nm, v0
        self.f = z3.Function(E().fresh('acc'), z3.IntSort(), core.zsort(kind))
        self.kind = kind
        self.kb = self.goes = self.n = None
        self.cands = ['ge', 'le'] if kind == 'int' else []
        E().assume(self.f(z3.IntVal(0)) == core.unwrap(v0, kind if isinstance(kind, core.Sort) else None))

    def at(self, j):
        return core.wrap(self.f(iterm(j)), self.kind)

    def check(self, pre, post, k):
        return True

    # invariants v0 <= f(k) / f(k) <= v0, kept when inductive
    def cand(self, name, t):
        v0 = core.unwrap(self.v0)
        return t >= v0 if name == 'ge' else t <= v0

    def assume_cands(self, k):
        for c in self.cands:
            E().assume(self.cand(c, self.f(iterm(k))))

    def drop_cands(self, kb):
        bad = []
        for o in kb.outcomes:
            if o['kind'] != 'val' or o['value'][0] is not None:
                continue
            v = core.unwrap(o['value'][1][self.nm])
            for c in self.cands:
                pre = [self.cand(x, self.f(kb.k.t)) for x in self.cands]
                if c not in bad and E().check(*o['pc'], *pre, z3.Not(self.cand(c, v))) != z3.unsat:
                    bad.append(c)
        for c in bad:
            self.cands.remove(c)
        return bad

    def assert_cands(self, n):
        q = z3.Int(E().fresh('iv') + 'q')
        for c in self.cands:
            E().assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q <= iterm(n)), self.cand(c, self.f(q))), patterns=[self.f(q)]))

    def step_is(self, k):
        """terms of f(k+1) by outcome: [(condition, value)]"""
        out = []
        for o in self.goes:
            vb = KBody(self.kb.k, [dict(o, value=o['value'][1].get(self.nm))], self.kb.fresh0, self.kb.fresh1)
            out.append((o, vb))
        return out

    def unfold(self, k):
        """assume the defining equation of f(k+1), for an index k of an iteration that completed"""
        outs = self.step_is(k)
        i = E().choose(len(outs)) if len(outs) > 1 else 0
        o, vb = outs[i]
        s = self.kb.sub(k)
        for c in o['pc']:
            E().assume(s.term(c))
        E().assume(self.f(iterm(k) + 1) == core.unwrap(s.value(o['value'][1][self.nm]), self.kind if isinstance(self.kind, core.Sort) else None))


class ClosedHyp:
    """local with a closed form P(k) supplied by the harness; checked inductive."""

    def __init__(self, nm, P):
        self.nm, self.P = nm, P

    def at(self, j):
        return self.P(j)

    def check(self, pre, post, k):
        return must_eq(post[self.nm], self.P(k + 1))


CLOSED = []       # candidate closed forms: functions of the iteration number
SYM_WHILE = []    # non-empty: while loops are handled by sym_while


def loop_kind(v):
    if isinstance(v, bool) or isinstance(v, SBool):
        return 'bool'
    if isinstance(v, (int, SInt)):
        return 'int'
    if isinstance(v, (str, SStr)):
        return 'str'
    if isinstance(v, SVal):
        return v.sort
    return None


def make_local_hyp(nm, entry, kb, n, used=()):
    outs = [o for o in kb.outcomes if o['kind'] == 'val' and o['value'][0] is None]
    if nm in entry:
        v0 = entry[nm]
        if isinstance(v0, (int, SInt)) and not isinstance(v0, bool):
            ds = []
            for o in outs:
                v = o['value'][1].get(nm)
                if not isinstance(v, (int, SInt)):
                    ds = None
                    break
                ds.append(core.mkint(z3.simplify(iterm(v) - iterm(v0))))
            if ds and all(isinstance(d, int) and d == ds[0] for d in ds):
                return CountHyp(nm, v0, ds[0])
            for P in [P for P in CLOSED if P not in used]:
                if ds and must_eq(v0, P(0)):
                    used.append(P)
                    return ClosedHyp(nm, P)
        kd = loop_kind(v0)
        if kd is not None and outs and all(loop_kind(o['value'][1].get(nm)) == kd for o in outs):
            return RecHyp(nm, v0, kd)
    return TempHyp(nm, entry.get(nm, UNSET))


class Poison(Sym):
    """A local whose value after the loop is unknown; any use makes the proof inapplicable."""
    __slots__ = ('nm',)

    def __init__(self, nm): self.nm = nm

    @property
    def t(self): raise Unsupported(f'{self.nm} is used after a loop whose invariant does not describe it')

    def __getattr__(self, n):
        if n.startswith('__') or n.startswith('vf_'):
            raise AttributeError(n)
        raise Unsupported(f'{self.nm} is used after a loop whose invariant does not describe it')
    __hash__ = object.__hash__


def with_invariant(pred, inv, havoc, objects, keep=(), label='loop invariant'):
    """Handle the loops selected by pred(seq, info) by an explicit invariant.

    inv(k, x)     -> list of (label, condition) over the current state after k iterations; called at entry and after the
                     arbitrary iteration (x is that iteration's element, None at entry)
    havoc(k)      -> replace the state by an arbitrary one satisfying the invariant after k iterations
    objects()     -> the objects the loop may change (checked: nothing else changes)
    keep          -> names of locals described by the invariant (through get/set in havoc/inv)
    """
    def handler(seq, body, get, set_, info):
        e = E()
        n = seq_len(seq)
        for lb, c in inv(0, None):
            e.prove(f'{label} at entry: {lb}', c)
        entry = get()
        if e.choose(2) == 0:
            k = C.fresh_int('k')
            e.assume(And(k >= 0, k < n))
            if not e.feasible():
                raise Kill('no iteration')
            havoc(k)
            fr = core.Frame(e.stamp)
            e.frames.append(fr)
            try:
                x = seq_get(seq, k)
                r = body(x)
            finally:
                e.frames.pop()
            allowed = {id(o) for o in objects()}
            extra = [type(ob).__name__ for ob, st in fr.saved.values() if id(ob) not in allowed]
            if extra:
                raise Unsupported(f'loop changes state its invariant does not describe: {extra} ({info})')
            if r is not None:
                return r
            for lb, c in inv(k + 1, x):
                e.prove(f'{label} preserved: {lb}', c)
            raise Kill('end of the arbitrary iteration')
        havoc(n)
        now = get()
        d = dict(entry)
        for nm in now:
            if nm not in keep and (nm not in entry or True):
                d[nm] = Poison(nm)
        set_(d)
        return None
    HANDLERS.append((pred, handler))
