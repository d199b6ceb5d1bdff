"""C23  Streaming a table neither loses, repeats nor reorders rows."""
import json
import os
import z3
from pyvc.worker import H
from pyvc import core, containers as C, models as M, loops
from pyvc.core import Sort

INSTRUMENT = ['mplang.backends.table_impl']
ASSUMPTIONS = ['a native reader yields record batches of any sizes, empty ones included, whose concatenation is the table, then stops',
               'slicing a record batch, concatenating batches and combining chunks keep rows and their order; combine_chunks leaves one chunk (fewer than 2^31 elements)',
               'one TableReader is used by one thread']
TRUSTED = ['pyarrow (RecordBatchReader, slice, Table.from_batches, concat_tables, combine_chunks, file readers and writers)']

import pyvc.nospu  # noqa
import pyarrow as real_pa
import mplang.backends.table_impl as TI


class Rows:
    """the rows [lo, lo+n) of the table being read"""
    _vf_ok = True

    def __init__(self, lo, n): self.lo, self.n = lo, n

    @property
    def num_rows(self): return self.n

    @property
    def hi(self): return self.lo + self.n

    def slice(self, offset=0, length=None):
        if offset < 0:
            raise IndexError('Offset must be non-negative')
        if length is not None and length < 0:
            raise IndexError('Length must be non-negative')
        off = self.n if offset > self.n else offset
        left = self.n - off
        if length is not None and length < left:
            left = length
        return type(self)(self.lo + off, left)


class RB(Rows):
    schema = 'schema'


class TB(Rows):
    one = False

    def combine_chunks(self):
        t = TB(self.lo, self.n)
        t.one = True
        return t

    def to_batches(self):
        if not self.one:
            raise core.Unsupported('the chunks of a table')
        return [RB(self.lo, self.n)] if self.n > 0 else []


def joined(env, parts, what):
    """consecutive pieces put together"""
    k = env.len(parts)
    env.prove(f'{what}: something to put together', k > 0)
    i = env.int('piece', 0)
    env.prove(f'{what}: rows stay in order', env.implies(i + 1 < k, lambda: C.seq_get(parts, i).hi == C.seq_get(parts, i + 1).lo) if core.Unsupported else True)
    first, last = C.seq_get(parts, 0), C.seq_get(parts, k - 1)
    return TB(first.lo, last.hi - first.lo)


class Native:
    """a native reader over rows [pos, total)"""
    _vf_ok = True
    schema = 'schema'

    def __init__(self, env, total, pos=0): self.env, self.total, self.pos = env, total, pos

    def read_next_batch(self):
        env = self.env
        if self.pos == self.total and env.choice('stops', [True, False]):
            raise StopIteration
        n = core.fresh_int('batch')
        core.ENG.assume(core.And(n >= 0, self.pos + n <= self.total))
        b = RB(self.pos, n)
        self.pos = self.pos + n
        return b

    def read_all(self):
        t = TB(self.pos, self.total - self.pos)
        self.pos = self.total
        return t

    def close(self): pass


def arrow(env):
    class pa:
        class Table(TB):
            from_batches = staticmethod(lambda bs, schema=None: joined(env, bs, 'batches'))
        RecordBatchReader = Native
        RecordBatch = RB
        concat_tables = staticmethod(lambda ts, **k: joined(env, ts, 'tables'))
    pa.Table._vf_ok = True
    env.patch(TI, 'pa', pa)


def state(env, batch=None):
    """a TableReader in an arbitrary reachable state: rows from `start` on are still to come, those before `pos` were split off already"""
    arrow(env)
    total, start, pos = env.int('total', 0), env.int('start', 0), env.int('pos', 0)
    env.assume(env.and_(start <= pos, pos <= total))
    size = env.int('batch_size') if batch is None else batch
    nat = Native(env, total, pos)
    r = TI.TableReader(nat, num_rows=total, batch_size=size)
    if env.choice('at', ['more', 'ended']) == 'ended':
        r._eof = True
        env.assume(start == total)
        nat.pos = total
    if env.choice('split_off', [False, True]):
        env.assume(env.and_(start < nat.pos, size > 0))
        r._remain = RB(start, nat.pos - start)
    else:
        env.assume(start == nat.pos)
    return r, nat, total, start, size


def invariant(env, r, nat, total, start, label):
    """the state again is one of those that state() makes"""
    rem = r._remain
    env.prove(f'{label}: the reader is not past the end', nat.pos <= total)
    if rem is None:
        env.prove(f'{label}: nothing is skipped', env.eq(nat.pos, start))
    else:
        env.prove(f'{label}: what was split off comes next', env.and_(env.eq(rem.lo, start), env.eq(rem.hi, nat.pos), rem.n > 0, r._batch_size > 0))
    env.prove(f'{label}: ended only at the end', env.implies(r._eof is True, env.eq(start, total)) if isinstance(r._eof, bool) else False)


def pieces(env, v, s, p, size):
    """v is a list of consecutive pieces covering [s, p), the last of which starts before `size` rows are full"""
    n = C.seq_len(v)
    if n == 0:
        return env.eq(s, p)
    i = core.fresh_int('piece')
    core.ENG.assume(i >= 0)
    at = lambda k: C.seq_get(v, k)
    if not all(isinstance(x, Rows) for x in (at(0), at(n - 1))):
        return False
    c = env.and_(env.eq(at(0).lo, s), env.eq(at(n - 1).hi, p), at(n - 1).lo < s + size)
    if i + 1 < n:
        return env.and_(c, env.eq(at(i).hi, at(i + 1).lo))
    return c


def gather(env, r, nat, start, size):
    """Hoare's rule for the loop that gathers batches: after some iterations, a list holds consecutive pieces from `start` to the position of
    the native reader, and a number holds how many rows they have (or how many are missing)."""
    def handler(cond, body, get, set_, info):
        e = core.ENG
        entry, p0 = get(), nat.pos
        heap = dict(vars(r))
        # which state the loop changes
        def once(k):
            set_(entry)
            nat.pos = p0
            if not cond():
                raise core.Kill('no iteration')
            return body()
        kb = C.kbody(1, once)
        set_(entry)
        nat.pos = p0
        lists = {id(ob): ob for o in kb.outcomes for ob, st, new in o['effects'] if isinstance(ob, list)}
        other = {type(ob).__name__ for o in kb.outcomes for ob, st, new in o['effects'] if not isinstance(ob, list) and ob is not r}
        if other:
            raise core.Unsupported(f'the loop changes {other}')
        forms = {'count': lambda p: p - start, 'missing': lambda p: size - (p - start)}
        kept = {}
        for nm, v in entry.items():
            if isinstance(v, list):
                lists[id(v)] = v
            elif isinstance(v, (int, core.SInt)) and not isinstance(v, bool):
                for f in forms:
                    if loops.must_eq(v, forms[f](p0)):
                        kept[nm] = f
                        break
        for ob in lists.values():
            env.prove('on entry the pieces gathered are those split off', pieces(env, ob, start, p0, size))
        p = core.fresh_int('pos')
        e.assume(core.And(p >= p0, p <= nat.total))
        nat.pos = p
        new = {}
        for nm in entry:
            f = kept.get(nm)
            new[nm] = forms[f](p) if f else entry[nm] if id(entry[nm]) in lists else loops.Poison(nm)
        for ob in lists.values():
            j = core.fresh_int('pieces')
            bd = z3.Function(e.fresh('border'), z3.IntSort(), z3.IntSort())
            at = lambda i, bd=bd: core.mkint(bd(core.iterm(i)))
            q = z3.Int('bq')
            e.assume(core.And(j >= 0, env.iff(j == 0, p == start), core.sym_eq(at(0), start), core.sym_eq(at(j), p)))
            e.assume(core.Or(j == 0, at(j - 1) < start + size))
            e.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < core.iterm(j)), bd(q) < bd(q + 1)), patterns=[bd(q)]))
            w = C.sym_seq(j, lambda i, at=at: RB(at(i), at(i + 1) - at(i)))
            e.touch(ob)
            core.restore_state(ob, core.save_state(w))
        set_(new)
        if not cond():
            return None
        x = body()
        if x is not None:
            return x
        now = get()
        for ob in lists.values():
            env.prove('the pieces gathered are consecutive', pieces(env, ob, start, nat.pos, size))
        for nm, f in kept.items():
            env.prove('the rows gathered are counted', env.eq(now[nm], forms[f](nat.pos)))
        env.prove('the reader is otherwise unchanged', all(vars(r)[k] is heap[k] for k in heap if k != '_reader'))
        raise core.Kill('end of the arbitrary iteration')
    loops.WHILE_HANDLERS.append((lambda info: True, handler))


def h_next(env):
    """From any state, the next batch holds exactly the next rows, as many as requested unless the table ends; then the reader stops."""
    r, nat, total, start, size = state(env)
    env.assume(size > 0)
    if env.bound is None:
        gather(env, r, nat, start, size)
    x = env.run(r.read_next_batch)
    if x[0] == 'exc':
        env.prove('stops only at the end', type(x[1]) is StopIteration and env.eq(start, total), x)
        invariant(env, r, nat, total, start, 'after the end')
        env.cover('stop')
    else:
        b = x[1]
        env.prove('a record batch', type(b) is RB)
        env.prove('the next rows', env.eq(b.lo, start))
        env.prove('as many as requested, or the rest', env.or_(env.eq(b.n, size), env.and_(b.n < size, env.eq(b.hi, total))))
        env.prove('never empty', b.n > 0)
        invariant(env, r, nat, total, b.hi, 'after a batch')
        env.cover('batch')


def h_native(env):
    """Without a requested size, the batches are those of the native reader."""
    r, nat, total, start, size = state(env)
    env.assume(size <= 0)
    x = env.run(r.read_next_batch)
    if x[0] == 'exc':
        env.prove('stops only at the end', type(x[1]) is StopIteration and env.eq(start, total), x)
        invariant(env, r, nat, total, start, 'after the end')
    else:
        env.prove('the next rows', env.eq(x[1].lo, start))
        invariant(env, r, nat, total, x[1].hi, 'after a batch')


def h_all(env):
    """From any state, reading the rest gives exactly the remaining rows; nothing is left."""
    r, nat, total, start, size = state(env)
    x = env.run(r.read_all)
    env.prove('reads', x[0] == 'ok', x)
    env.prove('from the next row to the end', env.and_(env.eq(x[1].lo, start), env.eq(x[1].hi, total)))
    invariant(env, r, nat, total, total, 'after the rest')
    env.prove('nothing split off is left', r._remain is None)


def h_init(env):
    """A new reader, over a native reader or a table, starts before the first row."""
    arrow(env)
    total = env.int('total', 0)
    size = env.int('batch_size')
    nat = Native(env, total)

    class T(TI.pa.Table):
        def to_reader(self): return nat
    data = nat if env.choice('native', [True, False]) else T(0, total)
    x = env.run(TI.TableReader, data, total, size)
    env.prove('made', x[0] == 'ok', x)
    r = x[1]
    env.prove('reads from it', r._reader is nat and env.eq(r._batch_size, size))
    env.prove('knows the row count', env.eq(r.num_rows, total))
    env.prove('not ended', r._eof is False and r._remain is None)
    invariant(env, r, nat, total, 0, 'at first')


def h_value(env):
    """The value of a lazily read table is all of its rows, read once."""
    arrow(env)
    total = env.int('total', 0)
    opened = []

    class Source(TI.TableSource):
        _vf_ok = True
        def register(self, conn, name, replace=True): pass

        def open(self, batch_size=TI.DEFAULT_BATCH_SIZE):
            opened.append(TI.TableReader(Native(env, total), num_rows=total, batch_size=batch_size))
            return opened[-1]
    v = TI.TableValue(Source())
    x = env.run(lambda: v.data)
    env.prove('reads', x[0] == 'ok', x)
    env.prove('all rows', env.and_(env.eq(x[1].lo, 0), env.eq(x[1].hi, total)))
    y = env.run(lambda: v.data)
    env.prove('the same again', y[0] == 'ok' and y[1] is x[1] and len(opened) == 1)


class Part:
    """one of several readers at row `at`, by the contract of TableReader with batch size `size`"""
    _vf_ok = True

    def __init__(self, i, left, size, names): self.i, self.left, self.size, self.schema = i, left, size, names

    def read_next_batch(self):
        if self.left <= 0:
            raise StopIteration
        b = RB(0, core.mkint(z3.If(core.bterm(self.left < self.size), core.iterm(self.left), core.iterm(self.size))) if isinstance(self.left, core.Sym) else min(self.left, self.size))
        b.columns = [('columns', self.i)]
        return b


def h_multi(env, many):
    """Combining tables column-wise: a batch is given only when every table has the same next rows, its columns are those of all the tables in
    order; tables that have different rows left within the batch are refused; it ends when all do."""
    size = env.int('size', 1)
    left = env.fn('rows_left', ['int'], 'int')
    n = env.length('tables', 1)
    env.assume(env.forall(n, lambda i: left(i) >= 0))
    if many:
        readers = C.sym_seq(n, lambda i: Part(i, left(i), size, ()))
    else:
        readers = [Part(i, left(i), size, ()) for i in range(n)]
    made = []

    class pa:
        class RecordBatch:
            @staticmethod
            def from_arrays(columns, names=None, schema=None):
                made.append((columns, names, schema))
                return made[-1]
    env.patch(TI, 'pa', pa)
    if env.sym and env.bound is None:
        walk(env, readers, n, left, size)
    m = TI.MultiTableReader.__new__(TI.MultiTableReader)
    m._readers, m._schema = readers, Names()
    x = env.run(m.read_next_batch)
    take = lambda i: core.mkint(z3.If(core.bterm(left(i) < size), core.iterm(left(i)), core.iterm(size)))
    i, j = env.int('i', 0), env.int('j', 0)
    env.assume(env.and_(i < n, j < n))
    if x[0] == 'exc' and isinstance(x[1], StopIteration):
        env.prove('ends when every table does', env.eq(left(i), 0))
        env.cover('end')
    elif x[0] == 'exc':
        env.prove('refused only when tables differ', env.not_(env.forall(n, lambda k: env.eq(left(k), left(0)))), x)
        env.cover('refused')
    else:
        env.prove('every table has the same next rows', env.eq(take(i), take(j)))
        env.prove('and some', take(i) > 0)
        cols, names, schema = made[-1]
        env.prove('one batch', x[1] is made[-1] and len(made) == 1 and (names is Names.names or schema is m._schema))
        env.prove('the columns of all tables', env.eq(C.seq_len(cols), n))
        env.prove('in order', env.eq(C.seq_get(cols, i)[1], i))
        env.cover('batch')


def walk(env, readers, n, left, size):
    """Hoare's rule for the loop over the tables.  After k of them: a number counts those that had ended, another holds the row count of the
    others (-1 before there is one), a list holds the columns of the others in order."""
    e = core.ENG
    F = z3.Function('ended', z3.IntSort(), z3.IntSort())
    ended = lambda k: core.mkint(F(core.iterm(k)))
    stop = lambda i: left(i) <= 0
    take = lambda i: core.mkint(z3.If(core.bterm(left(i) < size), core.iterm(left(i)), core.iterm(size)))
    step = lambda k: env.or_(env.and_(stop(k), env.eq(ended(k + 1), ended(k) + 1)), env.and_(env.not_(stop(k)), env.eq(ended(k + 1), ended(k))))
    q = z3.Int('eq')

    def lemma(k):
        return env.and_(ended(k) >= 0, ended(k) <= k, env.iff(env.eq(ended(k), 0), env.forall(k, lambda i: env.not_(stop(i)))), env.iff(env.eq(ended(k), k), env.forall(k, stop)))
    e.assume(env.eq(ended(0), 0))
    env.prove('counting: at first', lemma(0))
    k = env.int('counted', 0)
    env.prove('counting: one more', env.implies(env.and_(lemma(k), step(k)), lemma(k + 1)))

    def rows(v, k):
        return env.or_(env.and_(env.eq(ended(k), k), env.eq(v, -1)), env.and_(ended(k) < k, v > 0, env.forall(k, lambda i: env.or_(stop(i), env.eq(take(i), v)))))

    def handler(seq, body, get, set_, info):
        entry = get()
        kb = C.kbody(n, lambda k: (set_(entry), body(C.seq_get(seq, k)))[1])
        set_(entry)
        lists = {id(ob): ob for o in kb.outcomes for ob, st, new in o['effects'] if isinstance(ob, list)}
        other = {type(ob).__name__ for o in kb.outcomes for ob, st, new in o['effects'] if not isinstance(ob, list)}
        if other:
            raise core.Unsupported(f'the loop changes {other}')
        kept = {nm: {-1: 'rows', 0: 'ended'}[v] for nm, v in entry.items() if type(v) is int and v in (-1, 0)}
        for ob in lists.values():
            env.prove('the columns at first', env.eq(C.seq_len(ob), 0))
        C_ = z3.Function(e.fresh('col'), z3.IntSort(), z3.IntSort())

        def at(k):
            e.assume(lemma(k))
            new = {}
            for nm in entry:
                f = kept.get(nm)
                if f == 'ended':
                    new[nm] = ended(k)
                elif f == 'rows':
                    new[nm] = core.fresh_int('rows')
                    e.assume(rows(new[nm], k))
                else:
                    new[nm] = entry[nm] if id(entry[nm]) in lists else loops.Poison(nm)
            for ob in lists.values():
                w = C.sym_seq(k - ended(k), lambda i: ('columns', core.mkint(C_(core.iterm(i)))))
                e.touch(ob)
                core.restore_state(ob, core.save_state(w))
            i = z3.Int('cq')
            e.assume(z3.Implies(core.bterm(env.eq(ended(k), 0)), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < core.iterm(k)), C_(i) == i), patterns=[C_(i)])))
            set_(new)
        if e.choose(2) == 0:
            k = core.fresh_int('k')
            e.assume(core.And(k >= 0, k < n))
            at(k)
            e.assume(step(k))
            e.assume(lemma(k + 1))
            r = body(C.seq_get(seq, k))
            if r is not None:
                return r
            now = get()
            for nm, f in kept.items():
                env.prove('after one more table: ' + f, env.eq(now[nm], ended(k + 1)) if f == 'ended' else rows(now[nm], k + 1))
            j = env.int('column', 0)
            for ob in lists.values():
                env.prove('one entry for each table that goes on', env.eq(C.seq_len(ob), k + 1 - ended(k + 1)))
                if ended(k + 1) == 0:
                    env.prove('its columns come last', env.eq(C.seq_get(ob, k)[1], k))
                    if j < k:
                        env.prove('the others stay', env.eq(C.seq_get(ob, j)[1], j))
            raise core.Kill('end of the arbitrary iteration')
        at(n)
        return None
    loops.HANDLERS.append((lambda seq, info: True, handler))


class Names:
    names = ('names',)
    _vf_ok = True


def h_fields(env):
    """Column names that occur twice are refused; otherwise the fields are those of all the tables in order (up to 3 tables of 2 columns)."""
    n = env.choice('tables', [1, 2, 3])
    names = [[env.str(f'c{i}{j}') for j in range(env.choice(f'cols{i}', [0, 1, 2]))] for i in range(n)]
    for row in names:
        for b in range(len(row)):
            for a in range(b):
                env.assume(env.not_(env.eq(row[a], row[b])))

    class F:
        _vf_ok = True
        def __init__(self, name): self.name = name

    class pa:
        schema = staticmethod(lambda fs: fs)
    env.patch(TI, 'pa', pa)
    fields = [[F(c) for c in row] for row in names]

    class R:
        _vf_ok = True
        def __init__(self, fs): self.schema = fs
    readers = [R(fs) for fs in fields]
    x = env.run(TI.MultiTableReader, readers)
    flat, ff = [c for r in names for c in r], [f for r in fields for f in r]
    twice = env.or_(False, *[env.eq(flat[a], flat[b]) for b in range(len(flat)) for a in range(b)])
    if x[0] == 'exc':
        env.prove('refused only for a name that occurs twice', twice, x)
    else:
        env.prove('names differ', env.not_(twice))
        got = x[1].schema
        env.prove('all fields in order', len(got) == len(ff) and all(a is b for a, b in zip(got, ff)))


# ---- real tables and files
def rtable(g, n, cols='abc', first=0):
    pick = {'i': lambda i: first + i, 's': lambda i: None if g.random() < .2 else 'r%d' % i, 'f': lambda i: i / 4, 'b': lambda i: g.random() < .5}
    ty = {'i': real_pa.int64(), 's': real_pa.string(), 'f': real_pa.float64(), 'b': real_pa.bool_()}
    kinds = [g.choice('isfb') if k else 'i' for k in range(len(cols))]
    t = real_pa.table({c: real_pa.array([pick[k](i) for i in range(n)], type=ty[k]) for c, k in zip(cols, kinds)})
    if n and g.random() < .7:       # several chunks
        cuts = sorted(g.randint(0, n) for _ in range(g.randint(1, 5)))
        t = real_pa.concat_tables([t.slice(a, b - a) for a, b in zip([0, *cuts], [*cuts, n])])
    return t


def stored(g, t, d, name='t', fmt=None):
    """t as something that can be streamed, and what kind"""
    import pyarrow.csv as pc
    import pyarrow.parquet as pq
    fmt = fmt or g.choice(['table', 'batches', 'parquet', 'csv', 'json', 'query'])
    if fmt == 'csv' and (t.num_rows == 0 or any(x.null_count for x in t.columns)):
        fmt = 'batches'             # an empty text and no text look alike
    if fmt == 'json' and (t.num_rows == 0 or any(x.null_count == len(x) for x in t.columns)):
        fmt = 'table'
    if fmt == 'table':
        return t, fmt
    if fmt == 'batches':
        bs = t.to_batches()
        bs = [b for x in bs for b in ([x.slice(0, x.num_rows // 2), x.slice(x.num_rows // 2), x.slice(0, 0)] if g.random() < .5 else [x])]
        return real_pa.RecordBatchReader.from_batches(t.schema, iter(bs)), fmt
    if fmt == 'query':
        import duckdb
        c = duckdb.connect()
        c.register('src', t)
        return TI.QueryTableSource(c.sql('select * from src'), TI.DuckDBState(c)), fmt
    p = os.path.join(d, f'{name}.{fmt}')
    if fmt == 'parquet':
        pq.write_table(t, p, row_group_size=g.choice([1, 2, 3, 100]))
    elif fmt == 'csv':
        pc.write_csv(t.combine_chunks(), p)
    else:
        with open(p, 'w') as f:
            for r in t.to_pylist():
                f.write(json.dumps(r) + '\n')
    return TI.FileTableSource(p, fmt, t.schema), fmt


def reader(src, size):
    return src.open(size) if isinstance(src, TI.TableSource) else TI.TableReader(src, batch_size=size)


def h_stream(env):
    """Real tables, record batch readers, files and query results: the batches put together are the table, each but the last has the requested
    size, also when the rest is read in one go at any point."""
    g = env.rng
    d = env.scratch()
    t = rtable(g, g.choice([0, 1, 2, 3, 5, 8, 17]))
    src, kind = stored(g, t, d)
    size = g.choice([1, 2, 3, 4, 7, 100, -1, 0])
    want = t.to_pylist()
    r = reader(src, size)
    env.prove('the columns', r.schema.names == t.schema.names, (kind, r.schema))
    env.prove('the row count, if known', r.num_rows in (-1, t.num_rows), (kind, r.num_rows))
    stop_at = g.choice([None, None, 0, 1, 2, 5])
    got, sizes, whole = [], [], None
    while True:
        if stop_at is not None and len(sizes) == stop_at:
            whole = r.read_all()
            break
        try:
            b = r.read_next_batch()
        except StopIteration:
            break
        env.prove('a record batch', isinstance(b, real_pa.RecordBatch))
        got += b.to_pylist()
        sizes.append(b.num_rows)
    if whole is not None:
        got += whole.to_pylist()
    env.prove('every row once, in order', got == want, (kind, size, sizes, stop_at))
    if size > 0:
        full = sizes if whole is not None and len(whole) else sizes[:-1]
        env.prove('the requested size', all(x == size for x in full) and all(0 < x <= size for x in sizes), (kind, size, sizes))
    for _ in range(2):
        env.prove('nothing more', env.run(r.read_next_batch)[0] == 'exc' or whole is not None and len(r.read_all()) == 0)
    r.close()
    if kind not in ('table', 'batches'):
        env.prove('as a value', TI.TableValue(src).data.to_pylist() == want, kind)


def h_write(env):
    """Writing one table or several side by side to a file and reading it back: the rows stay aligned and in order; different row counts are refused."""
    from types import SimpleNamespace as N
    import pyarrow.json as pj
    import pyarrow.csv as pc
    import pyarrow.parquet as pq
    g = env.rng
    d = env.scratch()
    old = TI.DEFAULT_BATCH_SIZE
    TI.DEFAULT_BATCH_SIZE = g.choice([1, 2, 3, 5, old])
    try:
        n = g.choice([1, 2, 3, 6, 11])
        k = g.choice([1, 2, 3])
        counts = [n] * k
        if k > 1 and g.random() < .4:
            counts[g.randrange(k)] += g.choice([-1, 1, TI.DEFAULT_BATCH_SIZE if TI.DEFAULT_BATCH_SIZE < 9 else 1])
        ts = [rtable(g, max(c, 0), cols=[f'{chr(97 + i)}{j}' for j in range(g.choice([1, 2]))], first=100 * i) for i, c in enumerate(counts)]
        vals = [TI.TableValue(stored(g, t, d, f'in{i}', g.choice(['table', 'parquet', 'json', 'query']))[0]) for i, t in enumerate(ts)]
        fmt = g.choice(['parquet', 'csv', 'json'])
        out = os.path.join(d, 'out.' + fmt)
        r = env.run(TI.write_impl, N(store=None), N(attrs=dict(path=out, format=g.choice([fmt, 'auto']))), *vals)
        rows = [t.num_rows for t in ts]
        if len(set(rows)) > 1:
            env.prove('different row counts are refused', r[0] == 'exc', (rows, TI.DEFAULT_BATCH_SIZE, r))
            return
        env.prove('written', r[0] == 'ok', r)
        if fmt == 'parquet':
            back = pq.read_table(out).to_pylist()
        elif fmt == 'csv':
            import pyarrow as pa
            back = pc.read_csv(out, convert_options=pc.ConvertOptions(column_types={f.name: f.type for t in ts for f in t.schema}, strings_can_be_null=True)).to_pylist()
        else:
            back = [json.loads(x) for x in open(out) if x.strip()]
        want = [dict(x for t in row for x in t.items()) for row in zip(*[t.to_pylist() for t in ts])]
        env.prove('rows aligned, in order', back == want, (fmt, back, want))
        # the same through the reader
        rs = [reader(v.unwrap(), 2) for v in [TI.TableValue(stored(g, t, d, f'again{i}', g.choice(['table', 'parquet']))[0]) for i, t in enumerate(ts)]]
        m = TI.MultiTableReader(rs)
        env.prove('combined', [x for b in m for x in b.to_pylist()] == want)
    finally:
        TI.DEFAULT_BATCH_SIZE = old


def harnesses():
    return [
        H('next', h_next, conc=0, functions=['table_impl.TableReader.read_next_batch', 'table_impl.TableReader._read_next_batch'], what=h_next.__doc__),
        H('native', h_native, conc=0, functions=['table_impl.TableReader._read_next_batch'], what=h_native.__doc__),
        H('rest', h_all, conc=0, functions=['table_impl.TableReader.read_all'], what=h_all.__doc__),
        H('init', h_init, conc=0, functions=['table_impl.TableReader.__init__'], what=h_init.__doc__),
        H('combine', lambda env: h_multi(env, True), conc=0, functions=['table_impl.MultiTableReader.read_next_batch'], what=h_multi.__doc__),
        H('value', h_value, conc=0, functions=['table_impl.TableValue.data'], what=h_value.__doc__),
        H('stream', h_stream, sym=False, conc=2500, conc_s=20, functions=['table_impl.TableReader', 'table_impl.FileTableSource.open', 'table_impl.ParquetReader', 'table_impl.QueryTableSource.open', 'table_impl.TableValue.data'], what=h_stream.__doc__),
        H('write', h_write, sym=False, conc=1500, conc_s=20, functions=['table_impl.write_impl', 'table_impl.MultiTableReader'], what=h_write.__doc__),
        H('fields', h_fields, conc=0, unbounded=False, bound=2, functions=['table_impl.MultiTableReader.__init__'], what=h_fields.__doc__)]
