"""Byte strings as ropes: concrete chunks, opaque blobs, packed integers."""
from __future__ import annotations
import struct, z3
from . import core
from .core import Sym, SInt, SBool, SStr, SVal, Sort, Unsupported, Kill, And, Or, Not, mkbool, mkint, iterm, bterm, norm_slice

BLOB = Sort('Blob')      # opaque byte content; length is blob_len
BLEN = z3.Function('blob_len', BLOB.z, z3.IntSort())


def E():
    return core.ENG


# parts: ('c', bytes) | ('b', blobterm, off, len) | ('i', n_bytes, order, signed, intproxy, off, len)
def plen(p):
    if p[0] == 'c':
        return len(p[1])
    return p[-1]


DECODE = []      # harness-provided model of bytes.decode


def u32_at(b, off):
    """little-endian 32-bit value at an offset of a blob"""
    return unpack_int(fin(b.slice(off, off + 4)), 4, 'little', False)


class SBytes(Sym):
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = norm(parts)

    @property
    def t(self):
        raise Unsupported('term of a byte rope')

    @staticmethod
    def lit(b):
        return SBytes([('c', bytes(b))])

    @staticmethod
    def blob(name):
        t = z3.Const(name, BLOB.z)
        n = mkint(BLEN(t))
        E().assume(n >= 0)
        return SBytes([('b', t, 0, n)])

    def vf_len(self):
        n = 0
        for p in self.parts:
            n = n + plen(p)
        return n

    def __len__(self):
        return self.vf_len().__index__()

    def __bool__(self):
        return bool(self.vf_len() > 0)

    def vf_isinstance(self, t):
        return t is bytes or t is object

    def vf_type(self):
        return bytes

    def __add__(self, o):
        if isinstance(o, SBytes):
            return SBytes(self.parts + o.parts)
        if isinstance(o, (bytes, bytearray)):
            return SBytes(self.parts + [('c', bytes(o))])
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (bytes, bytearray)):
            return SBytes([('c', bytes(o))] + self.parts)
        return NotImplemented

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported('byte slice step')
            a, b = norm_slice(i.start, i.stop, self.vf_len())
            return fin(self.slice(a, b))
        n = self.vf_len()
        if i < 0:
            i = i + n
        if i < 0 or i >= n:
            raise IndexError('index out of range')
        s = self.slice(i, i + 1)
        if isinstance(s, SBytes) and len(s.parts) == 1:
            p = s.parts[0]
            if p[0] == 'c':
                return p[1][0]
            if p[0] == 'b':
                f = z3.Function('blob_at', BLOB.z, z3.IntSort(), z3.IntSort())
                v = mkint(f(p[1], iterm(p[2])))
                E().assume(And(v >= 0, v < 256))
                return v
            if p[0] == 'i' and p[1] == 1:
                return p[4]
        raise Unsupported('indexing into packed bytes')

    def slice(self, a, b):
        """bytes [a,b) with 0<=a<=b<=len"""
        if len(self.parts) == 1 and self.parts[0][0] == 'b':
            return SBytes([sub(self.parts[0], a, b)])
        out = []
        off = 0
        for p in self.parts:
            m = plen(p)
            lo, hi = off, off + m
            off = hi
            if b <= lo:
                break
            if a >= hi:
                continue
            s = a - lo if a > lo else 0
            e = b - lo if b < hi else m
            out.append(sub(p, s, e))
        return SBytes(out)

    def __eq__(self, o):
        if isinstance(o, (bytes, bytearray)):
            o = SBytes.lit(o)
        if not isinstance(o, SBytes):
            return False
        return eq(self, o)

    def __ne__(self, o):
        return Not(self == o)

    __hash__ = Sym.__hash__

    def __repr__(self):
        return f'<SBytes {self.parts}>'

    def decode(self, enc='utf-8', errors='strict'):
        if len(self.parts) == 1 and self.parts[0][0] == 'b' and isinstance(self.parts[0][2], int) and self.parts[0][2] == 0:
            t = self.parts[0][1]
            if z3.is_app(t) and t.decl().name() == 'utf8':
                return core.mkstr(t.arg(0))
        if DECODE:
            return DECODE[-1](self)
        raise Unsupported('decode of symbolic bytes')

    def startswith(self, p):
        n = len(p)
        if self.vf_len() < n:
            return False
        return self[:n] == p

    def tobytes(self, *a):
        return self

    @property
    def nbytes(self):
        return self.vf_len()

    def hex(self):
        raise Unsupported('hex of symbolic bytes')

    def _vf_subst(self, s):
        out = []
        for p in self.parts:
            if p[0] == 'c':
                out.append(p)
            elif p[0] == 'b':
                out.append(('b', s.term(p[1]), s.value(p[2]), s.value(p[3])))
            else:
                out.append(p[:4] + (s.value(p[4]), s.value(p[5]), s.value(p[6])))
        return SBytes(out)

    def __iter__(self):
        for p in self.parts:        # the leading bytes, as far as they are known
            if p[0] != 'c':
                break
            yield from p[1]
        raise Unsupported('iterating symbolic bytes')

    def __getattr__(self, name):
        if hasattr(bytes, name) and not name.startswith('__'):
            raise Unsupported(f'{name} of symbolic bytes')
        raise AttributeError(f'symbolic bytes have no attribute {name!r}')


def utf8_encode(s):
    t = z3.Function('utf8', z3.StringSort(), BLOB.z)(core.sterm(s))
    n = mkint(BLEN(t))
    E().assume(And(n >= 0, mkbool(BLEN(t) >= z3.Length(core.sterm(s)))))
    return SBytes([('b', t, 0, n)])


def fin(x):
    if isinstance(x, SBytes):
        if not x.parts:
            return b''
        if len(x.parts) == 1 and x.parts[0][0] == 'c':
            return x.parts[0][1]
    return x


def norm(parts):
    out = []
    for p in parts:
        n = plen(p)
        if isinstance(n, int) and n == 0:
            continue
        if p[0] == 'c' and out and out[-1][0] == 'c':
            out[-1] = ('c', out[-1][1] + p[1])
            continue
        # adjacent slices of one blob / one packed integer
        if out and p[0] == 'b' and out[-1][0] == 'b' and out[-1][1].eq(p[1]):
            q = out[-1]
            if syn_eq(q[2] + q[3], p[2]):
                out[-1] = ('b', q[1], q[2], q[3] + p[3])
                continue
        if out and p[0] == 'i' and out[-1][0] == 'i' and out[-1][1:4] == p[1:4] and out[-1][4] is p[4]:
            q = out[-1]
            if syn_eq(q[5] + q[6], p[5]):
                out[-1] = q[:6] + (q[6] + p[6],)
                continue
        out.append(p)
    return out


def syn_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    d = z3.simplify(iterm(a) - iterm(b))
    return z3.is_int_value(d) and d.as_long() == 0


def sub(p, s, e):
    if p[0] == 'c':
        if not isinstance(s, int):
            s2 = core.concrete_int(s)
        else:
            s2 = s
        e2 = e if isinstance(e, int) else core.concrete_int(e)
        if s2 is None:
            for v in range(len(p[1]) + 1):
                if s == v:
                    s2 = v
                    break
        if e2 is None:
            for v in range(len(p[1]) + 1):
                if e == v:
                    e2 = v
                    break
        if s2 is None or e2 is None:
            raise Kill('offset')
        return ('c', p[1][s2:e2])
    if p[0] == 'b':
        return ('b', p[1], p[2] + s, e - s)
    return p[:5] + (p[5] + s, e - s)


def eq(a, b):
    la, lb = a.vf_len(), b.vf_len()
    if not syn_eq(la, lb):
        if not (la == lb):
            return False
    conds = []
    pa, pb = list(a.parts), list(b.parts)
    while pa and pb:
        x, y = pa[0], pb[0]
        nx, ny = plen(x), plen(y)
        if syn_eq(nx, ny):
            n = nx
            pa.pop(0); pb.pop(0)
        elif nx == ny:
            n = nx
            pa.pop(0); pb.pop(0)
        elif nx < ny:
            n = nx
            pa.pop(0)
            pb[0] = sub(y, nx, ny)
            y = sub(y, 0, nx)
        else:
            n = ny
            pb.pop(0)
            pa[0] = sub(x, ny, nx)
            x = sub(x, 0, ny)
        conds.append(part_eq(x, y, n))
    for p in pa + pb:
        conds.append(mkbool(iterm(plen(p)) == 0))
    return And(*conds)


def part_eq(x, y, n):
    if x[0] == 'c' and y[0] == 'c':
        return x[1] == y[1]
    if x[0] == 'b' and y[0] == 'b':
        if x[1].eq(y[1]) and syn_eq(x[2], y[2]):
            return True
        # equal content iff equal slices (uninterpreted)
        f = z3.Function('blob_slice', BLOB.z, z3.IntSort(), z3.IntSort(), BLOB.z)

        def sl(p):
            return z3.If(z3.And(iterm(p[2]) == 0, iterm(n) == BLEN(p[1])), p[1], f(p[1], iterm(p[2]), iterm(n)))
        return Or(mkbool(iterm(n) == 0), mkbool(sl(x) == sl(y)))
    if x[0] == 'i' and y[0] == 'i' and x[1:4] == y[1:4] and syn_eq(x[5], y[5]) and syn_eq(x[6], x[1]) and syn_eq(x[5], 0):
        return x[4] == y[4]
    if x[0] == 'i' and y[0] == 'i' and x[4] is y[4] and x[1:4] == y[1:4] and syn_eq(x[5], y[5]):
        return True
    if x[0] == 'i' and y[0] == 'c' or x[0] == 'c' and y[0] == 'i':
        i, c = (x, y) if x[0] == 'i' else (y, x)
        if syn_eq(i[5], 0) and isinstance(i[6], int) and i[6] == i[1]:
            return i[4] == int.from_bytes(c[1], i[2], signed=i[3])
    # undetermined content
    return core.fresh_bool('bytes_eq')


def pack_int(n, order, signed, v):
    if not isinstance(v, Sym):
        return int(v).to_bytes(n, order, signed=signed)
    lo = -(1 << (8 * n - 1)) if signed else 0
    hi = (1 << (8 * n - 1)) if signed else (1 << (8 * n))
    if not And(v >= lo, v < hi):
        raise struct.error('argument out of range')
    return SBytes([('i', n, order, signed, v, 0, n)])


def pack_byte(x):
    """an element of bytes([...])"""
    if not isinstance(x, Sym):
        return bytes([x])
    if not And(x >= 0, x < 256):
        raise ValueError('bytes must be in range(0, 256)')
    return SBytes([('i', 1, 'little', False, x, 0, 1)])


def unpack_int(b, n, order, signed):
    if isinstance(b, bytes):
        return int.from_bytes(b, order, signed=signed)
    if len(b.parts) == 1:
        p = b.parts[0]
        if p[0] == 'i' and p[1] == n and p[2] == order and p[3] == signed and syn_eq(p[5], 0) and syn_eq(p[6], n):
            return p[4]
        if p[0] == 'b':
            f = z3.Function(f'blob_int{n}{order}{signed}', BLOB.z, z3.IntSort(), z3.IntSort())
            v = mkint(f(p[1], iterm(p[2])))
            lo = -(1 << (8 * n - 1)) if signed else 0
            hi = (1 << (8 * n - 1)) if signed else (1 << (8 * n))
            E().assume(And(v >= lo, v < hi))
            return v
    v = core.fresh_int('unp')
    lo = -(1 << (8 * n - 1)) if signed else 0
    hi = (1 << (8 * n - 1)) if signed else (1 << (8 * n))
    E().assume(And(v >= lo, v < hi))
    return v


_FMT = {'B': (1, False), 'b': (1, True), 'H': (2, False), 'h': (2, True), 'I': (4, False), 'i': (4, True), 'L': (4, False), 'l': (4, True),
        'Q': (8, False), 'q': (8, True)}


def parse_fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order = 'little'
    if fmt and fmt[0] in '<>!=@':
        order = {'<': 'little', '>': 'big', '!': 'big', '=': 'little', '@': 'little'}[fmt[0]]
        if fmt[0] == '@' and len(fmt) > 2:
            raise Unsupported('native struct alignment')
        fmt = fmt[1:]
    out = []
    num = ''
    for ch in fmt:
        if ch.isdigit():
            num += ch
            continue
        if ch not in _FMT:
            raise Unsupported(f'struct format {ch}')
        out += [_FMT[ch]] * (int(num) if num else 1)
        num = ''
    return order, out


def m_pack(fmt, *vs):
    if not any(isinstance(v, Sym) for v in vs):
        return struct.pack(fmt, *vs)
    order, items = parse_fmt(fmt)
    if len(items) != len(vs):
        raise struct.error('pack expected a different number of items')
    acc = SBytes([])
    for (n, sg), v in zip(items, vs):
        acc = acc + pack_int(n, order, sg, v)
    return fin(acc)


def m_unpack_from(fmt, buf, offset=0):
    if not isinstance(buf, SBytes) and not isinstance(offset, Sym):
        return struct.unpack_from(fmt, buf, offset)
    buf = buf if isinstance(buf, SBytes) else SBytes.lit(buf)
    order, items = parse_fmt(fmt)
    tot = sum(n for n, _ in items)
    n = buf.vf_len()
    if offset < 0:
        offset = offset + n
        if offset < 0:
            raise struct.error('offset out of range')
    if offset + tot > n:
        raise struct.error('unpack_from requires a larger buffer')
    out = []
    off = offset
    for m, sg in items:
        out.append(unpack_int(fin(buf.slice(off, off + m)), m, order, sg))
        off = off + m
    return tuple(out)


def m_unpack(fmt, buf):
    if not isinstance(buf, SBytes):
        return struct.unpack(fmt, buf)
    order, items = parse_fmt(fmt)
    tot = sum(n for n, _ in items)
    if not (buf.vf_len() == tot):
        raise struct.error(f'unpack requires a buffer of {tot} bytes')
    return m_unpack_from(fmt, buf, 0)


def m_from_bytes(b, byteorder='big', *, signed=False):
    if not isinstance(b, SBytes):
        return int.from_bytes(b, byteorder, signed=signed)
    n = core.concrete_int(b.vf_len())
    if n is None:
        raise Unsupported('int.from_bytes of symbolic length')
    return unpack_int(b, n, byteorder, signed)


class Joined(Sym):
    """b''.join of a symbolic number of byte strings"""
    __slots__ = ('seq',)
    t = property(lambda s: (_ for _ in ()).throw(Unsupported('term of joined bytes')))
    __hash__ = Sym.__hash__

    def __init__(self, seq): self.seq = seq
    def vf_isinstance(self, t): return t in (bytes, object)
    def vf_type(self): return bytes
    def vf_len(self): raise Unsupported('length of joined bytes')


def join_seq(sep, seq):
    """sep.join(seq): every element must be bytes-like"""
    from . import containers as C
    seq = C.materialize(seq)
    fl = C.flatten_concrete(seq) if getattr(seq, '_vf_seq', False) else list(seq)
    if fl is None:
        if sep != b'':
            raise Unsupported('join with a separator over a symbolic number of byte strings')
        return Joined(seq)
    acc = SBytes([])
    for i, x in enumerate(fl):
        if i and sep:
            acc = acc + sep
        acc = acc + x
    return fin(acc)


def C_plain(x):
    from .models import plain
    return plain(x)


def install():
    from .models import MODELS
    MODELS[struct.pack] = m_pack
    MODELS[struct.unpack] = m_unpack
    MODELS[struct.unpack_from] = m_unpack_from
    MODELS[int.from_bytes] = m_from_bytes
    MODELS[memoryview] = lambda b: b if isinstance(b, SBytes) else memoryview(b)


def _to_bytes(self, length=1, byteorder='big', *, signed=False):
    return pack_int(length, byteorder, signed, self)


SInt.to_bytes = _to_bytes
install()
