"""C21  Encryption, key exchange and attestation wrappers compose correctly."""
import base64
import os
import z3
from pyvc.worker import H
from pyvc import core, containers as C, models as M
from pyvc.core import Sort
from pyvc.sbytes import SBytes, BLOB, BLEN

INSTRUMENT = ['mplang.backends.crypto_impl', 'mplang.backends.tee_impl', 'mplang.runtime.value']
ASSUMPTIONS = ['AES-GCM is an ideal authenticated cipher: it opens exactly the (key, nonce, ciphertext, associated data) it produced, to the text that went in',
               'two draws of os.urandom never coincide',
               'X25519 agrees: exchange(a, pub(b)) = exchange(b, pub(a)); HKDF is a function of hash, length, salt, info and input',
               'a value survives serde.dumps/loads (property C03)',
               'public keys bound into a quote have 32 bytes (every key that kem_keygen makes); suite and platform names take at most 255 bytes']
TRUSTED = ['cryptography (AESGCM, X25519, HKDF)', 'os.urandom', 'warnings']

import pyvc.nospu  # noqa
import warnings
import mplang.edsl.serde as serde
import mplang.backends.crypto_impl as CI
import mplang.backends.tee_impl as TI
import cryptography.hazmat.primitives.asymmetric.x25519 as X
import cryptography.hazmat.primitives.kdf.hkdf as HK
from cryptography.exceptions import InvalidTag
from cryptography.hazmat.primitives import hashes, serialization

PLAIN = Sort('Plain')


def one(b):
    """the term of a byte string that is a whole blob"""
    if isinstance(b, bytes):
        t = z3.Const('bytes.' + b.hex(), BLOB.z)
        return t
    p = b.parts
    if len(p) == 1 and p[0][0] == 'b' and isinstance(p[0][2], int) and p[0][2] == 0:
        return p[0][1]
    if len(p) == 1 and p[0][0] == 'b':
        return z3.Function('blob_slice', BLOB.z, z3.IntSort(), z3.IntSort(), BLOB.z)(p[0][1], core.iterm(p[0][2]), core.iterm(p[0][3]))
    raise core.Unsupported('bytes put together of several pieces')


def blob(t, n):
    core.ENG.assume(BLEN(t) == core.iterm(n))
    return SBytes([('b', t, 0, n)])


def fresh(base, n):
    return blob(z3.Const(core.ENG.fresh(base), BLOB.z), n)


class Ideal:
    """the primitives under the wrappers, with their contracts"""

    def __init__(self, env):
        self.env = env
        self.log, self.draws, self.used = [], [], []
        self.texts = []
        ideal = self

        class AEAD:
            _vf_ok = True

            def __init__(self, key):
                n = key.vf_len() if isinstance(key, SBytes) else len(key)
                if not core.Or(n == 16, n == 24, n == 32):
                    raise ValueError('AESGCM key must be 128, 192, or 256 bits.')
                self.key = key

            def encrypt(self, nonce, data, associated_data):
                n = data.vf_len() if isinstance(data, SBytes) else len(data)
                ct = fresh('ct', n + 16)
                ideal.log.append((self.key, nonce, ct, data, associated_data))
                return ct

            def decrypt(self, nonce, data, associated_data):
                for k, n, c, p, a in ideal.log:
                    if a == associated_data and core.And(core.sym_eq(k, self.key), core.sym_eq(n, nonce), core.sym_eq(c, data)):
                        return p
                raise InvalidTag()
        env.patch(CI, 'AESGCM', AEAD)
        M.STUBS[os.urandom] = self.urandom
        M.STUBS[serde.dumps] = self.dumps
        M.STUBS[serde.loads] = self.loads
        M.STUBS[warnings.warn] = lambda *a, **k: None
        DH = z3.Function('dh', BLOB.z, BLOB.z, BLOB.z)
        PUB = z3.Function('pub', BLOB.z, BLOB.z)
        secrets = []

        class Public:
            _vf_ok = True

            def __init__(self, b): self.b = b

            @classmethod
            def from_public_bytes(cls, b):
                if not core.sym_eq(b.vf_len(), 32):
                    raise ValueError('An X25519 public key is 32 bytes long')
                return cls(b)

            def public_bytes(self, encoding, format):
                env.prove('raw public bytes', (encoding, format) == (serialization.Encoding.Raw, serialization.PublicFormat.Raw))
                return self.b

        class Private:
            _vf_ok = True

            def __init__(self, b): self.b = b

            @classmethod
            def generate(cls):
                b = fresh('sk', 32)
                for s in secrets:
                    core.ENG.assume(DH(one(s), PUB(one(b))) == DH(one(b), PUB(one(s))))
                secrets.append(b)
                return cls(b)

            @classmethod
            def from_private_bytes(cls, b):
                if not core.sym_eq(b.vf_len(), 32):
                    raise ValueError('An X25519 private key is 32 bytes long')
                return cls(b)

            def public_key(self): return Public(blob(PUB(one(self.b)), 32))

            def private_bytes(self, encoding, format, encryption_algorithm):
                env.prove('raw private bytes', (encoding, format) == (serialization.Encoding.Raw, serialization.PrivateFormat.Raw) and isinstance(encryption_algorithm, serialization.NoEncryption))
                return self.b

            def exchange(self, peer): return blob(DH(one(self.b), one(peer.b)), 32)
        env.patch(X, 'X25519PrivateKey', Private)
        env.patch(X, 'X25519PublicKey', Public)
        KDF = z3.Function('hkdf', z3.StringSort(), z3.IntSort(), z3.BoolSort(), BLOB.z, BLOB.z, BLOB.z)

        class HKDF:
            _vf_ok = True

            def __init__(self, algorithm, length, salt, info):
                self.of = (z3.StringVal(algorithm.name), core.iterm(length), z3.BoolVal(salt is None), one(info))
                self.length = length
                if salt is not None:
                    raise core.Unsupported('a salt')

            def derive(self, key_material): return blob(KDF(*self.of, one(key_material)), self.length)
        env.patch(HK, 'HKDF', HKDF)

    def urandom(self, n):
        b = fresh('rnd', n)
        for o in self.draws:
            core.ENG.assume(core.Not(core.sym_eq(o, b)))
        self.draws.append(b)
        return b

    def dumps(self, v):
        for w, b in self.texts:
            if w is v:
                return b
        b = fresh('text', core.fresh_int('text_len'))
        core.ENG.assume(BLEN(one(b)) >= 0)
        self.texts.append((v, b))
        return b

    def loads(self, b):
        for v, t in self.texts:
            if t is b or core.sym_eq(t, b):
                return v
        raise ValueError('not a serialized value')


class Tensor(CI.TensorValue):
    """a tensor of which only the content is known"""
    _vf_ok = True

    def __init__(self, b): self.b = b
    def unwrap(self): return self.b


class Op:
    _vf_ok = True

    def __init__(self, **attrs): self.attrs = attrs


OP = Op(algo='aes-gcm')


def key(env, n):
    b = env.bytes(n)
    env.assume(env.or_(*[env.eq(b.vf_len(), m) for m in (16, 24, 32)]))
    return env.choice(n + '_as', [lambda: CI.SymmetricKeyValue(suite='x', key_bytes=b), lambda: CI.BytesValue(b), lambda: Tensor(b)])(), b


def h_encrypt(env):
    """Opening with the same key returns the value encrypted; the nonce is a new draw and travels with the ciphertext; anything else is refused."""
    ideal = Ideal(env)
    k, kb = key(env, 'key')
    v = env.opaque('v', PLAIN)
    r = env.run(CI.sym_encrypt_impl, None, OP, k, v)
    env.prove('encrypts', r[0] == 'ok', r)
    ct = r[1]
    env.prove('a byte value', type(ct) is CI.BytesValue)
    env.prove('one encryption, with that key', len(ideal.log) == 1 and env.eq(ideal.log[0][0], kb))
    nonce, body, pt = ideal.log[0][1:4]
    env.prove('of that value', any(pt is b and w is v for w, b in ideal.texts))
    env.prove('the nonce is a new draw', any(nonce is d for d in ideal.draws) and env.eq(nonce.vf_len(), 12))
    how = env.choice('then', ['open', 'altered', 'other key', 'again'])
    if how == 'open':
        k2 = env.choice('opened_as', [lambda: CI.SymmetricKeyValue(suite='y', key_bytes=kb), lambda: CI.BytesValue(kb), lambda: Tensor(kb)])()
        r = env.run(CI.sym_decrypt_impl, None, OP, k2, ct)
        env.prove('the same value', r[0] == 'ok' and r[1] is v, r)
    elif how == 'altered':
        other = env.bytes('other')
        env.assume(env.not_(env.eq(other, ct.unwrap())))
        r = env.run(CI.sym_decrypt_impl, None, OP, k, CI.BytesValue(other))
        env.prove('an altered ciphertext is refused', r[0] == 'exc', r)
    elif how == 'other key':
        k2, kb2 = key(env, 'key2')
        env.assume(env.not_(env.eq(kb, kb2)))
        r = env.run(CI.sym_decrypt_impl, None, OP, k2, ct)
        env.prove('another key is refused', r[0] == 'exc', r)
    else:
        r = env.run(CI.sym_encrypt_impl, None, OP, k, v)
        env.prove('encrypts again', r[0] == 'ok' and len(ideal.log) == 2, r)
        env.prove('with another draw', ideal.log[1][1] is not nonce and any(ideal.log[1][1] is d for d in ideal.draws))
        env.prove('never the same nonce', env.not_(env.eq(ideal.log[1][1], nonce)))
        d = env.run(CI.sym_decrypt_impl, None, OP, k, r[1])
        env.prove('and it opens too', d[0] == 'ok' and d[1] is v, d)
        d = env.run(CI.sym_decrypt_impl, None, OP, k, ct)
        env.prove('as does the first', d[0] == 'ok' and d[1] is v, d)
    env.cover(how)


def h_algo(env):
    """An unknown algorithm is refused on both sides, as is a key or a ciphertext of another kind."""
    Ideal(env)
    k, _ = key(env, 'key')
    algo = env.str('algo')
    env.assume(env.not_(env.eq(algo, 'aes-gcm')))
    f, x = env.choice('side', [(CI.sym_encrypt_impl, 1), (CI.sym_decrypt_impl, CI.BytesValue(b'x' * 40))])
    env.prove('unknown algorithm', env.run(f, None, Op(algo=algo), k, x)[0] == 'exc')
    env.prove('a key of another kind', env.run(f, None, OP, 7, x)[0] == 'exc')
    env.prove('a ciphertext of another kind', env.run(CI.sym_decrypt_impl, None, OP, k, 7)[0] == 'exc')


def h_exchange(env):
    """Both ends of a key exchange, through the raw keys or through quotes, derive the same key; what one end encrypts the other opens."""
    ideal = Ideal(env)
    sa, pa = CI.kem_keygen_impl(None, Op(suite='x25519'))
    sb, pb = CI.kem_keygen_impl(None, Op(suite='x25519'))
    if env.choice('attested', [False, True]):
        q = TI._quote_gen_impl(None, Op(platform='mock'), pb)
        if env.choice('as_bytes', [False, True]):
            q = CI.BytesValue(q.to_bytes())
        pb = TI._attest_impl(None, Op(platform='mock'), q)
    ka, kb = env.run(CI.kem_derive_impl, None, Op(), sa, pb), env.run(CI.kem_derive_impl, None, Op(), sb, pa)
    env.prove('derived', ka[0] == kb[0] == 'ok', (ka, kb))
    ka, kb = ka[1], kb[1]
    env.prove('the same key', env.eq(ka.key_bytes, kb.key_bytes))
    env.prove('the same suite', env.eq(ka.suite, kb.suite))
    info = env.str('info')
    env.assume(env.not_(env.eq(info, '')))
    op = Op(info=info, hash_algo=env.choice('hash', ['sha256', 'SHA-256']))
    xa, xb = env.run(CI.hkdf_impl, None, op, ka), env.run(CI.hkdf_impl, None, op, kb)
    env.prove('session keys', xa[0] == xb[0] == 'ok', (xa, xb))
    env.prove('the same session key', env.eq(xa[1].key_bytes, xb[1].key_bytes))
    env.prove('of 32 bytes', env.eq(xa[1].key_bytes.vf_len(), 32))
    v = env.opaque('v', PLAIN)
    ct = CI.sym_encrypt_impl(None, OP, xa[1], v)
    r = env.run(CI.sym_decrypt_impl, None, OP, xb[1], ct)
    env.prove('the other end opens it', r[0] == 'ok' and r[1] is v, r)
    env.cover('end')


def h_hkdf(env):
    """Key derivation depends on all of its input: an empty context and an unknown hash are refused; the context and the secret go in unchanged."""
    Ideal(env)
    b = env.bytes('secret')
    s = env.choice('as', [lambda: CI.SymmetricKeyValue(suite='x', key_bytes=b), lambda: Tensor(b)])()
    env.prove('an empty context is refused', env.run(CI.hkdf_impl, None, Op(info='', hash_algo='sha256'), s)[0] == 'exc')
    env.prove('an unknown hash is refused', env.run(CI.hkdf_impl, None, Op(info='i', hash_algo='sha512'), s)[0] == 'exc')
    info = env.str('info')
    env.assume(env.not_(env.eq(info, '')))
    r = env.run(CI.hkdf_impl, None, Op(info=info, hash_algo='sha256'), s)
    env.prove('derives', r[0] == 'ok', r)
    want = HK.HKDF(algorithm=hashes.SHA256(), length=32, salt=None, info=M.call(info.encode, ('utf-8',), {})).derive(b)
    env.prove('from the secret and the context', env.eq(r[1].key_bytes, want))


def h_attest(env):
    """Attesting a quote yields exactly the key and the suite bound into it, directly or through its byte form."""
    Ideal(env)
    b = env.bytes('pk')
    env.assume(env.eq(b.vf_len(), 32))
    suite = env.str('suite')
    pk = CI.PublicKeyValue(suite=suite, key_bytes=b)
    q = env.run(TI._quote_gen_impl, None, Op(platform='mock'), pk)
    env.prove('a quote', q[0] == 'ok', q)
    q = q[1]
    if env.choice('as_bytes', [False, True]):
        r = env.run(q.to_bytes)
        if r[0] == 'exc':
            env.prove('only names that do not fit are refused', env.not_(M.call(suite.encode, ('utf-8',), {}).vf_len() <= 255), r)
            env.cover('name too long')
            return
        q = CI.BytesValue(r[1])
    a = env.run(TI._attest_impl, None, Op(platform='mock'), q)
    env.prove('attested', a[0] == 'ok', a)
    env.prove('a public key', type(a[1]) is CI.PublicKeyValue)
    env.prove('the key bound', env.eq(a[1].key_bytes, b))
    env.prove('the suite bound', env.eq(a[1].suite, suite))
    env.prove('nothing else is attested', env.run(TI._attest_impl, None, Op(platform='mock'), pk)[0] == 'exc')
    env.prove('nothing else is quoted', env.run(TI._quote_gen_impl, None, Op(platform='mock'), q)[0] == 'exc')
    env.cover('end')


def h_quote(env):
    """The byte form of a quote, with any platform and suite names, reads back as the same quote."""
    Ideal(env)
    b = env.bytes('pk')
    env.assume(env.eq(b.vf_len(), 32))
    p, s = env.str('platform'), env.str('suite')
    q = TI.MockQuoteValue(platform=p, bound_pk=b, suite=s)
    r = env.run(q.to_bytes)
    if r[0] == 'exc':
        env.prove('only names that do not fit are refused', env.not_(env.and_(M.call(p.encode, ('utf-8',), {}).vf_len() <= 255, M.call(s.encode, ('utf-8',), {}).vf_len() <= 255)), r)
        return
    a = env.run(TI.MockQuoteValue.from_bytes, r[1])
    env.prove('read', a[0] == 'ok', a)
    env.prove('the same', env.and_(env.eq(a[1].platform, p), env.eq(a[1].suite, s), env.eq(a[1].bound_pk, b)))
    env.cover('end')


# ---- the real primitives, through the operations
def h_real(env):
    """The operations on the real primitives: round trips, fresh nonces, every alteration refused, key exchange and attestation end to end."""
    import numpy as np
    import mplang.backends.tensor_impl  # noqa
    import mplang as mp
    import mplang.edsl as el
    from mplang.dialects import crypto, tee
    from mplang.backends.tensor_impl import TensorValue
    g = env.rng
    import hashlib
    import hmac

    def ev(f, **attrs):
        return lambda *a: f(None, Op(**attrs), *a)
    enc, dec = ev(CI.sym_encrypt_impl, algo='aes-gcm'), ev(CI.sym_decrypt_impl, algo='aes-gcm')
    mk = g.choice([lambda b: CI.SymmetricKeyValue(suite='x', key_bytes=b), CI.BytesValue, lambda b: TensorValue(np.frombuffer(b, dtype=np.uint8))])
    kb = bytes(g.randrange(256) for _ in range(g.choice([16, 24, 32])))
    k = mk(kb)
    v = g.choice([lambda: g.randrange(-2 ** 70, 2 ** 70), lambda: g.random(), lambda: TensorValue(np.array([g.randrange(100) for _ in range(g.randint(0, 6))], dtype=g.choice(['i8', 'u1', 'f4']))),
                  lambda: CI.BytesValue(bytes(g.randrange(256) for _ in range(g.randint(0, 40)))), lambda: CI.SymmetricKeyValue(suite='é', key_bytes=kb), lambda: True, lambda: 'text'])()
    same = lambda a, b: serde.dumps(a, compress=False) == serde.dumps(b, compress=False) and type(a) is type(b)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        c = enc(k, v)
        c2 = enc(k, v)
        env.prove('round trip', same(dec(k, c), v) and same(dec(CI.BytesValue(kb), c2), v), v)
        raw = c.unwrap()
        env.prove('nonces differ', raw[:12] != c2.unwrap()[:12])
        if g.random() < .01:
            many = [enc(k, 0).unwrap()[:12] for _ in range(1100)]
            env.prove('no nonce comes twice', len(set(many)) == len(many))
        how = g.choice(['flip', 'cut', 'add', 'front', 'mix', 'key'])
        if how == 'flip':
            i = g.randrange(len(raw))
            bad = raw[:i] + bytes([raw[i] ^ (1 << g.randrange(8))]) + raw[i + 1:]
        elif how == 'cut':
            bad = raw[:g.randrange(len(raw))]
        elif how == 'add':
            bad = raw + b'\0'
        elif how == 'front':
            bad = raw[1:]
        elif how == 'mix':
            bad = raw[:12] + c2.unwrap()[12:]
        else:
            bad = raw
            i = g.randrange(len(kb))
            k = mk(kb[:i] + bytes([kb[i] ^ (1 << g.randrange(8))]) + kb[i + 1:])
        env.prove('refused: ' + how, env.run(dec, k, CI.BytesValue(bad))[0] == 'exc', how)
        # key exchange through quotes
        sa, pa = ev(CI.kem_keygen_impl, suite='x25519')()
        sb, pb = ev(CI.kem_keygen_impl, suite='x25519')()
        back = lambda x: serde.loads(serde.dumps(x)) if g.random() < .5 else x
        quote = back(ev(TI._quote_gen_impl, platform='mock')(pb))
        quote = g.choice([lambda: quote, lambda: CI.BytesValue(quote.to_bytes()), lambda: np.frombuffer(quote.to_bytes(), dtype=np.uint8), lambda: bytearray(quote.to_bytes())])()
        at = back(ev(TI._attest_impl, platform='mock')(quote))
        env.prove('the key attested', at == pb, (at, pb))
        derive = ev(CI.kem_derive_impl)
        ka, k_b = derive(back(sa), at), derive(back(sb), back(pa))
        env.prove('the same key', ka == k_b)
        info = g.choice(['a', 'mplang/device/tee/v2', 'é'])
        hk = ev(CI.hkdf_impl, info=info, hash_algo='sha256')
        x, y = hk(ka), hk(k_b)
        prk = hmac.new(b'\0' * 32, ka.key_bytes, hashlib.sha256).digest()
        env.prove('HKDF-SHA256', x == y and x.key_bytes == hmac.new(prk, info.encode() + b'\1', hashlib.sha256).digest())
        env.prove('other contexts differ', ev(CI.hkdf_impl, info=info + 'x', hash_algo='sha256')(ka).key_bytes != x.key_bytes)
        env.prove('sessions agree', same(dec(back(y), back(enc(back(x), v))), v))


def h_program(env):
    """The same as a traced program on two parties."""
    import numpy as np
    import mplang.backends.tensor_impl  # noqa
    import mplang as mp
    import mplang.edsl.typing as T
    from mplang.dialects import crypto, tee, simp, tensor
    g = env.rng
    data = np.array([g.randrange(1000) for _ in range(g.randint(1, 5))], dtype=np.int64)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        sim = pyvc.nospu.cluster(2)

        def prog():
            x = simp.pcall_static((0,), lambda: tensor.constant(data))
            sa, pa = simp.pcall_static((0,), lambda: crypto.kem_keygen('x25519'))
            sb, pb = simp.pcall_static((1,), lambda: crypto.kem_keygen('x25519'))
            q = simp.pcall_static((1,), tee.quote_gen, pb)
            at = simp.pcall_static((0,), tee.attest, simp.shuffle_static(q, {0: 1}))
            ka = simp.pcall_static((0,), crypto.kem_derive, sa, at)
            kb = simp.pcall_static((1,), crypto.kem_derive, sb, simp.shuffle_static(pa, {1: 0}))
            ka, kb = (simp.pcall_static((r,), lambda k: crypto.hkdf(k, 'ctx'), k) for r, k in ((0, ka), (1, kb)))
            ct = simp.pcall_static((0,), crypto.sym_encrypt, ka, x)
            t = x.type.value_type
            return simp.pcall_static((1,), lambda k, c: crypto.sym_decrypt(k, c, t), kb, simp.shuffle_static(ct, {1: 0}))
        if g.random() < .5:
            out = mp.evaluate(mp.compile(prog, context=sim), context=sim)
        else:
            with sim:
                out = prog()
        r = mp.fetch(out, context=sim, follow_device=False)
        env.prove('the value arrives', np.array_equal(np.asarray(r[1] if isinstance(r, list) else r), data), (r, data))


def harnesses():
    return [
        H('encrypt', h_encrypt, conc=0, functions=['crypto_impl.sym_encrypt_impl', 'crypto_impl.sym_decrypt_impl'], what=h_encrypt.__doc__),
        H('algo', h_algo, conc=0, functions=['crypto_impl._validate_algo'], what=h_algo.__doc__),
        H('exchange', h_exchange, conc=0, functions=['crypto_impl.kem_keygen_impl', 'crypto_impl.kem_derive_impl', 'crypto_impl.hkdf_impl'], what=h_exchange.__doc__),
        H('hkdf', h_hkdf, conc=0, functions=['crypto_impl.hkdf_impl'], what=h_hkdf.__doc__),
        H('attest', h_attest, conc=0, functions=['tee_impl._quote_gen_impl', 'tee_impl._attest_impl'], what=h_attest.__doc__),
        H('quote', h_quote, conc=0, functions=['tee_impl.MockQuoteValue.to_bytes', 'tee_impl.MockQuoteValue.from_bytes'], what=h_quote.__doc__),
        H('real', h_real, sym=False, conc=1500, conc_s=10, functions=['crypto_impl', 'tee_impl'], what=h_real.__doc__),
        H('program', h_program, sym=False, conc=15, conc_s=10, functions=['dialects.crypto', 'dialects.tee'], what=h_program.__doc__)]
