from pyvc_api import contract
import array
from ccnpy.core.Tlv import Tlv
from ccnpy.core.HashValue import HashValue, HashFunctionType
from ccnpy.core.KeyId import KeyId
from ccnpy.crypto.AeadKey import AeadGcm, AeadCcm
from ccnpy.crypto.DecryptionError import DecryptionError
from ccnpy.crypto.InsecureKeystore import InsecureKeystore, KeyIdNotFoundError, KeyNumberNotFoundError
from ccnpy.crypto.RsaKey import RsaKey
from ccnpy.flic.aeadctx.AeadData import AeadData
from ccnpy.flic.aeadctx.AeadParameters import AeadParameters
from ccnpy.flic.RsaOaepCtx.HashAlg import HashAlg
from ccnpy.flic.RsaOaepCtx.RsaOaepDecryptor import RsaOaepDecryptor
from ccnpy.flic.RsaOaepCtx.RsaOaepEncryptor import RsaOaepEncryptor
from ccnpy.flic.RsaOaepCtx.RsaOaepImpl import RsaOaepImpl
from ccnpy.flic.RsaOaepCtx.RsaOaepWrapper import RsaOaepWrapper
from ccnpy.flic.RsaOaepCtx.WrappedKey import WrappedKey
from ccnpy.flic.tlvs.AeadMode import AeadMode
from ccnpy.flic.tlvs.HashGroup import HashGroup
from ccnpy.flic.tlvs.KdfAlg import KdfAlg
from ccnpy.flic.tlvs.KdfData import KdfData
from ccnpy.flic.tlvs.KdfInfo import KdfInfo
from ccnpy.flic.tlvs.KeyNumber import KeyNumber
from ccnpy.flic.tlvs.Manifest import Manifest
from ccnpy.flic.tlvs.Node import Node
from ccnpy.flic.tlvs.Nonce import Nonce
from ccnpy.flic.tlvs.Pointers import Pointers
from ccnpy.flic.tlvs.RsaOaepCtx import RsaOaepCtx

M64 = 2 ** 64 - 1
MODES = {('gcm', 16): 1, ('gcm', 32): 2, ('ccm', 16): 3, ('ccm', 32): 4}
CLS = {'gcm': AeadGcm, 'ccm': AeadCcm}
def be4(n): return bytes([n // 2 ** 24, n // 65536 % 256, n // 256 % 256, n % 256])
def kdf(v): return KdfData(KdfAlg(v.int('kdf alg', 0, 65535)), KdfInfo(v.array('kdf info', 0, 40))) if v.bool('kdf?') else None
def params(v, with_kdf=False):
    mode, size = v.choice('mode', sorted(MODES))
    salt, kn = v.int('salt', 0, 2 ** 32 - 1), v.int('key number', 0, M64)
    return AeadParameters(key=CLS[mode](v.bytes('key', size, size)), key_number=kn, aead_salt=salt, kdf_data=kdf(v) if with_kdf else None), mode, size, salt, kn
def rsa(v, which, public=False):
    priv, pub = v.rsa_key('rsa', which)
    return RsaKey(pub if public else priv)
def data(p, mode, size, nonce, kn=None): return AeadData(p.key_number if kn is None else kn, nonce, AeadMode(MODES[(mode, size)]), p.kdf_data)
def node(v, tag=''): return Node(hash_groups=[HashGroup(pointers=Pointers([HashValue.create_sha256(v.array('h' + tag, 32, 32))]))])

@contract('C09', 'oaep', ['RsaKey.encrypt_oaep_sha256', 'RsaKey.decrypt_oaep_sha256'])
def oaep(v):
    pt, label = v.array('plain', 0, 190), v.bytes('label', 0, 200) if v.bool('label?') else None
    if v.bool('bytes'): pt = pt.tobytes()
    ct = rsa(v, 'k0', v.bool('public')).encrypt_oaep_sha256(pt, label)
    v.ensure('one RSA block', len(ct) == 256)
    v.ensure('round trip', v.same_bytes(rsa(v, 'k0').decrypt_oaep_sha256(ct, label), pt))
    v.raises('another key', ValueError, lambda: rsa(v, 'k1').decrypt_oaep_sha256(ct, label))
    l2 = v.bytes('other label', 0, 200)
    v.assume(v.neg(v.same_bytes(label if label is not None else b'', l2)))
    v.raises('another label', ValueError, lambda: rsa(v, 'k0').decrypt_oaep_sha256(ct, l2))
    bad = array.array('B', v.unique_byte_change('changed', ct))
    v.raises('a changed message', ValueError, lambda: rsa(v, 'k0').decrypt_oaep_sha256(bad, label))

@contract('C09', 'oaep_too_long', ['RsaKey.encrypt_oaep_sha256'])
def oaep_long(v):
    v.raises('a plaintext the RSA key cannot carry', ValueError, lambda: rsa(v, 'k0').encrypt_oaep_sha256(v.array('plain', 191, 3000), None))

@contract('C09', 'wrap_unwrap', ['WrappedKey.create', 'WrappedKey.decrypt', 'WrappedKey._create_label'], weight=2)
def wrap(v):
    p, mode, size, salt, kn = params(v, True)
    w = WrappedKey.create(rsa(v, 'k0', v.bool('public')), p)
    if v.bool('off the wire'): w = WrappedKey.parse(Tlv.deserialize(w.serialize()))
    d = data(p, mode, size, v.array('nonce', 0, 20))
    if v.bool('context off the wire'): d = AeadData.parse(d.serialize())
    s, k = w.decrypt(rsa(v, 'k0'), d)
    v.ensure('salt', s == salt)
    v.ensure('key', v.same_bytes(k, p.key.key()))

@contract('C09', 'bound_to_context', ['WrappedKey.decrypt', 'WrappedKey._create_label'], weight=2)
def bound(v):
    p, mode, size, salt, kn = params(v, True)
    w = WrappedKey.create(rsa(v, 'k0'), p)
    what = v.choice('changed', ['key number', 'mode size', 'mode kind', 'rsa key', 'kdf info', 'no kdf info', 'message'])
    d, k = data(p, mode, size, v.array('nonce', 8, 8)), rsa(v, 'k0')
    if what == 'key number':
        kn2 = v.int('other key number', 0, M64)
        v.assume(kn2 != kn)
        d = AeadData(kn2, d.nonce(), d.mode(), p.kdf_data)
    if what == 'mode size': d = AeadData(kn, d.nonce(), AeadMode(MODES[(mode, 48 - size)]), p.kdf_data)
    if what == 'mode kind': d = AeadData(kn, d.nonce(), AeadMode(MODES[('ccm' if mode == 'gcm' else 'gcm', size)]), p.kdf_data)
    if what == 'rsa key': k = rsa(v, 'k1')
    if what == 'kdf info':
        info = v.array('other kdf info', 0, 40)
        if p.kdf_data is not None: v.assume(v.neg(v.same_bytes(info, p.kdf_data.kdf_info().value())))
        d = AeadData(kn, d.nonce(), d.mode(), KdfData(KdfAlg(1), KdfInfo(info)))
    if what == 'no kdf info':
        v.assume(p.kdf_data is not None)
        d = AeadData(kn, d.nonce(), d.mode(), None)
    if what == 'message': w = WrappedKey(array.array('B', v.unique_byte_change('msg', w.value())))
    v.raises('unwrapping fails: ' + what, ValueError, lambda: w.decrypt(k, d))

@contract('C09', 'bound_to_key_id', ['WrappedKey._create_label', 'WrappedKey.decrypt'])
def bound_key_id(v):
    """the message is bound to the label made of the key number, mode, KDF info, key id and hash algorithm"""
    p, mode, size, salt, kn = params(v)
    k = rsa(v, 'k0')
    if v.bool('another label'):
        kid = KeyId(HashValue(v.int('kid alg', 0, 65535), v.array('kid', 0, 64)))
        v.assume(v.neg(v.same_bytes(kid.serialize(), KeyId(k.keyid()).serialize())))
    else: kid = KeyId(k.keyid())
    label = v.cat(b'FLIC RSA-OAEP', KeyNumber(kn).serialize(), AeadMode(MODES[(mode, size)]).serialize(), kid.serialize(), HashAlg(HashFunctionType.T_SHA_256).serialize())
    ct = k.encrypt_oaep_sha256(array.array('B', v.cat(be4(salt), p.key.key())), label)
    w = WrappedKey(ct)
    d = data(p, mode, size, v.array('nonce', 8, 8))
    r, err = v.outcome(lambda: w.decrypt(k, d), (ValueError,))
    if kid == KeyId(k.keyid()):
        v.ensure('unwraps', err is None)
        v.ensure('salt and key', v.all(r[0] == salt, v.same_bytes(r[1], p.key.key())))
    else: v.ensure('another key id is refused', err is not None)

@contract('C09', 'short_plaintext', ['WrappedKey.decrypt'])
def short(v):
    p, mode, size, salt, kn = params(v)
    k = rsa(v, 'k0')
    label = v.cat(b'FLIC RSA-OAEP', p.key_number.serialize(), AeadMode.from_key(p.key).serialize(), KeyId(k.keyid()).serialize(), HashAlg(HashFunctionType.T_SHA_256).serialize())
    w = WrappedKey(k.encrypt_oaep_sha256(v.array('plain', 0, 19), label))
    v.raises('a wrapped message too short for a salt and a key', ValueError, lambda: w.decrypt(k, data(p, mode, size, v.array('nonce', 8, 8))))

@contract('C09', 'bad_salt', ['WrappedKey.create'])
def bad_salt(v):
    v.raises('a salt that does not fit 4 bytes', (ValueError, OverflowError), lambda: WrappedKey.create(rsa(v, 'k0'), AeadParameters(key=AeadGcm(v.bytes('key', 16, 16)), key_number=1, aead_salt=v.int('salt', 2 ** 32, 2 ** 70))))

def keystore(v, names=('k0', 'k1')):
    ks = InsecureKeystore()
    for n in names: ks.add_rsa_key(n, rsa(v, n))
    return ks

@contract('C09', 'encryptor', ['RsaOaepEncryptor.__init__', 'RsaOaepEncryptor.encrypt', 'RsaOaepImpl.encrypt', 'RsaOaepWrapper.create_sha256'])
def encryptor(v):
    p, mode, size, salt, kn = params(v, True)
    e = RsaOaepEncryptor(rsa(v, 'k0', v.bool('public')), p)
    x = node(v)
    wrap = v.choice('include wrapper', ['yes', 'no', 'default'])
    ctx, enc, tag = e.encrypt(x) if wrap == 'default' else e.encrypt(x, include_wrapper=wrap == 'yes')
    v.ensure('key number and mode', v.all(ctx.key_number().value() == kn, ctx.aead_data().mode().value() == MODES[(mode, size)]))
    v.ensure('only the context that was asked to carries the wrapped key', (ctx.rsa_oaep_wrapper() is not None) == (wrap == 'yes'))
    if wrap == 'yes':
        v.ensure('key id of the wrapping key', v.all(ctx.key_id() == KeyId(rsa(v, 'k0').keyid()), ctx.rsa_oaep_wrapper().key_id() == KeyId(rsa(v, 'k0').keyid())))
        s, k = ctx.rsa_oaep_wrapper().wrapped_key().decrypt(rsa(v, 'k0'), ctx.aead_data())
        v.ensure('wrapped salt and key', v.all(s == salt, v.same_bytes(k, p.key.key())))

@contract('C09', 'root_then_children', ['RsaOaepDecryptor.decrypt_manifest', 'RsaOaepDecryptor._get_impl', 'RsaOaepImpl.create', 'RsaOaepImpl._create_by_wrapped_key', 'RsaOaepImpl._create_by_key_number', 'RsaOaepImpl._create_aead_key'], weight=3)
def root_children(v):
    p, mode, size, salt, kn = params(v)
    e = RsaOaepEncryptor(rsa(v, 'k0', v.bool('public')), p)
    x, y = node(v), node(v, ' child')
    def m(n, w):
        ctx, enc, tag = e.encrypt(n, include_wrapper=w)
        r = Manifest(security_ctx=ctx, node=enc, auth_tag=tag)
        return Manifest.deserialize(r.serialize()) if v.bool('off the wire') else r
    root, child = m(x, True), m(y, False)
    ks = keystore(v)
    d = RsaOaepDecryptor(ks)
    if v.bool('child first'):
        v.raises('a child alone cannot be decrypted', (ValueError, KeyIdNotFoundError, KeyNumberNotFoundError), lambda: d.decrypt_manifest(child))
    v.ensure('root decrypts', d.decrypt_manifest(root).node() == x)
    learnt = ks.get_aes_key(KeyNumber(kn))
    v.ensure('the content key is learnt under its key number', v.all(v.same_bytes(learnt.key.key(), p.key.key()), learnt.key_number.value() == kn, learnt.aead_salt == salt))
    v.ensure('the mode is learnt', learnt.key.aead_mode() == mode.upper())
    v.ensure('child decrypts', d.decrypt_manifest(child).node() == y)
    v.ensure('another decryptor of the same keystore too', RsaOaepDecryptor(ks).decrypt_node(child.security_ctx(), child.node(), child.auth_tag()) == y)
    v.ensure('root decrypts again', d.decrypt_manifest(root).node() == x)

@contract('C09', 'missing_keys', ['RsaOaepImpl._create_by_wrapped_key', 'RsaOaepDecryptor.decrypt_manifest'])
def missing(v):
    p, mode, size, salt, kn = params(v)
    e = RsaOaepEncryptor(rsa(v, 'k0'), p)
    ctx, enc, tag = e.encrypt(node(v), include_wrapper=True)
    m = Manifest(security_ctx=ctx, node=enc, auth_tag=tag)
    what = v.choice('keystore', ['empty', 'another key', 'public key only'])
    ks = InsecureKeystore()
    if what == 'another key': ks.add_rsa_key('k1', rsa(v, 'k1'))
    if what == 'public key only': ks.add_rsa_key('k0', rsa(v, 'k0', True))
    v.raises('without the private key', (KeyIdNotFoundError, ValueError), lambda: RsaOaepDecryptor(ks).decrypt_manifest(m))
    v.raises('nothing was learnt', KeyNumberNotFoundError, lambda: ks.get_aes_key(KeyNumber(kn)))

@contract('C09', 'two_roots', ['RsaOaepDecryptor._get_impl', 'RsaOaepDecryptor.ImplCache'], weight=2)
def two_roots(v):
    """two content keys under different key numbers do not mix"""
    p1, m1, s1, salt1, n1 = params(v)
    n2 = v.int('second key number', 0, M64)
    v.assume(n2 != n1)
    p2 = AeadParameters(key=AeadGcm(v.bytes('second key', 16, 16)), key_number=n2, aead_salt=v.int('second salt', 0, 2 ** 32 - 1))
    which = v.choice('second wrapping key', ['k0', 'k1'])
    x, y = node(v), node(v, ' second')
    def m(e, n, w):
        ctx, enc, tag = e.encrypt(n, include_wrapper=w)
        return Manifest(security_ctx=ctx, node=enc, auth_tag=tag)
    e1, e2 = RsaOaepEncryptor(rsa(v, 'k0'), p1), RsaOaepEncryptor(rsa(v, which), p2)
    d = RsaOaepDecryptor(keystore(v))
    a, b = m(e1, x, True), m(e2, y, True)
    v.ensure('first root', d.decrypt_manifest(a).node() == x)
    v.ensure('second root', d.decrypt_manifest(b).node() == y)
    v.ensure('first child', d.decrypt_manifest(m(e1, x, False)).node() == x)
    v.ensure('second child', d.decrypt_manifest(m(e2, y, False)).node() == y)

@contract('C09', 'new_content_key', ['RsaOaepEncryptor.create_with_new_content_key'])
def new_key(v):
    e = RsaOaepEncryptor.create_with_new_content_key(rsa(v, 'k0', v.bool('public')), None)
    x = node(v)
    ctx, enc, tag = e.encrypt(x, include_wrapper=True)
    v.ensure('256-bit GCM', ctx.aead_data().mode().is_aes_gcm_256())
    d = RsaOaepDecryptor(keystore(v)).decrypt_manifest(Manifest(security_ctx=ctx, node=enc, auth_tag=tag))
    v.ensure('the node comes back', d.node() == x)
