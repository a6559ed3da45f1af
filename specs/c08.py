from pyvc_api import contract
import array
from ccnpy.core.Tlv import Tlv
from ccnpy.core.HashValue import HashValue
from ccnpy.crypto.AeadKey import AeadGcm, AeadCcm
from ccnpy.crypto.DecryptionError import DecryptionError
from ccnpy.crypto.InsecureKeystore import InsecureKeystore
from ccnpy.crypto.RsaKey import RsaKey
from ccnpy.flic.aeadctx.AeadData import AeadData
from ccnpy.flic.aeadctx.AeadEncryptor import AeadEncryptor
from ccnpy.flic.aeadctx.AeadDecryptor import AeadDecryptor
from ccnpy.flic.aeadctx.AeadImpl import AeadImpl
from ccnpy.flic.aeadctx.AeadParameters import AeadParameters
from ccnpy.flic.RsaOaepCtx.RsaOaepEncryptor import RsaOaepEncryptor
from ccnpy.flic.RsaOaepCtx.RsaOaepDecryptor import RsaOaepDecryptor
from ccnpy.flic.RsaOaepCtx.RsaOaepImpl import RsaOaepImpl
from ccnpy.flic.ManifestFactory import ManifestFactory
from ccnpy.flic.ManifestTreeOptions import ManifestTreeOptions
from ccnpy.flic.name_constructor.SchemaType import SchemaType
from ccnpy.flic.tlvs.AeadCtx import AeadCtx
from ccnpy.flic.tlvs.AeadMode import AeadMode
from ccnpy.flic.tlvs.RsaOaepCtx import RsaOaepCtx
from ccnpy.flic.tlvs.AuthTag import AuthTag
from ccnpy.flic.tlvs.EncryptedNode import EncryptedNode
from ccnpy.flic.tlvs.HashGroup import HashGroup
from ccnpy.flic.tlvs.KeyNumber import KeyNumber
from ccnpy.flic.tlvs.Manifest import Manifest
from ccnpy.flic.tlvs.Node import Node
from ccnpy.flic.tlvs.NodeData import NodeData
from ccnpy.flic.tlvs.Nonce import Nonce
from ccnpy.flic.tlvs.Pointers import Pointers
from ccnpy.flic.tlvs.SubtreeSize import SubtreeSize

M64 = 2 ** 64 - 1
MODES = {('gcm', 16): 1, ('gcm', 32): 2, ('ccm', 16): 3, ('ccm', 32): 4}
CLS = {'gcm': AeadGcm, 'ccm': AeadCcm}
def node(v, tag=''):
    data = NodeData(subtree_size=SubtreeSize(v.int('subtree' + tag, 0, M64))) if v.bool('node data?' + tag) else None
    n = v.few('pointers' + tag, 1, 2, 20)
    return Node(node_data=data, hash_groups=[HashGroup(pointers=Pointers([HashValue.create_sha256(v.array('h' + tag, 32, 32)) for i in range(n)]))])
def simple_node(v): return Node(hash_groups=[HashGroup(pointers=Pointers([HashValue.create_sha256(v.array('h', 32, 32))]))])
def params(v, fixed=None):
    mode, size = fixed if fixed is not None else v.choice('mode', sorted(MODES))
    salt = v.int('salt', 0, 2 ** 32 - 1) if v.bool('salt?') else None
    kn = v.int('key number', 0, M64)
    return AeadParameters(key=CLS[mode](v.bytes('key', size, size)), key_number=KeyNumber(kn) if v.bool('as KeyNumber') else kn, aead_salt=salt), mode, size, salt, kn
def be4(n): return bytes([n // 2 ** 24, n // 65536 % 256, n // 256 % 256, n % 256])
def changed(v, label, b): return array.array('B', v.unique_byte_change(label, b))

@contract('C08', 'cipher', ['AeadKey.encrypt', 'AeadKey.decrypt', 'AeadGcm', 'AeadCcm'])
def cipher(v):
    mode, size = v.choice('mode', sorted(MODES))
    kb = v.bytes('key', size, size)
    k = CLS[mode](kb)
    v.ensure('key length in bits', len(k) == 8 * size)
    v.ensure('key bytes', v.same_bytes(k.key(), kb))
    v.ensure('mode name', k.aead_mode() == mode.upper())
    iv, pt, ad = v.array('iv', 12, 12), v.array('plain', 0, 9000), v.array('associated', 0, 600)
    pt, ad = (pt, ad) if v.bool('arrays') else (pt.tobytes(), ad.tobytes())
    ct, tag = k.encrypt(iv, pt, ad)
    v.ensure('sizes', v.all(len(ct) == len(pt), len(tag) == 16))
    v.ensure('decrypts to the plaintext', v.same_bytes(CLS[mode](kb).decrypt(iv, ct, ad, tag), pt))
    what = v.choice('tampering', ['ciphertext', 'tag', 'associated', 'iv', 'key', 'mode', 'short tag', 'short ciphertext'])
    iv2, ct2, ad2, tag2, k2 = iv, ct, ad, tag, k
    if what == 'ciphertext':
        v.assume(len(ct) > 0)
        ct2 = changed(v, 'ct', ct)
    if what == 'tag': tag2 = changed(v, 'tag', tag)
    if what == 'associated':
        ad2 = v.array('associated 2', 0, 600)
        v.assume(v.neg(v.same_bytes(ad, ad2)))
    if what == 'iv': iv2 = changed(v, 'iv', iv)
    if what == 'key': k2 = CLS[mode](v.unique_byte_change('key', kb))
    if what == 'mode': k2 = CLS['ccm' if mode == 'gcm' else 'gcm'](kb)
    if what == 'short tag': tag2 = tag[0:v.int('keep', 12, 15)]
    if what == 'short ciphertext':
        v.assume(len(ct) > 0)
        ct2 = ct[0:len(ct) - 1]
    v.raises('tampering is refused: ' + what, DecryptionError, lambda: k2.decrypt(iv2, ct2, ad2, tag2))

@contract('C08', 'generated_keys', ['AeadGcm.generate', 'AeadCcm.generate', 'AeadKey.nonce'])
def generated(v):
    mode, bits, n = v.choice('mode', ['gcm', 'ccm']), v.choice('bits', [128, 256]), v.choice('nonce bits', [64, 96])
    k = CLS[mode].generate(bits)
    v.ensure('length', v.all(len(k) == bits, len(k.key()) * 8 == bits))
    v.ensure('mode', AeadMode.from_key(k).serialize() == AeadMode(MODES[(mode, bits // 8)]).serialize())
    v.ensure('nonce size', len(k.nonce(n)) * 8 == n)

@contract('C08', 'node_round_trip', ['AeadImpl.encrypt', 'AeadImpl.encrypt_with_security_ctx', 'AeadImpl.decrypt_node', 'AeadImpl._create_aead_data', 'AeadImpl._iv_from_nonce', 'AeadImpl._generate_nonce', 'AeadParameters.__post_init__'], weight=2)
def node_rt(v):
    p, mode, size, salt, kn = params(v)
    x = node(v)
    before = v.cat(x.serialize())
    ctx, enc, tag = AeadEncryptor(p).encrypt(x)
    v.ensure('context kind', isinstance(ctx, AeadCtx))
    v.ensure('key number is carried', ctx.key_number().value() == kn)
    v.ensure('mode is carried', ctx.aead_data().mode().value() == MODES[(mode, size)])
    iv = v.cat(be4(salt) if salt is not None else b'', ctx.nonce().value())
    v.ensure('salt and nonce make 96 bits', len(iv) == 12)
    pt = p.key.decrypt(iv, enc.value(), ctx.serialize(), tag.value())
    v.ensure('encrypted under salt || nonce, authenticating the whole context', v.same_bytes(pt, x.serialized_value()))
    v.ensure('ciphertext and tag sizes', v.all(len(enc.value()) == len(x.serialized_value()), len(tag.value()) == 16))
    y = AeadDecryptor(AeadParameters(key=CLS[mode](p.key.key()), key_number=kn, aead_salt=salt)).decrypt_node(ctx, enc, tag)
    v.ensure('the node comes back', v.all(v.same_bytes(y.serialize(), before), y == x))
    v.ensure('the node given is untouched', v.same_bytes(x.serialize(), before))

@contract('C08', 'manifest_round_trip', ['AeadImpl.create_encrypted_manifest', 'AeadImpl.decrypt_manifest', 'Manifest.deserialize', 'Manifest.is_encrypted'], weight=2)
def manifest_rt(v):
    p, mode, size, salt, kn = params(v)
    x = node(v)
    m = AeadImpl(p).create_encrypted_manifest(x)
    v.ensure('encrypted', m.is_encrypted() == True)
    w = v.cat(m.serialize())
    if v.bool('off the wire'): m = Manifest.deserialize(array.array('B', w))
    d = AeadDecryptor(p).decrypt_manifest(m)
    v.ensure('decrypted manifest is the plain one', v.same_bytes(d.serialize(), Manifest(node=x).serialize()))
    v.ensure('not encrypted', d.is_encrypted() == False)
    v.ensure('node', d.node() == x)
    v.ensure('encrypted manifest untouched', v.same_bytes(m.serialize(), w))

@contract('C08', 'tampering', ['AeadImpl.decrypt_node', 'AeadImpl.decrypt_manifest'], weight=2)
def tampering(v):
    p, mode, size, salt, kn = params(v, v.choice('mode', sorted(MODES)))
    m = AeadImpl(p).create_encrypted_manifest(simple_node(v))
    ctx, enc, tag = m.security_ctx(), m.node(), m.auth_tag()
    what = v.choice('tampering', ['ciphertext', 'tag', 'nonce', 'mode size', 'mode kind', 'key number', 'key', 'salt', 'context kind'])
    p2 = p
    a = ctx.aead_data()
    if what == 'ciphertext': enc = EncryptedNode(changed(v, 'ct', enc.value()))
    if what == 'tag': tag = AuthTag(changed(v, 'tag', tag.value()))
    if what == 'nonce': ctx = AeadCtx(AeadData(kn, changed(v, 'nonce', ctx.nonce().value()), a.mode()))
    if what == 'mode size': ctx = AeadCtx(AeadData(kn, a.nonce(), AeadMode(MODES[(mode, 48 - size)])))
    if what == 'mode kind': ctx = AeadCtx(AeadData(kn, a.nonce(), AeadMode(MODES[('ccm' if mode == 'gcm' else 'gcm', size)])))
    if what == 'key number':
        kn2 = v.int('other key number', 0, M64)
        v.assume(kn2 != kn)
        ctx = AeadCtx(AeadData(kn2, a.nonce(), a.mode()))
        p2 = AeadParameters(key=p.key, key_number=kn2, aead_salt=salt)
    if what == 'key': p2 = AeadParameters(key=CLS[mode](v.unique_byte_change('key', p.key.key())), key_number=kn, aead_salt=salt)
    if what == 'salt':
        s2 = v.int('other salt', 0, 2 ** 32 - 1) if v.bool('other salt?') else None
        if s2 is None: v.assume(salt is not None)
        elif salt is not None: v.assume(s2 != salt)
        p2 = AeadParameters(key=p.key, key_number=kn, aead_salt=s2)
        if mode == 'ccm' and (salt is None or s2 is None): return
    if what == 'context kind':
        k = RsaOaepCtx(aead_data=a)
        v.raises('another context kind', (DecryptionError, TypeError, ValueError), lambda: AeadDecryptor(p).decrypt_manifest(Manifest(security_ctx=k, node=enc, auth_tag=tag)))
        ctx = k
    v.raises('node: tampering is refused: ' + what, DecryptionError, lambda: AeadDecryptor(p2).decrypt_node(ctx, enc, tag))
    if what != 'context kind':
        v.raises('manifest: tampering is refused: ' + what, DecryptionError, lambda: AeadDecryptor(p2).decrypt_manifest(Manifest(security_ctx=ctx, node=enc, auth_tag=tag)))

@contract('C08', 'decrypt_preconditions', ['AeadImpl.decrypt_node', 'AeadImpl.decrypt_manifest', 'AeadImpl.encrypt'])
def preconditions(v):
    p, mode, size, salt, kn = params(v)
    d = AeadDecryptor(p)
    x = simple_node(v)
    m = AeadImpl(p).create_encrypted_manifest(x)
    kn2 = v.int('other key number', 0, M64)
    v.assume(kn2 != kn)
    other = AeadDecryptor(AeadParameters(key=p.key, key_number=kn2, aead_salt=salt))
    v.raises('another key number is refused', (ValueError, DecryptionError), lambda: other.decrypt_manifest(m))
    v.raises('no context', (ValueError, TypeError), lambda: d.decrypt_node(None, m.node(), m.auth_tag()))
    v.raises('no tag', (ValueError, TypeError), lambda: d.decrypt_node(m.security_ctx(), m.node(), None))
    v.raises('not encrypted', TypeError, lambda: d.decrypt_manifest(Manifest(node=x)))
    v.raises('not a manifest', TypeError, lambda: d.decrypt_manifest(x))
    v.raises('only nodes are encrypted', TypeError, lambda: AeadEncryptor(p).encrypt(m))

@contract('C08', 'wrapped_key_round_trip', ['RsaOaepImpl.encrypt', 'RsaOaepImpl.decrypt_node', 'RsaOaepImpl.decrypt_manifest', 'RsaOaepImpl.create_encrypted_manifest'], weight=2)
def wrapped_rt(v):
    p, mode, size, salt, kn = params(v)
    x = node(v)
    m = RsaOaepImpl(wrapper=None, aead_params=p).create_encrypted_manifest(x)
    ctx, enc, tag = m.security_ctx(), m.node(), m.auth_tag()
    v.ensure('context kind', isinstance(ctx, RsaOaepCtx))
    v.ensure('key number and mode are carried', v.all(ctx.key_number().value() == kn, ctx.aead_data().mode().value() == MODES[(mode, size)]))
    iv = v.cat(be4(salt) if salt is not None else b'', ctx.nonce().value())
    v.ensure('salt and nonce make 96 bits', len(iv) == 12)
    v.ensure('encrypted under salt || nonce, authenticating the whole context', v.same_bytes(p.key.decrypt(iv, enc.value(), ctx.serialize(), tag.value()), x.serialized_value()))
    if v.bool('off the wire'): m = Manifest.deserialize(m.serialize())
    d = RsaOaepImpl(wrapper=None, aead_params=AeadParameters(key=CLS[mode](p.key.key()), key_number=kn, aead_salt=salt)).decrypt_manifest(m)
    v.ensure('the node comes back', v.all(d.node() == x, v.same_bytes(d.serialize(), Manifest(node=x).serialize())))

@contract('C08', 'wrapped_key_tampering', ['RsaOaepImpl.decrypt_node', 'RsaOaepImpl.decrypt_manifest'], weight=2)
def wrapped_tampering(v):
    p, mode, size, salt, kn = params(v)
    m = RsaOaepImpl(wrapper=None, aead_params=p).create_encrypted_manifest(simple_node(v))
    ctx, enc, tag = m.security_ctx(), m.node(), m.auth_tag()
    a = ctx.aead_data()
    what = v.choice('tampering', ['ciphertext', 'tag', 'nonce', 'mode size', 'mode kind', 'key', 'context kind'])
    p2 = p
    if what == 'ciphertext': enc = EncryptedNode(changed(v, 'ct', enc.value()))
    if what == 'tag': tag = AuthTag(changed(v, 'tag', tag.value()))
    if what == 'nonce': ctx = RsaOaepCtx(AeadData(kn, changed(v, 'nonce', a.nonce().value()), a.mode()))
    if what == 'mode size': ctx = RsaOaepCtx(AeadData(kn, a.nonce(), AeadMode(MODES[(mode, 48 - size)])))
    if what == 'mode kind': ctx = RsaOaepCtx(AeadData(kn, a.nonce(), AeadMode(MODES[('ccm' if mode == 'gcm' else 'gcm', size)])))
    if what == 'key': p2 = AeadParameters(key=CLS[mode](v.unique_byte_change('key', p.key.key())), key_number=kn, aead_salt=salt)
    if what == 'context kind': ctx = AeadCtx(a)
    d = RsaOaepImpl(wrapper=None, aead_params=p2)
    v.raises('node: tampering is refused: ' + what, DecryptionError, lambda: d.decrypt_node(ctx, enc, tag))
    v.raises('manifest: tampering is refused: ' + what, (DecryptionError, TypeError) if what == 'context kind' else DecryptionError, lambda: d.decrypt_manifest(Manifest(security_ctx=ctx, node=enc, auth_tag=tag)))
    kn2 = v.int('other key number', 0, M64)
    v.assume(kn2 != kn)
    other = RsaOaepImpl(wrapper=None, aead_params=AeadParameters(key=p.key, key_number=kn2, aead_salt=salt))
    v.raises('another key number is refused', (ValueError, DecryptionError), lambda: other.decrypt_manifest(m))

@contract('C08', 'factory_encrypts', ['ManifestFactory._build_from_node', 'ManifestFactory._encrypt', 'ManifestFactory.build_packet'], weight=2)
def factory_encrypts(v):
    x = node(v)
    enc = v.bool('encrypted')
    p = params(v, ('gcm', 16))[0] if enc else None
    o = ManifestTreeOptions(name=None, schema_type=SchemaType.HASHED, signer=None, manifest_encryptor=AeadEncryptor(p) if enc else None)
    pkt = ManifestFactory(o).build_packet(x)
    m = Manifest.from_content_object(pkt.body())
    v.ensure('encrypted exactly when an encryptor is set', m.is_encrypted() == enc)
    if enc: v.ensure('decrypts to the node', AeadDecryptor(p).decrypt_manifest(m).node() == x)
    else:
        v.ensure('unencrypted node passes through unchanged', v.all(m.node() == x, v.same_bytes(m.node().serialize(), x.serialize())))
        v.ensure('no context and no tag', v.all(m.security_ctx() is None, m.auth_tag() is None))

@contract('C08', 'wire_byte_change', ['Manifest.deserialize', 'AeadImpl.decrypt_manifest', 'RsaOaepImpl.decrypt_manifest'], sym=False, bounded='native only: random manifests, one changed byte anywhere')
def wire_change(v):
    p, mode, size, salt, kn = params(v)
    x = node(v)
    wrapped = v.bool('wrapped')
    m = (RsaOaepImpl(wrapper=None, aead_params=p) if wrapped else AeadImpl(p)).create_encrypted_manifest(x)
    d = RsaOaepImpl(wrapper=None, aead_params=p) if wrapped else AeadDecryptor(p)
    w = array.array('B', v.unique_byte_change('changed', m.serialize()))
    try: n = d.decrypt_manifest(Manifest.deserialize(w))
    except Exception: return
    v.ensure('a changed manifest never decrypts to a node', False)
