from pyvc_api import contract
import array
from ccnpy.core.Tlv import Tlv
from ccnpy.core.HashValue import HashValue
from ccnpy.core.KeyId import KeyId
from ccnpy.core.Name import Name, NameComponent
from ccnpy.core.Payload import Payload
from ccnpy.core.PayloadType import PayloadType
from ccnpy.core.SignatureTime import SignatureTime
from ccnpy.core.ContentObject import ContentObject
from ccnpy.core.FixedHeader import FixedHeader
from ccnpy.core.Packet import Packet
from ccnpy.core.PacketValidator import PacketValidator
from ccnpy.core.ValidationAlg import ValidationAlg_Crc32c, ValidationAlg_RsaSha256
from ccnpy.core.ValidationPayload import ValidationPayload
from ccnpy.crypto.RsaKey import RsaKey
from ccnpy.crypto.RsaSha256 import RsaSha256Signer, RsaSha256Verifier
from ccnpy.crypto.Crc32c import Crc32cSigner, Crc32cVerifier
from ccnpy.crypto.InsecureKeystore import InsecureKeystore, KeyIdNotFoundError
from ccnpy.crypto.AeadKey import AeadGcm, AeadCcm
from ccnpy.flic.ManifestFactory import ManifestFactory
from ccnpy.flic.ManifestTreeOptions import ManifestTreeOptions
from ccnpy.flic.name_constructor.SchemaType import SchemaType
from ccnpy.flic.aeadctx.AeadEncryptor import AeadEncryptor
from ccnpy.flic.aeadctx.AeadParameters import AeadParameters
from ccnpy.flic.tlvs.Pointers import Pointers
from ccnpy.flic.tlvs.HashGroup import HashGroup
from ccnpy.flic.tlvs.Node import Node
from ccnpy.flic.tlvs.KeyNumber import KeyNumber

def be32(n): return bytes([n // 2 ** 24, n // 65536 % 256, n // 256 % 256, n % 256])
def body(v, tag=''):
    name = v.choice('name' + tag, [None, Name([NameComponent.create_name_segment(v.bytes('seg' + tag, 0, 50))])])
    return ContentObject(name=name, payload_type=PayloadType(0), payload=Payload(v.array('payload' + tag, 0, 9000)))
def plain(v, tag=''): return ContentObject(payload_type=PayloadType(0), payload=Payload(v.array('payload' + tag, 0, 9000)))
def rsa_alg(v, kid=None, tag=''):
    return ValidationAlg_RsaSha256(kid if kid is not None else HashValue.create_sha256(v.array('kid' + tag, 32, 32)), signature_time=SignatureTime(v.msec(v.int('time' + tag, 0, 2 ** 47))))
def sig(v, tag=''):
    k = v.choice('signature' + tag, ['none', 'crc32c', 'rsa'])
    if k == 'none': return None, None
    return (ValidationAlg_Crc32c() if k == 'crc32c' else rsa_alg(v, None, tag)), ValidationPayload(v.array('sig' + tag, 0, 600))
def packet(b, alg, pay): return Packet.create_content_object(b) if alg is None else Packet.create_signed_content_object(b, alg, pay)
def key(v, which, public=False):
    priv, pub = v.rsa_key('key', which)
    return RsaKey(pub if public else priv)

@contract('C07', 'hash_covers_everything_after_the_header', ['Packet._compute_hash', 'Packet.content_object_hash', 'HashValue.create_sha256'])
def hash_covers(v):
    b = body(v)
    alg, pay = sig(v)
    p = packet(b, alg, pay)
    rest = v.cat(b.serialize(), *([] if alg is None else [alg.serialize(), pay.serialize()]))
    q = Packet.deserialize(p.serialize())
    r = Packet(FixedHeader(1, 1, len(rest) + 8, v.array('fields', 3, 3), 8), b, alg, pay)
    for x, label in ((p, 'built'), (q, 'parsed'), (r, 'with other header fields')):
        h = x.content_object_hash()
        v.ensure('hash algorithm (' + label + ')', h.hash_algorithm() == 1)
        v.ensure('hash is SHA-256 of what follows the header (' + label + ')', v.same_bytes(h.value(), v.sha256(rest)))
    v.ensure('same hash', v.all(p.content_object_hash() == q.content_object_hash(), p.content_object_hash() == r.content_object_hash()))

@contract('C07', 'hash_identifies_the_packet', ['Packet.content_object_hash', 'HashValue.__eq__'])
def hash_identifies(v):
    b1, b2 = body(v, '1'), body(v, '2')
    (a1, p1), (a2, p2) = sig(v, '1'), sig(v, '2')
    x, y = packet(b1, a1, p1), packet(b2, a2, p2)
    same = v.same_bytes(x.serialize()[8:len(x)], y.serialize()[8:len(y)])
    v.ensure('equal hashes exactly when the bytes after the header are equal', v.all((x.content_object_hash() == y.content_object_hash()) == same))

@contract('C07', 'crc32c_sign', ['Crc32cSigner.sign', 'Crc32cSigner.validation_alg'])
def crc_sign(v):
    n = v.few('buffers', 0, 3, 12)
    bs = [v.array('b', 0, 3000) for i in range(n)]
    s = Crc32cSigner().sign(*bs)
    v.ensure('payload is the CRC-32C of the buffers in order', v.same_bytes(s.payload(), be32(v.crc32c(v.cat(*bs)) if n > 0 else 0)))
    v.ensure('crc32c algorithm', isinstance(Crc32cSigner().validation_alg(), ValidationAlg_Crc32c))

@contract('C07', 'crc32c_verify', ['Crc32cVerifier.verify'])
def crc_verify(v):
    n = v.few('buffers', 1, 3, 12)
    bs = [v.array('b', 0, 3000) for i in range(n)]
    pay = v.array('payload', 0, 8)
    good = v.same_bytes(pay, be32(v.crc32c(v.cat(*bs))))
    v.ensure('accepted exactly when the payload is the CRC-32C', (Crc32cVerifier().verify(*bs, validation_payload=ValidationPayload(pay)) == True) == good)
    v.ensure('own signature accepted', Crc32cVerifier().verify(*bs, validation_payload=Crc32cSigner().sign(*bs)) == True)
    v.raises('missing payload', ValueError, lambda: Crc32cVerifier().verify(*bs, validation_payload=None))

@contract('C07', 'rsa_sign_verify', ['RsaSha256Signer.sign', 'RsaSha256Verifier.verify', 'RsaKey.sign', 'RsaKey.verify'])
def rsa_sv(v):
    signing, checking = v.choice('signing key', ['k0', 'k1']), v.choice('checking key', ['k0', 'k1'])
    n, m = v.few('signed buffers', 1, 2, 6), v.few('checked buffers', 1, 2, 6)
    bs = [v.array('b', 0, 600) for i in range(n)]
    cs = [v.array('c', 0, 600) for i in range(m)]
    s = RsaSha256Signer(key(v, signing)).sign(*bs)
    ver = RsaSha256Verifier(key(v, checking, v.bool('public')))
    v.ensure('own buffers accepted exactly under the signing key', (ver.verify(*bs, validation_payload=s) == True) == (signing == checking))
    v.ensure('as one buffer', (ver.verify(array.array('B', v.cat(*bs)), validation_payload=s) == True) == (signing == checking))
    same = v.all(v.same_bytes(v.cat(*bs), v.cat(*cs)), signing == checking)
    v.ensure('other buffers accepted exactly when their bytes are the signed ones', (ver.verify(*cs, validation_payload=s) == True) == same)
    bad = ValidationPayload(array.array('B', v.unique_byte_change('changed', s.payload())))
    v.ensure('a changed signature is refused', not ver.verify(*bs, validation_payload=bad))
    short = ValidationPayload(s.payload()[0:v.int('keep', 0, 255)])
    v.ensure('a shortened signature is refused', not ver.verify(*bs, validation_payload=short))
    v.raises('missing payload', ValueError, lambda: ver.verify(*bs, validation_payload=None))

@contract('C07', 'key_ids', ['RsaKey.keyid', 'RsaSha256Signer.keyid', 'RsaSha256Signer.validation_alg'])
def key_ids(v):
    k, pub, other = key(v, 'k0'), key(v, 'k0', True), key(v, 'k1')
    v.ensure('key id is SHA-256 of the DER public key', v.all(k.keyid().hash_algorithm() == 1, v.same_bytes(k.keyid().value(), v.sha256(k.public_key_der()))))
    v.ensure('the public half has the same id', k.keyid() == pub.keyid())
    v.ensure('another key has another id', v.neg(k.keyid() == other.keyid()))
    v.raises('a public key cannot sign', (RuntimeError, ValueError), lambda: RsaSha256Signer(pub))
    ms = v.int('time', 0, 2 ** 47)
    t = SignatureTime(v.msec(ms)) if v.bool('as SignatureTime') else v.datetime(v.msec(ms))
    alg = RsaSha256Signer(k).validation_alg(signature_time=t)
    v.ensure('algorithm carries the key id and the time', v.all(alg.keyid() == k.keyid(), alg.signature_time().milliseconds() == ms))

def store(v):
    ks = InsecureKeystore()
    pub = v.bool('k0 public')
    ks.add_rsa_key('k0', key(v, 'k0', pub))
    ks.add_rsa_key('k1', key(v, 'k1', not pub))
    return ks

@contract('C07', 'validator_crc32c', ['PacketValidator.validate_packet'])
def validator_crc(v):
    b = body(v)
    pay = ValidationPayload(v.array('payload', 0, 8) if v.bool('arbitrary payload') else Crc32cSigner().sign(body(v, ' signed').serialize(), ValidationAlg_Crc32c().serialize()).payload())
    p = Packet.create_signed_content_object(b, ValidationAlg_Crc32c(), pay)
    if v.bool('off the wire'): p = Packet.deserialize(p.serialize())
    val = PacketValidator(InsecureKeystore() if v.bool('keystore') else None)
    good = v.same_bytes(pay.payload(), be32(v.crc32c(v.cat(b.serialize(), bytes([0, 3, 0, 4, 0, 2, 0, 0])))))
    _, err = v.outcome(lambda: val.validate_packet(p), (ValueError,))
    v.ensure('accepted exactly when the payload is the CRC of body and algorithm', (err is None) == good)

@contract('C07', 'validator_rsa', ['PacketValidator.validate_packet', 'InsecureKeystore.get_rsa'], weight=2)
def validator_rsa(v):
    """a packet made of a body, an algorithm and a signature that was made (by some key) over some body and algorithm"""
    ks = store(v)
    signing, named = v.choice('signing key', ['k0', 'k1']), v.choice('named key', ['k0', 'k1'])
    kid = key(v, named).keyid()
    b, alg = plain(v), rsa_alg(v, kid)
    k = v.choice('signed over', ['body and algorithm', 'another body', 'another algorithm', 'algorithm first', 'body only', 'with header'])
    sb, sa = b, alg
    if k == 'another body': sb = plain(v, ' signed')
    if k == 'another algorithm': sa = rsa_alg(v, kid, ' signed')
    bufs = [sb.serialize(), sa.serialize()]
    if k == 'algorithm first': bufs = [sa.serialize(), sb.serialize()]
    if k == 'body only': bufs = [sb.serialize()]
    if k == 'with header': bufs = [FixedHeader.create_content_object(v.int('plen', 8, 65535)).serialize(), sb.serialize(), sa.serialize()]
    s = RsaSha256Signer(key(v, signing)).sign(*bufs)
    if v.bool('signature byte changed'): s = ValidationPayload(array.array('B', v.unique_byte_change('changed', s.payload()))); fine = False
    else: fine = v.all(signing == named, v.same_bytes(v.cat(*bufs), v.cat(b.serialize(), alg.serialize())))
    p = Packet.create_signed_content_object(b, alg, s)
    if v.bool('off the wire'): p = Packet.deserialize(p.serialize())
    _, err = v.outcome(lambda: PacketValidator(ks).validate_packet(p), (ValueError,))
    v.ensure('accepted exactly when the signature is of this body and algorithm by the named key', (err is None) == fine)

@contract('C07', 'validator_unknown_key', ['PacketValidator.validate_packet'])
def validator_unknown(v):
    ks = InsecureKeystore().add_rsa_key('k1', key(v, 'k1'))
    b, k = body(v), key(v, 'k0')
    alg = rsa_alg(v, k.keyid())
    p = Packet.create_signed_content_object(b, alg, RsaSha256Signer(k).sign(b.serialize(), alg.serialize()))
    v.raises('a key the keystore does not have', (KeyIdNotFoundError, ValueError), lambda: PacketValidator(ks).validate_packet(p))
    ks.add_rsa_key('k0', key(v, 'k0', True))
    v.ensure('accepted once the key is known', PacketValidator(ks).validate_packet(p) is None)
    v.ensure('unsigned packet passes', PacketValidator(ks).validate_packet(Packet.create_content_object(b)) is None)

@contract('C07', 'factory_signs', ['ManifestFactory.build_packet', 'ManifestFactory._build', 'ManifestFactory._build_from_pointers', 'ManifestFactory._build_node_from_hashgroups', 'ManifestFactory._encrypt'], weight=3)
def factory_signs(v):
    ptrs = Pointers([HashValue.create_sha256(v.array('h', 32, 32)) for i in range(v.few('pointers', 1, 2, 30))])
    k = v.choice('source', ['pointers', 'hash group', 'hash groups', 'node'])
    src = {'pointers': lambda: ptrs, 'hash group': lambda: HashGroup(pointers=ptrs), 'hash groups': lambda: [HashGroup(pointers=ptrs)], 'node': lambda: Node(hash_groups=[HashGroup(pointers=ptrs)])}[k]()
    enc = None
    if v.bool('encrypted'):
        enc = AeadEncryptor(AeadParameters(key=AeadGcm(v.bytes('key', 16, 16)), key_number=KeyNumber(v.int('key number', 0, 2 ** 16)), aead_salt=v.int('salt', 0, 2 ** 32 - 1)))
    name = v.choice('name', [None, Name([NameComponent.create_name_segment(v.bytes('seg', 0, 50))])])
    f = ManifestFactory(ManifestTreeOptions(name=name, schema_type=SchemaType.HASHED, signer=None, manifest_encryptor=enc))
    which = v.choice('signer', ['none', 'crc32c', 'k0', 'k1'])
    signer = None if which == 'none' else Crc32cSigner() if which == 'crc32c' else RsaSha256Signer(key(v, which))
    p = f.build_packet(src, name=name, signer=signer)
    if which == 'none':
        v.ensure('no signer, no validation parts', v.all(p.validation_alg() is None, p.validation_payload() is None))
        return
    v.ensure('validation parts present', v.all(p.validation_alg() is not None, p.validation_payload() is not None))
    wire = v.cat(p.body().serialize(), p.validation_alg().serialize())
    if which == 'crc32c':
        v.ensure('crc32c algorithm', isinstance(p.validation_alg(), ValidationAlg_Crc32c))
        v.ensure('payload is the CRC of body and algorithm', v.same_bytes(p.validation_payload().payload(), be32(v.crc32c(wire))))
    else:
        v.ensure('the signer\'s key id', p.validation_alg().keyid() == signer.keyid())
        v.ensure('payload is the signature of body and algorithm', RsaSha256Verifier(key(v, which, True)).verify(array.array('B', wire), validation_payload=p.validation_payload()) == True)
    ks = store(v)
    for x in (p, Packet.deserialize(p.serialize())):
        _, err = v.outcome(lambda: PacketValidator(ks).validate_packet(x), (Exception,))
        v.ensure('the packet validates', err is None)

@contract('C07', 'any_byte_change_is_caught', ['PacketValidator.validate_packet', 'Packet.deserialize', 'Crc32cVerifier.verify', 'RsaSha256Verifier.verify'], sym=False,
          bounded='native only: random packets, one changed byte anywhere after the header')
def byte_change(v):
    b = body(v)
    if v.bool('rsa'):
        k = key(v, v.choice('key', ['k0', 'k1']))
        alg = rsa_alg(v, k.keyid())
        pay = RsaSha256Signer(k).sign(b.serialize(), alg.serialize())
    else:
        alg = ValidationAlg_Crc32c()
        pay = Crc32cSigner().sign(b.serialize(), alg.serialize())
    p = Packet.create_signed_content_object(b, alg, pay)
    ks = InsecureKeystore().add_rsa_key('k0', key(v, 'k0')).add_rsa_key('k1', key(v, 'k1', True))
    PacketValidator(ks).validate_packet(Packet.deserialize(p.serialize()))
    rest = v.unique_byte_change('changed', p.serialize()[8:])
    w = array.array('B', v.cat(p.serialize()[0:8], rest))
    try:
        q = Packet.deserialize(w)
        if q.validation_alg() is None: return      # the change turned the signed packet into an unsigned one
        v.ensure('another hash', v.neg(q.content_object_hash() == p.content_object_hash()))
        PacketValidator(ks).validate_packet(q)
    except (ValueError, RuntimeError, AssertionError, TypeError, KeyError): return
    v.ensure('a changed packet is refused', q.serialize() == p.serialize())

@contract('C07', 'rsa_pss', ['RsaKey.sign', 'RsaKey.verify'], sym=False, bounded='native only: PSS signatures are randomised')
def rsa_pss(v):
    signing, checking = v.choice('signing key', ['k0', 'k1']), v.choice('checking key', ['k0', 'k1'])
    bs = [v.bytes('b', 0, 600) for i in range(v.few('n', 1, 2, 8))]
    s = key(v, signing).sign(*bs, use_pss_padding=True)
    c = key(v, checking, v.bool('public'))
    v.ensure('accepted exactly under the signing key', c.verify(*bs, signature=s, use_pss_padding=True) == (signing == checking))
    v.ensure('not a PKCS signature', not c.verify(*bs, signature=s))
    v.ensure('other bytes refused', not c.verify(*bs, b'x', signature=s, use_pss_padding=True))

from specs import roots
roots.register(contract, 'C07')
