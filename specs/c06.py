from pyvc_api import contract
import array, struct
from ccnpy.core.Tlv import Tlv
from ccnpy.core.HashValue import HashValue
from ccnpy.core.Name import Name, NameComponent
from ccnpy.core.Payload import Payload
from ccnpy.core.PayloadType import PayloadType
from ccnpy.core.FinalChunkId import FinalChunkId
from ccnpy.core.ExpiryTime import ExpiryTime
from ccnpy.core.SignatureTime import SignatureTime
from ccnpy.core.ContentObject import ContentObject
from ccnpy.core.FixedHeader import FixedHeader
from ccnpy.core.Packet import Packet
from ccnpy.core.ValidationAlg import ValidationAlg, ValidationAlg_Crc32c, ValidationAlg_RsaSha256
from ccnpy.core.ValidationPayload import ValidationPayload

def be16(n): return bytes([n // 256, n % 256])
def tlv(v, t, val): return v.cat(be16(t), be16(len(val)), val)

@contract('C06', 'header_wire', ['FixedHeader.serialize', 'FixedHeader.deserialize', 'FixedHeader.__init__'])
def header_wire(v):
    pt, pl, hl = v.int('ptype', 0, 255), v.int('plen', 8, 65535), v.int('hlen', 8, 255)
    f = v.array('fields', 3, 3)
    kind = v.choice('fields as', ['array', 'list', 'none'])
    x = FixedHeader(1, pt, pl, f if kind == 'array' else [f[0], f[1], f[2]] if kind == 'list' else None, hl)
    want = v.cat(bytes([1, pt]), be16(pl), f if kind != 'none' else bytes(3), bytes([hl]))
    v.ensure('wire', v.same_bytes(x.serialize(), want))
    y = FixedHeader.deserialize(x.serialize())
    for h in (x, y):
        v.ensure('version', h.version() == 1)
        v.ensure('packet length', h.packet_length() == pl)
        v.ensure('header length', h.header_length() == hl)
        v.ensure('kind', v.all(h.is_interest() == (pt == 0), h.is_content_object() == (pt == 1), h.is_interest_return() == (pt == 2)))
    v.ensure('same wire', v.same_bytes(y.serialize(), want))
    v.ensure('equal', x == y)
    rest = v.array('rest', 0, 100)
    whole = array.array('B', want)
    whole.extend(rest)
    v.ensure('bytes after the header are not looked at', FixedHeader.deserialize(whole) == x)

@contract('C06', 'header_defaults', ['FixedHeader.create_content_object', 'FixedHeader.create_interest'])
def header_defaults(v):
    n, hop = v.int('plen', 8, 65535), v.int('hop', 0, 255)
    c, i = FixedHeader.create_content_object(n), FixedHeader.create_interest(n, hop)
    v.ensure('content object wire', v.same_bytes(c.serialize(), v.cat(bytes([1, 1]), be16(n), bytes([0, 0, 0, 8]))))
    v.ensure('interest wire', v.same_bytes(i.serialize(), v.cat(bytes([1, 0]), be16(n), bytes([hop, 0, 0, 8]))))
    v.ensure('content object again', v.same_bytes(FixedHeader.create_content_object(n).serialize(), v.cat(bytes([1, 1]), be16(n), bytes([0, 0, 0, 8]))))
    v.ensure('default header', v.same_bytes(FixedHeader().serialize(), bytes([1, 0, 0, 8, 0, 0, 0, 8])))

@contract('C06', 'header_refused', ['FixedHeader.deserialize'])
def header_refused(v):
    b = v.array('b', 0, 40)
    if len(b) < 8:
        v.raises('short header refused', (RuntimeError, ValueError), lambda: FixedHeader.deserialize(b))
        return
    before = v.cat(b)
    bad = v.any(b[0] != 1, b[2] * 256 + b[3] < 8, b[7] < 8)
    h, err = v.outcome(lambda: FixedHeader.deserialize(b), (ValueError,))
    v.ensure('refused exactly when version, packet length or header length is bad', (err is not None) == bad)
    if err is None:
        v.ensure('fields are the header bytes', v.all(h.version() == 1, h.packet_length() == b[2] * 256 + b[3], h.header_length() == b[7]))
        v.ensure('header bytes come back', v.same_bytes(h.serialize(), b[0:8]))
    v.ensure('buffer untouched', v.same_bytes(b, before))

@contract('C06', 'bad_header_packet', ['Packet.deserialize'])
def bad_header_packet(v):
    b = v.array('b', 0, 9000)
    if len(b) >= 8: v.assume(v.any(b[0] != 1, b[2] * 256 + b[3] < 8, b[7] < 8))
    v.raises('a packet with a bad header is refused', (RuntimeError, ValueError), lambda: Packet.deserialize(b))

def body(v):
    name = Name([NameComponent.create_name_segment(v.bytes('seg', 0, 50)) for i in range(v.few('seg' + '.n', 0, 1, 6))]) if v.bool('name?') else None
    pt = PayloadType(v.int('pt', 0, 255)) if v.bool('payload?') else None
    pl = Payload(v.array('payload', 0, 9000)) if pt is not None else None
    fc = FinalChunkId(v.int('final', 0, 2 ** 32)) if v.bool('final?') else None
    return ContentObject(name=name, payload_type=pt, payload=pl, final_chunk_id=fc)

def sig(v):
    k = v.choice('signature', ['none', 'crc32c', 'rsa'])
    if k == 'none': return None, None
    if k == 'crc32c': return ValidationAlg_Crc32c(), ValidationPayload(v.array('crc', 0, 64))
    alg = ValidationAlg_RsaSha256(HashValue(v.int('kid.alg', 0, 65535), v.array('kid', 0, 64)), signature_time=SignatureTime(v.msec(v.int('time', 0, 2 ** 47))))
    return alg, ValidationPayload(v.array('sig', 0, 600))

@contract('C06', 'packet_wire', ['Packet.create_content_object', 'Packet.create_signed_content_object', 'Packet.__init__', 'Packet.serialize', 'Packet.__len__', 'Packet.header'], weight=2)
def packet_wire(v):
    b = body(v)
    alg, pay = sig(v)
    p = Packet.create_content_object(b) if alg is None else Packet.create_signed_content_object(b, alg, pay)
    rest = v.cat(b.serialize(), *([] if alg is None else [alg.serialize(), pay.serialize()]))
    n = 8 + len(rest)
    v.ensure('wire is header, body, algorithm, payload', v.same_bytes(p.serialize(), v.cat(bytes([1, 1]), be16(n), bytes([0, 0, 0, 8]), rest)))
    v.ensure('length', len(p) == n)
    v.ensure('header packet length', p.header().packet_length() == n)
    v.ensure('header length', p.header().header_length() == 8)
    v.ensure('content object', v.all(p.header().is_content_object(), not p.header().is_interest()))
    v.ensure('body kept', v.same_bytes(p.body().serialize(), b.serialize()))
    v.ensure('the two validation parts', v.all(p.validation_alg() is alg, p.validation_payload() is pay))
    v.ensure('wire again', v.same_bytes(p.serialize(), v.cat(bytes([1, 1]), be16(n), bytes([0, 0, 0, 8]), rest)))

@contract('C06', 'packet_round_trip', ['Packet.deserialize', 'Packet.__eq__', 'ValidationAlg.parse', 'ValidationPayload.parse', 'ContentObject.parse'], weight=3)
def packet_rt(v):
    b = body(v)
    alg, pay = sig(v)
    x = Packet.create_content_object(b) if alg is None else Packet.create_signed_content_object(b, alg, pay)
    y = Packet.deserialize(x.serialize())
    v.ensure('header', v.same_bytes(y.header().serialize(), x.header().serialize()))
    v.ensure('body', v.all(v.same_bytes(y.body().serialize(), b.serialize()), y.body() == b))
    if alg is None: v.ensure('no validation parts', v.all(y.validation_alg() is None, y.validation_payload() is None))
    else:
        v.ensure('validation parts present', v.all(y.validation_alg() is not None, y.validation_payload() is not None))
        v.ensure('algorithm', v.all(v.same_bytes(y.validation_alg().serialize(), alg.serialize()), y.validation_alg() == alg))
        v.ensure('payload', v.all(v.same_bytes(y.validation_payload().payload(), pay.payload()), y.validation_payload() == pay))
        if not isinstance(alg, ValidationAlg_Crc32c):
            v.ensure('key id and time', v.all(y.validation_alg().keyid() == alg.keyid(), y.validation_alg().signature_time().milliseconds() == alg.signature_time().milliseconds()))
    v.ensure('wire again', v.same_bytes(y.serialize(), x.serialize()))
    v.ensure('equal', x == y)
    v.ensure('length', len(y) == len(x))

@contract('C06', 'longer_header', ['Packet.deserialize', 'FixedHeader.header_length'])
def longer_header(v):
    b = body(v)
    alg, pay = sig(v)
    hop = v.array('fields', 3, 3)
    opt = v.array('optional headers', 0, 247)
    rest = v.cat(b.serialize(), *([] if alg is None else [alg.serialize(), pay.serialize()]))
    hl = 8 + len(opt)
    w = array.array('B', v.cat(bytes([1, 1]), be16(hl + len(rest)), hop, bytes([hl]), opt, rest))
    y = Packet.deserialize(w)
    v.ensure('header fields', v.all(y.header().header_length() == hl, y.header().packet_length() == hl + len(rest), v.same_bytes(y.header().serialize(), w[0:8])))
    v.ensure('the body starts after header-length bytes', v.same_bytes(y.body().serialize(), b.serialize()))
    v.ensure('validation parts', (y.validation_alg() is None) == (alg is None))
    if alg is not None:
        v.ensure('algorithm', v.same_bytes(y.validation_alg().serialize(), alg.serialize()))
        v.ensure('payload', v.same_bytes(y.validation_payload().payload(), pay.payload()))

@contract('C06', 'part_boundaries', ['Packet.deserialize'])
def boundaries(v):
    """the parts are found at the boundaries their own TLV lengths give; other arrangements are refused"""
    b = ContentObject(payload_type=PayloadType(v.int('pt', 0, 255)), payload=Payload(v.array('payload', 0, 2000)))
    alg, pay = ValidationAlg_Crc32c(), ValidationPayload(v.array('crc', 0, 64))
    head = v.cat(bytes([1, 1]), be16(v.int('plen', 8, 65535)), bytes([0, 0, 0, 8]))
    P = {'b': b.serialize(), 'a': alg.serialize(), 'p': pay.serialize()}
    order = v.choice('order', ['ab', 'bb', 'baa', 'bapp', 'bp', 'bpa', 'pb', 'ba', 'a', 'ap', 'p', '', 'bt', 'tb', 'bax', 'bapx', 'abp'])
    t = v.int('other type', 0, 65535)
    v.assume(v.all(t != 1, t != 2, t != 3, t != 4))
    P['t'] = tlv(v, t, v.array('other value', 0, 100))
    P['x'] = v.array('stray', 1, 3)
    w = array.array('B', v.cat(head, *[P[c] for c in order]))
    y, err = v.outcome(lambda: Packet.deserialize(w), (Exception,))
    if order == 'abp':
        v.ensure('body after the algorithm is still a body', v.all(err is None, y is not None and v.same_bytes(y.body().serialize(), b.serialize())))
    else: v.ensure('duplicate, missing, unknown or truncated part refused', err is not None)

@contract('C06', 'packet_parts_checked', ['Packet.__init__'])
def parts_checked(v):
    b = ContentObject(payload_type=PayloadType(0), payload=Payload(v.array('payload', 0, 2000)))
    h = FixedHeader.create_content_object(v.int('plen', 8, 65535))
    alg, pay = ValidationAlg_Crc32c(), ValidationPayload(v.array('crc', 0, 64))
    v.raises('algorithm without payload', TypeError, lambda: Packet(h, b, alg, None))
    v.raises('payload without algorithm', TypeError, lambda: Packet(h, b, None, pay))
    v.raises('header of another type', TypeError, lambda: Packet(b, b))
    v.raises('body of another type', TypeError, lambda: Packet(h, h))
    v.raises('algorithm of another type', TypeError, lambda: Packet(h, b, pay, pay))
    v.raises('payload of another type', TypeError, lambda: Packet(h, b, alg, alg))

@contract('C06', 'too_long', ['Packet.create_content_object', 'FixedHeader.serialize'])
def too_long(v):
    """a packet whose length does not fit the 16-bit field is refused rather than wrapped"""
    b = ContentObject(payload_type=PayloadType(0), payload=Payload(v.array('payload', 65400, 65535 - 9)))
    p, err = v.outcome(lambda: Packet.create_content_object(b), (Exception,))
    n = len(b) if err is None else None
    v.ensure('refused or exact', err is not None or v.all(len(p) == 8 + n, p.header().packet_length() == 8 + n, len(p.serialize()) == 8 + n))

@contract('C06', 'load_save', ['Packet.load', 'Packet.save'], sym=False, bounded='native only: random packets in a scratch directory')
def load_save(v):
    import tempfile, os
    b = body(v)
    alg, pay = sig(v)
    x = Packet.create_content_object(b) if alg is None else Packet.create_signed_content_object(b, alg, pay)
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'p')
        x.save(f)
        v.ensure('file is the wire form', v.same_bytes(open(f, 'rb').read(), x.serialize()))
        y = Packet.load(f)
    v.ensure('equal', x == y)
    v.ensure('same wire', v.same_bytes(y.serialize(), x.serialize()))
