from pyvc_api import contract
import array
from ccnpy.core.Tlv import Tlv
from ccnpy.core.TlvType import IntegerTlvType
from ccnpy.core.FinalChunkId import FinalChunkId
from ccnpy.core.PayloadType import PayloadType
from ccnpy.core.Name import NameComponent
from ccnpy.flic.tlvs.SubtreeSize import SubtreeSize
from ccnpy.flic.tlvs.LeafSize import LeafSize
from ccnpy.flic.tlvs.StartSegmentId import StartSegmentId
from ccnpy.flic.tlvs.NcId import NcId
from ccnpy.flic.tlvs.KeyNumber import KeyNumber
from ccnpy.flic.tlvs.SuffixComponentType import SuffixComponentType
from ccnpy.exceptions.ParseError import ParseError

M64 = 2 ** 64 - 1
ENC = ['Tlv.number_to_array', 'Tlv.array_to_number']

def digits(n, width):
    """the big-endian base-256 digits of n"""
    return bytes([(n // 256 ** (width - 1 - i)) % 256 for i in range(width)])

def varint(n):
    if n < 256: return digits(n, 1)
    if n < 256 ** 2: return digits(n, 2)
    if n < 256 ** 3: return digits(n, 3)
    if n < 256 ** 4: return digits(n, 4)
    return digits(n, 8)

@contract('C02', 'varint', ENC)
def c_varint(v):
    n = v.int('n', 0, M64)
    a = Tlv.number_to_array(n)
    v.ensure('minimal big-endian bytes', v.same_bytes(a, varint(n)))
    v.ensure('reads back', Tlv.array_to_number(a) == n)

@contract('C02', 'uint64', ['Tlv.uint64_to_array', 'Tlv.array_to_number'])
def c_uint64(v):
    n = v.int('n', 0, M64)
    a = Tlv.uint64_to_array(n)
    v.ensure('8 big-endian bytes', v.same_bytes(a, digits(n, 8)))
    v.ensure('reads back', Tlv.array_to_number(a) == n)

@contract('C02', 'uint32', ['Tlv.uint32_to_array', 'Tlv.array_to_number'])
def c_uint32(v):
    n = v.int('n', 0, 2 ** 32 - 1)
    a = Tlv.uint32_to_array(n)
    v.ensure('4 big-endian bytes', v.same_bytes(a, digits(n, 4)))
    v.ensure('reads back', Tlv.array_to_number(a) == n)

@contract('C02', 'uint24', ['Tlv.uint24_to_array', 'Tlv.array_to_number'])
def c_uint24(v):
    n = v.int('n', 0, 2 ** 24 - 1)
    a = Tlv.uint24_to_array(n)
    v.ensure('3 big-endian bytes', v.same_bytes(a, digits(n, 3)))
    v.ensure('reads back', Tlv.array_to_number(a) == n)

@contract('C02', 'uint16', ['Tlv.uint16_to_array', 'Tlv.array_to_number'])
def c_uint16(v):
    n = v.int('n', 0, 65535)
    a = Tlv.uint16_to_array(n)
    v.ensure('2 big-endian bytes', v.same_bytes(a, digits(n, 2)))
    v.ensure('reads back', Tlv.array_to_number(a) == n)

@contract('C02', 'uint16_range', ['Tlv.uint16_to_array', 'Tlv.create_uint16', 'Tlv.create_uint8'])
def c_range(v):
    n = v.int('n', -2 ** 40, 2 ** 40)
    t = v.int('type', 0, 65535)
    if n < 0 or n > 65535:
        v.raises('uint16_to_array refuses', Exception, lambda: Tlv.uint16_to_array(n))
        v.raises('create_uint16 refuses', Exception, lambda: Tlv.create_uint16(t, n))
    if n < 0 or n > 255:
        v.raises('create_uint8 refuses', Exception, lambda: Tlv.create_uint8(t, n))

@contract('C02', 'overflow', ENC + ['Tlv.uint32_to_array', 'Tlv.uint24_to_array'])
def c_overflow(v):
    """fixed widths whose leading byte carries the excess are refused by the byte array"""
    n = v.int('n', 2 ** 24, 2 ** 70)
    v.raises('uint24 refuses', Exception, lambda: Tlv.uint24_to_array(n))
    if n >= 2 ** 32:
        v.raises('uint32 refuses', Exception, lambda: Tlv.uint32_to_array(n))
    m = v.int('m', -2 ** 70, -1)
    v.raises('negative uint24 refused', Exception, lambda: Tlv.uint24_to_array(m))
    v.raises('negative uint32 refused', Exception, lambda: Tlv.uint32_to_array(m))
    v.raises('negative varint refused', Exception, lambda: Tlv.number_to_array(m))

@contract('C02', 'tlv_factories', ENC + ['Tlv.create_varint', 'Tlv.create_uint8', 'Tlv.create_uint16', 'Tlv.create_uint64', 'Tlv.value_as_number'])
def c_factories(v):
    t = v.int('type', 0, 65535)
    k = v.choice('width', ['var', 8, 16, 64])
    if k == 'var':
        n = v.int('n', 0, M64); x = Tlv.create_varint(t, n); d = varint(n)
    elif k == 8:
        n = v.int('n', 0, 255); x = Tlv.create_uint8(t, n); d = digits(n, 1)
    elif k == 16:
        n = v.int('n', 0, 65535); x = Tlv.create_uint16(t, n); d = digits(n, 2)
    else:
        n = v.int('n', 0, M64); x = Tlv.create_uint64(t, n); d = digits(n, 8)
    v.ensure('type', x.type() == t)
    v.ensure('value bytes', v.same_bytes(x.value(), d))
    back = Tlv.deserialize(x.serialize())
    v.ensure('value_as_number of the parsed TLV', back.value_as_number() == n)

INTS = [SubtreeSize, LeafSize, StartSegmentId, NcId]

@contract('C02', 'integer_types', ENC + ['IntegerTlvType.__init__', 'IntegerTlvType.parse', 'IntegerTlvType.value'])
def c_integer(v):
    cls = v.choice('class', INTS)
    n = v.int('n', 0, M64)
    x = cls(n)
    d = varint(n)
    v.ensure('value()', x.value() == n)
    v.ensure('wire', v.same_bytes(x.serialize(), v.cat(digits(cls.class_type(), 2), digits(len(d), 2), d)))
    v.ensure('len', len(x) == 4 + len(d))
    y = cls.parse(Tlv.deserialize(x.serialize()))
    v.ensure('parsed value', y.value() == n)
    v.ensure('parsed equal', y == x)

@contract('C02', 'integer_types_differ', ENC + ['IntegerTlvType.__eq__'])
def c_integer_eq(v):
    cls = v.choice('class', INTS)
    n = v.int('n', 0, M64)
    m = v.int('m', 0, M64)
    v.ensure('equal iff same number', (cls(n) == cls(m)) == (n == m))

@contract('C02', 'other_integer_fields', ENC + ['FinalChunkId', 'PayloadType', 'SuffixComponentType', 'NameComponent.create_chunk_segment', 'NameComponent.create_manifest_id'])
def c_other(v):
    k = v.choice('class', ['final', 'chunk', 'manifest', 'suffix', 'payload_type', 'keynum'])
    if k == 'final':
        n = v.int('n', 0, M64); x = FinalChunkId(n); t = 7; d = varint(n)
    elif k == 'chunk':
        n = v.int('n', 0, M64); x = NameComponent.create_chunk_segment(n); t = 5; d = varint(n)
    elif k == 'manifest':
        n = v.int('n', 0, M64); x = NameComponent.create_manifest_id(n); t = 16; d = varint(n)
    elif k == 'suffix':
        n = v.int('n', 0, 65535); x = SuffixComponentType(n); t = 2; d = digits(n, 2)
    elif k == 'payload_type':
        n = v.int('n', 0, 255); x = PayloadType(n); t = 5; d = digits(n, 1)
    else:
        n = v.int('n', 0, M64); x = KeyNumber(n); t = KeyNumber.class_type(); d = varint(n)
    v.ensure('wire', v.same_bytes(x.serialize(), v.cat(digits(t, 2), digits(len(d), 2), d)))
    back = Tlv.deserialize(x.serialize())
    v.ensure('number on the wire', back.value_as_number() == n)
    if k in ('final', 'suffix', 'payload_type', 'keynum'):
        y = type(x).parse(back)
        v.ensure('parsed equal', y == x)

@contract('C02', 'reader', ['Tlv.array_to_number', 'Tlv.value_as_number'], bounded='deductively up to 32 bytes; the inductive step reader_step covers any length')
def c_reader(v):
    b = v.array('bytes', 0, 32)
    v.ensure('base-256 value', Tlv.array_to_number(b) == v.be(b))
    v.ensure('value_as_number', Tlv(1, b).value_as_number() == v.be(b))
