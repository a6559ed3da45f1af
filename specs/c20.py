from pyvc_api import contract
import array
from ccnpy.core.Tlv import Tlv
from ccnpy.core.ExpiryTime import ExpiryTime
from ccnpy.core.SignatureTime import SignatureTime

TOP = 2 ** 50   # milliseconds: beyond year 35000
Y9000 = 221_845_392_000_000
def kind(v): return v.choice('class', [(ExpiryTime, 6), (SignatureTime, 15)])
def wire(v, t, ms): return v.cat(bytes([0, t, 0, 8]), bytes([(ms >> s) & 255 for s in (56, 48, 40, 32, 24, 16, 8, 0)]))

F = ['Timestamp.__init__', 'Timestamp.milliseconds', 'Timestamp.timestamp', 'ExpiryTime.parse', 'SignatureTime.parse']

@contract('C20', 'from_seconds', F)
def from_seconds(v):
    cls, t = kind(v)
    ms = v.int('ms', 0, TOP)
    x = cls(v.msec(ms))
    v.ensure('milliseconds', x.milliseconds() == ms)
    v.ensure('wire', v.same_bytes(x.serialize(), wire(v, t, ms)))
    v.ensure('length', len(x) == 12)
    v.ensure('seconds', x.timestamp() == v.msec(ms))

@contract('C20', 'from_whole_seconds', F)
def from_int(v):
    cls, t = kind(v)
    s = v.int('s', 0, TOP // 1000)
    x = cls(s)
    v.ensure('milliseconds', x.milliseconds() == 1000 * s)
    v.ensure('wire', v.same_bytes(x.serialize(), wire(v, t, 1000 * s)))

@contract('C20', 'from_datetime', ['Timestamp.from_datetime'])
def from_datetime(v):
    cls, t = kind(v)
    ms = v.int('ms', 0, Y9000)
    x = cls.from_datetime(v.datetime(v.msec(ms)))
    v.ensure('milliseconds', x.milliseconds() == ms)
    v.ensure('wire', v.same_bytes(x.serialize(), wire(v, t, ms)))
    v.ensure('the same instant as from seconds', v.all(x == cls(v.msec(ms)), cls(v.msec(ms)) == x, x.timestamp() == v.msec(ms)))

@contract('C20', 'from_datetime_with_microseconds', ['Timestamp.from_datetime'])
def from_micro(v):
    cls, t = kind(v)
    us = v.int('us', 0, Y9000 * 1000)
    x = cls.from_datetime(v.datetime_us(us))
    ms = x.milliseconds()
    # a float of this size resolves 31 microseconds
    v.ensure('the nearest millisecond', v.all(ms * 1000 - us <= 531, us - ms * 1000 <= 531))
    v.ensure('the same instant as from that millisecond', v.all(x == cls(v.msec(ms)), cls.parse(Tlv.deserialize(x.serialize())) == x))

@contract('C20', 'round_trip', F)
def round_trip(v):
    cls, t = kind(v)
    ms = v.int('ms', 0, TOP)
    x = cls(v.msec(ms))
    y = cls.parse(Tlv.deserialize(x.serialize()))
    v.ensure('the same class', type(y) is cls)
    v.ensure('the same instant', v.all(y == x, x == y, y.milliseconds() == ms, y.timestamp() == x.timestamp()))
    v.ensure('the same bytes', v.same_bytes(y.serialize(), x.serialize()))

@contract('C20', 'parse', ['ExpiryTime.parse', 'SignatureTime.parse'])
def parse(v):
    cls, t = kind(v)
    ms = v.int('ms', 0, 2 ** 64 - 1)
    w = wire(v, t, ms)
    y = cls.parse(Tlv.deserialize(array.array('B', w)))
    v.ensure('milliseconds', y.milliseconds() == ms)
    v.ensure('same bytes', v.same_bytes(y.serialize(), w))
    other = v.int('other', 0, 2 ** 64 - 1)
    z = cls.parse(Tlv(t, Tlv.uint64_to_array(other)))
    v.ensure('equal exactly when the same millisecond', v.all((y == z) == (ms == other), (y != z) == (ms != other)))

@contract('C20', 'equality', ['Timestamp.__eq__'])
def equality(v):
    cls, t = kind(v)
    a, b = v.int('a', 0, TOP), v.int('b', 0, TOP)
    if v.bool('near'): b = a + v.int('delta', -2, 2)
    v.assume(b >= 0)
    v.ensure('equal exactly when the same millisecond', (cls(v.msec(a)) == cls(v.msec(b))) == (a == b))
    v.ensure('not equal otherwise', (cls(v.msec(a)) != cls(v.msec(b))) == (a != b))
    y = cls.parse(Tlv(t, Tlv.uint64_to_array(b)))
    v.ensure('also after parsing', (cls(v.msec(a)) == y) == (a == b))

@contract('C20', 'now', ['Timestamp.now'])
def now(v):
    cls, t = kind(v)
    x = cls.now()
    y = cls.parse(Tlv.deserialize(x.serialize()))
    v.ensure('the same instant after the wire', v.all(x == y, x.milliseconds() == y.milliseconds(), v.same_bytes(x.serialize(), y.serialize())))
    v.ensure('wire', v.same_bytes(x.serialize(), wire(v, t, x.milliseconds())))

@contract('C20', 'time_zone', ['Timestamp.from_datetime', 'Timestamp.datetime'], sym=False, bounded='native runs with real time zones')
def time_zone(v):
    from datetime import datetime, timezone, timedelta
    cls, t = kind(v)
    ms = v.int('ms', 0, Y9000)
    zone = timezone(timedelta(minutes=v.int('offset', -1439, 1439)))
    dt = (datetime(1970, 1, 1, tzinfo=timezone.utc) + timedelta(milliseconds=ms)).astimezone(zone)
    x = cls.from_datetime(dt)
    v.ensure('milliseconds', x.milliseconds() == ms)
    v.ensure('the instant as a date-time', abs((x.datetime() - dt).total_seconds()) < 0.0005)
