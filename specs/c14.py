from pyvc_api import contract
import array
from ccnpy.core.ContentObject import ContentObject
from ccnpy.core.HashValue import HashValue
from ccnpy.core.KeyId import KeyId
from ccnpy.core.Name import Name, NameComponent
from ccnpy.core.Packet import Packet
from ccnpy.core.Payload import Payload
from ccnpy.core.ValidationPayload import ValidationPayload
from ccnpy.crypto.AeadKey import AeadGcm, AeadCcm
from ccnpy.crypto.Crc32c import Crc32cSigner
from ccnpy.crypto.InsecureKeystore import InsecureKeystore
from ccnpy.crypto.RsaKey import RsaKey
from ccnpy.crypto.RsaSha256 import RsaSha256Signer
from ccnpy.flic.aeadctx.AeadImpl import AeadImpl
from ccnpy.flic.aeadctx.AeadParameters import AeadParameters
from ccnpy.flic.tlvs.GroupData import GroupData
from ccnpy.flic.tlvs.HashGroup import HashGroup
from ccnpy.flic.tlvs.Locators import Locators
from ccnpy.flic.tlvs.Manifest import Manifest
from ccnpy.flic.tlvs.NcDef import NcDef
from ccnpy.flic.tlvs.NcId import NcId
from ccnpy.flic.tlvs.NcSchema import HashSchema, PrefixSchema, SegmentedSchema
from ccnpy.flic.tlvs.Node import Node
from ccnpy.flic.tlvs.NodeData import NodeData
from ccnpy.flic.tlvs.Pointers import Pointers
from ccnpy.flic.tlvs.StartSegmentId import StartSegmentId
from ccnpy.flic.tree.Traversal import Traversal

class Sch:
    """a naming scheme and what the statement says its names are"""
    def __init__(self, v, tag, kind):
        self.kind = kind
        self.prefix = Name([NameComponent(1, v.bytes('prefix' + tag, 1, 12))])
        if kind == 'hash': self.tlv = HashSchema(locators=Locators.from_name(self.prefix))
        elif kind == 'prefix': self.tlv = PrefixSchema(name=self.prefix)
        elif kind == 'data segments': self.tlv = SegmentedSchema.create_for_data(name=self.prefix)
        else: self.tlv = SegmentedSchema.create_for_manifest(name=self.prefix)
    def segmented(self): return self.kind.endswith('segments')
    def name(self, n):
        if self.kind == 'hash': return None
        if self.kind == 'prefix': return self.prefix
        return self.prefix.append(NameComponent.create_chunk_segment(n) if self.kind == 'data segments' else NameComponent.create_manifest_id(n))
KINDS = ['hash', 'prefix', 'data segments', 'manifest segments']

class World:
    """what was published and what a traversal must ask for, in order"""
    def __init__(self, v, ks):
        self.v, self.ks, self.count = v, ks, 0
        self.params = self.signers = None
    def seal(self, body):
        """signed or unsigned packet"""
        k = self.v.choice('signed', self.signers) if self.signers else None
        if k is None: return Packet.create_content_object(body)
        alg = k.validation_alg()
        return Packet.create_signed_content_object(body, alg, k.sign(body.serialize(), alg.serialize()))
    def data(self, name, payload):
        p = self.seal(ContentObject.create_data(name=name, payload=Payload(payload)))
        return [Visit(p, name, payload)]
    def manifest(self, name, node):
        m = None
        if self.params:
            q = self.v.choice('encrypted', [None] + self.params)
            if q is not None: m = AeadImpl(q).create_encrypted_manifest(node)
        if m is None: m = Manifest(node=node)
        return Visit(self.seal(m.content_object(name=name)), name, None)
class Visit:
    def __init__(self, packet, name, payload): self.packet, self.name, self.payload, self.hash = packet, name, payload, packet.content_object_hash()

class Reader:
    def __init__(self, v, visits):
        self.v, self.visits, self.at = v, visits, 0
    def get(self, name, hash_restriction, locators=None):
        v = self.v
        v.ensure('no more packets asked for than there are', self.at < len(self.visits))
        x = self.visits[self.at]
        self.at += 1
        if self.at == 1 and x.root_by_name: v.ensure('the root without restriction', hash_restriction is None)
        else:
            v.ensure('asked for by its hash', hash_restriction is not None)
            v.ensure('asked for by its hash, in pre-order', v.all(hash_restriction == x.hash, v.same_bytes(hash_restriction.value(), x.hash.value())))
        v.ensure('named when the scheme names it', (name is None) == (x.name is None))
        if name is not None: v.ensure('asked for by the constructed name', v.same_bytes(name.serialize(), x.name.serialize()))
        return Packet.deserialize(x.packet.serialize()) if x.off_wire else x.packet
class Writer:
    def __init__(self): self.got = []
    def write(self, data): self.got.append(data)

def run(v, visits, ks, bad=None, off_wire=True, by_name=False):
    """visits in pre-order, the first is the root"""
    for i in range(len(visits)):
        visits[i].off_wire, visits[i].root_by_name = off_wire, by_name and i == 0
    r, w = Reader(v, visits), Writer()
    t = Traversal(packet_input=r, data_writer=w, keystore=ks)
    x, e = v.outcome(lambda: t.traverse(visits[0].name, None if by_name else visits[0].hash), (Exception,))
    n = len(visits) if bad is None else bad
    want = [x.payload for x in visits[:n] if x.payload is not None]
    v.ensure('as many payloads as data packets', len(w.got) == len(want))
    for i in range(len(want)): v.ensure('payloads in order', v.same_bytes(w.got[i], want[i]))
    if bad is None:
        v.ensure('no error', e is None)
        v.ensure('every packet asked for', r.at == len(visits))
        v.ensure('counted', t.count() == len(visits))
    else:
        v.ensure('an invalid packet is an error', e is not None)
        v.ensure('nothing is asked for after an invalid packet', r.at == bad + 1)

def defs(ids, schemas): return [NcDef(NcId(i), s.tlv) for i, s in zip(ids, schemas)]
def group(v, i, sch, start, packets):
    gd = GroupData(nc_id=NcId(i), start_segment_id=StartSegmentId(start) if sch.segmented() else None)
    return HashGroup(group_data=gd, pointers=Pointers([p.content_object_hash() for p in packets]))

def payload(v, tag): return v.bytes('payload' + tag, 0, 300)
ROOT = Name([NameComponent(1, b'root')])

def family(v, kinds, redefine, ks, off_wire):
    """root defines ids 1 and 2; its groups: [manifest A, data x] under 1, [manifest B] under 2; A redefines one id;
    A points to data a0, a1 under 1 and 2; B to data b under 1"""
    w = World(v, ks)
    s1, s2, s3 = Sch(v, '1', kinds[0]), Sch(v, '2', kinds[1]), Sch(v, '3', kinds[2])
    inner = [s1, s2]
    if redefine: inner[redefine - 1] = s3
    st = [v.int('start', 0, 2 ** 40) for _ in range(5)]
    a0, a1 = w.data(inner[0].name(st[0]), payload(v, 'a0')), w.data(inner[1].name(st[1]), payload(v, 'a1'))
    b = w.data(s1.name(st[2]), payload(v, 'b'))
    x = w.data(s1.name(st[3] + 1), payload(v, 'x'))
    A = w.manifest(s1.name(st[3]), Node(node_data=NodeData(nc_defs=defs([redefine], [s3])) if redefine else None,
                                        hash_groups=[group(v, 1, inner[0], st[0], [a0[0].packet]), group(v, 2, inner[1], st[1], [a1[0].packet])]))
    B = w.manifest(s2.name(st[4]), Node(hash_groups=[group(v, 1, s1, st[2], [b[0].packet])]))
    top = w.manifest(ROOT, Node(node_data=NodeData(nc_defs=defs([1, 2], [s1, s2])),
                                hash_groups=[group(v, 1, s1, st[3], [A.packet, x[0].packet]), group(v, 2, s2, st[4], [B.packet])]))
    run(v, [top, A] + a0 + a1 + x + [B] + b, ks, off_wire=off_wire, by_name=v.bool('root by name'))

def register(redefine, label):
    @contract('C14', 'definitions_' + label, ['Traversal.traverse', 'Traversal.preorder', 'Traversal._visit_children', 'Traversal._update_nc_cache', 'Traversal._fetch_packet', 'Node.__iter__', 'Node.NodeIterator.__next__', 'SchemaImplFactory.from_ncdef'],
              bounded='one tree shape of two levels below the root, all combinations of schemes, any start ids, names and payloads', weight=3)
    def d(v): family(v, [v.choice('kind', KINDS) for _ in range(3 if redefine else 2)] + ([] if redefine else ['hash']), redefine, InsecureKeystore(), False)
for r, l in ((0, 'inherited'), (1, 'first_replaced'), (2, 'second_replaced')): register(r, l)

@contract('C14', 'segment_ids_count_up', ['Node.NodeIterator.__next__', 'Node.NodeIterator._get_segment_id', 'Traversal._visit_children'], bounded='up to 3 groups of up to 3 pointers, any start ids', weight=2)
def counting(v):
    w = World(v, None)
    s = Sch(v, '1', v.choice('kind', ['data segments', 'manifest segments']))
    groups, visits = [], []
    for g in range(v.few('groups', 1, 3, 6)):
        st = v.int('start', 0, 2 ** 40)
        ps = [w.data(s.name(st + i), payload(v, ''))[0] for i in range(v.few('pointers', 0, 3, 10))]
        groups.append(group(v, 1, s, st, [p.packet for p in ps]))
        visits += ps
    top = w.manifest(ROOT, Node(node_data=NodeData(nc_defs=defs([1], [s])), hash_groups=groups))
    run(v, [top] + visits, None, off_wire=False)

@contract('C14', 'decrypted_first', ['Traversal._decrypt', 'Traversal.preorder', 'DecryptorCache.get_or_create'], bounded='two encrypted manifests under up to two keys, from the wire', weight=3)
def encrypted(v):
    ks = InsecureKeystore()
    p = []
    for i in range(2):
        p.append(AeadParameters(key=AeadGcm(v.bytes('key', 16, 16)), key_number=v.int('key number', 0, 2 ** 40), aead_salt=v.int('salt', 0, 2 ** 32 - 1)))
        ks.add_aes_key(p[i])
    v.assume(v.neg(p[0].key_number == p[1].key_number))
    w = World(v, ks)
    s = Sch(v, '1', 'hash')
    w.params = p
    a = w.data(None, payload(v, 'a'))
    A = w.manifest(None, Node(hash_groups=[group(v, 1, s, 0, [a[0].packet])]))
    top = w.manifest(ROOT, Node(node_data=NodeData(nc_defs=defs([1], [s])), hash_groups=[group(v, 1, s, 0, [A.packet])]))
    run(v, [top, A] + a, ks)

def damaged(v, rsa, which):
    key = RsaKey(v.rsa_key('rsa', 'k0')[0])
    ks = InsecureKeystore().add_rsa_key('k', key)
    w = World(v, ks)
    s = Sch(v, '1', 'prefix')
    def seal(body, i):
        signer = RsaSha256Signer(key) if rsa and i == which else Crc32cSigner()
        alg = signer.validation_alg()
        sig = signer.sign(body.serialize(), alg.serialize())
        if i == which: sig = ValidationPayload(array.array('B', v.cat(v.unique_byte_change('damage', sig.payload()))))
        return Packet.create_signed_content_object(body, alg, sig)
    pa, pb = v.bytes('payload a', 0, 60), v.bytes('payload b', 61, 100)
    b = Visit(seal(ContentObject.create_data(name=s.prefix, payload=Payload(pb)), 3), s.prefix, pb)
    a = Visit(seal(ContentObject.create_data(name=s.prefix, payload=Payload(pa)), 2), s.prefix, pa)
    A = Visit(seal(Manifest(node=Node(hash_groups=[group(v, 1, s, 0, [a.packet, b.packet])])).content_object(name=s.prefix), 1), s.prefix, None)
    top = Visit(seal(Manifest(node=Node(node_data=NodeData(nc_defs=defs([1], [s])), hash_groups=[group(v, 1, s, 0, [A.packet])])).content_object(name=ROOT), 0), ROOT, None)
    run(v, [top, A, a, b], ks, bad=which)

def register_damage(rsa, label, which):
  @contract('C14', 'validated_' + label + '_' + ['root', 'manifest', 'data', 'last'][which], ['PacketValidator.validate_packet', 'Traversal.traverse', 'Traversal._visit_children'], bounded='a root, a manifest and two data packets; one byte of one signature changed', weight=2)
  def validated(v): damaged(v, rsa, which)
for r, l in ((True, 'rsa'), (False, 'crc')):
  for k in range(4): register_damage(r, l, k)

class Grow:
    """random trees"""
    def __init__(self, v, w, budget): self.v, self.w, self.budget = v, w, budget
    def tree(self, depth, schemas, name, root=False):
        v, w = self.v, self.w
        self.budget -= 1
        if not root and (depth == 0 or self.budget <= 0 or v.choice('kind of packet', ['data', 'manifest', 'manifest']) == 'data'):
            return w.data(name, v.bytes('payload', 0, 40))
        schemas, new = dict(schemas), []
        if root or v.choice('definitions', [False, False, True]):
            for i in range(v.small('new definitions', 1, 3)):
                k = v.choice('id', [1, 2, 3, 300])
                if k in [a for a, _ in new]: continue
                new.append((k, Sch(v, '', v.choice('scheme', KINDS))))
            for k, s in new: schemas[k] = s
        groups, below = [], []
        for g in range(v.few('groups', 1, 3, 6)):
            k = v.choice('group id', sorted(schemas))
            s, st = schemas[k], v.choice('start', [0, 1, 254, 255, 65534, v.int('any start', 0, 2 ** 40)])
            kids = [self.tree(depth - 1, schemas, s.name(st + i)) for i in range(v.few('pointers', 0, 3, 10))]
            groups.append(group(v, k, s, st, [x[0].packet for x in kids]))
            for x in kids: below += x
        nd = NodeData(nc_defs=defs([k for k, _ in new], [s for _, s in new])) if new else NodeData(subtree_size=5) if v.bool('node data') else None
        return [w.manifest(name, Node(node_data=nd, hash_groups=groups))] + below

@contract('C14', 'random_trees', ['Traversal.traverse', 'Traversal.preorder', 'Traversal._visit_children', 'Traversal._update_nc_cache', 'Traversal._fetch_packet', 'Traversal._decrypt'], sym=False, bounded='native: random trees of up to 5 levels with random schemes, signatures and keys, with and without one damaged signature', weight=5)
def random_trees(v):
    ks = InsecureKeystore()
    w = World(v, ks)
    if v.bool('encryption'):
        w.params = []
        for i in range(v.small('keys', 1, 2)):
            cls = v.choice('aead', [AeadGcm, AeadCcm])
            p = AeadParameters(key=cls(v.bytes('key', 16, 16)), key_number=10 + i, aead_salt=v.int('salt', 0, 2 ** 32 - 1))
            w.params.append(p)
            ks.add_aes_key(p)
    if v.bool('signatures'):
        w.signers = [Crc32cSigner(), None]
        if v.choice('rsa', [False, False, True]):
            key = RsaKey(v.rsa_key('rsa', 'k0')[0])
            ks.add_rsa_key('k', key)
            w.signers.append(RsaSha256Signer(key))
    g = Grow(v, w, v.int('budget', 1, 60))
    visits = g.tree(v.small('depth', 1, 5), {}, ROOT, True)
    bad = None
    if v.bool('damage'):
        signed = [i for i, x in enumerate(visits) if x.packet.validation_alg() is not None]
        if signed:
            bad = v.choice('damaged', signed)
            p = visits[bad].packet
            sig = ValidationPayload(array.array('B', v.unique_byte_change('damage', p.validation_payload().payload())))
            visits[bad].packet = Packet.create_signed_content_object(p.body(), p.validation_alg(), sig)
    run(v, visits, ks, bad, by_name=v.bool('by name'))

from specs import visiting
visiting.register(contract)
