"""The root manifest of a tree under contract (ManifestTree.build, build_root), for any tree below it."""
import array
from ccnpy.core.ExpiryTime import ExpiryTime
from ccnpy.core.HashValue import HashValue
from ccnpy.core.Name import Name, NameComponent
from ccnpy.core.Packet import Packet
from ccnpy.core.PacketValidator import PacketValidator
from ccnpy.crypto.AeadKey import AeadGcm
from ccnpy.crypto.Crc32c import Crc32cSigner, Crc32cVerifier
from ccnpy.crypto.InsecureKeystore import InsecureKeystore
from ccnpy.crypto.RsaKey import RsaKey
from ccnpy.crypto.RsaSha256 import RsaSha256Signer
from ccnpy.flic import ManifestTree as module
from ccnpy.flic.ManifestFactory import ManifestFactory
from ccnpy.flic.ManifestTreeOptions import ManifestTreeOptions
from ccnpy.flic.aeadctx.AeadDecryptor import AeadDecryptor
from ccnpy.flic.aeadctx.AeadEncryptor import AeadEncryptor
from ccnpy.flic.aeadctx.AeadParameters import AeadParameters
from ccnpy.flic.name_constructor.FileMetadata import ChunkMetadata, FileMetadata
from ccnpy.flic.name_constructor.NameConstructorContext import NameConstructorContext
from ccnpy.flic.name_constructor.SchemaType import SchemaType
from ccnpy.flic.tlvs.KeyNumber import KeyNumber
from ccnpy.flic.tlvs.Locators import Locators
from ccnpy.flic.tlvs.Manifest import Manifest
from ccnpy.flic.tlvs.Pointers import Pointers

H, P, S = SchemaType.HASHED, SchemaType.PREFIX, SchemaType.SEGMENTED
def register(contract, pid):
    @contract(pid, 'root_manifest', ['ManifestTree.build', 'ManifestTree.build_top', 'ManifestTree.build_root', 'ManifestTree._create_root_manifest', 'ManifestTree._build_tree', 'ManifestFactory.build_packet',
                                     'NameConstructorContext.nc_def', 'NameConstructorContext.create'], weight=2)
    def root(v):
        name = Name([NameComponent(1, v.bytes('root', 1, 8))])
        schema = v.choice('schema', [H, P, S])
        signer = v.choice('signer', ['crc32c', 'rsa'])
        keys = v.rsa_key('key', 'k0') if signer == 'rsa' else None
        o = ManifestTreeOptions(name=name, schema_type=schema, signer=Crc32cSigner() if signer == 'crc32c' else RsaSha256Signer(RsaKey(keys[0])), max_packet_size=9000,
                                add_node_subtree_size=v.bool('node sizes'), add_group_subtree_size=v.bool('group sizes'))
        if v.bool('expires'): o.root_expiry_time, o.manifest_expiry_time = ExpiryTime(v.msec(v.int('root expiry', 0, 2 ** 45))), ExpiryTime(v.msec(v.int('other expiry', 0, 2 ** 45)))
        two = True if schema == S else v.bool('own prefix')
        if two and schema == H: o.data_locators = Locators.from_name(Name([NameComponent(1, v.bytes('locator', 9, 12))]))
        if two and schema != H: o.data_prefix = Name([NameComponent(1, v.bytes('prefix', 9, 12))])
        p = None
        if v.bool('encrypted'):
            p = AeadParameters(key=AeadGcm(v.bytes('aead key', 16, 16)), key_number=KeyNumber(v.int('key number', 0, 2 ** 16)), aead_salt=v.int('salt', 0, 2 ** 32 - 1))
            o.manifest_encryptor = AeadEncryptor(p)
        total = v.int('file bytes', 1, 2 ** 60)
        ctx = NameConstructorContext.create(o)
        number, child = v.int('top id', 0, 2 ** 40), HashValue.create_sha256(v.array('child', 32, 32))
        class Planning:
            """contract of the planning (C11, C16): a plan"""
            @classmethod
            def create_optimized_tree(cls, file_metadata, manifest_factory, name_ctx):
                v.ensure('planned for this file and naming', v.all(file_metadata is file, name_ctx is ctx, manifest_factory.tree_options() is o))
                return plan
        class Building:
            """contract of TreeBuilder (C13 whole_tree): it writes the manifests below the root and returns the top one"""
            def __init__(self, file_metadata=None, tree_parameters=None, manifest_factory=None, packet_output=None, tree_options=None, name_ctx=None, manifest_graph=None):
                v.ensure('built as planned, for this file and naming', v.all(file_metadata is file, tree_parameters is plan, packet_output is out, tree_options is o, name_ctx is ctx))
            def build(self):
                top = ManifestFactory(o).build_packet(source=Pointers([child]), name=ctx.manifest_schema_impl.get_name(number))
                out.put(top)
                return top
        class Out:
            def __init__(self): self.packets = []
            def put(self, packet): self.packets.append(packet)
        plan, out, file = object(), Out(), FileMetadata(chunk_metadata=[ChunkMetadata(chunk_number=0, payload_bytes=total, content_object_hash=child)], total_bytes=total)
        if v.symbolic:
            v.assumed(module, 'TreeParameters', Planning)
            v.assumed(module, 'TreeBuilder', Building)
        r = module.ManifestTree(data_input=file, packet_output=out, tree_options=o, name_context=ctx).build()
        v.ensure('the root is written last, after the tree', v.all(len(out.packets) == 2, out.packets[-1] is r))
        top = out.packets[0]
        if not v.symbolic and schema == S: number = int.from_bytes(bytes(top.body().name().component(top.body().name().count() - 1).value()), 'big')
        body = r.body()
        v.ensure('the root has the name of the file', v.same_bytes(body.name().serialize(), name.serialize()))
        if o.root_expiry_time is None: v.ensure('no expiry time', body.expiry_time() is None)
        else: v.ensure('the expiry time of roots', body.expiry_time().milliseconds() == o.root_expiry_time.milliseconds())
        # signed by the signer
        wire = array.array('B', v.cat(body.serialize(), r.validation_alg().serialize()))
        if signer == 'crc32c': v.ensure('the CRC of the root', Crc32cVerifier().verify(wire, validation_payload=r.validation_payload()) == True)
        else:
            v.ensure('the key of the signer', v.same_bytes(r.validation_alg().keyid().value(), o.signer.keyid().value()))
            _, e = v.outcome(lambda: PacketValidator(InsecureKeystore().add_rsa_key('k', RsaKey(keys[1]))).validate_packet(r), (ValueError,))
            v.ensure('the signature of the root', e is None)
        m = Manifest.from_content_object(body)
        v.ensure('encrypted exactly when asked for', m.is_encrypted() == (p is not None))
        if p is not None: m = AeadDecryptor(p).decrypt_manifest(m)
        node = m.node()
        v.ensure('one group', len(node.hash_groups()) == 1)
        g = node.hash_groups()[0]
        ps = [x for x in g.pointers()]
        v.ensure('one pointer, to the tree', len(ps) == 1)
        v.ensure('one pointer, to the tree', v.same_bytes(ps[0].value(), top.content_object_hash().value()))
        # definitions: what the groups of the tree refer to
        defs = node.node_data().nc_defs()
        impls = [ctx.manifest_schema_impl, ctx.data_schema_impl] if two else [ctx.manifest_schema_impl]
        v.ensure('as many groups per manifest as definitions', ctx.hash_group_count() == len(impls))
        v.ensure('the definitions of the tree', len(defs) == len(impls))
        for i in impls: v.ensure('the definitions of the tree', v.any(*[v.same_bytes(d.serialize(), i.nc_def().serialize()) for d in defs]))
        if two: v.ensure('different names, different definitions', impls[0].nc_id().id() != impls[1].nc_id().id())
        v.ensure('defined as manifests of the tree', g.group_data().nc_id().id() == ctx.manifest_schema_impl.nc_id().id())
        for asked, x, label in ((o.add_node_subtree_size, node.node_data().subtree_size(), 'node'), (o.add_group_subtree_size, g.group_data().subtree_size(), 'group')):
            v.ensure('size of the %s exactly when asked for' % label, (x is not None) == asked)
            if asked: v.ensure('size of the %s: the file' % label, x.size() == total)
        seg = g.group_data().start_segment_id()
        if schema != S: v.ensure('no ids', seg is None)
        else: v.ensure('the id of the top manifest', v.all(seg is not None, seg.value() == number))
        if schema == S:
            # a reader asks for the name under which the top manifest was published
            x = next(iter(node))
            v.ensure('the name a reader will ask for', v.same_bytes(ctx.manifest_schema_impl.get_name(x.segment_id).serialize(), top.body().name().serialize()))
