from pyvc_api import contract
import array, os
from ccnpy.apps import cli_utils, manifest_reader, manifest_writer, packet_utils
from ccnpy.core.ContentObject import ContentObject
from ccnpy.core.HashValue import HashValue
from ccnpy.core.Name import Name, NameComponent
from ccnpy.core.Packet import Packet
from ccnpy.core.Payload import Payload
from ccnpy.core.ValidationAlg import ValidationAlg_Crc32c, ValidationAlg_RsaSha256
from ccnpy.core.ValidationPayload import ValidationPayload
from ccnpy.crypto.AeadKey import AeadGcm, AeadCcm
from ccnpy.crypto.Crc32c import Crc32cSigner
from ccnpy.crypto.HpkeKdfIdentifiers import HpkeKdfIdentifiers
from ccnpy.crypto.InsecureKeystore import InsecureKeystore, KeyIdNotFoundError, KeyNumberNotFoundError
from ccnpy.crypto.RsaKey import RsaKey
from ccnpy.crypto.RsaSha256 import RsaSha256Signer
from ccnpy.flic.RsaOaepCtx.RsaOaepDecryptor import RsaOaepDecryptor
from ccnpy.flic.RsaOaepCtx.RsaOaepEncryptor import RsaOaepEncryptor
from ccnpy.flic.aeadctx.AeadEncryptor import AeadEncryptor
from ccnpy.flic.aeadctx.AeadParameters import AeadParameters
from ccnpy.flic.name_constructor.SchemaType import SchemaType
from ccnpy.flic.tlvs.HashGroup import HashGroup
from ccnpy.flic.tlvs.KdfInfo import KdfInfo
from ccnpy.flic.tlvs.KeyNumber import KeyNumber
from ccnpy.flic.tlvs.Manifest import Manifest
from ccnpy.flic.tlvs.Node import Node
from ccnpy.flic.tlvs.Pointers import Pointers
from ccnpy.flic.tlvs.RsaOaepCtx import RsaOaepCtx
from ccnpy.flic.tree.TreeIO import TreeIO

M32, M64 = 2 ** 32 - 1, 2 ** 64 - 1
class Args: pass
def args(**kw):
    """the parsed command line without options, and these"""
    a = Args()
    a.__dict__.update(key_file=None, key_pass=None, wrap_key=None, wrap_pass=None, enc_key=None, aes_mode='GCM', key_num=None, salt=None,
                      kdf_alg=None, kdf_info=None, kdf_uuid=False, kdf_salt=None)
    a.__dict__.update(kw)
    return a
def key_options(v, enc_key):
    n = v.choice('number', ['default', 'given'])
    return dict(enc_key=enc_key, aes_mode=v.choice('mode', ['GCM', 'CCM']), key_num=None if n == 'default' else KeyNumber(v.int('key number', 0, M64)),
                salt=v.int('salt', 0, M32) if v.bool('salted') else None)
def kdf_options(v):
    return dict(kdf_alg=v.choice('kdf', [None, HpkeKdfIdentifiers.HKDF_SHA256, HpkeKdfIdentifiers.HKDF_SHA384, HpkeKdfIdentifiers.HKDF_SHA512]),
                kdf_info=KdfInfo(v.bytes('info', 0, 20)) if v.bool('with info') else None, kdf_uuid=v.bool('uuid'))
def same_kdf(v, data, kdf):
    v.ensure('a KDF exactly when asked for', (data is None) == (kdf['kdf_alg'] is None))
    if data is not None:
        v.ensure('the KDF asked for', data.kdf_alg().value() == kdf['kdf_alg'].number)
        if kdf['kdf_uuid']: v.ensure('a UUID', len(data.kdf_info().value()) == 16)
        else:
            v.ensure('the info given', (data.kdf_info() is None) == (kdf['kdf_info'] is None))
            if kdf['kdf_info'] is not None: v.ensure('the info given', v.same_bytes(data.kdf_info().value(), kdf['kdf_info'].value()))
def enc_key(v, tag=''): return v.bytes('key' + tag, 16, 16) if v.bool('128 bits' + tag) else v.bytes('long key' + tag, 32, 32)
def node(v, tag=''): return Node(hash_groups=[HashGroup(pointers=Pointers([HashValue.create_sha256(v.array('h' + tag, 32, 32))]))])
def same_node(v, label, m, n): v.ensure(label, v.same_bytes(m.node().serialize(), n.serialize()))
def number(x): return x.value() if isinstance(x, KeyNumber) else x

class Files:
    """key files, data files and directories: real ones in a scratch directory, or the contract of loading a PEM file"""
    def __init__(self, v): self.v = v
    def __enter__(self):
        self.pems = {}
        if self.v.symbolic:
            # assumed: load_pem_key gives the key in the file, if the password is the one of the file
            def load(cls, filename, password=None):
                pem, needed = self.pems[filename]
                if (password or None) != needed: raise ValueError('password')
                return cls(pem)
            self.v.assumed(RsaKey, 'load_pem_key', classmethod(load))
        else:
            import tempfile
            self.d = tempfile.TemporaryDirectory(prefix='c21')
        return self
    def __exit__(self, *a):
        if not self.v.symbolic: self.d.cleanup()
    def path(self, name): return name if self.v.symbolic else os.path.join(self.d.name, name)
    def pem(self, name, text, password=None):
        f = self.path(name)
        if self.v.symbolic: self.pems[f] = (text, password)
        elif password is not None: RsaKey(text).save_private_key(f, password.encode())
        else:
            with open(f, 'wb') as o: o.write(text)
        return f

class patched:
    """the module's collaborator stands for its contract; for as long as the with block is natively, for the path symbolically"""
    def __init__(self, v, module, name, new): self.v, self.m, self.n, self.new = v, module, name, new
    def __enter__(self):
        if self.v.symbolic: self.v.assumed(self.m, self.n, self.new)
        else:
            self.old = getattr(self.m, self.n)
            setattr(self.m, self.n, self.new)
    def __exit__(self, *a):
        if not self.v.symbolic: setattr(self.m, self.n, self.old)

@contract('C21', 'content_key_options', ['cli_utils.aes_key_from_cli_args', 'cli_utils.aead_parameters_from_cli', 'cli_utils.key_number_from_cli_args', 'cli_utils.kdf_data_from_cli'], weight=2)
def content_key(v):
    k = enc_key(v)
    o = key_options(v, k)
    kdf = kdf_options(v)
    salt = v.int('kdf salt', 0, M32) if v.bool('kdf salted') else None
    p = cli_utils.aead_parameters_from_cli(args(**o, **kdf, kdf_salt=salt))
    v.ensure('the mode asked for', isinstance(p.key, AeadGcm if o['aes_mode'] == 'GCM' else AeadCcm))
    v.ensure('the key given', v.same_bytes(p.key.key(), k))
    v.ensure('the salt given', v.all((p.aead_salt is None) == (o['salt'] is None), True if o['salt'] is None else p.aead_salt == o['salt']))
    v.ensure('the salt of the KDF', v.all((p.kdf_salt is None) == (salt is None), True if salt is None else p.kdf_salt == salt))
    same_kdf(v, p.kdf_data, kdf)
    if o['key_num'] is not None: v.ensure('the key number given', number(p.key_number) == number(o['key_num']))
    else:
        # the reader and the writer agree on it, whatever other options they are given
        q = cli_utils.aead_parameters_from_cli(args(enc_key=k, aes_mode=v.choice('other mode', ['GCM', 'CCM'])))
        v.ensure('a number fit for the wire', v.all(number(p.key_number) >= 0, number(p.key_number) <= M64))
        v.ensure('the same for the same key', number(p.key_number) == number(q.key_number))

@contract('C21', 'no_content_key', ['cli_utils.aead_parameters_from_cli', 'cli_utils.aead_encryptor_from_cli_args', 'cli_utils.aead_decryptor_from_cli_args', 'cli_utils.encryptor_from_cli_args', 'cli_utils.rsa_signer_from_cli_args', 'cli_utils.rsa_verifier_from_cli_args', 'cli_utils.create_keystore'])
def no_key(v):
    a = args(salt=v.int('salt', 0, M32) if v.bool('salted') else None, key_num=KeyNumber(v.int('key number', 0, M64)) if v.bool('numbered') else None, aes_mode=v.choice('mode', ['GCM', 'CCM']), **kdf_options(v))
    v.ensure('no key', cli_utils.aes_key_from_cli_args(a) is None)
    for f in (cli_utils.aead_encryptor_from_cli_args, cli_utils.aead_decryptor_from_cli_args, cli_utils.encryptor_from_cli_args, cli_utils.rsa_signer_from_cli_args, cli_utils.rsa_verifier_from_cli_args):
        v.ensure('neither encrypted nor signed', f(a) is None)
    ks = cli_utils.create_keystore(a)
    v.raises('an empty keystore', (KeyNumberNotFoundError,), lambda: ks.get_aes_key(KeyNumber(v.int('asked', 0, M64))))
    for n in ('default', 'wrap'): v.raises('an empty keystore', (KeyIdNotFoundError,), lambda: ks.get_rsa(n))

@contract('C21', 'preshared_key', ['cli_utils.encryptor_from_cli_args', 'cli_utils.aead_encryptor_from_cli_args', 'cli_utils.aead_decryptor_from_cli_args', 'cli_utils.create_keystore', 'packet_utils.decrypt_manifest', 'packet_utils._get_aead_decryptor'], weight=3)
def preshared(v):
    k = enc_key(v)
    o = key_options(v, k)
    kdf = kdf_options(v)
    e = cli_utils.encryptor_from_cli_args(args(**o, **kdf))
    n = node(v)
    ctx, encrypted, tag = e.encrypt(n, include_wrapper=v.bool('root'))
    m = Manifest(security_ctx=ctx, node=encrypted, auth_tag=tag)
    v.ensure('encrypted', m.is_encrypted())
    mode = ctx.aead_data().mode()
    same_kdf(v, ctx.aead_data().kdf_data(), kdf)
    gcm, small = o['aes_mode'] == 'GCM', len(k) == 16
    v.ensure('the mode in the manifest', v.all(mode.is_aes_gcm_128() == (gcm and small), mode.is_aes_gcm_256() == (gcm and not small), mode.is_aes_ccm_128() == (not gcm and small), mode.is_aes_ccm_256() == (not gcm and not small)))
    reader = args(**o)
    ks = cli_utils.create_keystore(reader)
    same_node(v, 'the reader decrypts it', packet_utils.decrypt_manifest(ks, m), n)
    same_node(v, 'the decryptor for these options', cli_utils.aead_decryptor_from_cli_args(reader).decrypt_manifest(m), n)
    # another key, or none, never gives a manifest
    v.ensure('without the key', packet_utils.decrypt_manifest(InsecureKeystore(), m) is None)
    j = v.bytes('another key', 16, 16) if small else v.bytes('another long key', 32, 32)
    v.assume(v.neg(v.same_bytes(j, k)))
    other = dict(o)
    other.update(enc_key=j, key_num=KeyNumber(ctx.key_number().value()))
    v.ensure('with another key', packet_utils.decrypt_manifest(cli_utils.create_keystore(args(**other)), m) is None)
    if o['salt'] is not None:
        other.update(enc_key=k, salt=v.int('another salt', 0, M32))
        v.assume(other['salt'] != o['salt'])
        v.ensure('with another salt', packet_utils.decrypt_manifest(cli_utils.create_keystore(args(**other)), m) is None)

@contract('C21', 'plain_manifest', ['packet_utils.decrypt_manifest'])
def plain(v):
    m = Manifest(node=node(v))
    v.ensure('as it is', packet_utils.decrypt_manifest(InsecureKeystore(), m) is m)

@contract('C21', 'wrapped_key', ['cli_utils.encryptor_from_cli_args', 'cli_utils.rsa_oaep_encryptor_from_cli_args', 'cli_utils.create_keystore', 'packet_utils.decrypt_manifest', 'packet_utils._get_oaep_decryptor'], weight=3)
def wrapped(v):
    with Files(v) as fs:
        private, public = v.rsa_key('key', 'k0')
        password = v.choice('password', [None, 's3cret'])
        w = fs.pem('w.pub', public) if password is None else fs.pem('w', private, password)
        given = v.bool('key given')
        o = key_options(v, enc_key(v)) if given else {}
        kdf = kdf_options(v)
        e = cli_utils.encryptor_from_cli_args(args(wrap_key=w, wrap_pass=password, **o, **kdf))
        v.ensure('wrapped', isinstance(e, RsaOaepEncryptor))
        roots, child = node(v, '1'), node(v, '2')
        ks = cli_utils.create_keystore(args(wrap_key=fs.pem('w.pem', private, password), wrap_pass=password))
        d = RsaOaepDecryptor(ks)
        o_pub = fs.pem('w.pub', public)
        for i, n in enumerate((roots, child)):
            ctx, encrypted, tag = e.encrypt(n, include_wrapper=i == 0)
            m = Manifest(security_ctx=ctx, node=encrypted, auth_tag=tag)
            v.ensure('wrapped', isinstance(ctx, RsaOaepCtx))
            v.ensure('the key in the root only', (ctx.rsa_oaep_wrapper() is not None) == (i == 0))
            same_kdf(v, ctx.aead_data().kdf_data(), kdf)
            if given and o['key_num'] is not None: v.ensure('the number given', ctx.key_number().value() == o['key_num'].value())
            if i == 0: same_node(v, 'a reader with the private key', packet_utils.decrypt_manifest(ks, m), n)
            same_node(v, 'a reader with the private key', d.decrypt_manifest(m), n)
            # a reader without it
            got, x = v.outcome(lambda: packet_utils.decrypt_manifest(cli_utils.create_keystore(args(wrap_key=o_pub)), m), (ValueError, KeyIdNotFoundError, KeyNumberNotFoundError))
            v.ensure('not without the private key', got is None)
        if given and o['salt'] is not None:
            same_node(v, 'a reader with the content key', packet_utils.decrypt_manifest(cli_utils.create_keystore(args(**o)), m), child)

@contract('C21', 'keystore', ['cli_utils.create_keystore', 'cli_utils.rsa_signer_from_cli_args', 'cli_utils.rsa_verifier_from_cli_args', 'RsaKey.load_pem_key'], weight=2)
def keystore(v):
    with Files(v) as fs:
        a, o = args(), {}
        for dest, secret, label, k in (('key_file', 'key_pass', 'signing', 'k0'), ('wrap_key', 'wrap_pass', 'wrapping', 'k1')):
            if v.bool(label):
                part = v.choice(label + ' part', ['private', 'public', 'with password'])
                password = label if part == 'with password' else None
                a.__dict__.update({dest: fs.pem(label, v.rsa_key(label + ' key', k)[part == 'public'], password), secret: password})
        if v.bool('content'):
            o = key_options(v, v.bytes('key', 16, 16))
            a.__dict__.update(o)
        ks = cli_utils.create_keystore(a)
        for name, f, password in (('default', a.key_file, a.key_pass), ('wrap', a.wrap_key, a.wrap_pass)):
            if f is None: v.raises('no such key', (KeyIdNotFoundError,), lambda: ks.get_rsa(name))
            else:
                want = RsaKey.load_pem_key(f, password)
                for got in (ks.get_rsa(name), ks.get_rsa(want.keyid())):
                    v.ensure('the key in the file', v.all(got.keyid() == want.keyid(), got.has_private_key() == want.has_private_key()))
        if o:
            p = cli_utils.aead_parameters_from_cli(a)
            q = ks.get_aes_key(p.key_number)
            v.ensure('the content key', v.all(v.same_bytes(q.key.key(), o['enc_key']), number(q.key_number) == number(p.key_number), (q.aead_salt is None) == (o['salt'] is None)))
        if a.key_file is not None:
            private = RsaKey.load_pem_key(a.key_file, a.key_pass).has_private_key()
            verifier = cli_utils.rsa_verifier_from_cli_args(a)
            if not private: v.raises('a public key does not sign', (RuntimeError,), lambda: cli_utils.rsa_signer_from_cli_args(a))
            else:
                signer = cli_utils.rsa_signer_from_cli_args(a)
                v.ensure('the key in the file', signer.keyid() == RsaKey.load_pem_key(a.key_file, a.key_pass).keyid())
                text = v.array('text', 0, 40)
                alg = signer.validation_alg()
                v.ensure('signed and verified with it', verifier.verify(text, alg.serialize(), validation_payload=signer.sign(text, alg.serialize())) == True)

@contract('C21', 'passwords', ['cli_utils.fixup_key_password'])
def passwords(v):
    asked = []
    typed = [v.choice('typed 1', ['', 'one']), v.choice('typed 2', ['', 'two'])]
    class Prompt:
        @staticmethod
        def getpass(prompt=''):
            asked.append(prompt)
            return typed[len(asked) - 1]
    given = v.choice('password', [None, '', 'given']), v.choice('wrapping password', [None, '', 'given 2'])
    a = args(wrap_key=v.choice('wrapping key', [None, 'w.pem']), key_pass=given[0], wrap_pass=given[1])
    ask = v.bool('may ask')
    with patched(v, cli_utils, 'getpass', Prompt): cli_utils.fixup_key_password(a, ask_for_pass=ask)
    want = [given[0] is None and ask, given[1] is None and ask and a.wrap_key is not None]
    v.ensure('asked for what is needed and not given', len(asked) == sum(want))
    answers = iter([t or None for t in typed])
    v.ensure('the password given or typed', a.key_pass == (next(answers) if want[0] else given[0]))
    v.ensure('the wrapping password given or typed', a.wrap_pass == (next(answers) if want[1] else given[1]))

def signed(v, b, kind, keys):
    if kind == 'none': return Packet.create_content_object(b)
    s = Crc32cSigner() if kind == 'crc32c' else RsaSha256Signer(RsaKey(keys[0]))
    a = s.validation_alg()
    return Packet.create_signed_content_object(b, a, s.sign(b.serialize(), a.serialize()))
def body(v, tag=''):
    name = Name([NameComponent(1, v.bytes('name' + tag, 0, 9))]) if v.bool('named' + tag) else None
    if v.choice('body' + tag, ['data', 'manifest']) == 'manifest': return ContentObject.create_manifest(name=name, manifest=Manifest(node=node(v, tag)))
    return ContentObject.create_data(name=name, payload=Payload(v.array('payload' + tag, 0, 200)))

@contract('C21', 'validate_packet', ['packet_utils.validate_packet'], weight=2)
def validate(v):
    kind = v.choice('signature', ['none', 'crc32c', 'rsa'])
    keys = v.rsa_key('key', 'k0')
    p = signed(v, body(v), kind, keys)
    ks = InsecureKeystore().add_rsa_key('default', RsaKey(keys[1]))
    _, e = v.outcome(lambda: packet_utils.validate_packet(ks, p), (ValueError,))
    v.ensure('a valid packet', e is None)
    if kind == 'none': return
    q = Packet.create_signed_content_object(body(v, ' of another'), p.validation_alg(), p.validation_payload())
    v.assume(v.neg(v.same_bytes(q.body().serialize(), p.body().serialize())))
    if kind == 'crc32c': v.assume(v.neg(v.same_bytes(v.crc32c(v.cat(q.body().serialize(), p.validation_alg().serialize())), v.crc32c(v.cat(p.body().serialize(), p.validation_alg().serialize())))))
    v.raises('the signature of another body', (ValueError,), lambda: packet_utils.validate_packet(ks, q))
    x = v.array('another proof', 0, 256)
    v.assume(v.neg(v.same_bytes(x, p.validation_payload().payload())))
    if kind == 'crc32c': v.raises('another proof', (ValueError,), lambda: packet_utils.validate_packet(ks, Packet.create_signed_content_object(p.body(), p.validation_alg(), ValidationPayload(x))))

class Captured:
    pass
TIMES = [('2019-10-11T01:02:03+00:00', 1570755723000), ('2030-12-31T23:59:59.125+02:00', 1924984799125), ('1970-01-01T00:00:00.001+00:00', 1)]
TREE_OPTIONS = ['ManifestWriter.__init__', 'ManifestWriter._create_tree_options', 'ManifestWriter._parse_time', 'ManifestWriter.build', 'ManifestWriter._create_manifest_tree']
@contract('C21', 'tree_names', TREE_OPTIONS, weight=2)
def tree_names(v):
    given = lambda label, uri: v.choice(label, [None, uri])
    tree_options(v, dict(schema=v.choice('schema', ['Hashed', 'Prefix', 'Segmented']), name=v.choice('name', ['ccnx:/foo.com/object', 'ccnx:/a']), manifest_prefix=given('manifest prefix', 'ccnx:/m/p'), data_prefix=given('data prefix', 'ccnx:/dp'),
                         manifest_locator=given('manifest locator', 'ccnx:/m/l/3'), data_locator=given('data locator', 'ccnx:/dl')), [None, None, None], 'none')
@contract('C21', 'tree_options', TREE_OPTIONS, weight=2)
def tree_numbers(v):
    times = [v.choice(x, [None, t]) for x, t in zip(('root expiry', 'node expiry', 'data expiry'), TIMES)]
    tree_options(v, dict(schema='Segmented', name='ccnx:/a'), times, v.choice('encryption', ['none', 'preshared', 'wrapped']), v.int('degree', 2, 99) if v.bool('degree given') else None, v.bool('signed'))
def tree_options(v, names, times, how, degree=None, signs=False):
    with Files(v) as fs:
        a = args(manifest_prefix=None, data_prefix=None, manifest_locator=None, data_locator=None)
        a.__dict__.update(root_expiry=times[0] and times[0][0], node_expiry=times[1] and times[1][0], data_expiry=times[2] and times[2][0], max_size=v.int('size', 0, 70000), tree_degree=degree, filename=fs.path('data'))
        a.__dict__.update(names)
        schema = a.schema
        if signs: a.key_file = fs.pem('k', v.rsa_key('key', 'k0')[0])
        if how == 'preshared': a.enc_key = v.bytes('enc key', 16, 16)
        if how == 'wrapped': a.wrap_key = fs.pem('w', v.rsa_key('wrap key', 'k1')[1])
        content = v.bytes('content', 1, 20)
        built, root, out = Captured(), signed(v, body(v), 'none', None), object()
        class Building:
            """contract of ManifestTree: given the open file, the output and the options it builds the root"""
            def __init__(self, data_input=None, packet_output=None, tree_options=None, **kw):
                built.data, built.out, built.o = data_input.read(), packet_output, tree_options
            def build(self): return root
        if v.symbolic: v.opened({a.filename: content})
        else:
            with open(a.filename, 'wb') as f: f.write(content)
        with patched(v, manifest_writer, 'ManifestTree', Building):
            v.ensure('returns the root', manifest_writer.ManifestWriter(args=a, packet_writer=out).build() is root)
        o = built.o
        v.ensure('the file', v.same_bytes(built.data, content))
        v.ensure('the output', built.out is out)
        v.ensure('the schema', o.schema_type == {'Hashed': SchemaType.HASHED, 'Prefix': SchemaType.PREFIX, 'Segmented': SchemaType.SEGMENTED}[schema])
        def name(label, u, n):
            v.ensure(label, (n is None) == (u is None))
            if u is not None: v.ensure(label, bytes(n.serialize()) == wire_name(u))
        name('the name', a.name, o.name)
        name('the prefix of manifests', a.manifest_prefix, o.manifest_prefix)
        name('the prefix of data', a.data_prefix, o.data_prefix)
        for label, u, l in (('locators of manifests', a.manifest_locator, o.manifest_locators), ('locators of data', a.data_locator, o.data_locators)):
            v.ensure(label, (l is None) == (u is None))
            if u is not None:
                v.ensure(label, l.count() == 1)
                name(label, u, l[0].name())
        for label, t, x in zip(('root', 'manifests', 'data'), times, (o.root_expiry_time, o.manifest_expiry_time, o.data_expiry_time)):
            v.ensure('expiry of ' + label, (x is None) == (t is None))
            if t is not None: v.ensure('expiry of ' + label, x.milliseconds() == t[1])
        v.ensure('the size', o.max_packet_size == a.max_size)
        v.ensure('the degree', v.all((o.max_tree_degree is None) == (a.tree_degree is None), True if a.tree_degree is None else o.max_tree_degree == a.tree_degree))
        v.ensure('signed exactly when asked for', (o.signer is None) == (a.key_file is None))
        if a.key_file is not None: v.ensure('signed with the key', o.signer.keyid() == RsaKey(v.rsa_key('key', 'k0')[0]).keyid())
        v.ensure('encrypted exactly when asked for', {'none': o.manifest_encryptor is None, 'preshared': isinstance(o.manifest_encryptor, AeadEncryptor), 'wrapped': isinstance(o.manifest_encryptor, RsaOaepEncryptor)}[how])

def wire_name(uri):
    parts = [p.encode() for p in uri[len('ccnx:/'):].split('/')]
    value = b''.join(bytes([0, 1]) + len(p).to_bytes(2, 'big') + p for p in parts)
    return bytes([0, 0]) + len(value).to_bytes(2, 'big') + value

@contract('C21', 'reading', ['ManifestDirectoryReader.__init__', 'ManifestDirectoryReader.read', 'ManifestDirectoryReader._create_writer'], weight=1)
def reading(v):
    with Files(v) as fs:
        seen, ks = Captured(), InsecureKeystore()
        payloads = [v.array('payload', 0, 30) for _ in range(v.few('payloads', 0, 3, 5))]
        class Directory:
            def __init__(self, directory): self.directory = directory
        class Walking:
            """contract of Traversal (C14): it writes the payloads, in order"""
            def __init__(self, packet_input=None, data_writer=None, keystore=None, **kw): seen.input, seen.out, seen.keystore = packet_input, data_writer, keystore
            def traverse(self, root_name=None, hash_restriction=None):
                seen.name, seen.hash = root_name, hash_restriction
                for p in payloads: seen.out.write(p)
            def count(self): return len(payloads)
        h = HashValue.create_sha256(v.array('hash', 32, 32)) if v.bool('by hash') else None
        a = args(name='ccnx:/a/b', hash_restriction=h, in_dir=fs.path('store'), output_file_name=fs.path('out'))
        files = {}
        if v.symbolic: v.opened(files)
        with patched(v, TreeIO, 'PacketDirectoryReader', Directory), patched(v, manifest_reader, 'Traversal', Walking):
            manifest_reader.ManifestDirectoryReader(a, ks).read()
        v.ensure('the directory', seen.input.directory == a.in_dir)
        v.ensure('the keys', seen.keystore is ks)
        v.ensure('the root asked for', v.all(bytes(seen.name.serialize()) == wire_name(a.name), seen.hash is h))
        if v.symbolic: got = files[a.output_file_name]
        else:
            with open(a.output_file_name, 'rb') as f: got = f.read()
        v.ensure('the payloads in order, nothing else', v.same_bytes(got, v.cat(*payloads)))

# ---- whole runs of the tools, on files in a scratch directory
def tool(main, argv):
    """a run of the tool with this command line: None, or what made it fail"""
    import contextlib, io, logging, sys
    old = sys.argv
    logging.disable(logging.CRITICAL)
    try:
        sys.argv = ['tool'] + argv
        with contextlib.redirect_stdout(io.StringIO()) as o, contextlib.redirect_stderr(io.StringIO()): main()
        return None, o.getvalue()
    except SystemExit as e: return e, ''
    except Exception as e: return e, ''
    finally:
        sys.argv = old
        logging.disable(logging.NOTSET)
def hexa(v, b): return v.choice('0x', ['', '0x']) + bytes(b).hex()
def numeral(v, n): return v.choice('numeral', [str, hex])(n)
def packets_in(d):
    out = {}
    for f in sorted(os.listdir(d)):
        if not f.endswith('.link'):
            p = Packet.load(os.path.join(d, f))
            out[f] = p
    return out

@contract('C21', 'write_then_read', ['manifest_writer.run', 'manifest_reader.run', 'cli_utils.add_encryption_cli_args', 'cli_utils.fixup_key_password', 'cli_utils._str_to_array', 'ManifestWriter.build', 'ManifestDirectoryReader.read'], sym=False, bounded='native: files of up to 9000 bytes, packets of 700 to 1500 bytes, random options', weight=6)
def write_then_read(v):
    with Files(v) as fs:
        store = fs.path('store')
        os.mkdir(store)
        size = v.choice('file size', [1, 2, 300, 900, 2500, 9000])
        data = v.choice('content', [v.bytes('content', size, size), bytes(size), b'ab' * (size // 2 + 1)])
        with open(fs.path('data'), 'wb') as f: f.write(data)
        schema = v.choice('schema', ['Hashed', 'Prefix', 'Segmented'])
        name = v.choice('name', ['ccnx:/foo.com/object', 'ccnx:/a', 'ccnx:/a/b c/d'])
        limit = v.choice('limit', [700, 900, 1500])
        w = ['--schema', schema, '--name', name, '-s', str(limit), '-o', store]
        r = ['--name', name, '-i', store, '--output', fs.path('out')]
        if schema == 'Segmented': w += ['--manifest-prefix', v.choice('mp', ['ccnx:/m', name]), '--data-prefix', 'ccnx:/d/e']
        if schema == 'Hashed':
            if v.bool('ml'): w += ['--manifest-locator', 'ccnx:/m/loc']
            if v.bool('dl'): w += ['--data-locator', 'ccnx:/d/loc']
        if v.bool('degree'): w += ['-d', str(v.int('degree', 2, 7))]
        times = {}
        for what in ('root', 'node', 'data'):
            t = v.choice(what + ' expiry', [None] + TIMES)
            if t is not None:
                times[what] = t[1]
                w += ['--%s-expiry' % what, t[0]]
        signed = v.bool('signed')
        w_keys, r_keys = [], []
        private, public = v.rsa_key('key', 'k0')
        if signed:
            password = v.choice('password', [None, None, None, None, 's3cret'])
            w_keys += ['-k', fs.pem('k.pem', private, password), '-p', password or '']
            r_keys += ['-k', fs.pem('k.pub', public)]
        else: w_keys += ['-p', '']
        how = v.choice('encryption', ['none', 'preshared', 'wrapped', 'wrapped, key given'])
        content = []
        if how in ('preshared', 'wrapped, key given'):
            bits = v.choice('bits', [128, 256])
            k = v.bytes('enc key', bits // 8, bits // 8)
            content += ['--enc-key', hexa(v, k)]
            if v.bool('mode'): content += ['--aes-mode', v.choice('aes', ['GCM', 'CCM', 'ccm'])]
            if v.bool('number'): content += ['--key-num', numeral(v, v.int('key number', 0, M64))]
            if v.bool('salted'): content += ['--salt', numeral(v, v.int('salt', 0, M32))]
        w_keys += content
        if how != 'none' and v.bool('kdf'):
            w_keys += ['--kdf', v.choice('alg', ['hkdf-sha256', 'HKDF-SHA384', 'hkdf-sha512'])] + v.choice('info', [[], ['--kdf-uuid'], ['--kdf-info', 'abc']])
        wrapping = v.rsa_key('wrapping', 'k1')
        if how.startswith('wrapped'):
            w_keys += ['--wrap-key', fs.pem('w.pub', wrapping[1]), '--wrap-pass', '']
            secret = v.choice('wrapping password', [None, None, None, 'an0ther'])
            r_keys += ['--wrap-key', fs.pem('w.pem', wrapping[0], secret)] + (['--wrap-pass', secret] if secret else [])
        elif how == 'preshared': r_keys += content
        linked = v.bool('link')
        e, text = tool(manifest_writer.run, w + w_keys + (['--link'] if linked else []) + [fs.path('data')])
        # options that leave no room for two pointers in a manifest are refused
        if e is not None and isinstance(e, ValueError) and limit == 700 and signed and 'hashes/manifest' in str(e): return
        v.ensure('written', e is None)
        root = text.split('Root manifest hash')[1].split("0x")[1][:64]
        ps = packets_in(store)
        v.ensure('each packet under its hash', all(f == bytes(p.content_object_hash().value()).hex() for f, p in ps.items()))
        v.ensure('the root is there', root in ps)
        for f, p in ps.items():
            b = p.body()
            kind = 'root' if f == root else 'node' if b.is_manifest() else 'data'
            v.ensure('the size of a packet', kind == 'root' or len(p) <= limit)
            x = b.expiry_time()
            v.ensure('expiry of ' + kind, (x is None) == (kind not in times))
            if x is not None: v.ensure('expiry of ' + kind, x.milliseconds() == times[kind])
            if kind != 'data': v.ensure('encrypted exactly when asked for', Manifest.from_content_object(b).is_encrypted() == (how != 'none'))
        b = ps[root].body()
        v.ensure('the name of the root', bytes(b.name().serialize()) == wire_name(name))
        alg = ps[root].validation_alg()
        v.ensure('signed exactly when asked for', (alg is not None) == signed)
        if signed: v.ensure('signed with the key', alg.keyid() == RsaKey(public).keyid())
        how_asked = [] if linked and v.bool('by name') else ['--hash', hexa(v, bytes.fromhex(root))]
        e, _ = tool(manifest_reader.run, r + r_keys + how_asked)
        v.ensure('read', e is None)
        with open(fs.path('out'), 'rb') as f: got = f.read()
        v.ensure('the file', got == data)
        # other keys, or none, do not give the file, nor anything else
        if how != 'none' or signed:
            other = []
            if signed: other += v.choice('other signer', [[], ['-k', fs.path('k.pub')]])
            if how == 'preshared': other += v.choice('other content key', [[], ['--enc-key', 'ab' * len(k)] + content[2:]])
            if how.startswith('wrapped'): other += v.choice('other wrapping key', [[], ['--wrap-key', fs.pem('o.pem', v.rsa_key('wrapping', 'k2')[0])]])
            if other == r_keys: return
            e, _ = tool(manifest_reader.run, r + other + how_asked)
            with open(fs.path('out'), 'rb') as f: got = f.read()
            v.ensure('refused without the keys', e is not None and got == b'')
