from pyvc_api import contract
import array
from ccnpy.core.HashValue import HashValue
from ccnpy.core.KeyId import KeyId
from ccnpy.core.Name import Name
from ccnpy.crypto.AeadKey import AeadGcm, AeadCcm
from ccnpy.crypto.InsecureKeystore import InsecureKeystore, KeyIdNotFoundError, KeyNumberNotFoundError
from ccnpy.crypto.RsaKey import RsaKey
from ccnpy.flic.aeadctx.AeadDecryptor import AeadDecryptor
from ccnpy.flic.aeadctx.AeadData import AeadData
from ccnpy.flic.aeadctx.AeadImpl import AeadImpl
from ccnpy.flic.aeadctx.AeadParameters import AeadParameters
from ccnpy.flic.RsaOaepCtx.RsaOaepImpl import RsaOaepImpl
from ccnpy.flic.RsaOaepCtx.RsaOaepWrapper import RsaOaepWrapper
from ccnpy.flic.RsaOaepCtx.WrappedKey import WrappedKey
from ccnpy.flic.tlvs.AeadCtx import AeadCtx
from ccnpy.flic.tlvs.AeadMode import AeadMode
from ccnpy.flic.tlvs.HashGroup import HashGroup
from ccnpy.flic.tlvs.KeyNumber import KeyNumber
from ccnpy.flic.tlvs.Manifest import Manifest
from ccnpy.flic.tlvs.Node import Node
from ccnpy.flic.tlvs.Nonce import Nonce
from ccnpy.flic.tlvs.Pointers import Pointers
from ccnpy.flic.tlvs.RsaOaepCtx import RsaOaepCtx
from ccnpy.flic.tree.DecryptorCache import DecryptorCache

M64 = 2 ** 64 - 1
CLS = {'gcm': AeadGcm, 'ccm': AeadCcm}
def params(v, kn=None, size=16):
    cls = CLS[v.choice('mode', ['gcm', 'ccm'])]
    return AeadParameters(key=cls(v.bytes('key', size, size)), key_number=v.int('key number', 0, M64) if kn is None else kn,
                          aead_salt=v.int('salt', 0, 2 ** 32 - 1))
def number(x): return x.value() if isinstance(x, KeyNumber) else x
def node(v, tag=''): return Node(hash_groups=[HashGroup(pointers=Pointers([HashValue.create_sha256(v.array('h' + tag, 32, 32))]))])

def latest(entries, q):
    for k, p in reversed(entries):
        if k == q: return p
    return None

@contract('C17', 'content_keys', ['InsecureKeystore.add_aes_key', 'InsecureKeystore.get_aes_key'], bounded='histories of up to 4 additions (any key numbers, any keys)', weight=2)
def aes(v):
    ks, entries = InsecureKeystore(), []
    for i in range(v.few('additions', 0, 4, 12)):
        p = params(v) if i < 2 else AeadParameters(key=None, key_number=v.int('key number', 0, M64))
        r = ks.add_aes_key(p)
        v.ensure('chained', r is ks)
        entries.append((number(p.key_number), p))
    q = v.int('asked', 0, M64)
    want = latest(entries, q)
    for turn in range(2):
        got, e = v.outcome(lambda: ks.get_aes_key(KeyNumber(q)), (KeyNumberNotFoundError,))
        v.ensure('the latest parameters with that number', got is want)
        v.ensure('missing only when none was added', (e is None) == (want is not None))

@contract('C17', 'content_keys_long', ['InsecureKeystore.add_aes_key', 'InsecureKeystore.get_aes_key'], bounded='random histories of 60 steps', sym=False)
def aes_long(v):
    ks, model = InsecureKeystore(), {}
    pool = [0, 1, 2, 255, 256, M64] + [v.int('pool', 0, M64) for _ in range(3)]
    for _ in range(60):
        q = v.choice('number', pool)
        if v.bool('add'):
            p = AeadParameters(key=None, key_number=q if v.bool('int') else KeyNumber(q), aead_salt=v.int('salt', 0, 9))
            ks.add_aes_key(p); model[q] = p
        got, e = v.outcome(lambda: ks.get_aes_key(KeyNumber(q)), (KeyNumberNotFoundError,))
        v.ensure('the latest parameters with that number', got is model.get(q))
        v.ensure('reported missing', (e is None) == (q in model))

@contract('C17', 'rsa_keys', ['InsecureKeystore.add_rsa_key', 'InsecureKeystore.get_rsa', 'InsecureKeystore.get_rsa_pub_key'], bounded='histories of up to 3 additions of 3 keys under 3 names', weight=3)
def rsa(v):
    pems = {k: v.rsa_key('rsa ' + k, k) for k in ('k0', 'k1', 'k2')}
    ids = {k: RsaKey(pems[k][1]).keyid() for k in pems}
    ks, hist = InsecureKeystore(), []
    for i in range(v.few('additions', 0, 3, 8)):
        which = v.choice('which', ['k0', 'k1'])
        key = RsaKey(pems[which][1 if i and v.bool('public') else 0])
        name = v.choice('name', ['a', 'b'])
        v.ensure('chained', ks.add_rsa_key(name, key) is ks)
        hist.append((name, which, key))
    for name in ('a', 'b', 'nobody'):
        want = latest([(n, k) for n, w, k in hist], name)
        got, e = v.outcome(lambda: ks.get_rsa(name), (KeyIdNotFoundError,))
        v.ensure('by name', got is want)
        v.ensure('name missing only when none was added', (e is None) == (want is not None))
    for which in pems:
        want = latest([(w, k) for n, w, k in hist], which)
        for look in (ids[which], KeyId(ids[which])):
            got, e = v.outcome(lambda: ks.get_rsa(look), (KeyIdNotFoundError,))
            v.ensure('by key id', got is want)
            v.ensure('key id missing only when none was added', (e is None) == (want is not None))
        got, e = v.outcome(lambda: ks.get_rsa_pub_key(ids[which]), (KeyIdNotFoundError,))
        v.ensure('public key by key id', got is want)
        v.ensure('public key missing only when none was added', (e is None) == (want is not None))

@contract('C17', 'kinds_do_not_disturb', ['InsecureKeystore.add_aes_key', 'InsecureKeystore.add_rsa_key'])
def kinds(v):
    key = RsaKey(v.rsa_key('rsa', 'k0')[0])
    p, q = params(v), v.int('asked', 0, M64)
    v.assume(v.neg(number(p.key_number) == q))
    ks = InsecureKeystore().add_aes_key(p).add_rsa_key('a', key)
    v.ensure('parameters there', ks.get_aes_key(KeyNumber(number(p.key_number))) is p)
    v.ensure('key there', ks.get_rsa('a') is key)
    v.raises('other number', KeyNumberNotFoundError, lambda: ks.get_aes_key(KeyNumber(q)))
    v.raises('other name', KeyIdNotFoundError, lambda: ks.get_rsa('b'))
    other = RsaKey(v.rsa_key('rsa', 'k1')[1]).keyid()
    v.raises('other key id', KeyIdNotFoundError, lambda: ks.get_rsa(KeyId(other)))
    v.raises('other public key', KeyIdNotFoundError, lambda: ks.get_rsa_pub_key(other))

MISSING = object()
def look(fn):
    try: return fn()
    except (KeyIdNotFoundError, KeyNumberNotFoundError): return MISSING

@contract('C17', 'any_history', ['InsecureKeystore.add_aes_key', 'InsecureKeystore.get_aes_key', 'InsecureKeystore.add_rsa_key', 'InsecureKeystore.get_rsa', 'InsecureKeystore.get_rsa_pub_key'],
          native=False, weight=2, tags=('inductive',))
def any_history(v):
    """one step from an arbitrary keystore: with the empty keystore (content_keys, rsa_keys) this covers every history"""
    ks = InsecureKeystore()
    v.fits(ks, '_asymmetric_by_name', '_asymmetric_by_keyid', '_symmetric_by_keynum')
    other = v.rsa_key('rsa other', 'k2')[0]
    named = v.any_map(lambda k: RsaKey(other), 'name there', lambda k: isinstance(k, str))
    known = v.any_map(lambda k: RsaKey(other), 'key id there', lambda k: isinstance(k, HashValue))
    numbers = v.any_map(lambda k: AeadParameters(key=None, key_number=k), 'number there', lambda k: isinstance(k, int))
    v.put(ks, '_asymmetric_by_name', named); v.put(ks, '_asymmetric_by_keyid', known); v.put(ks, '_symmetric_by_keynum', numbers)
    pems = {k: v.rsa_key('rsa ' + k, k) for k in ('k0', 'k1')}
    ids = {k: RsaKey(pems[k][1]).keyid() for k in pems}
    q = v.int('asked', 0, M64)
    def see():
        asked = [('number', lambda: ks.get_aes_key(KeyNumber(q))), ('name', lambda: ks.get_rsa('a')), ('key id', lambda: ks.get_rsa(KeyId(ids['k0']))),
                 ('digest', lambda: ks.get_rsa(ids['k0'])), ('public', lambda: ks.get_rsa_pub_key(ids['k0']))]
        return {k: look(f) for k, f in asked}
    want = see()
    v.ensure('one key per key id', v.all(want['key id'] is want['digest'], want['digest'] is want['public']))
    v.ensure('asking again', v.all(*[x is want[k] for k, x in see().items()]))
    step = v.choice('step', ['content key', 'rsa key', 'other look-ups'])
    if step == 'content key':
        p = AeadParameters(key=None, key_number=v.int('key number', 0, M64), aead_salt=v.int('salt', 0, 2 ** 32 - 1))
        v.ensure('chained', ks.add_aes_key(p) is ks)
        if number(p.key_number) == q: want['number'] = p
    elif step == 'rsa key':
        which, name = v.choice('which', ['k0', 'k1']), v.choice('name', ['a', 'b'])
        key = RsaKey(pems[which][1 if v.bool('public') else 0])
        v.ensure('chained', ks.add_rsa_key(name, key) is ks)
        if name == 'a': want['name'] = key
        if which == 'k0': want['key id'] = want['digest'] = want['public'] = key
    else:
        look(lambda: ks.get_aes_key(KeyNumber(v.int('other number', 0, M64))))
        look(lambda: ks.get_rsa('c')); look(lambda: ks.get_rsa(KeyId(ids['k1']))); look(lambda: ks.get_rsa_pub_key(ids['k1']))
    for k, x in see().items(): v.ensure('the latest by ' + k, x is want[k])
    v.fits(ks, '_asymmetric_by_name', '_asymmetric_by_keyid', '_symmetric_by_keynum')
    v.ensure('kinds are kept apart', all(isinstance(k, str) for k, _ in ks._asymmetric_by_name.known()) and all(isinstance(k, HashValue) for k, _ in ks._asymmetric_by_keyid.known())
             and v.all(*[isinstance(k, int) for k, _ in ks._symmetric_by_keynum.known()]))

def decrypts(v, cache, manifest, plain, label):
    d = cache.get_or_create(manifest.security_ctx())
    m = d.decrypt_manifest(manifest)
    v.ensure(label, v.same_bytes(m.node().serialize(), plain.serialize()))

@contract('C17', 'decryptor_of_the_context', ['DecryptorCache.get_or_create', 'DecryptorCache._create'], bounded='histories of 3 requests over 2 preshared keys (any key numbers)', weight=4)
def decryptors(v):
    p1 = params(v)
    kn2 = v.int('second number', 0, M64)
    v.assume(v.neg(kn2 == number(p1.key_number)))
    p2 = params(v, kn2)
    ks = InsecureKeystore().add_aes_key(p1).add_aes_key(p2)
    missing = v.int('unknown number', 0, M64)
    v.assume(v.neg(v.any(missing == kn2, missing == number(p1.key_number))))
    cache = DecryptorCache(ks)
    n1, n2 = node(v, '1'), node(v, '2')
    m1, m2 = AeadImpl(p1).create_encrypted_manifest(n1), AeadImpl(p2).create_encrypted_manifest(n2)
    if v.bool('off the wire'): m1, m2 = Manifest.deserialize(m1.serialize()), Manifest.deserialize(m2.serialize())
    stray = AeadCtx(AeadData(KeyNumber(missing), Nonce(v.array('nonce', 8, 8)), AeadMode.create_aes_gcm_128()))
    for _ in range(v.few('requests', 3, 3, 8)):
        what = v.choice('request', ['first', 'second', 'unknown'])
        if what == 'first': decrypts(v, cache, m1, n1, "decrypts the first key's manifest")
        elif what == 'second': decrypts(v, cache, m2, n2, "decrypts the second key's manifest")
        else: v.raises('no decryptor for an unknown key', KeyNumberNotFoundError, lambda: cache.get_or_create(stray))

CACHE = ('_keystore', '_last_key_num', '_last_decryptor', '_oaep_decryptor')
@contract('C17', 'any_cache', ['DecryptorCache.get_or_create', 'DecryptorCache._create'], native=False, weight=2, tags=('inductive',))
def any_cache(v):
    """one request to a cache in any state: it remembers a decryptor of the number it remembers, or none"""
    kns = [v.int('number', 0, M64) for _ in range(3)]
    v.assume(v.all(v.neg(kns[0] == kns[1]), v.neg(kns[0] == kns[2]), v.neg(kns[1] == kns[2])))
    p1, p2 = params(v, kns[0]), params(v, kns[1])
    ks = InsecureKeystore().add_aes_key(p1).add_aes_key(p2)
    cache = DecryptorCache(ks)
    v.fits(cache, *CACHE)
    last = v.choice('remembered', ['none', 'first', 'another'])
    if last != 'none':
        p = p1 if last == 'first' else AeadParameters(key=AeadGcm(v.bytes('another key', 16, 16)), key_number=v.int('another number', 0, M64))
        if last == 'another':
            k = number(p.key_number)
            v.assume(v.neg(v.any(k == kns[0], k == kns[1], k == kns[2])))
        v.put(cache, '_last_key_num', p.key_number); v.put(cache, '_last_decryptor', AeadDecryptor(p))
    n1, n2 = node(v, '1'), node(v, '2')
    m1, m2 = AeadImpl(p1).create_encrypted_manifest(n1), AeadImpl(p2).create_encrypted_manifest(n2)
    what = v.choice('request', ['first', 'second', 'unknown'])
    if what == 'first': decrypts(v, cache, m1, n1, "decrypts the first key's manifest")
    elif what == 'second': decrypts(v, cache, m2, n2, "decrypts the second key's manifest")
    else:
        stray = AeadCtx(AeadData(KeyNumber(kns[2]), Nonce(v.array('nonce', 8, 8)), AeadMode.create_aes_gcm_128()))
        v.raises('no decryptor for an unknown key', KeyNumberNotFoundError, lambda: cache.get_or_create(stray))
    v.fits(cache, *CACHE)
    k = cache._last_key_num
    if k is None: v.ensure('remembers nothing', last == 'none')
    else:
        k = number(k)
        for kn, m, n in ((kns[0], m1, n1), (kns[1], m2, n2)):
            if k == kn: v.ensure('the decryptor of the number', v.same_bytes(cache._last_decryptor.decrypt_manifest(m).node().serialize(), n.serialize()))
        v.ensure('never of an unknown number', v.neg(k == kns[2]))

@contract('C17', 'decryptor_after_key_arrives', ['DecryptorCache.get_or_create', 'InsecureKeystore.add_aes_key'])
def late(v):
    p, ks = params(v), InsecureKeystore()
    n = node(v)
    m = AeadImpl(p).create_encrypted_manifest(n)
    cache = DecryptorCache(ks)
    for _ in range(v.small('early requests', 0, 2)):
        v.raises('not there yet', KeyNumberNotFoundError, lambda: cache.get_or_create(m.security_ctx()))
    ks.add_aes_key(p)
    decrypts(v, cache, m, n, 'decrypts once the key is there')
    decrypts(v, cache, m, n, 'and again')

def wrapped(v, p, which):
    key = RsaKey(v.rsa_key('rsa', which)[0])
    wrapper = RsaOaepWrapper.create_sha256(key_id=KeyId(key.keyid()), wrapped_key=WrappedKey.create(key, p))
    return key, RsaOaepImpl(wrapper=wrapper, aead_params=p)

def wrapped_keys(v, first):
    kns = [v.int('number', 0, M64) for _ in range(3)]
    v.assume(v.all(v.neg(kns[0] == kns[1]), v.neg(kns[0] == kns[2]), v.neg(kns[1] == kns[2])))
    p1, p2, p3 = (AeadParameters(key=AeadGcm(v.bytes('key', 16, 16)), key_number=kn, aead_salt=v.int('salt', 0, 2 ** 32 - 1)) for kn in kns)
    k1, i1 = wrapped(v, p1, 'k0')
    k2, i2 = wrapped(v, p2, 'k1' if v.bool('two rsa keys') else 'k0')
    ks = InsecureKeystore().add_rsa_key('one', k1).add_rsa_key('two', k2).add_aes_key(p3)
    n = [node(v, str(i)) for i in range(4)]
    root1, root2 = i1.create_encrypted_manifest(n[0], True), i2.create_encrypted_manifest(n[1], True)
    child1, plain3 = i1.create_encrypted_manifest(n[2], False), AeadImpl(p3).create_encrypted_manifest(n[3])
    cache, known = DecryptorCache(ks), False
    for i in range(v.few('requests', 3, 3, 8)):
        what = v.choice('request', ['root 1', 'root 2', 'child 1', 'preshared']) if i else first
        if what == 'root 1': decrypts(v, cache, root1, n[0], 'first root'); known = True
        elif what == 'root 2': decrypts(v, cache, root2, n[1], 'second root')
        elif what == 'preshared': decrypts(v, cache, plain3, n[3], 'preshared key')
        elif known: decrypts(v, cache, child1, n[2], 'child under the key learnt from its root')
        else:
            r, e = v.outcome(lambda: cache.get_or_create(child1.security_ctx()).decrypt_manifest(child1), (Exception,))
            v.ensure('a child before its root is not decrypted', e is not None)

def register(first):
    @contract('C17', 'wrapped_decryptors_' + first.replace(' ', '_'), ['DecryptorCache.get_or_create', 'DecryptorCache._create', 'RsaOaepDecryptor._get_impl'],
              bounded='histories of 3 requests over 2 wrapped keys, a preshared key and an unknown one', weight=4)
    def wrapped_first(v): wrapped_keys(v, first)
for first in ('root 1', 'root 2', 'child 1', 'preshared'): register(first)

@contract('C17', 'any_wrapped_cache', ['DecryptorCache.get_or_create', 'RsaOaepDecryptor._get_impl', 'RsaOaepImpl.create'], native=False, weight=3, tags=('inductive',))
def any_wrapped_cache(v):
    """one request to a cache in any state: the content keys learnt so far are in the keystore, and what is remembered of
    a key number is its key"""
    kns = [v.int('number', 0, M64) for _ in range(2)]
    v.assume(v.neg(kns[0] == kns[1]))
    ps = [AeadParameters(key=AeadGcm(v.bytes('key', 16, 16)), key_number=kn, aead_salt=v.int('salt', 0, 2 ** 32 - 1)) for kn in kns]
    one = v.bool('one rsa key')
    ki = [wrapped(v, ps[0], 'k0'), wrapped(v, ps[1], 'k0' if one else 'k1')]
    ks = InsecureKeystore().add_rsa_key('one', ki[0][0]).add_rsa_key('two', ki[1][0])
    learnt = [v.bool('learnt'), v.bool('learnt')]
    for p, l in zip(ps, learnt):
        if l: ks.add_aes_key(p)
    cache = DecryptorCache(ks)
    v.fits(cache, *CACHE)
    inner = cache._oaep_decryptor
    v.fits(inner, '_keystore', '_cache'); v.fits(inner._cache, 'cache')
    def of(k):
        for i in range(2):
            if number(k[1]) == kns[i]: return i
        return None
    def there(k):
        if not isinstance(k, tuple) or len(k) != 2: return False
        i = of(k)
        return i is not None and learnt[i]
    v.put(inner._cache, 'cache', v.any_map(lambda k: RsaOaepImpl(wrapper=ki[of(k)][1]._wrapper if k[0] is not None else None, aead_params=ps[of(k)]), 'remembered', there))
    n = [node(v, str(i)) for i in range(2)]
    i = v.choice('which', [0, 1])
    root, child = ki[i][1].create_encrypted_manifest(n[0], True), ki[i][1].create_encrypted_manifest(n[1], False)
    if v.bool('root'):
        decrypts(v, cache, root, n[0], 'a root decrypts')
        learnt[i] = True
    else:
        if learnt[i]: decrypts(v, cache, child, n[1], 'a child under a key that was learnt')
        else:
            r, e = v.outcome(lambda: cache.get_or_create(child.security_ctx()).decrypt_manifest(child), (Exception,))
            v.ensure('a child before its root is not decrypted', e is not None)
    v.ensure('no other state', cache._last_key_num is None and cache._last_decryptor is None)
    for j in range(2):
        p = look(lambda: ks.get_aes_key(KeyNumber(kns[j])))
        v.ensure('learnt from roots only', (p is not MISSING) == learnt[j])
        if p is not MISSING:
            v.ensure('the very key', v.all(v.same_bytes(p.key.key(), ps[j].key.key()), number(p.key_number) == kns[j]))
            v.ensure('and its salt', p.aead_salt == ps[j].aead_salt)
    for k, impl in inner._cache.cache.known():
        j = of(k)
        v.ensure('remembers what was learnt', j is not None and learnt[j])
        m = root if j == i else ki[j][1].create_encrypted_manifest(n[0], False)
        v.ensure('the key of the number', v.same_bytes(impl.decrypt_manifest(m).node().serialize(), n[0].serialize()))

@contract('C17', 'wrapped_key_arrives', ['RsaOaepDecryptor._get_impl', 'RsaOaepImpl.create'])
def wrapped_late(v):
    p, ks = AeadParameters(key=AeadGcm(v.bytes('key', 16, 16)), key_number=v.int('number', 0, M64), aead_salt=v.int('salt', 0, 2 ** 32 - 1)), InsecureKeystore()
    key, impl = wrapped(v, p, 'k0')
    n = node(v)
    root = impl.create_encrypted_manifest(n, True)
    ks.add_rsa_key('other', RsaKey(v.rsa_key('rsa', 'k1')[0]))
    cache = DecryptorCache(ks)
    for _ in range(v.small('early requests', 0, 2)):
        v.raises('not there yet', KeyIdNotFoundError, lambda: cache.get_or_create(root.security_ctx()).decrypt_manifest(root))
    if v.bool('public only'):
        ks.add_rsa_key('one', RsaKey(v.rsa_key('rsa', 'k0')[1]))
        r, e = v.outcome(lambda: cache.get_or_create(root.security_ctx()).decrypt_manifest(root), (Exception,))
        v.ensure('a public key does not decrypt', e is not None)
    ks.add_rsa_key('one', key)
    decrypts(v, cache, root, n, 'decrypts once the key is there')
    decrypts(v, cache, root, n, 'and again')

@contract('C17', 'unencrypted', ['DecryptorCache.get_or_create', 'Manifest.is_encrypted'])
def unencrypted(v):
    n = node(v)
    m = Manifest(node=n)
    if v.bool('off the wire'): m = Manifest.deserialize(m.serialize())
    v.ensure('needs no decryptor', v.neg(m.is_encrypted()))
    v.ensure('its node is there', v.same_bytes(m.node().serialize(), n.serialize()))
