"""Writes /verif/properties.jsonl (the hand-written list of properties)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [])))

p("C01","TLV framing: encode/decode are inverse and truncation is rejected",
 "For every 16-bit type and every value of 0 to 65535 bytes, an encoded TLV is exactly the big-endian type, the big-endian value length and the value bytes, and decoding it (with or without bytes following it) gives back the same type and value and nothing else. Decoding a buffer that ends before the 4-byte header or before the announced length is refused with the parse error. A composite value is the in-order concatenation of the encodings of its present members, and extending a TLV appends the other TLV's encoding to the value without changing either operand.",
 ["inputs"],"all types 0..65535, all values (content and length 0..65535), all trailing bytes, all truncation points, all member sequences",
 "Tests encode and decode half a dozen short literals; the length field, truncation and trailing-byte behaviour depends on values they never reach (lengths over 255, every cut point).",
 ["ccnpy/core/Tlv.py"],[("Tlv._serialize/deserialize/flatten/extend","ccnpy/core/Tlv.py")],["Tlv.serialize()","Tlv.deserialize()"])

p("C02","Integer codecs are inverse, big-endian and of the right width",
 "Every integer encoder (variable-length, 8/16/24/32/64-bit, and the TLV types that hold an integer) produces the big-endian bytes of the number in the advertised width - for the variable form the minimal of 1, 2, 3, 4 or 8 bytes - and reading the bytes back gives the same number. The big-endian reader is the base-256 value of any byte string, whatever its length. Fixed-width encoders whose range is checked refuse a number outside it instead of truncating it.",
 ["inputs"],"all numbers in the width (0..2^64-1), all byte strings of any length",
 "Tests sample a few numbers per width; carries at 2^8k boundaries and every other bit are not sampled.",
 ["ccnpy/core/Tlv.py","ccnpy/core/TlvType.py","ccnpy/flic/tlvs/SubtreeSize.py","ccnpy/flic/tlvs/LeafSize.py","ccnpy/flic/tlvs/StartSegmentId.py"],
 [("number_to_array, uintN_to_array, array_to_number","ccnpy/core/Tlv.py"),("IntegerTlvType","ccnpy/core/TlvType.py")])

p("C03","Equality and hashing of protocol values agree with the bytes on the wire",
 "Two TLVs are equal exactly when their wire encodings are identical: a different type, length or value byte makes them unequal, and a TLV is unequal to an object that is not a TLV. Equal TLVs and hash values have equal hashes, so they find each other in dictionaries and sets. For names, links, hash values and content objects, values built from the same parts compare equal, and values that differ in a part compare unequal.",
 ["inputs"],"all pairs of values of each type",
 "Tests compare a handful of equal pairs and almost no unequal pairs.",
 ["ccnpy/core/Tlv.py","ccnpy/core/HashValue.py","ccnpy/core/Name.py","ccnpy/core/Link.py","ccnpy/core/ContentObject.py"],
 [("__eq__/__hash__","ccnpy/core/Tlv.py"),("HashValue.__eq__/__hash__","ccnpy/core/HashValue.py"),("Name.__eq__","ccnpy/core/Name.py")])

p("C04","Names, links, hashes, payloads and content objects survive a wire round trip",
 "Serialising a name, link, hash value, key id, payload type, payload, expiry time, final chunk id or content object and parsing the bytes gives an equal object with every field - present or absent - carrying the value it was given. The bytes are the concatenation of the fields' TLVs in protocol order, with absent fields leaving no trace. Name operations (append a component, a chunk number or a manifest id, index, compare) keep all earlier components unchanged and in order.",
 ["inputs"],"all field values, all subsets of optional fields, names with any number of components",
 "Round-trip tests use one or two literal objects per class; the combinations of optional fields and component lists are unbounded.",
 ["ccnpy/core/Name.py","ccnpy/core/NameComponent.py","ccnpy/core/Link.py","ccnpy/core/HashValue.py","ccnpy/core/HashTlvType.py","ccnpy/core/ContentObject.py","ccnpy/core/PayloadType.py","ccnpy/core/FinalChunkId.py","ccnpy/core/ExpiryTime.py","ccnpy/core/Payload.py"],
 [("serialize/parse pairs","ccnpy/core"),("ContentObject.parse field dispatch","ccnpy/core/ContentObject.py")])

p("C05","Every FLIC manifest structure survives a wire round trip",
 "Serialising any manifest, node, node data, hash group, group data, pointer list, name-constructor definition, schema, locator, security context, AEAD or RSA-OAEP key context, or any of their leaf fields, and parsing the bytes gives an equal structure in which each field has the value it was given and each absent field is absent. Lists (pointers, hash groups, locators, definitions) keep every element in order. Parsing bytes and re-serialising them reproduces the bytes.",
 ["inputs"],"all field values, all subsets of optional fields, lists of any length, 12-byte header-independent nesting up to a complete manifest",
 "Tests check one literal encoding per class; mixed-up fields of the same type (for example the first and last segment), dropped optional fields and list handling need the general case.",
 ["ccnpy/flic/tlvs","ccnpy/flic/aeadctx/AeadData.py","ccnpy/flic/RsaOaepCtx/RsaOaepWrapper.py","ccnpy/core/TlvType.py"],
 [("parse/serialize of each TLV class","ccnpy/flic/tlvs"),("auto_parse/auto_value_parse","ccnpy/core/TlvType.py")])

p("C06","Packet framing: header fields, packet length and part boundaries are exact",
 "A packet is an 8-byte fixed header (version 1, packet type, big-endian total length, fields, header length) followed by the message body, the optional validation algorithm and the optional validation payload; the header's lengths equal the actual sizes. Parsing a serialised packet recovers each header field, the body, and the two validation parts when present, byte for byte. A header with another version, a header length or packet length under 8, or fewer than 8 bytes is refused.",
 ["inputs","configurations"],"all header field values, all bodies, all four combinations of validation parts",
 "Tests use a couple of literal packets, with one body each.",
 ["ccnpy/core/FixedHeader.py","ccnpy/core/Packet.py","ccnpy/core/ValidationAlg.py","ccnpy/core/ValidationPayload.py"],
 [("FixedHeader.serialize/deserialize","ccnpy/core/FixedHeader.py"),("Packet.deserialize/serialize","ccnpy/core/Packet.py")])

p("C07","Signatures and content hashes cover exactly the right bytes",
 "The content object hash of a packet is SHA-256 over everything after the fixed header (body, validation algorithm, validation payload) and changes if any of these bytes change. A signature or CRC is computed over the body followed by the validation algorithm, and validation accepts a packet exactly when its validation payload is the correct one for its own body and algorithm under the keystore's key: any altered body byte, algorithm byte, payload byte or signing key makes it fail. A packet built by a factory that was given a signer carries that signer's algorithm and a valid payload.",
 ["inputs","configurations"],"all bodies, keys, validation algorithm fields (key id, signature time present or absent) and single alterations",
 "Tests sign one literal and check that the unmodified packet validates; rejection of all modified packets is a universally quantified claim.",
 ["ccnpy/core/Packet.py","ccnpy/core/PacketValidator.py","ccnpy/crypto/Crc32c.py","ccnpy/crypto/RsaSha256.py","ccnpy/crypto/Signer.py","ccnpy/flic/ManifestFactory.py"],
 [("Packet.content_object_hash","ccnpy/core/Packet.py"),("PacketValidator","ccnpy/core/PacketValidator.py"),("sign/verify scope","ccnpy/crypto/RsaSha256.py, ccnpy/crypto/Crc32c.py")])

p("C08","Manifest encryption is reversible and authenticated",
 "Encrypting a manifest node under a preshared key or a wrapped key and decrypting it with the same key gives back the node, for every node, key size, salt, nonce and cipher mode (GCM and CCM). The ciphertext, the tag and the security context are authenticated: changing a byte of any of them, or using another key or salt, makes decryption fail with the decryption error instead of yielding a node. The nonce used is the salt followed by the nonce carried in the manifest, the manifest carries the key number and mode that were used, and unencrypted nodes pass through unchanged.",
 ["inputs","configurations"],"all nodes, keys of 128/192/256 bits, salts, nonces, modes, key numbers",
 "Tests encrypt and decrypt a few fixed nodes; tampering is barely sampled and fresh nonces make literal expectations impossible.",
 ["ccnpy/flic/aeadctx/AeadImpl.py","ccnpy/flic/aeadctx/AeadData.py","ccnpy/flic/aeadctx/AeadEncryptor.py","ccnpy/flic/aeadctx/AeadDecryptor.py","ccnpy/crypto/AeadKey.py"],
 [("AeadImpl.encrypt/decrypt","ccnpy/flic/aeadctx/AeadImpl.py"),("AeadGcm/AeadCcm","ccnpy/crypto/AeadKey.py")])

p("C09","RSA-OAEP wrapped keys unwrap to the same content key and salt",
 "Wrapping a content key and salt to an RSA public key and unwrapping it with the matching private key gives the same key, salt, key number and mode, for every key size, salt and key number. The wrapped message is bound to its context: unwrapping with a different key number, mode, key id or RSA key fails instead of producing a key. Only the root manifest's context carries the wrapped key; children refer to it by key number and decrypt with the content key learnt from the root.",
 ["inputs","configurations"],"all content keys (128/192/256 bits), salts, key numbers, modes, key locators, KDF identifiers",
 "Tests wrap one fixed key; label binding and field layout need all values, and wrapping is randomised.",
 ["ccnpy/flic/RsaOaepCtx/WrappedKey.py","ccnpy/flic/RsaOaepCtx/RsaOaepWrapper.py","ccnpy/flic/RsaOaepCtx/RsaOaepImpl.py","ccnpy/flic/RsaOaepCtx/RsaOaepEncryptor.py","ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py","ccnpy/flic/tlvs/RsaOaepCtx.py"],
 [("WrappedKey.create/decrypt","ccnpy/flic/RsaOaepCtx/WrappedKey.py"),("RsaOaepImpl.create","ccnpy/flic/RsaOaepCtx/RsaOaepImpl.py")])

p("C10","Hash group builders keep pointer order, respect capacity and account sizes",
 "A hash group builder or a pair of them holds exactly the pointers that were added: appended pointers in append order after the earlier ones, prepended pointers before them, direct and indirect ones never mixed up. It never accepts more pointers than its capacity allows, reports full exactly when no slot is left, and its direct, indirect and total sizes equal the sums over the pointers it holds. The node or groups built from it contain those pointers in that order with the matching sizes, start ids and name-constructor ids.",
 ["inputs","histories"],"all sequences of append, prepend, reserve and release operations of any length, all capacities and sizes",
 "Tests run one or two fixed operation sequences.",
 ["ccnpy/flic/HashGroupBuilder.py","ccnpy/flic/tree/HashGroupBuilderPair.py","ccnpy/flic/ManifestFactory.py"],
 [("HashGroupBuilder","ccnpy/flic/HashGroupBuilder.py"),("HashGroupBuilderPair","ccnpy/flic/tree/HashGroupBuilderPair.py")])

p("C11","The tree plan always has room for every chunk and wastes as little as possible",
 "For every number of data chunks and every number of pointers a manifest can hold, each planned split into direct and indirect pointers per node uses at most that many pointers, and the planned number of internal and leaf nodes has capacity for all chunks. The reported capacity, waste, node counts and height follow from the split: waste is never negative, and it equals capacity minus chunks. The chosen plan is one of the enumerated splits, with the stated optimisation order: least height and least waste among the candidates that satisfy its criterion.",
 ["inputs"],"all positive chunk counts and all pointer capacities of at least 2",
 "Tests compare a few (chunks, capacity) pairs; rounding and boundary cases are spread across the infinite domain.",
 ["ccnpy/flic/tree/TreeOptimizer.py","ccnpy/flic/tree/OptimizerResult.py"],
 [("TreeOptimizer","ccnpy/flic/tree/TreeOptimizer.py"),("OptimizerResult","ccnpy/flic/tree/OptimizerResult.py")])

p("C12","Manifest segment ids within one tree never collide",
 "When manifests are named by segment, each manifest packet built for a tree gets an id no other manifest of the tree has, and ids within one level are handed out consecutively in one direction so that a hash group's ids follow from its start id. The ids are non-negative integers and the ranges reserved for different levels do not overlap, for every tree height and fan-out. The ids reconstructed from the hash group's start id while reading equal the ids in the names under which the manifests were published.",
 ["inputs","configurations"],"all tree heights, all fan-outs, all numbers of manifests per level up to the level's capacity",
 "Tests build a few small trees; range overlap appears only for particular heights and fan-outs.",
 ["ccnpy/flic/tree/ManifestIdFactory.py","ccnpy/flic/tree/TreeBuilder.py"],
 [("ManifestIdFactory","ccnpy/flic/tree/ManifestIdFactory.py"),("TreeBuilder id assignment","ccnpy/flic/tree/TreeBuilder.py")])

p("C13","A built manifest tree refers to every data chunk exactly once, in order",
 "For every non-empty sequence of chunks, every chunk size and every pointer capacity, the tree built for it has exactly those chunks as its in-order leaves: none missing, repeated or reordered, and reading the tree returns the original bytes. Every pointer in the tree is the hash of a packet that was written, each manifest holds no more pointers than allowed, and each recorded subtree size is the number of application bytes reachable below it. This holds for every name-constructor scheme, with or without encryption.",
 ["inputs","configurations"],"all chunk counts, chunk sizes, tree fan-outs, naming schemes (hashed, prefix, segmented, combined), encryption off, preshared or RSA-OAEP",
 "Tests build a handful of trees with fixed sizes.",
 ["ccnpy/flic/tree/TreeBuilder.py","ccnpy/flic/ManifestTree.py","ccnpy/flic/tree/TreeOptimizer.py","ccnpy/flic/tree/FileChunks.py"],
 [("TreeBuilder.build/_bottom_up_preorder/_leaf_manifest","ccnpy/flic/tree/TreeBuilder.py")])

p("C14","Traversal reads pointers in order and only trusts verified, decrypted manifests",
 "Traversing a manifest tree delivers the payload of every data packet it points to, exactly in pre-order of the hash pointers, whatever the shape of the tree, the number of hash groups per manifest and the name constructors. Name-constructor definitions of a manifest apply to it and its descendants only, and a definition in a descendant replaces the inherited one there without affecting siblings. Each fetched packet is asked for by its hash (and by the constructed name, with segment ids counting up from the group's start), is signature-validated before it is used, and manifests are decrypted before their pointers are followed.",
 ["inputs","configurations","histories"],"all finite trees, all placements of definitions, all naming schemes",
 "Tests traverse trees from the builder and one or two hand-made ones; definitions re-declared below a sibling, several groups with mixed schemes and interior shapes are not sampled.",
 ["ccnpy/flic/tree/Traversal.py","ccnpy/flic/name_constructor/NameConstructorContext.py","ccnpy/flic/tlvs/Pointers.py","ccnpy/flic/tlvs/Manifest.py"],
 [("Traversal.preorder","ccnpy/flic/tree/Traversal.py"),("NameConstructorCache copy-on-update","ccnpy/flic/name_constructor/NameConstructorContext.py")])

p("C15","Chunking splits a file into named packets that reassemble to the same bytes",
 "Splitting a file yields content objects whose payloads concatenate to exactly the file's bytes, each except the last filled to the chosen payload size and none empty, with one packet per hash pointer in order. Names follow the scheme: unnamed for hash-addressed data, the same prefix for prefix-named data, and the prefix plus chunk numbers 0, 1, 2, ... in order for segmented data. The final chunk id, where the scheme carries it, is on the last chunk only and is its number; the optional expiry time is on every chunk.",
 ["inputs","configurations"],"all file contents and lengths, all payload sizes, all schemes",
 "Tests chunk one or two fixed buffers.",
 ["ccnpy/flic/name_constructor/SchemaImpl.py","ccnpy/flic/name_constructor/SegmentedSchemaImpl.py","ccnpy/flic/name_constructor/PrefixSchemaImpl.py","ccnpy/flic/name_constructor/HashSchemaImpl.py","ccnpy/flic/tree/FileChunks.py"],
 [("SchemaImpl.chunk_data","ccnpy/flic/name_constructor/SchemaImpl.py"),("FileChunks","ccnpy/flic/tree/FileChunks.py")])

p("C16","No data packet or non-root manifest exceeds the configured packet size",
 "Every data packet and every manifest other than the root that is produced for a tree serialises to at most the configured maximum packet size, whatever the names, expiry times, signature algorithm, encryption and naming scheme. The number of hash pointers planned per manifest is as large as this limit lets it be once room for the longest key, names, expiry and size fields that can occur in the tree is set aside. When not even two pointers fit, building is refused rather than producing oversized packets.",
 ["inputs","configurations"],"all name lengths, expiry settings, hash sizes, encryption and signature options, naming schemes and packet sizes",
 "Tests use default sizes in one or two configurations; the overhead changes with every option.",
 ["ccnpy/flic/tree/ManifestSizeCalculator.py","ccnpy/flic/name_constructor/SchemaImpl.py","ccnpy/flic/ManifestTree.py"],
 [("ManifestSizeCalculator","ccnpy/flic/tree/ManifestSizeCalculator.py"),("chunk payload size","ccnpy/flic/name_constructor/SchemaImpl.py")])

p("C17","Keystore and decryptor cache return exactly what was registered",
 "After any history of additions, looking up a key by its number, id or name returns the most recently added matching key or parameters - and reports the key as missing when none was added - without other entries being disturbed. A decryptor obtained for a manifest always matches the manifest's own key context, whatever was decrypted before, and a context whose key is not available never yields another context's decryptor. Unencrypted manifests need no decryptor.",
 ["histories","inputs"],"all sequences of additions, look-ups and decryptions, interleaving key numbers and RSA key ids",
 "Tests add one key and look it up; cache staleness needs multi-step histories.",
 ["ccnpy/crypto/InsecureKeystore.py","ccnpy/flic/tree/DecryptorCache.py"],
 [("InsecureKeystore","ccnpy/crypto/InsecureKeystore.py"),("DecryptorCache","ccnpy/flic/tree/DecryptorCache.py")])

p("C18","Packet stores return the packet whose hash and name were asked for, or fail",
 "After any history of writes, a memory or directory store asked for a hash restriction returns the packet that was stored with that hash, byte-identical, and raises an error if no such packet was stored; a named packet is returned only for its own name, and a look-up by name alone returns a packet of that name or fails. A packet is never returned whose hash differs from the requested one, whatever the files in the directory hold. Writing a packet does not change what earlier ones are retrieved as.",
 ["histories","inputs"],"all sequences of stores of distinct packets and look-ups with and without hash and name",
 "Tests write one tree and read it back.",
 ["ccnpy/flic/tree/TreeIO.py"],[("PacketMemoryWriter/Reader, PacketDirectoryWriter/Reader","ccnpy/flic/tree/TreeIO.py")])

p("C19","Strict parsing: duplicates, wrong types and short values are refused",
 "Parsing a structure refuses a TLV of another type, a repeated field where only one is allowed, a missing mandatory field and a value too short for its fixed part, instead of returning an object with missing or mixed-up fields. Unknown inner TLVs are skipped where the format says so, and then the known fields are recovered regardless of where the unknown ones stand. Fields are recovered independent of their relative order where the parser accepts any order.",
 ["inputs"],"all sequences of inner TLVs of any length, every position of unknown, duplicate, missing and truncated ones",
 "Tests parse well-formed literals and a few malformed ones.",
 ["ccnpy/core/TlvType.py","ccnpy/flic/tlvs","ccnpy/core/ContentObject.py"],
 [("auto_parse/auto_value_parse","ccnpy/core/TlvType.py"),("type checks in parse","ccnpy/core, ccnpy/flic/tlvs")])

p("C20","Timestamps keep millisecond precision through the wire and back",
 "An expiry or signature time built from any instant with millisecond precision carries exactly that many milliseconds since the epoch as a 64-bit big-endian number, and parsing it gives the same instant back; re-serialising a parsed time reproduces its bytes. Building from a date-time with a time zone, or from seconds, agrees on the same instant. Two such times compare equal exactly when they denote the same millisecond.",
 ["inputs"],"all millisecond instants from 1970 to beyond year 9000",
 "Tests check one or two instants; floating-point truncation loses a millisecond only for some of them (about one in eight before the repair).",
 ["ccnpy/core/Timestamp.py","ccnpy/core/ExpiryTime.py","ccnpy/core/SignatureTime.py"],
 [("Timestamp","ccnpy/core/Timestamp.py")])

p("C21","The command-line tools write and read back what their options say",
 "manifest_writer splits a file into a directory and manifest_reader, given the name or hash of the root and the matching keys, writes a byte-identical file with --output, for every file, naming scheme, prefixes and locators, packet size, degree and expiry times, signing key and password, and encryption: a pre-shared AES key in GCM or CCM with or without salt, key number (given, or the same default in every run for the same key) and KDF options, or a wrapped key. The packets carry what the options ask for: the name and signing key of the root, the expiry time of each kind of packet, encryption exactly when asked for and with the key, salt, number and mode given. With other keys or none, reading fails or gives no manifest and never other data; packet_utils accepts a packet only with the signature of its own body and decrypts a manifest only with its key.",
 ["inputs"],"all keys, salts, key numbers, KDF options, expiry choices and manifests; whole runs of the tools on sampled files and options",
 "Tests run the tools on one file with a handful of options and never both tools on the same directory.",
 ["ccnpy/apps/cli_utils.py","ccnpy/apps/manifest_writer.py","ccnpy/apps/manifest_reader.py","ccnpy/apps/packet_utils.py"],
 [("aead_parameters_from_cli, encryptor_from_cli_args, create_keystore","ccnpy/apps/cli_utils.py"),("ManifestWriter","ccnpy/apps/manifest_writer.py"),("ManifestDirectoryReader","ccnpy/apps/manifest_reader.py"),("validate_packet, decrypt_manifest","ccnpy/apps/packet_utils.py")])
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
