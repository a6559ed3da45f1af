From c31ad895550bd42d562872383b9413819ee0b659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:35 +0000
Subject: [PATCH 01/38] fix: reading a packet by name through its link object
 raised NameError

---
 ccnpy/flic/tree/TreeIO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccnpy/flic/tree/TreeIO.py b/ccnpy/flic/tree/TreeIO.py
index 95b86dd..a2c3898 100755
--- a/ccnpy/flic/tree/TreeIO.py
+++ b/ccnpy/flic/tree/TreeIO.py
@@ -268,9 +268,9 @@ class TreeIO:
                 link = Link.deserialize(p.body().payload().value())
                 hash_path = self.to_path(link.digest())
                 packet = Packet.load(hash_path)
-                print(f"Dereferenced link {filename} to load packet {packet.content_object_hash()}")
+                print(f"Dereferenced link {link_path} to load packet {packet.content_object_hash()}")
                 return packet
-            raise FileNotFoundError(f'Could not find link {filename}')
+            raise FileNotFoundError(f'Could not find link {link_path}')
 
         def close(self):
             pass
-- 
2.43.0


From 242ebe0930906054dedddcdcf44403170e5ec210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:42 +0000
Subject: [PATCH 02/38] fix: RsaOaepDecryptor.decrypt_node called the security
 context instead of passing it

---
 ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py b/ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py
index a3e34c7..3ba9161 100755
--- a/ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py
+++ b/ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py
@@ -55,5 +55,5 @@ class RsaOaepDecryptor(ManifestDecryptor):
         return impl.decrypt_manifest(manifest)
 
     def decrypt_node(self, security_ctx, encrypted_node, auth_tag):
-        impl = self._get_impl(security_ctx=security_ctx())
+        impl = self._get_impl(security_ctx=security_ctx)
         return impl.decrypt_node(security_ctx, encrypted_node, auth_tag)
-- 
2.43.0


From 129d1e4c2800da611a5bb2d4e90a31214890560a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:03 +0000
Subject: [PATCH 03/38] fix: Tlv equality ignored the TLV type and the byte
 container, and disagreed with its hash

---
 ccnpy/core/Tlv.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/ccnpy/core/Tlv.py b/ccnpy/core/Tlv.py
index 918c9ee..fff8b2d 100755
--- a/ccnpy/core/Tlv.py
+++ b/ccnpy/core/Tlv.py
@@ -94,12 +94,9 @@ class Tlv(Serializable):
         return output
 
     def __eq__(self, other):
-        result = False
-        if len(self) == len(other):
-            if self.value() == other.value():
-                result = True
-
-        return result
+        if not isinstance(other, Tlv):
+            return False
+        return self._wire_format == other._wire_format
 
     def __hash__(self):
         return hash(self._wire_format.tobytes())
-- 
2.43.0


From b69f61400f8a8cf1be492723eda248c3252ff28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:10 +0000
Subject: [PATCH 04/38] fix: Timestamp lost a millisecond when re-encoding a
 parsed time

---
 ccnpy/core/Timestamp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/core/Timestamp.py b/ccnpy/core/Timestamp.py
index d6c2f12..1878b6b 100755
--- a/ccnpy/core/Timestamp.py
+++ b/ccnpy/core/Timestamp.py
@@ -75,7 +75,7 @@ class Timestamp(TlvType, ABC):
         Python timestamp in milliseconds as integer
         :return:
         """
-        msec = int(self.timestamp() * 1000)
+        msec = round(self.timestamp() * 1000)
         return msec
 
     def datetime(self):
-- 
2.43.0


From 6dfc9f3ac94b395542b63f73aed059efc0d955ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:16 +0000
Subject: [PATCH 05/38] fix: Vendor.parse accepted a value too short to hold
 the PEN

---
 ccnpy/flic/tlvs/Vendor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/flic/tlvs/Vendor.py b/ccnpy/flic/tlvs/Vendor.py
index 49a312c..32c10cc 100644
--- a/ccnpy/flic/tlvs/Vendor.py
+++ b/ccnpy/flic/tlvs/Vendor.py
@@ -67,7 +67,7 @@ class Vendor(TlvType):
         if tlv.type() != cls.class_type():
             raise CannotParseError("Incorrect TLV type %r" % tlv.type())
 
-        if len(tlv) < 3:
+        if tlv.length() < 3:
             raise ValueError("A Vendor TLV must have a 3-byte PEN")
 
         pen = Tlv.array_to_number(tlv.value()[0:3])
-- 
2.43.0


From 370cbffb9403da527b2cf1476443777d1603c707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:24 +0000
Subject: [PATCH 06/38] fix: ManifestFactory.build_packet ignored the signer it
 was given

---
 ccnpy/flic/ManifestFactory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccnpy/flic/ManifestFactory.py b/ccnpy/flic/ManifestFactory.py
index 92e3fa0..c22a52b 100755
--- a/ccnpy/flic/ManifestFactory.py
+++ b/ccnpy/flic/ManifestFactory.py
@@ -99,8 +99,8 @@ class ManifestFactory:
                                           expiry_time=expiry_time)
 
         if signer is not None:
-            validation_alg = self._tree_options.signer.validation_alg()
-            validation_payload = self._tree_options.signer.sign(body.serialize(), validation_alg.serialize())
+            validation_alg = signer.validation_alg()
+            validation_payload = signer.sign(body.serialize(), validation_alg.serialize())
             packet = Packet.create_signed_content_object(body, validation_alg, validation_payload)
         else:
             packet = Packet.create_content_object(body)
-- 
2.43.0


From afd712696b5734915c28fd398e99c44f97ae706d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:31 +0000
Subject: [PATCH 07/38] fix: SegmentedSchemaImpl.get_next_name raised TypeError

---
 ccnpy/flic/name_constructor/SegmentedSchemaImpl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccnpy/flic/name_constructor/SegmentedSchemaImpl.py b/ccnpy/flic/name_constructor/SegmentedSchemaImpl.py
index 5d50812..8dcc016 100644
--- a/ccnpy/flic/name_constructor/SegmentedSchemaImpl.py
+++ b/ccnpy/flic/name_constructor/SegmentedSchemaImpl.py
@@ -46,11 +46,11 @@ class SegmentedSchemaImpl(SchemaImpl):
     def __repr__(self):
         return f'SegmentedImpl(name={self._name}, nc_id={self._nc_id}, schema={self._schema})'
 
-    def get_name(self, suffix_id) -> Optional[Name]:
+    def get_name(self, chunk_id) -> Optional[Name]:
         """
         HashSchema always uses nameless objects
         """
-        return self._name.append(self._suffix_type.create_name_component(suffix_id))
+        return self._name.append(self._suffix_type.create_name_component(chunk_id))
 
     def nc_id(self) -> NcId:
         return self._nc_id
-- 
2.43.0


From b7b46a84c755948bf77c59a152b6969ac3b1611e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:37 +0000
Subject: [PATCH 08/38] fix: manifest ids of tall trees were rounded through
 floating point

---
 ccnpy/flic/tree/ManifestIdFactory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/flic/tree/ManifestIdFactory.py b/ccnpy/flic/tree/ManifestIdFactory.py
index 107c70f..626a0a3 100644
--- a/ccnpy/flic/tree/ManifestIdFactory.py
+++ b/ccnpy/flic/tree/ManifestIdFactory.py
@@ -36,7 +36,7 @@ class ManifestIdFactory:
         if self._tree_degree == 1:
             return h
         assert self._tree_degree > 1
-        return int((pow(self._tree_degree, (h+1))-1) / (self._tree_degree-1) - 1)
+        return (pow(self._tree_degree, (h+1))-1) // (self._tree_degree-1) - 1
 
     def get_next_id(self, height) -> int:
         next_id = self._next_ids[height]
-- 
2.43.0


From 4aa4e815b18f6243dd9365f1395da72076e6b76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:26 +0000
Subject: [PATCH 09/38] fix: DecryptorCache returned a stale or wrong decryptor
 for a key number

---
 ccnpy/flic/tree/DecryptorCache.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ccnpy/flic/tree/DecryptorCache.py b/ccnpy/flic/tree/DecryptorCache.py
index bb120b9..4c1cc0d 100644
--- a/ccnpy/flic/tree/DecryptorCache.py
+++ b/ccnpy/flic/tree/DecryptorCache.py
@@ -36,13 +36,18 @@ class DecryptorCache:
         self._oaep_decryptor = RsaOaepDecryptor(keystore=self._keystore)
 
     def get_or_create(self, security_ctx: AeadSecurityCtx):
-        # TODO: This is not correct for RsaOaep, as it uses (keyid, keynum) pair as index
+        # RsaOaepDecryptor has its own cache, indexed by the (keyid, keynum) pair
+        if isinstance(security_ctx, RsaOaepCtx):
+            return self._create(security_ctx)
+
         key_num = security_ctx.key_number()
         if key_num == self._last_key_num:
             return self._last_decryptor
+        # only remember the key number once we have a decryptor for it
+        decryptor = self._create(security_ctx)
         self._last_key_num = key_num
-        self._last_decryptor = self._create(security_ctx)
-        return self._last_decryptor
+        self._last_decryptor = decryptor
+        return decryptor
 
     def _create(self, security_ctx: AeadSecurityCtx) -> ManifestDecryptor:
         # TODO: implement for RsaOaep too
-- 
2.43.0


From 17d9c2fcd301bfe4b2f20aabea8fc0ba55b33bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:33 +0000
Subject: [PATCH 10/38] fix: the root manifest pointed at manifest id 0 even if
 the top manifest has another id

---
 ccnpy/flic/ManifestTree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ccnpy/flic/ManifestTree.py b/ccnpy/flic/ManifestTree.py
index 6c7b3f1..6f3a6d9 100755
--- a/ccnpy/flic/ManifestTree.py
+++ b/ccnpy/flic/ManifestTree.py
@@ -102,9 +102,11 @@ class ManifestTree:
         """
         ptr = Pointers([top_manifest_packet.content_object_hash()])
 
-        # if the top manifest is SegmentedSchema, we need to include the fact that the chunk_id is 0
+        # if the top manifest is SegmentedSchema, we need to include its manifest id, which is the last
+        # component of its name.  It is not always 0, because the tree could be shorter than estimated.
         if self._name_ctx.manifest_schema_impl.uses_name_id():
-            start_segment_id=StartSegmentId(0)
+            top_name = top_manifest_packet.body().name()
+            start_segment_id=StartSegmentId(top_name.component(top_name.count() - 1).value_as_number())
         else:
             start_segment_id=None
 
-- 
2.43.0


From 6ae380c5588e8a1a5374d57e782c48d9e6c868e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:40 +0000
Subject: [PATCH 11/38] fix: the start segment id of a leaf manifest depended
 on the manifest schema, not the data schema

---
 ccnpy/flic/tree/TreeBuilder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ccnpy/flic/tree/TreeBuilder.py b/ccnpy/flic/tree/TreeBuilder.py
index 5d9f6a3..7c84797 100755
--- a/ccnpy/flic/tree/TreeBuilder.py
+++ b/ccnpy/flic/tree/TreeBuilder.py
@@ -312,7 +312,8 @@ class TreeBuilder:
                 return self._interior_manifest(segment=segment, level=level, right_most_child=right_most_child)
 
     def _get_start_segment_id(self, head: int) -> Optional[StartSegmentId]:
-        if self._name_ctx.manifest_schema_impl.uses_name_id():
+        # this is for a hash group of direct pointers, so it depends on the data schema
+        if self._name_ctx.data_schema_impl.uses_name_id():
             return StartSegmentId(self._file_metadata[head].chunk_number)
         else:
             return None
-- 
2.43.0


From 8874dcb329cec8e5bca0ee531a2523bbb877845a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:47 +0000
Subject: [PATCH 12/38] fix: Pad.parse raised TypeError for every input

---
 ccnpy/core/Pad.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ccnpy/core/Pad.py b/ccnpy/core/Pad.py
index 8f60b27..ce784e8 100755
--- a/ccnpy/core/Pad.py
+++ b/ccnpy/core/Pad.py
@@ -40,8 +40,10 @@ class Pad(OctetTlvType):
 
     @classmethod
     def parse(cls, tlv):
-        result = super().parse(tlv)
-        for b in result.value_bytes():
+        if tlv.type() != cls.class_type():
+            raise CannotParseError("Incorrect TLV type %r" % tlv.type())
+
+        for b in tlv.value():
             if b != 0:
-                raise ValueError(f'The value of a PAD must all be 0s, got: {result.value()}')
-        return result
+                raise ValueError(f'The value of a PAD must all be 0s, got: {tlv.value()}')
+        return cls(tlv.length())
-- 
2.43.0


From 5b69874aa0c3e39db4c7ffdfe185448bfbcc2e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:51 +0000
Subject: [PATCH 13/38] fix: sized, named or expiring manifests could exceed
 max_packet_size

---
 ccnpy/flic/tree/ManifestSizeCalculator.py | 32 ++++++++++++++++++-----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/ccnpy/flic/tree/ManifestSizeCalculator.py b/ccnpy/flic/tree/ManifestSizeCalculator.py
index 9213860..1a471d6 100644
--- a/ccnpy/flic/tree/ManifestSizeCalculator.py
+++ b/ccnpy/flic/tree/ManifestSizeCalculator.py
@@ -72,6 +72,10 @@ class ManifestSizeCalculator:
                 "A filled manifest packet is %r bytes with %r hashes, a hash is %r bytes, and exceeds max_size %r" %
                 (length, num_hashes, hash_value_len, self._max_packet_size))
 
+        # A manifest in the tree could also have a name, an expiry time, and sizes up to the file size.
+        largest_packet = self._build_manifest_packet(2, hv, reserve_all=True)
+        num_hashes = min(num_hashes, 2 + (self._max_packet_size - len(largest_packet)) // hash_value_len)
+
         #print("calculate_max_pointers = %r in length %r, actual length %r" % (num_hashes, max_packet_size, length))
 
         if num_hashes < 2:
@@ -80,13 +84,27 @@ class ManifestSizeCalculator:
                              "  Minimum packet_size is %r" % (self._max_packet_size, num_hashes, min_packet_size))
         return num_hashes
 
-    def _build_manifest_packet(self, num_hashes, hv):
+    def _build_manifest_packet(self, num_hashes, hv, reserve_all=False):
         # Arbitrary choise, we put n-1 into direct and 1 into indirect
         hgb = HashGroupBuilderPair(name_ctx=self._name_ctx, max_direct = num_hashes -1, max_indirect=1)
 
+        direct_size = indirect_size = 0
+        include_leaf_size = include_subtree_size = True
+        name = expiry_time = None
+        if reserve_all:
+            tree_options = self._manifest_factory.tree_options()
+            direct_size = self._total_bytes
+            if self._name_ctx.hash_group_count() == 2:
+                indirect_size = self._total_bytes
+            include_leaf_size = tree_options.add_group_leaf_size
+            include_subtree_size = tree_options.add_group_subtree_size
+            name = self._name_ctx.manifest_schema_impl.get_name(self.__MAX_MANIFEST_ID)
+            expiry_time = tree_options.manifest_expiry_time
+
         for hv in (num_hashes -1) * [hv]:
-            hgb.prepend_direct(hv)
-        hgb.prepend_indirect(hv)
+            hgb.prepend_direct(hv, direct_size)
+            direct_size = 0
+        hgb.prepend_indirect(hv, indirect_size)
         if self._name_ctx.manifest_schema_impl.uses_name_id():
             indirect_start_segment_id = StartSegmentId(self.__MAX_MANIFEST_ID)
         else:
@@ -98,13 +116,15 @@ class ManifestSizeCalculator:
             direct_start_segment_id = None
 
         # include_leaf_size and include_subtree_size might reserve too much space if we do not use those.
-        hash_groups = hgb.hash_groups(include_leaf_size=True,
-                                      include_subtree_size=True,
+        hash_groups = hgb.hash_groups(include_leaf_size=include_leaf_size,
+                                      include_subtree_size=include_subtree_size,
                                       indirect_start_segment_id=indirect_start_segment_id,
                                       direct_start_segment_id=direct_start_segment_id)
 
         packet = self._manifest_factory.build_packet(source=hash_groups,
-                                               node_subtree_size=self._total_bytes)
+                                               node_subtree_size=self._total_bytes,
+                                               name=name,
+                                               expiry_time=expiry_time)
 
         return packet
 
-- 
2.43.0


From 1d80b8249a62b011d7486c5fbdf967ac8b5d943e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:13 +0000
Subject: [PATCH 14/38] fix: PacketDirectoryReader returned packets that do not
 match the requested hash

---
 ccnpy/flic/tree/TreeIO.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ccnpy/flic/tree/TreeIO.py b/ccnpy/flic/tree/TreeIO.py
index a2c3898..6c0233f 100755
--- a/ccnpy/flic/tree/TreeIO.py
+++ b/ccnpy/flic/tree/TreeIO.py
@@ -239,13 +239,19 @@ class TreeIO:
                 return self._get_by_name(name)
 
             # ccnx does not use forwarding hint
-            path = self.to_path(hash_restriction)
-            p = Packet.load(path)
+            p = self._load_by_hash(hash_restriction)
             if p.body().name() is not None:
                 if name != p.body().name():
                     raise ValueError(f'Found packet hash {hash_restriction}, but request name {name} does not match packet {p.body().name()}')
             return p
 
+        def _load_by_hash(self, hash_value: HashValue) -> Packet:
+            packet = Packet.load(self.to_path(hash_value))
+            # the file could have been modified or not be the right packet
+            if packet.content_object_hash() != hash_value:
+                raise ValueError(f'Packet hash {packet.content_object_hash()} does not match the requested hash {hash_value}')
+            return packet
+
         def _get_by_name(self, name: Name) -> Packet:
             """
             Try fetching a link with that name, otherwise search the directory
@@ -266,8 +272,7 @@ class TreeIO:
             # TODO: we should validate p, but that needs a keystore
             if p.body().is_link():
                 link = Link.deserialize(p.body().payload().value())
-                hash_path = self.to_path(link.digest())
-                packet = Packet.load(hash_path)
+                packet = self._load_by_hash(link.digest())
                 print(f"Dereferenced link {link_path} to load packet {packet.content_object_hash()}")
                 return packet
             raise FileNotFoundError(f'Could not find link {link_path}')
-- 
2.43.0


From b5ca691aefc8f5ef5a945a2d95bb9911372bbf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:21 +0000
Subject: [PATCH 15/38] fix: decrypt_manifest raised AttributeError if the
 keystore did not have the key

---
 ccnpy/apps/packet_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ccnpy/apps/packet_utils.py b/ccnpy/apps/packet_utils.py
index 92c0909..4393f4e 100644
--- a/ccnpy/apps/packet_utils.py
+++ b/ccnpy/apps/packet_utils.py
@@ -80,6 +80,9 @@ def decrypt_manifest(keystore: InsecureKeystore, manifest: Manifest) -> Manifest
         print(f"Unsupported encryption mode: {security_ctx}")
         return None
 
+    if decryptor is None:
+        return None
+
     try:
         return decryptor.decrypt_manifest(manifest)
     except DecryptionError as e:
-- 
2.43.0


From 4976b9284d68c478ff448d55d1c928fa3c782330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:28 +0000
Subject: [PATCH 16/38] fix: wrapping or unwrapping a key raised AttributeError
 for a KDF without KdfInfo

---
 ccnpy/flic/RsaOaepCtx/WrappedKey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/flic/RsaOaepCtx/WrappedKey.py b/ccnpy/flic/RsaOaepCtx/WrappedKey.py
index c02b684..6f4b7fe 100644
--- a/ccnpy/flic/RsaOaepCtx/WrappedKey.py
+++ b/ccnpy/flic/RsaOaepCtx/WrappedKey.py
@@ -37,7 +37,7 @@ class WrappedKey(OctetTlvType):
     def _create_label(key_number: KeyNumber, mode: AeadMode,
                       kdf_data: Optional[KdfData], key_id: KeyId, hash_alg: HashAlg):
 
-        if kdf_data is not None:
+        if kdf_data is not None and kdf_data.kdf_info() is not None:
             kdf_bytes = kdf_data.kdf_info().serialize().tobytes()
         else:
             kdf_bytes = b''
-- 
2.43.0


From 2891dbfa95346f4b5fb0b7eabdef1854cb92e385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:49 +0000
Subject: [PATCH 17/38] fix: equal Links compared unequal after one of them had
 been iterated

---
 ccnpy/core/Link.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ccnpy/core/Link.py b/ccnpy/core/Link.py
index 7a34c96..b698cf1 100755
--- a/ccnpy/core/Link.py
+++ b/ccnpy/core/Link.py
@@ -69,7 +69,10 @@ class Link:
             self._wire_format.extend(Tlv(self.__T_OBJHASHRESTR, self._digest).serialize())
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        if not isinstance(other, Link):
+            return False
+        # The iteration offset is not part of the value
+        return (self._name, self._keyid, self._digest) == (other._name, other._keyid, other._digest)
 
     def __repr__(self):
         return "Link(%r, %r, %r)" % (self._name, self._keyid, self._digest)
-- 
2.43.0


From 5acdd15ecd69d8011e75f845f8e05273f53dd42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:57 +0000
Subject: [PATCH 18/38] fix: equal Pointers compared unequal after one of them
 had been iterated

---
 ccnpy/flic/tlvs/Pointers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ccnpy/flic/tlvs/Pointers.py b/ccnpy/flic/tlvs/Pointers.py
index 5648b84..d2fe3a6 100755
--- a/ccnpy/flic/tlvs/Pointers.py
+++ b/ccnpy/flic/tlvs/Pointers.py
@@ -51,7 +51,10 @@ class Pointers(TlvType):
         return len(self._hash_values)
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        if not isinstance(other, Pointers):
+            return False
+        # The iteration offset is not part of the value
+        return self._hash_values == other._hash_values
 
     def __repr__(self):
         return "Ptrs: %r" % self._hash_values
-- 
2.43.0


From bd85b11223a67ca29d42cff100d8c4b905de4347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:04 +0000
Subject: [PATCH 19/38] fix: comparing objects raised AttributeError if only
 one of them has an optional field

---
 ccnpy/core/Name.py                     | 2 ++
 ccnpy/core/PayloadType.py              | 2 ++
 ccnpy/core/Timestamp.py                | 2 ++
 ccnpy/core/ValidationAlg.py            | 2 ++
 ccnpy/core/ValidationPayload.py        | 2 ++
 ccnpy/flic/tlvs/GroupData.py           | 2 ++
 ccnpy/flic/tlvs/Locators.py            | 2 ++
 ccnpy/flic/tlvs/NodeData.py            | 2 ++
 ccnpy/flic/tlvs/SuffixComponentType.py | 2 ++
 9 files changed, 18 insertions(+)

diff --git a/ccnpy/core/Name.py b/ccnpy/core/Name.py
index ee1fb81..89f5572 100755
--- a/ccnpy/core/Name.py
+++ b/ccnpy/core/Name.py
@@ -95,6 +95,8 @@ class Name(TlvType):
         return len(self._tlv)
 
     def __eq__(self, other):
+        if not isinstance(other, Name):
+            return False
         return self.__dict__ == other.__dict__
 
     def __str__(self):
diff --git a/ccnpy/core/PayloadType.py b/ccnpy/core/PayloadType.py
index c984e5b..1224a73 100755
--- a/ccnpy/core/PayloadType.py
+++ b/ccnpy/core/PayloadType.py
@@ -50,6 +50,8 @@ class PayloadType(TlvType):
         return "PLDTYP: %r" % self.__to_string()
 
     def __eq__(self, other):
+        if not isinstance(other, PayloadType):
+            return False
         return self.__dict__ == other.__dict__
 
     @classmethod
diff --git a/ccnpy/core/Timestamp.py b/ccnpy/core/Timestamp.py
index 1878b6b..af2f684 100755
--- a/ccnpy/core/Timestamp.py
+++ b/ccnpy/core/Timestamp.py
@@ -40,6 +40,8 @@ class Timestamp(TlvType, ABC):
         self._wire_format = self._tlv.serialize()
 
     def __eq__(self, other):
+        if not isinstance(other, Timestamp):
+            return False
         return self.timestamp() == other.timestamp()
 
     def __repr__(self):
diff --git a/ccnpy/core/ValidationAlg.py b/ccnpy/core/ValidationAlg.py
index b3468ef..a3726dd 100755
--- a/ccnpy/core/ValidationAlg.py
+++ b/ccnpy/core/ValidationAlg.py
@@ -76,6 +76,8 @@ class ValidationAlg_Crc32c(ValidationAlg):
                               Tlv(self.class_type(), []))
 
     def __eq__(self, other):
+        if not isinstance(other, ValidationAlg_Crc32c):
+            return False
         return self.__dict__ == other.__dict__
 
     def __len__(self):
diff --git a/ccnpy/core/ValidationPayload.py b/ccnpy/core/ValidationPayload.py
index 42e3fec..5f373a2 100755
--- a/ccnpy/core/ValidationPayload.py
+++ b/ccnpy/core/ValidationPayload.py
@@ -31,6 +31,8 @@ class ValidationPayload(TlvType):
         self._tlv = Tlv(self.class_type(), self._payload)
 
     def __eq__(self, other):
+        if not isinstance(other, ValidationPayload):
+            return False
         return self.payload() == other.payload()
 
     def __repr__(self):
diff --git a/ccnpy/flic/tlvs/GroupData.py b/ccnpy/flic/tlvs/GroupData.py
index 8a18be9..bc97379 100755
--- a/ccnpy/flic/tlvs/GroupData.py
+++ b/ccnpy/flic/tlvs/GroupData.py
@@ -76,6 +76,8 @@ class GroupData(TlvType):
         return len(self._tlv)
 
     def __eq__(self, other):
+        if not isinstance(other, GroupData):
+            return False
         return self.__dict__ == other.__dict__
 
     def __repr__(self):
diff --git a/ccnpy/flic/tlvs/Locators.py b/ccnpy/flic/tlvs/Locators.py
index 3316d38..8a4becc 100755
--- a/ccnpy/flic/tlvs/Locators.py
+++ b/ccnpy/flic/tlvs/Locators.py
@@ -69,6 +69,8 @@ class Locators(TlvType):
         return len(self._tlv)
 
     def __eq__(self, other):
+        if not isinstance(other, Locators):
+            return False
         if self.__dict__ == other.__dict__:
             return True
         return False
diff --git a/ccnpy/flic/tlvs/NodeData.py b/ccnpy/flic/tlvs/NodeData.py
index c28e789..86c0ebb 100755
--- a/ccnpy/flic/tlvs/NodeData.py
+++ b/ccnpy/flic/tlvs/NodeData.py
@@ -95,6 +95,8 @@ class NodeData(TlvType):
         return len(self._tlv)
 
     def __eq__(self, other):
+        if not isinstance(other, NodeData):
+            return False
         return self.__dict__ == other.__dict__
 
     def __repr__(self):
diff --git a/ccnpy/flic/tlvs/SuffixComponentType.py b/ccnpy/flic/tlvs/SuffixComponentType.py
index 0ebbec4..50543b4 100755
--- a/ccnpy/flic/tlvs/SuffixComponentType.py
+++ b/ccnpy/flic/tlvs/SuffixComponentType.py
@@ -43,6 +43,8 @@ class SuffixComponentType(TlvType):
         return "LeafSize: %02X" % self._value
 
     def __eq__(self, other):
+        if not isinstance(other, SuffixComponentType):
+            return False
         return self.__dict__ == other.__dict__
 
     def value(self):
-- 
2.43.0


From aac00bec2744b030fba7c74d526fc447e67360aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:14 +0000
Subject: [PATCH 20/38] fix: a name constructor schema with protocol flags
 could not be built

---
 ccnpy/flic/tlvs/NcSchema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/flic/tlvs/NcSchema.py b/ccnpy/flic/tlvs/NcSchema.py
index 0ef9bb4..a314096 100644
--- a/ccnpy/flic/tlvs/NcSchema.py
+++ b/ccnpy/flic/tlvs/NcSchema.py
@@ -55,7 +55,7 @@ class ProtocolFlagsSchema(NcSchema, ABC):
     def __init__(self, flags: Optional[ProtocolFlags] = None):
         self._flags = flags
         super().__init__()
-        self._tlv = Tlv(self.class_type(), self._flags)
+        self._tlv = Tlv(self.class_type(), [self._flags])
 
     def __len__(self):
         return len(self._tlv)
-- 
2.43.0


From b0c82faf2d3ccc690492e9b4e43e1b47348041fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:22 +0000
Subject: [PATCH 21/38] fix: minimize_waste_min_height failed if every solution
 is higher than 2**32 - 1

---
 ccnpy/flic/tree/TreeOptimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/flic/tree/TreeOptimizer.py b/ccnpy/flic/tree/TreeOptimizer.py
index d5750f5..d7079f2 100755
--- a/ccnpy/flic/tree/TreeOptimizer.py
+++ b/ccnpy/flic/tree/TreeOptimizer.py
@@ -145,7 +145,7 @@ class TreeOptimizer:
         """
         solutions = self.minimize_waste()
         print(solutions)
-        min_height = 0xFFFFFFFF
+        min_height = math.inf
         min_solution = None
         for s in solutions:
             if s.tree_height() < min_height:
-- 
2.43.0


From 13aef9fe5c6c855622ad3ff101a4aea7ce24fb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:15 +0000
Subject: [PATCH 22/38] fix: parsing a manifest with two authentication tags
 kept the last one instead of refusing it

---
 ccnpy/flic/tlvs/Manifest.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ccnpy/flic/tlvs/Manifest.py b/ccnpy/flic/tlvs/Manifest.py
index 2302a41..3ac903b 100755
--- a/ccnpy/flic/tlvs/Manifest.py
+++ b/ccnpy/flic/tlvs/Manifest.py
@@ -100,6 +100,7 @@ class Manifest:
                 assert node is None
                 node = EncryptedNode.parse(tlv)
             elif tlv.type() == AuthTag.class_type():
+                assert auth_tag is None
                 auth_tag = AuthTag.parse(tlv)
             else:
                 raise ValueError("Unsupported TLV %r" % tlv)
-- 
2.43.0


From bead642c088000edccee83f48fe65b1cf5886e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:21 +0000
Subject: [PATCH 23/38] fix: parsing an RSA validation algorithm with two key
 ids or signature times kept the last one instead of refusing it

---
 ccnpy/core/ValidationAlg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ccnpy/core/ValidationAlg.py b/ccnpy/core/ValidationAlg.py
index a3726dd..3b60341 100755
--- a/ccnpy/core/ValidationAlg.py
+++ b/ccnpy/core/ValidationAlg.py
@@ -186,9 +186,11 @@ class ValidationAlg_RsaSha256(ValidationAlg):
         while offset < tlv.length():
             inner_tlv = Tlv.deserialize(tlv.value()[offset:])
             if inner_tlv.type() == KeyId.class_type():
+                assert keyid is None
                 keyid_tlv = KeyId.parse(inner_tlv)
                 keyid = keyid_tlv.digest()
             elif inner_tlv.type() == SignatureTime.class_type():
+                assert signature_time is None
                 signature_time = SignatureTime.parse(inner_tlv)
             elif inner_tlv.type() == cls.__T_PUBLICKEY:
                 der = inner_tlv.value()
-- 
2.43.0


From 7c4d7e8c3b492804280b158da90328500472af61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:26 +0000
Subject: [PATCH 24/38] fix: parsing a name constructor definition without id
 or schema gave an object with None fields

---
 ccnpy/flic/tlvs/NcDef.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ccnpy/flic/tlvs/NcDef.py b/ccnpy/flic/tlvs/NcDef.py
index 7ec8821..6e37620 100755
--- a/ccnpy/flic/tlvs/NcDef.py
+++ b/ccnpy/flic/tlvs/NcDef.py
@@ -77,6 +77,9 @@ class NcDef(TlvType):
                 assert schema is None
                 schema = NcSchema.parse(inner_tlv)
 
+        if nc_id is None or schema is None:
+            raise ValueError("A name constructor definition must have an NcId and a schema")
+
         return cls(nc_id=nc_id, schema=schema)
 
     def serialize(self):
-- 
2.43.0


From 76bc17a71f312f5b3c2b7de9144abd221241f741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:31 +0000
Subject: [PATCH 25/38] fix: parsing AEAD data without a mode gave an object
 with mode None

---
 ccnpy/flic/aeadctx/AeadData.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ccnpy/flic/aeadctx/AeadData.py b/ccnpy/flic/aeadctx/AeadData.py
index 143e759..9806b61 100755
--- a/ccnpy/flic/aeadctx/AeadData.py
+++ b/ccnpy/flic/aeadctx/AeadData.py
@@ -93,4 +93,6 @@ class AeadData(Serializable):
             ('mode', AeadMode),
             ('kdf_data', KdfData)],
             skip_unknown=True)
+        if values['key_number'] is None or values['nonce'] is None or values['mode'] is None:
+            raise ValueError("AEAD data must have a key number, a nonce, and a mode")
         return cls(**values)
-- 
2.43.0


From c547e6f0d28dc2a6c5c3d538f8011b4ace26cc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:35 +0000
Subject: [PATCH 26/38] fix: parsing an RSA-OAEP wrapper without hash algorithm
 or wrapped key gave an object with None fields

---
 ccnpy/flic/RsaOaepCtx/RsaOaepWrapper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ccnpy/flic/RsaOaepCtx/RsaOaepWrapper.py b/ccnpy/flic/RsaOaepCtx/RsaOaepWrapper.py
index 30b0b73..a1b1037 100755
--- a/ccnpy/flic/RsaOaepCtx/RsaOaepWrapper.py
+++ b/ccnpy/flic/RsaOaepCtx/RsaOaepWrapper.py
@@ -109,4 +109,7 @@ class RsaOaepWrapper(Serializable):
                 print("RsaOaepWrapper found no parameters, returning None")
             return None
 
+        if values['key_id'] is None or values['hash_alg'] is None or values['wrapped_key'] is None:
+            raise ValueError("An RSA-OAEP wrapper must have a key id, a hash algorithm, and a wrapped key")
+
         return cls(**values)
-- 
2.43.0


From 5a272983e78e7677b015f95d6390e731b5e42c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:55 +0000
Subject: [PATCH 27/38] fix: parsing a prefix or segmented schema without name
 or suffix type gave an object with None fields

---
 ccnpy/flic/tlvs/NcSchema.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ccnpy/flic/tlvs/NcSchema.py b/ccnpy/flic/tlvs/NcSchema.py
index a314096..311993d 100644
--- a/ccnpy/flic/tlvs/NcSchema.py
+++ b/ccnpy/flic/tlvs/NcSchema.py
@@ -168,6 +168,8 @@ class NamedSchema(LocatorSchema, ABC):
                                     ('locators', Locators),
                                     ('flags', ProtocolFlags)]
         )
+        if values['name'] is None:
+            raise ValueError("The schema must have a name")
         return cls(**values)
 
     # @classmethod
@@ -242,6 +244,8 @@ class SegmentedSchema(NamedSchema):
                                 ('locators', Locators),
                                 ('flags', ProtocolFlags)]
         )
+        if values['name'] is None or values['suffix_type'] is None:
+            raise ValueError("The schema must have a name and a suffix type")
         return cls(**values)
 
     # @classmethod
-- 
2.43.0


From 982142efe73e482770bf1cd81ab43edcbba3e732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:00 +0000
Subject: [PATCH 28/38] fix: parsing an expiry or signature time shorter or
 longer than 64 bits was accepted

---
 ccnpy/core/ExpiryTime.py    | 3 +++
 ccnpy/core/SignatureTime.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/ccnpy/core/ExpiryTime.py b/ccnpy/core/ExpiryTime.py
index 10c0293..6447898 100755
--- a/ccnpy/core/ExpiryTime.py
+++ b/ccnpy/core/ExpiryTime.py
@@ -34,6 +34,9 @@ class ExpiryTime(Timestamp):
         if tlv.type() != cls.class_type():
             raise RuntimeError("Incorrect TLV type %r" % tlv.type())
 
+        if tlv.length() != 8:
+            raise ValueError("A timestamp is 8 bytes, got %r" % tlv.length())
+
         msec = tlv.value_as_number()
         timestamp = msec / 1000.0
         return cls(timestamp)
diff --git a/ccnpy/core/SignatureTime.py b/ccnpy/core/SignatureTime.py
index 9564f9d..c7a3e38 100755
--- a/ccnpy/core/SignatureTime.py
+++ b/ccnpy/core/SignatureTime.py
@@ -33,6 +33,9 @@ class SignatureTime(Timestamp):
         if tlv.type() != cls.class_type():
             raise RuntimeError("Incorrect TLV type %r" % tlv.type())
 
+        if tlv.length() != 8:
+            raise ValueError("A timestamp is 8 bytes, got %r" % tlv.length())
+
         msec = tlv.value_as_number()
         timestamp = msec / 1000.0
         return cls(timestamp)
-- 
2.43.0


From 4b85e00efdf449021d75ce2a266f93393002365a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:29 +0000
Subject: [PATCH 29/38] fix: parsing a security context, validation algorithm,
 key id or link restriction dropped whatever follows its one inner TLV

---
 ccnpy/core/HashTlvType.py      | 1 +
 ccnpy/core/Link.py             | 2 ++
 ccnpy/core/ValidationAlg.py    | 1 +
 ccnpy/flic/tlvs/AeadCtx.py     | 1 +
 ccnpy/flic/tlvs/RsaOaepCtx.py  | 1 +
 ccnpy/flic/tlvs/SecurityCtx.py | 1 +
 6 files changed, 7 insertions(+)

diff --git a/ccnpy/core/HashTlvType.py b/ccnpy/core/HashTlvType.py
index 27250ab..624df97 100644
--- a/ccnpy/core/HashTlvType.py
+++ b/ccnpy/core/HashTlvType.py
@@ -55,6 +55,7 @@ class HashTlvType(TlvType):
             raise CannotParseError("Incorrect TLV type %r" % tlv.type())
 
         inner_tlv = Tlv.deserialize(tlv.value())
+        assert len(inner_tlv) == tlv.length()
         digest = HashValue.parse(inner_tlv)
         return cls(digest)
 
diff --git a/ccnpy/core/Link.py b/ccnpy/core/Link.py
index b698cf1..0fe4c1f 100755
--- a/ccnpy/core/Link.py
+++ b/ccnpy/core/Link.py
@@ -124,10 +124,12 @@ class Link:
             elif tlv.type() == cls.__T_KEYIDRESTR:
                 assert keyid is None
                 inner_tlv = Tlv.deserialize(tlv.value())
+                assert len(inner_tlv) == tlv.length()
                 keyid = HashValue.parse(inner_tlv)
             elif tlv.type() == cls.__T_OBJHASHRESTR:
                 assert digest is None
                 inner_tlv = Tlv.deserialize(tlv.value())
+                assert len(inner_tlv) == tlv.length()
                 digest = HashValue.parse(inner_tlv)
             else:
                 raise ValueError("Unsupported TLV %r" % tlv)
diff --git a/ccnpy/core/ValidationAlg.py b/ccnpy/core/ValidationAlg.py
index 3b60341..d0182b1 100755
--- a/ccnpy/core/ValidationAlg.py
+++ b/ccnpy/core/ValidationAlg.py
@@ -49,6 +49,7 @@ class ValidationAlg(TlvType):
             raise ValueError("Incorrect TLV type %r" % tlv.type())
 
         inner_tlv = Tlv.deserialize(tlv.value())
+        assert len(inner_tlv) == tlv.length()
 
         if inner_tlv.type() == ValidationAlg_RsaSha256.class_type():
             return ValidationAlg_RsaSha256.parse(inner_tlv)
diff --git a/ccnpy/flic/tlvs/AeadCtx.py b/ccnpy/flic/tlvs/AeadCtx.py
index 1ea8bfb..9aa360d 100755
--- a/ccnpy/flic/tlvs/AeadCtx.py
+++ b/ccnpy/flic/tlvs/AeadCtx.py
@@ -66,6 +66,7 @@ class AeadCtx(AeadSecurityCtx):
             raise CannotParseError("Incorrect TLV type %r" % tlv.type())
 
         inner_tlv = Tlv.deserialize(tlv.value())
+        assert len(inner_tlv) == tlv.length()
 
         if inner_tlv.type() != cls.class_type():
             raise CannotParseError("Incorrect TLV type %r" % tlv)
diff --git a/ccnpy/flic/tlvs/RsaOaepCtx.py b/ccnpy/flic/tlvs/RsaOaepCtx.py
index 582f0f5..79fa599 100755
--- a/ccnpy/flic/tlvs/RsaOaepCtx.py
+++ b/ccnpy/flic/tlvs/RsaOaepCtx.py
@@ -75,6 +75,7 @@ class RsaOaepCtx(AeadSecurityCtx):
             raise CannotParseError("Incorrect TLV type %r" % tlv.type())
 
         inner_tlv = Tlv.deserialize(tlv.value())
+        assert len(inner_tlv) == tlv.length()
 
         if inner_tlv.type() != cls.class_type():
             raise CannotParseError("Incorrect TLV type %r" % tlv)
diff --git a/ccnpy/flic/tlvs/SecurityCtx.py b/ccnpy/flic/tlvs/SecurityCtx.py
index f6626d6..faf1902 100755
--- a/ccnpy/flic/tlvs/SecurityCtx.py
+++ b/ccnpy/flic/tlvs/SecurityCtx.py
@@ -56,6 +56,7 @@ class SecurityCtx(TlvType, ABC):
             raise CannotParseError("Incorrect TLV type %r" % tlv)
 
         inner_tlv = Tlv.deserialize(tlv.value())
+        assert len(inner_tlv) == tlv.length()
         # NOTE: AeadCtx and RsaOaepCtx are responsible for putting the "SecurityCtx" TLV around
         # their own TLV, so they are also responsible for stripping it off.
         if inner_tlv.type() == AeadCtx.class_type():
-- 
2.43.0


From 6753fcbcab2ec895155b297ab0fd2f40931d793c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:14 +0000
Subject: [PATCH 30/38] fix: parsing an RSA validation algorithm without
 signature time made up the current time

---
 ccnpy/core/ValidationAlg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ccnpy/core/ValidationAlg.py b/ccnpy/core/ValidationAlg.py
index d0182b1..f18071b 100755
--- a/ccnpy/core/ValidationAlg.py
+++ b/ccnpy/core/ValidationAlg.py
@@ -201,6 +201,8 @@ class ValidationAlg_RsaSha256(ValidationAlg):
                 # TODO: process a LINK type
                 raise RuntimeError("Not implemented")
             offset += len(inner_tlv)
+        if signature_time is None:
+            raise ValueError("Must have a signature time")
         return cls(keyid=keyid, public_key=public_key, key_link=key_link, signature_time=signature_time)
 
     def serialize(self):
-- 
2.43.0


From d6d8fd9f43eeb88efb4a2dc6fcb10dd2075aeb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:25 +0000
Subject: [PATCH 31/38] fix: reading a tree whose names are not UTF-8 failed
 while printing its name constructors

---
 ccnpy/core/Name.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/core/Name.py b/ccnpy/core/Name.py
index 89f5572..ce69529 100755
--- a/ccnpy/core/Name.py
+++ b/ccnpy/core/Name.py
@@ -58,7 +58,7 @@ class NameComponent(Tlv):
         if t == NameComponent.__T_CHUNKID:
             return f'ChunkId={Tlv.array_to_number(self.value())}'
         if t == NameComponent.__T_NAMESEGMENT:
-            return f'Name={self.value().decode('UTF-8')}'
+            return f'Name={self.value().decode('UTF-8', errors='backslashreplace')}'
         if t == NameComponent.__T_MANIFESTID:
             return f'ManifestId={Tlv.array_to_number(self.value())}'
         if t == NameComponent.__T_IPID:
-- 
2.43.0


From 815ccf06d8524223b95b861b751ab6afe43606ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:01 +0000
Subject: [PATCH 32/38] fix: parsing and re-serialising a time of more than
 2^53 milliseconds changed its bytes

---
 ccnpy/core/ExpiryTime.py    | 7 ++++---
 ccnpy/core/SignatureTime.py | 7 ++++---
 ccnpy/core/Timestamp.py     | 8 ++++++--
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/ccnpy/core/ExpiryTime.py b/ccnpy/core/ExpiryTime.py
index 6447898..4ba8088 100755
--- a/ccnpy/core/ExpiryTime.py
+++ b/ccnpy/core/ExpiryTime.py
@@ -23,11 +23,12 @@ class ExpiryTime(Timestamp):
     def class_type(cls):
         return cls.__T_EXPIRY
 
-    def __init__(self, timestamp):
+    def __init__(self, timestamp, milliseconds=None):
         """
         :param timestamp: Python datetime timestamp (seconds float)
+        :param milliseconds: The exact milliseconds (int), if `timestamp` is too large to carry them.
         """
-        Timestamp.__init__(self, timestamp)
+        Timestamp.__init__(self, timestamp, milliseconds)
 
     @classmethod
     def parse(cls, tlv):
@@ -39,4 +40,4 @@ class ExpiryTime(Timestamp):
 
         msec = tlv.value_as_number()
         timestamp = msec / 1000.0
-        return cls(timestamp)
+        return cls(timestamp, msec)
diff --git a/ccnpy/core/SignatureTime.py b/ccnpy/core/SignatureTime.py
index c7a3e38..4e56457 100755
--- a/ccnpy/core/SignatureTime.py
+++ b/ccnpy/core/SignatureTime.py
@@ -22,11 +22,12 @@ class SignatureTime(Timestamp):
     def class_type(cls):
         return cls.__T_SIGTIME
 
-    def __init__(self, timestamp):
+    def __init__(self, timestamp, milliseconds=None):
         """
         :param timestamp: Python datetime timestamp (seconds float)
+        :param milliseconds: The exact milliseconds (int), if `timestamp` is too large to carry them.
         """
-        Timestamp.__init__(self, timestamp)
+        Timestamp.__init__(self, timestamp, milliseconds)
 
     @classmethod
     def parse(cls, tlv):
@@ -38,4 +39,4 @@ class SignatureTime(Timestamp):
 
         msec = tlv.value_as_number()
         timestamp = msec / 1000.0
-        return cls(timestamp)
+        return cls(timestamp, msec)
diff --git a/ccnpy/core/Timestamp.py b/ccnpy/core/Timestamp.py
index af2f684..9bc2189 100755
--- a/ccnpy/core/Timestamp.py
+++ b/ccnpy/core/Timestamp.py
@@ -30,19 +30,21 @@ class Timestamp(TlvType, ABC):
     def from_datetime(cls, dt):
         return cls(round(dt.timestamp(), 3))
 
-    def __init__(self, timestamp):
+    def __init__(self, timestamp, milliseconds=None):
         """
         :param timestamp: Python datetime timestamp (seconds float)
+        :param milliseconds: The exact milliseconds (int), if `timestamp` is too large to carry them.
         """
         TlvType.__init__(self)
         self._timestamp = timestamp
+        self._milliseconds = milliseconds
         self._tlv = Tlv.create_uint64(self.class_type(), self.milliseconds())
         self._wire_format = self._tlv.serialize()
 
     def __eq__(self, other):
         if not isinstance(other, Timestamp):
             return False
-        return self.timestamp() == other.timestamp()
+        return self.milliseconds() == other.milliseconds()
 
     def __repr__(self):
         return "%r: %r" % (self.__class__.__name__, self.datetime().isoformat())
@@ -77,6 +79,8 @@ class Timestamp(TlvType, ABC):
         Python timestamp in milliseconds as integer
         :return:
         """
+        if self._milliseconds is not None:
+            return self._milliseconds
         msec = round(self.timestamp() * 1000)
         return msec
 
-- 
2.43.0


From 5581b247a66520172165ae6a71a696b1daf91f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:21 +0000
Subject: [PATCH 33/38] fix: reading a directory store by name returned a
 packet of another name when the two names share a link file

---
 ccnpy/flic/tree/TreeIO.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ccnpy/flic/tree/TreeIO.py b/ccnpy/flic/tree/TreeIO.py
index 6c0233f..8a77c6a 100755
--- a/ccnpy/flic/tree/TreeIO.py
+++ b/ccnpy/flic/tree/TreeIO.py
@@ -273,6 +273,9 @@ class TreeIO:
             if p.body().is_link():
                 link = Link.deserialize(p.body().payload().value())
                 packet = self._load_by_hash(link.digest())
+                # different names may share a link file name
+                if packet.body().name() != name:
+                    raise FileNotFoundError(f'Link {link_path} is for name {packet.body().name()}, not {name}')
                 print(f"Dereferenced link {link_path} to load packet {packet.content_object_hash()}")
                 return packet
             raise FileNotFoundError(f'Could not find link {link_path}')
-- 
2.43.0


From 9929c53cd8f357ee2c9850fe7ca843bab6a69238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:17 +0000
Subject: [PATCH 34/38] fix: a password given on the command line could not
 decrypt a private key

---
 ccnpy/crypto/RsaKey.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ccnpy/crypto/RsaKey.py b/ccnpy/crypto/RsaKey.py
index 73aa630..849aafc 100755
--- a/ccnpy/crypto/RsaKey.py
+++ b/ccnpy/crypto/RsaKey.py
@@ -69,6 +69,8 @@ class RsaKey:
     def __initialize_private_key(self, pem_key, password):
         if password is not None and len(password) == 0:
             password = None
+        if isinstance(password, str):
+            password = password.encode()
         self._private_key = serialization.load_pem_private_key(
                                 pem_key,
                                 password=password,
-- 
2.43.0


From 8adf030010f0cb3f94aeef0e542735189e619ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:17 +0000
Subject: [PATCH 35/38] fix: without --key-num the key number was negative or
 different in every run

---
 ccnpy/apps/cli_utils.py       | 9 ++++++++-
 ccnpy/apps/manifest_writer.py | 4 ----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/ccnpy/apps/cli_utils.py b/ccnpy/apps/cli_utils.py
index 9cafdcb..236344e 100644
--- a/ccnpy/apps/cli_utils.py
+++ b/ccnpy/apps/cli_utils.py
@@ -13,6 +13,7 @@
 #  limitations under the License.
 import argparse
 import getpass
+import hashlib
 import logging
 import uuid
 from typing import Optional
@@ -101,11 +102,17 @@ def kdf_data_from_cli(args) -> Optional[KdfData]:
     else:
         return None
 
+def key_number_from_cli_args(args) -> Optional[KeyNumber]:
+    """The default is taken from the hash of the key, so the writer and the reader agree on it"""
+    if args.key_num is None and args.enc_key is not None:
+        return KeyNumber(hashlib.sha256(args.enc_key).digest()[:8])
+    return args.key_num
+
 def aead_parameters_from_cli(args):
     key = aes_key_from_cli_args(args)
     params = AeadParameters(
         key=key,
-        key_number=args.key_num,
+        key_number=key_number_from_cli_args(args),
         aead_salt=args.salt,
         kdf_data=kdf_data_from_cli(args),
         kdf_salt=args.kdf_salt)
diff --git a/ccnpy/apps/manifest_writer.py b/ccnpy/apps/manifest_writer.py
index b1df5ec..0150b0e 100755
--- a/ccnpy/apps/manifest_writer.py
+++ b/ccnpy/apps/manifest_writer.py
@@ -149,10 +149,6 @@ def run():
 
     fixup_key_password(args)
 
-    if args.enc_key is not None and args.key_num is None:
-        # TODO: use something like the left 8 bytes of a sha256
-        args.key_num = hash(args.enc_key)
-
     if args.use_tcp:
         packet_writer = TreeIO.PacketNetworkWriter("127.0.0.1", 9896)
     else:
-- 
2.43.0


From 5b77b2c0f9f3bd3985d099f825d21a38049ae870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:12 +0000
Subject: [PATCH 36/38] fix: manifest_reader --hash failed because the hash was
 left a string

---
 ccnpy/apps/manifest_reader.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ccnpy/apps/manifest_reader.py b/ccnpy/apps/manifest_reader.py
index 75d9d8e..1146be7 100755
--- a/ccnpy/apps/manifest_reader.py
+++ b/ccnpy/apps/manifest_reader.py
@@ -21,7 +21,12 @@ from ccnpy.core.Name import Name
 from ccnpy.crypto.InsecureKeystore import InsecureKeystore
 from ccnpy.flic.tree.Traversal import Traversal
 from ccnpy.flic.tree.TreeIO import TreeIO
-from .cli_utils import add_encryption_cli_args, fixup_key_password, create_keystore
+from .cli_utils import add_encryption_cli_args, fixup_key_password, create_keystore, _str_to_array
+from ..core.HashValue import HashValue
+
+
+def _str_to_hash(value: str) -> HashValue:
+    return HashValue.create_sha256(_str_to_array(value))
 
 
 class ManifestReader(ABC):
@@ -120,7 +125,8 @@ def run():
     parser = argparse.ArgumentParser()
 
     parser.add_argument('--name', dest="name", default=None, help='CCNx URI for root manifest', required=True)
-    parser.add_argument('--hash', dest="hash_restriction", default=None, help='CCNx URI for root manifest', required=False)
+    parser.add_argument('--hash', dest="hash_restriction", default=None, type=_str_to_hash,
+                        help='SHA256 content object hash of the root manifest (hex string)', required=False)
 
     parser.add_argument('-i', dest="in_dir", default='.', help="input directory (default=%r)" % '.')
     parser.add_argument('-T', dest="use_tcp", default=False, action=argparse.BooleanOptionalAction,
-- 
2.43.0


From 3f12bed0ffd6d08658a8190ff33dc9596176cf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:12 +0000
Subject: [PATCH 37/38] fix: closing a manifest reader that writes to stdout
 raised AttributeError

---
 ccnpy/apps/manifest_reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ccnpy/apps/manifest_reader.py b/ccnpy/apps/manifest_reader.py
index 1146be7..df52442 100755
--- a/ccnpy/apps/manifest_reader.py
+++ b/ccnpy/apps/manifest_reader.py
@@ -59,6 +59,9 @@ class StdOutWrapper:
             value = value.tobytes().decode('utf-8', errors='ignore')
         self._out.write(value)
 
+    def close(self):
+        self._out = None
+
 class ManifestNetworkReader(ManifestReader):
     pass
 
-- 
2.43.0


From cdb17602d24b460dad934c8fc0f9f549817eb26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:20 +0000
Subject: [PATCH 38/38] fix: wrapping a given content key without --salt raised
 TypeError

---
 ccnpy/apps/cli_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ccnpy/apps/cli_utils.py b/ccnpy/apps/cli_utils.py
index 236344e..997fbb9 100644
--- a/ccnpy/apps/cli_utils.py
+++ b/ccnpy/apps/cli_utils.py
@@ -15,6 +15,7 @@ import argparse
 import getpass
 import hashlib
 import logging
+import os
 import uuid
 from typing import Optional
 
@@ -139,6 +140,9 @@ def rsa_oaep_encryptor_from_cli_args(args):
     if args.enc_key is None:
         encryptor = RsaOaepEncryptor.create_with_new_content_key(wrapping_key=wrapping_key, kdf_data=kdf_data_from_cli(args))
     else:
+        if args.salt is None:
+            # a wrapped key always carries a salt
+            args.salt = int.from_bytes(os.urandom(4))
         encryptor = RsaOaepEncryptor(wrapping_key=wrapping_key, params=aead_parameters_from_cli(args))
     logger.debug(encryptor)
     return encryptor
-- 
2.43.0

