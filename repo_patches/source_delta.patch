From ca1b2ad3b434d8a8b89fe3746de3a5c5250b0044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:17 +0000
Subject: [PATCH 01/71] fix: support enum typed fields in the protobuf codec

Every message with an enum field (Failure among them) raised AttributeError
when dumped or loaded, so a user's refusal was never delivered as such.
---
 monero_glue/protobuf.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/monero_glue/protobuf.py b/monero_glue/protobuf.py
index 88b59c8..1ed9499 100644
--- a/monero_glue/protobuf.py
+++ b/monero_glue/protobuf.py
@@ -117,6 +117,19 @@ class BoolType:
     WIRE_TYPE = 0
 
 
+class EnumType:
+    WIRE_TYPE = 0
+
+    def __init__(self, name, enum_values):
+        self.name = name
+        self.enum_values = enum_values
+
+    def validate(self, value):
+        if value not in self.enum_values:
+            raise TypeError("Invalid %s value: %s" % (self.name, value))
+        return value
+
+
 class BytesType:
     WIRE_TYPE = 2
 
@@ -274,6 +287,8 @@ async def load_message(reader, msg_type):
             fvalue = uint_to_sint(ivalue)
         elif ftype is BoolType:
             fvalue = bool(ivalue)
+        elif isinstance(ftype, EnumType):
+            fvalue = ftype.validate(ivalue)
         elif ftype is BytesType:
             buf = bytearray(ivalue)
             reader.readinto(buf)
@@ -326,6 +341,9 @@ async def dump_message(writer, msg):
             elif ftype is BoolType:
                 dump_uvarint(writer, int(svalue))
 
+            elif isinstance(ftype, EnumType):
+                dump_uvarint(writer, ftype.validate(svalue))
+
             elif ftype is BytesType:
                 if isinstance(svalue, list):
                     dump_uvarint(writer, _count_bytes_list(svalue))
@@ -409,6 +427,9 @@ def format_message(
 
 
 def value_to_proto(ftype, value):
+    if isinstance(ftype, EnumType):
+        return ftype.validate(int(value))
+
     if issubclass(ftype, MessageType):
         raise TypeError("value_to_proto only converts simple values")
 
@@ -441,7 +462,7 @@ def dict_to_proto(message_type, d):
         if not repeated:
             value = [value]
 
-        if issubclass(ftype, MessageType):
+        if not isinstance(ftype, EnumType) and issubclass(ftype, MessageType):
             function = dict_to_proto
         else:
             function = value_to_proto
-- 
2.43.0


From b3c54c17c4c7c6a47d1f084f66cfcae9d31b903e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:17 +0000
Subject: [PATCH 02/71] fix: reject truncated protobuf messages instead of
 zero-padding them

---
 monero_glue/protobuf.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/monero_glue/protobuf.py b/monero_glue/protobuf.py
index 1ed9499..3ff9b73 100644
--- a/monero_glue/protobuf.py
+++ b/monero_glue/protobuf.py
@@ -44,14 +44,24 @@ from typing import Any, Optional
 _UVARINT_BUFFER = bytearray(1)
 
 
+def read_exact(reader, buffer):
+    """Fills the whole buffer or raises EOFError"""
+    if len(buffer) > 0 and reader.readinto(buffer) != len(buffer):
+        raise EOFError
+
+
 def load_uvarint(reader):
     buffer = _UVARINT_BUFFER
     result = 0
     shift = 0
     byte = 0x80
     while byte & 0x80:
-        if reader.readinto(buffer) == 0:
-            raise EOFError
+        try:
+            read_exact(reader, buffer)
+        except EOFError:
+            if shift:
+                raise ValueError("Truncated varint")
+            raise
         byte = buffer[0]
         result += (byte & 0x7F) << shift
         shift += 7
@@ -270,7 +280,7 @@ async def load_message(reader, msg_type):
                 load_uvarint(reader)
             elif wtype == 2:
                 ivalue = load_uvarint(reader)
-                reader.readinto(bytearray(ivalue))
+                read_exact(reader, bytearray(ivalue))
             else:
                 raise ValueError
             continue
@@ -291,14 +301,17 @@ async def load_message(reader, msg_type):
             fvalue = ftype.validate(ivalue)
         elif ftype is BytesType:
             buf = bytearray(ivalue)
-            reader.readinto(buf)
+            read_exact(reader, buf)
             fvalue = bytes(buf)
         elif ftype is UnicodeType:
             buf = bytearray(ivalue)
-            reader.readinto(buf)
+            read_exact(reader, buf)
             fvalue = buf.decode()
         elif issubclass(ftype, MessageType):
-            fvalue = await load_message(LimitedReader(reader, ivalue), ftype)
+            sub_reader = LimitedReader(reader, ivalue)
+            fvalue = await load_message(sub_reader, ftype)
+            if sub_reader.limit != 0:
+                raise EOFError
         else:
             raise TypeError  # field type is unknown
 
-- 
2.43.0


From 109a179775ed81b4db9f966096ac578f915122cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 03/71] fix: allow transfers with no destination other than the
 change address

The dummy payment ID was encrypted for the null key, so every self transfer
(churn, sweep to own primary address) was refused.
---
 monero_glue/protocol/tsx_sign_builder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/monero_glue/protocol/tsx_sign_builder.py b/monero_glue/protocol/tsx_sign_builder.py
index d83f707..8c1c2d5 100644
--- a/monero_glue/protocol/tsx_sign_builder.py
+++ b/monero_glue/protocol/tsx_sign_builder.py
@@ -573,6 +573,10 @@ class TTransactionBuilder(object):
         if not tsx_data.payment_id and count <= 1:
             tsx_data.payment_id = bytearray(8)
 
+        # Self transfer, only the change address receives
+        if count == 0 and change_addr:
+            return change_addr.view_public_key
+
         return addr.view_public_key
 
     async def compute_sec_keys(self, tsx_data):
-- 
2.43.0


From f70bcf9a5031b8b2f0184da15bc3fe7af5fde60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 04/71] fix: validate the input permutation received from the
 host

[1, 1] made the device sign one input twice and the other one never.
---
 monero_glue/protocol/tsx_sign_builder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monero_glue/protocol/tsx_sign_builder.py b/monero_glue/protocol/tsx_sign_builder.py
index 8c1c2d5..76b7c89 100644
--- a/monero_glue/protocol/tsx_sign_builder.py
+++ b/monero_glue/protocol/tsx_sign_builder.py
@@ -740,6 +740,9 @@ class TTransactionBuilder(object):
         Set permutation on the inputs - sorted by key image on host.
         """
         self.state.input_permutation()
+        if len(permutation) != self.num_inputs():
+            raise ValueError("Invalid permutation length")
+        common.check_permutation(permutation)
         self.source_permutation = permutation
         self.inp_idx = -1
 
-- 
2.43.0


From 47d5d854b28869333bd4ee58dfa7b44846f161a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 05/71] fix: refuse an offloaded range proof message outside of
 the end of a batch

Without a proof inside, the message was acknowledged in any state in which
all inputs were processed.
---
 monero_glue/protocol/tsx_sign_builder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monero_glue/protocol/tsx_sign_builder.py b/monero_glue/protocol/tsx_sign_builder.py
index 76b7c89..360e435 100644
--- a/monero_glue/protocol/tsx_sign_builder.py
+++ b/monero_glue/protocol/tsx_sign_builder.py
@@ -961,6 +961,9 @@ class TTransactionBuilder(object):
                 not last_in_batch or self.is_processing_offloaded != is_offloaded_bp,
                 "Offloaded BP out of order",
             )
+            utils.ensure(
+                last_in_batch or not is_offloaded_bp, "Offloaded BP out of order"
+            )
             self.is_processing_offloaded = is_offloaded_bp
 
         if not self.is_processing_offloaded:
-- 
2.43.0


From e7a069b84bbddbc2c78b02e38e3fe7156560a9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 06/71] fix: require a range proof for all outputs before the
 transaction is signed

The proof of the last batch could be skipped by the host, or never be
requested at all with batches exceeding the number of outputs.
---
 monero_glue/protocol/tsx_sign_builder.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/monero_glue/protocol/tsx_sign_builder.py b/monero_glue/protocol/tsx_sign_builder.py
index 360e435..fa66ffb 100644
--- a/monero_glue/protocol/tsx_sign_builder.py
+++ b/monero_glue/protocol/tsx_sign_builder.py
@@ -1432,6 +1432,14 @@ class TTransactionBuilder(object):
         if self.out_idx + 1 != self.num_dests():
             raise ValueError("Invalid out num")
 
+        # Each output has to be covered by a (verified) range proof
+        if not self._is_last_in_batch(self.out_idx) or (
+            self.rsig_offload
+            and self.is_det_mask()
+            and not self.is_processing_offloaded
+        ):
+            raise ValueError("Range proof missing")
+
         # Fee test
         if self.fee != (self.summary_inputs_money - self.summary_outs_money):
             raise ValueError(
-- 
2.43.0


From 6fad8841365af22370f4abdd22835d079c19d712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 07/71] fix: separate the source entry and the vini in the
 input HMAC

The trailing source entry fields could be moved to the beginning of the vini
without changing the HMAC.
---
 monero_glue/protocol/tsx_sign_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/protocol/tsx_sign_builder.py b/monero_glue/protocol/tsx_sign_builder.py
index fa66ffb..24899c9 100644
--- a/monero_glue/protocol/tsx_sign_builder.py
+++ b/monero_glue/protocol/tsx_sign_builder.py
@@ -351,7 +351,7 @@ class TTransactionBuilder(object):
 
         kwriter = get_keccak_writer()
         await protobuf.dump_message(kwriter, src_entr)
-        await kwriter.awrite(vini_bin)
+        await kwriter.awrite(crypto.cn_fast_hash(vini_bin))
 
         hmac_key_vini = self.hmac_key_txin(idx)
         hmac_vini = crypto.compute_hmac(hmac_key_vini, kwriter.get_digest())
-- 
2.43.0


From 36bfee03d336bfb6ed1b4a8969568a0f93a7e7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 08/71] fix: drop the saved signing state when a step fails
 outside of the builder

---
 monero_glue/hwtoken/token.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/monero_glue/hwtoken/token.py b/monero_glue/hwtoken/token.py
index b14da3f..fae6c5a 100644
--- a/monero_glue/hwtoken/token.py
+++ b/monero_glue/hwtoken/token.py
@@ -63,6 +63,7 @@ class TokenLite(object):
 
         self.err_ctr += 1
         self.tsx_obj = None  # clear transaction object
+        self.tsx_state = None
         await self.iface.transaction_error(e)
 
     async def monero_get_creds(self, address_n=None, network_type=None):
-- 
2.43.0


From 8622501691cc7fb743a0f9d776ed6cd71660d9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 09/71] fix: do not append an empty chunk when the size divides
 the length

Key image sync of 0, 10, 20, ... outputs was refused by the device.
---
 monero_glue/xmr/common.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/monero_glue/xmr/common.py b/monero_glue/xmr/common.py
index 25ae2c0..8e649f5 100644
--- a/monero_glue/xmr/common.py
+++ b/monero_glue/xmr/common.py
@@ -190,15 +190,7 @@ def defattr(obj, attr, default=None, take_none=True):
 
 
 def chunk(arr, size=1):
-    res = []
-    idx = 0
-    while True:
-        c = arr[idx : idx + size]
-        res.append(c)
-        idx += size
-        if len(c) != size:
-            break
-    return res
+    return [arr[idx : idx + size] for idx in range(0, len(arr), size)]
 
 
 def try_fnc(fnc):
-- 
2.43.0


From 07f2b44dd1b0cbfdfb1d4f7e34c60d605c03b93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:52 +0000
Subject: [PATCH 10/71] fix: refuse to close the inputs before all of them were
 hashed

---
 monero_glue/protocol/tsx_sign_builder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monero_glue/protocol/tsx_sign_builder.py b/monero_glue/protocol/tsx_sign_builder.py
index 24899c9..ebbeeef 100644
--- a/monero_glue/protocol/tsx_sign_builder.py
+++ b/monero_glue/protocol/tsx_sign_builder.py
@@ -789,6 +789,9 @@ class TTransactionBuilder(object):
         If in the applicable offloading mode, generate commitment masks.
         """
         self._mem_trace(0)
+        if self.inp_idx + 1 != self.num_inputs():
+            raise ValueError("Input count mismatch")
+
         self.state.input_all_done()
         await self.trezor.iface.transaction_step(self.STEP_ALL_IN)
 
-- 
2.43.0


From 41ce8d2e0d76859abcc756109ad85833aaf151e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:35 +0000
Subject: [PATCH 11/71] fix: reject varints which do not fit 64 bits

---
 monero_glue/protobuf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/monero_glue/protobuf.py b/monero_glue/protobuf.py
index 3ff9b73..b308db6 100644
--- a/monero_glue/protobuf.py
+++ b/monero_glue/protobuf.py
@@ -65,6 +65,8 @@ def load_uvarint(reader):
         byte = buffer[0]
         result += (byte & 0x7F) << shift
         shift += 7
+    if result >> 64:
+        raise ValueError("Varint too large")
     return result
 
 
-- 
2.43.0


From 7385f6bad6a50226c8b003adf1b8cb97e6fa4cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:59 +0000
Subject: [PATCH 12/71] fix: verify the change address of a sweep that pays to
 it

---
 monero_glue/protocol/tsx_sign_builder.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/monero_glue/protocol/tsx_sign_builder.py b/monero_glue/protocol/tsx_sign_builder.py
index ebbeeef..bfc8a33 100644
--- a/monero_glue/protocol/tsx_sign_builder.py
+++ b/monero_glue/protocol/tsx_sign_builder.py
@@ -205,7 +205,14 @@ class TTransactionBuilder(object):
             self._mem_trace("No change" if __debug__ else None)
             return
 
-        if change_idx is None and self.output_change.amount == 0 and len(outputs) == 2:
+        # sweep: nothing but the zero amount dummy may be sent to the change address
+        paid = any(out.amount and addr_eq(out.addr, change_addr) for out in outputs)
+        if (
+            change_idx is None
+            and self.output_change.amount == 0
+            and len(outputs) == 2
+            and not paid
+        ):
             self._mem_trace("Sweep tsx" if __debug__ else None)
             return  # sweep dummy tsx
 
-- 
2.43.0


From e2f28c2723cdbc216657a702f7905d437f45c323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:48 +0000
Subject: [PATCH 13/71] fix: draw bulletproof blinding from the system
 randomness

The blinding factors came from a generator with a fixed seed, so anybody
could recompute them and open the commitments of a published proof.
---
 monero_glue/xmr/bulletproof.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/monero_glue/xmr/bulletproof.py b/monero_glue/xmr/bulletproof.py
index 7add744..7915233 100644
--- a/monero_glue/xmr/bulletproof.py
+++ b/monero_glue/xmr/bulletproof.py
@@ -47,7 +47,8 @@ _PRINT_INT = False
 COUNT_STATE = False
 slot_sizes = None
 
-PRNG = crypto.prng(_ZERO)
+# Generator of the proof blinding. System randomness is used if not set (see set_prng()).
+PRNG = None
 
 # Aliasing
 ubinascii = binascii
@@ -185,7 +186,7 @@ def _scalarmult_base(dst, x):
 
 def _sc_gen(dst=None):
     dst = _ensure_dst_key(dst)
-    buff = PRNG.next(32, bytearray(32))
+    buff = PRNG.next(32, bytearray(32)) if PRNG is not None else crypto.random_bytes(32)
     crypto.decodeint_into(_tmp_sc_1, buff)
     #crypto.random_scalar(_tmp_sc_1)
     crypto.encodeint_into(dst, _tmp_sc_1)
@@ -1924,6 +1925,10 @@ class BulletProofBuilder:
     def _det_mask_init(self):
         memcpy(self.tmp_det_buff, 0, self.proof_sec, 0, len(self.proof_sec))
 
+    def _det_mask_seed(self, is_sL):
+        # Seeds of the sL, sR vectors, stable over all steps of one proof
+        return crypto.keccak_hash(self.proof_sec + bytes([int(is_sL)]))
+
     def _det_mask(self, i, is_sL=True, dst=None):
         dst = _ensure_dst_key(dst)
         if self.fnc_det_mask:
@@ -1967,7 +1972,7 @@ class BulletProofBuilder:
 
     def sL_vct(self, ln=_BP_N, allow_nonlinear=False):
         return (
-            KeyVPrngMask(ln, _ZERO, allow_nonlinear=allow_nonlinear) #crypto.random_bytes(32))
+            KeyVPrngMask(ln, self._det_mask_seed(True), allow_nonlinear=allow_nonlinear)
             # KeyVEval(ln, lambda i, dst: self._det_mask(i, True, dst))
             if self.use_det_masks
             else self.sX_gen(ln)
@@ -1975,7 +1980,7 @@ class BulletProofBuilder:
 
     def sR_vct(self, ln=_BP_N, allow_nonlinear=False):
         return (
-            KeyVPrngMask(ln, _ONE, allow_nonlinear=allow_nonlinear)  # crypto.random_bytes(32))
+            KeyVPrngMask(ln, self._det_mask_seed(False), allow_nonlinear=allow_nonlinear)
             # KeyVEval(ln, lambda i, dst: self._det_mask(i, False, dst))
             if self.use_det_masks
             else self.sX_gen(ln)
@@ -1987,8 +1992,6 @@ class BulletProofBuilder:
         buff_mv = memoryview(buff)
         sc = crypto.new_scalar()
         for i in range(ln):
-            buff0 = PRNG.next(32, bytearray(32))
-            crypto.decodeint_into(sc, buff0)
             crypto.random_scalar_into(sc)
             crypto.encodeint_into(buff_mv[i * 32 : (i + 1) * 32], sc)
             _gc_iter(i)
@@ -2343,7 +2346,7 @@ class BulletProofBuilder:
         self.assrt(len(sv) == len(gamma), "|sv| != |gamma|")
         self.assrt(len(sv) > 0, "sv empty")
 
-        self.proof_sec = b"\x00"*32  #crypto.random_bytes(64)
+        self.proof_sec = crypto.random_bytes(64)
         self._det_mask_init()
         gc.collect()
         self.sv = [crypto.encodeint(x) for x in sv]
-- 
2.43.0


From 769706f7395f6abbffe44a9f6f3ff5033cd9741d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 14/71] fix: reject truncated and non-canonical point and
 scalar encodings

---
 monero_glue/xmr/core/ec_base.py   | 14 ++++++++++++++
 monero_glue/xmr/core/ec_py.py     |  1 +
 monero_glue/xmr/core/ec_trezor.py | 25 +++++++++++++++++++------
 3 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/monero_glue/xmr/core/ec_base.py b/monero_glue/xmr/core/ec_base.py
index 033c209..8228d41 100644
--- a/monero_glue/xmr/core/ec_base.py
+++ b/monero_glue/xmr/core/ec_base.py
@@ -188,6 +188,20 @@ def decode_modm(limbs):
     return n
 
 
+def check_canonical_point(buff):
+    """
+    Point encoding has to be canonical: y is reduced and if x = 0 the sign is positive.
+    As crypto-ops.c:ge_frombytes_vartime does.
+
+    :param buff:
+    :return:
+    """
+    n = int.from_bytes(bytes(buff), "little")
+    y = n & ((1 << 255) - 1)
+    if y >= q or (n >> 255 and y in (1, q - 1)):
+        raise ValueError("Point encoding is not canonical")
+
+
 #
 # Backend config
 #
diff --git a/monero_glue/xmr/core/ec_py.py b/monero_glue/xmr/core/ec_py.py
index d9afc0a..5f09c6f 100644
--- a/monero_glue/xmr/core/ec_py.py
+++ b/monero_glue/xmr/core/ec_py.py
@@ -107,6 +107,7 @@ class EdPoint(object):
         elif isinstance(src, tuple):
             self.v = src
         else:
+            check_canonical_point(src[offset : offset + 32])
             self.v = _decodepoint(src[offset:])
         return self
 
diff --git a/monero_glue/xmr/core/ec_trezor.py b/monero_glue/xmr/core/ec_trezor.py
index 734c22e..6916e06 100644
--- a/monero_glue/xmr/core/ec_trezor.py
+++ b/monero_glue/xmr/core/ec_trezor.py
@@ -164,12 +164,25 @@ def _offset(x, offset=0):
     return memoryview(x)[offset:]
 
 
+def _key_buff(x):
+    # KEY_BUFF zero-pads shorter input
+    if len(x) < 32:
+        raise ValueError("Encoding too short")
+    return tcry.KEY_BUFF(*x)
+
+
+def _point_buff(x, offset=0):
+    buff = _key_buff(_offset(x, offset)[:32])
+    check_canonical_point(buff)
+    return buff
+
+
 def decodepoint(x, offset=0):
-    return tcry.ge25519_unpack_vartime_r(tcry.KEY_BUFF(*_offset(x, offset)[:32]))
+    return tcry.ge25519_unpack_vartime_r(_point_buff(x, offset))
 
 
 def decodepoint_into(r, x, offset=0):
-    tcry.ge25519_unpack_vartime(r, tcry.KEY_BUFF(*_offset(x, offset)[:32]))
+    tcry.ge25519_unpack_vartime(r, _point_buff(x, offset))
     return r
 
 
@@ -184,22 +197,22 @@ def encodepoint_into(b, pt, offset=0):
 
 
 def decodeint(x, offset=0):
-    return tcry.expand256_modm_r(tcry.KEY_BUFF(*_offset(x, offset)))
+    return tcry.expand256_modm_r(_key_buff(_offset(x, offset)))
 
 
 def decodeint_noreduce(x, offset=0):
-    return tcry.expand_raw256_modm_r(tcry.KEY_BUFF(*_offset(x, offset)))
+    return tcry.expand_raw256_modm_r(_key_buff(_offset(x, offset)))
 
 
 def decodeint_into(r, x, offset=0):
     bb = _offset(x, offset)[:32]
-    tcry.expand256_modm(r, tcry.KEY_BUFF(*bb), 32)
+    tcry.expand256_modm(r, _key_buff(bb), 32)
     return r
 
 
 def decodeint_into_noreduce(r, x, offset=0):
     r = r if r else new_scalar()
-    tcry.expand_raw256_modm(r, tcry.KEY_BUFF(*_offset(x, offset)))
+    tcry.expand_raw256_modm(r, _key_buff(_offset(x, offset)))
     return r
 
 
-- 
2.43.0


From b2cb129590209fe074592a61f499215b28744d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:57 +0000
Subject: [PATCH 15/71] fix: refuse indices and amounts which do not fit their
 type instead of truncating

---
 monero_glue/xmr/core/ec_base.py   | 13 +++++++++++++
 monero_glue/xmr/core/ec_py.py     |  7 +++++--
 monero_glue/xmr/core/ec_trezor.py | 10 ++++++++--
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/monero_glue/xmr/core/ec_base.py b/monero_glue/xmr/core/ec_base.py
index 8228d41..66c6f97 100644
--- a/monero_glue/xmr/core/ec_base.py
+++ b/monero_glue/xmr/core/ec_base.py
@@ -188,6 +188,19 @@ def decode_modm(limbs):
     return n
 
 
+def check_uint(x, bits):
+    """
+    Throws exception if the integer does not fit the unsigned type.
+    The native library would truncate it.
+
+    :param x:
+    :param bits:
+    :return:
+    """
+    if x < 0 or x >> bits:
+        raise ValueError("Value does not fit %d bits" % bits)
+
+
 def check_canonical_point(buff):
     """
     Point encoding has to be canonical: y is reduced and if x = 0 the sign is positive.
diff --git a/monero_glue/xmr/core/ec_py.py b/monero_glue/xmr/core/ec_py.py
index 5f09c6f..5771c5c 100644
--- a/monero_glue/xmr/core/ec_py.py
+++ b/monero_glue/xmr/core/ec_py.py
@@ -449,14 +449,14 @@ def sc_0_into(r):
 
 
 def sc_init(x):
-    if x >= (1 << 64):
+    if x < 0 or x >= (1 << 64):
         raise ValueError("Initialization works up to 64-bit only")
     return EdScalar(x)
 
 
 def sc_init_into(r, x):
     r = r if r else new_scalar()
-    if x >= (1 << 64):
+    if x < 0 or x >= (1 << 64):
         raise ValueError("Initialization works up to 64-bit only")
     return r.init(x)
 
@@ -467,6 +467,7 @@ def sc_copy(r, x):
 
 
 def sc_get64(x):
+    check_uint(x.v, 64)
     return x.v
 
 
@@ -984,6 +985,7 @@ def gen_c(a, amount):
     :param amount:
     :return:
     """
+    check_uint(amount, 64)
     aG = scalarmult_base(a)
     return point_add(aG, scalarmult_h(amount))
 
@@ -1019,6 +1021,7 @@ def derivation_to_scalar(derivation, output_index):
     :return:
     """
     check_ed25519point(derivation)
+    check_uint(output_index, 32)
     buf2 = encodepoint(derivation) + xmrserialize.dump_uvarint_b(output_index)
     return hash_to_scalar(buf2, len(buf2))
 
diff --git a/monero_glue/xmr/core/ec_trezor.py b/monero_glue/xmr/core/ec_trezor.py
index 6916e06..0baae64 100644
--- a/monero_glue/xmr/core/ec_trezor.py
+++ b/monero_glue/xmr/core/ec_trezor.py
@@ -299,7 +299,7 @@ def sc_init(x):
     Sets x to the scalar value Zmod(m)
     :return:
     """
-    if x >= (1 << 64):
+    if x < 0 or x >= (1 << 64):
         raise ValueError("Initialization works up to 64-bit only")
     return tcry.init256_modm_r(x)
 
@@ -316,7 +316,7 @@ def sc_init_into(r, x):
     :return:
     """
     r = r if r else new_scalar()
-    if x >= (1 << 64):
+    if x < 0 or x >= (1 << 64):
         raise ValueError("Initialization works up to 64-bit only")
     tcry.init256_modm(r, x)
     return r
@@ -812,6 +812,7 @@ def gen_c(a, amount):
     :param amount:
     :return:
     """
+    check_uint(amount, 64)
     return tcry.xmr_gen_c_r(a, amount)
 
 
@@ -840,6 +841,7 @@ def derivation_to_scalar(derivation, output_index):
     :return:
     """
     check_ed25519point(derivation)
+    check_uint(output_index, 32)
     return tcry.xmr_derivation_to_scalar_r(derivation, output_index)
 
 
@@ -855,6 +857,7 @@ def derive_public_key(derivation, output_index, base):
     if ge_frombytes_vartime_check(base) != 0:  # check some conditions on the point
         raise ValueError("derive pub key bad point")
     check_ed25519point(base)
+    check_uint(output_index, 32)
 
     return tcry.xmr_derive_public_key_r(derivation, output_index, base)
 
@@ -869,6 +872,7 @@ def derive_secret_key(derivation, output_index, base):
     """
     if sc_check(base) != 0:
         raise ValueError("cs_check in derive_secret_key")
+    check_uint(output_index, 32)
     return tcry.xmr_derive_private_key_r(derivation, output_index, base)
 
 
@@ -883,6 +887,8 @@ def get_subaddress_secret_key(secret_key, major=0, minor=0):
     :param minor:
     :return:
     """
+    check_uint(major, 32)
+    check_uint(minor, 32)
     return tcry.xmr_get_subaddress_secret_key_r(major, minor, secret_key)
 
 
-- 
2.43.0


From d99b72b1217b03e21ef3e03d85b3fc2ae8838cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:13 +0000
Subject: [PATCH 16/71] fix: refuse base58 blocks equal to 2^64, report
 malformed base58 as an error, accept empty data

---
 monero_glue/misc/b58_mnr.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/monero_glue/misc/b58_mnr.py b/monero_glue/misc/b58_mnr.py
index 274086e..64b53e6 100644
--- a/monero_glue/misc/b58_mnr.py
+++ b/monero_glue/misc/b58_mnr.py
@@ -29,7 +29,7 @@ __fullEncodedBlockSize = 11
 
 def _hexToBin(hex):
     if len(hex) % 2 != 0:
-        return "Hex string has invalid length!"
+        raise ValueError("Hex string has invalid length!")
     return [int(hex[i * 2 : i * 2 + 2], 16) for i in range(len(hex) // 2)]
 
 
@@ -51,7 +51,7 @@ def _uint8be_to_64(data):
     l_data = len(data)
 
     if l_data < 1 or l_data > 8:
-        return "Invalid input length"
+        raise ValueError("Invalid input length")
 
     res = 0
     switch = 9 - l_data
@@ -73,14 +73,14 @@ def _uint8be_to_64(data):
         elif switch == 8:
             res = res << 8 | data[i]
         else:
-            return "Impossible condition"
+            raise ValueError("Impossible condition")
     return res
 
 
 def _uint64_to_8be(num, size):
     res = [0] * size
     if size < 1 or size > 8:
-        return "Invalid input length"
+        raise ValueError("Invalid input length")
 
     twopow8 = 2 ** 8
     for i in range(size - 1, -1, -1):
@@ -94,7 +94,7 @@ def encode_block(data, buf, index):
     l_data = len(data)
 
     if l_data < 1 or l_data > __fullEncodedBlockSize:
-        return "Invalid block length: " + str(l_data)
+        raise ValueError("Invalid block length: " + str(l_data))
 
     num = _uint8be_to_64(data)
     i = __encodedBlockSizes[l_data] - 1
@@ -116,11 +116,11 @@ def b58encode(data_hex=None, data_bin=None):
     :param data_bin:
     :return:
     """
-    data = bytearray(data_bin) if data_bin else _hexToBin(data_hex)
+    data = bytearray(data_bin) if data_bin is not None else _hexToBin(data_hex)
     l_data = len(data)
 
     if l_data == 0:
-        return ""
+        return b""
 
     full_block_count = l_data // __fullBlockSize
     last_block_size = l_data % __fullBlockSize
@@ -157,28 +157,28 @@ def decode_block(data, buf, index):
     l_data = len(data)
 
     if l_data < 1 or l_data > __fullEncodedBlockSize:
-        return "Invalid block length: " + l_data
+        raise ValueError("Invalid block length: " + str(l_data))
 
     res_size = __encodedBlockSizes.index(l_data)
     if res_size <= 0:
-        return "Invalid block size"
+        raise ValueError("Invalid block size")
 
     res_num = 0
     order = 1
     for i in range(l_data - 1, -1, -1):
         digit = __alphabet.index(data[i])
         if digit < 0:
-            return "Invalid symbol"
+            raise ValueError("Invalid symbol")
 
         product = order * digit + res_num
-        if product > __UINT64MAX:
-            return "Overflow"
+        if product >= __UINT64MAX:
+            raise ValueError("Overflow")
 
         res_num = product
         order = order * __b58base
 
     if res_size < __fullBlockSize and 2 ** (8 * res_size) <= res_num:
-        return "Overflow 2"
+        raise ValueError("Overflow 2")
 
     tmp_buf = _uint64_to_8be(res_num, res_size)
     for i in range(len(tmp_buf)):
@@ -195,18 +195,18 @@ def b58decode(data_hex=None, data_bin=None):
     :param data_bin:
     :return:
     """
-    enc = bytearray(data_bin) if data_bin else _strToBin(data_hex)
+    enc = bytearray(data_bin) if data_bin is not None else _strToBin(data_hex)
     l_enc = len(enc)
 
     if l_enc == 0:
-        return ""
+        return b""
 
     full_block_count = l_enc // __fullEncodedBlockSize
     last_block_size = l_enc % __fullEncodedBlockSize
     last_block_decoded_size = __encodedBlockSizes.index(last_block_size)
 
     if last_block_decoded_size < 0:
-        return "Invalid encoded length"
+        raise ValueError("Invalid encoded length")
 
     data_size = full_block_count * __fullBlockSize + last_block_decoded_size
 
-- 
2.43.0


From 2d76edb22c0d360fe438db9389dacf6617f30204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:13 +0000
Subject: [PATCH 17/71] fix: validate the address length and mark exactly the
 subaddresses as such

---
 monero_glue/xmr/monero.py   | 6 +++---
 monero_glue/xmr/sub/addr.py | 6 ++++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/monero_glue/xmr/monero.py b/monero_glue/xmr/monero.py
index 44467c7..c86ac24 100644
--- a/monero_glue/xmr/monero.py
+++ b/monero_glue/xmr/monero.py
@@ -485,7 +485,7 @@ def ecdh_hash(shared_sec):
 
 
 def build_address_info(creds, subidx=None, payment_id=None, net_type=NetworkTypes.MAINNET):
-    if (subidx is not None and subidx != (0, 0)) and payment_id:
+    if (subidx is not None and tuple(subidx) != (0, 0)) and payment_id:
         raise ValueError('Subaddress cannot be integrated')
 
     pub_spend, pub_view = creds.spend_key_public, creds.view_key_public
@@ -499,7 +499,7 @@ def build_address_info(creds, subidx=None, payment_id=None, net_type=NetworkType
     ai.view_key = crypto.encodepoint(pub_view)
     ai.payment_id = payment_id
     ai.net_type = net_type
-    ai.is_integrated = payment_id is not None
-    ai.is_sub_address = subidx is not None
+    ai.is_integrated = bool(payment_id)
+    ai.is_sub_address = subidx is not None and tuple(subidx) != (0, 0)
     ai.recompute_addr()
     return ai
diff --git a/monero_glue/xmr/sub/addr.py b/monero_glue/xmr/sub/addr.py
index 892d970..a227ece 100644
--- a/monero_glue/xmr/sub/addr.py
+++ b/monero_glue/xmr/sub/addr.py
@@ -29,6 +29,8 @@ class AddrInfo(object):
         self.net_type = get_addr_type(ver)
         self.is_sub_address = is_subaddress(ver)
         self.is_integrated = is_integrated(ver)
+        if len(data) != (72 if self.is_integrated else 64):
+            raise ValueError("Invalid address length")
         self.spend_key = data[0:32]
         self.view_key = data[32:64]
         if self.is_integrated:
@@ -49,7 +51,7 @@ class AddrInfo(object):
     def recompute_sub(self, spend_key, view_key, major=0, minor=0):
         self.spend_key = spend_key
         self.view_key = view_key
-        self.is_sub_address = major != 0 and minor != 0
+        self.is_sub_address = major != 0 or minor != 0
         self.recompute_addr()
 
 
@@ -122,7 +124,7 @@ def public_addr_encode(
     """
     if payment_id and len(payment_id) != 8:
         raise ValueError("Payment ID has to have exactly 8B for an integrated address")
-    net_ver = net_version(net, is_sub, payment_id is not None)
+    net_ver = net_version(net, is_sub, bool(payment_id))
     return encode_addr(
         net_ver, pub_addr.spend_public_key, pub_addr.view_public_key, payment_id
     )
-- 
2.43.0


From fe6309b132026fc30f032e4d6612e25d86c088f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:53 +0000
Subject: [PATCH 18/71] fix: do not decode the hidden amounts inside of the
 scanned transaction

---
 monero_glue/xmr/monero.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/xmr/monero.py b/monero_glue/xmr/monero.py
index c86ac24..61b0729 100644
--- a/monero_glue/xmr/monero.py
+++ b/monero_glue/xmr/monero.py
@@ -315,7 +315,7 @@ def ecdh_decode_simple(rv, sk, i, v2=False):
     if len(rv.outPk) != len(rv.ecdhInfo):
         raise ValueError("outPk vs ecdhInfo mismatch")
 
-    ecdh_info = rv.ecdhInfo[i]
+    ecdh_info = copy_ecdh(rv.ecdhInfo[i])
     ecdh_info = recode_ecdh(ecdh_info, False)
 
     ecdh_info = ring_ct.ecdh_decode(ecdh_info, derivation=crypto.encodeint(sk), v2=v2)
-- 
2.43.0


From 28e6f227194915acc96bfe51739a60c477464c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:39 +0000
Subject: [PATCH 19/71] fix: derive the amount key from the receiver's secret
 as the sender does

---
 monero_glue/xmr/ring_ct.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/monero_glue/xmr/ring_ct.py b/monero_glue/xmr/ring_ct.py
index 2a42643..cc004ce 100644
--- a/monero_glue/xmr/ring_ct.py
+++ b/monero_glue/xmr/ring_ct.py
@@ -461,7 +461,9 @@ def ecdh_encdec(masked, receiver_sk=None, derivation=None, v2=False, enc=True, d
     """
     rv = xmrtypes.EcdhTuple() if dest is None else dest
     if derivation is None:
-        derivation = crypto.scalarmult(masked.senderPk, receiver_sk)
+        derivation = crypto.encodepoint(
+            crypto.scalarmult(masked.senderPk, receiver_sk)
+        )
 
     if v2:
         amnt = masked.amount
-- 
2.43.0


From d6005765e9faa5e7b7f04cdc42f3ebd8ca7ed1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 20/71] fix: encode the extra nonce length as the parser reads
 it, return bytes after removing a field

---
 monero_glue/xmr/sub/tsx_helper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/monero_glue/xmr/sub/tsx_helper.py b/monero_glue/xmr/sub/tsx_helper.py
index cc39eda..741e482 100644
--- a/monero_glue/xmr/sub/tsx_helper.py
+++ b/monero_glue/xmr/sub/tsx_helper.py
@@ -189,7 +189,7 @@ async def remove_field_from_tx_extra(extra, mtype):
     :return:
     """
     if len(extra) == 0:
-        return []
+        return b""
 
     reader = MemoryReaderWriter(extra)
     writer = MemoryReaderWriter()
@@ -200,7 +200,7 @@ async def remove_field_from_tx_extra(extra, mtype):
         if not isinstance(c_extras, mtype):
             await ar_write.variant(c_extras, elem_type=TxExtraField)
 
-    return writer.get_buffer()
+    return bytes(writer.get_buffer())
 
 
 def add_extra_nonce_to_tx_extra(extra, extra_nonce):
@@ -212,7 +212,7 @@ def add_extra_nonce_to_tx_extra(extra, extra_nonce):
     """
     if len(extra_nonce) > 255:
         raise ValueError("Nonce could be 255 bytes max")
-    extra += b"\x02" + len(extra_nonce).to_bytes(1, "big") + extra_nonce
+    extra += b"\x02" + xmrserialize.dump_uvarint_b(len(extra_nonce)) + extra_nonce
     return extra
 
 
-- 
2.43.0


From 394c9404e17a526d139782de4f1735c42d97a6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:32 +0000
Subject: [PATCH 21/71] fix: stop signing when the device replies with an
 unexpected message

---
 monero_glue/agent/agent_lite.py | 36 +++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/monero_glue/agent/agent_lite.py b/monero_glue/agent/agent_lite.py
index 24a2b39..815ceb2 100644
--- a/monero_glue/agent/agent_lite.py
+++ b/monero_glue/agent/agent_lite.py
@@ -30,7 +30,9 @@ from monero_glue.messages import (
     MoneroTransactionFinalRequest,
     MoneroTransactionInitAck,
     MoneroTransactionInitRequest,
+    MoneroTransactionInputsPermutationAck,
     MoneroTransactionInputsPermutationRequest,
+    MoneroTransactionInputViniAck,
     MoneroTransactionInputViniRequest,
     MoneroTransactionRsigData,
     MoneroTransactionSetInputAck,
@@ -190,15 +192,19 @@ class Agent(object):
         """
         return isinstance(response, TError) or isinstance(response, Failure)
 
-    def handle_error(self, response):
+    def handle_error(self, response, expected=None):
         """
-        Raises an error if Trezor returned an error.
+        Raises an error if Trezor returned an error or an unexpected message.
         :param response:
+        :param expected: type of the message the protocol continues with
         :return:
         """
-        if not self.is_error(response):
-            return
-        raise agent_misc.TrezorReturnedError(resp=response)
+        if self.is_error(response):
+            raise agent_misc.TrezorReturnedError(resp=response)
+        if expected is not None and not isinstance(response, expected):
+            raise agent_misc.AgentError(
+                "Unexpected response: %s" % response.__class__.__name__
+            )
 
     async def sign_unsigned_tx(self, unsig):
         """
@@ -391,7 +397,7 @@ class Agent(object):
         )
 
         t_res = await self.trezor.tsx_sign(init_msg)  # type: MoneroTransactionInitAck
-        self.handle_error(t_res)
+        self.handle_error(t_res, MoneroTransactionInitAck)
 
         self.ct.tx_out_entr_hmacs = t_res.hmacs
         self.ct.rsig_param = t_res.rsig_data
@@ -404,7 +410,7 @@ class Agent(object):
             t_res = await self.trezor.tsx_sign(
                 msg
             )  # type: MoneroTransactionSetInputAck
-            self.handle_error(t_res)
+            self.handle_error(t_res, MoneroTransactionSetInputAck)
 
             vini_p = await tmisc.parse_msg(t_res.vini, xmrtypes.TxInV())
             vini = vini_p.txin_to_key
@@ -441,7 +447,7 @@ class Agent(object):
 
         msg = MoneroTransactionInputsPermutationRequest(perm=self.ct.source_permutation)
         t_res = await self.trezor.tsx_sign(msg)
-        self.handle_error(t_res)
+        self.handle_error(t_res, MoneroTransactionInputsPermutationAck)
 
         # Set vin_i back - tx prefix hashing
         for idx in range(len(self.ct.tx.vin)):
@@ -453,13 +459,13 @@ class Agent(object):
                 orig_idx=self.ct.source_permutation[idx],
             )
             t_res = await self.trezor.tsx_sign(msg)
-            self.handle_error(t_res)
+            self.handle_error(t_res, MoneroTransactionInputViniAck)
 
         # All inputs set
         t_res = await self.trezor.tsx_sign(
             MoneroTransactionAllInputsSetRequest()
         )  # type: MoneroTransactionAllInputsSetAck
-        self.handle_error(t_res)
+        self.handle_error(t_res, MoneroTransactionAllInputsSetAck)
         await self._on_all_input_set(t_res)
 
         # Set transaction outputs
@@ -469,14 +475,14 @@ class Agent(object):
             t_res = await self.trezor.tsx_sign(
                 msg
             )  # type: MoneroTransactionSetOutputAck
-            self.handle_error(t_res)
+            self.handle_error(t_res, MoneroTransactionSetOutputAck)
 
             await self._on_set_outputs_ack(idx, dst, t_res)
 
         t_res = await self.trezor.tsx_sign(
             MoneroTransactionAllOutSetRequest()
         )  # type: MoneroTransactionAllOutSetAck
-        self.handle_error(t_res)
+        self.handle_error(t_res, MoneroTransactionAllOutSetAck)
 
         rv = xmrtypes.RctSig()
         rv.p = xmrtypes.RctSigPrunable()
@@ -534,7 +540,7 @@ class Agent(object):
             t_res = await self.trezor.tsx_sign(
                 msg
             )  # type: MoneroTransactionSignInputAck
-            self.handle_error(t_res)
+            self.handle_error(t_res, MoneroTransactionSignInputAck)
 
             if self.client_version > 0 and t_res.pseudo_out:
                 self.ct.pseudo_outs[idx] = t_res.pseudo_out, self.ct.pseudo_outs[idx][1]
@@ -553,7 +559,7 @@ class Agent(object):
         t_res = await self.trezor.tsx_sign(
             MoneroTransactionFinalRequest()
         )  # type: MoneroTransactionFinalAck
-        self.handle_error(t_res)
+        self.handle_error(t_res, MoneroTransactionFinalAck)
 
         if multisig:
             cout_key = t_res.cout_key
@@ -734,7 +740,7 @@ class Agent(object):
         )
 
         t_res = await self.trezor.tsx_sign(msg)  # type: MoneroTransactionSetOutputAck
-        self.handle_error(t_res)
+        self.handle_error(t_res, MoneroTransactionSetOutputAck)
         return True
 
     def last_transaction_data(self):
-- 
2.43.0


From 08825fc4628849cb2c94de20ed362af7fd215c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:29 +0000
Subject: [PATCH 22/71] fix: do not return a transaction whose range proof,
 signature or balance is invalid

---
 monero_glue/agent/agent_lite.py | 65 ++++++++++++++++++++++++++-------
 1 file changed, 52 insertions(+), 13 deletions(-)

diff --git a/monero_glue/agent/agent_lite.py b/monero_glue/agent/agent_lite.py
index 815ceb2..6a63be3 100644
--- a/monero_glue/agent/agent_lite.py
+++ b/monero_glue/agent/agent_lite.py
@@ -3,7 +3,6 @@
 # Author: Dusan Klinec, ph4r05, 2018
 
 import logging
-import traceback
 
 from monero_glue.agent import agent_misc
 from monero_glue.hwtoken import misc as tmisc
@@ -42,9 +41,10 @@ from monero_glue.messages import (
     MoneroTransactionSignInputAck,
     MoneroTransactionSignInputRequest,
     MoneroOutputEntry,
+    MoneroRctKeyPublic,
 )
 from monero_glue.protocol_base.base import TError
-from monero_glue.xmr import common, crypto, key_image, monero, ring_ct
+from monero_glue.xmr import common, crypto, key_image, mlsag2, monero, ring_ct
 from monero_glue.xmr.enc import chacha_poly
 from monero_glue.xmr.sub import addr as xmr_addr
 from monero_serialize import xmrserialize, xmrtypes
@@ -518,6 +518,10 @@ class Agent(object):
             else:
                 rv.p.rangeSigs.append(self.ct.tx_out_rsigs[idx])
 
+        # Signed message binds the prefix
+        if not common.ct_equal(rv.message, self.ct.tx_prefix_hash):
+            raise ValueError("Signed message does not match the prefix hash")
+
         mlsag_hash = t_res.full_message_hash
         mlsag_hash_computed = await monero.get_pre_mlsag_hash(rv)
         if not common.ct_equal(mlsag_hash, mlsag_hash_computed):
@@ -553,6 +557,12 @@ class Agent(object):
             rv.p.MGs.append(mg)
             couts.append(None)
 
+            if self.is_simple(rv):
+                self._check_input_signature(idx, src, rv, mg, mlsag_hash)
+
+        if self.is_simple(rv):
+            self._check_balance(rv)
+
         self.ct.tx.signatures = []
         self.ct.tx.rct_signatures = rv
 
@@ -570,6 +580,40 @@ class Agent(object):
         self.ct.enc_keys = t_res.tx_enc_keys
         return self.ct.tx
 
+    def _pseudo_outs(self, rv):
+        return rv.p.pseudoOuts if self.is_bulletproof(rv) else rv.pseudoOuts
+
+    def _check_input_signature(self, idx, src, rv, mg, mlsag_hash):
+        """
+        Checks the ring signature returned by the device
+        """
+        ring = [
+            MoneroRctKeyPublic(dest=x[1].dest, commitment=x[1].mask)
+            for x in src.outputs
+        ]
+        mg_dec = xmrtypes.MgSig(
+            ss=[[crypto.decodeint(x) for x in row] for row in mg.ss],
+            cc=crypto.decodeint(mg.cc),
+            II=[crypto.decodepoint(self.ct.tx.vin[idx].k_image)],
+        )
+        pseudo_out = crypto.decodepoint(self._pseudo_outs(rv)[idx])
+        if not mlsag2.ver_rct_mg_simple(mlsag_hash, mg_dec, ring, pseudo_out):
+            raise ValueError("Signature of the input %d is not valid" % idx)
+
+    def _check_balance(self, rv):
+        """
+        Checks that the input commitments sum to the outputs and the fee
+        """
+        total = crypto.scalarmult_h(rv.txnFee)
+        for out_pk in rv.outPk:
+            total = crypto.point_add(total, crypto.decodepoint(out_pk.mask))
+
+        for pseudo_out in self._pseudo_outs(rv):
+            total = crypto.point_sub(total, crypto.decodepoint(pseudo_out))
+
+        if not crypto.point_eq(total, crypto.identity()):
+            raise ValueError("Inputs do not balance the outputs and the fee")
+
     async def _on_all_input_set(self, ack):
         if not self._is_offloading() or self.client_version > 0:
             return
@@ -714,17 +758,12 @@ class Agent(object):
         self.ct.tx_out_rsigs.append(rsig)
 
         # Rsig verification
-        try:
-            if not ring_ct.ver_range(
-                C=crypto.decodepoint(self.ct.tx_out_pk[-1].mask),
-                rsig=rsig,
-                use_bulletproof=self._is_req_bulletproof(),
-            ):
-                logger.warning("Rsing not valid")
-
-        except Exception as e:
-            logger.error("Exception rsig: %s" % e)
-            traceback.print_exc()
+        if not ring_ct.ver_range(
+            C=crypto.decodepoint(self.ct.tx_out_pk[-1].mask),
+            rsig=rsig,
+            use_bulletproof=self._is_req_bulletproof(),
+        ):
+            raise ValueError("Range proof is not valid")
 
     async def _v1_offloading(self, idx, dst, t_res):
         """
-- 
2.43.0


From 04f7e5e58512da66aa4682830d11a961777ff74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:35 +0000
Subject: [PATCH 23/71] fix: verify the Monero mnemonic checksum, refuse
 impossible words, split phrases given as a string

---
 monero_glue/xmr/core/mnemonic.py | 12 +++++++++---
 monero_glue/xmr/sub/seed.py      | 11 ++++++-----
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/monero_glue/xmr/core/mnemonic.py b/monero_glue/xmr/core/mnemonic.py
index a3db4b4..8490231 100644
--- a/monero_glue/xmr/core/mnemonic.py
+++ b/monero_glue/xmr/core/mnemonic.py
@@ -1681,7 +1681,9 @@ def mn_encode(message, checksum=False):
 def mn_decode(wlist):
     out = ""
     n = len(words)
-    has_checksum = (n % 3) == 1
+    has_checksum = (len(wlist) % 3) == 1
+    if len(wlist) % 3 == 2:
+        raise ValueError("Invalid number of words")
 
     if has_checksum:
         if not checksum_test(wlist):
@@ -1694,6 +1696,8 @@ def mn_decode(wlist):
         w2 = words.index(word2)
         w3 = words.index(word3)
         x = w1 + n * ((n + w2 - w1) % n) + n * n * ((n + w3 - w2) % n)  # as an int
+        if x > 0xFFFFFFFF:
+            raise ValueError("Invalid combination of words")
         b = "%08x" % x  # this is big endian!
         out += mn_swap_endian_4byte(b)
 
@@ -1711,8 +1715,10 @@ def checksum_create(wlist, unique_prefix_len=UNIQUE_PREFIX_LEN):
 
 
 def checksum_test(wlist, unique_prefix_len=UNIQUE_PREFIX_LEN):
-    words = wlist
-    last_word = words.pop()
+    words = wlist[:-1]
+    if len(words) == 0:
+        return False
+    last_word = wlist[-1]
     checksum = words[checksum_create(words, unique_prefix_len)]
     trimmed_checksum = (
         checksum[:unique_prefix_len] if len(checksum) > unique_prefix_len else checksum
diff --git a/monero_glue/xmr/sub/seed.py b/monero_glue/xmr/sub/seed.py
index 7e02123..a00eb25 100644
--- a/monero_glue/xmr/sub/seed.py
+++ b/monero_glue/xmr/sub/seed.py
@@ -83,12 +83,13 @@ class SeedDerivation(object):
     @staticmethod
     def clean_input(inp):
         cleaned = []
-        if isinstance(inp, (str, bytes)):
-            cleaned = [inp]
+        if isinstance(inp, bytes):
+            inp = inp.decode("utf8")
+        if isinstance(inp, str):
+            inp = [inp]
 
-        else:
-            for w in inp:
-                cleaned += w.split(" ")
+        for w in inp:
+            cleaned += w.split()
 
         cleaned = [x.strip().lower() for x in cleaned]
         return cleaned
-- 
2.43.0


From 102ed89eb5745c37cb477284a0d8274064b911de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:36 +0000
Subject: [PATCH 24/71] fix: derive public BIP-32 children, do not mix up
 derivations that differ in keyword arguments

---
 monero_glue/misc/bip/bip32.py | 2 +-
 monero_glue/misc/bip/utils.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/monero_glue/misc/bip/bip32.py b/monero_glue/misc/bip/bip32.py
index b9dbd8e..cfb5a00 100644
--- a/monero_glue/misc/bip/bip32.py
+++ b/monero_glue/misc/bip/bip32.py
@@ -445,7 +445,7 @@ class Wallet(object):
                 _ECDSA_Public_key(g, g * I_L_long).point + self.public_key.to_point()
             )
             # I_R is the child's chain code
-            private_key = PrivateKey(private_exponent)
+            private_key = None
             public_key = PublicKey.from_public_pair(PublicPair(point.x(), point.y()))
 
         if public_key.to_point() == INFINITY:
diff --git a/monero_glue/misc/bip/utils.py b/monero_glue/misc/bip/utils.py
index b561a7c..5b0317c 100644
--- a/monero_glue/misc/bip/utils.py
+++ b/monero_glue/misc/bip/utils.py
@@ -62,7 +62,7 @@ def memoize(f):
     def _c(*args, **kwargs):
         if not hasattr(f, "cache"):
             f.cache = dict()
-        key = (args, tuple(kwargs))
+        key = (args, tuple(sorted(kwargs.items())))
         if key not in f.cache:
             f.cache[key] = f(*args, **kwargs)
         return f.cache[key]
-- 
2.43.0


From 7281e8e49a1732e24b6136a10610a8ea2d7d8383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:37 +0000
Subject: [PATCH 25/71] fix: refuse a ring signature whose scalars are not
 reduced

---
 monero_glue/agent/agent_lite.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/monero_glue/agent/agent_lite.py b/monero_glue/agent/agent_lite.py
index 6a63be3..c5192ba 100644
--- a/monero_glue/agent/agent_lite.py
+++ b/monero_glue/agent/agent_lite.py
@@ -591,6 +591,10 @@ class Agent(object):
             MoneroRctKeyPublic(dest=x[1].dest, commitment=x[1].mask)
             for x in src.outputs
         ]
+        for x in [x for row in mg.ss for x in row] + [mg.cc]:
+            if crypto.encodeint(crypto.decodeint(x)) != x:
+                raise ValueError("Signature of the input %d is not canonical" % idx)
+
         mg_dec = xmrtypes.MgSig(
             ss=[[crypto.decodeint(x) for x in row] for row in mg.ss],
             cc=crypto.decodeint(mg.cc),
-- 
2.43.0


From 21b41df498c1f591b9cac3030de02c118b95ed6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:28 +0000
Subject: [PATCH 26/71] fix: refuse ring signatures with a key image outside
 the prime order subgroup or a wrong number of elements

---
 monero_glue/xmr/mlsag2.py  | 22 ++++++++++++++++++++++
 monero_glue/xmr/ring_ct.py |  3 +++
 2 files changed, 25 insertions(+)

diff --git a/monero_glue/xmr/mlsag2.py b/monero_glue/xmr/mlsag2.py
index 4a6570f..57c18b2 100644
--- a/monero_glue/xmr/mlsag2.py
+++ b/monero_glue/xmr/mlsag2.py
@@ -121,6 +121,18 @@ def decode_points(vct):
     return [crypto.decodepoint(x) for x in vct]
 
 
+def key_image_valid(ki):
+    """
+    Key image has to be a nonzero element of the prime order subgroup.
+    Adding a small order point would otherwise give another valid key image of the same key.
+    :param ki: key image, point form
+    :return:
+    """
+    if crypto.point_eq(ki, crypto.identity()):
+        return False
+    return crypto.point_eq(crypto.point_mul8(crypto.point_mulinv8(ki)), ki)
+
+
 #
 # Borromean signatures for range proofs
 #
@@ -408,6 +420,9 @@ def ver_mlsag_ext(message, pk, rv, dsRows):
     :return:
     """
     rows, cols = ver_mlsag_assert(pk, rv, dsRows)
+    if not all(key_image_valid(rv.II[i]) for i in range(dsRows)):
+        return False
+
     c_old = rv.cc
 
     Ip = key_vector(dsRows)
@@ -784,6 +799,13 @@ def _generate_clsag(
 
 def verify_clsag(msg, ss, sc1, sI, sD, pubs, C_offset):
     n = len(pubs)
+    if n == 0:
+        raise ValueError("Empty pubs")
+    if len(ss) != n:
+        raise ValueError("Bad ss size")
+    if not key_image_valid(sI):
+        raise ValueError("Bad key image")
+
     c = crypto.new_scalar()
     D_8 = crypto.new_point()
     tmp_bf = bytearray(32)
diff --git a/monero_glue/xmr/ring_ct.py b/monero_glue/xmr/ring_ct.py
index cc004ce..843995e 100644
--- a/monero_glue/xmr/ring_ct.py
+++ b/monero_glue/xmr/ring_ct.py
@@ -586,6 +586,9 @@ def check_ring_singature(prefix_hash, image, pubs, sig):
     """
     Checks ring signature generated with generate_ring_signature
     """
+    if len(sig) != len(pubs) or not mlsag2.key_image_valid(image):
+        return False
+
     image_unp = crypto.ge_frombytes_vartime(image)
     image_pre = crypto.ge_dsm_precomp(image_unp)
 
-- 
2.43.0


From 2c065d4471a66ed3885f2fdf75501a68ded233c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:59 +0000
Subject: [PATCH 27/71] fix: proving with the in-memory Bulletproof prover

---
 monero_glue/xmr/bulletproof.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/xmr/bulletproof.py b/monero_glue/xmr/bulletproof.py
index 7915233..05a6094 100644
--- a/monero_glue/xmr/bulletproof.py
+++ b/monero_glue/xmr/bulletproof.py
@@ -2115,7 +2115,7 @@ class BulletProofBuilder:
         r0 = KeyR0(MN, N, aR, y, z)
         ypow = KeyVPowers(MN, y, raw=True)
         r1 = KeyVEval(
-            MN, lambda i, d: _sc_mul(d, sR.to(i), None, ypow[i])  # noqa: F821
+            MN, lambda i, d: _sc_mul(d, sR.to(i), b_raw=ypow[i])  # noqa: F821
         )
         del aR
         self.gc(14)
-- 
2.43.0


From eea6afe19fa0a075ac471ce64f75212d222e7400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:59 +0000
Subject: [PATCH 28/71] fix: decode the range proof of the backend once

---
 monero_glue/xmr/ring_ct.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/monero_glue/xmr/ring_ct.py b/monero_glue/xmr/ring_ct.py
index 843995e..7240874 100644
--- a/monero_glue/xmr/ring_ct.py
+++ b/monero_glue/xmr/ring_ct.py
@@ -230,7 +230,6 @@ def prove_range(
         if not byte_enc:
             R = monero.inflate_rsig(R)
         if decode:
-            R = monero.inflate_rsig(R)
             R = monero.recode_rangesig(R, encode=False)
 
         return C, a, R
-- 
2.43.0


From 779173da31a74f6ec31e2a7de023dd33b4b0a2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:25 +0000
Subject: [PATCH 29/71] fix: offloaded proving of a batch whose size is not a
 power of two

---
 monero_glue/xmr/bulletproof_cl.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/monero_glue/xmr/bulletproof_cl.py b/monero_glue/xmr/bulletproof_cl.py
index 01fdd02..f2a0ccf 100644
--- a/monero_glue/xmr/bulletproof_cl.py
+++ b/monero_glue/xmr/bulletproof_cl.py
@@ -115,6 +115,14 @@ def dechunk_res(buffers, exp_res=1):
     return cres if exp_res > 1 else cres[0]
 
 
+def padded_m(m):
+    """Number of values the prover works with: the batch is padded to a power of two"""
+    r = 1
+    while r < m:
+        r <<= 1
+    return r
+
+
 def vect_clone(dst, src):
     dst = bp.ensure_dst_keyvect(dst, len(src))
     for i in range(len(src)):
@@ -145,7 +153,7 @@ class BulletproofClient:
         self.batching = 32
         self.off2_thresh = 32
         self.M = m
-        self.MN = 64 * self.M
+        self.MN = 64 * padded_m(self.M)
 
         self.is_debug = True
         self.do_timing = True
@@ -181,7 +189,7 @@ class BulletproofClient:
 
     async def compute_bp(self):
         ln = self.M
-        self.MN = 64 * ln
+        self.MN = 64 * padded_m(ln)
 
         bpi = bp.BulletProofBuilder()
         l = bytearray()
-- 
2.43.0


From d79e957e3367bce85bcdac6138f0d72ce1f8f459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:25 +0000
Subject: [PATCH 30/71] fix: refuse to offload a range proof with masks which
 change in every step

---
 monero_glue/xmr/bulletproof.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/monero_glue/xmr/bulletproof.py b/monero_glue/xmr/bulletproof.py
index 05a6094..919042c 100644
--- a/monero_glue/xmr/bulletproof.py
+++ b/monero_glue/xmr/bulletproof.py
@@ -2370,6 +2370,8 @@ class BulletProofBuilder:
         return r[1]
 
     def prove_batch_off(self, sv, gamma, buffers=None):
+        # The vectors sL, sR are evaluated again in every step thus have to be reproducible
+        self.assrt(self.use_det_masks, "Offloading requires deterministic masks")
         M, logM, aL, aR, V, gamma = self.prove_setup(sv, gamma)
         hash_cache = _ensure_dst_key()
 
-- 
2.43.0


From 8175fdcaaf5911e03474f39b6735deea27df63fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:24 +0000
Subject: [PATCH 31/71] fix: size of an encoded protobuf message

---
 monero_glue/protobuf.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/monero_glue/protobuf.py b/monero_glue/protobuf.py
index b308db6..b0c711e 100644
--- a/monero_glue/protobuf.py
+++ b/monero_glue/protobuf.py
@@ -38,7 +38,6 @@ required:
 '''
 
 import binascii
-from io import BytesIO
 from typing import Any, Optional
 
 _UVARINT_BUFFER = bytearray(1)
@@ -230,9 +229,13 @@ class MessageType:
         self.__dict__ = obj.__dict__.copy()
 
     def ByteSize(self):
-        data = BytesIO()
-        dump_message(data, self)
-        return len(data.getvalue())
+        counter = CountingWriter()
+        coro = dump_message(counter, self)
+        try:
+            while True:  # the writer never suspends
+                coro.send(None)
+        except StopIteration:
+            return counter.size
 
 
 class LimitedReader:
-- 
2.43.0


From ed321117af384aaffe67c94d86bbc0552292d6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:24 +0000
Subject: [PATCH 32/71] fix: convert nested trezorlib messages back to the
 package's own

---
 monero_glue/protocol_base/messages.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/monero_glue/protocol_base/messages.py b/monero_glue/protocol_base/messages.py
index 1d6d023..59bd2c5 100644
--- a/monero_glue/protocol_base/messages.py
+++ b/monero_glue/protocol_base/messages.py
@@ -91,13 +91,13 @@ class MessageConverter(object):
                 field_name = field[0]
                 if hasattr(msg, field_name):
                     cval = getattr(msg, field_name, None)
-                    setattr(nmsg, field_name, self.to_trezorlib(cval))
+                    setattr(nmsg, field_name, self._transform(cval, src_proto, dst_package))
             return nmsg
 
         elif isinstance(msg, list):
-            return [self.to_trezorlib(x) for x in msg]
+            return [self._transform(x, src_proto, dst_package) for x in msg]
         elif isinstance(msg, dict):
-            return {v: self.to_trezorlib(x) for v, x in msg.items()}
+            return {v: self._transform(x, src_proto, dst_package) for v, x in msg.items()}
         else:
             return msg
 
-- 
2.43.0


From 4e9347e0e7cc293884f19121bfbb8d5f4c8b7dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:22 +0000
Subject: [PATCH 33/71] fix: AES-CBC encryption used ECB mode and failed

---
 monero_glue/xmr/enc/aescbc.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/monero_glue/xmr/enc/aescbc.py b/monero_glue/xmr/enc/aescbc.py
index f9dd6a4..48c5588 100644
--- a/monero_glue/xmr/enc/aescbc.py
+++ b/monero_glue/xmr/enc/aescbc.py
@@ -5,6 +5,11 @@
 from Crypto.Cipher import AES
 
 
+def _iv(iv):
+    # The IV is not a part of the ciphertext, both sides have to use the same one
+    return bytes(iv) if iv is not None else b"\x00" * AES.block_size
+
+
 def encrypt(key, plaintext, iv=None):
     """
     Uses AES-CBC for encryption
@@ -14,7 +19,7 @@ def encrypt(key, plaintext, iv=None):
     :return: ciphertext
     """
 
-    cipher = AES.new(key, AES.MODE_ECB, iv=iv)
+    cipher = AES.new(key, AES.MODE_CBC, iv=_iv(iv))
     return cipher.encrypt(plaintext)
 
 
@@ -26,5 +31,5 @@ def decrypt(key, ciphertext, iv=None):
     :param iv:
     :return:
     """
-    cipher = AES.new(key, AES.MODE_CBC, iv=iv)
+    cipher = AES.new(key, AES.MODE_CBC, iv=_iv(iv))
     return cipher.decrypt(ciphertext)
-- 
2.43.0


From 70936347be57492048befa57dc69d8770ba2f04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:22 +0000
Subject: [PATCH 34/71] fix: packed ciphertext with associated data could not
 be opened

---
 monero_glue/xmr/enc/chacha_poly.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monero_glue/xmr/enc/chacha_poly.py b/monero_glue/xmr/enc/chacha_poly.py
index e7291f2..4acbb8a 100644
--- a/monero_glue/xmr/enc/chacha_poly.py
+++ b/monero_glue/xmr/enc/chacha_poly.py
@@ -45,5 +45,5 @@ def encrypt_pack(key, plaintext, associated_data=None):
     return b"".join(encrypt(key, plaintext, associated_data))
 
 
-def decrypt_pack(key, ciphertext):
-    return decrypt(key, ciphertext[:12], ciphertext[12:], None)
+def decrypt_pack(key, ciphertext, associated_data=None):
+    return decrypt(key, ciphertext[:12], ciphertext[12:], associated_data)
-- 
2.43.0


From 788d8845f7be25a7b8261056c07691db6b614e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:22 +0000
Subject: [PATCH 35/71] fix: refuse sealed data whose signature is not in the
 reduced form

---
 monero_glue/xmr/enc/chacha.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/xmr/enc/chacha.py b/monero_glue/xmr/enc/chacha.py
index 092d23f..47fb0b3 100644
--- a/monero_glue/xmr/enc/chacha.py
+++ b/monero_glue/xmr/enc/chacha.py
@@ -52,7 +52,7 @@ def decrypt_xmr(priv_key, ciphertext, authenticated=True):
         c = crypto.decodeint(signature[:32])
         r = crypto.decodeint(signature[32:])
         res = crypto.check_signature(hash, c, r, pub)
-        if not res:
+        if not res or crypto.encodeint(c) + crypto.encodeint(r) != signature:
             raise ValueError("Signature invalid")
 
     key = generate_key(crypto.encodeint(priv_key))
-- 
2.43.0


From e6ec48a57a9b165b08f807b4bb7d13c73631aea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:22 +0000
Subject: [PATCH 36/71] fix: Keccak hexdigest failed, native digest destroyed
 the hasher state

---
 monero_glue/xmr/core/backend/keccak2.py | 2 +-
 monero_glue/xmr/core/ec_trezor.py       | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/monero_glue/xmr/core/backend/keccak2.py b/monero_glue/xmr/core/backend/keccak2.py
index acddc0c..d40e22c 100644
--- a/monero_glue/xmr/core/backend/keccak2.py
+++ b/monero_glue/xmr/core/backend/keccak2.py
@@ -345,7 +345,7 @@ class KeccakHash(object):
         return res
 
     def hexdigest(self):
-        return self.digest().encode("hex")
+        return bytes(self.digest()).hex()
 
     @staticmethod
     def preset(bitrate_bits, capacity_bits, output_bits):
diff --git a/monero_glue/xmr/core/ec_trezor.py b/monero_glue/xmr/core/ec_trezor.py
index 0baae64..b494a31 100644
--- a/monero_glue/xmr/core/ec_trezor.py
+++ b/monero_glue/xmr/core/ec_trezor.py
@@ -66,16 +66,16 @@ class KeccakWrapper(object):
         tcry.xmr_hasher_update(self.h, bytes(s))
 
     def digest(self, buff=None):
-        r = tcry.xmr_hasher_final_r(self.h)
+        # finalisation destroys the context, digest() must not change the state
+        r = tcry.xmr_hasher_final_r(tcry.xmr_hasher_copy_r(self.h))
         if buff:
             for i in range(len(r)):
                 buff[i] = r[i]
             r = buff
-        self.h = None
         return r
 
     def hexdigest(self):
-        return self.digest().encode("hex")
+        return bytes(self.digest()).hex()
 
 
 def get_keccak(*args, **kwargs):
-- 
2.43.0


From 41b6c7d5df487b5f0e271304a85feb757a24b8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:22 +0000
Subject: [PATCH 37/71] fix: native keccak_hash did not support size,
 keccak_hash_into could read past the end of its input

---
 monero_glue/xmr/core/ec_trezor.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/monero_glue/xmr/core/ec_trezor.py b/monero_glue/xmr/core/ec_trezor.py
index b494a31..705109f 100644
--- a/monero_glue/xmr/core/ec_trezor.py
+++ b/monero_glue/xmr/core/ec_trezor.py
@@ -89,12 +89,12 @@ def get_keccak(*args, **kwargs):
     return k
 
 
-def keccak_hash(inp):
+def keccak_hash(inp, size=None):
     """
     Hashesh input in one call
     :return:
     """
-    return tcry.xmr_fast_hash_r(bytes(inp))
+    return tcry.xmr_fast_hash_r(bytes(inp if size is None else inp[:size]))
 
 
 def keccak_hash_into(r, inp, size=None):
@@ -103,7 +103,9 @@ def keccak_hash_into(r, inp, size=None):
     :return:point_add
     """
     bf = tcry.KEY_BUFF.from_buffer(r)
-    tcry.cl().xmr_fast_hash(bf, bytes(inp), size if size else len(inp))
+    # never hash past the end of the input
+    inp = bytes(inp if size is None else inp[:size])
+    tcry.cl().xmr_fast_hash(bf, inp, len(inp))
     return r
 
 
-- 
2.43.0


From c9928f9ce18da08d156ea72c5ad96c08f634cd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:41 +0000
Subject: [PATCH 38/71] fix: lazily evaluated range proof vectors gave wrong
 elements after a refused access

---
 monero_glue/xmr/bulletproof.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/monero_glue/xmr/bulletproof.py b/monero_glue/xmr/bulletproof.py
index 919042c..77b16da 100644
--- a/monero_glue/xmr/bulletproof.py
+++ b/monero_glue/xmr/bulletproof.py
@@ -806,6 +806,8 @@ class KeyVPowers(KeyVBase):
     def __getitem__(self, item):
         prev = self.last_idx
         item = self.idxize(item)
+        if item > 1 and item != prev and item != prev + 1:
+            raise IndexError("Only linear scan allowed: %s, %s" % (prev, item))
         self.last_idx = item
 
         if item == 0:
@@ -822,14 +824,12 @@ class KeyVPowers(KeyVBase):
             )
         elif item == prev:
             return self.cur
-        elif item == prev + 1:
+        else:
             return (
                 _sc_mul(self.cur, self.cur, self.x)
                 if not self.raw
                 else crypto.sc_mul_into(self.cur, self.cur, self.x)
             )
-        else:
-            raise IndexError("Only linear scan allowed: %s, %s" % (prev, item))
 
     def reset(self):
         return self[0]
@@ -877,6 +877,7 @@ class KeyVPrngMask(KeyVBase):
         self.seed = bytes(seed)
         self.prng = crypto.prng(seed)
         self.allow_nonlinear = allow_nonlinear
+        self._next()  # position 0 is the current one
 
     def reset(self):
         self.prng.reset(self.seed)
@@ -890,6 +891,8 @@ class KeyVPrngMask(KeyVBase):
     def __getitem__(self, item):
         prev = self.last_idx
         item = self.idxize(item)
+        if item != 0 and item != prev and item != prev + 1 and not self.allow_nonlinear:
+            raise IndexError("Only linear scan allowed: %s, %s" % (prev, item))
         self.last_idx = item
 
         if item == 0:
@@ -899,9 +902,6 @@ class KeyVPrngMask(KeyVBase):
         elif item == prev + 1:
             return self._next()
         else:
-            if not self.allow_nonlinear:
-                raise IndexError("Only linear scan allowed: %s, %s" % (prev, item))
-
             if item < prev:
                 self.reset()
                 prev = 0
@@ -976,6 +976,8 @@ class KeyR0(KeyVBase):
     def __getitem__(self, item):
         prev = self.last_idx
         item = self.idxize(item)
+        if item != 0 and item != prev and item != prev + 1:
+            raise IndexError("Only linear scan allowed")
         self.last_idx = item
 
         # Const init for eval
@@ -991,12 +993,9 @@ class KeyR0(KeyVBase):
                 crypto.decodeint_into_noreduce(self.res, _TWO)  # p2
                 crypto.sc_mul_into(self.p2, self.p2, self.res)  # p2
 
-        elif item == prev:  # No advancing
+        else:  # No advancing
             pass
 
-        else:
-            raise IndexError("Only linear scan allowed")
-
         # Eval r0[i]
         if (
             item == 0 or item != prev
-- 
2.43.0


From c69fb1982a77ce66900f07c49126404269ecae01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:41 +0000
Subject: [PATCH 39/71] fix: hash_to_scalar with zero length hashed the whole
 buffer

---
 monero_glue/xmr/core/ec_py.py     | 2 +-
 monero_glue/xmr/core/ec_trezor.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/monero_glue/xmr/core/ec_py.py b/monero_glue/xmr/core/ec_py.py
index 5771c5c..bf59fb8 100644
--- a/monero_glue/xmr/core/ec_py.py
+++ b/monero_glue/xmr/core/ec_py.py
@@ -832,7 +832,7 @@ def hash_to_scalar(data, length=None):
     :param length:
     :return:
     """
-    hash = cn_fast_hash(data[:length] if length else data)
+    hash = cn_fast_hash(data[:length] if length is not None else data)
     return decodeint(hash)
 
 
diff --git a/monero_glue/xmr/core/ec_trezor.py b/monero_glue/xmr/core/ec_trezor.py
index 705109f..6dda917 100644
--- a/monero_glue/xmr/core/ec_trezor.py
+++ b/monero_glue/xmr/core/ec_trezor.py
@@ -695,7 +695,7 @@ def hash_to_scalar(data, length=None):
     :param length:
     :return:
     """
-    dt = data[:length] if length else data
+    dt = data[:length] if length is not None else data
     return tcry.xmr_hash_to_scalar_r(bytes(dt))
 
 
@@ -706,7 +706,7 @@ def hash_to_scalar_into(r, data, length=None):
     :param length:
     :return:
     """
-    dt = data[:length] if length else data
+    dt = data[:length] if length is not None else data
     tcry.xmr_hash_to_scalar(r, bytes(dt))
     return r
 
-- 
2.43.0


From 8795087ca34a5cdc919c58a1dd8b5ab337ebed9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:41 +0000
Subject: [PATCH 40/71] fix: sum of the first power of a scalar included the
 second one

---
 monero_glue/xmr/bulletproof.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/xmr/bulletproof.py b/monero_glue/xmr/bulletproof.py
index 77b16da..9b4227d 100644
--- a/monero_glue/xmr/bulletproof.py
+++ b/monero_glue/xmr/bulletproof.py
@@ -1145,7 +1145,7 @@ def _vector_power_sum(x, n, dst=None):
     if n == 0:
         return _copy_key(dst, _ZERO)
     if n == 1:
-        _copy_key(dst, _ONE)
+        return _copy_key(dst, _ONE)
 
     crypto.decodeint_into_noreduce(_tmp_sc_1, x)
     crypto.decodeint_into_noreduce(_tmp_sc_3, _ONE)
-- 
2.43.0


From 0e8b365752d031bee996b02649198f31b1968e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:41 +0000
Subject: [PATCH 41/71] fix: vector initialised from a part of a chunked one
 stayed empty

---
 monero_glue/xmr/bulletproof.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/monero_glue/xmr/bulletproof.py b/monero_glue/xmr/bulletproof.py
index 9b4227d..bead044 100644
--- a/monero_glue/xmr/bulletproof.py
+++ b/monero_glue/xmr/bulletproof.py
@@ -568,13 +568,13 @@ class KeyV(KeyVBase):
                 self.read(i, src.to(i + offset))
 
         elif not self.chunked and src.chunked:
-            for i in range(nsize >> _CHBITS):
+            for i in range(nsize):
                 memcpy(
                     self.d,
-                    i << 11,
-                    src.d[i + (offset >> _CHBITS)],
-                    (offset & (_CHSIZE - 1)) << 5 if i == 0 else 0,
-                    nsize << 5 if i <= nsize >> _CHBITS else (nsize & _CHSIZE) << 5,
+                    i << 5,
+                    src.d[(i + offset) >> _CHBITS],
+                    ((i + offset) & (_CHSIZE - 1)) << 5,
+                    32,
                 )
 
     def sdump(self):
-- 
2.43.0


From 45133deee4e08c4822ccf4886175a80405a8c192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:27 +0000
Subject: [PATCH 42/71] fix: vector index below the negative size was accepted

---
 monero_glue/xmr/bulletproof.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/xmr/bulletproof.py b/monero_glue/xmr/bulletproof.py
index bead044..332446c 100644
--- a/monero_glue/xmr/bulletproof.py
+++ b/monero_glue/xmr/bulletproof.py
@@ -344,7 +344,7 @@ class KeyVBase:
     def idxize(self, idx):
         if idx < 0:
             idx = self.size + idx
-        if idx >= self.size:
+        if idx < 0 or idx >= self.size:
             raise IndexError("Index out of bounds: %s vs %s" % (idx, self.size))
         return idx
 
-- 
2.43.0


From 7aca65e9ea95aed21eeeb8f67a8ef1db331cd79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:42 +0000
Subject: [PATCH 43/71] fix: multisig data of a translated source entry
 replaced the field of the original entry

---
 monero_glue/hwtoken/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/hwtoken/misc.py b/monero_glue/hwtoken/misc.py
index 10858d5..39bd506 100644
--- a/monero_glue/hwtoken/misc.py
+++ b/monero_glue/hwtoken/misc.py
@@ -104,7 +104,7 @@ def translate_monero_src_entry_pb(src_entry: xmrtypes.TxSourceEntry):
     d.mask = src_entry.mask
     if src_entry.multisig_kLRki:
         s = src_entry.multisig_kLRki
-        src_entry.multisig_kLRki = MoneroMultisigKLRki(K=s.K, L=s.L, R=s.R, ki=s.ki)
+        d.multisig_kLRki = MoneroMultisigKLRki(K=s.K, L=s.L, R=s.R, ki=s.ki)
     return d
 
 
-- 
2.43.0


From e295e2514fd38f531b6d5afd8de24a3efb7e726e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:44 +0000
Subject: [PATCH 44/71] fix: amounts typed by the user were rounded by floating
 point arithmetic

---
 monero_poc/utils/misc.py | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/monero_poc/utils/misc.py b/monero_poc/utils/misc.py
index 701ae0f..0093e72 100644
--- a/monero_poc/utils/misc.py
+++ b/monero_poc/utils/misc.py
@@ -5,6 +5,7 @@
 import asyncio
 import binascii
 import collections
+import decimal
 import json
 import logging
 import os
@@ -129,8 +130,36 @@ def gen_simple_passwd(n):
     )
 
 
+def parse_amount(amount):
+    """
+    Parses the decimal amount, exactly.
+    :param amount:
+    :return:
+    """
+    if not re.match(r"^(\d+(\.\d*)?|\.\d+)\Z", amount, re.ASCII):
+        raise ValueError("Format error, Amount not valid")
+
+    res = decimal.Decimal(amount)
+    amount_to_uint64(res)
+    return res
+
+
 def amount_to_uint64(amount):
-    return int((10 ** DISPLAY_DECIMAL_POINT) * amount)
+    """
+    Decimal amount to atomic units, exact.
+    :param amount: decimal.Decimal or int
+    :return:
+    """
+    with decimal.localcontext() as ctx:
+        ctx.prec = 100
+        ctx.traps[decimal.Inexact] = True
+        atomic = decimal.Decimal(amount).scaleb(DISPLAY_DECIMAL_POINT)
+
+        if atomic != atomic.to_integral_value():
+            raise ValueError("Amount has too many decimal places")
+        if atomic < 0 or atomic >= 2 ** 64:
+            raise ValueError("Amount out of range")
+        return int(atomic)
 
 
 class TransferArgs(object):
@@ -178,14 +207,14 @@ def cut_addr(parts):
 
 def cut_amount(parts):
     try:
-        return float(parts[0]), parts[1:]
+        return parse_amount(parts[0]), parts[1:]
     except Exception as e:
         raise ValueError("Format error, Amount not valid") from e
 
 
 def cut_addr_amount(parts):
     try:
-        return parts[0], float(parts[1]), parts[2:]
+        return parts[0], parse_amount(parts[1]), parts[2:]
     except Exception as e:
         return None, None, parts
 
-- 
2.43.0


From 00bdc37ebe838ee13b6e7825093c264650f97ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:44 +0000
Subject: [PATCH 45/71] fix: superfluous arguments of a transfer or sweep
 command were ignored

---
 monero_poc/utils/misc.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/monero_poc/utils/misc.py b/monero_poc/utils/misc.py
index 0093e72..e493264 100644
--- a/monero_poc/utils/misc.py
+++ b/monero_poc/utils/misc.py
@@ -238,6 +238,11 @@ def cut_payment_id(parts):
     return payment_id, parts[1:]
 
 
+def check_no_parts(parts):
+    if len(parts) > 0:
+        raise ValueError("Format error, unexpected arguments: %s" % " ".join(parts))
+
+
 def parse_transfer_cmd(parts):
     """
     Parses transfer command format
@@ -266,6 +271,7 @@ def parse_transfer_cmd(parts):
         raise ValueError("Format error")
 
     res.payment_id, parts = cut_payment_id(parts)
+    check_no_parts(parts)
     return res
 
 
@@ -282,6 +288,7 @@ def parse_sweep_all(line):
     res.mixin, parts = cut_mixin(parts)
     res.address, parts = cut_addr(parts)
     res.payment_id, parts = cut_payment_id(parts)
+    check_no_parts(parts)
     return res
 
 
@@ -302,6 +309,7 @@ def parse_sweep_below(line):
     res.mixin, parts = cut_mixin(parts)
     res.address, parts = cut_addr(parts)
     res.payment_id, parts = cut_payment_id(parts)
+    check_no_parts(parts)
     return res
 
 
@@ -321,6 +329,7 @@ def parse_sweep_single(line):
     res.key_image, parts = cut_key_image(parts)
     res.address, parts = cut_addr(parts)
     res.payment_id, parts = cut_payment_id(parts)
+    check_no_parts(parts)
     return res
 
 
-- 
2.43.0


From 996719a1b5b1234cd04d1e60afb5b48c3092a86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:44 +0000
Subject: [PATCH 46/71] fix: sweep_single did not pass the key image and the
 address

---
 monero_poc/agent.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/monero_poc/agent.py b/monero_poc/agent.py
index 20ba79c..bd458fa 100644
--- a/monero_poc/agent.py
+++ b/monero_poc/agent.py
@@ -356,7 +356,7 @@ class HostAgent(cli.BaseCli):
             )
             return
 
-        params = misc.parse_sweep_below(line)
+        params = misc.parse_sweep_single(line)
         self.sweep_cmd(params, is_single=True)
 
     def do_sign(self, line):
@@ -1267,7 +1267,7 @@ class HostAgent(cli.BaseCli):
         self.transfer_params(params, aux_data)
 
     def sweep_params(self, parts, is_all=False, is_below=False, is_single=False):
-        params = {"do_not_relay": True}
+        params = {"do_not_relay": True, "address": parts.address}
 
         if parts.priority is not None:
             params["priority"] = parts.priority
@@ -1282,12 +1282,11 @@ class HostAgent(cli.BaseCli):
             params["below_amount"] = misc.amount_to_uint64(parts.amount_threshold)
 
         if parts.key_image is not None:
-            params["key_image"] = parts.key_image
+            params["key_image"] = binascii.hexlify(parts.key_image).decode("ascii")
 
         if not is_single:
             params["account_index"] = self.account_idx
             params["subaddr_indices"] = parts.indices
-            params["address"] = parts.address
 
         return params
 
-- 
2.43.0


From 3ecffdea7d238e59f3073c11236983177618da18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:44 +0000
Subject: [PATCH 47/71] fix: ring size of a transfer was sent as the number of
 decoys

---
 monero_poc/agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_poc/agent.py b/monero_poc/agent.py
index bd458fa..db57770 100644
--- a/monero_poc/agent.py
+++ b/monero_poc/agent.py
@@ -1258,7 +1258,7 @@ class HostAgent(cli.BaseCli):
             params["priority"] = priority
 
         if mixin is not None:
-            params["mixin"] = mixin
+            params["ring_size"] = mixin
 
         if new_payment_id is not None:
             params["payment_id"] = binascii.hexlify(new_payment_id).decode("ascii")
-- 
2.43.0


From 0693ff49d49bbd9c76efa1404201a12d224751e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:44 +0000
Subject: [PATCH 48/71] fix: amounts shown for confirmation were rounded

---
 monero_glue/xmr/wallet.py | 11 +++++++++++
 monero_poc/agent.py       |  8 ++++----
 monero_poc/trezor.py      |  8 ++++----
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/monero_glue/xmr/wallet.py b/monero_glue/xmr/wallet.py
index f27dc15..e06e715 100644
--- a/monero_glue/xmr/wallet.py
+++ b/monero_glue/xmr/wallet.py
@@ -289,6 +289,17 @@ def conv_disp_amount(amount):
     return amount / float(10 ** monero.DISPLAY_DECIMAL_POINT)
 
 
+def format_amount(amount):
+    """
+    Monero uint64 to text, exact.
+    :param amount:
+    :return:
+    """
+    sign = "-" if amount < 0 else ""
+    whole, frac = divmod(abs(amount), 10 ** monero.DISPLAY_DECIMAL_POINT)
+    return "%s%d.%0*d" % (sign, whole, monero.DISPLAY_DECIMAL_POINT, frac)
+
+
 async def load_exported_outputs(priv_key, data):
     """
     Loads exported outputs file
diff --git a/monero_poc/agent.py b/monero_poc/agent.py
index db57770..780b2e0 100644
--- a/monero_poc/agent.py
+++ b/monero_poc/agent.py
@@ -1307,9 +1307,9 @@ class HostAgent(cli.BaseCli):
         )
         fees = common.defvalkey(result, "fee_list", [common.defvalkey(result, "fee")])
         for idx in range(len(amounts)):
-            st = "Amount: %s" % wallet.conv_disp_amount(amounts[idx])
+            st = "Amount: %s" % wallet.format_amount(amounts[idx])
             if idx < len(fees):
-                st += ", Fee: %s" % wallet.conv_disp_amount(fees[idx])
+                st += ", Fee: %s" % wallet.format_amount(fees[idx])
             self.poutput(st)
 
         ask_res = self.ask_proceed_quit("Do you confirm (y/n) ? ")
@@ -1332,9 +1332,9 @@ class HostAgent(cli.BaseCli):
         )
         fees = common.defvalkey(result, "fee_list", [common.defvalkey(result, "fee")])
         for idx in range(len(amounts)):
-            st = "Amount: %s" % wallet.conv_disp_amount(amounts[idx])
+            st = "Amount: %s" % wallet.format_amount(amounts[idx])
             if idx < len(fees):
-                st += ", Fee: %s" % wallet.conv_disp_amount(fees[idx])
+                st += ", Fee: %s" % wallet.format_amount(fees[idx])
             self.poutput(st)
 
         ask_res = self.ask_proceed_quit("Do you confirm (y/n) ? ")
diff --git a/monero_poc/trezor.py b/monero_poc/trezor.py
index ab46331..858b791 100644
--- a/monero_poc/trezor.py
+++ b/monero_poc/trezor.py
@@ -456,7 +456,7 @@ class TrezorServer(cli.BaseCli):
         self.poutput("Key image sync procedure\nEnter K to start\n")
 
     def conv_disp_amount(self, amount):
-        return wallet.conv_disp_amount(amount)
+        return wallet.format_amount(amount)
 
     def do_T(self, line):
         if not self.trez_iface.in_confirmation:
@@ -489,7 +489,7 @@ class TrezorServer(cli.BaseCli):
             )
             if addr != addr_chg:
                 self.poutput(
-                    "  Output %2d: %12.8f to %s, sub: %s"
+                    "  Output %2d: %17s to %s, sub: %s"
                     % (
                         idx,
                         self.conv_disp_amount(out.amount),
@@ -499,7 +499,7 @@ class TrezorServer(cli.BaseCli):
                 )
             else:
                 self.poutput(
-                    "  Change:    %12.8f to %s, sub: %s"
+                    "  Change:    %17s to %s, sub: %s"
                     % (
                         self.conv_disp_amount(out.amount),
                         addr.decode("utf8"),
@@ -507,7 +507,7 @@ class TrezorServer(cli.BaseCli):
                     )
                 )
 
-        self.poutput("  Fee: %.8f" % self.conv_disp_amount(tsx_data.fee))
+        self.poutput("  Fee: %s" % self.conv_disp_amount(tsx_data.fee))
         self.poutput("  Account: %s" % tsx_data.account)
 
         self.poutput("- " * 40)
-- 
2.43.0


From 29cbb772ebfdca6297e0c680bcd96d3c9f8f8995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:57 +0000
Subject: [PATCH 49/71] fix: confirmations of the device prototype could be
 lost or confirm another question

---
 monero_poc/trezor.py     | 60 +++++++++++--------------
 monero_poc/utils/misc.py | 97 +++++++++++++++++++++++-----------------
 2 files changed, 81 insertions(+), 76 deletions(-)

diff --git a/monero_poc/trezor.py b/monero_poc/trezor.py
index 858b791..e7fd8dd 100644
--- a/monero_poc/trezor.py
+++ b/monero_poc/trezor.py
@@ -47,30 +47,21 @@ class TokenInterface(iface.TokenInterface):
         self.server = server
         self.tsx_waiter = misc.CliPrompt(pre_wait_hook=server.update_prompt)
         self.ki_sync_waiter = misc.CliPrompt(pre_wait_hook=server.update_prompt)
-        self.tsx_data = None
-        self.confirmed_result = False
 
-    def get_tx_data(self):
-        return self.tsx_data
+    def get_question(self):
+        return self.tsx_waiter.question
 
     @property
     def in_confirmation(self):
         return self.tsx_waiter.in_confirmation
 
-    def confirmation(self, confirmed):
-        self.confirmed_result = confirmed
-        self.tsx_waiter.confirmation(confirmed)
+    def confirmation(self, confirmed, question):
+        self.tsx_waiter.confirmation(confirmed, question)
 
     async def confirm_transaction(self, tsx_data, creds=None, ctx=None):
-        self.confirmed_result = False
-        self.tsx_data = tsx_data
-        try:
-            self.server.on_confirm_start()
-            self.tsx_waiter.wait_confirmation()
-            return self.confirmed_result
-
-        finally:
-            self.tsx_data = None
+        return self.tsx_waiter.wait_confirmation(
+            tsx_data, self.server.on_confirm_start
+        )
 
     async def transaction_signed(self, ctx=None):
         logger.debug("Transaction signed")
@@ -85,9 +76,9 @@ class TokenInterface(iface.TokenInterface):
         logger.debug("Transaction step: %s, sub step: %s" % (step, sub_step))
 
     async def confirm_ki_sync(self, init_msg, ctx=None):
-        self.server.on_confirm_ki_sync(init_msg)
-        self.ki_sync_waiter.wait_confirmation()
-        return self.ki_sync_waiter.confirmed_result
+        return self.ki_sync_waiter.wait_confirmation(
+            init_msg, self.server.on_confirm_ki_sync
+        )
 
     async def ki_error(self, e, ctx=None):
         logger.error("ki sync error: %s" % e)
@@ -116,7 +107,6 @@ class TrezorServer(cli.BaseCli):
         self.port = 46123
         self.trez_iface = TokenInterface(self)
         self.account_data = None
-        self.ki_sync_data = None
 
         self.loop = asyncio.get_event_loop()
         self.running = True
@@ -307,8 +297,7 @@ class TrezorServer(cli.BaseCli):
             return abort(406)
 
         # Prompt user to confirm.
-        self.on_watchonly()
-        confirmed = self.watch_only_waiter.wait_confirmation()
+        confirmed = self.watch_only_waiter.wait_confirmation(notify=self.on_watchonly)
 
         if not confirmed:
             logger.warning("Watch only rejected")
@@ -450,8 +439,7 @@ class TrezorServer(cli.BaseCli):
         self.poutput("-" * 80)
         self.poutput("Transaction was successfully signed\n")
 
-    def on_confirm_ki_sync(self, msg):
-        self.ki_sync_data = msg
+    def on_confirm_ki_sync(self):
         self.poutput("-" * 80)
         self.poutput("Key image sync procedure\nEnter K to start\n")
 
@@ -459,11 +447,12 @@ class TrezorServer(cli.BaseCli):
         return wallet.format_amount(amount)
 
     def do_T(self, line):
-        if not self.trez_iface.in_confirmation:
+        question = self.trez_iface.get_question()
+        if question is None:
             self.poutput("No transaction in progress")
             return
 
-        tsx_data = self.trez_iface.get_tx_data()
+        tsx_data = question.data
         self.poutput("Confirming transaction:")
         self.poutput("- " * 40)
         if tsx_data.payment_id:
@@ -516,11 +505,12 @@ class TrezorServer(cli.BaseCli):
             "Do you confirm the transaction? ",
         )
         self.poutput("\n")
-        self.trez_iface.confirmation(result == 0)
+        self.trez_iface.confirmation(result == 0, question)
         self.update_prompt()
 
     def do_W(self, line):
-        if not self.watch_only_waiter.in_confirmation:
+        question = self.watch_only_waiter.question
+        if question is None:
             self.poutput("No prompt")
             return
 
@@ -530,11 +520,12 @@ class TrezorServer(cli.BaseCli):
         )
 
         self.poutput("\n")
-        self.watch_only_waiter.confirmation(result == 0)
+        self.watch_only_waiter.confirmation(result == 0, question)
         self.update_prompt()
 
     def do_KK(self, line):
-        if not self.key_waiter.in_confirmation:
+        question = self.key_waiter.question
+        if question is None:
             self.poutput("No prompt")
             return
 
@@ -544,23 +535,24 @@ class TrezorServer(cli.BaseCli):
         )
 
         self.poutput("\n")
-        self.key_waiter.confirmation(result == 0)
+        self.key_waiter.confirmation(result == 0, question)
         self.update_prompt()
 
     def do_K(self, line):
-        if not self.trez_iface.ki_sync_waiter.in_confirmation:
+        question = self.trez_iface.ki_sync_waiter.question
+        if question is None:
             self.poutput("No prompt")
             return
 
         self.poutput("Agent asks to perform key image sync.")
-        self.poutput("Syncing %s outputs" % self.ki_sync_data.num)
+        self.poutput("Syncing %s outputs" % question.data.num)
 
         result = self.select(
             [(0, "Confirm"), (1, "Reject")], "Do you want to proceed? "
         )
 
         self.poutput("\n")
-        self.trez_iface.ki_sync_waiter.confirmation(result == 0)
+        self.trez_iface.ki_sync_waiter.confirmation(result == 0, question)
         self.update_prompt()
 
     do_t = do_T
diff --git a/monero_poc/utils/misc.py b/monero_poc/utils/misc.py
index e493264..3053ac0 100644
--- a/monero_poc/utils/misc.py
+++ b/monero_poc/utils/misc.py
@@ -48,65 +48,78 @@ class TrezorAddressMismatchError(TrezorError):
         super().__init__(*args, **kwargs)
 
 
+class CliQuestion(object):
+    """
+    One question asked by the CliPrompt, holds the data being confirmed.
+    """
+
+    def __init__(self, data=None):
+        self.data = data
+        self.result = False
+        self.conf_evt = threading.Event()
+
+
 class CliPrompt(object):
     """
     Synchronous CLI confirmation waiter.
+    At most one question is open at a time, an answer belongs to the question it was given to.
     """
 
     def __init__(self, pre_wait_hook=None, *args, **kwargs):
-        self.in_confirmation = False
-        self.conf_evt = None
-        self.confirmed_result = False
+        self.lock = threading.Lock()
+        self.question = None  # type: CliQuestion
         self.pre_wait_hook = pre_wait_hook
 
-    def confirmation(self, confirmed):
-        self.confirmed_result = confirmed
-        self.in_confirmation = False
-        self.conf_evt.set()
-
-    def _init_wait(self):
-        self.in_confirmation = True
-        self.confirmed_result = False
-        self.conf_evt = threading.Event()
+    @property
+    def in_confirmation(self):
+        return self.question is not None
 
-    def wait_confirmation(self):
+    def confirmation(self, confirmed, question):
+        """
+        Answers the question. Has no effect if the question is not open anymore.
+        :param confirmed:
+        :param question: question the user was asked
+        :return: True if the answer was accepted
+        """
+        with self.lock:
+            if question is None or self.question is not question:
+                return False
+            self.question = None
+            question.result = confirmed
+
+        question.conf_evt.set()
+        return True
+
+    def _init_wait(self, data=None):
+        question = CliQuestion(data)
+        with self.lock:
+            if self.question is not None:
+                return None
+            self.question = question
+        return question
+
+    def wait_confirmation(self, data=None, notify=None):
         """
         Synchronous waiting
-        :return:
+        :param data: data to be confirmed
+        :param notify: called when the question can be answered
+        :return: the answer. If another question is open already, False
         """
-        self._init_wait()
-        if self.pre_wait_hook:
-            self.pre_wait_hook()
+        question = self._init_wait(data)
+        if question is None:
+            return False
 
         try:
-            self.conf_evt.wait()
-            return self.confirmed_result
+            if notify:
+                notify()
+            if self.pre_wait_hook:
+                self.pre_wait_hook()
 
-        finally:
-            self.in_confirmation = False
-
-    async def async_wait_confirmation(self):
-        """
-        Asynchronous waiting
-        Asyncio waiting not implemented.
-
-        :return:
-        """
-        self._init_wait()
-        try:
-            # TODO: asyncio wait
-            # TODO: eventlet could require another locking mechanism
-            self.conf_evt.wait()
-            return self.confirmed_result
+            question.conf_evt.wait()
+            return question.result
 
         finally:
-            self.in_confirmation = False
-
-    def __enter__(self):
-        self._init_wait()
-
-    def __exit__(self, exc_type, exc_val, exc_tb):
-        self.in_confirmation = False
+            self.confirmation(False, question)
 
 
 def py_raw_input(question=None):
-- 
2.43.0


From 380fa51e7336567edc9fef16a5b29a03336b2bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:49 +0000
Subject: [PATCH 50/71] fix: a crash while writing an account or wallet key
 file destroyed it

---
 monero_glue/misc/files.py | 42 +++++++++++++++++++++++++++++++++++++++
 monero_glue/xmr/wallet.py |  4 ++--
 monero_poc/agent.py       | 22 ++++++++++----------
 monero_poc/trezor.py      | 20 +++++++++----------
 4 files changed, 64 insertions(+), 24 deletions(-)
 create mode 100644 monero_glue/misc/files.py

diff --git a/monero_glue/misc/files.py b/monero_glue/misc/files.py
new file mode 100644
index 0000000..949c170
--- /dev/null
+++ b/monero_glue/misc/files.py
@@ -0,0 +1,42 @@
+#!/usr/bin/env python
+# -*- coding: utf-8 -*-
+
+import json
+import os
+import stat
+import tempfile
+
+
+def write_atomic(path, data):
+    """
+    Replaces the file with the data. If interrupted, the file has either the old or the new content.
+    :param path:
+    :param data: bytes
+    :return:
+    """
+    path = os.path.realpath(path)
+    directory = os.path.dirname(path)
+    fd, tmp = tempfile.mkstemp(dir=directory, prefix="%s." % os.path.basename(path))
+    try:
+        with os.fdopen(fd, "wb") as fh:
+            fh.write(data)
+            fh.flush()
+            os.fsync(fh.fileno())
+
+        if os.path.exists(path):
+            os.chmod(tmp, stat.S_IMODE(os.stat(path).st_mode))
+        os.replace(tmp, path)
+
+    except BaseException:
+        os.unlink(tmp)
+        raise
+
+
+def write_json_atomic(path, obj):
+    """
+    JSON variant of write_atomic
+    :param path:
+    :param obj: JSON serializable object
+    :return:
+    """
+    write_atomic(path, json.dumps(obj, indent=2).encode("utf8"))
diff --git a/monero_glue/xmr/wallet.py b/monero_glue/xmr/wallet.py
index e06e715..c7592c9 100644
--- a/monero_glue/xmr/wallet.py
+++ b/monero_glue/xmr/wallet.py
@@ -7,6 +7,7 @@ import re
 import datetime
 import logging
 
+from monero_glue.misc.files import write_atomic
 from monero_glue.xmr import common, crypto, monero
 from monero_glue.xmr.enc import chacha
 from monero_serialize import xmrboost, xmrjson, xmrrpc, xmrserialize, xmrtypes
@@ -136,8 +137,7 @@ async def save_keys_file(file, password, wkeyfile):
     :return:
     """
     data = await gen_keys_file(password, wkeyfile)
-    with open(file, "wb") as fh:
-        fh.write(data)
+    write_atomic(file, data)
 
 
 async def gen_keys_file(password, wkeyfile):
diff --git a/monero_poc/agent.py b/monero_poc/agent.py
index 780b2e0..1db67de 100644
--- a/monero_poc/agent.py
+++ b/monero_poc/agent.py
@@ -23,6 +23,7 @@ import time
 from monero_glue.agent import agent_lite, agent_misc
 from monero_glue.agent.agent_lite import SignAuxData
 from monero_glue.messages import DebugMoneroDiagRequest, Entropy, GetEntropy
+from monero_glue.misc.files import write_json_atomic
 from monero_glue.xmr import common, crypto, daemon_rpc, monero, wallet, wallet_rpc
 from monero_glue.xmr.common import try_fnc
 from monero_glue.xmr.enc import chacha, chacha_poly
@@ -695,17 +696,16 @@ class HostAgent(cli.BaseCli):
             wallet_enc_key, crypto.encodeint(self.priv_view)
         )
 
-        with open(file, "w") as fh:
-            data = {
-                "view_key_enc": binascii.hexlify(ciphertext).decode("ascii"),
-                "address": self.address.decode("ascii"),
-                "network_type": self.network_type,
-                "wallet_salt": binascii.hexlify(self.wallet_salt).decode("ascii"),
-                "rpc_addr": self.rpc_addr,
-                "wallet_file": self.wallet_file,
-                "monero_bin": self.monero_bin,
-            }
-            json.dump(data, fh, indent=2)
+        data = {
+            "view_key_enc": binascii.hexlify(ciphertext).decode("ascii"),
+            "address": self.address.decode("ascii"),
+            "network_type": self.network_type,
+            "wallet_salt": binascii.hexlify(self.wallet_salt).decode("ascii"),
+            "rpc_addr": self.rpc_addr,
+            "wallet_file": self.wallet_file,
+            "monero_bin": self.monero_bin,
+        }
+        write_json_atomic(file, data)
 
     async def check_existing_wallet_file(self, key_file):
         """
diff --git a/monero_poc/trezor.py b/monero_poc/trezor.py
index e7fd8dd..fc427b4 100644
--- a/monero_poc/trezor.py
+++ b/monero_poc/trezor.py
@@ -25,6 +25,7 @@ from monero_glue import protobuf
 from monero_glue.hwtoken import iface, token
 from monero_glue.messages import MoneroWatchKey
 from monero_glue.misc.bip import bip32
+from monero_glue.misc.files import write_json_atomic
 from monero_glue.protocol_base import messages
 from monero_glue.xmr import crypto, monero, wallet
 from monero_glue.xmr.core import mnemonic
@@ -691,8 +692,7 @@ class TrezorServer(cli.BaseCli):
         )
 
         if self.args.account_file:
-            with open(self.args.account_file, "w+") as fh:
-                json.dump(self.account_data, fh, indent=2)
+            write_json_atomic(self.args.account_file, self.account_data)
         print("Wallet generated")
         self.update_prompt()
 
@@ -736,15 +736,13 @@ class TrezorServer(cli.BaseCli):
             priv_spend_key = crypto.b16_to_scalar(priv_spend)
 
             self.account_data = {"spend_key": priv_spend_key, "view_key": priv_view_key}
-            with open(self.args.account_file, "w") as fh:
-                json.dump(
-                    {
-                        "spend_key": priv_spend.decode("ascii"),
-                        "view_key": priv_view.decode("ascii"),
-                    },
-                    fh,
-                    indent=2,
-                )
+            write_json_atomic(
+                self.args.account_file,
+                {
+                    "spend_key": priv_spend.decode("ascii"),
+                    "view_key": priv_view.decode("ascii"),
+                },
+            )
 
         if priv_spend_key and priv_view_key:
             self.init_with_keys(priv_spend_key, priv_view_key)
-- 
2.43.0


From cc3db11ea0175bf4c3cc0f10f8e52051f154b6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:29 +0000
Subject: [PATCH 51/71] fix: generating a wallet key file removed the keys from
 the caller's object

---
 monero_glue/xmr/wallet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/xmr/wallet.py b/monero_glue/xmr/wallet.py
index c7592c9..642d4c2 100644
--- a/monero_glue/xmr/wallet.py
+++ b/monero_glue/xmr/wallet.py
@@ -148,7 +148,7 @@ async def gen_keys_file(password, wkeyfile):
     :return:
     """
     key_data = wkeyfile.key_data  # type: WalletKeyData
-    js = wkeyfile.to_json()
+    js = dict(wkeyfile.to_json())
     del js["key_data"]
 
     # encode wallet key file wth classical json encoder, key data added later with monero encoding.
-- 
2.43.0


From 51687c0365545f514b7468369d088c0a8bc28dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:29 +0000
Subject: [PATCH 52/71] fix: wallet key file with a quote followed by a comma
 in the key data could not be read

---
 monero_glue/xmr/wallet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/xmr/wallet.py b/monero_glue/xmr/wallet.py
index 642d4c2..09683a4 100644
--- a/monero_glue/xmr/wallet.py
+++ b/monero_glue/xmr/wallet.py
@@ -109,7 +109,7 @@ async def load_keys_data(data, password):
     buff = bytes(msg.iv + msg.account_data)
     dec = chacha.decrypt(key, buff)
 
-    m = re.search(b'(.*)"key_data":"(.+?)",(.*)', dec)
+    m = re.search(rb'(.*?)"key_data":"((?:[^"\\]|\\.)+)",(.*)', dec, re.DOTALL)
     key_data = m.group(2)
 
     dat = xmrjson.unescape_json_str(key_data)
-- 
2.43.0


From bf5b2b481ec63d4c54b0034b98ea7a9df09e645c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:16 +0000
Subject: [PATCH 53/71] fix: creation time in the wallet key file was truncated
 to one byte

---
 monero_glue/xmr/wallet.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monero_glue/xmr/wallet.py b/monero_glue/xmr/wallet.py
index 09683a4..af66cd2 100644
--- a/monero_glue/xmr/wallet.py
+++ b/monero_glue/xmr/wallet.py
@@ -157,6 +157,9 @@ async def gen_keys_file(password, wkeyfile):
     # key_data KV serialization. Message -> Model.
     modeler = xmrrpc.Modeler(writing=True, modelize=True)
     mdl = await modeler.message(msg=key_data)
+    mdl["m_creation_timestamp"] = xmrrpc.IntegerModel(
+        key_data.m_creation_timestamp, xmrrpc.SerializeType.UINT64
+    )
 
     # Model -> binary
     writer = xmrserialize.MemoryReaderWriter()
-- 
2.43.0


From 45ca3f73fc8e2f17dd8ac1bd6254398532f6b148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:52 +0000
Subject: [PATCH 54/71] fix: negative or unconfirmed restore heights were
 accepted

---
 monero_poc/agent.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monero_poc/agent.py b/monero_poc/agent.py
index 1db67de..29833fd 100644
--- a/monero_poc/agent.py
+++ b/monero_poc/agent.py
@@ -775,6 +775,7 @@ class HostAgent(cli.BaseCli):
                 except Exception as e:
                     logger.warning("Could not resolve date to the height: %s" % e)
                     self.trace_logger.log(e)
+                    sure_stage = False
                     r = self.ask_proceed_quit(
                         "Could not resolve date to height. Do you want to try again? (y/n) "
                     )
@@ -786,6 +787,8 @@ class HostAgent(cli.BaseCli):
             else:
                 try:
                     height = int(height)
+                    if height < 0:
+                        raise ValueError("Negative height")
                     sure_stage = True
                     continue
 
-- 
2.43.0


From 51c01c971037f0f6464b75e601809468522b7e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:13 +0000
Subject: [PATCH 55/71] fix: extra made by the transaction builder could not be
 parsed

---
 monero_glue/xmr/transaction_builder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monero_glue/xmr/transaction_builder.py b/monero_glue/xmr/transaction_builder.py
index 7a09df9..8218433 100644
--- a/monero_glue/xmr/transaction_builder.py
+++ b/monero_glue/xmr/transaction_builder.py
@@ -46,7 +46,6 @@ from monero_serialize.xmrtypes import (
     TxOut,
     TxoutToKey,
     TxExtraField,
-    TxExtraFields,
     UnsignedTxSet,
     TxConstructionData,
     RCTConfig,
@@ -169,7 +168,8 @@ class TransactionBuilder(object):
     async def dump_extra_fields(self, extras):
         writer = xmrserialize.MemoryReaderWriter(preallocate=None)
         ar = xmrserialize.Archive(writer, True)
-        await ar.container(extras, container_type=TxExtraFields)
+        for extra in extras:
+            await ar.variant(extra, elem_type=TxExtraField)
         return writer.get_buffer()
 
     async def gen_input(self, value=1, sub_major=None, sub_minor=0, additionals=False):
-- 
2.43.0


From 2138817650dfb475df4ae5450b0cc01df01b05d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:13 +0000
Subject: [PATCH 56/71] fix: payment ID set in the transaction builder had no
 type

---
 monero_glue/xmr/transaction_builder.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/monero_glue/xmr/transaction_builder.py b/monero_glue/xmr/transaction_builder.py
index 8218433..0c10de3 100644
--- a/monero_glue/xmr/transaction_builder.py
+++ b/monero_glue/xmr/transaction_builder.py
@@ -340,9 +340,14 @@ class TransactionBuilder(object):
         self.change_idx = [i for i, x in enumerate(tmparr) if x[2] == self.change_idx][0]
 
     async def set_payment_id(self, payment_id):
+        if len(payment_id) == 8:
+            nonce = monero.set_encrypted_payment_id_to_tx_extra_nonce(payment_id)
+        else:
+            nonce = monero.set_payment_id_to_tx_extra_nonce(payment_id)
+
         self.payment_id = payment_id
         extras = [
-            TxExtraNonce(nonce=self.payment_id),
+            TxExtraNonce(nonce=nonce),
         ]
         self.extra = await self.dump_extra_fields(extras)
 
-- 
2.43.0


From 5ed78f6e2eeb1ec5bbaa41a9392ed1c2f85d40c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:13 +0000
Subject: [PATCH 57/71] fix: shuffling outputs in the transaction builder
 failed

---
 monero_glue/xmr/transaction_builder.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/monero_glue/xmr/transaction_builder.py b/monero_glue/xmr/transaction_builder.py
index 0c10de3..be2a5f4 100644
--- a/monero_glue/xmr/transaction_builder.py
+++ b/monero_glue/xmr/transaction_builder.py
@@ -333,11 +333,12 @@ class TransactionBuilder(object):
         return self
     
     async def shuffle_outputs(self):
-        tmparr = zip(self.outputs, self.outputs_extra, range(len(self.outputs)))
+        tmparr = list(zip(self.outputs, self.outputs_extra, range(len(self.outputs))))
         self.prng.shuffle(tmparr)
         self.outputs = [x[0] for x in tmparr]
         self.outputs_extra = [x[1] for x in tmparr]
-        self.change_idx = [i for i, x in enumerate(tmparr) if x[2] == self.change_idx][0]
+        if self.change_idx is not None:
+            self.change_idx = [i for i, x in enumerate(tmparr) if x[2] == self.change_idx][0]
 
     async def set_payment_id(self, payment_id):
         if len(payment_id) == 8:
-- 
2.43.0


From 4ca5605a30097982a42c7a5acbab49a453849aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:13 +0000
Subject: [PATCH 58/71] fix: transaction builder listed accounts instead of
 subaddress indices

---
 monero_glue/xmr/transaction_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/xmr/transaction_builder.py b/monero_glue/xmr/transaction_builder.py
index be2a5f4..56cf663 100644
--- a/monero_glue/xmr/transaction_builder.py
+++ b/monero_glue/xmr/transaction_builder.py
@@ -404,7 +404,7 @@ class TransactionBuilder(object):
             rct_config=RCTConfig(range_proof_type=4, bp_version=2),
             dests=dests,
             subaddr_account=self.account_idx,
-            subaddr_indices=list(set(x.m_subaddr_index.major for x in self.transfers)),
+            subaddr_indices=list(set(x.m_subaddr_index.minor for x in self.transfers)),
         )
 
         sset.txes.append(tdata)
-- 
2.43.0


From ab7c88c8a9e812797b7bcf1f54aac47cc2aaf777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:13 +0000
Subject: [PATCH 59/71] fix: describing an unsigned transaction without a
 subaddress table failed

---
 monero_glue/xmr/transaction_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/xmr/transaction_builder.py b/monero_glue/xmr/transaction_builder.py
index 56cf663..dc3fe60 100644
--- a/monero_glue/xmr/transaction_builder.py
+++ b/monero_glue/xmr/transaction_builder.py
@@ -418,7 +418,7 @@ class TransactionBuilder(object):
         inp = unsigned_txs.txes[0].sources
         if key_subs is None:
             key_subs = {}
-            for tx in enumerate(unsigned_txs.txes):
+            for tx in unsigned_txs.txes:
                 monero.compute_subaddresses(keys, tx.subaddr_account, list(tx.subaddr_indices), key_subs)
 
         print("\nInp: %s, #txs: %s, #transfers: %s" % (inp, len(unsigned_txs.txes), len(unsigned_txs.transfers)))
-- 
2.43.0


From ad6c3df17354314fe95beacae5278891fe7072ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:13 +0000
Subject: [PATCH 60/71] fix: primary change address had other fields than an
 address

---
 monero_glue/xmr/transaction_builder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monero_glue/xmr/transaction_builder.py b/monero_glue/xmr/transaction_builder.py
index dc3fe60..53c5d81 100644
--- a/monero_glue/xmr/transaction_builder.py
+++ b/monero_glue/xmr/transaction_builder.py
@@ -521,8 +521,8 @@ class TransactionBuilder(object):
             0,
         )
         return AccountPublicAddress(
-            view_public_key=crypto.encodepoint(C),
-            spend_public_key=crypto.encodepoint(D),
+            m_view_public_key=crypto.encodepoint(C),
+            m_spend_public_key=crypto.encodepoint(D),
         )
 
     async def find_change_idx(self, tx, change_idx=None):
-- 
2.43.0


From 115a243827128edd0b9032ba50cf464fc167591b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:13 +0000
Subject: [PATCH 61/71] fix: rings of the transaction builder were not sorted
 by their index

---
 monero_glue/xmr/transaction_builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monero_glue/xmr/transaction_builder.py b/monero_glue/xmr/transaction_builder.py
index 53c5d81..46d3ab9 100644
--- a/monero_glue/xmr/transaction_builder.py
+++ b/monero_glue/xmr/transaction_builder.py
@@ -233,7 +233,8 @@ class TransactionBuilder(object):
             additional_keys[oidx] = Additional
 
         src = TxSourceEntry()
-        src.outputs = [(self.random_glob_idx(), x) for x in ring]
+        glob_idxs = sorted(self.prng.sample(range(0x1000000), len(ring)))
+        src.outputs = list(zip(glob_idxs, ring))
         src.real_output = index
         src.real_out_tx_key = crypto.encodepoint(R)
         src.real_out_additional_tx_keys = [crypto.encodepoint(x) for x in additional_keys]
-- 
2.43.0


From 8983c26c30310ed1a89982d3c03527902d768a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:32 +0000
Subject: [PATCH 62/71] fix: signed transaction set and stored construction
 data were written in a layout their version does not have

---
 monero_glue/xmr/wallet.py | 5 +++--
 monero_poc/agent.py       | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/monero_glue/xmr/wallet.py b/monero_glue/xmr/wallet.py
index af66cd2..c52580c 100644
--- a/monero_glue/xmr/wallet.py
+++ b/monero_glue/xmr/wallet.py
@@ -233,16 +233,17 @@ async def dump_unsigned_tx(priv_key, unsigned_tx, hf=9):
     return UNSIGNED_TX_PREFIX + ciphertext
 
 
-async def dump_signed_tx(priv_key, signed_tx):
+async def dump_signed_tx(priv_key, signed_tx, hf=10):
     """
     Dumps signed_tx to a file as wallet produces
 
     :param priv_key:
     :param signed_tx:
+    :param hf:
     :return:
     """
     writer = xmrserialize.MemoryReaderWriter()
-    ar = xmrboost.Archive(writer, True)
+    ar = xmrboost.Archive(writer, True, xmrtypes.hf_versions(hf))
     try:
         await ar.root()
         await ar.message(signed_tx)
diff --git a/monero_poc/agent.py b/monero_poc/agent.py
index 29833fd..a18b6c3 100644
--- a/monero_poc/agent.py
+++ b/monero_poc/agent.py
@@ -1526,7 +1526,7 @@ class HostAgent(cli.BaseCli):
         unsigned_data.transfers = transfers if transfers is not None else []
 
         writer = xmrserialize.MemoryReaderWriter()
-        ar = xmrboost.Archive(writer, True)
+        ar = xmrboost.Archive(writer, True, xmrtypes.hf_versions(self.agent.hf))
         await ar.root()
         await ar.message(unsigned_data)
 
-- 
2.43.0


From 0762e9a17aabae73c590321860868c93ffec8444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:32 +0000
Subject: [PATCH 63/71] fix: missing or surplus key images in a reply of the
 device shifted the following ones

---
 monero_glue/agent/agent_lite.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/monero_glue/agent/agent_lite.py b/monero_glue/agent/agent_lite.py
index c5192ba..44bbf29 100644
--- a/monero_glue/agent/agent_lite.py
+++ b/monero_glue/agent/agent_lite.py
@@ -848,6 +848,8 @@ class Agent(object):
                 MoneroKeyImageSyncStepRequest(tdis=rr)
             )
             self.handle_error(t_res)
+            if len(t_res.kis) != len(rr):
+                raise ValueError("Unexpected number of key images")
 
             sub_res += t_res.kis
 
-- 
2.43.0


From c66264aa5d7dcbba10cff9da7851d05622264e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:03 +0000
Subject: [PATCH 64/71] fix: view key and address which do not belong together
 were accepted for the watch-only wallet

The check compared the view key with an address recomputed from the same
view key, failures of loading from the device were always swallowed and
the keys were taken over before the check.
---
 monero_poc/agent.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/monero_poc/agent.py b/monero_poc/agent.py
index a18b6c3..810939c 100644
--- a/monero_poc/agent.py
+++ b/monero_poc/agent.py
@@ -486,12 +486,10 @@ class HostAgent(cli.BaseCli):
 
             res = await self.agent.get_watch_only()  # type: messages.MoneroWatchKey
 
-            self.priv_view = crypto.decodeint(res.watch_key)
-            self.set_address(res.address)
-            await self.open_with_keys(self.priv_view, self.address)
+            await self.open_with_keys(crypto.decodeint(res.watch_key), res.address)
 
         except Exception as e:
-            if not self.args:
+            if not self.args.no_init:
                 raise ValueError(e)
             else:
                 logger.warning("Loading watch-only keys failed (but init is not required), %s" % (e,))
@@ -861,17 +859,15 @@ class HostAgent(cli.BaseCli):
         Loads passed credentials
         :return:
         """
-        priv_view = self.args.view_key.encode("ascii")
-        self.priv_view = crypto.b16_to_scalar(priv_view)
+        priv_view = crypto.b16_to_scalar(self.args.view_key.encode("ascii"))
         self.set_network_type(
             monero.NetworkTypes.TESTNET
             if self.args.testnet
             else monero.NetworkTypes.MAINNET
         )
-        self.set_address(self.args.address.encode("ascii"))
         self.wallet_file = self.args.watch_wallet
         self.monero_bin = self.args.monero_bin
-        await self.open_with_keys(self.priv_view, self.address)
+        await self.open_with_keys(priv_view, self.args.address.encode("ascii"))
 
     async def open_account_file(self, file):
         """
@@ -892,22 +888,21 @@ class HostAgent(cli.BaseCli):
 
         # Wallet view key dec.
         if "view_key" in js:
-            self.priv_view = crypto.b16_to_scalar(js["view_key"].encode("utf8"))
+            priv_view = crypto.b16_to_scalar(js["view_key"].encode("utf8"))
 
         elif "view_key_enc" in js:
             wallet_enc_key = misc.wallet_enc_key(self.wallet_salt, self.wallet_password)
             plain = chacha_poly.decrypt_pack(
                 wallet_enc_key, binascii.unhexlify(js["view_key_enc"])
             )
-            self.priv_view = crypto.decodeint(plain)
+            priv_view = crypto.decodeint(plain)
 
         self.wallet_file = js["wallet_file"]
         self.monero_bin = js["monero_bin"]
         self.set_network_type(js["network_type"])
-        self.set_address(js["address"].encode("utf8"))
         self.rpc_addr = js["rpc_addr"]
 
-        await self.open_with_keys(self.priv_view, self.address)
+        await self.open_with_keys(priv_view, js["address"].encode("utf8"))
 
     async def open_with_keys(self, view_key, address):
         """
@@ -916,16 +911,21 @@ class HostAgent(cli.BaseCli):
         :param address:
         :return:
         """
-        self.pub_view = crypto.scalarmult_base(view_key)
+        pub_view = crypto.scalarmult_base(view_key)
 
         addr_info = monero.decode_addr(address)
-        self.pub_spend = crypto.decodepoint(addr_info.spend_key)
+        pub_spend = crypto.decodepoint(addr_info.spend_key)
 
-        if not crypto.point_eq(self.pub_view, crypto.decodepoint(addr_info.view_key)):
+        if not crypto.point_eq(pub_view, crypto.decodepoint(addr_info.view_key)):
             raise ValueError(
                 "Computed view public key does not match the one from address"
             )
 
+        self.pub_view = pub_view
+        self.pub_spend = pub_spend
+        self.priv_view = view_key
+        self.set_address(address)
+
     def set_address(self, address):
         self.address = address
         self.address_info = monero.decode_addr(self.address)
-- 
2.43.0


From 36ae330f385b4a4fc6cf4a6e99ffb076768db6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:03 +0000
Subject: [PATCH 65/71] fix: light device returned the point encoding of the
 private view key

---
 monero_glue/hwtoken/token.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_glue/hwtoken/token.py b/monero_glue/hwtoken/token.py
index fae6c5a..8a2f1c9 100644
--- a/monero_glue/hwtoken/token.py
+++ b/monero_glue/hwtoken/token.py
@@ -106,7 +106,7 @@ class TokenLite(object):
             return Failure(message="InvalidNetworkType")
 
         return MoneroWatchKey(
-            watch_key=crypto.encodepoint(self.creds.view_key_private),
+            watch_key=crypto.encodeint(self.creds.view_key_private),
             address=self.creds.address,
         )
 
-- 
2.43.0


From d6e0e336d7d6453eaa1650d19cd236854a5785a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:34 +0000
Subject: [PATCH 66/71] fix: daemon was asked at a fixed address instead of the
 configured one

---
 monero_poc/agent.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monero_poc/agent.py b/monero_poc/agent.py
index 810939c..754dc42 100644
--- a/monero_poc/agent.py
+++ b/monero_poc/agent.py
@@ -525,6 +525,7 @@ class HostAgent(cli.BaseCli):
             self.wallet_file = self.args.watch_wallet
         if self.args.monero_bin:
             self.monero_bin = self.args.monero_bin
+        self.daemon_rpc.set_addr(self.rpc_addr)
 
     def choose_trezor(self):
         from monero_glue.trezor import manager as tmanager
@@ -1139,7 +1140,7 @@ class HostAgent(cli.BaseCli):
         :return:
         """
         if self.args.wallet_rpc_addr:  # using existing RPC?
-            self.daemon_rpc.set_addr(self.args.rpc_addr)
+            self.daemon_rpc.set_addr(self.rpc_addr)
             self.wallet_proxy.set_addr(self.args.wallet_rpc_addr)
             self.wallet_proxy.set_creds(self.args.wallet_rpc_creds)
             self.rpc_running = True
-- 
2.43.0


From e6421e77b3561b58b448d418b1c04f546782b599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:26 +0000
Subject: [PATCH 67/71] fix: wallet process: path was not quoted, output split
 inside a character ended the watching thread, which left the process marked
 as running

---
 monero_poc/agent.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/monero_poc/agent.py b/monero_poc/agent.py
index 754dc42..b3bbc7b 100644
--- a/monero_poc/agent.py
+++ b/monero_poc/agent.py
@@ -11,6 +11,7 @@
 import argparse
 import asyncio
 import binascii
+import codecs
 import datetime
 import json
 import logging
@@ -980,7 +981,7 @@ class HostAgent(cli.BaseCli):
         def preexec_function():
             os.setpgrp()
 
-        cmd = "%s %s" % (rpc_cmd, " ".join(args))
+        cmd = "%s %s" % (misc.escape_shell(rpc_cmd), " ".join(args))
         feeder = misc.Feeder()
         p = misc.run(
             cmd,
@@ -997,6 +998,8 @@ class HostAgent(cli.BaseCli):
         ret_code = 1
         out_acc, err_acc = [], []
         out_cur, err_cur = [""], [""]
+        out_dec = codecs.getincrementaldecoder("utf8")(errors="replace")
+        err_dec = codecs.getincrementaldecoder("utf8")(errors="replace")
         logline_pattern = re.compile(r"^([^\s]+)\s+([^\s]+)\s+\[(.+?)\]\s+([^\s]+?)\s+")
         passwd_set = False
 
@@ -1034,7 +1037,8 @@ class HostAgent(cli.BaseCli):
                 self.on_rpc_ready()
 
         def add_output(buffers, is_err=False):
-            buffers = [x.decode("utf8") for x in buffers]
+            dec = err_dec if is_err else out_dec
+            buffers = [dec.decode(x) for x in buffers]
             lines = [""]
 
             dst_cur = err_cur if is_err else out_cur
@@ -1046,7 +1050,7 @@ class HostAgent(cli.BaseCli):
             dst_cur[0] += lines[0]
             nlines = len(lines)
             if nlines > 1:
-                process_line(dst_cur[0])
+                process_line(dst_cur[0], is_err)
                 dst_cur[0] = ""
 
             for line in lines[1:-1]:
@@ -1090,9 +1094,6 @@ class HostAgent(cli.BaseCli):
             add_output([p.stdout.read(-1, True, 0.15)])
             add_output([p.stderr.read(-1, True, 0.15)], True)
 
-            self.rpc_running = False
-            self.update_prompt()
-
             if not self.terminating:
                 logger.error("Wallet RPC ended prematurely with code: %s" % ret_code)
                 logger.info("Command: %s" % cmd)
@@ -1103,6 +1104,10 @@ class HostAgent(cli.BaseCli):
             logger.error("Exception in wallet RPC command: %s" % e)
             self.trace_logger.log(e)
 
+        finally:
+            self.rpc_running = False
+            self.update_prompt()
+
     def shutdown_rpc(self):
         """
         Waits for rpc shutdown
-- 
2.43.0


From 6564fbb21cac24de942cba8425cc49d47c4ef0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:56 +0000
Subject: [PATCH 68/71] fix: wallet process: lines of its output which came in
 three pieces were cut

---
 monero_poc/agent.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/monero_poc/agent.py b/monero_poc/agent.py
index b3bbc7b..1f5e8a5 100644
--- a/monero_poc/agent.py
+++ b/monero_poc/agent.py
@@ -1051,13 +1051,11 @@ class HostAgent(cli.BaseCli):
             nlines = len(lines)
             if nlines > 1:
                 process_line(dst_cur[0], is_err)
-                dst_cur[0] = ""
+                dst_cur[0] = lines[-1]
 
             for line in lines[1:-1]:
                 process_line(line, is_err)
 
-            dst_cur[0] = lines[-1] or ""
-
         try:
             while len(p.commands) == 0:
                 time.sleep(0.15)
-- 
2.43.0


From d89ef14e68a6c9c2ccdf9a119727236b3de96a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:56 +0000
Subject: [PATCH 69/71] fix: password of the wallet process came from the
 pseudo random generator

---
 monero_poc/utils/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monero_poc/utils/misc.py b/monero_poc/utils/misc.py
index 3053ac0..c302f5a 100644
--- a/monero_poc/utils/misc.py
+++ b/monero_poc/utils/misc.py
@@ -134,12 +134,12 @@ def py_raw_input(question=None):
 def gen_simple_passwd(n):
     """
     Generates simple alphanum passwd.
-    TODO: stronger passwd
     :param n:
     :return:
     """
+    rng = random.SystemRandom()
     return "".join(
-        random.choice(string.ascii_uppercase + string.digits) for _ in range(n)
+        rng.choice(string.ascii_uppercase + string.digits) for _ in range(n)
     )
 
 
-- 
2.43.0


From 2f92053e01e33ce5620aab5656a13e5ce464844f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:17 +0000
Subject: [PATCH 70/71] fix: BIP-39 words and passphrases were not normalized

---
 monero_glue/misc/bip/bip39_deriv.py | 13 ++++++++++++-
 monero_poc/seed.py                  |  2 +-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/monero_glue/misc/bip/bip39_deriv.py b/monero_glue/misc/bip/bip39_deriv.py
index d88766f..e8372d4 100644
--- a/monero_glue/misc/bip/bip39_deriv.py
+++ b/monero_glue/misc/bip/bip39_deriv.py
@@ -1,11 +1,22 @@
 import hashlib
 import hmac
+import unicodedata
 
 from Crypto.Protocol.KDF import PBKDF2
 
 
+def normalize(text):
+    """
+    BIP-39 text encoding: UTF-8 of the NFKD form. Bytes are used as they are.
+    """
+    if isinstance(text, str):
+        return unicodedata.normalize("NFKD", text).encode("utf8")
+    return text
+
+
 def mnemonics_to_seed(seed, passphrase=b""):
-    salt = b"mnemonic" + passphrase
+    seed = normalize(seed)
+    salt = b"mnemonic" + normalize(passphrase)
 
     def prf(p, s):
         hx = hmac.new(p, msg=s, digestmod=hashlib.sha512)
diff --git a/monero_poc/seed.py b/monero_poc/seed.py
index 57eb080..0eccb2c 100644
--- a/monero_poc/seed.py
+++ b/monero_poc/seed.py
@@ -166,7 +166,7 @@ async def amain():
         sd = SeedDerivation.from_master_seed(seed, **deriv_args)
 
     else:
-        sd = SeedDerivation.from_mnemonics(mnems, args.wlist_seed, args.passphrase.encode("utf8"), **deriv_args)
+        sd = SeedDerivation.from_mnemonics(mnems, args.wlist_seed, args.passphrase, **deriv_args)
 
     main_addr = sd.creds(network_type=NetworkTypes.MAINNET)
     test_addr = sd.creds(network_type=NetworkTypes.TESTNET)
-- 
2.43.0


From 87e36cef0265eb0d758d5c3b953708f25ab18bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:17 +0000
Subject: [PATCH 71/71] fix: trezor_init ignored the given mnemonic

---
 monero_poc/trezor_init.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monero_poc/trezor_init.py b/monero_poc/trezor_init.py
index 81cd55d..23f5c16 100644
--- a/monero_poc/trezor_init.py
+++ b/monero_poc/trezor_init.py
@@ -83,7 +83,7 @@ def main():
 
     mnemonic = mnemonic24 if args.mnemonic_idx == 1 else mnemonic12
     if args.mnemonic:
-        mnemonic = mnemonic
+        mnemonic = args.mnemonic
 
     wirelink = get_transport(path)
     client = (
-- 
2.43.0

