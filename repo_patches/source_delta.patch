From f8ab7fabcc2de920480ba0813a07bd2bcd3e2fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 01/35] fix: encode the first two OID sub-identifiers as
 40*X+Y, not 40*X|Y

---
 snmp/asn1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snmp/asn1.py b/snmp/asn1.py
index aeae5cc..573a89c 100644
--- a/snmp/asn1.py
+++ b/snmp/asn1.py
@@ -458,7 +458,7 @@ class OBJECT_IDENTIFIER(Primitive):
             second = 0
 
         encoding = bytearray()
-        self.serializeSubIdentifier(encoding, first * 40 | second)
+        self.serializeSubIdentifier(encoding, first * 40 + second)
         for subidentifier in self.subidentifiers[2:]:
             self.serializeSubIdentifier(encoding, subidentifier)
 
-- 
2.43.0


From 1c88899ab1c21ca729bc9fd0649a70fc967b216e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 02/35] fix: reject an OID encoding whose last octet announces
 a continuation

---
 snmp/asn1.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/snmp/asn1.py b/snmp/asn1.py
index 573a89c..af28e73 100644
--- a/snmp/asn1.py
+++ b/snmp/asn1.py
@@ -417,15 +417,17 @@ class OBJECT_IDENTIFIER(Primitive):
             raise ParseError(f"Empty {typename(cls)}") from err
 
         value = 0
+        incomplete = False
         for byte in stream:
             value |= byte & 0x7f
-            if byte & 0x80:
+            incomplete = bool(byte & 0x80)
+            if incomplete:
                 value <<= 7
             else:
                 oid.append(value)
                 value = 0
 
-        if value:
+        if incomplete:
             raise ParseError(f"{typename(cls)} ended unexpectedly")
 
         return cls.construct(*oid)
-- 
2.43.0


From e7858e3ffa3b0de72255643d3c7ae23e8513137e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 03/35] fix: do not resend a request twice when it is refreshed
 exactly on time

---
 snmp/manager/v1.py  | 2 +-
 snmp/manager/v2c.py | 2 +-
 snmp/manager/v3.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/snmp/manager/v1.py b/snmp/manager/v1.py
index 20a7a36..4a3423f 100644
--- a/snmp/manager/v1.py
+++ b/snmp/manager/v1.py
@@ -87,7 +87,7 @@ class Request(RequestHandle[Message]):
                 return None
 
             # Calculating it like this mitigates over-delay
-            periodsElapsed = math.ceil(-timeToNextRefresh / self.period)
+            periodsElapsed = math.floor(-timeToNextRefresh / self.period) + 1
             self.nextRefresh += periodsElapsed * self.period
             self.reallySend()
             return 0.0
diff --git a/snmp/manager/v2c.py b/snmp/manager/v2c.py
index a443f28..9dc6694 100644
--- a/snmp/manager/v2c.py
+++ b/snmp/manager/v2c.py
@@ -87,7 +87,7 @@ class Request(RequestHandle[Message]):
                 return None
 
             # Calculating it like this mitigates over-delay
-            periodsElapsed = math.ceil(-timeToNextRefresh / self.period)
+            periodsElapsed = math.floor(-timeToNextRefresh / self.period) + 1
             self.nextRefresh += periodsElapsed * self.period
             self.reallySend()
             return 0.0
diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 0fd666b..e03c03b 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -397,7 +397,7 @@ class Request:
                 return None
 
             # Calculating it like this mitigates over-delay
-            periodsElapsed = math.ceil(-timeToNextRefresh / self.period)
+            periodsElapsed = math.floor(-timeToNextRefresh / self.period) + 1
             self.nextRefresh += periodsElapsed * self.period
             self.reallySend()
             return 0.0
-- 
2.43.0


From ebb37900358250f7c081746452218843628575ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:50 +0000
Subject: [PATCH 04/35] fix: raise IndexDecodeError for an index sub-identifier
 that is not an octet

---
 snmp/asn1.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/snmp/asn1.py b/snmp/asn1.py
index af28e73..5316f85 100644
--- a/snmp/asn1.py
+++ b/snmp/asn1.py
@@ -185,14 +185,14 @@ class OCTET_STRING(Primitive):
         implied: bool = False,
     ) -> TOCTET_STRING:
         if implied:
-            data = bytes(nums)
+            octets = list(nums)
         else:
             length = next(nums)
-            data = bytes([next(nums) for _ in range(length)])
+            octets = [next(nums) for _ in range(length)]
 
         try:
-            return cls.construct(data)
-        except ParseError as err:
+            return cls.construct(bytes(octets))
+        except (ParseError, ValueError) as err:
             raise OBJECT_IDENTIFIER.IndexDecodeError(*err.args) from err
 
     @classmethod
-- 
2.43.0


From 581f3e6b8d4c3b58929e68b9fa6c0111feaf2e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:50 +0000
Subject: [PATCH 05/35] fix: raise IndexDecodeError, not RuntimeError, for a
 truncated OID index

---
 snmp/asn1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/snmp/asn1.py b/snmp/asn1.py
index 5316f85..41713e3 100644
--- a/snmp/asn1.py
+++ b/snmp/asn1.py
@@ -331,10 +331,10 @@ class OBJECT_IDENTIFIER(Primitive):
         implied: bool = False,
     ) -> TOID:
         if implied:
-            subidentifiers = nums
+            subidentifiers = list(nums)
         else:
             length = next(nums)
-            subidentifiers = (next(nums) for _ in range(length))
+            subidentifiers = [next(nums) for _ in range(length)]
 
         try:
             return cls.construct(*subidentifiers)
-- 
2.43.0


From ea61555f06973528c6f7cce87ab88ec2bdbc6a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:50 +0000
Subject: [PATCH 06/35] fix: decode an IpAddress index as the four
 sub-identifiers it is encoded in

---
 snmp/smi.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/snmp/smi.py b/snmp/smi.py
index a4257f5..47a7d80 100644
--- a/snmp/smi.py
+++ b/snmp/smi.py
@@ -121,6 +121,14 @@ class IpAddress(OCTET_STRING):
     def asOID(self, implied: bool = False) -> Iterable[int]:
         return super().asOID(implied=True)
 
+    @classmethod
+    def fromOID(cls,
+        nums: Iterator[int],
+        implied: bool = False,
+    ) -> "IpAddress":
+        octets = iter([next(nums) for _ in range(4)])
+        return super().fromOID(octets, implied=True)
+
     @classmethod
     def construct(cls, data: Asn1Data) -> "IpAddress":
         if isinstance(data, subbytes):
-- 
2.43.0


From 4ef00adcd840c80d0070a968a8e067e1b1ca9ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:50 +0000
Subject: [PATCH 07/35] fix: treat subbytes bounds that cross as an empty
 sequence

---
 snmp/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snmp/utils.py b/snmp/utils.py
index 8e93969..e9f4a6d 100644
--- a/snmp/utils.py
+++ b/snmp/utils.py
@@ -130,7 +130,7 @@ class subbytes:
         newstop  = base.stop  if stop  is None else base.translate(stop,  True)
 
         self._start = newstart
-        self._stop  = newstop
+        self._stop  = max(newstart, newstop)
 
     @property
     def data(self) -> bytes:
-- 
2.43.0


From df60ecf62f09dec7035a354f7ecd0441a17177f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:02 +0000
Subject: [PATCH 08/35] fix: do not wait forever for a v1/v2c request that
 expires during refresh

---
 snmp/manager/v1.py  | 4 ++--
 snmp/manager/v2c.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/snmp/manager/v1.py b/snmp/manager/v1.py
index 4a3423f..bffe4e0 100644
--- a/snmp/manager/v1.py
+++ b/snmp/manager/v1.py
@@ -134,7 +134,7 @@ class SNMPv1Manager(Generic[T]):
         self.lock = threading.Lock()
         self.requests: List[ComparableWeakRef[Request, float]] = []
 
-    def refresh(self) -> Optional[float]:
+    def refresh(self) -> float:
         while self.requests:
             with self.lock:
                 reference = self.requests[0]
@@ -153,7 +153,7 @@ class SNMPv1Manager(Generic[T]):
                 else:
                     heapq.heapreplace(self.requests, reference)
 
-        return None
+        return 0.0
 
     def sendPdu(self,
         pdu: PDU,
diff --git a/snmp/manager/v2c.py b/snmp/manager/v2c.py
index 9dc6694..5f2ad77 100644
--- a/snmp/manager/v2c.py
+++ b/snmp/manager/v2c.py
@@ -134,7 +134,7 @@ class SNMPv2cManager(Generic[T]):
         self.lock = threading.Lock()
         self.requests: List[ComparableWeakRef[Request, float]] = []
 
-    def refresh(self) -> Optional[float]:
+    def refresh(self) -> float:
         while self.requests:
             with self.lock:
                 reference = self.requests[0]
@@ -153,7 +153,7 @@ class SNMPv2cManager(Generic[T]):
                 else:
                     heapq.heapreplace(self.requests, reference)
 
-        return None
+        return 0.0
 
     def sendPdu(self,
         pdu: AnyPDU,
-- 
2.43.0


From 1f75aa60d29e321e97e21be5b4e95580dd6585af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:02 +0000
Subject: [PATCH 09/35] fix: return a v1/v2c response that arrived before a
 late call to wait()

---
 snmp/manager/v1.py  | 6 ++++--
 snmp/manager/v2c.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/snmp/manager/v1.py b/snmp/manager/v1.py
index bffe4e0..2793598 100644
--- a/snmp/manager/v1.py
+++ b/snmp/manager/v1.py
@@ -104,10 +104,12 @@ class Request(RequestHandle[Message]):
         while not self.expired:
             timeout = self.manager.refresh()
             if self.event.wait(timeout=timeout):
-                assert self.response is not None
-                pdu = cast(ResponsePDU, self.response.pdu)
                 break
 
+        if self.event.is_set():
+            assert self.response is not None
+            pdu = cast(ResponsePDU, self.response.pdu)
+
         self.close()
         if pdu is None:
             raise Timeout()
diff --git a/snmp/manager/v2c.py b/snmp/manager/v2c.py
index 5f2ad77..11b12ce 100644
--- a/snmp/manager/v2c.py
+++ b/snmp/manager/v2c.py
@@ -104,10 +104,12 @@ class Request(RequestHandle[Message]):
         while not self.expired:
             timeout = self.manager.refresh()
             if self.event.wait(timeout=timeout):
-                assert self.response is not None
-                pdu = cast(ResponsePDU, self.response.pdu)
                 break
 
+        if self.event.is_set():
+            assert self.response is not None
+            pdu = cast(ResponsePDU, self.response.pdu)
+
         self.close()
         if pdu is None:
             raise Timeout()
-- 
2.43.0


From 06b2341b91e9870135fd62c8c3b3031e2b12e047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 10/35] fix: queue a v1/v2c request under its refresh time, not
 its expiration

---
 snmp/manager/v1.py  | 2 +-
 snmp/manager/v2c.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/snmp/manager/v1.py b/snmp/manager/v1.py
index 2793598..798efc0 100644
--- a/snmp/manager/v1.py
+++ b/snmp/manager/v1.py
@@ -186,8 +186,8 @@ class SNMPv1Manager(Generic[T]):
         reference = ComparableWeakRef(request, key=lambda r: r.nextRefresh)
 
         with self.lock:
-            heapq.heappush(self.requests, reference)
             request.send()
+            heapq.heappush(self.requests, reference)
 
         if wait:
             return request.wait()
diff --git a/snmp/manager/v2c.py b/snmp/manager/v2c.py
index 11b12ce..f41ce55 100644
--- a/snmp/manager/v2c.py
+++ b/snmp/manager/v2c.py
@@ -186,8 +186,8 @@ class SNMPv2cManager(Generic[T]):
         reference = ComparableWeakRef(request, key=lambda r: r.nextRefresh)
 
         with self.lock:
-            heapq.heappush(self.requests, reference)
             request.send()
+            heapq.heappush(self.requests, reference)
 
         if wait:
             return request.wait()
-- 
2.43.0


From e88594a3c8c237a2e0dc3fa7f39ebcbe364f01af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 11/35] fix: never accept a ResponsePDU that answers an SNMPv3
 discovery message

---
 snmp/manager/v3.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index e03c03b..e077eaf 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -613,6 +613,12 @@ class SNMPv3UsmManager(Generic[T]):
             auth = response.header.flags.authFlag
             engineID = response.securityEngineID
             assert engineID is not None
+
+            # Only a discovery message is addressed to the empty engineID
+            if not engineID:
+                errmsg = "Received a ResponsePDU for a discovery message"
+                raise DiscoveryError(errmsg)
+
             if self.state.onResponse(engineID, auth):
                 self.engineID = engineID
                 self.updateState()
-- 
2.43.0


From 70a4c9a96dda85f7efeaddd2f7b8a1ca4ba95668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 12/35] fix: do not let wait() on a queued SNMPv3 request
 overrun its timeout

---
 snmp/manager/v3.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index e077eaf..2e2697a 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -414,6 +414,8 @@ class Request:
             pdu = None
             while not self.expired:
                 timeout = self.manager.refresh()
+                remaining = max(0.0, self.expiration - time.time())
+                timeout = min(timeout, remaining)
 
                 try:
                     ready = self.event.wait(timeout=timeout)
-- 
2.43.0


From 0361b401dc4b5bd09ae51fb9e0fa038c146409bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 13/35] fix: do not transmit a queued SNMPv3 request after its
 timeout

---
 snmp/manager/v3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 2e2697a..d1922db 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -535,7 +535,7 @@ class SNMPv3UsmManager(Generic[T]):
                 reference = unsent.pop()
                 request = reference()
 
-                if request is not None:
+                if request is not None and not request.expired:
                     if self.state.onRequest(request.securityLevel.auth):
                         with self.activeLock:
                             request.send(self.engineID)
@@ -602,7 +602,7 @@ class SNMPv3UsmManager(Generic[T]):
                     reference = self.unsent.pop()
                     req = reference()
 
-                    if req is not None:
+                    if req is not None and not req.expired:
                         with self.activeLock:
                             req.send(engineID)
                             heapq.heappush(self.active, reference)
-- 
2.43.0


From 8f18a90da7159461df1a3f3bca66a93a5cd0b6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 14/35] fix: release a request's engine claim once when close()
 races a report

---
 snmp/manager/v3.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index d1922db..46b1dc3 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -282,6 +282,8 @@ class Request:
     ) -> None:
         now = time.time()
 
+        # close() may race with the listener thread for self._engineID
+        self.engineLock = threading.Lock()
         self._engineID: Optional[bytes] = None
         self.synchronized = SharedBool(False)
 
@@ -315,10 +317,12 @@ class Request:
         if engineID is not None:
             self.manager.registerRemoteEngine(engineID)
 
-        if self._engineID is not None:
-            self.manager.unregisterRemoteEngine(self._engineID)
+        with self.engineLock:
+            previous = self._engineID
+            self._engineID = engineID
 
-        self._engineID = engineID
+        if previous is not None:
+            self.manager.unregisterRemoteEngine(previous)
 
     @property
     def expired(self) -> bool:
-- 
2.43.0


From daa37a52608b36de5db5bb790a947c8351448f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 15/35] fix: serialize encryption so that threads cannot share
 a salt

---
 snmp/security/usm/implementation.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/snmp/security/usm/implementation.py b/snmp/security/usm/implementation.py
index 84068b5..1173898 100644
--- a/snmp/security/usm/implementation.py
+++ b/snmp/security/usm/implementation.py
@@ -131,11 +131,15 @@ class UserBasedSecurityModule(SecurityModule[SNMPv3Message]):
                     raise InvalidSecurityLevel(errmsg)
 
                 assert message.scopedPDU is not None
-                ciphertext, msgPrivacyParameters = user.priv.encrypt(
-                    message.scopedPDU.encode(),
-                    snmpEngineBoots,
-                    snmpEngineTime,
-                )
+                plaintext = message.scopedPDU.encode()
+
+                # Two threads must not encrypt with the same salt
+                with self.userLock:
+                    ciphertext, msgPrivacyParameters = user.priv.encrypt(
+                        plaintext,
+                        snmpEngineBoots,
+                        snmpEngineTime,
+                    )
 
                 message.encryptedPDU = OctetString(ciphertext)
 
-- 
2.43.0


From 86c94900c06ae133994d9a75b4bd994fc534bf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 16/35] fix: reject negative engine boots and time in USM
 security parameters

---
 snmp/security/usm/parameters.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/snmp/security/usm/parameters.py b/snmp/security/usm/parameters.py
index 7b7f7d7..06a248b 100644
--- a/snmp/security/usm/parameters.py
+++ b/snmp/security/usm/parameters.py
@@ -149,6 +149,11 @@ class UsmSecurityParameters(Sequence):
 
         salt = OctetString.decode(ptr)
 
+        if engineBoots.value < 0:
+            raise ParseError("msgAuthoritativeEngineBoots may not be negative")
+        elif engineTime.value < 0:
+            raise ParseError("msgAuthoritativeEngineTime may not be negative")
+
         return cls(
             engineID.data,
             engineBoots.value,
-- 
2.43.0


From 6bb03518790d298a8ba20d5405ad2c1cea7cddff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 17/35] fix: keep the engine time of outgoing messages within
 its range

---
 snmp/security/usm/timekeeper.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/snmp/security/usm/timekeeper.py b/snmp/security/usm/timekeeper.py
index 56d9c07..8a72235 100644
--- a/snmp/security/usm/timekeeper.py
+++ b/snmp/security/usm/timekeeper.py
@@ -64,6 +64,7 @@ class EngineTime:
 
 class TimeKeeper:
     TIME_WINDOW_SIZE: ClassVar[int] = 150
+    MAX_ENGINE_TIME: ClassVar[int] = (1 << 31) - 1
 
     def __init__(self) -> None:
         self.table: Dict[bytes, EngineTime] = {}
@@ -92,7 +93,9 @@ class TimeKeeper:
         except KeyError:
             return 0, 0
 
-        return et.snmpEngineBoots, et.snmpEngineTime(timestamp)
+        engineTime = et.snmpEngineTime(timestamp)
+        engineTime = max(0, min(engineTime, self.MAX_ENGINE_TIME))
+        return et.snmpEngineBoots, engineTime
 
     def hint(self,
         engineID: bytes,
-- 
2.43.0


From 9f1c998dc659510375e1bacd28113af3ccd720bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 18/35] fix: raise ValueError for an unsupported transport
 domain

---
 snmp/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snmp/engine.py b/snmp/engine.py
index b47301f..41ff0e0 100644
--- a/snmp/engine.py
+++ b/snmp/engine.py
@@ -189,7 +189,7 @@ class Engine:
         try:
             transportClass = self.TRANSPORTS[domain]
         except KeyError as err:
-            errmsg = f"Unsupported transport domain: {transportClass.DOMAIN}"
+            errmsg = f"Unsupported transport domain: {domain}"
             raise ValueError(errmsg) from err
 
         address = transportClass.normalizeAddress(
-- 
2.43.0


From 34dc0c8515fd8932af130499cb3482afaaeac5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 19/35] fix: allow an engine to be shut down more than once

---
 snmp/transport/posix/udp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/snmp/transport/posix/udp.py b/snmp/transport/posix/udp.py
index 75fe31f..a288407 100644
--- a/snmp/transport/posix/udp.py
+++ b/snmp/transport/posix/udp.py
@@ -44,7 +44,9 @@ class PosixUdpMultiplexor(TransportMultiplexor[Tuple[str, int]]):
         for sock in self.sockets.values():
             sock.close()
 
-        os.close(self.w)
-        os.close(self.r)
+        if self.w != -1:
+            os.close(self.w)
+            os.close(self.r)
+            self.r = self.w = -1
 
 UdpMultiplexor = PosixUdpMultiplexor
-- 
2.43.0


From 3dab27709a57598b27235ed7a6c9d77aef3d50a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 20/35] fix: reject a DES salt of the wrong length

---
 snmp/security/usm/priv/openssl/des.py      | 2 ++
 snmp/security/usm/priv/pycryptodome/des.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/snmp/security/usm/priv/openssl/des.py b/snmp/security/usm/priv/openssl/des.py
index 902df86..2ecb3ca 100644
--- a/snmp/security/usm/priv/openssl/des.py
+++ b/snmp/security/usm/priv/openssl/des.py
@@ -41,6 +41,8 @@ class DesCbc(PrivProtocol):
         if len(data) % self.BLOCKLEN:
             errmsg = "DES ciphertext must be a multiple of {} in length"
             raise DecryptionError(errmsg.format(self.BLOCKLEN))
+        elif len(salt) != self.BLOCKLEN:
+            raise DecryptionError("Invalid salt")
 
         iv = self.computeIV(salt)
         return Decryptor(self.CIPHER).decrypt(data, self.key, iv)
diff --git a/snmp/security/usm/priv/pycryptodome/des.py b/snmp/security/usm/priv/pycryptodome/des.py
index fcd7e53..f2610ca 100644
--- a/snmp/security/usm/priv/pycryptodome/des.py
+++ b/snmp/security/usm/priv/pycryptodome/des.py
@@ -44,6 +44,8 @@ class DesCbc(PrivProtocol):
         if len(data) % self.BLOCKLEN:
             errmsg = "DES ciphertext must be a multiple of {} in length"
             raise DecryptionError(errmsg.format(self.BLOCKLEN))
+        elif len(salt) != self.BLOCKLEN:
+            raise DecryptionError("Invalid salt")
 
         return self.newCipher(self.computeIV(salt)).decrypt(self.pad(data))
 
-- 
2.43.0


From 66642d6af462c58db3fcbabd641a21361e5e3348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 21/35] fix: return exactly the octets that OpenSSL produced,
 and the last DES block

---
 snmp/security/usm/priv/openssl/__init__.py | 2 +-
 snmp/security/usm/priv/openssl/des.py      | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/snmp/security/usm/priv/openssl/__init__.py b/snmp/security/usm/priv/openssl/__init__.py
index c80d042..6aa903f 100644
--- a/snmp/security/usm/priv/openssl/__init__.py
+++ b/snmp/security/usm/priv/openssl/__init__.py
@@ -64,7 +64,7 @@ class Envelope:
             if not self.update(ctx, output, outl, data, inl):
                 raise Exception("Failed to update cipher context")
 
-            return bytes(output)
+            return bytes(output[0:outl[0]])
 
 class Decryptor(Envelope):
     ENCRYPT = False
diff --git a/snmp/security/usm/priv/openssl/des.py b/snmp/security/usm/priv/openssl/des.py
index 2ecb3ca..b37e1b0 100644
--- a/snmp/security/usm/priv/openssl/des.py
+++ b/snmp/security/usm/priv/openssl/des.py
@@ -45,7 +45,8 @@ class DesCbc(PrivProtocol):
             raise DecryptionError("Invalid salt")
 
         iv = self.computeIV(salt)
-        return Decryptor(self.CIPHER).decrypt(data, self.key, iv)
+        # OpenSSL holds back the last block unless more data follows
+        return Decryptor(self.CIPHER).decrypt(self.pad(data), self.key, iv)
 
     def encrypt(self,
         data: bytes,
-- 
2.43.0


From 0c49b5937d093b5d57de0fd7bd7def5bd7e0028a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:06 +0000
Subject: [PATCH 22/35] fix: keep listening after a datagram with a bad
 checksum

---
 snmp/transport/generic/udp.py | 7 ++++++-
 snmp/transport/posix/udp.py   | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/snmp/transport/generic/udp.py b/snmp/transport/generic/udp.py
index 1441905..41b46a5 100644
--- a/snmp/transport/generic/udp.py
+++ b/snmp/transport/generic/udp.py
@@ -52,7 +52,12 @@ class GenericUdpMultiplexor(TransportMultiplexor[Tuple[str, int]]):
                         data, addr = self.r.recvfrom(len(STOPMSG))
                         done = addr == self.w.getsockname() and data == STOPMSG
                 else:
-                    addr, data = sock.receive(self.recvSize)
+                    try:
+                        addr, data = sock.receive(self.recvSize)
+                    except BlockingIOError:
+                        # The kernel discarded a datagram (bad checksum)
+                        continue
+
                     listener.hear(sock, addr, data)
 
     def stop(self) -> None:
diff --git a/snmp/transport/posix/udp.py b/snmp/transport/posix/udp.py
index a288407..3ba272a 100644
--- a/snmp/transport/posix/udp.py
+++ b/snmp/transport/posix/udp.py
@@ -34,7 +34,12 @@ class PosixUdpMultiplexor(TransportMultiplexor[Tuple[str, int]]):
                         os.read(fd, 1)
                         done = True
                 else:
-                    addr, data = sock.receive(self.recvSize)
+                    try:
+                        addr, data = sock.receive(self.recvSize)
+                    except BlockingIOError:
+                        # The kernel discarded a datagram (bad checksum)
+                        continue
+
                     listener.hear(sock, addr, data)
 
     def stop(self) -> None:
-- 
2.43.0


From 9f013bb61a7504e45194433483bd65878d38a960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:22 +0000
Subject: [PATCH 23/35] fix: do not retransmit an SNMPv3 request on a report
 once it is finished

---
 snmp/manager/v3.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 46b1dc3..6ac2938 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -328,6 +328,10 @@ class Request:
     def expired(self) -> bool:
         return self.expiration <= time.time()
 
+    @property
+    def finished(self) -> bool:
+        return self.event.is_set() or self.expired
+
     @property
     def nextRefresh(self) -> float:
         return self._nextRefresh
@@ -596,9 +600,10 @@ class SNMPv3UsmManager(Generic[T]):
         with self.lock:
             sendAll = self.state.onReport(engineID)
 
-            with self.activeLock:
-                request.send(engineID)
-                heapq.heapify(self.active)
+            if not request.finished:
+                with self.activeLock:
+                    request.send(engineID)
+                    heapq.heapify(self.active)
 
             if sendAll:
                 self.updateState()
-- 
2.43.0


From 02f73018c540a853db70652510d88a110214b0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:38 +0000
Subject: [PATCH 24/35] fix: raise the error of sending a queued SNMPv3 request
 in its own wait()

---
 snmp/manager/v3.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 6ac2938..ee54d0c 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -295,7 +295,7 @@ class Request:
         self.messages: Set[RequestMessage] = set()
 
         self.event = threading.Event()
-        self.exception: Optional[UnhandledReport] = None
+        self.exception: Optional[Exception] = None
         self.response: Optional[SNMPv3Message] = None
 
         self.expiration = now + timeout
@@ -346,6 +346,16 @@ class Request:
 
         self.engineID = None
 
+    # A request that cannot be sent must not disturb any other request
+    def trySend(self, engineID: Optional[bytes] = None) -> None:
+        try:
+            self.send(engineID)
+        except DiscoveryError:
+            raise
+        except Exception as err:
+            self.exception = err
+            self.event.set()
+
     def processNotInTimeWindow(self, engineID: bytes) -> None:
         self.manager.onReport(self, engineID)
         self.synchronized.makeTrue()
@@ -546,7 +556,7 @@ class SNMPv3UsmManager(Generic[T]):
                 if request is not None and not request.expired:
                     if self.state.onRequest(request.securityLevel.auth):
                         with self.activeLock:
-                            request.send(self.engineID)
+                            request.trySend(self.engineID)
                             heapq.heappush(self.active, reference)
                             active = True
 
@@ -602,7 +612,7 @@ class SNMPv3UsmManager(Generic[T]):
 
             if not request.finished:
                 with self.activeLock:
-                    request.send(engineID)
+                    request.trySend(engineID)
                     heapq.heapify(self.active)
 
             if sendAll:
@@ -613,7 +623,7 @@ class SNMPv3UsmManager(Generic[T]):
 
                     if req is not None and not req.expired:
                         with self.activeLock:
-                            req.send(engineID)
+                            req.trySend(engineID)
                             heapq.heappush(self.active, reference)
 
     def processResponse(self,
-- 
2.43.0


From 0b14005d020d2e83639eb54aeb62faadc4cba7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:15 +0000
Subject: [PATCH 25/35] fix: send held-back SNMPv3 requests once the remote
 engine responds

---
 snmp/manager/v3.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index ee54d0c..1e30ad4 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -617,14 +617,18 @@ class SNMPv3UsmManager(Generic[T]):
 
             if sendAll:
                 self.updateState()
-                while self.unsent:
-                    reference = self.unsent.pop()
-                    req = reference()
+                self.sendUnsent(engineID)
 
-                    if req is not None and not req.expired:
-                        with self.activeLock:
-                            req.trySend(engineID)
-                            heapq.heappush(self.active, reference)
+    # The caller must hold self.lock
+    def sendUnsent(self, engineID: bytes) -> None:
+        while self.unsent:
+            reference = self.unsent.pop()
+            request = reference()
+
+            if request is not None and not request.expired:
+                with self.activeLock:
+                    request.trySend(engineID)
+                    heapq.heappush(self.active, reference)
 
     def processResponse(self,
         request: Request,
@@ -643,6 +647,7 @@ class SNMPv3UsmManager(Generic[T]):
             if self.state.onResponse(engineID, auth):
                 self.engineID = engineID
                 self.updateState()
+                self.sendUnsent(engineID)
 
             return True
 
-- 
2.43.0


From e849b414d80821ac89899f8d5b47b5fe06c7803d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:29 +0000
Subject: [PATCH 26/35] fix: wake up in time to refresh requests sent by the
 listener thread

---
 snmp/manager/v3.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 1e30ad4..a48e9ef 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -433,7 +433,8 @@ class Request:
             while not self.expired:
                 timeout = self.manager.refresh()
                 remaining = max(0.0, self.expiration - time.time())
-                timeout = min(timeout, remaining)
+                queued = self.manager.queuedPeriod()
+                timeout = min(timeout, remaining, queued)
 
                 try:
                     ready = self.event.wait(timeout=timeout)
@@ -594,6 +595,16 @@ class SNMPv3UsmManager(Generic[T]):
 
         return 0.0
 
+    # The listener thread may send the queued requests at any moment,
+    # so their refresh periods also limit how long it is safe to wait
+    def queuedPeriod(self) -> float:
+        with self.lock:
+            requests = (reference() for reference in self.unsent)
+            return min((
+                request.period for request in requests
+                if request is not None and not request.expired
+            ), default=math.inf)
+
     def registerRemoteEngine(self, engineID: bytes) -> None:
         if not self.usm.registerRemoteEngine(engineID, self.namespace):
             errmsg = f"Failed to register engineID {engineID!r}"
-- 
2.43.0


From ea3a1dad77525bb50948783818e53d2e447901ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:37 +0000
Subject: [PATCH 27/35] fix: error of a queued request keeps unrelated requests
 alive through its traceback

---
 snmp/manager/v3.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index a48e9ef..952665b 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -353,6 +353,12 @@ class Request:
         except DiscoveryError:
             raise
         except Exception as err:
+            # The traceback frames would keep other requests alive
+            link: Optional[BaseException] = err
+            while link is not None:
+                link.__traceback__ = None
+                link = link.__context__
+
             self.exception = err
             self.event.set()
 
-- 
2.43.0


From c3aba9a36a751c5ff11472d8217cb105854511c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:21 +0000
Subject: [PATCH 28/35] fix: leave nothing allocated when wait() ends while the
 listener is resending

---
 snmp/manager/v3.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 952665b..958121a 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -232,8 +232,9 @@ class RequestMessage(RequestHandle[SNMPv3Message]):
         self.synchronized = synchronized
 
     def addCallback(self, func: Callable[[int], None], msgID: int) -> None:
-        self.callback = func
+        # close() may run in another thread at any moment
         self.messageID = msgID
+        self.callback = func
 
     def push(self, response: SNMPv3Message) -> None:
         assert response.scopedPDU is not None
@@ -266,9 +267,10 @@ class RequestMessage(RequestHandle[SNMPv3Message]):
             self.request.processResponse(cast(ResponsePDU, response))
 
     def close(self) -> None:
-        if self.callback is not None:
+        callback = self.callback
+        if callback is not None:
             assert self.messageID is not None
-            self.callback(self.messageID)
+            callback(self.messageID)
             self.callback = None
 
 class Request:
@@ -292,6 +294,7 @@ class Request:
         self.securityLevel = securityLevel
         self.userName = userName
 
+        self.closed = False
         self.messages: Set[RequestMessage] = set()
 
         self.event = threading.Event()
@@ -341,8 +344,13 @@ class Request:
         self._nextRefresh = min(self.expiration, value)
 
     def close(self) -> None:
-        while self.messages:
-            self.messages.pop().close()
+        self.closed = True
+
+        try:
+            while True:
+                self.messages.pop().close()
+        except KeyError:
+            pass
 
         self.engineID = None
 
@@ -407,7 +415,14 @@ class Request:
 
         message = RequestMessage(self, self.synchronized)
         self.messages.add(message)
-        self.manager.sendPdu(pdu, message, engineID, user, securityLevel)
+
+        try:
+            self.manager.sendPdu(pdu, message, engineID, user, securityLevel)
+        finally:
+            # close() may have run in another thread in the meantime
+            if self.closed:
+                self.messages.add(message)
+                self.close()
 
     def refresh(self) -> Optional[float]:
         if self.event.is_set():
-- 
2.43.0


From f730c23bb28167c2a58a0f96b4af59640b738dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:42 +0000
Subject: [PATCH 29/35] fix: close a UDP socket that could not be bound

---
 snmp/transport/udp.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/snmp/transport/udp.py b/snmp/transport/udp.py
index 7e5bac3..46dcf4a 100644
--- a/snmp/transport/udp.py
+++ b/snmp/transport/udp.py
@@ -69,8 +69,13 @@ class UdpSocket(Transport[Tuple[str, int]]):
 
     def __init__(self, host: str = "", port: int = 0) -> None:
         self.socket = socket(self.DOMAIN.address_family, SOCK_DGRAM)
-        self.socket.setblocking(False)
-        self.socket.bind((host, port))
+
+        try:
+            self.socket.setblocking(False)
+            self.socket.bind((host, port))
+        except BaseException:
+            self.socket.close()
+            raise
 
     def receive(self, size: int) -> Tuple[Tuple[str, int], bytes]:
         data, addr = self.socket.recvfrom(size)
-- 
2.43.0


From 8756f6feacf53715bc9adf164b7c0737789dbfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:46 +0000
Subject: [PATCH 30/35] fix: let threads that share a v1/v2c manager empty its
 queue safely

---
 snmp/manager/v1.py  | 4 ++++
 snmp/manager/v2c.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/snmp/manager/v1.py b/snmp/manager/v1.py
index 798efc0..7e09c7e 100644
--- a/snmp/manager/v1.py
+++ b/snmp/manager/v1.py
@@ -139,6 +139,10 @@ class SNMPv1Manager(Generic[T]):
     def refresh(self) -> float:
         while self.requests:
             with self.lock:
+                # Another thread may have emptied the queue
+                if not self.requests:
+                    break
+
                 reference = self.requests[0]
                 request = reference()
 
diff --git a/snmp/manager/v2c.py b/snmp/manager/v2c.py
index f41ce55..5ccfa19 100644
--- a/snmp/manager/v2c.py
+++ b/snmp/manager/v2c.py
@@ -139,6 +139,10 @@ class SNMPv2cManager(Generic[T]):
     def refresh(self) -> float:
         while self.requests:
             with self.lock:
+                # Another thread may have emptied the queue
+                if not self.requests:
+                    break
+
                 reference = self.requests[0]
                 request = reference()
 
-- 
2.43.0


From d89fafaeb210fcc8e03ac7ee37d637328732be70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:08 +0000
Subject: [PATCH 31/35] fix: do not fail to refresh an SNMPv3 request that
 another thread is closing

---
 snmp/manager/v3.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 958121a..3ad384f 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -403,13 +403,14 @@ class Request:
         securityLevel = self.securityLevel
 
         if engineID is None:
-            if self.engineID is None:
+            # close() may run in another thread at any moment
+            engineID = self.engineID
+
+            if engineID is None:
                 pdu = GetRequestPDU()
                 engineID = b""
                 user = b""
                 securityLevel = noAuthNoPriv
-            else:
-                engineID = self.engineID
         else:
             self.engineID = engineID
 
-- 
2.43.0


From 26f7edaf6beb9deb9f2c63072bb85b4cb3043dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:01 +0000
Subject: [PATCH 32/35] fix: measure timeouts and engine times with the
 monotonic clock

A change of the system's clock stretched or cut short every wait, moved
retransmissions and shifted the estimated time of every remote engine.
---
 snmp/manager/v1.py                  |  8 ++++----
 snmp/manager/v2c.py                 |  8 ++++----
 snmp/manager/v3.py                  | 10 +++++-----
 snmp/security/usm/implementation.py |  6 +++---
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/snmp/manager/v1.py b/snmp/manager/v1.py
index 7e09c7e..74d8c08 100644
--- a/snmp/manager/v1.py
+++ b/snmp/manager/v1.py
@@ -23,7 +23,7 @@ class Request(RequestHandle[Message]):
         timeout: float = 10.0,
         refreshPeriod: float = 1.0,
     ) -> None:
-        now = time.time()
+        now = time.monotonic()
 
         self.community = community
         self.manager = manager
@@ -43,7 +43,7 @@ class Request(RequestHandle[Message]):
 
     @property
     def expired(self) -> bool:
-        return self.expiration <= time.time()
+        return self.expiration <= time.monotonic()
 
     @property
     def nextRefresh(self) -> float:
@@ -79,7 +79,7 @@ class Request(RequestHandle[Message]):
         if self.event.is_set():
             return None
 
-        now = time.time()
+        now = time.monotonic()
         timeToNextRefresh = self.nextRefresh - now
 
         if timeToNextRefresh <= 0.0:
@@ -95,7 +95,7 @@ class Request(RequestHandle[Message]):
             return timeToNextRefresh
 
     def send(self) -> None:
-        now = time.time()
+        now = time.monotonic()
         self.nextRefresh = now + self.period
         self.reallySend()
 
diff --git a/snmp/manager/v2c.py b/snmp/manager/v2c.py
index 5ccfa19..21c20c6 100644
--- a/snmp/manager/v2c.py
+++ b/snmp/manager/v2c.py
@@ -23,7 +23,7 @@ class Request(RequestHandle[Message]):
         timeout: float = 10.0,
         refreshPeriod: float = 1.0,
     ) -> None:
-        now = time.time()
+        now = time.monotonic()
 
         self.community = community
         self.manager = manager
@@ -43,7 +43,7 @@ class Request(RequestHandle[Message]):
 
     @property
     def expired(self) -> bool:
-        return self.expiration <= time.time()
+        return self.expiration <= time.monotonic()
 
     @property
     def nextRefresh(self) -> float:
@@ -79,7 +79,7 @@ class Request(RequestHandle[Message]):
         if self.event.is_set():
             return None
 
-        now = time.time()
+        now = time.monotonic()
         timeToNextRefresh = self.nextRefresh - now
 
         if timeToNextRefresh <= 0.0:
@@ -95,7 +95,7 @@ class Request(RequestHandle[Message]):
             return timeToNextRefresh
 
     def send(self) -> None:
-        now = time.time()
+        now = time.monotonic()
         self.nextRefresh = now + self.period
         self.reallySend()
 
diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 3ad384f..ced6b0b 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -282,7 +282,7 @@ class Request:
         timeout: float = 10.0,
         refreshPeriod: float = 1.0,
     ) -> None:
-        now = time.time()
+        now = time.monotonic()
 
         # close() may race with the listener thread for self._engineID
         self.engineLock = threading.Lock()
@@ -329,7 +329,7 @@ class Request:
 
     @property
     def expired(self) -> bool:
-        return self.expiration <= time.time()
+        return self.expiration <= time.monotonic()
 
     @property
     def finished(self) -> bool:
@@ -429,7 +429,7 @@ class Request:
         if self.event.is_set():
             return None
 
-        now = time.time()
+        now = time.monotonic()
         timeToNextRefresh = self.nextRefresh - now
 
         if timeToNextRefresh <= 0.0:
@@ -445,7 +445,7 @@ class Request:
             return timeToNextRefresh
 
     def send(self, engineID: Optional[bytes] = None) -> None:
-        now = time.time()
+        now = time.monotonic()
         self.nextRefresh = now + self.period
         self.reallySend(engineID)
 
@@ -454,7 +454,7 @@ class Request:
             pdu = None
             while not self.expired:
                 timeout = self.manager.refresh()
-                remaining = max(0.0, self.expiration - time.time())
+                remaining = max(0.0, self.expiration - time.monotonic())
                 queued = self.manager.queuedPeriod()
                 timeout = min(timeout, remaining, queued)
 
diff --git a/snmp/security/usm/implementation.py b/snmp/security/usm/implementation.py
index 1173898..9516df3 100644
--- a/snmp/security/usm/implementation.py
+++ b/snmp/security/usm/implementation.py
@@ -1,7 +1,7 @@
 __all__ = ["InvalidSecurityLevel", "UserBasedSecurityModule"]
 
 import threading
-from time import time
+from time import monotonic
 
 from snmp.exception import *
 from snmp.message.v3 import *
@@ -106,7 +106,7 @@ class UserBasedSecurityModule(SecurityModule[SNMPv3Message]):
         timestamp: Optional[float] = None,
     ) -> bytes:
         if timestamp is None:
-            timestamp = time()
+            timestamp = monotonic()
 
         if message.header.flags.authFlag:
             with self.userLock:
@@ -177,7 +177,7 @@ class UserBasedSecurityModule(SecurityModule[SNMPv3Message]):
         timestamp: Optional[float] = None,
     ) -> None:
         if timestamp is None:
-            timestamp = time()
+            timestamp = monotonic()
 
         securityParameters = UsmSecurityParameters.decode(
             message.securityParameters.original,
-- 
2.43.0


From ca0f8f316cf2f919157bde2dc1fefbf4d669ab34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:52 +0000
Subject: [PATCH 33/35] fix: an SNMPv3 request whose wait was interrupted is
 neither resent nor does it hold others back

---
 snmp/manager/v3.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index ced6b0b..4aabaa5 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -333,7 +333,7 @@ class Request:
 
     @property
     def finished(self) -> bool:
-        return self.event.is_set() or self.expired
+        return self.closed or self.event.is_set() or self.expired
 
     @property
     def nextRefresh(self) -> float:
@@ -426,7 +426,7 @@ class Request:
                 self.close()
 
     def refresh(self) -> Optional[float]:
-        if self.event.is_set():
+        if self.closed or self.event.is_set():
             return None
 
         now = time.monotonic()
@@ -576,7 +576,7 @@ class SNMPv3UsmManager(Generic[T]):
                 reference = unsent.pop()
                 request = reference()
 
-                if request is not None and not request.expired:
+                if request is not None and not request.finished:
                     if self.state.onRequest(request.securityLevel.auth):
                         with self.activeLock:
                             request.trySend(self.engineID)
@@ -624,7 +624,7 @@ class SNMPv3UsmManager(Generic[T]):
             requests = (reference() for reference in self.unsent)
             return min((
                 request.period for request in requests
-                if request is not None and not request.expired
+                if request is not None and not request.finished
             ), default=math.inf)
 
     def registerRemoteEngine(self, engineID: bytes) -> None:
@@ -658,7 +658,7 @@ class SNMPv3UsmManager(Generic[T]):
             reference = self.unsent.pop()
             request = reference()
 
-            if request is not None and not request.expired:
+            if request is not None and not request.finished:
                 with self.activeLock:
                     request.trySend(engineID)
                     heapq.heappush(self.active, reference)
-- 
2.43.0


From ea3c04f38eea14e45ec86683162513b34a1f3125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:55 +0000
Subject: [PATCH 34/35] fix: do not generate SNMPv3 request IDs from two
 threads at once

---
 snmp/manager/v3.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 4aabaa5..2365cfc 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -520,7 +520,7 @@ class SNMPv3UsmManager(Generic[T]):
         self.activeLock = threading.Lock()
         self.active: List[ComparableWeakRef[Request, float]] = []
 
-        # protects self.unsent, self.state, and self.engineID
+        # protects self.unsent, self.state, self.engineID, and self.generator
         self.lock = threading.Lock()
         self.unsent: Deque[ComparableWeakRef[Request, float]] = deque()
 
@@ -718,7 +718,9 @@ class SNMPv3UsmManager(Generic[T]):
         if wait is None:
             wait = self.autowait
 
-        pdu.requestID = self.generateRequestID()
+        with self.lock:
+            pdu.requestID = self.generateRequestID()
+
         request = Request(pdu, self, user, securityLevel, **kwargs)
         reference = ComparableWeakRef(request, key=lambda r: r.nextRefresh)
 
-- 
2.43.0


From 858b7b9918716b44a4fe705c0588c0c00bbf6afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:47 +0000
Subject: [PATCH 35/35] fix: a claim refused for another namespace's engine
 neither delays nor loses SNMPv3 requests

---
 snmp/manager/v3.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/snmp/manager/v3.py b/snmp/manager/v3.py
index 2365cfc..685b1d6 100644
--- a/snmp/manager/v3.py
+++ b/snmp/manager/v3.py
@@ -445,6 +445,10 @@ class Request:
             return timeToNextRefresh
 
     def send(self, engineID: Optional[bytes] = None) -> None:
+        # This can fail, in which case self.nextRefresh must not change
+        if engineID is not None:
+            self.engineID = engineID
+
         now = time.monotonic()
         self.nextRefresh = now + self.period
         self.reallySend(engineID)
@@ -649,8 +653,8 @@ class SNMPv3UsmManager(Generic[T]):
                     heapq.heapify(self.active)
 
             if sendAll:
-                self.updateState()
                 self.sendUnsent(engineID)
+                self.updateState()
 
     # The caller must hold self.lock
     def sendUnsent(self, engineID: bytes) -> None:
@@ -660,7 +664,12 @@ class SNMPv3UsmManager(Generic[T]):
 
             if request is not None and not request.finished:
                 with self.activeLock:
-                    request.trySend(engineID)
+                    try:
+                        request.trySend(engineID)
+                    except DiscoveryError:
+                        self.unsent.append(reference)
+                        raise
+
                     heapq.heappush(self.active, reference)
 
     def processResponse(self,
-- 
2.43.0

