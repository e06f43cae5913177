From eb6ab6bb969a356e14cf62adc49bfd175d6bb74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 01/41] fix: DPT_Float_16 encodes negatives rounding to zero
 and the lowest value

---
 knx_stack/datapointtypes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/knx_stack/datapointtypes.py b/knx_stack/datapointtypes.py
index 431c7c1..53dd4ac 100644
--- a/knx_stack/datapointtypes.py
+++ b/knx_stack/datapointtypes.py
@@ -676,7 +676,7 @@ class DPT_Float_16(Union):
         mantissa = abs(int(round(decimal_mantissa, 2)))  # two decimals
 
         exp = 0
-        max_mantissa_value = (1 << 11) - 1
+        max_mantissa_value = (1 << 11) - 1 if sign > 0 else 1 << 11
         max_exp_value = (1 << 4) - 1
 
         while mantissa > max_mantissa_value:
@@ -686,6 +686,8 @@ class DPT_Float_16(Union):
             raise Exception("DPT_Float_16 number not representable")
 
         self.bits.exponent = exp
+        if mantissa == 0:
+            sign = 1  # there is no negative zero
         if sign < 0:
             mantissa = (1 << 11) - mantissa
         self.bits.mantissa = mantissa
-- 
2.43.0


From 244e58df99a50ae650cc88c69fb525f7cf61650f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:22 +0000
Subject: [PATCH 02/41] fix: climate datapoints with a reserved mode can be
 read, printed and described

---
 knx_stack/datapointtypes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/knx_stack/datapointtypes.py b/knx_stack/datapointtypes.py
index 53dd4ac..251eb25 100644
--- a/knx_stack/datapointtypes.py
+++ b/knx_stack/datapointtypes.py
@@ -433,7 +433,13 @@ class DPTSetupClima(Union, DPT):
         manuale_a_tempo = 0x07
         automatico = 0x08
         automatico_invio_temperatura_abilitato = 0x08
+        riservato_9 = 0x09
+        riservato_10 = 0x0A
+        riservato_11 = 0x0B
+        riservato_12 = 0x0C
+        riservato_13 = 0x0D
         automatico_invio_temperatura_disabilitato = 0x0E
+        riservato_15 = 0x0F
 
     class Stagione(IntEnum):
         inverno = 0x00
-- 
2.43.0


From 2f6ac825611ed70c3b155c90e09987bd99e992f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 03/41] fix: DPTInfoClimaReport description carries all its
 fields

---
 knx_stack/datapointtypes.py | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/knx_stack/datapointtypes.py b/knx_stack/datapointtypes.py
index 251eb25..671d3f5 100644
--- a/knx_stack/datapointtypes.py
+++ b/knx_stack/datapointtypes.py
@@ -584,6 +584,38 @@ class DPTInfoClimaReport(Union, DPT):
     def setpoint(self, value):
         self.bits.setpoint = value
 
+    @property
+    def temporizzazione(self):
+        return self.bits.temporizzazione
+
+    @temporizzazione.setter
+    def temporizzazione(self, value):
+        self.bits.temporizzazione = value
+
+    @property
+    def centralizzato(self):
+        return self.bits.centralizzato
+
+    @centralizzato.setter
+    def centralizzato(self, value):
+        self.bits.centralizzato = value
+
+    @property
+    def terziario(self):
+        return self.bits.terziario
+
+    @terziario.setter
+    def terziario(self, value):
+        self.bits.terziario = value
+
+    @property
+    def stato_rele(self):
+        return self.bits.stato_rele
+
+    @stato_rele.setter
+    def stato_rele(self, value):
+        self.bits.stato_rele = value
+
     @property
     def temperatura(self):
         return ((self.bits.temperatura_msb << 8) + self.bits.temperatura_lsb) / 10
-- 
2.43.0


From 002611b1f2c77c763e14fc11e82f7601d3412fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 04/41] fix: DPT_Control_Dimming is a four bit datapoint on the
 wire

---
 knx_stack/datapointtypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/knx_stack/datapointtypes.py b/knx_stack/datapointtypes.py
index 671d3f5..33a5884 100644
--- a/knx_stack/datapointtypes.py
+++ b/knx_stack/datapointtypes.py
@@ -356,6 +356,8 @@ class DPT_Control_Dimming(Union, DPT):
     7
     """
 
+    length = DPT.Length.LESS_THAN_A_BYTE
+
     class Direction(IntEnum):
         down = (0x00,)
         up = (0x01,)
-- 
2.43.0


From 4b275deb9a6cb03f69be3d638ffffa935b5e8cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 05/41] fix: AddressTable.add does not insert an address twice

---
 knx_stack/definition/layer/network/address_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knx_stack/definition/layer/network/address_table.py b/knx_stack/definition/layer/network/address_table.py
index c6454e4..34d196b 100644
--- a/knx_stack/definition/layer/network/address_table.py
+++ b/knx_stack/definition/layer/network/address_table.py
@@ -132,7 +132,7 @@ class AddressTable(object):
         :param address: a new *group address* to be inserted
         :return: a new AddressTable instance
         """
-        if address not in self._group_addresses or address != self._individual_address:
+        if address not in self._group_addresses:
             if len(self._group_addresses) >= self.max_size:
                 raise AddressTableException(
                     "Max entries %d, already written inside address table"
-- 
2.43.0


From fa07039ed6c8d7200ebba97fc9ed3c6674dcf024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 06/41] fix: get_free_asap_value never returns a used value

---
 knx_stack/definition/layer/transport/association_table.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/knx_stack/definition/layer/transport/association_table.py b/knx_stack/definition/layer/transport/association_table.py
index f032882..bbd433e 100644
--- a/knx_stack/definition/layer/transport/association_table.py
+++ b/knx_stack/definition/layer/transport/association_table.py
@@ -158,9 +158,9 @@ class AssociationTable(object):
         return self._asap_addresses.keys()
 
     def get_free_asap_value(self):
-        asaps = self._asap_addresses.keys()
-        for e, asap in enumerate(asaps):
-            if e != asap.value:
+        asaps = sorted(asap.value for asap in self._asap_addresses)
+        for e, value in enumerate(asaps):
+            if e != value:
                 return e
         return len(asaps)
 
-- 
2.43.0


From 6cf65d205b5c3ca23182c6d5119148e2c479d7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 07/41] fix: ASAPs of an address follow the address table and
 may be none

---
 .../layer/transport/association_table.py      | 25 ++++++-------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/knx_stack/definition/layer/transport/association_table.py b/knx_stack/definition/layer/transport/association_table.py
index bbd433e..f44542e 100644
--- a/knx_stack/definition/layer/transport/association_table.py
+++ b/knx_stack/definition/layer/transport/association_table.py
@@ -121,7 +121,6 @@ class AssociationTable(object):
     ):
         self._address_table = address_table
         self._asap_addresses = dict()
-        self._tsap_asaps = dict()
         self.associate(
             ASAP(0, "individual address"), [self._address_table.individual_address]
         )
@@ -145,13 +144,18 @@ class AssociationTable(object):
         return tsaps
 
     def get_asaps(self, tsap: int) -> Iterable["knx_stack.ASAP"]:
-        return self._tsap_asaps[tsap]
+        if tsap not in self._address_table.tsaps:
+            return []
+        return self.get_asaps_from_address(self._address_table.get_address(tsap))
 
     def get_asaps_from_address(
         self, address: "knx_stack.GroupAddress"
     ) -> Iterable["knx_stack.ASAP"]:
-        tsap = self._address_table.get_tsap(address)
-        return self._tsap_asaps[tsap]
+        return [
+            asap
+            for asap, addresses in self._asap_addresses.items()
+            if address in addresses
+        ]
 
     @property
     def asaps(self):
@@ -170,15 +174,6 @@ class AssociationTable(object):
             addresses.append(self._address_table.get_address(tsap))
         return addresses
 
-    def _rebuild_tsap_asaps(self):
-        self._tsap_asaps = dict()
-        for asap_, addresses in self._asap_addresses.items():
-            for address_ in addresses:
-                tsap = self._address_table.get_tsap(address_)
-                if tsap not in self._tsap_asaps:
-                    self._tsap_asaps[tsap] = list()
-                self._tsap_asaps[tsap].append(asap_)
-
     def associate(
         self, asap: "knx_stack.ASAP", addresses: Iterable["knx_stack.GroupAddress"]
     ) -> None:
@@ -194,8 +189,6 @@ class AssociationTable(object):
         for address in addresses:
             self._asap_addresses[asap].append(address)
 
-        self._rebuild_tsap_asaps()
-
     def disassociate(
         self, asap: "knx_stack.ASAP", addresses: Iterable["knx_stack.GroupAddress"]
     ) -> None:
@@ -204,8 +197,6 @@ class AssociationTable(object):
                 self._address_table.remove(address)
             self._asap_addresses[asap].remove(address)
 
-        self._rebuild_tsap_asaps()
-
     def __repr__(self, *args, **kwargs):
         s = "AssociationTable: asap -> addresses\n"
         for asap, addresses in self._asap_addresses.items():
-- 
2.43.0


From e1a2f1872fe04435937c47f6d396df0b7fead1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 08/41] fix: disassociating an ASAP keeps the addresses other
 ASAPs still use

---
 .../definition/layer/transport/association_table.py   | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/knx_stack/definition/layer/transport/association_table.py b/knx_stack/definition/layer/transport/association_table.py
index f44542e..1b44b4d 100644
--- a/knx_stack/definition/layer/transport/association_table.py
+++ b/knx_stack/definition/layer/transport/association_table.py
@@ -187,15 +187,20 @@ class AssociationTable(object):
         if asap not in self._asap_addresses:
             self._asap_addresses[asap] = list()
         for address in addresses:
-            self._asap_addresses[asap].append(address)
+            if address not in self._asap_addresses[asap]:
+                self._asap_addresses[asap].append(address)
 
     def disassociate(
         self, asap: "knx_stack.ASAP", addresses: Iterable["knx_stack.GroupAddress"]
     ) -> None:
         for address in addresses:
-            if address != self.individual_address:
-                self._address_table.remove(address)
             self._asap_addresses[asap].remove(address)
+            if address in self._address_table.addresses and not any(
+                other == address and other is not self.individual_address
+                for others in self._asap_addresses.values()
+                for other in others
+            ):
+                self._address_table.remove(address)
 
     def __repr__(self, *args, **kwargs):
         s = "AssociationTable: asap -> addresses\n"
-- 
2.43.0


From 13eae2765c667f96d828b0c149018ad6cb9d2fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 09/41] fix: a failed association leaves the tables unchanged

---
 .../layer/transport/association_table.py      | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/knx_stack/definition/layer/transport/association_table.py b/knx_stack/definition/layer/transport/association_table.py
index 1b44b4d..fc9040a 100644
--- a/knx_stack/definition/layer/transport/association_table.py
+++ b/knx_stack/definition/layer/transport/association_table.py
@@ -1,5 +1,6 @@
 from typing import Iterable
 from collections import namedtuple
+from knx_stack.definition.layer.network.address_table import AddressTableException
 
 Association = namedtuple("Association", ["asap", "address"])
 
@@ -177,12 +178,20 @@ class AssociationTable(object):
     def associate(
         self, asap: "knx_stack.ASAP", addresses: Iterable["knx_stack.GroupAddress"]
     ) -> None:
-        for address in addresses:
-            if (
-                address not in self._address_table.addresses
-                and address is not self.individual_address
-            ):
-                self._address_table.add(address)
+        addresses = list(addresses)
+        added = list()
+        try:
+            for address in addresses:
+                if (
+                    address not in self._address_table.addresses
+                    and address is not self.individual_address
+                ):
+                    self._address_table.add(address)
+                    added.append(address)
+        except AddressTableException:
+            for address in added:
+                self._address_table.remove(address)
+            raise
 
         if asap not in self._asap_addresses:
             self._asap_addresses[asap] = list()
-- 
2.43.0


From ecc95a84ed0f83e54be1ad790e009b17d416ed89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 10/41] fix: group telegrams of other transport services decode
 to an empty list

---
 knx_stack/decode/layer/network/n_data_group/con.py | 4 +++-
 knx_stack/decode/layer/network/n_data_group/ind.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/knx_stack/decode/layer/network/n_data_group/con.py b/knx_stack/decode/layer/network/n_data_group/con.py
index db7cd2c..d5a0b69 100644
--- a/knx_stack/decode/layer/network/n_data_group/con.py
+++ b/knx_stack/decode/layer/network/n_data_group/con.py
@@ -4,5 +4,7 @@ from knx_stack.decode.layer.transport.t_data_group import con
 
 
 def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[NamedTuple]:
+    result = []
     if state.ldata.nsdu == NSDU.T_Data_Group_PDU:
-        return con.decode(state, msg)
+        result = con.decode(state, msg)
+    return result
diff --git a/knx_stack/decode/layer/network/n_data_group/ind.py b/knx_stack/decode/layer/network/n_data_group/ind.py
index 95467a0..089dba8 100644
--- a/knx_stack/decode/layer/network/n_data_group/ind.py
+++ b/knx_stack/decode/layer/network/n_data_group/ind.py
@@ -4,5 +4,7 @@ from knx_stack.decode.layer.transport.t_data_group import ind
 
 
 def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[NamedTuple]:
+    result = []
     if state.ldata.nsdu == NSDU.T_Data_Group_PDU:
-        return ind.decode(state, msg)
+        result = ind.decode(state, msg)
+    return result
-- 
2.43.0


From 6bcab1b2f8de5505acc8338a631fe43d3f697935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 11/41] fix: transport control frames are parsed and classified

---
 knx_stack/definition/layer/link/ldata.py | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/knx_stack/definition/layer/link/ldata.py b/knx_stack/definition/layer/link/ldata.py
index f236f25..e602f5f 100644
--- a/knx_stack/definition/layer/link/ldata.py
+++ b/knx_stack/definition/layer/link/ldata.py
@@ -257,12 +257,6 @@ class L_Data(LittleEndianStructure):
             and self._tpci.bits.numbered == 1
         ):
             pdu = NSDU.T_Data_Connected_PDU
-        elif (
-            self._cntrl2.bits.address_type == AddressType.individual
-            and self._tpci.bits.control_flag == 1
-            and self._tpci.bits.numbered == 0
-        ):
-            pdu = NSDU.T_Data_Connected_PDU
         elif (
             self._cntrl2.bits.address_type == AddressType.individual
             and self._tpci.bits.control_flag == 1
@@ -319,10 +313,6 @@ class L_Data(LittleEndianStructure):
             self._tpci.bits.control_flag = 0
             self._tpci.bits.numbered = 1
 
-        elif pdu == NSDU.T_Data_Connected_PDU:
-            self._tpci.bits.control_flag = 1
-            self._tpci.bits.numbered = 0
-
         elif pdu == NSDU.T_Connect_PDU:
             self._tpci.bits.control_flag = 1
             self._tpci.bits.numbered = 0
@@ -358,13 +348,12 @@ class L_Data(LittleEndianStructure):
         l_data._npdu_length = npdu_length.value
         (tpci, body) = body.octect()
         l_data._tpci = TPCI(value=tpci.value)
-        (apci, body) = body.octect()
-        l_data._apci = APCI(value=apci.value)
-
         if body:
-            new_msg = Msg(body)
-        else:
-            new_msg = Msg([apci])
+            (apci, body) = body.octect()
+            l_data._apci = APCI(value=apci.value)
+            new_msg = Msg(body) if body else Msg([apci])
+        else:  # transport control frames have no apci
+            new_msg = Msg([])
 
         return l_data, new_msg
 
-- 
2.43.0


From f48bc7f6c8d6c67138f79ce3374c05423cd5e4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 12/41] fix: a repeated tunneling request is recognized across
 the counter wrap

---
 knx_stack/decode/knxnet_ip/tunneling/req.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knx_stack/decode/knxnet_ip/tunneling/req.py b/knx_stack/decode/knxnet_ip/tunneling/req.py
index 14c48ee..93c8ea9 100644
--- a/knx_stack/decode/knxnet_ip/tunneling/req.py
+++ b/knx_stack/decode/knxnet_ip/tunneling/req.py
@@ -34,7 +34,7 @@ def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[Msg]:
         if result_tmp:
             result.extend(result_tmp)
     else:
-        if state.sequence_counter_remote == (sequence_counter + 1):
+        if state.sequence_counter_remote == (sequence_counter + 1) % 256:
             result.append(
                 Msg(sequence_counter=sequence_counter, status=ErrorCodes.E_NO_ERROR)
             )
-- 
2.43.0


From 608e096c2616e8c3a26e6defab1837a747f9d681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 13/41] fix: the ack of a repeated tunneling request carries
 its sequence counter

---
 knx_stack/encode/knxnet_ip/tunneling/ack.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/knx_stack/encode/knxnet_ip/tunneling/ack.py b/knx_stack/encode/knxnet_ip/tunneling/ack.py
index c509af6..2f90341 100644
--- a/knx_stack/encode/knxnet_ip/tunneling/ack.py
+++ b/knx_stack/encode/knxnet_ip/tunneling/ack.py
@@ -17,16 +17,19 @@ def encode(
     >>> bus_msg
     06100421000A04000000
     """
+    sequence_counter = state.sequence_counter_remote
+    if (msg.sequence_counter + 1) % 256 == sequence_counter:
+        sequence_counter = msg.sequence_counter  # a repeated request
     new_msg = NetMsg(Short(value=Services.TUNNELING_ACK.value).octects)
     new_msg += NetMsg(
         Short(value=connection_header.CONNECTION_HEADER_LEN + HEADER_SIZE_10).octects
     )
     new_msg += connection_header.create(
-        state, status=msg.status, sequence_counter=state.sequence_counter_remote
+        state, status=msg.status, sequence_counter=sequence_counter
     )
     logging.getLogger(__name__).info(
         "knxnet_ip.tunneling.encode.ack with sequence counter={}".format(
-            state.sequence_counter_remote
+            sequence_counter
         )
     )
     if msg.sequence_counter == state.sequence_counter_remote:
-- 
2.43.0


From 6b13bb817463e50b2fd34dde34a26d7328a5f8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:02 +0000
Subject: [PATCH 14/41] fix: decode_msg returns a list for a tunneling ack

---
 knx_stack/decode/knxnet_ip/header.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knx_stack/decode/knxnet_ip/header.py b/knx_stack/decode/knxnet_ip/header.py
index 1bba136..414db6d 100644
--- a/knx_stack/decode/knxnet_ip/header.py
+++ b/knx_stack/decode/knxnet_ip/header.py
@@ -37,7 +37,7 @@ def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[NamedTupl
         elif service.value == Services.TUNNELING_REQUEST:
             result = tunneling.req.decode(state, body)
         elif service.value == Services.TUNNELING_ACK:
-            result = tunneling.ack.decode(state, body)
+            (result, state) = tunneling.ack.decode(state, body)
         else:
             logging.getLogger(__name__).error(
                 "Unknown knxnet_ip service value %d" % service.value
-- 
2.43.0


From 2b9528b3618d16eb1b7a03f601435f349c5114b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 15/41] fix: a tunneling ack with an undefined status does not
 advance the counter

---
 knx_stack/decode/knxnet_ip/tunneling/ack.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/knx_stack/decode/knxnet_ip/tunneling/ack.py b/knx_stack/decode/knxnet_ip/tunneling/ack.py
index 30cf370..8656f60 100644
--- a/knx_stack/decode/knxnet_ip/tunneling/ack.py
+++ b/knx_stack/decode/knxnet_ip/tunneling/ack.py
@@ -17,11 +17,12 @@ def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[Msg]:
     """
     (size, body) = msg.short()
     (communication_channel_id, sequence_counter, status, body) = body.header()
+    status = ErrorCodes(status)
     if state.sequence_counter_local == sequence_counter:
         state.sequence_counter_local += 1
     logging.getLogger(__name__).info(
         "knxnet_ip.tunneling.decode.req sequence counter={}".format(sequence_counter)
     )
     return [
-        Msg(sequence_counter=state.sequence_counter_local, status=ErrorCodes(status))
+        Msg(sequence_counter=state.sequence_counter_local, status=status)
     ], state
-- 
2.43.0


From 5ec516ad632f8cc0c4c75863b102d440db2e4d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 16/41] fix: property confirmations are not lost to a group
 address with the same number

---
 knx_stack/decode/layer/transport/t_data_individual/con.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/knx_stack/decode/layer/transport/t_data_individual/con.py b/knx_stack/decode/layer/transport/t_data_individual/con.py
index 0cdb11c..da540d3 100644
--- a/knx_stack/decode/layer/transport/t_data_individual/con.py
+++ b/knx_stack/decode/layer/transport/t_data_individual/con.py
@@ -5,9 +5,8 @@ from knx_stack.decode.layer import application
 
 def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[NamedTuple]:
     logger = logging.getLogger(__name__)
-    tsap = state.get_tsap()
     result = []
-    if tsap == 0:
+    if state.ldata.destination == state.association_table.individual_address.free_style:
         if state.ldata.apci == 0x3D5:
             result = application.a_property_value_read.con.decode(state, msg)
         elif state.ldata.apci == 0x3D6:
-- 
2.43.0


From 2feb260ab483022b12810b818196a64377d66ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 17/41] fix: indications are encoded for the medium of the
 state

---
 knx_stack/encode/cemi/ldata/ind.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/knx_stack/encode/cemi/ldata/ind.py b/knx_stack/encode/cemi/ldata/ind.py
index 719c12f..d2fa917 100644
--- a/knx_stack/encode/cemi/ldata/ind.py
+++ b/knx_stack/encode/cemi/ldata/ind.py
@@ -1,5 +1,6 @@
-from knx_stack import Octect, Msg
+from knx_stack import Medium, Octect, Msg
 from knx_stack.definition.cemi import MessageCode
+from knx_stack.encode.knxnet_ip import tunneling
 from knx_stack.encode.usb_hid import emi_id
 
 
@@ -7,5 +8,10 @@ def encode(state: "knx_stack.State", msg: "knx_stack.Msg") -> "knx_stack.Msg":
     message_code = Octect(value=MessageCode.L_Data_ind)
     additional_info_length = Octect(value=0)
     new_msg = Msg([message_code, additional_info_length] + msg)
-    final_msg = emi_id.encode(state, new_msg)
+    if state.medium == Medium.usb_hid:
+        final_msg = emi_id.encode(state, new_msg)
+    elif state.medium == Medium.knxnet_ip:
+        final_msg = tunneling.req.encode(state, new_msg)
+    else:
+        final_msg = new_msg
     return final_msg
-- 
2.43.0


From b9a1b773c0a86264f5823cf378e808763f837f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 18/41] fix: no frame without destination for an ASAP without
 addresses

---
 .../encode/layer/network/n_data_group/encode.py    | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/knx_stack/encode/layer/network/n_data_group/encode.py b/knx_stack/encode/layer/network/n_data_group/encode.py
index b16d3e5..c7bfa65 100644
--- a/knx_stack/encode/layer/network/n_data_group/encode.py
+++ b/knx_stack/encode/layer/network/n_data_group/encode.py
@@ -2,10 +2,10 @@ from knx_stack import Short, Octect, Msg
 
 
 def nl_encode(state: "knx_stack.State", msg: "knx_stack.Msg") -> "knx_stack.Msg":
-    new_msg = msg
-    for address in state.get_addresses():
-        npdu_length = Octect(value=(len(msg) - 1))
-        destination = Short(value=address.free_style)
-        new_msg = Msg([destination.MSB, destination.LSB, npdu_length] + msg)
-        break  # just the first address is the encodeing address...
-    return new_msg
+    addresses = state.get_addresses()
+    if not addresses:
+        raise LookupError("No group address associated to asap {}".format(state.asap))
+    address = addresses[0]  # just the first address is the encodeing address...
+    npdu_length = Octect(value=(len(msg) - 1))
+    destination = Short(value=address.free_style)
+    return Msg([destination.MSB, destination.LSB, npdu_length] + msg)
-- 
2.43.0


From 0eeb95686adae282c67c9ba3ae99db462c54090c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 19/41] fix: a connect response refusing the tunneling layer
 can be decoded

---
 knx_stack/definition/knxnet_ip/core/connect/res.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/knx_stack/definition/knxnet_ip/core/connect/res.py b/knx_stack/definition/knxnet_ip/core/connect/res.py
index 908371b..dd39625 100644
--- a/knx_stack/definition/knxnet_ip/core/connect/res.py
+++ b/knx_stack/definition/knxnet_ip/core/connect/res.py
@@ -7,6 +7,7 @@ class Status(IntEnum):
     E_CONNECTION_TYPE = 0x22  # connection type not supported
     E_CONNECTION_OPTION = 0x23  # connection option not supported
     E_NO_MORE_CONNECTIONS = 0x24
+    E_TUNNELING_LAYER = 0x29  # requested tunneling layer not supported
 
 
 class Msg(NamedTuple):
-- 
2.43.0


From 2640a77c4472f69743eda870223f0774fd8407f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 20/41] fix: a refused connect response without endpoint can be
 decoded

---
 knx_stack/decode/knxnet_ip/core/connect/res.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/knx_stack/decode/knxnet_ip/core/connect/res.py b/knx_stack/decode/knxnet_ip/core/connect/res.py
index 4b423ed..4e102e9 100644
--- a/knx_stack/decode/knxnet_ip/core/connect/res.py
+++ b/knx_stack/decode/knxnet_ip/core/connect/res.py
@@ -17,7 +17,9 @@ def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[Msg]:
     (size, body) = msg.short()
     (communication_channel_id, body) = body.octect()
     (status, body) = body.octect()
-    (ip, port, body) = body.HPAI()
+    ip, port = None, None
+    if status.value == Status.E_NO_ERROR or body:
+        (ip, port, body) = body.HPAI()
     if status.value == Status.E_NO_ERROR:
         (tunnel_connection, individual_address, body) = body.CRD()
         state.communication_channel_id = communication_channel_id.value
-- 
2.43.0


From d1062645b22935ddac02338dcc8395a94b3ff0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 21/41] fix: the tunneling client connects, with both counters
 reset, only when accepted

---
 knx_stack/client/knxnet_ip.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/knx_stack/client/knxnet_ip.py b/knx_stack/client/knxnet_ip.py
index 439434b..d7506ed 100644
--- a/knx_stack/client/knxnet_ip.py
+++ b/knx_stack/client/knxnet_ip.py
@@ -115,8 +115,12 @@ class Tunneling(asyncio.DatagramProtocol):
             self._state, knx_stack.knxnet_ip.Msg.make_from_str(data.hex())
         )
         for res in responses:
-            if isinstance(res, knx_stack.knxnet_ip.core.connect.res.Msg):
+            if (
+                isinstance(res, knx_stack.knxnet_ip.core.connect.res.Msg)
+                and res.status == knx_stack.knxnet_ip.ErrorCodes.E_NO_ERROR
+            ):
                 self._state.sequence_counter_remote = 0
+                self._state.sequence_counter_local = 0
                 connectionstate_msg = knx_stack.knxnet_ip.core.connectionstate.req.Msg(
                     addr_control_endpoint=self._local_addr,
                     port_control_endpoint=self._local_port,
-- 
2.43.0


From abfe12d86a4c4c8ec1f32f33355ba9b1e8c6e4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 22/41] fix: client coroutines run on the running loop

---
 knx_stack/client/knxnet_ip.py           | 1 +
 knx_stack/client/knxnet_ip_discovery.py | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/knx_stack/client/knxnet_ip.py b/knx_stack/client/knxnet_ip.py
index d7506ed..17e1500 100644
--- a/knx_stack/client/knxnet_ip.py
+++ b/knx_stack/client/knxnet_ip.py
@@ -157,6 +157,7 @@ async def start_tunneling(
     state: knx_stack.knxnet_ip.State,
     msgs: Iterable[NamedTuple],
 ):
+    loop = asyncio.get_running_loop()
     transport, protocol = await loop.create_datagram_endpoint(
         lambda: Tunneling(
             local_addr, local_port, remote_addr, remote_port, state, msgs
diff --git a/knx_stack/client/knxnet_ip_discovery.py b/knx_stack/client/knxnet_ip_discovery.py
index 6def8fb..022591b 100644
--- a/knx_stack/client/knxnet_ip_discovery.py
+++ b/knx_stack/client/knxnet_ip_discovery.py
@@ -144,6 +144,7 @@ async def send_discovery_request(local_addr: str, local_port: int):
     sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEPORT, 1)
     sock.setblocking(False)
 
+    loop = asyncio.get_running_loop()
     transport, protocol = await loop.create_datagram_endpoint(
         lambda: Request(local_addr, local_port),
         sock=sock,
@@ -152,6 +153,7 @@ async def send_discovery_request(local_addr: str, local_port: int):
 
 
 async def listen_discovery_responses(local_addr: str, local_port: int):
+    loop = asyncio.get_running_loop()
     transport, protocol = await loop.create_datagram_endpoint(
         lambda: Listen(),
         local_addr=(local_addr, local_port),
-- 
2.43.0


From f603986a2793c7d44f5ed936fc0f7d4dad2bf97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 23/41] fix: the discovery script uses the address it is given

---
 knx_stack/client/knxnet_ip_discovery.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/knx_stack/client/knxnet_ip_discovery.py b/knx_stack/client/knxnet_ip_discovery.py
index 022591b..167fce1 100644
--- a/knx_stack/client/knxnet_ip_discovery.py
+++ b/knx_stack/client/knxnet_ip_discovery.py
@@ -171,12 +171,12 @@ if __name__ == "__main__":
 
     loop = asyncio.get_event_loop()
 
-    if len(sys.argv):
+    if len(sys.argv) > 1:
         transport1, _ = loop.run_until_complete(
-            loop.create_task(listen_discovery_responses(sys.argv[0], 5544))
+            loop.create_task(listen_discovery_responses(sys.argv[1], 5544))
         )
         transport2, _ = loop.run_until_complete(
-            loop.create_task(send_discovery_request(sys.argv[0], 5544))
+            loop.create_task(send_discovery_request(sys.argv[1], 5544))
         )
 
     try:
-- 
2.43.0


From 449342c32042f3622ed478aa109fdd645d2a0f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 24/41] fix: the daemon sends nothing to the bus for an invalid
 client line

---
 daemon/usbhid.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/daemon/usbhid.c b/daemon/usbhid.c
index 303f34a..d37db12 100644
--- a/daemon/usbhid.c
+++ b/daemon/usbhid.c
@@ -1,3 +1,4 @@
+#include <ctype.h>
 #include <fcntl.h>
 #include <stdio.h>
 #include <errno.h>
@@ -145,8 +146,11 @@ int read_from_client(int filedes, unsigned char *packet) {
 		if ((nbytes % 2) != 0) {
 			return 0;
 		}
+		memset(packet, 0, KNXHIDPACKETLEN);
 		for (i = 0; i < nbytes / 2; i++) {
-			if (sscanf(&buffer[i * 2], "%2hhx", &packet[i]) != 1) {
+			if (!isxdigit((unsigned char) buffer[i * 2])
+					|| !isxdigit((unsigned char) buffer[i * 2 + 1])
+					|| sscanf(&buffer[i * 2], "%2hhx", &packet[i]) != 1) {
 				return 0;
 			}
 		}
@@ -263,9 +267,10 @@ int main(int argc, char *argv[]) {
 						}
 					}
 				} else {
-					if (read_from_client(i, packet) >= 0) {
+					int l = read_from_client(i, packet);
+					if (l > 0) {
 						write_to_knx_cemi(fd_cemi, packet);
-					} else {
+					} else if (l < 0) {
 						FD_CLR(i, &active_fd_set);
 						for (j = 0; j < MAX_CLIENTS; j++) {
 							if (client_fds[j] == i) {
-- 
2.43.0


From 300c9fb6f314e32da3c644a28ede82bd7f3153df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 25/41] fix: the daemon splits the client stream into lines

---
 daemon/usbhid.c | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/daemon/usbhid.c b/daemon/usbhid.c
index d37db12..4845a96 100644
--- a/daemon/usbhid.c
+++ b/daemon/usbhid.c
@@ -129,20 +129,28 @@ void init_sockaddr (struct sockaddr_in *name,
 }
 
 int read_from_client(int filedes, unsigned char *packet) {
+	/* the line being received from each client, one longer than a packet */
+	static char lines[FD_SETSIZE][KNXHIDPACKETLEN * 2 + 1];
+	static int lengths[FD_SETSIZE];
+	char *buffer = lines[filedes];
+	char c;
 	int nbytes, i;
-	char buffer[KNXHIDPACKETLEN * 2 + 1];
 
-	nbytes = read(filedes, buffer, KNXHIDPACKETLEN * 2 + 1);
+	nbytes = read(filedes, &c, 1);
 	if (nbytes < 0) {
 		perror("read");
+		lengths[filedes] = 0;
 		return -1;
-	} else if (nbytes == 0)
+	} else if (nbytes == 0) {
+		lengths[filedes] = 0;
 		return -1;
-	else {
-		if (buffer[nbytes - 1] == '\n' || buffer[nbytes - 1] == '\r')
-			nbytes--;
-		if (buffer[nbytes - 1] == '\n' || buffer[nbytes - 1] == '\r')
-			nbytes--;
+	} else if (c != '\n' && c != '\r') {
+		if (lengths[filedes] <= KNXHIDPACKETLEN * 2)
+			buffer[lengths[filedes]++] = c;
+		return 0;
+	} else {
+		nbytes = lengths[filedes];
+		lengths[filedes] = 0;
 		if ((nbytes % 2) != 0) {
 			return 0;
 		}
@@ -154,7 +162,7 @@ int read_from_client(int filedes, unsigned char *packet) {
 				return 0;
 			}
 		}
-		fprintf(stderr, "Server: got message %s len %d\n", buffer, nbytes);
+		fprintf(stderr, "Server: got message %.*s len %d\n", nbytes, buffer, nbytes);
 		return i;
 	}
 }
-- 
2.43.0


From c3270c721e5b827c85c999c44a1b74b55c21043f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 26/41] fix: the daemon survives writing to a client which has
 gone

---
 daemon/usbhid.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/daemon/usbhid.c b/daemon/usbhid.c
index 4845a96..29e3427 100644
--- a/daemon/usbhid.c
+++ b/daemon/usbhid.c
@@ -3,6 +3,7 @@
 #include <stdio.h>
 #include <errno.h>
 #include <getopt.h>
+#include <signal.h>
 #include <stdlib.h>
 #include <unistd.h>
 #include <string.h>
@@ -221,6 +222,7 @@ int main(int argc, char *argv[]) {
 		}
 	}
 
+	signal(SIGPIPE, SIG_IGN);
 	sock = make_socket((uint16_t) DEFAULT_PORT);
 	if (listen(sock, 1) < 0) {
 		perror("listen");
-- 
2.43.0


From 1a22c90c0ee0fc104b36201d72cf33c247a12df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 27/41] fix: the daemon honours its port and short options

---
 daemon/usbhid.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/daemon/usbhid.c b/daemon/usbhid.c
index 29e3427..7d821ad 100644
--- a/daemon/usbhid.c
+++ b/daemon/usbhid.c
@@ -182,12 +182,12 @@ int write_to_client(int filedes, unsigned char *packet, int len) {
 int main(int argc, char *argv[]) {
 	fd_set active_fd_set, read_fd_set;
 	struct sockaddr_in clientname;
-	static char *shortopts = "hdpi";
+	static char *shortopts = "hd:p:s:";
 	static struct option longopts[] = { { "help", 0, NULL, 'h' }, { "host", 1,
 			NULL, 's' }, { "port", 1, NULL, 'p' },
 			{ "dev-hidraw", 1, NULL, 'd' }, { 0, 0, 0, 0 }, };
 	char *dev_hidraw = "/dev/hidraw1";
-	char *port = "8765";
+	int port = DEFAULT_PORT;
 	char *host = "172.20.35.81";
 	char *packet;
 	size_t size;
@@ -212,7 +212,7 @@ int main(int argc, char *argv[]) {
 			break;
 		}
 		case 'p': {
-			port = optarg;
+			port = atoi(optarg);
 			break;
 		}
 		case 's': {
@@ -223,7 +223,7 @@ int main(int argc, char *argv[]) {
 	}
 
 	signal(SIGPIPE, SIG_IGN);
-	sock = make_socket((uint16_t) DEFAULT_PORT);
+	sock = make_socket((uint16_t) port);
 	if (listen(sock, 1) < 0) {
 		perror("listen");
 		exit(EXIT_FAILURE);
-- 
2.43.0


From 7ceac4d7253ba333e1dcae518336c34b132356b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:44 +0000
Subject: [PATCH 28/41] fix: cEMI messages without additional information (a
 reset is a lone octet) decode to nothing

---
 knx_stack/decode/cemi/msg_code.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/knx_stack/decode/cemi/msg_code.py b/knx_stack/decode/cemi/msg_code.py
index 1c9afe9..570f04c 100644
--- a/knx_stack/decode/cemi/msg_code.py
+++ b/knx_stack/decode/cemi/msg_code.py
@@ -7,6 +7,9 @@ from knx_stack.decode.cemi.ldata import con, ind
 def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[NamedTuple]:
     result = []
     (message_code, body) = msg.octect()
+    if message_code.value not in (MessageCode.L_Data_ind, MessageCode.L_Data_con):
+        return result  # only link layer messages are known to have additional info
+
     (additional_info_length, body) = body.octect()
     body = Msg(body[additional_info_length.value :])
 
-- 
2.43.0


From 73c690060717bc8ccd88edc3b8c45193cca8cdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:46 +0000
Subject: [PATCH 29/41] fix: the daemon refuses clients it has no room for

---
 daemon/usbhid.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/daemon/usbhid.c b/daemon/usbhid.c
index 7d821ad..60e6898 100644
--- a/daemon/usbhid.c
+++ b/daemon/usbhid.c
@@ -262,13 +262,17 @@ int main(int argc, char *argv[]) {
 					fprintf(stderr, "Server: connect from host %d, port %hd.\n",
 							inet_ntoa(clientname.sin_addr),
 							ntohs(clientname.sin_port));
-					FD_SET(new_client, &active_fd_set);
 					for (j = 0; j < MAX_CLIENTS; j++) {
 						if (client_fds[j] == -1) {
 							client_fds[j] = new_client;
+							FD_SET(new_client, &active_fd_set);
 							break;
 						}
 					}
+					if (j == MAX_CLIENTS) {
+						fprintf(stderr, "Server: too many clients.\n");
+						close(new_client);
+					}
 				} else if (i == fd_cemi) {
 					int l = read_from_knx_cemi(fd_cemi, packet);
 					for (j = 0; j < MAX_CLIENTS; j++) {
-- 
2.43.0


From 540d3eb4069414986529a8019f5d7e05271dbc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:59 +0000
Subject: [PATCH 30/41] fix: the USB client goes on after a line it cannot
 decode

---
 knx_stack/client/usbhid.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/knx_stack/client/usbhid.py b/knx_stack/client/usbhid.py
index 5d7e748..e8c4fb4 100644
--- a/knx_stack/client/usbhid.py
+++ b/knx_stack/client/usbhid.py
@@ -84,11 +84,15 @@ class Client(object):
         self.loop.stop()
 
     async def _knx_read(self):
-        while True:
+        while not self.rsock.at_eof():
             msg = await self._read()
-            octects_msg = knx_stack.Msg.make_from_str(msg)
-            data = knx_stack.decode_msg(self._state, octects_msg)
-            self.logger.error("read {}".format(data))
+            try:
+                octects_msg = knx_stack.Msg.make_from_str(msg)
+                data = knx_stack.decode_msg(self._state, octects_msg)
+            except Exception as e:
+                self.logger.error("not decodable: {}".format(repr(e)))
+            else:
+                self.logger.error("read {}".format(data))
 
     def _write(self, msg):
         self.wsock.write(msg.encode())
-- 
2.43.0


From 7e848e86fa7a7f16902a5f73e63038f556efd3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 31/41] fix: a group object table keeps its own entries, not
 the caller's dictionary

---
 knx_stack/definition/layer/application/groupobject_table.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/knx_stack/definition/layer/application/groupobject_table.py b/knx_stack/definition/layer/application/groupobject_table.py
index 831e651..6a4cefc 100644
--- a/knx_stack/definition/layer/application/groupobject_table.py
+++ b/knx_stack/definition/layer/application/groupobject_table.py
@@ -21,10 +21,7 @@ class GroupObjectTable:
     """
 
     def __init__(self, associations: Dict = None):
-        if associations:
-            self._associations = associations
-        else:
-            self._associations = {}
+        self._associations = dict(associations or {})
 
     @property
     def associations(self):
-- 
2.43.0


From 6dd2d07d6e01ac120059de2f2e30eb61271ae5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:30 +0000
Subject: [PATCH 32/41] fix: building a datapoint from a dictionary refuses
 fields its type does not have

---
 knx_stack/datapointtypes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/knx_stack/datapointtypes.py b/knx_stack/datapointtypes.py
index 33a5884..5cfa271 100644
--- a/knx_stack/datapointtypes.py
+++ b/knx_stack/datapointtypes.py
@@ -34,8 +34,12 @@ class DPT_Factory(object):
         for key, value in fields_values.items():
             if key == "decoded_value":
                 dpt.encode(value)
-            else:
+            elif hasattr(type(dpt), key):
                 setattr(dpt, key, value)
+            else:
+                raise AttributeError(
+                    "{} has no field {}".format(type(dpt).__name__, key)
+                )
 
         return dpt
 
-- 
2.43.0


From b82d45b6ff794e02ab61b74bb303428e79e5ba76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:30 +0000
Subject: [PATCH 33/41] fix: the daemon does not wait for a client that does
 not read

---
 daemon/usbhid.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/daemon/usbhid.c b/daemon/usbhid.c
index 60e6898..acbf6d6 100644
--- a/daemon/usbhid.c
+++ b/daemon/usbhid.c
@@ -176,7 +176,9 @@ int write_to_client(int filedes, unsigned char *packet, int len) {
 		sprintf(&buffer[i * 2], "%02x", packet[i]);
 	}
 	buffer[len * 2] = '\n';
-	write(filedes, buffer, len * 2 + 1);
+	/* a client which does not read must not stop the others: close it */
+	if (send(filedes, buffer, len * 2 + 1, MSG_DONTWAIT) != len * 2 + 1)
+		shutdown(filedes, SHUT_RDWR);
 }
 
 int main(int argc, char *argv[]) {
-- 
2.43.0


From 1491bcb4af254f290f2bfc5a49103140ea26140c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:18 +0000
Subject: [PATCH 34/41] fix: a connection that fails before it is accepted does
 not end the daemon

---
 daemon/usbhid.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/daemon/usbhid.c b/daemon/usbhid.c
index acbf6d6..702960a 100644
--- a/daemon/usbhid.c
+++ b/daemon/usbhid.c
@@ -258,8 +258,9 @@ int main(int argc, char *argv[]) {
 					new_client = accept(sock, (struct sockaddr *) &clientname,
 							&len);
 					if (new_client < 0) {
+						/* the connection is gone, not the others */
 						perror("accept");
-						exit(EXIT_FAILURE);
+						continue;
 					}
 					fprintf(stderr, "Server: connect from host %d, port %hd.\n",
 							inet_ntoa(clientname.sin_addr),
-- 
2.43.0


From ba80a9cb203b8b672a3ea0d1ec99639e22fc7535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:03 +0000
Subject: [PATCH 35/41] fix: a datapoint's fields are described in the same
 order in every process

---
 knx_stack/datapointtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knx_stack/datapointtypes.py b/knx_stack/datapointtypes.py
index 5cfa271..2a63084 100644
--- a/knx_stack/datapointtypes.py
+++ b/knx_stack/datapointtypes.py
@@ -79,7 +79,7 @@ class Description_Factory(object):
         ) - set(
             ["bits", "value", "__weakref__", "_b_base_", "_b_needsfree_", "_objects"]
         )
-        for name in fields:
+        for name in sorted(fields):
             field = dpt.__getattribute__(name)
             if isinstance(field, IntEnum):
                 description[name] = field.name
-- 
2.43.0


From 6529df9550921f2f02d69bf36af89b8962b4b376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:51 +0000
Subject: [PATCH 36/41] fix: a property write too long for a frame is refused

---
 knx_stack/encode/layer/network/n_data_individual/req.py | 2 ++
 knx_stack/encode/usb_hid/report_header/packet_info.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/knx_stack/encode/layer/network/n_data_individual/req.py b/knx_stack/encode/layer/network/n_data_individual/req.py
index 9602457..e06d66e 100644
--- a/knx_stack/encode/layer/network/n_data_individual/req.py
+++ b/knx_stack/encode/layer/network/n_data_individual/req.py
@@ -3,6 +3,8 @@ from knx_stack.encode.layer.link import l_data
 
 
 def encode(state: "knx_stack.State", msg: "knx_stack.Msg") -> "knx_stack.Msg":
+    if len(msg) - 1 > 0xFF:
+        raise ValueError("{} octets are too many for a frame".format(len(msg) - 1))
     npdu_length = Octect(value=(len(msg) - 1))
     destination = Short(value=state.individual_address.free_style)
     new_msg = Msg([destination.MSB, destination.LSB, npdu_length] + msg)
diff --git a/knx_stack/encode/usb_hid/report_header/packet_info.py b/knx_stack/encode/usb_hid/report_header/packet_info.py
index 2fed6d7..3981ab3 100644
--- a/knx_stack/encode/usb_hid/report_header/packet_info.py
+++ b/knx_stack/encode/usb_hid/report_header/packet_info.py
@@ -4,6 +4,8 @@ from knx_stack.encode.usb_hid.report_header import report_identifier
 
 
 def encode(state: "knx_stack.State", msg: "knx_stack.Msg") -> "knx_stack.Msg":
+    if len(msg) > 0xFF:
+        raise ValueError("{} octets are too many for a report".format(len(msg)))
     sequence_number = 1
     packet_type = PacketType.allInOnePacket
     packet_info = Octect(Nibbles(high=sequence_number, low=packet_type))
-- 
2.43.0


From a1e4e288fbe4174b333aa99fd26c86e80b98291d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:06 +0000
Subject: [PATCH 37/41] fix: the USB client goes on after a line it cannot read

---
 knx_stack/client/usbhid.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/knx_stack/client/usbhid.py b/knx_stack/client/usbhid.py
index e8c4fb4..65cdbf4 100644
--- a/knx_stack/client/usbhid.py
+++ b/knx_stack/client/usbhid.py
@@ -85,7 +85,11 @@ class Client(object):
 
     async def _knx_read(self):
         while not self.rsock.at_eof():
-            msg = await self._read()
+            try:
+                msg = await self._read()
+            except ValueError as e:
+                self.logger.error("not readable: {}".format(repr(e)))
+                continue
             try:
                 octects_msg = knx_stack.Msg.make_from_str(msg)
                 data = knx_stack.decode_msg(self._state, octects_msg)
-- 
2.43.0


From b85346679f531ce2f514154fb4daab768ff8513a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:13 +0000
Subject: [PATCH 38/41] fix: encoding a two octet float does not depend on the
 decimal context

---
 knx_stack/datapointtypes.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/knx_stack/datapointtypes.py b/knx_stack/datapointtypes.py
index 2a63084..8a5445b 100644
--- a/knx_stack/datapointtypes.py
+++ b/knx_stack/datapointtypes.py
@@ -2,7 +2,6 @@ from ctypes import c_uint8, c_uint32, c_uint16, c_float, LittleEndianStructure,
 from enum import IntEnum, Enum
 import inspect
 import math
-import decimal
 
 
 class DPT_Factory(object):
@@ -714,10 +713,7 @@ class DPT_Float_16(Union):
     def encode(self, value):
         sign = math.copysign(1, value)
 
-        decimal_mantissa = decimal.Decimal(
-            value / 0.01
-        )  # used decimal to avoid different rounding
-        mantissa = abs(int(round(decimal_mantissa, 2)))  # two decimals
+        mantissa = abs(int(round(value / 0.01, 2)))  # two decimals
 
         exp = 0
         max_mantissa_value = (1 << 11) - 1 if sign > 0 else 1 << 11
-- 
2.43.0


From 155ad8594276c5e673c71f7eed5b305ac490c4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:15 +0000
Subject: [PATCH 39/41] fix: methods and attributes of a datapoint's type are
 no fields to build it from

---
 knx_stack/datapointtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knx_stack/datapointtypes.py b/knx_stack/datapointtypes.py
index 8a5445b..f974224 100644
--- a/knx_stack/datapointtypes.py
+++ b/knx_stack/datapointtypes.py
@@ -33,7 +33,7 @@ class DPT_Factory(object):
         for key, value in fields_values.items():
             if key == "decoded_value":
                 dpt.encode(value)
-            elif hasattr(type(dpt), key):
+            elif inspect.isdatadescriptor(getattr(type(dpt), key, None)):
                 setattr(dpt, key, value)
             else:
                 raise AttributeError(
-- 
2.43.0


From 97aadc07b6bceae6815e5de8dbb2daef4c50968b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:16 +0000
Subject: [PATCH 40/41] fix: only names of the enumeration are accepted for a
 field

---
 knx_stack/datapointtypes.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/knx_stack/datapointtypes.py b/knx_stack/datapointtypes.py
index f974224..2372050 100644
--- a/knx_stack/datapointtypes.py
+++ b/knx_stack/datapointtypes.py
@@ -139,7 +139,7 @@ class DPT_Switch(Union, DPT):
 
     @action.setter
     def action(self, value):
-        value = getattr(self.Action, value)
+        value = self.Action[value]
         self.bits.action = self.Action(value)
 
     _fields_ = [("bits", _DPT_Switch), ("value", c_uint8)]
@@ -201,7 +201,7 @@ class DPT_UpDown(Union, DPT):
 
     @direction.setter
     def direction(self, value):
-        value = getattr(self.Direction, value)
+        value = self.Direction[value]
         self.bits.direction = self.Direction(value)
 
     _fields_ = [("bits", _DPT_UpDown), ("value", c_uint8)]
@@ -239,7 +239,7 @@ class DPT_Start(Union, DPT):
 
     @action.setter
     def action(self, value):
-        value = getattr(self.Action, value)
+        value = self.Action[value]
         self.bits.action = self.Action(value)
 
     _fields_ = [("bits", _DPT_Start), ("value", c_uint8)]
@@ -280,7 +280,7 @@ class DPTVimarScene(Union, DPT):
 
     @command.setter
     def command(self, value):
-        value = getattr(self.Command, value)
+        value = self.Command[value]
         self.bits.command = self.Command(value)
 
     @property
@@ -326,7 +326,7 @@ class DPT_SceneControl(Union, DPT):
 
     @command.setter
     def command(self, value):
-        value = getattr(self.Command, value)
+        value = self.Command[value]
         self.bits.command = self.Command(value)
 
     @property
@@ -379,7 +379,7 @@ class DPT_Control_Dimming(Union, DPT):
 
     @direction.setter
     def direction(self, value):
-        value = getattr(self.Direction, value)
+        value = self.Direction[value]
         self.bits.direction = self.Direction(value)
 
     _fields_ = [("bits", _DPT_Control_Dimming), ("value", c_uint8)]
@@ -460,7 +460,7 @@ class DPTSetupClima(Union, DPT):
 
     @funzionamento.setter
     def funzionamento(self, value):
-        value = getattr(self.Funzionamento, value)
+        value = self.Funzionamento[value]
         self.bits.funzionamento = self.Funzionamento(value)
 
     @property
@@ -469,7 +469,7 @@ class DPTSetupClima(Union, DPT):
 
     @stagione.setter
     def stagione(self, value):
-        value = getattr(self.Stagione, value)
+        value = self.Stagione[value]
         self.bits.stagione = self.Stagione(value)
 
     @property
@@ -478,7 +478,7 @@ class DPTSetupClima(Union, DPT):
 
     @unita_misura.setter
     def unita_misura(self, value):
-        value = getattr(self.UnitaMisura, value)
+        value = self.UnitaMisura[value]
         self.bits.unita_misura = self.UnitaMisura(value)
 
     @property
@@ -569,7 +569,7 @@ class DPTInfoClimaReport(Union, DPT):
 
     @funzionamento.setter
     def funzionamento(self, value):
-        value = getattr(self.Funzionamento, value)
+        value = self.Funzionamento[value]
         self.bits.funzionamento = self.Funzionamento(value)
 
     @property
@@ -578,7 +578,7 @@ class DPTInfoClimaReport(Union, DPT):
 
     @stagione.setter
     def stagione(self, value):
-        value = getattr(self.Stagione, value)
+        value = self.Stagione[value]
         self.bits.stagione = self.Stagione(value)
 
     @property
-- 
2.43.0


From ed88bfd87279141a258d74831f706aa6141849d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:55 +0000
Subject: [PATCH 41/41] fix: a name that is not of the enumeration is refused
 with AttributeError

---
 knx_stack/datapointtypes.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/knx_stack/datapointtypes.py b/knx_stack/datapointtypes.py
index 2372050..6f2e5bf 100644
--- a/knx_stack/datapointtypes.py
+++ b/knx_stack/datapointtypes.py
@@ -4,6 +4,15 @@ import inspect
 import math
 
 
+def _member(enumeration, name):
+    try:
+        return enumeration[name]
+    except KeyError:
+        raise AttributeError(
+            "{} has no member {}".format(enumeration.__name__, name)
+        ) from None
+
+
 class DPT_Factory(object):
     @staticmethod
     def make(dpt: str, fields_values: dict) -> "knx_stack.datapointtypes.DPT":
@@ -139,7 +148,7 @@ class DPT_Switch(Union, DPT):
 
     @action.setter
     def action(self, value):
-        value = self.Action[value]
+        value = _member(self.Action, value)
         self.bits.action = self.Action(value)
 
     _fields_ = [("bits", _DPT_Switch), ("value", c_uint8)]
@@ -201,7 +210,7 @@ class DPT_UpDown(Union, DPT):
 
     @direction.setter
     def direction(self, value):
-        value = self.Direction[value]
+        value = _member(self.Direction, value)
         self.bits.direction = self.Direction(value)
 
     _fields_ = [("bits", _DPT_UpDown), ("value", c_uint8)]
@@ -239,7 +248,7 @@ class DPT_Start(Union, DPT):
 
     @action.setter
     def action(self, value):
-        value = self.Action[value]
+        value = _member(self.Action, value)
         self.bits.action = self.Action(value)
 
     _fields_ = [("bits", _DPT_Start), ("value", c_uint8)]
@@ -280,7 +289,7 @@ class DPTVimarScene(Union, DPT):
 
     @command.setter
     def command(self, value):
-        value = self.Command[value]
+        value = _member(self.Command, value)
         self.bits.command = self.Command(value)
 
     @property
@@ -326,7 +335,7 @@ class DPT_SceneControl(Union, DPT):
 
     @command.setter
     def command(self, value):
-        value = self.Command[value]
+        value = _member(self.Command, value)
         self.bits.command = self.Command(value)
 
     @property
@@ -379,7 +388,7 @@ class DPT_Control_Dimming(Union, DPT):
 
     @direction.setter
     def direction(self, value):
-        value = self.Direction[value]
+        value = _member(self.Direction, value)
         self.bits.direction = self.Direction(value)
 
     _fields_ = [("bits", _DPT_Control_Dimming), ("value", c_uint8)]
@@ -460,7 +469,7 @@ class DPTSetupClima(Union, DPT):
 
     @funzionamento.setter
     def funzionamento(self, value):
-        value = self.Funzionamento[value]
+        value = _member(self.Funzionamento, value)
         self.bits.funzionamento = self.Funzionamento(value)
 
     @property
@@ -469,7 +478,7 @@ class DPTSetupClima(Union, DPT):
 
     @stagione.setter
     def stagione(self, value):
-        value = self.Stagione[value]
+        value = _member(self.Stagione, value)
         self.bits.stagione = self.Stagione(value)
 
     @property
@@ -478,7 +487,7 @@ class DPTSetupClima(Union, DPT):
 
     @unita_misura.setter
     def unita_misura(self, value):
-        value = self.UnitaMisura[value]
+        value = _member(self.UnitaMisura, value)
         self.bits.unita_misura = self.UnitaMisura(value)
 
     @property
@@ -569,7 +578,7 @@ class DPTInfoClimaReport(Union, DPT):
 
     @funzionamento.setter
     def funzionamento(self, value):
-        value = self.Funzionamento[value]
+        value = _member(self.Funzionamento, value)
         self.bits.funzionamento = self.Funzionamento(value)
 
     @property
@@ -578,7 +587,7 @@ class DPTInfoClimaReport(Union, DPT):
 
     @stagione.setter
     def stagione(self, value):
-        value = self.Stagione[value]
+        value = _member(self.Stagione, value)
         self.bits.stagione = self.Stagione(value)
 
     @property
-- 
2.43.0

