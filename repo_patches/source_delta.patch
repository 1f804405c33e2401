From c1dc7ff8a883e79be86303c9bf3e2f0d36e472b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 01/40] fix: compare port range bounds as numbers

PortRange compared the bounds as strings, so 'range 80 443' was rejected
and 'range 20 3' accepted.
---
 lib/acltk/aclObjects.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index 5602a82..a7e542a 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -902,9 +902,7 @@ class Port:
 class PortRange:
     def __init__(self, start, stop):
         try:
-            int(start)
-            int(stop)
-            assert start < stop, "last Port must be greater than first"
+            assert int(start) < int(stop), "last Port must be greater than first"
         except ValueError:
             pass
         self.start = start
-- 
2.43.0


From ff18fd326a63e5a84529cb8186b6302f8ac0d52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 02/40] fix: keep the port of 'port-object eq' group members

The grammar matched the port without naming it, so every member became
Port('eq', None).
---
 lib/acltk/acl.bnf | 2 +-
 lib/acltk/fwsm.py | 3 ++-
 lib/acltk/ios.py  | 3 ++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/acltk/acl.bnf b/lib/acltk/acl.bnf
index 33d452c..0407cb4 100644
--- a/lib/acltk/acl.bnf
+++ b/lib/acltk/acl.bnf
@@ -384,7 +384,7 @@ service_group_object
 	;
 
 port_group_object
-	= type:"port-object" WS op:"eq" WS port NL
+	= type:"port-object" WS op:"eq" WS port:port NL
 	| type:"port-object" WS op:"range" WS begin:port WS end:port NL
 	| type:"group-object" WS object:acl_object_group_port NL
 	| type:`None` ()
diff --git a/lib/acltk/fwsm.py b/lib/acltk/fwsm.py
index 7740e87..57abcc5 100644
--- a/lib/acltk/fwsm.py
+++ b/lib/acltk/fwsm.py
@@ -1664,8 +1664,9 @@ class fwsmParser(Parser):
                 self.name_last_node('op')
                 self._WS_()
                 self._port_()
+                self.name_last_node('port')
                 self._NL_()
-                self._define(['op', 'type'], [])
+                self._define(['op', 'port', 'type'], [])
             with self._option():
                 self._token('port-object')
                 self.name_last_node('type')
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 706fa46..082253b 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -1654,8 +1654,9 @@ class iosParser(Parser):
                 self.name_last_node('op')
                 self._WS_()
                 self._port_()
+                self.name_last_node('port')
                 self._NL_()
-                self._define(['op', 'type'], [])
+                self._define(['op', 'port', 'type'], [])
             with self._option():
                 self._token('port-object')
                 self.name_last_node('type')
-- 
2.43.0


From efe15e98fa7482c70a7fe1839b5ab4c5a7341de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 03/40] fix: interpret IOS wildcard masks as wildcards

They were tried as netmask/hostmask first, so 0.0.0.0 became /0 and
255.255.255.255 /32; non-contiguous masks of numbered lists raised.
---
 lib/acltk/iosSemantics.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/lib/acltk/iosSemantics.py b/lib/acltk/iosSemantics.py
index 509449b..4978b9a 100644
--- a/lib/acltk/iosSemantics.py
+++ b/lib/acltk/iosSemantics.py
@@ -18,12 +18,23 @@ class iosSemantics(aclSemantics):
     def grammar(self, ast) -> ACLConfig:
         return iosConfig(ast)
 
+    def _wildcard(self, address, wildcard) -> Union[Network, NetworkWildcard]:
+        # a wildcard mask has the bits to ignore set, 0.0.0.0 is the host itself
+        bits = int(wildcard)
+        if bits & (bits + 1) == 0:
+            return Network(address, 32 - bits.bit_length())
+        return NetworkWildcard(address, wildcard)
+
+    def acl_host(self, ast):
+        # numbered access-lists
+        if ast.type == "network" and isinstance(ast.netmask, ipaddress.IPv4Address):
+            addr, target = self._resolve_addr(ast.address)
+            return self._wildcard(addr, ast.netmask)
+        return super().acl_host(ast)
+
     def ios_host(self, ast) -> Union[Network, NetworkAny, NetworkHost]:
         if ast.type == "wildcard":
-            try:
-                return Network(ast.address, ast.wildcard)
-            except:
-                return NetworkWildcard(ast.address, ast.wildcard)
+            return self._wildcard(ast.address, ast.wildcard)
         elif ast.type == "object-group":
             return ast.group
         elif ast.type == "any":
-- 
2.43.0


From a5a317a917e823ff26ba1792f091d47f2a54c547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 04/40] fix: resolve rules whose list is bound to an interface

access_groups maps to a list, adding it to the set raised TypeError.
---
 lib/acltk/aclObjects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index a7e542a..ccd4000 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -1305,7 +1305,7 @@ class ACLConfig:
                     if isinstance(v, TimeRange):
                         r.add(v)
                 if i.id in self.access_groups:
-                    r.add(self.access_groups[i.id])
+                    r.update(self.access_groups[i.id])
             elif isinstance(i, NATObject):
                 if i.real.src:
                     r.add(i.real.src.node)
-- 
2.43.0


From 0190bb43ff0e5d862ffdc3c6ada6b4f8725cfecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 05/40] fix: caf comments may end with more than one asterisk

'/* x **/' swallowed the text up to the end of the next comment.
---
 lib/acltk/caf.bnf | 2 +-
 lib/acltk/caf.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/acltk/caf.bnf b/lib/acltk/caf.bnf
index a3f1c92..d961d82 100644
--- a/lib/acltk/caf.bnf
+++ b/lib/acltk/caf.bnf
@@ -15,7 +15,7 @@ comments
 	;
 
 comment
-	= "/*" ?/(?:[^*]|(?:\*[^/]))*/? "*/"
+	= "/*" ?/(?:[^*]|\*(?!/))*/? "*/"
 	;
 
 op	= "union"
diff --git a/lib/acltk/caf.py b/lib/acltk/caf.py
index dd930d7..cdc5dc7 100644
--- a/lib/acltk/caf.py
+++ b/lib/acltk/caf.py
@@ -104,7 +104,7 @@ class cafParser(Parser):
     @tatsumasu()
     def _comment_(self):
         self._token('/*')
-        self._pattern('(?:[^*]|(?:\\*[^/]))*')
+        self._pattern('(?:[^*]|\\*(?!/))*')
         self._token('*/')
 
     @tatsumasu()
-- 
2.43.0


From 2e0d02a7fb3f2aa7fdcd259fd064f0789c8fc250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 06/40] fix: list ASA access-group bindings in the
 configuration

Only bindings made inside an interface block were added to
access_groups, so ASA rules never resolved to their interface.
---
 lib/acltk/aclObjects.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index ccd4000..145325c 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -1238,6 +1238,7 @@ class ACLConfig:
                     if j.nameif == i.iface:
                         i.iface = j
                         j.access_groups[i.direction] = i
+                        self.access_groups[i.name].append(i)
                         break
             elif isinstance(i, NATObject):
                 position = 3 if ("after-auto", "after-object") & i.options.keys() else 1
-- 
2.43.0


From 766450d4ee2c8527c711898287090cb728755b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 07/40] fix: pfSense interfaces with a static address

Interface expects the type and value lists with the whitespace element
the grammars produce, the import raised IndexError.
---
 lib/acltk/pfsenseSemantics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index ea58500..af7c2ce 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -89,7 +89,9 @@ class pfsenseParser(aclParser):
             if "ipaddr" in values:
                 if values["ipaddr"] != "dhcp":
                     details = [
-                        tatsu.ast.AST(**{"type": ["ip", "address"], "value": [values["ipaddr"], values["subnet"]]})
+                        tatsu.ast.AST(
+                            **{"type": ["ip", None, "address"], "value": [values["ipaddr"], None, values["subnet"]]}
+                        )
                     ]
                 else:
                     details = [tatsu.ast.AST(**{"type": "nameif", "value": values["if"]})]
-- 
2.43.0


From 5e64ef2eafcdbeaafb48504d7cc3249d56363b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 08/40] fix: pfSense rules may refer to the network of an
 optional interface

Optional interfaces are stored by their description, <network>opt1
</network> raised ValueError.
---
 lib/acltk/pfsenseSemantics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index af7c2ce..36f3ffc 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -289,7 +289,7 @@ class pfsenseParser(aclParser):
                             else:
                                 port = Port("eq", port)
                     elif n.tag == "network":
-                        address = n.text
+                        address = self.interface_map.get(n.text, n.text)
                         if address in self.interfaces:
                             address = NetworkInterface(self.interfaces[address].alias)
                         else:
-- 
2.43.0


From 9d585235d9237746f051d2357e763f6a667394a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 09/40] fix: look pfSense interfaces up by their tag

The description of a non optional interface served as key too, so a
description like 'lan' on wan renamed the rules of lan.
---
 lib/acltk/pfsenseSemantics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index 36f3ffc..38b442f 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -111,7 +111,7 @@ class pfsenseParser(aclParser):
             ast.append(obj)
 
             self.interfaces[obj.alias] = obj
-            self.interface_map[obj.description] = obj.alias
+            self.interface_map[i.tag] = obj.alias
 
         return ast
 
-- 
2.43.0


From 609bf52fa6d5f374ed279a23f9011191395aa16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 10/40] fix: object NAT of a re-opened network object refers to
 its definition

The nat line usually follows in a second 'object network' block; the
entry was bound to the empty object of that block.
---
 lib/acltk/aclSemantics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/aclSemantics.py b/lib/acltk/aclSemantics.py
index b06e8fa..628523c 100644
--- a/lib/acltk/aclSemantics.py
+++ b/lib/acltk/aclSemantics.py
@@ -153,7 +153,8 @@ class aclSemantics:
             self._learn(ast.name, p)
 
         if nat:
-            nat.real.src.node = p
+            # the object may have been defined before, just adding nat now
+            nat.real.src.node = groups[ast.name]
             setattr(p, "nat", nat)
 
         return p
-- 
2.43.0


From aa198b8f831445c548940d319a1c0fe45822b83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 11/40] fix: keep the mapped port of object NAT service
 translation

Both sides were given the real port.
---
 lib/acltk/aclSemantics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/acltk/aclSemantics.py b/lib/acltk/aclSemantics.py
index 628523c..7f66441 100644
--- a/lib/acltk/aclSemantics.py
+++ b/lib/acltk/aclSemantics.py
@@ -459,8 +459,8 @@ class aclSemantics:
             if ast.service == "dns":
                 options["dns"] = True
             elif isinstance(ast.service, Service):
-                real["service"] = Service(ast.service.protocol, None, ast.service.dst)
-                mapped["service"] = Service(ast.service.protocol, None, ast.service.src)
+                real["service"] = Service(ast.service.protocol, None, ast.service.src)
+                mapped["service"] = Service(ast.service.protocol, None, ast.service.dst)
             else:
                 raise ValueError(ast.service)
 
@@ -468,7 +468,7 @@ class aclSemantics:
             options[i] = True
 
         r = NATObject(
-            NATReal(real["iface"], NATRealNode(real["src"]), NATRealNode(real["dst"]), mapped.get("service", None)),
+            NATReal(real["iface"], NATRealNode(real["src"]), NATRealNode(real["dst"]), real.get("service", None)),
             NATMapped(
                 mapped["iface"],
                 NATMappedSource(ast.type, mapped["src"], fallback),
-- 
2.43.0


From 4989fc1a06d6310b717eeeb088cf6c68b55afbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 12/40] fix: sort(insitu=False) returns a sorted copy for every
 kind of group

It relied on collapse(), which protocol and service groups do not have
and which modified the original network group.
---
 lib/acltk/aclObjects.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index 145325c..2860915 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -1,4 +1,5 @@
 import collections
+import copy
 import datetime
 import ipaddress
 import math
@@ -312,7 +313,7 @@ class ProtocolGroup(_Group):
         if insitu:
             obj = self
         else:
-            obj = self.collapse(insitu=False)
+            obj = copy.copy(self)
 
         obj.objects = sorted(self.objects, key=ProtocolGroup.key_of)
 
@@ -660,7 +661,7 @@ class NetworkGroup(_Group):
         if insitu:
             obj = self
         else:
-            obj = self.collapse(insitu=False)
+            obj = copy.copy(self)
 
         obj.objects = sorted(self.objects, key=NetworkGroup.key_of)
 
@@ -733,7 +734,7 @@ class ServiceGroup(_Group):
         if insitu:
             obj = self
         else:
-            obj = self.collapse(insitu=False)
+            obj = copy.copy(self)
 
         obj.objects = sorted(self.objects, key=ServiceGroup.key_of)
         return obj
@@ -957,9 +958,9 @@ class PortGroup(_Group):
         if insitu:
             obj = self
         else:
-            obj = self.expand(insitu=False)
+            obj = copy.copy(self)
 
-        obj.objects = sorted(obj.objects, key=PortGroup.key_of)
+        obj.objects = sorted(self.objects, key=PortGroup.key_of)
         return obj
 
     def __repr__(self):
-- 
2.43.0


From ea5bc77f72579e2e117271e1cd8e3b24a8452790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 13/40] fix: collapse network groups of hosts, objects and
 mixed families

In place collapsing refused plain hosts and failed for objects,
insitu=False modified the original group if it only had networks, and
mixing IPv4 and IPv6 raised TypeError.
---
 lib/acltk/aclObjects.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index 2860915..aed7818 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -610,12 +610,12 @@ class NetworkGroup(_Group):
         :return: collapsed NetworkGroup
         """
         # expansion required?
-        if any(filter(lambda o: not isinstance(o, (Network, NetworkObject)), self.objects)):
-            if insitu:
+        if insitu:
+            if any(isinstance(o, (NetworkGroup, NetworkObject)) for o in self.objects):
                 raise ValueError("expansion required")
-            obj = self.expand(insitu)
-        else:
             obj = self
+        else:
+            obj = self.expand(insitu)
         return obj._collapse()
 
     def _collapse(self):
@@ -632,11 +632,15 @@ class NetworkGroup(_Group):
 
         self.objects.clear()
 
-        for h in ipaddress.collapse_addresses(addresses):
+        # IPv4 and IPv6 can not be collapsed together
+        collapsed = [
+            ipaddress.collapse_addresses([a for a in addresses if a.version == version]) for version in (4, 6)
+        ]
+        for h in itertools.chain.from_iterable(collapsed):
             if not isinstance(h, (ipaddress.IPv4Network, ipaddress.IPv6Network)):
                 raise ValueError(f"unexpected type {h}")
             if h.num_addresses > 1:
-                h_ = Network(h.network_address, h.netmask)
+                h_ = Network(h.network_address, h.prefixlen)
             else:
                 h_ = NetworkHost(h.network_address)
             self.add(h_)
-- 
2.43.0


From d9cff03801c22d549d69176fcfac7dd3da138596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 14/40] fix: look services up by protocol

str has no toupper().
---
 lib/acltk/aclObjects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index aed7818..9b1f41d 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -855,7 +855,7 @@ class PortUtil:
     @classmethod
     def getservbyname(cls, name, proto=None):
         for s in cls.services():
-            if s.name == name and (proto is None or proto.toupper() == s.protocol):
+            if s.name == name and (proto is None or proto.upper() == s.protocol):
                 return int(s.port)
         return None
 
-- 
2.43.0


From 52986b52f904fe1cd4e47f524f8f5144755937f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 15/40] fix: match wildcards with wildcards and per address
 family

Two wildcards recursed endlessly, and IPv6 addresses were compared with
IPv4 wildcards by value.
---
 lib/acltk/aclObjects.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index 9b1f41d..9c2e9e2 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -475,8 +475,16 @@ class NetworkWildcard:
 
     def __and__(self, other):
         if isinstance(other, NetworkHost):
+            if other.address.version != self.address.version:
+                return False
             return int(other.address) & ~int(self.wildcard) == int(self.address) & ~int(self.wildcard)
+        elif isinstance(other, NetworkWildcard):
+            if other.address.version != self.address.version:
+                return False
+            return (int(other.address) ^ int(self.address)) & ~int(self.wildcard) & ~int(other.wildcard) == 0
         elif isinstance(other, Network):
+            if other.network.version != self.address.version:
+                return False
             return int(other.network.network_address) & ~int(self.wildcard) == int(self.address) & int(
                 other.network.netmask
             ) & ~int(self.wildcard)
-- 
2.43.0


From e09573dd68407b126c26c13a15d887f577c1764b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:12 +0000
Subject: [PATCH 16/40] fix: remarks stay with their access-list

Trailing remarks of one access-list were attached to the first rule of
the next access-list.
---
 lib/acltk/fwsm.bnf         | 2 +-
 lib/acltk/fwsm.py          | 3 ++-
 lib/acltk/fwsmSemantics.py | 4 +++-
 lib/acltk/ios.bnf          | 2 +-
 lib/acltk/ios.py           | 3 ++-
 lib/acltk/iosSemantics.py  | 8 ++++++--
 6 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/lib/acltk/fwsm.bnf b/lib/acltk/fwsm.bnf
index f2206cf..b0e42a0 100644
--- a/lib/acltk/fwsm.bnf
+++ b/lib/acltk/fwsm.bnf
@@ -80,7 +80,7 @@ access_list
 
 
 access_list_remark
-	= 'access-list' WS acl_id WS 'remark' SP remark:remark NL
+	= 'access-list' WS id:acl_id WS 'remark' SP remark:remark NL
 	;
 
 access_group
diff --git a/lib/acltk/fwsm.py b/lib/acltk/fwsm.py
index 57abcc5..bc6217a 100644
--- a/lib/acltk/fwsm.py
+++ b/lib/acltk/fwsm.py
@@ -3299,13 +3299,14 @@ class fwsmParser(Parser):
         self._token('access-list')
         self._WS_()
         self._acl_id_()
+        self.name_last_node('id')
         self._WS_()
         self._token('remark')
         self._SP_()
         self._remark_()
         self.name_last_node('remark')
         self._NL_()
-        self._define(['remark'], [])
+        self._define(['id', 'remark'], [])
 
     @tatsumasu()
     def _access_group_(self):
diff --git a/lib/acltk/fwsmSemantics.py b/lib/acltk/fwsmSemantics.py
index a984009..6ecaf0c 100644
--- a/lib/acltk/fwsmSemantics.py
+++ b/lib/acltk/fwsmSemantics.py
@@ -35,7 +35,9 @@ class fwsmSemantics(aclSemantics):
         if ast.remark:
             remark = []
             for i in ast.remark:
-                remark.append(i.remark)
+                # remarks of another access-list may precede
+                if i.id == ast.id:
+                    remark.append(i.remark)
             del ast["remark"]
             ast["remark"] = remark
 
diff --git a/lib/acltk/ios.bnf b/lib/acltk/ios.bnf
index 7f3950b..8e0e7c4 100644
--- a/lib/acltk/ios.bnf
+++ b/lib/acltk/ios.bnf
@@ -265,7 +265,7 @@ access_list_ip_standard
 	;
 
 access_list_remark
-	= 'access-list' WS acl_id WS 'remark' WS remark:remark NL
+	= 'access-list' WS id:acl_id WS 'remark' WS remark:remark NL
 	;
 
 access_list
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 082253b..8ed5475 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -3781,13 +3781,14 @@ class iosParser(Parser):
         self._token('access-list')
         self._WS_()
         self._acl_id_()
+        self.name_last_node('id')
         self._WS_()
         self._token('remark')
         self._WS_()
         self._remark_()
         self.name_last_node('remark')
         self._NL_()
-        self._define(['remark'], [])
+        self._define(['id', 'remark'], [])
 
     @tatsumasu()
     def _access_list_(self):
diff --git a/lib/acltk/iosSemantics.py b/lib/acltk/iosSemantics.py
index 4978b9a..8047bfd 100644
--- a/lib/acltk/iosSemantics.py
+++ b/lib/acltk/iosSemantics.py
@@ -124,7 +124,9 @@ class iosSemantics(aclSemantics):
         if ast.remark:
             remark = []
             for i in ast.remark:
-                remark.append(i.remark)
+                # remarks of another access-list may precede
+                if i.id == ast.id:
+                    remark.append(i.remark)
             del ast["remark"]
             ast["remark"] = remark
         return self.access_list_ip_standard_rule(ast)
@@ -148,7 +150,9 @@ class iosSemantics(aclSemantics):
         if ast.remark:
             remark = []
             for i in ast.remark:
-                remark.append(i.remark)
+                # remarks of another access-list may precede
+                if i.id == ast.id:
+                    remark.append(i.remark)
             del ast["remark"]
             ast["remark"] = remark
         return self.access_list_ip_extended_rule(ast)
-- 
2.43.0


From b182c83b6c1b02c0ff94a256dc2a69799ab835ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 17/40] fix: ip dhcp pool ends with its indented lines

Everything up to the next line holding '!', '(' or '|' was ignored,
access-lists included.
---
 lib/acltk/ios.bnf | 2 +-
 lib/acltk/ios.py  | 8 +++-----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/acltk/ios.bnf b/lib/acltk/ios.bnf
index 8e0e7c4..f7c35e4 100644
--- a/lib/acltk/ios.bnf
+++ b/lib/acltk/ios.bnf
@@ -412,7 +412,7 @@ ip_ignored
 	| "nat" TOEOL NL
 	| "subnet-zero" NL
 	| "dhcp excluded-address" TOEOL NL
-	| "dhcp pool" {?/[^(!|\n)]*/? NL}*
+	| "dhcp pool" TOEOL NL ignored_indent
 	| "tcp" TOEOL NL
 	| "scp" TOEOL NL
 	| "ssh" TOEOL NL ignored_indent
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 8ed5475..dc82e5f 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -4492,11 +4492,9 @@ class iosParser(Parser):
                 self._NL_()
             with self._option():
                 self._token('dhcp pool')
-
-                def block0():
-                    self._pattern('[^(!|\\n)]*')
-                    self._NL_()
-                self._closure(block0)
+                self._TOEOL_()
+                self._NL_()
+                self._ignored_indent_()
             with self._option():
                 self._token('tcp')
                 self._TOEOL_()
-- 
2.43.0


From 663fc96dff05532c463dffae433af58839e31cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 18/40] fix: record interface addresses without standby address

The address of an interface was dropped unless the line had a standby
address.
---
 lib/acltk/fwsm.bnf |  4 ++--
 lib/acltk/fwsm.py  | 24 ++++++++++++++----------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/lib/acltk/fwsm.bnf b/lib/acltk/fwsm.bnf
index b0e42a0..d4b027a 100644
--- a/lib/acltk/fwsm.bnf
+++ b/lib/acltk/fwsm.bnf
@@ -31,8 +31,8 @@ command
 interface_detail
 	= type:"description" WS value:TOEOL NL
 	| type:"nameif" WS value:identifier [WS] NL
-	| type:("ip" WS "address") WS value:(ip4 WS ip4) WS "standby" WS standby:ip4 [WS] NL
-	| type:("ipv6" WS "address") WS value:(ip6 "/" int) WS "standby" WS standby:ip6 [WS] NL
+	| type:("ip" WS "address") WS value:(ip4 WS ip4) [WS "standby" WS standby:ip4] [WS] NL
+	| type:("ipv6" WS "address") WS value:(ip6 "/" int) [WS "standby" WS standby:ip6] [WS] NL
 	| type:`None` ["no" WS] TOEOL NL
 	| type:`None` ()
 	;
diff --git a/lib/acltk/fwsm.py b/lib/acltk/fwsm.py
index bc6217a..f8e30c5 100644
--- a/lib/acltk/fwsm.py
+++ b/lib/acltk/fwsm.py
@@ -2691,11 +2691,13 @@ class fwsmParser(Parser):
                     self._WS_()
                     self._ip4_()
                 self.name_last_node('value')
-                self._WS_()
-                self._token('standby')
-                self._WS_()
-                self._ip4_()
-                self.name_last_node('standby')
+                with self._optional():
+                    self._WS_()
+                    self._token('standby')
+                    self._WS_()
+                    self._ip4_()
+                    self.name_last_node('standby')
+                    self._define(['standby'], [])
                 with self._optional():
                     self._WS_()
                 self._NL_()
@@ -2712,11 +2714,13 @@ class fwsmParser(Parser):
                     self._token('/')
                     self._int_()
                 self.name_last_node('value')
-                self._WS_()
-                self._token('standby')
-                self._WS_()
-                self._ip6_()
-                self.name_last_node('standby')
+                with self._optional():
+                    self._WS_()
+                    self._token('standby')
+                    self._WS_()
+                    self._ip6_()
+                    self.name_last_node('standby')
+                    self._define(['standby'], [])
                 with self._optional():
                     self._WS_()
                 self._NL_()
-- 
2.43.0


From 790f1398bcd57538bcef8d4abcddfd76309a4601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 19/40] fix: banner text may end with a caret

'^^C' did not end the banner, the following lines were swallowed.
---
 lib/acltk/iosSemantics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/iosSemantics.py b/lib/acltk/iosSemantics.py
index 8047bfd..8604b62 100644
--- a/lib/acltk/iosSemantics.py
+++ b/lib/acltk/iosSemantics.py
@@ -260,7 +260,7 @@ class iosParser(aclParser, _iosParser):
     def _delim_msg_(self):
         if self.delim == "^C":
             # not ^ or ^ not followed by C
-            self._pattern(r"([^^]|\^[^C])*")
+            self._pattern(r"([^^]|\^(?!C))*")
         else:
             p = r"[^\x{:02x}]*".format(int.from_bytes(self.delim.encode("utf-8"), byteorder="little"))
             self._pattern(p)
-- 
2.43.0


From 87d84ad4644ac253c1c8358b1e7288700731f1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 20/40] fix: reject caf terms next to a parenthesised
 expression

'id A (ip src 1.1.1.1)' silently dropped the id.
---
 lib/acltk/cafSemantics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/cafSemantics.py b/lib/acltk/cafSemantics.py
index 8218116..898a14b 100644
--- a/lib/acltk/cafSemantics.py
+++ b/lib/acltk/cafSemantics.py
@@ -1,3 +1,5 @@
+from tatsu.exceptions import FailedSemantics
+
 from acltk.aclObjects import ACLRule, Network, NetworkHost, NetworkAny, NetworkGroup, ACLNode, NetworkAny4, NetworkAny6
 from acltk.cafObjects import (
     cafOpUnion,
@@ -89,7 +91,9 @@ class RealCafSemantics:
     def set(self, ast):
         objects = list(filter(lambda i: i is not None, ast.objects))
 
-        if len(objects) == 1 and isinstance(objects[0], cafBlock):
+        if any(isinstance(i, cafBlock) for i in objects):
+            if ast.id is not None or len(objects) > 1:
+                raise FailedSemantics("a parenthesised expression can not be combined without operator")
             return objects[0]
         ip = []
         for i in objects:
-- 
2.43.0


From 181718d1350bb11597fea684c55b45cebcce578e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 21/40] fix: support range members of IOS network object groups

The grammar accepts them, the semantics took 'range' for an address.
---
 lib/acltk/aclSemantics.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/aclSemantics.py b/lib/acltk/aclSemantics.py
index 7f66441..bbfb3c2 100644
--- a/lib/acltk/aclSemantics.py
+++ b/lib/acltk/aclSemantics.py
@@ -191,7 +191,9 @@ class aclSemantics:
         # groups[ast.name] = p
         self._learn(ast.name, p)
         for i in ast.objects:
-            p.add(i)
+            # ranges are a list of networks
+            for j in i if isinstance(i, list) else [i]:
+                p.add(j)
         return p
 
     def ip4(self, ast):
@@ -238,6 +240,12 @@ class aclSemantics:
             if ast.name == "object":
                 return ast.object
 
+            if ast.name == "range":
+                start, stop = [self._resolve_addr(i)[0] for i in ast.address]
+                return [
+                    Network(i.network_address, i.prefixlen) for i in ipaddress.summarize_address_range(start, stop)
+                ]
+
             if ast.name == "host":
                 addr = ast.address
             else:
-- 
2.43.0


From 274e16a7d01ff30f0c5d021c476018d2b374733a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 22/40] fix: dynamic twice NAT lists the mapped service object
 first

---
 lib/acltk/fwsmSemantics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/acltk/fwsmSemantics.py b/lib/acltk/fwsmSemantics.py
index 6ecaf0c..89fb6eb 100644
--- a/lib/acltk/fwsmSemantics.py
+++ b/lib/acltk/fwsmSemantics.py
@@ -115,8 +115,9 @@ class fwsmSemantics(aclSemantics):
                     raise ValueError("unexpected")
                 # For identity port translation, simply use the same service object for both the real and mapped ports (source and / or destination ports, depending on your configuration).
             elif ast.src["mapped"].type == "dynamic":
-                real["service"] = ast.service[2]
-                mapped["service"] = ast.service[4]
+                # destination port translation only - service mapped_obj real_obj
+                mapped["service"] = ast.service[2]
+                real["service"] = ast.service[4]
             else:
                 raise ValueError(ast.src["mapped"].type)
 
-- 
2.43.0


From 9d50f9d8407d96ca91dd2375c244ef88dcce4281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 23/40] fix: record network and service objects in the
 configuration

The objects were learnt for references but never listed in config.objects,
and their NAT entries were lost.
---
 lib/acltk/aclSemantics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/aclSemantics.py b/lib/acltk/aclSemantics.py
index bbfb3c2..9802d0d 100644
--- a/lib/acltk/aclSemantics.py
+++ b/lib/acltk/aclSemantics.py
@@ -160,7 +160,7 @@ class aclSemantics:
         return p
 
     def object(self, ast):
-        return ast[1]
+        return ast[2]
 
     def object_group(self, ast):
         return ast[2]
-- 
2.43.0


From 6cbc970c8e9abcd27838de610baf3d2267403576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 24/40] fix: names and interfaces may start with 'any'

---
 lib/acltk/acl.bnf |  4 ++--
 lib/acltk/fwsm.py | 16 ++++++++++++++++
 lib/acltk/ios.py  | 16 ++++++++++++++++
 3 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/lib/acltk/acl.bnf b/lib/acltk/acl.bnf
index 0407cb4..692f691 100644
--- a/lib/acltk/acl.bnf
+++ b/lib/acltk/acl.bnf
@@ -163,7 +163,7 @@ acl_internal
 acl_host
 	= type:("host"|"ip") WS address:(acl_name|ip4|ip6)
 	| type:"interface" WS name:identifier
-	| type:("any"|"any4"|"any6")
+	| type:("any"|"any4"|"any6") &(WS|NL)
 	| type:"object" WS object:acl_object_network
 	| type:"object-group" WS group:acl_object_group_network
 	| type:`network` address:(acl_name_ws|ip4) WS netmask:ip4
@@ -279,7 +279,7 @@ network_object_nat
 	;
 
 nat_interfaces
-	= "(" real:("any"|acl_interface_id) "," mapped:("any"|acl_interface_id) ")"
+	= "(" real:("any" &","|acl_interface_id) "," mapped:("any" &")"|acl_interface_id) ")"
 	;
 
 network_nat_mapped
diff --git a/lib/acltk/fwsm.py b/lib/acltk/fwsm.py
index f8e30c5..16f18b0 100644
--- a/lib/acltk/fwsm.py
+++ b/lib/acltk/fwsm.py
@@ -578,6 +578,18 @@ class fwsmParser(Parser):
                             "'any' 'any4' 'any6'"
                         )
                 self.name_last_node('type')
+                with self._if():
+                    with self._group():
+                        with self._choice():
+                            with self._option():
+                                self._WS_()
+                            with self._option():
+                                self._NL_()
+                            self._error(
+                                'expecting one of: '
+                                '<NL> <WS>'
+                            )
+                self._define(['type'], [])
             with self._option():
                 self._token('object')
                 self.name_last_node('type')
@@ -1057,6 +1069,8 @@ class fwsmParser(Parser):
             with self._choice():
                 with self._option():
                     self._token('any')
+                    with self._if():
+                        self._token(',')
                 with self._option():
                     self._acl_interface_id_()
                 self._error(
@@ -1069,6 +1083,8 @@ class fwsmParser(Parser):
             with self._choice():
                 with self._option():
                     self._token('any')
+                    with self._if():
+                        self._token(')')
                 with self._option():
                     self._acl_interface_id_()
                 self._error(
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index dc82e5f..a6f0fd5 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -578,6 +578,18 @@ class iosParser(Parser):
                             "'any' 'any4' 'any6'"
                         )
                 self.name_last_node('type')
+                with self._if():
+                    with self._group():
+                        with self._choice():
+                            with self._option():
+                                self._WS_()
+                            with self._option():
+                                self._NL_()
+                            self._error(
+                                'expecting one of: '
+                                '<NL> <WS>'
+                            )
+                self._define(['type'], [])
             with self._option():
                 self._token('object')
                 self.name_last_node('type')
@@ -1057,6 +1069,8 @@ class iosParser(Parser):
             with self._choice():
                 with self._option():
                     self._token('any')
+                    with self._if():
+                        self._token(',')
                 with self._option():
                     self._acl_interface_id_()
                 self._error(
@@ -1069,6 +1083,8 @@ class iosParser(Parser):
             with self._choice():
                 with self._option():
                     self._token('any')
+                    with self._if():
+                        self._token(')')
                 with self._option():
                     self._acl_interface_id_()
                 self._error(
-- 
2.43.0


From 4e6f4d3385406e7c2fc903e66046cacb58e09f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:12 +0000
Subject: [PATCH 25/40] fix: protocol groups only hold known protocols

protocol-object took any word or number.
---
 lib/acltk/acl.bnf         |  2 +-
 lib/acltk/aclSemantics.py |  2 +-
 lib/acltk/fwsm.py         | 11 ++++++++++-
 lib/acltk/ios.py          | 11 ++++++++++-
 4 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/lib/acltk/acl.bnf b/lib/acltk/acl.bnf
index 692f691..56eb50a 100644
--- a/lib/acltk/acl.bnf
+++ b/lib/acltk/acl.bnf
@@ -407,7 +407,7 @@ icmp_group_object
 
 
 protocol_group_object
-	= type:"protocol-object" WS name:obj_name NL
+	= type:"protocol-object" WS name:(protocol_code|protocol_int) NL
 	| type:"group-object" WS group:acl_object_group_protocol NL
 	| type:`None`
 	;
diff --git a/lib/acltk/aclSemantics.py b/lib/acltk/aclSemantics.py
index 9802d0d..ef1387f 100644
--- a/lib/acltk/aclSemantics.py
+++ b/lib/acltk/aclSemantics.py
@@ -303,7 +303,7 @@ class aclSemantics:
     def protocol_group_object(self, ast):
         assert ast.type is not None, "object type is None"
         if ast.type == "protocol-object":
-            return Protocol(ast.name)
+            return ast.name
         elif ast.type == "group-object":
             return ast.group
 
diff --git a/lib/acltk/fwsm.py b/lib/acltk/fwsm.py
index 16f18b0..0c4fc1f 100644
--- a/lib/acltk/fwsm.py
+++ b/lib/acltk/fwsm.py
@@ -1841,7 +1841,16 @@ class fwsmParser(Parser):
                 self._token('protocol-object')
                 self.name_last_node('type')
                 self._WS_()
-                self._obj_name_()
+                with self._group():
+                    with self._choice():
+                        with self._option():
+                            self._protocol_code_()
+                        with self._option():
+                            self._protocol_int_()
+                        self._error(
+                            'expecting one of: '
+                            '<protocol_code> <protocol_int>'
+                        )
                 self.name_last_node('name')
                 self._NL_()
                 self._define(['name', 'type'], [])
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index a6f0fd5..e8e3c84 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -1866,7 +1866,16 @@ class iosParser(Parser):
                 self._token('protocol-object')
                 self.name_last_node('type')
                 self._WS_()
-                self._obj_name_()
+                with self._group():
+                    with self._choice():
+                        with self._option():
+                            self._protocol_code_()
+                        with self._option():
+                            self._protocol_int_()
+                        self._error(
+                            'expecting one of: '
+                            '<protocol_code> <protocol_int>'
+                        )
                 self.name_last_node('name')
                 self._NL_()
                 self._define(['name', 'type'], [])
-- 
2.43.0


From dbec455fb793a056b7c10b8eb5cea1b5b41cc8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 26/40] fix: time ranges on several days and up to another day

'periodic Monday Tuesday ...' was rejected, the day after 'to' was recorded
with the whitespace next to it.
---
 lib/acltk/acl.bnf |  2 +-
 lib/acltk/fwsm.py | 19 +++++++++++++++----
 lib/acltk/ios.py  | 19 +++++++++++++++----
 3 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/lib/acltk/acl.bnf b/lib/acltk/acl.bnf
index 56eb50a..9495b6b 100644
--- a/lib/acltk/acl.bnf
+++ b/lib/acltk/acl.bnf
@@ -447,7 +447,7 @@ timedate
 	;
 
 time_range_object
-	= type:"periodic" WS days:{day_of_the_week}+ WS start:time WS "to" WS edays:[day_of_the_week WS] end:time NL
+	= type:"periodic" WS days+:day_of_the_week {WS days+:day_of_the_week} WS start:time WS "to" WS [edays:day_of_the_week WS] end:time NL
 	| type:"periodic" WS days+:("weekdays"|"weekend"|"daily") WS start:time WS "to" WS end:time NL
 	| type:"absolute" [WS "start" WS start:timedate] [WS "end" WS end:timedate] NL
 	| type:"no" WS TOEOL NL
diff --git a/lib/acltk/fwsm.py b/lib/acltk/fwsm.py
index 0c4fc1f..55f84e7 100644
--- a/lib/acltk/fwsm.py
+++ b/lib/acltk/fwsm.py
@@ -1978,11 +1978,18 @@ class fwsmParser(Parser):
                 self._token('periodic')
                 self.name_last_node('type')
                 self._WS_()
+                self._day_of_the_week_()
+                self.add_last_node_to_name('days')
 
                 def block0():
+                    self._WS_()
                     self._day_of_the_week_()
-                self._positive_closure(block0)
-                self.name_last_node('days')
+                    self.add_last_node_to_name('days')
+                    self._define(
+                        [],
+                        ['days'],
+                    )
+                self._closure(block0)
                 self._WS_()
                 self._time_()
                 self.name_last_node('start')
@@ -1991,12 +1998,16 @@ class fwsmParser(Parser):
                 self._WS_()
                 with self._optional():
                     self._day_of_the_week_()
+                    self.name_last_node('edays')
                     self._WS_()
-                self.name_last_node('edays')
+                    self._define(['edays'], [])
                 self._time_()
                 self.name_last_node('end')
                 self._NL_()
-                self._define(['days', 'edays', 'end', 'start', 'type'], [])
+                self._define(
+                    ['edays', 'end', 'start', 'type'],
+                    ['days'],
+                )
             with self._option():
                 self._token('periodic')
                 self.name_last_node('type')
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index e8e3c84..d0c09e6 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -2003,11 +2003,18 @@ class iosParser(Parser):
                 self._token('periodic')
                 self.name_last_node('type')
                 self._WS_()
+                self._day_of_the_week_()
+                self.add_last_node_to_name('days')
 
                 def block0():
+                    self._WS_()
                     self._day_of_the_week_()
-                self._positive_closure(block0)
-                self.name_last_node('days')
+                    self.add_last_node_to_name('days')
+                    self._define(
+                        [],
+                        ['days'],
+                    )
+                self._closure(block0)
                 self._WS_()
                 self._time_()
                 self.name_last_node('start')
@@ -2016,12 +2023,16 @@ class iosParser(Parser):
                 self._WS_()
                 with self._optional():
                     self._day_of_the_week_()
+                    self.name_last_node('edays')
                     self._WS_()
-                self.name_last_node('edays')
+                    self._define(['edays'], [])
                 self._time_()
                 self.name_last_node('end')
                 self._NL_()
-                self._define(['days', 'edays', 'end', 'start', 'type'], [])
+                self._define(
+                    ['edays', 'end', 'start', 'type'],
+                    ['days'],
+                )
             with self._option():
                 self._token('periodic')
                 self.name_last_node('type')
-- 
2.43.0


From cc70eee33502627e4f101f8a9c0104da16eeb613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:57 +0000
Subject: [PATCH 27/40] fix: IPv6 access-list options log-input, mobility-type
 and routing-type

---
 lib/acltk/ios.bnf |  6 +++---
 lib/acltk/ios.py  | 19 ++++++++++++-------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/lib/acltk/ios.bnf b/lib/acltk/ios.bnf
index f7c35e4..241260b 100644
--- a/lib/acltk/ios.bnf
+++ b/lib/acltk/ios.bnf
@@ -126,12 +126,12 @@ ipv6_access_list_rule_option
 	| type:"dscp" WS value:identifier
 	| type:"flow-label" WS value:identifier
 	| type:"fragments"
-	| type:"log"
 	| type:"log-input"
+	| type:"log"
+	| type:"mobility-type" [WS value:int]
 	| type:"mobility"
-	| type:"mobility-type" value:int
+	| type:"routing-type" [WS value:int]
 	| type:"routing"
-	| type:"routing-type" [value:int]
 	| type:"time-range" WS value:identifier
 	;
 
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index d0c09e6..edfa457 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -3011,31 +3011,36 @@ class iosParser(Parser):
             with self._option():
                 self._token('fragments')
                 self.name_last_node('type')
-            with self._option():
-                self._token('log')
-                self.name_last_node('type')
             with self._option():
                 self._token('log-input')
                 self.name_last_node('type')
             with self._option():
-                self._token('mobility')
+                self._token('log')
                 self.name_last_node('type')
             with self._option():
                 self._token('mobility-type')
                 self.name_last_node('type')
-                self._int_()
-                self.name_last_node('value')
+                with self._optional():
+                    self._WS_()
+                    self._int_()
+                    self.name_last_node('value')
+                    self._define(['value'], [])
                 self._define(['type', 'value'], [])
             with self._option():
-                self._token('routing')
+                self._token('mobility')
                 self.name_last_node('type')
             with self._option():
                 self._token('routing-type')
                 self.name_last_node('type')
                 with self._optional():
+                    self._WS_()
                     self._int_()
                     self.name_last_node('value')
+                    self._define(['value'], [])
                 self._define(['type', 'value'], [])
+            with self._option():
+                self._token('routing')
+                self.name_last_node('type')
             with self._option():
                 self._token('time-range')
                 self.name_last_node('type')
-- 
2.43.0


From cbf04c9b333501521dc536b20c61ccd3b88da38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:46 +0000
Subject: [PATCH 28/40] fix: IOS banner delimiters outside ASCII

---
 lib/acltk/iosSemantics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/acltk/iosSemantics.py b/lib/acltk/iosSemantics.py
index 8604b62..eae7c53 100644
--- a/lib/acltk/iosSemantics.py
+++ b/lib/acltk/iosSemantics.py
@@ -1,5 +1,6 @@
 from typing import Union, List
 import ipaddress
+import re
 
 from tatsu.parsing import tatsumasu
 
@@ -262,12 +263,11 @@ class iosParser(aclParser, _iosParser):
             # not ^ or ^ not followed by C
             self._pattern(r"([^^]|\^(?!C))*")
         else:
-            p = r"[^\x{:02x}]*".format(int.from_bytes(self.delim.encode("utf-8"), byteorder="little"))
-            self._pattern(p)
+            self._pattern(f"[^{re.escape(self.delim)}]*")
 
     @tatsumasu()
     def _delim_stop_(self):
         if self.delim == "^C":
             self._token("^C")
         else:
-            self._pattern(r"\x{:02x}".format(int.from_bytes(self.delim.encode("utf-8"), byteorder="little")))
+            self._pattern(re.escape(self.delim))
-- 
2.43.0


From 118161bc396f8698d27c8912e6dc9bcb83fdb83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 29/40] fix: IOS 'Using ... out of ... bytes' header line was
 never recognised

---
 lib/acltk/ios.bnf | 2 +-
 lib/acltk/ios.py  | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/ios.bnf b/lib/acltk/ios.bnf
index 241260b..f2d28be 100644
--- a/lib/acltk/ios.bnf
+++ b/lib/acltk/ios.bnf
@@ -392,7 +392,7 @@ ignored
 	| "system" TOEOL NL
 	| "transceiver" TOEOL NL ignored_indent
 	| "username" TOEOL NL
-	| "Using" int "out of" int "bytes" NL
+	| "Using" WS int WS "out of" WS int WS "bytes" TOEOL NL
 	| "vlan" TOEOL NL ignored_indent
 	| "vpdn" TOEOL NL ignored_indent
 	| "vrf" TOEOL NL ignored_indent
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index edfa457..4afc4eb 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -4437,10 +4437,15 @@ class iosParser(Parser):
                 self._NL_()
             with self._option():
                 self._token('Using')
+                self._WS_()
                 self._int_()
+                self._WS_()
                 self._token('out of')
+                self._WS_()
                 self._int_()
+                self._WS_()
                 self._token('bytes')
+                self._TOEOL_()
                 self._NL_()
             with self._option():
                 self._token('vlan')
-- 
2.43.0


From e591591775f1cccee4097082e903edd37de786ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:45 +0000
Subject: [PATCH 30/40] fix: pfSense separator rows count per interface, not
 per run of rules

---
 lib/acltk/pfsenseSemantics.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index 38b442f..39a3318 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -214,18 +214,14 @@ class pfsenseParser(aclParser):
                             ACLCaption(bg=values["color"], text=html.parser.unescape(values["text"]))
                         )
 
-                ifname = None
-                last = 0
-                sidx = 0
-                for idx, rule in enumerate(ast):
-                    if rule.id != ifname:
-                        last = idx
-                        ifname = rule.id
-                    sidx = idx - last
-
-                    if ifname in separators:
-                        if sidx in separators[ifname]:
-                            ast[idx].head = separators[ifname][sidx]
+                # rows are counted per interface
+                rows = collections.Counter()
+                for rule in ast:
+                    row = rows[rule.id]
+                    rows[rule.id] += 1
+                    if rule.id in separators:
+                        if row in separators[rule.id]:
+                            rule.head = separators[rule.id][row]
             else:
                 raise ValueError(i.tag)
         return ast
-- 
2.43.0


From 52aa58f8baebd0292e4715e40755f1c3f785f80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:33 +0000
Subject: [PATCH 31/40] fix: pfSense aliases may contain aliases

---
 lib/acltk/pfsenseSemantics.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index 39a3318..fe02d49 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -118,6 +118,14 @@ class pfsenseParser(aclParser):
     def _parse_aliases(self, root):
         # 		print(ET.tostring(root))
         ast = []
+        # aliases may refer to aliases, defined before or after
+        for i in list(root):
+            name, type, descr = (i.findtext(tag) or "" for tag in ("name", "type", "descr"))
+            if type in ("host", "network", "urltable"):
+                self.network_groups[name] = NetworkGroup(name, html.parser.unescape(descr))
+            elif type == "port":
+                self.port_groups[name] = PortGroup(name, Protocol("any"), html.parser.unescape(descr))
+
         for i in list(root):
             values = {}
             for v in list(i):
@@ -128,25 +136,28 @@ class pfsenseParser(aclParser):
             values["descr"] = html.parser.unescape(values["descr"] or "")
 
             if values["type"] == "host":
-                g = NetworkGroup(values["name"], values["descr"])
+                g = self.network_groups[values["name"]]
                 if values["address"]:
                     for addr in values["address"].split(" "):
+                        if addr in self.network_groups:
+                            g.add(self.network_groups[addr])
+                            continue
                         # FIXME pfsense allows strings in address fields
                         try:
                             host = NetworkHost(addr)
                         except ValueError:
                             host = NetworkAny()
                         g.add(host)
-                self.network_groups[values["name"]] = g
             elif values["type"] == "network":
-                g = NetworkGroup(values["name"], values["descr"])
+                g = self.network_groups[values["name"]]
                 if values["address"]:
                     for addr in values["address"].split(" "):
-                        g.add(Network(*addr.split("/")))
-                self.network_groups[values["name"]] = g
+                        if addr in self.network_groups:
+                            g.add(self.network_groups[addr])
+                        else:
+                            g.add(Network(*addr.split("/")))
             elif values["type"] == "urltable":
-                g = NetworkGroup(values["name"], values["descr"])
-                self.network_groups[values["name"]] = g
+                g = self.network_groups[values["name"]]
 
                 if self._options.fetch_urltable:
                     try:
@@ -176,14 +187,15 @@ class pfsenseParser(aclParser):
                     g.add(NetworkAny())
 
             elif values["type"] == "port":
-                g = PortGroup(values["name"], Protocol("any"), values["descr"])
+                g = self.port_groups[values["name"]]
                 if values["address"]:
                     for addr in values["address"].split(" "):
-                        if ":" in addr:
+                        if addr in self.port_groups:
+                            g.add(self.port_groups[addr])
+                        elif ":" in addr:
                             g.add(PortRange(*addr.split(":")))
                         else:
                             g.add(Port("eq", addr))
-                self.port_groups[values["name"]] = g
             else:
                 raise ValueError(values["type"])
             ast.append(g)
-- 
2.43.0


From 6a728a10a88ec300722b65d82c4c52e21626aa03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:33 +0000
Subject: [PATCH 32/40] fix: OPNsense time stamps have a fraction

---
 lib/acltk/pfsenseSemantics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index fe02d49..053a057 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -62,7 +62,7 @@ class pfsenseParser(aclParser):
         birth = None
         for i in list(root):
             if i.tag == "time":
-                birth = datetime.datetime.fromtimestamp(int(i.text))
+                birth = datetime.datetime.fromtimestamp(int(float(i.text)))
                 break
         else:
             birth = datetime.datetime.now()
@@ -308,7 +308,7 @@ class pfsenseParser(aclParser):
             elif v.tag in ["created", "updated"]:
                 for n in list(v):
                     if n.tag == "time":
-                        values[v.tag] = datetime.datetime.fromtimestamp(int(n.text))
+                        values[v.tag] = datetime.datetime.fromtimestamp(int(float(n.text)))
             elif v.tag == "icmptype":
                 icmp = ICMP(v.text, None)
             elif v.tag in frozenset(
-- 
2.43.0


From 9b60aca10aec4776ec78f90e343a4a1736f18148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:34 +0000
Subject: [PATCH 33/40] fix: record static IPv6 addresses of pfSense interfaces

---
 lib/acltk/pfsenseSemantics.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index 053a057..bc157c1 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -98,6 +98,14 @@ class pfsenseParser(aclParser):
             else:
                 details = [tatsu.ast.AST(**{"type": "nameif", "value": values["if"]})]
 
+            # dhcp6, slaac, track6, ... are no addresses
+            if ":" in (values.get("ipaddrv6") or ""):
+                details.append(
+                    tatsu.ast.AST(
+                        **{"type": ["ipv6", None, "address"], "value": [values["ipaddrv6"], None, values["subnetv6"]]}
+                    )
+                )
+
             alias = i.tag
             if alias.startswith("opt"):
                 details.append(tatsu.ast.AST(**{"type": "description", "value": alias}))
-- 
2.43.0


From 91ca5cb44d168e58687853eff4852a8766de22f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:34 +0000
Subject: [PATCH 34/40] fix: URL table networks with host bits set

---
 lib/acltk/pfsenseSemantics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index bc157c1..7a7d995 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -182,7 +182,7 @@ class pfsenseParser(aclParser):
                                     pass
                             else:
                                 try:
-                                    addr = ipaddress.ip_network(line)
+                                    addr = ipaddress.ip_network(line, strict=False)
                                     g.add(Network(*line.split("/")))
                                     continue
                                 except:
-- 
2.43.0


From 5a183e5b5470e667bdd63282f4c1944177967abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:12 +0000
Subject: [PATCH 35/40] fix: pfSense separators and interfaces without text

---
 lib/acltk/pfsenseSemantics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index 7a7d995..a262c17 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -109,10 +109,10 @@ class pfsenseParser(aclParser):
             alias = i.tag
             if alias.startswith("opt"):
                 details.append(tatsu.ast.AST(**{"type": "description", "value": alias}))
-                alias = html.parser.unescape(values.get("descr", alias))
+                alias = html.parser.unescape(values.get("descr") or alias)
             else:
                 details.append(
-                    tatsu.ast.AST(**{"type": "description", "value": html.parser.unescape(values.get("descr", ""))})
+                    tatsu.ast.AST(**{"type": "description", "value": html.parser.unescape(values.get("descr") or "")})
                 )
 
             obj = Interface(alias=alias, details=details)
@@ -231,7 +231,7 @@ class pfsenseParser(aclParser):
                         # EXML - pfsense uses "fr{idx}" to denote the rows number
                         row = int(values["row"][2:])
                         separators[iface][row].append(
-                            ACLCaption(bg=values["color"], text=html.parser.unescape(values["text"]))
+                            ACLCaption(bg=values["color"], text=html.parser.unescape(values["text"] or ""))
                         )
 
                 # rows are counted per interface
-- 
2.43.0


From c16e06b0388983e9ada45a5d11fe127a7ac23ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:57 +0000
Subject: [PATCH 36/40] fix: generic parser options with an URL table alias

---
 lib/acltk/pfsenseSemantics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index a262c17..6a788a7 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -39,7 +39,10 @@ log = logging.getLogger("acltk.pfsense")
 class pfsenseParser(aclParser):
     def __init__(self, options=None):
         aclParser.__init__(self)
-        self._options = options or pfsenseParserOptions()
+        if not isinstance(options, pfsenseParserOptions):
+            # the generic entry points pass on generic options
+            options = pfsenseParserOptions(trace=options.trace if options else False)
+        self._options = options
         self.interface_map = dict()  # optX -> alias
 
     def parse(self, data, filename="config.xml", trace=False):
-- 
2.43.0


From f76ccfb604afd26fe2e5cdfaaf17c0ac31f7c84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:28 +0000
Subject: [PATCH 37/40] fix: reject port numbers above 65535 and open port
 ranges in pfSense rules and aliases

---
 lib/acltk/pfsenseSemantics.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index 6a788a7..4f16d66 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -203,15 +203,21 @@ class pfsenseParser(aclParser):
                     for addr in values["address"].split(" "):
                         if addr in self.port_groups:
                             g.add(self.port_groups[addr])
-                        elif ":" in addr:
-                            g.add(PortRange(*addr.split(":")))
                         else:
-                            g.add(Port("eq", addr))
+                            g.add(self._parse_port(addr, ":"))
             else:
                 raise ValueError(values["type"])
             ast.append(g)
         return ast
 
+    def _parse_port(self, text, sep):
+        ports = text.split(sep)
+        for port in ports:
+            # a number or the name of a service
+            if not port or port.isdigit() and int(port) > 65535:
+                raise ValueError(f"invalid port {text}")
+        return Port("eq", text) if len(ports) == 1 else PortRange(*ports)
+
     def _parse_filter(self, root):
         ast = []
         now = datetime.datetime.now()
@@ -303,10 +309,7 @@ class pfsenseParser(aclParser):
                         try:
                             port = self.port_groups[port]
                         except KeyError as e:
-                            if "-" in port:
-                                port = PortRange(*port.split("-", 2))
-                            else:
-                                port = Port("eq", port)
+                            port = self._parse_port(port, "-")
                     elif n.tag == "network":
                         address = self.interface_map.get(n.text, n.text)
                         if address in self.interfaces:
-- 
2.43.0


From d438ecee3efd332a114d61d02ae5623058be622a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:36 +0000
Subject: [PATCH 38/40] fix: pfSense separators stored before the rules attach
 to them as well

---
 lib/acltk/pfsenseSemantics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index 4f16d66..bf7f164 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -221,7 +221,8 @@ class pfsenseParser(aclParser):
     def _parse_filter(self, root):
         ast = []
         now = datetime.datetime.now()
-        for i in list(root):
+        # separators refer to the rules, wherever they are stored
+        for i in sorted(root, key=lambda e: e.tag == "separator"):
             if i.tag == "rule":
                 rule = self._parse_filter__rule(i, now)
                 ast.append(rule)
-- 
2.43.0


From 7fe96612d7c24864da12a62d06449f54518adb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:59 +0000
Subject: [PATCH 39/40] fix: NAT and interface addresses refer to the interface
 with that name (nameif), not to the hardware name of another

---
 lib/acltk/aclSemantics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/aclSemantics.py b/lib/acltk/aclSemantics.py
index ef1387f..f9410b1 100644
--- a/lib/acltk/aclSemantics.py
+++ b/lib/acltk/aclSemantics.py
@@ -64,7 +64,9 @@ class aclSemantics:
 
     def interface(self, ast):
         iface = Interface(ast.alias, ast.detail)
-        if ast.alias is not None:
+        # the name given to another interface (nameif) goes before the hardware name
+        known = self.parser.interfaces.get(ast.alias)
+        if ast.alias is not None and (known is None or known.nameif != ast.alias):
             self._learn(ast.alias, iface)
         if iface.nameif is not None:
             self._learn(iface.nameif, iface)
-- 
2.43.0


From e91c956cceabd2dc8b0716eeb5e928e9c0df8ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:39 +0000
Subject: [PATCH 40/40] fix: any4 and any6 match wildcards of their own address
 family

---
 lib/acltk/aclObjects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index 9c2e9e2..6af5942 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -532,7 +532,7 @@ class NetworkAny4:
             else:
                 return False
         elif isinstance(other, NetworkWildcard):
-            return True
+            return self.version == other.address.version
         elif isinstance(other, NetworkAny6):
             return False
         elif isinstance(other, (NetworkAny4, NetworkAny)):
@@ -559,7 +559,7 @@ class NetworkAny6:
             else:
                 return False
         elif isinstance(other, NetworkWildcard):
-            return False
+            return self.version == other.address.version
         elif isinstance(other, NetworkAny4):
             return False
         elif isinstance(other, (NetworkAny6, NetworkAny)):
-- 
2.43.0

