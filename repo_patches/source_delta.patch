From 3621bf2a47bee8d5d86efadc8d79681c44f70095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:54 +0000
Subject: [PATCH 01/43] fix: keep the port of 'port-object eq' in port groups

The grammar did not name the port, so every 'port-object eq X' member
was parsed as Port('eq', None).
---
 lib/acltk/acl.bnf | 2 +-
 lib/acltk/fwsm.py | 3 ++-
 lib/acltk/ios.py  | 3 ++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/acltk/acl.bnf b/lib/acltk/acl.bnf
index 33d452c..0407cb4 100644
--- a/lib/acltk/acl.bnf
+++ b/lib/acltk/acl.bnf
@@ -384,7 +384,7 @@ service_group_object
 	;
 
 port_group_object
-	= type:"port-object" WS op:"eq" WS port NL
+	= type:"port-object" WS op:"eq" WS port:port NL
 	| type:"port-object" WS op:"range" WS begin:port WS end:port NL
 	| type:"group-object" WS object:acl_object_group_port NL
 	| type:`None` ()
diff --git a/lib/acltk/fwsm.py b/lib/acltk/fwsm.py
index 7740e87..57abcc5 100644
--- a/lib/acltk/fwsm.py
+++ b/lib/acltk/fwsm.py
@@ -1664,8 +1664,9 @@ class fwsmParser(Parser):
                 self.name_last_node('op')
                 self._WS_()
                 self._port_()
+                self.name_last_node('port')
                 self._NL_()
-                self._define(['op', 'type'], [])
+                self._define(['op', 'port', 'type'], [])
             with self._option():
                 self._token('port-object')
                 self.name_last_node('type')
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 706fa46..082253b 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -1654,8 +1654,9 @@ class iosParser(Parser):
                 self.name_last_node('op')
                 self._WS_()
                 self._port_()
+                self.name_last_node('port')
                 self._NL_()
-                self._define(['op', 'type'], [])
+                self._define(['op', 'port', 'type'], [])
             with self._option():
                 self._token('port-object')
                 self.name_last_node('type')
-- 
2.43.0


From 50eb308c590e24360d05a1083b20c9224b755178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:54 +0000
Subject: [PATCH 02/43] fix: compare the ends of a PortRange as numbers

The ends are strings, so '80 443' was rejected and '100 20' accepted.
---
 lib/acltk/aclObjects.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index 5602a82..a7e542a 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -902,9 +902,7 @@ class Port:
 class PortRange:
     def __init__(self, start, stop):
         try:
-            int(start)
-            int(stop)
-            assert start < stop, "last Port must be greater than first"
+            assert int(start) < int(stop), "last Port must be greater than first"
         except ValueError:
             pass
         self.start = start
-- 
2.43.0


From f16bcbca22e11088e0d901fd7ef0d05c8d3f8e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 03/43] fix: read the masks of IOS access lists as wildcards

Network() takes 0.0.0.0, 255.255.255.255 and other masks that look like a
netmask for one, and numbered extended access-lists were parsed with
netmasks altogether (and failed on discontiguous wildcards).
---
 lib/acltk/iosSemantics.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/lib/acltk/iosSemantics.py b/lib/acltk/iosSemantics.py
index 509449b..fb1d20f 100644
--- a/lib/acltk/iosSemantics.py
+++ b/lib/acltk/iosSemantics.py
@@ -18,12 +18,24 @@ class iosSemantics(aclSemantics):
     def grammar(self, ast) -> ACLConfig:
         return iosConfig(ast)
 
+    @staticmethod
+    def _wildcard(address, wildcard, target=None) -> Union[Network, NetworkWildcard]:
+        wild = int(wildcard)
+        if wild & (wild + 1):
+            # not an inverted netmask
+            return NetworkWildcard(address, wildcard)
+        return Network(address, 32 - wild.bit_length(), target)
+
+    def acl_host(self, ast):
+        # unlike the netmask of an ASA, the mask of a numbered access-list is a wildcard
+        if ast.type == "network" and isinstance(ast.netmask, ipaddress.IPv4Address):
+            addr, target = self._resolve_addr(ast.address)
+            return self._wildcard(addr, ast.netmask, target)
+        return super().acl_host(ast)
+
     def ios_host(self, ast) -> Union[Network, NetworkAny, NetworkHost]:
         if ast.type == "wildcard":
-            try:
-                return Network(ast.address, ast.wildcard)
-            except:
-                return NetworkWildcard(ast.address, ast.wildcard)
+            return self._wildcard(ast.address, ast.wildcard)
         elif ast.type == "object-group":
             return ast.group
         elif ast.type == "any":
-- 
2.43.0


From f0c1d22cf3ce3e1ca8e8b71326ee5db93c73275a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 04/43] fix: resolve() of rules whose access list is bound to
 an interface

access_groups holds lists, which can not be added to a set.
---
 lib/acltk/aclObjects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index a7e542a..ccd4000 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -1305,7 +1305,7 @@ class ACLConfig:
                     if isinstance(v, TimeRange):
                         r.add(v)
                 if i.id in self.access_groups:
-                    r.add(self.access_groups[i.id])
+                    r.update(self.access_groups[i.id])
             elif isinstance(i, NATObject):
                 if i.real.src:
                     r.add(i.real.src.node)
-- 
2.43.0


From 0fd7e1c53836a5ad86645060c2b34b119958777f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 05/43] fix: pfSense interfaces with a static address

Interface() expects the whitespace elements the grammars produce, so a
static ipaddr raised IndexError and the config could not be loaded.
---
 lib/acltk/pfsenseSemantics.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index ea58500..a16e956 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -89,7 +89,12 @@ class pfsenseParser(aclParser):
             if "ipaddr" in values:
                 if values["ipaddr"] != "dhcp":
                     details = [
-                        tatsu.ast.AST(**{"type": ["ip", "address"], "value": [values["ipaddr"], values["subnet"]]})
+                        tatsu.ast.AST(
+                            **{
+                                "type": ["ip", None, "address"],
+                                "value": [values["ipaddr"], None, values["subnet"]],
+                            }
+                        )
                     ]
                 else:
                     details = [tatsu.ast.AST(**{"type": "nameif", "value": values["if"]})]
-- 
2.43.0


From 2ff28e73be0b2e76b4dec0c601491afc6adc9aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 06/43] fix: pfSense rules using the network of an optional
 interface

optX interfaces are stored by their description, <network>opt1</network>
was not found and the config could not be loaded.
---
 lib/acltk/pfsenseSemantics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index a16e956..b5a8340 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -293,6 +293,9 @@ class pfsenseParser(aclParser):
                                 port = Port("eq", port)
                     elif n.tag == "network":
                         address = n.text
+                        if address not in self.interfaces:
+                            # optX is known by its alias
+                            address = self.interface_map.get(address, address)
                         if address in self.interfaces:
                             address = NetworkInterface(self.interfaces[address].alias)
                         else:
-- 
2.43.0


From f9435764408415cd96bcd8e6f0783e5afe3dacee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 07/43] fix: end CAF comments at the first '*/'

'**/' did not close a comment, so the comment swallowed the filter up to
the end of the next one, or the filter was rejected.
---
 lib/acltk/caf.bnf | 2 +-
 lib/acltk/caf.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/acltk/caf.bnf b/lib/acltk/caf.bnf
index a3f1c92..6d3a0ab 100644
--- a/lib/acltk/caf.bnf
+++ b/lib/acltk/caf.bnf
@@ -15,7 +15,7 @@ comments
 	;
 
 comment
-	= "/*" ?/(?:[^*]|(?:\*[^/]))*/? "*/"
+	= "/*" ?/(?:[^*]|(?:\*(?!/)))*/? "*/"
 	;
 
 op	= "union"
diff --git a/lib/acltk/caf.py b/lib/acltk/caf.py
index dd930d7..c32958b 100644
--- a/lib/acltk/caf.py
+++ b/lib/acltk/caf.py
@@ -104,7 +104,7 @@ class cafParser(Parser):
     @tatsumasu()
     def _comment_(self):
         self._token('/*')
-        self._pattern('(?:[^*]|(?:\\*[^/]))*')
+        self._pattern('(?:[^*]|(?:\\*(?!/)))*')
         self._token('*/')
 
     @tatsumasu()
-- 
2.43.0


From 73f183bff3ceeaaf9fc9a779e29b93d455f4bc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 08/43] fix: CAF sets which combine a block with other criteria

'id a (ip src 192.0.2.1)' dropped the id, and a block next to an ip
criterion or another block raised TypeError. All of them have to match.
---
 lib/acltk/cafSemantics.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/lib/acltk/cafSemantics.py b/lib/acltk/cafSemantics.py
index 8218116..da193b4 100644
--- a/lib/acltk/cafSemantics.py
+++ b/lib/acltk/cafSemantics.py
@@ -89,13 +89,23 @@ class RealCafSemantics:
     def set(self, ast):
         objects = list(filter(lambda i: i is not None, ast.objects))
 
-        if len(objects) == 1 and isinstance(objects[0], cafBlock):
-            return objects[0]
+        blocks = list(filter(lambda i: isinstance(i, cafBlock), objects))
         ip = []
         for i in objects:
-            if "ip" in i:
+            if i not in blocks and "ip" in i:
                 ip.extend(i.ip)
 
+        if blocks and not ast.id and not ip:
+            criteria = blocks.pop(0)
+        else:
+            criteria = self._criteria(ast.id, ip)
+
+        # all criteria of a set have to match, blocks included
+        for block in blocks:
+            criteria = cafBlock(cafOpIntersect(criteria, block))
+        return criteria
+
+    def _criteria(self, id, ip):
         nodes = {"src": NetworkGroup("src", ""), "dst": NetworkGroup("dst", "")}
 
         for i in ip:
@@ -112,7 +122,7 @@ class RealCafSemantics:
                     nodes[k].add(i)
         #                raise ValueError("failed")
 
-        return ACLRule(id=ast.id, src=ACLNode(nodes["src"]), dst=ACLNode(nodes["dst"]))
+        return ACLRule(id=id, src=ACLNode(nodes["src"]), dst=ACLNode(nodes["dst"]))
 
     def set_r(self, ast):
         if isinstance(ast, list) and len(ast) == 1 and ast[0] == None:
-- 
2.43.0


From 793c2e8b2bd771a846dea263d5c085bd83824e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 09/43] fix: keep the mapped port of object NAT with port
 translation

Both sides of 'nat (..) static .. service tcp 21 2121' got the real port.
---
 lib/acltk/aclSemantics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/acltk/aclSemantics.py b/lib/acltk/aclSemantics.py
index b06e8fa..3ec009e 100644
--- a/lib/acltk/aclSemantics.py
+++ b/lib/acltk/aclSemantics.py
@@ -458,8 +458,8 @@ class aclSemantics:
             if ast.service == "dns":
                 options["dns"] = True
             elif isinstance(ast.service, Service):
-                real["service"] = Service(ast.service.protocol, None, ast.service.dst)
-                mapped["service"] = Service(ast.service.protocol, None, ast.service.src)
+                real["service"] = Service(ast.service.protocol, None, ast.service.src)
+                mapped["service"] = Service(ast.service.protocol, None, ast.service.dst)
             else:
                 raise ValueError(ast.service)
 
@@ -467,7 +467,7 @@ class aclSemantics:
             options[i] = True
 
         r = NATObject(
-            NATReal(real["iface"], NATRealNode(real["src"]), NATRealNode(real["dst"]), mapped.get("service", None)),
+            NATReal(real["iface"], NATRealNode(real["src"]), NATRealNode(real["dst"]), real.get("service", None)),
             NATMapped(
                 mapped["iface"],
                 NATMappedSource(ast.type, mapped["src"], fallback),
-- 
2.43.0


From f2a464fb1528138322810969f259a850fe28d95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 10/43] fix: keep objects and object NAT of ASA configs

object() returned the whitespace, so network and service objects were
missing in ACLConfig.objects and object NAT rules were lost altogether.
---
 lib/acltk/aclSemantics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/aclSemantics.py b/lib/acltk/aclSemantics.py
index 3ec009e..a3c2fc2 100644
--- a/lib/acltk/aclSemantics.py
+++ b/lib/acltk/aclSemantics.py
@@ -159,7 +159,7 @@ class aclSemantics:
         return p
 
     def object(self, ast):
-        return ast[1]
+        return ast[2]
 
     def object_group(self, ast):
         return ast[2]
-- 
2.43.0


From 4201b62afd344a9e3dfa567d10a5b2f5340355c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 11/43] fix: object NAT given in a second block of the network
 object

A running config defines the address and the NAT of an object in separate
blocks; the real source of the NAT was the second, empty object.
---
 lib/acltk/aclSemantics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/aclSemantics.py b/lib/acltk/aclSemantics.py
index a3c2fc2..2c754c7 100644
--- a/lib/acltk/aclSemantics.py
+++ b/lib/acltk/aclSemantics.py
@@ -153,7 +153,7 @@ class aclSemantics:
             self._learn(ast.name, p)
 
         if nat:
-            nat.real.src.node = p
+            nat.real.src.node = groups[ast.name]
             setattr(p, "nat", nat)
 
         return p
-- 
2.43.0


From 1dc779e632d9f5d9a836c797b3b6982b9f64492e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 12/43] fix: ASA interface addresses without a standby address

'ip address A M' was only read when followed by 'standby', the address of
a firewall without failover was dropped.
---
 lib/acltk/fwsm.bnf |  4 ++--
 lib/acltk/fwsm.py  | 24 ++++++++++++++----------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/lib/acltk/fwsm.bnf b/lib/acltk/fwsm.bnf
index f2206cf..3e25691 100644
--- a/lib/acltk/fwsm.bnf
+++ b/lib/acltk/fwsm.bnf
@@ -31,8 +31,8 @@ command
 interface_detail
 	= type:"description" WS value:TOEOL NL
 	| type:"nameif" WS value:identifier [WS] NL
-	| type:("ip" WS "address") WS value:(ip4 WS ip4) WS "standby" WS standby:ip4 [WS] NL
-	| type:("ipv6" WS "address") WS value:(ip6 "/" int) WS "standby" WS standby:ip6 [WS] NL
+	| type:("ip" WS "address") WS value:(ip4 WS ip4) [WS "standby" WS standby:ip4] [WS] NL
+	| type:("ipv6" WS "address") WS value:(ip6 "/" int) [WS "standby" WS standby:ip6] [WS] NL
 	| type:`None` ["no" WS] TOEOL NL
 	| type:`None` ()
 	;
diff --git a/lib/acltk/fwsm.py b/lib/acltk/fwsm.py
index 57abcc5..a2dfd85 100644
--- a/lib/acltk/fwsm.py
+++ b/lib/acltk/fwsm.py
@@ -2691,11 +2691,13 @@ class fwsmParser(Parser):
                     self._WS_()
                     self._ip4_()
                 self.name_last_node('value')
-                self._WS_()
-                self._token('standby')
-                self._WS_()
-                self._ip4_()
-                self.name_last_node('standby')
+                with self._optional():
+                    self._WS_()
+                    self._token('standby')
+                    self._WS_()
+                    self._ip4_()
+                    self.name_last_node('standby')
+                    self._define(['standby'], [])
                 with self._optional():
                     self._WS_()
                 self._NL_()
@@ -2712,11 +2714,13 @@ class fwsmParser(Parser):
                     self._token('/')
                     self._int_()
                 self.name_last_node('value')
-                self._WS_()
-                self._token('standby')
-                self._WS_()
-                self._ip6_()
-                self.name_last_node('standby')
+                with self._optional():
+                    self._WS_()
+                    self._token('standby')
+                    self._WS_()
+                    self._ip6_()
+                    self.name_last_node('standby')
+                    self._define(['standby'], [])
                 with self._optional():
                     self._WS_()
                 self._NL_()
-- 
2.43.0


From 216f3b979b2e83c4ea49d2582220269133ba8688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 13/43] fix: list the interfaces an ASA access-list is bound to

access-group bound the rules to the interface, but only the IOS variant
was registered in ACLConfig.access_groups.
---
 lib/acltk/aclObjects.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index ccd4000..145325c 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -1238,6 +1238,7 @@ class ACLConfig:
                     if j.nameif == i.iface:
                         i.iface = j
                         j.access_groups[i.direction] = i
+                        self.access_groups[i.name].append(i)
                         break
             elif isinstance(i, NATObject):
                 position = 3 if ("after-auto", "after-object") & i.options.keys() else 1
-- 
2.43.0


From e73c6e9c96788de1e33c3d227bf7daee959dff42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 14/43] fix: wildcards do not match IPv6 addresses, but other
 wildcards

The numeric value of an IPv6 address was matched against the IPv4
wildcard, and two wildcards recursed until the stack was exhausted.
---
 lib/acltk/aclObjects.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index 145325c..34443c9 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -474,8 +474,15 @@ class NetworkWildcard:
 
     def __and__(self, other):
         if isinstance(other, NetworkHost):
+            if other.address.version != self.address.version:
+                return False
             return int(other.address) & ~int(self.wildcard) == int(self.address) & ~int(self.wildcard)
+        elif isinstance(other, NetworkWildcard):
+            fixed = ~(int(self.wildcard) | int(other.wildcard))
+            return int(self.address) & fixed == int(other.address) & fixed
         elif isinstance(other, Network):
+            if other.network.version != self.address.version:
+                return False
             return int(other.network.network_address) & ~int(self.wildcard) == int(self.address) & int(
                 other.network.netmask
             ) & ~int(self.wildcard)
-- 
2.43.0


From 28d1af7e092475af5077d577c22a97686c819be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:07 +0000
Subject: [PATCH 15/43] fix: collapse() of network groups

It rejected expanded groups containing hosts, modified the original when
asked for a copy, dropped any, and failed on objects or IPv6 next to IPv4.
---
 lib/acltk/aclObjects.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index 34443c9..7a815ff 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -615,30 +615,32 @@ class NetworkGroup(_Group):
 
         :return: collapsed NetworkGroup
         """
-        # expansion required?
-        if any(filter(lambda o: not isinstance(o, (Network, NetworkObject)), self.objects)):
-            if insitu:
+        if insitu:
+            # expansion required?
+            if any(filter(lambda o: isinstance(o, (NetworkGroup, NetworkObject)), self.objects)):
                 raise ValueError("expansion required")
-            obj = self.expand(insitu)
-        else:
             obj = self
+        else:
+            obj = self.expand(insitu)
         return obj._collapse()
 
     def _collapse(self):
-        # FIXME - remove NetworkAny
-        if any(filter(lambda o: isinstance(o, (NetworkAny, NetworkAny4, NetworkAny6)), self.objects)):
-            self.objects = list(
-                filter(lambda o: not isinstance(o, (NetworkAny, NetworkAny4, NetworkAny6)), self.objects)
-            )
+        # any can not be collapsed
+        wild = [h for h in self.objects if isinstance(h, (NetworkAny, NetworkAny4, NetworkAny6))]
 
         # NetworkGroup is assumed to be expanded, contains only Network and NetworkHost
         addresses = [
-            {Network: lambda x: x.network, NetworkHost: lambda x: x.address}[h.__class__](h) for h in self.objects
+            {Network: lambda x: x.network, NetworkHost: lambda x: x.address}[h.__class__](h)
+            for h in self.objects
+            if h not in wild
         ]
 
-        self.objects.clear()
+        self.objects = wild
 
-        for h in ipaddress.collapse_addresses(addresses):
+        # the versions have to be collapsed one by one
+        for h in itertools.chain.from_iterable(
+            ipaddress.collapse_addresses([a for a in addresses if a.version == version]) for version in (4, 6)
+        ):
             if not isinstance(h, (ipaddress.IPv4Network, ipaddress.IPv6Network)):
                 raise ValueError(f"unexpected type {h}")
             if h.num_addresses > 1:
-- 
2.43.0


From 62df62ea6f2ef23eac00e3f58877ab4b0db05b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:07 +0000
Subject: [PATCH 16/43] fix: sort(insitu=False) of groups

Protocol- and ServiceGroup have no collapse(), and a NetworkGroup lost
the expanded members. Sort an expanded copy, as PortGroup does.
---
 lib/acltk/aclObjects.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index 7a815ff..e5cd573 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -312,9 +312,9 @@ class ProtocolGroup(_Group):
         if insitu:
             obj = self
         else:
-            obj = self.collapse(insitu=False)
+            obj = self.expand(insitu=False)
 
-        obj.objects = sorted(self.objects, key=ProtocolGroup.key_of)
+        obj.objects = sorted(obj.objects, key=ProtocolGroup.key_of)
 
         return obj
 
@@ -669,9 +669,9 @@ class NetworkGroup(_Group):
         if insitu:
             obj = self
         else:
-            obj = self.collapse(insitu=False)
+            obj = self.expand(insitu=False)
 
-        obj.objects = sorted(self.objects, key=NetworkGroup.key_of)
+        obj.objects = sorted(obj.objects, key=NetworkGroup.key_of)
 
         return obj
 
@@ -742,9 +742,9 @@ class ServiceGroup(_Group):
         if insitu:
             obj = self
         else:
-            obj = self.collapse(insitu=False)
+            obj = self.expand(insitu=False)
 
-        obj.objects = sorted(self.objects, key=ServiceGroup.key_of)
+        obj.objects = sorted(obj.objects, key=ServiceGroup.key_of)
         return obj
 
     def expand(self, insitu=True):
-- 
2.43.0


From 19da4689892f2d4ebf67294bbed8ad0eb0e0e257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 17/43] fix: reject protocol numbers above 255 in protocol
 groups

They were rejected everywhere else already.
---
 lib/acltk/aclSemantics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/acltk/aclSemantics.py b/lib/acltk/aclSemantics.py
index 2c754c7..e80ae40 100644
--- a/lib/acltk/aclSemantics.py
+++ b/lib/acltk/aclSemantics.py
@@ -294,6 +294,8 @@ class aclSemantics:
     def protocol_group_object(self, ast):
         assert ast.type is not None, "object type is None"
         if ast.type == "protocol-object":
+            if ast.name.isdigit():
+                return self.protocol_int(ast.name)
             return Protocol(ast.name)
         elif ast.type == "group-object":
             return ast.group
-- 
2.43.0


From 58959e2e57d77f17accbb8d0f5d77c0770cf95c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 18/43] fix: order of the services of dynamic twice NAT

As documented in the grammar, the mapped destination service comes first.
---
 lib/acltk/fwsmSemantics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/acltk/fwsmSemantics.py b/lib/acltk/fwsmSemantics.py
index a984009..224661e 100644
--- a/lib/acltk/fwsmSemantics.py
+++ b/lib/acltk/fwsmSemantics.py
@@ -113,8 +113,9 @@ class fwsmSemantics(aclSemantics):
                     raise ValueError("unexpected")
                 # For identity port translation, simply use the same service object for both the real and mapped ports (source and / or destination ports, depending on your configuration).
             elif ast.src["mapped"].type == "dynamic":
-                real["service"] = ast.service[2]
-                mapped["service"] = ast.service[4]
+                # service mapped_dest_svc_obj real_dest_svc_obj
+                mapped["service"] = ast.service[2]
+                real["service"] = ast.service[4]
             else:
                 raise ValueError(ast.src["mapped"].type)
 
-- 
2.43.0


From bb413d866349d5d9d4ca3c21007ce403253ee7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:52 +0000
Subject: [PATCH 19/43] fix: pfSense separators of interfaces whose rules are
 not adjacent

---
 lib/acltk/pfsenseSemantics.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index b5a8340..6e49159 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -217,18 +217,15 @@ class pfsenseParser(aclParser):
                             ACLCaption(bg=values["color"], text=html.parser.unescape(values["text"]))
                         )
 
-                ifname = None
-                last = 0
-                sidx = 0
-                for idx, rule in enumerate(ast):
-                    if rule.id != ifname:
-                        last = idx
-                        ifname = rule.id
-                    sidx = idx - last
+                # the rows of an interface count its rules, wherever they are
+                rows = collections.Counter()
+                for rule in ast:
+                    sidx = rows[rule.id]
+                    rows[rule.id] += 1
 
-                    if ifname in separators:
-                        if sidx in separators[ifname]:
-                            ast[idx].head = separators[ifname][sidx]
+                    if rule.id in separators:
+                        if sidx in separators[rule.id]:
+                            rule.head = separators[rule.id][sidx]
             else:
                 raise ValueError(i.tag)
         return ast
-- 
2.43.0


From 01750af8231290100b88fbef084f475005538b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:15 +0000
Subject: [PATCH 20/43] fix: log-input, mobility-type and routing-type of IOS
 IPv6 access lists

---
 lib/acltk/ios.bnf |  6 +++---
 lib/acltk/ios.py  | 17 +++++++++--------
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/lib/acltk/ios.bnf b/lib/acltk/ios.bnf
index 7f3950b..d35e1c8 100644
--- a/lib/acltk/ios.bnf
+++ b/lib/acltk/ios.bnf
@@ -126,12 +126,12 @@ ipv6_access_list_rule_option
 	| type:"dscp" WS value:identifier
 	| type:"flow-label" WS value:identifier
 	| type:"fragments"
-	| type:"log"
 	| type:"log-input"
+	| type:"log"
+	| type:"mobility-type" WS value:int
 	| type:"mobility"
-	| type:"mobility-type" value:int
+	| type:"routing-type" WS value:int
 	| type:"routing"
-	| type:"routing-type" [value:int]
 	| type:"time-range" WS value:identifier
 	;
 
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 082253b..f32761f 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -2975,31 +2975,32 @@ class iosParser(Parser):
             with self._option():
                 self._token('fragments')
                 self.name_last_node('type')
-            with self._option():
-                self._token('log')
-                self.name_last_node('type')
             with self._option():
                 self._token('log-input')
                 self.name_last_node('type')
             with self._option():
-                self._token('mobility')
+                self._token('log')
                 self.name_last_node('type')
             with self._option():
                 self._token('mobility-type')
                 self.name_last_node('type')
+                self._WS_()
                 self._int_()
                 self.name_last_node('value')
                 self._define(['type', 'value'], [])
             with self._option():
-                self._token('routing')
+                self._token('mobility')
                 self.name_last_node('type')
             with self._option():
                 self._token('routing-type')
                 self.name_last_node('type')
-                with self._optional():
-                    self._int_()
-                    self.name_last_node('value')
+                self._WS_()
+                self._int_()
+                self.name_last_node('value')
                 self._define(['type', 'value'], [])
+            with self._option():
+                self._token('routing')
+                self.name_last_node('type')
             with self._option():
                 self._token('time-range')
                 self.name_last_node('type')
-- 
2.43.0


From e7044a5eda17bccbf051ad0c78f2d9d3d26dfa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:42 +0000
Subject: [PATCH 21/43] fix: accept whitespace at the end of ASA access list
 entries

---
 lib/acltk/aclSemantics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/acltk/aclSemantics.py b/lib/acltk/aclSemantics.py
index e80ae40..9e4b508 100644
--- a/lib/acltk/aclSemantics.py
+++ b/lib/acltk/aclSemantics.py
@@ -360,6 +360,9 @@ class aclSemantics:
     def acl_options(self, ast):
         r = {}
         for i in ast:
+            if i is None:
+                # whitespace at the end of the line
+                continue
             assert i.type is None or i.type in frozenset(
                 ["log", "time-range", "inactive"]
             ), f"option {i.type} is unknown"
-- 
2.43.0


From cd4c36449278c7b05e2b3c8a53b603e8d7e75501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:51 +0000
Subject: [PATCH 22/43] fix: collapse() of IPv6 networks

---
 lib/acltk/aclObjects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index e5cd573..f0bdc4e 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -644,7 +644,7 @@ class NetworkGroup(_Group):
             if not isinstance(h, (ipaddress.IPv4Network, ipaddress.IPv6Network)):
                 raise ValueError(f"unexpected type {h}")
             if h.num_addresses > 1:
-                h_ = Network(h.network_address, h.netmask)
+                h_ = Network(h.network_address, h.prefixlen)
             else:
                 h_ = NetworkHost(h.network_address)
             self.add(h_)
-- 
2.43.0


From dce2cdcc0da729fa6fb38f576649be09c51496d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:54 +0000
Subject: [PATCH 23/43] fix: the remarks of other access lists were taken for
 those of a rule

---
 lib/acltk/fwsm.bnf         | 2 +-
 lib/acltk/fwsm.py          | 3 ++-
 lib/acltk/fwsmSemantics.py | 4 +++-
 lib/acltk/ios.bnf          | 2 +-
 lib/acltk/ios.py           | 3 ++-
 lib/acltk/iosSemantics.py  | 8 ++++++--
 6 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/lib/acltk/fwsm.bnf b/lib/acltk/fwsm.bnf
index 3e25691..d4b027a 100644
--- a/lib/acltk/fwsm.bnf
+++ b/lib/acltk/fwsm.bnf
@@ -80,7 +80,7 @@ access_list
 
 
 access_list_remark
-	= 'access-list' WS acl_id WS 'remark' SP remark:remark NL
+	= 'access-list' WS id:acl_id WS 'remark' SP remark:remark NL
 	;
 
 access_group
diff --git a/lib/acltk/fwsm.py b/lib/acltk/fwsm.py
index a2dfd85..f8e30c5 100644
--- a/lib/acltk/fwsm.py
+++ b/lib/acltk/fwsm.py
@@ -3303,13 +3303,14 @@ class fwsmParser(Parser):
         self._token('access-list')
         self._WS_()
         self._acl_id_()
+        self.name_last_node('id')
         self._WS_()
         self._token('remark')
         self._SP_()
         self._remark_()
         self.name_last_node('remark')
         self._NL_()
-        self._define(['remark'], [])
+        self._define(['id', 'remark'], [])
 
     @tatsumasu()
     def _access_group_(self):
diff --git a/lib/acltk/fwsmSemantics.py b/lib/acltk/fwsmSemantics.py
index 224661e..5d776be 100644
--- a/lib/acltk/fwsmSemantics.py
+++ b/lib/acltk/fwsmSemantics.py
@@ -35,7 +35,9 @@ class fwsmSemantics(aclSemantics):
         if ast.remark:
             remark = []
             for i in ast.remark:
-                remark.append(i.remark)
+                # the remarks of other lists are none of this rule
+                if i.id == ast.id:
+                    remark.append(i.remark)
             del ast["remark"]
             ast["remark"] = remark
 
diff --git a/lib/acltk/ios.bnf b/lib/acltk/ios.bnf
index d35e1c8..0b042b3 100644
--- a/lib/acltk/ios.bnf
+++ b/lib/acltk/ios.bnf
@@ -265,7 +265,7 @@ access_list_ip_standard
 	;
 
 access_list_remark
-	= 'access-list' WS acl_id WS 'remark' WS remark:remark NL
+	= 'access-list' WS id:acl_id WS 'remark' WS remark:remark NL
 	;
 
 access_list
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index f32761f..65db2d8 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -3782,13 +3782,14 @@ class iosParser(Parser):
         self._token('access-list')
         self._WS_()
         self._acl_id_()
+        self.name_last_node('id')
         self._WS_()
         self._token('remark')
         self._WS_()
         self._remark_()
         self.name_last_node('remark')
         self._NL_()
-        self._define(['remark'], [])
+        self._define(['id', 'remark'], [])
 
     @tatsumasu()
     def _access_list_(self):
diff --git a/lib/acltk/iosSemantics.py b/lib/acltk/iosSemantics.py
index fb1d20f..148b9ce 100644
--- a/lib/acltk/iosSemantics.py
+++ b/lib/acltk/iosSemantics.py
@@ -125,7 +125,9 @@ class iosSemantics(aclSemantics):
         if ast.remark:
             remark = []
             for i in ast.remark:
-                remark.append(i.remark)
+                # the remarks of other lists are none of this rule
+                if i.id == ast.id:
+                    remark.append(i.remark)
             del ast["remark"]
             ast["remark"] = remark
         return self.access_list_ip_standard_rule(ast)
@@ -149,7 +151,9 @@ class iosSemantics(aclSemantics):
         if ast.remark:
             remark = []
             for i in ast.remark:
-                remark.append(i.remark)
+                # the remarks of other lists are none of this rule
+                if i.id == ast.id:
+                    remark.append(i.remark)
             del ast["remark"]
             ast["remark"] = remark
         return self.access_list_ip_extended_rule(ast)
-- 
2.43.0


From d5fa9fa8aa7db8b015401bca0ef9aa6223c497c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:09 +0000
Subject: [PATCH 24/43] fix: IOS access lists ending with a remark were
 rejected

---
 lib/acltk/ios.bnf |  5 +++--
 lib/acltk/ios.py  | 19 +++++++++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/lib/acltk/ios.bnf b/lib/acltk/ios.bnf
index 0b042b3..464c092 100644
--- a/lib/acltk/ios.bnf
+++ b/lib/acltk/ios.bnf
@@ -37,6 +37,7 @@ command
 	| interface
 	| object_group
 	| access_list
+	| {access_list_remark}+
 	| ip
 	| ipv6
 	| ignored
@@ -177,8 +178,8 @@ ip_route
 
 ip_access_list
 	(* ip access-list { { standard | extended } { access-list-name | access-list-number } | helper egress check } *)
-	= type:"standard" WS name:obj_name NL objects:{ip_access_list_standard}*
-	| type:"extended" WS name:obj_name NL objects:{ip_access_list_extended}*
+	= type:"standard" WS name:obj_name NL objects:{ip_access_list_standard}* {SP ip_access_list_remark}*
+	| type:"extended" WS name:obj_name NL objects:{ip_access_list_extended}* {SP ip_access_list_remark}*
 	;
 
 ip_access_list_standard_rule_option
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 65db2d8..be4b460 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -2626,6 +2626,11 @@ class iosParser(Parser):
             with self._option():
                 self._access_list_()
             with self._option():
+
+                def block0():
+                    self._access_list_remark_()
+                self._positive_closure(block0)
+            with self._option():
                 self._ip_()
             with self._option():
                 self._ipv6_()
@@ -3191,6 +3196,11 @@ class iosParser(Parser):
                     self._ip_access_list_standard_()
                 self._closure(block0)
                 self.name_last_node('objects')
+
+                def block1():
+                    self._SP_()
+                    self._ip_access_list_remark_()
+                self._closure(block1)
                 self._define(['name', 'objects', 'type'], [])
             with self._option():
                 self._token('extended')
@@ -3200,10 +3210,15 @@ class iosParser(Parser):
                 self.name_last_node('name')
                 self._NL_()
 
-                def block1():
+                def block2():
                     self._ip_access_list_extended_()
-                self._closure(block1)
+                self._closure(block2)
                 self.name_last_node('objects')
+
+                def block3():
+                    self._SP_()
+                    self._ip_access_list_remark_()
+                self._closure(block3)
                 self._define(['name', 'objects', 'type'], [])
             self._error(
                 'expecting one of: '
-- 
2.43.0


From e1101081603b1e754dd81e6ad8438c07f67860b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:11 +0000
Subject: [PATCH 25/43] fix: numeric values of the options of IOS access lists

---
 lib/acltk/ios.bnf | 12 ++++-----
 lib/acltk/ios.py  | 66 ++++++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 66 insertions(+), 12 deletions(-)

diff --git a/lib/acltk/ios.bnf b/lib/acltk/ios.bnf
index 464c092..5b93de7 100644
--- a/lib/acltk/ios.bnf
+++ b/lib/acltk/ios.bnf
@@ -123,9 +123,9 @@ undetermined-transport
 	;
 
 ipv6_access_list_rule_option
-	= type:"dest-option-type" WS value:identifier
-	| type:"dscp" WS value:identifier
-	| type:"flow-label" WS value:identifier
+	= type:"dest-option-type" WS value:(identifier|int)
+	| type:"dscp" WS value:(identifier|int)
+	| type:"flow-label" WS value:(identifier|int)
 	| type:"fragments"
 	| type:"log-input"
 	| type:"log"
@@ -226,9 +226,9 @@ ip_access_list_standard
 	;
 
 ip_access_list_extended_rule_option
-	= type:"precedence" WS value:identifier
-	| type:"dscp" WS value:identifier
-	| type:"tos" WS value:identifier
+	= type:"precedence" WS value:(identifier|int)
+	| type:"dscp" WS value:(identifier|int)
+	| type:"tos" WS value:(identifier|int)
 	| type:"time-range" WS value:identifier
 	| type:"fragments"
 	| type:"log-input" [WS value:identifier]
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index be4b460..a6fec00 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -2960,21 +2960,48 @@ class iosParser(Parser):
                 self._token('dest-option-type')
                 self.name_last_node('type')
                 self._WS_()
-                self._identifier_()
+                with self._group():
+                    with self._choice():
+                        with self._option():
+                            self._identifier_()
+                        with self._option():
+                            self._int_()
+                        self._error(
+                            'expecting one of: '
+                            '<identifier> <int>'
+                        )
                 self.name_last_node('value')
                 self._define(['type', 'value'], [])
             with self._option():
                 self._token('dscp')
                 self.name_last_node('type')
                 self._WS_()
-                self._identifier_()
+                with self._group():
+                    with self._choice():
+                        with self._option():
+                            self._identifier_()
+                        with self._option():
+                            self._int_()
+                        self._error(
+                            'expecting one of: '
+                            '<identifier> <int>'
+                        )
                 self.name_last_node('value')
                 self._define(['type', 'value'], [])
             with self._option():
                 self._token('flow-label')
                 self.name_last_node('type')
                 self._WS_()
-                self._identifier_()
+                with self._group():
+                    with self._choice():
+                        with self._option():
+                            self._identifier_()
+                        with self._option():
+                            self._int_()
+                        self._error(
+                            'expecting one of: '
+                            '<identifier> <int>'
+                        )
                 self.name_last_node('value')
                 self._define(['type', 'value'], [])
             with self._option():
@@ -3424,21 +3451,48 @@ class iosParser(Parser):
                 self._token('precedence')
                 self.name_last_node('type')
                 self._WS_()
-                self._identifier_()
+                with self._group():
+                    with self._choice():
+                        with self._option():
+                            self._identifier_()
+                        with self._option():
+                            self._int_()
+                        self._error(
+                            'expecting one of: '
+                            '<identifier> <int>'
+                        )
                 self.name_last_node('value')
                 self._define(['type', 'value'], [])
             with self._option():
                 self._token('dscp')
                 self.name_last_node('type')
                 self._WS_()
-                self._identifier_()
+                with self._group():
+                    with self._choice():
+                        with self._option():
+                            self._identifier_()
+                        with self._option():
+                            self._int_()
+                        self._error(
+                            'expecting one of: '
+                            '<identifier> <int>'
+                        )
                 self.name_last_node('value')
                 self._define(['type', 'value'], [])
             with self._option():
                 self._token('tos')
                 self.name_last_node('type')
                 self._WS_()
-                self._identifier_()
+                with self._group():
+                    with self._choice():
+                        with self._option():
+                            self._identifier_()
+                        with self._option():
+                            self._int_()
+                        self._error(
+                            'expecting one of: '
+                            '<identifier> <int>'
+                        )
                 self.name_last_node('value')
                 self._define(['type', 'value'], [])
             with self._option():
-- 
2.43.0


From 5e50670772e155bb7c5ea9d32997afd058223008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:01 +0000
Subject: [PATCH 26/43] fix: named protocols of service objects

---
 lib/acltk/acl.bnf |  2 +-
 lib/acltk/fwsm.py | 11 ++++++++++-
 lib/acltk/ios.py  | 11 ++++++++++-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/lib/acltk/acl.bnf b/lib/acltk/acl.bnf
index 0407cb4..10724c9 100644
--- a/lib/acltk/acl.bnf
+++ b/lib/acltk/acl.bnf
@@ -331,7 +331,7 @@ pat_pool
 service_object
 	= type:"service" WS protocol:protocol_icmp [WS icmp_type:icmp_type [WS icmp_code:icmp_code_int]] NL
 	| type:"service" WS protocol:protocol_tcp_udp [WS] src:service_object_source [WS] dst:service_object_destination [WS] NL
-	| type:"service" WS protocol:protocol_int NL
+	| type:"service" WS protocol:(protocol_code|protocol_int) NL
 	;
 
 service_object_op
diff --git a/lib/acltk/fwsm.py b/lib/acltk/fwsm.py
index f8e30c5..ee0cfea 100644
--- a/lib/acltk/fwsm.py
+++ b/lib/acltk/fwsm.py
@@ -1315,7 +1315,16 @@ class fwsmParser(Parser):
                 self._token('service')
                 self.name_last_node('type')
                 self._WS_()
-                self._protocol_int_()
+                with self._group():
+                    with self._choice():
+                        with self._option():
+                            self._protocol_code_()
+                        with self._option():
+                            self._protocol_int_()
+                        self._error(
+                            'expecting one of: '
+                            '<protocol_code> <protocol_int>'
+                        )
                 self.name_last_node('protocol')
                 self._NL_()
                 self._define(['protocol', 'type'], [])
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index a6fec00..6438538 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -1315,7 +1315,16 @@ class iosParser(Parser):
                 self._token('service')
                 self.name_last_node('type')
                 self._WS_()
-                self._protocol_int_()
+                with self._group():
+                    with self._choice():
+                        with self._option():
+                            self._protocol_code_()
+                        with self._option():
+                            self._protocol_int_()
+                        self._error(
+                            'expecting one of: '
+                            '<protocol_code> <protocol_int>'
+                        )
                 self.name_last_node('protocol')
                 self._NL_()
                 self._define(['protocol', 'type'], [])
-- 
2.43.0


From 76cc42f9d4afe2b8e0e6a5ea60f4c6d660f25ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:41 +0000
Subject: [PATCH 27/43] fix: network objects with a description only

---
 lib/acltk/acl.bnf |  3 ++-
 lib/acltk/fwsm.py | 17 +++++++++++++++++
 lib/acltk/ios.py  | 17 +++++++++++++++++
 3 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/acl.bnf b/lib/acltk/acl.bnf
index 10724c9..724acc6 100644
--- a/lib/acltk/acl.bnf
+++ b/lib/acltk/acl.bnf
@@ -218,7 +218,8 @@ object
 	;
 
 object_type
-	= type:"network" WS name:obj_name [NL SP args:network_object] [SP nat:network_object_nat] [SP >description]
+	= type:"network" WS name:obj_name NL args:() SP >description
+	| type:"network" WS name:obj_name [NL SP args:network_object] [SP nat:network_object_nat] [SP >description]
 	| type:"service" WS name:obj_name [NL SP args:service_object] [SP >description]
 	;
 
diff --git a/lib/acltk/fwsm.py b/lib/acltk/fwsm.py
index ee0cfea..e9dc372 100644
--- a/lib/acltk/fwsm.py
+++ b/lib/acltk/fwsm.py
@@ -843,6 +843,23 @@ class fwsmParser(Parser):
     @tatsumasu()
     def _object_type_(self):
         with self._choice():
+            with self._option():
+                self._token('network')
+                self.name_last_node('type')
+                self._WS_()
+                self._obj_name_()
+                self.name_last_node('name')
+                self._NL_()
+                self._void()
+                self.name_last_node('args')
+                self._SP_()
+                self._token('description')
+                self._WS_()
+                self._pattern('[^\\n]+')
+                self.name_last_node('description')
+                self._NL_()
+                self._define(['description'], [])
+                self._define(['args', 'description', 'name', 'type'], [])
             with self._option():
                 self._token('network')
                 self.name_last_node('type')
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 6438538..032d0c1 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -843,6 +843,23 @@ class iosParser(Parser):
     @tatsumasu()
     def _object_type_(self):
         with self._choice():
+            with self._option():
+                self._token('network')
+                self.name_last_node('type')
+                self._WS_()
+                self._obj_name_()
+                self.name_last_node('name')
+                self._NL_()
+                self._void()
+                self.name_last_node('args')
+                self._SP_()
+                self._token('description')
+                self._WS_()
+                self._pattern('[^\\n]+')
+                self.name_last_node('description')
+                self._NL_()
+                self._define(['description'], [])
+                self._define(['args', 'description', 'name', 'type'], [])
             with self._option():
                 self._token('network')
                 self.name_last_node('type')
-- 
2.43.0


From c317961ffc5c2389a4f781d2f2219cc4aa4184a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:50 +0000
Subject: [PATCH 28/43] fix: a DHCP pool of IOS ends with its indented lines

Everything up to the next line with a '!' was taken as part of the pool,
access lists and all, without a word.
---
 lib/acltk/ios.bnf | 2 +-
 lib/acltk/ios.py  | 8 +++-----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/acltk/ios.bnf b/lib/acltk/ios.bnf
index 5b93de7..96dcfd8 100644
--- a/lib/acltk/ios.bnf
+++ b/lib/acltk/ios.bnf
@@ -413,7 +413,7 @@ ip_ignored
 	| "nat" TOEOL NL
 	| "subnet-zero" NL
 	| "dhcp excluded-address" TOEOL NL
-	| "dhcp pool" {?/[^(!|\n)]*/? NL}*
+	| "dhcp pool" TOEOL NL ignored_indent
 	| "tcp" TOEOL NL
 	| "scp" TOEOL NL
 	| "ssh" TOEOL NL ignored_indent
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 032d0c1..628f155 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -4588,11 +4588,9 @@ class iosParser(Parser):
                 self._NL_()
             with self._option():
                 self._token('dhcp pool')
-
-                def block0():
-                    self._pattern('[^(!|\\n)]*')
-                    self._NL_()
-                self._closure(block0)
+                self._TOEOL_()
+                self._NL_()
+                self._ignored_indent_()
             with self._option():
                 self._token('tcp')
                 self._TOEOL_()
-- 
2.43.0


From 26753cd9c4e01ed719ddeff5341374188ee34e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:59 +0000
Subject: [PATCH 29/43] fix: accept the size line of a start-up configuration
 on IOS

The rule matched its words without the spaces between them, so that no
such line ever did, and the file was refused.
---
 lib/acltk/ios.bnf | 2 +-
 lib/acltk/ios.py  | 5 +----
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/lib/acltk/ios.bnf b/lib/acltk/ios.bnf
index 96dcfd8..c4283a0 100644
--- a/lib/acltk/ios.bnf
+++ b/lib/acltk/ios.bnf
@@ -393,7 +393,7 @@ ignored
 	| "system" TOEOL NL
 	| "transceiver" TOEOL NL ignored_indent
 	| "username" TOEOL NL
-	| "Using" int "out of" int "bytes" NL
+	| "Using" TOEOL NL
 	| "vlan" TOEOL NL ignored_indent
 	| "vpdn" TOEOL NL ignored_indent
 	| "vrf" TOEOL NL ignored_indent
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 628f155..0ef09ae 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -4492,10 +4492,7 @@ class iosParser(Parser):
                 self._NL_()
             with self._option():
                 self._token('Using')
-                self._int_()
-                self._token('out of')
-                self._int_()
-                self._token('bytes')
+                self._TOEOL_()
                 self._NL_()
             with self._option():
                 self._token('vlan')
-- 
2.43.0


From 3d03a5344cf0e1c43e9e6cb6009f47adbc907bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:47 +0000
Subject: [PATCH 30/43] fix: banners of IOS which end with a ^, or have a
 delimiter beyond ASCII

The text of the banner went past its end: '^^C' was read as '^^' and 'C',
and the pattern of other delimiters was made of their first byte.
---
 lib/acltk/iosSemantics.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/acltk/iosSemantics.py b/lib/acltk/iosSemantics.py
index 148b9ce..a6dcaf9 100644
--- a/lib/acltk/iosSemantics.py
+++ b/lib/acltk/iosSemantics.py
@@ -1,5 +1,6 @@
 from typing import Union, List
 import ipaddress
+import re
 
 from tatsu.parsing import tatsumasu
 
@@ -261,14 +262,13 @@ class iosParser(aclParser, _iosParser):
     def _delim_msg_(self):
         if self.delim == "^C":
             # not ^ or ^ not followed by C
-            self._pattern(r"([^^]|\^[^C])*")
+            self._pattern(r"(?:[^^]|\^(?!C))*")
         else:
-            p = r"[^\x{:02x}]*".format(int.from_bytes(self.delim.encode("utf-8"), byteorder="little"))
-            self._pattern(p)
+            self._pattern("[^{}]*".format(re.escape(self.delim)))
 
     @tatsumasu()
     def _delim_stop_(self):
         if self.delim == "^C":
             self._token("^C")
         else:
-            self._pattern(r"\x{:02x}".format(int.from_bytes(self.delim.encode("utf-8"), byteorder="little")))
+            self._pattern(re.escape(self.delim))
-- 
2.43.0


From ce53acafbbfab9a38db2a92256bf96e78b55ee0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:45 +0000
Subject: [PATCH 31/43] fix: URL tables of pfSense with the options common to
 all dialects

ACLConfig takes ACLParserOptions, but a pfSense configuration with a URL
table was refused with them.
---
 lib/acltk/pfsenseSemantics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index 6e49159..38fbca1 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -151,7 +151,8 @@ class pfsenseParser(aclParser):
                 g = NetworkGroup(values["name"], values["descr"])
                 self.network_groups[values["name"]] = g
 
-                if self._options.fetch_urltable:
+                # the options common to all dialects do not say
+                if getattr(self._options, "fetch_urltable", True):
                     try:
                         req = urllib.request.urlopen(values["url"])
                         data = req.read().decode("utf-8")
-- 
2.43.0


From 44fb043daf6c4cefaa28a5723f33d98c3f4ff0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:48 +0000
Subject: [PATCH 32/43] fix: a list bound to an interface again replaces the
 one before

---
 lib/acltk/aclObjects.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index f0bdc4e..ab11f2c 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -1246,6 +1246,9 @@ class ACLConfig:
                 for j in self.interfaces.values():
                     if j.nameif == i.iface:
                         i.iface = j
+                        # an interface has one list per direction, the last one given
+                        if i.direction in j.access_groups:
+                            self.access_groups[j.access_groups[i.direction].name].remove(j.access_groups[i.direction])
                         j.access_groups[i.direction] = i
                         self.access_groups[i.name].append(i)
                         break
-- 
2.43.0


From fd15268d48ca4229fad298e41f55a341afd7d149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:06 +0000
Subject: [PATCH 33/43] fix: pfSense configurations with a pppoe, pptp, l2tp or
 ppp interface, or one with an empty address, were refused

---
 lib/acltk/pfsenseSemantics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index 38fbca1..fbc75d1 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -86,8 +86,9 @@ class pfsenseParser(aclParser):
             for d in list(i):
                 values[d.tag] = d.text
             values["name"] = i.tag
-            if "ipaddr" in values:
-                if values["ipaddr"] != "dhcp":
+            # an address which is not static is not known
+            if values.get("ipaddr"):
+                if values["ipaddr"] not in ("dhcp", "pppoe", "pptp", "l2tp", "ppp"):
                     details = [
                         tatsu.ast.AST(
                             **{
-- 
2.43.0


From 06726a6587e9df07083114723e40f09daf1d0db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:22 +0000
Subject: [PATCH 34/43] fix: pfSense configurations with an interface of empty
 description were refused

---
 lib/acltk/pfsenseSemantics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index fbc75d1..8d27f6b 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -105,10 +105,10 @@ class pfsenseParser(aclParser):
             alias = i.tag
             if alias.startswith("opt"):
                 details.append(tatsu.ast.AST(**{"type": "description", "value": alias}))
-                alias = html.parser.unescape(values.get("descr", alias))
+                alias = html.parser.unescape(values.get("descr") or alias)
             else:
                 details.append(
-                    tatsu.ast.AST(**{"type": "description", "value": html.parser.unescape(values.get("descr", ""))})
+                    tatsu.ast.AST(**{"type": "description", "value": html.parser.unescape(values.get("descr") or "")})
                 )
 
             obj = Interface(alias=alias, details=details)
-- 
2.43.0


From 3bd1cf998af5c8c0e2c6ce62a32d071278921380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:22 +0000
Subject: [PATCH 35/43] fix: times with a fraction, as OPNsense has them, were
 refused

---
 lib/acltk/pfsenseSemantics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index 8d27f6b..23e5bf1 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -62,7 +62,7 @@ class pfsenseParser(aclParser):
         birth = None
         for i in list(root):
             if i.tag == "time":
-                birth = datetime.datetime.fromtimestamp(int(i.text))
+                birth = datetime.datetime.fromtimestamp(float(i.text))
                 break
         else:
             birth = datetime.datetime.now()
@@ -305,7 +305,7 @@ class pfsenseParser(aclParser):
             elif v.tag in ["created", "updated"]:
                 for n in list(v):
                     if n.tag == "time":
-                        values[v.tag] = datetime.datetime.fromtimestamp(int(n.text))
+                        values[v.tag] = datetime.datetime.fromtimestamp(float(n.text))
             elif v.tag == "icmptype":
                 icmp = ICMP(v.text, None)
             elif v.tag in frozenset(
-- 
2.43.0


From 3f8afdd2cb922c56629dda6907519978cf16f6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:22 +0000
Subject: [PATCH 36/43] fix: pfSense rules without a description were refused

---
 lib/acltk/pfsenseSemantics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index 23e5bf1..d14e323 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -244,6 +244,7 @@ class pfsenseParser(aclParser):
             "log": False,
             "statetype": "keep state",
             "floating": "no",
+            "descr": "",
         }
         valueable = [
             "tracker",
-- 
2.43.0


From c55da2b7db0eea2b08d6ca94e874b0c6840ac344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:22 +0000
Subject: [PATCH 37/43] fix: pfSense separators without a text were refused

---
 lib/acltk/pfsenseSemantics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index d14e323..3ff42ca 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -216,7 +216,7 @@ class pfsenseParser(aclParser):
                         # EXML - pfsense uses "fr{idx}" to denote the rows number
                         row = int(values["row"][2:])
                         separators[iface][row].append(
-                            ACLCaption(bg=values["color"], text=html.parser.unescape(values["text"]))
+                            ACLCaption(bg=values["color"], text=html.parser.unescape(values["text"] or ""))
                         )
 
                 # the rows of an interface count its rules, wherever they are
-- 
2.43.0


From f54b95182fa779916c3e5b7cc316d41c8486d103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:22 +0000
Subject: [PATCH 38/43] fix: the IPv6 addresses of pfSense interfaces were lost

---
 lib/acltk/pfsenseSemantics.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index 3ff42ca..80eaf59 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -102,6 +102,17 @@ class pfsenseParser(aclParser):
             else:
                 details = [tatsu.ast.AST(**{"type": "nameif", "value": values["if"]})]
 
+            # neither is an IPv6 address which is not static (dhcp6, track6, slaac, ...)
+            if ":" in (values.get("ipaddrv6") or ""):
+                details.append(
+                    tatsu.ast.AST(
+                        **{
+                            "type": ["ipv6", None, "address"],
+                            "value": [values["ipaddrv6"], None, values["subnetv6"]],
+                        }
+                    )
+                )
+
             alias = i.tag
             if alias.startswith("opt"):
                 details.append(tatsu.ast.AST(**{"type": "description", "value": alias}))
-- 
2.43.0


From f9bbcc21ccbba8d1cca425cdf0d529773f1dbbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:47 +0000
Subject: [PATCH 39/43] fix: access lists logging with level informational,
 errors, alerts or emergencies were refused

---
 lib/acltk/acl.bnf |  2 +-
 lib/acltk/fwsm.py | 21 ++++++++++++++++-----
 lib/acltk/ios.py  | 21 ++++++++++++++++-----
 3 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/lib/acltk/acl.bnf b/lib/acltk/acl.bnf
index 724acc6..38dbd41 100644
--- a/lib/acltk/acl.bnf
+++ b/lib/acltk/acl.bnf
@@ -199,7 +199,7 @@ acl_option
 (* access-list access_list_name [extended] {deny|permit}...[log [[level] [interval secs] |disable|default]] *)
 
 acl_option_log_option
-	= ("debugging"|"disable"|"default"|"notifications"|"warnings"|"critical")
+	= ("debugging"|"disable"|"default"|"informational"|"notifications"|"warnings"|"errors"|"critical"|"alerts"|"emergencies")
 	| "interval" WS int
 	| ("0"|"1"|"2"|"3"|"4"|"5"|"6"|"7")
 	| ()
diff --git a/lib/acltk/fwsm.py b/lib/acltk/fwsm.py
index e9dc372..a12a2a3 100644
--- a/lib/acltk/fwsm.py
+++ b/lib/acltk/fwsm.py
@@ -777,16 +777,26 @@ class fwsmParser(Parser):
                             self._token('disable')
                         with self._option():
                             self._token('default')
+                        with self._option():
+                            self._token('informational')
                         with self._option():
                             self._token('notifications')
                         with self._option():
                             self._token('warnings')
+                        with self._option():
+                            self._token('errors')
                         with self._option():
                             self._token('critical')
+                        with self._option():
+                            self._token('alerts')
+                        with self._option():
+                            self._token('emergencies')
                         self._error(
                             'expecting one of: '
-                            "'critical' 'debugging' 'default'"
-                            "'disable' 'notifications' 'warnings'"
+                            "'alerts' 'critical' 'debugging'"
+                            "'default' 'disable' 'emergencies'"
+                            "'errors' 'informational' 'notifications'"
+                            "'warnings'"
                         )
             with self._option():
                 self._token('interval')
@@ -819,10 +829,11 @@ class fwsmParser(Parser):
                 self._void()
             self._error(
                 'expecting one of: '
-                "'0' '1' '2' '3' '4' '5' '6' '7'"
+                "'0' '1' '2' '3' '4' '5' '6' '7' 'alerts'"
                 "'critical' 'debugging' 'default'"
-                "'disable' 'interval' 'notifications'"
-                "'warnings'"
+                "'disable' 'emergencies' 'errors'"
+                "'informational' 'interval'"
+                "'notifications' 'warnings'"
             )
 
     @tatsumasu()
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 0ef09ae..eb6972a 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -777,16 +777,26 @@ class iosParser(Parser):
                             self._token('disable')
                         with self._option():
                             self._token('default')
+                        with self._option():
+                            self._token('informational')
                         with self._option():
                             self._token('notifications')
                         with self._option():
                             self._token('warnings')
+                        with self._option():
+                            self._token('errors')
                         with self._option():
                             self._token('critical')
+                        with self._option():
+                            self._token('alerts')
+                        with self._option():
+                            self._token('emergencies')
                         self._error(
                             'expecting one of: '
-                            "'critical' 'debugging' 'default'"
-                            "'disable' 'notifications' 'warnings'"
+                            "'alerts' 'critical' 'debugging'"
+                            "'default' 'disable' 'emergencies'"
+                            "'errors' 'informational' 'notifications'"
+                            "'warnings'"
                         )
             with self._option():
                 self._token('interval')
@@ -819,10 +829,11 @@ class iosParser(Parser):
                 self._void()
             self._error(
                 'expecting one of: '
-                "'0' '1' '2' '3' '4' '5' '6' '7'"
+                "'0' '1' '2' '3' '4' '5' '6' '7' 'alerts'"
                 "'critical' 'debugging' 'default'"
-                "'disable' 'interval' 'notifications'"
-                "'warnings'"
+                "'disable' 'emergencies' 'errors'"
+                "'informational' 'interval'"
+                "'notifications' 'warnings'"
             )
 
     @tatsumasu()
-- 
2.43.0


From 6dc90ca1675ff0285121a86999d218f1275ad5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:25 +0000
Subject: [PATCH 40/43] fix: time ranges of several days of the week were
 refused

---
 lib/acltk/acl.bnf |  2 +-
 lib/acltk/fwsm.py | 16 +++++++++++++---
 lib/acltk/ios.py  | 16 +++++++++++++---
 3 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/lib/acltk/acl.bnf b/lib/acltk/acl.bnf
index 38dbd41..c1d1b74 100644
--- a/lib/acltk/acl.bnf
+++ b/lib/acltk/acl.bnf
@@ -448,7 +448,7 @@ timedate
 	;
 
 time_range_object
-	= type:"periodic" WS days:{day_of_the_week}+ WS start:time WS "to" WS edays:[day_of_the_week WS] end:time NL
+	= type:"periodic" WS days+:day_of_the_week {WS days+:day_of_the_week}* WS start:time WS "to" WS edays:[day_of_the_week WS] end:time NL
 	| type:"periodic" WS days+:("weekdays"|"weekend"|"daily") WS start:time WS "to" WS end:time NL
 	| type:"absolute" [WS "start" WS start:timedate] [WS "end" WS end:timedate] NL
 	| type:"no" WS TOEOL NL
diff --git a/lib/acltk/fwsm.py b/lib/acltk/fwsm.py
index a12a2a3..8a04dce 100644
--- a/lib/acltk/fwsm.py
+++ b/lib/acltk/fwsm.py
@@ -1990,11 +1990,18 @@ class fwsmParser(Parser):
                 self._token('periodic')
                 self.name_last_node('type')
                 self._WS_()
+                self._day_of_the_week_()
+                self.add_last_node_to_name('days')
 
                 def block0():
+                    self._WS_()
                     self._day_of_the_week_()
-                self._positive_closure(block0)
-                self.name_last_node('days')
+                    self.add_last_node_to_name('days')
+                    self._define(
+                        [],
+                        ['days'],
+                    )
+                self._closure(block0)
                 self._WS_()
                 self._time_()
                 self.name_last_node('start')
@@ -2008,7 +2015,10 @@ class fwsmParser(Parser):
                 self._time_()
                 self.name_last_node('end')
                 self._NL_()
-                self._define(['days', 'edays', 'end', 'start', 'type'], [])
+                self._define(
+                    ['edays', 'end', 'start', 'type'],
+                    ['days'],
+                )
             with self._option():
                 self._token('periodic')
                 self.name_last_node('type')
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index eb6972a..55b5460 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -2015,11 +2015,18 @@ class iosParser(Parser):
                 self._token('periodic')
                 self.name_last_node('type')
                 self._WS_()
+                self._day_of_the_week_()
+                self.add_last_node_to_name('days')
 
                 def block0():
+                    self._WS_()
                     self._day_of_the_week_()
-                self._positive_closure(block0)
-                self.name_last_node('days')
+                    self.add_last_node_to_name('days')
+                    self._define(
+                        [],
+                        ['days'],
+                    )
+                self._closure(block0)
                 self._WS_()
                 self._time_()
                 self.name_last_node('start')
@@ -2033,7 +2040,10 @@ class iosParser(Parser):
                 self._time_()
                 self.name_last_node('end')
                 self._NL_()
-                self._define(['days', 'edays', 'end', 'start', 'type'], [])
+                self._define(
+                    ['edays', 'end', 'start', 'type'],
+                    ['days'],
+                )
             with self._option():
                 self._token('periodic')
                 self.name_last_node('type')
-- 
2.43.0


From cce8fa7afbbcd78ea80648595baa33ab184d2f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:40 +0000
Subject: [PATCH 41/43] fix: the domain name given by ip domain-name was lost

---
 lib/acltk/ios.bnf         |  2 +-
 lib/acltk/ios.py          | 33 ++++++++++++++++++++++++---------
 lib/acltk/iosSemantics.py |  2 +-
 3 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/lib/acltk/ios.bnf b/lib/acltk/ios.bnf
index c4283a0..ea6068c 100644
--- a/lib/acltk/ios.bnf
+++ b/lib/acltk/ios.bnf
@@ -161,7 +161,7 @@ ip
 
 ip_command
 	= cmd:"access-list" WS object:ip_access_list
-	| cmd:"domain name" WS name:obj_name
+	| cmd:("domain name"|"domain-name") WS name:obj_name &([WS] NL)
 	| cmd:"route" WS route:ip_route
 	| cmd:`None` ip_ignored
 	;
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 55b5460..f4df94e 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -3185,11 +3185,25 @@ class iosParser(Parser):
                 self.name_last_node('object')
                 self._define(['cmd', 'object'], [])
             with self._option():
-                self._token('domain name')
+                with self._group():
+                    with self._choice():
+                        with self._option():
+                            self._token('domain name')
+                        with self._option():
+                            self._token('domain-name')
+                        self._error(
+                            'expecting one of: '
+                            "'domain name' 'domain-name'"
+                        )
                 self.name_last_node('cmd')
                 self._WS_()
                 self._obj_name_()
                 self.name_last_node('name')
+                with self._if():
+                    with self._group():
+                        with self._optional():
+                            self._WS_()
+                        self._NL_()
                 self._define(['cmd', 'name'], [])
             with self._option():
                 self._token('route')
@@ -3208,14 +3222,15 @@ class iosParser(Parser):
                 "'access-list' 'accounting-threshold'"
                 "'as-path' 'cef' 'classless' 'default-"
                 "gateway' 'dhcp excluded-address' 'dhcp"
-                "pool' 'domain name' 'domain' 'flow-"
-                "aggregation' 'flow-cache' 'flow-export'"
-                "'flow-top-talkers' 'forward-protocol'"
-                "'ftp' 'host' 'http' 'inspect' 'ips'"
-                "'multicast-routing' 'name-server' 'nat'"
-                "'pim' 'prefix-list' 'route' 'routing'"
-                "'scp' 'sla' 'slb' 'ssh' 'subnet-zero'"
-                "'tcp' 'tftp' 'vrf' <ip_ignored>"
+                "pool' 'domain name' 'domain' 'domain-"
+                "name' 'flow-aggregation' 'flow-cache'"
+                "'flow-export' 'flow-top-talkers'"
+                "'forward-protocol' 'ftp' 'host' 'http'"
+                "'inspect' 'ips' 'multicast-routing'"
+                "'name-server' 'nat' 'pim' 'prefix-list'"
+                "'route' 'routing' 'scp' 'sla' 'slb'"
+                "'ssh' 'subnet-zero' 'tcp' 'tftp' 'vrf'"
+                '<ip_ignored>'
             )
 
     @tatsumasu()
diff --git a/lib/acltk/iosSemantics.py b/lib/acltk/iosSemantics.py
index a6dcaf9..59fa40a 100644
--- a/lib/acltk/iosSemantics.py
+++ b/lib/acltk/iosSemantics.py
@@ -66,7 +66,7 @@ class iosSemantics(aclSemantics):
     def ip_command(self, ast) -> Union[None, ACLRules, Route]:
         if ast.cmd == "access-list":
             return ast.object
-        elif ast.cmd == "domain name":
+        elif ast.cmd in ("domain name", "domain-name"):
             ast["domain_name"] = ast.name
             return ast
         elif ast.cmd == "route":
-- 
2.43.0


From c44d1de2c5bc2dd754f1b1c3b6cf5fd4f20f428c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:12 +0000
Subject: [PATCH 42/43] fix: host and domain names which begin with a digit or
 end in blanks were refused

---
 lib/acltk/acl.bnf |  6 ++++--
 lib/acltk/fwsm.py | 13 +++++++++++--
 lib/acltk/ios.py  | 13 +++++++++++--
 3 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/lib/acltk/acl.bnf b/lib/acltk/acl.bnf
index c1d1b74..7e3378b 100644
--- a/lib/acltk/acl.bnf
+++ b/lib/acltk/acl.bnf
@@ -7,15 +7,17 @@ identifier = ?/[a-zA-Z_][A-Za-z0-9_\-\.]*/?;
 int = ?/[0-9]+/?;
 string = ?/[\S]+/?;
 
+host_name = ?/[A-Za-z0-9_][A-Za-z0-9_\-\.]*/?;
+
 obj_name = ?/[A-Za-z0-9_\-\.+]*/?;
 
 
 hostname
-	= "hostname" WS hostname:identifier NL
+	= "hostname" WS hostname:host_name [WS] NL
 	;
 
 domain_name
-	= "domain-name" WS domain_name:identifier
+	= "domain-name" WS domain_name:host_name [WS] NL
 	;
 
 
diff --git a/lib/acltk/fwsm.py b/lib/acltk/fwsm.py
index 8a04dce..778b864 100644
--- a/lib/acltk/fwsm.py
+++ b/lib/acltk/fwsm.py
@@ -106,6 +106,10 @@ class fwsmParser(Parser):
     def _string_(self):
         self._pattern('[\\S]+')
 
+    @tatsumasu()
+    def _host_name_(self):
+        self._pattern('[A-Za-z0-9_][A-Za-z0-9_\\-\\.]*')
+
     @tatsumasu()
     def _obj_name_(self):
         self._pattern('[A-Za-z0-9_\\-\\.+]*')
@@ -114,8 +118,10 @@ class fwsmParser(Parser):
     def _hostname_(self):
         self._token('hostname')
         self._WS_()
-        self._identifier_()
+        self._host_name_()
         self.name_last_node('hostname')
+        with self._optional():
+            self._WS_()
         self._NL_()
         self._define(['hostname'], [])
 
@@ -123,8 +129,11 @@ class fwsmParser(Parser):
     def _domain_name_(self):
         self._token('domain-name')
         self._WS_()
-        self._identifier_()
+        self._host_name_()
         self.name_last_node('domain_name')
+        with self._optional():
+            self._WS_()
+        self._NL_()
         self._define(['domain_name'], [])
 
     @tatsumasu()
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index f4df94e..44cfa8f 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -106,6 +106,10 @@ class iosParser(Parser):
     def _string_(self):
         self._pattern('[\\S]+')
 
+    @tatsumasu()
+    def _host_name_(self):
+        self._pattern('[A-Za-z0-9_][A-Za-z0-9_\\-\\.]*')
+
     @tatsumasu()
     def _obj_name_(self):
         self._pattern('[A-Za-z0-9_\\-\\.+]*')
@@ -114,8 +118,10 @@ class iosParser(Parser):
     def _hostname_(self):
         self._token('hostname')
         self._WS_()
-        self._identifier_()
+        self._host_name_()
         self.name_last_node('hostname')
+        with self._optional():
+            self._WS_()
         self._NL_()
         self._define(['hostname'], [])
 
@@ -123,8 +129,11 @@ class iosParser(Parser):
     def _domain_name_(self):
         self._token('domain-name')
         self._WS_()
-        self._identifier_()
+        self._host_name_()
         self.name_last_node('domain_name')
+        with self._optional():
+            self._WS_()
+        self._NL_()
         self._define(['domain_name'], [])
 
     @tatsumasu()
-- 
2.43.0


From b58d0c6eadaf689849a5b620ba8bfb00e557e3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:41 +0000
Subject: [PATCH 43/43] fix: a domain name of IOS followed by blanks was
 refused

---
 lib/acltk/ios.bnf | 2 +-
 lib/acltk/ios.py  | 8 +++-----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/acltk/ios.bnf b/lib/acltk/ios.bnf
index ea6068c..5bd552a 100644
--- a/lib/acltk/ios.bnf
+++ b/lib/acltk/ios.bnf
@@ -161,7 +161,7 @@ ip
 
 ip_command
 	= cmd:"access-list" WS object:ip_access_list
-	| cmd:("domain name"|"domain-name") WS name:obj_name &([WS] NL)
+	| cmd:("domain name"|"domain-name") WS name:obj_name [WS] NL
 	| cmd:"route" WS route:ip_route
 	| cmd:`None` ip_ignored
 	;
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 44cfa8f..d28abc4 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -3208,11 +3208,9 @@ class iosParser(Parser):
                 self._WS_()
                 self._obj_name_()
                 self.name_last_node('name')
-                with self._if():
-                    with self._group():
-                        with self._optional():
-                            self._WS_()
-                        self._NL_()
+                with self._optional():
+                    self._WS_()
+                self._NL_()
                 self._define(['cmd', 'name'], [])
             with self._option():
                 self._token('route')
-- 
2.43.0

