From fffda92c7c185949bb471d49f8b05aacdac4f3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:18 +0000
Subject: [PATCH 01/15] fix: accept only certificates signed with the issuer's
 registered key

---
 hgaa/services/pauth.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hgaa/services/pauth.py b/hgaa/services/pauth.py
index 3cde23a..0239b29 100644
--- a/hgaa/services/pauth.py
+++ b/hgaa/services/pauth.py
@@ -5,6 +5,7 @@ from ladon.types.attachment import attachment
 from ladon.exceptions.service import ClientFault, ServerFault
 from Crypto.Random.random import getrandbits
 from Crypto.Hash import SHA256
+from Crypto.PublicKey import RSA
 import time
 import base64
 
@@ -198,6 +199,12 @@ class PolicyAuthority(object):
                     % exports['REMOTE_ADDR'])
                 raise ClientFault('An attribute authority in an attribute certificate in your certificate '
                                   'set is not trusted.')
+            elif RSA.import_key(cert.issuer.pub_key) != RSA.import_key(aauth.pub_key):
+                PolicyAuthority.LOG.error(
+                    'ClientFault: ac is not signed with the registered key of its aauth in request from %s'
+                    % exports['REMOTE_ADDR'])
+                raise ClientFault('An attribute certificate in your certificate set was not signed by the '
+                                  'attribute authority it names as issuer.')
             elif not cert.verify_time():
                 PolicyAuthority.LOG.error(
                     'ClientFault: ac is expired in evaluate from %s'
-- 
2.43.0


From 206dae4cd34e90da6ebb0de7ea088de2ff686547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:18 +0000
Subject: [PATCH 02/15] fix: hash the presented certificate bytes, not the
 consumed decode buffer

---
 hgaa/services/pauth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hgaa/services/pauth.py b/hgaa/services/pauth.py
index 0239b29..7b1b106 100644
--- a/hgaa/services/pauth.py
+++ b/hgaa/services/pauth.py
@@ -265,7 +265,7 @@ class PolicyAuthority(object):
 
                 processed_att_certs[b64_serial] = cert
 
-                cert_hash=base64.b64encode(SHA256.new(raw_cert.data_raw).digest()).decode('utf-8')
+                cert_hash=base64.b64encode(SHA256.new(raw_bytes).digest()).decode('utf-8')
 
 
                 has_cert = s.query(AC).filter(AC.serial == b64_serial).first()
-- 
2.43.0


From aefd58e52554b766ab3a3039b5ae4495fe11e096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:18 +0000
Subject: [PATCH 03/15] fix: import BASE64FULL certificates given as bytes

---
 hgaa/attcert.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hgaa/attcert.py b/hgaa/attcert.py
index 6b13e75..ffeddc0 100644
--- a/hgaa/attcert.py
+++ b/hgaa/attcert.py
@@ -539,6 +539,8 @@ class AttributeCertificate(object):
             # TODO: Support TEXT format import.
             raise Exception('TEXT import not yet supported.')
         elif format == ExportFormat.BASE64FULL:
+            if not isinstance(input, str):
+                input = bytes(input).decode('utf-8')
             parts = input.split('\n')
             # TODO: Check that all parts are valid/right version.
             return AttributeCertificate.import_ac(parts[3], ExportFormat.BASE64, verify)
-- 
2.43.0


From 1e4671ed1c4e33ab62b078483b88ea265d909935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:18 +0000
Subject: [PATCH 04/15] fix: policy authority uses its own configured database

---
 hgaa/services/pauth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hgaa/services/pauth.py b/hgaa/services/pauth.py
index 7b1b106..68a2f54 100644
--- a/hgaa/services/pauth.py
+++ b/hgaa/services/pauth.py
@@ -126,7 +126,7 @@ class PolicyAuthority(object):
                                      'url': self.url})
 
         PolicyAuthority.LOG.debug('Setting up database session for PolicyAuthority')
-        self._db_session = get_session('AAUTH') # TODO: Need new session for each request?
+        self._db_session = get_session('PAUTH') # TODO: Need new session for each request?
 
     @ladonize(rtype=int)
     def simp(self):
-- 
2.43.0


From 4225689c30bacd9d4c865ae543336364e87cf9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:18 +0000
Subject: [PATCH 05/15] fix: encode certificate strings with their UTF-8 byte
 length

---
 hgaa/attcert.py | 62 ++++++++++++++++++++-----------------------------
 1 file changed, 25 insertions(+), 37 deletions(-)

diff --git a/hgaa/attcert.py b/hgaa/attcert.py
index ffeddc0..d76bf0a 100644
--- a/hgaa/attcert.py
+++ b/hgaa/attcert.py
@@ -99,27 +99,19 @@ class ACIssuer(ACPart):
         return output
 
     def encode(self):
-        pub_key_size = len(self.pub_key)
-        key_algo_size = len(self.key_algo)
-        uid_size = len(self.uid)
-
-        if self.name is not None:
-            name_size = len(self.name)
-        else:
-            name_size = 0
-
-        if self.url is not None:
-            url_size = len(self.url)
-        else:
-            url_size = 0
-
-        header = struct.pack('<HHHHH', pub_key_size, key_algo_size, uid_size, name_size, url_size)
-
         key_algo = self.key_algo.encode('utf-8')
         uid = self.uid.encode('utf-8')
         name = b'' if self.name is None else self.name.encode('utf-8')
         url = b'' if self.url is None else self.url.encode('utf-8')
 
+        pub_key_size = len(self.pub_key)
+        key_algo_size = len(key_algo)
+        uid_size = len(uid)
+        name_size = len(name)
+        url_size = len(url)
+
+        header = struct.pack('<HHHHH', pub_key_size, key_algo_size, uid_size, name_size, url_size)
+
         strings = struct.pack('<' + str(key_algo_size) + 's' + str(uid_size) + 's' + str(name_size) + 's' +
                               str(url_size) + 's', key_algo, uid, name, url)
 
@@ -165,21 +157,17 @@ class ACHolder(ACPart):
         return output
 
     def encode(self):
-        pub_key_size = len(self.pub_key)
-        key_algo_size = len(self.key_algo)
-        uid_size = len(self.uid)
-
-        if self.name is not None:
-            name_size = len(self.name)
-        else:
-            name_size = 0
-
-        header = struct.pack('<HHHH', pub_key_size, key_algo_size, uid_size, name_size)
-
         key_algo = self.key_algo.encode('utf-8')
         uid = self.uid.encode('utf-8')
         name = b'' if self.name is None else self.name.encode('utf-8')
 
+        pub_key_size = len(self.pub_key)
+        key_algo_size = len(key_algo)
+        uid_size = len(uid)
+        name_size = len(name)
+
+        header = struct.pack('<HHHH', pub_key_size, key_algo_size, uid_size, name_size)
+
         strings = struct.pack('<' + str(key_algo_size) + 's' + str(uid_size) + 's' + str(name_size) + 's', key_algo,
                               uid, name)
 
@@ -232,13 +220,13 @@ class ACAttribute(ACPart):
         return output
 
     def encode(self):
-        att_id_size = len(self.att_id)
-        att_value_size = len(self.att_value) if self.att_value is not None else 0
-        att_name_size = len(self.att_name) if self.att_name is not None else 0
-        extra_byte_size = len(self.extra_bytes) if self.extra_bytes is not None else 0
         att_id = self.att_id.encode('utf-8')
         att_value = self.att_value.encode('utf-8') if self.att_value is not None else b''
         att_name = self.att_name.encode('utf-8') if self.att_name is not None else b''
+        att_id_size = len(att_id)
+        att_value_size = len(att_value)
+        att_name_size = len(att_name)
+        extra_byte_size = len(self.extra_bytes) if self.extra_bytes is not None else 0
         headandbody = struct.pack('<HHHHB%ss%ss%ss' % (att_id_size, att_value_size, att_name_size), att_id_size,
                                   att_value_size, att_name_size, extra_byte_size, self.att_type.value, att_id,
                                   att_value, att_name)
@@ -307,9 +295,9 @@ class ACRevocationRules(ACPart):
         return output
 
     def encode(self):
-        url_size = len(self.url) if self.url is not None else 0
-        extra_byte_size = len(self.extra_bytes) if self.extra_bytes is not None else 0
         url = self.url.encode('utf-8') if self.url is not None else b''
+        url_size = len(url)
+        extra_byte_size = len(self.extra_bytes) if self.extra_bytes is not None else 0
 
         headandbody = struct.pack('<HHII%ss' % url_size, url_size, extra_byte_size, self.valid_after,
                                   self.valid_before, url)
@@ -386,9 +374,9 @@ class ACExtensions(ACPart):
         return output
 
     def encode(self):
-        eid_size = len(self.eid)
-        extra_byte_size = len(self.extra_bytes) if self.extra_bytes is not None else 0
         eid = self.eid.encode('utf-8')
+        eid_size = len(eid)
+        extra_byte_size = len(self.extra_bytes) if self.extra_bytes is not None else 0
 
         headerandbody = struct.pack('<HH%ss' % eid_size, eid_size, extra_byte_size, eid)
 
@@ -430,9 +418,9 @@ class ACSignature(ACPart):
         return output
 
     def encode(self):
-        algo_size = len(self.sig_algo)
-        value_size = len(self.sig_value)
         algo = self.sig_algo.encode('utf-8')
+        algo_size = len(algo)
+        value_size = len(self.sig_value)
 
         headandalgo = struct.pack('<HH%ss' % algo_size, algo_size, value_size, algo)
         encoded = b''.join((headandalgo, self.sig_value))
-- 
2.43.0


From fe0c86512488f9560865c0ee7cce237b7b427819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:18 +0000
Subject: [PATCH 06/15] fix: distinct weekday name attribute and GMT day and
 month names

---
 hgaa/services/aauth.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hgaa/services/aauth.py b/hgaa/services/aauth.py
index d352664..2bf8104 100644
--- a/hgaa/services/aauth.py
+++ b/hgaa/services/aauth.py
@@ -260,14 +260,14 @@ class AttributeAuthority(object):
                                    'id': '/attribute/connection/con_time',
                                    'type': AttributeType.INT,
                                    'value': int(t)}
-        con_att_set['con_time_weekdayname'] = {'name': 'con_time_weekday',
-                                           'id': '/attribute/connection/con_time_weekday',
+        con_att_set['con_time_weekdayname'] = {'name': 'con_time_weekdayname',
+                                           'id': '/attribute/connection/con_time_weekdayname',
                                            'type': AttributeType.STRING,
-                                           'value': time.strftime('%A')}
+                                           'value': time.strftime('%A', st)}
         con_att_set['con_time_monthname'] = {'name': 'con_time_monthname',
                                              'id': '/attribute/connection/con_time_monthname',
                                              'type': AttributeType.STRING,
-                                             'value': time.strftime('%B')}
+                                             'value': time.strftime('%B', st)}
         con_att_set['con_time_month'] = {'name': 'con_time_month',
                                              'id': '/attribute/connection/con_time_month',
                                              'type': AttributeType.INT,
-- 
2.43.0


From 28e187a62093afb0fab9ccbffdb79fda864931be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:18 +0000
Subject: [PATCH 07/15] fix: serve clients with compressed, mapped or scoped
 IPv6 addresses

---
 hgaa/services/aauth.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hgaa/services/aauth.py b/hgaa/services/aauth.py
index 2bf8104..87cacd6 100644
--- a/hgaa/services/aauth.py
+++ b/hgaa/services/aauth.py
@@ -7,6 +7,7 @@ from enum import Enum
 from Crypto.PublicKey import RSA
 import bcrypt
 import base64
+import ipaddress
 from logging import DEBUG
 import time
 import os
@@ -198,7 +199,7 @@ class AttributeAuthority(object):
 
         if 'REMOTE_ADDR' in exports:
             i = 0
-            if '.' in exports['REMOTE_ADDR']:
+            if '.' in exports['REMOTE_ADDR'] and ':' not in exports['REMOTE_ADDR']:
                 con_att_set['ip_v4'] = {'name': 'ip_v4',
                                         'id': '/attribute/connection/ip_v4',
                                         'type': AttributeType.BOOL,
@@ -225,7 +226,7 @@ class AttributeAuthority(object):
                                         'type': AttributeType.BOOL,
                                         'value': True}
 
-                hextets = exports['REMOTE_ADDR'].split(':')
+                hextets = ipaddress.IPv6Address(exports['REMOTE_ADDR'].split('%')[0]).exploded.split(':')
                 for hex in hextets:
                     con_att_set['remote_addr_v6_hex%d' % i] = {'name': 'remote_addr_v6_hex%d' % i,
                                                           'id': '/attribute/connection/remote_addr_v6_hex%d' % i,
-- 
2.43.0


From dd97136972db23e7e8feda48066c12039fedbd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:18 +0000
Subject: [PATCH 08/15] fix: refuse attribute requests without a username or
 password

---
 hgaa/services/aauth.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hgaa/services/aauth.py b/hgaa/services/aauth.py
index 87cacd6..44b98f9 100644
--- a/hgaa/services/aauth.py
+++ b/hgaa/services/aauth.py
@@ -432,6 +432,11 @@ class AttributeAuthority(object):
         AttributeAuthority.LOG.info('Attribute request on AttributeAuthority from %s.' % exports['REMOTE_ADDR'])
 
         if credentials.type == CredentialType.USER_PASS.value:
+            if credentials.username is None or credentials.password is None:
+                AttributeAuthority.LOG.info('ClientFault: Missing username or password in attribute_request from %s'
+                                            % exports['REMOTE_ADDR'])
+                raise ClientFault('Invalid credentials.')
+
             s = self._db_session()
             user = s.query(User).filter(User.username == credentials.username.lower()).first()
             if user is None:
-- 
2.43.0


From 0aa824c7b1c1afa06c5dda3c9e0055d92f33bf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:18 +0000
Subject: [PATCH 09/15] fix: replace the authority key file atomically

---
 hgaa/tools.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/hgaa/tools.py b/hgaa/tools.py
index 4676182..739f715 100644
--- a/hgaa/tools.py
+++ b/hgaa/tools.py
@@ -1,3 +1,4 @@
+import os
 import sys
 from Crypto.PublicKey import RSA
 import bcrypt
@@ -41,10 +42,14 @@ def gen_aauth_key(key_file, key_pass, key_size=2048):
     key = RSA.generate(key_size)
     SERVICE_TOOLS_LOG.info('Encrypting new private/public key pair.')
     encrypted_key = key.exportKey(passphrase=key_pass, pkcs=8, protection="scryptAndAES128-CBC")
-    file_out = open(key_file, "wb")
     SERVICE_TOOLS_LOG.info('Saving new private/public key pair to %s' % key_file)
-    file_out.write(encrypted_key)
-    file_out.close()
+    # Replace any existing key only once the new one is completely on disk.
+    tmp_file = key_file + '.tmp'
+    with open(tmp_file, "wb") as file_out:
+        file_out.write(encrypted_key)
+        file_out.flush()
+        os.fsync(file_out.fileno())
+    os.replace(tmp_file, key_file)
     SERVICE_TOOLS_LOG.info('Finished generating key pair.')
 
 
-- 
2.43.0


From 0306ba275b3b414ebf62c1d925972e2d9f9d4c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:18 +0000
Subject: [PATCH 10/15] fix: evaluate policies afresh each time, including
 falsy constants

---
 hgpl/interpreting.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/hgpl/interpreting.py b/hgpl/interpreting.py
index 4750adf..888da4d 100644
--- a/hgpl/interpreting.py
+++ b/hgpl/interpreting.py
@@ -1,5 +1,6 @@
 from hgpl.parsing import Parser
-from hgpl.ast import ASTNode, AttNode, NotNode, SetNode, BoolOpNode, OpNode, ASTResult, ASTNullVal
+from hgpl.ast import ASTNode, AttNode, NotNode, SetNode, BoolOpNode, OpNode, ValNode, BoolValNode, ASTResult, \
+    ASTNullVal
 from hgpl.symbols import SymbolTable, Symbol, SymbolType
 from hgpl.errors import InterpreterError, InterpreterWarning
 
@@ -249,16 +250,19 @@ class Interpreter(object):
     def _evaluate_set_node(self, node):
         node.result = []
         for n in node.children():
-            if n.result and isinstance(n.result, (int, float, str, ASTNullVal)):
+            if n.result is not None and isinstance(n.result, (int, float, str, ASTNullVal)):
                     node.result.append(n.result)
             else:
                 self._error("Interpreter Error, invalid child node or invalid child node result.", "evaluate_set_node",
                             node)
 
     def _evaluate_node(self, node):
+        # Constants keep their value, everything else depends on the attributes of this evaluation.
+        if isinstance(node, (ValNode, BoolValNode)):
+            return
+
         for n in node.children():
-            if not n.result:
-                self._evaluate_node(n)
+            self._evaluate_node(n)
 
         if isinstance(node, AttNode):
             self._evaluate_att_node(node)
@@ -282,10 +286,11 @@ class Interpreter(object):
         else:
             self._symbols = SymbolTable()
 
+        self._warnings = []
         self._evaluate_node(self._ast)
 
         for warn in self._warnings:
-            if warn.type >= min_warn_level:
+            if min_warn_level is not None and warn.type >= min_warn_level:
                 raise warn
 
         return self._ast.result
-- 
2.43.0


From eb045833a7901a9835bd0f0318f17a1b49eda2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:18 +0000
Subject: [PATCH 11/15] fix: compare set constants with set attributes, also
 when holding NULL

---
 hgpl/ast.py          | 3 +++
 hgpl/interpreting.py | 8 ++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/hgpl/ast.py b/hgpl/ast.py
index db09155..ca4ba47 100644
--- a/hgpl/ast.py
+++ b/hgpl/ast.py
@@ -267,6 +267,9 @@ class ASTNullVal(object):
     def __ne__(self, other):
         return not isinstance(other, ASTNullVal)
 
+    def __hash__(self):
+        return 0
+
 
 class NullValNode(ValNode):
     def __init__(self, token):
diff --git a/hgpl/interpreting.py b/hgpl/interpreting.py
index 888da4d..32b5a2d 100644
--- a/hgpl/interpreting.py
+++ b/hgpl/interpreting.py
@@ -108,13 +108,17 @@ class Interpreter(object):
         if isinstance(rresult, Symbol):
             rresult = self._symbol_to_val(rresult, tmp, 0)
 
+        if isinstance(lresult, list):
+            lresult = set(lresult)
+
+        if isinstance(rresult, list):
+            rresult = set(rresult)
+
         if (isinstance(lresult, (int, float)) and isinstance(rresult, (int, float))) or \
            (isinstance(lresult, str) and isinstance(rresult, str)) or \
            (isinstance(lresult, set) and isinstance(rresult, set)) or \
            (isinstance(lresult, ASTNullVal) and isinstance(rresult, ASTNullVal)):
             return ASTResult.from_bool(lresult == rresult)
-        elif isinstance(lresult, list) and isinstance(rresult, list):
-            return ASTResult.from_bool(set(lresult) == set(rresult))
         else:
             self._warn("Interpreter Warning, invalid type used in '=' or '!=' operation.", "eq_op", None, lresult,
                        rresult)
-- 
2.43.0


From e3be4058baa3e0442e328cd921ef41a17ef85628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:18 +0000
Subject: [PATCH 12/15] fix: number encoded policy nodes per tree

---
 hgpl/ast.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/hgpl/ast.py b/hgpl/ast.py
index ca4ba47..cbb5eba 100644
--- a/hgpl/ast.py
+++ b/hgpl/ast.py
@@ -333,7 +333,13 @@ class ASTEncoder(object):
     _encoding_body_head = struct.Struct("<HBBHHH")
 
     @staticmethod
-    def _encode_node(node):
+    def _number_nodes(node, ids):
+        ids.setdefault(id(node), len(ids))
+        for n in node.children():
+            ASTEncoder._number_nodes(n, ids)
+
+    @staticmethod
+    def _encode_node(node, ids):
         if node.ttype() == TokenType.INT:
             tval_format = 'i'
             tval_size = 4
@@ -361,7 +367,7 @@ class ASTEncoder(object):
                 # TODO: Custom exception
                 raise Exception()
 
-        node_header = ASTEncoder._encoding_body_head.pack(node.id, node.ntype().value, node.ttype().value, node.tpos(), tval_size,
+        node_header = ASTEncoder._encoding_body_head.pack(ids[id(node)], node.ntype().value, node.ttype().value, node.tpos(), tval_size,
                                               node.num_nodes())
         if tval_size > 0:
             tvalue = struct.pack('<' + tval_format, tval)
@@ -369,7 +375,7 @@ class ASTEncoder(object):
             tvalue = None
 
         if node.num_nodes() > 0:
-            child_ids = tuple(child.id for child in node._node_list)
+            child_ids = tuple(ids[id(child)] for child in node._node_list)
             children = struct.pack('<' + str(node.num_nodes()) + 'H', *child_ids)
         else:
             child_ids = None
@@ -386,14 +392,17 @@ class ASTEncoder(object):
         del node_header
 
         for n in node.children():
-            encoded_nodes += ASTEncoder._encode_node(n)
+            encoded_nodes += ASTEncoder._encode_node(n, ids)
 
         return encoded_nodes
 
     @staticmethod
     def encode(ast, encode_in_base64=False):
-        encoded_nodes = ASTEncoder._encode_node(ast)
-        header = ASTEncoder._encoding_head.pack(ASTEncoder._version, len(encoded_nodes), ast.id)
+        # Node ids are numbered per tree, the process wide ids do not fit the encoding for ever.
+        ids = {}
+        ASTEncoder._number_nodes(ast, ids)
+        encoded_nodes = ASTEncoder._encode_node(ast, ids)
+        header = ASTEncoder._encoding_head.pack(ASTEncoder._version, len(encoded_nodes), ids[id(ast)])
         encoded = header + b''.join(encoded_nodes)
 
         if encode_in_base64:
-- 
2.43.0


From 54f44d5f91f3bdae7acae65d3d49cd2ea7d2094c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:18 +0000
Subject: [PATCH 13/15] fix: keep floats, empty strings and non-ASCII names
 exact in encoded policies

---
 hgpl/ast.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hgpl/ast.py b/hgpl/ast.py
index cbb5eba..a013643 100644
--- a/hgpl/ast.py
+++ b/hgpl/ast.py
@@ -345,8 +345,8 @@ class ASTEncoder(object):
             tval_size = 4
             tval = node.tvalue()
         elif node.ttype() == TokenType.FLOAT:
-            tval_format = 'f'
-            tval_size = 4
+            tval_format = 'd'
+            tval_size = 8
             tval = node.tvalue()
         #elif node.ttype() == TokenType.BOOL:
         #    tval_format = 'B'
@@ -358,9 +358,9 @@ class ASTEncoder(object):
                 tval_size = 0
                 tval = None
             elif isinstance(node.tvalue(), str):
-                tval_size = len(node.tvalue())
-                tval_format = str(tval_size) + 's'
                 tval = bytes(node.tvalue(), 'utf-8')
+                tval_size = len(tval)
+                tval_format = str(tval_size) + 's'
             else:
                 print(node.tvalue())
                 print(node.tvalue().__class__.__name__)
@@ -434,7 +434,7 @@ class ASTEncoder(object):
                 if token_type == TokenType.INT.value:
                     tval_format = 'i'
                 elif token_type == TokenType.FLOAT.value:
-                    tval_format = 'f'
+                    tval_format = 'd' if token_val_size == 8 else 'f'
                 #elif token_type == TokenType.BOOL.value:
                 #    tval_format = 'B'
                 else:
@@ -448,7 +448,7 @@ class ASTEncoder(object):
 
                 byte_count += token_val_size
             else:
-                token_val = None
+                token_val = '' if token_type == TokenType.STRING.value else None
 
             if node_num_child > 0:
                 node_children = struct.unpack('<' + str(node_num_child) + 'H', encoded_bytes[byte_count:byte_count + node_num_child * 2])
-- 
2.43.0


From 6e9a160c073252f3f22c7614d6093432bbc4261f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:43 +0000
Subject: [PATCH 14/15] fix: keep the client's remembered key when the answer
 carries no result

---
 hgaa/clients/aauth.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hgaa/clients/aauth.py b/hgaa/clients/aauth.py
index 34083f0..7d31693 100644
--- a/hgaa/clients/aauth.py
+++ b/hgaa/clients/aauth.py
@@ -95,5 +95,6 @@ class AttributeAuthorityClient(object):
                             (response.response_dict['fault']['string'],
                              pprint.pformat(response.response_dict['fault']['detail'], width=300)))
 
+        result = response.response_dict['result']
         self.last_key = key
-        return response.response_dict['result']
\ No newline at end of file
+        return result
\ No newline at end of file
-- 
2.43.0


From 508b50dfd9edd7084f5f86261a0e9054b8b03f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:02 +0000
Subject: [PATCH 15/15] fix: refuse passwords with NUL bytes, which bcrypt
 hashes like shorter ones

---
 hgaa/services/aauth.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hgaa/services/aauth.py b/hgaa/services/aauth.py
index 44b98f9..4eef0af 100644
--- a/hgaa/services/aauth.py
+++ b/hgaa/services/aauth.py
@@ -436,6 +436,11 @@ class AttributeAuthority(object):
                 AttributeAuthority.LOG.info('ClientFault: Missing username or password in attribute_request from %s'
                                             % exports['REMOTE_ADDR'])
                 raise ClientFault('Invalid credentials.')
+            # bcrypt hashes the password repeated after a NUL byte, so others holding NUL bytes give the same hash.
+            if '\0' in credentials.password:
+                AttributeAuthority.LOG.info('ClientFault: NUL in password in attribute_request from %s'
+                                            % exports['REMOTE_ADDR'])
+                raise ClientFault('Invalid credentials.')
 
             s = self._db_session()
             user = s.query(User).filter(User.username == credentials.username.lower()).first()
-- 
2.43.0

