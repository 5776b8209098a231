From c5445e2e05e1c9fda30bc0f9f9718aa65dabd6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:45 +0000
Subject: [PATCH 01/48] fix: run the key exchange when the server sends
 PUBLIC_KEY_REQUEST

---
 src/pypsrp/powershell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 62f1194..6f5c16b 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -751,7 +751,7 @@ class RunspacePool(object):
             # the possible responses and so we will just ignore for now
             MessageType.SESSION_CAPABILITY: self._process_session_capability,
             MessageType.ENCRYPTED_SESSION_KEY: self._process_encrypted_session_key,
-            MessageType.PUBLIC_KEY_REQUEST: lambda m: self.exchange_keys,
+            MessageType.PUBLIC_KEY_REQUEST: lambda m: self.exchange_keys(),
             MessageType.RUNSPACEPOOL_INIT_DATA: self._process_runspacepool_init_data,
             MessageType.RUNSPACE_AVAILABILITY: self._process_runspacepool_availability,
             MessageType.RUNSPACEPOOL_STATE: self._process_runspacepool_state,
-- 
2.43.0


From b72f93023c55ce52bc60d430e5e0590419272298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:56 +0000
Subject: [PATCH 02/48] fix: get_available_runspaces must not change the max
 runspaces of the pool

---
 src/pypsrp/powershell.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 6f5c16b..f62653b 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -391,7 +391,6 @@ class RunspacePool(object):
         """
 
         def response_handler(response):
-            self._max_runspaces = response
             return response
 
         ci = self._ci_counter
-- 
2.43.0


From d248b49867b1da66c54b39219a1d4417f4ae9085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:06 +0000
Subject: [PATCH 03/48] fix: send every fragment of the opening messages when
 opening a Runspace Pool

---
 src/pypsrp/powershell.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index f62653b..efa361a 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -564,6 +564,10 @@ class RunspacePool(object):
         self.shell.open(options, open_content)
         self.state = RunspacePoolState.NEGOTIATION_SENT
 
+        # send the remaining fragments of the opening messages (if any)
+        for fragment in fragments:
+            self.shell.send("stdin", fragment)
+
         responses = []
         while self.state == RunspacePoolState.NEGOTIATION_SENT:
             responses.extend(self._receive())
-- 
2.43.0


From 65d0d9d55135fb426b30a8e65bb12caa59f4e400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:18 +0000
Subject: [PATCH 04/48] fix: stop and connect a pipeline using the command id
 set by the server

---
 src/pypsrp/powershell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index efa361a..a5c2f4c 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1160,7 +1160,7 @@ class PowerShell(object):
             )
         rsp = NAMESPACES["rsp"]
 
-        connect = ET.Element("{%s}Connect" % rsp, CommandId=self.id)
+        connect = ET.Element("{%s}Connect" % rsp, CommandId=self._command_id or self.id)
 
         self.runspace_pool.connection.connect(
             self.runspace_pool.shell.resource_uri, connect, selector_set=self.runspace_pool.shell._selector_set
@@ -1514,7 +1514,7 @@ class PowerShell(object):
             raise InvalidPipelineStateError(self.state, PSInvocationState.RUNNING, "stop a running pipeline")
 
         self.state = PSInvocationState.STOPPING
-        self.runspace_pool.shell.signal(SignalCode.PS_CTRL_C, str(self.id).upper())
+        self.runspace_pool.shell.signal(SignalCode.PS_CTRL_C, self._command_id or str(self.id).upper())
         self.state = PSInvocationState.STOPPED
         self.runspace_pool.pipelines.pop(self.id, None)
 
-- 
2.43.0


From 5c81df19a11abf22d82d8a29901e854c0fdea05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:29 +0000
Subject: [PATCH 05/48] fix: only disconnect running pipelines when
 disconnecting a Runspace Pool

---
 src/pypsrp/powershell.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index a5c2f4c..4b48480 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -380,7 +380,8 @@ class RunspacePool(object):
         self.connection.disconnect(self.shell.resource_uri, disconnect, selector_set=selector_set)
         self.state = RunspacePoolState.DISCONNECTED
         for pipeline in self.pipelines.values():
-            pipeline.state = PSInvocationState.DISCONNECTED
+            if pipeline.state == PSInvocationState.RUNNING:
+                pipeline.state = PSInvocationState.DISCONNECTED
 
     def get_available_runspaces(self) -> int:
         """
-- 
2.43.0


From 26baee42d45fcab2a2fd1e0e68035a52fd62ad01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:13 +0000
Subject: [PATCH 06/48] fix: set the shell selector on pools returned by
 get_runspace_pools

---
 src/pypsrp/powershell.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 4b48480..303ad3f 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -494,6 +494,8 @@ class RunspacePool(object):
             pool.id = shell_id
             pool.shell.id = shell_id
             pool.shell.opened = True
+            pool.shell._selector_set = SelectorSet()
+            pool.shell._selector_set.add_option("ShellId", shell_id)
             pool._new_client = True
 
             # Seems like the server sends all pools not just disconnected but
-- 
2.43.0


From 04ddc5515f053bbb5ae3d2f70e2af35bb7a3e1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:27 +0000
Subject: [PATCH 07/48] fix: is_alive treats a HTTP read timeout as a dead pool

---
 src/pypsrp/powershell.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 303ad3f..66457a7 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -704,7 +704,12 @@ class RunspacePool(object):
             else:
                 raise
 
-        except (_pool_manager.NewConnectionDisabled, TimeoutError, requests.exceptions.ConnectionError):
+        except (
+            _pool_manager.NewConnectionDisabled,
+            TimeoutError,
+            requests.exceptions.ConnectionError,
+            requests.exceptions.Timeout,
+        ):
             # If a timeout or connection error occurs, treat the pool as closed.
             is_closed = True
 
-- 
2.43.0


From 9e96a92d1a85537b1e9e42ac456855a147b768f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:39 +0000
Subject: [PATCH 08/48] fix: send all pipeline input when it contains None or
 is an empty generator

---
 src/pypsrp/powershell.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 66457a7..5e28163 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1271,8 +1271,14 @@ class PowerShell(object):
                 input = input_gen(input)  # type: ignore[arg-type]
 
             log.info("Sending input to remote Pipeline")
-            next_input = next(input)
-            while next_input is not None:
+            end_of_input = object()
+            next_input = next(input, end_of_input)
+            if next_input is end_of_input:
+                # nothing was yielded, the server still needs to know about it
+                next_input = []
+                input = iter(())
+
+            while next_input is not end_of_input:
                 if not isinstance(next_input, list):
                     next_input = [next_input]
 
@@ -1282,7 +1288,7 @@ class PowerShell(object):
                     next_input = next(input)
                 except StopIteration:
                     input_msgs.append(EndOfPipelineInput())
-                    next_input = None
+                    next_input = end_of_input
 
                 fragments = self.runspace_pool._fragmenter.fragment_multiple(input_msgs, self.runspace_pool.id, self.id)
 
-- 
2.43.0


From be515bb043170bedf5491e94536bdcfda948e5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:50 +0000
Subject: [PATCH 09/48] fix: deserialize an empty byte array

---
 src/pypsrp/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 4a6fce7..b68d263 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -212,7 +212,7 @@ class Serializer(object):
             "Sg": lambda d: float(d.text),
             "Db": lambda d: float(d.text),
             "D": lambda d: d.text,  # TODO: deserialize this
-            "BA": lambda d: base64.b64decode(d.text),
+            "BA": lambda d: base64.b64decode(d.text or ""),
             "G": lambda d: uuid.UUID(d.text),
             "URI": lambda d: self._deserialize_string(d.text),
             "Nil": lambda d: None,
-- 
2.43.0


From 6b65f571783834ecdd83e464435bfb552f33c7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:55 +0000
Subject: [PATCH 10/48] fix: do not carry the type of one queue or stack entry
 over to the next one

---
 src/pypsrp/serializer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index b68d263..1b1da77 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -484,7 +484,7 @@ class Serializer(object):
         while True:
             try:
                 value = values.get(block=False)
-                self.serialize(value, metadata.list_value_meta, parent=que, clear=False)
+                self.serialize(value, copy(metadata.list_value_meta), parent=que, clear=False)
             except Empty:
                 break
 
@@ -502,7 +502,7 @@ class Serializer(object):
         while True:
             try:
                 value = values.pop()
-                self.serialize(value, metadata.list_value_meta, parent=stk, clear=False)
+                self.serialize(value, copy(metadata.list_value_meta), parent=stk, clear=False)
             except IndexError:
                 break
 
-- 
2.43.0


From d188cb9de27908e5d76300908ce5753897c72012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:36 +0000
Subject: [PATCH 11/48] fix: decode escaped characters in strings without
 misreading other text

---
 src/pypsrp/serializer.py | 28 ++++++----------------------
 1 file changed, 6 insertions(+), 22 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 1b1da77..895483b 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -64,10 +64,8 @@ class Serializer(object):
         # encode according to the PSRP rules
         self._serial_str = re.compile("[\u0000-\u001f\u007f-\u009f\U00010000-\U0010ffff]")
 
-        # to support surrogate UTF-16 pairs we need to use a UTF-16 regex
-        # so we can replace the UTF-16 string representation with the actual
-        # UTF-16 byte value and then decode that
-        self._deserial_str = re.compile(b"\\x00_\\x00x([\\0\\w]{8})\\x00_")
+        # Finds the escaped UTF-16 code units in a string
+        self._deserial_str = re.compile("_x([0-9A-Fa-f]{4})_")
 
     def serialize(
         self,
@@ -766,25 +764,11 @@ class Serializer(object):
         if value is None:
             return ""
 
-        def rplcr(matchobj):
-            # The matched object is the UTF-16 byte representation of the UTF-8
-            # hex string value. We need to decode the byte str to unicode and
-            # then unhexlify that hex string to get the actual bytes of the
-            # _x****_ value, e.g.
-            # group(0) == b"\x00_\x00x\x000\x000\x000\x00A\x00_"
-            # group(1) == b"\x000\x000\x000\x00A"
-            # unicode (from utf-16-be) == u"000A"
-            # returns b"\x00\x0A"
-            match_hex = matchobj.group(1)
-            hex_string = to_unicode(match_hex, encoding="utf-16-be")
-            return binascii.unhexlify(hex_string)
-
-        # need to ensure we start with a unicode representation of the string
-        # so that we can get the actual UTF-16 bytes value from that string
+        # Each _x****_ is an UTF-16 code unit, the surrogate pairs that are
+        # created by this need to be combined again.
         unicode_value = to_unicode(value)
-        unicode_bytes = to_bytes(unicode_value, encoding="utf-16-be")
-        bytes_value = re.sub(self._deserial_str, rplcr, unicode_bytes)
-        return to_unicode(bytes_value, encoding="utf-16-be")
+        string_value = re.sub(self._deserial_str, lambda m: chr(int(m.group(1), 16)), unicode_value)
+        return string_value.encode("utf-16-be", "surrogatepass").decode("utf-16-be", "surrogatepass")
 
     def _deserialize_secure_string(self, value: ET.Element) -> typing.Union[ET.Element, str]:
         if self.cipher is None:
-- 
2.43.0


From 3011d1c85435e0fd1f00872888970a712f9c1cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:49 +0000
Subject: [PATCH 12/48] fix: resolve type references to types of objects that
 are not deserialized

---
 src/pypsrp/serializer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 895483b..cf03f23 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -183,6 +183,12 @@ class Serializer(object):
             xml_string = ET.tostring(element, encoding="utf-8", method="xml")
             element_string = to_string(xml_string)
 
+        if clear:
+            # a TNRef can refer to a TN of an object that is deserialized later
+            # or not at all
+            for tn in element.iter("TN"):
+                self.tn[tn.attrib["RefId"]] = [t.text or "" for t in tn.findall("T")]
+
         metadata = metadata or ObjectMeta()
         if metadata.tag == "*":
             metadata.tag = element.tag
-- 
2.43.0


From 9cdb7e1c7a2ffd8e9761e15456747a885a0fabe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:00 +0000
Subject: [PATCH 13/48] fix: only share a type reference between objects with
 the same types

---
 src/pypsrp/serializer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index cf03f23..7b369dc 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -825,12 +825,12 @@ class Serializer(object):
         parent: ET.Element,
         types: typing.List[str],
     ) -> None:
-        main_type = types[0]
-        ref_id = self.tn.get(main_type, None)
+        type_key = tuple(types)
+        ref_id = self.tn.get(type_key, None)
         if ref_id is None:
             ref_id = self.tn_id
             self.tn_id += 1
-            self.tn[main_type] = ref_id
+            self.tn[type_key] = ref_id
 
             tn = ET.SubElement(parent, "TN", RefId=str(ref_id))
             for type_name in types:
-- 
2.43.0


From 46f6ce0e7284506bc326784f52e1b901a9f41bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:11 +0000
Subject: [PATCH 14/48] fix: fetch files that are empty or sent in multiple
 chunks

---
 src/pypsrp/client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/client.py b/src/pypsrp/client.py
index 273c56e..694112d 100644
--- a/src/pypsrp/client.py
+++ b/src/pypsrp/client.py
@@ -272,8 +272,9 @@ class Client(object):
 
             temp_file, path = tempfile.mkstemp()
             try:
-                file_bytes = base64.b64decode(powershell.output[0])
-                os.write(temp_file, file_bytes)
+                file_bytes = b"".join([base64.b64decode(o) for o in powershell.output[:-1]])
+                with os.fdopen(temp_file, "wb", closefd=False) as temp_fd:
+                    temp_fd.write(file_bytes)
 
                 sha1 = hashlib.sha1()
                 sha1.update(file_bytes)
-- 
2.43.0


From c4bb7883a6cac992f8f499676615a296051b9933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:09 +0000
Subject: [PATCH 15/48] fix: account for the fragment header when the max
 payload size is negotiated

---
 src/pypsrp/powershell.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 5e28163..782a5f5 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -854,7 +854,8 @@ class RunspacePool(object):
         # default, update the envelope size to 500KiB
         if version_equal_or_newer(msg.protocol_version or "", "2.2") and self.connection.max_envelope_size == 153600:
             self.connection.update_max_payload_size(512000)
-            self._fragmenter.max_size = self.connection.max_payload_size
+            # the fragment header is part of the payload
+            self._fragmenter.max_size = self.connection.max_payload_size - 21
 
     def _process_runspacepool_init_data(
         self,
-- 
2.43.0


From 04217f9719ea657481bca948ce8407f91c2bc51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:58 +0000
Subject: [PATCH 16/48] fix: a late refusal of an abandoned pool call must not
 fail another call

---
 src/pypsrp/powershell.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 782a5f5..8043336 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -213,8 +213,6 @@ class RunspacePool(object):
             return
 
         def response_handler(response):
-            if not response:
-                raise InvalidPSRPOperation("Failed to set minimum runspaces")
             return response
 
         ci = self._ci_counter
@@ -227,8 +225,9 @@ class RunspacePool(object):
 
         while not isinstance(self.ci_table[ci], bool):
             self._receive()
+        if not self.ci_table.pop(ci):
+            raise InvalidPSRPOperation("Failed to set minimum runspaces")
         self._min_runspaces = min_runspaces
-        del self.ci_table[ci]
 
     @property
     def max_runspaces(self) -> int:
@@ -254,8 +253,6 @@ class RunspacePool(object):
             return
 
         def response_handler(response):
-            if not response:
-                raise InvalidPSRPOperation("Failed to set maximum runspaces")
             return response
 
         ci = self._ci_counter
@@ -268,8 +265,9 @@ class RunspacePool(object):
 
         while not isinstance(self.ci_table[ci], bool):
             self._receive()
+        if not self.ci_table.pop(ci):
+            raise InvalidPSRPOperation("Failed to set maximum runspaces")
         self._max_runspaces = max_runspaces
-        del self.ci_table[ci]
 
     def __enter__(self) -> "RunspacePool":
         self.open()
@@ -639,8 +637,6 @@ class RunspacePool(object):
             )
 
         def response_handler(response):
-            if not response:
-                raise InvalidPSRPOperation("Failed to reset runspace state")
             return response
 
         ci = self._ci_counter
@@ -653,7 +649,8 @@ class RunspacePool(object):
 
         while not isinstance(self.ci_table[ci], bool):
             self._receive()
-        del self.ci_table[ci]
+        if not self.ci_table.pop(ci):
+            raise InvalidPSRPOperation("Failed to reset runspace state")
 
     def serialize(
         self,
-- 
2.43.0


From 9556072b7a9ca15555c9abc812298ddb2dde7c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:11 +0000
Subject: [PATCH 17/48] fix: compare version parts from the most significant
 one

---
 src/pypsrp/_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pypsrp/_utils.py b/src/pypsrp/_utils.py
index 76c76b7..5f74bde 100644
--- a/src/pypsrp/_utils.py
+++ b/src/pypsrp/_utils.py
@@ -86,6 +86,8 @@ def version_equal_or_newer(
             break
         elif int(version) > current_version:
             break
+        elif int(version) > current_version:
+            break
 
     return newer
 
-- 
2.43.0


From f2b99f217d6d065cf9d80e1dc742e7d6c10c955a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:20 +0000
Subject: [PATCH 18/48] fix: authenticate anew after a message failed on its
 connection

A message that failed with a timeout that is not retried, or with another
connection error, left the encryption state of the lost connection behind, so
the next message (often the delete of the shell) was sent encrypted in a
context its new connection was never authenticated with.
---
 src/pypsrp/wsman.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index 0903ce9..c15f30a 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -886,15 +886,18 @@ class _TransportHTTP(object):
                     prep_request,
                     timeout=timeout,
                 )
-            except (requests.ReadTimeout, requests.ConnectTimeout) as e:
-                log.exception("%s during WSMan request - attempt %d", type(e).__name__, attempt)
-                if attempt == retries_on_read_timeout:
-                    raise
-
+            except (requests.ReadTimeout, requests.ConnectionError) as e:
                 # On a failure the encryption state is invalidated and needs to
                 # be recreated after authentication is done.
                 self.encryption = None
 
+                if not isinstance(e, (requests.ReadTimeout, requests.ConnectTimeout)):
+                    raise
+
+                log.exception("%s during WSMan request - attempt %d", type(e).__name__, attempt)
+                if attempt == retries_on_read_timeout:
+                    raise
+
                 attempt += 1
                 time.sleep(self.reconnection_backoff * (2**attempt - 1))
 
-- 
2.43.0


From eb7a2c1f4edb4c0438b94c58f36f354613f02283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:53:12 +0000
Subject: [PATCH 19/48] fix: reopening a WinRS shell must not wrap the idle
 timeout twice

---
 src/pypsrp/shell.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/shell.py b/src/pypsrp/shell.py
index a8f446e..81a21a4 100644
--- a/src/pypsrp/shell.py
+++ b/src/pypsrp/shell.py
@@ -182,7 +182,12 @@ class WinRS(object):
                 ET.SubElement(env, "{%s}Variable" % rsp, Name=str(key)).text = str(value)
 
         if self.idle_time_out is not None:
-            ET.SubElement(shell, "{%s}IdleTimeOut" % rsp).text = "PT%sS" % str(self.idle_time_out)
+            # once opened this is the duration reported by the server, do not
+            # wrap it again when the shell is reopened
+            idle_time_out = str(self.idle_time_out)
+            if not idle_time_out.startswith("PT"):
+                idle_time_out = "PT%sS" % idle_time_out
+            ET.SubElement(shell, "{%s}IdleTimeOut" % rsp).text = idle_time_out
 
         if self.lifetime is not None:
             ET.SubElement(shell, "{%s}Lifetime" % rsp).text = "PT%sS" % self.lifetime
-- 
2.43.0


From 49f1af66d71aa32918d8c6297b276410f036261a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:12:39 +0000
Subject: [PATCH 20/48] fix: escape the names of object properties

---
 src/pypsrp/serializer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 7b369dc..e79e4bb 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -685,12 +685,12 @@ class Serializer(object):
                 obj.types = self.tn[obj_property.attrib["RefId"]]
             elif obj_property.tag == "Props":
                 for adapted_property in obj_property:
-                    key = adapted_property.attrib["N"]
+                    key = self._deserialize_string(adapted_property.attrib["N"])
                     value = self.deserialize(adapted_property, clear=False)
                     obj.adapted_properties[key] = value
             elif obj_property.tag == "MS":
                 for extended_property in obj_property:
-                    key = extended_property.attrib["N"]
+                    key = self._deserialize_string(extended_property.attrib["N"])
                     value = self.deserialize(extended_property, clear=False)
                     obj.extended_properties[key] = value
             elif obj_property.tag == "ToString":
@@ -845,6 +845,7 @@ class Serializer(object):
         key: typing.Optional[str] = None,
         meta: typing.Optional[ObjectMeta] = None,
     ) -> None:
+        key = self._serialize_string(key)
         if isinstance(obj, ComplexObject):
             for ref, value in self.obj.items():
                 if value == obj:
-- 
2.43.0


From b20b9bdc9aa14e39487749b340869fa365c9669b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:12:50 +0000
Subject: [PATCH 21/48] fix: decode each CLIXML error string on its own

---
 src/pypsrp/client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/client.py b/src/pypsrp/client.py
index 694112d..41ef505 100644
--- a/src/pypsrp/client.py
+++ b/src/pypsrp/client.py
@@ -315,9 +315,10 @@ class Client(object):
 
             errors: typing.List[str] = []
             for error in element.findall("{%s}S[@S='Error']" % namespace):
-                errors.append(error.text or "")
+                # each element is escaped on its own
+                errors.append(Serializer()._deserialize_string(error.text))
 
-            output = Serializer()._deserialize_string("".join(errors))
+            output = "".join(errors)
 
         return output
 
-- 
2.43.0


From 7ebfe8cf98c990389aa72a8a3438f875a5d5ded0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:24:16 +0000
Subject: [PATCH 22/48] fix: deserialize lists and dictionaries inside an array
 of objects

---
 src/pypsrp/serializer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index e79e4bb..d818234 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -743,6 +743,10 @@ class Serializer(object):
         if entries is None:
             return
 
+        if value_meta is not None and value_meta.object is GenericComplexObject:
+            # the entries of a System.Object list can be of any type
+            value_meta = None
+
         for entry in entries:
             entry_value = self.deserialize(entry, metadata=value_meta, clear=False)
             yield entry_value
-- 
2.43.0


From 0eca75c7fefd3c7c340c5a75e61085a9696cf4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:30:21 +0000
Subject: [PATCH 23/48] fix: use a compatible auth scheme the server offers
 after an incompatible one

---
 src/pypsrp/negotiate.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/negotiate.py b/src/pypsrp/negotiate.py
index 784226a..5ed4608 100644
--- a/src/pypsrp/negotiate.py
+++ b/src/pypsrp/negotiate.py
@@ -89,7 +89,12 @@ class HTTPNegotiateAuth(AuthBase):
 
     def response_hook(self, response, **kwargs):
         if response.status_code == 401:
-            matched_provider = self._check_auth_supported(response, ["Negotiate", "Kerberos", "NTLM"])
+            auth_providers = ["Negotiate", "Kerberos", "NTLM"]
+            if self.auth_provider != "negotiate":
+                # A specific provider can only be used by itself or through Negotiate, do not let the others win.
+                auth_providers.sort(key=lambda p: p.lower() not in ["negotiate", self.auth_provider])
+
+            matched_provider = self._check_auth_supported(response, auth_providers)
             kwargs["_pypsrp_auth_provider"] = matched_provider
 
             response = self.handle_401(response, **kwargs)
-- 
2.43.0


From 9e0e6a9340de1ef86ec26509a1af074f85b99ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:34:20 +0000
Subject: [PATCH 24/48] fix: a pipeline can be run with the STA apartment state

---
 src/pypsrp/powershell.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 8043336..c3be3c3 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1239,7 +1239,8 @@ class PowerShell(object):
             raise InvalidPSRPOperation("Cannot invoke PowerShell without any commands being set")
 
         no_input = input is None or not input
-        apartment_state = apartment_state or self.runspace_pool.apartment_state
+        if apartment_state is None:  # 0 is STA
+            apartment_state = self.runspace_pool.apartment_state
         host_info = HostInfo(host=self.runspace_pool.host)
 
         pipeline = Pipeline(
-- 
2.43.0


From 0d8f24afdefec5b755d4e9bcdc2c123428596135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:34:28 +0000
Subject: [PATCH 25/48] fix: invoking a pipeline must not end the statement of
 its last command

---
 src/pypsrp/complex_objects.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pypsrp/complex_objects.py b/src/pypsrp/complex_objects.py
index 0390b23..3f6229d 100644
--- a/src/pypsrp/complex_objects.py
+++ b/src/pypsrp/complex_objects.py
@@ -509,14 +509,15 @@ class Pipeline(ComplexObject):
         statements = []
         current_statement = []
 
-        # set the last command to be the end of the statement
-        self.commands[-1].end_of_statement = True
-        for command in self.commands:
+        # the last command always ends the last statement, do not mark it as
+        # further commands may be added to its statement later
+        last = len(self.commands) - 1
+        for index, command in enumerate(self.commands):
             # need to use deepcopy as the values can be appended to multiple
             # parents and in lxml that removes it from the original parent,
             # whereas this will create a copy of the statement for each parent
             current_statement.append(deepcopy(command))
-            if command.end_of_statement:
+            if command.end_of_statement or index == last:
                 statements.append(current_statement)
                 current_statement = []
 
-- 
2.43.0


From 024f4f259d7fb6cbddb770389562d055d5b3469b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:40:58 +0000
Subject: [PATCH 26/48] fix: address discovered pools by the resource they were
 created with

A pool of another session configuration was listed with the default
resource URI, so connecting it asked the server for the wrong resource.
---
 src/pypsrp/powershell.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index c3be3c3..ec55098 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -494,6 +494,10 @@ class RunspacePool(object):
             pool.shell.opened = True
             pool.shell._selector_set = SelectorSet()
             pool.shell._selector_set.add_option("ShellId", shell_id)
+            # the pool may have been created with another configuration
+            resource_uri = shell.findtext("rsp:ResourceUri", namespaces=NAMESPACES)
+            if resource_uri:
+                pool.shell.resource_uri = resource_uri
             pool._new_client = True
 
             # Seems like the server sends all pools not just disconnected but
-- 
2.43.0


From 9d9e59241578ed32e8c994dc738ad90030cac972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:53:19 +0000
Subject: [PATCH 27/48] fix: delete the shell of a runspace pool that fails to
 open in a with block

When the opening failed after the shell had been created (for example a
connection error while waiting for the opened state), __exit__ is never
called and the remote shell was left behind by every convenience call.
---
 src/pypsrp/powershell.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index ec55098..0f24e67 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -270,7 +270,16 @@ class RunspacePool(object):
         self._max_runspaces = max_runspaces
 
     def __enter__(self) -> "RunspacePool":
-        self.open()
+        try:
+            self.open()
+        except Exception:
+            # __exit__ won't be called, do not leave a remote shell that was
+            # already created behind
+            try:
+                self.shell.close()
+            except Exception as err:
+                log.warning("Failed to close the shell of a Runspace Pool that could not be opened: %s" % err)
+            raise
         return self
 
     def __exit__(
-- 
2.43.0


From ece85c046722997352b031d71a2f6ce9c0f3a72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:09:46 +0000
Subject: [PATCH 28/48] fix: only delete a shell the with block of a runspace
 pool created itself

A with block on a pool that was opened (and disconnected) before still raises
the state error without touching its shell.
---
 src/pypsrp/powershell.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 0f24e67..f42a8e9 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -270,9 +270,13 @@ class RunspacePool(object):
         self._max_runspaces = max_runspaces
 
     def __enter__(self) -> "RunspacePool":
+        is_new = self.state == RunspacePoolState.BEFORE_OPEN
         try:
             self.open()
         except Exception:
+            if not is_new:
+                raise
+
             # __exit__ won't be called, do not leave a remote shell that was
             # already created behind
             try:
-- 
2.43.0


From 3f8d1346eff761bd13dd0405e7ab48c26381351d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:25:54 +0000
Subject: [PATCH 29/48] fix: CultureInfo could not be serialized, so a host
 could not answer GetCurrentCulture

---
 src/pypsrp/complex_objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/complex_objects.py b/src/pypsrp/complex_objects.py
index 3f6229d..d79c785 100644
--- a/src/pypsrp/complex_objects.py
+++ b/src/pypsrp/complex_objects.py
@@ -1615,7 +1615,7 @@ class CultureInfo(ComplexObject):
         self.lcid = kwargs.get("lcid")
         self.name = kwargs.get("name")
         self.display_name = kwargs.get("display_name")
-        self.ieft_language_tag = kwargs.get("ietf_language_tag")
+        self.ietf_language_tag = kwargs.get("ietf_language_tag")
         self.three_letter_iso_name = kwargs.get("three_letter_iso_name")
         self.three_letter_windows_name = kwargs.get("three_letter_windows_name")
         self.two_letter_iso_language_name = kwargs.get("two_letter_iso_language_name")
-- 
2.43.0


From 78d8bb2737adda12337774f6566b4e05151607bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:39:36 +0000
Subject: [PATCH 30/48] fix: serializing a queue or stack removed its entries
 from the caller's object

---
 src/pypsrp/serializer.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index d818234..3e15064 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -484,10 +484,14 @@ class Serializer(object):
             metadata = QueueMeta(name=metadata.name, optional=metadata.optional)
         self._create_tn(obj, metadata.list_types)
 
+        # leave the caller's queue as it is
+        entries = copy(values)
+        entries.queue = copy(values.queue)
+
         que = ET.SubElement(obj, "QUE")
         while True:
             try:
-                value = values.get(block=False)
+                value = entries.get(block=False)
                 self.serialize(value, copy(metadata.list_value_meta), parent=que, clear=False)
             except Empty:
                 break
@@ -503,12 +507,8 @@ class Serializer(object):
         self._create_tn(obj, metadata.list_types)
 
         stk = ET.SubElement(obj, "STK")
-        while True:
-            try:
-                value = values.pop()
-                self.serialize(value, copy(metadata.list_value_meta), parent=stk, clear=False)
-            except IndexError:
-                break
+        for value in reversed(values):
+            self.serialize(value, copy(metadata.list_value_meta), parent=stk, clear=False)
 
         return obj
 
-- 
2.43.0


From 8e591edb6f4037b0ce9edb3cdf9460ec773246cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:44:44 +0000
Subject: [PATCH 31/48] fix: an object used twice as an argument of a command
 was sent as a reference without the name of the value

---
 src/pypsrp/serializer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 3e15064..1ce1e94 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -854,8 +854,9 @@ class Serializer(object):
             for ref, value in self.obj.items():
                 if value == obj:
                     sub_element = ET.SubElement(parent, "Ref", RefId=ref)
-                    if key is not None:
-                        sub_element.attrib["N"] = key
+                    name = key if meta is None else meta.name
+                    if name is not None:
+                        sub_element.attrib["N"] = name
                     return
 
         if meta is None:
-- 
2.43.0


From 9a460016ddb171475f853cc1fa0064d2602526aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:45:07 +0000
Subject: [PATCH 32/48] fix: a pipeline with a queue among its arguments could
 not be invoked

---
 src/pypsrp/complex_objects.py | 9 ++++-----
 src/pypsrp/serializer.py      | 3 ++-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pypsrp/complex_objects.py b/src/pypsrp/complex_objects.py
index d79c785..6651ecf 100644
--- a/src/pypsrp/complex_objects.py
+++ b/src/pypsrp/complex_objects.py
@@ -2,7 +2,7 @@
 # MIT License (see LICENSE or https://opensource.org/licenses/MIT)
 
 import typing
-from copy import deepcopy
+from copy import copy
 
 from pypsrp._utils import to_string, version_equal_or_newer
 
@@ -513,10 +513,9 @@ class Pipeline(ComplexObject):
         # further commands may be added to its statement later
         last = len(self.commands) - 1
         for index, command in enumerate(self.commands):
-            # need to use deepcopy as the values can be appended to multiple
-            # parents and in lxml that removes it from the original parent,
-            # whereas this will create a copy of the statement for each parent
-            current_statement.append(deepcopy(command))
+            # the values are not copied, they can be of any type (a Queue for
+            # example cannot be copied)
+            current_statement.append(copy(command))
             if command.end_of_statement or index == last:
                 statements.append(current_statement)
                 current_statement = []
diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 1ce1e94..c5a127c 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -98,7 +98,8 @@ class Serializer(object):
 
             return value
 
-        metadata = metadata or ObjectMeta()
+        # the tag depends on the value, do not keep it for the next one
+        metadata = copy(metadata) if metadata is not None else ObjectMeta()
         if metadata.tag == "*":
             if isinstance(value, TaggedValue):
                 metadata.tag = value.tag
-- 
2.43.0


From b688f4fdfc48bec0d2a8c80631e88cb3fb7e3750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:52:17 +0000
Subject: [PATCH 33/48] fix: a value tagged as a date was sent as an empty
 element

---
 src/pypsrp/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index c5a127c..ebee46c 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -113,7 +113,7 @@ class Serializer(object):
             "ToString": lambda d: self._serialize_string(d),
             "C": lambda m, d: str(ord(d)),
             "B": lambda m, d: str(d).lower(),
-            "DT": lambda m, d: None,
+            "DT": lambda m, d: str(d),
             "TS": lambda m, d: str(d),
             "By": lambda m, d: str(d),
             "SB": lambda m, d: str(d),
-- 
2.43.0


From fa98d866c926cad3a73494208b5ffa70be5d4316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:18:58 +0000
Subject: [PATCH 34/48] fix: use the certificate key password on connections
 made through a proxy

---
 src/pypsrp/_pool_manager.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pypsrp/_pool_manager.py b/src/pypsrp/_pool_manager.py
index 81c7516..be2183d 100644
--- a/src/pypsrp/_pool_manager.py
+++ b/src/pypsrp/_pool_manager.py
@@ -76,6 +76,13 @@ class HTTPSAdapterWithKeyPassword(requests.adapters.HTTPAdapter):
             **pool_kwargs,
         )
 
+    def proxy_manager_for(self, proxy, **proxy_kwargs):
+        return super().proxy_manager_for(
+            proxy,
+            key_password=self.__key_password,
+            **proxy_kwargs,
+        )
+
 
 def _wrap(
     func: t.Callable[..., T],
-- 
2.43.0


From d025bff1f9de6e6f881b5f255abc64e156a8e6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:19:11 +0000
Subject: [PATCH 35/48] fix: is_alive never opens a connection through a proxy
 either

---
 src/pypsrp/_pool_manager.py | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/pypsrp/_pool_manager.py b/src/pypsrp/_pool_manager.py
index be2183d..4f4a620 100644
--- a/src/pypsrp/_pool_manager.py
+++ b/src/pypsrp/_pool_manager.py
@@ -123,6 +123,19 @@ def _create_connection_pool(pool):
     pool.ConnectionCls = _wrap(pool.ConnectionCls, after=_create_new_connection_with_failure)
 
 
+def _wrap_pool_classes(manager):
+    # pool_classes_by_scheme stores the urllib3 pool types used when creating
+    # the connection pool for http/https. We wrap the __init__ method so we can
+    # inject our custom ConnectionCls that wraps the connect method when
+    # created.
+    # Copy the dict so we only mutate this adapter's instance, not the
+    # module-level dict shared by all urllib3 PoolManager instances.
+    pool_classes = dict(manager.pool_classes_by_scheme)
+    for scheme, pool_cls in list(pool_classes.items()):
+        pool_classes[scheme] = _wrap(pool_cls, after=_create_connection_pool)
+    manager.pool_classes_by_scheme = pool_classes
+
+
 def create_request_adapter(  # type: ignore[no-any-unimported]  # requests does not have typing stubs for urllib3
     *,
     max_retries: Retry,
@@ -138,15 +151,19 @@ def create_request_adapter(  # type: ignore[no-any-unimported]  # requests does
     else:
         adapter = requests.adapters.HTTPAdapter(max_retries=max_retries)
 
-    # pool_classes_by_scheme stores the urllib3 pool types used when creating
-    # the connection pool for http/https. We wrap the __init__ method so we can
-    # inject our custom ConnectionCls that wraps the connect method when
-    # created.
-    # Copy the dict so we only mutate this adapter's instance, not the
-    # module-level dict shared by all urllib3 PoolManager instances.
-    pool_classes = dict(adapter.poolmanager.pool_classes_by_scheme)
-    for scheme, pool_cls in list(pool_classes.items()):
-        pool_classes[scheme] = _wrap(pool_cls, after=_create_connection_pool)
-    adapter.poolmanager.pool_classes_by_scheme = pool_classes
+    _wrap_pool_classes(adapter.poolmanager)
+
+    # The requests that go through a proxy have their own manager, it is
+    # created when the first of them is sent.
+    wrapped = set()
+
+    def wrap_proxy_manager(manager):
+        if manager not in wrapped:
+            wrapped.add(manager)
+            _wrap_pool_classes(manager)
+
+    adapter.proxy_manager_for = _wrap(  # type: ignore[method-assign]
+        adapter.proxy_manager_for, after=wrap_proxy_manager
+    )
 
     return adapter
-- 
2.43.0


From 203d721225e6c626776583629e951caa587ecb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:19:11 +0000
Subject: [PATCH 36/48] fix: do not send a request again when a proxy closes
 the connection

---
 src/pypsrp/wsman.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index c15f30a..6f8bdec 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -987,6 +987,12 @@ class _TransportHTTP(object):
             del retry_kwargs["status"]
             retries = Retry(**retry_kwargs)
 
+        # A connection that a proxy closes after the request was sent is an
+        # "other" error, it must not be sent again. The attribute was added in
+        # urllib3 1.26.
+        if hasattr(retries, "other"):
+            retries.other = 0
+
         session.mount(
             "http://",
             _pool_manager.create_request_adapter(max_retries=retries),
-- 
2.43.0


From 97c604af708f414830733202c69d5a23110e8950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:16:00 +0000
Subject: [PATCH 37/48] fix: reopen a shell with any duration the server
 reported

A duration with days (P1DT2H) was wrapped as if it were seconds.
---
 src/pypsrp/shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/shell.py b/src/pypsrp/shell.py
index 81a21a4..31ba806 100644
--- a/src/pypsrp/shell.py
+++ b/src/pypsrp/shell.py
@@ -185,7 +185,7 @@ class WinRS(object):
             # once opened this is the duration reported by the server, do not
             # wrap it again when the shell is reopened
             idle_time_out = str(self.idle_time_out)
-            if not idle_time_out.startswith("PT"):
+            if not idle_time_out.startswith("P"):
                 idle_time_out = "PT%sS" % idle_time_out
             ET.SubElement(shell, "{%s}IdleTimeOut" % rsp).text = idle_time_out
 
-- 
2.43.0


From ccb1da73bd61efc75af1da4681793c71960741bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:34:08 +0000
Subject: [PATCH 38/48] fix: write infinities and NaN as XML Schema names them

The server cannot read inf, -inf and nan.
---
 src/pypsrp/serializer.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index ebee46c..03e85ac 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -123,8 +123,8 @@ class Serializer(object):
             "I32": lambda m, d: str(d),
             "U64": lambda m, d: str(d),
             "I64": lambda m, d: str(d),
-            "Sg": lambda m, d: str(d),
-            "Db": lambda m, d: str(d),
+            "Sg": lambda m, d: self._serialize_float(d),
+            "Db": lambda m, d: self._serialize_float(d),
             "D": lambda m, d: str(d),
             "BA": lambda m, d: to_string(base64.b64encode(d)),
             "G": lambda m, d: str(d),
@@ -592,6 +592,14 @@ class Serializer(object):
 
         return string_value
 
+    def _serialize_float(
+        self,
+        value: typing.Any,
+    ) -> str:
+        # XML has its own names for the values that are no numbers
+        string_value = str(value)
+        return {"inf": "INF", "-inf": "-INF", "nan": "NaN"}.get(string_value, string_value)
+
     def _serialize_secure_string(
         self,
         value: str,
-- 
2.43.0


From 2440aaa0454c42ff5fad09f8d3fbcd0acc3d0c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:14:48 +0000
Subject: [PATCH 39/48] fix: references of an element serialized before clashed
 with those of its document

---
 src/pypsrp/serializer.py | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 03e85ac..433b482 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -8,7 +8,7 @@ import re
 import typing
 import uuid
 import xml.etree.ElementTree as ET
-from copy import copy
+from copy import copy, deepcopy
 from queue import Empty, Queue
 
 from cryptography.hazmat.primitives.padding import PKCS7
@@ -90,6 +90,9 @@ class Serializer(object):
             self._clear()
 
         if isinstance(value, ET.Element):
+            if parent is not None:
+                value = self._copy_element(value)
+
             if metadata is not None and metadata.name is not None:
                 value.attrib["N"] = metadata.name
 
@@ -811,6 +814,30 @@ class Serializer(object):
         self.tn = {}
         self.tn_id = 0
 
+    def _copy_element(
+        self,
+        element: ET.Element,
+    ) -> ET.Element:
+        # the element was serialized as a document of its own, its references
+        # must not clash with the ones of the document it becomes part of
+        element = deepcopy(element)
+        obj_ids: typing.Dict[str, str] = {}
+        tn_ids: typing.Dict[str, str] = {}
+
+        for node in element.iter():
+            ref_id = node.attrib.get("RefId", "")
+            if node.tag in ["Obj", "Ref"]:
+                if ref_id not in obj_ids:
+                    obj_ids[ref_id] = self._get_obj_id()
+                node.attrib["RefId"] = obj_ids[ref_id]
+            elif node.tag in ["TN", "TNRef"]:
+                if ref_id not in tn_ids:
+                    tn_ids[ref_id] = str(self.tn_id)
+                    self.tn_id += 1
+                node.attrib["RefId"] = tn_ids[ref_id]
+
+        return element
+
     def _get_obj_id(self) -> str:
         ref_id = str(self.obj_id)
         self.obj_id += 1
-- 
2.43.0


From 8f31734b2918766ee8abf6e3850236b8e36ea117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:25:41 +0000
Subject: [PATCH 40/48] fix: an object read before was written with the tags of
 the values it was read with

---
 src/pypsrp/serializer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 433b482..32ee3be 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -670,7 +670,9 @@ class Serializer(object):
                         raise SerializationError(err_msg)
                     val = None
                 elif val is not None:
-                    val = self.deserialize(val, property_meta, clear=False)
+                    # the tag of this value must not stay on the object, it may
+                    # be serialized with other values later
+                    val = self.deserialize(val, copy(property_meta), clear=False)
 
                 setattr(obj, attr, val)
 
@@ -759,6 +761,7 @@ class Serializer(object):
             # the entries of a System.Object list can be of any type
             value_meta = None
 
+        value_meta = copy(value_meta)
         for entry in entries:
             entry_value = self.deserialize(entry, metadata=value_meta, clear=False)
             yield entry_value
-- 
2.43.0


From 1e7f2f7da512c24f46cde5161b1db05e32d6dd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:26:25 +0000
Subject: [PATCH 41/48] fix: dictionary entries of the library's objects were
 written without the names of their key and value

---
 src/pypsrp/serializer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 32ee3be..090fcee 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -564,6 +564,8 @@ class Serializer(object):
             en = ET.SubElement(dct, "En")
             key_meta = copy(metadata.dict_key_meta)
             value_meta = copy(metadata.dict_value_meta)
+            key_meta.name = "Key"
+            value_meta.name = "Value"
             self.serialize(key, key_meta, parent=en, clear=False)
             self.serialize(value, value_meta, parent=en, clear=False)
 
-- 
2.43.0


From 59b16ceb487a2615a212df13c80f6fec06058bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:53 +0000
Subject: [PATCH 42/48] fix: do not use the security context of a closed
 connection again

---
 src/pypsrp/wsman.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index 6f8bdec..22c83e7 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -819,6 +819,10 @@ class _TransportHTTP(object):
         if self.session:
             self.session.close()
 
+        # The security context goes with the connection, the next message needs
+        # to authenticate again.
+        self.encryption = None
+
     def send(
         self,
         message: bytes,
-- 
2.43.0


From 9da4c69269bdc62b205d9d416a8a92feea393e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:53 +0000
Subject: [PATCH 43/48] fix: a connection that breaks within the reply is not
 alive

---
 src/pypsrp/powershell.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index f42a8e9..c558a20 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -721,6 +721,7 @@ class RunspacePool(object):
         except (
             _pool_manager.NewConnectionDisabled,
             TimeoutError,
+            requests.exceptions.ChunkedEncodingError,
             requests.exceptions.ConnectionError,
             requests.exceptions.Timeout,
         ):
-- 
2.43.0


From 651f0ca1fd8973be35ea47cf065751ed464668ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:53 +0000
Subject: [PATCH 44/48] fix: forget the security context however its connection
 was lost

---
 src/pypsrp/wsman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index 22c83e7..2ca7ee2 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -890,7 +890,7 @@ class _TransportHTTP(object):
                     prep_request,
                     timeout=timeout,
                 )
-            except (requests.ReadTimeout, requests.ConnectionError) as e:
+            except (requests.RequestException, _pool_manager.NewConnectionDisabled) as e:
                 # On a failure the encryption state is invalidated and needs to
                 # be recreated after authentication is done.
                 self.encryption = None
-- 
2.43.0


From bcc906897f09a625a9707dd9e6a6eaec68477d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:53 +0000
Subject: [PATCH 45/48] fix: encrypt a message again when the server asks for a
 new authentication

---
 src/pypsrp/wsman.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index 2ca7ee2..87f2409 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -729,6 +729,11 @@ class SelectorSet(_WSManSet):
         super(SelectorSet, self).__init__("SelectorSet", "Selector", False)
 
 
+def _keep_alive(request: requests.PreparedRequest) -> requests.PreparedRequest:
+    request.headers["Connection"] = "Keep-Alive"
+    return request
+
+
 # this should not be used outside of this class
 class _TransportHTTP(object):
     def __init__(
@@ -835,6 +840,7 @@ class _TransportHTTP(object):
             self.session = self._build_session()
 
         attempt = 0
+        new_context = False
         while True:
             # need to send an initial blank message to setup the security
             # context required for encryption
@@ -861,6 +867,7 @@ class _TransportHTTP(object):
                     protocol = WinRMEncryption.KERBEROS
 
                 self.encryption = WinRMEncryption(self.session.auth.contexts[hostname], protocol)  # type: ignore[union-attr] # This should not happen
+                new_context = True
 
             if log.isEnabledFor(logging.DEBUG):
                 log.debug("Sending message on attempt %d: %s" % (attempt, message.decode("utf-8")))
@@ -884,12 +891,23 @@ class _TransportHTTP(object):
                 headers["Content-Type"] = "application/soap+xml;charset=UTF-8"
 
             request = requests.Request("POST", self.endpoint, data=payload, headers=headers)
+            if self.wrap_required:
+                # The authentication is done by the blank message. The auth
+                # handler must not send this payload with another context.
+                request.auth = _keep_alive
             prep_request = self.session.prepare_request(request)
             try:
                 return self._send_request(
                     prep_request,
                     timeout=timeout,
                 )
+            except AuthenticationError:
+                # The server no longer knows the security context, the message
+                # needs to be encrypted again with a new one.
+                self.encryption = None
+                if not self.wrap_required or new_context:
+                    raise
+
             except (requests.RequestException, _pool_manager.NewConnectionDisabled) as e:
                 # On a failure the encryption state is invalidated and needs to
                 # be recreated after authentication is done.
-- 
2.43.0


From b9008ac849c18ae82c988f86d71c6c200c03c63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:46 +0000
Subject: [PATCH 46/48] fix: a pipeline that is run again has no errors of the
 previous run

---
 src/pypsrp/powershell.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index c558a20..a185f2c 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1564,6 +1564,7 @@ class PowerShell(object):
         if cmd_id is not None:
             self._command_id = cmd_id.text or ""
         self.state = PSInvocationState.RUNNING
+        self.had_errors = False  # may be set by a previous run
 
         # send the remaining fragments with the Send message
         for fragment in fragments:
-- 
2.43.0


From 34f4b1c30af1d53170cd7b2999422b21b6a3a35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:46 +0000
Subject: [PATCH 47/48] fix: leave the base options given to WinRS.open as they
 are

---
 src/pypsrp/shell.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/shell.py b/src/pypsrp/shell.py
index 31ba806..b693a15 100644
--- a/src/pypsrp/shell.py
+++ b/src/pypsrp/shell.py
@@ -202,8 +202,10 @@ class WinRS(object):
             shell.append(open_content)
 
         # inherit the base options if it was passed in, otherwise use an empty
-        # option set
-        options = OptionSet() if base_options is None else base_options
+        # option set. The set of the caller must not collect our options.
+        options = OptionSet()
+        if base_options is not None:
+            options.values.extend(base_options.values)
         if self.no_profile:
             options.add_option("WINRS_NOPROFILE", "TRUE", {"MustComply": "true"})
         if self.codepage is not None:
-- 
2.43.0


From dfc949ab1a9772c9cd65533b826f8102ebf8775d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:46 +0000
Subject: [PATCH 48/48] fix: a process can be run again

---
 src/pypsrp/shell.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pypsrp/shell.py b/src/pypsrp/shell.py
index b693a15..689756f 100644
--- a/src/pypsrp/shell.py
+++ b/src/pypsrp/shell.py
@@ -430,6 +430,12 @@ class Process(object):
         command_id = response.find("rsp:CommandResponse/rsp:CommandId", namespaces=NAMESPACES)
         self.id = command_id.text if command_id is not None else None
 
+        # the process may have been run before
+        self.state = CommandState.PENDING
+        self.rc = None
+        self.stdout = b""
+        self.stderr = b""
+
     def end_invoke(self) -> None:
         """
         Wait until the process is done
-- 
2.43.0

