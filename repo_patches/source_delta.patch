From 8ec9c544949d865a7460a180e4313aaf58f9080a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:32 +0000
Subject: [PATCH 01/37] fix: encodeSize() with an explicit length rejects sizes
 that do not fit

A size too large for the given number of bytes was OR-ed over the length
marker (or became the reserved 'unknown' pattern) instead of being rejected.
---
 ebmlite/encoding.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ebmlite/encoding.py b/ebmlite/encoding.py
index f7b9e53..b3d365e 100644
--- a/ebmlite/encoding.py
+++ b/ebmlite/encoding.py
@@ -87,8 +87,12 @@ def encodeSize(val: Optional[int], length: Optional[int] = None) -> bytes:
         length = 1 if (length is None or length == -1) else length
         return b'\xff' * length
 
-    length = getLength(val) if (length is None or length == -1) else length
+    explicit = not (length is None or length == -1)
+    length = length if explicit else getLength(val)
     try:
+        # Note: all value bits 1 (i.e., `2**(7*length) - 1`) is 'unknown' size
+        if explicit and not 0 <= val <= 2**(7*length) - 2:
+            raise ValueError
         prefix = LENGTH_PREFIXES[length]
         return encodeUInt(val | prefix, length)
     except (IndexError, TypeError, ValueError):
-- 
2.43.0


From cc7ec093ee5e69b0e5f9f6dd44c98494d2f29e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:32 +0000
Subject: [PATCH 02/37] fix: xmlElement2ebml() no longer modifies the
 UnknownElement class

Setting `id` on the shared class replaced its slot, so parsing any unknown
element failed after the first conversion of one from XML.
---
 ebmlite/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 8dd6b97..c0c1a45 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -249,9 +249,9 @@ def xmlElement2ebml(xmlEl,
         if eid is None:
             raise NameError("Unrecognized EBML element name with no 'id' "
                             "attribute in XML: %s" % xmlEl.tag)
-        cls = core.UnknownElement
         encId = encoding.encodeId(int(eid, 16))
-        cls.id = int(eid, 16)
+        # `id` is set in a new subclass; `UnknownElement` itself is shared.
+        cls = type('UnknownElement', (core.UnknownElement,), {'id': int(eid, 16)})
 
     codec = xmlEl.get('encoding', 'base64')
 
-- 
2.43.0


From d280697b34fd19df142ea0368c6d8fd1c526c7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:32 +0000
Subject: [PATCH 03/37] fix: xmlElement2ebml() accepts sizeLength attributes on
 nested master elements

---
 ebmlite/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index c0c1a45..bd691aa 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -266,7 +266,7 @@ def xmlElement2ebml(xmlEl,
         else:
             sl = int(sl)
     else:
-        sl = xmlEl.get('sizeLength', sizeLength)
+        sl = int(xmlEl.get('sizeLength', sizeLength))
 
     if issubclass(cls, core.MasterElement):
         ebmlFile.write(encId)
-- 
2.43.0


From 9d3393b172636d0583b2a3e48282a22101ac4f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:32 +0000
Subject: [PATCH 04/37] fix: xmlElement2ebml() applies unknown=False to nested
 elements

---
 ebmlite/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index bd691aa..fb443bb 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -274,7 +274,7 @@ def xmlElement2ebml(xmlEl,
         ebmlFile.write(encoding.encodeSize(None, sl))
         size = 0
         for chEl in xmlEl:
-            size += xmlElement2ebml(chEl, ebmlFile, schema, sl)
+            size += xmlElement2ebml(chEl, ebmlFile, schema, sl, unknown)
         endPos = ebmlFile.tell()
         ebmlFile.seek(sizePos)
         ebmlFile.write(encoding.encodeSize(size, sl))
-- 
2.43.0


From 00a4054c82ca2de04d2a93156588c20246a807f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:32 +0000
Subject: [PATCH 05/37] fix: ThreadAwareFile.close() raised RuntimeError (dict
 changed during iteration)

---
 ebmlite/threaded_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/threaded_file.py b/ebmlite/threaded_file.py
index 20609b0..b39bcbb 100644
--- a/ebmlite/threaded_file.py
+++ b/ebmlite/threaded_file.py
@@ -137,7 +137,7 @@ class ThreadAwareFile(io.FileIO):
             self._ready.wait(self.timeout)
             self._ready.clear()
             
-            for i in self.threads.keys():
+            for i in list(self.threads.keys()):
                 if self.threads[i].closed:
                     del self.threads[i]
         finally:
-- 
2.43.0


From 3faaecf1ad3a963f75fbe85f995b7a1025d23adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:32 +0000
Subject: [PATCH 06/37] fix: ThreadAwareFile rejects write modes given by
 keyword, and mode 'x'

---
 ebmlite/threaded_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebmlite/threaded_file.py b/ebmlite/threaded_file.py
index b39bcbb..3daef17 100644
--- a/ebmlite/threaded_file.py
+++ b/ebmlite/threaded_file.py
@@ -45,9 +45,9 @@ class ThreadAwareFile(io.FileIO):
             one of the "read" modes (``r``, ``rb``, ``rU``, etc.).
         """
         # Ensure the file mode, if specified, is "read."
-        mode = args[1] if len(args) > 1 else 'r'
+        mode = args[1] if len(args) > 1 else kwargs.get('mode', 'r')
         if isinstance(mode, str):
-            if 'a' in mode or 'w' in mode or '+' in mode:
+            if any(m in mode for m in 'awx+'):
                 raise IOError("%s is read-only" % self.__class__.__name__)
 
         # Undocumented keyword argument `_new` is used by `makeThreadAware()`
-- 
2.43.0


From 12ed499df55092f3489253643242913417b3fef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:32 +0000
Subject: [PATCH 07/37] fix: ThreadAwareFile delegates readable, seekable,
 writable, readall and readinto

These were inherited from FileIO and failed with 'I/O operation on closed file'.
---
 ebmlite/threaded_file.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/ebmlite/threaded_file.py b/ebmlite/threaded_file.py
index 3daef17..9410d0b 100644
--- a/ebmlite/threaded_file.py
+++ b/ebmlite/threaded_file.py
@@ -199,6 +199,15 @@ class ThreadAwareFile(io.FileIO):
     def read(self, *args, **kwargs):
         return self.getThreadStream().read(*args, **kwargs)
 
+    def readable(self):
+        return self.getThreadStream().readable()
+
+    def readall(self):
+        return self.getThreadStream().readall()
+
+    def readinto(self, *args, **kwargs):
+        return self.getThreadStream().readinto(*args, **kwargs)
+
     def readline(self, *args, **kwargs):
         return self.getThreadStream().readline(*args, **kwargs)
 
@@ -208,6 +217,9 @@ class ThreadAwareFile(io.FileIO):
     def seek(self, *args, **kwargs):
         return self.getThreadStream().seek(*args, **kwargs)
 
+    def seekable(self):
+        return self.getThreadStream().seekable()
+
     def tell(self):
         return self.getThreadStream().tell()
 
@@ -223,6 +235,9 @@ class ThreadAwareFile(io.FileIO):
         raise IOError("Can't writelines(); %s is read-only" %
                       self.__class__.__name__)
 
+    def writable(self):
+        return self.getThreadStream().writable()
+
     def __enter__(self, *args, **kwargs):
         return self.getThreadStream().__enter__()
 
-- 
2.43.0


From e61083b6b775b53a6afa83d61ed9c77ba8df0815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 08/37] fix: encodeUnicode() accepts bytes and bytearrays, as
 its type check allows

---
 ebmlite/encoding.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebmlite/encoding.py b/ebmlite/encoding.py
index b3d365e..3aae6ef 100644
--- a/ebmlite/encoding.py
+++ b/ebmlite/encoding.py
@@ -288,7 +288,8 @@ def encodeUnicode(val: str, length: Optional[int] = None) -> bytes:
     if not isinstance(val, (bytearray, bytes, str)):
         raise TypeError('Cannot encode {} {!r} as string'.format(type(val).__name__, val))
 
-    val = val.encode('utf_8')
+    if isinstance(val, str):
+        val = val.encode('utf_8')
 
     if length is not None:
         val = val[:length]
-- 
2.43.0


From 82f75391431445952be9d449d34734c5ae8d342e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 09/37] fix: toXml() output can be serialized if the schema has
 no file

---
 ebmlite/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index fb443bb..16370f5 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -177,7 +177,7 @@ def toXml(el: core.Element,
     if isinstance(el, core.Document):
         xmlEl.set('source', el.filename)
         xmlEl.set('schemaName', el.schema.name)
-        xmlEl.set('schemaFile', el.schema.filename)
+        xmlEl.set('schemaFile', el.schema.filename or '')
     else:
         if ids and isinstance(el.id, int):
             xmlEl.set('id', "0x%X" % el.id)
-- 
2.43.0


From cf3ef68b6badae0cd264d457525526dbb0b99381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 10/37] fix: load documents and schemata from streams with a
 numeric name

---
 ebmlite/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index aa9fea2..ed0763e 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -830,6 +830,11 @@ class Document(MasterElement):
         except AttributeError:
             self.filename = ""
 
+        if isinstance(self.filename, int):
+            # Streams without a filename (e.g., `tempfile.TemporaryFile()`)
+            # may have the file descriptor as their `name`.
+            self.filename = ""
+
         if name is None:
             if self.filename:
                 self.name = os.path.splitext(os.path.basename(self.filename))[0]
@@ -1098,7 +1103,7 @@ class Schema(object):
 
         if isinstance(source, (str, Path)):
             self.filename = os.path.realpath(source)
-        elif hasattr(source, "name"):
+        elif hasattr(source, "name") and not isinstance(source.name, int):
             self.filename = os.path.realpath(source.name)
 
         self.elements = {}    # Element types, keyed by ID
-- 
2.43.0


From f6c84127f81fc04dd50b0a9542ebaec57a38351d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 11/37] fix: toXml() does not escape non-ASCII text twice

ElementTree escapes text when serializing; doing so beforehand changed the
value when the XML was read back.
---
 ebmlite/tools/utils.py | 6 +++++-
 ebmlite/util.py        | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ebmlite/tools/utils.py b/ebmlite/tools/utils.py
index 7169429..f70f5de 100644
--- a/ebmlite/tools/utils.py
+++ b/ebmlite/tools/utils.py
@@ -33,5 +33,9 @@ def load_files(args, binary_output=False):
     output = os.path.realpath(os.path.expanduser(args.output))
     if os.path.exists(output) and not args.clobber:
         errPrint("Error: Output file already exists: %s" % args.output)
-    with open(output, ('wb' if binary_output else 'w')) as out:
+    if binary_output:
+        out = open(output, 'wb')
+    else:
+        out = open(output, 'w', encoding='utf-8')
+    with out:
         yield schema, out
diff --git a/ebmlite/util.py b/ebmlite/util.py
index 16370f5..a0754cb 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -201,7 +201,7 @@ def toXml(el: core.Element,
         xmlEl.set('encoding', binary_codec.NAME)
         xmlEl.text = binary_codec.encode(el.value, offset=el.offset)
     elif not isinstance(el, core.VoidElement):
-        xmlEl.set('value', str(el.value).encode('ascii', 'xmlcharrefreplace').decode())
+        xmlEl.set('value', str(el.value))
 
     return xmlEl
 
-- 
2.43.0


From a601525e21918eaac792c249eda37412b334948e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 12/37] fix: xmlElement2ebml() reads date elements written by
 toXml()

---
 ebmlite/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index a0754cb..fc1ca58 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -18,6 +18,7 @@ __all__ = ['createID', 'validateID', 'toXml', 'xml2ebml', 'loadXml', 'pprint',
            'printSchemata', 'flatiter']
 
 import ast
+from datetime import datetime
 from io import BytesIO
 import pathlib
 import struct
@@ -283,6 +284,8 @@ def xmlElement2ebml(xmlEl,
 
     elif issubclass(cls, core.BinaryElement):
         val = xml_codecs.BINARY_CODECS[codec].decode(xmlEl.text)
+    elif issubclass(cls, core.DateElement):
+        val = datetime.fromisoformat(xmlEl.get('value'))
     elif issubclass(cls, (core.IntegerElement, core.FloatElement)):
         val = ast.literal_eval(xmlEl.get('value'))
     else:
-- 
2.43.0


From a0b21102b929b2a678cfdc16cf2d3ab9f946cedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 13/37] fix: xmlElement2ebml() reads non-finite floats written
 by toXml()

---
 ebmlite/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index fc1ca58..c36a286 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -286,7 +286,7 @@ def xmlElement2ebml(xmlEl,
         val = xml_codecs.BINARY_CODECS[codec].decode(xmlEl.text)
     elif issubclass(cls, core.DateElement):
         val = datetime.fromisoformat(xmlEl.get('value'))
-    elif issubclass(cls, (core.IntegerElement, core.FloatElement)):
+    elif issubclass(cls, core.IntegerElement):
         val = ast.literal_eval(xmlEl.get('value'))
     else:
         val = cls.dtype(xmlEl.get('value'))
-- 
2.43.0


From 8b09e765df33522640af3945750ce59ea82ee265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 14/37] fix: Base64Codec with cols=0 writes a single block, as
 documented

---
 ebmlite/xml_codecs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/xml_codecs.py b/ebmlite/xml_codecs.py
index 62407ca..95712f6 100644
--- a/ebmlite/xml_codecs.py
+++ b/ebmlite/xml_codecs.py
@@ -130,7 +130,7 @@ class Base64Codec(BinaryCodec):
 
         result = result.replace('\n', '')
 
-        if self.cols is None:
+        if not self.cols:
             if stream is not None:
                 return out.write(result)
             return result
-- 
2.43.0


From 43f9ae27d35d31652663d4df380487cfabf734fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 15/37] fix: encoded element sizes always match the payload

A master element encoded with an explicit length declared that length,
regardless of the size of its contents.
---
 ebmlite/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index ed0763e..cfe8c36 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -262,7 +262,7 @@ class Element(object):
                 result.extend(cls.encode(v, length, lengthSize, infinite))
             return result
         payload = cls.encodePayload(value, length=length)
-        length = None if infinite else (length or len(payload))
+        length = None if infinite else len(payload)
         encId = encoding.encodeId(cls.id)
         return encId + encoding.encodeSize(length, lengthSize) + payload
 
-- 
2.43.0


From ae42ca9ea71079fa27bce794007809ff2b744c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 16/37] fix: schemata without a default DocType are named after
 their file, as documented

---
 ebmlite/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index cfe8c36..bdc9111 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1136,8 +1136,11 @@ class Schema(object):
             self.elements[el.id] = void
             self.elementsByName['Void'] = void
 
-        # Schema name. Defaults to the schema's default EBML 'DocType'
+        # Schema name. Defaults to the schema's default EBML 'DocType', or the
+        # base filename.
         self.name = name or self.type
+        if not self.name:
+            self.name = os.path.splitext(os.path.basename(self.filename or ''))[0]
 
         # Create the schema's Document subclass.
         self.document = type('%sDocument' % self.name.title(), (Document,),
-- 
2.43.0


From 2909c3594f71d398ec0d05bfe15464aa1fe21d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 17/37] fix: xml2ebml() closes the file it opened if the
 conversion fails

---
 ebmlite/util.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index c36a286..8b0463a 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -333,10 +333,9 @@ def xml2ebml(xmlFile,
         :raise NameError: raises if an xml element is not present in the schema.
     """
     if isinstance(ebmlFile, (str, Path)):
-        ebmlFile = open(ebmlFile, 'wb')
-        openedEbml = True
-    else:
-        openedEbml = False
+        with open(ebmlFile, 'wb') as ebmlStream:
+            return xml2ebml(xmlFile, ebmlStream, schema, sizeLength=sizeLength,
+                            headers=headers, unknown=unknown)
 
     if not isinstance(schema, core.Schema):
         schema = core.loadSchema(schema)
@@ -372,9 +371,6 @@ def xml2ebml(xmlFile,
         numBytes += xmlElement2ebml(xmlRoot, ebmlFile, schema, sizeLength,
                                     unknown=unknown)
 
-    if openedEbml:
-        ebmlFile.close()
-
     return numBytes
 
 # ===========================================================================
-- 
2.43.0


From 67f52a51ae392ea5ff5c42162ba8ae02b8b68517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 18/37] fix: printSchemata() does not modify the list of paths
 it was given

---
 ebmlite/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 8b0463a..ed4d40d 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -493,7 +493,7 @@ def printSchemata(paths: Optional[List[Union[str, Path]]] = None,
 
     try:
         if paths:
-            paths.extend(core.SCHEMA_PATH)
+            paths = list(paths) + core.SCHEMA_PATH
         else:
             paths = core.SCHEMA_PATH
         schemata = core.listSchemata(*paths, absolute=absolute)
-- 
2.43.0


From b725cbae4eb6e7c4edd084d429ae803a200b077b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 19/37] fix: reading an integer longer than 8 bytes is an error

Only its first 8 bytes were decoded, producing a wrong value.
---
 ebmlite/decoding.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ebmlite/decoding.py b/ebmlite/decoding.py
index bb2dbb0..e339119 100644
--- a/ebmlite/decoding.py
+++ b/ebmlite/decoding.py
@@ -138,6 +138,9 @@ def readUInt(stream: BinaryIO, size: int) -> int:
     if size == 0:
         return 0
 
+    if size > 8:
+        raise IOError("Cannot read integer of length %s, only 8 or less." % size)
+
     data = stream.read(size)
     return _struct_uint64_unpack_from(data.rjust(8, b'\x00'))[0]
 
@@ -153,6 +156,9 @@ def readInt(stream: BinaryIO, size: int) -> int:
     if size == 0:
         return 0
 
+    if size > 8:
+        raise IOError("Cannot read integer of length %s, only 8 or less." % size)
+
     data = stream.read(size)
     if data[0] & 0b10000000:
         pad = b'\xff'
-- 
2.43.0


From c9042f23e07b93d0631220dc01824bb23bafd70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 20/37] fix: createID() can generate the maximum ID of a range,
 as documented

---
 ebmlite/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index ed4d40d..c18ede2 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -74,7 +74,7 @@ def createID(schema: core.Schema,
     exclude = set(exclude).union(schema.elements.keys())
 
     result = []
-    for i in (x for x in range(*idrange) if x not in exclude):
+    for i in (x for x in range(idrange[0], idrange[1] + 1) if x not in exclude):
         if len(result) == count:
             break
         result.append(i)
-- 
2.43.0


From 3943135a1b20fc07ac3d39c50ed8c497e1968158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 21/37] fix: MasterElement.gc() counts its own cleared value
 when not recursing

---
 ebmlite/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index bdc9111..5e2807d 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -688,8 +688,9 @@ class MasterElement(Element):
         """
         cleared = 0
         if self._value is not None:
+            cleared = 1
             if recurse:
-                cleared = sum(ch.gc(recurse) for ch in self._value) + 1
+                cleared += sum(ch.gc(recurse) for ch in self._value)
             self._value = None
         return cleared
 
-- 
2.43.0


From 7ac36b4ef4b8a581f2fcb4d0f0374fb876d23efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 22/37] fix: schema elements with global="true" are global, as
 documented

---
 ebmlite/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 5e2807d..df1e670 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1294,7 +1294,7 @@ class Schema(object):
             multiple = _getBool(attribs, 'multiple', False)
             precache = _getBool(attribs, 'precache', baseClass.precache)
             length = _getInt(attribs, 'length', None)
-            isGlobal = _getInt(attribs, 'global', None)
+            isGlobal = _getBool(attribs, 'global', None)
 
             if isGlobal is None:
                 # Element 'level'. The old schema format used level to define
-- 
2.43.0


From f4a866c4d496d214819249c9b8f2c837bb400544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 23/37] fix: loadXml() accepts a schema filename, as documented

---
 ebmlite/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index c18ede2..d87a0c5 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -392,6 +392,9 @@ def loadXml(xmlFile,
             automatically-generated temporary file.
         :return The root node of the specified EBML file.
     """
+    if not isinstance(schema, core.Schema):
+        schema = core.loadSchema(schema)
+
     if ebmlFile == ":memory:":
         ebmlFile = BytesIO()
         xml2ebml(xmlFile, ebmlFile, schema)
-- 
2.43.0


From 7034b4ca8760e4efb1f5b84ceb2081f91bd682c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 24/37] fix: command-line tools write binary output to stdout
 as binary

---
 ebmlite/tools/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/tools/utils.py b/ebmlite/tools/utils.py
index f70f5de..873d9bd 100644
--- a/ebmlite/tools/utils.py
+++ b/ebmlite/tools/utils.py
@@ -27,7 +27,7 @@ def load_files(args, binary_output=False):
         errPrint("Error loading schema: %s\n" % err)
 
     if not args.output:
-        yield schema, sys.stdout
+        yield schema, (sys.stdout.buffer if binary_output else sys.stdout)
         return
 
     output = os.path.realpath(os.path.expanduser(args.output))
-- 
2.43.0


From 35eb71ea4b920ef8f6d12cf72643209c356c0a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:13 +0000
Subject: [PATCH 25/37] fix: encode master elements and documents from lists of
 name/value tuples

This form is documented, but always raised an exception.
---
 ebmlite/core.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index df1e670..f43c379 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -228,6 +228,13 @@ class Element(object):
         return encoding.encodeBinary(data, length)
 
 
+    @classmethod
+    def _isPayload(cls, value: Any) -> bool:
+        """ Is the given list (or tuple) the value of a single element, rather
+            than a list of values, each to be encoded as its own element?
+        """
+        return False
+
     @classmethod
     def encode(cls,
                value: Any,
@@ -253,7 +260,7 @@ class Element(object):
         if infinite and not issubclass(cls, MasterElement):
             raise ValueError("Only Master elements can have 'infinite' lengths")
         length = cls.length if length is None else length
-        if isinstance(value, (list, tuple)):
+        if isinstance(value, (list, tuple)) and not cls._isPayload(value):
             if not cls.multiple:
                 raise ValueError("Multiple %s elements per parent not permitted"
                                  % cls.name)
@@ -720,6 +727,13 @@ class MasterElement(Element):
 
         return result
 
+    @classmethod
+    def _isPayload(cls, value: Any) -> bool:
+        """ Is the given list (or tuple) the value of a single element, i.e. a
+            list of name/value tuples?
+        """
+        return len(value) > 0 and all(isinstance(v, tuple) for v in value)
+
     @classmethod
     def encode(cls, 
                data: Union[Dict[str, Any], List[Tuple[str, Any]]], 
@@ -1014,7 +1028,7 @@ class Document(MasterElement):
         if headers is True:
             stream.write(cls.encodePayload(cls._createHeaders()))
 
-        if isinstance(data, list):
+        if isinstance(data, list) and not cls._isPayload(data):
             if len(data) > 0 and isinstance(data[0], list):
                 # List of lists: special case for Documents.
                 # Encode as multiple 'root' elements.
-- 
2.43.0


From 37f1af93b8bc4c6d6df286b519603581be5bcf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:50 +0000
Subject: [PATCH 26/37] fix: elements of unknown size with an explicit size
 length can be read back

---
 ebmlite/core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index f43c379..28a2eed 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -269,9 +269,12 @@ class Element(object):
                 result.extend(cls.encode(v, length, lengthSize, infinite))
             return result
         payload = cls.encodePayload(value, length=length)
-        length = None if infinite else len(payload)
         encId = encoding.encodeId(cls.id)
-        return encId + encoding.encodeSize(length, lengthSize) + payload
+        encSize = encoding.encodeSize(0 if infinite else len(payload), lengthSize)
+        if infinite:
+            # Unknown size: all bits 1, except those before the length marker.
+            encSize = encoding.encodeUInt(2**(7*len(encSize) + 1) - 1, len(encSize))
+        return encId + encSize + payload
 
     def dump(self):
         """ Dump this element's value as nested dictionaries, keyed by
-- 
2.43.0


From 540efac6a9fee83d1017ca4388daf4e3f335936d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 27/37] fix: redefining a schema element as its type's parent
 type is a conflict

---
 ebmlite/core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 28a2eed..98d1996 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1277,7 +1277,13 @@ class Schema(object):
             ename = oldEl.name
             eid = oldEl.id
 
-            if not issubclass(self.elements[eid], baseClass):
+            # Note: `Void` elements are defined as binary, but get a special
+            # class of their own (see `__init__()`).
+            oldBases = oldEl.__bases__
+            if issubclass(oldEl, VoidElement):
+                oldBases += (BinaryElement,)
+
+            if baseClass not in oldBases:
                 raise TypeError('%s %r (ID 0x%02X) redefined as %s' %
                                 (oldEl.__name__, ename, eid, baseClass.__name__))
 
-- 
2.43.0


From 675fca4a517b4a40fd418f663089d294fbb864d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:04 +0000
Subject: [PATCH 28/37] fix: reloading a schema replaces it under every name it
 was loaded by

---
 ebmlite/core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 98d1996..3f95a25 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1638,6 +1638,12 @@ def loadSchema(filename: Union[str, Path],
     with filename.open() as fs:
         schema = Schema(fs, **kwargs)
 
+    # If reloading, also replace the old instance where it was loaded by
+    # another name (e.g. by its base name, or by its full path).
+    previous = SCHEMATA.get(str(filename))
+    for name in [k for k, v in SCHEMATA.items() if v is previous]:
+        SCHEMATA[name] = schema
+
     SCHEMATA[str(filename)] = SCHEMATA[origName] = schema
     return schema
 
-- 
2.43.0


From 0f8237e5f4a7a3d50674a413efe7a020fb4872a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:10 +0000
Subject: [PATCH 29/37] fix: xml2ebml() does not add a second header if the XML
 root is an EBML header

---
 ebmlite/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index d87a0c5..3b425a0 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -355,7 +355,7 @@ def xml2ebml(xmlFile,
                         "schema %s (wrong schema)" % (xmlRoot.tag, schema.name))
 
     headers = headers and 'EBML' in schema
-    if headers and 'EBML' not in (el.tag for el in xmlRoot):
+    if headers and xmlRoot.tag != 'EBML' and 'EBML' not in (el.tag for el in xmlRoot):
         pos = ebmlFile.tell()
         cls = schema.document
         ebmlFile.write(cls.encodePayload(cls._createHeaders()))
-- 
2.43.0


From 4344c2576829e465caec3cff563f2f4fb5c5197a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:50 +0000
Subject: [PATCH 30/37] fix: Schema.verify() also checks the EBML header

---
 ebmlite/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 3f95a25..773baf3 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1502,7 +1502,7 @@ class Schema(object):
 
             return True
 
-        return _crawl(self.loads(data))
+        return _crawl(self.load(BytesIO(data), headers=True))
 
 
 # ==============================================================================
-- 
2.43.0


From 99e8998eaa46db51c4a35d7cf95dbe08b390e1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:52 +0000
Subject: [PATCH 31/37] fix: ThreadAwareFile gives a new thread its own stream
 if its ident is recycled

---
 ebmlite/threaded_file.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/ebmlite/threaded_file.py b/ebmlite/threaded_file.py
index 9410d0b..9370c2b 100644
--- a/ebmlite/threaded_file.py
+++ b/ebmlite/threaded_file.py
@@ -98,7 +98,7 @@ class ThreadAwareFile(io.FileIO):
             raise TypeError("Not a file: %r" % fileStream)
 
         f = cls(fileStream.name, fileStream.mode, _new=False)
-        f.threads[currentThread().ident] = fileStream
+        f.threads[currentThread()] = fileStream
         return f
 
 
@@ -107,13 +107,14 @@ class ThreadAwareFile(io.FileIO):
         """
         self._ready.wait(self.timeout)
 
-        ident = currentThread().ident
-        if ident not in self.threads:
+        # Note: identified by object; a thread's `ident` may get recycled.
+        thread = currentThread()
+        if thread not in self.threads:
             # First access from this thread. Open the file.
             fp = io.FileIO(*self.initArgs, **self.initKwargs)
-            self.threads[ident] = fp
+            self.threads[thread] = fp
             return fp
-        return self.threads[ident]
+        return self.threads[thread]
 
 
     def closeAll(self):
@@ -149,9 +150,9 @@ class ThreadAwareFile(io.FileIO):
         """ Is the file not open? Note: A thread that never accessed the file
             will get `True`.
         """
-        ident = currentThread().ident
-        if ident in self.threads:
-            return self.threads[ident].closed
+        thread = currentThread()
+        if thread in self.threads:
+            return self.threads[thread].closed
         return True
 
 
-- 
2.43.0


From ec157d698a8feac509a144600c7ad140fe42bc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:43 +0000
Subject: [PATCH 32/37] fix: integer elements with an empty payload can be
 converted back from XML

toXml() writes such an element (valid EBML, its value is 0) with size 0, which
xmlElement2ebml() could not encode.
---
 ebmlite/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 773baf3..4cdf6ca 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -309,6 +309,8 @@ class IntegerElement(Element):
     @classmethod
     def encodePayload(cls, data: int, length: int = None) -> bytes:
         """ Type-specific payload encoder for signed integer elements. """
+        if length == 0 and data == 0:
+            return b''  # 0 can have an empty payload, as read
         return encoding.encodeInt(data, length)
 
 
@@ -332,6 +334,8 @@ class UIntegerElement(IntegerElement):
     @classmethod
     def encodePayload(cls, data: int, length: int = None) -> bytes:
         """ Type-specific payload encoder for unsigned integer elements. """
+        if length == 0 and data == 0:
+            return b''  # 0 can have an empty payload, as read
         return encoding.encodeUInt(data, length)
 
 
-- 
2.43.0


From 5c34407fe3cfcf26619bf76d461a8d857cafd8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:40 +0000
Subject: [PATCH 33/37] fix: unknown-size masters without children of their own
 may contain globals

_isValidChild() returned False for every ID if the schema defines no
children for the element, so a global (e.g. Void) ended it.
---
 ebmlite/core.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 4cdf6ca..907b3ea 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -599,10 +599,7 @@ class MasterElement(Element):
             explicitly specified as a child element or a 'global' in the
             schema?
         """
-        if not cls.children:
-            return False
-
-        return elId in cls.children or elId in cls.schema.globals
+        return elId in (cls.children or ()) or elId in cls.schema.globals
 
 
     @property
-- 
2.43.0


From 7e4a9cf61b221f540fe87401e58a48baeda2fc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:57 +0000
Subject: [PATCH 34/37] fix: Void elements keep the explicit length and
 precache of their definition

---
 ebmlite/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 907b3ea..138c409 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1151,7 +1151,8 @@ class Schema(object):
             el = self.elementsByName['Void']
             void = type('VoidElement', (VoidElement,),
                         {'id': el.id, 'name': 'Void', 'schema': self,
-                         'mandatory': el.mandatory, 'multiple': el.multiple})
+                         'mandatory': el.mandatory, 'multiple': el.multiple,
+                         'precache': el.precache, 'length': el.length})
             self.elements[el.id] = void
             self.elementsByName['Void'] = void
 
-- 
2.43.0


From a841454845c156c575ac5bf29ea9d4b35d6b8e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:15 +0000
Subject: [PATCH 35/37] fix: repr() of a ThreadAwareFile created with file as a
 keyword argument

---
 ebmlite/threaded_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebmlite/threaded_file.py b/ebmlite/threaded_file.py
index 9370c2b..8370c1f 100644
--- a/ebmlite/threaded_file.py
+++ b/ebmlite/threaded_file.py
@@ -82,7 +82,8 @@ class ThreadAwareFile(io.FileIO):
             
         return fmt % ("closed" if self.closed else "open",
                       self.__class__.__name__, 
-                      self.initArgs[0],
+                      (self.initArgs[0] if self.initArgs
+                       else self.initKwargs.get('file')),
                       self._mode, 
                       id(self))
         
-- 
2.43.0


From 20c1a55b2b177c2c6c9d9fbc2f1fecd7fda5b3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:22 +0000
Subject: [PATCH 36/37] fix: loadXml() with an open stream loaded from its end,
 and so an empty document

---
 ebmlite/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 3b425a0..ffe33a7 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -401,7 +401,11 @@ def loadXml(xmlFile,
         ebmlFile.seek(0)
     else:
         ebmlFile = tempfile.mktemp() if ebmlFile is None else ebmlFile
+        isStream = not isinstance(ebmlFile, (str, Path))
+        pos = ebmlFile.tell() if isStream else None
         xml2ebml(xmlFile, ebmlFile, schema)
+        if isStream:
+            ebmlFile.seek(pos)
 
     return schema.load(ebmlFile)
 
-- 
2.43.0


From 6b4601ae10a0f0c05b39e27bd9e73ce252807c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:25 +0000
Subject: [PATCH 37/37] fix: xml2ebml writing to standard output failed on a
 pipe, which cannot seek

---
 ebmlite/tools/xml2ebml.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ebmlite/tools/xml2ebml.py b/ebmlite/tools/xml2ebml.py
index c5f3fed..bef770e 100644
--- a/ebmlite/tools/xml2ebml.py
+++ b/ebmlite/tools/xml2ebml.py
@@ -1,4 +1,5 @@
 import argparse
+import io
 
 from ebmlite.tools import utils
 import ebmlite.util
@@ -29,7 +30,11 @@ def main():
     args = argparser.parse_args()
 
     with utils.load_files(args, binary_output=True) as (schema, out):
-        ebmlite.util.xml2ebml(args.input, out, schema)  # , sizeLength=4, headers=True, unknown=True)
+        # Sizes are filled in after the fact, and standard output may be a
+        # pipe, which cannot seek.
+        ebml = io.BytesIO()
+        ebmlite.util.xml2ebml(args.input, ebml, schema)  # , sizeLength=4, headers=True, unknown=True)
+        out.write(ebml.getvalue())
 
 
 if __name__ == "__main__":
-- 
2.43.0

