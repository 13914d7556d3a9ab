From 6208630bfe13cb86938efc67240a0282294f0c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:41 +0000
Subject: [PATCH 01/42] fix: LimitReader read(-1)/readline(-1) must not read
 beyond the limit

---
 warcio/limitreader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/warcio/limitreader.py b/warcio/limitreader.py
index bfa6d9e..ef81bd7 100644
--- a/warcio/limitreader.py
+++ b/warcio/limitreader.py
@@ -15,7 +15,7 @@ class LimitReader(object):
         return buff
 
     def read(self, length=None):
-        if length is not None:
+        if length is not None and length >= 0:
             length = min(length, self.limit)
         else:
             length = self.limit
@@ -27,7 +27,7 @@ class LimitReader(object):
         return self._update(buff)
 
     def readline(self, length=None):
-        if length is not None:
+        if length is not None and length >= 0:
             length = min(length, self.limit)
         else:
             length = self.limit
-- 
2.43.0


From 061fe3f17b05a6f0d231d6bd3edb49073908bba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:41 +0000
Subject: [PATCH 02/42] fix: BufferedReader read(-1)/readline(-1) read to the
 end / the full line

---
 warcio/bufferedreaders.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 80a4612..0e15788 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -157,6 +157,9 @@ class BufferedReader(object):
         if at buffer boundary, will attempt to read again until
         specified length is read
         """
+        if length is not None and length < 0:
+            length = None
+
         all_buffs = []
         while length is None or length > 0:
             self._fillbuff()
@@ -182,6 +185,9 @@ class BufferedReader(object):
         if length == 0:
             return b''
 
+        if length is not None and length < 0:
+            length = None
+
         self._fillbuff()
 
         if self.empty():
-- 
2.43.0


From 5468c016ba75ddfceaa74ec97a52c3431f5d8801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:02 +0000
Subject: [PATCH 03/42] fix: header with non-ascii text outside of name="value"
 made writing fail

---
 warcio/statusandheaders.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/warcio/statusandheaders.py b/warcio/statusandheaders.py
index ce42d66..1a4208c 100644
--- a/warcio/statusandheaders.py
+++ b/warcio/statusandheaders.py
@@ -202,11 +202,20 @@ headers = {2})".format(self.protocol, self.statusline, self.headers)
                 else:
                 # %-encode value in ; name="value"
                     new_value = self.ENCODE_HEADER_RX.sub(do_encode, curr_value)
-                    if new_value == curr_value:
+                    # nothing encoded, or non-ascii text left outside of name="value"
+                    if new_value == curr_value or not self.is_ascii(new_value):
                         new_value = quote(curr_value)
 
                 self.headers[index] = (curr_name, new_value)
 
+    @staticmethod
+    def is_ascii(string):
+        try:
+            string.encode('ascii')
+            return True
+        except UnicodeError:
+            return False
+
     # act like a (case-insensitive) dictionary of headers, much like other
     # python http headers apis including http.client.HTTPMessage
     # and requests.structures.CaseInsensitiveDict
-- 
2.43.0


From 18d8a845d00756b9d3aa7f1a8c9eb3c0d54b06c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:09 +0000
Subject: [PATCH 04/42] fix: non-ascii status line or header name made writing
 fail

---
 warcio/statusandheaders.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/warcio/statusandheaders.py b/warcio/statusandheaders.py
index 1a4208c..7396936 100644
--- a/warcio/statusandheaders.py
+++ b/warcio/statusandheaders.py
@@ -14,6 +14,7 @@ import re
 #=================================================================
 class StatusAndHeaders(object):
     ENCODE_HEADER_RX = re.compile(r'[=]["\']?([^;"]+)["\']?(?=[;]?)')
+    NON_ASCII_RX = re.compile(r'[^\x00-\x7f]+')
     """
     Representation of parsed http-style status line and headers
     Status Line if first line of request/response
@@ -189,6 +190,13 @@ headers = {2})".format(self.protocol, self.statusline, self.headers)
         def do_encode(m):
             return "*={0}''".format(encoding) + quote(to_native_str(m.group(1)))
 
+        def do_quote(m):
+            return quote(m.group(0))
+
+        # status line and header names: %-encode only the non-ascii characters
+        self.protocol = self.NON_ASCII_RX.sub(do_quote, self.protocol)
+        self.statusline = self.NON_ASCII_RX.sub(do_quote, self.statusline)
+
         for index in range(len(self.headers) - 1, -1, -1):
             curr_name, curr_value = self.headers[index]
             try:
@@ -208,6 +216,10 @@ headers = {2})".format(self.protocol, self.statusline, self.headers)
 
                 self.headers[index] = (curr_name, new_value)
 
+            if not self.is_ascii(curr_name):
+                curr_name = self.NON_ASCII_RX.sub(do_quote, curr_name)
+                self.headers[index] = (curr_name, self.headers[index][1])
+
     @staticmethod
     def is_ascii(string):
         try:
-- 
2.43.0


From 8c5329e76d916bbed3d7e97e5ca7064587c3b785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:59 +0000
Subject: [PATCH 05/42] fix: data that is not compressed was lost when the
 first block was a single byte

---
 warcio/bufferedreaders.py | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 0e15788..226cc14 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -61,6 +61,9 @@ class BufferedReader(object):
                      'deflate_alt': deflate_decompressor_alt
                     }
 
+    # usual first byte of compressed data
+    FIRST_BYTE = {'gzip': b'\x1f', 'deflate': b'\x78'}
+
     def __init__(self, stream, block_size=BUFF_SIZE,
                  decomp_type=None,
                  starting_data=None,
@@ -83,6 +86,8 @@ class BufferedReader(object):
 
     def _init_decomp(self, decomp_type):
         self.num_block_read = 0
+        # raw data given to the decompressor before it returned anything
+        self.raw_data = b''
         if decomp_type:
             try:
                 self.decomp_type = decomp_type
@@ -120,12 +125,15 @@ class BufferedReader(object):
             self._process_read(data)
 
     def _process_read(self, data):
-        # don't process if no raw data read
-        if not data:
-            self.buff = None
-            return
+        if data:
+            data = self._decompress(data)
+        else:
+            # don't process if no raw data read
+            data = self._end_of_data()
+            if not data:
+                self.buff = None
+                return
 
-        data = self._decompress(data)
         self.buff_size = len(data)
         self.num_read += self.buff_size
         self.num_block_read += self.buff_size
@@ -133,11 +141,14 @@ class BufferedReader(object):
 
     def _decompress(self, data):
         if self.decompressor and data:
+            if self.num_block_read == 0:
+                self.raw_data += data
             try:
                 data = self.decompressor.decompress(data)
             except Exception as e:
-                # if first read attempt, assume non-gzipped stream
+                # if nothing decompressed yet, assume non-gzipped stream
                 if self.num_block_read == 0:
+                    data = self.raw_data
                     if self.decomp_type == 'deflate':
                         self._init_decomp('deflate_alt')
                         data = self._decompress(data)
@@ -149,6 +160,20 @@ class BufferedReader(object):
                     return b''
         return data
 
+    def _end_of_data(self):
+        """
+        A single byte of data is too short for the gzip or deflate decompressor
+        to reject it: not compressed, unless it is the usual start of a
+        cut off header
+        """
+        if (self.decompressor and self.num_block_read == 0 and
+            len(self.raw_data) == 1 and
+            self.raw_data != self.FIRST_BYTE.get(self.decomp_type.lower(), self.raw_data)):
+            self.decompressor = None
+            return self.raw_data
+
+        return b''
+
     def read(self, length=None):
         """
         Fill bytes and read some number of bytes
-- 
2.43.0


From 62cb6335fa28ad580e6536117500de85d9454382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:13 +0000
Subject: [PATCH 06/42] fix: BufferedReader.readline(length) returned short
 lines across block boundaries

---
 warcio/bufferedreaders.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 226cc14..ddaa4af 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -222,17 +222,15 @@ class BufferedReader(object):
 
         # we may be at a boundary
         while not linebuff.endswith(b'\n'):
-            if length:
-                length -= len(linebuff)
-                if length <= 0:
-                    break
+            if length and len(linebuff) >= length:
+                break
 
             self._fillbuff()
 
             if self.empty():
                 break
 
-            linebuff += self.buff.readline(length)
+            linebuff += self.buff.readline(length - len(linebuff) if length else None)
 
         return linebuff
 
-- 
2.43.0


From cd4bb648c5bd71f5055dce5b0027f4211119cc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:14 +0000
Subject: [PATCH 07/42] fix: reading all gzip members stopped at an empty
 member or at a member ending with the block

---
 warcio/bufferedreaders.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index ddaa4af..a973247 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -109,21 +109,27 @@ class BufferedReader(object):
 
         block_size = block_size or self.block_size
 
-        if self.starting_data:
-            data = self.starting_data
-            self.starting_data = None
-        else:
-            data = self.stream.read(block_size)
-
-        self._process_read(data)
+        while True:
+            if self.starting_data:
+                data = self.starting_data
+                self.starting_data = None
+            else:
+                data = self.stream.read(block_size)
 
-        # if raw data is not empty and decompressor set, but
-        # decompressed buff is empty, keep reading --
-        # decompressor likely needs more data to decompress
-        while data and self.decompressor and not self.decompressor.unused_data and self.empty():
-            data = self.stream.read(block_size)
             self._process_read(data)
 
+            # if raw data is not empty and decompressor set, but
+            # decompressed buff is empty, keep reading --
+            # decompressor likely needs more data to decompress
+            while data and self.decompressor and not self.decompressor.unused_data and self.empty():
+                data = self.stream.read(block_size)
+                self._process_read(data)
+
+            # if no data in this member, continue with the next one
+            # (empty() has advanced to it when reading all members)
+            if not self.empty() or not self.starting_data:
+                break
+
     def _process_read(self, data):
         if data:
             data = self._decompress(data)
-- 
2.43.0


From 6290ccba9a61389f36f4460361f5c902553c1d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:22 +0000
Subject: [PATCH 08/42] fix: negative, prefixed or otherwise non-hex chunk size
 lost data of a body that is not chunked

---
 warcio/bufferedreaders.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index a973247..e422996 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -359,7 +359,9 @@ class ChunkedDataReader(BufferedReader):
         try:
             # ensure line ends with \r\n
             assert(length_header[-2:] == b'\r\n')
-            chunk_size = length_header[:-2].split(b';')[0]
+            chunk_size = length_header[:-2].split(b';')[0].strip()
+            # only hex digits, int() also allows sign, prefix and underscore
+            assert(not chunk_size.strip(b'0123456789abcdefABCDEF'))
             chunk_size = int(chunk_size, 16)
             # sanity check chunk size
             assert(chunk_size <= 2**31)
-- 
2.43.0


From b97f2700745f933858b78e4184a982dd66b2b246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:22 +0000
Subject: [PATCH 09/42] fix: chunked body with a chunk extension of more than
 60 bytes was not decoded

---
 warcio/bufferedreaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index e422996..63eb374 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -338,7 +338,7 @@ class ChunkedDataReader(BufferedReader):
                not self.not_chunked):
 
             try:
-                length_header = self.stream.readline(64)
+                length_header = self.stream.readline(BUFF_SIZE)
                 self._try_decode(length_header)
             except ChunkedDataException as e:
                 if self.raise_chunked_data_exceptions:
-- 
2.43.0


From 948888a29a22afecf96c74d9148af19d2e3069e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:46 +0000
Subject: [PATCH 10/42] fix: raw deflate data was not decompressed when the
 type was not given in lower case

---
 warcio/bufferedreaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 63eb374..ccd0796 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -90,7 +90,7 @@ class BufferedReader(object):
         self.raw_data = b''
         if decomp_type:
             try:
-                self.decomp_type = decomp_type
+                self.decomp_type = decomp_type.lower()
                 self.decompressor = self.DECOMPRESSORS[decomp_type.lower()]()
             except KeyError:
                 raise Exception('Decompression type not supported: ' +
-- 
2.43.0


From 17c3b0ad9e0a22ac0d01fae3fa5323cde045e7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:28 +0000
Subject: [PATCH 11/42] fix: "Transfer-Encoding: Chunked" was not matched
 ignoring case

---
 warcio/recordloader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index 475507b..953ee55 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -36,7 +36,9 @@ class ArcWarcRecord(object):
             if encoding not in BufferedReader.get_supported_decompressors():
                 encoding = None
 
-        if self.http_headers.get_header('transfer-encoding') == 'chunked':
+        transfer_encoding = self.http_headers.get_header('transfer-encoding', '')
+
+        if transfer_encoding.lower() == 'chunked':
             return ChunkedDataReader(self.raw_stream, decomp_type=encoding)
         elif encoding:
             return BufferedReader(self.raw_stream, decomp_type=encoding)
-- 
2.43.0


From 081fe35ffd4c46ef812586f2c7de12d74d6b6df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:56 +0000
Subject: [PATCH 12/42] fix: block digest of a revisit with http headers
 covered a payload that is not written

---
 warcio/recordbuilder.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/warcio/recordbuilder.py b/warcio/recordbuilder.py
index 081b5b1..f303aca 100644
--- a/warcio/recordbuilder.py
+++ b/warcio/recordbuilder.py
@@ -188,8 +188,11 @@ class RecordBuilder(object):
                 record.http_headers.compute_headers_buffer(self.header_filter)
             block_digester.update(record.http_headers.headers_buff)
 
+        # the block of a revisit record with http headers is just the headers
+        http_headers_only = self._is_http_headers_only(record)
+
         for buf in self._iter_stream(record.raw_stream):
-            if block_digester:
+            if block_digester and not http_headers_only:
                 block_digester.update(buf)
 
             if payload_digester:
@@ -212,6 +215,10 @@ class RecordBuilder(object):
         if block_digester:
             record.rec_headers.add_header('WARC-Block-Digest', str(block_digester))
 
+    @staticmethod
+    def _is_http_headers_only(record):
+        return bool(record.rec_type == 'revisit' and record.http_headers)
+
     @staticmethod
     def _iter_stream(stream):
         while True:
-- 
2.43.0


From 2fcc9e1bf2b68d6215e597abdb1805318ecaa429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:03 +0000
Subject: [PATCH 13/42] fix: block of a revisit record without parsed http
 headers was not written, but counted in Content-Length

---
 warcio/warcwriter.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/warcio/warcwriter.py b/warcio/warcwriter.py
index 6fb71be..bc32370 100644
--- a/warcio/warcwriter.py
+++ b/warcio/warcwriter.py
@@ -67,10 +67,8 @@ class BaseWARCWriter(RecordBuilder):
             # ensure proper content type
             record.rec_headers.replace_header('Content-Type', record.content_type)
 
-        if record.rec_type == 'revisit':
-            http_headers_only = True
-        else:
-            http_headers_only = False
+        # a revisit without parsed http headers keeps its block, if any
+        http_headers_only = self._is_http_headers_only(record)
 
         # compute Content-Length
         if record.http_headers and record.payload_length >= 0:
-- 
2.43.0


From 9e48ab505a8aee22ba51e0e7b3d7a05b80642829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:11 +0000
Subject: [PATCH 14/42] fix: Content-Length of a record written with generated
 http headers did not count the headers

---
 warcio/recordloader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index 953ee55..8f99f51 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -149,6 +149,8 @@ class ArcWarcRecordLoader(object):
         # generate validate http headers (eg. for replay)
         if not http_headers and ensure_http_headers:
             http_headers = self.default_http_headers(length, content_type)
+            if length is not None:
+                payload_length = length
 
         if is_verifying:
             stream.begin_payload()
-- 
2.43.0


From 40f41f942437590f55fd9f7b9b4aa430403f0b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:46 +0000
Subject: [PATCH 15/42] fix: wrong length when http headers are read from a
 payload stream not at its start

---
 warcio/recordbuilder.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/warcio/recordbuilder.py b/warcio/recordbuilder.py
index f303aca..65bf7d1 100644
--- a/warcio/recordbuilder.py
+++ b/warcio/recordbuilder.py
@@ -91,9 +91,15 @@ class RecordBuilder(object):
 
         if payload and not http_headers:
             loader = ArcWarcRecordLoader()
+            try:
+                start = payload.tell()
+            except (AttributeError, IOError):
+                # not seekable
+                start = 0
+
             http_headers = loader.load_http_headers(record_type, uri, payload, length)
             if http_headers and length is not None:
-                length -= payload.tell()
+                length -= payload.tell() - start
 
         if not payload:
             payload = BytesIO()
-- 
2.43.0


From 4bc01f251f56176c097fe063b79c3142cfe1fbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:22 +0000
Subject: [PATCH 16/42] fix: several records in one gzip member were not
 noticed when another member follows or an empty member precedes

---
 warcio/archiveiterator.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/warcio/archiveiterator.py b/warcio/archiveiterator.py
index 31a6942..2cd95ba 100644
--- a/warcio/archiveiterator.py
+++ b/warcio/archiveiterator.py
@@ -103,9 +103,10 @@ class ArchiveIterator(six.Iterator):
         """ iterate over each record
         """
         raise_invalid_gzip = False
-        empty_record = False
 
         while True:
+            empty_record = False
+
             try:
                 self.record = self._next_record(self.next_line)
                 if raise_invalid_gzip:
@@ -115,12 +116,17 @@ class ArchiveIterator(six.Iterator):
 
             except EOFError:
                 empty_record = True
+                self.next_line = None
 
             self.read_to_end()
 
             if self.reader.decompressor:
+                # more data in this member after the record
+                if self.next_line:
+                    raise_invalid_gzip = True
+
                 # if another gzip member, continue
-                if self.reader.read_next_member():
+                elif self.reader.read_next_member():
                     continue
 
                 # if empty record, then we're done
-- 
2.43.0


From bb304c5a9b292711e467919b06de877525ce615a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:30 +0000
Subject: [PATCH 17/42] fix: wrong offset of a record after an empty gzip
 member

---
 warcio/archiveiterator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/warcio/archiveiterator.py b/warcio/archiveiterator.py
index 2cd95ba..03c7537 100644
--- a/warcio/archiveiterator.py
+++ b/warcio/archiveiterator.py
@@ -121,6 +121,10 @@ class ArchiveIterator(six.Iterator):
             self.read_to_end()
 
             if self.reader.decompressor:
+                # an empty member is not part of the next record
+                if empty_record:
+                    self.offset = self.fh.tell() - self.reader.rem_length()
+
                 # more data in this member after the record
                 if self.next_line:
                     raise_invalid_gzip = True
-- 
2.43.0


From 7528188ffb0f8e67198f32236fac64f9106030c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:23 +0000
Subject: [PATCH 18/42] fix: response, request or revisit record without a
 target uri raised AttributeError

---
 warcio/recordloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index 8f99f51..992e716 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -185,7 +185,7 @@ class ArcWarcRecordLoader(object):
             return None
 
         # only http:/https: uris can have http headers
-        if not uri.startswith(self.HTTP_SCHEMES):
+        if not uri or not uri.startswith(self.HTTP_SCHEMES):
             return None
 
         # request record: parse request
-- 
2.43.0


From c5c6e0e9bf9d01386b49eb1b4f138925e6c64708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:30 +0000
Subject: [PATCH 19/42] fix: digest value that is not in any known encoding
 raised while the record was read

---
 warcio/digestverifyingreader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/warcio/digestverifyingreader.py b/warcio/digestverifyingreader.py
index 985a4ed..868c44d 100644
--- a/warcio/digestverifyingreader.py
+++ b/warcio/digestverifyingreader.py
@@ -124,7 +124,11 @@ def _compare_digest_rfc_3548(digester, digest):
     our_algo, our_value = _parse_digest(digester_b32)
     warc_algo, warc_value = _parse_digest(digest)
 
-    warc_b32 = _to_b32(len(our_value), warc_value)
+    try:
+        warc_b32 = _to_b32(len(our_value), warc_value)
+    except (ValueError, TypeError):
+        # not a value in any of the encodings
+        return False
 
     if our_value == warc_b32:
         return True
-- 
2.43.0


From e9318989ac8ce8487082ecd6690bf4bfa916693b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:37 +0000
Subject: [PATCH 20/42] fix: correct md5 digest in base16 was reported as
 failed

---
 warcio/digestverifyingreader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/warcio/digestverifyingreader.py b/warcio/digestverifyingreader.py
index 868c44d..068dea2 100644
--- a/warcio/digestverifyingreader.py
+++ b/warcio/digestverifyingreader.py
@@ -133,6 +133,11 @@ def _compare_digest_rfc_3548(digester, digest):
     if our_value == warc_b32:
         return True
 
+    # padded base32 can be as long as base16 (md5)
+    binary = digester.digester.digest()
+    if len(warc_value) == len(our_value) == 2 * len(binary):
+        return warc_value.upper() == to_native_str(base64.b16encode(binary), encoding='ascii')
+
     return False
 
 
-- 
2.43.0


From 0daf8118ea6cdaf9f3a02ebf096f297a50354ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:44 +0000
Subject: [PATCH 21/42] fix: block digest of an empty record was not checked

---
 warcio/digestverifyingreader.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/warcio/digestverifyingreader.py b/warcio/digestverifyingreader.py
index 068dea2..30214ba 100644
--- a/warcio/digestverifyingreader.py
+++ b/warcio/digestverifyingreader.py
@@ -77,6 +77,9 @@ class DigestVerifyingReader(LimitReader):
 
     def begin_payload(self):
         self.payload_digester = self.payload_digester_obj
+        # nothing will be read from an empty block
+        if self._orig_limit == 0:
+            self._check_block_digest()
         if self.limit == 0:
             check = _compare_digest_rfc_3548(self.payload_digester, self.payload_digest)
             if check is False:
@@ -94,11 +97,7 @@ class DigestVerifyingReader(LimitReader):
             self.block_digester.update(buff)
 
         if self.limit == 0:
-            check = _compare_digest_rfc_3548(self.block_digester, self.block_digest)
-            if check is False:
-                self.digest_checker.problem('block digest failed: {}'.format(self.block_digest))
-            elif check is True and self.digest_checker.passed is not False:
-                self.digest_checker.passed = True
+            self._check_block_digest()
             check = _compare_digest_rfc_3548(self.payload_digester, self.payload_digest)
             if check is False:
                 self.digest_checker.problem('payload digest failed {}'.format(self.payload_digest))
@@ -107,6 +106,13 @@ class DigestVerifyingReader(LimitReader):
 
         return buff
 
+    def _check_block_digest(self):
+        check = _compare_digest_rfc_3548(self.block_digester, self.block_digest)
+        if check is False:
+            self.digest_checker.problem('block digest failed: {}'.format(self.block_digest))
+        elif check is True and self.digest_checker.passed is not False:
+            self.digest_checker.passed = True
+
 
 def _compare_digest_rfc_3548(digester, digest):
     '''
-- 
2.43.0


From f52fcdefefd02bb1a271620406df30832b3f3925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:14 +0000
Subject: [PATCH 22/42] fix: digests of a record cut off by the end of the data
 were not checked

---
 warcio/digestverifyingreader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/warcio/digestverifyingreader.py b/warcio/digestverifyingreader.py
index 30214ba..611057f 100644
--- a/warcio/digestverifyingreader.py
+++ b/warcio/digestverifyingreader.py
@@ -96,13 +96,17 @@ class DigestVerifyingReader(LimitReader):
         if self.block_digester:
             self.block_digester.update(buff)
 
-        if self.limit == 0:
+        # end of record, or data cut off before it
+        if self.limit == 0 or not buff:
             self._check_block_digest()
             check = _compare_digest_rfc_3548(self.payload_digester, self.payload_digest)
             if check is False:
                 self.digest_checker.problem('payload digest failed {}'.format(self.payload_digest))
             elif check is True and self.digest_checker.passed is not False:
                 self.digest_checker.passed = True
+            # prevent double-fire
+            self.block_digester = None
+            self.payload_digester = None
 
         return buff
 
-- 
2.43.0


From b237ab5551a00c74e11611193209eddb30be343a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:21 +0000
Subject: [PATCH 23/42] fix: payload digest was compared with the whole block
 when http headers are not parsed

---
 warcio/recordloader.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index 992e716..edadade 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -152,7 +152,8 @@ class ArcWarcRecordLoader(object):
             if length is not None:
                 payload_length = length
 
-        if is_verifying:
+        # if http headers are not parsed, the start of the payload is not known
+        if is_verifying and not (no_record_parse and length and self.has_http_headers(rec_type, uri)):
             stream.begin_payload()
 
         return ArcWarcRecord(the_format, rec_type,
@@ -174,18 +175,21 @@ class ArcWarcRecordLoader(object):
                                        segment_number=segment_number)
         return stream, True
 
+    def has_http_headers(self, rec_type, uri):
+        # only certain record types can have http headers
+        if rec_type not in self.HTTP_RECORDS:
+            return False
+
+        # only http:/https: uris can have http headers
+        return bool(uri and uri.startswith(self.HTTP_SCHEMES))
+
     def load_http_headers(self, rec_type, uri, stream, length):
         # only if length == 0 don't parse
         # try parsing is length is unknown (length is None) or length > 0
         if length == 0:
             return None
 
-        # only certain record types can have http headers
-        if rec_type not in self.HTTP_RECORDS:
-            return None
-
-        # only http:/https: uris can have http headers
-        if not uri or not uri.startswith(self.HTTP_SCHEMES):
+        if not self.has_http_headers(rec_type, uri):
             return None
 
         # request record: parse request
-- 
2.43.0


From 8290a365147ab8fffec52aa1b4d379008ad9d700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:05 +0000
Subject: [PATCH 24/42] fix: check stopped at an input file that can not be
 opened, without checking the remaining ones

---
 warcio/checker.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/warcio/checker.py b/warcio/checker.py
index be0c6af..b13f443 100644
--- a/warcio/checker.py
+++ b/warcio/checker.py
@@ -27,6 +27,10 @@ class Checker(object):
                 print('  saw exception ArchiveLoadFailed: '+str(e).rstrip())
                 print('  skipping rest of file')
                 self.exit_value = 1
+            except EnvironmentError as e:
+                print(filename)
+                print('  could not be read: '+str(e))
+                self.exit_value = 1
         return self.exit_value
 
     def process_one(self, filename):
-- 
2.43.0


From c57e252f22f3a628547dc7ede106cc5ff131ffd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 25/42] fix: aware datetime was formatted as an invalid date
 with microseconds, or as another moment when not in utc

---
 warcio/timeutils.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/warcio/timeutils.py b/warcio/timeutils.py
index 8847dd9..629627c 100644
--- a/warcio/timeutils.py
+++ b/warcio/timeutils.py
@@ -25,6 +25,14 @@ PAD_6_UP =    '299912'
 PAD_MICRO =   '000000'
 
 
+def _to_naive_utc(the_datetime):
+    # dates and timestamps are always in utc, without an offset
+    if the_datetime.utcoffset() is not None:
+        the_datetime = the_datetime.astimezone(timezone.utc).replace(tzinfo=None)
+
+    return the_datetime
+
+
 def iso_date_to_datetime(string, tz_aware=False):
     """
     >>> iso_date_to_datetime('2013-12-26T10:11:12Z')
@@ -121,6 +129,8 @@ def datetime_to_iso_date(the_datetime, use_micros=False):
 
     """
 
+    the_datetime = _to_naive_utc(the_datetime)
+
     if not use_micros:
         return the_datetime.strftime(ISO_DT)
     else:
@@ -133,7 +143,7 @@ def datetime_to_timestamp(the_datetime):
     '20131226101112'
     """
 
-    return the_datetime.strftime(TIMESTAMP_14)
+    return _to_naive_utc(the_datetime).strftime(TIMESTAMP_14)
 
 
 def timestamp_now():
-- 
2.43.0


From 282ebf33d429431f7e4e0ff3b337bf6bcc272fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 26/42] fix: arc file header record was cut at the wrong length
 when the version line is not ascii

---
 warcio/recordloader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index edadade..e8fa329 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -307,8 +307,8 @@ class ARCHeadersParser(object):
 
         # if arc header, consume next two lines
         if headerline.startswith('filedesc://'):
-            version = StatusAndHeadersParser.decode_header(stream.readline())  # skip version
-            spec = StatusAndHeadersParser.decode_header(stream.readline())  # skip header spec, use preset one
+            version = stream.readline()  # skip version
+            spec = stream.readline()  # skip header spec, use preset one
             total_read += len(version)
             total_read += len(spec)
 
-- 
2.43.0


From 8e03abba699aa6c76c7f3ac1a1a158c26ee11b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:09 +0000
Subject: [PATCH 27/42] fix: normalising a repeated WARC-Target-URI replaced
 the value of the other one

---
 warcio/recordloader.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index e8fa329..57a9573 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -262,18 +262,26 @@ class ArcWarcRecordLoader(object):
         :return: The value for the WARC-Target-URI field
         :rtype: str | None
         """
-        uri = rec_headers.get_header('WARC-Target-URI')
+        target_uri = None
 
-        if uri is not None and uri.startswith('<') and uri.endswith('>'):
-            uri = uri[1:-1]
-            rec_headers.replace_header('WARC-Target-URI', uri)
+        # update each header in place, a repeated header keeps its own value
+        for index, (name, uri) in enumerate(rec_headers.headers):
+            if name.lower() != 'warc-target-uri':
+                continue
 
-        if uri is not None and " " in uri:
-            logger.warning("Replacing spaces in invalid WARC-Target-URI: {}".format(uri))
-            uri = uri.replace(" ", "%20")
-            rec_headers.replace_header('WARC-Target-URI', uri)
+            if uri.startswith('<') and uri.endswith('>'):
+                uri = uri[1:-1]
 
-        return uri
+            if " " in uri:
+                logger.warning("Replacing spaces in invalid WARC-Target-URI: {}".format(uri))
+                uri = uri.replace(" ", "%20")
+
+            rec_headers.headers[index] = (name, uri)
+
+            if target_uri is None:
+                target_uri = uri
+
+        return target_uri
 
 
 #=================================================================
-- 
2.43.0


From bd3c74471b95a47be85f640b601d2bb0be5b5688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:02 +0000
Subject: [PATCH 28/42] fix: blank http headers (or a protocol only) were
 consumed but neither written, counted in Content-Length nor extracted

---
 warcio/extractor.py     | 2 +-
 warcio/recordbuilder.py | 6 +++---
 warcio/recordloader.py  | 7 ++++---
 warcio/warcwriter.py    | 8 ++++----
 4 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/warcio/extractor.py b/warcio/extractor.py
index 9d37e4f..c849815 100644
--- a/warcio/extractor.py
+++ b/warcio/extractor.py
@@ -31,7 +31,7 @@ class Extractor(object):
                     buf = stream.read(self.READ_SIZE)
             else:
                 stdout_raw.write(record.rec_headers.to_bytes())
-                if record.http_headers:
+                if record.http_headers is not None:
                     stdout_raw.write(record.http_headers.to_bytes())
                 if not headers_only:
                     buf = record.raw_stream.read(self.READ_SIZE)
diff --git a/warcio/recordbuilder.py b/warcio/recordbuilder.py
index 65bf7d1..e88213c 100644
--- a/warcio/recordbuilder.py
+++ b/warcio/recordbuilder.py
@@ -98,7 +98,7 @@ class RecordBuilder(object):
                 start = 0
 
             http_headers = loader.load_http_headers(record_type, uri, payload, length)
-            if http_headers and length is not None:
+            if http_headers is not None and length is not None:
                 length -= payload.tell() - start
 
         if not payload:
@@ -189,7 +189,7 @@ class RecordBuilder(object):
             pos = 0
             temp_file = self._create_temp_file()
 
-        if block_digester and record.http_headers:
+        if block_digester and record.http_headers is not None:
             if not record.http_headers.headers_buff:
                 record.http_headers.compute_headers_buffer(self.header_filter)
             block_digester.update(record.http_headers.headers_buff)
@@ -223,7 +223,7 @@ class RecordBuilder(object):
 
     @staticmethod
     def _is_http_headers_only(record):
-        return bool(record.rec_type == 'revisit' and record.http_headers)
+        return record.rec_type == 'revisit' and record.http_headers is not None
 
     @staticmethod
     def _iter_stream(stream):
diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index 57a9573..1709c79 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -143,14 +143,15 @@ class ArcWarcRecordLoader(object):
         if not no_record_parse:
             start = stream.tell()
             http_headers = self.load_http_headers(rec_type, uri, stream, length)
-            if length and http_headers:
+            # (the headers may also be blank)
+            if length and http_headers is not None:
                 payload_length = length - (stream.tell() - start)
 
         # generate validate http headers (eg. for replay)
         if not http_headers and ensure_http_headers:
-            http_headers = self.default_http_headers(length, content_type)
-            if length is not None:
+            if payload_length < 0 and length is not None:
                 payload_length = length
+            http_headers = self.default_http_headers(None if length is None else payload_length, content_type)
 
         # if http headers are not parsed, the start of the payload is not known
         if is_verifying and not (no_record_parse and length and self.has_http_headers(rec_type, uri)):
diff --git a/warcio/warcwriter.py b/warcio/warcwriter.py
index bc32370..024d0ee 100644
--- a/warcio/warcwriter.py
+++ b/warcio/warcwriter.py
@@ -42,7 +42,7 @@ class BaseWARCWriter(RecordBuilder):
         if self.gzip:
             out = GzippingWrapper(out)
 
-        if record.http_headers:
+        if record.http_headers is not None:
             record.http_headers.compute_headers_buffer(self.header_filter)
 
         # Content-Length is None/unknown
@@ -71,10 +71,10 @@ class BaseWARCWriter(RecordBuilder):
         http_headers_only = self._is_http_headers_only(record)
 
         # compute Content-Length
-        if record.http_headers and record.payload_length >= 0:
+        if record.http_headers is not None and record.payload_length >= 0:
             actual_len = 0
 
-            if record.http_headers:
+            if record.http_headers is not None:
                 actual_len = len(record.http_headers.headers_buff)
 
             if not http_headers_only:
@@ -89,7 +89,7 @@ class BaseWARCWriter(RecordBuilder):
         out.write(record.rec_headers.to_bytes(encoding='utf-8'))
 
         # write headers buffer, if any
-        if record.http_headers:
+        if record.http_headers is not None:
             out.write(record.http_headers.headers_buff)
 
         if not http_headers_only:
-- 
2.43.0


From 287c19b4bdb11001ddfd2a02738d128f85236ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:31 +0000
Subject: [PATCH 29/42] fix: capture_http recorded the whole buffer when
 readinto() filled only part of it

---
 warcio/capture_http.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index d83cb27..fdabdb0 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -53,7 +53,8 @@ class RecordingStream(object):
     # Used in PY3 Only
     def readinto(self, buff):  #pragma: no cover
         res = self.fp.readinto(buff)
-        self.recorder.write_response(buff)
+        if res:
+            self.recorder.write_response(memoryview(buff).tobytes()[:res])
         return res
 
     def readline(self, maxlen=-1):
-- 
2.43.0


From 4c51eb39cb7629d2a3475e41146bd4787875761d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:31 +0000
Subject: [PATCH 30/42] fix: captured http responses had no working read1(),
 peek() and fileno(), so iterating over lines of a chunked response failed

---
 warcio/capture_http.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index fdabdb0..fd65836 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -57,6 +57,18 @@ class RecordingStream(object):
             self.recorder.write_response(memoryview(buff).tobytes()[:res])
         return res
 
+    def read1(self, amt=-1):
+        buff = self.fp.read1(amt)
+        self.recorder.write_response(buff)
+        return buff
+
+    # does not consume anything: recorded once actually read
+    def peek(self, amt=0):
+        return self.fp.peek(amt)
+
+    def fileno(self):
+        return self.fp.fileno()
+
     def readline(self, maxlen=-1):
         line = self.fp.readline(maxlen)
         self.recorder.write_response(line)
-- 
2.43.0


From 022064bc89e9d39ab185df57d6c1fc7466c7eaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:31 +0000
Subject: [PATCH 31/42] fix: exchanges of a capture context shared one
 recorder: wrong URLs and headers after a proxied request, mixed up records
 when interleaved

---
 warcio/capture_http.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index fd65836..12d7155 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -6,6 +6,8 @@ from six.moves import http_client as httplib
 
 from contextlib import contextmanager
 
+from copy import copy
+
 from array import array
 
 from warcio.utils import to_native_str, BUFF_SIZE, open
@@ -96,8 +98,8 @@ class RecordingHTTPConnection(httplib.HTTPConnection):
 
     def __init__(self, *args, **kwargs):
         orig_connection.__init__(self, *args, **kwargs)
-        if hasattr(self.local, 'recorder'):
-            self.recorder = self.local.recorder
+        if getattr(self.local, 'recorder', None):
+            self.recorder = self.local.recorder.new_connection()
         else:
             self.recorder = None
 
@@ -138,6 +140,8 @@ class RecordingHTTPConnection(httplib.HTTPConnection):
 
     def putrequest(self, *args, **kwargs):
         if self.recorder:
+            # an earlier response may still be read, and recorded
+            self.recorder = self.recorder.new_exchange()
             self.recorder.start()
         return orig_connection.putrequest(self, *args, **kwargs)
 
@@ -155,9 +159,23 @@ class RequestRecorder(object):
         self.first_line_read = False
         self.lock = threading.Lock()
         self.warc_headers = {}
+        self.tunnel_headers = {}
         self.record_ip = record_ip
 
+    def new_connection(self):
+        other = copy(self)
+        other.warc_headers = {}
+        other.start_tunnel()
+        return other
+
+    def new_exchange(self):
+        other = copy(self)
+        # of an earlier exchange
+        other.warc_headers = dict(self.tunnel_headers)
+        return other
+
     def start_tunnel(self):
+        self.tunnel_headers = {}
         self.connect_host = self.connect_port = None
         self.started_req = False
         self.first_line_read = False
@@ -229,7 +247,8 @@ class RequestRecorder(object):
             parts = path.split(":", 1)
             self.connect_host = parts[0]
             self.connect_port = int(parts[1]) if len(parts) > 1 else default_port
-            self.warc_headers['WARC-Proxy-Host'] = "https://{0}:{1}".format(host, port)
+            self.tunnel_headers['WARC-Proxy-Host'] = "https://{0}:{1}".format(host, port)
+            self.warc_headers.update(self.tunnel_headers)
             return
 
         if self.connect_host:
-- 
2.43.0


From a6aa56e37f4d61d35fa37fbd4e63e202eaa03df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:04 +0000
Subject: [PATCH 32/42] fix: capture_http lost requests which opened their
 tunnel when sent

---
 warcio/capture_http.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index 12d7155..5d37fde 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -114,6 +114,10 @@ class RecordingHTTPConnection(httplib.HTTPConnection):
             orig_connection.send(self, data)
             return
 
+        # open any tunnel first
+        if self.sock is None and self.auto_open:
+            self.connect()
+
         def send_request(buff):
             self.recorder.extract_url(buff, self.host, self.port, self.default_port)
 
@@ -133,10 +137,17 @@ class RecordingHTTPConnection(httplib.HTTPConnection):
             send_request(data)
 
     def _tunnel(self, *args, **kwargs):
-        if self.recorder:
-            self.recorder.start_tunnel()
+        if not self.recorder:
+            return orig_connection._tunnel(self, *args, **kwargs)
 
-        return orig_connection._tunnel(self, *args, **kwargs)
+        # the tunnel may be opened once the request was started
+        started_req = self.recorder.started_req
+        self.recorder.start_tunnel()
+        try:
+            return orig_connection._tunnel(self, *args, **kwargs)
+        finally:
+            self.recorder.started_req = started_req
+            self.recorder.first_line_read = False
 
     def putrequest(self, *args, **kwargs):
         if self.recorder:
-- 
2.43.0


From 803d82a81cdf5f68f025c21264cc4ad3bef0f03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:04 +0000
Subject: [PATCH 33/42] fix: capture_http failed on other request methods and
 status lines, or changed the method's case

---
 warcio/capture_http.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index 5d37fde..6c2d4ba 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -11,6 +11,7 @@ from copy import copy
 from array import array
 
 from warcio.utils import to_native_str, BUFF_SIZE, open
+from warcio.recordloader import ArcWarcRecordLoader
 from warcio.warcwriter import WARCWriter, BufferWARCWriter
 
 from tempfile import SpooledTemporaryFile
@@ -216,12 +217,17 @@ class RequestRecorder(object):
     def _create_record(self, out, record_type):
         length = out.tell()
         out.seek(0)
+        # any method and status line, as sent
+        loader = ArcWarcRecordLoader(verify_http=False)
+        http_headers = loader.load_http_headers(record_type, self.url, out, length)
+        length -= out.tell()
         return self.writer.create_warc_record(
                 warc_headers_dict=self.warc_headers,
                 uri=self.url,
                 record_type=record_type,
                 payload=out,
-                length=length)
+                length=length,
+                http_headers=http_headers)
 
     def done(self):
         if not self.started_req:
-- 
2.43.0


From 49685e3ca4e65dd5ec598ccd5d6a6391c42022ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:04 +0000
Subject: [PATCH 34/42] fix: captured urls of IPv6 hosts lacked the brackets

---
 warcio/capture_http.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index 6c2d4ba..a34dda4 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -260,8 +260,11 @@ class RequestRecorder(object):
         verb = parts[0]
         path = parts[1]
 
+        if ':' in host and not host.startswith('['):
+            host = '[' + host + ']'
+
         if verb == "CONNECT":
-            parts = path.split(":", 1)
+            parts = path.rsplit(":", 1)
             self.connect_host = parts[0]
             self.connect_port = int(parts[1]) if len(parts) > 1 else default_port
             self.tunnel_headers['WARC-Proxy-Host'] = "https://{0}:{1}".format(host, port)
-- 
2.43.0


From 8e30e81a9a4d6c9ab15bc69cd25ca92121a087f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:04 +0000
Subject: [PATCH 35/42] fix: under capture_http, HTTPConnection.send() failed
 for iterables and text files

---
 warcio/capture_http.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index a34dda4..f915a4b 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -1,4 +1,5 @@
 import threading
+import six
 
 from io import BytesIO
 
@@ -133,6 +134,18 @@ class RecordingHTTPConnection(httplib.HTTPConnection):
                 if not buff:
                     break
 
+                # from a text file
+                if isinstance(buff, six.text_type):
+                    buff = buff.encode('iso-8859-1')
+
+                send_request(buff)
+            return
+
+        try:
+            memoryview(data)
+        except TypeError:
+            # iterable of buffers
+            for buff in data:
                 send_request(buff)
         else:
             send_request(data)
-- 
2.43.0


From 5e8561b1b7be516f85f41b651b2adceb20950590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:04 +0000
Subject: [PATCH 36/42] fix: leaving a nested capture_http context ended the
 outer one's capture

---
 warcio/capture_http.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index f915a4b..0d5db99 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -311,6 +311,7 @@ httplib.HTTPConnection = RecordingHTTPConnection
 def capture_http(warc_writer=None, filter_func=None, append=True,
                 record_ip=True, **kwargs):
     out = None
+    outer = getattr(RecordingHTTPConnection.local, 'recorder', None)
     if warc_writer == None:
         if 'gzip' not in kwargs:
             kwargs['gzip'] = False
@@ -327,7 +328,7 @@ def capture_http(warc_writer=None, filter_func=None, append=True,
         yield warc_writer
 
     finally:
-        RecordingHTTPConnection.local.recorder = None
+        RecordingHTTPConnection.local.recorder = outer
         if out:
             out.close()
 
-- 
2.43.0


From 2dd763843771cbc4ff70a597478b2c5cf2685405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:04 +0000
Subject: [PATCH 37/42] fix: connections still used after a capture to a file
 ended failed

---
 warcio/capture_http.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index 0d5db99..74fd92c 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -256,6 +256,10 @@ class RequestRecorder(object):
                     return
 
             with self.lock:
+                # connection outlived the capture to a file
+                if getattr(getattr(self.writer, 'out', None), 'closed', False):
+                    return
+
                 self.writer.write_request_response_pair(request, response)
         finally:
             self.request_out.close()
-- 
2.43.0


From e7a5f17e383f7b7d5b16acf7d1f68c164603abe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:04 +0000
Subject: [PATCH 38/42] fix: https connections of http.client itself were not
 captured

---
 warcio/capture_http.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index 74fd92c..939f3ce 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -309,6 +309,9 @@ class RequestRecorder(object):
 
 # ============================================================================
 httplib.HTTPConnection = RecordingHTTPConnection
+if hasattr(httplib, 'HTTPSConnection'):
+    # its own https connections too
+    httplib.HTTPSConnection.__bases__ = (RecordingHTTPConnection,)
 # ============================================================================
 
 @contextmanager
-- 
2.43.0


From 80ec79366488a20057c37034f11705cfcda3595d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:21 +0000
Subject: [PATCH 39/42] fix: urls of other schemes requested through a proxy
 were captured with the proxy's address in front

---
 warcio/capture_http.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index 939f3ce..86e3e4a 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -1,3 +1,4 @@
+import re
 import threading
 import six
 
@@ -294,7 +295,7 @@ class RequestRecorder(object):
         if self.connect_port:
             port = self.connect_port
 
-        if path.startswith(('http:', 'https:')):
+        if re.match('[A-Za-z][A-Za-z0-9+.-]*://', path):
             self.warc_headers['WARC-Proxy-Host'] = "http://{0}:{1}".format(host, port)
             self.url = path
             return
-- 
2.43.0


From cf144a9ca9a54425c81e94731b505efabdca9e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:56 +0000
Subject: [PATCH 40/42] fix: a record with HTTP headers could not be made from
 a payload with a length that is not seekable

---
 warcio/recordbuilder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/warcio/recordbuilder.py b/warcio/recordbuilder.py
index e88213c..0d672c2 100644
--- a/warcio/recordbuilder.py
+++ b/warcio/recordbuilder.py
@@ -4,6 +4,7 @@ import tempfile
 from datetime import datetime, timezone
 from io import BytesIO
 
+from warcio.limitreader import LimitReader
 from warcio.recordloader import ArcWarcRecord, ArcWarcRecordLoader
 from warcio.statusandheaders import StatusAndHeadersParser, StatusAndHeaders
 from warcio.timeutils import datetime_to_iso_date
@@ -96,6 +97,9 @@ class RecordBuilder(object):
             except (AttributeError, IOError):
                 # not seekable
                 start = 0
+                # the part used by the http headers is to be known
+                if length is not None:
+                    payload = LimitReader(payload, length)
 
             http_headers = loader.load_http_headers(record_type, uri, payload, length)
             if http_headers is not None and length is not None:
-- 
2.43.0


From 9b264d1eae3c63438e86dcd0159215587d9974f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:28 +0000
Subject: [PATCH 41/42] fix: captures of several threads into one writer mixed
 their records

---
 warcio/capture_http.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index 86e3e4a..d743e67 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -174,6 +174,9 @@ class RecordingHTTPConnection(httplib.HTTPConnection):
 
 # ============================================================================
 class RequestRecorder(object):
+    # captures in several threads may share a writer
+    lock = threading.RLock()
+
     def __init__(self, writer, filter_func=None, record_ip=True):
         self.writer = writer
         self.filter_func = filter_func
@@ -183,7 +186,6 @@ class RequestRecorder(object):
         self.connect_host = self.connect_port = None
         self.started_req = False
         self.first_line_read = False
-        self.lock = threading.Lock()
         self.warc_headers = {}
         self.tunnel_headers = {}
         self.record_ip = record_ip
-- 
2.43.0


From 3453f38feb553c9c0e33ece2e36b58e3ef4a6155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:41 +0000
Subject: [PATCH 42/42] fix: recompress and index truncated their input when it
 was also given as output

---
 warcio/indexer.py      |  7 ++++++-
 warcio/recompressor.py |  8 +++++++-
 warcio/utils.py        | 22 ++++++++++++++++++++++
 3 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/warcio/indexer.py b/warcio/indexer.py
index bfca973..8da15c7 100644
--- a/warcio/indexer.py
+++ b/warcio/indexer.py
@@ -5,7 +5,7 @@ import os
 from collections import OrderedDict
 
 from warcio.archiveiterator import ArchiveIterator
-from warcio.utils import fsspec_open
+from warcio.utils import fsspec_open, is_same_file
 
 
 # ============================================================================
@@ -23,6 +23,11 @@ class Indexer(object):
         self.verify_http = verify_http
 
     def process_all(self):
+        for filename in self.inputs:
+            # opening the output would truncate the input
+            if is_same_file(filename, self.output):
+                raise ValueError('Output is one of the input files: ' + filename)
+
         with fsspec_open(self.output, 'wt', sys.stdout) as out:
             for filename in self.inputs:
                 try:
diff --git a/warcio/recompressor.py b/warcio/recompressor.py
index c164827..ef21a2f 100644
--- a/warcio/recompressor.py
+++ b/warcio/recompressor.py
@@ -3,7 +3,7 @@ from warcio.exceptions import ArchiveLoadFailed
 
 from warcio.warcwriter import WARCWriter
 from warcio.bufferedreaders import DecompressingBufferedReader
-from warcio.utils import fsspec_open
+from warcio.utils import fsspec_open, is_same_file
 
 import tempfile
 import shutil
@@ -20,6 +20,12 @@ class Recompressor(object):
 
     def recompress(self):
         from warcio.cli import main
+
+        # opening the output would truncate the input
+        if is_same_file(self.filename, self.output):
+            print('Recompress Failed: {0} is the input and the output file'.format(self.filename))
+            sys.exit(1)
+
         try:
             count = 0
             msg = ''
diff --git a/warcio/utils.py b/warcio/utils.py
index 35ac899..f601bfe 100644
--- a/warcio/utils.py
+++ b/warcio/utils.py
@@ -56,6 +56,28 @@ def fsspec_open(filename, mod, default_fh=None, **kwargs):
         yield default_fh
 
 
+# #===========================================================================
+def is_same_file(first, second):
+    """
+    Return True if both names refer to the same file
+    """
+    if not isinstance(first, str) or not isinstance(second, str):
+        return False
+
+    # stdin, stdout
+    if first == '-' or second == '-':
+        return False
+
+    if first == second:
+        return True
+
+    try:
+        return os.path.samefile(first, second)
+    except (OSError, AttributeError, ValueError):
+        # not existing, or not local
+        return False
+
+
 # #===========================================================================
 @contextmanager
 def open_or_default(filename, mod, default_fh):
-- 
2.43.0

