From 16411ccb9b8061936487dc576e39f8576bd93dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:17 +0000
Subject: [PATCH 01/11] fix: write single bytes with write_all

write_byte ignored a transport that accepts no byte (the header byte was
silently lost and the write reported success) and did not retry an
interrupted blocking write.
---
 src/thrift/protocol/compact_stream_write.rs | 3 ++-
 src/thrift/protocol/compact_write.rs        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/thrift/protocol/compact_stream_write.rs b/src/thrift/protocol/compact_stream_write.rs
index d842eee..ea9d69b 100644
--- a/src/thrift/protocol/compact_stream_write.rs
+++ b/src/thrift/protocol/compact_stream_write.rs
@@ -273,6 +273,7 @@ where
     //
 
     async fn write_byte(&mut self, b: u8) -> Result<usize> {
-        self.transport.write(&[b]).await.map_err(From::from)
+        self.transport.write_all(&[b]).await?;
+        Ok(1)
     }
 }
diff --git a/src/thrift/protocol/compact_write.rs b/src/thrift/protocol/compact_write.rs
index 906d579..f8330e1 100644
--- a/src/thrift/protocol/compact_write.rs
+++ b/src/thrift/protocol/compact_write.rs
@@ -244,7 +244,8 @@ where
     //
 
     fn write_byte(&mut self, b: u8) -> Result<usize> {
-        self.transport.write(&[b]).map_err(From::from)
+        self.transport.write_all(&[b])?;
+        Ok(1)
     }
 }
 
-- 
2.43.0


From ac8f8dc89f8405c3e912976b141ca450f6ab8e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:08 +0000
Subject: [PATCH 02/11] fix: retry interrupted reads of blocking varints

read_varint failed when the transport reported EINTR between two bytes,
although every other blocking read retries it.
---
 src/thrift/varint/decode.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/thrift/varint/decode.rs b/src/thrift/varint/decode.rs
index ae032af..197dc3e 100644
--- a/src/thrift/varint/decode.rs
+++ b/src/thrift/varint/decode.rs
@@ -257,7 +257,11 @@ impl<R: io::Read> VarIntReader for R {
         let mut p = VarIntProcessor::new::<VI>();
 
         while !p.finished() {
-            let read = self.read(&mut buf)?;
+            let read = match self.read(&mut buf) {
+                Ok(read) => read,
+                Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
+                Err(e) => return Err(e),
+            };
 
             // EOF
             if read == 0 && p.i == 0 {
-- 
2.43.0


From f07831ab814318978577608db8fa51679b491dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:23 +0000
Subject: [PATCH 03/11] fix: refuse byte fields cut short by the end of the
 stream

read_bytes (and read_string) returned whatever was left when the stream
ended before the declared length. Both readers now report end of file. The
asynchronous reader also no longer grows its buffer, infallibly, to probe for
the end.
---
 src/thrift/protocol/compact.rs        | 3 +++
 src/thrift/protocol/compact_stream.rs | 6 ++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/thrift/protocol/compact.rs b/src/thrift/protocol/compact.rs
index ec6b329..29c88c4 100644
--- a/src/thrift/protocol/compact.rs
+++ b/src/thrift/protocol/compact.rs
@@ -223,6 +223,9 @@ where
             .by_ref()
             .take(len.try_into()?)
             .read_to_end(&mut buf)?;
+        if buf.len() != usize::try_from(len)? {
+            return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+        }
         Ok(buf)
     }
 
diff --git a/src/thrift/protocol/compact_stream.rs b/src/thrift/protocol/compact_stream.rs
index 25e26be..1a1418f 100644
--- a/src/thrift/protocol/compact_stream.rs
+++ b/src/thrift/protocol/compact_stream.rs
@@ -212,10 +212,8 @@ impl<R: VarIntAsyncReader + AsyncRead + Unpin + Send> TInputStreamProtocol
 
         let mut buf = vec![];
         buf.try_reserve(len.try_into()?)?;
-        (&mut self.reader)
-            .take(len.try_into()?)
-            .read_to_end(&mut buf)
-            .await?;
+        buf.resize(len.try_into()?, 0);
+        self.reader.read_exact(&mut buf).await?;
         Ok(buf)
     }
 
-- 
2.43.0


From 2d30afb3a1e9e8c11b96e89bddfaa8724d1d3188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:12 +0000
Subject: [PATCH 04/11] fix: do not abort when a declared list cannot be
 allocated

read_list allocated the declared number of entries with an infallible
allocation: a stream declaring many entries of a large type aborted the process
(or panicked on capacity overflow). A failed allocation is now a size-limit
error, as it already was for byte fields.
---
 src/thrift/protocol/mod.rs    | 3 ++-
 src/thrift/protocol/stream.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/thrift/protocol/mod.rs b/src/thrift/protocol/mod.rs
index 168aedd..da2e222 100644
--- a/src/thrift/protocol/mod.rs
+++ b/src/thrift/protocol/mod.rs
@@ -211,7 +211,8 @@ pub trait TInputProtocol: Sized {
 
     fn read_list<P: ReadThrift>(&mut self) -> crate::thrift::Result<Vec<P>> {
         let list_ident = self.read_list_begin()?;
-        let mut val: Vec<P> = Vec::with_capacity(list_ident.size as usize);
+        let mut val: Vec<P> = Vec::new();
+        val.try_reserve_exact(list_ident.size as usize)?;
         for _ in 0..list_ident.size {
             val.push(P::read_from_in_protocol(self)?);
         }
diff --git a/src/thrift/protocol/stream.rs b/src/thrift/protocol/stream.rs
index ee04bd2..deee7c7 100644
--- a/src/thrift/protocol/stream.rs
+++ b/src/thrift/protocol/stream.rs
@@ -118,7 +118,8 @@ pub trait TInputStreamProtocol: Send + Sized {
 
     async fn read_list<P: AsyncReadThrift>(&mut self) -> crate::thrift::Result<Vec<P>> {
         let list_ident = self.read_list_begin().await?;
-        let mut val: Vec<P> = Vec::with_capacity(list_ident.size as usize);
+        let mut val: Vec<P> = Vec::new();
+        val.try_reserve_exact(list_ident.size as usize)?;
         for _ in 0..list_ident.size {
             val.push(P::stream_from_in_protocol(self).await?);
         }
-- 
2.43.0


From 07faa36d7fc1feec8a864b69bfdfea5f87acbbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:32 +0000
Subject: [PATCH 05/11] fix: charge structs to the read limit in the
 asynchronous reader

Only the blocking reader charged for the structs it entered, so the two readers
disagreed on what a limit admits and endlessly nested or repeated structs were
never cut off by the asynchronous one.
---
 src/thrift/protocol/compact_stream.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thrift/protocol/compact_stream.rs b/src/thrift/protocol/compact_stream.rs
index 1a1418f..8a805e0 100644
--- a/src/thrift/protocol/compact_stream.rs
+++ b/src/thrift/protocol/compact_stream.rs
@@ -123,6 +123,7 @@ impl<R: VarIntAsyncReader + AsyncRead + Unpin + Send> TInputStreamProtocol
     }
 
     async fn read_struct_begin(&mut self) -> Result<Option<TStructIdentifier>> {
+        self.update_remaining::<i16>(1)?;
         self.read_field_id_stack.push(self.last_read_field_id);
         self.last_read_field_id = 0;
         Ok(None)
-- 
2.43.0


From ed65525353e5123e3adebe756b7846e5625eab8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:26 +0000
Subject: [PATCH 06/11] fix: count the size bytes of asynchronously written map
 headers

The count returned by the asynchronous write_map_begin left out the bytes of
the map's size.
---
 src/thrift/protocol/compact_stream_write.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/thrift/protocol/compact_stream_write.rs b/src/thrift/protocol/compact_stream_write.rs
index ea9d69b..cb1e8d4 100644
--- a/src/thrift/protocol/compact_stream_write.rs
+++ b/src/thrift/protocol/compact_stream_write.rs
@@ -244,7 +244,8 @@ where
         if identifier.size == 0 {
             self.write_byte(0).await
         } else {
-            self.transport.write_varint_async(identifier.size).await?;
+            let mut written = 0;
+            written += self.transport.write_varint_async(identifier.size).await?;
 
             let key_type = identifier
                 .key_type
@@ -257,7 +258,8 @@ where
             let val_type_byte = collection_type_to_u8(val_type);
 
             let map_type_header = key_type_byte | val_type_byte;
-            self.write_byte(map_type_header).await
+            written += self.write_byte(map_type_header).await?;
+            Ok(written)
         }
     }
 
-- 
2.43.0


From 95749689a0937326dc993e37c1f649759fd825ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:31 +0000
Subject: [PATCH 07/11] fix: avoid overflow in the difference of written field
 ids

The difference of two 16-bit ids was taken in 16 bits: writing distant ids
panicked, or with overflow checks off produced a wrong short header.
---
 src/thrift/protocol/compact_stream_write.rs | 2 +-
 src/thrift/protocol/compact_write.rs        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thrift/protocol/compact_stream_write.rs b/src/thrift/protocol/compact_stream_write.rs
index cb1e8d4..8f983c7 100644
--- a/src/thrift/protocol/compact_stream_write.rs
+++ b/src/thrift/protocol/compact_stream_write.rs
@@ -51,7 +51,7 @@ where
     async fn write_field_header(&mut self, field_type: u8, field_id: i16) -> Result<usize> {
         let mut written = 0;
 
-        let field_delta = field_id - self.last_write_field_id;
+        let field_delta = i32::from(field_id) - i32::from(self.last_write_field_id);
         if field_delta > 0 && field_delta < 15 {
             written += self
                 .write_byte(((field_delta as u8) << 4) | field_type)
diff --git a/src/thrift/protocol/compact_write.rs b/src/thrift/protocol/compact_write.rs
index f8330e1..5e8a8ad 100644
--- a/src/thrift/protocol/compact_write.rs
+++ b/src/thrift/protocol/compact_write.rs
@@ -45,7 +45,7 @@ where
     fn write_field_header(&mut self, field_type: u8, field_id: i16) -> Result<usize> {
         let mut written = 0;
 
-        let field_delta = field_id - self.last_write_field_id;
+        let field_delta = i32::from(field_id) - i32::from(self.last_write_field_id);
         if field_delta > 0 && field_delta < 15 {
             written += self.write_byte(((field_delta as u8) << 4) | field_type)?;
         } else {
-- 
2.43.0


From 90584c26ba6488d55fa0265b44ebb32a5234ed97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:24 +0000
Subject: [PATCH 08/11] fix: skip unknown binary fields that are not UTF-8

Strings and binaries share a wire type, but skipping one validated it as a
string, so an unknown binary field made the whole value unreadable.
---
 src/thrift/protocol/mod.rs    | 2 +-
 src/thrift/protocol/stream.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thrift/protocol/mod.rs b/src/thrift/protocol/mod.rs
index da2e222..af36293 100644
--- a/src/thrift/protocol/mod.rs
+++ b/src/thrift/protocol/mod.rs
@@ -162,7 +162,7 @@ pub trait TInputProtocol: Sized {
             TType::I32 => self.read_i32().map(|_| ()),
             TType::I64 => self.read_i64().map(|_| ()),
             TType::Double => self.read_double().map(|_| ()),
-            TType::String => self.read_string().map(|_| ()),
+            TType::String => self.read_bytes().map(|_| ()),
             TType::Struct => {
                 self.read_struct_begin()?;
                 loop {
diff --git a/src/thrift/protocol/stream.rs b/src/thrift/protocol/stream.rs
index deee7c7..10f9fe3 100644
--- a/src/thrift/protocol/stream.rs
+++ b/src/thrift/protocol/stream.rs
@@ -149,7 +149,7 @@ pub trait TInputStreamProtocol: Send + Sized {
             TType::I32 => self.read_i32().await.map(|_| ()),
             TType::I64 => self.read_i64().await.map(|_| ()),
             TType::Double => self.read_double().await.map(|_| ()),
-            TType::String => self.read_string().await.map(|_| ()),
+            TType::String => self.read_bytes().await.map(|_| ()),
             TType::Struct => {
                 self.read_struct_begin().await?;
                 loop {
-- 
2.43.0


From ef29fcab1066c989e323d979af94bb1b8e90758c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:50 +0000
Subject: [PATCH 09/11] fix: read boolean elements as the compact specification
 writes them

The element type of boolean collections is 1 or 2, and false is sent as 0.
Both readers refused such lists (e.g. ColumnIndex.null_pages).
---
 src/thrift/protocol/compact.rs        | 6 ++++--
 src/thrift/protocol/compact_stream.rs | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/thrift/protocol/compact.rs b/src/thrift/protocol/compact.rs
index 29c88c4..30a47f9 100644
--- a/src/thrift/protocol/compact.rs
+++ b/src/thrift/protocol/compact.rs
@@ -202,7 +202,8 @@ where
                 let b = self.read_byte()?;
                 match b {
                     0x01 => Ok(true),
-                    0x02 => Ok(false),
+                    // the specification writes 0, most implementations write 2
+                    0x00 | 0x02 => Ok(false),
                     unkn => Err(Error::Protocol(ProtocolError {
                         kind: ProtocolErrorKind::InvalidData,
                         message: format!("cannot convert {} into bool", unkn),
@@ -314,7 +315,8 @@ where
 
 pub(super) fn collection_u8_to_type(b: u8) -> Result<TType> {
     match b {
-        0x01 => Ok(TType::Bool),
+        // the specification allows both codes for boolean elements
+        0x01 | 0x02 => Ok(TType::Bool),
         o => u8_to_type(o),
     }
 }
diff --git a/src/thrift/protocol/compact_stream.rs b/src/thrift/protocol/compact_stream.rs
index 8a805e0..2ce9f7e 100644
--- a/src/thrift/protocol/compact_stream.rs
+++ b/src/thrift/protocol/compact_stream.rs
@@ -196,7 +196,8 @@ impl<R: VarIntAsyncReader + AsyncRead + Unpin + Send> TInputStreamProtocol
                 let b = self.read_byte().await?;
                 match b {
                     0x01 => Ok(true),
-                    0x02 => Ok(false),
+                    // the specification writes 0, most implementations write 2
+                    0x00 | 0x02 => Ok(false),
                     unkn => Err(Error::Protocol(ProtocolError {
                         kind: ProtocolErrorKind::InvalidData,
                         message: format!("cannot convert {} into bool", unkn),
-- 
2.43.0


From 5e8cdfe2087dddf86091fd204b00fc6278f3953f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:26 +0000
Subject: [PATCH 10/11] fix: end the fields of skipped structs

Skipping a struct, and skipping an unknown field of an application error,
read the beginning of each field but never its end, so protocols for which
the end of a field does something fell out of step.
---
 src/thrift/errors.rs          | 1 +
 src/thrift/protocol/mod.rs    | 1 +
 src/thrift/protocol/stream.rs | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/thrift/errors.rs b/src/thrift/errors.rs
index 4ba78fd..61c0f5c 100644
--- a/src/thrift/errors.rs
+++ b/src/thrift/errors.rs
@@ -112,6 +112,7 @@ impl Error {
                 }
                 _ => {
                     i.skip(field_ident.field_type)?;
+                    i.read_field_end()?;
                 }
             }
         }
diff --git a/src/thrift/protocol/mod.rs b/src/thrift/protocol/mod.rs
index af36293..cb651c0 100644
--- a/src/thrift/protocol/mod.rs
+++ b/src/thrift/protocol/mod.rs
@@ -171,6 +171,7 @@ pub trait TInputProtocol: Sized {
                         break;
                     }
                     self.skip_till_depth(field_ident.field_type, depth - 1)?;
+                    self.read_field_end()?;
                 }
                 self.read_struct_end()
             }
diff --git a/src/thrift/protocol/stream.rs b/src/thrift/protocol/stream.rs
index 10f9fe3..8710106 100644
--- a/src/thrift/protocol/stream.rs
+++ b/src/thrift/protocol/stream.rs
@@ -159,6 +159,7 @@ pub trait TInputStreamProtocol: Send + Sized {
                     }
                     self.skip_till_depth(field_ident.field_type, depth - 1)
                         .await?;
+                    self.read_field_end().await?;
                 }
                 self.read_struct_end().await
             }
-- 
2.43.0


From 9b3647516c5871c4571457384a4d9cc97fc2cf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:06 +0000
Subject: [PATCH 11/11] fix: do not read a stale boolean as an element of a
 later value

A boolean field whose value nobody read (the field is expected to be of
another type) left its value pending, and the first boolean element of the
next list was taken from it instead of from the stream.
---
 src/thrift/protocol/compact.rs        | 4 ++++
 src/thrift/protocol/compact_stream.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/thrift/protocol/compact.rs b/src/thrift/protocol/compact.rs
index 30a47f9..36b1158 100644
--- a/src/thrift/protocol/compact.rs
+++ b/src/thrift/protocol/compact.rs
@@ -144,6 +144,10 @@ where
     }
 
     fn read_field_begin(&mut self) -> Result<TFieldIdentifier> {
+        // a boolean that nobody read (the field was expected to be of another type, or the
+        // read was abandoned) is not a value of what follows
+        self.pending_read_bool_value = None;
+
         // we can read at least one byte, which is:
         // - the type
         // - the field delta and the type
diff --git a/src/thrift/protocol/compact_stream.rs b/src/thrift/protocol/compact_stream.rs
index 2ce9f7e..74a3c28 100644
--- a/src/thrift/protocol/compact_stream.rs
+++ b/src/thrift/protocol/compact_stream.rs
@@ -138,6 +138,10 @@ impl<R: VarIntAsyncReader + AsyncRead + Unpin + Send> TInputStreamProtocol
     }
 
     async fn read_field_begin(&mut self) -> Result<TFieldIdentifier> {
+        // a boolean that nobody read (the field was expected to be of another type, or the
+        // read was abandoned) is not a value of what follows
+        self.pending_read_bool_value = None;
+
         // we can read at least one byte, which is:
         // - the type
         // - the field delta and the type
-- 
2.43.0

