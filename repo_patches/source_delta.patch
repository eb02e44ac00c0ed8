From 797a4e5c3ae214e329bc89ebf33f6299fcd7b6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 01/41] fix: store the stack size in its own section instead of
 the heap size section

---
 src/aalv/obj/sec_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aalv/obj/sec_impl.rs b/src/aalv/obj/sec_impl.rs
index 09ae058..a3cc3aa 100644
--- a/src/aalv/obj/sec_impl.rs
+++ b/src/aalv/obj/sec_impl.rs
@@ -85,7 +85,7 @@ impl Section for BinarySegment {
     }
 }
 impl Section for StackSize {
-    const NAME: &'static str = "_heap_size";
+    const NAME: &'static str = "_stack_size";
     fn read<R: Read>(mut reader: R) -> io::Result<Self> {
         let mut buf = [0; 2];
         reader.read_exact(&mut buf)?;
-- 
2.43.0


From c4d55f2c5ba99ea459b6bce494c4fec2ec0fc213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 02/41] fix: refuse sections over 65535 bytes and write their
 length before their content

---
 src/aalv/mod.rs | 48 ++++++++++++++----------------------------------
 1 file changed, 14 insertions(+), 34 deletions(-)

diff --git a/src/aalv/mod.rs b/src/aalv/mod.rs
index 8db48e2..c6bc01e 100644
--- a/src/aalv/mod.rs
+++ b/src/aalv/mod.rs
@@ -198,21 +198,21 @@ impl<F: Write + Seek> AalvWriter<F> {
         );
         assert_ne!(!S::NAME.len(), 0, "section name may not be empty");
 
-        write!(self.file, "{}\0\0\0", S::NAME)?;
-
-        let mut w = CountedWriter {
-            writer: &mut self.file,
-            length: 0,
-        };
-
-        segment.write(&mut w)?;
-        let CountedWriter { writer: _, length } = w;
-
-        self.file.seek(SeekFrom::Current(-(length as i64) - 2))?;
-        self.file.write_all(&(length as u16).to_le_bytes())?;
-        self.file.seek(SeekFrom::Current(length as i64))?;
+        let mut bytes = Vec::new();
+        segment.write(&mut bytes)?;
+
+        let length = u16::try_from(bytes.len()).map_err(|_| {
+            io::Error::new(
+                ErrorKind::InvalidInput,
+                format!("section {} is too long", S::NAME),
+            )
+        })?;
 
-        Ok(())
+        // The length is written before the content, so that a file that was
+        // only written in part ends in the middle of a section
+        write!(self.file, "{}\0", S::NAME)?;
+        self.file.write_all(&length.to_le_bytes())?;
+        self.file.write_all(&bytes)
     }
 }
 
@@ -224,26 +224,6 @@ impl<F: Write> Drop for AalvWriter<F> {
     }
 }
 
-struct CountedWriter<W: Write> {
-    writer: W,
-    length: usize,
-}
-
-impl<R: Write> Write for CountedWriter<R> {
-    fn flush(&mut self) -> Result<()> {
-        self.writer.flush()
-    }
-    fn write(&mut self, buf: &[u8]) -> Result<usize> {
-        let n = self.writer.write(buf)?;
-        self.length += n;
-        Ok(n)
-    }
-    fn write_all(&mut self, buf: &[u8]) -> Result<()> {
-        self.length += buf.len();
-        self.writer.write_all(buf)
-    }
-}
-
 pub trait Section: Sized {
     const NAME: &'static str;
     fn read<R: Read>(reader: R) -> Result<Self>;
-- 
2.43.0


From c779187b744c985cf55d5afb7c3690f415328004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 03/41] fix: report errors of the last writes to an object file

---
 src/aalv/mod.rs | 13 +++++++------
 src/aalv/obj.rs |  1 +
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/aalv/mod.rs b/src/aalv/mod.rs
index c6bc01e..56c2ff2 100644
--- a/src/aalv/mod.rs
+++ b/src/aalv/mod.rs
@@ -214,13 +214,14 @@ impl<F: Write + Seek> AalvWriter<F> {
         self.file.write_all(&length.to_le_bytes())?;
         self.file.write_all(&bytes)
     }
-}
 
-impl<F: Write> Drop for AalvWriter<F> {
-    fn drop(&mut self) {
-        self.file
-            .write_all(&[0])
-            .expect("writing of final álvur zero byte failed");
+    /// Ends the list of sections and flushes the file
+    ///
+    /// Without this, the file is incomplete and will not be readable.
+    pub fn finish(mut self) -> Result<F> {
+        self.file.write_all(&[0])?;
+        self.file.flush()?;
+        Ok(self.file)
     }
 }
 
diff --git a/src/aalv/obj.rs b/src/aalv/obj.rs
index abc0a71..4f26f43 100644
--- a/src/aalv/obj.rs
+++ b/src/aalv/obj.rs
@@ -117,6 +117,7 @@ impl Object {
         if !relocation_table.0.is_empty() {
             aalvur.write_section(relocation_table)?;
         }
+        aalvur.finish()?;
 
         Ok(())
     }
-- 
2.43.0


From 1c4a2736cee282a5282fb162f076552b3b66c239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 04/41] fix: refuse malformed sections with an error instead of
 a panic or silently

---
 src/aalv/obj.rs          |  5 ++++-
 src/aalv/obj/sec_impl.rs | 27 +++++++++++++++------------
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/aalv/obj.rs b/src/aalv/obj.rs
index 4f26f43..3f5f925 100644
--- a/src/aalv/obj.rs
+++ b/src/aalv/obj.rs
@@ -60,7 +60,10 @@ impl Object {
         };
 
         if aalvur.remaing_sections().any(|s| s.starts_with('_')) {
-            unimplemented!("error unexpected sections")
+            Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "unexpected section",
+            ))
         } else {
             Ok(obj)
         }
diff --git a/src/aalv/obj/sec_impl.rs b/src/aalv/obj/sec_impl.rs
index a3cc3aa..8f20915 100644
--- a/src/aalv/obj/sec_impl.rs
+++ b/src/aalv/obj/sec_impl.rs
@@ -118,7 +118,7 @@ impl Section for SymbolTable {
 
             let segment_type = segment_type_from_u8(stype)?;
 
-            let is_global = namebuf[0] != b' ';
+            let is_global = namebuf.first() != Some(&b' ');
             let name = if is_global {
                 String::from_utf8_lossy(&namebuf).into()
             } else {
@@ -157,18 +157,21 @@ impl Section for RelocationTable {
     const NAME: &'static str = "_reloc";
 
     fn read<R: Read>(mut reader: R) -> io::Result<Self> {
-        let mut entries = Vec::new();
+        let mut bytes = Vec::new();
+        reader.read_to_end(&mut bytes)?;
+        if bytes.len() % 5 != 0 {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "incomplete relocation entry",
+            ));
+        }
 
-        loop {
-            let mut buf = [0; 5];
-            match reader.read_exact(&mut buf) {
-                Ok(()) => (),
-                Err(e) if e.kind() == io::ErrorKind::UnexpectedEof => {
-                    break;
-                }
-                Err(e) => return Err(e),
-            }
-            let [stype, ol1, oh1, ol2, oh2] = buf;
+        let mut entries = Vec::with_capacity(bytes.len() / 5);
+
+        for entry in bytes.chunks_exact(5) {
+            let &[stype, ol1, oh1, ol2, oh2] = entry else {
+                unreachable!("chunk is exactly five bytes");
+            };
 
             let reference_segment = segment_type_from_u8(stype)?;
             let reference_location = u16::from_le_bytes([ol1, oh1]);
-- 
2.43.0


From 8ba1ef74f34de490aa5812aeaf3be0ae1cb74581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 05/41] fix: do not add the segment start twice to the
 relocations of .wide labels

---
 src/bin/tc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/tc.rs b/src/bin/tc.rs
index 3abde82..1e2e311 100644
--- a/src/bin/tc.rs
+++ b/src/bin/tc.rs
@@ -34,7 +34,7 @@ fn main() -> ExitCode {
             lines.push(dls.lines);
         }
 
-        for ((&st, &mut (segment_start, ref mut mem)), lines) in segs.iter_mut().zip(lines) {
+        for ((&st, &mut (_, ref mut mem)), lines) in segs.iter_mut().zip(lines) {
             for data_line in lines {
                 match data_line {
                     DataLine::Raw(mut bytes) => {
@@ -44,7 +44,7 @@ fn main() -> ExitCode {
                     DataLine::Wide(Wide::Label(id)) => {
                         let lr = LabelRead {
                             segment: st,
-                            position: mem.len() as u16 + segment_start,
+                            position: mem.len() as u16,
                         };
                         label_reads[id].push(lr);
                         let w = labels[id].3;
-- 
2.43.0


From 3ebbdc0c2e835fcaf6d79e2105071eb8202dc1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 06/41] fix: set the dirty flag of the right page table entry

---
 src/blf4/mod.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/blf4/mod.rs b/src/blf4/mod.rs
index 2311c6c..948dc1b 100644
--- a/src/blf4/mod.rs
+++ b/src/blf4/mod.rs
@@ -374,14 +374,15 @@ impl HandlerContext<'_> {
 
         // set dirty bit to any entry that isn't marked as dirty, if the access mode is write
         if matches!(mode, AccessMode::Write) {
-            let dirty_iter = [lvl1_entry_addr, lvl2_entry_addr].into_iter().zip(
-                lvl1_entry
-                    .byte_with_dirty_flag
-                    .into_iter()
-                    .chain(lvl2_entry.byte_with_dirty_flag),
-            );
-
-            for (addr, undirty_byte) in dirty_iter {
+            let entries = [
+                (lvl1_entry_addr, lvl1_entry.byte_with_dirty_flag),
+                (lvl2_entry_addr, lvl2_entry.byte_with_dirty_flag),
+            ];
+
+            for (addr, undirty_byte) in entries {
+                let Some(undirty_byte) = undirty_byte else {
+                    continue;
+                };
                 // set dirty flag
                 let new_dirty_byte = undirty_byte | 0b0001_0000;
                 // convert to byte because the dirty flag is in the first byte
-- 
2.43.0


From 4c1f53c23631cec5418ded0fe1f7ab14ded3cba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 07/41] fix: wrap addresses, stack and program counter and mask
 shift distances instead of overflowing

---
 src/blf4/isa/handlers.rs | 38 +++++++++++++++++++-------------------
 src/blf4/mod.rs          | 14 +++++++-------
 2 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/blf4/isa/handlers.rs b/src/blf4/isa/handlers.rs
index d062c2a..94a3b2a 100644
--- a/src/blf4/isa/handlers.rs
+++ b/src/blf4/isa/handlers.rs
@@ -270,37 +270,37 @@ fn xor_w(c: &mut HandlerContext) -> OpRes {
     binop_w(c, |x, y| (x ^ y, false), |x, y| (x ^ y, false))
 }
 fn shl_b(c: &mut HandlerContext) -> OpRes {
-    binop_b(c, |x, y| (x << y, false), |x, y| (x << y, false))
+    binop_b(c, |x, y| (x.wrapping_shl(y as u32), false), |x, y| (x.wrapping_shl(y as u32), false))
 }
 fn shl_w(c: &mut HandlerContext) -> OpRes {
-    binop_w(c, |x, y| (x << y, false), |x, y| (x << y, false))
+    binop_w(c, |x, y| (x.wrapping_shl(y as u32), false), |x, y| (x.wrapping_shl(y as u32), false))
 }
 fn asr_b(c: &mut HandlerContext) -> OpRes {
     binop_b(
         c,
-        |x, y| (((x as i8) >> y) as u8, false),
-        |x, y| (x >> y, false),
+        |x, y| ((x as i8).wrapping_shr(y as u32) as u8, false),
+        |x, y| (x.wrapping_shr(y as u32), false),
     )
 }
 fn asr_w(c: &mut HandlerContext) -> OpRes {
     binop_w(
         c,
-        |x, y| (((x as i16) >> y) as u16, false),
-        |x, y| (x >> y, false),
+        |x, y| ((x as i16).wrapping_shr(y as u32) as u16, false),
+        |x, y| (x.wrapping_shr(y as u32), false),
     )
 }
 fn lsr_b(c: &mut HandlerContext) -> OpRes {
     binop_b(
         c,
-        |x, y| (x >> y, false),
-        |x, y| (((x as u8) >> y) as i8, false),
+        |x, y| (x.wrapping_shr(y as u32), false),
+        |x, y| ((x as u8).wrapping_shr(y as u32) as i8, false),
     )
 }
 fn lsr_w(c: &mut HandlerContext) -> OpRes {
     binop_w(
         c,
-        |x, y| (x >> y, false),
-        |x, y| (((x as u16) >> y) as i16, false),
+        |x, y| (x.wrapping_shr(y as u32), false),
+        |x, y| ((x as u16).wrapping_shr(y as u32) as i16, false),
     )
 }
 fn mul_b(c: &mut HandlerContext) -> OpRes {
@@ -428,7 +428,7 @@ fn call(c: &mut HandlerContext) -> OpRes {
 }
 fn ret(c: &mut HandlerContext) -> OpRes {
     let b = arg_imm_byte(c)?;
-    c.cpu.stack += b as u16;
+    c.cpu.stack = c.cpu.stack.wrapping_add(b as u16);
     c.cpu.program_counter = c.cpu.link;
 
     Ok(())
@@ -437,7 +437,7 @@ fn store_bi(c: &mut HandlerContext) -> OpRes {
     let (r1, r2) = arg_pair(c, Wr, Br)?;
     let offset = arg_imm_wide(c)?;
 
-    let addr = c.cpu.read_wr(r1)? + offset;
+    let addr = c.cpu.read_wr(r1)?.wrapping_add(offset);
     c.write(addr, c.cpu.read_br(r2))?;
 
     Ok(())
@@ -450,7 +450,7 @@ fn store_br(c: &mut HandlerContext) -> OpRes {
     }
     let offset = c.cpu.read_wr(r2)?;
 
-    let addr = c.cpu.read_wr(r1)? + offset;
+    let addr = c.cpu.read_wr(r1)?.wrapping_add(offset);
     c.write(addr, c.cpu.read_br(r3))?;
 
     Ok(())
@@ -459,7 +459,7 @@ fn store_wi(c: &mut HandlerContext) -> OpRes {
     let (r1, r2) = arg_pair(c, Wr, Wr)?;
     let offset = arg_imm_wide(c)?;
 
-    let addr = c.cpu.read_wr(r1)? + offset;
+    let addr = c.cpu.read_wr(r1)?.wrapping_add(offset);
     c.write_wide(addr, c.cpu.read_wr(r2)?)?;
 
     Ok(())
@@ -472,7 +472,7 @@ fn store_wr(c: &mut HandlerContext) -> OpRes {
     }
     let offset = c.cpu.read_wr(r2)?;
 
-    let addr = c.cpu.read_wr(r1)? + offset;
+    let addr = c.cpu.read_wr(r1)?.wrapping_add(offset);
     c.write_wide(addr, c.cpu.read_wr(r3)?)?;
 
     Ok(())
@@ -481,7 +481,7 @@ fn load_bi(c: &mut HandlerContext) -> OpRes {
     let (r1, r2) = arg_pair(c, Br, Wr)?;
     let offset = arg_imm_wide(c)?;
 
-    let addr = c.cpu.read_wr(r2)? + offset;
+    let addr = c.cpu.read_wr(r2)?.wrapping_add(offset);
     let val = c.read(addr)?;
     c.cpu.write_br(r1, val);
 
@@ -495,7 +495,7 @@ fn load_br(c: &mut HandlerContext) -> OpRes {
     }
     let offset = c.cpu.read_wr(r3)?;
 
-    let addr = c.cpu.read_wr(r2)? + offset;
+    let addr = c.cpu.read_wr(r2)?.wrapping_add(offset);
     let val = c.read(addr)?;
     c.cpu.write_br(r1, val);
 
@@ -505,7 +505,7 @@ fn load_wi(c: &mut HandlerContext) -> OpRes {
     let (r1, r2) = arg_pair(c, Wr, Wr)?;
     let offset = arg_imm_wide(c)?;
 
-    let addr = c.cpu.read_wr(r2)? + offset;
+    let addr = c.cpu.read_wr(r2)?.wrapping_add(offset);
     let val = c.read_wide(addr)?;
     c.cpu.write_wr(r1, val)?;
 
@@ -519,7 +519,7 @@ fn load_wr(c: &mut HandlerContext) -> OpRes {
     }
     let offset = c.cpu.read_wr(r3)?;
 
-    let addr = c.cpu.read_wr(r2)? + offset;
+    let addr = c.cpu.read_wr(r2)?.wrapping_add(offset);
     let val = c.read_wide(addr)?;
     c.cpu.write_wr(r1, val)?;
 
diff --git a/src/blf4/mod.rs b/src/blf4/mod.rs
index 948dc1b..4affb90 100644
--- a/src/blf4/mod.rs
+++ b/src/blf4/mod.rs
@@ -474,7 +474,7 @@ impl HandlerContext<'_> {
     #[must_use = "error must be handled"]
     pub fn fetch(&mut self) -> OpRes<u8> {
         let addr = self.cpu.program_counter;
-        self.cpu.program_counter += 1;
+        self.cpu.program_counter = addr.wrapping_add(1);
         let addr = self.addr_resolve(addr, AccessMode::Execute)?;
         Ok(self.mem.read(addr))
     }
@@ -492,7 +492,7 @@ impl HandlerContext<'_> {
     #[must_use = "error must be handled"]
     pub fn read_wide(&mut self, addr: u16) -> OpRes<u16> {
         let lower = self.read(addr)?;
-        let higher = self.read(addr + 1)?;
+        let higher = self.read(addr.wrapping_add(1))?;
 
         Ok(u16::from_le_bytes([lower, higher]))
     }
@@ -501,7 +501,7 @@ impl HandlerContext<'_> {
         let [lower, higher] = val.to_le_bytes();
 
         self.write(addr, lower)?;
-        self.write(addr + 1, higher)?;
+        self.write(addr.wrapping_add(1), higher)?;
 
         Ok(())
     }
@@ -516,24 +516,24 @@ impl HandlerContext<'_> {
 
     #[must_use = "error must be handled"]
     pub fn pushw(&mut self, w: u16) -> OpRes<()> {
-        self.cpu.stack -= 2;
+        self.cpu.stack = self.cpu.stack.wrapping_sub(2);
         self.write_wide(self.cpu.stack, w)
     }
     #[must_use = "error must be handled"]
     pub fn pushb(&mut self, b: u8) -> OpRes<()> {
-        self.cpu.stack -= 1;
+        self.cpu.stack = self.cpu.stack.wrapping_sub(1);
         self.write(self.cpu.stack, b)
     }
     #[must_use = "error must be handled"]
     pub fn popw(&mut self) -> OpRes<u16> {
         let w = self.read_wide(self.cpu.stack)?;
-        self.cpu.stack += 2;
+        self.cpu.stack = self.cpu.stack.wrapping_add(2);
         Ok(w)
     }
     #[must_use = "error must be handled"]
     pub fn popb(&mut self) -> OpRes<u8> {
         let b = self.read(self.cpu.stack)?;
-        self.cpu.stack += 1;
+        self.cpu.stack = self.cpu.stack.wrapping_add(1);
         Ok(b)
     }
     #[must_use = "error must be handled"]
-- 
2.43.0


From 7e50835f0321c61e4070e47f0ee257242ec5706e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 08/41] fix: accept ROM images that are smaller than the ROM

---
 src/mem.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mem.rs b/src/mem.rs
index e0626a4..c984f7b 100644
--- a/src/mem.rs
+++ b/src/mem.rs
@@ -83,7 +83,7 @@ impl<P> LazyMain<P> {
     }
     pub fn with_rom(mut self, bytes: &[u8]) -> Self {
         assert!(bytes.len() <= ROM_SIZE, "bytes cannot be bigger than ROM");
-        self.rom = Some(std::array::from_fn(|i| bytes[i]));
+        self.rom = Some(std::array::from_fn(|i| bytes.get(i).copied().unwrap_or(0)));
         self
     }
 }
-- 
2.43.0


From 7d8d0f21666fbe75d5452ddfdacd899f87f7e98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 09/41] fix: stop compiling a source file that cannot be read
 any further

---
 src/source/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index f3a368d..679fd2a 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -1,7 +1,7 @@
 use std::{
     collections::BTreeMap,
     fs::File,
-    io::{BufRead, BufReader, Lines},
+    io::{BufRead, BufReader, ErrorKind, Lines},
     path::Path,
     slice::Iter,
 };
@@ -142,10 +142,16 @@ impl<B: BufRead> SourceLines<B> {
         loop {
             let line = self.lines.next()?;
             self.ln += 1;
+            // A line that is not valid UTF-8 has been read, but after any
+            // other error trying again would likely only fail again
+            let read_failed = matches!(&line, Err(e) if e.kind() != ErrorKind::InvalidData);
             match self.inner_parse_line(line) {
                 Ok(sl) => break Some((self.ln, sl)),
                 Err(e) => {
                     self.add_error(e);
+                    if read_failed {
+                        break None;
+                    }
                 }
             }
         }
-- 
2.43.0


From 0f8114b0107ffac870e8ee3c31363bffe03c2cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 10/41] fix: report a hexadecimal escape that is cut short as
 an error

---
 src/source/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index 679fd2a..d33f19e 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -322,8 +322,11 @@ fn parse_bytechar(s: &[u8]) -> StdResult<(u8, &[u8]), ErrorType> {
             b'\'' => (b'\'', &s[2..]),
             b'\"' => (b'\"', &s[2..]),
             b'x' => (
-                u8::from_str_radix(String::from_utf8_lossy(&s[2..4]).as_ref(), 16)
-                    .map_err(|_| InvalidEscapeSequence)?,
+                u8::from_str_radix(
+                    String::from_utf8_lossy(s.get(2..4).ok_or(InvalidEscapeSequence)?).as_ref(),
+                    16,
+                )
+                .map_err(|_| InvalidEscapeSequence)?,
                 &s[4..],
             ),
             c => return Err(InvalidEscapeCharacter(*c)),
-- 
2.43.0


From 8a560d7b846cb6dd6c4eb192852744ef8abfbeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 11/41] fix: save the program counter and interrupted flags on
 traps, also on those raised by a fetch, and restore them with reth

---
 src/blf4/isa/handlers.rs |  4 +++-
 src/blf4/mod.rs          | 29 ++++++++++++++++++-----------
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/blf4/isa/handlers.rs b/src/blf4/isa/handlers.rs
index 94a3b2a..b2c79ce 100644
--- a/src/blf4/isa/handlers.rs
+++ b/src/blf4/isa/handlers.rs
@@ -120,7 +120,9 @@ fn reth(c: &mut HandlerContext) -> OpRes {
     if !c.cpu.flags.trap {
         return Err(TrapMode::IllegalHandlerReturn);
     }
-    c.pop_registers()?;
+    let flags = c.pop_registers()?;
+    c.cpu.program_counter = c.popw()?;
+    c.cpu.flags = flags;
     c.cpu.flags.trap = false;
     Ok(())
 }
diff --git a/src/blf4/mod.rs b/src/blf4/mod.rs
index 4affb90..5672192 100644
--- a/src/blf4/mod.rs
+++ b/src/blf4/mod.rs
@@ -234,17 +234,22 @@ impl Cpu for Blf4 {
     fn execute_instruction<M: MainMemory>(&mut self, mem: &mut M) -> OpRes<(), Self::TrapMode> {
         let mut ctx = HandlerContext { cpu: self, mem };
 
-        let opcode = ctx.fetch()?;
+        let result = match ctx.fetch() {
+            Ok(opcode) => OP_HANDLERS[opcode as usize](&mut ctx),
+            Err(tm) => Err(tm),
+        };
 
-        match OP_HANDLERS[opcode as usize](&mut ctx) {
+        match result {
             Ok(()) => (),
             Err(tm) => {
+                let interrupted_flags = ctx.cpu.flags;
                 ctx.cpu.flags.trap = true;
                 ctx.cpu.flags.user_mode = false;
                 if ctx.cpu.trap_handler == 0 {
                     return Err(tm);
                 } else {
-                    ctx.push_registers()?;
+                    ctx.pushw(ctx.cpu.program_counter)?;
+                    ctx.push_registers(interrupted_flags)?;
                     self.program_counter = self.trap_handler;
                     self.write_wr(R1, tm as u8 as u16)?;
                 }
@@ -473,9 +478,10 @@ impl HandlerContext<'_> {
 
     #[must_use = "error must be handled"]
     pub fn fetch(&mut self) -> OpRes<u8> {
-        let addr = self.cpu.program_counter;
-        self.cpu.program_counter = addr.wrapping_add(1);
-        let addr = self.addr_resolve(addr, AccessMode::Execute)?;
+        let pc = self.cpu.program_counter;
+        let addr = self.addr_resolve(pc, AccessMode::Execute)?;
+        // A byte that could not be fetched is still the next one to fetch
+        self.cpu.program_counter = pc.wrapping_add(1);
         Ok(self.mem.read(addr))
     }
     #[must_use = "error must be handled"]
@@ -536,9 +542,10 @@ impl HandlerContext<'_> {
         self.cpu.stack = self.cpu.stack.wrapping_add(1);
         Ok(b)
     }
+    /// Pushes the given flags and then all wide registers
     #[must_use = "error must be handled"]
-    pub fn push_registers(&mut self) -> OpRes<()> {
-        self.pushw(self.cpu.flags.into())?;
+    pub fn push_registers(&mut self, flags: Blf4Flags) -> OpRes<()> {
+        self.pushw(flags.into())?;
         for r in 1..=15 {
             let w = self.cpu.read_wr(WideRegister(U4::new(r)))?;
             self.pushw(w)?;
@@ -546,14 +553,14 @@ impl HandlerContext<'_> {
 
         Ok(())
     }
+    /// Pops all wide registers and then the flags, which are returned rather than set
     #[must_use = "error must be handled"]
-    pub fn pop_registers(&mut self) -> OpRes<()> {
+    pub fn pop_registers(&mut self) -> OpRes<Blf4Flags> {
         for r in (1..=15).rev() {
             let w = self.popw()?;
             self.cpu.write_wr(WideRegister(U4::new(r)), w)?;
         }
-        self.cpu.flags = self.popw()?.into();
 
-        Ok(())
+        Ok(self.popw()?.into())
     }
 }
-- 
2.43.0


From 56dae3e994e9da079b83a4e42cb46f2d5ee599bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 12/41] fix: flush standard output before waiting for input and
 report errors of the last write

---
 src/bin/t.rs | 9 +++++++--
 src/mem.rs   | 4 ++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/bin/t.rs b/src/bin/t.rs
index ebb66ce..ffd04ea 100644
--- a/src/bin/t.rs
+++ b/src/bin/t.rs
@@ -1,6 +1,6 @@
 use std::{
     fs::File,
-    io::{self, Read},
+    io::{self, stdout, Read, Write},
     mem::replace,
     path::PathBuf,
     process::ExitCode,
@@ -99,7 +99,12 @@ fn t_main() -> Result<(), Error> {
             }
         }
         println!("Ended with {tm:?} at <{closest}+{diff:02X}>");
-    } else if tm != TrapMode::Halt {
+    }
+
+    // Errors would be lost if this was left to the end of the process
+    stdout().flush().map_err(Error::IoError)?;
+
+    if !termination_point && tm != TrapMode::Halt {
         return Err(Error::Trap(tm));
     }
 
diff --git a/src/mem.rs b/src/mem.rs
index c984f7b..8f80b18 100644
--- a/src/mem.rs
+++ b/src/mem.rs
@@ -105,6 +105,10 @@ pub struct StdIo;
 impl Io for StdIo {
     fn read(&mut self, _addr: u8) -> u8 {
         // TODO: use the address
+
+        // The user should see all output before having to give input
+        stdout().flush().expect("stdout failed");
+
         let mut buf = [0];
         stdin().read_exact(&mut buf).expect("stdin failed");
         buf[0]
-- 
2.43.0


From 3ef843eb17039ee43a9712582b17b7f95b6815da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 13/41] fix: end the debugging session when its input ends

---
 src/bin/tdbg.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/bin/tdbg.rs b/src/bin/tdbg.rs
index a626247..80bfebd 100644
--- a/src/bin/tdbg.rs
+++ b/src/bin/tdbg.rs
@@ -2,7 +2,7 @@ use std::{
     collections::{HashMap, VecDeque},
     io::{stdin, stdout, Write},
     path::PathBuf,
-    process::ExitCode,
+    process::{exit, ExitCode},
 };
 
 use telda2::{
@@ -39,9 +39,11 @@ impl Io for DbgIo {
             std::io::stdin().read_line(&mut buf).expect("stdin failed");
             self.in_buf.extend(buf.into_bytes());
         }
-        self.in_buf
-            .pop_front()
-            .expect("in_buf has just been filled, this should be impossible")
+        self.in_buf.pop_front().unwrap_or_else(|| {
+            println!();
+            eprintln!("input ended, but the program requested more");
+            exit(1)
+        })
     }
 }
 
@@ -184,7 +186,11 @@ fn tdbg_loop(mut machine: Machine<LazyMain<DbgIo>, Blf4>, pos_to_labels: HashMap
             stdout().flush().expect("stdout failed");
 
             input.clear();
-            stdin.read_line(&mut input).expect("stdin failed");
+            if stdin.read_line(&mut input).expect("stdin failed") == 0 {
+                // End of input
+                println!();
+                break 'disassemble_loop;
+            }
 
             match input.trim() {
                 "q" | "quit" => break 'disassemble_loop,
-- 
2.43.0


From 899aad2e8be33c1b0a2ad831d357184979c07e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 14/41] fix: do not crash the debugger on unmapped memory

---
 src/bin/tdbg.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/bin/tdbg.rs b/src/bin/tdbg.rs
index 80bfebd..6622699 100644
--- a/src/bin/tdbg.rs
+++ b/src/bin/tdbg.rs
@@ -8,7 +8,7 @@ use std::{
 use telda2::{
     aalv::obj::{Object, SymbolDefinition},
     blf4::*,
-    disassemble::disassemble_instruction,
+    disassemble::{disassemble_instruction, DisassembledInstruction},
     machine::Machine,
     mem::{Io, LazyMain},
 };
@@ -152,7 +152,17 @@ fn tdbg_loop(mut machine: Machine<LazyMain<DbgIo>, Blf4>, pos_to_labels: HashMap
 
     'disassemble_loop: loop {
         let dins =
-            disassemble_instruction(&mut machine, |p| pos_to_labels.get(&p).map(|s| &**s)).unwrap();
+            disassemble_instruction(&mut machine, |p| pos_to_labels.get(&p).map(|s| &**s))
+                .unwrap_or_else(|tm| {
+                    // Executing it will trap too
+                    let pc = machine.cpu.program_counter;
+                    DisassembledInstruction {
+                        annotated_source: format!("  {pc:04x}:  could not be fetched: {tm:?}"),
+                        ends_block: true,
+                        nesting_difference: 0,
+                        next_instruction_location: pc,
+                    }
+                });
 
         if false && todo!("is trapping") {
             println!("handled trap encountered!");
@@ -213,11 +223,11 @@ fn tdbg_loop(mut machine: Machine<LazyMain<DbgIo>, Blf4>, pos_to_labels: HashMap
                         }
                     };
                     let mut c = machine.cpu.context(&mut machine.memory);
-                    println!(
-                        " = 0x{:02x} 0x{:02x} ...",
-                        c.read(addr).unwrap(),
-                        c.read(addr + 1).unwrap()
-                    );
+                    match (c.read(addr), c.read(addr.wrapping_add(1))) {
+                        (Ok(b0), Ok(b1)) => println!(" = 0x{b0:02x} 0x{b1:02x} ..."),
+                        (Ok(b0), Err(_)) => println!(" = 0x{b0:02x} ..."),
+                        (Err(e), _) => eprintln!("could not read memory: {e:?}"),
+                    }
                 }
                 "r0b" => print_byte_register("r0b", R0B, &machine.cpu),
                 "r1l" => print_byte_register("r1l", R1L, &machine.cpu),
-- 
2.43.0


From 251cb8af30023e57865bc8e022a21204c66ebd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 15/41] fix: let the disassembler restore the program counter
 after traps and handle the end of the address space

---
 src/disassemble.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/disassemble.rs b/src/disassemble.rs
index 47c4ec3..61441a6 100644
--- a/src/disassemble.rs
+++ b/src/disassemble.rs
@@ -20,7 +20,8 @@ struct StrictMemory<'a, M: MainMemory> {
 impl<M: MainMemory> MainMemory for StrictMemory<'_, M> {
     fn read(&mut self, addr: u32) -> u8 {
         if addr < PAGE_SIZE_P {
-            unimplemented!("no I/O for strict memory");
+            // no I/O for strict memory
+            return 0;
         }
         self.inner.read(addr)
     }
@@ -40,6 +41,17 @@ pub struct DisassembledInstruction {
 pub fn disassemble_instruction<'a, M: MainMemory, F: FnOnce(u16) -> Option<&'a str>>(
     machine: &mut Machine<M, Blf4>,
     label_lookup: F,
+) -> Result<DisassembledInstruction, TrapMode> {
+    let addr = machine.cpu.program_counter;
+    let result = disassemble_at_program_counter(machine, label_lookup);
+    // restore rpc, also if the instruction could not be fetched completely
+    machine.cpu.program_counter = addr;
+    result
+}
+
+fn disassemble_at_program_counter<'a, M: MainMemory, F: FnOnce(u16) -> Option<&'a str>>(
+    machine: &mut Machine<M, Blf4>,
+    label_lookup: F,
 ) -> Result<DisassembledInstruction, TrapMode> {
     use crate::blf4::isa::*;
     let m = &mut StrictMemory {
@@ -209,18 +221,17 @@ pub fn disassemble_instruction<'a, M: MainMemory, F: FnOnce(u16) -> Option<&'a s
     }
 
     let next_instruction_location = c.cpu.program_counter;
+    let length = next_instruction_location.wrapping_sub(addr);
 
     let mut annotated_source = String::with_capacity(op.len() + 21);
     write!(&mut annotated_source, "  {addr:04x}: ").unwrap();
 
     c.cpu.program_counter = addr;
-    for _ in addr..next_instruction_location {
+    for _ in 0..length {
         write!(&mut annotated_source, " {:02x}", c.fetch()?).unwrap();
     }
-    // restore rpc
-    c.cpu.program_counter = addr;
 
-    for _ in 0..(4 - (next_instruction_location - addr)) {
+    for _ in 0..(4 - length) {
         write!(&mut annotated_source, "   ").unwrap();
     }
     write!(&mut annotated_source, "    {op}").unwrap();
-- 
2.43.0


From f42012ad36d435ea1d4fcb131ed2df18466ee7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 16/41] fix: do not crash or hang disassembling objects with
 odd symbols or code at the end of memory

---
 src/bin/tobjdump.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/bin/tobjdump.rs b/src/bin/tobjdump.rs
index 06b2617..110f210 100644
--- a/src/bin/tobjdump.rs
+++ b/src/bin/tobjdump.rs
@@ -180,15 +180,17 @@ fn disassembly(obj: &Object, start_symbol: &Option<String>, show_relocations: bo
     let mut labels_to_print = symbols;
 
     let get_name = |id: usize| {
-        if id == syms.len() {
+        if id == syms.len() && obj.entry.is_some() {
             return Cow::Borrowed(".entry");
         }
 
-        let name = &*syms[id].name;
+        let Some(SymbolDefinition { name, .. }) = syms.get(id) else {
+            return Cow::Owned(format!("@L{id} (no such symbol)"));
+        };
         if name.is_empty() {
             Cow::Owned(format!("@L{id}"))
         } else {
-            Cow::Borrowed(name)
+            Cow::Borrowed(&**name)
         }
     };
 
@@ -250,7 +252,9 @@ fn disassembly(obj: &Object, start_symbol: &Option<String>, show_relocations: bo
             };
 
             if show_relocations {
-                for (&loc, &sym) in relocs.range(location..next_instruction_location) {
+                // The last instruction can wrap around
+                let end = next_instruction_location.max(location);
+                for (&loc, &sym) in relocs.range(location..end) {
                     println!("    RELOC: {} @ 0x{loc:02x}", get_name(sym));
                 }
             }
@@ -269,6 +273,10 @@ fn disassembly(obj: &Object, start_symbol: &Option<String>, show_relocations: bo
                     break 'labelled_block;
                 }
             }
+            if next_instruction_location < location {
+                // Do not go around the address space forever
+                break 'labelled_block;
+            }
             location = next_instruction_location;
         }
         println!();
-- 
2.43.0


From bf0256940f3faa43cd677111c9efc383ec5f625c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 17/41] fix: exit with failure if an object file could not be
 shown

---
 src/bin/tobjdump.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/tobjdump.rs b/src/bin/tobjdump.rs
index 110f210..6e47e13 100644
--- a/src/bin/tobjdump.rs
+++ b/src/bin/tobjdump.rs
@@ -93,7 +93,7 @@ fn main() -> ExitCode {
         }
     } 
 
-    ExitCode::SUCCESS
+    ret
 }
 
 fn symbols(obj: &Object) {
-- 
2.43.0


From e2254a96bb73d27262cd92f7a594b6c0b2798125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 18/41] fix: replace the stripped file atomically

---
 src/bin/tstrip.rs | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/bin/tstrip.rs b/src/bin/tstrip.rs
index c34a7ca..f6a33e9 100644
--- a/src/bin/tstrip.rs
+++ b/src/bin/tstrip.rs
@@ -1,4 +1,8 @@
-use std::{path::PathBuf, process::ExitCode};
+use std::{
+    fs, io,
+    path::{Path, PathBuf},
+    process::{self, ExitCode},
+};
 
 use telda2::{
     self,
@@ -65,8 +69,26 @@ fn inner_main(all: bool, force: bool, input_file: &PathBuf) -> Result<(), String
             }
         });
     }
-    obj.write_to_file(input_file)
+    replace_object(&obj, input_file)
         .map_err(|e| {
-            format!("could write new object: {e}")
+            format!("could not write new object: {e}")
         })
 }
+
+/// Writes the object to a copy first, so that the file is never left with only a part of the object
+fn replace_object(obj: &Object, path: &Path) -> io::Result<()> {
+    // Replace the file itself instead of a link to it
+    let path = path.canonicalize()?;
+    let mut temporary = path.clone().into_os_string();
+    temporary.push(format!(".{}.tmp", process::id()));
+
+    // The copy keeps any leading text and the permissions
+    let result = fs::copy(&path, &temporary)
+        .and_then(|_| obj.write_to_file(&temporary))
+        .and_then(|()| fs::rename(&temporary, &path));
+
+    if result.is_err() {
+        let _ = fs::remove_file(&temporary);
+    }
+    result
+}
-- 
2.43.0


From 44dbb12bbe73f64c9a5aa3f03b29a6c527de7bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 19/41] fix: load segments that reach beyond the end of the
 address space without crashing

---
 src/blf4/std_kernel.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/blf4/std_kernel.rs b/src/blf4/std_kernel.rs
index be554ec..e020f97 100644
--- a/src/blf4/std_kernel.rs
+++ b/src/blf4/std_kernel.rs
@@ -140,8 +140,10 @@ impl<M: MainMemory> MmapBuilder<'_, M> {
         // let mut bytes = bytes;
         // map all pages the segment overlaps with
         let start_vpage = align_start(offset, PAGE_SIZE);
-        let range = start_vpage..offset + bytes.len() as u16;
-        for vaddr in range.step_by(PAGE_SIZE as usize) {
+        // anything past the end of the address space is left out
+        let end = (offset as usize + bytes.len()).min(0x1_0000);
+        for vaddr in (start_vpage as usize..end).step_by(PAGE_SIZE as usize) {
+            let vaddr = vaddr as u16;
             let paddr = self.map(vaddr, perm_bits);
 
             // write page to memory
-- 
2.43.0


From 5e6edf1580bea3f96ac48244ac908e2728fe58e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 20/41] fix: map the whole heap, also if it begins with initial
 bytes

---
 src/blf4/std_kernel/load_user_binary.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/blf4/std_kernel/load_user_binary.rs b/src/blf4/std_kernel/load_user_binary.rs
index 9f86c6a..0100003 100644
--- a/src/blf4/std_kernel/load_user_binary.rs
+++ b/src/blf4/std_kernel/load_user_binary.rs
@@ -1,6 +1,6 @@
 use crate::{
     aalv::obj::{Flags, Object, SegmentType},
-    align_end, align_start,
+    align_start,
     machine::Machine,
     mem::MainMemory,
     PAGE_SIZE,
@@ -47,8 +47,9 @@ impl<M: MainMemory> Machine<M, Blf4> {
 
             mmbuilder.add_segment(permissions, offset, bytes);
             if heap {
-                let heap = align_end(offset, PAGE_SIZE);
-                let size = heap_size - bytes.len() as u16;
+                // the heap begins with the bytes that were given
+                let heap = align_start(offset, PAGE_SIZE);
+                let size = heap_size.saturating_add(offset - heap);
                 mmbuilder.map_wr_pages(heap, size);
             }
         }
-- 
2.43.0


From f35b5494ddbd9d65653eca16f7658ddefc6ef9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 21/41] fix: refuse programs that are too big for the address
 space

---
 src/lib.rs        |  2 +-
 src/source/mod.rs | 65 +++++++++++++++++++++++++++++++++++------------
 2 files changed, 50 insertions(+), 17 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d949a8d..4c12928 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -18,7 +18,7 @@ pub const fn align_start(addr: u16, alignment: u16) -> u16 {
 }
 pub const fn align_end(addr: u16, alignment: u16) -> u16 {
     let mask = alignment - 1;
-    let next_aligned = (addr + alignment) & !mask;
+    let next_aligned = addr.wrapping_add(alignment) & !mask;
 
     // If the current end is already aligned, do nothing
     if addr & mask == 0 {
diff --git a/src/source/mod.rs b/src/source/mod.rs
index d33f19e..32473aa 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -9,7 +9,7 @@ use std::{
 use crate::{
     aalv::obj::Entry,
     aalv::obj::SegmentType,
-    align_end,
+    align_end, align_start,
     blf4::{ByteRegister as BReg, WideRegister as WReg, *},
     PAGE_SIZE, U4,
 };
@@ -385,10 +385,17 @@ impl ProcessState {
     fn get_size(&self, st: SegmentType) -> u16 {
         self.dls.get(&st).map(|dls| dls.size).unwrap_or(0)
     }
-    fn add_line(&mut self, st: SegmentType, line: DataLine, size: u16) {
+    fn add_line(
+        &mut self,
+        st: SegmentType,
+        line: DataLine,
+        size: usize,
+    ) -> StdResult<(), ErrorType> {
         let dls = self.dls.entry(st).or_default();
+        dls.size = u16::try_from(dls.size as usize + size)
+            .map_err(|_| ErrorType::Other(format!("segment {st} is too big").into_boxed_str()))?;
         dls.lines.push(line);
-        dls.size += size;
+        Ok(())
     }
     fn unknown_defined(&self) -> bool {
         self.dls.contains_key(&SegmentType::Unknown)
@@ -407,8 +414,26 @@ pub fn process<B: BufRead>(lines: SourceLines<B>) -> Result<ProcessedSource> {
 
     let mut last_end = PAGE_SIZE;
     for s in dls.values_mut() {
-        s.start = align_end(last_end, PAGE_SIZE);
-        last_end = s.start + s.size;
+        let end = if last_end > align_start(u16::MAX, PAGE_SIZE) {
+            None
+        } else {
+            s.start = align_end(last_end, PAGE_SIZE);
+            s.start.checked_add(s.size)
+        };
+
+        if let Some(end) = end {
+            last_end = end;
+        } else {
+            add_error_opt(
+                &mut errors,
+                Error::new(
+                    src.clone(),
+                    0,
+                    ErrorType::Other("program is too big for the address space".into()),
+                ),
+            );
+            break;
+        }
     }
 
     let mut labels = Vec::with_capacity(symbols.size());
@@ -441,7 +466,7 @@ pub fn process<B: BufRead>(lines: SourceLines<B>) -> Result<ProcessedSource> {
 
                 let stype = addr.0;
                 let offset = dls.get(&stype).map(|dl| dl.start).unwrap_or(0);
-                let pos = addr.1 + offset;
+                let pos = addr.1.wrapping_add(offset);
 
                 element = (l, st, stype, pos)
             }
@@ -475,7 +500,7 @@ pub fn process<B: BufRead>(lines: SourceLines<B>) -> Result<ProcessedSource> {
     } else {
         let entry = entry.map(|addr| {
             let offset = dls.get(&addr.0).map(|dl| dl.start).unwrap_or(0);
-            Entry(addr.0, addr.1 + offset)
+            Entry(addr.0, addr.1.wrapping_add(offset))
         });
 
         Ok(ProcessedSource { labels, dls, entry })
@@ -527,25 +552,33 @@ fn inner_process<B: BufRead>(
                         ErrorType::UnknownInstruction(s.into_boxed_str()),
                     ));
                 };
-                state.add_line(
-                    *current_segment,
-                    DataLine::Ins(opcode, dat_op),
-                    1 + dat_op.size(),
-                );
+                state
+                    .add_line(
+                        *current_segment,
+                        DataLine::Ins(opcode, dat_op),
+                        1 + dat_op.size() as usize,
+                    )
+                    .map_err(|et| Error::new(src, ln, et))?;
             }
             SourceLine::DirByte(b) => {
-                state.add_line(*current_segment, DataLine::Raw(vec![b]), 1);
+                state
+                    .add_line(*current_segment, DataLine::Raw(vec![b]), 1)
+                    .map_err(|et| Error::new(src, ln, et))?;
             }
             SourceLine::DirWide(w) => {
                 let wide = match w {
                     Ok(w) => Wide::Number(w),
                     Err(l) => Wide::Label(symbols.get_label(&l, SourceLocation::new(src, ln))),
                 };
-                state.add_line(*current_segment, DataLine::Wide(wide), 2);
+                state
+                    .add_line(*current_segment, DataLine::Wide(wide), 2)
+                    .map_err(|et| Error::new(src, ln, et))?;
             }
             SourceLine::DirString(s) => {
-                let size = s.len() as u16;
-                state.add_line(*current_segment, DataLine::Raw(s), size);
+                let size = s.len();
+                state
+                    .add_line(*current_segment, DataLine::Raw(s), size)
+                    .map_err(|et| Error::new(src, ln, et))?;
             }
             SourceLine::DirInclude(path) => {
                 let pth_buf;
-- 
2.43.0


From d2ca1fc2bcf596dca10e366af865df8d6530bf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 22/41] fix: refuse to link malformed objects and outputs that
 are too big instead of crashing or wrapping

---
 src/bin/tl.rs | 53 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/src/bin/tl.rs b/src/bin/tl.rs
index 25e2222..da0ba02 100644
--- a/src/bin/tl.rs
+++ b/src/bin/tl.rs
@@ -82,6 +82,8 @@ fn main() -> ExitCode {
                 Error::InvalidEntryPointFormat(e) => eprintln!("invalid entry point format: {e}"),
                 Error::NoEntryPoint => eprintln!("No entry point was defined, cannot make executable. Perhaps use -E to set one?"),
                 Error::ReferenceToNonExistantSegment => eprintln!("reference to a segment that was not defined"),
+                Error::MalformedRelocation => eprintln!("malformed relocation entry"),
+                Error::TooBig => eprintln!("output is too big for the address space"),
                 Error::ObjectFailure => (),
             }
 
@@ -96,6 +98,8 @@ enum Error {
     ObjectFailure,
     NoEntryPoint,
     ReferenceToNonExistantSegment,
+    MalformedRelocation,
+    TooBig,
 }
 
 fn tl_main() -> Result<(), Error> {
@@ -132,16 +136,23 @@ fn tl_main() -> Result<(), Error> {
 
         for (_, obj) in &objects {
             for (&stype, &(_start, ref v)) in &obj.segs {
-                *lengths.entry(stype).or_insert(0) += v.len() as u16;
+                *lengths.entry(stype).or_insert(0) += v.len();
             }
         }
-        let mut last_end = lengths.remove(&SegmentType::Zero).unwrap_or(0);
-        last_end = last_end.max(PAGE_SIZE);
+        let mut last_end = 0;
 
         for (st, size) in lengths {
-            let start = align_end(last_end, segment_alignment);
-            segs_out.insert(st, (start, Vec::with_capacity(size as usize)));
-            last_end = start + size;
+            let start = if st == SegmentType::Zero {
+                0
+            } else {
+                align_end(last_end.max(PAGE_SIZE), segment_alignment)
+            };
+            segs_out.insert(st, (start, Vec::with_capacity(size)));
+            last_end = u16::try_from(start as usize + size)
+                .ok()
+                // aligning can go past the end as well
+                .filter(|_| start >= last_end)
+                .ok_or(Error::TooBig)?;
 
             if verbose {
                 println!("segment {st} @ 0x{start:04x} w/ {} bytes (0x{0:02x})", size);
@@ -168,7 +179,11 @@ fn tl_main() -> Result<(), Error> {
     for (input_file, mut obj) in objects {
         entry_point = entry_point.or_else(|| {
             obj.entry
-                .map(|Entry(st, ep)| Entry(st, ep - obj.segs[&st].0 + segs[&st].0))
+                .map(|Entry(st, ep)| {
+                    let old_start = obj.segs.get(&st).map(|s| s.0).unwrap_or(0);
+                    let new_start = segs.get(&st).map(|s| s.0).unwrap_or(0);
+                    Entry(st, ep.wrapping_sub(old_start).wrapping_add(new_start))
+                })
         });
 
         let mut file_symbol_to_out_symbol = Vec::new();
@@ -178,8 +193,9 @@ fn tl_main() -> Result<(), Error> {
                 let next_id = symbols_out.len();
                 let mut id_in_fstos = None;
 
-                symdef.location -= obj.segs.get(&symdef.segment_type).map(|s| s.0).unwrap_or(0);
-                symdef.location += segs.get(&symdef.segment_type).map(|s| s.0).unwrap_or(0);
+                let old_start = obj.segs.get(&symdef.segment_type).map(|s| s.0).unwrap_or(0);
+                let new_start = segs.get(&symdef.segment_type).map(|s| s.0).unwrap_or(0);
+                symdef.location = symdef.location.wrapping_sub(old_start).wrapping_add(new_start);
 
                 if symdef.is_global {
                     match global_symbols.get(&symdef.name) {
@@ -227,21 +243,24 @@ fn tl_main() -> Result<(), Error> {
             symbol_index,
         } in reloc
         {
-            let symbol_index = file_symbol_to_out_symbol[symbol_index as usize];
+            let &symbol_index = file_symbol_to_out_symbol
+                .get(symbol_index as usize)
+                .ok_or(Error::MalformedRelocation)?;
 
-            let location_in_file = reference_location - obj.segs[&reference_segment].0;
-            let reference_location = location_in_file + segs[&reference_segment].0;
-
-            let bytes = &mut obj
+            let &mut (old_start, ref mut bytes) = obj
                 .segs
                 .get_mut(&reference_segment)
-                .ok_or(Error::ReferenceToNonExistantSegment)?
-                .1;
+                .ok_or(Error::ReferenceToNonExistantSegment)?;
+
+            let location_in_file = reference_location.wrapping_sub(old_start);
+            let reference_location = location_in_file.wrapping_add(segs[&reference_segment].0);
 
             let symdef = &symbols_out[symbol_index];
             let undefined = matches!(symdef.segment_type, SegmentType::Unknown);
 
-            bytes[location_in_file as usize..location_in_file as usize + 2]
+            bytes
+                .get_mut(location_in_file as usize..location_in_file as usize + 2)
+                .ok_or(Error::MalformedRelocation)?
                 .copy_from_slice(&symdef.location.to_le_bytes());
 
             let entry = RelocationEntry {
-- 
2.43.0


From d408df6569d21514da4cb2d14e9c942eed40028f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 23/41] fix: find the magic after leading text that contains a
 part of it

---
 src/aalv/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aalv/mod.rs b/src/aalv/mod.rs
index 56c2ff2..b6d7b09 100644
--- a/src/aalv/mod.rs
+++ b/src/aalv/mod.rs
@@ -91,6 +91,8 @@ impl<F: BufRead + Seek> AalvReader<F> {
             if magic_buf == AALV_MAGIC.as_bytes() {
                 break;
             }
+            // The magic could begin in the bytes that were just read
+            self.file.seek(SeekFrom::Start(self.file_offset + 1))?;
         }
 
         Ok(())
-- 
2.43.0


From b574409a92e054cccf3725b8424b2901597998ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:00 +0000
Subject: [PATCH 24/41] fix: refuse an object file that ends inside a section
 while it is read

---
 src/aalv/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/aalv/mod.rs b/src/aalv/mod.rs
index b6d7b09..92a6d3e 100644
--- a/src/aalv/mod.rs
+++ b/src/aalv/mod.rs
@@ -159,6 +159,12 @@ impl<R: Read> Read for ReadWindow<R> {
         }
 
         let n = self.reader.read(buf)?;
+        if n == 0 && !buf.is_empty() {
+            return Err(io::Error::new(
+                io::ErrorKind::UnexpectedEof,
+                "file ended inside a section",
+            ));
+        }
         self.length -= n;
         Ok(n)
     }
-- 
2.43.0


From d899914989b0259b29228335bc06205d934bd481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:52 +0000
Subject: [PATCH 25/41] fix: show all four registers of mul and div when
 disassembling

---
 src/disassemble.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/disassemble.rs b/src/disassemble.rs
index 61441a6..b576799 100644
--- a/src/disassemble.rs
+++ b/src/disassemble.rs
@@ -210,10 +210,10 @@ fn disassemble_at_program_counter<'a, M: MainMemory, F: FnOnce(u16) -> Option<&'
         ASR_W => binop("asr", WideRegister, &mut c, f)?,
         LSR_B => binop("lsr", ByteRegister, &mut c, f)?,
         LSR_W => binop("lsr", WideRegister, &mut c, f)?,
-        DIV_B => binop("div", ByteRegister, &mut c, f)?,
-        DIV_W => binop("div", WideRegister, &mut c, f)?,
-        MUL_B => binop("mul", ByteRegister, &mut c, f)?,
-        MUL_W => binop("mul", WideRegister, &mut c, f)?,
+        DIV_B => quadop("div", ByteRegister, &mut c, f)?,
+        DIV_W => quadop("div", WideRegister, &mut c, f)?,
+        MUL_B => quadop("mul", ByteRegister, &mut c, f)?,
+        MUL_W => quadop("mul", WideRegister, &mut c, f)?,
         b => {
             write!(f, "0x{b:02x}").unwrap();
             ends_block = true;
@@ -273,6 +273,19 @@ fn binop<T: Display, RF: Fn(U4) -> T>(
     Ok(())
 }
 
+fn quadop<T: Display, RF: Fn(U4) -> T>(
+    name: &str,
+    rf: RF,
+    c: &mut HandlerContext,
+    f: &mut String,
+) -> Result<(), TrapMode> {
+    let (r1, r2) = arg_pair(c, &rf, &rf)?;
+    let (r3, r4) = arg_pair(c, &rf, &rf)?;
+    write!(f, "{name} {r1}, {r2}, {r3}, {r4}").unwrap();
+
+    Ok(())
+}
+
 enum Operand<'a> {
     Byte(u8),
     Wide(u16),
-- 
2.43.0


From 28e6f515426a289549e2abeb4f026e4fb83528bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:53 +0000
Subject: [PATCH 26/41] fix: do not show the names of stripped symbols in tdbg

---
 src/bin/tdbg.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bin/tdbg.rs b/src/bin/tdbg.rs
index 6622699..47ad56d 100644
--- a/src/bin/tdbg.rs
+++ b/src/bin/tdbg.rs
@@ -129,6 +129,10 @@ fn main() -> ExitCode {
             ..
         } in obj.symbols.into_iter()
         {
+            // Internal symbols lose their names when they are stripped
+            if name.is_empty() {
+                continue;
+            }
             if is_global {
                 labels.insert(name.clone(), location);
                 pos_to_labels.insert(location, name);
-- 
2.43.0


From 9fbc5540881e549073a58af631149ba35a5f889c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:10 +0000
Subject: [PATCH 27/41] fix: do not leave out the block at address 0 when
 disassembly wraps around

---
 src/bin/tobjdump.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bin/tobjdump.rs b/src/bin/tobjdump.rs
index 6e47e13..7a16a98 100644
--- a/src/bin/tobjdump.rs
+++ b/src/bin/tobjdump.rs
@@ -262,6 +262,10 @@ fn disassembly(obj: &Object, start_symbol: &Option<String>, show_relocations: bo
             if ends_block {
                 break 'labelled_block;
             }
+            if next_instruction_location < location {
+                // Do not go around the address space forever
+                break 'labelled_block;
+            }
             if let Some(&lbl) = pos_to_labels.get(&next_instruction_location) {
                 let name = get_name(lbl);
                 if printed_labels.insert(lbl) {
@@ -273,10 +277,6 @@ fn disassembly(obj: &Object, start_symbol: &Option<String>, show_relocations: bo
                     break 'labelled_block;
                 }
             }
-            if next_instruction_location < location {
-                // Do not go around the address space forever
-                break 'labelled_block;
-            }
             location = next_instruction_location;
         }
         println!();
-- 
2.43.0


From 256987a4d1f0f4fd3268061b471bcbf00b90add8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:51 +0000
Subject: [PATCH 28/41] fix: report a raw binary that does not fit into the ROM
 instead of panicking

t -r ran into the assertion of LazyMain::with_rom for every image of more than
32640 bytes.
---
 src/bin/t.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/bin/t.rs b/src/bin/t.rs
index ffd04ea..2fe3929 100644
--- a/src/bin/t.rs
+++ b/src/bin/t.rs
@@ -11,7 +11,7 @@ use telda2::{
     aalv::obj::{Object, SymbolDefinition, SymbolTable},
     blf4::{Blf4, TrapMode},
     machine::Machine,
-    mem::{LazyMain, StdIo},
+    mem::{LazyMain, StdIo, ROM_SIZE},
 };
 
 #[derive(Parser)]
@@ -36,6 +36,7 @@ struct Cli {
 
 enum Error {
     NoEntry,
+    RomOverflow(usize),
     Trap(TrapMode),
     IoError(io::Error),
 }
@@ -46,6 +47,9 @@ pub fn main() -> ExitCode {
         Err(e) => {
             match e {
                 Error::NoEntry => eprintln!("no entry point in binary"),
+                Error::RomOverflow(len) => {
+                    eprintln!("binary of {len} bytes does not fit into the ROM of {ROM_SIZE} bytes")
+                }
                 Error::Trap(tm) => eprintln!("trapped with {tm:?}"),
                 Error::IoError(e) => eprintln!("unexpected io error occured: {e}"),
             }
@@ -69,6 +73,9 @@ fn t_main() -> Result<(), Error> {
         let mut raw_binary_data = Vec::new();
         file.read_to_end(&mut raw_binary_data)
             .map_err(Error::IoError)?;
+        if raw_binary_data.len() > ROM_SIZE {
+            return Err(Error::RomOverflow(raw_binary_data.len()));
+        }
 
         machine.memory = machine.memory.with_rom(&raw_binary_data);
     } else {
-- 
2.43.0


From 7f163b8459d9baf66288b8d286fa062b9e1e6a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:23 +0000
Subject: [PATCH 29/41] fix: an object that does not fit its file format
 destroyed the file it was to replace

---
 src/aalv/obj.rs | 25 +++++++++++++++++++------
 src/bin/tl.rs   |  2 ++
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/aalv/obj.rs b/src/aalv/obj.rs
index 3f5f925..4ad4e21 100644
--- a/src/aalv/obj.rs
+++ b/src/aalv/obj.rs
@@ -1,11 +1,11 @@
 use std::{
     collections::BTreeMap,
     fmt::{self, Display},
-    io::{self, BufRead, Seek},
+    io::{self, BufRead, Seek, Write},
     path::Path,
 };
 
-use super::{read_aalv_file, write_aalv_file_with_offset, AalvReader, Section};
+use super::{read_aalv_file, write_aalv_file_with_offset, AalvReader, AalvWriter, Section};
 
 mod sec_impl;
 
@@ -82,8 +82,24 @@ impl Object {
         }
     }
     pub fn write_to_file<P: AsRef<Path>>(&self, path: P) -> io::Result<()> {
+        self.check_format()?;
+
+        let mut aalvur = write_aalv_file_with_offset(path, self.file_offset)?;
+        self.write_sections(&mut aalvur)?;
+        aalvur.finish()?;
+
+        Ok(())
+    }
+
+    /// Fails if the object doesn't fit the file format, so that a file isn't
+    /// overwritten with something that cannot be finished
+    pub fn check_format(&self) -> io::Result<()> {
+        self.write_sections(&mut AalvWriter::new(io::Cursor::new(Vec::new()), 0)?)
+    }
+
+    fn write_sections<F: Write + Seek>(&self, aalvur: &mut AalvWriter<F>) -> io::Result<()> {
         let Object {
-            file_offset,
+            file_offset: _,
             entry,
             flags,
             stack_size,
@@ -93,8 +109,6 @@ impl Object {
             relocation_table,
         } = self;
 
-        let mut aalvur = write_aalv_file_with_offset(path, *file_offset)?;
-
         if let Some(entry) = entry {
             aalvur.write_section(entry)?;
         }
@@ -120,7 +134,6 @@ impl Object {
         if !relocation_table.0.is_empty() {
             aalvur.write_section(relocation_table)?;
         }
-        aalvur.finish()?;
 
         Ok(())
     }
diff --git a/src/bin/tl.rs b/src/bin/tl.rs
index da0ba02..f99ddb5 100644
--- a/src/bin/tl.rs
+++ b/src/bin/tl.rs
@@ -344,6 +344,8 @@ fn tl_main() -> Result<(), Error> {
             return Err(Error::NoEntryPoint);
         }
 
+        obj.check_format().map_err(Error::Io)?;
+
         let mut obj = obj;
         {
             let mut file = File::create(&out).map_err(Error::Io)?;
-- 
2.43.0


From c7663546d3d54370a5f831b5d6bff079b7da575e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:25 +0000
Subject: [PATCH 30/41] fix: symbol names that object files cannot hold were
 written as other names

---
 src/aalv/obj/sec_impl.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/aalv/obj/sec_impl.rs b/src/aalv/obj/sec_impl.rs
index 8f20915..742410b 100644
--- a/src/aalv/obj/sec_impl.rs
+++ b/src/aalv/obj/sec_impl.rs
@@ -144,6 +144,13 @@ impl Section for SymbolTable {
             location,
         } in &self.0
         {
+            // A zero byte ends a name and a space in front makes it internal
+            if name.contains('\0') || is_global && name.starts_with(' ') {
+                return Err(io::Error::new(
+                    io::ErrorKind::InvalidInput,
+                    format!("symbol name {name:?} cannot be stored"),
+                ));
+            }
             write!(writer, "{}{name}\0", if is_global { "" } else { " " })?;
             writer.write_all(&[segment_type as u8])?;
             writer.write_all(&location.to_le_bytes())?;
-- 
2.43.0


From 9ea1019f303dd78a54e75bd6446732e306bd6435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:08 +0000
Subject: [PATCH 31/41] fix: tc did not say which file or line could not be
 read or written

---
 src/bin/tc.rs     | 9 +++++----
 src/source/mod.rs | 3 ++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/bin/tc.rs b/src/bin/tc.rs
index 1e2e311..45a4849 100644
--- a/src/bin/tc.rs
+++ b/src/bin/tc.rs
@@ -6,8 +6,8 @@ use telda2::{
         AALV_OBJECT_EXT,
     },
     source::{
-        process, write_data_operand, DataLine, Error as TeldaError, LabelRead, ProcessedSource,
-        SourceLines, SymbolType, Wide,
+        process, write_data_operand, DataLine, LabelRead, ProcessedSource, SourceLines, SymbolType,
+        Wide,
     },
 };
 
@@ -117,10 +117,11 @@ fn main() -> ExitCode {
         }
         aalvur.relocation_table = reloc_table;
 
-        match aalvur.write_to_file(p.with_extension(AALV_OBJECT_EXT)) {
+        let out = p.with_extension(AALV_OBJECT_EXT);
+        match aalvur.write_to_file(&out) {
             Ok(()) => (),
             Err(e) => {
-                eprintln!("{}", TeldaError::from(e));
+                eprintln!("{}: io error: {e}", out.display());
                 ret = ExitCode::FAILURE;
                 continue;
             }
diff --git a/src/source/mod.rs b/src/source/mod.rs
index 32473aa..8b110d4 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -158,7 +158,8 @@ impl<B: BufRead> SourceLines<B> {
     }
     fn inner_parse_line(&mut self, line: StdResult<String, IoError>) -> Result<SourceLine> {
         Ok({
-            let line = line?;
+            let line =
+                line.map_err(|e| Error::new(self.source.clone(), self.ln, ErrorType::IoError(e)))?;
             let line = line.trim();
 
             if line.is_empty()
-- 
2.43.0


From b90eaae9ec4bd4cf5d9cc7e456a9d85088c2709e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:17 +0000
Subject: [PATCH 32/41] fix: a source file that includes itself crashed the
 assembler

---
 src/source/mod.rs | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index 8b110d4..2a0f05b 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -2,6 +2,7 @@ use std::{
     collections::BTreeMap,
     fs::File,
     io::{BufRead, BufReader, ErrorKind, Lines},
+    os::unix::fs::MetadataExt,
     path::Path,
     slice::Iter,
 };
@@ -51,6 +52,8 @@ pub struct SourceLines<B> {
     lines: Lines<B>,
     ln: LineNumber,
     source: Box<str>,
+    /// The device and inode number of the file, however it was named
+    file_id: Option<(u64, u64)>,
     errors: Option<Error>,
 }
 
@@ -74,11 +77,15 @@ impl SourceLines<BufReader<File>> {
         let source = format!("{}", path.as_ref().display()).into_boxed_str();
         let f =
             File::open(path).map_err(|e| Error::new(source.clone(), 0, ErrorType::IoError(e)))?;
+        let metadata = f
+            .metadata()
+            .map_err(|e| Error::new(source.clone(), 0, ErrorType::IoError(e)))?;
         let br = BufReader::new(f);
         Ok(SourceLines {
             lines: br.lines(),
             ln: 0,
             source,
+            file_id: Some((metadata.dev(), metadata.ino())),
             errors: None,
         })
     }
@@ -135,6 +142,7 @@ impl<B: BufRead> SourceLines<B> {
             lines: r.lines(),
             ln: 0,
             source: "<input>".into(),
+            file_id: None,
             errors: None,
         }
     }
@@ -374,6 +382,8 @@ pub struct DataLineSegment {
 struct ProcessState {
     dls: BTreeMap<SegmentType, DataLineSegment>,
     pub entry: Option<Address>,
+    /// The file that is being processed and those it is included from
+    open_files: Vec<(u64, u64)>,
 }
 
 impl ProcessState {
@@ -381,6 +391,7 @@ impl ProcessState {
         Self {
             dls: BTreeMap::new(),
             entry: None,
+            open_files: Vec::new(),
         }
     }
     fn get_size(&self, st: SegmentType) -> u16 {
@@ -411,7 +422,7 @@ pub fn process<B: BufRead>(lines: SourceLines<B>) -> Result<ProcessedSource> {
 
     let mut errors = inner_process(lines, &mut state, &mut symbols);
 
-    let ProcessState { mut dls, entry } = state;
+    let ProcessState { mut dls, entry, .. } = state;
 
     let mut last_end = PAGE_SIZE;
     for s in dls.values_mut() {
@@ -592,6 +603,19 @@ fn inner_process<B: BufRead>(
                 };
 
                 let lines = SourceLines::new(path)?;
+                // This would go on for ever
+                if lines
+                    .file_id
+                    .is_some_and(|id| state.open_files.contains(&id))
+                {
+                    return Err(Error::new(
+                        src,
+                        ln,
+                        ErrorType::Other(
+                            format!("{} includes itself", lines.source).into_boxed_str(),
+                        ),
+                    ));
+                }
                 if let Some(e) = inner_process(lines, state, symbols) {
                     return Err(e);
                 }
@@ -619,6 +643,8 @@ fn inner_process<B: BufRead>(
     }
 
     let mut current_segment = SegmentType::Unknown;
+    let included_from = state.open_files.len();
+    state.open_files.extend(lines.file_id);
 
     while let Some((ln, line)) = lines.parse_next_line() {
         match inner_process_line(
@@ -634,6 +660,8 @@ fn inner_process<B: BufRead>(
         }
     }
 
+    state.open_files.truncate(included_from);
+
     lines.errors
 }
 
-- 
2.43.0


From aeea7ed628289bddda5f30c3e20432e59e3b37c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:41 +0000
Subject: [PATCH 33/41] fix: tens of thousands of errors in a source overflowed
 the assembler's stack

---
 src/source/err.rs | 35 +++++++++++++++--------------------
 src/source/mod.rs |  4 ++--
 2 files changed, 17 insertions(+), 22 deletions(-)

diff --git a/src/source/err.rs b/src/source/err.rs
index 4bbbaf2..95ac552 100644
--- a/src/source/err.rs
+++ b/src/source/err.rs
@@ -2,6 +2,7 @@ use std::error::Error as ErrorTrait;
 use std::fmt::{self, Display};
 pub(super) use std::io::Error as IoError;
 pub(super) use std::result::Result as StdResult;
+use std::{iter, mem};
 
 pub type Result<T> = StdResult<T, Error>;
 
@@ -28,7 +29,8 @@ pub struct Error {
     source: Box<str>,
     ln: LineNumber,
     error: ErrorType,
-    next: Option<Box<Self>>,
+    /// The errors after this one, which have none of their own
+    next: Vec<Self>,
 }
 
 impl Error {
@@ -37,18 +39,17 @@ impl Error {
             source: s.into(),
             ln,
             error,
-            next: None,
+            next: Vec::new(),
         }
     }
     pub fn chain(mut self, second: Self) -> Self {
         self.chain_mut(second);
         self
     }
-    fn chain_mut(&mut self, second: Self) {
-        match &mut self.next {
-            Some(first) => first.chain_mut(second),
-            a @ None => *a = Some(Box::new(second)),
-        }
+    fn chain_mut(&mut self, mut second: Self) {
+        let rest = mem::take(&mut second.next);
+        self.next.push(second);
+        self.next.extend(rest);
     }
     // pub(super) fn set_line_number(self, ln: LineNumber) -> Self {
     //     Self { ln, .. self }
@@ -69,16 +70,15 @@ impl ErrorTrait for Error {
 
 impl Display for Error {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        let mut cur = Some(self);
-
-        while let Some(e) = cur {
+        for (i, e) in iter::once(self).chain(&self.next).enumerate() {
             let Self {
-                source,
-                ln,
-                error,
-                next,
+                source, ln, error, ..
             } = e;
 
+            if i != 0 {
+                writeln!(f)?;
+            }
+
             if *ln == 0 {
                 write!(f, "{source}: ")?;
             } else {
@@ -100,11 +100,6 @@ impl Display for Error {
                 ErrorType::IncorrectOperands(s) => write!(f, "incorrect operands, expected {s}"),
                 ErrorType::Other(s) => write!(f, "{s}"),
             }?;
-            if next.is_some() {
-                writeln!(f)?;
-            }
-
-            cur = next.as_ref().map(|e| &**e);
         }
 
         Ok(())
@@ -117,7 +112,7 @@ impl From<IoError> for Error {
             ln: 0,
             source: "".to_owned().into_boxed_str(),
             error: ErrorType::IoError(e),
-            next: None,
+            next: Vec::new(),
         }
     }
 }
diff --git a/src/source/mod.rs b/src/source/mod.rs
index 2a0f05b..be60286 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -487,11 +487,11 @@ pub fn process<B: BufRead>(lines: SourceLines<B>) -> Result<ProcessedSource> {
                     Internal => {
                         let e = e
                             .into_iter()
+                            .rev()
                             .map(|SourceLocation { source, line_number }| Error::new(source, line_number, ErrorType::Other(
                                     format!("non-global label `{l}' was never defined, but used here").into_boxed_str()
                                 )))
-                            // Reversed order to make it faster (since it's a linked list)
-                            .reduce(|accum, item| item.chain(accum))
+                            .reduce(|accum, item| accum.chain(item))
                             .expect("ghost label, expected at least one use location")
                             ;
                         add_error_opt(&mut errors, e);
-- 
2.43.0


From c48a9946f71362c90b70c27a611a09f5f666a35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:53 +0000
Subject: [PATCH 34/41] fix: labels and entry points in front of the first
 segment were assembled to addresses of nothing

---
 src/source/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index be60286..2f0277c 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -532,6 +532,15 @@ fn inner_process<B: BufRead>(
         symbols: &mut Symbols,
     ) -> Result<()> {
         match line {
+            SourceLine::DirEntry | SourceLine::Label(_)
+                if *current_segment == SegmentType::Unknown =>
+            {
+                return Err(Error::new(
+                    src,
+                    ln,
+                    ErrorType::Other("no segment was started".to_string().into_boxed_str()),
+                ));
+            }
             SourceLine::DirSeg(seg) => {
                 let new_seg = match &*seg {
                     "data" => SegmentType::Data,
-- 
2.43.0


From de976ffe68bd159d5520fc0e880ce9bb8ad7110a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:33 +0000
Subject: [PATCH 35/41] fix: an archive was destroyed by an input that could
 not be read

---
 src/bin/tar.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/bin/tar.rs b/src/bin/tar.rs
index 6cdca34..dacfb4d 100644
--- a/src/bin/tar.rs
+++ b/src/bin/tar.rs
@@ -1,5 +1,5 @@
 use std::{
-    fs::File, io::{self, Write}, path::PathBuf, process::ExitCode
+    fs::{self, File}, io::{self, Write}, path::PathBuf, process::ExitCode
 };
 
 use clap::Parser;
@@ -34,12 +34,17 @@ fn tar_main() -> Result<(), io::Error> {
         output_file,
     } = Cli::parse();
 
+    // An input that cannot be read should not cost an existing archive
+    let inputs = input_files
+        .into_iter()
+        .map(fs::read)
+        .collect::<Result<Vec<_>, _>>()?;
+
     let mut out = File::create(output_file)?;
     out.write_all("álvasavn\n".as_bytes())?;
 
-    for input_file in input_files {
-        let mut input = File::open(input_file)?;
-        io::copy(&mut input, &mut out)?;
+    for input in inputs {
+        out.write_all(&input)?;
     }
     out.sync_all()?;
 
-- 
2.43.0


From f605623680585db7b3f923c5ca17eebc3b43334f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:33 +0000
Subject: [PATCH 36/41] fix: tobjdump panicked on a start symbol that does not
 exist

---
 src/bin/tobjdump.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/bin/tobjdump.rs b/src/bin/tobjdump.rs
index 7a16a98..1f012ee 100644
--- a/src/bin/tobjdump.rs
+++ b/src/bin/tobjdump.rs
@@ -82,6 +82,7 @@ fn main() -> ExitCode {
     } = Cli::parse();
 
     let mut ret = ExitCode::SUCCESS;
+    let mut missing = false;
 
     for (f, obj) in input_files.into_iter().flat_map(|p| read_objs(&mut ret, p)) {
         println!("{f}:");
@@ -89,10 +90,16 @@ fn main() -> ExitCode {
             symbols(&obj);
         }
         if disassemble {
-            disassembly(&obj, &dissasemble_from, show_relocations);
+            if let Err(name) = disassembly(&obj, &dissasemble_from, show_relocations) {
+                eprintln!("{f}: start symbol {name} did not exist in symbol table");
+                missing = true;
+            }
         }
     } 
 
+    if missing {
+        ret = ExitCode::FAILURE;
+    }
     ret
 }
 
@@ -124,7 +131,12 @@ fn symbols(obj: &Object) {
     }
 }
 
-fn disassembly(obj: &Object, start_symbol: &Option<String>, show_relocations: bool) {
+/// Fails with the name of a start symbol that does not exist
+fn disassembly<'a>(
+    obj: &Object,
+    start_symbol: &'a Option<String>,
+    show_relocations: bool,
+) -> Result<(), &'a str> {
     let syms = &obj.symbols.0;
 
     let symbols: VecDeque<usize>;
@@ -135,9 +147,9 @@ fn disassembly(obj: &Object, start_symbol: &Option<String>, show_relocations: bo
             .map(|name| {
                 syms.iter()
                     .position(|s| &*s.name == name)
-                    .expect("start symbol did not exist in symbol table")
+                    .ok_or(name)
             })
-            .collect();
+            .collect::<Result<_, _>>()?;
     } else {
         let entry_id = obj.symbols.0.len();
         symbols = obj
@@ -281,4 +293,6 @@ fn disassembly(obj: &Object, start_symbol: &Option<String>, show_relocations: bo
         }
         println!();
     }
+
+    Ok(())
 }
-- 
2.43.0


From c5c874c9ddee7f2cb808ea3d61e4b6f3b3a07944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:33 +0000
Subject: [PATCH 37/41] fix: tl -E made an undefined symbol the entry point of
 an executable

---
 src/bin/tl.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bin/tl.rs b/src/bin/tl.rs
index f99ddb5..19580cf 100644
--- a/src/bin/tl.rs
+++ b/src/bin/tl.rs
@@ -317,6 +317,10 @@ fn tl_main() -> Result<(), Error> {
                 )
             } else if let Some(&pos) = global_symbols.get(&*entry) {
                 let sym = &symbols_out[pos];
+                if let SegmentType::Unknown = sym.segment_type {
+                    eprintln!("Start symbol {entry} is not defined");
+                    failure = true;
+                }
                 Entry(sym.segment_type, sym.location)
             } else {
                 eprintln!("Start symbol {entry} was not found. Perhaps it is not global?");
-- 
2.43.0


From 192f86e04ccd0f7f4bee68ac8947827c398aaaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:33 +0000
Subject: [PATCH 38/41] fix: two archived objects that define the same symbol
 could not be linked with

---
 src/bin/tl.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bin/tl.rs b/src/bin/tl.rs
index 19580cf..bf4c51a 100644
--- a/src/bin/tl.rs
+++ b/src/bin/tl.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::{BTreeMap, HashMap}, fs::{self, File}, io::{self, Seek, Write}, num::ParseIntError, ops::Deref, os::unix::prelude::PermissionsExt, path::PathBuf, process::ExitCode
+    collections::{BTreeMap, HashMap, HashSet}, fs::{self, File}, io::{self, Seek, Write}, num::ParseIntError, ops::Deref, os::unix::prelude::PermissionsExt, path::PathBuf, process::ExitCode
 };
 
 use clap::Parser;
@@ -431,6 +431,8 @@ fn read_archives<'a, I: 'a + Iterator<Item=&'a Object>>(verbose: bool, archives:
     }
 
     let mut cur_globals = input_globals;
+    // Symbols defined by included objects, which need no second definition
+    let mut provided = HashSet::new();
     let mut objs = Vec::new();
 
     loop {
@@ -441,7 +443,7 @@ fn read_archives<'a, I: 'a + Iterator<Item=&'a Object>>(verbose: bool, archives:
                 // - a defined symbol that is referenced by any input objects or recently included objects
                 // - an undefined symbol defined by the input objects (but NOT by included objects)
                 // that is the definedness of the symbol differs between the current objects and the library object
-                if cur_globals.is(sym, !defined_in_aobj) {
+                if cur_globals.is(sym, !defined_in_aobj) && !(defined_in_aobj && provided.contains(sym)) {
                     if verbose {
                         println!("including {oname} because {sym} {}", if defined_in_aobj { "is defined in archive" } else { "is defined in inputs objects"});
                     }
@@ -456,6 +458,7 @@ fn read_archives<'a, I: 'a + Iterator<Item=&'a Object>>(verbose: bool, archives:
         };
         let (oname, obj, glbs) = a_objs.remove(i);
 
+        provided.extend(glbs.iter().filter(|&(_, defined)| defined).map(|(sym, _)| Box::<str>::from(sym)));
         // Add undefined references from this newly included object to the current map
         cur_globals.extend_undefineds(glbs);
         objs.push((oname, obj));
-- 
2.43.0


From d1dfadc61412fc3c4418b8730b0b52998cf43f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:15 +0000
Subject: [PATCH 39/41] fix: a loaded program gets nothing from what ran in the
 machine before

Pages of an earlier program were mapped with their content, page tables
among them, so that old mappings stayed. The trap flag and the trap handler
stayed as well, with which a program could return to supervisor mode.
---
 src/blf4/std_kernel.rs                  | 4 ++++
 src/blf4/std_kernel/load_user_binary.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/blf4/std_kernel.rs b/src/blf4/std_kernel.rs
index e020f97..9ffa772 100644
--- a/src/blf4/std_kernel.rs
+++ b/src/blf4/std_kernel.rs
@@ -56,6 +56,10 @@ impl EKernel {
             // TODO: check if this overflows indicating that the bumper is empty
             // on debug mode it'll panic rn, but release mode will wrap around which would lead to weird behaviour
             self.page_bumper += PAGE_SIZE_P;
+
+            // Something that ran before could have used it
+            write_n(mem, ret, &[0; 128]);
+
             ret
         }
     }
diff --git a/src/blf4/std_kernel/load_user_binary.rs b/src/blf4/std_kernel/load_user_binary.rs
index 0100003..a5bb5f4 100644
--- a/src/blf4/std_kernel/load_user_binary.rs
+++ b/src/blf4/std_kernel/load_user_binary.rs
@@ -13,6 +13,10 @@ use super::{
 
 impl<M: MainMemory> Machine<M, Blf4> {
     pub fn load_user_binary(&mut self, obj: &Object) {
+        // Whatever ran before could have ended in a trap, or handled them itself
+        self.cpu.flags.trap = false;
+        self.cpu.trap_handler = 0;
+
         let mut ekernel = EKernel::new();
 
         let page_table1 = ekernel.allocate_page(&mut self.memory);
-- 
2.43.0


From d081f05c694fea142bf2c096789e7114763b77bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:15 +0000
Subject: [PATCH 40/41] fix: the character literal ',' could not be used as an
 operand

---
 src/source/mod.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index 2f0277c..ff781b5 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -268,7 +268,7 @@ impl<B: BufRead> SourceLines<B> {
                 let (ins, args) = line.split_at(i);
                 let mut sos = Vec::new();
 
-                for arg in args.split(',') {
+                for arg in split_operands(args) {
                     let arg = arg.trim();
 
                     sos.push(match arg {
@@ -317,6 +317,28 @@ impl<B: BufRead> SourceLines<B> {
     }
 }
 
+/// Splits at the commas that separate operands, which the one in `','` does not
+fn split_operands(args: &str) -> Vec<&str> {
+    const COMMA_LITERAL: &str = "','";
+
+    let mut operands = Vec::new();
+    let mut rest = args;
+    loop {
+        let trimmed = rest.trim_start();
+        let skip = if trimmed.starts_with(COMMA_LITERAL) {
+            rest.len() - trimmed.len() + COMMA_LITERAL.len()
+        } else {
+            0
+        };
+        let Some(i) = rest[skip..].find(',') else {
+            operands.push(rest);
+            break operands;
+        };
+        operands.push(&rest[..skip + i]);
+        rest = &rest[skip + i + 1..];
+    }
+}
+
 fn parse_bytechar(s: &[u8]) -> StdResult<(u8, &[u8]), ErrorType> {
     use self::ErrorType::*;
 
-- 
2.43.0


From a36700213ee177edae29f3ee6f0bed3e06b99460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:54 +0000
Subject: [PATCH 41/41] fix: tdbg ignored an entry point that is not there and
 began elsewhere

---
 src/bin/tdbg.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/bin/tdbg.rs b/src/bin/tdbg.rs
index 47ad56d..fcc1324 100644
--- a/src/bin/tdbg.rs
+++ b/src/bin/tdbg.rs
@@ -116,9 +116,11 @@ fn main() -> ExitCode {
                     }
                 }
 
-                if let Some(ep) = ep_candidate {
-                    machine.cpu.program_counter = ep;
-                }
+                let Some(ep) = ep_candidate else {
+                    eprintln!("entry point {entry} was not found");
+                    return ExitCode::FAILURE;
+                };
+                machine.cpu.program_counter = ep;
             }
         }
 
-- 
2.43.0

