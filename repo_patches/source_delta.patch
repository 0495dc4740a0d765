From db555c953297fbc4dce6ffb54b2acab9702d10d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:19 +0000
Subject: [PATCH 01/20] fix: LZSS/LZHUF compression of empty input panicked

The main loop encodes a symbol before checking the length, and then
underflows.  As in LZHUF.C, empty input produces only the header.
---
 src/direct_ports/lzhuf.rs | 5 +++++
 src/lzss_huff.rs          | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/direct_ports/lzhuf.rs b/src/direct_ports/lzhuf.rs
index 1c8139f..cb3f245 100644
--- a/src/direct_ports/lzhuf.rs
+++ b/src/direct_ports/lzhuf.rs
@@ -604,6 +604,11 @@ pub fn encode<R: Read + Seek, W: Write + Seek>(expanded_in: &mut R, compressed_o
     let header = u32::to_le_bytes(expanded_length as u32);
     writer.write(&header)?;
     reader.seek(SeekFrom::Start(0))?;
+    // nothing to encode, the header is all there is
+    if expanded_length == 0 {
+        writer.flush()?;
+        return Ok((0,writer.stream_position()?));
+    }
     // init
     let mut bytes = reader.bytes();
     let mut lzss = LZSS::new();
diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index 27a8bc7..ff64018 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -240,6 +240,11 @@ where R: Read + Seek, W: Write + Seek {
         let header = u32::to_le_bytes(expanded_length as u32);
         writer.write(&header)?;
     }
+    // nothing to encode, the optional header is all there is
+    if expanded_length == 0 {
+        writer.flush()?;
+        return Ok((0,writer.stream_position()? - opt.out_offset));
+    }
     // init
     let mut bytes = reader.bytes();
     let mut lzss = LZSS::create(opt.clone());
-- 
2.43.0


From bb5c11cc9909726a31847970fc04a25e77a42b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:22 +0000
Subject: [PATCH 02/20] fix: LZW expansion panicked if the first code was not a
 symbol

Return the format mismatch error as for other bad codes.
---
 src/lzw.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lzw.rs b/src/lzw.rs
index 05168c8..302696b 100644
--- a/src/lzw.rs
+++ b/src/lzw.rs
@@ -549,6 +549,10 @@ where R: Read + Seek, W: Write + Seek {
             };
             match lzw.dictionary.contains_key(&Link::root(code).hash()) {
                 false => {
+                    if prev_str.is_empty() {
+                        log::error!("first LZW code is not a symbol");
+                        return Err(Box::new(crate::Error::FileFormatMismatch));
+                    }
                     prev_str.push(prev_str[0]);
                     if next_code.is_none() {
                         log::error!("new code was needed but none were available");
-- 
2.43.0


From 6a3baf55c40196c45c20a7e8fad2f392c32e769d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:24 +0000
Subject: [PATCH 03/20] fix: LZSS expansion with header and output offset
 stopped early

The length in the header does not include the output offset.
---
 src/lzss_huff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index ff64018..73fa1e6 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -352,7 +352,7 @@ where R: Read + Seek, W: Write + Seek {
     }
     lzss.dictionary.set_pos(start_pos);
     // start expanding
-	while writer.stream_position()? < max_expanded_size as u64 {
+	while writer.stream_position()? < opt.out_offset + max_expanded_size as u64 {
 		let c = match huff.decode_char(&mut reader) {
             Ok(c) => c,
             Err(e) if e.kind()==ErrorKind::UnexpectedEof => break,
-- 
2.43.0


From 91fc7bfcb287d9cd01ed3363d6add2b473c15b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:25 +0000
Subject: [PATCH 04/20] fix: LZSS compression rejected a file of exactly the
 maximum size

The option is documented to reject larger files, and the other
functions do so.
---
 src/lzss_huff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index 73fa1e6..22c0a95 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -230,7 +230,7 @@ where R: Read + Seek, W: Write + Seek {
     let mut reader = BufReader::new(expanded_in);
     let mut writer = BufWriter::new(compressed_out);
     let expanded_length = reader.seek(SeekFrom::End(0))? - opt.in_offset;
-    if expanded_length >= opt.max_file_size {
+    if expanded_length > opt.max_file_size {
         return Err(Box::new(crate::Error::FileTooLarge));
     }
     reader.seek(SeekFrom::Start(opt.in_offset))?;
-- 
2.43.0


From 903ef2568c52f123949ab3f904c39330429db5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:28 +0000
Subject: [PATCH 05/20] fix: LZW expansion could lose data on a partial write

A string as long as the writer's buffer is passed straight through, and
`write` may transfer only a part of it.
---
 src/lzw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lzw.rs b/src/lzw.rs
index 302696b..f35b6d2 100644
--- a/src/lzw.rs
+++ b/src/lzw.rs
@@ -571,7 +571,7 @@ where R: Read + Seek, W: Write + Seek {
                 lzw.dictionary.insert(Link::root(next_code).hash(),Link::create(prev_code,prev_str[0] as usize));
                 log::trace!("add {} linking to {}.{}",next_code,prev_code,prev_str[0]);
             }
-            writer.write(&prev_str)?;
+            writer.write_all(&prev_str)?;
             log::trace!("  write {} as {:?}",code,prev_str);
             prev_code = Some(code);
         }
-- 
2.43.0


From eed043830b5b063cf393a81e926cbf4c49d11ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:07 +0000
Subject: [PATCH 06/20] fix: stream errors while coding caused a panic

The coders panicked on a failed write or seek, and the LZHUF decoder on
a failed read.  Return the error, as is done for other stream errors.
---
 src/direct_ports/lzhuf.rs  | 58 +++++++++++++++++++-------------------
 src/lzss_huff.rs           |  6 ++--
 src/lzw.rs                 | 21 +++++++-------
 src/tools/adaptive_huff.rs | 18 ++++++------
 4 files changed, 53 insertions(+), 50 deletions(-)

diff --git a/src/direct_ports/lzhuf.rs b/src/direct_ports/lzhuf.rs
index cb3f245..d0a8060 100644
--- a/src/direct_ports/lzhuf.rs
+++ b/src/direct_ports/lzhuf.rs
@@ -486,11 +486,11 @@ impl AdaptiveHuffman {
     /// Get the next bit reading from the `bytes` iterator as needed.
     /// When EOF is reached 0 is returned, consistent with original C code.
     /// Byte iterator should not be advanced outside this function.
-    fn get_bit<R: Read>(&mut self,bytes: &mut Bytes<R>) -> u8 {
+    fn get_bit<R: Read>(&mut self,bytes: &mut Bytes<R>) -> Result<u8,std::io::Error> {
         match self.bits.get(self.ptr) {
             Some(bit) => {
                 self.ptr += 1;
-                bit as u8
+                Ok(bit as u8)
             },
             None => {
                 match bytes.next() {
@@ -502,43 +502,42 @@ impl AdaptiveHuffman {
                         self.count += 1;
                         self.get_bit(bytes)
                     }
-                    Some(Err(e)) => {
-                        panic!("error reading file {}",e)
-                    },
-                    None => 0
+                    Some(Err(e)) => Err(e),
+                    None => Ok(0)
                 }
             }
         }
     }
     /// get the next 8 bits into a u8, used exlusively to decode the position
-    fn get_byte<R: Read>(&mut self,bytes: &mut Bytes<R>) -> u8 {
+    fn get_byte<R: Read>(&mut self,bytes: &mut Bytes<R>) -> Result<u8,std::io::Error> {
         let mut ans: u8 = 0;
         for _i in 0..8 {
             ans <<= 1;
-            ans |= self.get_bit(bytes);
+            ans |= self.get_bit(bytes)?;
         }
-        ans
+        Ok(ans)
     }
     /// output `num_bits` of `code` starting from the MSB, unlike LZHUF.C the bits are always
     /// written to the output stream (sometimes backing up and rewriting)
-    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u16,writer: &mut BufWriter<W>) {
+    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         for _i in 0..num_bits {
             self.bits.push(code & 0x8000 > 0);
             code <<= 1;
             self.ptr += 1;
         }
         let bytes = self.bits.to_bytes();
-        writer.write(&bytes.as_slice()).expect("write err");
+        writer.write_all(&bytes.as_slice())?;
         if self.bits.len() % 8 > 0 {
-            writer.seek(SeekFrom::Current(-1)).expect("seek err");
+            writer.seek(SeekFrom::Current(-1))?;
             self.ptr = 8 * (self.bits.len() / 8);
             self.drop_leading_bits();
         } else {
             self.bits = BitVec::new();
             self.ptr = 0;
         }
+        Ok(())
     }
-    fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
+    fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         let mut i: u16 = 0;
         let mut j: u16 = 0;
         let mut k: usize = self.prnt[c as usize + TAB_SIZE];
@@ -555,40 +554,41 @@ impl AdaptiveHuffman {
                 break;
             }
         }
-        self.put_code(j,i,writer);
+        self.put_code(j,i,writer)?;
         self.update(c as i16); // TODO: why is input to update signed
+        Ok(())
     }
-    fn encode_position<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
+    fn encode_position<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         // upper 6 bits come from table
         let i = (c >> 6) as usize;
-        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u16) << 8,writer);
+        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u16) << 8,writer)?;
         // lower 6 bits verbatim
-        self.put_code(6,(c & 0x3f) << 10,writer);
+        self.put_code(6,(c & 0x3f) << 10,writer)
     }
-    fn decode_char<R: Read>(&mut self,bytes: &mut Bytes<R>) -> i16 {
+    fn decode_char<R: Read>(&mut self,bytes: &mut Bytes<R>) -> Result<i16,std::io::Error> {
         let mut c: usize = self.son[ROOT];
         // travel from root to leaf, choosing the smaller child node (son[])
         // if the read bit is 0, the bigger (son[]+1) if read bit is 1
         while c < TAB_SIZE {
-            c += self.get_bit(bytes) as usize;
+            c += self.get_bit(bytes)? as usize;
             c = self.son[c];
         }
         c -= TAB_SIZE;
         self.update(c as i16); // TODO: why is input to update signed
-        c as i16
+        Ok(c as i16)
     }
-    fn decode_position<R: Read>(&mut self,bytes: &mut Bytes<R>) -> u16 {
+    fn decode_position<R: Read>(&mut self,bytes: &mut Bytes<R>) -> Result<u16,std::io::Error> {
         // get upper 6 bits from table
-        let mut first8 = self.get_byte(bytes) as u16;
+        let mut first8 = self.get_byte(bytes)? as u16;
         let upper6 = (D_CODE[first8 as usize] as u16) << 6;
         let coded_bits = D_LEN[first8 as usize] as u16;
         // read lower 6 bits verbatim
         // we already got 8 bits, we need another 6 - (8-coded_bits) = coded_bits - 2
         for _i in 0..coded_bits-2 {
             first8 <<= 1;
-            first8 += self.get_bit(bytes) as u16;
+            first8 += self.get_bit(bytes)? as u16;
         }
-        upper6 | (first8 & 0x3f)
+        Ok(upper6 | (first8 & 0x3f))
     }
 }
 
@@ -647,10 +647,10 @@ pub fn encode<R: Read + Seek, W: Write + Seek>(expanded_in: &mut R, compressed_o
         }
         if lzss.match_length <= THRESHOLD {
             lzss.match_length = 1;
-            huff.encode_char(lzss.dictionary[r] as u16,&mut writer);
+            huff.encode_char(lzss.dictionary[r] as u16,&mut writer)?;
         } else {
-            huff.encode_char((255-THRESHOLD+lzss.match_length) as u16,&mut writer);
-            huff.encode_position(lzss.match_position as u16,&mut writer);
+            huff.encode_char((255-THRESHOLD+lzss.match_length) as u16,&mut writer)?;
+            huff.encode_position(lzss.match_position as u16,&mut writer)?;
         }
         let last_match_length = lzss.match_length;
         let mut i = 0;
@@ -712,14 +712,14 @@ pub fn decode<R: Read + Seek , W: Write + Seek>(compressed_in: &mut R, expanded_
 	let mut r = WIN_SIZE - LOOKAHEAD;
     // start expanding
 	while writer.stream_position()? < textsize as u64 {
-		let c = huff.decode_char(&mut bytes);
+		let c = huff.decode_char(&mut bytes)?;
 		if c < 256 {
             writer.write(&[c as u8])?;
 			lzss.dictionary[r] = c as u8;
             r += 1;
 			r &= WIN_SIZE - 1;
 		} else {
-			let strpos = ((r as i32 - huff.decode_position(&mut bytes) as i32 - 1) & (WIN_SIZE as i32 - 1)) as usize;
+			let strpos = ((r as i32 - huff.decode_position(&mut bytes)? as i32 - 1) & (WIN_SIZE as i32 - 1)) as usize;
 			let strlen = c as usize + THRESHOLD - 255;
 			for k in 0..strlen {
 				let c8 = lzss.dictionary[(strpos + k) & (WIN_SIZE - 1)];
diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index 22c0a95..71163f8 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -283,10 +283,10 @@ where R: Read + Seek, W: Write + Seek {
         }
         if lzss.match_length <= opt.threshold {
             lzss.match_length = 1;
-            huff.encode_char(lzss.dictionary.get(0) as u16,&mut writer);
+            huff.encode_char(lzss.dictionary.get(0) as u16,&mut writer)?;
         } else {
-            huff.encode_char((255-opt.threshold+lzss.match_length) as u16,&mut writer);
-            huff.encode_position(lzss.match_offset as u16,&mut writer);
+            huff.encode_char((255-opt.threshold+lzss.match_length) as u16,&mut writer)?;
+            huff.encode_position(lzss.match_offset as u16,&mut writer)?;
         }
         let last_match_length = lzss.match_length;
         let mut i = 0;
diff --git a/src/lzw.rs b/src/lzw.rs
index f35b6d2..c845362 100644
--- a/src/lzw.rs
+++ b/src/lzw.rs
@@ -128,7 +128,7 @@ impl LZWCoder {
     /// output `num_bits` of `code` in given bit-order, the bits are always
     /// written to the output stream (sometimes backing up and rewriting) such that
     /// the start of the bit vector stays aligned.
-    pub fn put_code<W: Write + Seek>(&mut self,num_bits: usize,mut code: usize,writer: &mut BufWriter<W>) {
+    pub fn put_code<W: Write + Seek>(&mut self,num_bits: usize,mut code: usize,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         let bytes = match self.ord {
             BitOrder::Msb0 => {
                 code <<= usize::BITS as usize - num_bits;
@@ -149,9 +149,9 @@ impl LZWCoder {
                 bits_to_bytes_lsb0(&self.bits)
             }
         };
-        writer.write(&bytes.as_slice()).expect("write err");
+        writer.write_all(&bytes.as_slice())?;
         if self.bits.len() % 8 > 0 {
-            writer.seek(SeekFrom::Current(-1)).expect("seek err");
+            writer.seek(SeekFrom::Current(-1))?;
             self.ptr = 8 * (self.bits.len() / 8);
             self.drop_leading_bits();
         } else {
@@ -159,6 +159,7 @@ impl LZWCoder {
             self.ptr = 0;
         }
         self.count += 1;
+        Ok(())
     }
 }
 
@@ -404,7 +405,7 @@ where R: Read + Seek, W: Write + Seek {
         writer.seek(SeekFrom::Start(write_offset_header))?;
         //placeholder for header 
         if opt.header_bits > 0 {
-            coder.put_code(opt.header_bits,0,&mut writer);
+            coder.put_code(opt.header_bits,0,&mut writer)?;
         }
         coder.count = 0;
         //let mut lookahead = 0;
@@ -433,14 +434,14 @@ where R: Read + Seek, W: Write + Seek {
                     Err(e) if e.kind()==ErrorKind::UnexpectedEof => {
                         if let Some(curr) = &lzw.curr_match {
                             let val = lzw.dictionary.get(&curr.hash()).unwrap(); // should never panic
-                            coder.put_code(opt.max_code_width,val.code,&mut writer);
+                            coder.put_code(opt.max_code_width,val.code,&mut writer)?;
                         }
                         if let Some(code) = opt.stop_code {
-                            coder.put_code(opt.max_code_width,code,&mut writer);
+                            coder.put_code(opt.max_code_width,code,&mut writer)?;
                         }
                         if opt.header_bits > 0 {
                             writer.seek(SeekFrom::Start(write_offset_header))?;
-                            old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer);
+                            old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer)?;
                         }
                         log::debug!("last chunk has {} codes",coder.count);
                         writer.seek(SeekFrom::End(0))?; // coder could be rewound
@@ -453,19 +454,19 @@ where R: Read + Seek, W: Write + Seek {
             // should never panic
             let curr = lzw.dictionary.get(&lzw.curr_match.as_ref().unwrap().hash()).unwrap();
             log::trace!("code: {}",curr.code);
-            coder.put_code(opt.max_code_width,curr.code,&mut writer);
+            coder.put_code(opt.max_code_width,curr.code,&mut writer)?;
             // backup to try the character that didn't match again
             reader.seek_relative(-1)?;
 
             if coder.count >= opt.chunk_size {
                 log::debug!("close chunk with {} codes",coder.count);
                 if let Some(code) = opt.clear_code {
-                    coder.put_code(opt.max_code_width,code,&mut writer);
+                    coder.put_code(opt.max_code_width,code,&mut writer)?;
                 }
                 let save_offset = writer.stream_position()?;
                 if opt.header_bits > 0 {
                     writer.seek(SeekFrom::Start(write_offset_header))?;
-                    old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer);
+                    old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer)?;
                 }
                 old_coder_state = coder.clone();
                 write_offset_header = save_offset;
diff --git a/src/tools/adaptive_huff.rs b/src/tools/adaptive_huff.rs
index 2c73207..7dbc536 100644
--- a/src/tools/adaptive_huff.rs
+++ b/src/tools/adaptive_huff.rs
@@ -310,24 +310,25 @@ impl AdaptiveHuffmanCoder {
     }
     /// output `num_bits` of `code` starting from the MSB, unlike LZHUF.C the bits are always
     /// written to the output stream (sometimes backing up and rewriting)
-    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u16,writer: &mut BufWriter<W>) {
+    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         for _i in 0..num_bits {
             self.bits.push(code & 0x8000 > 0);
             code <<= 1;
             self.ptr += 1;
         }
         let bytes = self.bits.to_bytes();
-        writer.write(&bytes.as_slice()).expect("write err");
+        writer.write_all(&bytes.as_slice())?;
         if self.bits.len() % 8 > 0 {
-            writer.seek(SeekFrom::Current(-1)).expect("seek err");
+            writer.seek(SeekFrom::Current(-1))?;
             self.ptr = 8 * (self.bits.len() / 8);
             self.drop_leading_bits();
         } else {
             self.bits = BitVec::new();
             self.ptr = 0;
         }
+        Ok(())
     }
-    pub fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
+    pub fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         let mut code: u16 = 0;
         let mut num_bits: u16 = 0;
         let mut curr_node: usize = self.tree.symb_map[c as usize];
@@ -343,15 +344,16 @@ impl AdaptiveHuffmanCoder {
                 break;
             }
         }
-        self.put_code(num_bits,code,writer);
+        self.put_code(num_bits,code,writer)?;
         self.tree.update(c as i16); // TODO: why is input to update signed
+        Ok(())
     }
-    pub fn encode_position<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
+    pub fn encode_position<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         // upper 6 bits come from table
         let i = (c >> 6) as usize;
-        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u16) << 8,writer);
+        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u16) << 8,writer)?;
         // lower 6 bits verbatim
-        self.put_code(6,(c & 0x3f) << 10,writer);
+        self.put_code(6,(c & 0x3f) << 10,writer)
     }
 }
 
-- 
2.43.0


From 3599c2305cb595b4f3764c73cd83fbaaad3e3efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:59 +0000
Subject: [PATCH 07/20] fix: LZW chunk header overwrote codes if not byte
 aligned

The header was patched after the codes of the chunk were written.  If the
header did not end on a byte boundary, the first code in the chunk was
damaged.  Hold back the codes until the header can be written.
---
 src/lzw.rs | 48 ++++++++++++++++++++++--------------------------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/src/lzw.rs b/src/lzw.rs
index c845362..cc68f8b 100644
--- a/src/lzw.rs
+++ b/src/lzw.rs
@@ -161,6 +161,16 @@ impl LZWCoder {
         self.count += 1;
         Ok(())
     }
+    /// output the codes of a chunk, preceded by the header if there is one, neither needs to be aligned
+    pub fn put_chunk<W: Write + Seek>(&mut self,codes: &[usize],opt: &Options,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
+        if opt.header_bits > 0 {
+            self.put_code(opt.header_bits,codes.len()*opt.max_code_width/opt.header_divisor,writer)?;
+        }
+        for code in codes {
+            self.put_code(opt.max_code_width,*code,writer)?;
+        }
+        Ok(())
+    }
 }
 
 impl LZWDecoder {
@@ -392,9 +402,8 @@ where R: Read + Seek, W: Write + Seek {
     if expanded_length > opt.max_file_size {
         return Err(Box::new(crate::Error::FileTooLarge));
     }
-    let mut write_offset_header = opt.out_offset;
     let mut read_chunk_offset = opt.in_offset;
-    let mut old_coder_state = LZWCoder::new(opt.ord.clone());
+    writer.seek(SeekFrom::Start(opt.out_offset))?;
     let mut sym_in: [u8;1] = [0];
 
     log::debug!("entering loop over chunks");
@@ -402,12 +411,8 @@ where R: Read + Seek, W: Write + Seek {
         log::debug!("create LZW dictionary");
         let mut lzw = LZW::create(opt.clone());
         reader.seek(SeekFrom::Start(read_chunk_offset))?;
-        writer.seek(SeekFrom::Start(write_offset_header))?;
-        //placeholder for header 
-        if opt.header_bits > 0 {
-            coder.put_code(opt.header_bits,0,&mut writer)?;
-        }
-        coder.count = 0;
+        // codes are held back because the header has to be written first
+        let mut codes: Vec<usize> = Vec::new();
         //let mut lookahead = 0;
         log::debug!("entering loop over matches");
         loop {
@@ -434,16 +439,13 @@ where R: Read + Seek, W: Write + Seek {
                     Err(e) if e.kind()==ErrorKind::UnexpectedEof => {
                         if let Some(curr) = &lzw.curr_match {
                             let val = lzw.dictionary.get(&curr.hash()).unwrap(); // should never panic
-                            coder.put_code(opt.max_code_width,val.code,&mut writer)?;
+                            codes.push(val.code);
                         }
                         if let Some(code) = opt.stop_code {
-                            coder.put_code(opt.max_code_width,code,&mut writer)?;
+                            codes.push(code);
                         }
-                        if opt.header_bits > 0 {
-                            writer.seek(SeekFrom::Start(write_offset_header))?;
-                            old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer)?;
-                        }
-                        log::debug!("last chunk has {} codes",coder.count);
+                        coder.put_chunk(&codes,opt,&mut writer)?;
+                        log::debug!("last chunk has {} codes",codes.len());
                         writer.seek(SeekFrom::End(0))?; // coder could be rewound
                         writer.flush()?;
                         return Ok((expanded_length,writer.stream_position()? - opt.out_offset))
@@ -454,22 +456,16 @@ where R: Read + Seek, W: Write + Seek {
             // should never panic
             let curr = lzw.dictionary.get(&lzw.curr_match.as_ref().unwrap().hash()).unwrap();
             log::trace!("code: {}",curr.code);
-            coder.put_code(opt.max_code_width,curr.code,&mut writer)?;
+            codes.push(curr.code);
             // backup to try the character that didn't match again
             reader.seek_relative(-1)?;
 
-            if coder.count >= opt.chunk_size {
-                log::debug!("close chunk with {} codes",coder.count);
+            if codes.len() >= opt.chunk_size {
+                log::debug!("close chunk with {} codes",codes.len());
                 if let Some(code) = opt.clear_code {
-                    coder.put_code(opt.max_code_width,code,&mut writer)?;
-                }
-                let save_offset = writer.stream_position()?;
-                if opt.header_bits > 0 {
-                    writer.seek(SeekFrom::Start(write_offset_header))?;
-                    old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer)?;
+                    codes.push(code);
                 }
-                old_coder_state = coder.clone();
-                write_offset_header = save_offset;
+                coder.put_chunk(&codes,opt,&mut writer)?;
                 // read-position should be on the last symbol that didn't match
                 read_chunk_offset = reader.stream_position()?;
                 break;
-- 
2.43.0


From 4e87cec61543eca310067293c0ec383a0c35a059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:01 +0000
Subject: [PATCH 08/20] fix: wrong compressed size if the output stream has
 longer content

The compressors took the end of the output stream for the end of the
compressed data.  When writing over something longer the returned size
was too large, and the executable left old data at the end of the file.
---
 src/direct_ports/lzhuf.rs  | 9 ++++++++-
 src/lzss_huff.rs           | 2 +-
 src/lzw.rs                 | 9 ++++++++-
 src/tools/adaptive_huff.rs | 7 +++++++
 4 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/direct_ports/lzhuf.rs b/src/direct_ports/lzhuf.rs
index d0a8060..e22c999 100644
--- a/src/direct_ports/lzhuf.rs
+++ b/src/direct_ports/lzhuf.rs
@@ -537,6 +537,13 @@ impl AdaptiveHuffman {
         }
         Ok(())
     }
+    /// move to the end of the bit stream, i.e., past any partial byte that was rewound
+    fn finish<W: Write + Seek>(&mut self,writer: &mut BufWriter<W>) -> Result<u64,std::io::Error> {
+        match self.bits.is_empty() {
+            true => writer.stream_position(),
+            false => writer.seek(SeekFrom::Current(1))
+        }
+    }
     fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         let mut i: u16 = 0;
         let mut j: u16 = 0;
@@ -686,7 +693,7 @@ pub fn encode<R: Read + Seek, W: Write + Seek>(expanded_in: &mut R, compressed_o
             break;
         }
     }
-    writer.seek(SeekFrom::End(0))?; // coder could be rewound
+    huff.finish(&mut writer)?; // coder could be rewound
     writer.flush()?;
     Ok((expanded_length,writer.stream_position()?))
 }
diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index 71163f8..5369fed 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -315,7 +315,7 @@ where R: Read + Seek, W: Write + Seek {
             break;
         }
     }
-    writer.seek(SeekFrom::End(0))?; // coder could be rewound
+    huff.finish(&mut writer)?; // coder could be rewound
     writer.flush()?;
     Ok((expanded_length,writer.stream_position()? - opt.out_offset))
 }
diff --git a/src/lzw.rs b/src/lzw.rs
index cc68f8b..6b39704 100644
--- a/src/lzw.rs
+++ b/src/lzw.rs
@@ -161,6 +161,13 @@ impl LZWCoder {
         self.count += 1;
         Ok(())
     }
+    /// move to the end of the bit stream, i.e., past any partial byte that was rewound
+    pub fn finish<W: Write + Seek>(&mut self,writer: &mut BufWriter<W>) -> Result<u64,std::io::Error> {
+        match self.bits.is_empty() {
+            true => writer.stream_position(),
+            false => writer.seek(SeekFrom::Current(1))
+        }
+    }
     /// output the codes of a chunk, preceded by the header if there is one, neither needs to be aligned
     pub fn put_chunk<W: Write + Seek>(&mut self,codes: &[usize],opt: &Options,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         if opt.header_bits > 0 {
@@ -446,7 +453,7 @@ where R: Read + Seek, W: Write + Seek {
                         }
                         coder.put_chunk(&codes,opt,&mut writer)?;
                         log::debug!("last chunk has {} codes",codes.len());
-                        writer.seek(SeekFrom::End(0))?; // coder could be rewound
+                        coder.finish(&mut writer)?; // coder could be rewound
                         writer.flush()?;
                         return Ok((expanded_length,writer.stream_position()? - opt.out_offset))
                     },
diff --git a/src/tools/adaptive_huff.rs b/src/tools/adaptive_huff.rs
index 7dbc536..651f0d1 100644
--- a/src/tools/adaptive_huff.rs
+++ b/src/tools/adaptive_huff.rs
@@ -328,6 +328,13 @@ impl AdaptiveHuffmanCoder {
         }
         Ok(())
     }
+    /// move to the end of the bit stream, i.e., past any partial byte that was rewound
+    pub fn finish<W: Write + Seek>(&mut self,writer: &mut BufWriter<W>) -> Result<u64,std::io::Error> {
+        match self.bits.is_empty() {
+            true => writer.stream_position(),
+            false => writer.seek(SeekFrom::Current(1))
+        }
+    }
     pub fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         let mut code: u16 = 0;
         let mut num_bits: u16 = 0;
-- 
2.43.0


From fd71b3769ef905459164c45a0ecd9d34cd4c6959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:03 +0000
Subject: [PATCH 09/20] fix: LZHUF decoder did not count the header in the
 compressed size

---
 src/direct_ports/lzhuf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direct_ports/lzhuf.rs b/src/direct_ports/lzhuf.rs
index e22c999..00d5689 100644
--- a/src/direct_ports/lzhuf.rs
+++ b/src/direct_ports/lzhuf.rs
@@ -738,7 +738,7 @@ pub fn decode<R: Read + Seek , W: Write + Seek>(compressed_in: &mut R, expanded_
 		}
 	}
     writer.flush()?;
-    Ok((huff.count as u64,writer.stream_position()?))
+    Ok((header.len() as u64 + huff.count as u64,writer.stream_position()?))
 }
 
 /// Convenience function, calls `decode` with a slice returning a Vec
-- 
2.43.0


From f956a1aeeab348e142835192b4d0eac6cb929d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:05 +0000
Subject: [PATCH 10/20] fix: LZSS compression panicked if the window was less
 than twice the lookahead

---
 src/lzss_huff.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index 5369fed..2bcbbf0 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -270,7 +270,8 @@ where R: Read + Seek, W: Write + Seek {
             }
         }
     }
-    for _i in 1..=opt.lookahead {
+    // the part of the window behind us can be smaller than the lookahead
+    for _i in 1..=usize::min(opt.lookahead,start_pos) {
         lzss.dictionary.retreat();
         lzss.insert_node()?;
     }
-- 
2.43.0


From b7e8987c0a2931c3f7a79c30879e182853a345eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:43 +0000
Subject: [PATCH 11/20] fix: LZSS output for short files differed from LZHUF.C

LZHUF.C pads its window with zeros until data wraps around, while the ring
buffer exposed the precursor, which leads to other matches being chosen near
the end of files such as 63 spaces.
---
 src/lzss_huff.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index 2bcbbf0..f106709 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -60,7 +60,9 @@ struct LZSS {
     dictionary: RingBuffer<u8>,
     index: Tree,
     match_offset: i32,
-    match_length: usize
+    match_length: usize,
+    /// how many symbols were written since the window first became full
+    wrapped: usize
 }
 
 impl LZSS {
@@ -72,7 +74,17 @@ impl LZSS {
             dictionary,
             index,
             match_offset: 0,
-            match_length: 0
+            match_length: 0,
+            wrapped: 0
+        }
+    }
+    /// Symbol to compare when searching for a match, `pos` can run past the end of the window.
+    /// `LZHUF.C` pads the window with 0 until there is data, which affects the choice among
+    /// equivalent matches near the end of a short file.
+    fn symbol_at(&self,pos: usize) -> u8 {
+        match pos >= self.opt.window_size + self.wrapped {
+            true => 0,
+            false => self.dictionary.get_abs(pos)
         }
     }
     /// This finds a match to the symbol run starting at position `pos`.
@@ -103,7 +115,7 @@ impl LZSS {
             // upon exiting this loop, `i` will have the number of matched symbols,
             // and `cmp` will have the difference in first mismatched symbol values.
             while i < self.opt.lookahead {
-                cmp = self.dictionary.get(i as i64) as i16 - self.dictionary.get_abs(curs+i) as i16;
+                cmp = self.symbol_at(pos+i) as i16 - self.symbol_at(curs+i) as i16;
                 if cmp != 0 {
                     break;
                 }
@@ -299,6 +311,7 @@ where R: Read + Seek, W: Write + Seek {
             };
             lzss.delete_node(opt.lookahead as i64)?;
             lzss.dictionary.set(opt.lookahead as i64,c);
+            lzss.wrapped += 1;
             lzss.dictionary.advance();
             lzss.insert_node()?;
             i += 1;
-- 
2.43.0


From a749960be2c68d5d9c213cfeb1b1906d9f8d01b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:52 +0000
Subject: [PATCH 12/20] fix: Huffman codes longer than 16 bits were written
 wrong

Strongly skewed data leads to codes of up to 20 or so bits, the leading bits
of which were shifted out of the u16, corrupting the compressed stream.
---
 src/direct_ports/lzhuf.rs  | 12 ++++++------
 src/tools/adaptive_huff.rs | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/direct_ports/lzhuf.rs b/src/direct_ports/lzhuf.rs
index 00d5689..56acd91 100644
--- a/src/direct_ports/lzhuf.rs
+++ b/src/direct_ports/lzhuf.rs
@@ -519,9 +519,9 @@ impl AdaptiveHuffman {
     }
     /// output `num_bits` of `code` starting from the MSB, unlike LZHUF.C the bits are always
     /// written to the output stream (sometimes backing up and rewriting)
-    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
+    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u32,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         for _i in 0..num_bits {
-            self.bits.push(code & 0x8000 > 0);
+            self.bits.push(code & 0x8000_0000 > 0);
             code <<= 1;
             self.ptr += 1;
         }
@@ -545,7 +545,7 @@ impl AdaptiveHuffman {
         }
     }
     fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
-        let mut i: u16 = 0;
+        let mut i: u32 = 0; // codes can be longer than 16 bits
         let mut j: u16 = 0;
         let mut k: usize = self.prnt[c as usize + TAB_SIZE];
         // travel from leaf to root
@@ -553,7 +553,7 @@ impl AdaptiveHuffman {
             i >>= 1;
             // if node's address is odd-numbered, choose bigger brother node
             if k & 1 > 0 {
-                i += 0x8000;
+                i += 0x8000_0000;
             }
             j += 1;
             k = self.prnt[k];
@@ -568,9 +568,9 @@ impl AdaptiveHuffman {
     fn encode_position<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         // upper 6 bits come from table
         let i = (c >> 6) as usize;
-        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u16) << 8,writer)?;
+        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u32) << 24,writer)?;
         // lower 6 bits verbatim
-        self.put_code(6,(c & 0x3f) << 10,writer)
+        self.put_code(6,((c & 0x3f) as u32) << 26,writer)
     }
     fn decode_char<R: Read>(&mut self,bytes: &mut Bytes<R>) -> Result<i16,std::io::Error> {
         let mut c: usize = self.son[ROOT];
diff --git a/src/tools/adaptive_huff.rs b/src/tools/adaptive_huff.rs
index 651f0d1..0fff644 100644
--- a/src/tools/adaptive_huff.rs
+++ b/src/tools/adaptive_huff.rs
@@ -310,9 +310,9 @@ impl AdaptiveHuffmanCoder {
     }
     /// output `num_bits` of `code` starting from the MSB, unlike LZHUF.C the bits are always
     /// written to the output stream (sometimes backing up and rewriting)
-    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
+    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u32,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         for _i in 0..num_bits {
-            self.bits.push(code & 0x8000 > 0);
+            self.bits.push(code & 0x8000_0000 > 0);
             code <<= 1;
             self.ptr += 1;
         }
@@ -336,7 +336,7 @@ impl AdaptiveHuffmanCoder {
         }
     }
     pub fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
-        let mut code: u16 = 0;
+        let mut code: u32 = 0; // codes can be longer than 16 bits
         let mut num_bits: u16 = 0;
         let mut curr_node: usize = self.tree.symb_map[c as usize];
         // This is the Huffman scheme: going from leaf to root, add a 0 bit if we
@@ -344,7 +344,7 @@ impl AdaptiveHuffmanCoder {
         loop {
             code >>= 1;
             // if node's address is odd-numbered, we are coming from the right
-            code += (curr_node as u16 & 1) << 15;
+            code += (curr_node as u32 & 1) << 31;
             num_bits += 1;
             curr_node = self.tree.parent[curr_node];
             if curr_node==self.tree.root {
@@ -358,9 +358,9 @@ impl AdaptiveHuffmanCoder {
     pub fn encode_position<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         // upper 6 bits come from table
         let i = (c >> 6) as usize;
-        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u16) << 8,writer)?;
+        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u32) << 24,writer)?;
         // lower 6 bits verbatim
-        self.put_code(6,(c & 0x3f) << 10,writer)
+        self.put_code(6,((c & 0x3f) as u32) << 26,writer)
     }
 }
 
-- 
2.43.0


From f8f4dd7afbb64ccf4410c387200b0b3080f9109d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 13/20] fix: converting a file in place could overwrite input
 before it was read

With the same file as input and output the output overtakes the input if the
data grows, e.g. LZW compression of 9000 random bytes, and the result is
silently wrong.
---
 src/main.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index f44b9d7..2ca9b93 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,7 +1,11 @@
 use clap::{arg,crate_version,Command};
 use retrocompressor::{lzw,lzss_huff, td0, direct_ports};
+use std::io::{Read,Seek};
 type STDRESULT = Result<(),Box<dyn std::error::Error>>;
 
+trait ReadSeek: Read + Seek {}
+impl<T: Read + Seek> ReadSeek for T {}
+
 const RCH: &str = "unreachable was reached";
 
 fn ok_to_overwrite(path_out: &str) -> bool {
@@ -18,6 +22,16 @@ fn ok_to_overwrite(path_out: &str) -> bool {
     true
 }
 
+/// Open the input file.  If the output would go to the same file the input is
+/// read into memory first, otherwise it could be overwritten before it is used.
+fn open_input(path_in: &str,path_out: &str) -> Result<Box<dyn ReadSeek>,std::io::Error> {
+    let in_file = std::fs::File::open(path_in)?;
+    match (std::fs::canonicalize(path_in),std::fs::canonicalize(path_out)) {
+        (Ok(a),Ok(b)) if a==b => Ok(Box::new(std::io::Cursor::new(std::fs::read(path_in)?))),
+        _ => Ok(Box::new(in_file))
+    }
+}
+
 fn main() -> STDRESULT
 {
     env_logger::Builder::from_env(env_logger::Env::default().default_filter_or("warn")).init();
@@ -56,7 +70,7 @@ Expand:        `retrocompressor expand -m lzss_huff -i my_expanded -o my_compres
             eprintln!("abort operation");
             return Ok(());
         }
-        let mut in_file = std::fs::File::open(path_in)?;
+        let mut in_file = open_input(path_in,path_out)?;
         let mut out_file = std::fs::OpenOptions::new().write(true).truncate(false).create(true).open(path_out)?;
         let (in_size,out_size) = match method.as_str() {
             "lzw" => lzw::compress(&mut in_file,&mut out_file,&lzw::STD_OPTIONS)?,
@@ -80,7 +94,7 @@ Expand:        `retrocompressor expand -m lzss_huff -i my_expanded -o my_compres
             eprintln!("abort operation");
             return Ok(());
         }
-        let mut in_file = std::fs::File::open(path_in)?;
+        let mut in_file = open_input(path_in,path_out)?;
         let mut out_file = std::fs::OpenOptions::new().write(true).truncate(false).create(true).open(path_out)?;
         let (in_size,out_size) = match method.as_str() {
             "lzw" => lzw::expand(&mut in_file,&mut out_file,&lzw::STD_OPTIONS)?,
-- 
2.43.0


From c368eb4d45dc58fdd96d76cfc826e75837b35c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:23 +0000
Subject: [PATCH 14/20] fix: an existing file that cannot be read was
 overwritten without asking

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 2ca9b93..6c119b6 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -9,7 +9,7 @@ impl<T: Read + Seek> ReadSeek for T {}
 const RCH: &str = "unreachable was reached";
 
 fn ok_to_overwrite(path_out: &str) -> bool {
-    if let Ok(_f) = std::fs::File::open(path_out) {
+    if std::path::Path::new(path_out).exists() {
         let mut ans = String::new();
         eprint!("{} exists, overwrite? (y/n) ",path_out);
         std::io::stdin().read_line(&mut ans).expect("could not read stdin");
-- 
2.43.0


From aafc5527ab9a2bc9ecc0d95b8ca824751a0741b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:38 +0000
Subject: [PATCH 15/20] fix: LZSS expansion without a header stopped silently
 after 2^32-1 bytes

---
 src/lzss_huff.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index f106709..937801a 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -353,9 +353,9 @@ where R: Read + Seek, W: Write + Seek {
         true => {
             let mut header: [u8;4] = [0;4];
             reader.read_exact(&mut header)?;
-            u32::from_le_bytes(header)
+            u32::from_le_bytes(header) as u64
         }
-       false => u32::MAX
+       false => u64::MAX - opt.out_offset
     };
     // init
     let mut huff = AdaptiveHuffmanDecoder::create(256 + opt.lookahead - opt.threshold);
@@ -366,7 +366,7 @@ where R: Read + Seek, W: Write + Seek {
     }
     lzss.dictionary.set_pos(start_pos);
     // start expanding
-	while writer.stream_position()? < opt.out_offset + max_expanded_size as u64 {
+	while writer.stream_position()? < opt.out_offset + max_expanded_size {
 		let c = match huff.decode_char(&mut reader) {
             Ok(c) => c,
             Err(e) if e.kind()==ErrorKind::UnexpectedEof => break,
-- 
2.43.0


From 1ce64e40bce6ae3e6e6647927823eaf0d987352e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:38 +0000
Subject: [PATCH 16/20] fix: LZSS compression with a header refuses inputs
 whose length the header cannot hold

---
 src/lzss_huff.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index 937801a..492e596 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -242,7 +242,8 @@ where R: Read + Seek, W: Write + Seek {
     let mut reader = BufReader::new(expanded_in);
     let mut writer = BufWriter::new(compressed_out);
     let expanded_length = reader.seek(SeekFrom::End(0))? - opt.in_offset;
-    if expanded_length > opt.max_file_size {
+    // the header cannot express a length of more than 32 bits
+    if expanded_length > opt.max_file_size || opt.header && expanded_length > u32::MAX as u64 {
         return Err(Box::new(crate::Error::FileTooLarge));
     }
     reader.seek(SeekFrom::Start(opt.in_offset))?;
-- 
2.43.0


From efb62117f42694135df23a9197de41d9709f13a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:38 +0000
Subject: [PATCH 17/20] fix: converting onto another name (hard link) of the
 input overwrote it before it was read

---
 src/main.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 6c119b6..b255625 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -26,9 +26,27 @@ fn ok_to_overwrite(path_out: &str) -> bool {
 /// read into memory first, otherwise it could be overwritten before it is used.
 fn open_input(path_in: &str,path_out: &str) -> Result<Box<dyn ReadSeek>,std::io::Error> {
     let in_file = std::fs::File::open(path_in)?;
-    match (std::fs::canonicalize(path_in),std::fs::canonicalize(path_out)) {
-        (Ok(a),Ok(b)) if a==b => Ok(Box::new(std::io::Cursor::new(std::fs::read(path_in)?))),
-        _ => Ok(Box::new(in_file))
+    match same_file(path_in,path_out) {
+        true => Ok(Box::new(std::io::Cursor::new(std::fs::read(path_in)?))),
+        false => Ok(Box::new(in_file))
+    }
+}
+
+/// whether two paths lead to the same file, also if it has several names
+#[cfg(unix)]
+fn same_file(path1: &str,path2: &str) -> bool {
+    use std::os::unix::fs::MetadataExt;
+    match (std::fs::metadata(path1),std::fs::metadata(path2)) {
+        (Ok(a),Ok(b)) => a.dev()==b.dev() && a.ino()==b.ino(),
+        _ => false
+    }
+}
+
+#[cfg(not(unix))]
+fn same_file(path1: &str,path2: &str) -> bool {
+    match (std::fs::canonicalize(path1),std::fs::canonicalize(path2)) {
+        (Ok(a),Ok(b)) => a==b,
+        _ => false
     }
 }
 
-- 
2.43.0


From 3ca4c0263c0b91799567f967f514bd514e73522a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:28 +0000
Subject: [PATCH 18/20] fix: TD0 conversion put header and body in different
 places if a stream was not at its start

---
 src/td0.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/td0.rs b/src/td0.rs
index 2a3c41e..f06d08d 100644
--- a/src/td0.rs
+++ b/src/td0.rs
@@ -11,7 +11,7 @@
 //! Some decoders count on this padding to correctly decode the last symbol.
 //! The aforementioned issue does not apply to v1.x (LZW) compression.
 
-use std::io::{Cursor,Read,Write,Seek};
+use std::io::{Cursor,Read,Write,Seek,SeekFrom};
 use crate::DYNERR;
 use crate::lzss_huff;
 use crate::lzw;
@@ -64,6 +64,7 @@ pub const TD_V2_OPTIONS: lzss_huff::Options = lzss_huff::Options {
 pub fn expand<R,W>(compressed_in: &mut R, expanded_out: &mut W) -> Result<(u64,u64),DYNERR>
 where R: Read + Seek, W: Write + Seek {
     let mut td_header: [u8;12] = [0;12];
+    compressed_in.seek(SeekFrom::Start(0))?;
     compressed_in.read_exact(&mut td_header)?;
     if &td_header[0..2] != "td".as_bytes() {
         return Err(Box::new(crate::Error::FileFormatMismatch))
@@ -75,6 +76,7 @@ where R: Read + Seek, W: Write + Seek {
     td_header[0..2].copy_from_slice("TD".as_bytes());
     let crc = u16::to_le_bytes(crc16(0,&td_header[0..10]));
     td_header[10..12].copy_from_slice(&crc);
+    expanded_out.seek(SeekFrom::Start(0))?;
     expanded_out.write_all(&td_header)?;
     // Dunfield's notes suggest looking at nibble values, but we find it is the decimal digits that count
     if td_header[4] < 20 {
@@ -92,6 +94,7 @@ where R: Read + Seek, W: Write + Seek {
 pub fn compress<R,W>(expanded_in: &mut R, compressed_out: &mut W) -> Result<(u64,u64),DYNERR>
 where R: Read + Seek, W: Write + Seek {
     let mut td_header: [u8;12] = [0;12];
+    expanded_in.seek(SeekFrom::Start(0))?;
     expanded_in.read_exact(&mut td_header)?;
     if &td_header[0..2] != "TD".as_bytes() {
         return Err(Box::new(crate::Error::FileFormatMismatch))
@@ -103,6 +106,7 @@ where R: Read + Seek, W: Write + Seek {
     td_header[0..2].copy_from_slice("td".as_bytes());
     let crc = u16::to_le_bytes(crc16(0,&td_header[0..10]));
     td_header[10..12].copy_from_slice(&crc);
+    compressed_out.seek(SeekFrom::Start(0))?;
     compressed_out.write_all(&td_header)?;
     // Dunfield's notes suggest looking at nibble values, but we find it is the decimal digits that count
     if td_header[4] < 20 {
-- 
2.43.0


From 8ffa4241bca11f9d782906b9134e05ba175a185a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:28 +0000
Subject: [PATCH 19/20] fix: LZHUF port cut the expansion and reported wrong
 sizes if the output was not at its start

---
 src/direct_ports/lzhuf.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/direct_ports/lzhuf.rs b/src/direct_ports/lzhuf.rs
index 56acd91..f9cc74c 100644
--- a/src/direct_ports/lzhuf.rs
+++ b/src/direct_ports/lzhuf.rs
@@ -603,6 +603,7 @@ impl AdaptiveHuffman {
 pub fn encode<R: Read + Seek, W: Write + Seek>(expanded_in: &mut R, compressed_out: &mut W) -> Result<(u64,u64),DYNERR> {
     let mut reader = BufReader::new(expanded_in);
     let mut writer = BufWriter::new(compressed_out);
+    let start = writer.stream_position()?;
     // write the 32-bit header with length of expanded data
     let expanded_length = reader.seek(SeekFrom::End(0))?;
     if expanded_length >= u32::MAX as u64 {
@@ -614,7 +615,7 @@ pub fn encode<R: Read + Seek, W: Write + Seek>(expanded_in: &mut R, compressed_o
     // nothing to encode, the header is all there is
     if expanded_length == 0 {
         writer.flush()?;
-        return Ok((0,writer.stream_position()?));
+        return Ok((0,writer.stream_position()? - start));
     }
     // init
     let mut bytes = reader.bytes();
@@ -695,7 +696,7 @@ pub fn encode<R: Read + Seek, W: Write + Seek>(expanded_in: &mut R, compressed_o
     }
     huff.finish(&mut writer)?; // coder could be rewound
     writer.flush()?;
-    Ok((expanded_length,writer.stream_position()?))
+    Ok((expanded_length,writer.stream_position()? - start))
 }
 
 /// Main decompression function.
@@ -704,6 +705,7 @@ pub fn decode<R: Read + Seek , W: Write + Seek>(compressed_in: &mut R, expanded_
 {
     let mut reader = BufReader::new(compressed_in);
     let mut writer = BufWriter::new(expanded_out);
+    let start = writer.stream_position()?;
     // get size of expanded data from 32 bit header
     let mut header: [u8;4] = [0;4];
     reader.read_exact(&mut header)?;
@@ -718,7 +720,7 @@ pub fn decode<R: Read + Seek , W: Write + Seek>(compressed_in: &mut R, expanded_
     }
 	let mut r = WIN_SIZE - LOOKAHEAD;
     // start expanding
-	while writer.stream_position()? < textsize as u64 {
+	while writer.stream_position()? < start + textsize as u64 {
 		let c = huff.decode_char(&mut bytes)?;
 		if c < 256 {
             writer.write(&[c as u8])?;
@@ -738,7 +740,7 @@ pub fn decode<R: Read + Seek , W: Write + Seek>(compressed_in: &mut R, expanded_
 		}
 	}
     writer.flush()?;
-    Ok((header.len() as u64 + huff.count as u64,writer.stream_position()?))
+    Ok((header.len() as u64 + huff.count as u64,writer.stream_position()? - start))
 }
 
 /// Convenience function, calls `decode` with a slice returning a Vec
-- 
2.43.0


From 5abf19fe6dd317804169761c08d31d735db757dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 20/20] fix: LZW expansion panicked if a chunk header of 62
 bits or more declared too much

---
 src/lzw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lzw.rs b/src/lzw.rs
index 6b39704..1a5920d 100644
--- a/src/lzw.rs
+++ b/src/lzw.rs
@@ -512,7 +512,7 @@ where R: Read + Seek, W: Write + Seek {
             num_bits => {
                 log::debug!("read length of chunk");
                 match decoder.get_code(num_bits,&mut reader) {
-                    Ok(code) => opt.header_divisor * code,
+                    Ok(code) => opt.header_divisor.saturating_mul(code),
                     Err(e) if e.kind()==ErrorKind::UnexpectedEof => {
                         break;
                     },
-- 
2.43.0

