From 537f56bbfd61c95c522d093e5892a1997e6b2187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 01/46] fix: address arithmetic wraps around instead of
 overflowing

char+, cell+, cells, float+, floats, aligned, faligned and allot panicked
on arithmetic overflow in builds with overflow checks.
---
 src/core.rs   | 8 +++++---
 src/float.rs  | 6 ++++--
 src/memory.rs | 8 ++++----
 3 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 7b1c475..89b085a 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -2460,7 +2460,7 @@ pub trait Core: Sized {
     ///Add the size in address units of a character to `c-addr1`, giving `c-addr2`.
     fn char_plus(&mut self) {
         let v = self.s_stack().pop();
-        self.s_stack().push(v + mem::size_of::<u8>() as isize);
+        self.s_stack().push(v.wrapping_add(mem::size_of::<u8>() as isize));
     }
 
     /// Run-time: ( a-addr1 -- a-addr2 )
@@ -2468,7 +2468,8 @@ pub trait Core: Sized {
     /// Add the size in address units of a cell to `a-addr1`, giving `a-addr2`.
     fn cell_plus(&mut self) {
         let v = self.s_stack().pop();
-        self.s_stack().push(v + mem::size_of::<isize>() as isize);
+        self.s_stack()
+            .push(v.wrapping_add(mem::size_of::<isize>() as isize));
     }
 
     /// Run-time: ( n1 -- n2 )
@@ -2476,7 +2477,8 @@ pub trait Core: Sized {
     /// `n2` is the size in address units of `n1` cells.
     fn cells(&mut self) {
         let v = self.s_stack().pop();
-        self.s_stack().push(v * mem::size_of::<isize>() as isize);
+        self.s_stack()
+            .push(v.wrapping_mul(mem::size_of::<isize>() as isize));
     }
 
     fn swap(&mut self) {
diff --git a/src/float.rs b/src/float.rs
index e52b370..9132710 100644
--- a/src/float.rs
+++ b/src/float.rs
@@ -74,7 +74,8 @@ pub trait Float: Core {
     /// Add the size in address units of a float to `a-addr1`, giving `a-addr2`.
     fn float_plus(&mut self) {
         let v = self.s_stack().pop();
-        self.s_stack().push(v + mem::size_of::<f64>() as isize);
+        self.s_stack()
+            .push(v.wrapping_add(mem::size_of::<f64>() as isize));
     }
 
     /// Run-time: ( n1 -- n2 )
@@ -82,7 +83,8 @@ pub trait Float: Core {
     /// `n2` is the size in address units of `n1` floats.
     fn floats(&mut self) {
         let v = self.s_stack().pop();
-        self.s_stack().push(v * mem::size_of::<f64>() as isize);
+        self.s_stack()
+            .push(v.wrapping_mul(mem::size_of::<f64>() as isize));
     }
 
     /// Run-time: ( addr -- a-addr )
diff --git a/src/memory.rs b/src/memory.rs
index 61f3cc4..536efd2 100644
--- a/src/memory.rs
+++ b/src/memory.rs
@@ -268,7 +268,7 @@ pub trait Memory {
     /// First aligned address greater than or equal to `pos`.
     fn aligned(pos: usize) -> usize {
         let align = mem::align_of::<isize>();
-        (pos + align - 1) & align.wrapping_neg()
+        pos.wrapping_add(align - 1) & align.wrapping_neg()
     }
 
     /// If the data-space pointer is not aligned, reserve enough space to align it.
@@ -280,7 +280,7 @@ pub trait Memory {
     /// First float-aligned address greater than or equal to `pos`.
     fn aligned_f64(pos: usize) -> usize {
         let align = mem::align_of::<f64>();
-        (pos + align - 1) & align.wrapping_neg()
+        pos.wrapping_add(align - 1) & align.wrapping_neg()
     }
 
     /// If the data-space pointer is not float-aligned, reserve enough space to align it.
@@ -292,7 +292,7 @@ pub trait Memory {
     /// First address aligned to 16-byte boundary greater than or equal to `pos`.
     fn aligned_16bytes(pos: usize) -> usize {
         let align = 16;
-        (pos + align - 1) & align.wrapping_neg()
+        pos.wrapping_add(align - 1) & align.wrapping_neg()
     }
 
     /// If the space pointer is not aligned to 16-byte boundary, reserve enough space to align it.
@@ -302,7 +302,7 @@ pub trait Memory {
     }
 
     fn allot(&mut self, v: isize) {
-        let here = (self.here() as isize + v) as usize;
+        let here = (self.here() as isize).wrapping_add(v) as usize;
         self.set_here(here);
     }
 
-- 
2.43.0


From f6ebb68254737e6d2680fb20a2b255eb85ea8621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 02/46] fix: the smallest integer is an invalid task number,
 not an overflow

---
 src/core.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 89b085a..f1c2a3b 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1627,7 +1627,7 @@ pub trait Core: Sized {
     }
 
     fn activate(&mut self) {
-        let i = (self.s_stack().pop() - 1) as usize;
+        let i = self.s_stack().pop().wrapping_sub(1) as usize;
         if i < NUM_TASKS {
             // Wake task `i`.
             self.set_awake(i, true);
@@ -3227,7 +3227,7 @@ pub trait Core: Sized {
 
     /// Suspend task `i`. `suspend ( i -- )`
     fn suspend(&mut self) {
-        let i = (self.s_stack().pop() - 1) as usize;
+        let i = self.s_stack().pop().wrapping_sub(1) as usize;
         if i < NUM_TASKS {
             self.set_awake(i as usize, false);
         } else {
@@ -3237,7 +3237,7 @@ pub trait Core: Sized {
 
     /// Resume task `i`. `resume ( i -- )`
     fn resume(&mut self) {
-        let i = (self.s_stack().pop() - 1) as usize;
+        let i = self.s_stack().pop().wrapping_sub(1) as usize;
         if i < NUM_TASKS {
             self.set_awake(i as usize, true);
         } else {
-- 
2.43.0


From 41ab4e7d119bf86ad750330e860c3afc9ec34a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 03/46] fix: i and j outside a loop do not overflow the stack
 index

---
 src/core.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index f1c2a3b..f634418 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1079,9 +1079,9 @@ pub trait Core: Sized {
     }
 
     fn p_j(&mut self) {
-        let pos = self.r_stack().len() - 4;
+        let pos = self.r_stack().len().wrapping_sub(4);
         match self.r_stack().get(pos) {
-            Some(jt) => match self.r_stack().get(pos - 1) {
+            Some(jt) => match self.r_stack().get(pos.wrapping_sub(1)) {
                 Some(jn) => {
                     self.s_stack().push(jt.wrapping_add(jn));
                 }
@@ -1651,7 +1651,7 @@ pub trait Core: Sized {
     fn p_i(&mut self) {
         match self.r_stack().last() {
             Some(it) => {
-                let next = self.r_stack().len - 2;
+                let next = self.r_stack().len.wrapping_sub(2);
                 match self.r_stack().get(next) {
                     Some(inext) => {
                         self.s_stack().push(it.wrapping_add(inext));
-- 
2.43.0


From ea99298181987a43d78d0cfadf09e96babcba81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 04/46] fix: range checks of memory and file words do not
 overflow

@ ! move !token and the file words added the length to the address before
comparing, so that an address or length near the end of the address space
panicked, or in builds without overflow checks passed the test.
---
 src/core.rs        | 23 +++++++++++------------
 src/file_access.rs | 12 +++++-------
 src/memory.rs      |  5 +++++
 3 files changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index f634418..01b53b0 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -2011,7 +2011,12 @@ pub trait Core: Sized {
     /// Store token in counted string at `c-addr`.`
     fn store_token(&mut self) {
         let c_addr = self.s_stack().pop() as usize;
-        if self.data_space().start() <= c_addr {
+        // `put_cstr` wants room for a cell in addition to the characters.
+        let len = match self.last_token().as_ref() {
+            Some(t) => t.len().min(255) + mem::size_of::<usize>(),
+            None => 1,
+        };
+        if self.data_space().has_range(c_addr, len) {
             match self.last_token().take() {
                 Some(mut t) => {
                     self.data_space().put_cstr(&t, c_addr);
@@ -2019,11 +2024,7 @@ pub trait Core: Sized {
                     self.set_last_token(t);
                 }
                 None => unsafe {
-                    if c_addr < self.data_space().limit() {
-                        self.data_space().put_u8(0, c_addr);
-                    } else {
-                        panic!("Error: store_token while space is full.");
-                    }
+                    self.data_space().put_u8(0, c_addr);
                 },
             }
         } else {
@@ -2782,8 +2783,7 @@ pub trait Core: Sized {
     /// `x` is the value stored at `a-addr`.
     fn fetch(&mut self) {
         let t = self.s_stack().pop() as usize;
-        if self.data_space().start() < t && t + mem::size_of::<isize>() <= self.data_space().limit()
-        {
+        if self.data_space().start() < t && self.data_space().has_range(t, mem::size_of::<isize>()) {
             let value = unsafe { self.data_space().get_isize(t as usize) as isize };
             self.s_stack().push(value);
         } else {
@@ -2797,8 +2797,7 @@ pub trait Core: Sized {
     fn store(&mut self) {
         let (n, t) = self.s_stack().pop2();
         let t = t as usize;
-        if self.data_space().start() < t && t + mem::size_of::<isize>() <= self.data_space().limit()
-        {
+        if self.data_space().start() < t && self.data_space().has_range(t, mem::size_of::<isize>()) {
             unsafe { self.data_space().put_isize(n as isize, t as usize) };
         } else {
             self.abort_with(INVALID_MEMORY_ADDRESS);
@@ -2848,9 +2847,9 @@ pub trait Core: Sized {
             let addr1 = addr1 as usize;
             let addr2 = addr2 as usize;
             if self.data_space().start() < addr1
-                && addr1 + u <= self.data_space().limit()
+                && self.data_space().has_range(addr1, u)
                 && self.data_space().start() < addr2
-                && addr2 + u <= self.data_space().limit()
+                && self.data_space().has_range(addr2, u)
             {
                 unsafe {
                     if addr1 < addr2 {
diff --git a/src/file_access.rs b/src/file_access.rs
index a36810f..78261db 100644
--- a/src/file_access.rs
+++ b/src/file_access.rs
@@ -177,7 +177,7 @@ pub trait FileAccess: Core {
             }
         };
         let file = {
-            if self.data_space().start() <= caddr && caddr + u <= self.data_space().limit() {
+            if self.data_space().has_range(caddr, u) {
                 let path_name = unsafe { self.data_space().str_from_raw_parts(caddr, u) };
                 match options.open(&path_name) {
                     Err(_) => Err(FILE_IO_EXCEPTION),
@@ -220,7 +220,7 @@ pub trait FileAccess: Core {
             self.s_stack().push2(-1, INVALID_NUMERIC_ARGUMENT.into());
         } else {
             let result = {
-                if self.data_space().start() <= caddr && caddr + u <= self.data_space().limit() {
+                if self.data_space().has_range(caddr, u) {
                     let path_name = unsafe { self.data_space().str_from_raw_parts(caddr, u) };
                     match fs::remove_file(path_name) {
                         Err(_) => FILE_IO_EXCEPTION.into(),
@@ -269,7 +269,7 @@ pub trait FileAccess: Core {
             }
         };
         let file = {
-            if self.data_space().start() <= caddr && caddr + u <= self.data_space().limit() {
+            if self.data_space().has_range(caddr, u) {
                 let path_name = unsafe { self.data_space().str_from_raw_parts(caddr, u) };
                 match options.open(&path_name) {
                     Err(_) => Err(FILE_IO_EXCEPTION),
@@ -341,7 +341,7 @@ pub trait FileAccess: Core {
         } else {
             let mut file = self.files_mut()[fileid].take().unwrap();
             let result = {
-                if self.data_space().start() <= caddr && caddr + u1 <= self.data_space().limit() {
+                if self.data_space().has_range(caddr, u1) {
                     let mut buf = unsafe { self.data_space().buffer_from_raw_parts_mut(caddr, u1) };
                     file.read(&mut buf).or(Err(FILE_IO_EXCEPTION.into()))
                 } else {
@@ -383,9 +383,7 @@ pub trait FileAccess: Core {
             match self.files_mut()[fileid].take() {
                 Some(mut f) => {
                     let result = {
-                        if self.data_space().start() <= caddr
-                            && caddr + u <= self.data_space().limit()
-                        {
+                        if self.data_space().has_range(caddr, u) {
                             let buf = unsafe {
                                 self.data_space().buffer_from_raw_parts(caddr as _, u as _)
                             };
diff --git a/src/memory.rs b/src/memory.rs
index 536efd2..f87a4e2 100644
--- a/src/memory.rs
+++ b/src/memory.rs
@@ -118,6 +118,11 @@ pub trait Memory {
         self.start() <= pos && pos < self.limit()
     }
 
+    /// Does memory contain the `len` bytes starting at address `pos`?
+    fn has_range(&self, pos: usize, len: usize) -> bool {
+        self.start() <= pos && pos <= self.limit() && len <= self.limit() - pos
+    }
+
     /// Next free space
     fn here(&self) -> usize;
 
-- 
2.43.0


From 23a69f7b2b842e4da30012269dce0102cb006fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 05/46] fix: type refuses characters outside the data space

---
 src/output.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/output.rs b/src/output.rs
index feece3d..52a1f66 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -1,7 +1,7 @@
 //! Words output to console
 
 use core::Core;
-use exception::{STACK_UNDERFLOW, UNSUPPORTED_OPERATION};
+use exception::{INVALID_MEMORY_ADDRESS, STACK_UNDERFLOW, UNSUPPORTED_OPERATION};
 use memory::Memory;
 use std::fmt::Write;
 
@@ -54,6 +54,13 @@ pub trait Output: Core {
             self.abort_with(STACK_UNDERFLOW);
             return;
         }
+        if len == 0 {
+            return;
+        }
+        if !self.data_space().has_range(addr as usize, len as usize) {
+            self.abort_with(INVALID_MEMORY_ADDRESS);
+            return;
+        }
         match self.output_buffer().take() {
             Some(mut buffer) => {
                 {
-- 
2.43.0


From 9ed7a4fcb670d5c0935bc18351c3b025c298f354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 06/46] fix: cells and floats may be accessed at unaligned
 addresses

here 1 + @ or a definition after c, ended in a misaligned pointer
dereference.
---
 src/memory.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/memory.rs b/src/memory.rs
index f87a4e2..f09e768 100644
--- a/src/memory.rs
+++ b/src/memory.rs
@@ -4,6 +4,7 @@ use exception::{Exception, INVALID_MEMORY_ADDRESS};
 use std::alloc::{alloc_zeroed, dealloc, Layout};
 use std::marker;
 use std::mem;
+use std::ptr;
 use std::slice;
 
 pub struct SystemVariables {
@@ -134,15 +135,15 @@ pub trait Memory {
     }
 
     unsafe fn get_usize(&self, addr: usize) -> usize {
-        *(addr as *mut usize)
+        ptr::read_unaligned(addr as *const usize)
     }
 
     unsafe fn get_isize(&self, addr: usize) -> isize {
-        *(addr as *mut isize)
+        ptr::read_unaligned(addr as *const isize)
     }
 
     unsafe fn get_f64(&self, addr: usize) -> f64 {
-        *(addr as *mut f64)
+        ptr::read_unaligned(addr as *const f64)
     }
 
     unsafe fn get_str(&self, addr: usize) -> &str {
@@ -183,7 +184,7 @@ pub trait Memory {
     }
 
     unsafe fn put_usize(&mut self, v: usize, pos: usize) {
-        *(pos as *mut usize) = v;
+        ptr::write_unaligned(pos as *mut usize, v);
     }
 
     fn compile_usize(&mut self, v: usize) {
@@ -205,7 +206,7 @@ pub trait Memory {
     }
 
     unsafe fn put_isize(&mut self, v: isize, pos: usize) {
-        *(pos as *mut isize) = v;
+        ptr::write_unaligned(pos as *mut isize, v);
     }
 
     fn compile_isize(&mut self, v: isize) {
@@ -220,7 +221,7 @@ pub trait Memory {
         }
     }
     unsafe fn put_f64(&mut self, v: f64, pos: usize) {
-        *(pos as *mut f64) = v;
+        ptr::write_unaligned(pos as *mut f64, v);
     }
 
     fn compile_f64(&mut self, v: f64) {
-- 
2.43.0


From 2d011b11bbcbfe9e73c0a6e7bc485fdb4bccbb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 07/46] fix: parsing words survive the end of the input and odd
 positions

s" and ." at the end of a line, source-idx! beyond the input or inside a
character, multi-byte delimiters of _skip and parsing in a background
task, which has no input buffer, made the host panic.
---
 src/core.rs   | 25 ++++++++++++++-----------
 src/output.rs | 22 ++++++++++------------
 2 files changed, 24 insertions(+), 23 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 01b53b0..90a8f8b 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1698,8 +1698,7 @@ pub trait Core: Sized {
         let mut last_token = self.last_token().take().expect("token");
         last_token.clear();
         if let Some(input_buffer) = self.input_buffer().take() {
-            if self.state().source_index < input_buffer.len() {
-                let source = &input_buffer[self.state().source_index..];
+            if let Some(source) = input_buffer.get(self.state().source_index..) {
                 let mut cnt = source.len();
                 let mut char_indices = source.char_indices();
                 loop {
@@ -1767,12 +1766,14 @@ pub trait Core: Sized {
     ///
     /// Parse ccc delimited by the delimiter char.
     fn parse(&mut self) {
-        let input_buffer = self.input_buffer().take().expect("input buffer");
         let v = self.s_stack().pop();
         let mut last_token = self.last_token().take().expect("token");
         last_token.clear();
-        {
-            let source = &input_buffer[self.state().source_index..];
+        // A background task has no input buffer.
+        if let Some(input_buffer) = self.input_buffer().take() {
+            let source = input_buffer
+                .get(self.state().source_index..)
+                .unwrap_or_default();
             let mut cnt = source.len();
             let mut char_indices = source.char_indices();
             loop {
@@ -1796,26 +1797,28 @@ pub trait Core: Sized {
                 }
             }
             self.state().source_index = self.state().source_index + cnt;
+            self.set_input_buffer(input_buffer);
         }
         self.set_last_token(last_token);
-        self.set_input_buffer(input_buffer);
     }
 
     /// Run-time: ( char "ccc" -- )
     ///
     /// Skip all of the delimiter char.
     fn _skip(&mut self) {
-        let input_buffer = self.input_buffer().take().expect("input buffer");
         let v = self.s_stack().pop();
-        {
-            let source = &input_buffer[self.state().source_index..];
+        // A background task has no input buffer.
+        if let Some(input_buffer) = self.input_buffer().take() {
+            let source = input_buffer
+                .get(self.state().source_index..)
+                .unwrap_or_default();
             let mut cnt = 0;
             let mut char_indices = source.char_indices();
             loop {
                 match char_indices.next() {
                     Some((idx, ch)) => {
                         if ch as isize == v {
-                            cnt += 1;
+                            cnt += ch.len_utf8();
                         } else {
                             break;
                         }
@@ -1826,8 +1829,8 @@ pub trait Core: Sized {
                 }
             }
             self.state().source_index = self.state().source_index + cnt;
+            self.set_input_buffer(input_buffer);
         }
-        self.set_input_buffer(input_buffer);
     }
 
     fn imm_paren(&mut self) {
diff --git a/src/output.rs b/src/output.rs
index 52a1f66..d021c9e 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -87,25 +87,23 @@ pub trait Output: Core {
     /// Return c-addr and u describing a string consisting of the characters ccc. A program
     /// shall not alter the returned string.
     fn s_quote(&mut self) {
-        let input_buffer = self.input_buffer().take().unwrap();
-        {
-            let source = &input_buffer[self.state().source_index + 1..input_buffer.len()];
-            let s = match source.find('"') {
-                Some(n) => {
-                    &input_buffer[self.state().source_index + 1..self.state().source_index + 1 + n]
-                }
-                None => source,
+        // A background task has no input buffer.
+        if let Some(input_buffer) = self.input_buffer().take() {
+            // ignore the space following S"
+            let start = self.state().source_index.saturating_add(1);
+            let source = input_buffer.get(start..).unwrap_or_default();
+            let (s, next) = match source.find('"') {
+                Some(n) => (&source[..n], start + n + 1),
+                None => (source, input_buffer.len()),
             };
-            let cnt = s.len();
             let idx = self.references().idx_s_quote;
             let compilation_semantics = self.wordlist()[idx].compilation_semantics;
             compilation_semantics(self, idx);
             self.data_space().compile_str(s);
             self.data_space().align();
-            // ignore the space following S"
-            self.state().source_index = self.state().source_index + 1 + cnt as usize + 1;
+            self.state().source_index = next;
+            self.set_input_buffer(input_buffer);
         }
-        self.set_input_buffer(input_buffer);
     }
 
     /// Compilation: ( "ccc<quote>" -- )
-- 
2.43.0


From 77c34e40e2492dca96beac6998506adcc8d79670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 08/46] fix: the inner interpreter stops at any address outside
 the data space

Returning to an address near the end of the address space overflowed.
---
 src/core.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 90a8f8b..1ac248a 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -800,9 +800,7 @@ pub trait Core: Sized {
     #[inline(never)]
     fn run(&mut self) {
         let mut ip = self.state().instruction_pointer;
-        while self.data_space().start() <= ip
-            && ip + mem::size_of::<isize>() <= self.data_space().limit()
-        {
+        while self.data_space().has_range(ip, mem::size_of::<isize>()) {
             let w = unsafe { self.data_space().get_isize(ip) as usize };
             self.state().instruction_pointer += mem::size_of::<isize>();
             self.execute_word(w);
@@ -815,9 +813,7 @@ pub trait Core: Sized {
     // Return true if there are more steps to execute, false if otherwise.
     fn forth(&mut self) -> bool {
         let mut ip = self.state().instruction_pointer;
-        if self.data_space().start() <= ip
-            && ip + mem::size_of::<isize>() <= self.data_space().limit()
-        {
+        if self.data_space().has_range(ip, mem::size_of::<isize>()) {
             let w = unsafe { self.data_space().get_isize(ip) as usize };
             self.state().instruction_pointer += mem::size_of::<isize>();
             self.execute_word(w);
-- 
2.43.0


From a03ef3861db513742cca1b0aeff17bc50d43f8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 09/46] fix: an error handler that does not exist is not
 executed

An invalid handler, or one forgotten by a marker, made every error recurse
until the host ran out of stack.
---
 src/core.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core.rs b/src/core.rs
index 1ac248a..1907d82 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -3197,7 +3197,10 @@ pub trait Core: Sized {
         self.set_error(Some(e));
         let h = self.handler();
         self.state().aborted_word_pointer = self.state().word_pointer;
-        self.execute_word(h);
+        // A handler which does not exist (any more) must not cause another abort.
+        if h < self.wordlist().len() {
+            self.execute_word(h);
+        }
     }
 
     /// Abort the inner loop with an exception, reset VM and clears stacks.
-- 
2.43.0


From c951b1cf763a8794d2abd7c4853c5b47ffcc6415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 10/46] fix: marker and fconstant without a name, and a bad xt
 given to _postpone, only fail

They went on to compile cells into the data space, or panicked.
---
 src/core.rs  | 11 +++++++++--
 src/float.rs |  6 ++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 1907d82..3333e6b 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1890,8 +1890,12 @@ pub trait Core: Sized {
         // --+------+---------+-----------+--
         // Because B comes after A, the xt of A is valid during execution of B.
         let xt = self.s_stack().pop() as usize;
-        let compilation_semantics = self.wordlist()[xt].compilation_semantics;
-        compilation_semantics(self, xt);
+        if xt < self.wordlist().len() {
+            let compilation_semantics = self.wordlist()[xt].compilation_semantics;
+            compilation_semantics(self, xt);
+        } else {
+            self.abort_with(UNSUPPORTED_OPERATION);
+        }
     }
 
     fn compile_token(&mut self) {
@@ -2360,6 +2364,9 @@ pub trait Core: Sized {
         let x = self.wordlist().last;
         self.wordlist_mut().temp_buckets = self.wordlist().buckets;
         self.define(Core::unmark, Core::compile_unmark);
+        if self.last_error().is_some() {
+            return;
+        }
         self.data_space().compile_usize(x);
         for i in 0..BUCKET_SIZE {
             let x = self.wordlist().temp_buckets[i];
diff --git a/src/float.rs b/src/float.rs
index 9132710..ce72901 100644
--- a/src/float.rs
+++ b/src/float.rs
@@ -65,8 +65,10 @@ pub trait Float: Core {
     fn fconstant(&mut self) {
         let v = self.f_stack().pop();
         self.define(Float::p_fconst, Core::compile_fconst);
-        self.data_space().align_f64();
-        self.data_space().compile_f64(v);
+        if self.last_error().is_none() {
+            self.data_space().align_f64();
+            self.data_space().compile_f64(v);
+        }
     }
 
     /// Run-time: ( a-addr1 -- a-addr2 )
-- 
2.43.0


From 2f70baa2bbfcca88b3e866fca43e94f0efe22727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 11/46] fix: execution times of zero and a clock set back are
 measured right

A minimum of zero was taken for no measurement: it was overwritten by the
next one, not listed, and its maximum survived 0xtime. A clock behind t0
or a bad execution token panicked.
---
 src/core.rs  |  6 +++---
 src/tools.rs | 20 +++++++++++---------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 3333e6b..99102da 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -34,9 +34,9 @@ pub struct Word<Target> {
     doer: usize,
     action: fn(&mut Target),
     pub(crate) compilation_semantics: fn(&mut Target, usize),
-    // Minimum execution time in [ns]
+    // Minimum execution time, usize::max_value() if not measured
     pub(crate) min_execution_time: usize,
-    // Maximum execution time in [ns]
+    // Maximum execution time
     pub(crate) max_execution_time: usize,
 }
 
@@ -58,7 +58,7 @@ impl<Target> Word<Target> {
             doer: 0,
             action: action,
             compilation_semantics: compilation_semantics,
-            min_execution_time: 0,
+            min_execution_time: usize::max_value(),
             max_execution_time: 0,
         }
     }
diff --git a/src/tools.rs b/src/tools.rs
index 21ee4d2..e52b430 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -1,5 +1,6 @@
 //! Tools to inspect the rtforth system
 
+use exception::INVALID_NUMERIC_ARGUMENT;
 use memory::Memory;
 use output::Output;
 use std::fmt::Write;
@@ -151,13 +152,14 @@ pub trait Tools: Output {
     /// ```
     fn set_execution_times(&mut self) {
         let (t0, xt) = self.s_stack().pop2();
-        let t = (self.system_time_ns() / 1_000) as usize - t0 as usize;
-        let word = &mut self.wordlist_mut()[xt as usize];
-        if word.min_execution_time != 0 {
-            word.min_execution_time = word.min_execution_time.min(t);
-        } else {
-            word.min_execution_time = t;
+        // The clock may have been set back.
+        let t = ((self.system_time_ns() / 1_000) as usize).saturating_sub(t0 as usize);
+        if xt as usize >= self.wordlist().len() {
+            self.abort_with(INVALID_NUMERIC_ARGUMENT);
+            return;
         }
+        let word = &mut self.wordlist_mut()[xt as usize];
+        word.min_execution_time = word.min_execution_time.min(t);
         word.max_execution_time = word.max_execution_time.max(t);
     }
 
@@ -166,7 +168,7 @@ pub trait Tools: Output {
         if let Some(mut buf) = self.output_buffer().take() {
             let mut counter = 0;
             for w in (1..self.wordlist().len()).rev() {
-                if self.wordlist()[w].min_execution_time > 0 {
+                if self.wordlist()[w].min_execution_time != usize::max_value() {
                     counter += 1;
                     if 1 != counter {
                         write!(buf, "|").unwrap();
@@ -185,8 +187,8 @@ pub trait Tools: Output {
     /// Clear measured execution times. `0xtime( -- )`
     fn clear_xtime(&mut self) {
         for w in (1..self.wordlist().len()).rev() {
-            if self.wordlist()[w].min_execution_time > 0 {
-                self.wordlist_mut()[w].min_execution_time = 0;
+            if self.wordlist()[w].min_execution_time != usize::max_value() {
+                self.wordlist_mut()[w].min_execution_time = usize::max_value();
                 self.wordlist_mut()[w].max_execution_time = 0;
             }
         }
-- 
2.43.0


From 4766bae0ed4507386a00a1ab2f0fcef7933747d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 12/46] fix: .backtrace copes with an aborted word that does
 not exist

---
 src/tools.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools.rs b/src/tools.rs
index e52b430..1f92b73 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -95,7 +95,7 @@ pub trait Tools: Output {
             }
 
             let xt = self.state().aborted_word_pointer;
-            if xt != 0 {
+            if xt != 0 && xt < self.wordlist().len() {
                 let nfa = self.wordlist()[xt].nfa();
                 let name = unsafe { self.data_space().get_str(nfa) };
                 write!(buf, "{} ", name).unwrap();
-- 
2.43.0


From bbe496e04cb8b6e0df801b39d4ba3bf93ea65f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 13/46] fix: very negative field widths of .r and f.r do not
 overflow

---
 src/output.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/output.rs b/src/output.rs
index d021c9e..ddeae1b 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -161,7 +161,7 @@ pub trait Output: Core {
                 }
             }
             if valid_base {
-                for _ in 0..(n2 - self.hold_buffer().len() as isize) {
+                for _ in 0..n2.saturating_sub(self.hold_buffer().len() as isize) {
                     buf.push(' ');
                 }
                 buf.push_str(self.hold_buffer());
@@ -204,7 +204,7 @@ pub trait Output: Core {
                 16 => write!(self.hold_buffer(), "{:.16}", r).unwrap(),
                 _ => write!(self.hold_buffer(), "{:.17}", r).unwrap(),
             }
-            for _ in 0..(n1 - self.hold_buffer().len() as isize) {
+            for _ in 0..n1.saturating_sub(self.hold_buffer().len() as isize) {
                 buf.push(' ');
             }
             buf.push_str(self.hold_buffer());
-- 
2.43.0


From d5bf5d4747e0066087772e16e70d150fe4b82432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:41 +0000
Subject: [PATCH 14/46] fix: read-file reads on after a short or interrupted
 read

It returned fewer characters than the file has, failed when a signal
interrupted it, and did not report characters read before an error.
---
 src/file_access.rs | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/file_access.rs b/src/file_access.rs
index 78261db..2932fa0 100644
--- a/src/file_access.rs
+++ b/src/file_access.rs
@@ -4,7 +4,7 @@ use exception::{
     FILE_IO_EXCEPTION, INVALID_MEMORY_ADDRESS, INVALID_NUMERIC_ARGUMENT, RESULT_OUT_OF_RANGE,
 };
 use std::fs::{self, OpenOptions};
-use std::io::{Read, Seek, SeekFrom, Write};
+use std::io::{ErrorKind, Read, Seek, SeekFrom, Write};
 use Core;
 use Memory;
 
@@ -342,20 +342,28 @@ pub trait FileAccess: Core {
             let mut file = self.files_mut()[fileid].take().unwrap();
             let result = {
                 if self.data_space().has_range(caddr, u1) {
-                    let mut buf = unsafe { self.data_space().buffer_from_raw_parts_mut(caddr, u1) };
-                    file.read(&mut buf).or(Err(FILE_IO_EXCEPTION.into()))
+                    let buf = unsafe { self.data_space().buffer_from_raw_parts_mut(caddr, u1) };
+                    let mut u2 = 0;
+                    let mut ior = 0;
+                    // The operating system may deliver less than asked for.
+                    while u2 < u1 {
+                        match file.read(&mut buf[u2..]) {
+                            Ok(0) => break,
+                            Ok(n) => u2 += n,
+                            Err(ref e) if e.kind() == ErrorKind::Interrupted => {}
+                            Err(_) => {
+                                ior = FILE_IO_EXCEPTION.into();
+                                break;
+                            }
+                        }
+                    }
+                    (u2, ior)
                 } else {
-                    Err(INVALID_MEMORY_ADDRESS.into())
+                    (0, INVALID_MEMORY_ADDRESS.into())
                 }
             };
-            match result {
-                Ok(u2) => {
-                    self.s_stack().push2(u2 as _, 0);
-                }
-                Err(e) => {
-                    self.s_stack().push2(0, e);
-                }
-            }
+            let (u2, ior) = result;
+            self.s_stack().push2(u2 as _, ior);
             self.files_mut()[fileid] = Some(file);
         }
     }
-- 
2.43.0


From 50f722dde75844a07d4dc4d2898e99d8f9b5e681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:41 +0000
Subject: [PATCH 15/46] fix: delete-file leaves one cell when the name is too
 long

---
 src/file_access.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_access.rs b/src/file_access.rs
index 2932fa0..e3790d7 100644
--- a/src/file_access.rs
+++ b/src/file_access.rs
@@ -217,7 +217,7 @@ pub trait FileAccess: Core {
         let caddr = caddr as usize;
         let u = u as usize;
         if u > PATH_NAME_MAX_LEN {
-            self.s_stack().push2(-1, INVALID_NUMERIC_ARGUMENT.into());
+            self.s_stack().push(INVALID_NUMERIC_ARGUMENT.into());
         } else {
             let result = {
                 if self.data_space().has_range(caddr, u) {
-- 
2.43.0


From f969c95e8b464d31e0f494f735be4de3d2ba8440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 16/46] fix: load-line delivers the whole line when tried again
 after a read error

The part of the line read before the error was lost, and its rest was
taken for a line.
---
 src/loader.rs | 49 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/src/loader.rs b/src/loader.rs
index e23754e..73c916a 100644
--- a/src/loader.rs
+++ b/src/loader.rs
@@ -7,10 +7,13 @@ use output::Output;
 use std::fs::File;
 use std::io::BufRead;
 use std::io::BufReader;
+use std::str;
 
 pub struct Source {
     reader: BufReader<File>,
     path: String,
+    // Bytes of the line being read, kept over a read error.
+    partial: Vec<u8>,
 }
 
 pub trait HasLoader: Core + Output {
@@ -46,15 +49,24 @@ pub trait HasLoader: Core + Output {
                     let path = String::from(unsafe {
                         self.data_space().str_from_raw_parts(caddr as _, u as _)
                     });
+                    let partial = Vec::with_capacity(128);
                     match position {
                         Some(sid) => {
-                            self.sources_mut()[sid] = Some(Source { reader, path });
+                            self.sources_mut()[sid] = Some(Source {
+                                reader,
+                                path,
+                                partial,
+                            });
                             self.s_stack().push(sid as isize + 1);
                         }
                         None => {
                             let sid = self.sources().len() as isize;
                             self.s_stack().push(sid as isize + 1);
-                            self.sources_mut().push(Some(Source { reader, path }));
+                            self.sources_mut().push(Some(Source {
+                                reader,
+                                path,
+                                partial,
+                            }));
                             self.lines_mut().push(Some(String::with_capacity(128)));
                         }
                     }
@@ -161,23 +173,30 @@ pub trait HasLoader: Core + Output {
             }
         };
         line.clear();
-        let result = match source.reader.read_line(&mut line) {
-            Ok(len) => {
-                let not_eof = !(len == 0);
-                if line.ends_with('\n') {
-                    line.truncate(len - 1);
-                    if line.ends_with('\r') {
-                        line.truncate(len - 2);
-                        Ok((len - 2, not_eof))
-                    } else {
-                        Ok((len - 1, not_eof))
+        let result = match source.reader.read_until(b'\n', &mut source.partial) {
+            Ok(_) => match str::from_utf8(&source.partial) {
+                Ok(text) => {
+                    let not_eof = !text.is_empty();
+                    line.push_str(text);
+                    if line.ends_with('\n') {
+                        line.pop();
+                        if line.ends_with('\r') {
+                            line.pop();
+                        }
                     }
-                } else {
-                    Ok((len, not_eof))
+                    Ok((line.len(), not_eof))
                 }
+                Err(_) => Err(FILE_IO_EXCEPTION),
+            },
+            // What has been read stays in `partial` so that the line is
+            // complete if loading is tried again.
+            Err(_) => {
+                self.lines_mut()[source_id - 1] = Some(line);
+                self.sources_mut()[source_id - 1] = Some(source);
+                return Err(FILE_IO_EXCEPTION);
             }
-            Err(_) => Err(FILE_IO_EXCEPTION),
         };
+        source.partial.clear();
         self.lines_mut()[source_id - 1] = Some(line);
         self.sources_mut()[source_id - 1] = Some(source);
         result
-- 
2.43.0


From d8fea504123cefcbcd9e705a15a100a2ade05278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 17/46] fix: open-source refuses a path outside the data space

---
 src/loader.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/loader.rs b/src/loader.rs
index 73c916a..3f2767a 100644
--- a/src/loader.rs
+++ b/src/loader.rs
@@ -1,7 +1,9 @@
 //! Source input
 
 use core::Core;
-use exception::{Exception, FILE_IO_EXCEPTION, INVALID_NUMERIC_ARGUMENT};
+use exception::{
+    Exception, FILE_IO_EXCEPTION, INVALID_MEMORY_ADDRESS, INVALID_NUMERIC_ARGUMENT,
+};
 use memory::Memory;
 use output::Output;
 use std::fs::File;
@@ -41,7 +43,9 @@ pub trait HasLoader: Core + Output {
     /// or opened read-write.
     fn open_source(&mut self) {
         let (caddr, u, id) = self.s_stack().pop3();
-        if id > 0 && id - 1 < self.files().len() as isize {
+        if !self.data_space().has_range(caddr as _, u as _) {
+            self.abort_with(INVALID_MEMORY_ADDRESS);
+        } else if id > 0 && id - 1 < self.files().len() as isize {
             match self.files_mut()[id as usize - 1].take() {
                 Some(file) => {
                     let position = self.sources().iter().position(|x| x.is_none());
-- 
2.43.0


From 5600b2df5e5af927da0dd913796d31dee03b1f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 18/46] fix: a newly opened source does not show a line of a
 closed one

---
 src/loader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/loader.rs b/src/loader.rs
index 3f2767a..ee35bd6 100644
--- a/src/loader.rs
+++ b/src/loader.rs
@@ -56,6 +56,10 @@ pub trait HasLoader: Core + Output {
                     let partial = Vec::with_capacity(128);
                     match position {
                         Some(sid) => {
+                            // Forget the last line of the source closed before.
+                            if let Some(ref mut line) = self.lines_mut()[sid] {
+                                line.clear();
+                            }
                             self.sources_mut()[sid] = Some(Source {
                                 reader,
                                 path,
-- 
2.43.0


From 053f826a423be47d473765ca58e5501ec06d40f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 19/46] fix: aborted includes do not use up the source stack or
 leave files open

After an error in an included file nothing removed its entries from
src-stack or closed its sources, so that after sixteen such errors no
file could be included at all. An include nested too deeply left the
file it had opened.
---
 core.fth | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/core.fth b/core.fth
index 7bf20b7..f7d0e1e 100644
--- a/core.fth
+++ b/core.fth
@@ -104,7 +104,10 @@ defer restore-input   ' _restore-input  ' restore-input  defer!
 \ content: | capacity | count=N | source-idx1 | source-id1 | ... | source_idxN | source-idN |
 \ NOTE: multitasking is not considered here.
 create src-stack 16 , 0 , 16 2* cells allot
+variable include-id  0 include-id !  \ source being included
+variable include-task  0 include-task !  \ task doing the outermost include
 : save-source
+    src-stack cell+ @ 0= if me include-task ! then
     source-id source-idx
     src-stack 2@ over > if
       ( src-id src-idx count ) 1+ dup src-stack cell+ !
@@ -116,6 +119,16 @@ create src-stack 16 , 0 , 16 2* cells allot
       ( count ) 2* cells src-stack + 2@
       source-idx!  source-id!
     else abort then ;
+\ Forget the includes of this task that were aborted and close their sources.
+: abandon-includes ( -- )
+    include-task @ me = if
+      begin src-stack cell+ @ dup while
+        include-id @ swap
+        ( id count ) dup 2* cells src-stack + cell+ @ include-id !
+        1- src-stack cell+ !
+        close-source
+      repeat drop
+    then ;
 : evaluate-input
     begin parse-word
       token-empty? not
@@ -135,15 +148,17 @@ variable load-line#
       1 load-line# +!
     repeat  drop ;
 : included ( c-addr u -- )
+    source-id 0= if abandon-includes then
+    save-source
     2dup  r/o open-file 0= if
-        save-source
-        ( c-addr u file-id ) open-source source-id!
+        ( c-addr u file-id ) open-source  dup include-id !  source-id!
         postpone [
         1 load-line# !
         load-source-file
         source-id  restore-source  close-source
+        source-id include-id !
     else
-        abort
+        restore-source abort
     then
 ;
 : include ( "path" -- )   32 word count included ;
-- 
2.43.0


From ae8b1e5a0ee0a9120af2ea46e3984d3f7045acfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:48 +0000
Subject: [PATCH 20/46] fix: an unresolved label of an aborted definition does
 not spoil later ones

---
 src/core.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core.rs b/src/core.rs
index 99102da..423e4c4 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -2303,6 +2303,9 @@ pub trait Core: Sized {
             let def = self.wordlist().last;
             self.compile_nest_code(def);
             self.wordlist_mut()[def].set_hidden(true);
+            // Unresolved labels of a definition that was not finished are not
+            // those of this one.
+            self.forward_bitset_mut().clear();
             self.right_bracket();
         }
     }
-- 
2.43.0


From 734fe95761fa408b1927c459c5b78f3f4592b324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:33 +0000
Subject: [PATCH 21/46] fix: a task may activate itself

---
 src/core.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 423e4c4..6b112c6 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1634,9 +1634,11 @@ pub trait Core: Sized {
             self.reset();
             self.state().instruction_pointer = ip;
             self.set_current_task(current_task);
-            // Return to caller.
-            let ip = self.r_stack().pop() as usize;
-            self.state().instruction_pointer = ip;
+            if i != current_task {
+                // Return to caller.
+                let ip = self.r_stack().pop() as usize;
+                self.state().instruction_pointer = ip;
+            }
         } else {
             let ip = self.r_stack().pop() as usize;
             self.state().instruction_pointer = ip;
-- 
2.43.0


From e43c70ea17019d3bd869e83fadf5dd117bcfbd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:33 +0000
Subject: [PATCH 22/46] fix: the error handler runs when a word fails while
 text is interpreted

---
 src/core.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 6b112c6..70f6a61 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -2050,17 +2050,13 @@ pub trait Core: Sized {
             }
             if self.state().is_compiling {
                 self.compile_token();
-                if self.last_error().is_some() {
-                    break;
-                }
             } else {
                 self.interpret_token();
-                if self.last_error().is_some() {
-                    break;
-                }
             }
+            // If the word failed, this runs the error handler.
             self.run();
             self.check_stacks();
+            self.run();
             if self.last_error().is_some() {
                 break;
             }
-- 
2.43.0


From b6edbaa9a4ce9310593455ce00a933cc571cc5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:49 +0000
Subject: [PATCH 23/46] fix: a full data space is reported as dictionary
 overflow instead of a panic

---
 src/core.rs   | 38 +++++++++++++++++++++++++++++++++-----
 src/memory.rs | 26 +++++++++++++++++++++-----
 2 files changed, 54 insertions(+), 10 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 70f6a61..055c085 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -4,7 +4,7 @@
 
 extern crate libc;
 use exception::{
-    self, Exception, ABORT, CONTROL_STRUCTURE_MISMATCH, DIVISION_BY_ZERO,
+    self, Exception, ABORT, CONTROL_STRUCTURE_MISMATCH, DICTIONARY_OVERFLOW, DIVISION_BY_ZERO,
     FLOATING_POINT_STACK_OVERFLOW, FLOATING_POINT_STACK_UNDERFLOW,
     INTERPRETING_A_COMPILE_ONLY_WORD, INVALID_MEMORY_ADDRESS, INVALID_NUMERIC_ARGUMENT,
     RETURN_STACK_OVERFLOW, RETURN_STACK_UNDERFLOW, STACK_OVERFLOW, STACK_UNDERFLOW, UNDEFINED_WORD,
@@ -723,6 +723,9 @@ pub trait Core: Sized {
     /// Add a primitive word to word list.
     fn add_primitive(&mut self, name: &str, action: fn(&mut Self)) {
         let nfa = self.data_space().compile_str(name);
+        if self.data_space().overflowed() {
+            panic!("Error: add_primitive while space is full.");
+        }
         self.data_space().align();
         let word = Word::new(action, Core::compile_word, nfa, self.data_space().here());
         self.wordlist_mut().push(name, word);
@@ -2271,6 +2274,12 @@ pub trait Core: Sized {
         self.s_stack().push(value);
     }
 
+    /// Are there `len` bytes left in the data space?
+    fn has_room(&mut self, len: usize) -> bool {
+        let here = self.data_space().here();
+        self.data_space().has_range(here, len)
+    }
+
     fn define(&mut self, action: fn(&mut Self), compilation_semantics: fn(&mut Self, usize)) {
         self.parse_word();
         let mut last_token = self.last_token().take().expect("last token");
@@ -2286,6 +2295,10 @@ pub trait Core: Sized {
         if last_token.is_empty() {
             self.set_last_token(last_token);
             self.abort_with(UNEXPECTED_END_OF_FILE);
+        } else if !self.has_room(last_token.len() + (BUCKET_SIZE + 4) * mem::size_of::<usize>()) {
+            // There must be room for the name and the data of a marker.
+            self.set_last_token(last_token);
+            self.abort_with(DICTIONARY_OVERFLOW);
         } else {
             let nfa = self.data_space().compile_str(&last_token);
             self.data_space().align();
@@ -2317,8 +2330,11 @@ pub trait Core: Sized {
             let idx = self.references().idx_exit;
             let compile = self.wordlist()[idx].compilation_semantics;
             compile(self, idx);
-            let def = self.wordlist().last;
-            self.wordlist_mut()[def].set_hidden(false);
+            // A definition which does not fit is not completed.
+            if !self.data_space().overflowed() {
+                let def = self.wordlist().last;
+                self.wordlist_mut()[def].set_hidden(false);
+            }
         }
         self.left_bracket();
     }
@@ -2970,7 +2986,11 @@ pub trait Core: Sized {
     /// Append the execution semantics of the definition represented by xt to the execution semantics of the current definition.
     fn compile_comma(&mut self) {
         let v = self.s_stack().pop();
-        self.data_space().compile_isize(v as isize);
+        if self.has_room(mem::size_of::<isize>()) {
+            self.data_space().compile_isize(v as isize);
+        } else {
+            self.abort_with(DICTIONARY_OVERFLOW);
+        }
     }
 
     /// Run-time: ( -- addr )
@@ -3015,7 +3035,11 @@ pub trait Core: Sized {
     /// data-space pointer is not aligned prior to execution of `,`.
     fn comma(&mut self) {
         let v = self.s_stack().pop();
-        self.data_space().compile_isize(v as isize);
+        if self.has_room(mem::size_of::<isize>()) {
+            self.data_space().compile_isize(v as isize);
+        } else {
+            self.abort_with(DICTIONARY_OVERFLOW);
+        }
     }
 
     fn p_to_r(&mut self) {
@@ -3072,6 +3096,8 @@ pub trait Core: Sized {
     // ----------------
 
     fn check_stacks(&mut self) {
+        let full = self.data_space().overflowed();
+        self.data_space().set_overflowed(false);
         if self.s_stack().overflow() {
             self.abort_with(STACK_OVERFLOW);
         } else if self.s_stack().underflow() {
@@ -3088,6 +3114,8 @@ pub trait Core: Sized {
             self.abort_with(FLOATING_POINT_STACK_OVERFLOW);
         } else if self.f_stack().underflow() {
             self.abort_with(FLOATING_POINT_STACK_UNDERFLOW);
+        } else if full && self.last_error().is_none() {
+            self.abort_with(DICTIONARY_OVERFLOW);
         }
     }
 
diff --git a/src/memory.rs b/src/memory.rs
index f09e768..502833c 100644
--- a/src/memory.rs
+++ b/src/memory.rs
@@ -24,6 +24,7 @@ pub struct DataSpace {
     layout: Layout,
     cap: usize,
     len: usize,
+    overflowed: bool,
     marker: marker::PhantomData<SystemVariables>,
 }
 
@@ -47,6 +48,7 @@ impl DataSpace {
             layout,
             cap,
             len: mem::size_of::<SystemVariables>(),
+            overflowed: false,
             marker: marker::PhantomData,
         };
         result.system_variables_mut().null = 0;
@@ -100,6 +102,14 @@ impl Memory for DataSpace {
             Err(INVALID_MEMORY_ADDRESS)
         }
     }
+
+    fn overflowed(&self) -> bool {
+        self.overflowed
+    }
+
+    fn set_overflowed(&mut self, v: bool) {
+        self.overflowed = v;
+    }
 }
 
 pub trait Memory {
@@ -130,6 +140,11 @@ pub trait Memory {
     /// Set next free space.
     fn set_here(&mut self, pos: usize) -> Result<(), Exception>;
 
+    /// Has something not been compiled because the space was full?
+    fn overflowed(&self) -> bool;
+
+    fn set_overflowed(&mut self, v: bool);
+
     unsafe fn get_u8(&self, addr: usize) -> u8 {
         *(addr as *mut u8)
     }
@@ -179,7 +194,7 @@ pub trait Memory {
             }
             self.allot(mem::size_of::<u8>() as isize);
         } else {
-            panic!("Error: compile_u8 while space is full.");
+            self.set_overflowed(true);
         }
     }
 
@@ -195,7 +210,7 @@ pub trait Memory {
             }
             self.allot(mem::size_of::<usize>() as isize);
         } else {
-            panic!("Error: compile_usize while space is full.");
+            self.set_overflowed(true);
         }
     }
 
@@ -217,7 +232,7 @@ pub trait Memory {
             }
             self.allot(mem::size_of::<isize>() as isize);
         } else {
-            panic!("Error: compile_isize while space is full.");
+            self.set_overflowed(true);
         }
     }
     unsafe fn put_f64(&mut self, v: f64, pos: usize) {
@@ -232,7 +247,7 @@ pub trait Memory {
             }
             self.allot(mem::size_of::<f64>() as isize);
         } else {
-            panic!("Error: compile_f64 while space is full.");
+            self.set_overflowed(true);
         }
     }
 
@@ -267,7 +282,8 @@ pub trait Memory {
             }
             here
         } else {
-            panic!("Error: compile_str while space is full.");
+            self.set_overflowed(true);
+            here
         }
     }
 
-- 
2.43.0


From bfd776e44fd5e1cf62c1509c330d78eae86f478d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:29 +0000
Subject: [PATCH 24/46] fix: POSTPONE of an immediate word executes it instead
 of compiling a call to it, so INCLUDED no longer appends a cell to the data
 space

---
 src/core.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core.rs b/src/core.rs
index 055c085..7fb461c 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1897,7 +1897,11 @@ pub trait Core: Sized {
         let xt = self.s_stack().pop() as usize;
         if xt < self.wordlist().len() {
             let compilation_semantics = self.wordlist()[xt].compilation_semantics;
-            compilation_semantics(self, xt);
+            if !self.wordlist()[xt].is_immediate() {
+                compilation_semantics(self, xt);
+            } else {
+                self.execute_word(xt);
+            }
         } else {
             self.abort_with(UNSUPPORTED_OPERATION);
         }
-- 
2.43.0


From 658b4aa36d96949ee6a56bad3f0a4eb9cb6cd4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:27 +0000
Subject: [PATCH 25/46] fix: a line given up by Ctrl-D or a failing terminal
 does not stay in the history

---
 rtf/src/term.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rtf/src/term.rs b/rtf/src/term.rs
index 38cf4a2..1b42e10 100644
--- a/rtf/src/term.rs
+++ b/rtf/src/term.rs
@@ -130,6 +130,8 @@ impl Term {
                             }
                         } else if key.modifiers == KeyModifiers::CONTROL {
                             if key.code == KeyCode::Char('d') {
+                                // The line has not been entered.
+                                let _ = self.history.pop();
                                 return Err(Error::Eof);
                             }
                         }
@@ -137,6 +139,7 @@ impl Term {
                     _ => {}
                 },
                 Err(_) => {
+                    let _ = self.history.pop();
                     return Err(Error::Other);
                 }
             }
-- 
2.43.0


From 946fc34bb93b8ec44e1ba92c5bbae15e11ff0d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:01 +0000
Subject: [PATCH 26/46] fix: empty lines do not push others out of the
 console's history

---
 rtf/src/term.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rtf/src/term.rs b/rtf/src/term.rs
index 1b42e10..16eb4ae 100644
--- a/rtf/src/term.rs
+++ b/rtf/src/term.rs
@@ -34,6 +34,7 @@ impl Term {
                 opt_history = Some(
                     lines
                         .map(|x| if let Ok(s) = x { s } else { String::new() })
+                        .filter(|s| !s.is_empty())
                         .collect(),
                 );
             }
@@ -174,6 +175,7 @@ impl Drop for Term {
                 match fs::File::create(&path) {
                     Ok(file) => {
                         let mut file = LineWriter::new(file);
+                        self.history.retain(|line| !line.is_empty());
                         // Keep at most 32 lines.
                         let mut start = self.history.len();
                         if start > 32 {
@@ -182,10 +184,8 @@ impl Drop for Term {
                             start = 0;
                         }
                         for line in &self.history[start..] {
-                            if line.len() > 0 {
-                                file.write_all(line.as_bytes()).unwrap();
-                                file.write(b"\n").unwrap();
-                            }
+                            file.write_all(line.as_bytes()).unwrap();
+                            file.write(b"\n").unwrap();
                         }
                     }
                     Err(e) => {
-- 
2.43.0


From 32ce8a8fd562a45438af478a0c44523a47e19d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:28 +0000
Subject: [PATCH 27/46] fix: the console ends normally when its history cannot
 be written

---
 rtf/src/term.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rtf/src/term.rs b/rtf/src/term.rs
index 16eb4ae..9abf4e5 100644
--- a/rtf/src/term.rs
+++ b/rtf/src/term.rs
@@ -184,8 +184,10 @@ impl Drop for Term {
                             start = 0;
                         }
                         for line in &self.history[start..] {
-                            file.write_all(line.as_bytes()).unwrap();
-                            file.write(b"\n").unwrap();
+                            if let Err(e) = writeln!(file, "{}", line) {
+                                eprintln!("write file failed: {:?}", e);
+                                break;
+                            }
                         }
                     }
                     Err(e) => {
-- 
2.43.0


From 57c31e5a1f99917f3ed82dcb8f924a4328c034bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:07 +0000
Subject: [PATCH 28/46] fix: the console starts when its history cannot be read

---
 rtf/src/term.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rtf/src/term.rs b/rtf/src/term.rs
index 9abf4e5..f3e0b3d 100644
--- a/rtf/src/term.rs
+++ b/rtf/src/term.rs
@@ -33,6 +33,12 @@ impl Term {
                 let lines = io::BufReader::new(file).lines();
                 opt_history = Some(
                     lines
+                        // A line which is not text is skipped.
+                        // Any other error would come again and again.
+                        .take_while(|x| match x {
+                            Ok(_) => true,
+                            Err(e) => e.kind() == io::ErrorKind::InvalidData,
+                        })
                         .map(|x| if let Ok(s) = x { s } else { String::new() })
                         .filter(|s| !s.is_empty())
                         .collect(),
-- 
2.43.0


From 3ba495aad64c457186134201dd851ef28bf78002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:07 +0000
Subject: [PATCH 29/46] fix: the console does not fail when the terminal does
 not report its cursor

---
 rtf/src/term.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rtf/src/term.rs b/rtf/src/term.rs
index f3e0b3d..0b13fb0 100644
--- a/rtf/src/term.rs
+++ b/rtf/src/term.rs
@@ -1,5 +1,5 @@
 use crossterm::{
-    cursor::{self, MoveTo},
+    cursor::MoveToColumn,
     event::{read, Event, KeyCode, KeyModifiers},
     queue,
     terminal::{self, Clear, ClearType},
@@ -151,11 +151,10 @@ impl Term {
                 }
             }
 
-            let p = cursor::position().unwrap();
             let width = self.buffer[..x].width();
-            queue!(stdout, Clear(ClearType::CurrentLine), MoveTo(0, p.1)).unwrap();
+            queue!(stdout, Clear(ClearType::CurrentLine), MoveToColumn(0)).unwrap();
             print!("{}", self.buffer);
-            queue!(stdout, MoveTo(width as u16, p.1)).unwrap();
+            queue!(stdout, MoveToColumn(width as u16)).unwrap();
             stdout.flush().unwrap();
         }
         if self.buffer.len() == 0 {
-- 
2.43.0


From 6572d54b142401c2c594eb1066e1ed9ccb9f3c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:00 +0000
Subject: [PATCH 30/46] fix: OPERATOR is the number of the operator's task

---
 core.fth | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core.fth b/core.fth
index f7d0e1e..78c4110 100644
--- a/core.fth
+++ b/core.fth
@@ -76,7 +76,7 @@ variable >in  0 >in !
 : xtime ( t0 xt -- )   2>r r@ execute 2r> (xtime) ;
 
 \ Multitasker
-0 constant operator
+1 constant operator
 : nod   begin pause again ;
 : halt ( n -- )   activate nod ;
 : stop   me suspend pause ;
-- 
2.43.0


From 7371153589db7551270b392edcddbe1cdf8ebb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:00 +0000
Subject: [PATCH 31/46] fix: an error in a background task does not end the
 console

---
 rtf/rtf.fth | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rtf/rtf.fth b/rtf/rtf.fth
index f799058..36c231b 100644
--- a/rtf/rtf.fth
+++ b/rtf/rtf.fth
@@ -16,7 +16,9 @@
       else drop
       then
       ." , " .backtrace  13 emit
-    then flush-output 0error quit ;
+    then flush-output 0error
+    \ Only the operator reads lines.
+    me operator = if quit else reset nod then ;
 
 \ Cold start
 : cold
-- 
2.43.0


From 6c75cb1cb285f29bdb0fad4b95c355097972ad3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:44 +0000
Subject: [PATCH 32/46] fix: the console's error message does not depend on the
 number base

---
 rtf/rtf.fth | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtf/rtf.fth b/rtf/rtf.fth
index 36c231b..cfc1d9c 100644
--- a/rtf/rtf.fth
+++ b/rtf/rtf.fth
@@ -12,7 +12,7 @@
       .token space .error
       source-id dup if dup
         ."  (" .source-path
-        ." :"  load-line# @  0 .r ." : " .source-line ." )"
+        ." :"  base @ decimal  load-line# @  0 .r  base ! ." : " .source-line ." )"
       else drop
       then
       ." , " .backtrace  13 emit
-- 
2.43.0


From 1abcb18909bc63b7543428636c560e4bdc5c2d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:03 +0000
Subject: [PATCH 33/46] fix: a name whose length is overwritten in the data
 space is not read outside it

---
 src/memory.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/memory.rs b/src/memory.rs
index 502833c..72173bd 100644
--- a/src/memory.rs
+++ b/src/memory.rs
@@ -161,9 +161,17 @@ pub trait Memory {
         ptr::read_unaligned(addr as *const f64)
     }
 
+    /// The string at `addr`, empty if its length has been overwritten so that
+    /// it would not be in memory.
     unsafe fn get_str(&self, addr: usize) -> &str {
+        if !self.has_range(addr, mem::size_of::<usize>()) {
+            return "";
+        }
         let len = self.get_usize(addr);
         let a = addr + mem::size_of::<usize>();
+        if !self.has_range(a, len) {
+            return "";
+        }
         self.str_from_raw_parts(a, len)
     }
 
-- 
2.43.0


From d10e623c991b637e95ccecdde6dc3b435a9151ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:03 +0000
Subject: [PATCH 34/46] fix: EXECUTE refuses words with a compiled operand
 outside compiled code

---
 src/core.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 7fb461c..00e4c66 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -2956,8 +2956,25 @@ pub trait Core: Sized {
     /// Remove `xt` from the stack and perform the semantics identified by it.
     /// Other stack effects are due to the word `EXECUTE`d.
     fn execute(&mut self) {
-        let t = self.s_stack().pop();
-        self.execute_word(t as usize);
+        let t = self.s_stack().pop() as usize;
+        let ip = self.state().instruction_pointer;
+        if !self.data_space().has_range(ip, mem::size_of::<isize>()) && self.takes_operand(t) {
+            // The operand would be in the compiled code, but none is running.
+            self.abort_with(INTERPRETING_A_COMPILE_ONLY_WORD);
+        } else {
+            self.execute_word(t);
+        }
+    }
+
+    /// Is an operand of word `i` compiled after it?
+    fn takes_operand(&mut self, i: usize) -> bool {
+        let r = self.references();
+        i == r.idx_lit
+            || i == r.idx_flit
+            || i == r.idx_branch
+            || i == r.idx_zero_branch
+            || i == r.idx_loop
+            || i == r.idx_plus_loop
     }
 
     /// Compilation: ( "<spaces>name" -- )
-- 
2.43.0


From 7fb40b6afedcee9c94db6c1bd3a2a719508b85ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:08 +0000
Subject: [PATCH 35/46] fix: LEAVE refuses a return stack without loop
 parameters

---
 src/core.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/core.rs b/src/core.rs
index 00e4c66..c715abb 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -7,7 +7,7 @@ use exception::{
     self, Exception, ABORT, CONTROL_STRUCTURE_MISMATCH, DICTIONARY_OVERFLOW, DIVISION_BY_ZERO,
     FLOATING_POINT_STACK_OVERFLOW, FLOATING_POINT_STACK_UNDERFLOW,
     INTERPRETING_A_COMPILE_ONLY_WORD, INVALID_MEMORY_ADDRESS, INVALID_NUMERIC_ARGUMENT,
-    RETURN_STACK_OVERFLOW, RETURN_STACK_UNDERFLOW, STACK_OVERFLOW, STACK_UNDERFLOW, UNDEFINED_WORD,
+    RETURN_STACK_IMBALANCE, RETURN_STACK_OVERFLOW, RETURN_STACK_UNDERFLOW, STACK_OVERFLOW, STACK_UNDERFLOW, UNDEFINED_WORD,
     UNEXPECTED_END_OF_FILE, UNSUPPORTED_OPERATION,
 };
 use hibitset::{BitSet, BitSetLike};
@@ -1061,6 +1061,14 @@ pub trait Core: Sized {
             self.abort_with(RETURN_STACK_UNDERFLOW);
             return;
         }
+        // Not the parameters of a loop, if the return stack is unbalanced.
+        if !self
+            .data_space()
+            .has_range(third as usize, mem::size_of::<isize>())
+        {
+            self.abort_with(RETURN_STACK_IMBALANCE);
+            return;
+        }
         self.state().instruction_pointer =
             unsafe { self.data_space().get_isize(third as usize) as usize };
     }
-- 
2.43.0


From 4504897fd977375ab319ef0cd348da848c23d308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:50 +0000
Subject: [PATCH 36/46] fix: RESET forgets a data-space overflow that was not
 reported

---
 src/core.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core.rs b/src/core.rs
index c715abb..984d7ff 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -3254,6 +3254,8 @@ pub trait Core: Sized {
         self.state().source_index = 0;
         self.left_bracket();
         self.set_error(None);
+        // An overflow the error that led here kept from being reported.
+        self.data_space().set_overflowed(false);
     }
 
     /// Abort the inner loop with an exception, reset VM and clears stacks.
-- 
2.43.0


From 36af6e6c72d6506fe6d04638ada50f89d02777fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:29 +0000
Subject: [PATCH 37/46] fix: an error in a file that had included another was
 reported with the wrong line number

---
 core.fth | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core.fth b/core.fth
index 78c4110..167770f 100644
--- a/core.fth
+++ b/core.fth
@@ -100,6 +100,8 @@ variable >in  0 >in !
 defer save-input   ' _save-input  ' save-input  defer!
 defer restore-input   ' _restore-input  ' restore-input  defer!
 
+variable load-line#
+create src-lines 17 cells allot  \ load-line# at each level of include
 \ Stack to save & restore source
 \ content: | capacity | count=N | source-idx1 | source-id1 | ... | source_idxN | source-idN |
 \ NOTE: multitasking is not considered here.
@@ -111,11 +113,13 @@ variable include-task  0 include-task !  \ task doing the outermost include
     source-id source-idx
     src-stack 2@ over > if
       ( src-id src-idx count ) 1+ dup src-stack cell+ !
+      load-line# @ over cells src-lines + !
       ( src-id src-idx count+1 ) 2* cells src-stack +  2!
     else abort then ;
 : restore-source
     src-stack 2@ drop  dup 0 > if
       ( count ) dup 1- src-stack cell+ !
+      ( count ) dup cells src-lines + @ load-line# !
       ( count ) 2* cells src-stack + 2@
       source-idx!  source-id!
     else abort then ;
@@ -136,8 +140,6 @@ variable include-task  0 include-task !  \ task doing the outermost include
       compiling? if compile-token
       ?stacks else interpret-token ?stacks then
     repeat ;
-\ Multitasking is not considered here.
-variable load-line#
 : load-source-file ( -- )
     begin
       source-id load-line
-- 
2.43.0


From 62ee8b682bc951d5a732647edd81b59daad04ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:29 +0000
Subject: [PATCH 38/46] fix: a console killed or failing while saving its
 history lost the old history

---
 rtf/src/term.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/rtf/src/term.rs b/rtf/src/term.rs
index 0b13fb0..5b14594 100644
--- a/rtf/src/term.rs
+++ b/rtf/src/term.rs
@@ -176,8 +176,13 @@ impl Drop for Term {
         if let Some(dirs) = ProjectDirs::from("", "", "rtforth") {
             let mut path = dirs.cache_dir().to_path_buf();
             if fs::create_dir_all(&path).is_ok() {
+                // Written beside the old history and then put in its place, so
+                // that nothing is lost if it cannot be written completely.
+                let new_path = path.join("history.new");
                 path.push("history.txt");
-                match fs::File::create(&path) {
+                let mut complete = true;
+                let writable = fs::OpenOptions::new().append(true).create(true).open(&path);
+                match writable.and_then(|_| fs::File::create(&new_path)) {
                     Ok(file) => {
                         let mut file = LineWriter::new(file);
                         self.history.retain(|line| !line.is_empty());
@@ -191,12 +196,19 @@ impl Drop for Term {
                         for line in &self.history[start..] {
                             if let Err(e) = writeln!(file, "{}", line) {
                                 eprintln!("write file failed: {:?}", e);
+                                complete = false;
                                 break;
                             }
                         }
                     }
                     Err(e) => {
                         eprintln!("create file failed: {:?}", e);
+                        complete = false;
+                    }
+                }
+                if complete {
+                    if let Err(e) = fs::rename(&new_path, &path) {
+                        eprintln!("rename file failed: {:?}", e);
                     }
                 }
             }
-- 
2.43.0


From 67e7f093e53c8dcb1ca7dbf37b672a5e5f098079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:19 +0000
Subject: [PATCH 39/46] fix: a primitive error handler that aborts itself
 exhausted the stack of the host

---
 src/core.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 984d7ff..8f8bdc2 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -412,6 +412,7 @@ pub struct State {
     pub instruction_pointer: usize,
     word_pointer: usize,
     pub aborted_word_pointer: usize,
+    handling_error: bool,
     pub source_index: usize,
     pub source_id: isize,
 }
@@ -423,6 +424,7 @@ impl State {
             instruction_pointer: 0,
             word_pointer: 0,
             aborted_word_pointer: 0,
+            handling_error: false,
             source_index: 0,
             source_id: 0,
         }
@@ -3264,9 +3266,16 @@ pub trait Core: Sized {
         self.set_error(Some(e));
         let h = self.handler();
         self.state().aborted_word_pointer = self.state().word_pointer;
-        // A handler which does not exist (any more) must not cause another abort.
-        if h < self.wordlist().len() {
+        // A handler which does not exist (any more), or is a primitive which
+        // aborts itself, must not cause another abort.
+        if h < self.wordlist().len() && !self.state().handling_error {
+            let task = self.current_task();
+            self.state().handling_error = true;
             self.execute_word(h);
+            let next = self.current_task();
+            self.set_current_task(task);
+            self.state().handling_error = false;
+            self.set_current_task(next);
         }
     }
 
-- 
2.43.0


From 3121e813c20b7c1051cfc14343fd03c77db52acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:19 +0000
Subject: [PATCH 40/46] fix: INTERPRET-TOKEN given as a token executed itself
 for ever

---
 src/core.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core.rs b/src/core.rs
index 8f8bdc2..f078b77 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -686,7 +686,7 @@ pub trait Core: Sized {
         self.add_primitive(".token", Core::dot_token);
         self.add_primitive("!token", Core::store_token);
         self.add_primitive("compile-token", Core::compile_token);
-        self.add_primitive("interpret-token", Core::interpret_token);
+        self.add_compile_only("interpret-token", Core::interpret_token);
         self.add_primitive("source-id", Core::p_source_id);
         self.add_primitive("source-id!", Core::p_set_source_id);
         self.add_primitive("source-idx", Core::p_source_idx);
-- 
2.43.0


From 9ec9e3c54619e2272a06ea922ed195e24fcc00d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:19 +0000
Subject: [PATCH 41/46] fix: LIT, FLIT and BRANCH read operands beyond the end
 of the data space

---
 src/core.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/core.rs b/src/core.rs
index f078b77..e00339f 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -859,6 +859,10 @@ pub trait Core: Sized {
 
     fn lit(&mut self) {
         let ip = self.state().instruction_pointer;
+        if !self.data_space().has_range(ip, mem::size_of::<isize>()) {
+            self.abort_with(INVALID_MEMORY_ADDRESS);
+            return;
+        }
         let v = unsafe { self.data_space().get_isize(ip) as isize };
         let slen = self.s_stack().len.wrapping_add(1);
         self.s_stack().len = slen;
@@ -875,6 +879,10 @@ pub trait Core: Sized {
 
     fn flit(&mut self) {
         let ip = DataSpace::aligned_f64(self.state().instruction_pointer as usize);
+        if !self.data_space().has_range(ip, mem::size_of::<f64>()) {
+            self.abort_with(INVALID_MEMORY_ADDRESS);
+            return;
+        }
         let v = unsafe { self.data_space().get_f64(ip) };
         let flen = self.f_stack().len.wrapping_add(1);
         self.f_stack().len = flen;
@@ -913,6 +921,10 @@ pub trait Core: Sized {
 
     fn branch(&mut self) {
         let ip = self.state().instruction_pointer;
+        if !self.data_space().has_range(ip, mem::size_of::<isize>()) {
+            self.abort_with(INVALID_MEMORY_ADDRESS);
+            return;
+        }
         self.state().instruction_pointer = unsafe { self.data_space().get_isize(ip) as usize };
     }
 
-- 
2.43.0


From 5f1b1960747f212785f194595ca03a24c818d229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:19 +0000
Subject: [PATCH 42/46] fix: LABEL followed overwritten links of unresolved
 GOTOs to any address

---
 src/core.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core.rs b/src/core.rs
index e00339f..763d788 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1429,6 +1429,10 @@ pub trait Core: Sized {
                 // Resolve forward references.
                 let mut p = self.labels()[n];
                 loop {
+                    if !self.data_space().has_range(p, mem::size_of::<usize>()) {
+                        self.abort_with(INVALID_MEMORY_ADDRESS);
+                        return;
+                    }
                     let last = unsafe { self.data_space().get_usize(p) };
                     unsafe {
                         self.data_space().put_isize(here as isize, p as usize);
@@ -1436,6 +1440,11 @@ pub trait Core: Sized {
                     if last == 0 {
                         break;
                     }
+                    // References are linked to earlier ones.
+                    if last >= p {
+                        self.abort_with(INVALID_MEMORY_ADDRESS);
+                        return;
+                    }
                     p = last;
                 }
                 self.labels_mut()[n] = here;
-- 
2.43.0


From 3f1dc06914df3f90370d1bc99e1f3f4f8ee8c6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:19 +0000
Subject: [PATCH 43/46] fix: a marker whose data had been overwritten made the
 host panic

---
 src/core.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/core.rs b/src/core.rs
index 763d788..4228031 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -2392,10 +2392,21 @@ pub trait Core: Sized {
             let w = &self.wordlist()[wp];
             (w.nfa(), w.dfa())
         };
+        // The words known to the marker, unless they have been overwritten.
+        let size = mem::size_of::<usize>();
+        for i in 0..BUCKET_SIZE + 1 {
+            let addr = dfa + i * size;
+            if !self.data_space().has_range(addr, size)
+                || unsafe { self.data_space().get_usize(addr) } >= wp
+            {
+                self.abort_with(INVALID_MEMORY_ADDRESS);
+                return;
+            }
+        }
         let x = unsafe { self.data_space().get_usize(dfa) };
         self.wordlist_mut().last = x;
         for i in 0..BUCKET_SIZE {
-            dfa += mem::size_of::<usize>();
+            dfa += size;
             let x = unsafe { self.data_space().get_usize(dfa) };
             self.wordlist_mut().buckets[i] = x;
         }
-- 
2.43.0


From 08824d3a4c47d0a043a5a476ab5619f312b5b194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:19 +0000
Subject: [PATCH 44/46] fix: PAUSE without any awake task never returned to the
 host

---
 src/core.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 4228031..2b0c6ea 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -3318,14 +3318,17 @@ pub trait Core: Sized {
 
     /// Pause the current task and resume the next task which is awake.
     fn pause(&mut self) {
-        let mut i = self.current_task();
-        loop {
-            i = (i + 1) % NUM_TASKS;
+        let current = self.current_task();
+        for n in 1..NUM_TASKS + 1 {
+            let i = (current + n) % NUM_TASKS;
             if self.awake(i) {
                 self.set_current_task(i);
-                break;
+                return;
             }
         }
+        // Nobody is left to wake a task.
+        self.set_awake(current, true);
+        self.abort_with(UNSUPPORTED_OPERATION);
     }
 
     /// Current task ID
-- 
2.43.0


From 8924857f638b464ab327d933e576d43becd79b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:19 +0000
Subject: [PATCH 45/46] fix: field widths of .r and f.r beyond any memory
 aborted the host

---
 src/output.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/output.rs b/src/output.rs
index ddeae1b..0230e0b 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -1,10 +1,15 @@
 //! Words output to console
 
 use core::Core;
-use exception::{INVALID_MEMORY_ADDRESS, STACK_UNDERFLOW, UNSUPPORTED_OPERATION};
+use exception::{
+    INVALID_MEMORY_ADDRESS, INVALID_NUMERIC_ARGUMENT, STACK_UNDERFLOW, UNSUPPORTED_OPERATION,
+};
 use memory::Memory;
 use std::fmt::Write;
 
+/// Widest field of `.r` and `f.r`.
+const MAX_FIELD_WIDTH: isize = 65535;
+
 /// Types that can output to console.
 pub trait Output: Core {
     /// Add output primitives.
@@ -141,6 +146,10 @@ pub trait Output: Core {
         let base = unsafe { self.data_space().get_isize(base_addr) };
         let mut valid_base = true;
         let (n1, n2) = self.s_stack().pop2();
+        if n2 > MAX_FIELD_WIDTH {
+            self.abort_with(INVALID_NUMERIC_ARGUMENT);
+            return;
+        }
         if let Some(mut buf) = self.output_buffer().take() {
             self.hold_buffer().clear();
             match base {
@@ -182,6 +191,10 @@ pub trait Output: Core {
     fn fdot_r(&mut self) {
         let r = self.f_stack().pop();
         let (n1, n2) = self.s_stack().pop2();
+        if n1 > MAX_FIELD_WIDTH {
+            self.abort_with(INVALID_NUMERIC_ARGUMENT);
+            return;
+        }
         if let Some(mut buf) = self.output_buffer().take() {
             self.hold_buffer().clear();
             match n2 {
-- 
2.43.0


From 0070c5142b69e811ee269a9ab097643d33f310cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:59 +0000
Subject: [PATCH 46/46] fix: ALLOT of more than the data space holds is an
 error

It was ignored: the data-space pointer stayed where it was, so that what
the program took for its buffer was overwritten by what was defined next.
---
 src/memory.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/memory.rs b/src/memory.rs
index 72173bd..7f535d5 100644
--- a/src/memory.rs
+++ b/src/memory.rs
@@ -333,7 +333,9 @@ pub trait Memory {
 
     fn allot(&mut self, v: isize) {
         let here = (self.here() as isize).wrapping_add(v) as usize;
-        self.set_here(here);
+        if self.set_here(here).is_err() {
+            self.set_overflowed(true);
+        }
     }
 
     fn truncate(&mut self, pos: usize) {
-- 
2.43.0

