From e670144a0e2fee369d441d14ba37b728fbb19ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:28 +0000
Subject: [PATCH 01/20] fix: reject address ranges whose end overflows in @ !
 move run and file words

---
 src/core.rs        | 16 ++++++----------
 src/file_access.rs | 12 +++++-------
 src/memory.rs      |  5 +++++
 3 files changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 7b1c475..6d52aa8 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -800,9 +800,7 @@ pub trait Core: Sized {
     #[inline(never)]
     fn run(&mut self) {
         let mut ip = self.state().instruction_pointer;
-        while self.data_space().start() <= ip
-            && ip + mem::size_of::<isize>() <= self.data_space().limit()
-        {
+        while self.data_space().has_range(ip, mem::size_of::<isize>()) {
             let w = unsafe { self.data_space().get_isize(ip) as usize };
             self.state().instruction_pointer += mem::size_of::<isize>();
             self.execute_word(w);
@@ -815,9 +813,7 @@ pub trait Core: Sized {
     // Return true if there are more steps to execute, false if otherwise.
     fn forth(&mut self) -> bool {
         let mut ip = self.state().instruction_pointer;
-        if self.data_space().start() <= ip
-            && ip + mem::size_of::<isize>() <= self.data_space().limit()
-        {
+        if self.data_space().has_range(ip, mem::size_of::<isize>()) {
             let w = unsafe { self.data_space().get_isize(ip) as usize };
             self.state().instruction_pointer += mem::size_of::<isize>();
             self.execute_word(w);
@@ -2780,7 +2776,7 @@ pub trait Core: Sized {
     /// `x` is the value stored at `a-addr`.
     fn fetch(&mut self) {
         let t = self.s_stack().pop() as usize;
-        if self.data_space().start() < t && t + mem::size_of::<isize>() <= self.data_space().limit()
+        if self.data_space().start() < t && self.data_space().has_range(t, mem::size_of::<isize>())
         {
             let value = unsafe { self.data_space().get_isize(t as usize) as isize };
             self.s_stack().push(value);
@@ -2795,7 +2791,7 @@ pub trait Core: Sized {
     fn store(&mut self) {
         let (n, t) = self.s_stack().pop2();
         let t = t as usize;
-        if self.data_space().start() < t && t + mem::size_of::<isize>() <= self.data_space().limit()
+        if self.data_space().start() < t && self.data_space().has_range(t, mem::size_of::<isize>())
         {
             unsafe { self.data_space().put_isize(n as isize, t as usize) };
         } else {
@@ -2846,9 +2842,9 @@ pub trait Core: Sized {
             let addr1 = addr1 as usize;
             let addr2 = addr2 as usize;
             if self.data_space().start() < addr1
-                && addr1 + u <= self.data_space().limit()
+                && self.data_space().has_range(addr1, u)
                 && self.data_space().start() < addr2
-                && addr2 + u <= self.data_space().limit()
+                && self.data_space().has_range(addr2, u)
             {
                 unsafe {
                     if addr1 < addr2 {
diff --git a/src/file_access.rs b/src/file_access.rs
index a36810f..78261db 100644
--- a/src/file_access.rs
+++ b/src/file_access.rs
@@ -177,7 +177,7 @@ pub trait FileAccess: Core {
             }
         };
         let file = {
-            if self.data_space().start() <= caddr && caddr + u <= self.data_space().limit() {
+            if self.data_space().has_range(caddr, u) {
                 let path_name = unsafe { self.data_space().str_from_raw_parts(caddr, u) };
                 match options.open(&path_name) {
                     Err(_) => Err(FILE_IO_EXCEPTION),
@@ -220,7 +220,7 @@ pub trait FileAccess: Core {
             self.s_stack().push2(-1, INVALID_NUMERIC_ARGUMENT.into());
         } else {
             let result = {
-                if self.data_space().start() <= caddr && caddr + u <= self.data_space().limit() {
+                if self.data_space().has_range(caddr, u) {
                     let path_name = unsafe { self.data_space().str_from_raw_parts(caddr, u) };
                     match fs::remove_file(path_name) {
                         Err(_) => FILE_IO_EXCEPTION.into(),
@@ -269,7 +269,7 @@ pub trait FileAccess: Core {
             }
         };
         let file = {
-            if self.data_space().start() <= caddr && caddr + u <= self.data_space().limit() {
+            if self.data_space().has_range(caddr, u) {
                 let path_name = unsafe { self.data_space().str_from_raw_parts(caddr, u) };
                 match options.open(&path_name) {
                     Err(_) => Err(FILE_IO_EXCEPTION),
@@ -341,7 +341,7 @@ pub trait FileAccess: Core {
         } else {
             let mut file = self.files_mut()[fileid].take().unwrap();
             let result = {
-                if self.data_space().start() <= caddr && caddr + u1 <= self.data_space().limit() {
+                if self.data_space().has_range(caddr, u1) {
                     let mut buf = unsafe { self.data_space().buffer_from_raw_parts_mut(caddr, u1) };
                     file.read(&mut buf).or(Err(FILE_IO_EXCEPTION.into()))
                 } else {
@@ -383,9 +383,7 @@ pub trait FileAccess: Core {
             match self.files_mut()[fileid].take() {
                 Some(mut f) => {
                     let result = {
-                        if self.data_space().start() <= caddr
-                            && caddr + u <= self.data_space().limit()
-                        {
+                        if self.data_space().has_range(caddr, u) {
                             let buf = unsafe {
                                 self.data_space().buffer_from_raw_parts(caddr as _, u as _)
                             };
diff --git a/src/memory.rs b/src/memory.rs
index 61f3cc4..94f348d 100644
--- a/src/memory.rs
+++ b/src/memory.rs
@@ -118,6 +118,11 @@ pub trait Memory {
         self.start() <= pos && pos < self.limit()
     }
 
+    /// Does memory contains the `len` bytes starting from address `pos`?
+    fn has_range(&self, pos: usize, len: usize) -> bool {
+        self.start() <= pos && pos <= self.limit() && len <= self.limit() - pos
+    }
+
     /// Next free space
     fn here(&self) -> usize;
 
-- 
2.43.0


From ddfb6f474d3b7142a433bf5f5f6f225b9d350c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 02/20] fix: access unaligned cells and floats without
 undefined behaviour

---
 src/memory.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/memory.rs b/src/memory.rs
index 94f348d..bc32fa9 100644
--- a/src/memory.rs
+++ b/src/memory.rs
@@ -134,15 +134,15 @@ pub trait Memory {
     }
 
     unsafe fn get_usize(&self, addr: usize) -> usize {
-        *(addr as *mut usize)
+        (addr as *const usize).read_unaligned()
     }
 
     unsafe fn get_isize(&self, addr: usize) -> isize {
-        *(addr as *mut isize)
+        (addr as *const isize).read_unaligned()
     }
 
     unsafe fn get_f64(&self, addr: usize) -> f64 {
-        *(addr as *mut f64)
+        (addr as *const f64).read_unaligned()
     }
 
     unsafe fn get_str(&self, addr: usize) -> &str {
@@ -183,7 +183,7 @@ pub trait Memory {
     }
 
     unsafe fn put_usize(&mut self, v: usize, pos: usize) {
-        *(pos as *mut usize) = v;
+        (pos as *mut usize).write_unaligned(v);
     }
 
     fn compile_usize(&mut self, v: usize) {
@@ -205,7 +205,7 @@ pub trait Memory {
     }
 
     unsafe fn put_isize(&mut self, v: isize, pos: usize) {
-        *(pos as *mut isize) = v;
+        (pos as *mut isize).write_unaligned(v);
     }
 
     fn compile_isize(&mut self, v: isize) {
@@ -220,7 +220,7 @@ pub trait Memory {
         }
     }
     unsafe fn put_f64(&mut self, v: f64, pos: usize) {
-        *(pos as *mut f64) = v;
+        (pos as *mut f64).write_unaligned(v);
     }
 
     fn compile_f64(&mut self, v: f64) {
-- 
2.43.0


From 564dfe83fc536e8c2c8ecb72a1864f9510a56f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 03/20] fix: address arithmetic words wrap instead of panicking

---
 src/core.rs   | 9 ++++++---
 src/float.rs  | 6 ++++--
 src/memory.rs | 8 ++++----
 3 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 6d52aa8..b39e262 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -2456,7 +2456,8 @@ pub trait Core: Sized {
     ///Add the size in address units of a character to `c-addr1`, giving `c-addr2`.
     fn char_plus(&mut self) {
         let v = self.s_stack().pop();
-        self.s_stack().push(v + mem::size_of::<u8>() as isize);
+        self.s_stack()
+            .push(v.wrapping_add(mem::size_of::<u8>() as isize));
     }
 
     /// Run-time: ( a-addr1 -- a-addr2 )
@@ -2464,7 +2465,8 @@ pub trait Core: Sized {
     /// Add the size in address units of a cell to `a-addr1`, giving `a-addr2`.
     fn cell_plus(&mut self) {
         let v = self.s_stack().pop();
-        self.s_stack().push(v + mem::size_of::<isize>() as isize);
+        self.s_stack()
+            .push(v.wrapping_add(mem::size_of::<isize>() as isize));
     }
 
     /// Run-time: ( n1 -- n2 )
@@ -2472,7 +2474,8 @@ pub trait Core: Sized {
     /// `n2` is the size in address units of `n1` cells.
     fn cells(&mut self) {
         let v = self.s_stack().pop();
-        self.s_stack().push(v * mem::size_of::<isize>() as isize);
+        self.s_stack()
+            .push(v.wrapping_mul(mem::size_of::<isize>() as isize));
     }
 
     fn swap(&mut self) {
diff --git a/src/float.rs b/src/float.rs
index e52b370..9132710 100644
--- a/src/float.rs
+++ b/src/float.rs
@@ -74,7 +74,8 @@ pub trait Float: Core {
     /// Add the size in address units of a float to `a-addr1`, giving `a-addr2`.
     fn float_plus(&mut self) {
         let v = self.s_stack().pop();
-        self.s_stack().push(v + mem::size_of::<f64>() as isize);
+        self.s_stack()
+            .push(v.wrapping_add(mem::size_of::<f64>() as isize));
     }
 
     /// Run-time: ( n1 -- n2 )
@@ -82,7 +83,8 @@ pub trait Float: Core {
     /// `n2` is the size in address units of `n1` floats.
     fn floats(&mut self) {
         let v = self.s_stack().pop();
-        self.s_stack().push(v * mem::size_of::<f64>() as isize);
+        self.s_stack()
+            .push(v.wrapping_mul(mem::size_of::<f64>() as isize));
     }
 
     /// Run-time: ( addr -- a-addr )
diff --git a/src/memory.rs b/src/memory.rs
index bc32fa9..ad05df2 100644
--- a/src/memory.rs
+++ b/src/memory.rs
@@ -273,7 +273,7 @@ pub trait Memory {
     /// First aligned address greater than or equal to `pos`.
     fn aligned(pos: usize) -> usize {
         let align = mem::align_of::<isize>();
-        (pos + align - 1) & align.wrapping_neg()
+        pos.wrapping_add(align - 1) & align.wrapping_neg()
     }
 
     /// If the data-space pointer is not aligned, reserve enough space to align it.
@@ -285,7 +285,7 @@ pub trait Memory {
     /// First float-aligned address greater than or equal to `pos`.
     fn aligned_f64(pos: usize) -> usize {
         let align = mem::align_of::<f64>();
-        (pos + align - 1) & align.wrapping_neg()
+        pos.wrapping_add(align - 1) & align.wrapping_neg()
     }
 
     /// If the data-space pointer is not float-aligned, reserve enough space to align it.
@@ -297,7 +297,7 @@ pub trait Memory {
     /// First address aligned to 16-byte boundary greater than or equal to `pos`.
     fn aligned_16bytes(pos: usize) -> usize {
         let align = 16;
-        (pos + align - 1) & align.wrapping_neg()
+        pos.wrapping_add(align - 1) & align.wrapping_neg()
     }
 
     /// If the space pointer is not aligned to 16-byte boundary, reserve enough space to align it.
@@ -307,7 +307,7 @@ pub trait Memory {
     }
 
     fn allot(&mut self, v: isize) {
-        let here = (self.here() as isize + v) as usize;
+        let here = (self.here() as isize).wrapping_add(v) as usize;
         self.set_here(here);
     }
 
-- 
2.43.0


From c9d6ef8b17e68df89588a3570f0f86b075daee3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 04/20] fix: type and open-source read only the data space

---
 src/loader.rs | 15 +++++++++++----
 src/output.rs | 15 +++++++++------
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/loader.rs b/src/loader.rs
index e23754e..bea536e 100644
--- a/src/loader.rs
+++ b/src/loader.rs
@@ -1,7 +1,9 @@
 //! Source input
 
 use core::Core;
-use exception::{Exception, FILE_IO_EXCEPTION, INVALID_NUMERIC_ARGUMENT};
+use exception::{
+    Exception, FILE_IO_EXCEPTION, INVALID_MEMORY_ADDRESS, INVALID_NUMERIC_ARGUMENT,
+};
 use memory::Memory;
 use output::Output;
 use std::fs::File;
@@ -38,14 +40,19 @@ pub trait HasLoader: Core + Output {
     /// or opened read-write.
     fn open_source(&mut self) {
         let (caddr, u, id) = self.s_stack().pop3();
+        if !self.data_space().has_range(caddr as usize, u as usize) {
+            self.abort_with(INVALID_MEMORY_ADDRESS);
+            return;
+        }
         if id > 0 && id - 1 < self.files().len() as isize {
             match self.files_mut()[id as usize - 1].take() {
                 Some(file) => {
                     let position = self.sources().iter().position(|x| x.is_none());
                     let reader = BufReader::new(file);
-                    let path = String::from(unsafe {
-                        self.data_space().str_from_raw_parts(caddr as _, u as _)
-                    });
+                    let path = String::from_utf8_lossy(unsafe {
+                        self.data_space().buffer_from_raw_parts(caddr as _, u as _)
+                    })
+                    .into_owned();
                     match position {
                         Some(sid) => {
                             self.sources_mut()[sid] = Some(Source { reader, path });
diff --git a/src/output.rs b/src/output.rs
index feece3d..25a5acb 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -1,7 +1,7 @@
 //! Words output to console
 
 use core::Core;
-use exception::{STACK_UNDERFLOW, UNSUPPORTED_OPERATION};
+use exception::{INVALID_MEMORY_ADDRESS, STACK_UNDERFLOW, UNSUPPORTED_OPERATION};
 use memory::Memory;
 use std::fmt::Write;
 
@@ -54,15 +54,18 @@ pub trait Output: Core {
             self.abort_with(STACK_UNDERFLOW);
             return;
         }
+        if len != 0 && !self.data_space().has_range(addr as usize, len as usize) {
+            self.abort_with(INVALID_MEMORY_ADDRESS);
+            return;
+        }
         match self.output_buffer().take() {
             Some(mut buffer) => {
-                {
+                if len != 0 {
                     let s = unsafe {
-                        &self
-                            .data_space()
-                            .str_from_raw_parts(addr as usize, len as usize)
+                        self.data_space()
+                            .buffer_from_raw_parts(addr as usize, len as usize)
                     };
-                    buffer.push_str(s);
+                    buffer.push_str(&String::from_utf8_lossy(s));
                 }
                 self.set_output_buffer(buffer);
             }
-- 
2.43.0


From 7a797ba245a3b796565040eda4518b95c51af13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:35 +0000
Subject: [PATCH 05/20] fix: i and j do not panic on a short return stack

---
 src/core.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index b39e262..47f17da 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1075,9 +1075,9 @@ pub trait Core: Sized {
     }
 
     fn p_j(&mut self) {
-        let pos = self.r_stack().len() - 4;
+        let pos = self.r_stack().len().wrapping_sub(4);
         match self.r_stack().get(pos) {
-            Some(jt) => match self.r_stack().get(pos - 1) {
+            Some(jt) => match self.r_stack().get(pos.wrapping_sub(1)) {
                 Some(jn) => {
                     self.s_stack().push(jt.wrapping_add(jn));
                 }
@@ -1647,7 +1647,7 @@ pub trait Core: Sized {
     fn p_i(&mut self) {
         match self.r_stack().last() {
             Some(it) => {
-                let next = self.r_stack().len - 2;
+                let next = self.r_stack().len.wrapping_sub(2);
                 match self.r_stack().get(next) {
                     Some(inext) => {
                         self.s_stack().push(it.wrapping_add(inext));
-- 
2.43.0


From f25f4729d0a305e5ee2e7377c1d6a8bc9f71321e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:37 +0000
Subject: [PATCH 06/20] fix: activate, suspend and resume do not panic on the
 least integer

---
 src/core.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 47f17da..63a27d6 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1623,7 +1623,7 @@ pub trait Core: Sized {
     }
 
     fn activate(&mut self) {
-        let i = (self.s_stack().pop() - 1) as usize;
+        let i = self.s_stack().pop().wrapping_sub(1) as usize;
         if i < NUM_TASKS {
             // Wake task `i`.
             self.set_awake(i, true);
@@ -3224,7 +3224,7 @@ pub trait Core: Sized {
 
     /// Suspend task `i`. `suspend ( i -- )`
     fn suspend(&mut self) {
-        let i = (self.s_stack().pop() - 1) as usize;
+        let i = self.s_stack().pop().wrapping_sub(1) as usize;
         if i < NUM_TASKS {
             self.set_awake(i as usize, false);
         } else {
@@ -3234,7 +3234,7 @@ pub trait Core: Sized {
 
     /// Resume task `i`. `resume ( i -- )`
     fn resume(&mut self) {
-        let i = (self.s_stack().pop() - 1) as usize;
+        let i = self.s_stack().pop().wrapping_sub(1) as usize;
         if i < NUM_TASKS {
             self.set_awake(i as usize, true);
         } else {
-- 
2.43.0


From 004ebbe99ec2bc0da263fce62165fff1cf2425ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 07/20] fix: abort does not recurse forever when the handler is
 not a word

---
 src/core.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core.rs b/src/core.rs
index 63a27d6..0dc5b65 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -3196,7 +3196,9 @@ pub trait Core: Sized {
         self.set_error(Some(e));
         let h = self.handler();
         self.state().aborted_word_pointer = self.state().word_pointer;
-        self.execute_word(h);
+        if h < self.wordlist().len() {
+            self.execute_word(h);
+        }
     }
 
     /// Abort the inner loop with an exception, reset VM and clears stacks.
-- 
2.43.0


From d2b217577ae893fbcf5f94427029ffc477432693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:40 +0000
Subject: [PATCH 08/20] fix: delete-file leaves a single result for an
 over-long name

---
 src/file_access.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_access.rs b/src/file_access.rs
index 78261db..9c7b5bc 100644
--- a/src/file_access.rs
+++ b/src/file_access.rs
@@ -217,7 +217,7 @@ pub trait FileAccess: Core {
         let caddr = caddr as usize;
         let u = u as usize;
         if u > PATH_NAME_MAX_LEN {
-            self.s_stack().push2(-1, INVALID_NUMERIC_ARGUMENT.into());
+            self.s_stack().push(INVALID_NUMERIC_ARGUMENT.into());
         } else {
             let result = {
                 if self.data_space().has_range(caddr, u) {
-- 
2.43.0


From 446602915013dc036de2a0b0a1f8da0c2f8404d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 09/20] fix: read-file and write-file report the documented
 result codes

---
 src/file_access.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/file_access.rs b/src/file_access.rs
index 9c7b5bc..161e93c 100644
--- a/src/file_access.rs
+++ b/src/file_access.rs
@@ -332,7 +332,7 @@ pub trait FileAccess: Core {
         let u1 = u1 as usize;
         let fileid = fileid as usize;
         if fileid == 0 {
-            self.s_stack().push2(-1, INVALID_NUMERIC_ARGUMENT.into());
+            self.s_stack().push2(0, INVALID_NUMERIC_ARGUMENT.into());
             return;
         }
         let fileid = fileid - 1;
@@ -394,7 +394,7 @@ pub trait FileAccess: Core {
                     };
                     match result {
                         Ok(_) => self.s_stack().push(0),
-                        Err(_) => self.s_stack().push(FILE_IO_EXCEPTION.into()),
+                        Err(e) => self.s_stack().push(e.into()),
                     }
                     self.files_mut()[fileid] = Some(f);
                 }
-- 
2.43.0


From 8da82a59f0471e4dca107eeb47362aeffbe6d39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:44 +0000
Subject: [PATCH 10/20] fix: .r and f.r do not panic on a very negative field
 width

---
 src/output.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/output.rs b/src/output.rs
index 25a5acb..af12907 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -159,7 +159,7 @@ pub trait Output: Core {
                 }
             }
             if valid_base {
-                for _ in 0..(n2 - self.hold_buffer().len() as isize) {
+                for _ in 0..n2.saturating_sub(self.hold_buffer().len() as isize) {
                     buf.push(' ');
                 }
                 buf.push_str(self.hold_buffer());
@@ -202,7 +202,7 @@ pub trait Output: Core {
                 16 => write!(self.hold_buffer(), "{:.16}", r).unwrap(),
                 _ => write!(self.hold_buffer(), "{:.17}", r).unwrap(),
             }
-            for _ in 0..(n1 - self.hold_buffer().len() as isize) {
+            for _ in 0..n1.saturating_sub(self.hold_buffer().len() as isize) {
                 buf.push(' ');
             }
             buf.push_str(self.hold_buffer());
-- 
2.43.0


From 323b445bdbf6be6c5c4eaa669099bc0a4c507559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:50 +0000
Subject: [PATCH 11/20] fix: parsing words do not panic when the source index
 is past the line or inside a character

---
 src/core.rs   | 13 ++++++++-----
 src/output.rs | 10 +++++-----
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 0dc5b65..4a2e50b 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1694,8 +1694,7 @@ pub trait Core: Sized {
         let mut last_token = self.last_token().take().expect("token");
         last_token.clear();
         if let Some(input_buffer) = self.input_buffer().take() {
-            if self.state().source_index < input_buffer.len() {
-                let source = &input_buffer[self.state().source_index..];
+            if let Some(source) = input_buffer.get(self.state().source_index..) {
                 let mut cnt = source.len();
                 let mut char_indices = source.char_indices();
                 loop {
@@ -1768,7 +1767,9 @@ pub trait Core: Sized {
         let mut last_token = self.last_token().take().expect("token");
         last_token.clear();
         {
-            let source = &input_buffer[self.state().source_index..];
+            let source = input_buffer
+                .get(self.state().source_index..)
+                .unwrap_or("");
             let mut cnt = source.len();
             let mut char_indices = source.char_indices();
             loop {
@@ -1804,14 +1805,16 @@ pub trait Core: Sized {
         let input_buffer = self.input_buffer().take().expect("input buffer");
         let v = self.s_stack().pop();
         {
-            let source = &input_buffer[self.state().source_index..];
+            let source = input_buffer
+                .get(self.state().source_index..)
+                .unwrap_or("");
             let mut cnt = 0;
             let mut char_indices = source.char_indices();
             loop {
                 match char_indices.next() {
                     Some((idx, ch)) => {
                         if ch as isize == v {
-                            cnt += 1;
+                            cnt += ch.len_utf8();
                         } else {
                             break;
                         }
diff --git a/src/output.rs b/src/output.rs
index af12907..f9944ab 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -85,11 +85,11 @@ pub trait Output: Core {
     fn s_quote(&mut self) {
         let input_buffer = self.input_buffer().take().unwrap();
         {
-            let source = &input_buffer[self.state().source_index + 1..input_buffer.len()];
+            let source = input_buffer
+                .get(self.state().source_index.saturating_add(1)..)
+                .unwrap_or("");
             let s = match source.find('"') {
-                Some(n) => {
-                    &input_buffer[self.state().source_index + 1..self.state().source_index + 1 + n]
-                }
+                Some(n) => &source[..n],
                 None => source,
             };
             let cnt = s.len();
@@ -99,7 +99,7 @@ pub trait Output: Core {
             self.data_space().compile_str(s);
             self.data_space().align();
             // ignore the space following S"
-            self.state().source_index = self.state().source_index + 1 + cnt as usize + 1;
+            self.state().source_index = self.state().source_index.saturating_add(1 + cnt + 1);
         }
         self.set_input_buffer(input_buffer);
     }
-- 
2.43.0


From 18a2beafdc467e1fc75ff0b761d61b82edcc0c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 12/20] fix: a number prefix or sign without digits is not a
 number

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index cd15872..3c7d44d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -75,6 +75,9 @@ pub fn uint_in_base(input: &[u8], base: isize) -> IResult<isize> {
         value = value.wrapping_mul(base).wrapping_add(d);
         len = len + 1;
     }
+    if len == 0 {
+        return IResult::Err(RESULT_OUT_OF_RANGE);
+    }
     bytes = &bytes[len..];
     IResult::Done(bytes, value)
 }
-- 
2.43.0


From 2e41bf1b843f7dfb7f95678f0d85140dd84ab554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:54 +0000
Subject: [PATCH 13/20] fix: large float exponents are clamped instead of
 truncated

---
 src/core.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core.rs b/src/core.rs
index 4a2e50b..cb41e96 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -2231,9 +2231,13 @@ pub trait Core: Sized {
             if self.references().idx_flit == 0 {
                 self.set_error(Some(UNSUPPORTED_OPERATION));
             } else {
+                let exponent = exponent_sign
+                    .wrapping_mul(exponent_part)
+                    .max(i32::min_value() as isize)
+                    .min(i32::max_value() as isize) as i32;
                 let value = (significand_sign as f64)
                     * (integer_part as f64 + fraction_part)
-                    * ((10.0f64).powi((exponent_sign.wrapping_mul(exponent_part)) as i32) as f64);
+                    * ((10.0f64).powi(exponent) as f64);
                 if self.state().is_compiling {
                     self.compile_float(value);
                 } else {
-- 
2.43.0


From 2cd2faf1a85bac1bbd2fc377e93b2e61f7395234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:56 +0000
Subject: [PATCH 14/20] fix: !token rejects addresses without room instead of
 panicking

---
 src/core.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core.rs b/src/core.rs
index cb41e96..77b99da 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -2010,7 +2010,12 @@ pub trait Core: Sized {
     /// Store token in counted string at `c-addr`.`
     fn store_token(&mut self) {
         let c_addr = self.s_stack().pop() as usize;
-        if self.data_space().start() <= c_addr {
+        let len = self.last_token().as_ref().map_or(0, |t| t.len().min(255));
+        if self.data_space().start() <= c_addr
+            && self
+                .data_space()
+                .has_range(c_addr, len + mem::size_of::<usize>())
+        {
             match self.last_token().take() {
                 Some(mut t) => {
                     self.data_space().put_cstr(&t, c_addr);
-- 
2.43.0


From c99add6275fe2a10ccd15c8ee4323d4f6126e507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:58 +0000
Subject: [PATCH 15/20] fix: _postpone, (xtime) and .backtrace check the
 execution token

---
 src/core.rs  | 8 ++++++--
 src/tools.rs | 9 +++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 77b99da..780d608 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1890,8 +1890,12 @@ pub trait Core: Sized {
         // --+------+---------+-----------+--
         // Because B comes after A, the xt of A is valid during execution of B.
         let xt = self.s_stack().pop() as usize;
-        let compilation_semantics = self.wordlist()[xt].compilation_semantics;
-        compilation_semantics(self, xt);
+        if xt < self.wordlist().len() {
+            let compilation_semantics = self.wordlist()[xt].compilation_semantics;
+            compilation_semantics(self, xt);
+        } else {
+            self.abort_with(INVALID_NUMERIC_ARGUMENT);
+        }
     }
 
     fn compile_token(&mut self) {
diff --git a/src/tools.rs b/src/tools.rs
index 21ee4d2..a2ad971 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -1,5 +1,6 @@
 //! Tools to inspect the rtforth system
 
+use exception::INVALID_NUMERIC_ARGUMENT;
 use memory::Memory;
 use output::Output;
 use std::fmt::Write;
@@ -94,7 +95,7 @@ pub trait Tools: Output {
             }
 
             let xt = self.state().aborted_word_pointer;
-            if xt != 0 {
+            if xt != 0 && xt < self.wordlist().len() {
                 let nfa = self.wordlist()[xt].nfa();
                 let name = unsafe { self.data_space().get_str(nfa) };
                 write!(buf, "{} ", name).unwrap();
@@ -151,7 +152,11 @@ pub trait Tools: Output {
     /// ```
     fn set_execution_times(&mut self) {
         let (t0, xt) = self.s_stack().pop2();
-        let t = (self.system_time_ns() / 1_000) as usize - t0 as usize;
+        let t = ((self.system_time_ns() / 1_000) as usize).wrapping_sub(t0 as usize);
+        if xt as usize >= self.wordlist().len() {
+            self.abort_with(INVALID_NUMERIC_ARGUMENT);
+            return;
+        }
         let word = &mut self.wordlist_mut()[xt as usize];
         if word.min_execution_time != 0 {
             word.min_execution_time = word.min_execution_time.min(t);
-- 
2.43.0


From cbec9d34bda233bda0ded39cdc3864b00404d372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:00 +0000
Subject: [PATCH 16/20] fix: marker and fconstant without a name do not consume
 data space

---
 src/core.rs  | 3 +++
 src/float.rs | 6 ++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 780d608..f958b12 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -2372,6 +2372,9 @@ pub trait Core: Sized {
         let x = self.wordlist().last;
         self.wordlist_mut().temp_buckets = self.wordlist().buckets;
         self.define(Core::unmark, Core::compile_unmark);
+        if self.last_error().is_some() {
+            return;
+        }
         self.data_space().compile_usize(x);
         for i in 0..BUCKET_SIZE {
             let x = self.wordlist().temp_buckets[i];
diff --git a/src/float.rs b/src/float.rs
index 9132710..ce72901 100644
--- a/src/float.rs
+++ b/src/float.rs
@@ -65,8 +65,10 @@ pub trait Float: Core {
     fn fconstant(&mut self) {
         let v = self.f_stack().pop();
         self.define(Float::p_fconst, Core::compile_fconst);
-        self.data_space().align_f64();
-        self.data_space().compile_f64(v);
+        if self.last_error().is_none() {
+            self.data_space().align_f64();
+            self.data_space().compile_f64(v);
+        }
     }
 
     /// Run-time: ( a-addr1 -- a-addr2 )
-- 
2.43.0


From 48290df32f569bab8b30b5bfc9198710cc30f53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:02 +0000
Subject: [PATCH 17/20] hook: private-state access for the verification
 harnesses (cfg rtforth_verif)

---
 src/core.rs  | 41 +++++++++++++++++++++++++++++++++++++++++
 src/lib.rs   |  5 +++++
 src/verif.rs | 44 ++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 90 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/core.rs b/src/core.rs
index f958b12..62f53e1 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -433,6 +433,47 @@ impl State {
     }
 }
 
+// Hooks for the verification harnesses, see `verif`.
+#[cfg(rtforth_verif)]
+impl State {
+    pub(crate) fn verif_set_word_pointer(&mut self, wp: usize) {
+        self.word_pointer = wp;
+    }
+}
+
+#[cfg(rtforth_verif)]
+impl<Target> Word<Target> {
+    pub(crate) fn verif_parts(&self) -> (usize, u32, usize) {
+        (self.link, self.hash, self.doer)
+    }
+
+    pub(crate) fn verif_set_parts(&mut self, link: usize, hash: u32, doer: usize) {
+        self.link = link;
+        self.hash = hash;
+        self.doer = doer;
+    }
+}
+
+#[cfg(rtforth_verif)]
+impl<Target> Wordlist<Target> {
+    pub(crate) fn verif_parts(&self) -> ([usize; BUCKET_SIZE], usize) {
+        (self.buckets, self.last)
+    }
+
+    pub(crate) fn verif_set_parts(&mut self, buckets: [usize; BUCKET_SIZE], last: usize) {
+        self.buckets = buckets;
+        self.last = last;
+    }
+
+    pub(crate) fn verif_push(&mut self, w: Word<Target>) {
+        self.words.push(w);
+    }
+
+    pub(crate) fn verif_hash(name: &str) -> u32 {
+        Self::hash(name)
+    }
+}
+
 #[derive(Clone, Copy, PartialEq)]
 pub enum Control {
     Default,
diff --git a/src/lib.rs b/src/lib.rs
index 19efc73..4bd5462 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -35,3 +35,8 @@ pub const FALSE: isize = 0;
 pub const NUM_TASKS: usize = 5;
 
 pub type Result = result::Result<(), Exception>;
+
+/// Access to private state for the verification harnesses. Not compiled otherwise.
+#[cfg(rtforth_verif)]
+#[doc(hidden)]
+pub mod verif;
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..9fec00a
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,44 @@
+//! Hooks for the verification harnesses, compiled only with
+//! `--cfg rtforth_verif`: they read or set private fields and change nothing else.
+use core::{State, Word, Wordlist};
+pub mod num {
+    pub use parser::{ascii, base, fraction, quoted_char, sign, uint, uint_in_base, IResult};
+}
+
+pub fn set_word_pointer(s: &mut State, wp: usize) {
+    s.verif_set_word_pointer(wp)
+}
+
+/// The private fields of a word: (link, hash, doer)
+pub fn word_parts<T>(w: &Word<T>) -> (usize, u32, usize) {
+    w.verif_parts()
+}
+
+pub fn set_word_parts<T>(w: &mut Word<T>, link: usize, hash: u32, doer: usize) {
+    w.verif_set_parts(link, hash, doer)
+}
+
+pub fn compilation_semantics<T>(w: &Word<T>) -> fn(&mut T, usize) {
+    w.compilation_semantics
+}
+
+pub fn execution_times<T>(w: &Word<T>) -> (usize, usize) {
+    (w.min_execution_time, w.max_execution_time)
+}
+
+pub fn hash<T>(name: &str) -> u32 {
+    Wordlist::<T>::verif_hash(name)
+}
+
+/// The private fields of a word list: (bucket heads, last)
+pub fn wordlist_parts<T>(w: &Wordlist<T>) -> ([usize; 64], usize) {
+    w.verif_parts()
+}
+
+pub fn set_wordlist_parts<T>(w: &mut Wordlist<T>, buckets: [usize; 64], last: usize) {
+    w.verif_set_parts(buckets, last)
+}
+
+pub fn push_word<T>(w: &mut Wordlist<T>, word: Word<T>) {
+    w.verif_push(word)
+}
-- 
2.43.0


From 45c2ea3a3f4db2cb2476c016e8e0bd84fa998d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:04 +0000
Subject: [PATCH 18/20] fix: does> does not allot a cell after the data field
 of the word it defines

---
 src/core.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/core.rs b/src/core.rs
index 62f53e1..c28c2e3 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -2479,7 +2479,6 @@ pub trait Core: Sized {
     /// Run time behavior of does>.
     fn _does(&mut self) {
         let doer = self.state().instruction_pointer + mem::size_of::<isize>();
-        self.data_space().compile_usize(doer);
         let def = self.wordlist().last;
         let word = &mut self.wordlist_mut()[def];
         word.action = Core::xdoes;
-- 
2.43.0


From e574bd82f4baa62f2e33acebcca9697525db2fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:43 +0000
Subject: [PATCH 19/20] fix: postpone of an immediate word executes it instead
 of compiling it

---
 src/core.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index c28c2e3..af255df 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1932,8 +1932,12 @@ pub trait Core: Sized {
         // Because B comes after A, the xt of A is valid during execution of B.
         let xt = self.s_stack().pop() as usize;
         if xt < self.wordlist().len() {
-            let compilation_semantics = self.wordlist()[xt].compilation_semantics;
-            compilation_semantics(self, xt);
+            if self.wordlist()[xt].is_immediate() {
+                self.execute_word(xt);
+            } else {
+                let compilation_semantics = self.wordlist()[xt].compilation_semantics;
+                compilation_semantics(self, xt);
+            }
         } else {
             self.abort_with(INVALID_NUMERIC_ARGUMENT);
         }
-- 
2.43.0


From 51aba54388933b3e4af6787ac018a4ab3aefc8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:09 +0000
Subject: [PATCH 20/20] fix: .( displays its text without the blank that
 delimits the word

---
 src/output.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/output.rs b/src/output.rs
index f9944ab..799202e 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -122,6 +122,8 @@ pub trait Output: Core {
     ///
     /// Parse and display ccc delimited by ) (right parenthesis). .( is an immediate word.
     fn dot_paren(&mut self) {
+        // ignore the space following .(
+        self.state().source_index = self.state().source_index.saturating_add(1);
         self.s_stack().push(')' as isize);
         self.parse();
         let last_token = self.last_token().take().unwrap();
-- 
2.43.0

