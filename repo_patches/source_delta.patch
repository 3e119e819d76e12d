From 3fe494f41520c3f40abab99b0d2a5cf0b73d764f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:18 +0000
Subject: [PATCH 01/63] fix: handle failure of ptr_get_shared_data() in
 acquire_locale_state()

The error was ignored, so the look-up of the shared locale state continued
as if there was no state yet, and the error path then tripped over the
non-zero reference counter of the state it was about to free.
---
 modules/libc/src/locale/locale_tx.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/libc/src/locale/locale_tx.c b/modules/libc/src/locale/locale_tx.c
index 156ba61..d4cde2f 100644
--- a/modules/libc/src/locale/locale_tx.c
+++ b/modules/libc/src/locale/locale_tx.c
@@ -179,6 +179,10 @@ acquire_locale_state(locale_t locobj, struct locale* global,
     do {
         picotm_spinlock_lock(&global->locale_state_lock);
         lstate = ptr_get_shared_data(locobj, error);
+        if (picotm_error_is_set(error)) {
+            picotm_spinlock_unlock(&global->locale_state_lock);
+            return NULL;
+        }
         if (lstate) {
             ++lstate->ref_count;
             picotm_spinlock_unlock(&global->locale_state_lock);
@@ -208,6 +212,7 @@ acquire_locale_state(locale_t locobj, struct locale* global,
     /* not reachable */
 
 err_ptr_test_and_set_shared_data:
+    --lstate->ref_count;
     locale_state_uninit(lstate);
     free(lstate);
     return NULL;
-- 
2.43.0


From c42a633227db62c66088f7b858407311eac4e5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:55 +0000
Subject: [PATCH 02/63] fix: keep conflict of a failed lock acquisition in
 fchmod() and fstat()

The lock functions already set up the error. Overwriting it with errno turned
a conflict, which restarts the transaction, into a spurious failure.
---
 modules/libc/src/fildes/chrdev_tx_ops.c  | 1 -
 modules/libc/src/fildes/dir_tx_ops.c     | 2 --
 modules/libc/src/fildes/fifo_tx_ops.c    | 1 -
 modules/libc/src/fildes/regfile_tx_ops.c | 2 --
 modules/libc/src/fildes/socket_tx_ops.c  | 1 -
 5 files changed, 7 deletions(-)

diff --git a/modules/libc/src/fildes/chrdev_tx_ops.c b/modules/libc/src/fildes/chrdev_tx_ops.c
index 2d57a8a..7198936 100644
--- a/modules/libc/src/fildes/chrdev_tx_ops.c
+++ b/modules/libc/src/fildes/chrdev_tx_ops.c
@@ -164,7 +164,6 @@ fstat_exec(struct file_tx* base,
     /* Acquire file-mode reader lock. */
     chrdev_tx_try_rdlock_field(self, CHRDEV_FIELD_FILE_MODE, error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
         return -1;
     }
 
diff --git a/modules/libc/src/fildes/dir_tx_ops.c b/modules/libc/src/fildes/dir_tx_ops.c
index c6816bf..52e7caf 100644
--- a/modules/libc/src/fildes/dir_tx_ops.c
+++ b/modules/libc/src/fildes/dir_tx_ops.c
@@ -82,7 +82,6 @@ fchmod_exec(struct file_tx* base,
     /* Acquire file-mode lock. */
     dir_tx_try_wrlock_field(self, DIR_FIELD_FILE_MODE, error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
         return -1;
     }
 
@@ -223,7 +222,6 @@ fstat_exec(struct file_tx* base,
     /* Acquire file-mode reader lock. */
     dir_tx_try_rdlock_field(self, DIR_FIELD_FILE_MODE, error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
         return -1;
     }
 
diff --git a/modules/libc/src/fildes/fifo_tx_ops.c b/modules/libc/src/fildes/fifo_tx_ops.c
index 4ae4b53..0579b76 100644
--- a/modules/libc/src/fildes/fifo_tx_ops.c
+++ b/modules/libc/src/fildes/fifo_tx_ops.c
@@ -163,7 +163,6 @@ fstat_exec(struct file_tx* base,
     /* Acquire file-mode reader lock. */
     fifo_tx_try_rdlock_field(self, FIFO_FIELD_FILE_MODE, error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
         return -1;
     }
 
diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index 0a3edda..b30cd39 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -86,7 +86,6 @@ fchmod_exec(struct file_tx* base,
     /* Acquire file-mode lock. */
     regfile_tx_try_wrlock_field(self, REGFILE_FIELD_FILE_MODE, error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
         return -1;
     }
 
@@ -231,7 +230,6 @@ fstat_exec(struct file_tx* base,
 
     regfile_tx_try_rdlock_field(self, REGFILE_FIELD_FILE_MODE, error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
         return -1;
     }
     seekbuf_tx_try_rdlock_field(seekbuf_tx, SEEKBUF_FIELD_FILE_SIZE, error);
diff --git a/modules/libc/src/fildes/socket_tx_ops.c b/modules/libc/src/fildes/socket_tx_ops.c
index 60b73ac..92e460a 100644
--- a/modules/libc/src/fildes/socket_tx_ops.c
+++ b/modules/libc/src/fildes/socket_tx_ops.c
@@ -226,7 +226,6 @@ fstat_exec(struct file_tx* base,
     /* Acquire file-mode reader lock. */
     socket_tx_try_rdlock_field(self, SOCKET_FIELD_FILE_MODE, error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
         return -1;
     }
 
-- 
2.43.0


From ecaef995b7cdd7a74b80aaf07c29dd46b15e1070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:46 +0000
Subject: [PATCH 03/63] fix: don't restart transactions in picotm_irrevocable()
 that are irrevocable

picotm_irrevocable() makes the current transaction irrevocable. Restarting
a transaction that already is irrevocable results in an endless loop, for
example in dup2_tx().
---
 src/picotm.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/picotm.c b/src/picotm.c
index 0138805..a1e4d41 100644
--- a/src/picotm.c
+++ b/src/picotm.c
@@ -323,7 +323,12 @@ PICOTM_EXPORT
 void
 picotm_irrevocable()
 {
-    restart_tx(get_non_null_tx(), PICOTM_MODE_IRREVOCABLE);
+    struct picotm_tx* tx = get_non_null_tx();
+
+    if (picotm_tx_is_irrevocable(tx)) {
+        return;
+    }
+    restart_tx(tx, PICOTM_MODE_IRREVOCABLE);
 }
 
 PICOTM_EXPORT
-- 
2.43.0


From 935c11504c2acf567fe3443eb038d2539f4410fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:46 +0000
Subject: [PATCH 04/63] fix: report failure of dup2() from dup2_tx()

---
 modules/libc/src/unistd.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/libc/src/unistd.c b/modules/libc/src/unistd.c
index 085004a..71c8aa8 100644
--- a/modules/libc/src/unistd.c
+++ b/modules/libc/src/unistd.c
@@ -116,6 +116,9 @@ dup2_tx(int fildes, int fildes2)
     do {
         struct picotm_error error = PICOTM_ERROR_INITIALIZER;
         int res = dup2(fildes, fildes2);
+        if (res < 0) {
+            picotm_error_set_errno(&error, errno);
+        }
         if (!picotm_error_is_set(&error)) {
             return res;
         }
-- 
2.43.0


From 39192c6dfbd0100d754fb8ca78bbf4d3a5fe0e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:45 +0000
Subject: [PATCH 05/63] fix: don't take lock-owner table's lock while holding a
 lock owner's lock

picotm_lock_manager_wait() called remove_waiter() with the waiter's lock
held, and remove_waiter() acquired 'lo_rwlock'. All other functions nest
these locks the other way around. A thread that wakes up waiters while a
thread waits for its own entry and a third one registers a lock owner could
end up in a deadlock if pending writers block readers of 'lo_rwlock'.
---
 src/picotm_lock_manager.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/picotm_lock_manager.c b/src/picotm_lock_manager.c
index 172e817..b10b927 100644
--- a/src/picotm_lock_manager.c
+++ b/src/picotm_lock_manager.c
@@ -417,6 +417,10 @@ remove_waiter(struct picotm_lock_manager* self,
               struct picotm_lock_owner* prec_waiter,
               const struct picotm_lock_slist_funcs* slist_funcs, void* slist)
 {
+    /* The lock-owner table's lock nests outside of the lock owners' own
+     * locks. To preserve this order, we release 'waiter' meanwhile. */
+    picotm_lock_owner_unlock(waiter);
+
     do {
         struct picotm_error error = PICOTM_ERROR_INITIALIZER;
         picotm_os_rwlock_rdlock(&self->lo_rwlock, &error);
@@ -428,6 +432,17 @@ remove_waiter(struct picotm_lock_manager* self,
         break;
     } while (true);
 
+    do {
+        struct picotm_error error = PICOTM_ERROR_INITIALIZER;
+        picotm_lock_owner_lock(waiter, &error);
+        if (picotm_error_is_set(&error)) {
+            picotm_error_mark_as_non_recoverable(&error);
+            picotm_recover_from_error(&error);
+            continue;
+        }
+        break;
+    } while (true);
+
     do {
         if (!prec_waiter) {
 
-- 
2.43.0


From 52423a985aaf57ade2c6456e93b747056cf58971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:08 +0000
Subject: [PATCH 06/63] fix: copy terminating character and stop in
 memccpy_tx()

The function didn't copy the character it was looking for and kept on
copying after it had been found; even forever if it was the first one of a
block.
---
 modules/libc/src/string.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index 54a854a..24c8392 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -49,9 +49,10 @@ memccpy_tx(void* restrict dest, const void* restrict src, int c, size_t n)
         load_tx(src8, buf, siz);
 
         for (size_t i = 0; i < siz; ++i) {
-            if (buf[i] == c) {
+            if (buf[i] == (uint8_t)c) {
                 dest = dest8 + i + 1; /* Return the location after 'c' */
-                siz = i; /* Stop looping */
+                siz = i + 1; /* Copy up to 'c', including 'c' */
+                n = siz; /* Stop looping */
             }
         }
 
-- 
2.43.0


From ac7f3418b8e77c551dd89db884342e59a0d13f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:08 +0000
Subject: [PATCH 07/63] fix: support overlapping buffers in memmove_tx()

The function always copied from the start in blocks, which overwrites source
bytes before they are read if the destination is located after the source.
---
 modules/libc/src/string.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index 24c8392..7e12c09 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -105,6 +105,29 @@ memmove_tx(void* dest, const void* src, size_t n)
     uint8_t* dest8 = dest;
     const uint8_t* src8 = src;
 
+    if ((uintptr_t)dest8 > (uintptr_t)src8) {
+
+        /* Buffers could overlap; copy from the end */
+
+        dest8 += n;
+        src8 += n;
+
+        while (n) {
+
+            uint8_t buf[32];
+
+            size_t siz = n > sizeof(buf) ? sizeof(buf) : n;
+
+            dest8 -= siz;
+            src8 -= siz;
+            n -= siz;
+
+            load_tx(src8, buf, siz);
+            store_tx(dest8, buf, siz);
+        }
+        return dest;
+    }
+
     while (n) {
 
         uint8_t buf[32];
-- 
2.43.0


From 808bce29856002248e96f1b25e56e4adffadfac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:08 +0000
Subject: [PATCH 08/63] fix: store terminating \0 and return its address in
 stpcpy_tx()

---
 modules/libc/src/string.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index 7e12c09..487a230 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -196,8 +196,9 @@ char*
 stpcpy_tx(char* restrict dest, const char* restrict src)
 {
     privatize_c_tx(src, '\0', PICOTM_TM_PRIVATIZE_LOAD);
-    store_tx(dest, src, strlen(src));
-    return dest;
+    size_t len = strlen(src);
+    store_tx(dest, src, len + 1);
+    return dest + len;
 }
 #endif
 
-- 
2.43.0


From cc4edd595472e752c48dacf2341e576fa3ef9211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:08 +0000
Subject: [PATCH 09/63] fix: return end of the copied string in stpncpy_tx()

---
 modules/libc/src/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index 487a230..b6e32d5 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -215,7 +215,7 @@ stpncpy_tx(char* restrict dest, const char* restrict src, size_t n)
     } else {
         store_tx(dest, src, n);
     }
-    return dest;
+    return dest + (len > n ? n : len - 1);
 }
 #endif
 
-- 
2.43.0


From d0c8c2af44ed9bc5adfc5232a33d86c51b53f852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:08 +0000
Subject: [PATCH 10/63] fix: pad destination buffer with \0 in strncpy_tx()

---
 modules/libc/src/string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index b6e32d5..16bc39c 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -363,6 +363,7 @@ strncpy_tx(char* restrict dest, const char* restrict src, size_t n)
     size_t len = strlen(src) + 1;
     if (len < n) {
         store_tx(dest, src, len);
+        memset_tx(dest + len, '\0', n - len);
     } else {
         store_tx(dest, src, n);
     }
-- 
2.43.0


From 5e2bae711a7d35b25b2c4e62ab9a86dd057d4072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:08 +0000
Subject: [PATCH 11/63] fix: write terminating \0 within allocated memory in
 strndup_tm()

If the string had n or more characters, the function copied one character
too many and wrote the terminating \0 after the end of the allocated memory.
---
 modules/libc/src/string-tm.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/modules/libc/src/string-tm.c b/modules/libc/src/string-tm.c
index b93d483..136fb49 100644
--- a/modules/libc/src/string-tm.c
+++ b/modules/libc/src/string-tm.c
@@ -357,16 +357,17 @@ strndup_tm(const char* s, size_t n)
         picotm_recover_from_error(&error);
     } while (true);
 
-    size_t len = strlen(s) + sizeof(*s);
+    size_t len = strlen(s);
     if (n < len) {
-        len = n + sizeof(*s);
+        len = n;
     }
 
     void* mem;
 
     do {
         struct picotm_error error = PICOTM_ERROR_INITIALIZER;
-        allocator_module_posix_memalign(&mem, 2 * sizeof(void*), len, &error);
+        allocator_module_posix_memalign(&mem, 2 * sizeof(void*),
+                                        len + sizeof(*s), &error);
         if (!picotm_error_is_set(&error)) {
             break;
         }
@@ -374,9 +375,7 @@ strndup_tm(const char* s, size_t n)
     } while (true);
 
     char* s2 = memcpy(mem, s, len);
-    if (n < len) {
-        s2[n + 1] = '\0';
-    }
+    s2[len] = '\0';
     return s2;
 }
 #endif
-- 
2.43.0


From 91d7522dcc21b1632c88ac8e311e7f30c09714bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:49 +0000
Subject: [PATCH 12/63] fix: copy from load to store address, block by block,
 in tm_vmem_tx_ldst()

---
 modules/tm/src/vmem_tx.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/modules/tm/src/vmem_tx.c b/modules/tm/src/vmem_tx.c
index 0575110..0358200 100644
--- a/modules/tm/src/vmem_tx.c
+++ b/modules/tm/src/vmem_tx.c
@@ -325,11 +325,12 @@ tm_vmem_tx_ldst(struct tm_vmem_tx* vmem_tx, uintptr_t laddr, uintptr_t saddr,
 
         uint8_t* lmem = tm_page_buffer(lpage);
         uint8_t* smem = tm_page_buffer(spage);
-        memcpy(lmem + lpage_head, smem + spage_head, lpage_diff);
+        size_t diff = lpage_diff < spage_diff ? lpage_diff : spage_diff;
+        memcpy(smem + spage_head, lmem + lpage_head, diff);
 
-        laddr += lpage_diff;
-        saddr += spage_diff;
-        siz   -= lpage_diff;
+        laddr += diff;
+        saddr += diff;
+        siz   -= diff;
     }
 }
 
-- 
2.43.0


From abbb8d37fbf3096c0e5e6bd13800c61250294a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:49 +0000
Subject: [PATCH 13/63] fix: only find terminating character within privatized
 range in tm_page_ld_c()

---
 modules/tm/src/page.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/tm/src/page.c b/modules/tm/src/page.c
index 2841bd8..980ac66 100644
--- a/modules/tm/src/page.c
+++ b/modules/tm/src/page.c
@@ -120,7 +120,7 @@ tm_page_ld_c(struct tm_page* page, unsigned long bits, int c, struct tm_vmem* vm
             *buf = *mem;
             page->buf_bits |= bit;
         }
-        if (page->buf_bits & bit) {
+        if (bits & bit) {
             if (*mem == c) {
                 break;
             }
-- 
2.43.0


From fbc4ddd5f8ae299645b00f202be66c0c49583f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:49 +0000
Subject: [PATCH 14/63] fix: restore content of discarded pages during rollback

---
 modules/tm/src/vmem_tx.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/modules/tm/src/vmem_tx.c b/modules/tm/src/vmem_tx.c
index 0358200..4cba8ce 100644
--- a/modules/tm/src/vmem_tx.c
+++ b/modules/tm/src/vmem_tx.c
@@ -595,8 +595,7 @@ undo_page(struct tm_page* page, struct tm_vmem* vmem,
           struct picotm_error* error)
 {
     if (tm_page_has_wrlocked_frame(page) &&
-        (page->flags & TM_PAGE_FLAG_WRITE_THROUGH) &&
-        !(page->flags & TM_PAGE_FLAG_DISCARDED)) {
+        (page->flags & TM_PAGE_FLAG_WRITE_THROUGH)) {
         tm_page_st(page, copy_all_bits(), vmem, error);
         if (picotm_error_is_set(error)) {
             return 0;
-- 
2.43.0


From bb03a10691e3780014e1816a748f0ebdeb85cab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:15 +0000
Subject: [PATCH 15/63] fix: preserve stored values when privatizing pages

---
 modules/tm/src/vmem_tx.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/modules/tm/src/vmem_tx.c b/modules/tm/src/vmem_tx.c
index 4cba8ce..3b39ee5 100644
--- a/modules/tm/src/vmem_tx.c
+++ b/modules/tm/src/vmem_tx.c
@@ -334,6 +334,19 @@ tm_vmem_tx_ldst(struct tm_vmem_tx* vmem_tx, uintptr_t laddr, uintptr_t saddr,
     }
 }
 
+static void
+write_back_page(struct tm_page* page, struct tm_vmem* vmem,
+                struct picotm_error* error)
+{
+    /* Moves stored values from the page's buffer to memory before
+     * the page enters write-through mode; the buffer receives the
+     * old values. */
+    if (!(page->flags & TM_PAGE_FLAG_WRITE_THROUGH) &&
+        tm_page_has_wrlocked_frame(page)) {
+        tm_page_xchg(page, copy_all_bits(), vmem, error);
+    }
+}
+
 static void
 prepare_page_privatize(struct tm_page* page, uintptr_t addr, size_t siz,
                        struct tm_vmem* vmem,
@@ -344,6 +357,13 @@ prepare_page_privatize(struct tm_page* page, uintptr_t addr, size_t siz,
         return;
     }
 
+    if (flags & PICOTM_TM_PRIVATIZE_LOADSTORE) {
+        write_back_page(page, vmem, error);
+        if (picotm_error_is_set(error)) {
+            return;
+        }
+    }
+
     if (flags & PICOTM_TM_PRIVATIZE_STORE) {
 
         /* Page requires a writer lock. */
@@ -445,6 +465,13 @@ prepare_page_privatize_c(struct tm_page* page,
 {
     bool found_c;
 
+    if (flags & PICOTM_TM_PRIVATIZE_LOADSTORE) {
+        write_back_page(page, vmem, error);
+        if (picotm_error_is_set(error)) {
+            return false;
+        }
+    }
+
     if (flags & PICOTM_TM_PRIVATIZE_STORE) {
 
         /* Page requires a writer lock. */
-- 
2.43.0


From ca93d076b2776b72cede64b9c48111e1fdc3844b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:15 +0000
Subject: [PATCH 16/63] fix: privatize second argument of strcspn_tx()

---
 modules/libc/src/string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index 16bc39c..20404cb 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -282,6 +282,7 @@ size_t
 strcspn_tx(const char* s, const char* reject)
 {
     privatize_c_tx(s, '\0', PICOTM_TM_PRIVATIZE_LOAD);
+    privatize_c_tx(reject, '\0', PICOTM_TM_PRIVATIZE_LOAD);
     return strcspn(s, reject);
 }
 #endif
-- 
2.43.0


From ddc74cafc33163480a165eb5cf178b6325b7acf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:15 +0000
Subject: [PATCH 17/63] fix: privatize tokenized string and store its position
 in strtok_r_tx()

---
 modules/libc/src/string.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index 20404cb..c1fd05c 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -441,12 +441,15 @@ char*
 strtok_r_tx(char* restrict str, const char* restrict delim,
             char** restrict saveptr)
 {
-    privatize_c_tx(str, '\0', PICOTM_TM_PRIVATIZE_LOAD);
     privatize_c_tx(delim, '\0', PICOTM_TM_PRIVATIZE_LOAD);
 
     char* ptr = load_ptr_tx(saveptr);
+    if (str || ptr) {
+        /* str is NULL when continuing with the string in saveptr */
+        privatize_c_tx(str ? str : ptr, '\0', PICOTM_TM_PRIVATIZE_LOADSTORE);
+    }
     char* tok = strtok_r(str, delim, &ptr);
-    store_ptr_tx(saveptr, &ptr);
+    store_ptr_tx(saveptr, ptr);
 
     return tok;
 }
-- 
2.43.0


From 1cb4136580842b900103fc1bf67388485faafb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:15 +0000
Subject: [PATCH 18/63] fix: privatize result argument of posix_memalign_tx()

---
 modules/libc/src/stdlib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/libc/src/stdlib.c b/modules/libc/src/stdlib.c
index 18949e6..018a3f5 100644
--- a/modules/libc/src/stdlib.c
+++ b/modules/libc/src/stdlib.c
@@ -166,7 +166,7 @@ PICOTM_EXPORT
 int
 posix_memalign_tx(void** memptr, size_t alignment, size_t size)
 {
-    privatize_tx(*memptr, sizeof(*memptr), PICOTM_TM_PRIVATIZE_STORE);
+    privatize_tx(memptr, sizeof(*memptr), PICOTM_TM_PRIVATIZE_STORE);
     return posix_memalign_tm(memptr, alignment, size);
 }
 #endif
-- 
2.43.0


From 93a3a4811a1f686183aaf33af2aab1cb180bb275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:15 +0000
Subject: [PATCH 19/63] fix: privatize buffer of getcwd_tx() for storing

---
 modules/libc/src/unistd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/libc/src/unistd.c b/modules/libc/src/unistd.c
index 71c8aa8..66e5c6a 100644
--- a/modules/libc/src/unistd.c
+++ b/modules/libc/src/unistd.c
@@ -182,7 +182,7 @@ PICOTM_EXPORT
 char*
 getcwd_tx(char* buf, size_t size)
 {
-    privatize_tx(buf, size, PICOTM_TM_PRIVATIZE_LOAD);
+    privatize_tx(buf, size, PICOTM_TM_PRIVATIZE_STORE);
     return getcwd_tm(buf, size);
 }
 #endif
-- 
2.43.0


From 07300f6583d67a49ddc8aa6dedc3e03514cf0c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:56 +0000
Subject: [PATCH 20/63] fix: privatize complete output buffer in vsnprintf_tx()

---
 modules/libc/src/stdio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/libc/src/stdio.c b/modules/libc/src/stdio.c
index 3796e4c..31a75ed 100644
--- a/modules/libc/src/stdio.c
+++ b/modules/libc/src/stdio.c
@@ -169,7 +169,7 @@ PICOTM_EXPORT
 int
 vsnprintf_tx(char* s, size_t n, const char* format, va_list ap)
 {
-    privatize_c_tx(s, n, PICOTM_TM_PRIVATIZE_STORE);
+    privatize_tx(s, n, PICOTM_TM_PRIVATIZE_STORE);
     privatize_c_tx(format, '\0', PICOTM_TM_PRIVATIZE_LOAD);
 
     va_list ap_copy;
-- 
2.43.0


From d53376240c934d05a585a7e7701b31469405d7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:56 +0000
Subject: [PATCH 21/63] fix: skip arguments of non-pointer conversions in
 privatize_printf_args()

---
 modules/libc/src/stdio.c | 46 +++++++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/modules/libc/src/stdio.c b/modules/libc/src/stdio.c
index 31a75ed..eece3c5 100644
--- a/modules/libc/src/stdio.c
+++ b/modules/libc/src/stdio.c
@@ -76,8 +76,11 @@ privatize_printf_args(const char* format, va_list arg)
              */
 
             case 'd': case 'i': case 'o': case 'u':
-            case 'x': case 'a': case 'e': case 'f':
-            case 'g':
+            case 'x':
+                (void)va_arg(arg, int);
+                break;
+            case 'a': case 'e': case 'f': case 'g':
+                (void)va_arg(arg, double);
                 break;
             case 's':
                 privatize_c_tx(va_arg(arg, void**), '\0',
@@ -95,9 +98,20 @@ privatize_printf_args(const char* format, va_list arg)
             case 'l':
                 switch (pos[2]) {
                     case 'd': case 'i': case 'o': case 'u':
-                    case 'x': case 'X': case 'n': case 'a':
-                    case 'A': case 'e': case 'E': case 'f':
-                    case 'F': case 'g': case 'G': case 'c':
+                    case 'x': case 'X':
+                        (void)va_arg(arg, long);
+                        break;
+                    case 'n':
+                        privatize_tx(va_arg(arg, long*), sizeof(long),
+                                     PICOTM_TM_PRIVATIZE_STORE);
+                        break;
+                    case 'a': case 'A': case 'e': case 'E':
+                    case 'f': case 'F': case 'g': case 'G':
+                        (void)va_arg(arg, double);
+                        break;
+                    case 'c':
+                        (void)va_arg(arg, int);
+                        break;
                     case '[': case 'm':
                         break;
                     default:
@@ -110,7 +124,12 @@ privatize_printf_args(const char* format, va_list arg)
             case 'j':
                 switch (pos[2]) {
                     case 'd': case 'i': case 'o': case 'u':
-                    case 'x': case 'X': case 'n':
+                    case 'x': case 'X':
+                        (void)va_arg(arg, intmax_t);
+                        break;
+                    case 'n':
+                        privatize_tx(va_arg(arg, intmax_t*), sizeof(intmax_t),
+                                     PICOTM_TM_PRIVATIZE_STORE);
                         break;
                     default:
                         picotm_recover_from_errno(EINVAL);
@@ -122,7 +141,12 @@ privatize_printf_args(const char* format, va_list arg)
             case 'z':
                 switch (pos[2]) {
                     case 'd': case 'i': case 'o': case 'u':
-                    case 'x': case 'X': case 'n':
+                    case 'x': case 'X':
+                        (void)va_arg(arg, size_t);
+                        break;
+                    case 'n':
+                        privatize_tx(va_arg(arg, size_t*), sizeof(size_t),
+                                     PICOTM_TM_PRIVATIZE_STORE);
                         break;
                     default:
                         picotm_recover_from_errno(EINVAL);
@@ -134,7 +158,12 @@ privatize_printf_args(const char* format, va_list arg)
             case 't':
                 switch (pos[2]) {
                     case 'd': case 'i': case 'o': case 'u':
-                    case 'x': case 'X': case 'n':
+                    case 'x': case 'X':
+                        (void)va_arg(arg, ptrdiff_t);
+                        break;
+                    case 'n':
+                        privatize_tx(va_arg(arg, ptrdiff_t*), sizeof(ptrdiff_t),
+                                     PICOTM_TM_PRIVATIZE_STORE);
                         break;
                     default:
                         picotm_recover_from_errno(EINVAL);
@@ -147,6 +176,7 @@ privatize_printf_args(const char* format, va_list arg)
                 switch (pos[2]) {
                     case 'a': case 'A': case 'e': case 'E':
                     case 'f': case 'F': case 'g': case 'G':
+                        (void)va_arg(arg, long double);
                         break;
                     default:
                         picotm_recover_from_errno(EINVAL);
-- 
2.43.0


From dd54ac352641163133868660ac57129cc9fe8615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:57 +0000
Subject: [PATCH 22/63] fix: preserve stored values of memory in realloc_tx()

---
 modules/libc/src/stdlib.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/stdlib.c b/modules/libc/src/stdlib.c
index 018a3f5..34e1ee4 100644
--- a/modules/libc/src/stdlib.c
+++ b/modules/libc/src/stdlib.c
@@ -199,7 +199,7 @@ realloc_tx(void* ptr, size_t size)
 {
     size_t usiz = malloc_usable_size(ptr);
     if (usiz) {
-        privatize_tx(ptr, usiz, 0); /* discard memory region */
+        privatize_tx(ptr, usiz, PICOTM_TM_PRIVATIZE_LOAD); /* for memcpy() */
     }
 
     do {
@@ -235,6 +235,9 @@ realloc_tx(void* ptr, size_t size)
         memcpy(mem, ptr, size < usiz ? size : usiz);
     }
 
+    if (usiz) {
+        privatize_tx(ptr, usiz, 0); /* discard memory region */
+    }
     if (ptr) {
         do {
             struct picotm_error error = PICOTM_ERROR_INITIALIZER;
-- 
2.43.0


From 6c04b3ee3bab7471df8aeb5242960b8d41f09843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:39 +0000
Subject: [PATCH 23/63] fix: return lock information of F_GETLK from fcntl_tx()
 and fcntl_tm()

---
 modules/libc/src/fcntl-tm.c | 3 +++
 modules/libc/src/fcntl.c    | 7 ++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/fcntl-tm.c b/modules/libc/src/fcntl-tm.c
index fa1ac7f..295ed60 100644
--- a/modules/libc/src/fcntl-tm.c
+++ b/modules/libc/src/fcntl-tm.c
@@ -91,6 +91,9 @@ fcntl_tm(int fildes, int cmd, ...)
                 memcpy(&val.arg1, f, sizeof(val.arg1));
 
                 res = fildes_module_fcntl(fildes, cmd, &val, &error);
+                if (cmd == F_GETLK && !picotm_error_is_set(&error)) {
+                    memcpy(f, &val.arg1, sizeof(val.arg1));
+                }
                 break;
             }
             default:
diff --git a/modules/libc/src/fcntl.c b/modules/libc/src/fcntl.c
index 6185624..cb4f4e8 100644
--- a/modules/libc/src/fcntl.c
+++ b/modules/libc/src/fcntl.c
@@ -90,10 +90,15 @@ fcntl_tx(int fildes, int cmd, ...)
                 f = va_arg(arg, struct flock*);
                 va_end(arg);
 
-                privatize_tx(f, sizeof(val.arg1), PICOTM_TM_PRIVATIZE_LOAD);
+                privatize_tx(f, sizeof(val.arg1),
+                             cmd == F_GETLK ? PICOTM_TM_PRIVATIZE_LOADSTORE :
+                                              PICOTM_TM_PRIVATIZE_LOAD);
                 memcpy(&val.arg1, f, sizeof(val.arg1));
 
                 res = fildes_module_fcntl(fildes, cmd, &val, &error);
+                if (cmd == F_GETLK && !picotm_error_is_set(&error)) {
+                    memcpy(f, &val.arg1, sizeof(val.arg1));
+                }
                 break;
             }
             default:
-- 
2.43.0


From d03c11f35d83b4a310ddf77481b42467b864abf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:35 +0000
Subject: [PATCH 24/63] fix: pass address of lock structure to fcntl()

---
 modules/libc/src/fildes/chrdev_tx_ops.c  | 4 ++--
 modules/libc/src/fildes/dir_tx_ops.c     | 4 ++--
 modules/libc/src/fildes/fifo_tx_ops.c    | 4 ++--
 modules/libc/src/fildes/regfile_tx_ops.c | 4 ++--
 modules/libc/src/fildes/socket_tx_ops.c  | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/modules/libc/src/fildes/chrdev_tx_ops.c b/modules/libc/src/fildes/chrdev_tx_ops.c
index 7198936..e250d83 100644
--- a/modules/libc/src/fildes/chrdev_tx_ops.c
+++ b/modules/libc/src/fildes/chrdev_tx_ops.c
@@ -106,7 +106,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
@@ -137,7 +137,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
diff --git a/modules/libc/src/fildes/dir_tx_ops.c b/modules/libc/src/fildes/dir_tx_ops.c
index 52e7caf..b348e95 100644
--- a/modules/libc/src/fildes/dir_tx_ops.c
+++ b/modules/libc/src/fildes/dir_tx_ops.c
@@ -164,7 +164,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
@@ -195,7 +195,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
diff --git a/modules/libc/src/fildes/fifo_tx_ops.c b/modules/libc/src/fildes/fifo_tx_ops.c
index 0579b76..4cf8427 100644
--- a/modules/libc/src/fildes/fifo_tx_ops.c
+++ b/modules/libc/src/fildes/fifo_tx_ops.c
@@ -105,7 +105,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
@@ -136,7 +136,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index b30cd39..f0d5dc6 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -170,7 +170,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
@@ -201,7 +201,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
diff --git a/modules/libc/src/fildes/socket_tx_ops.c b/modules/libc/src/fildes/socket_tx_ops.c
index 92e460a..b98c912 100644
--- a/modules/libc/src/fildes/socket_tx_ops.c
+++ b/modules/libc/src/fildes/socket_tx_ops.c
@@ -168,7 +168,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
@@ -199,7 +199,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
-- 
2.43.0


From ba5b30630cb9294f7a946090ef9f259ddf631494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:35 +0000
Subject: [PATCH 25/63] fix: provide result buffer for fcntl() commands without
 argument

---
 modules/libc/src/fcntl-tm.c | 8 ++++++--
 modules/libc/src/fcntl.c    | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/modules/libc/src/fcntl-tm.c b/modules/libc/src/fcntl-tm.c
index 295ed60..01766a7 100644
--- a/modules/libc/src/fcntl-tm.c
+++ b/modules/libc/src/fcntl-tm.c
@@ -96,9 +96,13 @@ fcntl_tm(int fildes, int cmd, ...)
                 }
                 break;
             }
-            default:
-                res = fildes_module_fcntl(fildes, cmd, NULL, &error);
+            default: {
+                union fcntl_arg val = {
+                    .arg0 = 0
+                };
+                res = fildes_module_fcntl(fildes, cmd, &val, &error);
                 break;
+            }
         }
         if (!picotm_error_is_set(&error)) {
             return res;
diff --git a/modules/libc/src/fcntl.c b/modules/libc/src/fcntl.c
index cb4f4e8..0bbb7a1 100644
--- a/modules/libc/src/fcntl.c
+++ b/modules/libc/src/fcntl.c
@@ -101,9 +101,13 @@ fcntl_tx(int fildes, int cmd, ...)
                 }
                 break;
             }
-            default:
-                res = fildes_module_fcntl(fildes, cmd, NULL, &error);
+            default: {
+                union fcntl_arg val = {
+                    .arg0 = 0
+                };
+                res = fildes_module_fcntl(fildes, cmd, &val, &error);
                 break;
+            }
         }
         if (!picotm_error_is_set(&error)) {
             return res;
-- 
2.43.0


From 364de3d019cf7595724fe5003d81760ba6b8e661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:45 +0000
Subject: [PATCH 26/63] fix: clear floating-point exceptions before calling
 math functions

---
 modules/libm/src/matherr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/libm/src/matherr.c b/modules/libm/src/matherr.c
index a3a0508..39d789c 100644
--- a/modules/libm/src/matherr.c
+++ b/modules/libm/src/matherr.c
@@ -43,7 +43,7 @@ matherr_save_and_clear(int except)
             struct picotm_error error = PICOTM_ERROR_INITIALIZER;
             fpu_module_save_fexcept(&error);
             if (!picotm_error_is_set(&error)) {
-                return;
+                break;
             }
             picotm_recover_from_error(&error);
         } while (true);
-- 
2.43.0


From 695efde7edc8a358cdef4e1ee298671c9fbe9157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:45 +0000
Subject: [PATCH 27/63] fix: save errno before calling setlocale()

---
 modules/libc/src/locale-tm.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/modules/libc/src/locale-tm.c b/modules/libc/src/locale-tm.c
index 18d9dd8..f29d30b 100644
--- a/modules/libc/src/locale-tm.c
+++ b/modules/libc/src/locale-tm.c
@@ -54,6 +54,15 @@ PICOTM_EXPORT
 char*
 setlocale_tm(int category, const char* locale)
 {
+    do {
+        struct picotm_error error = PICOTM_ERROR_INITIALIZER;
+        error_module_save_errno(&error);
+        if (!picotm_error_is_set(&error)) {
+            break;
+        }
+        picotm_recover_from_error(&error);
+    } while (true);
+
     do {
         struct picotm_error error = PICOTM_ERROR_INITIALIZER;
         char* res = locale_module_setlocale(category, locale, &error);
-- 
2.43.0


From 1b3aa2e8145e6f94531cad70f3cfeec90bbdd439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:12 +0000
Subject: [PATCH 28/63] fix: save errno before memory allocation in
 freelocale_tx()

---
 modules/libc/src/locale.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/modules/libc/src/locale.c b/modules/libc/src/locale.c
index d5c4514..dfb2211 100644
--- a/modules/libc/src/locale.c
+++ b/modules/libc/src/locale.c
@@ -57,6 +57,15 @@ PICOTM_EXPORT
 void
 freelocale_tx(locale_t locobj)
 {
+    do {
+        struct picotm_error error = PICOTM_ERROR_INITIALIZER;
+        error_module_save_errno(&error);
+        if (!picotm_error_is_set(&error)) {
+            break;
+        }
+        picotm_recover_from_error(&error);
+    } while (true);
+
     do {
         struct picotm_error error = PICOTM_ERROR_INITIALIZER;
         locale_module_freelocale(locobj, &error);
-- 
2.43.0


From a91ac0b55a7182a8567eb5f13283b179d6d6371d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 29/63] fix: detect overflow when subtracting the minimum value
 from zero

sub_<type>_tx() returned the difference of 0 and any negative value
without checking its range, so that subtracting the type's minimum from
0 wrapped around and returned the minimum instead of reporting an error.
---
 modules/arithmetic/include/picotm/picotm-arithmetic.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/modules/arithmetic/include/picotm/picotm-arithmetic.h b/modules/arithmetic/include/picotm/picotm-arithmetic.h
index 8b753dc..db5a8c3 100644
--- a/modules/arithmetic/include/picotm/picotm-arithmetic.h
+++ b/modules/arithmetic/include/picotm/picotm-arithmetic.h
@@ -267,12 +267,8 @@ __picotm_arithmetic_error_underflow_tx(void);
                 __picotm_arithmetic_error_underflow_tx();                   \
             }                                                               \
         } else /* (rhs < idtval) */ {                                       \
-            if (lhs == idtval) {                                            \
-                return __sub(idtval, rhs);                                  \
-            } else /* (lhs > idtval) || (lhs < idtval) */ {                 \
-                if (__add(maxval, rhs) < lhs) {                             \
-                    __picotm_arithmetic_error_overflow_tx();                \
-                }                                                           \
+            if (__add(maxval, rhs) < lhs) {                                 \
+                __picotm_arithmetic_error_overflow_tx();                    \
             }                                                               \
         }                                                                   \
         return __sub(lhs, rhs);                                             \
-- 
2.43.0


From 572678bb55af7dbbdb7624ad1044e978e066dafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 30/63] fix: correct range checks in multiplication by a
 negative value

mul_<type>_tx() of signed types compared in the wrong direction if the
second factor was negative. It reported an error for results that are
representable, such as 2 * -3 or -2 * -3, and wrapped around for others,
such as INT_MAX * -2.
---
 modules/arithmetic/include/picotm/picotm-arithmetic.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/modules/arithmetic/include/picotm/picotm-arithmetic.h b/modules/arithmetic/include/picotm/picotm-arithmetic.h
index db5a8c3..397272c 100644
--- a/modules/arithmetic/include/picotm/picotm-arithmetic.h
+++ b/modules/arithmetic/include/picotm/picotm-arithmetic.h
@@ -426,13 +426,11 @@ __picotm_arithmetic_error_underflow_tx(void);
             if (lhs == idtval) {                                            \
                 return rhs;                                                 \
             } else if (lhs > idtval) {                                      \
-                if (__div(-maxval, -rhs) < -lhs) {                          \
+                if (__div(minval, lhs) > rhs) {                             \
                     __picotm_arithmetic_error_underflow_tx();               \
                 }                                                           \
             } else /* (lhs < idtval) */ {                                   \
-                if (lhs == minval) {                                        \
-                    __picotm_arithmetic_error_overflow_tx();                \
-                } else if (__div(maxval, rhs) < lhs) {                      \
+                if (__div(maxval, lhs) > rhs) {                             \
                     __picotm_arithmetic_error_overflow_tx();                \
                 }                                                           \
             }                                                               \
-- 
2.43.0


From 41e6963efb53f4b8137babcc90ebb78e669dd063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:55 +0000
Subject: [PATCH 31/63] fix: look up the record locks of the current file in
 rwcountermap

The transaction-local map of record counters cached the pages of record
locks in its own pages. The map is re-used by later transactions with
other file buffers. These transactions acquired and released the record
locks of the first file buffer, which might even have been freed already.
---
 modules/libc/src/fildes/rwcountermap.c | 31 +++++---------------------
 1 file changed, 5 insertions(+), 26 deletions(-)

diff --git a/modules/libc/src/fildes/rwcountermap.c b/modules/libc/src/fildes/rwcountermap.c
index fbd5413..d58ff5e 100644
--- a/modules/libc/src/fildes/rwcountermap.c
+++ b/modules/libc/src/fildes/rwcountermap.c
@@ -35,8 +35,7 @@
  */
 
 struct rwcountermap_page {
-    struct rwlockmap_page* lockpg;
-    struct rwcounter       counter[RWLOCKMAP_PAGE_NENTRIES];
+    struct rwcounter counter[RWLOCKMAP_PAGE_NENTRIES];
 };
 
 static void
@@ -44,8 +43,6 @@ rwcountermap_page_init(struct rwcountermap_page* self)
 {
     assert(self);
 
-    self->lockpg = NULL;
-
     struct rwcounter* counter_beg = picotm_arraybeg(self->counter);
     struct rwcounter* counter_end = picotm_arrayend(self->counter);
 
@@ -61,26 +58,6 @@ rwcountermap_page_uninit(struct rwcountermap_page* self)
     assert(self);
 }
 
-static struct rwlockmap_page*
-rwcountermap_page_get_rwlockmap_page(struct rwcountermap_page* self,
-                                     unsigned long long offset,
-                                     struct rwlockmap* rwlockmap,
-                                     struct picotm_error* error)
-{
-    assert(self);
-
-    if (self->lockpg) {
-        return self->lockpg;
-    }
-
-    self->lockpg = rwlockmap_find_page(rwlockmap, offset, error);
-    if (picotm_error_is_set(error)) {
-        return NULL;
-    }
-
-    return self->lockpg;
-}
-
 static struct rwcounter*
 call_records(struct rwcounter* counter_beg,
              const struct rwcounter* counter_end,
@@ -109,9 +86,11 @@ rwcountermap_page_for_each_record_in_range(
                                                      struct picotm_error*),
     struct picotm_error* error)
 {
+    /* The counters outlive the transaction, and the next transaction
+     * might use them with a different map of locks. So we look up the
+     * locks each time. */
     struct rwlockmap_page* lockpg =
-        rwcountermap_page_get_rwlockmap_page(self, record_offset,
-                                             rwlockmap, error);
+        rwlockmap_find_page(rwlockmap, record_offset, error);
     if (picotm_error_is_set(error)) {
         return 0;
     }
-- 
2.43.0


From c37a5bb5c0ac35c112a1f168155617cbe03df4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:55 +0000
Subject: [PATCH 32/63] fix: lock all records of an unaligned file region

The number of records in a region was computed from the region's length
only. A region that begins within a record and ends in a later one can
touch one more record, which remained unlocked.
---
 modules/libc/src/fildes/seekbuf.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/modules/libc/src/fildes/seekbuf.c b/modules/libc/src/fildes/seekbuf.c
index 0980d2b..173f014 100644
--- a/modules/libc/src/fildes/seekbuf.c
+++ b/modules/libc/src/fildes/seekbuf.c
@@ -31,9 +31,9 @@ recoffset(off_t off)
 }
 
 static size_t
-reccount(size_t len)
+reccount(off_t off, size_t len)
 {
-    return 1 + len/RECSIZE;
+    return 1 + (off % RECSIZE + len) / RECSIZE;
 }
 
 static size_t
@@ -120,7 +120,7 @@ seekbuf_try_rdlock_region(struct seekbuf self[static 1],
                           struct rwcountermap rwcountermap[static 1],
                           struct picotm_error error[static 1])
 {
-    rwcountermap_rdlock(rwcountermap, reccount(nbyte), recoffset(off),
+    rwcountermap_rdlock(rwcountermap, reccount(off, nbyte), recoffset(off),
                         &self->rwlockmap, error);
 }
 
@@ -130,7 +130,7 @@ seekbuf_try_wrlock_region(struct seekbuf self[static 1],
                           struct rwcountermap rwcountermap[static 1],
                           struct picotm_error error[static 1])
 {
-    rwcountermap_wrlock(rwcountermap, reccount(nbyte), recoffset(off),
+    rwcountermap_wrlock(rwcountermap, reccount(off, nbyte), recoffset(off),
                         &self->rwlockmap, error);
 }
 
@@ -138,6 +138,6 @@ void
 seekbuf_unlock_region(struct seekbuf self[static 1], off_t off, size_t nbyte,
                       struct rwcountermap rwcountermap[static 1])
 {
-    rwcountermap_unlock(rwcountermap, reccount(nbyte), recoffset(off),
+    rwcountermap_unlock(rwcountermap, reccount(off, nbyte), recoffset(off),
                         &self->rwlockmap);
 }
-- 
2.43.0


From e30fc9c2e0b781f9e0aef5ee4424101100094e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:46 +0000
Subject: [PATCH 33/63] fix: release record locks if locking a file region
 fails

When locking a region failed after some of its records had been locked,
or when the region could not be recorded, the records that were already
locked remained locked forever.
---
 modules/libc/src/fildes/rwcountermap.c | 31 ++++++++++++++++++++------
 modules/libc/src/fildes/seekbuf_tx.c   |  4 ++++
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/modules/libc/src/fildes/rwcountermap.c b/modules/libc/src/fildes/rwcountermap.c
index d58ff5e..1f087b8 100644
--- a/modules/libc/src/fildes/rwcountermap.c
+++ b/modules/libc/src/fildes/rwcountermap.c
@@ -165,7 +165,7 @@ key_bits(unsigned long long offset, unsigned long page_nbits)
     return offset >> page_nbits;
 }
 
-void
+static unsigned long long
 rwcountermap_for_each_record_in_range(
     struct rwcountermap* self,
     unsigned long long record_length, unsigned long long record_offset,
@@ -176,13 +176,15 @@ rwcountermap_for_each_record_in_range(
 {
     assert(self);
 
+    unsigned long long nrecords = 0;
+
     while (record_length) {
 
         uintptr_t value = picotm_treemap_find_value(
             &self->map, key_bits(record_offset, RWLOCKMAP_PAGE_NBITS),
             rwcountermap_create_page_fn, error);
         if (picotm_error_is_set(error)) {
-            return;
+            return nrecords;
         }
         struct rwcountermap_page* statepg = (struct rwcountermap_page*)value;
 
@@ -193,13 +195,16 @@ rwcountermap_for_each_record_in_range(
                                                        rwlockmap,
                                                        call_record,
                                                        error);
+        nrecords += diff;
         if (picotm_error_is_set(error)) {
-            return;
+            return nrecords;
         }
 
         record_length -= diff;
         record_offset += diff;
     }
+
+    return nrecords;
 }
 
 static void
@@ -215,8 +220,14 @@ rwcountermap_rdlock(struct rwcountermap* self,
                   unsigned long long record_offset,
                   struct rwlockmap* rwlockmap, struct picotm_error* error)
 {
-    rwcountermap_for_each_record_in_range(self, record_length, record_offset,
-                                          rwlockmap, rdlock_record, error);
+    unsigned long long nrecords =
+        rwcountermap_for_each_record_in_range(self, record_length,
+                                              record_offset, rwlockmap,
+                                              rdlock_record, error);
+    if (picotm_error_is_set(error)) {
+        /* release the records we've locked so far */
+        rwcountermap_unlock(self, nrecords, record_offset, rwlockmap);
+    }
 }
 
 static void
@@ -232,8 +243,14 @@ rwcountermap_wrlock(struct rwcountermap* self,
                     unsigned long long record_offset,
                     struct rwlockmap* rwlockmap, struct picotm_error* error)
 {
-    rwcountermap_for_each_record_in_range(self, record_length, record_offset,
-                                          rwlockmap, wrlock_record, error);
+    unsigned long long nrecords =
+        rwcountermap_for_each_record_in_range(self, record_length,
+                                              record_offset, rwlockmap,
+                                              wrlock_record, error);
+    if (picotm_error_is_set(error)) {
+        /* release the records we've locked so far */
+        rwcountermap_unlock(self, nrecords, record_offset, rwlockmap);
+    }
 }
 
 static void
diff --git a/modules/libc/src/fildes/seekbuf_tx.c b/modules/libc/src/fildes/seekbuf_tx.c
index 0aa6a27..ea89284 100644
--- a/modules/libc/src/fildes/seekbuf_tx.c
+++ b/modules/libc/src/fildes/seekbuf_tx.c
@@ -276,6 +276,8 @@ seekbuf_tx_try_rdlock_region(struct seekbuf_tx* self, size_t nbyte,
                                nbyte, offset,
                                error);
     if (picotm_error_is_set(error)) {
+        seekbuf_unlock_region(self->seekbuf, offset, nbyte,
+                              &self->rwcountermap);
         return -1;
     }
 
@@ -300,6 +302,8 @@ seekbuf_tx_try_wrlock_region(struct seekbuf_tx* self, size_t nbyte,
                                nbyte, offset,
                                error);
     if (picotm_error_is_set(error)) {
+        seekbuf_unlock_region(self->seekbuf, offset, nbyte,
+                              &self->rwcountermap);
         return -1;
     }
 
-- 
2.43.0


From 17d77b44dd389969868a0f79f6045edf75525f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:22 +0000
Subject: [PATCH 34/63] fix: release a transaction's locks on locale objects
 when it finishes

The transaction-local state of locale objects was released without
unlocking the object's reader/writer lock. If another transaction held
a reference to the object's shared state, the object remained locked.
---
 modules/libc/src/locale/locale_tx.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/libc/src/locale/locale_tx.c b/modules/libc/src/locale/locale_tx.c
index d4cde2f..665cd93 100644
--- a/modules/libc/src/locale/locale_tx.c
+++ b/modules/libc/src/locale/locale_tx.c
@@ -306,6 +306,8 @@ release_locale_state_tx(struct locale_state_tx* lstate_tx,
         return;
     }
 
+    picotm_rwstate_unlock(&lstate_tx->rwstate, &lstate_tx->lstate->rwlock);
+
     release_locale_state(lstate_tx->locobj, lstate_tx->lstate, global, error);
     if (picotm_error_is_set(error)) {
         return;
-- 
2.43.0


From 2c5a5a566cceb8fda710938170926c72593ca5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:50 +0000
Subject: [PATCH 35/63] fix: report failures of feclearexcept() before calling
 math functions

---
 modules/libm/src/matherr.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modules/libm/src/matherr.c b/modules/libm/src/matherr.c
index 39d789c..95a4e32 100644
--- a/modules/libm/src/matherr.c
+++ b/modules/libm/src/matherr.c
@@ -43,11 +43,13 @@ matherr_save_and_clear(int except)
             struct picotm_error error = PICOTM_ERROR_INITIALIZER;
             fpu_module_save_fexcept(&error);
             if (!picotm_error_is_set(&error)) {
-                break;
+                if (!feclearexcept(except)) {
+                    break;
+                }
+                picotm_error_set_error_code(&error, PICOTM_GENERAL_ERROR);
             }
             picotm_recover_from_error(&error);
         } while (true);
-        feclearexcept(except);
     }
 }
 
-- 
2.43.0


From 7dab1c5a1b8092f57034d4a9f3a48a30832393e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:39 +0000
Subject: [PATCH 36/63] fix: register the math module only after its state has
 been set up

If fegetenv() or fegetexceptflag() failed during set-up, the module stayed
registered without initialized state and was registered again later.
---
 modules/libm/src/fpu_tx.c |  3 +--
 modules/libm/src/fpu_tx.h |  5 +----
 modules/libm/src/module.c | 18 ++++++++++++------
 3 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/modules/libm/src/fpu_tx.c b/modules/libm/src/fpu_tx.c
index 9fa8dd4..aac788c 100644
--- a/modules/libm/src/fpu_tx.c
+++ b/modules/libm/src/fpu_tx.c
@@ -40,9 +40,8 @@ enum {
 };
 
 void
-fpu_tx_init(struct fpu_tx* self, unsigned long module, struct picotm_error* error)
+fpu_tx_init(struct fpu_tx* self, struct picotm_error* error)
 {
-    self->module = module;
     self->flags = 0;
 
     int res = fegetenv(&self->saved_fenv);
diff --git a/modules/libm/src/fpu_tx.h b/modules/libm/src/fpu_tx.h
index d765e31..2a93593 100644
--- a/modules/libm/src/fpu_tx.h
+++ b/modules/libm/src/fpu_tx.h
@@ -42,8 +42,6 @@ struct picotm_error;
  * state in |struct fpu_tx| using the public interface.
  */
 struct fpu_tx {
-    unsigned long module;
-
     unsigned long flags;
 
     fenv_t    saved_fenv;
@@ -54,8 +52,7 @@ struct fpu_tx {
  * Initializes an FPU transaction.
  */
 void
-fpu_tx_init(struct fpu_tx* self, unsigned long module,
-            struct picotm_error* error);
+fpu_tx_init(struct fpu_tx* self, struct picotm_error* error);
 
 /**
  * Cleans up an FPU transaction.
diff --git a/modules/libm/src/module.c b/modules/libm/src/module.c
index 6cd15e8..ab59761 100644
--- a/modules/libm/src/module.c
+++ b/modules/libm/src/module.c
@@ -35,12 +35,11 @@ struct fpu_module {
 };
 
 static void
-fpu_module_init(struct fpu_module* self, unsigned long module_id,
-                struct picotm_error* error)
+fpu_module_init(struct fpu_module* self, struct picotm_error* error)
 {
     assert(self);
 
-    fpu_tx_init(&self->tx, module_id, error);
+    fpu_tx_init(&self->tx, error);
 }
 
 static void
@@ -104,15 +103,22 @@ init_fpu_module(struct fpu_module* module, struct picotm_error* error)
         .release = release_cb
     };
 
-    unsigned long module_id = picotm_register_module(&s_ops, module, error);
+    /* A registration cannot be taken back, so it comes last. */
+
+    fpu_module_init(module, error);
     if (picotm_error_is_set(error)) {
         return;
     }
 
-    fpu_module_init(module, module_id, error);
+    picotm_register_module(&s_ops, module, error);
     if (picotm_error_is_set(error)) {
-        return;
+        goto err_picotm_register_module;
     }
+
+    return;
+
+err_picotm_register_module:
+    fpu_module_uninit(module);
 }
 
 static void
-- 
2.43.0


From 988f60892f4157b399ba5a5f653562f3aed246b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:40 +0000
Subject: [PATCH 37/63] fix: borrow a second when subtracting time values

The seconds of the difference were increased instead of decreased when
the nanoseconds had to borrow; differences came out two seconds too large.
---
 src/picotm_os_timespec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/picotm_os_timespec.c b/src/picotm_os_timespec.c
index d1e06ab..10c6a01 100644
--- a/src/picotm_os_timespec.c
+++ b/src/picotm_os_timespec.c
@@ -90,7 +90,7 @@ picotm_os_sub_timespec(struct timespec* lhs,
 
     time_t carry = rhs->tv_nsec > lhs->tv_nsec;
 
-    lhs->tv_sec -= rhs->tv_sec - carry;
+    lhs->tv_sec -= rhs->tv_sec + carry;
     lhs->tv_nsec -= rhs->tv_nsec;
     lhs->tv_nsec += (MAX_NSEC + 1) * !!carry;
 
-- 
2.43.0


From 7232af3955f8440a492d077c0ce2c3082861e472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:40 +0000
Subject: [PATCH 38/63] fix: compare time values as signed numbers

Seconds can be negative, for example in a difference of time values. The
conversion to an unsigned type made such values larger than all others.
---
 src/picotm_os_timespec.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/picotm_os_timespec.c b/src/picotm_os_timespec.c
index 10c6a01..2e09375 100644
--- a/src/picotm_os_timespec.c
+++ b/src/picotm_os_timespec.c
@@ -99,7 +99,7 @@ picotm_os_sub_timespec(struct timespec* lhs,
 }
 
 static int
-ulonglong_cmp(unsigned long long lhs, unsigned long long rhs)
+longlong_cmp(long long lhs, long long rhs)
 {
     return (lhs > rhs) - (lhs < rhs);
 }
@@ -111,12 +111,12 @@ picotm_os_timespec_compare(const struct timespec* restrict lhs,
     assert(lhs);
     assert(rhs);
 
-    int cmp = ulonglong_cmp(lhs->tv_sec, rhs->tv_sec);
+    int cmp = longlong_cmp(lhs->tv_sec, rhs->tv_sec);
     if (cmp) {
         return cmp;
     }
 
-    return ulonglong_cmp(lhs->tv_nsec, rhs->tv_nsec);
+    return longlong_cmp(lhs->tv_nsec, rhs->tv_nsec);
 }
 
 void
-- 
2.43.0


From 88f6442de5568cca80a350f0489afdff4e955b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:15 +0000
Subject: [PATCH 39/63] fix: hold a reader lock on file descriptors while they
 are in use

Only close() and fcntl() locked the state of a file descriptor. Another
transaction could close a descriptor that was in use; applying the buffered
operations of the transaction that used it then failed during commit.
---
 modules/libc/src/fildes/fildes_tx.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 9a3cbfc..6f03752 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -1109,7 +1109,21 @@ static struct fd_tx*
 get_fd_tx_with_ref(struct fildes_tx* self, int fildes,
                    struct picotm_error* error)
 {
-    return find_fd_tx_with_ref(self, fildes, fildes, false, error);
+    struct fd_tx* fd_tx = find_fd_tx_with_ref(self, fildes, fildes, false,
+                                              error);
+    if (picotm_error_is_set(error)) {
+        return NULL;
+    }
+
+    /* While this transaction uses the file descriptor, no other
+     * transaction may close it. */
+    fd_try_rdlock_field(fd_tx->fd, FD_FIELD_STATE,
+                        fd_tx->rwstate + FD_FIELD_STATE, error);
+    if (picotm_error_is_set(error)) {
+        return NULL;
+    }
+
+    return fd_tx;
 }
 
 static struct fd_tx*
-- 
2.43.0


From 99074a75c7ffdc2ab6e3e9068e393dc6536bf238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:13 +0000
Subject: [PATCH 40/63] fix: let fstat() return the size of the file instead of
 a stale value

---
 modules/libc/src/fildes/regfile_tx_ops.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index f0d5dc6..1ccfd55 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -232,12 +232,8 @@ fstat_exec(struct file_tx* base,
     if (picotm_error_is_set(error)) {
         return -1;
     }
-    seekbuf_tx_try_rdlock_field(seekbuf_tx, SEEKBUF_FIELD_FILE_SIZE, error);
-    if (picotm_error_is_set(error)) {
-        return -1;
-    }
 
-    /* get transaction-local file size */
+    /* read-lock and get transaction-local file size */
     off_t file_size = seekbuf_tx_get_file_size(seekbuf_tx, fildes, error);
     if (picotm_error_is_set(error)) {
         return -1;
-- 
2.43.0


From d5a5195bb913c27bffbb6931aa4b5799a39ff84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 41/63] fix: file-system changes that cannot be undone require
 irrevocability

The transaction-safe chmod(), link(), mkdir(), mkdtemp(), mkfifo(), mknod()
and unlink() changed the file system immediately, even in transactions
that were rolled back and retried later.
---
 modules/libc/src/fildes/fildes_tx.c | 48 +++++++++++++++++++++++++----
 modules/libc/src/fildes/fildes_tx.h | 12 ++++----
 modules/libc/src/fildes/module.c    | 18 +++++++----
 modules/libc/src/stdlib-tm.c        |  2 ++
 4 files changed, 62 insertions(+), 18 deletions(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 6f03752..5ab5589 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -1446,8 +1446,14 @@ undo_bind(struct fildes_tx* self, int fildes, int cookie,
 
 int
 fildes_tx_exec_chmod(struct fildes_tx* self, const char* path, mode_t mode,
-                     struct picotm_error* error)
+                     int isnoundo, struct picotm_error* error)
 {
+    if (!isnoundo) {
+        /* We cannot undo the operation. */
+        picotm_error_set_revocable(error);
+        return -1;
+    }
+
     char* real_path = cwd_module_realpath(path, NULL, error);
     if (picotm_error_is_set(error)) {
         return -1;
@@ -2015,8 +2021,14 @@ undo_fsync(struct fildes_tx* self, int fildes, int cookie,
 
 int
 fildes_tx_exec_link(struct fildes_tx* self, const char* path1, const char* path2,
-                    struct picotm_error* error)
+                    int isnoundo, struct picotm_error* error)
 {
+    if (!isnoundo) {
+        /* We cannot undo the operation. */
+        picotm_error_set_revocable(error);
+        return -1;
+    }
+
     char* real_path1 = cwd_module_realpath(path1, NULL, error);
     if (picotm_error_is_set(error)) {
         return -1;
@@ -2232,8 +2244,14 @@ err_lstat:
 
 int
 fildes_tx_exec_mkdir(struct fildes_tx* self, const char* path, mode_t mode,
-                     struct picotm_error* error)
+                     int isnoundo, struct picotm_error* error)
 {
+    if (!isnoundo) {
+        /* We cannot undo the operation. */
+        picotm_error_set_revocable(error);
+        return -1;
+    }
+
     char* abs_path = absolute_path(path, error);
     if (picotm_error_is_set(error)) {
         return -1;
@@ -2260,8 +2278,14 @@ err_mkdir:
 
 int
 fildes_tx_exec_mkfifo(struct fildes_tx* self, const char* path, mode_t mode,
-                      struct picotm_error* error)
+                      int isnoundo, struct picotm_error* error)
 {
+    if (!isnoundo) {
+        /* We cannot undo the operation. */
+        picotm_error_set_revocable(error);
+        return -1;
+    }
+
     char* abs_path = absolute_path(path, error);
     if (picotm_error_is_set(error)) {
         return -1;
@@ -2288,8 +2312,14 @@ err_mkfifo:
 
 int
 fildes_tx_exec_mknod(struct fildes_tx* self, const char* path, mode_t mode,
-                     dev_t dev, struct picotm_error* error)
+                     dev_t dev, int isnoundo, struct picotm_error* error)
 {
+    if (!isnoundo) {
+        /* We cannot undo the operation. */
+        picotm_error_set_revocable(error);
+        return -1;
+    }
+
     char* abs_path = absolute_path(path, error);
     if (picotm_error_is_set(error)) {
         return -1;
@@ -3195,8 +3225,14 @@ undo_sync(struct fildes_tx* self, int fildes, int cookie,
 
 int
 fildes_tx_exec_unlink(struct fildes_tx* self, const char* path,
-                      struct picotm_error* error)
+                      int isnoundo, struct picotm_error* error)
 {
+    if (!isnoundo) {
+        /* We cannot undo the operation. */
+        picotm_error_set_revocable(error);
+        return -1;
+    }
+
     char* real_path = cwd_module_realpath(path, NULL, error);
     if (picotm_error_is_set(error)) {
         return -1;
diff --git a/modules/libc/src/fildes/fildes_tx.h b/modules/libc/src/fildes/fildes_tx.h
index c5db04c..15f1241 100644
--- a/modules/libc/src/fildes/fildes_tx.h
+++ b/modules/libc/src/fildes/fildes_tx.h
@@ -103,7 +103,7 @@ fildes_tx_exec_bind(struct fildes_tx* self, int socket,
 
 int
 fildes_tx_exec_chmod(struct fildes_tx* self, const char* path, mode_t mode,
-                     struct picotm_error* error);
+                     int isnoundo, struct picotm_error* error);
 
 int
 fildes_tx_exec_close(struct fildes_tx* self, int fildes, int isnoundo,
@@ -141,7 +141,7 @@ fildes_tx_exec_fsync(struct fildes_tx* self, int fildes, int isnoundo,
 
 int
 fildes_tx_exec_link(struct fildes_tx* self, const char* path1, const char* path2,
-                    struct picotm_error* error);
+                    int isnoundo, struct picotm_error* error);
 
 int
 fildes_tx_exec_listen(struct fildes_tx* self, int sockfd, int backlog,
@@ -157,15 +157,15 @@ fildes_tx_exec_lseek(struct fildes_tx* self, int fildes, off_t offset,
 
 int
 fildes_tx_exec_mkdir(struct fildes_tx* self, const char* path, mode_t mode,
-                     struct picotm_error* error);
+                     int isnoundo, struct picotm_error* error);
 
 int
 fildes_tx_exec_mkfifo(struct fildes_tx* self, const char* path, mode_t mode,
-                      struct picotm_error* error);
+                      int isnoundo, struct picotm_error* error);
 
 int
 fildes_tx_exec_mknod(struct fildes_tx* self, const char* path, mode_t mode,
-                     dev_t dev, struct picotm_error* error);
+                     dev_t dev, int isnoundo, struct picotm_error* error);
 
 int
 fildes_tx_exec_mkstemp(struct fildes_tx* self, char* pathname,
@@ -226,7 +226,7 @@ fildes_tx_exec_sync(struct fildes_tx* self, struct picotm_error* error);
 
 int
 fildes_tx_exec_unlink(struct fildes_tx* self, const char* path,
-                      struct picotm_error* error);
+                      int isnoundo, struct picotm_error* error);
 
 ssize_t
 fildes_tx_exec_write(struct fildes_tx* self, int fildes, const void* buf,
diff --git a/modules/libc/src/fildes/module.c b/modules/libc/src/fildes/module.c
index b78e396..13e9562 100644
--- a/modules/libc/src/fildes/module.c
+++ b/modules/libc/src/fildes/module.c
@@ -263,7 +263,8 @@ fildes_module_chmod(const char* path, mode_t mode, struct picotm_error* error)
     if (picotm_error_is_set(error)) {
         return -1;
     }
-    return fildes_tx_exec_chmod(fildes_tx, path, mode, error);
+    return fildes_tx_exec_chmod(fildes_tx, path, mode,
+                                picotm_is_irrevocable(), error);
 }
 
 int
@@ -372,7 +373,8 @@ fildes_module_link(const char* path1, const char* path2,
     if (picotm_error_is_set(error)) {
         return -1;
     }
-    return fildes_tx_exec_link(fildes_tx, path1, path2, error);
+    return fildes_tx_exec_link(fildes_tx, path1, path2,
+                               picotm_is_irrevocable(), error);
 }
 
 int
@@ -416,7 +418,8 @@ fildes_module_mkdir(const char* path, mode_t mode, struct picotm_error* error)
     if (picotm_error_is_set(error)) {
         return -1;
     }
-    return fildes_tx_exec_mkdir(fildes_tx, path, mode, error);
+    return fildes_tx_exec_mkdir(fildes_tx, path, mode,
+                                picotm_is_irrevocable(), error);
 }
 
 int
@@ -427,7 +430,8 @@ fildes_module_mkfifo(const char* path, mode_t mode,
     if (picotm_error_is_set(error)) {
         return -1;
     }
-    return fildes_tx_exec_mkfifo(fildes_tx, path, mode, error);
+    return fildes_tx_exec_mkfifo(fildes_tx, path, mode,
+                                 picotm_is_irrevocable(), error);
 }
 
 int
@@ -438,7 +442,8 @@ fildes_module_mknod(const char* path, mode_t mode, dev_t dev,
     if (picotm_error_is_set(error)) {
         return -1;
     }
-    return fildes_tx_exec_mknod(fildes_tx, path, mode, dev, error);
+    return fildes_tx_exec_mknod(fildes_tx, path, mode, dev,
+                                picotm_is_irrevocable(), error);
 }
 
 int
@@ -597,7 +602,8 @@ fildes_module_unlink(const char* path, struct picotm_error* error)
     if (picotm_error_is_set(error)) {
         return -1;
     }
-    return fildes_tx_exec_unlink(fildes_tx, path, error);
+    return fildes_tx_exec_unlink(fildes_tx, path,
+                                 picotm_is_irrevocable(), error);
 }
 
 ssize_t
diff --git a/modules/libc/src/stdlib-tm.c b/modules/libc/src/stdlib-tm.c
index 0dfeffc..42bf175 100644
--- a/modules/libc/src/stdlib-tm.c
+++ b/modules/libc/src/stdlib-tm.c
@@ -58,6 +58,8 @@ PICOTM_EXPORT
 char*
 mkdtemp_tm(char* template)
 {
+    picotm_irrevocable();
+
     do {
         struct picotm_error error = PICOTM_ERROR_INITIALIZER;
         error_module_save_errno(&error);
-- 
2.43.0


From 395860abe18dbd3fa0e075058729033f795184cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 42/63] fix: Test open() flags for O_TRUNC and O_CREAT, instead
 of file mode

---
 modules/libc/src/fildes/fildes_tx.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 5ab5589..89aefba 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -2420,8 +2420,8 @@ undo_mkstemp(struct fildes_tx* self, int fildes, int cookie,
  * open()
  */
 
-#define DO_UNLINK(mode_) \
-    ( ( (mode_)&(O_CREAT|O_EXCL) ) == (O_CREAT|O_EXCL) )
+#define DO_UNLINK(oflag_) \
+    ( ( (oflag_)&(O_CREAT|O_EXCL) ) == (O_CREAT|O_EXCL) )
 
 int
 fildes_tx_exec_open(struct fildes_tx* self, const char* path, int oflag,
@@ -2429,7 +2429,7 @@ fildes_tx_exec_open(struct fildes_tx* self, const char* path, int oflag,
 {
     /* O_TRUNC needs irrevocability */
 
-    if ((mode&O_TRUNC) && !isnoundo) {
+    if ((oflag&O_TRUNC) && !isnoundo) {
         picotm_error_set_revocable(error);
         return -1;
     }
@@ -2461,7 +2461,7 @@ fildes_tx_exec_open(struct fildes_tx* self, const char* path, int oflag,
     }
 
     int cookie = openoptab_append(&self->openoptab,
-                                  &self->openoptablen, DO_UNLINK(mode),
+                                  &self->openoptablen, DO_UNLINK(oflag),
                                   error);
     if (picotm_error_is_set(error)) {
         goto err_openoptab_append;
-- 
2.43.0


From ddd019f4cada24fdf3effec1aca8a2604653ac95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 43/63] fix: Remove newly created file if open() fails

---
 modules/libc/src/fildes/fildes_tx.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 89aefba..6c30444 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -2482,6 +2482,9 @@ fildes_tx_exec_open(struct fildes_tx* self, const char* path, int oflag,
 err_fildes_log_append:
 err_openoptab_append:
 err_add_new_fd_tx_with_ref:
+    if (DO_UNLINK(oflag)) {
+        unlink(abs_path);
+    }
     TEMP_FAILURE_RETRY(close(fildes));
 err_open:
     free(abs_path);
-- 
2.43.0


From 59e16c5e51a1e8f076a135f5026b91d7b67d16c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 44/63] fix: Close file descriptors if pipe() cannot be
 recorded

---
 modules/libc/src/fildes/fildes_tx.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 6c30444..acec8ea 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -2570,6 +2570,12 @@ fildes_tx_exec_pipe(struct fildes_tx* self, int pipefd[2],
                                   &self->pipeoptablen, pipefd,
                                   error);
     if (picotm_error_is_set(error)) {
+        if (TEMP_FAILURE_RETRY(close(pipefd[0])) < 0) {
+            perror("close");
+        }
+        if (TEMP_FAILURE_RETRY(close(pipefd[1])) < 0) {
+            perror("close");
+        }
         return -1;
     }
 
-- 
2.43.0


From 72fd4408e4583d7d85aa43c9267dc90fff1af6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 45/63] fix: Close file descriptor if mkstemp() cannot be
 recorded

---
 modules/libc/src/fildes/fildes_tx.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index acec8ea..a10ed36 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -2388,6 +2388,7 @@ fildes_tx_exec_mkstemp(struct fildes_tx* self, char* pathname,
 
 err_fildes_log_append:
     unlink(abs_path);
+    TEMP_FAILURE_RETRY(close(fildes));
 err_mkstemp:
     free(abs_path);
     return -1;
-- 
2.43.0


From 5c85035fdb955c39ed22071f343fb84d0c99f482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 46/63] fix: Restore file mode if fchmod() cannot be recorded

---
 modules/libc/src/fildes/dir_tx_ops.c     | 8 +++++++-
 modules/libc/src/fildes/regfile_tx_ops.c | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/modules/libc/src/fildes/dir_tx_ops.c b/modules/libc/src/fildes/dir_tx_ops.c
index b348e95..f38db9c 100644
--- a/modules/libc/src/fildes/dir_tx_ops.c
+++ b/modules/libc/src/fildes/dir_tx_ops.c
@@ -105,7 +105,13 @@ fchmod_exec(struct file_tx* base,
                                  mode, old_mode,
                                  error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
+        if (fchmod(fildes, old_mode) < 0) {
+            /* We keep the original error code. We mark the error
+             * as non-recoverable, because the file mode remains
+             * changed. */
+            picotm_error_mark_as_non_recoverable(error);
+        }
+        return -1;
     }
 
     return res;
diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index 1ccfd55..af4f2d1 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -109,7 +109,13 @@ fchmod_exec(struct file_tx* base,
                                  mode, old_mode,
                                  error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
+        if (fchmod(fildes, old_mode) < 0) {
+            /* We keep the original error code. We mark the error
+             * as non-recoverable, because the file mode remains
+             * changed. */
+            picotm_error_mark_as_non_recoverable(error);
+        }
+        return -1;
     }
 
     return res;
-- 
2.43.0


From 16079c7373894b6bcac1bdcbac6c3496d8a5856a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 47/63] fix: Restore locale if uselocale() cannot be recorded

---
 modules/libc/src/locale/locale_tx.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/libc/src/locale/locale_tx.c b/modules/libc/src/locale/locale_tx.c
index 665cd93..3b10472 100644
--- a/modules/libc/src/locale/locale_tx.c
+++ b/modules/libc/src/locale/locale_tx.c
@@ -769,6 +769,12 @@ uselocale_wr_exec(struct locale_tx* self, locale_t newloc,
 
     locale_log_append(self->log, LOCALE_OP_USELOCALE, &arg, error);
     if (picotm_error_is_set(error)) {
+        if (uselocale(oldloc) == (locale_t)0) {
+            /* We keep the original error code. We mark the error
+             * as non-recoverable, because the function's clean-up
+             * failed. */
+            picotm_error_mark_as_non_recoverable(error);
+        }
         return (locale_t)0;
     }
 
-- 
2.43.0


From 59ba86a907e46876d8facc05eef207397fc3ad1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 48/63] fix: Preserve base locale of newlocale() until commit

---
 modules/libc/src/locale/locale_event.h |  1 +
 modules/libc/src/locale/locale_tx.c    | 25 +++++++++++++++++++++++--
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/modules/libc/src/locale/locale_event.h b/modules/libc/src/locale/locale_event.h
index a9e7718..74ba012 100644
--- a/modules/libc/src/locale/locale_event.h
+++ b/modules/libc/src/locale/locale_event.h
@@ -69,6 +69,7 @@ struct locale_event {
 #if defined(PICOTM_LIBC_HAVE_NEWLOCALE) && PICOTM_LIBC_HAVE_NEWLOCALE
         struct {
             locale_t result;
+            locale_t base;
         } newlocale;
 #endif
         struct {
diff --git a/modules/libc/src/locale/locale_tx.c b/modules/libc/src/locale/locale_tx.c
index 3b10472..99b1358 100644
--- a/modules/libc/src/locale/locale_tx.c
+++ b/modules/libc/src/locale/locale_tx.c
@@ -537,14 +537,29 @@ locale_tx_newlocale_exec(struct locale_tx* self, int category_mask,
 
     /* create a new locale */
 
-    locale_t locobj = newlocale(category_mask, locale, base);
+    /* A call to newlocale() modifies or releases its base object. We
+     * hand over a copy, so that the base survives a roll back. */
+    locale_t dupbase = (locale_t)0;
+    if (base != (locale_t)0) {
+        dupbase = duplocale(base);
+        if (dupbase == (locale_t)0) {
+            picotm_error_set_errno(error, errno);
+            return (locale_t)0;
+        }
+    }
+
+    locale_t locobj = newlocale(category_mask, locale, dupbase);
     if (locobj == (locale_t)0) {
         picotm_error_set_errno(error, errno);
+        if (dupbase != (locale_t)0) {
+            freelocale(dupbase);
+        }
         return (locale_t)0;
     }
 
     struct locale_event arg;
     arg.arg.newlocale.result = locobj;
+    arg.arg.newlocale.base = base;
 
     locale_log_append(self->log, LOCALE_OP_NEWLOCALE, &arg, error);
     if (picotm_error_is_set(error)) {
@@ -561,7 +576,13 @@ err_locale_log_append:
 static void
 apply_newlocale(struct locale_tx* self, const struct locale_event* arg,
                 struct picotm_error* error)
-{ }
+{
+    assert(arg);
+
+    if (arg->arg.newlocale.base != (locale_t)0) {
+        freelocale(arg->arg.newlocale.base);
+    }
+}
 
 static void
 undo_newlocale(struct locale_tx* self, const struct locale_event* arg,
-- 
2.43.0


From 8593ad088f9a7036c9a8f162c08514140ac73e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:38 +0000
Subject: [PATCH 49/63] fix: Undo container operations that cannot be recorded

---
 modules/txlib/src/txlib_tx.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/modules/txlib/src/txlib_tx.c b/modules/txlib/src/txlib_tx.c
index d8c5e89..de2a1b0 100644
--- a/modules/txlib/src/txlib_tx.c
+++ b/modules/txlib/src/txlib_tx.c
@@ -301,6 +301,13 @@ txlib_tx_append_events3(struct txlib_tx* self, size_t nevents,
 
         picotm_append_event(self->module, 0, beg - self->event, error);
         if (picotm_error_is_set(error)) {
+            /* The event has already been performed, but the log won't
+             * undo it. */
+            struct picotm_error undo_error = PICOTM_ERROR_INITIALIZER;
+            txlib_event_undo(beg, &undo_error);
+            if (picotm_error_is_set(&undo_error)) {
+                picotm_error_mark_as_non_recoverable(error);
+            }
             return;
         }
     }
-- 
2.43.0


From 1739bdd5f8a2b8e32785b9001044cefbbc67f868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:33 +0000
Subject: [PATCH 50/63] fix: Move sub-tree when inserting duplicate keys into
 multiset

---
 modules/txlib/src/txmultiset_entry.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/txlib/src/txmultiset_entry.c b/modules/txlib/src/txmultiset_entry.c
index f23cdcf..5d55656 100644
--- a/modules/txlib/src/txmultiset_entry.c
+++ b/modules/txlib/src/txmultiset_entry.c
@@ -205,6 +205,11 @@ insert_at(struct txmultiset_entry* entry, struct txmultiset_entry* position)
     entry->internal.ge = position;
     entry->internal.parent = position->internal.parent;
 
+    if (entry->internal.lt) {
+        entry->internal.lt->internal.parent = entry;
+    }
+    position->internal.lt = NULL;
+
     if (position->internal.parent->internal.lt == position) {
         position->internal.parent->internal.lt = entry;
     } else {
-- 
2.43.0


From aed5d8df2670ee7f3c37c13a241dcf4a692fb86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:33 +0000
Subject: [PATCH 51/63] fix: Return bounds of key range from multiset

---
 modules/txlib/src/txmultiset_state.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/modules/txlib/src/txmultiset_state.c b/modules/txlib/src/txmultiset_state.c
index e732820..575ec47 100644
--- a/modules/txlib/src/txmultiset_state.c
+++ b/modules/txlib/src/txmultiset_state.c
@@ -163,7 +163,7 @@ txmultiset_state_lower_bound(struct txmultiset_state* self, const void* key)
 
         int cmp = self->internal.compare(key, self->internal.key(pos));
         if (cmp) {
-            return pos;
+            break;
         }
 
         entry = pos;
@@ -194,13 +194,11 @@ txmultiset_state_upper_bound(struct txmultiset_state* self, const void* key)
 
         int cmp = self->internal.compare(key, self->internal.key(pos));
         if (cmp) {
-            return pos;
+            break;
         }
-
-        entry = pos;
     }
 
-    return entry;
+    return pos;
 }
 
 size_t
-- 
2.43.0


From a05915d28435192a3a7f394e601829255b7c841f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 52/63] fix: Restore file mode if fchmod() cannot be recorded

---
 modules/libc/src/fildes/fildes_tx.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index a10ed36..f9136c4 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -1780,11 +1780,24 @@ fildes_tx_exec_fchmod(struct fildes_tx* self, int fildes, mode_t mode,
     if (cookie >= 0) {
         fildes_log_append(self->log, FILDES_OP_FCHMOD, fildes, cookie, error);
         if (picotm_error_is_set(error)) {
-            return -1;
+            goto err_fildes_log_append;
         }
     }
 
     return res;
+
+err_fildes_log_append:
+    {
+        struct picotm_error undo_error = PICOTM_ERROR_INITIALIZER;
+        fd_tx_fchmod_undo(fd_tx, fildes, cookie, &undo_error);
+        if (picotm_error_is_set(&undo_error)) {
+            /* We keep the original error code. We mark the error
+             * as non-recoverable, because the file mode remains
+             * changed. */
+            picotm_error_mark_as_non_recoverable(error);
+        }
+    }
+    return -1;
 }
 
 static void
-- 
2.43.0


From b604b5fcc59dc6e3c73367f56d52dd6af5b80a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:22 +0000
Subject: [PATCH 53/63] fix: Reject discarded pages in privatize_c_tx()

Privatizing memory that the transaction already discarded is an
out-of-bounds access. privatize_tx() signals an error, but
privatize_c_tx() silently handed out the memory.
---
 modules/tm/src/vmem_tx.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/tm/src/vmem_tx.c b/modules/tm/src/vmem_tx.c
index 3b39ee5..11df553 100644
--- a/modules/tm/src/vmem_tx.c
+++ b/modules/tm/src/vmem_tx.c
@@ -465,6 +465,11 @@ prepare_page_privatize_c(struct tm_page* page,
 {
     bool found_c;
 
+    if (page->flags & TM_PAGE_FLAG_DISCARDED) {
+        picotm_error_set_error_code(error, PICOTM_OUT_OF_BOUNDS);
+        return false;
+    }
+
     if (flags & PICOTM_TM_PRIVATIZE_LOADSTORE) {
         write_back_page(page, vmem, error);
         if (picotm_error_is_set(error)) {
-- 
2.43.0


From c4f60148b0e134ee30e4333fd23059326025b7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:22 +0000
Subject: [PATCH 54/63] fix: Load memory before searching for a terminator in
 privatize_c_tx()

With no access flags, privatize_c_tx() searched the page's buffer for
the terminating character. If the transaction had not loaded the memory
before, the buffer was uninitialized.
---
 modules/tm/src/vmem_tx.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/modules/tm/src/vmem_tx.c b/modules/tm/src/vmem_tx.c
index 11df553..36de327 100644
--- a/modules/tm/src/vmem_tx.c
+++ b/modules/tm/src/vmem_tx.c
@@ -524,6 +524,14 @@ prepare_page_privatize_c(struct tm_page* page,
             }
         }
 
+        if (!tm_page_is_complete(page)) {
+            /* Load memory before searching in the page's buffer. */
+            tm_page_ld(page, copy_bits(addr, page_diff), vmem, error);
+            if (picotm_error_is_set(error)) {
+                return false;
+            }
+        }
+
         uintptr_t page_addr = tm_page_address(page);
         size_t page_head = addr - page_addr;
         const uint8_t* mem = tm_page_buffer(page);
-- 
2.43.0


From 982f7ed3d30026ee3dc1e08dc4177c1c42abf708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:24 +0000
Subject: [PATCH 55/63] fix: look up active socket buffers in the list of
 socket buffers

get_sockbuf_tx() searched the list of active pipe buffers. A socket buffer that
was already in use by the transaction was not found, and a pipe buffer could be
mistaken for a socket buffer.
---
 modules/libc/src/fildes/fildes_tx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index f9136c4..43852ca 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -571,7 +571,7 @@ get_sockbuf_tx(struct fildes_tx* self, const struct filebuf_id* id,
 {
     /* Let's see if we already have the sockbuf in use.*/
 
-    struct picotm_slist* pos = picotm_slist_find_1(&self->pipebuf_tx_active_list,
+    struct picotm_slist* pos = picotm_slist_find_1(&self->sockbuf_tx_active_list,
                                                    true_if_eq_sockbuf_id_cb,
                                                    (void*)id);
     if (pos != picotm_slist_end(&self->sockbuf_tx_active_list)) {
-- 
2.43.0


From 1b7914c85587c48df62eda5fe2e79b5879636da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:24 +0000
Subject: [PATCH 56/63] fix: give character devices a buffer for their writes

chrdev_tx::seekbuf_tx was never assigned, so every transactional write() to a
character device dereferenced a null pointer.
---
 modules/libc/src/fildes/fildes_tx.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 43852ca..0fa1595 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -720,10 +720,17 @@ get_chrdev_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
         return NULL;
     }
 
+    struct seekbuf_tx* seekbuf_tx = get_seekbuf_tx_with_ref(self, fildes,
+                                                            new_file, error);
+    if (picotm_error_is_set(error)) {
+        goto err_get_seekbuf_tx_with_ref;
+    }
+
     file_tx_ref_or_set_up(&chrdev_tx->base, &chrdev->base, NULL, error);
     if (picotm_error_is_set(error)) {
         goto err_file_tx_ref_or_set_up;
     }
+    chrdev_tx->seekbuf_tx = seekbuf_tx;
 
     picotm_slist_enqueue_front(&self->file_tx_active_list,
                                &chrdev_tx->base.list_entry);
@@ -733,6 +740,7 @@ get_chrdev_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
     return chrdev_tx;
 
 err_file_tx_ref_or_set_up:
+err_get_seekbuf_tx_with_ref:
     file_unref(&chrdev->base);
     return NULL;
 }
-- 
2.43.0


From b4e5e80d4249c93d46300c72c6c6e448faaf2a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:24 +0000
Subject: [PATCH 57/63] fix: leave the file position after the bytes that
 read() returned

read_exec() recorded the requested number of bytes instead of the number of bytes
read. After a read() that reached the end of the file, committing moved the file
position beyond the end.
---
 modules/libc/src/fildes/regfile_tx_ops.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index af4f2d1..6223afe 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -725,7 +725,6 @@ read_exec(struct file_tx* base,
 
     ssize_t res = do_pread(fildes, buf, nbyte, offset, error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
         return res;
     }
     size_t len = res;
@@ -745,8 +744,8 @@ read_exec(struct file_tx* base,
         return -1;
     }
 
-    /* add buf to write set */
-    *cookie = seekbuf_tx_append_to_readset(seekbuf_tx, nbyte, offset, buf,
+    /* add read data to read set */
+    *cookie = seekbuf_tx_append_to_readset(seekbuf_tx, res, offset, buf,
                                            error);
     if (picotm_error_is_set(error)) {
         return -1;
-- 
2.43.0


From be333a18aa72ee31aa89bc2da5babd9d79f57d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:59 +0000
Subject: [PATCH 58/63] fix: report an error if buffered data could not be
 written at commit

---
 modules/libc/src/fildes/chrdev_tx_ops.c  | 13 +++++++++---
 modules/libc/src/fildes/fifo_tx_ops.c    | 13 +++++++++---
 modules/libc/src/fildes/regfile_tx_ops.c | 19 ++++++++++++-----
 modules/libc/src/fildes/socket_tx_ops.c  | 26 ++++++++++++++++++------
 4 files changed, 54 insertions(+), 17 deletions(-)

diff --git a/modules/libc/src/fildes/chrdev_tx_ops.c b/modules/libc/src/fildes/chrdev_tx_ops.c
index e250d83..4248000 100644
--- a/modules/libc/src/fildes/chrdev_tx_ops.c
+++ b/modules/libc/src/fildes/chrdev_tx_ops.c
@@ -321,12 +321,19 @@ write_apply(struct file_tx* base, int fildes, int cookie,
     struct seekbuf_tx* seekbuf_tx = self->seekbuf_tx;
 
     if (seekbuf_tx->wrmode == PICOTM_LIBC_WRITE_BACK) {
-        do_write(fildes,
-                 seekbuf_tx->wrbuf + seekbuf_tx->wrtab[cookie].bufoff,
-                 seekbuf_tx->wrtab[cookie].nbyte, error);
+        size_t nbyte = seekbuf_tx->wrtab[cookie].nbyte;
+        ssize_t res = do_write(fildes,
+                               seekbuf_tx->wrbuf +
+                               seekbuf_tx->wrtab[cookie].bufoff,
+                               nbyte, error);
         if (picotm_error_is_set(error)) {
             return;
         }
+        if (res < (ssize_t)nbyte) {
+            /* data has been lost */
+            picotm_error_set_errno(error, errno);
+            return;
+        }
     }
 }
 
diff --git a/modules/libc/src/fildes/fifo_tx_ops.c b/modules/libc/src/fildes/fifo_tx_ops.c
index 4cf8427..2677dbb 100644
--- a/modules/libc/src/fildes/fifo_tx_ops.c
+++ b/modules/libc/src/fildes/fifo_tx_ops.c
@@ -322,12 +322,19 @@ write_apply(struct file_tx* base, int fildes, int cookie,
     struct pipebuf_tx* pipebuf_tx = self->pipebuf_tx;
 
     if (pipebuf_tx->wrmode == PICOTM_LIBC_WRITE_BACK) {
-        do_write(fildes,
-                 pipebuf_tx->wrbuf + pipebuf_tx->wrtab[cookie].bufoff,
-                 pipebuf_tx->wrtab[cookie].nbyte, error);
+        size_t nbyte = pipebuf_tx->wrtab[cookie].nbyte;
+        ssize_t res = do_write(fildes,
+                               pipebuf_tx->wrbuf +
+                               pipebuf_tx->wrtab[cookie].bufoff,
+                               nbyte, error);
         if (picotm_error_is_set(error)) {
             return;
         }
+        if (res < (ssize_t)nbyte) {
+            /* data has been lost */
+            picotm_error_set_errno(error, errno);
+            return;
+        }
     }
 }
 
diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index 6223afe..b0ccdc2 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -691,10 +691,16 @@ pwrite_apply(struct file_tx* base, int fildes, int cookie,
     size_t nbyte = seekbuf_tx->wrtab[cookie].nbyte;
     off_t  bufoff = seekbuf_tx->wrtab[cookie].bufoff;
 
-    do_pwrite(fildes, seekbuf_tx->wrbuf + bufoff, nbyte, off, error);
+    ssize_t res = do_pwrite(fildes, seekbuf_tx->wrbuf + bufoff, nbyte, off,
+                            error);
     if (picotm_error_is_set(error)) {
         return;
     }
+    if (res < (ssize_t)nbyte) {
+        /* data has been lost */
+        picotm_error_set_errno(error, errno);
+        return;
+    }
 }
 
 /*
@@ -876,13 +882,16 @@ write_apply(struct file_tx* base, int fildes, int cookie,
     size_t nbyte = seekbuf_tx->wrtab[cookie].nbyte;
     off_t  bufoff = seekbuf_tx->wrtab[cookie].bufoff;
 
-    do_pwrite_and_lseek(fildes, seekbuf_tx->wrbuf + bufoff, nbyte, off,
-                        error);
+    ssize_t res = do_pwrite_and_lseek(fildes, seekbuf_tx->wrbuf + bufoff,
+                                      nbyte, off, error);
     if (picotm_error_is_set(error)) {
         return;
     }
-
-    /* TODO: error if less than len bytes were written */
+    if (res < (ssize_t)nbyte) {
+        /* data has been lost */
+        picotm_error_set_errno(error, errno);
+        return;
+    }
 }
 
 /*
diff --git a/modules/libc/src/fildes/socket_tx_ops.c b/modules/libc/src/fildes/socket_tx_ops.c
index b98c912..33df6b5 100644
--- a/modules/libc/src/fildes/socket_tx_ops.c
+++ b/modules/libc/src/fildes/socket_tx_ops.c
@@ -476,12 +476,19 @@ send_apply(struct file_tx* base, int sockfd, int cookie,
     struct sockbuf_tx* sockbuf_tx = self->sockbuf_tx;
 
     if (sockbuf_tx->wrmode == PICOTM_LIBC_WRITE_BACK) {
-        do_send(sockfd,
-                sockbuf_tx->wrbuf + sockbuf_tx->wrtab[cookie].bufoff,
-                sockbuf_tx->wrtab[cookie].nbyte, flags, error);
+        size_t nbyte = sockbuf_tx->wrtab[cookie].nbyte;
+        ssize_t res = do_send(sockfd,
+                              sockbuf_tx->wrbuf +
+                              sockbuf_tx->wrtab[cookie].bufoff,
+                              nbyte, flags, error);
         if (picotm_error_is_set(error)) {
             return;
         }
+        if (res < (ssize_t)nbyte) {
+            /* data has been lost */
+            picotm_error_set_errno(error, errno);
+            return;
+        }
     }
 }
 
@@ -588,12 +595,19 @@ write_apply(struct file_tx* base, int fildes, int cookie,
     struct sockbuf_tx* sockbuf_tx = self->sockbuf_tx;
 
     if (sockbuf_tx->wrmode == PICOTM_LIBC_WRITE_BACK) {
-        do_write(fildes,
-                 sockbuf_tx->wrbuf + sockbuf_tx->wrtab[cookie].bufoff,
-                 sockbuf_tx->wrtab[cookie].nbyte, error);
+        size_t nbyte = sockbuf_tx->wrtab[cookie].nbyte;
+        ssize_t res = do_write(fildes,
+                               sockbuf_tx->wrbuf +
+                               sockbuf_tx->wrtab[cookie].bufoff,
+                               nbyte, error);
         if (picotm_error_is_set(error)) {
             return;
         }
+        if (res < (ssize_t)nbyte) {
+            /* data has been lost */
+            picotm_error_set_errno(error, errno);
+            return;
+        }
     }
 }
 
-- 
2.43.0


From 715c2bfb74c5f4d37aafac8be89cc53b285f86e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:36 +0000
Subject: [PATCH 59/63] fix: do not hold a signal's lock while its handler is
 installed

---
 modules/libc/src/signal/sigstate.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/modules/libc/src/signal/sigstate.c b/modules/libc/src/signal/sigstate.c
index 8ab1391..e216b1d 100644
--- a/modules/libc/src/signal/sigstate.c
+++ b/modules/libc/src/signal/sigstate.c
@@ -52,13 +52,15 @@ sigstate_entry_acquire(struct sigstate_entry* self, int signum,
         return;
     }
 
-    picotm_spinlock_lock(&self->lock);
-
+    /* The caller serializes acquiring and releasing. If the signal has been
+     * acquired already, the handler could run on this thread and wait for
+     * the lock; so we must not hold it. */
     if (self->acquired) {
-        picotm_spinlock_unlock(&self->lock);
         return;
     }
 
+    picotm_spinlock_lock(&self->lock);
+
     /* We set-up the fields *before* acquiring the signal. The
      * call to sigaction() acts as 'atomic' state change. */
     self->nontx_sigaction = nontx_sigaction;
-- 
2.43.0


From 4bedf5eea05ae4f795b3bf41e5ef0b14cafcb025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:21 +0000
Subject: [PATCH 60/63] fix: keep the state of a file when it cannot be
 referenced

---
 modules/libc/src/fildes/fildes_tx.c | 31 ++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 0fa1595..665bf81 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -439,6 +439,8 @@ get_pipebuf_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
 err_pipebuf_tx_ref_or_set_up:
     filebuf_unref(&pipebuf->base);
 err_fildes_ref_pipebuf:
+    picotm_slist_enqueue_front(&self->pipebuf_tx_alloced_list,
+                               &pipebuf_tx->list_entry);
 err_get_pipebuf_tx:
     return NULL;
 }
@@ -533,6 +535,8 @@ get_seekbuf_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
 err_seekbuf_tx_ref_or_set_up:
     filebuf_unref(&seekbuf->base);
 err_fildes_ref_seekbuf:
+    picotm_slist_enqueue_front(&self->seekbuf_tx_alloced_list,
+                               &seekbuf_tx->list_entry);
 err_get_seekbuf_tx:
     return NULL;
 }
@@ -641,6 +645,8 @@ get_sockbuf_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
 err_sockbuf_tx_ref_or_set_up:
     filebuf_unref(&sockbuf->base);
 err_fildes_ref_sockbuf:
+    picotm_slist_enqueue_front(&self->sockbuf_tx_alloced_list,
+                               &sockbuf_tx->list_entry);
 err_get_sockbuf_tx:
     return NULL;
 }
@@ -717,7 +723,7 @@ get_chrdev_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
     struct chrdev* chrdev = fildes_ref_chrdev(self->fildes, fildes,
                                               new_file, error);
     if (picotm_error_is_set(error)) {
-        return NULL;
+        goto err_fildes_ref_chrdev;
     }
 
     struct seekbuf_tx* seekbuf_tx = get_seekbuf_tx_with_ref(self, fildes,
@@ -742,6 +748,9 @@ get_chrdev_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
 err_file_tx_ref_or_set_up:
 err_get_seekbuf_tx_with_ref:
     file_unref(&chrdev->base);
+err_fildes_ref_chrdev:
+    picotm_slist_enqueue_front(&self->file_tx_alloced_list,
+                               &chrdev_tx->base.list_entry);
     return NULL;
 }
 
@@ -775,7 +784,7 @@ get_fifo_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
     struct fifo* fifo = fildes_ref_fifo(self->fildes, fildes,
                                         new_file, error);
     if (picotm_error_is_set(error)) {
-        return NULL;
+        goto err_fildes_ref_fifo;
     }
 
     struct pipebuf_tx* pipebuf_tx = get_pipebuf_tx_with_ref(self,
@@ -802,6 +811,9 @@ get_fifo_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
 err_file_tx_ref_or_set_up:
 err_get_pipebuf_tx_with_ref:
     file_unref(&fifo->base);
+err_fildes_ref_fifo:
+    picotm_slist_enqueue_front(&self->file_tx_alloced_list,
+                               &fifo_tx->base.list_entry);
     return NULL;
 }
 
@@ -835,7 +847,7 @@ get_regfile_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
     struct regfile* regfile = fildes_ref_regfile(self->fildes, fildes,
                                                  new_file, error);
     if (picotm_error_is_set(error)) {
-        return NULL;
+        goto err_fildes_ref_regfile;
     }
 
     struct seekbuf_tx* seekbuf_tx = get_seekbuf_tx_with_ref(self, fildes,
@@ -860,6 +872,9 @@ get_regfile_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
 err_file_tx_ref_or_set_up:
 err_get_seekbuf_tx_with_ref:
     file_unref(&regfile->base);
+err_fildes_ref_regfile:
+    picotm_slist_enqueue_front(&self->file_tx_alloced_list,
+                               &regfile_tx->base.list_entry);
     return NULL;
 }
 
@@ -892,7 +907,7 @@ get_dir_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
      */
     struct dir* dir = fildes_ref_dir(self->fildes, fildes, new_file, error);
     if (picotm_error_is_set(error)) {
-        return NULL;
+        goto err_fildes_ref_dir;
     }
 
     file_tx_ref_or_set_up(&dir_tx->base, &dir->base, NULL, error);
@@ -909,6 +924,9 @@ get_dir_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
 
 err_file_tx_ref_or_set_up:
     file_unref(&dir->base);
+err_fildes_ref_dir:
+    picotm_slist_enqueue_front(&self->file_tx_alloced_list,
+                               &dir_tx->base.list_entry);
     return NULL;
 }
 
@@ -942,7 +960,7 @@ get_socket_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
     struct socket* socket = fildes_ref_socket(self->fildes, fildes,
                                               new_file, error);
     if (picotm_error_is_set(error)) {
-        return NULL;
+        goto err_fildes_ref_socket;
     }
 
     struct sockbuf_tx* sockbuf_tx = get_sockbuf_tx_with_ref(self, fildes,
@@ -967,6 +985,9 @@ get_socket_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
 err_file_tx_ref_or_set_up:
 err_get_sockbuf_tx_with_ref:
     file_unref(&socket->base);
+err_fildes_ref_socket:
+    picotm_slist_enqueue_front(&self->file_tx_alloced_list,
+                               &socket_tx->base.list_entry);
     return NULL;
 }
 
-- 
2.43.0


From 42e735aa6260e85bd5ab9218eeff960f5966c7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:21 +0000
Subject: [PATCH 61/63] fix: free the buffer when the current directory's name
 is too long

---
 modules/libc/src/compat/get_current_dir_name.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/modules/libc/src/compat/get_current_dir_name.c b/modules/libc/src/compat/get_current_dir_name.c
index be7285c..e556528 100644
--- a/modules/libc/src/compat/get_current_dir_name.c
+++ b/modules/libc/src/compat/get_current_dir_name.c
@@ -28,22 +28,23 @@ __picotm_libc_get_current_dir_name()
 {
     size_t siz = PATH_MAX;
 
-    char* buf = NULL;
+    int errno_hint;
 
     do {
-        void* mem = malloc(siz);
-        if (!mem) {
-            free(buf);
+        char* buf = malloc(siz);
+        if (!buf) {
+            return NULL;
         }
-        buf = mem;
         char* cwd = getcwd(buf, siz);
         if (cwd) {
             return cwd;
         }
+        errno_hint = errno;
+        free(buf);
         siz *= 2;
-    } while (errno == ERANGE);
+    } while (errno_hint == ERANGE);
 
-    free(buf);
+    errno = errno_hint;
 
     return NULL;
 }
-- 
2.43.0


From 5b7d9b4b0092f3fbd9675c6fff94701b802f29b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:33 +0000
Subject: [PATCH 62/63] fix: close an accepted connection that could not be
 logged

---
 modules/libc/src/fildes/fildes_tx.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 665bf81..230d3f0 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -1361,11 +1361,12 @@ fildes_tx_exec_accept(struct fildes_tx* self, int sockfd,
     /* Inject event */
     fildes_log_append(self->log, FILDES_OP_ACCEPT, connfd, cookie, error);
     if (picotm_error_is_set(error)) {
-        return -1;
+        goto err_fildes_log_append;
     }
 
     return connfd;
 
+err_fildes_log_append:
 err_add_new_fd_tx_with_ref:
     if (TEMP_FAILURE_RETRY(close(connfd)) < 0) {
         perror("close");
-- 
2.43.0


From 9470dacd13752caff12d3655204df219663d706d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:29 +0000
Subject: [PATCH 63/63] fix: save the signal mask in applications' transactions

The public configuration header did not contain PICOTM_HAVE_TYPE_SIGJMP_BUF,
so applications used setjmp(), which does not save the signal mask. After the
first recovery from a signal, the signal remained blocked.
---
 include/picotm/config/picotm-config.h.in | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/picotm/config/picotm-config.h.in b/include/picotm/config/picotm-config.h.in
index 437467a..a6f1792 100644
--- a/include/picotm/config/picotm-config.h.in
+++ b/include/picotm/config/picotm-config.h.in
@@ -32,6 +32,10 @@
  * Types
  */
 
+#ifndef PICOTM_HAVE_TYPE_SIGJMP_BUF
+#undef PICOTM_HAVE_TYPE_SIGJMP_BUF
+#endif
+
 #ifndef PICOTM_HAVE_TYPE_SIGINFO_T
 #undef PICOTM_HAVE_TYPE_SIGINFO_T
 #endif
-- 
2.43.0

