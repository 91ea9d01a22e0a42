From 5829b252c35f46a00b5682b9d2b2e66d532a66dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:25 +0000
Subject: [PATCH 001/116] fix: posix streambuf flush reaches the C stream

---
 src/estd/port/posix/streambuf.cpp | 5 +++++
 src/estd/port/posix/streambuf.h   | 1 +
 2 files changed, 6 insertions(+)

diff --git a/src/estd/port/posix/streambuf.cpp b/src/estd/port/posix/streambuf.cpp
index 524e5f7..eeff83e 100644
--- a/src/estd/port/posix/streambuf.cpp
+++ b/src/estd/port/posix/streambuf.cpp
@@ -28,6 +28,11 @@ int posix_streambuf::sputc(char ch)
     return fputc(ch, &this->stream);
 }
 
+int posix_streambuf::sync()
+{
+    return fflush(&this->stream) == 0 ? 0 : -1;
+}
+
 
 //template<>
 int posix_streambuf::sbumpc()
diff --git a/src/estd/port/posix/streambuf.h b/src/estd/port/posix/streambuf.h
index 070baf2..db071d5 100644
--- a/src/estd/port/posix/streambuf.h
+++ b/src/estd/port/posix/streambuf.h
@@ -90,6 +90,7 @@ struct posix_streambuf :
     int sgetc();
     int sbumpc();
     int sputc(char);
+    int sync();
 
     // TODO: Might want this one day, but it will mandate carring that #include <stdio.h> around
     // though at the moment we have to do that anyway due to ::FILE
-- 
2.43.0


From 8f2d1e078cf8959bc83f6e455c9fadeeafe1a5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:05 +0000
Subject: [PATCH 002/116] fix: out_buffered_stringbuf keeps what its drain
 refused and reports what it accepted

---
 src/estd/internal/impl/streambuf/buffer.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/estd/internal/impl/streambuf/buffer.h b/src/estd/internal/impl/streambuf/buffer.h
index d88b72e..36a5c75 100644
--- a/src/estd/internal/impl/streambuf/buffer.h
+++ b/src/estd/internal/impl/streambuf/buffer.h
@@ -44,10 +44,11 @@ class out_buffered_stringbuf : public wrapped_streambuf_base<Streambuf>
         // DEBT: We can expect potential spinlock type behavior,
         // which may be needed due to the simplicity of string buffering
         // (may need a queue or bipbuffer to really overcome that)
-        base_type::rdbuf().sputn(buf_.data(), buf_.size());
-        buf_.clear();
-        // DEBT: Need to heed output of sputn to truly indicate status
-        return 0;
+        const unsigned size = buf_.size();
+        const unsigned written = base_type::rdbuf().sputn(buf_.data(), size);
+        // whatever the wrapped streambuf did not take stays here for a later sync
+        buf_.erase(0, written);
+        return written == size ? 0 : -1;
     }
 
 public:
@@ -67,7 +68,9 @@ protected:
     {
         if(full())
         {
-            if(ll_sync() != 0)  return traits_type::eof();
+            ll_sync();
+            // a partial sync is good enough, as long as it made room
+            if(full())  return traits_type::eof();
         }
 
         if(traits_type::not_eof(ch))
@@ -84,7 +87,9 @@ protected:
     {
         const estd::streamsize maximum = remaining();
 
-        buf_.append(s, count > maximum ? maximum : count);
+        if(count > maximum) count = maximum;
+
+        buf_.append(s, count);
 
         // wrapper sputn handles this via 'overflow' - a little clumsy though
         //if(full())
-- 
2.43.0


From 95ec965655c3a51e04bd1c3b8142d1db4bc11423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:05 +0000
Subject: [PATCH 003/116] fix: bipbuffer peek and poll refuse more than region
 A holds

---
 src/estd/ext/willemt/bipbuffer/bipbuffer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/ext/willemt/bipbuffer/bipbuffer.c b/src/estd/ext/willemt/bipbuffer/bipbuffer.c
index fdcc2eb..cb7b813 100644
--- a/src/estd/ext/willemt/bipbuffer/bipbuffer.c
+++ b/src/estd/ext/willemt/bipbuffer/bipbuffer.c
@@ -97,7 +97,7 @@ int bipbuf_offer(bipbuf_t* me, const unsigned char *data, const int size)
 unsigned char *bipbuf_peek(const bipbuf_t* me, const unsigned int size)
 {
     /* make sure we can actually peek at this data */
-    if (me->size < me->a_start + size)
+    if (me->a_end < me->a_start + size)
         return NULL;
 
     if (bipbuf_is_empty(me))
@@ -112,7 +112,7 @@ unsigned char *bipbuf_poll(bipbuf_t* me, const unsigned int size)
         return NULL;
 
     /* make sure we can actually poll this data */
-    if (me->size < me->a_start + size)
+    if (me->a_end < me->a_start + size)
         return NULL;
 
     void *end = me->data + me->a_start;
-- 
2.43.0


From e05471ffbc430075c8ce96ebec1322209bd160d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:29 +0000
Subject: [PATCH 004/116] fix: out_buffered_bipbuf drains both regions and
 never writes past free space

---
 src/estd/internal/bip/buffer.h            | 12 ++++++++++++
 src/estd/internal/impl/streambuf/bipbuf.h | 18 +++++++++++++-----
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/estd/internal/bip/buffer.h b/src/estd/internal/bip/buffer.h
index 1c699c2..bb82132 100644
--- a/src/estd/internal/bip/buffer.h
+++ b/src/estd/internal/bip/buffer.h
@@ -145,6 +145,12 @@ public:
         return (unsigned)bipbuf_used(buf());
     }
 
+    // How much of used() a single peek/poll can reach
+    unsigned contiguous() const
+    {
+        return (unsigned)(buf()->a_end - buf()->a_start);
+    }
+
     unsigned unused() const
     {
         return (unsigned)bipbuf_unused(buf());
@@ -203,6 +209,12 @@ public:
         return (unsigned) bipbuf_used(buf_);
     }
 
+    // How much of used() a single peek/poll can reach
+    unsigned contiguous() const
+    {
+        return (unsigned)(buf_->a_end - buf_->a_start);
+    }
+
     unsigned unused() const
     {
         return (unsigned) bipbuf_unused(buf_);
diff --git a/src/estd/internal/impl/streambuf/bipbuf.h b/src/estd/internal/impl/streambuf/bipbuf.h
index 3187c62..1777a03 100644
--- a/src/estd/internal/impl/streambuf/bipbuf.h
+++ b/src/estd/internal/impl/streambuf/bipbuf.h
@@ -53,11 +53,15 @@ protected:
     int sync()
     {
         // DEBT: A lot of tuning opportunity here
-        const unsigned sz = buf_.used();
-        auto b = (char_type*)buf_.peek(sz);
-        unsigned written = base_type::rdbuf().sputn(b, sz);
-        if(written == 0) return -1;
-        buf_.poll(written);
+        // Two passes at most when the output wrapped around and nothing is refused
+        while(buf_.used() > 0)
+        {
+            const unsigned sz = buf_.contiguous();
+            auto b = (char_type*)buf_.peek(sz);
+            const unsigned written = base_type::rdbuf().sputn(b, sz);
+            if(written == 0) return -1;
+            buf_.poll(written);
+        }
         return 0;
     }
 
@@ -97,8 +101,12 @@ protected:
     int_type overflow(int_type ch)
     {
         if(xout_avail() == 0)
+        {
             sync();
 
+            if(xout_avail() == 0) return traits_type::eof();
+        }
+
         *pptr() = traits_type::to_char_type(ch);
         pbump(1);
 
-- 
2.43.0


From a80223fd84b42bd09402449982b8c7ab97de8257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:26 +0000
Subject: [PATCH 005/116] fix: in_buffered_bipbuf block reads consume and stay
 within region A

---
 src/estd/internal/impl/streambuf/bipbuf.h | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/estd/internal/impl/streambuf/bipbuf.h b/src/estd/internal/impl/streambuf/bipbuf.h
index 1777a03..49e8a73 100644
--- a/src/estd/internal/impl/streambuf/bipbuf.h
+++ b/src/estd/internal/impl/streambuf/bipbuf.h
@@ -187,12 +187,20 @@ protected:
 
     streamsize xsgetn(nonconst_char_type* s, streamsize count)
     {
-        if(count > xin_avail())
-            count = xin_avail();
+        streamsize copied = 0;
 
-        copy_n(buf_.peek(), count, s);
+        while(copied < count && xin_avail() > 0)
+        {
+            streamsize n = egptr() - gptr();
 
-        return count;
+            if(n > count - copied) n = count - copied;
+
+            copy_n(gptr(), n, s + copied);
+            gbump(n);
+            copied += n;
+        }
+
+        return copied;
     }
 
     ESTD_CPP_FORWARDING_CTOR(in_buffered_bipbuf)
@@ -238,7 +246,7 @@ public:
 
     const char_type* egptr() const
     {
-        return gptr() + buf_.used();
+        return gptr() + buf_.contiguous();
     }
 };
 
-- 
2.43.0


From 75ededbca78433f2aba192e049c6066a8a446a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:51 +0000
Subject: [PATCH 006/116] fix: fixed allocators refuse growth instead of
 asserting, and a failed (re)allocation keeps block and size

Growing a full fixed buffer hit assert(false), or with NDEBUG was reported
as a success; a dynamic allocator's failed reallocate replaced the still
valid handle and recorded the new size.
---
 src/estd/allocators/fixed.h          | 18 +++++++++++++++---
 src/estd/allocators/handle_desc.h    |  8 ++++++--
 src/estd/internal/impl/handle_desc.h | 17 +++++++++++++----
 3 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/src/estd/allocators/fixed.h b/src/estd/allocators/fixed.h
index bc3e8fd..cec8e0d 100644
--- a/src/estd/allocators/fixed.h
+++ b/src/estd/allocators/fixed.h
@@ -262,6 +262,12 @@ public:
         return allocate_ext(size);
     }
 
+    // Fixed buffer never moves or grows.  "Success" only if it already is big enough
+    handle_type reallocate(handle_type h, size_t size)
+    {
+        return reallocate_ext(h, size);
+    }
+
     // FIX: returns actual maximum size of unsigned,not ideal
     static ESTD_CPP_CONSTEXPR_RET size_t max_size()
     {
@@ -331,7 +337,7 @@ public:
         //return m_buffer_size - (null_terminated ? 1 : 0);
     }
 
-    handle_with_size allocate_ext(size_type size)
+    handle_with_size allocate_ext(size_t size)
     {
         // TODO: put in a flag only in debug mode to detect multiple alloc
         // (should only have one for single+fixed allocator)
@@ -340,18 +346,24 @@ public:
         return size <= max_size();
     }
 
-    handle_type allocate(size_type size)
+    handle_type allocate(size_t size)
     {
         return allocate_ext(size);
     }
 
 
-    handle_with_size reallocate_ext(handle_type, size_type size)
+    handle_with_size reallocate_ext(handle_type, size_t size)
     {
         // NOTE: assuming incoming handle_type is valid
 
         return allocate_ext(size);
     }
+
+    // Fixed buffer never moves or grows.  "Success" only if it already is big enough
+    handle_type reallocate(handle_type h, size_t size)
+    {
+        return reallocate_ext(h, size);
+    }
 };
 
 }
diff --git a/src/estd/allocators/handle_desc.h b/src/estd/allocators/handle_desc.h
index 792866d..363fad0 100644
--- a/src/estd/allocators/handle_desc.h
+++ b/src/estd/allocators/handle_desc.h
@@ -74,14 +74,18 @@ public:
 
     bool allocate(size_type size)   // NOLINT
     {
+        if(!base_type::allocate(size)) return false;
+
         m_size = size;
-        return base_type::allocate(size);
+        return true;
     }
 
     bool reallocate(size_type size) // NOLINT
     {
+        if(!base_type::reallocate(size)) return false;
+
         m_size = size;
-        return base_type::reallocate(size);
+        return true;
     }
 };
 
diff --git a/src/estd/internal/impl/handle_desc.h b/src/estd/internal/impl/handle_desc.h
index a31f7c7..3b24445 100644
--- a/src/estd/internal/impl/handle_desc.h
+++ b/src/estd/internal/impl/handle_desc.h
@@ -254,8 +254,13 @@ public:
 
     bool reallocate(size_type size)
     {
-        handle_base_t::handle(base_t::get_allocator().reallocate(handle_base_t::handle(), size));
-        return handle_base_t::handle() != allocator_traits::invalid();
+        const handle_type h = base_t::get_allocator().reallocate(handle_base_t::handle(), size);
+
+        // Same convention as realloc: on failure, previous block remains valid and ours
+        if(h == allocator_traits::invalid()) return false;
+
+        handle_base_t::handle(h);
+        return true;
     }
 
     bool is_allocated() const
@@ -265,8 +270,12 @@ public:
 
     bool allocate(size_type n)
     {
-        handle_base_t::handle(base_t::get_allocator().allocate(n));
-        return is_allocated();
+        const handle_type h = base_t::get_allocator().allocate(n);
+
+        if(h == allocator_traits::invalid()) return false;
+
+        handle_base_t::handle(h);
+        return true;
     }
 
     void free()
-- 
2.43.0


From 4e60adfa6e34e58546bdbdbd12527182845336ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:36 +0000
Subject: [PATCH 007/116] fix: dynamic_array operations which cannot grow
 change nothing, and null termination counts towards capacity

append, push_back, emplace_back, insert and assign ignored a refused growth
and wrote past the end; a null terminated string filled exactly to its
capacity put its terminator one past the end; lengths beyond size_type
wrapped around.
---
 src/estd/internal/container/specializer.h |  4 +-
 src/estd/internal/dynamic_array.h         | 70 ++++++++++++++++-------
 2 files changed, 51 insertions(+), 23 deletions(-)

diff --git a/src/estd/internal/container/specializer.h b/src/estd/internal/container/specializer.h
index 75234fd..184b234 100644
--- a/src/estd/internal/container/specializer.h
+++ b/src/estd/internal/container/specializer.h
@@ -130,6 +130,8 @@ struct dynamic_array_helper<Impl, enable_if_t<
     {
         size_type len = copy_from.size();
         auto r = a.grow(len);
+        if(r.grew() == false) return {};
+
         const size_type current_size = r.starting_size;
         pointer raw = a.lock(current_size);
 
@@ -137,7 +139,7 @@ struct dynamic_array_helper<Impl, enable_if_t<
 
         a.unlock();
 
-        return {};
+        return len;
     }
 
     template <class Impl2>
diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index 0e83625..87d4696 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -5,6 +5,7 @@
 #include "impl/dynamic_array.h"
 
 #include "../initializer_list.h"
+#include "../limits.h"
 #include "../utility.h"
 #include "../new.h"
 
@@ -120,8 +121,17 @@ protected:
             starting_size(starting_size),
             increased_by(unexpect_t(), increased_by)
         {}
+
+        ESTD_CPP_CONSTEXPR_RET bool grew() const { return increased_by.has_value(); }
 #else
-        ESTD_CPP_CONSTEXPR_RET grow_result(size_type v) : starting_size(v) {}
+        const bool success;
+
+        ESTD_CPP_CONSTEXPR_RET grow_result(size_type v, bool success) :
+            starting_size(v),
+            success(success)
+        {}
+
+        ESTD_CPP_CONSTEXPR_RET bool grew() const { return success; }
 #endif
     };
 
@@ -129,19 +139,26 @@ protected:
     // - traditional dynamic memory scenarios (i.e. classic malloc/realloc/free behaviors)
     // - advanced and not yet implemented fragmented locking dynamic memory
 
-    bool ensure_total_capacity(size_type new_size, size_type pad = 0)
+    // size_t rather than size_type so that a request beyond what size_type can represent is
+    // refused rather than wrapped around
+    bool ensure_total_capacity(size_t new_size, size_t pad = 0)
     {
-        if(new_size > capacity())
+        // null termination, if any, occupies allocated space too
+        const size_t needed = new_size + (impl_type::uses_termination() ? 1 : 0);
+
+        if(needed > capacity())
         {
-            // TODO: Do an assert here, or return true/false to indicate success
-            if(!reserve(new_size + pad)) return false;
+            if(needed > numeric_limits<size_type>::max()) return false;
+            if(needed + pad > numeric_limits<size_type>::max()) pad = 0;
+
+            return reserve(needed + pad);
         }
 
         return true;
     }
 
     // internal method for reassigning size, ensuring capacity is available
-    ESTD_CPP_CONSTEXPR(14) bool ensure_total_size(size_type new_size, size_type pad = 0, bool shrink = false)
+    ESTD_CPP_CONSTEXPR(14) bool ensure_total_size(size_t new_size, size_t pad = 0, bool shrink = false)
     {
         if(ensure_total_capacity(new_size, pad) == false)
             return false;
@@ -154,7 +171,7 @@ protected:
     }
 
     // internal method for auto increasing capacity based on pre-set amount
-    grow_result ensure_additional_capacity(size_type increase_by)
+    grow_result ensure_additional_capacity(size_t increase_by)
     {
         // DEBT: fixed allocators IIRC have matching capacity() and max_size()
         // possibly resulting in big and crusty code here
@@ -165,16 +182,15 @@ protected:
         // TODO: assert increase_by is a sensible value
         // above 0 and less than ... something
 
-#if FEATURE_ESTD_DYNAMIC_ARRAY_BOUNDS_CHECK
         const bool success = ensure_total_capacity(starting_size + increase_by, pad);
 
+#if FEATURE_ESTD_DYNAMIC_ARRAY_BOUNDS_CHECK
         if(success)
             return grow_result(starting_size, increase_by);
         else
             return grow_result(unexpect_t(), starting_size, size() - starting_size);
 #else
-        ensure_total_capacity(starting_size + increase_by, pad);
-        return starting_size;
+        return grow_result(starting_size, success);
 #endif
     }
 
@@ -183,9 +199,9 @@ protected:
     // (standard version also inserts or removes characters if requested,
     //  this one ONLY replaces the entire buffer)
     // TODO: change to assign
-    void assign(const_pointer buf, size_type len)   // NOLINT
+    void assign(const_pointer buf, size_t len)   // NOLINT
     {
-        ensure_total_size(len);
+        if(ensure_total_size(len) == false) return;
 
         base_type::assign(buf, len);
     }
@@ -281,7 +297,7 @@ protected:
         // we need a more elegant provision than what we do here
         const size_type sz = size() + 1;
 
-        grow(1);
+        if(grow(1).grew() == false) return;
 
         // NOTE: Keeping around to use for optimization of trivial cases
         //size_type raw_typed_pos = to_insert_pos - a;
@@ -304,7 +320,7 @@ protected:
     bool raw_insert(unsigned to_insert_pos, InputIt first, InputIt last)
     {
         const size_type sz = impl().size();
-        const size_type input_sz = last - first;
+        const size_t input_sz = last - first;
         if(ensure_total_size(sz + input_sz) == false) return false;
 
         pointer data = lock();
@@ -327,7 +343,7 @@ protected:
         // NOTE: may not be very efficient (underlying allocator may need to realloc/copy etc.
         // so later consider doing the insert operation at that level)
         const size_type sz = impl().size();
-        ensure_total_size(sz + 1);
+        if(ensure_total_size(sz + 1) == false) return;
 
         pointer data = lock();
 
@@ -419,7 +435,7 @@ public:
     // - classic malloc/realloc/free
     // - not-yet-implemented fragment-adapting locking memory
     /// @returns size before growth
-    grow_result grow(size_type by_amount)
+    grow_result grow(size_t by_amount)
     {
         grow_result r = ensure_additional_capacity(by_amount);
 
@@ -432,7 +448,8 @@ public:
         else
             impl().size(r.starting_size + r.increased_by.error());
 #else
-        impl().size(r.starting_size + by_amount);
+        if(r.grew())
+            impl().size(r.starting_size + by_amount);
 #endif
 
         return r;
@@ -454,12 +471,12 @@ public:
     // somewhat non standard, but considered a real API in estd
     // in theory this might go a little faster than the iterator
     // version
-    append_result append(const value_type* buf, size_type len)
+    append_result append(const value_type* buf, size_t len)
     {
         grow_result r = grow(len);
         const size_type current_size = r.starting_size;
 #if FEATURE_ESTD_DYNAMIC_ARRAY_BOUNDS_CHECK
-        const bool grow_success = r.increased_by.has_value();
+        const bool grow_success = r.grew();
 
 #if FEATURE_ESTD_DYNAMIC_ARRAY_APPEND_TRUNC
         // DEBT: Overflow not actually tested yet
@@ -470,6 +487,8 @@ public:
         if(grow_success == false)   return append_result(unexpect_t(), 0);
 #endif
 
+#else
+        if(r.grew() == false)       return 0;
 #endif
 
         helper::copy_from(*this, current_size, buf, len);
@@ -552,6 +571,8 @@ public:
 #else
         if(grow_success == false)   return append_result(unexpect_t(), 0);
 #endif
+#else
+        if(r.grew() == false)       return 0;
 #endif
 
         pointer raw = lock(pre_growth_size);
@@ -615,6 +636,8 @@ public:
 
 #if FEATURE_ESTD_DYNAMIC_ARRAY_BOUNDS_CHECK
         if(r.increased_by.has_value() == false) return append_result(unexpect_t(), 0);
+#else
+        if(r.grew() == false) return 0;
 #endif
 
         const size_type current_size = r.starting_size;
@@ -625,7 +648,7 @@ public:
 
         unlock();
 
-        return append_result();
+        return append_result(1);
     }
 #endif
 
@@ -634,7 +657,8 @@ public:
     {
         const unsigned len = copy_from.size();
 
-        ensure_total_size(len);
+        if(ensure_total_size(len) == false) return;
+
         helper::copy_from(*this, 0, copy_from, len);
     }
 
@@ -663,7 +687,9 @@ public:
         // TODO: combine this with _append since it's mostly overlapping code
         grow_result r = grow(1);
 
-        // DEBT: Do bounds checking, though inherently we must do some within grow/ensure calls
+        // DEBT: No way to report refusal here, other than size() having not changed
+        if(r.grew() == false) return base_type::back();
+
         const size_type current_size = r.starting_size;
 
 #ifdef FEATURE_ESTD_STRICT_DYNAMIC_ARRAY
-- 
2.43.0


From 3739f781eedd49d6d3b2a96b4e114c64711757cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:14 +0000
Subject: [PATCH 008/116] fix: output string streambuf stops at the string's
 capacity and reports what it stored (C03)

---
 src/estd/internal/impl/streambuf/string.h | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/estd/internal/impl/streambuf/string.h b/src/estd/internal/impl/streambuf/string.h
index 64eef37..9b600c5 100644
--- a/src/estd/internal/impl/streambuf/string.h
+++ b/src/estd/internal/impl/streambuf/string.h
@@ -34,17 +34,28 @@ struct out_stringbuf : stringbuf_base<String>
 
     streamsize xsputn(const char_type* s, streamsize count)
     {
-        // FIX: normal strings throw an exception if we exceed internal
-        // buffer size, but here we should instead have an optional error
-        // facility
+        // A string which cannot take everything takes as much as it can.  It refuses what does
+        // not fit without changing, so whatever it did take shows up in its size
+        const auto sz = str_.size();
+
         str_.append(s, count);
+
+        if(count > 0 && str_.size() == sz)
+        {
+            streamsize i = 0;
+            while(i < count && sputc(s[i]) != traits_type::eof()) ++i;
+            return i;
+        }
+
         return count;
     }
 
     int_type sputc(char_type ch)
     {
+        const auto sz = str_.size();
+
         str_ += ch;
-        return traits_type::to_int_type(ch);
+        return str_.size() == sz ? traits_type::eof() : traits_type::to_int_type(ch);
     }
 
     // deviates from spec in that this is NOT a copy, but rather a direct reference
-- 
2.43.0


From bd013f38532115f232ce6c7b37ed54471ad3efcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:14 +0000
Subject: [PATCH 009/116] fix: append(count, ch) is all or nothing (C15)

---
 src/estd/internal/string.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/estd/internal/string.h b/src/estd/internal/string.h
index 62974c3..d9c3014 100644
--- a/src/estd/internal/string.h
+++ b/src/estd/internal/string.h
@@ -362,6 +362,9 @@ public:
 
     basic_string& append(size_type count, value_type c) // NOLINT
     {
+        // All or nothing, same as the other appends
+        if(!base_type::ensure_total_capacity((size_t)base_type::size() + count)) return *this;
+
         // NOTE: Minor optimization opportunity (don't push around size/null term a bunch of times)
         while(count--) *this += c;
 
-- 
2.43.0


From 301903d5db3a9c76d3536ff1a9950fe1f6c54a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:14 +0000
Subject: [PATCH 010/116] fix: reserve never shrinks below contents,
 shrink_to_fit keeps the terminator, copying insert inserts the value (C15)

---
 src/estd/internal/dynamic_array.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index 87d4696..94d4455 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -351,7 +351,7 @@ protected:
         // to_insert_pos to to_insert_pos + 1
         copy_assist(data + to_insert_pos, data + sz, data + sz + 1);
 
-        new (data + to_insert_pos) value_type(to_insert_value);
+        new (data + to_insert_pos) value_type(*to_insert_value);
 
         unlock();
     }
@@ -411,6 +411,9 @@ public:
     // NOTE: This is kind of a lie, because reallocate will call abort() for fixed allocators
     ESTD_CPP_CONSTEXPR(14) bool reserve(size_type new_cap)
     {
+        // never shrinks, that's shrink_to_fit's job
+        if(impl().is_allocated() && new_cap <= capacity()) return true;
+
         if(!impl().is_allocated())
             return impl().allocate(new_cap);
         else
@@ -735,7 +738,8 @@ public:
 
     void shrink_to_fit()
     {
-        reserve(size());
+        if(impl().is_allocated())
+            impl().reallocate(size() + (impl_type::uses_termination() ? 1 : 0));
     }
 };
 
-- 
2.43.0


From 0a02aa5d55c59649195f6c5dfa0dfa986c0ac7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:27 +0000
Subject: [PATCH 011/116] fix: output span streambuf stops at the end of its
 memory and confines repositioning (C03)

---
 src/estd/internal/impl/streambuf/span.h | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/estd/internal/impl/streambuf/span.h b/src/estd/internal/impl/streambuf/span.h
index 1eee046..5b0af70 100644
--- a/src/estd/internal/impl/streambuf/span.h
+++ b/src/estd/internal/impl/streambuf/span.h
@@ -77,7 +77,10 @@ struct out_span_streambuf :
 
     streamsize xsputn(const char_type* s, streamsize count)
     {
-        // TODO: do proper bounds checking here
+        const streamsize avail = epptr() - pptr();
+
+        if(count > avail) count = avail;
+
         memcpy(pptr(), s, count);
         this->pbump(count);
         return count;
@@ -95,7 +98,6 @@ struct out_span_streambuf :
     }
 
 protected:
-    // NOTE: currently undefined if pos ends up outside boundaries
     // NOTE: consider changing dir and which to template non-type parameters/compile
     // time constants
     pos_type seekoff(off_type off, ios_base::seekdir way, ios_base::openmode which)
@@ -103,23 +105,29 @@ protected:
         // openmode MUST include 'out' in this instance, otherwise error or ignore
         if(!(which & ios_base::out)) return -1;
 
+        const off_type size = out().size_bytes();
+
         switch(way)
         {
             case ios_base::cur:
-                this->pbump(off);
+                off += base_out_type::pos();
                 break;
 
             case ios_base::beg:
-                base_out_type::seekpos(off);
                 break;
 
             case ios_base::end:
-                // UNTESTED
-                base_out_type::seekpos(out().size_bytes() + off);
+                off += size;
                 break;
+
+            default:
+                return -1;
         }
 
-        return base_out_type::pos();
+        // stay within the boundaries, "one past the end" included
+        if(off < 0 || off > size) return -1;
+
+        return base_out_type::seekpos(off);
     }
 
 public:
-- 
2.43.0


From 9126fe7c68344702918ce992d3bfdb20d70fc06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:27 +0000
Subject: [PATCH 012/116] fix: seekp returns the stream and reports a refused
 reposition (C03)

---
 src/estd/internal/ostream.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/ostream.h b/src/estd/internal/ostream.h
index fd064cc..9e4b05b 100644
--- a/src/estd/internal/ostream.h
+++ b/src/estd/internal/ostream.h
@@ -155,7 +155,10 @@ public:
     // UNTESTED
     __ostream_type& seekp(off_type off, ios_base::seekdir dir)
     {
-        this->rdbuf()->pubseekoff(off, dir, ios_base::out);
+        if(this->rdbuf()->pubseekoff(off, dir, ios_base::out) == pos_type(-1))
+            this->setstate(base_type::failbit);
+
+        return *this;
     }
 
     // When the time comes, these will replace the old virtual ones
-- 
2.43.0


From 33c47648b0c6008c22b3e7f46c8b1004ada92684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:28 +0000
Subject: [PATCH 013/116] fix: appending more characters than size_type can
 count is refused rather than wrapped around (C03)

---
 src/estd/internal/string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/string.h b/src/estd/internal/string.h
index d9c3014..563120c 100644
--- a/src/estd/internal/string.h
+++ b/src/estd/internal/string.h
@@ -378,7 +378,7 @@ public:
         return *this;
     }
 
-    basic_string& append(const_pointer s, size_type count)  // NOLINT
+    basic_string& append(const_pointer s, size_t count)  // NOLINT
     {
         assert_append(base_type::append(s, count));
         return *this;
-- 
2.43.0


From d97f3e421c1f7674f274f19cb66011b91cf35f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:48 +0000
Subject: [PATCH 014/116] fix: getline stays within the caller's buffer and
 tells a found delimiter from a full buffer (C04)

---
 src/estd/internal/istream.h | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/estd/internal/istream.h b/src/estd/internal/istream.h
index c8d2b42..edefa0d 100644
--- a/src/estd/internal/istream.h
+++ b/src/estd/internal/istream.h
@@ -168,34 +168,44 @@ public:
     __istream_type& getline(char_type* s, streamsize count, char_type delim = '\n')
     {
         streambuf_type* stream = this->rdbuf();
-
-#if FEATURE_ESTD_IOS_GCOUNT
-        _gcount = 0;
-#endif
+        streamsize extracted = 0;
 
         for (;;)
         {
-            int_type c = stream->sbumpc();
+            const int_type c = blocking_type::sgetc(*this, stream);
+
+            if (c == traits_type::eof())
+            {
+                // nothing extracted at all is a failure, too
+                this->setstate(extracted == 0 ?
+                    ios_base::eofbit | ios_base::failbit : ios_base::eofbit);
+                break;
+            }
 
-            if (traits_type::eq(c, traits_type::eof()))
+            if (c == traits_type::to_int_type(delim))
             {
-                this->setstate(base_type::eofbit);
+                // delimiter is extracted, but not stored
+                stream->sbumpc();
+                ++extracted;
                 break;
             }
 
-            if (!count-- || traits_type::eq(c, delim))
+            // 'count' includes null termination
+            if (count <= 1)
             {
                 this->setstate(base_type::failbit);
                 break;
             }
 
-            *s++ = c;
-#if FEATURE_ESTD_IOS_GCOUNT
-            _gcount++;
-#endif
+            *s++ = traits_type::to_char_type(c);
+            stream->sbumpc();
+            --count;
+            ++extracted;
         }
 
-        *s = 0;
+        if (count > 0) *s = 0;
+
+        gcount(extracted);
 
         return *this;
     }
-- 
2.43.0


From cd882565421307b456d4d4d3ce1c7d21163966e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:48 +0000
Subject: [PATCH 015/116] fix: seekg reports a refused reposition (C04)

---
 src/estd/internal/istream.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/istream.h b/src/estd/internal/istream.h
index edefa0d..54bdab2 100644
--- a/src/estd/internal/istream.h
+++ b/src/estd/internal/istream.h
@@ -127,7 +127,9 @@ public:
     __istream_type& seekg(off_type off, ios_base::seekdir dir)
     {
         this->unsetstate(ios_base::failbit);
-        this->rdbuf()->pubseekoff(off, dir, ios_base::in);
+        if(off_type(this->rdbuf()->pubseekoff(off, dir, ios_base::in)) == off_type(-1))
+            this->setstate(ios_base::failbit);
+
         return *this;
     }
 
-- 
2.43.0


From 5ad23b40c5032e36b1b8ef6ac49181a833e3484d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:48 +0000
Subject: [PATCH 016/116] fix: unformatted input reports the number of
 characters it really extracted (C04)

---
 src/estd/internal/istream.h | 67 +++++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 29 deletions(-)

diff --git a/src/estd/internal/istream.h b/src/estd/internal/istream.h
index 54bdab2..cb90640 100644
--- a/src/estd/internal/istream.h
+++ b/src/estd/internal/istream.h
@@ -98,16 +98,16 @@ public:
 public:
     int_type get()
     {
-#if FEATURE_ESTD_IOS_GCOUNT
-        ++_gcount;
-#endif
         int_type c = this->rdbuf()->sbumpc();
 
         if(c == traits_type::eof())
         {
+            gcount(0);
             base_type::setstate(
                 ios_base::failbit | ios_base::eofbit);
         }
+        else
+            gcount(1);
 
         return c;
     }
@@ -142,12 +142,18 @@ public:
         // if count > number of available bytes
         // then read only available bytes
         // otherwise read all of count
-        streamsize m = estd::min(count, rdbuf.in_avail());
+        streamsize m = rdbuf.in_avail();
 
-#if FEATURE_ESTD_IOS_GCOUNT
-        _gcount = m;
-#endif
-        return rdbuf.sgetn(s, m);
+        if(m < 0)
+        {
+            // definitely nothing left
+            this->setstate(ios_base::eofbit);
+            m = 0;
+        }
+
+        m = rdbuf.sgetn(s, estd::min(count, m));
+        gcount(m);
+        return m;
     }
 
     __istream_type& read(char_type* s, streamsize n)
@@ -155,13 +161,12 @@ public:
         // TODO: optimization point.  We want to do something
         // so that we don't inline this (and other read/write operations like it)
         // all over the place
-        if (this->rdbuf()->sgetn(s, n) != n)
-            // TODO: Consider setting _gcount here to what *was* returned
-            this->setstate(base_type::eofbit);
+        const streamsize m = this->rdbuf()->sgetn(s, n);
 
-#if FEATURE_ESTD_IOS_GCOUNT
-        _gcount = n;
-#endif
+        gcount(m);
+
+        if (m != n)
+            this->setstate(base_type::eofbit);
 
         return *this;
     }
@@ -265,20 +270,19 @@ public:
     // delim test is disabled if delim is default value, which would be EOF
     basic_istream& ignore(streamsize count = 1)
     {
-        while (count--)
-        {
-            int_type ch = get();
+        streamsize extracted = 0;
 
-            if (ch == traits_type::eof())
+        for(; extracted < count; ++extracted)
+        {
+            if (get() == traits_type::eof())
             {
                 this->setstate(ios_base::eofbit);
-                return *this;
+                break;
             }
-
-#if FEATURE_ESTD_IOS_GCOUNT
-            _gcount++;
-#endif
         }
+
+        gcount(extracted);
+
         return *this;
     }
 
@@ -288,21 +292,26 @@ public:
         // "This [delimiter] test is disabled if delim is Traits::eof()"
         if (delim == traits_type::eof()) return ignore(count);
 
-        while (count--)
+        streamsize extracted = 0;
+
+        while (extracted < count)
         {
-            int_type ch = get();
+            const int_type ch = get();
 
             if (ch == traits_type::eof())
             {
                 this->setstate(ios_base::eofbit);
                 break;
             }
-            else if (ch == delim) break;
 
-#if FEATURE_ESTD_IOS_GCOUNT
-            _gcount++;
-#endif
+            ++extracted;
+
+            // delimiter is extracted and counts, too
+            if (ch == delim) break;
         }
+
+        gcount(extracted);
+
         return *this;
     }
 
-- 
2.43.0


From cdf61fa776818fff0e6d0c5e3e74be54c9801031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:29 +0000
Subject: [PATCH 017/116] fix: arduino streambuf input tells character 0xFF
 from end of input (C04)

---
 src/estd/port/arduino/streambuf.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/estd/port/arduino/streambuf.h b/src/estd/port/arduino/streambuf.h
index 822380b..ef9c326 100644
--- a/src/estd/port/arduino/streambuf.h
+++ b/src/estd/port/arduino/streambuf.h
@@ -80,7 +80,7 @@ public:
     int_type sbumpc()
     {
         int_type ch = underlying().read();
-        return ch == -1 ? traits_type::eof() : traits_type::to_char_type(ch);
+        return ch == -1 ? traits_type::eof() : traits_type::to_int_type(traits_type::to_char_type(ch));
     }
 
     // TODO: Document somewhere why we have xin_avail AND shomanyc
@@ -92,13 +92,13 @@ public:
     int_type underflow() const
     {
         int_type ch = underlying().peek();
-        return ch == -1 ? traits_type::eof() : traits_type::to_char_type(ch);
+        return ch == -1 ? traits_type::eof() : traits_type::to_int_type(traits_type::to_char_type(ch));
     }
 
     int_type uflow() const
     {
         int_type ch = underlying().read();
-        return ch == -1 ? traits_type::eof() : traits_type::to_char_type(ch);
+        return ch == -1 ? traits_type::eof() : traits_type::to_int_type(traits_type::to_char_type(ch));
     }
 
     streamsize xsgetn(char_type* s, streamsize count)
-- 
2.43.0


From ae4c35375b5218e527c038869ddb1f6d26ade14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:29 +0000
Subject: [PATCH 018/116] fix: ring-buffered input pulls from its source, tells
 0xFF from end and reports the source's end (C04)

---
 src/estd/internal/impl/streambuf/bipbuf.h | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/estd/internal/impl/streambuf/bipbuf.h b/src/estd/internal/impl/streambuf/bipbuf.h
index 49e8a73..6915d9f 100644
--- a/src/estd/internal/impl/streambuf/bipbuf.h
+++ b/src/estd/internal/impl/streambuf/bipbuf.h
@@ -179,18 +179,26 @@ protected:
         return buf_.used();
     }
 
-    // DEBT: This needs to interrogate wrapped Streambuf
-    constexpr streamsize showmanyc() const
+    // Only what's buffered counts as available.  Nothing buffered is the definite end only if
+    // wrapped Streambuf says so, too
+    streamsize showmanyc()
     {
-        return xin_avail();
+        const streamsize avail = xin_avail();
+
+        if(avail > 0) return avail;
+
+        return base_type::rdbuf().in_avail() == -1 ? -1 : 0;
     }
 
     streamsize xsgetn(nonconst_char_type* s, streamsize count)
     {
         streamsize copied = 0;
 
-        while(copied < count && xin_avail() > 0)
+        while(copied < count)
         {
+            // Nothing buffered any longer, so ask wrapped Streambuf
+            if(xin_avail() == 0 && sync() == -1) break;
+
             streamsize n = egptr() - gptr();
 
             if(n > count - copied) n = count - copied;
@@ -209,12 +217,10 @@ protected:
     {
         if(xin_avail() == 0)
         {
-            // DEBT: Return proper eof
-            if(sync() == -1)    return -1;
+            if(sync() == -1)    return traits_type::eof();
         }
 
-        // DEBT: Wrap with traits
-        return xsgetc();
+        return traits_type::to_int_type(xsgetc());
     }
 
     int_type uflow()
-- 
2.43.0


From d34a3a0c9a296b8523270b7bb77cd4517f87c7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:29 +0000
Subject: [PATCH 019/116] fix: blocking peek asks sources which cannot tell
 what is available (C05)

---
 src/estd/internal/ios_policy.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/estd/internal/ios_policy.h b/src/estd/internal/ios_policy.h
index b7ecc8d..7512e10 100644
--- a/src/estd/internal/ios_policy.h
+++ b/src/estd/internal/ios_policy.h
@@ -69,6 +69,12 @@ struct istream_blocking_policy<TStreambuf, estd::internal::istream_flags::blocki
 
                 if(avail == 0)
                 {
+                    // "unsure", meaning also that underlying source is perhaps only asked for
+                    // more by really reading from it
+                    const int_type c = rdbuf->sgetc();
+
+                    if(c != traits_type::eof()) return c;
+
 // yield requires presence of an OS
 #if ESTD_OS_TYPE
                     estd::this_thread::yield();
-- 
2.43.0


From d01255ff023a3b25e2aa022c1b8732952ce4776d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:29 +0000
Subject: [PATCH 020/116] fix: copying out of an array from beyond its end
 copies nothing (C04)

---
 src/estd/internal/container/specializer.h | 24 +++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/estd/internal/container/specializer.h b/src/estd/internal/container/specializer.h
index 184b234..63d3759 100644
--- a/src/estd/internal/container/specializer.h
+++ b/src/estd/internal/container/specializer.h
@@ -37,17 +37,16 @@ struct dynamic_array_helper<Impl, enable_if_t<
         typename estd::remove_const<value_type>::type* dest,
         size_type count, size_type pos = 0)
     {
-        auto src = a.create_iterator(pos);
-
         // TODO: get_allocator must be present in pgm flavor
 
-        // TODO: since we aren't gonna throw an exception, determine what to do if
-        // pos > size()
+        const size_type size = a.size();
+
+        // we aren't gonna throw an exception, so nothing to copy if pos > size()
+        if(pos > size) pos = size;
 
-        if(pos + count > a.size())
-            count = a.size() - pos;
+        if(count > size - pos) count = size - pos;
 
-        estd::copy_n(src, count, dest);
+        estd::copy_n(a.create_iterator(pos), count, dest);
 
         return count;
     }
@@ -181,13 +180,14 @@ struct dynamic_array_helper<Impl, enable_if_t<
         typename estd::remove_const<value_type>::type* dest,
         size_type count, size_type pos = 0)
     {
-        const value_type* src = a.clock(pos, count);
+        const size_type size = a.size();
 
-        // TODO: since we aren't gonna throw an exception, determine what to do if
-        // pos > size()
+        // we aren't gonna throw an exception, so nothing to copy if pos > size()
+        if(pos > size) pos = size;
 
-        if(pos + count > a.size())
-            count = a.size() - pos;
+        if(count > size - pos) count = size - pos;
+
+        const value_type* src = a.clock(pos, count);
 
         // TODO: Do the m_impl.copy_from here
 
-- 
2.43.0


From b24b430c37774ce6096d01f68e224e97629e6f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:29 +0000
Subject: [PATCH 021/116] fix: stringbuf input stays within a string which got
 shorter (C04)

---
 src/estd/internal/impl/streambuf/string.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/impl/streambuf/string.h b/src/estd/internal/impl/streambuf/string.h
index 9b600c5..e7813ce 100644
--- a/src/estd/internal/impl/streambuf/string.h
+++ b/src/estd/internal/impl/streambuf/string.h
@@ -106,7 +106,8 @@ struct basic_stringbuf :
 
     streamsize xsgetn(char_type* s, streamsize count)
     {
-        size_type count_copied = base_type::str().copy(s, count, pos());
+        const streamsize avail = xin_avail();
+        size_type count_copied = base_type::str().copy(s, estd::min(count, avail), pos());
 
         in_base_type::gbump(count_copied);
 
@@ -115,11 +116,20 @@ struct basic_stringbuf :
 
     size_type xin_avail() const
     {
-        return this->str_.length() - pos();
+        const size_type length = this->str_.length();
+
+        // string may have gotten shorter since
+        return length > pos() ? length - pos() : 0;
     }
 
     streamsize showmanyc() const { return in_base_type::showmanyc(xin_avail()); }
 
+    // no text left means nothing of it has been read, either
+    void clear()
+    {
+        base_type::clear();
+        in_base_type::seekpos(0);
+    }
 
     char_type xsgetc() const
     {
-- 
2.43.0


From 6303e8c4793dc7badcfe89cc9d67c1f8150473ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:29 +0000
Subject: [PATCH 022/116] fix: input repositioning stays within the source, and
 positions are as wide as the source (C04)

---
 src/estd/internal/impl/streambuf/pos.h    | 26 ++++++++++++++++++++
 src/estd/internal/impl/streambuf/span.h   | 15 ++++++++++--
 src/estd/internal/impl/streambuf/string.h | 30 ++++++-----------------
 3 files changed, 47 insertions(+), 24 deletions(-)

diff --git a/src/estd/internal/impl/streambuf/pos.h b/src/estd/internal/impl/streambuf/pos.h
index 1edd79a..b2a779f 100644
--- a/src/estd/internal/impl/streambuf/pos.h
+++ b/src/estd/internal/impl/streambuf/pos.h
@@ -58,6 +58,32 @@ protected:
         }
     }
 
+    // Same, but confined to a sequence of 'size' characters, "one past the end" included.
+    // Anything else is refused, leaving position alone and indicating -1
+    inline off_type seekoff_bounded(off_type off, ios_base::seekdir way, off_type size)
+    {
+        switch(way)
+        {
+            case ios_base::beg:
+                break;
+
+            case ios_base::cur:
+                off += off_type(_pos);
+                break;
+
+            case ios_base::end:
+                off += size;
+                break;
+
+            default:
+                return -1;
+        }
+
+        if(off < 0 || off > size) return -1;
+
+        return off_type(seekpos(pos_type(off)));
+    }
+
 public:
     // NOTE: Old comment here, just for reference as to why we have both index_type
     // and pos_type
diff --git a/src/estd/internal/impl/streambuf/span.h b/src/estd/internal/impl/streambuf/span.h
index 5b0af70..a422b04 100644
--- a/src/estd/internal/impl/streambuf/span.h
+++ b/src/estd/internal/impl/streambuf/span.h
@@ -147,13 +147,15 @@ template <class TChar,
         std::size_t Extent = detail::dynamic_extent::value,
         class TBase = estd::experimental::instance_provider<estd::span<TChar, Extent> > >
 struct in_span_streambuf :
-        in_pos_streambuf_base<TCharTraits>,
+        in_pos_streambuf_base<TCharTraits,
+            typename TBase::value_type::size_type>,
 
         streambuf_gptr_tag,
 
         TBase
 {
-    typedef in_pos_streambuf_base<TCharTraits> base_pos_type;
+    typedef in_pos_streambuf_base<TCharTraits,
+        typename TBase::value_type::size_type> base_pos_type;
     typedef TBase base_type;
 
     using typename base_pos_type::traits_type;
@@ -161,6 +163,7 @@ struct in_span_streambuf :
     typedef typename span_type::size_type size_type;
     typedef typename traits_type::int_type int_type;
     typedef typename base_pos_type::pos_type pos_type;
+    typedef typename base_pos_type::off_type off_type;
     typedef TChar char_type;
     typedef typename remove_const<char_type>::type nonconst_char_type;
 
@@ -201,6 +204,14 @@ protected:
     }
 
     ESTD_CPP_CONSTEXPR_RET const char_type& xsgetc() const { return *gptr(); }
+
+    off_type seekoff(off_type off, ios_base::seekdir way,
+        ios_base::openmode which = ios_base::in | ios_base::out)
+    {
+        if(!(which & ios_base::in)) return -1;
+
+        return base_pos_type::seekoff_bounded(off, way, in().size());
+    }
 };
 
 
diff --git a/src/estd/internal/impl/streambuf/string.h b/src/estd/internal/impl/streambuf/string.h
index e7813ce..9485221 100644
--- a/src/estd/internal/impl/streambuf/string.h
+++ b/src/estd/internal/impl/streambuf/string.h
@@ -84,13 +84,16 @@ struct out_stringbuf : stringbuf_base<String>
 template <class String>
 struct basic_stringbuf :
         out_stringbuf<String>,
-        in_pos_streambuf_base<typename remove_reference_t<String>::traits_type>,
+        in_pos_streambuf_base<
+            typename remove_reference_t<String>::traits_type,
+            typename remove_reference_t<String>::size_type>,
 
         streambuf_sungetc_tag
 {
     typedef out_stringbuf<String> base_type;
     using char_traits = typename remove_reference_t<String>::traits_type;
-    typedef in_pos_streambuf_base<char_traits> in_base_type;
+    typedef in_pos_streambuf_base<char_traits,
+        typename remove_reference_t<String>::size_type> in_base_type;
     typedef typename base_type::traits_type traits_type;
     typedef typename base_type::char_type char_type;
     typedef typename traits_type::int_type int_type;
@@ -146,28 +149,11 @@ struct basic_stringbuf :
     //char_type* gptr() { return base_type::_str.data() + in_base_type::pos(); }
 
 
-    // UNTESTED
-    pos_type seekoff(off_type off, ios_base::seekdir dir, ios_base::openmode which)
+    off_type seekoff(off_type off, ios_base::seekdir dir, ios_base::openmode which)
     {
-        switch(dir)
-        {
-            case ios_base::beg:
-                if(which & ios_base::in)
-                    return in_base_type::seekpos(off);
-                break;
-
-            case ios_base::cur:
-                if(which & ios_base::in)
-                    in_base_type::gbump(off);
-                break;
-
-            case ios_base::end:
-                if(which & ios_base::in)
-                    return in_base_type::seekpos(this->str().length() + off);
-                break;
-        }
+        if(!(which & ios_base::in)) return -1;
 
-        return pos_type(off_type(-1));
+        return in_base_type::seekoff_bounded(off, dir, this->str().length());
     }
 
     int_type sungetc()
-- 
2.43.0


From 57ddbf58f11fd18a34118817f4504c7fb9acf456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:42 +0000
Subject: [PATCH 023/116] fix: streams over const characters tell 0xFF from end
 of input (C04)

---
 src/estd/internal/impl/streambuf/span.h | 2 +-
 src/estd/istream.h                      | 4 ++--
 src/estd/sstream.h                      | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/estd/internal/impl/streambuf/span.h b/src/estd/internal/impl/streambuf/span.h
index a422b04..6f4c80e 100644
--- a/src/estd/internal/impl/streambuf/span.h
+++ b/src/estd/internal/impl/streambuf/span.h
@@ -143,7 +143,7 @@ public:
 // be implemented in a derived class
 // DEBT: Refactor this to take CharTraits directly
 template <class TChar,
-        class TCharTraits =  estd::char_traits<TChar>,
+        class TCharTraits =  estd::char_traits<typename estd::remove_const<TChar>::type>,
         std::size_t Extent = detail::dynamic_extent::value,
         class TBase = estd::experimental::instance_provider<estd::span<TChar, Extent> > >
 struct in_span_streambuf :
diff --git a/src/estd/istream.h b/src/estd/istream.h
index 007f613..3866cbc 100644
--- a/src/estd/istream.h
+++ b/src/estd/istream.h
@@ -170,12 +170,12 @@ detail::basic_istream<Streambuf, Base>& operator >>(
 // live in estd itself rather than estd::detail
 namespace detail {
 
-template <class Char, class CharTraits = estd::char_traits<Char>>
+template <class Char, class CharTraits = estd::char_traits<remove_const_t<Char>>>
 using basic_ispanbuf = estd::internal::streambuf<estd::internal::impl::in_span_streambuf<Char, CharTraits> >;
 
 using ispanbuf = basic_ispanbuf<char>;
 
-template <class Char, class CharTraits = estd::char_traits<Char>>
+template <class Char, class CharTraits = estd::char_traits<remove_const_t<Char>>>
 using basic_ispanstream = estd::detail::basic_istream<basic_ispanbuf<Char>>;
 
 using ispanstream = basic_ispanstream<char>;
diff --git a/src/estd/sstream.h b/src/estd/sstream.h
index 41d3c13..bc9a9b7 100644
--- a/src/estd/sstream.h
+++ b/src/estd/sstream.h
@@ -108,14 +108,14 @@ struct ostringstream : estd::detail::basic_ostream<layer1::basic_stringbuf<char,
 namespace layer2 {
 
 #ifdef __cpp_alias_templates
-template<class Char, size_t N = 0, bool null_terminated = true, class Traits = estd::char_traits<Char> >
+template<class Char, size_t N = 0, bool null_terminated = true, class Traits = estd::char_traits<remove_const_t<Char>> >
 using basic_stringbuf = detail::streambuf <
     internal::impl::basic_stringbuf<
         layer2::basic_string <Char, N, null_terminated, Traits> > >;
 
 using stringbuf = basic_stringbuf<char>;
 
-template <class Char, size_t N = 0, bool null_terminated = true, class Traits = estd::char_traits<Char> >
+template <class Char, size_t N = 0, bool null_terminated = true, class Traits = estd::char_traits<remove_const_t<Char>> >
 using basic_istringstream =
     detail::basic_istream<basic_stringbuf<Char, N, null_terminated, Traits>>;
 #endif
-- 
2.43.0


From f79d125aa4823d6eeb149c610b71d4cb723f07c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:29 +0000
Subject: [PATCH 024/116] fix: extracting a NUL character delivers it (C04)

---
 src/estd/istream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/istream.h b/src/estd/istream.h
index 3866cbc..a42562e 100644
--- a/src/estd/istream.h
+++ b/src/estd/istream.h
@@ -161,7 +161,7 @@ detail::basic_istream<Streambuf, Base>& operator >>(
 
     const typename traits::int_type c = in.get();
 
-    if(traits::not_eof(c))  value = traits::to_char_type(c);
+    if(c != traits::eof())  value = traits::to_char_type(c);
 
     return in;
 }
-- 
2.43.0


From 5b80413871ed465b74ac3bf9f6860a066a27ee31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:52 +0000
Subject: [PATCH 025/116] fix: word extraction into a full string leaves the
 rest in the source and fails (C05)

---
 src/estd/internal/istream_runtimearray.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/estd/internal/istream_runtimearray.hpp b/src/estd/internal/istream_runtimearray.hpp
index a732392..ea7c775 100644
--- a/src/estd/internal/istream_runtimearray.hpp
+++ b/src/estd/internal/istream_runtimearray.hpp
@@ -53,10 +53,19 @@ void do_input(detail::basic_istream<TStreambuf, TBase>& in,
         }
         else if(isspace(traits_type::to_char_type(ch), loc)) break;
 
+        const auto size = value.size();
+
         // NOTE: += is defined and should have worked
         value.push_back(traits_type::to_char_type(ch));
         //value += (char_type)ch;
 
+        if(value.size() == size)
+        {
+            // string is full, leave what doesn't fit in place
+            in.setstate(istream_type::failbit);
+            break;
+        }
+
         in.get();
     }
 }
-- 
2.43.0


From 799f861ee7ccea9cb97bafe5e75fee10720c8c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:52 +0000
Subject: [PATCH 026/116] fix: names are not matched from the middle nor beyond
 their end (C05)

---
 src/estd/internal/chooser.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/estd/internal/chooser.h b/src/estd/internal/chooser.h
index 043ed01..3472400 100644
--- a/src/estd/internal/chooser.h
+++ b/src/estd/internal/chooser.h
@@ -54,6 +54,9 @@ public:
                     break;
                 }
             }
+
+            // not the start of any of the containers
+            if(chosen_ == -1) return true;
         }
         else
         {
-- 
2.43.0


From 361d04e0f11f2b925f81249d63b61b4ee5dde2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:52 +0000
Subject: [PATCH 027/116] fix: number extraction honors the stream's blocking
 policy (C05)

---
 src/estd/internal/istream.h | 69 +++++++++++++++++++++++++++++++++++++
 src/estd/istream.h          |  5 ++-
 2 files changed, 71 insertions(+), 3 deletions(-)

diff --git a/src/estd/internal/istream.h b/src/estd/internal/istream.h
index cb90640..aacae14 100644
--- a/src/estd/internal/istream.h
+++ b/src/estd/internal/istream.h
@@ -375,6 +375,75 @@ public:
 
 namespace internal {
 
+/// Iterates over characters to be extracted from an istream.  Unlike istreambuf_iterator, honors
+/// blocking policy of the istream - so end of a blocking istream means its source has ended,
+/// not merely that nothing is available at the moment
+template <class Istream>
+class istream_extract_iterator
+{
+    typedef typename Istream::blocking_type blocking_type;
+    typedef typename Istream::traits_type traits_type;
+
+    // Null if representing an 'end' iterator
+    Istream* in_;
+
+    bool end() const
+    {
+        return in_ == NULLPTR ||
+            (**this == traits_type::eof() && in_->rdbuf()->in_avail() == -1);
+    }
+
+public:
+    typedef istream_extract_iterator iterator;
+    typedef typename traits_type::int_type int_type;
+    typedef typename traits_type::off_type difference_type;
+    typedef int_type value_type;
+    typedef void pointer;
+    typedef typename Istream::char_type reference;
+    typedef std::input_iterator_tag iterator_category;
+
+    class proxy
+    {
+        const int_type ch;
+
+    public:
+        explicit proxy(int_type ch) : ch(ch) {}
+
+        int_type operator*() const { return ch; }
+    };
+
+    istream_extract_iterator() : in_(NULLPTR) {}
+    explicit istream_extract_iterator(Istream& in) : in_(&in) {}
+
+    value_type operator*() const
+    {
+        return blocking_type::sgetc(*in_, in_->rdbuf());
+    }
+
+    iterator& operator++()
+    {
+        in_->rdbuf()->sbumpc();
+        return *this;
+    }
+
+    proxy operator++(int)
+    {
+        proxy p(**this);
+        operator++();
+        return p;
+    }
+
+    friend bool operator==(const iterator& lhs, const iterator& rhs)
+    {
+        return lhs.end() == rhs.end();
+    }
+
+    friend bool operator!=(const iterator& lhs, const iterator& rhs)
+    {
+        return !(lhs == rhs);
+    }
+};
+
 template <class Streambuf, internal::istream_flags::flag_type flags = internal::istream_flags::_default>
 using flagged_istream = detail::basic_istream<Streambuf,
             estd::internal::basic_ios<Streambuf, false,
diff --git a/src/estd/istream.h b/src/estd/istream.h
index a42562e..3d467a0 100644
--- a/src/estd/istream.h
+++ b/src/estd/istream.h
@@ -125,14 +125,13 @@ operator >>(
     // A very specific gcount update is mentioned for scenario #11 in [1], which
     // is outside the scope of this method.
     typedef detail::basic_istream<Streambuf, Base> istream_type;
-    typedef typename istream_type::streambuf_type streambuf_type;
     typedef typename istream_type::traits_type traits_type;
     typedef typename traits_type::char_type char_type;
-    typedef estd::istreambuf_iterator<streambuf_type> iterator_type;
+    typedef internal::istream_extract_iterator<istream_type> iterator_type;
 
     in >> ws;
 
-    iterator_type it(in.rdbuf()), end;
+    iterator_type it(in), end;
     ios_base::iostate err = in.rdstate();
 
     num_get<char_type, iterator_type> n;
-- 
2.43.0


From 44e0ec3a27b58715571c6cdc9c0e06918fc2587b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:21 +0000
Subject: [PATCH 028/116] fix: parsing an out-of-range number stops behind its
 digits (C05)

---
 src/estd/internal/locale/iterated/num_get.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/locale/iterated/num_get.h b/src/estd/internal/locale/iterated/num_get.h
index 34995e6..4959d76 100644
--- a/src/estd/internal/locale/iterated/num_get.h
+++ b/src/estd/internal/locale/iterated/num_get.h
@@ -251,7 +251,7 @@ struct num_get
 
             case Overflow:
                 // Merely consumed numbers in this mode
-                return cbase_type::from_char(c).has_value();
+                return cbase_type::from_char(c).has_value() == false;
 
             // FIX: Just to satisfy compilation
             default:
-- 
2.43.0


From ec3f47b21615c03760e83410850bc502f2bf798c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:21 +0000
Subject: [PATCH 029/116] fix: a number has at most one decimal point (C05)

---
 src/estd/internal/locale/iterated/num_get.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/locale/iterated/num_get.h b/src/estd/internal/locale/iterated/num_get.h
index 4959d76..54a75d7 100644
--- a/src/estd/internal/locale/iterated/num_get.h
+++ b/src/estd/internal/locale/iterated/num_get.h
@@ -147,7 +147,8 @@ struct num_get
             // TODO: Account for thousands separators
             // NOTE: Probably should use is_floating_point here instead, though so far
             // is_integer is in no danger of causing us grief
-            if(is_integer() == false && c == numpunct_type::decimal_point())
+            if(is_integer() == false && state_.decimal_place_ == 0 &&
+                c == numpunct_type::decimal_point())
             {
                 state_.decimal_place_ = 1;
                 return false;
-- 
2.43.0


From b92fcea7355796f8687105600941546e7e47d475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:21 +0000
Subject: [PATCH 030/116] fix: a number without digits is a failure, also
 behind a sign or at the end of input (C05)

---
 src/estd/internal/locale/iterated/num_get.h | 10 +++++++++-
 src/estd/internal/locale/num_get.h          |  2 ++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/locale/iterated/num_get.h b/src/estd/internal/locale/iterated/num_get.h
index 54a75d7..62eaa56 100644
--- a/src/estd/internal/locale/iterated/num_get.h
+++ b/src/estd/internal/locale/iterated/num_get.h
@@ -158,6 +158,12 @@ struct num_get
         return true;
     }
 
+    /// @return true if nothing which makes up a number has been processed so far
+    bool empty() const
+    {
+        return state_.state_ == Start || state_.state_ == FirstNegative;
+    }
+
     // integer variety (noop)
     template <typename T>
     static ESTD_CPP_CONSTEXPR_RET bool finalize(T& v, true_type)
@@ -214,7 +220,7 @@ struct num_get
                 // to ensure this hyphen compare is proper
                 if (is_signed<T>() && c == ctype_type::widen('-'))
                 {
-                    state_.state_ = NominalNegative;
+                    state_.state_ = FirstNegative;
                     return false;
                 }
                 else
@@ -235,6 +241,8 @@ struct num_get
                     return false;
 
             case FirstNegative:
+                state_.state_ = NominalNegative;
+
                 if(nominal<false>(c, err, v))
                 {
                     // "if the conversion function fails std::ios_base::failbit is assigned to err" [1]
diff --git a/src/estd/internal/locale/num_get.h b/src/estd/internal/locale/num_get.h
index 3282384..416e226 100644
--- a/src/estd/internal/locale/num_get.h
+++ b/src/estd/internal/locale/num_get.h
@@ -70,6 +70,8 @@ private:
             }
 
             err |= ios_base::eofbit;
+            // Input ended before anything number-like showed up
+            if(n.empty()) err |= ios_base::failbit;
             n.finalize(v, is_integer());
             return i;
         }
-- 
2.43.0


From 64a7fd8f03c584705514b29f1f98aa125af4f809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:25 +0000
Subject: [PATCH 031/116] fix: moving a sole linked_ref or an unlinked one
 leaves no dangling link (C13)

---
 src/estd/internal/linked_ref.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/estd/internal/linked_ref.h b/src/estd/internal/linked_ref.h
index c8a0e28..5ae6f13 100644
--- a/src/estd/internal/linked_ref.h
+++ b/src/estd/internal/linked_ref.h
@@ -89,6 +89,15 @@ public:
         // is superior here, but that's
         // 1. not implemented yet
         // 2. increases our footprint by ~33%
+
+        // Nothing to take over, or nobody else to take it over from
+        if(move_from.next_ == nullptr || move_from.next_ == &move_from)
+        {
+            next_ = move_from.next_ == nullptr ? nullptr : this;
+            move_from.next_ = nullptr;
+            return;
+        }
+
         list_type l(&move_from);
         const_iterator pos(l.before_begin().current_);
 
-- 
2.43.0


From aedd985454bc9ad2df2b7017741a75c89e54e585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:25 +0000
Subject: [PATCH 032/116] fix: copying a layer3 shared_ptr counts after its
 master was reset (C13)

---
 src/estd/memory.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/estd/memory.h b/src/estd/memory.h
index 2bfdf37..c56c624 100644
--- a/src/estd/memory.h
+++ b/src/estd/memory.h
@@ -309,7 +309,9 @@ public:
     shared_ptr2_base(estd::internal::shared_ptr_control_block<T>* master_shared_ptr) :
         base_type(master_shared_ptr)
     {
-        if(master_shared_ptr && master_shared_ptr->is_active)
+        // is_active only speaks for the master itself.  Others may still own the
+        // managed object after master has been reset
+        if(master_shared_ptr)
             master_shared_ptr->shared_count++;
     }
 
-- 
2.43.0


From c181eb196f0288f52e4ecdf891b8bcd9c92d95da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:49 +0000
Subject: [PATCH 033/116] fix: assigning a layer3 shared_ptr to itself or from
 inside its object keeps the object (C13)

---
 src/estd/memory.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/estd/memory.h b/src/estd/memory.h
index c56c624..53e81ab 100644
--- a/src/estd/memory.h
+++ b/src/estd/memory.h
@@ -585,8 +585,12 @@ public:
     shared_ptr& operator=(TSharedPtr&
                          copy_from)
     {
-        this->reset();
-        new (this) shared_ptr(copy_from);
+        // Take hold of what copy_from refers to before letting go of our own, since
+        // copy_from might be ourself or live inside what we let go
+        shared_ptr temp(copy_from);
+        typename base_type::value_type* const old = this->value_ptr();
+        this->value_ptr(temp.value_ptr());
+        temp.value_ptr(old);
         return *this;
     }
 
-- 
2.43.0


From 48706fbd5fa0e3a73b6b9d4e0e62b7b0e6fcb100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:12 +0000
Subject: [PATCH 034/116] fix: typed_pool takes the block back when
 construction fails (C20)

---
 src/estd/internal/memory/v1/pool.h | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/memory/v1/pool.h b/src/estd/internal/memory/v1/pool.h
index 4e03e1a..ee4c278 100644
--- a/src/estd/internal/memory/v1/pool.h
+++ b/src/estd/internal/memory/v1/pool.h
@@ -165,7 +165,22 @@ public:
 
         if(storage == nullptr)  return nullptr;
 
-        return new (storage) T(std::forward<Args>(args)...);
+        // Gives block back if T's constructor doesn't make it through.  Not a try/catch
+        // since exceptions may be disabled altogether
+        struct guard
+        {
+            base_type& pool_;
+            void* storage_;
+
+            ~guard()
+            {
+                if(storage_ != nullptr)  pool_.free(storage_);
+            }
+        }   g{*this, storage};
+
+        T* const t = new (storage) T(std::forward<Args>(args)...);
+        g.storage_ = nullptr;
+        return t;
     }
 
     void erase(T* t)
-- 
2.43.0


From 5c8360f65cee08624a254ecbd3b53cd085321a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:12 +0000
Subject: [PATCH 035/116] fix: memory pool v2 counts its free list, not the
 slots behind its head (C20)

---
 src/estd/exp/memory/memory_pool2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/exp/memory/memory_pool2.h b/src/estd/exp/memory/memory_pool2.h
index d2a6d4c..442f54b 100644
--- a/src/estd/exp/memory/memory_pool2.h
+++ b/src/estd/exp/memory/memory_pool2.h
@@ -90,7 +90,7 @@ public:
         std::size_t count = 0;
 
         // TODO: Make a estd::accumulate
-        for(; i != items.end(); ++i, ++count);
+        for(; i != items.end(); i = i->next, ++count);
 
         return count;
     }
-- 
2.43.0


From a2b7b220d5d701641bf725ba5d7d2062673735bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:04 +0000
Subject: [PATCH 036/116] fix: forward_list removes adjacent matches (C21)

---
 src/estd/forward_list.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/estd/forward_list.h b/src/estd/forward_list.h
index 81ca246..8224d3e 100644
--- a/src/estd/forward_list.h
+++ b/src/estd/forward_list.h
@@ -223,8 +223,10 @@ public:
 
                 if (first_only) return;
             }
+            else
+                // a removed node precedes nothing anymore
+                previous = current;
 
-            previous = current;
             current = _next;
         }
     }
@@ -265,8 +267,9 @@ public:
 
                 if(first_only) return;
             }
+            else
+                previous = current;
 
-            previous = current;
             current = _next;
         }
 #endif
-- 
2.43.0


From b6f1fdf405209c4838c96735a7cdfc60a6c4823d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:04 +0000
Subject: [PATCH 037/116] fix: forward list with back keeps members pushed
 after it ran empty (C21)

---
 src/estd/internal/list_node.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/estd/internal/list_node.h b/src/estd/internal/list_node.h
index ff5d4ba..17294d9 100644
--- a/src/estd/internal/list_node.h
+++ b/src/estd/internal/list_node.h
@@ -380,6 +380,9 @@ protected:
 
         // set the current 'back' tracker to this new_back
         base_type::m_back = new_back;
+
+        // new_back may still be linked from an earlier membership
+        base_type::set_next(new_back, base_type::after_end_node());
     }
 
 
@@ -415,6 +418,14 @@ public:
         set_front(base_type::get_traits().allocate(value));
     }
 
+    void pop_front()
+    {
+        base_type::pop_front();
+
+        // nothing left, so no back either
+        if(base_type::empty())
+            base_type::m_back = base_type::after_end_node();
+    }
 };
 
 }
-- 
2.43.0


From 53071aef964c1f360d800241e7dba91189af9cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:04 +0000
Subject: [PATCH 038/116] fix: lists owning their nodes destroy and free each
 one they remove (C21)

---
 src/estd/forward_list.h     | 2 ++
 src/estd/traits/list_node.h | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/estd/forward_list.h b/src/estd/forward_list.h
index 8224d3e..66b6aaf 100644
--- a/src/estd/forward_list.h
+++ b/src/estd/forward_list.h
@@ -161,6 +161,8 @@ public:
 
         set_next(node_to_erase_after, node_following_erased);
 
+        base_t::traits.deallocate(node_to_erase);
+
         return iterator(node_following_erased, base_t::traits);
     }
 
diff --git a/src/estd/traits/list_node.h b/src/estd/traits/list_node.h
index 06fc7d1..7b7c9d8 100644
--- a/src/estd/traits/list_node.h
+++ b/src/estd/traits/list_node.h
@@ -266,7 +266,7 @@ struct inlinevalue_node_traits_new_base :
 
     void deallocate(node_handle& h)
     {
-        base_t::deallocate_node(h);
+        base_t::destroy(h);
     }
 
 #ifdef FEATURE_CPP_VARIADIC
-- 
2.43.0


From ea8fb9efcf612a6dbac009ca16fb472365302276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:04 +0000
Subject: [PATCH 039/116] fix: list inserts at its end (C21)

---
 src/estd/list.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/estd/list.h b/src/estd/list.h
index bccb345..3f95b96 100644
--- a/src/estd/list.h
+++ b/src/estd/list.h
@@ -122,6 +122,13 @@ public:
             return base_t::begin();
         }
 
+        // likewise, nothing follows when inserting at end
+        if(pos.node() == base_t::after_end_node())
+        {
+            push_back(value);
+            return iterator(base_t::m_back, base_t::traits);
+        }
+
         node_handle new_node = base_t::traits.allocate(value);
 
         node_handle node_to_insert_on = pos.node(); // or 'before', if you like
-- 
2.43.0


From 0a7c0287386e1c83599c4222887d9ff6a7e4c94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:52 +0000
Subject: [PATCH 040/116] fix: vector push_back assigned to unconstructed
 memory, and a failed construction was counted as element

---
 src/estd/internal/dynamic_array.h | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index 94d4455..b3ed422 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -628,14 +628,31 @@ public:
 
     append_result push_back(const value_type& value)
     {
-        return append(&value, 1);
+        // Size counts new element only once it's constructed
+        const grow_result r = ensure_additional_capacity(1);
+
+#if FEATURE_ESTD_DYNAMIC_ARRAY_BOUNDS_CHECK
+        if(r.grew() == false) return append_result(unexpect_t(), 0);
+#else
+        if(r.grew() == false) return 0;
+#endif
+
+        value_type* raw = lock(r.starting_size);
+
+        new (raw) value_type(value);
+
+        unlock();
+
+        impl().size(r.starting_size + 1);
+
+        return append_result(1);
     }
 
 #ifdef __cpp_rvalue_references
     append_result push_back(value_type&& value)
     {
         // TODO: combine this with _append since it's mostly overlapping code
-        grow_result r = grow(1);
+        const grow_result r = ensure_additional_capacity(1);
 
 #if FEATURE_ESTD_DYNAMIC_ARRAY_BOUNDS_CHECK
         if(r.increased_by.has_value() == false) return append_result(unexpect_t(), 0);
@@ -651,6 +668,8 @@ public:
 
         unlock();
 
+        impl().size(current_size + 1);
+
         return append_result(1);
     }
 #endif
@@ -688,7 +707,7 @@ public:
     accessor emplace_back(TArgs&&...args)
     {
         // TODO: combine this with _append since it's mostly overlapping code
-        grow_result r = grow(1);
+        const grow_result r = ensure_additional_capacity(1);
 
         // DEBT: No way to report refusal here, other than size() having not changed
         if(r.grew() == false) return base_type::back();
@@ -705,6 +724,8 @@ public:
         unlock();
 #endif
 
+        impl().size(current_size + 1);
+
         return base_type::back();
     }
 #endif
-- 
2.43.0


From 305ca046e69ed04ae74da8eaea6d07880f468ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:52 +0000
Subject: [PATCH 041/116] fix: deque refuses pushes when full and pops when
 empty, and keeps elements alive exactly while held

---
 src/estd/queue.h | 107 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 76 insertions(+), 31 deletions(-)

diff --git a/src/estd/queue.h b/src/estd/queue.h
index 353d0b0..439b00b 100644
--- a/src/estd/queue.h
+++ b/src/estd/queue.h
@@ -5,6 +5,7 @@
 
 #include "array.h"
 #include "vector.h"
+#include "new.h"
 #include "functional.h"
 #include "internal/deduce_fixed_size.h"
 #include "internal/priority_queue.h"
@@ -43,12 +44,34 @@ struct smalL_dequeue_policy
 };
 
 
+// Room for N T's, none of which is constructed yet
+template <class T, size_t N>
+class uninitialized_array
+{
+    typename estd::aligned_storage<sizeof(T) * N, alignof (T)>::type storage_;
+
+public:
+    typedef T value_type;
+    typedef T* iterator;
+    typedef const T* const_iterator;
+    typedef size_t size_type;
+
+    iterator begin() { return reinterpret_cast<T*>(&storage_); }
+    const_iterator begin() const { return reinterpret_cast<const T*>(&storage_); }
+    iterator end() { return begin() + N; }
+    const_iterator end() const { return begin() + N; }
+
+    static ESTD_CPP_CONSTEXPR_RET size_type size() { return N; }
+};
+
+
 struct normal_array_policy
 {
     template <class T, size_t N>
     struct Array
     {
-        typedef array<T, N> container_type;
+        // elements live only from push/emplace until pop
+        typedef uninitialized_array<T, N> container_type;
 
         // TODO: Make special iterator for dequeue which does the rollover/rollunder
         // and checks that you only move back and forth within one 'session' of
@@ -150,7 +173,7 @@ class deque : protected TPolicy
             --(*i);
     }
 
-    void decrement(array_iterator* i)
+    void decrement(array_iterator* i) const
     {
         decrement((const_array_iterator*)i);
     }
@@ -189,18 +212,18 @@ public:
     }
 
 #ifdef FEATURE_CPP_MOVESEMANTIC
-    constexpr deque(deque&& move_from) :
-        m_array(std::move(move_from.m_array)),
-        m_front(std::move(move_from.m_front)),
-        m_back(std::move(move_from.m_back)),
-        m_empty(std::move(move_from.m_empty))
-    {}
+    // Our iterators point into our own array, so it's the elements which move
+    deque(deque&& move_from) : deque()
+    {
+        for(; !move_from.empty(); move_from.pop_front())
+            emplace_back(std::move(move_from.front()));
+    }
 #endif
     
 
     ~deque()
     {
-        // TODO: destruct all remaining items
+        while(pop_back()) {}
     }
 
     typedef T value_type;
@@ -216,16 +239,22 @@ public:
         const deque& parent;
         array_iterator current;
 
+        // When deque is full, begin and end are at the same place.  This tells them apart
+        bool first_of_full;
+
         // DEBT: Do we need a copy constructor here?
 
-        ESTD_CPP_CONSTEXPR_RET forward_iterator(const deque& parent, array_iterator current)
+        ESTD_CPP_CONSTEXPR_RET forward_iterator(const deque& parent, array_iterator current,
+            bool first_of_full = false)
             : parent(parent),
-              current(current)
+              current(current),
+              first_of_full(first_of_full)
         {}
 
         forward_iterator& operator++()
         {
             parent.increment(&current);
+            first_of_full = false;
             return *this;
         }
 
@@ -233,6 +262,7 @@ public:
         forward_iterator& operator--()
         {
             parent.decrement(&current);
+            first_of_full = parent.full() && current == parent.m_front;
             return *this;
         }
 
@@ -250,24 +280,26 @@ public:
 
         bool operator==(const forward_iterator& compare_to) const
         {
-            return compare_to.current == current;
+            return compare_to.current == current && compare_to.first_of_full == first_of_full;
         }
 
         bool operator!=(const forward_iterator& compare_to) const
         {
-            return compare_to.current != current;
+            return !(*this == compare_to);
         }
     };
 
     typedef forward_iterator iterator;
     typedef const iterator const_iterator;
 
-    iterator begin() { return iterator(*this, m_front); }
+    iterator begin() { return iterator(*this, m_front, full()); }
 
     iterator end() { return iterator(*this, m_back); }
 
     bool empty() const { return m_empty; }
 
+    bool full() const { return !m_empty && m_front == m_back; }
+
     size_type size() const
     {
         if(empty()) return 0;
@@ -283,10 +315,11 @@ public:
 
     bool push_back(const_reference value)
     {
-        *m_back++ = value;
-        m_empty = false;
+        if(full()) return false;
 
-        evaluate_rollover((const_array_iterator*)&m_back);
+        new (m_back) value_type(value);
+
+        increment(&m_back, false);
 
         return true;
     }
@@ -302,12 +335,15 @@ public:
     ///
     bool push_front(const_reference value)
     {
-        // NOTE: doesn't do a before-begin style, but for consistency probably should
-        evaluate_rollunder((const_array_iterator*)&m_front);
-        m_front--; // due to the non-before-begin approach. confusing
+        if(full()) return false;
 
-        *m_front = value;
+        array_iterator i = m_front;
+
+        decrement(&i);
+
+        new (i) value_type(value);
 
+        m_front = i;
         m_empty = false;
 
         return true;
@@ -316,6 +352,8 @@ public:
 
     bool pop_back()
     {
+        if(empty()) return false;
+
         back().~value_type();
 
         decrement(&m_back);
@@ -327,6 +365,8 @@ public:
 
     bool pop_front()
     {
+        if(empty()) return false;
+
         front().~value_type();
 
         m_front++;
@@ -375,24 +415,30 @@ public:
     }
 
 #if defined(FEATURE_CPP_VARIADIC) && defined(FEATURE_CPP_MOVESEMANTIC)
-    // Compiles but untested
+    // No way to report a refusal due to being full, other than size() having not changed
     template <class ...TArgs>
     reference emplace_front(TArgs&&...args)
     {
-        value_type& retval = *m_front;
+        if(full()) return front();
 
-        new (&retval) value_type(std::forward<TArgs>(args)...);
+        array_iterator i = m_front;
 
-        decrement(&m_front);
+        decrement(&i);
+
+        new (i) value_type(std::forward<TArgs>(args)...);
+
+        m_front = i;
         m_empty = false;
 
-        return retval;
+        return *i;
     }
 
-    // Compiles but untested
+    // No way to report a refusal due to being full, other than size() having not changed
     template <class ...TArgs>
     reference emplace_back(TArgs&&...args)
     {
+        if(full()) return back();
+
         value_type& retval = *m_back;
 
         new (&retval) value_type(std::forward<TArgs>(args)...);
@@ -406,12 +452,11 @@ public:
 #ifdef FEATURE_CPP_MOVESEMANTIC
     bool push_back(value_type&& value)
     {
-        value_type& back = *m_back++;
+        if(full()) return false;
 
-        new (&back) value_type(std::move(value));
+        new (m_back) value_type(std::move(value));
 
-        evaluate_rollover((const_array_iterator*)&m_back);
-        m_empty = false;
+        increment(&m_back, false);
 
         return true;
     }
-- 
2.43.0


From 31b2bc6553420e4fba3ff9a8203b5fa5c587ccc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:52 +0000
Subject: [PATCH 042/116] fix: queue streambuf claims only the characters its
 queue took

---
 src/estd/internal/impl/streambuf.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/estd/internal/impl/streambuf.h b/src/estd/internal/impl/streambuf.h
index 30662a2..33ee87a 100644
--- a/src/estd/internal/impl/streambuf.h
+++ b/src/estd/internal/impl/streambuf.h
@@ -32,14 +32,12 @@ private:
 public:
     streamsize xsputn(const char_type* s, streamsize count)
     {
-        streamsize orig_count = count;
+        streamsize written = 0;
 
-        while(count--)
-        {
-            put_area.push_back(*s++);
-        }
+        while(written < count && put_area.push_back(*s++))
+            ++written;
 
-        return orig_count;
+        return written;
     }
 
     int sync()
-- 
2.43.0


From 13483c48c907c606caca228d522ca13954af1442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:52 +0000
Subject: [PATCH 043/116] fix: making a heap of nothing left its bounds

---
 src/estd/internal/algorithm/heap.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/estd/internal/algorithm/heap.h b/src/estd/internal/algorithm/heap.h
index 790770a..63707e7 100644
--- a/src/estd/internal/algorithm/heap.h
+++ b/src/estd/internal/algorithm/heap.h
@@ -162,6 +162,8 @@ struct heap
 
     void make()
     {
+        if(empty()) return;
+
         int last_nonleaf_idx = (size() - 1) / k;
         // FIX: this is not sufficient, because restore_up doesn't evaluate all children
         //while(!restore_up());
-- 
2.43.0


From 600a5acaf33ab997c4ff8537f85c57b4720a08e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:52 +0000
Subject: [PATCH 044/116] fix: assigning a priority queue takes over its order,
 too

---
 src/estd/internal/priority_queue.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/estd/internal/priority_queue.h b/src/estd/internal/priority_queue.h
index 74f9139..f27a8c5 100644
--- a/src/estd/internal/priority_queue.h
+++ b/src/estd/internal/priority_queue.h
@@ -118,6 +118,8 @@ public:
 
     priority_queue& operator =(const priority_queue& copy_from)
     {
+        // contents are arranged according to copy_from's idea of order
+        compare_provider_type::operator=(copy_from);
         c = copy_from.c;
         return *this;
     }
@@ -148,7 +150,10 @@ public:
     template <class F, class ...Args>
     accessor emplace_with_notify(F f, Args&&...args)
     {
+        const size_type n = c.size();
         auto accessor = c.emplace_back(std::forward<Args>(args)...);
+        // no room, so nothing to notify of
+        if(c.size() == n) return accessor;
         f(accessor.lock());
         accessor.unlock();
         push_heap();
-- 
2.43.0


From 6ea1ebf78ce787450d15a45b5f44ab20da5bec3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:52 +0000
Subject: [PATCH 045/116] fix: emplace_with_notify on a full priority queue
 handed out an element already held

---
 src/estd/internal/priority_queue.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/estd/internal/priority_queue.h b/src/estd/internal/priority_queue.h
index f27a8c5..d17c2db 100644
--- a/src/estd/internal/priority_queue.h
+++ b/src/estd/internal/priority_queue.h
@@ -111,6 +111,8 @@ public:
 
     priority_queue& operator =(priority_queue&& move_from) noexcept
     {
+        // contents are arranged according to move_from's idea of order
+        compare_provider_type::operator=(move_from);
         c = std::move(move_from.c);
         return *this;
     }
-- 
2.43.0


From 5e6eb1e505b58ce8b532a12b2609b8717c6f4a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:13 +0000
Subject: [PATCH 046/116] fix: optional emplace kept claiming a value when
 construction threw

---
 src/estd/optional.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/estd/optional.h b/src/estd/optional.h
index 6a54c65..5092175 100644
--- a/src/estd/optional.h
+++ b/src/estd/optional.h
@@ -231,7 +231,8 @@ public:
     template<class... TArgs>
     T& emplace(TArgs&&... args)
     {
-        base_type::destroy();
+        // not just destroy: if construction throws, we have no value
+        base_type::reset();
 
         T& v = base_type::emplace(std::forward<TArgs>(args)...);
 
-- 
2.43.0


From f7165595b821248e579877b1c8ee310115a38c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:13 +0000
Subject: [PATCH 047/116] fix: optional assignment of an unassignable type kept
 claiming a value when construction threw

---
 src/estd/optional.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/estd/optional.h b/src/estd/optional.h
index 5092175..bbb9ce8 100644
--- a/src/estd/optional.h
+++ b/src/estd/optional.h
@@ -47,6 +47,11 @@ class optional :
     template <class U>
     void assign_value(U&& u)
     {
+        // When T can't be assigned a new one is constructed in its place.  If that
+        // throws, we have no value
+        if(!is_assignable<T&, U>::value)
+            base_type::reset();
+
         base_type::assign_value(
             base_type::has_value(),
             std::forward<U>(u));
@@ -177,6 +182,8 @@ public:
 
     optional& operator=(const optional& assign_from)
     {
+        if(this == &assign_from) return *this;
+
         if(assign_from.has_value())
             assign_value(assign_from.value());
         else
@@ -194,6 +201,8 @@ public:
         >
     optional& operator=(optional<U, TBase2>&& move_from)
     {
+        if(static_cast<const void*>(this) == &move_from) return *this;
+
         if(move_from.has_value())
             assign_value(std::move(move_from.value()));
         else
-- 
2.43.0


From 0fa2b16dda4ee23d788504e474c9d4dad18c1e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:13 +0000
Subject: [PATCH 048/116] fix: expected assignment destroyed its alternative
 twice when construction threw

---
 src/estd/internal/variant/storage.h | 31 +++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/estd/internal/variant/storage.h b/src/estd/internal/variant/storage.h
index 1fea032..b7d74d1 100644
--- a/src/estd/internal/variant/storage.h
+++ b/src/estd/internal/variant/storage.h
@@ -431,8 +431,7 @@ public:
     {
         // DEBT: std variant spec doesn't appear to handle 'emplace' for like-indexed assignment,
         // but we do.  Consider feature-flagging
-        destroy<I>();
-        assignment_emplace_helper<I, T_i, T>(std::forward<T>(t));
+        replace_helper<I, I, T_i>(std::forward<T>(t));
     }
 
     template <size_t I, class T_i, class T,
@@ -467,6 +466,31 @@ public:
     }
 
 
+    // Ends the 'index' alternative and initializes I in its place.  When initializing may
+    // throw, this is done aside first so that an exception leaves 'index' as it was
+    template <size_t I, size_t index, class T_i, class T,
+        enable_if_t<
+            is_convertible<T, T_i>::value &&
+            !is_nothrow_constructible<T_i, T>::value &&
+            is_nothrow_move_constructible<T_i>::value, bool> = true>
+    void replace_helper(T&& t)
+    {
+        T_i temp(std::forward<T>(t));
+        destroy<index>();
+        assignment_emplace_helper<I, T_i>(std::move(temp));
+    }
+
+    template <size_t I, size_t index, class T_i, class T,
+        enable_if_t<
+            !(is_convertible<T, T_i>::value &&
+            !is_nothrow_constructible<T_i, T>::value &&
+            is_nothrow_move_constructible<T_i>::value), bool> = true>
+    void replace_helper(T&& t, bool = true)
+    {
+        destroy<index>();
+        assignment_emplace_helper<I, T_i>(std::forward<T>(t));
+    }
+
     // index = index of variant tracked in 'this' - since it's a compile time constant,
     // this is most useful for when match toggles between two possibilities (such as
     // 'expected')
@@ -488,8 +512,7 @@ public:
         {
             // ... if not, destroy what we're tracking (if any) and
             // do a direct initialization
-            destroy<index>();
-            direct_init_helper<I, T_j>(std::forward<U>(u));
+            replace_helper<I, index, T_j>(std::forward<U>(u));
         }
     }
 
-- 
2.43.0


From e1acfe4c3721018d80462168df5a8ae5e4774cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:13 +0000
Subject: [PATCH 049/116] fix: variant kept claiming a destroyed alternative
 when construction threw

---
 src/estd/internal/variant.h         | 12 ++++++++----
 src/estd/internal/variant/storage.h |  4 +++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/estd/internal/variant.h b/src/estd/internal/variant.h
index 6e98476..5b7f2ff 100644
--- a/src/estd/internal/variant.h
+++ b/src/estd/internal/variant.h
@@ -93,8 +93,7 @@ class variant : protected variant_storage<Types...>
             enable_if_t<is_copy_assignable<remove_const_t<T_i>>::value, bool> = true>
         bool operator()(variadic::visitor_instance<I, T_i> vi, variant& v, const variant& assign_from)
         {
-            size_type index = v.index();
-            v.template assign_or_init<I>(&index, vi.value);
+            v.template assign_or_init<I>(&v.index_, vi.value);
             return true;
         }
 
@@ -103,8 +102,7 @@ class variant : protected variant_storage<Types...>
             enable_if_t<is_move_assignable<remove_const_t<T_i>>::value, bool> = true>
         bool operator()(variadic::visitor_instance<I, T_i> vi, variant& v, variant&& assign_from)
         {
-            size_type index = v.index();
-            v.template assign_or_init<I>(&index, std::move(vi.value));
+            v.template assign_or_init<I>(&v.index_, std::move(vi.value));
             return true;
         }
 
@@ -117,6 +115,9 @@ class variant : protected variant_storage<Types...>
             // breaks our burgeoning paradigm, so holding off
             v.destroy_if_valid();
 
+            // Unset index just in case exception is thrown during construction
+            v.index_ = variant_npos();
+
             v.template copy<I>(copy_from);
 
             return true;
@@ -130,6 +131,9 @@ class variant : protected variant_storage<Types...>
         {
             v.destroy_if_valid();
 
+            // Unset index just in case exception is thrown during construction
+            v.index_ = variant_npos();
+
             v.template move<I>(std::move(move_from));
 
 #if FEATURE_ESTD_VARIANT_EAGER_DESTRUCT
diff --git a/src/estd/internal/variant/storage.h b/src/estd/internal/variant/storage.h
index b7d74d1..e8a597b 100644
--- a/src/estd/internal/variant/storage.h
+++ b/src/estd/internal/variant/storage.h
@@ -528,7 +528,7 @@ public:
 #endif
 
         // Are we tracking the exact type being assigned?
-        if(*index == I)
+        if(*index == I && is_assignable<T_j&, U>::value)
         {
             assignment_helper<I, T_j>(std::forward<U>(u));
         }
@@ -537,6 +537,8 @@ public:
             // ... if not, destroy what we're tracking (if any) and
             // do a direct initialization
             destroy(*index);
+            // In case an exception is thrown during initialization
+            *index = variant_npos();
             direct_init_helper<I, T_j>(std::forward<U>(u));
             *index = I;
         }
-- 
2.43.0


From ec1e05d52a15a6939cc52218279c13f190b75610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:13 +0000
Subject: [PATCH 050/116] fix: variant self assignment read a destroyed
 alternative

---
 src/estd/internal/variant.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/estd/internal/variant.h b/src/estd/internal/variant.h
index 5b7f2ff..c85ae7b 100644
--- a/src/estd/internal/variant.h
+++ b/src/estd/internal/variant.h
@@ -314,6 +314,8 @@ public:
     // DEBT: Needs more work, but coming along
     variant& operator=(const variant& rhs)
     {
+        if(this == &rhs) return *this;
+
         if(rhs.valueless_by_exception())
         {
             destroy_if_valid();
@@ -333,6 +335,8 @@ public:
 
     variant& operator=(variant&& rhs)
     {
+        if(this == &rhs) return *this;
+
         if(rhs.valueless_by_exception())
         {
             destroy_if_valid();
-- 
2.43.0


From 1a974d1a0fddbfab3881a39bd2238568126815bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:13 +0000
Subject: [PATCH 051/116] fix: value() of a constant expected did not compile

---
 src/estd/expected.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/expected.h b/src/estd/expected.h
index b0b7fb6..1550d45 100644
--- a/src/estd/expected.h
+++ b/src/estd/expected.h
@@ -71,7 +71,7 @@ class expected : public internal::expected<T, E>
             base_type::destroy_error();
     }
 
-    void assert_has_value()
+    void assert_has_value() const
     {
         if(!has_value_)
 #if __cpp_exceptions
-- 
2.43.0


From ab44dab9e43af740a3e88820615918d0916c0e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:13 +0000
Subject: [PATCH 052/116] fix: expected emplace destroyed its alternative twice
 when construction threw

---
 src/estd/expected.h | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/estd/expected.h b/src/estd/expected.h
index 1550d45..86664ce 100644
--- a/src/estd/expected.h
+++ b/src/estd/expected.h
@@ -81,6 +81,24 @@ class expected : public internal::expected<T, E>
 #endif
     }
 
+#if __cpp_variadic_templates
+    template <class ...TArgs>
+    void emplace_helper(true_type, TArgs&&...args)
+    {
+        destroy();
+        new (&base_type::value()) T(std::forward<TArgs>(args)...);
+    }
+
+    // Construct aside first, so that an exception leaves us as we were
+    template <class ...TArgs>
+    void emplace_helper(false_type, TArgs&&...args)
+    {
+        T temp(std::forward<TArgs>(args)...);
+        destroy();
+        new (&base_type::value()) T(std::move(temp));
+    }
+#endif
+
 public:
     typedef unexpected<E> unexpected_type;
     typedef typename base_type::nonvoid_value_type nonvoid_value_type;
@@ -220,8 +238,10 @@ public:
     template <class ...TArgs>
     nonvoid_value_type& emplace(TArgs&&...args)
     {
-        destroy();
-        new (&base_type::value()) T(std::forward<TArgs>(args)...);
+        emplace_helper(bool_constant<
+            is_nothrow_constructible<T, TArgs...>::value ||
+            !is_nothrow_move_constructible<T>::value>{},
+            std::forward<TArgs>(args)...);
         has_value_ = true;
         return base_type::value();
     }
-- 
2.43.0


From 77f013539c1190758c3d5ccf428840cafb761636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:13 +0000
Subject: [PATCH 053/116] fix: moving an expected copied its content, or with
 move-only content nothing

---
 src/estd/internal/expected.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/estd/internal/expected.h b/src/estd/internal/expected.h
index 66055cd..42490c5 100644
--- a/src/estd/internal/expected.h
+++ b/src/estd/internal/expected.h
@@ -120,6 +120,16 @@ protected:
     {
     }
 
+#if __cpp_rvalue_references
+    expected(expected&& move_from, bool has_value)
+    {
+        if(has_value)
+            storage.template move<VALUE>(std::move(move_from.storage));
+        else
+            storage.template move<ERROR>(std::move(move_from.storage));
+    }
+#endif
+
     ESTD_CPP_CONSTEXPR_RET expected() :
         storage(in_place_index_t<0>()) {}
 
-- 
2.43.0


From d9ac995abd40e63fb97f84c3b25887462ee666bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:49 +0000
Subject: [PATCH 054/116] fix: vector insert relocates elements instead of
 assigning over uninitialised memory

---
 src/estd/internal/dynamic_array.h | 75 +++++++------------------------
 1 file changed, 16 insertions(+), 59 deletions(-)

diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index b3ed422..7e8afb7 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -206,65 +206,21 @@ protected:
         base_type::assign(buf, len);
     }
 
-    // DEBT: Use a strictness feature flag to disallow falling back
-    // to constructors
-#ifdef __cpp_rvalue_references
-    template <class T2 = value_type>
-    typename enable_if<is_move_assignable<T2>::value>::type
-    move_assist(pointer first, pointer last, pointer d_last)
-    {
-        move_backward(first, last, d_last);
-    }
-
-#if !FEATURE_ESTD_DYNAMIC_ARRAY_STRICT_ASSIGNMENT
-    template <class T2 = value_type>
-    typename enable_if<
-        is_move_constructible<T2>::value &&
-        !is_move_assignable<T2>::value>::type
-    // Copies from first to last, in reverse order, using move constructor
-    move_assist(pointer first, pointer last, pointer d_last)
-    {
-        while (first != last)
-            new (--d_last) T2(std::move(*--last));
-    }
-#endif
-#endif
-
-    template <class T2 = value_type>
-    ESTD_CPP_CONSTEXPR(14) typename enable_if<
-        is_copy_assignable<T2>::value
-#if FEATURE_ESTD_DYNAMIC_ARRAY_MEMMOVE
-        && !is_trivial<T2>::value
-#endif
-        >::type
-    copy_assist(const_pointer first, const_pointer last, pointer d_last)
-    {
-        copy_backward(first, last, d_last);
-    }
-
-#if FEATURE_ESTD_DYNAMIC_ARRAY_MEMMOVE
-    template <class T2 = value_type>
-    typename enable_if<is_trivial<T2>::value>::type
-    inline copy_assist(pointer first, const_pointer last, pointer d_last)
+    // Relocates [first, last) so that it ends at d_last, back to front since the two overlap.
+    // What [first, last) occupied and isn't overlapped is uninitialized afterwards
+    static void relocate_backward(pointer first, pointer last, pointer d_last)
     {
-        const size_t sz = last - first;
+        if(last == d_last) return;
 
-        memmove(d_last - sz, first, sz);
-    }
-#endif
+        typedef conditional_t<is_move_constructible<value_type>::value,
+            value_type&&, const value_type&> movable;
 
-#if !FEATURE_ESTD_DYNAMIC_ARRAY_STRICT_ASSIGNMENT
-    // Copies from first to last to d_last, in reverse order, using copy constructor
-    template <class T2 = value_type>
-    ESTD_CPP_CONSTEXPR(14) typename enable_if<
-        is_copy_constructible<T2>::value &&
-        !is_copy_assignable<T2>::value>::type
-    copy_assist(const_pointer first, const_pointer last, pointer d_last)
-    {
-        while (first != last)
-            new (--d_last) T2(*--last);
+        while(first != last)
+        {
+            new (--d_last) value_type(static_cast<movable>(*--last));
+            last->~value_type();
+        }
     }
-#endif
 
 
     // NOTE: I think I get the std thinking now.  By hanging
@@ -306,7 +262,7 @@ protected:
 
         pointer data = lock();
 
-        move_assist(data + to_insert_pos, data + sz - 1, data + sz);
+        relocate_backward(data + to_insert_pos, data + sz - 1, data + sz);
 
         // Placement new makes sense here since to_insert_pos is now considered
         // uninitialized/undefined
@@ -327,11 +283,12 @@ protected:
 
         // Backwards copy, effectively moving content over starting at
         // to_insert_pos to to_insert_pos + 1
-        copy_assist(data + to_insert_pos,
+        relocate_backward(data + to_insert_pos,
             data + sz,
             data + sz + input_sz);
 
-        estd::copy(first, last, data + to_insert_pos);
+        for(pointer d = data + to_insert_pos; first != last; ++first, ++d)
+            new (d) value_type(*first);
 
         unlock();
         return true;
@@ -349,7 +306,7 @@ protected:
 
         // Backwards copy, effectively moving content over starting at
         // to_insert_pos to to_insert_pos + 1
-        copy_assist(data + to_insert_pos, data + sz, data + sz + 1);
+        relocate_backward(data + to_insert_pos, data + sz, data + sz + 1);
 
         new (data + to_insert_pos) value_type(*to_insert_value);
 
-- 
2.43.0


From 25cab5d50f05aa47b8d55df66fbf3d3dca662f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:57 +0000
Subject: [PATCH 055/116] fix: vector erase, clear and resize destroy the
 elements they remove

---
 src/estd/internal/dynamic_array.h | 56 +++++++++++++++++++++++++++++--
 1 file changed, 53 insertions(+), 3 deletions(-)

diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index 7e8afb7..3cf5dd2 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -355,12 +355,28 @@ public:
 
     ESTD_CPP_CONSTEXPR(14) bool resize(size_type count)
     {
-        return ensure_total_size(count);
+        if(is_trivial<value_type>::value) return ensure_total_size(count);
+
+        if(ensure_total_capacity(count) == false) return false;
+
+        destroy_range(count, size());
+
+        for(size_type i = size(); i < count; ++i)
+        {
+            new (lock(i)) value_type();
+            unlock();
+        }
+
+        impl().size(count);
+        return true;
     }
 
     void clear()
     {
-        resize(0);
+        destroy_range(0, size());
+
+        // termination needs somewhere to be
+        if(impl().is_allocated()) impl().size(0);
     }
 
     // we deviate from spec because we don't use exceptions, so a manual check for reserve failure is required
@@ -463,10 +479,43 @@ public:
 #endif
     }
 
+protected:
+    // Runs destructors of [first, last)
+    void destroy_range(size_type first, size_type last)
+    {
+        if(is_trivial<value_type>::value || first >= last) return;
+
+        pointer raw = lock();
+
+        for(pointer i = raw + first; i != raw + last; ++i) i->~value_type();
+
+        unlock();
+    }
+
+    // bytes move as they are
+    template <class T>
+    static void close_gap(T* raw, size_type count, size_type remaining, true_type)
+    {
+        memmove(raw, raw + count, remaining * sizeof(T));
+    }
+
+    template <class T>
+    static void close_gap(T* raw, size_type count, size_type remaining, false_type)
+    {
+        for(; remaining > 0; --remaining, ++raw)
+        {
+            new (raw) T(std::move(raw[count]));
+            raw[count].~T();
+        }
+    }
+
+public:
     // basically raw_erase and maps almost directly to string::erase with numeric index
     // will need a bit of wrapping to interact with iterators
     void _erase(size_type index, size_type count)
     {
+        destroy_range(index, index + count);
+
         pointer raw = lock(index);
 
         // TODO: optimize null-terminated flavor to not use memmove at all
@@ -479,7 +528,8 @@ public:
         else
             impl().size(prev_size - count);
 
-        memmove(raw, raw + count, prev_size - (index + count));
+        close_gap(raw, count, prev_size - (index + count),
+            bool_constant<is_trivial<value_type>::value>{});
 
         unlock();
     }
-- 
2.43.0


From 5e098e15b44eae5cae5f1f3de27f6d3957a33fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:05 +0000
Subject: [PATCH 056/116] fix: vector append, assign and copy construct
 elements instead of copying bytes; assign(first, last) compiles

---
 src/estd/internal/container/specializer.h | 21 +++++++++++++--
 src/estd/internal/dynamic_array.h         | 32 ++++++++++++++++++++---
 2 files changed, 48 insertions(+), 5 deletions(-)

diff --git a/src/estd/internal/container/specializer.h b/src/estd/internal/container/specializer.h
index 63d3759..24fe593 100644
--- a/src/estd/internal/container/specializer.h
+++ b/src/estd/internal/container/specializer.h
@@ -119,6 +119,23 @@ struct dynamic_array_helper<Impl, enable_if_t<
         da.unlock();
     }
 
+    template <class Array2>
+    static void append_assist(pointer raw, const Array2& from, size_type len, true_type)
+    {
+        from.copy(raw, len);
+    }
+
+    // raw is uninitialized at this point, so construct
+    template <class Array2>
+    static void append_assist(pointer raw, const Array2& from, size_type len, false_type)
+    {
+        const value_type* src = from.clock();
+
+        for(size_type i = 0; i < len; ++i) new (raw + i) value_type(src[i]);
+
+        from.cunlock();
+    }
+
     // DEBT: Temporary, move the bulk of this back out to dynamic_array and turn
     // this into a regular 'array' flavor
     template <class Impl2>
@@ -134,7 +151,7 @@ struct dynamic_array_helper<Impl, enable_if_t<
         const size_type current_size = r.starting_size;
         pointer raw = a.lock(current_size);
 
-        copy_from.copy(raw, len);
+        append_assist(raw, copy_from, len, bool_constant<is_trivial<value_type>::value>{});
 
         a.unlock();
 
@@ -191,7 +208,7 @@ struct dynamic_array_helper<Impl, enable_if_t<
 
         // TODO: Do the m_impl.copy_from here
 
-        memcpy(dest, src, count * sizeof(value_type));
+        estd::copy_n(src, count, dest);
 
         a.cunlock();
 
diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index 3cf5dd2..e900def 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -201,6 +201,15 @@ protected:
     // TODO: change to assign
     void assign(const_pointer buf, size_t len)   // NOLINT
     {
+        if(!is_trivial<value_type>::value)
+        {
+            if(ensure_total_capacity(len) == false) return;
+
+            clear();
+            append(buf, len);
+            return;
+        }
+
         if(ensure_total_size(len) == false) return;
 
         base_type::assign(buf, len);
@@ -396,9 +405,10 @@ public:
     template <class InputIt>
     void assign(InputIt first, InputIt last)
     {
-        ensure_total_size(last - first, 0, true);
+        if(ensure_total_capacity(last - first) == false) return;
 
-        helper::copy(*this, 0, first, last);
+        clear();
+        raw_insert(0, first, last);
     }
 
 //protected:
@@ -467,7 +477,12 @@ public:
         if(r.grew() == false)       return 0;
 #endif
 
-        helper::copy_from(*this, current_size, buf, len);
+        // what we grew by is uninitialized
+        pointer raw = lock(current_size);
+
+        for(size_t i = 0; i < len; ++i) new (raw + i) value_type(buf[i]);
+
+        unlock();
 
 #if FEATURE_ESTD_DYNAMIC_ARRAY_BOUNDS_CHECK
         if(grow_success)
@@ -686,6 +701,17 @@ public:
     {
         const unsigned len = copy_from.size();
 
+        if(!is_trivial<value_type>::value)
+        {
+            if(static_cast<const void*>(&copy_from) == static_cast<const base_type*>(this)) return;
+
+            if(ensure_total_capacity(len) == false) return;
+
+            clear();
+            append(copy_from);
+            return;
+        }
+
         if(ensure_total_size(len) == false) return;
 
         helper::copy_from(*this, 0, copy_from, len);
-- 
2.43.0


From f6ef60cec61cd3f3a5f869a4c8418d11705c3ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:15 +0000
Subject: [PATCH 057/116] fix: string find and rfind stay within the string and
 return absolute positions

---
 src/estd/internal/runtime_array.h | 58 +++++++++++++++----------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/src/estd/internal/runtime_array.h b/src/estd/internal/runtime_array.h
index a189959..9b0be84 100644
--- a/src/estd/internal/runtime_array.h
+++ b/src/estd/internal/runtime_array.h
@@ -398,18 +398,22 @@ public:
     ESTD_CPP_CONSTEXPR(14) size_type find(
         const_pointer s, size_type pos, size_type count, size_type npos) const
     {
-        const_pointer data = clock();
-        const_pointer end = data + size();
+        const size_type sz = size();
 
-        data += pos;
+        if(pos > sz || count > sz - pos) return npos;
 
-        for(const_pointer i = data; i != end; ++i)
+        const size_type last = sz - count;
+        const_pointer data = clock();
+
+        for(;;)
         {
-            if(memcmp(s, i, count) == 0)
+            if(estd::equal(s, s + count, data + pos))
             {
                 cunlock();
-                return i - data;
+                return pos;
             }
+
+            if(pos++ == last) break;
         }
 
         cunlock();
@@ -428,37 +432,25 @@ public:
         const_pointer s, size_type pos, size_type count, size_type npos) const
     {
         const size_type sz = size();
-        if(pos >= sz) pos = sz - 1;
 
-        unsigned remainder = sz - pos;
+        if(count > sz) return npos;
 
-        // if remaining characters including & after pos wouldn't fit 's'
-        // i.e. "Hello" finding "llo" at pos 4 ("o" = remainder 1, count 3)
-        if(remainder < count)
-        {
-            // Make sure there's enough room to move backwards for a useful
-            // comparison
-            // i.e. "Hello" finding "llo" at pos 4 (can we move back 2 to pos=2 reach a new remainder of 3?)
-            if(pos < count - remainder) return npos;
-
-            // skip over compares that can't succeed where pos is too close
-            // to end
-            // i.e. "Hello" finding "llo" at pos 4 ("o") moves back 2
-            pos -= count - remainder;
-        }
+        // skip over compares that can't succeed where pos is too close
+        // to end
+        // i.e. "Hello" finding "llo" at pos 4 ("o") moves back 2
+        if(pos > sz - count) pos = sz - count;
 
         const_pointer data = clock();
-        const_pointer rend = data - 1;
 
-        data += pos;
-
-        for(; data != rend; --pos, --data)
+        for(;;)
         {
-            if(memcmp(s, data, count) == 0)
+            if(estd::equal(s, s + count, data + pos))
             {
                 cunlock();
                 return pos;
             }
+
+            if(pos-- == 0) break;
         }
 
         cunlock();
@@ -469,8 +461,12 @@ public:
     ESTD_CPP_CONSTEXPR(14) size_type find_first_of(
         const_pointer s, size_type pos, size_type count, size_type npos) const
     {
+        const size_type sz = size();
+
+        if(pos > sz) return npos;
+
         const_pointer data = clock();
-        const_pointer end = data + size();
+        const_pointer end = data + sz;
 
         const_pointer found = estd::find_first_of(data + pos, end, s, s + count);
 
@@ -482,7 +478,11 @@ public:
     ESTD_CPP_CONSTEXPR(14) size_type find_last_of(
         const_pointer s, size_type pos, size_type count, size_type npos) const
     {
-        if(pos == npos) pos = size() - 1;   // DEBT: I think this line should go back up to string
+        const size_type sz = size();
+
+        if(sz == 0) return npos;
+
+        if(pos >= sz) pos = sz - 1;
 
         const_pointer data = clock();
         const_pointer rend = data - 1;
-- 
2.43.0


From 3fda69848b95f210a52324ab84b83bd409d480cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:24 +0000
Subject: [PATCH 058/116] fix: starts_with accepts a string of equal length;
 starts_with and ends_with of a character accept an empty string

---
 src/estd/internal/container/starts_with.h | 8 +++++---
 src/estd/internal/runtime_array.h         | 8 +++++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/estd/internal/container/starts_with.h b/src/estd/internal/container/starts_with.h
index dae9c13..1d87036 100644
--- a/src/estd/internal/container/starts_with.h
+++ b/src/estd/internal/container/starts_with.h
@@ -12,14 +12,16 @@ inline ESTD_CPP_CONSTEXPR(14) bool starts_with_n(It1 lhs, It2 rhs, int count_lhs
 {
     // DEBT: Using signed int here is fiddly, since incoming count likely won't be signed
 
-    while(count_lhs-- && count_rhs--)
+    // if compare_to is longer than we are, then it's also a fail
+    if(count_rhs > count_lhs) return false;
+
+    while(count_rhs--)
         if(*lhs++ != *rhs++)
         {
             return false;
         }
 
-    // if compare_to is longer than we are, then it's also a fail
-    return count_lhs != -1;
+    return true;
 }
 
 
diff --git a/src/estd/internal/runtime_array.h b/src/estd/internal/runtime_array.h
index 9b0be84..ef44672 100644
--- a/src/estd/internal/runtime_array.h
+++ b/src/estd/internal/runtime_array.h
@@ -153,6 +153,8 @@ protected:
 
     ESTD_CPP_CONSTEXPR(14) bool starts_with(const_reference ch) const
     {
+        if(size() == 0) return false;
+
         const bool r = *clock(0, 1) == ch;
 
         cunlock();
@@ -170,7 +172,11 @@ protected:
 
     ESTD_CPP_CONSTEXPR(14) bool ends_with(const_reference ch) const
     {
-        const bool r = *clock(size() - 1, 1) == ch;
+        const size_type sz = size();
+
+        if(sz == 0) return false;
+
+        const bool r = *clock(sz - 1, 1) == ch;
 
         cunlock();
 
-- 
2.43.0


From 99e2c1fda03145d503866e05dc1ed71319995d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:31 +0000
Subject: [PATCH 059/116] fix: null-terminated strings on allocated memory do
 not touch memory before it is allocated

---
 src/estd/internal/dynamic_array.h      | 13 ++++++++++++-
 src/estd/internal/impl/dynamic_array.h |  5 +++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index e900def..4b21325 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -397,7 +397,16 @@ public:
         if(impl().is_allocated() && new_cap <= capacity()) return true;
 
         if(!impl().is_allocated())
-            return impl().allocate(new_cap);
+        {
+            // nothing to hold, nothing to do
+            if(new_cap == 0) return true;
+
+            if(!impl().allocate(new_cap)) return false;
+
+            // null termination, if any, has someplace to be from here on
+            impl().size(0);
+            return true;
+        }
         else
             return impl().reallocate(new_cap);
     }
@@ -529,6 +538,8 @@ public:
     // will need a bit of wrapping to interact with iterators
     void _erase(size_type index, size_type count)
     {
+        if(count == 0) return;
+
         destroy_range(index, index + count);
 
         pointer raw = lock(index);
diff --git a/src/estd/internal/impl/dynamic_array.h b/src/estd/internal/impl/dynamic_array.h
index c855988..41c9063 100644
--- a/src/estd/internal/impl/dynamic_array.h
+++ b/src/estd/internal/impl/dynamic_array.h
@@ -310,7 +310,7 @@ public:
 
     constexpr bool empty() const
     {
-        return length_helper_t::empty(*this);
+        return !base_t::is_allocated() || length_helper_t::empty(*this);
         //return length_helper_t::empty(base_t::get_allocator(), base_t::handle());
     }
 
@@ -320,7 +320,8 @@ public:
         // FIX: A little sloppy, brute forcing to 0 here because null-terminated
         // specialization doesn't have all the data it needs to do this
         // Sloppy also because for explicitly sized scenario, it already initialies to 0
-        size(0);
+        // Before anything's allocated there's no place for a null termination
+        if(base_t::is_allocated()) size(0);
     }
 
     // 24MAY25 DEBT: Put in the in_place_t treatment
-- 
2.43.0


From e44cc4c4229a7421cc4ed2e5be4f010cdd01dd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:38 +0000
Subject: [PATCH 060/116] fix: strings of unknown capacity are not limited to
 255 characters

---
 src/estd/allocators/fixed.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/estd/allocators/fixed.h b/src/estd/allocators/fixed.h
index cec8e0d..ec977d0 100644
--- a/src/estd/allocators/fixed.h
+++ b/src/estd/allocators/fixed.h
@@ -199,7 +199,10 @@ public:
 // NOTE: uninitialized_array is handy to use for TBuffer to avoid value-init of all the elements
 template <
         class T, size_t len, class Buffer = T[len],
-        class Size = typename internal::deduce_fixed_size_t<len>::size_type>
+        // len 0 = length not known, rather than tiny
+        class Size = conditional_t<len == 0,
+            size_t,
+            typename internal::deduce_fixed_size_t<len>::size_type>>
 struct single_fixedbuf_allocator : public
         single_allocator_base<T, Buffer, Size>
 {
-- 
2.43.0


From 8db5449310e967415771967e1ac4d83b664990e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:44 +0000
Subject: [PATCH 061/116] fix: assigning a C string to a layer1 string which it
 does not fit leaves the string alone

---
 src/estd/internal/layer1/string.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/estd/internal/layer1/string.h b/src/estd/internal/layer1/string.h
index d426196..a72f47d 100644
--- a/src/estd/internal/layer1/string.h
+++ b/src/estd/internal/layer1/string.h
@@ -50,6 +50,13 @@ public:
         return *this;
     }
 
+    // without this a temporary gets assigned, which is empty if 's' didn't fit it
+    basic_string& operator=(const_pointer s)   // NOLINT
+    {
+        base_type::operator=(s);
+        return *this;
+    }
+
     CharT* c_str()
     {
 #if __cpp_static_assert
-- 
2.43.0


From 94069908a8b5ff91a4a43007a70abbec4acf2cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:51 +0000
Subject: [PATCH 062/116] fix: vector and string insert return a valid iterator
 after reallocation

---
 src/estd/internal/dynamic_array.h | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index 4b21325..fd7c4b0 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -778,17 +778,23 @@ public:
     // const_iterator here
     iterator insert(iterator pos, const_reference value)
     {
-        raw_insert(pos - cbegin(), &value);
+        const size_type index = pos - cbegin();
 
-        return pos;
+        raw_insert(index, &value);
+
+        // pos may be invalid by now
+        return base_type::create_iterator(index);
     }
 
 #if __cpp_rvalue_references
     iterator insert(iterator pos, value_type&& value)
     {
-        raw_insert(pos - cbegin(), std::move(value));
+        const size_type index = pos - cbegin();
+
+        raw_insert(index, std::move(value));
 
-        return pos;
+        // pos may be invalid by now
+        return base_type::create_iterator(index);
     }
 #endif
 
@@ -796,9 +802,12 @@ public:
     template <class InputIt>
     iterator insert(const_iterator pos, InputIt first, InputIt last)
     {
-        raw_insert(pos - cbegin(), first, last);
+        const size_type index = pos - cbegin();
+
+        raw_insert(index, first, last);
 
-        return pos;
+        // pos may be invalid by now
+        return base_type::create_iterator(index);
     }
 
     void shrink_to_fit()
-- 
2.43.0


From 5b790aabb7305d287a332ea672d6d6c44eceba52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:01 +0000
Subject: [PATCH 063/116] fix: string operations do not truncate the length of
 what comes in

---
 src/estd/internal/container/specializer.h |  4 ++--
 src/estd/internal/dynamic_array.h         |  2 +-
 src/estd/internal/runtime_array.h         | 12 ++++++------
 src/estd/internal/string.h                | 16 ++++++++--------
 4 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/estd/internal/container/specializer.h b/src/estd/internal/container/specializer.h
index 24fe593..e43670e 100644
--- a/src/estd/internal/container/specializer.h
+++ b/src/estd/internal/container/specializer.h
@@ -144,7 +144,7 @@ struct dynamic_array_helper<Impl, enable_if_t<
     static size_type
         append(dynamic_array& a, const allocated_array<Impl2>& copy_from)
     {
-        size_type len = copy_from.size();
+        const size_t len = copy_from.size();
         auto r = a.grow(len);
         if(r.grew() == false) return {};
 
@@ -236,7 +236,7 @@ struct dynamic_array_helper<Impl, enable_if_t<
 
 
     /// Low-level compare - does NOT check for matching size!
-    static int compare(const detail::basic_string<Impl>& lhs, const_pointer s, size_type s_size)
+    static int compare(const detail::basic_string<Impl>& lhs, const_pointer s, size_t s_size)
     {
         typedef typename detail::basic_string<Impl>::traits_type traits_type;
         const_pointer raw = lhs.clock();
diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index fd7c4b0..aaabe35 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -595,7 +595,7 @@ public:
     append_result append(const experimental::private_array<TImpl2>& source)
     {
         //typedef typename experimental::private_array<TImpl2>::const_iterator iterator;
-        size_type len = source.size();
+        size_t len = source.size();
 
         grow_result r = grow(len);
         const size_type pre_growth_size = r.starting_size;
diff --git a/src/estd/internal/runtime_array.h b/src/estd/internal/runtime_array.h
index ef44672..227c623 100644
--- a/src/estd/internal/runtime_array.h
+++ b/src/estd/internal/runtime_array.h
@@ -402,7 +402,7 @@ public:
     /// @param npos value representing 'not found'
     /// @return
     ESTD_CPP_CONSTEXPR(14) size_type find(
-        const_pointer s, size_type pos, size_type count, size_type npos) const
+        const_pointer s, size_type pos, size_t count, size_type npos) const
     {
         const size_type sz = size();
 
@@ -435,7 +435,7 @@ public:
     /// @param npos value representing 'not found'
     /// @return
     ESTD_CPP_CONSTEXPR(14) size_type rfind(
-        const_pointer s, size_type pos, size_type count, size_type npos) const
+        const_pointer s, size_type pos, size_t count, size_type npos) const
     {
         const size_type sz = size();
 
@@ -465,7 +465,7 @@ public:
     }
 
     ESTD_CPP_CONSTEXPR(14) size_type find_first_of(
-        const_pointer s, size_type pos, size_type count, size_type npos) const
+        const_pointer s, size_type pos, size_t count, size_type npos) const
     {
         const size_type sz = size();
 
@@ -482,7 +482,7 @@ public:
     }
 
     ESTD_CPP_CONSTEXPR(14) size_type find_last_of(
-        const_pointer s, size_type pos, size_type count, size_type npos) const
+        const_pointer s, size_type pos, size_t count, size_type npos) const
     {
         const size_type sz = size();
 
@@ -504,8 +504,8 @@ public:
     template <class Impl2>
     ESTD_CPP_CONSTEXPR(14) bool operator ==(const allocated_array<Impl2>& compare_to) const
     {
-        size_type raw_size = size();
-        size_type s_size = compare_to.size();
+        const size_type raw_size = size();
+        const size_t s_size = compare_to.size();
 
         if(raw_size != s_size) return false;
 
diff --git a/src/estd/internal/string.h b/src/estd/internal/string.h
index 563120c..bd376c9 100644
--- a/src/estd/internal/string.h
+++ b/src/estd/internal/string.h
@@ -58,7 +58,7 @@ protected:
     ESTD_CPP_FORWARDING_CTOR(basic_string)
 
     template <typename InputIt>
-    int compare(InputIt s, size_type s_size) const
+    int compare(InputIt s, size_t s_size) const
     {
         size_type raw_size = base_type::size();
 
@@ -158,14 +158,14 @@ public:
     }
 
 
-    ESTD_CPP_CONSTEXPR(14) size_type find(const_pointer s, size_type pos, size_type count) const
+    ESTD_CPP_CONSTEXPR(14) size_type find(const_pointer s, size_type pos, size_t count) const
     {
         return base_type::find(s, pos, count, npos);
     }
 
     ESTD_CPP_CONSTEXPR(14) size_type find(const_pointer s, size_type pos = 0) const
     {
-        size_type count = traits_type::length(s);
+        const size_t count = traits_type::length(s);
 
         return find(s, pos, count);
     }
@@ -181,14 +181,14 @@ public:
     }
 
     ESTD_CPP_CONSTEXPR(14) size_type rfind(
-        const_pointer s, size_type pos, size_type count) const
+        const_pointer s, size_type pos, size_t count) const
     {
         return base_type::rfind(s, pos, count, npos);
     }
 
     ESTD_CPP_CONSTEXPR(14) size_type rfind(const_pointer s, size_type pos = npos) const
     {
-        size_type count = traits_type::length(s);
+        const size_t count = traits_type::length(s);
 
         return rfind(s, pos, count);
     }
@@ -204,7 +204,7 @@ public:
     }
 
     ESTD_CPP_CONSTEXPR(14) size_type find_first_of(
-        const_pointer s, size_type pos, size_type count) const
+        const_pointer s, size_type pos, size_t count) const
     {
         return base_type::find_first_of(s, pos, count, npos);
     }
@@ -226,7 +226,7 @@ public:
     }
 
     ESTD_CPP_CONSTEXPR(14) size_type find_last_of(
-        const_pointer s, size_type pos, size_type count) const
+        const_pointer s, size_type pos, size_t count) const
     {
         return base_type::find_last_of(s, pos, count, npos);
     }
@@ -259,7 +259,7 @@ public:
         return {};
     }
 
-    ESTD_CPP_CONSTEXPR(14) basic_string& insert(size_type index, const_pointer s, size_type count)
+    ESTD_CPP_CONSTEXPR(14) basic_string& insert(size_type index, const_pointer s, size_t count)
     {
         assert_mutable();
 
-- 
2.43.0


From c863020371dad48216bdb96301aff494ae3dba4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:17 +0000
Subject: [PATCH 064/116] fix: unordered_map.h did not compile on its own

---
 src/estd/internal/container/unordered_map.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/estd/internal/container/unordered_map.h b/src/estd/internal/container/unordered_map.h
index a9bda66..651b83f 100644
--- a/src/estd/internal/container/unordered_map.h
+++ b/src/estd/internal/container/unordered_map.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <assert.h>
+
 #include "../../numeric.h"
 #include "../platform.h"
 #include "../fwd/functional.h"
-- 
2.43.0


From 0e91b4e24797af1c8e3c357293535900e828352b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:21 +0000
Subject: [PATCH 065/116] fix: hash map and set look-ups and iteration examined
 the slot past the end

---
 src/estd/internal/container/unordered/base.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/estd/internal/container/unordered/base.h b/src/estd/internal/container/unordered/base.h
index 9be2a91..be97ac8 100644
--- a/src/estd/internal/container/unordered/base.h
+++ b/src/estd/internal/container/unordered/base.h
@@ -93,7 +93,7 @@ protected:
     template <class It, class It2>
     static ESTD_CPP_CONSTEXPR(14) It skip_empty(It it, It2 end)
     {
-        for(; traits::is_empty(*it) && it != end; ++it)   {}
+        for(; it != end && traits::is_empty(*it); ++it)   {}
 
         return it;
     }
@@ -107,7 +107,7 @@ protected:
     template <class Control>
     ESTD_CPP_CONSTEXPR(14) Control skip_sparse(Control p, unsigned n) const
     {
-        for(; traits::is_sparse(*p, n) && p != container_.cend(); ++p)    {}
+        for(; p != container_.cend() && traits::is_sparse(*p, n); ++p)    {}
 
         return p;
     }
@@ -389,7 +389,7 @@ protected:
 
             // skip over any sparse entries belonging to this bucket.  They are invisible
             // null entries for this iterator
-            for(; traits::is_sparse(*it_, n_) && it_ != parent_->container_.cend(); ++it_)   {}
+            for(; it_ != parent_->container_.cend() && traits::is_sparse(*it_, n_); ++it_)   {}
 
             return *this;
         }
-- 
2.43.0


From 22d29470686d60158be80f121728f798ce60ed99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:24 +0000
Subject: [PATCH 066/116] fix: new or cleared hash map slots took leftover
 memory for removal marks

---
 src/estd/internal/container/unordered/traits.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/container/unordered/traits.h b/src/estd/internal/container/unordered/traits.h
index 7603817..63c1c95 100644
--- a/src/estd/internal/container/unordered/traits.h
+++ b/src/estd/internal/container/unordered/traits.h
@@ -176,11 +176,12 @@ struct unordered_map_traits :
         return v.second.mapped();
     }
 
-    /// Nulls out key
+    /// Nulls out key and clears gc mark
     /// @remark Does not run destructor
     static ESTD_CPP_CONSTEXPR(14) void set_null(control_type* v)
     {
         nullable{}.set(&v->first);
+        v->second.raw = 0;
     }
 
 private:
-- 
2.43.0


From b1799c48f3f9f2a5a9081437b3b5dc573f99612f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:28 +0000
Subject: [PATCH 067/116] fix: hash map removal marks forgot their bucket
 beyond slot 63

---
 src/estd/internal/container/unordered/traits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/container/unordered/traits.h b/src/estd/internal/container/unordered/traits.h
index 63c1c95..54cfdd5 100644
--- a/src/estd/internal/container/unordered/traits.h
+++ b/src/estd/internal/container/unordered/traits.h
@@ -89,7 +89,7 @@ struct unordered_map_traits_control
             // aka "sparse" - exists specifically to mark as deleted, but physically unmoved
             uint16_t marked_for_gc : 1;
             // which bucket this empty slot *used to* belong to
-            uint16_t bucket : 6;
+            uint16_t bucket : 15;
         };
 
         uint16_t raw;
-- 
2.43.0


From c8b416d5bd174d5688023a3779b90b2529ca2149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:31 +0000
Subject: [PATCH 068/116] fix: hash map insertion missed duplicates behind a
 removed entry and cut off other buckets

---
 src/estd/internal/container/unordered/base.h  | 36 ++++++++++++++-----
 .../internal/container/unordered/traits.h     |  1 +
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/estd/internal/container/unordered/base.h b/src/estd/internal/container/unordered/base.h
index be97ac8..75c163e 100644
--- a/src/estd/internal/container/unordered/base.h
+++ b/src/estd/internal/container/unordered/base.h
@@ -149,6 +149,14 @@ protected:
         return lhs == index(rhs);
     }
 
+    // indicates whether this slot is part of bucket 'n', be it active or sparse
+    constexpr bool belongs(const control_type& v, size_type n) const
+    {
+        return base_type::is_empty(v) ?
+            base_type::is_sparse(v, n) :
+            index(base_type::key(v)) == n;
+    }
+
     // rehash: increasing size of a bucket
     void rehash_up()
     {
@@ -216,15 +224,17 @@ protected:
         // linear probing
 
         control_pointer it = &container_[n];
+        const control_pointer end = container_.end();
+        control_pointer vacant = nullptr;
 
-        // Move over occupied spots.  Sparse does NOT count as occupied
-        // DEBT: optimize is_null/is_sparse together
-        for(;traits::is_empty(*it) == false; ++it)
+        // Move over the entire bucket, since duplicates may follow a sparse spot
+        for(; it != end && belongs(*it, n); ++it)
         {
-            // if we get to the complete end, that's a fail
-            // if we've moved to the next bucket, that's also a fail
-            if(it == container_.cend() || index(base_type::key(*it)) != n)
-                return { nullptr, false };
+            // Sparse does NOT count as occupied.  Prefer earliest one
+            if(base_type::is_empty(*it))
+            {
+                if(vacant == nullptr)   vacant = it;
+            }
             else if(!permit_duplicates)
             {
                 if(key_eq_c(key, *it))
@@ -237,8 +247,16 @@ protected:
             // but iterating through a bucket you can get to all of them (and more, likely)
         }
 
-        // Success, but someone else still needs to initialize 'it'
-        return { it, true };
+        // if we get to the complete end, there's no extending this bucket
+        // if we've moved to the next bucket, there isn't either.  A sparse one over there
+        // doesn't help - it's what keeps entries following it discoverable
+        if(vacant == nullptr && it != end && base_type::is_null_not_sparse(*it))
+            vacant = it;
+
+        if(vacant == nullptr)   return { nullptr, false };
+
+        // Success, but someone else still needs to initialize 'vacant'
+        return { vacant, true };
     }
 
 
diff --git a/src/estd/internal/container/unordered/traits.h b/src/estd/internal/container/unordered/traits.h
index 54cfdd5..556134d 100644
--- a/src/estd/internal/container/unordered/traits.h
+++ b/src/estd/internal/container/unordered/traits.h
@@ -232,6 +232,7 @@ struct unordered_set_traits : unordered_traits<Key, Key, Hash, KeyEqual ESTD_UNO
         return nullable{}.is_null(v);
     }
 
+    static constexpr bool is_null_not_sparse(const value_type& v) { return is_empty(v); }
     static constexpr bool is_sparse(const value_type&) { return false; }
     static constexpr bool is_sparse(const value_type&, unsigned) { return false; }
 
-- 
2.43.0


From d1b978b04bfab5d41f3fb3e2f0328390f06cbf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:34 +0000
Subject: [PATCH 069/116] fix: hash map erase read before the table and left
 dead removal marks that cost capacity

---
 src/estd/internal/container/unordered_map.h | 33 +++++++++------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/src/estd/internal/container/unordered_map.h b/src/estd/internal/container/unordered_map.h
index 651b83f..40c2154 100644
--- a/src/estd/internal/container/unordered_map.h
+++ b/src/estd/internal/container/unordered_map.h
@@ -151,10 +151,12 @@ public:
     ///
     void prune_sparse_ll(control_pointer start, control_pointer pos, size_type n)
     {
-        --start;
-
-        for(; is_sparse(*pos, n) && pos != start; --pos)
+        for(; is_sparse(*pos, n); --pos)
+        {
             gc_sparse_ll(pos);
+
+            if(pos == start) return;
+        }
     }
 
     // for every trailing marked_for_gc (doesn't have an active slot after him) turn to null
@@ -341,28 +343,21 @@ public:
 
         destruct(control);
 
+        // "mark and sweep" erase rather than erase (and swap) immediately in place.
+        // More inline with spec, namely doesn't disrupt other iterators
+        control->second.marked_for_gc = 1;
+        control->second.bucket = n;
+
         const_control_pointer next = control + 1;
 
         // If no further bucket entries, do prune
         // that means:
         // - if we're at the end
-        // - if next entry is an active item in a different bucket
+        // - if next entry is an active or sparse item in a different bucket
         // - if next entry is a null entry
-        // then we are clear to null out trailing sparse entries
-        if(auto_prune && (next == container_.cend() || is_null_not_sparse(*next)))
-        {
-            gc_sparse_ll(control);      // nullify this entry
-            control_pointer start = container_.begin() + n;
-            // nullify previous entries down to 'start'
-            prune_sparse_ll(start, control - 1, n);
-        }
-        else
-        {
-            // "mark and sweep" erase rather than erase (and swap) immediately in place.
-            // More inline with spec, namely doesn't disrupt other iterators
-            control->second.marked_for_gc = 1;
-            control->second.bucket = n;
-        }
+        // then we are clear to null out trailing sparse entries, this one included
+        if(auto_prune && (next == container_.cend() || !base_type::belongs(*next, n)))
+            prune_sparse_ll(container_.begin() + n, control, n);
     }
 
     // equivelant to erase with iterator, but merely takes direct value_type*
-- 
2.43.0


From 887d427c7c33e78e8948b2b09e3549336a1c2feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:37 +0000
Subject: [PATCH 070/116] fix: hash map clear destroyed values that were never
 constructed

---
 src/estd/internal/container/unordered_map.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/container/unordered_map.h b/src/estd/internal/container/unordered_map.h
index 40c2154..a1f15ec 100644
--- a/src/estd/internal/container/unordered_map.h
+++ b/src/estd/internal/container/unordered_map.h
@@ -185,7 +185,12 @@ public:
 
     ESTD_CPP_CONSTEXPR(14) void clear()
     {
-        for(control_type& v : container_)   destruct(&v);
+        for(control_type& v : container_)
+        {
+            // only active items have something to destruct
+            if(is_empty(v)) set_null(&v);
+            else            destruct(&v);
+        }
     }
 
     mapped_type& operator[](const key_type& key)
-- 
2.43.0


From b2afab92bcb786e5c1560192749832babd82b66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:40 +0000
Subject: [PATCH 071/116] fix: insert_or_assign constructed over a living value
 and reported an insertion

---
 src/estd/internal/container/unordered_map.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/estd/internal/container/unordered_map.h b/src/estd/internal/container/unordered_map.h
index a1f15ec..32e97d9 100644
--- a/src/estd/internal/container/unordered_map.h
+++ b/src/estd/internal/container/unordered_map.h
@@ -290,9 +290,9 @@ public:
         if(found.second != npos())
         {
             control_pointer cp = found.first;
-            mapped_type& p = cp->second.mapped();
-            new (&p) mapped_type(std::forward<M>(obj));
-            return { { this, cast(cp) }, true };
+            cp->second.mapped() = std::forward<M>(obj);
+            // "bool component is true if the insertion took place and false if the assignment took place"
+            return { { this, cast(cp) }, false };
         }
         else
         {
-- 
2.43.0


From dfbed07d921563765cb0cd7d7a2261622e319be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:43 +0000
Subject: [PATCH 072/116] fix: try_emplace and operator[] left a new mapped
 value unconstructed

---
 src/estd/internal/container/unordered_map.h | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/estd/internal/container/unordered_map.h b/src/estd/internal/container/unordered_map.h
index 32e97d9..74ecef3 100644
--- a/src/estd/internal/container/unordered_map.h
+++ b/src/estd/internal/container/unordered_map.h
@@ -238,19 +238,14 @@ public:
     {
         const insert_result ret = insert_precheck(key, false);
 
-        // pair requires two parameters to construct, PLUS it's a const key.
-        // fortunately, since we presume it's a trivial-ish type (no dtor)
-        // we can brute force the key assignment
+        // fortunately, since we presume key is a trivial-ish type (no dtor)
+        // we can construct right over it
         if(ret.second)
         {
-            // NOTE: Deviation from spec in that spec implies ->second gets value initialized,
-            // where we do not do that.  Not 100% sure if that's what spec calls for though
-            ESTD_CPP_IF_CONSTEXPR(sizeof...(Args) == 0)
-                ret.first->first = key;
-            else
-                new (ret.first) value_type(piecewise_construct_t{},
-                    estd::forward_as_tuple(key),
-                    estd::forward_as_tuple(std::forward<Args>(args)...));
+            // NOTE: As per spec, ->second gets value initialized when there are no args
+            new (ret.first) value_type(piecewise_construct_t{},
+                estd::forward_as_tuple(key),
+                estd::forward_as_tuple(std::forward<Args>(args)...));
         }
 
         return wrap_result(ret);
-- 
2.43.0


From e64bb5dc9844dde4354f071c466c32b4615fdfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:47 +0000
Subject: [PATCH 073/116] fix: hash map and set clean-up swapped unconstructed
 values, left holes and lost removal marks

---
 src/estd/internal/container/unordered/base.h  | 32 ++++++++++---------
 .../internal/container/unordered/traits.h     | 13 ++++----
 src/estd/internal/container/unordered_map.h   |  5 +--
 3 files changed, 27 insertions(+), 23 deletions(-)

diff --git a/src/estd/internal/container/unordered/base.h b/src/estd/internal/container/unordered/base.h
index 75c163e..ad8bc10 100644
--- a/src/estd/internal/container/unordered/base.h
+++ b/src/estd/internal/container/unordered/base.h
@@ -466,25 +466,27 @@ protected:
     // deviates from std in that other iterators part of this bucket could be invalidated
     void erase_and_gc_ll(control_pointer pos)
     {
-        auto start = pos;
+        const size_type n = index(traits::key(*pos));
+        control_pointer last = pos;
 
-        destruct(pos);
-
-        ++pos;
+        // Find last active one in bucket
+        for(control_pointer it = pos + 1; it != container_.end() && belongs(*it, n); ++it)
+        {
+            if(base_type::is_empty(*it) == false)   last = it;
+        }
 
-        // No housekeeping if next guy is null (sparse is OK, but
-        // not yet accounted for here)
-        if (base_type::is_empty(*pos))
-            return;
+        destruct(pos);
 
-        // Quick-deduce our bucket#
-        size_type n = start - container_.cbegin();
-        // Find last one in bucket
-        for(;n == index(traits::key(*pos)) && pos < container_.cend(); ++pos) {}
-        // Decrement to position on actual last one in bucket
-        --pos;
+        // It takes the place of the erased one
+        if(last != pos)
+        {
+            traits::move(*last, *pos);
+            destruct(last);
+        }
 
-        traits::swap(*pos, *start);
+        // Now that bucket ends sooner, null out trailing sparse entries
+        for(control_pointer start = &container_[n]; last != start && traits::is_sparse(*(last - 1), n);)
+            base_type::set_null(--last);
     }
 
 public:
diff --git a/src/estd/internal/container/unordered/traits.h b/src/estd/internal/container/unordered/traits.h
index 556134d..4c3de61 100644
--- a/src/estd/internal/container/unordered/traits.h
+++ b/src/estd/internal/container/unordered/traits.h
@@ -103,12 +103,13 @@ struct unordered_map_traits_control
 
     using control_type = pair<key_type, meta>;
 
+    // Moves active 'from' into empty 'to'.  'from' still needs to be destructed
     // DEBT: Couldn't dial in specialization, so doing this as a method
-    static ESTD_CPP_CONSTEXPR(14) void swap(control_type& lhs, control_type& rhs)
+    static ESTD_CPP_CONSTEXPR(14) void move(control_type& from, control_type& to)
     {
-        estd::swap(lhs.first, rhs.first);
-        // DEBT: We'll be swapping destructed ones too.  Perhaps that would be better suited as a std::move?
-        estd::swap(lhs.second.mapped(), rhs.second.mapped());
+        // 'to' has no living mapped value, only meta
+        new (to.second.storage) mapped_type(std::move(from.second.mapped()));
+        to.first = std::move(from.first);
     }
 };
 
@@ -241,9 +242,9 @@ struct unordered_set_traits : unordered_traits<Key, Key, Hash, KeyEqual ESTD_UNO
     static constexpr const mapped_type& mapped(const control_type& v) { return v; }
 
     // DEBT: I tried to specialize this guy but failed, so we have this shim here instead
-    static ESTD_CPP_CONSTEXPR(14) void swap(control_type& lhs, control_type& rhs)
+    static ESTD_CPP_CONSTEXPR(14) void move(control_type& from, control_type& to)
     {
-        estd::swap(lhs, rhs);
+        to = std::move(from);
     }
 };
 
diff --git a/src/estd/internal/container/unordered_map.h b/src/estd/internal/container/unordered_map.h
index 74ecef3..ba20d39 100644
--- a/src/estd/internal/container/unordered_map.h
+++ b/src/estd/internal/container/unordered_map.h
@@ -130,8 +130,9 @@ private:
                     if(control->second.bucket != n) return pos;
                 }
 
-                //it->swap(*pos);
-                traits::swap(*it, *pos);
+                traits::move(*pos, *it);
+                // what's left behind here is the same as if it were erased
+                erase_ll({ pos, n });
                 return it;
             }
         }
-- 
2.43.0


From 728f56b95f02f7b6350e39a2bd8c246b49a9b2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:51 +0000
Subject: [PATCH 074/116] fix: hash map and set equality depended on the order
 of insertion

---
 src/estd/internal/container/unordered/base.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/container/unordered/base.h b/src/estd/internal/container/unordered/base.h
index ad8bc10..804b8eb 100644
--- a/src/estd/internal/container/unordered/base.h
+++ b/src/estd/internal/container/unordered/base.h
@@ -593,12 +593,13 @@ ESTD_CPP_CONSTEXPR(14) bool operator==(const unordered_base<Container, Traits>&
     using traits = Traits;
     using it = typename unordered_base<Container, Traits>::const_iterator;
 
+    // Order of items depends on their history, so comparing pairwise wouldn't do
     // DEBT: Not optimal, since we have to iterate inside size() to make this determination
     if(lhs.size() != rhs.size())    return false;
 
-    for(it l = lhs.begin(), r = rhs.begin(); l != lhs.cend(); ++l, ++r)
+    for(it l = lhs.begin(); l != lhs.cend(); ++l)
     {
-        if(traits::key(*l) != traits::key(*r)) return false;
+        if(lhs.count(traits::key(*l)) != rhs.count(traits::key(*l))) return false;
     }
 
     return true;
-- 
2.43.0


From 4e563c0696f383e461cf07360e5761ce14d89123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:02 +0000
Subject: [PATCH 075/116] fix: a constructor that throws inside make_from_tuple
 ended the program

---
 src/estd/internal/tuple/make.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/tuple/make.h b/src/estd/internal/tuple/make.h
index 5a8f09a..2de239d 100644
--- a/src/estd/internal/tuple/make.h
+++ b/src/estd/internal/tuple/make.h
@@ -9,7 +9,7 @@ namespace estd {
 //constexpr T make_from_tuple(Tuple&& t);
 
 template <class T, class ...Args>
-constexpr T make_from_tuple(tuple<Args...>&& t) noexcept
+constexpr T make_from_tuple(tuple<Args...>&& t)
 {
     return estd::apply([](Args&&...args)
     {
-- 
2.43.0


From b2f5107445fb895b2f3a297f2f5628254bd20e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:06 +0000
Subject: [PATCH 076/116] fix: a hash map insertion whose constructor throws
 left a half-built entry behind

---
 src/estd/internal/container/unordered/base.h | 19 +++++++++++++++++++
 src/estd/internal/container/unordered_map.h  | 10 +++++-----
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/estd/internal/container/unordered/base.h b/src/estd/internal/container/unordered/base.h
index 804b8eb..fa19aa2 100644
--- a/src/estd/internal/container/unordered/base.h
+++ b/src/estd/internal/container/unordered/base.h
@@ -169,6 +169,25 @@ protected:
 
     }
 
+    // Constructs an active item in this empty slot.  If that throws, slot is as empty
+    // (and, if applicable, as sparse) as it was before
+    template <class ...Args>
+    static void construct(control_pointer v, Args&&...args)
+    {
+        struct rollback
+        {
+            control_pointer v;
+            const control_type was;
+
+            explicit rollback(control_pointer v) : v{v}, was(*v) {}
+            ~rollback() { if(v != nullptr) *v = was; }
+        };
+
+        rollback r(v);
+        new (v) value_type(std::forward<Args>(args)...);
+        r.v = nullptr;
+    }
+
     using insert_result = pair<control_pointer, bool>;
 
     // In fact, works for find too but it seems to make things more complicated,
diff --git a/src/estd/internal/container/unordered_map.h b/src/estd/internal/container/unordered_map.h
index ba20d39..8d6bf50 100644
--- a/src/estd/internal/container/unordered_map.h
+++ b/src/estd/internal/container/unordered_map.h
@@ -209,7 +209,7 @@ public:
         const insert_result ret = insert_precheck(key, false);
 
         if(ret.second)
-            new (ret.first) value_type(key, std::forward<Args>(args)...);
+            base_type::construct(ret.first, key, std::forward<Args>(args)...);
 
         return wrap_result(ret);
     }
@@ -225,7 +225,7 @@ public:
         const insert_result ret = insert_precheck(key, permit_duplicates);
 
         if(ret.second)
-            new (ret.first) value_type(piecewise_construct_t{},
+            base_type::construct(ret.first, piecewise_construct_t{},
                 std::forward<estd::tuple<Args1...>>(first_args),
                 std::forward<estd::tuple<Args2...>>(second_args));
 
@@ -244,7 +244,7 @@ public:
         if(ret.second)
         {
             // NOTE: As per spec, ->second gets value initialized when there are no args
-            new (ret.first) value_type(piecewise_construct_t{},
+            base_type::construct(ret.first, piecewise_construct_t{},
                 estd::forward_as_tuple(key),
                 estd::forward_as_tuple(std::forward<Args>(args)...));
         }
@@ -259,7 +259,7 @@ public:
         if(ret.second)
             // We've made it here without reaching the end or bonking into another bucket,
             // we're good to go
-            new (ret.first) value_type(value);
+            base_type::construct(ret.first, value);
 
         return wrap_result(ret);
     }
@@ -273,7 +273,7 @@ public:
         if(ret.second)
             // We've made it here without reaching the end or bonking into another bucket,
             // we're good to go
-            new (ret.first) value_type(std::forward<P>(value));
+            base_type::construct(ret.first, std::forward<P>(value));
 
         return wrap_result(ret);
     }
-- 
2.43.0


From bf7ce492a5803d25c151c3b12ede96031acd4f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:28 +0000
Subject: [PATCH 077/116] fix: mutex.h tests feature macros, so it has to
 include the header which defines them

---
 src/estd/mutex.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/estd/mutex.h b/src/estd/mutex.h
index bc1be48..fd5d37f 100644
--- a/src/estd/mutex.h
+++ b/src/estd/mutex.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include "internal/platform.h"
+
 #ifdef FEATURE_CPP_VARIADIC
 // FIX: Resolve name collision with other FEATURE_ESTD_CHRONO
 // this one guards against compilation against pre c++11 scenarios
-- 
2.43.0


From ad0c3201de4dc54b2bd1d643c28dc7065718e2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:28 +0000
Subject: [PATCH 078/116] fix: unique_lock keeps track of whether it owns the
 lock and releases it when destroyed

---
 src/estd/mutex.h | 90 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 75 insertions(+), 15 deletions(-)

diff --git a/src/estd/mutex.h b/src/estd/mutex.h
index fd5d37f..f82cffe 100644
--- a/src/estd/mutex.h
+++ b/src/estd/mutex.h
@@ -52,54 +52,114 @@ class unique_lock : protected TBase
 {
     typedef TBase base_type;
 
+    bool owns;
+
+    // there is only one owner of a lock, so no copying
+    unique_lock(const unique_lock&);
+    unique_lock& operator=(const unique_lock&);
+
 public:
     typedef TMutex mutex_type;
 
     mutex_type* mutex() const { return base_type::value(); }
 
+    bool owns_lock() const { return owns; }
+
+#if __cplusplus >= 201103L
+    explicit
+#endif
+    operator bool() const { return owns; }
+
     mutex_type* release()
     {
         mutex_type* temp = mutex();
-        base_type::value(NULLPTR);
+        base_type::value(static_cast<mutex_type*>(NULLPTR));
+        owns = false;
         return temp;
     }
 
-    void lock() { mutex()->lock(); }
+    void lock()
+    {
+        mutex()->lock();
+        owns = true;
+    }
 
-    void unlock() { mutex()->unlock(); }
+    bool try_lock()
+    {
+        return owns = mutex()->try_lock();
+    }
+
+    void unlock()
+    {
+        if(!owns) return;
+
+        owns = false;
+        mutex()->unlock();
+    }
 
 #ifdef FEATURE_ESTD_CHRONO2
     template< class Rep, class Period >
     bool try_lock_for( const estd::chrono::duration<Rep,Period>& timeout_duration )
     {
-        return mutex()->try_lock_for(timeout_duration);
+        return owns = mutex()->try_lock_for(timeout_duration);
     }
-#endif
-
-    unique_lock() : base_type(NULLPTR) {}
 
-    explicit unique_lock(mutex_type& m) : base_type(&m)
+    template< class Clock, class Duration >
+    bool try_lock_until( const estd::chrono::time_point<Clock,Duration>& timeout_time )
     {
-        m.lock();
+        return owns = mutex()->try_lock_until(timeout_time);
     }
+#endif
 
-    unique_lock(mutex_type& m, defer_lock_t) : base_type(&m) {}
-    unique_lock(mutex_type& m, adopt_lock_t) : base_type(&m) {}
+    unique_lock() : base_type(static_cast<mutex_type*>(NULLPTR)), owns(false) {}
 
-    unique_lock( mutex_type& m, try_to_lock_t) : base_type(&m)
+    explicit unique_lock(mutex_type& m) : base_type(&m), owns(false)
     {
-        m.try_lock();
+        lock();
     }
 
+    unique_lock(mutex_type& m, defer_lock_t) : base_type(&m), owns(false) {}
+    unique_lock(mutex_type& m, adopt_lock_t) : base_type(&m), owns(true) {}
+
+    unique_lock( mutex_type& m, try_to_lock_t) : base_type(&m), owns(m.try_lock()) {}
+
 #ifdef FEATURE_ESTD_CHRONO2
     template< class Rep, class Period >
     unique_lock( mutex_type& m, 
              const estd::chrono::duration<Rep,Period>& timeout_duration ) :
-            base_type(&m)
+            base_type(&m),
+            owns(m.try_lock_for(timeout_duration))
+    {
+    }
+
+    template< class Clock, class Duration >
+    unique_lock( mutex_type& m,
+             const estd::chrono::time_point<Clock,Duration>& timeout_time ) :
+            base_type(&m),
+            owns(m.try_lock_until(timeout_time))
     {
-        m.try_lock_for(timeout_duration);
     }
 #endif
+
+#ifdef FEATURE_CPP_MOVESEMANTIC
+    unique_lock(unique_lock&& other) : base_type(other.mutex()), owns(other.owns)
+    {
+        other.release();
+    }
+
+    unique_lock& operator=(unique_lock&& other)
+    {
+        if(this != &other)
+        {
+            unlock();
+            owns = other.owns;
+            base_type::value(other.release());
+        }
+        return *this;
+    }
+#endif
+
+    ~unique_lock() { unlock(); }
 };
 
 
-- 
2.43.0


From acde1dc6b417de3a6e286ca8934523c9b558f76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:28 +0000
Subject: [PATCH 079/116] fix: FreeRTOS timed locks, acquisitions and sleeps
 round up to whole ticks

---
 src/estd/port/freertos/chrono.h    | 43 ++++++++++++++++++++++++++++++
 src/estd/port/freertos/mutex.h     |  9 +------
 src/estd/port/freertos/semaphore.h |  4 +--
 src/estd/port/freertos/thread.h    |  6 +----
 4 files changed, 46 insertions(+), 16 deletions(-)

diff --git a/src/estd/port/freertos/chrono.h b/src/estd/port/freertos/chrono.h
index 3f4ed9d..8a874e4 100644
--- a/src/estd/port/freertos/chrono.h
+++ b/src/estd/port/freertos/chrono.h
@@ -52,6 +52,49 @@ struct freertos_clock
 
 namespace freertos {
 
+namespace internal {
+
+// Ratio is ticks per count.  Partial ticks count as a whole one
+template <class Ratio>
+inline uintmax_t round_up_ticks(uintmax_t count, estd::false_type)
+{
+    const uintmax_t num = Ratio::num, den = Ratio::den;
+
+    // apart from each other so that the former doesn't overflow on behalf of the latter
+    return count / den * num + (count % den * num + den - 1) / den;
+}
+
+template <class Ratio, class Rep>
+inline uintmax_t round_up_ticks(Rep count, estd::true_type)
+{
+    const Rep exact = count * Ratio::num / Ratio::den;
+    const uintmax_t t = static_cast<uintmax_t>(exact);
+
+    return static_cast<Rep>(t) < exact ? t + 1 : t;
+}
+
+// Ticks to wait so that no less than 'd' goes by, 0 if 'd' isn't positive and portMAX_DELAY if it's beyond
+// what kernel can count.  This differs from converting to freertos_clock::duration, which drops partial ticks
+template <class Rep, class Period>
+inline TickType_t to_ticks(const estd::chrono::duration<Rep, Period>& d)
+{
+    typedef estd::ratio_divide<Period, estd::chrono::internal::freertos_system_period> ratio;
+    typedef estd::is_floating_point<Rep> floating;
+    typedef typename estd::conditional<floating::value, Rep, uintmax_t>::type rep;
+
+    if(!(d.count() > 0)) return 0;
+
+    const rep count = static_cast<rep>(d.count());
+
+    if(count / ratio::den > static_cast<rep>(portMAX_DELAY) / ratio::num) return portMAX_DELAY;
+
+    const uintmax_t t = round_up_ticks<ratio>(count, typename floating::type());
+
+    return t < portMAX_DELAY ? static_cast<TickType_t>(t) : portMAX_DELAY;
+}
+
+}
+
 ESTD_CPP_CONSTEXPR_RET estd::chrono::freertos_clock::duration max_delay()
 {
     return estd::chrono::freertos_clock::duration(portMAX_DELAY);
diff --git a/src/estd/port/freertos/mutex.h b/src/estd/port/freertos/mutex.h
index d79c527..542f262 100644
--- a/src/estd/port/freertos/mutex.h
+++ b/src/estd/port/freertos/mutex.h
@@ -100,14 +100,7 @@ public:
     template< class Rep, class Period >
     bool try_lock_for(const estd::chrono::duration<Rep,Period>& timeout_duration)
     {
-        // This should convert whatever incoming time format duration into our steady_clock
-        // duration, which is very specifically freertos-tick bound
-        // if this works well, use duration_cast instead and directly
-        // on xSemaphoreTake
-        estd::chrono::freertos_clock::duration d = timeout_duration;
-
-        // get number of ticks
-        return xSemaphoreTake(base_type::s, d.count());
+        return xSemaphoreTake(base_type::s, internal::to_ticks(timeout_duration));
     }
 
     template<class Clock, class Duration>
diff --git a/src/estd/port/freertos/semaphore.h b/src/estd/port/freertos/semaphore.h
index 10c935a..abdb363 100644
--- a/src/estd/port/freertos/semaphore.h
+++ b/src/estd/port/freertos/semaphore.h
@@ -71,9 +71,7 @@ public:
     template<class Rep, class Period>
     bool try_acquire_for(const estd::chrono::duration<Rep,Period>& timeout_duration)
     {
-        estd::chrono::freertos_clock::duration d = timeout_duration;
-
-        return s.take(d.count());
+        return s.take(to_ticks(timeout_duration));
     }
 
     template<class Clock, class Duration>
diff --git a/src/estd/port/freertos/thread.h b/src/estd/port/freertos/thread.h
index b285478..2be4ef0 100644
--- a/src/estd/port/freertos/thread.h
+++ b/src/estd/port/freertos/thread.h
@@ -106,11 +106,7 @@ namespace this_thread {
 template< class Rep, class Period >
 void sleep_for( const chrono::duration<Rep, Period>& sleep_duration )
 {
-    // TODO: Pretty sure we can do a straight chrono::stead_clock::duration instance here
-    chrono::freertos_clock::rep count =
-            estd::chrono::duration_cast<chrono::freertos_clock::duration>(sleep_duration).count();
-
-    vTaskDelay(count);
+    vTaskDelay(freertos::internal::to_ticks(sleep_duration));
 }
 
 // FreeRTOS' "delay until" code is subtly but fundamentally different than std lib version,
-- 
2.43.0


From 7cf55a7fbd0c2f84e96f4183ab23ad28191c621d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:29 +0000
Subject: [PATCH 080/116] fix: FreeRTOS try_lock_until, try_acquire_until and
 sleep_until compile, and cope with past deadlines and tick wrap

---
 src/estd/port/freertos/chrono.h    | 26 ++++++++++++++++++++++++++
 src/estd/port/freertos/mutex.h     |  2 +-
 src/estd/port/freertos/semaphore.h |  2 +-
 src/estd/port/freertos/thread.h    |  4 +---
 4 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/estd/port/freertos/chrono.h b/src/estd/port/freertos/chrono.h
index 8a874e4..7305278 100644
--- a/src/estd/port/freertos/chrono.h
+++ b/src/estd/port/freertos/chrono.h
@@ -93,6 +93,32 @@ inline TickType_t to_ticks(const estd::chrono::duration<Rep, Period>& d)
     return t < portMAX_DELAY ? static_cast<TickType_t>(t) : portMAX_DELAY;
 }
 
+// Ticks to wait until 't', 0 if that has passed
+template <class Clock, class Duration>
+inline TickType_t ticks_until(const estd::chrono::time_point<Clock, Duration>& t)
+{
+    const typename Clock::time_point now = Clock::now();
+
+    return now < t ? to_ticks(t - now) : 0;
+}
+
+// Tick counter wraps, so nearest of the two ways round tells whether 't' has passed
+template <class Duration>
+inline TickType_t ticks_until(
+    const estd::chrono::time_point<estd::chrono::freertos_clock, Duration>& t)
+{
+    typedef estd::ratio_divide<typename Duration::period,
+        estd::chrono::internal::freertos_system_period> ratio;
+
+    const TickType_t due = static_cast<TickType_t>(round_up_ticks<ratio>(
+        t.time_since_epoch().count(),
+        typename estd::is_floating_point<typename Duration::rep>::type()));
+    const TickType_t left = due -
+        estd::chrono::freertos_clock::now().time_since_epoch().count();
+
+    return left <= portMAX_DELAY / 2 ? left : 0;
+}
+
 }
 
 ESTD_CPP_CONSTEXPR_RET estd::chrono::freertos_clock::duration max_delay()
diff --git a/src/estd/port/freertos/mutex.h b/src/estd/port/freertos/mutex.h
index 542f262..e7035fe 100644
--- a/src/estd/port/freertos/mutex.h
+++ b/src/estd/port/freertos/mutex.h
@@ -106,7 +106,7 @@ public:
     template<class Clock, class Duration>
     bool try_lock_until(const estd::chrono::time_point<Clock,Duration>& timeout_time)
     {
-        return xSemaphoreTake(base_type::s, timeout_time - chrono::freertos_clock::now());
+        return xSemaphoreTake(base_type::s, internal::ticks_until(timeout_time));
     }
 };
 
diff --git a/src/estd/port/freertos/semaphore.h b/src/estd/port/freertos/semaphore.h
index abdb363..b69e382 100644
--- a/src/estd/port/freertos/semaphore.h
+++ b/src/estd/port/freertos/semaphore.h
@@ -77,7 +77,7 @@ public:
     template<class Clock, class Duration>
     bool try_acquire_until(const estd::chrono::time_point<Clock,Duration>& timeout_time)
     {
-        return s.take(timeout_time - chrono::freertos_clock::now());
+        return s.take(ticks_until(timeout_time));
     }
 
     void release()
diff --git a/src/estd/port/freertos/thread.h b/src/estd/port/freertos/thread.h
index 2be4ef0..76b1c47 100644
--- a/src/estd/port/freertos/thread.h
+++ b/src/estd/port/freertos/thread.h
@@ -118,9 +118,7 @@ void sleep_for( const chrono::duration<Rep, Period>& sleep_duration )
 template< class Clock, class Duration >
 void sleep_until( const chrono::time_point<Clock,Duration>& sleep_time )
 {
-    chrono::freertos_clock::rep count = sleep_time - chrono::freertos_clock::now();
-
-    vTaskDelay(count);
+    vTaskDelay(freertos::internal::ticks_until(sleep_time));
 }
 
 inline void yield() { taskYIELD(); }
-- 
2.43.0


From 95a9466bbabc1db32db829453dd9d14f6ea5f842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:29 +0000
Subject: [PATCH 081/116] fix: FreeRTOS queue, event group and timer waits
 round up to whole ticks

---
 src/estd/port/freertos/chrono.h        | 21 +++++++++++++++++++++
 src/estd/port/freertos/event_groups.h  |  4 ++--
 src/estd/port/freertos/queue.h         |  4 ++--
 src/estd/port/freertos/timer.h         |  4 ++--
 src/estd/port/freertos/wrapper/timer.h | 12 ++++++------
 5 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/src/estd/port/freertos/chrono.h b/src/estd/port/freertos/chrono.h
index 7305278..1e2da93 100644
--- a/src/estd/port/freertos/chrono.h
+++ b/src/estd/port/freertos/chrono.h
@@ -119,6 +119,27 @@ inline TickType_t ticks_until(
     return left <= portMAX_DELAY / 2 ? left : 0;
 }
 
+// Parameter type for waits and periods.  Implicitly converts from any duration, rounding up
+class wait_duration
+{
+    TickType_t count_;
+
+public:
+    template <class Rep, class Period>
+    wait_duration(const estd::chrono::duration<Rep, Period>& d) :   // NOLINT
+        count_(to_ticks(d))
+    {}
+
+#if FEATURE_STD_CHRONO_CORE || FEATURE_STD_CHRONO
+    template <class Rep, class Period>
+    wait_duration(const std::chrono::duration<Rep, Period>& d) :    // NOLINT
+        count_(to_ticks(estd::chrono::duration<Rep, estd::ratio<Period::num, Period::den> >(d.count())))
+    {}
+#endif
+
+    TickType_t count() const { return count_; }
+};
+
 }
 
 ESTD_CPP_CONSTEXPR_RET estd::chrono::freertos_clock::duration max_delay()
diff --git a/src/estd/port/freertos/event_groups.h b/src/estd/port/freertos/event_groups.h
index aa93643..ed797bd 100644
--- a/src/estd/port/freertos/event_groups.h
+++ b/src/estd/port/freertos/event_groups.h
@@ -21,14 +21,14 @@ struct event_group : wrapper::event_group
                        const EventBits_t uxBitsToWaitFor,
                        const bool xClearOnExit,
                        const bool xWaitForAllBits,
-                       duration wait)
+                       wait_duration wait)
     {
         return base_type::wait_bits(uxBitsToWaitFor, xClearOnExit, xWaitForAllBits, wait.count());
     }
 
     EventBits_t sync(const EventBits_t uxBitsToSet,
                               const EventBits_t uxBitsToWaitFor,
-                              duration wait)
+                              wait_duration wait)
     {
         return base_type::sync(uxBitsToSet, uxBitsToWaitFor, wait.count());
     }
diff --git a/src/estd/port/freertos/queue.h b/src/estd/port/freertos/queue.h
index 680ccfc..8f5690f 100644
--- a/src/estd/port/freertos/queue.h
+++ b/src/estd/port/freertos/queue.h
@@ -31,7 +31,7 @@ public:
         return q.messages_waiting();
     }
 
-    bool send(const_reference v, duration timeout)
+    bool send(const_reference v, internal::wait_duration timeout)
     {
         return q.send(&v, timeout.count()) == pdTRUE;
     }
@@ -41,7 +41,7 @@ public:
         return q.send(&v, portMAX_DELAY) == pdTRUE;
     }
 
-    bool receive(pointer v, duration timeout)
+    bool receive(pointer v, internal::wait_duration timeout)
     {
         return q.receive(v, timeout.count()) == pdTRUE;
     }
diff --git a/src/estd/port/freertos/timer.h b/src/estd/port/freertos/timer.h
index db89399..61e2a62 100644
--- a/src/estd/port/freertos/timer.h
+++ b/src/estd/port/freertos/timer.h
@@ -13,7 +13,7 @@ class timer<false> : public internal::timer
     typedef internal::timer base_type;
 
 public:
-    timer(const char* const name, duration period, bool auto_reload, void* const id,
+    timer(const char* const name, internal::wait_duration period, bool auto_reload, void* const id,
         TimerCallbackFunction_t callback) :
         base_type(wrapper::timer::create(name, period.count(), auto_reload, id, callback))
     {
@@ -40,7 +40,7 @@ class timer<true> : public internal::timer
     StaticTimer_t storage;
 
 public:
-    timer(const char* const name, duration period, bool auto_reload, void* const id,
+    timer(const char* const name, internal::wait_duration period, bool auto_reload, void* const id,
         TimerCallbackFunction_t callback) :
         base_type(wrapper::timer::create(name, period.count(), auto_reload, id, callback, &storage))
     {
diff --git a/src/estd/port/freertos/wrapper/timer.h b/src/estd/port/freertos/wrapper/timer.h
index be36a42..0d62ca6 100644
--- a/src/estd/port/freertos/wrapper/timer.h
+++ b/src/estd/port/freertos/wrapper/timer.h
@@ -157,7 +157,7 @@ public:
     bool dormant() const { return t.is_timer_active() == pdFALSE; }
     bool active() const { return !dormant(); }
 
-    BaseType_t free(duration block_time)
+    BaseType_t free(wait_duration block_time)
     {
         return t.free(block_time.count());
     }
@@ -167,24 +167,24 @@ public:
     void id(void* v) { t.set_timer_id(v); }
     void* id() const { return t.get_timer_id(); }
 
-    BaseType_t period(duration new_period, duration block_time)
+    BaseType_t period(wait_duration new_period, wait_duration block_time)
     {
         return t.change_period(new_period.count(), block_time.count());
     }
 
     duration period() const { return duration(t.get_period()); }
 
-    BaseType_t start(duration block_time)
+    BaseType_t start(wait_duration block_time)
     {
         return t.start(block_time.count());
     }
 
-    BaseType_t stop(duration block_time)
+    BaseType_t stop(wait_duration block_time)
     {
         return t.stop(block_time.count());
     }
 
-    BaseType_t reset(duration block_time)
+    BaseType_t reset(wait_duration block_time)
     {
         return t.reset(block_time.count());
     }
@@ -210,7 +210,7 @@ public:
     static BaseType_t pend_function_call(PendedFunction_t xFunctionToPend,
         void* pvParameter1,
         uint32_t ulParameter2,
-        duration wait_time)
+        wait_duration wait_time)
     {
         return xTimerPendFunctionCall(xFunctionToPend, pvParameter1, ulParameter2, wait_time.count());
     }
-- 
2.43.0


From ce43bfe2474255d87dd1f3e020657ad349272985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:29 +0000
Subject: [PATCH 082/116] fix: owners of FreeRTOS kernel objects are not
 copyable, as each copy deleted the object

---
 src/estd/port/freertos/event_groups.h |  5 +++++
 src/estd/port/freertos/queue.h        |  5 +++++
 src/estd/port/freertos/semaphore.h    |  5 +++++
 src/estd/port/freertos/timer.h        | 12 ++++++++++++
 4 files changed, 27 insertions(+)

diff --git a/src/estd/port/freertos/event_groups.h b/src/estd/port/freertos/event_groups.h
index ed797bd..97ad4cb 100644
--- a/src/estd/port/freertos/event_groups.h
+++ b/src/estd/port/freertos/event_groups.h
@@ -47,6 +47,11 @@ protected:
 
 public:
     event_group() : base_type(base_type::create()) {}
+#ifdef FEATURE_CPP_DELETE_CTOR
+    // sole owner of kernel's event group
+    event_group(const event_group&) = delete;
+    event_group& operator=(const event_group&) = delete;
+#endif
     ~event_group() { base_type::free(); }
 
 };
diff --git a/src/estd/port/freertos/queue.h b/src/estd/port/freertos/queue.h
index 8f5690f..04aba9b 100644
--- a/src/estd/port/freertos/queue.h
+++ b/src/estd/port/freertos/queue.h
@@ -20,6 +20,11 @@ protected:
     wrapper::queue q;
 
     queue(QueueHandle_t q) : q(q) {}
+#ifdef FEATURE_CPP_DELETE_CTOR
+    // sole owner of 'q'
+    queue(const queue&) = delete;
+    queue& operator=(const queue&) = delete;
+#endif
     ~queue()
     {
         q.free();
diff --git a/src/estd/port/freertos/semaphore.h b/src/estd/port/freertos/semaphore.h
index b69e382..71c7ccf 100644
--- a/src/estd/port/freertos/semaphore.h
+++ b/src/estd/port/freertos/semaphore.h
@@ -21,6 +21,11 @@ protected:
     semaphore_base(SemaphoreHandle_t s) :
         s{s} {}
 
+#ifdef FEATURE_CPP_DELETE_CTOR
+    // sole owner of 's'
+    semaphore_base(const semaphore_base&) = delete;
+#endif
+
     ~semaphore_base()
     {
         // From the source code:
diff --git a/src/estd/port/freertos/timer.h b/src/estd/port/freertos/timer.h
index 61e2a62..021d4f0 100644
--- a/src/estd/port/freertos/timer.h
+++ b/src/estd/port/freertos/timer.h
@@ -20,6 +20,12 @@ public:
 
     }
 
+#ifdef FEATURE_CPP_DELETE_CTOR
+    // sole owner of kernel's timer
+    timer(const timer&) = delete;
+    timer& operator=(const timer&) = delete;
+#endif
+
     ~timer()
     {
         // DEBT: Feed this via a policy
@@ -47,6 +53,12 @@ public:
 
     }
 
+#ifdef FEATURE_CPP_DELETE_CTOR
+    // sole owner of kernel's timer
+    timer(const timer&) = delete;
+    timer& operator=(const timer&) = delete;
+#endif
+
     ~timer()
     {
         // DEBT: Feed this via a policy
-- 
2.43.0


From 25a0ed5e8781fc534c0cc0ded21acffc2200778a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:29 +0000
Subject: [PATCH 083/116] fix: destructors of FreeRTOS objects whose creation
 failed do not hand a null handle to the kernel

---
 src/estd/port/freertos/event_groups.h  | 7 ++++++-
 src/estd/port/freertos/queue.h         | 4 +++-
 src/estd/port/freertos/semaphore.h     | 4 +++-
 src/estd/port/freertos/timer.h         | 4 +++-
 src/estd/port/freertos/wrapper/timer.h | 2 ++
 5 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/estd/port/freertos/event_groups.h b/src/estd/port/freertos/event_groups.h
index 97ad4cb..ce9a58c 100644
--- a/src/estd/port/freertos/event_groups.h
+++ b/src/estd/port/freertos/event_groups.h
@@ -52,7 +52,12 @@ public:
     event_group(const event_group&) = delete;
     event_group& operator=(const event_group&) = delete;
 #endif
-    ~event_group() { base_type::free(); }
+    ~event_group()
+    {
+        // creation may have failed
+        if(static_cast<EventGroupHandle_t>(*this) != NULLPTR)
+            base_type::free();
+    }
 
 };
 #endif
diff --git a/src/estd/port/freertos/queue.h b/src/estd/port/freertos/queue.h
index 04aba9b..1e69888 100644
--- a/src/estd/port/freertos/queue.h
+++ b/src/estd/port/freertos/queue.h
@@ -27,7 +27,9 @@ protected:
 #endif
     ~queue()
     {
-        q.free();
+        // creation may have failed
+        if(static_cast<QueueHandle_t>(q) != NULLPTR)
+            q.free();
     }
 
 public:
diff --git a/src/estd/port/freertos/semaphore.h b/src/estd/port/freertos/semaphore.h
index 71c7ccf..5bbec6f 100644
--- a/src/estd/port/freertos/semaphore.h
+++ b/src/estd/port/freertos/semaphore.h
@@ -33,7 +33,9 @@ protected:
          * check before attempting to free the memory. */
         // Therefore we use this for both static and dynamic allocations of
         // semaphore
-        s.free();
+        // creation may have failed
+        if(static_cast<SemaphoreHandle_t>(s) != NULLPTR)
+            s.free();
     }
 
     typedef wrapped::counting_tag counting_tag;
diff --git a/src/estd/port/freertos/timer.h b/src/estd/port/freertos/timer.h
index 021d4f0..2b17494 100644
--- a/src/estd/port/freertos/timer.h
+++ b/src/estd/port/freertos/timer.h
@@ -29,7 +29,9 @@ public:
     ~timer()
     {
         // DEBT: Feed this via a policy
-        free(estd::chrono::milliseconds(100));
+        // creation may have failed
+        if(static_cast<TimerHandle_t>(native()) != NULLPTR)
+            free(estd::chrono::milliseconds(100));
     }
 };
 #endif
diff --git a/src/estd/port/freertos/wrapper/timer.h b/src/estd/port/freertos/wrapper/timer.h
index 0d62ca6..4fa8712 100644
--- a/src/estd/port/freertos/wrapper/timer.h
+++ b/src/estd/port/freertos/wrapper/timer.h
@@ -121,6 +121,8 @@ public:
         return xTimerIsTimerActive(h);
     }
 
+    operator TimerHandle_t () const { return h; }
+
     static BaseType_t pend_function_call(PendedFunction_t xFunctionToPend,
         void* pvParameter1,
         uint32_t ulParameter2,
-- 
2.43.0


From beb6f168c184e094d83d3016b4e79db223aac72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:37 +0000
Subject: [PATCH 084/116] fix: experimental::function no longer moves from a
 named functor

Constructing from an lvalue used std::move on it, leaving the caller's functor
gutted.
---
 src/estd/functional.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/functional.h b/src/estd/functional.h
index dc23f7e..746b1bb 100644
--- a/src/estd/functional.h
+++ b/src/estd/functional.h
@@ -179,7 +179,7 @@ public:
         typedef typename base_type::template model<incoming_function_type> model_type;
         //allocator_traits::rebind_alloc<model_type>
         // FIX: Don't want to dynamically allocate memory quite this way
-        auto m = new model_type(std::move(t));
+        auto m = new model_type(incoming_function_type(std::forward<T>(t)));
         base_type::m = m;
     }
 
@@ -190,7 +190,7 @@ public:
     {
         typedef typename estd::decay<T>::type incoming_function_type;
         typedef typename base_type::template model<incoming_function_type> model_type;
-        auto m = new model_type(std::forward<T>(t));
+        auto m = new model_type(incoming_function_type(std::forward<T>(t)));
         base_type::m = m;
     }
 
-- 
2.43.0


From 48d354ddf1f369e1efc06984390e6745fdbe5480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:37 +0000
Subject: [PATCH 085/116] fix: experimental::function assignment which throws
 or is to itself

The old target was deleted before the new one was obtained, leaving a dangling
pointer which then was deleted again.  Assigning a named functor moved from it.
---
 src/estd/functional.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/estd/functional.h b/src/estd/functional.h
index 746b1bb..a8b17ca 100644
--- a/src/estd/functional.h
+++ b/src/estd/functional.h
@@ -230,8 +230,10 @@ public:
     template <typename F>
     function& operator=(F&& f)
     {
+        // Obtain new target first, so that we still have ours if that throws or if f is us
+        function temp(std::forward<F>(f));
         reset();
-        new (this) function(std::move(f));
+        new (this) function(std::move(temp));
         return *this;
     }
 
-- 
2.43.0


From b090626b47ed52378e2e78c3103b997f80779bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:37 +0000
Subject: [PATCH 086/116] fix: copying an experimental::function copies its
 target

Copies shared one target and each deleted it, and a non-const copy wrapped and
emptied the original.
---
 src/estd/functional.h | 47 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/src/estd/functional.h b/src/estd/functional.h
index a8b17ca..3a39c16 100644
--- a/src/estd/functional.h
+++ b/src/estd/functional.h
@@ -146,8 +146,28 @@ private:
         delete (model_type*) c;
     }
 
+    typedef model_base* (*cloner_type)(const model_base*);
+
+    template <class M>
+    static model_base* clone(const M& m, estd::true_type) { return new M(m); }
+
+    // Target can't be copied, so copy of function holds nothing
+    template <class M>
+    static model_base* clone(const M&, estd::false_type) { return nullptr; }
+
+    template <class F>
+    static model_base* cloner(const model_base* c)
+    {
+        typedef typename estd::decay_t<F> incoming_function_type;
+        typedef typename base_type::template model<incoming_function_type> model_type;
+
+        return clone(*(const model_type*) c, estd::integral_constant<bool,
+            estd::is_copy_constructible<incoming_function_type>::value>{});
+    }
+
     // Jumping through some hoops to avoid overhead of a virtual destructor.  On a plus note
     const deleter_type _deleter;
+    const cloner_type _cloner;
 
     void reset()
     {
@@ -173,7 +193,8 @@ public:
     template <typename T>
     function(T&& t) :
         allocator_provider_type(TAllocator()),
-        _deleter{deleter<T>}
+        _deleter{deleter<T>},
+        _cloner{cloner<T>}
     {
         typedef typename estd::decay<T>::type incoming_function_type;
         typedef typename base_type::template model<incoming_function_type> model_type;
@@ -186,7 +207,8 @@ public:
     template <typename T>
     function(T&& t, TAllocator& allocator) :
         allocator_provider_type(allocator),
-        _deleter{deleter<T>}
+        _deleter{deleter<T>},
+        _cloner{cloner<T>}
     {
         typedef typename estd::decay<T>::type incoming_function_type;
         typedef typename base_type::template model<incoming_function_type> model_type;
@@ -209,13 +231,25 @@ public:
         auto h = allocator_traits::allocate(alloc, sizeof(model_type));
     } */
 
-    function(const function& other) = default;
+    // Target is owned, so each copy needs one of its own
+    function(const function& other) :
+        allocator_provider_type(TAllocator()),
+        _deleter{other._deleter},
+        _cloner{other._cloner}
+    {
+        if(other.getm() != nullptr)
+            base_type::m = _cloner(other.getm());
+    }
+
+    // Otherwise non-const copy matches function(T&&)
+    function(function& other) : function(const_cast<const function&>(other)) {}
 
 #ifdef FEATURE_CPP_MOVESEMANTIC
     // FIX: SFINAE remove this when nullable == false
     function(function&& other) NOEXCEPT :
         allocator_provider_type(std::move(other)),
-        _deleter{other._deleter}
+        _deleter{other._deleter},
+        _cloner{other._cloner}
     {
         base_type::m = other.getm();
         other.clear();
@@ -227,6 +261,11 @@ public:
         reset();
     }
 
+    function& operator=(const function& other)
+    {
+        return operator=<const function&>(other);
+    }
+
     template <typename F>
     function& operator=(F&& f)
     {
-- 
2.43.0


From 2d9db2444cbadfb4696b61ab52ae9c0007c285e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:37 +0000
Subject: [PATCH 087/116] fix: copied inline_function refers to its own target

The copy kept pointing into the original, and dangled once that was gone.
---
 src/estd/functional.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/estd/functional.h b/src/estd/functional.h
index 3a39c16..6c2e6b2 100644
--- a/src/estd/functional.h
+++ b/src/estd/functional.h
@@ -328,8 +328,14 @@ public:
 
     }
 
+    // Refer to our own target rather than copy_from's
+    inline_function(const inline_function& copy_from) :
+        base_type(&m),
+        m(copy_from.m)
+    {
+    }
+
     /*
-    inline_function(const inline_function& copy_from) = default;
     inline_function(inline_function&& move_from) :
         base_type(std::move(move_from)),
         m(std::move(move_from.m))
-- 
2.43.0


From 41930f1dc07f8a2f8285665ebfc90e81a405f28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:37 +0000
Subject: [PATCH 088/116] fix: copied context_function refers to its own model

The copy kept pointing into the original, and dangled once that was gone.
---
 src/estd/internal/functional.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/estd/internal/functional.h b/src/estd/internal/functional.h
index 33d274e..af30f95 100644
--- a/src/estd/internal/functional.h
+++ b/src/estd/internal/functional.h
@@ -312,6 +312,13 @@ public:
     {
     }
 
+    // Refer to our own model rather than copy_from's
+    constexpr thisify_function(const thisify_function& copy_from) :
+        base_type(&m_),
+        m_(copy_from.m_)
+    {
+    }
+
     // UNUSED, and you're probably better off using inline_function
     template <class T, function_type<T> f>
     static thisify_function create(T* foreign_this)
-- 
2.43.0


From 8944c38d7a0de478b6f0cab30b20bea44f530ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:09 +0000
Subject: [PATCH 089/116] fix: vector from an initializer list constructs its
 elements and never overruns its storage

---
 src/estd/internal/dynamic_array.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index aaabe35..fd9f416 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -348,8 +348,10 @@ public:
         base_type(p1) {}
 
 #if __cpp_initializer_lists
-    constexpr dynamic_array(std::initializer_list<value_type> initlist)
-        : base_type(initlist) {}
+    ESTD_CPP_CONSTEXPR(14) dynamic_array(std::initializer_list<value_type> initlist)
+    {
+        append(initlist.begin(), initlist.size());
+    }
 #endif
 
     // TODO: iterate through and destruct elements
-- 
2.43.0


From 97dbfcc810b2686c396deb4511eca7cb0e2e3fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:32 +0000
Subject: [PATCH 090/116] fix: octal text of 16 and 64 bit integers gets a
 digit more

---
 src/estd/internal/limits/traits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/limits/traits.h b/src/estd/internal/limits/traits.h
index 4153773..28c4591 100644
--- a/src/estd/internal/limits/traits.h
+++ b/src/estd/internal/limits/traits.h
@@ -35,7 +35,7 @@ struct uint_strlen<16, bits> :
 // DEBT: calculation approximate, higher the bitcount the more wasted space
 template <unsigned bits>
 struct uint_strlen<8, bits> :
-    estd::integral_constant<unsigned, (bits + 1) / 3> {};
+    estd::integral_constant<unsigned, (bits + 2) / 3> {};
 
 // Not the same as boost's version
 template <class T, bool is_signed_>
-- 
2.43.0


From ca99bdc0272fc0aee1c6bff63870e90f08067a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:32 +0000
Subject: [PATCH 091/116] fix: the most negative 64 bit integer is converted to
 text

---
 src/estd/internal/charconv.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/estd/internal/charconv.hpp b/src/estd/internal/charconv.hpp
index 088fcb5..35ae4dd 100644
--- a/src/estd/internal/charconv.hpp
+++ b/src/estd/internal/charconv.hpp
@@ -51,21 +51,23 @@ inline detail::to_chars_result<CharIt> to_chars_integer_opt(
     static_assert(is_same<typename cbase_type::char_type, char_type>::value, "CharIt must align with cbase");
 #endif
 
-    if(numeric_limits::is_signed && negative) value *= -1;
+    const Int b = static_cast<Int>(base());
 
     while(first != --last)
     {
 // EXPERIMENTAL, not sure if this helps at all
 #if FEATURE_ESTD_TO_CHARS_LIBC_DIV
         using d = div<Int>;
-        const typename d::result v = d::eval(value, base());
-        *last = cbase_type::to_char(v.rem);
+        const typename d::result v = d::eval(value, b);
+        *last = cbase_type::to_char(negative ? -v.rem : v.rem);
         value = v.quot;
 #else
         // DEBT: Pretty sure there's a div and mod combined operation, use that
         // i.e. https://riscv.org/wp-content/uploads/2017/05/riscv-spec-v2.2.pdf page 36 section 6.2
-        *last = cbase.to_char(value % base());
-        value /= base();
+        // The most negative value has no positive counterpart, so digits rather than value are negated
+        const Int digit = value % b;
+        *last = cbase.to_char(negative ? -digit : digit);
+        value /= b;
 #endif
 
         if(value == 0)
-- 
2.43.0


From 2949657a8676a2bad1e73aacba855566d66143ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:15 +0000
Subject: [PATCH 092/116] fix: output tells character 0xFF from end of file

---
 src/estd/internal/impl/streambuf.h        | 2 +-
 src/estd/internal/impl/streambuf/bipbuf.h | 2 +-
 src/estd/internal/impl/streambuf/buffer.h | 2 +-
 src/estd/streambuf.h                      | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/estd/internal/impl/streambuf.h b/src/estd/internal/impl/streambuf.h
index 33ee87a..d748dc7 100644
--- a/src/estd/internal/impl/streambuf.h
+++ b/src/estd/internal/impl/streambuf.h
@@ -74,7 +74,7 @@ protected:
 
 public:
     // DEBT: Not well thought out, just getting things compiling
-    int_type sputc(char_type ch) { return overflow(ch); }
+    int_type sputc(char_type ch) { return overflow(traits_type::to_int_type(ch)); }
 };
 
 }}}
diff --git a/src/estd/internal/impl/streambuf/bipbuf.h b/src/estd/internal/impl/streambuf/bipbuf.h
index 6915d9f..4747598 100644
--- a/src/estd/internal/impl/streambuf/bipbuf.h
+++ b/src/estd/internal/impl/streambuf/bipbuf.h
@@ -72,7 +72,7 @@ public:
 
     int_type sputc(char_type ch)
     {
-        return overflow(ch);
+        return overflow(traits_type::to_int_type(ch));
     }
 
 protected:
diff --git a/src/estd/internal/impl/streambuf/buffer.h b/src/estd/internal/impl/streambuf/buffer.h
index 36a5c75..7c12b1c 100644
--- a/src/estd/internal/impl/streambuf/buffer.h
+++ b/src/estd/internal/impl/streambuf/buffer.h
@@ -107,7 +107,7 @@ public:
 
     int_type sputc(char_type ch)
     {
-        return overflow(ch);
+        return overflow(traits_type::to_int_type(ch));
     }
 };
 
diff --git a/src/estd/streambuf.h b/src/estd/streambuf.h
index 1ef327d..169c2c2 100644
--- a/src/estd/streambuf.h
+++ b/src/estd/streambuf.h
@@ -135,7 +135,7 @@ public:
         {
             s += written;
 
-            if(this->overflow(*s) != traits_type::eof())
+            if(this->overflow(traits_type::to_int_type(*s)) != traits_type::eof())
             {
                 // getting here means one more character was placed into put area
                 count -= ++written;
-- 
2.43.0


From 90c0ddaf8486ca6059a7346325169ad0ac00c3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:30 +0000
Subject: [PATCH 093/116] fix: string-buffered output keeps NUL characters

---
 src/estd/internal/impl/streambuf/buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/impl/streambuf/buffer.h b/src/estd/internal/impl/streambuf/buffer.h
index 7c12b1c..256ef6e 100644
--- a/src/estd/internal/impl/streambuf/buffer.h
+++ b/src/estd/internal/impl/streambuf/buffer.h
@@ -73,7 +73,7 @@ protected:
             if(full())  return traits_type::eof();
         }
 
-        if(traits_type::not_eof(ch))
+        if(ch != traits_type::eof())
         {
             buf_ += traits_type::to_char_type(ch);
         }
-- 
2.43.0


From 6e841f88c8d0c12f5ca817348c2fdc7b4d31835f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:26 +0000
Subject: [PATCH 094/116] fix: characters put through a virtual streambuf reach
 the wrapped one

---
 src/estd/internal/streambuf.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/streambuf.h b/src/estd/internal/streambuf.h
index 1fb28c5..0d97daf 100644
--- a/src/estd/internal/streambuf.h
+++ b/src/estd/internal/streambuf.h
@@ -50,7 +50,9 @@ protected:
 
     virtual int_type overflow(int_type ch = traits_type::eof()) OVERRIDE
     {
-        return _rdbuf.overflow();
+        return ch == traits_type::eof() ?
+            _rdbuf.overflow(ch) :
+            _rdbuf.sputc(traits_type::to_char_type(ch));
     }
 
 public:
-- 
2.43.0


From 430feb8db060e451726050f72011815e8c4b7c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:58 +0000
Subject: [PATCH 095/116] fix: output into a span of characters wider than a
 byte stays within it

---
 src/estd/internal/impl/streambuf/span.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/estd/internal/impl/streambuf/span.h b/src/estd/internal/impl/streambuf/span.h
index 6f4c80e..52f03d1 100644
--- a/src/estd/internal/impl/streambuf/span.h
+++ b/src/estd/internal/impl/streambuf/span.h
@@ -73,7 +73,7 @@ struct out_span_streambuf :
     }
 
     char_type* pptr() const { return pbase() + base_out_type::pos(); }
-    char_type* epptr() const { return pbase() + out().size_bytes(); }
+    char_type* epptr() const { return pbase() + out().size(); }
 
     streamsize xsputn(const char_type* s, streamsize count)
     {
@@ -81,7 +81,7 @@ struct out_span_streambuf :
 
         if(count > avail) count = avail;
 
-        memcpy(pptr(), s, count);
+        estd::copy_n(s, count, pptr());
         this->pbump(count);
         return count;
     }
@@ -89,7 +89,7 @@ struct out_span_streambuf :
     int_type sputc(char_type ch)
     {
         const pos_type& pos = base_out_type::pos();
-        if(pos >= out().size_bytes())
+        if(pos >= out().size())
             return base_out_type::overflow();
 
         *(pptr()) = ch;
@@ -105,7 +105,7 @@ protected:
         // openmode MUST include 'out' in this instance, otherwise error or ignore
         if(!(which & ios_base::out)) return -1;
 
-        const off_type size = out().size_bytes();
+        const off_type size = out().size();
 
         switch(way)
         {
-- 
2.43.0


From aa4ba98662de49e65b15c67eb40b3c787f8bf2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:58 +0000
Subject: [PATCH 096/116] fix: bipbuffer adapters tell characters from bytes

---
 src/estd/internal/impl/streambuf/bipbuf.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/estd/internal/impl/streambuf/bipbuf.h b/src/estd/internal/impl/streambuf/bipbuf.h
index 4747598..6b83bfd 100644
--- a/src/estd/internal/impl/streambuf/bipbuf.h
+++ b/src/estd/internal/impl/streambuf/bipbuf.h
@@ -47,7 +47,7 @@ protected:
 
     void pbump(int count)
     {
-        buf_.offer_end(count);
+        buf_.offer_end(count * sizeof(char_type));
     }
 
     int sync()
@@ -58,9 +58,9 @@ protected:
         {
             const unsigned sz = buf_.contiguous();
             auto b = (char_type*)buf_.peek(sz);
-            const unsigned written = base_type::rdbuf().sputn(b, sz);
+            const unsigned written = base_type::rdbuf().sputn(b, sz / sizeof(char_type));
             if(written == 0) return -1;
-            buf_.poll(written);
+            buf_.poll(written * sizeof(char_type));
         }
         return 0;
     }
@@ -159,7 +159,7 @@ protected:
     // If so, these -1's in our implementation are overstated
     int sync()
     {
-        const unsigned unused = buf_.unused();
+        const unsigned unused = buf_.unused() / sizeof(char_type);
 
         if(unused == 0)    return -1;
 
@@ -169,14 +169,14 @@ protected:
 
         if(actually_read == 0)  return -1;
 
-        buf_.offer_end(actually_read);
+        buf_.offer_end(actually_read * sizeof(char_type));
 
         return 0;
     }
 
     constexpr streamsize xin_avail() const
     {
-        return buf_.used();
+        return buf_.used() / sizeof(char_type);
     }
 
     // Only what's buffered counts as available.  Nothing buffered is the definite end only if
@@ -238,7 +238,7 @@ protected:
 
     void gbump(int count)
     {
-        buf_.poll(count);
+        buf_.poll(count * sizeof(char_type));
     }
 
     char_type xsgetc() const { return *gptr(); }
@@ -252,7 +252,7 @@ public:
 
     const char_type* egptr() const
     {
-        return gptr() + buf_.contiguous();
+        return gptr() + buf_.contiguous() / sizeof(char_type);
     }
 };
 
-- 
2.43.0


From 983b1d9723363e746db0bef6c04c3cc875fdaf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:44 +0000
Subject: [PATCH 097/116] fix: fill characters from '@' to '_' came out as
 control characters

---
 src/estd/internal/ios_base.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/ios_base.h b/src/estd/internal/ios_base.h
index c670124..263c0d4 100644
--- a/src/estd/internal/ios_base.h
+++ b/src/estd/internal/ios_base.h
@@ -225,7 +225,8 @@ protected:
         positioning alignment : 2;  // DEBT: Unused
 
         // DEBT: Presumes ASCII, 7-bit.  Unicode and friends are out
-        char fillchar : 6;          // + 32 (from ' ' to '`' ASCII)
+        // unsigned, since otherwise '@' to '_' would come out as control characters
+        unsigned char fillchar : 6; // + 32 (from ' ' to '_' ASCII)
         //bool showbase : 1;          // DEBT: Unused
 
         ESTD_CPP_CONSTEXPR_RET ostream_internal() :
-- 
2.43.0


From d8e9a865e9ebf56a5639993be8f799a644dd372c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:44 +0000
Subject: [PATCH 098/116] fix: reading a floating point number with many
 decimal places gave NaN or zero

---
 src/estd/internal/locale/iterated/num_get.h | 27 ++++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/estd/internal/locale/iterated/num_get.h b/src/estd/internal/locale/iterated/num_get.h
index 62eaa56..e1595cd 100644
--- a/src/estd/internal/locale/iterated/num_get.h
+++ b/src/estd/internal/locale/iterated/num_get.h
@@ -95,18 +95,24 @@ struct num_get
         static_assert(base == 10, "Only base 10 supported for floating point");
 #endif
 
-        v *= base;
-        if(positive)
-            v += n;
-        else
-            v -= n;
-
         if(state_.decimal_place_ != 0)
         {
+            const T limit = numeric_limits<T>::max() / (base * base);
+
+            // Digits this far down make no difference anymore, other than to overflow
+            // v or decimal_place_
+            if(state_.decimal_place_ == 255 || v > limit || v < -limit) return true;
+
             // DEBT: Side effects
             ++state_.decimal_place_;
         }
 
+        v *= base;
+        if(positive)
+            v += n;
+        else
+            v -= n;
+
         return true;
     }
 
@@ -183,7 +189,16 @@ struct num_get
             // https://stackoverflow.com/questions/18581560/any-way-faster-than-pow-to-compute-an-integer-power-of-10-in-c
 
             for(int i = state_.decimal_place_; --i;)
+            {
+                // more decimal places than T has room for in a divider
+                if(divider > numeric_limits<T>::max() / base)
+                {
+                    v /= divider;
+                    divider = 1;
+                }
+
                 divider *= base;
+            }
 
             v /= divider;
         }
-- 
2.43.0


From 4cfb0bfdc2c27d7b55cf11cf6cdb9272ea3ddb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:47 +0000
Subject: [PATCH 099/116] fix: swapping an integer with itself made it zero

---
 src/estd/utility.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/estd/utility.h b/src/estd/utility.h
index 18090e2..c263854 100644
--- a/src/estd/utility.h
+++ b/src/estd/utility.h
@@ -195,6 +195,9 @@ namespace internal {
 template <class T>
 inline void xor_swap(T& a, T& b)
 {
+    // a value exchanged with itself stays, rather than cancelling itself out
+    if(&a == &b) return;
+
     a ^= b;
     b ^= a;
     a ^= b;
-- 
2.43.0


From ec990a2073dcf0c2491099f616490215c856f22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:04 +0000
Subject: [PATCH 100/116] fix: handles of memory pool blocks beyond the 128th
 led elsewhere

---
 src/estd/internal/memory/v1/pool.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/estd/internal/memory/v1/pool.h b/src/estd/internal/memory/v1/pool.h
index ee4c278..a39e37f 100644
--- a/src/estd/internal/memory/v1/pool.h
+++ b/src/estd/internal/memory/v1/pool.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include "../../../type_traits.h"
+
 // DEBT: Temporarily using 'internal' only as we bring it up
 namespace estd { namespace internal { namespace memory { inline namespace v1 {
 
@@ -137,12 +139,16 @@ public:
 
     static constexpr unsigned max_blocks() { return blocks; }
 
-    int8_t to_handle(void* value) const
+    // As small as can tell every block apart
+    using handle_type = typename conditional<(blocks <= 0x80), int8_t,
+        typename conditional<(blocks <= 0x8000), int16_t, int32_t>::type>::type;
+
+    handle_type to_handle(void* value) const
     {
         return ((control*)value - storage_);
     }
 
-    void* from_handle(int8_t handle)
+    void* from_handle(handle_type handle)
     {
         return &storage_[handle];
     }
@@ -189,7 +195,7 @@ public:
         base_type::free(t);
     }
 
-    T* from_handle(int8_t handle)
+    T* from_handle(typename base_type::handle_type handle)
     {
         return (T*)base_type::from_handle(handle);
     }
-- 
2.43.0


From db40cec29e939fa7d12b72a5ecd1f1b11ee8f562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:09 +0000
Subject: [PATCH 101/116] fix: maps of more than 32768 slots lost entries after
 an erasure

---
 src/estd/internal/container/unordered/traits.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/estd/internal/container/unordered/traits.h b/src/estd/internal/container/unordered/traits.h
index 4c3de61..71f7278 100644
--- a/src/estd/internal/container/unordered/traits.h
+++ b/src/estd/internal/container/unordered/traits.h
@@ -79,6 +79,11 @@ struct unordered_map_traits_control
         align_mapped_value > align_key_value ?
         align_mapped_value : align_key_value;
 
+    // 15 bits of bucket# can't tell buckets past 32768 apart, so use what room there is
+    using meta_int = conditional_t<
+        (align_mapped_value >= alignof(uint32_t) && sizeof(mapped_type) >= sizeof(uint32_t)),
+        uint32_t, uint16_t>;
+
     // Mainly used for unordered_map since it has an unused area when key is null
     union alignas(align_value) meta
     {
@@ -87,12 +92,12 @@ struct unordered_map_traits_control
         struct
         {
             // aka "sparse" - exists specifically to mark as deleted, but physically unmoved
-            uint16_t marked_for_gc : 1;
+            meta_int marked_for_gc : 1;
             // which bucket this empty slot *used to* belong to
-            uint16_t bucket : 15;
+            meta_int bucket : sizeof(meta_int) * 8 - 1;
         };
 
-        uint16_t raw;
+        meta_int raw;
 
         //operator mapped_type& () { return * (mapped_type*) storage; }
         //constexpr operator const mapped_type& () const { return * (mapped_type*) storage; }
-- 
2.43.0


From a5c0013b2b035991dcbd45c83c532e087a1e20c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:22 +0000
Subject: [PATCH 102/116] fix: assigning one vector or string element to
 another did nothing

---
 src/estd/internal/container/accessor.h             | 4 +++-
 src/estd/internal/container/iterator.h             | 4 ++--
 src/estd/internal/container/traditional_accessor.h | 8 ++++++++
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/estd/internal/container/accessor.h b/src/estd/internal/container/accessor.h
index feba856..c773e63 100644
--- a/src/estd/internal/container/accessor.h
+++ b/src/estd/internal/container/accessor.h
@@ -202,9 +202,11 @@ public:
         return *this;
     }
 
+    // Assigns what's referred to, like the above.  Doesn't refer to something else henceforth
     accessor& operator=(const accessor& assign_from)
     {
-        new (this) accessor (assign_from);
+        operator=(assign_from.clock());
+        assign_from.cunlock();
         return *this;
     }
 };
diff --git a/src/estd/internal/container/iterator.h b/src/estd/internal/container/iterator.h
index c962ccb..a9dd706 100644
--- a/src/estd/internal/container/iterator.h
+++ b/src/estd/internal/container/iterator.h
@@ -207,8 +207,8 @@ public:
 
     this_type& operator=(const this_type& copy_from)
     {
-        current = copy_from.current;
-        //new (&current) accessor(copy_from.current);
+        // Assigning an accessor assigns what it refers to
+        current.h_exp() = copy_from.current.h_exp();
         return *this;
     }
 };
diff --git a/src/estd/internal/container/traditional_accessor.h b/src/estd/internal/container/traditional_accessor.h
index 05f7fbc..a2da64d 100644
--- a/src/estd/internal/container/traditional_accessor.h
+++ b/src/estd/internal/container/traditional_accessor.h
@@ -67,6 +67,14 @@ struct traditional_accessor : locking_accessor<impl::traditional_accessor<T> >
         base_type::operator=(copy_from);
         return *this;
     }
+
+    constexpr traditional_accessor(const traditional_accessor&) = default;
+
+    // Assigns what's referred to, like the above.  Doesn't refer to something else henceforth
+    traditional_accessor& operator=(const traditional_accessor& copy_from)
+    {
+        return operator=(copy_from.clock());
+    }
 };
 
 
-- 
2.43.0


From dbfaaf2787c83e09037f559ce8e3180d2f5dfd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:22 +0000
Subject: [PATCH 103/116] fix: inserting a vector's own element or a string's
 own part inserted something else

---
 src/estd/internal/dynamic_array.h |  3 +++
 src/estd/internal/string.h        | 41 +++++++++++++++++++++++++++++--
 2 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index fd9f416..d84d4ba 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -317,6 +317,9 @@ protected:
         // to_insert_pos to to_insert_pos + 1
         relocate_backward(data + to_insert_pos, data + sz, data + sz + 1);
 
+        // May be one of our own elements, and if so may have just been relocated
+        if(to_insert_value >= data + to_insert_pos && to_insert_value < data + sz) ++to_insert_value;
+
         new (data + to_insert_pos) value_type(*to_insert_value);
 
         unlock();
diff --git a/src/estd/internal/string.h b/src/estd/internal/string.h
index bd376c9..6164b27 100644
--- a/src/estd/internal/string.h
+++ b/src/estd/internal/string.h
@@ -259,11 +259,39 @@ public:
         return {};
     }
 
+private:
+    // Moves what has been appended since size was 'sz' to where it belongs
+    ESTD_CPP_CONSTEXPR(14) void rotate_appended(size_type index, size_type sz)
+    {
+        const size_type new_sz = base_type::size();
+        pointer data = base_type::lock();
+
+        estd::reverse(data + index, data + sz);
+        estd::reverse(data + sz, data + new_sz);
+        estd::reverse(data + index, data + new_sz);
+
+        base_type::unlock();
+    }
+
+public:
     ESTD_CPP_CONSTEXPR(14) basic_string& insert(size_type index, const_pointer s, size_t count)
     {
         assert_mutable();
 
-        base_type::raw_insert(index, s, s + count);
+        const size_type sz = base_type::size();
+        const_pointer data = base_type::clock();
+        const bool own = sz > 0 && s >= data && s < data + sz;
+
+        base_type::cunlock();
+
+        if(own)
+        {
+            // raw_insert would relocate what's to be inserted
+            append(s, count);
+            rotate_appended(index, sz);
+        }
+        else
+            base_type::raw_insert(index, s, s + count);
 
         return *this;
     }
@@ -278,9 +306,18 @@ public:
     {
         assert_mutable();
 
+        if(static_cast<const void*>(&str) == this)
+        {
+            const size_type sz = base_type::size();
+
+            append(str);
+            rotate_appended(index, sz);
+            return *this;
+        }
+
         const_pointer src = str.clock();
 
-        base_type::raw_insert(index, src, src + str.size());
+        insert(index, src, str.size());
 
         str.cunlock();
 
-- 
2.43.0


From aa4f12686850e699b8966e63238b809b9f32b8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:22 +0000
Subject: [PATCH 104/116] fix: assigning a string a part of itself cut it short

---
 src/estd/internal/dynamic_array.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index d84d4ba..9527f43 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -210,9 +210,11 @@ protected:
             return;
         }
 
-        if(ensure_total_size(len) == false) return;
+        if(ensure_total_capacity(len) == false) return;
 
-        base_type::assign(buf, len);
+        // Size comes last since buf may be a part of our own content, which termination would cut off
+        if(len > 0) base_type::assign(buf, len);
+        if(impl().is_allocated()) impl().size(len);
     }
 
     // Relocates [first, last) so that it ends at d_last, back to front since the two overlap.
@@ -728,9 +730,11 @@ public:
             return;
         }
 
-        if(ensure_total_size(len) == false) return;
+        if(ensure_total_capacity(len) == false) return;
 
-        helper::copy_from(*this, 0, copy_from, len);
+        // Size comes last, since copy_from may be a view of our own content
+        if(len > 0) helper::copy_from(*this, 0, copy_from, len);
+        if(impl().is_allocated()) impl().size(len);
     }
 
 
-- 
2.43.0


From 884af32e97e28035201dc305d7a418b641b0cd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:45 +0000
Subject: [PATCH 105/116] fix: variant::emplace<I> makes the alternative asked
 for, not the first of its type

---
 src/estd/internal/variant.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/variant.h b/src/estd/internal/variant.h
index c85ae7b..d41fd31 100644
--- a/src/estd/internal/variant.h
+++ b/src/estd/internal/variant.h
@@ -373,7 +373,16 @@ public:
     {
         typedef variant_alternative_t<I> T_i;
 
-        return emplace<T_i>(std::forward<TArgs>(args)...);
+        destroy_if_valid();
+
+        index_ = variant_npos();
+
+        // By index, since T_i may be amongst Types more than once
+        T_i* const v = base_type::template emplace<I>(std::forward<TArgs>(args)...);
+
+        index_ = I;
+
+        return *v;
     }
 };
 
-- 
2.43.0


From 3c9552a626e6923bcc2f54910aaa7ba7ac329f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:45 +0000
Subject: [PATCH 106/116] fix: a one-shot function model destroys its target
 when the call throws

---
 src/estd/internal/impl/functional/fnptr2.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/estd/internal/impl/functional/fnptr2.h b/src/estd/internal/impl/functional/fnptr2.h
index 5dd98fc..7402491 100644
--- a/src/estd/internal/impl/functional/fnptr2.h
+++ b/src/estd/internal/impl/functional/fnptr2.h
@@ -147,6 +147,14 @@ struct function_fnptr2_opt<Result(Args...)>
         }
     };
 
+    // Destroys F once its one call is over, also if that throws
+    template <typename F>
+    struct one_shot
+    {
+        F& f_;
+
+        ~one_shot() { f_.~F(); }
+    };
 
     template <typename F>
     struct model_void : model_base
@@ -166,9 +174,8 @@ struct function_fnptr2_opt<Result(Args...)>
 
         static void exec(void* this_, Args...args)
         {
-            F& f = ((model_void*)this_)->f;
-            f(std::forward<Args>(args)...);
-            f.~F();
+            one_shot<F> f{((model_void*)this_)->f};
+            f.f_(std::forward<Args>(args)...);
         }
     };
 
@@ -190,10 +197,8 @@ struct function_fnptr2_opt<Result(Args...)>
 
         static Result exec(void* this_, Args...args)
         {
-            F& f = ((model_nonvoid*)this_)->f;
-            Result r = f(std::forward<Args>(args)...);
-            f.~F();
-            return r;
+            one_shot<F> f{((model_nonvoid*)this_)->f};
+            return f.f_(std::forward<Args>(args)...);
         }
     };
 
-- 
2.43.0


From de5ec5d6fcbe4256701e83586261f44ba0b56090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:43 +0000
Subject: [PATCH 107/116] fix: virtual_memory::allocate takes an exact fit off
 the head of the free list

---
 src/estd/exp/memory/memory_pool2.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/estd/exp/memory/memory_pool2.h b/src/estd/exp/memory/memory_pool2.h
index 442f54b..2d19bd9 100644
--- a/src/estd/exp/memory/memory_pool2.h
+++ b/src/estd/exp/memory/memory_pool2.h
@@ -205,7 +205,7 @@ struct virtual_memory
     handle_index allocate(size_type size)
     {
         item* i = free_head,
-            *prev;
+            *prev = NULLPTR;
 
         // TODO: coerce size to be aligned so that allocations and frees also have aligned size
 
@@ -218,7 +218,10 @@ struct virtual_memory
             handle_index hi;
             if(i->chunk_size == size)
             {
-                prev->next = i->next;
+                if(prev == NULLPTR)
+                    free_head = i->next;
+                else
+                    prev->next = i->next;
 
                 handle* h = get_free_handle(hi);
                 h->data = (pointer) i;
-- 
2.43.0


From 009618573e86191da6689d22ab580445e96a6b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:43 +0000
Subject: [PATCH 108/116] fix: virtual_memory::allocate refuses when no handle
 is left

---
 src/estd/exp/memory/memory_pool2.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/estd/exp/memory/memory_pool2.h b/src/estd/exp/memory/memory_pool2.h
index 2d19bd9..bcac825 100644
--- a/src/estd/exp/memory/memory_pool2.h
+++ b/src/estd/exp/memory/memory_pool2.h
@@ -206,6 +206,10 @@ struct virtual_memory
     {
         item* i = free_head,
             *prev = NULLPTR;
+        handle_index hi;
+        handle* h = get_free_handle(hi);
+
+        if(h == NULLPTR) return -1;
 
         // TODO: coerce size to be aligned so that allocations and frees also have aligned size
 
@@ -215,7 +219,6 @@ struct virtual_memory
 
         while(i != NULLPTR)
         {
-            handle_index hi;
             if(i->chunk_size == size)
             {
                 if(prev == NULLPTR)
@@ -223,7 +226,6 @@ struct virtual_memory
                 else
                     prev->next = i->next;
 
-                handle* h = get_free_handle(hi);
                 h->data = (pointer) i;
                 h->chunk_size = size;
 
@@ -231,7 +233,6 @@ struct virtual_memory
             }
             else if(i->chunk_size > size)
             {
-                handle* h = get_free_handle(hi);
                 h->data = ((pointer) i) + (i->chunk_size - size);
                 h->chunk_size = size;
 
-- 
2.43.0


From 5cd5ce3bc368549d80c91ec63b2226656e96afd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:43 +0000
Subject: [PATCH 109/116] fix: virtual_memory::allocate leaves no remainder too
 small to track itself

---
 src/estd/exp/memory/memory_pool2.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/estd/exp/memory/memory_pool2.h b/src/estd/exp/memory/memory_pool2.h
index bcac825..e69181e 100644
--- a/src/estd/exp/memory/memory_pool2.h
+++ b/src/estd/exp/memory/memory_pool2.h
@@ -219,7 +219,8 @@ struct virtual_memory
 
         while(i != NULLPTR)
         {
-            if(i->chunk_size == size)
+            // a remainder which couldn't track itself goes along with the block
+            if(i->chunk_size >= size && i->chunk_size - size < sizeof(item))
             {
                 if(prev == NULLPTR)
                     free_head = i->next;
@@ -227,7 +228,7 @@ struct virtual_memory
                     prev->next = i->next;
 
                 h->data = (pointer) i;
-                h->chunk_size = size;
+                h->chunk_size = i->chunk_size;
 
                 return hi;
             }
-- 
2.43.0


From e2b1db04f326c09ada4ecaf25a2687ec042ee6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:43 +0000
Subject: [PATCH 110/116] fix: virtual_memory compaction continues from the
 node which absorbed, not the absorbed one

---
 src/estd/exp/memory/memory_pool2.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/estd/exp/memory/memory_pool2.h b/src/estd/exp/memory/memory_pool2.h
index e69181e..681e02f 100644
--- a/src/estd/exp/memory/memory_pool2.h
+++ b/src/estd/exp/memory/memory_pool2.h
@@ -335,15 +335,17 @@ struct virtual_memory
                 i_prev->next = i_physical_0;
 
             if(maint_absorb(i_physical_0, i_physical_1))
-                i = i_physical_1;
+            {
+                compact_state.evaluating = i_physical_0;
+                return true;
+            }
         }
         else
         {
             item* i_physical_0 = i;
             item* i_physical_1 = i->next;
 
-            if(maint_absorb(i_physical_0, i_physical_1))
-                i = i_physical_1;
+            if(maint_absorb(i_physical_0, i_physical_1)) return true;
         }
 
         compact_state.evaluating_prev = i;
-- 
2.43.0


From 54c4be1a787844871a4078a9e177ac8b85521221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:43 +0000
Subject: [PATCH 111/116] fix: virtual_memory compaction starts over when the
 free list changes in between

---
 src/estd/exp/memory/memory_pool2.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/estd/exp/memory/memory_pool2.h b/src/estd/exp/memory/memory_pool2.h
index 681e02f..9305bd7 100644
--- a/src/estd/exp/memory/memory_pool2.h
+++ b/src/estd/exp/memory/memory_pool2.h
@@ -229,6 +229,7 @@ struct virtual_memory
 
                 h->data = (pointer) i;
                 h->chunk_size = i->chunk_size;
+                mode = maintenance_mode::uninitialized;
 
                 return hi;
             }
@@ -265,6 +266,8 @@ struct virtual_memory
         h.data = NULLPTR;
 
         free_head = i;
+
+        mode = maintenance_mode::uninitialized;
     }
 
     size_type total_free(size_type* node_counter = NULLPTR) const
-- 
2.43.0


From d1460dd3dc2ad5352ca3f2bf8fdacc4f32eb91ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:43 +0000
Subject: [PATCH 112/116] fix: virtual_memory compaction ends with the list,
 and when a pass changes nothing

---
 src/estd/exp/memory/memory_pool2.h | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/estd/exp/memory/memory_pool2.h b/src/estd/exp/memory/memory_pool2.h
index 9305bd7..2fded42 100644
--- a/src/estd/exp/memory/memory_pool2.h
+++ b/src/estd/exp/memory/memory_pool2.h
@@ -313,7 +313,7 @@ struct virtual_memory
         item* i = compact_state.evaluating;
         item* i_prev = compact_state.evaluating_prev;
 
-        if(i->next == NULLPTR) return false;
+        if(i == NULLPTR || i->next == NULLPTR) return false;
 
         // if next free node is positioned before this one
         if(i->next < i)
@@ -357,6 +357,13 @@ struct virtual_memory
         return true;
     }
 
+    void compact_begin()
+    {
+        compact_state.evaluating = free_head;
+        compact_state.evaluating_prev = NULLPTR;
+        compact_state.items_processed = 0;
+    }
+
     void maint_move()
     {
 
@@ -368,19 +375,18 @@ struct virtual_memory
         {
             case maintenance_mode::uninitialized:
                 mode = maintenance_mode::compact;
-                compact_state.evaluating = free_head;
-                compact_state.evaluating_prev = NULLPTR;
-                mode = maintenance_mode::compact;
+                compact_begin();
                 maint();
                 break;
 
             case maintenance_mode::compact:
-                compact_state.items_processed = 0;
-                maint_compact();
+                if(maint_compact()) break;
+
+                // end of the list: another pass, unless this one had nothing to do
                 if(compact_state.items_processed == 0)
-                {
                     mode = maintenance_mode::move;
-                }
+                else
+                    compact_begin();
                 break;
 
             case maintenance_mode::move:
-- 
2.43.0


From 679c8c9054c595ddba661a716abec661421b79bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:05 +0000
Subject: [PATCH 113/116] fix: the hash of an empty optional does not look at
 the value it has not got

---
 src/estd/optional.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/estd/optional.h b/src/estd/optional.h
index bbb9ce8..ab940e3 100644
--- a/src/estd/optional.h
+++ b/src/estd/optional.h
@@ -467,4 +467,16 @@ struct hash<optional<T, Base>>
     }
 };
 
+// Unlike layer1, without a value there's nothing to look at
+template <class T>
+struct hash<optional<T, internal::optional_base<T> > >
+{
+    constexpr size_t operator()(const optional<T>& v) const
+    {
+        using underlying = hash<estd::remove_const_t<T>>;
+
+        return v.has_value() ? underlying{}(*v) : 0;
+    }
+};
+
 }
-- 
2.43.0


From 9589787a971cad4263af7510692a6f7dc0eed97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:53 +0000
Subject: [PATCH 114/116] fix: sleep_for on Arduino neither wakes up early nor
 takes a negative duration for a long one

---
 src/estd/port/arduino/thread.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/estd/port/arduino/thread.h b/src/estd/port/arduino/thread.h
index eb727ad..60f132d 100644
--- a/src/estd/port/arduino/thread.h
+++ b/src/estd/port/arduino/thread.h
@@ -10,10 +10,19 @@ namespace estd { namespace this_thread {
 template< class Rep, class Period >
 void sleep_for( const chrono::duration<Rep, Period>& sleep_duration )
 {
+    typedef chrono::duration<Rep, Period> duration;
+
+    if(!(sleep_duration.count() > 0)) return;
+
     // TODO: Pretty sure we can do a straight chrono::stead_clock::duration instance here
     chrono::arduino_clock::rep count =
             estd::chrono::duration_cast<chrono::arduino_clock::duration>(sleep_duration).count();
 
+    // a partial millisecond counts as a whole one, so as not to wake up early
+    if(estd::chrono::duration_cast<duration>(
+        chrono::arduino_clock::duration(count)).count() < sleep_duration.count())
+        ++count;
+
     delay(count);
 }
 
-- 
2.43.0


From 79cac1e3b51a7b306e596412b99da399309ffd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:42 +0000
Subject: [PATCH 115/116] fix: text from program memory which an Arduino device
 does not take is reported by the stream

---
 src/estd/port/arduino/ostream.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/estd/port/arduino/ostream.h b/src/estd/port/arduino/ostream.h
index 62269f9..104bf15 100644
--- a/src/estd/port/arduino/ostream.h
+++ b/src/estd/port/arduino/ostream.h
@@ -13,7 +13,10 @@ template<class Streambuf, class Base>
 inline basic_ostream<Streambuf, Base>& operator <<(
     basic_ostream<Streambuf, Base>& os, const __FlashStringHelper* rhs)
 {
-    os.rdbuf()->underlying().print(rhs);
+    const size_t written = os.rdbuf()->underlying().print(rhs);
+
+    if(written != strlen_P(reinterpret_cast<const char*>(rhs)))
+        os.setstate(ios_base::failbit);
 
     return os;
 
-- 
2.43.0


From 8e56ada9aa3119409c45d36fcb4560c181e3cc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:44:26 +0000
Subject: [PATCH 116/116] fix: a list that allocates its nodes frees those
 removed by predicate

---
 src/estd/forward_list.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/estd/forward_list.h b/src/estd/forward_list.h
index 66b6aaf..228aabf 100644
--- a/src/estd/forward_list.h
+++ b/src/estd/forward_list.h
@@ -223,6 +223,8 @@ public:
                 else
                     set_next(previous, _next);
 
+                get_traits().deallocate(current);
+
                 if (first_only) return;
             }
             else
-- 
2.43.0

