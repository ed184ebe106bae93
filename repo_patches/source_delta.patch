From 4397f93a4872273296092a1336aa41ee23d9a7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:01 +0000
Subject: [PATCH 01/18] fix: signal: release the visited slot when its target
 throws

---
 include/kl/signal.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/kl/signal.hpp b/include/kl/signal.hpp
index 578d981..27f6539 100644
--- a/include/kl/signal.hpp
+++ b/include/kl/signal.hpp
@@ -612,6 +612,9 @@ public:
                 current->add_ref();
         }
         KL_DEFER({
+            // Still holding a ref to it only if its target has thrown
+            if (current)
+                current->release();
             if (last)
                 last->release();
 
-- 
2.43.0


From d0178bf93f0baa2c6a6ac4716b9058867866aa80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:17 +0000
Subject: [PATCH 02/18] fix: signal: release removed slots after unlocking the
 signal

Destructor of a slot's target can use the same signal (e.g. it owns a scoped
connection to it) which dead-locked, and saw the finished emission as the
current one.
---
 include/kl/signal.hpp | 66 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 54 insertions(+), 12 deletions(-)

diff --git a/include/kl/signal.hpp b/include/kl/signal.hpp
index 27f6539..8e620f8 100644
--- a/include/kl/signal.hpp
+++ b/include/kl/signal.hpp
@@ -428,8 +428,9 @@ public:
             deferred_cleanup_ = other.deferred_cleanup_;
             other.deferred_cleanup_ = false;
         }
+        removed_slots removed;
         std::lock_guard<std::mutex> lock{mutex_};
-        rebind_locked();
+        rebind_locked(removed);
     }
 
     /**
@@ -617,11 +618,14 @@ public:
                 current->release();
             if (last)
                 last->release();
+            // Targets of the removed slots shouldn't see the finished emission
+            emission_state = prev_emission_state;
 
+            removed_slots removed;
             std::lock_guard<std::mutex> lock{mutex_};
             const auto prev = active_emissions_--;
             if (prev == 1)
-                cleanup_invalidated_slots_locked();
+                cleanup_invalidated_slots_locked(removed);
         });
 
         while (current)
@@ -660,6 +664,7 @@ public:
      */
     void disconnect_all_slots() noexcept
     {
+        removed_slots removed;
         std::lock_guard<std::mutex> lock{mutex_};
         const bool can_remove = !emission_in_progress();
         for (slot *iter = slots_, *prev = nullptr; iter;)
@@ -667,7 +672,7 @@ public:
             iter->invalidate();
             if (can_remove)
             {
-                iter = remove_slot_locked(*iter, prev);
+                iter = remove_slot_locked(*iter, prev, removed);
             }
             else
             {
@@ -704,6 +709,7 @@ public:
     {
         if (&left == &right)
             return;
+        removed_slots removed;
         std::scoped_lock lock{left.mutex_, right.mutex_};
         terminate_if_emitting_locked(left.emission_in_progress() ||
                                      right.emission_in_progress());
@@ -712,11 +718,45 @@ public:
         swap(left.tail_, right.tail_);
         swap(left.deferred_cleanup_, right.deferred_cleanup_);
 
-        left.rebind_locked();
-        right.rebind_locked();
+        left.rebind_locked(removed);
+        right.rebind_locked(removed);
     }
 
 private:
+    struct slot;
+
+    // Collects the slots removed from the list and releases them on scope exit.
+    // Releasing a slot can run arbitrary code (destructor of its target), also
+    // the one using this very signal, so it must outlive the lock of a mutex_.
+    class removed_slots
+    {
+    public:
+        removed_slots() noexcept = default;
+        removed_slots(const removed_slots&) = delete;
+        removed_slots& operator=(const removed_slots&) = delete;
+
+        ~removed_slots()
+        {
+            while (head_)
+            {
+                slot* removed = head_;
+                head_ = std::exchange(removed->next, nullptr);
+                removed->release();
+            }
+        }
+
+        void push_back(slot& removed) noexcept
+        {
+            removed.next = nullptr;
+            (tail_ ? tail_->next : head_) = &removed;
+            tail_ = &removed;
+        }
+
+    private:
+        slot* head_{nullptr};
+        slot* tail_{nullptr};
+    };
+
     static void terminate_if_emitting_locked(bool emission_in_progress) noexcept
     {
         if (!emission_in_progress)
@@ -728,6 +768,7 @@ private:
 
     void disconnect(std::uintptr_t id) noexcept override
     {
+        removed_slots removed;
         std::lock_guard<std::mutex> lock{mutex_};
         const bool can_remove = !emission_in_progress();
         for (slot *iter = slots_, *prev = nullptr; iter;
@@ -739,7 +780,7 @@ private:
             iter->invalidate();
             if (can_remove)
             {
-                remove_slot_locked(*iter, prev);
+                remove_slot_locked(*iter, prev, removed);
             }
             else
             {
@@ -750,9 +791,9 @@ private:
         }
     }
 
-    void rebind_locked() noexcept
+    void rebind_locked(removed_slots& removed) noexcept
     {
-        cleanup_invalidated_slots_locked();
+        cleanup_invalidated_slots_locked(removed);
 
         // Rebind back-pointer to new signal
         for (auto iter = slots_; iter; iter = iter->next)
@@ -761,7 +802,7 @@ private:
         }
     }
 
-    void cleanup_invalidated_slots_locked() noexcept
+    void cleanup_invalidated_slots_locked(removed_slots& removed) noexcept
     {
         if (!deferred_cleanup_)
             return;
@@ -782,7 +823,7 @@ private:
             }
             else
             {
-                iter = remove_slot_locked(*iter, prev);
+                iter = remove_slot_locked(*iter, prev, removed);
             }
         }
         deferred_cleanup_ = false;
@@ -847,7 +888,8 @@ private:
         }
     }
 
-    slot* remove_slot_locked(slot& to_remove, slot* prev) noexcept
+    slot* remove_slot_locked(slot& to_remove, slot* prev,
+                             removed_slots& removed) noexcept
     {
         assert(!emission_in_progress());
         slot* next = to_remove.next;
@@ -857,7 +899,7 @@ private:
             slots_ = next;
         if (tail_ == &to_remove)
             tail_ = prev ? prev : slots_;
-        to_remove.release();
+        removed.push_back(to_remove);
         return next;
     }
 };
-- 
2.43.0


From beb5ef619405edc39a94a28a5a95b167ed7e9f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:52 +0000
Subject: [PATCH 03/18] fix: signal: make connection::disconnect() safe when it
 destroys its owner

---
 include/kl/signal.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/kl/signal.hpp b/include/kl/signal.hpp
index 8e620f8..271cbbd 100644
--- a/include/kl/signal.hpp
+++ b/include/kl/signal.hpp
@@ -175,9 +175,10 @@ public:
     {
         if (!slot_)
             return;
-        slot_->disconnect();
-        slot_->release();
-        slot_ = nullptr;
+        // This connection may not outlive the slot it refers to
+        auto* slot = std::exchange(slot_, nullptr);
+        slot->disconnect();
+        slot->release();
     }
 
     /// Returns whether the connection still refers to a connected slot.
-- 
2.43.0


From 09a76e3a6755de72a99a3d113c3701fc77b3c103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:00 +0000
Subject: [PATCH 04/18] fix: serialization: keep enclosing fields out of
 extra_fields nested in a flattened field

Decoding or patching an object whose flattened member has an extra_fields
map stored the enclosing object's own fields in that map as well, so the
result did not equal what had been encoded, and encoding it again failed
with a name collision.
---
 include/kl/detail/serialization.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/kl/detail/serialization.hpp b/include/kl/detail/serialization.hpp
index 0a0da12..749b6ce 100644
--- a/include/kl/detail/serialization.hpp
+++ b/include/kl/detail/serialization.hpp
@@ -900,7 +900,7 @@ void deserialize_adl(FixedSizeRange& out, const typename Backend::value_type& va
 template <typename Backend, typename Reflectable, typename Context,
           enable_if<ctti::is_reflectable<Reflectable>> = true>
 void deserialize_adl(Reflectable& out, const typename Backend::value_type& value,
-                     Context& ctx)
+                     Context& ctx, const string_set* enclosing_names = nullptr)
 try
 {
     static_assert(deserialize_field_names_validator<Reflectable>::validate(),
@@ -908,7 +908,9 @@ try
 
     if (Backend::is_map(value))
     {
-        const auto* reserved_names = reserved_field_names<Reflectable>();
+        // extra_fields of a flattened field must not pick up fields of the enclosing objects
+        const auto* reserved_names =
+            enclosing_names ? enclosing_names : reserved_field_names<Reflectable>();
 
         ctti::reflect_object(out, [&value, &reserved_names, &ctx](auto field) {
             check_field_attributes<decltype(field)>();
@@ -952,7 +954,7 @@ try
                 {
                     if constexpr (Field::template has<attributes::flatten_t>())
                     {
-                        Backend::deserialize(field.value(), value, ctx);
+                        deserialize_adl<Backend>(field.value(), value, ctx, reserved_names);
                         return;
                     }
 
@@ -1122,7 +1124,7 @@ void deserialize_adl(std::optional<T>& out, const typename Backend::value_type&
 template <typename Backend, typename Reflectable, typename Context,
           enable_if<ctti::is_reflectable<Reflectable>> = true>
 void patch_adl(Reflectable& out, const typename Backend::value_type& value,
-               Context& ctx)
+               Context& ctx, const string_set* enclosing_names = nullptr)
 try
 {
     static_assert(deserialize_field_names_validator<Reflectable>::validate(),
@@ -1135,7 +1137,8 @@ try
         return;
     }
 
-    const auto* reserved_names = reserved_field_names<Reflectable>();
+    const auto* reserved_names =
+        enclosing_names ? enclosing_names : reserved_field_names<Reflectable>();
 
     ctti::reflect_object(out, [&value, &reserved_names, &ctx](auto field) {
         check_field_attributes<decltype(field)>();
@@ -1188,7 +1191,7 @@ try
             {
                 if constexpr (Field::template has<attributes::flatten_t>())
                 {
-                    Backend::patch(field.value(), value, ctx);
+                    patch_adl<Backend>(field.value(), value, ctx, reserved_names);
                     return;
                 }
 
-- 
2.43.0


From 1f6e465dc059b92a61e9f63d58da547aae897d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:11 +0000
Subject: [PATCH 05/18] fix: resources: mark what was below a deleted optional
 collection as changed

---
 include/kl/resource_op.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kl/resource_op.hpp b/include/kl/resource_op.hpp
index 08ead13..8d460af 100644
--- a/include/kl/resource_op.hpp
+++ b/include/kl/resource_op.hpp
@@ -1061,7 +1061,8 @@ try
                 rollback.commit();
 
                 r.state.modifications.notify_changed(
-                    path, kl::ctti::is_reflectable_v<typename optional_traits::value_type>);
+                    path, detail::has_addressable_descendants_v<
+                              typename optional_traits::value_type>);
 
                 return operation_result{status_code::no_content, {}};
             }
-- 
2.43.0


From 9a3e258f297117d110e621f5cbcab88ff0def043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:16 +0000
Subject: [PATCH 06/18] fix: binary_rw: do not negate the most negative skip
 distance

---
 include/kl/binary_rw.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kl/binary_rw.hpp b/include/kl/binary_rw.hpp
index 3eb0702..5a9615c 100644
--- a/include/kl/binary_rw.hpp
+++ b/include/kl/binary_rw.hpp
@@ -35,7 +35,7 @@ public:
         // Make sure pos_ does not escape of buffer range
         if (off > 0 && static_cast<std::size_t>(off) > left())
             err_ = true;
-        if (off < 0 && static_cast<std::size_t>(-off) > pos_)
+        if (off < 0 && std::size_t{0} - static_cast<std::size_t>(off) > pos_)
             err_ = true;
 
         if (!err_)
-- 
2.43.0


From 51f90b59e33cacfbb17756454003e6de06a7d76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:16 +0000
Subject: [PATCH 07/18] fix: binary_rw: check the length prefix of strings and
 vectors before allocating

---
 include/kl/binary_rw/string.hpp |  7 +++++++
 include/kl/binary_rw/vector.hpp | 10 +++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/kl/binary_rw/string.hpp b/include/kl/binary_rw/string.hpp
index 270174b..c70d347 100644
--- a/include/kl/binary_rw/string.hpp
+++ b/include/kl/binary_rw/string.hpp
@@ -24,6 +24,13 @@ void read_binary(kl::binary_reader& r, std::string& str)
     if (!size)
         return;
 
+    // Don't allocate for more characters than the buffer can possibly hold
+    if (size > r.left())
+    {
+        r.notify_error();
+        return;
+    }
+
     str.resize(size);
     r >> gsl::make_span(str);
 
diff --git a/include/kl/binary_rw/vector.hpp b/include/kl/binary_rw/vector.hpp
index 0a039c5..7802ac7 100644
--- a/include/kl/binary_rw/vector.hpp
+++ b/include/kl/binary_rw/vector.hpp
@@ -3,6 +3,7 @@
 #include "kl/binary_rw.hpp"
 #include "kl/type_traits.hpp"
 
+#include <algorithm>
 #include <vector>
 
 namespace kl {
@@ -39,6 +40,13 @@ void decode_vector(kl::binary_reader& r, std::vector<T>& vec,
 
     if (size)
     {
+        // Don't allocate for more elements than the buffer can possibly hold
+        if (size > r.left() / sizeof(T))
+        {
+            r.notify_error();
+            return;
+        }
+
         vec.resize(size);
         r >> gsl::span<T>{vec};
 
@@ -57,7 +65,7 @@ void decode_vector(kl::binary_reader& r, std::vector<T>& vec,
     const auto size = r.read<std::uint32_t>();
 
     vec.clear();
-    vec.reserve(size);
+    vec.reserve(std::min<std::size_t>(size, r.left()));
 
     for (std::uint32_t i = 0; i < size; ++i)
     {
-- 
2.43.0


From 9a82749641cd034a75fab06fdb9b5c69cf8b038a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:16 +0000
Subject: [PATCH 08/18] fix: binary_rw: leave an optional unset when its
 payload is truncated

---
 include/kl/binary_rw/optional.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/kl/binary_rw/optional.hpp b/include/kl/binary_rw/optional.hpp
index 913d5ce..2697794 100644
--- a/include/kl/binary_rw/optional.hpp
+++ b/include/kl/binary_rw/optional.hpp
@@ -3,6 +3,7 @@
 #include "kl/binary_rw.hpp"
 
 #include <optional>
+#include <utility>
 
 namespace kl {
 
@@ -19,8 +20,14 @@ void read_binary(kl::binary_reader& r, std::optional<T>& opt)
 {
     const auto not_empty = r.read<std::uint8_t>();
     if (!r.err() && not_empty)
-        opt = r.read<T>();
-    else
-        opt = std::nullopt;
+    {
+        T value = r.read<T>();
+        if (!r.err())
+        {
+            opt = std::move(value);
+            return;
+        }
+    }
+    opt = std::nullopt;
 }
 } // namespace kl
-- 
2.43.0


From 719c62db9305cafde50703ba29b5e1b7966ec61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:16 +0000
Subject: [PATCH 09/18] fix: binary_rw: make the string codec inline

---
 include/kl/binary_rw/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kl/binary_rw/string.hpp b/include/kl/binary_rw/string.hpp
index c70d347..485dcff 100644
--- a/include/kl/binary_rw/string.hpp
+++ b/include/kl/binary_rw/string.hpp
@@ -8,7 +8,7 @@
 
 namespace kl {
 
-void write_binary(kl::binary_writer& w, const std::string& str)
+inline void write_binary(kl::binary_writer& w, const std::string& str)
 {
     w << static_cast<std::uint32_t>(str.size());
 
@@ -16,7 +16,7 @@ void write_binary(kl::binary_writer& w, const std::string& str)
         w << gsl::span<const char>{str};
 }
 
-void read_binary(kl::binary_reader& r, std::string& str)
+inline void read_binary(kl::binary_reader& r, std::string& str)
 {
     const auto size = r.read<std::uint32_t>();
     str.clear();
-- 
2.43.0


From d9ceb065c19fd0b1696ff8ba6dcec294eb9370ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:00 +0000
Subject: [PATCH 10/18] fix: path: keep the path unchanged when set() fails and
 allow setting it from itself

---
 include/kl/path.hpp | 1 +
 src/path.cpp        | 9 ++++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/kl/path.hpp b/include/kl/path.hpp
index e905c8c..c479b8d 100644
--- a/include/kl/path.hpp
+++ b/include/kl/path.hpp
@@ -129,6 +129,7 @@ public:
 private:
     [[nodiscard]] static int from_xdigit(char ch) noexcept;
 
+    void parse(std::string_view value);
     void pop_segment();
     void push_decoded_segment(std::string_view segment);
 
diff --git a/src/path.cpp b/src/path.cpp
index 6e38dc7..3892189 100644
--- a/src/path.cpp
+++ b/src/path.cpp
@@ -2,13 +2,20 @@
 #include <kl/path.hpp>
 
 #include <string_view>
+#include <utility>
 
 namespace kl {
 
 void path::set(std::string_view value)
 {
-    clear();
+    // Malformed input leaves the path as it was and the input may be a part of it
+    path parsed;
+    parsed.parse(value);
+    *this = std::move(parsed);
+}
 
+void path::parse(std::string_view value)
+{
     if (value.empty() || value == "/")
         return;
 
-- 
2.43.0


From 49eaca1a6434da9320599d71856311456246405f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:07 +0000
Subject: [PATCH 11/18] fix: exception_info: unset() on a copy no longer
 removes the detail from the original

---
 include/kl/exception_info.hpp | 53 ++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 22 deletions(-)

diff --git a/include/kl/exception_info.hpp b/include/kl/exception_info.hpp
index 41813cf..d1a49af 100644
--- a/include/kl/exception_info.hpp
+++ b/include/kl/exception_info.hpp
@@ -26,6 +26,8 @@ public:
     virtual const void* find(const std::type_info& tag) const noexcept = 0;
     virtual void* find(const std::type_info& tag) noexcept = 0;
     virtual void diagnostic_info(std::ostream& os) = 0;
+    // Returns a new, unlinked node sharing the value with this one
+    virtual std::shared_ptr<exception_info_node_base> clone() const = 0;
 
     std::shared_ptr<exception_info_node_base> next_{};
 };
@@ -78,31 +80,38 @@ class exception_info_node : public exception_info_node_base
 {
 public:
     explicit exception_info_node(const typename Tag::type& value)
-        : value_{value}
+        : value_{std::make_shared<typename Tag::type>(value)}
     {
     }
     explicit exception_info_node(typename Tag::type&& value)
-        : value_{std::move(value)}
+        : value_{std::make_shared<typename Tag::type>(std::move(value))}
     {
     }
 
     const void* find(const std::type_info& tag) const noexcept override
     {
-        return tag == typeid(Tag) ? &value_ : nullptr;
+        return tag == typeid(Tag) ? value_.get() : nullptr;
     }
 
     void* find(const std::type_info& tag) noexcept override
     {
-        return tag == typeid(Tag) ? &value_ : nullptr;
+        return tag == typeid(Tag) ? value_.get() : nullptr;
     }
 
     void diagnostic_info(std::ostream& os) override
     {
-        diagnostic_info_impl(os, typeid(Tag), value_, 0);
+        diagnostic_info_impl(os, typeid(Tag), *value_, 0);
+    }
+
+    std::shared_ptr<exception_info_node_base> clone() const override
+    {
+        auto node = std::make_shared<exception_info_node>(*this);
+        node->next_ = nullptr;
+        return node;
     }
 
 private:
-    typename Tag::type value_;
+    std::shared_ptr<typename Tag::type> value_;
 };
 } // namespace detail
 
@@ -153,28 +162,28 @@ public:
     template <typename Tag>
     exception_info& unset() noexcept
     {
-        if (!head_)
+        const auto& tag = typeid(Tag);
+        auto found = head_;
+
+        while (found && !found->find(tag))
+            found = found->next_;
+        if (!found)
             return *this;
 
-        std::shared_ptr<detail::exception_info_node_base>* node = &head_;
-        std::shared_ptr<detail::exception_info_node_base>* prev = nullptr;
-        const auto& tag = typeid(Tag);
+        // Nodes can be shared with copies of this object so those preceding
+        // the found one are replaced instead of being relinked
+        std::shared_ptr<detail::exception_info_node_base> head;
+        auto* next = &head;
 
-        while (*node)
+        for (auto* node = head_.get(); node != found.get();
+             node = node->next_.get())
         {
-            if ((*node)->find(tag))
-            {
-                if (prev)
-                    (*prev)->next_ = (*node)->next_;
-                else
-                    head_ = (*node)->next_;
-                break;
-            }
-
-            prev = node;
-            node = &(*node)->next_;
+            *next = node->clone();
+            next = &(*next)->next_;
         }
 
+        *next = found->next_;
+        head_ = std::move(head);
         return *this;
     }
 
-- 
2.43.0


From ec1e0407a0d51f3821c99b5080d3c15ab4eef14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:18 +0000
Subject: [PATCH 12/18] fix: enum_range: give iterator distance and ordering
 the right sign

---
 include/kl/enum_range.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kl/enum_range.hpp b/include/kl/enum_range.hpp
index 2fa4738..6ae00eb 100644
--- a/include/kl/enum_range.hpp
+++ b/include/kl/enum_range.hpp
@@ -35,7 +35,8 @@ public:
 
     std::ptrdiff_t distance_to(const enum_iterator& other) const
     {
-        return other.index_ - index_;
+        return static_cast<std::ptrdiff_t>(index_) -
+               static_cast<std::ptrdiff_t>(other.index_);
     }
 
     bool equal_to(const enum_iterator& other) const
-- 
2.43.0


From ff0596e7c4a5329d2c35f6a38ee85f060e736189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:18 +0000
Subject: [PATCH 13/18] fix: enum_traits: accept unsigned values in ranges that
 start below zero

---
 include/kl/enum_traits.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/kl/enum_traits.hpp b/include/kl/enum_traits.hpp
index 895c3db..c80cffc 100644
--- a/include/kl/enum_traits.hpp
+++ b/include/kl/enum_traits.hpp
@@ -92,7 +92,11 @@ struct enum_trait_support_range
     template <typename Integral, enable_if<std::is_integral<Integral>> = true>
     static constexpr bool in_range(Integral v) noexcept
     {
-        return v >= min_value() && v < max_value();
+        // Don't let a comparison of mixed signedness change the value
+        const auto value = static_cast<underlying_type>(v);
+        return static_cast<Integral>(value) == v &&
+               (value < underlying_type{}) == (v < Integral{}) &&
+               value >= min_value() && value < max_value();
     }
 };
 
-- 
2.43.0


From 86081c7bb7711fa225e938312fb464076c8bdc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:18 +0000
Subject: [PATCH 14/18] fix: hash: treat characters as bytes regardless of
 their sign

---
 include/kl/hash.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/kl/hash.hpp b/include/kl/hash.hpp
index ac174c5..d8a6611 100644
--- a/include/kl/hash.hpp
+++ b/include/kl/hash.hpp
@@ -11,7 +11,7 @@ constexpr std::uint32_t fnv1a(const char* data, std::size_t length) noexcept
 {
     uint32_t hash = 2166136261U;
     for (std::size_t i = 0; i < length; ++i)
-        hash = (hash ^ static_cast<uint32_t>(data[i])) * 16777619U;
+        hash = (hash ^ static_cast<unsigned char>(data[i])) * 16777619U;
     return hash;
 }
 
@@ -39,7 +39,8 @@ namespace detail {
 
 constexpr std::uint16_t get16bits(const char* d) noexcept
 {
-    return static_cast<std::uint16_t>(d[0] | (d[1] << 8));
+    return static_cast<std::uint16_t>(static_cast<unsigned char>(d[0]) |
+                                      (static_cast<unsigned char>(d[1]) << 8));
 }
 } // namespace detail
 
@@ -70,7 +71,9 @@ constexpr std::uint32_t hsieh(const char* data, std::size_t length) noexcept
     case 3:
         hash += detail::get16bits(data);
         hash ^= hash << 16;
-        hash ^= static_cast<signed char>(data[sizeof(uint16_t)]) << 18;
+        hash ^= static_cast<uint32_t>(
+                    static_cast<signed char>(data[sizeof(uint16_t)]))
+                << 18;
         hash += hash >> 11;
         break;
     case 2:
@@ -79,7 +82,7 @@ constexpr std::uint32_t hsieh(const char* data, std::size_t length) noexcept
         hash += hash >> 17;
         break;
     case 1:
-        hash += static_cast<signed char>(*data);
+        hash += static_cast<uint32_t>(static_cast<signed char>(*data));
         hash ^= hash << 10;
         hash += hash >> 1;
     }
-- 
2.43.0


From ba845360bb4b0b3d65a49ffadf4553ce05c6063c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:18 +0000
Subject: [PATCH 15/18] fix: file_view: detect a failed mapping

---
 src/file_view_unix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_view_unix.cpp b/src/file_view_unix.cpp
index a9e84d0..fa5a5f6 100644
--- a/src/file_view_unix.cpp
+++ b/src/file_view_unix.cpp
@@ -77,7 +77,7 @@ file_view::file_view(const char* file_path)
 
     void* mapped = ::mmap(nullptr, static_cast<std::size_t>(file_info.st_size),
                           PROT_READ, MAP_PRIVATE, fd, 0);
-    if (!mapped)
+    if (mapped == MAP_FAILED)
         throw_system_error();
 
     contents_ = gsl::span{static_cast<const std::byte*>(mapped),
-- 
2.43.0


From a8d6c96b3448a947e099056b51d69fadebc8e52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:18 +0000
Subject: [PATCH 16/18] fix: file_view: forbid copies, which unmapped the file
 twice

---
 include/kl/file_view.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/kl/file_view.hpp b/include/kl/file_view.hpp
index 0ac80a8..cc4b795 100644
--- a/include/kl/file_view.hpp
+++ b/include/kl/file_view.hpp
@@ -12,6 +12,9 @@ public:
     explicit file_view(const char* file_path);
     ~file_view();
 
+    file_view(const file_view&) = delete;
+    file_view& operator=(const file_view&) = delete;
+
     gsl::span<const std::byte> get_bytes() const noexcept { return contents_; }
 
 private:
-- 
2.43.0


From 907bbe022a5b658930a0d59b994550a513f2a7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:13 +0000
Subject: [PATCH 17/18] fix: yaml::view assignment no longer writes through to
 the viewed document

---
 include/kl/yaml.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/kl/yaml.hpp b/include/kl/yaml.hpp
index 01f4401..eb9766e 100644
--- a/include/kl/yaml.hpp
+++ b/include/kl/yaml.hpp
@@ -31,6 +31,14 @@ class view
 public:
     view() = default;
     view(YAML::Node node) : node_{std::move(node)} {}
+    view(const view& other) = default;
+    // Assigning to YAML::Node writes through to the node it refers to. A view only ever
+    // changes what it points at.
+    view& operator=(const view& other)
+    {
+        node_.reset(other.node_);
+        return *this;
+    }
 
     const YAML::Node& value() const { return node_; }
     operator const YAML::Node&() const { return value(); }
-- 
2.43.0


From a99961ca6d0c06bd05ba057648db11c61fe2b533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:34 +0000
Subject: [PATCH 18/18] fix: name the field when extracting a YAML map entry by
 a non-string key

msg += member_name appended an integer key as a character code.
---
 include/kl/yaml.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kl/yaml.hpp b/include/kl/yaml.hpp
index eb9766e..8b5bc5c 100644
--- a/include/kl/yaml.hpp
+++ b/include/kl/yaml.hpp
@@ -204,7 +204,7 @@ public:
         catch (serialization::deserialize_error& ex)
         {
             std::string msg = "error when deserializing field ";
-            msg += member_name;
+            msg += YAML::Node{member_name}.Scalar();
             ex.add(msg.c_str());
             throw;
         }
-- 
2.43.0

