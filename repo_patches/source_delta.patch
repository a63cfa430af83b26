From 7f61ecc03dfe18bc0ef30e7fa56df29472a060e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:46 +0000
Subject: [PATCH 01/18] fix: reverse iterators compared less than themselves

operator< of reverse iterators negated the forward comparison, which makes equal
iterators compare less and <=/>= false for them.
---
 include/bpptree/detail/iterator.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/bpptree/detail/iterator.hpp b/include/bpptree/detail/iterator.hpp
index 694ddf9..fa4ecc0 100644
--- a/include/bpptree/detail/iterator.hpp
+++ b/include/bpptree/detail/iterator.hpp
@@ -264,7 +264,11 @@ struct IteratorDetail : public IteratorBase<Tree, is_const> {
             throw std::logic_error("cannot compare iterators from different trees");
         }
 #endif
-        return reverse ^ (iter + 1 < rhs.iter + 1);
+        if constexpr (reverse) {
+            return rhs.iter + 1 < iter + 1;
+        } else {
+            return iter + 1 < rhs.iter + 1;
+        }
     }
 
     template <typename RHS>
-- 
2.43.0


From 8e523be9901a501239ba4483cb21eccf6af5797c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:46 +0000
Subject: [PATCH 02/18] fix: data race on leaves shared between persistent
 trees

make_persistent rewrote the flag of leaves that were already persistent and may be
in use by other threads.
---
 include/bpptree/detail/leafnodebase.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/bpptree/detail/leafnodebase.hpp b/include/bpptree/detail/leafnodebase.hpp
index 45d659a..c4e8695 100644
--- a/include/bpptree/detail/leafnodebase.hpp
+++ b/include/bpptree/detail/leafnodebase.hpp
@@ -273,7 +273,10 @@ struct LeafNodeBase : public Parent {
     }
 
     void make_persistent() {
-        this->persistent = true;
+        // leaves which are already persistent may be shared with other threads and must not be written
+        if (!this->persistent) {
+            this->persistent = true;
+        }
     }
 
     void seek_first(uint64_t& it) const {
-- 
2.43.0


From 60f2767e826c0571dd518b80dfccad70ebfa4e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:46 +0000
Subject: [PATCH 03/18] fix: copies of a Transient shared mutable nodes with
 the original

Copying copied the root pointer only, so later edits of either tree showed in the
other and left its size wrong.
---
 include/bpptree/bpptree.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/bpptree/bpptree.hpp b/include/bpptree/bpptree.hpp
index c15c013..75d0dd4 100644
--- a/include/bpptree/bpptree.hpp
+++ b/include/bpptree/bpptree.hpp
@@ -243,6 +243,21 @@ public:
         template <typename... Us>
         explicit Transient(Us&&... us) : Parent(std::forward<Us>(us)...) {}
 
+        // a copy must not share mutable nodes with the original, so both become copy on write
+        Transient(Transient const& other) : Transient(other.persistent().transient()) {}
+
+        Transient(Transient& other) : Transient(std::as_const(other)) {}
+
+        Transient(Transient&& other) = default;
+
+        Transient& operator=(Transient const& other) {
+            return *this = Transient(other);
+        }
+
+        Transient& operator=(Transient&& other) = default;
+
+        ~Transient() = default;
+
         [[nodiscard]] Persistent persistent() const& {
             return Persistent(this->root_variant, this->tree_size);
         }
-- 
2.43.0


From 33751699a2937a5ad2594dcb1b0f3c42341945a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:41 +0000
Subject: [PATCH 04/18] fix: arguments referring into the edited tree were used
 after being moved or destroyed

insert shifted the elements of the leaf before constructing the new one from its
arguments, and replacing an element destroyed it before constructing its successor,
so push_front(back()) or update_key(it->first, f) stored a wrong value.
---
 include/bpptree/detail/leafnodebase.hpp        | 12 ++++++------
 include/bpptree/detail/uninitialized_array.hpp |  4 +++-
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/bpptree/detail/leafnodebase.hpp b/include/bpptree/detail/leafnodebase.hpp
index c4e8695..76adc85 100644
--- a/include/bpptree/detail/leafnodebase.hpp
+++ b/include/bpptree/detail/leafnodebase.hpp
@@ -86,6 +86,8 @@ struct LeafNodeBase : public Parent {
 
     template <typename... Args>
     void insert_no_split(LeafNodeBase& node, IndexType index, Args&&... args) noexcept(disable_exceptions) {
+        // args may refer to elements of this node, so the new element has to be constructed before they are moved
+        Value value(std::forward<Args>(args)...);
         for (IndexType i = this->length; i > index; --i) {
             if (this->persistent) {
                 node.values.set(i, node.length, values[i - 1]);
@@ -93,7 +95,7 @@ struct LeafNodeBase : public Parent {
                 node.values.set(i, node.length, values.move(i - 1));
             }
         }
-        node.values.emplace(index, node.length, std::forward<Args>(args)...);
+        node.values.set(index, node.length, std::move(value));
         if (this->persistent) {
             for (IndexType i = 0; i < index; ++i) {
                 node.values.set(i, node.length, values[i]);
@@ -113,6 +115,8 @@ struct LeafNodeBase : public Parent {
 
     template <typename... Args>
     bool insert_split(LeafNodeBase& left, LeafNodeBase& right, IndexType index, uint64_t& iter, bool right_most, Args&&... args) noexcept(disable_exceptions) {
+        // args may refer to elements of this node, so the new element has to be constructed before they are moved
+        Value value(std::forward<Args>(args)...);
         IndexType split_point = right_most && index == leaf_size ? index : (leaf_size + 1) / 2;
         for (IndexType i = this->length; i > index; --i) {
             if (this->persistent) {
@@ -121,11 +125,7 @@ struct LeafNodeBase : public Parent {
                 set_element(left, right, i, split_point, std::move(values[i - 1]));
             }
         }
-        if (index < split_point) {
-            left.values.emplace(index, left.length, std::forward<Args>(args)...);
-        } else {
-            right.values.emplace(index - split_point, right.length, std::forward<Args>(args)...);
-        }
+        set_element(left, right, index, split_point, std::move(value));
         for (IndexType i = this->persistent ? 0 : split_point; i < index; ++i) {
             if (this->persistent) {
                 set_element(left, right, i, split_point, values[i]);
diff --git a/include/bpptree/detail/uninitialized_array.hpp b/include/bpptree/detail/uninitialized_array.hpp
index 01f3a94..7c1cc61 100644
--- a/include/bpptree/detail/uninitialized_array.hpp
+++ b/include/bpptree/detail/uninitialized_array.hpp
@@ -127,8 +127,10 @@ public:
             (*this)[index] = (..., std::forward<Us>(us));
             return (*this)[index];
         }
+        // us may refer to parts of the element being replaced, so it has to be destroyed after it is used
+        T value(std::forward<Us>(us)...);
         (*this)[index].~T();
-        return *new(un.data + index) T(std::forward<Us>(us)...);
+        return *new(un.data + index) T(std::move(value));
     }
 
     T* begin() {
-- 
2.43.0


From ee686136abbf57ff32e762de7e723a6396ce8007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:29 +0000
Subject: [PATCH 05/18] fix: empty ranges passed the safety checks of min and
 max

Only ranges that are empty within one leaf were rejected; others read slots outside
the node or reported an element outside the range.
---
 include/bpptree/detail/minmax2.ipp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/bpptree/detail/minmax2.ipp b/include/bpptree/detail/minmax2.ipp
index 1bf721b..7019b1a 100644
--- a/include/bpptree/detail/minmax2.ipp
+++ b/include/bpptree/detail/minmax2.ipp
@@ -18,6 +18,11 @@ template <typename Value, typename KeyExtractor, typename Comp>
 template <typename Parent>
 template <typename It>
 typename BPPTREE_MINMAX_UPPER<Value, KeyExtractor, Comp>::KeyRef BPPTREE_MINMAX_UPPER<Value, KeyExtractor, Comp>::Shared<Parent>::BPPTREE_MINMAX(const It& begin, const It& end) const {
+#ifdef BPPTREE_SAFETY_CHECKS
+    if (!(begin < end)) {
+        throw std::out_of_range("cannot call " BPPTREE_MINMAXSTR " on empty range");
+    }
+#endif
     return this->self().dispatch(
             [&begin, &end](auto const& root) -> decltype(auto) {
                 if constexpr (It::is_reversed) {
@@ -42,6 +47,11 @@ template <typename Value, typename KeyExtractor, typename Comp>
 template <typename Parent>
 template <typename OutIt, typename InIt>
 void BPPTREE_MINMAX_UPPER<Value, KeyExtractor, Comp>::Shared<Parent>::BPPTREE_CONCAT(seek_, BPPTREE_MINMAX)(OutIt& out, const InIt& begin, const InIt& end) const {
+#ifdef BPPTREE_SAFETY_CHECKS
+    if (!(begin < end)) {
+        throw std::out_of_range("cannot call " BPPTREE_MINMAXSTR " on empty range");
+    }
+#endif
     this->self().dispatch(
             [&out, &begin, &end](auto const& root) {
                 if constexpr (InIt::is_reversed) {
-- 
2.43.0


From 36b2a43d74bbc7865e3ce0834453e27d58d97960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:07 +0000
Subject: [PATCH 06/18] fix: Persistent insert through a reverse iterator

Unlike the Transient form it inserted one place off and out of bounds at rend().
---
 include/bpptree/bpptree.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/bpptree/bpptree.hpp b/include/bpptree/bpptree.hpp
index 75d0dd4..469a14c 100644
--- a/include/bpptree/bpptree.hpp
+++ b/include/bpptree/bpptree.hpp
@@ -377,7 +377,13 @@ public:
         template <typename It, typename... Args>
         [[nodiscard]] Persistent insert(It const& it, Args&&... args) const {
             auto transient = this->self().transient();
-            transient.insert2(it.iter, std::forward<Args>(args)...);
+            if constexpr (It::is_reversed) {
+                It position(it);
+                --position;
+                transient.insert2(position.iter, std::forward<Args>(args)...);
+            } else {
+                transient.insert2(it.iter, std::forward<Args>(args)...);
+            }
             return std::move(transient).persistent();
         }
 
-- 
2.43.0


From d064d704b74f3ae925bbf0b84592f2535052b87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:41 +0000
Subject: [PATCH 07/18] fix: Transient iterators of indexed trees were not
 random access iterators

The category was decided by asking the still incomplete Transient for its members,
so it always came out bidirectional; Persistent iterators were right.
---
 include/bpptree/detail/helpers.hpp  | 7 +++++++
 include/bpptree/detail/iterator.hpp | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/bpptree/detail/helpers.hpp b/include/bpptree/detail/helpers.hpp
index 71c22e4..fce4a0a 100644
--- a/include/bpptree/detail/helpers.hpp
+++ b/include/bpptree/detail/helpers.hpp
@@ -242,6 +242,13 @@ struct IsIndexedTree : std::false_type {};
 template<typename T, typename It>
 struct IsIndexedTree<T, It, std::void_t<decltype(std::declval<T>().order(std::declval<It>()))>> : std::true_type {};
 
+// unlike a tree, a leaf is a complete type while the iterators of the tree are being declared
+template<typename, typename = void>
+struct IsIndexedLeaf : std::false_type {};
+
+template<typename T>
+struct IsIndexedLeaf<T, std::void_t<decltype(&T::order)>> : std::true_type {};
+
 template<typename, typename = void>
 struct IsTransientTree : std::true_type {};
 
diff --git a/include/bpptree/detail/iterator.hpp b/include/bpptree/detail/iterator.hpp
index fa4ecc0..23e7ce8 100644
--- a/include/bpptree/detail/iterator.hpp
+++ b/include/bpptree/detail/iterator.hpp
@@ -308,7 +308,7 @@ struct IteratorDetail : public IteratorBase<Tree, is_const> {
     using reference = std::conditional_t<is_const, Value const&, ProxyRef>;
 
     using iterator_category = std::conditional_t<
-            IsIndexedTree<TreeType, IteratorDetail>::value,
+            IsIndexedLeaf<LeafNode>::value,
             std::random_access_iterator_tag,
             std::bidirectional_iterator_tag>;
 };
-- 
2.43.0


From 26eaa164bf43dadad970bf07036498fcde83f06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:51 +0000
Subject: [PATCH 08/18] fix: pop_back used the insert position one past the
 last element

The sums were updated with a value outside the leaf and popping from a
shared leaf copied (and leaked) the popped element.
---
 include/bpptree/bpptree.hpp           | 2 +-
 include/bpptree/detail/operations.hpp | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/bpptree/bpptree.hpp b/include/bpptree/bpptree.hpp
index 469a14c..cd0df19 100644
--- a/include/bpptree/bpptree.hpp
+++ b/include/bpptree/bpptree.hpp
@@ -337,7 +337,7 @@ public:
 
         Value pop_back() {
             Value ret = this->self().back();
-            this->self().dispatch(Modify<Erase>(), find_last, Empty::empty);
+            this->self().dispatch(Modify<Erase>(), find_last_element, Empty::empty);
             return ret;
         }
 
diff --git a/include/bpptree/detail/operations.hpp b/include/bpptree/detail/operations.hpp
index c817d28..89bbfef 100644
--- a/include/bpptree/detail/operations.hpp
+++ b/include/bpptree/detail/operations.hpp
@@ -71,6 +71,11 @@ inline constexpr auto find_last = [](auto const& node, Empty const&) {
     }
 };
 
+// unlike find_last, which is one past the last element for insertion, this is the last element itself
+inline constexpr auto find_last_element = [](auto const& node, Empty const&) {
+    return std::tuple<int32_t, Empty>(node.length - 1, Empty::empty);
+};
+
 inline constexpr auto find_iterator = [](auto const& node, uint64_t const& it) {
     return std::tuple<int32_t, uint64_t>(node.get_index(it), it);
 };
-- 
2.43.0


From dfcbc10d97634992535eb628eecf590144a7ae08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:27 +0000
Subject: [PATCH 09/18] fix: an insert refused at the depth limit corrupted the
 Transient it was called on

---
 include/bpptree/detail/modify.hpp     | 12 +++++++++++-
 include/bpptree/detail/operations.hpp | 10 ++++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/include/bpptree/detail/modify.hpp b/include/bpptree/detail/modify.hpp
index c43b772..25a398f 100644
--- a/include/bpptree/detail/modify.hpp
+++ b/include/bpptree/detail/modify.hpp
@@ -11,6 +11,7 @@
 #include <type_traits>
 #include "nodeptr.hpp"
 #include "helpers.hpp"
+#include "operations.hpp"
 
 namespace bpptree::detail {
 
@@ -105,15 +106,24 @@ struct ModifyTypes {
         template <typename TreeType, typename NodeType, typename F, typename T, typename... Us>
         uint64_t operator()(TreeType& tree, NodePtr<NodeType>& root, F&& finder, T const& search_val, Us&&... params) {
             uint64_t ret = 0;
+            size_t size = tree.tree_size;
+#ifdef BPPTREE_SAFETY_CHECKS
+            if constexpr (NodeType::depth == max_depth && may_split<Operation>) {
+                // if the root has to be split the insert throws after the nodes below have been changed,
+                // so make sure that it changes copies of them
+                root->make_persistent();
+            }
+#endif
             Operation()(*root, search_val, finder,
                 DoReplace<TreeType, NodeType>(tree, root),
                 DoSplit<TreeType, NodeType>(tree, root, ret),
                 DoErase<TreeType>(tree),
-                tree.tree_size,
+                size,
                 ret,
                 true,
                 std::forward<Us>(params)...
             );
+            tree.tree_size = size;
             ++tree.mod_count;
             return ret;
         }
diff --git a/include/bpptree/detail/operations.hpp b/include/bpptree/detail/operations.hpp
index 89bbfef..2de6e78 100644
--- a/include/bpptree/detail/operations.hpp
+++ b/include/bpptree/detail/operations.hpp
@@ -59,6 +59,16 @@ struct InsertOrAssign {
     }
 };
 
+// whether an operation can add a level to the tree
+template <typename Operation>
+inline constexpr bool may_split = false;
+
+template <>
+inline constexpr bool may_split<Insert> = true;
+
+template <DuplicatePolicy duplicate_policy>
+inline constexpr bool may_split<InsertOrAssign<duplicate_policy>> = true;
+
 inline constexpr auto find_first = [](auto const&, Empty const&) {
     return std::tuple<int32_t, Empty>(0, Empty::empty);
 };
-- 
2.43.0


From c4199884cc2aa5c376a9fae0f9fa2c4a39fa1882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:28 +0000
Subject: [PATCH 10/18] fix: describe the stored value, not the arguments it is
 converted from, in node infos

When an element was inserted or assigned from arguments of another type, its
sum, minimum, maximum and key were taken from the arguments, although storing
them converts them: pushing size_t(3) on a tree of int64_t compared it as
unsigned, and v[i] *= 0.5 on a tree of int added a fraction to the sums.
---
 include/bpptree/detail/leafnodebase.hpp   | 19 +++++++++++++++----
 include/bpptree/detail/ordered_detail.hpp |  4 ++--
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/bpptree/detail/leafnodebase.hpp b/include/bpptree/detail/leafnodebase.hpp
index 76adc85..4dcaa0d 100644
--- a/include/bpptree/detail/leafnodebase.hpp
+++ b/include/bpptree/detail/leafnodebase.hpp
@@ -146,6 +146,17 @@ struct LeafNodeBase : public Parent {
         return true;
     }
 
+    // the node infos have to describe the value that is stored, which is not the same as describing the arguments that it
+    // is constructed from when constructing it converts them
+    template <typename... Args>
+    static decltype(auto) as_value(Args&&... args) {
+        if constexpr (sizeof...(Args) == 1 && (std::is_same_v<std::remove_cv_t<std::remove_reference_t<Args>>, Value> && ...)) {
+            return (std::forward<Args>(args), ...);
+        } else {
+            return Value(std::forward<Args>(args)...);
+        }
+    }
+
     template <typename R, typename S, typename... Args>
     void insert_index(IndexType index, R&& do_replace, S&& do_split, size_t& size, uint64_t& iter, bool right_most, Args&&... args) noexcept(disable_exceptions) {
         ++size;
@@ -178,7 +189,7 @@ struct LeafNodeBase : public Parent {
     template <typename T, typename F, typename R, typename S, typename... Args>
     void insert(T const& search_val, F&& finder, R&& do_replace, S&& do_split, size_t& size, uint64_t& iter, bool right_most, Args&&... args) {
         auto [index, remainder] = finder(this->self(), search_val);
-        insert_index(index, do_replace, do_split, size, iter, right_most, std::forward<Args>(args)...);
+        insert_index(index, do_replace, do_split, size, iter, right_most, as_value(std::forward<Args>(args)...));
     }
 
     template <typename R, typename... Args>
@@ -200,7 +211,7 @@ struct LeafNodeBase : public Parent {
     template <typename T, typename F, typename R, typename... Args>
     void assign(T const& search_val, F&& finder, R&& do_replace, uint64_t& iter, Args&&... args) {
         auto [index, remainder] = finder(this->self(), search_val);
-        assign2(index, do_replace, iter, std::forward<Args>(args)...);
+        assign2(index, do_replace, iter, as_value(std::forward<Args>(args)...));
     }
 
     bool erase(LeafNodeBase& node, IndexType index, uint64_t& iter, bool right_most) {
@@ -255,7 +266,7 @@ struct LeafNodeBase : public Parent {
     template <typename T, typename F, typename R, typename U>
     void update(T const& search_val, F&& finder, R&& do_replace, uint64_t& iter, U&& updater) {
         auto [index, remainder] = finder(this->self(), search_val);
-        assign2(index, do_replace, iter, updater(std::as_const(values[index])));
+        assign2(index, do_replace, iter, as_value(updater(std::as_const(values[index]))));
     }
 
     template <typename T, typename F, typename R, typename U>
@@ -264,7 +275,7 @@ struct LeafNodeBase : public Parent {
         updater(
                 [this, index = index, &do_replace, &iter](auto&&... args)
                 // clang incorrectly warns on unused capture without this-> before assign2
-                { this->assign2(index, do_replace, iter, std::forward<decltype(args)>(args)...); },
+                { this->assign2(index, do_replace, iter, as_value(std::forward<decltype(args)>(args)...)); },
                 std::as_const(values[index]));
     }
 
diff --git a/include/bpptree/detail/ordered_detail.hpp b/include/bpptree/detail/ordered_detail.hpp
index 75c641e..8e29e05 100644
--- a/include/bpptree/detail/ordered_detail.hpp
+++ b/include/bpptree/detail/ordered_detail.hpp
@@ -128,13 +128,13 @@ public:
                     decltype(auto) extracted = extractor.get_key(std::as_const(this->values[index]));
                     if (!less_than(extracted, search_val) && !less_than(search_val, extracted)) {
                         if constexpr (duplicate_policy == DuplicatePolicy::replace) {
-                            this->self().assign2(index, do_replace, iter, std::forward<Args>(args)...);
+                            this->self().assign2(index, do_replace, iter, this->as_value(std::forward<Args>(args)...));
                         }
                         return;
                     }
                 }
             }
-            this->self().insert_index(index, do_replace, do_split, size, iter, right_most, std::forward<Args>(args)...);
+            this->self().insert_index(index, do_replace, do_split, size, iter, right_most, this->as_value(std::forward<Args>(args)...));
         }
 
         decltype(auto) first_key() const {
-- 
2.43.0


From 03d050eafc7c3516cc5f5d54e4a9ca6c15952580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:37 +0000
Subject: [PATCH 11/18] fix: compute changes of signed sums without overflow

The difference between two sums need not be representable when the sums
themselves are, for example when 2000000000 is replaced by -2000000000 in a
tree of int, or when INT_MIN is erased.
---
 include/bpptree/detail/summed_detail.hpp | 33 ++++++++++++++++++++----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/include/bpptree/detail/summed_detail.hpp b/include/bpptree/detail/summed_detail.hpp
index 71b0886..55797ba 100644
--- a/include/bpptree/detail/summed_detail.hpp
+++ b/include/bpptree/detail/summed_detail.hpp
@@ -10,10 +10,33 @@
 
 #include <tuple>
 #include <cstdint>
+#include <type_traits>
 #include "helpers.hpp"
 
 namespace bpptree::detail {
 
+// the difference between two sums may not be representable even if both of the sums are. for signed integers, changes of
+// sums are computed modulo 2^n so that applying them to a sum has the correct result without overflow.
+template <typename SumType>
+SumType add_delta(SumType const& a, SumType const& b) {
+    if constexpr (std::is_integral_v<SumType> && std::is_signed_v<SumType>) {
+        using Unsigned = std::make_unsigned_t<SumType>;
+        return static_cast<SumType>(static_cast<Unsigned>(static_cast<Unsigned>(a) + static_cast<Unsigned>(b)));
+    } else {
+        return a + b;
+    }
+}
+
+template <typename SumType>
+SumType subtract_delta(SumType const& a, SumType const& b) {
+    if constexpr (std::is_integral_v<SumType> && std::is_signed_v<SumType>) {
+        using Unsigned = std::make_unsigned_t<SumType>;
+        return static_cast<SumType>(static_cast<Unsigned>(static_cast<Unsigned>(a) - static_cast<Unsigned>(b)));
+    } else {
+        return a - b;
+    }
+}
+
 template <typename Parent, typename SumType, typename Extractor>
 struct SummedLeafNode : public Parent {
 
@@ -76,7 +99,7 @@ struct SummedLeafNode : public Parent {
 
     template <typename... Args>
     void compute_delta_set2(IndexType index, InfoType& node_info, Args const&... args) const {
-        node_info.sum = extractor(args...) - extractor(this->values[index]);
+        node_info.sum = subtract_delta<SumType>(extractor(args...), extractor(this->values[index]));
         Parent::compute_delta_set2(index, node_info, args...);
     }
 
@@ -84,7 +107,7 @@ struct SummedLeafNode : public Parent {
         if constexpr (std::is_unsigned_v<SumType>) {
             node_info.sum = ~extractor(this->values[index]) + 1;
         } else {
-            node_info.sum = -extractor(this->values[index]);
+            node_info.sum = subtract_delta<SumType>(SumType{}, extractor(this->values[index]));
         }
         Parent::compute_delta_erase2(index, node_info);
     }
@@ -116,7 +139,7 @@ struct SummedInternalNode : public Parent {
     }
 
     void replace_element2(IndexType index, InfoType<ChildType>& t) {
-        child_sums[index] += t.sum;
+        child_sums[index] = add_delta<SumType>(child_sums[index], t.sum);
         Parent::replace_element2(index, t);
     }
 
@@ -126,7 +149,7 @@ struct SummedInternalNode : public Parent {
     }
 
     void compute_delta_split2(SplitType<ChildType> const& split, InfoType<NodeType>& node_info, IndexType index) const {
-        node_info.sum = split.left.sum + split.right.sum - child_sums[index];
+        node_info.sum = subtract_delta<SumType>(add_delta<SumType>(split.left.sum, split.right.sum), child_sums[index]);
         Parent::compute_delta_split2(split, node_info, index);
     }
 
@@ -139,7 +162,7 @@ struct SummedInternalNode : public Parent {
         if constexpr (std::is_unsigned_v<SumType>) {
             node_info.sum = ~child_sums[index] + 1;
         } else {
-            node_info.sum = -child_sums[index];
+            node_info.sum = subtract_delta<SumType>(SumType{}, child_sums[index]);
         }
         Parent::compute_delta_erase2(index, node_info);
     }
-- 
2.43.0


From 687bdd0f195025892f157a79486d99dc4f13be5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:45 +0000
Subject: [PATCH 12/18] fix: advancing an iterator by a very large distance
 saturates instead of overflowing

it + n with n close to the maximum overflowed when adding the index of the
element in its leaf, and ended before the beginning instead of at the end.
---
 include/bpptree/detail/iterator.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/bpptree/detail/iterator.hpp b/include/bpptree/detail/iterator.hpp
index 23e7ce8..fa1482a 100644
--- a/include/bpptree/detail/iterator.hpp
+++ b/include/bpptree/detail/iterator.hpp
@@ -8,6 +8,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <type_traits>
 #include <cstdint>
 #include <utility>
@@ -158,7 +159,9 @@ struct IteratorDetail : public IteratorBase<Tree, is_const> {
     }
 
     void advance(ssize n) {
-        n *= direction;
+        // no tree has so many elements that this changes where the iterator goes, but adding to n must not overflow
+        constexpr ssize max_distance = std::numeric_limits<ssize>::max() / 2;
+        n = std::clamp(n, -max_distance, max_distance) * direction;
         ssize remainder;
         if (iter == rend) {
             if (n <= 0) {
-- 
2.43.0


From eb2881ce63265e4073707a117396fa2926dbb0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:06 +0000
Subject: [PATCH 13/18] fix: empty pointers and optionals as keys are not
 dereferenced when prefetching

The key search prefetches what pointer-like keys point at with &*key, which
is undefined for a null shared_ptr or an empty optional. Types with * that
cannot be tested for emptiness are no longer prefetched.
---
 include/bpptree/detail/ordered_detail.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/bpptree/detail/ordered_detail.hpp b/include/bpptree/detail/ordered_detail.hpp
index 8e29e05..83bf01c 100644
--- a/include/bpptree/detail/ordered_detail.hpp
+++ b/include/bpptree/detail/ordered_detail.hpp
@@ -20,7 +20,7 @@ template <typename T, typename = void>
 struct IsPtrOrSmartPtr : std::false_type {};
 
 template <typename T>
-struct IsPtrOrSmartPtr<T, std::enable_if_t<std::is_pointer_v<decltype(&*std::declval<T const&>())>>> : std::true_type {};
+struct IsPtrOrSmartPtr<T, std::enable_if_t<std::is_pointer_v<decltype(&*std::declval<T const&>())>>> : std::is_constructible<bool, T const&> {};
 
 template <typename T, typename = void>
 struct HasDataPtr : std::false_type {};
@@ -46,7 +46,11 @@ public:
         IndexType find_key_index(Key const& search_val, Comp const& comp) const {
             if constexpr (IsPtrOrSmartPtr<Key>::value) {
                 for (IndexType i = 0; i < this->length; ++i) {
-                    __builtin_prefetch(&*extractor.get_key(this->values[i]), 0, 3);
+                    decltype(auto) key = extractor.get_key(this->values[i]);
+                    // null pointers and the like must not be dereferenced
+                    if (key) {
+                        __builtin_prefetch(&*key, 0, 3);
+                    }
                 }
             }
             if constexpr (HasDataPtr<Key>::value) {
@@ -262,7 +266,10 @@ public:
         IndexType find_key_index(Key const& search_val, Comp const& comp) const {
             if constexpr (IsPtrOrSmartPtr<Key>::value) {
                 for (IndexType i = 0; i < this->length; ++i) {
-                    __builtin_prefetch(&*keys[i], 0, 3);
+                    // null pointers and the like must not be dereferenced
+                    if (keys[i]) {
+                        __builtin_prefetch(&*keys[i], 0, 3);
+                    }
                 }
             }
             if constexpr (HasDataPtr<Key>::value) {
-- 
2.43.0


From 9cb86acb799d9077a0b5d9b7e89d62c520da9461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:17 +0000
Subject: [PATCH 14/18] fix: inverted index does not compare a term larger than
 all others with the end of the term list

---
 examples/inverted_index.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/inverted_index.hpp b/examples/inverted_index.hpp
index 6d9843c..0f598f7 100644
--- a/examples/inverted_index.hpp
+++ b/examples/inverted_index.hpp
@@ -81,7 +81,7 @@ struct InvertedIndex {
         template <typename T>
         void insert(T&& term, uint32_t doc_id) {
             auto it = term_list_.lower_bound(term);
-            if (it->first != term) {
+            if (!it.valid() || it->first != term) {
                 term_list_.insert(it, std::forward<T>(term), 0u);
             }
             auto [begin, end] = this->term_doc_iterator(it);
-- 
2.43.0


From b442eae7a800f1a09929ad51551b53e209e00583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:17 +0000
Subject: [PATCH 15/18] fix: inverted index looks up the documents of a term
 The overload taking a term called a function which does not exist.

---
 examples/inverted_index.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/examples/inverted_index.hpp b/examples/inverted_index.hpp
index 0f598f7..7c977de 100644
--- a/examples/inverted_index.hpp
+++ b/examples/inverted_index.hpp
@@ -44,7 +44,10 @@ struct InvertedIndex {
 
         [[nodiscard]] auto term_doc_iterator(Term const& term) const {
             auto it = self().term_list().find(term);
-            return term_doc_iterator2(it);
+            if (!it.valid()) {
+                return std::make_pair(self().doc_list().end(), self().doc_list().end());
+            }
+            return term_doc_iterator(it);
         }
     };
 
-- 
2.43.0


From 5496907cc4a0899e6fef444a4b7b29612828ce10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:22 +0000
Subject: [PATCH 16/18] fix: inverted index can be converted between its
 Transient and Persistent forms Each used private constructors of the other,
 and Persistent::insert used a variable in its own initialiser.

---
 examples/inverted_index.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/examples/inverted_index.hpp b/examples/inverted_index.hpp
index 7c977de..35fa444 100644
--- a/examples/inverted_index.hpp
+++ b/examples/inverted_index.hpp
@@ -55,6 +55,7 @@ struct InvertedIndex {
 
     class Transient : public Shared<Transient> {
         friend struct Shared<Transient>;
+        friend class Persistent;
 
         typename TermList::Transient term_list_{};
         typename DocList::Transient doc_list_{};
@@ -98,7 +99,8 @@ struct InvertedIndex {
 
     class Persistent : public Shared<Persistent> {
         friend struct Shared<Persistent>;
-        
+        friend class Transient;
+
         typename TermList::Persistent term_list_{};
         typename DocList::Persistent doc_list_{};
     public:
@@ -126,9 +128,9 @@ struct InvertedIndex {
 
         template <typename T>
         [[nodiscard]] Persistent insert(T&& term, uint32_t doc_id) const {
-            Transient transient(transient());
-            transient.insert(std::forward<T>(term), doc_id);
-            return std::move(transient).persistent();
+            Transient copy = transient();
+            copy.insert(std::forward<T>(term), doc_id);
+            return std::move(copy).persistent();
         }
     };
 };
-- 
2.43.0


From 05f6394b482f6827e9088c7815c12c8b50987d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:34 +0000
Subject: [PATCH 17/18] fix: the shorthands for maps, sets and vectors keep
 disable_exceptions when a further option is given

BppTreeMap<K, V>::disable_exceptions<false>::leaf_node_bytes<256> (and every other option that followed) went back to the
default, so an exception such as the one for an exhausted depth ended the program if exceptions are disabled by default.
---
 include/bpptree/indexed.hpp |  8 ++++----
 include/bpptree/ordered.hpp | 20 ++++++++++----------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/bpptree/indexed.hpp b/include/bpptree/indexed.hpp
index 6f1b971..bea62cb 100644
--- a/include/bpptree/indexed.hpp
+++ b/include/bpptree/indexed.hpp
@@ -323,16 +323,16 @@ template <
 struct BppTreeVector {
 
     template <typename T>
-    using size_type = BppTreeVector<Value, T, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v>;
+    using size_type = BppTreeVector<Value, T, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v, disable_exceptions_v>;
 
     template <int l>
-    using leaf_node_bytes = BppTreeVector<Value, SizeType, l, internal_node_bytes_v, depth_limit_v>;
+    using leaf_node_bytes = BppTreeVector<Value, SizeType, l, internal_node_bytes_v, depth_limit_v, disable_exceptions_v>;
 
     template <int i>
-    using internal_node_bytes = BppTreeVector<Value, SizeType, leaf_node_bytes_v, i, depth_limit_v>;
+    using internal_node_bytes = BppTreeVector<Value, SizeType, leaf_node_bytes_v, i, depth_limit_v, disable_exceptions_v>;
 
     template <int d>
-    using depth_limit = BppTreeVector<Value, SizeType, leaf_node_bytes_v, internal_node_bytes_v, d>;
+    using depth_limit = BppTreeVector<Value, SizeType, leaf_node_bytes_v, internal_node_bytes_v, d, disable_exceptions_v>;
 
     template <bool b>
     using disable_exceptions = BppTreeVector<Value, SizeType, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v, b>;
diff --git a/include/bpptree/ordered.hpp b/include/bpptree/ordered.hpp
index e905b32..280f89d 100644
--- a/include/bpptree/ordered.hpp
+++ b/include/bpptree/ordered.hpp
@@ -421,19 +421,19 @@ template <
 struct BppTreeMap {
 
     template <typename T>
-    using compare = BppTreeMap<Key, Value, T, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v>;
+    using compare = BppTreeMap<Key, Value, T, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v, disable_exceptions_v>;
 
     template <bool b>
-    using binary_search = BppTreeMap<Key, Value, Compare, b, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v>;
+    using binary_search = BppTreeMap<Key, Value, Compare, b, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v, disable_exceptions_v>;
 
     template <int l>
-    using leaf_node_bytes = BppTreeMap<Key, Value, Compare, binary_search_v, l, internal_node_bytes_v, depth_limit_v>;
+    using leaf_node_bytes = BppTreeMap<Key, Value, Compare, binary_search_v, l, internal_node_bytes_v, depth_limit_v, disable_exceptions_v>;
 
     template <int i>
-    using internal_node_bytes = BppTreeMap<Key, Value, Compare, binary_search_v, leaf_node_bytes_v, i, depth_limit_v>;
+    using internal_node_bytes = BppTreeMap<Key, Value, Compare, binary_search_v, leaf_node_bytes_v, i, depth_limit_v, disable_exceptions_v>;
 
     template <int d>
-    using depth_limit = BppTreeMap<Key, Value, Compare, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, d>;
+    using depth_limit = BppTreeMap<Key, Value, Compare, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, d, disable_exceptions_v>;
 
     template <bool b>
     using disable_exceptions = BppTreeMap<Key, Value, Compare, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v, b>;
@@ -467,19 +467,19 @@ template <
 struct BppTreeSet {
 
     template <typename T>
-    using compare = BppTreeSet<Key, T, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v>;
+    using compare = BppTreeSet<Key, T, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v, disable_exceptions_v>;
 
     template <bool b>
-    using binary_search = BppTreeSet<Key, Compare, b, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v>;
+    using binary_search = BppTreeSet<Key, Compare, b, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v, disable_exceptions_v>;
 
     template <int l>
-    using leaf_node_bytes = BppTreeSet<Key, Compare, binary_search_v, l, internal_node_bytes_v, depth_limit_v>;
+    using leaf_node_bytes = BppTreeSet<Key, Compare, binary_search_v, l, internal_node_bytes_v, depth_limit_v, disable_exceptions_v>;
 
     template <int i>
-    using internal_node_bytes = BppTreeSet<Key, Compare, binary_search_v, leaf_node_bytes_v, i, depth_limit_v>;
+    using internal_node_bytes = BppTreeSet<Key, Compare, binary_search_v, leaf_node_bytes_v, i, depth_limit_v, disable_exceptions_v>;
 
     template <int d>
-    using depth_limit = BppTreeSet<Key, Compare, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, d>;
+    using depth_limit = BppTreeSet<Key, Compare, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, d, disable_exceptions_v>;
 
     template <bool b>
     using disable_exceptions = BppTreeSet<Key, Compare, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v, b>;
-- 
2.43.0


From 988322490ba9667fa6572abe20dd5c9e44712181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:37 +0000
Subject: [PATCH 18/18] examples: put the inverted index back as it was

The example is not part of the library, and repairs of it do not belong here.
---
 examples/inverted_index.hpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/examples/inverted_index.hpp b/examples/inverted_index.hpp
index 35fa444..6d9843c 100644
--- a/examples/inverted_index.hpp
+++ b/examples/inverted_index.hpp
@@ -44,10 +44,7 @@ struct InvertedIndex {
 
         [[nodiscard]] auto term_doc_iterator(Term const& term) const {
             auto it = self().term_list().find(term);
-            if (!it.valid()) {
-                return std::make_pair(self().doc_list().end(), self().doc_list().end());
-            }
-            return term_doc_iterator(it);
+            return term_doc_iterator2(it);
         }
     };
 
@@ -55,7 +52,6 @@ struct InvertedIndex {
 
     class Transient : public Shared<Transient> {
         friend struct Shared<Transient>;
-        friend class Persistent;
 
         typename TermList::Transient term_list_{};
         typename DocList::Transient doc_list_{};
@@ -85,7 +81,7 @@ struct InvertedIndex {
         template <typename T>
         void insert(T&& term, uint32_t doc_id) {
             auto it = term_list_.lower_bound(term);
-            if (!it.valid() || it->first != term) {
+            if (it->first != term) {
                 term_list_.insert(it, std::forward<T>(term), 0u);
             }
             auto [begin, end] = this->term_doc_iterator(it);
@@ -99,8 +95,7 @@ struct InvertedIndex {
 
     class Persistent : public Shared<Persistent> {
         friend struct Shared<Persistent>;
-        friend class Transient;
-
+        
         typename TermList::Persistent term_list_{};
         typename DocList::Persistent doc_list_{};
     public:
@@ -128,9 +123,9 @@ struct InvertedIndex {
 
         template <typename T>
         [[nodiscard]] Persistent insert(T&& term, uint32_t doc_id) const {
-            Transient copy = transient();
-            copy.insert(std::forward<T>(term), doc_id);
-            return std::move(copy).persistent();
+            Transient transient(transient());
+            transient.insert(std::forward<T>(term), doc_id);
+            return std::move(transient).persistent();
         }
     };
 };
-- 
2.43.0

