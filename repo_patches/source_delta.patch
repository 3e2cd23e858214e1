From 297e5a3237ef396e01e7e19284bfdf1f49533ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:20 +0000
Subject: [PATCH 01/11] fix: do not write the persistent flag of leaves that
 are already shared

Taking a snapshot of a transient tree wrote persistent = true to leaves shared
with other trees, which is a data race with threads reading those trees.
---
 include/bpptree/detail/leafnodebase.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/bpptree/detail/leafnodebase.hpp b/include/bpptree/detail/leafnodebase.hpp
index 45d659a..a82a2b1 100644
--- a/include/bpptree/detail/leafnodebase.hpp
+++ b/include/bpptree/detail/leafnodebase.hpp
@@ -273,7 +273,10 @@ struct LeafNodeBase : public Parent {
     }
 
     void make_persistent() {
-        this->persistent = true;
+        // a persistent leaf may be shared with other threads so it must not be written to, even with the same value
+        if (!this->persistent) {
+            this->persistent = true;
+        }
     }
 
     void seek_first(uint64_t& it) const {
-- 
2.43.0


From a7263853b7f96355db2bef23e12d7ffd112677be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:20 +0000
Subject: [PATCH 02/11] fix: make reverse iterator comparison a strict order

operator< of reverse iterators negated the forward comparison, so equal
iterators compared less than each other.
---
 include/bpptree/detail/iterator.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/bpptree/detail/iterator.hpp b/include/bpptree/detail/iterator.hpp
index 694ddf9..fa4ecc0 100644
--- a/include/bpptree/detail/iterator.hpp
+++ b/include/bpptree/detail/iterator.hpp
@@ -264,7 +264,11 @@ struct IteratorDetail : public IteratorBase<Tree, is_const> {
             throw std::logic_error("cannot compare iterators from different trees");
         }
 #endif
-        return reverse ^ (iter + 1 < rhs.iter + 1);
+        if constexpr (reverse) {
+            return rhs.iter + 1 < iter + 1;
+        } else {
+            return iter + 1 < rhs.iter + 1;
+        }
     }
 
     template <typename RHS>
-- 
2.43.0


From 8fa9c6a0f2c07edf2da5fe6e47817865c50946f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:11 +0000
Subject: [PATCH 03/11] fix: insert through a reverse iterator into a
 persistent tree

Persistent::insert passed the raw path of a reverse iterator on without the
adjustment Transient::insert makes: the element ended up on the wrong side and
inserting at rend() indexed out of bounds.
---
 include/bpptree/bpptree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bpptree/bpptree.hpp b/include/bpptree/bpptree.hpp
index c15c013..3207518 100644
--- a/include/bpptree/bpptree.hpp
+++ b/include/bpptree/bpptree.hpp
@@ -362,7 +362,8 @@ public:
         template <typename It, typename... Args>
         [[nodiscard]] Persistent insert(It const& it, Args&&... args) const {
             auto transient = this->self().transient();
-            transient.insert2(it.iter, std::forward<Args>(args)...);
+            auto position = it;
+            transient.insert(position, std::forward<Args>(args)...);
             return std::move(transient).persistent();
         }
 
-- 
2.43.0


From 428a873eebf42660ca64c0c7b01131eb7d387417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:45 +0000
Subject: [PATCH 04/11] fix: copying a transient tree no longer aliases it

The implicit copy operations shared nodes that both trees went on modifying in
place, so a change of one corrupted the other. Copies now mark the shared nodes
persistent, as taking a snapshot does.
---
 include/bpptree/bpptree.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/bpptree/bpptree.hpp b/include/bpptree/bpptree.hpp
index 3207518..c218bd6 100644
--- a/include/bpptree/bpptree.hpp
+++ b/include/bpptree/bpptree.hpp
@@ -243,6 +243,24 @@ public:
         template <typename... Us>
         explicit Transient(Us&&... us) : Parent(std::forward<Us>(us)...) {}
 
+        // a copy shares all of its nodes with the original, so they have to become persistent for both
+        Transient(Transient const& other) : Transient(other.persistent().transient()) {}
+
+        Transient(Transient& other) : Transient(std::as_const(other)) {}
+
+        Transient(Transient&& other) = default;
+
+        Transient& operator=(Transient const& other) {
+            if (this != &other) {
+                *this = Transient(other);
+            }
+            return *this;
+        }
+
+        Transient& operator=(Transient&& other) = default;
+
+        ~Transient() = default;
+
         [[nodiscard]] Persistent persistent() const& {
             return Persistent(this->root_variant, this->tree_size);
         }
-- 
2.43.0


From cf156dd7706f9f6505ade855e4d76e94204c411d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:05 +0000
Subject: [PATCH 05/11] fix: a failed allocation or an exceeded depth limit
 leaves the tree unchanged

make_ptr was noexcept, so running out of memory terminated the process. The
size was adjusted before the allocations, and a split edited a leaf in place
before the nodes needed further up were allocated (or the depth limit checked),
so giving up there lost elements. All nodes of a cascading split are now
allocated before anything is modified.
---
 include/bpptree/detail/internalnodebase.hpp | 15 ++++++++++++---
 include/bpptree/detail/leafnodebase.hpp     |  6 ++++--
 include/bpptree/detail/modify.hpp           | 20 ++++++++++++++------
 include/bpptree/detail/nodeptr.hpp          |  2 +-
 4 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/include/bpptree/detail/internalnodebase.hpp b/include/bpptree/detail/internalnodebase.hpp
index 56ec30a..291f3cc 100644
--- a/include/bpptree/detail/internalnodebase.hpp
+++ b/include/bpptree/detail/internalnodebase.hpp
@@ -250,7 +250,8 @@ struct InternalNodeBase : public Parent {
             R&& do_replace,
             S&& do_split,
             uint64_t& iter,
-            bool right_most
+            bool right_most,
+            NodePtr<NodeType>&& right
     ) noexcept(disable_exceptions) {
         if (this->length != internal_size) {
             set_index(iter, split.new_element_left ? index : index + 1);
@@ -266,7 +267,6 @@ struct InternalNodeBase : public Parent {
                 do_replace(replace);
             }
         } else {
-            auto right = make_ptr<NodeType>();
             if (this->persistent) {
                 auto left = make_ptr<NodeType>();
                 bool new_element_left = insert_split_split(*left, *right, index, split, iter, right_most);
@@ -302,13 +302,22 @@ struct InternalNodeBase : public Parent {
         S& do_split;
         uint64_t& iter;
         bool right_most;
+        NodePtr<NodeType> right{};
 
         DoSplit(typename Parent::SelfType& self, IndexType index, R& do_replace, S& do_split, uint64_t& iter, bool right_most) :
                 self(self), index(index), do_replace(do_replace), do_split(do_split), iter(iter), right_most(right_most) {}
 
+        // allocates the nodes that splitting the child will require, must be called before anything is modified
+        void reserve() {
+            if (self.length == internal_size) {
+                right = make_ptr<NodeType>();
+                do_split.reserve();
+            }
+        }
+
         template <typename T>
         void operator()(T&& split) {
-            self.insert_split(index, split, do_replace, do_split, iter, right_most);
+            self.insert_split(index, split, do_replace, do_split, iter, right_most, std::move(right));
         }
     };
 
diff --git a/include/bpptree/detail/leafnodebase.hpp b/include/bpptree/detail/leafnodebase.hpp
index a82a2b1..5f5d339 100644
--- a/include/bpptree/detail/leafnodebase.hpp
+++ b/include/bpptree/detail/leafnodebase.hpp
@@ -148,7 +148,6 @@ struct LeafNodeBase : public Parent {
 
     template <typename R, typename S, typename... Args>
     void insert_index(IndexType index, R&& do_replace, S&& do_split, size_t& size, uint64_t& iter, bool right_most, Args&&... args) noexcept(disable_exceptions) {
-        ++size;
         if (this->length != leaf_size) {
             set_index(iter, index);
             ReplaceType replace{};
@@ -164,6 +163,8 @@ struct LeafNodeBase : public Parent {
             }
         } else {
             auto right = make_ptr<NodeType>();
+            // allocate everything the nodes above will need before modifying anything in place
+            do_split.reserve();
             if (this->persistent) {
                 NodePtr<NodeType> left = make_ptr<NodeType>();
                 bool new_element_left = insert_split(*left, *right, index, iter, right_most, std::forward<Args>(args)...);
@@ -173,6 +174,7 @@ struct LeafNodeBase : public Parent {
                 do_split(SplitType(&(this->self()), std::move(right), false, new_element_left));
             }
         }
+        ++size;
     }
 
     template <typename T, typename F, typename R, typename S, typename... Args>
@@ -248,8 +250,8 @@ struct LeafNodeBase : public Parent {
     template <typename T, typename F, typename R, typename E>
     void erase(T const& search_val, F&& finder, R&& do_replace, E&& do_erase, size_t& size, uint64_t& iter, bool right_most) {
         auto [index, remainder] = finder(this->self(), search_val);
-        --size;
         erase(index, do_replace, do_erase, iter, right_most);
+        --size;
     }
 
     template <typename T, typename F, typename R, typename U>
diff --git a/include/bpptree/detail/modify.hpp b/include/bpptree/detail/modify.hpp
index c43b772..01cff13 100644
--- a/include/bpptree/detail/modify.hpp
+++ b/include/bpptree/detail/modify.hpp
@@ -8,6 +8,8 @@
 
 #pragma once
 
+#include <algorithm>
+#include <stdexcept>
 #include <type_traits>
 #include "nodeptr.hpp"
 #include "helpers.hpp"
@@ -64,14 +66,24 @@ struct ModifyTypes {
         TreeType& tree;
         NodePtr<NodeType>& root;
         uint64_t& iter;
+        NodePtr<InternalNode<std::min(NodeType::depth + 1, max_depth)>> root_node{};
 
         DoSplit(TreeType& tree, NodePtr<NodeType>& root, uint64_t& iter) : tree(tree), root(root), iter(iter) {}
 
+        // allocates the new root that splitting the root will require, must be called before anything is modified
+        void reserve() {
+            if constexpr (NodeType::depth < max_depth) {
+                root_node = make_ptr<InternalNode<NodeType::depth + 1>>();
+            } else {
+#ifdef BPPTREE_SAFETY_CHECKS
+                throw std::logic_error("maximum depth exceeded");
+#endif
+            }
+        }
+
         template <typename SplitType>
         void operator()([[maybe_unused]] SplitType&& split) {
             if constexpr (NodeType::depth < max_depth) {
-                using NewRootType = InternalNode<NodeType::depth + 1>;
-                auto root_node = make_ptr<NewRootType>();
                 if (!split.left.ptr_changed) {
                     split.left.ptr = std::move(root);
                     split.left.ptr_changed = true;
@@ -81,10 +93,6 @@ struct ModifyTypes {
                 root_node->length = 2;
                 root_node->set_index(iter, split.new_element_left ? 0 : 1);
                 tree.root_variant = std::move(root_node);
-            } else {
-#ifdef BPPTREE_SAFETY_CHECKS
-                throw std::logic_error("maximum depth exceeded");
-#endif
             }
         }
     };
diff --git a/include/bpptree/detail/nodeptr.hpp b/include/bpptree/detail/nodeptr.hpp
index e28a9db..53ac3c7 100644
--- a/include/bpptree/detail/nodeptr.hpp
+++ b/include/bpptree/detail/nodeptr.hpp
@@ -108,7 +108,7 @@ public:
 };
 
 template <typename PtrType, typename... Ts>
-NodePtr<PtrType> make_ptr(Ts&&... ts) noexcept(std::is_nothrow_constructible_v<PtrType, Ts&&...>) {
+NodePtr<PtrType> make_ptr(Ts&&... ts) {
     if constexpr (count_allocations) {
         ++allocations;
         ++increments;
-- 
2.43.0


From dab287fb69414297bdbe362da0f96daa225cc5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:52 +0000
Subject: [PATCH 06/11] fix: arguments may refer to elements of the tree being
 modified

Inserting shifted the elements before it read its arguments and assigning
destroyed the old element before it constructed the new one from a key or value
that may live in it; aggregates were computed from the original arguments. The
new element is now constructed first, which also keeps the tree unchanged when
its constructor throws (this used to terminate the process).
---
 include/bpptree/detail/leafnodebase.hpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/bpptree/detail/leafnodebase.hpp b/include/bpptree/detail/leafnodebase.hpp
index 5f5d339..a9f7408 100644
--- a/include/bpptree/detail/leafnodebase.hpp
+++ b/include/bpptree/detail/leafnodebase.hpp
@@ -148,17 +148,20 @@ struct LeafNodeBase : public Parent {
 
     template <typename R, typename S, typename... Args>
     void insert_index(IndexType index, R&& do_replace, S&& do_split, size_t& size, uint64_t& iter, bool right_most, Args&&... args) noexcept(disable_exceptions) {
+        // constructed before anything is modified because args may refer to elements of this tree and because
+        // construction may throw
+        Value value(std::forward<Args>(args)...);
         if (this->length != leaf_size) {
             set_index(iter, index);
             ReplaceType replace{};
-            compute_delta_insert(index, replace.delta, args...);
+            compute_delta_insert(index, replace.delta, std::as_const(value));
             if (this->persistent) {
                 replace.delta.ptr = make_ptr<NodeType>();
                 replace.delta.ptr_changed = true;
-                insert_no_split(*replace.delta.ptr, index, std::forward<Args>(args)...);
+                insert_no_split(*replace.delta.ptr, index, std::move(value));
                 do_replace(replace);
             } else {
-                insert_no_split(this->self(), index, std::forward<Args>(args)...);
+                insert_no_split(this->self(), index, std::move(value));
                 do_replace(replace);
             }
         } else {
@@ -167,10 +170,10 @@ struct LeafNodeBase : public Parent {
             do_split.reserve();
             if (this->persistent) {
                 NodePtr<NodeType> left = make_ptr<NodeType>();
-                bool new_element_left = insert_split(*left, *right, index, iter, right_most, std::forward<Args>(args)...);
+                bool new_element_left = insert_split(*left, *right, index, iter, right_most, std::move(value));
                 do_split(SplitType(std::move(left), std::move(right), true, new_element_left));
             } else {
-                bool new_element_left = insert_split(this->self(), *right, index, iter, right_most, std::forward<Args>(args)...);
+                bool new_element_left = insert_split(this->self(), *right, index, iter, right_most, std::move(value));
                 do_split(SplitType(&(this->self()), std::move(right), false, new_element_left));
             }
         }
@@ -185,16 +188,18 @@ struct LeafNodeBase : public Parent {
 
     template <typename R, typename... Args>
     void assign2(IndexType index, R&& do_replace, uint64_t& iter, Args&&... args) {
+        // see insert_index
+        Value value(std::forward<Args>(args)...);
         set_index(iter, index);
         ReplaceType replace{};
-        compute_delta_set(index, replace.delta, args...);
+        compute_delta_set(index, replace.delta, std::as_const(value));
         if (this->persistent) {
             replace.delta.ptr = make_ptr<NodeType>(this->self());
             replace.delta.ptr_changed = true;
-            replace.delta.ptr->values.emplace(index, replace.delta.ptr->length, std::forward<Args>(args)...);
+            replace.delta.ptr->values.emplace(index, replace.delta.ptr->length, std::move(value));
             do_replace(replace);
         } else {
-            values.emplace_unchecked(index, std::forward<Args>(args)...);
+            values.emplace_unchecked(index, std::move(value));
             do_replace(replace);
         }
     }
-- 
2.43.0


From d6080e3e3c0740861c93206ed62ff3df8349bc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:23 +0000
Subject: [PATCH 07/11] fix: repair the inverted index example

Inserting a term larger than all present ones read one past the last term (and
lost or corrupted postings when the garbage found there equalled the term);
Persistent::insert and lookup by term did not compile when used, nor did any
conversion between the two kinds.
---
 examples/inverted_index.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/examples/inverted_index.hpp b/examples/inverted_index.hpp
index 6d9843c..6e0dd24 100644
--- a/examples/inverted_index.hpp
+++ b/examples/inverted_index.hpp
@@ -44,7 +44,7 @@ struct InvertedIndex {
 
         [[nodiscard]] auto term_doc_iterator(Term const& term) const {
             auto it = self().term_list().find(term);
-            return term_doc_iterator2(it);
+            return term_doc_iterator(it);
         }
     };
 
@@ -52,6 +52,7 @@ struct InvertedIndex {
 
     class Transient : public Shared<Transient> {
         friend struct Shared<Transient>;
+        friend class Persistent;
 
         typename TermList::Transient term_list_{};
         typename DocList::Transient doc_list_{};
@@ -81,7 +82,7 @@ struct InvertedIndex {
         template <typename T>
         void insert(T&& term, uint32_t doc_id) {
             auto it = term_list_.lower_bound(term);
-            if (it->first != term) {
+            if (it == term_list_.end() || it->first != term) {
                 term_list_.insert(it, std::forward<T>(term), 0u);
             }
             auto [begin, end] = this->term_doc_iterator(it);
@@ -95,6 +96,7 @@ struct InvertedIndex {
 
     class Persistent : public Shared<Persistent> {
         friend struct Shared<Persistent>;
+        friend class Transient;
         
         typename TermList::Persistent term_list_{};
         typename DocList::Persistent doc_list_{};
@@ -123,9 +125,9 @@ struct InvertedIndex {
 
         template <typename T>
         [[nodiscard]] Persistent insert(T&& term, uint32_t doc_id) const {
-            Transient transient(transient());
-            transient.insert(std::forward<T>(term), doc_id);
-            return std::move(transient).persistent();
+            Transient copy(transient());
+            copy.insert(std::forward<T>(term), doc_id);
+            return std::move(copy).persistent();
         }
     };
 };
-- 
2.43.0


From 3a61e52d43e6ab1de4865abcec7b03582b753bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:57 +0000
Subject: [PATCH 08/11] fix: pop_back erases the last element instead of the
 position after it

find_last addresses the position after the last element of the right-most leaf, which is what
push_back needs. pop_back used it as well, so the sum and the minimum/maximum were updated with
whatever lies after the last element (past the end of the node if the leaf is full), and a popped
element of a copied leaf was never destroyed.
---
 include/bpptree/bpptree.hpp           | 2 +-
 include/bpptree/detail/operations.hpp | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/bpptree/bpptree.hpp b/include/bpptree/bpptree.hpp
index c218bd6..ae30b71 100644
--- a/include/bpptree/bpptree.hpp
+++ b/include/bpptree/bpptree.hpp
@@ -340,7 +340,7 @@ public:
 
         Value pop_back() {
             Value ret = this->self().back();
-            this->self().dispatch(Modify<Erase>(), find_last, Empty::empty);
+            this->self().dispatch(Modify<Erase>(), find_back, Empty::empty);
             return ret;
         }
 
diff --git a/include/bpptree/detail/operations.hpp b/include/bpptree/detail/operations.hpp
index c817d28..4b8512f 100644
--- a/include/bpptree/detail/operations.hpp
+++ b/include/bpptree/detail/operations.hpp
@@ -63,6 +63,7 @@ inline constexpr auto find_first = [](auto const&, Empty const&) {
     return std::tuple<int32_t, Empty>(0, Empty::empty);
 };
 
+// the position after the last element, for inserting
 inline constexpr auto find_last = [](auto const& node, Empty const&) {
     if constexpr (std::remove_reference_t<decltype(node)>::depth == 1) {
         return std::tuple<int32_t, Empty>(node.length, Empty::empty);
@@ -71,6 +72,11 @@ inline constexpr auto find_last = [](auto const& node, Empty const&) {
     }
 };
 
+// the position of the last element, for erasing
+inline constexpr auto find_back = [](auto const& node, Empty const&) {
+    return std::tuple<int32_t, Empty>(node.length - 1, Empty::empty);
+};
+
 inline constexpr auto find_iterator = [](auto const& node, uint64_t const& it) {
     return std::tuple<int32_t, uint64_t>(node.get_index(it), it);
 };
-- 
2.43.0


From 7e211ef2925c574d55c41b2d1ebde0d4442af7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:13 +0000
Subject: [PATCH 09/11] fix: a throwing element copy no longer leaks the
 elements copied before it

When elements of a persistent leaf were copied into a new one, the length of the new leaf was only
set after the last element. If copying an element threw, the destructor of the new leaf did not
destroy the elements that had been copied. They are now appended one by one.
---
 include/bpptree/detail/leafnodebase.hpp | 70 ++++++++++++++-----------
 1 file changed, 39 insertions(+), 31 deletions(-)

diff --git a/include/bpptree/detail/leafnodebase.hpp b/include/bpptree/detail/leafnodebase.hpp
index a9f7408..c1b3f38 100644
--- a/include/bpptree/detail/leafnodebase.hpp
+++ b/include/bpptree/detail/leafnodebase.hpp
@@ -84,22 +84,30 @@ struct LeafNodeBase : public Parent {
 
     void compute_delta_erase2(IndexType, InfoType&) const {}
 
+    // appends to a new node. copying an element may throw, so its length has to be the number of constructed elements
+    template <typename T>
+    static void copy_back(LeafNodeBase& node, T&& t) {
+        node.values.initialize(node.length, std::forward<T>(t));
+        ++node.length;
+    }
+
     template <typename... Args>
     void insert_no_split(LeafNodeBase& node, IndexType index, Args&&... args) noexcept(disable_exceptions) {
-        for (IndexType i = this->length; i > index; --i) {
-            if (this->persistent) {
-                node.values.set(i, node.length, values[i - 1]);
-            } else {
-                node.values.set(i, node.length, values.move(i - 1));
-            }
-        }
-        node.values.emplace(index, node.length, std::forward<Args>(args)...);
         if (this->persistent) {
             for (IndexType i = 0; i < index; ++i) {
-                node.values.set(i, node.length, values[i]);
+                copy_back(node, values[i]);
             }
+            copy_back(node, std::forward<Args>(args)...);
+            for (IndexType i = index; i < this->length; ++i) {
+                copy_back(node, values[i]);
+            }
+        } else {
+            for (IndexType i = this->length; i > index; --i) {
+                node.values.set(i, node.length, values.move(i - 1));
+            }
+            node.values.emplace(index, node.length, std::forward<Args>(args)...);
+            node.length = this->length + 1;
         }
-        node.length = this->length + 1;
     }
 
     template <typename T>
@@ -114,22 +122,24 @@ struct LeafNodeBase : public Parent {
     template <typename... Args>
     bool insert_split(LeafNodeBase& left, LeafNodeBase& right, IndexType index, uint64_t& iter, bool right_most, Args&&... args) noexcept(disable_exceptions) {
         IndexType split_point = right_most && index == leaf_size ? index : (leaf_size + 1) / 2;
-        for (IndexType i = this->length; i > index; --i) {
-            if (this->persistent) {
-                set_element(left, right, i, split_point, values[i - 1]);
-            } else {
-                set_element(left, right, i, split_point, std::move(values[i - 1]));
+        if (this->persistent) {
+            for (IndexType i = 0; i < index; ++i) {
+                copy_back(i < split_point ? left : right, values[i]);
+            }
+            copy_back(index < split_point ? left : right, std::forward<Args>(args)...);
+            for (IndexType i = index; i < this->length; ++i) {
+                copy_back(i + 1 < split_point ? left : right, values[i]);
             }
-        }
-        if (index < split_point) {
-            left.values.emplace(index, left.length, std::forward<Args>(args)...);
         } else {
-            right.values.emplace(index - split_point, right.length, std::forward<Args>(args)...);
-        }
-        for (IndexType i = this->persistent ? 0 : split_point; i < index; ++i) {
-            if (this->persistent) {
-                set_element(left, right, i, split_point, values[i]);
+            for (IndexType i = this->length; i > index; --i) {
+                set_element(left, right, i, split_point, std::move(values[i - 1]));
+            }
+            if (index < split_point) {
+                left.values.emplace(index, left.length, std::forward<Args>(args)...);
             } else {
+                right.values.emplace(index - split_point, right.length, std::forward<Args>(args)...);
+            }
+            for (IndexType i = split_point; i < index; ++i) {
                 set_element(left, right, i, split_point, std::move(values[i]));
             }
         }
@@ -213,17 +223,15 @@ struct LeafNodeBase : public Parent {
     bool erase(LeafNodeBase& node, IndexType index, uint64_t& iter, bool right_most) {
         if (this->persistent) {
             for (IndexType i = 0; i < index; ++i) {
-                node.values.set(i, node.length, values[i]);
+                copy_back(node, values[i]);
             }
-        }
-        for (IndexType i = index + 1; i < this->length; ++i) {
-            if (this->persistent) {
-                node.values.set(i - 1, node.length, values[i]);
-            } else {
+            for (IndexType i = index + 1; i < this->length; ++i) {
+                copy_back(node, values[i]);
+            }
+        } else {
+            for (IndexType i = index + 1; i < this->length; ++i) {
                 node.values.set(i - 1, node.length, values.move(i));
             }
-        }
-        if (node.length == this->length) {
             node.values.destruct(this->length - 1);
         }
         node.length = this->length - 1;
-- 
2.43.0


From 9574361457a4f4e33c635e758a7b2c5ceddd942d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:15 +0000
Subject: [PATCH 10/11] fix: min and max of an empty range are rejected by the
 safety checks

---
 include/bpptree/detail/minmax2.ipp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/bpptree/detail/minmax2.ipp b/include/bpptree/detail/minmax2.ipp
index 1bf721b..7019b1a 100644
--- a/include/bpptree/detail/minmax2.ipp
+++ b/include/bpptree/detail/minmax2.ipp
@@ -18,6 +18,11 @@ template <typename Value, typename KeyExtractor, typename Comp>
 template <typename Parent>
 template <typename It>
 typename BPPTREE_MINMAX_UPPER<Value, KeyExtractor, Comp>::KeyRef BPPTREE_MINMAX_UPPER<Value, KeyExtractor, Comp>::Shared<Parent>::BPPTREE_MINMAX(const It& begin, const It& end) const {
+#ifdef BPPTREE_SAFETY_CHECKS
+    if (!(begin < end)) {
+        throw std::out_of_range("cannot call " BPPTREE_MINMAXSTR " on empty range");
+    }
+#endif
     return this->self().dispatch(
             [&begin, &end](auto const& root) -> decltype(auto) {
                 if constexpr (It::is_reversed) {
@@ -42,6 +47,11 @@ template <typename Value, typename KeyExtractor, typename Comp>
 template <typename Parent>
 template <typename OutIt, typename InIt>
 void BPPTREE_MINMAX_UPPER<Value, KeyExtractor, Comp>::Shared<Parent>::BPPTREE_CONCAT(seek_, BPPTREE_MINMAX)(OutIt& out, const InIt& begin, const InIt& end) const {
+#ifdef BPPTREE_SAFETY_CHECKS
+    if (!(begin < end)) {
+        throw std::out_of_range("cannot call " BPPTREE_MINMAXSTR " on empty range");
+    }
+#endif
     this->self().dispatch(
             [&out, &begin, &end](auto const& root) {
                 if constexpr (InIt::is_reversed) {
-- 
2.43.0


From 4d9bc7d00ad355c44401671caeb41fa05de92ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:30 +0000
Subject: [PATCH 11/11] Revert "fix: repair the inverted index example"

This reverts commit d6080e3e3c0740861c93206ed62ff3df8349bc22.
---
 examples/inverted_index.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/examples/inverted_index.hpp b/examples/inverted_index.hpp
index 6e0dd24..6d9843c 100644
--- a/examples/inverted_index.hpp
+++ b/examples/inverted_index.hpp
@@ -44,7 +44,7 @@ struct InvertedIndex {
 
         [[nodiscard]] auto term_doc_iterator(Term const& term) const {
             auto it = self().term_list().find(term);
-            return term_doc_iterator(it);
+            return term_doc_iterator2(it);
         }
     };
 
@@ -52,7 +52,6 @@ struct InvertedIndex {
 
     class Transient : public Shared<Transient> {
         friend struct Shared<Transient>;
-        friend class Persistent;
 
         typename TermList::Transient term_list_{};
         typename DocList::Transient doc_list_{};
@@ -82,7 +81,7 @@ struct InvertedIndex {
         template <typename T>
         void insert(T&& term, uint32_t doc_id) {
             auto it = term_list_.lower_bound(term);
-            if (it == term_list_.end() || it->first != term) {
+            if (it->first != term) {
                 term_list_.insert(it, std::forward<T>(term), 0u);
             }
             auto [begin, end] = this->term_doc_iterator(it);
@@ -96,7 +95,6 @@ struct InvertedIndex {
 
     class Persistent : public Shared<Persistent> {
         friend struct Shared<Persistent>;
-        friend class Transient;
         
         typename TermList::Persistent term_list_{};
         typename DocList::Persistent doc_list_{};
@@ -125,9 +123,9 @@ struct InvertedIndex {
 
         template <typename T>
         [[nodiscard]] Persistent insert(T&& term, uint32_t doc_id) const {
-            Transient copy(transient());
-            copy.insert(std::forward<T>(term), doc_id);
-            return std::move(copy).persistent();
+            Transient transient(transient());
+            transient.insert(std::forward<T>(term), doc_id);
+            return std::move(transient).persistent();
         }
     };
 };
-- 
2.43.0

