From 52758ad77d582e59dc3f3f57522a461cb4e8e743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 01/10] fix: map_path passed the closure a stale (and possibly
 dangling) path

MapPath and CollectionMapPath captured a raw pointer to the current path
before advancing the inner iterator, so the closure saw the previous node's
path, through a pointer that the advance may have invalidated.
---
 .../src/tree_collection_iterators/map_path.rs              | 5 ++---
 tree_iterators_rs/src/tree_iterators/map_path.rs           | 7 ++-----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/tree_iterators_rs/src/tree_collection_iterators/map_path.rs b/tree_iterators_rs/src/tree_collection_iterators/map_path.rs
index 293eeaf..6fac816 100644
--- a/tree_iterators_rs/src/tree_collection_iterators/map_path.rs
+++ b/tree_iterators_rs/src/tree_collection_iterators/map_path.rs
@@ -37,9 +37,8 @@ where
     type Item = Output;
 
     fn next(&mut self) -> Option<Self::Item> {
-        // SAFETY: self.f cannot borrow path mutably since path is our internal state.
-        let path = unsafe { &*(self.current_path() as *const [usize]) };
-        self.inner.next().map(|value| (self.f)(path, value))
+        let value = self.inner.next()?;
+        Some((self.f)(self.inner.current_path(), value))
     }
 }
 
diff --git a/tree_iterators_rs/src/tree_iterators/map_path.rs b/tree_iterators_rs/src/tree_iterators/map_path.rs
index 4c36137..b9bed17 100644
--- a/tree_iterators_rs/src/tree_iterators/map_path.rs
+++ b/tree_iterators_rs/src/tree_iterators/map_path.rs
@@ -37,11 +37,8 @@ where
     type Item = Output;
 
     fn next(&mut self) -> Option<Self::Item> {
-        // SAFETY: self.f cannot borrow path mutably since path is our internal state.
-        let path = self.current_path() as *const [usize];
-        self.inner
-            .next()
-            .map(|value| (self.f)(unsafe { &*path }, value))
+        let value = self.inner.next()?;
+        Some((self.f)(self.inner.current_path(), value))
     }
 }
 
-- 
2.43.0


From 5f0fb6e50968fb30bf25d370afad90e48cd7fbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:11 +0000
Subject: [PATCH 02/10] fix: current_path of a pruned pipeline ignored sibling
 positions

Prune, PrunePath and their collection counterparts only advanced the last
path segment when returning from a deeper level, and never accounted for the
pruned siblings they counted, so every stage after a prune() saw wrong paths.
---
 .../src/tree_collection_iterators/prune.rs           | 12 +++++++++---
 .../src/tree_collection_iterators/prune_path.rs      | 12 +++++++++---
 tree_iterators_rs/src/tree_iterators/prune.rs        | 12 +++++++++---
 tree_iterators_rs/src/tree_iterators/prune_path.rs   | 12 +++++++++---
 4 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/tree_iterators_rs/src/tree_collection_iterators/prune.rs b/tree_iterators_rs/src/tree_collection_iterators/prune.rs
index 34f62d0..805221c 100644
--- a/tree_iterators_rs/src/tree_collection_iterators/prune.rs
+++ b/tree_iterators_rs/src/tree_collection_iterators/prune.rs
@@ -58,10 +58,16 @@ where
             } else if self.pruned_at_each_depth.len() > inner_path_len {
                 self.pruned_at_each_depth.truncate(inner_path_len);
                 self.current_path.truncate(inner_path_len);
+            }
 
-                if let Some(last_path_segment) = self.current_path.last_mut() {
-                    *last_path_segment += 1;
-                }
+            // The siblings which have already been pruned don't count towards
+            // the position of the current node in the pruned tree.
+            if let (Some(last_path_segment), Some(inner_segment), Some(pruned)) = (
+                self.current_path.last_mut(),
+                self.inner.current_path().last(),
+                self.pruned_at_each_depth.last(),
+            ) {
+                *last_path_segment = inner_segment.saturating_sub(*pruned);
             }
 
             if (self.f)(&item) {
diff --git a/tree_iterators_rs/src/tree_collection_iterators/prune_path.rs b/tree_iterators_rs/src/tree_collection_iterators/prune_path.rs
index d32eaa0..7cbecf7 100644
--- a/tree_iterators_rs/src/tree_collection_iterators/prune_path.rs
+++ b/tree_iterators_rs/src/tree_collection_iterators/prune_path.rs
@@ -63,10 +63,16 @@ where
             } else if self.pruned_at_each_depth.len() > inner_path_len {
                 self.pruned_at_each_depth.truncate(inner_path_len);
                 self.current_path.truncate(inner_path_len);
+            }
 
-                if let Some(last_path_segment) = self.current_path.last_mut() {
-                    *last_path_segment += 1;
-                }
+            // The siblings which have already been pruned don't count towards
+            // the position of the current node in the pruned tree.
+            if let (Some(last_path_segment), Some(inner_segment), Some(pruned)) = (
+                self.current_path.last_mut(),
+                self.inner.current_path().last(),
+                self.pruned_at_each_depth.last(),
+            ) {
+                *last_path_segment = inner_segment.saturating_sub(*pruned);
             }
 
             if (self.f)(self.inner.current_path(), &item) {
diff --git a/tree_iterators_rs/src/tree_iterators/prune.rs b/tree_iterators_rs/src/tree_iterators/prune.rs
index 6af5b61..0e4f381 100644
--- a/tree_iterators_rs/src/tree_iterators/prune.rs
+++ b/tree_iterators_rs/src/tree_iterators/prune.rs
@@ -58,10 +58,16 @@ where
             } else if self.pruned_at_each_depth.len() > inner_path_len {
                 self.pruned_at_each_depth.truncate(inner_path_len);
                 self.current_path.truncate(inner_path_len);
+            }
 
-                if let Some(last_path_segment) = self.current_path.last_mut() {
-                    *last_path_segment += 1;
-                }
+            // The siblings which have already been pruned don't count towards
+            // the position of the current node in the pruned tree.
+            if let (Some(last_path_segment), Some(inner_segment), Some(pruned)) = (
+                self.current_path.last_mut(),
+                self.inner.current_path().last(),
+                self.pruned_at_each_depth.last(),
+            ) {
+                *last_path_segment = inner_segment.saturating_sub(*pruned);
             }
 
             if (self.f)(&item) {
diff --git a/tree_iterators_rs/src/tree_iterators/prune_path.rs b/tree_iterators_rs/src/tree_iterators/prune_path.rs
index 1d53054..2dfa3d1 100644
--- a/tree_iterators_rs/src/tree_iterators/prune_path.rs
+++ b/tree_iterators_rs/src/tree_iterators/prune_path.rs
@@ -58,10 +58,16 @@ where
             } else if self.pruned_at_each_depth.len() > inner_depth {
                 self.pruned_at_each_depth.truncate(inner_depth);
                 self.current_path.truncate(inner_depth);
+            }
 
-                if let Some(last_path_segment) = self.current_path.last_mut() {
-                    *last_path_segment += 1;
-                }
+            // The siblings which have already been pruned don't count towards
+            // the position of the current node in the pruned tree.
+            if let (Some(last_path_segment), Some(inner_segment), Some(pruned)) = (
+                self.current_path.last_mut(),
+                self.inner.current_path().last(),
+                self.pruned_at_each_depth.last(),
+            ) {
+                *last_path_segment = inner_segment.saturating_sub(*pruned);
             }
 
             if (self.f)(self.inner.current_path(), &item) {
-- 
2.43.0


From 727a4448ce3c3ec7fa6158b4cad6b46faccbe73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 03/10] fix: leaves() called mid-iteration skipped leaves on
 depth first iterators

A leaf reached directly through one of the iterators left over from the
original traversal was not flagged as just added, so it was dropped instead
of being yielded.
---
 tree_iterators_rs/src/leaves_iterators/depth_first/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tree_iterators_rs/src/leaves_iterators/depth_first/mod.rs b/tree_iterators_rs/src/leaves_iterators/depth_first/mod.rs
index 3acbce6..6995f89 100644
--- a/tree_iterators_rs/src/leaves_iterators/depth_first/mod.rs
+++ b/tree_iterators_rs/src/leaves_iterators/depth_first/mod.rs
@@ -34,7 +34,8 @@ macro_rules! dfs_postorder_leaves_next {
                     if let Some(node) = next_iter.next() {
                         let (value, children) = node.$get_value_and_children();
                         self.item_stack.push(value);
-                        self.traversal_stack_top.push(children.into_iter())
+                        self.traversal_stack_top.push(children.into_iter());
+                        just_added = true;
                     } else {
                         self.traversal_stack_bottom.pop();
                     }
-- 
2.43.0


From 39cecccdb50f088ffd578b6afd8c6ad5b7926f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:32 +0000
Subject: [PATCH 04/10] fix: attach_ancestors().leaves() yielded wrong stacks
 mid-iteration

When converted after the first advance(), the depth first ancestors-leaves
iterators popped ancestors which were still being visited, interleaved the
leftover iterators with newly added ones, and (in order) misaligned the
leftover right children with their ancestors, so leaves were dropped or
reported with the wrong ancestors.
---
 .../src/dfs_inorder_iterators/borrow.rs       | 16 +++++--
 .../src/dfs_inorder_iterators/mut_borrow.rs   | 16 +++++--
 .../src/dfs_inorder_iterators/owned.rs        | 16 +++++--
 .../ancestors_depth_first/mod.rs              | 48 +++++++++----------
 4 files changed, 56 insertions(+), 40 deletions(-)

diff --git a/tree_iterators_rs/src/dfs_inorder_iterators/borrow.rs b/tree_iterators_rs/src/dfs_inorder_iterators/borrow.rs
index 3d91844..83233c0 100644
--- a/tree_iterators_rs/src/dfs_inorder_iterators/borrow.rs
+++ b/tree_iterators_rs/src/dfs_inorder_iterators/borrow.rs
@@ -148,15 +148,21 @@ where
         let root;
         let old_traversal_stack;
 
-        if self.right_stack.len() == 1 {
-            root = core::mem::take(self.right_stack.get_mut(0).unwrap());
+        if self.item_stack.is_empty() {
+            root = self.right_stack.pop().flatten();
             old_traversal_stack = Vec::new();
         } else {
             root = None;
+            // There must be one iterator per ancestor, including those whose
+            // right child has already been taken off of the right stack.
+            let mut right_stack = self.right_stack.into_iter();
             old_traversal_stack = self
-                .right_stack
-                .into_iter()
-                .map(|opt| opt.into_iter())
+                .status_stack
+                .iter()
+                .map(|status| match status {
+                    TraversalStatus::WentRight => None.into_iter(),
+                    _ => right_stack.next().flatten().into_iter(),
+                })
                 .collect();
         }
 
diff --git a/tree_iterators_rs/src/dfs_inorder_iterators/mut_borrow.rs b/tree_iterators_rs/src/dfs_inorder_iterators/mut_borrow.rs
index e54cbdf..5d881b9 100644
--- a/tree_iterators_rs/src/dfs_inorder_iterators/mut_borrow.rs
+++ b/tree_iterators_rs/src/dfs_inorder_iterators/mut_borrow.rs
@@ -152,15 +152,21 @@ where
         let root;
         let old_traversal_stack;
 
-        if self.right_stack.len() == 1 {
-            root = core::mem::take(self.right_stack.get_mut(0).unwrap());
+        if self.item_stack.is_empty() {
+            root = self.right_stack.pop().flatten();
             old_traversal_stack = Vec::new();
         } else {
             root = None;
+            // There must be one iterator per ancestor, including those whose
+            // right child has already been taken off of the right stack.
+            let mut right_stack = self.right_stack.into_iter();
             old_traversal_stack = self
-                .right_stack
-                .into_iter()
-                .map(|opt| opt.into_iter())
+                .status_stack
+                .iter()
+                .map(|status| match status {
+                    TraversalStatus::WentRight => None.into_iter(),
+                    _ => right_stack.next().flatten().into_iter(),
+                })
                 .collect();
         }
 
diff --git a/tree_iterators_rs/src/dfs_inorder_iterators/owned.rs b/tree_iterators_rs/src/dfs_inorder_iterators/owned.rs
index 4757f64..c7e77a0 100644
--- a/tree_iterators_rs/src/dfs_inorder_iterators/owned.rs
+++ b/tree_iterators_rs/src/dfs_inorder_iterators/owned.rs
@@ -148,15 +148,21 @@ where
         let root;
         let old_traversal_stack;
 
-        if self.right_stack.len() == 1 {
-            root = core::mem::take(self.right_stack.get_mut(0).unwrap());
+        if self.item_stack.is_empty() {
+            root = self.right_stack.pop().flatten();
             old_traversal_stack = Vec::new();
         } else {
             root = None;
+            // There must be one iterator per ancestor, including those whose
+            // right child has already been taken off of the right stack.
+            let mut right_stack = self.right_stack.into_iter();
             old_traversal_stack = self
-                .right_stack
-                .into_iter()
-                .map(|opt| opt.into_iter())
+                .status_stack
+                .iter()
+                .map(|status| match status {
+                    TraversalStatus::WentRight => None.into_iter(),
+                    _ => right_stack.next().flatten().into_iter(),
+                })
                 .collect();
         }
 
diff --git a/tree_iterators_rs/src/leaves_iterators/ancestors_depth_first/mod.rs b/tree_iterators_rs/src/leaves_iterators/ancestors_depth_first/mod.rs
index 1f79a09..79e0edb 100644
--- a/tree_iterators_rs/src/leaves_iterators/ancestors_depth_first/mod.rs
+++ b/tree_iterators_rs/src/leaves_iterators/ancestors_depth_first/mod.rs
@@ -11,45 +11,43 @@ macro_rules! streaming_leaves {
                 self.new_traversal_stack.push(children.into_iter());
                 self.item_stack.push(value);
                 pushed_another_iterator = true;
-            } else {
+            } else if self.item_stack.len()
+                > self.old_traversal_stack.len() + self.new_traversal_stack.len()
+            {
+                // The current leaf is the only item whose children iterator
+                // has already been removed from the traversal stacks.
                 self.item_stack.pop();
             }
 
             loop {
-                if let Some(new_stack_last) = self.new_traversal_stack.last_mut() {
-                    if let Some(node) = new_stack_last.next() {
-                        let (value, children) = node.$get_value_and_children();
-                        self.new_traversal_stack.push(children.into_iter());
-                        self.item_stack.push(value);
-                        pushed_another_iterator = true;
-                        continue;
-                    }
-                }
-
-                self.new_traversal_stack.pop();
-                if pushed_another_iterator {
+                // The iterators of the original traversal are above those that
+                // were added since in the tree, so they must be visited last.
+                let next = if let Some(new_stack_last) = self.new_traversal_stack.last_mut() {
+                    new_stack_last.next()
+                } else if let Some(old_stack_last) = self.old_traversal_stack.last_mut() {
+                    old_stack_last.next()
+                } else {
+                    self.item_stack.clear();
                     return;
+                };
+
+                if let Some(node) = next {
+                    let (value, children) = node.$get_value_and_children();
+                    self.new_traversal_stack.push(children.into_iter());
+                    self.item_stack.push(value);
+                    pushed_another_iterator = true;
+                    continue;
                 }
 
-                if let Some(old_stack_last) = self.old_traversal_stack.last_mut() {
-                    if let Some(node) = old_stack_last.next() {
-                        let (value, children) = node.$get_value_and_children();
-                        self.new_traversal_stack.push(children.into_iter());
-                        self.item_stack.push(value);
-                        pushed_another_iterator = true;
-                        continue;
-                    }
+                if self.new_traversal_stack.pop().is_none() {
+                    self.old_traversal_stack.pop();
                 }
 
-                self.old_traversal_stack.pop();
                 if pushed_another_iterator {
                     return;
                 }
 
                 self.item_stack.pop();
-                if self.item_stack.is_empty() {
-                    break;
-                }
             }
         }
 
-- 
2.43.0


From f1a519295a30444b9bb44f79bf1014ff52f8fce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:41 +0000
Subject: [PATCH 05/10] fix: double free in dfs_postorder().attach_context()
 for owning children

The borrowed and mutably borrowed postorder context iterators duplicated the
children of every node with ptr::read. Any implementation whose children
collection owns memory (e.g. a Vec of references) was dropped twice. Get the
children from the node again when they are exposed instead.
---
 .../src/dfs_postorder_iterators/borrow.rs     | 30 +++-----
 .../src/dfs_postorder_iterators/mut_borrow.rs | 70 ++++++++++++-------
 2 files changed, 55 insertions(+), 45 deletions(-)

diff --git a/tree_iterators_rs/src/dfs_postorder_iterators/borrow.rs b/tree_iterators_rs/src/dfs_postorder_iterators/borrow.rs
index cc407e0..c0bf404 100644
--- a/tree_iterators_rs/src/dfs_postorder_iterators/borrow.rs
+++ b/tree_iterators_rs/src/dfs_postorder_iterators/borrow.rs
@@ -108,7 +108,7 @@ where
 {
     root: Option<&'a Node>,
     traversal_stack: Vec<<Node::BorrowedChildren as IntoIterator>::IntoIter>,
-    into_iterator_stack: Vec<Node::BorrowedChildren>,
+    node_stack: Vec<&'a Node>,
     current_context: TreeContext<Node::BorrowedValue, Node::BorrowedChildren>,
 }
 
@@ -120,7 +120,7 @@ where
         Self {
             root: Some(root),
             traversal_stack: Vec::new(),
-            into_iterator_stack: Vec::new(),
+            node_stack: Vec::new(),
             current_context: TreeContext {
                 path,
                 ancestors: Vec::new(),
@@ -138,14 +138,10 @@ where
     fn advance(&mut self) {
         if let Some(next) = self.root.take() {
             let (value, children) = next.get_value_and_children_iter();
-            // ASSUMPTION: self.into_iterator_stack will always outlive self.traversal_stack.
-            // If that assumption is not true, this code will cause Undefined Behavior.
-            self.traversal_stack.push(
-                unsafe { core::ptr::read(&children as *const Node::BorrowedChildren) }.into_iter(),
-            );
+            self.traversal_stack.push(children.into_iter());
             self.current_context.ancestors.push(value);
             self.current_context.path.push(usize::MAX);
-            self.into_iterator_stack.push(children);
+            self.node_stack.push(next);
         } else {
             self.current_context.ancestors.pop();
             if self.current_context.ancestors.is_empty() {
@@ -165,24 +161,18 @@ where
 
                     let (value, children) = node.get_value_and_children_iter();
 
-                    // ASSUMPTION: self.into_iterator_stack will always outlive self.traversal_stack.
-                    // If that assumption is not true, this code will cause Undefined Behavior.
-                    self.traversal_stack.push(
-                        unsafe { core::ptr::read(&children as *const Node::BorrowedChildren) }
-                            .into_iter(),
-                    );
+                    self.traversal_stack.push(children.into_iter());
                     self.current_context.ancestors.push(value);
                     self.current_context.path.push(usize::MAX);
-                    self.into_iterator_stack.push(children);
+                    self.node_stack.push(node);
                     continue;
                 }
             }
 
-            self.current_context.children = Some(
-                self.into_iterator_stack
-                    .pop()
-                    .expect("There to be a childe IntoIterator"),
-            );
+            // The children which were traversed have been consumed, so get them again.
+            let node = self.node_stack.pop().expect("There to be a current node");
+            let (_, children) = node.get_value_and_children_iter();
+            self.current_context.children = Some(children);
             self.traversal_stack.pop();
             self.current_context.path.pop();
             break;
diff --git a/tree_iterators_rs/src/dfs_postorder_iterators/mut_borrow.rs b/tree_iterators_rs/src/dfs_postorder_iterators/mut_borrow.rs
index 703337e..8a16614 100644
--- a/tree_iterators_rs/src/dfs_postorder_iterators/mut_borrow.rs
+++ b/tree_iterators_rs/src/dfs_postorder_iterators/mut_borrow.rs
@@ -1,4 +1,4 @@
-use core::array::IntoIter;
+use core::{array::IntoIter, marker::PhantomData};
 
 use crate::{
     leaves_iterators::{
@@ -106,13 +106,37 @@ where
     dfs_postorder_next!(get_value_and_children_iter_mut);
 }
 
+/// A pointer to a node whose value and children are (re-)borrowed one at a time.
+struct NodePtr<'a, Node> {
+    ptr: *mut Node,
+    phantom: PhantomData<&'a mut Node>,
+}
+
+// SAFETY: NodePtr is only ever used in place of the &'a mut Node it was created from.
+unsafe impl<Node: Send> Send for NodePtr<'_, Node> {}
+unsafe impl<Node: Sync> Sync for NodePtr<'_, Node> {}
+
+impl<'a, Node> NodePtr<'a, Node> {
+    fn new(node: &'a mut Node) -> Self {
+        Self {
+            ptr: node,
+            phantom: PhantomData,
+        }
+    }
+
+    /// SAFETY: Everything borrowed from an earlier call must no longer be in use.
+    unsafe fn get_mut(&mut self) -> &'a mut Node {
+        &mut *self.ptr
+    }
+}
+
 pub struct MutBorrowedDFSPostorderIteratorWithContext<'a, Node>
 where
     Node: MutBorrowedTreeNode<'a>,
 {
     root: Option<&'a mut Node>,
     traversal_stack: Vec<<Node::MutBorrowedChildren as IntoIterator>::IntoIter>,
-    into_iterator_stack: Vec<Node::MutBorrowedChildren>,
+    node_stack: Vec<NodePtr<'a, Node>>,
     current_context: TreeContext<Node::MutBorrowedValue, Node::MutBorrowedChildren>,
 }
 
@@ -127,7 +151,7 @@ where
         Self {
             root: Some(root),
             traversal_stack: Vec::new(),
-            into_iterator_stack: Vec::new(),
+            node_stack: Vec::new(),
             current_context: TreeContext {
                 path,
                 ancestors: Vec::new(),
@@ -144,16 +168,12 @@ where
     type Item = TreeContext<Node::MutBorrowedValue, Node::MutBorrowedChildren>;
     fn advance(&mut self) {
         if let Some(next) = self.root.take() {
-            let (value, children) = next.get_value_and_children_iter_mut();
-            // ASSUMPTION: self.into_iterator_stack will always outlive self.traversal_stack.
-            // If that assumption is not true, this code will cause Undefined Behavior.
-            self.traversal_stack.push(
-                unsafe { core::ptr::read(&children as *const Node::MutBorrowedChildren) }
-                    .into_iter(),
-            );
+            let mut node = NodePtr::new(next);
+            let (value, children) = unsafe { node.get_mut() }.get_value_and_children_iter_mut();
+            self.traversal_stack.push(children.into_iter());
             self.current_context.ancestors.push(value);
             self.current_context.path.push(usize::MAX);
-            self.into_iterator_stack.push(children);
+            self.node_stack.push(node);
         } else {
             self.current_context.ancestors.pop();
             if self.current_context.ancestors.is_empty() {
@@ -171,28 +191,28 @@ where
                         .expect("There to be a path unless we are on the root element");
                     *last = last.wrapping_add(1);
 
-                    let (value, children) = node.get_value_and_children_iter_mut();
-
-                    // ASSUMPTION: self.into_iterator_stack will always outlive self.traversal_stack.
-                    // If that assumption is not true, this code will cause Undefined Behavior.
-                    self.traversal_stack.push(
-                        unsafe { core::ptr::read(&children as *const Node::MutBorrowedChildren) }
-                            .into_iter(),
-                    );
+                    let mut node = NodePtr::new(node);
+                    let (value, children) =
+                        unsafe { node.get_mut() }.get_value_and_children_iter_mut();
+                    self.traversal_stack.push(children.into_iter());
                     self.current_context.ancestors.push(value);
                     self.current_context.path.push(usize::MAX);
-                    self.into_iterator_stack.push(children);
+                    self.node_stack.push(node);
                     continue;
                 }
             }
 
-            self.current_context.children = Some(
-                self.into_iterator_stack
-                    .pop()
-                    .expect("There to be a children IntoIterator"),
-            );
             self.traversal_stack.pop();
             self.current_context.path.pop();
+
+            // The children which were traversed have been consumed, so get them again. That
+            // also produces a new value, which must replace the one it would be aliasing.
+            let mut node = self.node_stack.pop().expect("There to be a current node");
+            self.current_context.children = None;
+            self.current_context.ancestors.pop();
+            let (value, children) = unsafe { node.get_mut() }.get_value_and_children_iter_mut();
+            self.current_context.ancestors.push(value);
+            self.current_context.children = Some(children);
             return;
         }
     }
-- 
2.43.0


From dfc1890e94ca9d69e4277c104a0890607d4b77e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:58 +0000
Subject: [PATCH 06/10] fix: BFS ancestors and context iterators leaked values
 when dropped early

The values parked between levels were stored as MaybeUninit, which never
drops them, so dropping an owned iterator before the end leaked every value
that was waiting for its descendants to be visited.
---
 tree_iterators_rs/src/bfs_iterators/mod.rs    | 22 +++++++++----------
 .../ancestors_breadth_first/mod.rs            |  8 +++----
 2 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/tree_iterators_rs/src/bfs_iterators/mod.rs b/tree_iterators_rs/src/bfs_iterators/mod.rs
index 2ba830c..fead8d0 100644
--- a/tree_iterators_rs/src/bfs_iterators/mod.rs
+++ b/tree_iterators_rs/src/bfs_iterators/mod.rs
@@ -131,8 +131,7 @@ macro_rules! bfs_context_advance_iterator {
                 if let Some(mut value) = child {
                     self.current_context
                         .ancestors
-                        .push(unsafe { value.value.assume_init() });
-                    value.value = core::mem::MaybeUninit::uninit();
+                        .push(value.value.take().expect("a value for each stored node"));
 
                     self.current_context.path.push(value.path_segment);
 
@@ -157,8 +156,7 @@ macro_rules! bfs_context_advance_iterator {
 
                 if self.current_context.ancestors.len() > 1 {
                     let target = self.traversal_stack.last_mut().unwrap();
-                    target.value =
-                        core::mem::MaybeUninit::new(self.current_context.ancestors.pop().unwrap());
+                    target.value = self.current_context.ancestors.pop();
                     target.path_segment = self.current_context.path.pop().unwrap();
                 }
 
@@ -185,7 +183,7 @@ macro_rules! bfs_context_advance_iterator {
             };
 
             tree_node.children.push_back(Some(TreeNodeVecDeque {
-                value: core::mem::MaybeUninit::new(self.current_context.ancestors.pop().unwrap()),
+                value: self.current_context.ancestors.pop(),
                 path_segment: self.current_context.path.pop().unwrap(),
                 children: VecDeque::new(),
             }));
@@ -361,8 +359,8 @@ macro_rules! bfs_ancestors_advance_iterator {
                 };
 
                 if let Some(mut value) = child {
-                    self.item_stack.push(unsafe { value.value.assume_init() });
-                    value.value = core::mem::MaybeUninit::uninit();
+                    self.item_stack
+                        .push(value.value.take().expect("a value for each stored node"));
                     let has_children = !value.children.is_empty();
                     self.traversal_stack.push(value);
                     if !has_children && self.item_stack.len() >= starting_depth {
@@ -383,7 +381,7 @@ macro_rules! bfs_ancestors_advance_iterator {
 
                 if self.item_stack.len() > 1 {
                     let target = self.traversal_stack.last_mut().unwrap();
-                    target.value = core::mem::MaybeUninit::new(self.item_stack.pop().unwrap());
+                    target.value = self.item_stack.pop();
                 }
 
                 if let Some(popped) = self.traversal_stack.pop() {
@@ -413,7 +411,7 @@ macro_rules! bfs_ancestors_advance_iterator {
             };
 
             tree_node.children.push_back(Some(TreeNodeVecDeque {
-                value: core::mem::MaybeUninit::new(self.item_stack.pop().unwrap()),
+                value: self.item_stack.pop(),
                 path_segment: 0,
                 children: VecDeque::new(),
             }));
@@ -432,7 +430,7 @@ pub(crate) use get_mut_context;
 
 #[derive(Debug)]
 pub(crate) struct TreeNodeVecDeque<T> {
-    pub(crate) value: core::mem::MaybeUninit<T>,
+    pub(crate) value: Option<T>,
     pub(crate) path_segment: usize,
     pub(crate) children: alloc::collections::VecDeque<Option<Self>>,
 }
@@ -443,7 +441,7 @@ where
 {
     fn clone(&self) -> Self {
         Self {
-            value: core::mem::MaybeUninit::new(unsafe { self.value.assume_init_ref().clone() }),
+            value: self.value.clone(),
             path_segment: self.path_segment,
             children: self.children.clone(),
         }
@@ -453,7 +451,7 @@ where
 impl<T> Default for TreeNodeVecDeque<T> {
     fn default() -> Self {
         Self {
-            value: core::mem::MaybeUninit::uninit(),
+            value: None,
             path_segment: 0,
             children: alloc::collections::VecDeque::new(),
         }
diff --git a/tree_iterators_rs/src/leaves_iterators/ancestors_breadth_first/mod.rs b/tree_iterators_rs/src/leaves_iterators/ancestors_breadth_first/mod.rs
index 668927b..be1cc30 100644
--- a/tree_iterators_rs/src/leaves_iterators/ancestors_breadth_first/mod.rs
+++ b/tree_iterators_rs/src/leaves_iterators/ancestors_breadth_first/mod.rs
@@ -22,8 +22,8 @@ macro_rules! bfs_next {
                 };
 
                 if let Some(mut value) = child {
-                    self.item_stack.push(unsafe { value.value.assume_init() });
-                    value.value = core::mem::MaybeUninit::uninit();
+                    self.item_stack
+                        .push(value.value.take().expect("a value for each stored node"));
                     let has_children = !value.children.is_empty();
                     self.traversal_stack.push(value);
                     if !has_children && self.item_stack.len() >= starting_depth {
@@ -43,7 +43,7 @@ macro_rules! bfs_next {
 
                 if self.item_stack.len() > 1 {
                     let target = self.traversal_stack.last_mut().unwrap();
-                    target.value = core::mem::MaybeUninit::new(self.item_stack.pop().unwrap());
+                    target.value = self.item_stack.pop();
                 }
 
                 if let Some(popped) = self.traversal_stack.pop() {
@@ -70,7 +70,7 @@ macro_rules! bfs_next {
             };
 
             tree_node.children.push_back(Some(TreeNodeVecDeque {
-                value: core::mem::MaybeUninit::new(self.item_stack.pop().unwrap()),
+                value: self.item_stack.pop(),
                 path_segment: 0,
                 children: VecDeque::new(),
             }));
-- 
2.43.0


From 1b182acd420370e63f9b86e0a4ca232041beead7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 07/10] fix: map_path_each on collections of owned binary trees
 never passed the path

It was a copy of map_each: the closure took no path at all, unlike every other
map_path_each and unlike the documentation it points to.
---
 tree_iterators_rs/src/prelude.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tree_iterators_rs/src/prelude.rs b/tree_iterators_rs/src/prelude.rs
index 44d25c1..33c8a0b 100644
--- a/tree_iterators_rs/src/prelude.rs
+++ b/tree_iterators_rs/src/prelude.rs
@@ -4079,7 +4079,7 @@ where
     ) -> BinaryTrees<
         Output,
         (),
-        CollectionMap<
+        CollectionMapPath<
             T::OwnedValue,
             [Option<T>; 2],
             impl BinaryTreeCollectionIterator<T::OwnedValue, [Option<T>; 2]>,
@@ -4088,9 +4088,9 @@ where
         >,
     >
     where
-        F: FnMut(T::OwnedValue) -> Output,
+        F: FnMut(&[usize], T::OwnedValue) -> Output,
     {
-        self.into_pipeline().map_trees(f).trees()
+        self.into_pipeline().map_path(f).trees()
     }
 
     /// Applies the fold operation to every tree within this [`OwnedIntoIteratorOfBinaryTrees`].
-- 
2.43.0


From d110832a2a57af298141b7f07ddffdef0626d531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:10 +0000
Subject: [PATCH 08/10] fix: attach_context on an exhausted collection
 traversal did not panic

---
 tree_iterators_rs/src/collection_iterators.rs | 30 ++++++++-----------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/tree_iterators_rs/src/collection_iterators.rs b/tree_iterators_rs/src/collection_iterators.rs
index 0fcba7a..cd85cc8 100644
--- a/tree_iterators_rs/src/collection_iterators.rs
+++ b/tree_iterators_rs/src/collection_iterators.rs
@@ -38,12 +38,10 @@ macro_rules! owned_collection_iterator_impl {
                         }
                     }
 
-                    self.tree_traversal_iterator = self
-                        .collection
-                        .next()
-                        .map(|item| $inner_iterator::new(item));
-
-                    self.tree_traversal_iterator.as_ref()?;
+                    // Keep the exhausted iterator around once the collection runs out of trees,
+                    // so that attaching metadata can still tell that elements were yielded.
+                    let next_tree = self.collection.next()?;
+                    self.tree_traversal_iterator = Some($inner_iterator::new(next_tree));
                 }
             }
         }
@@ -453,12 +451,10 @@ macro_rules! mut_borrowed_collection_iterator_impl {
                         }
                     }
 
-                    self.tree_traversal_iterator = self
-                        .collection
-                        .next()
-                        .map(|item| $inner_iterator::new(item));
-
-                    self.tree_traversal_iterator.as_ref()?;
+                    // Keep the exhausted iterator around once the collection runs out of trees,
+                    // so that attaching metadata can still tell that elements were yielded.
+                    let next_tree = self.collection.next()?;
+                    self.tree_traversal_iterator = Some($inner_iterator::new(next_tree));
                 }
             }
         }
@@ -677,12 +673,10 @@ macro_rules! borrowed_collection_iterator_impl {
                         }
                     }
 
-                    self.tree_traversal_iterator = self
-                        .collection
-                        .next()
-                        .map(|item| $inner_iterator::new(item));
-
-                    self.tree_traversal_iterator.as_ref()?;
+                    // Keep the exhausted iterator around once the collection runs out of trees,
+                    // so that attaching metadata can still tell that elements were yielded.
+                    let next_tree = self.collection.next()?;
+                    self.tree_traversal_iterator = Some($inner_iterator::new(next_tree));
                 }
             }
         }
-- 
2.43.0


From 6ed2ce2150e76d19a8555c41ea335fa0c62b7e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:23 +0000
Subject: [PATCH 09/10] fix: drop the breadth-first ancestor cache without
 recursion

The values waiting in a breadth-first traversal with ancestors or context are
kept in a structure nested as deeply as the tree. Its drop glue recursed once
per level, so dropping a partly consumed traversal of a tree with two deep
branches overflowed the call stack.
---
 tree_iterators_rs/src/bfs_iterators/mod.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/tree_iterators_rs/src/bfs_iterators/mod.rs b/tree_iterators_rs/src/bfs_iterators/mod.rs
index fead8d0..ba67e64 100644
--- a/tree_iterators_rs/src/bfs_iterators/mod.rs
+++ b/tree_iterators_rs/src/bfs_iterators/mod.rs
@@ -448,6 +448,19 @@ where
     }
 }
 
+impl<T> Drop for TreeNodeVecDeque<T> {
+    fn drop(&mut self) {
+        // The nesting is as deep as the tree which is traversed, so don't leave it to the
+        // (recursive) drop glue.
+        let mut remaining = core::mem::take(&mut self.children);
+        while let Some(child) = remaining.pop_back() {
+            if let Some(mut child) = child {
+                remaining.append(&mut child.children);
+            }
+        }
+    }
+}
+
 impl<T> Default for TreeNodeVecDeque<T> {
     fn default() -> Self {
         Self {
-- 
2.43.0


From a7f37fbc1bcb698863bb1e0f8e86d5573fd31dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:34 +0000
Subject: [PATCH 10/10] fix: moving a mutable context iterator asserted its
 exposed children are unique

The depth-first inorder and postorder mut context iterators hold references
to the children of the current node next to pointers into the same nodes.
Passing such an iterator by value (for_each_mut, fold_mut, any function that
goes on iterating) asserted that those references are unique for as long as
the call runs, which the rest of the traversal contradicts: undefined
behaviour. Keep the exposed context behind a Box.
---
 .../src/dfs_inorder_iterators/mut_borrow.rs    |  8 +++++---
 .../src/dfs_postorder_iterators/mut_borrow.rs  | 18 +++++++++++-------
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/tree_iterators_rs/src/dfs_inorder_iterators/mut_borrow.rs b/tree_iterators_rs/src/dfs_inorder_iterators/mut_borrow.rs
index 5d881b9..71c3d45 100644
--- a/tree_iterators_rs/src/dfs_inorder_iterators/mut_borrow.rs
+++ b/tree_iterators_rs/src/dfs_inorder_iterators/mut_borrow.rs
@@ -1,6 +1,6 @@
 use core::option::IntoIter;
 
-use alloc::vec::Vec;
+use alloc::{boxed::Box, vec::Vec};
 use streaming_iterator::{StreamingIterator, StreamingIteratorMut};
 
 use crate::{
@@ -200,7 +200,9 @@ where
     Node: MutBorrowedBinaryTreeNode<'a>,
 {
     right_stack: Vec<Option<*mut Node>>,
-    current_context: TreeContext<Node::MutBorrowedValue, [Option<&'a mut Node>; 2]>,
+    // The children in the context alias the pointers that are yet to be traversed. They are kept
+    // behind a Box so that moving the iterator does not assert that they are unique.
+    current_context: Box<TreeContext<Node::MutBorrowedValue, [Option<&'a mut Node>; 2]>>,
     into_iterator_stack: Vec<[Option<*mut Node>; 2]>,
     status_stack: Vec<TraversalStatus>,
 }
@@ -224,7 +226,7 @@ where
 
         Self {
             right_stack,
-            current_context: context,
+            current_context: Box::new(context),
             into_iterator_stack: Vec::new(),
             status_stack: Vec::new(),
         }
diff --git a/tree_iterators_rs/src/dfs_postorder_iterators/mut_borrow.rs b/tree_iterators_rs/src/dfs_postorder_iterators/mut_borrow.rs
index 8a16614..d1758fc 100644
--- a/tree_iterators_rs/src/dfs_postorder_iterators/mut_borrow.rs
+++ b/tree_iterators_rs/src/dfs_postorder_iterators/mut_borrow.rs
@@ -10,7 +10,7 @@ use crate::{
     },
     prelude::{BinaryChildren, MutBorrowedBinaryTreeNode, MutBorrowedTreeNode, TreeContext},
 };
-use alloc::vec::Vec;
+use alloc::{boxed::Box, vec::Vec};
 use streaming_iterator::{StreamingIterator, StreamingIteratorMut};
 
 use super::{
@@ -137,7 +137,9 @@ where
     root: Option<&'a mut Node>,
     traversal_stack: Vec<<Node::MutBorrowedChildren as IntoIterator>::IntoIter>,
     node_stack: Vec<NodePtr<'a, Node>>,
-    current_context: TreeContext<Node::MutBorrowedValue, Node::MutBorrowedChildren>,
+    // The children in the context alias the pointers that are yet to be traversed. They are kept
+    // behind a Box so that moving the iterator does not assert that they are unique.
+    current_context: Box<TreeContext<Node::MutBorrowedValue, Node::MutBorrowedChildren>>,
 }
 
 impl<'a, Node> MutBorrowedDFSPostorderIteratorWithContext<'a, Node>
@@ -152,11 +154,11 @@ where
             root: Some(root),
             traversal_stack: Vec::new(),
             node_stack: Vec::new(),
-            current_context: TreeContext {
+            current_context: Box::new(TreeContext {
                 path,
                 ancestors: Vec::new(),
                 children: None,
-            },
+            }),
         }
     }
 }
@@ -429,7 +431,9 @@ where
 {
     root: Option<&'a mut Node>,
     traversal_stack: Vec<IntoIter<Option<*mut Node>, 2>>,
-    current_context: TreeContext<Node::MutBorrowedValue, [Option<&'a mut Node>; 2]>,
+    // The children in the context alias the pointers that are yet to be traversed. They are kept
+    // behind a Box so that moving the iterator does not assert that they are unique.
+    current_context: Box<TreeContext<Node::MutBorrowedValue, [Option<&'a mut Node>; 2]>>,
     into_iterator_stack: Vec<[Option<*mut Node>; 2]>,
 }
 
@@ -443,11 +447,11 @@ where
     ) -> MutBorrowedBinaryDFSPostorderIteratorWithContext<'a, Node> {
         Self {
             root: Some(root),
-            current_context: TreeContext {
+            current_context: Box::new(TreeContext {
                 path,
                 ancestors: Vec::new(),
                 children: None,
-            },
+            }),
             traversal_stack: Vec::new(),
             into_iterator_stack: Vec::new(),
         }
-- 
2.43.0

