From 32dcc46da4d446369165e4ce9bec8778ce5dac01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:48 +0000
Subject: [PATCH 01/45] fix: RIDHolder::from_vec reuses the RID of its last
 item for the next push

'highest' is the next RID to hand out, so after from_vec it has to be the length of the vector: with
len() - 1 the first push overwrote the last item, and an empty vector underflowed.
---
 node_tree_core/src/structs/rid.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_tree_core/src/structs/rid.rs b/node_tree_core/src/structs/rid.rs
index 476b1d5..20e588e 100644
--- a/node_tree_core/src/structs/rid.rs
+++ b/node_tree_core/src/structs/rid.rs
@@ -50,7 +50,7 @@ impl <T> RIDHolder<T> {
 
     /// Creates a new RID holder from a vector, where each index of each item is its RID.
     pub fn from_vec(slice: Vec<T>) -> Self {
-        let highest: RID = (slice.len() - 1) as RID;
+        let highest: RID = slice.len() as RID;
         RIDHolder {
             data:    slice.into_iter().enumerate().map(|(rid, item)| (rid as RID, item)).collect(),
             highest,
-- 
2.43.0


From 3ea969713eda1e1ebde16317a52ddbc26db6d4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:51 +0000
Subject: [PATCH 02/45] fix: RIDs of removed items are handed out again

A Tp<T>, TpDyn or signal connection RID that outlived its node or connection silently started to refer
to whichever node or connection was registered next. RIDs are 64 bit, so simply never reuse one.
---
 node_tree_core/src/structs/rid.rs | 28 +++++++---------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/node_tree_core/src/structs/rid.rs b/node_tree_core/src/structs/rid.rs
index 20e588e..2769720 100644
--- a/node_tree_core/src/structs/rid.rs
+++ b/node_tree_core/src/structs/rid.rs
@@ -33,8 +33,7 @@ pub type RID = u64;
 #[derive(Debug, Clone, Default)]
 pub struct RIDHolder<T> {
     data:    HashMap<RID, T>,
-    highest: RID,
-    vacant:  Vec<RID>
+    highest: RID
 }
 
 impl <T> RIDHolder<T> {
@@ -43,8 +42,7 @@ impl <T> RIDHolder<T> {
     pub fn new() -> Self {
         RIDHolder {
             data:    HashMap::new(),
-            highest: 0,
-            vacant:  Vec::new()
+            highest: 0
         }
     }
 
@@ -53,21 +51,15 @@ impl <T> RIDHolder<T> {
         let highest: RID = slice.len() as RID;
         RIDHolder {
             data:    slice.into_iter().enumerate().map(|(rid, item)| (rid as RID, item)).collect(),
-            highest,
-            vacant:  Vec::new()
+            highest
         }
     }
 
     /// Adds a new item to the holder, registering it under the returned ID.
+    /// An ID is never handed out twice, so an ID of a removed item cannot come to refer to a newer one.
     pub fn push(&mut self, item: T) -> RID {
-        let rid: RID = match self.vacant.pop() {
-            Some(id) => id,
-            None     => {
-                let id: RID = self.highest;
-                self.highest += 1;
-                id
-            }
-        };
+        let rid: RID = self.highest;
+        self.highest += 1;
 
         self.data.insert(rid, item);
         rid
@@ -88,13 +80,7 @@ impl <T> RIDHolder<T> {
     /// Removes an item from the collection by the passed RID.
     /// Returns the item.
     pub fn take(&mut self, rid: RID) -> Option<T> {
-        match self.data.remove(&rid) {
-            None       => None,
-            Some(item) => {
-                self.vacant.push(rid);
-                Some(item)
-            }
-        }
+        self.data.remove(&rid)
     }
 
     /// Returns an iter for each of the items.
-- 
2.43.0


From 88a763382b338f6063cba8b1f4b732fea6fcd57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:38 +0000
Subject: [PATCH 03/45] fix: ensure_unique_name could panic, return a taken
 name or rename a unique one

- it panicked on an empty name, a name ending in a non-ASCII character and a numerical suffix that does
  not fit usize;
- it counted up in a single pass over the siblings in their order, so the result could still be taken
  (e.g. Node next to [Node1, Node] became Node1);
- it renamed names which no sibling had, but which some sibling merely started with.
---
 node_tree_core/src/utils/functions.rs | 76 +++++----------------------
 1 file changed, 14 insertions(+), 62 deletions(-)

diff --git a/node_tree_core/src/utils/functions.rs b/node_tree_core/src/utils/functions.rs
index bd4f4be..8dfa990 100644
--- a/node_tree_core/src/utils/functions.rs
+++ b/node_tree_core/src/utils/functions.rs
@@ -31,78 +31,30 @@ use crate::{ prelude::{ RID, NodeTreeBase, Node }, structs::node_base::NodeStatu
 /// Ensures that the name provided is unique relative to the list of other names.
 /// If it is not, then it will create a new unique name.
 pub fn ensure_unique_name(name: &str, relative_to: &[String]) -> String {
-    fn extract_numerical_suffix(s: &str) -> Option<usize> {
-        let mut numerics: String = String::new();
-        let mut ptr:      usize  = s.len() - 1;
-        
-        loop {
-            let char: char = s.get(ptr..(ptr + 1)).unwrap().chars().collect::<Vec<_>>()[0];
-            if !char.is_numeric() {
-                break;
-            }
-            numerics = char.to_string() + &numerics;
-            
-            if ptr == 0 {
-                break;
-            }
-            ptr -= 1;
-        }
-
-        if numerics.is_empty() {
-            return None;
-        }
-        Some(numerics.parse::<usize>().unwrap())
-    }
-
     // Special Case:
-    // If the 'relative_to' array is empty, then return the name.
-    if relative_to.is_empty() {
+    // If no other name is equal to this one, then return the name.
+    if !relative_to.iter().any(|set_name| set_name == name) {
         return name.to_string();
     }
 
     // Strip the name bare of any numerical suffix.
-    let given_value:         Option<usize> = extract_numerical_suffix(name);
-    let name_without_suffix: String        = match given_value {
-        Some(number) => name.split_at(name.find(&format!("{}", number)).unwrap()).0.to_string(),
-        None         => name.to_string()
+    // A suffix that is too large to count up from is treated as a part of the name.
+    let stripped_name: &str = name.trim_end_matches(|c: char| c.is_ascii_digit());
+    let (name_without_suffix, mut value): (&str, u64) = match name[stripped_name.len()..].parse::<u32>() {
+        Ok(number) => (stripped_name, number as u64),
+        Err(_)     => (name, 0)   // If there is no numerical suffix, then start from the lowest possible one.
     };
-    
-    // Search for any similar names that have the same beginning but different suffixes.
-    let mut similar_names: Vec<String> = Vec::new();
-    for set_name in relative_to {
-        let idx_found: Option<usize> = set_name.find(&name_without_suffix);
-        
-        if let Some(idx) = idx_found {
-            if idx != 0 {   // We do not include similar names when the pattern does not start at the beginning of the string.
-                continue;
-            }
-            similar_names.push(set_name.to_string());
-        }
-    }
 
-    if similar_names.is_empty() {
-        return name.to_string();
-    }
+    // Give the name the closest numerical suffix to the one it currently has (counting upwards)
+    // which isn't taken.
+    loop {
+        value += 1;
 
-    // Order all of the names with a numerical suffix.
-    // If this name does not have a numerical suffix, then give it the lowest possible numerical
-    // suffix.
-    // Otherwise, give it the closest numerical suffix to the one it currently has (counting
-    // upwards).
-    let mut new_value: usize      = given_value.unwrap_or(0);
-    let     values:    Vec<usize> = similar_names.iter().map(|n| extract_numerical_suffix(n).unwrap_or(0)).collect(); // If there are no numerical suffixes on similar names,
-    loop { // I dunno why I programmed this as a loop but I'll keep it this way until I figure out why I did so.
-        for value in values {
-            if new_value == value {
-                new_value += 1;
-                continue;
-            }
+        let unique_name: String = format!("{}{}", name_without_suffix, value);
+        if !relative_to.contains(&unique_name) {
+            return unique_name;
         }
-        break;
     }
-    
-    let new_suffix: String = format!("{}", new_value);
-    name_without_suffix.to_string() + &new_suffix
 }
 
 /// Takes in a NodeTree and prints out a graphical representation with a node as the origin.
-- 
2.43.0


From c16e651964735d966e68f9aafaa99b4d4e991a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:38 +0000
Subject: [PATCH 04/45] fix: NodeBase::set_name counts the node itself as one
 of its siblings

Setting a node's name to the one it already has renamed it.
---
 node_tree_core/src/structs/node_base.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index 9e09045..beb3027 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -167,7 +167,7 @@ impl NodeBase {
     pub fn set_name(&mut self, name: &str) {
         if let (Some(parent), Some(tree)) = (self.parent, self.tree()) {
             let     parent:    &dyn Node    = unsafe { tree.get_node(parent).unwrap_unchecked() };
-            let     siblings:  &[String]    = &parent.children().iter().map(|a| a.name().to_string()).collect::<Vec<_>>();
+            let     siblings:  &[String]    = &parent.children().iter().filter(|a| a.rid() != self.rid).map(|a| a.name().to_string()).collect::<Vec<_>>();
 
             unsafe {
                 self.set_name_unchecked(&ensure_unique_name(name, siblings));
-- 
2.43.0


From dcf4a8246ec99ed31945bcf01f750d9aeb7f565c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:49 +0000
Subject: [PATCH 05/45] fix: a node registered as a singleton under two names
 leaves a stale name behind

Only one of a node's names was removed along with it, so the other kept resolving to the dead RID, and
a name that was not the latest one of its node could be taken over by another node.
---
 node_tree_core/src/structs/node_tree_base.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/node_tree_core/src/structs/node_tree_base.rs b/node_tree_core/src/structs/node_tree_base.rs
index 8ee4017..92d4eea 100644
--- a/node_tree_core/src/structs/node_tree_base.rs
+++ b/node_tree_core/src/structs/node_tree_base.rs
@@ -442,17 +442,8 @@ impl NodeTreeBase {
     /// This should NOT be used manually.
     pub unsafe fn unregister_node(&mut self, rid: RID) -> Option<Box<dyn Node>> {
         
-        // Remove this node from the singletons map if it is on there.
-        let mut singleton_name: Option<String> = None;
-        for (name, singleton_rid) in &self.singletons {
-            if *singleton_rid == rid {
-                singleton_name = Some(name.to_string());
-            }
-        }
-
-        if let Some(singleton_name) = singleton_name {
-            self.singletons.remove(&singleton_name);
-        }
+        // Remove this node from the singletons map if it is on there, under any of its names.
+        self.singletons.retain(|_, singleton_rid| *singleton_rid != rid);
 
         // TODO: Register a singleton name directly on the node as well to save performance.
 
@@ -473,7 +464,7 @@ impl NodeTreeBase {
     pub fn register_as_singleton(&mut self, rid: RID, name: String) -> Option<bool> {
         self.nodes.retrieve(rid)?;
         
-        if !self.identity.values().all(|x| x.does_not_match(&name)) {
+        if self.singletons.contains_key(&name) {
             return Some(false);
         }
 
-- 
2.43.0


From c057f1b7cee923ab3ef44bba5b3885edbd967e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:20 +0000
Subject: [PATCH 06/45] fix: remove_child drops nodes before the rest of the
 removed branch had its terminal() called

The nodes of the branch were terminated and dropped one at a time from the top down, so by the time a
descendant's terminal() ran its parent no longer existed: posting to the log or asking for its path,
parent or owner there was undefined behaviour. Terminate all of them first, then remove them.
---
 node_tree_core/src/structs/node_base.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index beb3027..a7751c4 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -328,14 +328,22 @@ impl NodeBase {
         };
 
         self.children.remove(child_idx);
+
+        // Call the terminal function on every node while all of them are still connected,
+        // before any of them is removed from the NodeTree.
+        for &queued_rid in &connected { unsafe {
+            if let Some(queued_node) = self.tree_mut().unwrap_unchecked().get_node_mut(queued_rid) {
+                queued_node.terminal(TerminationReason::RemovedAsChild);
+            }
+        }}
+
         for (idx, queued_rid) in connected.into_iter().enumerate() { unsafe { 
-            let _is_root_child: bool          = idx == 0; // TODO: Use this to save children nodes!
-            let queued_node:    &mut dyn Node = self.tree_mut().unwrap_unchecked().get_node_mut(queued_rid).unwrap_unchecked();
-            
-            queued_node.terminal(TerminationReason::RemovedAsChild);
-            queued_node.disconnnect_parent();
-            queued_node.disconnnect_owner();
-            queued_node.disconnnect_tree();
+            let _is_root_child: bool = idx == 0; // TODO: Use this to save children nodes!
+            if let Some(queued_node) = self.tree_mut().unwrap_unchecked().get_node_mut(queued_rid) {
+                queued_node.disconnnect_parent();
+                queued_node.disconnnect_owner();
+                queued_node.disconnnect_tree();
+            }
 
             self.tree_mut().unwrap_unchecked().unregister_node(queued_rid);
         }}
-- 
2.43.0


From 6d39428225bfcf1172f480325ef0666e8d9b70c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:39 +0000
Subject: [PATCH 07/45] fix: free does not terminate the node's descendants and
 uses the node after it was destroyed

Only the freed node itself had terminal() called, once per node of the branch, and from the second node
on through an unchecked unwrap of its own, already removed, RID (an abort in debug builds). Afterwards
is_root() and tree_mut() were called on the dropped node.
---
 node_tree_core/src/structs/node_base.rs | 43 ++++++++++++-------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index a7751c4..cdeaeee 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -604,37 +604,36 @@ impl NodeBase {
             panic!("Cannot free a node that is not a part of a NodeTree! Instead, simply let the unbound Node drop out of scope or use drop()!");
         }
         
-        // Call the terminal function on this node,
-        // before removing it and all it's children nodes from the NodeTree.
-        for node in self.top_down(true) {
-            let is_self: bool              = node == self.rid;
-            let tree:    &mut NodeTreeBase = unsafe { self.tree_mut().unwrap_unchecked() };
-
-            unsafe {
-                tree.get_node_mut(self.rid).unwrap_unchecked().terminal(TerminationReason::Freed); // Has to be called externally!
+        // `self` is destroyed along the way, so anything that is needed of it has to be copied here.
+        let rid:     RID               = self.rid;
+        let parent:  Option<RID>       = self.parent;
+        let is_root: bool              = self.is_root();
+        let freed:   Vec<RID>          = self.top_down(true);
+        let tree:    *mut dyn NodeTree = unsafe { self.tree.unwrap_unchecked() };
+        let tree:    &mut NodeTreeBase = unsafe { &mut *tree };
+        
+        // Call the terminal function on this node and all of its children nodes,
+        // before removing any of them from the NodeTree.
+        for &node in &freed {
+            if let Some(node) = tree.get_node_mut(node) {
+                node.terminal(TerminationReason::Freed); // Has to be called externally!
             }
+        }
 
-            // Remove the reference of this node from its parent if it has a parent.
-            if is_self {
-                if let Some(parent) = self.parent {
-                    unsafe {
-                        let rid:       RID           = self.rid;
-                        let parent:    &mut dyn Node = self.tree_mut().unwrap_unchecked().get_node_mut(parent).unwrap_unchecked();
-                        let child_idx: usize         = parent.children.iter().position(|&c_rid| c_rid == rid).unwrap_unchecked();
-
-                        parent.children.remove(child_idx);
-                    }
-                }
-            }
+        // Remove the reference of this node from its parent if it has a parent.
+        if let Some(parent) = parent.and_then(|parent| tree.get_node_mut(parent)) {
+            parent.children.retain(|&c_rid| c_rid != rid);
+        }
 
+        for node in freed {
             unsafe {
                 tree.unregister_node(node);
             }
         }
 
         // If this is the root node, terminate the NodeTree.
-        if self.is_root() {
-            self.tree_mut().unwrap().terminate();
+        if is_root {
+            tree.terminate();
         }
     }
 
-- 
2.43.0


From 82ba71f459906f992d521cf01e111d1a9f72578c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:40 +0000
Subject: [PATCH 08/45] fix: removing nodes while a frame is processed panics
 or uses freed nodes

A node freed by one of its siblings in the same frame was unwrapped as a missing node, and the children
of a node that freed itself in process() were read from the dropped node.
---
 node_tree_core/src/structs/node_tree_base.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/node_tree_core/src/structs/node_tree_base.rs b/node_tree_core/src/structs/node_tree_base.rs
index 92d4eea..3241049 100644
--- a/node_tree_core/src/structs/node_tree_base.rs
+++ b/node_tree_core/src/structs/node_tree_base.rs
@@ -376,7 +376,10 @@ impl NodeTreeBase {
     /// The recursive tail-end of the process function which traverses down the node tree.
     fn process_tail(&mut self, node_rid: RID, delta: f32, inherited_process_mode: ProcessMode) {
         let status: TreeStatus    = self.status;
-        let node:   &mut dyn Node = self.get_node_mut(node_rid).unwrap();
+        let node:   &mut dyn Node = match self.get_node_mut(node_rid) {
+            Some(node) => node,
+            None       => return // The node was removed by another one earlier in this frame.
+        };
         
         // Determine the process mode.
         let mut process_mode: ProcessMode = node.process_mode();
@@ -414,7 +417,11 @@ impl NodeTreeBase {
         }
 
         // Go through each of the children and process them, perpetuating the recursive cycle.
-        for child_node in node.children().into_iter().map(|c| c.rid()).collect::<Vec<_>>() {
+        let children: Vec<RID> = match self.get_node(node_rid) {
+            Some(node) => node.children().into_iter().map(|c| c.rid()).collect(),
+            None       => return // The node removed itself.
+        };
+        for child_node in children {
             self.process_tail(child_node, delta, process_mode);
             if self.status == TreeStatus::Terminated {
                 break;
-- 
2.43.0


From 3f340433dfae96afe0768e241bc5a8c8e213267d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:17 +0000
Subject: [PATCH 09/45] fix: ready() of an added scene's nodes runs before
 their children are in the tree

ready() is documented to run once the scene that the node is a part of is fully initialized, and does so
for the tree's initial scene. add_child() of a NodeScene called it on each node right after that node
was inserted instead, before its children were. Use the same backwards pass for both; it also no longer
uses nodes that were removed by an earlier loaded() or ready().
---
 node_tree_core/src/structs/node_base.rs      | 28 +++++++++++---------
 node_tree_core/src/structs/node_tree_base.rs | 19 +++++++++----
 2 files changed, 29 insertions(+), 18 deletions(-)

diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index cdeaeee..472321c 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -201,18 +201,25 @@ impl NodeBase {
     /// # Panics
     /// Panics if this Node is not connected to a `NodeTree`.
     pub fn add_child<I: Instanceable>(&mut self, child: I) {
+        let mut initialization_history: Vec<RID> = Vec::new();
         child.iterate(|parent, node, is_owner| {
-            if let Some(parent) = parent {
+            let rid: RID = if let Some(parent) = parent {
                 unsafe {
                     let parent: &mut dyn Node = &mut *parent;
-                    parent.add_child_from_ptr(node, is_owner, false);
+                    parent.add_child_from_ptr(node, is_owner, true)
                 }
             } else {
                 unsafe {
-                    self.add_child_from_ptr(node, is_owner, false);
+                    self.add_child_from_ptr(node, is_owner, true)
                 }
-            }
+            };
+            initialization_history.push(rid);
         });
+
+        // The `ready()` functions are only run once every node of the child is in the tree.
+        if let Some(tree) = self.tree_mut() {
+            tree.ready_nodes(initialization_history);
+        }
     }
 
     /// Adds a child to the node via a passed in pointer, automatically renaming it if its
@@ -270,19 +277,14 @@ impl NodeBase {
         // or circumvented..
         if !ignore_ready {
             unsafe {
-                let child: &mut dyn Node = self.tree_mut().unwrap_unchecked().get_node_mut(child_rid).unwrap_unchecked();
-                if child.has_just_loaded() {
-                    child.loaded();
-                    child.mark_as_final();
-                }
-                child.ready();
-
+                self.tree_mut().unwrap_unchecked().ready_nodes(vec![child_rid]);
             }
         }
         
         // Print the debug information on the child to the console.
-        let child: &dyn Node = unsafe { self.tree().unwrap_unchecked().get_node(child_rid).unwrap_unchecked() };
-        self.post(Log::Debug(&format!("Node \"{}\" added to the scene as the child of \"{}\"! Unique ID of \"{}\" generated!", child.name(), self.name(), child.rid)));
+        if let Some(child) = unsafe { self.tree().unwrap_unchecked() }.get_node(child_rid) {
+            self.post(Log::Debug(&format!("Node \"{}\" added to the scene as the child of \"{}\"! Unique ID of \"{}\" generated!", child.name(), self.name(), child.rid)));
+        }
         child_rid
     }
 
diff --git a/node_tree_core/src/structs/node_tree_base.rs b/node_tree_core/src/structs/node_tree_base.rs
index 3241049..50cd521 100644
--- a/node_tree_core/src/structs/node_tree_base.rs
+++ b/node_tree_core/src/structs/node_tree_base.rs
@@ -230,16 +230,25 @@ impl NodeTreeBase {
             }
         });
 
-        // Go through the initialization history backwards and run each node's `ready()` function.
+        self.ready_nodes(initialization_history);
+    }
+
+    /// Goes through an initialization history backwards and runs each node's `ready()` function,
+    /// such that a node is only ready once all of the nodes below it are.
+    pub(crate) fn ready_nodes(&mut self, initialization_history: Vec<RID>) {
         for rid in initialization_history.into_iter().rev() {
-            let node: &mut dyn Node = unsafe { self.get_node_mut(rid).unwrap_unchecked() };
-            if node.has_just_loaded() {
-                node.loaded();
+            // Any of these functions could remove any node, including the one they are called on.
+            if let Some(node) = self.get_node_mut(rid) {
+                if node.has_just_loaded() {
+                    node.loaded();
+                }
+            }
+            if let Some(node) = self.get_node_mut(rid) {
                 unsafe {
                     node.mark_as_final();
                 }
+                node.ready();
             }
-            node.ready();
         }
     }
 
-- 
2.43.0


From 909f70ab5c94f81a91e82954025703bdf2bd37b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:35 +0000
Subject: [PATCH 10/45] fix: the root node of a loaded scene never has its
 loaded() called

load_from_str did not mark the root as coming from the disk (nor did it restore its ownership status),
and iterate marked the root as loaded only after it had been handed to the tree.
---
 node_tree_core/src/structs/node_scene.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/node_tree_core/src/structs/node_scene.rs b/node_tree_core/src/structs/node_scene.rs
index 869a6db..7f8cc17 100644
--- a/node_tree_core/src/structs/node_scene.rs
+++ b/node_tree_core/src/structs/node_scene.rs
@@ -171,7 +171,13 @@ impl NodeScene {
                         None => return Err("Child was declared ahead of parent in the .scn file".to_string())
                     }
                 },
-                None => node_scene = Some(NodeScene::new_dyn(node))
+                None => {
+                    let mut new_scene: NodeScene = NodeScene::new_dyn(node);
+                            new_scene.from_disk  = true;
+                            new_scene.is_owner   = is_owner;
+
+                    node_scene = Some(new_scene);
+                }
             }
         }
 
@@ -359,8 +365,7 @@ impl hash::Hash for NodeScene {
 
 impl Instanceable for NodeScene {
     fn iterate<F: FnMut(Option<*mut dyn Node>, *mut dyn Node, bool)>(self, mut iterator: F) {
-        iterator(None, self.this, self.is_owner);
-
+        
         // Recursive function to traverse the tree
         fn traverse<F: FnMut(Option<*mut dyn Node>, *mut dyn Node, bool)>(
             node:     NodeScene,
@@ -392,6 +397,7 @@ impl Instanceable for NodeScene {
                 self_mut.mark_as_loaded();
             }
         }
+        iterator(None, self_this, self.is_owner);
         traverse(self, self_this, &mut iterator);
     }
 }
-- 
2.43.0


From 9667c6688d0f5eff8e4151788e5a8ea9cdb43e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:35 +0000
Subject: [PATCH 11/45] fix: saving a scene gives several of its nodes the same
 RID

update_internal restarted counting for the next sibling of a node with children, so nodes in different
branches shared RIDs: nodes with the same name overwrote each other in the document, and children were
attached to the wrong parent or rejected on load. The root keeps RID 0, which its children refer to, even
if it was loaded under another one.
---
 node_tree_core/src/structs/node_scene.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/node_tree_core/src/structs/node_scene.rs b/node_tree_core/src/structs/node_scene.rs
index 7f8cc17..9cce294 100644
--- a/node_tree_core/src/structs/node_scene.rs
+++ b/node_tree_core/src/structs/node_scene.rs
@@ -213,6 +213,7 @@ impl NodeScene {
         let mut document: toml::DocumentMut = toml::DocumentMut::new();
 
         // Go through each node and serialize it:
+        unsafe { (&mut *self.this).set_rid(0) };
         self.update_internal(0);
         self.clone().iterate(|parent, node, is_owner| {
             let node:   &dyn Node         = unsafe { &*node };
@@ -317,9 +318,10 @@ impl NodeScene {
         &self.children
     }
 
-    /// Updates the internal RIDs.
+    /// Updates the internal RIDs, such that every node below this one has a different RID that is
+    /// greater than `counter`. Returns the last RID that was given out.
     #[inline]
-    pub fn update_internal(&self, mut counter: u64) {
+    pub fn update_internal(&self, mut counter: u64) -> u64 {
         for child in &self.children {
 
             // Update the counter and set it as this child's rid
@@ -327,8 +329,9 @@ impl NodeScene {
             unsafe { (&mut *child.this).set_rid(counter) };
 
             // Recursively traverse the child's children
-            child.update_internal(counter);
+            counter = child.update_internal(counter);
         }
+        counter
     }
 }
 
-- 
2.43.0


From 94a6c006253637ad9ec46139fad99bc856337d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:36 +0000
Subject: [PATCH 12/45] fix: scenes containing a node with an underscore in its
 name cannot be loaded

The key of a node is its name and RID joined by an underscore, and was split at the first one.
---
 node_tree_core/src/structs/node_scene.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_tree_core/src/structs/node_scene.rs b/node_tree_core/src/structs/node_scene.rs
index 9cce294..f8af7b0 100644
--- a/node_tree_core/src/structs/node_scene.rs
+++ b/node_tree_core/src/structs/node_scene.rs
@@ -105,7 +105,7 @@ impl NodeScene {
                 }).collect();
 
             let mut node: Box<dyn Node> = node_registry::deserialize(&type_name, node_fields.ok_or("Could not parse node fields".to_string())?)?;
-            let (name, local_rid): (&str, RID) = key.split_once('_')
+            let (name, local_rid): (&str, RID) = key.rsplit_once('_')
                 .map(|(name, local_rid)| local_rid.parse().map(|local_rid| (name, local_rid)).map_err(|err| format!("{err}")))
                 .ok_or("Failed to parse Node key".to_string())??;
             
-- 
2.43.0


From de1e141d26a6a6cf11e491bda047e25be869e06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:16 +0000
Subject: [PATCH 13/45] fix: non-ASCII chars are written to scenes but cannot
 be loaded

The loaders of char, HashMap<char, V> and BTreeMap<char, V> required one byte instead of one character.
---
 node_tree_core/src/traits/exportable.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/node_tree_core/src/traits/exportable.rs b/node_tree_core/src/traits/exportable.rs
index 3349f65..65ac4d7 100644
--- a/node_tree_core/src/traits/exportable.rs
+++ b/node_tree_core/src/traits/exportable.rs
@@ -243,7 +243,7 @@ impl Exportable for char {
         match value {
             toml::Value::String(c) => {
                 let c: String = c.into_value();
-                if c.len() != 1 {
+                if c.chars().count() != 1 {
                     None
                 } else {
                     Some(c.chars().collect::<Vec<_>>()[0])
@@ -392,7 +392,7 @@ impl <V: Exportable> Exportable for HashMap<char, V> {
         match value {
             toml::Value::InlineTable(table) => {
                 table.into_iter().map(|(key, value)| {
-                    if key.len() != 1 {
+                    if key.chars().count() != 1 {
                         None
                     } else {
                         match V::from_value(value) {
@@ -445,7 +445,7 @@ impl <V: Exportable> Exportable for BTreeMap<char, V> {
         match value {
             toml::Value::InlineTable(table) => {
                 table.into_iter().map(|(key, value)| {
-                    if key.len() != 1 {
+                    if key.chars().count() != 1 {
                         None
                     } else {
                         match V::from_value(value) {
-- 
2.43.0


From a4c8fb43129d296d87a697d6d4fd95bf08a5eaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:16 +0000
Subject: [PATCH 14/45] fix: loading an array of a type that cannot be zeroed
 is undefined behaviour

[T; N]::from_value created the array with mem::zeroed and dropped the zeroed elements as it replaced
them, which aborts for String, Vec, Box and alike.
---
 node_tree_core/src/traits/exportable.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/node_tree_core/src/traits/exportable.rs b/node_tree_core/src/traits/exportable.rs
index 65ac4d7..8d844b6 100644
--- a/node_tree_core/src/traits/exportable.rs
+++ b/node_tree_core/src/traits/exportable.rs
@@ -528,11 +528,7 @@ impl <const N: usize, T: Exportable> Exportable for [T; N] {
                     return None;
                 }
 
-                let mut rtr_arr: [T; N] = unsafe { mem::zeroed() };
-                for (i, element) in arr.into_iter().enumerate() {
-                    rtr_arr[i] = T::from_value(element)?;
-                }
-                Some(rtr_arr)
+                arr.into_iter().map(|x| T::from_value(x)).collect::<Option<Vec<T>>>()?.try_into().ok()
             },
             _ => None
         }
-- 
2.43.0


From 1ab6695860ca72a867a3d00eed94b99652ef4f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:17 +0000
Subject: [PATCH 15/45] fix: loading a Duration can panic and does not give
 back the saved value

A negative, NaN or too large number in a document panicked instead of being rejected (which is also what
a saved Duration::MAX becomes), and a duration with more digits than an f64 holds (a nanosecond
precise one of more than about a hundred days) came back as a different one.
---
 node_tree_core/src/traits/exportable.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/node_tree_core/src/traits/exportable.rs b/node_tree_core/src/traits/exportable.rs
index 8d844b6..dab1b4d 100644
--- a/node_tree_core/src/traits/exportable.rs
+++ b/node_tree_core/src/traits/exportable.rs
@@ -314,11 +314,22 @@ impl Exportable for net::IpAddr {
 
 impl Exportable for time::Duration {
     fn to_value(&self) -> toml::Value {
-        self.as_secs_f64().to_value()
+        let secs: f64 = self.as_secs_f64();
+        if time::Duration::try_from_secs_f64(secs) == Ok(*self) {
+            return secs.to_value();
+        }
+
+        // A float cannot represent this duration, so save its seconds and nanoseconds instead.
+        (self.as_secs(), self.subsec_nanos()).to_value()
     }
 
     fn from_value(value: toml::Value) -> Option<Self> where Self: Sized {
-        Some(time::Duration::from_secs_f64(value.as_float()?))
+        if let Some(secs) = value.as_float() {
+            return time::Duration::try_from_secs_f64(secs).ok();
+        }
+        
+        let (secs, nanos): (u64, u32) = Exportable::from_value(value)?;
+        (nanos < 1_000_000_000).then(|| time::Duration::new(secs, nanos))
     }
 }
 impl Exportable for toml::Datetime {
-- 
2.43.0


From 0ef3fac520318af6be58e5d705e468b4041ab64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:41 +0000
Subject: [PATCH 16/45] fix: NodePath::to_string drops the leading slash of
 absolute paths and panics on empty ones

A saved absolute NodePath was therefore loaded as a relative one, and an empty relative path could not be
written; an empty string was also parsed as an absolute path.
---
 node_tree_core/src/structs/node_path.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/node_tree_core/src/structs/node_path.rs b/node_tree_core/src/structs/node_path.rs
index 62607c1..9a12b99 100644
--- a/node_tree_core/src/structs/node_path.rs
+++ b/node_tree_core/src/structs/node_path.rs
@@ -148,7 +148,7 @@ impl NodePath {
     /// ```
     pub fn from_str(str: &str) -> NodePath {
         let mut path: VecDeque<PathSeg> = str.split('/').map(PathSeg::parse).collect();
-        let     abs:  bool              = path.front().map(|f| f.is_empty_identifier()).unwrap_or(false);
+        let     abs:  bool              = str.starts_with('/');
         
         if abs {
             path.pop_front();
@@ -164,11 +164,14 @@ impl NodePath {
 
     /// Converts the path to a string, consuming it.
     pub fn to_string(mut self) -> String {
-        let mut out: String = String::new();
+        let mut out: String = if self.abs { "/".to_string() } else { String::new() };
         while let Some(segment) = self.pop_front() {
-            out += &(segment.to_string() + "/");
+            out += &segment.to_string();
+            if !self.path.is_empty() {
+                out += "/";
+            }
         }
-        out.get(0..(out.len() - 1)).unwrap().to_string()
+        out
     }
 
     /// Adds a node to the back of the path.
-- 
2.43.0


From 90d6eea3acb5fea34f2e42927a8dab2fea0ff137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:41 +0000
Subject: [PATCH 17/45] fix: get_absolute_path returns a relative path

It lacked the leading slash, so the path could not be used to get the node back from anywhere. The
logger still shows it without the slash.
---
 node_tree_core/src/structs/logger.rs    | 2 +-
 node_tree_core/src/structs/node_base.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/node_tree_core/src/structs/logger.rs b/node_tree_core/src/structs/logger.rs
index e4db6c3..cea7e0e 100644
--- a/node_tree_core/src/structs/logger.rs
+++ b/node_tree_core/src/structs/logger.rs
@@ -201,7 +201,7 @@ impl Logger {
         let node_tree: &NodeTreeBase = unsafe { &*node_tree };
         let system:    SystemCall    = {
             match node_tree.get_node_identity(calling) {
-                Some(NodeIdentity::NodePath)         => SystemCall::NodePath(unsafe { node_tree.get_node(calling).unwrap_unchecked() }.get_absolute_path().to_string()),
+                Some(NodeIdentity::NodePath)         => SystemCall::NodePath(unsafe { node_tree.get_node(calling).unwrap_unchecked() }.get_absolute_path().to_string().trim_start_matches('/').to_string()),
                 Some(NodeIdentity::UniqueName(name)) => SystemCall::Named(name),
                 None                                 => unimplemented!()
             }
diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index 472321c..a202a48 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -547,7 +547,7 @@ impl NodeBase {
     pub fn get_absolute_path(&self) -> NodePath {
         let mut path: String = String::new();
         self.get_absolute_path_tail(&mut path);
-        NodePath::from_str(&path)
+        NodePath::from_str(&format!("/{path}"))
     }
 
     /// The recursive tail for the `get_absolute_path` function.
-- 
2.43.0


From 52109c4f0e85afac595af8518ff4fb9d0612a6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:12 +0000
Subject: [PATCH 18/45] fix: a failed Tp, TpDyn, TreeOption or TreeResult whose
 owner was removed is undefined behaviour

fail() posts to the log on behalf of the owner, which it assumed to exist. A pointer from this() is its
own owner, so using it after the node was freed did not panic as documented but read a missing node.
---
 node_tree_core/src/structs/tree_option.rs  |  5 ++++-
 node_tree_core/src/structs/tree_pointer.rs | 10 ++++++++--
 node_tree_core/src/structs/tree_result.rs  |  5 ++++-
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/node_tree_core/src/structs/tree_option.rs b/node_tree_core/src/structs/tree_option.rs
index c2123dd..be05f45 100644
--- a/node_tree_core/src/structs/tree_option.rs
+++ b/node_tree_core/src/structs/tree_option.rs
@@ -484,7 +484,10 @@ impl <'a, T> TreeOption<'a, T> {
 
     /// Marks a failed operation with a panic on the log, and panics the main thread.
     fn fail(&self, msg: &str) -> ! {
-        unsafe { (*self.tree).get_node(self.owner).unwrap_unchecked() }.post(Log::Panic(msg));
+        // The owner may not exist anymore either, in which case there is nobody to post for.
+        if let Some(owner) = unsafe { &*self.tree }.get_node(self.owner) {
+            owner.post(Log::Panic(msg));
+        }
         println!("\n[RUST TRACE]");
         panic!();
     }
diff --git a/node_tree_core/src/structs/tree_pointer.rs b/node_tree_core/src/structs/tree_pointer.rs
index 22cff30..42ca858 100644
--- a/node_tree_core/src/structs/tree_pointer.rs
+++ b/node_tree_core/src/structs/tree_pointer.rs
@@ -248,7 +248,10 @@ impl <'a, T: Node> Tp<'a, T> {
     /// Marks a failed operation with a panic on the log, and panics the main thread.
     #[inline]
     fn fail(&self, err: TPError) -> ! {
-        unsafe { (*self.tree).get_node(self.owner).unwrap_unchecked() }.post(Log::Panic(&format!("{err:?}")));
+        // The owner may not exist anymore either, in which case there is nobody to post for.
+        if let Some(owner) = unsafe { &*self.tree }.get_node(self.owner) {
+            owner.post(Log::Panic(&format!("{err:?}")));
+        }
         println!("\n[RUST TRACE]");
         panic!();
     }
@@ -462,7 +465,10 @@ impl <'a> TpDyn<'a> {
     /// Marks a failed operation with a panic on the log, and panics the main thread.
     #[inline]
     fn fail(&self, err: TPError) -> ! {
-        unsafe { (*self.tree).get_node(self.owner).unwrap_unchecked() }.post(Log::Panic(&format!("{err}")));
+        // The owner may not exist anymore either, in which case there is nobody to post for.
+        if let Some(owner) = unsafe { &*self.tree }.get_node(self.owner) {
+            owner.post(Log::Panic(&format!("{err}")));
+        }
         println!("\n[RUST TRACE]");
         panic!();
     }
diff --git a/node_tree_core/src/structs/tree_result.rs b/node_tree_core/src/structs/tree_result.rs
index cad7c69..31009df 100644
--- a/node_tree_core/src/structs/tree_result.rs
+++ b/node_tree_core/src/structs/tree_result.rs
@@ -435,7 +435,10 @@ impl <'a, T, E> TreeResult<'a, T, E> {
     
     /// Marks a failed operation with a panic on the log, and panics the main thread.
     fn fail(&self, msg: &str, error: &dyn fmt::Debug) -> ! {
-        unsafe { (*self.tree).get_node(self.owner).unwrap_unchecked() }.post(Log::Panic(&format!("{msg}: {error:?}")));
+        // The owner may not exist anymore either, in which case there is nobody to post for.
+        if let Some(owner) = unsafe { &*self.tree }.get_node(self.owner) {
+            owner.post(Log::Panic(&format!("{msg}: {error:?}")));
+        }
         println!("\n[RUST TRACE]");
         panic!();
     }
-- 
2.43.0


From 1290bdd6e55470b836def5909a6f125d52a1a0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:12 +0000
Subject: [PATCH 19/45] fix: TpDyn::is_of always returns false

It asked whether the TpDyn itself, and not the node it points to, can be cast to the trait.
---
 node_tree_core/src/structs/tree_pointer.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/node_tree_core/src/structs/tree_pointer.rs b/node_tree_core/src/structs/tree_pointer.rs
index 42ca858..7b47bcf 100644
--- a/node_tree_core/src/structs/tree_pointer.rs
+++ b/node_tree_core/src/structs/tree_pointer.rs
@@ -388,10 +388,7 @@ impl <'a> TpDyn<'a> {
     /// Checks if the node this points to can be cast to a specific trait.
     #[inline]
     pub fn is_of<T: ?Sized + 'static>(&self) -> bool {
-        use std::mem;
-
-        let node: TpDyn = unsafe { mem::transmute(*self) };
-        <TpDyn as CastRef>::impls::<T>(&node)
+        self.try_get().to_option().is_some_and(|node| <dyn Node as CastRef>::impls::<T>(node))
     }
 
     /// Determines if this pointer references a specific type.
-- 
2.43.0


From 424f8ca7ae133aacc6e90e0f75dc16e68e21d8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:27 +0000
Subject: [PATCH 20/45] fix: root() and absolute paths are undefined behaviour
 once the root node was freed

Freeing the root is documented to terminate the tree, and the tree outlives it. root() assumed that the
node still exists; panic instead, and resolve absolute paths to nothing.
---
 node_tree_core/src/structs/node_path.rs      |  7 ++++---
 node_tree_core/src/structs/node_tree_base.rs | 12 +++++++++---
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/node_tree_core/src/structs/node_path.rs b/node_tree_core/src/structs/node_path.rs
index 9a12b99..e45f2b1 100644
--- a/node_tree_core/src/structs/node_path.rs
+++ b/node_tree_core/src/structs/node_path.rs
@@ -46,7 +46,7 @@
 use std::fmt;
 use std::collections::VecDeque;
 
-use crate::traits::node_getter::NodeGetter;
+use crate::traits::{ node::Node, node_getter::NodeGetter };
 use super::{ node_tree_base::NodeTreeBase, rid::RID };
 
 
@@ -214,10 +214,11 @@ impl NodeGetter for NodePath {
         }
         
         let mut absolute_path: NodePath = self.clone();
-        if Some(tree.root().name()) != absolute_path.pop_front_as_string().as_deref() {
+        let root: &dyn Node = tree.get_node(NodeTreeBase::ROOT_RID)?;
+        if Some(root.name()) != absolute_path.pop_front_as_string().as_deref() {
             return None;
         }
-        tree.root().get_node_raw(absolute_path)
+        root.get_node_raw(absolute_path)
     }
 }
 
diff --git a/node_tree_core/src/structs/node_tree_base.rs b/node_tree_core/src/structs/node_tree_base.rs
index 50cd521..11c8916 100644
--- a/node_tree_core/src/structs/node_tree_base.rs
+++ b/node_tree_core/src/structs/node_tree_base.rs
@@ -162,7 +162,7 @@ pub struct NodeTreeBase {
 impl NodeTreeBase {
 
     /// The RID for the root node.
-    const ROOT_RID: RID = 0;
+    pub(crate) const ROOT_RID: RID = 0;
 
     /// Creates an empty `NodeTreeBase`, ready for initialization.
     unsafe fn new(logger_verbosity: LoggerVerbosity) -> Self {
@@ -288,16 +288,22 @@ impl NodeTreeBase {
     }
 
     /// Gets a reference to the Root node.
+    ///
+    /// # Panics
+    /// Panics if the root node was freed, which terminates the tree.
     pub fn root(&self) -> &dyn Node {
         unsafe {
-            &**self.nodes.retrieve(Self::ROOT_RID).unwrap_unchecked()
+            &**self.nodes.retrieve(Self::ROOT_RID).expect("The root node was freed")
         }
     }
     
     /// Gets a mutable reference to the Root node.
+    ///
+    /// # Panics
+    /// Panics if the root node was freed, which terminates the tree.
     pub fn root_mut(&mut self) -> &mut dyn Node {
         unsafe {
-            &mut **self.nodes.modify(Self::ROOT_RID).unwrap_unchecked()
+            &mut **self.nodes.modify(Self::ROOT_RID).expect("The root node was freed")
         }
     }
 
-- 
2.43.0


From 8bc20ff396e0b652ea8eb498701ab23f336cd60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:49 +0000
Subject: [PATCH 21/45] fix: using a signal in one of its own handlers
 deadlocks

emit() held the lock of the connections while it called them, so a handler that connects to, disconnects
from or emits the same signal never returned, and a panicking one left the signal poisoned.
---
 node_tree_core/src/structs/signals.rs | 28 ++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/node_tree_core/src/structs/signals.rs b/node_tree_core/src/structs/signals.rs
index 17e5f42..a8c0021 100644
--- a/node_tree_core/src/structs/signals.rs
+++ b/node_tree_core/src/structs/signals.rs
@@ -128,23 +128,25 @@ impl <T> Signal<T> {
     
     /// Emits the signal, calling all connected hooks.
     pub fn emit<E: Element<T>>(&self, parameters: E) {
-        let mut hooks:           MutexGuard<EventHandler<T>> = self.hooks.lock().unwrap();
-        let mut removed_signals: Vec<RID>                    = Vec::with_capacity(hooks.len());
-        let     parameters:      &T                          = parameters.as_inner();
+        let hooks:      MutableArc<EventHandler<T>> = Arc::clone(&self.hooks);
+        let connected:  Vec<RID>                    = hooks.lock().unwrap().iter_enumerated().map(|(&rid, _)| rid).collect();
+        let parameters: &T                          = parameters.as_inner();
+
+        for rid in connected {
+
+            // The lock cannot be held while calling the hook, as the hook may use this signal too.
+            let hook: *mut dyn FnMut(&T) = {
+                let mut hooks: MutexGuard<EventHandler<T>> = hooks.lock().unwrap();
+                match hooks.retrieve(rid).copied() {
+                    Some((hook, ConnectionType::UntilDisconnected)) => hook,
+                    Some((hook, ConnectionType::Once))              => { hooks.take(rid); hook },
+                    None                                            => continue // Disconnected by an earlier hook.
+                }
+            };
 
-        for (&rid, &(hook, mode)) in hooks.iter_enumerated() {
             unsafe {
                 (*hook)(parameters);
             }
-
-            match mode {
-                ConnectionType::UntilDisconnected => (),
-                ConnectionType::Once              => removed_signals.push(rid)
-            }
-        }
-
-        for idx in removed_signals.into_iter().rev() {
-            hooks.take(idx);
         }
     }
 
-- 
2.43.0


From 8645293bb4a49fda5a04ceef194339d8e7c791bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:27 +0000
Subject: [PATCH 22/45] fix: the documented pause() and unpause() of the
 NodeTree are missing

The README describes them and process modes only differ while the tree is paused, but nothing could set
TreeProcess::Paused.
---
 node_tree_core/src/structs/node_tree_base.rs | 21 ++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/node_tree_core/src/structs/node_tree_base.rs b/node_tree_core/src/structs/node_tree_base.rs
index 11c8916..4404f16 100644
--- a/node_tree_core/src/structs/node_tree_base.rs
+++ b/node_tree_core/src/structs/node_tree_base.rs
@@ -388,6 +388,27 @@ impl NodeTreeBase {
         self.status = TreeStatus::Terminated;
     }
 
+    /// Pauses the tree, from which on each node's process mode determines whether it is processed.
+    /// This does nothing if the tree is already terminating.
+    pub fn pause(&mut self) {
+        self.set_process(TreeProcess::Paused);
+    }
+
+    /// Unpauses the tree.
+    /// This does nothing if the tree is already terminating.
+    pub fn unpause(&mut self) {
+        self.set_process(TreeProcess::Running);
+    }
+
+    /// Sets how nodes are processed for as long as the tree isn't terminating.
+    fn set_process(&mut self, process: TreeProcess) {
+        match self.status {
+            TreeStatus::Process(_)           => self.status = TreeStatus::Process(process),
+            TreeStatus::QueuedTermination(_) => self.status = TreeStatus::QueuedTermination(process),
+            _                                => ()
+        }
+    }
+
     /// The recursive tail-end of the process function which traverses down the node tree.
     fn process_tail(&mut self, node_rid: RID, delta: f32, inherited_process_mode: ProcessMode) {
         let status: TreeStatus    = self.status;
-- 
2.43.0


From 8493edd32e6168a52b0d98b7f67005aa32b4fe06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:06 +0000
Subject: [PATCH 23/45] fix: draw_tree draws more layers below its origin than
 it was asked to

---
 node_tree_core/src/utils/functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_tree_core/src/utils/functions.rs b/node_tree_core/src/utils/functions.rs
index 8dfa990..10df9d8 100644
--- a/node_tree_core/src/utils/functions.rs
+++ b/node_tree_core/src/utils/functions.rs
@@ -70,7 +70,7 @@ pub fn draw_tree(node_tree: &NodeTreeBase, origin: RID, view_up: usize, view_dow
 
     let origin:    &dyn Node = node_tree.get_node(origin).unwrap();
     let draw_from: &dyn Node = get_start(node_tree, origin, view_up);
-    let levels:    usize     = view_up + view_down;
+    let levels:    usize     = (origin.depth() - draw_from.depth()) + view_down;   // There may be less than `view_up` layers above the origin.
     
     const OTHER_CHILD: &str = "│   ";   // prefix: pipe
     const OTHER_ENTRY: &str = "├── ";   // connector: tee
-- 
2.43.0


From 6ed6cc9a3ee6b60d4769bb071ba8549980234963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:42 +0000
Subject: [PATCH 24/45] fix: default fields of generic types do not compile

---
 node_tree_derive/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node_tree_derive/src/lib.rs b/node_tree_derive/src/lib.rs
index ae9a03f..0b526f9 100644
--- a/node_tree_derive/src/lib.rs
+++ b/node_tree_derive/src/lib.rs
@@ -539,7 +539,7 @@ pub fn class(input: TokenStream) -> TokenStream {
                 }
             },
             FieldKind::ExportDefault => quote! {
-                #name: node_tree::structs::node_field::ExportableField::new(#ty::default())
+                #name: node_tree::structs::node_field::ExportableField::new(<#ty as std::default::Default>::default())
             }, 
             FieldKind::Unique => if let Some(default_value) = &field.init {
                 quote! {
@@ -551,7 +551,7 @@ pub fn class(input: TokenStream) -> TokenStream {
                 }
             },
             FieldKind::Default => quote! {
-                #name: node_tree::structs::node_field::DefaultField::new(#ty::default())
+                #name: node_tree::structs::node_field::DefaultField::new(<#ty as std::default::Default>::default())
             }
         }
     });
-- 
2.43.0


From ee85804a96b89c9c11f6d2ce719e2e3b1baceb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:35 +0000
Subject: [PATCH 25/45] fix: scene! settings apply wrap() to the last operand
 only

---
 node_tree_derive/src/generator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_tree_derive/src/generator.rs b/node_tree_derive/src/generator.rs
index 9db5477..688a7b9 100644
--- a/node_tree_derive/src/generator.rs
+++ b/node_tree_derive/src/generator.rs
@@ -34,7 +34,7 @@ pub fn generate_node(node: &SceneNode) -> TokenStream2 {
 
             let settings = settings.iter().map(|(key, expr)| {
                 quote! {
-                    node.#key = #expr.wrap(); // All field types support wrap() via the `AsElement` trait.
+                    node.#key = node_tree::traits::element::AsElement::wrap(#expr); // All field types support wrap() via the `AsElement` trait.
                 }
             });
 
-- 
2.43.0


From 8da48a0457b89442f33dc8f5505946a6943177c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:47 +0000
Subject: [PATCH 26/45] fix: the variables of scene! capture the user's
 variables node and scene

---
 node_tree_derive/src/generator.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/node_tree_derive/src/generator.rs b/node_tree_derive/src/generator.rs
index 688a7b9..0c3d4ac 100644
--- a/node_tree_derive/src/generator.rs
+++ b/node_tree_derive/src/generator.rs
@@ -1,5 +1,5 @@
 use quote::quote;
-use proc_macro2::TokenStream as TokenStream2;
+use proc_macro2::{ TokenStream as TokenStream2, Span };
 
 use crate::parser::*;
 
@@ -18,6 +18,10 @@ pub fn generate_node(node: &SceneNode) -> TokenStream2 {
             }
         },
         SceneNode::Node { node_type, params, settings, name, children } => {
+            // The variables of this macro are hygienic: the user's variables may bear the same names.
+            let node:  syn::Ident = syn::Ident::new("node", Span::mixed_site());
+            let scene: syn::Ident = syn::Ident::new("scene", Span::mixed_site());
+
             let params: TokenStream2 = match params {
                 Some(p) => quote! { (#p) },
                 None    => quote! { () },
@@ -26,7 +30,7 @@ pub fn generate_node(node: &SceneNode) -> TokenStream2 {
                 None       => quote! {},
                 Some(name) => quote! {
                     unsafe {
-                        node.set_name_unchecked(#name);
+                        #node.set_name_unchecked(#name);
                     }
                 }
             };
@@ -34,22 +38,22 @@ pub fn generate_node(node: &SceneNode) -> TokenStream2 {
 
             let settings = settings.iter().map(|(key, expr)| {
                 quote! {
-                    node.#key = node_tree::traits::element::AsElement::wrap(#expr); // All field types support wrap() via the `AsElement` trait.
+                    #node.#key = node_tree::traits::element::AsElement::wrap(#expr); // All field types support wrap() via the `AsElement` trait.
                 }
             });
 
             quote! {
                 {
-                    let mut node: #node_type = #node_type::new #params;
+                    let mut #node: #node_type = #node_type::new #params;
                     #name_set
 
                     #(#settings)*
                                         
-                    let mut scene: NodeScene = NodeScene::new(node);
+                    let mut #scene: NodeScene = NodeScene::new(#node);
                     #(
-                        scene.append(#children);
+                        #scene.append(#children);
                     )*
-                    scene
+                    #scene
                 }
             }
         }
-- 
2.43.0


From 7f9fa4ae4f2e27cac349af01286d07f96163c2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:46 +0000
Subject: [PATCH 27/45] fix: an _init() hook that ends with an expression does
 not compile

---
 node_tree_derive/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/node_tree_derive/src/lib.rs b/node_tree_derive/src/lib.rs
index 0b526f9..a2535d8 100644
--- a/node_tree_derive/src/lib.rs
+++ b/node_tree_derive/src/lib.rs
@@ -596,10 +596,16 @@ pub fn class(input: TokenStream) -> TokenStream {
             let init_args:    &[syn::PatType]   = &init_hook.args;
             let init_body:    &[syn::Stmt]      = &init_hook.body.stmts;
 
+            // The body may end with an expression, after which the constructed value follows.
+            let init_end: TokenStream2 = match init_body.last() {
+                Some(syn::Stmt::Expr(_)) => quote! { ; },
+                _                        => TokenStream2::new()
+            };
+
             quote! {
                 #(#init_attribs)*
                 #visibility fn new(#(#init_args),*) -> Self {
-                    #(#init_body)*
+                    #(#init_body)* #init_end
                     Self {
                         base: node_tree::prelude::NodeBase::new(stringify!(#name).to_string()),
                         #(#constructor_signals,)*
-- 
2.43.0


From 504c2c747cda80271359d95ac7608da38d242426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:02 +0000
Subject: [PATCH 28/45] fix: fields and signals under a false cfg attribute do
 not compile

---
 node_tree_derive/src/lib.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/node_tree_derive/src/lib.rs b/node_tree_derive/src/lib.rs
index a2535d8..a9b033b 100644
--- a/node_tree_derive/src/lib.rs
+++ b/node_tree_derive/src/lib.rs
@@ -504,22 +504,30 @@ pub fn class(input: TokenStream) -> TokenStream {
     let needs_init: bool          = fields.iter().any(|field| field.init.is_none() && !field.kind.supports_default_init());
     let init_hook:  Option<&Hook> = hooks.iter().find(|hook| hook.name == INIT);
 
+    // Fields and signals under a false `#[cfg(...)]` do not exist, and must not be initialized either.
+    let conditions = |attribs: &[syn::Attribute]| -> Vec<TokenStream2> {
+        attribs.iter().filter(|attrib| attrib.path.is_ident("cfg")).map(|attrib| quote! { #attrib }).collect()
+    };
+
     let constructor_signals = signals.iter().map(|signal| {
-        let signal_name: &syn::Ident = &signal.name;
+        let signal_name: &syn::Ident       = &signal.name;
+        let cfgs:        Vec<TokenStream2> = conditions(&signal.attribs);
         quote! {
-            #signal_name: node_tree::prelude::Signal::new()
+            #(#cfgs)* #signal_name: node_tree::prelude::Signal::new()
         }
     });
 
     let constructor_fields = fields.iter().map(|field| {
         let Field {
             name,
+            attribs,
             kind,
             ty,
             ..
         } = field;
 
-        match kind {
+        let cfgs:  Vec<TokenStream2> = conditions(attribs);
+        let value: TokenStream2      = match kind {
             FieldKind::Regular => if let Some(default_value) = &field.init {
                 quote! {
                     #name: node_tree::structs::node_field::Field::new(#default_value)
@@ -553,6 +561,9 @@ pub fn class(input: TokenStream) -> TokenStream {
             FieldKind::Default => quote! {
                 #name: node_tree::structs::node_field::DefaultField::new(<#ty as std::default::Default>::default())
             }
+        };
+        quote! {
+            #(#cfgs)* #value
         }
     });
 
-- 
2.43.0


From 329c783ea4ce63e7abbc8380941344dbc962abff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:43 +0000
Subject: [PATCH 29/45] fix: classes whose names differ only in case no longer
 collide

---
 node_tree_derive/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/node_tree_derive/src/lib.rs b/node_tree_derive/src/lib.rs
index a9b033b..2fa7e12 100644
--- a/node_tree_derive/src/lib.rs
+++ b/node_tree_derive/src/lib.rs
@@ -177,7 +177,7 @@ pub fn derive_registered(input: TokenStream) -> TokenStream {
             }
         }).collect(); // We need to collect here so that the unique identities are created here and now!
 
-    let static_name: syn::Ident   = syn::Ident::new(&format!("__static_init_{}", name.to_string().to_lowercase()), name.span());
+    let static_name: syn::Ident   = quote::format_ident!("__static_init_{}", name, span = name.span());   // Names may only differ in their case.
     let expanded:    TokenStream2 = quote! {
         impl node_tree::traits::registered::Registered for #name {
             fn save_from_owned(&self) -> node_tree::services::node_registry::FieldMap {
@@ -201,6 +201,7 @@ pub fn derive_registered(input: TokenStream) -> TokenStream {
         }
         
         // Runs before main.
+        #[allow(non_snake_case)]
         #[node_tree::startup::ctor]
         unsafe fn #static_name() {
             use node_tree::prelude::Registered;
-- 
2.43.0


From 07486a72d3992dee06e2b0e686b6a9f611378086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:15 +0000
Subject: [PATCH 30/45] fix: nodes with an exported field named metadata can be
 loaded again

---
 node_tree_derive/src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/node_tree_derive/src/lib.rs b/node_tree_derive/src/lib.rs
index 2fa7e12..e2fbe0a 100644
--- a/node_tree_derive/src/lib.rs
+++ b/node_tree_derive/src/lib.rs
@@ -148,6 +148,12 @@ pub fn derive_registered(input: TokenStream) -> TokenStream {
         .map(|field| field.ident.as_ref().unwrap())
         .collect();
 
+    // A node's own data is saved under `metadata`, so a field of that name needs another key.
+    let field_key = |field_name: &syn::Ident| -> String {
+        if field_name == "metadata" { "r#metadata".to_string() } else { field_name.to_string() }
+    };
+    let field_keys: Vec<String> = field_names.iter().map(|field_name| field_key(field_name)).collect();
+
     // Initialize deserialization lines from the fields.
     let mut type_definitions: Vec<TokenStream2>      = Vec::new();
     let     type_define_ptr:  *mut Vec<TokenStream2> = &mut type_definitions as *mut _;
@@ -156,6 +162,7 @@ pub fn derive_registered(input: TokenStream) -> TokenStream {
         .map(|field| {
             let field_name: &syn::Ident = field.ident.as_ref().expect("Field must be named");
             let field_type: &syn::Type  = &field.ty;
+            let field_key:  String      = field_key(field_name);
             
             // Create a unique ident for the type; this is to avoid having to parse colons between
             // generic arguments and the type.
@@ -170,7 +177,7 @@ pub fn derive_registered(input: TokenStream) -> TokenStream {
                         #unique_ident::void()
                     } else {
                         #unique_ident::from_value(
-                            owned_state.remove(stringify!(#field_name)).ok_or(format!("corrupt save data; `{}` missing", stringify!(#field_name)))?
+                            owned_state.remove(#field_key).ok_or(format!("corrupt save data; `{}` missing", stringify!(#field_name)))?
                         ).ok_or(format!("corrupt save data; `{}` invalid type", stringify!(#field_name)))?
                     }
                 }
@@ -184,7 +191,7 @@ pub fn derive_registered(input: TokenStream) -> TokenStream {
                 let mut map = node_tree::services::node_registry::FieldMap::new();
                 #(
                     map.insert(
-                        Box::<str>::from(stringify!(#field_names)),
+                        Box::<str>::from(#field_keys),
                         Box::new(self.#field_names.clone()),
                     );
                 )*
-- 
2.43.0


From 6772c26ea5ce3ba802813fe76d06ff228f1261d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:21 +0000
Subject: [PATCH 31/45] fix: an initializer of an export default field is
 refused rather than ignored

---
 node_tree_derive/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_tree_derive/src/parser.rs b/node_tree_derive/src/parser.rs
index 8cdaa5d..db9399b 100644
--- a/node_tree_derive/src/parser.rs
+++ b/node_tree_derive/src/parser.rs
@@ -369,7 +369,7 @@ impl Parse for Class {
                 };
 
                 if let Some(ref default_value) = default_value {
-                    if item_kind == FieldKind::Default {
+                    if item_kind.supports_default_init() {
                         return Err(syn::Error::new_spanned(default_value, "A field with the attribute `default` cannot have an initialized value"));
                     }
                 }
-- 
2.43.0


From 22f7d285a9e56a7605d1956147072412ceed7111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:14 +0000
Subject: [PATCH 32/45] fix: connect! gives the RID of the connection, as
 documented

---
 node_tree_derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_tree_derive/src/lib.rs b/node_tree_derive/src/lib.rs
index e2fbe0a..6594b1a 100644
--- a/node_tree_derive/src/lib.rs
+++ b/node_tree_derive/src/lib.rs
@@ -714,7 +714,7 @@ pub fn connect(input: TokenStream) -> TokenStream {
             let tp_: node_tree::prelude::Tp<_> = #tree_pointer;
             self.#signal_name.#connect_type(move |args| {
                 tp_.#callback(&args)
-            });
+            })
         }
     })
 }
-- 
2.43.0


From c4476abeaec38418d14fed2686dfe49c888cf9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:23 +0000
Subject: [PATCH 33/45] fix: connect! accepts listeners that take &mut self

---
 node_tree_derive/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/node_tree_derive/src/lib.rs b/node_tree_derive/src/lib.rs
index 6594b1a..05037ca 100644
--- a/node_tree_derive/src/lib.rs
+++ b/node_tree_derive/src/lib.rs
@@ -711,7 +711,8 @@ pub fn connect(input: TokenStream) -> TokenStream {
     let connect_type: TokenStream2 = if one_shot { quote! { connect_once } } else { quote! { connect } };
     TokenStream::from(quote! {
         unsafe { // Enforce `move,` as without it a segfault occurs!
-            let tp_: node_tree::prelude::Tp<_> = #tree_pointer;
+            #[allow(unused_mut)]
+            let mut tp_: node_tree::prelude::Tp<_> = #tree_pointer;
             self.#signal_name.#connect_type(move |args| {
                 tp_.#callback(&args)
             })
-- 
2.43.0


From 819c8185acce5fe12b4a5d535209ab195db87d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:03 +0000
Subject: [PATCH 34/45] fix: the logging and path macros take named arguments
 and a trailing comma, as format! does

---
 node_tree_core/src/structs/logger.rs    | 16 ++++++++--------
 node_tree_core/src/structs/node_path.rs |  4 ++--
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/node_tree_core/src/structs/logger.rs b/node_tree_core/src/structs/logger.rs
index cea7e0e..b0b2b4c 100644
--- a/node_tree_core/src/structs/logger.rs
+++ b/node_tree_core/src/structs/logger.rs
@@ -291,8 +291,8 @@ macro_rules! debug {
         $self.post(Log::Debug(&format!($fmt_str)))
     }};
 
-    ($self:ident, $fmt_str:literal, $($args:expr),*) => {{
-        $self.post(Log::Debug(&format!($fmt_str, $($args),*)))
+    ($self:ident, $fmt_str:literal, $($args:tt)*) => {{
+        $self.post(Log::Debug(&format!($fmt_str, $($args)*)))
     }};
 }
 
@@ -308,8 +308,8 @@ macro_rules! info {
         $self.post(Log::Info(&format!($fmt_str)))
     }};
 
-    ($self:ident, $fmt_str:literal, $($args:expr),*) => {{
-        $self.post(Log::Info(&format!($fmt_str, $($args),*)))
+    ($self:ident, $fmt_str:literal, $($args:tt)*) => {{
+        $self.post(Log::Info(&format!($fmt_str, $($args)*)))
     }};
 }
 
@@ -325,8 +325,8 @@ macro_rules! warn {
         $self.post(Log::Warn(&format!($fmt_str)))
     }};
 
-    ($self:ident, $fmt_str:literal, $($args:expr),*) => {{
-        $self.post(Log::Warn(&format!($fmt_str, $($args),*)))
+    ($self:ident, $fmt_str:literal, $($args:tt)*) => {{
+        $self.post(Log::Warn(&format!($fmt_str, $($args)*)))
     }};
 }
 
@@ -342,7 +342,7 @@ macro_rules! error {
         $self.post(Log::Panic(&format!($fmt_str)))
     }};
 
-    ($self:ident, $fmt_str:literal, $($args:expr),*) => {{
-        $self.post(Log::Panic(&format!($fmt_str, $($args),*)))
+    ($self:ident, $fmt_str:literal, $($args:tt)*) => {{
+        $self.post(Log::Panic(&format!($fmt_str, $($args)*)))
     }};
 }
diff --git a/node_tree_core/src/structs/node_path.rs b/node_tree_core/src/structs/node_path.rs
index e45f2b1..3953236 100644
--- a/node_tree_core/src/structs/node_path.rs
+++ b/node_tree_core/src/structs/node_path.rs
@@ -241,7 +241,7 @@ macro_rules! nodepath {
         NodePath::from_str(&format!($fmt_str))
     }};
 
-    ($fmt_str:literal, $($args:expr),*) => {{
-        NodePath::from_str(&format!($fmt_str, $($args),*))
+    ($fmt_str:literal, $($args:tt)*) => {{
+        NodePath::from_str(&format!($fmt_str, $($args)*))
     }};
 }
-- 
2.43.0


From 7e002797547475dc656016c3adff19778ce7e83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:45 +0000
Subject: [PATCH 35/45] fix: nodes are dropped only once the whole branch is
 out of the tree

---
 node_tree_core/src/structs/node_base.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index a202a48..f9e7cec 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -339,6 +339,9 @@ impl NodeBase {
             }
         }}
 
+        // Dropping a node may run code that looks at the others, so none is dropped before all of
+        // them are out of the NodeTree.
+        let mut removed: Vec<Option<Box<dyn Node>>> = Vec::with_capacity(connected.len());
         for (idx, queued_rid) in connected.into_iter().enumerate() { unsafe { 
             let _is_root_child: bool = idx == 0; // TODO: Use this to save children nodes!
             if let Some(queued_node) = self.tree_mut().unwrap_unchecked().get_node_mut(queued_rid) {
@@ -347,10 +350,11 @@ impl NodeBase {
                 queued_node.disconnnect_tree();
             }
 
-            self.tree_mut().unwrap_unchecked().unregister_node(queued_rid);
+            removed.push(self.tree_mut().unwrap_unchecked().unregister_node(queued_rid));
         }}
 
         self.post(Log::Debug(&format!("Removed child node \"{}\" from parent node \"{}\"!", child_name, self.name())));
+        drop(removed);
         true 
     }
 
@@ -627,16 +631,18 @@ impl NodeBase {
             parent.children.retain(|&c_rid| c_rid != rid);
         }
 
+        // Dropping a node may run code that looks at the others, so none is dropped before all of
+        // them are out of the NodeTree.
+        let mut removed: Vec<Option<Box<dyn Node>>> = Vec::with_capacity(freed.len());
         for node in freed {
-            unsafe {
-                tree.unregister_node(node);
-            }
+            removed.push(unsafe { tree.unregister_node(node) });
         }
 
         // If this is the root node, terminate the NodeTree.
         if is_root {
             tree.terminate();
         }
+        drop(removed);
     }
 
     /// Saves this node and all of the nodes below it as a `NodeScene`, which can then be
-- 
2.43.0


From d0e58f204b72f9495fac66d7d92c2af0c947a2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:01 +0000
Subject: [PATCH 36/45] fix: terminal() may add to, free or unwind through the
 branch that is being removed

---
 node_tree_core/src/structs/node_base.rs      | 44 ++++++++++----------
 node_tree_core/src/structs/node_tree_base.rs | 24 +++++++++++
 2 files changed, 45 insertions(+), 23 deletions(-)

diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index f9e7cec..202092f 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -318,42 +318,45 @@ impl NodeBase {
         }
 
         let (
-            child_idx,
-            child_name,
-            connected
-        ): (usize, String, Vec<RID>) = unsafe {
-            child.map(|(idx, child)| (
-                    idx,
-                    child.name().to_string(),
-                    child.top_down(true)
+            child_rid,
+            child_name
+        ): (RID, String) = unsafe {
+            child.map(|(_, child)| (
+                    child.rid(),
+                    child.name().to_string()
             )).unwrap_unchecked()
         };
 
-        self.children.remove(child_idx);
+        // `self` may be destroyed along the way, so anything that is needed of it has to be copied here.
+        let rid:  RID               = self.rid;
+        let tree: *mut dyn NodeTree = unsafe { self.tree.unwrap_unchecked() };
+        let tree: &mut NodeTreeBase = unsafe { &mut *tree };
 
         // Call the terminal function on every node while all of them are still connected,
         // before any of them is removed from the NodeTree.
-        for &queued_rid in &connected { unsafe {
-            if let Some(queued_node) = self.tree_mut().unwrap_unchecked().get_node_mut(queued_rid) {
-                queued_node.terminal(TerminationReason::RemovedAsChild);
-            }
-        }}
+        let connected: Vec<RID> = tree.terminate_branch(child_rid, TerminationReason::RemovedAsChild);
+
+        if let Some(parent) = tree.get_node_mut(rid) {
+            parent.children.retain(|&c_rid| c_rid != child_rid);
+        }
 
         // Dropping a node may run code that looks at the others, so none is dropped before all of
         // them are out of the NodeTree.
         let mut removed: Vec<Option<Box<dyn Node>>> = Vec::with_capacity(connected.len());
         for (idx, queued_rid) in connected.into_iter().enumerate() { unsafe { 
             let _is_root_child: bool = idx == 0; // TODO: Use this to save children nodes!
-            if let Some(queued_node) = self.tree_mut().unwrap_unchecked().get_node_mut(queued_rid) {
+            if let Some(queued_node) = tree.get_node_mut(queued_rid) {
                 queued_node.disconnnect_parent();
                 queued_node.disconnnect_owner();
                 queued_node.disconnnect_tree();
             }
 
-            removed.push(self.tree_mut().unwrap_unchecked().unregister_node(queued_rid));
+            removed.push(tree.unregister_node(queued_rid));
         }}
 
-        self.post(Log::Debug(&format!("Removed child node \"{}\" from parent node \"{}\"!", child_name, self.name())));
+        if let Some(parent) = tree.get_node(rid) {
+            parent.post(Log::Debug(&format!("Removed child node \"{}\" from parent node \"{}\"!", child_name, parent.name())));
+        }
         drop(removed);
         true 
     }
@@ -614,17 +617,12 @@ impl NodeBase {
         let rid:     RID               = self.rid;
         let parent:  Option<RID>       = self.parent;
         let is_root: bool              = self.is_root();
-        let freed:   Vec<RID>          = self.top_down(true);
         let tree:    *mut dyn NodeTree = unsafe { self.tree.unwrap_unchecked() };
         let tree:    &mut NodeTreeBase = unsafe { &mut *tree };
         
         // Call the terminal function on this node and all of its children nodes,
         // before removing any of them from the NodeTree.
-        for &node in &freed {
-            if let Some(node) = tree.get_node_mut(node) {
-                node.terminal(TerminationReason::Freed); // Has to be called externally!
-            }
-        }
+        let freed: Vec<RID> = tree.terminate_branch(rid, TerminationReason::Freed); // Has to be called externally!
 
         // Remove the reference of this node from its parent if it has a parent.
         if let Some(parent) = parent.and_then(|parent| tree.get_node_mut(parent)) {
diff --git a/node_tree_core/src/structs/node_tree_base.rs b/node_tree_core/src/structs/node_tree_base.rs
index 4404f16..2d5e6cd 100644
--- a/node_tree_core/src/structs/node_tree_base.rs
+++ b/node_tree_core/src/structs/node_tree_base.rs
@@ -479,6 +479,30 @@ impl NodeTreeBase {
         rid
     }
 
+    /// Calls the `terminal()` function of a node and of all of the nodes below it, including the
+    /// ones that are added by these functions.
+    /// Returns the RIDs of all of them, with parents before their children.
+    pub(crate) fn terminate_branch(&mut self, rid: RID, reason: TerminationReason) -> Vec<RID> {
+        let mut branch: Vec<RID>     = Vec::new();
+        let mut known:  HashSet<RID> = HashSet::new();
+        loop {
+            let added: Vec<RID> = match self.get_node(rid) {
+                Some(node) => node.top_down(true).into_iter().filter(|&rid| known.insert(rid)).collect(),
+                None       => Vec::new()
+            };
+            if added.is_empty() {
+                return branch;
+            }
+
+            branch.extend(&added);
+            for rid in added {
+                if let Some(node) = self.get_node_mut(rid) {
+                    node.terminal(reason);
+                }
+            }
+        }
+    }
+
     /// Unregisters a node from the tree, returning the Node as a `Box<T>` if it existed.
     ///
     /// # Safety
-- 
2.43.0


From ff303d3a77fb750d48f131123565c7495cea5fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:34 +0000
Subject: [PATCH 37/45] fix: a freed node no longer claims to be in the tree
 while it is dropped

---
 node_tree_core/src/structs/node_base.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index 202092f..b623768 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -632,9 +632,15 @@ impl NodeBase {
         // Dropping a node may run code that looks at the others, so none is dropped before all of
         // them are out of the NodeTree.
         let mut removed: Vec<Option<Box<dyn Node>>> = Vec::with_capacity(freed.len());
-        for node in freed {
-            removed.push(unsafe { tree.unregister_node(node) });
-        }
+        for node in freed { unsafe {
+            if let Some(node) = tree.get_node_mut(node) {
+                node.disconnnect_parent();
+                node.disconnnect_owner();
+                node.disconnnect_tree();
+            }
+
+            removed.push(tree.unregister_node(node));
+        }}
 
         // If this is the root node, terminate the NodeTree.
         if is_root {
-- 
2.43.0


From 5f9596915e430aba84ce51b0a5d595afc7be7146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:03 +0000
Subject: [PATCH 38/45] fix: saving a scene no longer leaks the copy it makes
 of it

save_to_str iterates a clone of the scene, whose nodes were never freed.
---
 node_tree_core/src/structs/node_scene.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/node_tree_core/src/structs/node_scene.rs b/node_tree_core/src/structs/node_scene.rs
index f8af7b0..2197073 100644
--- a/node_tree_core/src/structs/node_scene.rs
+++ b/node_tree_core/src/structs/node_scene.rs
@@ -215,7 +215,9 @@ impl NodeScene {
         // Go through each node and serialize it:
         unsafe { (&mut *self.this).set_rid(0) };
         self.update_internal(0);
+        let mut saved: Vec<*mut dyn Node> = Vec::new();
         self.clone().iterate(|parent, node, is_owner| {
+            saved.push(node);
             let node:   &dyn Node         = unsafe { &*node };
             let parent: Option<&dyn Node> = parent.map(|x| unsafe { &*x });
             
@@ -241,6 +243,10 @@ impl NodeScene {
             }
         });
 
+        for node in saved {
+            drop(unsafe { Box::from_raw(node) });
+        }
+
         let mut buffer: String = SCN_COMMENT.to_string();
                 buffer        += &document.to_string();
         Ok(buffer)
-- 
2.43.0


From ec919c82c6129eea861576fcc84abdcc9bb410d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:03 +0000
Subject: [PATCH 39/45] fix: a scene that is not added to a tree drops its
 nodes

NodeScene owns its nodes through raw pointers but had no Drop, so every scene that was
dropped, and every part of one whose loading failed, was leaked.
---
 node_tree_core/src/structs/node_scene.rs | 48 +++++++++++++++---------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/node_tree_core/src/structs/node_scene.rs b/node_tree_core/src/structs/node_scene.rs
index 2197073..5718d21 100644
--- a/node_tree_core/src/structs/node_scene.rs
+++ b/node_tree_core/src/structs/node_scene.rs
@@ -26,6 +26,7 @@
 use std::io::{ Read, Write };
 use std::path::Path;
 use std::fs;
+use std::mem::{ self, ManuallyDrop };
 use std::path::PathBuf;
 use std::collections::HashMap;
 use std::hash::{ self, Hash, Hasher };
@@ -312,6 +313,7 @@ impl NodeScene {
     /// 
     /// # Safety
     /// This is marked unsafe as if the resulting `Box<T>` is dropped, the internal pointer could be invalidated.
+    /// The scene goes on owning the node, so the `Box<T>` must never be dropped (see `std::mem::ManuallyDrop`).
     #[inline]
     pub unsafe fn get_node(&self) -> Box<dyn Node> {
         unsafe  {
@@ -344,24 +346,30 @@ impl NodeScene {
 impl Clone for NodeScene {
     fn clone(&self) -> Self {
         let cloned_node = unsafe {
-            let     node_original: Box<dyn Node> = Box::from_raw(self.this);
+            let     node_original: &dyn Node     = &*self.this;
             let mut node_new:      Box<dyn Node> = node_original.clone_as_instance();
             
             node_new.set_rid(node_original.rid());
             node_new.set_name(node_original.name());
-
-            let _ = Box::into_raw(node_original); // Convert the box back so that its instance isn't deallocated when dropped.
-                    Box::into_raw(node_new)
+            Box::into_raw(node_new)
         };
 
-        // Recursively clone children
-        let cloned_children: Vec<NodeScene> = self.children.to_vec();
-        NodeScene {
+        let mut cloned: NodeScene = NodeScene {
             this:      cloned_node,
-            children:  cloned_children,
+            children:  Vec::with_capacity(self.children.len()),
             from_disk: self.from_disk,
             is_owner:  self.is_owner,
-        }
+        };
+
+        // Recursively clone children
+        cloned.children.extend(self.children.iter().cloned());
+        cloned
+    }
+}
+
+impl Drop for NodeScene {
+    fn drop(&mut self) {
+        drop(unsafe { Box::from_raw(self.this) });
     }
 }
 
@@ -381,32 +389,36 @@ impl Instanceable for NodeScene {
             parent:   *mut dyn Node,
             iterator: &mut F
         ) {
-            for child in node.children {
+            // The iterator takes over the node itself, so it isn't dropped along with the scene.
+            let mut node: ManuallyDrop<NodeScene> = ManuallyDrop::new(node);
+            for child in mem::take(&mut node.children) {
 
                 // Call the iterator for the child node
+                let child:      ManuallyDrop<NodeScene> = ManuallyDrop::new(child);
+                let child_this: *mut dyn Node           = child.this;
                 if child.from_disk {
-                    let child_mut: &mut dyn Node = unsafe { &mut *child.this };
+                    let child_mut: &mut dyn Node = unsafe { &mut *child_this };
                     unsafe {
                         child_mut.mark_as_loaded();
                     }
                 }
-                iterator(Some(parent), child.this, child.is_owner);
+                iterator(Some(parent), child_this, child.is_owner);
 
                 // Recursively traverse the child's children
-                let child_this: *mut dyn Node = child.this;
-                traverse(child, child_this, iterator);
+                traverse(ManuallyDrop::into_inner(child), child_this, iterator);
             }
         }
 
         // Start the traversal from the root.
-        let self_this: *mut dyn Node = self.this;
-        if self.from_disk {
+        let scene:     ManuallyDrop<NodeScene> = ManuallyDrop::new(self);
+        let self_this: *mut dyn Node           = scene.this;
+        if scene.from_disk {
             let self_mut:  &mut dyn Node = unsafe { &mut *self_this };
             unsafe {
                 self_mut.mark_as_loaded();
             }
         }
-        iterator(None, self_this, self.is_owner);
-        traverse(self, self_this, &mut iterator);
+        iterator(None, self_this, scene.is_owner);
+        traverse(ManuallyDrop::into_inner(scene), self_this, &mut iterator);
     }
 }
-- 
2.43.0


From feeca4ce5fdded3a966e9a3dda6e542f67d3195f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:03 +0000
Subject: [PATCH 40/45] fix: dropping a tree drops its nodes

NodeTreeBase owns its nodes through raw pointers but had no Drop, so all nodes of a dropped
tree, and what they hold, were leaked.
---
 node_tree_core/src/structs/node_tree_base.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/node_tree_core/src/structs/node_tree_base.rs b/node_tree_core/src/structs/node_tree_base.rs
index 2d5e6cd..8d948c7 100644
--- a/node_tree_core/src/structs/node_tree_base.rs
+++ b/node_tree_core/src/structs/node_tree_base.rs
@@ -580,6 +580,26 @@ impl NodeTreeBase {
     }
 }
 
+impl Drop for NodeTreeBase {
+    fn drop(&mut self) {
+        let mut rids: Vec<RID> = self.nodes.iter_enumerated().map(|(&rid, _)| rid).collect();
+        rids.sort_unstable();
+
+        // Dropping a node may run code that looks at the others, so none is dropped before all of
+        // them are out of the NodeTree.
+        let mut removed: Vec<Option<Box<dyn Node>>> = Vec::with_capacity(rids.len());
+        for rid in rids { unsafe {
+            if let Some(node) = self.get_node_mut(rid) {
+                node.disconnnect_parent();
+                node.disconnnect_owner();
+                node.disconnnect_tree();
+            }
+
+            removed.push(self.unregister_node(rid));
+        }}
+    }
+}
+
 
 impl <'a> NodeGetter for &'a str {
     fn get_from(&self, tree: &NodeTreeBase, caller: Option<RID>) -> Option<RID> {
-- 
2.43.0


From 72513367c0f64f1a8400e8346f0efffec3f42ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:03 +0000
Subject: [PATCH 41/45] fix: a signal drops its handlers when they are
 disconnected, spent or the signal is dropped

They were boxed, turned into raw pointers and never freed.
---
 node_tree_core/src/structs/signals.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/node_tree_core/src/structs/signals.rs b/node_tree_core/src/structs/signals.rs
index a8c0021..9b8f52a 100644
--- a/node_tree_core/src/structs/signals.rs
+++ b/node_tree_core/src/structs/signals.rs
@@ -26,7 +26,9 @@
 //! nodes, with safety being guaranteed by the `Tp<T>` smart pointer!
 //! 
 
+use std::cell::UnsafeCell;
 use std::mem;
+use std::rc::Rc;
 use std::sync::{ Arc, Mutex, MutexGuard };
 
 use toml_edit as toml;
@@ -44,7 +46,8 @@ enum ConnectionType {
 }
 
 type MutableArc<T>   = Arc<Mutex<T>>;
-type EventHandler<T> = RIDHolder<(*mut dyn FnMut(&T), ConnectionType)>;
+type Callback<T>     = Rc<UnsafeCell<Box<dyn FnMut(&T)>>>;
+type EventHandler<T> = RIDHolder<(Callback<T>, ConnectionType)>;
 
 
 /// A type used to define a signal in a Node.
@@ -95,9 +98,9 @@ impl <T> Signal<T> {
     pub unsafe fn connect<'a>(&self, callback: impl FnMut(&T) + 'a) -> RID {
         let callback_box: Box<dyn FnMut(&T) + 'a> = Box::new(callback);
         let callback_ext: Box<dyn FnMut(&T)>      = unsafe { mem::transmute(callback_box) };
-        let callback_raw: *mut dyn FnMut(&T)      = Box::into_raw(callback_ext);
+        let callback: Callback<T>                 = Rc::new(UnsafeCell::new(callback_ext));
 
-        self.hooks.lock().unwrap().push((callback_raw, ConnectionType::UntilDisconnected))
+        self.hooks.lock().unwrap().push((callback, ConnectionType::UntilDisconnected))
     }
 
     /// Creates a connection between a passed in closure and this signal.
@@ -121,9 +124,9 @@ impl <T> Signal<T> {
     pub unsafe fn connect_once<'a>(&self, callback: impl FnMut(&T) + 'a) -> RID {
         let callback_box: Box<dyn FnMut(&T) + 'a> = Box::new(callback);
         let callback_ext: Box<dyn FnMut(&T)>      = unsafe { mem::transmute(callback_box) };
-        let callback_raw: *mut dyn FnMut(&T)      = Box::into_raw(callback_ext);
+        let callback: Callback<T>                 = Rc::new(UnsafeCell::new(callback_ext));
 
-        self.hooks.lock().unwrap().push((callback_raw, ConnectionType::Once))
+        self.hooks.lock().unwrap().push((callback, ConnectionType::Once))
     }
     
     /// Emits the signal, calling all connected hooks.
@@ -135,9 +138,10 @@ impl <T> Signal<T> {
         for rid in connected {
 
             // The lock cannot be held while calling the hook, as the hook may use this signal too.
-            let hook: *mut dyn FnMut(&T) = {
+            // The hook itself may be disconnected by what it does, so it is kept alive until it returns.
+            let hook: Callback<T> = {
                 let mut hooks: MutexGuard<EventHandler<T>> = hooks.lock().unwrap();
-                match hooks.retrieve(rid).copied() {
+                match hooks.retrieve(rid).cloned() {
                     Some((hook, ConnectionType::UntilDisconnected)) => hook,
                     Some((hook, ConnectionType::Once))              => { hooks.take(rid); hook },
                     None                                            => continue // Disconnected by an earlier hook.
@@ -145,7 +149,7 @@ impl <T> Signal<T> {
             };
 
             unsafe {
-                (*hook)(parameters);
+                (*hook.get())(parameters);
             }
         }
     }
@@ -153,7 +157,8 @@ impl <T> Signal<T> {
     /// Disconnects a connection given its RID.
     /// Returns whether the connection was successfully disconnected.
     pub fn disconnect(&self, rid: RID) -> bool {
-        self.hooks.lock().unwrap().take(rid).is_some()
+        let disconnected: Option<(Callback<T>, ConnectionType)> = self.hooks.lock().unwrap().take(rid);
+        disconnected.is_some()
     }
 }
 
-- 
2.43.0


From 350f850476a2e22f623d7ac676090e5b78308b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:28 +0000
Subject: [PATCH 42/45] fix: add_child_from_ptr used its node after the child's
 ready() freed it

---
 node_tree_core/src/structs/node_base.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index b623768..3edbe13 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -273,18 +273,18 @@ impl NodeBase {
         };
         self.children.push(child_rid);
         
+        // Print the debug information on the child to the console.
+        if let Some(child) = unsafe { self.tree().unwrap_unchecked() }.get_node(child_rid) {
+            self.post(Log::Debug(&format!("Node \"{}\" added to the scene as the child of \"{}\"! Unique ID of \"{}\" generated!", child.name(), self.name(), child.rid)));
+        }
+
         // Call the `ready()` function for the child as long as the call to ready() is not ignored
-        // or circumvented..
+        // or circumvented. This comes last, as it may free this very node.
         if !ignore_ready {
             unsafe {
                 self.tree_mut().unwrap_unchecked().ready_nodes(vec![child_rid]);
             }
         }
-        
-        // Print the debug information on the child to the console.
-        if let Some(child) = unsafe { self.tree().unwrap_unchecked() }.get_node(child_rid) {
-            self.post(Log::Debug(&format!("Node \"{}\" added to the scene as the child of \"{}\"! Unique ID of \"{}\" generated!", child.name(), self.name(), child.rid)));
-        }
         child_rid
     }
 
-- 
2.43.0


From e3ae466591b88740ae4a6c1d9798e93ece7bb800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:34 +0000
Subject: [PATCH 43/45] fix: An exported field of a ghost export type is not
 saved

---
 node_tree_core/src/structs/node_field.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/node_tree_core/src/structs/node_field.rs b/node_tree_core/src/structs/node_field.rs
index b53bb43..0fdad10 100644
--- a/node_tree_core/src/structs/node_field.rs
+++ b/node_tree_core/src/structs/node_field.rs
@@ -314,6 +314,10 @@ impl <T: Exportable + Default> Voidable for ExportableField<T> {
 }
 
 impl <T: Exportable> Exportable for ExportableField<T> {
+    unsafe fn is_ghost_export(&self) -> bool {
+        self.0.is_ghost_export()
+    }
+
     fn to_value(&self) -> toml_edit::Value {
         self.0.to_value()
     }
-- 
2.43.0


From 60716e776d14c02b328d57ae3820a0bcda099b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:22 +0000
Subject: [PATCH 44/45] fix: draw_tree overflows when it is told to view
 everything below

---
 node_tree_core/src/utils/functions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node_tree_core/src/utils/functions.rs b/node_tree_core/src/utils/functions.rs
index 10df9d8..0abfb78 100644
--- a/node_tree_core/src/utils/functions.rs
+++ b/node_tree_core/src/utils/functions.rs
@@ -70,7 +70,7 @@ pub fn draw_tree(node_tree: &NodeTreeBase, origin: RID, view_up: usize, view_dow
 
     let origin:    &dyn Node = node_tree.get_node(origin).unwrap();
     let draw_from: &dyn Node = get_start(node_tree, origin, view_up);
-    let levels:    usize     = (origin.depth() - draw_from.depth()) + view_down;   // There may be less than `view_up` layers above the origin.
+    let levels:    usize     = (origin.depth() - draw_from.depth()).saturating_add(view_down);   // There may be less than `view_up` layers above the origin.
     
     const OTHER_CHILD: &str = "│   ";   // prefix: pipe
     const OTHER_ENTRY: &str = "├── ";   // connector: tee
@@ -116,7 +116,7 @@ pub fn draw_tree(node_tree: &NodeTreeBase, origin: RID, view_up: usize, view_dow
     }
 
     let mut out: String = format!("[REPORT START]\n{}\n", handle_name_and_status(draw_from.name(), draw_from.status(), &mut warnings, &mut panics));
-    walk(node_tree, draw_from.rid(), "", &mut out, &mut warnings, &mut panics, levels + 1);   // + 1 to compensate for the last names being replaced with "..."
+    walk(node_tree, draw_from.rid(), "", &mut out, &mut warnings, &mut panics, levels.saturating_add(1));   // + 1 to compensate for the last names being replaced with "..."
    
     out += "\n[Same-Frame Warnings]";
     if !warnings.is_empty() {
-- 
2.43.0


From dbdc90279de24601418a924d9f3c9bb77a559fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:54 +0000
Subject: [PATCH 45/45] fix: Resolving a path of many segments overflowed the
 stack

---
 node_tree_core/src/structs/node_base.rs | 37 ++++++++-----------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index 3edbe13..6e18b78 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -483,32 +483,19 @@ impl NodeBase {
             panic!("Cannot get a node from a node that is not a part of a NodeTree!");
         }
 
-        let next_node: Option<PathSeg> = path.pop_front();
-        match next_node {
-            Some(target) => {
-                match target {
-                    PathSeg::Node(target_node) => {
-                        for child in self.children() {
-                            if *child.name() == *target_node {
-                                return child.get_node_raw(path);
-                            }
-                        }
-                        None
-                    },
-                    PathSeg::This => {
-                        self.get_node_raw(path)
-                    },
-                    PathSeg::Parent => {
-                        if let Some(parent) = self.parent_dyn().to_option() {
-                            parent.get_node_raw(path)
-                        } else {
-                            None
-                        }
-                    }
-                }
-            },
-            None => Some(self.rid())
+        // A path may have any number of segments, so this is not done recursively.
+        let     tree: &dyn NodeTree = unsafe { self.tree().unwrap_unchecked() };
+        let mut rid:  RID           = self.rid();
+
+        while let Some(target) = path.pop_front() {
+            let node: &dyn Node = tree.get_node(rid)?;
+            rid = match target {
+                PathSeg::Node(target_node) => node.children().into_iter().find(|child| *child.name() == *target_node)?.rid(),
+                PathSeg::This              => rid,
+                PathSeg::Parent            => node.parent?
+            };
         }
+        Some(rid)
     }
 
     /// Produces a normal top-down order iteration of all of the nodes connected to this node.
-- 
2.43.0

