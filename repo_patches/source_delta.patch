From 93b201bb3f8fa3bd1c5f91693958803b7b21a505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:56 +0000
Subject: [PATCH 01/39] fix: reject inserting a node below itself

insert_before documents HIERARCHY_REQUEST_ERR when the node to insert is one
of this node's ancestors; without the check a cycle (or a BorrowMutError panic
for a node inserted into itself) was the result.
---
 src/level2/trait_impls.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 23d0927..09ab776 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -933,6 +933,14 @@ impl Node for RefNode {
             return Err(Error::HierarchyRequest);
         }
 
+        //
+        // CHECK: a node may not be inserted below itself.
+        //
+        if is_inclusive_ancestor(&new_child, self) {
+            warn!("The child you tried to add is this node, or one of its ancestors.");
+            return Err(Error::HierarchyRequest);
+        }
+
         //
         // Special case for Document only.
         //
@@ -1243,6 +1251,21 @@ fn check_same_document(self_node: &RefNode, new_child: &RefNode) -> Result<()> {
     }
     Ok(())
 }
+
+//
+// Is `ancestor` either the same node as `node`, or found by following the parents of `node`?
+//
+fn is_inclusive_ancestor(ancestor: &RefNode, node: &RefNode) -> bool {
+    let mut current = Some(node.clone());
+    while let Some(current_node) = current {
+        if &current_node == ancestor {
+            return true;
+        }
+        current = current_node.parent_node();
+    }
+    false
+}
+
 //
 // From [https://www.w3.org/TR/DOM-Level-2-Core/core.html#ID-1590626202]
 //
-- 
2.43.0


From cd7818c34532653638a062caebe91d8c2974363c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:57 +0000
Subject: [PATCH 02/39] fix: insert_before position when the new child precedes
 ref_child

The index of ref_child was computed before the new child was removed from the
same parent, so the node ended up after ref_child rather than before it.
---
 src/level2/trait_impls.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 09ab776..18cff11 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -958,7 +958,7 @@ impl Node for RefNode {
         //
         // Find the index in `child_nodes` of the `ref_child`.
         //
-        let insert_position = match ref_child {
+        let mut insert_position = match ref_child {
             None => None,
             Some(ref_child) => match self
                 .borrow()
@@ -982,6 +982,17 @@ impl Node for RefNode {
         match new_child.parent_node() {
             None => (),
             Some(mut parent_node) => {
+                if &parent_node == self {
+                    //
+                    // Removing an earlier child moves the insert position down by one.
+                    //
+                    let current_position = self.child_nodes().iter().position(|n| n == &new_child);
+                    if let (Some(current), Some(position)) = (current_position, insert_position) {
+                        if current < position {
+                            insert_position = Some(position - 1);
+                        }
+                    }
+                }
                 let _safe_to_ignore = parent_node.remove_child(new_child.clone())?;
             }
         }
-- 
2.43.0


From bcb67e8846bb76118d7edd6b349d7c1372a1ef7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:27 +0000
Subject: [PATCH 03/39] fix: replace_child keeps the old child when the new
 child is rejected

replace_child removed old_child before insert_before could refuse new_child
(wrong document, ancestor, second document element), losing old_child.
---
 src/level2/trait_impls.rs | 70 ++++++++++++++++++++++++---------------
 1 file changed, 44 insertions(+), 26 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 18cff11..8387684 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -928,32 +928,7 @@ impl Node for RefNode {
             }
         }
 
-        if !is_child_allowed(self, &new_child) {
-            warn!("The child you tried to add is not valid for this parent.");
-            return Err(Error::HierarchyRequest);
-        }
-
-        //
-        // CHECK: a node may not be inserted below itself.
-        //
-        if is_inclusive_ancestor(&new_child, self) {
-            warn!("The child you tried to add is this node, or one of its ancestors.");
-            return Err(Error::HierarchyRequest);
-        }
-
-        //
-        // Special case for Document only.
-        //
-        if is_document(self)
-            && is_element(&new_child)
-            && self
-                .child_nodes()
-                .iter()
-                .any(|n| n.node_type() == NodeType::Element)
-        {
-            warn!("cannot add more than one element to a document");
-            return Error::HierarchyRequest.into();
-        }
+        check_insertion(self, &new_child, None)?;
 
         //
         // Find the index in `child_nodes` of the `ref_child`.
@@ -1039,6 +1014,11 @@ impl Node for RefNode {
             ref_self.i_child_nodes.contains(&old_child.clone())
         };
         if exists {
+            //
+            // Nothing may be removed unless the insertion that follows is going to succeed.
+            //
+            check_insertion(self, &new_child, Some(&old_child))?;
+            check_same_document(self, &new_child)?;
             let next_node = old_child.next_sibling();
             let removed = self.remove_child(old_child)?;
             let _safe_to_ignore = self.insert_before(new_child, next_node)?;
@@ -1263,6 +1243,44 @@ fn check_same_document(self_node: &RefNode, new_child: &RefNode) -> Result<()> {
     Ok(())
 }
 
+//
+// CHECK: Raise `Error::HierarchyRequest` if `new_child` may not be a child of `parent`; if it is to
+// take the place of an existing child, this is `replacing`.
+//
+fn check_insertion(
+    parent: &RefNode,
+    new_child: &RefNode,
+    replacing: Option<&RefNode>,
+) -> Result<()> {
+    if !is_child_allowed(parent, new_child) {
+        warn!("The child you tried to add is not valid for this parent.");
+        return Err(Error::HierarchyRequest);
+    }
+
+    //
+    // CHECK: a node may not be inserted below itself.
+    //
+    if is_inclusive_ancestor(new_child, parent) {
+        warn!("The child you tried to add is this node, or one of its ancestors.");
+        return Err(Error::HierarchyRequest);
+    }
+
+    //
+    // Special case for Document only.
+    //
+    if is_document(parent)
+        && is_element(new_child)
+        && parent
+            .child_nodes()
+            .iter()
+            .any(|n| n.node_type() == NodeType::Element && Some(n) != replacing)
+    {
+        warn!("cannot add more than one element to a document");
+        return Err(Error::HierarchyRequest);
+    }
+    Ok(())
+}
+
 //
 // Is `ancestor` either the same node as `node`, or found by following the parents of `node`?
 //
-- 
2.43.0


From 4efa441ce707680e2822a47761ef198440c238b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:28 +0000
Subject: [PATCH 04/39] fix: allow the document element to be moved among its
 siblings

A new_child already in the tree is first removed, so re-inserting the document
element does not give its document a second element.
---
 src/level2/trait_impls.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 8387684..cbff80e 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1273,7 +1273,7 @@ fn check_insertion(
         && parent
             .child_nodes()
             .iter()
-            .any(|n| n.node_type() == NodeType::Element && Some(n) != replacing)
+            .any(|n| n.node_type() == NodeType::Element && n != new_child && Some(n) != replacing)
     {
         warn!("cannot add more than one element to a document");
         return Err(Error::HierarchyRequest);
-- 
2.43.0


From cd6183ee94d72396c53060c7752c2dc979820faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:30 +0000
Subject: [PATCH 05/39] fix: document_element when a comment or PI precedes the
 root element

The first child of a document need not be its element; tag-name searches on the
document, which start at document_element, found nothing in such documents.
---
 src/level2/trait_impls.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index cbff80e..1292e46 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -234,7 +234,7 @@ impl Document for RefNode {
     }
 
     fn document_element(&self) -> Option<RefNode> {
-        self.child_nodes().first().cloned()
+        self.child_nodes().into_iter().find(is_element)
     }
 
     fn implementation(&self) -> &dyn DOMImplementation<NodeRef = RefNode> {
-- 
2.43.0


From ac5d418a4a27e1a3f906b53da6c12140e9dd20b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:48 +0000
Subject: [PATCH 06/39] fix: create_document sets the owner document of its
 document type

As documented, the owner document of doctype becomes the new document, and a
doctype which already belongs to a document is a WRONG_DOCUMENT_ERR.
---
 src/level2/trait_impls.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 1292e46..a71b700 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1378,7 +1378,18 @@ pub(crate) fn create_document_with_options(
     doc_type: Option<RefNode>,
     options: ProcessingOptions,
 ) -> Result<RefNode> {
-    let node_impl = NodeImpl::new_document(doc_type, options);
+    //
+    // CHECK: Raise `Error::WrongDocument` if `doctype` has already been used with a different
+    // document.
+    //
+    if let Some(doc_type) = &doc_type {
+        if doc_type.owner_document().is_some() {
+            warn!("Error::WrongDocument: document type is already used by another document.");
+            return Err(Error::WrongDocument);
+        }
+    }
+
+    let node_impl = NodeImpl::new_document(doc_type.clone(), options);
     let mut document_node = RefNode::new(node_impl);
 
     //
@@ -1404,5 +1415,9 @@ pub(crate) fn create_document_with_options(
         let _safe_to_ignore = document.append_child(element_node)?;
     }
 
+    if let Some(doc_type) = doc_type {
+        doc_type.borrow_mut().i_owner_document = Some(document_node.clone().downgrade());
+    }
+
     Ok(document_node)
 }
-- 
2.43.0


From 8b71da6b683acbb5c46bb478cdd0d04ad9cbea72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:33 +0000
Subject: [PATCH 07/39] fix: parent of the text nodes in an attribute's value

The text node made for an attribute's initial value had no parent, and those
dropped by unset_value/set_value kept the attribute as theirs, so that they
could not be inserted elsewhere (NOT_FOUND_ERR).
---
 src/level2/trait_impls.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index a71b700..0bbb1d4 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -110,7 +110,9 @@ impl Attribute for RefNode {
     }
     fn unset_value(&mut self) -> Result<()> {
         let mut mut_self = self.borrow_mut();
-        mut_self.i_child_nodes.clear();
+        for child_node in mut_self.i_child_nodes.drain(..) {
+            child_node.borrow_mut().i_parent_node = None;
+        }
         Ok(())
     }
     fn owner_element(&self) -> Option<Self::NodeRef> {
@@ -257,8 +259,7 @@ impl Document for RefNode {
 
     fn create_attribute_with(&self, name: &str, value: &str) -> Result<RefNode> {
         let name = Name::from_str(name)?;
-        let node_impl = NodeImpl::new_attribute(self.clone().downgrade(), name, Some(value));
-        Ok(RefNode::new(node_impl))
+        Ok(new_attribute_with(self.clone().downgrade(), name, value))
     }
 
     fn create_attribute_ns(&self, namespace_uri: &str, qualified_name: &str) -> Result<RefNode> {
@@ -444,9 +445,9 @@ impl Element for RefNode {
         let attr_node = {
             let ref_self = &self.borrow_mut();
             let document = ref_self.i_owner_document.as_ref().unwrap();
-            NodeImpl::new_attribute(document.clone(), attr_name, Some(value))
+            new_attribute_with(document.clone(), attr_name, value)
         };
-        self.set_attribute_node(RefNode::new(attr_node)).map(|_| ())
+        self.set_attribute_node(attr_node).map(|_| ())
     }
 
     fn remove_attribute(&mut self, name: &str) -> Result<()> {
@@ -628,9 +629,9 @@ impl Element for RefNode {
         let attr_node = {
             let ref_self = &self.borrow_mut();
             let document = ref_self.i_owner_document.as_ref().unwrap();
-            NodeImpl::new_attribute(document.clone(), attr_name, Some(value))
+            new_attribute_with(document.clone(), attr_name, value)
         };
-        self.set_attribute_node(RefNode::new(attr_node)).map(|_| ())
+        self.set_attribute_node(attr_node).map(|_| ())
     }
 
     fn remove_attribute_ns(&mut self, namespace_uri: &str, local_name: &str) -> Result<()> {
@@ -1176,6 +1177,18 @@ impl Display for RefNode {
 // Private Functions
 // ------------------------------------------------------------------------------------------------
 
+//
+// Create an attribute whose value is held by a child text node; an attribute is the parent of its
+// value's nodes.
+//
+fn new_attribute_with(owner_document: WeakRefNode, name: Name, value: &str) -> RefNode {
+    let attribute = RefNode::new(NodeImpl::new_attribute(owner_document, name, Some(value)));
+    for child_node in attribute.child_nodes() {
+        child_node.borrow_mut().i_parent_node = Some(attribute.clone().downgrade());
+    }
+    attribute
+}
+
 const WILD_CARD: &str = "*";
 
 fn tag_name_match(test: &str, against: &str) -> bool {
-- 
2.43.0


From 9393a45616e94a18867f64d1ce109b86d7e71ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:35 +0000
Subject: [PATCH 08/39] fix: an attribute in use may not be set on another
 element

set_attribute_node documents INUSE_ATTRIBUTE_ERR; the attribute was shared by
the two elements.
---
 src/level2/trait_impls.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 0bbb1d4..90d7d25 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -488,6 +488,17 @@ impl Element for RefNode {
         if is_element(self) && is_attribute(&new_attribute) {
             check_same_document(self, &new_attribute)?;
 
+            //
+            // CHECK: Raise `Error::InUseAttribute` if `new_attribute` is already an attribute of
+            // another element.
+            //
+            if let Some(owner_element) = as_attribute(&new_attribute)?.owner_element() {
+                if &owner_element != self {
+                    warn!("Error::InUseAttribute: attribute already has an owner element.");
+                    return Err(Error::InUseAttribute);
+                }
+            }
+
             //
             // Set the attribute's owner. This is *not* the same as parent which remains `None`.
             //
-- 
2.43.0


From 40f3705065a219ef15dc023c10393211f16e5ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:37 +0000
Subject: [PATCH 09/39] fix: remove_attribute_node checks and releases the
 attribute

An attribute which is not one of the element's is a NOT_FOUND_ERR (one of the
same name was removed instead), and a removed attribute has no owner element.
---
 src/level2/trait_impls.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 90d7d25..4851450 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -580,10 +580,25 @@ impl Element for RefNode {
         if is_element(self) {
             let mut mut_self = self.borrow_mut();
             if let Extension::Element { i_attributes, .. } = &mut mut_self.i_extension {
-                let _safe_to_ignore = i_attributes.remove(&old_attribute.node_name());
+                //
+                // CHECK: Raise `Error::NotFound` if `old_attribute` is not an attribute of this
+                // element.
+                //
+                let old_name = old_attribute.node_name();
+                if i_attributes.get(&old_name) != Some(&old_attribute) {
+                    warn!("remove_attribute_node: old_attribute not found in `attributes`");
+                    return Err(Error::NotFound);
+                }
+                let _safe_to_ignore = i_attributes.remove(&old_name);
                 let mut_old = old_attribute.clone();
                 let mut mut_old = mut_old.borrow_mut();
                 mut_old.i_parent_node = None;
+                if let Extension::Attribute {
+                    i_owner_element, ..
+                } = &mut mut_old.i_extension
+                {
+                    *i_owner_element = None;
+                }
                 // TODO: remove from Element::namespaces
                 // TODO: remove from Document::id_map
                 Ok(old_attribute)
-- 
2.43.0


From 6296b38f957eae5d368bea9c619af4fcfafaacd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:11 +0000
Subject: [PATCH 10/39] fix: setting an attribute replaces the one with the
 same name

Attributes were keyed by namespace, prefix and local name together, so those
with the same nodeName, or the same namespace and local name, could coexist on
one element, and a replaced attribute kept its owner element.
---
 src/level2/trait_impls.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 4851450..c5588d1 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -499,6 +499,16 @@ impl Element for RefNode {
                 }
             }
 
+            //
+            // An existing attribute with the same name is replaced.
+            //
+            let name: Name = new_attribute.node_name();
+            for existing in self.attributes().into_values() {
+                if existing != new_attribute && is_same_attribute(&existing.node_name(), &name) {
+                    let _safe_to_ignore = self.remove_attribute_node(existing)?;
+                }
+            }
+
             //
             // Set the attribute's owner. This is *not* the same as parent which remains `None`.
             //
@@ -514,7 +524,6 @@ impl Element for RefNode {
                 }
             }
 
-            let name: Name = new_attribute.node_name();
             if name.is_namespace_attribute() {
                 //
                 // Add to the element's namespace mapping hash
@@ -1215,6 +1224,17 @@ fn new_attribute_with(owner_document: WeakRefNode, name: Name, value: &str) -> R
     attribute
 }
 
+//
+// An element has at most one attribute for a qualified name, and at most one for a local name and
+// namespace URI.
+//
+fn is_same_attribute(name: &Name, other: &Name) -> bool {
+    name.to_string() == other.to_string()
+        || (name.namespace_uri().is_some()
+            && name.namespace_uri() == other.namespace_uri()
+            && name.local_name() == other.local_name())
+}
+
 const WILD_CARD: &str = "*";
 
 fn tag_name_match(test: &str, against: &str) -> bool {
-- 
2.43.0


From 1bcba636d3eac553034db4902a23bd9730005fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:13 +0000
Subject: [PATCH 11/39] fix: namespace mappings follow an element's xmlns
 attributes

xmlns:p="uri" was recorded as a mapping for the prefix 'xmlns' rather than 'p';
removing or changing an xmlns attribute left its mapping in place; and an xmlns
attribute without a value panicked.
---
 src/level2/trait_impls.rs | 60 ++++++++++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 16 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index c5588d1..61931e6 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -106,9 +106,15 @@ impl Attribute for RefNode {
         let document_node = self.owner_document().unwrap();
         let document = as_document(&document_node).unwrap();
         let _safe_to_ignore = self.append_child(document.create_text_node(value))?;
+        if let Some(mut owner_element) = Attribute::owner_element(self) {
+            add_namespace_mapping(&mut owner_element, self)?;
+        }
         Ok(())
     }
     fn unset_value(&mut self) -> Result<()> {
+        if let Some(mut owner_element) = Attribute::owner_element(self) {
+            remove_namespace_mapping(&mut owner_element, self)?;
+        }
         let mut mut_self = self.borrow_mut();
         for child_node in mut_self.i_child_nodes.drain(..) {
             child_node.borrow_mut().i_parent_node = None;
@@ -524,19 +530,7 @@ impl Element for RefNode {
                 }
             }
 
-            if name.is_namespace_attribute() {
-                //
-                // Add to the element's namespace mapping hash
-                //
-                let attribute = as_attribute(&new_attribute).unwrap();
-                let namespace_uri = attribute.value().unwrap();
-
-                let as_namespaced = as_element_namespaced_mut(self).unwrap();
-                let _ignore = match &name.prefix() {
-                    None => as_namespaced.insert_mapping(None, &namespace_uri),
-                    Some(prefix) => as_namespaced.insert_mapping(Some(prefix), &namespace_uri),
-                }?;
-            }
+            add_namespace_mapping(self, &new_attribute)?;
 
             let mut mut_self = self.borrow_mut();
             if let Extension::Element { i_attributes, .. } = &mut mut_self.i_extension {
@@ -608,13 +602,14 @@ impl Element for RefNode {
                 {
                     *i_owner_element = None;
                 }
-                // TODO: remove from Element::namespaces
                 // TODO: remove from Document::id_map
-                Ok(old_attribute)
             } else {
                 warn!("{}", MSG_INVALID_EXTENSION);
-                Err(Error::Syntax)
+                return Err(Error::Syntax);
             }
+            drop(mut_self);
+            remove_namespace_mapping(self, &old_attribute)?;
+            Ok(old_attribute)
         } else {
             warn!("{}", MSG_INVALID_NODE_TYPE);
             Err(Error::InvalidState)
@@ -1224,6 +1219,39 @@ fn new_attribute_with(owner_document: WeakRefNode, name: Name, value: &str) -> R
     attribute
 }
 
+//
+// If this is an `xmlns` attribute with a value, add it to the element's namespace mapping hash.
+//
+fn add_namespace_mapping(element: &mut RefNode, attribute: &RefNode) -> Result<()> {
+    let name = attribute.node_name();
+    if name.is_namespace_attribute() {
+        if let Some(namespace_uri) = as_attribute(attribute)?.value() {
+            let as_namespaced = as_element_namespaced_mut(element)?;
+            let _ignore = as_namespaced.insert_mapping(declared_prefix(&name), &namespace_uri)?;
+        }
+    }
+    Ok(())
+}
+
+fn remove_namespace_mapping(element: &mut RefNode, attribute: &RefNode) -> Result<()> {
+    let name = attribute.node_name();
+    if name.is_namespace_attribute() {
+        let as_namespaced = as_element_namespaced_mut(element)?;
+        let _ignore = as_namespaced.remove_mapping(declared_prefix(&name))?;
+    }
+    Ok(())
+}
+
+//
+// The prefix declared by an `xmlns` attribute: `xmlns:prefix="…"`, or none for `xmlns="…"`.
+//
+fn declared_prefix(name: &Name) -> Option<&str> {
+    match name.prefix() {
+        None => None,
+        Some(_) => Some(name.local_name()),
+    }
+}
+
 //
 // An element has at most one attribute for a qualified name, and at most one for a local name and
 // namespace URI.
-- 
2.43.0


From b4f8967802422bfe2c0497232f83edffb1348fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:08 +0000
Subject: [PATCH 12/39] fix: the document's ID map follows its elements' ID
 attributes

A duplicate ID was reported only after the attribute had been set; removing,
replacing or changing an ID attribute left the old ID in place; an element's ID
could not be set again to the same value; the ID of a dropped element was never
free again; and an ID attribute without a value panicked.
---
 src/level2/trait_impls.rs | 118 ++++++++++++++++++++++++++------------
 1 file changed, 82 insertions(+), 36 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 61931e6..927fc12 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -102,18 +102,25 @@ impl Attribute for RefNode {
         }
     }
     fn set_value(&mut self, value: &str) -> Result<()> {
-        self.unset_value()?;
         let document_node = self.owner_document().unwrap();
         let document = as_document(&document_node).unwrap();
+        if let Some(owner_element) = Attribute::owner_element(self) {
+            let new_value =
+                new_attribute_with(document_node.clone().downgrade(), self.node_name(), value);
+            check_unique_id(&owner_element, &new_value)?;
+        }
+        self.unset_value()?;
         let _safe_to_ignore = self.append_child(document.create_text_node(value))?;
         if let Some(mut owner_element) = Attribute::owner_element(self) {
             add_namespace_mapping(&mut owner_element, self)?;
+            add_id_mapping(&owner_element, self)?;
         }
         Ok(())
     }
     fn unset_value(&mut self) -> Result<()> {
         if let Some(mut owner_element) = Attribute::owner_element(self) {
             remove_namespace_mapping(&mut owner_element, self)?;
+            remove_id_mapping(&owner_element, self)?;
         }
         let mut mut_self = self.borrow_mut();
         for child_node in mut_self.i_child_nodes.drain(..) {
@@ -505,6 +512,8 @@ impl Element for RefNode {
                 }
             }
 
+            check_unique_id(self, &new_attribute)?;
+
             //
             // An existing attribute with the same name is replaced.
             //
@@ -536,43 +545,13 @@ impl Element for RefNode {
             if let Extension::Element { i_attributes, .. } = &mut mut_self.i_extension {
                 let _safe_to_ignore =
                     i_attributes.insert(new_attribute.node_name(), new_attribute.clone());
-                {
-                    //
-                    // Add to the owning document's id_map hash
-                    //
-                    let attribute = as_attribute(&new_attribute).unwrap();
-                    let document = attribute.owner_document().unwrap();
-                    let mut mut_document = document.borrow_mut();
-                    let lax =
-                        if let Extension::Document { i_options, .. } = &mut_document.i_extension {
-                            i_options.has_assume_ids()
-                        } else {
-                            warn!("{}", MSG_INVALID_EXTENSION);
-                            false
-                        };
-                    if name.is_id_attribute(lax) {
-                        //
-                        // Update the document ID mapping
-                        //
-                        if let Extension::Document { i_id_map, .. } = &mut mut_document.i_extension
-                        {
-                            let id_value = attribute.value().unwrap();
-                            if i_id_map.contains_key(&id_value) {
-                                warn!("{}", MSG_DUPLICATE_ID);
-                                return Err(Error::Syntax);
-                            }
-                            let _safe_to_ignore =
-                                i_id_map.insert(id_value, self.clone().downgrade());
-                        } else {
-                            warn!("{}", MSG_INVALID_EXTENSION);
-                        }
-                    }
-                }
-                Ok(new_attribute)
             } else {
                 warn!("{}", MSG_INVALID_EXTENSION);
-                Err(Error::Syntax)
+                return Err(Error::Syntax);
             }
+            drop(mut_self);
+            add_id_mapping(self, &new_attribute)?;
+            Ok(new_attribute)
         } else {
             warn!("{}", MSG_INVALID_NODE_TYPE);
             Err(Error::InvalidState)
@@ -602,13 +581,13 @@ impl Element for RefNode {
                 {
                     *i_owner_element = None;
                 }
-                // TODO: remove from Document::id_map
             } else {
                 warn!("{}", MSG_INVALID_EXTENSION);
                 return Err(Error::Syntax);
             }
             drop(mut_self);
             remove_namespace_mapping(self, &old_attribute)?;
+            remove_id_mapping(self, &old_attribute)?;
             Ok(old_attribute)
         } else {
             warn!("{}", MSG_INVALID_NODE_TYPE);
@@ -1252,6 +1231,73 @@ fn declared_prefix(name: &Name) -> Option<&str> {
     }
 }
 
+//
+// CHECK: Raise `Error::Syntax` if `attribute` is an ID with the value of another element's ID.
+//
+fn check_unique_id(element: &RefNode, attribute: &RefNode) -> Result<()> {
+    if let (Some(document), Some(id_value)) = (element.owner_document(), id_value(attribute)) {
+        if let Some(other) = as_document(&document)?.get_element_by_id(&id_value) {
+            if &other != element {
+                warn!("{}", MSG_DUPLICATE_ID);
+                return Err(Error::Syntax);
+            }
+        }
+    }
+    Ok(())
+}
+
+//
+// If this is an ID attribute with a value, add it to the owning document's id_map hash.
+//
+fn add_id_mapping(element: &RefNode, attribute: &RefNode) -> Result<()> {
+    if let (Some(document), Some(id_value)) = (element.owner_document(), id_value(attribute)) {
+        let mut mut_document = document.borrow_mut();
+        if let Extension::Document { i_id_map, .. } = &mut mut_document.i_extension {
+            let _safe_to_ignore = i_id_map.insert(id_value, element.clone().downgrade());
+        } else {
+            warn!("{}", MSG_INVALID_EXTENSION);
+        }
+    }
+    Ok(())
+}
+
+fn remove_id_mapping(element: &RefNode, attribute: &RefNode) -> Result<()> {
+    if let (Some(document), Some(value)) = (element.owner_document(), id_value(attribute)) {
+        let still_used = element
+            .attributes()
+            .into_values()
+            .any(|other| &other != attribute && id_value(&other).as_ref() == Some(&value));
+        let mapped = as_document(&document)?.get_element_by_id(&value);
+        if !still_used && mapped.as_ref() == Some(element) {
+            let mut mut_document = document.borrow_mut();
+            if let Extension::Document { i_id_map, .. } = &mut mut_document.i_extension {
+                let _safe_to_ignore = i_id_map.remove(&value);
+            } else {
+                warn!("{}", MSG_INVALID_EXTENSION);
+            }
+        }
+    }
+    Ok(())
+}
+
+//
+// The value of an attribute which its document takes to be an ID.
+//
+fn id_value(attribute: &RefNode) -> Option<String> {
+    let document = attribute.owner_document()?;
+    let lax = if let Extension::Document { i_options, .. } = &document.borrow().i_extension {
+        i_options.has_assume_ids()
+    } else {
+        warn!("{}", MSG_INVALID_EXTENSION);
+        false
+    };
+    if attribute.node_name().is_id_attribute(lax) {
+        as_attribute(attribute).ok()?.value()
+    } else {
+        None
+    }
+}
+
 //
 // An element has at most one attribute for a qualified name, and at most one for a local name and
 // namespace URI.
-- 
2.43.0


From cbee1781b25857491824ae37e86c994f4910d936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:09 +0000
Subject: [PATCH 13/39] fix: normalize the full depth of the sub-tree

As documented, the text nodes of all descendants and of attributes are put into
normal form, not only the node's own children.
---
 src/level2/trait_impls.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 927fc12..3eb4e43 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1099,6 +1099,13 @@ impl Node for RefNode {
                         }
                     }
                 }
+            } else {
+                child_node.clone().normalize();
+            }
+        }
+        if is_element(self) {
+            for mut attribute_node in self.attributes().into_values() {
+                attribute_node.normalize();
             }
         }
     }
-- 
2.43.0


From 0d405b7f50e6abef38000b087714f02faeb4b10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:32 +0000
Subject: [PATCH 14/39] fix: clone_node copies the attributes and links the
 cloned sub-tree

The clone of an element shared its attribute nodes with the original, the nodes
below a deep clone had no parent, the clone of an attribute was still owned by
the original's element, and a shallow clone of an attribute lost its value.
---
 src/level2/node_impl.rs   | 12 ++++++++----
 src/level2/trait_impls.rs | 16 +++++++++++++---
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/level2/node_impl.rs b/src/level2/node_impl.rs
index 1346e7a..6f10928 100644
--- a/src/level2/node_impl.rs
+++ b/src/level2/node_impl.rs
@@ -308,8 +308,8 @@ impl NodeImpl {
     pub(crate) fn clone_node(&self, deep: bool) -> Self {
         let extension = match &self.i_extension {
             Extension::None => Extension::None,
-            Extension::Attribute { i_owner_element } => Extension::Attribute {
-                i_owner_element: i_owner_element.clone(),
+            Extension::Attribute { .. } => Extension::Attribute {
+                i_owner_element: None,
             },
             Extension::Document {
                 i_implementation,
@@ -341,7 +341,10 @@ impl NodeImpl {
                 i_attributes,
                 i_namespaces,
             } => Extension::Element {
-                i_attributes: i_attributes.clone(),
+                i_attributes: i_attributes
+                    .iter()
+                    .map(|(name, node)| (name.clone(), node.clone_node(true).unwrap()))
+                    .collect(),
                 i_namespaces: i_namespaces.clone(),
             },
             entity @ Extension::Entity { .. } => entity.clone(),
@@ -353,7 +356,8 @@ impl NodeImpl {
             i_value: self.i_value.clone(),
             i_parent_node: None,
             i_owner_document: self.i_owner_document.clone(),
-            i_child_nodes: if deep {
+            // the children of an attribute are its value
+            i_child_nodes: if deep || self.i_node_type == NodeType::Attribute {
                 self.i_child_nodes
                     .iter()
                     .map(|node| node.clone_node(deep).unwrap())
diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 3eb4e43..43351b2 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1073,9 +1073,19 @@ impl Node for RefNode {
     }
 
     fn clone_node(&self, deep: bool) -> Option<RefNode> {
-        let ref_self = self.borrow();
-        let new_node = ref_self.clone_node(deep);
-        Some(RefNode::new(new_node))
+        let new_node = RefNode::new(self.borrow().clone_node(deep));
+        for child_node in new_node.child_nodes() {
+            child_node.borrow_mut().i_parent_node = Some(new_node.clone().downgrade());
+        }
+        if is_element(&new_node) {
+            for attribute_node in new_node.attributes().into_values() {
+                let mut mut_attribute = attribute_node.borrow_mut();
+                if let Extension::Attribute { i_owner_element } = &mut mut_attribute.i_extension {
+                    *i_owner_element = Some(new_node.clone().downgrade());
+                }
+            }
+        }
+        Some(new_node)
     }
 
     fn normalize(&mut self) {
-- 
2.43.0


From ab13b4ae2997699f1c124a00612981fa15becf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:08 +0000
Subject: [PATCH 15/39] fix: length of character data with escaped characters

length counted the characters of the escaped data() rather than those that
offsets refer to, so that split failed on, for example, "a&b".
---
 src/level2/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/level2/traits.rs b/src/level2/traits.rs
index f493a49..1cfa40e 100644
--- a/src/level2/traits.rs
+++ b/src/level2/traits.rs
@@ -130,7 +130,7 @@ pub trait CharacterData: Node {
     /// **Note:** This implementation drops the `_data` suffix from the methods for clarity.
     ///
     fn length(&self) -> usize {
-        match self.data() {
+        match Node::node_value(self) {
             None => 0,
             Some(s) => s.len(),
         }
-- 
2.43.0


From 55622c28b6cb98624095aadbacce1904a9424565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:10 +0000
Subject: [PATCH 16/39] fix: offsets and counts of character data

An offset equal to the length is allowed, one beyond it is INDEX_SIZE_ERR even
if there is nothing to do, offset + count may exceed the length by any amount
(it overflowed), and a range which would divide a character is INDEX_SIZE_ERR
(it panicked).
---
 src/level2/trait_impls.rs | 73 ++++++++++++---------------------------
 1 file changed, 23 insertions(+), 50 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 43351b2..f7f199e 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -11,6 +11,7 @@ use crate::shared::{display, text};
 use std::collections::hash_map::RandomState;
 use std::collections::HashMap;
 use std::fmt::{Display, Formatter, Result as FmtResult};
+use std::ops::Range;
 use std::str::FromStr;
 
 // ------------------------------------------------------------------------------------------------
@@ -157,26 +158,10 @@ impl CDataSection for RefNode {}
 
 impl CharacterData for RefNode {
     fn substring_data(&self, offset: usize, count: usize) -> Result<String> {
-        if offset + count == offset {
-            return Ok(String::new());
-        }
         let ref_self = self.borrow();
-        match &ref_self.i_value {
-            None => {
-                warn!("{}", MSG_INDEX_ERROR);
-                Err(Error::IndexSize)
-            }
-            Some(data) => {
-                if offset >= data.len() {
-                    warn!("{}", MSG_INDEX_ERROR);
-                    Err(Error::IndexSize)
-                } else if offset + count >= data.len() {
-                    Ok(data[offset..].to_string())
-                } else {
-                    Ok(data[offset..offset + count].to_string())
-                }
-            }
-        }
+        let data = ref_self.i_value.as_deref().unwrap_or_default();
+        let range = checked_range(data, offset, count)?;
+        Ok(data[range].to_string())
     }
 
     fn append_data(&mut self, new_data: &str) -> Result<()> {
@@ -192,48 +177,23 @@ impl CharacterData for RefNode {
     }
 
     fn insert_data(&mut self, offset: usize, new_data: &str) -> Result<()> {
-        if new_data.is_empty() {
-            return Ok(());
-        }
         self.replace_data(offset, 0, new_data)
     }
 
     fn delete_data(&mut self, offset: usize, count: usize) -> Result<()> {
-        if offset + count == offset {
-            return Ok(());
-        }
         const NOTHING: &str = "";
         self.replace_data(offset, count, NOTHING)
     }
 
     fn replace_data(&mut self, offset: usize, count: usize, replace_data: &str) -> Result<()> {
         let mut mut_self = self.borrow_mut();
-        match &mut_self.i_value {
-            None => {
-                if offset + count != 0 {
-                    warn!("{}", MSG_INDEX_ERROR);
-                    Err(Error::IndexSize)
-                } else {
-                    mut_self.i_value = Some(replace_data.to_string());
-                    Ok(())
-                }
-            }
-            Some(old_data) => {
-                if offset >= old_data.len() {
-                    warn!("{}", MSG_INDEX_ERROR);
-                    Err(Error::IndexSize)
-                } else {
-                    let mut new_data = old_data.clone();
-                    if offset + count >= old_data.len() {
-                        new_data.replace_range(offset.., replace_data);
-                    } else {
-                        new_data.replace_range(offset..offset + count, replace_data);
-                    }
-                    mut_self.i_value = Some(new_data);
-                    Ok(())
-                }
-            }
+        let mut new_data = mut_self.i_value.clone().unwrap_or_default();
+        let range = checked_range(&new_data, offset, count)?;
+        new_data.replace_range(range, replace_data);
+        if mut_self.i_value.is_some() || !new_data.is_empty() {
+            mut_self.i_value = Some(new_data);
         }
+        Ok(())
     }
 }
 
@@ -1328,6 +1288,19 @@ fn is_same_attribute(name: &Name, other: &Name) -> bool {
 
 const WILD_CARD: &str = "*";
 
+//
+// CHECK: Raise `Error::IndexSize` if `offset` is greater than the length of `data`, or if the range
+// would divide a character. The range ends at the end of `data` if `offset` + `count` is beyond it.
+//
+fn checked_range(data: &str, offset: usize, count: usize) -> Result<Range<usize>> {
+    let end = offset.saturating_add(count).min(data.len());
+    if offset > data.len() || !data.is_char_boundary(offset) || !data.is_char_boundary(end) {
+        warn!("{}", MSG_INDEX_ERROR);
+        return Err(Error::IndexSize);
+    }
+    Ok(offset..end)
+}
+
 fn tag_name_match(test: &str, against: &str) -> bool {
     (test == against) || test == WILD_CARD || against == WILD_CARD
 }
-- 
2.43.0


From d46bf4015d581f5586aaf9ae7277019a2cb42df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:21 +0000
Subject: [PATCH 17/39] fix: node values as documented for attributes and nodes
 without one

The value of an Attr node is the value of the attribute, setting it sets the
attribute; setting the value has no effect where it is defined to be None.
---
 src/level2/trait_impls.rs | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index f7f199e..f3b498d 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -758,17 +758,28 @@ impl Node for RefNode {
     }
 
     fn node_value(&self) -> Option<String> {
+        if is_attribute(self) {
+            return Attribute::value(self);
+        }
         let ref_self = self.borrow();
         ref_self.i_value.clone()
     }
 
     fn set_node_value(&mut self, value: &str) -> Result<()> {
-        let mut mut_self = self.borrow_mut();
-        mut_self.i_value = Some(value.to_string());
+        if is_attribute(self) {
+            return Attribute::set_value(self, value);
+        }
+        if has_node_value(self) {
+            let mut mut_self = self.borrow_mut();
+            mut_self.i_value = Some(value.to_string());
+        }
         Ok(())
     }
 
     fn unset_node_value(&mut self) -> Result<()> {
+        if is_attribute(self) {
+            return Attribute::unset_value(self);
+        }
         let mut mut_self = self.borrow_mut();
         mut_self.i_value = None;
         Ok(())
@@ -1163,6 +1174,21 @@ impl Display for RefNode {
 // Private Functions
 // ------------------------------------------------------------------------------------------------
 
+//
+// The value of some types of node is defined to be `None`, setting it has no effect. Note that the
+// value of an entity holds its replacement text.
+//
+fn has_node_value(node: &RefNode) -> bool {
+    !matches!(
+        node.node_type(),
+        NodeType::Document
+            | NodeType::DocumentFragment
+            | NodeType::DocumentType
+            | NodeType::Element
+            | NodeType::Notation
+    )
+}
+
 //
 // Create an attribute whose value is held by a child text node; an attribute is the parent of its
 // value's nodes.
-- 
2.43.0


From 68cf42dabd4791217397851a0dace3bbc9617015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:22 +0000
Subject: [PATCH 18/39] fix: names which start with a character outside ASCII

is_xml_name sliced the name after its first byte and panicked.
---
 src/shared/text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/text.rs b/src/shared/text.rs
index 4eddaed..f274a36 100644
--- a/src/shared/text.rs
+++ b/src/shared/text.rs
@@ -389,7 +389,7 @@ pub(crate) fn is_xml_name_char(c: char) -> bool {
 ///
 pub(crate) fn is_xml_name(s: impl AsRef<str>) -> bool {
     let s = s.as_ref();
-    !s.is_empty() && s.starts_with(is_xml_name_start_char) && s[1..].chars().all(is_xml_name_char)
+    s.starts_with(is_xml_name_start_char) && s.chars().all(is_xml_name_char)
 }
 
 ///
-- 
2.43.0


From db8b12115453e5f82c840689367fe2a34b5e2b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:24 +0000
Subject: [PATCH 19/39] fix: references to what is not a character in an
 attribute value

A value with, for example, &#xD800; or &#99999999999; panicked when it was read.
---
 src/shared/text.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/shared/text.rs b/src/shared/text.rs
index f274a36..e49a035 100644
--- a/src/shared/text.rs
+++ b/src/shared/text.rs
@@ -73,7 +73,7 @@ pub(crate) fn normalize_attribute_value(
     } else {
         static FIND: OnceLock<regex::Regex> = OnceLock::new();
         let find = FIND.get_or_init(|| {regex::Regex::new(
-            r"(?P<entity_ref>[&%][\pL_][\pL\.\d_\-]*;)|(?P<char>&#\d+;)|(?P<char_hex>&#x[0-9a-fA-F]+;)|(?P<ws>[\u{09}\u{0A}\u{0D}])",
+            r"(?P<entity_ref>[&%][\pL_][\pL\.\d_\-]*;)|(?P<char>&#[0-9]+;)|(?P<char_hex>&#x[0-9a-fA-F]+;)|(?P<ws>[\u{09}\u{0A}\u{0D}])",
         )
         .unwrap()});
         let mut step_2 = String::new();
@@ -91,10 +91,12 @@ pub(crate) fn normalize_attribute_value(
                 };
                 (a_match.start(), a_match.end(), replacement)
             } else if let Some(a_match) = capture.name("char") {
-                let replacement = char_from_entity(a_match.as_str());
+                let replacement = char_from_entity(a_match.as_str())
+                    .unwrap_or_else(|| a_match.as_str().to_string());
                 (a_match.start(), a_match.end(), replacement)
             } else if let Some(a_match) = capture.name("char_hex") {
-                let replacement = char_from_entity(a_match.as_str());
+                let replacement = char_from_entity(a_match.as_str())
+                    .unwrap_or_else(|| a_match.as_str().to_string());
                 (a_match.start(), a_match.end(), replacement)
             } else if let Some(a_match) = capture.name("ws") {
                 (a_match.start(), a_match.end(), "\u{20}".to_string())
@@ -216,19 +218,22 @@ pub(crate) fn to_entity_hex(c: char) -> String {
     )
 }
 
-fn char_from_entity(entity: impl AsRef<str>) -> String {
+//
+// Returns `None` if the reference is not to a character, for example `&#xD800;`.
+//
+fn char_from_entity(entity: impl AsRef<str>) -> Option<String> {
     let entity = entity.as_ref();
     assert!(entity.starts_with("&#"));
     assert!(entity.ends_with(';'));
     let code_point = if &entity[2..3] == "x" {
         let code_point = &entity[3..entity.len() - 1];
-        u32::from_str_radix(code_point, 16).unwrap()
+        u32::from_str_radix(code_point, 16).ok()?
     } else {
         let code_point = &entity[2..entity.len() - 1];
-        code_point.parse::<u32>().unwrap()
+        code_point.parse::<u32>().ok()?
     };
-    let character = char::try_from(code_point).unwrap();
-    character.to_string()
+    let character = char::try_from(code_point).ok()?;
+    Some(character.to_string())
 }
 
 ///
-- 
2.43.0


From 004f86a58993d1f1f1eb871c32482044598ccf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:25 +0000
Subject: [PATCH 20/39] fix: has_feature ignores case and accepts an
 unspecified version

As documented: feature names are case-insensitive, and if the version is not
specified any supported version will do.
---
 src/level2/trait_impls.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index f3b498d..c1d6efc 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -392,8 +392,9 @@ impl DOMImplementation for Implementation {
     }
 
     fn has_feature(&self, feature: &str, version: &str) -> bool {
-        (feature == XML_FEATURE_CORE || feature == XML_FEATURE_XML)
-            && (version == XML_FEATURE_V1 || version == XML_FEATURE_V2)
+        (feature.eq_ignore_ascii_case(XML_FEATURE_CORE)
+            || feature.eq_ignore_ascii_case(XML_FEATURE_XML))
+            && (version.is_empty() || version == XML_FEATURE_V1 || version == XML_FEATURE_V2)
     }
 }
 
-- 
2.43.0


From 6cc3cedd4b14e7672c6d279f482a7a8d1815de59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:06 +0000
Subject: [PATCH 21/39] fix: an element may not be inserted below its own
 attribute

---
 src/level2/trait_impls.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index c1d6efc..507b0ef 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -473,6 +473,14 @@ impl Element for RefNode {
                 }
             }
 
+            //
+            // CHECK: an element may not be below its own attribute.
+            //
+            if is_inclusive_ancestor(&new_attribute, self) {
+                warn!("The attribute you tried to set contains this element.");
+                return Err(Error::HierarchyRequest);
+            }
+
             check_unique_id(self, &new_attribute)?;
 
             //
@@ -1432,7 +1440,8 @@ fn check_insertion(
 }
 
 //
-// Is `ancestor` either the same node as `node`, or found by following the parents of `node`?
+// Is `ancestor` either the same node as `node`, or found by following the parents of `node`? An
+// attribute has no parent, it is its owner element that it is below.
 //
 fn is_inclusive_ancestor(ancestor: &RefNode, node: &RefNode) -> bool {
     let mut current = Some(node.clone());
@@ -1440,7 +1449,11 @@ fn is_inclusive_ancestor(ancestor: &RefNode, node: &RefNode) -> bool {
         if &current_node == ancestor {
             return true;
         }
-        current = current_node.parent_node();
+        current = if is_attribute(&current_node) {
+            Attribute::owner_element(&current_node)
+        } else {
+            current_node.parent_node()
+        };
     }
     false
 }
-- 
2.43.0


From 9967650713fab1386b34485c2776e6c6de575abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:00 +0000
Subject: [PATCH 22/39] fix: removing an element as its own attribute reports
 NotFound

---
 src/level2/trait_impls.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 507b0ef..9482cd3 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -529,13 +529,13 @@ impl Element for RefNode {
 
     fn remove_attribute_node(&mut self, old_attribute: RefNode) -> Result<RefNode> {
         if is_element(self) {
+            let old_name = old_attribute.node_name();
             let mut mut_self = self.borrow_mut();
             if let Extension::Element { i_attributes, .. } = &mut mut_self.i_extension {
                 //
                 // CHECK: Raise `Error::NotFound` if `old_attribute` is not an attribute of this
                 // element.
                 //
-                let old_name = old_attribute.node_name();
                 if i_attributes.get(&old_name) != Some(&old_attribute) {
                     warn!("remove_attribute_node: old_attribute not found in `attributes`");
                     return Err(Error::NotFound);
-- 
2.43.0


From b28a4a20a94da746a64eb83de44f4749a677934a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:39 +0000
Subject: [PATCH 23/39] fix: the parser builds with the quick-xml 0.34 that
 Cargo.toml asks for

---
 src/parser/mod.rs | 39 +++++++++++++--------------------------
 1 file changed, 13 insertions(+), 26 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index d4e04be..b782296 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -23,7 +23,7 @@ use crate::level2::ext::{XmlDecl, XmlVersion};
 use crate::level2::node_impl::Extension;
 use crate::level2::*;
 use crate::shared::error::Error as DOMError;
-use quick_xml::events::{BytesCData, BytesDecl, BytesEnd, BytesStart, BytesText, Event};
+use quick_xml::events::{BytesCData, BytesDecl, BytesEnd, BytesPI, BytesStart, BytesText, Event};
 use quick_xml::reader::Reader;
 use std::borrow::Borrow;
 use std::io::BufRead;
@@ -90,7 +90,7 @@ impl<T> From<Error> for Result<T> {
 // ------------------------------------------------------------------------------------------------
 
 fn inner_read<T: BufRead>(reader: &mut Reader<T>) -> Result<RefNode> {
-    let _safe_to_ignore = reader.trim_text(true);
+    reader.config_mut().trim_text(true);
 
     let mut event_buffer: Vec<u8> = Vec::new();
 
@@ -259,7 +259,7 @@ fn handle_start<T: BufRead>(
 
     for attribute in ev.attributes() {
         let attribute = attribute.unwrap();
-        let value = attribute.decode_and_unescape_value(reader)?;
+        let value = attribute.decode_and_unescape_value(reader.decoder())?;
         let name = reader.decoder().decode(attribute.key.into_inner())?;
         let attribute_node = document.create_attribute_with(&name, &value)?;
         let _safe_to_ignore = element.set_attribute_node(attribute_node)?;
@@ -328,34 +328,21 @@ fn handle_cdata<T: BufRead>(
 }
 
 fn handle_pi<T: BufRead>(
-    _reader: &mut Reader<T>,
+    reader: &mut Reader<T>,
     document: &mut RefNode,
     parent_node: Option<&mut RefNode>,
-    ev: BytesText<'_>,
+    ev: BytesPI<'_>,
 ) -> Result<RefNode> {
     let mut_document = as_document_mut(document).unwrap();
-    let text = ev.unescape()?;
-    let parts = text.splitn(2, ' ').collect::<Vec<&str>>();
-    let (target, data) = match parts.len() {
-        1 => (parts[0].to_string(), None),
-        2 => {
-            let data = parts[1].trim();
-            if data.is_empty() {
-                (parts[0].to_string(), None)
-            } else {
-                (parts[0].to_string(), Some(data.to_string()))
-            }
-        }
-        _ => return Error::Malformed.into(),
-    };
-    let new_node = match data {
-        None => mut_document
-            .create_processing_instruction(&target, None)
-            .unwrap(),
-        Some(s) => mut_document
-            .create_processing_instruction(&target, Some(s.as_str()))
-            .unwrap(),
+    let target = reader.decoder().decode(ev.target())?;
+    let content = reader.decoder().decode(ev.content())?;
+    let data = match content.trim() {
+        "" => None,
+        data => Some(data),
     };
+    let new_node = mut_document
+        .create_processing_instruction(&target, data)
+        .unwrap();
     let actual_parent = match parent_node {
         None => document,
         Some(actual) => actual,
-- 
2.43.0


From b6e89d51fa13f219cb84fe9080c028112a5414d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:21 +0000
Subject: [PATCH 24/39] fix: text that is not well formed is a parser error,
 not a panic

---
 src/level2/ext/decl.rs |  2 +-
 src/parser/mod.rs      | 36 ++++++++++++++++++++++--------------
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/level2/ext/decl.rs b/src/level2/ext/decl.rs
index b64e5d3..26094ba 100644
--- a/src/level2/ext/decl.rs
+++ b/src/level2/ext/decl.rs
@@ -68,7 +68,7 @@ fn is_encoding_sub_string(s: &str) -> bool {
     s.chars().all(is_encoding_rest_char)
 }
 
-fn is_encoding(s: &str) -> bool {
+pub(crate) fn is_encoding(s: &str) -> bool {
     !s.is_empty()
         && s.starts_with(is_encoding_start_char)
         && s[1..].split(ENCODING_SEP_CHAR).all(is_encoding_sub_string)
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index b782296..2b63fe9 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -19,10 +19,12 @@ assert!(dom.is_ok());
 */
 
 use crate::level2::convert::as_document_mut;
+use crate::level2::ext::decl::is_encoding;
 use crate::level2::ext::{XmlDecl, XmlVersion};
 use crate::level2::node_impl::Extension;
 use crate::level2::*;
 use crate::shared::error::Error as DOMError;
+use crate::shared::syntax::{XML_DECL_STANDALONE_NO, XML_DECL_STANDALONE_YES};
 use quick_xml::events::{BytesCData, BytesDecl, BytesEnd, BytesPI, BytesStart, BytesText, Event};
 use quick_xml::reader::Reader;
 use std::borrow::Borrow;
@@ -136,7 +138,7 @@ fn document<T: BufRead>(reader: &mut Reader<T>, event_buffer: &mut Vec<u8>) -> R
                     } else {
                         let (version, encoding, standalone) = make_decl(reader, ev)?;
                         *i_xml_declaration = Some(XmlDecl::new(
-                            XmlVersion::from_str(&version).unwrap(),
+                            XmlVersion::from_str(&version).map_err(|_| Error::Malformed)?,
                             encoding,
                             standalone,
                         ));
@@ -249,7 +251,7 @@ fn handle_start<T: BufRead>(
     let mut element = {
         let mut_document = as_document_mut(document).unwrap();
         let name = reader.decoder().decode(ev.name().into_inner())?;
-        let new_node = mut_document.create_element(&name).unwrap();
+        let new_node = mut_document.create_element(&name)?;
         let mut actual_parent = match parent_node {
             None => document.clone(),
             Some(actual) => actual.clone(),
@@ -258,7 +260,7 @@ fn handle_start<T: BufRead>(
     };
 
     for attribute in ev.attributes() {
-        let attribute = attribute.unwrap();
+        let attribute = attribute.map_err(quick_xml::Error::from)?;
         let value = attribute.decode_and_unescape_value(reader.decoder())?;
         let name = reader.decoder().decode(attribute.key.into_inner())?;
         let attribute_node = document.create_attribute_with(&name, &value)?;
@@ -319,7 +321,7 @@ fn handle_cdata<T: BufRead>(
 ) -> Result<RefNode> {
     let mut_document = as_document_mut(document).unwrap();
     let text = make_cdata(reader, ev)?;
-    let new_node = mut_document.create_cdata_section(text.as_ref()).unwrap();
+    let new_node = mut_document.create_cdata_section(text.as_ref())?;
     let actual_parent = match parent_node {
         None => document,
         Some(actual) => actual,
@@ -340,9 +342,7 @@ fn handle_pi<T: BufRead>(
         "" => None,
         data => Some(data),
     };
-    let new_node = mut_document
-        .create_processing_instruction(&target, data)
-        .unwrap();
+    let new_node = mut_document.create_processing_instruction(&target, data)?;
     let actual_parent = match parent_node {
         None => document,
         Some(actual) => actual,
@@ -366,23 +366,31 @@ fn make_decl<T: BufRead>(
     reader: &mut Reader<T>,
     ev: BytesDecl<'_>,
 ) -> Result<(String, Option<String>, Option<bool>)> {
-    let version = ev.version().unwrap();
+    let version = ev.version()?;
     let version = version.borrow();
-    let version = reader.decoder().decode(version).unwrap();
+    let version = reader.decoder().decode(version)?;
     let version = unquote(version.to_string())?;
     let encoding = if let Some(ev_value) = ev.encoding() {
-        let encoding = ev_value.unwrap();
+        let encoding = ev_value?;
         let encoding = encoding.borrow();
-        let encoding = reader.decoder().decode(encoding).unwrap();
+        let encoding = reader.decoder().decode(encoding)?;
+        if !is_encoding(&encoding) {
+            error!("Invalid encoding name: {:?}", encoding);
+            return Error::Malformed.into();
+        }
         Some(encoding.to_string())
     } else {
         None
     };
     let standalone = if let Some(ev_value) = ev.standalone() {
-        let standalone = ev_value.unwrap();
+        let standalone = ev_value?;
         let standalone = standalone.borrow();
-        let standalone = reader.decoder().decode(standalone).unwrap();
-        Some(standalone == "yes")
+        let standalone = reader.decoder().decode(standalone)?;
+        match standalone.as_ref() {
+            XML_DECL_STANDALONE_YES => Some(true),
+            XML_DECL_STANDALONE_NO => Some(false),
+            _ => return Error::Malformed.into(),
+        }
     } else {
         None
     };
-- 
2.43.0


From 82726fd6a81c31398cc08ae2e75335bd4d7a96f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:21 +0000
Subject: [PATCH 25/39] fix: the parser reports errors within the root element

---
 src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 2b63fe9..aac70d9 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -148,7 +148,7 @@ fn document<T: BufRead>(reader: &mut Reader<T>, event_buffer: &mut Vec<u8>) -> R
             Ok(Event::Start(ev)) => {
                 let mut new_element = handle_start(reader, &mut document, None, ev)?;
                 let _safe_to_ignore =
-                    element(reader, event_buffer, &mut document, &mut new_element);
+                    element(reader, event_buffer, &mut document, &mut new_element)?;
             }
             Ok(Event::Empty(ev)) => {
                 let _safe_to_ignore = handle_start(reader, &mut document, None, ev)?;
-- 
2.43.0


From 113759248e7b863f54061eff90e1fc58bf12effb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:22 +0000
Subject: [PATCH 26/39] fix: there are no references in a comment

---
 src/parser/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index aac70d9..19b49f8 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -157,7 +157,7 @@ fn document<T: BufRead>(reader: &mut Reader<T>, event_buffer: &mut Vec<u8>) -> R
                 let _safe_to_ignore = handle_end(reader, &mut document, None, ev)?;
             }
             Ok(Event::Comment(ev)) => {
-                let _safe_to_ignore = handle_comment(&mut document, None, ev)?;
+                let _safe_to_ignore = handle_comment(reader, &mut document, None, ev)?;
             }
             Ok(Event::PI(ev)) => {
                 let _safe_to_ignore = handle_pi(reader, &mut document, None, ev)?;
@@ -217,7 +217,7 @@ fn element<T: BufRead>(
                 return Ok(parent_element.clone());
             }
             Ok(Event::Comment(ev)) => {
-                let _safe_to_ignore = handle_comment(document, Some(parent_element), ev)?;
+                let _safe_to_ignore = handle_comment(reader, document, Some(parent_element), ev)?;
             }
             Ok(Event::PI(ev)) => {
                 let _safe_to_ignore = handle_pi(reader, document, Some(parent_element), ev)?;
@@ -283,13 +283,14 @@ fn handle_end<T: BufRead>(
     .clone())
 }
 
-fn handle_comment(
+fn handle_comment<T: BufRead>(
+    reader: &mut Reader<T>,
     document: &mut RefNode,
     parent_node: Option<&mut RefNode>,
     ev: BytesText<'_>,
 ) -> Result<RefNode> {
     let mut_document = as_document_mut(document).unwrap();
-    let text = make_text(ev)?;
+    let text = reader.decoder().decode(&ev)?;
     let new_node = mut_document.create_comment(&text);
     let actual_parent = match parent_node {
         None => document,
-- 
2.43.0


From e2e6a6ddd54fe8152dcb83853fa9d6e4a1d24818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:48 +0000
Subject: [PATCH 27/39] fix: references in an attribute value are resolved once

---
 src/parser/mod.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 19b49f8..de37969 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -25,6 +25,8 @@ use crate::level2::node_impl::Extension;
 use crate::level2::*;
 use crate::shared::error::Error as DOMError;
 use crate::shared::syntax::{XML_DECL_STANDALONE_NO, XML_DECL_STANDALONE_YES};
+use quick_xml::escape::unescape;
+use quick_xml::events::attributes::Attribute;
 use quick_xml::events::{BytesCData, BytesDecl, BytesEnd, BytesPI, BytesStart, BytesText, Event};
 use quick_xml::reader::Reader;
 use std::borrow::Borrow;
@@ -261,7 +263,7 @@ fn handle_start<T: BufRead>(
 
     for attribute in ev.attributes() {
         let attribute = attribute.map_err(quick_xml::Error::from)?;
-        let value = attribute.decode_and_unescape_value(reader.decoder())?;
+        let value = make_attribute_value(reader, &attribute)?;
         let name = reader.decoder().decode(attribute.key.into_inner())?;
         let attribute_node = document.create_attribute_with(&name, &value)?;
         let _safe_to_ignore = element.set_attribute_node(attribute_node)?;
@@ -357,6 +359,26 @@ fn make_text(ev: BytesText<'_>) -> Result<String> {
     Ok(ev.unescape()?.to_string())
 }
 
+///
+/// The value of an attribute node is normalized, and its character references are resolved, when it
+/// is read; the references which XML itself defines have to become character references.
+///
+fn make_attribute_value<T: BufRead>(
+    reader: &mut Reader<T>,
+    attribute: &Attribute<'_>,
+) -> Result<String> {
+    let value = reader.decoder().decode(&attribute.value)?;
+    // reports any other reference
+    let _safe_to_ignore = unescape(&value).map_err(quick_xml::Error::from)?;
+    Ok(value
+        .replace("&lt;", "&#60;")
+        .replace("&gt;", "&#62;")
+        .replace("&amp;", "&#38;")
+        .replace("&apos;", "&#39;")
+        .replace("&quot;", "&#34;")
+        .replace('%', "&#37;"))
+}
+
 fn make_cdata<T: BufRead>(reader: &mut Reader<T>, ev: BytesCData<'_>) -> Result<String> {
     let cdata_bytes = ev.into_inner();
     let decoded_string = reader.decoder().decode(cdata_bytes.as_ref())?;
-- 
2.43.0


From 9a03baa5c9566e037d8780052ef9712afbc14007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:49 +0000
Subject: [PATCH 28/39] fix: an XML declaration is first

---
 src/parser/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index de37969..8b12bd5 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -130,11 +130,12 @@ fn document<T: BufRead>(reader: &mut Reader<T>, event_buffer: &mut Vec<u8>) -> R
         match reader.read_event_into(event_buffer) {
             Ok(Event::Decl(ev)) => {
                 let mut mut_document = document.borrow_mut();
+                let is_first = mut_document.i_child_nodes.is_empty();
                 if let Extension::Document {
                     i_xml_declaration, ..
                 } = &mut mut_document.i_extension
                 {
-                    if i_xml_declaration.is_some() {
+                    if i_xml_declaration.is_some() || !is_first {
                         error!("XML declaration must be first");
                         return Error::Malformed.into();
                     } else {
-- 
2.43.0


From 03574ffc513dd6e8582bf6f7c5e83685b475cd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:36 +0000
Subject: [PATCH 29/39] fix: text is not lost where a reader's buffer ends

---
 src/parser/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 8b12bd5..cc4b5bd 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -79,8 +79,13 @@ pub fn read_xml(xml: impl AsRef<str>) -> Result<RefNode> {
 /// Parse the provided string into a DOM structure; if the result is OK, the result returned
 /// can be safely assumed to be a `Document` node.
 ///
-pub fn read_reader<B: BufRead>(reader: B) -> Result<RefNode> {
-    inner_read(&mut Reader::from_reader(reader))
+pub fn read_reader<B: BufRead>(mut reader: B) -> Result<RefNode> {
+    // quick-xml loses text which ends where the content of the reader's buffer does
+    let mut xml: Vec<u8> = Vec::new();
+    let _safe_to_ignore = reader
+        .read_to_end(&mut xml)
+        .map_err(quick_xml::Error::from)?;
+    inner_read(&mut Reader::from_reader(xml.as_slice()))
 }
 
 impl<T> From<Error> for Result<T> {
-- 
2.43.0


From 45ff2a0f5dc7b3f24c5834a0edda0c451d063b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:31 +0000
Subject: [PATCH 30/39] fix: nodes outlive their parents and documents

---
 src/level2/ext/namespaced.rs | 16 ++++++----------
 src/level2/trait_impls.rs    | 20 ++++++--------------
 src/shared/rc_cell.rs        |  4 ++++
 3 files changed, 16 insertions(+), 24 deletions(-)

diff --git a/src/level2/ext/namespaced.rs b/src/level2/ext/namespaced.rs
index 48b1fef..2346a62 100644
--- a/src/level2/ext/namespaced.rs
+++ b/src/level2/ext/namespaced.rs
@@ -5,9 +5,7 @@ This module provides support types for the [`Namespaced`](trait.Namespaced.html)
 use crate::level2::ext::traits::Namespaced;
 use crate::level2::node_impl::{Extension, RefNode};
 use crate::level2::traits::{Node, NodeType};
-use crate::shared::error::{
-    Error, Result, MSG_INVALID_EXTENSION, MSG_INVALID_NODE_TYPE, MSG_WEAK_REF,
-};
+use crate::shared::error::{Error, Result, MSG_INVALID_EXTENSION, MSG_INVALID_NODE_TYPE};
 
 // ------------------------------------------------------------------------------------------------
 // Public Types
@@ -145,8 +143,7 @@ impl Namespaced for RefNode {
                 match &ref_self.i_parent_node {
                     None => None,
                     Some(parent) => {
-                        let parent = parent.clone();
-                        let parent_node = parent.upgrade().expect(MSG_WEAK_REF);
+                        let parent_node = parent.clone().upgrade()?;
                         parent_node.resolve_namespace(prefix)
                     }
                 }
@@ -192,11 +189,10 @@ impl Namespaced for RefNode {
                 let ref_self = self.borrow();
                 match &ref_self.i_parent_node {
                     None => NamespacePrefix::None,
-                    Some(parent) => {
-                        let parent = parent.clone();
-                        let parent_node = parent.upgrade().expect(MSG_WEAK_REF);
-                        parent_node.resolve_prefix(namespace_uri)
-                    }
+                    Some(parent) => match parent.clone().upgrade() {
+                        None => NamespacePrefix::None,
+                        Some(parent_node) => parent_node.resolve_prefix(namespace_uri),
+                    },
                 }
             }
             found => found,
diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 9482cd3..7fde317 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -103,15 +103,14 @@ impl Attribute for RefNode {
         }
     }
     fn set_value(&mut self, value: &str) -> Result<()> {
-        let document_node = self.owner_document().unwrap();
-        let document = as_document(&document_node).unwrap();
+        let owner_document = self.borrow().i_owner_document.as_ref().unwrap().clone();
         if let Some(owner_element) = Attribute::owner_element(self) {
-            let new_value =
-                new_attribute_with(document_node.clone().downgrade(), self.node_name(), value);
+            let new_value = new_attribute_with(owner_document.clone(), self.node_name(), value);
             check_unique_id(&owner_element, &new_value)?;
         }
         self.unset_value()?;
-        let _safe_to_ignore = self.append_child(document.create_text_node(value))?;
+        let text_node = RefNode::new(NodeImpl::new_text(owner_document, value));
+        let _safe_to_ignore = self.append_child(text_node)?;
         if let Some(mut owner_element) = Attribute::owner_element(self) {
             add_namespace_mapping(&mut owner_element, self)?;
             add_id_mapping(&owner_element, self)?;
@@ -1372,10 +1371,7 @@ fn check_same_document(self_node: &RefNode, new_child: &RefNode) -> Result<()> {
             let child_document = &new_child.borrow().i_owner_document;
             if !match child_document {
                 None => true,
-                Some(child_document) => {
-                    let child_document = child_document.clone().upgrade().unwrap();
-                    self_node == &child_document
-                }
+                Some(child_document) => self_node.clone().downgrade().ptr_eq(child_document),
             } {
                 warn!("Error::WrongDocument: child could not be added to the document node.");
                 return Err(Error::WrongDocument);
@@ -1387,11 +1383,7 @@ fn check_same_document(self_node: &RefNode, new_child: &RefNode) -> Result<()> {
                 (None, None) => true,
                 (Some(_), None) => true,
                 (None, Some(_)) => false,
-                (Some(self_document), Some(child_document)) => {
-                    let self_document = self_document.clone().upgrade().unwrap();
-                    let child_document = child_document.clone().upgrade().unwrap();
-                    self_document == child_document
-                }
+                (Some(self_document), Some(child_document)) => self_document.ptr_eq(child_document),
             } {
                 warn!("Error::WrongDocument: child could not be added to the current node.");
                 return Err(Error::WrongDocument);
diff --git a/src/shared/rc_cell.rs b/src/shared/rc_cell.rs
index f4097b8..dd8766e 100644
--- a/src/shared/rc_cell.rs
+++ b/src/shared/rc_cell.rs
@@ -88,6 +88,10 @@ impl<T> WeakRefCell<T> {
         &self.inner
     }
 
+    pub fn ptr_eq(&self, other: &Self) -> bool {
+        self.inner.ptr_eq(&other.inner)
+    }
+
     pub fn upgrade(self) -> Option<RcRefCell<T>> {
         self.inner.upgrade().map(|inner| RcRefCell { inner })
     }
-- 
2.43.0


From e88a2fe0c4770b640518cbaaedb3c9434089fece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:29 +0000
Subject: [PATCH 31/39] fix: the clone of a document owns its content, document
 type and IDs

---
 src/level2/trait_impls.rs | 58 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 58 insertions(+)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 7fde317..dc201bd 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1064,6 +1064,9 @@ impl Node for RefNode {
                 }
             }
         }
+        if is_document(&new_node) {
+            own_cloned_content(self, &new_node);
+        }
         Some(new_node)
     }
 
@@ -1291,6 +1294,61 @@ fn remove_id_mapping(element: &RefNode, attribute: &RefNode) -> Result<()> {
     Ok(())
 }
 
+//
+// The clone of a document owns what it contains: its nodes, its document type and its IDs.
+//
+fn own_cloned_content(document: &RefNode, clone: &RefNode) {
+    fn own(
+        original: &RefNode,
+        clone: &RefNode,
+        owner: &RefNode,
+        pairs: &mut Vec<(RefNode, RefNode)>,
+    ) {
+        clone.borrow_mut().i_owner_document = Some(owner.clone().downgrade());
+        let originals = original.attributes();
+        for (name, attribute) in clone.attributes() {
+            if let Some(original) = originals.get(&name) {
+                own(original, &attribute, owner, pairs);
+            }
+        }
+        let clones = clone.child_nodes();
+        for (original, clone) in original.child_nodes().iter().zip(clones.iter()) {
+            own(original, clone, owner, pairs);
+        }
+        pairs.push((original.clone(), clone.clone()));
+    }
+
+    let mut pairs = Vec::default();
+    let clones = clone.child_nodes();
+    for (child, cloned_child) in document.child_nodes().iter().zip(clones.iter()) {
+        own(child, cloned_child, clone, &mut pairs);
+    }
+    let mut mut_clone = clone.borrow_mut();
+    if let Extension::Document {
+        i_document_type,
+        i_id_map,
+        ..
+    } = &mut mut_clone.i_extension
+    {
+        *i_document_type = i_document_type
+            .as_ref()
+            .and_then(|document_type| document_type.clone_node(true));
+        if let Some(document_type) = i_document_type {
+            document_type.borrow_mut().i_owner_document = Some(clone.clone().downgrade());
+        }
+        *i_id_map = i_id_map
+            .iter()
+            .filter_map(|(id, element)| {
+                let element = element.clone().upgrade()?;
+                let (_, cloned) = pairs.iter().find(|(original, _)| original == &element)?;
+                Some((id.clone(), cloned.clone().downgrade()))
+            })
+            .collect();
+    } else {
+        warn!("{}", MSG_INVALID_EXTENSION);
+    }
+}
+
 //
 // The value of an attribute which its document takes to be an ID.
 //
-- 
2.43.0


From c03dbdb5e2fe1bb45b70bbd65a9efa2d6f5a9148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:10 +0000
Subject: [PATCH 32/39] fix: Name::set_prefix takes well-formed prefixes only

---
 src/shared/name.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/shared/name.rs b/src/shared/name.rs
index 3d69425..7ed1e5c 100644
--- a/src/shared/name.rs
+++ b/src/shared/name.rs
@@ -375,7 +375,18 @@ impl Name {
     /// Set this name's prefix.
     ///
     pub fn set_prefix(&mut self, new_prefix: Option<&str>) -> Result<()> {
-        self.prefix = new_prefix.map(String::from);
+        let prefix = match new_prefix {
+            None => None,
+            Some(prefix) if prefix.contains(XML_NS_SEPARATOR) => {
+                return Err(Error::InvalidCharacter)
+            }
+            Some(prefix) => Some(Self::check_part(prefix)?),
+        };
+        if let Some(namespace_uri) = &self.namespace_uri {
+            let _unchanged =
+                Self::check_namespace_uri(namespace_uri, &prefix, &self.local_name)?;
+        }
+        self.prefix = prefix;
         Ok(())
     }
 }
-- 
2.43.0


From cd56c1e8e1f0de2b001a9fbf23753b77976ca600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:53 +0000
Subject: [PATCH 33/39] fix: an XML declaration whose version is a quote is
 malformed, and is not a panic

---
 src/parser/mod.rs | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index cc4b5bd..bf089ff 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -397,8 +397,7 @@ fn make_decl<T: BufRead>(
 ) -> Result<(String, Option<String>, Option<bool>)> {
     let version = ev.version()?;
     let version = version.borrow();
-    let version = reader.decoder().decode(version)?;
-    let version = unquote(version.to_string())?;
+    let version = reader.decoder().decode(version)?.to_string();
     let encoding = if let Some(ev_value) = ev.encoding() {
         let encoding = ev_value?;
         let encoding = encoding.borrow();
@@ -426,19 +425,6 @@ fn make_decl<T: BufRead>(
     Ok((version, encoding, standalone))
 }
 
-#[allow(clippy::if_same_then_else)]
-fn unquote(s: String) -> Result<String> {
-    if s.starts_with('"') && s.ends_with('"') {
-        Ok(s[1..s.len() - 1].to_string())
-    } else if s.starts_with('\'') && s.ends_with('\'') {
-        Ok(s[1..s.len() - 1].to_string())
-    } else if s.starts_with('"') || s.starts_with('\'') {
-        Error::InvalidCharacter.into()
-    } else {
-        Ok(s)
-    }
-}
-
 // ------------------------------------------------------------------------------------------------
 // Unit Tests
 // ------------------------------------------------------------------------------------------------
-- 
2.43.0


From aeafd7e34d228d049ff732c08fddcee5b3d53451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:55 +0000
Subject: [PATCH 34/39] fix: setting an attribute of what is not an element is
 an error, and not a panic

---
 src/level2/trait_impls.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index dc201bd..f6640cd 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -414,6 +414,10 @@ impl Element for RefNode {
     }
 
     fn set_attribute(&mut self, name: &str, value: &str) -> Result<()> {
+        if !is_element(self) {
+            warn!("{}", MSG_INVALID_NODE_TYPE);
+            return Err(Error::InvalidState);
+        }
         let attr_name = Name::from_str(name)?;
         let attr_node = {
             let ref_self = &self.borrow_mut();
@@ -602,6 +606,10 @@ impl Element for RefNode {
         qualified_name: &str,
         value: &str,
     ) -> Result<()> {
+        if !is_element(self) {
+            warn!("{}", MSG_INVALID_NODE_TYPE);
+            return Err(Error::InvalidState);
+        }
         let attr_name = Name::new_ns(namespace_uri, qualified_name)?;
         let attr_node = {
             let ref_self = &self.borrow_mut();
-- 
2.43.0


From 1b5bb3eec8badd1bf55c2a013f338b0d84b8cf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:57 +0000
Subject: [PATCH 35/39] fix: setting the value of what is not an attribute is
 an error, and changes nothing

---
 src/level2/trait_impls.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index f6640cd..f6a48bd 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -79,7 +79,7 @@ impl Attribute for RefNode {
     // text. See also the method `setAttribute` on the `Element` interface.
     //
     fn value(&self) -> Option<String> {
-        if self.has_child_nodes() {
+        if is_attribute(self) && self.has_child_nodes() {
             let mut result = String::new();
             for child_node in self.child_nodes() {
                 if child_node.node_type() == NodeType::EntityReference {
@@ -103,6 +103,10 @@ impl Attribute for RefNode {
         }
     }
     fn set_value(&mut self, value: &str) -> Result<()> {
+        if !is_attribute(self) {
+            warn!("{}", MSG_INVALID_NODE_TYPE);
+            return Err(Error::InvalidState);
+        }
         let owner_document = self.borrow().i_owner_document.as_ref().unwrap().clone();
         if let Some(owner_element) = Attribute::owner_element(self) {
             let new_value = new_attribute_with(owner_document.clone(), self.node_name(), value);
@@ -118,6 +122,10 @@ impl Attribute for RefNode {
         Ok(())
     }
     fn unset_value(&mut self) -> Result<()> {
+        if !is_attribute(self) {
+            warn!("{}", MSG_INVALID_NODE_TYPE);
+            return Err(Error::InvalidState);
+        }
         if let Some(mut owner_element) = Attribute::owner_element(self) {
             remove_namespace_mapping(&mut owner_element, self)?;
             remove_id_mapping(&owner_element, self)?;
-- 
2.43.0


From c9ce151de4067247122a48c092b2ce56d115dbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:59 +0000
Subject: [PATCH 36/39] fix: editing the data of what is not character data is
 an error, and changes nothing

---
 src/level2/trait_impls.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index f6a48bd..d416547 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -165,6 +165,10 @@ impl CDataSection for RefNode {}
 
 impl CharacterData for RefNode {
     fn substring_data(&self, offset: usize, count: usize) -> Result<String> {
+        if !is_character_data(self) {
+            warn!("{}", MSG_INVALID_NODE_TYPE);
+            return Err(Error::InvalidState);
+        }
         let ref_self = self.borrow();
         let data = ref_self.i_value.as_deref().unwrap_or_default();
         let range = checked_range(data, offset, count)?;
@@ -172,6 +176,10 @@ impl CharacterData for RefNode {
     }
 
     fn append_data(&mut self, new_data: &str) -> Result<()> {
+        if !is_character_data(self) {
+            warn!("{}", MSG_INVALID_NODE_TYPE);
+            return Err(Error::InvalidState);
+        }
         if new_data.is_empty() {
             return Ok(());
         }
@@ -193,6 +201,10 @@ impl CharacterData for RefNode {
     }
 
     fn replace_data(&mut self, offset: usize, count: usize, replace_data: &str) -> Result<()> {
+        if !is_character_data(self) {
+            warn!("{}", MSG_INVALID_NODE_TYPE);
+            return Err(Error::InvalidState);
+        }
         let mut mut_self = self.borrow_mut();
         let mut new_data = mut_self.i_value.clone().unwrap_or_default();
         let range = checked_range(&new_data, offset, count)?;
@@ -1147,6 +1159,10 @@ impl ProcessingInstruction for RefNode {}
 
 impl Text for RefNode {
     fn split(&mut self, offset: usize) -> Result<RefNode> {
+        if !is_text(self) && !is_cdata_section(self) {
+            warn!("{}", MSG_INVALID_NODE_TYPE);
+            return Err(Error::InvalidState);
+        }
         let new_data = {
             let text = as_character_data_mut(self)?;
             let length = text.length();
-- 
2.43.0


From be67ba31911eaa8e298d4a4ae86185a634557211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:01 +0000
Subject: [PATCH 37/39] fix: what is not a document creates no nodes, and has
 an implementation

---
 src/level2/trait_impls.rs | 56 ++++++++++++++++++++++++++++++++++++---
 src/shared/rc_cell.rs     |  8 ++++++
 2 files changed, 61 insertions(+), 3 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index d416547..730acb1 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -239,61 +239,98 @@ impl Document for RefNode {
         {
             *i_implementation
         } else {
-            panic!("{}", MSG_INVALID_EXTENSION);
+            warn!("{}", MSG_INVALID_EXTENSION);
+            get_implementation()
         }
     }
 
     fn create_attribute(&self, name: &str) -> Result<RefNode> {
+        if !is_document(self) {
+            warn!("{}", MSG_INVALID_NODE_TYPE);
+            return Err(Error::InvalidState);
+        }
         let name = Name::from_str(name)?;
         let node_impl = NodeImpl::new_attribute(self.clone().downgrade(), name, None);
         Ok(RefNode::new(node_impl))
     }
 
     fn create_attribute_with(&self, name: &str, value: &str) -> Result<RefNode> {
+        if !is_document(self) {
+            warn!("{}", MSG_INVALID_NODE_TYPE);
+            return Err(Error::InvalidState);
+        }
         let name = Name::from_str(name)?;
         Ok(new_attribute_with(self.clone().downgrade(), name, value))
     }
 
     fn create_attribute_ns(&self, namespace_uri: &str, qualified_name: &str) -> Result<RefNode> {
+        if !is_document(self) {
+            warn!("{}", MSG_INVALID_NODE_TYPE);
+            return Err(Error::InvalidState);
+        }
         let name = Name::new_ns(namespace_uri, qualified_name)?;
         let node_impl = NodeImpl::new_attribute(self.clone().downgrade(), name, None);
         Ok(RefNode::new(node_impl))
     }
 
     fn create_cdata_section(&self, data: &str) -> Result<RefNode> {
+        if !is_document(self) {
+            warn!("{}", MSG_INVALID_NODE_TYPE);
+            return Err(Error::InvalidState);
+        }
         let node_impl = NodeImpl::new_cdata(self.clone().downgrade(), data);
         Ok(RefNode::new(node_impl))
     }
 
     fn create_document_fragment(&self) -> Result<RefNode> {
+        if !is_document(self) {
+            warn!("{}", MSG_INVALID_NODE_TYPE);
+            return Err(Error::InvalidState);
+        }
         let node_impl = NodeImpl::new_document_fragment(self.clone().downgrade());
         Ok(RefNode::new(node_impl))
     }
 
     fn create_entity_reference(&self, name: &str) -> Result<RefNode> {
+        if !is_document(self) {
+            warn!("{}", MSG_INVALID_NODE_TYPE);
+            return Err(Error::InvalidState);
+        }
         let name = Name::from_str(name)?;
         let node_impl = NodeImpl::new_entity_reference(self.clone().downgrade(), name);
         Ok(RefNode::new(node_impl))
     }
 
     fn create_comment(&self, data: &str) -> RefNode {
-        let node_impl = NodeImpl::new_comment(self.clone().downgrade(), data);
+        let node_impl = NodeImpl::new_comment(creating_document(self), data);
         RefNode::new(node_impl)
     }
 
     fn create_element(&self, tag_name: &str) -> Result<RefNode> {
+        if !is_document(self) {
+            warn!("{}", MSG_INVALID_NODE_TYPE);
+            return Err(Error::InvalidState);
+        }
         let name = Name::from_str(tag_name)?;
         let node_impl = NodeImpl::new_element(self.clone().downgrade(), name);
         Ok(RefNode::new(node_impl))
     }
 
     fn create_element_ns(&self, namespace_uri: &str, qualified_name: &str) -> Result<RefNode> {
+        if !is_document(self) {
+            warn!("{}", MSG_INVALID_NODE_TYPE);
+            return Err(Error::InvalidState);
+        }
         let name = Name::new_ns(namespace_uri, qualified_name)?;
         let node_impl = NodeImpl::new_element(self.clone().downgrade(), name);
         Ok(RefNode::new(node_impl))
     }
 
     fn create_processing_instruction(&self, target: &str, data: Option<&str>) -> Result<RefNode> {
+        if !is_document(self) {
+            warn!("{}", MSG_INVALID_NODE_TYPE);
+            return Err(Error::InvalidState);
+        }
         //
         // Ensure:
         //
@@ -309,7 +346,7 @@ impl Document for RefNode {
     }
 
     fn create_text_node(&self, data: &str) -> RefNode {
-        let node_impl = NodeImpl::new_text(self.clone().downgrade(), data);
+        let node_impl = NodeImpl::new_text(creating_document(self), data);
         RefNode::new(node_impl)
     }
 
@@ -1217,6 +1254,19 @@ impl Display for RefNode {
 // Private Functions
 // ------------------------------------------------------------------------------------------------
 
+//
+// The document which owns the nodes that `node` creates. This is `node` itself, if it is a document.
+//
+fn creating_document(node: &RefNode) -> WeakRefNode {
+    if is_document(node) {
+        node.clone().downgrade()
+    } else {
+        warn!("{}", MSG_INVALID_NODE_TYPE);
+        let ref_node = node.borrow();
+        ref_node.i_owner_document.clone().unwrap_or_default()
+    }
+}
+
 //
 // The value of some types of node is defined to be `None`, setting it has no effect. Note that the
 // value of an entity holds its replacement text.
diff --git a/src/shared/rc_cell.rs b/src/shared/rc_cell.rs
index dd8766e..7ef4a23 100644
--- a/src/shared/rc_cell.rs
+++ b/src/shared/rc_cell.rs
@@ -83,6 +83,14 @@ impl<T> Clone for WeakRefCell<T> {
 
 // ------------------------------------------------------------------------------------------------
 
+impl<T> Default for WeakRefCell<T> {
+    fn default() -> Self {
+        Self { inner: Weak::new() }
+    }
+}
+
+// ------------------------------------------------------------------------------------------------
+
 impl<T> WeakRefCell<T> {
     pub fn as_inner(&self) -> &Weak<RefCell<T>> {
         &self.inner
-- 
2.43.0


From 598333a4091a5522acc07489a44140645daa8b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:54 +0000
Subject: [PATCH 38/39] fix: refuse to create a document around a node that is
 not a document type

---
 src/level2/trait_impls.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 730acb1..1d8c314 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1678,6 +1678,10 @@ pub(crate) fn create_document_with_options(
     // document.
     //
     if let Some(doc_type) = &doc_type {
+        if !is_document_type(doc_type) {
+            warn!("{}", MSG_INVALID_NODE_TYPE);
+            return Err(Error::InvalidState);
+        }
         if doc_type.owner_document().is_some() {
             warn!("Error::WrongDocument: document type is already used by another document.");
             return Err(Error::WrongDocument);
-- 
2.43.0


From b1b0b0e1f93cc57c0fbcbc3b14e80a660b2c21bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:54 +0000
Subject: [PATCH 39/39] fix: refuse to create entities and notations for an
 owner that is not a document

---
 src/level2/ext/dom_impl.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/level2/ext/dom_impl.rs b/src/level2/ext/dom_impl.rs
index 562db38..4b03140 100644
--- a/src/level2/ext/dom_impl.rs
+++ b/src/level2/ext/dom_impl.rs
@@ -2,10 +2,11 @@
 This module implements extended capabilities but not specified by the DOM Core.
 */
 
+use crate::level2::convert::is_document;
 use crate::level2::dom_impl::Implementation;
 use crate::level2::ext::traits::DOMImplementation;
 use crate::level2::node_impl::{NodeImpl, RefNode};
-use crate::shared::error::Result;
+use crate::shared::error::{Error, Result, MSG_INVALID_NODE_TYPE};
 use crate::shared::name::Name;
 use std::str::FromStr;
 
@@ -49,6 +50,7 @@ pub fn create_notation(
     public_id: Option<&str>,
     system_id: Option<&str>,
 ) -> Result<RefNode> {
+    check_document(&owner_document)?;
     let name = Name::from_str(notation_name)?;
     let node_impl =
         NodeImpl::new_notation(Some(owner_document.downgrade()), name, public_id, system_id);
@@ -67,6 +69,7 @@ pub fn create_entity(
     public_id: Option<&str>,
     system_id: Option<&str>,
 ) -> Result<RefNode> {
+    check_document(&owner_document)?;
     let name = Name::from_str(notation_name)?;
     let node_impl =
         NodeImpl::new_entity(Some(owner_document.downgrade()), name, public_id, system_id);
@@ -84,7 +87,24 @@ pub fn create_internal_entity(
     notation_name: &str,
     value: &str,
 ) -> Result<RefNode> {
+    check_document(&owner_document)?;
     let name = Name::from_str(notation_name)?;
     let node_impl = NodeImpl::new_internal_entity(Some(owner_document.downgrade()), name, value);
     Ok(RefNode::new(node_impl))
 }
+
+// ------------------------------------------------------------------------------------------------
+// Private Functions
+// ------------------------------------------------------------------------------------------------
+
+//
+// CHECK: Raise `Error::InvalidState` if the node which is to own a new one is not a document.
+//
+fn check_document(owner_document: &RefNode) -> Result<()> {
+    if is_document(owner_document) {
+        Ok(())
+    } else {
+        warn!("{}", MSG_INVALID_NODE_TYPE);
+        Err(Error::InvalidState)
+    }
+}
-- 
2.43.0

