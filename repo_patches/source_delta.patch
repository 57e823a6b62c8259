From c7f775c35a6a9657208af00122e6d3b94f34de86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:09 +0000
Subject: [PATCH 01/64] fix: list_swap and slist_swap must re-parent the
 swapped nodes

Nodes kept pointing at the list they came from, so appending after or inserting
before a node of a swapped list updated the count and tail of the other list.
---
 src/list/list_swap.c   | 10 ++++++++++
 src/slist/slist_swap.c | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/list/list_swap.c b/src/list/list_swap.c
index 3da3287..9e89abb 100644
--- a/src/list/list_swap.c
+++ b/src/list/list_swap.c
@@ -48,6 +48,16 @@ void RCPR_SYM(list_swap)(RCPR_SYM(list)* left, RCPR_SYM(list)* right)
     memcpy(left, right, sizeof(tmp));
     memcpy(right, &tmp, sizeof(tmp));
 
+    /* each node must refer to the list that now owns it. */
+    for (list_node* node = left->head; NULL != node; node = node->next)
+    {
+        node->parent = left;
+    }
+    for (list_node* node = right->head; NULL != node; node = node->next)
+    {
+        node->parent = right;
+    }
+
     /* postcondition sanity checks. */
     RCPR_MODEL_ASSERT(prop_list_valid(left));
     RCPR_MODEL_ASSERT(prop_list_valid(right));
diff --git a/src/slist/slist_swap.c b/src/slist/slist_swap.c
index 0a3ae3b..c805afb 100644
--- a/src/slist/slist_swap.c
+++ b/src/slist/slist_swap.c
@@ -48,6 +48,16 @@ void RCPR_SYM(slist_swap)(RCPR_SYM(slist)* left, RCPR_SYM(slist)* right)
     memcpy(left, right, sizeof(tmp));
     memcpy(right, &tmp, sizeof(tmp));
 
+    /* each node must refer to the slist that now owns it. */
+    for (slist_node* node = left->head; NULL != node; node = node->next)
+    {
+        node->parent = left;
+    }
+    for (slist_node* node = right->head; NULL != node; node = node->next)
+    {
+        node->parent = right;
+    }
+
     /* postcondition sanity checks. */
     RCPR_MODEL_ASSERT(prop_slist_valid(left));
     RCPR_MODEL_ASSERT(prop_slist_valid(right));
-- 
2.43.0


From 27f55915ede07bb636a65c2fb739f1760d1b2cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:09 +0000
Subject: [PATCH 02/64] fix: list_clear and slist_clear must keep the list
 valid on failure

When releasing a child fails, clear returns early. The tail (and for list, the
prev pointer of the new head) still pointed at a node already removed.
---
 src/list/list_clear.c   | 10 ++++++++++
 src/slist/slist_clear.c |  6 ++++++
 2 files changed, 16 insertions(+)

diff --git a/src/list/list_clear.c b/src/list/list_clear.c
index c63f301..03f7eb2 100644
--- a/src/list/list_clear.c
+++ b/src/list/list_clear.c
@@ -43,6 +43,16 @@ RCPR_SYM(list_clear)(RCPR_SYM(list)* l)
         l->head = l->head->next;
         l->count -= 1U;
 
+        /* keep the rest of the list valid, should we stop early. */
+        if (NULL != l->head)
+        {
+            l->head->prev = NULL;
+        }
+        else
+        {
+            l->tail = NULL;
+        }
+
         t->parent = NULL;
         t->next = NULL;
         t->prev = NULL;
diff --git a/src/slist/slist_clear.c b/src/slist/slist_clear.c
index cdf0ae1..d146a62 100644
--- a/src/slist/slist_clear.c
+++ b/src/slist/slist_clear.c
@@ -42,6 +42,12 @@ RCPR_SYM(slist_clear)(RCPR_SYM(slist)* l)
         l->head = l->head->next;
         l->count -= 1U;
 
+        /* keep the rest of the list valid, should we stop early. */
+        if (NULL == l->head)
+        {
+            l->tail = NULL;
+        }
+
         t->parent = NULL;
         t->next = NULL;
 
-- 
2.43.0


From 5501899917ddf7c41f5df4c33e80945101a68e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:09 +0000
Subject: [PATCH 03/64] fix: list_node and slist_node release must reclaim the
 node on failure

The node was leaked when releasing its child resource failed.
---
 src/list/list_node_release.c   | 18 +++++++++++++-----
 src/slist/slist_node_release.c | 18 +++++++++++++-----
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/list/list_node_release.c b/src/list/list_node_release.c
index af16008..8323fa5 100644
--- a/src/list/list_node_release.c
+++ b/src/list/list_node_release.c
@@ -31,6 +31,8 @@ status
 RCPR_SYM(list_node_release)(
     RCPR_SYM(resource)* r)
 {
+    status child_release_retval = STATUS_SUCCESS;
+    status reclaim_retval = STATUS_SUCCESS;
     list_node* n = (list_node*)r;
 
     RCPR_MODEL_ASSERT(prop_list_node_valid(n));
@@ -46,15 +48,21 @@ RCPR_SYM(list_node_release)(
         RCPR_MODEL_ASSERT(prop_resource_valid(c));
 
         /* release the child resource. */
-        status retval = resource_release(c);
-        if (STATUS_SUCCESS != retval)
-            return retval;
+        child_release_retval = resource_release(c);
     }
 
     /* clean up. */
     allocator* a = n->alloc;
 
+    /* the node is reclaimed even if releasing its child failed. */
+    reclaim_retval = allocator_reclaim(a, n);
+
+    /* bubble up the error for the child resource release first. */
+    if (STATUS_SUCCESS != child_release_retval)
+    {
+        return child_release_retval;
+    }
+
     /* if reclaiming this list_node instance succeeds, so does this release. */
-    return
-        allocator_reclaim(a, n);
+    return reclaim_retval;
 }
diff --git a/src/slist/slist_node_release.c b/src/slist/slist_node_release.c
index 3fa70db..b435158 100644
--- a/src/slist/slist_node_release.c
+++ b/src/slist/slist_node_release.c
@@ -32,6 +32,8 @@ status
 RCPR_SYM(slist_node_release)(
     RCPR_SYM(resource)* r)
 {
+    status child_release_retval = STATUS_SUCCESS;
+    status reclaim_retval = STATUS_SUCCESS;
     slist_node* n = (slist_node*)r;
 
     RCPR_MODEL_ASSERT(prop_slist_node_valid(n));
@@ -47,15 +49,21 @@ RCPR_SYM(slist_node_release)(
         RCPR_MODEL_ASSERT(prop_resource_valid(c));
 
         /* release the child resource. */
-        status retval = resource_release(c);
-        if (STATUS_SUCCESS != retval)
-            return retval;
+        child_release_retval = resource_release(c);
     }
 
     /* clean up. */
     allocator* a = n->alloc;
 
+    /* the node is reclaimed even if releasing its child failed. */
+    reclaim_retval = allocator_reclaim(a, n);
+
+    /* bubble up the error for the child resource release first. */
+    if (STATUS_SUCCESS != child_release_retval)
+    {
+        return child_release_retval;
+    }
+
     /* if reclaiming this slist_node instance succeeds, so does this release. */
-    return
-        allocator_reclaim(a, n);
+    return reclaim_retval;
 }
-- 
2.43.0


From 18709b73bf3fc3ce3b7697285870fde432416156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:09 +0000
Subject: [PATCH 04/64] fix: list and slist pop must report the failure to
 release a node

If releasing the popped node failed, the caller's resource was released and the
status was then overwritten with the status of that release, so that pop
reported success with no resource. A node without a child led to a release of
NULL.
---
 src/list/list_pop.c             | 11 +++++++----
 src/slist/slist_node_next_pop.c | 11 +++++++----
 src/slist/slist_pop.c           | 11 +++++++----
 3 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/list/list_pop.c b/src/list/list_pop.c
index f11d2b7..5992db1 100644
--- a/src/list/list_pop.c
+++ b/src/list/list_pop.c
@@ -109,11 +109,14 @@ RCPR_SYM(list_pop)(
             *r = NULL;
 
             /* clean up the resource, if possible. */
-            retval = resource_release(cleanup_resource);
-            if (STATUS_SUCCESS != retval)
+            if (NULL != cleanup_resource)
             {
-                /* bubble up the error for the resource release first. */
-                return retval;
+                status cleanup_retval = resource_release(cleanup_resource);
+                if (STATUS_SUCCESS != cleanup_retval)
+                {
+                    /* bubble up the error for the resource release first. */
+                    return cleanup_retval;
+                }
             }
 
             /* return the status to the caller. */
diff --git a/src/slist/slist_node_next_pop.c b/src/slist/slist_node_next_pop.c
index ddf8cb8..649bcf0 100644
--- a/src/slist/slist_node_next_pop.c
+++ b/src/slist/slist_node_next_pop.c
@@ -108,11 +108,14 @@ RCPR_SYM(slist_node_next_pop)(
             *r = NULL;
 
             /* clean up the resource, if possible. */
-            retval = resource_release(cleanup_resource);
-            if (STATUS_SUCCESS != retval)
+            if (NULL != cleanup_resource)
             {
-                /* bubble up the error for the resource release first. */
-                return retval;
+                status cleanup_retval = resource_release(cleanup_resource);
+                if (STATUS_SUCCESS != cleanup_retval)
+                {
+                    /* bubble up the error for the resource release first. */
+                    return cleanup_retval;
+                }
             }
 
             /* return the status to the caller. */
diff --git a/src/slist/slist_pop.c b/src/slist/slist_pop.c
index fb52528..f1c773d 100644
--- a/src/slist/slist_pop.c
+++ b/src/slist/slist_pop.c
@@ -104,11 +104,14 @@ RCPR_SYM(slist_pop)(
             *r = NULL;
 
             /* clean up the resource, if possible. */
-            retval = resource_release(cleanup_resource);
-            if (STATUS_SUCCESS != retval)
+            if (NULL != cleanup_resource)
             {
-                /* bubble up the error for the resource release first. */
-                return retval;
+                status cleanup_retval = resource_release(cleanup_resource);
+                if (STATUS_SUCCESS != cleanup_retval)
+                {
+                    /* bubble up the error for the resource release first. */
+                    return cleanup_retval;
+                }
             }
 
             /* return the status to the caller. */
-- 
2.43.0


From 3178b4acb6e73d1b76dae48f78b20b11acb7f5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:18 +0000
Subject: [PATCH 05/64] fix: rbtree_delete_fixup must check the color of the
 sibling

The mirrored case tested the color of x, which is always black here, instead of
the color of its sibling. Deleting a node left of a red sibling left a tree that
is not balanced.
---
 src/rbtree/rbtree_delete_fixup.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rbtree/rbtree_delete_fixup.c b/src/rbtree/rbtree_delete_fixup.c
index 4e746e9..ea4434b 100644
--- a/src/rbtree/rbtree_delete_fixup.c
+++ b/src/rbtree/rbtree_delete_fixup.c
@@ -66,7 +66,7 @@ RCPR_SYM(rbtree_delete_fixup)(
         {
             rbtree_node* w = x->parent->left;
 
-            if (x->color == RBTREE_RED)
+            if (w->color == RBTREE_RED)
             {
                 w->color = RBTREE_BLACK;
                 x->parent->color = RBTREE_RED;
-- 
2.43.0


From 142f714463046149fc6b2465eb235763e40c5440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:18 +0000
Subject: [PATCH 06/64] fix: rbtree_swap must not share nil nodes between the
 swapped trees

After a swap, each tree used the nil node embedded in the other tree. Releasing
one of the trees left the other one referring to freed memory.
---
 src/rbtree/rbtree_swap.c | 73 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 73 insertions(+)

diff --git a/src/rbtree/rbtree_swap.c b/src/rbtree/rbtree_swap.c
index 1055af1..198651b 100644
--- a/src/rbtree/rbtree_swap.c
+++ b/src/rbtree/rbtree_swap.c
@@ -15,6 +15,10 @@
 RCPR_IMPORT_rbtree;
 RCPR_IMPORT_rbtree_internal;
 
+static void rbtree_adopt_nil(rbtree* tree);
+static void rbtree_replace_nil(
+    rbtree_node* n, rbtree_node* old_nil, rbtree_node* new_nil);
+
 /**
  * \brief Swap the contents of two rbtree instances.
  *
@@ -46,7 +50,76 @@ void RCPR_SYM(rbtree_swap)(RCPR_SYM(rbtree)* left, RCPR_SYM(rbtree)* right)
     memcpy(left, right, sizeof(tmp));
     memcpy(right, &tmp, sizeof(tmp));
 
+    /* each tree must use its own nil node. */
+    rbtree_adopt_nil(left);
+    rbtree_adopt_nil(right);
+
     /* postcondition sanity checks. */
     RCPR_MODEL_ASSERT(prop_rbtree_valid(left));
     RCPR_MODEL_ASSERT(prop_rbtree_valid(right));
 }
+
+/**
+ * \brief After a swap, the nodes in the given tree refer to the nil node
+ * embedded in the other tree. Make this tree use its own nil node instead.
+ *
+ * \param tree          The tree to update.
+ */
+static void rbtree_adopt_nil(rbtree* tree)
+{
+    rbtree_node* old_nil = tree->nil;
+    rbtree_node* nil = &tree->nil_impl;
+
+    /* reset the nil node. */
+    nil->parent = nil;
+    nil->left = nil;
+    nil->right = nil;
+    nil->color = RBTREE_BLACK;
+    nil->value = &nil->hdr;
+    tree->nil = nil;
+
+    /* point the root or the nodes in this tree to our nil node. */
+    if (tree->root == old_nil)
+    {
+        tree->root = nil;
+    }
+    else
+    {
+        rbtree_replace_nil(tree->root, old_nil, nil);
+    }
+}
+
+/**
+ * \brief Replace references to the old nil node with the new nil node in the
+ * given subtree.
+ *
+ * \param n             The root of this subtree, which must not be nil.
+ * \param old_nil       The nil node to replace.
+ * \param new_nil       The replacement.
+ */
+static void rbtree_replace_nil(
+    rbtree_node* n, rbtree_node* old_nil, rbtree_node* new_nil)
+{
+    if (old_nil == n->parent)
+    {
+        n->parent = new_nil;
+    }
+
+    if (old_nil == n->left)
+    {
+        n->left = new_nil;
+    }
+    else
+    {
+        rbtree_replace_nil(n->left, old_nil, new_nil);
+    }
+
+    if (old_nil == n->right)
+    {
+        n->right = new_nil;
+    }
+    else
+    {
+        rbtree_replace_nil(n->right, old_nil, new_nil);
+    }
+}
-- 
2.43.0


From 569564b8094b96cc6f652f1b95930881d32ddceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:18 +0000
Subject: [PATCH 07/64] fix: rbtree_insert must refuse a duplicate key, as
 documented

---
 include/rcpr/status/rbtree.h | 6 ++++++
 src/rbtree/rbtree_insert.c   | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/include/rcpr/status/rbtree.h b/include/rcpr/status/rbtree.h
index 4e1b7a6..240d12f 100644
--- a/include/rcpr/status/rbtree.h
+++ b/include/rcpr/status/rbtree.h
@@ -22,3 +22,9 @@
  */
 #define ERROR_RBTREE_NOT_FOUND \
     STATUS_CODE(1, RCPR_COMPONENT_RBTREE, 0x0001)
+
+/**
+ * \brief An attempt was made to insert an item with a key that already exists.
+ */
+#define ERROR_RBTREE_DUPLICATE \
+    STATUS_CODE(1, RCPR_COMPONENT_RBTREE, 0x0002)
diff --git a/src/rbtree/rbtree_insert.c b/src/rbtree/rbtree_insert.c
index 81e12c0..66599ff 100644
--- a/src/rbtree/rbtree_insert.c
+++ b/src/rbtree/rbtree_insert.c
@@ -48,11 +48,19 @@ RCPR_SYM(rbtree_insert)(
 {
     status retval;
     rbtree_node* new_node = NULL;
+    rbtree_node* duplicate = NULL;
 
     /* parameter sanity checks. */
     RCPR_MODEL_ASSERT(prop_rbtree_valid(tree));
     RCPR_MODEL_ASSERT(prop_resource_valid(r));
 
+    /* an item with this key must not already exist. */
+    retval = rbtree_find_node(tree, tree->key(tree->context, r), &duplicate);
+    if (STATUS_SUCCESS == retval)
+    {
+        return ERROR_RBTREE_DUPLICATE;
+    }
+
     /* attempt to create an rbtree node. */
     retval = rbtree_node_create(&new_node, tree, r);
     if (STATUS_SUCCESS != retval)
-- 
2.43.0


From b667cbb8661b6761a990f01f4b6df0fda426960b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:18 +0000
Subject: [PATCH 08/64] fix: rbtree_node release must reclaim the node on
 failure

The node was leaked when releasing its value failed.
---
 src/rbtree/rbtree_node_create.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/rbtree/rbtree_node_create.c b/src/rbtree/rbtree_node_create.c
index 838b5bc..7636026 100644
--- a/src/rbtree/rbtree_node_create.c
+++ b/src/rbtree/rbtree_node_create.c
@@ -111,6 +111,8 @@ RCPR_SYM(rbtree_node_create)(
  */
 static status rbtree_node_release(resource* r)
 {
+    status value_release_retval = STATUS_SUCCESS;
+    status reclaim_retval = STATUS_SUCCESS;
     rbtree_node* n = (rbtree_node*)r;
 
     /* parameter sanity checks. */
@@ -126,15 +128,21 @@ static status rbtree_node_release(resource* r)
         RCPR_MODEL_ASSERT(prop_resource_valid(v));
 
         /* release the value. */
-        status retval = resource_release(v);
-        if (STATUS_SUCCESS != retval)
-            return retval;
+        value_release_retval = resource_release(v);
     }
 
     /* clean up. */
     allocator* a = n->alloc;
 
-    /* if reclaiming this rbtree_node succeeds, then so does this release. */
-    return
-        allocator_reclaim(a, n);
+    /* the node is reclaimed even if releasing its value failed. */
+    reclaim_retval = allocator_reclaim(a, n);
+
+    /* bubble up the error for the value resource release first. */
+    if (STATUS_SUCCESS != value_release_retval)
+    {
+        return value_release_retval;
+    }
+
+    /* if reclaiming this rbtree_node succeeds, so does this release. */
+    return reclaim_retval;
 }
-- 
2.43.0


From 61fda675d4be403b7d77e5d4357eaeb0a3bdeac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:18 +0000
Subject: [PATCH 09/64] fix: rbtree_delete must set its output to NULL on
 failure, as documented

---
 src/rbtree/rbtree_delete.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rbtree/rbtree_delete.c b/src/rbtree/rbtree_delete.c
index bf9fd8e..70f95e8 100644
--- a/src/rbtree/rbtree_delete.c
+++ b/src/rbtree/rbtree_delete.c
@@ -62,6 +62,12 @@ RCPR_SYM(rbtree_delete)(
     retval = rbtree_find_node(tree, key, &node);
     if (STATUS_SUCCESS != retval)
     {
+        /* on failure, r is set to NULL. */
+        if (NULL != r)
+        {
+            *r = NULL;
+        }
+
         return retval;
     }
 
-- 
2.43.0


From e0c6378bb950291511c5bcc864c65d5133c18525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:53 +0000
Subject: [PATCH 10/64] fix: rbtree_delete_fixup must not stop at a nil node

The position of a deleted black leaf is taken by the nil node, so the fixup loop
never ran for it. The loop ends at the root.
---
 src/rbtree/rbtree_delete_fixup.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rbtree/rbtree_delete_fixup.c b/src/rbtree/rbtree_delete_fixup.c
index ea4434b..5e56edb 100644
--- a/src/rbtree/rbtree_delete_fixup.c
+++ b/src/rbtree/rbtree_delete_fixup.c
@@ -25,7 +25,7 @@ void
 RCPR_SYM(rbtree_delete_fixup)(
     RCPR_SYM(rbtree)* tree, RCPR_SYM(rbtree_node)* x)
 {
-    while (x != tree->nil && x->color == RBTREE_BLACK)
+    while (x != tree->root && x->color == RBTREE_BLACK)
     {
         if (x == x->parent->left)
         {
-- 
2.43.0


From 9d9d793fb7c555ce43646569ca021a3f9688f15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:53 +0000
Subject: [PATCH 11/64] fix: the bump allocator must refuse a size that
 overflows its offset

The sum of the current offset and a huge size wrapped around, so the allocation
succeeded with a pointer to memory that does not hold it, and the offset moved
back over memory already in use.
---
 src/allocator/bump_allocator_create.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/allocator/bump_allocator_create.c b/src/allocator/bump_allocator_create.c
index 5ba25f9..4d68cda 100644
--- a/src/allocator/bump_allocator_create.c
+++ b/src/allocator/bump_allocator_create.c
@@ -185,7 +185,7 @@ static status bump_allocator_allocate(
     /* verify that this computed offset does not exceed the total size of this
      * memory region. */
     size_t bump_offset = mem_offset + size;
-    if (bump_offset >= bump->max_size)
+    if (bump_offset < mem_offset || bump_offset >= bump->max_size)
     {
         return ERROR_GENERAL_OUT_OF_MEMORY;
     }
-- 
2.43.0


From 1a6098e5856523a2e8cc218514b0c6a7384aea81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:53 +0000
Subject: [PATCH 12/64] fix: a failed bump allocation must set the pointer to
 NULL, as documented

---
 src/allocator/bump_allocator_create.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/allocator/bump_allocator_create.c b/src/allocator/bump_allocator_create.c
index 4d68cda..d8bdcb5 100644
--- a/src/allocator/bump_allocator_create.c
+++ b/src/allocator/bump_allocator_create.c
@@ -187,6 +187,7 @@ static status bump_allocator_allocate(
     size_t bump_offset = mem_offset + size;
     if (bump_offset < mem_offset || bump_offset >= bump->max_size)
     {
+        *ptr = NULL;
         return ERROR_GENERAL_OUT_OF_MEMORY;
     }
 
-- 
2.43.0


From 784300a3035e0f4a5d26c5c5a33edc7341b2e44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:53 +0000
Subject: [PATCH 13/64] fix: reallocating to a size of zero must not free the
 region

realloc(ptr, 0) frees ptr and returns NULL, which was reported as a failure that
leaves the region allocated, so the caller would reclaim it a second time.
---
 src/allocator/malloc_allocator_create.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/allocator/malloc_allocator_create.c b/src/allocator/malloc_allocator_create.c
index 4f43872..583047f 100644
--- a/src/allocator/malloc_allocator_create.c
+++ b/src/allocator/malloc_allocator_create.c
@@ -244,7 +244,8 @@ static status malloc_allocator_reallocate(
     RCPR_MODEL_ASSERT(NULL != ptr);
 
     /* attempt to reallocate memory. */
-    void* newptr = realloc(*ptr, size);
+    /* realloc to a size of zero would free this region. */
+    void* newptr = realloc(*ptr, (0 == size) ? 1 : size);
     if (NULL == newptr)
     {
         return ERROR_GENERAL_OUT_OF_MEMORY;
-- 
2.43.0


From 0c55eb9d1efaf36fcf53e09c2359c0fbe5f2b7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:55 +0000
Subject: [PATCH 14/64] fix: a failed uuid parse must leave the uuid unchanged,
 as documented

---
 src/uuid/rcpr_uuid_parse_raw_string.c | 34 ++++++++++++++-------------
 src/uuid/rcpr_uuid_parse_string.c     | 34 ++++++++++++++-------------
 2 files changed, 36 insertions(+), 32 deletions(-)

diff --git a/src/uuid/rcpr_uuid_parse_raw_string.c b/src/uuid/rcpr_uuid_parse_raw_string.c
index b4ef9e4..502ec77 100644
--- a/src/uuid/rcpr_uuid_parse_raw_string.c
+++ b/src/uuid/rcpr_uuid_parse_raw_string.c
@@ -53,6 +53,7 @@ RCPR_SYM(rcpr_uuid_parse_raw_string)(
     RCPR_SYM(rcpr_uuid)* uuid, const char* str, size_t length)
 {
     uint8_t ignore;
+    RCPR_SYM(rcpr_uuid) tmp;
 
     /* parameter sanity checks. */
     RCPR_MODEL_ASSERT(prop_uuid_valid(uuid));
@@ -65,44 +66,45 @@ RCPR_SYM(rcpr_uuid_parse_raw_string)(
     if (36 != length) goto fail;
 
     /* read the first four byte values. */
-    if (!try_read_hex_byte(&str, uuid->data +  0)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  1)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  2)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  3)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  0)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  1)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  2)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  3)) goto fail;
 
     /* read the first dash. */
     if (!try_read_dash(&str, &ignore)) goto fail;
 
     /* read the next two bytes. */
-    if (!try_read_hex_byte(&str, uuid->data +  4)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  5)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  4)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  5)) goto fail;
 
     /* read the second dash. */
     if (!try_read_dash(&str, &ignore)) goto fail;
 
     /* read the next two bytes. */
-    if (!try_read_hex_byte(&str, uuid->data +  6)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  7)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  6)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  7)) goto fail;
 
     /* read the third dash. */
     if (!try_read_dash(&str, &ignore)) goto fail;
 
     /* read the next two bytes. */
-    if (!try_read_hex_byte(&str, uuid->data +  8)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  9)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  8)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  9)) goto fail;
 
     /* read the fourth dash. */
     if (!try_read_dash(&str, &ignore)) goto fail;
 
     /* read the last six bytes. */
-    if (!try_read_hex_byte(&str, uuid->data + 10)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 11)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 12)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 13)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 14)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 15)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 10)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 11)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 12)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 13)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 14)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 15)) goto fail;
 
     /* if we've made it here, we've successfully parsed a uuid string. */
+    *uuid = tmp;
     return STATUS_SUCCESS;
 
 fail:
diff --git a/src/uuid/rcpr_uuid_parse_string.c b/src/uuid/rcpr_uuid_parse_string.c
index d18f04a..2f95db2 100644
--- a/src/uuid/rcpr_uuid_parse_string.c
+++ b/src/uuid/rcpr_uuid_parse_string.c
@@ -48,6 +48,7 @@ RCPR_SYM(rcpr_uuid_parse_string)(
     RCPR_SYM(rcpr_uuid)* uuid, const char* str)
 {
     uint8_t ignore;
+    RCPR_SYM(rcpr_uuid) tmp;
 
     /* parameter sanity checks. */
     RCPR_MODEL_ASSERT(prop_uuid_valid(uuid));
@@ -57,47 +58,48 @@ RCPR_SYM(rcpr_uuid_parse_string)(
     if (NULL == str) goto fail;
 
     /* read the first four byte values. */
-    if (!try_read_hex_byte(&str, uuid->data +  0)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  1)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  2)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  3)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  0)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  1)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  2)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  3)) goto fail;
 
     /* read the first dash. */
     if (!try_read_dash(&str, &ignore)) goto fail;
 
     /* read the next two bytes. */
-    if (!try_read_hex_byte(&str, uuid->data +  4)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  5)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  4)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  5)) goto fail;
 
     /* read the second dash. */
     if (!try_read_dash(&str, &ignore)) goto fail;
 
     /* read the next two bytes. */
-    if (!try_read_hex_byte(&str, uuid->data +  6)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  7)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  6)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  7)) goto fail;
 
     /* read the third dash. */
     if (!try_read_dash(&str, &ignore)) goto fail;
 
     /* read the next two bytes. */
-    if (!try_read_hex_byte(&str, uuid->data +  8)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data +  9)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  8)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data +  9)) goto fail;
 
     /* read the fourth dash. */
     if (!try_read_dash(&str, &ignore)) goto fail;
 
     /* read the last six bytes. */
-    if (!try_read_hex_byte(&str, uuid->data + 10)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 11)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 12)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 13)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 14)) goto fail;
-    if (!try_read_hex_byte(&str, uuid->data + 15)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 10)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 11)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 12)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 13)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 14)) goto fail;
+    if (!try_read_hex_byte(&str, tmp.data + 15)) goto fail;
 
     /* finally, if the string is not empty, this fails. */
     if (0 != *str) goto fail;
 
     /* if we've made it here, we've successfully parsed a uuid string. */
+    *uuid = tmp;
     return STATUS_SUCCESS;
 
 fail:
-- 
2.43.0


From c6022f6d8cc6ddd072e686584d89b2a5308ebc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:07 +0000
Subject: [PATCH 15/64] fix: bigint_create_zero and bigint_clone must set *i to
 NULL on failure, as documented

---
 src/bigint/bigint_clone.c       | 5 +++++
 src/bigint/bigint_create_zero.c | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/bigint/bigint_clone.c b/src/bigint/bigint_clone.c
index 83badd7..140ff1f 100644
--- a/src/bigint/bigint_clone.c
+++ b/src/bigint/bigint_clone.c
@@ -117,5 +117,10 @@ free_bigint:
         retval = reclaim_retval;
 
 done:
+    if (STATUS_SUCCESS != retval)
+    {
+        *i = NULL;
+    }
+
     return retval;
 }
diff --git a/src/bigint/bigint_create_zero.c b/src/bigint/bigint_create_zero.c
index d7a1010..0c957c3 100644
--- a/src/bigint/bigint_create_zero.c
+++ b/src/bigint/bigint_create_zero.c
@@ -143,5 +143,10 @@ free_bigint:
         retval = reclaim_retval;
 
 done:
+    if (STATUS_SUCCESS != retval)
+    {
+        *i = NULL;
+    }
+
     return retval;
 }
-- 
2.43.0


From ef1fd3ddd3eaa54eda4ff5552f21ee08ed252919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:07 +0000
Subject: [PATCH 16/64] fix: stack_create must set *st to NULL on failure, as
 documented

---
 src/stack/stack_create.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/stack/stack_create.c b/src/stack/stack_create.c
index 7126711..ad7db1f 100644
--- a/src/stack/stack_create.c
+++ b/src/stack/stack_create.c
@@ -139,6 +139,11 @@ free_stack:
         retval = reclaim_retval;
 
 done:
+    if (STATUS_SUCCESS != retval)
+    {
+        *st = NULL;
+    }
+
     return retval;
 }
 
-- 
2.43.0


From e767b1ef84da13cf5e36320482108bc961104d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 17/64] fix: auto_reset_trigger_create must set *trigger to
 NULL on failure

---
 src/auto_reset_trigger/auto_reset_trigger_create.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/auto_reset_trigger/auto_reset_trigger_create.c b/src/auto_reset_trigger/auto_reset_trigger_create.c
index d71dbb2..0d4e31f 100644
--- a/src/auto_reset_trigger/auto_reset_trigger_create.c
+++ b/src/auto_reset_trigger/auto_reset_trigger_create.c
@@ -72,6 +72,7 @@ RCPR_SYM(auto_reset_trigger_create)(
     retval = allocator_allocate(alloc, (void**)&tmp, sizeof(*tmp));
     if (STATUS_SUCCESS != retval)
     {
+        *trigger = NULL;
         return retval;
     }
 
-- 
2.43.0


From 81958d2b58c396420fbba8b48121907e74ceaaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:17 +0000
Subject: [PATCH 18/64] fix: psock constructors must set *sock to NULL on
 failure, as documented

---
 src/psock/psock_create_from_buffer.c            | 5 +++++
 src/psock/psock_create_from_descriptor.c        | 1 +
 src/psock/psock_create_from_hostname_and_port.c | 5 +++++
 src/psock/psock_create_from_listen_address.c    | 5 +++++
 src/psock/psock_create_from_user_methods.c      | 1 +
 5 files changed, 17 insertions(+)

diff --git a/src/psock/psock_create_from_buffer.c b/src/psock/psock_create_from_buffer.c
index 7369902..f2f3bc9 100644
--- a/src/psock/psock_create_from_buffer.c
+++ b/src/psock/psock_create_from_buffer.c
@@ -179,5 +179,10 @@ cleanup_psock:
     }
 
 done:
+    if (STATUS_SUCCESS != retval)
+    {
+        *sock = NULL;
+    }
+
     return retval;
 }
diff --git a/src/psock/psock_create_from_descriptor.c b/src/psock/psock_create_from_descriptor.c
index 3994f1a..abd6aa7 100644
--- a/src/psock/psock_create_from_descriptor.c
+++ b/src/psock/psock_create_from_descriptor.c
@@ -90,6 +90,7 @@ RCPR_SYM(psock_create_from_descriptor)(
         allocator_allocate(a, (void**)&ps, sizeof(psock_from_descriptor));
     if (STATUS_SUCCESS != retval)
     {
+        *sock = NULL;
         return retval;
     }
 
diff --git a/src/psock/psock_create_from_hostname_and_port.c b/src/psock/psock_create_from_hostname_and_port.c
index 37ad468..d576d0f 100644
--- a/src/psock/psock_create_from_hostname_and_port.c
+++ b/src/psock/psock_create_from_hostname_and_port.c
@@ -155,5 +155,10 @@ cleanup_desc:
     close(desc);
 
 done:
+    if (STATUS_SUCCESS != retval)
+    {
+        *sock = NULL;
+    }
+
     return retval;
 }
diff --git a/src/psock/psock_create_from_listen_address.c b/src/psock/psock_create_from_listen_address.c
index 7d7c4f8..d138a40 100644
--- a/src/psock/psock_create_from_listen_address.c
+++ b/src/psock/psock_create_from_listen_address.c
@@ -116,5 +116,10 @@ cleanup_socket:
     }
 
 done:
+    if (STATUS_SUCCESS != retval)
+    {
+        *sock = NULL;
+    }
+
     return retval;
 }
diff --git a/src/psock/psock_create_from_user_methods.c b/src/psock/psock_create_from_user_methods.c
index 8fb38ca..74ca5fe 100644
--- a/src/psock/psock_create_from_user_methods.c
+++ b/src/psock/psock_create_from_user_methods.c
@@ -104,6 +104,7 @@ RCPR_SYM(psock_create_from_user_methods)(
     int retval = allocator_allocate(a, (void**)&ps, sizeof(*ps));
     if (STATUS_SUCCESS != retval)
     {
+        *sock = NULL;
         return retval;
     }
 
-- 
2.43.0


From 795a3e939a3cc1d4919ea2aac22979ed3341b17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:17 +0000
Subject: [PATCH 19/64] fix: psock_br_create_from_psock must report a failed
 allocation

---
 src/psock/psock_br_create_from_psock.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/psock/psock_br_create_from_psock.c b/src/psock/psock_br_create_from_psock.c
index 27545eb..04611a4 100644
--- a/src/psock/psock_br_create_from_psock.c
+++ b/src/psock/psock_br_create_from_psock.c
@@ -129,11 +129,16 @@ RCPR_SYM(psock_br_create_from_psock)(
 
 cleanup_tmp:
     release_retval = resource_release(&tmp->hdr.hdr);
-    if (STATUS_SUCCESS != retval)
+    if (STATUS_SUCCESS != release_retval)
     {
         retval = release_retval;
     }
 
 done:
+    if (STATUS_SUCCESS != retval)
+    {
+        *br = NULL;
+    }
+
     return retval;
 }
-- 
2.43.0


From 8f6609976748a54477881bb265bdd989e8896130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:55 +0000
Subject: [PATCH 20/64] fix: psock_from_buffer_get_output_buffer must not
 change its outputs on failure

---
 src/psock/psock_from_buffer_get_output_buffer.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/psock/psock_from_buffer_get_output_buffer.c b/src/psock/psock_from_buffer_get_output_buffer.c
index f290e0c..9acbb83 100644
--- a/src/psock/psock_from_buffer_get_output_buffer.c
+++ b/src/psock/psock_from_buffer_get_output_buffer.c
@@ -89,29 +89,32 @@ RCPR_SYM(psock_from_buffer_get_output_buffer)(
         return ERROR_PSOCK_UNSUPPORTED_TYPE;
     }
 
-    /* set the buffer size. */
-    *buffer_size = pb->output_buffer_total_size;
-
     /* allocate memory for the output buffer. */
-    retval = allocator_allocate(a, buffer, *buffer_size);
+    void* tmp = NULL;
+    size_t tmp_size = pb->output_buffer_total_size;
+    retval = allocator_allocate(a, &tmp, tmp_size);
     if (STATUS_SUCCESS != retval)
     {
         goto done;
     }
 
     /* copy the output buffer data to this buffer. */
-    retval = copy_output_buffer(pb, (uint8_t*)*buffer, *buffer_size);
+    retval = copy_output_buffer(pb, (uint8_t*)tmp, tmp_size);
     if (STATUS_SUCCESS != retval)
     {
         goto reclaim_buffer;
     }
 
+    /* the caller owns this buffer on success. */
+    *buffer = tmp;
+    *buffer_size = tmp_size;
+
     /* success. */
     retval = STATUS_SUCCESS;
     goto done;
 
 reclaim_buffer:
-    release_retval = allocator_reclaim(a, *buffer);
+    release_retval = allocator_reclaim(a, tmp);
     if (STATUS_SUCCESS != release_retval)
     {
         retval = release_retval;
-- 
2.43.0


From 5d307997e5c0ceef0d1451eb38899283e809dd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:48 +0000
Subject: [PATCH 21/64] fix: a failed write to an output buffer must not
 corrupt later output

---
 src/psock/psock_from_buffer_write.c | 39 ++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/psock/psock_from_buffer_write.c b/src/psock/psock_from_buffer_write.c
index 336ada5..b7ec298 100644
--- a/src/psock/psock_from_buffer_write.c
+++ b/src/psock/psock_from_buffer_write.c
@@ -53,6 +53,7 @@ status RCPR_SYM(psock_from_buffer_write)(
     size_t total_size = 0;
     psock_output_buffer_node* ob = NULL;
     void* large_buffer = NULL;
+    void* new_buffer = NULL;
 
     /* parameter sanity checks. */
     RCPR_MODEL_ASSERT(prop_psock_valid(sock));
@@ -85,12 +86,22 @@ status RCPR_SYM(psock_from_buffer_write)(
     data = ((uint8_t*)data) + copy_size;
     total_size += copy_size;
     pb->buffer_write_offset += copy_size;
+    pb->output_buffer_total_size += copy_size;
     *size -= copy_size;
 
     /* if the current buffer is full, append it to the output queue and reset
      * the buffer. */
     if (pb->buffer_write_offset >= pb->output_buffer_size)
     {
+        /* allocate memory for the new buffer first, so that the current buffer
+         * remains in place if any step fails. */
+        retval =
+            allocator_allocate(sock->alloc, &new_buffer, PSOCK_BUFFER_SIZE);
+        if (STATUS_SUCCESS != retval)
+        {
+            goto done;
+        }
+
         /* create an output buffer node. */
         retval =
             psock_output_buffer_node_create(
@@ -98,7 +109,7 @@ status RCPR_SYM(psock_from_buffer_write)(
                 pb->output_buffer_size);
         if (STATUS_SUCCESS != retval)
         {
-            goto done;
+            goto cleanup_new_buffer;
         }
 
         /* append this to the tail of the queue. */
@@ -112,23 +123,13 @@ status RCPR_SYM(psock_from_buffer_write)(
             {
                 retval = release_retval;
             }
-            goto done;
+            goto cleanup_new_buffer;
         }
 
-        /* the output current buffer is no longer set. */
-        pb->output_curr_buffer = NULL;
+        /* the new buffer is now the current buffer. */
+        pb->output_curr_buffer = new_buffer;
         pb->output_buffer_size = PSOCK_BUFFER_SIZE;
         pb->buffer_write_offset = 0;
-
-        /* allocate memory for the new buffer. */
-        retval =
-            allocator_allocate(
-                sock->alloc, (void**)&pb->output_curr_buffer,
-                pb->output_buffer_size);
-        if (STATUS_SUCCESS != retval)
-        {
-            goto done;
-        }
     }
 
     /* if the remaining size is greater than the current output buffer size,
@@ -165,6 +166,7 @@ status RCPR_SYM(psock_from_buffer_write)(
         /* fixups. */
         data = ((uint8_t*)data) + *size;
         total_size += *size;
+        pb->output_buffer_total_size += *size;
         *size = 0;
     }
 
@@ -176,13 +178,13 @@ status RCPR_SYM(psock_from_buffer_write)(
             pb->output_curr_buffer + pb->buffer_write_offset, data, copy_size);
         total_size += copy_size;
         pb->buffer_write_offset += copy_size;
+        pb->output_buffer_total_size += copy_size;
         *size -= copy_size;
     }
 
     /* success. */
     RCPR_MODEL_ASSERT(0 == *size);
     *size = total_size;
-    pb->output_buffer_total_size += *size;
     retval = STATUS_SUCCESS;
     goto done;
 
@@ -201,6 +203,13 @@ cleanup_large_buffer:
     }
     goto done;
 
+cleanup_new_buffer:
+    release_retval = allocator_reclaim(sock->alloc, new_buffer);
+    if (STATUS_SUCCESS != release_retval)
+    {
+        retval = release_retval;
+    }
+
 done:
     return retval;
 }
-- 
2.43.0


From 92a93acefd61ff526f7d3c6e8e045c24943e0509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 22/64] fix: a zero-size value at the end of an input buffer
 must be readable

---
 src/psock/psock_from_buffer_read.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psock/psock_from_buffer_read.c b/src/psock/psock_from_buffer_read.c
index 8dc8217..aed3f3b 100644
--- a/src/psock/psock_from_buffer_read.c
+++ b/src/psock/psock_from_buffer_read.c
@@ -46,9 +46,9 @@ status RCPR_SYM(psock_from_buffer_read)(
     /* cast to the derived type. */
     psock_from_buffer* pb = (psock_from_buffer*)sock;
 
-    /* if we are at EOF, return EOF. */
+    /* if we are at EOF, return EOF, unless no bytes were requested. */
     if (NULL == pb->input_buffer
-     || pb->buffer_read_offset >= pb->input_buffer_size)
+     || (*size > 0 && pb->buffer_read_offset >= pb->input_buffer_size))
     {
         return ERROR_PSOCK_READ_EOF;
     }
-- 
2.43.0


From 1f89a97fd996a2534cea4a506864878d7590ce42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 23/64] fix: a blocking read from a descriptor must read all of
 the requested bytes

---
 src/psock/psock_from_descriptor_read.c | 41 +++++++++++++++++++-------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/psock/psock_from_descriptor_read.c b/src/psock/psock_from_descriptor_read.c
index 5b39baf..7922cd1 100644
--- a/src/psock/psock_from_descriptor_read.c
+++ b/src/psock/psock_from_descriptor_read.c
@@ -33,7 +33,6 @@ status RCPR_SYM(psock_from_descriptor_read)(
     RCPR_SYM(psock)* sock, void* ctx, void* data, size_t* size, bool block)
 {
     (void)ctx;
-    (void)block;
 
     /* parameter sanity checks. */
     RCPR_MODEL_ASSERT(prop_psock_valid(sock));
@@ -44,22 +43,42 @@ status RCPR_SYM(psock_from_descriptor_read)(
     /* convert this to a psock_from_descriptor. */
     psock_from_descriptor* s = (psock_from_descriptor*)sock;
 
-    /* attempt to read from the descriptor. */
-    ssize_t retval = read(s->descriptor, data, *size);
-    if (retval < 0)
+    /* a stream may deliver its data in pieces, so, if block is set, keep reading
+     * until the buffer is full or the end of the stream is reached. */
+    uint8_t* ptr = (uint8_t*)data;
+    size_t total = 0;
+    ssize_t retval;
+    do
     {
-        if (EAGAIN == errno || EWOULDBLOCK == errno)
+        /* attempt to read from the descriptor. */
+        retval = read(s->descriptor, ptr + total, *size - total);
+        if (retval < 0)
         {
-            return ERROR_PSOCK_READ_WOULD_BLOCK;
-        }
-        else
-        {
-            return ERROR_PSOCK_READ_GENERAL;
+            if (EAGAIN == errno || EWOULDBLOCK == errno)
+            {
+                /* don't lose the bytes that have already been read. */
+                if (total > 0)
+                {
+                    break;
+                }
+
+                return ERROR_PSOCK_READ_WOULD_BLOCK;
+            }
+            else
+            {
+                return ERROR_PSOCK_READ_GENERAL;
+            }
         }
+
+        /* update the number of bytes read. */
+        total += (size_t)retval;
     }
+    while (
+        block && retval > 0 && total < *size
+     && PSOCK_SOCKET_TYPE_DATAGRAM != sock->socktype);
 
     /* save the size read. */
-    *size = (size_t)retval;
+    *size = total;
 
     /* success, but the read might have been truncated; that's up to the
      * caller to sort out.
-- 
2.43.0


From eda321adcb049b4297db978b0b7acb51c5a575b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 24/64] fix: a non-blocking async read must not lose data at
 the end of the stream

---
 src/psock/psock_wrap_async_read.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/psock/psock_wrap_async_read.c b/src/psock/psock_wrap_async_read.c
index 9f3c049..d746b2e 100644
--- a/src/psock/psock_wrap_async_read.c
+++ b/src/psock/psock_wrap_async_read.c
@@ -95,15 +95,17 @@ status RCPR_SYM(psock_wrap_async_read)(
                 return retval;
             }
         }
-        /* if a different error occurred in the read, return it.*/
+        /* if a different error occurred in the read, return it, unless there is
+         * data to return first. */
         else if (STATUS_SUCCESS != retval)
         {
-            return retval;
+            return (!block && *size > 0) ? STATUS_SUCCESS : retval;
         }
         /* if no data was read, then the peer closed the socket. */
         else if (0 == tmp_size)
         {
-            return ERROR_PSOCK_READ_EOF;
+            return
+                (!block && *size > 0) ? STATUS_SUCCESS : ERROR_PSOCK_READ_EOF;
         }
 
         /* update size and offset. */
-- 
2.43.0


From 6bb20c0065e131e9dc12653ccfbccf2c37a26a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:40 +0000
Subject: [PATCH 25/64] fix: a buffered reader must wait for an async socket
 and must not lose buffered data

---
 src/psock/psock_br_fill.c       | 38 +++++++++++++++++++++++++++------
 src/psock/psock_br_psock_read.c |  4 ++--
 src/psock/psock_br_read_line.c  |  2 +-
 src/psock/psock_internal.h      |  8 ++++---
 4 files changed, 40 insertions(+), 12 deletions(-)

diff --git a/src/psock/psock_br_fill.c b/src/psock/psock_br_fill.c
index 205e2d2..1ae8a02 100644
--- a/src/psock/psock_br_fill.c
+++ b/src/psock/psock_br_fill.c
@@ -20,13 +20,15 @@ RCPR_IMPORT_resource;
  * psock can provide in a non-blocking read.
  *
  * \param br            The \ref psock_br instance to fill.
+ * \param block         If the backing \ref psock is asynchronous, wait until it
+ *                      has data to provide.
  *
  * \returns a status code indicating success or failure.
  *      - STATUS_SUCCESS on success.
  *      - an error code indicating a specific failure condition.
  */
 status RCPR_SYM(psock_br_fill)(
-    RCPR_SYM(psock_br)* br)
+    RCPR_SYM(psock_br)* br, bool block)
 {
     status retval;
     const psock_vtable* wrapped_vtable;
@@ -59,11 +61,35 @@ status RCPR_SYM(psock_br_fill)(
     }
 
     /* read as many bytes as we can from the wrapped socket. */
-    size_t read_bytes = br->max_size - br->current_size;
-    retval =
-        wrapped_vtable->read_fn(
-            br->wrapped, br->wrapped->context, br->buffer + br->current_size,
-            &read_bytes, false);
+    size_t read_bytes;
+    for (;;)
+    {
+        read_bytes = br->max_size - br->current_size;
+        retval =
+            wrapped_vtable->read_fn(
+                br->wrapped, br->wrapped->context,
+                br->buffer + br->current_size, &read_bytes, false);
+
+#ifdef HAS_PSOCK_ASYNC
+        /* an async socket has to yield until it is readable. */
+        if (ERROR_PSOCK_READ_WOULD_BLOCK == retval && block
+         && PSOCK_TYPE_WRAP_ASYNC == br->wrapped->type)
+        {
+            retval = psock_read_block(br->wrapped);
+            if (STATUS_SUCCESS != retval)
+            {
+                goto done;
+            }
+
+            continue;
+        }
+#else
+        (void)block;
+#endif
+
+        break;
+    }
+
     if (STATUS_SUCCESS != retval)
     {
         goto done;
diff --git a/src/psock/psock_br_psock_read.c b/src/psock/psock_br_psock_read.c
index ea8e8af..4348db1 100644
--- a/src/psock/psock_br_psock_read.c
+++ b/src/psock/psock_br_psock_read.c
@@ -52,8 +52,8 @@ status RCPR_SYM(psock_br_psock_read)(
         /* attempt to fill the buffer if we don't have enough bytes. */
         if (available_bytes < requested_bytes)
         {
-            retval = psock_br_fill(br);
-            if (STATUS_SUCCESS != retval)
+            retval = psock_br_fill(br, block);
+            if (STATUS_SUCCESS != retval && (block || 0 == available_bytes))
             {
                 /* update size with the number of read bytes. */
                 *size = read_bytes;
diff --git a/src/psock/psock_br_read_line.c b/src/psock/psock_br_read_line.c
index c098a91..8440368 100644
--- a/src/psock/psock_br_read_line.c
+++ b/src/psock/psock_br_read_line.c
@@ -158,7 +158,7 @@ RCPR_SYM(psock_br_read_line)(
             /* attempt to fill the buffer, if the error flag is not set. */
             if (!br->error)
             {
-                retval = psock_br_fill(br);
+                retval = psock_br_fill(br, true);
                 if (STATUS_SUCCESS != retval)
                 {
                     /* if we encounter an error, set the error flag. */
diff --git a/src/psock/psock_internal.h b/src/psock/psock_internal.h
index bc03c6b..800f863 100644
--- a/src/psock/psock_internal.h
+++ b/src/psock/psock_internal.h
@@ -567,13 +567,15 @@ status RCPR_SYM(psock_br_psock_recvmsg)(
  * psock can provide in a non-blocking read.
  *
  * \param br            The \ref psock_br instance to fill.
+ * \param block         If the backing \ref psock is asynchronous, wait until it
+ *                      has data to provide.
  *
  * \returns a status code indicating success or failure.
  *      - STATUS_SUCCESS on success.
  *      - an error code indicating a specific failure condition.
  */
 status RCPR_SYM(psock_br_fill)(
-    RCPR_SYM(psock_br)* br);
+    RCPR_SYM(psock_br)* br, bool block);
 
 /**
  * \brief Release a psock_br resource.
@@ -698,8 +700,8 @@ status RCPR_SYM(psock_br_release)(RCPR_SYM(resource)* r);
         RCPR_SYM(psock)* v, void* w, struct msghdr* x, size_t* y, int z) { \
             return RCPR_SYM(psock_br_psock_recvmsg)(v,w,x,y,z); } \
     static inline status psock_br_fill( \
-        RCPR_SYM(psock_br)* x) { \
-            return RCPR_SYM(psock_br_fill)(x); }\
+        RCPR_SYM(psock_br)* x, bool y) { \
+            return RCPR_SYM(psock_br_fill)(x,y); }\
     static inline status psock_br_release( \
         RCPR_SYM(resource)* x) { \
             return RCPR_SYM(psock_br_release)(x); } \
-- 
2.43.0


From 451a94e5f15334498879cdd0c0dcc7e7e2bacd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:25 +0000
Subject: [PATCH 26/64] fix: fiber_discipline_yield must refuse an event just
 past the last callback

---
 src/fiber/common/fiber_discipline_yield.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fiber/common/fiber_discipline_yield.c b/src/fiber/common/fiber_discipline_yield.c
index 1a707ec..6e06d18 100644
--- a/src/fiber/common/fiber_discipline_yield.c
+++ b/src/fiber/common/fiber_discipline_yield.c
@@ -62,7 +62,7 @@ RCPR_SYM(fiber_discipline_yield)(
     size_t yield_offset = (size_t)yield_event;
 
     /* bounds checking. */
-    if (yield_offset > disc->callback_vector_size)
+    if (yield_offset >= disc->callback_vector_size)
     {
         return ERROR_FIBER_SCHEDULER_BAD_YIELD_EVENT;
     }
-- 
2.43.0


From 5544d79fa3f0420ba2de1cc3e70588f5384c84f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 27/64] fix: fiber_scheduler_create_with_disciplines must
 report a failed queue creation

---
 src/fiber/common/fiber_scheduler_create_with_disciplines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index bff433b..9c49c3b 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -349,7 +349,7 @@ cleanup_disciplines_by_uuid:
     /* this should always succeed. */
     RCPR_MODEL_ASSERT(STATUS_SUCCESS == release_retval);
     /* runtime assurance: bubble up the error. */
-    if (STATUS_SUCCESS != retval)
+    if (STATUS_SUCCESS != release_retval)
     {
         retval = release_retval;
     }
-- 
2.43.0


From 628c8da11b163041c8f78ad7aaf155ad04d5d7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:00 +0000
Subject: [PATCH 28/64] fix: releasing a disciplined scheduler must reclaim its
 context

---
 .../common/fiber_scheduler_create_with_disciplines.c      | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index 9c49c3b..a0d9fe6 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -492,6 +492,7 @@ static status fiber_scheduler_disciplined_context_resource_release(resource* r)
     status idle_fiber_retval = STATUS_SUCCESS;
     status callback_vector_retval = STATUS_SUCCESS;
     status context_vector_retval = STATUS_SUCCESS;
+    status context_retval = STATUS_SUCCESS;
 
     /* recover the context type. */
     fiber_scheduler_disciplined_context* ctx =
@@ -550,6 +551,9 @@ static status fiber_scheduler_disciplined_context_resource_release(resource* r)
         context_vector_retval = allocator_reclaim(alloc, ctx->context_vector);
     }
 
+    /* reclaim the context memory. */
+    context_retval = allocator_reclaim(alloc, ctx);
+
     /* check the error codes from each of the release / reclaim operations,
      * bubbling up the first error to the caller, or STATUS_SUCCESS if
      * everything succeeded. */
@@ -577,6 +581,10 @@ static status fiber_scheduler_disciplined_context_resource_release(resource* r)
     {
         return context_vector_retval;
     }
+    else if (STATUS_SUCCESS != context_retval)
+    {
+        return context_retval;
+    }
     else
     {
         return STATUS_SUCCESS;
-- 
2.43.0


From 4d0b7bde1fae5079f9079227d2fe2a32b09e1ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:00 +0000
Subject: [PATCH 29/64] fix: aborting the creation of a disciplined scheduler
 must not crash

---
 .../common/fiber_scheduler_create_with_disciplines.c   | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index a0d9fe6..f2f491d 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -988,10 +988,12 @@ static status fiber_scheduler_disciplined_resource_release_callback_handler(
     (void)yield_param;
 
     /* insert the yielding fiber into the beginning of the run queue. */
-    return
-        disciplined_fiber_scheduler_set_next_fiber_to_run(
-            ctx->sched, yield_fib, &FIBER_SCHEDULER_INTERNAL_DISCIPLINE,
-            FIBER_SCHEDULER_RESUME_EVENT_RESOURCE_RELEASE, NULL);
+    /* note: ctx->sched is not yet set if this is an aborted creation. */
+    yield_fib->restore_discipline_id = &FIBER_SCHEDULER_INTERNAL_DISCIPLINE;
+    yield_fib->restore_reason_code =
+        FIBER_SCHEDULER_RESUME_EVENT_RESOURCE_RELEASE;
+    yield_fib->restore_param = NULL;
+    return queue_insert(ctx->run_queue, fiber_resource_handle(yield_fib));
 }
 
 /**
-- 
2.43.0


From 85268a89e67573df0109d961d0c4a8088bc30287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 30/64] fix: fiber_scheduler_discipline_add must not keep a
 discipline it failed to add

---
 .../common/fiber_scheduler_discipline_add.c   | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/fiber/common/fiber_scheduler_discipline_add.c b/src/fiber/common/fiber_scheduler_discipline_add.c
index 0d466d4..4f80afa 100644
--- a/src/fiber/common/fiber_scheduler_discipline_add.c
+++ b/src/fiber/common/fiber_scheduler_discipline_add.c
@@ -87,16 +87,6 @@ RCPR_SYM(fiber_scheduler_discipline_add)(
         return ERROR_FIBER_SCHEDULER_DUPLICATE_DISCIPLINE_ID;
     }
  
-    /* add this discipline to the discipline tree. */
-    retval =
-        rbtree_insert(
-            ctx->disciplines_by_uuid,
-            fiber_scheduler_discipline_resource_handle(disc));
-    if (STATUS_SUCCESS != retval)
-    {
-        return retval;
-    }
-
     /* create or reallocate the callback vector to hold these callbacks. */
     size_t callback_offset = ctx->callback_vector_size;
     if (NULL == ctx->callback_vector)
@@ -144,6 +134,16 @@ RCPR_SYM(fiber_scheduler_discipline_add)(
         return retval;
     }
 
+    /* add this discipline to the discipline tree. */
+    retval =
+        rbtree_insert(
+            ctx->disciplines_by_uuid,
+            fiber_scheduler_discipline_resource_handle(disc));
+    if (STATUS_SUCCESS != retval)
+    {
+        return retval;
+    }
+
     /* update the callback vector size. */
     ctx->callback_vector_size += disc->callback_vector_size;
 
-- 
2.43.0


From b4092d669ea4e2bc5ab6b38f7dd11de7a89a1be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 31/64] fix: a fiber that falls off its entry point must exit,
 not crash

---
 src/fiber/platform/sysv/x86_64/fiber_make.s | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fiber/platform/sysv/x86_64/fiber_make.s b/src/fiber/platform/sysv/x86_64/fiber_make.s
index 19e5bee..ab001ad 100644
--- a/src/fiber/platform/sysv/x86_64/fiber_make.s
+++ b/src/fiber/platform/sysv/x86_64/fiber_make.s
@@ -102,7 +102,7 @@ trampoline:
 
 finish:
     # exit code is non-zero.
-    mov 0x1, %rdi
+    mov $0x1, %rdi
     # exit application.
     call  _exit@PLT
     hlt
-- 
2.43.0


From 77673a385a651c2d22792ed7a32211c39737267f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 32/64] fix: fiber constructors must set their output to NULL
 on failure, as documented

---
 src/fiber/common/fiber_create.c                            | 3 +++
 src/fiber/common/fiber_create_for_thread.c                 | 3 +++
 src/fiber/common/fiber_scheduler_create.c                  | 3 +++
 src/fiber/common/fiber_scheduler_create_with_disciplines.c | 3 +++
 src/fiber/common/fiber_scheduler_discipline_create.c       | 3 +++
 5 files changed, 15 insertions(+)

diff --git a/src/fiber/common/fiber_create.c b/src/fiber/common/fiber_create.c
index 18bd1cf..1506574 100644
--- a/src/fiber/common/fiber_create.c
+++ b/src/fiber/common/fiber_create.c
@@ -83,6 +83,9 @@ RCPR_SYM(fiber_create)(
     RCPR_MODEL_ASSERT(stack_size > 0);
     RCPR_MODEL_ASSERT(NULL != fn);
 
+    /* the output is NULL on failure. */
+    *fib = NULL;
+
     /* attempt to allocate memory for this fiber. */
     retval = allocator_allocate(a, (void**)&tmp, sizeof(fiber));
     if (STATUS_SUCCESS != retval)
diff --git a/src/fiber/common/fiber_create_for_thread.c b/src/fiber/common/fiber_create_for_thread.c
index 137692d..01685b8 100644
--- a/src/fiber/common/fiber_create_for_thread.c
+++ b/src/fiber/common/fiber_create_for_thread.c
@@ -72,6 +72,9 @@ RCPR_SYM(fiber_create_for_thread)(
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
     RCPR_MODEL_ASSERT(NULL != fib);
 
+    /* the output is NULL on failure. */
+    *fib = NULL;
+
     /* attempt to allocate memory for this fiber. */
     retval = allocator_allocate(a, (void**)&tmp, sizeof(fiber));
     if (STATUS_SUCCESS != retval)
diff --git a/src/fiber/common/fiber_scheduler_create.c b/src/fiber/common/fiber_scheduler_create.c
index b597700..34434b5 100644
--- a/src/fiber/common/fiber_scheduler_create.c
+++ b/src/fiber/common/fiber_scheduler_create.c
@@ -78,6 +78,9 @@ RCPR_SYM(fiber_scheduler_create)(
     RCPR_MODEL_ASSERT(NULL != sched);
     RCPR_MODEL_ASSERT(NULL != fn);
 
+    /* the output is NULL on failure. */
+    *sched = NULL;
+
     /* attempt to allocate memory for this fiber_scheduler. */
     retval = allocator_allocate(a, (void**)&tmp, sizeof(fiber_scheduler));
     if (STATUS_SUCCESS != retval)
diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index f2f491d..54caf00 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -138,6 +138,9 @@ RCPR_SYM(fiber_scheduler_create_with_disciplines)(
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
     RCPR_MODEL_ASSERT(NULL != sched);
 
+    /* the output is NULL on failure. */
+    *sched = NULL;
+
     /* attempt to allocate memory for the fiber scheduler context. */
     retval =
         allocator_allocate(
diff --git a/src/fiber/common/fiber_scheduler_discipline_create.c b/src/fiber/common/fiber_scheduler_discipline_create.c
index a58f98e..42f6cfa 100644
--- a/src/fiber/common/fiber_scheduler_discipline_create.c
+++ b/src/fiber/common/fiber_scheduler_discipline_create.c
@@ -86,6 +86,9 @@ RCPR_SYM(fiber_scheduler_discipline_create)(
             callback_vector,
             callbacks * sizeof(fiber_scheduler_discipline_callback_fn)));
 
+    /* the output is NULL on failure. */
+    *disc = NULL;
+
     /* attempt to allocate memory for this fiber scheduler discipline. */
     retval =
         allocator_allocate(alloc, (void**)&tmp,
-- 
2.43.0


From c496def25b8a7f61eeace69fe9b481d5fc05bce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:53 +0000
Subject: [PATCH 33/64] fix: a fiber that could not be added must not stay in
 the run queue

---
 .../fiber_scheduler_create_with_disciplines.c | 70 ++++++++++++-------
 1 file changed, 44 insertions(+), 26 deletions(-)

diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index 54caf00..80d9acc 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -829,7 +829,8 @@ static status fiber_scheduler_disciplined_main_callback_handler(
 static status fiber_scheduler_disciplined_add_fiber_callback_handler(
     void* context, fiber* yield_fib, int yield_event, void* yield_param)
 {
-    status retval;
+    status retval, undo_retval;
+    resource* dummy = NULL;
     fiber_scheduler_disciplined_context* ctx =
         (fiber_scheduler_disciplined_context*)context;
     fiber* new_fib = (fiber*)yield_param;
@@ -851,25 +852,6 @@ static status fiber_scheduler_disciplined_add_fiber_callback_handler(
         return retval;
     }
 
-    /* append this fiber to the run queue. */
-    retval =
-        disciplined_fiber_scheduler_add_fiber_to_run_queue(
-            ctx->sched, new_fib, &FIBER_SCHEDULER_INTERNAL_DISCIPLINE,
-            FIBER_SCHEDULER_RESUME_EVENT_ADD_FIBER, NULL);
-    if (STATUS_SUCCESS != retval)
-    {
-        /* remove the fiber from the tree before returning an error status. */
-        resource* dummy = NULL;
-        status delete_retval = rbtree_delete(
-            &dummy, ctx->fibers_by_pointer, fiber_resource_handle(new_fib));
-
-        /* return the last error code to occur. */
-        if (STATUS_SUCCESS != delete_retval)
-            return delete_retval;
-        else
-            return retval;
-    }
-
     /* insert the yielding fiber into the beginning of the run queue. */
     retval =
         disciplined_fiber_scheduler_set_next_fiber_to_run(
@@ -877,9 +859,7 @@ static status fiber_scheduler_disciplined_add_fiber_callback_handler(
             FIBER_SCHEDULER_RESUME_EVENT_ADD_FIBER, NULL);
     if (STATUS_SUCCESS != retval)
     {
-        /* bubble up the error. */
-        /* TODO - deal with ownership issues for added fiber. */
-        return retval;
+        goto remove_fiber;
     }
 
     /* if the management fiber exists, */
@@ -894,15 +874,53 @@ static status fiber_scheduler_disciplined_add_fiber_callback_handler(
                 new_fib);
         if (STATUS_SUCCESS != retval)
         {
-            return retval;
+            goto dequeue_yield_fiber;
         }
+    }
 
-        /* clear the management fiber until it yields again. */
-        ctx->management_fiber = NULL;
+    /* append this fiber to the run queue. */
+    retval =
+        disciplined_fiber_scheduler_add_fiber_to_run_queue(
+            ctx->sched, new_fib, &FIBER_SCHEDULER_INTERNAL_DISCIPLINE,
+            FIBER_SCHEDULER_RESUME_EVENT_ADD_FIBER, NULL);
+    if (STATUS_SUCCESS != retval)
+    {
+        goto dequeue_management_fiber;
     }
 
+    /* clear the management fiber until it yields again. */
+    ctx->management_fiber = NULL;
+
     /* success. */
     return STATUS_SUCCESS;
+
+dequeue_management_fiber:
+    if (NULL != ctx->management_fiber)
+    {
+        undo_retval = queue_pop(ctx->run_queue, &dummy);
+        if (STATUS_SUCCESS != undo_retval)
+        {
+            retval = undo_retval;
+        }
+    }
+
+dequeue_yield_fiber:
+    undo_retval = queue_pop(ctx->run_queue, &dummy);
+    if (STATUS_SUCCESS != undo_retval)
+    {
+        retval = undo_retval;
+    }
+
+remove_fiber:
+    undo_retval =
+        rbtree_delete(
+            &dummy, ctx->fibers_by_pointer, fiber_resource_handle(new_fib));
+    if (STATUS_SUCCESS != undo_retval)
+    {
+        retval = undo_retval;
+    }
+
+    return retval;
 }
 
 /**
-- 
2.43.0


From 7e493e607c40ffc9c2e3c5635c3e0c4f4a5091ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:53 +0000
Subject: [PATCH 34/64] fix: a failed quiesce or terminate request must not
 leave its sender in the run queue

---
 .../common/fiber_scheduler_create_with_disciplines.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index 80d9acc..ba0338b 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -1116,7 +1116,11 @@ fiber_scheduler_disciplined_management_quiesce_event_callback_handler(
             NULL);
         if (STATUS_SUCCESS != retval)
         {
-            return retval;
+            /* the yielding fiber is not resumed through the run queue. */
+            resource* dummy = NULL;
+            status undo_retval = queue_pop(ctx->run_queue, &dummy);
+            return
+                STATUS_SUCCESS != undo_retval ? undo_retval : retval;
         }
     }
 
@@ -1187,7 +1191,11 @@ fiber_scheduler_disciplined_management_terminate_event_callback_handler(
             NULL);
         if (STATUS_SUCCESS != retval)
         {
-            return retval;
+            /* the yielding fiber is not resumed through the run queue. */
+            resource* dummy = NULL;
+            status undo_retval = queue_pop(ctx->run_queue, &dummy);
+            return
+                STATUS_SUCCESS != undo_retval ? undo_retval : retval;
         }
     }
 
-- 
2.43.0


From 6d4d49efecbf0c1cadc0b81d8fc411e37d6b1270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 35/64] fix: creating a mailbox or a conditional must not
 report success when memory runs out

---
 .../fiber/condition_discipline_create_callback_handler.c        | 2 +-
 .../message_discipline_mailbox_create_callback_handler.c        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/condition/fiber/condition_discipline_create_callback_handler.c b/src/condition/fiber/condition_discipline_create_callback_handler.c
index a88d53a..27b04e8 100644
--- a/src/condition/fiber/condition_discipline_create_callback_handler.c
+++ b/src/condition/fiber/condition_discipline_create_callback_handler.c
@@ -79,7 +79,7 @@ status RCPR_SYM(condition_discipline_create_callback_handler)(
 
 cleanup_condition_barrier:
     release_retval = resource_release(&tmp->hdr);
-    if (STATUS_SUCCESS != retval)
+    if (STATUS_SUCCESS != release_retval)
     {
         retval = release_retval;
     }
diff --git a/src/message/message_discipline_mailbox_create_callback_handler.c b/src/message/message_discipline_mailbox_create_callback_handler.c
index 80080bf..122377b 100644
--- a/src/message/message_discipline_mailbox_create_callback_handler.c
+++ b/src/message/message_discipline_mailbox_create_callback_handler.c
@@ -79,7 +79,7 @@ status RCPR_SYM(message_discipline_mailbox_create_callback_handler)(
 
 cleanup_mailbox:
     release_retval = resource_release(&tmp->hdr);
-    if (STATUS_SUCCESS != retval)
+    if (STATUS_SUCCESS != release_retval)
     {
         retval = release_retval;
     }
-- 
2.43.0


From 38c09af1bc947970c3592bb8bdc7cee481c3ad8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 36/64] fix: a message that could not be sent must stay with
 its sender only

---
 ...discipline_message_send_callback_handler.c | 58 ++++++++-----------
 1 file changed, 24 insertions(+), 34 deletions(-)

diff --git a/src/message/message_discipline_message_send_callback_handler.c b/src/message/message_discipline_message_send_callback_handler.c
index 50680f4..871c3aa 100644
--- a/src/message/message_discipline_message_send_callback_handler.c
+++ b/src/message/message_discipline_message_send_callback_handler.c
@@ -10,6 +10,7 @@
 #include <rcpr/model_assert.h>
 #include <string.h>
 
+#include "../fiber/common/fiber_internal.h"
 #include "message_internal.h"
 
 RCPR_IMPORT_fiber;
@@ -68,14 +69,7 @@ status RCPR_SYM(message_discipline_message_send_callback_handler)(
     /* mailbox sanity check. */
     RCPR_MODEL_ASSERT(prop_mailbox_valid(mbox));
 
-    /* append the message to the end of the mail queue. */
-    retval = queue_append(mbox->message_queue, &msg->hdr);
-    if (STATUS_SUCCESS != retval)
-    {
-        goto resume_fail;
-    }
-
-    /* message sent, so tell the original fiber to restart. */
+    /* tell the original fiber to restart once the message has been sent. */
     retval =
         disciplined_fiber_scheduler_set_next_fiber_to_run(
             ctx->sched, yield_fib, &FIBER_SCHEDULER_MESSAGE_DISCIPLINE,
@@ -86,41 +80,37 @@ status RCPR_SYM(message_discipline_message_send_callback_handler)(
         return retval;
     }
 
-    /* if there is a blocked fiber on this mailbox, set it as the next fiber to
-     * run. */
+    /* if there is a blocked fiber on this mailbox, its message queue is empty,
+     * so set it as the next fiber to run and give it this message. */
     if (NULL != mbox->blocked_fiber)
     {
-        fiber* receive_fiber = mbox->blocked_fiber;
-        mbox->blocked_fiber = NULL;
-
-        /* pop the next message off of the queue. */
-        resource* msgresource;
-        retval = queue_pop(mbox->message_queue, &msgresource);
-        if (STATUS_SUCCESS != retval)
-        {
-            resume_event =
-                FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_FAILURE;
-            resume_param = (void*)((ptrdiff_t)retval);
-        }
-        else
+        retval =
+            disciplined_fiber_scheduler_set_next_fiber_to_run(
+                ctx->sched, mbox->blocked_fiber,
+                &FIBER_SCHEDULER_MESSAGE_DISCIPLINE,
+                FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_SUCCESS,
+                &msg->hdr);
+        if (STATUS_SUCCESS == retval)
         {
-            resume_event =
-                FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_SUCCESS;
-            resume_param = msgresource;
+            mbox->blocked_fiber = NULL;
         }
-
-        return
-            disciplined_fiber_scheduler_set_next_fiber_to_run(
-                ctx->sched, receive_fiber,
-                &FIBER_SCHEDULER_MESSAGE_DISCIPLINE, resume_event,
-                resume_param);
     }
-    /* otherwise, leave the message on the queue. */
+    /* otherwise, append the message to the end of the mail queue. */
     else
     {
-        return STATUS_SUCCESS;
+        retval = queue_append(mbox->message_queue, &msg->hdr);
+    }
+
+    /* if the message was not sent, it still belongs to the sender. */
+    if (STATUS_SUCCESS != retval)
+    {
+        yield_fib->restore_reason_code =
+            FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_SEND_FAILURE;
+        yield_fib->restore_param = (void*)((ptrdiff_t)retval);
     }
 
+    return STATUS_SUCCESS;
+
 resume_fail:
     resume_event = FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_SEND_FAILURE;
     resume_param = (void*)((ptrdiff_t)retval);
-- 
2.43.0


From 4e46efd90a8b837685c97f2f8b5420cf5f41cb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 37/64] fix: a message must not be lost when its receiver
 cannot be resumed

---
 ...cipline_message_receive_callback_handler.c | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/message/message_discipline_message_receive_callback_handler.c b/src/message/message_discipline_message_receive_callback_handler.c
index 8333644..591725b 100644
--- a/src/message/message_discipline_message_receive_callback_handler.c
+++ b/src/message/message_discipline_message_receive_callback_handler.c
@@ -10,6 +10,7 @@
 #include <rcpr/model_assert.h>
 #include <string.h>
 
+#include "../fiber/common/fiber_internal.h"
 #include "message_internal.h"
 
 RCPR_IMPORT_fiber;
@@ -78,33 +79,41 @@ status RCPR_SYM(message_discipline_message_receive_callback_handler)(
     /* otherwise, give the next queue message to the fiber. */
     else
     {
+        /* resume this fiber with the first message. */
+        retval =
+            disciplined_fiber_scheduler_set_next_fiber_to_run(
+                ctx->sched, yield_fib, &FIBER_SCHEDULER_MESSAGE_DISCIPLINE,
+                FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_SUCCESS,
+                NULL);
+        if (STATUS_SUCCESS != retval)
+        {
+            /* the message remains in the queue. */
+            return retval;
+        }
+
         /* pop the first message off of the queue. */
         resource* msgresource;
         retval = queue_pop(mbox->message_queue, &msgresource);
         if (STATUS_SUCCESS != retval)
         {
             /* couldn't pop a message off of the queue. */
-            resume_event =
+            yield_fib->restore_reason_code =
                 FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_FAILURE;
-            resume_param = (void*)((ptrdiff_t)retval);
+            yield_fib->restore_param = (void*)((ptrdiff_t)retval);
         }
         else
         {
             /* encode the popped message in the resume arguments. */
-            resume_event =
-                FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_SUCCESS;
-            resume_param = msgresource;
+            yield_fib->restore_param = msgresource;
         }
 
-        /* resume the thread. */
-        goto done;
+        return STATUS_SUCCESS;
     }
 
 resume_fail:
     resume_event = FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_FAILURE;
     resume_param = (void*)((ptrdiff_t)retval);
 
-done:
     return
         disciplined_fiber_scheduler_set_next_fiber_to_run(
             ctx->sched, yield_fib, &FIBER_SCHEDULER_MESSAGE_DISCIPLINE,
-- 
2.43.0


From ed0bd6a3788e39190abc46516317b3e676a95461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 38/64] fix: closing a mailbox must resume the fiber that is
 blocked on it

---
 ...iscipline_mailbox_close_callback_handler.c | 26 +++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/message/message_discipline_mailbox_close_callback_handler.c b/src/message/message_discipline_mailbox_close_callback_handler.c
index 06a93df..9b1c4fc 100644
--- a/src/message/message_discipline_mailbox_close_callback_handler.c
+++ b/src/message/message_discipline_mailbox_close_callback_handler.c
@@ -16,6 +16,7 @@ RCPR_IMPORT_fiber;
 RCPR_IMPORT_message;
 RCPR_IMPORT_message_internal;
 RCPR_IMPORT_rbtree;
+RCPR_IMPORT_resource;
 
 /**
  * \brief The callback handler for a close mailbox request.
@@ -34,6 +35,7 @@ status RCPR_SYM(message_discipline_mailbox_close_callback_handler)(
     void* yield_param)
 {
     status retval;
+    mailbox* mbox;
     int resume_event;
     void* resume_param;
 
@@ -48,6 +50,30 @@ status RCPR_SYM(message_discipline_mailbox_close_callback_handler)(
     RCPR_MODEL_ASSERT(prop_message_discipline_context_valid(ctx));
     RCPR_MODEL_ASSERT(addr > 0);
 
+    /* look up the mailbox. */
+    retval = rbtree_find((resource**)&mbox, ctx->mailboxes, &addr);
+    if (STATUS_SUCCESS != retval)
+    {
+        goto resume_fail;
+    }
+
+    /* a fiber blocked on this mailbox can no longer receive a message. */
+    if (NULL != mbox->blocked_fiber)
+    {
+        retval =
+            disciplined_fiber_scheduler_add_fiber_to_run_queue(
+                ctx->sched, mbox->blocked_fiber,
+                &FIBER_SCHEDULER_MESSAGE_DISCIPLINE,
+                FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_FAILURE,
+                (void*)((ptrdiff_t)ERROR_RBTREE_NOT_FOUND));
+        if (STATUS_SUCCESS != retval)
+        {
+            goto resume_fail;
+        }
+
+        mbox->blocked_fiber = NULL;
+    }
+
     /* Attempt to delete the mailbox. */
     retval = rbtree_delete(NULL, ctx->mailboxes, &addr);
     if (STATUS_SUCCESS != retval)
-- 
2.43.0


From 5e93cd2fb03afa737279ddd6e61f9a82220a15ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:10 +0000
Subject: [PATCH 39/64] fix: a notified fiber must not be lost when it cannot
 be resumed

---
 ...n_discipline_notify_all_callback_handler.c | 25 +++++++++++++------
 ...n_discipline_notify_one_callback_handler.c | 25 +++++++++++++------
 2 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/src/condition/fiber/condition_discipline_notify_all_callback_handler.c b/src/condition/fiber/condition_discipline_notify_all_callback_handler.c
index b442ae1..02351fe 100644
--- a/src/condition/fiber/condition_discipline_notify_all_callback_handler.c
+++ b/src/condition/fiber/condition_discipline_notify_all_callback_handler.c
@@ -63,16 +63,21 @@ status RCPR_SYM(condition_discipline_notify_all_callback_handler)(
     /* for every waiting fiber... */
     while (slist_count(cond->wait_list) > 0)
     {
-        /* get a waiting fiber. */
+        /* get the first waiting fiber. */
+        slist_node* node;
         fiber* fib;
-        retval = slist_pop(cond->wait_list, (resource**)&fib);
+        retval = slist_head(&node, cond->wait_list);
         if (STATUS_SUCCESS != retval)
         {
-            /* skip failures. */
-            continue;
+            goto resume_fail;
+        }
+        retval = slist_node_child((resource**)&fib, node);
+        if (STATUS_SUCCESS != retval)
+        {
+            goto resume_fail;
         }
 
-        /* resume the waiting fiber. */
+        /* resume the waiting fiber.  On failure, it is still waiting. */
         retval =
             disciplined_fiber_scheduler_add_fiber_to_run_queue(
                 ctx->sched, fib, &FIBER_SCHEDULER_CONDITION_DISCIPLINE,
@@ -80,8 +85,14 @@ status RCPR_SYM(condition_discipline_notify_all_callback_handler)(
                 (void*)((ptrdiff_t)STATUS_SUCCESS));
         if (STATUS_SUCCESS != retval)
         {
-            /* skip failures. */
-            continue;
+            goto resume_fail;
+        }
+
+        /* this fiber is no longer waiting. */
+        retval = slist_pop(cond->wait_list, (resource**)&fib);
+        if (STATUS_SUCCESS != retval)
+        {
+            goto resume_fail;
         }
     }
 
diff --git a/src/condition/fiber/condition_discipline_notify_one_callback_handler.c b/src/condition/fiber/condition_discipline_notify_one_callback_handler.c
index fcc16c2..b4285ad 100644
--- a/src/condition/fiber/condition_discipline_notify_one_callback_handler.c
+++ b/src/condition/fiber/condition_discipline_notify_one_callback_handler.c
@@ -63,16 +63,21 @@ status RCPR_SYM(condition_discipline_notify_one_callback_handler)(
     /* are there waiting fibers? */
     if (slist_count(cond->wait_list) > 0)
     {
-        /* get a waiting fiber. */
+        /* get the first waiting fiber. */
+        slist_node* node;
         fiber* fib;
-        retval = slist_pop(cond->wait_list, (resource**)&fib);
+        retval = slist_head(&node, cond->wait_list);
         if (STATUS_SUCCESS != retval)
         {
-            /* skip failures. */
-            goto resume_success;
+            goto resume_fail;
+        }
+        retval = slist_node_child((resource**)&fib, node);
+        if (STATUS_SUCCESS != retval)
+        {
+            goto resume_fail;
         }
 
-        /* resume the waiting fiber. */
+        /* resume the waiting fiber.  On failure, it is still waiting. */
         retval =
             disciplined_fiber_scheduler_add_fiber_to_run_queue(
                 ctx->sched, fib, &FIBER_SCHEDULER_CONDITION_DISCIPLINE,
@@ -80,8 +85,14 @@ status RCPR_SYM(condition_discipline_notify_one_callback_handler)(
                 (void*)((ptrdiff_t)STATUS_SUCCESS));
         if (STATUS_SUCCESS != retval)
         {
-            /* skip failures. */
-            goto resume_success;
+            goto resume_fail;
+        }
+
+        /* this fiber is no longer waiting. */
+        retval = slist_pop(cond->wait_list, (resource**)&fib);
+        if (STATUS_SUCCESS != retval)
+        {
+            goto resume_fail;
         }
     }
 
-- 
2.43.0


From 4441f8edd49eeb38ab7de8613089503f2323abc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:10 +0000
Subject: [PATCH 40/64] fix: closing a conditional must resume the fibers that
 wait on it

---
 ...dition_discipline_close_callback_handler.c | 45 +++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/src/condition/fiber/condition_discipline_close_callback_handler.c b/src/condition/fiber/condition_discipline_close_callback_handler.c
index 1c4fdd4..d265161 100644
--- a/src/condition/fiber/condition_discipline_close_callback_handler.c
+++ b/src/condition/fiber/condition_discipline_close_callback_handler.c
@@ -16,6 +16,8 @@ RCPR_IMPORT_fiber;
 RCPR_IMPORT_condition;
 RCPR_IMPORT_condition_internal;
 RCPR_IMPORT_rbtree;
+RCPR_IMPORT_resource;
+RCPR_IMPORT_slist;
 
 /**
  * \brief The callback handler for a close conditional request.
@@ -34,6 +36,7 @@ status RCPR_SYM(condition_discipline_close_callback_handler)(
     void* yield_param)
 {
     status retval;
+    condition_barrier* barrier;
     int resume_event;
     void* resume_param;
 
@@ -48,6 +51,48 @@ status RCPR_SYM(condition_discipline_close_callback_handler)(
     RCPR_MODEL_ASSERT(prop_condition_discipline_context_valid(ctx));
     RCPR_MODEL_ASSERT(cond > 0);
 
+    /* look up the condition barrier. */
+    retval = rbtree_find((resource**)&barrier, ctx->condition_barriers, &cond);
+    if (STATUS_SUCCESS != retval)
+    {
+        goto resume_fail;
+    }
+
+    /* fibers waiting on this conditional can no longer be notified. */
+    while (slist_count(barrier->wait_list) > 0)
+    {
+        slist_node* node;
+        fiber* fib;
+        retval = slist_head(&node, barrier->wait_list);
+        if (STATUS_SUCCESS != retval)
+        {
+            goto resume_fail;
+        }
+        retval = slist_node_child((resource**)&fib, node);
+        if (STATUS_SUCCESS != retval)
+        {
+            goto resume_fail;
+        }
+
+        /* resume the waiting fiber.  On failure, it is still waiting. */
+        retval =
+            disciplined_fiber_scheduler_add_fiber_to_run_queue(
+                ctx->sched, fib, &FIBER_SCHEDULER_CONDITION_DISCIPLINE,
+                FIBER_SCHEDULER_CONDITION_RESUME_EVENT_WAIT_FAILURE,
+                (void*)((ptrdiff_t)ERROR_RBTREE_NOT_FOUND));
+        if (STATUS_SUCCESS != retval)
+        {
+            goto resume_fail;
+        }
+
+        /* this fiber is no longer waiting. */
+        retval = slist_pop(barrier->wait_list, (resource**)&fib);
+        if (STATUS_SUCCESS != retval)
+        {
+            goto resume_fail;
+        }
+    }
+
     /* Attempt to delete the condition barrier. */
     retval = rbtree_delete(NULL, ctx->condition_barriers, &cond);
     if (STATUS_SUCCESS != retval)
-- 
2.43.0


From 2cbeb15f2259cf9f8b9e46a1189b90d85bd5923e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:10 +0000
Subject: [PATCH 41/64] fix: an interrupted message_receive must not leave its
 fiber blocked on the mailbox

---
 src/message/message_receive.c | 59 +++++++++++++++++++++++++++++++++++
 1 file changed, 59 insertions(+)

diff --git a/src/message/message_receive.c b/src/message/message_receive.c
index efd7b83..de46daf 100644
--- a/src/message/message_receive.c
+++ b/src/message/message_receive.c
@@ -14,8 +14,15 @@
 
 RCPR_IMPORT_fiber;
 RCPR_IMPORT_message;
+RCPR_IMPORT_message_internal;
+RCPR_IMPORT_rbtree;
+RCPR_IMPORT_resource;
 RCPR_IMPORT_uuid;
 
+/* forward decls. */
+static void message_receive_cancel(
+    fiber_scheduler_discipline* msgdisc, mailbox_address recvaddr);
+
 /**
  * \brief Receive a \ref message from the mailbox.
  *
@@ -58,9 +65,20 @@ RCPR_SYM(message_receive)(
             (void*)recvaddr, &resume_id, &resume_event, &resume_param);
     if (STATUS_SUCCESS != retval)
     {
+        /* this fiber is not waiting for a message. */
+        message_receive_cancel(msgdisc, recvaddr);
         return retval;
     }
 
+    /* was this fiber resumed by an event of another discipline? */
+    if (memcmp(
+            resume_id, &FIBER_SCHEDULER_MESSAGE_DISCIPLINE, sizeof(*resume_id)))
+    {
+        message_receive_cancel(msgdisc, recvaddr);
+
+        return ERROR_MESSAGE_UNKNOWN_ERROR;
+    }
+
     /* if the resume event is MESSAGE_RECEIVE_FAILURE, return the error. */
     if (
         FIBER_SCHEDULER_MESSAGE_RESUME_EVENT_MESSAGE_RECEIVE_FAILURE
@@ -82,6 +100,47 @@ RCPR_SYM(message_receive)(
     {
         /* TODO - add support for out-of-band events. */
 
+        /* this fiber is no longer waiting for a message. */
+        message_receive_cancel(msgdisc, recvaddr);
+
         return ERROR_MESSAGE_UNKNOWN_ERROR;
     }
 }
+
+/**
+ * \brief Forget that the current fiber is blocked on the given mailbox.
+ *
+ * \param msgdisc       The messaging discipline.
+ * \param recvaddr      The \ref mailbox_address from which this fiber tried to
+ *                      receive a message.
+ */
+static void message_receive_cancel(
+    fiber_scheduler_discipline* msgdisc, mailbox_address recvaddr)
+{
+    status retval;
+    mailbox* mbox;
+    fiber* fib;
+    message_discipline_context* ctx =
+        (message_discipline_context*)
+            fiber_scheduler_discipline_context_get(msgdisc);
+
+    /* get the current fiber. */
+    retval = disciplined_fiber_scheduler_current_fiber_get(&fib, ctx->sched);
+    if (STATUS_SUCCESS != retval)
+    {
+        return;
+    }
+
+    /* look up the mailbox. */
+    retval = rbtree_find((resource**)&mbox, ctx->mailboxes, &recvaddr);
+    if (STATUS_SUCCESS != retval)
+    {
+        return;
+    }
+
+    /* unblock this fiber. */
+    if (fib == mbox->blocked_fiber)
+    {
+        mbox->blocked_fiber = NULL;
+    }
+}
-- 
2.43.0


From 6302423b32ed0811fcf5efa4326b2cf75b923f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:10 +0000
Subject: [PATCH 42/64] fix: an interrupted conditional_wait must not leave its
 fiber in the wait list

---
 src/condition/conditional_wait.c | 75 ++++++++++++++++++++++++++++++++
 1 file changed, 75 insertions(+)

diff --git a/src/condition/conditional_wait.c b/src/condition/conditional_wait.c
index 5bbbff3..b5a4332 100644
--- a/src/condition/conditional_wait.c
+++ b/src/condition/conditional_wait.c
@@ -14,8 +14,16 @@
 
 RCPR_IMPORT_fiber;
 RCPR_IMPORT_condition;
+RCPR_IMPORT_condition_internal;
+RCPR_IMPORT_rbtree;
+RCPR_IMPORT_resource;
+RCPR_IMPORT_slist;
 RCPR_IMPORT_uuid;
 
+/* forward decls. */
+static void conditional_wait_cancel(
+    fiber_scheduler_discipline* condisc, conditional handle);
+
 /**
  * \brief Wait on a \ref conditional.
  *
@@ -49,9 +57,21 @@ RCPR_SYM(conditional_wait)(
             (void*)handle, &resume_id, &resume_event, &resume_param);
     if (STATUS_SUCCESS != retval)
     {
+        /* this fiber is not waiting. */
+        conditional_wait_cancel(condisc, handle);
         return retval;
     }
 
+    /* was this fiber resumed by an event of another discipline? */
+    if (memcmp(
+            resume_id, &FIBER_SCHEDULER_CONDITION_DISCIPLINE,
+            sizeof(*resume_id)))
+    {
+        conditional_wait_cancel(condisc, handle);
+
+        return ERROR_CONDITION_UNKNOWN_ERROR;
+    }
+
     /* if the resume event is WAIT_FAILURE, return the error. */
     if (FIBER_SCHEDULER_CONDITION_RESUME_EVENT_WAIT_FAILURE == resume_event)
     {
@@ -68,6 +88,61 @@ RCPR_SYM(conditional_wait)(
     {
         /* TODO - add support for out-of-band events. */
 
+        /* this fiber is no longer waiting. */
+        conditional_wait_cancel(condisc, handle);
+
         return ERROR_CONDITION_UNKNOWN_ERROR;
     }
 }
+
+/**
+ * \brief Forget that the current fiber is waiting on the given conditional.
+ *
+ * \param condisc       The condition discipline.
+ * \param handle        The \ref conditional on which this fiber tried to wait.
+ */
+static void conditional_wait_cancel(
+    fiber_scheduler_discipline* condisc, conditional handle)
+{
+    status retval;
+    condition_barrier* cond;
+    fiber* fib;
+    resource* waiter;
+    slist_node* node = NULL;
+    slist_node* prev = NULL;
+    condition_discipline_context* ctx =
+        (condition_discipline_context*)
+            fiber_scheduler_discipline_context_get(condisc);
+
+    /* get the current fiber. */
+    retval = disciplined_fiber_scheduler_current_fiber_get(&fib, ctx->sched);
+    if (STATUS_SUCCESS != retval)
+    {
+        return;
+    }
+
+    /* look up the condition barrier. */
+    retval = rbtree_find((resource**)&cond, ctx->condition_barriers, &handle);
+    if (STATUS_SUCCESS != retval)
+    {
+        return;
+    }
+
+    /* remove this fiber from the list of waiting fibers. */
+    retval = slist_head(&node, cond->wait_list);
+    while (STATUS_SUCCESS == retval && NULL != node)
+    {
+        retval = slist_node_child(&waiter, node);
+        if (STATUS_SUCCESS == retval && waiter == fiber_resource_handle(fib))
+        {
+            retval =
+                NULL == prev
+                    ? slist_pop(cond->wait_list, &waiter)
+                    : slist_node_next_pop(prev, &waiter);
+            return;
+        }
+
+        prev = node;
+        retval = slist_node_next(&node, prev);
+    }
+}
-- 
2.43.0


From 410964029eb600649b11f273e52a07c4fe65989a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 43/64] fix: a fiber that no longer waits for a management
 event must not receive one

When the wait failed because no other fiber could run, or was interrupted by a
request, the fiber stayed registered as the waiting management fiber. The next
fiber that was added or that stopped then put it into the run queue a second
time, so that it was resumed while it was doing something else, or after it had
stopped, which ends the process.
---
 ...plined_fiber_scheduler_receive_management_event.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/fiber/common/disciplined_fiber_scheduler_receive_management_event.c b/src/fiber/common/disciplined_fiber_scheduler_receive_management_event.c
index 01b26ae..2acad7d 100644
--- a/src/fiber/common/disciplined_fiber_scheduler_receive_management_event.c
+++ b/src/fiber/common/disciplined_fiber_scheduler_receive_management_event.c
@@ -45,6 +45,7 @@ RCPR_SYM(disciplined_fiber_scheduler_receive_management_event)(
     RCPR_SYM(fiber_scheduler)* sched, const RCPR_SYM(rcpr_uuid)** resume_id,
     int* resume_event, void** resume_param)
 {
+    status retval;
     fiber_scheduler_disciplined_context* ctx = NULL;
 
     /* parameter sanity checks. */
@@ -58,9 +59,18 @@ RCPR_SYM(disciplined_fiber_scheduler_receive_management_event)(
     ctx = (fiber_scheduler_disciplined_context*)sched->context;
 
     /* Yield with the management discipline yield event to receive an event. */
-    return
+    retval =
         fiber_discipline_yield(
             ctx->management_discipline,
             FIBER_SCHEDULER_MANAGEMENT_YIELD_EVENT_RECEIVE_EVENT,
             NULL, resume_id, resume_event, resume_param);
+
+    /* if this fiber could not wait, or was resumed by something other than a
+     * management event, it no longer waits for a management event. */
+    if (ctx->management_fiber == sched->current_fiber)
+    {
+        ctx->management_fiber = NULL;
+    }
+
+    return retval;
 }
-- 
2.43.0


From b04744fcc240230fb7eb605eb2a20d1eef73e72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:01 +0000
Subject: [PATCH 44/64] fix: an auto-reset trigger must be reset before its
 listener is notified

---
 src/auto_reset_trigger/auto_reset_trigger_step.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/auto_reset_trigger/auto_reset_trigger_step.c b/src/auto_reset_trigger/auto_reset_trigger_step.c
index 0f96a6b..5660236 100644
--- a/src/auto_reset_trigger/auto_reset_trigger_step.c
+++ b/src/auto_reset_trigger/auto_reset_trigger_step.c
@@ -28,13 +28,16 @@ RCPR_SYM(auto_reset_trigger_step)(RCPR_SYM(auto_reset_trigger)* trigger)
         /* Is there a listener? */
         if (NULL != trigger->callback)
         {
-            /* notify the listener. */
-            (trigger->callback)(trigger->context);
+            RCPR_SYM(auto_reset_trigger_callback) callback = trigger->callback;
+            void* context = trigger->context;
 
             /* reset the trigger. */
             trigger->triggered = false;
             trigger->callback = NULL;
             trigger->context = NULL;
+
+            /* notify the listener; it can signal, or register again. */
+            callback(context);
         }
     }
 }
-- 
2.43.0


From bf9e5a75ba98aa918b7239644bb6709f7876fa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:49 +0000
Subject: [PATCH 45/64] fix: thread constructors and lock acquisition must set
 their output to NULL on failure, as documented

---
 src/platform/pthread/thread/thread_cond_create.c        | 3 +++
 src/platform/pthread/thread/thread_create.c             | 3 +++
 src/platform/pthread/thread/thread_mutex_create.c       | 3 +++
 src/platform/pthread/thread/thread_mutex_lock_acquire.c | 1 +
 4 files changed, 10 insertions(+)

diff --git a/src/platform/pthread/thread/thread_cond_create.c b/src/platform/pthread/thread/thread_cond_create.c
index 549fbe7..d7ae043 100644
--- a/src/platform/pthread/thread/thread_cond_create.c
+++ b/src/platform/pthread/thread/thread_cond_create.c
@@ -69,6 +69,9 @@ RCPR_SYM(thread_cond_create)(
     RCPR_MODEL_ASSERT(NULL != cond);
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
 
+    /* the output is NULL on failure. */
+    *cond = NULL;
+
     /* attempt to allocate memory for this condition variable. */
     retval = allocator_allocate(a, (void**)&tmp, sizeof(thread_cond));
     if (STATUS_SUCCESS != retval)
diff --git a/src/platform/pthread/thread/thread_create.c b/src/platform/pthread/thread/thread_create.c
index f2caa3a..0b339b4 100644
--- a/src/platform/pthread/thread/thread_create.c
+++ b/src/platform/pthread/thread/thread_create.c
@@ -84,6 +84,9 @@ RCPR_SYM(thread_create)(
     RCPR_MODEL_ASSERT(stack_size > 0);
     RCPR_MODEL_ASSERT(NULL != fn);
 
+    /* the output is NULL on failure. */
+    *th = NULL;
+
     /* create a thread attribute structure. */
     retval = pthread_attr_init(&attr);
     if (STATUS_SUCCESS != retval)
diff --git a/src/platform/pthread/thread/thread_mutex_create.c b/src/platform/pthread/thread/thread_mutex_create.c
index ab52a9e..9898e89 100644
--- a/src/platform/pthread/thread/thread_mutex_create.c
+++ b/src/platform/pthread/thread/thread_mutex_create.c
@@ -76,6 +76,9 @@ RCPR_SYM(thread_mutex_create)(
     RCPR_MODEL_ASSERT(NULL != mut);
     RCPR_MODEL_ASSERT(prop_allocator_valid(a));
 
+    /* the output is NULL on failure. */
+    *mut = NULL;
+
     /* attempt to allocate memory for this mutex. */
     retval = allocator_allocate(a, (void**)&tmp, sizeof(thread_mutex));
     if (STATUS_SUCCESS != retval)
diff --git a/src/platform/pthread/thread/thread_mutex_lock_acquire.c b/src/platform/pthread/thread/thread_mutex_lock_acquire.c
index cacf671..8c5e75c 100644
--- a/src/platform/pthread/thread/thread_mutex_lock_acquire.c
+++ b/src/platform/pthread/thread/thread_mutex_lock_acquire.c
@@ -63,6 +63,7 @@ RCPR_SYM(thread_mutex_lock_acquire)(
     retval = pthread_mutex_lock(&mut->mutex);
     if (STATUS_SUCCESS != retval)
     {
+        *lock = NULL;
         return ERROR_THREAD_MUTEX_LOCK;
     }
 
-- 
2.43.0


From 55252e5b93b0c3a208500856fda8b2cd240f8fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:42 +0000
Subject: [PATCH 46/64] fix: a read that would block must report that no bytes
 were read

---
 src/psock/psock_from_descriptor_read.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/psock/psock_from_descriptor_read.c b/src/psock/psock_from_descriptor_read.c
index 7922cd1..3411ed9 100644
--- a/src/psock/psock_from_descriptor_read.c
+++ b/src/psock/psock_from_descriptor_read.c
@@ -62,6 +62,7 @@ status RCPR_SYM(psock_from_descriptor_read)(
                     break;
                 }
 
+                *size = 0;
                 return ERROR_PSOCK_READ_WOULD_BLOCK;
             }
             else
-- 
2.43.0


From b620c5a959d54badf4021a9e3a71b2382145b4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:42 +0000
Subject: [PATCH 47/64] fix: descriptors received besides the first one must
 not be leaked

---
 src/psock/psock_read_raw_descriptor.c | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/psock/psock_read_raw_descriptor.c b/src/psock/psock_read_raw_descriptor.c
index 1862224..b581aac 100644
--- a/src/psock/psock_read_raw_descriptor.c
+++ b/src/psock/psock_read_raw_descriptor.c
@@ -100,11 +100,30 @@ RCPR_SYM(psock_read_raw_descriptor)(
     /* read the socket control messages from the parent. */
     for (cm = CMSG_FIRSTHDR(&m); NULL != cm; cm = CMSG_NXTHDR(&m, cm))
     {
-        /* if this is a socket message, save the socket. */
-        if (SOL_SOCKET == cm->cmsg_level && SCM_RIGHTS == cm->cmsg_type)
+        /* skip control messages that don't hold descriptors. */
+        if (SOL_SOCKET != cm->cmsg_level || SCM_RIGHTS != cm->cmsg_type)
         {
-            memcpy(desc, CMSG_DATA(cm), sizeof(int));
-            break;
+            continue;
+        }
+
+        /* the alignment padding of the control buffer leaves room for more
+         * descriptors than the one we want. */
+        size_t count = (cm->cmsg_len - CMSG_LEN(0)) / sizeof(int);
+        for (size_t i = 0; i < count; ++i)
+        {
+            int received;
+            memcpy(&received, CMSG_DATA(cm) + i * sizeof(int), sizeof(int));
+
+            /* save the first descriptor; close any that the caller would never
+             * see. */
+            if (*desc < 0)
+            {
+                *desc = received;
+            }
+            else
+            {
+                close(received);
+            }
         }
     }
 
-- 
2.43.0


From 4215d998e13615c7bdcf88f85746421f2bacc111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:15 +0000
Subject: [PATCH 48/64] fix: a fiber that ends its wait for a socket must not
 cancel another's wait

When a fiber is put in the run queue, another fiber can block on the same
socket before it runs. Clearing the blocked fiber unconditionally then lost
the other fiber, which was never resumed.
---
 src/psock/psock_read_block.c  | 8 ++++++--
 src/psock/psock_write_block.c | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/psock/psock_read_block.c b/src/psock/psock_read_block.c
index 12600e6..9d0e190 100644
--- a/src/psock/psock_read_block.c
+++ b/src/psock/psock_read_block.c
@@ -102,8 +102,12 @@ RCPR_SYM(psock_read_block)(
                 &resume_event, &resume_param);
 
         /* regardless of whether this yield succeeds or not, we are no longer
-         * blocked. */
-        s->read_block_fib = NULL;
+         * blocked. Another fiber may have blocked since we were resumed; leave
+         * it alone. */
+        if (s->read_block_fib == current_fib)
+        {
+            s->read_block_fib = NULL;
+        }
 
         /* decode the response from yield. */
         if (STATUS_SUCCESS != retval)
diff --git a/src/psock/psock_write_block.c b/src/psock/psock_write_block.c
index 3763321..bcf2f88 100644
--- a/src/psock/psock_write_block.c
+++ b/src/psock/psock_write_block.c
@@ -99,8 +99,12 @@ RCPR_SYM(psock_write_block)(RCPR_SYM(psock)* sock)
                 &resume_event, &resume_param);
 
         /* regardless of whether this yield succeeds or not, we are no longer
-         * blocked. */
-        s->write_block_fib = NULL;
+         * blocked. Another fiber may have blocked since we were resumed; leave
+         * it alone. */
+        if (s->write_block_fib == current_fib)
+        {
+            s->write_block_fib = NULL;
+        }
 
         /* decode the response from yield. */
         if (STATUS_SUCCESS != retval)
-- 
2.43.0


From 331b4811d11362a4b8d6f744bd48ebba66b4303e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:15 +0000
Subject: [PATCH 49/64] fix: an interrupted wait must call the handler of the
 fiber that waits

The handler of the fiber that made the socket was called instead.
---
 src/psock/psock_read_block.c  | 2 +-
 src/psock/psock_write_block.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psock/psock_read_block.c b/src/psock/psock_read_block.c
index 9d0e190..59c6193 100644
--- a/src/psock/psock_read_block.c
+++ b/src/psock/psock_read_block.c
@@ -125,7 +125,7 @@ RCPR_SYM(psock_read_block)(
             /* try to call the unexpected event handler. */
             retval =
                 fiber_unexpected_event(
-                    s->fib, resume_id, resume_event, resume_param,
+                    current_fib, resume_id, resume_event, resume_param,
                     &FIBER_SCHEDULER_PSOCK_IO_DISCIPLINE,
                     FIBER_SCHEDULER_PSOCK_IO_RESUME_EVENT_AVAILABLE_READ);
             if (STATUS_SUCCESS != retval)
diff --git a/src/psock/psock_write_block.c b/src/psock/psock_write_block.c
index bcf2f88..41c6d49 100644
--- a/src/psock/psock_write_block.c
+++ b/src/psock/psock_write_block.c
@@ -122,7 +122,7 @@ RCPR_SYM(psock_write_block)(RCPR_SYM(psock)* sock)
             /* try to call the unexpected event handler. */
             retval =
                 fiber_unexpected_event(
-                    s->fib, resume_id, resume_event, resume_param,
+                    current_fib, resume_id, resume_event, resume_param,
                     &FIBER_SCHEDULER_PSOCK_IO_DISCIPLINE,
                     FIBER_SCHEDULER_PSOCK_IO_RESUME_EVENT_AVAILABLE_WRITE);
             if (STATUS_SUCCESS != retval)
-- 
2.43.0


From ce7f1b18ebd5d480d38f23539e9e6232b840af26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:15 +0000
Subject: [PATCH 50/64] fix: an interrupted psock_br_read_line must not return
 part of a line as a line

A read that was interrupted, or that would block, was treated as the end of
the input: the part read so far was returned as a complete line, and every
later read failed.
---
 src/psock/psock_br_read_line.c | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/psock/psock_br_read_line.c b/src/psock/psock_br_read_line.c
index 8440368..a0be403 100644
--- a/src/psock/psock_br_read_line.c
+++ b/src/psock/psock_br_read_line.c
@@ -7,6 +7,8 @@
  * distribution for the license terms under which this software is distributed.
  */
 
+#include <string.h>
+
 #include "psock_internal.h"
 
 RCPR_IMPORT_psock_internal;
@@ -159,11 +161,32 @@ RCPR_SYM(psock_br_read_line)(
             if (!br->error)
             {
                 retval = psock_br_fill(br, true);
-                if (STATUS_SUCCESS != retval)
+                if (
+                    ERROR_PSOCK_READ_GENERAL == retval
+                 || ERROR_PSOCK_READ_EOF == retval)
                 {
                     /* if we encounter an error, set the error flag. */
                     br->error = true;
                 }
+                else if (STATUS_SUCCESS != retval)
+                {
+                    /* the read would block or was interrupted, so the line is
+                     * not complete, and the socket can still be read. */
+                    if (committed_bytes > br->max_size)
+                    {
+                        /* fix up the output buffer and the buffer size. */
+                        *bbuf = 0;
+                        *buffer_size = committed_bytes;
+                        retval = ERROR_PSOCK_BR_READ_LINE_TRUNCATED;
+                        goto done;
+                    }
+
+                    /* put the partial line back for the next read. */
+                    memcpy(br->buffer, buffer, committed_bytes);
+                    br->offset = 0;
+                    br->current_size = committed_bytes;
+                    goto done;
+                }
             }
 
             /* if the error flag is set... */
-- 
2.43.0


From 18f1f3597f24024fee345fbb3a44e3826c1410a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:15 +0000
Subject: [PATCH 51/64] fix: a hang-up or an error alone must resume the fibers
 that wait for a socket

For a pipe whose other end is closed, EPOLLHUP or EPOLLERR is reported without
EPOLLIN or EPOLLOUT. The fiber was never resumed, and the idle fiber span.
---
 src/psock/platform/epoll/psock_idle_fiber_entry.c | 13 +++++++++----
 src/psock/platform/poll/psock_idle_fiber_entry.c  |  2 +-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/psock/platform/epoll/psock_idle_fiber_entry.c b/src/psock/platform/epoll/psock_idle_fiber_entry.c
index 8fb470c..b14d0d3 100644
--- a/src/psock/platform/epoll/psock_idle_fiber_entry.c
+++ b/src/psock/platform/epoll/psock_idle_fiber_entry.c
@@ -70,8 +70,11 @@ status RCPR_SYM(psock_idle_fiber_entry)(void* context)
             memset(&event, 0, sizeof(event));
             event.events = EPOLLONESHOT;
 
-            /* check for a read resume event. */
-            if ((filter & EPOLLIN) && NULL != ps->read_block_fib)
+            /* check for a read resume event. A hang-up or an error, which can be
+             * reported alone, e.g. for a pipe, also means that a read won't
+             * block. */
+            if ((filter & (EPOLLIN | EPOLLHUP | EPOLLERR))
+             && NULL != ps->read_block_fib)
             {
                 ptrdiff_t resume_param = 0;
                 int resume_event =
@@ -106,8 +109,10 @@ status RCPR_SYM(psock_idle_fiber_entry)(void* context)
                 ps->read_block_fib = NULL;
             }
 
-            /* check for a write resume event. */
-            if ((filter & EPOLLOUT) && NULL != ps->write_block_fib)
+            /* check for a write resume event. As above, a hang-up or an error
+             * means that a write won't block. */
+            if ((filter & (EPOLLOUT | EPOLLHUP | EPOLLERR))
+             && NULL != ps->write_block_fib)
             {
                 ptrdiff_t resume_param = 0;
                 int resume_event =
diff --git a/src/psock/platform/poll/psock_idle_fiber_entry.c b/src/psock/platform/poll/psock_idle_fiber_entry.c
index 02bc94d..af32cdb 100644
--- a/src/psock/platform/poll/psock_idle_fiber_entry.c
+++ b/src/psock/platform/poll/psock_idle_fiber_entry.c
@@ -67,7 +67,7 @@ status RCPR_SYM(psock_idle_fiber_entry)(void* context)
                 resume_event =
                     FIBER_SCHEDULER_PSOCK_IO_RESUME_EVENT_AVAILABLE_WRITE;
             }
-            else if (revents & POLLHUP)
+            else if (revents & (POLLHUP | POLLERR))
             {
                 if (events & POLLIN)
                 {
-- 
2.43.0


From 8e5a2abc0a0410f38c1c4822da684dd1ce9c6524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:15 +0000
Subject: [PATCH 52/64] fix: an interrupted poll must not end the idle fiber

As for epoll_wait, try again after EINTR.
---
 src/psock/platform/poll/psock_idle_fiber_entry.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/psock/platform/poll/psock_idle_fiber_entry.c b/src/psock/platform/poll/psock_idle_fiber_entry.c
index af32cdb..761a612 100644
--- a/src/psock/platform/poll/psock_idle_fiber_entry.c
+++ b/src/psock/platform/poll/psock_idle_fiber_entry.c
@@ -7,6 +7,7 @@
  * distribution for the license terms under which this software is distributed.
  */
 
+#include <errno.h>
 #include <rcpr/fiber/disciplines/psock_io.h>
 #include <rcpr/model_assert.h>
 #include <string.h>
@@ -40,7 +41,12 @@ status RCPR_SYM(psock_idle_fiber_entry)(void* context)
     {
         /* wait on a poll event. */
         int nev = poll(ctx->poll_events, ctx->poll_curr, -1);
-        if (nev < 0)
+        if (nev < 0 && errno == EINTR)
+        {
+            /* if we are interrupted (e.g. from debugging) try again. */
+            continue;
+        }
+        else if (nev < 0)
         {
             retval = ERROR_PSOCK_POLL_FAILED;
             goto done;
-- 
2.43.0


From d2713d7d386eab44d0d79fa3158076e37b670606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:56 +0000
Subject: [PATCH 53/64] fix: a descriptor that is already in place must not be
 closed

---
 src/socket_utilities/vsocket_utility_move_descriptors.c | 5 ++++-
 src/socket_utilities/vsocket_utility_setfds.c           | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/socket_utilities/vsocket_utility_move_descriptors.c b/src/socket_utilities/vsocket_utility_move_descriptors.c
index cef5165..4ad92c8 100644
--- a/src/socket_utilities/vsocket_utility_move_descriptors.c
+++ b/src/socket_utilities/vsocket_utility_move_descriptors.c
@@ -62,7 +62,10 @@ RCPR_SYM(vsocket_utility_move_descriptors)(
         }
 
         /* Close the old file descriptor */
-        close(old_fd);
+        if (old_fd != new_fd)
+        {
+            close(old_fd);
+        }
 
         /* Update the descriptor to point to the new location */
         *curr = threshold;
diff --git a/src/socket_utilities/vsocket_utility_setfds.c b/src/socket_utilities/vsocket_utility_setfds.c
index 7d67bae..00bb46a 100644
--- a/src/socket_utilities/vsocket_utility_setfds.c
+++ b/src/socket_utilities/vsocket_utility_setfds.c
@@ -45,7 +45,10 @@ RCPR_SYM(vsocket_utility_setfds)(int curr, int mapped, va_list args)
         }
 
         /* close the old fd. */
-        close(curr);
+        if (curr != fd)
+        {
+            close(curr);
+        }
 
         /* attempt to read the next descriptor. */
         curr = va_arg(args, int);
-- 
2.43.0


From 2d9c26975e19af5098d5647493bfa38c1fb697d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:56 +0000
Subject: [PATCH 54/64] fix: moving descriptors must not overwrite one that is
 still to be moved

---
 .../vsocket_utility_move_descriptors.c        | 36 +++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/socket_utilities/vsocket_utility_move_descriptors.c b/src/socket_utilities/vsocket_utility_move_descriptors.c
index 4ad92c8..4b70599 100644
--- a/src/socket_utilities/vsocket_utility_move_descriptors.c
+++ b/src/socket_utilities/vsocket_utility_move_descriptors.c
@@ -9,8 +9,12 @@
 
 #include <rcpr/socket_utilities.h>
 #include <stddef.h>
+#include <stdbool.h>
 #include <unistd.h>
 
+/* forward decls. */
+static bool descriptor_is_listed(int desc, va_list args);
+
 /**
  * \brief Move the given list of file descriptors so they are equal to or above
  * a certain threshold.
@@ -53,6 +57,12 @@ RCPR_SYM(vsocket_utility_move_descriptors)(
             goto done;
         }
 
+        /* Don't overwrite a descriptor that is still to be moved */
+        while (descriptor_is_listed(threshold, args))
+        {
+            threshold++;
+        }
+
         /* Move the descriptor to the threshold or above */
         new_fd = dup2(old_fd, threshold);
         if (new_fd < 0)
@@ -80,3 +90,29 @@ RCPR_SYM(vsocket_utility_move_descriptors)(
 done:
     return retval;
 }
+
+/**
+ * \brief Check whether a descriptor is among those that remain in the list.
+ *
+ * \param desc                  The descriptor to look for.
+ * \param args                  The list of remaining args, terminated by NULL.
+ *
+ * \returns true if the descriptor is in the list and false otherwise.
+ */
+static bool descriptor_is_listed(int desc, va_list args)
+{
+    bool retval = false;
+    const int* curr;
+    va_list copy;
+
+    va_copy(copy, args);
+
+    while (!retval && NULL != (curr = va_arg(copy, int*)))
+    {
+        retval = (desc == *curr);
+    }
+
+    va_end(copy);
+
+    return retval;
+}
-- 
2.43.0


From e67690a502bf93ca891f0385e521f5a5be17e1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:24 +0000
Subject: [PATCH 55/64] fix: a failed psock_create_wrap_async must not leave
 its discipline without an idle fiber

---
 src/psock/psock_create_wrap_async.c | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/psock/psock_create_wrap_async.c b/src/psock/psock_create_wrap_async.c
index abda230..7ce21af 100644
--- a/src/psock/psock_create_wrap_async.c
+++ b/src/psock/psock_create_wrap_async.c
@@ -295,32 +295,30 @@ static status psock_create_wrap_async_add_psock_discipline(
         goto done;
     }
 
-    /* add this discipline to the scheduler. */
-    retval = fiber_scheduler_discipline_add(sched, *disc);
+    /* create the idle fiber. */
+    retval =
+        fiber_create(
+            &idle_fiber, a, sched, 16384, context, &psock_idle_fiber_entry);
     if (STATUS_SUCCESS != retval)
     {
         goto cleanup_discipline;
     }
 
-    /* create the idle fiber. */
-    retval =
-        fiber_create(
-            &idle_fiber, a, sched, 16384, context, &psock_idle_fiber_entry);
+    /* add this discipline to the scheduler.  This is done last, so that the
+     * scheduler never has this discipline without its idle fiber. */
+    retval = fiber_scheduler_discipline_add(sched, *disc);
     if (STATUS_SUCCESS != retval)
     {
-        /* note: if we successfully added the discipline to the scheduler, it
-         * owns the discipline, so we don't need to release it anymore. */
-        goto done;
+        goto cleanup_idle_fiber;
     }
 
-    /* set the idle fiber. */
+    /* set the idle fiber.  This won't fail, and the scheduler now owns both the
+     * discipline and the idle fiber, so neither can be cleaned up here. */
+    /* TODO - make set idle fiber return void. */
     retval = disciplined_fiber_scheduler_set_idle_fiber(sched, idle_fiber);
     if (STATUS_SUCCESS != retval)
     {
-        /* note: if we've added the fiber, we can no longer clean it up. But,
-         * the add won't fail. */
-        /* TODO - make set idle fiber return void. */
-        goto cleanup_idle_fiber;
+        goto done;
     }
 
     /* success. */
@@ -334,9 +332,6 @@ cleanup_idle_fiber:
         retval = release_retval;
     }
 
-    /* skip the discipline cleanup; it is now handled by the scheduler. */
-    goto done;
-
 cleanup_discipline:
     release_retval =
         resource_release(fiber_scheduler_discipline_resource_handle(*disc));
-- 
2.43.0


From d3b3127f1bd9df0208e8af0b3808beb5bb6cadd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:51 +0000
Subject: [PATCH 56/64] fix: releasing a queue must release all of its values,
 even when one fails

---
 src/queue/queue_create.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/queue/queue_create.c b/src/queue/queue_create.c
index 0968be9..6cefcfe 100644
--- a/src/queue/queue_create.c
+++ b/src/queue/queue_create.c
@@ -123,14 +123,29 @@ RCPR_SYM(queue_create)(
  */
 static status queue_release(resource* r)
 {
-    status list_retval, retval;
+    status list_retval = STATUS_SUCCESS, retval;
     queue* q = (queue*)r;
 
     /* cache the allocator. */
     allocator* a = q->list->alloc;
 
+    /* release all values.  Clearing the list stops at the first value that can't
+     * be released, so repeat this until there are no values left. */
+    while (slist_count(q->list) > 0)
+    {
+        retval = slist_clear(q->list);
+        if (STATUS_SUCCESS == list_retval)
+        {
+            list_retval = retval;
+        }
+    }
+
     /* release the list resource. */
-    list_retval = resource_release(slist_resource_handle(q->list));
+    retval = resource_release(slist_resource_handle(q->list));
+    if (STATUS_SUCCESS == list_retval)
+    {
+        list_retval = retval;
+    }
 
     /* reclaim this instance. */
     retval = allocator_reclaim(a, q);
-- 
2.43.0


From 38b02dd15f00a8017f818870ef47efc804d2ab3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:51 +0000
Subject: [PATCH 57/64] fix: releasing a buffer socket must release all of its
 buffers, even when one fails

---
 src/psock/psock_from_buffer_release.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/psock/psock_from_buffer_release.c b/src/psock/psock_from_buffer_release.c
index 3cc7e47..9f2edae 100644
--- a/src/psock/psock_from_buffer_release.c
+++ b/src/psock/psock_from_buffer_release.c
@@ -60,8 +60,22 @@ status RCPR_SYM(psock_from_buffer_release)(RCPR_SYM(resource)* r)
     /* if the output queue is set, release it. */
     if (NULL != ps->output_queue)
     {
-        output_queue_retval =
-            resource_release(slist_resource_handle(ps->output_queue));
+        /* clearing the list stops at the first buffer that can't be released,
+         * so repeat this until there are no buffers left. */
+        while (slist_count(ps->output_queue) > 0)
+        {
+            retval = slist_clear(ps->output_queue);
+            if (STATUS_SUCCESS == output_queue_retval)
+            {
+                output_queue_retval = retval;
+            }
+        }
+
+        retval = resource_release(slist_resource_handle(ps->output_queue));
+        if (STATUS_SUCCESS == output_queue_retval)
+        {
+            output_queue_retval = retval;
+        }
     }
 
     /* clean up the struct. */
-- 
2.43.0


From 5b0ccecbf0b4ad2f6a774efa38f2c2e8741b09b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:51 +0000
Subject: [PATCH 58/64] fix: the end of the vtable section is not a valid
 vtable

---
 include/rcpr/vtable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rcpr/vtable.h b/include/rcpr/vtable.h
index d5a5594..8eac2b0 100644
--- a/include/rcpr/vtable.h
+++ b/include/rcpr/vtable.h
@@ -65,7 +65,7 @@ extern const void* __stop_rcpr_vtable;
 #define RCPR_VTABLE_CHECK(ptr) \
     if ( \
         (ptrdiff_t)(ptr) >= (ptrdiff_t)(&__start_rcpr_vtable) \
-     && (ptrdiff_t)(ptr) <= (ptrdiff_t)(&__stop_rcpr_vtable)) \
+     && (ptrdiff_t)(ptr) < (ptrdiff_t)(&__stop_rcpr_vtable)) \
     { \
         return true; \
     } \
-- 
2.43.0


From ca5b7f39404075fd0ff3ff9852ffb780209285cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:51 +0000
Subject: [PATCH 59/64] fix: psock_setsockopt must call the method of a custom
 socket

---
 src/psock/psock_create_from_user_methods.c | 38 +++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/src/psock/psock_create_from_user_methods.c b/src/psock/psock_create_from_user_methods.c
index 74ca5fe..d824c6d 100644
--- a/src/psock/psock_create_from_user_methods.c
+++ b/src/psock/psock_create_from_user_methods.c
@@ -34,6 +34,9 @@ static status psock_from_user_methods_sendmsg(
     psock* sock, void* ctx, const struct msghdr* msg, int flags);
 static status psock_from_user_methods_recvmsg(
     psock* sock, void* ctx, struct msghdr* msg, size_t* len, int flags);
+static status psock_from_user_methods_setsockopt(
+    psock* sock, void* ctx, int level, int option_name,
+    const void* option_value, socklen_t option_len);
 
 /* the vtable entry for the psock from user methods instance. */
 RCPR_VTABLE
@@ -44,7 +47,7 @@ psock_vtable psock_from_user_methods_vtable = {
     .accept_fn = &psock_from_user_methods_accept,
     .sendmsg_fn = &psock_from_user_methods_sendmsg,
     .recvmsg_fn = &psock_from_user_methods_recvmsg,
-    .setsockopt_fn = NULL,
+    .setsockopt_fn = &psock_from_user_methods_setsockopt,
     .release_fn = NULL,
 };
 
@@ -321,3 +324,36 @@ static status psock_from_user_methods_recvmsg(
 
     return ps->user_vtable->recvmsg_fn(sock, ps->hdr.context, msg, len, flags);
 }
+
+/**
+ * \brief Set socket options for the given \ref psock instance.
+ *
+ * \param sock          The \ref psock instance on which options are set.
+ * \param ctx           Context for this \ref psock. Ignored.
+ * \param level         The protocol level at which this option resides.
+ * \param option_name   The option to set.
+ * \param option_value  The value to which this option is set.
+ * \param option_len    The length of this option value in bytes.
+ *
+ * \returns a status code indicating success or failure.
+ *      - STATUS_SUCCESS on success.
+ *      - a non-zero error code on failure.
+ */
+static status psock_from_user_methods_setsockopt(
+    psock* sock, void* ctx, int level, int option_name,
+    const void* option_value, socklen_t option_len)
+{
+    (void)ctx;
+    psock_from_user_methods* ps = (psock_from_user_methods*)sock;
+
+    /* if the method is undefined, return an error code. */
+    if (NULL == ps->user_vtable->setsockopt_fn)
+    {
+        return ERROR_PSOCK_METHOD_UNDEFINED;
+    }
+
+    return
+        ps->user_vtable->setsockopt_fn(
+            sock, ps->hdr.context, level, option_name, option_value,
+            option_len);
+}
-- 
2.43.0


From 847f2965bdffba3ee77776c1793360d10afda3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:24 +0000
Subject: [PATCH 60/64] fix: container constructors must set their output to
 NULL on failure, as documented

---
 src/list/list_create.c     | 1 +
 src/queue/queue_create.c   | 3 +++
 src/rbtree/rbtree_create.c | 1 +
 src/slist/slist_create.c   | 1 +
 4 files changed, 6 insertions(+)

diff --git a/src/list/list_create.c b/src/list/list_create.c
index e4af394..7c7cec1 100644
--- a/src/list/list_create.c
+++ b/src/list/list_create.c
@@ -72,6 +72,7 @@ RCPR_SYM(list_create)(
     retval = allocator_allocate(a, (void**)&tmp, sizeof(list));
     if (STATUS_SUCCESS != retval)
     {
+        *l = NULL;
         goto done;
     }
 
diff --git a/src/queue/queue_create.c b/src/queue/queue_create.c
index 6cefcfe..3e4a5df 100644
--- a/src/queue/queue_create.c
+++ b/src/queue/queue_create.c
@@ -72,6 +72,7 @@ RCPR_SYM(queue_create)(
     status retval = allocator_allocate(a, (void**)&tmp, sizeof(queue));
     if (STATUS_SUCCESS != retval)
     {
+        *q = NULL;
         return retval;
     }
 
@@ -92,6 +93,8 @@ RCPR_SYM(queue_create)(
     retval = slist_create(&(tmp->list), a);
     if (STATUS_SUCCESS != retval)
     {
+        *q = NULL;
+
         /* reclaim the memory for the queue on failure. */
         status reclaim_retval = allocator_reclaim(a, tmp);
 
diff --git a/src/rbtree/rbtree_create.c b/src/rbtree/rbtree_create.c
index 3dfc092..a47d7ed 100644
--- a/src/rbtree/rbtree_create.c
+++ b/src/rbtree/rbtree_create.c
@@ -89,6 +89,7 @@ RCPR_SYM(rbtree_create)(
     retval = allocator_allocate(a, (void**)&tmp, sizeof(rbtree));
     if (STATUS_SUCCESS != retval)
     {
+        *tree = NULL;
         retval = ERROR_GENERAL_OUT_OF_MEMORY;
         goto done;
     }
diff --git a/src/slist/slist_create.c b/src/slist/slist_create.c
index c6c8321..518dcff 100644
--- a/src/slist/slist_create.c
+++ b/src/slist/slist_create.c
@@ -73,6 +73,7 @@ RCPR_SYM(slist_create)(
         allocator_allocate(a, (void**)&l, sizeof(slist));
     if (STATUS_SUCCESS != retval)
     {
+        *list = NULL;
         return retval;
     }
 
-- 
2.43.0


From 3076cf5f018b56bcc1751e0ea2a33e752ec371d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:35 +0000
Subject: [PATCH 61/64] fix: a failed reclaim must not leak the rest of a
 discipline that is not created

---
 src/fiber/common/fiber_scheduler_discipline_create.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fiber/common/fiber_scheduler_discipline_create.c b/src/fiber/common/fiber_scheduler_discipline_create.c
index 42f6cfa..0201df7 100644
--- a/src/fiber/common/fiber_scheduler_discipline_create.c
+++ b/src/fiber/common/fiber_scheduler_discipline_create.c
@@ -163,14 +163,14 @@ reclaim_fiber_scheduler_vector:
     release_retval = allocator_reclaim(alloc, tmp->callback_vector);
     if (STATUS_SUCCESS != release_retval)
     {
-        return release_retval;
+        retval = release_retval;
     }
 
 reclaim_fiber_scheduler_discipline:
     release_retval = allocator_reclaim(alloc, tmp);
     if (STATUS_SUCCESS != release_retval)
     {
-        return release_retval;
+        retval = release_retval;
     }
 
 done:
-- 
2.43.0


From 5d5f4a72e52eda5d71e6fa85b85947f6e5799f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:39 +0000
Subject: [PATCH 62/64] fix: a buffered reader whose buffer is full does not
 read from its socket

When a line read cannot complete because its socket would block, the bytes
read so far are put back into the internal buffer. If they fill it, then a
following read of more bytes than the buffer holds asked the socket for
zero bytes, and took the answer, nothing, for the end of the stream.
---
 src/psock/psock_br_fill.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/psock/psock_br_fill.c b/src/psock/psock_br_fill.c
index 1ae8a02..da1c980 100644
--- a/src/psock/psock_br_fill.c
+++ b/src/psock/psock_br_fill.c
@@ -50,6 +50,13 @@ status RCPR_SYM(psock_br_fill)(
         br->offset = 0;
     }
 
+    /* if the buffer is already full, then there is nothing to read. */
+    if (br->current_size >= br->max_size)
+    {
+        retval = STATUS_SUCCESS;
+        goto done;
+    }
+
     /* get the wrapped vtable. */
     retval =
         resource_vtable_read(
-- 
2.43.0


From 33e95cacb038860fd86d517b7a6929fe8be183af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:48 +0000
Subject: [PATCH 63/64] fix: an idle fiber that was added to its scheduler must
 not be released twice

---
 .../fiber_scheduler_create_with_disciplines.c       | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/fiber/common/fiber_scheduler_create_with_disciplines.c b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
index ba0338b..271475b 100644
--- a/src/fiber/common/fiber_scheduler_create_with_disciplines.c
+++ b/src/fiber/common/fiber_scheduler_create_with_disciplines.c
@@ -507,6 +507,19 @@ static status fiber_scheduler_disciplined_context_resource_release(resource* r)
     /* cache the allocator. */
     allocator* alloc = ctx->alloc;
 
+    /* if the idle fiber was added to this scheduler, then it is released with
+     * the other fibers below, and must not be released a second time. */
+    resource* idle_fiber_resource = NULL;
+    if (
+        NULL != ctx->idle_fiber
+     && STATUS_SUCCESS
+            == rbtree_find(
+                    &idle_fiber_resource, ctx->fibers_by_pointer,
+                    fiber_resource_handle(ctx->idle_fiber)))
+    {
+        ctx->idle_fiber = NULL;
+    }
+
     /* release the fibers by pointer tree, releasing all fibers still associated
      * with it. */
     fibers_by_pointer_retval =
-- 
2.43.0


From 922c81f49af581fb2a7b98df0c27257b3e1dcf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:20 +0000
Subject: [PATCH 64/64] fix: swapped lists, slists and trees must each be
 reclaimed by the allocator that made them

---
 src/list/list_swap.c     | 4 ++++
 src/rbtree/rbtree_swap.c | 4 ++++
 src/slist/slist_swap.c   | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/list/list_swap.c b/src/list/list_swap.c
index 9e89abb..e71eeb8 100644
--- a/src/list/list_swap.c
+++ b/src/list/list_swap.c
@@ -48,6 +48,10 @@ void RCPR_SYM(list_swap)(RCPR_SYM(list)* left, RCPR_SYM(list)* right)
     memcpy(left, right, sizeof(tmp));
     memcpy(right, &tmp, sizeof(tmp));
 
+    /* each list was allocated by, and is reclaimed by, its own allocator. */
+    right->alloc = left->alloc;
+    left->alloc = tmp.alloc;
+
     /* each node must refer to the list that now owns it. */
     for (list_node* node = left->head; NULL != node; node = node->next)
     {
diff --git a/src/rbtree/rbtree_swap.c b/src/rbtree/rbtree_swap.c
index 198651b..4db8bb3 100644
--- a/src/rbtree/rbtree_swap.c
+++ b/src/rbtree/rbtree_swap.c
@@ -50,6 +50,10 @@ void RCPR_SYM(rbtree_swap)(RCPR_SYM(rbtree)* left, RCPR_SYM(rbtree)* right)
     memcpy(left, right, sizeof(tmp));
     memcpy(right, &tmp, sizeof(tmp));
 
+    /* each tree was allocated by, and is reclaimed by, its own allocator. */
+    right->alloc = left->alloc;
+    left->alloc = tmp.alloc;
+
     /* each tree must use its own nil node. */
     rbtree_adopt_nil(left);
     rbtree_adopt_nil(right);
diff --git a/src/slist/slist_swap.c b/src/slist/slist_swap.c
index c805afb..21dc3a2 100644
--- a/src/slist/slist_swap.c
+++ b/src/slist/slist_swap.c
@@ -48,6 +48,10 @@ void RCPR_SYM(slist_swap)(RCPR_SYM(slist)* left, RCPR_SYM(slist)* right)
     memcpy(left, right, sizeof(tmp));
     memcpy(right, &tmp, sizeof(tmp));
 
+    /* each list was allocated by, and is reclaimed by, its own allocator. */
+    right->alloc = left->alloc;
+    left->alloc = tmp.alloc;
+
     /* each node must refer to the slist that now owns it. */
     for (slist_node* node = left->head; NULL != node; node = node->next)
     {
-- 
2.43.0

