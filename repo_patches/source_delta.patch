From d59bb3236ed67286c73b812586d06be0e388e298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:33 +0000
Subject: [PATCH 01/29] fix: advance the input buffer when parsing from memory

source_from_buffer never moved past the bytes it handed out, so any input
larger than the parser's refill size was re-read from its start (and a
length above INT_MAX was truncated).
---
 lib/src/parser.c       | 9 +++++----
 lib/src/quick_parser.c | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/lib/src/parser.c b/lib/src/parser.c
index 0ea585d..9596737 100644
--- a/lib/src/parser.c
+++ b/lib/src/parser.c
@@ -70,14 +70,15 @@ struct source_from_buffer_data
 static int source_from_buffer(void *data, char *buf, int n)
 {
     struct source_from_buffer_data *input = data;
-    int len = min(input->length, n);
-    input->length -= len;
+    size_t len = minzu(input->length, (size_t)n);
     if (len == 0)
     {
-        return len;
+        return 0;
     }
     memcpy(buf, input->buffer, len);
-    return len;
+    input->buffer += len;
+    input->length -= len;
+    return (int)len;
 }
 
 
diff --git a/lib/src/quick_parser.c b/lib/src/quick_parser.c
index 070e6fe..caec0fa 100644
--- a/lib/src/quick_parser.c
+++ b/lib/src/quick_parser.c
@@ -44,14 +44,15 @@ struct source_from_buffer_data
 static int source_from_buffer(void *data, char *buf, int n)
 {
     struct source_from_buffer_data *input = data;
-    int len = min(input->length, n);
-    input->length -= len;
+    size_t len = minzu(input->length, (size_t)n);
     if (len == 0)
     {
-        return len;
+        return 0;
     }
     memcpy(buf, input->buffer, len);
-    return len;
+    input->buffer += len;
+    input->length -= len;
+    return (int)len;
 }
 
 
-- 
2.43.0


From 0e4ed0fa9da8d28692707b6b420f23864340a709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:33 +0000
Subject: [PATCH 02/29] fix: child_index must advance through the children

cypher_ast_clone looped forever for any node holding a child that is not
its first.
---
 lib/src/astnode.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/astnode.h b/lib/src/astnode.h
index 8337fc3..6bcc683 100644
--- a/lib/src/astnode.h
+++ b/lib/src/astnode.h
@@ -127,7 +127,9 @@ static inline int child_index(const cypher_astnode_t *node,
 {
     unsigned int i = 0;
     while (i < node->nchildren && node->children[i] != child)
-        ;
+    {
+        ++i;
+    }
     assert(i < node->nchildren);
     return i;
 }
-- 
2.43.0


From 7a856fce5ba958b0cd91181241eac5c20ba1169e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:33 +0000
Subject: [PATCH 03/29] fix: grow formatting buffers when the output exactly
 fills them

snprintf needs width+1 bytes, so a detail of exactly bufcap characters lost
its last character.
---
 lib/src/ast.c  | 2 +-
 lib/src/util.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/ast.c b/lib/src/ast.c
index 9ece2b5..235dbe3 100644
--- a/lib/src/ast.c
+++ b/lib/src/ast.c
@@ -605,7 +605,7 @@ static ssize_t cypher_astnode_detailstr_realloc(const cypher_astnode_t *node,
     {
         return -1;
     }
-    if ((size_t)width > *bufcap)
+    if ((size_t)width >= *bufcap)
     {
         char *newbuf = realloc(*buf, (size_t)width + 1);
         if (newbuf == NULL)
diff --git a/lib/src/util.c b/lib/src/util.c
index 857fd0e..c80f74e 100644
--- a/lib/src/util.c
+++ b/lib/src/util.c
@@ -34,7 +34,7 @@ ssize_t snprintf_realloc(char ** restrict buf, size_t *bufcap,
     {
         return -1;
     }
-    if ((size_t)width > *bufcap)
+    if ((size_t)width >= *bufcap)
     {
         char *newbuf = realloc(*buf, (size_t)width+1);
         if (newbuf == NULL)
-- 
2.43.0


From 3f456822fb7fe294291bf3d2d76e54010d111e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 04/29] fix: detect allocation failure when growing a vector

---
 lib/src/vector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/vector.c b/lib/src/vector.c
index cebe564..3412ba5 100644
--- a/lib/src/vector.c
+++ b/lib/src/vector.c
@@ -68,7 +68,7 @@ int cp_vector_push(struct cp_vector *vec, void *element)
         unsigned int newcap = (vec->capacity == 0)?
             CYPHER_VECTOR_BLOCK_SIZE : vec->capacity * 2;
         void *elements = realloc(vec->elements, newcap * vec->element_size);
-        if (element == NULL)
+        if (elements == NULL)
         {
             return -1;
         }
-- 
2.43.0


From 050f1ee781ca2cf172c2a2c41cb983e12aa4b2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 05/29] fix: pass the annotated node to the annotation release
 handler

The node was read after the annotation had been detached, so the handler
always received NULL.
---
 lib/src/annotation.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/annotation.c b/lib/src/annotation.c
index 7239946..bcfad74 100644
--- a/lib/src/annotation.c
+++ b/lib/src/annotation.c
@@ -247,13 +247,14 @@ void cp_release_annotation(struct cypher_astnode_annotation *annotation)
     assert(annotation != NULL);
 
     cypher_ast_annotation_context_t *context = annotation->context;
+    const cypher_astnode_t *astnode = annotation->astnode;
 
     detach_annotation_from_astnode(annotation);
     detach_annotation_from_context(annotation);
     if (context->release_cb != NULL)
     {
         context->release_cb(context->release_cb_userdata,
-                annotation->astnode, annotation->data);
+                astnode, annotation->data);
     }
 
     free(annotation);
-- 
2.43.0


From b41a35a87517a00bb5440c9bc3b2ddb3f798331f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 06/29] fix: define cypher_parse_segment_get_root

The public header declares it, but the library exported it under another name.
---
 lib/src/segment.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/segment.c b/lib/src/segment.c
index 1a8cfea..e4c00b2 100644
--- a/lib/src/segment.c
+++ b/lib/src/segment.c
@@ -139,7 +139,7 @@ unsigned int cypher_parse_segment_nroots(const cypher_parse_segment_t *segment)
 }
 
 
-const cypher_astnode_t *cypher_parse_segment_get_node(
+const cypher_astnode_t *cypher_parse_segment_get_root(
         const cypher_parse_segment_t *segment, unsigned int index)
 {
     if (index >= segment->nroots)
-- 
2.43.0


From 7510613c3506b29055220289bb927325a13a8d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 07/29] fix: leave the outermost block to its owner when a
 parse fails

parse_each frees the outermost block itself, so parse_one freeing it on
failure resulted in a double free.
---
 lib/src/parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/parser.c b/lib/src/parser.c
index 9596737..65fa048 100644
--- a/lib/src/parser.c
+++ b/lib/src/parser.c
@@ -763,8 +763,9 @@ failure:
     errsv = errno;
     offsets_clear(&(yy->line_start_offsets));
     struct block *block;
-    while ((block = blocks_pop(&(yy->blocks))) != NULL)
+    while (blocks_size(&(yy->blocks)) > 1)
     {
+        block = blocks_pop(&(yy->blocks));
         block_free(block);
     }
     block_free(yy->prev_block);
-- 
2.43.0


From 0668b411752c9423397a73892e1569aa45475494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 08/29] fix: compute AST print column widths without log10

log10(0) is -infinity, and converting that to an unsigned int is undefined.
---
 lib/src/ast.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/lib/src/ast.c b/lib/src/ast.c
index 235dbe3..d35bbad 100644
--- a/lib/src/ast.c
+++ b/lib/src/ast.c
@@ -19,7 +19,6 @@
 #include "astnode.h"
 #include "util.h"
 #include <assert.h>
-#include <math.h>
 
 
 struct cypher_astnode_vts
@@ -646,6 +645,18 @@ static void ast_fprint_field_widths(const cypher_astnode_t *ast,
 }
 
 
+static unsigned int decimal_width(size_t n)
+{
+    unsigned int width = 1;
+    while (n >= 10)
+    {
+        n /= 10;
+        ++width;
+    }
+    return width;
+}
+
+
 #define CYPHER_AST_FPRINT_MIN_DETAIL_WIDTH 10
 
 static int ast_fprint_detail(FILE *stream, const cypher_astnode_t *node,
@@ -819,9 +830,9 @@ int cypher_ast_fprint(const cypher_astnode_t *ast, FILE *stream,
     size_t max_start = 0, max_end = 0;
     ast_fprint_field_widths(ast, &max_ordinal, &max_start, &max_end,
             &name_width, 0);
-    unsigned int ordinal_width = (unsigned int)log10(max_ordinal)+2;
-    unsigned int start_width = (unsigned int)log10(max_start)+1;
-    unsigned int end_width = (unsigned int)log10(max_end)+1;
+    unsigned int ordinal_width = decimal_width(max_ordinal)+1;
+    unsigned int start_width = decimal_width(max_start);
+    unsigned int end_width = decimal_width(max_end);
 
     size_t bufcap = 1024;
     char *buf = malloc(bufcap);
@@ -854,9 +865,9 @@ int cypher_ast_fprintv(cypher_astnode_t * const *asts, unsigned int n,
         ast_fprint_field_widths(asts[i], &max_ordinal, &max_start, &max_end,
                 &name_width, 0);
     }
-    unsigned int ordinal_width = (unsigned int)log10(max_ordinal)+2;
-    unsigned int start_width = (unsigned int)log10(max_start)+1;
-    unsigned int end_width = (unsigned int)log10(max_end)+1;
+    unsigned int ordinal_width = decimal_width(max_ordinal)+1;
+    unsigned int start_width = decimal_width(max_start);
+    unsigned int end_width = decimal_width(max_end);
 
     size_t bufcap = 1024;
     char *buf = malloc(bufcap);
-- 
2.43.0


From 4851d0b5f1f9a86bf5d3e90c2bbf8fb52aa4742b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:51 +0000
Subject: [PATCH 09/29] fix: count newlines inside backtick-quoted names

---
 lib/src/parser.leg | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parser.leg b/lib/src/parser.leg
index b9f14da..6f047c6 100644
--- a/lib/src/parser.leg
+++ b/lib/src/parser.leg
@@ -857,7 +857,7 @@ symbolic-name =
     | escaped-symbolic-name
 unescaped-symbolic-name = < sym-start sym-part* >
                                        { strbuf_append_block(); }
-escaped-symbolic-name = '`' < (!'`' .)* > '`' ~{ERR("`")}
+escaped-symbolic-name = '`' < (EOL | !'`' .)* > '`' ~{ERR("`")}
                                        { strbuf_append_block(); }
 
 parameter-name =
-- 
2.43.0


From 182a3e379e55c9a4abdafdceb891f7da229859dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:33 +0000
Subject: [PATCH 10/29] fix: register the comment type

---
 lib/src/ast.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/ast.c b/lib/src/ast.c
index d35bbad..66a3d13 100644
--- a/lib/src/ast.c
+++ b/lib/src/ast.c
@@ -243,6 +243,7 @@ static const struct cypher_astnode_vts cypher_astnode_vts =
     .rel_pattern = &cypher_rel_pattern_astnode_vt,
     .range = &cypher_range_astnode_vt,
     .command = &cypher_command_astnode_vt,
+    .comment = &cypher_comment_astnode_vt,
     .line_comment = &cypher_line_comment_astnode_vt,
     .block_comment = &cypher_block_comment_astnode_vt,
     .error = &cypher_error_astnode_vt,
-- 
2.43.0


From 3538d390d020e479b56b66e0b709e6ed0397937e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:33 +0000
Subject: [PATCH 11/29] fix: clone optional parts that are present, not those
 that are absent

---
 lib/src/ast_none.c                  | 2 +-
 lib/src/ast_pattern_comprehension.c | 2 +-
 lib/src/ast_return.c                | 4 ++--
 lib/src/ast_start.c                 | 2 +-
 lib/src/ast_with.c                  | 4 ++--
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/src/ast_none.c b/lib/src/ast_none.c
index 302343e..64cf2fd 100644
--- a/lib/src/ast_none.c
+++ b/lib/src/ast_none.c
@@ -99,7 +99,7 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
 
     cypher_astnode_t *identifier = children[child_index(self, node->identifier)];
     cypher_astnode_t *expression = children[child_index(self, node->expression)];
-    cypher_astnode_t *predicate = (node->predicate != NULL) ? NULL :
+    cypher_astnode_t *predicate = (node->predicate == NULL) ? NULL :
             children[child_index(self, node->predicate)];
 
     return cypher_ast_none(identifier, expression, predicate, children,
diff --git a/lib/src/ast_pattern_comprehension.c b/lib/src/ast_pattern_comprehension.c
index 6be9483..bbd389d 100644
--- a/lib/src/ast_pattern_comprehension.c
+++ b/lib/src/ast_pattern_comprehension.c
@@ -92,7 +92,7 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     cypher_astnode_t *identifier = (node->identifier == NULL) ? NULL :
             children[child_index(self, node->identifier)];
     cypher_astnode_t *pattern = children[child_index(self, node->pattern)];
-    cypher_astnode_t *predicate = (node->predicate != NULL) ? NULL :
+    cypher_astnode_t *predicate = (node->predicate == NULL) ? NULL :
             children[child_index(self, node->predicate)];
     cypher_astnode_t *eval = children[child_index(self, node->eval)];
 
diff --git a/lib/src/ast_return.c b/lib/src/ast_return.c
index b745ae1..48704ea 100644
--- a/lib/src/ast_return.c
+++ b/lib/src/ast_return.c
@@ -115,9 +115,9 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     }
     cypher_astnode_t *order_by = (node->order_by == NULL) ? NULL :
             children[child_index(self, node->order_by)];
-    cypher_astnode_t *skip = (node->skip != NULL) ? NULL :
+    cypher_astnode_t *skip = (node->skip == NULL) ? NULL :
             children[child_index(self, node->skip)];
-    cypher_astnode_t *limit = (node->limit != NULL) ? NULL :
+    cypher_astnode_t *limit = (node->limit == NULL) ? NULL :
             children[child_index(self, node->limit)];
 
     cypher_astnode_t *clone = cypher_ast_return(node->distinct,
diff --git a/lib/src/ast_start.c b/lib/src/ast_start.c
index 8b9b4d8..c15f4ae 100644
--- a/lib/src/ast_start.c
+++ b/lib/src/ast_start.c
@@ -98,7 +98,7 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     {
         points[i] = children[child_index(self, node->points[i])];
     }
-    cypher_astnode_t *predicate = (node->predicate != NULL) ? NULL :
+    cypher_astnode_t *predicate = (node->predicate == NULL) ? NULL :
             children[child_index(self, node->predicate)];
 
     cypher_astnode_t *clone = cypher_ast_start(points, node->npoints,
diff --git a/lib/src/ast_with.c b/lib/src/ast_with.c
index b02e959..573531a 100644
--- a/lib/src/ast_with.c
+++ b/lib/src/ast_with.c
@@ -117,9 +117,9 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     }
     cypher_astnode_t *order_by = (node->order_by == NULL) ? NULL :
             children[child_index(self, node->order_by)];
-    cypher_astnode_t *skip = (node->skip != NULL) ? NULL :
+    cypher_astnode_t *skip = (node->skip == NULL) ? NULL :
             children[child_index(self, node->skip)];
-    cypher_astnode_t *limit = (node->limit != NULL) ? NULL :
+    cypher_astnode_t *limit = (node->limit == NULL) ? NULL :
             children[child_index(self, node->limit)];
     cypher_astnode_t *predicate = (node->predicate == NULL) ? NULL :
             children[child_index(self, node->predicate)];
-- 
2.43.0


From deca423b2c7b3997be784359d9ecf714a07fe37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:33 +0000
Subject: [PATCH 12/29] fix: clone both halves of map entries and case
 alternatives

---
 lib/src/ast_case.c | 4 ++--
 lib/src/ast_map.c  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/ast_case.c b/lib/src/ast_case.c
index d0fd659..acf5785 100644
--- a/lib/src/ast_case.c
+++ b/lib/src/ast_case.c
@@ -96,13 +96,13 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
 
     cypher_astnode_t *expression = (node->expression == NULL) ? NULL :
             children[child_index(self, node->expression)];
-    cypher_astnode_t **alternatives = calloc(node->nalternatives,
+    cypher_astnode_t **alternatives = calloc(node->nalternatives * 2,
             sizeof(cypher_astnode_t *));
     if (alternatives == NULL)
     {
         return NULL;
     }
-    for (unsigned int i = 0; i < node->nalternatives; ++i)
+    for (unsigned int i = 0; i < node->nalternatives * 2; ++i)
     {
         alternatives[i] = children[child_index(self, node->alternatives[i])];
     }
diff --git a/lib/src/ast_map.c b/lib/src/ast_map.c
index 0a370af..3000f53 100644
--- a/lib/src/ast_map.c
+++ b/lib/src/ast_map.c
@@ -121,13 +121,13 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     REQUIRE_TYPE(self, CYPHER_AST_MAP, NULL);
     struct map *node = container_of(self, struct map, _astnode);
 
-    cypher_astnode_t **pairs = calloc(node->nentries,
+    cypher_astnode_t **pairs = calloc(node->nentries * 2,
             sizeof(cypher_astnode_t *));
     if (pairs == NULL)
     {
         return NULL;
     }
-    for (unsigned int i = 0; i < node->nentries; ++i)
+    for (unsigned int i = 0; i < node->nentries * 2; ++i)
     {
         pairs[i] = children[child_index(self, node->pairs[i])];
     }
-- 
2.43.0


From 27ea9b973f17b1da99dbfa6e705cbf1e2d8b434d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:33 +0000
Subject: [PATCH 13/29] fix: clone a dropped relationship constraint as one

---
 lib/src/ast_drop_rel_prop_constraint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/ast_drop_rel_prop_constraint.c b/lib/src/ast_drop_rel_prop_constraint.c
index e6763e7..caa3afd 100644
--- a/lib/src/ast_drop_rel_prop_constraint.c
+++ b/lib/src/ast_drop_rel_prop_constraint.c
@@ -86,7 +86,7 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     cypher_astnode_t *reltype = children[child_index(self, node->reltype)];
     cypher_astnode_t *expression = children[child_index(self, node->expression)];
 
-    return cypher_ast_drop_node_prop_constraint(identifier, reltype, expression,
+    return cypher_ast_drop_rel_prop_constraint(identifier, reltype, expression,
             node->unique, children, self->nchildren, self->range);
 }
 
-- 
2.43.0


From 79a5328fa7d73c5c04c79c1a437fcd4e3ba5b9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:50 +0000
Subject: [PATCH 14/29] fix: release the temporary child array after cloning a
 node

---
 lib/src/ast.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/ast.c b/lib/src/ast.c
index 66a3d13..1baef77 100644
--- a/lib/src/ast.c
+++ b/lib/src/ast.c
@@ -559,6 +559,7 @@ cypher_astnode_t *cypher_ast_clone(const cypher_astnode_t *ast)
     {
         goto failure;
     }
+    free(children);
     return clone;
 
     int errsv;
-- 
2.43.0


From d0dd207df972656df909aed14027b233f635192e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:19 +0000
Subject: [PATCH 15/29] fix: report a failing input stream instead of treating
 it as the end of input

---
 lib/src/parser.c       | 15 ++++++++++++++-
 lib/src/quick_parser.c | 14 +++++++++++++-
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/lib/src/parser.c b/lib/src/parser.c
index 65fa048..6f59509 100644
--- a/lib/src/parser.c
+++ b/lib/src/parser.c
@@ -27,6 +27,7 @@
 #include "vector.h"
 #include <assert.h>
 #include <ctype.h>
+#include <errno.h>
 #include <setjmp.h>
 
 DECLARE_VECTOR(offsets, unsigned int, 0);
@@ -111,7 +112,15 @@ static int source_from_stream(void *data, char *buf, int n)
     int c = getc(stream);
     if (c == EOF)
     {
-        return 0;
+        if (!ferror(stream))
+        {
+            return 0;
+        }
+        if (errno == 0)
+        {
+            errno = EIO;
+        }
+        return -1;
     }
     *buf = c;
     return 1;
@@ -537,6 +546,10 @@ void source(yycontext *yy, char *buf, int *result, int max_size)
     }
     assert(yy != NULL && yy->source != NULL);
     *result = yy->source(yy->source_data, buf, max_size);
+    if (*result < 0)
+    {
+        abort_parse(yy);
+    }
 }
 
 
diff --git a/lib/src/quick_parser.c b/lib/src/quick_parser.c
index caec0fa..9fa4275 100644
--- a/lib/src/quick_parser.c
+++ b/lib/src/quick_parser.c
@@ -62,7 +62,15 @@ static int source_from_stream(void *data, char *buf, int n)
     int c = getc(stream);
     if (c == EOF)
     {
-        return 0;
+        if (!ferror(stream))
+        {
+            return 0;
+        }
+        if (errno == 0)
+        {
+            errno = EIO;
+        }
+        return -1;
     }
     *buf = c;
     return 1;
@@ -132,6 +140,10 @@ void source(yycontext *yy, char *buf, int *result, int max_size)
     }
     assert(yy != NULL && yy->source != NULL);
     *result = yy->source(yy->source_data, buf, max_size);
+    if (*result < 0)
+    {
+        abort_parse(yy);
+    }
 }
 
 
-- 
2.43.0


From 1e00e36f427c5e5111e5cf21ccd82bf0d0666840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:41 +0000
Subject: [PATCH 16/29] fix: keep children owned by one block when merging them
 fails

---
 lib/src/parser.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/parser.c b/lib/src/parser.c
index 6f59509..28fe5dd 100644
--- a/lib/src/parser.c
+++ b/lib/src/parser.c
@@ -988,6 +988,11 @@ void block_merge_action(yycontext *yy, char *text, int pos)
         {
             if (astnodes_push(&(pblock->children), astnodes_get(&(block->children), i)))
             {
+                // leave the children owned by only the one block
+                while (i-- > 0)
+                {
+                    astnodes_pop(&(pblock->children));
+                }
                 abort_parse(yy);
             }
         }
-- 
2.43.0


From 0fadd14499cff0e20e666417c6f5a53ffeddbba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:41 +0000
Subject: [PATCH 17/29] fix: do not free a sequence element that a block
 already owns

---
 lib/src/parser.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/src/parser.c b/lib/src/parser.c
index 28fe5dd..e12f2fa 100644
--- a/lib/src/parser.c
+++ b/lib/src/parser.c
@@ -1079,11 +1079,9 @@ void _sequence_add(yycontext *yy, cypher_astnode_t *node)
 {
     struct block *block = blocks_last(&(yy->blocks));
     assert(block != NULL);
+    // the node is already owned by the children of a block
     if (astnodes_push(&(block->sequence), node))
     {
-        int errsv = errno;
-        cypher_ast_free(node);
-        errno = errsv;
         abort_parse(yy);
     }
 }
-- 
2.43.0


From 5c4c99413026803fd80489fc263b50fa93d1b409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:41 +0000
Subject: [PATCH 18/29] fix: release temporary and child arrays when building a
 node fails

---
 lib/src/ast_call.c       | 4 ++++
 lib/src/ast_comparison.c | 1 +
 lib/src/ast_query.c      | 4 ++++
 3 files changed, 9 insertions(+)

diff --git a/lib/src/ast_call.c b/lib/src/ast_call.c
index 944e60c..8fdc330 100644
--- a/lib/src/ast_call.c
+++ b/lib/src/ast_call.c
@@ -94,6 +94,7 @@ cypher_astnode_t *cypher_ast_call(const cypher_astnode_t *proc_name,
     int errsv;
 cleanup:
     errsv = errno;
+    free(node->_astnode.children);
     free(node);
     errno = errsv;
     return NULL;
@@ -128,6 +129,9 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
             calloc(node->nprojections, sizeof(cypher_astnode_t *));
     if (projections == NULL)
     {
+        int errsv = errno;
+        free(args);
+        errno = errsv;
         return NULL;
     }
     for (unsigned int i = 0; i < node->nprojections; ++i)
diff --git a/lib/src/ast_comparison.c b/lib/src/ast_comparison.c
index 1ee11a0..3143105 100644
--- a/lib/src/ast_comparison.c
+++ b/lib/src/ast_comparison.c
@@ -83,6 +83,7 @@ cypher_astnode_t *cypher_ast_comparison(unsigned int length,
 cleanup:
     errsv = errno;
     free(node->ops);
+    free(node->_astnode.children);
     free(node);
     errno = errsv;
     return NULL;
diff --git a/lib/src/ast_query.c b/lib/src/ast_query.c
index 8bc9e88..3d325b2 100644
--- a/lib/src/ast_query.c
+++ b/lib/src/ast_query.c
@@ -81,6 +81,7 @@ cypher_astnode_t *cypher_ast_query(cypher_astnode_t * const *options,
     int errsv;
 cleanup:
     errsv = errno;
+    free(node->_astnode.children);
     free(node);
     errno = errsv;
     return NULL;
@@ -107,6 +108,9 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
             calloc(node->nclauses, sizeof(cypher_astnode_t *));
     if (clauses == NULL)
     {
+        int errsv = errno;
+        free(options);
+        errno = errsv;
         return NULL;
     }
     for (unsigned int i = 0; i < node->nclauses; ++i)
-- 
2.43.0


From 319354d14eba9f9057aad026b9650bb2dcfcbe14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:48 +0000
Subject: [PATCH 19/29] fix: allow white space before the comma between pattern
 parts

---
 lib/src/parser.leg | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parser.leg b/lib/src/parser.leg
index 6f047c6..b790bc9 100644
--- a/lib/src/parser.leg
+++ b/lib/src/parser.leg
@@ -705,7 +705,7 @@ proc-name = <                          { strbuf_reset(); }
 
 pattern =
     < p:pattern-part                   { sequence_add(p); }
-    ( COMMA - p:pattern-part           { sequence_add(p); }
+    ( (COMMA | - ',') - p:pattern-part { sequence_add(p); }
     )* >                               { $$ = pattern(); }
     -
 
-- 
2.43.0


From 6fa7edc090058a183eb3d6a9416774f0e6e113fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:24 +0000
Subject: [PATCH 20/29] fix: keep comments inside dotted function and procedure
 names

---
 lib/src/parser.leg | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/parser.leg b/lib/src/parser.leg
index b790bc9..e080017 100644
--- a/lib/src/parser.leg
+++ b/lib/src/parser.leg
@@ -679,11 +679,11 @@ prop-name = <                          { strbuf_reset(); }
     >                                  { $$ = strbuf_prop_name(); }
     -
 
-function-name = <                      { strbuf_reset(); }
+function-name = _block_start_          { strbuf_reset(); }
     ( (symbolic-name - DOT -           { strbuf_append(".", 1); }
       )* symbolic-name
     ) ~{ERR("a function name")}
-    >                                  { $$ = strbuf_function_name(); }
+    _block_merge_                      { $$ = strbuf_function_name(); }
     -
 
 index-name = <                         { strbuf_reset(); }
@@ -691,11 +691,11 @@ index-name = <                         { strbuf_reset(); }
     >                                  { $$ = strbuf_index_name(); }
     -
 
-proc-name = <                          { strbuf_reset(); }
+proc-name = _block_start_              { strbuf_reset(); }
     ( (symbolic-name - DOT -           { strbuf_append(".", 1); }
       )* symbolic-name
     ) ~{ERR("a procedure name")}
-    >                                  { $$ = strbuf_proc_name(); }
+    _block_merge_                      { $$ = strbuf_proc_name(); }
     -
 
 
-- 
2.43.0


From 9886e9a666459e8f2a315b4449b1c92100fa40e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:36 +0000
Subject: [PATCH 21/29] fix: quick parser splits statements inside
 backtick-quoted names

---
 lib/src/quick_parser.leg | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/quick_parser.leg b/lib/src/quick_parser.leg
index ab9570c..0025e8c 100644
--- a/lib/src/quick_parser.leg
+++ b/lib/src/quick_parser.leg
@@ -33,6 +33,7 @@ statement = - < statement-body > - ( ';' | EOF )
 statement-body =
     ( comment
     | quoted
+    | backtick-quoted
     | unclosed-block-comment
     | escaped-char
     | !(- ';') .
@@ -41,6 +42,7 @@ statement-body =
 quoted = single-quoted | double-quoted
 single-quoted = "'" (escaped-char | EOL | !"'" .)* ("'" | EOF)
 double-quoted = '"' (escaped-char | EOL | !'"' .)* ('"' | EOF)
+backtick-quoted = '`' (EOL | !'`' .)* ('`' | EOF)
 
 escaped-char = '\\' [abfnrtv"'?\\]
 
-- 
2.43.0


From 9e3db1e909a9d8a00dc03dedc84285ff4d3f3292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:57 +0000
Subject: [PATCH 22/29] fix: quick parser texts include trailing comments and
 whitespace

---
 lib/src/quick_parser.leg | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/lib/src/quick_parser.leg b/lib/src/quick_parser.leg
index 0025e8c..f2aa3c1 100644
--- a/lib/src/quick_parser.leg
+++ b/lib/src/quick_parser.leg
@@ -19,24 +19,29 @@ directive = (client-command | statement)
 client-command = - < ':' command-body > -- (';' | line-end)
                                        { segment(false, yy); }
 command-body =
-    ( escaped-char
-    | '\\;'
-    | '\\' -- line-end
-    | block-comment
-    | unclosed-block-comment
-    | quoted
-    | !(';' | -- line-end) .
+    ( !(-- (';' | line-end))
+      ( escaped-char
+      | '\\;'
+      | '\\' -- line-end
+      | block-comment
+      | unclosed-block-comment
+      | quoted
+      | .
+      )
     )*
 
 statement = - < statement-body > - ( ';' | EOF )
                                        { segment(true, yy); }
 statement-body =
-    ( comment
-    | quoted
-    | backtick-quoted
-    | unclosed-block-comment
-    | escaped-char
-    | !(- ';') .
+    ( !(- (';' | EOF))
+      ( comment
+      | quoted
+      | backtick-quoted
+      | unclosed-block-comment
+      | escaped-char
+      | EOL
+      | .
+      )
     )*
 
 quoted = single-quoted | double-quoted
-- 
2.43.0


From 658d961df7c7642e71c81aa7bbf829fd18868e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 23/29] fix: require that all elements of a list are children
 of the node

---
 lib/src/astnode.h | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/lib/src/astnode.h b/lib/src/astnode.h
index 6bcc683..730a4a3 100644
--- a/lib/src/astnode.h
+++ b/lib/src/astnode.h
@@ -80,10 +80,11 @@ ssize_t snprint_sequence(char *str, size_t size,
 #define REQUIRE_CONTAINS(collection, size, val, res) \
     do { \
         REQUIRE((size > 0) && (collection != NULL), res); \
-        unsigned int i = 0; \
-        while (i < size && collection[i] != val) \
-            i++; \
-        REQUIRE(i < size, res); \
+        const cypher_astnode_t *val_ = val; \
+        unsigned int contains_i_ = 0; \
+        while (contains_i_ < size && collection[contains_i_] != val_) \
+            contains_i_++; \
+        REQUIRE(contains_i_ < size, res); \
     } while(0)
 
 #define REQUIRE_CONTAINS_OPTIONAL(collection, size, val, res) \
@@ -95,9 +96,7 @@ ssize_t snprint_sequence(char *str, size_t size,
 
 #define REQUIRE_CONTAINS_ALL(collection, size, vals, nvals, res) \
     do { \
-        REQUIRE(size >= nvals, res); \
-        unsigned int j = size; \
-        while (j < size) { \
+        for (unsigned int j = 0; j < nvals; ++j) { \
             REQUIRE_CONTAINS(collection, size, vals[j], res); \
         } \
     } while(0)
-- 
2.43.0


From 922320e9d58ed00a15b604f3d403b4d769122aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 24/29] fix: check every child passed to the with, case, map
 and map projection constructors

---
 lib/src/ast_case.c           |  4 ++--
 lib/src/ast_map.c            | 12 ++++++++----
 lib/src/ast_map_projection.c |  2 ++
 lib/src/ast_with.c           |  2 ++
 4 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/lib/src/ast_case.c b/lib/src/ast_case.c
index acf5785..1c1dfca 100644
--- a/lib/src/ast_case.c
+++ b/lib/src/ast_case.c
@@ -55,8 +55,8 @@ cypher_astnode_t *cypher_ast_case(const cypher_astnode_t *expression,
 {
     REQUIRE_CHILD_OPTIONAL(children, nchildren, expression,
             CYPHER_AST_EXPRESSION, NULL);
-    REQUIRE_CHILD_ALL(children, nchildren, alternatives, nalternatives,
-            CYPHER_AST_EXPRESSION, NULL);
+    REQUIRE_CHILD_ALL(children, nchildren, alternatives,
+            nalternatives * 2, CYPHER_AST_EXPRESSION, NULL);
     REQUIRE_CHILD_OPTIONAL(children, nchildren, deflt,
             CYPHER_AST_EXPRESSION, NULL);
 
diff --git a/lib/src/ast_map.c b/lib/src/ast_map.c
index 3000f53..b48094a 100644
--- a/lib/src/ast_map.c
+++ b/lib/src/ast_map.c
@@ -77,8 +77,10 @@ cypher_astnode_t *cypher_ast_map(cypher_astnode_t * const *keys,
         cypher_astnode_t **children, unsigned int nchildren,
         struct cypher_input_range range)
 {
-    REQUIRE_TYPE_ALL(keys, nentries, CYPHER_AST_PROP_NAME, NULL);
-    REQUIRE_TYPE_ALL(values, nentries, CYPHER_AST_EXPRESSION, NULL);
+    REQUIRE_CHILD_ALL(children, nchildren, keys, nentries,
+            CYPHER_AST_PROP_NAME, NULL);
+    REQUIRE_CHILD_ALL(children, nchildren, values, nentries,
+            CYPHER_AST_EXPRESSION, NULL);
 
     struct map *node = map_init(nentries, children, nchildren, range);
     if (node == NULL)
@@ -101,8 +103,10 @@ cypher_astnode_t *cypher_ast_pair_map(cypher_astnode_t * const *pairs,
 {
     for (unsigned int i = 0; i < nentries; ++i)
     {
-        REQUIRE_TYPE(pairs[i*2], CYPHER_AST_PROP_NAME, NULL);
-        REQUIRE_TYPE(pairs[i*2 + 1], CYPHER_AST_EXPRESSION, NULL);
+        REQUIRE_CHILD(children, nchildren, pairs[i*2],
+                CYPHER_AST_PROP_NAME, NULL);
+        REQUIRE_CHILD(children, nchildren, pairs[i*2 + 1],
+                CYPHER_AST_EXPRESSION, NULL);
     }
 
     struct map *node = map_init(nentries, children, nchildren, range);
diff --git a/lib/src/ast_map_projection.c b/lib/src/ast_map_projection.c
index 2af4e32..aaa6fa0 100644
--- a/lib/src/ast_map_projection.c
+++ b/lib/src/ast_map_projection.c
@@ -54,6 +54,8 @@ cypher_astnode_t *cypher_ast_map_projection(
         struct cypher_input_range range)
 {
     REQUIRE_CHILD(children, nchildren, expression, CYPHER_AST_EXPRESSION, NULL);
+    REQUIRE_CHILD_ALL(children, nchildren, selectors, nselectors,
+            CYPHER_AST_MAP_PROJECTION_SELECTOR, NULL);
 
     struct map_projection *node = calloc(1, sizeof(struct map_projection) +
             nselectors * sizeof(cypher_astnode_t *));
diff --git a/lib/src/ast_with.c b/lib/src/ast_with.c
index 573531a..310a24c 100644
--- a/lib/src/ast_with.c
+++ b/lib/src/ast_with.c
@@ -67,6 +67,8 @@ cypher_astnode_t *cypher_ast_with(bool distinct, bool include_existing,
             CYPHER_AST_EXPRESSION, NULL);
     REQUIRE_CHILD_OPTIONAL(children, nchildren, limit,
             CYPHER_AST_EXPRESSION, NULL);
+    REQUIRE_CHILD_OPTIONAL(children, nchildren, predicate,
+            CYPHER_AST_EXPRESSION, NULL);
 
     struct with_clause *node = calloc(1, sizeof(struct with_clause) +
             nprojections * sizeof(cypher_astnode_t *));
-- 
2.43.0


From deb3d370e584ac723ab8bd2cada5ab70f8ef74d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:11 +0000
Subject: [PATCH 25/29] fix: set the last position even if there is nothing to
 consume

---
 lib/src/parser.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/parser.c b/lib/src/parser.c
index e12f2fa..f70ea13 100644
--- a/lib/src/parser.c
+++ b/lib/src/parser.c
@@ -613,6 +613,12 @@ int parse_each(yyrule rule, source_cb_t source, void *sourcedata,
     yy.source_data = sourcedata;
     cp_et_init(&(yy.error_tracking), yy.config->error_colorization);
 
+    // ensure last is set even if there is nothing to consume
+    if (last != NULL)
+    {
+        *last = yy.position_offset;
+    }
+
     struct block *top_block = NULL;
 
     if (offsets_push(&(yy.line_start_offsets), 0))
-- 
2.43.0


From 9789c1a435b9dd1c358a2a3d7fbe0d180c1e05c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:21 +0000
Subject: [PATCH 26/29] fix: describe parts with unsigned ordinals as such

---
 lib/src/ast_create.c        | 2 +-
 lib/src/ast_match.c         | 2 +-
 lib/src/ast_merge.c         | 2 +-
 lib/src/ast_named_path.c    | 2 +-
 lib/src/ast_shortest_path.c | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/src/ast_create.c b/lib/src/ast_create.c
index 391bdb7..d46bf26 100644
--- a/lib/src/ast_create.c
+++ b/lib/src/ast_create.c
@@ -102,6 +102,6 @@ ssize_t detailstr(const cypher_astnode_t *self, char *str, size_t size)
 {
     REQUIRE_TYPE(self, CYPHER_AST_CREATE, -1);
     struct create *node = container_of(self, struct create, _astnode);
-    return snprintf(str, size, "%spattern=@%d", node->unique? "UNIQUE, " : "",
+    return snprintf(str, size, "%spattern=@%u", node->unique? "UNIQUE, " : "",
             node->pattern->ordinal);
 }
diff --git a/lib/src/ast_match.c b/lib/src/ast_match.c
index 8d3f6e6..75d6d46 100644
--- a/lib/src/ast_match.c
+++ b/lib/src/ast_match.c
@@ -170,7 +170,7 @@ ssize_t detailstr(const cypher_astnode_t *self, char *str, size_t size)
     struct match *node = container_of(self, struct match, _astnode);
 
     size_t n = 0;
-    ssize_t r = snprintf(str, size, "%spattern=@%d",
+    ssize_t r = snprintf(str, size, "%spattern=@%u",
             node->optional? "OPTIONAL, " : "", node->pattern->ordinal);
     if (r < 0)
     {
diff --git a/lib/src/ast_merge.c b/lib/src/ast_merge.c
index 668be11..d003c80 100644
--- a/lib/src/ast_merge.c
+++ b/lib/src/ast_merge.c
@@ -143,7 +143,7 @@ ssize_t detailstr(const cypher_astnode_t *self, char *str, size_t size)
     struct merge *node = container_of(self, struct merge, _astnode);
 
     size_t n = 0;
-    ssize_t r = snprintf(str, size, "path=@%d", node->path->ordinal);
+    ssize_t r = snprintf(str, size, "path=@%u", node->path->ordinal);
     if (r < 0)
     {
         return -1;
diff --git a/lib/src/ast_named_path.c b/lib/src/ast_named_path.c
index b2b63ee..85ca8b2 100644
--- a/lib/src/ast_named_path.c
+++ b/lib/src/ast_named_path.c
@@ -141,6 +141,6 @@ ssize_t detailstr(const cypher_astnode_t *self, char *str, size_t size)
             container_of(self, cypher_pattern_path_astnode_t, _astnode);
     struct named_path *node =
             container_of(ppnode, struct named_path, _pattern_path_astnode);
-    return snprintf(str, size, "@%d = @%d", node->identifier->ordinal,
+    return snprintf(str, size, "@%u = @%u", node->identifier->ordinal,
             node->path->ordinal);
 }
diff --git a/lib/src/ast_shortest_path.c b/lib/src/ast_shortest_path.c
index 04c1d37..f64e0a0 100644
--- a/lib/src/ast_shortest_path.c
+++ b/lib/src/ast_shortest_path.c
@@ -138,7 +138,7 @@ ssize_t detailstr(const cypher_astnode_t *self, char *str, size_t size)
             container_of(self, cypher_pattern_path_astnode_t, _astnode);
     struct shortest_path *node =
             container_of(ppnode, struct shortest_path, _pattern_path_astnode);
-    return snprintf(str, size, "single=%s, path=@%d",
+    return snprintf(str, size, "single=%s, path=@%u",
             node->single? "true" : "false",
             node->path->ordinal);
 }
-- 
2.43.0


From 0d2580bcc2d8e2b2f74d7d487829674d71aaf66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:16 +0000
Subject: [PATCH 27/29] fix: forget the position of expectations that did not
 become an error

A segment that looked ahead beyond its end (into a comment or quote that
is never closed) left that position behind, and errors before it in the
following segment were not reported.
---
 lib/src/errors.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/errors.h b/lib/src/errors.h
index a08b697..d3c27dd 100644
--- a/lib/src/errors.h
+++ b/lib/src/errors.h
@@ -60,6 +60,10 @@ int cp_et_reify_potentials(cp_error_tracking_t *et);
 
 static inline void cp_et_clear_potentials(cp_error_tracking_t *et)
 {
+    et->last_position.line = 0;
+    et->last_position.column = 0;
+    et->last_position.offset = 0;
+    et->last_char = 0;
     et->nlabels = 0;
 }
 
-- 
2.43.0


From c12e746982959466ec2645e27fd5f12492a40c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:39 +0000
Subject: [PATCH 28/29] fix: spell relationship in expectations

---
 lib/src/parser.leg | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parser.leg b/lib/src/parser.leg
index e080017..7321ab2 100644
--- a/lib/src/parser.leg
+++ b/lib/src/parser.leg
@@ -998,7 +998,7 @@ UNION = [Uu]([Nn][Ii][Oo][Nn] WB -) ~{ERR("UNION")}
 
 node = ([Nn][Oo][Dd][Ee] WB -) ~{ERR("node")}
 relationship = ([Rr][Ee][Ll][Aa][Tt][Ii][Oo][Nn][Ss][Hh][Ii][Pp] WB -)
-    ~{ERR("relatioinship")}
+    ~{ERR("relationship")}
 rel = ([Rr][Ee][Ll] WB -) ~{ERR("rel")}
 
 USING-INDEX = ([Uu][Ss][Ii][Nn][Gg] WB - [Ii][Nn][Dd][Ee][Xx] WB -)
-- 
2.43.0


From fc9d5284769d4da67c738bafbe98a11f0be102e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:39 +0000
Subject: [PATCH 29/29] fix: do not expect a terminator where a command name is
 missing

---
 lib/src/parser.leg | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parser.leg b/lib/src/parser.leg
index 7321ab2..f4cd883 100644
--- a/lib/src/parser.leg
+++ b/lib/src/parser.leg
@@ -821,7 +821,7 @@ client-arg-string =                    { strbuf_reset(); }
 unquoted =
     ( escaped-char
     | '\\;'                            { strbuf_append(";", 1); }
-    | < (!(['"] | WS | '//' | '/*' | '\\' | SEMICOLON | EOF) .)+ >
+    | < (!(['"] | WS | '//' | '/*' | '\\' | ';' | EOF) .)+ >
                                        { strbuf_append_block(); }
     )+
 
-- 
2.43.0

