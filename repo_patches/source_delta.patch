From e79ad5a67c3b880889085d86d1ba0d57e610374e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 01/54] fix: copy the access pointers of a dependence when
 cloning it

---
 source/extensions/dependence.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/extensions/dependence.c b/source/extensions/dependence.c
index 306a651..aba8532 100644
--- a/source/extensions/dependence.c
+++ b/source/extensions/dependence.c
@@ -519,6 +519,8 @@ static osl_dependence_t* osl_dependence_nclone(const osl_dependence_t* dep,
     node = osl_dependence_malloc();
     node->stmt_source_ptr = dep->stmt_source_ptr;
     node->stmt_target_ptr = dep->stmt_target_ptr;
+    node->ref_source_access_ptr = dep->ref_source_access_ptr;
+    node->ref_target_access_ptr = dep->ref_target_access_ptr;
     node->depth = dep->depth;
     node->type = dep->type;
     node->label_source = dep->label_source;
-- 
2.43.0


From 492360741a0c2104deca0728ac81613285594125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 02/54] fix: clone the bodies of an irregular structure into
 its body array

They were written one past the end of each iterator array and body[] was left uninitialised.
---
 source/extensions/irregular.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/extensions/irregular.c b/source/extensions/irregular.c
index 8fde9e1..eea4534 100644
--- a/source/extensions/irregular.c
+++ b/source/extensions/irregular.c
@@ -459,7 +459,7 @@ osl_irregular_t* osl_irregular_clone(const osl_irregular_t* irregular) {
     }
     for (j = 0; j < copy->nb_iterators[i]; j++)
       OSL_strdup(copy->iterators[i][j], irregular->iterators[i][j]);
-    OSL_strdup(copy->iterators[i][j], irregular->body[i]);
+    OSL_strdup(copy->body[i], irregular->body[i]);
   }
 
   return copy;
-- 
2.43.0


From 5a978634ef6e1564f465297af42d97efb89c6106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 03/54] fix: do not dereference a missing statement in
 osl_statement_equal

---
 source/statement.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/statement.c b/source/statement.c
index 6cf7ada..3de955b 100644
--- a/source/statement.c
+++ b/source/statement.c
@@ -671,6 +671,11 @@ int osl_statement_equal(const osl_statement_t* const s1,
   if (s1 == s2)
     return 1;
 
+  if ((s1 == NULL) || (s2 == NULL)) {
+    OSL_info("statements are not the same");
+    return 0;
+  }
+
   if (((s1->next != NULL) && (s2->next == NULL)) ||
       ((s1->next == NULL) && (s2->next != NULL))) {
     OSL_info("statements are not the same");
-- 
2.43.0


From e871b3547c9385aafca3abee4314f2d82e4cbbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 04/54] fix: accept a missing language in osl_scop_equal

---
 source/scop.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/scop.c b/source/scop.c
index a1d9ac9..fa4f2fb 100644
--- a/source/scop.c
+++ b/source/scop.c
@@ -709,7 +709,9 @@ bool osl_scop_equal(const osl_scop_t* s1, const osl_scop_t* s2) {
       return 0;
     }
 
-    if (strcmp(s1->language, s2->language) != 0) {
+    if ((s1->language != s2->language) &&
+        ((s1->language == NULL) || (s2->language == NULL) ||
+         (strcmp(s1->language, s2->language) != 0))) {
       OSL_info("languages are not the same");
       return 0;
     }
-- 
2.43.0


From 34a3a8f5800e26b29cc029eaeb87a981afe3314b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 05/54] fix: do not dereference a missing dependence in
 osl_dependence_equal

---
 source/extensions/dependence.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/extensions/dependence.c b/source/extensions/dependence.c
index aba8532..eed2d8b 100644
--- a/source/extensions/dependence.c
+++ b/source/extensions/dependence.c
@@ -580,6 +580,9 @@ bool osl_dependence_equal(const osl_dependence_t* d1,
   if (d1 == d2)
     return 1;
 
+  if (d1 == NULL || d2 == NULL)
+    return 0;
+
   if ((d1->next != NULL && d2->next == NULL) ||
       (d1->next == NULL && d2->next != NULL))
     return 0;
-- 
2.43.0


From ae918e7bc9d91bf7cc5451ce9fa17c90f9b8e7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 06/54] fix: do not dereference a missing vector in
 osl_vector_equal

---
 source/vector.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/vector.c b/source/vector.c
index 7bce599..b456811 100644
--- a/source/vector.c
+++ b/source/vector.c
@@ -319,6 +319,9 @@ int osl_vector_equal(const osl_vector_t* const v1,
   if (v1 == v2)
     return 1;
 
+  if ((v1 == NULL) || (v2 == NULL))
+    return 0;
+
   if ((v1->size != v2->size) || (v1->precision != v2->precision))
     return 0;
 
-- 
2.43.0


From 31535bcd3174719d98df4949e5bf8bddd7764d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 07/54] fix: stop at the end of the lists in osl_region_equal

---
 source/extensions/region.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/extensions/region.c b/source/extensions/region.c
index b73632d..7c38d6e 100644
--- a/source/extensions/region.c
+++ b/source/extensions/region.c
@@ -429,6 +429,9 @@ bool osl_region_equal_one(const osl_region_t* r1, const osl_region_t* r2) {
 }
 
 bool osl_region_equal(const osl_region_t* r1, const osl_region_t* r2) {
+  if (r1 == r2)
+    return true;
+
   bool equal = osl_region_equal_one(r1, r2);
 
   if (equal)
-- 
2.43.0


From f0e92d35949dd72b0409a058408439e718d838a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 08/54] fix: compare the whole lists in osl_symbols_equal

---
 source/extensions/symbols.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/extensions/symbols.c b/source/extensions/symbols.c
index 087d11c..715784b 100644
--- a/source/extensions/symbols.c
+++ b/source/extensions/symbols.c
@@ -512,7 +512,7 @@ bool osl_symbols_equal(const osl_symbols_t* c1, const osl_symbols_t* c2) {
       if (osl_generic_equal(c1->datatype, c2->datatype)) {
         if (osl_generic_equal(c1->scope, c2->scope)) {
           if (osl_generic_equal(c1->extent, c2->extent)) {
-            return 1;
+            return osl_symbols_equal(c1->next, c2->next);
           }
         }
       }
-- 
2.43.0


From 2077e36456619a1f998d7d3d47c7d1b5d35d7ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 09/54] fix: accept missing private variables in
 osl_loop_equal_one

---
 source/extensions/loop.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/extensions/loop.c b/source/extensions/loop.c
index f6ff067..b3422c6 100644
--- a/source/extensions/loop.c
+++ b/source/extensions/loop.c
@@ -487,7 +487,8 @@ bool osl_loop_equal_one(const osl_loop_t* const a1,
 
   // TODO: necessarily same ???
   if (a1->private_vars != a2->private_vars) {  // NULL check
-    if (strcmp(a1->private_vars, a2->private_vars)) {
+    if ((a1->private_vars == NULL) || (a2->private_vars == NULL) ||
+        strcmp(a1->private_vars, a2->private_vars)) {
       // OSL_info("loops are not the same (private vars)");
       return 0;
     }
-- 
2.43.0


From 6e0075af01d2eab18fea2bdce421e5a5ff3ae1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 10/54] fix: accept a missing user field in osl_loop_equal_one

---
 source/extensions/loop.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/extensions/loop.c b/source/extensions/loop.c
index b3422c6..264b943 100644
--- a/source/extensions/loop.c
+++ b/source/extensions/loop.c
@@ -501,7 +501,8 @@ bool osl_loop_equal_one(const osl_loop_t* const a1,
   }
 
   if (a1->user != a2->user) {  // NULL check
-    if (strcmp(a1->user, a2->user)) {
+    if ((a1->user == NULL) || (a2->user == NULL) ||
+        strcmp(a1->user, a2->user)) {
       return 0;
     }
   }
-- 
2.43.0


From c704497ff22c88427988c13d507282466cc57b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 11/54] fix: compare the predicates in osl_irregular_equal

---
 source/extensions/irregular.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/extensions/irregular.c b/source/extensions/irregular.c
index eea4534..746a05a 100644
--- a/source/extensions/irregular.c
+++ b/source/extensions/irregular.c
@@ -488,6 +488,11 @@ bool osl_irregular_equal(const osl_irregular_t* const c1,
   i = 0;
   while (comp == 0 && i < c1->nb_statements) {
     comp = c1->nb_predicates[i] != c2->nb_predicates[i] ? 1 : 0;
+    j = 0;
+    while (comp == 0 && j < c1->nb_predicates[i]) {
+      comp = c1->predicates[i][j] != c2->predicates[i][j] ? 1 : 0;
+      j++;
+    }
     i++;
   }
   if (comp != 0)
-- 
2.43.0


From e3523597fc513c6e4137cc734400a93290f7f251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 12/54] fix: do not let differences cancel out in
 osl_irregular_equal

---
 source/extensions/irregular.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/extensions/irregular.c b/source/extensions/irregular.c
index 746a05a..12c49d6 100644
--- a/source/extensions/irregular.c
+++ b/source/extensions/irregular.c
@@ -501,7 +501,7 @@ bool osl_irregular_equal(const osl_irregular_t* const c1,
   i = 0;
   while (comp == 0 && i < c1->nb_control + c1->nb_exit) {
     comp += c1->nb_iterators[i] != c2->nb_iterators[i] ? 1 : 0;
-    comp += strcmp(c1->body[i], c2->body[i]);
+    comp += strcmp(c1->body[i], c2->body[i]) != 0 ? 1 : 0;
     j = 0;
     while (comp == 0 && j < c1->nb_iterators[i]) {
       comp += strcmp(c1->iterators[i][j], c2->iterators[i][j]);
-- 
2.43.0


From 2c79e28072cc719b45db1e571e61c427358a994d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:43 +0000
Subject: [PATCH 13/54] fix: accept a missing structure in osl_annotation_free

---
 source/extensions/annotation.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/extensions/annotation.c b/source/extensions/annotation.c
index bb41a58..7a1e035 100644
--- a/source/extensions/annotation.c
+++ b/source/extensions/annotation.c
@@ -291,6 +291,9 @@ osl_annotation_t* osl_annotation_malloc(void) {
 }
 
 void osl_annotation_free(osl_annotation_t* annotation) {
+  if (annotation == NULL)
+    return;
+
   osl_annotation_text_clean(&annotation->prefix);
   osl_annotation_text_clean(&annotation->suffix);
   free(annotation);
-- 
2.43.0


From 956adc0c7d6d5e37ac2bd01207bb986a1b930a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 14/54] fix: initialise the usr field in osl_statement_malloc

---
 source/statement.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/statement.c b/source/statement.c
index 3de955b..2bcbf70 100644
--- a/source/statement.c
+++ b/source/statement.c
@@ -494,6 +494,7 @@ osl_statement_t* osl_statement_malloc(void) {
   statement->scattering = NULL;
   statement->access = NULL;
   statement->extension = NULL;
+  statement->usr = NULL;
   statement->next = NULL;
 
   return statement;
-- 
2.43.0


From 9e0bcc914d38814c97107043ebc7d346629ee740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 15/54] fix: initialise the usr field in osl_symbols_malloc

---
 source/extensions/symbols.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/extensions/symbols.c b/source/extensions/symbols.c
index 715784b..a273ebd 100644
--- a/source/extensions/symbols.c
+++ b/source/extensions/symbols.c
@@ -407,6 +407,7 @@ osl_symbols_t* osl_symbols_malloc(void) {
   symbols->datatype = NULL;
   symbols->scope = NULL;
   symbols->extent = NULL;
+  symbols->usr = NULL;
   symbols->next = NULL;
 
   return symbols;
-- 
2.43.0


From 32d0173cac2ef7161fc4bb5f96b34f873406445c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 16/54] fix: initialise the usr field in osl_relation_pmalloc

---
 source/relation.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/relation.c b/source/relation.c
index 426343f..b8b5603 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -1624,6 +1624,7 @@ osl_relation_t* osl_relation_pmalloc(int precision, int nb_rows,
     }
   }
 
+  relation->usr = NULL;
   relation->next = NULL;
 
   return relation;
-- 
2.43.0


From 0167834c9514568d9b8fc860ab7afd2d7634454a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:39 +0000
Subject: [PATCH 17/54] fix: refuse a second generic with the same URI even
 when the first has no data

---
 source/generic.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/generic.c b/source/generic.c
index 8e878c4..001a981 100644
--- a/source/generic.c
+++ b/source/generic.c
@@ -361,7 +361,7 @@ osl_generic_t* osl_generic_read(FILE* const file,
  * \param[in] generic The generic list to add to the initial list.
  */
 void osl_generic_add(osl_generic_t** list, osl_generic_t* generic) {
-  osl_generic_p tmp = *list, check;
+  osl_generic_p tmp, check;
 
   if (generic != NULL) {
     // First, check that the generic list is OK.
@@ -371,12 +371,15 @@ void osl_generic_add(osl_generic_t** list, osl_generic_t* generic) {
         OSL_error("no interface or URI in a generic to add to a list");
 
       // TODO: move this to the integrity check.
-      if (osl_generic_lookup(*list, check->interface->URI) != NULL)
-        OSL_error("only one generic with a given URI is allowed");
+      // (not through osl_generic_lookup: it cannot see generics without data)
+      for (tmp = *list; tmp != NULL; tmp = tmp->next)
+        if (osl_generic_has_URI(tmp, check->interface->URI))
+          OSL_error("only one generic with a given URI is allowed");
       check = check->next;
     }
 
     if (*list != NULL) {
+      tmp = *list;
       while (tmp->next != NULL)
         tmp = tmp->next;
       tmp->next = generic;
-- 
2.43.0


From fe33a504ab385ab3de9f989cef384301ad8c96ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:38 +0000
Subject: [PATCH 18/54] fix: register_extension reads the textual extension,
 not the data of another type

---
 source/scop.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/scop.c b/source/scop.c
index fa4f2fb..93a1846 100644
--- a/source/scop.c
+++ b/source/scop.c
@@ -879,15 +879,16 @@ int osl_scop_get_nb_parameters(const osl_scop_t* scop) {
  * \param interface The extension interface to register within the scop.
  */
 void osl_scop_register_extension(osl_scop_t* scop, osl_interface_t* interface) {
-  osl_generic_p textual, new;
+  osl_textual_p textual;
+  osl_generic_p new;
   char* extension_string;
 
   if ((interface != NULL) && (scop != NULL)) {
     osl_interface_add(&scop->registry, interface);
 
-    textual = osl_generic_lookup(scop->extension, interface->URI);
-    if (textual != NULL) {
-      extension_string = ((osl_textual_p)textual->data)->textual;
+    textual = osl_generic_lookup(scop->extension, OSL_URI_TEXTUAL);
+    if ((textual != NULL) && (textual->textual != NULL)) {
+      extension_string = textual->textual;
       new = osl_generic_sread(&extension_string, interface);
       osl_generic_add(&scop->extension, new);
     }
-- 
2.43.0


From 41a46246085a9ea46ac499a6da0598e2523ca9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:06 +0000
Subject: [PATCH 19/54] fix: osl_dependence_idump dumps copies of the
 statements

It unlinked the statements the dependence refers to (owned by a scop, reached
through a const argument) while dumping them, and dereferenced them when they
are not set.
---
 source/extensions/dependence.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/source/extensions/dependence.c b/source/extensions/dependence.c
index eed2d8b..7888e6e 100644
--- a/source/extensions/dependence.c
+++ b/source/extensions/dependence.c
@@ -175,19 +175,17 @@ void osl_dependence_idump(FILE* const file, const osl_dependence_t* dependence,
     for (j = 0; j <= level; j++)
       fprintf(file, "|\t");
     fprintf(file, "Statement label: %d\n", dependence->label_source);
-    tmp = dependence->stmt_source_ptr->next;
-    dependence->stmt_source_ptr->next = NULL;
-    osl_statement_idump(file, dependence->stmt_source_ptr, level + 1);
-    dependence->stmt_source_ptr->next = tmp;
+    tmp = osl_statement_nclone(dependence->stmt_source_ptr, 1);
+    osl_statement_idump(file, tmp, level + 1);
+    osl_statement_free(tmp);
 
     /* Print the target statement. */
     for (j = 0; j <= level; j++)
       fprintf(file, "|\t");
     fprintf(file, "Target label: %d\n", dependence->label_target);
-    tmp = dependence->stmt_target_ptr->next;
-    dependence->stmt_target_ptr->next = NULL;
-    osl_statement_idump(file, dependence->stmt_target_ptr, level + 1);
-    dependence->stmt_target_ptr->next = tmp;
+    tmp = osl_statement_nclone(dependence->stmt_target_ptr, 1);
+    osl_statement_idump(file, tmp, level + 1);
+    osl_statement_free(tmp);
 
     /* Print the dependence polyhedron. */
     for (j = 0; j <= level; j++)
-- 
2.43.0


From a036768999e9fef869aa856fb1ca1ba1087d5fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:06 +0000
Subject: [PATCH 20/54] fix: osl_relation_subexpression leaves the relation
 unchanged

Opposing an expression negated the coefficients of the const relation in place
and negated them back.
---
 source/relation.c | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/source/relation.c b/source/relation.c
index b8b5603..ef5bfb6 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -418,33 +418,32 @@ char* osl_relation_subexpression(const osl_relation_t* relation, int row,
   int i, first = 1, constant;
   char* sval;
   char* sline;
+  osl_int_t value;
 
   OSL_malloc(sline, char*, OSL_MAX_STRING * sizeof(char));
   sline[0] = '\0';
+  osl_int_init(relation->precision, &value);
 
   // Create the expression. The constant is a special case.
   for (i = start; i <= stop; i++) {
-    if (oppose) {
-      osl_int_oppose(relation->precision, &relation->m[row][i],
-                     relation->m[row][i]);
-    }
+    if (oppose)
+      osl_int_oppose(relation->precision, &value, relation->m[row][i]);
+    else
+      osl_int_assign(relation->precision, &value, relation->m[row][i]);
 
     if (i == relation->nb_columns - 1)
       constant = 1;
     else
       constant = 0;
 
-    sval = osl_relation_expression_element(
-        relation->m[row][i], relation->precision, &first, constant, strings[i]);
-
-    if (oppose) {
-      osl_int_oppose(relation->precision, &relation->m[row][i],
-                     relation->m[row][i]);
-    }
+    sval = osl_relation_expression_element(value, relation->precision, &first,
+                                           constant, strings[i]);
     strcat(sline, sval);
     free(sval);
   }
 
+  osl_int_clear(relation->precision, &value);
+
   return sline;
 }
 
-- 
2.43.0


From 3791a6cfcf7eba04dfe58aec369d6bd7127ba6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:02 +0000
Subject: [PATCH 21/54] fix: osl_annotation_idump, _sprint and _clone accept an
 absent annotation

---
 source/extensions/annotation.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/source/extensions/annotation.c b/source/extensions/annotation.c
index 7a1e035..770ac3c 100644
--- a/source/extensions/annotation.c
+++ b/source/extensions/annotation.c
@@ -198,8 +198,10 @@ void osl_annotation_idump(FILE* const file, const osl_annotation_t* annotation,
   osl_annotation_idump_indent(file, level);
   fprintf(file, "\n");
 
-  osl_annotation_text_idump(file, &annotation->prefix, level + 2);
-  osl_annotation_text_idump(file, &annotation->suffix, level + 2);
+  if (annotation != NULL) {
+    osl_annotation_text_idump(file, &annotation->prefix, level + 2);
+    osl_annotation_text_idump(file, &annotation->suffix, level + 2);
+  }
 
   /* Last line. */
   osl_annotation_idump_indent(file, level);
@@ -214,6 +216,9 @@ char* osl_annotation_sprint(const osl_annotation_t* annotation) {
   char* string = NULL;
   size_t high_water_mark = OSL_MAX_STRING;
 
+  if (annotation == NULL)
+    return NULL;
+
   OSL_malloc(string, char*, high_water_mark * sizeof(char));
   string[0] = '\0';
 
@@ -304,6 +309,9 @@ void osl_annotation_free(osl_annotation_t* annotation) {
  *****************************************************************************/
 
 osl_annotation_t* osl_annotation_clone(const osl_annotation_t* const source) {
+  if (source == NULL)
+    return NULL;
+
   osl_annotation_t* const clone = osl_annotation_malloc();
 
   clone->prefix = osl_annotation_text_clone(&source->prefix);
-- 
2.43.0


From d747effab05ba1a2664b3c06481c56748e23e9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 22/54] fix: osl_scatnames_sprint accepts an absent structure

---
 source/extensions/scatnames.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/extensions/scatnames.c b/source/extensions/scatnames.c
index 68ad02e..f9d908f 100644
--- a/source/extensions/scatnames.c
+++ b/source/extensions/scatnames.c
@@ -132,6 +132,9 @@ void osl_scatnames_dump(FILE* const file,
  * \return A string containing the OpenScop dump of the scatnames structure.
  */
 char* osl_scatnames_sprint(const osl_scatnames_t* const scatnames) {
+  if (scatnames == NULL)
+    return NULL;
+
   return osl_strings_sprint(scatnames->names);
 }
 
-- 
2.43.0


From 896de2134efaeea04bdeb3c9729130501857201e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:19 +0000
Subject: [PATCH 23/54] fix: scop and statement queries and SCoPLib output
 accept absent structures

---
 source/scop.c      | 14 +++++++++++---
 source/statement.c |  7 ++++---
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/source/scop.c b/source/scop.c
index 93a1846..21e3669 100644
--- a/source/scop.c
+++ b/source/scop.c
@@ -801,21 +801,29 @@ int osl_scop_integrity_check(const osl_scop_t* scop) {
 int osl_scop_check_compatible_scoplib(const osl_scop_t* scop) {
   if (!osl_scop_integrity_check(scop))
     return 0;
+  if (scop == NULL)
+    return 1;
   if (scop->next != NULL)
     return 0;
-  if (scop == NULL || scop->statement == NULL)
+  if (scop->statement == NULL)
     return 1;
 
   osl_relation_p domain;
   osl_statement_p statement;
   osl_relation_p scattering;
-  int precision = scop->statement->scattering->precision;
+  int precision;
   int i, j;
 
   statement = scop->statement;
   while (statement != NULL) {
     scattering = statement->scattering;
 
+    if (scattering == NULL) {
+      OSL_error("No scattering relation");
+      return 0;
+    }
+    precision = scattering->precision;
+
     if (scattering->nb_local_dims != 0) {
       OSL_error("Local dims in scattering matrix");
       return 0;
@@ -861,7 +869,7 @@ int osl_scop_check_compatible_scoplib(const osl_scop_t* scop) {
  * \return The number of global parameters in the scop.
  */
 int osl_scop_get_nb_parameters(const osl_scop_t* scop) {
-  if (scop->context == NULL) {
+  if (scop == NULL || scop->context == NULL) {
     OSL_debug("no context domain, assuming 0 parameters");
     return 0;
   } else {
diff --git a/source/statement.c b/source/statement.c
index 2bcbf70..70d5ca5 100644
--- a/source/statement.c
+++ b/source/statement.c
@@ -303,8 +303,9 @@ void osl_statement_pprint_scoplib(FILE* const file,
       names->iterators = body->iterators;
     }
 
-    add_fakeiter =
-        statement->domain->nb_rows == 0 && statement->scattering->nb_rows == 1;
+    add_fakeiter = statement->domain != NULL && statement->scattering != NULL &&
+                   statement->domain->nb_rows == 0 &&
+                   statement->scattering->nb_rows == 1;
 
     fprintf(file, "# =============================================== ");
     fprintf(file, "Statement %d\n", number);
@@ -779,7 +780,7 @@ int osl_statement_integrity_check(const osl_statement_t* statement,
  * \return The number of surrounding iterators for the statement.
  */
 int osl_statement_get_nb_iterators(const osl_statement_t* const statement) {
-  if (statement->domain == NULL) {
+  if (statement == NULL || statement->domain == NULL) {
     OSL_warning("no statement domain, assuming 0 iterators");
     return 0;
   } else {
-- 
2.43.0


From 3bc4f6b865295110ef450eb67fcc3384c5796f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:58 +0000
Subject: [PATCH 24/54] fix: osl_strings_add checks its allocation

---
 source/strings.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/strings.c b/source/strings.c
index 6885b3a..66bb879 100644
--- a/source/strings.c
+++ b/source/strings.c
@@ -358,7 +358,8 @@ void osl_strings_add(osl_strings_t* const strings, char const* const string) {
   size_t original_size = osl_strings_size(strings);
   OSL_realloc(strings->string, char**, sizeof(char*) * (original_size + 1 + 1));
   strings->string[original_size + 1] = NULL;
-  strings->string[original_size] = malloc(sizeof(char) * (strlen(string) + 1));
+  OSL_malloc(strings->string[original_size], char*,
+             sizeof(char) * (strlen(string) + 1));
   strcpy(strings->string[original_size], string);
 }
 
-- 
2.43.0


From a2df4ad4e49e750489e01b747a1647dce8c4e87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:58 +0000
Subject: [PATCH 25/54] fix: osl_scop_remove_unions checks the allocation of
 the language

---
 source/scop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/scop.c b/source/scop.c
index 21e3669..6a6bc13 100644
--- a/source/scop.c
+++ b/source/scop.c
@@ -673,7 +673,7 @@ osl_scop_t* osl_scop_remove_unions(const osl_scop_t* scop) {
     new_scop->context = osl_relation_clone(scop->context);
     new_scop->extension = osl_generic_clone(scop->extension);
     if (scop->language != NULL) {
-      new_scop->language = (char*)malloc(strlen(scop->language) + 1);
+      OSL_malloc(new_scop->language, char*, strlen(scop->language) + 1);
       new_scop->language = strcpy(new_scop->language, scop->language);
     }
     new_scop->parameters = osl_generic_clone(scop->parameters);
-- 
2.43.0


From 90bb88a3e5c14d3bff90d38e80b643125b8a1e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:58 +0000
Subject: [PATCH 26/54] fix: annotation and region texts stop when memory is
 refused

---
 source/extensions/annotation.c | 15 ++++-----------
 source/extensions/region.c     | 15 ++++-----------
 2 files changed, 8 insertions(+), 22 deletions(-)

diff --git a/source/extensions/annotation.c b/source/extensions/annotation.c
index 770ac3c..bd1b2bf 100644
--- a/source/extensions/annotation.c
+++ b/source/extensions/annotation.c
@@ -85,16 +85,8 @@ int osl_annotation_text_append(osl_annotation_text_t* text, int line_type,
                                char* line) {
   const size_t count = text->count + 1;
 
-  char** lines = realloc(text->lines, count * sizeof *lines);
-  if (!lines)
-    return 1;
-
-  int* types = realloc(text->types, count * sizeof *types);
-  if (!types)
-    return 1;
-
-  text->lines = lines;
-  text->types = types;
+  OSL_realloc(text->lines, char**, count * sizeof *text->lines);
+  OSL_realloc(text->types, int*, count * sizeof *text->types);
 
   text->lines[text->count] = line;
   text->types[text->count] = line_type;
@@ -120,7 +112,8 @@ osl_annotation_text_t osl_annotation_text_clone(
       .lines = 0,
   };
   for (size_t i = 0; i < source->count; ++i) {
-    char* line = strdup(source->lines[i]);
+    char* line;
+    OSL_strdup(line, source->lines[i]);
     osl_annotation_text_append(&destination, source->types[i], line);
   }
   return destination;
diff --git a/source/extensions/region.c b/source/extensions/region.c
index 7c38d6e..887a7fc 100644
--- a/source/extensions/region.c
+++ b/source/extensions/region.c
@@ -83,16 +83,8 @@ static void osl_region_text_idump(FILE* file, const osl_region_text_t* text,
 int osl_region_text_append(osl_region_text_t* text, int line_type, char* line) {
   const size_t count = text->count + 1;
 
-  char** lines = realloc(text->lines, count * sizeof *lines);
-  if (!lines)
-    return 1;
-
-  int* types = realloc(text->types, count * sizeof *types);
-  if (!types)
-    return 1;
-
-  text->lines = lines;
-  text->types = types;
+  OSL_realloc(text->lines, char**, count * sizeof *text->lines);
+  OSL_realloc(text->types, int*, count * sizeof *text->types);
 
   text->lines[text->count] = line;
   text->types[text->count] = line_type;
@@ -118,7 +110,8 @@ osl_region_text_t osl_region_text_clone(const osl_region_text_t* source) {
       .lines = 0,
   };
   for (size_t i = 0; i < source->count; ++i) {
-    char* line = strdup(source->lines[i]);
+    char* line;
+    OSL_strdup(line, source->lines[i]);
     osl_region_text_append(&destination, source->types[i], line);
   }
   return destination;
-- 
2.43.0


From e5f905046fd488daecdac2b32f40bf45306ebc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:51 +0000
Subject: [PATCH 27/54] fix: osl_int_init_set_long and
 osl_int_init_set_long_long initialise the multi-precision number

---
 source/int.c | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/source/int.c b/source/int.c
index 24c3773..c7c0055 100644
--- a/source/int.c
+++ b/source/int.c
@@ -489,11 +489,7 @@ void osl_int_init_set_si(const int precision, osl_int_t* const variable,
  */
 void osl_int_init_set_long(const int precision, osl_int_t* const variable,
                            const long int i) {
-#ifdef OSL_GMP_IS_HERE
-  if (precision == OSL_PRECISION_MP) {
-    OSL_malloc(variable->mp, void*, sizeof(mpz_t));
-  }
-#endif
+  osl_int_init(precision, variable);
   osl_int_set_long(precision, variable, i);
 }
 
@@ -505,11 +501,7 @@ void osl_int_init_set_long(const int precision, osl_int_t* const variable,
  */
 void osl_int_init_set_long_long(const int precision, osl_int_t* const variable,
                                 const long long int i) {
-#ifdef OSL_GMP_IS_HERE
-  if (precision == OSL_PRECISION_MP) {
-    OSL_malloc(variable->mp, void*, sizeof(mpz_t));
-  }
-#endif
+  osl_int_init(precision, variable);
   osl_int_set_long_long(precision, variable, i);
 }
 
-- 
2.43.0


From 9424d3edfcc94f85dea1e67a259669c6b6ed60aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:51 +0000
Subject: [PATCH 28/54] fix: the overflow tests of osl_int_add and
 osl_int_add_si do not overflow themselves

---
 source/int.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/int.c b/source/int.c
index c7c0055..11448cd 100644
--- a/source/int.c
+++ b/source/int.c
@@ -754,7 +754,7 @@ void osl_int_add(const int precision, osl_int_t* const variable,
         if (LONG_MAX - val1.sp < val2.sp)
           OSL_overflow("osl_int_add overflow");
       } else if (osl_int_neg(precision, val1) && osl_int_neg(precision, val2)) {
-        if (val1.sp - LONG_MIN < -val2.sp)
+        if (val1.sp < LONG_MIN - val2.sp)
           OSL_overflow("osl_int_add overflow");
       }
 #endif
@@ -767,7 +767,7 @@ void osl_int_add(const int precision, osl_int_t* const variable,
         if (LLONG_MAX - val1.dp < val2.dp)
           OSL_overflow("osl_int_add overflow");
       } else if (osl_int_neg(precision, val1) && osl_int_neg(precision, val2)) {
-        if (val1.dp - LLONG_MIN < -val2.dp)
+        if (val1.dp < LLONG_MIN - val2.dp)
           OSL_overflow("osl_int_add overflow");
       }
 #endif
@@ -801,7 +801,7 @@ void osl_int_add_si(const int precision, osl_int_t* const variable,
         if (LONG_MAX - value.sp < i)
           OSL_overflow("osl_int_add_si overflow");
       } else if (osl_int_neg(precision, value) && i < 0) {
-        if (value.sp - LONG_MIN < -i)
+        if (value.sp < LONG_MIN - i)
           OSL_overflow("osl_int_add_si overflow");
       }
 #endif
@@ -814,7 +814,7 @@ void osl_int_add_si(const int precision, osl_int_t* const variable,
         if (LLONG_MAX - value.dp < i)
           OSL_overflow("osl_int_add_si overflow");
       } else if (osl_int_neg(precision, value) && i < 0) {
-        if (value.dp - LLONG_MIN < -i)
+        if (value.dp < LLONG_MIN - i)
           OSL_overflow("osl_int_add_si overflow");
       }
 #endif
-- 
2.43.0


From 52505c0ac15028ef2a14baf8d1670f54bfb9e5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:51 +0000
Subject: [PATCH 29/54] fix: osl_int_sub accepts LONG_MIN as second operand

---
 source/int.c | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/source/int.c b/source/int.c
index 11448cd..cfa44b5 100644
--- a/source/int.c
+++ b/source/int.c
@@ -845,16 +845,33 @@ void osl_int_add_si(const int precision, osl_int_t* const variable,
  */
 void osl_int_sub(const int precision, osl_int_t* const variable,
                  const osl_int_t val1, const osl_int_t val2) {
+  switch (precision) {
+    case OSL_PRECISION_SP:
+#ifndef NDEBUG
+      if (val2.sp < 0 ? val1.sp > LONG_MAX + val2.sp
+                      : val1.sp < LONG_MIN + val2.sp)
+        OSL_overflow("osl_int_sub overflow");
+#endif
+      variable->sp = val1.sp - val2.sp;
+      break;
+
+    case OSL_PRECISION_DP:
+#ifndef NDEBUG
+      if (val2.dp < 0 ? val1.dp > LLONG_MAX + val2.dp
+                      : val1.dp < LLONG_MIN + val2.dp)
+        OSL_overflow("osl_int_sub overflow");
+#endif
+      variable->dp = val1.dp - val2.dp;
+      break;
+
 #ifdef OSL_GMP_IS_HERE
-  if (precision == OSL_PRECISION_MP) {
-    mpz_sub(*variable->mp, *val1.mp, *val2.mp);
-  } else
-#endif
-  {
-    osl_int_t mval2;
-    osl_int_init(precision, &mval2);
-    osl_int_oppose(precision, &mval2, val2);
-    osl_int_add(precision, variable, val1, mval2);
+    case OSL_PRECISION_MP:
+      mpz_sub(*variable->mp, *val1.mp, *val2.mp);
+      break;
+#endif
+
+    default:
+      OSL_error("unknown precision");
   }
 }
 
-- 
2.43.0


From 667d0d8ee9c6eb90fee077a6b2e3813a85179166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:51 +0000
Subject: [PATCH 30/54] fix: osl_int_mul and osl_int_mul_si test for overflow
 before multiplying

---
 source/int.c | 53 ++++++++++++++++++++++++++++------------------------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/source/int.c b/source/int.c
index cfa44b5..e90fde2 100644
--- a/source/int.c
+++ b/source/int.c
@@ -875,6 +875,23 @@ void osl_int_sub(const int precision, osl_int_t* const variable,
   }
 }
 
+#ifndef NDEBUG
+/**
+ * osl_int_mul_overflows function:
+ * this function returns 1 if a * b is not between min and max, 0 otherwise
+ * (without computing the product).
+ */
+static int osl_int_mul_overflows(const long long int a, const long long int b,
+                                 const long long int min,
+                                 const long long int max) {
+  if (a == 0 || b == 0)
+    return 0;
+  if (a > 0)
+    return (b > 0) ? a > max / b : b < min / a;
+  return (b > 0) ? a < min / b : a < max / b;
+}
+#endif
+
 /**
  * \brief variable = val1 * val2
  * \param[in] precision Precision of the osl int
@@ -886,25 +903,19 @@ void osl_int_mul(const int precision, osl_int_t* const variable,
                  const osl_int_t val1, const osl_int_t val2) {
   switch (precision) {
     case OSL_PRECISION_SP:
-      variable->sp = val1.sp * val2.sp;
 #ifndef NDEBUG
-      if (!osl_int_zero(precision, val1) && !osl_int_zero(precision, val2)) {
-        if (variable->sp / val2.sp != val1.sp) {
-          OSL_overflow("osl_int_mul overflow");
-        }
-      }
+      if (osl_int_mul_overflows(val1.sp, val2.sp, LONG_MIN, LONG_MAX))
+        OSL_overflow("osl_int_mul overflow");
 #endif
+      variable->sp = val1.sp * val2.sp;
       break;
 
     case OSL_PRECISION_DP:
-      variable->dp = val1.dp * val2.dp;
 #ifndef NDEBUG
-      if (!osl_int_zero(precision, val1) && !osl_int_zero(precision, val2)) {
-        if (variable->dp / val2.dp != val1.dp) {
-          OSL_overflow("osl_int_mul overflow");
-        }
-      }
+      if (osl_int_mul_overflows(val1.dp, val2.dp, LLONG_MIN, LLONG_MAX))
+        OSL_overflow("osl_int_mul overflow");
 #endif
+      variable->dp = val1.dp * val2.dp;
       break;
 
 #ifdef OSL_GMP_IS_HERE
@@ -929,25 +940,19 @@ void osl_int_mul_si(const int precision, osl_int_t* const variable,
                     const osl_int_t value, const int i) {
   switch (precision) {
     case OSL_PRECISION_SP:
-      variable->sp = value.sp * (long int)i;
 #ifndef NDEBUG
-      if (!osl_int_zero(precision, value) && i != 0) {
-        if (variable->sp / (long int)i != value.sp) {
-          OSL_overflow("osl_int_mul_si overflow");
-        }
-      }
+      if (osl_int_mul_overflows(value.sp, i, LONG_MIN, LONG_MAX))
+        OSL_overflow("osl_int_mul_si overflow");
 #endif
+      variable->sp = value.sp * (long int)i;
       break;
 
     case OSL_PRECISION_DP:
-      variable->dp = value.dp * (long long int)i;
 #ifndef NDEBUG
-      if (!osl_int_zero(precision, value) && i != 0) {
-        if (variable->dp / (long long int)i != value.dp) {
-          OSL_overflow("osl_int_mul_si overflow");
-        }
-      }
+      if (osl_int_mul_overflows(value.dp, i, LLONG_MIN, LLONG_MAX))
+        OSL_overflow("osl_int_mul_si overflow");
 #endif
+      variable->dp = value.dp * (long long int)i;
       break;
 
 #ifdef OSL_GMP_IS_HERE
-- 
2.43.0


From d13c3a0f619581741163efe00c5f8378c23922ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:51 +0000
Subject: [PATCH 31/54] fix: osl_int_oppose and osl_int_abs stop when the
 result is not representable

---
 source/int.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/source/int.c b/source/int.c
index e90fde2..8ee4646 100644
--- a/source/int.c
+++ b/source/int.c
@@ -1218,10 +1218,18 @@ void osl_int_oppose(const int precision, osl_int_t* const variable,
                     const osl_int_t value) {
   switch (precision) {
     case OSL_PRECISION_SP:
+#ifndef NDEBUG
+      if (value.sp < -LONG_MAX)
+        OSL_overflow("osl_int_oppose overflow");
+#endif
       variable->sp = -value.sp;
       break;
 
     case OSL_PRECISION_DP:
+#ifndef NDEBUG
+      if (value.dp < -LLONG_MAX)
+        OSL_overflow("osl_int_oppose overflow");
+#endif
       variable->dp = -value.dp;
       break;
 
@@ -1246,10 +1254,18 @@ void osl_int_abs(const int precision, osl_int_t* const variable,
                  const osl_int_t value) {
   switch (precision) {
     case OSL_PRECISION_SP:
+#ifndef NDEBUG
+      if (value.sp < -LONG_MAX)
+        OSL_overflow("osl_int_abs overflow");
+#endif
       variable->sp = (value.sp > 0) ? value.sp : -value.sp;
       break;
 
     case OSL_PRECISION_DP:
+#ifndef NDEBUG
+      if (value.dp < -LLONG_MAX)
+        OSL_overflow("osl_int_abs overflow");
+#endif
       variable->dp = (value.dp > 0) ? value.dp : -value.dp;
       break;
 
-- 
2.43.0


From 807a31c841a5bb6b9ff4ad1f2fdb627936619830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:51 +0000
Subject: [PATCH 32/54] fix: osl_int_set_precision keeps values that do not fit
 in an int

---
 source/int.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/int.c b/source/int.c
index 8ee4646..c34d532 100644
--- a/source/int.c
+++ b/source/int.c
@@ -1654,8 +1654,8 @@ int osl_int_divisible(const int precision, const osl_int_t val1,
 void osl_int_set_precision(const int precision, const int new_precision,
                            osl_int_t* const i) {
   if (i != NULL && precision != new_precision) {
-    int v = osl_int_get_si(precision, *i);  // TODO Fix to avoid overflow
+    long long int v = osl_int_get_long_long(precision, *i);
     osl_int_clear(precision, i);
-    osl_int_init_set_si(new_precision, i, v);
+    osl_int_init_set_long_long(new_precision, i, v);
   }
 }
-- 
2.43.0


From ef235a01fd22cb038ec80ac55cfb67086041fff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:35 +0000
Subject: [PATCH 33/54] fix: dividing the smallest integer by -1 trapped
 (quotients now overflow errors, remainders 0) and its gcd was negative

---
 source/int.c | 58 ++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 43 insertions(+), 15 deletions(-)

diff --git a/source/int.c b/source/int.c
index c34d532..e68e578 100644
--- a/source/int.c
+++ b/source/int.c
@@ -978,10 +978,18 @@ void osl_int_div_exact(const int precision, osl_int_t* const q,
                        const osl_int_t a, const osl_int_t b) {
   switch (precision) {
     case OSL_PRECISION_SP:
+#ifndef NDEBUG
+      if (a.sp < -LONG_MAX && b.sp == -1)
+        OSL_overflow("osl_int_div_exact overflow");
+#endif
       q->sp = a.sp / b.sp;
       return;
 
     case OSL_PRECISION_DP:
+#ifndef NDEBUG
+      if (a.dp < -LLONG_MAX && b.dp == -1)
+        OSL_overflow("osl_int_div_exact overflow");
+#endif
       q->dp = a.dp / b.dp;
       return;
 
@@ -1007,6 +1015,10 @@ void osl_int_floor_div_q(const int precision, osl_int_t* const q,
                          const osl_int_t a, const osl_int_t b) {
   switch (precision) {
     case OSL_PRECISION_SP:
+#ifndef NDEBUG
+      if (a.sp < -LONG_MAX && b.sp == -1)
+        OSL_overflow("osl_int_floor_div_q overflow");
+#endif
       q->sp = a.sp / b.sp;
       if (q->sp < 0) {
         if (a.sp % b.sp != 0)
@@ -1020,6 +1032,10 @@ void osl_int_floor_div_q(const int precision, osl_int_t* const q,
       return;
 
     case OSL_PRECISION_DP:
+#ifndef NDEBUG
+      if (a.dp < -LLONG_MAX && b.dp == -1)
+        OSL_overflow("osl_int_floor_div_q overflow");
+#endif
       q->dp = a.dp / b.dp;
       if (q->dp < 0) {
         if (a.dp % b.dp != 0)
@@ -1054,13 +1070,15 @@ void osl_int_floor_div_r(const int precision, osl_int_t* const r,
                          const osl_int_t a, const osl_int_t b) {
   switch (precision) {
     case OSL_PRECISION_SP:
-      osl_int_floor_div_q(precision, r, a, b);
-      r->sp = a.sp - r->sp * b.sp;
+      r->sp = (b.sp == -1) ? 0 : a.sp % b.sp;
+      if (r->sp != 0 && (r->sp < 0) != (b.sp < 0))
+        r->sp += b.sp;
       return;
 
     case OSL_PRECISION_DP:
-      osl_int_floor_div_q(precision, r, a, b);
-      r->dp = a.dp - r->dp * b.dp;
+      r->dp = (b.dp == -1) ? 0 : a.dp % b.dp;
+      if (r->dp != 0 && (r->dp < 0) != (b.dp < 0))
+        r->dp += b.dp;
       return;
 
 #ifdef OSL_GMP_IS_HERE
@@ -1088,12 +1106,12 @@ void osl_int_floor_div_q_r(const int precision, osl_int_t* const q,
   switch (precision) {
     case OSL_PRECISION_SP:
       osl_int_floor_div_q(precision, q, a, b);
-      r->sp = a.sp - q->sp * b.sp;
+      osl_int_floor_div_r(precision, r, a, b);
       return;
 
     case OSL_PRECISION_DP:
       osl_int_floor_div_q(precision, q, a, b);
-      r->dp = a.dp - q->dp * b.dp;
+      osl_int_floor_div_r(precision, r, a, b);
       return;
 
 #ifdef OSL_GMP_IS_HERE
@@ -1119,15 +1137,15 @@ void osl_int_mod(const int precision, osl_int_t* const mod, const osl_int_t a,
                  const osl_int_t b) {
   switch (precision) {
     case OSL_PRECISION_SP:
-      mod->sp = a.sp % b.sp;
+      mod->sp = (b.sp == -1) ? 0 : a.sp % b.sp;
       if (mod->sp < 0)
-        mod->sp += labs(b.sp);
+        mod->sp = (b.sp < 0) ? mod->sp - b.sp : mod->sp + b.sp;
       return;
 
     case OSL_PRECISION_DP:
-      mod->dp = a.dp % b.dp;
+      mod->dp = (b.dp == -1) ? 0 : a.dp % b.dp;
       if (mod->dp < 0)
-        mod->dp += llabs(b.dp);
+        mod->dp = (b.dp < 0) ? mod->dp - b.dp : mod->dp + b.dp;
       return;
 
 #ifdef OSL_GMP_IS_HERE
@@ -1143,7 +1161,7 @@ void osl_int_mod(const int precision, osl_int_t* const mod, const osl_int_t a,
 
 // gcd (greatest common divisor) for long long int
 long long int llgcd(const long long int a, const long long int b) {
-  return (b ? llgcd(b, a % b) : a);
+  return (b ? llgcd(b, (b == -1) ? 0 : a % b) : a);
 }
 
 /**
@@ -1157,11 +1175,21 @@ void osl_int_gcd(const int precision, osl_int_t* gcd, const osl_int_t a,
                  const osl_int_t b) {
   switch (precision) {
     case OSL_PRECISION_SP:
-      gcd->sp = labs(llgcd(a.sp, b.sp));
+      gcd->sp = llgcd(a.sp, b.sp);
+#ifndef NDEBUG
+      if (gcd->sp < -LONG_MAX)
+        OSL_overflow("osl_int_gcd overflow");
+#endif
+      gcd->sp = labs(gcd->sp);
       return;
 
     case OSL_PRECISION_DP:
-      gcd->dp = llabs(llgcd(a.dp, b.dp));
+      gcd->dp = llgcd(a.dp, b.dp);
+#ifndef NDEBUG
+      if (gcd->dp < -LLONG_MAX)
+        OSL_overflow("osl_int_gcd overflow");
+#endif
+      gcd->dp = llabs(gcd->dp);
       return;
 
 #ifdef OSL_GMP_IS_HERE
@@ -1626,10 +1654,10 @@ int osl_int_divisible(const int precision, const osl_int_t val1,
                       const osl_int_t val2) {
   switch (precision) {
     case OSL_PRECISION_SP:
-      return ((val1.sp % val2.sp) == 0);
+      return (val2.sp == -1 || (val1.sp % val2.sp) == 0);
 
     case OSL_PRECISION_DP:
-      return ((val1.dp % val2.dp) == 0);
+      return (val2.dp == -1 || (val1.dp % val2.dp) == 0);
 
 #ifdef OSL_GMP_IS_HERE
     case OSL_PRECISION_MP:
-- 
2.43.0


From e64a934921e2eeb2f64f2aeda99cd7432f8e0906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:38 +0000
Subject: [PATCH 34/54] fix: the size of the smallest integer
 (osl_int_size_in_base_2 never ended)

---
 source/int.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/source/int.c b/source/int.c
index e68e578..5fdd280 100644
--- a/source/int.c
+++ b/source/int.c
@@ -1311,11 +1311,10 @@ void osl_int_abs(const int precision, osl_int_t* const variable,
 // log2 function for long long int
 size_t lllog2(long long int x) {
   size_t n = 0;
+  unsigned long long int u = (x < 0) ? -(unsigned long long int)x : x;
 
-  x = llabs(x);
-
-  while (x) {
-    x >>= 1;
+  while (u) {
+    u >>= 1;
     ++n;
   }
 
@@ -1349,11 +1348,10 @@ size_t osl_int_size_in_base_2(const int precision, const osl_int_t value) {
 // log10 function for long long int
 size_t lllog10(long long int x) {
   size_t n = 0;
+  unsigned long long int u = (x < 0) ? -(unsigned long long int)x : x;
 
-  x = llabs(x);
-
-  while (x) {
-    x /= 10;
+  while (u) {
+    u /= 10;
     ++n;
   }
 
-- 
2.43.0


From bd33cf567152fb9a84f8681ac2a19fbab27d5bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:26 +0000
Subject: [PATCH 35/54] fix: reading a number, word, line, tag or relation at
 the end of a file used a missing line

---
 source/relation.c | 2 ++
 source/strings.c  | 2 ++
 source/util.c     | 8 +++++---
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/source/relation.c b/source/relation.c
index ef5bfb6..90c04e0 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -1351,6 +1351,8 @@ osl_relation_t* osl_relation_pread(FILE* foo, int precision) {
 
       // Read relation attributes.
       c = osl_util_skip_blank_and_comments(foo, s);
+      if (c == NULL)
+        OSL_error("no relation attributes");
       read = sscanf(c, " %d %d %d %d %d %d", &nb_rows, &nb_columns,
                     &nb_output_dims, &nb_input_dims, &nb_local_dims,
                     &nb_parameters);
diff --git a/source/strings.c b/source/strings.c
index 66bb879..157dade 100644
--- a/source/strings.c
+++ b/source/strings.c
@@ -251,6 +251,8 @@ osl_strings_t* osl_strings_read(FILE* const file) {
   osl_strings_p strings;
 
   start = osl_util_skip_blank_and_comments(file, buffer);
+  if (start == NULL)
+    OSL_error("strings were expected");
   strings = osl_strings_sread(&start);
 
   return strings;
diff --git a/source/util.c b/source/util.c
index 9e08028..eb81adb 100644
--- a/source/util.c
+++ b/source/util.c
@@ -140,7 +140,7 @@ int osl_util_read_int(FILE* file, char** str) {
   if (file != NULL) {
     // Parse from a file.
     start = osl_util_skip_blank_and_comments(file, s);
-    if (sscanf(start, " %d", &res) != 1)
+    if (start == NULL || sscanf(start, " %d", &res) != 1)
       OSL_error("an int was expected");
   } else {
     // Parse from a string.
@@ -180,7 +180,7 @@ char* osl_util_read_string(FILE* file, char** str) {
   if (file != NULL) {
     // Parse from a file.
     start = osl_util_skip_blank_and_comments(file, s);
-    if (sscanf(start, " %s", res) != 1)
+    if (start == NULL || sscanf(start, " %s", res) != 1)
       OSL_error("a string was expected");
   } else {
     // Parse from a string.
@@ -223,6 +223,8 @@ char* osl_util_read_line(FILE* file, char** str) {
   if (file != NULL) {
     // Parse from a file.
     start = osl_util_skip_blank_and_comments(file, s);
+    if (start == NULL)
+      OSL_error("a line was expected");
     while (*start && *start != '\n' && *start != '#' && i < OSL_MAX_STRING)
       res[i++] = *start++;
   } else {
@@ -268,7 +270,7 @@ char* osl_util_read_tag(FILE* file, char** str) {
   }
 
   // If the end of the input has been reached, return NULL.
-  if (((file != NULL) && (feof(file))) || ((str != NULL) && (**str == '\0')))
+  if ((*str == NULL) || (**str == '\0'))
     return NULL;
 
   // Pass the starting '<'.
-- 
2.43.0


From 7ae0fa94749e10ff995ac5e118580c52511c6cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:26 +0000
Subject: [PATCH 36/54] fix: a missing matrix element (end of the line or text)
 was not detected, an element never read was used

---
 source/int.c      | 2 +-
 source/relation.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/int.c b/source/int.c
index 5fdd280..52f0c76 100644
--- a/source/int.c
+++ b/source/int.c
@@ -694,7 +694,7 @@ int osl_int_sscanf(const char* const string, const int precision,
       OSL_error("unknown precision");
   }
 
-  if (nb_read == 0) {
+  if (nb_read != 1) {
     OSL_error("failed to read an integer");
   }
 
diff --git a/source/relation.c b/source/relation.c
index 90c04e0..1322e43 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -1391,7 +1391,7 @@ osl_relation_t* osl_relation_pread(FILE* foo, int precision) {
       for (j = 0; j < relation->nb_columns; j++) {
         if (c == NULL || *c == '#' || *c == '\n')
           OSL_error("not enough columns");
-        if (sscanf(c, "%s%n", str, &n) == 0)
+        if (sscanf(c, "%s%n", str, &n) != 1)
           OSL_error("not enough rows");
 
         // TODO: remove this tmp (sread updates the pointer).
@@ -1511,7 +1511,7 @@ osl_relation_t* osl_relation_psread_polylib(char** input, int precision) {
       for (j = 0; j < relation->nb_columns; j++) {
         if (*input == NULL || **input == '#' || **input == '\n')
           OSL_error("not enough columns");
-        if (sscanf(*input, "%s%n", str, &n) == 0)
+        if (sscanf(*input, "%s%n", str, &n) != 1)
           OSL_error("not enough rows");
 
         // TODO: remove this tmp (sread updates the pointer).
-- 
2.43.0


From 7b1bfa5059d96db7697ef2c3f9513f1687dc851c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:26 +0000
Subject: [PATCH 37/54] fix: a missing end tag was not detected (the missing
 content was dereferenced or silently dropped)

---
 source/generic.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/generic.c b/source/generic.c
index 001a981..9a956ce 100644
--- a/source/generic.c
+++ b/source/generic.c
@@ -268,6 +268,8 @@ osl_generic_t* osl_generic_sread_one(char** const input,
   }
 
   content = osl_util_read_uptoendtag(NULL, input, tag);
+  if (content == NULL)
+    OSL_error("missing end tag");
   interface = osl_interface_lookup(registry, tag);
 
   temp = content;
@@ -310,6 +312,8 @@ osl_generic_t* osl_generic_read_one(FILE* const file,
   }
 
   content = osl_util_read_uptoendtag(file, NULL, tag);
+  if (content == NULL)
+    OSL_error("missing end tag");
   interface = osl_interface_lookup(registry, tag);
 
   temp = content;
@@ -342,6 +346,8 @@ osl_generic_t* osl_generic_read(FILE* const file,
   osl_generic_p generic_list;
 
   generic_string = osl_util_read_uptoendtag(file, NULL, OSL_URI_SCOP);
+  if (generic_string == NULL)
+    OSL_error("missing end tag of the scop");
   temp = generic_string;
   generic_list = osl_generic_sread(&temp, registry);
   free(generic_string);
-- 
2.43.0


From 222ac894c2f3e8af5dfd6c11a87467163d3143de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:55 +0000
Subject: [PATCH 38/54] fix: osl_irregular_sread used missing and malformed
 numbers and words, and dropped every other iterator

---
 source/extensions/irregular.c | 53 +++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 15 deletions(-)

diff --git a/source/extensions/irregular.c b/source/extensions/irregular.c
index 12c49d6..14bc558 100644
--- a/source/extensions/irregular.c
+++ b/source/extensions/irregular.c
@@ -250,6 +250,32 @@ char* osl_irregular_sprint(const osl_irregular_t* const irregular) {
  *                               Reading function                             *
  ******************************************************************************/
 
+/**
+ * osl_irregular_next internal function:
+ * this function returns the next token of the text being read (see strtok())
+ * and stops with an error message if there is no such token.
+ */
+static char* osl_irregular_next(char* text, const char* separators) {
+  char* token = strtok(text, separators);
+
+  if (token == NULL)
+    OSL_error("truncated irregular information");
+  return token;
+}
+
+/**
+ * osl_irregular_next_int internal function:
+ * this function returns the integer which is the next token of the text being
+ * read and stops with an error message if the next token is not an integer.
+ */
+static int osl_irregular_next_int(char* text) {
+  int value;
+
+  if (sscanf(osl_irregular_next(text, " \n"), "%d", &value) != 1)
+    OSL_error("an int was expected");
+  return value;
+}
+
 /**
  * osl_irregular_sread function:
  * this function reads a irregular structure from a string complying to the
@@ -279,8 +305,7 @@ osl_irregular_t* osl_irregular_sread(char** extensions_fixme) {
   irregular = osl_irregular_malloc();
 
   // nb statements
-  tok = strtok(content, " \n");
-  irregular->nb_statements = atoi(tok);
+  irregular->nb_statements = osl_irregular_next_int(content);
   OSL_malloc(irregular->predicates, int**,
              sizeof(int*) * irregular->nb_statements);
   OSL_malloc(irregular->nb_predicates, int*,
@@ -289,21 +314,17 @@ osl_irregular_t* osl_irregular_sread(char** extensions_fixme) {
   // get predicats
   for (i = 0; i < irregular->nb_statements; i++) {
     // nb conditions
-    tok = strtok(NULL, " \n");
-    irregular->nb_predicates[i] = atoi(tok);
+    irregular->nb_predicates[i] = osl_irregular_next_int(NULL);
     OSL_malloc(irregular->predicates[i], int*,
                sizeof(int) * irregular->nb_predicates[i]);
     for (j = 0; j < irregular->nb_predicates[i]; j++) {
-      tok = strtok(NULL, " \n");
-      irregular->predicates[i][j] = atoi(tok);
+      irregular->predicates[i][j] = osl_irregular_next_int(NULL);
     }
   }
   // Get nb predicat
   // control and exits :
-  tok = strtok(NULL, " \n");
-  irregular->nb_control = atoi(tok);
-  tok = strtok(NULL, " \n");
-  irregular->nb_exit = atoi(tok);
+  irregular->nb_control = osl_irregular_next_int(NULL);
+  irregular->nb_exit = osl_irregular_next_int(NULL);
 
   int nb_predicates = irregular->nb_control + irregular->nb_exit;
 
@@ -313,16 +334,18 @@ osl_irregular_t* osl_irregular_sread(char** extensions_fixme) {
 
   for (i = 0; i < nb_predicates; i++) {
     // Get number of iterators
-    tok = strtok(NULL, " \n");
-    irregular->nb_iterators[i] = atoi(tok);
+    irregular->nb_iterators[i] = osl_irregular_next_int(NULL);
     OSL_malloc(irregular->iterators[i], char**,
                sizeof(char*) * irregular->nb_iterators[i]);
 
     // Get iterators
-    for (j = 0; j < irregular->nb_iterators[i]; j++)
-      OSL_strdup(irregular->iterators[i][j], strtok(NULL, " \n"));
+    for (j = 0; j < irregular->nb_iterators[i]; j++) {
+      tok = osl_irregular_next(NULL, " \n");
+      OSL_strdup(irregular->iterators[i][j], tok);
+    }
     // Get predicat string
-    OSL_strdup(irregular->body[i], strtok(NULL, "\n"));
+    tok = osl_irregular_next(NULL, "\n");
+    OSL_strdup(irregular->body[i], tok);
   }
 
   return irregular;
-- 
2.43.0


From c580059d3fcc6267375f0eba36fac25a533056d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:20 +0000
Subject: [PATCH 39/54] fix: a malformed dependence or symbol type was silently
 read as an undefined one

---
 source/extensions/dependence.c | 4 ++++
 source/extensions/symbols.c    | 4 +++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/extensions/dependence.c b/source/extensions/dependence.c
index 7888e6e..3feb583 100644
--- a/source/extensions/dependence.c
+++ b/source/extensions/dependence.c
@@ -347,6 +347,10 @@ static osl_dependence_p osl_dependence_read_one_dep(char** input,
     dep->type = OSL_DEPENDENCE_WAW;
   else if (!strcmp(buffer, "RAW_SCALPRIV"))
     dep->type = OSL_DEPENDENCE_RAW_SCALPRIV;
+  else if (!strcmp(buffer, "UNSET"))
+    dep->type = OSL_UNDEFINED;
+  else
+    OSL_error("dependence type not supported");
   free(buffer);
 
   /* # From source statement xxx */
diff --git a/source/extensions/symbols.c b/source/extensions/symbols.c
index a273ebd..10c659e 100644
--- a/source/extensions/symbols.c
+++ b/source/extensions/symbols.c
@@ -350,8 +350,10 @@ osl_symbols_t* osl_symbols_sread(char** input) {
         symbols->type = OSL_SYMBOL_TYPE_ARRAY;
       else if (strcmp(type, "Function") == 0)
         symbols->type = OSL_SYMBOL_TYPE_FUNCTION;
-      else
+      else if (strcmp(type, "Undefined") == 0)
         symbols->type = OSL_UNDEFINED;
+      else
+        OSL_error("symbol type not supported");
       free(type);
     }
 
-- 
2.43.0


From c3dc31d7932ed27913004efc277484384a461287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:25 +0000
Subject: [PATCH 40/54] fix: osl_relation_list_set_type set the type of the
 first part of each union only

---
 source/relation_list.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/source/relation_list.c b/source/relation_list.c
index ec373ba..4255793 100644
--- a/source/relation_list.c
+++ b/source/relation_list.c
@@ -650,9 +650,7 @@ int osl_relation_list_integrity_check(const osl_relation_list_t* list, int type,
  */
 void osl_relation_list_set_type(osl_relation_list_t* list, int type) {
   while (list != NULL) {
-    if (list->elt != NULL) {
-      list->elt->type = type;
-    }
+    osl_relation_set_type(list->elt, type);
     list = list->next;
   }
 }
-- 
2.43.0


From 79fd471ec791a24d0efb4ef14a9e3d0928f4bf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:25 +0000
Subject: [PATCH 41/54] fix: osl_scop_normalize_scattering ignored all but the
 first part of a scattering union

---
 source/scop.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/scop.c b/source/scop.c
index 6a6bc13..ebf9d8a 100644
--- a/source/scop.c
+++ b/source/scop.c
@@ -958,15 +958,17 @@ void osl_scop_get_attributes(const osl_scop_t* scop, int* nb_parameters,
 void osl_scop_normalize_scattering(osl_scop_t* scop) {
   int max_scattering_dims = 0;
   osl_statement_p statement;
-  osl_relation_p extended;
+  osl_relation_p extended, scattering;
 
   if ((scop != NULL) && (scop->statement != NULL)) {
     // Get the max number of scattering dimensions.
     statement = scop->statement;
     while (statement != NULL) {
-      if (statement->scattering != NULL) {
+      scattering = statement->scattering;
+      while (scattering != NULL) {
         max_scattering_dims =
-            OSL_max(max_scattering_dims, statement->scattering->nb_output_dims);
+            OSL_max(max_scattering_dims, scattering->nb_output_dims);
+        scattering = scattering->next;
       }
       statement = statement->next;
     }
-- 
2.43.0


From c5fa6ad713b4630b9125870418d7ab5f0f6209e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:25 +0000
Subject: [PATCH 42/54] fix: osl_scop_remove_unions lost the statements made of
 all but the first part when another statement followed

---
 source/scop.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/source/scop.c b/source/scop.c
index ebf9d8a..c8b3f2f 100644
--- a/source/scop.c
+++ b/source/scop.c
@@ -664,11 +664,10 @@ osl_scop_t* osl_scop_remove_unions(const osl_scop_t* scop) {
         new_scop->statement = scop_statement_ptr;
       } else {
         scop_statement_ptr->next = new_statement;
-        scop_statement_ptr = scop_statement_ptr->next;
       }
+      while (scop_statement_ptr->next != NULL)
+        scop_statement_ptr = scop_statement_ptr->next;
     }
-    while (scop_statement_ptr && scop_statement_ptr->next != NULL)
-      scop_statement_ptr = scop_statement_ptr->next;
 
     new_scop->context = osl_relation_clone(scop->context);
     new_scop->extension = osl_generic_clone(scop->extension);
-- 
2.43.0


From 4995ff44b91d26b6bcaeaf643d36ed00aa63cc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:42 +0000
Subject: [PATCH 43/54] fix: osl_scop_check_compatible_scoplib checked the
 first part of a scattering union only

---
 source/scop.c | 42 +++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/source/scop.c b/source/scop.c
index c8b3f2f..f98bae7 100644
--- a/source/scop.c
+++ b/source/scop.c
@@ -821,12 +821,6 @@ int osl_scop_check_compatible_scoplib(const osl_scop_t* scop) {
       OSL_error("No scattering relation");
       return 0;
     }
-    precision = scattering->precision;
-
-    if (scattering->nb_local_dims != 0) {
-      OSL_error("Local dims in scattering matrix");
-      return 0;
-    }
 
     domain = statement->domain;
     while (domain != NULL) {
@@ -837,22 +831,32 @@ int osl_scop_check_compatible_scoplib(const osl_scop_t* scop) {
       domain = domain->next;
     }
 
-    // Check if there is only the -Identity in the output_dims
-    // and the lines MUST be in the right order
-    for (i = 0; i < scattering->nb_rows; i++) {
-      for (j = 0; j < scattering->nb_output_dims; j++) {
-        if (i == j) {  // -1
-          if (!osl_int_mone(precision, scattering->m[i][j + 1])) {
-            OSL_error("Wrong -Identity");
-            return 0;
-          }
-        } else {  // 0
-          if (!osl_int_zero(precision, scattering->m[i][j + 1])) {
-            OSL_error("Wrong -Identity");
-            return 0;
+    while (scattering != NULL) {
+      precision = scattering->precision;
+
+      if (scattering->nb_local_dims != 0) {
+        OSL_error("Local dims in scattering matrix");
+        return 0;
+      }
+
+      // Check if there is only the -Identity in the output_dims
+      // and the lines MUST be in the right order
+      for (i = 0; i < scattering->nb_rows; i++) {
+        for (j = 0; j < scattering->nb_output_dims; j++) {
+          if (i == j) {  // -1
+            if (!osl_int_mone(precision, scattering->m[i][j + 1])) {
+              OSL_error("Wrong -Identity");
+              return 0;
+            }
+          } else {  // 0
+            if (!osl_int_zero(precision, scattering->m[i][j + 1])) {
+              OSL_error("Wrong -Identity");
+              return 0;
+            }
           }
         }
       }
+      scattering = scattering->next;
     }
 
     statement = statement->next;
-- 
2.43.0


From 6d8eed950177c1de91f688e9855887354f054f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:55 +0000
Subject: [PATCH 44/54] fix: extend_output takes each part's own precision and
 accepts no relation

---
 source/relation.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/relation.c b/source/relation.c
index 1322e43..d5ba6d0 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -2827,13 +2827,14 @@ osl_relation_t* osl_relation_extend_output(const osl_relation_t* relation,
   int i, j;
   int first = 1;
   int offset;
-  int precision = relation->precision;
+  int precision;
   osl_relation_p extended = NULL, node, previous = NULL;
 
   while (relation != NULL) {
     if (relation->nb_output_dims > dim)
       OSL_error("Number of output dims is greater than required extension");
     offset = dim - relation->nb_output_dims;
+    precision = relation->precision;
 
     node = osl_relation_pmalloc(precision, relation->nb_rows + offset,
                                 relation->nb_columns + offset);
-- 
2.43.0


From 6ce5a66c51ce18c715efb891b844a1982fd3a8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:51 +0000
Subject: [PATCH 45/54] fix: adding or subtracting a vector without entries
 accessed entry 0

---
 source/relation.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/relation.c b/source/relation.c
index d5ba6d0..c40c6db 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -1888,6 +1888,9 @@ void osl_relation_add_vector(osl_relation_t* relation,
       (row < 0))
     OSL_error("vector cannot be added to relation");
 
+  if (vector->size == 0)
+    return;
+
   if (osl_int_get_si(relation->precision, relation->m[row][0]) == 0)
     osl_int_assign(relation->precision, &relation->m[row][0], vector->v[0]);
 
@@ -1915,6 +1918,9 @@ void osl_relation_sub_vector(osl_relation_t* relation,
       (row < 0))
     OSL_error("vector cannot be subtracted to row");
 
+  if (vector->size == 0)
+    return;
+
   if (osl_int_get_si(relation->precision, relation->m[row][0]) == 0)
     osl_int_assign(relation->precision, &relation->m[row][0], vector->v[0]);
 
-- 
2.43.0


From 94b04bebc7d41ed5e5dad56e360b2eedf328eea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:51 +0000
Subject: [PATCH 46/54] fix: osl_relation_replace_constraints accepted rows so
 large that row + nb_rows wrapped

---
 source/relation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/relation.c b/source/relation.c
index c40c6db..c32d6d1 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -2064,7 +2064,7 @@ void osl_relation_replace_constraints(osl_relation_t* r1,
 
   if ((r1 == NULL) || (r2 == NULL) || (r1->precision != r2->precision) ||
       (r1->nb_columns != r2->nb_columns) ||
-      ((row + r2->nb_rows) > r1->nb_rows) || (row < 0))
+      (row > (r1->nb_rows - r2->nb_rows)) || (row < 0))
     OSL_error("relation rows could not be replaced");
 
   for (i = 0; i < r2->nb_rows; i++)
-- 
2.43.0


From 725cb0a5281426a1262cba38adc6277db8014b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:25 +0000
Subject: [PATCH 47/54] fix: osl_generic_read_one and osl_generic_sread_one
 leaked the tag when it is empty or a closing one

---
 source/generic.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/generic.c b/source/generic.c
index 9a956ce..0d76393 100644
--- a/source/generic.c
+++ b/source/generic.c
@@ -264,6 +264,7 @@ osl_generic_t* osl_generic_sread_one(char** const input,
   tag = osl_util_read_tag(NULL, input);
   if ((tag == NULL) || (strlen(tag) < 1) || (tag[0] == '/')) {
     OSL_debug("empty tag name or closing tag instead of an opening one");
+    free(tag);
     return NULL;
   }
 
@@ -308,6 +309,7 @@ osl_generic_t* osl_generic_read_one(FILE* const file,
   tag = osl_util_read_tag(file, NULL);
   if ((tag == NULL) || (strlen(tag) < 1) || (tag[0] == '/')) {
     OSL_debug("empty tag name or closing tag instead of an opening one");
+    free(tag);
     return NULL;
   }
 
-- 
2.43.0


From 41fc8f0a18aadfa82f391be3f8e5c7bba43d387e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:15 +0000
Subject: [PATCH 48/54] fix: printing a long name, line, comment, script or URI
 overran the fixed-size line buffer

---
 source/extensions/annotation.c  |  8 ++++++--
 source/extensions/arrays.c      |  6 +++++-
 source/extensions/clay.c        |  6 +++---
 source/extensions/comment.c     |  6 +++---
 source/extensions/coordinates.c |  7 +++++--
 source/extensions/loop.c        | 16 ++++++++++------
 source/extensions/region.c      |  8 ++++++--
 source/generic.c                | 12 ++++++++----
 source/strings.c                |  3 +--
 9 files changed, 47 insertions(+), 25 deletions(-)

diff --git a/source/extensions/annotation.c b/source/extensions/annotation.c
index bd1b2bf..835818b 100644
--- a/source/extensions/annotation.c
+++ b/source/extensions/annotation.c
@@ -229,8 +229,12 @@ char* osl_annotation_sprint(const osl_annotation_t* annotation) {
     for (size_t i = 0; i < annotation->field.count; ++i) {     \
       sprintf(buffer, "%d ", annotation->field.types[i]);      \
       osl_util_safe_strcat(&string, buffer, &high_water_mark); \
-      sprintf(buffer, "%s\n", annotation->field.lines[i]);     \
-      osl_util_safe_strcat(&string, buffer, &high_water_mark); \
+      osl_util_safe_strcat(&string,                            \
+                           annotation->field.lines[i] != NULL  \
+                               ? annotation->field.lines[i]    \
+                               : "(null)",                     \
+                           &high_water_mark);                  \
+      osl_util_safe_strcat(&string, "\n", &high_water_mark);   \
     }                                                          \
   } while (0)
 
diff --git a/source/extensions/arrays.c b/source/extensions/arrays.c
index 71856a9..ba1ddd2 100644
--- a/source/extensions/arrays.c
+++ b/source/extensions/arrays.c
@@ -160,8 +160,12 @@ char* osl_arrays_sprint(const osl_arrays_t* const arrays) {
       osl_util_safe_strcat(&string, buffer, &high_water_mark);
     }
     for (i = 0; i < arrays->nb_names; i++) {
-      sprintf(buffer, "%d %s\n", arrays->id[i], arrays->names[i]);
+      sprintf(buffer, "%d ", arrays->id[i]);
       osl_util_safe_strcat(&string, buffer, &high_water_mark);
+      osl_util_safe_strcat(
+          &string, arrays->names[i] != NULL ? arrays->names[i] : "(null)",
+          &high_water_mark);
+      osl_util_safe_strcat(&string, "\n", &high_water_mark);
     }
 
     OSL_realloc(string, char*, (strlen(string) + 1) * sizeof(char));
diff --git a/source/extensions/clay.c b/source/extensions/clay.c
index b65cdc2..6fa1685 100644
--- a/source/extensions/clay.c
+++ b/source/extensions/clay.c
@@ -137,15 +137,15 @@ void osl_clay_dump(FILE* const file, const osl_clay_t* const clay) {
 char* osl_clay_sprint(const osl_clay_t* const clay) {
   size_t high_water_mark = OSL_MAX_STRING;
   char* string = NULL;
-  char buffer[OSL_MAX_STRING];
 
   if (clay != NULL) {
     OSL_malloc(string, char*, high_water_mark * sizeof(char));
     string[0] = '\0';
 
     // Print the clay.
-    sprintf(buffer, "%s", clay->script);
-    osl_util_safe_strcat(&string, buffer, &high_water_mark);
+    osl_util_safe_strcat(&string,
+                         clay->script != NULL ? clay->script : "(null)",
+                         &high_water_mark);
 
     // Keep only the memory space we need.
     OSL_realloc(string, char*, (strlen(string) + 1) * sizeof(char));
diff --git a/source/extensions/comment.c b/source/extensions/comment.c
index 1798d15..c1e6104 100644
--- a/source/extensions/comment.c
+++ b/source/extensions/comment.c
@@ -138,15 +138,15 @@ void osl_comment_dump(FILE* const file, const osl_comment_t* const comment) {
 char* osl_comment_sprint(const osl_comment_t* const comment) {
   size_t high_water_mark = OSL_MAX_STRING;
   char* string = NULL;
-  char buffer[OSL_MAX_STRING];
 
   if (comment != NULL) {
     OSL_malloc(string, char*, high_water_mark * sizeof(char));
     string[0] = '\0';
 
     // Print the comment.
-    sprintf(buffer, "%s", comment->comment);
-    osl_util_safe_strcat(&string, buffer, &high_water_mark);
+    osl_util_safe_strcat(&string,
+                         comment->comment != NULL ? comment->comment : "(null)",
+                         &high_water_mark);
 
     // Keep only the memory space we need.
     OSL_realloc(string, char*, (strlen(string) + 1) * sizeof(char));
diff --git a/source/extensions/coordinates.c b/source/extensions/coordinates.c
index e9e9b44..c0551c3 100644
--- a/source/extensions/coordinates.c
+++ b/source/extensions/coordinates.c
@@ -159,8 +159,11 @@ char* osl_coordinates_sprint(const osl_coordinates_t* const coordinates) {
     string[0] = '\0';
 
     // Print the coordinates content.
-    sprintf(buffer, "# File name\n%s\n", coordinates->name);
-    osl_util_safe_strcat(&string, buffer, &high_water_mark);
+    osl_util_safe_strcat(&string, "# File name\n", &high_water_mark);
+    osl_util_safe_strcat(
+        &string, coordinates->name != NULL ? coordinates->name : "(null)",
+        &high_water_mark);
+    osl_util_safe_strcat(&string, "\n", &high_water_mark);
 
     sprintf(buffer, "# Starting line and column\n%d %d\n",
             coordinates->line_start, coordinates->column_start);
diff --git a/source/extensions/loop.c b/source/extensions/loop.c
index 264b943..64f837d 100644
--- a/source/extensions/loop.c
+++ b/source/extensions/loop.c
@@ -204,8 +204,9 @@ char* osl_loop_sprint(const osl_loop_t* loop) {
 
     sprintf(buffer, "# Iterator name\n");
     osl_util_safe_strcat(&string, buffer, &high_water_mark);
-    sprintf(buffer, "%s\n", loop->iter);
-    osl_util_safe_strcat(&string, buffer, &high_water_mark);
+    osl_util_safe_strcat(&string, loop->iter != NULL ? loop->iter : "(null)",
+                         &high_water_mark);
+    osl_util_safe_strcat(&string, "\n", &high_water_mark);
 
     sprintf(buffer, "# Number of stmts\n");
     osl_util_safe_strcat(&string, buffer, &high_water_mark);
@@ -223,8 +224,10 @@ char* osl_loop_sprint(const osl_loop_t* loop) {
 
     sprintf(buffer, "# Private variables\n");
     osl_util_safe_strcat(&string, buffer, &high_water_mark);
-    sprintf(buffer, "%s\n", loop->private_vars);
-    osl_util_safe_strcat(&string, buffer, &high_water_mark);
+    osl_util_safe_strcat(
+        &string, loop->private_vars != NULL ? loop->private_vars : "(null)",
+        &high_water_mark);
+    osl_util_safe_strcat(&string, "\n", &high_water_mark);
 
     sprintf(buffer, "# Directive\n");
     osl_util_safe_strcat(&string, buffer, &high_water_mark);
@@ -233,8 +236,9 @@ char* osl_loop_sprint(const osl_loop_t* loop) {
 
     // special case for OSL_LOOP_DIRECTIVE_USER
     if (loop->directive & OSL_LOOP_DIRECTIVE_USER) {
-      sprintf(buffer, " %s", loop->user);
-      osl_util_safe_strcat(&string, buffer, &high_water_mark);
+      osl_util_safe_strcat(&string, " ", &high_water_mark);
+      osl_util_safe_strcat(&string, loop->user != NULL ? loop->user : "(null)",
+                           &high_water_mark);
     }
     sprintf(buffer, "\n");
     osl_util_safe_strcat(&string, buffer, &high_water_mark);
diff --git a/source/extensions/region.c b/source/extensions/region.c
index 887a7fc..d11b75f 100644
--- a/source/extensions/region.c
+++ b/source/extensions/region.c
@@ -266,8 +266,12 @@ char* osl_region_sprint(const osl_region_t* region) {
     for (size_t i = 0; i < region->field.count; ++i) {         \
       sprintf(buffer, "%d ", region->field.types[i]);          \
       osl_util_safe_strcat(&string, buffer, &high_water_mark); \
-      sprintf(buffer, "%s\n", region->field.lines[i]);         \
-      osl_util_safe_strcat(&string, buffer, &high_water_mark); \
+      osl_util_safe_strcat(&string,                            \
+                           region->field.lines[i] != NULL      \
+                               ? region->field.lines[i]        \
+                               : "(null)",                     \
+                           &high_water_mark);                  \
+      osl_util_safe_strcat(&string, "\n", &high_water_mark);   \
     }                                                          \
   } while (0)
 
diff --git a/source/generic.c b/source/generic.c
index 0d76393..a4636be 100644
--- a/source/generic.c
+++ b/source/generic.c
@@ -161,12 +161,16 @@ char* osl_generic_sprint(const osl_generic_t* generic) {
     if (generic->interface != NULL) {
       content = generic->interface->sprint(generic->data);
       if (content != NULL) {
-        sprintf(buffer, "<%s>\n", generic->interface->URI);
-        osl_util_safe_strcat(&string, buffer, &high_water_mark);
+        osl_util_safe_strcat(&string, "<", &high_water_mark);
+        osl_util_safe_strcat(&string, generic->interface->URI,
+                             &high_water_mark);
+        osl_util_safe_strcat(&string, ">\n", &high_water_mark);
         osl_util_safe_strcat(&string, content, &high_water_mark);
         free(content);
-        sprintf(buffer, "</%s>\n", generic->interface->URI);
-        osl_util_safe_strcat(&string, buffer, &high_water_mark);
+        osl_util_safe_strcat(&string, "</", &high_water_mark);
+        osl_util_safe_strcat(&string, generic->interface->URI,
+                             &high_water_mark);
+        osl_util_safe_strcat(&string, ">\n", &high_water_mark);
       }
     }
     generic = generic->next;
diff --git a/source/strings.c b/source/strings.c
index 157dade..72c5f11 100644
--- a/source/strings.c
+++ b/source/strings.c
@@ -134,8 +134,7 @@ char* osl_strings_sprint(const osl_strings_t* strings) {
 
   if (strings != NULL) {
     for (i = 0; i < osl_strings_size(strings); i++) {
-      sprintf(buffer, "%s", strings->string[i]);
-      osl_util_safe_strcat(&string, buffer, &high_water_mark);
+      osl_util_safe_strcat(&string, strings->string[i], &high_water_mark);
       if (i < osl_strings_size(strings) - 1)
         osl_util_safe_strcat(&string, " ", &high_water_mark);
     }
-- 
2.43.0


From 0988c2dcf9906217950b3a24e1c8a85bce0a8506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:15 +0000
Subject: [PATCH 49/54] fix: osl_pluto_unroll_sprint collected the whole list
 in a buffer of fixed size

---
 source/extensions/pluto_unroll.c | 38 +++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/source/extensions/pluto_unroll.c b/source/extensions/pluto_unroll.c
index d5f4190..f808439 100644
--- a/source/extensions/pluto_unroll.c
+++ b/source/extensions/pluto_unroll.c
@@ -164,38 +164,46 @@ void osl_pluto_unroll_dump(FILE* const file,
  * \return a string containing the OpenScop dump of the loop structure.
  */
 char* osl_pluto_unroll_sprint(const osl_pluto_unroll_t* pluto_unroll) {
+  size_t high_water_mark = OSL_MAX_STRING;
   char* string = NULL;
-  char buffer[OSL_MAX_STRING] = {0};
+  char buffer[OSL_MAX_STRING];
 
-  strcat(buffer, "# Pluto unroll\n");
+  OSL_malloc(string, char*, high_water_mark * sizeof(char));
+  string[0] = '\0';
+
+  osl_util_safe_strcat(&string, "# Pluto unroll\n", &high_water_mark);
   if (pluto_unroll != NULL) {
-    strcat(buffer, "1\n");
+    osl_util_safe_strcat(&string, "1\n", &high_water_mark);
   } else {
-    strcat(buffer, "0\n");
+    osl_util_safe_strcat(&string, "0\n", &high_water_mark);
   }
 
   while (pluto_unroll != NULL) {
-    strcat(buffer, "# Iterator name\n");
-    sprintf(buffer + strlen(buffer), "%s\n", pluto_unroll->iter);
+    osl_util_safe_strcat(&string, "# Iterator name\n", &high_water_mark);
+    osl_util_safe_strcat(
+        &string, pluto_unroll->iter != NULL ? pluto_unroll->iter : "(null)",
+        &high_water_mark);
+    osl_util_safe_strcat(&string, "\n", &high_water_mark);
 
-    strcat(buffer, "# Jam\n");
-    sprintf(buffer + strlen(buffer), "%i\n", pluto_unroll->jam);
+    osl_util_safe_strcat(&string, "# Jam\n", &high_water_mark);
+    sprintf(buffer, "%i\n", pluto_unroll->jam);
+    osl_util_safe_strcat(&string, buffer, &high_water_mark);
 
-    strcat(buffer, "# Factor\n");
-    sprintf(buffer + strlen(buffer), "%u\n", pluto_unroll->factor);
+    osl_util_safe_strcat(&string, "# Factor\n", &high_water_mark);
+    sprintf(buffer, "%u\n", pluto_unroll->factor);
+    osl_util_safe_strcat(&string, buffer, &high_water_mark);
 
     pluto_unroll = pluto_unroll->next;
 
-    strcat(buffer, "# Next\n");
+    osl_util_safe_strcat(&string, "# Next\n", &high_water_mark);
     if (pluto_unroll != NULL) {
-      strcat(buffer, "1\n");
+      osl_util_safe_strcat(&string, "1\n", &high_water_mark);
     } else {
-      strcat(buffer, "0\n");
+      osl_util_safe_strcat(&string, "0\n", &high_water_mark);
     }
   }
 
-  OSL_realloc(string, char*, (strlen(buffer) + 1) * sizeof(char));
-  strcpy(string, buffer);
+  OSL_realloc(string, char*, (strlen(string) + 1) * sizeof(char));
 
   return string;
 }
-- 
2.43.0


From c15fe0433b66dc4d83145764bf99cf443f2c2a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:15 +0000
Subject: [PATCH 50/54] fix: reading a long word, line or tag overran the
 buffer it is collected in

---
 source/strings.c |  8 ++++----
 source/util.c    | 25 ++++++++++++++++---------
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/source/strings.c b/source/strings.c
index 72c5f11..44263e0 100644
--- a/source/strings.c
+++ b/source/strings.c
@@ -182,7 +182,6 @@ void osl_strings_print(FILE* const file, const osl_strings_t* const strings) {
  * \return A pointer to the strings structure that has been read.
  */
 osl_strings_t* osl_strings_sread(char** const input) {
-  char tmp[OSL_MAX_STRING];
   char* s;
   char** string = NULL;
   size_t i, nb_strings;
@@ -217,9 +216,10 @@ osl_strings_t* osl_strings_sread(char** const input) {
     s = *input;
     for (i = 0; i < nb_strings; i++) {
       for (count = 0; *s && !isspace(*s) && *s != '#'; count++)
-        tmp[count] = *(s++);
-      tmp[count] = '\0';
-      OSL_strdup(string[i], tmp);
+        s++;
+      OSL_malloc(string[i], char*, (count + 1) * sizeof(char));
+      memcpy(string[i], s - count, count);
+      string[i][count] = '\0';
       if (*s != '#')
         s++;
     }
diff --git a/source/util.c b/source/util.c
index eb81adb..a08b62b 100644
--- a/source/util.c
+++ b/source/util.c
@@ -148,7 +148,8 @@ int osl_util_read_int(FILE* file, char** str) {
     osl_util_sskip_blank_and_comments(str);
 
     // Build the chain to analyze.
-    while (**str && !isspace(**str) && **str != '\n' && **str != '#')
+    while (**str && !isspace(**str) && **str != '\n' && **str != '#' &&
+           i < OSL_MAX_STRING - 1)
       s[i++] = *((*str)++);
     s[i] = '\0';
     if (sscanf(s, "%d", &res) != 1)
@@ -171,7 +172,6 @@ int osl_util_read_int(FILE* file, char** str) {
 char* osl_util_read_string(FILE* file, char** str) {
   char s[OSL_MAX_STRING], *start;
   char* res;
-  int i = 0;
 
   if ((file != NULL && str != NULL) || (file == NULL && str == NULL))
     OSL_error("one and only one of the two parameters can be non-NULL");
@@ -188,11 +188,14 @@ char* osl_util_read_string(FILE* file, char** str) {
     osl_util_sskip_blank_and_comments(str);
 
     // Build the chain to analyze.
+    start = *str;
     while (**str && !isspace(**str) && **str != '\n' && **str != '#')
-      s[i++] = *((*str)++);
-    s[i] = '\0';
-    if (sscanf(s, "%s", res) != 1)
+      (*str)++;
+    if (*str == start)
       OSL_error("a string was expected");
+    OSL_realloc(res, char*, (*str - start + 1) * sizeof(char));
+    memcpy(res, start, *str - start);
+    res[*str - start] = '\0';
   }
 
   OSL_realloc(res, char*, strlen(res) + 1);
@@ -225,13 +228,17 @@ char* osl_util_read_line(FILE* file, char** str) {
     start = osl_util_skip_blank_and_comments(file, s);
     if (start == NULL)
       OSL_error("a line was expected");
-    while (*start && *start != '\n' && *start != '#' && i < OSL_MAX_STRING)
+    while (*start && *start != '\n' && *start != '#' && i < OSL_MAX_STRING - 1)
       res[i++] = *start++;
   } else {
     // Parse from a string.
     osl_util_sskip_blank_and_comments(str);
-    while (**str && **str != '\n' && **str != '#' && i < OSL_MAX_STRING)
-      res[i++] = *((*str)++);
+    start = *str;
+    while (**str && **str != '\n' && **str != '#')
+      (*str)++;
+    i = (int)(*str - start);
+    OSL_realloc(res, char*, (i + 1) * sizeof(char));
+    memcpy(res, start, i);
   }
 
   res[i] = '\0';
@@ -282,7 +289,7 @@ char* osl_util_read_tag(FILE* file, char** str) {
   OSL_malloc(res, char*, (OSL_MAX_STRING + 1) * sizeof(char));
   res[OSL_MAX_STRING] = '\0';
 
-  while (**str && **str != '>') {
+  while (**str && **str != '>' && i < OSL_MAX_STRING) {
     if (((**str >= 'A') && (**str <= 'Z')) ||
         ((**str >= 'a') && (**str <= 'z')) || ((**str == '/') && (i == 0)) ||
         (**str == '_')) {
-- 
2.43.0


From 5d4daed877831ea9fea4bf8b77298f650a70fc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:15 +0000
Subject: [PATCH 51/54] fix: reading a relation or dependence from a text with
 long rows overran the row buffer

---
 source/extensions/dependence.c | 4 +++-
 source/relation.c              | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/source/extensions/dependence.c b/source/extensions/dependence.c
index 3feb583..6d86684 100644
--- a/source/extensions/dependence.c
+++ b/source/extensions/dependence.c
@@ -378,8 +378,10 @@ static osl_dependence_p osl_dependence_read_one_dep(char** input,
     tmp++;
     row_size += 1;
   }
+  if (row_size > OSL_MAX_STRING - 1)
+    row_size = OSL_MAX_STRING - 1;
   strncpy(str, *input, sizeof(char) * row_size);
-  str[(tmp - *input)] = '\0';
+  str[row_size] = '\0';
   /* - Read the information */
   int read = sscanf(str, " %d %d %d %d %d %d %d %d",
                     &dep->source_nb_output_dims_domain,
diff --git a/source/relation.c b/source/relation.c
index c32d6d1..4feb3f6 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -1470,8 +1470,10 @@ osl_relation_t* osl_relation_psread_polylib(char** input, int precision) {
         tmp++;
         row_size += 1;
       }
+      if (row_size > OSL_MAX_STRING - 1)
+        row_size = OSL_MAX_STRING - 1;
       strncpy(str, *input, sizeof(char) * row_size);
-      str[(tmp - *input)] = '\0';
+      str[row_size] = '\0';
 
       read = sscanf(str, " %d %d %d %d %d %d", &nb_rows, &nb_columns,
                     &nb_output_dims, &nb_input_dims, &nb_local_dims,
@@ -1511,8 +1513,10 @@ osl_relation_t* osl_relation_psread_polylib(char** input, int precision) {
       for (j = 0; j < relation->nb_columns; j++) {
         if (*input == NULL || **input == '#' || **input == '\n')
           OSL_error("not enough columns");
-        if (sscanf(*input, "%s%n", str, &n) != 1)
+        if (sscanf(*input, "%2047s%n", str, &n) != 1)
           OSL_error("not enough rows");
+        if ((*input)[n] != '\0' && !isspace((*input)[n]))
+          OSL_error("too long matrix element");
 
         // TODO: remove this tmp (sread updates the pointer).
         tmp = str;
-- 
2.43.0


From 39d6326d4e282ef791bb5c39a8b3a6943fb69d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:15 +0000
Subject: [PATCH 52/54] fix: osl_util_tag_content ran past the end of the text
 when the content is empty

---
 source/util.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/util.c b/source/util.c
index a08b62b..36b3b12 100644
--- a/source/util.c
+++ b/source/util.c
@@ -447,7 +447,9 @@ char* osl_util_tag_content(const char* str, const char* name) {
     OSL_malloc(res, char*, (size + 1) * sizeof(char));
 
     // Copy the chain between the two tags.
-    for (++start, i = 0; start != stop; ++start, ++i)
+    if (start != stop)
+      ++start;
+    for (i = 0; start != stop; ++start, ++i)
       res[i] = *start;
     res[i] = '\0';
   }
-- 
2.43.0


From feb2c665e51867996ac242079c91b2c8d73fbc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:15 +0000
Subject: [PATCH 53/54] fix: printing relations with many columns or long names
 overran (or cut) the fixed-size buffers of their comments

---
 source/relation.c | 84 +++++++++++++++++++++++++----------------------
 1 file changed, 44 insertions(+), 40 deletions(-)

diff --git a/source/relation.c b/source/relation.c
index 4feb3f6..06f7ae4 100644
--- a/source/relation.c
+++ b/source/relation.c
@@ -273,10 +273,11 @@ char* osl_relation_expression_element(const osl_int_t val, int precision,
                                       int* const first, int cst,
                                       const char* const name) {
   char *temp, *body, *sval;
+  size_t high_water_mark = OSL_MAX_STRING;
 
   OSL_malloc(temp, char*, OSL_MAX_STRING * sizeof(char));
   OSL_malloc(body, char*, OSL_MAX_STRING * sizeof(char));
-  OSL_malloc(sval, char*, OSL_MAX_STRING * sizeof(char));
+  OSL_malloc(sval, char*, high_water_mark * sizeof(char));
 
   body[0] = '\0';
   sval[0] = '\0';
@@ -285,26 +286,28 @@ char* osl_relation_expression_element(const osl_int_t val, int precision,
   if (!osl_int_zero(precision, val) && (!cst)) {
     if ((*first) || osl_int_neg(precision, val)) {
       if (osl_int_one(precision, val)) {  // case 1
-        sprintf(sval, "%s", name);
+        osl_util_safe_strcat(&sval, name, &high_water_mark);
       } else {
         if (osl_int_mone(precision, val)) {  // case -1
-          sprintf(sval, "-%s", name);
+          osl_util_safe_strcat(&sval, "-", &high_water_mark);
+          osl_util_safe_strcat(&sval, name, &high_water_mark);
         } else {  // default case
           osl_int_sprint_txt(sval, precision, val);
-          sprintf(temp, "*%s", name);
-          strcat(sval, temp);
+          osl_util_safe_strcat(&sval, "*", &high_water_mark);
+          osl_util_safe_strcat(&sval, name, &high_water_mark);
         }
       }
       *first = 0;
     } else {
       if (osl_int_one(precision, val)) {
-        sprintf(sval, "+%s", name);
+        osl_util_safe_strcat(&sval, "+", &high_water_mark);
+        osl_util_safe_strcat(&sval, name, &high_water_mark);
       } else {
         sprintf(sval, "+");
         osl_int_sprint_txt(temp, precision, val);
-        strcat(sval, temp);
-        sprintf(temp, "*%s", name);
-        strcat(sval, temp);
+        osl_util_safe_strcat(&sval, temp, &high_water_mark);
+        osl_util_safe_strcat(&sval, "*", &high_water_mark);
+        osl_util_safe_strcat(&sval, name, &high_water_mark);
       }
     }
   } else {
@@ -316,7 +319,7 @@ char* osl_relation_expression_element(const osl_int_t val, int precision,
         if (!(*first)) {
           sprintf(sval, "+");
           osl_int_sprint_txt(temp, precision, val);
-          strcat(sval, temp);
+          osl_util_safe_strcat(&sval, temp, &high_water_mark);
         } else {
           osl_int_sprint_txt(sval, precision, val);
         }
@@ -418,9 +421,10 @@ char* osl_relation_subexpression(const osl_relation_t* relation, int row,
   int i, first = 1, constant;
   char* sval;
   char* sline;
+  size_t high_water_mark = OSL_MAX_STRING;
   osl_int_t value;
 
-  OSL_malloc(sline, char*, OSL_MAX_STRING * sizeof(char));
+  OSL_malloc(sline, char*, high_water_mark * sizeof(char));
   sline[0] = '\0';
   osl_int_init(relation->precision, &value);
 
@@ -438,7 +442,7 @@ char* osl_relation_subexpression(const osl_relation_t* relation, int row,
 
     sval = osl_relation_expression_element(value, relation->precision, &first,
                                            constant, strings[i]);
-    strcat(sline, sval);
+    osl_util_safe_strcat(&sline, sval, &high_water_mark);
     free(sval);
   }
 
@@ -544,8 +548,8 @@ char* osl_relation_sprint_comment(const osl_relation_t* relation, int row,
 
     expression = osl_relation_subexpression(
         relation, row, 1, relation->nb_output_dims, sign < 0, strings);
-    snprintf(buffer, OSL_MAX_STRING, "   ## %s", expression);
-    osl_util_safe_strcat(&string, buffer, &high_water_mark);
+    osl_util_safe_strcat(&string, "   ## ", &high_water_mark);
+    osl_util_safe_strcat(&string, expression, &high_water_mark);
     free(expression);
 
     // We don't print the right hand side if it's an array identifier.
@@ -554,8 +558,8 @@ char* osl_relation_sprint_comment(const osl_relation_t* relation, int row,
       expression = osl_relation_subexpression(
           relation, row, relation->nb_output_dims + 1, relation->nb_columns - 1,
           sign > 0, strings);
-      snprintf(buffer, OSL_MAX_STRING, " == %s", expression);
-      osl_util_safe_strcat(&string, buffer, &high_water_mark);
+      osl_util_safe_strcat(&string, " == ", &high_water_mark);
+      osl_util_safe_strcat(&string, expression, &high_water_mark);
       free(expression);
     } else {
       snprintf(buffer, OSL_MAX_STRING, " == %s",
@@ -566,8 +570,8 @@ char* osl_relation_sprint_comment(const osl_relation_t* relation, int row,
     // Second case : general case.
 
     expression = osl_relation_expression(relation, row, strings);
-    snprintf(buffer, OSL_MAX_STRING, "   ## %s", expression);
-    osl_util_safe_strcat(&string, buffer, &high_water_mark);
+    osl_util_safe_strcat(&string, "   ## ", &high_water_mark);
+    osl_util_safe_strcat(&string, expression, &high_water_mark);
     free(expression);
 
     if (osl_int_zero(relation->precision, relation->m[row][0]))
@@ -599,9 +603,10 @@ char* osl_relation_column_string(const osl_relation_t* relation,
   int index_scalar;
   int space, length, left, right;
   char* scolumn;
+  size_t high_water_mark = OSL_MAX_STRING;
   char temp[OSL_MAX_STRING];
 
-  OSL_malloc(scolumn, char*, OSL_MAX_STRING);
+  OSL_malloc(scolumn, char*, high_water_mark * sizeof(char));
 
   index_output_dims = 1;
   index_input_dims = index_output_dims + relation->nb_output_dims;
@@ -612,7 +617,7 @@ char* osl_relation_column_string(const osl_relation_t* relation,
   // 1. The comment part.
   sprintf(scolumn, "#");
   for (j = 0; j < (OSL_FMT_LENGTH - 1) / 2 - 1; j++)
-    strcat(scolumn, " ");
+    osl_util_safe_strcat(&scolumn, " ", &high_water_mark);
 
   i = 0;
   while (strings[i] != NULL) {
@@ -624,32 +629,32 @@ char* osl_relation_column_string(const osl_relation_t* relation,
 
     // 2. Spaces before the name
     for (j = 0; j < left; j++)
-      strcat(scolumn, " ");
+      osl_util_safe_strcat(&scolumn, " ", &high_water_mark);
 
     // 3. The (abbreviated) name
     for (j = 0; j < length - 1; j++) {
       sprintf(temp, "%c", strings[i][j]);
-      strcat(scolumn, temp);
+      osl_util_safe_strcat(&scolumn, temp, &high_water_mark);
     }
     if (length >= (int)strlen(strings[i]))
       sprintf(temp, "%c", strings[i][j]);
     else
       sprintf(temp, ".");
-    strcat(scolumn, temp);
+    osl_util_safe_strcat(&scolumn, temp, &high_water_mark);
 
     // 4. Spaces after the name
     for (j = 0; j < right; j++)
-      strcat(scolumn, " ");
+      osl_util_safe_strcat(&scolumn, " ", &high_water_mark);
 
     i++;
     if ((i == index_output_dims) || (i == index_input_dims) ||
         (i == index_local_dims) || (i == index_parameters) ||
         (i == index_scalar))
-      strcat(scolumn, "|");
+      osl_util_safe_strcat(&scolumn, "|", &high_water_mark);
     else
-      strcat(scolumn, " ");
+      osl_util_safe_strcat(&scolumn, " ", &high_water_mark);
   }
-  strcat(scolumn, "\n");
+  osl_util_safe_strcat(&scolumn, "\n", &high_water_mark);
 
   return scolumn;
 }
@@ -673,9 +678,10 @@ char* osl_relation_column_string_scoplib(const osl_relation_t* relation,
   int index_scalar;
   int space, length, left, right;
   char* scolumn;
+  size_t high_water_mark = OSL_MAX_STRING;
   char temp[OSL_MAX_STRING];
 
-  OSL_malloc(scolumn, char*, OSL_MAX_STRING);
+  OSL_malloc(scolumn, char*, high_water_mark * sizeof(char));
 
   index_output_dims = 1;
   index_input_dims = index_output_dims + relation->nb_output_dims;
@@ -686,7 +692,7 @@ char* osl_relation_column_string_scoplib(const osl_relation_t* relation,
   // 1. The comment part.
   sprintf(scolumn, "#");
   for (j = 0; j < (OSL_FMT_LENGTH - 1) / 2 - 1; j++)
-    strcat(scolumn, " ");
+    osl_util_safe_strcat(&scolumn, " ", &high_water_mark);
 
   i = 0;
   while (strings[i] != NULL) {
@@ -702,34 +708,34 @@ char* osl_relation_column_string_scoplib(const osl_relation_t* relation,
 
       // 2. Spaces before the name
       for (j = 0; j < left; j++)
-        strcat(scolumn, " ");
+        osl_util_safe_strcat(&scolumn, " ", &high_water_mark);
 
       // 3. The (abbreviated) name
       for (j = 0; j < length - 1; j++) {
         sprintf(temp, "%c", strings[i][j]);
-        strcat(scolumn, temp);
+        osl_util_safe_strcat(&scolumn, temp, &high_water_mark);
       }
       if (length >= (int)strlen(strings[i]))
         sprintf(temp, "%c", strings[i][j]);
       else
         sprintf(temp, ".");
-      strcat(scolumn, temp);
+      osl_util_safe_strcat(&scolumn, temp, &high_water_mark);
 
       // 4. Spaces after the name
       for (j = 0; j < right; j++)
-        strcat(scolumn, " ");
+        osl_util_safe_strcat(&scolumn, " ", &high_water_mark);
 
       if ((i == index_output_dims - 1) || (i == index_input_dims - 1) ||
           (i == index_local_dims - 1) || (i == index_parameters - 1) ||
           (i == index_scalar - 1))
-        strcat(scolumn, "|");
+        osl_util_safe_strcat(&scolumn, "|", &high_water_mark);
       else
-        strcat(scolumn, " ");
+        osl_util_safe_strcat(&scolumn, " ", &high_water_mark);
     }
 
     i++;
   }
-  strcat(scolumn, "\n");
+  osl_util_safe_strcat(&scolumn, "\n", &high_water_mark);
 
   return scolumn;
 }
@@ -834,8 +840,7 @@ char* osl_relation_spprint_polylib(const osl_relation_t* relation,
 
     if (relation->nb_rows > 0) {
       scolumn = osl_relation_column_string(relation, name_array);
-      snprintf(buffer, OSL_MAX_STRING, "%s", scolumn);
-      osl_util_safe_strcat(&string, buffer, &high_water_mark);
+      osl_util_safe_strcat(&string, scolumn, &high_water_mark);
       free(scolumn);
     }
 
@@ -995,8 +1000,7 @@ char* osl_relation_spprint_polylib_scoplib(const osl_relation_t* relation,
       // Print column names in comment
       if (relation->nb_rows > 0) {
         scolumn = osl_relation_column_string_scoplib(relation, name_array);
-        snprintf(buffer, OSL_MAX_STRING, "%s", scolumn);
-        osl_util_safe_strcat(&string, buffer, &high_water_mark);
+        osl_util_safe_strcat(&string, scolumn, &high_water_mark);
         free(scolumn);
       }
 
-- 
2.43.0


From 9d4e54a29c9f97c4740902fc8d7e7d7231036438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:11 +0000
Subject: [PATCH 54/54] fix: osl_irregular_sprint printed garbage when its
 buffer had to grow (the arguments were used twice)

---
 source/extensions/irregular.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/extensions/irregular.c b/source/extensions/irregular.c
index 14bc558..91edcfa 100644
--- a/source/extensions/irregular.c
+++ b/source/extensions/irregular.c
@@ -153,10 +153,12 @@ __attribute__((format(printf, 4, 5)))
 static void
 printf_in_buf(char** buf, size_t* buf_size, size_t* offset, const char* fmt,
               ...) {
-  va_list va;
-  va_start(va, fmt);
   do {
+    // The arguments have to be started again when the buffer has grown.
+    va_list va;
+    va_start(va, fmt);
     int printed = vsnprintf((*buf) + *offset, *buf_size - *offset, fmt, va);
+    va_end(va);
     if (printed < 0)
       OSL_error(
           "snprintf encountered an error while writing inside a local buffer");
@@ -168,7 +170,6 @@ printf_in_buf(char** buf, size_t* buf_size, size_t* offset, const char* fmt,
     OSL_realloc(*buf, char*, *buf_size * 2);
     *buf_size *= 2;
   } while (1);
-  va_end(va);
 }
 
 /**
-- 
2.43.0

