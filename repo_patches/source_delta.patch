From a7e37f6866e01dbb6994362dee6dd43be8425135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:15 +0000
Subject: [PATCH 01/28] fix: derive short circuits of negated conjunctions and
 disjunctions by De Morgan

---
 src/tree.c | 62 ++++++++++++++++++++++++------------------------------
 1 file changed, 27 insertions(+), 35 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index f9d4a2b..a3b8184 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -1453,6 +1453,28 @@ static enum short_circuit_e short_circuit_for_attr_var(
     return SHORT_CIRCUIT_NONE;
 }
 
+static enum short_circuit_e short_circuit_any(enum short_circuit_e lhs, enum short_circuit_e rhs)
+{
+    if(lhs == SHORT_CIRCUIT_PASS || rhs == SHORT_CIRCUIT_PASS) {
+        return SHORT_CIRCUIT_PASS;
+    }
+    if(lhs == SHORT_CIRCUIT_FAIL && rhs == SHORT_CIRCUIT_FAIL) {
+        return SHORT_CIRCUIT_FAIL;
+    }
+    return SHORT_CIRCUIT_NONE;
+}
+
+static enum short_circuit_e short_circuit_all(enum short_circuit_e lhs, enum short_circuit_e rhs)
+{
+    if(lhs == SHORT_CIRCUIT_FAIL || rhs == SHORT_CIRCUIT_FAIL) {
+        return SHORT_CIRCUIT_FAIL;
+    }
+    if(lhs == SHORT_CIRCUIT_PASS && rhs == SHORT_CIRCUIT_PASS) {
+        return SHORT_CIRCUIT_PASS;
+    }
+    return SHORT_CIRCUIT_NONE;
+}
+
 static enum short_circuit_e short_circuit_for_node(
     betree_var_t id, bool inverted, const struct ast_node* node)
 {
@@ -1481,26 +1503,14 @@ static enum short_circuit_e short_circuit_for_node(
                         = short_circuit_for_node(id, inverted, node->bool_expr.binary.lhs);
                     enum short_circuit_e rhs
                         = short_circuit_for_node(id, inverted, node->bool_expr.binary.rhs);
-                    if(lhs == SHORT_CIRCUIT_PASS || rhs == SHORT_CIRCUIT_PASS) {
-                        return SHORT_CIRCUIT_PASS;
-                    }
-                    if(lhs == SHORT_CIRCUIT_FAIL && rhs == SHORT_CIRCUIT_FAIL) {
-                        return SHORT_CIRCUIT_FAIL;
-                    }
-                    return SHORT_CIRCUIT_NONE;
+                    return inverted ? short_circuit_all(lhs, rhs) : short_circuit_any(lhs, rhs);
                 }
                 case AST_BOOL_AND: {
                     enum short_circuit_e lhs
                         = short_circuit_for_node(id, inverted, node->bool_expr.binary.lhs);
                     enum short_circuit_e rhs
                         = short_circuit_for_node(id, inverted, node->bool_expr.binary.rhs);
-                    if(lhs == SHORT_CIRCUIT_FAIL || rhs == SHORT_CIRCUIT_FAIL) {
-                        return SHORT_CIRCUIT_FAIL;
-                    }
-                    if(lhs == SHORT_CIRCUIT_PASS && rhs == SHORT_CIRCUIT_PASS) {
-                        return SHORT_CIRCUIT_PASS;
-                    }
-                    return SHORT_CIRCUIT_NONE;
+                    return inverted ? short_circuit_any(lhs, rhs) : short_circuit_all(lhs, rhs);
                 }
                 case AST_BOOL_NOT:
                     return short_circuit_for_node(id, !inverted, node->bool_expr.unary.expr);
@@ -1525,35 +1535,17 @@ static enum short_circuit_e short_circuit_for_node(
                 case AST_SPECIAL_FREQUENCY: {
                     enum short_circuit_e frequency = short_circuit_for_attr_var(id, inverted, node->special_expr.frequency.attr_var);
                     enum short_circuit_e now = short_circuit_for_attr_var(id, inverted, node->special_expr.frequency.now);
-                    if(frequency == SHORT_CIRCUIT_FAIL || now == SHORT_CIRCUIT_FAIL) {
-                        return SHORT_CIRCUIT_FAIL;
-                    }
-                    if(frequency == SHORT_CIRCUIT_PASS && now == SHORT_CIRCUIT_PASS) {
-                        return SHORT_CIRCUIT_PASS;
-                    }
-                    return SHORT_CIRCUIT_NONE;
+                    return inverted ? short_circuit_any(frequency, now) : short_circuit_all(frequency, now);
                 }
                 case AST_SPECIAL_SEGMENT: {
                     enum short_circuit_e frequency = short_circuit_for_attr_var(id, inverted, node->special_expr.segment.attr_var);
                     enum short_circuit_e now = short_circuit_for_attr_var(id, inverted, node->special_expr.segment.now);
-                    if(frequency == SHORT_CIRCUIT_FAIL || now == SHORT_CIRCUIT_FAIL) {
-                        return SHORT_CIRCUIT_FAIL;
-                    }
-                    if(frequency == SHORT_CIRCUIT_PASS && now == SHORT_CIRCUIT_PASS) {
-                        return SHORT_CIRCUIT_PASS;
-                    }
-                    return SHORT_CIRCUIT_NONE;
+                    return inverted ? short_circuit_any(frequency, now) : short_circuit_all(frequency, now);
                 }
                 case AST_SPECIAL_GEO: {
                     enum short_circuit_e latitude = short_circuit_for_attr_var(id, inverted, node->special_expr.geo.latitude_var);
                     enum short_circuit_e longitude = short_circuit_for_attr_var(id, inverted, node->special_expr.geo.longitude_var);
-                    if(latitude == SHORT_CIRCUIT_FAIL || longitude == SHORT_CIRCUIT_FAIL) {
-                        return SHORT_CIRCUIT_FAIL;
-                    }
-                    if(latitude == SHORT_CIRCUIT_PASS && longitude == SHORT_CIRCUIT_PASS) {
-                        return SHORT_CIRCUIT_PASS;
-                    }
-                    return SHORT_CIRCUIT_NONE;
+                    return inverted ? short_circuit_any(latitude, longitude) : short_circuit_all(latitude, longitude);
                 }
                 case AST_SPECIAL_STRING:
                     return short_circuit_for_attr_var(
-- 
2.43.0


From 33359c5c8303222e1311664343a0e4469d0dfc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:40 +0000
Subject: [PATCH 02/28] fix: a frequency cap is false whenever now is
 undefined, also with an empty cap list

---
 src/ast.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 22a5266..728b759 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -511,15 +511,15 @@ static bool match_special_expr(
                     if(is_caps_defined == false) {
                         return false;
                     }
-                    if(caps->size == 0) {
-                        // Optimization from looking at what within_frequency_caps does
-                        return true;
-                    }
                     int64_t now;
                     bool is_now_defined = get_integer_var(f->now.var, preds, &now);
                     if(is_now_defined == false) {
                         return false;
                     }
+                    if(caps->size == 0) {
+                        // Optimization from looking at what within_frequency_caps does
+                        return true;
+                    }
                     return within_frequency_caps(
                         caps, f->type, f->id, f->ns, f->value, f->length, now);
                 }
-- 
2.43.0


From f1a0c97bfc3a174dd99ad4a7bf0bbf85f05807e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:57 +0000
Subject: [PATCH 03/28] fix: value range of a negated conjunction or
 disjunction

---
 src/ast.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/ast.c b/src/ast.c
index 728b759..a8c850c 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -1075,6 +1075,18 @@ struct bound_dirty {
     bool max_dirty;
 };
 
+// not (a and b) restricts a variable like (not a) or (not b), and vice versa
+static enum ast_bool_e get_bound_bool_op(enum ast_bool_e op, bool is_reversed)
+{
+    if(is_reversed && op == AST_BOOL_AND) {
+        return AST_BOOL_OR;
+    }
+    if(is_reversed && op == AST_BOOL_OR) {
+        return AST_BOOL_AND;
+    }
+    return op;
+}
+
 static void get_variable_bound_inner(const struct attr_domain* domain,
     const struct ast_node* node,
     struct value_bound* bound,
@@ -1379,7 +1391,7 @@ static void get_variable_bound_inner(const struct attr_domain* domain,
                 default: abort();
             }
         case AST_TYPE_BOOL_EXPR:
-            switch(node->bool_expr.op) {
+            switch(get_bound_bool_op(node->bool_expr.op, is_reversed)) {
                 case AST_BOOL_LITERAL:
                     return;
                 case AST_BOOL_VARIABLE:
-- 
2.43.0


From 5ee72608b3628d887ee52ac0dddee7e3cbb7c1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:01 +0000
Subject: [PATCH 04/28] fix: move the expression itself, not another one
 registered under the same id

---
 src/tree.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index a3b8184..747b216 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -494,11 +494,11 @@ bool sub_has_attribute_str(struct config* config, const struct betree_sub* sub,
     return sub_has_attribute(sub, variable_id);
 }
 
-static bool remove_sub(betree_sub_t sub, struct lnode* lnode)
+static bool remove_sub(const struct betree_sub* sub, struct lnode* lnode)
 {
     for(size_t i = 0; i < lnode->sub_count; i++) {
         const struct betree_sub* lnode_sub = lnode->subs[i];
-        if(sub == lnode_sub->id) {
+        if(sub == lnode_sub) {
             for(size_t j = i; j < lnode->sub_count - 1; j++) {
                 lnode->subs[j] = lnode->subs[j + 1];
             }
@@ -523,7 +523,7 @@ static bool remove_sub(betree_sub_t sub, struct lnode* lnode)
 
 static void move(const struct betree_sub* sub, struct lnode* origin, struct lnode* destination)
 {
-    bool isFound = remove_sub(sub->id, origin);
+    bool isFound = remove_sub(sub, origin);
     if(!isFound) {
         fprintf(stderr, "Could not find sub %" PRIu64 "\n", sub->id);
         abort();
-- 
2.43.0


From 56a82c3885520991f1a6dc7d2feb5095714bcdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:17 +0000
Subject: [PATCH 05/28] fix: do not abort when a float range of a fractional
 width is split

---
 src/tree.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index 747b216..95d6c71 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -842,7 +842,9 @@ static bool is_atomic(const struct cdir* cdir)
         case(BETREE_INTEGER_LIST):
             return cdir->bound.imin == cdir->bound.imax;
         case(BETREE_FLOAT): {
-            return feq(cdir->bound.fmin, cdir->bound.fmax);
+            // A range narrower than 1 cannot be split any further
+            double diff = fabs(cdir->bound.fmax - cdir->bound.fmin);
+            return diff < 1 && !feq(diff, 1);
         }
         case(BETREE_BOOLEAN): {
             return cdir->bound.bmin == cdir->bound.bmax;
@@ -934,15 +936,15 @@ static struct value_bounds split_value_bound(struct value_bound bound)
                 lbound.fmax = middle;
                 rbound.fmin = middle;
             }
-            else if(feq(fabs(end - start), 2)) {
-                double middle = start + 1;
-                lbound.fmax = middle;
-                rbound.fmin = middle;
-            }
             else if(feq(fabs(end - start), 1)) {
                 lbound.fmax = start;
                 rbound.fmin = end;
             }
+            else if(fabs(end - start) > 1) {
+                double middle = start + 1;
+                lbound.fmax = middle;
+                rbound.fmin = middle;
+            }
             else {
                 fprintf(stderr, "%s trying to split an unsplitable bound\n", __func__);
                 abort();
-- 
2.43.0


From b5efab86433fd639022689a83e8b2f82c1b257b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:22 +0000
Subject: [PATCH 06/28] fix: width of integer ranges wider than INT64_MAX

---
 src/tree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index 95d6c71..433e03a 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -353,7 +353,7 @@ static size_t domain_bound_diff(const struct attr_domain* attr_domain)
                 return SIZE_MAX;
             }
             else {
-                return (size_t)(llabs(b->imax - b->imin));
+                return (size_t)b->imax - (size_t)b->imin;
             }
         case BETREE_FLOAT:
             if(feq(b->fmin, -DBL_MAX) && feq(b->fmax, DBL_MAX)) {
@@ -723,7 +723,7 @@ static bool splitable_attr_domain(
             if(attr_domain->bound.imin == INT64_MIN || attr_domain->bound.imax == INT64_MAX) {
                 return false;
             }
-            return ((uint64_t)llabs(attr_domain->bound.imax - attr_domain->bound.imin))
+            return (uint64_t)attr_domain->bound.imax - (uint64_t)attr_domain->bound.imin
                 < config->max_domain_for_split;
         case BETREE_FLOAT:
             if(feq(attr_domain->bound.fmin, -DBL_MAX) || feq(attr_domain->bound.fmax, DBL_MAX)) {
-- 
2.43.0


From 772541fab0370367591ca1a9a6d91450cab6fd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:08 +0000
Subject: [PATCH 07/28] fix: duplicated constants of a list or set expression
 are one element

---
 src/ast.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index a8c850c..b8e2855 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2502,10 +2502,10 @@ void sort_lists(struct ast_node* node)
             if(node->set_expr.left_value.value_type == AST_SET_LEFT_VALUE_VARIABLE) {
                 switch(node->set_expr.right_value.value_type) {
                     case AST_SET_RIGHT_VALUE_INTEGER_LIST:
-                        sort_integer_list(node->set_expr.right_value.integer_list_value);
+                        sort_and_remove_duplicate_integer_list(node->set_expr.right_value.integer_list_value);
                         return;
                     case AST_SET_RIGHT_VALUE_STRING_LIST:
-                        sort_string_list(node->set_expr.right_value.string_list_value);
+                        sort_and_remove_duplicate_string_list(node->set_expr.right_value.string_list_value);
                         return;
                     case AST_SET_RIGHT_VALUE_VARIABLE:
                         return;
@@ -2519,10 +2519,10 @@ void sort_lists(struct ast_node* node)
         case AST_TYPE_LIST_EXPR:
             switch(node->list_expr.value.value_type) {
                 case AST_LIST_VALUE_INTEGER_LIST:
-                    sort_integer_list(node->list_expr.value.integer_list_value);
+                    sort_and_remove_duplicate_integer_list(node->list_expr.value.integer_list_value);
                     return;
                 case AST_LIST_VALUE_STRING_LIST:
-                    sort_string_list(node->list_expr.value.string_list_value);
+                    sort_and_remove_duplicate_string_list(node->list_expr.value.string_list_value);
                     return;
                 default: abort();
             }
-- 
2.43.0


From 4ed184d3177e9a963465f6975b1c0cbbf1fc9abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:40 +0000
Subject: [PATCH 08/28] fix: hold string and enum attributes to the number of
 values they were declared for

The number of distinct values needed by an expression is counted over the
whole expression, once per value, by attribute id, also for enums. The
declared number is kept apart from the bound, which learning changes and
which is not set for frequency caps.
---
 src/ast.c    | 192 +++++++++++++++++++++++++++++++--------------------
 src/config.c |   8 ++-
 src/config.h |   3 +
 3 files changed, 127 insertions(+), 76 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index b8e2855..085e4c2 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -1,4 +1,5 @@
 #include <ctype.h>
+#include <inttypes.h>
 #include <math.h>
 #include <stdbool.h>
 #include <stdint.h>
@@ -2683,108 +2684,144 @@ bool all_variables_in_config(const struct config* config, const struct ast_node*
     }
 }
 
-static size_t get_attr_string_bound(const struct config* config, const char* attr)
-{
-    for(size_t i = 0; i < config->attr_domain_count; i++) {
-        if(strcmp(attr, config->attr_domains[i]->attr_var.attr) == 0) {
-            size_t count = config->attr_domains[i]->bound.smax;
-            if(count == SIZE_MAX) {
-                return count;
-            }
-            return count + 1;
-        }
-    }
-    return SIZE_MAX;
-}
+// A string or enum value that the config does not know yet
+struct new_value {
+    betree_var_t var;
+    const char* string; // NULL for an enum value
+    int64_t integer;
+};
+
+struct new_values {
+    const struct config* config;
+    size_t count;
+    struct new_value* values;
+};
 
-static struct string_map* get_string_map_for_attr(const struct config* config, const char* attr)
+static size_t get_known_value_count(const struct config* config, betree_var_t var)
 {
     for(size_t i = 0; i < config->string_map_count; i++) {
-        struct string_map* string_map = &config->string_maps[i];
-        if(strcmp(attr, string_map->attr_var.attr) == 0) {
-            return string_map;
+        if(config->string_maps[i].attr_var.var == var) {
+            return config->string_maps[i].string_value_count;
+        }
+    }
+    for(size_t i = 0; i < config->integer_map_count; i++) {
+        if(config->integer_maps[i].attr_var.var == var) {
+            return config->integer_maps[i].integer_value_count;
         }
     }
-    return NULL;
+    return 0;
 }
 
-static bool str_valid(const struct config* config, const char* attr, const char* string)
+// Returns false if the value is one more than its attribute can hold
+static bool add_new_value(struct new_values* new_values, struct attr_var attr_var, struct new_value value)
 {
-    size_t bound = get_attr_string_bound(config, attr);
-    struct string_map* string_map = get_string_map_for_attr(config, attr);
-    size_t space_left = string_map == NULL ? bound : bound - string_map->string_value_count;
-    if(string_map != NULL) {
-        betree_str_t* str = map_get(&string_map->m, string);
-        if(str != NULL) {
+    const struct attr_domain* attr_domain = new_values->config->attr_domains[attr_var.var];
+    size_t count = get_known_value_count(new_values->config, attr_var.var) + 1;
+    for(size_t i = 0; i < new_values->count; i++) {
+        const struct new_value* other = &new_values->values[i];
+        if(other->var != value.var) {
+            continue;
+        }
+        if(value.string == NULL || other->string == NULL) {
+            if(value.string == other->string && value.integer == other->integer) {
+                return true;
+            }
+        }
+        else if(strcmp(value.string, other->string) == 0) {
             return true;
         }
+        count++;
+    }
+    if(count > attr_domain->capacity) {
+        if(value.string != NULL) {
+            fprintf(stderr,
+                "For attr '%s', string '%s' could not fit within the bound %zu\n",
+                attr_var.attr,
+                value.string,
+                attr_domain->capacity);
+        }
+        else {
+            fprintf(stderr,
+                "For attr '%s', enum value '%" PRId64 "' could not fit within the bound %zu\n",
+                attr_var.attr,
+                value.integer,
+                attr_domain->capacity);
+        }
+        return false;
     }
-    bool within_bound = space_left > 0;
-    if(within_bound == false) {
-        fprintf(stderr,
-            "For attr '%s', string '%s' could not fit within the bound %zu\n",
-            attr,
-            string,
-            bound);
+    struct new_value* values
+        = brealloc(new_values->values, sizeof(*values) * (new_values->count + 1));
+    if(values == NULL) {
+        fprintf(stderr, "%s brealloc failed\n", __func__);
+        abort();
     }
-    return within_bound;
+    values[new_values->count] = value;
+    new_values->values = values;
+    new_values->count++;
+    return true;
 }
 
-static bool strs_valid(
-    const struct config* config, const char* attr, const struct betree_string_list* strings)
+static bool string_fits(struct new_values* new_values, struct attr_var attr_var, const char* string)
 {
-    size_t bound = get_attr_string_bound(config, attr);
-    if(bound == SIZE_MAX) {
+    const struct config* config = new_values->config;
+    if(config->attr_domains[attr_var.var]->capacity == SIZE_MAX
+        || try_get_id_for_string(config, attr_var, string) != INVALID_STR) {
         return true;
     }
-    struct string_map* string_map = get_string_map_for_attr(config, attr);
-    size_t space_left = string_map == NULL ? bound : bound - string_map->string_value_count;
-    size_t found = 0;
-    if(string_map != NULL) {
-        for(size_t i = 0; i < strings->count; i++) {
-            const char* string = strings->strings[i].string;
-            betree_str_t* str = map_get(&string_map->m, string);
-            if(str != NULL) {
-                found++;
-            }
+    struct new_value value = { .var = attr_var.var, .string = string, .integer = 0 };
+    return add_new_value(new_values, attr_var, value);
+}
+
+static bool strings_fit(struct new_values* new_values,
+    struct attr_var attr_var,
+    const struct betree_string_list* strings)
+{
+    for(size_t i = 0; i < strings->count; i++) {
+        if(!string_fits(new_values, attr_var, strings->strings[i].string)) {
+            return false;
         }
     }
-    size_t needed = strings->count - found;
-    bool within_bound = space_left >= needed;
-    if(within_bound == false) {
-        fprintf(stderr,
-            "For attr '%s', not all strings could not fit within the bound %zu\n",
-            attr,
-            bound);
+    return true;
+}
+
+static bool ienum_fits(struct new_values* new_values, struct attr_var attr_var, int64_t integer)
+{
+    const struct config* config = new_values->config;
+    if(config->attr_domains[attr_var.var]->capacity == SIZE_MAX
+        || try_get_id_for_ienum(config, attr_var, integer) != INVALID_IENUM) {
+        return true;
     }
-    return within_bound;
+    struct new_value value = { .var = attr_var.var, .string = NULL, .integer = integer };
+    return add_new_value(new_values, attr_var, value);
 }
 
-bool all_bounded_strings_valid(const struct config* config, const struct ast_node* node)
+static bool all_values_fit(struct new_values* new_values, const struct ast_node* node)
 {
     switch(node->type) {
         case AST_TYPE_IS_NULL_EXPR:
         case AST_TYPE_COMPARE_EXPR:
             return true;
-        case AST_TYPE_EQUALITY_EXPR:
+        case AST_TYPE_EQUALITY_EXPR: {
+            struct attr_var attr_var = node->equality_expr.attr_var;
+            const struct attr_domain* attr_domain = new_values->config->attr_domains[attr_var.var];
             if(node->equality_expr.value.value_type == AST_EQUALITY_VALUE_STRING) {
-                return str_valid(config,
-                    node->equality_expr.attr_var.attr,
-                    node->equality_expr.value.string_value.string);
+                return string_fits(
+                    new_values, attr_var, node->equality_expr.value.string_value.string);
+            }
+            if(node->equality_expr.value.value_type == AST_EQUALITY_VALUE_INTEGER
+                && attr_domain->bound.value_type == BETREE_INTEGER_ENUM) {
+                return ienum_fits(new_values, attr_var, node->equality_expr.value.integer_value);
             }
             return true;
+        }
         case AST_TYPE_BOOL_EXPR:
             switch(node->bool_expr.op) {
                 case AST_BOOL_OR:
-                case AST_BOOL_AND: {
-                    bool lhs = all_bounded_strings_valid(config, node->bool_expr.binary.lhs);
-                    if(lhs == false) {
-                        return false;
-                    }
-                    return all_bounded_strings_valid(config, node->bool_expr.binary.rhs);
-                }
+                case AST_BOOL_AND:
+                    return all_values_fit(new_values, node->bool_expr.binary.lhs)
+                        && all_values_fit(new_values, node->bool_expr.binary.rhs);
                 case AST_BOOL_NOT:
-                    return all_bounded_strings_valid(config, node->bool_expr.unary.expr);
+                    return all_values_fit(new_values, node->bool_expr.unary.expr);
                 case AST_BOOL_VARIABLE:
                 case AST_BOOL_LITERAL:
                     return true;
@@ -2793,21 +2830,21 @@ bool all_bounded_strings_valid(const struct config* config, const struct ast_nod
         case AST_TYPE_SET_EXPR:
             if(node->set_expr.left_value.value_type == AST_SET_LEFT_VALUE_VARIABLE
                 && node->set_expr.right_value.value_type == AST_SET_RIGHT_VALUE_STRING_LIST) {
-                return strs_valid(config,
-                    node->set_expr.left_value.variable_value.attr,
+                return strings_fit(new_values,
+                    node->set_expr.left_value.variable_value,
                     node->set_expr.right_value.string_list_value);
             }
             if(node->set_expr.right_value.value_type == AST_SET_RIGHT_VALUE_VARIABLE
                 && node->set_expr.left_value.value_type == AST_SET_LEFT_VALUE_STRING) {
-                return str_valid(config,
-                    node->set_expr.right_value.variable_value.attr,
+                return string_fits(new_values,
+                    node->set_expr.right_value.variable_value,
                     node->set_expr.left_value.string_value.string);
             }
             return true;
         case AST_TYPE_LIST_EXPR:
             if(node->list_expr.value.value_type == AST_LIST_VALUE_STRING_LIST) {
-                return strs_valid(
-                    config, node->list_expr.attr_var.attr, node->list_expr.value.string_list_value);
+                return strings_fit(
+                    new_values, node->list_expr.attr_var, node->list_expr.value.string_list_value);
             }
             return true;
         case AST_TYPE_SPECIAL_EXPR:
@@ -2816,3 +2853,10 @@ bool all_bounded_strings_valid(const struct config* config, const struct ast_nod
     }
 }
 
+bool all_bounded_strings_valid(const struct config* config, const struct ast_node* node)
+{
+    struct new_values new_values = { .config = config, .count = 0, .values = NULL };
+    bool valid = all_values_fit(&new_values, node);
+    bfree(new_values.values);
+    return valid;
+}
diff --git a/src/config.c b/src/config.c
index 0a9ec96..0122cd1 100644
--- a/src/config.c
+++ b/src/config.c
@@ -80,6 +80,7 @@ static struct attr_domain* make_attr_domain(
     attr_domain->attr_var.var = variable_id;
     attr_domain->bound = bound;
     attr_domain->allow_undefined = allow_undefined;
+    attr_domain->capacity = SIZE_MAX;
     return attr_domain;
 }
 
@@ -153,6 +154,7 @@ void add_attr_domain_bounded_s(
 {
     struct value_bound bound = { .value_type = BETREE_STRING, .smin = 0, .smax = max - 1 };
     add_attr_domain(config, attr, bound, allow_undefined);
+    config->attr_domains[config->attr_domain_count - 1]->capacity = max;
 }
 
 void add_attr_domain_bounded_ie(
@@ -160,6 +162,7 @@ void add_attr_domain_bounded_ie(
 {
     struct value_bound bound = { .value_type = BETREE_INTEGER_ENUM, .smin = 0, .smax = max - 1 };
     add_attr_domain(config, attr, bound, allow_undefined);
+    config->attr_domains[config->attr_domain_count - 1]->capacity = max;
 }
 
 void add_attr_domain_il(struct config* config, const char* attr, bool allow_undefined)
@@ -184,6 +187,7 @@ void add_attr_domain_bounded_sl(
 {
     struct value_bound bound = { .value_type = BETREE_STRING_LIST, .smin = 0, .smax = max - 1 };
     add_attr_domain(config, attr, bound, allow_undefined);
+    config->attr_domains[config->attr_domain_count - 1]->capacity = max;
 }
 
 void add_attr_domain_segments(struct config* config, const char* attr, bool allow_undefined)
@@ -337,7 +341,7 @@ betree_ienum_t get_id_for_ienum(struct config* config, struct attr_var attr_var,
     }
     const struct attr_domain* attr_domain
         = get_attr_domain((const struct attr_domain**)config->attr_domains, attr_var.var);
-    if(!always_assign && attr_domain->bound.smax + 1 == integer_map->integer_value_count) {
+    if(!always_assign && attr_domain->capacity <= integer_map->integer_value_count) {
         return INVALID_IENUM;
     }
     add_to_integer_map(integer_map, integer);
@@ -363,7 +367,7 @@ betree_str_t get_id_for_string(struct config* config, struct attr_var attr_var,
     }
     const struct attr_domain* attr_domain
         = get_attr_domain((const struct attr_domain**)config->attr_domains, attr_var.var);
-    if(!always_assign && attr_domain->bound.smax + 1 == string_map->string_value_count) {
+    if(!always_assign && attr_domain->capacity <= string_map->string_value_count) {
         return INVALID_STR;
     }
     add_to_string_map(string_map, string);
diff --git a/src/config.h b/src/config.h
index 229ee66..4bfe81b 100644
--- a/src/config.h
+++ b/src/config.h
@@ -12,6 +12,9 @@ struct attr_domain {
     struct attr_var attr_var;
     struct value_bound bound;
     bool allow_undefined;
+    // Number of distinct strings or enum values the attribute was declared for. Unlike the bound,
+    // it is not affected by the values learned from expressions
+    size_t capacity;
 };
 
 struct ast_node;
-- 
2.43.0


From 72682de2030f5116b67c4c33e2166e14d0b81ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:59 +0000
Subject: [PATCH 09/28] fix: refuse a set expression without exactly one
 variable instead of aborting

---
 src/ast.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 085e4c2..3069f99 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2659,14 +2659,15 @@ bool all_variables_in_config(const struct config* config, const struct ast_node*
                 default: abort();
             }
         case AST_TYPE_SET_EXPR:
-            if(node->set_expr.left_value.value_type == AST_SET_LEFT_VALUE_VARIABLE) {
+            if(node->set_expr.left_value.value_type == AST_SET_LEFT_VALUE_VARIABLE
+                && node->set_expr.right_value.value_type != AST_SET_RIGHT_VALUE_VARIABLE) {
                 return is_variable_valid(node->set_expr.left_value.variable_value);
             }
-            else if(node->set_expr.right_value.value_type == AST_SET_RIGHT_VALUE_VARIABLE) {
+            else if(node->set_expr.left_value.value_type != AST_SET_LEFT_VALUE_VARIABLE
+                && node->set_expr.right_value.value_type == AST_SET_RIGHT_VALUE_VARIABLE) {
                 return is_variable_valid(node->set_expr.right_value.variable_value);
             }
-            fprintf(stderr, "Invalid set expr");
-            abort();
+            fprintf(stderr, "Invalid set expr\n");
             return false;
         case AST_TYPE_SPECIAL_EXPR:
             switch(node->special_expr.type) {
-- 
2.43.0


From 238815dd8459ffa44cf0ce4d09bad8a7385bbeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:02 +0000
Subject: [PATCH 10/28] fix: refuse a radius condition when latitude or
 longitude is not declared

---
 src/ast.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ast.c b/src/ast.c
index 3069f99..02599f6 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2671,7 +2671,9 @@ bool all_variables_in_config(const struct config* config, const struct ast_node*
             return false;
         case AST_TYPE_SPECIAL_EXPR:
             switch(node->special_expr.type) {
-                case AST_SPECIAL_GEO: return true;
+                case AST_SPECIAL_GEO:
+                    return is_variable_valid(node->special_expr.geo.latitude_var)
+                        && is_variable_valid(node->special_expr.geo.longitude_var);
                 case AST_SPECIAL_STRING: return is_variable_valid(node->special_expr.string.attr_var);
                 case AST_SPECIAL_FREQUENCY:
                     return is_variable_valid(node->special_expr.frequency.attr_var)
-- 
2.43.0


From 0d2eaa039e2b9d7d8177940ead96878059e2e220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:05 +0000
Subject: [PATCH 11/28] fix: refuse to change boundaries from an expression
 with an undeclared variable

---
 src/betree.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/betree.c b/src/betree.c
index acf6a28..16efb33 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -463,6 +463,11 @@ bool betree_change_boundaries(struct betree* tree, const char* expr)
         return false;
     }
     assign_variable_id(tree->config, node);
+    if(!all_variables_in_config(tree->config, node)) {
+        fprintf(stderr, "Missing variable in config\n");
+        free_ast_node(node);
+        return false;
+    }
     assign_str_id(tree->config, node, true);
     assign_ienum_id(tree->config, node, true);
     sort_lists(node);
-- 
2.43.0


From 2f9870bcf2f1859cc5ee9fda562822b80767fcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:28 +0000
Subject: [PATCH 12/28] fix: a refused make_sub leaves no string or enum id
 behind

---
 src/ast.c    | 1 +
 src/betree.c | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 02599f6..6ec521f 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2585,6 +2585,7 @@ bool all_exprs_valid(const struct config* config, const struct ast_node* node)
             return (var_type == BETREE_STRING && val_type == AST_EQUALITY_VALUE_STRING)
                 || (var_type == BETREE_FLOAT && val_type == AST_EQUALITY_VALUE_FLOAT)
                 || (var_type == BETREE_INTEGER && val_type == AST_EQUALITY_VALUE_INTEGER)
+                || (var_type == BETREE_INTEGER_ENUM && val_type == AST_EQUALITY_VALUE_INTEGER)
                 || (var_type == BETREE_INTEGER_ENUM && val_type == AST_EQUALITY_VALUE_INTEGER_ENUM);
         }
         case AST_TYPE_LIST_EXPR: {
diff --git a/src/betree.c b/src/betree.c
index 16efb33..029ff13 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -520,8 +520,6 @@ const struct betree_sub* betree_make_sub(struct betree* tree, betree_sub_t id, s
         free_ast_node(node);
         return NULL;
     }
-    assign_str_id(tree->config, node, true);
-    assign_ienum_id(tree->config, node, true);
     fix_float_with_no_fractions(tree->config, node);
     if(!all_exprs_valid(tree->config, node)) {
         fprintf(stderr, "Invalid expression found\n");
@@ -533,6 +531,8 @@ const struct betree_sub* betree_make_sub(struct betree* tree, betree_sub_t id, s
         free_ast_node(node);
         return NULL;
     }
+    assign_str_id(tree->config, node, true);
+    assign_ienum_id(tree->config, node, true);
     sort_lists(node);
     change_boundaries(tree->config, node);
     assign_pred_id(tree->config, node);
-- 
2.43.0


From 9635cc038dcbc63f84ea9f19b1ec5dbc5f148076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:32 +0000
Subject: [PATCH 13/28] fix: make_sub checks the types of the attributes of
 special conditions

---
 src/ast.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 6ec521f..fc23ba7 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2563,6 +2563,12 @@ bool is_list_type(enum betree_value_type_e type) {
     return type == BETREE_INTEGER_LIST || type == BETREE_STRING_LIST;
 }
 
+static bool is_variable_of_type(
+    const struct config* config, struct attr_var attr_var, enum betree_value_type_e type)
+{
+    return config->attr_domains[attr_var.var]->bound.value_type == type;
+}
+
 bool all_exprs_valid(const struct config* config, const struct ast_node* node)
 {
     switch(node->type) {
@@ -2629,11 +2635,17 @@ bool all_exprs_valid(const struct config* config, const struct ast_node* node)
         case AST_TYPE_SPECIAL_EXPR:
             switch(node->special_expr.type) {
                 case AST_SPECIAL_FREQUENCY:
-                    return node->special_expr.frequency.type != FREQUENCY_TYPE_INVALID;
+                    return node->special_expr.frequency.type != FREQUENCY_TYPE_INVALID
+                        && is_variable_of_type(config, node->special_expr.frequency.attr_var, BETREE_FREQUENCY_CAPS)
+                        && is_variable_of_type(config, node->special_expr.frequency.now, BETREE_INTEGER);
                 case AST_SPECIAL_SEGMENT:
+                    return is_variable_of_type(config, node->special_expr.segment.attr_var, BETREE_SEGMENTS)
+                        && is_variable_of_type(config, node->special_expr.segment.now, BETREE_INTEGER);
                 case AST_SPECIAL_GEO:
+                    return is_variable_of_type(config, node->special_expr.geo.latitude_var, BETREE_FLOAT)
+                        && is_variable_of_type(config, node->special_expr.geo.longitude_var, BETREE_FLOAT);
                 case AST_SPECIAL_STRING:
-                    return true;
+                    return is_variable_of_type(config, node->special_expr.string.attr_var, BETREE_STRING);
                 default: abort();
             }
         default: abort();
-- 
2.43.0


From 843e0e7052e7528239816dd427919629f4b4d40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:57 +0000
Subject: [PATCH 14/28] fix: convert an integer event value for a float
 variable

---
 src/tree.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tree.c b/src/tree.c
index 433e03a..5b8e770 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -1877,6 +1877,9 @@ void fill_event(const struct config* config, struct betree_event* event)
         }
         pred->attr_var.var = var;
         struct attr_domain* domain = config->attr_domains[var];
+        if(pred->value.value_type == BETREE_INTEGER && domain->bound.value_type == BETREE_FLOAT) {
+            pred->value.float_value = (double)pred->value.integer_value;
+        }
         pred->value.value_type = domain->bound.value_type;
         switch(pred->value.value_type) {
             case BETREE_BOOLEAN:
-- 
2.43.0


From 1e951b3695f7e89bf4645668ef80d837b7c4d176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:59 +0000
Subject: [PATCH 15/28] fix: release the environment of a refused event

---
 src/betree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/betree.c b/src/betree.c
index 029ff13..e679a84 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -567,6 +567,7 @@ static bool betree_search_with_event_filled(const struct betree* betree, struct
         = make_environment(betree->config->attr_domain_count, event);
     if(validate_variables(betree->config, variables) == false) {
         fprintf(stderr, "Failed to validate event\n");
+        bfree(variables);
         return false;
     }
     return betree_search_with_preds(betree->config, variables, betree->cnode, report);
-- 
2.43.0


From b7f84b5246284facef6f8dabaddfd73bf709891c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:02 +0000
Subject: [PATCH 16/28] fix: an existence query refuses an event without a
 required variable, like a search

---
 src/betree.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/betree.c b/src/betree.c
index e679a84..b07122e 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -576,6 +576,11 @@ static bool betree_search_with_event_filled(const struct betree* betree, struct
 static bool betree_exists_with_event_filled(const struct betree* betree, struct betree_event* event)
 {
     const struct betree_variable** variables = make_environment(betree->config->attr_domain_count, event);
+    if(validate_variables(betree->config, variables) == false) {
+        fprintf(stderr, "Failed to validate event\n");
+        bfree(variables);
+        return false;
+    }
     return betree_exists_with_preds(betree->config, variables, betree->cnode);
 }
 
-- 
2.43.0


From d75a8dc31c1ea58688e38195d896986a234213a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:05 +0000
Subject: [PATCH 17/28] fix: release the expression when its constants are
 missing

---
 src/betree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/betree.c b/src/betree.c
index b07122e..4dbb116 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -496,6 +496,7 @@ bool betree_insert_with_constants(struct betree* tree,
     }
     if(!assign_constants(constant_count, constants, node)) {
         fprintf(stderr, "Can't assign constants %ld\n", id);
+        free_ast_node(node);
         return false;
     }
     assign_str_id(tree->config, node, false);
-- 
2.43.0


From e8a2be1e634569946ccde77e1e6efec95bdb3dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:13 +0000
Subject: [PATCH 18/28] fix: text after an unknown character is not silently
 dropped from an expression

---
 src/lexer.c | 96 +++++++++++++++++++++++++++--------------------------
 src/lexer.h |  2 +-
 src/lexer.l |  4 ++-
 3 files changed, 53 insertions(+), 49 deletions(-)

diff --git a/src/lexer.c b/src/lexer.c
index 9661314..bee82f7 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -762,6 +762,8 @@ static const flex_int16_t yy_chk[239] =
     #define SAVE_INTEGER yylval->integer_value = strtoll(yytext, NULL, 10)
     #define SAVE_FLOAT yylval->float_value = atof(yytext)
     #define TOKEN(t) (yylval->token = t)
+    // No rule of the grammar has this token, the end of the input would accept what precedes it
+    #define UNKNOWN_TOKEN 1
     #define YYSTYPE XXSTYPE
 #if defined(__clang__)
     #pragma clang diagnostic push
@@ -773,8 +775,8 @@ static const flex_int16_t yy_chk[239] =
     #pragma GCC diagnostic ignored "-Wsign-compare"
     #pragma GCC diagnostic ignored "-Wunused-function"
 #endif
-#line 777 "src/lexer.c"
-#line 778 "src/lexer.c"
+#line 779 "src/lexer.c"
+#line 780 "src/lexer.c"
 
 #define INITIAL 0
 
@@ -1048,10 +1050,10 @@ YY_DECL
 		}
 
 	{
-#line 33 "src/lexer.l"
+#line 35 "src/lexer.l"
 
 
-#line 1055 "src/lexer.c"
+#line 1057 "src/lexer.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -1111,207 +1113,207 @@ do_action:	/* This label is used only to access EOF actions. */
 case 1:
 /* rule 1 can match eol */
 YY_RULE_SETUP
-#line 35 "src/lexer.l"
+#line 37 "src/lexer.l"
 ;
 	YY_BREAK
 case 2:
 YY_RULE_SETUP
-#line 36 "src/lexer.l"
+#line 38 "src/lexer.l"
 return TOKEN(TWITHINFREQUENCYCAP);
 	YY_BREAK
 case 3:
 YY_RULE_SETUP
-#line 37 "src/lexer.l"
+#line 39 "src/lexer.l"
 return TOKEN(TSEGMENTWITHIN);
 	YY_BREAK
 case 4:
 YY_RULE_SETUP
-#line 38 "src/lexer.l"
+#line 40 "src/lexer.l"
 return TOKEN(TSEGMENTBEFORE);
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 39 "src/lexer.l"
+#line 41 "src/lexer.l"
 return TOKEN(TGEOWITHINRADIUS);
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 40 "src/lexer.l"
+#line 42 "src/lexer.l"
 return TOKEN(TCONTAINS);
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 41 "src/lexer.l"
+#line 43 "src/lexer.l"
 return TOKEN(TSTARTSWITH);
 	YY_BREAK
 case 8:
 YY_RULE_SETUP
-#line 42 "src/lexer.l"
+#line 44 "src/lexer.l"
 return TOKEN(TENDSWITH);
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 43 "src/lexer.l"
+#line 45 "src/lexer.l"
 return TOKEN(TMINUS);
 	YY_BREAK
 case 10:
 YY_RULE_SETUP
-#line 44 "src/lexer.l"
+#line 46 "src/lexer.l"
 return TOKEN(TCEQ);
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 45 "src/lexer.l"
+#line 47 "src/lexer.l"
 return TOKEN(TCNE);
 	YY_BREAK
 case 12:
 YY_RULE_SETUP
-#line 46 "src/lexer.l"
+#line 48 "src/lexer.l"
 return TOKEN(TCGT);
 	YY_BREAK
 case 13:
 YY_RULE_SETUP
-#line 47 "src/lexer.l"
+#line 49 "src/lexer.l"
 return TOKEN(TCGE);
 	YY_BREAK
 case 14:
 YY_RULE_SETUP
-#line 48 "src/lexer.l"
+#line 50 "src/lexer.l"
 return TOKEN(TCLT);
 	YY_BREAK
 case 15:
 YY_RULE_SETUP
-#line 49 "src/lexer.l"
+#line 51 "src/lexer.l"
 return TOKEN(TCLE);
 	YY_BREAK
 case 16:
 YY_RULE_SETUP
-#line 50 "src/lexer.l"
+#line 52 "src/lexer.l"
 return TOKEN(TLPAREN);
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
-#line 51 "src/lexer.l"
+#line 53 "src/lexer.l"
 return TOKEN(TRPAREN);
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
-#line 52 "src/lexer.l"
+#line 54 "src/lexer.l"
 return TOKEN(TCOMMA);
 	YY_BREAK
 case 19:
 YY_RULE_SETUP
-#line 53 "src/lexer.l"
+#line 55 "src/lexer.l"
 return TOKEN(TNOTIN);
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
-#line 54 "src/lexer.l"
+#line 56 "src/lexer.l"
 return TOKEN(TIN);
 	YY_BREAK
 case 21:
 YY_RULE_SETUP
-#line 55 "src/lexer.l"
+#line 57 "src/lexer.l"
 return TOKEN(TONEOF);
 	YY_BREAK
 case 22:
 YY_RULE_SETUP
-#line 56 "src/lexer.l"
+#line 58 "src/lexer.l"
 return TOKEN(TNONEOF);
 	YY_BREAK
 case 23:
 YY_RULE_SETUP
-#line 57 "src/lexer.l"
+#line 59 "src/lexer.l"
 return TOKEN(TALLOF);
 	YY_BREAK
 case 24:
 YY_RULE_SETUP
-#line 58 "src/lexer.l"
+#line 60 "src/lexer.l"
 return TOKEN(TAND);
 	YY_BREAK
 case 25:
 YY_RULE_SETUP
-#line 59 "src/lexer.l"
+#line 61 "src/lexer.l"
 return TOKEN(TAND);
 	YY_BREAK
 case 26:
 YY_RULE_SETUP
-#line 60 "src/lexer.l"
+#line 62 "src/lexer.l"
 return TOKEN(TOR);
 	YY_BREAK
 case 27:
 YY_RULE_SETUP
-#line 61 "src/lexer.l"
+#line 63 "src/lexer.l"
 return TOKEN(TOR);
 	YY_BREAK
 case 28:
 YY_RULE_SETUP
-#line 62 "src/lexer.l"
+#line 64 "src/lexer.l"
 return TOKEN(TNOT);
 	YY_BREAK
 case 29:
 YY_RULE_SETUP
-#line 63 "src/lexer.l"
+#line 65 "src/lexer.l"
 return TOKEN(TISNOTNULL);
 	YY_BREAK
 case 30:
 YY_RULE_SETUP
-#line 64 "src/lexer.l"
+#line 66 "src/lexer.l"
 return TOKEN(TISNULL);
 	YY_BREAK
 case 31:
 YY_RULE_SETUP
-#line 65 "src/lexer.l"
+#line 67 "src/lexer.l"
 return TOKEN(TISEMPTY);
 	YY_BREAK
 case 32:
 YY_RULE_SETUP
-#line 66 "src/lexer.l"
+#line 68 "src/lexer.l"
 return TOKEN(TTRUE);
 	YY_BREAK
 case 33:
 YY_RULE_SETUP
-#line 67 "src/lexer.l"
+#line 69 "src/lexer.l"
 return TOKEN(TFALSE);
 	YY_BREAK
 case 34:
 /* rule 34 can match eol */
 YY_RULE_SETUP
-#line 68 "src/lexer.l"
+#line 70 "src/lexer.l"
 SAVE_STRING; return TSTRING;
 	YY_BREAK
 case 35:
 /* rule 35 can match eol */
 YY_RULE_SETUP
-#line 69 "src/lexer.l"
+#line 71 "src/lexer.l"
 SAVE_STRING; return TSTRING;
 	YY_BREAK
 case 36:
 YY_RULE_SETUP
-#line 70 "src/lexer.l"
+#line 72 "src/lexer.l"
 SAVE_IDENTIFIER; return TIDENTIFIER;
 	YY_BREAK
 case 37:
 YY_RULE_SETUP
-#line 71 "src/lexer.l"
+#line 73 "src/lexer.l"
 SAVE_INTEGER; return TINTEGER;
 	YY_BREAK
 case 38:
 YY_RULE_SETUP
-#line 72 "src/lexer.l"
+#line 74 "src/lexer.l"
 SAVE_FLOAT; return TFLOAT;
 	YY_BREAK
 case 39:
 YY_RULE_SETUP
-#line 73 "src/lexer.l"
-printf("Unknown token! (%s)\n", yytext); yyterminate();
+#line 75 "src/lexer.l"
+printf("Unknown token! (%s)\n", yytext); return TOKEN(UNKNOWN_TOKEN);
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
-#line 75 "src/lexer.l"
+#line 77 "src/lexer.l"
 ECHO;
 	YY_BREAK
-#line 1315 "src/lexer.c"
+#line 1317 "src/lexer.c"
 case YY_STATE_EOF(INITIAL):
 	yyterminate();
 
@@ -2492,7 +2494,7 @@ void yyfree (void * ptr , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 75 "src/lexer.l"
+#line 77 "src/lexer.l"
 
 
 #if defined(__clang__)
diff --git a/src/lexer.h b/src/lexer.h
index 6552436..ba3d21f 100644
--- a/src/lexer.h
+++ b/src/lexer.h
@@ -712,7 +712,7 @@ extern int yylex \
 #undef yyTABLES_NAME
 #endif
 
-#line 75 "src/lexer.l"
+#line 77 "src/lexer.l"
 
 
 #line 719 "src/lexer.h"
diff --git a/src/lexer.l b/src/lexer.l
index 60b5e95..b9473b3 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -12,6 +12,8 @@
     #define SAVE_INTEGER yylval->integer_value = strtoll(yytext, NULL, 10)
     #define SAVE_FLOAT yylval->float_value = atof(yytext)
     #define TOKEN(t) (yylval->token = t)
+    // No rule of the grammar has this token, the end of the input would accept what precedes it
+    #define UNKNOWN_TOKEN 1
     #define YYSTYPE XXSTYPE
 #if defined(__clang__)
     #pragma clang diagnostic push
@@ -70,7 +72,7 @@
 [a-zA-Z_][a-zA-Z0-9_-]*     SAVE_IDENTIFIER; return TIDENTIFIER;
 [0-9]+                      SAVE_INTEGER; return TINTEGER;
 [0-9]+\.[0-9]*              SAVE_FLOAT; return TFLOAT;
-.                           printf("Unknown token! (%s)\n", yytext); yyterminate();
+.                           printf("Unknown token! (%s)\n", yytext); return TOKEN(UNKNOWN_TOKEN);
 
 %%
 
-- 
2.43.0


From 4fa90e97886d4aeb63a495050a95788c7cc2c6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:32 +0000
Subject: [PATCH 19/28] fix: 'not' in front of a name that starts with 'in'

---
 src/lexer.c | 265 ++++++++++++++++++++++++++--------------------------
 src/lexer.h |   2 +-
 src/lexer.l |   1 +
 3 files changed, 137 insertions(+), 131 deletions(-)

diff --git a/src/lexer.c b/src/lexer.c
index bee82f7..725ca24 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -561,8 +561,8 @@ static void yynoreturn yy_fatal_error ( const char* msg , yyscan_t yyscanner );
 	yyg->yy_hold_char = *yy_cp; \
 	*yy_cp = '\0'; \
 	yyg->yy_c_buf_p = yy_cp;
-#define YY_NUM_RULES 40
-#define YY_END_OF_BUFFER 41
+#define YY_NUM_RULES 41
+#define YY_END_OF_BUFFER 42
 /* This struct is not used in this scanner,
    but its presence is necessary. */
 struct yy_trans_info
@@ -570,27 +570,27 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const flex_int16_t yy_accept[175] =
+static const flex_int16_t yy_accept[176] =
     {   0,
-        0,    0,   41,   39,    1,    1,   39,   39,   39,   16,
-       17,   18,    9,   37,   14,   10,   12,   36,   36,   36,
-       36,   36,   36,   36,   36,   36,   36,   36,   36,   39,
-        0,   34,    0,   24,    0,   35,    0,   38,   37,   15,
-       11,   13,   36,   36,   36,   36,   36,   36,   36,   20,
-       36,   36,   36,   27,   36,   36,   36,   36,   26,   38,
-       36,   25,   36,   36,   36,   36,    0,   36,   28,   36,
-       36,   36,   36,   36,    0,   36,   36,   36,   36,    0,
-        0,   36,    0,    0,   36,   36,   32,   36,    0,   36,
-       36,   33,   36,    0,    0,    0,    0,    0,    0,   36,
-
-       36,   36,   23,   36,   36,   36,    0,    0,    0,    0,
-       19,   21,   36,   36,   36,   36,   36,   36,    0,    0,
-       30,   22,   36,   36,   36,    6,   36,   36,   31,    0,
-       36,   36,   36,    8,   36,    0,   36,   36,   36,   36,
-       36,    0,   36,   36,   36,   36,   36,   29,   36,   36,
-        7,   36,   36,   36,   36,   36,   36,   36,   36,   36,
-       36,    4,    3,   36,   36,   36,   36,   36,    5,   36,
-       36,   36,    2,    0
+        0,    0,   42,   40,    1,    1,   40,   40,   40,   16,
+       17,   18,    9,   38,   14,   10,   12,   37,   37,   37,
+       37,   37,   37,   37,   37,   37,   37,   37,   37,   40,
+        0,   35,    0,   25,    0,   36,    0,   39,   38,   15,
+       11,   13,   37,   37,   37,   37,   37,   37,   37,   21,
+       37,   37,   37,   28,   37,   37,   37,   37,   27,   39,
+       37,   26,   37,   37,   37,   37,    0,   37,   29,   37,
+       37,   37,   37,   37,    0,   37,   37,   37,   37,    0,
+        0,   37,    0,    0,   37,   37,   33,   37,    0,   37,
+       37,   34,   37,    0,    0,    0,    0,    0,    0,   37,
+
+       37,   37,   24,   37,   37,   37,    0,    0,    0,    0,
+       19,   22,   37,   37,   37,   37,   37,   37,    0,    0,
+       31,   23,   20,   37,   37,   37,    6,   37,   37,   32,
+        0,   37,   37,   37,    8,   37,    0,   37,   37,   37,
+       37,   37,    0,   37,   37,   37,   37,   37,   30,   37,
+       37,    7,   37,   37,   37,   37,   37,   37,   37,   37,
+       37,   37,    4,    3,   37,   37,   37,   37,   37,    5,
+       37,   37,   37,    2,    0
     } ;
 
 static const YY_CHAR yy_ec[256] =
@@ -634,53 +634,53 @@ static const YY_CHAR yy_meta[42] =
         1
     } ;
 
-static const flex_int16_t yy_base[178] =
+static const flex_int16_t yy_base[180] =
     {   0,
-        0,    0,  196,  197,  197,  197,   37,  189,   36,  197,
-      197,  197,  197,   32,   31,  197,  179,    0,   19,  161,
-      161,  171,  166,   20,  157,   18,   28,  153,  159,  145,
-       52,  197,  182,  197,   51,  197,  181,  170,   47,  197,
-      197,  197,    0,  153,  158,  149,  156,  149,  145,    0,
-      172,   30,  151,    0,  148,  153,  134,  134,  197,  157,
-      165,    0,  131,  131,  130,  146,   40,  140,  159,  158,
-      131,  125,  135,  131,  125,  136,  136,  130,  114,  122,
-       30,  147,  122,  117,  124,  110,    0,  118,  120,  116,
-      104,    0,  114,  108,  103,  110,  106,  106,  111,  104,
-
-       98,  102,  197,  101,  103,   93,   92,  124,   98,  101,
-      197,  197,   88,  105,  104,   86,   84,   93,   79,   87,
-      197,  197,   98,   77,   90,    0,   87,   85,  197,   74,
-       42,   83,   75,    0,   78,   79,   83,   78,   68,   80,
-       84,   73,   76,   63,   72,   64,   62,  197,   64,   68,
-        0,   56,   73,   57,   63,   66,   66,   64,   56,   55,
-       52,    0,    0,   57,   40,   37,   40,   56,    0,   52,
-       53,   39,    0,  197,   81,   83,   64
+        0,    0,  197,  198,  198,  198,   37,  190,   36,  198,
+      198,  198,  198,   32,   31,  198,  180,    0,   19,  162,
+      162,  172,  167,   20,  158,   18,   28,  154,  160,  146,
+       52,  198,  183,  198,   51,  198,  182,  171,   47,  198,
+      198,  198,    0,  154,  159,  150,  157,  150,  146,    0,
+      173,   30,  152,    0,  149,  154,  135,  135,  198,  158,
+      166,    0,  132,  132,  131,  147,   40,  141,  160,  159,
+      132,  126,  136,  132,  126,  137,  137,  131,  115,  123,
+       30,  148,  123,  118,  125,  111,    0,  119,  121,  117,
+      105,    0,  115,  109,  104,  111,  107,  107,  112,  105,
+
+       99,  103,  198,  102,  104,   94,   93,  125,   99,  102,
+        0,  198,   89,  106,  105,   87,   85,   94,   80,   88,
+      198,  198,    0,   99,   78,   91,    0,   88,   86,  198,
+       75,   42,   84,   76,    0,   79,   80,   84,   79,   69,
+       81,   85,   74,   77,   64,   73,   65,   63,  198,   65,
+       69,    0,   57,   74,   58,   64,   67,   67,   65,   57,
+       56,   58,    0,    0,   58,   41,   38,   41,   57,    0,
+       53,   54,   40,    0,  198,   81,   83,   70,   64
     } ;
 
-static const flex_int16_t yy_def[178] =
+static const flex_int16_t yy_def[180] =
     {   0,
-      174,    1,  174,  174,  174,  174,  175,  174,  176,  174,
-      174,  174,  174,  174,  174,  174,  174,  177,  177,  177,
-      177,  177,  177,  177,  177,  177,  177,  177,  177,  174,
-      175,  174,  175,  174,  176,  174,  176,  174,  174,  174,
-      174,  174,  177,  177,  177,  177,  177,  177,  177,  177,
-      177,  177,  177,  177,  177,  177,  177,  177,  174,  174,
-      177,  177,  177,  177,  177,  177,  174,  177,  177,  177,
-      177,  177,  177,  177,  174,  177,  177,  177,  177,  174,
-      174,  177,  174,  174,  177,  177,  177,  177,  174,  177,
-      177,  177,  177,  174,  174,  174,  174,  174,  174,  177,
-
-      177,  177,  174,  177,  177,  177,  174,  174,  174,  174,
-      174,  174,  177,  177,  177,  177,  177,  177,  174,  174,
-      174,  174,  177,  177,  177,  177,  177,  177,  174,  174,
-      177,  177,  177,  177,  177,  174,  177,  177,  177,  177,
-      177,  174,  177,  177,  177,  177,  177,  174,  177,  177,
-      177,  177,  177,  177,  177,  177,  177,  177,  177,  177,
-      177,  177,  177,  177,  177,  177,  177,  177,  177,  177,
-      177,  177,  177,    0,  174,  174,  174
+      175,    1,  175,  175,  175,  175,  176,  175,  177,  175,
+      175,  175,  175,  175,  175,  175,  175,  178,  178,  178,
+      178,  178,  178,  178,  178,  178,  178,  178,  178,  175,
+      176,  175,  176,  175,  177,  175,  177,  175,  175,  175,
+      175,  175,  178,  178,  178,  178,  178,  178,  178,  178,
+      178,  178,  178,  178,  178,  178,  178,  178,  175,  175,
+      178,  178,  178,  178,  178,  178,  175,  178,  178,  178,
+      178,  178,  178,  178,  175,  178,  178,  178,  178,  175,
+      175,  178,  175,  175,  178,  178,  178,  178,  175,  178,
+      178,  178,  178,  175,  175,  175,  175,  175,  175,  178,
+
+      178,  178,  175,  178,  178,  178,  175,  175,  175,  175,
+      179,  175,  178,  178,  178,  178,  178,  178,  175,  175,
+      175,  175,  179,  178,  178,  178,  178,  178,  178,  175,
+      175,  178,  178,  178,  178,  178,  175,  178,  178,  178,
+      178,  178,  175,  178,  178,  178,  178,  178,  175,  178,
+      178,  178,  178,  178,  178,  178,  178,  178,  178,  178,
+      178,  178,  178,  178,  178,  178,  178,  178,  178,  178,
+      178,  178,  178,  178,    0,  175,  175,  175,  175
     } ;
 
-static const flex_int16_t yy_nxt[239] =
+static const flex_int16_t yy_nxt[240] =
     {   0,
         4,    5,    6,    5,    7,    8,    9,   10,   11,   12,
        13,    4,   14,   15,   16,   17,   18,    4,   18,   19,
@@ -688,29 +688,29 @@ static const flex_int16_t yy_nxt[239] =
        25,   26,   18,   18,   18,   27,   28,   18,   29,   18,
        30,   32,   36,   38,   39,   40,   41,   44,   53,   45,
        50,   55,   54,   37,   33,   51,   32,   36,   38,   39,
-       68,   95,  137,   80,   56,   43,   69,   96,   37,   33,
-       81,  173,  172,  171,  170,  169,  168,  167,  166,  165,
-      138,   31,   31,   35,   35,  164,  163,  162,  161,  160,
-      159,  158,  157,  156,  155,  154,  153,  152,  151,  150,
-
-      149,  148,  147,  146,  145,  144,  143,  142,  141,  140,
-      139,  136,  135,  134,  133,  132,  131,  130,  129,  128,
-      127,  126,  125,  124,  123,  122,  121,  120,  119,  118,
-      117,  116,  115,  114,  113,  112,  111,  110,  109,  108,
-      107,  106,  105,  104,  103,  102,  101,  100,   99,   98,
-       97,   94,   93,   92,   91,   90,   89,   88,   87,   86,
-       85,   84,   83,   82,   79,   78,   77,   76,   75,   60,
-       74,   73,   72,   71,   70,   67,   66,   65,   64,   63,
-       62,   61,   60,  174,  174,   59,   58,   57,   52,   49,
-       48,   47,   46,   42,   34,  174,    3,  174,  174,  174,
-
-      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
-      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
-      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
-      174,  174,  174,  174,  174,  174,  174,  174
+       68,   95,  138,   80,   56,  123,   69,   96,   37,   33,
+       81,   43,  174,  173,  172,  171,  170,  169,  168,  167,
+      139,   31,   31,   35,   35,  166,  165,  164,  163,  162,
+      161,  160,  159,  158,  157,  156,  155,  154,  153,  152,
+
+      151,  150,  149,  148,  147,  146,  145,  144,  143,  142,
+      141,  140,  137,  136,  135,  134,  133,  132,  131,  130,
+      129,  128,  127,  126,  125,  124,  122,  121,  120,  119,
+      118,  117,  116,  115,  114,  113,  112,  111,  110,  109,
+      108,  107,  106,  105,  104,  103,  102,  101,  100,   99,
+       98,   97,   94,   93,   92,   91,   90,   89,   88,   87,
+       86,   85,   84,   83,   82,   79,   78,   77,   76,   75,
+       60,   74,   73,   72,   71,   70,   67,   66,   65,   64,
+       63,   62,   61,   60,  175,  175,   59,   58,   57,   52,
+       49,   48,   47,   46,   42,   34,  175,    3,  175,  175,
+
+      175,  175,  175,  175,  175,  175,  175,  175,  175,  175,
+      175,  175,  175,  175,  175,  175,  175,  175,  175,  175,
+      175,  175,  175,  175,  175,  175,  175,  175,  175,  175,
+      175,  175,  175,  175,  175,  175,  175,  175,  175
     } ;
 
-static const flex_int16_t yy_chk[239] =
+static const flex_int16_t yy_chk[240] =
     {   0,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
@@ -718,26 +718,26 @@ static const flex_int16_t yy_chk[239] =
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    7,    9,   14,   14,   15,   15,   19,   26,   19,
        24,   27,   26,    9,    7,   24,   31,   35,   39,   39,
-       52,   81,  131,   67,   27,  177,   52,   81,   35,   31,
-       67,  172,  171,  170,  168,  167,  166,  165,  164,  161,
-      131,  175,  175,  176,  176,  160,  159,  158,  157,  156,
-      155,  154,  153,  152,  150,  149,  147,  146,  145,  144,
-
-      143,  142,  141,  140,  139,  138,  137,  136,  135,  133,
-      132,  130,  128,  127,  125,  124,  123,  120,  119,  118,
-      117,  116,  115,  114,  113,  110,  109,  108,  107,  106,
-      105,  104,  102,  101,  100,   99,   98,   97,   96,   95,
-       94,   93,   91,   90,   89,   88,   86,   85,   84,   83,
-       82,   80,   79,   78,   77,   76,   75,   74,   73,   72,
-       71,   70,   69,   68,   66,   65,   64,   63,   61,   60,
-       58,   57,   56,   55,   53,   51,   49,   48,   47,   46,
-       45,   44,   38,   37,   33,   30,   29,   28,   25,   23,
-       22,   21,   20,   17,    8,    3,  174,  174,  174,  174,
-
-      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
-      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
-      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
-      174,  174,  174,  174,  174,  174,  174,  174
+       52,   81,  132,   67,   27,  179,   52,   81,   35,   31,
+       67,  178,  173,  172,  171,  169,  168,  167,  166,  165,
+      132,  176,  176,  177,  177,  162,  161,  160,  159,  158,
+      157,  156,  155,  154,  153,  151,  150,  148,  147,  146,
+
+      145,  144,  143,  142,  141,  140,  139,  138,  137,  136,
+      134,  133,  131,  129,  128,  126,  125,  124,  120,  119,
+      118,  117,  116,  115,  114,  113,  110,  109,  108,  107,
+      106,  105,  104,  102,  101,  100,   99,   98,   97,   96,
+       95,   94,   93,   91,   90,   89,   88,   86,   85,   84,
+       83,   82,   80,   79,   78,   77,   76,   75,   74,   73,
+       72,   71,   70,   69,   68,   66,   65,   64,   63,   61,
+       60,   58,   57,   56,   55,   53,   51,   49,   48,   47,
+       46,   45,   44,   38,   37,   33,   30,   29,   28,   25,
+       23,   22,   21,   20,   17,    8,    3,  175,  175,  175,
+
+      175,  175,  175,  175,  175,  175,  175,  175,  175,  175,
+      175,  175,  175,  175,  175,  175,  175,  175,  175,  175,
+      175,  175,  175,  175,  175,  175,  175,  175,  175,  175,
+      175,  175,  175,  175,  175,  175,  175,  175,  175
     } ;
 
 /* The intent behind this definition is that it'll catch
@@ -1080,13 +1080,13 @@ yy_match:
 			while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 				{
 				yy_current_state = (int) yy_def[yy_current_state];
-				if ( yy_current_state >= 175 )
+				if ( yy_current_state >= 176 )
 					yy_c = yy_meta[yy_c];
 				}
 			yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
 			++yy_cp;
 			}
-		while ( yy_base[yy_current_state] != 197 );
+		while ( yy_base[yy_current_state] != 198 );
 
 yy_find_action:
 		yy_act = yy_accept[yy_current_state];
@@ -1209,27 +1209,27 @@ return TOKEN(TNOTIN);
 case 20:
 YY_RULE_SETUP
 #line 56 "src/lexer.l"
-return TOKEN(TIN);
+yyless(3); return TOKEN(TNOT); /* not followed by an identifier */
 	YY_BREAK
 case 21:
 YY_RULE_SETUP
 #line 57 "src/lexer.l"
-return TOKEN(TONEOF);
+return TOKEN(TIN);
 	YY_BREAK
 case 22:
 YY_RULE_SETUP
 #line 58 "src/lexer.l"
-return TOKEN(TNONEOF);
+return TOKEN(TONEOF);
 	YY_BREAK
 case 23:
 YY_RULE_SETUP
 #line 59 "src/lexer.l"
-return TOKEN(TALLOF);
+return TOKEN(TNONEOF);
 	YY_BREAK
 case 24:
 YY_RULE_SETUP
 #line 60 "src/lexer.l"
-return TOKEN(TAND);
+return TOKEN(TALLOF);
 	YY_BREAK
 case 25:
 YY_RULE_SETUP
@@ -1239,7 +1239,7 @@ return TOKEN(TAND);
 case 26:
 YY_RULE_SETUP
 #line 62 "src/lexer.l"
-return TOKEN(TOR);
+return TOKEN(TAND);
 	YY_BREAK
 case 27:
 YY_RULE_SETUP
@@ -1249,38 +1249,37 @@ return TOKEN(TOR);
 case 28:
 YY_RULE_SETUP
 #line 64 "src/lexer.l"
-return TOKEN(TNOT);
+return TOKEN(TOR);
 	YY_BREAK
 case 29:
 YY_RULE_SETUP
 #line 65 "src/lexer.l"
-return TOKEN(TISNOTNULL);
+return TOKEN(TNOT);
 	YY_BREAK
 case 30:
 YY_RULE_SETUP
 #line 66 "src/lexer.l"
-return TOKEN(TISNULL);
+return TOKEN(TISNOTNULL);
 	YY_BREAK
 case 31:
 YY_RULE_SETUP
 #line 67 "src/lexer.l"
-return TOKEN(TISEMPTY);
+return TOKEN(TISNULL);
 	YY_BREAK
 case 32:
 YY_RULE_SETUP
 #line 68 "src/lexer.l"
-return TOKEN(TTRUE);
+return TOKEN(TISEMPTY);
 	YY_BREAK
 case 33:
 YY_RULE_SETUP
 #line 69 "src/lexer.l"
-return TOKEN(TFALSE);
+return TOKEN(TTRUE);
 	YY_BREAK
 case 34:
-/* rule 34 can match eol */
 YY_RULE_SETUP
 #line 70 "src/lexer.l"
-SAVE_STRING; return TSTRING;
+return TOKEN(TFALSE);
 	YY_BREAK
 case 35:
 /* rule 35 can match eol */
@@ -1289,31 +1288,37 @@ YY_RULE_SETUP
 SAVE_STRING; return TSTRING;
 	YY_BREAK
 case 36:
+/* rule 36 can match eol */
 YY_RULE_SETUP
 #line 72 "src/lexer.l"
-SAVE_IDENTIFIER; return TIDENTIFIER;
+SAVE_STRING; return TSTRING;
 	YY_BREAK
 case 37:
 YY_RULE_SETUP
 #line 73 "src/lexer.l"
-SAVE_INTEGER; return TINTEGER;
+SAVE_IDENTIFIER; return TIDENTIFIER;
 	YY_BREAK
 case 38:
 YY_RULE_SETUP
 #line 74 "src/lexer.l"
-SAVE_FLOAT; return TFLOAT;
+SAVE_INTEGER; return TINTEGER;
 	YY_BREAK
 case 39:
 YY_RULE_SETUP
 #line 75 "src/lexer.l"
-printf("Unknown token! (%s)\n", yytext); return TOKEN(UNKNOWN_TOKEN);
+SAVE_FLOAT; return TFLOAT;
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
-#line 77 "src/lexer.l"
+#line 76 "src/lexer.l"
+printf("Unknown token! (%s)\n", yytext); return TOKEN(UNKNOWN_TOKEN);
+	YY_BREAK
+case 41:
+YY_RULE_SETUP
+#line 78 "src/lexer.l"
 ECHO;
 	YY_BREAK
-#line 1317 "src/lexer.c"
+#line 1322 "src/lexer.c"
 case YY_STATE_EOF(INITIAL):
 	yyterminate();
 
@@ -1612,7 +1617,7 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 		while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 			{
 			yy_current_state = (int) yy_def[yy_current_state];
-			if ( yy_current_state >= 175 )
+			if ( yy_current_state >= 176 )
 				yy_c = yy_meta[yy_c];
 			}
 		yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
@@ -1641,11 +1646,11 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 	while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 		{
 		yy_current_state = (int) yy_def[yy_current_state];
-		if ( yy_current_state >= 175 )
+		if ( yy_current_state >= 176 )
 			yy_c = yy_meta[yy_c];
 		}
 	yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
-	yy_is_jam = (yy_current_state == 174);
+	yy_is_jam = (yy_current_state == 175);
 
 	(void)yyg;
 	return yy_is_jam ? 0 : yy_current_state;
@@ -2494,7 +2499,7 @@ void yyfree (void * ptr , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 77 "src/lexer.l"
+#line 78 "src/lexer.l"
 
 
 #if defined(__clang__)
diff --git a/src/lexer.h b/src/lexer.h
index ba3d21f..42f16f6 100644
--- a/src/lexer.h
+++ b/src/lexer.h
@@ -712,7 +712,7 @@ extern int yylex \
 #undef yyTABLES_NAME
 #endif
 
-#line 77 "src/lexer.l"
+#line 78 "src/lexer.l"
 
 
 #line 719 "src/lexer.h"
diff --git a/src/lexer.l b/src/lexer.l
index b9473b3..e142121 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -53,6 +53,7 @@
 ")"                         return TOKEN(TRPAREN);
 ","                         return TOKEN(TCOMMA);
 "not in"                    return TOKEN(TNOTIN);
+"not in"[a-zA-Z0-9_-]+      yyless(3); return TOKEN(TNOT); /* not followed by an identifier */
 "in"                        return TOKEN(TIN);
 "one of"                    return TOKEN(TONEOF);
 "none of"                   return TOKEN(TNONEOF);
-- 
2.43.0


From 29006b460f4c95dc0ecd848aff597cf5b8524c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:49 +0000
Subject: [PATCH 20/28] fix: release what a failed parse of an expression has
 built

---
 src/ast.c    |  39 +++--
 src/ast.h    |   3 +
 src/parser.c | 465 ++++++++++++++++++++++++++++++++++-----------------
 src/parser.y |  16 ++
 4 files changed, 358 insertions(+), 165 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index fc23ba7..1a0dd73 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -275,52 +275,67 @@ static void free_special_expr(struct ast_special_expr special_expr)
     }
 }
 
-static void free_set_expr(struct ast_set_expr set_expr)
+void free_set_left_value(struct set_left_value left_value)
 {
-    switch(set_expr.left_value.value_type) {
+    switch(left_value.value_type) {
         case AST_SET_LEFT_VALUE_INTEGER: {
             break;
         }
         case AST_SET_LEFT_VALUE_STRING: {
-            bfree((char*)set_expr.left_value.string_value.string);
+            bfree((char*)left_value.string_value.string);
             break;
         }
         case AST_SET_LEFT_VALUE_VARIABLE: {
-            free_attr_var(set_expr.left_value.variable_value);
+            free_attr_var(left_value.variable_value);
             break;
         }
         default: abort();
     }
-    switch(set_expr.right_value.value_type) {
+}
+
+void free_set_right_value(struct set_right_value right_value)
+{
+    switch(right_value.value_type) {
         case AST_SET_RIGHT_VALUE_INTEGER_LIST: {
-            free_integer_list(set_expr.right_value.integer_list_value);
+            free_integer_list(right_value.integer_list_value);
             break;
         }
         case AST_SET_RIGHT_VALUE_STRING_LIST: {
-            free_string_list(set_expr.right_value.string_list_value);
+            free_string_list(right_value.string_list_value);
             break;
         }
         case AST_SET_RIGHT_VALUE_VARIABLE: {
-            free_attr_var(set_expr.right_value.variable_value);
+            free_attr_var(right_value.variable_value);
             break;
         }
         default: abort();
     }
 }
 
-static void free_list_expr(struct ast_list_expr list_expr)
+static void free_set_expr(struct ast_set_expr set_expr)
 {
-    switch(list_expr.value.value_type) {
+    free_set_left_value(set_expr.left_value);
+    free_set_right_value(set_expr.right_value);
+}
+
+void free_list_value(struct list_value value)
+{
+    switch(value.value_type) {
         case AST_LIST_VALUE_INTEGER_LIST: {
-            free_integer_list(list_expr.value.integer_list_value);
+            free_integer_list(value.integer_list_value);
             break;
         }
         case AST_LIST_VALUE_STRING_LIST: {
-            free_string_list(list_expr.value.string_list_value);
+            free_string_list(value.string_list_value);
             break;
         }
         default: abort();
     }
+}
+
+static void free_list_expr(struct ast_list_expr list_expr)
+{
+    free_list_value(list_expr.value);
     free_attr_var(list_expr.attr_var);
 }
 
diff --git a/src/ast.h b/src/ast.h
index acda1a8..d75db5d 100644
--- a/src/ast.h
+++ b/src/ast.h
@@ -318,6 +318,9 @@ struct ast_node* ast_special_string_create(
 struct ast_node* ast_is_null_expr_create(enum ast_is_null_e type, const char* name);
 
 void free_ast_node(struct ast_node* node);
+void free_set_left_value(struct set_left_value left_value);
+void free_set_right_value(struct set_right_value right_value);
+void free_list_value(struct list_value value);
 
 bool match_node(const struct betree_variable** preds,
     const struct ast_node* node,
diff --git a/src/parser.c b/src/parser.c
index 6c74de6..dca53c6 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1188,7 +1188,162 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, void *scanner, str
   YY_SYMBOL_PRINT (yymsg, yytype, yyvaluep, yylocationp);
 
   YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN
-  YYUSE (yytype);
+  switch (yytype)
+    {
+          case 33: /* TSTRING  */
+#line 88 "src/parser.y" /* yacc.c:1257  */
+      { bfree(((*yyvaluep).string)); }
+#line 1197 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 34: /* TIDENTIFIER  */
+#line 88 "src/parser.y" /* yacc.c:1257  */
+      { bfree(((*yyvaluep).string)); }
+#line 1203 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 39: /* ident  */
+#line 88 "src/parser.y" /* yacc.c:1257  */
+      { bfree(((*yyvaluep).string)); }
+#line 1209 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 42: /* string  */
+#line 89 "src/parser.y" /* yacc.c:1257  */
+      { bfree((char*)((*yyvaluep).string_value).string); }
+#line 1215 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 43: /* integer_list_value  */
+#line 95 "src/parser.y" /* yacc.c:1257  */
+      { free_integer_list(((*yyvaluep).integer_list_value)); }
+#line 1221 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 44: /* integer_list_loop  */
+#line 95 "src/parser.y" /* yacc.c:1257  */
+      { free_integer_list(((*yyvaluep).integer_list_value)); }
+#line 1227 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 45: /* string_list_value  */
+#line 96 "src/parser.y" /* yacc.c:1257  */
+      { free_string_list(((*yyvaluep).string_list_value)); }
+#line 1233 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 46: /* string_list_loop  */
+#line 96 "src/parser.y" /* yacc.c:1257  */
+      { free_string_list(((*yyvaluep).string_list_value)); }
+#line 1239 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 47: /* expr  */
+#line 97 "src/parser.y" /* yacc.c:1257  */
+      { free_ast_node(((*yyvaluep).node)); }
+#line 1245 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 48: /* is_null_expr  */
+#line 97 "src/parser.y" /* yacc.c:1257  */
+      { free_ast_node(((*yyvaluep).node)); }
+#line 1251 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 50: /* num_comp_expr  */
+#line 97 "src/parser.y" /* yacc.c:1257  */
+      { free_ast_node(((*yyvaluep).node)); }
+#line 1257 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 51: /* eq_value  */
+#line 90 "src/parser.y" /* yacc.c:1257  */
+      { if(((*yyvaluep).equality_value).value_type == AST_EQUALITY_VALUE_STRING) bfree((char*)((*yyvaluep).equality_value).string_value.string); }
+#line 1263 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 52: /* eq_expr  */
+#line 97 "src/parser.y" /* yacc.c:1257  */
+      { free_ast_node(((*yyvaluep).node)); }
+#line 1269 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 53: /* variable_value  */
+#line 91 "src/parser.y" /* yacc.c:1257  */
+      { free_attr_var(((*yyvaluep).variable_value)); }
+#line 1275 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 54: /* set_left_value  */
+#line 92 "src/parser.y" /* yacc.c:1257  */
+      { free_set_left_value(((*yyvaluep).set_left_value)); }
+#line 1281 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 55: /* set_right_value  */
+#line 93 "src/parser.y" /* yacc.c:1257  */
+      { free_set_right_value(((*yyvaluep).set_right_value)); }
+#line 1287 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 56: /* set_expr  */
+#line 97 "src/parser.y" /* yacc.c:1257  */
+      { free_ast_node(((*yyvaluep).node)); }
+#line 1293 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 57: /* list_value  */
+#line 94 "src/parser.y" /* yacc.c:1257  */
+      { free_list_value(((*yyvaluep).list_value)); }
+#line 1299 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 58: /* list_expr  */
+#line 97 "src/parser.y" /* yacc.c:1257  */
+      { free_ast_node(((*yyvaluep).node)); }
+#line 1305 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 59: /* bool_expr  */
+#line 97 "src/parser.y" /* yacc.c:1257  */
+      { free_ast_node(((*yyvaluep).node)); }
+#line 1311 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 60: /* special_expr  */
+#line 97 "src/parser.y" /* yacc.c:1257  */
+      { free_ast_node(((*yyvaluep).node)); }
+#line 1317 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 61: /* s_frequency_expr  */
+#line 97 "src/parser.y" /* yacc.c:1257  */
+      { free_ast_node(((*yyvaluep).node)); }
+#line 1323 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 62: /* s_segment_expr  */
+#line 97 "src/parser.y" /* yacc.c:1257  */
+      { free_ast_node(((*yyvaluep).node)); }
+#line 1329 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 63: /* s_geo_expr  */
+#line 97 "src/parser.y" /* yacc.c:1257  */
+      { free_ast_node(((*yyvaluep).node)); }
+#line 1335 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+          case 64: /* s_string_expr  */
+#line 97 "src/parser.y" /* yacc.c:1257  */
+      { free_ast_node(((*yyvaluep).node)); }
+#line 1341 "src/parser.c" /* yacc.c:1257  */
+        break;
+
+
+      default:
+        break;
+    }
   YY_IGNORE_MAYBE_UNINITIALIZED_END
 }
 
@@ -1448,457 +1603,457 @@ yyreduce:
   switch (yyn)
     {
         case 2:
-#line 96 "src/parser.y" /* yacc.c:1646  */
+#line 108 "src/parser.y" /* yacc.c:1646  */
     { *root = (yyvsp[0].node); }
-#line 1454 "src/parser.c" /* yacc.c:1646  */
+#line 1609 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 3:
-#line 98 "src/parser.y" /* yacc.c:1646  */
+#line 110 "src/parser.y" /* yacc.c:1646  */
     { (yyval.string) = (yyvsp[0].string); }
-#line 1460 "src/parser.c" /* yacc.c:1646  */
+#line 1615 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 4:
-#line 100 "src/parser.y" /* yacc.c:1646  */
+#line 112 "src/parser.y" /* yacc.c:1646  */
     { (yyval.integer_value) = (yyvsp[0].integer_value); }
-#line 1466 "src/parser.c" /* yacc.c:1646  */
+#line 1621 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 5:
-#line 101 "src/parser.y" /* yacc.c:1646  */
+#line 113 "src/parser.y" /* yacc.c:1646  */
     { (yyval.integer_value) = - (yyvsp[0].integer_value); }
-#line 1472 "src/parser.c" /* yacc.c:1646  */
+#line 1627 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 6:
-#line 104 "src/parser.y" /* yacc.c:1646  */
+#line 116 "src/parser.y" /* yacc.c:1646  */
     { (yyval.float_value) = (yyvsp[0].float_value); }
-#line 1478 "src/parser.c" /* yacc.c:1646  */
+#line 1633 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 7:
-#line 105 "src/parser.y" /* yacc.c:1646  */
+#line 117 "src/parser.y" /* yacc.c:1646  */
     { (yyval.float_value) = - (yyvsp[0].float_value); }
-#line 1484 "src/parser.c" /* yacc.c:1646  */
+#line 1639 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 8:
-#line 108 "src/parser.y" /* yacc.c:1646  */
+#line 120 "src/parser.y" /* yacc.c:1646  */
     { (yyval.string_value).string = bstrdup((yyvsp[0].string)); (yyval.string_value).str = INVALID_STR; bfree((yyvsp[0].string)); }
-#line 1490 "src/parser.c" /* yacc.c:1646  */
+#line 1645 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 9:
-#line 110 "src/parser.y" /* yacc.c:1646  */
+#line 122 "src/parser.y" /* yacc.c:1646  */
     { (yyval.integer_list_value) = (yyvsp[-1].integer_list_value); }
-#line 1496 "src/parser.c" /* yacc.c:1646  */
+#line 1651 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 10:
-#line 112 "src/parser.y" /* yacc.c:1646  */
+#line 124 "src/parser.y" /* yacc.c:1646  */
     { (yyval.integer_list_value) = make_integer_list(); add_integer_list_value((yyvsp[0].integer_value), (yyval.integer_list_value)); }
-#line 1502 "src/parser.c" /* yacc.c:1646  */
+#line 1657 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 11:
-#line 113 "src/parser.y" /* yacc.c:1646  */
+#line 125 "src/parser.y" /* yacc.c:1646  */
     { add_integer_list_value((yyvsp[0].integer_value), (yyvsp[-2].integer_list_value)); (yyval.integer_list_value) = (yyvsp[-2].integer_list_value); }
-#line 1508 "src/parser.c" /* yacc.c:1646  */
+#line 1663 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 12:
-#line 116 "src/parser.y" /* yacc.c:1646  */
+#line 128 "src/parser.y" /* yacc.c:1646  */
     { (yyval.string_list_value) = (yyvsp[-1].string_list_value); }
-#line 1514 "src/parser.c" /* yacc.c:1646  */
+#line 1669 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 13:
-#line 118 "src/parser.y" /* yacc.c:1646  */
+#line 130 "src/parser.y" /* yacc.c:1646  */
     { (yyval.string_list_value) = make_string_list(); add_string_list_value((yyvsp[0].string_value), (yyval.string_list_value)); }
-#line 1520 "src/parser.c" /* yacc.c:1646  */
+#line 1675 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 14:
-#line 119 "src/parser.y" /* yacc.c:1646  */
+#line 131 "src/parser.y" /* yacc.c:1646  */
     { add_string_list_value((yyvsp[0].string_value), (yyvsp[-2].string_list_value)); (yyval.string_list_value) = (yyvsp[-2].string_list_value); }
-#line 1526 "src/parser.c" /* yacc.c:1646  */
+#line 1681 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 15:
-#line 122 "src/parser.y" /* yacc.c:1646  */
+#line 134 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = (yyvsp[-1].node); }
-#line 1532 "src/parser.c" /* yacc.c:1646  */
+#line 1687 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 16:
-#line 123 "src/parser.y" /* yacc.c:1646  */
+#line 135 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = (yyvsp[0].node); }
-#line 1538 "src/parser.c" /* yacc.c:1646  */
+#line 1693 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 17:
-#line 124 "src/parser.y" /* yacc.c:1646  */
+#line 136 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = (yyvsp[0].node); }
-#line 1544 "src/parser.c" /* yacc.c:1646  */
+#line 1699 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 18:
-#line 125 "src/parser.y" /* yacc.c:1646  */
+#line 137 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = (yyvsp[0].node); }
-#line 1550 "src/parser.c" /* yacc.c:1646  */
+#line 1705 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 19:
-#line 126 "src/parser.y" /* yacc.c:1646  */
+#line 138 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = (yyvsp[0].node); }
-#line 1556 "src/parser.c" /* yacc.c:1646  */
+#line 1711 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 20:
-#line 127 "src/parser.y" /* yacc.c:1646  */
+#line 139 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = (yyvsp[0].node); }
-#line 1562 "src/parser.c" /* yacc.c:1646  */
+#line 1717 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 21:
-#line 128 "src/parser.y" /* yacc.c:1646  */
+#line 140 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = (yyvsp[0].node); }
-#line 1568 "src/parser.c" /* yacc.c:1646  */
+#line 1723 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 22:
-#line 129 "src/parser.y" /* yacc.c:1646  */
+#line 141 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = (yyvsp[0].node); }
-#line 1574 "src/parser.c" /* yacc.c:1646  */
+#line 1729 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 23:
-#line 132 "src/parser.y" /* yacc.c:1646  */
+#line 144 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_is_null_expr_create(AST_IS_NULL, (yyvsp[-1].string)); bfree((yyvsp[-1].string)); }
-#line 1580 "src/parser.c" /* yacc.c:1646  */
+#line 1735 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 24:
-#line 133 "src/parser.y" /* yacc.c:1646  */
+#line 145 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_is_null_expr_create(AST_IS_NOT_NULL, (yyvsp[-1].string)); bfree((yyvsp[-1].string)); }
-#line 1586 "src/parser.c" /* yacc.c:1646  */
+#line 1741 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 25:
-#line 134 "src/parser.y" /* yacc.c:1646  */
+#line 146 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_is_null_expr_create(AST_IS_EMPTY, (yyvsp[-1].string)); bfree((yyvsp[-1].string)); }
-#line 1592 "src/parser.c" /* yacc.c:1646  */
+#line 1747 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 26:
-#line 137 "src/parser.y" /* yacc.c:1646  */
+#line 149 "src/parser.y" /* yacc.c:1646  */
     { (yyval.compare_value).value_type = AST_COMPARE_VALUE_INTEGER; (yyval.compare_value).integer_value = (yyvsp[0].integer_value); }
-#line 1598 "src/parser.c" /* yacc.c:1646  */
+#line 1753 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 27:
-#line 138 "src/parser.y" /* yacc.c:1646  */
+#line 150 "src/parser.y" /* yacc.c:1646  */
     { (yyval.compare_value).value_type = AST_COMPARE_VALUE_FLOAT; (yyval.compare_value).float_value = (yyvsp[0].float_value); }
-#line 1604 "src/parser.c" /* yacc.c:1646  */
+#line 1759 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 28:
-#line 141 "src/parser.y" /* yacc.c:1646  */
+#line 153 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_compare_expr_create(AST_COMPARE_GT, (yyvsp[-2].string), (yyvsp[0].compare_value)); bfree((yyvsp[-2].string)); }
-#line 1610 "src/parser.c" /* yacc.c:1646  */
+#line 1765 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 29:
-#line 142 "src/parser.y" /* yacc.c:1646  */
+#line 154 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_compare_expr_create(AST_COMPARE_GE, (yyvsp[-2].string), (yyvsp[0].compare_value)); bfree((yyvsp[-2].string)); }
-#line 1616 "src/parser.c" /* yacc.c:1646  */
+#line 1771 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 30:
-#line 143 "src/parser.y" /* yacc.c:1646  */
+#line 155 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_compare_expr_create(AST_COMPARE_LT, (yyvsp[-2].string), (yyvsp[0].compare_value)); bfree((yyvsp[-2].string)); }
-#line 1622 "src/parser.c" /* yacc.c:1646  */
+#line 1777 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 31:
-#line 144 "src/parser.y" /* yacc.c:1646  */
+#line 156 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_compare_expr_create(AST_COMPARE_LE, (yyvsp[-2].string), (yyvsp[0].compare_value)); bfree((yyvsp[-2].string)); }
-#line 1628 "src/parser.c" /* yacc.c:1646  */
+#line 1783 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 32:
-#line 145 "src/parser.y" /* yacc.c:1646  */
+#line 157 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_compare_expr_create(AST_COMPARE_GT, (yyvsp[0].string), (yyvsp[-2].compare_value)); bfree((yyvsp[0].string)); }
-#line 1634 "src/parser.c" /* yacc.c:1646  */
+#line 1789 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 33:
-#line 146 "src/parser.y" /* yacc.c:1646  */
+#line 158 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_compare_expr_create(AST_COMPARE_GE, (yyvsp[0].string), (yyvsp[-2].compare_value)); bfree((yyvsp[0].string)); }
-#line 1640 "src/parser.c" /* yacc.c:1646  */
+#line 1795 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 34:
-#line 147 "src/parser.y" /* yacc.c:1646  */
+#line 159 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_compare_expr_create(AST_COMPARE_LT, (yyvsp[0].string), (yyvsp[-2].compare_value)); bfree((yyvsp[0].string)); }
-#line 1646 "src/parser.c" /* yacc.c:1646  */
+#line 1801 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 35:
-#line 148 "src/parser.y" /* yacc.c:1646  */
+#line 160 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_compare_expr_create(AST_COMPARE_LE, (yyvsp[0].string), (yyvsp[-2].compare_value)); bfree((yyvsp[0].string)); }
-#line 1652 "src/parser.c" /* yacc.c:1646  */
+#line 1807 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 36:
-#line 151 "src/parser.y" /* yacc.c:1646  */
+#line 163 "src/parser.y" /* yacc.c:1646  */
     { (yyval.equality_value).value_type = AST_EQUALITY_VALUE_INTEGER; (yyval.equality_value).integer_value = (yyvsp[0].integer_value); }
-#line 1658 "src/parser.c" /* yacc.c:1646  */
+#line 1813 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 37:
-#line 152 "src/parser.y" /* yacc.c:1646  */
+#line 164 "src/parser.y" /* yacc.c:1646  */
     { (yyval.equality_value).value_type = AST_EQUALITY_VALUE_FLOAT; (yyval.equality_value).float_value = (yyvsp[0].float_value); }
-#line 1664 "src/parser.c" /* yacc.c:1646  */
+#line 1819 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 38:
-#line 153 "src/parser.y" /* yacc.c:1646  */
+#line 165 "src/parser.y" /* yacc.c:1646  */
     { (yyval.equality_value).value_type = AST_EQUALITY_VALUE_STRING; (yyval.equality_value).string_value = (yyvsp[0].string_value); }
-#line 1670 "src/parser.c" /* yacc.c:1646  */
+#line 1825 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 39:
-#line 156 "src/parser.y" /* yacc.c:1646  */
+#line 168 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_equality_expr_create(AST_EQUALITY_EQ, (yyvsp[-2].string), (yyvsp[0].equality_value)); bfree((yyvsp[-2].string)); }
-#line 1676 "src/parser.c" /* yacc.c:1646  */
+#line 1831 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 40:
-#line 157 "src/parser.y" /* yacc.c:1646  */
+#line 169 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_equality_expr_create(AST_EQUALITY_NE, (yyvsp[-2].string), (yyvsp[0].equality_value)); bfree((yyvsp[-2].string)); }
-#line 1682 "src/parser.c" /* yacc.c:1646  */
+#line 1837 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 41:
-#line 158 "src/parser.y" /* yacc.c:1646  */
+#line 170 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_equality_expr_create(AST_EQUALITY_EQ, (yyvsp[0].string), (yyvsp[-2].equality_value)); bfree((yyvsp[0].string)); }
-#line 1688 "src/parser.c" /* yacc.c:1646  */
+#line 1843 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 42:
-#line 159 "src/parser.y" /* yacc.c:1646  */
+#line 171 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_equality_expr_create(AST_EQUALITY_NE, (yyvsp[0].string), (yyvsp[-2].equality_value)); bfree((yyvsp[0].string)); }
-#line 1694 "src/parser.c" /* yacc.c:1646  */
+#line 1849 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 43:
-#line 162 "src/parser.y" /* yacc.c:1646  */
+#line 174 "src/parser.y" /* yacc.c:1646  */
     { (yyval.variable_value) = make_attr_var((yyvsp[0].string), NULL); bfree((yyvsp[0].string)); }
-#line 1700 "src/parser.c" /* yacc.c:1646  */
+#line 1855 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 44:
-#line 164 "src/parser.y" /* yacc.c:1646  */
+#line 176 "src/parser.y" /* yacc.c:1646  */
     { (yyval.set_left_value).value_type = AST_SET_LEFT_VALUE_INTEGER; (yyval.set_left_value).integer_value = (yyvsp[0].integer_value); }
-#line 1706 "src/parser.c" /* yacc.c:1646  */
+#line 1861 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 45:
-#line 165 "src/parser.y" /* yacc.c:1646  */
+#line 177 "src/parser.y" /* yacc.c:1646  */
     { (yyval.set_left_value).value_type = AST_SET_LEFT_VALUE_STRING; (yyval.set_left_value).string_value = (yyvsp[0].string_value); }
-#line 1712 "src/parser.c" /* yacc.c:1646  */
+#line 1867 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 46:
-#line 166 "src/parser.y" /* yacc.c:1646  */
+#line 178 "src/parser.y" /* yacc.c:1646  */
     { (yyval.set_left_value).value_type = AST_SET_LEFT_VALUE_VARIABLE; (yyval.set_left_value).variable_value = (yyvsp[0].variable_value); }
-#line 1718 "src/parser.c" /* yacc.c:1646  */
+#line 1873 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 47:
-#line 169 "src/parser.y" /* yacc.c:1646  */
+#line 181 "src/parser.y" /* yacc.c:1646  */
     { (yyval.set_right_value).value_type = AST_SET_RIGHT_VALUE_INTEGER_LIST; (yyval.set_right_value).integer_list_value = (yyvsp[0].integer_list_value); }
-#line 1724 "src/parser.c" /* yacc.c:1646  */
+#line 1879 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 48:
-#line 170 "src/parser.y" /* yacc.c:1646  */
+#line 182 "src/parser.y" /* yacc.c:1646  */
     { (yyval.set_right_value).value_type = AST_SET_RIGHT_VALUE_STRING_LIST; (yyval.set_right_value).string_list_value = (yyvsp[0].string_list_value); }
-#line 1730 "src/parser.c" /* yacc.c:1646  */
+#line 1885 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 49:
-#line 171 "src/parser.y" /* yacc.c:1646  */
+#line 183 "src/parser.y" /* yacc.c:1646  */
     { (yyval.set_right_value).value_type = AST_SET_RIGHT_VALUE_VARIABLE; (yyval.set_right_value).variable_value = (yyvsp[0].variable_value); }
-#line 1736 "src/parser.c" /* yacc.c:1646  */
+#line 1891 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 50:
-#line 174 "src/parser.y" /* yacc.c:1646  */
+#line 186 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_set_expr_create(AST_SET_NOT_IN, (yyvsp[-2].set_left_value), (yyvsp[0].set_right_value)); }
-#line 1742 "src/parser.c" /* yacc.c:1646  */
+#line 1897 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 51:
-#line 175 "src/parser.y" /* yacc.c:1646  */
+#line 187 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_set_expr_create(AST_SET_IN, (yyvsp[-2].set_left_value), (yyvsp[0].set_right_value)); }
-#line 1748 "src/parser.c" /* yacc.c:1646  */
+#line 1903 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 52:
-#line 178 "src/parser.y" /* yacc.c:1646  */
+#line 190 "src/parser.y" /* yacc.c:1646  */
     { (yyval.list_value).value_type = AST_LIST_VALUE_INTEGER_LIST; (yyval.list_value).integer_list_value = (yyvsp[0].integer_list_value); }
-#line 1754 "src/parser.c" /* yacc.c:1646  */
+#line 1909 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 53:
-#line 179 "src/parser.y" /* yacc.c:1646  */
+#line 191 "src/parser.y" /* yacc.c:1646  */
     { (yyval.list_value).value_type = AST_LIST_VALUE_STRING_LIST; (yyval.list_value).string_list_value = (yyvsp[0].string_list_value); }
-#line 1760 "src/parser.c" /* yacc.c:1646  */
+#line 1915 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 54:
-#line 182 "src/parser.y" /* yacc.c:1646  */
+#line 194 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_list_expr_create(AST_LIST_ONE_OF, (yyvsp[-2].string), (yyvsp[0].list_value)); bfree((yyvsp[-2].string));}
-#line 1766 "src/parser.c" /* yacc.c:1646  */
+#line 1921 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 55:
-#line 183 "src/parser.y" /* yacc.c:1646  */
+#line 195 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_list_expr_create(AST_LIST_NONE_OF, (yyvsp[-2].string), (yyvsp[0].list_value)); bfree((yyvsp[-2].string));}
-#line 1772 "src/parser.c" /* yacc.c:1646  */
+#line 1927 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 56:
-#line 184 "src/parser.y" /* yacc.c:1646  */
+#line 196 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_list_expr_create(AST_LIST_ALL_OF, (yyvsp[-2].string), (yyvsp[0].list_value)); bfree((yyvsp[-2].string));}
-#line 1778 "src/parser.c" /* yacc.c:1646  */
+#line 1933 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 57:
-#line 187 "src/parser.y" /* yacc.c:1646  */
+#line 199 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_bool_expr_binary_create(AST_BOOL_AND, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1784 "src/parser.c" /* yacc.c:1646  */
+#line 1939 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 58:
-#line 188 "src/parser.y" /* yacc.c:1646  */
+#line 200 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_bool_expr_binary_create(AST_BOOL_OR, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1790 "src/parser.c" /* yacc.c:1646  */
+#line 1945 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 59:
-#line 189 "src/parser.y" /* yacc.c:1646  */
+#line 201 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_bool_expr_unary_create((yyvsp[0].node)); }
-#line 1796 "src/parser.c" /* yacc.c:1646  */
+#line 1951 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 60:
-#line 190 "src/parser.y" /* yacc.c:1646  */
+#line 202 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_bool_expr_variable_create((yyvsp[0].string)); bfree((yyvsp[0].string)); }
-#line 1802 "src/parser.c" /* yacc.c:1646  */
+#line 1957 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 61:
-#line 191 "src/parser.y" /* yacc.c:1646  */
+#line 203 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_bool_expr_literal_create(true); }
-#line 1808 "src/parser.c" /* yacc.c:1646  */
+#line 1963 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 62:
-#line 192 "src/parser.y" /* yacc.c:1646  */
+#line 204 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_bool_expr_literal_create(false); }
-#line 1814 "src/parser.c" /* yacc.c:1646  */
+#line 1969 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 63:
-#line 195 "src/parser.y" /* yacc.c:1646  */
+#line 207 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = (yyvsp[0].node); }
-#line 1820 "src/parser.c" /* yacc.c:1646  */
+#line 1975 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 64:
-#line 196 "src/parser.y" /* yacc.c:1646  */
+#line 208 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = (yyvsp[0].node); }
-#line 1826 "src/parser.c" /* yacc.c:1646  */
+#line 1981 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 65:
-#line 197 "src/parser.y" /* yacc.c:1646  */
+#line 209 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = (yyvsp[0].node); }
-#line 1832 "src/parser.c" /* yacc.c:1646  */
+#line 1987 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 66:
-#line 198 "src/parser.y" /* yacc.c:1646  */
+#line 210 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = (yyvsp[0].node); }
-#line 1838 "src/parser.c" /* yacc.c:1646  */
+#line 1993 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 67:
-#line 202 "src/parser.y" /* yacc.c:1646  */
+#line 214 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_special_frequency_create(AST_SPECIAL_WITHINFREQUENCYCAP, (yyvsp[-7].string), (yyvsp[-5].string_value), (yyvsp[-3].integer_value), (yyvsp[-1].integer_value)); bfree((yyvsp[-7].string)); }
-#line 1844 "src/parser.c" /* yacc.c:1646  */
+#line 1999 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 68:
-#line 206 "src/parser.y" /* yacc.c:1646  */
+#line 218 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_special_segment_create(AST_SPECIAL_SEGMENTWITHIN, NULL, (yyvsp[-3].integer_value), (yyvsp[-1].integer_value)); }
-#line 1850 "src/parser.c" /* yacc.c:1646  */
+#line 2005 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 69:
-#line 208 "src/parser.y" /* yacc.c:1646  */
+#line 220 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_special_segment_create(AST_SPECIAL_SEGMENTWITHIN, (yyvsp[-5].string), (yyvsp[-3].integer_value), (yyvsp[-1].integer_value)); bfree((yyvsp[-5].string)); }
-#line 1856 "src/parser.c" /* yacc.c:1646  */
+#line 2011 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 70:
-#line 210 "src/parser.y" /* yacc.c:1646  */
+#line 222 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_special_segment_create(AST_SPECIAL_SEGMENTBEFORE, NULL, (yyvsp[-3].integer_value), (yyvsp[-1].integer_value)); }
-#line 1862 "src/parser.c" /* yacc.c:1646  */
+#line 2017 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 71:
-#line 212 "src/parser.y" /* yacc.c:1646  */
+#line 224 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_special_segment_create(AST_SPECIAL_SEGMENTBEFORE, (yyvsp[-5].string), (yyvsp[-3].integer_value), (yyvsp[-1].integer_value)); bfree((yyvsp[-5].string)); }
-#line 1868 "src/parser.c" /* yacc.c:1646  */
+#line 2023 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 72:
-#line 216 "src/parser.y" /* yacc.c:1646  */
+#line 228 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_special_geo_create(AST_SPECIAL_GEOWITHINRADIUS, (double)(yyvsp[-5].integer_value), (double)(yyvsp[-3].integer_value), true, (double)(yyvsp[-1].integer_value)); }
-#line 1874 "src/parser.c" /* yacc.c:1646  */
+#line 2029 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 73:
-#line 218 "src/parser.y" /* yacc.c:1646  */
+#line 230 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_special_geo_create(AST_SPECIAL_GEOWITHINRADIUS, (yyvsp[-5].float_value), (yyvsp[-3].float_value), true, (yyvsp[-1].float_value)); }
-#line 1880 "src/parser.c" /* yacc.c:1646  */
+#line 2035 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 74:
-#line 222 "src/parser.y" /* yacc.c:1646  */
+#line 234 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_special_string_create(AST_SPECIAL_CONTAINS, (yyvsp[-3].string), (yyvsp[-1].string_value).string); bfree((yyvsp[-3].string)); bfree((char*)(yyvsp[-1].string_value).string); }
-#line 1886 "src/parser.c" /* yacc.c:1646  */
+#line 2041 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 75:
-#line 224 "src/parser.y" /* yacc.c:1646  */
+#line 236 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_special_string_create(AST_SPECIAL_STARTSWITH, (yyvsp[-3].string), (yyvsp[-1].string_value).string); bfree((yyvsp[-3].string)); bfree((char*)(yyvsp[-1].string_value).string); }
-#line 1892 "src/parser.c" /* yacc.c:1646  */
+#line 2047 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 76:
-#line 226 "src/parser.y" /* yacc.c:1646  */
+#line 238 "src/parser.y" /* yacc.c:1646  */
     { (yyval.node) = ast_special_string_create(AST_SPECIAL_ENDSWITH, (yyvsp[-3].string), (yyvsp[-1].string_value).string); bfree((yyvsp[-3].string)); bfree((char*)(yyvsp[-1].string_value).string); }
-#line 1898 "src/parser.c" /* yacc.c:1646  */
+#line 2053 "src/parser.c" /* yacc.c:1646  */
     break;
 
 
-#line 1902 "src/parser.c" /* yacc.c:1646  */
+#line 2057 "src/parser.c" /* yacc.c:1646  */
       default: break;
     }
   /* User semantic actions sometimes alter yychar, and that requires
@@ -2126,7 +2281,7 @@ yyreturn:
 #endif
   return yyresult;
 }
-#line 229 "src/parser.y" /* yacc.c:1906  */
+#line 241 "src/parser.y" /* yacc.c:1906  */
 
 
 #if defined(__GNUC__)
@@ -2140,6 +2295,7 @@ int parse(const char *text, struct ast_node **node)
     // xxdebug = 1;
     
     // Parse using Bison.
+    *node = NULL;
     yyscan_t scanner;
     xxlex_init(&scanner);
     YY_BUFFER_STATE buffer = xx_scan_string(text, scanner);
@@ -2151,6 +2307,9 @@ int parse(const char *text, struct ast_node **node)
         return 0;
     }
     else {
+        // Complete, but followed by something else
+        free_ast_node(*node);
+        *node = NULL;
         return -1;
     }
 }
diff --git a/src/parser.y b/src/parser.y
index fc6cbc6..cd3dd76 100644
--- a/src/parser.y
+++ b/src/parser.y
@@ -84,6 +84,18 @@
 %type<integer_list_value> integer_list_value integer_list_loop
 %type<string_list_value> string_list_value string_list_loop
 
+// What a failed parse leaves on its stack
+%destructor { bfree($$); } <string>
+%destructor { bfree((char*)$$.string); } <string_value>
+%destructor { if($$.value_type == AST_EQUALITY_VALUE_STRING) bfree((char*)$$.string_value.string); } <equality_value>
+%destructor { free_attr_var($$); } <variable_value>
+%destructor { free_set_left_value($$); } <set_left_value>
+%destructor { free_set_right_value($$); } <set_right_value>
+%destructor { free_list_value($$); } <list_value>
+%destructor { free_integer_list($$); } <integer_list_value>
+%destructor { free_string_list($$); } <string_list_value>
+%destructor { free_ast_node($$); } <node>
+
 %left TCEQ TCNE TCGT TCGE TCLT TCLE
 %left TOR
 %left TAND 
@@ -239,6 +251,7 @@ int parse(const char *text, struct ast_node **node)
     // xxdebug = 1;
     
     // Parse using Bison.
+    *node = NULL;
     yyscan_t scanner;
     xxlex_init(&scanner);
     YY_BUFFER_STATE buffer = xx_scan_string(text, scanner);
@@ -250,6 +263,9 @@ int parse(const char *text, struct ast_node **node)
         return 0;
     }
     else {
+        // Complete, but followed by something else
+        free_ast_node(*node);
+        *node = NULL;
         return -1;
     }
 }
-- 
2.43.0


From eb862d3bb01a66ef2b8d5c5e7a6d2a0169b2ed8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 21/28] fix: the distance of nearly opposite points is not a
 number

---
 src/special.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/special.c b/src/special.c
index 5192ae6..6f8b261 100644
--- a/src/special.c
+++ b/src/special.c
@@ -82,7 +82,9 @@ bool geo_within_radius(double lat1, double lon1, double lat2, double lon2, doubl
     dx = cos(lon1) * cos(lat1) - cos(lat2);
     dy = sin(lon1) * cos(lat1);
 
-    return (asin(sqrt(dx * dx + dy * dy + dz * dz) / 2) * 2 * EARTH_RADIUS) <= distance;
+    // Half the chord, which rounding can push past 1 for opposite points
+    double half = fmin(sqrt(dx * dx + dy * dy + dz * dz) / 2, 1.);
+    return (asin(half) * 2 * EARTH_RADIUS) <= distance;
 }
 
 bool contains(const char* value, const char* pattern)
-- 
2.43.0


From f5f98af2e8c713e82893d08a0c6dbb7e5dbfee74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 22/28] fix: a float range without a value in its middle was
 split forever

The two ends 1.9999999999999998 and 3 are more than 1 apart, but adding 1 to
the first gives the second: the left half was the range itself again.
---
 src/tree.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index 5b8e770..0c7fd8e 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -931,17 +931,18 @@ static struct value_bounds split_value_bound(struct value_bound bound)
             double start = bound.fmin, end = bound.fmax;
             lbound.fmin = start;
             rbound.fmax = end;
-            if(fabs(end - start) > 2) {
-                double middle = start + ceil((end - start) / 2);
+            double middle = start + (fabs(end - start) > 2 ? ceil((end - start) / 2) : 1);
+            // Without a value in between, only the two ends can be told apart
+            bool has_middle = middle > start && middle < end;
+            if(fabs(end - start) > 2 && has_middle) {
                 lbound.fmax = middle;
                 rbound.fmin = middle;
             }
-            else if(feq(fabs(end - start), 1)) {
+            else if(feq(fabs(end - start), 1) || (fabs(end - start) > 1 && !has_middle)) {
                 lbound.fmax = start;
                 rbound.fmin = end;
             }
             else if(fabs(end - start) > 1) {
-                double middle = start + 1;
                 lbound.fmax = middle;
                 rbound.fmin = middle;
             }
-- 
2.43.0


From 7658f94c95aa040593cea3835ac3531f7a26a089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:49 +0000
Subject: [PATCH 23/28] fix: null tests and signed segment ids were printed as
 text that does not parse back

---
 src/printer.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/printer.c b/src/printer.c
index 7b3ae02..14fe1ee 100644
--- a/src/printer.c
+++ b/src/printer.c
@@ -188,15 +188,30 @@ static const char* list_op_to_string(enum ast_list_e op)
     }
 }
 
+static const char* is_null_op_to_string(enum ast_is_null_e op)
+{
+    switch(op) {
+        case AST_IS_NULL:
+            return "is null";
+        case AST_IS_NOT_NULL:
+            return "is not null";
+        case AST_IS_EMPTY:
+            return "is empty";
+        default: abort();
+    }
+}
+
 char* ast_to_string(const struct ast_node* node)
 {
     char* expr;
     switch(node->type) {
-        case AST_TYPE_IS_NULL_EXPR:
-            if(basprintf(&expr, "?%s", node->is_null_expr.attr_var.attr) < 0) {
+        case AST_TYPE_IS_NULL_EXPR: {
+            const char* op = is_null_op_to_string(node->is_null_expr.type);
+            if(basprintf(&expr, "%s %s", node->is_null_expr.attr_var.attr, op) < 0) {
                 abort();
             }
             return expr;
+        }
         case(AST_TYPE_SPECIAL_EXPR): {
             switch(node->special_expr.type) {
                 case AST_SPECIAL_FREQUENCY:
@@ -222,10 +237,10 @@ char* ast_to_string(const struct ast_node* node)
                         default: abort();
                     }
                     if(basprintf(&expr,
-                           "%s(%s, %lu, %ld)",
+                           "%s(%s, %ld, %ld)",
                            op,
                            node->special_expr.segment.attr_var.attr,
-                           node->special_expr.segment.segment_id,
+                           (int64_t)node->special_expr.segment.segment_id,
                            node->special_expr.segment.seconds)
                         < 0) {
                         abort();
-- 
2.43.0


From e2df3aaadb039cb3c67f608fa02e6aa322846583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:49 +0000
Subject: [PATCH 24/28] fix: copies of special expressions lost their attribute
 positions and cap id

---
 src/clone.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/clone.c b/src/clone.c
index 6213ebf..756f4a9 100644
--- a/src/clone.c
+++ b/src/clone.c
@@ -222,6 +222,8 @@ static struct ast_node* clone_special(betree_pred_t global_id, betree_pred_t mem
             clone->special_expr.frequency.op = orig.frequency.op;
             clone->special_expr.frequency.type = orig.frequency.type;
             clone->special_expr.frequency.value = orig.frequency.value;
+            clone->special_expr.frequency.now = clone_attr_var(orig.frequency.now);
+            clone->special_expr.frequency.id = orig.frequency.id;
             break;
         case AST_SPECIAL_SEGMENT:
             clone->special_expr.segment.attr_var = clone_attr_var(orig.segment.attr_var);
@@ -229,6 +231,7 @@ static struct ast_node* clone_special(betree_pred_t global_id, betree_pred_t mem
             clone->special_expr.segment.op = orig.segment.op;
             clone->special_expr.segment.seconds = orig.segment.seconds;
             clone->special_expr.segment.segment_id = orig.segment.segment_id;
+            clone->special_expr.segment.now = clone_attr_var(orig.segment.now);
             break;
         case AST_SPECIAL_GEO:
             clone->special_expr.geo.has_radius = orig.geo.has_radius;
@@ -236,6 +239,8 @@ static struct ast_node* clone_special(betree_pred_t global_id, betree_pred_t mem
             clone->special_expr.geo.longitude = orig.geo.longitude;
             clone->special_expr.geo.op = orig.geo.op;
             clone->special_expr.geo.radius = orig.geo.radius;
+            clone->special_expr.geo.latitude_var = clone_attr_var(orig.geo.latitude_var);
+            clone->special_expr.geo.longitude_var = clone_attr_var(orig.geo.longitude_var);
             break;
         case AST_SPECIAL_STRING:
             clone->special_expr.string.attr_var = clone_attr_var(orig.string.attr_var);
-- 
2.43.0


From c6ccc4bd1dd286ffcf21b404b759a3233167546e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:49 +0000
Subject: [PATCH 25/28] fix: equality ignored the kind of a null test and the
 id of a frequency cap

---
 src/ast.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 1a0dd73..3e5d2b6 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2413,7 +2413,8 @@ static bool eq_special_expr(struct ast_special_expr a, struct ast_special_expr b
                 && a.frequency.length == b.frequency.length
                 && a.frequency.ns.var == b.frequency.ns.var
                 && a.frequency.ns.str == b.frequency.ns.str && a.frequency.op == b.frequency.op
-                && a.frequency.type == b.frequency.type && a.frequency.value == b.frequency.value;
+                && a.frequency.type == b.frequency.type && a.frequency.value == b.frequency.value
+                && a.frequency.id == b.frequency.id;
         case AST_SPECIAL_SEGMENT:
             return a.segment.attr_var.var == b.segment.attr_var.var
                 && a.segment.has_variable == b.segment.has_variable && a.segment.op == b.segment.op
@@ -2440,7 +2441,8 @@ bool eq_expr(const struct ast_node* a, const struct ast_node* b)
     }
     switch(a->type) {
         case AST_TYPE_IS_NULL_EXPR:
-            return a->is_null_expr.attr_var.var == b->is_null_expr.attr_var.var;
+            return a->is_null_expr.attr_var.var == b->is_null_expr.attr_var.var
+                && a->is_null_expr.type == b->is_null_expr.type;
         case AST_TYPE_COMPARE_EXPR: {
             return a->compare_expr.attr_var.var == b->compare_expr.attr_var.var
                 && a->compare_expr.op == b->compare_expr.op
-- 
2.43.0


From b343bcc18c175830f605bfe05fac9f9db77f4027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:40 +0000
Subject: [PATCH 26/28] fix: the limit of a frequency cap was cut to 32 bits

---
 src/special.c | 2 +-
 src/special.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/special.c b/src/special.c
index 6f8b261..93963e8 100644
--- a/src/special.c
+++ b/src/special.c
@@ -12,7 +12,7 @@ bool within_frequency_caps(const struct betree_frequency_caps* caps,
     enum frequency_type_e type,
     uint32_t id,
     const struct string_value namespace,
-    uint32_t value,
+    int64_t value,
     size_t length,
     int64_t now)
 {
diff --git a/src/special.h b/src/special.h
index 688aa9c..fe228c0 100644
--- a/src/special.h
+++ b/src/special.h
@@ -10,7 +10,7 @@ bool within_frequency_caps(const struct betree_frequency_caps* caps,
     enum frequency_type_e type,
     uint32_t id,
     const struct string_value namespace,
-    uint32_t value,
+    int64_t value,
     size_t length,
     int64_t now);
 bool segment_within(
-- 
2.43.0


From 2ca703f8e0576f215c09074073475978994ff30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:43 +0000
Subject: [PATCH 27/28] fix: the age in a segment condition was cut to 32 bits

---
 src/special.c | 4 ++--
 src/special.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/special.c b/src/special.c
index 93963e8..0909283 100644
--- a/src/special.c
+++ b/src/special.c
@@ -40,7 +40,7 @@ bool within_frequency_caps(const struct betree_frequency_caps* caps,
 }
 
 bool segment_within(
-    int64_t segment_id, int32_t after_seconds, const struct betree_segments* segments, int64_t now)
+    int64_t segment_id, int64_t after_seconds, const struct betree_segments* segments, int64_t now)
 {
     for(size_t i = 0; i < segments->size; i++) {
         if(segments->content[i]->id < segment_id) {
@@ -55,7 +55,7 @@ bool segment_within(
 }
 
 bool segment_before(
-    int64_t segment_id, int32_t before_seconds, const struct betree_segments* segments, int64_t now)
+    int64_t segment_id, int64_t before_seconds, const struct betree_segments* segments, int64_t now)
 {
     for(size_t i = 0; i < segments->size; i++) {
         if(segments->content[i]->id < segment_id) {
diff --git a/src/special.h b/src/special.h
index fe228c0..869c28f 100644
--- a/src/special.h
+++ b/src/special.h
@@ -14,9 +14,9 @@ bool within_frequency_caps(const struct betree_frequency_caps* caps,
     size_t length,
     int64_t now);
 bool segment_within(
-    int64_t segment_id, int32_t after_seconds, const struct betree_segments* segments, int64_t now);
+    int64_t segment_id, int64_t after_seconds, const struct betree_segments* segments, int64_t now);
 bool segment_before(
-    int64_t segment_id, int32_t before_seconds, const struct betree_segments* segments, int64_t now);
+    int64_t segment_id, int64_t before_seconds, const struct betree_segments* segments, int64_t now);
 bool geo_within_radius(double lat1, double lon1, double lat2, double lon2, double distance);
 bool contains(const char* value, const char* pattern);
 bool starts_with(const char* value, const char* pattern);
-- 
2.43.0


From be438916eb067705b4fc5fcf2a8beb326e43495f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:01 +0000
Subject: [PATCH 28/28] fix: different unknown strings of an event's list were
 taken for duplicates

---
 src/value.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/value.c b/src/value.c
index a5bdd80..37583a5 100644
--- a/src/value.c
+++ b/src/value.c
@@ -425,6 +425,12 @@ void sort_and_remove_duplicate_integer_list(struct betree_integer_list* list)
     remove_duplicates_integer_list(list);
 }
 
+static bool is_same_string(const struct string_value* a, const struct string_value* b)
+{
+    // Strings that are not known yet all share the same id
+    return a->str == b->str && (a->str != INVALID_STR || strcmp(a->string, b->string) == 0);
+}
+
 void remove_duplicates_string_list(struct betree_string_list* list)
 {
     if (list->count == 0) {
@@ -432,7 +438,7 @@ void remove_duplicates_string_list(struct betree_string_list* list)
     }
     size_t r = 0;
     for (size_t i = 1; i < list->count; i++) {
-        if (list->strings[r].str != list->strings[i].str) {
+        if (!is_same_string(&list->strings[r], &list->strings[i])) {
             list->strings[++ r] = list->strings[i]; // copy-in next unique number
         }
         else {
-- 
2.43.0

