From 7c05f68f319b51c04083e01d62db14b43cdd4ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 01/77] fix: bound the loop frames of for-in loops

More than 16 nested (or recursive) for-in loops or comprehensions wrote past
the end of the loop frame array. Allow as many as call frames, and report a
stack overflow beyond that.
---
 interpreter/VM.c | 4 ++++
 interpreter/VM.h | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 56000f7..89552b0 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1518,6 +1518,10 @@ void vm_executenext(struct VM *const vm) {
 		break;
 	}
 	case O_INITFOR:
+		if (vm->loopframe_num + 1 >= NUM_FRAMES) {
+			vm_print_err(vm, "StackOverflow.");
+			vm_throw_err(vm, YASL_STACK_OVERFLOW_ERROR);
+		}
 		inc_ref(&vm_peek(vm));
 		vm->loopframe_num++;
 		vm->loopframes[vm->loopframe_num].iter = 0;
diff --git a/interpreter/VM.h b/interpreter/VM.h
index cb34e44..70d5b79 100644
--- a/interpreter/VM.h
+++ b/interpreter/VM.h
@@ -99,7 +99,7 @@ struct VM {
 	struct YASL_Object *stack;     // stack
 	struct CallFrame frames[NUM_FRAMES];
 	int frame_num;
-	struct LoopFrame loopframes[16];
+	struct LoopFrame loopframes[NUM_FRAMES];
 	int loopframe_num;
 	struct YASL_Object *constants;
 	int64_t num_constants;
-- 
2.43.0


From e305cbf0cd491f8f7a354d00638cacb1f00eb833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 02/77] fix: keep tables consistent after removals

Removing a key that isn't in the table decremented its length, deleted items
were never reused so that lookups could loop forever, table.clear left a
size that isn't prime (the probe sequence doesn't reach all items then), and
items with an undef value were treated as free by insertions, but not by
lookups.
---
 data-structures/YASL_Table.c | 55 +++++++++++++++++-------------------
 data-structures/YASL_Table.h | 10 ++++++-
 interpreter/VM.c             |  2 +-
 interpreter/table_methods.c  |  3 +-
 std/yasl-std-collections.c   |  5 +++-
 5 files changed, 42 insertions(+), 33 deletions(-)

diff --git a/data-structures/YASL_Table.c b/data-structures/YASL_Table.c
index 40fdcb0..a2ed5ec 100644
--- a/data-structures/YASL_Table.c
+++ b/data-structures/YASL_Table.c
@@ -102,20 +102,23 @@ bool isequal_typed(const struct YASL_Object *const a, const struct YASL_Object *
 	return a->type == b->type && isequal(a, b);
 }
 
+/*
+ * Index of `key` if it's in the table, or else the index it should be inserted at.
+ * Deleted items are reused, and no more than `size` items are probed, so this terminates even if
+ * every item that isn't in use has been deleted.
+ */
 size_t YASL_Table_getindex(struct YASL_Table *const table, const struct YASL_Object key) {
 	size_t index = get_hash(key, table->size, 0);
-	struct YASL_Table_Item curr_item = table->items[index];
-	size_t i = 1;
-	while (curr_item.value.type != Y_UNDEF) {
-		if (curr_item.key.type != Y_END) {
-			if (isequal_typed(&curr_item.key, &key)) {
-				return index;
-			}
+	size_t deleted = table->size;
+	for (size_t i = 1; i <= table->size && !YASL_Table_Item_isempty(table->items + index); i++) {
+		if (table->items[index].key.type == Y_END) {
+			if (deleted == table->size) deleted = index;
+		} else if (isequal_typed(&table->items[index].key, &key)) {
+			return index;
 		}
-		index = get_hash(key, table->size, i++);
-		curr_item = table->items[index];
+		index = get_hash(key, table->size, i);
 	}
-	return index;
+	return deleted == table->size ? index : deleted;
 }
 
 void YASL_Table_insert_fast(struct YASL_Table *const table, const struct YASL_Object key, const struct YASL_Object value) {
@@ -126,7 +129,7 @@ void YASL_Table_insert_fast(struct YASL_Table *const table, const struct YASL_Ob
 	struct YASL_Table_Item item = new_item(key, value);
 	const size_t index = YASL_Table_getindex(table, key);
 	struct YASL_Table_Item curr_item = table->items[index];
-	if (isequal_typed(&curr_item.key, &key)) {
+	if (!YASL_Table_Item_isempty(&curr_item) && isequal_typed(&curr_item.key, &key)) {
 		del_item(&curr_item);
 	} else {
 		table->count++;
@@ -159,14 +162,11 @@ struct YASL_Object YASL_Table_search(const struct YASL_Table *const table, const
 	YASL_ASSERT(table != NULL, "table to search should not be NULL");
 	if (!ishashable(&key)) return YASL_END();
 	size_t index = get_hash(key, table->size, 0);
-	struct YASL_Table_Item item = table->items[index];
-	int i = 1;
-	while (!obj_isundef(&item.key)) {
-		if ((isequal_typed(&item.key, &key))) {
-			return item.value;
+	for (size_t i = 1; i <= table->size && !YASL_Table_Item_isempty(table->items + index); i++) {
+		if ((isequal_typed(&table->items[index].key, &key))) {
+			return table->items[index].value;
 		}
-		index = get_hash(key, table->size, i++);
-		item = table->items[index];
+		index = get_hash(key, table->size, i);
 	}
 	return YASL_END();
 }
@@ -186,17 +186,14 @@ void YASL_Table_rm(struct YASL_Table *const table, const struct YASL_Object key)
 	const size_t load = table->count * 100 / table->size;
 	if (load < 10) table_resize_down(table);
 	size_t index = get_hash(key, table->size, 0);
-	struct YASL_Table_Item item = table->items[index];
-	size_t i = 1;
-	while (!obj_isundef(&item.key)) {
-		if (item.key.type != Y_END) {
-			if ((isequal_typed(&item.key, &key))) {
-				del_item(&item);
-				table->items[index] = TOMBSTONE;
-			}
+	for (size_t i = 1; i <= table->size && !YASL_Table_Item_isempty(table->items + index); i++) {
+		if ((isequal_typed(&table->items[index].key, &key))) {
+			struct YASL_Table_Item item = table->items[index];
+			table->items[index] = TOMBSTONE;
+			table->count--;
+			del_item(&item);
+			return;
 		}
-		index = get_hash(key, table->size, i++);
-		item = table->items[index];
+		index = get_hash(key, table->size, i);
 	}
-	table->count--;
 }
diff --git a/data-structures/YASL_Table.h b/data-structures/YASL_Table.h
index dac5f43..c0057d9 100644
--- a/data-structures/YASL_Table.h
+++ b/data-structures/YASL_Table.h
@@ -8,7 +8,7 @@
 #define TABLE_BASESIZE 30
 
 #define FOR_TABLE(i, item, table) struct YASL_Table_Item *item; for (size_t i = 0; i < (table)->size; i++) \
-                                                  if (item = &(table)->items[i], item->key.type != Y_END && !obj_isundef(&item->value))
+                                                  if (item = &(table)->items[i], item->key.type != Y_END && !YASL_Table_Item_isempty(item))
 
 
 #define NEW_TABLE() ((struct YASL_Table){\
@@ -31,6 +31,11 @@ struct YASL_Table_Item {
 	struct YASL_Object value;
 };
 
+// True if `item` has never been used. Keys or values that are `undef` are allowed, but not both at once.
+static inline bool YASL_Table_Item_isempty(const struct YASL_Table_Item *const item) {
+	return obj_isundef(&item->key) && obj_isundef(&item->value);
+}
+
 struct YASL_Table {
 	size_t size;
 	size_t base_size;
@@ -40,6 +45,9 @@ struct YASL_Table {
 
 extern struct YASL_Table_Item TOMBSTONE;
 
+// True if `a` and `b` have the same type, and are equal.
+bool isequal_typed(const struct YASL_Object *const a, const struct YASL_Object *const b);
+
 void del_item(struct YASL_Table_Item *const item);
 
 struct YASL_Table *YASL_Table_new(void);
diff --git a/interpreter/VM.c b/interpreter/VM.c
index 89552b0..636aa81 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -888,7 +888,7 @@ static void vm_ITER_1(struct VM *const vm) {
 	case Y_TABLE: {
 		struct YASL_Table *table = YASL_GETTABLE(frame->iterable);
 		while (table->size > (size_t) frame->iter &&
-		       (table->items[frame->iter].key.type == Y_END || table->items[frame->iter].key.type == Y_UNDEF)) {
+		       (table->items[frame->iter].key.type == Y_END || YASL_Table_Item_isempty(table->items + frame->iter))) {
 			frame->iter++;
 		}
 		if (table->size <= (size_t) frame->iter) {
diff --git a/interpreter/table_methods.c b/interpreter/table_methods.c
index 41a02b5..2addcbc 100644
--- a/interpreter/table_methods.c
+++ b/interpreter/table_methods.c
@@ -251,7 +251,8 @@ int table_clear(struct YASL_State *S) {
 	}
 
 	ht->count = 0;
-	ht->size = TABLE_BASESIZE;
+	ht->base_size = TABLE_BASESIZE;
+	ht->size = next_prime(ht->base_size);
 	free(ht->items);
 	ht->items = (struct YASL_Table_Item *) calloc((size_t) ht->size, sizeof(struct YASL_Table_Item));
 	dec_ref(&vm_peek((struct VM *) S));
diff --git a/std/yasl-std-collections.c b/std/yasl-std-collections.c
index 20642a3..f717238 100644
--- a/std/yasl-std-collections.c
+++ b/std/yasl-std-collections.c
@@ -82,13 +82,16 @@ static int YASL_collections_table_new(struct YASL_State *S) {
 	while (i > 0) {
 		struct YASL_Object value = vm_pop((struct VM *)S);
 		struct YASL_Object key = vm_pop((struct VM *)S);
+		i -= 2;
+		if (obj_isundef(&value)) {
+			continue;
+		}
 		if (!YASL_Table_insert((struct YASL_Table *) table->data, key, value)) {
 			rcht_del(table);
 			vm_print_err_type(&S->vm, "unable to use mutable object of type %s as key.",
 					  obj_typename(&key));
 			YASL_throw_err(S, YASL_TYPE_ERROR);
 		}
-		i -= 2;
 	}
 	ud_setmt(table, S->vm.builtins_htable[Y_TABLE]);
 	vm_pushtable((struct VM *)S, table);
-- 
2.43.0


From 72962eee1576dbd30f012f8639c70619ff6e1093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 03/77] fix: keep sets consistent after removals

Removing an element that isn't in the set decremented its length, deleted
items were never reused so that lookups could loop forever, clear skipped
elements when the set was resized while it was being cleared, and elements
of different types (1 and 1.0) were distinct or not depending on the probe
sequence.
---
 data-structures/YASL_Set.c | 85 +++++++++++++++++++++-----------------
 data-structures/YASL_Set.h |  1 +
 std/yasl-std-collections.c |  4 +-
 3 files changed, 49 insertions(+), 41 deletions(-)

diff --git a/data-structures/YASL_Set.c b/data-structures/YASL_Set.c
index 34d6b3b..ef91404 100644
--- a/data-structures/YASL_Set.c
+++ b/data-structures/YASL_Set.c
@@ -1,5 +1,6 @@
 #include "YASL_Set.h"
 
+#include "data-structures/YASL_Table.h"
 #include "util/hash_function.h"
 #include "util/prime.h"
 
@@ -58,6 +59,29 @@ static void set_resize_down(struct YASL_Set *set) {
 	set_resize(set, new_size);
 }
 
+/*
+ * Index of `value` if it's in the set, or else the index it should be inserted at.
+ * Deleted items are reused, and no more than `size` items are probed, so this terminates even if
+ * every item that isn't in use has been deleted.
+ */
+static size_t set_getindex(const struct YASL_Set *const set, const struct YASL_Object value) {
+	size_t index = get_hash(value, set->size, 0);
+	size_t deleted = set->size;
+	for (size_t i = 1; i <= set->size && !obj_isundef(set->items + index); i++) {
+		if (set->items[index].type == Y_END) {
+			if (deleted == set->size) deleted = index;
+		} else if (isequal_typed(set->items + index, &value)) {
+			return index;
+		}
+		index = get_hash(value, set->size, i);
+	}
+	return deleted == set->size ? index : deleted;
+}
+
+static bool set_isat(const struct YASL_Set *const set, const size_t index, const struct YASL_Object value) {
+	return !obj_isundef(set->items + index) && isequal_typed(set->items + index, &value);
+}
+
 bool YASL_Set_insert(struct YASL_Set *const set, struct YASL_Object value) {
 	if (!ishashable(&value)) {
 		return false;
@@ -65,38 +89,19 @@ bool YASL_Set_insert(struct YASL_Set *const set, struct YASL_Object value) {
 
 	const size_t load = set->count * 100 / set->size;
 	if (load > 70) set_resize_up(set);
-	size_t index = get_hash(value, set->size, 0);
 	inc_ref(&value);
-	struct YASL_Object curr_item = set->items[index];
-	size_t i = 1;
-	while (!obj_isundef(&curr_item)) {
-		if (curr_item.type != Y_END) {
-			if ((isequal(&curr_item, &value))) {
-				dec_ref(&curr_item);
-				set->items[index] = value;
-				return true;
-			}
-		}
-		index = get_hash(value, set->size, i++);
-		curr_item = set->items[index];
+	const size_t index = set_getindex(set, value);
+	if (set_isat(set, index, value)) {
+		dec_ref(set->items + index);
+	} else {
+		set->count++;
 	}
 	set->items[index] = value;
-	set->count++;
 	return true;
 }
 
 bool YASL_Set_search(const struct YASL_Set *const set, const struct YASL_Object key) {
-	size_t index = get_hash(key, set->size, 0);
-	struct YASL_Object item = set->items[index];
-	size_t i = 1;
-	while (!obj_isundef(&item)) {
-		if ((isequal(&item, &key))) {
-			return true;
-		}
-		index = get_hash(key, set->size, i++);
-		item = set->items[index];
-	}
-	return false;
+	return set_isat(set, set_getindex(set, key), key);
 }
 
 void YASL_Set_rm(struct YASL_Set *const set, struct YASL_Object key) {
@@ -105,20 +110,24 @@ void YASL_Set_rm(struct YASL_Set *const set, struct YASL_Object key) {
 	}
 	const size_t load = set->count * 100 / set->size;
 	if (load < 10) set_resize_down(set);
-	size_t index = get_hash(key, set->size, 0);
-	struct YASL_Object item = set->items[index];
-	size_t i = 1;
-	while (!obj_isundef(&item)) {
-		if (item.type != Y_END) {
-			if ((isequal(&item, &key))) {
-				dec_ref(&item);
-				set->items[index] = YASL_END();
-			}
-		}
-		index = get_hash(key, set->size, i++);
-		item = set->items[index];
+	const size_t index = set_getindex(set, key);
+	if (set_isat(set, index, key)) {
+		struct YASL_Object item = set->items[index];
+		set->items[index] = YASL_END();
+		set->count--;
+		dec_ref(&item);
+	}
+}
+
+void YASL_Set_clear(struct YASL_Set *const set) {
+	FOR_SET(i, item, set) {
+		dec_ref(item);
 	}
-	set->count--;
+	free(set->items);
+	set->base_size = SET_BASESIZE;
+	set->size = next_prime(set->base_size);
+	set->count = 0;
+	set->items = (struct YASL_Object *)calloc((size_t) set->size, sizeof(struct YASL_Object));
 }
 
 struct YASL_Set *YASL_Set_union(const struct YASL_Set *const left, const struct YASL_Set *const right) {
diff --git a/data-structures/YASL_Set.h b/data-structures/YASL_Set.h
index 919b590..f8c9493 100644
--- a/data-structures/YASL_Set.h
+++ b/data-structures/YASL_Set.h
@@ -18,6 +18,7 @@ void YASL_Set_del(void *s);
 bool YASL_Set_insert(struct YASL_Set *const set, struct YASL_Object value) /* YASL_WARN_UNUSED */;
 bool YASL_Set_search(const struct YASL_Set *const set, const struct YASL_Object key);
 void YASL_Set_rm(struct YASL_Set *const set, struct YASL_Object key);
+void YASL_Set_clear(struct YASL_Set *const set);
 
 struct YASL_Set *YASL_Set_union(const struct YASL_Set *const left, const struct YASL_Set *const right);
 struct YASL_Set *YASL_Set_intersection(const struct YASL_Set *const left, const struct YASL_Set *const right);
diff --git a/std/yasl-std-collections.c b/std/yasl-std-collections.c
index f717238..3b4a8d6 100644
--- a/std/yasl-std-collections.c
+++ b/std/yasl-std-collections.c
@@ -298,9 +298,7 @@ static int YASL_collections_set_copy(struct YASL_State *S) {
 static int YASL_collections_set_clear(struct YASL_State *S) {
 	struct YASL_Set *set = YASLX_checknset(S, SET_PRE ".clear", 0);
 
-	FOR_SET(i, item, set) {
-		YASL_Set_rm(set, *item);
-	}
+	YASL_Set_clear(set);
 	return 1;
 }
 
-- 
2.43.0


From 29f1bed010bcf8c39d5bd70e1bdd2f0568913890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 04/77] fix: count a pushed value before releasing the slot it
 goes to

Popped slots of the stack are only released once they are overwritten. When
the value to push was only kept alive by what had been in its new slot, it
was freed right before it was pushed.
---
 interpreter/VM.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 636aa81..e7b6a72 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -193,9 +193,11 @@ void vm_push(struct VM *const vm, const struct YASL_Object val) {
 
 	vm->sp++;
 
-	dec_ref(vm->stack + vm->sp);
+	// `val` might only be kept alive by what used to be in this slot, so it has to be counted first.
+	struct YASL_Object old = vm->stack[vm->sp];
 	vm->stack[vm->sp] = val;
 	inc_ref(vm->stack + vm->sp);
+	dec_ref(&old);
 }
 
 void vm_pushend(struct VM *const vm) {
-- 
2.43.0


From 46e0e60cc2c34b90016144c1c88e19e823550675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 05/77] fix: don't trap when dividing the smallest int by -1

Both // and % raised SIGFPE, when run and when folded by the compiler. The
compiler leaves divisions by -1 to the VM now, where they wrap around.
---
 compiler/middleend.c |  4 ++--
 interpreter/VM.c     | 11 +++++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/compiler/middleend.c b/compiler/middleend.c
index c4073b3..9dc4c65 100644
--- a/compiler/middleend.c
+++ b/compiler/middleend.c
@@ -154,12 +154,12 @@ static void fold_BinOp(struct Node *const node) {
 			make_float(node, (yasl_float)left->value.ival / (yasl_float)right->value.ival);
 			break;
 		case T_DSLASH:
-			if (right->value.ival != 0) {
+			if (right->value.ival != 0 && right->value.ival != -1) {
 				FOLD_BINOP_INT_INT(left, right, /, int);
 			}
 			break;
 		case T_MOD:
-			if (right->value.ival != 0) {
+			if (right->value.ival != 0 && right->value.ival != -1) {
 				FOLD_BINOP_INT_INT(left, right, %, int);
 			}
 			break;
diff --git a/interpreter/VM.c b/interpreter/VM.c
index e7b6a72..a390cc4 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -354,8 +354,15 @@ INT_BINOP(band, &)
 INT_BINOP(bandnot, &~)
 INT_BINOP(shift_left, <<)
 INT_BINOP(shift_right, >>)
-INT_BINOP(modulo, %)
-INT_BINOP(idiv, /)
+
+// Dividing the smallest int by -1 overflows: wrap around like the other operators do, rather than trap.
+yasl_int modulo(yasl_int left, yasl_int right) {
+	return right == -1 ? 0 : left % right;
+}
+
+yasl_int idiv(yasl_int left, yasl_int right) {
+	return right == -1 ? (yasl_int)(0 - (uint64_t)left) : left / right;
+}
 
 typedef yasl_int int_binop(yasl_int, yasl_int);
 typedef yasl_float float_binop(yasl_float, yasl_float);
-- 
2.43.0


From 26dd8337fc34c225d1d03750acc109b8d3ec8408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 06/77] fix: fold ===, !== and ! of floats to what the VM
 computes

An int is never identical to a float, floats are identical if they have the
same representation, and NaN is falsey.
---
 compiler/middleend.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/compiler/middleend.c b/compiler/middleend.c
index 9dc4c65..6c402a4 100644
--- a/compiler/middleend.c
+++ b/compiler/middleend.c
@@ -171,13 +171,17 @@ static void fold_BinOp(struct Node *const node) {
 	} else if (left->nodetype == N_FLOAT && right->nodetype == N_FLOAT) {
 		switch (node->value.type) {
 		case T_DEQ:
-		case T_TEQ:
 			FOLD_BINOP_FLOAT_FLOAT(left, right, ==, bool);
 			break;
+		case T_TEQ:
+			make_bool(node, left->value.ival == right->value.ival);
+			break;
 		case T_BANGEQ:
-		case T_BANGDEQ:
 			FOLD_BINOP_FLOAT_FLOAT(left, right, !=, bool);
 			break;
+		case T_BANGDEQ:
+			make_bool(node, left->value.ival != right->value.ival);
+			break;
 		case T_GT:
 			FOLD_BINOP_FLOAT_FLOAT(left, right, >, bool);
 			break;
@@ -213,13 +217,17 @@ static void fold_BinOp(struct Node *const node) {
 	} else if (left->nodetype == N_FLOAT && right->nodetype == N_INT) {
 		switch (node->value.type) {
 		case T_DEQ:
-		case T_TEQ:
 			FOLD_BINOP_FLOAT_INT(left, right, ==, bool);
 			break;
+		case T_TEQ:
+			make_bool(node, false);
+			break;
 		case T_BANGEQ:
-		case T_BANGDEQ:
 			FOLD_BINOP_FLOAT_INT(left, right, !=, bool);
 			break;
+		case T_BANGDEQ:
+			make_bool(node, true);
+			break;
 		case T_GT:
 			FOLD_BINOP_FLOAT_INT(left, right, >, bool);
 			break;
@@ -255,13 +263,17 @@ static void fold_BinOp(struct Node *const node) {
 	} else if (left->nodetype == N_INT && right->nodetype == N_FLOAT) {
 		switch (node->value.type) {
 		case T_DEQ:
-		case T_TEQ:
 			FOLD_BINOP_INT_FLOAT(left, right, ==, bool);
 			break;
+		case T_TEQ:
+			make_bool(node, false);
+			break;
 		case T_BANGEQ:
-		case T_BANGDEQ:
 			FOLD_BINOP_INT_FLOAT(left, right, !=, bool);
 			break;
+		case T_BANGDEQ:
+			make_bool(node, true);
+			break;
 		case T_GT:
 			FOLD_BINOP_INT_FLOAT(left, right, >, bool);
 			break;
@@ -337,7 +349,7 @@ void fold_UnOp(struct Node *const node) {
 			make_float(node, -expr->value.dval);
 			break;
 		case T_BANG:
-			make_bool(node, 0);  // NOTE: safe because we don't have NaN literals
+			make_bool(node, expr->value.dval != expr->value.dval);  // NaN is falsey, and might come from folding 0.0/0.0
 			break;
 		default:
 			break;
-- 
2.43.0


From ead0ec6be867d151e3b3cad36b936998bc6cc703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 07/77] fix: only expand the results of the call in the
 variadic position

The number of results expected from the last call of a return, an argument list or a declaration was
also used for every call inside of it, so e.g. return f() + 1 added up the wrong values when f returned
more than one.
---
 compiler/compiler.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index 6e099a0..8ea25ca 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -431,33 +431,41 @@ static void visit_FnDecl(struct Compiler *const compiler, const struct Node *con
 }
 
 static void visit_VariadicContext(struct Compiler *const compiler, const struct Node *const node) {
+	const struct Node *const expr = node->children[0];
 	int old_returns = compiler->expected_returns;
-	compiler->expected_returns = node->value.ival;
-	visit(compiler, node->children[0]);
+	// Only the call itself is in this context, not the calls it is built from, e.g., its arguments.
+	compiler->expected_returns = expr->nodetype == N_CALL || expr->nodetype == N_MCALL ? (int)node->value.ival : 1;
+	visit(compiler, expr);
 	compiler->expected_returns = old_returns;
 }
 
 static void visit_Call(struct Compiler *const compiler, const struct Node *const node) {
+	int expected_returns = compiler->expected_returns;
+	compiler->expected_returns = 1;
 	visit(compiler, Call_get_object(node));
 	compiler_add_byte(compiler, O_INIT_CALL);
-	compiler_add_byte(compiler, (unsigned char)compiler->expected_returns);
+	compiler_add_byte(compiler, (unsigned char)expected_returns);
 	visit_Body(compiler, Call_get_params(node));
 	compiler_add_byte(compiler, O_CALL);
+	compiler->expected_returns = expected_returns;
 }
 
 static void visit_MethodCall(struct Compiler *const compiler, const struct Node *const node) {
 	char *str = MethodCall_get_name(node);
 	size_t len = strlen(str);
+	int expected_returns = compiler->expected_returns;
+	compiler->expected_returns = 1;
 	visit(compiler, MethodCall_get_object(node));
 
 	yasl_int index = compiler_intern_string(compiler, str, len);
 
 	compiler_add_byte(compiler, O_INIT_MC);
-	compiler_add_byte(compiler, (unsigned char)compiler->expected_returns);
+	compiler_add_byte(compiler, (unsigned char)expected_returns);
 	compiler_add_int(compiler, index);
 
 	visit_Body(compiler, MethodCall_get_params(node));
 	compiler_add_byte(compiler, O_CALL);
+	compiler->expected_returns = expected_returns;
 }
 
 static void visit_Return(struct Compiler *const compiler, const struct Node *const node) {
-- 
2.43.0


From a4daa23f1f33db548eb6d6bd502fe9b9f503c472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 08/77] fix: keep the stack balanced over break and continue

The locals of the scopes that are jumped out of were left on the stack, so later locals were looked up in
the wrong place. Also, a break or continue in a function no longer jumps into a loop around the function.
---
 compiler/compiler.c | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index 8ea25ca..dca0e83 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -31,6 +31,7 @@ YASL_FORMAT_CHECK static void compiler_print_err(struct Compiler *compiler, cons
 
 #define break_checkpoint(compiler)    ((compiler)->checkpoints.items[(compiler)->checkpoints.count-1])
 #define continue_checkpoint(compiler) ((compiler)->checkpoints.items[(compiler)->checkpoints.count-2])
+#define locals_checkpoint(compiler)   ((compiler)->checkpoints.items[(compiler)->checkpoints.count-3])
 
 
 void compiler_tables_del(struct Compiler *compiler) {
@@ -113,6 +114,13 @@ static void add_checkpoint(struct Compiler *const compiler, const size_t cp) {
 	sizebuffer_push(&compiler->checkpoints, cp);
 }
 
+static struct Scope *get_scope_in_use(const struct Compiler *const compiler);
+
+// Number of locals to keep when jumping back to the loop.
+static void add_locals_checkpoint(struct Compiler *const compiler) {
+	add_checkpoint(compiler, scope_len(get_scope_in_use(compiler)));
+}
+
 static void rm_checkpoint(struct Compiler *const compiler) {
 	sizebuffer_pop(&compiler->checkpoints);
 }
@@ -380,6 +388,10 @@ static void visit_ExprStmt(struct Compiler *const compiler, const struct Node *c
 static void visit_FnDecl(struct Compiler *const compiler, const struct Node *const node) {
 	compiler->params = env_new(compiler->params);
 
+	// We can't jump to the loops around the function from inside of it.
+	struct SizeBuffer old_checkpoints = compiler->checkpoints;
+	compiler->checkpoints = NEW_SIZEBUFFER(4);
+
 	enter_scope(compiler);
 
 	FOR_CHILDREN(i, child, FnDecl_get_params(node)) {
@@ -424,6 +436,9 @@ static void visit_FnDecl(struct Compiler *const compiler, const struct Node *con
 		}
 	}
 
+	free(compiler->checkpoints.items);
+	compiler->checkpoints = old_checkpoints;
+
 	struct Env *tmp = compiler->params->parent;
 	compiler->params->parent = NULL;
 	env_del(compiler->params);
@@ -611,6 +626,7 @@ static void visit_ForIter(struct Compiler *const compiler, const struct Node *co
 	decl_var(compiler, name, iter->line);
 
 	size_t index_start = compiler->buffer->count;
+	add_locals_checkpoint(compiler);
 	add_checkpoint(compiler, index_start);
 
 	compiler_add_byte(compiler, O_ITER_1);
@@ -633,6 +649,7 @@ static void visit_ForIter(struct Compiler *const compiler, const struct Node *co
 
 	rm_checkpoint(compiler);
 	rm_checkpoint(compiler);
+	rm_checkpoint(compiler);
 }
 
 static void enter_jump(struct Compiler *const compiler, size_t *index) {
@@ -692,6 +709,7 @@ static void visit_While(struct Compiler *const compiler, const struct Node *cons
 		exit_jump(compiler, &index);
 	}
 
+	add_locals_checkpoint(compiler);
 	add_checkpoint(compiler, index_start);
 
 	visit(compiler, cond);
@@ -709,6 +727,14 @@ static void visit_While(struct Compiler *const compiler, const struct Node *cons
 
 	rm_checkpoint(compiler);
 	rm_checkpoint(compiler);
+	rm_checkpoint(compiler);
+}
+
+// The scopes we jump out of are still on the stack.
+static void pop_locals_of_loop(struct Compiler *const compiler) {
+	for (size_t i = scope_len(get_scope_in_use(compiler)); i > locals_checkpoint(compiler); i--) {
+		compiler_add_byte(compiler, O_POP);
+	}
 }
 
 static void visit_Break(struct Compiler *const compiler, const struct Node *const node) {
@@ -717,6 +743,7 @@ static void visit_Break(struct Compiler *const compiler, const struct Node *cons
 		handle_error(compiler);
 		return;
 	}
+	pop_locals_of_loop(compiler);
 	compiler_add_byte(compiler, O_BCONST_F);
 	branch_back(compiler, break_checkpoint(compiler));
 }
@@ -727,6 +754,7 @@ static void visit_Continue(struct Compiler *const compiler, const struct Node *c
 		handle_error(compiler);
 		return;
 	}
+	pop_locals_of_loop(compiler);
 	branch_back(compiler, continue_checkpoint(compiler));
 }
 
-- 
2.43.0


From a6f36d91f1a368492ba3650276b283ae8b82307a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:29 +0000
Subject: [PATCH 09/77] fix: close upvalues when the variables they refer to go
 away

The list of open upvalues was not kept sorted, upvalues were freed while still on it, returns that come
before the closure in the code left them open, and so did leaving a block.
---
 compiler/compiler.c   | 22 +++++++++++++++++++
 compiler/env.c        | 11 ++++++++++
 compiler/env.h        |  2 ++
 interpreter/VM.c      | 51 +++++++++++++++++++++----------------------
 interpreter/closure.c |  7 +-----
 interpreter/upvalue.c |  8 +++++++
 interpreter/upvalue.h |  1 +
 opcode.h              |  1 +
 8 files changed, 71 insertions(+), 32 deletions(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index dca0e83..56adeac 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -77,10 +77,21 @@ static void enter_scope(struct Compiler *const compiler) {
 	*lval = scope_new(*lval);
 }
 
+// The outermost scope of a function gets closed over when we return from it.
+static bool has_vars_to_close(const struct Compiler *const compiler, const struct Scope *const scope) {
+	return scope->captured && !(in_function(compiler) && scope->parent == NULL);
+}
+
+static inline void close_from(struct Compiler *const compiler, const size_t index) {
+	compiler_add_byte(compiler, O_CLOSE);
+	compiler_add_byte(compiler, (unsigned char) index);
+}
+
 static void exit_scope(struct Compiler *const compiler) {
 	struct Scope **lval = in_function(compiler) ? &compiler->params->scope : &compiler->stack;
 	struct Scope *tmp = *lval;
 	 *lval = tmp->parent;
+	if (has_vars_to_close(compiler, tmp)) close_from(compiler, scope_len(tmp->parent));
 	size_t num_locals = tmp->vars.count;
 	scope_del_current_only(tmp);
 	while (num_locals-- > 0) {
@@ -595,6 +606,8 @@ static void visit_Comp(struct Compiler *const compiler, const struct Node *const
 	exit_conditional_false(compiler, &index_second);
 
 	compiler_add_byte(compiler, byte);
+	const struct Scope *scope = get_scope_in_use(compiler);
+	if (has_vars_to_close(compiler, scope)) close_from(compiler, scope_len(scope->parent));
 	compiler_add_byte(compiler, O_ENDCOMP);
 
 	size_t curr = compiler->buffer->count;
@@ -732,6 +745,15 @@ static void visit_While(struct Compiler *const compiler, const struct Node *cons
 
 // The scopes we jump out of are still on the stack.
 static void pop_locals_of_loop(struct Compiler *const compiler) {
+	for (const struct Scope *scope = get_scope_in_use(compiler);
+	     scope && scope_len(scope) > locals_checkpoint(compiler);
+	     scope = scope->parent) {
+		if (has_vars_to_close(compiler, scope)) {
+			close_from(compiler, locals_checkpoint(compiler));
+			break;
+		}
+	}
+
 	for (size_t i = scope_len(get_scope_in_use(compiler)); i > locals_checkpoint(compiler); i--) {
 		compiler_add_byte(compiler, O_POP);
 	}
diff --git a/compiler/env.c b/compiler/env.c
index b648ba0..58c0e69 100644
--- a/compiler/env.c
+++ b/compiler/env.c
@@ -44,6 +44,7 @@ struct Scope *scope_new(struct Scope *const parent) {
 	struct Scope *scope = (struct Scope *)malloc(sizeof(struct Scope));
 	scope->parent = parent;
 	scope->vars = NEW_TABLE();
+	scope->captured = false;
 	return scope;
 }
 
@@ -129,6 +130,7 @@ static int64_t env_add_upval(struct Env *env, struct Scope *stack, const char *c
 	if (!env->parent && scope_contains(stack, name)) {
 		yasl_int value = get_index(scope_get(stack, name));
 		(void)value;
+		scope_mark_captured(stack, name);
 		YASL_Table_insert(&env->upval_values, key, YASL_INT(value));
 		int64_t index = env->upval_indices.count;
 		YASL_Table_insert(&env->upval_indices, key, YASL_INT(index));
@@ -143,6 +145,7 @@ static int64_t env_add_upval(struct Env *env, struct Scope *stack, const char *c
 
 	if (env_contains_cur_only(env->parent, name)) {
 		env->parent->usedinclosure = true;
+		scope_mark_captured(env->parent->scope, name);
 		yasl_int value = get_index(scope_get(env->parent->scope, name));
 		YASL_Table_insert(&env->upval_values, key, YASL_INT(value));
 		int64_t index = env->upval_indices.count;
@@ -217,6 +220,14 @@ static struct YASL_Table *get_closest_scope_with_var(struct Scope *const scope,
 	return key.type != Y_END ? &scope->vars : get_closest_scope_with_var(scope->parent, name, name_len);
 }
 
+void scope_mark_captured(struct Scope *const scope, const char *const name) {
+	if (scope_contains_cur_only(scope, name)) {
+		scope->captured = true;
+	} else {
+		scope_mark_captured(scope->parent, name);
+	}
+}
+
 void scope_make_const(struct Scope *const scope, const char *const name) {
 	const size_t name_len = strlen(name);
 	struct YASL_Table *ht = get_closest_scope_with_var(scope, name, name_len);
diff --git a/compiler/env.h b/compiler/env.h
index 11fffb0..06d69ac 100644
--- a/compiler/env.h
+++ b/compiler/env.h
@@ -6,6 +6,7 @@
 struct Scope {
     struct Scope *parent;
     struct YASL_Table vars;
+    bool captured;  // is any of the variables used in a closure?
 };
 
 struct Env {
@@ -27,6 +28,7 @@ bool scope_contains(const struct Scope *const scope, const char *const name);
 int64_t scope_get(const struct Scope *const scope, const char *const name);
 int64_t scope_decl_var(struct Scope *const scope, const char *const name);
 bool scope_used_in_closure(const struct Scope *const scope);
+void scope_mark_captured(struct Scope *const scope, const char *const name);
 void scope_make_const(struct Scope *const scope, const char *const name);
 
 bool env_contains(const struct Env *env, const char *const name);
diff --git a/interpreter/VM.c b/interpreter/VM.c
index a390cc4..eb03840 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -579,30 +579,21 @@ void vm_stringify_top(struct VM *const vm) {
 }
 
 static struct Upvalue *add_upvalue(struct VM *const vm, struct YASL_Object *const location) {
-	if (vm->pending == NULL) {
-		return (vm->pending = upval_new(location));
+	// The open upvalues are sorted by location, with the one closest to the top of the stack first.
+	struct Upvalue **curr = &vm->pending;
+	while (*curr && (*curr)->location > location) {
+		curr = &(*curr)->next;
 	}
 
-	struct Upvalue *prev = NULL;
-	struct Upvalue *curr = vm->pending;
-	while (curr) {
-		if (curr->location > location) {
-			prev = curr;
-			curr = curr->next;
-			continue;
-		}
-		if (curr->location == location) {
-			return curr;
-		}
-		if (curr->location < location) {
-			struct Upvalue *upval = upval_new(location);
-			upval->next = curr->next;
-			curr->next = upval;
-			return upval;
-		}
-		return (curr->next = upval_new(location));
+	if (*curr && (*curr)->location == location) {
+		return *curr;
 	}
-	return (prev->next = upval_new(location));
+
+	struct Upvalue *upval = upval_new(location);
+	upval->rc.refs++;  // an open upvalue is kept alive by the list of open upvalues
+	upval->next = *curr;
+	*curr = upval;
+	return upval;
 }
 
 static void vm_CCONST(struct VM *const vm) {
@@ -1300,13 +1291,19 @@ static void vm_RET(struct VM *const vm) {
 static struct Upvalue *vm_close_all_helper(struct YASL_Object *const end, struct Upvalue *const curr) {
 	if (curr == NULL) return NULL;
 	if (curr->location < end) return curr;
+	struct Upvalue *const next = curr->next;
 	inc_ref(curr->location);
 	upval_close(curr);
-	return (vm_close_all_helper(end, curr->next));
+	upval_dec_ref(curr);
+	return (vm_close_all_helper(end, next));
+}
+
+static void vm_close_from(struct VM *const vm, const int index) {
+	vm->pending = vm_close_all_helper(vm->stack + index, vm->pending);
 }
 
 void vm_close_all(struct VM *const vm) {
-	vm->pending = vm_close_all_helper(vm->stack + vm->fp, vm->pending);
+	vm_close_from(vm, vm->fp);
 }
 
 static void vm_ECHO(struct VM *const vm) {
@@ -1620,11 +1617,13 @@ void vm_executenext(struct VM *const vm) {
 	case O_CALL:
 		vm_CALL(vm);
 		break;
-	case O_CRET:
-		vm_close_all(vm);
-		vm_RET(vm);
+	case O_CLOSE:
+		vm_close_from(vm, vm->fp + 1 + NCODE(vm));
 		break;
+	case O_CRET:
 	case O_RET:
+		// A return can come before the closure in the code, but after it when run (in a loop).
+		vm_close_all(vm);
 		vm_RET(vm);
 		break;
 	case O_GET:
diff --git a/interpreter/closure.c b/interpreter/closure.c
index 39d7d5b..bd4028a 100644
--- a/interpreter/closure.c
+++ b/interpreter/closure.c
@@ -2,12 +2,7 @@
 
 void closure_del_data(struct Closure *closure) {
 	for (size_t i = 0; i < closure->num_upvalues; i++) {
-		struct Upvalue *upval = closure->upvalues[i];
-		upval->rc.refs--;
-		if (upval->rc.refs == 0) {
-			dec_ref(upval->location);
-			free(upval);
-		}
+		upval_dec_ref(closure->upvalues[i]);
 	}
 }
 
diff --git a/interpreter/upvalue.c b/interpreter/upvalue.c
index 828dc1c..6b607eb 100644
--- a/interpreter/upvalue.c
+++ b/interpreter/upvalue.c
@@ -17,6 +17,14 @@ void upval_set(struct Upvalue *const upval, const struct YASL_Object v) {
 	*upval->location = v;
 }
 
+void upval_dec_ref(struct Upvalue *const upval) {
+	upval->rc.refs--;
+	if (upval->rc.refs == 0) {
+		dec_ref(upval->location);
+		free(upval);
+	}
+}
+
 void upval_close(struct Upvalue *const upval) {
 	upval->closed = upval_get(upval);
 	upval->location = &upval->closed;
diff --git a/interpreter/upvalue.h b/interpreter/upvalue.h
index c99d9b0..e18569f 100644
--- a/interpreter/upvalue.h
+++ b/interpreter/upvalue.h
@@ -14,6 +14,7 @@ struct Upvalue {
 struct Upvalue *upval_new(struct YASL_Object *const location);
 struct YASL_Object upval_get(const struct Upvalue *const upval);
 void upval_set(struct Upvalue *const upval, const struct YASL_Object v);
+void upval_dec_ref(struct Upvalue *const upval);
 void upval_close(struct Upvalue *const upval);
 
 #endif
diff --git a/opcode.h b/opcode.h
index 5666cbd..4dfb8ee 100644
--- a/opcode.h
+++ b/opcode.h
@@ -78,6 +78,7 @@ enum Opcode {
 	O_CALL = 0xE9, // function call
 	O_RET = 0xEC,  // return from function
 	O_CRET = 0xED, // return from closure.
+	O_CLOSE = 0xEE, // close over the locals starting from index, indexing from fp.
 
 	O_GSTORE_8 = 0xF0, // from string
 	O_GLOAD_8 = 0xF1, // from string
-- 
2.43.0


From 4c8bf64e76047d62d3a90b0c974dfac1259b2e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 10/77] fix: address all 255 locals

The index of a local was read back as a signed byte. Closures really are limited to 128 upvalues and to
capturing the first 128 locals, so report going over that instead of miscompiling it.
---
 compiler/compiler.c | 6 ++++++
 interpreter/VM.c    | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index 56adeac..f77ddf6 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -443,6 +443,12 @@ static void visit_FnDecl(struct Compiler *const compiler, const struct Node *con
 		FOR_TABLE(i, item, &compiler->params->upval_indices) {
 			int64_t index = item->value.value.ival;
 			int64_t value = YASL_Table_search(&compiler->params->upval_values, item->key).value.ival;
+			// both kinds of upvalues have to fit into a single byte.
+			if (count > 128 || value > 127 || value < -128) {
+				compiler_print_err_syntax(compiler, "Too many variables to close over (line %" PRI_SIZET ").\n", node->line);
+				handle_error(compiler);
+				break;
+			}
 			compiler->buffer->bytes[start + index] = value;
 		}
 	}
diff --git a/interpreter/VM.c b/interpreter/VM.c
index eb03840..6c91c12 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1369,7 +1369,7 @@ void vm_setupconstants(struct VM *const vm) {
 
 void vm_executenext(struct VM *const vm) {
 	unsigned char opcode = NCODE(vm);        // fetch
-	signed char offset;
+	unsigned char offset;
 	struct YASL_Object a, b;
 	yasl_int c;
 	YASL_VM_DEBUG_LOG("----------------"
-- 
2.43.0


From 0ee8077da2b70e17ec7f62f901240338992ba2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 11/77] fix: slice strs whose range is empty, and substrings
 that aren't copies

---
 interpreter/VM.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 6c91c12..147052b 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -706,7 +706,11 @@ static void vm_SLICE_str(struct VM *const vm){
 
 	struct YASL_String *str = vm_popstr(vm);
 
-	vm_push(vm, YASL_STR(YASL_String_new_substring((size_t)start, (size_t)end, str)));
+	if (end < start) {  // nothing is between them
+		start = end = 0;
+	}
+
+	vm_push(vm, YASL_STR(YASL_String_new_substring(str->start + (size_t)start, str->start + (size_t)end, str)));
 }
 
 static void vm_SLICE(struct VM *const vm) {
@@ -905,7 +909,7 @@ static void vm_ITER_1(struct VM *const vm) {
 			vm_pushbool(vm, false);
 		} else {
 			size_t i = (size_t) frame->iter;
-			vm_pushstr(vm, YASL_String_new_substring(i, i + 1, str));
+			vm_pushstr(vm, YASL_String_new_substring(str->start + i, str->start + i + 1, str));
 			frame->iter++;
 			vm_pushbool(vm, true);
 		}
-- 
2.43.0


From d30725d1901e0e6151618a3660bda3f590a914ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 12/77] fix: end str.count and the trims for empty and
 all-trimmed strs

---
 data-structures/YASL_String.c |  4 ++--
 interpreter/str_methods.c     | 21 +++++++++++++++++++++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/data-structures/YASL_String.c b/data-structures/YASL_String.c
index e7f7f73..0dc6707 100644
--- a/data-structures/YASL_String.c
+++ b/data-structures/YASL_String.c
@@ -514,7 +514,7 @@ struct YASL_String *YASL_String_trim_default(struct YASL_String *haystack) {
 	}
 
 	int64_t end = haystack_len;
-	while (end >= 1 && iswhitespace(haystack_chars[end - 1])) {
+	while (end > start && iswhitespace(haystack_chars[end - 1])) {
 		end--;
 	}
 
@@ -533,7 +533,7 @@ struct YASL_String *YASL_String_trim(struct YASL_String *haystack, struct YASL_S
 	}
 
 	size_t end = haystack_len;
-	while (end >= needle_len &&
+	while (end - start >= needle_len &&
 	       !memcmp(haystack_chars + end - needle_len, needle_chars, needle_len)) {
 		end -= needle_len;
 	}
diff --git a/interpreter/str_methods.c b/interpreter/str_methods.c
index f5fc41f..5f10f88 100644
--- a/interpreter/str_methods.c
+++ b/interpreter/str_methods.c
@@ -175,6 +175,12 @@ int str_search(struct YASL_State *S) {
 int str_count(struct YASL_State *S) {
 	struct YASL_String *needle = YASLX_checknstr(S, "str.count", 1);
 	struct YASL_String *haystack = YASLX_checknstr(S, "str.count", 0);
+
+	if (YASL_String_len(needle) == 0) {
+		vm_print_err((struct VM *)S, "ValueError: %s expected a nonempty str as arg 1.", "str.count");
+		YASL_throw_err(S, YASL_VALUE_ERROR);
+	}
+
 	YASL_pushint(S, YASL_String_count(haystack, needle));
 	return 1;
 }
@@ -226,6 +232,11 @@ int str_ltrim(struct YASL_State *S) {
 	struct YASL_String *needle = YASLX_checknstr(S, "str.ltrim", 1);
 	struct YASL_String *haystack = YASLX_checknstr(S, "str.ltrim", 0);
 
+	if (YASL_String_len(needle) == 0) {
+		vm_print_err((struct VM *)S, "ValueError: %s expected a nonempty str as arg 1.", "str.ltrim");
+		YASL_throw_err(S, YASL_VALUE_ERROR);
+	}
+
 	vm_push((struct VM *) S,
 		YASL_STR(YASL_String_ltrim(haystack, needle)));
 	return 1;
@@ -246,6 +257,11 @@ int str_rtrim(struct YASL_State *S) {
 	struct YASL_String *needle = YASLX_checknstr(S, "str.rtrim", 1);
 	struct YASL_String *haystack = YASLX_checknstr(S, "str.rtrim", 0);
 
+	if (YASL_String_len(needle) == 0) {
+		vm_print_err((struct VM *)S, "ValueError: %s expected a nonempty str as arg 1.", "str.rtrim");
+		YASL_throw_err(S, YASL_VALUE_ERROR);
+	}
+
 	vm_push((struct VM *) S, YASL_STR(YASL_String_rtrim(haystack, needle)));
 	return 1;
 }
@@ -264,6 +280,11 @@ int str_trim(struct YASL_State *S) {
 	struct YASL_String *needle = YASLX_checknstr(S, "str.trim", 1);
 	struct YASL_String *haystack = YASLX_checknstr(S, "str.trim", 0);
 
+	if (YASL_String_len(needle) == 0) {
+		vm_print_err((struct VM *)S, "ValueError: %s expected a nonempty str as arg 1.", "str.trim");
+		YASL_throw_err(S, YASL_VALUE_ERROR);
+	}
+
 	vm_push((struct VM *) S, YASL_STR(YASL_String_trim(haystack, needle)));
 	return 1;
 }
-- 
2.43.0


From a6d684a5f4853929dfd52b5a4f43525aeeff94bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 13/77] fix: count replacements, not positions, against the
 limit of str.replace

---
 data-structures/YASL_String.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data-structures/YASL_String.c b/data-structures/YASL_String.c
index 0dc6707..d30692f 100644
--- a/data-structures/YASL_String.c
+++ b/data-structures/YASL_String.c
@@ -387,10 +387,10 @@ struct YASL_String *YASL_String_replace_fast(struct YASL_String *str, struct YAS
 		if (search_len <= str_len - i && memcmp(str_ptr + i, search_str_ptr, search_len) == 0 && max > 0) {
 			YASL_ByteBuffer_extend(buff, replace_str_ptr, YASL_String_len(replace_str));
 			i += search_len;
+			max--;
 		} else {
 			YASL_ByteBuffer_add_byte(buff, str_ptr[i++]);
 		}
-		max--;
 	}
 
 	STR_REPLACE_END
-- 
2.43.0


From 791cfa495d176857f08cdbc646e58070cfcaa70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 14/77] fix: don't read the first char of an empty str in
 str.tofloat

---
 data-structures/YASL_String.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data-structures/YASL_String.c b/data-structures/YASL_String.c
index d30692f..c6e2e64 100644
--- a/data-structures/YASL_String.c
+++ b/data-structures/YASL_String.c
@@ -186,7 +186,7 @@ yasl_float YASL_String_tofloat(struct YASL_String *str) {
 	const size_t length = YASL_String_len(str);
 	const char *chars = YASL_String_chars(str);
 	char *buffer = (char *)malloc(length + 1);
-	if (!isdigit((int)chars[0])) {
+	if (length == 0 || !isdigit((int)chars[0])) {
 		free(buffer);
 		return NAN;
 	}
-- 
2.43.0


From 32a8705285db102b5c2e48a6eeb2993074133466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 15/77] fix: give every type an entry in the table of builtin
 metatables

Looking up a method or field of a fn read memory that was never allocated.
---
 interpreter/VM.c | 2 +-
 interpreter/VM.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 147052b..f1e2ef6 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -23,7 +23,7 @@
 #include "closure.h"
 
 static struct RC_UserData **builtins_htable_new(struct VM *const vm) {
-	struct RC_UserData **ht = (struct RC_UserData **) malloc(sizeof(struct RC_UserData *) * NUM_TYPES);
+	struct RC_UserData **ht = (struct RC_UserData **) calloc(NUM_TYPES, sizeof(struct RC_UserData *));
 	ht[Y_UNDEF] = ud_new(undef_builtins(vm), TABLE_NAME, NULL, rcht_del_data);
 	ht[Y_UNDEF]->rc.refs++;
 	ht[Y_FLOAT] = ud_new(float_builtins(vm), TABLE_NAME, NULL, rcht_del_data);
diff --git a/interpreter/VM.h b/interpreter/VM.h
index 70d5b79..01bf6ae 100644
--- a/interpreter/VM.h
+++ b/interpreter/VM.h
@@ -16,7 +16,7 @@
 
 
 #define NUM_FRAMES 1000
-#define NUM_TYPES 13                                     // number of builtin types, each needs a vtable
+#define NUM_TYPES 16                                     // number of builtin types, each needs a vtable
 #define SCRATCH_SIZE 1024								// scratchspace size (needs tuning)
 
 #define vm_peek_offset(vm, offset) ((vm)->stack[offset])
-- 
2.43.0


From 0834e30f8f0ada7055df607e8471e81040ff68c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 16/77] fix: skip the value pattern of a missing key in table
 patterns

The alternative that follows was matched from the middle of the skipped pattern.
---
 interpreter/VM.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index f1e2ef6..f0510a7 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -982,7 +982,11 @@ static bool vm_MATCH_table_elements(struct VM *const vm, size_t len, struct YASL
 		default:
 			break;
 		}
-		if (val.type == Y_END || !(vm_MATCH_subpattern(vm, &val))) {
+		if (val.type == Y_END) {
+			vm_ff_subpatterns_multiple(vm, 2 * (len - (i + 1)) + 1);
+			return false;
+		}
+		if (!vm_MATCH_subpattern(vm, &val)) {
 			vm_ff_subpatterns_multiple(vm, 2 * (len - (i + 1)));
 			return false;
 		}
-- 
2.43.0


From 8905d61d9393bd8cda8ab0e5665ff51244194e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 17/77] fix: give tables made by table.copy their methods

---
 interpreter/table_methods.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interpreter/table_methods.c b/interpreter/table_methods.c
index 2addcbc..8221b72 100644
--- a/interpreter/table_methods.c
+++ b/interpreter/table_methods.c
@@ -230,6 +230,7 @@ int table_remove(struct YASL_State *S) {
 int table_copy(struct YASL_State *S) {
 	struct YASL_Table *ht = YASLX_checkntable(S, "table.copy", 0);
 	struct RC_UserData *new_ht = rcht_new_sized(ht->base_size);
+	ud_setmt(new_ht, S->vm.builtins_htable[Y_TABLE]);
 
 	FOR_TABLE(i, item, ht) {
 		YASL_Table_insert_fast((struct YASL_Table *) new_ht->data, item->key, item->value);
-- 
2.43.0


From 69fdab8b604a5456ba50444455503639a708f61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 18/77] fix: release the list's reference to a popped item

---
 interpreter/list_methods.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/interpreter/list_methods.c b/interpreter/list_methods.c
index 6f1e769..0584f9e 100644
--- a/interpreter/list_methods.c
+++ b/interpreter/list_methods.c
@@ -222,7 +222,9 @@ int list_pop(struct YASL_State *S) {
 		vm_print_err((struct VM *)S, "ValueError: %s expected nonempty list as arg 0.", "list.pop");
 		YASL_throw_err(S, YASL_VALUE_ERROR);
 	}
-	vm_push((struct VM *) S, ls->items[--ls->count]);
+	struct YASL_Object val = ls->items[--ls->count];
+	vm_push((struct VM *) S, val);
+	dec_ref(&val);
 	return 1;
 }
 
-- 
2.43.0


From a49bd613a724ce2b265530ac729277e934044b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:17 +0000
Subject: [PATCH 19/77] fix: end the REPL at the end of its input

---
 main.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/main.c b/main.c
index 0d900ca..52a4d83 100644
--- a/main.c
+++ b/main.c
@@ -144,6 +144,11 @@ static int main_REPL(int argc, char **argv) {
 	while (true) {
 		printf("yasl> ");
 		while ((next = getchar()) != '\n') {
+			if (next == EOF) {
+				YASL_delstate(S);
+				YASL_ByteBuffer_del(buffer);
+				return YASL_SUCCESS;
+			}
 			YASL_ByteBuffer_add_byte(buffer, next);
 		}
 		YASL_ByteBuffer_add_byte(buffer, '\n');
-- 
2.43.0


From 7fb549d363a6db7d8a971fb2d6a108ee8390ffa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 20/77] fix: free the constants of what was run before on the
 same state

---
 interpreter/VM.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index f0510a7..7477f7e 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1337,6 +1337,12 @@ static void vm_ECHO(struct VM *const vm) {
 }
 
 void vm_setupconstants(struct VM *const vm) {
+	// Something might have been run on this VM before.
+	for (int64_t i = 0; i < vm->num_constants; i++) {
+		dec_ref(vm->constants + i);
+	}
+	free(vm->constants);
+
 	vm->num_constants = ((int64_t *)vm->code)[2];
 	vm->constants = (struct YASL_Object *)malloc(sizeof(struct YASL_Object) * vm->num_constants);
 	unsigned char *tmp = vm->code + 3*sizeof(int64_t);
-- 
2.43.0


From aacac2163bca0545e839e5d235e07b1f94c6f5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 21/77] fix: read a global that never got its value as undef

It was declared by something that failed (to compile, or to run) before
giving it a value, and reading it pushed an end marker.
---
 interpreter/VM.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 7477f7e..371ba4d 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1134,9 +1134,10 @@ static void vm_GSTORE_8(struct VM *const vm) {
 static void vm_GLOAD_8(struct VM *const vm) {
 	yasl_int addr = vm_read_int(vm);
 
-	vm_push(vm, YASL_Table_search(vm->globals, vm->constants[addr]));
+	struct YASL_Object global = YASL_Table_search(vm->globals, vm->constants[addr]);
 
-	YASL_ASSERT(vm_peek(vm).type != Y_END, "global not found");
+	// The global might have been declared by something that failed before giving it a value.
+	vm_push(vm, global.type == Y_END ? YASL_UNDEF() : global);
 }
 
 static void vm_enterframe_offset(struct VM *const vm, int offset, int num_returns) {
-- 
2.43.0


From 7823ae39117ab6378b862abbc3ddf0959e89724a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 22/77] fix: leave the scope of a script that doesn't parse

The next script run on the same state looked for its variables in the wrong place.
---
 compiler/compiler.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index f77ddf6..6fe43db 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -337,11 +337,13 @@ unsigned char *compile(struct Compiler *const compiler) {
 		node = parse(&compiler->parser);
 		if (compiler->parser.status) {
 			compiler->status |= compiler->parser.status;
+			exit_scope(compiler);
 			return NULL;
 		}
 		eattok(&compiler->parser, T_SEMI);
 		if (compiler->parser.status) {
 			compiler->status |= compiler->parser.status;
+			exit_scope(compiler);
 			return NULL;
 		}
 		visit(compiler, node);
-- 
2.43.0


From 26c78da3872084198ccce77f12730bb69cd34fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 23/77] fix: keep the code of earlier runs while its functions
 are around

Resetting a state freed the code that functions in globals still point
into, and looking up the line of an error searched the wrong code.
---
 interpreter/VM.c | 19 +++++++++++++++----
 yasl.c           | 40 ++++++++++++++++++++++++----------------
 2 files changed, 39 insertions(+), 20 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 371ba4d..4c869d0 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -60,6 +60,7 @@ void vm_init(struct VM *const vm,
 	vm->globals = YASL_Table_new();
 	vm->pc = code + pc;
 	vm->fp = -1;
+	vm->next_fp = -1;
 	vm->sp = -1;
 	vm->num_constants = 0;
 	vm->constants = NULL;
@@ -136,11 +137,21 @@ static void vm_exitframe(struct VM *const vm);
 void vm_executenext(struct VM *const vm);
 
 static size_t vm_getcurrline(struct VM *vm) {
-	size_t start = ((int64_t *)vm->code)[0];
-	size_t line_start = ((int64_t *)vm->code)[1];
-	const unsigned char *tmp = vm->code + line_start;
+	// What we're executing can be a function from a module, or from something run before.
+	const unsigned char *code = NULL;
+	for (size_t j = 0; j < vm->headers_size && !code; j++) {
+		const unsigned char *header = vm->headers[j];
+		if (header && header <= vm->pc && vm->pc <= header + ((const int64_t *)header)[1]) {
+			code = header;
+		}
+	}
+	if (!code) return 0;
+
+	size_t start = ((const int64_t *)code)[0];
+	size_t line_start = ((const int64_t *)code)[1];
+	const unsigned char *tmp = code + line_start;
 	long unsigned i = 0;
-	while (vint_decode(tmp) < vm->pc - vm->code - start) {
+	while (vint_decode(tmp) < vm->pc - code - start) {
 		tmp = vint_next(tmp);
 		i++;
 	}
diff --git a/yasl.c b/yasl.c
index a7da9bb..b93ae86 100644
--- a/yasl.c
+++ b/yasl.c
@@ -91,6 +91,8 @@ int YASL_resetstate(struct YASL_State *S, const char *filename) {
 	S->compiler.parser.lex = NEW_LEXER(lexinput_new_file(fp));
 	S->compiler.code->count = 0;
 	S->compiler.buffer->count = 0;
+	S->compiler.lines->count = 0;
+	S->compiler.line = 0;
 
 	return YASL_SUCCESS;
 }
@@ -115,8 +117,8 @@ int YASL_resetstate_bb(struct YASL_State *S, const char *buf, size_t len) {
 	S->compiler.parser.lex = NEW_LEXER(lexinput_new_bb(buf, len));
 	S->compiler.code->count = 0;
 	S->compiler.buffer->count = 0;
-	if (S->vm.code)	free(S->vm.code);
-	S->vm.code = NULL;
+	S->compiler.lines->count = 0;
+	S->compiler.line = 0;
 
 	return YASL_SUCCESS;
 }
@@ -130,17 +132,29 @@ int YASL_delstate(struct YASL_State *S) {
 	return YASL_SUCCESS;
 }
 
-int YASL_execute_REPL(struct YASL_State *S) {
-	unsigned char *bc = compile_REPL(&S->compiler);
-	if (!bc) return S->compiler.status;
+static void load_bytecode(struct YASL_State *S, unsigned char *bc) {
+	struct VM *vm = &S->vm;
 
-	int64_t entry_point = *((int64_t*)bc);
+	// Functions made by what was run before on this state still need their code.
+	if (vm->headers[S->compiler.num]) {
+		vm->headers = (unsigned char **)realloc(vm->headers, (vm->headers_size + 1) * sizeof(unsigned char *));
+		vm->headers[vm->headers_size++] = vm->headers[S->compiler.num];
+	}
+
+	int64_t entry_point = *((int64_t *) bc);
 	// TODO: use this in VM.
 	// int64_t num_globals = *((int64_t*)bc+1);
 
-	S->vm.pc = bc + entry_point;
-	S->vm.code = bc;
-	S->vm.headers[S->compiler.num] = bc;
+	vm->pc = bc + entry_point;
+	vm->code = bc;
+	vm->headers[S->compiler.num] = bc;
+}
+
+int YASL_execute_REPL(struct YASL_State *S) {
+	unsigned char *bc = compile_REPL(&S->compiler);
+	if (!bc) return S->compiler.status;
+
+	load_bytecode(S, bc);
 
 	return vm_run((struct VM *)S);  // TODO: error handling for runtime errors.
 }
@@ -154,13 +168,7 @@ int YASL_execute(struct YASL_State *S) {
 	unsigned char *bc = compile(&S->compiler);
 	if (!bc) return S->compiler.status;
 
-	int64_t entry_point = *((int64_t *) bc);
-	// TODO: use this in VM.
-	// int64_t num_globals = *((int64_t*)bc+1);
-
-	S->vm.pc = bc + entry_point;
-	S->vm.code = bc;
-	S->vm.headers[S->compiler.num] = bc;
+	load_bytecode(S, bc);
 
 	return vm_run((struct VM *) S);  // TODO: error handling for runtime errors.
 }
-- 
2.43.0


From 532979c8670700cbebc5701b349588c44e86c01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 24/77] fix: leave the stacks as they were before a run

After a runtime error, blocks run later on the same state used the wrong
variables.
---
 interpreter/VM.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 4c869d0..9d407a9 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1693,7 +1693,24 @@ void vm_executenext(struct VM *const vm) {
 }
 
 int vm_run(struct VM *const vm) {
+	const int sp = vm->sp;
+	const int fp = vm->fp;
+	const int next_fp = vm->next_fp;
+	const int frame_num = vm->frame_num;
+	const int loopframe_num = vm->loopframe_num;
+
 	if (setjmp(vm->buf)) {
+		// Leave the stacks as we found them. (A module leaves what it exports on top.)
+		if (vm->status != YASL_MODULE_SUCCESS) {
+			vm_close_from(vm, sp + 1);
+			while (vm->loopframe_num > loopframe_num) {
+				dec_ref(&vm->loopframes[vm->loopframe_num--].iterable);
+			}
+			vm->sp = sp;
+			vm->fp = fp;
+			vm->next_fp = next_fp;
+			vm->frame_num = frame_num;
+		}
 		return vm->status;
 	}
 
-- 
2.43.0


From 4061e1ead13e4281513099beb1ccfa321dff5bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:47 +0000
Subject: [PATCH 25/77] fix: write all of a str to a file, not only up to its
 first NUL

---
 std/yasl-std-io.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/std/yasl-std-io.c b/std/yasl-std-io.c
index db37066..0db4fd6 100644
--- a/std/yasl-std-io.c
+++ b/std/yasl-std-io.c
@@ -177,15 +177,11 @@ static int YASL_io_write(struct YASL_State *S) {
 		vm_print_err_bad_arg_type_name((struct VM *)S, FILE_PRE ".write", 1, YASL_STR_NAME, YASL_peektypename(S));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
-	char *str = YASL_peekcstr(S);
-	YASL_pop(S);
-
-	size_t len = strlen(str);
+	struct YASL_String *str = vm_popstr((struct VM *)S);
 
-	size_t write_len = fwrite(str, 1, len, f);
+	size_t write_len = fwrite(YASL_String_chars(str), 1, YASL_String_len(str), f);
 
 	YASL_pushint(S, write_len);
-	free(str);
 	return 1;
 }
 
-- 
2.43.0


From 0739cbf1fb7f3db2e8202a97200273bcb57dbeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:47 +0000
Subject: [PATCH 26/77] fix: don't use a file after it's closed

Closing a file explicitly closed it a second time when it was collected.
---
 std/yasl-std-io.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/std/yasl-std-io.c b/std/yasl-std-io.c
index 0db4fd6..32e56cb 100644
--- a/std/yasl-std-io.c
+++ b/std/yasl-std-io.c
@@ -13,12 +13,20 @@
 
 static const char *const FILE_NAME = "io.file";
 
+static FILE *check_open(struct YASL_State *S, const char *name, FILE *f) {
+	if (!f) {
+		vm_print_err_value((struct VM *)S, "%s was passed a file that has been closed.", name);
+		YASL_throw_err(S, YASL_VALUE_ERROR);
+	}
+	return f;
+}
+
 static FILE *YASLX_checkfile(struct YASL_State *S, const char *name, int pos) {
 	if (!YASL_isuserdata(S, FILE_NAME)) {
 		YASLX_print_err_bad_arg_type(S, name, pos, FILE_NAME, YASL_peektypename(S));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
-	return (FILE *)YASL_popuserdata(S);
+	return check_open(S, name, (FILE *)YASL_popuserdata(S));
 }
 
 static FILE *YASLX_checknfile(struct YASL_State *S, const char *name, unsigned pos) {
@@ -26,11 +34,11 @@ static FILE *YASLX_checknfile(struct YASL_State *S, const char *name, unsigned p
 		YASLX_print_err_bad_arg_type(S, name, pos, FILE_NAME, YASL_peekntypename(S, pos));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
-	return (FILE *)YASL_peeknuserdata(S, pos);
+	return check_open(S, name, (FILE *)YASL_peeknuserdata(S, pos));
 }
 
 static void close_file(void *ptr) {
-	fclose((FILE *)ptr);
+	if (ptr) fclose((FILE *)ptr);
 }
 
 static int YASL_io_open(struct YASL_State *S) {
@@ -234,8 +242,12 @@ static int YASL_io_seek(struct YASL_State *S) {
 }
 
 static int YASL_io_close(struct YASL_State *S) {
+	struct YASL_Object file = vm_peek((struct VM *)S);
 	FILE *f = YASLX_checkfile(S, FILE_PRE ".close", 0);
 
+	// The destructor would close it again.
+	YASL_GETUSERDATA(file)->data = NULL;
+
 	int success = fclose(f);
 	YASL_pushbool(S, success == 0);
 	return 1;
-- 
2.43.0


From b057ae8aa41f34d85277b73fad402a10f88cc7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 27/77] fix: run the function in YASL_functioncall, and count
 what it returns

Only C functions were run to their end, and the result was the number of
parameters less the number of returned values.
---
 interpreter/VM.h | 1 +
 yasl.c           | 9 +++++----
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/interpreter/VM.h b/interpreter/VM.h
index 01bf6ae..de9206e 100644
--- a/interpreter/VM.h
+++ b/interpreter/VM.h
@@ -133,6 +133,7 @@ void vm_EQ(struct VM *const vm);
 
 void vm_INIT_CALL_offset(struct VM *const vm, int offset, int expected_returns);
 void vm_CALL(struct VM *const vm);
+void vm_CALL_now(struct VM *const vm);
 
 struct YASL_Object vm_pop(struct VM *const vm);
 bool vm_popbool(struct VM *const vm);
diff --git a/yasl.c b/yasl.c
index b93ae86..4e0a522 100644
--- a/yasl.c
+++ b/yasl.c
@@ -446,12 +446,13 @@ int YASL_listpush(struct YASL_State *S) {
 
 int YASL_functioncall(struct YASL_State *S, int n) {
 	struct VM *vm = &S->vm;
-	vm_INIT_CALL_offset(vm, vm->sp - n, -1);
+	const int fn = vm->sp - n;
+	vm_INIT_CALL_offset(vm, fn, -1);
 
-	const int old_sp = vm->sp;
-	vm_CALL(vm);
+	vm_CALL_now(vm);
 
-	return old_sp - vm->sp - 1;
+	// The returned values take the place of the function and its parameters.
+	return vm->sp - fn + 1;
 }
 
 bool YASL_isundef(struct YASL_State *S) {
-- 
2.43.0


From e11f88df678c74f309f346f056b18b8d533b590b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 28/77] fix: pop in YASL_popbool, YASL_popfloat and YASL_popint
 whatever the type

yasl.h documents that they remove the top of the stack.
---
 yasl.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yasl.c b/yasl.c
index 4e0a522..0935734 100644
--- a/yasl.c
+++ b/yasl.c
@@ -539,6 +539,7 @@ bool YASL_popbool(struct YASL_State *S) {
 	if (YASL_isbool(S)) {
 		return vm_popbool(&S->vm);
 	}
+	YASL_pop(S);
 	return false;
 }
 
@@ -561,6 +562,7 @@ yasl_float YASL_popfloat(struct YASL_State *S) {
 	if (YASL_isfloat(S)) {
 		return vm_popfloat(&S->vm);
 	}
+	YASL_pop(S);
 	return 0.0;
 }
 
@@ -583,6 +585,7 @@ yasl_int YASL_popint(struct YASL_State *S) {
 	if (YASL_isint(S)) {
 		return vm_popint(&S->vm);
 	}
+	YASL_pop(S);
 	return 0;
 }
 
-- 
2.43.0


From ed3f901d897edc935d20e6bb6e7c658a60bbe35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 29/77] fix: pop the undef that YASL_setmt removes a metatable
 with

---
 yasl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yasl.c b/yasl.c
index 0935734..ed009d8 100644
--- a/yasl.c
+++ b/yasl.c
@@ -233,7 +233,8 @@ int YASL_setmt(struct YASL_State *S) {
 		return YASL_TYPE_ERROR;
 	}
 
-	struct RC_UserData *mt = YASL_istable(S) ? YASL_GETUSERDATA(vm_pop(&S->vm)) : NULL;
+	struct RC_UserData *mt = YASL_istable(S) ? YASL_GETUSERDATA(vm_peek(&S->vm)) : NULL;
+	YASL_pop(S);
 
 	if (!vm_isuserdata(&S->vm) && !vm_istable(&S->vm) && !vm_islist(&S->vm)) {
 		return YASL_TYPE_ERROR;
-- 
2.43.0


From f803f88c3750339eee85d86d3315dff015dd4e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:28 +0000
Subject: [PATCH 30/77] fix: run the overloads of == for the elements of lists
 and tables

Comparing two lists went on before an overload of one of their elements
had been run, and took something else for its result.
---
 interpreter/VM.c            | 9 +++++++++
 interpreter/VM.h            | 1 +
 interpreter/list_methods.c  | 2 +-
 interpreter/table_methods.c | 2 +-
 4 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 9d407a9..5fa0064 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -525,6 +525,15 @@ void vm_EQ(struct VM *const vm) {
 	}
 }
 
+// Like vm_EQ, but also runs the overload, if that's what is needed to compare the values.
+void vm_EQ_now(struct VM *const vm) {
+	const int fp = vm->fp;
+	vm_EQ(vm);
+	while (fp < vm->fp) {
+		vm_executenext(vm);
+	}
+}
+
 static void vm_CNCT(struct VM *const vm) {
 		vm_stringify_top(vm);
 		struct YASL_Object top = vm_peek(vm);
diff --git a/interpreter/VM.h b/interpreter/VM.h
index de9206e..f5e0ffd 100644
--- a/interpreter/VM.h
+++ b/interpreter/VM.h
@@ -130,6 +130,7 @@ YASL_NORETURN void vm_throw_err(struct VM *const vm, int error);
 void vm_get_metatable(struct VM *const vm);
 void vm_stringify_top(struct VM *const vm);
 void vm_EQ(struct VM *const vm);
+void vm_EQ_now(struct VM *const vm);
 
 void vm_INIT_CALL_offset(struct VM *const vm, int offset, int expected_returns);
 void vm_CALL(struct VM *const vm);
diff --git a/interpreter/list_methods.c b/interpreter/list_methods.c
index 0584f9e..ee72eb5 100644
--- a/interpreter/list_methods.c
+++ b/interpreter/list_methods.c
@@ -205,7 +205,7 @@ int list___eq(struct YASL_State *S) {
 	for (size_t i = 0; i < left->count; i++) {
 		vm_push((struct VM *)S, left->items[i]);
 		vm_push((struct VM *)S, right->items[i]);
-		vm_EQ((struct VM *)S);
+		vm_EQ_now((struct VM *)S);
 		if (!YASL_popbool(S)) {
 			YASL_pushbool(S, false);
 			return 1;
diff --git a/interpreter/table_methods.c b/interpreter/table_methods.c
index 8221b72..f824ed6 100644
--- a/interpreter/table_methods.c
+++ b/interpreter/table_methods.c
@@ -84,7 +84,7 @@ int table___eq(struct YASL_State *S) {
 		}
 		vm_push((struct VM *) S, item->value);
 		vm_push((struct VM *) S, search);
-		vm_EQ((struct VM *) S);
+		vm_EQ_now((struct VM *) S);
 		if (!YASL_popbool(S)) {
 			YASL_pushbool(S, false);
 			return 1;
-- 
2.43.0


From 5d976fb88e30823f8d21fa1343d89447aa5dfd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 31/77] fix: compare ints as ints when sorting

---
 interpreter/YASL_Object.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/interpreter/YASL_Object.c b/interpreter/YASL_Object.c
index b0c57a7..3ebff8e 100644
--- a/interpreter/YASL_Object.c
+++ b/interpreter/YASL_Object.c
@@ -58,6 +58,11 @@ int yasl_object_cmp(struct YASL_Object a, struct YASL_Object b) {
 	YASL_ASSERT(obj_isstr(&a) && obj_isstr(&b) || obj_isnum(&a) && obj_isnum(&b), "Both must be either numeric or strings");
 	if (obj_isstr(&a) && obj_isstr(&b)) {
 		return YASL_String_cmp(obj_getstr(&a), obj_getstr(&b));
+	} else if (obj_isint(&a) && obj_isint(&b)) {
+		// Not every int can be represented as a float.
+		if (obj_getint(&a) < obj_getint(&b)) return -1;
+		if (obj_getint(&a) > obj_getint(&b)) return 1;
+		return 0;
 	} else if (obj_isnum(&a) && obj_isnum(&b)) {
 		yasl_float aVal, bVal;
 		if(obj_isint(&a)) {
-- 
2.43.0


From 11bbe276f95e5e89cc804d149f7b020ba754046c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 32/77] fix: count the targets and values of multiple
 assignments

The first target of 'x[0], y = ...' wasn't counted, so too few values
were pushed, and one value too many was accepted and left on the stack
for any declaration.
---
 compiler/parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index f9427a1..dacb7d2 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -196,7 +196,7 @@ struct Node *parse_assign_or_exprstmt(struct Parser *const parser) {
 		struct Node *set = new_Set(parser, Get_get_collection(expr), Get_get_value(expr), NULL, line);
 		body_append(parser, &buffer, set);
 
-		return parse_decl_helper(parser, buffer, 0);
+		return parse_decl_helper(parser, buffer, 1);
 
 	}
 
@@ -433,7 +433,7 @@ static struct Node *parse_var_pack(struct Parser *const parser, int expected) {
 	int j = 0;
 	do {
 		body_append(parser, &rvals, parse_expr(parser));
-	} while (j++ < expected && matcheattok(parser, T_COMMA));
+	} while (++j < expected && matcheattok(parser, T_COMMA));
 
 	struct Node *last = body_last(rvals);
 	if (last && !will_var_expand(last)) {
-- 
2.43.0


From 31d8e14009e790e9860d820b1157a8c514f92d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:31 +0000
Subject: [PATCH 33/77] fix: wait for __get when looking up a method

A __get that is a script function was only started, and the frame it
should have returned to was called instead of what it returns.
---
 interpreter/VM.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 5fa0064..dd4c97a 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -792,7 +792,10 @@ static int lookup(struct VM *vm, struct YASL_Object obj, struct YASL_Table *mt,
 	search = YASL_Table_search_string_int(mt, "__get", strlen("__get"));
 	if (search.type != Y_END) {
 		vm_push(vm, search);
-		vm_call_now_2(vm, obj, index);
+		vm_INIT_CALL(vm, 1);
+		vm_push(vm, obj);
+		vm_push(vm, index);
+		vm_CALL_now(vm);  // what it returns is needed to call the method
 		return YASL_SUCCESS;
 	}
 	return YASL_VALUE_ERROR;
-- 
2.43.0


From fe2672095764040af30e6058e2ad8ddb1282618d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:43 +0000
Subject: [PATCH 34/77] fix: call the __call of the value that is called

A method that isn't a function itself was called with the __call of the
receiver, in the place of the receiver, and a __call that isn't a
function was ignored.
---
 interpreter/VM.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index dd4c97a..0c9648c 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1223,7 +1223,16 @@ static void vm_exitframe(struct VM *const vm) {
 void vm_INIT_CALL_offset(struct VM *const vm, int offset, int expected_returns) {
 	if (!vm_isfn(vm, offset) && !vm_iscfn(vm, offset) && !vm_isclosure(vm, offset)) {
 		const char *name = (vm_peektypename(vm, offset));
+		vm_push(vm, vm_peek(vm, offset));
 		vm_lookup_method_throwing(vm, "__call", "%s is not callable.", name);
+		if (!vm_isfn(vm) && !vm_iscfn(vm) && !vm_isclosure(vm)) {
+			vm_print_err_type(vm, "%s is not callable.", name);
+			vm_throw_err(vm, YASL_TYPE_ERROR);
+		}
+		struct YASL_Object callee = vm_pop(vm);
+		inc_ref(&callee);
+		dec_ref(&vm_peek(vm, offset));
+		vm_peek(vm, offset) = callee;
 	}
 
 	vm_enterframe_offset(vm, offset, expected_returns);
-- 
2.43.0


From c8e7dac8a339350ea86b71bd868567bd736d30b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 35/77] fix: don't leak the operands of a comparison that isn't
 supported

---
 interpreter/VM.c | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 0c9648c..eea8cb7 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -315,13 +315,6 @@ void vm_INIT_CALL_offset(struct VM *const vm, int offset, int expected_returns);
 void vm_CALL(struct VM *const vm);
 void vm_CALL_now(struct VM *const vm);
 
-static void vm_call_now_2(struct VM *vm, struct YASL_Object a, struct YASL_Object b) {
-	vm_INIT_CALL(vm, 1);
-	vm_push(vm, a);
-	vm_push(vm, b);
-	vm_CALL(vm);
-}
-
 #define vm_lookup_method_throwing(vm, method_name, err_str, ...) \
 do {\
 	struct YASL_Object index = YASL_STR(YASL_String_new_sized(strlen(method_name), method_name));\
@@ -347,16 +340,6 @@ do {\
 	vm_CALL(vm);\
 } while (0)
 
-#define vm_call_method_now_2(vm, left, right, method_name, ...) do {\
-	inc_ref(&left);\
-	inc_ref(&right);\
-	vm_push(vm, left);\
-	vm_lookup_method_throwing(vm, method_name, __VA_ARGS__);\
-	vm_call_now_2(vm, left, right);\
-	dec_ref(&left);\
-	dec_ref(&right);\
-} while (0)
-
 #define INT_BINOP(name, op) yasl_int name(yasl_int left, yasl_int right) { return left op right; }
 
 INT_BINOP(bor, |)
@@ -552,21 +535,29 @@ static void vm_CNCT(struct VM *const vm) {
 
 #define DEFINE_COMP(name, opstr, overload_name) \
 static void vm_##name(struct VM *const vm) {\
-	struct YASL_Object right = vm_pop(vm);\
-	struct YASL_Object left = vm_pop(vm);\
+	struct YASL_Object right = vm_peek(vm);\
+	struct YASL_Object left = vm_peek(vm, vm->sp - 1);\
 	bool c;\
 	if (obj_isstr(&left) && obj_isstr(&right)) {\
+		vm_pop(vm);\
+		vm_pop(vm);\
 		vm_pushbool(vm, name(YASL_String_cmp(obj_getstr(&left), obj_getstr(&right)), 0));\
 		return;\
 	}\
 	if (obj_isnum(&left) && obj_isnum(&right)) {\
+		vm_pop(vm);\
+		vm_pop(vm);\
 		COMP(vm, left, right, name);\
 		return;\
 	}\
-	vm_call_method_now_2(vm, left, right, overload_name, "%s not supported for operands of types %s and %s.",\
+	vm_push(vm, left);\
+	vm_lookup_method_throwing(vm, overload_name, "%s not supported for operands of types %s and %s.",\
 		opstr,\
 		obj_typename(&left),\
 		obj_typename(&right));\
+	vm_shifttopdown(vm, 2);\
+	vm_INIT_CALL_offset(vm, vm->sp - 2, 1);\
+	vm_CALL(vm);\
 }
 
 DEFINE_COMP(GT, ">", "__gt")
-- 
2.43.0


From 758cf2da750aec8dd80a96670c5dad744c2d67c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:45 +0000
Subject: [PATCH 36/77] fix: drop the value of a statement that starts with a
 fn expression

---
 compiler/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index dacb7d2..a2875f2 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -255,7 +255,7 @@ static struct Node *parse_program(struct Parser *const parser) {
 		return new_Echo(parser, parse_expr(parser), line);
 	case T_FN:
 		if (isfndecl(parser)) return parse_fn(parser);
-		else return parse_expr(parser);
+		else return parse_assign_or_exprstmt(parser);
 	case T_RET:
 		return parse_return(parser);
 	case T_EXPORT:
-- 
2.43.0


From bbe40c0a6c26db6f3f2b47f68e2c8524ca3955fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 37/77] fix: pop the value of a for loop's post expression once

---
 compiler/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index a2875f2..ec4159c 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -517,7 +517,7 @@ static struct Node *parse_for(struct Parser *const parser) {
 		struct Node *body = parse_body(parser);
 		struct Node *outer_body = new_Body(parser, line);
 		body_append(parser, &outer_body, iter);
-		body_append(parser, &outer_body, new_While(parser, cond, new_Block(parser, body, line), new_ExprStmt(parser, post, line), line));
+		body_append(parser, &outer_body, new_While(parser, cond, new_Block(parser, body, line), post, line));
 		struct Node *block = new_Block(parser, outer_body, line);
 		return block;
 	}
-- 
2.43.0


From bbaffbc550886e3d9d56fb97b52f71da484d17a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:46 +0000
Subject: [PATCH 38/77] fix: keep the end of a str that is split by a longer
 separator

The last piece ended where the search stopped, so up to the separator's
length less one bytes were lost.
---
 data-structures/YASL_String.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data-structures/YASL_String.c b/data-structures/YASL_String.c
index c6e2e64..7d4e0ac 100644
--- a/data-structures/YASL_String.c
+++ b/data-structures/YASL_String.c
@@ -449,7 +449,7 @@ void YASL_String_split_fast(struct YASL_List *data, struct YASL_String *haystack
 		}
 	}
 	struct YASL_Object to = YASL_STR(
-		YASL_String_new_substring(start + haystack->start, end + haystack->start, haystack));
+		YASL_String_new_substring(start + haystack->start, YASL_String_len(haystack) + haystack->start, haystack));
 	YASL_List_append(data, to);
 }
 
-- 
2.43.0


From 34818095a16c74f72dfb61a2425b67ab9f7d550c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:15 +0000
Subject: [PATCH 39/77] fix: newlines in literals are skipped only where there
 is one

After a keyword or name followed by a newline the parser took the newline
that was only looked at for a token, so that e.g. a newline after the for
of a comprehension was a syntax error. A block comment with a newline
counts as one in literals as well.
---
 compiler/lexer.c  |  1 +
 compiler/parser.c | 25 +++++++++++++++----------
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/compiler/lexer.c b/compiler/lexer.c
index 0a2171a..3a67d24 100644
--- a/compiler/lexer.c
+++ b/compiler/lexer.c
@@ -111,6 +111,7 @@ static bool lex_eatcommentsandwhitespace(struct Lexer * lex) {
 					return true;
 				}
 				if (addsemi && ispotentialend(lex)) {
+					lex->c = '\n';
 					lex->type = T_SEMI;
 					return true;
 				}
diff --git a/compiler/parser.c b/compiler/parser.c
index ec4159c..aaf30ba 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -165,6 +165,11 @@ static char *eatname(struct Parser *const parser) {
 	return tmp;
 }
 
+/* Skips newlines that were tokenized as terminators, but not explicit semicolons. */
+static void eatnewlines(struct Parser *const parser) {
+	while (TOKEN_MATCHES(parser, T_SEMI) && parser->lex.c == '\n') eattok(parser, T_SEMI);
+}
+
 bool matcheattok(struct Parser *const parser, const enum Token token) {
 	if (TOKEN_MATCHES(parser, token)) {
 		eattok(parser, token);
@@ -651,7 +656,7 @@ static struct Node *parse_patternsingle(struct Parser *const parser) {
 			body_append(parser, &n, parse_primitivepattern(parser));
 			eattok(parser, T_COLON);
 			body_append(parser, &n, parse_pattern(parser));
-			while (parser->lex.c == '\n') eattok(parser, T_SEMI);
+			eatnewlines(parser);
 			while (matcheattok(parser, T_COMMA)) {
 				YASL_PARSE_DEBUG_LOG("%s\n", "Parsing table pattern");
 				if (matcheattok(parser, T_TDOT)) {
@@ -662,7 +667,7 @@ static struct Node *parse_patternsingle(struct Parser *const parser) {
 				eattok(parser, T_COLON);
 				body_append(parser, &n, parse_pattern(parser));
 			}
-			while (parser->lex.c == '\n') eattok(parser, T_SEMI);
+			eatnewlines(parser);
 		}
 		eattok(parser, T_RBRC);
 		return n;
@@ -675,7 +680,7 @@ static struct Node *parse_patternsingle(struct Parser *const parser) {
 			n->nodetype = N_PATVLS;
 		} else if (curtok(parser) != T_RSQB) {
 			body_append(parser, &n, parse_pattern(parser));
-			while (parser->lex.c == '\n') eattok(parser, T_SEMI);
+			eatnewlines(parser);
 			while (matcheattok(parser, T_COMMA)) {
 				YASL_PARSE_DEBUG_LOG("%s\n", "Parsing list pattern");
 				if (matcheattok(parser, T_TDOT)) {
@@ -684,7 +689,7 @@ static struct Node *parse_patternsingle(struct Parser *const parser) {
 				}
 				body_append(parser, &n, parse_pattern(parser));
 			}
-			while (parser->lex.c == '\n') eattok(parser, T_SEMI);
+			eatnewlines(parser);
 		}
 		eattok(parser, T_RSQB);
 		return n;
@@ -1146,7 +1151,7 @@ static struct Node *parse_table(struct Parser *const parser) {
 	eattok(parser, T_COLON);
 	body_append(parser, &keys, parse_expr(parser));
 
-	while (parser->lex.c == '\n') eattok(parser, T_SEMI);
+	eatnewlines(parser);
 	if (matcheattok(parser, T_FOR)) {
 		struct Node *iter = parse_iterate(parser);
 
@@ -1155,7 +1160,7 @@ static struct Node *parse_table(struct Parser *const parser) {
 			cond = parse_expr(parser);
 		}
 
-		while (parser->lex.c == '\n') eattok(parser, T_SEMI);
+		eatnewlines(parser);
 		eattok(parser, T_RBRC);
 		struct Node *table_comp = new_TableComp(parser, keys, iter, cond, line);
 		return table_comp;
@@ -1165,7 +1170,7 @@ static struct Node *parse_table(struct Parser *const parser) {
 		eattok(parser, T_COLON);
 		body_append(parser, &keys, parse_expr(parser));
 	}
-	while (parser->lex.c == '\n') eattok(parser, T_SEMI);
+	eatnewlines(parser);
 	eattok(parser, T_RBRC);
 	return new_Table(parser, keys, line);
 }
@@ -1185,7 +1190,7 @@ static struct Node *parse_list(struct Parser *const parser) {
 
 	body_append(parser, &keys, parse_expr(parser));
 
-	while (parser->lex.c == '\n') eattok(parser, T_SEMI);
+	eatnewlines(parser);
 
 	// non-empty list
 	if (matcheattok(parser, T_FOR)) {
@@ -1196,7 +1201,7 @@ static struct Node *parse_list(struct Parser *const parser) {
 			cond = parse_expr(parser);
 		}
 
-		while (parser->lex.c == '\n') eattok(parser, T_SEMI);
+		eatnewlines(parser);
 		eattok(parser, T_RSQB);
 		struct Node *table_comp = new_ListComp(parser, keys->children[0], iter, cond, line);
 		return table_comp;
@@ -1205,7 +1210,7 @@ static struct Node *parse_list(struct Parser *const parser) {
 			YASL_PARSE_DEBUG_LOG("%s\n", "Parsing list");
 			body_append(parser, &keys, parse_expr(parser));
 		}
-		while (parser->lex.c == '\n') eattok(parser, T_SEMI);
+		eatnewlines(parser);
 		eattok(parser, T_RSQB);
 		return new_List(parser, keys, line);
 	}
-- 
2.43.0


From 9437ae687a65ed52d09b93c7690d5fd1257aff33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:13 +0000
Subject: [PATCH 40/77] fix: break and continue are allowed in loops that are
 never entered

The body of a loop whose condition is a falsey constant is only validated,
but outside of the loop, so that break in it was a syntax error.
---
 compiler/compiler.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index 6fe43db..ab4c0f9 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -706,7 +706,13 @@ static bool Node_isfalsey(const struct Node *const node) {
 }
 
 static void visit_While_false(struct Compiler *const compiler, const struct Node *const body, const struct Node *const post) {
+	add_locals_checkpoint(compiler);
+	add_checkpoint(compiler, compiler->buffer->count);
+	add_checkpoint(compiler, compiler->buffer->count);
 	validate(compiler, body);
+	rm_checkpoint(compiler);
+	rm_checkpoint(compiler);
+	rm_checkpoint(compiler);
 	if (post) validate(compiler, post);
 }
 
-- 
2.43.0


From 535e27870e6cf97b9f5c01470ff769086e0a639a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:13 +0000
Subject: [PATCH 41/77] fix: report the right line after lookahead and member
 access

Looking ahead for declarations and multiple assignment counted newlines
twice, member access and ?: at the end of a line got the line after it.
---
 compiler/parser.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index aaf30ba..05af3d8 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -213,11 +213,13 @@ struct Node *parse_assign_or_exprstmt(struct Parser *const parser) {
  */
 static bool isfndecl(struct Parser *const parser) {
 	long curr = lxtell(parser->lex.file);
+	const size_t line = parserline(parser);
 	eattok(parser, T_FN);
 	free(parser->lex.value);
 	parser->lex.value = NULL;
 	bool result = TOKEN_MATCHES(parser, T_ID);
 	lxseek(parser->lex.file, curr, SEEK_SET);
+	parser->lex.line = line;
 	parser->lex.type = T_FN;
 	return result;
 }
@@ -227,10 +229,12 @@ static bool isfndecl(struct Parser *const parser) {
  */
 static bool isconstfndecl(struct Parser *const parser) {
 	long curr = lxtell(parser->lex.file);
+	const size_t line = parserline(parser);
 	eattok(parser, T_CONST);
 	free(parser->lex.value);
 	bool result = TOKEN_MATCHES(parser, T_FN);
 	lxseek(parser->lex.file, curr, SEEK_SET);
+	parser->lex.line = line;
 	parser->lex.type = T_CONST;
 	return result;
 }
@@ -240,11 +244,13 @@ static bool isconstfndecl(struct Parser *const parser) {
  */
 static bool ismultiassign(struct Parser *const parser) {
 	long curr = lxtell(parser->lex.file);
+	const size_t line = parserline(parser);
 	char *name = parser->lex.value;
 	parser->lex.value = NULL;
 	eattok(parser, T_ID);
 	bool result = TOKEN_MATCHES(parser, T_COMMA);
 	lxseek(parser->lex.file, curr, SEEK_SET);
+	parser->lex.line = line;
 	free(parser->lex.value);
 	parser->lex.type = T_ID;
 	parser->lex.value = name;
@@ -443,7 +449,7 @@ static struct Node *parse_var_pack(struct Parser *const parser, int expected) {
 	struct Node *last = body_last(rvals);
 	if (last && !will_var_expand(last)) {
 		while (j++ < expected) {
-			body_append(parser, &rvals, new_Undef(parser, parserline(parser)));
+			body_append(parser, &rvals, new_Undef(parser, last->line));
 		}
 	} else {
 		rvals->children[rvals->children_len - 1] = new_VariadicContext(parser, last, expected - j + 1, last ? last->line : 0);
@@ -828,12 +834,13 @@ static struct Node *parse_assign(struct Parser *const parser, struct Node *cur_n
 
 static struct Node *parse_ternary(struct Parser *const parser) {
 	YASL_PARSE_DEBUG_LOG("parsing ?: in line %" PRI_SIZET "\n", parserline(parser));
+	size_t line = parserline(parser);
 	struct Node *cur_node = parse_undef_or(parser);
 	if (matcheattok(parser, T_QMARK)) {
 		struct Node *left = parse_ternary(parser);
 		eattok(parser, T_COLON);
 		struct Node *right = parse_ternary(parser);
-		return new_TriOp(parser, T_QMARK, cur_node, left, right, parserline(parser));
+		return new_TriOp(parser, T_QMARK, cur_node, left, right, line);
 	}
 	return cur_node;
 }
@@ -932,7 +939,7 @@ static struct Node *parse_call(struct Parser *const parser) {
 						   Call_get_params(right)->children[1], parserline(parser));
 			} else if (right->nodetype == N_VAR) {
 				right->nodetype = N_STR;
-				cur_node = new_Get(parser, cur_node, right, parserline(parser));
+				cur_node = new_Get(parser, cur_node, right, right->line);
 			} else {
 				parser_print_err_syntax(parser, "Invalid member access (line %" PRI_SIZET ").\n", parserline(parser));
 				handle_error(parser);
-- 
2.43.0


From 5f8a964bf831122e2d8499db341fdd74fdc0be07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:55 +0000
Subject: [PATCH 42/77] fix: -0.0 and 0.0 are different constants

A literal 0.0 after a (folded) -0.0 was -0.0, and the other way around.
---
 compiler/compiler.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index ab4c0f9..fc746e8 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -810,11 +810,13 @@ yasl_int compiler_intern_string(struct Compiler *const compiler, const char *con
 }
 
 yasl_int compiler_intern_float(struct Compiler *const compiler, const yasl_float val) {
-	struct YASL_Object value = YASL_Table_search(compiler->strings, YASL_FLOAT(val));
+	// -0.0 is equal to 0.0, but not the same constant. Bools aren't interned, so one can stand for it.
+	const struct YASL_Object key = val == 0.0 && signbit(val) ? YASL_BOOL(true) : YASL_FLOAT(val);
+	struct YASL_Object value = YASL_Table_search(compiler->strings, key);
 	if (value.type == Y_END) {
 		YASL_COMPILE_DEBUG_LOG("%s\n", "caching float");
 		yasl_int index = (yasl_int)compiler->strings->count;
-		YASL_Table_insert(compiler->strings, YASL_FLOAT(val), YASL_INT(index));
+		YASL_Table_insert(compiler->strings, key, YASL_INT(index));
 		YASL_ByteBuffer_add_byte(compiler->header, C_FLOAT);
 		YASL_ByteBuffer_add_float(compiler->header, val);
 
-- 
2.43.0


From 726a277f52aaa4ec3e95fd58b867b4d32f9462ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:28 +0000
Subject: [PATCH 43/77] fix: -0.0 and 0.0 are the same key

---
 util/hash_function.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/hash_function.c b/util/hash_function.c
index 57e5e41..7c2c5f0 100644
--- a/util/hash_function.c
+++ b/util/hash_function.c
@@ -13,6 +13,9 @@ size_t hash_function(const struct YASL_Object s, const size_t a, const size_t m)
 			hash %= m;
 		}
 		return (size_t) hash;
+	} else if (obj_isfloat(&s) && s.value.dval == 0.0) {
+		// -0.0 and 0.0 are equal
+		return 0;
 	} else {
 		int64_t ll = s.value.ival & 0xFFFF;
 		int64_t lu = (s.value.ival & 0xFFFF0000) >> 16;
-- 
2.43.0


From bc71ff5ad5b9e0f05a47ac7a25b1189a73461913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:26 +0000
Subject: [PATCH 44/77] fix: report the right line in a callee that spans lines

---
 compiler/compiler.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index fc746e8..aaeaa50 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -137,6 +137,7 @@ static void rm_checkpoint(struct Compiler *const compiler) {
 }
 
 static void visit(struct Compiler *const compiler, const struct Node *const node);
+static void mark_line(struct Compiler *const compiler, const size_t line);
 
 static void visit_Body(struct Compiler *const compiler, const struct Node *const node) {
 	FOR_CHILDREN(i, child, node) {
@@ -477,6 +478,7 @@ static void visit_Call(struct Compiler *const compiler, const struct Node *const
 	int expected_returns = compiler->expected_returns;
 	compiler->expected_returns = 1;
 	visit(compiler, Call_get_object(node));
+	mark_line(compiler, node->line);
 	compiler_add_byte(compiler, O_INIT_CALL);
 	compiler_add_byte(compiler, (unsigned char)expected_returns);
 	visit_Body(compiler, Call_get_params(node));
@@ -490,6 +492,7 @@ static void visit_MethodCall(struct Compiler *const compiler, const struct Node
 	int expected_returns = compiler->expected_returns;
 	compiler->expected_returns = 1;
 	visit(compiler, MethodCall_get_object(node));
+	mark_line(compiler, node->line);
 
 	yasl_int index = compiler_intern_string(compiler, str, len);
 
@@ -544,12 +547,14 @@ static void visit_Set(struct Compiler *const compiler, const struct Node *const
 
 static void visit_Get(struct Compiler *const compiler, const struct Node *const node) {
 	visit(compiler, Get_get_collection(node));
+	mark_line(compiler, node->line);
 	visit(compiler, Get_get_value(node));
 	compiler_add_byte(compiler, O_GET);
 }
 
 static void visit_Slice(struct Compiler *const compiler, const struct Node *const node) {
 	visit(compiler, Slice_get_collection(node));
+	mark_line(compiler, node->line);
 	visit(compiler, Slice_get_start(node));
 	visit(compiler, Slice_get_end(node));
 	compiler_add_byte(compiler, O_SLICE);
@@ -1473,11 +1478,28 @@ static void (*jmp_table[])(struct Compiler *const compiler, const struct Node *c
 };
 #undef X
 
-static void visit(struct Compiler *const compiler, const struct Node *const node) {
-	while (node->line > compiler->line) {
+/*
+ * Records that the code from here on is on `line`.
+ */
+static void mark_line(struct Compiler *const compiler, const size_t line) {
+	while (line > compiler->line) {
 		YASL_ByteBuffer_add_vint(compiler->lines, compiler->code->count + compiler->buffer->count);
 		compiler->line++;
 	}
+}
+
+static void visit(struct Compiler *const compiler, const struct Node *const node) {
+	switch (node->nodetype) {
+	case N_CALL:
+	case N_MCALL:
+	case N_GET:
+	case N_SLICE:
+		// These come after their object, which can span many lines, so they mark their own line.
+		break;
+	default:
+		mark_line(compiler, node->line);
+		break;
+	}
 
 	jmp_table[node->nodetype](compiler, node);
 }
-- 
2.43.0


From ccc461bf1ae69ef71b1822c451717fecdbe80a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:21 +0000
Subject: [PATCH 45/77] fix: report the right line in interpolated strings and
 calls that expand

---
 compiler/compiler.c | 1 +
 compiler/parser.c   | 7 ++++---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index aaeaa50..21642e1 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -1494,6 +1494,7 @@ static void visit(struct Compiler *const compiler, const struct Node *const node
 	case N_MCALL:
 	case N_GET:
 	case N_SLICE:
+	case N_VARCONT:
 		// These come after their object, which can span many lines, so they mark their own line.
 		break;
 	default:
diff --git a/compiler/parser.c b/compiler/parser.c
index 05af3d8..17453e1 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -1110,7 +1110,8 @@ static struct Node *parse_boolean(struct Parser *const parser) {
 
 static struct Node *parse_string(struct Parser *const parser) {
 	YASL_PARSE_DEBUG_LOG("%s\n", "Parsing str");
-	struct Node *cur_node = new_String(parser, parser->lex.value, parser->lex.val_len, parserline(parser));
+	const size_t line = parserline(parser);
+	struct Node *cur_node = new_String(parser, parser->lex.value, parser->lex.val_len, line);
 
 	// interpolated strings
 	while (parser->lex.mode == L_INTERP) {
@@ -1119,7 +1120,7 @@ static struct Node *parse_string(struct Parser *const parser) {
 		parser->lex.mode = L_NORMAL;
 		struct Node *expr = parse_expr(parser);
 		parser->lex.mode = L_INTERP;
-		cur_node = new_BinOp(parser, T_TILDE, cur_node, expr, parserline(parser));
+		cur_node = new_BinOp(parser, T_TILDE, cur_node, expr, line);
 		if (parser->lex.c == '}') {
 			parser->lex.c = lxgetc(parser->lex.file);
 		} else {
@@ -1131,7 +1132,7 @@ static struct Node *parse_string(struct Parser *const parser) {
 			handle_error(parser);
 		};
 		struct Node *str = new_String(parser, parser->lex.value, parser->lex.val_len, parserline(parser));
-		cur_node = new_BinOp(parser, T_TILDE, cur_node, str, parserline(parser));
+		cur_node = new_BinOp(parser, T_TILDE, cur_node, str, line);
 	}
 
 	eattok(parser, T_STR);
-- 
2.43.0


From 9d5c6194e7419bb52e802bb3d25d643167b9031c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:22 +0000
Subject: [PATCH 46/77] fix: don't report a call whose arguments are being
 evaluated as in progress

---
 interpreter/VM.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index eea8cb7..1b4853a 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -166,7 +166,10 @@ static void printline(struct VM *vm) {
 	if (vm->fp >= 0 && vm->stack[vm->fp].type == Y_CFN) vm_exitframe(vm);
 
 	while (vm->fp >= 0) {
+		// A call whose arguments are still being evaluated has a frame too, but isn't in progress yet.
+		const bool in_progress = vm->fp == vm->next_fp;
 		vm_exitframe(vm);
+		if (!in_progress) continue;
 		size_t line = vm_getcurrline(vm);
 		vm_print_err_wrapper(vm, "In function call on line %" PRI_SIZET "\n", line);
 	}
-- 
2.43.0


From 9d71ce150d51450705f72cd9cd032734b39f1a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:15 +0000
Subject: [PATCH 47/77] fix: delete the nodes of long programs without
 recursion

---
 compiler/ast.c | 60 ++++++++++++++++++++++++++------------------------
 1 file changed, 31 insertions(+), 29 deletions(-)

diff --git a/compiler/ast.c b/compiler/ast.c
index eeb25bd..41289e7 100644
--- a/compiler/ast.c
+++ b/compiler/ast.c
@@ -269,36 +269,38 @@ struct Node *new_VariadicContext(struct Parser *parser, const struct Node *const
 }
 
 void node_del(struct Node *node) {
-	if (!node) return;
-	node_del(node->next);
-	switch (node->nodetype) {
-	case N_PATALT:
-	case N_BINOP:
-	case N_UNOP:
-	case N_VARCONT:
-	case N_TRIOP:
-	case N_BOOL:
-	case N_INT:
-	case N_FLOAT:
-	case N_PATBOOL:
-	case N_PATINT:
-	case N_PATFL:
-		break;
-	case N_VAR:
-	case N_LET:
-	case N_STR:
-	case N_CONST:
-	case N_LETITER:
-	case N_FNDECL:
-	case N_PATCONST:
-	case N_PATLET:
-	case N_PATSTR:
-		free(node->value.sval.str);
-	default:
-		//free(node->value.sval.str);
-		break;
+	while (node) {
+		struct Node *const next = node->next;
+		switch (node->nodetype) {
+		case N_PATALT:
+		case N_BINOP:
+		case N_UNOP:
+		case N_VARCONT:
+		case N_TRIOP:
+		case N_BOOL:
+		case N_INT:
+		case N_FLOAT:
+		case N_PATBOOL:
+		case N_PATINT:
+		case N_PATFL:
+			break;
+		case N_VAR:
+		case N_LET:
+		case N_STR:
+		case N_CONST:
+		case N_LETITER:
+		case N_FNDECL:
+		case N_PATCONST:
+		case N_PATLET:
+		case N_PATSTR:
+			free(node->value.sval.str);
+		default:
+			//free(node->value.sval.str);
+			break;
+		}
+		free(node);
+		node = next;
 	}
-	free(node);
 }
 
 struct Node *Block_get_block(const struct Node *const node) {
-- 
2.43.0


From e3576d5dd3d0d816179489da2eecc7ae40292246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:44 +0000
Subject: [PATCH 48/77] fix: report programs that are nested too deeply instead
 of overflowing the C stack

---
 compiler/ast.c    | 17 +++++++++++++++
 compiler/ast.h    |  1 +
 compiler/parser.c | 54 ++++++++++++++++++++++++++++++++++++++---------
 compiler/parser.h |  2 ++
 4 files changed, 64 insertions(+), 10 deletions(-)

diff --git a/compiler/ast.c b/compiler/ast.c
index 41289e7..929dbe7 100644
--- a/compiler/ast.c
+++ b/compiler/ast.c
@@ -44,9 +44,14 @@ struct Node *node_clone(const struct Node *const node) {
 	}
 
 	clone->line = node->line;
+	clone->depth = node->depth;
 	return clone;
 }
 
+static void add_depth(struct Node *const node, const struct Node *const child) {
+	if (child && child->depth >= node->depth) node->depth = child->depth + 1;
+}
+
 static struct Node *new_Node(struct Parser *parser, const enum NodeType nodetype, const size_t line, const size_t name_len,
 		char *const name /* OWN */, const size_t n, ... /* OWN */) {
 	struct Node *const node = (struct Node *)malloc(sizeof(struct Node) + sizeof(struct Node *) * n);
@@ -58,10 +63,12 @@ static struct Node *new_Node(struct Parser *parser, const enum NodeType nodetype
 	node->value.sval.str = name;
 
 	node->line = line;
+	node->depth = 1;
 	va_list children;
 	va_start(children, n);
 	for (size_t i = 0; i < n; i++) {
 		node->children[i] = va_arg(children, struct Node*);
+		add_depth(node, node->children[i]);
 	}
 	va_end(children);
 
@@ -150,6 +157,7 @@ void body_append(struct Parser *parser, struct Node **node, struct Node *const c
 	YASL_COMPILE_DEBUG_LOG("%s\n", "appending to block");
 	parser_unregister_node(parser, *node);
 	*node = (struct Node*)realloc(*node, sizeof(struct Node) + (++(*node)->children_len) * sizeof(struct Node *));
+	add_depth(*node, child);
 	parser_register_node(parser, *node);
 	(*node)->children[(*node)->children_len - 1] = child;
 }
@@ -204,6 +212,10 @@ struct Node *new_TriOp(struct Parser *parser, enum Token op, struct Node *left,
 	node->children[0] = left;
 	node->children[1] = middle;
 	node->children[2] = right;
+	node->depth = 1;
+	add_depth(node, left);
+	add_depth(node, middle);
+	add_depth(node, right);
 
 	parser_register_node(parser, node);
 	return node;
@@ -216,6 +228,9 @@ struct Node *new_BinOp(struct Parser *parser, enum Token op, struct Node *left,
 	node->children_len = 0;
 	node->value.binop = ((struct BinOpNode) { op, left, right });
 	node->line = line;
+	node->depth = 1;
+	add_depth(node, left);
+	add_depth(node, right);
 
 	parser_register_node(parser, node);
 	return node;
@@ -228,6 +243,8 @@ struct Node *new_UnOp(struct Parser *parser, enum Token op, struct Node *child,
 	node->children_len = 0;
 	node->value.unop = ((struct UnOpNode) { op, child });
 	node->line = line;
+	node->depth = 1;
+	add_depth(node, child);
 
 	parser_register_node(parser, node);
 	return node;
diff --git a/compiler/ast.h b/compiler/ast.h
index 4bc4124..d8f4398 100644
--- a/compiler/ast.h
+++ b/compiler/ast.h
@@ -65,6 +65,7 @@ struct Node {
 		struct BinOpNode binop;
 	} value;
 	size_t line;
+	size_t depth;
 	size_t children_len;
 	struct Node *children[];
 };
diff --git a/compiler/parser.c b/compiler/parser.c
index 17453e1..8f0c785 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -61,6 +61,36 @@ YASL_FORMAT_CHECK static void parser_print_err(struct Parser *parser, const char
 
 #define parser_print_err_syntax(parser, format, ...) parser_print_err(parser, "SyntaxError: " format, __VA_ARGS__)
 
+static YASL_NORETURN void handle_error(struct Parser *const parser);
+
+// How deeply a program can be nested. Both parsing and compiling recurse, so these keep us from running out of C stack.
+#define MAX_NESTING 10000
+#define MAX_NODE_DEPTH 20000
+
+// What a level of each contributes towards MAX_NESTING.
+#define NESTED_EXPR 10
+#define NESTED_STMT 10
+#define NESTED_PATTERN 2
+#define NESTED_OP 1
+
+static void check_nesting(struct Parser *const parser, const size_t nesting, const size_t max) {
+	if (nesting <= max) return;
+	parser_print_err_syntax(parser, "Program is nested too deeply (line %" PRI_SIZET ").\n", parserline(parser));
+	handle_error(parser);
+}
+
+static void enter_nested(struct Parser *const parser, const size_t cost) {
+	parser->nesting += cost;
+	check_nesting(parser, parser->nesting, MAX_NESTING);
+}
+
+static struct Node *exit_nested(struct Parser *const parser, const size_t cost, struct Node *const node) {
+	parser->nesting -= cost;
+	return node;
+}
+
+#define NESTED(parser, cost, node) (enter_nested(parser, cost), exit_nested(parser, cost, node))
+
 void parser_register_node(struct Parser *parser, struct Node *node) {
 	if (!parser->head) {
 		parser->head = node;
@@ -68,6 +98,7 @@ void parser_register_node(struct Parser *parser, struct Node *node) {
 		parser->tail->next = node;
 	}
 	parser->tail = node;
+	check_nesting(parser, node->depth, MAX_NODE_DEPTH);
 }
 
 void parser_unregister_node(struct Parser *parser, struct Node *node) {
@@ -179,6 +210,7 @@ bool matcheattok(struct Parser *const parser, const enum Token token) {
 }
 
 struct Node *parse(struct Parser *const parser) {
+	parser->nesting = 0;
 	if (setjmp(parser->env)) {
 		return NULL;
 	}
@@ -317,7 +349,7 @@ static struct Node *parse_body(struct Parser *const parser) {
 	eattok(parser, T_LBRC);
 	struct Node *body = new_Body(parser, line);
 	while (curtok(parser) != T_RBRC && curtok(parser) != T_EOF) {
-		body_append(parser, &body, parse_program(parser));
+		body_append(parser, &body, NESTED(parser, NESTED_STMT, parse_program(parser)));
 		eattok(parser, T_SEMI);
 	}
 	eattok(parser, T_RBRC);
@@ -713,7 +745,7 @@ static struct Node *parse_alt(struct Parser *const parser) {
 	size_t line = parserline(parser);
         struct Node *cur_node = parse_patternsingle(parser);
         if (matcheattok(parser, T_BAR)) {
-                struct Node *tmp = new_BinOp(parser, T_BAR, cur_node, parse_alt(parser), line);
+                struct Node *tmp = new_BinOp(parser, T_BAR, cur_node, NESTED(parser, NESTED_OP, parse_alt(parser)), line);
                 tmp->nodetype = N_PATALT;
                 return tmp;
         }
@@ -721,7 +753,7 @@ static struct Node *parse_alt(struct Parser *const parser) {
 }
 
 static struct Node *parse_pattern(struct Parser *const parser) {
-	return parse_alt(parser);
+	return NESTED(parser, NESTED_PATTERN, parse_alt(parser));
 }
 
 static struct Node *parse_match(struct Parser *const parser) {
@@ -765,7 +797,8 @@ static struct Node *parse_if(struct Parser *const parser) {
 	}
 	if (curtok(parser) == T_ELSEIF) {
 		YASL_PARSE_DEBUG_LOG("%s\n", "elseif");
-		return new_If(parser, cond, new_Block(parser, then_block, line), parse_if(parser), line);
+		return new_If(parser, cond, new_Block(parser, then_block, line),
+			      NESTED(parser, NESTED_OP, parse_if(parser)), line);
 	}
 	if (matcheattok(parser, T_ELSE)) {
 		size_t else_line = parserline(parser);
@@ -785,7 +818,7 @@ static struct Node *parse_assert(struct Parser *const parser) {
 
 static struct Node *parse_expr(struct Parser *const parser) {
 	YASL_PARSE_DEBUG_LOG("%s\n", "parsing expression.");
-	struct Node *node = parse_ternary(parser);
+	struct Node *node = NESTED(parser, NESTED_EXPR, parse_ternary(parser));
 	fold(node);
 	return node;
 }
@@ -837,9 +870,9 @@ static struct Node *parse_ternary(struct Parser *const parser) {
 	size_t line = parserline(parser);
 	struct Node *cur_node = parse_undef_or(parser);
 	if (matcheattok(parser, T_QMARK)) {
-		struct Node *left = parse_ternary(parser);
+		struct Node *left = NESTED(parser, NESTED_EXPR, parse_ternary(parser));
 		eattok(parser, T_COLON);
-		struct Node *right = parse_ternary(parser);
+		struct Node *right = NESTED(parser, NESTED_OP, parse_ternary(parser));
 		return new_TriOp(parser, T_QMARK, cur_node, left, right, line);
 	}
 	return cur_node;
@@ -853,7 +886,7 @@ static struct Node *parse_##name(struct Parser *const parser) {\
         struct Node *cur_node = parse_##next(parser);\
         if (TOKEN_MATCHES(parser, __VA_ARGS__)) {\
                 enum Token op = eattok(parser, curtok(parser));\
-                return new_BinOp(parser, op, cur_node, parse_##name(parser), line);\
+                return new_BinOp(parser, op, cur_node, NESTED(parser, NESTED_OP, parse_##name(parser)), line);\
         }\
         return cur_node;\
 }
@@ -889,7 +922,7 @@ static struct Node *parse_unary(struct Parser *const parser) {
 	if (curtok(parser) == T_PLUS || curtok(parser) == T_MINUS || curtok(parser) == T_BANG ||
 	    curtok(parser) == T_CARET || curtok(parser) == T_LEN) {
 		enum Token op = eattok(parser, curtok(parser));
-		return new_UnOp(parser, op, parse_unary(parser), line);
+		return new_UnOp(parser, op, NESTED(parser, NESTED_OP, parse_unary(parser)), line);
 	} else {
 		return parse_power(parser);
 	}
@@ -900,7 +933,7 @@ static struct Node *parse_power(struct Parser *const parser) {
 	YASL_PARSE_DEBUG_LOG("parsing ** in line %" PRI_SIZET "\n", parserline(parser));
 	struct Node *cur_node = parse_call(parser);
 	if (matcheattok(parser, T_DSTAR)) {
-		return new_BinOp(parser, T_DSTAR, cur_node, parse_unary(parser), line);
+		return new_BinOp(parser, T_DSTAR, cur_node, NESTED(parser, NESTED_OP, parse_unary(parser)), line);
 	}
 	return cur_node;
 }
@@ -1132,6 +1165,7 @@ static struct Node *parse_string(struct Parser *const parser) {
 			handle_error(parser);
 		};
 		struct Node *str = new_String(parser, parser->lex.value, parser->lex.val_len, parserline(parser));
+		parser->lex.value = NULL;
 		cur_node = new_BinOp(parser, T_TILDE, cur_node, str, line);
 	}
 
diff --git a/compiler/parser.h b/compiler/parser.h
index fe8de9c..699627e 100644
--- a/compiler/parser.h
+++ b/compiler/parser.h
@@ -19,6 +19,7 @@
 	.status = YASL_SUCCESS,\
 	.head = NULL,\
 	.tail = NULL,\
+	.nesting = 0,\
 })
 
 struct Parser {
@@ -26,6 +27,7 @@ struct Parser {
 	int status;
 	struct Node *head;
 	struct Node *tail;
+	size_t nesting;
 	jmp_buf env;
 };
 
-- 
2.43.0


From cfb232be179d47c779e29ab388897d86f332aa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:48 +0000
Subject: [PATCH 49/77] fix: reject calls in parentheses as names of members

---
 compiler/parser.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index 8f0c785..1655333 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -967,10 +967,7 @@ static struct Node *parse_call(struct Parser *const parser) {
 			}
 		} else if (matcheattok(parser, T_DOT)) {
 			struct Node *right = parse_constant(parser);
-			if (right->nodetype == N_CALL) {
-				cur_node = new_Set(parser, cur_node, Call_get_params(right)->children[0],
-						   Call_get_params(right)->children[1], parserline(parser));
-			} else if (right->nodetype == N_VAR) {
+			if (right->nodetype == N_VAR) {
 				right->nodetype = N_STR;
 				cur_node = new_Get(parser, cur_node, right, right->line);
 			} else {
-- 
2.43.0


From 8d946775e2f5362bfb25dcd6b67541b8d32b84cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:50 +0000
Subject: [PATCH 50/77] fix: name unknown tokens in error messages without
 reading past the names

---
 compiler/parser.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index 1655333..0b61114 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -151,6 +151,10 @@ static inline enum Token curtok(const struct Parser *const parser) {
 	return parser->lex.type;
 }
 
+static inline const char *curtokname(const struct Parser *const parser) {
+	return curtok(parser) == T_UNKNOWN ? "unknown token" : YASL_TOKEN_NAMES[curtok(parser)];
+}
+
 void parser_cleanup(struct Parser *const parser) {
 	node_del(parser->head);
 	lex_cleanup(&parser->lex);
@@ -174,7 +178,7 @@ enum Token eattok(struct Parser *const parser, const enum Token token) {
 			parser->status = parser->lex.status;
 		} else {
 			parser_print_err_syntax(parser, "Expected %s, got %s (line %" PRI_SIZET ").\n", YASL_TOKEN_NAMES[token],
-						YASL_TOKEN_NAMES[curtok(parser)], parserline(parser));
+						curtokname(parser), parserline(parser));
 			parser->status = YASL_SYNTAX_ERROR;
 		}
 		while (!TOKEN_MATCHES(parser, T_SEMI, T_EOF)) {
@@ -330,7 +334,7 @@ static struct Node *parse_program(struct Parser *const parser) {
 	case T_ELSE:
 		parser_print_err_syntax(parser,
 			"`%s` without previous `if` (line %" PRI_SIZET ").\n",
-			YASL_TOKEN_NAMES[curtok(parser)],
+			curtokname(parser),
 			line);
 		handle_error(parser);
 		break;
@@ -464,7 +468,7 @@ static struct Node *parse_let_const_or_var(struct Parser *const parser) {
 			struct Node *set = new_Set(parser, Get_get_collection(node), Get_get_value(node), NULL, line);
 			return set;
 		} else {
-			parser_print_err_syntax(parser, "Expected `let`, `const`, or id, got %s", YASL_TOKEN_NAMES[curtok(parser)]);
+			parser_print_err_syntax(parser, "Expected `let`, `const`, or id, got %s", curtokname(parser));
 			handle_error(parser);
 		}
 	}
@@ -607,7 +611,7 @@ static struct Node *parse_primitivepattern(struct Parser *const parser) {
 			n->value.dval *= -1;
 			return n;
 		} else {
-			parser_print_err_syntax(parser, "Expected numeric pattern, got pattern starting in %s (line %" PRI_SIZET ").\n", YASL_TOKEN_NAMES[curtok(parser)], line);
+			parser_print_err_syntax(parser, "Expected numeric pattern, got pattern starting in %s (line %" PRI_SIZET ").\n", curtokname(parser), line);
 			handle_error(parser);
 		}
 	case T_STR:
@@ -650,7 +654,7 @@ static struct Node *parse_primitivepattern(struct Parser *const parser) {
 		return n;
 	}
 	default:
-		parser_print_err_syntax(parser, "Invalid pattern starting in %s (line %" PRI_SIZET ").\n", YASL_TOKEN_NAMES[curtok(parser)], line);
+		parser_print_err_syntax(parser, "Invalid pattern starting in %s (line %" PRI_SIZET ").\n", curtokname(parser), line);
 		handle_error(parser);
 	}
 }
@@ -786,7 +790,7 @@ static struct Node *parse_if(struct Parser *const parser) {
 	if (matcheattok(parser, T_IF)) ;
 	else if (matcheattok(parser, T_ELSEIF)) ;
 	else {
-		parser_print_err_syntax(parser, "Expected `if` or `elseif`, got `%s` (line %" PRI_SIZET ")\n", YASL_TOKEN_NAMES[curtok(parser)], line);
+		parser_print_err_syntax(parser, "Expected `if` or `elseif`, got `%s` (line %" PRI_SIZET ")\n", curtokname(parser), line);
 		handle_error(parser);
 	}
 	struct Node *cond = parse_expr(parser);
@@ -806,7 +810,7 @@ static struct Node *parse_if(struct Parser *const parser) {
 		struct Node *else_block = parse_body(parser);
 		return new_If(parser, cond, new_Block(parser, then_block, line), new_Block(parser, else_block, else_line), line);
 	}
-	parser_print_err_syntax(parser, "Expected newline, got `%s`.\n", YASL_TOKEN_NAMES[curtok(parser)]);
+	parser_print_err_syntax(parser, "Expected newline, got `%s`.\n", curtokname(parser));
 	handle_error(parser);
 }
 
@@ -1058,14 +1062,14 @@ static struct Node *parse_constant(struct Parser *const parser) {
 		parser_print_err_syntax(parser, "Expected expression, got `%s` (line %"
 			PRI_SIZET
 			").\n",
-					YASL_TOKEN_NAMES[curtok(parser)], parserline(parser));
+					curtokname(parser), parserline(parser));
 		handle_error(parser);
 	case T_UNKNOWN:
 		handle_error(parser);
 	default:
 		parser_print_err_syntax(parser, "Invalid expression `%s` (line %"
 			PRI_SIZET
-			").\n", YASL_TOKEN_NAMES[curtok(parser)], parserline(parser));
+			").\n", curtokname(parser), parserline(parser));
 		handle_error(parser);
 	}
 }
-- 
2.43.0


From 872300fb2e3c655d260104c116e6d88633a7727d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:42 +0000
Subject: [PATCH 51/77] fix: end at the end of the source in an interpolated
 str in a pattern

---
 compiler/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index 0b61114..d3b071a 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -616,7 +616,7 @@ static struct Node *parse_primitivepattern(struct Parser *const parser) {
 		}
 	case T_STR:
 		if (parser->lex.mode == L_INTERP) {
-			while (parser->lex.c != '"') {
+			while (parser->lex.c != '"' && !lxeof(parser->lex.file)) {
 				lex_getchar(&parser->lex);
 			}
 			eattok(parser, T_STR);
-- 
2.43.0


From a9c8e04ce564b3fcf0c97fc932c72fc2a6d54807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:51 +0000
Subject: [PATCH 52/77] fix: refuse more than an expression in an interpolated
 str

---
 compiler/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index d3b071a..485cebc 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -1155,7 +1155,7 @@ static struct Node *parse_string(struct Parser *const parser) {
 		struct Node *expr = parse_expr(parser);
 		parser->lex.mode = L_INTERP;
 		cur_node = new_BinOp(parser, T_TILDE, cur_node, expr, line);
-		if (parser->lex.c == '}') {
+		if (curtok(parser) == T_RBRC && parser->lex.c == '}') {
 			parser->lex.c = lxgetc(parser->lex.file);
 		} else {
 			parser_print_err_syntax(parser, "Expected } in line %" PRI_SIZET ".\n", parserline(parser));
-- 
2.43.0


From e1e5178a102e5cf725acb2cb8eb92973f3133c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:56 +0000
Subject: [PATCH 53/77] fix: copy the names of globals and metatables that the
 host sets

---
 yasl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yasl.c b/yasl.c
index ed009d8..8299a9c 100644
--- a/yasl.c
+++ b/yasl.c
@@ -191,7 +191,7 @@ int YASL_setglobal(struct YASL_State *S, const char *name) {
 	int64_t index = scope_get(S->compiler.globals, name);
 	if (is_const(index)) return YASL_ERROR;
 
-	struct YASL_String *string = YASL_String_new_sized(strlen(name), name);
+	struct YASL_String *string = YASL_String_new_sized_heap(0, strlen(name), copy_char_buffer(strlen(name), name));
 	YASL_Table_insert_fast(S->vm.globals, YASL_STR(string), vm_peek((struct VM *) S));
 	YASL_pop(S);
 
@@ -210,7 +210,7 @@ int YASL_loadglobal(struct YASL_State *S, const char *name) {
 }
 
 int YASL_registermt(struct YASL_State *S, const char *name) {
-	struct YASL_String *string = YASL_String_new_sized(strlen(name), name);
+	struct YASL_String *string = YASL_String_new_sized_heap(0, strlen(name), copy_char_buffer(strlen(name), name));
 	YASL_Table_insert_fast(S->vm.metatables, YASL_STR(string), vm_peek((struct VM *) S));
 	YASL_pop(S);
 
-- 
2.43.0


From 91cfa4be43399134b7ff9b97d3a6aef7bbedc7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:56 +0000
Subject: [PATCH 54/77] fix: peeknuserdata is NULL for values that aren't
 userdata

---
 yasl.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yasl.c b/yasl.c
index 8299a9c..7abdfd2 100644
--- a/yasl.c
+++ b/yasl.c
@@ -609,6 +609,9 @@ char *YASL_popcstr(struct YASL_State *S) {
 }
 
 void *YASL_peeknuserdata(struct YASL_State *S, unsigned n) {
+	// Lists and tables are userdata too.
+	if (!YASL_isnlist(S, n) && !YASL_isntable(S, n) && !vm_isuserdata(&S->vm, S->vm.fp + 1 + n)) return NULL;
+
 	return YASL_GETUSERDATA(vm_peek(&S->vm, S->vm.fp + 1 + n))->data;
 }
 
-- 
2.43.0


From 58f9767fc6e108b12ab360e8cd6e275e735fc4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:21 +0000
Subject: [PATCH 55/77] fix: define the functions for userdata and userptrs
 that yasl.h declares

---
 yasl.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/yasl.c b/yasl.c
index 7abdfd2..8ecb5be 100644
--- a/yasl.c
+++ b/yasl.c
@@ -521,6 +521,14 @@ bool YASL_isuserdata(struct YASL_State *S, const char *tag) {
 	return vm_isuserdata(&S->vm) && YASL_GETUSERDATA(vm_peek(&S->vm))->tag == tag;
 }
 
+bool YASL_isuserptr(struct YASL_State *S) {
+	return vm_peek(&S->vm).type == Y_USERPTR;
+}
+
+bool YASL_isnuserptr(struct YASL_State *S, unsigned n) {
+	return vm_peek(&S->vm, S->vm.fp + 1 + n).type == Y_USERPTR;
+}
+
 bool YASL_peekbool(struct YASL_State *S) {
 	if (YASL_isbool(S)) {
 		return vm_peekbool(&S->vm);
@@ -615,6 +623,19 @@ void *YASL_peeknuserdata(struct YASL_State *S, unsigned n) {
 	return YASL_GETUSERDATA(vm_peek(&S->vm, S->vm.fp + 1 + n))->data;
 }
 
+void *YASL_peekuserdata(struct YASL_State *S) {
+	// Lists and tables are userdata too.
+	if (!YASL_islist(S) && !YASL_istable(S) && !vm_isuserdata(&S->vm)) return NULL;
+
+	return YASL_GETUSERDATA(vm_peek(&S->vm))->data;
+}
+
+void *YASL_peekuserptr(struct YASL_State *S) {
+	if (!YASL_isuserptr(S)) return NULL;
+
+	return YASL_GETUSERPTR(vm_peek(&S->vm));
+}
+
 void *YASL_popuserdata(struct YASL_State *S) {
 	return YASL_GETUSERDATA(vm_pop(&S->vm))->data;
 }
-- 
2.43.0


From 04684786573b28e793ac8f603c20f0409ace7455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:35 +0000
Subject: [PATCH 56/77] fix: name the type of the argument that's wrong

---
 interpreter/table_methods.c | 2 +-
 yasl_aux.c                  | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/interpreter/table_methods.c b/interpreter/table_methods.c
index f824ed6..a2726ad 100644
--- a/interpreter/table_methods.c
+++ b/interpreter/table_methods.c
@@ -8,7 +8,7 @@
 static struct YASL_Table *YASLX_checkntable(struct YASL_State *S, const char *name, unsigned pos) {
 	if (!YASL_isntable(S, pos)) {
 		vm_print_err_type(&S->vm, "%s expected arg in position %d to be of type table, got arg of type %s.",
-				  name, pos, YASL_peektypename(S));
+				  name, pos, YASL_peekntypename(S, pos));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
 	return (struct YASL_Table *)YASL_peeknuserdata(S, pos);
diff --git a/yasl_aux.c b/yasl_aux.c
index f5f8573..3380165 100644
--- a/yasl_aux.c
+++ b/yasl_aux.c
@@ -27,7 +27,7 @@ void YASLX_print_err_bad_arg_type(struct YASL_State *S,
 
 yasl_int YASLX_checknint(struct YASL_State *S, const char *name, unsigned n) {
 	if (!YASL_isnint(S, n)) {
-		YASLX_print_err_bad_arg_type(S, name, n, "int", YASL_peektypename(S));
+		YASLX_print_err_bad_arg_type(S, name, n, "int", YASL_peekntypename(S, n));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
 	return YASL_peeknint(S, n);
@@ -35,7 +35,7 @@ yasl_int YASLX_checknint(struct YASL_State *S, const char *name, unsigned n) {
 
 yasl_float YASLX_checknfloat(struct YASL_State *S, const char *name, unsigned n) {
 	if (!YASL_isnfloat(S, n)) {
-		YASLX_print_err_bad_arg_type(S, name, n, "float", YASL_peektypename(S));
+		YASLX_print_err_bad_arg_type(S, name, n, "float", YASL_peekntypename(S, n));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
 	return YASL_peeknfloat(S, n);
@@ -43,7 +43,7 @@ yasl_float YASLX_checknfloat(struct YASL_State *S, const char *name, unsigned n)
 
 bool YASLX_checknbool(struct YASL_State *S, const char *name, unsigned n) {
 	if (!YASL_isnbool(S, n)) {
-		YASLX_print_err_bad_arg_type(S, name, n, "bool", YASL_peektypename(S));
+		YASLX_print_err_bad_arg_type(S, name, n, "bool", YASL_peekntypename(S, n));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
 	return YASL_peeknbool(S, n);
-- 
2.43.0


From 5096bc51fafc054183036ed167c6035e3f4a148f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:36 +0000
Subject: [PATCH 57/77] fix: document that registermt pops

---
 yasl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yasl.h b/yasl.h
index 39739ca..cdaa94c 100644
--- a/yasl.h
+++ b/yasl.h
@@ -569,8 +569,8 @@ void YASL_pushuserptr(struct YASL_State *S, void *userpointer);
 void YASL_pushzstr(struct YASL_State *S, const char *value);
 
 /**
- * [-0, +0]
- * Registers a metatable with name `name`. After this returns, the
+ * [-1, +0]
+ * Pops the top of the stack and registers it as a metatable with name `name`. After this returns, the
  * metatable can be referred to by `name` in other functions dealing
  * with metatables, e.g. `YASL_setmt` or `YASL_loadmt`.
  * @param S the YASL_State.
-- 
2.43.0


From 9e04d1bdd389ea753d5f5c16b85f55e8f3e05c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:09 +0000
Subject: [PATCH 58/77] fix: run programs above the values the host has on the
 stack

---
 interpreter/VM.c | 12 +++++++++---
 interpreter/VM.h |  1 +
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 1b4853a..712d33a 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -61,6 +61,7 @@ void vm_init(struct VM *const vm,
 	vm->pc = code + pc;
 	vm->fp = -1;
 	vm->next_fp = -1;
+	vm->base_fp = -1;
 	vm->sp = -1;
 	vm->num_constants = 0;
 	vm->constants = NULL;
@@ -163,9 +164,9 @@ static void printline(struct VM *vm) {
 
 	vm_print_err_wrapper(vm, " (line %" PRI_SIZET ")\n", line);
 
-	if (vm->fp >= 0 && vm->stack[vm->fp].type == Y_CFN) vm_exitframe(vm);
+	if (vm->fp > vm->base_fp && vm->stack[vm->fp].type == Y_CFN) vm_exitframe(vm);
 
-	while (vm->fp >= 0) {
+	while (vm->fp > vm->base_fp) {
 		// A call whose arguments are still being evaluated has a frame too, but isn't in progress yet.
 		const bool in_progress = vm->fp == vm->next_fp;
 		vm_exitframe(vm);
@@ -1711,6 +1712,7 @@ int vm_run(struct VM *const vm) {
 	const int sp = vm->sp;
 	const int fp = vm->fp;
 	const int next_fp = vm->next_fp;
+	const int base_fp = vm->base_fp;
 	const int frame_num = vm->frame_num;
 	const int loopframe_num = vm->loopframe_num;
 
@@ -1722,15 +1724,19 @@ int vm_run(struct VM *const vm) {
 				dec_ref(&vm->loopframes[vm->loopframe_num--].iterable);
 			}
 			vm->sp = sp;
-			vm->fp = fp;
 			vm->next_fp = next_fp;
 			vm->frame_num = frame_num;
 		}
+		vm->fp = fp;
+		vm->base_fp = base_fp;
 		return vm->status;
 	}
 
 	vm_setupconstants(vm);
 
+	// The host might have left values on the stack.
+	vm->fp = vm->base_fp = sp;
+
 	while (true) {
 		vm_executenext(vm);
 	}
diff --git a/interpreter/VM.h b/interpreter/VM.h
index f5e0ffd..b126943 100644
--- a/interpreter/VM.h
+++ b/interpreter/VM.h
@@ -110,6 +110,7 @@ struct VM {
 	int sp;                        // stack pointer
 	int fp;                        // frame pointer
 	int next_fp;
+	int base_fp;                   // frame pointer of what runs outside of functions
 	struct YASL_String *special_strings[NUM_SPECIAL_STRINGS];
 	struct RC_UserData **builtins_htable;   // htable of builtin methods
 	struct Upvalue *pending;
-- 
2.43.0


From ab9adcd8515bb3312c8da0fca603a1d560ddbcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:09 +0000
Subject: [PATCH 59/77] fix: fill in missing arguments of variadic C functions

---
 interpreter/VM.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 712d33a..d6f3863 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1288,6 +1288,9 @@ static void vm_CALL_cfn(struct VM *const vm) {
 	vm->frames[vm->frame_num].pc = vm->pc;
 	struct CFunction *f = vm_peekcfn(vm, vm->fp);
 	if (f->num_args < 0) {
+		while (vm->sp - vm->fp < ~f->num_args) {
+			vm_pushundef(vm);
+		}
 		yasl_int diff = vm->sp - vm->fp - ~f->num_args;
 		YASL_VM_DEBUG_LOG("diff: %d\n", (int)diff);
 		vm_insert(vm, vm->fp + 1 + ~f->num_args, YASL_INT(diff));
-- 
2.43.0


From 2bd77738a6d4ed982dcb7e3a4a54ce976ca9fbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:23 +0000
Subject: [PATCH 60/77] fix: leave the stack as it is when printing an error

---
 interpreter/VM.c | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index d6f3863..31408b3 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -134,7 +134,6 @@ YASL_FORMAT_CHECK static void vm_print_err_wrapper(struct VM *vm, const char *co
 	va_end(args);
 }
 
-static void vm_exitframe(struct VM *const vm);
 void vm_executenext(struct VM *const vm);
 
 static size_t vm_getcurrline(struct VM *vm) {
@@ -159,21 +158,38 @@ static size_t vm_getcurrline(struct VM *vm) {
 	return i;
 }
 
+static void leaveframe(struct VM *vm, int frame_num) {
+	struct CallFrame frame = vm->frames[frame_num];
+	vm->pc = frame.pc;
+	vm->fp = frame.prev_fp;
+	vm->next_fp = frame.curr_fp;
+}
+
 static void printline(struct VM *vm) {
+	// Only looks at the frames, since the caller might go on.
+	unsigned char *const pc = vm->pc;
+	const int fp = vm->fp;
+	const int next_fp = vm->next_fp;
+	int frame_num = vm->frame_num;
+
 	size_t line =  vm_getcurrline(vm);
 
 	vm_print_err_wrapper(vm, " (line %" PRI_SIZET ")\n", line);
 
-	if (vm->fp > vm->base_fp && vm->stack[vm->fp].type == Y_CFN) vm_exitframe(vm);
+	if (vm->fp > vm->base_fp && vm->stack[vm->fp].type == Y_CFN) leaveframe(vm, frame_num--);
 
 	while (vm->fp > vm->base_fp) {
 		// A call whose arguments are still being evaluated has a frame too, but isn't in progress yet.
 		const bool in_progress = vm->fp == vm->next_fp;
-		vm_exitframe(vm);
+		leaveframe(vm, frame_num--);
 		if (!in_progress) continue;
 		size_t line = vm_getcurrline(vm);
 		vm_print_err_wrapper(vm, "In function call on line %" PRI_SIZET "\n", line);
 	}
+
+	vm->pc = pc;
+	vm->fp = fp;
+	vm->next_fp = next_fp;
 }
 
 void vvm_print_err(struct VM *vm, const char *const fmt, va_list args) {
@@ -1201,20 +1217,6 @@ static void vm_exitframe_multi(struct VM *const vm, int len) {
 	vm->frame_num--;
 }
 
-static void vm_exitframe(struct VM *const vm) {
-	vm_rm_range(vm, vm->fp, vm->sp);
-
-	struct CallFrame frame = vm->frames[vm->frame_num];
-	vm->pc = frame.pc;
-	vm->fp = frame.prev_fp;
-	vm->next_fp = frame.curr_fp;
-	while (vm->loopframe_num > frame.lp) {
-		dec_ref(&vm->loopframes[vm->loopframe_num--].iterable);
-	}
-
-	vm->frame_num--;
-}
-
 void vm_INIT_CALL_offset(struct VM *const vm, int offset, int expected_returns) {
 	if (!vm_isfn(vm, offset) && !vm_iscfn(vm, offset) && !vm_isclosure(vm, offset)) {
 		const char *name = (vm_peektypename(vm, offset));
-- 
2.43.0


From e0fb937e3e19e25c9045b31ff8239cf89a58414e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:19 +0000
Subject: [PATCH 61/77] fix: release what was built so far when turning values
 into text fails

---
 interpreter/VM.c            | 32 +++++++++++--
 interpreter/VM.h            |  3 ++
 interpreter/list_methods.c  | 91 ++++++++++++++-----------------------
 interpreter/list_methods.h  |  6 +++
 interpreter/table_methods.c | 69 +++++++++++++---------------
 std/yasl-std-collections.c  | 38 ++++------------
 6 files changed, 110 insertions(+), 129 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 31408b3..48fc1f8 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -218,6 +218,10 @@ void vm_throw_err(struct VM *const vm, int error) {
 
 void vm_push(struct VM *const vm, const struct YASL_Object val) {
 	if (vm->sp + 1 >= STACK_SIZE) {
+		// `val` might have just been made for us.
+		struct YASL_Object unused = val;
+		inc_ref(&unused);
+		dec_ref(&unused);
 		vm_print_err(vm, "StackOverflow.");
 		vm_throw_err(vm, YASL_STACK_OVERFLOW_ERROR);
 	}
@@ -251,6 +255,23 @@ void vm_pushbool(struct VM *const vm, bool b) {
 	vm_push(vm, YASL_BOOL(b));
 }
 
+static void buffer_del(void *buffer) {
+	YASL_ByteBuffer_del((struct YASL_ByteBuffer *)buffer);
+}
+
+struct YASL_ByteBuffer *vm_pushbuffer(struct VM *const vm) {
+	struct YASL_ByteBuffer *bb = YASL_ByteBuffer_new(8);
+	vm_push(vm, YASL_USERDATA(ud_new(bb, "buffer", NULL, &buffer_del)));
+	return bb;
+}
+
+struct YASL_String *vm_popbuffer(struct VM *const vm) {
+	struct YASL_ByteBuffer *bb = (struct YASL_ByteBuffer *)vm_pop(vm).value.uval->data;
+	struct YASL_String *str = YASL_String_new_sized_heap(0, bb->count, (char *)bb->bytes);
+	bb->bytes = NULL;
+	return str;
+}
+
 struct YASL_Object *vm_pop_p(struct VM *const vm) {
 	YASL_ASSERT(vm->sp >= 0, "cannot pop from empty stack.");
 	return vm->stack + vm->sp--;
@@ -538,19 +559,20 @@ void vm_EQ_now(struct VM *const vm) {
 }
 
 static void vm_CNCT(struct VM *const vm) {
+		// Both stay on the stack until neither can fail anymore.
 		vm_stringify_top(vm);
-		struct YASL_Object top = vm_peek(vm);
-		inc_ref(&top);
-		struct YASL_String *b = vm_popstr(vm);
+		vm_swaptop(vm);
 		vm_stringify_top(vm);
-		struct YASL_String *a = vm_popstr(vm);
+		struct YASL_String *a = vm_peekstr(vm);
+		struct YASL_String *b = vm_peekstr(vm, vm->sp - 1);
 
 		size_t size = YASL_String_len(a) + YASL_String_len(b);
 		char *ptr = (char *)malloc(size);
 		memcpy(ptr, YASL_String_chars(a), YASL_String_len(a));
 		memcpy(ptr + YASL_String_len(a), YASL_String_chars(b), YASL_String_len(b));
+		vm_pop(vm);
+		vm_pop(vm);
 		vm_pushstr(vm, YASL_String_new_sized_heap(0, size, ptr));
-		dec_ref(&top);
 }
 
 #define DEFINE_COMP(name, opstr, overload_name) \
diff --git a/interpreter/VM.h b/interpreter/VM.h
index b126943..6dc35e3 100644
--- a/interpreter/VM.h
+++ b/interpreter/VM.h
@@ -151,6 +151,9 @@ void vm_pushundef(struct VM *const vm);
 void vm_pushfloat(struct VM *const vm, yasl_float f);
 void vm_pushint(struct VM *const vm, yasl_int i);
 void vm_pushbool(struct VM *const vm, bool b);
+// A buffer for text that is released along with the stack, should there be an error before it is popped.
+struct YASL_ByteBuffer *vm_pushbuffer(struct VM *const vm);
+struct YASL_String *vm_popbuffer(struct VM *const vm);
 #define vm_pushstr(vm, s) vm_push(vm, YASL_STR(s))
 #define vm_pushlist(vm, l) vm_push(vm, YASL_LIST(l))
 #define vm_pushtable(vm, l) vm_push(vm, YASL_TABLE(l))
diff --git a/interpreter/list_methods.c b/interpreter/list_methods.c
index ee72eb5..4e80bde 100644
--- a/interpreter/list_methods.c
+++ b/interpreter/list_methods.c
@@ -60,22 +60,23 @@ int list___set(struct YASL_State *S) {
 	return 1;
 }
 
-int table_tostr_helper(struct YASL_State *S, void **buffer, size_t buffer_size, size_t buffer_count);
-bool buffer_contains(void **buffer, size_t buffer_count, void *val);
-void rec_call(struct YASL_State *S, void **buffer, const size_t buffer_count, const size_t buffer_size, int (*f)(struct YASL_State *, void **, size_t, size_t));
+int table_tostr_helper(struct YASL_State *S, const struct Seen *seen);
+bool seen_contains(const struct Seen *seen, void *val);
+void rec_call(struct YASL_State *S, const struct Seen *seen, int (*f)(struct YASL_State *, const struct Seen *));
 
 #define FOUND_LIST "[...], "
 #define FOUND_TABLE "{...}, "
 
-int list_tostr_helper(struct YASL_State *S, void **buffer, size_t buffer_size, size_t buffer_count) {
-	struct YASL_ByteBuffer bb = NEW_BB(8);
-
-	YASL_ByteBuffer_add_byte(&bb, '[');
+int list_tostr_helper(struct YASL_State *S, const struct Seen *seen) {
 	struct YASL_List *list = vm_peeklist((struct VM *) S);
+	struct YASL_ByteBuffer *bb = vm_pushbuffer(&S->vm);
+
+	YASL_ByteBuffer_add_byte(bb, '[');
 	if (list->count == 0) {
+		YASL_ByteBuffer_add_byte(bb, ']');
+		struct YASL_String *result = vm_popbuffer(&S->vm);
 		vm_pop((struct VM *) S);
-		YASL_ByteBuffer_add_byte(&bb, ']');
-		vm_push((struct VM *) S, YASL_STR(YASL_String_new_sized_heap(0, bb.count, (char *)bb.bytes)));
+		vm_pushstr((struct VM *) S, result);
 		return YASL_SUCCESS;
 	}
 
@@ -83,37 +84,37 @@ int list_tostr_helper(struct YASL_State *S, void **buffer, size_t buffer_size, s
 		vm_push((struct VM *) S, obj);
 
 		if (vm_islist((struct VM *) S)) {
-			bool found = buffer_contains(buffer, buffer_count, vm_peeklist((struct VM *) S));
+			bool found = seen_contains(seen, vm_peeklist((struct VM *) S));
 			if (found) {
-				YASL_ByteBuffer_extend(&bb, (unsigned char *)FOUND_LIST, strlen(FOUND_LIST));
+				YASL_ByteBuffer_extend(bb, (unsigned char *)FOUND_LIST, strlen(FOUND_LIST));
 				vm_pop((struct VM *) S);
 				continue;
 			} else {
-				rec_call(S, buffer, buffer_count, buffer_size, &list_tostr_helper);
+				rec_call(S, seen, &list_tostr_helper);
 			}
 		} else if (vm_istable((struct VM *) S)) {
-			bool found = buffer_contains(buffer, buffer_count, vm_peeklist((struct VM *) S));
+			bool found = seen_contains(seen, vm_peeklist((struct VM *) S));
 			if (found) {
-				YASL_ByteBuffer_extend(&bb, (unsigned char *)FOUND_TABLE, strlen(FOUND_TABLE));
+				YASL_ByteBuffer_extend(bb, (unsigned char *)FOUND_TABLE, strlen(FOUND_TABLE));
 				vm_pop((struct VM *) S);
 				continue;
 			} else {
-				rec_call(S, buffer, buffer_count, buffer_size, &table_tostr_helper);
+				rec_call(S, seen, &table_tostr_helper);
 			}
 		} else {
 			vm_stringify_top((struct VM *) S);
 		}
 
 		struct YASL_String *str = vm_popstr((struct VM *) S);
-		YASL_ByteBuffer_extend(&bb, (unsigned char *)YASL_String_chars(str), YASL_String_len(str));
-		YASL_ByteBuffer_extend(&bb, (unsigned char *)", ", strlen(", "));
+		YASL_ByteBuffer_extend(bb, (unsigned char *)YASL_String_chars(str), YASL_String_len(str));
+		YASL_ByteBuffer_extend(bb, (unsigned char *)", ", strlen(", "));
 	}
-	vm_pop((struct VM *) S);
-
-	bb.count -= 2;
-	YASL_ByteBuffer_add_byte(&bb, ']');
+	bb->count -= 2;
+	YASL_ByteBuffer_add_byte(bb, ']');
 
-	vm_push((struct VM *) S, YASL_STR(YASL_String_new_sized_heap(0, bb.count, (char *)bb.bytes)));
+	struct YASL_String *result = vm_popbuffer(&S->vm);
+	vm_pop((struct VM *) S);
+	vm_pushstr((struct VM *) S, result);
 
 	return YASL_SUCCESS;
 }
@@ -123,10 +124,8 @@ int list_tostr(struct YASL_State *S) {
 		YASLX_print_err_bad_arg_type(S, "list.tostr", 0, "list", YASL_peektypename(S));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
-	void **buffer = (void **) malloc(8 * sizeof(void *));
-	buffer[0] = vm_peeklist((struct VM *) S, S->vm.sp);
-	list_tostr_helper(S, buffer, 8, 1);
-	free(buffer);
+	const struct Seen seen = { vm_peeklist((struct VM *) S, S->vm.sp), NULL };
+	list_tostr_helper(S, &seen);
 	return 1;
 }
 
@@ -278,47 +277,23 @@ int list_join(struct YASL_State *S) {
 		return 1;
 	}
 
-	size_t buffer_count = 0;
-	size_t buffer_size = 8;
-	char *buffer = (char *) malloc(buffer_size);
-
-	vm_push((struct VM *)S, list->items[0]);
-	vm_stringify_top((struct VM *)S);
-	struct YASL_String *str = vm_popstr((struct VM *) S);
-
-	while (buffer_count + YASL_String_len(str) >= buffer_size) {
-		buffer_size *= 2;
-		buffer = (char *) realloc(buffer, buffer_size);
-	}
-
-	memcpy(buffer + buffer_count, YASL_String_chars(str), YASL_String_len(str));
-	buffer_count += YASL_String_len(str);
-
+	struct YASL_ByteBuffer *bb = vm_pushbuffer(&S->vm);
 
-	for (size_t i = 1; i < list->count; i++) {
-		while (buffer_count + YASL_String_len(string) >= buffer_size) {
-			buffer_size *= 2;
-			buffer = (char *) realloc(buffer, buffer_size);
+	for (size_t i = 0; i < list->count; i++) {
+		if (i > 0) {
+			YASL_ByteBuffer_extend(bb, (unsigned char *)YASL_String_chars(string), YASL_String_len(string));
 		}
 
-		memcpy(buffer + buffer_count, YASL_String_chars(string), YASL_String_len(string));
-		buffer_count += YASL_String_len(string);
-
 		vm_push((struct VM *) S, list->items[i]);
 		vm_stringify_top((struct VM *)S);
 		struct YASL_String *str = vm_popstr((struct VM *) S);
-
-		while (buffer_count + YASL_String_len(str) >= buffer_size) {
-			buffer_size *= 2;
-			buffer = (char *) realloc(buffer, buffer_size);
-		}
-
-		memcpy(buffer + buffer_count, YASL_String_chars(str), YASL_String_len(str));
-		buffer_count += YASL_String_len(str);
+		YASL_ByteBuffer_extend(bb, (unsigned char *)YASL_String_chars(str), YASL_String_len(str));
 	}
+
+	struct YASL_String *result = vm_popbuffer(&S->vm);
 	vm_pop((struct VM *) S);
 	vm_pop((struct VM *) S);
-	vm_pushstr((struct VM *) S, YASL_String_new_sized_heap(0, buffer_count, buffer));
+	vm_pushstr((struct VM *) S, result);
 	return 1;
 }
 
diff --git a/interpreter/list_methods.h b/interpreter/list_methods.h
index cbcf80b..d83e5c0 100644
--- a/interpreter/list_methods.h
+++ b/interpreter/list_methods.h
@@ -3,6 +3,12 @@
 
 struct YASL_State;
 
+// The collections that are being made into text, innermost first.
+struct Seen {
+	void *val;
+	const struct Seen *outer;
+};
+
 int list___len(struct YASL_State *S);
 
 int list___get(struct YASL_State *S);
diff --git a/interpreter/table_methods.c b/interpreter/table_methods.c
index a2726ad..be263c8 100644
--- a/interpreter/table_methods.c
+++ b/interpreter/table_methods.c
@@ -1,5 +1,6 @@
 #include "table_methods.h"
 
+#include "list_methods.h"
 #include "yasl.h"
 #include "yasl_aux.h"
 #include "yasl_error.h"
@@ -95,39 +96,35 @@ int table___eq(struct YASL_State *S) {
 	return 1;
 }
 
-int list_tostr_helper(struct YASL_State *S, void **buffer, size_t buffer_size, size_t buffer_count);
+int list_tostr_helper(struct YASL_State *S, const struct Seen *seen);
 
 #define FOUND_LIST "[...], "
 #define FOUND_TABLE "{...}, "
 
-bool buffer_contains(void **buffer, size_t buffer_count, void *val) {
-	for (size_t j = 0; j < buffer_count; j++) {
-		if (buffer[j] == val) {
+bool seen_contains(const struct Seen *seen, void *val) {
+	for (; seen; seen = seen->outer) {
+		if (seen->val == val) {
 			return true;
 		}
 	}
 	return false;
 }
 
-void rec_call(struct YASL_State *S, void **buffer, const size_t buffer_count, const size_t buffer_size, int (*f)(struct YASL_State *, void **, size_t, size_t)) {
-	size_t tmp_buffer_size =
-		buffer_count == buffer_size ? buffer_size * 2 : buffer_size;
-	void **tmp_buffer = (void **) malloc(tmp_buffer_size * sizeof(void *));
-	memcpy(tmp_buffer, buffer, sizeof(void *) * buffer_count);
-	tmp_buffer[buffer_count] = vm_peeklist((struct VM *) S);
-	f(S, tmp_buffer, tmp_buffer_size, buffer_count + 1);
-	free(tmp_buffer);
+void rec_call(struct YASL_State *S, const struct Seen *seen, int (*f)(struct YASL_State *, const struct Seen *)) {
+	const struct Seen inner = { vm_peeklist((struct VM *) S), seen };
+	f(S, &inner);
 }
 
-int table_tostr_helper(struct YASL_State *S, void **buffer, size_t buffer_size, size_t buffer_count) {
-	struct YASL_ByteBuffer bb = NEW_BB(8);
-
-	YASL_ByteBuffer_add_byte(&bb, '{');
+int table_tostr_helper(struct YASL_State *S, const struct Seen *seen) {
 	struct YASL_Table *table = vm_peektable((struct VM *) S);
+	struct YASL_ByteBuffer *bb = vm_pushbuffer(&S->vm);
+
+	YASL_ByteBuffer_add_byte(bb, '{');
 	if (table->count == 0) {
+		YASL_ByteBuffer_add_byte(bb, '}');
+		struct YASL_String *result = vm_popbuffer(&S->vm);
 		vm_pop((struct VM *) S);
-		YASL_ByteBuffer_add_byte(&bb, '}');
-		vm_push((struct VM *) S, YASL_STR(YASL_String_new_sized_heap(0, bb.count, (char *)bb.bytes)));
+		vm_pushstr((struct VM *) S, result);
 		return YASL_SUCCESS;
 	}
 
@@ -137,44 +134,44 @@ int table_tostr_helper(struct YASL_State *S, void **buffer, size_t buffer_size,
 		vm_stringify_top(&S->vm);
 
 		struct YASL_String *str = vm_popstr((struct VM *) S);
-		YASL_ByteBuffer_extend(&bb, (unsigned char *)YASL_String_chars(str), YASL_String_len(str));
-		YASL_ByteBuffer_extend(&bb, (unsigned char *)": ", strlen(": "));
+		YASL_ByteBuffer_extend(bb, (unsigned char *)YASL_String_chars(str), YASL_String_len(str));
+		YASL_ByteBuffer_extend(bb, (unsigned char *)": ", strlen(": "));
 
 		vm_push((struct VM *) S, item->value);
 
 		if (vm_islist((struct VM *) S)) {
-			bool found = buffer_contains(buffer, buffer_count, vm_peeklist((struct VM *) S));
+			bool found = seen_contains(seen, vm_peeklist((struct VM *) S));
 			if (found) {
-				YASL_ByteBuffer_extend(&bb, (unsigned char *)FOUND_LIST, strlen(FOUND_LIST));
+				YASL_ByteBuffer_extend(bb, (unsigned char *)FOUND_LIST, strlen(FOUND_LIST));
 				vm_pop((struct VM *) S);
 				continue;
 			} else {
-				rec_call(S, buffer, buffer_count, buffer_size, &list_tostr_helper);
+				rec_call(S, seen, &list_tostr_helper);
 			}
 		} else if (vm_istable((struct VM *) S, S->vm.sp)) {
-			bool found = buffer_contains(buffer, buffer_count, vm_peeklist((struct VM *) S));
+			bool found = seen_contains(seen, vm_peeklist((struct VM *) S));
 			if (found) {
-				YASL_ByteBuffer_extend(&bb, (unsigned char *)FOUND_TABLE, strlen(FOUND_TABLE));
+				YASL_ByteBuffer_extend(bb, (unsigned char *)FOUND_TABLE, strlen(FOUND_TABLE));
 				vm_pop((struct VM *) S);
 				continue;
 			} else {
-				rec_call(S, buffer, buffer_count, buffer_size, &table_tostr_helper);
+				rec_call(S, seen, &table_tostr_helper);
 			}
 		} else {
 			vm_stringify_top((struct VM *) S);
 		}
 
 		str = vm_popstr((struct VM *) S);
-		YASL_ByteBuffer_extend(&bb, (unsigned char *)YASL_String_chars(str), YASL_String_len(str));
-		YASL_ByteBuffer_extend(&bb, (unsigned char *)", ", strlen(", "));
+		YASL_ByteBuffer_extend(bb, (unsigned char *)YASL_String_chars(str), YASL_String_len(str));
+		YASL_ByteBuffer_extend(bb, (unsigned char *)", ", strlen(", "));
 	}
 
-	vm_pop((struct VM *) S);
+	bb->count -= 2;
+	YASL_ByteBuffer_add_byte(bb, '}');
 
-	bb.count -= 2;
-	YASL_ByteBuffer_add_byte(&bb, '}');
-
-	vm_push((struct VM *) S, YASL_STR(YASL_String_new_sized_heap(0, bb.count, (char *)bb.bytes)));
+	struct YASL_String *result = vm_popbuffer(&S->vm);
+	vm_pop((struct VM *) S);
+	vm_pushstr((struct VM *) S, result);
 
 	return YASL_SUCCESS;
 }
@@ -185,10 +182,8 @@ int table_tostr(struct YASL_State *S) {
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
 
-	void **buffer = (void **) malloc(8 * sizeof(void *));
-	buffer[0] = vm_peektable((struct VM *) S, S->vm.sp);
-	table_tostr_helper(S, buffer, 8, 1);
-	free(buffer);
+	const struct Seen seen = { vm_peektable((struct VM *) S, S->vm.sp), NULL };
+	table_tostr_helper(S, &seen);
 	return 1;
 }
 
diff --git a/std/yasl-std-collections.c b/std/yasl-std-collections.c
index 3b4a8d6..10ea721 100644
--- a/std/yasl-std-collections.c
+++ b/std/yasl-std-collections.c
@@ -101,41 +101,21 @@ static int YASL_collections_table_new(struct YASL_State *S) {
 static int YASL_collections_set_tostr(struct YASL_State *S) {
 	struct YASL_Set *set = YASLX_checknset(S, SET_PRE ".tostr", 0);
 
-	size_t string_count = 0;
-	size_t string_size = 8;
-	char *string = (char *)malloc(string_size);
-	string_count += strlen("set(");
-	memcpy(string, "set(", strlen("set("));
-	if (YASL_Set_length(set) == 0) {
-		string[string_count++] = ')';
-		YASL_pushlstr(S, string, string_count);
-		free(string);
-		return 1;
-	}
+	struct YASL_ByteBuffer *bb = vm_pushbuffer(&S->vm);
+	YASL_ByteBuffer_extend(bb, (unsigned char *)"set(", strlen("set("));
 	FOR_SET(i, item, set) {
 		vm_push((struct VM *)S, *item);
 		vm_stringify_top((struct VM *) S);
 		struct YASL_String *str = vm_popstr((struct VM *) S);
-		while (string_count + YASL_String_len(str) >= string_size) {
-			string_size *= 2;
-			string = (char *) realloc(string, string_size);
-		}
-
-		memcpy(string + string_count, str->str + str->start, YASL_String_len(str));
-		string_count += YASL_String_len(str);
-
-		if (string_count + 2 >= string_size) {
-			string_size *= 2;
-			string = (char *) realloc(string, string_size);
-		}
-
-		string[string_count++] = ',';
-		string[string_count++] = ' ';
+		YASL_ByteBuffer_extend(bb, (unsigned char *)YASL_String_chars(str), YASL_String_len(str));
+		YASL_ByteBuffer_extend(bb, (unsigned char *)", ", strlen(", "));
 	}
 
-	string_count -= 2;
-	string[string_count++] = ')';
-	vm_pushstr((struct VM *)S, YASL_String_new_sized_heap(0, string_count, string));
+	if (YASL_Set_length(set) > 0) {
+		bb->count -= 2;
+	}
+	YASL_ByteBuffer_add_byte(bb, ')');
+	vm_pushstr((struct VM *)S, vm_popbuffer(&S->vm));
 	return 1;
 }
 
-- 
2.43.0


From 061830d0257cf83be339bf4ddc43801380b23238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:43 +0000
Subject: [PATCH 62/77] fix: YASL_compile releases the code it doesn't run

---
 yasl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yasl.c b/yasl.c
index 8ecb5be..1d9b829 100644
--- a/yasl.c
+++ b/yasl.c
@@ -160,7 +160,7 @@ int YASL_execute_REPL(struct YASL_State *S) {
 }
 
 int YASL_compile(struct YASL_State *S) {
-	compile(&S->compiler);
+	free(compile(&S->compiler));
 	return S->compiler.status;
 }
 
-- 
2.43.0


From a642e85981174cd2af59ab626c42656ca9319f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:29 +0000
Subject: [PATCH 63/77] fix: scripts run from memory know __VERSION__ too

---
 yasl.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/yasl.c b/yasl.c
index 1d9b829..c5be21d 100644
--- a/yasl.c
+++ b/yasl.c
@@ -30,6 +30,12 @@ struct YASL_State *YASL_newstate_num(const char *filename, size_t num) {
 	return S;
 }
 
+static void declversion(struct YASL_State *S) {
+	YASL_declglobal(S, "__VERSION__");
+	YASL_pushlit(S, YASL_VERSION);
+	YASL_setglobal(S, "__VERSION__");
+}
+
 struct YASL_State *YASL_newstate(const char *filename) {
 	FILE *fp = fopen(filename, "r");
 	if (!fp) {
@@ -47,10 +53,7 @@ struct YASL_State *YASL_newstate(const char *filename) {
 	S->compiler.num = 0;
 
 	vm_init((struct VM *) S, NULL, -1, 1);
-
-	YASL_declglobal(S, "__VERSION__");
-	YASL_pushlit(S, YASL_VERSION);
-	YASL_setglobal(S, "__VERSION__");
+	declversion(S);
 
 	return S;
 }
@@ -107,6 +110,8 @@ struct YASL_State *YASL_newstate_bb(const char *buf, size_t len) {
 	S->compiler.num = 0;
 
 	vm_init((struct VM *) S, NULL, -1, 1);
+	declversion(S);
+
 	return S;
 }
 
-- 
2.43.0


From 45fd8d7c49c596c4cf0221aa3fcdf9afc7632462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:30 +0000
Subject: [PATCH 64/77] fix: -C accepts scripts that use args

---
 main.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/main.c b/main.c
index 52a4d83..858bba5 100644
--- a/main.c
+++ b/main.c
@@ -79,14 +79,10 @@ static int main_compile(int argc, char **argv) {
 	// Load Standard Libraries
 	YASLX_decllibs(S);
 
-	int status = YASL_compile(S);
+	// Scripts that use the command line arguments can be checked too.
 	YASL_declglobal(S, "args");
-	YASL_pushlist(S);
-	for (int i = 1; i < argc; i++) {
-		YASL_pushlit(S, argv[i]);
-		YASL_listpush(S);
-	}
-	YASL_setglobal(S, "args");
+
+	int status = YASL_compile(S);
 
 	YASL_delstate(S);
 
-- 
2.43.0


From 4d0eb1102053d90ea4b71152f1fc2e0c37efaddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:07 +0000
Subject: [PATCH 65/77] fix: forget the declarations of a REPL input that it
 didn't get to

---
 compiler/env.c | 13 +++++++++++++
 compiler/env.h |  5 +++++
 yasl.c         | 14 +++++++++++---
 3 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/compiler/env.c b/compiler/env.c
index 58c0e69..4865b26 100644
--- a/compiler/env.c
+++ b/compiler/env.c
@@ -233,3 +233,16 @@ void scope_make_const(struct Scope *const scope, const char *const name) {
 	struct YASL_Table *ht = get_closest_scope_with_var(scope, name, name_len);
 	YASL_Table_insert_string_int(ht, name, name_len, ~YASL_Table_search_string_int(ht, name, name_len).value.ival);
 }
+
+void scope_forget(struct Scope *const scope, const int64_t from, const int64_t to, const struct YASL_Table *const keep) {
+	for (size_t i = 0; i < scope->vars.size; i++) {
+		const struct YASL_Table_Item item = scope->vars.items[i];
+		if (item.key.type == Y_END || item.key.type == Y_UNDEF) continue;
+		const int64_t index = get_index(item.value.value.ival);
+		if (index < from || index >= to || YASL_Table_search(keep, item.key).type != Y_END) continue;
+
+		const size_t size = scope->vars.size;
+		YASL_Table_rm(&scope->vars, item.key);
+		if (size != scope->vars.size) i = (size_t)-1;  // everything moved, so start again.
+	}
+}
diff --git a/compiler/env.h b/compiler/env.h
index 06d69ac..19d5f9d 100644
--- a/compiler/env.h
+++ b/compiler/env.h
@@ -31,6 +31,11 @@ bool scope_used_in_closure(const struct Scope *const scope);
 void scope_mark_captured(struct Scope *const scope, const char *const name);
 void scope_make_const(struct Scope *const scope, const char *const name);
 
+/*
+ * Removes the variables with index at least `from` and less than `to`, except for those that are keys of `keep`.
+ */
+void scope_forget(struct Scope *const scope, const int64_t from, const int64_t to, const struct YASL_Table *const keep);
+
 bool env_contains(const struct Env *env, const char *const name);
 bool env_contains_cur_only(const struct Env *const env, const char *const name);
 struct Env *env_new(struct Env *const env);
diff --git a/yasl.c b/yasl.c
index c5be21d..12978e0 100644
--- a/yasl.c
+++ b/yasl.c
@@ -156,12 +156,20 @@ static void load_bytecode(struct YASL_State *S, unsigned char *bc) {
 }
 
 int YASL_execute_REPL(struct YASL_State *S) {
+	const int64_t before = (int64_t)scope_len(S->compiler.globals);
 	unsigned char *bc = compile_REPL(&S->compiler);
-	if (!bc) return S->compiler.status;
+	const int64_t after = (int64_t)scope_len(S->compiler.globals);
 
-	load_bytecode(S, bc);
+	int status = S->compiler.status;
+	if (bc) {
+		load_bytecode(S, bc);
+		status = vm_run((struct VM *)S);  // TODO: error handling for runtime errors.
+	}
+
+	// Declarations that didn't get to run don't count, so that they can be entered again.
+	if (status != YASL_SUCCESS) scope_forget(S->compiler.globals, before, after, S->vm.globals);
 
-	return vm_run((struct VM *)S);  // TODO: error handling for runtime errors.
+	return status;
 }
 
 int YASL_compile(struct YASL_State *S) {
-- 
2.43.0


From bacb93da10b59d400847a838e8f68838193d0210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:02 +0000
Subject: [PATCH 66/77] fix: read pipes, directories and files that can't be
 read without crashing

---
 std/yasl-std-io.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/std/yasl-std-io.c b/std/yasl-std-io.c
index 32e56cb..257ff3f 100644
--- a/std/yasl-std-io.c
+++ b/std/yasl-std-io.c
@@ -143,15 +143,22 @@ static int YASL_io_read(struct YASL_State *S) {
 
 	switch (mode_str[0]) {
 	case 'a': {
-		fseek(f, 0, SEEK_END);
-		size_t fsize = ftell(f);
+		// All of the file, or what's left if it isn't one we can move around in.
 		fseek(f, 0, SEEK_SET);
 
-		char *string = (char *) malloc(fsize);
-		int result = fread(string, fsize, 1, f);
-		(void) result;
-		// TODO clean this up.
-		YASL_pushlstr(S, string, fsize);
+		size_t size = BUFSIZ;
+		char *string = (char *)malloc(size);
+		size_t len = 0;
+		size_t n;
+
+		while ((n = fread(string + len, 1, size - len, f)) > 0) {
+			len += n;
+			if (len == size) {
+				size *= 2;
+				string = (char *)realloc(string, size);
+			}
+		}
+		YASL_pushlstr(S, string, len);
 		free(string);
 		return 1;
 	}
-- 
2.43.0


From 50650a8e83e0751ca4f96f3d98e26d6faf3b1965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:40 +0000
Subject: [PATCH 67/77] fix: math.max and math.min compare ints as ints, and
 check all of their arguments

---
 std/yasl-std-math.c | 76 ++++++++++++++-------------------------------
 1 file changed, 24 insertions(+), 52 deletions(-)

diff --git a/std/yasl-std-math.c b/std/yasl-std-math.c
index d73bc76..7d26142 100644
--- a/std/yasl-std-math.c
+++ b/std/yasl-std-math.c
@@ -85,69 +85,41 @@ DEFINE_MATH_UN_FLOAT_FUN(atan);
 DEFINE_MATH_UN_FLOAT_FUN(ceil);
 DEFINE_MATH_UN_FLOAT_FUN(floor);
 
-static int YASL_math_max(struct YASL_State *S) {
-	struct YASL_Object max = YASL_FLOAT(-YASL_INF);
+// Compares ints as ints, since not all of them can be represented as floats.
+static bool num_ge(const struct YASL_Object *const a, const struct YASL_Object *const b) {
+	if (obj_isint(a) && obj_isint(b)) return obj_getint(a) >= obj_getint(b);
+	return obj_getnum(a) >= obj_getnum(b);
+}
+
+// `sign` is 1 for max and -1 for min.
+static int minmax(struct YASL_State *S, const char *const name, const int sign) {
+	struct YASL_Object best = YASL_FLOAT(-sign * YASL_INF);
+	bool isnan = false;
 
 	yasl_int num_va_args = YASL_peekvargscount(S);
-	if (num_va_args == 0) {
-		YASL_pushfloat(S, -YASL_INF);
-		return 1;
-	}
 
 	for (yasl_int i = 0; i < num_va_args; i++) {
-		if (vm_isint((struct VM *)S)) {
-			yasl_int top = vm_popint((struct VM *)S);
-			if ((top >= obj_getnum(&max))) {
-				max = YASL_INT(top);
-			}
-		} else if (vm_isfloat((struct VM *)S)) {
-			yasl_float top = vm_popfloat((struct VM *)S);
-			if (top != top) {
-				YASL_pushfloat(S, YASL_NAN);
-				return 1;
-			}
-			if ((top >= obj_getnum(&max))) {
-				max = YASL_FLOAT(top);
-			}
-		} else {
-			vm_print_err_bad_arg_type_name((struct VM*)S, "math.max", (int)(num_va_args - i - 1), YASL_FLOAT_NAME, YASL_peektypename(S));
+		if (!YASL_isnum(S)) {
+			vm_print_err_bad_arg_type_name((struct VM*)S, name, (int)(num_va_args - i - 1), YASL_FLOAT_NAME, YASL_peektypename(S));
 			YASL_throw_err(S, YASL_TYPE_ERROR);
 		}
+		struct YASL_Object top = vm_pop((struct VM *)S);
+		if (obj_isfloat(&top) && obj_getfloat(&top) != obj_getfloat(&top)) {
+			isnan = true;
+		} else if (sign > 0 ? num_ge(&top, &best) : num_ge(&best, &top)) {
+			best = top;
+		}
 	}
-	vm_push((struct VM *)S, max);
+	vm_push((struct VM *)S, isnan ? YASL_FLOAT(YASL_NAN) : best);
 	return 1;
 }
-static int YASL_math_min(struct YASL_State *S) {
-	struct YASL_Object max = YASL_FLOAT(YASL_INF);
 
-	yasl_int num_va_args = YASL_peekvargscount(S);
-	if (num_va_args == 0) {
-		YASL_pushfloat(S, YASL_INF);
-		return 1;
-	}
+static int YASL_math_max(struct YASL_State *S) {
+	return minmax(S, "math.max", 1);
+}
 
-	for (yasl_int i = 0; i < num_va_args; i++) {
-		if (vm_isint((struct VM *)S)) {
-			yasl_int top = vm_popint((struct VM *)S);
-			if ((top <= obj_getnum(&max))) {
-				max = YASL_INT(top);
-			}
-		} else if (vm_isfloat((struct VM *)S)) {
-			yasl_float top = vm_popfloat((struct VM *)S);
-			if (top != top) {
-				YASL_pushfloat(S, YASL_NAN);
-				return 1;
-			}
-			if ((top <= obj_getnum(&max))) {
-				max = YASL_FLOAT(top);
-			}
-		} else {
-			vm_print_err_bad_arg_type_name((struct VM*)S,"math.min", (int)(num_va_args - i - 1), YASL_FLOAT_NAME, YASL_peektypename(S));
-			YASL_throw_err(S, YASL_TYPE_ERROR);
-		}
-	}
-	vm_push((struct VM *)S, max);
-	return 1;
+static int YASL_math_min(struct YASL_State *S) {
+	return minmax(S, "math.min", -1);
 }
 
 static int YASL_math_deg(struct YASL_State *S) {
-- 
2.43.0


From 63e2eb8ea93ffb4dbbcf5c97fd10f8b1df42423b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:40 +0000
Subject: [PATCH 68/77] fix: math.abs(-0.0) is 0.0

---
 std/yasl-std-math.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/std/yasl-std-math.c b/std/yasl-std-math.c
index 7d26142..489dc32 100644
--- a/std/yasl-std-math.c
+++ b/std/yasl-std-math.c
@@ -57,9 +57,7 @@ static int YASL_math_abs(struct YASL_State *S) {
 	}
 
 	if (YASL_isfloat(S)) {
-		yasl_float f = YASL_popfloat(S);
-		if (f < 0) f = -f;
-		YASL_pushfloat(S, f);
+		YASL_pushfloat(S, fabs(YASL_popfloat(S)));
 		return 1;
 	}
 
-- 
2.43.0


From fd1709810db298612497e5c97917b235ef9c2a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:40 +0000
Subject: [PATCH 69/77] fix: math.lcm doesn't overflow unless its result does

---
 std/yasl-std-math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/yasl-std-math.c b/std/yasl-std-math.c
index 489dc32..b6501c1 100644
--- a/std/yasl-std-math.c
+++ b/std/yasl-std-math.c
@@ -230,7 +230,7 @@ static int YASL_math_lcm(struct YASL_State *S) {
 		YASL_pushundef(S);
 	} else {
 		yasl_int gcd = gcd_helper(a, b);
-		YASL_pushint(S, b*a/gcd);
+		YASL_pushint(S, a / gcd * b);
 	}
 	return 1;
 }
-- 
2.43.0


From 004e596d2994f3adaae425586e37b01454f4d64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:28 +0000
Subject: [PATCH 70/77] fix: no negative number is prime

---
 std/yasl-std-math.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/std/yasl-std-math.c b/std/yasl-std-math.c
index b6501c1..fde9316 100644
--- a/std/yasl-std-math.c
+++ b/std/yasl-std-math.c
@@ -148,9 +148,7 @@ static int YASL_math_isprime(struct YASL_State *S) {
 		n = (yasl_int)YASL_popfloat(S);
 	}
 
-	int p = is_prime(n);
-	if (p < 0) YASL_pushundef(S);
-	else YASL_pushbool(S, (bool)p);
+	YASL_pushbool(S, n > 0 && is_prime(n));
 	return 1;
 }
 yasl_int gcd_helper(yasl_int a, yasl_int b) {
-- 
2.43.0


From cafdc567c7b09417d45c6f3125b6e2fc50461362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:40 +0000
Subject: [PATCH 71/77] fix: a required module doesn't undo changes to the
 libraries, and one that fails leaves nothing behind

---
 std/yasl-std-require.c | 58 ++++++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 22 deletions(-)

diff --git a/std/yasl-std-require.c b/std/yasl-std-require.c
index 37f004a..6da3dd1 100644
--- a/std/yasl-std-require.c
+++ b/std/yasl-std-require.c
@@ -36,7 +36,7 @@ static struct YASL_State *open_on_path(const char *path, const char *name, const
 
 int YASL_require(struct YASL_State *S) {
 	if (!YASL_isstr(S)) {
-		// TODO error message
+		YASLX_print_err_bad_arg_type(S, "require", 0, YASL_STR_NAME, YASL_peektypename(S));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
 
@@ -47,64 +47,78 @@ int YASL_require(struct YASL_State *S) {
 
 	if (!Ss) {
 		YASL_print_err(S, "could not open package %s.", mode_str);
+		free(mode_str);
 		YASL_throw_err(S, YASL_ERROR);
 	}
 
+	free(mode_str);
+
 	YASL_Table_del(Ss->compiler.strings);
 	Ss->compiler.strings = S->compiler.strings;
 	YASL_ByteBuffer_del(Ss->compiler.header);
 	Ss->compiler.header = S->compiler.header;
-	YASL_Table_del(Ss->vm.globals);
-	Ss->vm.globals = S->vm.globals;
-	// Ss->vm.constants = S->vm.constants;
 
 	// Load Standard Libraries
 	YASLX_decllibs(Ss);
 
+	// The importing program might have changed its libraries, so it only gets those it doesn't have.
+	FOR_TABLE(i, item, Ss->vm.globals) {
+		if (YASL_Table_search(S->vm.globals, item->key).type == Y_END) {
+			YASL_Table_insert_fast(S->vm.globals, item->key, item->value);
+		}
+	}
+	YASL_Table_del(Ss->vm.globals);
+	Ss->vm.globals = S->vm.globals;
+
 	YASL_Table_del(Ss->vm.metatables);
 	Ss->vm.metatables = S->vm.metatables;
 
 	int status = YASL_execute(Ss);
 
-	if (status != YASL_MODULE_SUCCESS) {
-		puts("Not a valid module");
-		YASL_throw_err(S, YASL_ERROR);
+	struct YASL_Object exported = YASL_UNDEF();
+	if (status == YASL_MODULE_SUCCESS) {
+		exported = vm_peek(&Ss->vm);
 	}
+	inc_ref(&exported);
 
-	inc_ref(&vm_peek(&Ss->vm));
-	struct YASL_Object exported = vm_pop(&Ss->vm);
-
-	vm_pushundef(&Ss->vm);
-
+	// Even if it failed, the module might have left functions in something shared, which need its code.
 	size_t old_headers_size = S->vm.headers_size;
 	size_t new_headers_size = Ss->vm.headers_size;
 	S->vm.headers = (unsigned char **) realloc(S->vm.headers, new_headers_size * sizeof(unsigned char *));
+	S->vm.headers_size = new_headers_size;
 	for (size_t i = old_headers_size; i < new_headers_size; i++) {
 		S->vm.headers[i] = Ss->vm.headers[i];
 		Ss->vm.headers[i] = NULL;
 	}
 
+	// The module's constants start with those of the importing program. (It has none if it didn't compile.)
+	if (Ss->vm.constants) {
+		for (int64_t i = 0; i < S->vm.num_constants; i++) {
+			dec_ref(S->vm.constants + i);
+		}
+		free(S->vm.constants);
+		S->vm.constants = Ss->vm.constants;
+		S->vm.num_constants = Ss->vm.num_constants;
+		Ss->vm.constants = NULL;
+		Ss->vm.num_constants = 0;
+	}
+
 	Ss->vm.globals = NULL;
 	Ss->vm.metatables = NULL;
-
 	Ss->vm.code = NULL;
 	Ss->compiler.strings = NULL;
 	Ss->compiler.header = YASL_ByteBuffer_new(0);
-	for (int i = 0; i < S->vm.num_constants; i++) {
-		dec_ref(S->vm.constants + i);
-	}
-	free(S->vm.constants);
-	S->vm.constants = Ss->vm.constants;
-	S->vm.num_constants = Ss->vm.num_constants;
-	Ss->vm.constants = NULL;
-	Ss->vm.num_constants = 0;
 
 	YASL_delstate(Ss);
 
+	if (status != YASL_MODULE_SUCCESS) {
+		puts("Not a valid module");
+		YASL_throw_err(S, YASL_ERROR);
+	}
+
 	vm_push(&S->vm, exported);
 	dec_ref(&vm_peek(&S->vm));
 
-	free(mode_str);
 	return 1;
 }
 
-- 
2.43.0


From 973aa153f5e1b61f7706f8da0093ba5a6766f83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:40 +0000
Subject: [PATCH 72/77] fix: modules that require each other run out of depth,
 not of the stack

---
 interpreter/VM.c       | 1 +
 interpreter/VM.h       | 2 ++
 std/yasl-std-require.c | 6 ++++++
 3 files changed, 9 insertions(+)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 48fc1f8..d11629c 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -48,6 +48,7 @@ void vm_init(struct VM *const vm,
 	vm->code = code;
 	vm->headers = (unsigned char **)calloc(sizeof(unsigned char *), datasize);
 	vm->headers_size = datasize;
+	vm->module_depth = 0;
 	vm->frame_num = -1;
 	vm->loopframe_num = -1;
 	vm->out = NEW_IO(stdout);
diff --git a/interpreter/VM.h b/interpreter/VM.h
index 6dc35e3..59d2b2c 100644
--- a/interpreter/VM.h
+++ b/interpreter/VM.h
@@ -16,6 +16,7 @@
 
 
 #define NUM_FRAMES 1000
+#define NUM_MODULES 200
 #define NUM_TYPES 16                                     // number of builtin types, each needs a vtable
 #define SCRATCH_SIZE 1024								// scratchspace size (needs tuning)
 
@@ -106,6 +107,7 @@ struct VM {
 	unsigned char *code;           // bytecode
 	unsigned char **headers;
 	size_t headers_size;
+	int module_depth;              // how many programs are waiting for this one, which they require
 	unsigned char *pc;                     // program counter
 	int sp;                        // stack pointer
 	int fp;                        // frame pointer
diff --git a/std/yasl-std-require.c b/std/yasl-std-require.c
index 6da3dd1..97dc014 100644
--- a/std/yasl-std-require.c
+++ b/std/yasl-std-require.c
@@ -40,6 +40,11 @@ int YASL_require(struct YASL_State *S) {
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
 
+	if (S->vm.module_depth + 1 >= NUM_MODULES) {
+		YASL_print_err(S, "StackOverflow.");
+		YASL_throw_err(S, YASL_STACK_OVERFLOW_ERROR);
+	}
+
 	char *mode_str = YASL_peekcstr(S);
 	YASL_pop(S);
 
@@ -52,6 +57,7 @@ int YASL_require(struct YASL_State *S) {
 	}
 
 	free(mode_str);
+	Ss->vm.module_depth = S->vm.module_depth + 1;
 
 	YASL_Table_del(Ss->compiler.strings);
 	Ss->compiler.strings = S->compiler.strings;
-- 
2.43.0


From 0cc018950631e7adc967a540285431194838a412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:23 +0000
Subject: [PATCH 73/77] fix: calls that give values to more than 127 variables

---
 compiler/compiler.c |  6 ++++++
 interpreter/VM.c    | 10 ++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index 21642e1..fcf82cc 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -467,6 +467,12 @@ static void visit_FnDecl(struct Compiler *const compiler, const struct Node *con
 
 static void visit_VariadicContext(struct Compiler *const compiler, const struct Node *const node) {
 	const struct Node *const expr = node->children[0];
+	// The number of results has to fit into a single byte, 255 stands for any number of them.
+	if (node->value.ival >= 255) {
+		compiler_print_err_syntax(compiler, "Too many values expected from call (line %" PRI_SIZET ").\n", node->line);
+		handle_error(compiler);
+		return;
+	}
 	int old_returns = compiler->expected_returns;
 	// Only the call itself is in this context, not the calls it is built from, e.g., its arguments.
 	compiler->expected_returns = expr->nodetype == N_CALL || expr->nodetype == N_MCALL ? (int)node->value.ival : 1;
diff --git a/interpreter/VM.c b/interpreter/VM.c
index d11629c..fc37d41 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -341,6 +341,12 @@ void vm_rm_range(struct VM *const vm, int start, int end) {
 	vm->sp -= len;
 }
 
+// The number of values that's expected from a call, or -1 for all of them.
+static int vm_read_returns(struct VM *const vm) {
+	const unsigned char returns = NCODE(vm);
+	return returns == 255 ? -1 : returns;
+}
+
 static yasl_int vm_read_int(struct VM *const vm) {
     yasl_int val;
     memcpy(&val, vm->pc, sizeof(yasl_int));
@@ -1273,7 +1279,7 @@ static void vm_swaptop(struct VM *const vm) {
 }
 
 static void vm_INIT_MC(struct VM *const vm) {
-	int expected_returns = (signed char)NCODE(vm);
+	int expected_returns = vm_read_returns(vm);
 	vm_duptop(vm);
 	yasl_int addr = vm_read_int(vm);
 	vm_GET_helper(vm, vm->constants[addr]);
@@ -1682,7 +1688,7 @@ void vm_executenext(struct VM *const vm) {
 		vm_INIT_MC(vm);
 		break;
 	case O_INIT_CALL:
-		vm_INIT_CALL(vm, (signed char)NCODE(vm));
+		vm_INIT_CALL(vm, vm_read_returns(vm));
 		break;
 	case O_CALL:
 		vm_CALL(vm);
-- 
2.43.0


From 24e26db6dde764356cfcac260dfaf0786af97374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:37 +0000
Subject: [PATCH 74/77] fix: comprehensions work with temporaries on the stack

---
 compiler/compiler.c |  8 ++++++
 compiler/compiler.h |  1 +
 interpreter/VM.c    | 59 ++++++++++++++++++++++++++++++++++++---------
 interpreter/VM.h    |  1 +
 opcode.h            |  1 +
 5 files changed, 59 insertions(+), 11 deletions(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index fcf82cc..b34d292 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -592,6 +592,7 @@ static void visit_Comp_cond(struct Compiler *const compiler, const struct Node *
 }
 
 static void visit_Comp(struct Compiler *const compiler, const struct Node *const node, unsigned char byte) {
+	const bool temporaries = node != compiler->echoed;
 	enter_scope(compiler);
 
 	struct Node *expr = Comp_get_expr(node);
@@ -605,6 +606,11 @@ static void visit_Comp(struct Compiler *const compiler, const struct Node *const
 	visit(compiler, collection);
 
 	compiler_add_byte(compiler, O_INITFOR);
+	if (temporaries) {
+		// The loop variable has to come right after the other locals.
+		compiler_add_byte(compiler, O_INITCOMP);
+		compiler_add_byte(compiler, (unsigned char) scope_len(get_scope_in_use(compiler)));
+	}
 	compiler_add_byte(compiler, O_END);
 	decl_var(compiler, name, iter->line);
 	compiler_add_byte(compiler, O_END);
@@ -1158,7 +1164,9 @@ static void visit_If(struct Compiler *const compiler, const struct Node *const n
 }
 
 static void visit_Echo(struct Compiler *const compiler, const struct Node *const node) {
+	compiler->echoed = Echo_get_expr(node);
 	visit(compiler, Echo_get_expr(node));
+	compiler->echoed = NULL;
 	compiler_add_byte(compiler, O_ECHO);
 	compiler_add_byte(compiler, (char)scope_len(get_scope_in_use(compiler)));
 }
diff --git a/compiler/compiler.h b/compiler/compiler.h
index d2dbd91..43c962e 100644
--- a/compiler/compiler.h
+++ b/compiler/compiler.h
@@ -48,6 +48,7 @@ struct Compiler {
 	struct Env *params;
 	int expected_returns;
 	bool leftmost_pattern;
+	const struct Node *echoed;         // expression to be echoed: no temporaries on the stack
 	struct YASL_Table seen_bindings;
 	struct YASL_Table *strings;
 	struct YASL_ByteBuffer *buffer;    // temporary buffer during code-gen
diff --git a/interpreter/VM.c b/interpreter/VM.c
index fc37d41..dc2a2e9 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -78,14 +78,19 @@ void vm_init(struct VM *const vm,
 
 void vm_close_all(struct VM *const vm);
 
+static void vm_exitloop(struct VM *const vm) {
+	dec_ref(&vm->loopframes[vm->loopframe_num].iterable);
+	dec_ref(&vm->loopframes[vm->loopframe_num].temporaries);
+	vm->loopframe_num--;
+}
+
 void vm_cleanup(struct VM *const vm) {
 	// If we've exited early somehow, without closing over some upvalues, we need to do that first.
 	vm_close_all(vm);
 
 	// Exit out of all loops (in case we're exiting with an error).
 	while (vm->loopframe_num >= 0) {
-		dec_ref(&vm->loopframes[vm->loopframe_num].iterable);
-		vm->loopframe_num--;
+		vm_exitloop(vm);
 	}
 
 	for (size_t i = 0; i < STACK_SIZE; i++) {
@@ -939,6 +944,39 @@ static void vm_LIT8(struct VM *const vm) {
 	vm_push(vm, vm->constants[addr]);
 }
 
+static void vm_INITCOMP(struct VM *const vm) {
+	const int first = vm->fp + 1 + NCODE(vm);
+	if (vm->sp < first) return;
+
+	struct RC_UserData *temporaries = rcls_new();
+	for (int i = first; i <= vm->sp; i++) {
+		YASL_List_append((struct YASL_List *) temporaries->data, vm_peek(vm, i));
+	}
+	vm->sp = first - 1;
+
+	struct YASL_Object *const aside = &vm->loopframes[vm->loopframe_num].temporaries;
+	*aside = YASL_LIST(temporaries);
+	inc_ref(aside);
+}
+
+static void vm_ENDCOMP(struct VM *const vm) {
+	struct YASL_Object result = vm_pop(vm);
+	inc_ref(&result);
+	vm_pop(vm);
+
+	const struct YASL_Object aside = vm->loopframes[vm->loopframe_num].temporaries;
+	if (aside.type == Y_LIST) {
+		struct YASL_List *const temporaries = YASL_GETLIST(aside);
+		for (size_t i = 0; i < temporaries->count; i++) {
+			vm_push(vm, temporaries->items[i]);
+		}
+	}
+
+	vm_push(vm, result);
+	dec_ref(&result);
+	vm_exitloop(vm);
+}
+
 static void vm_ITER_1(struct VM *const vm) {
 	struct LoopFrame *frame = &vm->loopframes[vm->loopframe_num];
 	switch (frame->iterable.type) {
@@ -1240,7 +1278,7 @@ static void vm_exitframe_multi(struct VM *const vm, int len) {
 	vm->fp = frame.prev_fp;
 	vm->next_fp = frame.curr_fp;
 	while (vm->loopframe_num > frame.lp) {
-		dec_ref(&vm->loopframes[vm->loopframe_num--].iterable);
+		vm_exitloop(vm);
 	}
 
 	vm->frame_num--;
@@ -1608,17 +1646,16 @@ void vm_executenext(struct VM *const vm) {
 		vm->loopframe_num++;
 		vm->loopframes[vm->loopframe_num].iter = 0;
 		vm->loopframes[vm->loopframe_num].iterable = vm_pop(vm);
+		vm->loopframes[vm->loopframe_num].temporaries = YASL_UNDEF();
 		break;
 	case O_ENDFOR:
-		dec_ref(&vm->loopframes[vm->loopframe_num].iterable);
-		vm->loopframe_num--;
+		vm_exitloop(vm);
+		break;
+	case O_INITCOMP:
+		vm_INITCOMP(vm);
 		break;
 	case O_ENDCOMP:
-		a = vm_pop(vm);
-		vm_pop(vm);
-		vm_push(vm, a);
-		dec_ref(&vm->loopframes[vm->loopframe_num].iterable);
-		vm->loopframe_num--;
+		vm_ENDCOMP(vm);
 		break;
 	case O_ITER_1:
 		vm_ITER_1(vm);
@@ -1755,7 +1792,7 @@ int vm_run(struct VM *const vm) {
 		if (vm->status != YASL_MODULE_SUCCESS) {
 			vm_close_from(vm, sp + 1);
 			while (vm->loopframe_num > loopframe_num) {
-				dec_ref(&vm->loopframes[vm->loopframe_num--].iterable);
+				vm_exitloop(vm);
 			}
 			vm->sp = sp;
 			vm->next_fp = next_fp;
diff --git a/interpreter/VM.h b/interpreter/VM.h
index 59d2b2c..8610fd9 100644
--- a/interpreter/VM.h
+++ b/interpreter/VM.h
@@ -90,6 +90,7 @@ struct CallFrame {
 struct LoopFrame {
 	int iter;
 	struct YASL_Object iterable;
+	struct YASL_Object temporaries;  // list of what a comprehension put aside, if anything
 };
 
 struct VM {
diff --git a/opcode.h b/opcode.h
index 4dfb8ee..bf1a552 100644
--- a/opcode.h
+++ b/opcode.h
@@ -72,6 +72,7 @@ enum Opcode {
 	O_ENDCOMP = 0xD1, // end list / table comprehension
 	O_ENDFOR = 0xD2, // end for-loop in VM
 	O_ITER_1 = 0xD3, // iterate to next, 1 var
+	O_INITCOMP = 0xD4, // puts temporaries aside until the comprehension ends. Takes a one-byte index, indicating where they start.
 
 	O_INIT_MC = 0xE7,
 	O_INIT_CALL = 0xE8, // set up function call
-- 
2.43.0


From fababc3fa643cbf4210ff3dfe44801575f8fc954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:25 +0000
Subject: [PATCH 75/77] fix: a match without a pattern that matches drops its
 value

---
 interpreter/VM.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index dc2a2e9..2512de4 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1223,6 +1223,8 @@ static void vm_MATCH_IF(struct VM *const vm) {
 	unsigned char *start = vm->pc;
 	if (!vm_MATCH_pattern(vm, &expr)) {
 		vm->pc = start + addr;
+		// The next pattern needs the value, but there might be no more patterns.
+		if (*vm->pc != O_MATCH) vm_pop(vm);
 	}
 }
 
-- 
2.43.0


From 51d68d1e9d8e43e7758abf9a484ab7e72429f639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:37 +0000
Subject: [PATCH 76/77] fix: int powers that fit an int are exact

---
 interpreter/VM.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 2512de4..788c9e8 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -449,8 +449,23 @@ NUM_BINOP(add, +)
 NUM_BINOP(sub, -)
 NUM_BINOP(mul, *)
 
+// `right` is never negative. Results that aren't ints become the smallest one.
 static yasl_int int_pow(yasl_int left, yasl_int right) {
-    return (yasl_int)pow((double)left, (double)right);
+	const bool negative = left < 0 && right % 2;
+	const uint64_t limit = (uint64_t)INT64_MAX + negative;
+	uint64_t base = left < 0 ? 0 - (uint64_t)left : (uint64_t)left;
+	uint64_t result = 1;
+	while (right > 0) {
+		if (right % 2) {
+			if (base && result > limit / base) return INT64_MIN;
+			result *= base;
+		}
+		right /= 2;
+		if (right == 0) break;
+		if (base > UINT32_MAX) return INT64_MIN;
+		base *= base;
+	}
+	return (yasl_int)(negative ? 0 - result : result);
 }
 
 static void vm_num_binop(struct VM *const vm, int_binop int_op, float_binop float_op,
-- 
2.43.0


From d910540d461556f7c065c51e781877311bff94f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:34 +0000
Subject: [PATCH 77/77] fix: reject the name of a type as a key in table
 patterns

---
 compiler/parser.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index 485cebc..93ecb33 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -659,6 +659,15 @@ static struct Node *parse_primitivepattern(struct Parser *const parser) {
 	}
 }
 
+// The keys of a table pattern are values, there's nothing to look up for the name of a type.
+static struct Node *parse_keypattern(struct Parser *const parser) {
+	if (curtok(parser) == T_ID) {
+		parser_print_err_syntax(parser, "Invalid key in table pattern: %s (line %" PRI_SIZET ").\n", parser->lex.value, parserline(parser));
+		handle_error(parser);
+	}
+	return parse_primitivepattern(parser);
+}
+
 static struct Node *parse_patternsingle(struct Parser *const parser) {
 	size_t line = parserline(parser);
 	struct Node *n;
@@ -695,7 +704,7 @@ static struct Node *parse_patternsingle(struct Parser *const parser) {
 		if (matcheattok(parser, T_TDOT)) {
 			n->nodetype = N_PATVTABLE;
 		} else if (curtok(parser) != T_RBRC) {
-			body_append(parser, &n, parse_primitivepattern(parser));
+			body_append(parser, &n, parse_keypattern(parser));
 			eattok(parser, T_COLON);
 			body_append(parser, &n, parse_pattern(parser));
 			eatnewlines(parser);
@@ -705,7 +714,7 @@ static struct Node *parse_patternsingle(struct Parser *const parser) {
 					n->nodetype = N_PATVTABLE;
 					break;
 				}
-				body_append(parser, &n, parse_primitivepattern(parser));
+				body_append(parser, &n, parse_keypattern(parser));
 				eattok(parser, T_COLON);
 				body_append(parser, &n, parse_pattern(parser));
 			}
-- 
2.43.0

