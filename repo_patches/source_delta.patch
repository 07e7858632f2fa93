From b1302d0cac8cd743eab31ead0c57fa39a0ff58d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:16 +0000
Subject: [PATCH 01/54] fix: Solidity FunctionCall mutator only accepts calls
 with a non-literal argument

mutate() never selects a literal, so a call such as f(1, 2) made it loop forever.
---
 mutagenyx_lib/src/solidity/mutators.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/mutators.rs b/mutagenyx_lib/src/solidity/mutators.rs
index e547ad9..57ae61c 100644
--- a/mutagenyx_lib/src/solidity/mutators.rs
+++ b/mutagenyx_lib/src/solidity/mutators.rs
@@ -878,23 +878,19 @@ impl Mutator<SolidityAST> for FunctionCallMutator {
                 if let Some(arguments_node) = node.get("arguments") {
                     if let Some(arguments_array) = arguments_node.as_array() {
                         if !arguments_array.is_empty() {
-                            let mut has_literal = false;
+                            // The algorithm never selects a literal argument, so at least one
+                            // argument must be something else.
                             for value in arguments_array {
+                                let mut is_literal = false;
                                 if let Some(value_node_type) = value.get_str_for_key("nodeType") {
                                     if value_node_type == "Literal" {
-                                        has_literal = true;
-                                        break;
+                                        is_literal = true;
                                     }
                                 }
+                                if !is_literal {
+                                    return true;
+                                }
                             }
-
-                            if has_literal && arguments_array.len() > 1 {
-                                return true;
-                            } else if has_literal {
-                                return false;
-                            }
-
-                            return true;
                         }
                     }
                 }
-- 
2.43.0


From 11ba5acca498397dda1a78506d5bb46d56112c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:16 +0000
Subject: [PATCH 02/54] fix: Solidity SwapLines mutator requires two statements
 that are not returns

A block with several return statements made mutate() loop forever.
---
 mutagenyx_lib/src/solidity/mutators.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/mutators.rs b/mutagenyx_lib/src/solidity/mutators.rs
index 57ae61c..7ba4869 100644
--- a/mutagenyx_lib/src/solidity/mutators.rs
+++ b/mutagenyx_lib/src/solidity/mutators.rs
@@ -1505,22 +1505,22 @@ impl Mutator<SolidityAST> for SwapLinesMutator {
                 if let Some(statements_node) = node.get("statements") {
                     if let Some(statements_array) = statements_node.as_array() {
                         if statements_array.len() >= 2 {
-                            let mut found_return_statement = false;
+                            // The algorithm never moves a return statement, so there must be at
+                            // least two other statements to swap.
+                            let mut swappable_statements: usize = 0;
                             for value in statements_array {
+                                let mut is_return = false;
                                 if let Some(value_node_type) = value.get_str_for_key("nodeType") {
                                     if value_node_type == "Return" {
-                                        found_return_statement = true;
-                                        break;
+                                        is_return = true;
                                     }
                                 }
-                            }
-
-                            // If the body of the function def has a return statement, then there
-                            // must be at least 3 statements in the body in order to swap (but not
-                            // swap a return statement) statements.  If there are no return statements
-                            // then we can just go ahead and swap.
-                            if !found_return_statement || statements_array.len() >= 3 {
-                                return true;
+                                if !is_return {
+                                    swappable_statements += 1;
+                                }
+                                if swappable_statements >= 2 {
+                                    return true;
+                                }
                             }
                         }
                     }
-- 
2.43.0


From cbae0c98f5cd98bfa05249ab5593d0af10c11dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:16 +0000
Subject: [PATCH 03/54] fix: UncheckedBlock mutator requires a statement that
 it can wrap

A block with only return and unchecked statements, with more than one of a kind, made mutate() loop forever.
---
 mutagenyx_lib/src/solidity/mutators.rs | 32 ++++++++------------------
 1 file changed, 9 insertions(+), 23 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/mutators.rs b/mutagenyx_lib/src/solidity/mutators.rs
index 7ba4869..08fc63a 100644
--- a/mutagenyx_lib/src/solidity/mutators.rs
+++ b/mutagenyx_lib/src/solidity/mutators.rs
@@ -1843,34 +1843,20 @@ impl Mutator<SolidityAST> for SolidityUncheckedBlockMutator {
                 if let Some(statements_node) = node.get("statements") {
                     if let Some(statements_array) = statements_node.as_array() {
                         if !statements_array.is_empty() {
-                            let mut have_return_statement = false;
-                            let mut have_unchecked_block_statement = false;
-                            let mut required_length: usize = 1;
+                            // We do not wrap a return statement or an unchecked block statement
+                            // in unchecked{}, so the block needs at least one other statement.
                             for value in statements_array {
+                                let mut is_wrappable = true;
                                 if let Some(value_node_type) = value.get_str_for_key("nodeType") {
-                                    if (!have_return_statement) && value_node_type == "Return" {
-                                        have_return_statement = true;
-                                        required_length += 1;
-                                    }
-                                    if (!have_unchecked_block_statement)
-                                        && value_node_type == "UncheckedBlock"
+                                    if value_node_type == "Return"
+                                        || value_node_type == "UncheckedBlock"
                                     {
-                                        have_unchecked_block_statement = true;
-                                        required_length += 1;
-                                    }
-
-                                    if have_return_statement && have_unchecked_block_statement {
-                                        break;
+                                        is_wrappable = false;
                                     }
                                 }
-                            }
-
-                            // If the Block node has a return statement and/or an UncheckedBlock statement,
-                            // we need at least one more statement than block + unchecked block
-                            // in order for the algorithm to work.  We do not wrap a return statement
-                            // or an unchecked block statement in unchecked{}.
-                            if statements_array.len() >= required_length {
-                                return true;
+                                if is_wrappable {
+                                    return true;
+                                }
                             }
                         }
                     }
-- 
2.43.0


From f2612d10bd9ce250dc1e4efd12b15528cd5bb004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:16 +0000
Subject: [PATCH 04/54] fix: Solidity Integer mutator handles literals that are
 not i64 decimals

Hexadecimal, scientific, underscored and large literals made mutate() panic; fall back to a random replacement.
---
 mutagenyx_lib/src/solidity/mutators.rs | 35 ++++++++++++++++++++------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/mutators.rs b/mutagenyx_lib/src/solidity/mutators.rs
index 08fc63a..001dacf 100644
--- a/mutagenyx_lib/src/solidity/mutators.rs
+++ b/mutagenyx_lib/src/solidity/mutators.rs
@@ -51,6 +51,23 @@ fn new_integer_constant_node<I: Integer + fmt::Display>(
     new_json_node(&node_string)
 }
 
+/// Return the decimal text of the integer literal `text` plus `delta`, or None when the literal is
+/// not a plain decimal number (0xff, 1e18, 1_000) or the result does not fit in 128 bits.
+///
+/// # Arguments
+///
+/// * `text` - The text of the integer literal.
+/// * `delta` - The value to add to the literal.
+fn offset_integer_literal(text: &str, delta: i128) -> Option<String> {
+    match text.parse::<i128>() {
+        Ok(value) => match value.checked_add(delta) {
+            Some(new_value) => Some(new_value.to_string()),
+            None => None,
+        },
+        Err(_) => None,
+    }
+}
+
 /// Return a new boolean literal node.
 ///
 /// # Argument
@@ -1325,10 +1342,11 @@ impl Mutator<SolidityAST> for IntegerMutator {
                 if let Some(value) = node.get_str_for_key("value") {
                     let value_string = value.to_string();
                     original_value_s = value_string.clone();
-                    let mut my_integer = value_string.parse::<i64>().unwrap();
-                    my_integer += 1;
-                    new_value_s = my_integer.to_string();
-                    node.set_str_for_key("value", my_integer.to_string().as_str());
+                    new_value_s = match offset_integer_literal(&value_string, 1) {
+                        Some(s) => s,
+                        None => rand.next_u64().to_string(),
+                    };
+                    node.set_str_for_key("value", new_value_s.as_str());
                 }
             }
             1 => {
@@ -1337,10 +1355,11 @@ impl Mutator<SolidityAST> for IntegerMutator {
                 if let Some(value) = node.get_str_for_key("value") {
                     let value_string = value.to_string();
                     original_value_s = value_string.clone();
-                    let mut my_integer = value_string.parse::<i64>().unwrap();
-                    my_integer -= 1;
-                    new_value_s = my_integer.to_string();
-                    node.set_str_for_key("value", my_integer.to_string().as_str());
+                    new_value_s = match offset_integer_literal(&value_string, -1) {
+                        Some(s) => s,
+                        None => rand.next_u64().to_string(),
+                    };
+                    node.set_str_for_key("value", new_value_s.as_str());
                 }
             }
             2 => {
-- 
2.43.0


From c6a5821ae8cf1080ca023cbd40312873a1998713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:16 +0000
Subject: [PATCH 05/54] fix: Solidity Assignment mutator handles int128/int256
 and rejects arrays

Assignments to int128 or wider overflowed, and assignments whose type only starts like an integer or bool type (bool[] memory) panicked.
---
 mutagenyx_lib/src/solidity/mutators.rs | 41 ++++++++++++++++++++------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/mutators.rs b/mutagenyx_lib/src/solidity/mutators.rs
index 001dacf..a8e80b7 100644
--- a/mutagenyx_lib/src/solidity/mutators.rs
+++ b/mutagenyx_lib/src/solidity/mutators.rs
@@ -516,6 +516,29 @@ impl Mutator<SolidityAST> for UnaryOpMutator {
     }
 }
 
+/// Return the number of bits of the integer type named `type_string`, or None when the name is not
+/// exactly `prefix` followed by a valid number of bits (`uint8[] memory`, `int_const 3`, ...).
+///
+/// # Arguments
+///
+/// * `type_string` - The name of the type.
+/// * `prefix` - Either `int` or `uint`.
+fn integer_type_size(type_string: &str, prefix: &str) -> Option<u32> {
+    match type_string.strip_prefix(prefix) {
+        Some(size_string) => match size_string.parse::<u32>() {
+            Ok(size) => {
+                if size >= 8 && size <= 256 {
+                    Some(size)
+                } else {
+                    None
+                }
+            }
+            Err(_) => None,
+        },
+        None => None,
+    }
+}
+
 /// Implements the assignment mutation algorithm.
 ///
 /// For a given Assigment expression, the algorithm replaces the right-hand side of the expression
@@ -558,13 +581,9 @@ impl Mutator<SolidityAST> for AssignmentMutator {
                     }
                 };
 
-                if type_string.len() < 3 {
-                    return false;
-                }
-
-                let first_three_chars = &type_string[..3];
-
-                return matches!(first_three_chars, "uin" | "int" | "boo");
+                return type_string == "bool"
+                    || integer_type_size(type_string, "int").is_some()
+                    || integer_type_size(type_string, "uint").is_some();
             }
         }
         false
@@ -629,8 +648,12 @@ impl Mutator<SolidityAST> for AssignmentMutator {
                     type_size = 128;
                 }
 
-                let lower_bound = -(2_i128.pow(type_size - 1));
-                let upper_bound = 2_i128.pow(type_size - 1);
+                // 2.pow(127) does not fit in an i128.
+                let (lower_bound, upper_bound) = if type_size < 128 {
+                    (-(2_i128.pow(type_size - 1)), 2_i128.pow(type_size - 1))
+                } else {
+                    (i128::MIN, i128::MAX)
+                };
                 let replacement_value = rand.gen_range(lower_bound, upper_bound);
 
                 hasher.update(&replacement_value.to_ne_bytes())?;
-- 
2.43.0


From 03580abd17c1b48f0c3b9b6957a0098038f1868d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:16 +0000
Subject: [PATCH 06/54] fix: make the Solidity SwapFunctionArguments choice
 reproducible

The candidate lists came in HashMap order, so the same seed gave different mutants.
---
 mutagenyx_lib/src/solidity/mutators.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mutagenyx_lib/src/solidity/mutators.rs b/mutagenyx_lib/src/solidity/mutators.rs
index a8e80b7..dfa4d95 100644
--- a/mutagenyx_lib/src/solidity/mutators.rs
+++ b/mutagenyx_lib/src/solidity/mutators.rs
@@ -1109,6 +1109,9 @@ impl Mutator<SolidityAST> for SwapFunctionArgumentsMutator {
                     }
                 }
 
+                // The map has no reproducible order, the random choice below needs one.
+                list_list.sort_by_key(|list| list[0].index);
+
                 let list_index = (rand.next_u64() % list_list.len() as u64) as usize;
                 let node_list = &list_list[list_index];
                 let in1 = &node_list[0];
-- 
2.43.0


From cf7e0d1ead66dac9b3b59662ed2a0cdf5c842c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:01 +0000
Subject: [PATCH 07/54] fix: Vyper SwapLines mutator requires two statements
 that are not returns

A body with several return statements made mutate() loop forever.
---
 mutagenyx_lib/src/vyper/mutators.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/mutators.rs b/mutagenyx_lib/src/vyper/mutators.rs
index b6b93f7..94e4aec 100644
--- a/mutagenyx_lib/src/vyper/mutators.rs
+++ b/mutagenyx_lib/src/vyper/mutators.rs
@@ -1590,22 +1590,22 @@ impl Mutator<VyperAST> for SwapLinesMutator {
                 if let Some(body_node) = node.get(&self.key) {
                     if let Some(body_array) = body_node.as_array() {
                         if body_array.len() >= 2 {
-                            let mut found_return_statement = false;
+                            // The algorithm never moves a return statement, so there must be at
+                            // least two other statements to swap.
+                            let mut swappable_statements: usize = 0;
                             for value in body_array {
+                                let mut is_return = false;
                                 if let Some(value_ast_type) = value.get_str_for_key("ast_type") {
                                     if value_ast_type == "Return" {
-                                        found_return_statement = true;
-                                        break;
+                                        is_return = true;
                                     }
                                 }
-                            }
-
-                            // If the body of the function def has a return statement, then there
-                            // must be at least 3 statements in the body in order to swap (but not
-                            // swap a return statement) statements.  If there are no return statements
-                            // then we can just go ahead and swap.
-                            if !found_return_statement || body_array.len() >= 3 {
-                                return true;
+                                if !is_return {
+                                    swappable_statements += 1;
+                                }
+                                if swappable_statements >= 2 {
+                                    return true;
+                                }
                             }
                         }
                     }
-- 
2.43.0


From fa3faabacbe9ce0880dd8b63954e391f0b3ecd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:01 +0000
Subject: [PATCH 08/54] fix: Vyper SwapOperatorArguments mutator ignores
 operators it does not know

Shift operators (LShift, RShift) are not in the operator map and made is_mutable_node() panic.
---
 mutagenyx_lib/src/vyper/mutators.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/mutators.rs b/mutagenyx_lib/src/vyper/mutators.rs
index 94e4aec..2151197 100644
--- a/mutagenyx_lib/src/vyper/mutators.rs
+++ b/mutagenyx_lib/src/vyper/mutators.rs
@@ -1469,9 +1469,10 @@ impl Mutator<VyperAST> for SwapOperatorArgumentsMutator {
             if ast_type == "BinOp" || ast_type == "BoolOp" || ast_type == "Compare" {
                 if let Some(op_node) = node.get("op") {
                     if let Some(op_string) = op_node.get_str_for_key("ast_type") {
-                        let converted_operator = self.operator_map[&op_string];
-                        if self.valid_operators.contains(&converted_operator) {
-                            return true;
+                        if let Some(converted_operator) = self.operator_map.get(op_string) {
+                            if self.valid_operators.contains(converted_operator) {
+                                return true;
+                            }
                         }
                     }
                 }
-- 
2.43.0


From b423d85e2d04967a1d4d14665ce095101a600415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:18 +0000
Subject: [PATCH 09/54] fix: Vyper Integer mutator handles integers that do not
 fit in an i64

Large constants were left unchanged (a mutant equal to the original) and the largest i64 overflowed; fall back to a random replacement.
---
 mutagenyx_lib/src/vyper/mutators.rs | 40 +++++++++++++++++++----------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/mutators.rs b/mutagenyx_lib/src/vyper/mutators.rs
index 2151197..7ba74d1 100644
--- a/mutagenyx_lib/src/vyper/mutators.rs
+++ b/mutagenyx_lib/src/vyper/mutators.rs
@@ -41,6 +41,20 @@ fn new_integer_constant_node<I: Integer + fmt::Display>(
     new_json_node(&node_str)
 }
 
+/// Return the value of the integer node `node` plus `delta`, or None when the value or the result
+/// does not fit in 64 bits.
+///
+/// # Arguments
+///
+/// * `node` - The integer node.
+/// * `delta` - The value to add to the integer.
+fn offset_integer_value(node: &VyperAST, delta: i64) -> Option<i64> {
+    match node.get_int_for_key("value") {
+        Some(value) => value.checked_add(delta),
+        None => None,
+    }
+}
+
 /// Return a new float literal node representing an float literal number.
 ///
 /// # Arguments
@@ -1383,25 +1397,23 @@ impl Mutator<VyperAST> for IntegerMutator {
                 hasher.update(&0_u64.to_ne_bytes())?;
 
                 // Add one to the integer constant.
-                if let Some(value_node) = node.get("value") {
-                    if let Some(mut value) = value_node.as_i64() {
-                        value += 1;
-                        let json_value = json![value];
-                        node.set_node_for_key("value", json_value);
-                    }
-                }
+                let value = match offset_integer_value(node, 1) {
+                    Some(v) => v,
+                    None => rand.next_u64() as i64,
+                };
+                let json_value = json![value];
+                node.set_node_for_key("value", json_value);
             }
             1 => {
                 hasher.update(&1_u64.to_ne_bytes())?;
 
                 // Subtract one from the integer constant.
-                if let Some(value_node) = node.get("value") {
-                    if let Some(mut value) = value_node.as_i64() {
-                        value -= 1;
-                        let json_value = json![value];
-                        node.set_node_for_key("value", json_value);
-                    }
-                }
+                let value = match offset_integer_value(node, -1) {
+                    Some(v) => v,
+                    None => rand.next_u64() as i64,
+                };
+                let json_value = json![value];
+                node.set_node_for_key("value", json_value);
             }
             2 => {
                 hasher.update(&2_u64.to_ne_bytes())?;
-- 
2.43.0


From c1f472ba307bac6bbaed6271b4e43bb4578f48d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:18 +0000
Subject: [PATCH 10/54] fix: Vyper DeleteStatement mutator handles every named
 return type

Deleting the only statement of a function that returns address, decimal or bytes32 aborted the run, and a type name shorter than three characters panicked.
---
 mutagenyx_lib/src/vyper/mutators.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/mutators.rs b/mutagenyx_lib/src/vyper/mutators.rs
index 7ba74d1..6735b0a 100644
--- a/mutagenyx_lib/src/vyper/mutators.rs
+++ b/mutagenyx_lib/src/vyper/mutators.rs
@@ -740,7 +740,7 @@ impl Mutator<VyperAST> for DeleteStatementMutator {
                         if let Some(ast_type_str) = returns_node.get_str_for_key("ast_type") {
                             if ast_type_str == "Name" {
                                 if let Some(id_str) = returns_node.get_str_for_key("id") {
-                                    match &id_str[..3] {
+                                    match id_str.get(..3).unwrap_or("") {
                                         "boo" => {
                                             let random_boolean = rand.next_u64() % 2_u64;
                                             let actual_boolean = matches!(random_boolean, 1);
@@ -862,10 +862,20 @@ impl Mutator<VyperAST> for DeleteStatementMutator {
 
                                             body_array.push(return_node);
                                         }
-                                        unrecognized_type => {
-                                            return Err(MutagenyxError::UnrecognizedLanguageType(
-                                                String::from(unrecognized_type),
-                                            ))
+                                        _ => {
+                                            // There is no replacement value for the type (address,
+                                            // decimal, bytes32, ...).
+                                            let new_node = match new_pass_node() {
+                                                Ok(node) => node,
+                                                Err(_e) => {
+                                                    return Err(
+                                                        MutagenyxError::UnableToGenerateNode(
+                                                            "pass",
+                                                        ),
+                                                    )
+                                                }
+                                            };
+                                            body_array.push(new_node);
                                         }
                                     }
                                 }
-- 
2.43.0


From 9ba64ca79518f908c060bff996fa26b99bf8f23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:50 +0000
Subject: [PATCH 11/54] fix: put the commented Solidity block back under its
 own key

When the mutated node was the block of an if branch or a catch clause, the block was moved to "body" and the branch was lost from the mutant.
---
 mutagenyx_lib/src/solidity/commenter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/solidity/commenter.rs b/mutagenyx_lib/src/solidity/commenter.rs
index 0dfda92..c5a0ab1 100644
--- a/mutagenyx_lib/src/solidity/commenter.rs
+++ b/mutagenyx_lib/src/solidity/commenter.rs
@@ -56,7 +56,7 @@ fn insert_comment_into_node_with_key(
                         {
                             statements_array.insert(0, comment_node);
                         }
-                        node.set_node_for_key("body", body_node);
+                        node.set_node_for_key(key, body_node);
                         return true;
                     }
                 }
-- 
2.43.0


From 70904fe46f1913103df7107729d1176a37f467cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:50 +0000
Subject: [PATCH 12/54] fix: a configuration file seed only applies to its own
 files

The seed of one configuration file leaked into the files named after it on the command line, and their saved configuration recorded a seed that they did not use.
---
 mutagenyx/src/mutation_generator.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mutagenyx/src/mutation_generator.rs b/mutagenyx/src/mutation_generator.rs
index cf68305..f88dfc9 100644
--- a/mutagenyx/src/mutation_generator.rs
+++ b/mutagenyx/src/mutation_generator.rs
@@ -113,7 +113,7 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
 
     // Select a random number generator seed based on args.rng_seed. If args.rng_seed is less
     // than 0, then use a seed based off of time (we don't need cryptographic randomness).
-    let mut seed: u64 = if args.rng_seed < 0 {
+    let seed: u64 = if args.rng_seed < 0 {
         let start = SystemTime::now();
         let since_the_epoch = start.duration_since(UNIX_EPOCH);
         match since_the_epoch {
@@ -163,8 +163,9 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
 
             // Here we update the random number generator from the configuration details seed if the
             // details have a new seed.
+            let mut actual_seed = seed;
             if let Some(s) = configuration_details.seed {
-                seed = s;
+                actual_seed = s;
             };
 
             // Check to see if the configuration file requested a different set of mutation algorithms.
@@ -199,8 +200,8 @@ pub fn generate_mutants(args: MutateCLArgs) -> Result<(), MutagenyxError> {
                 let generator_params = GeneratorParameters {
                     file_name: file_to_mutate_name,
                     number_of_mutants: actual_number_of_mutants,
-                    rng_seed: seed,
-                    rng: Pcg64::seed_from_u64(seed),
+                    rng_seed: actual_seed,
+                    rng: Pcg64::seed_from_u64(actual_seed),
                     output_directory: actual_output_directory.clone(),
                     use_stdout: actual_use_stdout,
                     mutations: actual_mutations.clone(),
-- 
2.43.0


From 6e6d48a5dcebcba1349cb6d50523abe7f56c79d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:50 +0000
Subject: [PATCH 13/54] fix: pretty-print --stdout prints every file

The loop returned after the first file.
---
 mutagenyx/src/pretty_printing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mutagenyx/src/pretty_printing.rs b/mutagenyx/src/pretty_printing.rs
index 7de8a2e..d75ce45 100644
--- a/mutagenyx/src/pretty_printing.rs
+++ b/mutagenyx/src/pretty_printing.rs
@@ -45,7 +45,7 @@ pub fn pretty_print_files(args: PrettyPrintCLArgs) {
         if args.stdout {
             let mut stdout = std::io::stdout();
             match pretty_print_file_to_stream(&file_name, &mut stdout, &mut preferences) {
-                Ok(_) => return,
+                Ok(_) => (),
                 Err(e) => println!("Unable to pretty-print {}: {}", file_name, e),
             }
         } else {
-- 
2.43.0


From 717cc647eb15fb47d6246dfa64b1c813c8f3db98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:50 +0000
Subject: [PATCH 14/54] fix: pass all Solidity allow-paths as one comma
 separated argument

solc took every path after the first as a source file.
---
 mutagenyx_lib/src/solidity/language_interface.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/language_interface.rs b/mutagenyx_lib/src/solidity/language_interface.rs
index 70f9b41..5bf712a 100644
--- a/mutagenyx_lib/src/solidity/language_interface.rs
+++ b/mutagenyx_lib/src/solidity/language_interface.rs
@@ -188,18 +188,20 @@ fn get_solidity_compiler_flags_from_preferences(prefs: &Preferences) -> Vec<Stri
             if let Some(allow_paths_array) = compiler_prefs.get_array_for_key(ALLOW_PATHS_KEY) {
                 if !allow_paths_array.is_empty() {
                     args.push(String::from("--allow-paths"));
+                    // The compiler takes the paths as one comma separated argument.
+                    let mut path_value = String::new();
                     let mut i: usize = 0;
                     while i < allow_paths_array.len() {
                         let value = &allow_paths_array[i];
                         if let PreferenceValue::String(s) = value {
-                            let mut path_value = s.clone();
+                            path_value.push_str(s);
                             if i < (allow_paths_array.len() - 1) {
-                                path_value += ",";
+                                path_value.push_str(",");
                             }
-                            args.push(path_value);
                         }
                         i += 1;
                     }
+                    args.push(path_value);
                 }
             }
             if let Some(remappings_array) = compiler_prefs.get_array_for_key(REMAPPINGS_KEY) {
-- 
2.43.0


From bf696ce2b811ebc39c3ed1265c4a52b1aaefb882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:50 +0000
Subject: [PATCH 15/54] fix: validate mutants in a directory of their own

Mutating a file in the temp directory with --validate-mutants overwrote and then removed the original file.
---
 mutagenyx_lib/src/json_ast_language_interface.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/mutagenyx_lib/src/json_ast_language_interface.rs b/mutagenyx_lib/src/json_ast_language_interface.rs
index 59b0ba4..642deaa 100644
--- a/mutagenyx_lib/src/json_ast_language_interface.rs
+++ b/mutagenyx_lib/src/json_ast_language_interface.rs
@@ -252,8 +252,13 @@ impl MutableLanguage for JSONLanguageInterface {
         ast: &SuperAST,
         prefs: &Preferences,
     ) -> bool {
-        // We will pretty print the AST to a file in the temp directory.
-        let mut source_file = env::temp_dir();
+        // We will pretty print the AST to a file in a directory of our own in the temp directory, so
+        // that we never overwrite or remove a file (the original, for one) that is already there.
+        let source_directory = env::temp_dir().join(format!("mutagenyx_{}", std::process::id()));
+        if std::fs::create_dir_all(&source_directory).is_err() {
+            return false;
+        }
+        let mut source_file = source_directory.clone();
 
         let original_file = PathBuf::from(original_file_name);
         let base_file_name = original_file.file_name().unwrap();
@@ -276,6 +281,13 @@ impl MutableLanguage for JSONLanguageInterface {
             log::debug!("Failed to remove temporary source file: {:?}", source_file);
         }
 
+        if std::fs::remove_dir(&source_directory).is_err() {
+            log::debug!(
+                "Failed to remove temporary source directory: {:?}",
+                source_directory
+            );
+        }
+
         compile_result
     }
 
-- 
2.43.0


From e6015b4769339419c16dfe98024bd18a6bcc29ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:50 +0000
Subject: [PATCH 16/54] fix: flowable text with a word as long as the line no
 longer recurses forever

A comment or doc string with a word that does not fit on a line overflowed the stack, and a line already past the page width underflowed.
---
 mutagenyx_lib/src/pretty_printer.rs | 35 ++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/mutagenyx_lib/src/pretty_printer.rs b/mutagenyx_lib/src/pretty_printer.rs
index 6f554b3..fc7ed51 100644
--- a/mutagenyx_lib/src/pretty_printer.rs
+++ b/mutagenyx_lib/src/pretty_printer.rs
@@ -333,9 +333,38 @@ impl PrettyPrinter {
 
         let t = text.as_str();
 
-        if t.len() > (self.page_width - self.column) {
-            let space_left = self.page_width - self.column;
-            if space_left == 0 {
+        // A previous write may have gone past the page width.
+        let space_left = if self.column < self.page_width {
+            self.page_width - self.column
+        } else {
+            0
+        };
+
+        if t.len() > space_left {
+            // Breaking the line makes no more room when the text already starts where it would
+            // start on the next line.
+            let line_is_fresh = self.column <= self.indent_length() + next_line_text.len() + 1;
+            let first_word_start = usize::from(t.starts_with(' '));
+            let first_word_end = match t[first_word_start..].find(' ') {
+                Some(i) => first_word_start + i,
+                None => t.len(),
+            };
+
+            if line_is_fresh && first_word_end + 1 >= space_left {
+                // The first word fills the line or does not fit on any line.  Write the word past
+                // the page width if need be and continue on the next line.
+                self.write_basic_string(stream, &t[..first_word_end])?;
+
+                if first_word_end < t.len() {
+                    let rest = &t[first_word_end + 1..];
+                    self.write_newline(stream)?;
+                    self.write_indent(stream)?;
+                    self.write_token(stream, next_line_text)?;
+                    if !rest.is_empty() {
+                        self.write_flowable_text(stream, rest, next_line_text)?;
+                    }
+                }
+            } else if space_left == 0 {
                 self.write_newline(stream)?;
                 self.write_indent(stream)?;
                 self.write_token(stream, next_line_text)?;
-- 
2.43.0


From 8a4fb12e8d9dcf82424e824fb7e0cde7316fccb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:53 +0000
Subject: [PATCH 17/54] fix: keep mutating a listed function after a nested
 node with the same name

Leaving a nested node named like a listed function (a recursive call, say) withdrew the permission to mutate the rest of the function.
---
 mutagenyx_lib/src/mutation_visitor.rs | 66 +++++++++++++++++----------
 1 file changed, 43 insertions(+), 23 deletions(-)

diff --git a/mutagenyx_lib/src/mutation_visitor.rs b/mutagenyx_lib/src/mutation_visitor.rs
index e1efa0c..07e46dd 100644
--- a/mutagenyx_lib/src/mutation_visitor.rs
+++ b/mutagenyx_lib/src/mutation_visitor.rs
@@ -83,6 +83,19 @@ fn has_permission_to_mutate_children<AST>(
     }
 }
 
+/// Helper function that returns true if the innermost of the nodes that enclose the current node
+/// gives permission to mutate the current node.
+///
+/// # Arguments
+///
+/// * `checks` - One entry for each node that encloses the current node.
+fn skip_mutation_permission_check(checks: &Vec<bool>) -> bool {
+    match checks.last() {
+        Some(skip) => *skip,
+        None => false,
+    }
+}
+
 pub type NodePath = Vec<u64>;
 pub type NodePathMap = HashMap<u64, NodePath>;
 
@@ -172,9 +185,10 @@ pub struct MutableNodesCounter<'a, AST> {
     /// A [`Namer<AST>`] trait object that can convert an AST node to a name string.
     namer: Box<dyn Namer<AST> + 'a>,
 
-    /// True if the visitor is traversing the children of a mutable node and does not need to
-    /// check the permission for each child.
-    skip_mutation_permission_check: bool,
+    /// One entry for each node that encloses the current node, true if that node or a node around
+    /// it gives permission to mutate its children.  When the last entry is true, the visitor does
+    /// not need to check the permission for each child.
+    skip_mutation_permission_checks: Vec<bool>,
 }
 
 impl<'a, AST> MutableNodesCounter<'a, AST> {
@@ -197,7 +211,7 @@ impl<'a, AST> MutableNodesCounter<'a, AST> {
             permitter,
             rng,
             namer,
-            skip_mutation_permission_check: false,
+            skip_mutation_permission_checks: Vec::new(),
         }
     }
 }
@@ -210,7 +224,7 @@ impl<'a, AST> Visitor<AST> for MutableNodesCounter<'a, AST> {
     }
 
     fn visit(&mut self, node: &AST) -> bool {
-        if self.skip_mutation_permission_check
+        if skip_mutation_permission_check(&self.skip_mutation_permission_checks)
             || has_permission_to_mutate(self.namer.as_ref(), self.permitter.as_ref(), node)
         {
             for (key, mutator) in self.mutator_map.iter_mut() {
@@ -232,15 +246,17 @@ impl<'a, AST> Visitor<AST> for MutableNodesCounter<'a, AST> {
     }
 
     fn on_start_visit_children(&mut self, node: &AST) {
-        if has_permission_to_mutate_children(self.namer.as_ref(), self.permitter.as_ref(), node) {
-            self.skip_mutation_permission_check = true;
-        }
+        let skip = skip_mutation_permission_check(&self.skip_mutation_permission_checks)
+            || has_permission_to_mutate_children(
+                self.namer.as_ref(),
+                self.permitter.as_ref(),
+                node,
+            );
+        self.skip_mutation_permission_checks.push(skip);
     }
 
-    fn on_end_visit_children(&mut self, node: &AST) {
-        if has_permission_to_mutate_children(self.namer.as_ref(), self.permitter.as_ref(), node) {
-            self.skip_mutation_permission_check = false;
-        }
+    fn on_end_visit_children(&mut self, _node: &AST) {
+        self.skip_mutation_permission_checks.pop();
     }
 
     fn on_exit(&mut self, _node: &AST) {}
@@ -281,8 +297,10 @@ pub struct MutationMaker<'a, AST> {
     /// A [`Namer<AST>`] trait object that can convert an AST node to a name string.
     namer: Box<dyn Namer<AST> + 'a>,
 
-    /// True if the visitor is mutating child nodes and can skip the node mutation permission check.
-    skip_mutation_permission_check: bool,
+    /// One entry for each node that encloses the current node, true if that node or a node around
+    /// it gives permission to mutate its children and the visitor can skip the node mutation
+    /// permission check.
+    skip_mutation_permission_checks: Vec<bool>,
 
     /// The cached results from the mutation.
     pub mutation_results: MutatorResult,
@@ -319,7 +337,7 @@ impl<'a, AST> MutationMaker<'a, AST> {
             mutated_node_id: 0_u64,
             mutator_comment: None,
             namer,
-            skip_mutation_permission_check: false,
+            skip_mutation_permission_checks: Vec::new(),
             mutation_results: MutatorResult::new(),
             error: None,
         }
@@ -334,7 +352,7 @@ impl<'a, AST> VisitorMut<AST> for MutationMaker<'a, AST> {
     }
 
     fn visit_mut(&mut self, node: &mut AST) -> bool {
-        if (self.skip_mutation_permission_check
+        if (skip_mutation_permission_check(&self.skip_mutation_permission_checks)
             || has_permission_to_mutate(self.namer.as_ref(), self.permitter.as_ref(), node))
             && self.mutator.is_mutable_node(node, self.rng)
         {
@@ -366,15 +384,17 @@ impl<'a, AST> VisitorMut<AST> for MutationMaker<'a, AST> {
     }
 
     fn on_start_visit_children(&mut self, node: &AST) {
-        if has_permission_to_mutate_children(self.namer.as_ref(), self.permitter.as_ref(), node) {
-            self.skip_mutation_permission_check = true;
-        }
+        let skip = skip_mutation_permission_check(&self.skip_mutation_permission_checks)
+            || has_permission_to_mutate_children(
+                self.namer.as_ref(),
+                self.permitter.as_ref(),
+                node,
+            );
+        self.skip_mutation_permission_checks.push(skip);
     }
 
-    fn on_end_visit_children(&mut self, node: &AST) {
-        if has_permission_to_mutate_children(self.namer.as_ref(), self.permitter.as_ref(), node) {
-            self.skip_mutation_permission_check = false;
-        }
+    fn on_end_visit_children(&mut self, _node: &AST) {
+        self.skip_mutation_permission_checks.pop();
     }
 
     fn on_exit(&mut self, _node: &mut AST) {}
-- 
2.43.0


From 7e7b1c232edf69a23d112c4fc56daa6c8328f7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:01 +0000
Subject: [PATCH 18/54] verif hook: expose private modules under
 cfg(mutagenyx_verif)

---
 mutagenyx_lib/src/lib.rs | 71 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 71 insertions(+)

diff --git a/mutagenyx_lib/src/lib.rs b/mutagenyx_lib/src/lib.rs
index 38e8952..36adadd 100644
--- a/mutagenyx_lib/src/lib.rs
+++ b/mutagenyx_lib/src/lib.rs
@@ -61,3 +61,74 @@ pub mod super_ast;
 mod utility;
 mod visitor;
 pub mod vyper;
+
+/// Access to private modules for the verification harness (`--cfg mutagenyx_verif`).
+#[cfg(mutagenyx_verif)]
+pub mod verif_hook {
+    pub mod ast {
+        pub use crate::ast::*;
+    }
+    pub mod commenter {
+        pub use crate::commenter::*;
+    }
+    pub mod id {
+        pub use crate::id::*;
+    }
+    pub mod json {
+        pub use crate::json::*;
+    }
+    pub mod json_ast_id_maker {
+        pub use crate::json_ast_id_maker::*;
+    }
+    pub mod json_ast_permitter {
+        pub use crate::json_ast_permitter::*;
+    }
+    pub mod json_comment_helpers {
+        pub use crate::json_comment_helpers::*;
+    }
+    pub mod json_comment_inserter {
+        pub use crate::json_comment_inserter::*;
+    }
+    pub mod json_finder_helpers {
+        pub use crate::json_finder_helpers::*;
+    }
+    pub mod json_language_delegate {
+        pub use crate::json_language_delegate::*;
+    }
+    pub mod json_namer {
+        pub use crate::json_namer::*;
+    }
+    pub mod mutation_visitor {
+        pub use crate::mutation_visitor::*;
+    }
+    pub mod mutator {
+        pub use crate::mutator::*;
+    }
+    pub mod namer {
+        pub use crate::namer::*;
+    }
+    pub mod node_finder {
+        pub use crate::node_finder::*;
+    }
+    pub mod node_printer {
+        pub use crate::node_printer::*;
+    }
+    pub mod node_printer_helpers {
+        pub use crate::node_printer_helpers::*;
+    }
+    pub mod operators {
+        pub use crate::operators::*;
+    }
+    pub mod permit {
+        pub use crate::permit::*;
+    }
+    pub mod pretty_print_visitor {
+        pub use crate::pretty_print_visitor::*;
+    }
+    pub mod utility {
+        pub use crate::utility::*;
+    }
+    pub mod visitor {
+        pub use crate::visitor::*;
+    }
+}
-- 
2.43.0


From 2fa3d1e904958cf9e16ad3e011a26315aecdbb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:32 +0000
Subject: [PATCH 19/54] fix: take a Vyper compiler version that ends in a
 number or is missing

---
 mutagenyx_lib/src/vyper/language_interface.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/language_interface.rs b/mutagenyx_lib/src/vyper/language_interface.rs
index e282051..509ec7f 100644
--- a/mutagenyx_lib/src/vyper/language_interface.rs
+++ b/mutagenyx_lib/src/vyper/language_interface.rs
@@ -220,13 +220,13 @@ fn get_vyper_compiler_version(compiler: &str) -> Result<Versioning, MutagenyxErr
                 let output_version = core::str::from_utf8(output.stdout.as_slice()).unwrap();
 
                 // Clip off the newline character.  The Mess code dislikes the newline.
-                let output_version = &output_version[..output_version.len() - 1];
+                let output_version = output_version.trim_end();
 
                 // We use Mess here because the compiler may output some non-semantic versioned string
                 // like `0.2.11+commit.5db35ef` for a compiler version.  Mess gives us a shot at recovering
                 // the major/minor/release numbers even when the version string has extra, hard-to-parse
                 // contents.
-                match Mess::new(output_version) {
+                let version = match Mess::new(output_version) {
                     Some(v) => {
                         let mut vstr = String::new();
                         if let Some(value) = v.nth(0) {
@@ -240,8 +240,14 @@ fn get_vyper_compiler_version(compiler: &str) -> Result<Versioning, MutagenyxErr
                         if let Some(value) = v.nth(2) {
                             vstr += &(value).to_string();
                         }
-                        Versioning::new(&vstr).unwrap()
+                        // Mess has no number for a chunk that ends the text, as in a plain `0.3.10`.
+                        Versioning::new(&vstr).or_else(|| Versioning::new(output_version))
                     }
+                    None => None,
+                };
+
+                match version {
+                    Some(v) => v,
                     None => return Err(MutagenyxError::CompilerNoVersion(String::from(compiler))),
                 }
             } else {
-- 
2.43.0


From 40e5e116e1923b9373c2749efd83aedf4214cf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:07 +0000
Subject: [PATCH 20/54] fix: print the minus sign of Vyper UnaryOp USub nodes

The printer dropped the operator, so `-x` came out as `x`.
---
 mutagenyx_lib/src/vyper/pretty_printer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index 2f85f28..464a7a0 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -964,6 +964,8 @@ impl NodePrinter<VyperAST> for UnaryOpPrinter {
                     needs_space = true;
                 } else if op_str == "Invert" {
                     write_token(printer, stream, "~");
+                } else if op_str == "USub" {
+                    write_token(printer, stream, "-");
                 }
             }
         }
-- 
2.43.0


From 6d2ec6a88ceaa944cdba265a77c331556e7d20cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:07 +0000
Subject: [PATCH 21/54] fix: print every value of a Vyper BoolOp

`a and b and c` is one node with three values; only the first two were printed.
---
 mutagenyx_lib/src/vyper/pretty_printer.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index 464a7a0..dbf0d59 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -761,18 +761,20 @@ impl NodePrinter<VyperAST> for BoolOpPrinter {
                     return;
                 }
 
-                let left = &values_array[0];
-                let right = &values_array[1];
+                write_node_with_parens_maybe(printer, stream, factory, &values_array[0]);
 
-                write_node_with_parens_maybe(printer, stream, factory, left);
-                write_space(printer, stream);
+                let mut i: usize = 1;
+                while i < values_array.len() {
+                    write_space(printer, stream);
 
-                if let Some(op_node) = node.get("op") {
-                    traverse_sub_node_and_print(printer, stream, factory, op_node);
-                }
+                    if let Some(op_node) = node.get("op") {
+                        traverse_sub_node_and_print(printer, stream, factory, op_node);
+                    }
 
-                write_space(printer, stream);
-                write_node_with_parens_maybe(printer, stream, factory, right);
+                    write_space(printer, stream);
+                    write_node_with_parens_maybe(printer, stream, factory, &values_array[i]);
+                    i += 1;
+                }
             }
         }
     }
-- 
2.43.0


From b5eed38acf18a1b0e92b96b7fd176c3f818d1e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:07 +0000
Subject: [PATCH 22/54] fix: no leading comma in Vyper calls with only keyword
 arguments

`f(value=1)` came out as `f(, value=1)`.
---
 mutagenyx_lib/src/vyper/pretty_printer.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index dbf0d59..df1e3e3 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -913,8 +913,17 @@ impl NodePrinter<VyperAST> for CallPrinter {
         if let Some(keywords_node) = node.get("keywords") {
             if let Some(keywords_array) = keywords_node.as_array() {
                 if !keywords_array.is_empty() {
-                    write_token(printer, stream, ",");
-                    write_space(printer, stream);
+                    let has_args = match node.get("args") {
+                        Some(args_node) => match args_node.as_array() {
+                            Some(args_array) => !args_array.is_empty(),
+                            None => false,
+                        },
+                        None => false,
+                    };
+                    if has_args {
+                        write_token(printer, stream, ",");
+                        write_space(printer, stream);
+                    }
                     write_key_of_node_as_array(printer, stream, factory, "keywords", node);
                 }
             }
-- 
2.43.0


From 7adc9cfef1652d554031ab5375253b0af229a3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:32 +0000
Subject: [PATCH 23/54] fix: parenthesise Vyper unary operands

`(not a) == b` came out as `not a == b` and `(-a) ** b` as `-a ** b`, which mean something else.
---
 mutagenyx_lib/src/vyper/pretty_printer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index df1e3e3..22f0da0 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -199,7 +199,7 @@ fn write_indented_array(
 }
 
 /// Write the contents of the node and wrap the contents in parentheses if the node is a BinOp,
-/// Compare, or BoolOp.
+/// Compare, BoolOp, or UnaryOp.
 ///
 /// # Arguments
 ///
@@ -215,7 +215,10 @@ fn write_node_with_parens_maybe(
     node: &VyperAST,
 ) {
     if let Some(ast_type) = node.get_str_for_key("ast_type") {
-        let needs_parens = ast_type == "BinOp" || ast_type == "Compare" || ast_type == "BoolOp";
+        let needs_parens = ast_type == "BinOp"
+            || ast_type == "Compare"
+            || ast_type == "BoolOp"
+            || ast_type == "UnaryOp";
 
         if needs_parens {
             write_token(printer, stream, "(");
-- 
2.43.0


From 838a264bceeaebf510e981498fcfcf2542ba16c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:32 +0000
Subject: [PATCH 24/54] fix: print Vyper integers between 2^63 and 2^64 exactly

They went through a 64-bit float, so 18446744073709551615 came out as 18446744073709552000.
---
 mutagenyx_lib/src/vyper/pretty_printer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index 22f0da0..c4e53d6 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -689,6 +689,8 @@ impl NodePrinter<VyperAST> for IntPrinter {
     ) {
         if let Some(value) = node.get_int_for_key("value") {
             write_token(printer, stream, &value.to_string());
+        } else if let Some(value) = node.get("value").and_then(|value| value.as_u64()) {
+            write_token(printer, stream, &value.to_string());
         } else if let Some(value) = node.get_float_for_key("value") {
             write_token(printer, stream, &value.to_string());
         }
-- 
2.43.0


From 2627835943659c0de4f3aa67ff5481cfa0622ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:32 +0000
Subject: [PATCH 25/54] fix: escape quotes, backslashes and line breaks in
 Vyper strings

The tree holds the value of the literal; printed as it is a quote in it ended the literal.
---
 mutagenyx_lib/src/vyper/pretty_printer.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/vyper/pretty_printer.rs b/mutagenyx_lib/src/vyper/pretty_printer.rs
index c4e53d6..77c1e81 100644
--- a/mutagenyx_lib/src/vyper/pretty_printer.rs
+++ b/mutagenyx_lib/src/vyper/pretty_printer.rs
@@ -810,6 +810,25 @@ impl NodePrinter<VyperAST> for AssertPrinter {
     }
 }
 
+/// Return `s` with the characters escaped that would end a string literal or change its meaning.
+///
+/// # Arguments
+///
+/// * `s` - The value of the string literal.
+fn escape_string(s: &str) -> String {
+    let mut escaped = String::new();
+    for c in s.chars() {
+        match c {
+            '\\' => escaped.push_str("\\\\"),
+            '"' => escaped.push_str("\\\""),
+            '\n' => escaped.push_str("\\n"),
+            '\r' => escaped.push_str("\\r"),
+            _ => escaped.push(c),
+        }
+    }
+    escaped
+}
+
 struct StrPrinter {}
 
 impl NodePrinter<VyperAST> for StrPrinter {
@@ -821,7 +840,7 @@ impl NodePrinter<VyperAST> for StrPrinter {
         node: &VyperAST,
     ) {
         if let Some(value_str) = node.get_str_for_key("value") {
-            write_string(printer, stream, value_str);
+            write_string(printer, stream, &escape_string(value_str));
         }
     }
 }
-- 
2.43.0


From def289afbfaccb6f8cbae9c6875a1f05e08a15c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:20 +0000
Subject: [PATCH 26/54] fix: know Vyper's shift and floor division operators

The operator map lacked LShift, RShift and FloorDiv: such expressions were printed without their
operator and the bitshift algorithm never found a Vyper node.
---
 mutagenyx_lib/src/vyper/operators.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mutagenyx_lib/src/vyper/operators.rs b/mutagenyx_lib/src/vyper/operators.rs
index 3c44a84..303e7ee 100644
--- a/mutagenyx_lib/src/vyper/operators.rs
+++ b/mutagenyx_lib/src/vyper/operators.rs
@@ -7,6 +7,7 @@ pub fn get_python_operator_map() -> HashMap<&'static str, &'static str> {
     operator_map.insert("Sub", "-");
     operator_map.insert("Mult", "*");
     operator_map.insert("Div", "/");
+    operator_map.insert("FloorDiv", "//");
     operator_map.insert("Mod", "%");
     operator_map.insert("Pow", "**");
     operator_map.insert("And", "&&");
@@ -14,6 +15,8 @@ pub fn get_python_operator_map() -> HashMap<&'static str, &'static str> {
     operator_map.insert("BitAnd", "&");
     operator_map.insert("BitOr", "|");
     operator_map.insert("BitXor", "^");
+    operator_map.insert("LShift", "<<");
+    operator_map.insert("RShift", ">>");
     operator_map.insert("Eq", "==");
     operator_map.insert("NotEq", "!=");
     operator_map.insert("Gt", ">");
-- 
2.43.0


From 1ee6325be27afed5ac7d3abd3b57e17ebff5cc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:37 +0000
Subject: [PATCH 27/54] fix: escape Solidity string literals so that they keep
 their bytes

Quotes and backslashes ended or changed the literal, \x and \u were written with too few digits, and
\b, \f and \v are no escapes of Solidity any more.
---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 36 +++++++++-----------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 750846e..e922354 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -207,11 +207,6 @@ fn unencode_string(s: &str) -> String {
 
         if c_code < 32 {
             match c_code {
-                8 => {
-                    // backspace
-                    unencoded_s.push('\\');
-                    unencoded_s.push('b');
-                }
                 9 => {
                     // horizontal tab
                     unencoded_s.push('\\');
@@ -222,31 +217,30 @@ fn unencode_string(s: &str) -> String {
                     unencoded_s.push('\\');
                     unencoded_s.push('n');
                 }
-                11 => {
-                    // vertical tab
-                    unencoded_s.push('\\');
-                    unencoded_s.push('v');
-                }
-                12 => {
-                    // form feed
-                    unencoded_s.push('\\');
-                    unencoded_s.push('f');
-                }
                 13 => {
                     // carriage return
                     unencoded_s.push('\\');
                     unencoded_s.push('r');
                 }
                 _ => {
-                    let converted_char = format!("\\x{:x}", c_code);
+                    let converted_char = format!("\\x{:02x}", c_code);
                     unencoded_s += converted_char.as_str();
                 }
             }
         } else if (32..127).contains(&c_code) {
+            if c == '"' || c == '\\' {
+                unencoded_s.push('\\');
+            }
             unencoded_s.push(c);
-        } else {
-            let converted_char = format!("\\u{:x}", c_code);
+        } else if c_code < 0x10000 {
+            let converted_char = format!("\\u{:04x}", c_code);
             unencoded_s += converted_char.as_str();
+        } else {
+            // \u takes four digits only, write the UTF-8 form.
+            for b in c.to_string().bytes() {
+                let converted_byte = format!("\\x{:02x}", b);
+                unencoded_s += converted_byte.as_str();
+            }
         }
     }
 
@@ -963,7 +957,8 @@ impl NodePrinter<SolidityAST> for LiteralPrinter {
                     write_string(printer, stream, &unencoded_string);
                 } else if kind == "unicodeString" {
                     write_token(printer, stream, "unicode");
-                    write_string(printer, stream, value);
+                    let unencoded_string = unencode_string(value);
+                    write_string(printer, stream, &unencoded_string);
                 } else {
                     write_token(printer, stream, value);
                 }
@@ -1978,7 +1973,8 @@ impl NodePrinter<SolidityAST> for YulLiteralPrinter {
                 }
             } else if kind_str == "string" {
                 if let Some(value_str) = node.get_str_for_key("value") {
-                    write_string(printer, stream, value_str);
+                    let unencoded_string = unencode_string(value_str);
+                    write_string(printer, stream, &unencoded_string);
                 }
             }
         }
-- 
2.43.0


From 84bfe094916bffb046d10fb78b26eaf4068a56d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:37 +0000
Subject: [PATCH 28/54] fix: print Solidity literals that are given by their
 bytes

The value of a hex literal was printed as a bare word, and a literal whose bytes are no UTF-8 text was
not printed at all.
---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 24 ++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index e922354..f9e99fa 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -940,6 +940,24 @@ impl NodePrinter<SolidityAST> for BinaryOperationPrinter {
     }
 }
 
+/// Helper function to write a literal that the tree gives by its bytes only.
+///
+/// # Arguments
+///
+/// * `printer` - The [`PrettyPrinter`] object that will write to `stream`.
+/// * `stream` - The [`Write`] object that will receive the formatted output.
+/// * `node` - The literal node.
+fn print_hex_literal_helper(
+    printer: &mut PrettyPrinter,
+    stream: &mut dyn Write,
+    node: &SolidityAST,
+) {
+    if let Some(hex_value) = node.get_str_for_key("hexValue") {
+        write_token(printer, stream, "hex");
+        write_string(printer, stream, hex_value);
+    }
+}
+
 struct LiteralPrinter {}
 
 impl NodePrinter<SolidityAST> for LiteralPrinter {
@@ -955,6 +973,8 @@ impl NodePrinter<SolidityAST> for LiteralPrinter {
                 if kind == "string" {
                     let unencoded_string = unencode_string(value);
                     write_string(printer, stream, &unencoded_string);
+                } else if kind == "hexString" {
+                    print_hex_literal_helper(printer, stream, node);
                 } else if kind == "unicodeString" {
                     write_token(printer, stream, "unicode");
                     let unencoded_string = unencode_string(value);
@@ -965,6 +985,8 @@ impl NodePrinter<SolidityAST> for LiteralPrinter {
             } else {
                 write_token(printer, stream, value);
             }
+        } else {
+            print_hex_literal_helper(printer, stream, node);
         }
 
         if let Some(sub_denomination) = node.get_str_for_key("subdenomination") {
@@ -1975,6 +1997,8 @@ impl NodePrinter<SolidityAST> for YulLiteralPrinter {
                 if let Some(value_str) = node.get_str_for_key("value") {
                     let unencoded_string = unencode_string(value_str);
                     write_string(printer, stream, &unencoded_string);
+                } else {
+                    print_hex_literal_helper(printer, stream, node);
                 }
             }
         }
-- 
2.43.0


From b6fcc6f35515891aaf4946ebf1178397d91e0ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:38 +0000
Subject: [PATCH 29/54] fix: write the space before the last word of a Solidity
 pragma

pragma abicoder v2 came out as pragma abicoderv2.
---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index f9e99fa..3c2e257 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -363,7 +363,7 @@ impl NodePrinter<SolidityAST> for PragmaDirectivePrinter {
                             needs_space = false;
                         }
 
-                        if i < (v.len() - 1) && needs_space {
+                        if needs_space {
                             write_space(printer, stream);
                         }
                         write_token(printer, stream, s);
-- 
2.43.0


From c5fd3eef33e2c6c7b322bbcfdb56736be4a8d72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:38 +0000
Subject: [PATCH 30/54] fix: write a space before override on Solidity
 variables and modifiers

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 3c2e257..3314983 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -619,6 +619,7 @@ impl NodePrinter<SolidityAST> for VariableDeclarationPrinter {
         }
 
         if let Some(override_node) = node.get("overrides") {
+            write_space(printer, stream);
             traverse_sub_node_and_print(printer, stream, factory, override_node);
         }
 
@@ -1521,6 +1522,7 @@ impl NodePrinter<SolidityAST> for ModifierDefinitionPrinter {
         }
 
         if let Some(override_node) = node.get("overrides") {
+            write_space(printer, stream);
             traverse_sub_node_and_print(printer, stream, factory, override_node);
         }
 
-- 
2.43.0


From 28abe53626d560e1478e406fe7b7e1c7745ca316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:38 +0000
Subject: [PATCH 31/54] fix: end a Solidity modifier without a body with a
 semicolon

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 3314983..8a50bf3 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1529,6 +1529,8 @@ impl NodePrinter<SolidityAST> for ModifierDefinitionPrinter {
         if let Some(body) = node.get("body") {
             write_space(printer, stream);
             traverse_sub_node_and_print(printer, stream, factory, body);
+        } else {
+            write_token(printer, stream, ";");
         }
     }
 }
-- 
2.43.0


From a2adad0fb020239e0bb1e0d82dda98a78aa66190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:38 +0000
Subject: [PATCH 32/54] fix: print no visibility for free Solidity functions

The compiler rejects a visibility there.
---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 8a50bf3..c8f49ea 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -717,9 +717,13 @@ impl NodePrinter<SolidityAST> for FunctionDefinitionPrinter {
             traverse_sub_node_and_print(printer, stream, factory, parameters);
         }
 
+        let is_free_function = node.get_str_for_key("kind") == Some("freeFunction");
+
         if let Some(visibility) = node.get_str_for_key("visibility") {
-            write_space(printer, stream);
-            write_token(printer, stream, visibility);
+            if !is_free_function {
+                write_space(printer, stream);
+                write_token(printer, stream, visibility);
+            }
             // if visibility != "internal" {
             //     write_space(printer, stream);
             //     write_token(printer, stream, visibility);
-- 
2.43.0


From 5713f4a8ac2c13d8778aac40e7acc77fba7814f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:38 +0000
Subject: [PATCH 33/54] fix: write both semicolons of a Solidity for loop

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index c8f49ea..e160db3 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1785,12 +1785,14 @@ impl NodePrinter<SolidityAST> for ForStatementPrinter {
         write_token(printer, stream, "for(");
         if let Some(initialization_node) = node.get("initializationExpression") {
             traverse_sub_node_and_print(printer, stream, factory, initialization_node);
+        } else {
+            write_token(printer, stream, ";");
         }
         if let Some(condition_node) = node.get("condition") {
             write_space(printer, stream);
             traverse_sub_node_and_print(printer, stream, factory, condition_node);
-            write_token(printer, stream, ";");
         }
+        write_token(printer, stream, ";");
         if let Some(loop_expression_node) = node.get("loopExpression") {
             let mut printer_settings = factory.get_settings().clone();
             printer_settings.set_value_for_key(
-- 
2.43.0


From e603ee0dcf002e499414a46e55e8292db6a5fe82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:38 +0000
Subject: [PATCH 34/54] fix: print Solidity inline arrays in brackets and the
 empty tuple

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 27 ++++++++++----------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index e160db3..7d3412b 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1697,23 +1697,22 @@ impl NodePrinter<SolidityAST> for TupleExpressionPrinter {
     ) {
         if let Some(components) = node.get("components") {
             if let Some(components_array) = components.as_array() {
-                if !components_array.is_empty() {
-                    write_token(printer, stream, "(");
-                    let mut i: usize = 0;
-                    while i < components_array.len() {
-                        let value = components_array.get(i).unwrap();
-                        traverse_sub_node_and_print(printer, stream, factory, value);
-                        if i < (components_array.len() - 1) {
-                            write_token(printer, stream, ",");
-                            let next_node = components_array.get(i + 1).unwrap();
-                            if !next_node.is_null() {
-                                write_space(printer, stream);
-                            }
+                let is_inline_array = node.get_bool_for_key("isInlineArray").unwrap_or(false);
+                write_token(printer, stream, if is_inline_array { "[" } else { "(" });
+                let mut i: usize = 0;
+                while i < components_array.len() {
+                    let value = components_array.get(i).unwrap();
+                    traverse_sub_node_and_print(printer, stream, factory, value);
+                    if i < (components_array.len() - 1) {
+                        write_token(printer, stream, ",");
+                        let next_node = components_array.get(i + 1).unwrap();
+                        if !next_node.is_null() {
+                            write_space(printer, stream);
                         }
-                        i += 1;
                     }
-                    write_token(printer, stream, ")");
+                    i += 1;
                 }
+                write_token(printer, stream, if is_inline_array { "]" } else { ")" });
             }
         }
     }
-- 
2.43.0


From a47ce54a9c436b61e5678763b1e35bc55656ce80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:38 +0000
Subject: [PATCH 35/54] fix: print Solidity slices

x[a:b] had no printer and came out as xab.
---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 31 ++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 7d3412b..e2984f9 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1237,6 +1237,36 @@ impl NodePrinter<SolidityAST> for IndexAccessPrinter {
     }
 }
 
+struct IndexRangeAccessPrinter {}
+
+impl NodePrinter<SolidityAST> for IndexRangeAccessPrinter {
+    fn print_node(
+        &mut self,
+        printer: &mut PrettyPrinter,
+        stream: &mut dyn Write,
+        factory: &dyn NodePrinterFactory<SolidityAST>,
+        node: &SolidityAST,
+    ) {
+        if let Some(base_expression) = node.get("baseExpression") {
+            traverse_sub_node_and_print(printer, stream, factory, base_expression);
+        }
+
+        write_token(printer, stream, "[");
+
+        if let Some(start_expression) = node.get("startExpression") {
+            traverse_sub_node_and_print(printer, stream, factory, start_expression);
+        }
+
+        write_token(printer, stream, ":");
+
+        if let Some(end_expression) = node.get("endExpression") {
+            traverse_sub_node_and_print(printer, stream, factory, end_expression);
+        }
+
+        write_token(printer, stream, "]");
+    }
+}
+
 struct IfStatementPrinter {}
 
 impl NodePrinter<SolidityAST> for IfStatementPrinter {
@@ -2680,6 +2710,7 @@ impl NodePrinterFactory<SolidityAST> for SolidityNodePrinterFactory {
                 "IfStatement" => Box::new(IfStatementPrinter {}),
                 "ImportDirective" => Box::new(ImportDirectivePrinter {}),
                 "IndexAccess" => Box::new(IndexAccessPrinter {}),
+                "IndexRangeAccess" => Box::new(IndexRangeAccessPrinter {}),
                 "InheritanceSpecifier" => Box::new(InheritanceSpecifierPrinter {}),
                 "InlineAssembly" => Box::new(InlineAssemblyPrinter {}),
                 "Literal" => Box::new(LiteralPrinter {}),
-- 
2.43.0


From 669964017f9f55b29c49982256dba0852e05bf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:38 +0000
Subject: [PATCH 36/54] fix: print no assignment for a Yul variable without a
 value

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index e2984f9..091866d 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1944,12 +1944,12 @@ impl NodePrinter<SolidityAST> for YulVariableDeclarationPrinter {
         if let Some(variables_node) = node.get("variables") {
             if let Some(variables_array) = variables_node.as_array() {
                 print_array_helper(printer, stream, factory, variables_array);
-                write_space(printer, stream);
             }
         }
-        write_token(printer, stream, ":=");
-        write_space(printer, stream);
         if let Some(value_node) = node.get("value") {
+            write_space(printer, stream);
+            write_token(printer, stream, ":=");
+            write_space(printer, stream);
             traverse_sub_node_and_print(printer, stream, factory, value_node);
         }
     }
-- 
2.43.0


From a5bb80e7da9c7a4e2d30b17f072fa63bada27721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:38 +0000
Subject: [PATCH 37/54] fix: print the state mutability of Solidity function
 types

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 091866d..10397e3 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -2108,6 +2108,12 @@ impl NodePrinter<SolidityAST> for FunctionTypeNamePrinter {
                 write_token(printer, stream, visibility_str);
             }
         }
+        if let Some(mutability_str) = node.get_str_for_key("stateMutability") {
+            if mutability_str != "nonpayable" {
+                write_space(printer, stream);
+                write_token(printer, stream, mutability_str);
+            }
+        }
 
         print_return_parameters_helper(printer, stream, factory, node);
     }
-- 
2.43.0


From db1d6947688ae7b49e61f7239d11e211cb4bca46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:39 +0000
Subject: [PATCH 38/54] fix: print the functions and the * of Solidity using
 directives

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 10397e3..ac0f483 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1479,6 +1479,9 @@ impl NodePrinter<SolidityAST> for UsingForDirectivePrinter {
                         factory,
                         function_list_array,
                         |p, s, _f, n| {
+                            if let Some(function) = n.get("function") {
+                                print_name_helper(p, s, function);
+                            }
                             if let Some(definition) = n.get("definition") {
                                 if let Some(name) = definition.get_str_for_key("name") {
                                     write_token(p, s, name);
@@ -1509,6 +1512,8 @@ impl NodePrinter<SolidityAST> for UsingForDirectivePrinter {
         write_space(printer, stream);
         if let Some(type_name) = node.get("typeName") {
             traverse_sub_node_and_print(printer, stream, factory, type_name);
+        } else {
+            write_token(printer, stream, "*");
         }
 
         if let Some(global_bool) = node.get_bool_for_key("global") {
-- 
2.43.0


From aac66b23042f39105f98ce697005c54764e8336d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:39 +0000
Subject: [PATCH 39/54] fix: end Solidity variables outside of contracts with a
 semicolon

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index ac0f483..44ec8cf 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -309,6 +309,11 @@ impl NodePrinter<SolidityAST> for SourceUnitPrinter {
                     if let Some(node) = node_array.get(i) {
                         write_indent(printer, stream);
                         traverse_sub_node_and_print(printer, stream, factory, node);
+                        if let Some(node_type) = node.get_str_for_key("nodeType") {
+                            if node_type == "VariableDeclaration" {
+                                write_token(printer, stream, ";");
+                            }
+                        }
                         if i < (node_array.len() - 1) {
                             write_newline(printer, stream);
                             write_newline(printer, stream);
-- 
2.43.0


From 2feecc8611994d6b608043444ec8d641b5680b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:39 +0000
Subject: [PATCH 40/54] fix: print returns in a Solidity try statement only
 with parameters

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 44ec8cf..21f4618 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1148,16 +1148,9 @@ impl NodePrinter<SolidityAST> for FunctionCallPrinter {
         printer: &mut PrettyPrinter,
         stream: &mut dyn Write,
         _factory: &dyn NodePrinterFactory<SolidityAST>,
-        node: &SolidityAST,
+        _node: &SolidityAST,
     ) {
         write_token(printer, stream, ")");
-
-        if let Some(try_call_bool) = node.get_bool_for_key("tryCall") {
-            if try_call_bool {
-                write_space(printer, stream);
-                write_token(printer, stream, "returns");
-            }
-        }
     }
 }
 
@@ -2362,6 +2355,9 @@ impl NodePrinter<SolidityAST> for TryStatementPrinter {
                 if i >= 1 {
                     write_token(printer, stream, "catch");
                     write_space(printer, stream);
+                } else if clause.get("parameters").is_some() {
+                    write_token(printer, stream, "returns");
+                    write_space(printer, stream);
                 }
                 traverse_sub_node_and_print(printer, stream, factory, clause);
                 if i < (clauses_array.len()) {
-- 
2.43.0


From 02f25a519ee06581840690baaab585eab0dd80a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:39 +0000
Subject: [PATCH 41/54] fix: print the results of a Yul function without
 parentheses

Yul knows no parentheses there.
---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 21f4618..72ea513 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -2581,15 +2581,7 @@ impl NodePrinter<SolidityAST> for YulFunctionDefinitionPrinter {
             if !return_vars_array.is_empty() {
                 write_token(printer, stream, "->");
                 write_space(printer, stream);
-                if return_vars_array.len() > 1 {
-                    write_token(printer, stream, "(");
-                }
-
                 print_array_helper(printer, stream, factory, return_vars_array);
-
-                if return_vars_array.len() > 1 {
-                    write_token(printer, stream, ")");
-                }
                 write_space(printer, stream);
             }
         }
-- 
2.43.0


From 3db4d50ff5e152b6c63fdb35f4d94ecd771c1eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:39 +0000
Subject: [PATCH 42/54] fix: keep a deleted Solidity statement inside its
 comment

A statement printed on several lines left its rest as code after the comment.
---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 21 +++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 72ea513..c2bcd87 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -247,6 +247,24 @@ fn unencode_string(s: &str) -> String {
     unencoded_s
 }
 
+/// Return the string containing the pretty-printed form of `node`.
+///
+/// # Arguments
+///
+/// * `node` - The node to pretty-print.
+/// * `factory` - The [`NodePrinterFactory`] object that generates node printers for AST nodes.
+fn pretty_print_node(
+    node: &SolidityAST,
+    factory: &dyn NodePrinterFactory<SolidityAST>,
+) -> String {
+    let mut node_contents = Vec::new();
+    let mut printer = PrettyPrinter::new(4, 150);
+    traverse_sub_node_and_print(&mut printer, &mut node_contents, factory, node);
+
+    let s = core::str::from_utf8(node_contents.as_slice()).unwrap();
+    String::from(s)
+}
+
 /// Return true if the string only contains ASCII digits and/or the '.' character.
 ///
 /// # Arguments
@@ -1776,7 +1794,8 @@ impl NodePrinter<SolidityAST> for CommentPrinter {
         }
 
         if let Some(value_node) = node.get("value") {
-            traverse_sub_node_and_print(printer, stream, factory, value_node);
+            let value_text = pretty_print_node(value_node, factory);
+            write_flowable_text(printer, stream, &value_text, "// ");
         }
     }
 }
-- 
2.43.0


From a2f5b5632e4b7a6da545366750d375b61e467be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:39 +0000
Subject: [PATCH 43/54] fix: keep nested Solidity prefix operators apart

-(-x) came out as --x.
---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index c2bcd87..7ee2df2 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -1190,6 +1190,11 @@ impl NodePrinter<SolidityAST> for UnaryOperationPrinter {
                         write_space(printer, stream);
                     } else {
                         write_token(printer, stream, operator);
+                        if let Some(sub_expression) = node.get("subExpression") {
+                            if sub_expression.get_bool_for_key("prefix") == Some(true) {
+                                write_space(printer, stream);
+                            }
+                        }
                     }
                 }
             }
-- 
2.43.0


From e82946573e9d5899d31f2b37aa86a3ab8952cf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:39 +0000
Subject: [PATCH 44/54] fix: print Solidity operands in parentheses where
 precedence demands them

After a mutation an operand can bind looser than the operator around it: a - (b + c), from a - b * c,
came out as a - b + c.
---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 67 +++++++++++++++++++-
 1 file changed, 65 insertions(+), 2 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 7ee2df2..559c9e6 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -946,6 +946,69 @@ impl NodePrinter<SolidityAST> for VariableDeclarationStatementPrinter {
     }
 }
 
+/// Return how tightly a binary operator binds its operands.
+///
+/// # Arguments
+///
+/// * `operator` - The text of the operator.
+fn operator_precedence(operator: &str) -> u32 {
+    match operator {
+        "**" => 11,
+        "*" | "/" | "%" => 10,
+        "+" | "-" => 9,
+        "<<" | ">>" => 8,
+        "&" => 7,
+        "^" => 6,
+        "|" => 5,
+        "<" | ">" | "<=" | ">=" => 4,
+        "==" | "!=" => 3,
+        "&&" => 2,
+        "||" => 1,
+        _ => 0,
+    }
+}
+
+/// Helper function to write an operand of a binary operation, in parentheses if it would not stay
+/// one operand without.
+///
+/// # Arguments
+///
+/// * `printer` - The [`PrettyPrinter`] that will write formatted output to `stream`.
+/// * `stream` - The [`Write`] object that will receive formatted output.
+/// * `factory` - The [`NodePrinterFactory`] object that generates node printers for AST nodes.
+/// * `node` - The binary operation.
+/// * `operand` - The operand of the binary operation.
+/// * `is_left` - True if the operand stands on the left of the operator.
+fn print_operand_helper(
+    printer: &mut PrettyPrinter,
+    stream: &mut dyn Write,
+    factory: &dyn NodePrinterFactory<SolidityAST>,
+    node: &SolidityAST,
+    operand: &SolidityAST,
+    is_left: bool,
+) {
+    let mut needs_parentheses = false;
+    if operand.get_str_for_key("nodeType") == Some("BinaryOperation") {
+        if let Some(operator) = node.get_str_for_key("operator") {
+            if let Some(inner_operator) = operand.get_str_for_key("operator") {
+                let outer = operator_precedence(operator);
+                let inner = operator_precedence(inner_operator);
+                // Only ** groups from the right.
+                let groups_here = is_left != (operator == "**");
+                needs_parentheses = inner < outer || (inner == outer && !groups_here);
+            }
+        }
+    }
+
+    if needs_parentheses {
+        write_token(printer, stream, "(");
+    }
+    traverse_sub_node_and_print(printer, stream, factory, operand);
+    if needs_parentheses {
+        write_token(printer, stream, ")");
+    }
+}
+
 struct BinaryOperationPrinter {}
 
 impl NodePrinter<SolidityAST> for BinaryOperationPrinter {
@@ -957,13 +1020,13 @@ impl NodePrinter<SolidityAST> for BinaryOperationPrinter {
         node: &SolidityAST,
     ) {
         if let Some(le) = node.get("leftExpression") {
-            traverse_sub_node_and_print(printer, stream, factory, le);
+            print_operand_helper(printer, stream, factory, node, le, true);
         }
 
         print_operator_helper(printer, stream, node);
 
         if let Some(re) = node.get("rightExpression") {
-            traverse_sub_node_and_print(printer, stream, factory, re);
+            print_operand_helper(printer, stream, factory, node, re, false);
         }
     }
 }
-- 
2.43.0


From 982fabdb8cc71b17f287d755e78f66155f0e15fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:54 +0000
Subject: [PATCH 45/54] fix: write spaces, not commas, between the modifiers of
 a Solidity function

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 559c9e6..6a1eecb 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -76,7 +76,7 @@ fn print_operator_helper(printer: &mut PrettyPrinter, stream: &mut dyn Write, no
     }
 }
 
-/// Helper function to write an array preceded by a space.
+/// Helper function to write the elements of an array, each preceded by a space.
 ///
 /// # Abstract
 ///
@@ -91,9 +91,9 @@ fn print_space_and_array_helper(
     node: &SolidityAST,
 ) {
     if let Some(array) = node.as_array() {
-        if !array.is_empty() {
+        for element in array {
             write_space(printer, stream);
-            print_array_helper(printer, stream, factory, array);
+            traverse_sub_node_and_print(printer, stream, factory, element);
         }
     }
 }
-- 
2.43.0


From b3e233b49279750ab09817e234e9f54230a27331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:42 +0000
Subject: [PATCH 46/54] fix: print the results of Solidity function types

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 6a1eecb..86e740f 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -2205,7 +2205,16 @@ impl NodePrinter<SolidityAST> for FunctionTypeNamePrinter {
             }
         }
 
-        print_return_parameters_helper(printer, stream, factory, node);
+        if let Some(return_types_node) = node.get("returnParameterTypes") {
+            if let Some(parameters_array) = return_types_node.get_array_for_key("parameters") {
+                if !parameters_array.is_empty() {
+                    write_space(printer, stream);
+                    write_token(printer, stream, "returns");
+                    write_space(printer, stream);
+                    traverse_sub_node_and_print(printer, stream, factory, return_types_node);
+                }
+            }
+        }
     }
 }
 
-- 
2.43.0


From e07c9bba4fb048fa757e84be46e8f4c690c82624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:42 +0000
Subject: [PATCH 47/54] fix: print the names of the keys and values of Solidity
 mappings

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index 86e740f..dd9db48 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -574,6 +574,12 @@ impl NodePrinter<SolidityAST> for MappingPrinter {
         if let Some(key) = node.get("keyType") {
             traverse_sub_node_and_print(printer, stream, factory, key);
         }
+        if let Some(name) = node.get_str_for_key("keyName") {
+            if !name.is_empty() {
+                write_space(printer, stream);
+                write_token(printer, stream, name);
+            }
+        }
 
         write_space(printer, stream);
         write_token(printer, stream, "=>");
@@ -582,6 +588,12 @@ impl NodePrinter<SolidityAST> for MappingPrinter {
         if let Some(value) = node.get("valueType") {
             traverse_sub_node_and_print(printer, stream, factory, value);
         }
+        if let Some(name) = node.get_str_for_key("valueName") {
+            if !name.is_empty() {
+                write_space(printer, stream);
+                write_token(printer, stream, name);
+            }
+        }
 
         write_token(printer, stream, ")");
     }
-- 
2.43.0


From 16e39e82f9eb0c707ef87643c99710c0b7f4b709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:42 +0000
Subject: [PATCH 48/54] fix: print the documentation of Solidity events,
 errors, structs and enums

---
 mutagenyx_lib/src/solidity/pretty_printer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mutagenyx_lib/src/solidity/pretty_printer.rs b/mutagenyx_lib/src/solidity/pretty_printer.rs
index dd9db48..7a795e9 100644
--- a/mutagenyx_lib/src/solidity/pretty_printer.rs
+++ b/mutagenyx_lib/src/solidity/pretty_printer.rs
@@ -495,6 +495,7 @@ impl NodePrinter<SolidityAST> for StructDefinitionPrinter {
         factory: &dyn NodePrinterFactory<SolidityAST>,
         node: &SolidityAST,
     ) {
+        print_documentation_helper(printer, stream, factory, node);
         write_token(printer, stream, "struct");
         write_space(printer, stream);
 
@@ -1890,6 +1891,7 @@ impl NodePrinter<SolidityAST> for ErrorDefinitionPrinter {
         factory: &dyn NodePrinterFactory<SolidityAST>,
         node: &SolidityAST,
     ) {
+        print_documentation_helper(printer, stream, factory, node);
         write_token(printer, stream, "error");
         write_space(printer, stream);
         if let Some(name_str) = node.get_str_for_key("name") {
@@ -2240,6 +2242,7 @@ impl NodePrinter<SolidityAST> for EventDefinitionPrinter {
         factory: &dyn NodePrinterFactory<SolidityAST>,
         node: &SolidityAST,
     ) {
+        print_documentation_helper(printer, stream, factory, node);
         write_token(printer, stream, "event");
         write_space(printer, stream);
         print_name_helper(printer, stream, node);
@@ -2285,6 +2288,7 @@ impl NodePrinter<SolidityAST> for EnumDefinitionPrinter {
         factory: &dyn NodePrinterFactory<SolidityAST>,
         node: &SolidityAST,
     ) {
+        print_documentation_helper(printer, stream, factory, node);
         write_token(printer, stream, "enum");
         write_space(printer, stream);
         print_name_helper(printer, stream, node);
-- 
2.43.0


From 7ad395f28840b719e3f15be974c62bdef6319653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:36 +0000
Subject: [PATCH 49/54] fix: describe swapping two lines or arguments alike in
 either order

---
 mutagenyx_lib/src/solidity/mutators.rs |  8 ++++----
 mutagenyx_lib/src/vyper/mutators.rs    | 14 +++++++-------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/mutators.rs b/mutagenyx_lib/src/solidity/mutators.rs
index dfa4d95..886fdca 100644
--- a/mutagenyx_lib/src/solidity/mutators.rs
+++ b/mutagenyx_lib/src/solidity/mutators.rs
@@ -1604,8 +1604,6 @@ impl Mutator<SolidityAST> for SwapLinesMutator {
                     break;
                 }
 
-                hasher.update(&first_index.to_ne_bytes())?;
-
                 // Try to randomly pick a second node.
                 let mut second_index: usize;
                 loop {
@@ -1623,8 +1621,6 @@ impl Mutator<SolidityAST> for SwapLinesMutator {
                     break;
                 }
 
-                hasher.update(&second_index.to_ne_bytes())?;
-
                 let larger_index = if first_index >= second_index {
                     first_index
                 } else {
@@ -1637,6 +1633,10 @@ impl Mutator<SolidityAST> for SwapLinesMutator {
                     first_index
                 };
 
+                // Swapping two lines is the same change whichever line was picked first.
+                hasher.update(&smaller_index.to_ne_bytes())?;
+                hasher.update(&larger_index.to_ne_bytes())?;
+
                 let larger_node = statements_array.remove(larger_index);
                 let smaller_node = statements_array.remove(smaller_index);
 
diff --git a/mutagenyx_lib/src/vyper/mutators.rs b/mutagenyx_lib/src/vyper/mutators.rs
index 6735b0a..1f47f88 100644
--- a/mutagenyx_lib/src/vyper/mutators.rs
+++ b/mutagenyx_lib/src/vyper/mutators.rs
@@ -1158,14 +1158,14 @@ impl Mutator<VyperAST> for SwapFunctionArgumentsMutator {
                         let mut random_index2 =
                             (rand.next_u64() % args_array.len() as u64) as usize;
 
-                        hasher.update(&random_index1.to_ne_bytes())?;
-
                         // The indexes may be the same, so just iterate until we get a different index.
                         while random_index1 == random_index2 {
                             random_index2 = (rand.next_u64() % args_array.len() as u64) as usize;
                         }
 
-                        hasher.update(&random_index2.to_ne_bytes())?;
+                        // Swapping two arguments is the same change whichever one was picked first.
+                        hasher.update(&random_index1.min(random_index2).to_ne_bytes())?;
+                        hasher.update(&random_index1.max(random_index2).to_ne_bytes())?;
 
                         let arg1 = args_array[random_index1].clone();
                         let arg2 = args_array[random_index2].clone();
@@ -1671,8 +1671,6 @@ impl Mutator<VyperAST> for SwapLinesMutator {
                     break;
                 }
 
-                hasher.update(&first_index.to_ne_bytes())?;
-
                 // Try to randomly pick a second node.
                 let mut second_index: usize;
                 loop {
@@ -1688,8 +1686,6 @@ impl Mutator<VyperAST> for SwapLinesMutator {
                     break;
                 }
 
-                hasher.update(&second_index.to_ne_bytes())?;
-
                 let larger_index = if first_index >= second_index {
                     first_index
                 } else {
@@ -1702,6 +1698,10 @@ impl Mutator<VyperAST> for SwapLinesMutator {
                     first_index
                 };
 
+                // Swapping two lines is the same change whichever line was picked first.
+                hasher.update(&smaller_index.to_ne_bytes())?;
+                hasher.update(&larger_index.to_ne_bytes())?;
+
                 let larger_node = body_array.remove(larger_index);
                 let smaller_node = body_array.remove(smaller_index);
                 body_array.insert(smaller_index, larger_node.clone());
-- 
2.43.0


From 3f26684997cfc825ffd8b73a5a7c2279a1c9289d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:47 +0000
Subject: [PATCH 50/54] fix: keep configuration seeds beyond the signed range

---
 mutagenyx_lib/src/config_file.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mutagenyx_lib/src/config_file.rs b/mutagenyx_lib/src/config_file.rs
index 072d8b3..1439ef1 100644
--- a/mutagenyx_lib/src/config_file.rs
+++ b/mutagenyx_lib/src/config_file.rs
@@ -170,6 +170,9 @@ impl ConfigurationFileDetails {
 
             if let Some(seed) = json_value.get_int_for_key(SEED_KEY) {
                 details.seed = Some(seed as u64);
+            } else if let Some(seed_node) = json_value.get(SEED_KEY) {
+                // The seed may be larger than the largest signed integer.
+                details.seed = seed_node.as_u64();
             }
 
             if let Some(mutations_array) = json_value.get_array_for_key(MUTATIONS_KEY) {
-- 
2.43.0


From bd411077664826730058f9a9d9586536d8c6aa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:21 +0000
Subject: [PATCH 51/54] fix: keep the values of a Vyper BoolOp whose arguments
 are swapped

---
 mutagenyx_lib/src/vyper/mutators.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/mutagenyx_lib/src/vyper/mutators.rs b/mutagenyx_lib/src/vyper/mutators.rs
index 1f47f88..04dfe1e 100644
--- a/mutagenyx_lib/src/vyper/mutators.rs
+++ b/mutagenyx_lib/src/vyper/mutators.rs
@@ -1535,16 +1535,15 @@ impl Mutator<VyperAST> for SwapOperatorArgumentsMutator {
             } else if ast_type == "BoolOp" {
                 if let Some(mut values_node) = node.take_value_for_key("values") {
                     if let Some(values_array) = values_node.as_array_mut() {
-                        let right = values_array.remove(1);
-                        let left = values_array.remove(0);
+                        if values_array.len() > 1 {
+                            // Get the pretty-printed nodes.
+                            left_node_s = pretty_print_node(&values_array[0]);
+                            right_node_s = pretty_print_node(&values_array[1]);
 
-                        // Get the pretty-printed nodes.
-                        left_node_s = pretty_print_node(&left);
-                        right_node_s = pretty_print_node(&right);
-
-                        values_array.push(right);
-                        values_array.push(left);
+                            values_array.swap(0, 1);
+                        }
                     }
+                    node.set_node_for_key("values", values_node);
                 }
             }
 
-- 
2.43.0


From 3d42417865921468be9b4bcdc0501272b0c3a889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:21 +0000
Subject: [PATCH 52/54] fix: mutate only require calls that have arguments

---
 mutagenyx_lib/src/solidity/mutators.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mutagenyx_lib/src/solidity/mutators.rs b/mutagenyx_lib/src/solidity/mutators.rs
index 886fdca..c55fc63 100644
--- a/mutagenyx_lib/src/solidity/mutators.rs
+++ b/mutagenyx_lib/src/solidity/mutators.rs
@@ -1723,9 +1723,9 @@ impl Mutator<SolidityAST> for SolidityRequireMutator {
                                 .map_or_else(|| false, |name| name == "require")
                         },
                     ))
-                    && !node
+                    && node
                         .get_array_for_key("arguments")
-                        .map_or_else(|| false, |v| v.is_empty())
+                        .map_or_else(|| false, |v| !v.is_empty())
             },
         );
     }
-- 
2.43.0


From f915888dbb06ea645f7a6f8cbc1a1a7e1c9aada5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:54 +0000
Subject: [PATCH 53/54] fix: show the algorithms on a terminal that reports no
 columns

---
 mutagenyx/src/mutations_info.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/mutagenyx/src/mutations_info.rs b/mutagenyx/src/mutations_info.rs
index 24dbea2..31536f6 100644
--- a/mutagenyx/src/mutations_info.rs
+++ b/mutagenyx/src/mutations_info.rs
@@ -42,17 +42,16 @@ pub fn display_mutations_info(params: AlgorithmsCLArgs) {
 /// in the event that someone runs Mutagenyx in a non-terminal context.  Returns the size of the
 /// running terminal (in rows and columns).
 fn get_terminal_size() -> termsize::Size {
-    // Get the console dimensions.
-    if let Some(size) = termsize::get() {
-        size
-    } else {
+    // Get the console dimensions.  A terminal whose size nobody has set reports zero columns.
+    match termsize::get() {
+        Some(size) if size.cols > 0 => size,
         // We get to this case if the tool runs in a non-terminal window (ie as part of a script
         // running somewhere in a workflow.
-        termsize::Size {
+        _ => termsize::Size {
             // In this use case, rows doesn't matter, we only need a semi-valid cols value.
             rows: 50,
             cols: 80,
-        }
+        },
     }
 }
 
-- 
2.43.0


From 94107d566aa6823bc6582a2e959dca483f6d5b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:26 +0000
Subject: [PATCH 54/54] fix: name the configuration saved for a hidden file
 after the file

---
 mutagenyx/src/mutation_generator.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mutagenyx/src/mutation_generator.rs b/mutagenyx/src/mutation_generator.rs
index f88dfc9..e3d96e0 100644
--- a/mutagenyx/src/mutation_generator.rs
+++ b/mutagenyx/src/mutation_generator.rs
@@ -341,10 +341,10 @@ fn generate_mutations(params: &mut GeneratorParameters) -> Result<(), MutagenyxE
         let input_file_name = PathBuf::from(&params.file_name);
         let mut base_file_name =
             String::from(input_file_name.file_name().unwrap().to_str().unwrap());
-        let base_out_file_name: String = if let Some(index) = base_file_name.rfind('.') {
-            base_file_name.drain(..index).collect()
-        } else {
-            base_file_name
+        // A period at the start of the name does not separate an extension from the name.
+        let base_out_file_name: String = match base_file_name.rfind('.') {
+            Some(index) if index > 0 => base_file_name.drain(..index).collect(),
+            _ => base_file_name,
         };
         let file_extension = String::from(".") + CONFIG_FILE_EXTENSION;
         let out_file_name = base_out_file_name + file_extension.as_str();
-- 
2.43.0

