From 5090011c6c7862126089a2085d5b9c7c427cc240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:57 +0000
Subject: [PATCH 001/105] fix: keep the parentheses that non-associative and
 unary operators need

---
 src/expr.cc | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index ced5806..f152710 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1423,6 +1423,18 @@ std::shared_ptr<AssignStmt> Var::assign(Var &var, AssignmentType type) {
     return assign(var_ptr, type);
 }
 
+// whether the operand of an expression can be printed without parentheses because it uses the same
+// operator. only the right operand of an associative operator can be regrouped, and nested unary
+// operators would otherwise be read as a different token, e.g. --
+bool static same_op_no_paren(const Expr *expr, const Expr *operand, bool is_right) {
+    if (expr->op != operand->op || !expr->right) return false;
+    if (!is_right) return true;
+    static const std::unordered_set<ExprOp> ops = {ExprOp::Add, ExprOp::Multiply, ExprOp::Or,
+                                                   ExprOp::And, ExprOp::Xor,      ExprOp::LAnd,
+                                                   ExprOp::LOr};
+    return operand->right && ops.find(expr->op) != ops.end();
+}
+
 std::string inline expr_to_string(const Expr *expr, bool is_top, bool use_handle,
                                   bool ignore_top = false, Generator *scope = nullptr) {
     // overloaded to_string methods?
@@ -1439,7 +1451,8 @@ std::string inline expr_to_string(const Expr *expr, bool is_top, bool use_handle
     auto *right = expr->right;
 
     auto left_str = left->type() == VarType::Expression
-                        ? expr_to_string(left->as<Expr>().get(), expr->op == left->as<Expr>()->op,
+                        ? expr_to_string(left->as<Expr>().get(),
+                                         same_op_no_paren(expr, left->as<Expr>().get(), false),
                                          use_handle, ignore_top, scope)
                         : (use_handle ? left->handle_name(ignore_top)
                            : scope    ? left->handle_name(scope)
@@ -1448,8 +1461,9 @@ std::string inline expr_to_string(const Expr *expr, bool is_top, bool use_handle
     if (right != nullptr) {
         auto right_str =
             right->type() == VarType::Expression
-                ? expr_to_string(right->as<Expr>().get(), expr->op == right->as<Expr>()->op,
-                                 use_handle, ignore_top, scope)
+                ? expr_to_string(right->as<Expr>().get(),
+                                 same_op_no_paren(expr, right->as<Expr>().get(), true), use_handle,
+                                 ignore_top, scope)
                 : (use_handle ? right->handle_name(ignore_top)
                    : scope    ? right->handle_name(scope)
                               : right->to_string());
-- 
2.43.0


From 7e89710d5ce23c4d2767714ecbf0c2412d4b3e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:57 +0000
Subject: [PATCH 002/105] fix: unary minus and reduction and are unary
 operators

---
 src/expr.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index f152710..8caad0c 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -45,7 +45,7 @@ bool is_ternary_op(ExprOp op) { return op == ExprOp::Conditional; }
 
 bool is_unary_op(ExprOp op) {
     static std::unordered_set<ExprOp> ops = {ExprOp::UXor,  ExprOp::UPlus, ExprOp::UOr,
-                                             ExprOp::UNot,  ExprOp::UXor,  ExprOp::UInvert,
+                                             ExprOp::UNot,  ExprOp::UAnd,  ExprOp::UInvert,
                                              ExprOp::UMinus};
     return ops.find(op) != ops.end();
 }
@@ -63,7 +63,7 @@ Expr &Var::operator-(const Var &var) const {
 }
 
 Expr &Var::operator-() const {
-    return generator()->expr(ExprOp::Minus, const_cast<Var *>(this), nullptr);
+    return generator()->expr(ExprOp::UMinus, const_cast<Var *>(this), nullptr);
 }
 
 Expr &Var::operator~() const {
-- 
2.43.0


From 6ca1aa2058d6cec884f8ae5c2d5c412a7f7ee9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:34 +0000
Subject: [PATCH 003/105] fix: print 64-bit constants with the top bit set as
 unsigned digits

---
 src/expr.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index 8caad0c..f8a2bb5 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1411,9 +1411,9 @@ std::string Const::to_string() const {
             return ::format("{0}\'h{1}", width(), hex_value_);
         }
     } else if (is_signed_ && value_ < 0) {
-        return ::format("-{0}\'h{1:X}", width(), -value_);
+        return ::format("-{0}\'h{1:X}", width(), -static_cast<uint64_t>(value_));
     } else {
-        return ::format("{0}\'h{1:X}", width(), value_);
+        return ::format("{0}\'h{1:X}", width(), static_cast<uint64_t>(value_));
     }
 }
 
-- 
2.43.0


From 3312948e87bace37be2ecfee0c8ef5c5c1c81580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:12 +0000
Subject: [PATCH 004/105] fix: comparisons and reductions are unsigned, one bit
 wide results

---
 src/expr.cc | 5 ++++-
 src/sim.cc  | 7 +++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index f8a2bb5..71d0a7c 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -775,7 +775,10 @@ Expr::Expr(ExprOp op, Var *left, Var *right)
     else
         var_width_ = left->var_width();
 
-    if (right != nullptr)
+    // comparison and reduction results are always unsigned
+    if (is_relational_op(op) || is_reduction_op(op))
+        is_signed_ = false;
+    else if (right != nullptr)
         is_signed_ = left->is_signed() && right->is_signed();
     else
         is_signed_ = left->is_signed();
diff --git a/src/sim.cc b/src/sim.cc
index 4232ae9..f317692 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -821,8 +821,11 @@ std::optional<std::vector<uint64_t>> Simulator::eval_expr(const kratos::Var *var
                 if ((*right_val).size() > 1) throw std::runtime_error("Not implemented");
                 auto left_value = (*left_val)[0];
                 auto right_value = (*right_val)[0];
-                auto result = eval_bin_op(left_value, right_value, expr->op, expr->width(),
-                                          expr->is_signed());
+                // a comparison is one bit wide, but it is evaluated at its operands' width and sign
+                auto const is_signed = expr->left->is_signed() && expr->right->is_signed();
+                auto const width =
+                    is_relational_op(expr->op) ? expr->left->width() : expr->width();
+                auto result = eval_bin_op(left_value, right_value, expr->op, width, is_signed);
                 return std::vector<uint64_t>{result};
             } else {
                 auto left_value = (*left_val)[0];
-- 
2.43.0


From 42617e6d9878e687e7dbace728bf2c75e223dc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:09 +0000
Subject: [PATCH 005/105] fix: logical and/or produce one bit results like the
 other relational operators

---
 src/expr.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/expr.cc b/src/expr.cc
index 71d0a7c..ed94470 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -27,7 +27,8 @@ namespace kratos {
 bool is_relational_op(ExprOp op) {
     static std::unordered_set<ExprOp> ops = {ExprOp::LessThan,   ExprOp::GreaterThan,
                                              ExprOp::LessEqThan, ExprOp::GreaterEqThan,
-                                             ExprOp::Eq,         ExprOp::Neq};
+                                             ExprOp::Eq,         ExprOp::Neq,
+                                             ExprOp::LAnd,       ExprOp::LOr};
     return ops.find(op) != ops.end();
 }
 
-- 
2.43.0


From 05919ca1dc5445c4e3aca2eea651a307c953fbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:09 +0000
Subject: [PATCH 006/105] fix: rewrite every use of a variable when its
 connections are moved

Uses below casts, extensions, concatenations, function calls, slice indices and
statement predicates kept the old variable, so the generated code referred to
ports that are not visible in that scope.
---
 src/expr.cc | 199 ++++++++++++++++++++++++----------------------------
 src/expr.hh |   1 +
 src/stmt.cc |   8 +--
 src/stmt.hh |   5 +-
 4 files changed, 99 insertions(+), 114 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index ed94470..a7d5993 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1502,132 +1502,109 @@ IRNode *Expr::get_child(uint64_t index) {
         return nullptr;
 }
 
-void set_slice_var_parent(Var *&var, Var *target, Var *new_var, bool check_target) {
-    std::shared_ptr<VarSlice> slice;
-    Var *parent_var = var;
-    std::vector<std::shared_ptr<VarSlice>> slices;
-    while (parent_var->type() == VarType::Slice) {
-        // this is for nested slicing
-        slice = parent_var->as<VarSlice>();
-        slices.emplace_back(slice);
-        parent_var = slice->parent_var;
-    }
-    if (parent_var != target) {
-        if (check_target)
-            throw InternalException("Target not found");
-        else
-            return;
-    }
-    if (!slice) throw InternalException("Slice cannot be null");
-
-    auto new_var_ptr = new_var->as<Var>();
-    std::reverse(slices.begin(), slices.end());
-    for (auto const &s : slices) {
-        new_var_ptr = s->slice_var(new_var_ptr);
+void change_var_expr(const std::shared_ptr<Expr> &expr, Var *target, Var *new_var,
+                     bool move_linked = true);
+
+// returns var with every use of the target replaced with the new variable. slices, casts, extensions
+// and concatenations are cached by the variable they are created from and thus can be used elsewhere,
+// so they will be re-created from the new variable
+Var *replace_var(Var *var, Var *target, Var *new_var) {
+    if (var == target) return new_var;
+    switch (var->type()) {
+        case VarType::Slice: {
+            auto slice = var->as<VarSlice>();
+            auto *parent = replace_var(slice->parent_var, target, new_var);
+            if (slice->sliced_by_var()) {
+                auto *sliced_var = slice->as<VarVarSlice>()->sliced_var();
+                auto *new_sliced_var = replace_var(sliced_var, target, new_var);
+                if (parent == slice->parent_var && sliced_var == new_sliced_var) return var;
+                return &(*parent)[new_sliced_var->shared_from_this()];
+            }
+            if (parent == slice->parent_var) return var;
+            return slice->slice_var(parent->shared_from_this()).get();
+        }
+        case VarType::BaseCasted: {
+            auto casted = var->as<VarCasted>();
+            auto *parent = replace_var(casted->parent_var(), target, new_var);
+            if (parent == casted->parent_var()) return var;
+            auto new_casted = parent->cast(casted->cast_type());
+            if (new_casted->type() == VarType::BaseCasted) {
+                auto v = new_casted->as<VarCasted>();
+                if (casted->is_enum()) v->set_enum_type(const_cast<Enum *>(casted->enum_type()));
+                if (casted->cast_type() == VarCastType::Resize)
+                    v->set_target_width(casted->width());
+            }
+            return new_casted.get();
+        }
+        case VarType::Expression: {
+            auto expr = var->as<Expr>();
+            if (expr->op == ExprOp::Concat) {
+                auto concat = expr->as<VarConcat>();
+                auto vars = std::vector<Var *>(concat->vars().begin(), concat->vars().end());
+                bool changed = false;
+                for (auto &v : vars) {
+                    auto *new_v = replace_var(v, target, new_var);
+                    changed = changed || new_v != v;
+                    v = new_v;
+                }
+                if (!changed || vars.size() < 2) return var;
+                // the concatenation is owned by its first variable
+                auto *result = &vars[0]->concat(*vars[1]);
+                for (uint64_t i = 2; i < vars.size(); i++) result = &result->concat(*vars[i]);
+                return result;
+            }
+            if (expr->op == ExprOp::Extend) {
+                auto *parent = expr->as<VarExtend>()->parent_var();
+                auto *new_parent = replace_var(parent, target, new_var);
+                return parent == new_parent ? var : &new_parent->extend(var->width());
+            }
+            change_var_expr(expr, target, new_var);
+            return var;
+        }
+        default: {
+            if (var->is_function()) {
+                if (auto *call = dynamic_cast<FunctionCallVar *>(var))
+                    call->replace_var(target, new_var);
+            }
+            return var;
+        }
     }
-    var = new_var_ptr.get();
 }
 
-void change_var_expr(const std::shared_ptr<Expr> &expr, Var *target, Var *new_var,
-                     bool move_linked = true) {
+void change_var_expr(const std::shared_ptr<Expr> &expr, Var *target, Var *new_var, bool) {
     if (!new_var || !target) throw InternalException("Variable is NULL");
-    if (expr->left->type() == VarType::Expression) {
-        change_var_expr(expr->left->as<Expr>(), target, new_var, move_linked);
-    }
-    if (expr->right && expr->right->type() == VarType::Expression) {
-        change_var_expr(expr->right->as<Expr>(), target, new_var, move_linked);
-    }
-
-    if (expr->left == target) {
-        expr->left = new_var;
-        if (move_linked) expr->left->move_linked_to(new_var);
-    }
-    if (expr->right && expr->right == target) {
-        expr->right = new_var;
-        if (move_linked) expr->right->move_linked_to(new_var);
-    }
-
-    // need to change the parent as well
-    if (expr->left->type() == VarType::Slice) {
-        set_slice_var_parent(expr->left, target, new_var, false);
-    }
-    if (expr->right && expr->right->type() == VarType::Slice) {
-        set_slice_var_parent(expr->right, target, new_var, false);
-    }
-    // we did some tricks on the concatenation, need to update them there
-    if (expr->op == ExprOp::Concat) {
-        auto concat = expr->as<VarConcat>();
-        concat->replace_var(target->shared_from_this(), new_var->shared_from_this());
-    }
+    expr->left = replace_var(expr->left, target, new_var);
+    if (expr->right) expr->right = replace_var(expr->right, target, new_var);
     // need to deal with ternary op as well
     if (expr->op == ExprOp::Conditional) {
         auto ternary = expr->as<ConditionalExpr>();
-        auto *cond = ternary->condition;
-        if (cond->type() == VarType::Expression) {
-            change_var_expr(cond->as<Expr>(), target, new_var);
-        } else if (cond == target) {
-            ternary->condition = new_var;
-        } else if (cond->type() == VarType::Slice) {
-            set_slice_var_parent(cond, target, new_var, false);
-        }
+        ternary->condition = replace_var(ternary->condition, target, new_var);
     }
     expr->set_parent();
 }
 
-void change_cast_parent(const std::shared_ptr<VarCasted> &var, Var *target, Var *new_var);
-
-void change_var_parent(Var *&var, Var *target, Var *new_var) {
-    if (var->type() == VarType::Slice) {
-        set_slice_var_parent(var, target, new_var, true);
-    } else if (var->type() == VarType::Expression) {
-        auto expr = var->as<Expr>();
-        change_var_expr(expr, target, new_var);
-    } else if (var->type() == VarType::BaseCasted) {
-        change_cast_parent(var->as<VarCasted>(), target, new_var);
-    }
-}
-
-void change_cast_parent(const std::shared_ptr<VarCasted> &var, Var *target, Var *new_var) {
-    auto &p = var->parent_var();
-    if (p == target) {
-        p = new_var;
-    } else {
-        change_var_parent(p, target, new_var);
+// the variables that index into the left hand side are read by the statement as well
+static Var *replace_index(Var *left, Var *target, Var *new_var) {
+    if (left->type() != VarType::Slice) return left;
+    auto slice = left->as<VarSlice>();
+    auto *parent = replace_index(slice->parent_var, target, new_var);
+    if (slice->sliced_by_var()) {
+        auto *sliced_var = slice->as<VarVarSlice>()->sliced_var();
+        auto *new_sliced_var = replace_var(sliced_var, target, new_var);
+        if (parent == slice->parent_var && sliced_var == new_sliced_var) return left;
+        return &(*parent)[new_sliced_var->shared_from_this()];
     }
+    if (parent == slice->parent_var) return left;
+    return slice->slice_var(parent->shared_from_this()).get();
 }
 
 void stmt_set_right(AssignStmt *stmt, Var *target, Var *new_var) {
-    auto &right = stmt->right();
-    if (right->type() == VarType::Base || right->type() == VarType::PortIO ||
-        right->type() == VarType::ConstValue) {
-        if (right == target) {
-            stmt->set_right(new_var->shared_from_this());
-            right->move_linked_to(new_var);
-        } else {
-            throw InternalException("Target not found");
-        }
-    } else if (right->type() == VarType::Slice) {
-        set_slice_var_parent(right, target, new_var, true);
-    } else if (right->type() == VarType::Expression) {
-        change_var_expr(stmt->right()->as<Expr>(), target, new_var);
-    } else {
-        change_var_parent(right, target, new_var);
-    }
+    stmt->right() = replace_var(stmt->right(), target, new_var);
+    stmt->left() = replace_index(stmt->left(), target, new_var);
 }
 
 void stmt_set_left(AssignStmt *stmt, Var *target, Var *new_var) {
-    auto &left = stmt->left();
-    if (left->type() == VarType::Base || left->type() == VarType::PortIO ||
-        left->type() == VarType::ConstValue) {
-        if (left == target) {
-            stmt->set_left(new_var->shared_from_this());
-            left->move_linked_to(new_var);
-        } else {
-            throw InternalException("Target not found");
-        }
-    } else {
-        change_var_parent(left, target, new_var);
-    }
+    stmt->left() = replace_var(stmt->left(), target, new_var);
 }
 
 void Var::move_src_to(Var *var, Var *new_var, Generator *parent, bool keep_connection) {
@@ -2357,6 +2334,12 @@ void FunctionCallVar::remove_sink(const std::shared_ptr<AssignStmt> &stmt) {
     }
 }
 
+void FunctionCallVar::replace_var(Var *target, Var *new_var) {
+    for (auto &iter : args_) {
+        iter.second = kratos::replace_var(iter.second.get(), target, new_var)->shared_from_this();
+    }
+}
+
 std::string FunctionCallVar::to_string() const {
     auto name =
         func_def_->is_builtin() ? "$" + func_def_->function_name() : func_def_->function_name();
diff --git a/src/expr.hh b/src/expr.hh
index 708f64b..43ec7a4 100644
--- a/src/expr.hh
+++ b/src/expr.hh
@@ -844,6 +844,7 @@ public:
 
     void add_sink(const std::shared_ptr<AssignStmt> &stmt) override;
     void remove_sink(const std::shared_ptr<AssignStmt> &stmt) override;
+    void replace_var(Var *target, Var *new_var);
     void add_source(const std::shared_ptr<AssignStmt> &) override {
         throw std::runtime_error("Slice a function call is not allowed");
     }
diff --git a/src/stmt.cc b/src/stmt.cc
index c2cc026..6960a43 100644
--- a/src/stmt.cc
+++ b/src/stmt.cc
@@ -313,7 +313,7 @@ void IfStmt::set_parent(IRNode *node) {
 
 IRNode *IfStmt::get_child(uint64_t index) {
     if (index == 0)
-        return predicate_.get();
+        return predicate_stmt_->right();
     else if (index == 1)
         return then_body_.get();
     else if (index == 2)
@@ -330,7 +330,7 @@ void IfStmt::add_scope_variable(const std::string &name, const std::string &valu
 }
 
 std::shared_ptr<Stmt> IfStmt::clone() const {
-    auto if_ = std::make_shared<IfStmt>(predicate_);
+    auto if_ = std::make_shared<IfStmt>(predicate());
     auto then_clone = then_body_->clone();
     auto else_clone = else_body_->clone();
 
@@ -611,7 +611,7 @@ void SwitchStmt::remove_stmt(const std::shared_ptr<kratos::Stmt> &stmt) {
 
 IRNode *SwitchStmt::get_child(uint64_t index) {
     if (index == 0) {
-        return target_.get();
+        return target_stmt_->right();
     } else {
         // need to make it deterministic
         index--;
@@ -640,7 +640,7 @@ void SwitchStmt::add_scope_variable(const std::string &name, const std::string &
 }
 
 std::shared_ptr<Stmt> SwitchStmt::clone() const {
-    auto switch_ = std::make_shared<SwitchStmt>(target_);
+    auto switch_ = std::make_shared<SwitchStmt>(target());
     // clone the cases
     for (auto const &[cond, stmt] : body_) {
         auto cloned_stmt = stmt->clone()->as<ScopedStmtBlock>();
diff --git a/src/stmt.hh b/src/stmt.hh
index e565ac7..2d0f10e 100644
--- a/src/stmt.hh
+++ b/src/stmt.hh
@@ -150,7 +150,8 @@ public:
     explicit IfStmt(std::shared_ptr<Var> predicate);
     explicit IfStmt(Var &var) : IfStmt(var.shared_from_this()) {}
 
-    std::shared_ptr<Var> predicate() const { return predicate_; }
+    // the statement holds the up-to-date reference since the variable can be replaced
+    std::shared_ptr<Var> predicate() const { return predicate_stmt_->right()->shared_from_this(); }
     void set_predicate(const std::shared_ptr<Var> &var);
     const std::shared_ptr<ScopedStmtBlock> &then_body() const { return then_body_; }
     const std::shared_ptr<ScopedStmtBlock> &else_body() const { return else_body_; }
@@ -203,7 +204,7 @@ public:
                             const std::shared_ptr<Stmt> &stmt);
     void remove_stmt(const std::shared_ptr<Stmt> &stmt) override;
 
-    std::shared_ptr<Var> target() const { return target_; }
+    std::shared_ptr<Var> target() const { return target_stmt_->right()->shared_from_this(); }
     void set_target(const std::shared_ptr<Var> &target);
 
     const std::map<std::shared_ptr<Const>, std::shared_ptr<ScopedStmtBlock>> &body() const {
-- 
2.43.0


From 1fca234145e73dd4199ca7c222c61336d3415cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:13 +0000
Subject: [PATCH 007/105] fix: only fold a constant that fully defines a port
 into the instance connection

---
 src/optimize.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/optimize.cc b/src/optimize.cc
index 65e4f4b..9186cd6 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -1037,6 +1037,10 @@ class MergeConstPortVisitor : public IRVisitor {
                 }
                 auto* source_from = source_stmt->right();
                 auto* sink_to = sink_stmt->left();
+                // only if the constant fully defines the port
+                if (source_stmt->left() != var.get() || sink_stmt->right() != var.get()) continue;
+                if (source_stmt->parent() != generator || sink_stmt->parent() != generator)
+                    continue;
                 if (source_from->type() == VarType::ConstValue &&
                     sink_to->type() == VarType::PortIO &&
                     sink_to->generator()->parent() == generator) {
-- 
2.43.0


From f63e690584d4a02674feba00070e8ec84d51d005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:23 +0000
Subject: [PATCH 008/105] fix: a port indexed by a variable at any level counts
 as connected

---
 src/analysis.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/analysis.cc b/src/analysis.cc
index ad58b54..108d170 100644
--- a/src/analysis.cc
+++ b/src/analysis.cc
@@ -1501,7 +1501,6 @@ void check_always_sensitivity(Generator* top) {
 }
 
 bool connected(const std::shared_ptr<Port>& port, std::unordered_set<uint32_t>& bits) {
-    bool result = false;
     bits.reserve(port->width());
     if (!port->sources().empty()) {
         // it has been assigned. need to compute all the slices
@@ -1520,7 +1519,12 @@ bool connected(const std::shared_ptr<Port>& port, std::unordered_set<uint32_t>&
                     // it's actually not driven by the current net
                     continue;
                 } else {
-                    if (ptr->sliced_by_var()) {
+                    bool sliced_by_var = false;
+                    for (Var* v = ptr.get(); v->type() == VarType::Slice;
+                         v = v->as<VarSlice>()->parent_var) {
+                        if (v->as<VarSlice>()->sliced_by_var()) sliced_by_var = true;
+                    }
+                    if (sliced_by_var) {
                         // possibly to hit all bits
                         low = 0;
                         high = port->width() - 1;
@@ -1533,14 +1537,12 @@ bool connected(const std::shared_ptr<Port>& port, std::unordered_set<uint32_t>&
                     bits.emplace(i);
                 }
             } else {
-                result = true;
                 for (uint32_t i = 0; i < port->width(); i++) bits.emplace(i);
                 break;
             }
         }
     }
-    if (result && bits.size() != port->width()) result = false;
-    return result;
+    return bits.size() == port->width();
 }
 
 class GeneratorConnectivityVisitor : public IRVisitor {
-- 
2.43.0


From 9cf238c87ee9c580e1783705bbb7da93413e3a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:23 +0000
Subject: [PATCH 009/105] fix: keep the scope of rewritten concatenations and
 extensions up to date

---
 src/expr.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index a7d5993..0b90a81 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1547,7 +1547,13 @@ Var *replace_var(Var *var, Var *target, Var *new_var) {
                     changed = changed || new_v != v;
                     v = new_v;
                 }
-                if (!changed || vars.size() < 2) return var;
+                if (!changed || vars.size() < 2) {
+                    // the operands can be rewritten in place
+                    if (expr->left->type() == VarType::Expression)
+                        replace_var(expr->left, target, new_var);
+                    expr->set_parent();
+                    return var;
+                }
                 // the concatenation is owned by its first variable
                 auto *result = &vars[0]->concat(*vars[1]);
                 for (uint64_t i = 2; i < vars.size(); i++) result = &result->concat(*vars[i]);
@@ -1556,7 +1562,9 @@ Var *replace_var(Var *var, Var *target, Var *new_var) {
             if (expr->op == ExprOp::Extend) {
                 auto *parent = expr->as<VarExtend>()->parent_var();
                 auto *new_parent = replace_var(parent, target, new_var);
-                return parent == new_parent ? var : &new_parent->extend(var->width());
+                if (parent != new_parent) return &new_parent->extend(var->width());
+                expr->set_parent();
+                return var;
             }
             change_var_expr(expr, target, new_var);
             return var;
-- 
2.43.0


From 8651ef3ada8a727948ad0dcb301749f516a68da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:40 +0000
Subject: [PATCH 010/105] fix: only merge slice assignments that copy every bit
 to its own position, in place

---
 src/optimize.cc | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index 9186cd6..411f8f2 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -446,6 +446,16 @@ private:
             if (left_parent->size().size() != right_parent->size().size() ||
                 left_parent->size().front() != right_parent->size().front())
                 continue;
+            // every element has to be assigned from the one at the same position
+            if (left_slice->sliced_by_var() || right_slice->sliced_by_var()) continue;
+            if (left_slice->var_low() != right_slice->var_low() ||
+                left_slice->var_high() != right_slice->var_high())
+                continue;
+            // the variables have to be assignable as a whole
+            if (left_parent->is_signed() != right_parent->is_signed() ||
+                left_parent->is_packed() != right_parent->is_packed() ||
+                left_parent->size() != right_parent->size())
+                continue;
 
             slice_vars[{left_parent, right_parent}].emplace_back(assign_stmt);
         }
@@ -457,6 +467,7 @@ private:
             // NOTE:
             // we assume that at this stage we've passed the connectivity check
             if (stmts.size() != left->width()) continue;
+            if (!mergeable(generator, stmts)) continue;
 
             // remove left's sources and right's sink
             // also add it to the statements to remove
@@ -469,6 +480,30 @@ private:
             create_new_assignment(generator, stmts, left, right);
         }
     }
+    static bool mergeable(Generator*, const std::vector<std::shared_ptr<AssignStmt>>& stmts) {
+        std::set<uint32_t> bits;
+        for (auto const& stmt : stmts) bits.emplace(stmt->left()->as<VarSlice>()->var_low());
+        return bits.size() == stmts.size();
+    }
+
+    static bool mergeable(StmtBlock* block, const std::vector<std::shared_ptr<AssignStmt>>& stmts) {
+        if (!mergeable(static_cast<Generator*>(nullptr), stmts)) return false;
+        // statements in a block are executed in order, other statements cannot be in between
+        auto [first, last] = stmt_range(block, stmts);
+        return last - first + 1 == stmts.size();
+    }
+
+    static std::pair<uint64_t, uint64_t> stmt_range(
+        StmtBlock* block, const std::vector<std::shared_ptr<AssignStmt>>& stmts) {
+        uint64_t first = block->size(), last = 0;
+        for (uint64_t i = 0; i < block->size(); i++) {
+            if (std::find(stmts.begin(), stmts.end(), block->get_stmt(i)) == stmts.end()) continue;
+            first = std::min(first, i);
+            last = i;
+        }
+        return {first, last};
+    }
+
     void static create_new_assignment(Generator* generator,
                                       const std::vector<std::shared_ptr<AssignStmt>>& stmts,
                                       Var* const left, Var* const right) {
@@ -492,7 +527,7 @@ private:
         // use the first assignment type. assume all the assignment has passed the
         // mixed assignment check
         auto new_stmt = left->assign(right->shared_from_this(), stmts[0]->assign_type());
-        block->add_stmt(new_stmt);
+        block->set_child(stmt_range(block, stmts).first, new_stmt);
         auto* generator = get_parent(block);
         if (generator->debug) {
             // merge all the statements
-- 
2.43.0


From cb038ba03e8d890d5c4064eab7bd9f0bb9d398c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:40 +0000
Subject: [PATCH 011/105] fix: hierarchical names of extended and duplicated
 variables

---
 src/expr.cc | 31 ++++++++++++++++++++++++++-----
 src/expr.hh |  4 ++++
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index 0b90a81..e2af700 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1366,6 +1366,14 @@ std::string VarExtend::to_string() const {
     return ::format("{0}'({1})", width(), parent_->to_string());
 }
 
+std::string VarExtend::handle_name(bool ignore_top) const {
+    return ::format("{0}'({1})", width(), parent_->handle_name(ignore_top));
+}
+
+std::string VarExtend::handle_name(kratos::Generator *scope) const {
+    return ::format("{0}'({1})", width(), parent_->handle_name(scope));
+}
+
 VarDuplicated::VarDuplicated(Var *var, uint32_t count) : Expr(ExprOp::Duplicate, var, nullptr) {
     auto &c = Const::constant(static_cast<int64_t>(count), 32, false);
     right = &c;
@@ -1395,15 +1403,28 @@ void VarDuplicated::remove_source(const std::shared_ptr<AssignStmt> &stmt) {
     left->remove_source(stmt);
 }
 
-std::string VarDuplicated::to_string() const {
-    if (left->type() == VarType::Expression) {
-        auto expr = left->as<Expr>();
+static std::string duplicated_to_string(const Var *var, const std::string &name,
+                                        const std::string &count) {
+    if (var->type() == VarType::Expression) {
+        auto const *expr = dynamic_cast<const Expr *>(var);
         if (expr->op == ExprOp::Concat) {
-            return fmt::format("{{{0}{1}}}", right->to_string(), left->to_string());
+            return fmt::format("{{{0}{1}}}", count, name);
         }
     }
 
-    return fmt::format("{{{0}{{{1}}}}}", right->to_string(), left->to_string());
+    return fmt::format("{{{0}{{{1}}}}}", count, name);
+}
+
+std::string VarDuplicated::to_string() const {
+    return duplicated_to_string(left, left->to_string(), right->to_string());
+}
+
+std::string VarDuplicated::handle_name(bool ignore_top) const {
+    return duplicated_to_string(left, left->handle_name(ignore_top), right->to_string());
+}
+
+std::string VarDuplicated::handle_name(kratos::Generator *scope) const {
+    return duplicated_to_string(left, left->handle_name(scope), right->to_string());
 }
 
 std::string Const::to_string() const {
diff --git a/src/expr.hh b/src/expr.hh
index 43ec7a4..406d717 100644
--- a/src/expr.hh
+++ b/src/expr.hh
@@ -709,6 +709,8 @@ public:
     IRNode *get_child(uint64_t index) override { return index == 0 ? parent_ : nullptr; }
 
     std::string to_string() const override;
+    std::string handle_name(bool ignore_top) const override;
+    std::string handle_name(Generator *scope) const override;
     Var *parent_var() const { return parent_; }
 
 private:
@@ -727,6 +729,8 @@ public:
     void remove_source(const std::shared_ptr<AssignStmt> &stmt) override;
 
     std::string to_string() const override;
+    std::string handle_name(bool ignore_top) const override;
+    std::string handle_name(Generator *scope) const override;
 };
 
 struct ConditionalExpr : public Expr {
-- 
2.43.0


From f7663bc112c3d94bf0b1f436ab4c238d3b06a15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:06 +0000
Subject: [PATCH 012/105] fix: keep ports driven when removing wires with a
 single fanout

---
 src/optimize.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index 411f8f2..b22d36f 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -227,9 +227,10 @@ public:
             }
 
             auto dst = chain.back().first;
-            Var::move_src_to(var.get(), dst.get(), generator, false);
-            // if both of them are ports, we need to add a statement
-            if (var->type() == VarType::PortIO && dst->type() == VarType::PortIO) {
+            if (var->type() != VarType::PortIO) {
+                Var::move_src_to(var.get(), dst.get(), generator, false);
+            } else {
+                // ports are visible outside the generator, so we need to add a statement
                 // need to add a top assign statement
                 auto stmt = dst->assign(var, AssignmentType::Blocking);
                 if (generator->debug) {
@@ -245,7 +246,9 @@ public:
     void static compute_assign_chain(
         const std::shared_ptr<Var>& var,
         std::vector<std::pair<std::shared_ptr<Var>, std::shared_ptr<AssignStmt>>>& queue) {
-        if (var->sinks().size() == 1) {
+        // ports cannot be bypassed since they are visible outside the generator
+        bool bypass = queue.empty() || var->type() != VarType::PortIO;
+        if (bypass && var->sinks().size() == 1) {
             auto const& stmt = *(var->sinks().begin());
             if (!stmt->parent()) return;
             if (stmt->parent()->ir_node_kind() == IRNodeKind::GeneratorKind) {
-- 
2.43.0


From 4c3e4b6de427c36997e22d98a173b1b371566573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:56 +0000
Subject: [PATCH 013/105] fix: if statements testing the same value twice
 cannot become a case statement

---
 src/optimize.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index b22d36f..75c09cb 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -29,7 +29,9 @@ private:
             std::vector<std::shared_ptr<IfStmt>> if_stmts;
             if (has_target_if(stmt, target, if_stmts) && target) {
                 uint64_t cases = if_stmts.size();
-                uint64_t expected_case = 1u << target->width();
+                // very wide targets can never be fully enumerated
+                auto const width = target->width();
+                uint64_t expected_case = width < 64 ? (uint64_t(1) << width) : ~uint64_t(0);
                 bool has_else = !(if_stmts.back()->else_body()->empty());
                 if (expected_case > 1 && (cases >= expected_case || has_else)) {
                     auto switch_stmt = change_if_to_switch(stmt->as<IfStmt>(), if_stmts);
@@ -63,6 +65,13 @@ private:
             (expr->right->type() != VarType::Parameter))
             return false;
         if (if_->else_body()->size() > 1) return false;
+        // the same value cannot be tested twice, since a case statement picks one of the branches
+        // without the order of the if statements
+        auto const value = expr->right->as<Const>()->value();
+        if (std::any_of(if_stmts.begin(), if_stmts.end(), [value](auto const& other) {
+                return other->predicate()->template as<Expr>()->right->template as<Const>()->value() == value;
+            }))
+            return false;
 
         if_stmts.emplace_back(if_);
         if (if_->else_body()->empty()) {
-- 
2.43.0


From d22e74d60a2d9ac6b844a2c0f92f03f65685f22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:32 +0000
Subject: [PATCH 014/105] fix: keep sources and sinks in step when statements
 are removed

---
 src/expr.cc | 5 +++--
 src/expr.hh | 4 ++--
 src/port.hh | 4 ++--
 src/stmt.cc | 4 +---
 4 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index e2af700..b999698 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -718,7 +718,8 @@ void VarVarSlice::remove_sink(const std::shared_ptr<AssignStmt> &stmt) {
 
 void VarVarSlice::remove_source(const std::shared_ptr<AssignStmt> &stmt) {
     VarSlice::remove_source(stmt);
-    sliced_var_->remove_source(stmt);
+    // the index is read
+    sliced_var_->remove_sink(stmt);
 }
 
 std::string VarVarSlice::to_string() const {
@@ -1790,7 +1791,7 @@ void VarSlice::remove_source(const std::shared_ptr<AssignStmt> &stmt) {
 
 void VarSlice::remove_sink(const std::shared_ptr<AssignStmt> &stmt) {
     Var *parent = parent_var;
-    parent->remove_source(stmt);
+    parent->remove_sink(stmt);
 }
 
 ConditionalExpr::ConditionalExpr(const std::shared_ptr<Var> &condition,
diff --git a/src/expr.hh b/src/expr.hh
index 406d717..11fea59 100644
--- a/src/expr.hh
+++ b/src/expr.hh
@@ -310,8 +310,8 @@ public:
     const std::unordered_set<std::shared_ptr<AssignStmt>> &sources() const override {
         return parent_var_->sources();
     };
-    void clear_sinks(bool remove_parent) override { parent_var_->clear_sources(remove_parent); }
-    void clear_sources(bool remove_parent) override { parent_var_->clear_sinks(remove_parent); }
+    void clear_sinks(bool remove_parent) override { parent_var_->clear_sinks(remove_parent); }
+    void clear_sources(bool remove_parent) override { parent_var_->clear_sources(remove_parent); }
     void remove_source(const std::shared_ptr<AssignStmt> &stmt) override {
         parent_var_->remove_source(stmt);
     }
diff --git a/src/port.hh b/src/port.hh
index ebe1999..ad074a5 100644
--- a/src/port.hh
+++ b/src/port.hh
@@ -206,8 +206,8 @@ public:
     const std::unordered_set<std::shared_ptr<AssignStmt>> &sources() const override {
         return var_->sources();
     };
-    void clear_sinks(bool remove_parent = false) override { var_->clear_sources(remove_parent); }
-    void clear_sources(bool remove_parent = false) override { var_->clear_sinks(remove_parent); }
+    void clear_sinks(bool remove_parent = false) override { var_->clear_sinks(remove_parent); }
+    void clear_sources(bool remove_parent = false) override { var_->clear_sources(remove_parent); }
     void remove_source(const std::shared_ptr<AssignStmt> &stmt) override {
         var_->remove_source(stmt);
     }
diff --git a/src/stmt.cc b/src/stmt.cc
index 6960a43..c8168a6 100644
--- a/src/stmt.cc
+++ b/src/stmt.cc
@@ -385,9 +385,7 @@ void ForStmt::set_parent(IRNode *node) {
         iter_->set_generator(gen);
     }
     Stmt::set_parent(node);
-    for (auto &st : (*loop_body_)) {
-        st->set_parent(this);
-    }
+    loop_body_->set_parent(this);
 }
 
 IRNode *ForStmt::get_child(uint64_t index) { return index < 1 ? loop_body_.get() : nullptr; }
-- 
2.43.0


From 2a7726e288da348be39370a742c7c1c0a45c5506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:32 +0000
Subject: [PATCH 015/105] fix: dead code removal and merging of if statements
 keep the behaviour

---
 src/optimize.cc | 86 +++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 72 insertions(+), 14 deletions(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index 75c09cb..12d31e6 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -137,7 +137,7 @@ private:
     void static transform_block(StmtBlock* block) {
         // only run marked ones
         if (!block->has_attribute("merge_if_block")) return;
-        std::map<Var*, std::vector<IfStmtType>> result;
+        std::vector<std::pair<Var*, std::vector<IfStmtType>>> result;
         get_targeted_if(block, result);
         std::unordered_set<IfStmt*> merged_if;
         for (auto const& iter : result) {
@@ -185,24 +185,53 @@ private:
         }
     }
 
-    void static get_targeted_if(StmtBlock* block, std::map<Var*, std::vector<IfStmtType>>& result) {
+    // only consecutive if statements can be merged, since statements in between would otherwise be
+    // executed in a different order. if statements with an else body, or that change what is being
+    // compared, depend on being executed one by one
+    void static get_targeted_if(StmtBlock* block,
+                                std::vector<std::pair<Var*, std::vector<IfStmtType>>>& result) {
+        Var* current = nullptr;
         for (auto const& stmt : *block) {
+            Var* target_var = nullptr;
             if (stmt->type() == StatementType::If) {
                 auto if_ = stmt->as<IfStmt>();
                 auto predicate = if_->predicate();
-                if (predicate->type() == VarType::Expression) {
+                if (predicate->type() == VarType::Expression && if_->else_body()->empty()) {
                     auto expr = predicate->as<Expr>();
                     if (expr->op == ExprOp::Eq && expr->right &&
-                        expr->right->type() == VarType::ConstValue) {
+                        expr->right->type() == VarType::ConstValue &&
+                        !changes_var(if_.get(), expr->left)) {
                         // this is what we want
-                        auto* target_var = expr->left;
-                        result[target_var].emplace_back(
+                        target_var = expr->left;
+                        if (target_var != current) result.emplace_back(target_var, std::vector<IfStmtType>{});
+                        result.back().second.emplace_back(
                             std::make_pair(if_, expr->right->as<Const>()));
                     }
                 }
             }
+            current = target_var;
         }
     }
+
+    // whether the statements inside the if assign anything the target is computed from
+    bool static changes_var(IfStmt* if_, Var* target) {
+        class AssignedVisitor : public IRVisitor {
+        public:
+            void visit(AssignStmt* stmt) override {
+                vars.emplace(stmt->left()->get_var_root_parent());
+            }
+            std::unordered_set<Var*> vars;
+        };
+        AssignedVisitor visitor;
+        visitor.visit_root(if_->then_body().get());
+        // use a statement to find out every variable that the target reads
+        auto stmt = target->generator()->get_auxiliary_var(target->width())->assign(*target);
+        auto const result = std::any_of(
+            visitor.vars.begin(), visitor.vars.end(),
+            [&stmt](auto* var) { return var->sinks().find(stmt) != var->sinks().end(); });
+        stmt->clear();
+        return result;
+    }
 };
 
 void merge_if_block(Generator* top) {
@@ -991,15 +1020,19 @@ private:
         auto else_body = process(stmt->else_body());
         if (!then_body) {
             // then is empty
-            if (else_body->empty()) {
+            if (!else_body) {
                 return nullptr;
             } else {
                 // invert the condition and make else then
                 auto cond = stmt->predicate();
-                auto& new_cond = ~(*cond);
+                auto& new_cond = cond->width() == 1 ? ~(*cond) : cond->r_not();
                 stmt->set_predicate(new_cond.shared_from_this());
-                stmt->set_then(else_body->as<ScopedStmtBlock>());
-                stmt->set_else(std::make_shared<ScopedStmtBlock>());
+                // move the statements over. they stay connected
+                auto const stmts = std::vector<std::shared_ptr<Stmt>>(else_body->begin(), else_body->end());
+                for (auto const& st : stmts) {
+                    else_body->remove_stmt(st);
+                    then_->add_stmt(st);
+                }
                 return stmt;
             }
         }
@@ -1031,10 +1064,16 @@ private:
     std::shared_ptr<SwitchStmt> process(std::shared_ptr<SwitchStmt> stmt) {
         std::map<std::shared_ptr<Const>, std::shared_ptr<ScopedStmtBlock>> new_body;
         auto const& body = stmt->body();
+        auto const has_default =
+            body.find(nullptr) != body.end() && process(body.at(nullptr)) != nullptr;
         for (const auto& [cond, block] : body) {
             auto r = process(block);
             if (r) {
                 new_body.emplace(cond, r->as<ScopedStmtBlock>());
+            } else if (cond && has_default) {
+                // removing the case would make the default apply
+                block->add_stmt(std::make_shared<CommentStmt>("nothing to be done"));
+                new_body.emplace(cond, block);
             }
         }
         if (new_body.empty()) return nullptr;
@@ -1183,6 +1222,7 @@ class DeadCodeVarElimination : public IRVisitor {
 public:
     void visit(Generator* generator) override {
         bool changed = true;
+        auto const event_vars = get_event_vars(generator);
 
         while (changed) {
             changed = false;
@@ -1190,7 +1230,7 @@ public:
             for (auto const& var_name : var_names) {
                 auto const& var = generator->get_var(var_name);
                 if (var->type() != VarType::Base) continue;
-                if (var->sinks().empty()) {
+                if (var->sinks().empty() && event_vars.find(var.get()) == event_vars.end()) {
                     // remove all the sources
                     remove_var(var.get());
                     changed = true;
@@ -1201,11 +1241,29 @@ public:
 
         // because we run child first, the parent's content get cleared out
         // nicely before this pass runs on parent
-        clear_out_ports(generator);
+        clear_out_ports(generator, event_vars);
     }
 
 private:
-    static void clear_out_ports(Generator* generator) {
+    // variables used in the sensitivity lists don't have sinks
+    static std::unordered_set<const Var*> get_event_vars(Generator* generator) {
+        std::unordered_set<const Var*> result;
+        auto const stmt_count = generator->stmts_count();
+        for (uint64_t i = 0; i < stmt_count; i++) {
+            auto const stmt = generator->get_stmt(i);
+            if (stmt->type() != StatementType::Block) continue;
+            auto const block = stmt->as<StmtBlock>();
+            if (block->block_type() != StatementBlockType::Sequential) continue;
+            auto const seq = stmt->as<SequentialStmtBlock>();
+            for (auto const& event : seq->get_event_controls()) {
+                if (event.var) result.emplace(event.var->get_var_root_parent());
+            }
+        }
+        return result;
+    }
+
+    static void clear_out_ports(Generator* generator,
+                                const std::unordered_set<const Var*>& event_vars) {
         // we don't deal with top level ports, since it changes
         // interface
         if (!generator->parent_generator()) return;
@@ -1214,7 +1272,7 @@ private:
         for (auto const& port_name : port_names) {
             auto const& p = generator->get_port(port_name);
             if (p->port_direction() == PortDirection::In) {
-                if (p->sinks().empty()) {
+                if (p->sinks().empty() && event_vars.find(p.get()) == event_vars.end()) {
                     ports_to_remove.emplace_back(port_name);
                 }
             } else if (p->port_direction() == PortDirection::Out) {
-- 
2.43.0


From b16f17a945b0b763621910a1522da463bc4d4c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:14 +0000
Subject: [PATCH 016/105] fix: statements dropped by the passes no longer use
 their conditions and indices

---
 src/optimize.cc | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index 12d31e6..0da161b 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -14,6 +14,14 @@ using fmt::format;
 
 namespace kratos {
 
+// the statements inside the if statement have been moved to somewhere else
+void static discard_if(const std::shared_ptr<IfStmt>& if_) {
+    for (auto const& body : {if_->then_body(), if_->else_body()}) {
+        while (!body->empty()) body->remove_stmt(body->get_stmt(0));
+    }
+    if_->clear();
+}
+
 class TransformIfCase : public IRVisitor {
 public:
     void visit(CombinationalStmtBlock* stmts) override { transform_block(stmts); }
@@ -36,6 +44,8 @@ private:
                 if (expected_case > 1 && (cases >= expected_case || has_else)) {
                     auto switch_stmt = change_if_to_switch(stmt->as<IfStmt>(), if_stmts);
                     stmts->set_child(i, switch_stmt);
+                    // the if statements are gone, and so is their use of the predicates
+                    for (auto const& if_ : if_stmts) discard_if(if_);
                 }
             }
         }
@@ -140,6 +150,7 @@ private:
         std::vector<std::pair<Var*, std::vector<IfStmtType>>> result;
         get_targeted_if(block, result);
         std::unordered_set<IfStmt*> merged_if;
+        std::vector<std::shared_ptr<IfStmt>> discard;
         for (auto const& iter : result) {
             auto stmts = iter.second;
             if (stmts.size() > 1) {
@@ -164,6 +175,7 @@ private:
                             if_->add_else_stmt(st);
                         }
                         merged_if.emplace(stmt.get());
+                        discard.emplace_back(stmt);
                     }
                 }
 
@@ -183,6 +195,7 @@ private:
         for (auto const& stmt : merged_if) {
             block->remove_stmt(stmt->shared_from_this());
         }
+        for (auto const& stmt : discard) discard_if(stmt);
     }
 
     // only consecutive if statements can be merged, since statements in between would otherwise be
@@ -1009,6 +1022,7 @@ public:
             if (!dispatch_node(stmt)) stmts_to_remove.emplace_back(stmt);
         }
         for (auto const& stmt : stmts_to_remove) {
+            stmt->clear();
             top->remove_stmt(stmt);
         }
     }
@@ -1053,6 +1067,8 @@ private:
             stmt->set_child(i, r);
         }
         for (auto const& st : stmts_to_remove) {
+            // nothing is left in there, but conditions are still in use
+            st->clear();
             stmt->remove_stmt(st);
         }
         if (stmt->empty())
@@ -1087,7 +1103,7 @@ private:
         } else if (stmt->type() == StatementType::Switch) {
             return process(std::static_pointer_cast<SwitchStmt>(stmt));
         } else if (stmt->type() == StatementType::Block) {
-            return process(std::static_pointer_cast<ScopedStmtBlock>(stmt));
+            return process(std::static_pointer_cast<StmtBlock>(stmt));
         } else {
             return stmt;
         }
@@ -1292,20 +1308,18 @@ private:
     static void remove_var(Var* var) {
         auto* generator = var->generator();
 
+        // clearing the statement takes it out of everything that it reads and assigns, such as the
+        // variables used to index
         auto sources = std::unordered_set<std::shared_ptr<AssignStmt>>(var->sources());
         for (auto const& stmt : sources) {
-            auto* right = stmt->right();
-            right->remove_sink(stmt);
-            var->remove_source(stmt);
             stmt->remove_from_parent();
+            stmt->clear();
         }
 
         auto sinks = std::unordered_set<std::shared_ptr<AssignStmt>>(var->sinks());
         for (auto const& stmt : sinks) {
-            auto* left = stmt->left();
-            left->remove_source(stmt);
-            var->remove_sink(stmt);
             stmt->remove_from_parent();
+            stmt->clear();
         }
 
         if (var->type() == VarType::PortIO) {
-- 
2.43.0


From 567569094a60c8bfc1814fd3eb848539716ddd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:22 +0000
Subject: [PATCH 017/105] fix: levels of the generator graph were read through
 a dangling reference

---
 src/graph.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph.cc b/src/graph.cc
index bf795c6..9832b7d 100644
--- a/src/graph.cc
+++ b/src/graph.cc
@@ -129,7 +129,7 @@ std::vector<std::vector<Generator *>> GeneratorGraph::get_leveled_nodes() {
     uint32_t max_level = 0;
 
     while (!queue.empty()) {
-        const auto &[generator, current_level] = queue.front();
+        const auto [generator, current_level] = queue.front();
         queue.pop();
         auto const &node = get_node(generator);
         if (level_index.find(node) == level_index.end() || level_index.at(node) < current_level) {
-- 
2.43.0


From 955df2a5501f68c03fb000a6df86f7c63b76191e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:22 +0000
Subject: [PATCH 018/105] fix: modules that differ were given the same
 definition by uniquification

---
 src/hash.cc | 331 +++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 223 insertions(+), 108 deletions(-)

diff --git a/src/hash.cc b/src/hash.cc
index 0c2f66f..0f20e3c 100644
--- a/src/hash.cc
+++ b/src/hash.cc
@@ -1,14 +1,19 @@
 #include "hash.hh"
 
 #include <fstream>
+#include <map>
+#include <set>
+#include <sstream>
 
 #include "cxxpool.h"
 #include "debug.hh"
 #include "generator.hh"
 #include "graph.hh"
-#include "ir.hh"
+#include "interface.hh"
 #include "pass.hh"
+#include "port.hh"
 #include "stmt.hh"
+#include "tb.hh"
 #include "util.hh"
 
 namespace kratos {
@@ -212,139 +217,250 @@ uint64_t hash_64_fnv1a(const void* key, uint64_t len) {
 
 }  // hash_64_fnv1a
 
-constexpr uint64_t shift_const(uint64_t value, uint8_t amount) {
-    return (value << amount) | (value >> (64u - amount));
-}
+// The hash decides whether two generators of the same name share one definition. It is computed from
+// a description that covers everything the definition depends on.
+class HashVisitor {
+public:
+    explicit HashVisitor(Generator* root) : root_(root), context_(root->context()) {}
 
-static uint64_t hash_var(Var* var) {
-    if (!var) return 0;
-    if (var->type() == VarType::Expression) {
-        auto* expr = reinterpret_cast<Expr*>(var);
-        auto op_hash = (uint64_t)expr->op;
-        return hash_var(expr->left) ^ hash_var(expr->right) ^ op_hash;
-    } else if (var->type() == VarType::ConstValue) {
-        auto* c = reinterpret_cast<Const*>(var);
-        return static_cast<uint64_t>(c->value());
-    } else if (var->type() == VarType::Parameter) {
-        auto v = var->to_string();
-        return hash_64_fnv1a(v.c_str(), v.size());
-    } else {
-        auto v = var->to_string();
-        auto hash = hash_64_fnv1a(v.c_str(), v.size());
-        if (!var->parametrized()) {
-            hash ^= var->width();
+    uint64_t produce_hash() {
+        add("module", root_->name);
+        for (auto const& [name, param] : root_->get_params()) add_param(name, param.get());
+        for (auto const& name : root_->get_vars()) add_declaration(root_->get_var(name).get());
+        for (auto const& name : root_->get_port_names())
+            add_declaration(root_->get_port(name).get());
+        for (auto const& [name, def] : root_->get_enums()) add_enum(def.get());
+        for (auto const& [name, interface] : root_->interfaces()) {
+            add("interface", name, interface->definition()->def_name(),
+                interface->definition()->name(), interface->is_port());
         }
-        return hash;
+        for (auto const& import_ :
+             std::set<std::string>(root_->raw_package_imports().begin(),
+                                   root_->raw_package_imports().end()))
+            add("import", import_);
+        for (auto const& [name, func] : root_->functions()) add_function(func.get());
+        for (auto const& [name, property] : root_->properties()) add_property(property.get());
+        for (auto const& child : root_->get_child_generators()) add_child(child.get());
+        for (auto const& stmt : root_->get_all_stmts()) add_stmt(stmt.get());
+        auto const& str = stream_.str();
+        return XXHash64::hash(str.data(), str.size(), 0);
     }
-}
 
-class HashVisitor : public IRVisitor {
-public:
-    explicit HashVisitor(Generator* root) : root_(root) {
-        context_ = root->context();
-        // compute the hash for all vars
-        auto vars = root->get_vars();
-        var_hashes_.reserve(vars.size());
-        for (const auto& var : vars) {
-            uint64_t var_hash = hash_64_fnv1a(var.c_str(), var.size());
-            var_hashes_.emplace_back(var_hash);
-        }
+private:
+    Generator* root_;
+    Context* context_;
+    std::ostringstream stream_;
+
+    // every entry is terminated, so that neighboring entries cannot be mistaken for each other
+    template <typename... T>
+    void add(const T&... values) {
+        ((stream_ << values << '\0'), ...);
     }
 
-    uint64_t produce_hash() {
-        // use generator name as a seed
-        uint64_t var_hash = hash_64_fnv1a(root_->name.c_str(), root_->name.size()) << 32u;
-        for (const uint64_t var : var_hashes_) var_hash = var_hash ^ var;
-        // use var_hash as a seed
-        // FIXME: do we really need to hash in chunks? or can we use xor to ignore the ordering
-        //  of the blocks?
-        uint64_t result =
-            XXHash64::hash(stmt_hashes_.data(), stmt_hashes_.size() * sizeof(uint64_t), var_hash);
-        return result;
+    std::string var_str(const Var* var) const {
+        if (!var) return "";
+        auto str = var->to_string();
+        // ports of the child instances are only named by the instance
+        auto* gen = var->generator();
+        if (gen && gen != root_ && gen->parent_generator() == root_)
+            return gen->instance_name + "." + str;
+        return str;
     }
 
-    void visit(AssignStmt* stmt) override {
-        uint64_t stmt_hash = hash_var(stmt->left()) ^ (shift(hash_var(stmt->right()), 1));
-        // based on level
-        stmt_hash = shift(stmt_hash, level);
-        stmt_hashes_.emplace_back(stmt_hash);
+    void add_event(const EventControl& event) {
+        add("event", static_cast<int>(event.type), event.delay, static_cast<int>(event.edge),
+            static_cast<int>(event.delay_side), var_str(event.var));
     }
 
-    void visit(IfStmt* stmt) override {
-        // magic number comes from here https://stackoverflow.com/a/4948967
-        // based on the requirements, warped shifting doesn't matter since it keeps
-        // the number of 0 and 1 the same. And I don't think the shifting will
-        // introduce any correlation either
-        constexpr uint64_t if_signature = shift_const(0x9e3779b97f4a7c16, 1);
-        auto var = stmt->predicate()->to_string();
-        uint64_t hash = hash_64_fnv1a(var.c_str(), var.size()) << level;
-        stmt_hashes_.emplace_back(if_signature ^ hash);
+    void add_param(const std::string& name, const Param* param) {
+        // the value is given by the instance, unless it is the initial one
+        add("param", name, static_cast<int>(param->param_type()), param->width(),
+            param->is_signed());
+        if (param->get_initial_value()) add("value", *param->get_initial_value());
+        if (param->get_raw_str_initial_value()) add("type", *param->get_raw_str_initial_value());
+        if (param->enum_def()) add("enum", param->enum_def()->name);
     }
 
-    void visit(SwitchStmt* stmt) override {
-        constexpr uint64_t switch_signature = shift_const(0x9e3779b97f4a7c16, 2);
-        auto var = stmt->target()->to_string();
-        uint64_t hash = hash_64_fnv1a(var.c_str(), var.size()) << level;
-        stmt_hashes_.emplace_back(switch_signature ^ hash);
+    void add_declaration(Var* var) {
+        if (!var) return;
+        add("var", static_cast<int>(var->type()), var->name, var->is_signed(), var->is_packed(),
+            var->explicit_array(), var->is_interface());
+        if (var->width_param())
+            add("width", var->width_param()->to_string());
+        else
+            add("width", var->var_width());
+        for (uint64_t i = 0; i < var->size().size(); i++) {
+            auto* size = var->get_size_param(i);
+            if (size)
+                add("size", size->to_string());
+            else
+                add("size", var->size()[i]);
+        }
+        if (var->raw_type_parametrized()) add("raw", var->get_raw_type_param()->to_string());
+        if (var->type() == VarType::PortIO) {
+            auto port = var->as<Port>();
+            add("port", static_cast<int>(port->port_direction()));
+        }
+        if (var->is_struct()) {
+            auto const* packed = dynamic_cast<PackedInterface*>(var);
+            if (packed) add("struct", packed->packed_struct()->struct_name);
+        }
+        if (var->is_enum()) {
+            auto const* enum_ = dynamic_cast<EnumType*>(var);
+            if (enum_) add("enum", enum_->enum_type()->name);
+        }
     }
 
-    void visit(CombinationalStmtBlock*) override {
-        constexpr uint64_t comb_signature = shift_const(0x9e3779b97f4a7c16, 3);
-        stmt_hashes_.emplace_back(comb_signature << level);
+    void add_enum(const Enum* def) {
+        add("enum", def->name, def->width());
+        for (auto const& [name, value] : def->values) add(name, value->value());
     }
 
-    void visit(SequentialStmtBlock* stmt) override {
-        std::string cond;
-        auto const& conditions = stmt->get_event_controls();
-        for (auto const& event_control : conditions) {
-            if (event_control.edge == EventEdgeType::Posedge)
-                cond.append("1" + event_control.var->to_string());
-            else
-                cond.append("0" + event_control.var->to_string());
-        }
-        uint64_t hash = hash_64_fnv1a(cond.c_str(), cond.size()) << level;
-        constexpr uint64_t seq_signature = shift_const(0x9e3779b97f4a7c16, 3);
-        stmt_hashes_.emplace_back(hash ^ seq_signature);
+    void add_function(FunctionStmtBlock* func) {
+        add("function", func->function_name(), func->is_dpi(), func->is_builtin(), func->is_task(),
+            func->has_return_value());
+        if (func->function_handler()) add("return", func->function_handler()->width());
+        for (auto const& [name, port] : func->ports()) add_declaration(port.get());
+        for (auto const& [name, index] : func->port_ordering()) add("order", name, index);
+        add_block(func);
+    }
+
+    void add_property(Property* property) {
+        add("property", property->property_name(), static_cast<int>(property->action()),
+            property->sequence() ? property->sequence()->to_string() : "");
+        add_event(property->edge());
     }
 
-    void visit(ModuleInstantiationStmt* stmt) override {
+    void add_child(Generator* child) {
+        add("instance", child->instance_name, child->name);
         // notice that we don't use any mechanism to lock the context's get hash or set hash
         // it is the caller's responsibility to do prepare the calling sequence so that there
         // won't be any race condition.
         // by requiring this, we can have a lock-free implementation ready to scale
-        auto const* target = stmt->target();
-        if (!context_->has_hash(target)) {
-            throw std::runtime_error("Internal error: " + target->name + " doesn't have a hash");
+        if (context_->has_hash(child)) add("hash", context_->get_hash(child));
+        for (auto const& [name, param] : child->get_params()) {
+            add("param", name, param->value_str());
+            if (param->parent_param()) add("parent", param->parent_param()->to_string());
         }
-        uint64_t target_hash = context_->get_hash(target);
-        constexpr uint64_t mod_signature = shift_const(0x9e3779b97f4a7c16, 4);
-        // we have assign stmts already computed the connections
-        stmt_hashes_.emplace_back(target_hash ^ mod_signature);
-    }
-
-    void visit(FunctionCallStmt* stmt) override {
-        // this is to hash the call args and func_def
-        auto func = stmt->func();
-        auto str = func->function_name();
-        auto const& var = stmt->var();
-        auto const& var_args = var->args();
-        // this is ordered map
-        for (auto const& iter : var_args) {
-            str.append(iter.second->to_string());
+        // connections that are made by the instance itself are not in the statements
+        for (auto const& name : child->get_port_names()) {
+            auto port = child->get_port(name);
+            bool const input = port->port_direction() == PortDirection::In;
+            std::set<std::string> connections;
+            for (auto const& stmt : input ? port->sources() : port->sinks()) {
+                if (stmt->generator_parent() != root_) continue;
+                connections.emplace(var_str(stmt->left()) + "=" + var_str(stmt->right()));
+            }
+            for (auto const& connection : connections) add("connection", connection);
         }
-        uint64_t hash = hash_64_fnv1a(str.c_str(), str.size()) << level;
-        constexpr uint64_t call_signature = shift_const(0x9e3779b97f4a7c16, 4);
-        stmt_hashes_.emplace_back(hash ^ call_signature);
     }
 
-private:
-    std::vector<uint64_t> var_hashes_;
-    std::vector<uint64_t> stmt_hashes_;
-    Generator* root_;
-    Context* context_;
+    void add_block(StmtBlock* block) {
+        add("begin", static_cast<int>(block->block_type()));
+        auto const label = root_->get_block_name(block);
+        if (label) add("label", *label);
+        for (auto const& stmt : *block) add_stmt(stmt.get());
+        add("end");
+    }
 
-    inline static uint64_t shift(uint64_t value, uint8_t amount) {
-        return (value << amount) | (value >> (64u - amount));
+    void add_stmt(Stmt* stmt) {
+        if (!stmt) return;
+        add("stmt", static_cast<int>(stmt->type()));
+        switch (stmt->type()) {
+            case StatementType::Assign: {
+                auto* assign = reinterpret_cast<AssignStmt*>(stmt);
+                add(static_cast<int>(assign->assign_type()), var_str(assign->left()),
+                    var_str(assign->right()));
+                if (assign->has_delay()) add_event(*assign->get_delay());
+                break;
+            }
+            case StatementType::If: {
+                auto* if_ = reinterpret_cast<IfStmt*>(stmt);
+                add(var_str(if_->predicate().get()));
+                add_block(if_->then_body().get());
+                add_block(if_->else_body().get());
+                break;
+            }
+            case StatementType::Switch: {
+                auto* switch_ = reinterpret_cast<SwitchStmt*>(stmt);
+                add(var_str(switch_->target().get()));
+                // the cases are indexed by pointers
+                std::map<std::string, StmtBlock*> cases;
+                for (auto const& [value, body] : switch_->body())
+                    cases.emplace(value ? value->to_string() : "default", body.get());
+                for (auto const& [value, body] : cases) {
+                    add(value);
+                    add_block(body);
+                }
+                break;
+            }
+            case StatementType::For: {
+                auto* for_ = reinterpret_cast<ForStmt*>(stmt);
+                add(var_str(for_->get_iter_var().get()), for_->start(), for_->end(), for_->step());
+                add_block(for_->get_loop_body().get());
+                break;
+            }
+            case StatementType::Block: {
+                auto* block = reinterpret_cast<StmtBlock*>(stmt);
+                if (block->block_type() == StatementBlockType::Sequential) {
+                    auto* seq = reinterpret_cast<SequentialStmtBlock*>(stmt);
+                    for (auto const& event : seq->get_event_controls()) add_event(event);
+                } else if (block->block_type() == StatementBlockType::Combinational) {
+                    add(reinterpret_cast<CombinationalStmtBlock*>(stmt)->is_general_purpose());
+                }
+                add_block(block);
+                break;
+            }
+            case StatementType::ModuleInstantiation: {
+                auto* inst = reinterpret_cast<ModuleInstantiationStmt*>(stmt);
+                add(inst->target()->instance_name);
+                break;
+            }
+            case StatementType::InterfaceInstantiation: {
+                auto* inst = reinterpret_cast<InterfaceInstantiationStmt*>(stmt);
+                add(inst->interface()->name());
+                break;
+            }
+            case StatementType::FunctionalCall: {
+                auto* call = reinterpret_cast<FunctionCallStmt*>(stmt);
+                add(call->func()->function_name());
+                for (auto const& [name, arg] : call->var()->args()) add(name, var_str(arg.get()));
+                break;
+            }
+            case StatementType::Return: {
+                add(var_str(reinterpret_cast<ReturnStmt*>(stmt)->value().get()));
+                break;
+            }
+            case StatementType::Assert: {
+                auto* assert_ = reinterpret_cast<AssertBase*>(stmt);
+                if (assert_->assert_type() == AssertType::AssertValue) {
+                    auto* value = reinterpret_cast<AssertValueStmt*>(assert_);
+                    add(var_str(value->value()));
+                    add_stmt(value->else_().get());
+                } else {
+                    auto* property = reinterpret_cast<AssertPropertyStmt*>(assert_);
+                    add_property(property->property());
+                    add_stmt(property->else_().get());
+                }
+                break;
+            }
+            case StatementType::Comment: {
+                for (auto const& str : reinterpret_cast<CommentStmt*>(stmt)->comments()) add(str);
+                break;
+            }
+            case StatementType::RawString: {
+                for (auto const& str : reinterpret_cast<RawStringStmt*>(stmt)->stmts()) add(str);
+                break;
+            }
+            case StatementType::Auxiliary: {
+                auto* aux = reinterpret_cast<AuxiliaryStmt*>(stmt);
+                if (aux->aux_type() == AuxiliaryType::Delay)
+                    add_event(reinterpret_cast<EventDelayStmt*>(aux)->event());
+                break;
+            }
+            case StatementType::Break:
+                break;
+        }
     }
 };
 
@@ -355,7 +471,6 @@ uint64_t hash_generator(Generator* generator) {
     }
     // we use a visitor to compute all the hashes
     HashVisitor hash_visitor(generator);
-    hash_visitor.visit_root(generator);
     return hash_visitor.produce_hash();
 }
 
-- 
2.43.0


From 4520eca361a0644ff20d3725eac6f9bf6eb54f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:22 +0000
Subject: [PATCH 019/105] fix: names given by uniquification follow the
 hierarchy instead of allocation order

---
 src/pass.cc | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/pass.cc b/src/pass.cc
index 1b26eac..da093e4 100644
--- a/src/pass.cc
+++ b/src/pass.cc
@@ -1,5 +1,6 @@
 #include "pass.hh"
 
+#include <algorithm>
 #include <chrono>
 #include <functional>
 #include <iomanip>
@@ -29,10 +30,20 @@ void hash_generators(Generator* top, HashStrategy strategy) {
     hash_generators_context(top->context(), top, strategy);
 }
 
+static void index_generators(Generator* generator,
+                             std::unordered_map<const Generator*, uint64_t>& index) {
+    if (!index.emplace(generator, index.size()).second) return;
+    for (auto const& child : generator->get_child_generators())
+        index_generators(child.get(), index);
+}
+
 void uniquify_generators(Generator* top) {
     // we assume users has run the hash_generators function
     Context* context = top->context();
-    auto const& names = context->get_generator_names();
+    auto const names = context->get_generator_names();
+    // the names follow the hierarchy, instead of where the generators happen to be allocated
+    std::unordered_map<const Generator*, uint64_t> order;
+    index_generators(top, order);
     for (auto const& name : names) {
         auto const module_sets = context->get_generators_by_name(name);
         std::vector<Generator*> module_instances;
@@ -45,6 +56,13 @@ void uniquify_generators(Generator* top) {
         if (module_instances.size() == 1)
             // only one module. we are good
             continue;
+        std::stable_sort(module_instances.begin(), module_instances.end(),
+                         [&order](auto const* lhs, auto const* rhs) {
+                             auto const l = order.find(lhs), r = order.find(rhs);
+                             if (l == order.end() || r == order.end())
+                                 return l != order.end() && r == order.end();
+                             return l->second < r->second;
+                         });
         // reordering based on whether it's being tracked
         if (context->track_generated()) {
             // O(n) algorithm. it does not need to be inplace
-- 
2.43.0


From e307cab0911a389febab8fc36e59aee5442b79f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:22 +0000
Subject: [PATCH 020/105] fix: inlining keeps connections, events, outputs that
 are read back and expressions of the child

---
 src/expr.cc      |  33 ++++++++------
 src/expr.hh      |   2 +-
 src/generator.cc |  59 ++++++++++++++++++++++++-
 src/optimize.cc  | 109 +++++++++++++++++++++++++++--------------------
 4 files changed, 142 insertions(+), 61 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index b999698..b955746 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -256,6 +256,8 @@ VarConcat &Var::concat(Var &var) {
     for (auto const &exist_var : concat_vars_) {
         // reuse the existing variables
         if (exist_var->vars().size() == 2 && exist_var->vars().back() == ptr) {
+            // the variables could have been moved to a different generator
+            exist_var->set_parent();
             return *exist_var;
         }
     }
@@ -884,6 +886,16 @@ IRNode *VarSlice::parent() const { return parent_var; }
 
 void Var::set_parent_generator(kratos::Generator *gen) { generator_ = gen; }
 
+void Var::set_generator(kratos::Generator *gen) {
+    generator_ = gen;
+    // so do the variables that are created from this one
+    for (auto const &concat : concat_vars_) concat->set_generator(gen);
+    for (auto const &casted : casted_) casted->set_generator(gen);
+    for (auto const &[width, extend] : extended_) extend->set_generator(gen);
+    for (auto const &slice : slices_) slice->set_generator(gen);
+}
+
+
 std::shared_ptr<AssignStmt> Var::assign(const std::shared_ptr<Var> &var) {
     return assign(var, AssignmentType::Undefined);
 }
@@ -1642,8 +1654,11 @@ void Var::move_src_to(Var *var, Var *new_var, Generator *parent, bool keep_conne
     if (var->type_ == VarType::Expression || var->type_ == VarType::ConstValue)
         throw VarException("Only base or port variables are allowed.", {var, new_var});
 
-    for (const auto &stmt : var->sources()) {
+    auto const sources = var->sources();
+    for (const auto &stmt : sources) {
+        // the ones that belong to other generators stay
         if (stmt->generator_parent() != parent) continue;
+        var->remove_source(stmt);
         stmt_set_left(stmt.get(), var, new_var);
         if (parent->debug) {
             stmt->fn_name_ln.emplace_back(std::make_pair(__FILE__, __LINE__));
@@ -1655,9 +1670,6 @@ void Var::move_src_to(Var *var, Var *new_var, Generator *parent, bool keep_conne
             new_var->set_width_param(stmt->right()->width_param());
         }
     }
-    // now clear the sources
-    var->clear_sources(false);
-
     if (keep_connection) {
         // create an assignment and add it to the parent
         auto stmt = var->assign(new_var->shared_from_this());
@@ -1673,10 +1685,11 @@ void Var::move_sink_to(Var *var, Var *new_var, Generator *parent, bool keep_conn
     if (var->type_ == VarType::Expression || var->type_ == VarType::ConstValue)
         throw VarException("Only base or port variables are allowed.", {var, new_var});
 
-    for (const auto &stmt : var->sinks()) {
-        if (stmt->generator_parent() != parent) {
-            continue;
-        }
+    auto const sinks = var->sinks();
+    for (const auto &stmt : sinks) {
+        // the ones that belong to other generators stay
+        if (stmt->generator_parent() != parent) continue;
+        var->remove_sink(stmt);
         stmt_set_right(stmt.get(), var, new_var);
         if (parent->debug) {
             stmt->fn_name_ln.emplace_back(std::make_pair(__FILE__, __LINE__));
@@ -1688,9 +1701,6 @@ void Var::move_sink_to(Var *var, Var *new_var, Generator *parent, bool keep_conn
             new_var->set_width_param(stmt->left()->width_param());
         }
     }
-    // now clear the sinks
-    var->clear_sinks(false);
-
     if (keep_connection) {
         // create an assignment and add it to the parent
         auto stmt = new_var->assign(var->shared_from_this());
@@ -1729,7 +1739,6 @@ void Var::move_linked_to(kratos::Var *new_var) {
     // change concat'ed vars
     // we use overloaded ones
     for (auto const &concat : concat_vars_) {
-        concat->move_linked_to(new_var);
         concat->replace_var(shared_from_this(), new_var->shared_from_this());
     }
     new_var->concat_vars_ =
diff --git a/src/expr.hh b/src/expr.hh
index 11fea59..a99bb38 100644
--- a/src/expr.hh
+++ b/src/expr.hh
@@ -141,7 +141,7 @@ public:
     void unassign(const std::shared_ptr<AssignStmt> &stmt);
 
     virtual Generator *generator() const { return generator_; }
-    void set_generator(Generator *gen) { generator_ = gen; }
+    void set_generator(Generator *gen);
 
     IRNode *parent() const override;
     void set_parent_generator(Generator *gen);
diff --git a/src/generator.cc b/src/generator.cc
index 0d8d45b..a43da79 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -691,6 +691,49 @@ void set_var_params(Var *var, const std::map<std::string, std::shared_ptr<Param>
     }
 }
 
+// expressions that start with a constant are not owned by the generator they are used in
+class ExpressionOwnerVisitor : public IRVisitor {
+public:
+    ExpressionOwnerVisitor(Generator *from, Generator *to) : from_(from), to_(to) {}
+    void visit(AssignStmt *stmt) override {
+        move(stmt->left());
+        move(stmt->right());
+    }
+    void visit(IfStmt *stmt) override { move(stmt->predicate().get()); }
+    void visit(SwitchStmt *stmt) override { move(stmt->target().get()); }
+
+private:
+    void move(Var *var) {
+        if (!var) return;
+        if (var->type() == VarType::Slice) {
+            auto slice = var->as<VarSlice>();
+            move(slice->parent_var);
+            if (slice->sliced_by_var()) move(slice->as<VarVarSlice>()->sliced_var());
+        } else if (var->type() == VarType::BaseCasted) {
+            move(var->as<VarCasted>()->parent_var());
+        } else if (var->type() == VarType::ConstValue) {
+            if (var->generator() == from_) var->set_generator(to_);
+        } else if (var->type() == VarType::Expression) {
+            auto expr = var->as<Expr>();
+            if (expr->generator() == from_) expr->set_generator(to_);
+            if (expr->op == ExprOp::Concat) {
+                for (auto *v : expr->as<VarConcat>()->vars()) move(v);
+                return;
+            }
+            if (expr->op == ExprOp::Extend) {
+                move(expr->as<VarExtend>()->parent_var());
+                return;
+            }
+            if (expr->op == ExprOp::Conditional) move(expr->as<ConditionalExpr>()->condition);
+            move(expr->left);
+            move(expr->right);
+        }
+    }
+
+    Generator *from_;
+    Generator *to_;
+};
+
 void Generator::transfer_content(kratos::Generator &gen, const std::string &prefix) {
     // move all stuff to the generator
     // except the variable
@@ -707,7 +750,7 @@ void Generator::transfer_content(kratos::Generator &gen, const std::string &pref
         var->set_generator(&gen);
         std::string target_name = var_name;
         if (gen.has_var(var_name)) {
-            target_name = get_unique_variable_name(prefix, var_name);
+            target_name = gen.get_unique_variable_name(prefix, var_name);
         }
         var->name = target_name;
         // maybe it's a port, in that case we need to copy its definition and create a var
@@ -716,6 +759,15 @@ void Generator::transfer_content(kratos::Generator &gen, const std::string &pref
             var->move_linked_to(&new_var);
             Var::move_sink_to(var.get(), &new_var, &gen, false);
             Var::move_src_to(var.get(), &new_var, &gen, false);
+            // events are not part of the connections
+            for (auto const &stmt : stmts_) {
+                if (stmt->type() != StatementType::Block) continue;
+                auto block = stmt->as<StmtBlock>();
+                if (block->block_type() != StatementBlockType::Sequential) continue;
+                for (auto &event : stmt->as<SequentialStmtBlock>()->get_event_controls()) {
+                    if (event.var == var.get()) event.var = &new_var;
+                }
+            }
         } else {
             gen.vars_.emplace(target_name, var);
         }
@@ -731,6 +783,11 @@ void Generator::transfer_content(kratos::Generator &gen, const std::string &pref
         }
     }
 
+    for (auto const &stmt : stmts_) {
+        ExpressionOwnerVisitor visitor(this, &gen);
+        visitor.visit_root(stmt.get());
+    }
+
     stmts_.clear();
     exprs_.clear();
 }
diff --git a/src/optimize.cc b/src/optimize.cc
index 0da161b..4d5af78 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -1383,6 +1383,10 @@ public:
             if (!child->has_attribute("inline")) {
                 continue;
             }
+            // only variables and statements can be moved to the parent
+            if (!child->functions().empty() || !child->interfaces().empty()) {
+                continue;
+            }
             if (child->is_cloned() || child->external()) {
                 throw GeneratorException("Cannot inline cloned or external modules",
                                          {child.get(), top});
@@ -1407,43 +1411,31 @@ public:
     }
 
 private:
-    class RenameLinkedVar : public IRVisitor {
-    public:
-        explicit RenameLinkedVar(const std::unordered_map<std::string, Var*>& var_mapping)
-            : var_mapping_(var_mapping) {}
-        void visit(IfStmt* stmt) override {
-            if (auto* v = match(stmt->predicate().get())) {
-                stmt->set_predicate(v->shared_from_this());
-            }
-        }
-
-        void visit(SwitchStmt* stmt) override {
-            if (auto* v = match(stmt->target().get())) {
-                stmt->set_target(v->shared_from_this());
-            }
-        }
-
-        void visit(SequentialStmtBlock* stmt) override {
-            auto& conds = stmt->get_event_controls();
-            for (auto& e : conds) {
-                if (auto* v = match(e.var)) {
-                    e.var = v;
-                }
+    // events of the processes are not part of the connections
+    static void rename_events(Generator* gen, const std::unordered_map<Var*, Var*>& var_mapping) {
+        for (auto const& stmt : gen->get_all_stmts()) {
+            if (stmt->type() != StatementType::Block) continue;
+            auto block = stmt->as<StmtBlock>();
+            if (block->block_type() != StatementBlockType::Sequential) continue;
+            for (auto& event : stmt->as<SequentialStmtBlock>()->get_event_controls()) {
+                if (var_mapping.find(event.var) != var_mapping.end())
+                    event.var = var_mapping.at(event.var);
             }
         }
+    }
 
-        void visit(AssertBase*) override {
-            throw InternalException("Assertion inline not implemented");
-        }
-
-        [[nodiscard]] Var* match(Var* var) const {
-            return var_mapping_.find(var->name) != var_mapping_.end() ? var_mapping_.at(var->name)
-                                                                      : nullptr;
-        }
-
-    private:
-        const std::unordered_map<std::string, Var*>& var_mapping_;
-    };
+    // whether one variable can be used in place of the other
+    static bool same_definition(const Var* left, const Var* right, const Generator* gen) {
+        for (auto const* var : {left, right}) {
+            if (var->generator() != gen) return false;
+            if (var->type() != VarType::PortIO && var->type() != VarType::Base) return false;
+            if (var->is_struct() || var->is_enum() || var->is_interface()) return false;
+        }
+        return left->width() == right->width() && left->var_width() == right->var_width() &&
+               left->size() == right->size() && left->is_signed() == right->is_signed() &&
+               left->is_packed() == right->is_packed() &&
+               left->explicit_array() == right->explicit_array();
+    }
 
     static PortInfo get_port_assignment(Port* port) {
         PortInfo info{port->port_direction(), nullptr};
@@ -1477,53 +1469,76 @@ private:
         return info;
     }
 
+    static void remove_assignment(Generator* gen, AssignStmt* stmt) {
+        auto assign = stmt->as<AssignStmt>();
+        assign->left()->remove_source(assign);
+        assign->right()->remove_sink(assign);
+        gen->remove_stmt(assign);
+    }
+
     static void optimize_passthrough_assignment(Generator* gen,
                                                 const std::vector<PortInfo>& stmts) {
         gen->set_use_stmt_remove_cache(true);
-        std::unordered_map<std::string, Var*> var_mapping;
+        std::unordered_map<Var*, Var*> var_mapping;
         std::vector<Var*> vars;
+        std::unordered_set<Stmt*> gen_stmts;
+        for (auto const& stmt : gen->get_all_stmts()) gen_stmts.emplace(stmt.get());
         for (auto const& info : stmts) {
             auto* stmt = info.stmt;
             auto* left = stmt->left();
             auto* right = stmt->right();
+            if (!same_definition(left, right, gen)) {
+                // the connection made by the instance becomes an assignment
+                if (gen_stmts.find(stmt) == gen_stmts.end()) {
+                    stmt->set_assign_type(AssignmentType::Blocking);
+                    gen->add_stmt(stmt->shared_from_this());
+                }
+                continue;
+            }
             if (info.direction == PortDirection::In) {
                 // move to right
+                if (left->sources().size() != 1) continue;
+                remove_assignment(gen, stmt);
                 Var::move_sink_to(left, right, gen, false);
-                left->clear_sources(true);
                 vars.emplace_back(right);
-                var_mapping.emplace(left->name, right);
+                var_mapping.emplace(left, right);
             } else {
                 // move to left
+                if (left->sources().size() != 1) continue;
+                remove_assignment(gen, stmt);
                 Var::move_src_to(right, left, gen, false);
-                right->clear_sinks(true);
+                // it can be used somewhere else as well
+                Var::move_sink_to(right, left, gen, false);
                 vars.emplace_back(left);
-                var_mapping.emplace(right->name, left);
+                var_mapping.emplace(right, left);
             }
         }
 
         // rename some constructs that's not assignments
-        RenameLinkedVar v(var_mapping);
-        v.visit_content_s(gen);
+        rename_events(gen, var_mapping);
         // now remove them
         for (auto const& iter : var_mapping) {
-            gen->remove_var(iter.first);
+            gen->remove_var(iter.first->name);
         }
 
         // also clear out variables with only one source
         // notice that we keep track of the ones need to check for performance reason
+        std::unordered_set<Var*> visited;
         for (auto* var : vars) {
-            if (var->sources().size() != 1) {
+            // a variable can be connected to more than one port
+            if (!visited.emplace(var).second || var->sources().size() != 1) {
                 continue;
             }
 
-            auto const& src_stmt = *var->sources().begin();
+            auto const src_stmt = *var->sources().begin();
             auto* left = src_stmt->left();
             auto* right = src_stmt->right();
-            if (left != var) continue;
-            if (right->type() == VarType::PortIO || right->type() == VarType::Base) {
+            if (left != var || left->type() != VarType::Base || src_stmt->parent() != gen) continue;
+            if (same_definition(left, right, gen)) {
                 // move
+                remove_assignment(gen, src_stmt.get());
                 VarSlice::move_sink_to(left, right, gen, false);
-                left->clear_sources(true);
+                rename_events(gen, {{left, right}});
                 gen->remove_var(left->name);
             }
         }
-- 
2.43.0


From da34266ec08aba5ff0f0dc74a324159adfcb03d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:09 +0000
Subject: [PATCH 021/105] fix: dead code elimination must not change external
 or shared definitions

---
 src/optimize.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index 4d5af78..e761db7 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -1237,6 +1237,8 @@ class DeadCodeVarElimination : public IRVisitor {
     // this pass only removes dead variables in the parent generator
 public:
     void visit(Generator* generator) override {
+        // what these generators do is not visible here
+        if (generator->external() || generator->is_stub() || generator->is_cloned()) return;
         bool changed = true;
         auto const event_vars = get_event_vars(generator);
 
@@ -1283,6 +1285,8 @@ private:
         // we don't deal with top level ports, since it changes
         // interface
         if (!generator->parent_generator()) return;
+        // the clones share the interface
+        if (!generator->get_clones().empty()) return;
         auto const& port_names = generator->get_port_names();
         std::vector<std::string> ports_to_remove;
         for (auto const& port_name : port_names) {
@@ -1337,7 +1341,7 @@ public:
         auto const& children = generator->get_child_generators();
         std::vector<std::shared_ptr<Generator>> remove_set;
         for (auto const& child : children) {
-            if (child->get_port_names().empty()) {
+            if (!child->external() && child->get_port_names().empty()) {
                 remove_set.emplace_back(child);
             }
         }
-- 
2.43.0


From da99c3b4df2802f8b04f99c1fd9bd04e2cca69f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:09 +0000
Subject: [PATCH 022/105] fix: dead code elimination changes other generators,
 so it cannot run in parallel

---
 src/optimize.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index e761db7..f36bfb0 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -6,6 +6,7 @@
 
 #include "except.hh"
 #include "fmt/format.h"
+#include "graph.hh"
 #include "stmt.hh"
 #include "syntax.hh"
 #include "util.hh"
@@ -1353,8 +1354,13 @@ public:
 
 void dead_code_elimination(Generator* top) {
     {
+        // removing a port changes the statements of other generators as well, hence not in parallel
         DeadCodeVarElimination visitor;
-        visitor.visit_generator_root_p(top);
+        GeneratorGraph graph(top);
+        auto levels = graph.get_leveled_nodes();
+        for (auto it = levels.rbegin(); it != levels.rend(); it++) {
+            for (auto* gen : *it) visitor.visit(gen);
+        }
     }
     {
         DeadCodeInstanceElimination visitor;
-- 
2.43.0


From 56f5730d260cc8f336141c6dae4c1b78e5edf90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:09 +0000
Subject: [PATCH 023/105] fix: merged wire assignments depended on the
 addresses of the statements

---
 src/optimize.cc | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index f36bfb0..7e099d5 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -434,7 +434,7 @@ public:
         std::set<std::shared_ptr<Stmt>> stmts_to_remove;
 
         // first filter out sliced assignments
-        std::set<std::shared_ptr<AssignStmt>> sliced_stmts;
+        std::vector<std::shared_ptr<AssignStmt>> sliced_stmts;
         extract_sliced_stmts(generator, sliced_stmts);
         get_stmts_to_remove(generator, stmts_to_remove, sliced_stmts);
 
@@ -449,14 +449,14 @@ private:
         std::set<std::shared_ptr<Stmt>> stmts_to_remove;
 
         // first filter out sliced assignments
-        std::set<std::shared_ptr<AssignStmt>> sliced_stmts;
+        std::vector<std::shared_ptr<AssignStmt>> sliced_stmts;
         extract_sliced_stmts(block, sliced_stmts);
         get_stmts_to_remove(block, stmts_to_remove, sliced_stmts);
         for (auto const& stmt : stmts_to_remove) block->remove_stmt(stmt);
     }
 
     static void extract_sliced_stmts(Generator* generator,
-                                     std::set<std::shared_ptr<AssignStmt>>& sliced_stmts) {
+                                     std::vector<std::shared_ptr<AssignStmt>>& sliced_stmts) {
         uint64_t stmt_count = generator->stmts_count();
         for (uint64_t i = 0; i < stmt_count; i++) {
             auto stmt = generator->get_stmt(i);
@@ -464,20 +464,20 @@ private:
                 auto assign_stmt = stmt->as<AssignStmt>();
                 if (assign_stmt->left()->type() == VarType::Slice &&
                     assign_stmt->right()->type() == VarType::Slice) {
-                    sliced_stmts.emplace(assign_stmt);
+                    sliced_stmts.emplace_back(assign_stmt);
                 }
             }
         }
     }
 
     static void extract_sliced_stmts(StmtBlock* block,
-                                     std::set<std::shared_ptr<AssignStmt>>& sliced_stmts) {
+                                     std::vector<std::shared_ptr<AssignStmt>>& sliced_stmts) {
         for (auto const& stmt : *block) {
             if (stmt->type() == StatementType ::Assign) {
                 auto assign_stmt = stmt->as<AssignStmt>();
                 if (assign_stmt->left()->type() == VarType::Slice &&
                     assign_stmt->right()->type() == VarType::Slice) {
-                    sliced_stmts.emplace(assign_stmt);
+                    sliced_stmts.emplace_back(assign_stmt);
                 }
             }
         }
@@ -485,10 +485,12 @@ private:
 
     template <typename T>
     void get_stmts_to_remove(T* generator, std::set<std::shared_ptr<Stmt>>& stmts_to_remove,
-                             const std::set<std::shared_ptr<AssignStmt>>& sliced_stmts) const {
+                             const std::vector<std::shared_ptr<AssignStmt>>& sliced_stmts) const {
         // group the assignments together
         using AssignPair = std::pair<Var*, Var*>;
         std::map<AssignPair, std::vector<std::shared_ptr<AssignStmt>>> slice_vars;
+        // in the order they show up, so that the new statements do not depend on the addresses
+        std::vector<AssignPair> pairs;
         for (auto const& assign_stmt : sliced_stmts) {
             auto left_slice = assign_stmt->left()->as<VarSlice>();
             auto right_slice = assign_stmt->right()->as<VarSlice>();
@@ -512,12 +514,14 @@ private:
                 left_parent->size() != right_parent->size())
                 continue;
 
-            slice_vars[{left_parent, right_parent}].emplace_back(assign_stmt);
+            auto& slices = slice_vars[{left_parent, right_parent}];
+            if (slices.empty()) pairs.emplace_back(left_parent, right_parent);
+            slices.emplace_back(assign_stmt);
         }
 
         // merge the assignments
-        for (auto const& [vars, stmts] : slice_vars) {
-            const auto& [left, right] = vars;
+        for (auto const& [left, right] : pairs) {
+            auto const& stmts = slice_vars.at({left, right});
 
             // NOTE:
             // we assume that at this stage we've passed the connectivity check
-- 
2.43.0


From 7868a86dd7904da08981ec86f600d9d018f91df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:09 +0000
Subject: [PATCH 024/105] fix: which instances are inlined depended on the
 order generators were visited in

---
 src/optimize.cc | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index 7e099d5..27b1fc4 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -1382,14 +1382,22 @@ public:
         AssignStmt* stmt;
     };
 
+    explicit InlineGeneratorVisitor(Generator* root) {
+        // decide before anything is inlined, since a parent can be visited after its children
+        // have been turned into leaves
+        GeneratorGraph graph(root);
+        for (auto* gen : graph.get_nodes()) {
+            auto child_generators = gen->get_child_generators();
+            if (child_generators.empty()) continue;
+            if (std::all_of(child_generators.begin(), child_generators.end(),
+                            [](auto const& g) { return g->get_child_generator_size() == 0; }))
+                parents_.emplace(gen);
+        }
+    }
+
     void visit(Generator* top) override {
+        if (parents_.find(top) == parents_.end()) return;
         auto child_generators = top->get_child_generators();
-        if (child_generators.empty()) return;
-        // calculate if we should inline or not
-        bool start_inline =
-            std::all_of(child_generators.begin(), child_generators.end(),
-                        [](auto const& gen) { return gen->get_child_generator_size() == 0; });
-        if (!start_inline) return;
 
         std::vector<PortInfo> inline_stmts;
         bool has_inlined_inst = false;
@@ -1425,6 +1433,9 @@ public:
     }
 
 private:
+    // generators that only have leaf instances
+    std::unordered_set<Generator*> parents_;
+
     // events of the processes are not part of the connections
     static void rename_events(Generator* gen, const std::unordered_map<Var*, Var*>& var_mapping) {
         for (auto const& stmt : gen->get_all_stmts()) {
@@ -1564,7 +1575,7 @@ private:
 
 void inline_instance(Generator* top) {
     // this has to be run after decouple generator ports
-    InlineGeneratorVisitor visitor;
+    InlineGeneratorVisitor visitor(top);
     // we only allow leaf instances to be inlined, users can run this pass multiple times
     // by making this assumption, we can run the pass in parallel since the parent of the target
     // won't run this pass hence avoiding race conditions
-- 
2.43.0


From e1e421768d1fed5ad521be1fb18c88696f18db94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:09 +0000
Subject: [PATCH 025/105] fix: clones were not tracked and did not share the
 hash of their definition

---
 src/generator.cc |  1 +
 src/hash.cc      | 11 ++++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/generator.cc b/src/generator.cc
index a43da79..e127326 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -1102,6 +1102,7 @@ std::shared_ptr<Generator> Generator::clone() {
     generator->set_external(true);
     generator->is_cloned_ = true;
     generator->def_instance_ = this;
+    clones_.emplace(generator);
     return generator;
 }
 
diff --git a/src/hash.cc b/src/hash.cc
index 0f20e3c..7fdbdfc 100644
--- a/src/hash.cc
+++ b/src/hash.cc
@@ -217,6 +217,8 @@ uint64_t hash_64_fnv1a(const void* key, uint64_t len) {
 
 }  // hash_64_fnv1a
 
+uint64_t hash_generator(Generator* generator);
+
 // The hash decides whether two generators of the same name share one definition. It is computed from
 // a description that covers everything the definition depends on.
 class HashVisitor {
@@ -331,13 +333,20 @@ private:
         add_event(property->edge());
     }
 
+    uint64_t child_hash(Generator* child) const {
+        // clones are whatever they are cloned from
+        if (child->is_cloned() && child->def_instance()) child = child->def_instance();
+        if (context_->has_hash(child)) return context_->get_hash(child);
+        return hash_generator(child);
+    }
+
     void add_child(Generator* child) {
         add("instance", child->instance_name, child->name);
         // notice that we don't use any mechanism to lock the context's get hash or set hash
         // it is the caller's responsibility to do prepare the calling sequence so that there
         // won't be any race condition.
         // by requiring this, we can have a lock-free implementation ready to scale
-        if (context_->has_hash(child)) add("hash", context_->get_hash(child));
+        add("hash", child_hash(child));
         for (auto const& [name, param] : child->get_params()) {
             add("param", name, param->value_str());
             if (param->parent_param()) add("parent", param->parent_param()->to_string());
-- 
2.43.0


From d42e5ccafe00ae406b450af2207b18185ff0be40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:33 +0000
Subject: [PATCH 026/105] fix: whether a second driver was noticed depended on
 the order of the sources

---
 src/analysis.cc | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/analysis.cc b/src/analysis.cc
index 108d170..4329126 100644
--- a/src/analysis.cc
+++ b/src/analysis.cc
@@ -709,7 +709,8 @@ private:
     }
 
     static void check_var(Var* var) {
-        std::unordered_map<uint32_t, std::pair<IRNode*, Stmt*>> parents;
+        // every scope that drives the bit, since the order of the sources is not defined
+        std::unordered_map<uint32_t, std::vector<std::pair<IRNode*, Stmt*>>> parents;
         for (auto const& stmt : var->sources()) {
             // TODO: FIX THIS
             //  This is a hack to bypass the check if there is a for loop
@@ -723,10 +724,10 @@ private:
             uint32_t var_low = v->var_low();
             uint32_t var_high = v->var_high();
             for (uint32_t i = var_low; i <= var_high; i++) {
-                if (parents.find(i) != parents.end()) {
-                    auto* parent = stmt->parent();
-                    auto* stmt_parent = non_gen_root_parent(stmt.get());
-                    auto const& [ref_parent, ref_stmt_parent] = parents.at(i);
+                auto* parent = stmt->parent();
+                auto* stmt_parent = non_gen_root_parent(stmt.get());
+                auto& drivers = parents[i];
+                for (auto const& [ref_parent, ref_stmt_parent] : drivers) {
                     // the purpose of the following statement is to make sure that there is no
                     // other assignment that's assigning the same var slice in the same scope
                     // it cannot be driven through different blocks, either.
@@ -768,10 +769,10 @@ private:
                                                      var->handle_name()),
                                             {var, parent, stmt.get()});
                     }
-                } else {
-                    parents.emplace(
-                        i, std::make_pair(stmt->parent(), non_gen_root_parent(stmt.get())));
                 }
+                auto driver = std::make_pair(parent, stmt_parent);
+                if (std::find(drivers.begin(), drivers.end(), driver) == drivers.end())
+                    drivers.emplace_back(driver);
             }
         }
     }
-- 
2.43.0


From a931c6ca85c43422ec8dc866f96cfa13e87f57dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:44 +0000
Subject: [PATCH 027/105] fix: zero_generator_inputs and zero_out_stubs made
 designs that do not compile

---
 src/transform.cc | 100 +++++++++++++++--------------------------------
 1 file changed, 31 insertions(+), 69 deletions(-)

diff --git a/src/transform.cc b/src/transform.cc
index 02326da..3df74e5 100644
--- a/src/transform.cc
+++ b/src/transform.cc
@@ -74,13 +74,33 @@ void fix_assignment_type(Generator* top) {
     final_visitor.visit_root_s(top->ast_node());
 }
 
+// wire bit low to bit high of the variable to zero in the generator. arrays are wired element by
+// element since a constant doesn't have the shape of an array
+static void wire_zero(Generator* generator, Var& var, uint32_t low, uint32_t high) {
+    auto const& size = var.size();
+    if (size.size() > 1 || size.front() > 1 || var.explicit_array()) {
+        auto const width = var.width() / size.front();
+        for (auto i = low / width; i <= high / width; i++) {
+            auto const start = i * width;
+            wire_zero(generator, var[i], std::max(low, start) - start,
+                      std::min(high, start + width - 1) - start);
+        }
+        return;
+    }
+    auto& target = (low == 0 && high == var.width() - 1) ? var : var[{high, low}];
+    auto stmt = target.assign(constant(0, target.width(), target.is_signed()));
+    stmt->fn_name_ln.emplace_back(std::make_pair(__FILE__, __LINE__));
+    generator->add_stmt(stmt);
+}
+
 class StubGeneratorVisitor : public IRVisitor {
 public:
     void visit(Generator* generator) override {
         if (!generator->is_stub()) return;
         // to be a stub, there shouldn't be any extra variables
         if (generator->stmts_count() > 0) {
-            throw ::runtime_error(::format("{0} is marked as a stub but contains statements"));
+            throw ::runtime_error(::format("{0} is marked as a stub but contains statements",
+                                             generator->name));
         }
 
         // has to be the exact same number of ports and vars, otherwise it means there are
@@ -107,7 +127,7 @@ public:
                         fmt::format("{0}.{1} is driven by a net, but {0} is declared as a stub",
                                     generator->name, port_name),
                         {port.get(), generator});
-                generator->add_stmt(port->assign(constant(0, port->width())));
+                wire_zero(generator, *port, 0, port->width() - 1);
             }
         }
     }
@@ -147,75 +167,17 @@ public:
                     std::unordered_set<uint32_t> bits;
                     bool is_connected = connected(port, bits);
                     if (!is_connected) {
-                        // notice that we can two choices here:
-                        // bit wiring and bulk wiring
-                        // we will implement bulk wiring here since the merge wiring pass is not
-                        // complete at the time of implementation
-                        // compute the set difference
-                        std::vector<uint32_t> diff_bits;
-                        for (uint32_t i = 0; i < port->width(); i++) {
-                            if (bits.find(i) == bits.end()) {
-                                // no need to sort the bits since we're going in order
-                                // so it's already sorted.
-                                diff_bits.emplace_back(i);
-                            }
-                        }
-                        // we will connect the size 1 easily
-                        // however, if it's an array and sliced in a weird way, there is nothing
-                        // easy we can do. for now we will throw an exception
-                        // maximum the slices range
-                        uint32_t low = diff_bits[0];
-                        uint32_t high = low;
-                        uint32_t pre_high = high;
-
-                        // lambda functions to handle the situation
-                        std::function<void(uint32_t, uint32_t)> wire_zero = [=](uint32_t h,
-                                                                                uint32_t l) {
-                            uint32_t ll, hh;
-                            if (port->size().size() == 1 && port->size().front() == 1) {
-                                ll = l;
-                                hh = h;
-                            } else {
-                                if (l % port->var_width() || (h + 1) % port->var_width()) {
-                                    // can't handle it right now
-                                    auto stmts = std::vector<Stmt*>();
-                                    stmts.reserve(port->sources().size());
-                                    for (auto const& stmt : port->sources()) {
-                                        stmts.emplace_back(stmt.get());
-                                    }
-                                    throw StmtException(
-                                        "Cannot fix up unpacked array due to irregular slicing",
-                                        stmts.begin(), stmts.end());
-                                }
-                                // compute the low and high
-                                ll = l / port->var_width();
-                                hh = h / port->var_width();
-                            }
-                            std::shared_ptr<AssignStmt> stmt;
-                            // a special case is that the port is not connected at all!
-                            if (ll == 0 && hh == (port->width() - 1)) {
-                                stmt = port->assign(constant(0, port->width(), port->is_signed()));
-                            } else {
-                                auto& slice = port->operator[]({hh, ll});
-                                stmt = slice.assign(constant(0, slice.width(), slice.is_signed()));
-                            }
-                            stmt->fn_name_ln.emplace_back(std::make_pair(__FILE__, __LINE__));
-                            gen->add_stmt(stmt);
-                        };
-
-                        for (auto const bit : diff_bits) {
-                            high = bit;
-                            if (high - pre_high > 1) {
-                                // there is a gap
-                                wire_zero(pre_high, low);
-                                low = high;
-                                pre_high = low;
-                            } else {
-                                pre_high = high;
+                        // wire each contiguous range of floating bits
+                        uint32_t bit = 0;
+                        while (bit < port->width()) {
+                            if (bits.find(bit) != bits.end()) {
+                                bit++;
+                                continue;
                             }
+                            auto low = bit;
+                            while (bit < port->width() && bits.find(bit) == bits.end()) bit++;
+                            wire_zero(generator, *port, low, bit - 1);
                         }
-                        // the last bit
-                        wire_zero(high, low);
                     }
                 }
             }
-- 
2.43.0


From 1e3546038b7f5657169880817444085e6c95a02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:01 +0000
Subject: [PATCH 028/105] fix: return and latch checks missed unreachable code
 in some branches and shifted too far for wide switches

---
 src/analysis.cc | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/analysis.cc b/src/analysis.cc
index 4329126..8041d75 100644
--- a/src/analysis.cc
+++ b/src/analysis.cc
@@ -429,25 +429,27 @@ bool check_stmt_condition(Stmt* stmt, const std::function<bool(Stmt*)>& cond,
                 "Statement is not switch but is marked as StatementType::Switch");
         auto cases = stmt_->body();
         if (cases.empty()) return false;
-        uint32_t found_case = 0;
+        uint64_t found_case = 0;
+        // need to go through every case since there might be unreachable code in any of them
         for (auto const& iter : cases) {
             auto* scope_stmt = iter.second.get();
             if (check_stmt_condition(scope_stmt, cond, check_unreachable, full_branch))
                 found_case++;
-            else if (full_branch)
-                return false;
         }
+        if (full_branch && found_case != cases.size()) return false;
         // make sure default case is covered
         // if there is no default case, all the cases have to be covered
         // the only exception is that if the target is an enum and we've covered all it's enum case
-        uint32_t targeted_cases;
+        uint64_t targeted_cases;
         if (stmt_->target()->is_enum()) {
             auto* enum_var = dynamic_cast<EnumType*>(stmt_->target().get());
             if (!enum_var) throw InternalException("Unable to resolve enum type");
             auto const* enum_def = enum_var->enum_type();
             targeted_cases = enum_def->values.size();
         } else {
-            targeted_cases = 1u << stmt_->target()->width();
+            auto const width = stmt_->target()->width();
+            targeted_cases =
+                width < 64 ? (uint64_t(1) << width) : std::numeric_limits<uint64_t>::max();
         }
         if (full_branch) {
             return cases.find(nullptr) != cases.end() || found_case == targeted_cases;
@@ -460,13 +462,10 @@ bool check_stmt_condition(Stmt* stmt, const std::function<bool(Stmt*)>& cond,
             throw InternalException("Statement is not if but is marked as StatementType::If");
         auto const& then = stmt_->then_body();
         auto const& else_ = stmt_->else_body();
-        if (full_branch) {
-            return check_stmt_condition(then.get(), cond, check_unreachable, full_branch) &&
-                   check_stmt_condition(else_.get(), cond, check_unreachable, full_branch);
-        } else {
-            return check_stmt_condition(then.get(), cond, check_unreachable, full_branch) ||
-                   check_stmt_condition(else_.get(), cond, check_unreachable, full_branch);
-        }
+        auto const in_then = check_stmt_condition(then.get(), cond, check_unreachable, full_branch);
+        auto const in_else =
+            check_stmt_condition(else_.get(), cond, check_unreachable, full_branch);
+        return full_branch ? (in_then && in_else) : (in_then || in_else);
     } else if (stmt->type() == StatementType::For) {
         auto* stmt_ = dynamic_cast<ForStmt*>(stmt);
         if (!stmt_)
-- 
2.43.0


From ddc65179462918b2c17505d58cf759e63e5ef643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:01 +0000
Subject: [PATCH 029/105] fix: only a loop through the whole variable was
 noticed as a combinational loop

---
 src/analysis.cc | 50 ++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 45 insertions(+), 5 deletions(-)

diff --git a/src/analysis.cc b/src/analysis.cc
index 8041d75..1d5fc42 100644
--- a/src/analysis.cc
+++ b/src/analysis.cc
@@ -817,8 +817,14 @@ private:
         // get all the sources
         auto const& sources = var->sources();
         for (auto const& stmt : sources) {
-            if (stmt->assign_type() == AssignmentType::Blocking && has_var(stmt->right(), var) &&
-                stmt->parent()->ir_node_kind() == IRNodeKind::GeneratorKind) {
+            if (stmt->assign_type() != AssignmentType::Blocking ||
+                stmt->parent()->ir_node_kind() != IRNodeKind::GeneratorKind)
+                continue;
+            auto* left = stmt->left();
+            // could be the index variable of the left hand side
+            if (left->get_var_root_parent() != var) continue;
+            auto const [low, high] = bit_range(left);
+            if (has_var(stmt->right(), var, low, high)) {
                 throw StmtException(::format("Combinational loop detected at {0} <- {1}",
                                              stmt->left()->to_string(), stmt->right()->to_string()),
                                     {stmt.get(), var});
@@ -826,12 +832,46 @@ private:
         }
     }
 
-    static bool has_var(Var* var, Var* target) {
+    // the bits of the root variable. if it is sliced by a variable, it can be any bit
+    static std::pair<uint32_t, uint32_t> bit_range(Var* var) {
+        auto* v = var;
+        while (v->type() == VarType::Slice) {
+            auto* slice = reinterpret_cast<VarSlice*>(v);
+            if (slice->sliced_by_var()) {
+                return {0, var->get_var_root_parent()->width() - 1};
+            }
+            v = slice->parent_var;
+        }
+        return {var->var_low(), var->var_high()};
+    }
+
+    // whether any bit of the target from low to high is read
+    static bool has_var(Var* var, Var* target, uint32_t low, uint32_t high) {
         if (!var) return false;
         if (var == target) return true;
         if (var->type() == VarType::Expression) {
-            auto* expr = reinterpret_cast<Expr*>(var);
-            return has_var(expr->left, target) || has_var(expr->right, target);
+            for (uint64_t i = 0; i < var->child_count(); i++) {
+                auto* child = var->get_child(i);
+                if (child && has_var(dynamic_cast<Var*>(child), target, low, high)) return true;
+            }
+        } else if (var->is_function()) {
+            auto const& args = reinterpret_cast<FunctionCallVar*>(var)->args();
+            return std::any_of(args.begin(), args.end(), [=](auto const& arg) {
+                return has_var(arg.second.get(), target, low, high);
+            });
+        } else if (var->type() == VarType::BaseCasted) {
+            return has_var(reinterpret_cast<VarCasted*>(var)->parent_var(), target, low, high);
+        } else if (var->type() == VarType::Slice) {
+            auto* slice = reinterpret_cast<VarSlice*>(var);
+            auto* parent = slice->parent_var;
+            if (slice->sliced_by_var()) {
+                auto* index = reinterpret_cast<VarVarSlice*>(var)->sliced_var();
+                if (has_var(index, target, low, high)) return true;
+            }
+            auto* root = var->get_var_root_parent();
+            if (root != target) return root != var && has_var(parent, target, low, high);
+            auto const [read_low, read_high] = bit_range(var);
+            return read_low <= high && low <= read_high;
         }
         return false;
     }
-- 
2.43.0


From 17eb5db376cd2f4f003526194e83f44d48f929e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:01 +0000
Subject: [PATCH 030/105] fix: bad format string in the sensitivity check,
 reset statements were never recorded

---
 src/analysis.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/analysis.cc b/src/analysis.cc
index 1d5fc42..ca133fe 100644
--- a/src/analysis.cc
+++ b/src/analysis.cc
@@ -366,7 +366,7 @@ public:
                         }
                     } else {
                         reset_map_.emplace(std::make_pair(port, reset_high));
-                        reset_map_.emplace(std::make_pair(port, stmt));
+                        reset_stmt_.emplace(std::make_pair(port, stmt));
                     }
                 } else if (port->port_type() == PortType::Reset) {
                     throw VarException(
@@ -1521,7 +1521,7 @@ class SensitivityVisitor : public IRVisitor {
                 if (var_casted->cast_type() != VarCastType::Clock &&
                     var_casted->cast_type() != VarCastType::AsyncReset) {
                     throw StmtException(::format("Only Clock and AsyncReset allowed in "
-                                                 "sensitivity list. Please use cast() to cast {0}}",
+                                                 "sensitivity list. Please use cast() to cast {0}",
                                                  var->to_string()),
                                         {stmt, var});
                 }
-- 
2.43.0


From ef6f5f5cd120989867d22130b45f75d1f22be56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:08 +0000
Subject: [PATCH 031/105] fix: a loop with an empty body was kept by
 remove_empty_block

---
 src/optimize.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/optimize.cc b/src/optimize.cc
index 27b1fc4..a5aaac6 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -1107,6 +1107,10 @@ private:
             return process(std::static_pointer_cast<IfStmt>(stmt));
         } else if (stmt->type() == StatementType::Switch) {
             return process(std::static_pointer_cast<SwitchStmt>(stmt));
+        } else if (stmt->type() == StatementType::For) {
+            // a loop over nothing is empty as well
+            auto body = std::static_pointer_cast<ForStmt>(stmt)->get_loop_body();
+            return process(std::static_pointer_cast<StmtBlock>(body)) ? stmt : nullptr;
         } else if (stmt->type() == StatementType::Block) {
             return process(std::static_pointer_cast<StmtBlock>(stmt));
         } else {
-- 
2.43.0


From 1b8ebc1b70a27bdfa4c52fce84651982347531c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:08 +0000
Subject: [PATCH 032/105] fix: loop variables of an inlined instance could hide
 variables of the parent

---
 src/optimize.cc | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/optimize.cc b/src/optimize.cc
index a5aaac6..6a7281a 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -1379,6 +1379,13 @@ void dead_code_elimination(Generator* top) {
     remove_empty_block(top);
 }
 
+class ForIterVisitor : public IRVisitor {
+public:
+    void visit(ForStmt* stmt) override { iters.emplace_back(stmt->get_iter_var()); }
+
+    std::vector<std::shared_ptr<IterVar>> iters;
+};
+
 class InlineGeneratorVisitor : public IRVisitor {
 public:
     struct PortInfo {
@@ -1433,6 +1440,7 @@ public:
         }
         if (has_inlined_inst) {
             optimize_passthrough_assignment(top, inline_stmts);
+            rename_loops(top);
         }
     }
 
@@ -1440,6 +1448,21 @@ private:
     // generators that only have leaf instances
     std::unordered_set<Generator*> parents_;
 
+    // the loops that moved over must not hide the variables of the new module
+    static void rename_loops(Generator* gen) {
+        ForIterVisitor visitor;
+        visitor.visit_content(gen);
+        std::unordered_set<std::string> names;
+        for (auto const& iter : visitor.iters) names.emplace(iter->name);
+        for (auto const& iter : visitor.iters) {
+            if (!gen->has_var(iter->name)) continue;
+            auto const name = iter->name;
+            for (uint32_t i = 0; gen->has_var(iter->name) || names.count(iter->name); i++)
+                iter->name = ::format("{0}_{1}", name, i);
+            names.emplace(iter->name);
+        }
+    }
+
     // events of the processes are not part of the connections
     static void rename_events(Generator* gen, const std::unordered_map<Var*, Var*>& var_mapping) {
         for (auto const& stmt : gen->get_all_stmts()) {
-- 
2.43.0


From d9aaedf00f941de029f3ecf5f8de43d548220531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:08 +0000
Subject: [PATCH 033/105] fix: inline_instance replaced variables by function
 calls

---
 src/optimize.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index 6a7281a..8a9b9a2 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -1477,9 +1477,10 @@ private:
     }
 
     // whether one variable can be used in place of the other
-    static bool same_definition(const Var* left, const Var* right, const Generator* gen) {
+    static bool same_definition(const Var* left, const Var* right, Generator* gen) {
         for (auto const* var : {left, right}) {
-            if (var->generator() != gen) return false;
+            // has to be a variable of its own, e.g. not a function call
+            if (var->generator() != gen || gen->get_var(var->name).get() != var) return false;
             if (var->type() != VarType::PortIO && var->type() != VarType::Base) return false;
             if (var->is_struct() || var->is_enum() || var->is_interface()) return false;
         }
-- 
2.43.0


From 785ecbfeea739a602e929c2152b2573a8d3a701f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:08 +0000
Subject: [PATCH 034/105] fix: expressions could end up with the generator a
 constant was connected to

---
 src/expr.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index b955746..4ce47c0 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -832,9 +832,11 @@ void Expr::set_parent() {
     } else {
         auto *left_gen = left->generator();
         auto *right_gen = right->generator();
-        if (left_gen == Const::const_gen()) {
+        // constants can be used anywhere, no matter where they have been connected to
+        if (left_gen == Const::const_gen() || left->type() == VarType::ConstValue) {
             generator_ = right_gen;
-        } else if (right_gen == Const::const_gen() || !right_gen) {
+        } else if (right_gen == Const::const_gen() || !right_gen ||
+                   right->type() == VarType::ConstValue) {
             generator_ = left_gen;
         } else if (left_gen == right_gen) {
             generator_ = left->generator();
-- 
2.43.0


From 4bc1af986b712e5c9e7ed051f9a1c8d676104421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:08 +0000
Subject: [PATCH 035/105] fix: debug information of a generator was that of its
 child

---
 src/debug.cc | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/debug.cc b/src/debug.cc
index 802bcc1..1f1b5e8 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -789,14 +789,11 @@ extract_debug_info(Generator *top) {
 std::map<uint32_t, std::vector<std::pair<std::string, uint32_t>>> extract_debug_info_gen(
     Generator *top) {
     GeneratorDebugVisitor visitor;
-    visitor.visit_content(top);
-    auto result = visitor.result();
-    if (result.size() != 1) {
-        throw InternalException(
-            ::format("Unable to extract debug info from the particular generator {0}", top->name));
-    }
-    auto entry = result.begin();
-    return (*entry).second;
+    visitor.visit(top);
+    auto const &result = visitor.result();
+    // no info if nothing is annotated
+    if (result.empty()) return {};
+    return result.begin()->second;
 }
 
 static const std::string hgdb_assert_fail = "hgdb_assert_fail";
-- 
2.43.0


From f998b3cb999b1e20f8e60a1a3e3d2a8e3b9cedde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:08 +0000
Subject: [PATCH 036/105] fix: instances with the name of a variable were
 emitted

---
 src/transform.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/transform.cc b/src/transform.cc
index 3df74e5..e0b4bc0 100644
--- a/src/transform.cc
+++ b/src/transform.cc
@@ -197,6 +197,12 @@ public:
         for (auto& child : generator->get_child_generators()) {
             // skip if already instantiated
             if (child->has_instantiated()) continue;
+            // instances and variables share the name space of the module
+            if (generator->has_var(child->instance_name))
+                throw VarException(
+                    ::format("Instance {0} has the same name as a variable of {1}",
+                             child->instance_name, generator->name),
+                    {generator->get_var(child->instance_name).get()});
             // create instantiation statement
             auto stmt = std::make_shared<ModuleInstantiationStmt>(child.get(), generator);
             if (generator->debug) {
-- 
2.43.0


From 24a52023e85e99e089c22b93e28134d5f082ea20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:08 +0000
Subject: [PATCH 037/105] fix: statements of functions were not linked to their
 generator

---
 src/stmt.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stmt.cc b/src/stmt.cc
index c8168a6..9c54805 100644
--- a/src/stmt.cc
+++ b/src/stmt.cc
@@ -705,7 +705,9 @@ std::vector<std::shared_ptr<VarSlice>> filter_slice_pairs_with_target(
 FunctionStmtBlock::FunctionStmtBlock(kratos::Generator *parent, std::string function_name)
     : StmtBlock(StatementBlockType::Function),
       parent_(parent),
-      function_name_(std::move(function_name)) {}
+      function_name_(std::move(function_name)) {
+    StmtBlock::set_parent(parent);
+}
 
 void FunctionStmtBlock::create_function_handler(uint32_t width, bool is_signed) {
     if (function_handler_) {
-- 
2.43.0


From 727ff73bee67b90bdc8ddec85ac740b408865cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:08 +0000
Subject: [PATCH 038/105] fix: keywords were accepted as names of parameters,
 functions, instances, enum values and structs

---
 src/expr.cc      | 10 ++++++++++
 src/generator.cc | 15 ++++++++++++---
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index 4ce47c0..9f87a5c 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1885,10 +1885,17 @@ bool PackedStructFieldDef::same(const PackedStructFieldDef &def) const {
     return false;
 }
 
+static void check_name(const std::string &name) {
+    if (!is_valid_variable_name(name))
+        throw UserException(::format("{0} is a SystemVerilog keyword", name));
+}
+
 PackedStruct::PackedStruct(std::string struct_name,
                            const std::vector<std::tuple<std::string, uint32_t, bool>> &attributes)
     : struct_name(std::move(struct_name)) {
+    check_name(this->struct_name);
     for (auto const &[name, size, signed_] : attributes) {
+        check_name(name);
         auto def = PackedStructFieldDef();
         def.signed_ = signed_;
         def.name = name;
@@ -1900,7 +1907,9 @@ PackedStruct::PackedStruct(std::string struct_name,
 PackedStruct::PackedStruct(std::string struct_name,
                            const std::vector<std::tuple<std::string, uint32_t>> &attributes)
     : struct_name(std::move(struct_name)) {
+    check_name(this->struct_name);
     for (auto const &[name, size] : attributes) {
+        check_name(name);
         auto def = PackedStructFieldDef();
         def.signed_ = false;
         def.name = name;
@@ -2075,6 +2084,7 @@ Enum::Enum(const std::string &name, const std::map<std::string, uint64_t> &value
         throw UserException(::format("{0} is a SystemVerilog keyword", name));
     }
     for (auto const &[n, value] : values) {
+        check_name(n);
         auto c = std::make_shared<EnumConst>(Const::const_gen(), value, width, this, n);
         this->values.emplace(n, c);
     }
diff --git a/src/generator.cc b/src/generator.cc
index e127326..5dd32e5 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -64,11 +64,14 @@ Generator &Generator::from_verilog(Context *context, const std::string &src_file
     return mod;
 }
 
+static void check_name(const std::string &name) {
+    if (!is_valid_variable_name(name))
+        throw UserException(::format("{0} is a SystemVerilog keyword", name));
+}
+
 Generator::Generator(kratos::Context *context, const std::string &name)
     : IRNode(IRNodeKind::GeneratorKind), name(name), instance_name(name), context_(context) {
-    if (!is_valid_variable_name(name)) {
-        throw UserException(::format("{0} is a SystemVerilog keyword", name));
-    }
+    check_name(name);
 }
 
 Var &Generator::var(const std::string &var_name, uint32_t width, uint32_t size) {
@@ -212,6 +215,7 @@ Expr &Generator::expr(ExprOp op, Var *left, Var *right) {
 }
 
 Param &Generator::parameter(const std::string &parameter_name) {
+    check_param_name_conflict(parameter_name);
     auto ptr = std::make_shared<Param>(this, parameter_name);
     params_.emplace(parameter_name, ptr);
     return *ptr;
@@ -236,6 +240,7 @@ void Generator::add_port_name(const std::string &port_name) {
 }
 
 void Generator::check_param_name_conflict(const std::string &parameter_name) {
+    check_name(parameter_name);
     if (params_.find(parameter_name) != params_.end())
         throw VarException(::format("parameter {0} already exists", parameter_name),
                            {params_.at(parameter_name).get()});
@@ -325,6 +330,7 @@ FunctionCallVar &Generator::call(const std::string &func_name,
 }
 
 std::shared_ptr<FunctionStmtBlock> Generator::function(const std::string &func_name) {
+    check_name(func_name);
     if (funcs_.find(func_name) != funcs_.end())
         throw UserException(::format("function {0} already exists", func_name));
     auto p = std::make_shared<FunctionStmtBlock>(this, func_name);
@@ -334,6 +340,7 @@ std::shared_ptr<FunctionStmtBlock> Generator::function(const std::string &func_n
 }
 
 std::shared_ptr<TaskStmtBlock> Generator::task(const std::string &func_name) {
+    check_name(func_name);
     if (funcs_.find(func_name) != funcs_.end())
         throw UserException(::format("function {0} already exists", func_name));
     auto p = std::make_shared<TaskStmtBlock>(this, func_name);
@@ -343,6 +350,7 @@ std::shared_ptr<TaskStmtBlock> Generator::task(const std::string &func_name) {
 }
 
 std::shared_ptr<DPIFunctionStmtBlock> Generator::dpi_function(const std::string &func_name) {
+    check_name(func_name);
     if (funcs_.find(func_name) != funcs_.end())
         throw UserException(::format("function {0} already exists", func_name));
     auto p = std::make_shared<DPIFunctionStmtBlock>(this, func_name);
@@ -403,6 +411,7 @@ IRNode *Generator::get_child(uint64_t index) {
 
 void Generator::add_child_generator(const std::string &instance_name_,
                                     const std::shared_ptr<Generator> &child) {
+    check_name(instance_name_);
     child->instance_name = instance_name_;
     if (children_.find(child->instance_name) == children_.end()) {
         children_.emplace(child->instance_name, child);
-- 
2.43.0


From 3c660d09786261c25805a9fe423d7dfaba0c6aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:14 +0000
Subject: [PATCH 039/105] fix: evaluation of operators was wrong for wide,
 negative and shifted values

---
 src/eval.cc | 88 +++++++++++++++++++++++++++++++++++------------------
 1 file changed, 58 insertions(+), 30 deletions(-)

diff --git a/src/eval.cc b/src/eval.cc
index a9360a4..6736304 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -1,14 +1,13 @@
 #include "eval.hh"
-#include <cmath>
+
+#include "except.hh"
 
 namespace kratos {
 
 auto constexpr UINT64_WIDTH_ = 64;
 
 uint64_t invert(uint64_t value, uint32_t width) {
-    auto v = ~value;
-    v ^= UINT64_MASK << width;
-    return v;
+    return truncate(~value, width);
 }
 
 uint64_t two_complement(uint64_t value, uint32_t width) {
@@ -25,7 +24,7 @@ uint64_t eval_unary_op(uint64_t value, ExprOp op, uint32_t width) {
         case ExprOp::UMinus:
             return two_complement(value, width);
         case ExprOp::UAnd:
-            return static_cast<uint32_t>(__builtin_popcount(value)) == width;
+            return static_cast<uint32_t>(__builtin_popcountll(value)) == width;
         case ExprOp::UInvert:
             return invert(value, width);
         case ExprOp::UNot:
@@ -35,20 +34,41 @@ uint64_t eval_unary_op(uint64_t value, ExprOp op, uint32_t width) {
         case ExprOp::UPlus:
             return value;
         case ExprOp::UXor: {
-            return __builtin_popcount(value) % 2;
+            return __builtin_popcountll(value) % 2;
         }
         default: throw std::runtime_error("Not implemented");
     }
 }
 
+uint64_t shift_right(uint64_t value, uint64_t amount) {
+    return amount < UINT64_WIDTH_ ? value >> amount : 0;
+}
+
+uint64_t power(uint64_t base, uint64_t exponent, uint32_t width, bool base_negative,
+               bool exponent_negative) {
+    uint64_t result = 1;
+    if (exponent_negative) {
+        if (!base) throw UserException("Division by zero");
+        // only 1 and -1 have an inverse
+        if (base_negative ? two_complement(base, width) != 1 : base != 1) return 0;
+    }
+    for (; exponent; exponent >>= 1u, base *= base) {
+        if (exponent & 1u) result *= base;
+    }
+    return result;
+}
+
 uint64_t eval_bin_op(uint64_t left_value, uint64_t right_value, ExprOp op, uint32_t width,
                      bool signed_) {
     bool left_negative = signed_ && left_value >> (width - 1);
     bool right_negative = signed_ && right_value >> (width - 1);
     uint64_t left_abs_value = left_negative ? two_complement(left_value, width) : left_value;
     uint64_t right_abs_value = right_negative ? two_complement(right_value, width) : right_value;
-    uint64_t signed_bit = static_cast<uint64_t>(left_negative ^ right_negative) << (width - 1);
+    bool const result_negative = left_negative ^ right_negative;
     auto const mask = UINT64_MASK >> (64u - width);
+    // numbers of the same sign are in the same order as their bits
+    bool const less_than =
+        left_negative == right_negative ? left_value < right_value : left_negative;
     uint64_t result;
     switch (op) {
         case ExprOp::Add:
@@ -58,12 +78,18 @@ uint64_t eval_bin_op(uint64_t left_value, uint64_t right_value, ExprOp op, uint3
             result = (left_value - right_value) & mask;
             break;
         case ExprOp::Multiply:
-            result = left_abs_value * right_abs_value;
-            if (signed_bit) result = two_complement(result, width);
+            result = left_value * right_value;
             break;
         case ExprOp::Divide:
+            if (!right_value) throw UserException("Division by zero");
             result = left_abs_value / right_abs_value;
-            if (signed_bit) result = two_complement(result, width);
+            if (result_negative) result = two_complement(result, width);
+            break;
+        case ExprOp::Mod:
+            if (!right_value) throw UserException("Division by zero");
+            result = left_abs_value % right_abs_value;
+            // the sign is that of the first operand
+            if (left_negative) result = two_complement(result, width);
             break;
         case ExprOp::And:
             result = left_value & right_value;
@@ -77,39 +103,41 @@ uint64_t eval_bin_op(uint64_t left_value, uint64_t right_value, ExprOp op, uint3
         case ExprOp::Eq:
             result = left_value == right_value;
             break;
+        case ExprOp::Neq:
+            result = left_value != right_value;
+            break;
+        case ExprOp::LAnd:
+            result = left_value && right_value;
+            break;
+        case ExprOp::LOr:
+            result = left_value || right_value;
+            break;
         case ExprOp::Power:
-            result = static_cast<uint64_t>(std::pow(left_value, right_value));
+            result = power(left_value, right_value, width, left_negative, right_negative);
             break;
         case ExprOp::GreaterEqThan:
-            result = left_abs_value >= right_abs_value;
-            result = (left_negative && !right_negative)
-                         ? false
-                         : !left_negative && right_negative ? true : result ^ left_negative;
+            result = !less_than;
             break;
         case ExprOp::LessEqThan:
-            result = left_abs_value <= right_abs_value;
-            result = (left_negative && !right_negative)
-                         ? true
-                         : !left_negative && right_negative ? false : result ^ left_negative;
+            result = less_than || left_value == right_value;
             break;
         case ExprOp::LessThan:
-            result = left_abs_value < right_abs_value;
-            result = (left_negative && !right_negative)
-                         ? true
-                         : !left_negative && right_negative ? false : result ^ left_negative;
+            result = less_than;
             break;
         case ExprOp ::GreaterThan:
-            result = left_abs_value > right_abs_value;
-            result = (left_negative && !right_negative)
-                         ? false
-                         : !left_negative && right_negative ? true : result ^ left_negative;
+            result = !less_than && left_value != right_value;
             break;
         case ExprOp::SignedShiftRight:
-            result = left_abs_value >> right_value;
-            if (left_negative) result |= UINT64_MASK << (width - 1 - right_value);
+            if (left_negative)
+                result = invert(shift_right(invert(left_value, width), right_value), width);
+            else
+                result = shift_right(left_value, right_value);
             break;
         case ExprOp::LogicalShiftRight:
-            result = left_value >> right_value;
+            result = shift_right(left_value, right_value);
+            break;
+        case ExprOp::ShiftLeft:
+            result = right_value < UINT64_WIDTH_ ? left_value << right_value : 0;
             break;
         default: {
             throw std::runtime_error("Not implemented");
-- 
2.43.0


From 35439dfed6fc843840420e67269ce3daf496c4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:14 +0000
Subject: [PATCH 040/105] fix: connections of outputs were missing in the
 connections of an instance

---
 src/stmt.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stmt.cc b/src/stmt.cc
index 9c54805..0b12183 100644
--- a/src/stmt.cc
+++ b/src/stmt.cc
@@ -926,6 +926,7 @@ void InstantiationStmt::process_port(kratos::Port *port, Generator *parent,
             if (!sinks.empty() && sinks.size() == 1) {
                 auto stmt = *sinks.begin();
                 port_mapping_.emplace(port, stmt->left());
+                connection_stmt_.emplace(stmt.get());
                 stmt->remove_from_parent();
                 if (parent->debug) {
                     port_debug_.emplace(port, stmt.get());
-- 
2.43.0


From 03096f5093555abf2c97852f5e2698a2c0e5bffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:14 +0000
Subject: [PATCH 041/105] fix: the simulator read, wrote and scheduled slices,
 casts, concatenations and registers wrongly

---
 src/sim.cc | 698 +++++++++++++++++++++--------------------------------
 src/sim.hh |  16 +-
 2 files changed, 277 insertions(+), 437 deletions(-)

diff --git a/src/sim.cc b/src/sim.cc
index f317692..1c71777 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -28,44 +28,42 @@ public:
                 if (block->block_type() == StatementBlockType::Sequential) {
                     visit_block(block->as<SequentialStmtBlock>().get());
                 } else if (block->block_type() == StatementBlockType::Combinational) {
-                    visit_block(block->as<CombinationalStmtBlock>().get());
+                    visit_block(block.get());
+                } else if (block->block_type() == StatementBlockType::Latch) {
+                    visit_block(block.get());
                 }
             } else if (stmt->type() == StatementType::ModuleInstantiation) {
                 visit_module_instantiation(stmt->as<ModuleInstantiationStmt>().get());
             }
         }
     }
-    using DepSet = std::pair<std::unordered_set<const Var *>,
-                             std::unordered_map<const Var *, std::unordered_map<uint32_t, Var *>>>;
-
-    static DepSet get_dep(Var *var) {
+    // base variables whose value the variable is computed from
+    static std::unordered_set<const Var *> get_dep(const Var *var) {
         std::unordered_set<const Var *> deps;
-        std::unordered_map<const Var *, std::unordered_map<uint32_t, Var *>> linked_deps;
-        get_var_deps(var, deps, linked_deps);
-        return {deps, linked_deps};
+        get_var_deps(var, deps);
+        return deps;
     }
 
     const std::unordered_map<const Var *, std::unordered_set<Stmt *>> &dependency() const {
         return dependency_;
     }
 
-    const std::unordered_map<const Var *, std::unordered_map<uint32_t, Var *>> &linked_dependency()
-        const {
-        return linked_dependency_;
-    }
+    // statements that do not depend on any variable
+    const std::vector<Stmt *> &constants() const { return constants_; }
 
 private:
     std::unordered_map<const Var *, std::unordered_set<Stmt *>> dependency_;
-    std::unordered_map<const Var *, std::unordered_map<uint32_t, Var *>> linked_dependency_;
+    std::vector<Stmt *> constants_;
 
-    void visit_block(CombinationalStmtBlock *block) {
+    void add_dep(Stmt *stmt, const std::unordered_set<const Var *> &deps) {
+        for (auto const &var : deps) dependency_[var].emplace(stmt);
+        if (deps.empty()) constants_.emplace_back(stmt);
+    }
+
+    void visit_block(StmtBlock *block) {
         CombinationBlockVisitor visitor;
         visitor.visit_root(block);
-        auto const &vars = visitor.vars();
-        for (auto const &var : vars) dependency_[var].emplace(block);
-        for (auto const &[var, entry] : visitor.linked_vars()) {
-            linked_dependency_[var].insert(entry.begin(), entry.end());
-        }
+        add_dep(block, visitor.vars());
     }
 
     void visit_block(SequentialStmtBlock *block) {
@@ -76,11 +74,9 @@ private:
     }
 
     void visit_assign(AssignStmt *assign) {
-        auto const &[dep, linked] = get_dep(assign->right());
-        for (auto const &v : dep) dependency_[v].emplace(assign);
-        for (auto const &[var, entry] : linked) {
-            linked_dependency_[var].insert(entry.begin(), entry.end());
-        }
+        auto deps = get_dep(assign->right());
+        get_index_deps(assign->left(), deps);
+        add_dep(assign, deps);
     }
 
     void visit_module_instantiation(ModuleInstantiationStmt *stmt) {
@@ -90,9 +86,12 @@ private:
         }
     }
 
-    void static get_var_deps(
-        Var *var, std::unordered_set<const Var *> &dep,
-        std::unordered_map<const Var *, std::unordered_map<uint32_t, Var *>> &linked_dep) {
+    void static get_var_deps(const Var *var, std::unordered_set<const Var *> &dep) {
+        if (var->is_function()) {
+            auto const *call = reinterpret_cast<const FunctionCallVar *>(var);
+            for (auto const &iter : call->args()) get_var_deps(iter.second.get(), dep);
+            return;
+        }
         switch (var->type()) {
             case VarType::Base:
             case VarType::PortIO: {
@@ -100,18 +99,33 @@ private:
                 break;
             }
             case VarType ::Expression: {
-                auto const &expr = reinterpret_cast<Expr *>(var);
-                get_var_deps(expr->left, dep, linked_dep);
+                auto const *expr = reinterpret_cast<const Expr *>(var);
+                if (expr->op == ExprOp::Concat) {
+                    auto const *concat = reinterpret_cast<const VarConcat *>(expr);
+                    for (auto const *v : concat->vars()) get_var_deps(v, dep);
+                    break;
+                } else if (expr->op == ExprOp::Extend) {
+                    auto const *extend = reinterpret_cast<const VarExtend *>(expr);
+                    get_var_deps(extend->parent_var(), dep);
+                    break;
+                } else if (expr->op == ExprOp::Conditional) {
+                    auto const *cond = reinterpret_cast<const ConditionalExpr *>(expr);
+                    get_var_deps(cond->condition, dep);
+                }
+                get_var_deps(expr->left, dep);
                 if (expr->right) {
-                    get_var_deps(expr->right, dep, linked_dep);
+                    get_var_deps(expr->right, dep);
                 }
                 break;
             }
-            case VarType::BaseCasted:
+            case VarType::BaseCasted: {
+                auto *casted = const_cast<VarCasted *>(reinterpret_cast<const VarCasted *>(var));
+                get_var_deps(casted->parent_var(), dep);
+                break;
+            }
             case VarType ::Slice: {
-                // compute linked dependency
-                compute_linked_dep(reinterpret_cast<VarSlice *>(var), linked_dep);
-                dep.emplace(var);
+                get_index_deps(var, dep);
+                get_var_deps(var->get_var_root_parent(), dep);
                 break;
             }
             default: {
@@ -120,64 +134,33 @@ private:
         }
     }
 
-    static void compute_linked_dep(
-        VarSlice *slice,
-        std::unordered_map<const Var *, std::unordered_map<uint32_t, Var *>> &linked_dep) {
-        auto var_high = slice->var_high();
-        auto var_low = slice->var_low();
-        auto *root = slice->get_var_root_parent();
-        for (uint32_t i = var_low; i <= var_high; i++) {
-            linked_dep[root].emplace(i, slice);
-        }
-        // if indexed by a var
-        if (slice->sliced_by_var()) {
-            auto *var_slice = reinterpret_cast<VarVarSlice *>(slice);
-            auto *p = var_slice->sliced_var();
-            var_high = p->var_high();
-            var_low = p->var_low();
-            root = p->get_var_root_parent();
-            for (uint32_t i = var_low; i <= var_high; i++) {
-                linked_dep[root].emplace(i, slice);
+    // variables that select the bits
+    static void get_index_deps(const Var *var, std::unordered_set<const Var *> &dep) {
+        while (var->type() == VarType::Slice) {
+            auto const *slice = reinterpret_cast<const VarSlice *>(var);
+            if (slice->sliced_by_var()) {
+                auto const *var_slice = reinterpret_cast<const VarVarSlice *>(slice);
+                get_var_deps(var_slice->sliced_var(), dep);
             }
+            var = slice->parent_var;
         }
     }
 
     class CombinationBlockVisitor : public IRVisitor {
     public:
-        void visit(IfStmt *stmt) override {
-            auto predicate = stmt->predicate();
-            auto const &[dep, linked] = DependencyVisitor::get_dep(predicate.get());
-            for (auto const &var : dep) vars_.emplace(var);
-            for (auto const &[var, entry] : linked) {
-                linked_vars_[var].insert(entry.begin(), entry.end());
-            }
-        }
+        void visit(IfStmt *stmt) override { get_var_deps(stmt->predicate().get(), vars_); }
 
-        void visit(SwitchStmt *stmt) override {
-            auto target = stmt->target();
-            auto const &[dep, linked] = DependencyVisitor::get_dep(target.get());
-            for (auto const &var : dep) vars_.emplace(var);
-            for (auto const &[var, entry] : linked) {
-                linked_vars_[var].insert(entry.begin(), entry.end());
-            }
-        }
+        void visit(SwitchStmt *stmt) override { get_var_deps(stmt->target().get(), vars_); }
 
         void visit(AssignStmt *stmt) override {
-            auto const &[dep, linked] = DependencyVisitor::get_dep(stmt->right());
-            for (auto const &var : dep) vars_.emplace(var);
-            for (auto const &[var, entry] : linked) {
-                linked_vars_[var].insert(entry.begin(), entry.end());
-            }
+            get_var_deps(stmt->right(), vars_);
+            get_index_deps(stmt->left(), vars_);
         }
 
-        std::unordered_set<const Var *> &vars() { return vars_; }
-        std::unordered_map<const Var *, std::unordered_map<uint32_t, Var *>> &linked_vars() {
-            return linked_vars_;
-        }
+        const std::unordered_set<const Var *> &vars() const { return vars_; }
 
     private:
         std::unordered_set<const Var *> vars_;
-        std::unordered_map<const Var *, std::unordered_map<uint32_t, Var *>> linked_vars_;
     };
 };
 
@@ -187,18 +170,36 @@ Simulator::Simulator(kratos::Generator *generator) {
     fix_assignment_type(generator);
     // compute the dependency
     DependencyVisitor visitor;
-    // visit in parallel to build up and dep table
-    visitor.visit_generator_root_p(generator);
+    visitor.visit_generator_root(generator);
     dependency_ = visitor.dependency();
-    linked_dependency_ = visitor.linked_dependency();
-    init_pull_up_value(generator);
+    // pull-up values
+    for (auto *stmt : visitor.constants()) process_stmt(stmt, nullptr);
+}
+
+static bool is_array(const Var *var) {
+    return var->size().size() != 1 || var->size().front() != 1;
+}
+
+static uint64_t extend_value(uint64_t value, uint32_t from, uint32_t to, bool is_signed) {
+    if (to > from && is_signed && (value >> (from - 1))) value |= UINT64_MASK << from;
+    return truncate(value, to);
+}
+
+static uint64_t num_elements(const Var *var) {
+    uint64_t result = 1;
+    for (auto const s : var->size()) result *= s;
+    return result;
+}
+
+// values are only kept in 64-bit words
+static void check_width(const Var *var, uint32_t width) {
+    if (width > 64)
+        throw InternalException(::format("Big number evaluation not supported. Got {0} ({1} bits)",
+                                         var->handle_name(), width));
 }
 
 std::optional<uint64_t> Simulator::get_value_(const kratos::Var *var) const {
     if (!var) return std::nullopt;
-    // only scalar
-    if (var->size().size() != 1 || var->size().front() > 1) return std::nullopt;
-
     if (var->type() == VarType::Parameter) {
         auto const *param = reinterpret_cast<const Param *>(var);
         return param->value();
@@ -207,7 +208,8 @@ std::optional<uint64_t> Simulator::get_value_(const kratos::Var *var) const {
         if (const_->is_bignum())
             throw InternalException("Big number evaluation not supported. Got " +
                                     const_->to_string());
-        return const_->value();
+        check_width(var, var->width());
+        return truncate(const_->value(), var->width());
     } else if (var->type() == VarType::Expression) {
         auto result = eval_expr(var);
         if (result) {
@@ -215,36 +217,27 @@ std::optional<uint64_t> Simulator::get_value_(const kratos::Var *var) const {
         } else {
             return std::nullopt;
         }
+    } else if (var->type() == VarType::BaseCasted) {
+        auto *casted = const_cast<VarCasted *>(reinterpret_cast<const VarCasted *>(var));
+        auto const *parent = casted->parent_var();
+        auto value = get_value_(parent);
+        if (!value) return std::nullopt;
+        check_width(var, var->width());
+        return extend_value(*value, parent->width(), var->width(), parent->is_signed());
+    } else if (is_array(var)) {
+        // only scalar, or something that can be used like one
+        if (!var->is_packed()) return std::nullopt;
+        auto values = get_complex_value_(var);
+        if (!values) return std::nullopt;
+        check_width(var, var->width());
+        uint64_t result = 0;
+        for (uint64_t i = 0; i < values->size(); i++)
+            result |= (*values)[i] << (i * var->var_width());
+        return result;
     } else if (var->type() == VarType::Slice) {
-        auto const *root = var->get_var_root_parent();
-        std::vector<uint64_t> values;
-        if (root->type() == VarType::ConstValue || root->type() == VarType::Parameter) {
-            auto value = get_value_(var);
-            if (!value)
-                throw InternalException(
-                    ::format("Unable to get value for {0}", var->handle_name()));
-            values = {*value};
-        } else if (root->size().size() == 1 && root->size().front() == 1) {
-            // this is size one
-            auto value = get_value_(root);
-            if (!value) return std::nullopt;
-            values = {*value};
-        } else if (complex_values_.find(root) == complex_values_.end()) {
-            return std::nullopt;
-        } else {
-            values = complex_values_.at(root);
-        }
-        // obtain the index
-        auto index = get_slice_index(var);
-        if (index.empty()) return std::nullopt;
-        auto const [var_high, var_low] = compute_var_high_low(root, index);
-        if (var_high + 1 - var_low > root->width())
-            throw InternalException("Unable to resolve variable slicing");
-        auto base = var_low / root->var_width();
-        auto low = var_low % root->var_width();
-        auto high = var_high % root->var_width();
-        auto value = values[base];
-        return (value >> low) & (~(0xFFFFFFFFFFFFFFFF << (high + 1)));
+        auto values = get_complex_value_(var);
+        if (!values) return std::nullopt;
+        return (*values)[0];
     } else {
         // function call
         if (var->is_function()) {
@@ -269,87 +262,38 @@ std::optional<uint64_t> Simulator::get_value_(const kratos::Var *var) const {
 
 void Simulator::set_value_(const kratos::Var *var, std::optional<uint64_t> op_value) {
     if (!op_value) return;
-    auto value = *op_value;
-    if (var->size().size() != 1 || var->size().front() != 1) {
-        set_complex_value_(var, std::vector<uint64_t>{value});
-        return;
-    }
-    if (var->type() == VarType::Parameter || var->type() == VarType::ConstValue) {
-        throw UserException(::format("Cannot set value for constant {0}", var->handle_name()));
-    } else if (var->type() == VarType::Slice) {
-        auto const *root = var->get_var_root_parent();
-        std::vector<uint64_t *> values;
-        if (root->type() == VarType::ConstValue || root->type() == VarType::Parameter) {
-            throw UserException(::format("Cannot set value for constant {0}", var->handle_name()));
-        } else if (root->size().size() == 1 && root->size().front() == 1) {
-            // this is size one
-            if (values_.find(root) == values_.end()) values_[root] = 0;
-            values = {&values_.at(root)};
-        } else {
-            uint32_t base = 1;
-            for (uint32_t s : root->size()) {
-                base *= s;
-            }
-            if (complex_values_.find(root) == complex_values_.end()) {
-                // fill in values
-                std::vector<uint64_t> v(base);
-                for (uint64_t i = 0; i < base; i++) v[i] = 0;
-                complex_values_.emplace(root, v);
-            }
-            std::vector<uint64_t> &v_ref = complex_values_.at(root);
-            values.reserve(base);
-            for (uint64_t i = 0; i < base; i++) values.emplace_back(&v_ref[i]);
-        }
-        // obtain the index
-        auto index = get_slice_index(var);
-        if (index.empty()) throw InternalException("Empty slice");
-        auto [var_high, var_low] = compute_var_high_low(root, index);
-        if (var_high + 1 - var_low > root->width())
-            throw InternalException("Unable to resolve variable slicing");
-        auto base = var_low / root->var_width();
-        var_high = var_high - base * root->var_width();
-        var_low = var_low - base * root->var_width();
-        auto *v = values[base];
-        auto temp = *v;
-        // compute the mask
-        uint64_t mask = (0xFFFFFFFFFFFFFFFF >> (var_high + 1)) >> var_low;
-        *v = *v & (~mask);
-        value = value & (0xFFFFFFFFFFFFFFFF >> (var_high - var_low + 1));
-        *v = *v | (value << var_low);
-        if (*v != temp) {
-            std::unordered_set<uint32_t> changed_bits;
-            uint64_t m = (*v) ^ temp;
-            for (uint32_t bit = 0; bit < root->width(); bit++) {
-                if ((m >> bit) & 1u) {
-                    changed_bits.emplace(bit);
-                }
-            }
-            trigger_event(root, changed_bits);
-        }
-    } else {
-        std::unordered_set<uint32_t> changed_bits;
-        if (values_.find(var) != values_.end()) {
-            auto temp = values_.at(var);
-            if (temp != value) {
-                values_[var] = value;
-                uint64_t m = value ^ temp;
-                for (uint32_t bit = 0; bit < var->width(); bit++) {
-                    if ((m >> bit) & 1u) {
-                        changed_bits.emplace(bit);
-                    }
-                }
-            }
-        } else {
-            values_[var] = value;
-            for (uint32_t i = 0; i < var->width(); i++) changed_bits.emplace(i);
-        }
-        trigger_event(var, changed_bits);
-    }
+    set_complex_value_(var, std::vector<uint64_t>{*op_value});
 }
 
 std::optional<std::vector<uint64_t>> Simulator::get_complex_value_(const kratos::Var *var) const {
     if (!var) return std::nullopt;
-    if (var->size().size() == 1 && var->size().front() == 1) {
+    if (var->type() == VarType::Slice) {
+        auto const *root = var->get_var_root_parent();
+        auto low = get_slice_low(var);
+        if (!low) return std::nullopt;
+        std::vector<uint64_t> root_values;
+        if (root->type() != VarType::Base && root->type() != VarType::PortIO) {
+            auto value = get_value_(root);
+            if (!value) return std::nullopt;
+            root_values = {*value};
+        } else {
+            auto values = get_complex_value_(root);
+            if (!values) return std::nullopt;
+            root_values = *values;
+        }
+        auto const root_width = root->var_width();
+        check_width(root, root_width);
+        std::vector<uint64_t> result(num_elements(var));
+        for (uint64_t i = 0; i < result.size(); i++) {
+            auto const bit = *low + i * var->var_width();
+            // out of bound
+            if (bit / root_width >= root_values.size()) return std::nullopt;
+            result[i] =
+                truncate(root_values[bit / root_width] >> (bit % root_width), var->var_width());
+        }
+        return result;
+    }
+    if (!is_array(var)) {
         // this is a scalar
         auto v = get_value_(var);
         if (v)
@@ -357,191 +301,125 @@ std::optional<std::vector<uint64_t>> Simulator::get_complex_value_(const kratos:
         else
             return std::nullopt;
     }
-    if (var->type() == VarType::Slice) {
-        auto const *root = var->get_var_root_parent();
-        auto index = get_slice_index(var);
-        if (index.empty()) return std::nullopt;
-        auto const [var_high, var_low] = compute_var_high_low(root, index);
-        if (var_low % root->var_width() != 0 ||
-            (var_high % root->var_width() != root->var_width() - 1))
-            throw InternalException("Misaligned vector slicing");
-        if (complex_values_.find(root) == complex_values_.end()) return std::nullopt;
-        auto values = complex_values_.at(root);
-        // compute the slice range
-        auto low = var_low / root->var_width();
-        auto high = var_high / root->var_width();
-        return std::vector<uint64_t>(values.begin() + low, values.end() + high + 1);
-    } else {
-        if (complex_values_.find(var) == complex_values_.end()) return std::nullopt;
-        return complex_values_.at(var);
-    }
+    if (complex_values_.find(var) == complex_values_.end()) return std::nullopt;
+    return complex_values_.at(var);
 }
 
 void Simulator::set_complex_value_(const kratos::Var *var,
                                    const std::optional<std::vector<uint64_t>> &op_value) {
     if (!op_value) return;
-    auto value = *op_value;
-    if (var->size().size() == 1 && var->size().front() == 1) {
-        if (value.size() > 1) throw UserException("Cannot set multiple values to a scalar");
-        set_value_(var, value[0]);
-        return;
-    }
-    std::vector<uint64_t *> values;
-    uint64_t base = 1;
-    const Var *fill_var;
-    uint32_t low, high;
-    if (var->type() == VarType::Slice) {
-        const auto *root = var->get_var_root_parent();
-        fill_var = root;
-        auto index = get_slice_index(var);
-        if (index.empty()) throw InternalException("Empty slice");
-        auto const [var_high, var_low] = compute_var_high_low(root, index);
-        if (var_low % root->var_width() != 0 ||
-            (var_high % root->var_width() != root->var_width() - 1))
-            throw InternalException("Misaligned vector slicing");
-        low = var_low;
-        high = var_high;
-        if (root->size().size() == 1 && root->size().front() == 1) {
-            // this is size one
-            if (values_.find(root) == values_.end()) values_[root] = 0;
-            values = {&values_.at(root)};
-        } else {
-            for (uint32_t s : root->size()) {
-                base *= s;
-            }
-            std::vector<uint64_t> &v_ref = complex_values_.at(root);
-            values.reserve(base);
-            for (uint64_t i = 0; i < base; i++) values.emplace_back(&v_ref[i]);
-        }
-    } else {
-        for (uint32_t s : var->size()) {
-            base *= s;
-        }
-        fill_var = var;
-        low = 0;
-        high = base - 1;
-    }
-    bool fill_in = false;
-    if (complex_values_.find(fill_var) == complex_values_.end()) {
-        // whatever bits changed
-        // fill in values
-        fill_in = true;
-        if (complex_values_.find(fill_var) == complex_values_.end()) {
-            // fill in values
-            std::vector<uint64_t> v(base);
-            for (uint64_t i = 0; i < base; i++) v[i] = 0;
-            complex_values_.emplace(var, v);
+    if (var->type() == VarType::Expression) {
+        // assign to every part of it
+        auto const *expr = reinterpret_cast<const Expr *>(var);
+        if (expr->op != ExprOp::Concat) throw std::runtime_error("Not implemented");
+        auto const *concat = reinterpret_cast<const VarConcat *>(var);
+        auto value = (*op_value)[0];
+        auto const &vars = concat->vars();
+        for (auto it = vars.rbegin(); it != vars.rend(); it++) {
+            check_width(var, var->width());
+            set_value_(*it, value);
+            value = (*it)->width() < 64 ? value >> (*it)->width() : 0;
         }
+        return;
     }
+    auto low = get_slice_low(var);
+    // nothing is known about where to write
+    if (!low) return;
+    set_bits(var, *low, *op_value);
+}
 
-    // get values
-    if (var->type() != VarType::Slice) {
-        values.reserve(base);
-        auto &v_ref = complex_values_.at(var);
-        for (uint64_t i = 0; i < base; i++) values.emplace_back(&v_ref[i]);
+void Simulator::set_bits(const Var *var, uint32_t low, std::vector<uint64_t> value) {
+    auto const *root = var->get_var_root_parent();
+    if (root->type() == VarType::Parameter || root->type() == VarType::ConstValue) {
+        throw UserException(::format("Cannot set value for constant {0}", var->handle_name()));
     }
-
-    if (values.size() != value.size()) {
+    auto const width = var->var_width();
+    auto const root_width = root->var_width();
+    check_width(root, root_width);
+    if (value.size() != num_elements(var)) {
+        if (!is_array(var)) throw UserException("Cannot set multiple values to a scalar");
         // expand the value to if the target is packed
-        if (fill_var->is_packed()) {
-            if (value.size() > 1) {
-                throw InternalException("Multiple value assigned to packed array not supported");
-            }
-            auto v = value[0];
-            std::vector<uint64_t> v_(values.size());
-            for (uint64_t i = 0; i < values.size(); i++) {
-                auto w = fill_var->var_width();
-                v_[i] = (v >> (w * i)) & (~(UINT64_MASK << w));
-            }
-            value = v_;
-        } else {
-            throw UserException("Misaligned slicing");
-        }
-    }
-    std::unordered_set<uint32_t> changed_bits;
-    uint32_t var_width = fill_var->var_width();
-
-    for (uint32_t i = low; i <= high; i++) {
-        if (*(values[i]) != value[i] || fill_in) {
-            uint32_t bit_mask = (*values[i]) ^ value[i];
-            *(values[i]) = value[i];
-            for (uint32_t bit = 0; bit < var_width; bit++) {
-                if ((bit_mask >> bit) & 1u || fill_in) {
-                    changed_bits.emplace(bit + var_width * i);
-                }
-            }
-        }
-    }
-    trigger_event(fill_var, changed_bits);
+        if (!root->is_packed()) throw UserException("Misaligned slicing");
+        if (value.size() > 1)
+            throw InternalException("Multiple value assigned to packed array not supported");
+        auto v = value[0];
+        value = std::vector<uint64_t>(num_elements(var));
+        for (auto &element : value) {
+            element = truncate(v, width);
+            v = width < 64 ? v >> width : 0;
+        }
+    }
+    std::vector<uint64_t> old;
+    auto current = get_complex_value_(root);
+    if (current) old = *current;
+    auto values = old;
+    values.resize(num_elements(root), 0);
+    for (uint64_t i = 0; i < value.size(); i++) {
+        auto const bit = low + i * width;
+        // out of bound
+        if (bit / root_width >= values.size()) continue;
+        auto &word = values[bit / root_width];
+        auto const mask = (UINT64_MASK >> (64 - width)) << (bit % root_width);
+        word = (word & ~mask) | ((value[i] << (bit % root_width)) & mask);
+    }
+    if (values == old) return;
+    if (is_array(root))
+        complex_values_[root] = values;
+    else
+        values_[root] = values[0];
+    trigger_event(root);
 }
 
-std::vector<std::pair<uint32_t, uint32_t>> Simulator::get_slice_index(const Var *var) const {
-    if (var->type() != VarType::Slice) {
-        return {};
-    }
+std::optional<uint32_t> Simulator::get_slice_low(const Var *var) const {
+    if (var->type() != VarType::Slice) return 0;
     const auto *slice = reinterpret_cast<const VarSlice *>(var);
-    auto result = get_slice_index(slice->parent_var);
-    uint32_t high, low;
+    const auto *parent = slice->parent_var;
+    auto low = get_slice_low(parent);
+    if (!low) return std::nullopt;
     if (slice->sliced_by_var()) {
         const auto *var_slice = reinterpret_cast<const VarVarSlice *>(slice);
-        auto *v = var_slice->sliced_var();
-        auto index = get_value_(v);
-        // the index variable is empty
-        if (!index) {
-            return {};
-        }
-        high = *index;
-        low = *index;
-    } else {
-        high = slice->high;
-        low = slice->low;
-    }
-    result.emplace_back(std::make_pair(high, low));
-    return result;
+        auto index = get_value_(var_slice->sliced_var());
+        // the index variable is empty, or it is out of bound
+        if (!index || *index >= parent->width() / slice->width()) return std::nullopt;
+        return *low + static_cast<uint32_t>(*index) * slice->width();
+    }
+    // relative to the parent
+    auto const parent_low = parent->type() == VarType::Slice
+                                ? reinterpret_cast<const VarSlice *>(parent)->var_low()
+                                : 0;
+    return *low + slice->var_low() - parent_low;
 }
 
-void Simulator::trigger_event(const kratos::Var *var,
-                              const std::unordered_set<uint32_t> &bits_mask) {
-    if (bits_mask.empty()) return;
-
+void Simulator::trigger_event(const kratos::Var *var) {
     if (dependency_.find(var) != dependency_.end()) {
         auto const &deps = dependency_.at(var);
         for (auto const &stmt : deps) {
-            if (scope_.find(stmt) == scope_.end()) event_queue_.emplace(std::make_pair(var, stmt));
-        }
-    }
-
-    const auto *root = var->get_var_root_parent();
-    if (linked_dependency_.find(root) != linked_dependency_.end()) {
-        auto const &vars = linked_dependency_.at(root);
-        std::unordered_set<Var *> vs;
-        for (const auto &[bit, v] : vars) {
-            if (bits_mask.find(bit) != bits_mask.end()) vs.emplace(v);
-        }
-
-        for (auto const &v : vs) {
-            if (dependency_.find(v) != dependency_.end()) {
-                auto const &deps = dependency_.at(v);
-                for (auto const &stmt : deps) {
-                    if (scope_.find(stmt) == scope_.end())
-                        event_queue_.emplace(std::make_pair(var, stmt));
-                }
-            }
+            if (scope_.find(stmt) != scope_.end()) continue;
+            // it may already be waiting
+            auto event = std::make_pair(var, stmt);
+            if (pending_events_.emplace(event).second) event_queue_.emplace(event);
         }
     }
 
-    // trigger linked events as well
     simulation_depth_++;
 }
 
 void Simulator::eval() {
     simulation_depth_ = 0;
-    while (!event_queue_.empty()) {
+    while (!event_queue_.empty() || !nba_values_.empty()) {
         if (simulation_depth_ > MAX_SIMULATION_DEPTH) {
             throw UserException("Simulation doesn't converge");
         }
-        auto &[var, stmt] = event_queue_.front();
+        if (event_queue_.empty()) {
+            // every block has been evaluated with the old values
+            auto values = std::move(nba_values_);
+            nba_values_.clear();
+            for (auto const &[var, low, value] : values) set_bits(var, low, value);
+            continue;
+        }
+        auto [var, stmt] = event_queue_.front();
         event_queue_.pop();
+        pending_events_.erase({var, stmt});
         process_stmt(stmt, var);
     }
     scope_.clear();
@@ -581,8 +459,8 @@ void Simulator::set_i(const kratos::Var *var, const std::optional<std::vector<in
         std::vector<uint64_t> u_vs;
         u_vs.reserve(vs.size());
         for (auto v : vs) {
-            auto u_v = *(reinterpret_cast<uint64_t *>(v));
-            u_v = truncate(u_v, var->width());
+            auto u_v = static_cast<uint64_t>(v);
+            u_v = truncate(u_v, var->var_width());
             u_vs.emplace_back(u_v);
         }
         set_complex_value_(var, u_vs);
@@ -627,10 +505,14 @@ void Simulator::process_stmt(kratos::AssignStmt *stmt, const Var *) {
     auto *right = stmt->right();
     auto val = eval_expr(right);
     if (val) {
-        if (stmt->assign_type() != AssignmentType::NonBlocking)
-            set_complex_value_(stmt->left(), val);
-        else
-            nba_values_.emplace(stmt->left(), *val);
+        auto const *left = stmt->left();
+        if (stmt->assign_type() != AssignmentType::NonBlocking) {
+            set_complex_value_(left, val);
+        } else {
+            // the target is determined now, but it will be set later
+            auto low = get_slice_low(left);
+            if (low) nba_values_.emplace_back(left, *low, *val);
+        }
     }
 }
 
@@ -676,7 +558,7 @@ void Simulator::process_stmt(kratos::SwitchStmt *switch_, const Var *var) {
             int64_t cond_val = cond->value();
             int64_t *v_p = &cond_val;
             uint64_t bits = *(reinterpret_cast<uint64_t *>(v_p));
-            bits &= (0xFFFFFFFFFFFFFFFF >> target->width());
+            bits = truncate(bits, target->width());
             if (value == bits) {
                 process_stmt(stmt.get(), var);
                 return;
@@ -712,12 +594,6 @@ void Simulator::process_stmt(kratos::SequentialStmtBlock *block, const Var *var_
     }
     if (!trigger) return;
     process_stmt(reinterpret_cast<StmtBlock *>(block), var_);
-
-    for (auto const &[var, value] : nba_values_) {
-        set_complex_value_(var, value);
-    }
-    // clear the nba regions
-    nba_values_.clear();
 }
 
 uint64_t Simulator::static_evaluate_expr(Var *expr) {
@@ -734,36 +610,9 @@ uint64_t Simulator::static_evaluate_expr(Var *expr) {
     return static_cast<uint64_t>(value);
 }
 
-class InitValueVisitor : public IRVisitor {
-public:
-    [[maybe_unused]] explicit InitValueVisitor(std::function<void(AssignStmt *)> fn)
-        : fn_(std::move(fn)) {}
-
-    void visit(Generator *gen) override {
-        uint64_t stmt_count = gen->stmts_count();
-        for (uint64_t i = 0; i < stmt_count; i++) {
-            auto stmt = gen->get_stmt(i);
-            if (stmt->type() == StatementType::Assign) {
-                auto assign = stmt->as<AssignStmt>();
-                if (assign->right()->type() == VarType::ConstValue) {
-                    fn_(assign.get());
-                }
-            }
-        }
-    }
-
-private:
-    std::function<void(AssignStmt *)> fn_;
-};
-
-void Simulator::init_pull_up_value(Generator *generator) {
-    auto fn = [&](AssignStmt *stmt) { this->process_stmt(stmt, nullptr); };
-    InitValueVisitor visitor(fn);
-    visitor.visit_generator_root(generator);
-}
-
 std::optional<std::vector<uint64_t>> Simulator::eval_expr(const kratos::Var *var) const {
     if (var->type() == VarType::Expression) {
+        check_width(var, var->width());
         const auto *expr = reinterpret_cast<const Expr *>(var);
         // there are couple special ones
         if (expr->op == ExprOp::Concat) {
@@ -786,54 +635,45 @@ std::optional<std::vector<uint64_t>> Simulator::eval_expr(const kratos::Var *var
             // depends on whether it's a signed value or not
             const auto *extend = reinterpret_cast<const VarExtend *>(var);
             auto *base_var = extend->parent_var();
-            auto value = get_complex_value_(base_var);
+            auto value = get_value_(base_var);
             if (!value) return std::nullopt;
-            if (var->is_signed()) {
-                // do signed extension
-                if ((*value).size() > 1) {
-                    throw std::runtime_error("Not implemented");
-                }
-                auto v = (*value)[0];
-                if (v >> (var->width() - 1)) {
-                    // do a signed extension
-                    for (uint32_t i = base_var->width(); i < var->width(); i++) {
-                        v |= 1u << i;
-                    }
-                }
-                return std::vector<uint64_t>{v};
-            } else {
-                return value;
-            }
+            return std::vector<uint64_t>{
+                extend_value(*value, base_var->width(), var->width(), base_var->is_signed())};
+        } else if (expr->op == ExprOp::Duplicate) {
+            auto value = get_value_(expr->left);
+            if (!value) return std::nullopt;
+            uint64_t result = 0;
+            for (uint32_t i = 0; i < var->width(); i += expr->left->width()) result |= *value << i;
+            return std::vector<uint64_t>{result};
+        } else if (is_ternary_op(expr->op)) {
+            auto const *cond = reinterpret_cast<const ConditionalExpr *>(expr);
+            auto predicate_val = get_value_(cond->condition);
+            if (!predicate_val) return std::nullopt;
+            auto val = get_value_(*predicate_val ? expr->left : expr->right);
+            if (!val) return std::nullopt;
+            return std::vector<uint64_t>{
+                eval_ternary_op(*predicate_val, *val, *val, expr->width())};
         } else {
-            auto left_val = get_complex_value_(expr->left);
-            if (!left_val) return left_val;
-            auto right_val = get_complex_value_(expr->right);
-            if (is_ternary_op(expr->op)) {
-                auto const *cond = reinterpret_cast<const ConditionalExpr *>(expr);
-                auto predicate_val = get_complex_value_(cond->condition);
-                if (!predicate_val) return right_val;
-                bool c = (*predicate_val)[0];
-                auto result = eval_ternary_op(c, (*left_val)[0], (*right_val)[0], expr->width());
-                return std::vector<uint64_t>{result};
-            } else if (!is_unary_op(expr->op)) {
-                if (!right_val) return std::nullopt;
-                if ((*left_val).size() > 1) throw std::runtime_error("Not implemented");
-                if ((*right_val).size() > 1) throw std::runtime_error("Not implemented");
-                auto left_value = (*left_val)[0];
-                auto right_value = (*right_val)[0];
-                // a comparison is one bit wide, but it is evaluated at its operands' width and sign
-                auto const is_signed = expr->left->is_signed() && expr->right->is_signed();
-                auto const width =
-                    is_relational_op(expr->op) ? expr->left->width() : expr->width();
-                auto result = eval_bin_op(left_value, right_value, expr->op, width, is_signed);
-                return std::vector<uint64_t>{result};
-            } else {
-                auto left_value = (*left_val)[0];
-                auto result = eval_unary_op(left_value, expr->op, expr->width());
+            auto left_val = get_value_(expr->left);
+            if (!left_val) return std::nullopt;
+            if (is_unary_op(expr->op)) {
+                // a reduction is one bit wide, but it looks at every bit of the operand
+                auto result = eval_unary_op(*left_val, expr->op,
+                                            is_reduction_op(expr->op) ? expr->left->width()
+                                                                      : expr->width());
                 return std::vector<uint64_t>{result};
             }
+            auto right_val = get_value_(expr->right);
+            if (!right_val) return std::nullopt;
+            // unknown
+            if ((expr->op == ExprOp::Divide || expr->op == ExprOp::Mod) && !*right_val)
+                return std::nullopt;
+            // a comparison is one bit wide, but it is evaluated at its operands' width and sign
+            auto const is_signed = expr->left->is_signed() && expr->right->is_signed();
+            auto const width = is_relational_op(expr->op) ? expr->left->width() : expr->width();
+            auto result = eval_bin_op(*left_val, *right_val, expr->op, width, is_signed);
+            return std::vector<uint64_t>{result};
         }
-
     } else {
         return get_complex_value_(var);
     }
diff --git a/src/sim.hh b/src/sim.hh
index 848d414..b3d72e5 100644
--- a/src/sim.hh
+++ b/src/sim.hh
@@ -2,6 +2,7 @@
 #define KRATOS_SIM_HH
 #include <optional>
 #include <queue>
+#include <set>
 #include "generator.hh"
 
 namespace kratos {
@@ -33,14 +34,15 @@ private:
     std::unordered_map<const Var *, uint64_t> values_;
     std::unordered_map<const Var *, std::vector<uint64_t>> complex_values_;
     std::queue<std::pair<const Var *, Stmt *>> event_queue_;
+    std::set<std::pair<const Var *, Stmt *>> pending_events_;
     std::unordered_map<const Var *, std::unordered_set<Stmt *>> dependency_;
-    // linked dependency is for partial updates
-    std::unordered_map<const Var *, std::unordered_map<uint32_t, Var *>> linked_dependency_;
     // this is prevent self triggering in always block
     std::unordered_set<Stmt *> scope_;
 
-    std::vector<std::pair<uint32_t, uint32_t>> get_slice_index(const Var *var) const;
-    void trigger_event(const Var *var, const std::unordered_set<uint32_t> &bit_mask);
+    // position of the lowest bit in the root variable; empty if an index is not known
+    std::optional<uint32_t> get_slice_low(const Var *var) const;
+    void set_bits(const Var *var, uint32_t low, std::vector<uint64_t> value);
+    void trigger_event(const Var *var);
 
     void process_stmt(Stmt *stmt, const Var *var);
     void process_stmt(IfStmt *if_, const Var *var);
@@ -51,10 +53,8 @@ private:
     void process_stmt(CombinationalStmtBlock *block, const Var *);
     void process_stmt(SequentialStmtBlock *block, const Var *var);
 
-    std::unordered_map<Var *, std::vector<uint64_t>> nba_values_;
-
-    // pull-up registers
-    void init_pull_up_value(Generator *generator);
+    // in the order of the assignments
+    std::vector<std::tuple<const Var *, uint32_t, std::vector<uint64_t>>> nba_values_;
 
     uint64_t simulation_depth_ = 0;
 };
-- 
2.43.0


From 2aa5ceca2c42d81c99ead80b7be007fb7dea9f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:25 +0000
Subject: [PATCH 042/105] fix: rows of a multi-dimensional array had the width
 of columns

---
 src/expr.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr.cc b/src/expr.cc
index 9f87a5c..4c1074a 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -543,7 +543,7 @@ VarSlice::VarSlice(Var *parent, uint32_t high, uint32_t low)
         } else {
             // readjust the top slice
             size_ = std::vector<uint32_t>(parent->size().begin(), parent->size().end());
-            size_.back() = high - low + 1;
+            size_.front() = high - low + 1;
             var_width_ = parent->var_width();
             is_packed_ = parent->is_packed();
         }
-- 
2.43.0


From 35756f277379c1b11c3c5a495eb00d1ac5d19440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:59 +0000
Subject: [PATCH 043/105] fix: outputs, defaults, names and transitions of
 state machines were generated wrongly

The "otherwise" output of a mealy machine went into the then branch, an
unconditional mealy transition set no outputs, the output table crashed on
default and unchanged outputs, two unconditional transitions crashed, names
of nested states could collide, a state whose outputs are all unchanged fell
into the default arm, the polarity of a reset variable was ignored and the
debug information of all enum values went to one state.
---
 src/fsm.cc | 56 ++++++++++++++++++++++++++++++++++++++----------------
 src/fsm.hh |  3 +++
 2 files changed, 43 insertions(+), 16 deletions(-)

diff --git a/src/fsm.cc b/src/fsm.cc
index c1fc562..4d986e7 100644
--- a/src/fsm.cc
+++ b/src/fsm.cc
@@ -114,6 +114,10 @@ void FSM::realize() {
         } else {
             state_name = state->name();
         }
+        // the combined names can still collide, e.g. a.b_c and a_b.c
+        auto const base_name = state_name;
+        for (uint64_t i = 0; raw_def.find(state_name) != raw_def.end(); i++)
+            state_name = ::format("{0}_{1}", base_name, i);
         raw_def.emplace(state_name, count++);
         state_name_mapping.emplace(state, state_name);
         // check states
@@ -126,15 +130,13 @@ void FSM::realize() {
         for (auto const& state : states) {
             const auto* fsm = state->parent();
             if (visited.find(fsm) != visited.end()) continue;
+            visited.emplace(fsm);
             auto fn_ln = fsm->fn_name_ln_;
             for (auto const& [name, info] : fn_ln) {
                 auto* s = fsm->get_state(name).get();
-                if (state_name_mapping.find(state) == state_name_mapping.end()) {
-                    throw UserException(::format(
-                        "Unable to find state name {0} from FSM {1}. Is it a disconnected state?",
-                        s->name(), fsm_name_));
-                }
-                auto state_name = state_name_mapping.at(state);
+                // a disconnected state of a child has no enum value
+                if (state_name_mapping.find(s) == state_name_mapping.end()) continue;
+                auto state_name = state_name_mapping.at(s);
                 enum_def.add_debug_info(state_name, info);
             }
         }
@@ -158,9 +160,9 @@ void FSM::realize() {
     auto seq = generator_->sequential();
     bool reset_high = true;
     seq->add_condition({EventEdgeType::Posedge, clk_});
-    if (reset_->type() == VarType::PortIO &&
-        ((reset_->as<Port>()->active_high() && !(*reset_->as<Port>()->active_high())) ||
-         !reset_high_)) {
+    if (!reset_high_ ||
+        (reset_->type() == VarType::PortIO && reset_->as<Port>()->active_high() &&
+         !(*reset_->as<Port>()->active_high()))) {
         seq->add_condition({EventEdgeType::Negedge, reset_});
         reset_high = false;
     } else {
@@ -278,6 +280,13 @@ void FSM::generate_state_transition(
                 auto stmt = get_next_state_stmt(enum_def, next_state, state, next_fsm_state,
                                                 state_name_mapping);
                 case_state_comb->add_switch_case(enum_def.get_enum(state_name), stmt);
+                // mealy machine need to add extra state transition outputs
+                if (!moore_) {
+                    std::shared_ptr<FunctionCallStmt> func_stmt = nullptr;
+                    get_func_call_stmt(func_def, next_fsm_state, func_stmt);
+                    case_state_comb->add_switch_case(enum_def.get_enum(state_name), func_stmt);
+                    add_debug_info_to_stmt(func_stmt, state);
+                }
                 break;
             } else if (!cond) {
                 // we have a default case here
@@ -324,7 +333,7 @@ void FSM::generate_state_transition(
             std::shared_ptr<FunctionCallStmt> func_stmt = nullptr;
             if (!moore_) {
                 get_func_call_stmt(func_def, next_fsm_state, func_stmt);
-                if_->add_then_stmt(func_stmt);
+                if_->add_else_stmt(func_stmt);
             }
             add_debug_info_to_stmt(func_stmt, state);
         }
@@ -389,7 +398,14 @@ void FSM::generate_output(Enum& enum_def, EnumVar& current_state,
 
     // need to deal with fully specified case where default is the same as start state
     // also default case
-    if (!is_2_power(enum_def.values.size())) {
+    // a state that leaves every output unchanged has no case item. it must not end up in the default
+    bool has_unchanged_state = std::any_of(states.begin(), states.end(), [](FSMState* state) {
+        auto const& values = state->output_values();
+        return std::all_of(values.begin(), values.end(), [](auto const& iter) {
+            return !iter.second || iter.second == iter.first;
+        });
+    });
+    if (!is_2_power(enum_def.values.size()) && !has_unchanged_state) {
         states.emplace_back(nullptr);
     }
 
@@ -457,7 +473,8 @@ void FSM::output(const std::shared_ptr<Var>& var, const std::shared_ptr<Var>& de
             throw VarException("FSM output has to be scoped inside the top-level of generator",
                                {var.get()});
     }
-    outputs_.emplace(var.get(), default_.get());
+    if (outputs_.emplace(var.get(), default_.get()).second)
+        output_ordering_.emplace_back(var.get());
 }
 
 std::shared_ptr<FSMState> FSM::add_state(const std::string& name) {
@@ -582,8 +599,12 @@ std::string FSM::output_table() {
     for (auto const& [state_name, state] : states_) {
         stream << state_name;
         for (auto const& output : outputs) {
-            auto* value = state->output_values().at(output);
-            stream << "," << value->to_string();
+            auto const& values = state->output_values();
+            // not specified in the state: the default is used, if there is any
+            auto* value = values.find(output) == values.end() ? outputs_.at(output)
+                                                              : values.at(output);
+            // nullptr means the output is not changed
+            stream << "," << (value ? value->to_string() : output->to_string());
         }
         stream << ::endl;
     }
@@ -673,6 +694,8 @@ void FSMState::next(const std::shared_ptr<FSMState>& next_state, const std::shar
     };
 
     if (!cond) {
+        if (find_match(nullptr))
+            throw UserException("Unconditional transition has been assign to " + name_);
         transitions_.emplace_back(std::make_pair(nullptr, state_ptr));
     } else {
         if (find_match(nullptr)) {
@@ -701,7 +724,7 @@ void FSMState::output(const std::shared_ptr<Var>& output_var,
     auto* output = output_var.get();
     auto* value = value_var.get();
     if (output_values_.find(output) != output_values_.end()) {
-        throw VarException(::format("{0} already has specified output"),
+        throw VarException(::format("{0} already has specified output", output->to_string()),
                            {output_values_.at(output)});
     }
     output_ordering_.emplace_back(output);
@@ -727,7 +750,8 @@ void FSMState::output(const std::shared_ptr<Var>& output_var, const std::shared_
 
 void FSMState::check_outputs() {
     auto outputs = parent_->outputs();
-    for (auto const& [output, default_] : outputs) {
+    for (auto* output : parent_->output_ordering()) {
+        auto* default_ = outputs.at(output);
         if (output_values_.find(output) == output_values_.end()) {
             if (!default_) {
                 throw VarException(::format("{0} not specified", output->to_string()), {output});
diff --git a/src/fsm.hh b/src/fsm.hh
index c93aeda..eeb5e75 100644
--- a/src/fsm.hh
+++ b/src/fsm.hh
@@ -30,6 +30,7 @@ public:
 
     const std::string &fsm_name() const { return fsm_name_; }
     const std::unordered_map<Var *, Var *> &outputs() const { return outputs_; }
+    const std::vector<Var *> &output_ordering() const { return output_ordering_; }
     const std::map<std::string, std::shared_ptr<FSMState>> &states() const { return states_; }
 
     void realize();
@@ -62,6 +63,8 @@ private:
     std::string fsm_name_;
     Generator *generator_;
     std::unordered_map<Var *, Var*> outputs_;
+    // the order the outputs are declared in
+    std::vector<Var *> output_ordering_;
     std::shared_ptr<Var> clk_ = nullptr;
     std::shared_ptr<Var> reset_ = nullptr;
     std::map<std::string, std::shared_ptr<FSMState>> states_;
-- 
2.43.0


From 97571365dc3e5fe7df510d438ab2a7f3b9c4365c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:09 +0000
Subject: [PATCH 044/105] fix: signed members of packed structs and packages
 without a guard were not legal SystemVerilog

---
 src/analysis.cc | 2 +-
 src/codegen.cc  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/analysis.cc b/src/analysis.cc
index ca133fe..7669e80 100644
--- a/src/analysis.cc
+++ b/src/analysis.cc
@@ -1146,8 +1146,8 @@ std::map<std::string, std::string> extract_struct_info(Generator* top) {
         for (auto const& def : struct_->attributes) {
             if (!def.struct_) {
                 std::vector<std::string> str = {"    logic"};
-                if (def.width > 1) str.emplace_back(::format("[{0}:0]", def.width - 1));
                 if (def.signed_) str.emplace_back("signed");
+                if (def.width > 1) str.emplace_back(::format("[{0}:0]", def.width - 1));
                 str.emplace_back(def.name);
                 auto entry_str = string::join(str.begin(), str.end(), " ");
                 entry.append(entry_str + ";\n");
diff --git a/src/codegen.cc b/src/codegen.cc
index c4fd39d..e4c23ac 100644
--- a/src/codegen.cc
+++ b/src/codegen.cc
@@ -1304,9 +1304,9 @@ std::pair<std::string, uint32_t> generate_sv_package_header(Generator* top,
                       [](char& c) { c = static_cast<char>(::toupper(c)); });
         stream << "`ifndef " << guard_name << stream.endl();
         stream << "`define " << guard_name << stream.endl();
-        // package header
-        stream << "package " << package_name << ";" << stream.endl();
     }
+    // package header
+    stream << "package " << package_name << ";" << stream.endl();
 
     // all the information list
     auto info_list = {dpi_info, struct_info, enum_info, interface_info};
-- 
2.43.0


From e9ea29a72cd9fe85b17e628fe5b21e042f9a8989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:09 +0000
Subject: [PATCH 045/105] fix: an output of a port bundle that is read inside
 could not be turned into a struct

---
 src/transform.cc | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/transform.cc b/src/transform.cc
index e0b4bc0..aa6cbef 100644
--- a/src/transform.cc
+++ b/src/transform.cc
@@ -843,18 +843,15 @@ void merge_bundle_mapping(
                 auto& slice = packed[attr];
                 if (dir != target->port_direction())
                     throw InternalException("Direction doesn't match");
-                // depends on the direction, the parent can change;
+                // inputs are driven in the parent and outputs are driven inside, either can be used
+                // in both
                 if (dir == PortDirection::In) {
-                    if (p) {
-                        Var::move_src_to(target.get(), &slice, p, false);
-                    }
-                    Var::move_sink_to(target.get(), &slice, generator, false);
+                    if (p) Var::move_src_to(target.get(), &slice, p, false);
                 } else {
                     Var::move_src_to(target.get(), &slice, generator, false);
-                    if (p) {
-                        Var::move_sink_to(target.get(), &slice, p, false);
-                    }
                 }
+                Var::move_sink_to(target.get(), &slice, generator, false);
+                if (p) Var::move_sink_to(target.get(), &slice, p, false);
                 // remove target
                 generator->remove_port(real_name);
             }
-- 
2.43.0


From 156c6546d4a24df9aefc5127e2232fad65a8d58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:09 +0000
Subject: [PATCH 046/105] fix: decoupled ports lost the array size of structs
 and the type of enums

---
 src/transform.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/transform.cc b/src/transform.cc
index aa6cbef..21e68e5 100644
--- a/src/transform.cc
+++ b/src/transform.cc
@@ -349,7 +349,10 @@ private:
             auto new_name = parent->get_unique_variable_name(generator->instance_name, port_name);
             if (port->is_struct()) {
                 auto packed = port->as<PortPackedStruct>();
-                parent->var_packed(new_name, packed->packed_struct());
+                parent->var_packed(new_name, packed->packed_struct(), packed->size());
+            } else if (port->is_enum()) {
+                auto* enum_type = const_cast<Enum*>(port->as<EnumPort>()->enum_type());
+                parent->enum_var(new_name, enum_type->shared_from_this());
             } else {
                 auto& v = parent->var(new_name, port->var_width(), port->size(), port->is_signed());
                 v.set_is_packed(port->is_packed());
@@ -415,7 +418,10 @@ private:
             auto new_name = parent->get_unique_variable_name(generator->instance_name, port_name);
             if (port->is_struct()) {
                 auto packed = port->as<PortPackedStruct>();
-                parent->var_packed(new_name, packed->packed_struct());
+                parent->var_packed(new_name, packed->packed_struct(), packed->size());
+            } else if (port->is_enum()) {
+                auto* enum_type = const_cast<Enum*>(port->as<EnumPort>()->enum_type());
+                parent->enum_var(new_name, enum_type->shared_from_this());
             } else {
                 auto& v = parent->var(new_name, port->var_width(), port->size(), port->is_signed());
                 v.set_is_packed(port->is_packed());
-- 
2.43.0


From ebbdc26a42a974b39522eef91503499e231ec56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:23 +0000
Subject: [PATCH 047/105] fix: casts of one variable to different enums were
 the same object

---
 src/expr.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/expr.cc b/src/expr.cc
index 4c1074a..ead96dd 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1100,7 +1100,9 @@ std::shared_ptr<Var> Var::cast(VarCastType cast_type) {
     } else {
         // optimize memory for speed
         for (auto const &casted : casted_) {
-            if (casted->cast_type() == cast_type && cast_type != VarCastType::Resize) {
+            // the type of an enum, and the width, are set afterwards
+            if (casted->cast_type() == cast_type && cast_type != VarCastType::Resize &&
+                cast_type != VarCastType::Enum) {
                 return casted;
             }
         }
-- 
2.43.0


From bed000353b107b08e3697556a1a1aae66920382e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:23 +0000
Subject: [PATCH 048/105] fix: the bits of members of packed structs were
 counted from the wrong end

The first member of a packed struct is the most significant one. Assignments
mixing members and bits were merged, checked and simulated as if it was the
least significant one.
---
 src/expr.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index ead96dd..32299e6 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1970,8 +1970,9 @@ void PackedSlice::set_up(const kratos::PackedStruct &struct_, const std::string
             high = def.bitwidth() + low_ - 1;
             low = low_;
             is_signed_ = def.signed_;
-            var_high_ = high + parent_var->var_low();
-            var_low_ = low + parent_var->var_low();
+            // the first member is the most significant one
+            var_high_ = struct_.bitwidth() - 1 - low + parent_var->var_low();
+            var_low_ = struct_.bitwidth() - 1 - high + parent_var->var_low();
             var_width_ = var_high_ - var_low_ + 1;
             def_ = &def;
             break;
-- 
2.43.0


From d13ee6d2b9bf077215bc411823563981e4702f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:23 +0000
Subject: [PATCH 049/105] fix: members of struct elements of arrays and of
 nested structs could not be accessed, or were confused with bits

---
 src/expr.cc | 124 ++++++++++++++++++++++++----------------------------
 src/expr.hh |   8 ++--
 2 files changed, 62 insertions(+), 70 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index 32299e6..d9dca8b 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -183,6 +183,32 @@ Expr &Var::duplicate(const std::shared_ptr<Const> &count) const {
     return *expr;
 }
 
+static bool is_member(const Var *var) {
+    auto const *slice = dynamic_cast<const PackedSlice *>(var);
+    return slice && slice->def();
+}
+
+// the struct the variable, or an element of it, consists of
+static const PackedStruct *get_struct(const Var *var) {
+    if (auto const *packed = dynamic_cast<const PackedInterface *>(var))
+        return packed->packed_struct().get();
+    auto const *slice = dynamic_cast<const VarSlice *>(var);
+    if (!slice) return nullptr;
+    if (is_member(slice)) return dynamic_cast<const PackedSlice *>(slice)->def()->struct_;
+    // only elements of arrays are structs, bits are not
+    auto const *parent = slice->parent_var;
+    if (parent->size().size() == 1 && parent->size().front() == 1 && !parent->explicit_array())
+        return nullptr;
+    return get_struct(parent);
+}
+
+// same, only for arrays
+static const PackedStruct *array_struct(const Var *var) {
+    if (var->size().size() == 1 && var->size().front() == 1 && !var->explicit_array())
+        return nullptr;
+    return get_struct(var);
+}
+
 VarSlice &Var::operator[](std::pair<uint32_t, uint32_t> slice) {
     auto const [high, low] = slice;
     if (low > high) {
@@ -203,31 +229,27 @@ VarSlice &Var::operator[](std::pair<uint32_t, uint32_t> slice) {
     }
     // if there is one already
     for (auto const &s : slices_) {
-        if (!s->sliced_by_var()) {
+        if (!s->sliced_by_var() && !is_member(s.get())) {
             if (high == s->high && low == s->low) return *s;
         }
     }
     // create a new one
     // notice that slice is not part of generator's variables. It's handled by the parent (var)
     // itself
-    std::shared_ptr<VarSlice> var_slice = ::make_shared<VarSlice>(this, high, low);
-    if (width_param_) {
-        var_slice->set_width_param(width_param_);
-    }
+    std::shared_ptr<VarSlice> var_slice;
     // depends on the root variable, if it is actually a struct, we need to return to the
     // actual trampoline class as proxy
-    if (get_var_root_parent()->is_struct() && var_slice->width() == var_slice->var_width()) {
+    auto const *packed_struct = array_struct(this);
+    if (packed_struct && high == low && size_.size() == 1) {
         // we actually reached the real struct
-        auto *s = dynamic_cast<PackedInterface *>(get_var_root_parent());
-        auto packed_slice = std::make_shared<PackedSlice>(var_slice.get(), var_slice->width() - 1,
-                                                          0, s->packed_struct().get());
-        slices_.emplace_back(packed_slice);
-        // this is a hack here, but we store the parent into the child
-        packed_slice->slices_.emplace_back(var_slice);
-        var_slice = packed_slice;
+        var_slice = std::make_shared<PackedSlice>(this, high, low, packed_struct);
     } else {
-        slices_.emplace_back(var_slice);
+        var_slice = ::make_shared<VarSlice>(this, high, low);
+    }
+    if (width_param_) {
+        var_slice->set_width_param(width_param_);
     }
+    slices_.emplace_back(var_slice);
 
     return *var_slice;
 }
@@ -625,24 +647,10 @@ void VarSlice::set_width_param(kratos::Var *param) {
 
 PackedSlice &VarSlice::operator[](const std::string &member_name) {
     if (!parent_var) throw InternalException("Invalid var slice");
-    if (!parent_var->is_packed() || width() != var_width())
+    auto const *packed_struct = get_struct(this);
+    if (!packed_struct || width() != var_width() || !packed_struct->has_member(member_name))
         throw UserException(::format("Unable to access {0}.{1}", to_string(), member_name));
-    auto *root = get_var_root_parent();
-    if (!root->is_struct())
-        throw UserException(::format("Invalid member access{0}.{1}", to_string(), member_name));
-    const PackedStructFieldDef *def;
-    if (is_struct()) {
-        auto *packed = dynamic_cast<PackedSlice *>(this);
-        return packed->slice_member(member_name);
-    } else {
-        auto *packed = dynamic_cast<PackedInterface *>(root);
-        if (!packed)
-            throw UserException(::format("Unable to access {0}.{1}", to_string(), member_name));
-        def = packed->get_definition(member_name);
-    }
-
-    if (!def) throw UserException(::format("Unable to access {0}.{1}", to_string(), member_name));
-    auto p = std::make_shared<PackedSlice>(this, def, member_name);
+    auto p = std::make_shared<PackedSlice>(this, packed_struct, member_name);
     slices_.emplace_back(p);
     return *p;
 }
@@ -1880,7 +1888,7 @@ uint32_t PackedStructFieldDef::bitwidth() const {
 
 bool PackedStructFieldDef::same(const PackedStructFieldDef &def) const {
     if (struct_ && def.struct_) {
-        return struct_->same(*def.struct_);
+        return name == def.name && struct_->same(*def.struct_);
     } else if (!struct_ && !def.struct_) {
         return name == def.name && width == def.width && signed_ == def.signed_;
     }
@@ -1928,6 +1936,11 @@ uint32_t PackedStruct::bitwidth() const {
     return result;
 }
 
+bool PackedStruct::has_member(const std::string &name) const {
+    return std::any_of(attributes.begin(), attributes.end(),
+                       [&name](auto const &def) { return def.name == name; });
+}
+
 bool PackedStruct::same(const PackedStruct &def) const {
     if (attributes.size() != def.attributes.size()) return false;
     for (auto i = 0u; i < attributes.size(); i++) {
@@ -1951,13 +1964,9 @@ PackedSlice::PackedSlice(kratos::VarPackedStruct *parent, const std::string &mem
 PackedSlice::PackedSlice(Var *parent, uint32_t high, uint32_t low, const PackedStruct *struct_)
     : VarSlice(parent, high, low), original_struct_(struct_) {}
 
-PackedSlice::PackedSlice(Var *parent, const PackedStructFieldDef *def,
-                         const std::string &member_name)
-    : VarSlice(parent, 0, 0), def_(def) {
-    if (!def->struct_) {
-        throw InternalException("Invalid member access " + def->name);
-    }
-    set_up(*def->struct_, member_name);
+PackedSlice::PackedSlice(Var *parent, const PackedStruct *struct_, const std::string &member_name)
+    : VarSlice(parent, 0, 0) {
+    set_up(*struct_, member_name);
 }
 
 void PackedSlice::set_up(const kratos::PackedStruct &struct_, const std::string &member_name) {
@@ -1988,40 +1997,21 @@ void PackedSlice::set_up(const kratos::PackedStruct &struct_, const std::string
 }
 
 shared_ptr<Var> PackedSlice::slice_var(std::shared_ptr<Var> var) {
-    if (var->type() == VarType::PortIO) {
-        auto v = var->as<PortPackedStruct>();
+    if (!def_) return VarSlice::slice_var(var);
+    if (auto *port = dynamic_cast<PortPackedStruct *>(var.get())) {
+        return port->operator[](def_->name).shared_from_this();
+    } else if (auto *v = dynamic_cast<VarPackedStruct *>(var.get())) {
         return v->operator[](def_->name).shared_from_this();
+    } else if (auto *slice = dynamic_cast<VarSlice *>(var.get())) {
+        return slice->operator[](def_->name).shared_from_this();
     } else {
-        auto v = var->as<VarPackedStruct>();
-        return v->operator[](def_->name).shared_from_this();
+        throw UserException(::format("Unable to access {0}.{1}", var->to_string(), def_->name));
     }
 }
 
-PackedSlice &PackedSlice::slice_member(const std::string &member_name) {
-    const PackedStruct *struct_;
-    if (original_struct_) {
-        struct_ = original_struct_;
-    } else if (is_struct()) {
-        struct_ = def_->struct_;
-    } else {
-        auto *root = get_var_root_parent();
-        if (root->type() == VarType::PortIO) {
-            auto v = root->as<PortPackedStruct>();
-            struct_ = v->packed_struct().get();
-        } else {
-            auto v = root->as<VarPackedStruct>();
-            struct_ = v->packed_struct().get();
-        }
-    }
-    std::shared_ptr<PackedSlice> p = ::make_shared<PackedSlice>(this);
-    p->set_up(*struct_, member_name);
-    slices_.emplace_back(p);
-    return *p;
-}
-
 std::string PackedSlice::to_string() const {
-    if (original_struct_) {
-        return parent_var->to_string();
+    if (!def_) {
+        return VarSlice::to_string();
     } else {
         return ::format("{0}.{1}", parent_var->to_string(), def_->name);
     }
diff --git a/src/expr.hh b/src/expr.hh
index a99bb38..7521ec8 100644
--- a/src/expr.hh
+++ b/src/expr.hh
@@ -560,6 +560,7 @@ public:
 
     [[nodiscard]] uint32_t bitwidth() const;
     [[nodiscard]] bool same(const PackedStruct &def) const;
+    [[nodiscard]] bool has_member(const std::string &name) const;
 };
 
 struct PackedSlice : public VarSlice {
@@ -569,10 +570,11 @@ public:
 
     // this is used for packed struct array
     PackedSlice(Var *parent, uint32_t high, uint32_t low, const PackedStruct *struct_);
-    PackedSlice(Var *parent, const PackedStructFieldDef *def, const std::string &member_name);
-    PackedSlice(Var *parent) : VarSlice(parent, 0, 0) {}
+    PackedSlice(Var *parent, const PackedStruct *struct_, const std::string &member_name);
 
-    PackedSlice &slice_member(const std::string &member_name);
+    PackedSlice &slice_member(const std::string &member_name) {
+        return VarSlice::operator[](member_name);
+    }
 
     std::string to_string() const override;
 
-- 
2.43.0


From 9f16fdc6138eef495df5a3d83ee10b80ea74b81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:53 +0000
Subject: [PATCH 050/105] fix: an expression made of constants belonged to the
 generator that used one of the constants last

---
 src/expr.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index d9dca8b..31dae58 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -835,16 +835,19 @@ uint32_t Expr::width() const {
 void Expr::set_parent() {
     // compute the right parent for the expr
     // it can only go up
+    // constants can be used anywhere, no matter where they have been connected to. that includes
+    // the expressions made of nothing else
+    auto get_generator = [](Var *var) {
+        return var->type() == VarType::ConstValue ? Const::const_gen() : var->generator();
+    };
     if (!right) {
-        generator_ = left->generator();
+        generator_ = get_generator(left);
     } else {
-        auto *left_gen = left->generator();
-        auto *right_gen = right->generator();
-        // constants can be used anywhere, no matter where they have been connected to
-        if (left_gen == Const::const_gen() || left->type() == VarType::ConstValue) {
+        auto *left_gen = get_generator(left);
+        auto *right_gen = get_generator(right);
+        if (left_gen == Const::const_gen()) {
             generator_ = right_gen;
-        } else if (right_gen == Const::const_gen() || !right_gen ||
-                   right->type() == VarType::ConstValue) {
+        } else if (right_gen == Const::const_gen() || !right_gen) {
             generator_ = left_gen;
         } else if (left_gen == right_gen) {
             generator_ = left->generator();
-- 
2.43.0


From a19b0187387b296c4e669054842e5097d87bce9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:53 +0000
Subject: [PATCH 051/105] fix: logic that reads an output was delayed by the
 pipeline stages of that output

---
 src/optimize.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/optimize.cc b/src/optimize.cc
index 8a9b9a2..5cfdc73 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -690,6 +690,8 @@ public:
                 }
                 // move the source to the first stage
                 Var::move_src_to(port.get(), vars[0].get(), generator, false);
+                // the logic inside is not delayed
+                Var::move_sink_to(port.get(), vars[0].get(), generator, false);
                 // connect the stages together
                 for (uint32_t i = 0; i < num_stages - 1; i++) {
                     auto pre_stage = vars[i];
-- 
2.43.0


From 0928cae99bc0b2d00a2f14c2865cc90490f9095d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:53 +0000
Subject: [PATCH 052/105] fix: a reset that is compared to a constant was not
 recognized as a reset

---
 src/optimize.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index 5cfdc73..2c163cb 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -715,7 +715,8 @@ bool static has_port_type(Var* var, PortType type) {
     if (var->type() == VarType::Expression) {
         auto* expr = reinterpret_cast<Expr*>(var);
         auto l = has_port_type(expr->left, type);
-        if (expr->right) {
+        // e.g. reset == 1
+        if (expr->right && expr->right->type() != VarType::ConstValue) {
             auto r = has_port_type(expr->right, type);
             return l && r;
         }
-- 
2.43.0


From 853f364bef78951c916cbd2d58b931f91239335b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:53 +0000
Subject: [PATCH 053/105] fix: crash when a clock enable is inserted below a
 generator that should not be touched

---
 src/optimize.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index 2c163cb..abb5656 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -772,7 +772,7 @@ public:
 
     void visit(Generator* gen) override {
         if (!clk_en_) return;
-        if (has_don_touch(gen)) return;
+        if (left_alone(gen)) return;
         if (gen->external() || gen->is_stub()) return;
         auto* parent = gen->parent_generator();
         if (!parent || gen == top_) return;
@@ -805,7 +805,7 @@ public:
         if (!clk_en_) return;
         if (has_don_touch(block)) return;
         auto* gen = block->generator_parent();
-        if (has_don_touch(gen)) return;
+        if (left_alone(gen)) return;
         auto num_stmts = block->size();
         auto* generator = block->generator_parent();
         auto clk_en = generator->get_port(clk_en_name_);
@@ -868,6 +868,16 @@ private:
         return std::any_of(attrs.begin(), attrs.end(),
                            [](auto const& a) { return a->value_str == dont_touch; });
     }
+
+    // the clock enable comes from the top through every parent, so it can't reach anything that's
+    // instantiated in a generator that should not be touched
+    bool left_alone(const Generator* gen) const {
+        for (; gen; gen = gen->parent_generator()) {
+            if (has_don_touch(gen)) return true;
+            if (gen == top_) break;
+        }
+        return false;
+    }
 };
 
 void auto_insert_clock_enable(Generator* top) {
-- 
2.43.0


From 78c1e85466a5e1c51479103d50692f1a598fd6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:54 +0000
Subject: [PATCH 054/105] fix: a synchronous reset port that is connected
 already was connected once more

---
 src/optimize.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index abb5656..8fa8723 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -955,9 +955,9 @@ public:
                 if (sources.size() > 1) continue;
                 if (sources.size() == 1) {
                     auto* right = (*sources.begin())->right();
-                    if (right->type() == VarType::ConstValue) {
-                        child_port->clear_sources(true);
-                    }
+                    // already connected
+                    if (right->type() != VarType::ConstValue) continue;
+                    child_port->clear_sources(true);
                 }
                 generator->wire(*child_port, *port);
             }
-- 
2.43.0


From 62fd3f24a0e04db8a26c4aa7dc748ef39accdd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:01 +0000
Subject: [PATCH 055/105] fix: bit slices of parametrized variables have the
 width of the variable

---
 src/expr.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index 31dae58..34d66a6 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -209,6 +209,12 @@ static const PackedStruct *array_struct(const Var *var) {
     return get_struct(var);
 }
 
+// whether the first dimension is the one of an array
+static bool is_array_var(const Var *var) {
+    return var->size().size() > 1 || var->size().front() > 1 || var->explicit_array() ||
+           var->get_size_param(0);
+}
+
 VarSlice &Var::operator[](std::pair<uint32_t, uint32_t> slice) {
     auto const [high, low] = slice;
     if (low > high) {
@@ -246,7 +252,8 @@ VarSlice &Var::operator[](std::pair<uint32_t, uint32_t> slice) {
     } else {
         var_slice = ::make_shared<VarSlice>(this, high, low);
     }
-    if (width_param_) {
+    // only elements have the width of the variable
+    if (width_param_ && is_array_var(this)) {
         var_slice->set_width_param(width_param_);
     }
     slices_.emplace_back(var_slice);
@@ -264,7 +271,7 @@ VarSlice &Var::operator[](const std::shared_ptr<Var> &var) {
     }
     auto var_slice = ::make_shared<VarVarSlice>(this, var.get());
     slices_.emplace_back(var_slice);
-    if (width_param_) {
+    if (width_param_ && is_array_var(this)) {
         var_slice->set_width_param(width_param_);
     }
     return *var_slice;
-- 
2.43.0


From b10702c1bf0a1e68c84502b7af1c00ec776254fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:07 +0000
Subject: [PATCH 056/105] fix: variables whose width parameter is removed no
 longer follow it

---
 src/expr.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index 34d66a6..af717cd 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -361,10 +361,10 @@ void Var::set_width_param(Var *param) {
             visitor.visit_root(width_param_);
             auto const &params = visitor.params();
             for (const auto &p : params) {
-                p->add_param_width_var(this);
+                p->remove_param_width_var(this);
             }
         }
-        width_param_= nullptr;
+        width_param_ = nullptr;
         return;
     }
     // set width to the current param value
-- 
2.43.0


From 6e2c5a1bbda550fae9335e49f23ca585227d2e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:07 +0000
Subject: [PATCH 057/105] fix: keep the index of elements whose number or width
 is parametrized

---
 src/expr.cc | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/expr.cc b/src/expr.cc
index af717cd..8162ce0 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -611,10 +611,26 @@ VarSlice::VarSlice(Var *parent, uint32_t high, uint32_t low)
     }
 }
 
+// whether the variable can have more than the one bit it has for now, depending on parameters
+static bool has_param_dim(const Var *var) {
+    uint32_t depth = 0;
+    const auto *root = var;
+    while (root->type() == VarType::Slice) {
+        const auto *slice = reinterpret_cast<const VarSlice *>(root);
+        if (slice->sliced_by_var() || slice->high == slice->low) depth++;
+        root = slice->parent_var;
+    }
+    uint32_t const num_dim = is_array_var(root) ? root->size().size() : 0;
+    for (auto i = depth; i < num_dim; i++) {
+        if (root->get_size_param(i)) return true;
+    }
+    return depth <= num_dim && root->parametrized();
+}
+
 std::string VarSlice::to_string() const {
     auto const &parent_name = parent_var->to_string();
     if (high == low) {
-        if (high == 0 && parent_var->width() == 1) {
+        if (high == 0 && parent_var->width() == 1 && !has_param_dim(parent_var)) {
             return parent_name;
         }
         return ::format("{0}[{1}]", parent_name, high);
-- 
2.43.0


From 376a33292561f4186f9522b7bb7453f4939a979e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:08 +0000
Subject: [PATCH 058/105] fix: set the width of parametrized variables to that
 of the expression

---
 src/expr.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index 8162ce0..5bebffd 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1238,9 +1238,10 @@ void Param::set_value(int64_t new_value) {
     Const::set_value(new_value);
     has_value_ = true;
 
-    // change the width of parametrized variables
-    for (const auto &var : param_vars_width_) {
-        var->var_width() = new_value;
+    // change the width of parametrized variables. the width can be an expression of parameters
+    auto const vars = param_vars_width_;
+    for (const auto &var : vars) {
+        var->set_width_param(var->width_param());
     }
     // change the size as well
     for (const auto &[var, index, expr] : param_vars_size_) {
-- 
2.43.0


From 6a18efea18e6ccdecc993527cd4b62da885cc030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:08 +0000
Subject: [PATCH 059/105] fix: only take the width parameter of what is
 assigned as a whole

---
 src/expr.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index 5bebffd..f7c922d 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1703,8 +1703,8 @@ void Var::move_src_to(Var *var, Var *new_var, Generator *parent, bool keep_conne
             stmt->fn_name_ln.emplace_back(std::make_pair(__FILE__, __LINE__));
         }
         new_var->add_source(stmt);
-        // pick a source parameter, if any. only if the generator match
-        if (stmt->right()->parametrized() && !new_var->parametrized() &&
+        // pick a source parameter, if any. only if the generator match and it is assigned as a whole
+        if (stmt->left() == new_var && stmt->right()->parametrized() && !new_var->parametrized() &&
             stmt->right()->width_param()->generator() == new_var->generator()) {
             new_var->set_width_param(stmt->right()->width_param());
         }
@@ -1734,8 +1734,8 @@ void Var::move_sink_to(Var *var, Var *new_var, Generator *parent, bool keep_conn
             stmt->fn_name_ln.emplace_back(std::make_pair(__FILE__, __LINE__));
         }
         new_var->add_sink(stmt);
-        // pick a source parameter, if any
-        if (stmt->left()->parametrized() && !new_var->parametrized() &&
+        // pick a source parameter, if any. the statement has to use it as a whole
+        if (stmt->right() == new_var && stmt->left()->parametrized() && !new_var->parametrized() &&
             stmt->left()->width_param()->generator() == new_var->generator()) {
             new_var->set_width_param(stmt->left()->width_param());
         }
-- 
2.43.0


From 992b57ecf5313e88cf3f8cf0b603571d5ecfe339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:08 +0000
Subject: [PATCH 060/105] fix: variables of decoupled ports follow the
 parameters of the parent

---
 src/transform.cc | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/transform.cc b/src/transform.cc
index 21e68e5..3901216 100644
--- a/src/transform.cc
+++ b/src/transform.cc
@@ -282,6 +282,27 @@ void create_interface_instantiation(Generator* top) {
     visitor.visit_generator_root_tp(top);
 }
 
+// whether it uses a parameter that gets its value from a parameter of the parent
+bool static uses_parent_param(Var* var, const Generator* parent) {
+    if (!var) return false;
+    if (var->is_param()) {
+        auto const* parent_param = var->as<Param>()->parent_param();
+        return parent_param && parent_param->generator() == parent;
+    }
+    if (var->type() != VarType::Expression) return false;
+    auto* expr = reinterpret_cast<Expr*>(var);
+    return uses_parent_param(expr->left, parent) || uses_parent_param(expr->right, parent);
+}
+
+// the variable a port is connected to follows the parameters of the parent as the port does
+void static copy_port_params(Port* port, Var& var, const Generator* parent) {
+    if (port->raw_type_parametrized()) return;
+    bool follow = uses_parent_param(port->width_param(), parent);
+    for (uint32_t i = 0; i < port->size().size(); i++)
+        follow = follow || uses_parent_param(port->get_size_param(i), parent);
+    if (follow) port->copy_meta_data(&var, false);
+}
+
 class GeneratorPortVisitor : public IRVisitor {
 public:
     void visit(Generator* generator) override {
@@ -357,6 +378,7 @@ private:
                 auto& v = parent->var(new_name, port->var_width(), port->size(), port->is_signed());
                 v.set_is_packed(port->is_packed());
                 v.set_explicit_array(port->explicit_array());
+                copy_port_params(port, v, parent);
             }
             Var* var = parent->get_var(new_name).get();
             // be careful about the port type. if it's special type, it needs properly casted
@@ -426,6 +448,7 @@ private:
                 auto& v = parent->var(new_name, port->var_width(), port->size(), port->is_signed());
                 v.set_is_packed(port->is_packed());
                 v.set_explicit_array(port->explicit_array());
+                copy_port_params(port, v, parent);
             }
             auto var = parent->get_var(new_name);
             if (parent->debug) {
-- 
2.43.0


From bb95fe7b8fc39dd3768eff281327b8b8e5d684bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:32 +0000
Subject: [PATCH 061/105] fix: types, signs and the widths of all ports of
 imported Verilog modules

---
 src/util.cc | 226 ++++++++++++++++++++++++++++++++--------------------
 1 file changed, 141 insertions(+), 85 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index 46b33e7..bf54129 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -1,11 +1,12 @@
 #include "util.hh"
 
+#include <algorithm>
+#include <cctype>
 #include <cstdlib>
 #ifdef INCLUDE_FILESYSTEM
 #include <filesystem>
 #endif
 #include <fstream>
-#include <regex>
 #include <thread>
 
 #include "except.hh"
@@ -14,6 +15,7 @@
 #include "generator.hh"
 #include "port.hh"
 #include "stmt.hh"
+#include "syntax.hh"
 
 using fmt::format;
 
@@ -267,79 +269,143 @@ void remove_stmt_from_parent(const std::shared_ptr<Stmt> &stmt) {
     }
 }
 
-std::map<std::string, std::shared_ptr<Port>> get_port_from_mod_def(Generator *generator,
-                                                                   const std::string &mod_def) {
+// identifiers, numbers and punctuation of the source, without comments, strings, directives and
+// attributes
+static std::vector<std::string> get_verilog_tokens(const std::string &src) {
+    std::vector<std::string> result;
+    auto is_id = [](char c) { return std::isalnum(static_cast<unsigned char>(c)) || c == '_' || c == '$'; };
+    auto const size = src.size();
+    auto skip_to = [&](size_t pos, const char *end) {
+        auto const p = src.find(end, pos);
+        return p == std::string::npos ? size : p + std::char_traits<char>::length(end);
+    };
+    size_t i = 0;
+    while (i < size) {
+        if (src.compare(i, 2, "//") == 0 || src[i] == '`') {
+            i = std::min(src.find('\n', i), size);
+        } else if (src.compare(i, 2, "/*") == 0) {
+            i = skip_to(i + 2, "*/");
+        } else if (src.compare(i, 2, "(*") == 0 && src.compare(i, 3, "(*)") != 0) {
+            i = skip_to(i + 2, "*)");
+        } else if (src[i] == '"') {
+            for (i++; i < size && src[i] != '"'; i++) {
+                if (src[i] == '\\') i++;
+            }
+            i++;
+        } else if (std::isspace(static_cast<unsigned char>(src[i]))) {
+            i++;
+        } else if (is_id(src[i])) {
+            auto const start = i;
+            while (i < size && is_id(src[i])) i++;
+            result.emplace_back(src.substr(start, i - start));
+        } else {
+            result.emplace_back(1, src[i++]);
+        }
+    }
+    return result;
+}
+
+static std::map<std::string, std::shared_ptr<Port>> get_port_from_mod_def(
+    Generator *generator, const std::vector<std::string> &tokens) {
     std::map<std::string, std::shared_ptr<Port>> result;
-    std::unordered_set<std::string> ignore_list = {"logic", "reg", "wire"};
-    std::regex re("(input|output)(\\s|\\[)\\s?([\\w,\\s_$\\[\\]:])+", std::regex::ECMAScript);  // NOLINT
-    std::smatch match;
-    std::string::const_iterator iter = mod_def.cbegin();
-    while (std::regex_search(iter, mod_def.end(), match, re)) {
-        if (match.size() > 1) {
-            std::string port_declaration = std::string(match[0].first, match[0].second);
-            std::vector<std::string> const tokens = string::get_tokens(port_declaration, ", ");
-            // the first one has to be either input or output
-            if (tokens.size() < 2)
-                throw std::runtime_error(::format("unable to parse {}", port_declaration));
-            std::string input_type = tokens[0];
-            PortDirection direction;
-            if (input_type == "input")
-                direction = PortDirection::In;
-            else if (input_type == "output")
-                direction = PortDirection::Out;
-            else
+    static const std::unordered_map<std::string, PortDirection> directions = {
+        {"input", PortDirection::In},
+        {"output", PortDirection::Out},
+        {"inout", PortDirection::InOut}};
+    static const std::unordered_set<std::string> types = {"logic", "reg", "wire", "tri", "var",
+                                                          "bit"};
+    auto is_direction = [](const std::string &token) {
+        return directions.find(token) != directions.end();
+    };
+    auto unable_to_parse = [&](size_t i) {
+        return std::runtime_error(::format("unable to parse ports of {0} at {1}", tokens[1],
+                                           i < tokens.size() ? tokens[i] : "the end"));
+    };
+    // index after the closing bracket
+    auto skip_brackets = [&](size_t i) {
+        uint32_t depth = 0;
+        do {
+            if (i >= tokens.size()) throw unable_to_parse(i);
+            if (tokens[i] == "(") depth++;
+            if (tokens[i] == ")") depth--;
+            i++;
+        } while (depth > 0);
+        return i;
+    };
+    auto get_number = [&](size_t i) -> uint32_t {
+        if (i >= tokens.size() || tokens[i].size() > 9) throw unable_to_parse(i);
+        for (auto const c : tokens[i]) {
+            if (!std::isdigit(static_cast<unsigned char>(c))) throw unable_to_parse(i);
+        }
+        return std::stoi(tokens[i]);
+    };
+    // a direction and the ports that follow it. returns the index of what comes next
+    auto parse_ports = [&](size_t i, size_t end) {
+        auto const direction = directions.at(tokens[i++]);
+        bool is_signed = false;
+        uint32_t width = 1;
+        while (i < end && types.find(tokens[i]) != types.end()) i++;
+        if (i < end && (tokens[i] == "signed" || tokens[i] == "unsigned")) {
+            is_signed = tokens[i++] == "signed";
+        }
+        if (i < end && tokens[i] == "[") {
+            auto const high = get_number(i + 1);
+            if (tokens[i + 2] != ":") throw unable_to_parse(i + 2);
+            auto const low = get_number(i + 3);
+            if (high < low) {
                 throw std::runtime_error(
-                    ::format("{} has to be either input or output", input_type));
-            // determine the reset
-            uint32_t i = 1;
-            uint32_t high = 0;
-            uint32_t low = 0;
-            while (i < tokens.size()) {
-                auto token = tokens[i];
-                if (token.empty()) {
-                    i++;
-                    continue;
-                }
-                if (token[0] == '[' && token[token.size() - 1] != ']') {
-                    token.append(tokens[++i]);
-                }
-                if (token[0] == '[' && token[token.size() - 1] == ']') {
-                    // determine the size
-                    std::vector<std::string> size_tokens = string::get_tokens(token, "[:] ");
-                    if (size_tokens.size() != 2)
-                        throw std::runtime_error(::format("unable to parse {}", token));
-                    high = std::stoi(size_tokens[0]);
-                    low = std::stoi(size_tokens[1]);
-                    if (high < low)
-                        throw std::runtime_error(
-                            ::format("only [hi:lo] is supported, got [{}:{}]", high, low));
-                } else {
-                    if (token[0] == '[')
-                        throw std::runtime_error(::format("unable to parse {}", port_declaration));
-                    if (token == "input") {
-                        direction = PortDirection::In;
-                        i++;
-                        continue;
-                    } else if (token == "output") {
-                        direction = PortDirection::Out;
-                        i++;
-                        continue;
-                    } else if (token == "inout") {
-                        direction = PortDirection ::InOut;
-                        i++;
-                        continue;
-                    }
-                    const auto &port_name = token;
-                    uint32_t width = high - low + 1;
-                    auto p = std::make_shared<Port>(generator, direction, port_name, width, 1,
-                                                    PortType::Data, false);
-                    result.emplace(port_name, p);
-                }
-
+                    ::format("only [hi:lo] is supported, got [{0}:{1}]", high, low));
+            }
+            width = high - low + 1;
+            i += 4;
+            if (i >= end || tokens[i] != "]") throw unable_to_parse(i);
+            i++;
+        }
+        while (i < end && !is_direction(tokens[i])) {
+            auto const &port_name = tokens[i];
+            if (!is_valid_variable_name(port_name) ||
+                (!std::isalpha(static_cast<unsigned char>(port_name[0])) && port_name[0] != '_')) {
+                throw unable_to_parse(i);
+            }
+            result.emplace(port_name,
+                           std::make_shared<Port>(generator, direction, port_name, width, 1,
+                                                  PortType::Data, is_signed));
+            i++;
+            if (i < end) {
+                if (tokens[i] != ",") throw unable_to_parse(i);
                 i++;
             }
         }
-        iter = match[0].second;
+        return i;
+    };
+
+    // tokens starts with module and its name
+    size_t i = 2;
+    if (i < tokens.size() && tokens[i] == "#") i = skip_brackets(i + 1);
+    if (i < tokens.size() && tokens[i] == "(") {
+        auto const end = skip_brackets(i) - 1;
+        i++;
+        // if there are directions, everything is in the list
+        auto const begin_it = tokens.begin() + static_cast<int64_t>(i);
+        auto const end_it = tokens.begin() + static_cast<int64_t>(end);
+        if (i < end && std::any_of(begin_it, end_it, is_direction)) {
+            if (!is_direction(tokens[i])) throw unable_to_parse(i);
+            while (i < end) i = parse_ports(i, end);
+            return result;
+        }
+        i = end + 1;
+    }
+    // declarations in the body, if it's a list of names
+    while (i < tokens.size()) {
+        if (tokens[i] == "function" || tokens[i] == "task") {
+            auto const end = "end" + tokens[i];
+            while (i < tokens.size() && tokens[i] != end) i++;
+        } else if (is_direction(tokens[i])) {
+            auto const end = std::find(tokens.begin() + static_cast<int64_t>(i), tokens.end(), ";");
+            i = parse_ports(i, end - tokens.begin());
+        } else {
+            i++;
+        }
     }
     return result;
 }
@@ -368,23 +434,13 @@ std::vector<std::vector<uint32_t>> get_flatten_slices(const Var *var) {
 std::map<std::string, std::shared_ptr<Port>> get_port_from_verilog(Generator *generator,
                                                                    const std::string &src,
                                                                    const std::string &top_name) {
-    std::regex re("module\\s+([\\w_$]+)[\\w\\W]*?endmodule", std::regex::ECMAScript);  // NOLINT
-    std::smatch match;
-    std::string::const_iterator iter = src.cbegin();
-    std::string module_def;
-    while (std::regex_search(iter, src.end(), match, re)) {
-        if (match.size() > 1) {
-            std::string module_name = std::string(match[1].first, match[1].second);
-            if (module_name == top_name) {
-                module_def = std::string(match[0].first, match[0].second);
-                break;
-            }
-        }
-        iter = match[0].second;
+    auto const tokens = get_verilog_tokens(src);
+    auto const end = tokens.end();
+    for (auto it = tokens.begin(); it != end; it++) {
+        if (*it != "module" || it + 1 == end || *(it + 1) != top_name) continue;
+        return get_port_from_mod_def(generator, {it, std::find(it, end, "endmodule")});
     }
-    if (module_def.empty())
-        throw std::runtime_error(::format("Unable to find {} definition", top_name));
-    return get_port_from_mod_def(generator, module_def);
+    throw std::runtime_error(::format("Unable to find {} definition", top_name));
 }
 
 std::vector<std::string> line_wrap(const std::string &text, uint32_t line_width) {
-- 
2.43.0


From d3b5008f5ac851671e0f0fb96756b7bdb220113f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:49 +0000
Subject: [PATCH 062/105] fix: widths and directions of ports of modport
 references

---
 src/interface.cc | 2 +-
 src/port.cc      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interface.cc b/src/interface.cc
index e7bbb6e..d43d901 100644
--- a/src/interface.cc
+++ b/src/interface.cc
@@ -187,7 +187,7 @@ std::shared_ptr<InterfaceRef> InterfaceRef::get_modport_ref(const std::string& n
     // since it's modport, it can only be ports
     auto ports = modport_def->ports();
     for (auto const& port_name : ports) {
-        bool is_input = modport_def->inputs().find(name) != modport_def->inputs().end();
+        bool is_input = modport_def->inputs().find(port_name) != modport_def->inputs().end();
         if (has_var(port_name)) {
             // it's a variable
             auto port = std::make_shared<ModportPort>(
diff --git a/src/port.cc b/src/port.cc
index 125da03..169c12d 100644
--- a/src/port.cc
+++ b/src/port.cc
@@ -287,7 +287,7 @@ std::string InterfacePort::to_string() const {
 std::string InterfacePort::base_name() const { return interface_->base_name(); }
 
 ModportPort::ModportPort(InterfaceRef* ref, kratos::Var* var, kratos::PortDirection dir)
-    : InterfacePort(ref, var->generator(), dir, var->name, var->width(), var->size(),
+    : InterfacePort(ref, var->generator(), dir, var->name, var->var_width(), var->size(),
                     PortType::Data, var->is_signed()),
       var_(var) {
     explicit_array_ = var->explicit_array();
-- 
2.43.0


From fb6a1c1c042b41a3ed590967a2cbcc25ec2fad01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:49 +0000
Subject: [PATCH 063/105] fix: connections of interfaces instantiated below the
 top, and those that are expressions

---
 src/codegen.cc   |  2 +-
 src/transform.cc | 57 +++++++++++++++++++-----------------------------
 2 files changed, 24 insertions(+), 35 deletions(-)

diff --git a/src/codegen.cc b/src/codegen.cc
index e4c23ac..66edca8 100644
--- a/src/codegen.cc
+++ b/src/codegen.cc
@@ -1118,7 +1118,7 @@ void SystemVerilogCodeGen::generate_port_interface(kratos::InstantiationStmt* st
         std::string external_name;
         if (stmt->instantiation_type() == InstantiationStmt::InstantiationType::Interface) {
             internal_name = internal->name;
-            external_name = external->name;
+            external_name = external->to_string();
         } else {
             // module
             if (!internal->is_interface()) {
diff --git a/src/transform.cc b/src/transform.cc
index 3901216..0a8a7a4 100644
--- a/src/transform.cc
+++ b/src/transform.cc
@@ -306,39 +306,40 @@ void static copy_port_params(Port* port, Var& var, const Generator* parent) {
 class GeneratorPortVisitor : public IRVisitor {
 public:
     void visit(Generator* generator) override {
-        if (!generator->parent()) {
-            // this is top level module, no need to worry about it
-            return;
-        }
-        auto const& port_names = generator->get_port_names();
+        // if this is top level module, no need to worry about its ports
+        auto* parent = generator->parent_generator();
+        if (parent) {
+            auto const& port_names = generator->get_port_names();
 
-        for (auto const& port_name : port_names) {
-            auto port = generator->get_port(port_name);
-            process_port(generator, port.get(), port_name);
+            for (auto const& port_name : port_names) {
+                auto port = generator->get_port(port_name);
+                process_port(parent, generator->instance_name, port.get(), port_name);
+            }
         }
-        // for internal interface ports
+        // for ports of the interfaces it instantiates
         const auto& interfaces = generator->interfaces();
-        for (auto const& iter : interfaces) {
-            auto const& interface = iter.second;
+        for (auto const& [interface_name, interface] : interfaces) {
+            if (interface->is_port()) continue;
             auto const& ports = interface->ports();
             for (auto const& [port_name, port] : ports) {
-                process_port(generator, port, port_name);
+                process_port(generator, interface_name, port, port_name);
             }
         }
     }
 
 private:
-    static inline bool correct_src_type(Var* src, Generator* generator) {
+    static inline bool correct_src_type(Var* src, Generator* parent) {
         if (src->type() == VarType::BaseCasted) {
             auto casted = src->as<VarCasted>();
             src = casted->parent_var();
         }
         return src->type() == VarType::Base || src->type() == VarType::ConstValue ||
                src->type() == VarType::Parameter ||
-               (src->type() == VarType::PortIO && src->parent() == generator->parent());
+               (src->type() == VarType::PortIO && src->generator() == parent);
     }
 
-    static void process_port(Generator* generator, Port* port, const std::string& port_name) {
+    static void process_port(Generator* parent, const std::string& instance_name, Port* port,
+                             const std::string& port_name) {
         auto const port_direction = port->port_direction();
         if (port_direction == PortDirection::In) {
             const auto& sources = port->sources();
@@ -350,10 +351,10 @@ private:
                     stmt->left() == port) {
                     // the sink has to be it self
                     auto* src = stmt->right();
-                    if (correct_src_type(src, generator) ||
+                    if (correct_src_type(src, parent) ||
                         // here we are okay with input sliced in
                         (src->type() == VarType::Slice &&
-                         src->generator() == generator->parent())) {
+                         src->generator() == parent)) {
                         // remove it from the parent generator
                         src->generator()->remove_stmt(stmt);
                         return;
@@ -361,13 +362,7 @@ private:
                 }
             }
             // create a new variable
-            auto* ast_parent = generator->parent();
-            if (!ast_parent)
-                throw GeneratorException(
-                    ::format("{0}'s parent is empty but it's not a top module", generator->name),
-                    {generator});
-            auto* parent = reinterpret_cast<Generator*>(ast_parent);
-            auto new_name = parent->get_unique_variable_name(generator->instance_name, port_name);
+            auto new_name = parent->get_unique_variable_name(instance_name, port_name);
             if (port->is_struct()) {
                 auto packed = port->as<PortPackedStruct>();
                 parent->var_packed(new_name, packed->packed_struct(), packed->size());
@@ -405,7 +400,7 @@ private:
             // we are only interested in parent level port connection
             std::unordered_set<std::shared_ptr<AssignStmt>> sinks;
             for (auto const& stmt : sinks_) {
-                if (stmt->generator_parent() == port->generator()->parent_generator())
+                if (stmt->generator_parent() == parent)
                     sinks.emplace(stmt);
             }
             if (sinks.empty()) {
@@ -418,12 +413,12 @@ private:
                 bool correct_src_type_;
                 if (!src->is_interface()) {
                     // as long as it is not an expression, it is fine
-                    correct_src_type_ = correct_src_type(src, generator);
+                    correct_src_type_ = correct_src_type(src, parent);
                 } else {
                     correct_src_type_ = true;
                 }
                 if (stmt->parent()->ir_node_kind() == IRNodeKind::GeneratorKind &&
-                    correct_src_type_ && src->generator() == generator->parent() &&
+                    correct_src_type_ && src->generator() == parent &&
                     stmt->right() == port) {
                     // remove it from the parent generator
                     stmt->remove_from_parent();
@@ -431,13 +426,7 @@ private:
                 }
             }
             // create a new variable
-            auto* ast_parent = generator->parent();
-            if (!ast_parent)
-                throw GeneratorException(
-                    ::format("{0}'s parent is empty but it's not a top module", generator->name),
-                    {generator});
-            auto* parent = reinterpret_cast<Generator*>(ast_parent);
-            auto new_name = parent->get_unique_variable_name(generator->instance_name, port_name);
+            auto new_name = parent->get_unique_variable_name(instance_name, port_name);
             if (port->is_struct()) {
                 auto packed = port->as<PortPackedStruct>();
                 parent->var_packed(new_name, packed->packed_struct(), packed->size());
-- 
2.43.0


From daa4487b8d69da89d47f62df379dbaa0ca8da0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:53 +0000
Subject: [PATCH 064/105] fix: enable condition of the default branch of a
 switch

---
 src/analysis.cc | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/analysis.cc b/src/analysis.cc
index 7669e80..d55272a 100644
--- a/src/analysis.cc
+++ b/src/analysis.cc
@@ -985,8 +985,7 @@ private:
                 throw StmtException("Incorrect statement block stage", {stmt});
             }
             if (!expr) {
-                // it's the default one. we nor them together
-                std::shared_ptr<Var> or_;
+                // it's the default one. none of the conditions matches
                 std::vector<std::shared_ptr<Const>> conditions;
                 conditions.reserve(body.size());
                 for (auto const& [cond, stmt_blk] : body) {
@@ -999,18 +998,17 @@ private:
                     [](const std::shared_ptr<Const>& left, const std::shared_ptr<Const>& right) {
                         return left->value() < right->value();
                     });
-                or_ = conditions[0];
-                if (conditions.size() > 1) {
-                    for (uint64_t i = 1; i < conditions.size(); i++) {
-                        or_ = or_->operator||(*conditions[i]).shared_from_this();
-                    }
+                for (auto const& cond : conditions) {
+                    auto ne = switch_->target()->operator!=(*cond).shared_from_this();
+                    expr = expr ? expr->operator&&(*ne).shared_from_this() : ne;
                 }
-                expr = (switch_->target()->operator!=(*or_)).shared_from_this();
             }
         } else {
             return get_cond(parent_stmt);
         }
         auto rest_expr = get_cond(parent_stmt);
+        // the default branch may be the only one
+        if (!expr) return rest_expr;
         if (rest_expr) {
             return expr->operator&&(*rest_expr).shared_from_this();
         } else {
-- 
2.43.0


From ec044759d31b81fd1f01dbacd9d3ba4ebe489877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:28 +0000
Subject: [PATCH 065/105] fix: debug line of an always_ff block is the line of
 its header

---
 src/codegen.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/codegen.cc b/src/codegen.cc
index 66edca8..c394377 100644
--- a/src/codegen.cc
+++ b/src/codegen.cc
@@ -537,9 +537,6 @@ void SystemVerilogCodeGen::stmt_code(SequentialStmtBlock* stmt) {
         stream_ << indent() << "// " << strip_newline(stmt->comment) << stream_.endl();
     }
     // produce the sensitive list
-    if (generator_->debug) {
-        stmt->verilog_ln = stream_.line_no();
-    }
     std::vector<std::string> sensitive_list;
     for (const auto& event_control : stmt->get_event_controls()) {
         auto func = [this](const Var* var) { return stream_.var_str(var); };
@@ -547,7 +544,11 @@ void SystemVerilogCodeGen::stmt_code(SequentialStmtBlock* stmt) {
     }
     std::string sensitive_list_str =
         string::join(sensitive_list.begin(), sensitive_list.end(), ", ");
-    stream_ << stream_.endl() << "always_ff @(" << sensitive_list_str << ") begin"
+    stream_ << stream_.endl();
+    if (generator_->debug) {
+        stmt->verilog_ln = stream_.line_no();
+    }
+    stream_ << "always_ff @(" << sensitive_list_str << ") begin"
             << block_label(stmt) << stream_.endl();
     indent_++;
 
-- 
2.43.0


From 77d101f04d73b436d4957d52f12685e7651277ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:28 +0000
Subject: [PATCH 066/105] fix: count the line of a function header without
 ports

---
 src/codegen.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen.cc b/src/codegen.cc
index c394377..c766bc6 100644
--- a/src/codegen.cc
+++ b/src/codegen.cc
@@ -665,7 +665,7 @@ void SystemVerilogCodeGen::stmt_code(kratos::FunctionStmtBlock* stmt) {
 
     stream_ << stmt->function_name();
     if (stmt->ports().empty()) {
-        stream_ << ";" << std::endl;
+        stream_ << ";" << stream_.endl();
     } else {
         stream_ << "(" << stream_.endl();
     }
-- 
2.43.0


From d1bde6e5d8fadfc4f9c68f2c0611a2607fa6bbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:28 +0000
Subject: [PATCH 067/105] fix: record the debug line of a switch statement

---
 src/codegen.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/codegen.cc b/src/codegen.cc
index c766bc6..2160caf 100644
--- a/src/codegen.cc
+++ b/src/codegen.cc
@@ -889,6 +889,7 @@ void SystemVerilogCodeGen::stmt_code(kratos::InterfaceInstantiationStmt* stmt) {
 }
 
 void SystemVerilogCodeGen::stmt_code(SwitchStmt* stmt) {
+    if (generator_->debug) stmt->verilog_ln = stream_.line_no();
     stream_ << indent() << (options_.unique_case ? "unique" : "") << " case ("
             << stream_.var_str(stmt->target()) << ")" << stream_.endl();
     indent_++;
-- 
2.43.0


From 255f661c1bd668e9f7981b8b2161d67774aa58a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:28 +0000
Subject: [PATCH 068/105] fix: symbol table of a generator with functions,
 loops, initial or final blocks

---
 src/debug.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/debug.cc b/src/debug.cc
index 1f1b5e8..d0d6e6f 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -352,6 +352,10 @@ public:
     void visit(CombinationalStmtBlock *stmt) override { handle_stmt(stmt); }
     void visit(SequentialStmtBlock *stmt) override { handle_stmt(stmt); }
     void visit(LatchStmtBlock *stmt) override { handle_stmt(stmt); }
+    void visit(InitialStmtBlock *stmt) override { handle_stmt(stmt); }
+    void visit(FinalStmtBlock *stmt) override { handle_stmt(stmt); }
+    void visit(FunctionStmtBlock *stmt) override { handle_stmt(stmt); }
+    void visit(ForStmt *stmt) override { handle_stmt(stmt); }
 
 private:
     void handle_stmt(Stmt *stmt) {
-- 
2.43.0


From 91e323abdfe6f5bdd226eebb34e1cf5a5c30012e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:28 +0000
Subject: [PATCH 069/105] fix: debug lines of loops and of latch, initial and
 final blocks

---
 src/debug.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/debug.cc b/src/debug.cc
index d0d6e6f..9ca464a 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -732,6 +732,14 @@ public:
 
     void inline visit(CombinationalStmtBlock *stmt) override { add_info(stmt); }
 
+    void inline visit(LatchStmtBlock *stmt) override { add_info(stmt); }
+
+    void inline visit(InitialStmtBlock *stmt) override { add_info(stmt); }
+
+    void inline visit(FinalStmtBlock *stmt) override { add_info(stmt); }
+
+    void inline visit(ForStmt *stmt) override { add_info(stmt); }
+
     void inline visit(ModuleInstantiationStmt *stmt) override { add_info(stmt); }
 
     void inline visit(IfStmt *stmt) override { add_info(stmt); }
-- 
2.43.0


From 6c9bab8db174b0c84dc5d1f27b9c3b42b235f643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:28 +0000
Subject: [PATCH 070/105] fix: debug line of a module that comes after a
 package import

---
 src/debug.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/debug.cc b/src/debug.cc
index 9ca464a..9eff345 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -775,7 +775,9 @@ public:
         if (result_.find(generator->name) != result_.end()) return;
         if (!generator->fn_name_ln.empty()) {
             DebugInfoVisitor visitor;
-            visitor.result().emplace(1, generator->fn_name_ln);
+            // the module may come after the package import
+            auto ln = generator->verilog_ln == 0 ? 1 : generator->verilog_ln;
+            visitor.result().emplace(ln, generator->fn_name_ln);
             visitor.visit_content(generator);
             result_.emplace(generator->name, visitor.result());
         }
-- 
2.43.0


From bf7a6f9e368d9e7f6b1f1f95255c37498ee6c8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:36 +0000
Subject: [PATCH 071/105] fix: hierarchical names of expressions within a scope

---
 src/expr.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr.cc b/src/expr.cc
index f7c922d..7d997a9 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1563,7 +1563,7 @@ std::string Expr::handle_name(bool ignore_top) const {
 }
 
 std::string Expr::handle_name(kratos::Generator *scope) const {
-    return expr_to_string(this, true, false, scope);
+    return expr_to_string(this, true, false, false, scope);
 }
 
 IRNode *Expr::get_child(uint64_t index) {
-- 
2.43.0


From 10b5d45282fd46552728024037d3c1cbfaaa51ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:36 +0000
Subject: [PATCH 072/105] fix: signed constants in expressions are signed
 literals

---
 src/expr.cc | 45 +++++++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index 7d997a9..d528650 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1091,6 +1091,16 @@ std::shared_ptr<AssignStmt> VarCasted::assign_(const std::shared_ptr<Var> &var,
     return parent_var_->assign(var, type);
 }
 
+// a constant by itself takes the sign of where it is used. as an operand its sign matters, since an
+// unsigned literal makes the whole expression unsigned
+std::string static operand_to_string(const Var *var, std::string str) {
+    if (var->type() == VarType::ConstValue && var->is_signed()) {
+        auto pos = str.find("'h");
+        if (pos != std::string::npos) str.insert(pos + 1, "s");
+    }
+    return str;
+}
+
 std::string VarCasted::to_string() const {
     if (cast_type_ == VarCastType::Signed) {
         return ::format("signed'({0})", parent_var_->to_string());
@@ -1106,7 +1116,8 @@ std::string VarCasted::to_string() const {
         auto const &enum_name = enum_type_->name;
         return ::format("{0}'({1})", enum_name, parent_var_->to_string());
     } else if (cast_type_ == VarCastType::Resize) {
-        return ::format("{0}'({1})", target_width_, parent_var_->to_string());
+        return ::format("{0}'({1})", target_width_,
+                        operand_to_string(parent_var_, parent_var_->to_string()));
     } else {
         return parent_var_->to_string();
     }
@@ -1415,15 +1426,16 @@ void VarExtend::replace_var(const std::shared_ptr<Var> &target, const std::share
 }
 
 std::string VarExtend::to_string() const {
-    return ::format("{0}'({1})", width(), parent_->to_string());
+    return ::format("{0}'({1})", width(), operand_to_string(parent_, parent_->to_string()));
 }
 
 std::string VarExtend::handle_name(bool ignore_top) const {
-    return ::format("{0}'({1})", width(), parent_->handle_name(ignore_top));
+    return ::format("{0}'({1})", width(),
+                    operand_to_string(parent_, parent_->handle_name(ignore_top)));
 }
 
 std::string VarExtend::handle_name(kratos::Generator *scope) const {
-    return ::format("{0}'({1})", width(), parent_->handle_name(scope));
+    return ::format("{0}'({1})", width(), operand_to_string(parent_, parent_->handle_name(scope)));
 }
 
 VarDuplicated::VarDuplicated(Var *var, uint32_t count) : Expr(ExprOp::Duplicate, var, nullptr) {
@@ -1531,9 +1543,9 @@ std::string inline expr_to_string(const Expr *expr, bool is_top, bool use_handle
                         ? expr_to_string(left->as<Expr>().get(),
                                          same_op_no_paren(expr, left->as<Expr>().get(), false),
                                          use_handle, ignore_top, scope)
-                        : (use_handle ? left->handle_name(ignore_top)
-                           : scope    ? left->handle_name(scope)
-                                      : left->to_string());
+                        : operand_to_string(left, use_handle ? left->handle_name(ignore_top)
+                                                  : scope    ? left->handle_name(scope)
+                                                             : left->to_string());
 
     if (right != nullptr) {
         auto right_str =
@@ -1541,14 +1553,16 @@ std::string inline expr_to_string(const Expr *expr, bool is_top, bool use_handle
                 ? expr_to_string(right->as<Expr>().get(),
                                  same_op_no_paren(expr, right->as<Expr>().get(), true), use_handle,
                                  ignore_top, scope)
-                : (use_handle ? right->handle_name(ignore_top)
-                   : scope    ? right->handle_name(scope)
-                              : right->to_string());
+                : operand_to_string(right, use_handle ? right->handle_name(ignore_top)
+                                           : scope    ? right->handle_name(scope)
+                                                      : right->to_string());
         if (is_top)
             return ::format("{0} {1} {2}", left_str, ExprOpStr(expr->op), right_str);
         else
             return ::format("({0} {1} {2})", left_str, ExprOpStr(expr->op), right_str);
     } else {
+        // a negative constant has an operator of its own
+        if (left_str.front() == '-') left_str = ::format("({0})", left_str);
         if (is_top)
             return ::format("{0}{1}", ExprOpStr(expr->op), left_str);
         else
@@ -1878,17 +1892,20 @@ std::string ConditionalExpr::to_string() const {
     std::string cond_str = condition->type() == VarType::Expression
                                ? ::format("({0})", condition->to_string())
                                : condition->to_string();
-    return ::format("{0} ? {1}: {2}", cond_str, left->to_string(), right->to_string());
+    return ::format("{0} ? {1}: {2}", cond_str, operand_to_string(left, left->to_string()),
+                    operand_to_string(right, right->to_string()));
 }
 
 std::string ConditionalExpr::handle_name(bool ignore_top) const {
     return ::format("{0} ? {1}: {2}", condition->handle_name(ignore_top),
-                    left->handle_name(ignore_top), right->handle_name(ignore_top));
+                    operand_to_string(left, left->handle_name(ignore_top)),
+                    operand_to_string(right, right->handle_name(ignore_top)));
 }
 
 std::string ConditionalExpr::handle_name(kratos::Generator *scope) const {
-    return ::format("{0} ? {1}: {2}", condition->handle_name(scope), left->handle_name(scope),
-                    right->handle_name(scope));
+    return ::format("{0} ? {1}: {2}", condition->handle_name(scope),
+                    operand_to_string(left, left->handle_name(scope)),
+                    operand_to_string(right, right->handle_name(scope)));
 }
 
 std::shared_ptr<ConditionalExpr> ConditionalExpr::create(const std::shared_ptr<Var> &condition,
-- 
2.43.0


From b5b4f4c5e77ba3117bb2c72dd5205e76dad771b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:15 +0000
Subject: [PATCH 073/105] fix: merging ifs that compare a signed value

---
 src/optimize.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index 8fa8723..c313c39 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -239,7 +239,9 @@ private:
         AssignedVisitor visitor;
         visitor.visit_root(if_->then_body().get());
         // use a statement to find out every variable that the target reads
-        auto stmt = target->generator()->get_auxiliary_var(target->width())->assign(*target);
+        auto unsigned_target = target->cast(VarCastType::Unsigned);
+        auto stmt =
+            target->generator()->get_auxiliary_var(target->width())->assign(*unsigned_target);
         auto const result = std::any_of(
             visitor.vars.begin(), visitor.vars.end(),
             [&stmt](auto* var) { return var->sinks().find(stmt) != var->sinks().end(); });
-- 
2.43.0


From 1974123cdd4eb3d6cacffd153489241ed4ffbe90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:15 +0000
Subject: [PATCH 074/105] fix: slices of expressions and of slices are legal
 and select the right bits

---
 src/expr.cc | 51 +++++++++++++++++++++++++++++++++++++++++++++++----
 src/expr.hh |  3 +++
 2 files changed, 50 insertions(+), 4 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index d528650..b809c75 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -627,15 +627,50 @@ static bool has_param_dim(const Var *var) {
     return depth <= num_dim && root->parametrized();
 }
 
+// only variables can be sliced in the text, bits of other expressions have to be shifted out
+static bool has_slice_syntax(const Var *var) {
+    const auto *root = var;
+    while (root->type() == VarType::Slice) {
+        root = reinterpret_cast<const VarSlice *>(root)->parent_var;
+    }
+    return root->type() != VarType::Expression && root->type() != VarType::ConstValue &&
+           root->type() != VarType::BaseCasted;
+}
+
+static std::string shifted_slice(const Var *parent, uint32_t width, const std::string &shift) {
+    auto result = ::format("{0}'(({1}) >> {2})", width, parent->to_string(), shift);
+    // casting the width keeps the sign
+    return parent->is_signed() ? ::format("unsigned'({0})", result) : result;
+}
+
+// nothing can follow a part select in the text. returns what the part is selected from, and where the
+// part starts
+static std::pair<const Var *, uint32_t> skip_part_select(const Var *var) {
+    uint32_t offset = 0;
+    while (var->type() == VarType::Slice) {
+        const auto *slice = reinterpret_cast<const VarSlice *>(var);
+        const auto *packed_slice = dynamic_cast<const PackedSlice *>(slice);
+        if (slice->high == slice->low || (packed_slice && packed_slice->def())) break;
+        offset += slice->low;
+        var = slice->parent_var;
+    }
+    return {var, offset};
+}
+
 std::string VarSlice::to_string() const {
-    auto const &parent_name = parent_var->to_string();
+    if (!has_slice_syntax(parent_var)) {
+        auto parent_low = parent_var->type() == VarType::Slice ? parent_var->var_low() : 0;
+        return shifted_slice(parent_var, width(), std::to_string(var_low() - parent_low));
+    }
+    auto const [parent, offset] = skip_part_select(parent_var);
+    auto const &parent_name = parent->to_string();
     if (high == low) {
         if (high == 0 && parent_var->width() == 1 && !has_param_dim(parent_var)) {
             return parent_name;
         }
-        return ::format("{0}[{1}]", parent_name, high);
+        return ::format("{0}[{1}]", parent_name, high + offset);
     } else {
-        return ::format("{0}[{1}:{2}]", parent_name, high, low);
+        return ::format("{0}[{1}:{2}]", parent_name, high + offset, low + offset);
     }
 }
 
@@ -756,7 +791,15 @@ void VarVarSlice::remove_source(const std::shared_ptr<AssignStmt> &stmt) {
 }
 
 std::string VarVarSlice::to_string() const {
-    return ::format("{0}[{1}]", parent_var->to_string(), sliced_var_->to_string());
+    if (!has_slice_syntax(parent_var)) {
+        auto shift = width() == 1 ? ::format("({0})", sliced_var_->to_string())
+                                  : ::format("(({0}) * {1})", sliced_var_->to_string(), width());
+        return shifted_slice(parent_var, width(), shift);
+    }
+    auto const [parent, offset] = skip_part_select(parent_var);
+    auto index = sliced_var_->to_string();
+    if (offset > 0) index = ::format("({0}) + {1}", index, offset);
+    return ::format("{0}[{1}]", parent->to_string(), index);
 }
 
 void resize_var(Expr *expr, uint32_t target_width, Var *var, bool left) {
diff --git a/src/expr.hh b/src/expr.hh
index 7521ec8..5e7c46b 100644
--- a/src/expr.hh
+++ b/src/expr.hh
@@ -361,6 +361,9 @@ public:
 
     std::string to_string() const override;
 
+    // an expression that is sliced changes its generator when its operands are replaced
+    Generator *generator() const override { return parent_var->generator(); }
+
     uint32_t var_high() const override { return var_high_; }
     uint32_t var_low() const override { return var_low_; }
 
-- 
2.43.0


From 0a7754063dfcf55eca0e3ae0ca9e89157a42140c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:35 +0000
Subject: [PATCH 075/105] fix: newlines in comments ended the comment in the
 generated code

---
 src/util.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.cc b/src/util.cc
index bf54129..caa2059 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -227,7 +227,7 @@ std::string port_type_to_str(PortType type) {
 
 std::string strip_newline(std::string &str) {
     std::string::size_type pos = 0;
-    while ((pos = str.find('\n', pos) != std::string::npos)) str.erase(pos, 1);
+    while ((pos = str.find('\n', pos)) != std::string::npos) str.erase(pos, 1);
     return str;
 }
 
-- 
2.43.0


From f505f1cd5ca2626e344e536515db311836c98fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:35 +0000
Subject: [PATCH 076/105] fix: data race when a package is generated

---
 src/codegen.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/codegen.cc b/src/codegen.cc
index 2160caf..b936614 100644
--- a/src/codegen.cc
+++ b/src/codegen.cc
@@ -1463,8 +1463,7 @@ void generate_verilog_pkg(Generator* top, SystemVerilogCodeGenOptions options) {
     // this pass assumes that all the generators has been uniquified
     // first get all the unique generators
     UniqueGeneratorVisitor unique_visitor;
-    // this can be parallelized
-    unique_visitor.visit_generator_root_p(top);
+    unique_visitor.visit_generator_root(top);
     auto const& generator_map = unique_visitor.generator_map();
     track_generators(top);
 
-- 
2.43.0


From 0b2aeb68909a9589a2c7766d93e332e076fd1ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:53 +0000
Subject: [PATCH 077/105] fix: a call with arguments the function does not have
 is refused

---
 src/expr.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/expr.cc b/src/expr.cc
index b809c75..9536fc8 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -2408,6 +2408,10 @@ FunctionCallVar::FunctionCallVar(Generator *m, const std::shared_ptr<FunctionStm
             throw VarException(::format("{0}'s sign doesn't match", port_name),
                                {func_port.get(), arg_port.get()});
     }
+    if (!func_def->is_builtin() && args.size() != ports.size())
+        throw StmtException(
+            ::format("{0} does not have some of the arguments", func_def->function_name()),
+            {func_def.get()});
     // compute the width and sign
     auto handle = func_def->function_handler();
     if (!handle && has_return && !func_def->is_dpi() && !func_def->is_builtin() &&
-- 
2.43.0


From f5a5383ab7295d0fcb4d8a08b3282c7703d2cdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:53 +0000
Subject: [PATCH 078/105] fix: an expression or a constant that is too wide is
 not cut to fit the other operand

---
 src/expr.cc | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/expr.cc b/src/expr.cc
index 9536fc8..b026d34 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -2257,6 +2257,14 @@ void extract_iter_var(const Var *var, std::vector<const IterVar *> &iters) {
     }
 }
 
+bool has_param(const Var *var) {
+    if (!var) return false;
+    if (var->type() == VarType::Parameter) return true;
+    if (var->type() != VarType::Expression) return false;
+    auto const *expr = reinterpret_cast<const Expr *>(var);
+    return has_param(expr->left) || has_param(expr->right);
+}
+
 std::optional<int64_t> convert_value(const Var *var,
                                      const std::optional<std::vector<uint64_t>> &values) {
     if (!values) {
@@ -2313,6 +2321,16 @@ bool safe_to_resize_(Simulator &sim, const Var *var, uint32_t target_size, bool
 bool IterVar::safe_to_resize(const Var *var, uint32_t target_size, bool is_signed) {
     std::vector<const IterVar *> iters;
     extract_iter_var(var, iters);
+    // what is not known here has to be as wide
+    if (iters.empty()) {
+        if (var->type() == VarType::ConstValue) {
+            auto const *const_ = reinterpret_cast<const Const *>(var);
+            return Const::is_legal(const_->value(), target_size, var->is_signed()) ==
+                   Const::ConstantLegal::Legal;
+        }
+        if (var->type() == VarType::Expression && !has_param(var))
+            return var->width() <= target_size;
+    }
     // brute-force to compute every possible combinations using simulator
     static Simulator sim(nullptr);
     // We did some hacks that, assuming the min and max value is at the boundary
-- 
2.43.0


From 381ded76b951e82c876bc8425aa03b30184a7042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:53 +0000
Subject: [PATCH 079/105] fix: what is more than a bit wide cannot be cast to a
 clock or a reset

---
 src/expr.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index b026d34..5680c48 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1120,10 +1120,10 @@ VarCasted::VarCasted(Var *parent, VarCastType cast_type)
     } else if (cast_type_ == VarCastType::Unsigned) {
         is_signed_ = false;
     } else if (cast_type_ == VarCastType::AsyncReset || cast_type_ == VarCastType::Clock) {
-        if (parent->size().size() != 1 || parent->size().front() != 1) {
+        if (parent->width() != 1) {
             throw VarException(::format("Can only cast bit width 1 to "
                                         "Clock or AsyncReset. {0} is {1}",
-                                        parent->to_string(), parent->size().front()),
+                                        parent->to_string(), parent->width()),
                                {parent});
         }
     }
-- 
2.43.0


From 93f05f57a3d8ec6581717b4308a22a2135a479f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:53 +0000
Subject: [PATCH 080/105] fix: constants wider than 64 bits are not checked by
 an undefined shift

---
 src/expr.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/expr.cc b/src/expr.cc
index 5680c48..13cbb8c 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1049,6 +1049,8 @@ Const::Const(Generator *generator, int64_t value, uint32_t width, bool is_signed
 }
 
 Const::ConstantLegal Const::is_legal(int64_t value, uint32_t width, bool is_signed) {
+    // any value that can be given fits in what is wider
+    if (width > 64) return Const::ConstantLegal::Legal;
     if (is_signed) {
         // compute the -max value
         uint64_t temp = (~0ull) << (width - 1);
-- 
2.43.0


From e70b3efb2c609815448c511b70bf07aa345969c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:53 +0000
Subject: [PATCH 081/105] fix: a port of several bits cannot be made a clock or
 a reset afterwards

---
 src/port.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/port.cc b/src/port.cc
index 169c12d..85f78a7 100644
--- a/src/port.cc
+++ b/src/port.cc
@@ -69,7 +69,12 @@ std::shared_ptr<AssignStmt> Port::assign_(const std::shared_ptr<Var>& var,
     return Var::assign_(var, type);
 }
 
-void Port::set_port_type(PortType type) { type_ = type; }
+void Port::set_port_type(PortType type) {
+    if (type != PortType::Data && width() != 1)
+        throw VarException(
+            ::format("{0}'s width is not 1, which can only be used as data", name), {this});
+    type_ = type;
+}
 
 void Port::set_active_high(bool value) {
     if (width() != 1)
-- 
2.43.0


From b7ed9bfca084782a95e77833f3a62746432b1f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:01 +0000
Subject: [PATCH 082/105] fix: the message about an unknown name in a port
 ordering

---
 src/stmt.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stmt.cc b/src/stmt.cc
index 0b12183..4439f29 100644
--- a/src/stmt.cc
+++ b/src/stmt.cc
@@ -742,7 +742,7 @@ void FunctionStmtBlock::set_port_ordering(const std::map<std::string, uint32_t>
         throw UserException("Port ordering size does not match with declared outputs");
     for (auto const &iter : ordering) {
         if (ports_.find(iter.first) == ports_.end())
-            throw UserException(::format("{0} does not exist"));
+            throw UserException(::format("{0} does not exist", iter.first));
     }
     port_ordering_ = ordering;
 }
-- 
2.43.0


From b4f28ac62944cd5edc627d1e503a98028861639f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:02 +0000
Subject: [PATCH 083/105] fix: two arguments of a function cannot have the same
 name

---
 src/stmt.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/stmt.cc b/src/stmt.cc
index 4439f29..4b6d4b3 100644
--- a/src/stmt.cc
+++ b/src/stmt.cc
@@ -721,6 +721,9 @@ void FunctionStmtBlock::create_function_handler(uint32_t width, bool is_signed)
 
 std::shared_ptr<Port> FunctionStmtBlock::input(const std::string &name, uint32_t width,
                                                bool is_signed) {
+    if (ports_.find(name) != ports_.end())
+        throw VarException(::format("{0} already exists in {1}", name, function_name_),
+                           {ports_.at(name).get()});
     auto p = std::make_shared<Port>(parent_, PortDirection::In, name, width, 1, PortType::Data,
                                     is_signed);
     ports_.emplace(name, p);
@@ -757,6 +760,9 @@ void FunctionStmtBlock::set_port_ordering(const std::map<uint32_t, std::string>
 
 std::shared_ptr<Port> DPIFunctionStmtBlock::output(const std::string &name, uint32_t width,
                                                    bool is_signed) {
+    if (ports_.find(name) != ports_.end())
+        throw VarException(::format("{0} already exists in {1}", name, function_name_),
+                           {ports_.at(name).get()});
     // record the ordering
     port_ordering_.emplace(name, port_ordering_.size());
     auto p = std::make_shared<Port>(parent_, PortDirection::Out, name, width, 1, PortType::Data,
-- 
2.43.0


From 93f60124acf1213e4655b5a67e288b36e4e10cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:02 +0000
Subject: [PATCH 084/105] fix: a replacement that is refused leaves the
 connections as they are

---
 src/generator.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/generator.cc b/src/generator.cc
index 5dd32e5..560486e 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -1196,7 +1196,6 @@ void Generator::replace(const std::string &child_name,
                                  {this, new_child.get()});
     }
     auto old_child = children_.at(child_name);
-    new_child->instance_name = child_name;
     // first we need to make sure that the interfaces are the same
     auto old_port_names = old_child->get_port_names();
     auto new_port_names = new_child->get_port_names();
@@ -1245,8 +1244,12 @@ void Generator::replace(const std::string &child_name,
                                         old_child->name, port_name, new_child->name),
                                {old_port.get(), new_port.get()});
         }
+    }
 
-        // all passed, now replace the port!
+    // all passed, now replace the ports!
+    for (const auto &port_name : old_port_names) {
+        auto old_port = old_child->get_port(port_name);
+        auto new_port = new_child->get_port(port_name);
         if (old_port->port_direction() == PortDirection::In) {
             // move the src
             Var::move_src_to(old_port.get(), new_port.get(), this, false);
-- 
2.43.0


From b118ce6db1db37619c2dec393f665295872bd65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:02 +0000
Subject: [PATCH 085/105] fix: removing and renaming variables keeps the ports,
 renaming to a name that is taken is refused

---
 src/generator.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/generator.cc b/src/generator.cc
index 560486e..c10e632 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -586,20 +586,24 @@ std::string Generator::get_unique_variable_name(const std::string &prefix,
 
 void Generator::remove_port(const std::string &port_name) {
     if (has_port(port_name)) {
-        ports_.erase(port_name);
         remove_var(port_name);
     }
 }
 
 void Generator::rename_var(const std::string &old_name, const std::string &new_name) {
     auto var = get_var(old_name);
-    if (!var) return;
+    if (!var || old_name == new_name) return;
+    check_name(new_name);
+    if (vars_.find(new_name) != vars_.end())
+        throw VarException(::format("{0} already exists in {1}", new_name, name),
+                           {var.get(), vars_.at(new_name).get()});
     // Using C++17 to replace the key
     auto handle = vars_.extract(old_name);
     handle.key() = new_name;
     // rename the var
     var->name = new_name;
     vars_.insert(std::move(handle));
+    if (ports_.erase(old_name)) ports_.emplace(new_name);
 }
 
 void Generator::reindex_vars() {
@@ -1350,6 +1354,7 @@ void Generator::remove_var(const std::string &var_name) {
     }
 
     vars_.erase(var_name);
+    ports_.erase(var_name);
 }
 
 std::shared_ptr<StmtBlock> Generator::get_named_block(const std::string &block_name) const {
-- 
2.43.0


From 3a1c09f8d9467f43e549b4a405e0f42e10849a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:02 +0000
Subject: [PATCH 086/105] fix: a generator with the instance name of a child is
 not that child

---
 src/generator.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/generator.cc b/src/generator.cc
index c10e632..df71358 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -488,7 +488,8 @@ std::vector<std::shared_ptr<Generator>> Generator::get_child_generators() {
 }
 
 bool Generator::has_child_generator(const std::shared_ptr<Generator> &child) {
-    return children_.find(child->instance_name) != children_.end();
+    auto it = children_.find(child->instance_name);
+    return it != children_.end() && it->second == child;
 }
 
 bool Generator::has_child_generator(const std::string &child_name) {
@@ -501,6 +502,7 @@ void Generator::rename_child_generator(const std::shared_ptr<Generator> &child,
         throw GeneratorException(
             ::format("{0} doesn't belong to {1}", child->instance_name, instance_name),
             {this, child.get()});
+    check_name(new_name);
     if (children_.find(new_name) != children_.end())
         throw GeneratorException(
             ::format("Child instance with name {0} already exists in {1}", new_name, instance_name),
-- 
2.43.0


From 6b8ab4e9c0bb1bfd94b868b57ce81ccbffe2b137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:02 +0000
Subject: [PATCH 087/105] fix: a child that is refused keeps its instance name

---
 src/generator.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/generator.cc b/src/generator.cc
index df71358..93825e7 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -412,14 +412,14 @@ IRNode *Generator::get_child(uint64_t index) {
 void Generator::add_child_generator(const std::string &instance_name_,
                                     const std::shared_ptr<Generator> &child) {
     check_name(instance_name_);
-    child->instance_name = instance_name_;
-    if (children_.find(child->instance_name) == children_.end()) {
+    if (children_.find(instance_name_) == children_.end()) {
+        child->instance_name = instance_name_;
         children_.emplace(child->instance_name, child);
         child->parent_generator_ = this;
         children_names_.emplace_back(child->instance_name);
     } else {
         throw GeneratorException(
-            ::format("{0} already exists  in {1}", child->instance_name, instance_name),
+            ::format("{0} already exists  in {1}", instance_name_, instance_name),
             {children_.at(instance_name_).get()});
     }
 }
-- 
2.43.0


From be9012a3421a6c73a873681a4b3b0cdff968866a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:02 +0000
Subject: [PATCH 088/105] fix: a port cannot have the name of a variable

---
 src/generator.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/generator.cc b/src/generator.cc
index 93825e7..09707fb 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -233,7 +233,8 @@ Param &Generator::parameter(const std::string &parameter_name, uint32_t width, b
 }
 
 void Generator::add_port_name(const std::string &port_name) {
-    if (ports_.find(port_name) != ports_.end())
+    // a variable can also have the name
+    if (vars_.find(port_name) != vars_.end())
         throw VarException(::format("{0} already exists in {1}", port_name, name),
                            {vars_.at(port_name).get()});
     ports_.emplace(port_name);
-- 
2.43.0


From 6255a30c6f9ecb6895542a932505910792b1daa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:02 +0000
Subject: [PATCH 089/105] fix: a variable of other dimensions is not the same
 variable

---
 src/generator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator.cc b/src/generator.cc
index 09707fb..c747539 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -96,7 +96,7 @@ Var &Generator::var(const std::string &var_name, uint32_t width, const std::vect
                     bool is_signed) {
     if (vars_.find(var_name) != vars_.end()) {
         auto v_p = get_var(var_name);
-        if (v_p->width() != width || v_p->is_signed() != is_signed)
+        if (v_p->var_width() != width || v_p->size() != size || v_p->is_signed() != is_signed)
             throw VarException(::format("redefinition of {0} with different width/sign", var_name),
                                {v_p.get()});
         return *v_p;
-- 
2.43.0


From 722a9c5bc16b49b34bf77e1e2dc48a93c9c0492d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:07 +0000
Subject: [PATCH 090/105] fix: clones keep values, defaults, kinds, layouts and
 parametrized dimensions

---
 src/generator.cc | 53 +++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 46 insertions(+), 7 deletions(-)

diff --git a/src/generator.cc b/src/generator.cc
index c747539..d6560ba 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -1091,23 +1091,62 @@ void Generator::unwire(Var &var1, Var &var2) {
     }
 }
 
+// the same expression with the parameters of another generator
+static Var &copy_param_expr(Var *var, Generator *generator) {
+    if (var->is_param()) return *generator->get_param(var->to_string());
+    if (var->type() != VarType::Expression) return *var;
+    auto expr = var->as<Expr>();
+    auto &left = copy_param_expr(expr->left, generator);
+    auto *right = expr->right ? &copy_param_expr(expr->right, generator) : nullptr;
+    return generator->expr(expr->op, &left, right);
+}
+
 std::shared_ptr<Generator> Generator::clone() {
     auto generator = std::make_shared<Generator>(context_, name);
     auto port_names = get_port_names();
     // also parameters
     for (auto const &[param_name, param] : params_) {
-        generator->parameter(param_name, param->width(), param->is_signed());
+        if (param->param_type() == ParamType::RawType) {
+            auto &p = generator->parameter(param_name);
+            auto initial = param->get_raw_str_initial_value();
+            if (initial) p.set_initial_raw_str_value(*initial);
+            continue;
+        }
+        auto &p = param->param_type() == ParamType::Enum
+                      ? generator->parameter(param_name, param->enum_def()->shared_from_this())
+                      : generator->parameter(param_name, param->width(), param->is_signed());
+        auto initial = param->get_initial_value();
+        if (initial) p.set_initial_value(*initial);
+        if (param->has_value()) p.set_value(param->value());
     }
 
     for (auto const &port_name : port_names) {
         auto port = get_port(port_name);
-        auto &p = generator->port(port->port_direction(), port_name, port->var_width(),
-                                  port->size(), port->port_type(), port->is_signed());
-        if (port->width_param() && port->width_param()->is_param()) {
-            auto param = generator->get_param(port->width_param()->to_string());
-            p.set_width_param(param);
+        auto packed = std::dynamic_pointer_cast<PortPackedStruct>(port);
+        auto enum_port = std::dynamic_pointer_cast<EnumPort>(port);
+        Port *p;
+        if (packed) {
+            p = &generator->port_packed(port->port_direction(), port_name, packed->packed_struct(),
+                                        port->size());
+        } else if (enum_port) {
+            p = &generator->port(port->port_direction(), port_name,
+                                 const_cast<Enum *>(enum_port->enum_type())->shared_from_this());
+        } else {
+            p = &generator->port(port->port_direction(), port_name, port->var_width(),
+                                 port->size(), port->port_type(), port->is_signed());
+            p->set_is_packed(port->is_packed());
+        }
+        p->set_explicit_array(port->explicit_array());
+        if (port->active_high()) p->set_active_high(*port->active_high());
+        if (port->raw_type_parametrized())
+            p->set_raw_type_param(
+                generator->get_param(port->get_raw_type_param()->to_string()).get());
+        if (port->width_param())
+            p->set_width_param(&copy_param_expr(port->width_param(), generator.get()));
+        for (uint32_t i = 0; i < port->size().size(); i++) {
+            if (port->get_size_param(i))
+                p->set_size_param(i, &copy_param_expr(port->get_size_param(i), generator.get()));
         }
-        p.set_is_packed(port->is_packed());
     }
 
     if (!fn_name_ln.empty()) {
-- 
2.43.0


From e0dfd05c420b16bb1d74da55ad8883c7671473c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:07 +0000
Subject: [PATCH 091/105] fix: renaming a port by its own name updates the
 ports

---
 src/generator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator.cc b/src/generator.cc
index d6560ba..05edec9 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -600,13 +600,13 @@ void Generator::rename_var(const std::string &old_name, const std::string &new_n
     if (vars_.find(new_name) != vars_.end())
         throw VarException(::format("{0} already exists in {1}", new_name, name),
                            {var.get(), vars_.at(new_name).get()});
+    if (ports_.erase(old_name)) ports_.emplace(new_name);
     // Using C++17 to replace the key
     auto handle = vars_.extract(old_name);
     handle.key() = new_name;
     // rename the var
     var->name = new_name;
     vars_.insert(std::move(handle));
-    if (ports_.erase(old_name)) ports_.emplace(new_name);
 }
 
 void Generator::reindex_vars() {
-- 
2.43.0


From 00f58c79316c231629caa80fe1658273ffd90d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:07 +0000
Subject: [PATCH 092/105] fix: removing a child takes out exactly its
 connections to the parent

---
 src/generator.cc | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/generator.cc b/src/generator.cc
index 05edec9..5fbb21a 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -455,22 +455,18 @@ void Generator::remove_child_generator(const std::shared_ptr<Generator> &child)
         auto port_names = child->get_port_names();
         for (auto const &port_name : port_names) {
             auto port = child->get_port(port_name);
-            if (port->port_direction() == PortDirection::In) {
-                // do a copy
-                auto srcs = std::unordered_set<std::shared_ptr<AssignStmt>>(port->sources().begin(),
-                                                                            port->sources().end());
-                for (auto const &stmt : srcs) {
-                    auto *sink = stmt->right();
-                    sink->unassign(stmt);
-                    remove_stmt_from_parent(stmt);
-                }
-            } else {
-                auto sinks = std::unordered_set<std::shared_ptr<AssignStmt>>(port->sinks().begin(),
-                                                                             port->sinks().end());
-                for (auto const &stmt : sinks) {
-                    port->unassign(stmt);
-                    remove_stmt_from_parent(stmt);
-                }
+            // do a copy
+            std::vector<std::shared_ptr<AssignStmt>> stmts;
+            if (port->port_direction() != PortDirection::Out)
+                stmts.insert(stmts.end(), port->sources().begin(), port->sources().end());
+            if (port->port_direction() != PortDirection::In)
+                stmts.insert(stmts.end(), port->sinks().begin(), port->sinks().end());
+            for (auto const &stmt : stmts) {
+                // what the child does with its own ports stays
+                if (stmt->parent() && stmt->generator_parent() == child.get()) continue;
+                stmt->left()->remove_source(stmt);
+                stmt->right()->remove_sink(stmt);
+                remove_stmt_from_parent(stmt);
             }
         }
         // set parent to null
-- 
2.43.0


From 700f6192ec4750677888684bacfd90c2b554edf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:07 +0000
Subject: [PATCH 093/105] fix: a port like another packed struct port has its
 dimensions

---
 src/generator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator.cc b/src/generator.cc
index 5fbb21a..bb94932 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -163,7 +163,7 @@ Port &Generator::port(const PortPackedStruct &port, bool check_param) {
 Port &Generator::port(const PortPackedStruct &port, const std::string &port_name,
                       bool check_param) {
     auto p = std::make_shared<PortPackedStruct>(this, port.port_direction(), port_name,
-                                                port.packed_struct());
+                                                port.packed_struct(), port.size());
     add_port_name(port_name);
     vars_.emplace(port_name, p);
 
-- 
2.43.0


From bc92140554266cd15c27455bdd8a083afd8ecbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:07 +0000
Subject: [PATCH 094/105] fix: stubs keep explicit arrays

---
 src/codegen.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/codegen.cc b/src/codegen.cc
index b936614..b611819 100644
--- a/src/codegen.cc
+++ b/src/codegen.cc
@@ -1225,6 +1225,7 @@ std::string create_stub(Generator* top) {
         auto& p = gen.port(port->port_direction(), port_name, port->var_width(), port->size(),
                            port->port_type(), port->is_signed());
         p.set_is_packed(port->is_packed());
+        p.set_explicit_array(port->explicit_array());
     }
     // that's it
     // now outputting the stream
-- 
2.43.0


From 83a0ed265dca38c37610369cc3205e26b2024998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:07 +0000
Subject: [PATCH 095/105] fix: the action of a failed property was written as
 the action of a passed one

---
 src/codegen.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/codegen.cc b/src/codegen.cc
index b611819..96ad9b8 100644
--- a/src/codegen.cc
+++ b/src/codegen.cc
@@ -758,6 +758,7 @@ void SystemVerilogCodeGen::stmt_code(AssertPropertyStmt* stmt) {
         return;
     stream_ << indent() << action << " property (" << property->property_name() << ")";
     if (stmt->else_() && action_type == PropertyAction::Assert) {
+        stream_ << " else ";
         dispatch_node(stmt->else_().get());
     } else {
         stream_ << ';' << stream_.endl();
-- 
2.43.0


From c81ea61808755e3f905ccab6572e9fb098cd2c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:07 +0000
Subject: [PATCH 096/105] fix: renaming the ports of a memory keeps the names
 the generator knows

---
 src/lib.hh | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/lib.hh b/src/lib.hh
index 30cd422..2900a5c 100644
--- a/src/lib.hh
+++ b/src/lib.hh
@@ -17,7 +17,7 @@ public:
     uint16_t data_width() { return data_width_; }
 
     std::string clock_name() const { return clk_->name; }
-    void set_clock_name(const std::string &name) { clk_->name = name; }
+    void set_clock_name(const std::string &name) { rename_var(clk_->name, name); }
 
     [[nodiscard]] uint32_t capacity() const;
 
@@ -63,13 +63,13 @@ public:
     }
 
     // set names
-    void set_output_data_name(const std::string &name) { output_data_->name = name; }
-    void set_chip_enable_name(const std::string &name) { chip_enable_->name = name; }
-    void set_write_enable_name(const std::string &name) { write_enable_->name = name; }
-    void set_addr_name(const std::string &name) { addr_->name = name; }
-    void set_input_data_name(const std::string &name) { input_data_->name = name; }
+    void set_output_data_name(const std::string &name) { rename_var(output_data_->name, name); }
+    void set_chip_enable_name(const std::string &name) { rename_var(chip_enable_->name, name); }
+    void set_write_enable_name(const std::string &name) { rename_var(write_enable_->name, name); }
+    void set_addr_name(const std::string &name) { rename_var(addr_->name, name); }
+    void set_input_data_name(const std::string &name) { rename_var(input_data_->name, name); }
     void set_partial_write_mask_name(const std::string &name) {
-        if (partial_write_mask_) partial_write_mask_->name = name;
+        if (partial_write_mask_) rename_var(partial_write_mask_->name, name);
     }
 
     bool partial_write() const { return partial_write_; }
-- 
2.43.0


From 958a5aac3665e7afece99e2ed6fc5dacfeaae571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:08 +0000
Subject: [PATCH 097/105] fix: a banked memory takes the mask name of the
 memory it is made of

---
 src/lib.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.cc b/src/lib.cc
index 6326170..f395b05 100644
--- a/src/lib.cc
+++ b/src/lib.cc
@@ -110,7 +110,7 @@ SinglePortSRAM::SinglePortSRAM(kratos::Context *context, const std::string &stub
     // optional partial write
     if (partial_write_) {
         partial_write_mask_ =
-            port(PortDirection::In, partial_write_mask_name_, data_width_).as<Port>();
+            port(PortDirection::In, basis->partial_write_mask_name(), data_width_).as<Port>();
     }
 
     // memory select logic
-- 
2.43.0


From bc7c717bf5059d94917bf3ad53f7416ff34030a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:08 +0000
Subject: [PATCH 098/105] fix: conditions of conditional expressions keep their
 parentheses in hierarchical names

---
 src/expr.cc | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index 13cbb8c..51774b0 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1933,22 +1933,27 @@ void ConditionalExpr::remove_sink(const std::shared_ptr<AssignStmt> &stmt) {
     right->remove_sink(stmt);
 }
 
+// the condition can have any operator
+static std::string condition_to_string(const Var *condition, const std::string &str) {
+    return condition->type() == VarType::Expression ? ::format("({0})", str) : str;
+}
+
 std::string ConditionalExpr::to_string() const {
-    std::string cond_str = condition->type() == VarType::Expression
-                               ? ::format("({0})", condition->to_string())
-                               : condition->to_string();
-    return ::format("{0} ? {1}: {2}", cond_str, operand_to_string(left, left->to_string()),
+    return ::format("{0} ? {1}: {2}", condition_to_string(condition, condition->to_string()),
+                    operand_to_string(left, left->to_string()),
                     operand_to_string(right, right->to_string()));
 }
 
 std::string ConditionalExpr::handle_name(bool ignore_top) const {
-    return ::format("{0} ? {1}: {2}", condition->handle_name(ignore_top),
+    return ::format("{0} ? {1}: {2}",
+                    condition_to_string(condition, condition->handle_name(ignore_top)),
                     operand_to_string(left, left->handle_name(ignore_top)),
                     operand_to_string(right, right->handle_name(ignore_top)));
 }
 
 std::string ConditionalExpr::handle_name(kratos::Generator *scope) const {
-    return ::format("{0} ? {1}: {2}", condition->handle_name(scope),
+    return ::format("{0} ? {1}: {2}",
+                    condition_to_string(condition, condition->handle_name(scope)),
                     operand_to_string(left, left->handle_name(scope)),
                     operand_to_string(right, right->handle_name(scope)));
 }
-- 
2.43.0


From 20153266ac4e744aa7b21798d59f834141c440f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:08 +0000
Subject: [PATCH 099/105] fix: a variable is not in the scope of a module whose
 path is a prefix of its own

---
 src/expr.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index 51774b0..ee1d6a5 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -333,14 +333,13 @@ std::string Var::handle_name(kratos::Generator *scope) const {
     // subtract the scope
     auto gen_name = scope->handle_name();
     auto var_name = handle_name();
-    auto pos = var_name.find(gen_name);
-    if (pos != 0) {
+    if (var_name.compare(0, gen_name.size() + 1, gen_name + ".") != 0) {
         throw VarException(
             ::format("{0} is not accessible from {1}", gen_name, generator()->handle_name()),
             {this, scope, this->generator()});
     }
     // we +1 because there is a dot there
-    return var_name.substr(pos + gen_name.size() + 1);
+    return var_name.substr(gen_name.size() + 1);
 }
 
 void Var::set_width_param(const std::shared_ptr<Var> &param) { set_width_param(param.get()); }
-- 
2.43.0


From c5408af5704ead8f020851ad7a8685fa31edb87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:08 +0000
Subject: [PATCH 100/105] fix: hierarchical names of slices and casts name
 every variable in them

---
 src/expr.cc | 67 +++++++++++++++++++++++++++++++++++++----------------
 src/expr.hh | 25 ++++++++++++++++----
 2 files changed, 68 insertions(+), 24 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index ee1d6a5..2bc969b 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -636,8 +636,9 @@ static bool has_slice_syntax(const Var *var) {
            root->type() != VarType::BaseCasted;
 }
 
-static std::string shifted_slice(const Var *parent, uint32_t width, const std::string &shift) {
-    auto result = ::format("{0}'(({1}) >> {2})", width, parent->to_string(), shift);
+static std::string shifted_slice(const Var *parent, const std::string &parent_name,
+                                 uint32_t width, const std::string &shift) {
+    auto result = ::format("{0}'(({1}) >> {2})", width, parent_name, shift);
     // casting the width keeps the sign
     return parent->is_signed() ? ::format("unsigned'({0})", result) : result;
 }
@@ -657,12 +658,26 @@ static std::pair<const Var *, uint32_t> skip_part_select(const Var *var) {
 }
 
 std::string VarSlice::to_string() const {
+    return slice_to_string([](const Var *var) { return var->to_string(); });
+}
+
+std::string VarSlice::handle_name(bool ignore_top) const {
+    return slice_to_string([=](const Var *var) { return var->handle_name(ignore_top); });
+}
+
+std::string VarSlice::handle_name(kratos::Generator *scope) const {
+    return slice_to_string([=](const Var *var) { return var->handle_name(scope); });
+}
+
+std::string VarSlice::slice_to_string(
+    const std::function<std::string(const Var *)> &var_name) const {
     if (!has_slice_syntax(parent_var)) {
         auto parent_low = parent_var->type() == VarType::Slice ? parent_var->var_low() : 0;
-        return shifted_slice(parent_var, width(), std::to_string(var_low() - parent_low));
+        return shifted_slice(parent_var, var_name(parent_var), width(),
+                             std::to_string(var_low() - parent_low));
     }
     auto const [parent, offset] = skip_part_select(parent_var);
-    auto const &parent_name = parent->to_string();
+    auto const &parent_name = var_name(parent);
     if (high == low) {
         if (high == 0 && parent_var->width() == 1 && !has_param_dim(parent_var)) {
             return parent_name;
@@ -789,16 +804,17 @@ void VarVarSlice::remove_source(const std::shared_ptr<AssignStmt> &stmt) {
     sliced_var_->remove_sink(stmt);
 }
 
-std::string VarVarSlice::to_string() const {
+std::string VarVarSlice::slice_to_string(
+    const std::function<std::string(const Var *)> &var_name) const {
     if (!has_slice_syntax(parent_var)) {
-        auto shift = width() == 1 ? ::format("({0})", sliced_var_->to_string())
-                                  : ::format("(({0}) * {1})", sliced_var_->to_string(), width());
-        return shifted_slice(parent_var, width(), shift);
+        auto shift = width() == 1 ? ::format("({0})", var_name(sliced_var_))
+                                  : ::format("(({0}) * {1})", var_name(sliced_var_), width());
+        return shifted_slice(parent_var, var_name(parent_var), width(), shift);
     }
     auto const [parent, offset] = skip_part_select(parent_var);
-    auto index = sliced_var_->to_string();
+    auto index = var_name(sliced_var_);
     if (offset > 0) index = ::format("({0}) + {1}", index, offset);
-    return ::format("{0}[{1}]", parent->to_string(), index);
+    return ::format("{0}[{1}]", var_name(parent), index);
 }
 
 void resize_var(Expr *expr, uint32_t target_width, Var *var, bool left) {
@@ -1145,25 +1161,35 @@ std::string static operand_to_string(const Var *var, std::string str) {
     return str;
 }
 
-std::string VarCasted::to_string() const {
+std::string VarCasted::to_string() const { return cast_to_string(parent_var_->to_string()); }
+
+std::string VarCasted::handle_name(bool ignore_top) const {
+    return cast_to_string(parent_var_->handle_name(ignore_top));
+}
+
+std::string VarCasted::handle_name(kratos::Generator *scope) const {
+    return cast_to_string(parent_var_->handle_name(scope));
+}
+
+std::string VarCasted::cast_to_string(const std::string &parent_name) const {
     if (cast_type_ == VarCastType::Signed) {
-        return ::format("signed'({0})", parent_var_->to_string());
+        return ::format("signed'({0})", parent_name);
     } else if (cast_type_ == VarCastType::Unsigned) {
-        return ::format("unsigned'({0})", parent_var_->to_string());
+        return ::format("unsigned'({0})", parent_name);
     } else if (cast_type_ == VarCastType::Enum) {
         if (!enum_type_) {
             throw UserException(
                 ::format("Variable {0} is casted as a enum without "
                          "enum type information",
-                         parent_var_->to_string()));
+                         parent_name));
         }
         auto const &enum_name = enum_type_->name;
-        return ::format("{0}'({1})", enum_name, parent_var_->to_string());
+        return ::format("{0}'({1})", enum_name, parent_name);
     } else if (cast_type_ == VarCastType::Resize) {
         return ::format("{0}'({1})", target_width_,
-                        operand_to_string(parent_var_, parent_var_->to_string()));
+                        operand_to_string(parent_var_, parent_name));
     } else {
-        return parent_var_->to_string();
+        return parent_name;
     }
 }
 
@@ -2102,11 +2128,12 @@ shared_ptr<Var> PackedSlice::slice_var(std::shared_ptr<Var> var) {
     }
 }
 
-std::string PackedSlice::to_string() const {
+std::string PackedSlice::slice_to_string(
+    const std::function<std::string(const Var *)> &var_name) const {
     if (!def_) {
-        return VarSlice::to_string();
+        return VarSlice::slice_to_string(var_name);
     } else {
-        return ::format("{0}.{1}", parent_var->to_string(), def_->name);
+        return ::format("{0}.{1}", var_name(parent_var), def_->name);
     }
 }
 
diff --git a/src/expr.hh b/src/expr.hh
index 5e7c46b..b64c289 100644
--- a/src/expr.hh
+++ b/src/expr.hh
@@ -1,6 +1,7 @@
 #ifndef KRATOS_EXPR_HH
 #define KRATOS_EXPR_HH
 
+#include <functional>
 #include <map>
 #include <optional>
 #include <set>
@@ -294,6 +295,9 @@ public:
     Var *&parent_var() { return parent_var_; }
 
     std::string to_string() const override;
+    using Var::handle_name;
+    std::string handle_name(bool ignore_top) const override;
+    std::string handle_name(Generator *scope) const override;
 
     VarCastType cast_type() const { return cast_type_; }
 
@@ -335,6 +339,8 @@ private:
     VarCastType cast_type_;
     // only used for enum
     Enum *enum_type_ = nullptr;
+    std::string cast_to_string(const std::string &parent_name) const;
+
     // only used for resize
     uint32_t target_width_ = 0;
 };
@@ -360,6 +366,9 @@ public:
     void accept(IRVisitor *visitor) override { visitor->visit(this); }
 
     std::string to_string() const override;
+    using Var::handle_name;
+    std::string handle_name(bool ignore_top) const override;
+    std::string handle_name(Generator *scope) const override;
 
     // an expression that is sliced changes its generator when its operands are replaced
     Generator *generator() const override { return parent_var->generator(); }
@@ -398,6 +407,10 @@ protected:
     std::pair<uint32_t, uint32_t> op_;
 
     const PackedStruct *struct_ = nullptr;
+
+    // the text of the slice, variables have the names given by the function
+    virtual std::string slice_to_string(
+        const std::function<std::string(const Var *)> &var_name) const;
 };
 
 struct VarVarSlice : public VarSlice {
@@ -405,8 +418,6 @@ struct VarVarSlice : public VarSlice {
 public:
     VarVarSlice(Var *parent, Var *slice);
 
-    std::string to_string() const override;
-
     void add_sink(const std::shared_ptr<AssignStmt> &stmt) override;
     void add_source(const std::shared_ptr<AssignStmt> &stmt) override;
     void remove_source(const std::shared_ptr<AssignStmt> &stmt) override;
@@ -421,6 +432,10 @@ public:
 
     void accept(IRVisitor *visitor) override { visitor->visit(this); }
 
+protected:
+    std::string slice_to_string(
+        const std::function<std::string(const Var *)> &var_name) const override;
+
 private:
     Var *sliced_var_;
 };
@@ -579,8 +594,6 @@ public:
         return VarSlice::operator[](member_name);
     }
 
-    std::string to_string() const override;
-
     std::shared_ptr<Var> slice_var(std::shared_ptr<Var> var) override;
 
     bool is_struct() const override {
@@ -589,6 +602,10 @@ public:
 
     [[nodiscard]] const PackedStructFieldDef *def() const { return def_; }
 
+protected:
+    std::string slice_to_string(
+        const std::function<std::string(const Var *)> &var_name) const override;
+
 private:
     void set_up(const PackedStruct &struct_, const std::string &member_name);
     const PackedStructFieldDef *def_ = nullptr;
-- 
2.43.0


From 69c498f171eaec8f7111b8480662bd13211967d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:08 +0000
Subject: [PATCH 101/105] fix: latch blocks are visited

---
 src/stmt.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stmt.hh b/src/stmt.hh
index 2d0f10e..4ce6cef 100644
--- a/src/stmt.hh
+++ b/src/stmt.hh
@@ -359,6 +359,8 @@ class LatchStmtBlock : public StmtBlock {
 public:
     LatchStmtBlock() : StmtBlock(StatementBlockType::Latch) {}
 
+    void accept(IRVisitor *visitor) override { visitor->visit(this); }
+
     std::shared_ptr<Stmt> clone() const override;
 };
 
-- 
2.43.0


From 03000daef22065d8c39cb765785ba78f00bdcab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:08 +0000
Subject: [PATCH 102/105] fix: switch cases can be added without statements and
 with a label of the same value

---
 src/stmt.cc | 33 ++++++++++++++++++---------------
 src/stmt.hh |  3 +++
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/stmt.cc b/src/stmt.cc
index 4b6d4b3..4e6e599 100644
--- a/src/stmt.cc
+++ b/src/stmt.cc
@@ -543,37 +543,40 @@ void SwitchStmt::set_parent(IRNode *parent) {
     }
 }
 
-ScopedStmtBlock &SwitchStmt::add_switch_case(const std::shared_ptr<Const> &switch_case,
-                                             const std::shared_ptr<Stmt> &stmt) {
-    stmt->set_parent(this);
-    std::shared_ptr<ScopedStmtBlock> switch_stmt;
+ScopedStmtBlock &SwitchStmt::case_block(const std::shared_ptr<Const> &switch_case) {
     for (auto const &[c, s] : body_) {
         if ((!switch_case && !c) || (switch_case && c && c->value() == switch_case->value())) {
-            switch_stmt = s;
-            break;
+            return *s;
         }
     }
-    if (!switch_stmt) {
-        switch_stmt = std::make_shared<ScopedStmtBlock>();
-        switch_stmt->set_parent(this);
-        body_.emplace(switch_case, switch_stmt);
-    }
+    auto switch_stmt = std::make_shared<ScopedStmtBlock>();
+    switch_stmt->set_parent(this);
+    body_.emplace(switch_case, switch_stmt);
+    return *switch_stmt;
+}
+
+ScopedStmtBlock &SwitchStmt::add_switch_case(const std::shared_ptr<Const> &switch_case,
+                                             const std::shared_ptr<Stmt> &stmt) {
+    stmt->set_parent(this);
+    auto &switch_stmt = case_block(switch_case);
     if (stmt->type() == StatementType::Block) {
         // merge the block
         auto blk = stmt->as<StmtBlock>();
         for (auto const &s : *blk) {
-            switch_stmt->add_stmt(s);
+            switch_stmt.add_stmt(s);
         }
     } else {
-        switch_stmt->add_stmt(stmt);
+        switch_stmt.add_stmt(stmt);
     }
-    return *switch_stmt;
+    return switch_stmt;
 }
 
 ScopedStmtBlock &SwitchStmt::add_switch_case(const std::shared_ptr<Const> &switch_case,
                                              const std::vector<std::shared_ptr<Stmt>> &stmts) {
+    // there may be no statements, or another constant of the same value
+    auto &block = case_block(switch_case);
     for (const auto &stmt : stmts) add_switch_case(switch_case, stmt);
-    return *body_.at(switch_case);
+    return block;
 }
 
 ScopedStmtBlock &SwitchStmt::add_switch_case(Const &switch_case,
diff --git a/src/stmt.hh b/src/stmt.hh
index 4ce6cef..cf50866 100644
--- a/src/stmt.hh
+++ b/src/stmt.hh
@@ -229,6 +229,9 @@ public:
     void clear() override;
 
 private:
+    // the block of the case, which is created if there is none
+    ScopedStmtBlock &case_block(const std::shared_ptr<Const> &switch_case);
+
     std::shared_ptr<Var> target_;
     std::shared_ptr<AssignStmt> target_stmt_;
     // default case will be indexed as nullptr
-- 
2.43.0


From 63c8646e3030d4e64a290f6e84310129a1dc1a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:08 +0000
Subject: [PATCH 103/105] fix: variables of a property were written with the
 path of their own module

---
 src/tb.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tb.cc b/src/tb.cc
index 9a45d6e..235b169 100644
--- a/src/tb.cc
+++ b/src/tb.cc
@@ -46,11 +46,11 @@ std::string Sequence::to_string(const std::function<std::string(Var *)> &var_str
     auto wait_str = wait_to_str();
     std::string seq;
     if (wait_str.empty())
-        seq = var_->handle_name(true);
+        seq = var_str(var_);
     else
         seq = ::format("{0} {1}", wait_str, var_str(var_));
     if (next_) {
-        auto next = next_->to_string();
+        auto next = next_->to_string(var_str);
         seq = ::format("{0} |-> {1}", seq, next);
     }
     return seq;
-- 
2.43.0


From f8dfdef4dfd3c7c3b36055056f0f009c222b3b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:08 +0000
Subject: [PATCH 104/105] fix: events in latch, initial, final and function
 blocks are removed

---
 src/event.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/event.cc b/src/event.cc
index cd976e3..904529a 100644
--- a/src/event.cc
+++ b/src/event.cc
@@ -85,6 +85,10 @@ public:
     void visit(ScopedStmtBlock *block) override { process_block(block); }
     void visit(SequentialStmtBlock *block) override { process_block(block); }
     void visit(CombinationalStmtBlock *block) override { process_block(block); }
+    void visit(LatchStmtBlock *block) override { process_block(block); }
+    void visit(InitialStmtBlock *block) override { process_block(block); }
+    void visit(FinalStmtBlock *block) override { process_block(block); }
+    void visit(FunctionStmtBlock *block) override { process_block(block); }
 
     static void process_block(StmtBlock *block) {
         auto stmt_count = block->size();
-- 
2.43.0


From 023ac2a39928639a09963384a6480dd52689c087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:08 +0000
Subject: [PATCH 105/105] fix: empty blocks in functions are removed

---
 src/optimize.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/optimize.cc b/src/optimize.cc
index c313c39..4847c82 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -1045,6 +1045,10 @@ public:
             stmt->clear();
             top->remove_stmt(stmt);
         }
+        // functions stay, they may still be called
+        for (auto const& [name, func] : top->functions()) {
+            process(std::static_pointer_cast<StmtBlock>(func));
+        }
     }
 
 private:
-- 
2.43.0

