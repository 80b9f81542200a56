From a26bdcabd948f38735a476d0673799506d877266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:46 +0000
Subject: [PATCH 01/15] fix: post the negation of a strict nonlinear constraint
 under the negated literal

---
 libclingcon/src/propagator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/src/propagator.cc b/libclingcon/src/propagator.cc
index 06036f5..27c502e 100644
--- a/libclingcon/src/propagator.cc
+++ b/libclingcon/src/propagator.cc
@@ -84,7 +84,7 @@ class ConstraintBuilder final : public AbstractConstraintBuilder {
         propagator_.add_constraint(std::make_unique<NonlinearConstraint>(lit, co_ab, var_a, var_b, co_c, var_c, rhs));
         if (strict) {
             propagator_.add_constraint(std::make_unique<NonlinearConstraint>(
-                lit, safe_inv(co_ab), var_a, var_b, safe_inv(co_c), var_c, safe_inv(safe_add(rhs, 1))));
+                -lit, safe_inv(co_ab), var_a, var_b, safe_inv(co_c), var_c, safe_inv(safe_add(rhs, 1))));
         }
         return true;
     }
-- 
2.43.0


From cde4e7a059d0157b1c9c962fbe8e8bd7668048be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:46 +0000
Subject: [PATCH 02/15] fix: reject nonlinear sums with more than one nonlinear
 term and accept linear terms in any position

---
 libclingcon/src/parsing.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/src/parsing.cc b/libclingcon/src/parsing.cc
index 13b3c2a..4e60221 100644
--- a/libclingcon/src/parsing.cc
+++ b/libclingcon/src/parsing.cc
@@ -478,7 +478,7 @@ auto simplify(NonlinearTermVec &vec, bool drop_zero) -> val_t {
             var_c = vars.front();
         }
         if (vars.size() == 2) {
-            check_syntax(co_c == 0, "nonlinear sums can have at most one nonlinear term");
+            check_syntax(co_ab == 0, "nonlinear sums can have at most one nonlinear term");
             co_ab = co;
             var_a = vars.front();
             var_b = vars.back();
-- 
2.43.0


From e550f426dca45ef91c1c8273d2ebd5a82671ea84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:46 +0000
Subject: [PATCH 03/15] fix: keep the sign of the constant offset of the
 objective in multi-shot solving

---
 libclingcon/src/propagator.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libclingcon/src/propagator.cc b/libclingcon/src/propagator.cc
index 27c502e..b82cfd6 100644
--- a/libclingcon/src/propagator.cc
+++ b/libclingcon/src/propagator.cc
@@ -252,7 +252,8 @@ class ConstraintBuilder final : public AbstractConstraintBuilder {
             for (auto elem : *minimize_) {
                 minimize_elems_.emplace_back(elem);
             }
-            minimize_elems_.emplace_back(minimize_->adjust(), INVALID_VAR);
+            // Note: simplify stores the negated sum of the constants
+            minimize_elems_.emplace_back(safe_inv(minimize_->adjust()), INVALID_VAR);
         }
         // simplify minimize
         if (!minimize_elems_.empty()) {
-- 
2.43.0


From 81fe1c7034d0861ff23b9ac4d0f8c7fafe4c4658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:46 +0000
Subject: [PATCH 04/15] fix: skip variables without symbols when iterating over
 assignments

---
 libclingcon/src/clingcon.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/src/clingcon.cc b/libclingcon/src/clingcon.cc
index f7e15b3..6f33996 100644
--- a/libclingcon/src/clingcon.cc
+++ b/libclingcon/src/clingcon.cc
@@ -610,7 +610,7 @@ extern "C" auto clingcon_assignment_next(clingcon_theory_t *theory, uint32_t thr
     auto const &map = theory->propagator.var_map();
     auto it = map.lower_bound(*index);
     if (it != map.end()) {
-        *index = *index + 1;
+        *index = it->first + 1;
         return true;
     }
     return false;
-- 
2.43.0


From b97d5bcba3dd7efa5c4654955862268c01a2cc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:46 +0000
Subject: [PATCH 05/15] fix: determine whether to register the decide callback
 for each theory instance

---
 libclingcon/src/clingcon.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libclingcon/src/clingcon.cc b/libclingcon/src/clingcon.cc
index 6f33996..6b86c21 100644
--- a/libclingcon/src/clingcon.cc
+++ b/libclingcon/src/clingcon.cc
@@ -347,7 +347,9 @@ extern "C" auto clingcon_register(clingcon_theory_t *theory, clingo_control_t *c
         has_heuristic = sconfig.heuristic != Heuristic::None;
     }
 
-    static clingo_propagator_t propagator = {init, propagate, undo, check, has_heuristic ? decide : nullptr};
+    static clingo_propagator_t propagator_default = {init, propagate, undo, check, nullptr};
+    static clingo_propagator_t propagator_decide = {init, propagate, undo, check, decide};
+    auto &propagator = has_heuristic ? propagator_decide : propagator_default;
     return clingo_control_add(control, "base", nullptr, 0, Clingcon::THEORY) &&
            clingo_control_register_propagator(control, &propagator, &theory->propagator, false);
 }
-- 
2.43.0


From bed0a8ff4a36bada268b06bb986a6a3d19c3203a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:46 +0000
Subject: [PATCH 06/15] fix: do not shift difference constraints whose negation
 is not supported by the theory grammar

---
 libclingcon/src/parsing.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libclingcon/src/parsing.cc b/libclingcon/src/parsing.cc
index 4e60221..654e94f 100644
--- a/libclingcon/src/parsing.cc
+++ b/libclingcon/src/parsing.cc
@@ -119,6 +119,12 @@ auto shift_rule(Clingo::AST::Node ast) -> Clingo::AST::Node {
         if (atom.type() != Type::TheoryAtom || !match(atom.get<Node>(Attribute::Term), "sum", "diff")) {
             continue;
         }
+        // Note: the negation of a difference constraint cannot be expressed as a
+        // difference constraint in the head.
+        if (match(atom.get<Node>(Attribute::Term), "diff") &&
+            static_cast<Sign>(lit.get<int>(Attribute::Sign)) != Sign::Negation) {
+            continue;
+        }
         auto ret = ast.copy();
         auto ret_bd = ret.get<NodeVector>(Attribute::Body);
         auto jt = ret_bd.begin() + (it - body.begin());
-- 
2.43.0


From 8c25fa5da861af3e3e373faf40aafe90c4bec046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:46 +0000
Subject: [PATCH 07/15] fix: propagate elements of distinct constraints that
 are assigned initially

---
 libclingcon/src/constraints.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index 7d41133..52ee745 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -823,6 +823,9 @@ class DistinctConstraintState final : public AbstractConstraintState {
             for (auto [co, var] : element) {
                 solver.add_var_watch(var, co > 0 ? idx + 1 : -idx - 1, *this);
             }
+            // Note: elements that are assigned initially do not receive updates.
+            mark_todo_(1, idx);
+            mark_todo_(-1, idx);
             ++idx;
         }
     }
-- 
2.43.0


From b0b3b954b04f28ffdc3e010cb6e928ce69ba3464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:46 +0000
Subject: [PATCH 08/15] fix: treat empty domains as inconsistent

---
 libclingcon/src/solver.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libclingcon/src/solver.cc b/libclingcon/src/solver.cc
index e55c7ba..8f71b07 100644
--- a/libclingcon/src/solver.cc
+++ b/libclingcon/src/solver.cc
@@ -1033,6 +1033,10 @@ auto Solver::add_dom(AbstractClauseCreator &cc, lit_t lit, var_t var, IntervalSe
     if (ass.is_true(lit)) {
         lit = TRUE_LIT;
     }
+    // there is no value to choose from
+    if (domain.empty()) {
+        return cc.add_clause({-lit});
+    }
     auto &vs = var_state(var);
 
     std::optional<val_t> py;
-- 
2.43.0


From 961a635440d71cf13f7bc971f820aaa5d24ed312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:46 +0000
Subject: [PATCH 09/15] fix: evaluate powers with base zero

---
 libclingcon/src/parsing.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/src/parsing.cc b/libclingcon/src/parsing.cc
index 654e94f..60d8af4 100644
--- a/libclingcon/src/parsing.cc
+++ b/libclingcon/src/parsing.cc
@@ -259,7 +259,7 @@ template <class F>
 }
 
 auto safe_pow(val_t a, val_t b) -> val_t {
-    if (a == 0) {
+    if (a == 0 && b < 0) {
         throw std::overflow_error("integer overflow");
     }
     auto ret = std::pow(static_cast<double>(a), b);
-- 
2.43.0


From 249d0c5dd0ef1672676920adb515f24263859c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:54 +0000
Subject: [PATCH 10/15] fix: include the literal of nonlinear constraints in
 reasons

---
 libclingcon/src/constraints.cc | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index 52ee745..1782b33 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -1416,9 +1416,11 @@ class NonlinearConstraintState : public AbstractConstraintState {
     [[nodiscard]] auto propagate(Solver &solver, AbstractClauseCreator &cc, bool check_state) -> bool override {
         // TODO: This implementation is just a first shot that has to be
         // refined further.
-        static_cast<void>(cc);
         static_cast<void>(check_state);
 
+        auto ass = cc.assignment();
+        lit_t clit = constraint_.literal();
+
         auto &vs_x = solver.var_state(constraint_.var_x());
         auto &vs_y = solver.var_state(constraint_.var_y());
         nsum_t co_a = constraint_.co_a();
@@ -1462,6 +1464,9 @@ class NonlinearConstraintState : public AbstractConstraintState {
             // (or negative) the term a*b should behave monotonely.
             // std::cerr << "  the constraint is conflicting" << std::endl;
             auto &reason = solver.temp_reason();
+            if (!ass.is_fixed(clit)) {
+                reason.emplace_back(-clit);
+            }
             reason.emplace_back(-solver.get_literal(cc, vs_x, vs_x.upper_bound()));
             reason.emplace_back(solver.get_literal(cc, vs_x, vs_x.lower_bound() - 1));
             reason.emplace_back(-solver.get_literal(cc, vs_y, vs_y.upper_bound()));
@@ -1476,6 +1481,10 @@ class NonlinearConstraintState : public AbstractConstraintState {
             return cc.add_clause(reason);
         }
 
+        if (!ass.is_true(clit)) {
+            return true;
+        }
+
         // TODO: the code has to be refined.
         // Some first throw to propagate the linear term. This should be quite
         // similar to the propagation of linear constraints.
@@ -1493,6 +1502,9 @@ class NonlinearConstraintState : public AbstractConstraintState {
                 if (bound_z < upper_z) {
                     // std::cerr << "we got a new lower bound for y: " << bound_y << " < " << upper_y << std::endl;
                     auto &reason = solver.temp_reason();
+                    if (!ass.is_fixed(clit)) {
+                        reason.emplace_back(-clit);
+                    }
                     reason.emplace_back(-solver.get_literal(cc, vs_x, vs_x.upper_bound()));
                     reason.emplace_back(solver.get_literal(cc, vs_x, vs_x.lower_bound() - 1));
                     reason.emplace_back(-solver.get_literal(cc, vs_y, vs_y.upper_bound()));
@@ -1509,6 +1521,9 @@ class NonlinearConstraintState : public AbstractConstraintState {
                 if (bound_z > upper_z) {
                     // std::cerr << "we got a new lower bound for y: " << bound_z << " > " << upper_z << std::endl;
                     auto &reason = solver.temp_reason();
+                    if (!ass.is_fixed(clit)) {
+                        reason.emplace_back(-clit);
+                    }
                     reason.emplace_back(-solver.get_literal(cc, vs_x, vs_x.upper_bound()));
                     reason.emplace_back(solver.get_literal(cc, vs_x, vs_x.lower_bound() - 1));
                     reason.emplace_back(-solver.get_literal(cc, vs_y, vs_y.upper_bound()));
-- 
2.43.0


From 372c256294b2da959caa8dad849f8eeac4acda82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:31 +0000
Subject: [PATCH 11/15] fix: prevent signed overflows when summing up durations
 of disjoint constraints

---
 libclingcon/src/constraints.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index 1782b33..d8396db 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -1616,7 +1616,7 @@ class DisjointConstraintState final : public AbstractConstraintState {
         val_t last_left;
         val_t last_right;
         val_t weight;
-        val_t u;
+        sum_t u;
     };
 
     enum class PropagateType { Lower, Upper };
@@ -1645,7 +1645,7 @@ class DisjointConstraintState final : public AbstractConstraintState {
 
         [[nodiscard]] static auto weight(It i) -> val_t { return i->weight; }
 
-        [[nodiscard]] static auto u(It i) -> val_t & { return i->u; }
+        [[nodiscard]] static auto u(It i) -> sum_t & { return i->u; }
 
         [[nodiscard]] static auto changed(Interval const &x) -> bool {
             return x.left != x.last_left || x.right != x.last_right;
-- 
2.43.0


From 21ef82d78c5db1f438fb44c5c1f71104534b1cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 12/15] fix: watch order literals in threads added between
 solve steps

---
 libclingcon/clingcon/solver.hh |  3 +++
 libclingcon/src/propagator.cc  |  4 ++++
 libclingcon/src/solver.cc      | 10 ++++++++++
 3 files changed, 17 insertions(+)

diff --git a/libclingcon/clingcon/solver.hh b/libclingcon/clingcon/solver.hh
index 1696306..6bb9db9 100644
--- a/libclingcon/clingcon/solver.hh
+++ b/libclingcon/clingcon/solver.hh
@@ -733,6 +733,9 @@ class Solver {
     //! Should be called before solving/copying states.
     void shrink_to_fit();
 
+    //! Watch the order literals of the solver.
+    void watch_literals(AbstractClauseCreator &cc) const;
+
     //! Copy order literals and propagation state from the given `master` state
     //! to the current state.
     //!
diff --git a/libclingcon/src/propagator.cc b/libclingcon/src/propagator.cc
index b82cfd6..47562e1 100644
--- a/libclingcon/src/propagator.cc
+++ b/libclingcon/src/propagator.cc
@@ -433,6 +433,10 @@ void Propagator::init(Clingo::PropagateInit &init) {
     for (auto &constraint : constraints_) {
         cc.add_watch(constraint->literal());
     }
+    // threads added since the last step do not inherit the watches of previous steps
+    if (solvers_.size() < static_cast<size_t>(init.number_of_threads())) {
+        master.watch_literals(cc);
+    }
     if (!cc.commit()) {
         return;
     }
diff --git a/libclingcon/src/solver.cc b/libclingcon/src/solver.cc
index 8f71b07..38500d0 100644
--- a/libclingcon/src/solver.cc
+++ b/libclingcon/src/solver.cc
@@ -378,6 +378,16 @@ void Solver::shrink_to_fit() {
     lit2cs_.rehash(0);
 }
 
+void Solver::watch_literals(AbstractClauseCreator &cc) const {
+    for (size_t offset = 0; offset < litmap_.size(); ++offset) {
+        if (auto const &olit = litmap_[offset]; !olit.invalid()) {
+            auto lit = olit.map_lit(offset);
+            cc.add_watch(lit);
+            cc.add_watch(-lit);
+        }
+    }
+}
+
 void Solver::copy_state(Solver const &master) {
     // just to be thorough
     split_last_ = master.split_last_;
-- 
2.43.0


From 5953ff32c3d342612dfaa159a07fad23e1986eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 13/15] fix: round up instead of down when dividing in ceildiv

The wrong rounding excluded values when propagating upper bounds of linear
terms with negative coefficients in nonlinear constraints.
---
 libclingcon/clingcon/util.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/clingcon/util.hh b/libclingcon/clingcon/util.hh
index 74ab195..5af3631 100644
--- a/libclingcon/clingcon/util.hh
+++ b/libclingcon/clingcon/util.hh
@@ -88,7 +88,7 @@ template <typename I> auto floordiv(I n, I m) -> I {
 template <typename I> auto ceildiv(I n, I m) -> I {
     using std::div;
     auto a = div(n, m);
-    if (((n < 0) ^ (m < 0)) && a.rem != 0) {
+    if ((n < 0) == (m < 0) && a.rem != 0) {
         a.quot++;
     }
     return a.quot;
-- 
2.43.0


From aebea5302f45251e532367ad93439ce097c0f6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:02 +0000
Subject: [PATCH 14/15] fix: rewrite theory atoms whose name is a symbolic term

---
 libclingcon/src/parsing.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libclingcon/src/parsing.cc b/libclingcon/src/parsing.cc
index 60d8af4..779c3be 100644
--- a/libclingcon/src/parsing.cc
+++ b/libclingcon/src/parsing.cc
@@ -73,7 +73,7 @@ using Clingcon::match;
 template <typename... CStrs> auto match(Clingo::AST::Node const &ast, CStrs... strs) -> bool {
     using namespace Clingo::AST;
     if (ast.type() == Type::SymbolicTerm) {
-        auto sym = ast.get<Clingo::Symbol>(Attribute::Term);
+        auto sym = ast.get<Clingo::Symbol>(Attribute::Symbol);
         return (sym.match(strs, 0) || ...);
     }
     if (ast.type() == Type::Function) {
@@ -148,12 +148,12 @@ auto tag_terms(Clingo::AST::Node &ast, char const *tag) -> Clingo::AST::Node {
     using namespace Clingo::AST;
     if (ast.type() == Type::SymbolicTerm) {
         auto ret = ast.copy();
-        auto term = ast.get<Clingo::Symbol>(Attribute::Term);
+        auto term = ast.get<Clingo::Symbol>(Attribute::Symbol);
         check_syntax(term.type() == Clingo::SymbolType::Function);
         std::string name{"__"};
         name += term.name();
         name += tag;
-        ast.set(Attribute::Symbol, Clingo::Function(name.c_str(), {}));
+        ret.set(Attribute::Symbol, Clingo::Function(name.c_str(), {}));
         return ret;
     }
     if (ast.type() == Type::Function) {
-- 
2.43.0


From ef31a2298203158d641dfc805b0770addd9f82d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:44 +0000
Subject: [PATCH 15/15] fix: propagate upper bounds that exceed the slack by
 one

The first violating value of a variable with positive coefficient was
skipped if it equaled the upper bound (the symmetric case for negative
coefficients is right), so that values violating a constraint were kept.
---
 libclingcon/src/constraints.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index d8396db..62eeae6 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -212,7 +212,7 @@ template <bool tagged, typename T> class SumConstraintStateImpl final : public T
                 value_r = vs_r.lower_bound() + delta_r;
                 assert(slack - co_r * delta_r < 0 && 0 <= slack - co_r * (delta_r - 1));
                 // values above the upper bound are already true;
-                if (value_r >= vs_r.upper_bound()) {
+                if (value_r > vs_r.upper_bound()) {
                     continue;
                 }
                 // get the literal of the value;
-- 
2.43.0

