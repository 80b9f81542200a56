prop("C01", "Solver is not used after it reported a conflict",
     "Once the ASP solver tells the theory, in reply to a clause, literal or propagate request, that a conflict (or unsatisfiability) arose, the theory makes no further request to that solver before its callback returns, and does not go on as if nothing had happened. The result of every such request is checked and passed on to the callback. Propagation never gives up without having submitted a clause that is violated.",
     ["inputs", "schedules", "histories"],
     "every program, every propagation/check/initialization history, every outcome of every request that can report a conflict, on every path of the callbacks",
     "Tests only follow the paths their programs happen to take; a dropped conflict mostly shows up as a lost clause much later or as a clasp assertion disabled in release builds.",
     [SRC + "propagator.cc", SRC + "solver.cc", SRC + "constraints.cc", HDR + "base.hh"],
     [("early returns on failed add_clause/add_literal/propagate", "Propagator::init/propagate/check, Solver::*, AbstractConstraintState::propagate/translate"),
      ("clause creators wrapping the control objects", "ControlClauseCreator, InitClauseCreator in base.hh")],
     "path-sensitive typestate analysis of the solver handles over the resolved call graph",
     "Every path (loops abstracted) of the three callbacks and all functions they reach, with both outcomes of every request; over-approximates feasible paths.")

prop("C02", "No exception crosses the C interface; errors are reported, not swallowed",
     "No C++ exception ever leaves a function of the C interface or a callback handed to the solver: a failure is recorded as the current error and the function returns false, and it returns true when its work completed. The outcome of every fallible C call or user callback is passed on rather than dropped. Every solver or application hook registered by the library forwards to the theory operation it stands for.",
     ["inputs", "fault_sequences"],
     "all inputs and all points at which an allocation, a parse error, an overflow or a user callback may fail in any exported function or registered callback",
     "Tests trigger a handful of errors; an unguarded path terminates the host process only when the specific failure occurs there, and a dropped result is silent.",
     [SRC + "clingcon.cc", "libclingcon/clingcon.h", HDR + "parsing.hh", HDR + "propagator.hh"],
     [("CLINGCON_TRY/CLINGCON_CATCH and handle_error", "clingcon.cc"), ("static callback tables", "clingcon_register in clingcon.cc")],
     "exception-escape and dropped-result analysis over the resolved call graph",
     "Every exported function, registered callback and C call site; the exceptions standard containers may throw are modelled by a table.")

prop("C03", "Solver threads do not share mutable theory state",
     "While search runs with several threads, the callbacks of one thread modify only the theory state belonging to that thread; constraints, variable tables, literal sentinels, configuration and other data common to all threads are read only, except for atomic values. Each callback selects the state of exactly the thread that called it, and no static or global object is modified. The objective bound shared by threads is only accessed atomically.",
     ["schedules", "configurations"],
     "all interleavings of the propagate/undo/check/decide/model callbacks over any number of threads",
     "The stable tests run few threads on tiny programs, so a data race is neither provoked nor observable; no schedule is controlled.",
     [SRC + "propagator.cc", SRC + "solver.cc", HDR + "propagator.hh", HDR + "solver.hh"],
     [("per-thread solvers, master solver copied on check", "Propagator::solvers_/master_ in propagator.cc"), ("atomic objective bound", "Propagator::minimize_bound_")],
     "interprocedural effect and ownership analysis of concurrent callbacks",
     "Transitive write effects per (record, field) over all functions reachable from concurrent callbacks; flow of the thread index on every path.")

prop("C09", "Order literals are registered, linked, and watched",
     "Every literal that is given to a value of a variable is entered in the literal map under this variable, value and literal, linked with the neighbouring order literals in both directions, and watched in both polarities by all threads; or it is a fact, which is queued for propagation with its sign, variable, value and neighbour. Literals are only given to values within the domain at level 0 that do not have one, values outside of it stand for true and false, and no literal is made to stand for two values. When a literal is dropped its neighbours are linked to each other. The literals of all constraints, including those added by translation, are watched; threads added in a later step watch the order literals they inherit.",
     ["inputs", "histories", "schedules"],
     "all programs, all sequences of introducing and dropping order literals, all numbers of threads per step",
     "A literal that is not watched, or linked wrongly, silently weakens propagation or loses conflicts only in particular search histories or threads.",
     [SRC + "solver.cc", SRC + "propagator.cc", HDR + "base.hh", HDR + "solver.hh"],
     [("creation of order literals", "Solver::get_literal, update_literal, add_simple, update_domain_ in solver.cc"), ("linking", "Solver::update_litmap_"), ("watches", "Propagator::init, Solver::watch_literals, clause creators in base.hh")],
     "path-sensitive symbolic analysis of order literal creation",
     "All paths of all functions giving literals to values; that VarState finds the right neighbours (its search functions) is not decided.")

prop("C10", "Clauses and weight constraints reach clingo unchanged",
     "Clauses submitted during search reach clingo with all their literals and with the type (learnt, static, volatile) they were submitted with, and success is only reported if clingo accepted them. Clauses submitted during initialization are stored with all their literals and handed over clause by clause before clingo propagates, each of them once. A weight constraint is only dropped if it is satisfied already (a true literal with an implication to the left, a false literal with an implication to the right) and is otherwise handed over in an equivalent form: lit for a sum of at most b becomes -lit for a sum of at least b+1 with the implication reversed. Literals of the objective are handed over with their weight and priority.",
     ["inputs", "histories"],
     "all sequences of clauses, weight constraints, and objective literals submitted in all steps",
     "A clause, weight constraint, or objective literal lost, repeated, or strengthened between the propagator and clingo changes the answers for programs whose constraints are handed over this way only.",
     [HDR + "base.hh"],
     [("forwarding", "ControlClauseCreator::add_clause in base.hh"), ("collecting and handing over", "InitClauseCreator::{add_clause,add_weight_constraint,add_minimize,commit,propagate} in base.hh")],
     "path-sensitive symbolic analysis of the clause creators",
     "The literals of one clause are only checked to be a range that starts after the previous clause; the end of the range is checked for constant offsets.")

prop("C11", "Single-variable constraints and domains are encoded exactly",
     "A constraint co*x <= rhs over a single variable is tied to exactly the order literal it stands for, x <= floor(rhs/co) for positive and not x <= ceil(rhs/co)-1 for negative coefficients, for all signs and remainders: the constraint's literal implies it, and if the constraint is an equivalence it also implies the constraint's literal, but not otherwise. The constraint is skipped only if it is false and no equivalence; its literal serves as order literal only for equivalences and with the right sign, through a fresh equivalent literal where it already serves another value. A domain statement excludes exactly the values below the first interval, above the last and between two intervals, subject to its literal, and an empty domain excludes the literal. Order literals are made permanent facts only at level 0, with the truth value they have, and only if what implies them is true. Bounds of other threads are adopted whenever they are tighter, as they are.",
     ["inputs"],
     "all coefficients, right-hand sides, domains, literals with any truth value, all existing order literals",
     "Rounding, signs, strictness and facts interact: a wrong combination shows only for negative coefficients with remainders, literals decided at level 0, or literals that already stand for a value.",
     [SRC + "solver.cc"],
     [("single-variable constraints", "Solver::add_simple in solver.cc"), ("domains", "Solver::add_dom in solver.cc"), ("facts", "Solver::update_literal in solver.cc"), ("bounds of other threads", "Solver::update_bounds in solver.cc")],
     "path-sensitive symbolic analysis of the encodings, compared with the definition of the constraints",
     "The functions floordiv and ceildiv are taken to round as named; the coefficient is taken to be non-zero.")

prop("C12", "Assigned order literals become bounds of their variables",
     "Whenever the solver reports that a literal became true, it is looked up both as an order literal (variable <= value) and as the complement of one: in the first case the upper bound of the variable becomes at most the value, in the second its lower bound at least the value plus one, and the bound is never left weaker. Bounds are only tightened and never cross; a value beyond the opposite bound yields a conflict clause made of the complement of the literal and of the opposite bound only. The bound is passed on to the succeeding (upper bounds) or preceding (lower bounds) order literals of the variable, each implied by the literal or by a literal it has implied before, up to the first that is true already. Order literals fixed at level 0 are queued as facts with their sign, and each queued fact is turned into the bound it stands for before it is dropped.",
     ["inputs", "histories"],
     "all literals, values, existing bounds and existing order literals, at all decision levels",
     "A bound that is missed or off by one shows only for variables whose order literals were introduced in a certain order, or for literals fixed at level 0 after some search.",
     [SRC + "solver.cc"],
     [("propagation of a literal", "Solver::propagate_ in solver.cc"), ("bounds", "Solver::update_upper_ and Solver::update_lower_ in solver.cc"), ("order literals of a variable", "Solver::propagate_variables_ in solver.cc"), ("facts", "Solver::update_domain_ in solver.cc")],
     "path-sensitive symbolic analysis from the literal to the bounds, inlining the traversal of order literals",
     "That the traversals with_gt and with_lt of a variable visit its order literals in order is taken from their names; that the entries of the literal map are right is C09.")

prop("C15", "Changes reach the constraints before the solver agrees",
     "Each literal reported as assigned is propagated on its own decision level, and all constraints of the literal are queued unless they are inactive or queued already. Before the solver agrees to an assignment, every constraint state that watches a variable whose bound changed has been told about the change exactly once, with the value it watches with and the change of that very bound, and is queued if its state changed; the recorded changes are reset. Every queued constraint has been unmarked, and propagated unless its literal is false; after a conflict the queue is emptied nonetheless. Agreement is reported only when no changes, queued constraints or facts are left, or on a level that was not propagated and lies at or above the level up to which the objective bound was integrated. Simplification at the top level succeeds only when the whole trail has been propagated, without gaps, and nothing is queued.",
     ["inputs", "histories"],
     "all assignments, constraints, queue contents and decision levels",
     "A constraint that is skipped is found again by later propagation in most runs; only particular orders of assignments, conflicts and backtracking expose it.",
     [SRC + "solver.cc"],
     [("assigned literals", "Solver::propagate and Solver::propagate_ in solver.cc"), ("changed bounds", "Solver::Level::update_constraints_ in solver.cc"), ("queue", "Solver::check in solver.cc"), ("top level", "Solver::simplify in solver.cc")],
     "path-sensitive symbolic analysis of the loops over changes, watches and the queue, element by element",
     "What a constraint does with a change, and whether it then propagates, is C01, C05 and C08; inactive constraints are C05.")

prop("C16", "The propagator receives the constraint that was requested",
     "A linear constraint handed to the constraint builder reaches the propagator with exactly its terms, bound and literal, a strict one (an equivalence) also with its negation under the complementary literal; only a constraint over a single variable is treated by the encoding of bounds, and only a constraint that is false and no equivalence is skipped. The same holds for products, which become linear only if the product term vanishes. Distinct and disjoint constraints over two terms are encoded such that under a true literal exactly the valuations with different terms (intervals without overlap) are left, under a false literal all valuations, and each with a unique choice of the auxiliary literals; larger ones reach the propagator unless their literal is false, domains likewise. A conflict while adding is reported. Literals, clauses, variables, show statements and objective terms are passed on unchanged.",
     ["inputs"],
     "all literals and truth values, coefficients, right-hand sides, durations, strict and non-strict constraints",
     "A lost or negated constraint shows only for the one kind, strictness and literal value concerned; most test programs use facts.",
     [SRC + "propagator.cc"],
     [("constraint builder", "ConstraintBuilder in propagator.cc")],
     "path-sensitive symbolic analysis of the builder; truth tables over the literals of the extracted encodings",
     "The terms collected in vectors are followed symbolically. Disjoint intervals are compared for durations 1 to 3 and starting points up to 4 apart, distinct terms for differences up to 2 (the extracted constraints change only at the bounds, which lie inside). Terms without variables in binary distinct constraints are assumed to be handled like others. Overflow of the computed bounds is not considered.")

prop("C17", "Relations over sums keep their meaning when they are normalized",
     "A theory atom &sum, &diff or &nsum is translated such that the requested constraints, clauses and auxiliary literals hold exactly if the relation between the sum of all its elements and its right-hand side does: in the body the atom is equivalent to the relation, in the head it implies it. This holds for each of the relations <=, <, >=, >, = and !=, whether or not the literal of the atom is fixed, no term of the sum is lost or counted with another sign, dividing by a common divisor divides all coefficients and the bound, and every assignment extends to exactly one choice of the auxiliary literals. Products are split into the product and the linear term together with their own coefficients and variables; sums that do not fit are rejected. A conflict while adding is reported.",
     ["inputs"],
     "all elements, right-hand sides and coefficients; all relations; head and body; true, false and open literals",
     "Each relation takes another path through the rewriting of operators, literals and signs; which of them a test exercises depends on the operator, the place of the atom and the truth value of its literal.",
     [SRC + "parsing.cc"],
     [("normalization", "parse_constraint, normalize_constraint, add_constraint, parse_constraint_elems")],
     "path-sensitive symbolic analysis of the parser per kind of atom and relation; truth table over the literals and the value of the sum",
     "What the recursive parser of terms appends for a term is taken as a unit (the translation of terms is not part of this property). The truth table covers values of the sum up to 2 away from the bound (the extracted constraints change only within). Overflow of the computed bounds is not considered.")

prop("C18", "Directives are passed on with the values, literals and signs they state",
     "&minimize and &maximize pass each term of the sum of all their elements to the objective, for &maximize with the opposite sign, and no constant is lost. &dom adds for each element l..u the values from l up to and including u, for a single value the value itself, to the domain of the variable on its right-hand side; only empty intervals are left out. &distinct passes one linear term per element together with its constant. &disjoint passes the start variable and the duration of each element with a positive duration. &show enables filtering and shows the given variables or name and arity. Where a directive is conditional, the literal of its atom is passed on; no element is skipped; a conflict while adding is reported.",
     ["inputs"],
     "all directives and elements",
     "Bounds that are off by one, lost constants and skipped elements only show for the element concerned.",
     [SRC + "parsing.cc"],
     [("directives", "parse_objective, parse_show, parse_dom, parse_distinct, parse_disjoint")],
     "path-sensitive symbolic analysis of the parser per kind of directive; comparison of the requests with the directive",
     "What the recursive parser of terms appends for a term is taken as a unit. How the builder treats the requests is part of C16 and other properties.")

prop("C19", "Arithmetic on values is exact or reports an overflow",
     "Addition, subtraction, multiplication, division, remainder, negation and power of numbers in terms (safe_add, safe_sub, safe_mul, safe_div, safe_mod, safe_inv, safe_pow) return the exact result whenever it is representable (for safe_mod: whenever also the quotient is) and throw otherwise, including for division by zero and negative powers of zero; no intermediate computation overflows. floordiv and ceildiv round towards minus and plus infinity for all combinations of signs, midpoint rounds down without overflow, and values checked with check_valid_value are accepted exactly between -(2^30-1) and 2^30-1. This holds for every integer type the functions are used with.",
     ["inputs"],
     "all operands, all integer types the functions are instantiated with",
     "Overflow guards and rounding are wrong for a handful of operands at the limits of the type or for one combination of signs; the bounds of all propagators and the clauses of translated constraints depend on them.",
     [SRC + "parsing.cc", "libclingcon/clingcon/util.hh", "libclingcon/clingcon/base.hh"],
     [("guards", "safe_add, safe_sub, safe_mul, safe_div, safe_mod, safe_inv, safe_pow, check_valid_value"), ("rounding", "floordiv, ceildiv, midpoint")],
     "path-sensitive symbolic extraction of guarded results from the source; comparison of the terms with the exact operation over scaled-down integer types",
     "The extracted conditions and results are compared on integer types scaled down to 4-8 bits (limits expressed via numeric_limits scale along); literal constants do not scale. std::pow is taken to be exact, so that rounding of large powers in floating point is not considered.")

prop("C20", "Terms contribute exactly what they denote",
     "Each kind of theory term appends the linear terms (or products of variables) it denotes to the sum it is part of: a number its value, a sum the terms of both arguments, a difference and a unary minus the terms of the argument subtracted with inverted sign and no others, a product one term per pair of terms of its arguments with the product of their coefficients and the variables of both (for linear sums at most one of them may have a variable), powers, quotients and remainders the value they evaluate to, and symbols, tuples and functions the variable of the symbol they evaluate to. Terms evaluate to the symbol they denote: arithmetic operations to the exact result for their arguments in the right order, tuples and functions to those with all arguments evaluated in order, unary minus to the inverse of a number or the classical negation of a function, quoted strings to strings with each escape sequence replaced. Other terms are refused.",
     ["inputs"],
     "all theory terms of any depth and size",
     "Terms nest arbitrarily; signs that are applied to too many or too few of the terms appended before, or one dropped pair of a product, only show for sums with several terms.",
     [SRC + "parsing.cc"],
     [("terms", "parse_constraint_elem, push_co_vars"), ("symbols", "evaluate, unquote")],
     "path-sensitive symbolic analysis of the recursive functions over theory terms per kind of term, with the results for the arguments as induction hypothesis",
     "Each argument is assumed to append at least one term when loops over appended terms are considered. Exactness of the arithmetic functions used is part of another property. Unary plus is not part of the grammar and not considered.")

prop("C21", "Simplifying a sum keeps its value",
     "When a sum (of variables, or of products of variables) is simplified, each of its terms is either kept unchanged, or its coefficient is added to the earlier term that was kept for the same variables (variables of products compared in sorted order), or, if it has no variable, subtracted from the returned constant exactly once, or it has coefficient zero. Constants are not kept among the terms, terms are removed afterwards only if their coefficients are zero or if they lie behind the last one kept, sums simplified before do not interfere, and the value of each remaining coefficient and of the constant is checked to be within limits.",
     ["inputs"],
     "all sums with any number of terms and coefficients",
     "Terms are merged in place while they are traversed; a confused position only shows in sums with several repeated variables and constants in between.",
     [SRC + "parsing.cc"],
     [("sums", "simplify(CoVarVec &, bool)"), ("sums of products", "simplify(NonlinearTermVec &, bool)")],
     "path-sensitive symbolic analysis (typestate of the term considered in an iteration, with the positions into the sum tracked)",
     "That a map from variables to positions returns the position recorded for equal variables is assumed.")

prop("C22", "Rewriting keeps the meaning of statements and prepares constraints",
     "Each (unpooled) statement is passed on exactly once and rewritten. A statement is changed only if shifting is enabled and it is a rule whose head is false, whose body contains &sum (or, not negated, &diff): then exactly this literal is removed from the body and its atom becomes the head, with the relation negated exactly if the literal was not negated. Only theory atoms of constraints are changed otherwise: their name is marked by whether they occur in the head or (in a literal) in the body for &sum, &nsum and &diff, and the tuple of each element is extended so that elements stay distinct: by a number if there are several elements, different for each, and by all variables of its condition that are not anonymous and do not occur in the term. Attributes are only used on nodes that have them, and original nodes are never modified.",
     ["inputs"],
     "all statements of the syntax tree passed to the rewriter",
     "Statements of all shapes reach the rewriter; tests sample a handful, and a wrong relation or a lost variable silently changes the answers.",
     [SRC + "parsing.cc"],
     [("statements", "transform, shift_rule, match, negate"), ("nodes", "TheoryRewriter, rewrite_tuple, collect_variables, tag_terms")],
     "path-sensitive symbolic analysis (nodes are terms with the changes of their copies, split by kind and name of the theory atom)",
     "That clingo traverses trees and unpools statements as documented is assumed; whether a difference constraint may be shifted at all is decided by the sign and name only.")

prop("C23", "Linear constraints are propagated exactly at their bounds",
     "When a sum (or the objective) is propagated, the bound derived for each variable is the last one that the slack permits: no bound is derived that does not follow from the bounds of the other variables, none is missed, and the literal added to the clause states exactly this bound. A conflict is reported only if, and whenever, the slack is negative; the constraint is put to rest only if it cannot be violated anymore. Reasons are weakened only as far as the slack left permits. The bounds of the sum that are kept are computed anew when the constraint is attached, changed and restored by exactly the coefficient times the change of the bound of its variable (on the side given by the sign of the coefficient), and a change of the lower one triggers propagation.",
     ["inputs", "histories"],
     "all sums, right-hand sides, bounds and orders of events",
     "Off-by-one errors in quotients, slack or reasons only show for particular coefficients and bounds; tests sample a few.",
     [SRC + "constraints.cc"],
     [("propagation and reasons", "SumConstraintStateImpl::propagate and its helpers"), ("bounds kept", "SumConstraintStateImpl::attach, update, undo")],
     "path-sensitive symbolic analysis with polynomials over symbolic bounds, coefficients and quotients",
     "The quotients are exact (C19), coefficients are not zero (C21), and literals mean the bounds they are requested for (C09).")

prop("C24", "Models and the API report each variable under its name and value",
     "Each symbol gets exactly one variable, entered under its symbol and its index and never removed, with the configured bounds and a place in every table of the solver the others are copied from. Lookups return the entry found or nothing. A variable is shown iff there is no show statement, or one for the variable or for the signature of its symbol (if it is a function). A model is extended, for exactly the variables that are shown, by one __csp atom with the symbol and the value in the solver of the thread that found the model, and by one __csp_cost atom iff there is an objective. Indices of the C interface are those of the variables plus one, 0 stands before the first, and the enumeration visits the variables in order without leaving out any; values are those of the given thread.",
     ["inputs", "histories"],
     "all symbols, show statements, threads and indices",
     "A variable that is reported with the value of another thread, left out or found under another index is only noticed with particular programs, orders of grounding steps or threads.",
     [SRC + "propagator.cc", SRC + "solver.cc", SRC + "clingcon.cc"],
     [("variables and models", "Propagator::add_variable, shown, on_model; Solver::add_variable"), ("C interface", "clingcon_lookup_symbol, clingcon_get_symbol, clingcon_assignment_*")],
     "path-sensitive symbolic analysis, once per state of the tables consulted",
     "That values are total and equal to the bounds when a model is found is the subject of C15; the value of the objective is that of C06.")

prop("C13", "Options act alike via API and command line, each on its own setting",
     "Every option that can be set programmatically can be set on the command line and vice versa, and both interfaces convert its value the same way (same accepted values, same bounds) into the same setting; different options never write the same setting, and every setting is read by the solving code. A per-thread option given for a thread affects that thread only, one given without a thread affects the default and all threads, and each thread is run with its own configuration. The configured integer range is confined to the range the arithmetic is safe for and rejected if it is empty.",
     ["configurations", "inputs"],
     "all option names, values, thread numbers and orders of setting options, through both interfaces",
     "Tests set a few options through one interface and do not compare the two; per-thread settings are almost untested.",
     [SRC + "clingcon.cc", SRC + "parsing.cc", HDR + "base.hh", "app/main.cc"],
     [("option parsers and registration", "clingcon_configure and clingcon_register_options in clingcon.cc"), ("validation", "clingcon_validate_options, check_valid_value")],
     "path-sensitive flow analysis from option name and value to configuration field",
     "All option names, both interfaces, with the fields written and the parser used on every path; parsers are compared by identity and bounds.")

prop("C14", "Statistics count each step once and report every counter under its label",
     "After every solve step each counter gathered during that step (per thread and global) is added exactly once to the same counter of the accumulated statistics and then reset, every counter is reported under its own label both for the step and accumulated, and both reports are taken from the respective values before the reset. Every reported counter is actually maintained by the solver.",
     ["histories", "configurations"],
     "all sequences of solve steps and thread counts, all counters",
     "No stable test reads statistics in multi-shot or multi-thread settings, so a missed, doubled or mislabelled counter is invisible.",
     [HDR + "propagator.hh", SRC + "propagator.cc", HDR + "base.hh"],
     [("accu/reset of the statistics records", "SolverStatistics, Statistics in base.hh"), ("reporting", "Propagator::on_statistics in propagator.cc")],
     "field-completeness and ordering analysis of the statistics records",
     "Symbolic effect of accumulation/reset per field and every path of the reporting callback; whether a counter is incremented at all the right moments is not decided.")

prop("C04", "Each thread searches on a complete, independent copy of the state",
     "When the search starts, the solver state of every thread is a complete copy of the state built during initialization: all bounds, order literals, constraints, watches, pending work and settings used during search are carried over, nothing left from an earlier step remains, and a copied constraint state has the class and values of its original. The copy refers only to its own constraint states, never to those of the original, and no single thread's state is changed afterwards without all being changed.",
     ["schedules", "configurations", "histories"],
     "every number of threads, every program and every sequence of solve steps",
     "A field missing in the copy shows only with several threads, on particular programs, in threads that win the race; the stable tests barely use more than one thread.",
     [SRC + "solver.cc", SRC + "constraints.cc", SRC + "propagator.cc", HDR + "solver.hh"],
     [("Solver::copy_state and copy constructors of VarState/constraint states", "solver.cc, solver.hh, constraints.cc"), ("copying the master on the first check", "Propagator::check in propagator.cc")],
     "symbolic field-completeness and aliasing analysis of copy operations",
     "Fields to copy are derived from the effects of the search callbacks; every path of the copy is evaluated over uninterpreted values. The decision level structure itself is not compared, as copies are made at the top level.")

prop("C05", "Backtracking restores the search state",
     "Undoing a decision level restores what propagation changed on it: above the top level a bound is saved once per level before it changes and put on a trail, undo works off every trail of the level completely and cuts it back to where the level began, removed watches and inactive constraints become active again, pending work is dropped, and each constraint's cached sums are changed back by exactly what the bound changes had added. A level is opened before propagation changes anything on it and closed when it is undone.",
     ["histories", "inputs"],
     "all sequences of propagation and backtracking, all programs, all kinds of constraints",
     "A missed restoration needs a particular sequence of propagations, backjumps and further search to show, usually as a missing answer set in large searches.",
     [SRC + "solver.cc", SRC + "constraints.cc", HDR + "solver.hh", SRC + "propagator.cc"],
     [("Solver::Level (trails, offsets)", "solver.cc"), ("bound stacks of VarState", "solver.hh"), ("update/undo of constraint states", "constraints.cc")],
     "trail-discipline typestate analysis and symbolic inverse comparison of update/undo",
     "Every path of all functions that change bounds, marks or trails, of the undo callback, and of update/undo per constraint class; loops are abstracted, and that the arithmetic of propagation itself is right is not decided.")

prop("C06", "Objective values and bounds are exchanged correctly",
     "The objective value of a model is the sum of coefficient times value over all its elements plus its constant, computed in 64 bits from the values of the thread that found the model. A model that is not worse than the shared bound becomes the reported cost and lowers the shared bound to its value minus one; no other model changes either. Before checking, every thread takes over the shared bound adjusted by the constant; it only ever lowers its own bound, remembers the level at which it did, and schedules the objective; propagation of the objective is skipped only without a bound, and its right-hand side is the bound of the thread. Clauses that rest on the bound are volatile. A directive to minimize adds its elements and one to maximize subtracts them, the objective handed over to clingo by translation has the same value, and clingcon_prepare makes clingo enumerate all models if there is an objective.",
     ["inputs", "schedules", "histories"],
     "all objectives, models, numbers of threads and orders in which threads find models",
     "Whether a stale or off-by-one bound loses the optimum depends on which thread finds which model first; tests optimize few small programs.",
     [SRC + "propagator.cc", SRC + "solver.cc", SRC + "constraints.cc", SRC + "parsing.cc", SRC + "clingcon.cc"],
     [("objective value, model and bound handling", "Propagator::get_minimize_value, on_model, check in propagator.cc"), ("bound of a thread", "Solver::update_minimize, MinimizeConstraint state in solver.cc, constraints.cc"),
      ("directives", "parse of &minimize/&maximize in parsing.cc"), ("clingcon_prepare", "clingcon.cc")],
     "path-sensitive symbolic analysis of objective and bound terms",
     "Linear forms of the values on every path; that propagation prunes exactly the worse answers (the arithmetic of the sum propagator) is not decided, nor global optimality (C44).")

prop("C07", "Solve steps do not inherit step-local data",
     "When a further step is prepared, the objective of the previous step is first taken out of the list of constraints and of the solvers of all threads, each thread forgets its bound and the level of the bound, and exactly the order literals whose variable exceeds the last static one are dropped from the state of their variable, the chain of order literals and the literal map, in every thread, before constraints of the new step are read. Bounds found by other threads are gathered. The objective of the new step consists of the elements of the old one and the new ones including the constants, is added after simplification and before translation, and counts as current unless it was translated; the shared bound starts from nothing, and with an objective total assignments are checked too. At the end all literals known to the solver are marked static in all threads.",
     ["histories", "inputs"],
     "all sequences of solve steps, all numbers of threads in each step, all programs with and without objectives",
     "Stale data of a previous step shows only in particular multi-shot sequences, often only with several threads.",
     [SRC + "propagator.cc", SRC + "solver.cc"],
     [("initialization of a step", "Propagator::init, translate_, remove_minimize in propagator.cc"), ("Solver::update", "solver.cc"), ("prepare_minimize", "propagator.cc")],
     "path-sensitive typestate and symbolic analysis of the initialization",
     "All paths of the initialization (loops abstracted); removal inside the single solver (the bookkeeping of remove_constraint) is not decided here.")

prop("C08", "Propagated clauses name their constraint and the bounds they rest on",
     "A clause submitted while a constraint is propagated, or while a domain or a single-variable constraint is encoded, contains the negation of that constraint's literal unless that literal is true for good, and a constraint whose literal is false is not propagated. Its reason contains a literal for every element of the constraint whose bound the inference uses (for products both bounds of both factors); elements are left out only if their literal is already fixed or they are the variable being propagated. An order literal in a reason states exactly the current bound of its own variable. A consequence is made a permanent fact only if the reason is empty and the clause is not volatile, and the shared reason buffer is not reused while a clause is being built in it. Clauses without the constraint's literal only relate two order literals of one variable by an implication.",
     ["inputs", "histories"],
     "all constraints (sum, nonlinear, distinct, disjoint, domain, single-variable), all bounds and literal values, all points of the search at which they are propagated",
     "A clause that is too strong removes answers only if the constraint's literal or an omitted bound is retracted later; small test programs enumerate few such histories.",
     [SRC + "constraints.cc", SRC + "solver.cc"],
     [("propagate of the constraint states", "SumConstraintStateImpl, DistinctConstraintState, NonlinearConstraintState, DisjointConstraintState in constraints.cc"),
      ("encoding of domains and simple constraints", "Solver::add_dom, Solver::add_simple in solver.cc"), ("skipping of false constraints", "Solver::check in solver.cc")],
     "path-sensitive symbolic analysis of clause contents",
     "Literals pushed on every path of every function that builds a clause (loops abstracted); which bound value is inferred (the arithmetic) is not decided, nor the encodings of translated constraints.")

prop("C41", "Bounds derived from non-linear constraints follow from them",
     "Whenever propagation of a nonlinear, distinct or disjoint constraint derives a new bound or a conflict, that bound (or conflict) follows from the constraint and the bounds named in the clause; every violated constraint is eventually found violated.",
     ["inputs", "histories"],
     "all coefficients, right-hand sides, bounds and propagation orders",
     "The numeric space is unbounded; tests sample a few small coefficients.",
     [SRC + "constraints.cc", HDR + "util.hh"],
     [("bound inference", "propagate and calculate_reason_ in constraints.cc"), ("floordiv", "util.hh")],
     na="The claim is about values of slack, quotients and bounds: a sound static argument would need exact nonlinear integer invariants over loops and heap structures (proof or solver territory); the parts that are decidable are claimed as C08 (shape of clauses) and C23 (sums, which are linear).")
prop("C42", "Translated constraints are equivalent to the original ones",
     "Translating a constraint to clauses, weight constraints, distinct pairs or auxiliary variables before the search keeps the set of solutions, whichever translation limits are configured.",
     ["inputs", "configurations"],
     "all constraints and all values of the translation options",
     "Tests cross a few option values with small programs.",
     [SRC + "constraints.cc", SRC + "propagator.cc"],
     [("translate functions of constraint states", "constraints.cc"), ("Propagator::translate_", "propagator.cc")],
     na="Equivalence of generated clause sets is a property of enumerated integer combinations computed at run time; no abstraction in reach of this family preserves it without executing the encoder.")
prop("C43", "Interval sets represent exactly the values added",
     "After any sequence of add, remove, union and intersection, an interval set contains exactly the expected values, as disjoint, sorted, non-adjacent intervals.",
     ["inputs", "histories"],
     "all sequences of operations and all bounds",
     "Unit tests run fixed short sequences.",
     [HDR + "util.hh", SRC + "parsing.cc"],
     [("IntervalSet", "util.hh")],
     na="A functional-correctness claim about map contents under arithmetic on iterators; shape and numeric invariants of this precision need deductive proof or execution.")
prop("C44", "The reported optimum is the least value of any answer",
     "If search for an optimum ends, the last reported bound is the minimum of the objective over all answers, and no answer attaining it is lost.",
     ["inputs", "schedules"],
     "all programs with objectives and all numbers of threads",
     "Global optimality requires comparing with all answers.",
     [SRC + "propagator.cc", SRC + "clingcon.cc", "app/main.cc"],
     [("objective bounds", "Propagator::on_model, update_minimize in propagator.cc")],
     na="A whole-run statement combining solver completeness with numeric propagation; only local obligations (volatile objective clauses, per-thread bounds) are decidable statically and these are parts of other properties.")
prop("C45", "Search terminates and bounds do not grow without limit",
     "Every solve call terminates for programs with finite domains; no propagation loop runs forever.",
     ["inputs", "schedules"],
     "all programs and schedules",
     "A test can only time out.",
     [SRC + "solver.cc", SRC + "propagator.cc"],
     [("propagation loops", "Solver::check, Propagator::check_full")],
     na="Termination rests on numeric progress measures (domain sizes shrinking) inside loops driven by the external solver; no sound static bound is in reach.")
