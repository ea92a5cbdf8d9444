SEARCH = ["src/Search/destructive.go", "src/Search/child_management.go", "src/Search/state.go", "src/Search/rules.go", "src/Search/search.go", "src/main.go"]
ENGINE = "exhaustive bounded exploration of the real prover under a controlled scheduler (stateless model checking), independent semantic oracle"

prop("G01", "A positive verdict is never given to a problem that has a countermodel",
  "Whenever the prover reports Theorem or Unsatisfiable for a problem, the axioms entail the conjecture (or the axioms are unsatisfiable). In particular no problem that has a finite countermodel is ever reported proved, on any run, whatever the order in which the concurrent branches progress.",
  ["inputs", "schedules"], "every closed first-order problem without equality, every schedule of the search goroutines and every substitution choice",
  "The repository's suite runs a fixed list of problems, a handful of them non-theorems, each once under whatever schedule the machine produced.",
  SEARCH + ["src/Core/instanciation.go", "src/Core/skolemisation.go", "src/Unif/matching.go", "src/Core/substitutions_search.go"],
  [("destructive tableau search and closure", "src/Search/destructive.go ProofSearch, ManageClosureRule"), ("agreement of sibling branches on a substitution", "src/Search/child_management.go waitChildren"), ("Skolemisation freshness", "src/Core/Sko"), ("unification", "src/Unif/matching.go")],
  [{"name": "state of a branch", "meaning": "formulas waiting, metavariables, applied substitution", "where": "src/Search/state.go"}],
  ["SZS status line"], ENGINE, "exploration", "all closed formulas of six families up to a size bound; finite models up to size 3 as oracle; all schedules within one deviation on the smallest problems")

prop("G02", "Propositional problems are decided exactly",
  "On every problem without variables and without equality the prover terminates and its verdict coincides with truth-table semantics: Theorem/Unsatisfiable when the negated problem has no model, CounterSatisfiable/Satisfiable otherwise.",
  ["inputs", "schedules"], "every propositional problem over all TPTP connectives, every schedule",
  "The suite contains a dozen propositional problems; the property quantifies over all formulas and connective nestings.",
  ["src/Search/rules.go", "src/Search/destructive.go", "src/Search/child_management.go", "src/AST/formsDef.go", "src/Parser/tptp_parse.y", "src/main.go"],
  [("alpha and beta expansion", "src/Search/rules.go"), ("connective translation", "src/Parser"), ("closure on complementary literals", "src/Search/destructive.go")], None, ["SZS status line"],
  ENGINE, "exploration", "all formulas up to 2 connectives over the eight binary connectives and constants, 3 connectives over four, all axiom sets of size <= 3 of a pool")

prop("G03", "Small valid first-order problems are proved, whatever the schedule",
  "When a problem's negation has a small unsatisfiable set of ground instances, the prover answers Theorem, on every run, whatever the order in which goroutines progress and whichever of the candidate substitutions is tried first.",
  ["inputs", "schedules"], "every valid problem of bounded size, every schedule and every substitution choice",
  "Each problem of the suite is run once; loss of a proof under another order of branch completion is not visible.",
  SEARCH + ["src/Core/substitutions_search.go"],
  [("backtracking over substitutions", "src/Search/child_management.go"), ("reintroduction of universally quantified formulas", "src/Search/destructive.go"), ("iterative deepening", "src/Search/search.go")], None, ["SZS status line"],
  ENGINE, "exploration", "all valid closed formulas of six families up to a size bound under four base schedules and one deviation")

prop("G04", "The verdict does not depend on the goroutine schedule",
  "For a given problem and options every execution ends by itself with exit status 0 and one verdict, the same for all interleavings of the search goroutines, all choices among simultaneously ready channel operations and all substitution choices: no deadlock, no crash, no hang, no lost answer, no second answer.",
  ["schedules"], "all interleavings within a deviation bound, for each problem of the enumerated families",
  "Tests observe the one interleaving the runtime happens to produce.",
  ["src/Search/child_management.go", "src/Search/destructive.go", "src/Search/exchanges.go", "src/Unif/matching.go", "src/Glob/utils.go"],
  [("father/child protocol with quit and result channels", "src/Search/child_management.go waitChildren, waitFather, selectChildren"), ("parallel code-tree matching", "src/Unif/matching.go launchChildrenSearch")],
  [{"name": "Communication", "meaning": "quit and result channels of one branch", "where": "src/Search/children.go"}], ["SZS status line", "exit status", "absence of deadlock"],
  ENGINE, "exploration", "one deviation from four base schedules for all problems, two and three deviations for the smallest ones")

prop("G05", "Equality reasoning is sound, and decides ground equational problems",
  "Equality in input problems is interpreted as identity: a problem with equality that has a countermodel (with real equality) is never reported Theorem or Unsatisfiable, and an equational consequence is never reported CounterSatisfiable or Satisfiable. Problems with equality but without variables are decided.",
  ["inputs", "schedules"], "every problem with equality of bounded size, every schedule of the concurrent rewriting goroutines",
  "The suite has some fifty equality problems, all theorems; a wrong rewrite shows only on non-theorems.",
  ["src/Mods/equality/bse/equality_rules_apply.go", "src/Mods/equality/bse/equality_rules_try_apply.go", "src/Mods/equality/bse/equality_problem.go", "src/Mods/equality/bse/equality_problem_list.go", "src/Mods/equality/bse/equality_rules_reasoning.go", "src/Mods/equality/bse/equality_solve_reasoning_problem.go", "src/Mods/equality/bse/constraints_struct.go", "src/Mods/equality/bse/lpo.go", "src/Mods/equality/bse/equality_types.go"],
  [("rigid basic superposition", "src/Mods/equality/bse/equality_rules_apply.go"), ("construction of equality problems", "src/Mods/equality/bse/equality_problem_list.go"), ("ordering constraints", "src/Mods/equality/bse/lpo.go")], None, ["SZS status line"],
  ENGINE, "exploration", "all sets of at most two axioms of two pools with each conjecture; oracles: model search with equality up to size 3, congruence closure")

prop("G06", "Inner and pre-inner Skolemisation keep the logic and stay effective",
  "With -inner or -preinner (alone or with -flatten) the prover proves exactly what the default Skolemisation does on small problems: no problem with a countermodel is reported proved, and every valid small problem is proved.",
  ["inputs", "configurations", "schedules"], "every closed formula with nested quantifiers of bounded size, under each Skolemisation strategy",
  "A Skolem term that depends on too few variables is only visible on non-theorems with nested alternating quantifiers, which no test enumerates.",
  ["src/Core/Sko/inner-skolemization.go", "src/Core/Sko/outer-skolemization.go", "src/Core/Sko/preinner-skolemization.go", "src/Core/skolemisation.go", "src/Search/rules.go"],
  [("choice of the Skolem term's arguments", "src/Core/Sko"), ("delta rules", "src/Search/rules.go")], None, ["SZS status line"],
  ENGINE, "exploration", "all formulas of seven families (three nested quantifiers over nine bodies, pairs of them) under four option vectors")

prop("G07", "Deduction modulo theory does not change what is provable",
  "With -dmt, axioms turned into rewrite rules keep the meaning they have as axioms: no problem with a countermodel is reported proved with -dmt, whatever is combined with it (-polarized, -presko, -inner, -preinner, -flatten); valid problems are never refuted, the prover never breaks down, and problems whose rules form a terminating system with one rule per predicate are proved.",
  ["inputs", "configurations", "schedules"], "every small set of axioms, some of which become rewrite rules, with every small conjecture",
  "The suite checks a few theorems with -dmt; unsound or destructive rewriting needs particular pairs of axioms.",
  ["src/Mods/dmt/dmt.go", "src/Mods/dmt/axiom_registration.go", "src/Mods/dmt/rewrite.go", "src/Search/destructive.go", "src/Search/child_management.go", "src/Core/instanciation.go"],
  [("registration of axioms as rules", "src/Mods/dmt"), ("rewriting and backtracking", "src/Search/destructive.go manageRewriteRules, tryRewrite")], None, ["SZS status line", "exit status"],
  ENGINE, "exploration", "all sets of at most 2 axioms of a pool of 21 with each conjecture of a pool, seven option vectors")

prop("G08", "Options that do not change the logic do not change the verdict",
  "-flatten, -completeness, -proof, -core_limit, -l, -vec, -print-id, -noeq and -no-type-check (on untyped problems without equality), and -eagereq, -sateq, -increq, -dmt_before_eq (on problems with equality), never make the prover report a verdict that contradicts the semantics, never make it break down, and never lose a small proof.",
  ["inputs", "configurations", "schedules"], "every problem of the enumerated families under every listed option vector",
  "Each test fixes one option vector for one problem; the property is about the product.",
  ["src/options.go", "src/main.go", "src/Search/destructive.go", "src/Mods/equality/sateq/satbuilder.go", "src/Mods/equality/sateq/problem.go", "src/Mods/equality/sateq/subsgatherer.go", "src/AST/formsDef.go"],
  [("option handlers", "src/options.go"), ("SAT-based rigid E-unification", "src/Mods/equality/sateq"), ("n-ary connectives", "src/Search/rules.go")], None, ["SZS status line", "exit status"],
  ENGINE, "exploration", "fourteen option vectors times all problems of six families")

prop("G19", "Output options and search limits never change or fake the answer",
  "An option that chooses what is printed (-silent, -quiet, -debug, -show_trace, -pretty, -print-id, -quoted_pred, -vec, -proof, -type_proof, the Rocq, TPTP, SC-TPTP and LambdaPi outputs with their -context and -chrono) never changes the verdict, never loses a proof and never makes the prover break down; under a limit on the search (-one_step, -l 0) a verdict is never wrong: when the prover stops because of the limit it does not claim that the problem is not a theorem.",
  ["inputs", "configurations", "schedules"], "every problem of the enumerated families under every listed option vector",
  "Each test fixes one option vector for one problem; the property is about the product.",
  ["src/options.go", "src/main.go", "src/Search/search.go", "src/Search/destructive.go", "src/Search/print_proof.go", "src/Mods/rocq/output.go", "src/Mods/tptp/output.go", "src/Mods/lambdapi/output.go", "src/Mods/lambdapi/proof.go", "src/Glob/log.go"],
  [("option handlers", "src/options.go"), ("verdict", "src/Search/search.go PrintSearchResult"), ("proof output", "src/Search/print_proof.go")], None, ["SZS status line", "exit status"],
  ENGINE, "exploration", "nineteen output option vectors times a thousand answered problems, five limit vectors times 3 500 problems")

prop("G15", "The term index finds exactly the unifiable literals, with most general unifiers",
  "A query of the discrimination tree returns a stored literal if and only if it unifies with the query, together with a substitution that unifies them and is as general as possible, for every sequence of insertions and every schedule of the parallel traversal.",
  ["inputs", "schedules"], "every set of stored literals and every query up to a size bound, in every insertion order",
  "A tree mis-merges only for particular prefix-sharing sets of literals.",
  ["src/Unif/code-trees.go", "src/Unif/matching.go", "src/Unif/machine.go", "src/Unif/parsing.go", "src/Unif/substitutions_type.go", "src/Unif/substitutions_tree.go"],
  [("code tree insertion", "src/Unif/code-trees.go"), ("abstract machine", "src/Unif/machine.go, matching.go"), ("substitutions", "src/Unif/substitutions_type.go")], None, ["DataStructure.Unify"],
  "exhaustive enumeration of stored sets, insertion orders and queries against the real index, checked against a textbook unification algorithm", "exploration", "217 000 queries; all stored sets up to size 3 of a pool")

prop("G16", "Merging, resolving, restricting and applying substitutions is sound and complete",
  "For all substitutions of metavariables (and type metavariables): merging two of them, or adding an equation to one, succeeds exactly when they have a common instance, and gives an idempotent substitution equivalent to their most general common instance, leaving the arguments as they were; resolving a system of bindings fails exactly when it is cyclic; what a node reports to its father is the substitution it found, up to a renaming, on the metavariables of the father; applying a substitution to a term gives its instance, whose metavariables are those listed for it.",
  ["inputs"], "every pair of substitutions over a few variables and terms, in every order of the bindings; every set of metavariables",
  "There are no tests of these operations that compile; a wrong merge needs a particular chain of bindings.",
  ["src/Unif/substitutions_type.go", "src/Unif/substitutions_tree.go", "src/Unif/matching_substitutions.go", "src/Unif/substitution.go", "src/Core/substitutions_search.go", "src/AST/termsDef.go"],
  [("merge", "src/Unif/substitutions_tree.go MergeSubstitutions"), ("resolution", "src/Unif/substitutions_type.go Eliminate, EliminateMeta"), ("restriction", "src/Core/substitutions_search.go RemoveElementWithoutMM"), ("application", "src/Core/substitutions_search.go ApplySubstitutionsOnTerm")], None, ["returned substitution"],
  "exhaustive enumeration of pairs of substitutions, systems, sets of metavariables and terms on the real functions, checked against a textbook unification algorithm", "exploration", "770 000 merges, 160 000 additions, 17 000 systems, 50 000 restrictions, 6 600 applications")

prop("G20", "Rigid E-unification answers are correct and not missed",
  "Both equality procedures (the default superposition one and the SAT-based one), given equations and goals with metavariables, stop; answer only substitutions that are acyclic and under which every pair of one of the goals follows from the equations by congruence; and find a solution whenever one exists (for the default procedure: when there is one pair to solve at a time and no equation has a metavariable for a side); whatever the order in which the goroutines that apply the rules progress.",
  ["inputs", "schedules"], "every set of equations and goals over small pools of terms with up to two metavariables, in every orientation",
  "The tests of this package do not compile; a wrong or missed answer needs a particular set of equations.",
  ["src/Mods/equality/bse/equality_rules_reasoning.go", "src/Mods/equality/bse/equality_solve_reasoning_problem.go", "src/Mods/equality/bse/equality_rules_apply.go", "src/Mods/equality/bse/equality_rules_try_apply.go", "src/Mods/equality/bse/equality_rules_utils.go", "src/Mods/equality/bse/constraints_list.go", "src/Mods/equality/bse/constraints_struct.go", "src/Mods/equality/bse/constraints_type.go", "src/Mods/equality/bse/lpo.go", "src/Mods/equality/bse/equality_problem.go", "src/Mods/equality/sateq/problem.go", "src/Mods/equality/sateq/satbuilder.go", "src/Mods/equality/sateq/satbuilder_mappings.go", "src/Mods/equality/sateq/subsgatherer.go", "src/Mods/equality/sateq/termrep.go"],
  [("rigid basic superposition", "src/Mods/equality/bse"), ("ordering constraints", "src/Mods/equality/bse/constraints_list.go, lpo.go"), ("SAT encoding", "src/Mods/equality/sateq")], None, ["EqualityStruct.Solve"],
  "exhaustive enumeration of rigid E-unification problems on the real procedures under a controlled scheduler, checked by congruence closure and an exhaustive search for solutions", "exploration", "37 000 problems, each given to two procedures; 25 million scheduling steps")

prop("G17", "Collections behave as sets and sequences, and never change under derivation",
  "The sets of the prover behave as mathematical sets for every history of insertions and deletions (membership, elements, size, union, intersection, difference, disjointness, filtering, copies), with a balanced tree (height within the AVL bound); its lists behave as sequences (search, equality, insertion without duplicates, removal, filtering, mapping, slices); deriving a collection from another one never changes the other one nor anything derived from it; and the parallel combinator combines the answer of every call exactly once under every schedule.",
  ["inputs", "histories", "schedules"], "every history of insertions and deletions over a universe of elements (all reachable trees), every pair of reachable sets, every sequence of list derivations, every schedule",
  "Tests insert a few elements; an error of rebalancing or sharing needs a particular history.",
  ["src/Lib/sets.go", "src/Lib/list.go", "src/Lib/par.go", "src/Lib/int.go", "src/AST/termsDef.go"],
  [("persistent AVL trees", "src/Lib/sets.go"), ("lists", "src/Lib/list.go"), ("parallel calls", "src/Lib/par.go")], None, ["returned collection"],
  "explicit-state exploration of all reachable trees and of all derivation sequences of the real collections against reference models; schedules under a controlled scheduler", "exploration", "all trees of 11 elements, all pairs of trees of 7, 5.4 million list versions")

prop("G18", "Operations on formulas compute what they say and keep metavariables exact",
  "For every formula and every sequence of operations on it: replacing a metavariable by a term, a bound variable by a metavariable or by a term, renaming bound variables (alpha-equivalent result, fresh and distinct bound variables), simplifying negations and copying give the formula they should and leave their argument as it was; equality is structural equality; the subformulas, immediate subformulas and subterms are those of the formula; and the metavariables a formula lists are always exactly those that occur in it.",
  ["inputs", "histories"], "every formula of a pool with all connectives and quantifiers, every sequence of operations to a depth",
  "No test covers them; a stale cache of metavariables shows only after a particular sequence of operations.",
  ["src/AST/formsDef.go", "src/AST/formula.go", "src/AST/quantifiers.go", "src/AST/term.go", "src/AST/termsDef.go", "src/AST/maker.go", "src/AST/form-list.go", "src/AST/typed-vars.go", "src/Lib/cache.go", "src/Core/substitutions_search.go"],
  [("formulas", "src/AST/formsDef.go, src/AST/quantifiers.go"), ("replacement in terms", "src/AST/formula.go replaceTermInTermList, src/AST/termsDef.go ReplaceSubTermBy"), ("cached metavariables", "src/Lib/cache.go")], None, ["returned formula", "GetMetas"],
  "explicit-state exploration: every sequence of operations from every formula of a pool, on the real code in step with a reference representation", "exploration", "12 500 formulas, 1.57 million operations (all sequences of two)")

prop("G09", "Ill-typed problems are refused and well-typed ones are not",
  "A problem with type declarations whose formulas are well typed in TPTP TF1 (monomorphic or rank-1 polymorphic) is accepted, and each symbol is read with the right type arguments; a problem with a formula that is not well typed (wrong argument type, arity or kind, variable out of scope or of another type, undeclared or ill-formed type) is refused with a nonzero exit status; whatever the order in which the concurrent checks progress.",
  ["inputs", "schedules"], "every formula over a polymorphic signature up to a term depth, every quantifier context, scope and shadowing, well typed or not",
  "Tests have a few well-typed problems and hardly any ill-typed one.",
  ["src/Typing/rules.go", "src/Typing/env-and-context.go", "src/Engine/pretyper.go", "src/Engine/syntax-translation.go", "src/Engine/tptp-defined-types.go", "src/AST/ty-syntax.go", "src/Lib/sets.go", "src/Lib/par.go", "src/main.go"],
  [("type checker", "src/Typing/rules.go"), ("typing context", "src/Typing/env-and-context.go, src/Lib/sets.go"), ("elaboration of type arguments", "src/Engine/syntax-translation.go elaborateDefinedFunctionals")], None, ["exit status", "loaded formula"],
  "exhaustive enumeration of well-typed and ill-typed formulas run through the real loader, compared with a reference TF1 checker", "exploration", "183 000 formulas over one signature; four base schedules for the scope families")

prop("G10", "A typed problem is proved only if it is valid in many-sorted logic",
  "For every problem with type declarations (several sorts, type constructors, rank-1 polymorphic symbols, equality), Goeland reports Theorem or Unsatisfiable only if the problem is so in many-sorted (TF0/TF1) logic: sorts are disjoint, non-empty and of independent sizes, a polymorphic formula holds for every type, and an equality of one sort says nothing about another; a well-typed problem never breaks the prover; and the valid problems of the families without equality are proved. With both ways of equality reasoning and under every schedule explored.",
  ["inputs", "schedules"], "every set of axioms and conjecture of four families of typed problems, under several schedules",
  "Tests have a few dozen typed theorems and no typed non-theorem which is a theorem once sorts are forgotten.",
  ["src/Core/skolemisation.go", "src/Core/instanciation.go", "src/AST/ty-syntax.go", "src/AST/termsDef.go", "src/Unif/parsing.go", "src/Unif/matching_substitutions.go", "src/Mods/equality/bse/constraints_struct.go", "src/Mods/equality/bse/equality_problem_list.go", "src/Mods/equality/sateq/satbuilder.go", "src/Typing/env-and-context.go", "src/Core/Sko/interface.go"],
  [("type instantiation", "src/Core/instanciation.go RealInstantiate"), ("Skolem types", "src/Core/skolemisation.go realSkolemize"), ("types in unification", "src/Unif/parsing.go, src/Unif/matching_substitutions.go"), ("sorts in equality reasoning", "src/Mods/equality/bse, src/Mods/equality/sateq")], None, ["SZS status line", "exit status"],
  "exhaustive enumeration of bounded typed problems, each run on the real prover under controlled schedules and judged by exhaustive search of finite many-sorted models and by refuted finite instance sets", "exploration", "4 700 problems, two schedules each, quick; 18 100 and every base schedule, thorough")

prop("G11", "A TPTP text is read as the formula it denotes, or refused",
  "For every text of first-order TPTP statements: if the text follows the grammar, the formula the prover works on is exactly the one the text denotes (connectives, associativity, quantifier scope, variable binding under any choice of variable names, quoted words and distinct objects, roles, comments and layout); a text which does not follow the grammar is refused with a nonzero exit status. No statement is dropped, cut short or read as something else.",
  ["inputs"], "every token sequence over a small alphabet up to a length bound, every formula shape up to a size, every layout and variable naming of a family",
  "Tests read well-formed benchmark files, whose accidents of layout and naming are few; they see the verdict, not the formula read.",
  ["src/Parser/tptp_lex.go", "src/Parser/tptp_parse.y", "src/Parser/psyntax.go", "src/Engine/syntax-translation.go", "src/Engine/pretyper.go", "src/AST/quantifiers.go", "src/AST/maker.go", "src/AST/formsDef.go", "src/main.go"],
  [("lexer", "src/Parser/tptp_lex.go"), ("grammar", "src/Parser/tptp_parse.y"), ("elaboration", "src/Engine/syntax-translation.go"), ("variable renaming", "src/AST/quantifiers.go RenameVariables")], None, ["loaded formula", "exit status"],
  "exhaustive enumeration of texts (all token sequences up to a length, all character strings up to a length in token position, all formulas up to a size under all spellings) run through the real loader and compared with an independent reader", "exploration", "183 667 texts")

prop("G12", "Including a file means the same as writing its contents in place",
  "A problem with include directives is read as the same problem with the contents of each included file (restricted to the named formulas, if a selection is given) written where the directive stands: same formula, same types, same verdict, same refusals, wherever the file is found (relative to the including file or to $TPTP) and however deep the inclusion.",
  ["inputs", "configurations"], "every way to cut a problem into files, every place for the files, every formula selection",
  "The suite has a few fixed problems with one include of untyped axioms.",
  ["src/main.go", "src/Parser/tptp_parse.y", "src/Engine/syntax-translation.go", "src/Engine/pretyper.go"],
  [("expansion of includes", "src/main.go parseProblem"), ("file lookup", "src/main.go getFile"), ("context of declarations", "src/Engine/pretyper.go")], None, ["loaded formula", "exit status", "SZS status line"],
  "exhaustive enumeration of the cuts, placements and selections of a family of problems, each loaded and solved by the real code with and without includes", "exploration", "1 860 files, loaded and solved")

prop("G13", "Every Rocq proof printed is accepted by Rocq",
  "With -proof -orocq -context (with or without -flatten, -inner, -preinner, deduction modulo theory, equality), whenever Goeland reports an untyped problem proved, it prints a Rocq file which states the problem (its axioms as hypotheses, its conjecture as goal) and which Rocq compiles without error.",
  ["inputs", "configurations", "schedules"], "every valid problem of the enumerated families, under several options and two base schedules",
  "The suite compiles a handful of fixed proofs; the translation from tableaux to sequents (Skolem terms, weakenings, rules applied again) has cases which only particular proofs reach.",
  ["src/Mods/gs3/proof.go", "src/Mods/gs3/sequent.go", "src/Mods/gs3/dependency.go", "src/Mods/gs3/graph.go", "src/Mods/rocq/proof.go", "src/Mods/rocq/context.go", "src/Search/print_proof.go", "src/Search/proof.go", "src/Mods/dmt/rewrite_registration.go"],
  [("translation to sequents", "src/Mods/gs3/proof.go"), ("dependencies of Skolem terms", "src/Mods/gs3/dependency.go, graph.go"), ("Rocq output", "src/Mods/rocq/proof.go, context.go")], None, ["proof output"],
  "exhaustive enumeration of bounded problems proved by the real engine under controlled schedules, every distinct proof printed being compiled by coqc against the problem's statement", "exploration", "14 800 runs, 6 400 distinct proofs compiled, quick")

prop("G14", "Every tableau proof printed is a correct tableau for the problem",
  "With -proof, whenever Goeland reports Theorem or Unsatisfiable, the proof it prints is a closed tableau for the problem: it starts from the axioms and the negated conjecture, every node follows from its branch by the rule it names (with Skolem terms that are new, or that stand for the witness of the same formula), every rewriting step follows from an axiom, and every branch ends in a contradiction (propositional, or by congruence).",
  ["inputs", "configurations", "schedules"], "every valid problem of the enumerated families, under several options and up to four base schedules",
  "Tests compare a few printed proofs with expected text; nothing checks that a proof is one.",
  ["src/Search/proof.go", "src/Search/print_proof.go", "src/Search/destructive.go", "src/Search/rules.go", "src/Search/child_management.go", "src/Core/substitutions_search.go", "src/Core/skolemisation.go", "src/Core/instanciation.go", "src/Mods/dmt/rewrite.go", "src/Mods/equality/bse/equality_rules_apply.go", "src/Mods/equality/sateq/problem.go"],
  [("construction of the proof", "src/Search/proof.go"), ("final substitution", "src/Search/destructive.go"), ("printing", "src/Search/print_proof.go")], None, ["proof output"],
  "exhaustive enumeration of bounded problems proved by the real engine under controlled schedules, every node of every distinct proof printed being checked by an independent tableau checker", "exploration", "18 100 runs, 20 700 distinct proofs, 208 000 steps, quick")

prop("G23", "Every SC-TPTP proof printed is a correct sequent proof of the problem",
  "With -proof -otptp or -osctptp (without deduction modulo theory), whenever Goeland reports an untyped problem proved, it prints a sequent proof in SC-TPTP which starts from axioms of the problem, ends with its conjecture, has no hole and no cycle, and in which each step follows from its premises by the inference it names, on the formula it designates, with new constants where the rule asks for one.",
  ["inputs", "configurations", "schedules"], "every valid problem of the enumerated families, under several options and two base schedules",
  "The suite compares a few proofs with expected text.",
  ["src/Mods/tptp/proof.go", "src/Mods/tptp/output.go", "src/Mods/gs3/proof.go", "src/Mods/gs3/sequent.go", "src/Mods/gs3/dependency.go", "src/Mods/gs3/graph.go", "src/Search/print_proof.go"],
  [("SC-TPTP output", "src/Mods/tptp/proof.go"), ("translation to sequents", "src/Mods/gs3/proof.go")], None, ["proof output"],
  "exhaustive enumeration of bounded problems proved by the real engine under controlled schedules, every inference of every distinct proof printed being checked by an independent sequent checker", "exploration", "9 900 runs, 10 000 distinct proofs, 161 000 inferences, quick")
