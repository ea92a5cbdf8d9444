From 52f075b2fe474773a2db2a29aa52a310898d116e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:14 +0000
Subject: [PATCH 01/47] fix: keep the untouched side of an equality problem
 when rewriting its right-hand side

The right and left superposition rules may rewrite either side of an equation.
When the second side was rewritten, the new problem paired the rewritten term
with the *original* of that same term (rs.getS()) instead of with the other
side (rs.getT()), turning e.g. [a=b] |- g(a,a) = g(b,c) into the trivially
solvable g(b,c) = g(a,c).
---
 src/Mods/equality/bse/equality_rules_apply.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Mods/equality/bse/equality_rules_apply.go b/src/Mods/equality/bse/equality_rules_apply.go
index 40d6e8a..d69088b 100644
--- a/src/Mods/equality/bse/equality_rules_apply.go
+++ b/src/Mods/equality/bse/equality_rules_apply.go
@@ -80,7 +80,7 @@ func applyLeftRule(rs ruleStruct, ep EqualityProblem, father_chan chan answerEP,
 		if rs.getIsSModified() {
 			new_eq_list[rs.getIndexEQList()] = eqStruct.MakeTermPair(new_term.Copy(), rs.getT())
 		} else {
-			new_eq_list[rs.getIndexEQList()] = eqStruct.MakeTermPair(rs.getS(), new_term.Copy())
+			new_eq_list[rs.getIndexEQList()] = eqStruct.MakeTermPair(rs.getT(), new_term.Copy())
 		}
 		debug(
 			Lib.MkLazy(func() string { return fmt.Sprintf("New EQ list : %v", new_eq_list.ToString()) }),
@@ -110,7 +110,7 @@ func applyRightRule(rs ruleStruct, ep EqualityProblem, father_chan chan answerEP
 		if rs.getIsSModified() {
 			tryEqualityReasoningProblem(makeEqualityProblem(ep.copy().GetE(), new_term.Copy(), rs.getT(), new_cl), father_chan, rs.getIndexEQList(), RIGHT, father_id)
 		} else {
-			tryEqualityReasoningProblem(makeEqualityProblem(ep.copy().GetE(), rs.getS(), new_term.Copy(), new_cl), father_chan, rs.getIndexEQList(), RIGHT, father_id)
+			tryEqualityReasoningProblem(makeEqualityProblem(ep.copy().GetE(), rs.getT(), new_term.Copy(), new_cl), father_chan, rs.getIndexEQList(), RIGHT, father_id)
 		}
 	} else {
 		debug(
-- 
2.43.0


From a2fbb2a36e8122bb7d7159ae5855242f409bb6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:33 +0000
Subject: [PATCH 02/47] fix: do not identify metavariables by their printed
 form in equality problems

Two instances of the same quantified equality hold distinct metavariables that
are printed the same way. Indexing the equalities by the printed form of their
sides let one instance be rewritten with the other side of another instance:
from forall X. f(X) = X, p(a) one could derive forall X. p(X).
---
 src/Mods/equality/bse/equality_problem.go     | 52 +++++++------------
 .../equality/bse/equality_rules_try_apply.go  |  2 +-
 2 files changed, 20 insertions(+), 34 deletions(-)

diff --git a/src/Mods/equality/bse/equality_problem.go b/src/Mods/equality/bse/equality_problem.go
index 803d84e..e856b9c 100644
--- a/src/Mods/equality/bse/equality_problem.go
+++ b/src/Mods/equality/bse/equality_problem.go
@@ -49,7 +49,6 @@ import (
 
 type EqualityProblem struct {
 	E_tree Unif.DataStructure
-	E_map  map[string]Lib.List[AST.Term]
 	E      Equalities
 	s, t   AST.Term
 	c      ConstraintStruct
@@ -58,9 +57,25 @@ type EqualityProblem struct {
 func (ep EqualityProblem) getETree() Unif.DataStructure {
 	return ep.E_tree.Copy()
 }
-func (ep EqualityProblem) getEMap() map[string]Lib.List[AST.Term] {
-	return ep.E_map
+
+/*
+Returns the terms which are equal to [t] according to the equalities of [ep].
+The lookup is not done through the printed form of the terms: two distinct
+metavariables (e.g., obtained by a reintroduction) may be printed the same way.
+*/
+func (ep EqualityProblem) getOtherSides(t AST.Term) Lib.List[AST.Term] {
+	res := Lib.NewList[AST.Term]()
+	for _, e := range ep.E {
+		if e.GetT1().Equals(t) {
+			res.Append(e.GetT2())
+		}
+		if e.GetT2().Equals(t) {
+			res.Append(e.GetT1())
+		}
+	}
+	return res
 }
+
 func (ep EqualityProblem) GetE() Equalities {
 	return ep.E.copy()
 }
@@ -131,7 +146,7 @@ func makeEqualityProblemList(E Equalities, goal []eqStruct.TermPair) EqualityPro
 }
 
 func makeEqualityProblem(E Equalities, s AST.Term, t AST.Term, c ConstraintStruct) EqualityProblem {
-	return EqualityProblem{makeDataStructFromEqualities(E.copy()), makeEQMapFromEqualities(E.copy()), E.copy(), s.Copy(), t.Copy(), c.copy()}
+	return EqualityProblem{makeDataStructFromEqualities(E.copy()), E.copy(), s.Copy(), t.Copy(), c.copy()}
 }
 
 /* Take a list of equalities and build the corresponding code tree */
@@ -142,32 +157,3 @@ func makeDataStructFromEqualities(eq Equalities) Unif.DataStructure {
 	}
 	return Unif.NewNode().MakeDataStruct(Lib.ListCpy(formList), true)
 }
-
-/* Take a list of equalities and build the corresponding assocative map */
-func makeEQMapFromEqualities(eq Equalities) map[string]Lib.List[AST.Term] {
-	map_res := make(map[string]Lib.List[AST.Term])
-
-	for _, e := range eq {
-		key1 := e.GetT1().ToString()
-		key2 := e.GetT2().ToString()
-
-		if _, found := map_res[key1]; !found {
-			map_res[key1] = Lib.NewList[AST.Term]()
-		}
-
-		if _, found := map_res[key2]; !found {
-			map_res[key2] = Lib.NewList[AST.Term]()
-		}
-
-		upd1 := map_res[key1]
-		upd2 := map_res[key2]
-
-		upd1.Append(e.GetT2())
-		upd2.Append(e.GetT1())
-
-		map_res[key1] = upd1
-		map_res[key2] = upd2
-	}
-
-	return map_res
-}
diff --git a/src/Mods/equality/bse/equality_rules_try_apply.go b/src/Mods/equality/bse/equality_rules_try_apply.go
index cfc5a35..3d4e030 100644
--- a/src/Mods/equality/bse/equality_rules_try_apply.go
+++ b/src/Mods/equality/bse/equality_rules_try_apply.go
@@ -141,7 +141,7 @@ func connectLAndR(list_l_prime_l []eqStruct.TermPair, ep EqualityProblem, s AST.
 			}),
 		)
 
-		for _, r := range ep.getEMap()[l_prime_l_pair.GetT2().ToString()].GetSlice() {
+		for _, r := range ep.getOtherSides(l_prime_l_pair.GetT2()).GetSlice() {
 			debug(
 				Lib.MkLazy(func() string {
 					return fmt.Sprintf(
-- 
2.43.0


From 6ae7cabaaafb20a57b9891f08e260cbc49167c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:33 +0000
Subject: [PATCH 03/47] fix: printing an indexed term does not recurse forever

TermForm.ToString called itself, so that enabling the debug output of the
equality plugin overflowed the stack.
---
 src/Unif/parsing.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Unif/parsing.go b/src/Unif/parsing.go
index c8a80fc..52e6d8e 100644
--- a/src/Unif/parsing.go
+++ b/src/Unif/parsing.go
@@ -42,7 +42,7 @@ type TermForm struct {
 	t     AST.Term
 }
 
-func (t TermForm) ToString() string          { return t.ToString() }
+func (t TermForm) ToString() string          { return t.t.ToString() }
 func (t TermForm) GetTerm() AST.Term         { return t.t.Copy() }
 func (t TermForm) Copy() AST.Form            { return makeTermForm(t.GetIndex(), t.GetTerm()) }
 func (t TermForm) RenameVariables() AST.Form { return t }
-- 
2.43.0


From e2580be55ebebd4fd35ac0fac70aca9e8a69af76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:01 +0000
Subject: [PATCH 04/47] fix: give type metas and term metas distinct indexes

Type metas are converted to term metas to be unified, and metas are compared
by index. They were numbered by their own counter, so a type meta could be
taken for a term meta: retrieving the equalities of a branch crashed
('Meta EQ/NEQ not found') or mixed them up.
---
 src/AST/tptp-native-types.go |  2 --
 src/AST/ty-syntax.go         | 14 ++++++--------
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/AST/tptp-native-types.go b/src/AST/tptp-native-types.go
index 320cf3b..3b4b821 100644
--- a/src/AST/tptp-native-types.go
+++ b/src/AST/tptp-native-types.go
@@ -60,8 +60,6 @@ func initTPTPNativeTypes() {
 
 	tIndividual = MkTyConst("$i")
 	tProp = MkTyConst("$o")
-
-	count_meta = 0
 }
 
 func TType() Ty {
diff --git a/src/AST/ty-syntax.go b/src/AST/ty-syntax.go
index 5ea889c..e521036 100644
--- a/src/AST/ty-syntax.go
+++ b/src/AST/ty-syntax.go
@@ -39,15 +39,11 @@ package AST
 
 import (
 	"fmt"
-	"sync"
 
 	"github.com/GoelandProver/Goeland/Glob"
 	"github.com/GoelandProver/Goeland/Lib"
 )
 
-var meta_mut sync.Mutex
-var count_meta int
-
 type TyGenVar interface {
 	isGenVar()
 }
@@ -297,10 +293,12 @@ func MkTyBV(name string, index int) Ty {
 }
 
 func MkTyMeta(name string, formula int) Ty {
-	meta_mut.Lock()
-	meta := TyMeta{name, count_meta, formula}
-	count_meta += 1
-	meta_mut.Unlock()
+	// Type metas are unified together with term metas, so both kinds of metas share
+	// the same indexes.
+	lock_term.Lock()
+	meta := TyMeta{name, cpt_term, formula}
+	cpt_term += 1
+	lock_term.Unlock()
 	return meta
 }
 
-- 
2.43.0


From d876b61c568d8889e72e64071804b18daffa5078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:15 +0000
Subject: [PATCH 05/47] fix: every Skolem type is fresh

All Skolem types had one and the same name, so
! [A: $tType, B: $tType] : ((! [X: A] : p(A,X)) => ! [Y: B] : p(B,Y))
was reported a theorem.
---
 src/Core/skolemisation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Core/skolemisation.go b/src/Core/skolemisation.go
index e894780..2524988 100644
--- a/src/Core/skolemisation.go
+++ b/src/Core/skolemisation.go
@@ -128,7 +128,7 @@ func realSkolemize(
 	var res AST.Form
 
 	if AST.IsTType(x.GetTy()) {
-		id := AST.MakerId("skoTy")
+		id := AST.MakerNewId("skoTy")
 		id = AST.MakerId(fmt.Sprintf("skoTy@%d", id.GetIndex()))
 		res = deltaForm.SubstTy(x.ToTyBoundVar(), AST.MkTyConst(id.ToString()))
 	} else {
-- 
2.43.0


From 40800a9ad3f2874e71655fb92e58fb213e7daecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:25 +0000
Subject: [PATCH 06/47] fix: siblings agree on a substitution only if all of
 them propose it

With three branches or more (-flatten), a substitution proposed by the last
branch and by any one of the others was considered as common to all of them:
! [X] : (p1(X) | p2(X) | p3(X)), ~p1(a), ~p2(b), ~p3(a) was Unsatisfiable.
---
 src/Search/destructive.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Search/destructive.go b/src/Search/destructive.go
index 1ef43a2..01939cb 100644
--- a/src/Search/destructive.go
+++ b/src/Search/destructive.go
@@ -776,15 +776,21 @@ func (ds *destructiveSearch) selectChildren(father Communication, children *[]Co
 						// Children sent the same substitution, eventually with new forms
 						new_current_subst = current_subst.AddFormulas(res.subst_list_for_father[0].GetForm())
 					} else {
+						// A common substitution has to be shared by all the children which have answered so far
+						previous_substs := common_substs
+						if cpt_children_returning_subst == 1 {
+							previous_substs = result_subst
+						}
+
 						// Reset at each step
 						common_substs = []Core.SubstAndForm{}
 
 						// Check if there is common substitutions
 						for _, current_subst_from_children := range res.subst_list_for_father {
-							for i := range result_subst {
+							for i := range previous_substs {
 								if Lib.ListEquals(
 									current_subst_from_children.GetSubst(),
-									result_subst[i].GetSubst(),
+									previous_substs[i].GetSubst(),
 								) {
 									debug(
 										Lib.MkLazy(func() string {
@@ -794,7 +800,7 @@ func (ds *destructiveSearch) selectChildren(father Communication, children *[]Co
 											)
 										}),
 									)
-									common_substs = append(common_substs, result_subst[i].AddFormulas(current_subst_from_children.GetForm()))
+									common_substs = append(common_substs, previous_substs[i].AddFormulas(current_subst_from_children.GetForm()))
 								}
 							}
 						}
-- 
2.43.0


From f00f816f10deff1f2cd5686ea06bfc7f9ebff77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:39 +0000
Subject: [PATCH 07/47] fix: keep the link between two metavariables bound to
 the same local one

RemoveElementWithoutMM gathered, among the bindings from a metavariable of
the parent to one introduced by the node, only those that were already
relevant to the parent as a whole, so that X -> Z, Y -> Z with Z local was
dropped instead of being reported as Y -> X. A node could then claim to be
closed without constraining its parent.
---
 src/Core/substitutions_search.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/Core/substitutions_search.go b/src/Core/substitutions_search.go
index a12c709..85348e3 100644
--- a/src/Core/substitutions_search.go
+++ b/src/Core/substitutions_search.go
@@ -87,6 +87,7 @@ func RemoveElementWithoutMM(
 
 	for hasChanged {
 		hasChanged = false
+		subst_to_reorganize = Unif.Substitutions{}
 		debug(Lib.MkLazy(func() string {
 			return fmt.Sprintf(
 				"Relevant meta : %v",
@@ -100,10 +101,12 @@ func RemoveElementWithoutMM(
 
 				switch typedTerm := term.(type) {
 				case AST.Meta:
-					if relevantMetas.Contains(meta) &&
-						relevantMetas.Contains(typedTerm) {
-						subst_to_reorganize.Set(meta, typedTerm)
-						res.Set(meta, typedTerm)
+					if relevantMetas.Contains(meta) {
+						if relevantMetas.Contains(typedTerm) {
+							res.Set(meta, typedTerm)
+						} else {
+							subst_to_reorganize.Set(meta, typedTerm)
+						}
 					}
 
 				default:
-- 
2.43.0


From 72379b8c0e881b4e0cf5e119bb51f851970380ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:22 +0000
Subject: [PATCH 08/47] fix: applying a substitution replaces every occurrence
 of the metavariable

Fun.ReplaceSubTermBy replaced only the first argument containing the old
term, so X -> a turned p(g(X,X)) into p(g(a,X)); the search could then bind
X a second time and abort with an anomaly.
---
 src/AST/term-list.go | 27 ---------------------------
 src/AST/termsDef.go  |  2 +-
 2 files changed, 1 insertion(+), 28 deletions(-)

diff --git a/src/AST/term-list.go b/src/AST/term-list.go
index ab4d882..b555a94 100644
--- a/src/AST/term-list.go
+++ b/src/AST/term-list.go
@@ -54,33 +54,6 @@ func GetMetasOfList(tl Lib.List[Term]) Lib.Set[Meta] {
 	return res
 }
 
-/*
-Replace the first occurence of a term by another in the list
-*/
-func replaceFirstOccurrenceTermList(
-	tl Lib.List[Term],
-	replaceThis, withThis Term,
-) (Lib.List[Term], bool) {
-	res := Lib.MkList[Term](tl.Len())
-	updated := false
-
-	for i := range tl.GetSlice() {
-		candidate := tl.At(i)
-
-		// FIXME: should [res.At(i)] be copied? I don't think so but we'll see.
-		modifiedTerm := candidate.ReplaceSubTermBy(replaceThis, withThis)
-
-		if !tl.At(i).Equals(modifiedTerm) && !updated {
-			updated = true
-			candidate = modifiedTerm
-		}
-
-		res.Upd(i, candidate)
-	}
-
-	return res, updated
-}
-
 /*
 Replace all occurences of a term by another in the list
 */
diff --git a/src/AST/termsDef.go b/src/AST/termsDef.go
index 5ceef28..43d097d 100644
--- a/src/AST/termsDef.go
+++ b/src/AST/termsDef.go
@@ -196,7 +196,7 @@ func (f Fun) ReplaceSubTermBy(oldTerm, newTerm Term) Term {
 	if f.Equals(oldTerm) {
 		return newTerm.Copy()
 	} else {
-		tl, res := replaceFirstOccurrenceTermList(f.GetArgs(), oldTerm, newTerm)
+		tl, res := ReplaceOccurrence(f.GetArgs(), oldTerm, newTerm)
 		nf := MakeFun(f.GetID(), f.GetTyArgs(), tl, f.metas.Raw())
 		if !res && !f.metas.NeedsUpd() {
 			nf.metas.AvoidUpd()
-- 
2.43.0


From a5738496ddf22fb5993ef6a428c4496ea28db736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:45 +0000
Subject: [PATCH 09/47] fix: substituting in a conjunction or disjunction
 leaves the original formula alone

LsSubstByTerm wrote the instantiated subformulas into the list of the formula
it was given, so that instantiating a formula changed every other holder of
it (a DMT rewrite rule rewrote r(b,a) with the instance computed for r(a,b)).
---
 src/AST/form-list.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/AST/form-list.go b/src/AST/form-list.go
index 4472f74..14bfa44 100644
--- a/src/AST/form-list.go
+++ b/src/AST/form-list.go
@@ -42,10 +42,7 @@ import (
 
 // ex-name: ReplaceMetaByTerm
 func LsSubstByTerm(formulas Lib.List[Form], meta Meta, term Term) Lib.List[Form] {
-	for i, f := range formulas.GetSlice() {
-		formulas.Upd(i, f.ReplaceMetaByTerm(meta, term))
-	}
-	return formulas
+	return Lib.ListMap(formulas, func(f Form) Form { return f.ReplaceMetaByTerm(meta, term) })
 }
 
 func FlattenAnd(formulas Lib.List[Form]) Lib.List[Form] {
-- 
2.43.0


From b058cb3aff5a7160c6bf776e8e6007d70e5fdd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:45 +0000
Subject: [PATCH 10/47] fix: a child started by a backtrack on rewrite rules
 answers under its own node

It was given the original node of its parent while the parent waits for the
new node, so the answer was stored at index -1.
---
 src/Search/child_management.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Search/child_management.go b/src/Search/child_management.go
index 90afaee..a71c6a1 100644
--- a/src/Search/child_management.go
+++ b/src/Search/child_management.go
@@ -343,7 +343,7 @@ func (ds *destructiveSearch) manageBacktrackForDMT(args wcdArgs) {
 
 	copiedState := args.st.Copy()
 	communicationChild := Communication{make(chan bool), make(chan Result)}
-	go ds.ProofSearch(Glob.GetGID(), copiedState, communicationChild, nextSaF.GetSaf().ToSubstAndForm(), childNode, args.originalNodeId, args.toReintroduce, false)
+	go ds.ProofSearch(Glob.GetGID(), copiedState, communicationChild, nextSaF.GetSaf().ToSubstAndForm(), childNode, childNode, args.toReintroduce, false)
 	debug(Lib.MkLazy(func() string { return "GO !" }))
 	Glob.IncrGoRoutine(1)
 
-- 
2.43.0


From 69854c3f53ac305fa4aa925bd41d0ee3c08ba3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:53 +0000
Subject: [PATCH 11/47] fix: rewriting an atom keeps the other atoms of the
 branch

The atoms tried before the first one that could be rewritten were dropped
when it was replaced (! [X] : (p(X) <=> ? [Y] : r(X,Y)), ! [X] : ~q(X) |-
q(a) => p(f(a)) was never proved with -dmt).
---
 src/Search/destructive.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Search/destructive.go b/src/Search/destructive.go
index 01939cb..a31e502 100644
--- a/src/Search/destructive.go
+++ b/src/Search/destructive.go
@@ -962,6 +962,8 @@ func (ds *destructiveSearch) manageRewriteRules(fatherId uint64, state State, c
 				originalNodeId)
 		}))
 	remainingAtomics := newAtomics.Copy()
+	// The atomics which can't be rewritten stay in the branch when another one is
+	notRewritten := Core.MakeEmptyFormAndTermsList()
 
 	// For each atomic
 	for len(remainingAtomics) > 0 {
@@ -978,10 +980,12 @@ func (ds *destructiveSearch) manageRewriteRules(fatherId uint64, state State, c
 		// If f is in atomic, that means we couldn't rewrite it, so it's useless to check
 		if !state.GetAtomic().Contains(f) && Glob.IsLoaded("dmt") {
 			if rewritten, err := dmt.Rewrite(f.GetForm()); err == nil {
-				shouldReturn := ds.tryRewrite(rewritten, f, &state, remainingAtomics, fatherId, c, currentNodeId, originalNodeId, metaToReintroduce)
+				otherAtomics := append(notRewritten.Copy(), remainingAtomics.Copy()...)
+				shouldReturn := ds.tryRewrite(rewritten, f, &state, otherAtomics, fatherId, c, currentNodeId, originalNodeId, metaToReintroduce)
 				if shouldReturn {
 					return
 				}
+				notRewritten = append(notRewritten, f.Copy())
 			} else {
 				Glob.Anomaly("DMT", err.Error())
 			}
-- 
2.43.0


From d0420b1be4283c5d88a93c51841edb29b0c8d3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 12/47] fix: printing the label of an equality closure does not
 stop the prover

---
 src/AST/modular-printing.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/AST/modular-printing.go b/src/AST/modular-printing.go
index edef719..01c6b89 100644
--- a/src/AST/modular-printing.go
+++ b/src/AST/modular-printing.go
@@ -194,6 +194,11 @@ func (p Printer) OnFunctionalArgs(i Id, tys, con string, args Lib.List[Term]) st
 	is_infix := Lib.ListMem(i, infix)
 	arguments := Lib.ListToString(args, Lib.WithSep(p.StrConn(SepArgs)), Lib.WithEmpty(""))
 
+	// The pseudo-predicate which labels an equality closure is "=" without arguments.
+	if is_infix && args.Empty() {
+		return i.ToString()
+	}
+
 	if is_infix {
 		// We expect to have between two and three arguments in an infix function
 		// as it might have a type argument.
-- 
2.43.0


From a8759470f1221e5f9377e84cdc73113b05e45b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 13/47] fix: -sateq: congruence relates terms of the two
 classes it merges

---
 src/Mods/equality/sateq/satbuilder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Mods/equality/sateq/satbuilder.go b/src/Mods/equality/sateq/satbuilder.go
index 2a12c85..9288948 100644
--- a/src/Mods/equality/sateq/satbuilder.go
+++ b/src/Mods/equality/sateq/satbuilder.go
@@ -198,8 +198,8 @@ func (sb *SatBuilder) 𝜓Constraint(index int, ec1, ec2 *eqClass) {
 
 	for _, tr1 := range sb.problem.TermsInClass(ec1).Slice() {
 		if !tr1.isMeta() && len(tr1.args) != 0 {
-			for _, tr2 := range sb.problem.TermsWithSymbol(tr1.index).Slice() {
-				if !tr1.eqClass.congruent(tr2.eqClass) {
+			for _, tr2 := range sb.problem.TermsInClass(ec2).Slice() {
+				if !tr2.isMeta() && tr1.index == tr2.index {
 					fVar := sb.getVarFromFMapping(index, tr1, tr2)
 					vars2 := []Lit{fVar}
 
-- 
2.43.0


From 8294619c86dd526569d03476dcb2a9052066e7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 14/47] fix: -sateq: index terms by the classes of their
 arguments so that congruence propagates

---
 src/Mods/equality/sateq/problem.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Mods/equality/sateq/problem.go b/src/Mods/equality/sateq/problem.go
index 7c409c6..661bd6c 100644
--- a/src/Mods/equality/sateq/problem.go
+++ b/src/Mods/equality/sateq/problem.go
@@ -147,7 +147,9 @@ func (problem *Problem) addNewTermRecord(tr *termRecord) *eqClass {
 			problem.functionsIndex[tr.index] = Glob.NewList[*termRecord]()
 		}
 		problem.functionsIndex[tr.index].Append(tr)
-		problem.supertermIndex[ec].Append(tr)
+		for _, arg := range tr.args {
+			problem.supertermIndex[arg.representative()].AppendIfNotContains(tr)
+		}
 	}
 	return ec
 }
@@ -173,9 +175,10 @@ func (problem *Problem) mergeEquivalenceClasses(ec1, ec2 *eqClass) {
 	delete(problem.supertermIndex, ecDeleted)
 
 	// propagate congruence
-	for _, t3 := range problem.supertermIndex[ecMerged].Slice() {
+	superterms := problem.supertermIndex[ecMerged].Slice()
+	for _, t3 := range superterms {
 		// !t3.isMeta
-		for _, t4 := range problem.supertermIndex[ecMerged].Slice() {
+		for _, t4 := range superterms {
 			ec3 := t3.eqClass
 			ec4 := t4.eqClass
 			if !ec3.congruent(ec4) && t3.congruent(t4) {
-- 
2.43.0


From a2f5f17bf796b129bb3ff13d967f93c39f4d565a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 15/47] fix: -sateq: answer substitutions without identity or
 unresolved bindings

---
 src/Mods/equality/sateq/subsgatherer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Mods/equality/sateq/subsgatherer.go b/src/Mods/equality/sateq/subsgatherer.go
index 41b30cf..05dace4 100644
--- a/src/Mods/equality/sateq/subsgatherer.go
+++ b/src/Mods/equality/sateq/subsgatherer.go
@@ -92,8 +92,13 @@ func translateSub(sub map[*termRecord]*eqClass, correspondence map[*eqClass]*ter
 	subs := Unif.MakeEmptySubstitution()
 
 	for x, r := range sub {
-		subs.Set(*x.meta, translate(r, correspondence))
+		value := translate(r, correspondence)
+		if !value.Equals(*x.meta) {
+			subs.Set(*x.meta, value)
+		}
 	}
+	Unif.EliminateMeta(&subs)
+	Unif.Eliminate(&subs)
 
 	result = append(result, subs)
 	return result
-- 
2.43.0


From 5a8f90f0fb02ef72cfb0209041af8d8fa41e05a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 16/47] fix: backtracking on rewrite rules leaves no empty
 substitution pending

---
 src/Search/child_management.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Search/child_management.go b/src/Search/child_management.go
index a71c6a1..b21dc8d 100644
--- a/src/Search/child_management.go
+++ b/src/Search/child_management.go
@@ -341,6 +341,11 @@ func (ds *destructiveSearch) manageBacktrackForDMT(args wcdArgs) {
 	// The last formula of getLF is the previous formula choosen among rewritten. So, discard it and add the new one
 	args.st.SetLF(append(args.st.GetLF()[0:len(args.st.GetLF())-1].Copy(), nextForm))
 
+	// As for the first formula, a rewriting which binds no metavariable leaves nothing to pass on.
+	if nextSaF.GetSaf().GetSubst().Empty() {
+		nextSaF = Core.MakeEmptyIntSubstAndFormAndTerms()
+	}
+
 	copiedState := args.st.Copy()
 	communicationChild := Communication{make(chan bool), make(chan Result)}
 	go ds.ProofSearch(Glob.GetGID(), copiedState, communicationChild, nextSaF.GetSaf().ToSubstAndForm(), childNode, childNode, args.toReintroduce, false)
-- 
2.43.0


From 2bc74a1d6b7fcaa3828ef40a09d22e6309bcf785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:27 +0000
Subject: [PATCH 17/47] fix: a node which rewrote an atom restarts from the
 atom when its father sends a substitution

---
 src/Search/child_management.go | 13 +++----------
 src/Search/destructive.go      | 27 ++++++---------------------
 2 files changed, 9 insertions(+), 31 deletions(-)

diff --git a/src/Search/child_management.go b/src/Search/child_management.go
index b21dc8d..856f8a0 100644
--- a/src/Search/child_management.go
+++ b/src/Search/child_management.go
@@ -338,15 +338,14 @@ func (ds *destructiveSearch) manageBacktrackForDMT(args wcdArgs) {
 	args.st.SetCurrentProofRuleName("Rewrite")
 	args.st.SetCurrentProofIdDMT(nextSaF.GetId_rewrite())
 
-	// The last formula of getLF is the previous formula choosen among rewritten. So, discard it and add the new one
-	args.st.SetLF(append(args.st.GetLF()[0:len(args.st.GetLF())-1].Copy(), nextForm))
-
 	// As for the first formula, a rewriting which binds no metavariable leaves nothing to pass on.
 	if nextSaF.GetSaf().GetSubst().Empty() {
 		nextSaF = Core.MakeEmptyIntSubstAndFormAndTerms()
 	}
 
+	// The last formula of getLF is the atom which is rewritten. So, discard it and add the new one
 	copiedState := args.st.Copy()
+	copiedState.SetLF(append(args.st.GetLF()[0:len(args.st.GetLF())-1].Copy(), nextForm))
 	communicationChild := Communication{make(chan bool), make(chan Result)}
 	go ds.ProofSearch(Glob.GetGID(), copiedState, communicationChild, nextSaF.GetSaf().ToSubstAndForm(), childNode, childNode, args.toReintroduce, false)
 	debug(Lib.MkLazy(func() string { return "GO !" }))
@@ -365,13 +364,7 @@ func updateProof(args wcdArgs, proofChildren [][]ProofStruct) State {
 	if Glob.GetProof() {
 		proofList := args.st.GetProof()
 		if args.overwrite {
-			// TODO: check if it gets properly rewritten when a backtrack on it is done.
-			if proofList[len(proofList)-1].Rule == "Rewrite" && (proofChildren[0][0].Rule != "Rewrite" || proofChildren[0][0].Node_id != proofList[len(proofList)-1].Node_id) {
-				proofList[len(proofList)-1].Children = [][]ProofStruct{}
-				proofList = append(proofList, proofChildren[0]...)
-			} else {
-				proofList = append(proofList[:len(proofList)-1], proofChildren[0]...)
-			}
+			proofList = append(proofList[:len(proofList)-1], proofChildren[0]...)
 		} else {
 			args.st.SetCurrentProofChildren(proofChildren)
 			proofList = append(proofList, args.st.GetCurrentProof())
diff --git a/src/Search/destructive.go b/src/Search/destructive.go
index a31e502..4ae04b5 100644
--- a/src/Search/destructive.go
+++ b/src/Search/destructive.go
@@ -593,27 +593,9 @@ func (ds *destructiveSearch) waitFather(father_id uint64, st State, c Communicat
 			meta_to_reintroduce_from_subt := retrieveMetaFromSubst(father_subst)
 			new_meta_to_reintroduce := Glob.InterIntList(meta_to_reintroduce, meta_to_reintroduce_from_subt)
 
-			// Special case: the current node is a rewriting node.
-			// As such, this rule can not be applied back.
-			// Thus, we always need to put the rewrite rule in first, so apply subst on it + no overwrite
-			is_rewrite := st.GetCurrentProof().Rule == "Rewrite"
-
-			if is_rewrite {
-				prf := st.GetCurrentProof()
-				prf.Formula = Core.MakeFormAndTerm(
-					Core.ApplySubstitutionsOnFormula(father_subst, prf.Formula.GetForm()),
-					prf.Formula.Terms,
-				)
-				for i, test := range prf.Result_formulas {
-					prf.Result_formulas[i] = MakeIntFormAndTermsList(
-						test.GetI(),
-						Core.ApplySubstitutionsOnFormAndTermsList(father_subst, test.GetFL()),
-					)
-				}
-			}
-
 			st_copy := st.Copy()
 			st_copy.SetGlobUnifier(Core.MakeUnifier())
+			st_copy.SetBTOnFormulas(false)
 
 			c2 := Communication{make(chan bool), make(chan Result)}
 
@@ -1026,8 +1008,9 @@ func (ds *destructiveSearch) tryRewrite(rewritten []Core.IntSubstAndForm, f Core
 		// Create a child with the current rewriting rule and make this process to wait for him,
 		// with a list of other subst to try
 
-		// all atomics but not the chosen one
-		state.SetLF(append(remainingAtomics.Copy(), choosenRewrittenForm.Copy()))
+		// This node keeps the atom itself: it is rewritten again if the father sends a substitution
+		// under which the rewrite rule may no longer apply.
+		state.SetLF(append(remainingAtomics.Copy(), f.Copy()))
 		state.SetBTOnFormulas(true) // I need to know that I can bt on form and my child needs to know it to to don't loop
 
 		// Proof
@@ -1044,6 +1027,8 @@ func (ds *destructiveSearch) tryRewrite(rewritten []Core.IntSubstAndForm, f Core
 
 		otherState := state.Copy()
 		otherState.SetBTOnFormulas(false)
+		// all atomics but not the chosen one
+		otherState.SetLF(append(remainingAtomics.Copy(), choosenRewrittenForm.Copy()))
 
 		channelChild := Communication{make(chan bool), make(chan Result)}
 		go ds.ProofSearch(Glob.GetGID(), otherState, channelChild, choosenRewritten.GetSaf().ToSubstAndForm(), childNode, childNode, []int{}, false)
-- 
2.43.0


From 013f68336229fe1de9024c36f2289695c99f7d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:01 +0000
Subject: [PATCH 18/47] fix: renaming variables must not capture a user
 variable with the generated name

---
 src/AST/maker.go       | 17 +++++++++++++++++
 src/AST/quantifiers.go |  3 +--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/AST/maker.go b/src/AST/maker.go
index 427701e..1c591b3 100644
--- a/src/AST/maker.go
+++ b/src/AST/maker.go
@@ -37,6 +37,7 @@
 package AST
 
 import (
+	"fmt"
 	"sync"
 
 	"github.com/GoelandProver/Goeland/Glob"
@@ -128,6 +129,22 @@ func MakerNewVar(s string) Var {
 	return vr
 }
 
+/* Makes a variable whose name extends s and is not used by any other variable */
+func MakerRenamedVar(s string) Var {
+	newVar := MakerNewVar(s)
+	lock_term.Lock()
+	suffix := newVar.GetIndex()
+	name := fmt.Sprintf("%s%d", s, suffix)
+	_, used := idVar[name]
+	for used {
+		suffix += 1
+		name = fmt.Sprintf("%s%d", s, suffix)
+		_, used = idVar[name]
+	}
+	lock_term.Unlock()
+	return MakerNewVar(name)
+}
+
 /* Meta maker */
 func MakerMeta(s string, formula int, ty Ty) Meta {
 	lock_term.Lock()
diff --git a/src/AST/quantifiers.go b/src/AST/quantifiers.go
index a7e8a95..98e2db0 100644
--- a/src/AST/quantifiers.go
+++ b/src/AST/quantifiers.go
@@ -157,8 +157,7 @@ func (q quantifier) renameVariables() quantifier {
 
 	newTyBv := Lib.NewList[Lib.Pair[TyBound, Ty]]()
 	for _, v := range q.GetVarList().GetSlice() {
-		newVar := MakerNewVar(v.GetName())
-		newVar = MakerVar(fmt.Sprintf("%s%d", newVar.GetName(), newVar.GetIndex()))
+		newVar := MakerRenamedVar(v.GetName())
 		newVarList.Append(MkTypedVar(newVar.name, newVar.index, v.ty))
 		f, replaced := newForm.ReplaceTermByTerm(v.ToBoundVar(), newVar)
 		if !replaced {
-- 
2.43.0


From a81b8a778cb1ac2ad3e62f80199b04e494100d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:01 +0000
Subject: [PATCH 19/47] fix: the TPTP lexer lost the last token, garbled or
 conflated quoted words and silently truncated files

---
 src/Parser/tptp_lex.go  | 143 +++++++++++++++++++---------------------
 src/Parser/tptp_parse.y |   2 +-
 2 files changed, 70 insertions(+), 75 deletions(-)

diff --git a/src/Parser/tptp_lex.go b/src/Parser/tptp_lex.go
index 8ed6630..dce7f15 100644
--- a/src/Parser/tptp_lex.go
+++ b/src/Parser/tptp_lex.go
@@ -35,6 +35,7 @@ package Parser
 import (
 	"fmt"
 	"os"
+	"strings"
 	"unicode"
 
 	"github.com/GoelandProver/Goeland/Glob"
@@ -84,8 +85,12 @@ func (lexer *TPTPLex) remove(chars int) {
 	}
 }
 
+func (lexer TPTPLex) atEOF() bool {
+	return lexer.pos >= len(lexer.s)
+}
+
 func (lexer TPTPLex) checkNext(c rune) bool {
-	// True if EOF or following char is c
+	// True if following char is c
 	return rune(lexer.s[lexer.pos]) == c
 }
 
@@ -96,61 +101,34 @@ func (lexer TPTPLex) checkNext(c rune) bool {
 // <comment>              ::- <comment_line>|<comment_block>
 // <comment_line>         ::- [%]<printable_char>*
 // <comment_block>        ::: [/][*]<not_star_slash>[*][*]*[/]
-// Returns false if the next char is EOF
-func (lexer *TPTPLex) filterComments() bool {
-	if lexer.c == '%' { // Comment line
-		lexer.advance()
-		for lexer.pos < len(lexer.s) && lexer.isPrintableChar() {
-			lexer.advance()
-		}
-		return lexer.pos < len(lexer.s)
-	} else if lexer.c == '/' {
-		if lexer.checkAdvance('*') {
-			lexer.advance()
-			for lexer.pos < len(lexer.s) && lexer.notStarSlash() {
-				if lexer.c == '\n' {
-					yylineno += 1
-				}
-				lexer.advance()
-			}
-
-			if lexer.pos == len(lexer.s) {
-				lexer.Error("Multi-line comment started but never ended.")
-			}
+// <not_star_slash>       ::: ([^*]*[*][*]*[^/*])*[^*]*
+// A line comment runs up to the end of the line, whatever it contains.
+func (lexer *TPTPLex) filterComments() {
+	if lexer.atEOF() {
+		return
+	}
 
-			// Finishes by */
-			if lexer.s[lexer.pos-2] == '*' {
-				lexer.advance()
-			}
+	if lexer.checkNext('%') { // Comment line
+		for !lexer.atEOF() && !lexer.checkNext('\n') {
+			lexer.pos += 1
+		}
+	} else if strings.HasPrefix(lexer.s[lexer.pos:], "/*") {
+		length := strings.Index(lexer.s[lexer.pos+2:], "*/")
+		if length == -1 {
+			lexer.Error("Multi-line comment started but never ended.")
 		}
-		return lexer.pos < len(lexer.s)
+		yylineno += strings.Count(lexer.s[lexer.pos:lexer.pos+2+length], "\n")
+		lexer.pos += length + 4
 	}
-
-	return true
 }
 
-func (lexer *TPTPLex) filterSpaces() bool {
-	for lexer.pos < len(lexer.s) && (lexer.c == ' ' || lexer.c == '\n' || lexer.c == '\r' || lexer.c == '\t') {
-		if lexer.c == '\n' {
+func (lexer *TPTPLex) filterSpaces() {
+	for !lexer.atEOF() && (lexer.checkNext(' ') || lexer.checkNext('\n') || lexer.checkNext('\r') || lexer.checkNext('\t')) {
+		if lexer.checkNext('\n') {
 			yylineno += 1
 		}
-		lexer.advance()
+		lexer.pos += 1
 	}
-
-	return lexer.pos < len(lexer.s)
-}
-
-// <printable_char>       ::: .
-// %----<printable_char> is any printable ASCII character, codes 32 (space) to 126
-// %----(tilde). <printable_char> does not include tabs, newlines, bells, etc. The
-// %----use of . does not not exclude tab, so this is a bit loose.
-func (lexer *TPTPLex) isPrintableChar() bool {
-	return int(lexer.c) >= 32 && int(lexer.c) <= 126
-}
-
-// <not_star_slash>       ::: ([^*]*[*][*]*[^/*])*[^*]*
-func (lexer *TPTPLex) notStarSlash() bool {
-	return lexer.c != '*' || !lexer.checkAdvance('/')
 }
 
 // ----------------------------------------------------------------------------
@@ -235,16 +213,16 @@ func (lexer *TPTPLex) isOperator() (int, bool) {
 			word += ">"
 			quantifiersCounter += 1
 		} else {
-			if lexer.pos >= len(lexer.s) || lexer.checkNext(' ') {
+			if lexer.atEOF() || !lexer.checkNext('=') { // not a !=
 				quantifiersCounter += 1
 			} else {
 				return FAILURE_TOKEN, false
 			}
 		}
 	case '?':
-		if lexer.pos >= len(lexer.s) || lexer.checkNext(' ') {
-			quantifiersCounter += 1
-		} else {
+		quantifiersCounter += 1
+	case '+':
+		if !lexer.atEOF() && unicode.IsDigit(rune(lexer.s[lexer.pos])) { // signed number
 			return FAILURE_TOKEN, false
 		}
 	case '<':
@@ -363,35 +341,45 @@ func (lexer *TPTPLex) quotedWords(yylval *TPTPSymType) int {
 }
 
 func (lexer *TPTPLex) singleQuoted(yylval *TPTPSymType) {
-	word := ""
-	for lexer.isSqChar() || lexer.c == '\\' {
-		if lexer.c == '\\' {
-			lexer.advance()
-			if lexer.c == '\\' || lexer.c == '\'' {
-				word += string('\\' + lexer.c)
-			}
-		} else {
-			word += string(lexer.c)
-		}
-		lexer.advance()
+	word := lexer.quotedContent('\'', TPTPLex.isSqChar)
+	if word == "" {
+		lexer.Error("empty single-quoted word")
 	}
 	yylval.str = word
 }
 
+// The token includes the outer quotes, otherwise "cat" would be the same as cat.
 func (lexer *TPTPLex) distinctObject(yylval *TPTPSymType) {
+	yylval.str = "\"" + lexer.quotedContent('"', TPTPLex.isDoChar) + "\""
+}
+
+// The quotes of a single-quoted word are only dropped when the word cannot be
+// mistaken for another kind of token (a number, a defined word...).
+func atomicWord(quoted string) string {
+	if unicode.IsLetter(rune(quoted[0])) {
+		return quoted
+	}
+	return "'" + quoted + "'"
+}
+
+// Reads up to the closing quote. Escape sequences are left as they are written.
+func (lexer *TPTPLex) quotedContent(quote rune, isQuotedChar func(TPTPLex) bool) string {
 	word := ""
-	for lexer.isDoChar() || lexer.c == '\\' {
+	for isQuotedChar(*lexer) || lexer.c == '\\' {
+		word += string(lexer.c)
 		if lexer.c == '\\' {
 			lexer.advance()
-			if lexer.c == '\\' || lexer.c == '"' {
-				word += string('\\' + lexer.c)
+			if lexer.c != '\\' && lexer.c != quote {
+				lexer.Error("invalid escape sequence in a quoted word")
 			}
-		} else {
 			word += string(lexer.c)
 		}
 		lexer.advance()
 	}
-	yylval.str = word
+	if lexer.c != quote {
+		lexer.Error("quoted word started but never ended.")
+	}
+	return word
 }
 
 // %---Space and visible characters upto ~, except ' and \
@@ -749,7 +737,10 @@ func (lexer *TPTPLex) unsignedRational(yylval *TPTPSymType) bool {
 
 	yylval.str += "/"
 	lexer.advance()
-	return lexer.positiveDecimal(yylval)
+	if !lexer.positiveDecimal(yylval) {
+		lexer.Error("the denominator of a rational number should be positive")
+	}
+	return true
 }
 
 // %----Character classes
@@ -788,18 +779,21 @@ func (lexer TPTPLex) Error(s string) {
 }
 
 func (lexer *TPTPLex) Lex(yylval *TPTPSymType) int {
-	lexer.advance()
-
 	// Filter out comments and spaces at the lexical level
 	stop := false
 	for !stop {
 		before := lexer.pos
-		if !lexer.filterComments() || !lexer.filterSpaces() {
-			return FAILURE_TOKEN
-		}
+		lexer.filterComments()
+		lexer.filterSpaces()
 		stop = (before == lexer.pos)
 	}
 
+	if lexer.atEOF() {
+		return FAILURE_TOKEN
+	}
+
+	lexer.advance()
+
 	if token := lexer.SyntacticLex(); token != FAILURE_TOKEN {
 		// fmt.Printf("Syntactic lex: %d\n", token)
 		return token
@@ -825,6 +819,7 @@ func (lexer *TPTPLex) Lex(yylval *TPTPSymType) int {
 		return token
 	}
 
+	lexer.Error(fmt.Sprintf("unexpected character %q", lexer.c))
 	return FAILURE_TOKEN
 }
 
diff --git a/src/Parser/tptp_parse.y b/src/Parser/tptp_parse.y
index 17ec036..8e3a572 100644
--- a/src/Parser/tptp_parse.y
+++ b/src/Parser/tptp_parse.y
@@ -562,7 +562,7 @@ name: atomic_word { $$ = $1 }
   ;
 
 atomic_word: LOWER_WORD { $$ = $1 }
-  | SINGLE_QUOTED       { $$ = $1 }
+  | SINGLE_QUOTED       { $$ = atomicWord($1) }
   ;
 
 atomic_defined_word: DOLLAR_WORD { $$ = $1 }
-- 
2.43.0


From 90cb23965ac51a553668363b3dfbfbcfc441dd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 20/47] fix: included files are read in the place of their
 include statement, with their formula selection

---
 src/Parser/psyntax.go   | 12 ++++++
 src/Parser/tptp_parse.y | 20 +++++----
 src/main.go             | 91 ++++++++++++++++++++---------------------
 3 files changed, 68 insertions(+), 55 deletions(-)

diff --git a/src/Parser/psyntax.go b/src/Parser/psyntax.go
index 24c4bf1..77cf361 100644
--- a/src/Parser/psyntax.go
+++ b/src/Parser/psyntax.go
@@ -35,6 +35,8 @@
 package Parser
 
 import (
+	"slices"
+
 	"github.com/GoelandProver/Goeland/Lib"
 )
 
@@ -362,6 +364,8 @@ type PStatement struct {
 	role PFormulaRole
 	form Lib.Option[PForm]
 	ty   Lib.Option[Lib.Pair[string, PType]]
+	// The names selected by an include statement (None: the whole file).
+	selection Lib.Option[[]string]
 }
 
 func (s PStatement) Name() string                                    { return s.name }
@@ -369,6 +373,14 @@ func (s PStatement) Role() PFormulaRole                              { return s.
 func (s PStatement) Form() Lib.Option[PForm]                         { return s.form }
 func (s PStatement) TypedConst() Lib.Option[Lib.Pair[string, PType]] { return s.ty }
 
+// Whether an include statement imports the statements named [name].
+func (s PStatement) Selects(name string) bool {
+	if names, ok := s.selection.(Lib.Some[[]string]); ok {
+		return slices.Contains(names.Val, name)
+	}
+	return true
+}
+
 /*
 A function to get a FormulaRole from a String
   - "axiom"s are accepted, without proof. There is no guarantee that the axioms of a problem are consistent.
diff --git a/src/Parser/tptp_parse.y b/src/Parser/tptp_parse.y
index 8e3a572..2f44b7d 100644
--- a/src/Parser/tptp_parse.y
+++ b/src/Parser/tptp_parse.y
@@ -72,6 +72,8 @@ type TypedVar = Lib.Pair[string, PAtomicType]
     fr PFormulaRole
     stm PStatement
 	lstm []PStatement
+	names []string
+	sel Lib.Option[[]string]
 	strty Lib.Pair[string, PTypeFun]
 }
 
@@ -98,6 +100,8 @@ type TypedVar = Lib.Pair[string, PAtomicType]
 %type <lstm> tptp_file tptp_input_list
 %type <stm> tff_annotated
 %type <stm>  tptp_input annotated_formula include fof_annotated tpi_annotated
+%type <names> name_list
+%type <sel> formula_selection
 %type <str>  name atomic_word atomic_defined_word file_name type_constant type_functor defined_type variable constant defined_constant functor defined_functor untyped_atom
 %type <strty> number
 %type <fr>   formula_role 
@@ -139,15 +143,15 @@ annotated_formula: fof_annotated    { $$ = $1 }
   ;
 
 tff_annotated: TFF LEFT_PAREN name COMMA formula_role COMMA tff_formula annotations RIGHT_PAREN DOT
-  { $$ = PStatement{$3, $5, $7.form, $7.typ} }
+  { $$ = PStatement{$3, $5, $7.form, $7.typ, Lib.MkNone[[]string]()} }
   ;
 
 fof_annotated: FOF LEFT_PAREN name COMMA formula_role COMMA fof_formula annotations RIGHT_PAREN DOT
-  { $$ = PStatement{$3, $5, Lib.MkSome($7), Lib.MkNone[Lib.Pair[string, PType]]()} }
+  { $$ = PStatement{$3, $5, Lib.MkSome($7), Lib.MkNone[Lib.Pair[string, PType]](), Lib.MkNone[[]string]()} }
   ;
 
 tpi_annotated: TPI LEFT_PAREN name COMMA formula_role COMMA tpi_formula annotations RIGHT_PAREN DOT
-  { $$ = PStatement{$3, $5, Lib.MkSome($7), Lib.MkNone[Lib.Pair[string, PType]]()} }
+  { $$ = PStatement{$3, $5, Lib.MkSome($7), Lib.MkNone[Lib.Pair[string, PType]](), Lib.MkNone[[]string]()} }
   ;
 
 tpi_formula: fof_formula { $$ = $1 }
@@ -507,15 +511,15 @@ variable: UPPER_WORD { $$ = $1 }
   ;
 
 include: INCLUDE LEFT_PAREN file_name formula_selection RIGHT_PAREN DOT
-{ $$ = PStatement{$3, Include, Lib.MkNone[PForm](), Lib.MkNone[Lib.Pair[string, PType]]()} }
+{ $$ = PStatement{$3, Include, Lib.MkNone[PForm](), Lib.MkNone[Lib.Pair[string, PType]](), $4} }
   ;
 
-formula_selection:
-  | COMMA LEFT_BRACKET name_list RIGHT_BRACKET
+formula_selection:                            { $$ = Lib.MkNone[[]string]() }
+  | COMMA LEFT_BRACKET name_list RIGHT_BRACKET { $$ = Lib.MkSome($3) }
   ;
 
-name_list: name
-  | name COMMA name_list
+name_list: name          { $$ = []string{$1} }
+  | name COMMA name_list { $$ = append([]string{$1}, $3...) }
   ;
 
 source: general_term
diff --git a/src/main.go b/src/main.go
index 4f51ef7..f0b83cf 100644
--- a/src/main.go
+++ b/src/main.go
@@ -143,7 +143,7 @@ func presearchLoader() (AST.Form, int) {
 		}),
 	)
 
-	statements, bound, containsEquality := Parser.ParseTPTPFile(problem)
+	statements, bound, containsEquality := parseProblem(problem)
 	actual_statements, is_typed_problem := Engine.ToInternalSyntax(statements)
 
 	debug(
@@ -157,12 +157,7 @@ func presearchLoader() (AST.Form, int) {
 		bound = Glob.GetLimit()
 	}
 
-	form, bound, contEq, is_typed_include := StatementListToFormula(
-		actual_statements,
-		bound,
-		path.Dir(problem),
-	)
-	containsEquality = containsEquality || contEq
+	form := StatementListToFormula(actual_statements)
 
 	if !containsEquality {
 		Glob.SetPlugin("equality", false)
@@ -173,7 +168,7 @@ func presearchLoader() (AST.Form, int) {
 		Glob.Fatal(main_label, "Problem not found")
 	}
 
-	if is_typed_problem || is_typed_include {
+	if is_typed_problem {
 		checkForTypedProof(form)
 	}
 
@@ -224,16 +219,47 @@ func initDebuggers() {
 	gs3.InitDebugger()
 }
 
+// Parses a problem and puts the contents of the included files in the place of the include statements.
+func parseProblem(problem string) ([]Parser.PStatement, int, bool) {
+	parsed, bound, containsEquality := Parser.ParseTPTPFile(problem)
+	statements := []Parser.PStatement{}
+
+	for _, statement := range parsed {
+		if statement.Role() != Parser.Include {
+			statements = append(statements, statement)
+			continue
+		}
+
+		realname, err := getFile(statement.Name(), path.Dir(problem))
+		debug(
+			Lib.MkLazy(func() string { return fmt.Sprintf("File to parse : %s\n", realname) }),
+		)
+
+		if err != nil {
+			Glob.Fatal(main_label, err.Error())
+		}
+
+		// The parser counts the quantifiers of all the files it has read.
+		included, newBound, contEq := parseProblem(realname)
+		bound = newBound
+		containsEquality = containsEquality || contEq
+
+		for _, included_statement := range included {
+			if statement.Selects(included_statement.Name()) {
+				statements = append(statements, included_statement)
+			}
+		}
+	}
+
+	return statements, bound, containsEquality
+}
+
 // FIXME: eventually, we would want to add an "interpretation" layer between elab and internal representation that does this
 func StatementListToFormula(
 	statements []Core.Statement,
-	old_bound int,
-	problemDir string,
-) (form AST.Form, bound int, containsEquality bool, is_typed_problem bool) {
+) AST.Form {
 	and_list := Lib.NewList[AST.Form]()
-	is_typed_problem = false
 	negated_conjecture := Lib.MkNone[AST.Form]()
-	bound = old_bound
 
 	raise_on_multiple_conjectures := func() {
 		if _, is_some := negated_conjecture.(Lib.Some[AST.Form]); is_some {
@@ -243,35 +269,6 @@ func StatementListToFormula(
 
 	for _, statement := range statements {
 		switch statement.GetRole() {
-		case Core.Include:
-			file_name := statement.GetName()
-
-			realname, err := getFile(file_name, problemDir)
-			debug(
-				Lib.MkLazy(func() string { return fmt.Sprintf("File to parse : %s\n", realname) }),
-			)
-
-			if err != nil {
-				Glob.Fatal(main_label, err.Error())
-				return nil, -1, false, false
-			}
-
-			new_lstm, bound_tmp, contEq := Parser.ParseTPTPFile(realname)
-			actual_new_lstm, is_typed := Engine.ToInternalSyntax(new_lstm)
-			containsEquality = containsEquality || contEq
-			new_form_list, new_bound, contEq, is_typed := StatementListToFormula(
-				actual_new_lstm,
-				bound_tmp,
-				path.Join(problemDir, path.Dir(file_name)),
-			)
-			containsEquality = containsEquality || contEq
-			is_typed_problem = is_typed_problem || is_typed
-
-			if new_form_list != nil {
-				bound = new_bound
-				and_list.Append(new_form_list)
-			}
-
 		case Core.Axiom:
 			switch f := statement.GetForm().(type) {
 			case Lib.Some[AST.Form]:
@@ -317,22 +314,22 @@ func StatementListToFormula(
 	switch conj := negated_conjecture.(type) {
 	case Lib.None[AST.Form]:
 		if and_list.Empty() {
-			return nil, bound, containsEquality, is_typed_problem
+			return nil
 		} else {
-			return AST.MakerAnd(and_list), bound, containsEquality, is_typed_problem
+			return AST.MakerAnd(and_list)
 		}
 	case Lib.Some[AST.Form]:
 		if and_list.Empty() {
-			return conj.Val, bound, containsEquality, is_typed_problem
+			return conj.Val
 		} else {
 			flattened := AST.FlattenAnd(and_list)
 			flattened.Append(conj.Val)
-			return AST.MakerAnd(flattened), bound, containsEquality, is_typed_problem
+			return AST.MakerAnd(flattened)
 		}
 	}
 
 	Glob.Anomaly(main_label, "reached an unreachable state")
-	return nil, -1, false, false
+	return nil
 }
 
 func doAxiomStatement(andList Lib.List[AST.Form], f AST.Form) Lib.List[AST.Form] {
-- 
2.43.0


From 545ca45137d78caef96e5a41054ecf7f24d09c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:39 +0000
Subject: [PATCH 21/47] fix: operations on a set modified the trees of the sets
 it was built from

---
 src/Lib/sets.go | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/Lib/sets.go b/src/Lib/sets.go
index be86e7d..61fcebc 100644
--- a/src/Lib/sets.go
+++ b/src/Lib/sets.go
@@ -88,8 +88,15 @@ func newHeight[T Ordered](node *Node[T]) int {
 	return 1 + max(height(node.left), height(node.right))
 }
 
+// Sets share nodes: an operation never modifies a node in place but works on copies.
+func shallowCpy[T Ordered](node *Node[T]) *Node[T] {
+	newNode := *node
+	return &newNode
+}
+
 func rotateLeft[T Ordered](w *Node[T]) *Node[T] {
-	n := w.left
+	w = shallowCpy(w)
+	n := shallowCpy(w.left)
 	w.left = n.right
 	n.right = w
 	w.height = newHeight(w)
@@ -98,7 +105,8 @@ func rotateLeft[T Ordered](w *Node[T]) *Node[T] {
 }
 
 func rotateRight[T Ordered](w *Node[T]) *Node[T] {
-	n := w.right
+	w = shallowCpy(w)
+	n := shallowCpy(w.right)
 	w.right = n.left
 	n.left = w
 	w.height = newHeight(w)
@@ -141,6 +149,7 @@ func insert[T Ordered](node *Node[T], x T) *Node[T] {
 		return node
 	}
 
+	node = shallowCpy(node)
 	if x.Less(node.value) {
 		node.left = insert(node.left, x)
 	} else {
@@ -163,6 +172,7 @@ func remove[T Ordered](node *Node[T], x T) *Node[T] {
 		return node
 	}
 
+	node = shallowCpy(node)
 	if x.Less(node.value) {
 		node.left = remove(node.left, x)
 	} else if node.value.Less(x) {
@@ -173,11 +183,7 @@ func remove[T Ordered](node *Node[T], x T) *Node[T] {
 			if n == nil {
 				n = node.right
 			}
-			if n == nil {
-				return nil
-			} else {
-				node = n
-			}
+			return n
 		} else {
 			newVal := minValue(node.right)
 			node.value = newVal
@@ -185,10 +191,6 @@ func remove[T Ordered](node *Node[T], x T) *Node[T] {
 		}
 	}
 
-	if node == nil {
-		return nil
-	}
-
 	node.height = newHeight(node)
 	return rebalance(node)
 }
@@ -233,7 +235,7 @@ func nodeCpy[T Ordered](node *Node[T]) *Node[T] {
 		return node
 	}
 
-	newNode := mkNode(node.value)
+	newNode := shallowCpy(node)
 	newNode.left = nodeCpy(node.left)
 	newNode.right = nodeCpy(node.right)
 
@@ -322,7 +324,7 @@ func (s Set[T]) Filter(pred Func[T, bool]) Set[T] {
 	res := EmptySet[T]()
 	for _, x := range s.Elements().GetSlice() {
 		if pred(x) {
-			res.Add(x)
+			res = res.Add(x)
 		}
 	}
 	return res
-- 
2.43.0


From 9a8b371a838f2d4e3bfb41fa91a867db26ac9906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:39 +0000
Subject: [PATCH 22/47] fix: the type checker ignored the type of terms and of
 quantified variables

---
 src/Typing/rules.go | 68 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 54 insertions(+), 14 deletions(-)

diff --git a/src/Typing/rules.go b/src/Typing/rules.go
index 96c0e16..af74ee9 100644
--- a/src/Typing/rules.go
+++ b/src/Typing/rules.go
@@ -66,6 +66,7 @@ func typecheckForm(con Con, form AST.Form) bool {
 			f.GetID().GetName(),
 			f.GetTyArgs(),
 			f.GetArgs(),
+			AST.TProp(),
 			Lib.MkLazy(func() string { return form.ToString() }),
 		)
 
@@ -78,20 +79,10 @@ func typecheckForm(con Con, form AST.Form) bool {
 		)
 
 	case AST.All:
-		return typecheckRec(
-			con.addTypedVars(f.GetVarList()),
-			Lib.MkListV(f.GetForm()),
-			Lib.NewList[Lib.Pair[AST.Term, AST.Ty]](),
-			Lib.NewList[AST.Ty](),
-		)
+		return typecheckQuantified(con, f.GetVarList(), f.GetForm())
 
 	case AST.Ex:
-		return typecheckRec(
-			con.addTypedVars(f.GetVarList()),
-			Lib.MkListV(f.GetForm()),
-			Lib.NewList[Lib.Pair[AST.Term, AST.Ty]](),
-			Lib.NewList[AST.Ty](),
-		)
+		return typecheckQuantified(con, f.GetVarList(), f.GetForm())
 	}
 
 	Glob.Anomaly(
@@ -101,6 +92,17 @@ func typecheckForm(con Con, form AST.Form) bool {
 	return false
 }
 
+func typecheckQuantified(con Con, vars Lib.List[AST.TypedVar], form AST.Form) bool {
+	for _, typed_var := range vars.GetSlice() {
+		if !AST.IsTType(typed_var.GetTy()) && !typecheckType(con, typed_var.GetTy()) {
+			return false
+		}
+		con = con.addTypedVars(Lib.MkListV(typed_var))
+	}
+
+	return typecheckForm(con, form)
+}
+
 func typecheckTerm(con Con, term AST.Term, ty AST.Ty) bool {
 	debug(Lib.MkLazy(func() string {
 		return fmt.Sprintf("Trying to type-check: %s |- %s : %s", con.toString(), term.ToString(), ty.ToString())
@@ -133,6 +135,7 @@ func typecheckTerm(con Con, term AST.Term, ty AST.Ty) bool {
 			t.GetID().GetName(),
 			t.GetTyArgs(),
 			t.GetArgs(),
+			ty,
 			Lib.MkLazy(func() string { return t.ToString() }),
 		)
 	}
@@ -172,6 +175,14 @@ func typecheckType(con Con, ty AST.Ty) bool {
 		switch rty := oty.(type) {
 		case Lib.Some[AST.Ty]:
 			args := AST.GetArgsTy(rty.Val)
+			if !AST.IsTType(rty.Val) && (!Glob.Is[AST.TyFunc](rty.Val) || !AST.IsTType(AST.GetOutTy(rty.Val))) {
+				Glob.Fatal(
+					label,
+					fmt.Sprintf("%s is used as a type, but it is not one", nty.ToString()),
+				)
+				return false
+			}
+
 			if args.Len() != nty.Args().Len() {
 				Glob.Fatal(
 					label,
@@ -216,6 +227,7 @@ func checkFunctional(
 	name string,
 	tys Lib.List[AST.Ty],
 	args Lib.List[AST.Term],
+	expected AST.Ty,
 	debug_str Lib.Lazy[string],
 ) bool {
 	oty := QueryEnvInstance(name, tys)
@@ -237,9 +249,25 @@ func checkFunctional(
 			args,
 			instantiated_ty,
 		)
-		tys.Append(AST.GetOutTy(ty.Val))
+		// A symbol without arguments has the type of its scheme.
+		out_ty := ty.Val
+		if Glob.Is[AST.TyFunc](ty.Val) {
+			out_ty = AST.GetOutTy(ty.Val)
+		}
+
+		if !out_ty.Equals(expected) && !isNumericSubtype(out_ty, expected) {
+			Glob.Fatal(
+				label,
+				fmt.Sprintf("%s has type %s, but it should have type %s",
+					debug_str.Run(), out_ty.ToString(), expected.ToString()),
+			)
+			return false
+		}
 
-		return typecheckRec(con, Lib.NewList[AST.Form](), terms_checker, tys)
+		checked_tys := Lib.ListCpy(tys)
+		checked_tys.Append(out_ty)
+
+		return typecheckRec(con, Lib.NewList[AST.Form](), terms_checker, checked_tys)
 
 	case Lib.None[AST.Ty]:
 		Glob.Fatal(
@@ -250,6 +278,18 @@ func checkFunctional(
 	return false
 }
 
+// Integers are accepted where rationals or reals are expected, and rationals where reals are.
+func isNumericSubtype(ty, expected AST.Ty) bool {
+	numeric := Lib.MkListV(AST.TInt(), AST.TRat(), AST.TReal())
+	i, j := Lib.ListIndexOf(ty, numeric), Lib.ListIndexOf(expected, numeric)
+	if from, ok := i.(Lib.Some[int]); ok {
+		if to, ok := j.(Lib.Some[int]); ok {
+			return from.Val <= to.Val
+		}
+	}
+	return false
+}
+
 func typecheckRec(
 	con Con,
 	forms Lib.List[AST.Form],
-- 
2.43.0


From 0cce708b4766fa4a44ac04818c19700b5fee8d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:39 +0000
Subject: [PATCH 23/47] fix: elaboration of typed problems: scope of variables,
 order and number of type arguments, compound types under equality

---
 src/Engine/pretyper.go           | 13 +++++++++++++
 src/Engine/syntax-translation.go | 29 +++++++++++++++++------------
 src/Parser/psyntax.go            |  4 ++++
 3 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/Engine/pretyper.go b/src/Engine/pretyper.go
index 16386a8..f235bc3 100644
--- a/src/Engine/pretyper.go
+++ b/src/Engine/pretyper.go
@@ -120,6 +120,12 @@ func splitTypes(
 	others := Lib.NewList[Parser.PTerm]()
 	for _, ty := range tys {
 		if isTyConstr(ty.Snd) {
+			if !others.Empty() {
+				Glob.Fatal(
+					elab_label,
+					fmt.Sprintf("The type argument %s comes after a term argument", ty.Fst.ToString()),
+				)
+			}
 			actualTys.Append(parserTermToType(ty.Fst))
 		} else {
 			others.Append(ty.Fst)
@@ -191,6 +197,13 @@ func instantiateType(ty Parser.PType, lookupName string, args []Parser.PTerm) Pa
 		return nty.Right()
 
 	case Parser.PTypeQuant:
+		if len(args) < len(nty.Vars()) {
+			Glob.Fatal(
+				elab_label,
+				fmt.Sprintf("%s expects at least %d type arguments, got %d", lookupName, len(nty.Vars()), len(args)),
+			)
+		}
+
 		type_args := map[string]Parser.PType{}
 		for i, v := range nty.Vars() {
 			type_args[v.Fst] = parserTermToType(args[i])
diff --git a/src/Engine/syntax-translation.go b/src/Engine/syntax-translation.go
index 404aab9..c30f789 100644
--- a/src/Engine/syntax-translation.go
+++ b/src/Engine/syntax-translation.go
@@ -231,11 +231,12 @@ func elaborateForm(con Context, f, source_form Parser.PForm) (Context, AST.Form,
 					return Lib.MkPair(p.Fst, p.Snd.(Parser.PType))
 				},
 			)
-			new_con, form, b := elaborateForm(append(con, actualVars.GetSlice()...), pform.PForm, source_form)
+			// The variables are visible under the quantifier only.
+			_, form, b := elaborateForm(append(con, actualVars.GetSlice()...), pform.PForm, source_form)
 			if !vars.Empty() {
 				form = AST.MakerAll(vars, form)
 			}
-			return new_con, form, b
+			return con, form, b
 
 		case Parser.PQuantEx:
 			if vars.Any(func(v AST.TypedVar) bool { return AST.IsTType(v.GetTy()) }) {
@@ -250,11 +251,11 @@ func elaborateForm(con Context, f, source_form Parser.PForm) (Context, AST.Form,
 					return Lib.MkPair(p.Fst, p.Snd.(Parser.PType))
 				},
 			)
-			new_con, form, b := elaborateForm(append(con, actualVars.GetSlice()...), pform.PForm, source_form)
+			_, form, b := elaborateForm(append(con, actualVars.GetSlice()...), pform.PForm, source_form)
 			if !vars.Empty() {
 				form = AST.MakerEx(vars, form)
 			}
-			return new_con, form, b
+			return con, form, b
 		}
 	}
 	Glob.Anomaly(
@@ -491,6 +492,17 @@ func flattenProd(ty AST.Ty) []AST.Ty {
 	return []AST.Ty{ty}
 }
 
+func typeToParserTerm(ty AST.Ty) Parser.PTerm {
+	switch t := ty.(type) {
+	case AST.TyConstr:
+		return Parser.MkFun(t.Symbol(), Lib.ListMap(t.Args(), typeToParserTerm).GetSlice())
+	case AST.TyBound:
+		return Parser.MkVar(t.GetName())
+	}
+	Glob.Anomaly(elab_label, "Found a non-atomic type parameter in defined type")
+	return nil
+}
+
 func elaborateDefinedFunctionals(
 	con Context,
 	name string,
@@ -518,14 +530,7 @@ func elaborateDefinedFunctionals(
 		case AST.Fun:
 			ty = lookupInContext(con, term.GetName())
 			for _, ty := range term.GetTyArgs().GetSlice() {
-				switch t := ty.(type) {
-				case AST.TyConstr:
-					ty_args.Append(Parser.MkFunConst(t.Symbol()))
-				case AST.TyBound:
-					ty_args.Append(Parser.MkVar(t.GetName()))
-				default:
-					Glob.Anomaly(elab_label, "Found non-constant type parameter in defined type")
-				}
+				ty_args.Append(typeToParserTerm(ty))
 			}
 		case AST.Var:
 			ty = lookupInContext(con, term.GetName())
diff --git a/src/Parser/psyntax.go b/src/Parser/psyntax.go
index 77cf361..69f6e42 100644
--- a/src/Parser/psyntax.go
+++ b/src/Parser/psyntax.go
@@ -205,6 +205,10 @@ func MkVar(name string) PTerm {
 func (PFun) isPTerm() {}
 func (PVar) isPTerm() {}
 
+func MkFun(symbol string, args []PTerm) PTerm {
+	return PFun{symbol, args, Lib.MkNone[PTypeFun]()}
+}
+
 func MkFunConst(symbol string) PTerm {
 	return PFun{symbol, []PTerm{}, Lib.MkNone[PTypeFun]()}
 }
-- 
2.43.0


From 8340111b29d03b6ba308b9a5057ad76337d49e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:37 +0000
Subject: [PATCH 24/47] fix: the type of a polymorphic constant may be a type
 variable

---
 src/AST/ty-syntax.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/AST/ty-syntax.go b/src/AST/ty-syntax.go
index e521036..f717db9 100644
--- a/src/AST/ty-syntax.go
+++ b/src/AST/ty-syntax.go
@@ -419,11 +419,11 @@ func instantiateTyRec(ty, source Ty, instance map[string]Ty) Ty {
 
 func GetArgsTy(ty Ty) Lib.List[Ty] {
 	switch rty := ty.(type) {
-	case TyConstr:
+	case TyConstr, TyBound, TyMeta:
 		return Lib.NewList[Ty]()
 	case TyFunc:
 		switch nty := rty.in.(type) {
-		case TyBound, TyConstr:
+		case TyBound, TyMeta, TyConstr:
 			return Lib.MkListV(rty.in)
 		case TyProd:
 			return nty.args
-- 
2.43.0


From 1b0d2903371c2304e077233e18d2799428919939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:37 +0000
Subject: [PATCH 25/47] fix: instantiating a type variable also instantiates
 the types of the next variables

---
 src/Core/instanciation.go | 10 +++++++---
 src/Core/skolemisation.go | 15 ++++++++++-----
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/Core/instanciation.go b/src/Core/instanciation.go
index 4b1373b..756b14a 100644
--- a/src/Core/instanciation.go
+++ b/src/Core/instanciation.go
@@ -79,11 +79,15 @@ func RealInstantiate(
 	terms Lib.List[AST.Term],
 ) (FormAndTerms, Lib.Option[AST.Meta]) {
 	v := varList.At(0)
+	otherVars := varList.Slice(1, varList.Len())
 	var m Lib.Option[AST.Meta]
 
 	if AST.IsTType(v.GetTy()) {
 		meta := AST.MkTyMeta(strings.ToUpper(v.GetName()), index)
 		subForm = subForm.SubstTy(v.ToTyBoundVar(), meta)
+		otherVars = Lib.ListMap(otherVars, func(p AST.TypedVar) AST.TypedVar {
+			return p.SubstTy(v.ToTyBoundVar(), meta)
+		})
 		m = Lib.MkNone[AST.Meta]()
 	} else {
 		meta := AST.MakerMeta(strings.ToUpper(v.GetName()), index, v.GetTy())
@@ -96,12 +100,12 @@ func RealInstantiate(
 		m = Lib.MkSome(meta)
 	}
 
-	if varList.Len() > 1 {
+	if !otherVars.Empty() {
 		if status == is_exists {
-			ex := AST.MakerEx(varList.Slice(1, varList.Len()), subForm)
+			ex := AST.MakerEx(otherVars, subForm)
 			subForm = AST.MakerNot(ex)
 		} else {
-			subForm = AST.MakerAll(varList.Slice(1, varList.Len()), subForm)
+			subForm = AST.MakerAll(otherVars, subForm)
 		}
 	} else {
 		if status == is_exists {
diff --git a/src/Core/skolemisation.go b/src/Core/skolemisation.go
index 2524988..6459033 100644
--- a/src/Core/skolemisation.go
+++ b/src/Core/skolemisation.go
@@ -126,11 +126,16 @@ func realSkolemize(
 	typ int,
 ) AST.Form {
 	var res AST.Form
+	otherVars := allVars.Slice(1, allVars.Len())
 
 	if AST.IsTType(x.GetTy()) {
 		id := AST.MakerNewId("skoTy")
 		id = AST.MakerId(fmt.Sprintf("skoTy@%d", id.GetIndex()))
-		res = deltaForm.SubstTy(x.ToTyBoundVar(), AST.MkTyConst(id.ToString()))
+		ty := AST.MkTyConst(id.ToString())
+		res = deltaForm.SubstTy(x.ToTyBoundVar(), ty)
+		otherVars = Lib.ListMap(otherVars, func(v AST.TypedVar) AST.TypedVar {
+			return v.SubstTy(x.ToTyBoundVar(), ty)
+		})
 	} else {
 		selectedSkolemization, res = selectedSkolemization.Skolemize(
 			initialForm,
@@ -142,13 +147,13 @@ func realSkolemize(
 
 	switch typ {
 	case isNegAll:
-		if allVars.Len() > 1 {
-			res = AST.MakerAll(allVars.Slice(1, allVars.Len()), res)
+		if !otherVars.Empty() {
+			res = AST.MakerAll(otherVars, res)
 		}
 		res = AST.MakerNot(res)
 	case isExists:
-		if allVars.Len() > 1 {
-			res = AST.MakerEx(allVars.Slice(1, allVars.Len()), res)
+		if !otherVars.Empty() {
+			res = AST.MakerEx(otherVars, res)
 		}
 	default:
 		Glob.Anomaly("Skolemization", "impossible reconstruction case")
-- 
2.43.0


From b106c52f72fcd8aebe10c5fc5ae475f0e53dbaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:37 +0000
Subject: [PATCH 26/47] fix: substitutions of terms with type arguments are
 merged

---
 src/Unif/matching_substitutions.go | 7 +++++--
 src/Unif/parsing.go                | 5 +++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Unif/matching_substitutions.go b/src/Unif/matching_substitutions.go
index 7ed91cb..bd22813 100644
--- a/src/Unif/matching_substitutions.go
+++ b/src/Unif/matching_substitutions.go
@@ -126,7 +126,7 @@ func translateTermRec(term AST.Term) AST.Term {
 }
 
 func MkMixedFromSubst(subst Substitution) MixedSubstitution {
-	return MixedSubstitution{Lib.MkRight[TySubstitution, Substitution](subst)}
+	return translateFromSubst(subst)
 }
 
 func MkMixedFromTy(subst TySubstitution) MixedSubstitution {
@@ -276,7 +276,10 @@ func translateToSubst(subst MixedSubstitution) Substitution {
 			AST.TyToTerm(s.Val.v),
 		)
 	case Lib.Right[TySubstitution, Substitution]:
-		return s.Val
+		return MakeSubstitution(
+			s.Val.k,
+			TermsToUnificationTerms(Lib.MkListV(s.Val.v)).At(0),
+		)
 	}
 
 	Glob.Anomaly("unification internals", "Found neither a type substitution nor a substitution")
diff --git a/src/Unif/parsing.go b/src/Unif/parsing.go
index 52e6d8e..ebae337 100644
--- a/src/Unif/parsing.go
+++ b/src/Unif/parsing.go
@@ -163,6 +163,11 @@ func getFunctionalArguments(ty_args Lib.List[AST.Ty], trm_args Lib.List[AST.Term
 	return args
 }
 
+/* The unification works on terms whose type arguments are turned into arguments. */
+func TermsToUnificationTerms(terms Lib.List[AST.Term]) Lib.List[AST.Term] {
+	return getFunctionalArguments(Lib.NewList[AST.Ty](), terms)
+}
+
 func parsePred(p AST.Pred, instructions *Sequence) {
 	instructions.add(makeCheck(p.GetID()))
 	if !p.GetTyArgs().Empty() || !p.GetArgs().Empty() {
-- 
2.43.0


From 9b9f4f439bb979a687ec4d50464a1a3fa6a6b0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:37 +0000
Subject: [PATCH 27/47] fix: the type arguments of equalities and predicates
 are kept by equality reasoning

---
 .../equality/bse/equality_problem_list.go     | 15 ++++--
 src/Mods/equality/bse/equality_types.go       | 48 +++++--------------
 2 files changed, 23 insertions(+), 40 deletions(-)

diff --git a/src/Mods/equality/bse/equality_problem_list.go b/src/Mods/equality/bse/equality_problem_list.go
index fce9874..eae8192 100644
--- a/src/Mods/equality/bse/equality_problem_list.go
+++ b/src/Mods/equality/bse/equality_problem_list.go
@@ -191,17 +191,26 @@ func buildEqualityProblemMultiListFromNEQ(neq Inequalities, eq Equalities) Equal
 /* Build an equality problem list from a predicat and its negation */
 func buildEqualityProblemListFrom2Pred(p1 AST.Pred, p2 AST.Pred, eq Equalities) EqualityProblemList {
 	res := makeEmptyEqualityProblemList()
-	for i := range p1.GetArgs().GetSlice() {
+	args1 := getUnificationArguments(p1)
+	args2 := getUnificationArguments(p2)
+	for i := range args1.GetSlice() {
 		res = append(res, makeEqualityProblem(
 			eq.copy(),
-			p1.GetArgs().At(i).Copy(),
-			p2.GetArgs().At(i).Copy(),
+			args1.At(i).Copy(),
+			args2.At(i).Copy(),
 			makeEmptyConstraintStruct()),
 		)
 	}
 	return res
 }
 
+/* Returns the type arguments and the arguments of a predicate, as terms */
+func getUnificationArguments(p AST.Pred) Lib.List[AST.Term] {
+	args := Lib.ListMap(p.GetTyArgs(), AST.TyToTerm)
+	args.Append(Unif.TermsToUnificationTerms(p.GetArgs()).GetSlice()...)
+	return args
+}
+
 /* Build an equality problem multi list from a list of predicate. Take one predicate, search for its negation in the code tree, and if it found any, build the corresponding equality problem list */
 func buildEqualityProblemMultiListFromPredList(pred AST.Pred, tn Unif.DataStructure, equs Equalities) EqualityProblemMultiList {
 	res := makeEmptyEqualityProblemMultiList()
diff --git a/src/Mods/equality/bse/equality_types.go b/src/Mods/equality/bse/equality_types.go
index 482e272..ff58519 100644
--- a/src/Mods/equality/bse/equality_types.go
+++ b/src/Mods/equality/bse/equality_types.go
@@ -37,6 +37,7 @@
 package equality
 
 import (
+	"fmt"
 	"math"
 
 	"github.com/GoelandProver/Goeland/AST"
@@ -134,16 +135,7 @@ func retrieveEqualities(dt Unif.DataStructure) Equalities {
 	_, eq_list := dt.Unify(eq_pred)
 
 	for _, ms := range eq_list {
-		ms_ordered := orderSubstForRetrieve(ms.MatchingSubstitutions().GetSubst(), MetaEQ1, MetaEQ2)
-		eq1_term, ok_t1 := ms_ordered.Get(MetaEQ1)
-		if ok_t1 == -1 {
-			Glob.Anomaly("RI", "Meta_eq_1 not found in map")
-		}
-		eq2_term, ok_t2 := ms_ordered.Get(MetaEQ2)
-		if ok_t2 == -1 {
-			Glob.Anomaly("RI", "Meta_eq_2 not found in map")
-		}
-		res = append(res, eqStruct.MakeTermPair(eq1_term, eq2_term))
+		res = append(res, retrieveTermPair(ms.GetForm()))
 	}
 	return res
 }
@@ -165,36 +157,18 @@ func retrieveInequalities(dt Unif.DataStructure) Inequalities {
 	_, neq_list := dt.Unify(neq_pred)
 
 	for _, ms := range neq_list {
-		ms_ordered := orderSubstForRetrieve(ms.MatchingSubstitutions().GetSubst(), MetaNEQ1, MetaNEQ2)
-		neq1_term, ok_t1 := ms_ordered.Get(MetaNEQ1)
-		if ok_t1 == -1 {
-			Glob.Anomaly("RI", "Meta_eq_1 not found in map")
-		}
-		neq2_term, ok_t2 := ms_ordered.Get(MetaNEQ2)
-		if ok_t2 == -1 {
-			Glob.Anomaly("RI", "Meta_eq_1 not found in map")
-		}
-		res = append(res, eqStruct.MakeTermPair(neq1_term, neq2_term))
+		res = append(res, retrieveTermPair(ms.GetForm()))
 	}
 	return res
 }
 
-/* Reoder substitution in case of metavariable equalities. (X, META_1) => (META_1, X). Need to find association. */
-func orderSubstForRetrieve(s Unif.Substitutions, M1, M2 AST.Meta) Unif.Substitutions {
-	new_subst := Unif.MakeEmptySubstitution()
-	for _, subst := range s {
-		k, v := subst.Get()
-		if !k.Equals(M1) && !k.Equals(M2) {
-			if !v.IsMeta() {
-				Glob.Anomaly("OSFR", "Meta EQ/NEQ not found")
-			} else {
-				new_subst.Set(v.ToMeta(), k)
-			}
-		} else {
-			new_subst.Set(k, v)
-		}
+/* Returns the two sides of an equality found in a datastructure. */
+func retrieveTermPair(form AST.Form) eqStruct.TermPair {
+	eq_pred, ok := form.(AST.Pred)
+	if !ok || eq_pred.GetArgs().Len() != 2 {
+		Glob.Anomaly("RI", fmt.Sprintf("%s is not an equality", form.ToString()))
 	}
-	Unif.EliminateMeta(&new_subst)
-	Unif.Eliminate(&new_subst)
-	return new_subst
+
+	args := Unif.TermsToUnificationTerms(eq_pred.GetArgs())
+	return eqStruct.MakeTermPair(args.At(0), args.At(1))
 }
-- 
2.43.0


From 01abda06f424d80ef7ec0800957674f9ca2faca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:37 +0000
Subject: [PATCH 28/47] fix: equality reasoning only equates terms of the same
 type

---
 src/AST/termsDef.go                           |  4 +-
 src/Core/Sko/interface.go                     |  2 +
 src/Mods/equality/bse/constraints_struct.go   | 23 ++++++++
 src/Mods/equality/bse/equality_rules_apply.go |  3 +
 src/Mods/equality/sateq/problem.go            | 41 ++++++++++++++
 src/Mods/equality/sateq/satbuilder.go         | 30 ++++++++++
 src/Mods/equality/sateq/termrep.go            |  4 ++
 src/Typing/env-and-context.go                 | 55 ++++++++++++++++++-
 src/Typing/init.go                            |  2 +-
 9 files changed, 160 insertions(+), 4 deletions(-)

diff --git a/src/AST/termsDef.go b/src/AST/termsDef.go
index 43d097d..49f5908 100644
--- a/src/AST/termsDef.go
+++ b/src/AST/termsDef.go
@@ -346,7 +346,9 @@ func (m Meta) ReplaceSubTermBy(original_term, new_term Term) Term {
 	return m
 }
 
-func (m Meta) SubstTy(TyGenVar, Ty) Term { return m }
+func (m Meta) SubstTy(old TyGenVar, new Ty) Term {
+	return MakeMeta(m.index, m.occurence, m.name, m.formula, m.ty.SubstTy(old, new))
+}
 
 func (m Meta) GetSubTerms() Lib.List[Term] {
 	return Lib.MkListV[Term](m)
diff --git a/src/Core/Sko/interface.go b/src/Core/Sko/interface.go
index 8ef1458..5645f8b 100644
--- a/src/Core/Sko/interface.go
+++ b/src/Core/Sko/interface.go
@@ -37,6 +37,7 @@ import (
 
 	"github.com/GoelandProver/Goeland/AST"
 	"github.com/GoelandProver/Goeland/Lib"
+	"github.com/GoelandProver/Goeland/Typing"
 )
 
 /** This file provides the generic [Skolemization] interface that is exported
@@ -65,6 +66,7 @@ func genFreshSymbol(existingSymbols *Lib.Set[AST.Id], x AST.TypedVar) AST.Id {
 		fmt.Sprintf("skolem@%v@%d", x.GetName(), existingSymbols.Cardinal()),
 	)
 	*existingSymbols = existingSymbols.Add(symbol)
+	Typing.AddSkolemType(symbol.GetName(), x.GetTy())
 
 	return symbol
 }
diff --git a/src/Mods/equality/bse/constraints_struct.go b/src/Mods/equality/bse/constraints_struct.go
index dc5c79e..ca5bcb3 100644
--- a/src/Mods/equality/bse/constraints_struct.go
+++ b/src/Mods/equality/bse/constraints_struct.go
@@ -39,7 +39,10 @@ package equality
 import (
 	"fmt"
 
+	"github.com/GoelandProver/Goeland/AST"
 	"github.com/GoelandProver/Goeland/Lib"
+	"github.com/GoelandProver/Goeland/Mods/equality/eqStruct"
+	"github.com/GoelandProver/Goeland/Typing"
 	"github.com/GoelandProver/Goeland/Unif"
 )
 
@@ -114,6 +117,26 @@ func (cs *ConstraintStruct) appendIfConsistant(c Constraint) bool {
 	return true
 }
 
+/* Append the constraint that two terms have the same type, if it is consistent */
+func (cs *ConstraintStruct) appendSameType(t1, t2 AST.Term) bool {
+	ty1, ok1 := Typing.TypeOf(t1).(Lib.Some[AST.Ty])
+	ty2, ok2 := Typing.TypeOf(t2).(Lib.Some[AST.Ty])
+	if !ok1 || !ok2 {
+		return true
+	}
+	// A term which stands for a type is not equal to another one
+	if AST.IsTType(ty1.Val) || AST.IsTType(ty2.Val) {
+		return false
+	}
+	if ty1.Val.Equals(ty2.Val) {
+		return true
+	}
+	return cs.appendIfConsistant(MakeConstraint(
+		EQ,
+		eqStruct.MakeTermPair(AST.TyToTerm(ty1.Val), AST.TyToTerm(ty2.Val)),
+	))
+}
+
 /* Check if a constraint is consistant with LPO and constraint list + update cl */
 func (cs *ConstraintStruct) isConsistantWith(c Constraint) bool {
 	debug(
diff --git a/src/Mods/equality/bse/equality_rules_apply.go b/src/Mods/equality/bse/equality_rules_apply.go
index d69088b..b4f1b6c 100644
--- a/src/Mods/equality/bse/equality_rules_apply.go
+++ b/src/Mods/equality/bse/equality_rules_apply.go
@@ -153,5 +153,8 @@ func applyEQRule(l, r, sub_term_of_s, s, t AST.Term, cs ConstraintStruct) (bool,
 	if !constraints_list.appendIfConsistant(MakeConstraint(EQ, eqStruct.MakeTermPair(l, sub_term_of_s))) {
 		return false, nil, makeEmptyConstraintStruct()
 	}
+	if (l.IsMeta() || sub_term_of_s.IsMeta()) && !constraints_list.appendSameType(l, sub_term_of_s) {
+		return false, nil, makeEmptyConstraintStruct()
+	}
 	return true, new_s, constraints_list
 }
diff --git a/src/Mods/equality/sateq/problem.go b/src/Mods/equality/sateq/problem.go
index 661bd6c..823ec5d 100644
--- a/src/Mods/equality/sateq/problem.go
+++ b/src/Mods/equality/sateq/problem.go
@@ -34,6 +34,7 @@ package sateq
 import (
 	"github.com/GoelandProver/Goeland/AST"
 	"github.com/GoelandProver/Goeland/Glob"
+	"github.com/GoelandProver/Goeland/Lib"
 	equality "github.com/GoelandProver/Goeland/Mods/equality/bse"
 	"github.com/GoelandProver/Goeland/Mods/equality/eqStruct"
 	"github.com/GoelandProver/Goeland/Unif"
@@ -154,6 +155,46 @@ func (problem *Problem) addNewTermRecord(tr *termRecord) *eqClass {
 	return ec
 }
 
+// typeOf returns the type of the terms of an equivalence class, if it is known.
+func (problem *Problem) typeOf(ec *eqClass) Lib.Option[AST.Ty] {
+	for _, tr := range problem.TermsInClass(ec).Slice() {
+		if _, ok := tr.ty.(Lib.Some[AST.Ty]); ok {
+			return tr.ty
+		}
+	}
+	return Lib.MkNone[AST.Ty]()
+}
+
+// getTypeClass returns the equivalence class of the term which stands for the given type.
+func (problem *Problem) getTypeClass(ty AST.Ty) *eqClass {
+	return problem.getEquivalenceClass(AST.TyToTerm(ty))
+}
+
+// addTypes adds the types which have to be compared to the terms of the problem.
+func (problem *Problem) addTypes() {
+	for _, constraint := range problem.typeConstraints() {
+		if !constraint.isImpossible() {
+			problem.getTypeClass(constraint.metaTy)
+			problem.getTypeClass(constraint.classTy)
+		}
+	}
+}
+
+// typeConstraints returns the metas and the classes which don't obviously have the same type.
+func (problem *Problem) typeConstraints() []typeConstraint {
+	constraints := []typeConstraint{}
+	for _, meta := range problem.Metas().Slice() {
+		meta_ty, meta_ok := meta.ty.(Lib.Some[AST.Ty])
+		for _, ec := range problem.EquivalenceClasses().Slice() {
+			ec_ty, ec_ok := problem.typeOf(ec).(Lib.Some[AST.Ty])
+			if meta_ok && ec_ok && !meta_ty.Val.Equals(ec_ty.Val) {
+				constraints = append(constraints, typeConstraint{meta, ec, meta_ty.Val, ec_ty.Val})
+			}
+		}
+	}
+	return constraints
+}
+
 func (problem *Problem) mergeEquivalenceClasses(ec1, ec2 *eqClass) {
 	if ec1.congruent(ec2) {
 		return
diff --git a/src/Mods/equality/sateq/satbuilder.go b/src/Mods/equality/sateq/satbuilder.go
index 9288948..7653b85 100644
--- a/src/Mods/equality/sateq/satbuilder.go
+++ b/src/Mods/equality/sateq/satbuilder.go
@@ -32,6 +32,7 @@
 package sateq
 
 import (
+	"github.com/GoelandProver/Goeland/AST"
 	"github.com/GoelandProver/Goeland/Glob"
 	"github.com/go-air/gini"
 	"github.com/go-air/gini/z"
@@ -58,6 +59,8 @@ type SatBuilder struct {
 }
 
 func buildSAT(problem *Problem) (sb *SatBuilder) {
+	problem.addTypes()
+
 	sb = &SatBuilder{
 		problem: problem,
 
@@ -81,10 +84,37 @@ func buildSAT(problem *Problem) (sb *SatBuilder) {
 
 	sb.buildAllStandardConstraints()
 	sb.buildAllAcyclicityConstraints()
+	sb.buildTypeConstraints()
 
 	return sb
 }
 
+// typeConstraint states that a meta is mapped to a class only if they have the same type.
+type typeConstraint struct {
+	meta            *termRecord
+	class           *eqClass
+	metaTy, classTy AST.Ty
+}
+
+// isImpossible checks whether exactly one of the meta and the class stands for a type.
+func (constraint typeConstraint) isImpossible() bool {
+	return AST.IsTType(constraint.metaTy) || AST.IsTType(constraint.classTy)
+}
+
+func (sb *SatBuilder) buildTypeConstraints() {
+	for _, constraint := range sb.problem.typeConstraints() {
+		sVar := sb.getVarFromSMapping(constraint.meta, constraint.class)
+		if constraint.isImpossible() {
+			sb.addClause(sVar.Not())
+			continue
+		}
+
+		metaTy := sb.problem.getTypeClass(constraint.metaTy)
+		classTy := sb.problem.getTypeClass(constraint.classTy)
+		sb.addClause(sVar.Not(), sb.getVarFromEMapping(sb.numberOfPairs, metaTy, classTy))
+	}
+}
+
 func (sb *SatBuilder) addClause(vars ...Lit) {
 	if len(vars) > 0 {
 		for _, v := range vars {
diff --git a/src/Mods/equality/sateq/termrep.go b/src/Mods/equality/sateq/termrep.go
index 244a577..37abb77 100644
--- a/src/Mods/equality/sateq/termrep.go
+++ b/src/Mods/equality/sateq/termrep.go
@@ -37,6 +37,7 @@ import (
 
 	"github.com/GoelandProver/Goeland/AST"
 	"github.com/GoelandProver/Goeland/Lib"
+	"github.com/GoelandProver/Goeland/Typing"
 )
 
 type Ordered[T any] interface {
@@ -121,6 +122,7 @@ func metaTermRecord(m AST.Meta) *termRecord {
 		index:   m.GetIndex(),
 		eqClass: makeEqClass(),
 		meta:    &m,
+		ty:      Typing.TypeOf(m),
 	}
 }
 
@@ -130,6 +132,7 @@ func funTermRecord(t AST.Fun, args []*eqClass) *termRecord {
 		eqClass:  makeEqClass(),
 		meta:     nil,
 		symbolId: t.GetID(),
+		ty:       Typing.TypeOf(t),
 		args:     args,
 	}
 }
@@ -140,6 +143,7 @@ type termRecord struct {
 	meta     *AST.Meta
 	symbolId AST.Id
 	tyArgs   Lib.List[AST.Ty]
+	ty       Lib.Option[AST.Ty]
 	args     []*eqClass
 }
 
diff --git a/src/Typing/env-and-context.go b/src/Typing/env-and-context.go
index d46d261..4e94802 100644
--- a/src/Typing/env-and-context.go
+++ b/src/Typing/env-and-context.go
@@ -102,8 +102,9 @@ func (con Con) toString() string {
 
 // We could use [Con] to do environments, but as we need to query by name it's faster to use a map.
 type Env struct {
-	con map[string]AST.Ty
-	mut sync.Mutex
+	con     map[string]AST.Ty
+	skolems map[string]AST.Ty // types of the Skolem symbols
+	mut     sync.Mutex
 }
 
 func (env *Env) toString() string {
@@ -132,6 +133,56 @@ func AddToGlobalEnv(name string, ty AST.Ty) {
 	)
 }
 
+// Records the type of a Skolem symbol, which doesn't belong to the problem and hence is not part of
+// the global environment.
+func AddSkolemType(name string, ty AST.Ty) {
+	safeGlobalOperation(
+		func() any {
+			global_env.skolems[name] = ty
+			return nil
+		},
+	)
+}
+
+func querySkolemType(name string) (AST.Ty, bool) {
+	res := safeGlobalOperation(func() Lib.Option[AST.Ty] {
+		if ty, ok := global_env.skolems[name]; ok {
+			return Lib.MkSome(ty)
+		}
+		return Lib.MkNone[AST.Ty]()
+	})
+	ty, ok := res.(Lib.Some[AST.Ty])
+	return ty.Val, ok
+}
+
+// Returns the type of a term, if it is known. The type arguments of a function may have been turned
+// into its first arguments (see [Unif]).
+func TypeOf(term AST.Term) Lib.Option[AST.Ty] {
+	switch t := term.(type) {
+	case AST.Meta:
+		return Lib.MkSome(t.GetTy())
+	case AST.Fun:
+		if ty, ok := querySkolemType(t.GetName()); ok {
+			return Lib.MkSome(ty)
+		}
+		return Lib.OptBind(
+			QueryGlobalEnv(t.GetName()),
+			func(ty AST.Ty) Lib.Option[AST.Ty] {
+				tys := t.GetTyArgs()
+				if pi, ok := ty.(AST.TyPi); ok && tys.Empty() {
+					tys = Lib.ListMap(t.GetArgs().Slice(0, pi.VarsLen()), AST.TermToTy)
+				}
+				ty = AST.InstantiateTy(ty, tys)
+				if func_ty, ok := ty.(AST.TyFunc); ok {
+					ty = AST.GetOutTy(func_ty)
+				}
+				return Lib.MkSome(ty)
+			},
+		)
+	}
+	return Lib.MkNone[AST.Ty]()
+}
+
 func unsafeQuery(name string) Lib.Option[AST.Ty] {
 	if ty, ok := global_env.con[name]; ok {
 		return Lib.MkSome(ty)
diff --git a/src/Typing/init.go b/src/Typing/init.go
index ccbccbc..64866b1 100644
--- a/src/Typing/init.go
+++ b/src/Typing/init.go
@@ -50,7 +50,7 @@ var debug Glob.Debugger
 var debug_low_level Glob.Debugger
 
 func Init() {
-	global_env = Env{make(map[string]AST.Ty), sync.Mutex{}}
+	global_env = Env{make(map[string]AST.Ty), make(map[string]AST.Ty), sync.Mutex{}}
 	ari_var = "number"
 
 	initTPTPNativeTypes()
-- 
2.43.0


From b3b03ade5f9c273a6087d17cdec8c55916e63702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:10 +0000
Subject: [PATCH 29/47] fix: the GS3 proof of a delta-step on a variable which
 does not occur crashed

---
 src/Mods/gs3/proof.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Mods/gs3/proof.go b/src/Mods/gs3/proof.go
index 6f534e4..6aec530 100644
--- a/src/Mods/gs3/proof.go
+++ b/src/Mods/gs3/proof.go
@@ -407,6 +407,10 @@ func (gs GS3Proof) getRulesAppliedInOrder(term AST.Term, dependantForms Lib.List
 
 func (gs GS3Proof) getOffspringsOf(term AST.Term) Lib.List[AST.Form] {
 	offsprings := Lib.NewList[AST.Form]()
+	// A delta-rule on a variable that does not occur generates no term: nothing depends on it.
+	if term == nil {
+		return offsprings
+	}
 	for _, form := range gs.branchForms.GetSlice() {
 		if form.GetSubTerms().Contains(term, AST.TermEquals) {
 			offsprings.Append(form)
@@ -701,6 +705,9 @@ func (gs *GS3Proof) removeFromDeltaHisto(term AST.Term) {
 func (gs *GS3Proof) weakenAllFormsRelatedToTheTerm(term AST.Term) (Lib.List[AST.Form], []Glob.Pair[Rule, Search.ProofStruct]) {
 	rules := []Glob.Pair[Rule, Search.ProofStruct]{}
 	forms := Lib.NewList[AST.Form]()
+	if term == nil {
+		return forms, rules
+	}
 	for _, form := range gs.branchForms.GetSlice() {
 		if form.GetSubTerms().Contains(term, AST.TermEquals) {
 			// Get the rule to apply it back
@@ -718,7 +725,7 @@ func (gs *GS3Proof) weakenAllFormsRelatedToTheTerm(term AST.Term) (Lib.List[AST.
 
 func (gs GS3Proof) termHasBeenIntroducedByBranch(term AST.Term, nodeId int) bool {
 	for _, p := range gs.deltaHisto {
-		if p.Fst.Equals(term) {
+		if p.Fst != nil && p.Fst.Equals(term) {
 			// DMT needs the nodeId here, as the same formula will produce the same skolem symbol in two different
 			// branches potentially.
 			return p.Snd.Snd == nodeId
-- 
2.43.0


From 79327910f685a0db88b6c20f4cb4e4f979d20766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:10 +0000
Subject: [PATCH 30/47] fix: GS3: the result of a delta-step was put several
 times in the branch

---
 src/Mods/gs3/proof.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/Mods/gs3/proof.go b/src/Mods/gs3/proof.go
index 6aec530..64e53f3 100644
--- a/src/Mods/gs3/proof.go
+++ b/src/Mods/gs3/proof.go
@@ -186,6 +186,8 @@ func (gs *GS3Proof) makeProofOneStep(proofStep Search.ProofStruct, parent *GS3Se
 
 	rule := proofStructRuleToGS3Rule(proofStep.GetRuleName())
 	form := proofStep.GetFormula().GetForm()
+	// Whether a delta-step has already put its result in the branch.
+	deltaApplied := false
 
 	// TODO: manage rewrite rules: second return value of proofStructRuleToGS3Rule
 	switch rule {
@@ -205,7 +207,7 @@ func (gs *GS3Proof) makeProofOneStep(proofStep Search.ProofStruct, parent *GS3Se
 		seq = gs.manageGammaStep(proofStep, rule, parent)
 	// Be extra careful as it is a delta-rule
 	case NALL, EX:
-		form = gs.manageDeltaStep(proofStep, rule, parent)
+		deltaApplied = gs.manageDeltaStep(proofStep, rule, parent)
 		seq = MakeNewSequent()
 	case W:
 		seq = gs.weakenForm(form)
@@ -228,7 +230,7 @@ func (gs *GS3Proof) makeProofOneStep(proofStep Search.ProofStruct, parent *GS3Se
 	}
 
 	// If the length is superior, then it's a branching rule and it needs to be taken care of in makeProof.
-	if IsAlphaRule(rule) || IsGammaRule(rule) || IsDeltaRule(rule) || rule == REWRITE {
+	if IsAlphaRule(rule) || IsGammaRule(rule) || (IsDeltaRule(rule) && !deltaApplied) || rule == REWRITE {
 		gs.branchForms.Append(forms[0].GetSlice()...)
 		// If rule is rewrite: do not weaken the base form, as it is important to get when applying rules back.
 		// It may however induce bad weakenings.
@@ -286,14 +288,15 @@ func getDepFromTerm(term AST.Term) Lib.List[AST.Term] {
 	return Lib.MkListV(term)
 }
 
+// Returns whether the delta-rule has been applied (its result is then in the branch).
 // TODO: factorise this function to merge some steps that are similar between the two cases.
-func (gs *GS3Proof) manageDeltaStep(proofStep Search.ProofStruct, rule Rule, parent *GS3Sequent) AST.Form {
+func (gs *GS3Proof) manageDeltaStep(proofStep Search.ProofStruct, rule Rule, parent *GS3Sequent) bool {
 	originForm := proofStep.GetFormula().GetForm()
 	resultForm := proofStep.GetResultFormulas()[0].GetForms().At(0)
 	termGenerated := manageDeltasSkolemisations(proofStep.GetFormula().GetForm(), resultForm)
 
 	if Glob.IsPreInnerSko() && !gs.termHasBeenIntroducedByBranch(termGenerated, proofStep.Node_id) {
-		return resultForm
+		return false
 	}
 
 	var deltaSeq *GS3Sequent
@@ -318,7 +321,6 @@ func (gs *GS3Proof) manageDeltaStep(proofStep Search.ProofStruct, rule Rule, par
 		}
 		previousRulesApplied = append(previousRulesApplied, Glob.MakePair(rule, makeProofStructFrom(originForm, resultForm, rule)))
 		gs.lastNode = deltaSeq
-		gs.branchForms.Append(resultForm)
 		subRoot, childrenIndex := gs.applyRulesBack(previousRulesApplied, rulesApplied, offsprings)
 		if subRoot != nil {
 			gs.lastNode.addChild(subRoot)
@@ -355,7 +357,7 @@ func (gs *GS3Proof) manageDeltaStep(proofStep Search.ProofStruct, rule Rule, par
 	}
 	gs.lastNode = deltaSeq
 	gs.rulesApplied = previousRulesApplied
-	return resultForm
+	return true
 }
 
 func (gs *GS3Proof) postTreatment(proofStep Search.ProofStruct, rule Rule) []Lib.List[AST.Form] {
-- 
2.43.0


From 2b4c7e9de75cd52530a7a3fff8dd620b809ba52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:10 +0000
Subject: [PATCH 31/47] fix: GS3: the proof of a negated equivalence whose
 branch has two equal formulas was cut short

---
 src/Mods/gs3/proof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Mods/gs3/proof.go b/src/Mods/gs3/proof.go
index 64e53f3..639aabb 100644
--- a/src/Mods/gs3/proof.go
+++ b/src/Mods/gs3/proof.go
@@ -367,7 +367,7 @@ func (gs *GS3Proof) postTreatment(proofStep Search.ProofStruct, rule Rule) []Lib
 	var forms []Lib.List[AST.Form]
 	for i, fs := range proofStep.GetResultFormulas() {
 		forms = append(forms, fs.GetForms())
-		if (rule == NOR || rule == NIMP || rule == AND || rule == EQU) && forms[i].Len() == 1 {
+		if (rule == NOR || rule == NIMP || rule == AND || rule == EQU || rule == NEQU) && forms[i].Len() == 1 {
 			forms[i].Append(forms[i].At(0).Copy())
 		}
 	}
-- 
2.43.0


From b067b268f8447e9ad3f8afda353f1bc1ca6374f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:10 +0000
Subject: [PATCH 32/47] fix: Rocq: the weakening of a term ended in an anomaly

---
 src/Mods/rocq/proof.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Mods/rocq/proof.go b/src/Mods/rocq/proof.go
index e6c2721..60b7615 100644
--- a/src/Mods/rocq/proof.go
+++ b/src/Mods/rocq/proof.go
@@ -110,8 +110,9 @@ func makeStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], constantsCre
 	case Lib.None[int]:
 		// If the target formula is an equality, it _does not_ target any formula of the context,
 		// it simply tells us to close by congruence. Hence, we don't raise an anomaly if the
-		// target form is an equality.
-		if !isPredEqual(proof.GetTargetForm()) {
+		// target form is an equality. Neither does the weakening of a term target a formula.
+		weakensTerm := proof.Rule() == gs3.W && proof.TermGenerated() != nil
+		if !weakensTerm && !isPredEqual(proof.GetTargetForm()) {
 			Glob.Anomaly("rocq", fmt.Sprintf(
 				"Index of %s not found in { %s }",
 				proof.GetTargetForm().ToString(),
-- 
2.43.0


From 7745ad8a36b1d795a7b931b7be7635b3b3f9346f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:10 +0000
Subject: [PATCH 33/47] fix: proof output: the last axiom of a problem without
 a conjecture was taken for a negated conjecture

---
 src/Mods/lambdapi/proof.go | 13 ++++++++-----
 src/Mods/rocq/proof.go     | 10 +++++-----
 src/Mods/tptp/proof.go     | 23 ++++++++++-------------
 3 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/Mods/lambdapi/proof.go b/src/Mods/lambdapi/proof.go
index 4db3d34..86ca2ba 100644
--- a/src/Mods/lambdapi/proof.go
+++ b/src/Mods/lambdapi/proof.go
@@ -354,17 +354,20 @@ func gammaNotEx(proof *gs3.GS3Sequent) string {
 }
 
 // Processes the formula that was proven by Goéland.
+// When it does not end with the negation of a conjecture, everything is an axiom
+// and what has been proven is that they are contradictory.
 func processMainFormula(form AST.Form) (Lib.List[AST.Form], AST.Form) {
-	formList := Lib.NewList[AST.Form]()
 	switch nf := form.(type) {
 	case AST.Not:
-		form = nf.GetForm()
+		return Lib.NewList[AST.Form](), nf.GetForm()
 	case AST.And:
 		last := nf.GetChildFormulas().Len() - 1
-		formList = Lib.MkListV(nf.GetChildFormulas().Get(0, last)...)
-		form = nf.GetChildFormulas().At(last).(AST.Not).GetForm()
+		if not, isNot := nf.GetChildFormulas().At(last).(AST.Not); isNot {
+			return Lib.MkListV(nf.GetChildFormulas().Get(0, last)...), not.GetForm()
+		}
+		return Lib.ListCpy(nf.GetChildFormulas()), AST.MakerBot()
 	}
-	return formList, form
+	return Lib.MkListV(form), AST.MakerBot()
 }
 
 // Prints the theorem's name & properly formats the first formula.
diff --git a/src/Mods/rocq/proof.go b/src/Mods/rocq/proof.go
index 60b7615..4607de3 100644
--- a/src/Mods/rocq/proof.go
+++ b/src/Mods/rocq/proof.go
@@ -51,8 +51,8 @@ var dummy int
 
 func makeRocqProofFromGS3(proof *gs3.GS3Sequent) string {
 	dummy = 0
-	axioms, conjecture := processMainFormula(proof.GetTargetForm())
-	totalAxioms := axioms.Len()
+	root := proof.GetTargetForm()
+	axioms, conjecture := processMainFormula(root)
 	if Glob.IsLoaded("dmt") {
 		axioms.Append(dmt.GetRegisteredAxioms().GetSlice()...)
 	}
@@ -66,9 +66,9 @@ func makeRocqProofFromGS3(proof *gs3.GS3Sequent) string {
 			indices[i], hypotheses = introduce(form, hypotheses)
 		}
 		resultingString += "intros " + strings.Join(Glob.MapTo(indices, func(_ int, index int) string { return introName(index) }), " ") + ". "
-		if totalAxioms > 0 {
-			proof = proof.Child(0)
-		}
+	}
+	if _, isAnd := root.(AST.And); isAnd {
+		proof = proof.Child(0)
 	}
 	index, hypotheses := introduce(AST.MakerNot(conjecture), hypotheses)
 	resultingString += "intro " + introName(index) + ". "
diff --git a/src/Mods/tptp/proof.go b/src/Mods/tptp/proof.go
index 53a18f0..606905c 100644
--- a/src/Mods/tptp/proof.go
+++ b/src/Mods/tptp/proof.go
@@ -72,11 +72,10 @@ func makeTptpProofFromGS3(proof *gs3.GS3Sequent) string {
 
 	firstStep, nextId := performFirstStep(axioms, conjecture, hypotheses, 0)
 
-	if axioms.Len() == 0 {
-		resultingString += followProofSteps(proof, hypotheses, nextId)
-	} else {
-		resultingString += followProofSteps(proof.Child(0), hypotheses, nextId)
+	if _, isAnd := proof.GetTargetForm().(AST.And); isAnd {
+		proof = proof.Child(0)
 	}
+	resultingString += followProofSteps(proof, hypotheses, nextId)
 
 	res := resultingString + "\n" + firstStep + AxiomCut
 
@@ -489,22 +488,20 @@ func NotEquStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], target int
 /*** Initial Formula Management ***/
 
 // Processes the formula that was proven by Goéland.
+// When it does not end with the negation of a conjecture, everything is an axiom
+// and what has been proven is that they are contradictory.
 func processMainFormula(form AST.Form) (Lib.List[AST.Form], AST.Form) {
-	formList := Lib.NewList[AST.Form]()
 	switch nf := form.(type) {
 	case AST.Not:
-		form = nf.GetForm()
+		return Lib.NewList[AST.Form](), nf.GetForm()
 	case AST.And:
 		last := nf.GetChildFormulas().Len() - 1
-		formList = Lib.MkListV(nf.GetChildFormulas().Get(0, last)...)
-		switch f := nf.GetChildFormulas().At(last).(type) {
-		case AST.Not:
-			form = f.GetForm()
-		default:
-			form = f
+		if not, isNot := nf.GetChildFormulas().At(last).(AST.Not); isNot {
+			return Lib.MkListV(nf.GetChildFormulas().Get(0, last)...), not.GetForm()
 		}
+		return Lib.ListCpy(nf.GetChildFormulas()), AST.MakerBot()
 	}
-	return formList, form
+	return Lib.MkListV(form), AST.MakerBot()
 }
 
 // Prints the theorem's name & properly formats the first formula.
-- 
2.43.0


From 68337c6172b8a713a494452f0457d536296a45c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:10 +0000
Subject: [PATCH 34/47] fix: Rocq: conjunctions and disjunctions with more than
 two components (-flatten)

---
 src/Mods/rocq/proof.go | 58 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 49 insertions(+), 9 deletions(-)

diff --git a/src/Mods/rocq/proof.go b/src/Mods/rocq/proof.go
index 4607de3..254095a 100644
--- a/src/Mods/rocq/proof.go
+++ b/src/Mods/rocq/proof.go
@@ -180,16 +180,27 @@ func makeStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], constantsCre
 }
 
 func alphaStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], target int, format string) (string, []Lib.List[AST.Form]) {
+	forms := proof.GetResultFormulasOfChild(0)
+	if components := getComponents(proof.GetTargetForm()); components.Len() > 2 {
+		forms = components
+	}
 	var indices []int
-	indices, hypotheses = introduceList(proof.GetResultFormulasOfChild(0), hypotheses)
-	resultingString := fmt.Sprintf("apply "+format+". intros %s. ", introName(target), introNames(indices))
+	indices, hypotheses = introduceList(forms, hypotheses)
+	resultingString := ""
+	name := introName(target)
+	// The lemmas are binary: a formula with more components is decomposed one component at a time.
+	for ; len(indices) > 2; indices = indices[1:] {
+		rest := "R" + introName(indices[0])
+		resultingString += fmt.Sprintf("apply "+format+". intros %s %s. ", name, introName(indices[0]), rest)
+		name = rest
+	}
+	resultingString += fmt.Sprintf("apply "+format+". intros %s. ", name, introNames(indices))
 	return resultingString, []Lib.List[AST.Form]{hypotheses}
 }
 
 func betaStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], target int, format string) (string, []Lib.List[AST.Form]) {
 	resultHyps := []Lib.List[AST.Form]{}
 	var indices []int
-	resultingString := fmt.Sprintf("apply "+format+"; ", introName(target))
 	introducedNames := make([]string, 0)
 	for i := range proof.Children() {
 		hypoCopy := Lib.ListCpy(hypotheses)
@@ -198,7 +209,33 @@ func betaStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], target int,
 		resultHyps = append(resultHyps, hypoCopy)
 	}
 
-	return resultingString + "[ " + strings.Join(introducedNames, " | ") + " ].", resultHyps
+	return betaTactic(introName(target), format, introducedNames, hypotheses.Len()) + ".", resultHyps
+}
+
+// The lemmas are binary: a formula with more than two branches is split one branch at a time.
+func betaTactic(name, format string, branches []string, depth int) string {
+	resultingString := fmt.Sprintf("apply "+format+"; ", name)
+	if len(branches) > 2 {
+		rest := fmt.Sprintf("RH%d", depth)
+		branches = []string{
+			branches[0],
+			fmt.Sprintf("intros %s; %s", rest, betaTactic(rest, format, branches[1:], depth+1)),
+		}
+	}
+	return resultingString + "[ " + strings.Join(branches, " | ") + " ]"
+}
+
+// Returns what an n-ary formula is made of, from the point of view of an alpha-rule.
+func getComponents(form AST.Form) Lib.List[AST.Form] {
+	switch f := form.(type) {
+	case AST.And:
+		return f.GetChildFormulas()
+	case AST.Not:
+		if or, isOr := f.GetForm().(AST.Or); isOr {
+			return Lib.ListMap(or.GetChildFormulas(), func(g AST.Form) AST.Form { return AST.MakerNot(g) })
+		}
+	}
+	return Lib.NewList[AST.Form]()
 }
 
 func deltaStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], target int, format string, constantsCreated []AST.Term) (string, []Lib.List[AST.Form], []AST.Term) {
@@ -239,17 +276,20 @@ func rewriteStep(rewriteRule AST.Form, hypotheses Lib.List[AST.Form], target int
 }
 
 // Processes the formula that was proven by Goéland.
+// When it does not end with the negation of a conjecture, everything is an axiom
+// and what has been proven is that they are contradictory.
 func processMainFormula(form AST.Form) (Lib.List[AST.Form], AST.Form) {
-	formList := Lib.NewList[AST.Form]()
 	switch nf := form.(type) {
 	case AST.Not:
-		form = nf.GetForm()
+		return Lib.NewList[AST.Form](), nf.GetForm()
 	case AST.And:
 		last := nf.GetChildFormulas().Len() - 1
-		formList = Lib.MkListV(nf.GetChildFormulas().Get(0, last)...)
-		form = nf.GetChildFormulas().At(last).(AST.Not).GetForm()
+		if not, isNot := nf.GetChildFormulas().At(last).(AST.Not); isNot {
+			return Lib.MkListV(nf.GetChildFormulas().Get(0, last)...), not.GetForm()
+		}
+		return Lib.ListCpy(nf.GetChildFormulas()), AST.MakerBot()
 	}
-	return formList, form
+	return Lib.MkListV(form), AST.MakerBot()
 }
 
 // Prints the theorem's name & properly formats the first formula.
-- 
2.43.0


From 4306f00ca798a66409224e0aa1c1e04760d0ef2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:43 +0000
Subject: [PATCH 35/47] fix: SC-TPTP: a delta-step on a variable which does not
 occur crashed

---
 src/Mods/tptp/proof.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Mods/tptp/proof.go b/src/Mods/tptp/proof.go
index 606905c..7c250a3 100644
--- a/src/Mods/tptp/proof.go
+++ b/src/Mods/tptp/proof.go
@@ -259,7 +259,10 @@ func deltaStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], target int,
 
 	new_term := createNewConstant(proof.TermGenerated())
 
-	proof = updateSkolemSymbol(proof.TermGenerated(), new_term, proof)
+	// No term is generated when the variable does not occur in the formula.
+	if proof.TermGenerated() != nil {
+		proof = updateSkolemSymbol(proof.TermGenerated(), new_term, proof)
+	}
 
 	resultingString := fmt.Sprintf("fof(%s%d, plain, [%s] --> [], inference(%s, [status(thm), %d, '%s'], [%s])).",
 		prefix_step,
@@ -688,7 +691,7 @@ func findInConstants(term AST.Term) AST.Term {
 
 func getCreatedFromOriginal(term AST.Term) AST.Term {
 	for i, t := range original_term {
-		if t.Equals(term) {
+		if t != nil && t.Equals(term) {
 			return constant_created[i]
 		}
 	}
-- 
2.43.0


From 893f2115fb9ae12546e284840296aed45e527dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:44 +0000
Subject: [PATCH 36/47] fix: SC-TPTP: the equivalence of a negated formula
 ended in an anomaly

---
 src/Mods/tptp/proof.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Mods/tptp/proof.go b/src/Mods/tptp/proof.go
index 7c250a3..b843f34 100644
--- a/src/Mods/tptp/proof.go
+++ b/src/Mods/tptp/proof.go
@@ -389,10 +389,10 @@ func EquStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], target int) (
 		s2_closure_id) + resultingString
 	resultHyps[0] = Lib.ListAdd(resultHyps[0], newHypS2.GetSlice()...)
 
-	// Branch 2.closure : from ~A, A closure - check polarity before
+	// Branch 2.closure : from ~A, A closure
 	newHypS2Closure := Lib.ListCpy(newHypS2)
 	newHypS2Closure = Lib.ListAdd(newHypS2Closure, A)
-	targetPosS2 := findIndexPos(A, newHypS2Closure, get(A, newHypS2Closure))
+	targetPosS2 := get(A, newHypS2Closure)
 	resultingString = fmt.Sprintf("fof(%s, plain, [%s] --> [], inference(%s, [status(thm), %d], [%s])).\n\n",
 		s2_closure_id,
 		Lib.ListToString(newHypS2Closure, Lib.WithEmpty("")),
@@ -414,10 +414,10 @@ func EquStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], target int) (
 		children_id[1]) + resultingString
 	resultHyps[1] = Lib.ListAdd(resultHyps[1], newHypS3.GetSlice()...)
 
-	// Branch 3.closure : from B, ~B closure - check polarity before
+	// Branch 3.closure : from B, ~B closure
 	newHypS3Closure := Lib.ListCpy(newHypS3)
 	newHypS3Closure = Lib.ListAdd(newHypS3Closure, notB.Copy())
-	targetPosS3 := findIndexPos(B, newHypS3Closure, get(B, newHypS3Closure))
+	targetPosS3 := get(B, newHypS3Closure)
 	resultingString = fmt.Sprintf("fof(%s, plain, [%s] --> [], inference(%s, [status(thm), %d], [%s])).\n\n",
 		s3_closure_id,
 		Lib.ListToString(newHypS3Closure, Lib.WithEmpty("")),
-- 
2.43.0


From 0c4bf856201d5998c1ac6229033555396b816590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:44 +0000
Subject: [PATCH 37/47] fix: SC-TPTP: the closure by equality reasoning ended
 in an anomaly

---
 src/Mods/tptp/proof.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Mods/tptp/proof.go b/src/Mods/tptp/proof.go
index b843f34..a14cc97 100644
--- a/src/Mods/tptp/proof.go
+++ b/src/Mods/tptp/proof.go
@@ -131,13 +131,19 @@ func makeStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], new_current_
 	next_child_weakened_id := -1
 
 	updateId(proof, new_current_id)
-	target := get(proof.GetTargetForm(), hypotheses)
+
+	// The closure by equality reasoning is not about a hypothesis.
+	target := -1
+	isEqualityClosure := proof.Rule() == gs3.AX && isPredEqual(proof.GetTargetForm())
+	if !isEqualityClosure {
+		target = get(proof.GetTargetForm(), hypotheses)
+	}
 
 	switch proof.Rule() {
 
 	// Closure.
 	case gs3.AX:
-		if isPredEqual(proof.GetTargetForm()) {
+		if isEqualityClosure {
 			resultingString = fmt.Sprintf("fof("+prefix_step+"%d, plain, [%s] --> [], inference(%s, [status(thm)], [%s])).",
 				proof.GetId(),
 				Lib.ListToString(hypotheses, Lib.WithEmpty("")),
-- 
2.43.0


From 5c739d101ef13c061d87673f74fe9d63c71c94d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:44 +0000
Subject: [PATCH 38/47] fix: SC-TPTP: weakenings crashed, kept the formula
 weakened or broke the numbering of the steps

---
 src/Mods/gs3/sequent.go |  3 ++-
 src/Mods/tptp/proof.go  | 32 ++++++++++++++++++--------------
 2 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/Mods/gs3/sequent.go b/src/Mods/gs3/sequent.go
index 103ff7b..32765ae 100644
--- a/src/Mods/gs3/sequent.go
+++ b/src/Mods/gs3/sequent.go
@@ -126,7 +126,8 @@ func (seq *GS3Sequent) GetResultFormulasOfChild(i int) Lib.List[AST.Form] {
 func (seq *GS3Sequent) GetResultFormulasOfChildren() []Lib.List[AST.Form] {
 	result := []Lib.List[AST.Form]{}
 
-	for i := range seq.children {
+	// The child of a weakening has no new formula.
+	for i := range seq.formsGenerated {
 		result = append(result, seq.formsGenerated[i])
 	}
 
diff --git a/src/Mods/tptp/proof.go b/src/Mods/tptp/proof.go
index a14cc97..c48d5d4 100644
--- a/src/Mods/tptp/proof.go
+++ b/src/Mods/tptp/proof.go
@@ -88,16 +88,18 @@ func followProofSteps(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], new_
 	var resultingString string
 	var resultingStringParent string
 	var childrenHypotheses []Lib.List[AST.Form]
-	if !proof.IsEmpty() {
+	if proof.IsEmpty() {
+		// The child of an empty step takes its place.
+		updateId(proof, new_current_id)
+		new_current_id = proof.GetId()
+	} else {
 		resultingStringParent, childrenHypotheses, new_current_id = makeProofStep(proof, hypotheses, new_current_id)
 	}
 	for i, child := range proof.Children() {
 		if proof.IsEmpty() {
 			resultingString += followProofSteps(child, Lib.ListCpy(hypotheses), new_current_id) + "\n"
 		} else {
-			newHypotheses := Lib.ListCpy(hypotheses)
-			newHypotheses = Lib.ListAdd(newHypotheses, childrenHypotheses[i].GetSlice()...)
-			resultingString += followProofSteps(child, newHypotheses, new_current_id) + "\n"
+			resultingString += followProofSteps(child, Lib.ListCpy(childrenHypotheses[i]), new_current_id) + "\n"
 		}
 	}
 	return resultingString + resultingStringParent
@@ -132,10 +134,11 @@ func makeStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], new_current_
 
 	updateId(proof, new_current_id)
 
-	// The closure by equality reasoning is not about a hypothesis.
+	// Neither the closure by equality reasoning nor the weakening of a term is about a hypothesis.
 	target := -1
 	isEqualityClosure := proof.Rule() == gs3.AX && isPredEqual(proof.GetTargetForm())
-	if !isEqualityClosure {
+	isTermWeakening := proof.Rule() == gs3.W && proof.TermGenerated() != nil
+	if !isEqualityClosure && !isTermWeakening {
 		target = get(proof.GetTargetForm(), hypotheses)
 	}
 
@@ -196,8 +199,9 @@ func makeStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], new_current_
 
 	// Weakening rule
 	case gs3.W:
-		if proof.TermGenerated() != nil {
-			resultingString = fmt.Sprintf("leftWeaken %s", findInConstants(proof.TermGenerated()).ToString())
+		if isTermWeakening {
+			// Nothing to do in a sequent: the child takes the place of this step.
+			return "", childrenHypotheses, proof.GetId()
 		} else {
 			resultingString, childrenHypotheses, next_child_weakened_id = weakenStep(proof, hypotheses, target, "leftWeaken")
 		}
@@ -313,9 +317,7 @@ func gammaStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], target int,
 func weakenStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], target int, format string) (string, []Lib.List[AST.Form], int) {
 	child_id := incrByOne(&id_proof_step, &mutex_proof_step)
 
-	if target != -1 {
-		hypotheses = hypotheses.RemoveAt(target)
-	}
+	newHypotheses := hypotheses.RemoveAt(target)
 
 	resultingString := fmt.Sprintf("fof(%s%d, plain, [%s] --> [], inference(%s, [status(thm), %d], [%s%d])).",
 		prefix_step,
@@ -326,7 +328,7 @@ func weakenStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], target int
 		prefix_step,
 		child_id)
 
-	return resultingString, []Lib.List[AST.Form]{hypotheses}, child_id
+	return resultingString, []Lib.List[AST.Form]{newHypotheses}, child_id
 }
 
 func rewriteStep(rewriteRule AST.Form, hypotheses Lib.List[AST.Form], target int, replacementForm AST.Form) (string, []Lib.List[AST.Form]) {
@@ -643,8 +645,10 @@ func updateId(proof *gs3.GS3Sequent, i int) {
 func updateSkolemSymbol(old, new AST.Term, proof *gs3.GS3Sequent) *gs3.GS3Sequent {
 
 	// Update Target Form
-	new_target_form, _ := proof.GetTargetForm().ReplaceTermByTerm(old, new)
-	proof.SetTargetForm(new_target_form)
+	if !proof.IsEmpty() {
+		new_target_form, _ := proof.GetTargetForm().ReplaceTermByTerm(old, new)
+		proof.SetTargetForm(new_target_form)
+	}
 
 	// Update generated term
 	if proof.TermGenerated() != nil {
-- 
2.43.0


From e9d16a9cc76b069d0688a2557191b2f3e5fa7392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:25 +0000
Subject: [PATCH 39/47] fix: the text of a proof was used as a format string

---
 src/Search/print_proof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Search/print_proof.go b/src/Search/print_proof.go
index 69cf734..50bead9 100644
--- a/src/Search/print_proof.go
+++ b/src/Search/print_proof.go
@@ -83,5 +83,5 @@ func (ps *OutputProofStruct) printProofWithProofStruct(finalProof []ProofStruct,
 		f.WriteString(output)
 	}
 
-	fmt.Printf("\n" + output)
+	fmt.Print("\n" + output)
 }
-- 
2.43.0


From e35b1915b9cbea750ce2d706a0a059bb515b5e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:57 +0000
Subject: [PATCH 40/47] fix: the steps of an abandoned attempt stayed in the
 printed proof

---
 src/Search/child_management.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Search/child_management.go b/src/Search/child_management.go
index 856f8a0..f75de49 100644
--- a/src/Search/child_management.go
+++ b/src/Search/child_management.go
@@ -364,7 +364,15 @@ func updateProof(args wcdArgs, proofChildren [][]ProofStruct) State {
 	if Glob.GetProof() {
 		proofList := args.st.GetProof()
 		if args.overwrite {
-			proofList = append(proofList[:len(proofList)-1], proofChildren[0]...)
+			// The search started again from this node: forget everything that was found from it before.
+			end := len(proofList) - 1
+			for i, step := range proofList {
+				if step.GetNodeId() == args.nodeId {
+					end = i
+					break
+				}
+			}
+			proofList = append(proofList[:end], proofChildren[0]...)
 		} else {
 			args.st.SetCurrentProofChildren(proofChildren)
 			proofList = append(proofList, args.st.GetCurrentProof())
-- 
2.43.0


From 3117c1efb38e2f5781c7d14ee2f0ae143042ef8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:22 +0000
Subject: [PATCH 41/47] fix: removals left the trees of the sets unbalanced

---
 src/Lib/sets.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Lib/sets.go b/src/Lib/sets.go
index 61fcebc..fff2a3a 100644
--- a/src/Lib/sets.go
+++ b/src/Lib/sets.go
@@ -118,7 +118,7 @@ func rebalance[T Ordered](node *Node[T]) *Node[T] {
 	nodeBalance := balance(node)
 
 	if nodeBalance > 1 {
-		if balance(node.left) > 0 {
+		if balance(node.left) >= 0 {
 			// Unbalanced by left child of left child
 			return rotateLeft(node)
 		} else {
@@ -128,7 +128,7 @@ func rebalance[T Ordered](node *Node[T]) *Node[T] {
 		}
 	}
 	if nodeBalance < -1 {
-		if balance(node.right) < 0 {
+		if balance(node.right) <= 0 {
 			// Unbalanced by right child of right child
 			return rotateRight(node)
 		} else {
-- 
2.43.0


From e1b3a1ed0e62ff927c7ab0ecff9f0fafd86445ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:22 +0000
Subject: [PATCH 42/47] fix: two lists derived from the same list overwrote
 each other

---
 src/Lib/list.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Lib/list.go b/src/Lib/list.go
index 7ff93f3..594b1e3 100644
--- a/src/Lib/list.go
+++ b/src/Lib/list.go
@@ -204,6 +204,8 @@ func (l *List[T]) Add(cmpFunc Func2[T, T, bool], x ...T) {
 
 func ListAdd[T Comparable](l List[T], x ...T) List[T] {
 	cmp := func(x, y T) bool { return x.Equals(y) }
+	// The lists built from [l] must not share the room left after its last element.
+	l.values = l.values[:l.Len():l.Len()]
 	l.Add(cmp, x...)
 	return l
 }
-- 
2.43.0


From 08845d83be8b2cc2f94173ee938475d8926ba32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:23 +0000
Subject: [PATCH 43/47] fix: a search stopped by its limit claimed a
 countermodel

---
 src/Search/destructive.go | 4 ++++
 src/Search/search.go      | 9 ++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/Search/destructive.go b/src/Search/destructive.go
index 4ae04b5..c1f0c42 100644
--- a/src/Search/destructive.go
+++ b/src/Search/destructive.go
@@ -97,6 +97,7 @@ func (ds *destructiveSearch) Search(formula AST.Form, bound int) bool {
 
 func (ds *destructiveSearch) doOneStep(limit int, formula AST.Form) (bool, int) {
 	AST.ResetMeta()
+	limitReached.Store(false)
 	// proof.ResetProofFile()
 	ResetExchangesFile()
 
@@ -1259,6 +1260,9 @@ func (ds *destructiveSearch) applyRules(fatherId uint64, state State, c Communic
 		ds.manageReintroductionRules(fatherId, state, c, originalNodeId, metaToReintroduce, atomicDMT, currentNodeId, true)
 
 	default:
+		if len(state.GetMetaGen()) > 0 && Glob.IsDestructive() {
+			limitReached.Store(true)
+		}
 		WriteExchanges(fatherId, state, nil, Core.MakeEmptySubstAndForm(), "ApplyRules - SAT")
 		state.SetCurrentProofRule("Sat")
 		state.SetProof(append(state.GetProof(), state.GetCurrentProof()))
diff --git a/src/Search/search.go b/src/Search/search.go
index c55ab77..57fc1ee 100644
--- a/src/Search/search.go
+++ b/src/Search/search.go
@@ -38,6 +38,7 @@ package Search
 
 import (
 	"fmt"
+	"sync/atomic"
 
 	"github.com/GoelandProver/Goeland/AST"
 	"github.com/GoelandProver/Goeland/Core"
@@ -84,6 +85,10 @@ func Search(formula AST.Form, bound int) {
 	UsedSearch.Search(formula, bound)
 }
 
+// Whether a branch has been left open only because the limit of reintroductions was reached: nothing
+// can be said about the problem then.
+var limitReached atomic.Bool
+
 func PrintSearchResult(res bool) {
 	Glob.PrintInfo("Res", fmt.Sprintf("%v goroutines created", Glob.GetNbGoroutines()))
 	Glob.PrintInfo("Res", "==== Result ====")
@@ -102,7 +107,9 @@ func PrintSearchResult(res bool) {
 	} else {
 		validity = "NOT VALID"
 
-		if Glob.IsConjectureFound() {
+		if limitReached.Load() {
+			status = "GaveUp"
+		} else if Glob.IsConjectureFound() {
 			status = "CounterSatisfiable"
 		} else {
 			status = "Satisfiable"
-- 
2.43.0


From f4d663e4c5eab3ecf18ca51a6f70307f763e19d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:23 +0000
Subject: [PATCH 44/47] fix: the LambdaPi output crashed on a quantifier whose
 variable does not occur

---
 src/Mods/lambdapi/context.go |  2 +-
 src/Mods/lambdapi/proof.go   | 13 +++++++++++--
 src/Mods/lambdapi/utils.go   |  5 +++++
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/Mods/lambdapi/context.go b/src/Mods/lambdapi/context.go
index 5010236..62b4ff7 100644
--- a/src/Mods/lambdapi/context.go
+++ b/src/Mods/lambdapi/context.go
@@ -168,7 +168,7 @@ func GlobContextPairs() (types, arrows, others []Glob.Pair[string, string]) {
 }
 
 func contextPreamble() string {
-	return "require open Logic.Goeland.FOL Logic.Goeland.LL Logic.Goeland.ND Logic.Goeland.ND_eps Logic.Goeland.ND_eps_full Logic.Goeland.ND_eps_aux Logic.Goeland.LL_ND Logic.Goeland.GS3;"
+	return "require open Logic.Goeland.FOL Logic.Goeland.LL Logic.Goeland.ND Logic.Goeland.ND_eps Logic.Goeland.ND_eps_full Logic.Goeland.ND_eps_aux Logic.Goeland.LL_ND Logic.Goeland.GS3;\n\nsymbol goeland_I : τ (ι);"
 }
 
 func getContextFromFormula(root AST.Form) []string {
diff --git a/src/Mods/lambdapi/proof.go b/src/Mods/lambdapi/proof.go
index 86ca2ba..6e16a43 100644
--- a/src/Mods/lambdapi/proof.go
+++ b/src/Mods/lambdapi/proof.go
@@ -176,7 +176,12 @@ func allRulesQuantUniv(
 	}
 	result = fmt.Sprintf(result, strings.Join(varStrs, ", "+quant+" "))
 
-	result += "(" + termGen.ToString() + ")\n"
+	// The quantified variable may not occur in the formula: any element can be used then.
+	if termGen == nil {
+		result += "(goeland_I)\n"
+	} else {
+		result += "(" + termGen.ToString() + ")\n"
+	}
 
 	result += getRecursionUnivStr(nexts, children)
 
@@ -243,7 +248,11 @@ func getRecursionExistStr(nexts []*gs3.GS3Sequent, children []Lib.List[AST.Form]
 		if _, ok := termGen.(AST.Fun); ok {
 			typesStr = mapDefault("")
 		}
-		result += toLambdaIntroString(termGen, typesStr) + ",\n"
+		if termGen == nil {
+			result += toLambdaUnusedString() + ",\n"
+		} else {
+			result += toLambdaIntroString(termGen, typesStr) + ",\n"
+		}
 		for _, childForm := range children[i].GetSlice() {
 			result += toLambdaString(childForm, childForm.ToString()) + ",\n"
 		}
diff --git a/src/Mods/lambdapi/utils.go b/src/Mods/lambdapi/utils.go
index 5e6421c..8014bd7 100644
--- a/src/Mods/lambdapi/utils.go
+++ b/src/Mods/lambdapi/utils.go
@@ -66,6 +66,11 @@ func toLambdaIntroString(element Glob.Basic, typeStr string) string {
 	return fmt.Sprintf("λ (%s : τ (%s))", addToContext(element), mapDefault(typeStr))
 }
 
+// Introduces an element that is used nowhere.
+func toLambdaUnusedString() string {
+	return fmt.Sprintf("λ (v%v : τ (%s))", getIncreasedCounter(), mapDefault(""))
+}
+
 // func toCorrectString(element AST.MappableString) string {
 // 	isNotSkolem := len(element.ToString()) <= 5 || element.ToString()[:6] != "skolem"
 // 	element = decorateForm(element)
-- 
2.43.0


From 6e635b79af03b6505a99092d5e6ba498c1ad6af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:23 +0000
Subject: [PATCH 45/47] fix: unifying a metavariable with itself failed

---
 src/Unif/substitutions_tree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Unif/substitutions_tree.go b/src/Unif/substitutions_tree.go
index 5a9be9e..01e6bb6 100644
--- a/src/Unif/substitutions_tree.go
+++ b/src/Unif/substitutions_tree.go
@@ -172,6 +172,10 @@ func AddUnification(term1, term2 AST.Term, subst Substitutions) Substitutions {
 				subst.ToString())
 		}),
 	)
+	// a metavariable is already equal to itself
+	if term1.IsMeta() && term1.Equals(term2) {
+		return subst.Copy()
+	}
 	// unify with ct only if the term already has an unification or if there is 2 fun. Just add it and eliminate otherwise.
 	t1v, _ := subst.Get(term1.ToMeta())
 	t2v, _ := subst.Get(term2.ToMeta())
-- 
2.43.0


From b84d3fdcb766c2cc02029cedc246250e7c55c719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:51 +0000
Subject: [PATCH 46/47] fix: the equality reasoning looped on contradictory
 ordering constraints

---
 src/Mods/equality/bse/constraints_list.go     | 35 +++++++++----------
 src/Mods/equality/bse/constraints_type.go     | 27 --------------
 src/Mods/equality/bse/equality_rules_apply.go |  4 +++
 3 files changed, 20 insertions(+), 46 deletions(-)

diff --git a/src/Mods/equality/bse/constraints_list.go b/src/Mods/equality/bse/constraints_list.go
index 203f66d..c297262 100644
--- a/src/Mods/equality/bse/constraints_list.go
+++ b/src/Mods/equality/bse/constraints_list.go
@@ -39,7 +39,6 @@ package equality
 import (
 	"fmt"
 
-	"github.com/GoelandProver/Goeland/AST"
 	"github.com/GoelandProver/Goeland/Lib"
 	"github.com/GoelandProver/Goeland/Unif"
 )
@@ -117,29 +116,27 @@ func (cl ConstraintList) isConsistantWithSubst(s Unif.Substitutions) bool {
 }
 
 /** checkConstraintList
-* Take a constraint list metavariable < fun or fun < metavariable
-* create a map metavariable : list_eq, list_inf, list_sup
-* check intersection is empty
+* Checks that no chain of constraints t1 < t2 < ... < tn leads from a term to itself: nothing satisfies them otherwise.
+* The terms themselves are compared, two distinct metavariables may be printed the same way.
 **/
 func (cl ConstraintList) checkConstraintList() bool {
-	map_constraintes := make(map[string][]Lib.List[AST.Term])
-
-	for _, c := range cl {
+	for i, c := range cl {
 		debug(Lib.MkLazy(func() string { return fmt.Sprintf("Constraint : %v", c.toString()) }))
-		switch c.getCType() {
-		case PREC:
-			if !appendToMapAndCheck(c.getTP().GetT1().ToString(), c.getTP().GetT2(), &map_constraintes, 1, 2) {
-				return false
-			}
-			if !appendToMapAndCheck(c.getTP().GetT2().ToString(), c.getTP().GetT1(), &map_constraintes, 2, 2) {
-				return false
-			}
-		case EQ:
-			if !appendToMapAndCheck(c.getTP().GetT1().ToString(), c.getTP().GetT2(), &map_constraintes, 0, 2) {
+		if c.getCType() != PREC {
+			continue
+		}
+		greaters := Lib.MkListV(c.getTP().GetT2())
+		seen := make([]bool, len(cl))
+		seen[i] = true
+		for k := 0; k < greaters.Len(); k++ {
+			if greaters.At(k).Equals(c.getTP().GetT1()) {
 				return false
 			}
-			if !appendToMapAndCheck(c.getTP().GetT2().ToString(), c.getTP().GetT1(), &map_constraintes, 0, 2) {
-				return false
+			for j, next := range cl {
+				if !seen[j] && next.getCType() == PREC && next.getTP().GetT1().Equals(greaters.At(k)) {
+					seen[j] = true
+					greaters.Append(next.getTP().GetT2())
+				}
 			}
 		}
 	}
diff --git a/src/Mods/equality/bse/constraints_type.go b/src/Mods/equality/bse/constraints_type.go
index 453456f..a4b4aed 100644
--- a/src/Mods/equality/bse/constraints_type.go
+++ b/src/Mods/equality/bse/constraints_type.go
@@ -39,7 +39,6 @@ package equality
 import (
 	"fmt"
 
-	"github.com/GoelandProver/Goeland/AST"
 	"github.com/GoelandProver/Goeland/Core"
 	"github.com/GoelandProver/Goeland/Glob"
 	"github.com/GoelandProver/Goeland/Lib"
@@ -125,29 +124,3 @@ func (c *Constraint) checkLPO() (bool, bool) {
 
 	return true, false
 }
-
-/* append to the map and check if the new element is not in the other list */
-func appendToMapAndCheck(
-	m string,
-	t AST.Term,
-	map_constraintes *map[string][]Lib.List[AST.Term],
-	index_append,
-	index_max_other_lists int,
-) bool {
-	if _, ok := (*map_constraintes)[m]; !ok {
-		(*map_constraintes)[m] = make([]Lib.List[AST.Term], index_max_other_lists+1)
-		for i := 0; i <= index_max_other_lists; i++ {
-			(*map_constraintes)[m][i] = Lib.NewList[AST.Term]()
-		}
-	}
-
-	(*map_constraintes)[m][index_append].Append(t)
-
-	for i := 0; i <= index_max_other_lists; i++ {
-		if i != index_append &&
-			(*map_constraintes)[m][i].Contains(t, AST.TermEquals) {
-			return false
-		}
-	}
-	return true
-}
diff --git a/src/Mods/equality/bse/equality_rules_apply.go b/src/Mods/equality/bse/equality_rules_apply.go
index b4f1b6c..0c399ea 100644
--- a/src/Mods/equality/bse/equality_rules_apply.go
+++ b/src/Mods/equality/bse/equality_rules_apply.go
@@ -156,5 +156,9 @@ func applyEQRule(l, r, sub_term_of_s, s, t AST.Term, cs ConstraintStruct) (bool,
 	if (l.IsMeta() || sub_term_of_s.IsMeta()) && !constraints_list.appendSameType(l, sub_term_of_s) {
 		return false, nil, makeEmptyConstraintStruct()
 	}
+	// The rewritten term is smaller
+	if !constraints_list.appendIfConsistant(MakeConstraint(PREC, eqStruct.MakeTermPair(new_s, s))) {
+		return false, nil, makeEmptyConstraintStruct()
+	}
 	return true, new_s, constraints_list
 }
-- 
2.43.0


From 2655021be00c81bcbc22dbec5589f03e303a65cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:34 +0000
Subject: [PATCH 47/47] fix: a unifier lost an equation between values of the
 same metavariable

---
 src/Unif/substitutions_tree.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Unif/substitutions_tree.go b/src/Unif/substitutions_tree.go
index 01e6bb6..963effd 100644
--- a/src/Unif/substitutions_tree.go
+++ b/src/Unif/substitutions_tree.go
@@ -87,6 +87,15 @@ func computeSubstitutions(subs []SubstPair, metasToSubs Substitutions, form AST.
 		)
 
 		if !currentMeta.Equals(currentValue) {
+			// A value of current_meta may already follow from the previous ones
+			if HasSubst(treeSubs, currentMeta) {
+				known, _ := treeSubs.Get(currentMeta)
+				treeSubs = AddUnification(currentValue.Copy(), known.Copy(), treeSubs.Copy())
+				if treeSubs.Equals(Failure()) {
+					return Failure()
+				}
+			}
+
 			// Si current_meta a déjà une association dans metas
 			metaGet, index := metasToSubs.Get(currentMeta)
 			if HasSubst(metasToSubs, currentMeta) && (index != -1) && !currentValue.Equals(metaGet) {
-- 
2.43.0

