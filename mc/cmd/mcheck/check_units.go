package main

import "time"

func (c *Ctx) limit(q, t int) time.Duration {
	if c.Thorough() {
		return time.Duration(t) * time.Second
	}
	return time.Duration(q) * time.Second
}

func init() {
	checks["G15"] = func(c *Ctx) {
		c.Cov["rule"] = "every index of at most three atoms (or terms) of the listed pools, built at once and by successive copy-and-insert, queried with every atom of the query pool, with and without type arguments; the answers are compared with Robinson unification; the search in an index of three atoms also under every schedule close to four base schedules; non-trivial: at least one member unifies with the query"
		c.Units("zzunif", "index", c.limit(150, 500))
		c.Units("zzunif", "polyindex", c.limit(100, 100))
		c.Units("zzunifs", "schedindex", c.limit(150, 250))
	}
	checks["G16"] = func(c *Ctx) {
		c.Cov["rule"] = "every pair of idempotent substitutions with bindings of the listed pools (in every order of the bindings, with and without type metavariables) merged, every equation between two terms of the pool added to every substitution, every acyclic or cyclic system resolved, every substitution restricted to every set of metavariables, every substitution applied to every term; compared with textbook unification; non-trivial: two non-empty substitutions with a common instance, a restriction of a non-empty substitution to a non-empty set, a term that changes"
		c.Units("zzunif", "merge", c.limit(200, 600))
		c.Units("zzunif", "polymerge", c.limit(150, 200))
		c.Units("zzunif", "addunif", c.limit(100, 300))
		c.Units("zzunif", "eliminate", c.limit(100, 100))
		c.Units("zzunif", "restrict", c.limit(100, 100))
		c.Units("zzunif", "apply", c.limit(100, 100))
	}
	checks["G20"] = func(c *Ctx) {
		c.Cov["rule"] = "every set of at most two (thorough: three) equations over each pool of ground terms and terms with one or two metavariables, in both orientations, with every goal, every pair of goals to solve together and every two alternative goals, given to both procedures; answers checked by congruence closure, existence of a solution by exhaustive search of the triangular substitutions into subterms; under four base schedules and, for small problems, every schedule one decision away; non-trivial: the problem has a solution"
		c.Units("zzeqs", "eqsolve", c.limit(250, 850))
		c.Units("zzeqs", "eqpairs", c.limit(250, 600))
		c.Units("zzeqs", "eqsched", c.limit(200, 400))
	}
	checks["G17"] = func(c *Ctx) {
		c.Cov["rule"] = "sets: every tree that insertions and deletions of a few elements can build, every operation on it, every pair of trees; lists: every sequence of derivations (every version re-checked); parallel calls: every schedule close to four base schedules; compared with bit sets, slices and sums"
		c.Units("zzunif", "sets", c.limit(200, 400))
		c.Units("zzunif", "lists", c.limit(200, 600))
		c.Units("zzunifs", "par", c.limit(200, 400))
	}
	checks["G18"] = func(c *Ctx) {
		c.Cov["rule"] = "every formula of the pool, and every sequence of two operations (three for a part in the thorough tier) on it; the formula, its metavariables, subformulas and subterms are compared with those of a reference representation; non-trivial: an operation that changes the formula"
		c.Units("zzunif", "forms", c.limit(300, 800))
	}
}
