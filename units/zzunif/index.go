package main

import (
	"github.com/GoelandProver/Goeland/AST"
	"github.com/GoelandProver/Goeland/Lib"
	"github.com/GoelandProver/Goeland/Unif"
	. "github.com/GoelandProver/Goeland/zzref"
)

func atoms(names []string, terms []*T, ar int) (r []*T) {
	for _, n := range names {
		switch ar {
		case 1:
			for _, t := range terms {
				r = append(r, F(n, t))
			}
		case 2:
			for _, t := range terms {
				for _, s := range terms {
					r = append(r, F(n, t, s))
				}
			}
		}
	}
	return
}

func build(set []*T, mode int) Unif.DataStructure {
	l := Lib.NewList[AST.Form]()
	for _, s := range set {
		if mode == 2 {
			l.Append(Unif.MakerTermForm(term(s)))
		} else {
			l.Append(pred(s))
		}
	}
	if mode == 1 { // incremental, through copies as the search does
		d := Unif.NewNode().MakeDataStruct(Lib.MkListV(l.At(0)), true)
		for i := 1; i < l.Len(); i++ {
			old := d
			d = d.Copy().InsertFormulaListToDataStructure(Lib.MkListV(l.At(i)))
			_ = old
		}
		return d
	}
	return Unif.NewNode().MakeDataStruct(l, true)
}

func query(u *U, tag string, d Unif.DataStructure, set []*T, q *T, mode int) {
	u.Guard(tag+" "+q.String(), func() {
		var found bool
		var res []Unif.MixedSubstitutions
		if mode == 2 {
			found, res = d.Unify(Unif.MakerTermForm(term(q)))
		} else {
			found, res = d.Unify(pred(q))
		}
		checkMatch(u, tag, set, q, found, res)
	})
}

func index(u *U) {
	x, y, z := V(0), V(1), V(2)
	a, b := F("a"), F("b")
	d0 := []*T{x, y, a}
	small := append([]*T{}, d0...)
	for _, t := range d0 {
		small = append(small, F("f", t))
	}
	// family 1: binary atoms over {X,Y,a,f(.)}; every ordered pair of members, every query over {X,Y,Z,a,b,f(.)}
	pool := atoms([]string{"R"}, small, 2)
	qs := atoms([]string{"R"}, append(append([]*T{}, small...), z, b, F("f", z)), 2)
	for _, s1 := range pool {
		for _, s2 := range pool {
			if !u.Mine() {
				continue
			}
			set := []*T{s1, s2}
			d := build(set, 0)
			for _, q := range qs {
				query(u, "R", d, set, q, 0)
			}
		}
	}
	// family 2: deep unary atoms, triples, built incrementally
	deep := []*T{x, y, a, F("f", x), F("f", a), F("g", x, x), F("g", x, y), F("g", a, y), F("g", F("f", x), y), F("g", x, F("f", y)), F("g", F("g", x, y), a), F("f", F("g", y, x)), F("f", F("f", x)), F("g", F("f", a), F("f", x))}
	dq := append(append([]*T{}, deep...), z, F("g", z, z), F("g", z, F("f", z)), F("f", z), F("g", F("g", z, z), a), F("g", F("f", z), z), b)
	pool = atoms([]string{"P"}, deep, 1)
	qs = atoms([]string{"P"}, dq, 1)
	qs = append(qs, F("Q", x), F("Q", a))
	for _, s1 := range pool {
		for _, s2 := range pool {
			for _, s3 := range pool {
				if !u.Mine() {
					continue
				}
				set := []*T{s1, s2, s3}
				d := build(set, 1)
				for _, q := range qs {
					query(u, "P", d, set, q, 1)
				}
			}
		}
	}
	// family 3: index of terms (used by equality reasoning)
	for _, s1 := range deep {
		for _, s2 := range deep {
			for _, s3 := range deep {
				if !u.Mine() {
					continue
				}
				set := []*T{s1, s2, s3}
				d := build(set, 2)
				for _, q := range dq {
					if q.IsVar() { // the equality module never asks for a bare metavariable
						continue
					}
					query(u, "term", d, set, q, 2)
				}
			}
		}
	}
	if !u.Thorough() {
		return
	}
	// thorough: triples of binary atoms, quadruples of deep unary atoms
	rp := atoms([]string{"R"}, small, 2)
	for _, s1 := range rp {
		for _, s2 := range rp {
			for _, s3 := range rp {
				if !u.Mine() {
					continue
				}
				set := []*T{s1, s2, s3}
				d := build(set, 1)
				for _, q := range rp {
					query(u, "R", d, set, q, 1)
				}
			}
		}
	}
	for _, s1 := range pool {
		for _, s2 := range pool {
			for _, s3 := range pool {
				for _, s4 := range pool {
					if !u.Mine() {
						continue
					}
					set := []*T{s1, s2, s3, s4}
					d := build(set, 1)
					for _, q := range qs {
						query(u, "P", d, set, q, 1)
					}
				}
			}
		}
	}
}
