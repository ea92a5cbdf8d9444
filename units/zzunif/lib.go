package main

import (
	"fmt"
	"math"
	"math/bits"
	"reflect"
	"sort"

	"github.com/GoelandProver/Goeland/AST"
	"github.com/GoelandProver/Goeland/Lib"
	. "github.com/GoelandProver/Goeland/zzref"
	"github.com/GoelandProver/Goeland/zvs"
)

// shape prints everything reachable from a value: two sets with the same
// shape behave alike.
func shape(v reflect.Value, d int) string {
	if d > 60 {
		return "..."
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			return "-"
		}
		return shape(v.Elem(), d+1)
	case reflect.Struct:
		s := "("
		for i := 0; i < v.NumField(); i++ {
			s += shape(v.Field(i), d+1) + " "
		}
		return s + ")"
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int8:
		return fmt.Sprint(v.Int())
	case reflect.Slice:
		s := "["
		for i := 0; i < v.Len(); i++ {
			s += shape(v.Index(i), d+1) + " "
		}
		return s + "]"
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	}
	return v.String()
}

type iset = Lib.Set[Lib.Int]

type setState struct {
	s    iset
	want uint
	path string
}

// agrees compares a set with the reference: membership, size, elements,
// height.  It returns what differs.
func agrees(s iset, want uint, n int) string {
	for i := 0; i < n; i++ {
		if s.Contains(Lib.MkInt(i)) != (want&(1<<i) != 0) {
			return fmt.Sprintf("Contains(%d)=%v", i, !(want&(1<<i) != 0))
		}
	}
	k := bits.OnesCount(want)
	if s.Cardinal() != k {
		return fmt.Sprintf("Cardinal()=%d instead of %d", s.Cardinal(), k)
	}
	if s.IsEmpty() != (want == 0) {
		return fmt.Sprintf("IsEmpty()=%v", s.IsEmpty())
	}
	var el []int
	for _, e := range s.Elements().GetSlice() {
		el = append(el, int(e))
	}
	sort.Ints(el)
	var w []int
	for i := 0; i < n; i++ {
		if want&(1<<i) != 0 {
			w = append(w, i)
		}
	}
	if fmt.Sprint(el) != fmt.Sprint(w) {
		return fmt.Sprintf("Elements()=%v instead of %v", el, w)
	}
	if h := s.InternalHeight(); float64(h) > 1.4405*math.Log2(float64(k)+2)-0.3277 {
		return fmt.Sprintf("the tree of %d elements has height %d", k, h)
	}
	return ""
}

// reach lists every tree that insertions and deletions of n elements produce.
func reach(u *U, n int) []setState {
	first := setState{Lib.EmptySet[Lib.Int](), 0, "{}"}
	seen := map[string]bool{shape(reflect.ValueOf(first.s), 0): true}
	todo := []setState{first}
	for i := 0; i < len(todo); i++ {
		st := todo[i]
		before := shape(reflect.ValueOf(st.s), 0)
		for x := 0; x < n; x++ {
			for op := 0; op < 2; op++ {
				nx := setState{want: st.want | 1<<x, path: fmt.Sprintf("%s+%d", st.path, x)}
				ok := true
				f := func() {
					if op == 0 {
						nx.s = st.s.Add(Lib.MkInt(x))
					} else {
						nx.want = st.want &^ (1 << x)
						nx.path = fmt.Sprintf("%s-%d", st.path, x)
						nx.s = st.s.Remove(Lib.MkInt(x))
					}
					u.Trans++
					if m := agrees(nx.s, nx.want, n); m != "" {
						u.Violate("set "+nx.path+": "+m, fmt.Sprintf("the set built by %s: %s", nx.path, m), nil)
						ok = false
					}
					if after := shape(reflect.ValueOf(st.s), 0); after != before {
						u.Violate("set "+nx.path+": changes its argument", fmt.Sprintf("the last operation of %s changes the set it is applied to", nx.path), nil)
						ok = false
					}
				}
				u.Guard("set "+nx.path, f)
				if !ok {
					return nil
				}
				k := shape(reflect.ValueOf(nx.s), 0)
				if !seen[k] {
					seen[k] = true
					todo = append(todo, nx)
				}
			}
		}
	}
	return todo
}

func sets(u *U) {
	n1, n2 := 11, 7
	if u.Thorough() {
		n1, n2 = 13, 8
	}
	if u.Shard == 0 {
		r := reach(u, n1)
		u.States += len(r)
		u.Extra["set_states"] += len(r)
	} else {
		u.Trans = 0
	}
	quiet := *u
	small := reach(&quiet, n2)
	sh := make([]string, len(small))
	for i, s := range small {
		sh[i] = shape(reflect.ValueOf(s.s), 0)
	}
	for i, a := range small {
		if !u.Mine() {
			continue
		}
		for j, b := range small {
			u.Evals++
			u.NonTriv++
			key := fmt.Sprintf("sets %s and %s", a.path, b.path)
			u.Guard(key, func() {
				chk := func(op string, s iset, w uint) {
					if m := agrees(s, w, n2); m != "" {
						u.Violate(key+" "+op, fmt.Sprintf("%s of %s and %s: %s", op, a.path, b.path, m), nil)
					}
				}
				chk("Union", a.s.Union(b.s), a.want|b.want)
				chk("Inter", a.s.Inter(b.s), a.want&b.want)
				chk("Diff", a.s.Diff(b.s), a.want&^b.want)
				if a.s.Disjoint(b.s) != (a.want&b.want == 0) {
					u.Violate(key+" Disjoint", fmt.Sprintf("Disjoint of %s and %s is %v", a.path, b.path, a.s.Disjoint(b.s)), nil)
				}
				if shape(reflect.ValueOf(a.s), 0) != sh[i] || shape(reflect.ValueOf(b.s), 0) != sh[j] {
					u.Violate(key+": changed", fmt.Sprintf("an operation on %s and %s changes them", a.path, b.path), nil)
				}
			})
		}
		u.Guard("set "+a.path, func() {
			for m := uint(0); m < 1<<n2; m++ {
				s := a.s.Filter(func(x Lib.Int) bool { return m&(1<<uint(x)) != 0 })
				if d := agrees(s, a.want&m, n2); d != "" {
					u.Violate("Filter "+a.path, fmt.Sprintf("Filter of %s: %s", a.path, d), nil)
				}
			}
			c := a.s.Copy()
			for x := 0; x < n2; x++ {
				if d := agrees(c, a.want, n2); d != "" {
					u.Violate("Copy "+a.path, fmt.Sprintf("Copy of %s: %s", a.path, d), nil)
				}
				c.Add(Lib.MkInt(x))
				c.Remove(Lib.MkInt(x))
			}
			if shape(reflect.ValueOf(a.s), 0) != sh[i] {
				u.Violate("set "+a.path+": changed", "an operation on a copy changes the set "+a.path, nil)
			}
		})
	}
	metaSets(u)
}

// metaSets: sets of metavariables, created in every order.
func metaSets(u *U) {
	var ms []AST.Meta
	for i := 0; i < 6; i++ {
		ms = append(ms, AST.MakerMeta("X", i%2, AST.TIndividual()))
	}
	for _, p := range perms(6) {
		if !u.Mine() {
			continue
		}
		s := Lib.EmptySet[AST.Meta]()
		for k, i := range p {
			u.Trans++
			s = s.Add(ms[i])
			for q, j := range p {
				if s.Contains(ms[j]) != (q <= k) {
					u.Violate(fmt.Sprintf("metas %v", p), fmt.Sprintf("a set of metavariables built in the order %v: wrong membership after %d insertions", p, k+1), nil)
					return
				}
			}
		}
	}
}

// ---- lists ----

type ilist = Lib.List[Lib.Int]

func ints(l ilist) []int {
	r := []int{}
	for _, x := range l.GetSlice() {
		r = append(r, int(x))
	}
	return r
}

type version struct {
	l    ilist
	want []int
	path string
}

func lists(u *U) {
	depth := 4
	if u.Thorough() {
		depth = 5
	}
	eq := func(a, b Lib.Int) bool { return a == b }
	mem := func(w []int, x int) int {
		for i, y := range w {
			if x == y {
				return i
			}
		}
		return -1
	}
	check := func(v version) bool {
		u.Evals++
		bad := func(m string) bool {
			u.Violate("list "+v.path+": "+m, fmt.Sprintf("the list built by %s should be %v: %s", v.path, v.want, m), nil)
			return false
		}
		if fmt.Sprint(ints(v.l)) != fmt.Sprint(v.want) {
			return bad(fmt.Sprintf("it is %v", ints(v.l)))
		}
		if v.l.Len() != len(v.want) || v.l.Empty() != (len(v.want) == 0) {
			return bad("Len or Empty")
		}
		for x := 0; x < 3; x++ {
			k := mem(v.want, x)
			if v.l.Contains(Lib.MkInt(x), eq) != (k >= 0) || Lib.ListMem(Lib.MkInt(x), v.l) != (k >= 0) {
				return bad(fmt.Sprintf("Contains(%d)", x))
			}
			o, ok := Lib.ListIndexOf(Lib.MkInt(x), v.l).(Lib.Some[int])
			if ok != (k >= 0) || ok && o.Val != k {
				return bad(fmt.Sprintf("IndexOf(%d)", x))
			}
			if v.l.Any(func(y Lib.Int) bool { return int(y) == x }) != (k >= 0) {
				return bad(fmt.Sprintf("Any(%d)", x))
			}
			if y, ok := v.l.Find(func(y Lib.Int) bool { return int(y) == x }, Lib.MkInt(9)); ok != (k >= 0) || ok && int(y) != x || !ok && y != 9 {
				return bad(fmt.Sprintf("Find(%d)", x))
			}
			var w []int
			for _, y := range v.want {
				if y != x {
					w = append(w, y)
				}
			}
			if fmt.Sprint(ints(v.l.Filter(func(y Lib.Int) bool { return int(y) != x }))) != fmt.Sprint(w) {
				return bad("Filter")
			}
		}
		m := Lib.ListMap(v.l, func(x Lib.Int) string { return fmt.Sprint(int(x)) })
		if fmt.Sprint(m.GetSlice()) != fmt.Sprint(v.want) {
			return bad("ListMap")
		}
		for i := range v.want {
			if int(v.l.At(i)) != v.want[i] {
				return bad("At")
			}
			for j := i; j <= len(v.want); j++ {
				if fmt.Sprint(ints(v.l.Slice(i, j))) != fmt.Sprint(v.want[i:j]) {
					return bad("Slice")
				}
			}
		}
		return true
	}
	var rec func(vs []version, d int) bool
	// each step derives a new version from any earlier one, with an operation
	// which returns a list; every version keeps its value.
	rec = func(vs []version, d int) bool {
		for _, v := range vs {
			if !check(v) {
				return false
			}
			u.NonTriv++
		}
		for i, a := range vs {
			for j, b := range vs[:i+1] {
				same := fmt.Sprint(a.want) == fmt.Sprint(b.want)
				if Lib.ListEquals(a.l, b.l) != same || a.l.Equals(eq, b.l, a.l) != same {
					u.Violate(fmt.Sprintf("list equality %s %s", a.path, b.path), fmt.Sprintf("%s and %s: equality says %v", a.path, b.path, !same), nil)
					return false
				}
				_ = j
			}
		}
		if d == 0 {
			return true
		}
		for i, v := range vs {
			if i > 0 && i < len(vs)-3 {
				continue
			}
			for op := 0; op < 11; op++ {
				if d == depth && !u.Mine() {
					continue
				}
				u.Trans++
				var n version
				x := op
				switch {
				case op < 5: // the set-like insertion
					n = version{Lib.ListAdd(v.l, Lib.MkInt(x)), append([]int{}, v.want...), fmt.Sprintf("add(%s,%d)", v.path, x)}
					if mem(v.want, x) < 0 {
						n.want = append(n.want, x)
					}
				case op < 7: // append to a copy
					c := v.l.Copy(func(y Lib.Int) Lib.Int { return y })
					c.Append(Lib.MkInt(op-5), Lib.MkInt(2))
					n = version{c, append(append([]int{}, v.want...), op-5, 2), fmt.Sprintf("append(%s,%d,2)", v.path, op-5)}
				case op < 9: // removal
					k := op - 7
					if k >= len(v.want) {
						continue
					}
					n = version{v.l.RemoveAt(k), append(append([]int{}, v.want[:k]...), v.want[k+1:]...), fmt.Sprintf("remove(%s,%d)", v.path, k)}
				case op == 9: // update of a copy
					if len(v.want) == 0 {
						continue
					}
					c := v.l.Copy(func(y Lib.Int) Lib.Int { return y })
					c.Upd(len(v.want)-1, Lib.MkInt(1))
					n = version{c, append(append([]int{}, v.want[:len(v.want)-1]...), 1), fmt.Sprintf("upd(%s)", v.path)}
				default:
					n = version{v.l.Filter(func(y Lib.Int) bool { return y != 0 }), nil, fmt.Sprintf("filter(%s)", v.path)}
					for _, y := range v.want {
						if y != 0 {
							n.want = append(n.want, y)
						}
					}
				}
				if n.want == nil {
					n.want = []int{}
				}
				if !rec(append(append([]version{}, vs...), n), d-1) {
					return false
				}
			}
		}
		return true
	}
	start := []version{{Lib.NewList[Lib.Int](), []int{}, "[]"}, {Lib.MkListV(Lib.MkInt(0), Lib.MkInt(1)), []int{0, 1}, "[0,1]"}}
	u.Guard("lists", func() { rec(start, depth) })
}

// ---- parallel calls ----

// par: the parallel combinator waits for every call and combines every answer
// once, under every schedule of up to four calls.
func par(u *U) {
	dev := 2
	if u.Thorough() {
		dev = 3
	}
	for n := 0; n <= 4; n++ {
		for m := 0; m < 1<<n; m++ {
			if !u.Mine() {
				continue
			}
			want := 0
			for i := 0; i < n; i++ {
				want += 1 << (4 * i)
				if m&(1<<i) != 0 {
					want += 2 << (4 * i)
				}
			}
			var got int
			var err error
			explore(u, []int{0, 1, 2, 3}, dev, func() {
				got = -1
				var calls []func(chan int)
				for i := 0; i < n; i++ {
					i := i
					calls = append(calls, func(c chan int) {
						v := 1 << (4 * i)
						if m&(1<<i) != 0 { // a nested parallel call
							w, _ := Lib.GenericParallel([]func(chan int){func(d chan int) { zvs.SendTo(d)(2 << (4 * i)) }}, func(a, b int) int { return a + b }, 0)
							v += w
						}
						zvs.SendTo(c)(v)
					})
				}
				got, err = Lib.GenericParallel(calls, func(a, b int) int { return a + b }, 0)
			}, func(o zvs.Outcome, pol int, prefix []int) bool {
				u.Evals++
				u.NonTriv++
				if got != want || err != nil {
					u.Violate(fmt.Sprintf("parallel n=%d m=%d", n, m), fmt.Sprintf("%d parallel calls, schedule %d %v: %s %s, result %x instead of %x", n, pol, prefix, o.Kind, o.Msg, got, want), nil)
					return false
				}
				return true
			})
		}
	}
}
