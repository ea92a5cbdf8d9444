package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/GoelandProver/Goeland/AST"
	"github.com/GoelandProver/Goeland/Glob"
)

// The loader of the prover without the search: what the text was read as.
// The formula is printed as an s-expression; a bound variable is its name and
// index together.

func zzDumpTerm(b *strings.Builder, t AST.Term) {
	switch u := t.(type) {
	case AST.Var:
		fmt.Fprintf(b, "(v %q %d)", u.GetName(), u.GetIndex())
	case AST.Fun:
		fmt.Fprintf(b, "(f %q (", u.GetID().GetName())
		for _, y := range u.GetTyArgs().GetSlice() {
			fmt.Fprintf(b, "%q ", y.ToString())
		}
		b.WriteString(")")
		for _, a := range u.GetArgs().GetSlice() {
			b.WriteString(" ")
			zzDumpTerm(b, a)
		}
		b.WriteString(")")
	default:
		fmt.Fprintf(b, "(unknown %q)", t.ToString())
	}
}

func zzDumpForm(b *strings.Builder, f AST.Form) {
	kids := func(op string, fs ...AST.Form) {
		b.WriteString("(" + op)
		for _, g := range fs {
			b.WriteString(" ")
			zzDumpForm(b, g)
		}
		b.WriteString(")")
	}
	quant := func(op string, vs []AST.TypedVar, g AST.Form) {
		b.WriteString("(" + op + " (")
		for _, v := range vs {
			fmt.Fprintf(b, "%q %d %q ", v.GetName(), v.GetIndex(), v.GetTy().ToString())
		}
		b.WriteString(") ")
		zzDumpForm(b, g)
		b.WriteString(")")
	}
	switch u := f.(type) {
	case AST.Top:
		b.WriteString("(top)")
	case AST.Bot:
		b.WriteString("(bot)")
	case AST.Not:
		kids("not", u.GetForm())
	case AST.And:
		kids("and", u.GetChildFormulas().GetSlice()...)
	case AST.Or:
		kids("or", u.GetChildFormulas().GetSlice()...)
	case AST.Imp:
		kids("imp", u.GetF1(), u.GetF2())
	case AST.Equ:
		kids("equ", u.GetF1(), u.GetF2())
	case AST.All:
		quant("all", u.GetVarList().GetSlice(), u.GetForm())
	case AST.Ex:
		quant("ex", u.GetVarList().GetSlice(), u.GetForm())
	case AST.Pred:
		fmt.Fprintf(b, "(p %q (", u.GetID().GetName())
		for _, y := range u.GetTyArgs().GetSlice() {
			fmt.Fprintf(b, "%q ", y.ToString())
		}
		b.WriteString(")")
		for _, a := range u.GetArgs().GetSlice() {
			b.WriteString(" ")
			zzDumpTerm(b, a)
		}
		b.WriteString(")")
	default:
		fmt.Fprintf(b, "(unknown %q)", f.ToString())
	}
}

func init() {
	zzUnits["load"] = func(json.RawMessage) string {
		initEverything()
		form, bound := presearchLoader()
		var b strings.Builder
		fmt.Fprintf(&b, "conj=%v bound=%d ", Glob.IsConjectureFound(), bound)
		zzDumpForm(&b, form)
		return b.String()
	}
}
