package main

import (
	"fmt"
	"strconv"
	"strings"
	"unsafe"

	"verifsim/golisp"
	"verifsim/simrt"
)

// parse reads one expression (outside or inside a simulation).
func parse(src string) *D {
	d, err := golisp.Parse(src)
	if err != nil {
		panic("harness: cannot parse " + src + ": " + err.Error())
	}
	return d
}

func evalS(env *Env, src string) (*D, error) {
	return golisp.Eval(parse(src), env)
}

// tryEval evaluates, turning a panic into an error string.
func tryEval(env *Env, d *D) (v *D, err error, pan string) {
	fin := false
	defer func() {
		if fin || !simrt.Live() {
			return
		}
		pan = fmt.Sprint(recover())
	}()
	v, err = golisp.Eval(d, env)
	fin = true
	return
}

// must evaluates set-up code.
func (e *Exec) must(src string) *D {
	d, err := golisp.ParseAndEvalAllInEnvironment(src, e.Env)
	if err != nil {
		panic(setupFailure(src + ": " + err.Error()))
	}
	return d
}

// prim installs a harness primitive (arguments evaluated).
func prim(name string, f func(args []*D, env *Env) (*D, error)) {
	golisp.MakePrimitiveFunction(name, "*", func(args *D, env *Env) (*D, error) {
		var l []*D
		for c := args; golisp.NotNilP(c); c = golisp.Cdr(c) {
			l = append(l, golisp.Car(c))
		}
		return f(l, env)
	})
}

// enc renders a value canonically without going through the code under test
// for anything but field access.
func enc(d *D) string {
	var b strings.Builder
	encTo(&b, d, 0)
	return b.String()
}

func encTo(b *strings.Builder, d *D, depth int) {
	if depth > 40 {
		b.WriteString("...")
		return
	}
	if golisp.NilP(d) {
		b.WriteString("()")
		return
	}
	switch {
	case golisp.IntegerP(d):
		b.WriteString(strconv.FormatInt(golisp.IntegerValue(d), 10))
	case golisp.FloatP(d):
		fmt.Fprintf(b, "%gf", golisp.FloatValue(d))
	case golisp.BooleanP(d):
		if golisp.BooleanValue(d) {
			b.WriteString("#t")
		} else {
			b.WriteString("#f")
		}
	case golisp.StringP(d):
		b.WriteString(strconv.Quote(golisp.StringValue(d)))
	case golisp.SymbolP(d):
		b.WriteString(golisp.StringValue(d))
	case golisp.PairP(d) || golisp.AlistP(d) || golisp.DottedPairP(d):
		b.WriteString("(")
		n := 0
		for {
			if n > 0 {
				b.WriteString(" ")
			}
			encTo(b, golisp.Car(d), depth+1)
			n++
			d = golisp.Cdr(d)
			if golisp.NilP(d) || n > 2000 {
				break
			}
			if !(golisp.PairP(d) || golisp.AlistP(d) || golisp.DottedPairP(d)) {
				b.WriteString(" . ")
				encTo(b, d, depth+1)
				break
			}
		}
		b.WriteString(")")
	case golisp.ObjectP(d):
		t := golisp.ObjectType(d)
		if t == "[]byte" {
			p := *(*[]byte)(golisp.ObjectValue(d))
			fmt.Fprintf(b, "%v", append([]byte{'b'}, p...))
		} else {
			b.WriteString("<" + t + ">")
		}
	case golisp.FrameP(d):
		b.WriteString("<frame>")
	case golisp.EnvironmentP(d):
		b.WriteString("<environment>")
	case golisp.FunctionP(d):
		b.WriteString("<function>")
	case golisp.MacroP(d):
		b.WriteString("<macro>")
	case golisp.PrimitiveP(d):
		b.WriteString("<primitive>")
	case golisp.PortP(d):
		b.WriteString("<port>")
	default:
		b.WriteString("<?>")
	}
}

func list(l ...*D) *D { return golisp.ArrayToList(l) }

func sym(s string) *D { return golisp.Intern(s) }

func call(f string, args ...*D) *D { return golisp.Cons(sym(f), golisp.ArrayToList(args)) }

func num(n int64) *D { return golisp.IntegerWithValue(n) }

func str(s string) *D { return golisp.StringWithValue(s) }

// objKinds are the objects whose identity scenarios follow.
var objKinds = []string{"(make-frame x: 1)", "(lambda (x) x)", "(list 1 (list 2) 3)", "(make-top-level-environment \"OBJ\")", "(atomic 5)", "(make-channel 1)", "(list->bytearray '(1 2 3))", "'((a . 1))", "(make-frame)", "(list (make-frame y: 2))"}

// objs are the objects obj0, obj1... by what identifies them.
type objs map[unsafe.Pointer]string

func defObjs(e *Exec) objs {
	m := objs{}
	for i, x := range objKinds {
		d := e.must(fmt.Sprintf("(begin (define obj%d %s) obj%d)", i, x, i))
		m[d.Value] = fmt.Sprintf("obj%d", i)
	}
	return m
}

// label replaces known objects, at the top or in a list, by their names.
func (m objs) label(d *D) *D {
	if d == nil {
		return nil
	}
	if n, ok := m[d.Value]; ok && !golisp.IntegerP(d) && !golisp.SymbolP(d) && !golisp.BooleanP(d) {
		return sym(n)
	}
	if golisp.PairP(d) && golisp.NotNilP(d) {
		var l []*D
		for c := d; golisp.NotNilP(c); c = golisp.Cdr(c) {
			if !golisp.PairP(c) {
				return d
			}
			l = append(l, m.label(golisp.Car(c)))
		}
		return list(l...)
	}
	return d
}
