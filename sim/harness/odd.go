package main

import "strings"

// Built-in functions that neither wait, nor end the program, nor talk to the
// user, and the numbers of arguments they take.
var builtins = []struct {
	name  string
	arity []int
}{
	{"acons", []int{2, 3}},
	{"pairlis", []int{2, 3}},
	{"assq", []int{2}},
	{"assv", []int{2}},
	{"assoc", []int{2}},
	{"dissoc", []int{2}},
	{"rassoc", []int{2}},
	{"alist", []int{1}},
	{"binary-and", []int{2}},
	{"binary-or", []int{2}},
	{"binary-not", []int{1}},
	{"left-shift", []int{2}},
	{"right-shift", []int{2}},
	{"list-to-bytearray", []int{1}},
	{"list->bytearray", []int{1}},
	{"bytearray-to-list", []int{1}},
	{"bytearray->list", []int{1}},
	{"replace-byte", []int{3}},
	{"replace-byte!", []int{3}},
	{"extract-byte", []int{2}},
	{"append-bytes", []int{0, 1, 2, 3}},
	{"append-bytes!", []int{0, 1, 2, 3}},
	{"extract-bytes", []int{3}},
	{"make-channel", []int{0, 1}},
	{"channel-try-write", []int{2}},
	{"channel-try-read", []int{1}},
	{"fork", []int{1, 2}},
	{"wake", []int{1}},
	{"schedule", []int{2, 3}},
	{"reset-timeout", []int{1}},
	{"abandon", []int{1}},
	{"atomic", []int{0, 1}},
	{"atomic-load", []int{1}},
	{"atomic-store!", []int{2}},
	{"atomic-add!", []int{2}},
	{"atomic-swap!", []int{2}},
	{"atomic-compare-and-swap!", []int{3}},
	{"environment?", []int{1}},
	{"environment-has-parent?", []int{1}},
	{"environment-bound-names", []int{1}},
	{"environment-macro-names", []int{1}},
	{"environment-bindings", []int{1}},
	{"environment-reference-type", []int{2}},
	{"environment-bound?", []int{2}},
	{"environment-assigned?", []int{2}},
	{"environment-lookup", []int{2}},
	{"environment-lookup-macro", []int{2}},
	{"environment-assignable?", []int{2}},
	{"environment-assign!", []int{3}},
	{"environment-definable?", []int{2}},
	{"environment-define", []int{3}},
	{"the-environment", []int{0}},
	{"procedure-environment", []int{1}},
	{"environment-parent", []int{1}},
	{"system-global-environment", []int{0}},
	{"make-top-level-environment", []int{1, 2, 3}},
	{"find-top-level-environment", []int{1}},
	{"make-frame", []int{0, 1, 2, 3}},
	{"has-slot?", []int{2}},
	{"get-slot", []int{2}},
	{"get-slot-or-nil", []int{2}},
	{"remove-slot!", []int{2}},
	{"set-slot!", []int{3}},
	{"send", []int{2, 3}},
	{"send-super", []int{1, 2}},
	{"clone", []int{1}},
	{"json->lisp", []int{1}},
	{"lisp->json", []int{1}},
	{"frame-keys", []int{1}},
	{"frame-values", []int{1}},
	{"open-input-file", []int{1}},
	{"open-output-file", []int{1, 2}},
	{"close-port", []int{1}},
	{"write-bytes", []int{2}},
	{"write-string", []int{1, 2}},
	{"newline", []int{0, 1}},
	{"write", []int{1, 2}},
	{"read", []int{1}},
	{"eof-object?", []int{1}},
	{"list-directory", []int{1, 2}},
	{"format", []int{2, 3}},
	{"car", []int{1}},
	{"head", []int{1}},
	{"cdr", []int{1}},
	{"rest", []int{1}},
	{"tail", []int{1}},
	{"caar", []int{1}},
	{"cadr", []int{1}},
	{"cdar", []int{1}},
	{"cddr", []int{1}},
	{"caaar", []int{1}},
	{"caadr", []int{1}},
	{"cadar", []int{1}},
	{"caddr", []int{1}},
	{"cdaar", []int{1}},
	{"cdadr", []int{1}},
	{"cddar", []int{1}},
	{"cdddr", []int{1}},
	{"caaaar", []int{1}},
	{"caaadr", []int{1}},
	{"caadar", []int{1}},
	{"caaddr", []int{1}},
	{"cadaar", []int{1}},
	{"cadadr", []int{1}},
	{"caddar", []int{1}},
	{"cadddr", []int{1}},
	{"cdaaar", []int{1}},
	{"cdaadr", []int{1}},
	{"cdadar", []int{1}},
	{"cdaddr", []int{1}},
	{"cddaar", []int{1}},
	{"cddadr", []int{1}},
	{"cdddar", []int{1}},
	{"cddddr", []int{1}},
	{"general-car-cdr", []int{2}},
	{"first", []int{1}},
	{"second", []int{1}},
	{"third", []int{1}},
	{"fourth", []int{1}},
	{"fifth", []int{1}},
	{"sixth", []int{1}},
	{"seventh", []int{1}},
	{"eighth", []int{1}},
	{"ninth", []int{1}},
	{"tenth", []int{1}},
	{"nth", []int{2}},
	{"take", []int{2}},
	{"drop", []int{2}},
	{"list-ref", []int{2}},
	{"list-head", []int{2}},
	{"list-tail", []int{2}},
	{"last-pair", []int{1}},
	{"map", []int{2, 3}},
	{"for-each", []int{2, 3}},
	{"any", []int{2, 3}},
	{"every", []int{2, 3}},
	{"reduce", []int{3}},
	{"reduce-left", []int{3}},
	{"reduce-right", []int{3}},
	{"fold-left", []int{3}},
	{"fold-right", []int{3}},
	{"filter", []int{2}},
	{"remove", []int{2}},
	{"memq", []int{2}},
	{"memv", []int{2}},
	{"member", []int{2}},
	{"memp", []int{2}},
	{"find-tail", []int{2}},
	{"find", []int{2}},
	{"list", []int{0, 1, 2, 3}},
	{"make-list", []int{1, 2}},
	{"length", []int{1}},
	{"cons", []int{2}},
	{"cons*", []int{1, 2}},
	{"reverse", []int{1}},
	{"flatten", []int{1}},
	{"flatten*", []int{1}},
	{"append", []int{0, 1, 2, 3}},
	{"copy", []int{1}},
	{"partition", []int{2}},
	{"sublist", []int{3}},
	{"sort", []int{2}},
	{"union", []int{0, 1, 2, 3}},
	{"intersection", []int{0, 1, 2, 3}},
	{"complement", []int{0, 1, 2, 3}},
	{"+", []int{0, 1, 2, 3}},
	{"-", []int{0, 1, 2, 3}},
	{"*", []int{0, 1, 2, 3}},
	{"/", []int{0, 1, 2, 3}},
	{"succ", []int{1}},
	{"pred", []int{1}},
	{"quotient", []int{0, 1, 2, 3}},
	{"%", []int{2}},
	{"modulo", []int{2}},
	{"random-byte", []int{0}},
	{"interval", []int{1, 2, 3}},
	{"integer", []int{1}},
	{"float", []int{1}},
	{"number->string", []int{1, 2}},
	{"string->number", []int{1, 2}},
	{"min", []int{1}},
	{"max", []int{1}},
	{"floor", []int{1}},
	{"ceiling", []int{1}},
	{"abs", []int{1}},
	{"zero?", []int{1}},
	{"positive?", []int{1}},
	{"negative?", []int{1}},
	{"even?", []int{1}},
	{"odd?", []int{1}},
	{"sign", []int{1}},
	{"pow", []int{2}},
	{"inf?", []int{1}},
	{"nan?", []int{1}},
	{"float->bits", []int{1}},
	{"bits->float", []int{1}},
	{"<", []int{2}},
	{">", []int{2}},
	{"==", []int{2}},
	{"eqv?", []int{2}},
	{"eq?", []int{2}},
	{"equal?", []int{2}},
	{"!=", []int{2}},
	{"neq?", []int{2}},
	{"<=", []int{2}},
	{">=", []int{2}},
	{"!", []int{1}},
	{"not", []int{1}},
	{"apply", []int{1, 2}},
	{"string-split", []int{2}},
	{"string-join", []int{1, 2}},
	{"string-trim", []int{1, 2}},
	{"string-trim-left", []int{1, 2}},
	{"string-trim-right", []int{1, 2}},
	{"string-upcase", []int{1}},
	{"string-upcase!", []int{1}},
	{"string-downcase", []int{1}},
	{"string-downcase!", []int{1}},
	{"string-capitalize", []int{1}},
	{"string-capitalize!", []int{1}},
	{"string-length", []int{1}},
	{"string-null?", []int{1}},
	{"substring", []int{3}},
	{"substring?", []int{2}},
	{"string-prefix?", []int{2}},
	{"string-suffix?", []int{2}},
	{"string=?", []int{2}},
	{"string-ci=?", []int{2}},
	{"string<?", []int{2}},
	{"string-ci<?", []int{2}},
	{"string>?", []int{2}},
	{"string-ci>?", []int{2}},
	{"string<=?", []int{2}},
	{"string-ci<=?", []int{2}},
	{"string>=?", []int{2}},
	{"string-ci>=?", []int{2}},
	{"parse", []int{1}},
	{"millis", []int{0}},
	{"str", []int{0, 1, 2, 3}},
	{"intern", []int{1}},
	{"gensym", []int{0, 1}},
	{"gensym-naked", []int{0, 1}},
	{"eval", []int{1, 2}},
	{"global-eval", []int{1}},
	{"error", []int{1}},
	{"atom?", []int{1}},
	{"list?", []int{1}},
	{"pair?", []int{1}},
	{"alist?", []int{1}},
	{"nil?", []int{1}},
	{"null?", []int{1}},
	{"notnil?", []int{1}},
	{"notnull?", []int{1}},
	{"symbol?", []int{1}},
	{"string?", []int{1}},
	{"integer?", []int{1}},
	{"number?", []int{1}},
	{"float?", []int{1}},
	{"function?", []int{1}},
	{"macro?", []int{1}},
	{"frame?", []int{1}},
	{"bytearray?", []int{1}},
	{"port?", []int{1}},
	{"boolean?", []int{1}},
}

// oddValues are arguments of every type; the names are shared objects the
// caller defines.
var oddValues = []string{"nil", "5", "-1", "0", "2", "1000", "3.5", "#t", "\"s\"", "\"abc def\"", "'sym", "s1:", "'(1 2 3)", "'(a . b)", "(list 1 (list 2 3))", "[1 2 3]", "'((a . 1) (b . 2))",
	"FR2", "FR2", "FR2", "FR3", "EV2", "EV2", "CH2", "AT2", "L2", "L2", "BA2", "S2", "PR2", "car", "+", "(lambda (x) x)", "(lambda (x y) (< x y))", "(lambda () 1)", "(lambda (x) (error \"odd\"))"}

// oddCall calls a random built-in with random arguments.
func oddCall(r *Rand) string {
	b := builtins[r.Intn(len(builtins))]
	n := b.arity[r.Intn(len(b.arity))]
	if r.Intn(15) == 0 {
		n = r.Intn(4)
	}
	l := []string{b.name}
	for i := 0; i < n; i++ {
		l = append(l, oddValues[r.Intn(len(oddValues))])
	}
	return "(" + strings.Join(l, " ") + ")"
}

// oddObjects defines them.
const oddObjects = `
(define FR3 {s1: 1 m: (lambda (x) (set! s1 x) s1)})
(define FR2 {s1: 1 s2: "two" p*: FR3 n: (lambda (x) x)})
(define EV2 (make-top-level-environment "EV2"))
(environment-define EV2 'a 1)
(define CH2 (make-channel 3))
(define AT2 (atomic 5))
(define L2 (list 1 2 3 4))
(define BA2 [1 2 3])
(define S2 (str "shared" " string"))
(define PR2 (fork (lambda (p) 1)))
`
