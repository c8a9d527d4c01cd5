package main

import (
	"fmt"
	"strings"

	"verifsim/simrt"
)

// callTable holds calls of the built-ins and forms, for processes that use the
// same ones with different arguments.  $i is an integer, $n a small index, $f a
// float, $s a string, $l a list of integers, $m a list of lists, $a an alist,
// $b a bytearray, $r a frame, $y a symbol, $k a slot name, $p a predicate, $u
// and $v functions of one and two integers, $o anything, $e an expression that
// takes a while, $c a comparison, $d the
// number of the program.
var callTable = []string{
	"(! $o)", "(not $o)", "(!= $i $i)", "(% $i $i)", "(modulo $i $i)", "(* $i $i $i)", "(* $f $f $i)", "(* $f $f)", "(+ $i $i $i)", "(+ $f $i $f)", "(+ $e $i $e)", "(- $i $i $i)", "(- $f $f)", "(- $i)", "(/ $i $i)", "(/ $f $f)", "(quotient $i $i)",
	"(< $i $f)", "(<= $i $i)", "(== $i $i)", "(> $f $i)", "(>= $i $i)", "(abs $i)", "(abs $f)", "(sign $i)", "(sign $f)", "(ceiling $f)", "(floor $f)", "(even? $i)", "(odd? $i)", "(positive? $i)", "(negative? $f)", "(zero? $i)", "(succ $i)", "(pred $i)", "(pow $n $n)",
	"(max $l)", "(min $l)", "(max (list $f $f $f))", "(min (list $f $f $i))", "(interval $n $i)", "(interval $n $i $n)", "(interval $i)", "(float $i)", "(integer $f)", "(float $s)", "(integer $s)", "(number->string $i)", "(number->string $i 2)", "(number->string $i 16)", "(string->number \"$i\")", "(string->number \"1$n\" 8)", "(float->bits $f)", "(bits->float $i)",
	"(binary-and $i $i)", "(binary-or $i $i)", "(binary-not $i)", "(left-shift $i $n)", "(right-shift $i $n)",
	"(acons $y $i $a)", "(acons $y $i)", "(alist $a)", "(assoc $y $a)", "(assq $y $a)", "(assv $y $a)", "(dissoc $y $a)", "(rassoc $i $a)", "(pairlis (list $y $y) (list $i $i))", "(pairlis (list $y) (list $i) $a)", "(alist? $a)", "(alist? $o)",
	"(and $o $e $o)", "(or $c $e $o)", "(any $p $l)", "(any $c2 $l $l)", "(every $p $l)", "(every $c2 $l $l)", "(append $l $l $l)", "(append $l $i)", "(append! $l $l)", "(append! $l $i)", "(append-bytes $b $i $b)", "(append-bytes $b (list $n $n))", "(append-bytes! $b $n $b)", "(apply + $l)", "(apply $v (list $i $i))", "(apply max (list $l))",
	"(apply-slot $r m: (list $i))", "(send $r m: $i)", "(m:> $r $i)", "(m:> {proto*: $r b: $i} $e)", "(m:> {proto*: $r m: (lambda (x) (list $i (send-super m: x)))} $i)", "(m:> {proto*: $r m: (lambda (x) (apply-slot-super m: (list x)))} $i)", "(q:> {proto*: $r q: (lambda (x) (list (m x) b (m $i)))} $e)",
	"(assoc $i (list (list $i $i) (list $i)))", "(atom? $o)", "(begin $e $i $e)", "(boolean? $o)", "(bytearray->list $b)", "(bytearray-to-list $b)", "(bytearray? $o)", "(car $l)", "(cdr $l)", "(cadr $l)", "(cddr $l)", "(caar $m)", "(caddr $l)", "(cdar $m)", "(cadar $m)", "(cdadr $m)", "(caddar $m)", "(cadddr $l)", "(general-car-cdr $l 5)", "(general-car-cdr $m 12)",
	"(case $n ((0 1) $e) ((2) $i) ((3) => $u) (else $e))", "(case $y ((aa) $i) ((bb) $e) (else $s))", "(cond ($c $e) ($c $i) (else $e))", "(cond ($o => $u) (else $e))", "(clone $r)", "(copy $r)", "(copy $m)", "(copy $a)", "(complement $l $l)", "(cons $o $o)", "(cons* $i $i $l)", "(let ((x $i) (y $e)) (list y x))", "(let* ((x $i) (y (+ x $e))) (list y x))", "(letrec ((f (lambda (n) (if (< n 1) $i (f (- n 1)))))) (f $n))", "(let loop ((n $n) (a $e)) (if (< n 1) a (loop (- n 1) (+ a $i))))", "(do ((j 0 (+ j 1)) (a $i (+ a $e))) ((>= j 3) a))",
	"(drop $n $l)", "(take $n $l)", "(eq? $o $o)", "(eqv? $o $o)", "(equal? $o $o)", "(equal? $m $m)", "(equal? $r $r)", "(neq? $o $o)", "(error $s)", "(error (+ $i $i))", "(eval '(+ $i $i))", "(eval (list 'list $e $s))", "(global-eval '(list $i $s))", "(expand lib-mac-add $i $e)", "(extract-byte $b $n)", "(extract-bytes $b $n 2)", "(replace-byte $b $n $n)", "(replace-byte! $b $n $n)", "(list->bytearray (list $n 1 $n))", "(list-to-bytearray (list $n $b $n))", "(list-to-bytearray (list $i $n))",
	"(filter $p $l)", "(remove $p $l)", "(find $p $l)", "(find-tail $p $l)", "(memp $p $l)", "(first $l)", "(second $l)", "(third $l)", "(fifth $l)", "(tenth $l)", "(head $l)", "(rest $l)", "(tail $l)", "(last-pair $l)", "(list-head $l $n)", "(list-tail $l $n)", "(list-ref $l $n)", "(nth $l $n)", "(sublist $l 1 $n)", "(flatten $m)", "(flatten* $m)", "(fold-left $v $i $l)", "(fold-right $v $i $l)", "(reduce $v $i $l)", "(reduce-left $v $i $l)", "(reduce-right $v $i $l)", "(fold-left cons () $l)", "(for-each $u $l)", "(for-each $v $l $l)", "(map $u $l)", "(map $v $l $l)", "(map (lambda (x y z) (list z x y)) $l $l $l)",
	"(format #f \"~A $s2 ~S~%\" $o $o)", "(format #f \"~10A|~5@S|~VA\" $s $i 7 $i)", "(format #f \"~#A|~3%~~|\" $s)", "(format #f \"~A ~Q\" $i)", "(frame-keys {a: $i})", "(frame-values {a: $i})", "(frame? $o)", "(function? $o)", "(get-slot $r $k)", "(get-slot-or-nil $r $k)", "(has-slot? $r $k)", "(remove-slot! $r $k)", "(set-slot! $r $k $e)", "(a: $r)", "(a:! $r $e)", "(b:? $r)", "(make-frame a: $e b: $i)", "{a: $e b: $s}", "(str $r)", "(if $c $e $i)", "(if $o $e)", "(when $c $e $i)", "(unless $c $e $i)",
	"(intern $s)", "(intersection $l $l)", "(union $l $l $l)", "(integer? $o)", "(float? $o)", "(number? $o)", "(symbol? $o)", "(string? $o)", "(list? $o)", "(pair? $o)", "(nil? $o)", "(null? $o)", "(notnil? $o)", "(macro? $o)", "(nan? $f)", "(inf? $f)", "(port? $o)", "(environment? $o)", "(json->lisp \"{\\\"a\\\": $i, \\\"b\\\": [$n, $i]}\")", "(json->lisp \"[{\\\"k\\\": \\\"$y2\\\"}, $f]\")", "(lisp->json $r2)", "(lisp->json {x: (list $i $s) y: {z: $n}})",
	"((lambda (x . y) (list y x)) $i $e $i)", "((named-lambda (nm x y) (list y x)) $e $i)", "(length $l)", "(length $m)", "(list $e $o $e)", "(make-list 3 $i)", "(make-list $n)", "(member $i $l)", "(memq $y (list $y $y))", "(memv $i $l)", "(member (list $i) $m)", "(notnull? $o)", "(on-error (error $s) (lambda (m) (list m $e)))", "(on-error $e (lambda (m) m) (lambda () $e))", "(on-error (car $i) (lambda (m) (list $i m)))", "(on-error (error $s) (lambda (m) (error (list m $i))))",
	"(parse \"(a $i (b . $n) $f)\")", "(parse \"{a: $i b: [$n 1]}\")", "(parse $s)", "(parse \"'(1 `(b ,c ,@d) #t $i)\")", "(parse \"(a $i\")", "(partition $n $l)", "(partition 2 $l)", "(quasiquote (a (unquote $e) $i (unquote-splicing $l)))", "`(a ,$e (b ,@$l ,$i) . ,$i)", "`(1 `(2 ,(3 ,$e)))", "(quote ($i $s))", "(reverse $l)", "(reverse $m)", "(sort $l <)", "(sort $l $c2)", "(sort (list $s $s $s) string<?)", "(let ((x $i)) (set! x $e) x)", "(let ((x $l)) (set-car! x $e) x)", "(let ((x $l)) (set-cdr! x $e) x)", "(let ((x $l)) (set-nth! x 1 $e) x)", "(let ((x $l)) (set-nth! x $n $e) x)",
	"(str $s $i $f $s)", "(str $m)", "(string-capitalize $s)", "(string-downcase $s)", "(string-upcase $s)", "(string-upcase! $s)", "(string-downcase! $s)", "(string-capitalize! $s)", "(string-join (list $s $s $s) \"$n\")", "(string-join (list $s $s))", "(string-length $s)", "(string-null? $s)", "(string-prefix? $s $s)", "(string-suffix? $s $s)", "(string-split \"a$ib$ic\" \"b\")", "(string-trim \"  $s2  \")", "(string-trim-left \"  $s2 \")", "(string-trim-right \" $s2  \")", "(string-trim \"aa$s2 bb\" $p3)", "(string<=? $s $s)", "(string<? $s $s)", "(string=? $s $s)", "(string>=? $s $s)", "(string>? $s $s)", "(string-ci<? $s $s)", "(string-ci<=? $s $s)", "(string-ci=? $s $s)", "(string-ci>? $s $s)", "(string-ci>=? $s $s)", "(substring \"$s2$s2\" 1 $n)", "(substring? $s \"$s2$s2\")",
	"(-> $i (+ $e) list)", "(=> $i (+ $e) list)", "(lib-mac-add $i $e)", "(lib-inc $e)", "(lib-twice $i)", "(begin (define (fv$d x . y) (list x y)) (fv$d $i $e))", "(begin (defmacro (mv$d x) `(list ,x $i)) (mv$d $e))", "(begin (define zz$d $i) (set! zz$d (+ zz$d $e)) zz$d)", "(environment-bound? (the-environment) $y)", "(environment-lookup (system-global-environment) 'car)", "(eq? $y (intern \"aa\"))", "(join (fork (lambda (p x) (list x $i)) $e))", "(let ((c (make-channel 3))) (channel-write c $i) (channel-write c $e) (list (channel-read c) (channel-read c)))", "(let ((a (atomic $i))) (atomic-add! a $e) (atomic-load a))", "(procedure-environment 5)", "(time $i 3)", "(no-such-function $e)", "(car $i)", "($i $e)", "(+ $i $s)", "(nth $i $l)", "(string-length $i)", "(let ((x)) $i)", "(lib-twice)", "(lib-twice $i $i)", "(random-byte 3)", "(definition-of lib-twice)", "(float $o)", "(string->number $s)", "(length $i)",
}

// fillCall puts arguments into a call.
func fillCall(r *Rand, t string, prog, depth int) string {
	in := func() string { return fmt.Sprint([]int{r.Intn(9), r.Intn(300) - 40, r.Intn(9), 100*prog + r.Intn(9)}[r.Intn(4)]) }
	word := func() string {
		return []string{"aa", "bb", "aab", "Aa b", "", "zZ", "b", "cab"}[r.Intn(8)] + strings.Repeat(string(rune('a'+prog)), r.Intn(3))
	}
	lst := func(f func() string) string {
		s := "(list"
		for i := r.Intn(6); i >= 0; i-- {
			s += " " + f()
		}
		return s + ")"
	}
	one := func(f func() string) func() string { return func() string { return f() } }
	var arg func(k byte) string
	arg = func(k byte) string {
		switch k {
		case 'i':
			return in()
		case 'd':
			return fmt.Sprint(prog)
		case 'n':
			return fmt.Sprint(r.Intn(5))
		case 'f':
			return fmt.Sprintf("%d.%d", r.Intn(90)-20, []int{0, 5, 25, 75}[r.Intn(4)])
		case 's':
			return "\"" + word() + "\""
		case 'l':
			return lst(one(in))
		case 'm':
			return lst(func() string { return lst(one(in)) })
		case 'a':
			return fmt.Sprintf("(list (cons 'aa %s) (cons 'bb %s) (cons 'cc %s))", in(), in(), in())
		case 'b':
			return fmt.Sprintf("(list-to-bytearray (list %d %d %d %d))", prog, r.Intn(256), r.Intn(256), r.Intn(256))
		case 'r':
			return fmt.Sprintf("{a: %s b: %s m: (lambda (x) (list x a b %s))}", in(), in(), in())
		case 'y':
			return "'" + []string{"aa", "bb", "cc", "dd"}[r.Intn(4)]
		case 'k':
			return []string{"a:", "b:", "c:"}[r.Intn(3)]
		case 'p':
			return fmt.Sprintf("(lambda (x) (< x %s))", in())
		case 'u':
			return fmt.Sprintf("(lambda (x) (+ x %s))", in())
		case 'v':
			return fmt.Sprintf("(lambda (x y) (- x (+ y %s)))", in())
		case 'c':
			return fmt.Sprintf("(< %s %s)", in(), in())
		case 'e':
			switch r.Intn(5) {
			case 0:
				return in()
			case 1:
				return fmt.Sprintf("(h-t %d 1 %s)", prog, in())
			case 2:
				return fmt.Sprintf("(begin (sleep 0) %s)", in())
			case 3:
				if depth < 2 {
					return fillCall(r, callTable[r.Intn(len(callTable))], prog, depth+1)
				}
			}
			return fmt.Sprintf("(+ %s %s)", in(), in())
		case 'o':
			return arg("iinfslmabry"[r.Intn(11)])
		}
		return "nil"
	}
	var b strings.Builder
	for i := 0; i < len(t); i++ {
		if t[i] != '$' || i+1 == len(t) {
			b.WriteByte(t[i])
			continue
		}
		i++
		if i+1 < len(t) {
			two := ""
			switch t[i : i+2] {
			case "c2":
				two = []string{"<", ">", fmt.Sprintf("(lambda (x y) (< (+ x %s) y))", in())}[r.Intn(3)]
			case "s2":
				two = strings.Map(func(c rune) rune { return c }, word())
			case "y2":
				two = word()
			case "p3":
				two = "\"ab\""
			case "r2":
				two = fmt.Sprintf("{a: %s b: \"%s\" c: (list %s #t)}", in(), word(), in())
			}
			if two != "" {
				b.WriteString(two)
				i++
				continue
			}
		}
		b.WriteString(arg(t[i]))
	}
	return b.String()
}

// genCalls: processes that use the same built-in or form at the same time with
// arguments of their own, and then another one, waiting for each other between.
func genCalls(r *Rand, w *Workload) *Workload {
	nc := 2 + r.Intn(2)
	w.Clients = make([][]Op, nc)
	for b, n := 0, 2+r.Intn(8); b < n; b++ {
		t := callTable[r.Intn(len(callTable))]
		per := 1 + r.Intn(4)
		loop := r.Intn(2) * r.Intn(4)
		for c := range w.Clients {
			w.Clients[c] = append(w.Clients[c], Op{K: "sync", A: []int64{int64(b)}})
			for i := 0; i < per; i++ {
				s := fillCall(r, t, c, 0)
				if loop > 0 {
					s = fmt.Sprintf("(let loop ((j 0) (a nil)) (if (> j %d) a (loop (+ j 1) (cons %s a))))", loop, s)
				}
				w.Clients[c] = append(w.Clients[c], Op{K: "eval", S: []string{s}})
			}
		}
	}
	if r.Intn(4) > 0 {
		w.Strat = simrt.Strategy{Kind: "random", GapS: int64(1 + r.Intn(6)), GapP: int64(r.Intn(12)), FavorMid: r.Intn(2) == 0}
	}
	return w
}
