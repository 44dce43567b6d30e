package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"

	"github.com/dop251/goja"
	"github.com/gernest/requiemdb/internal/compile"
	"github.com/gernest/requiemdb/internal/js"
	"github.com/gernest/requiemdb/internal/zverif/zv"
)

// snippet is a part of a script which calls out(text) with what it computes. @
// stands for the number of the snippet, other capitals for random values.
type snippet struct {
	src  string
	want []string // what it prints, when plain javascript cannot tell
}

var snippets = []snippet{
	{src: `function g@(a, b = A) { return a + b } out(g@.name, g@.length, g@(B), g@(B, C));`},
	{src: `const f@ = (x) => x * A; const h@ = function named() { return named.name }; out(f@.name, f@(B), h@.name, h@());`},
	{src: `class C@ { #p = A; static s = B; q_ = C; get v() { return this.#p } set v(x) { this.#p = x } ["m" + A]() { return 1 } static { C@.t = 3 } }
const c@ = new C@(); c@.v += 2; out(C@.name, c@.v, C@.s, C@.t, c@.q_, c@.constructor.name, Object.keys(c@).join(), Object.getOwnPropertyNames(C@.prototype).join());`},
	{src: `class D@ extends Map { constructor() { super(); this.own_ = A } get(k) { return super.get(k) ?? "none" } } const d@ = new D@(); d@.set(B, C); out(d@.get(B), d@.get("x"), d@.own_, d@ instanceof Map, d@.size);`},
	{src: `const o@ = { a: A, b_: B, _c: C, "d e": 1, 5: 2, ["k" + A]: 3, get g() { return this.a + 1 }, __proto__: { p: 9 } }; const key@ = "b" + "_"; out(JSON.stringify(o@), o@[key@], o@["_" + "c"], o@.g, o@.p, Object.keys(o@).join("|"));`},
	{src: `const { a: x@, b: y@ = B, ...r@ } = { a: A, c: C, d: [A, B] }; const [u@, , v@ = C, ...w@] = [A, B, undefined, 4, 5]; out(x@, y@, JSON.stringify(r@), u@, v@, w@.join());`},
	{src: `outer@: for (let i = 0; i < 9; i++) { for (let j = 0; ; j++) { if (j > i) continue outer@; if (i * j > A % 17) break outer@; out(i, j) } }`},
	{src: `DEV: { out("dev", A); break DEV; out("never") } TEST: out("test");`},
	{src: `function t@(f) { try { return f() } catch (e) { out(e.name, e instanceof Error, e.constructor.name); return "caught" } finally { out("finally") } } out(t@(() => A), t@(() => null.x), t@(() => { throw new RangeError("r") }), t@(() => undefinedName));`},
	{src: `class E@ extends Error { constructor(m) { super(m); this.code = A } } try { throw new E@("bad B") } catch (e) { out(e.message, e.code, e instanceof E@, String(e)) }`},
	{src: `function* gen@(n) { for (let i = 0; i < n; i++) { const x = yield i * A; if (x) out("got", x) } return "end" } const it@ = gen@(3); out(JSON.stringify([it@.next(), it@.next(B), it@.next(), it@.next()]), [...gen@(4)].join());`},
	{src: "function tag@(s, ...v) { return s.raw.join('_') + '/' + s.join('_') + '/' + v.join() } out(tag@`a${A}\\n\\u0041b${B}`, `x${A}${`y${B}`}\\t$`, `\\``);"},
	{src: `out("\u0041\x42\u{1F389}", "日本語".length, "🎉".length, [..."a🎉b"].length, "é".normalize("NFD").length, "\u2028\u2029".length, "a\
b", 'it\'s "q"', "\0".length, "</script>", "<!-- -->", "\v\f\b".length);`},
	{src: `out(/(\d+)-(\w)\2/i.exec("n A-zz 12-xX")?.[1], "a1b22".replace(/\d+/g, (m) => "<" + m.length + ">"), /[\u{1F300}-\u{1F9FF}]/u.test("🎉"), "aBc".split(/(?=[A-Z])/).join("|"), /\//.source);`},
	{src: `out(0.1 + 0.2, 1e21, 1e-7, -0 === 0, Object.is(-0, 0), 0xFF, 0b101, 0o17, 5 % -3, -5 % 3, 2 ** A % 1000003, ~~3.7, 1 / 3, 255 .toString(16), 9007199254740993, NaN !== NaN, (A).toFixed(2), 1 << 31, -1 >>> 0);`},
	{src: `let n@ = null, z@ = 0; out(n@ ?? A, z@ ?? A, z@ || B, n@?.a?.b, n@?.[0], n@?.(), typeof undefinedThing, void 0); n@ = n@ ?? C; out(n@, z@);`},
	{src: `switch (A % 4) { case 0: out("zero"); case 1: out("one"); break; default: out("more"); case 3: { let q = B; out("three", q) } }`},
	{src: `const m@ = new Map([[A, "x"], ["k", B]]), s@ = new Set([A, B, A, NaN, NaN]); out([...m@].join(";"), s@.size, [...s@].join(), m@.has(A), new WeakMap().has(m@));`},
	{src: `const fs@ = []; for (var i@ = 0; i@ < 3; i@++) { let k = i@; fs@.push(() => k * 10 + i@) } out(fs@.map((f) => f()).join()); for (const k of [A, B]) fs@.push(() => k); out(fs@[3](), fs@[4]());`},
	{src: `out(typeof later@, hoist@()); var later@ = A; function hoist@() { return typeof later@ } try { tdz@; } catch (e) { out(e.name) } let tdz@ = B;`},
	{src: `const sym@ = Symbol("A"); const os@ = { [sym@]: A, [Symbol.toPrimitive](h) { return h === "number" ? B : "prim" }, *[Symbol.iterator]() { yield* [A, B] } }; out(os@[sym@], +os@, String(os@), [...os@].join(), sym@.description);`},
	{src: `const px@ = new Proxy({}, { get: (t, k) => "got " + String(k), has: () => true }); out(px@.any_, "x" in px@, Reflect.ownKeys({ b: 1, a: 2, 1: 3 }).join());`},
	{src: `(function () { out(this === undefined, arguments.length) ; function in1() { return new.target === undefined } out(in1()) }).call(undefined, A, B) ;`},
	{src: `const unused@ = out("side effect", A); function never@() { out("never") } if (false) never@(); const pure@ = (() => out("iife"))();`},
	{src: `debugger; out("after debugger"); var console = { log: (x) => out("logged", x) }; console.log(A); console.assert?.(false);`},
	{src: `out(eval("A + 1"), new Function("x", "return x * 2")(B), [3, 1, 10, 2].sort().join(), [3, 1, 10, 2].sort((a, b) => a - b).join(), [A, [B, [C]]].flat(Infinity).join(), [1, 2, 3].at(-1));`},
	{src: `const dt@ = new Date(Date.UTC(2024, A % 12, 29, 23, 59, 59, 999)); out(dt@.toISOString(), dt@.getTime(), new Date(NaN).getTime(), JSON.stringify({ dt@ }));`},
	{src: `out("a" + A + B, A + B + "c", "3" * "4", [] + {}, [1] == 1, null == undefined, null == 0, "b" > "a", [2] > 1, typeof null, +"", +" 12 ", parseInt("08"), !!"0", "5" - 2, true + 1);`},
	{src: `process_@: { let __proto = A, $x = B, _ = C, ünï = 1; out(__proto + $x + _ + ünï) } const async = A, of = B, get = C, from = 1; { out(async + of + get + from) }`},
	{src: `Promise.resolve(A).then((x) => out("then", x)); (async () => { await null; out("async", B); try { await Promise.reject(new Error("no")) } catch (e) { out(e.message) } })(); out("sync");`},
	{src: `const b@ = [A, B, C].reduce((a, x) => a * 31 + x, 7) % 1000003; out(b@); { function inner() { return A } out(inner()) } out(((a, b) => a, B), (1, C));`},
	{src: `/*! kept */ /* @preserve */ // line
out("x"/* inside */ + "y" /** doc */, 1 /*a*/ + /*b*/ 2, "//no", "/*no*/");`},
	{src: `out(JSON.stringify({ u: undefined, n: null, a: [undefined, () => 1], d: { toJSO@() { return A } }, s: "\u2028<>&'" }), JSON.parse('{"__proto__": 1}').__proto__, JSON.stringify([A, "B"], null, 1));`},

	// only TypeScript
	{src: `enum Color@ { Red, Green = A, Blue, Text = "t" } out(Color@.Red, Color@.Green, Color@.Blue, Color@[A], Color@.Text, Object.keys(Color@).length);`, want: []string{"0,A,A+1,Green,t,7"}},
	{src: `const enum Flag@ { X = 1 << 2, Y = X | 1, Z = "abc".length } out(Flag@.X, Flag@.Y);`, want: []string{"4,5"}},
	{src: `namespace Ns@ { export const a = A; export namespace In { export function f(x: number): number { return x + a } } } out(Ns@.a, Ns@.In.f(B));`, want: []string{"A,A+B"}},
	{src: `class Pt@ { constructor(public readonly x: number, private y_ = B, protected z?: string) {} sum(): number { return this.x + this.y_ } } const pt@: Pt@ = new Pt@(A); out(pt@.x, pt@.sum(), (pt@ as any)["y" + "_"], (<any>pt@).z);`, want: []string{"A,A+B,B,undefined"}},
	{src: `function generic@<T extends { id: number }, K extends keyof T>(t: T, k: K): T[K] { return t[k]! } type Alias@ = { id: number; q?: string }; interface I@ extends Alias@ { w: number } const v@ = { id: A, w: B } satisfies I@; out(generic@(v@, "id"), generic@<I@, "w">(v@, "w"));`, want: []string{"A,B"}},
	{src: `abstract class Abs@ { abstract f(): number; g() { return this.f() + A } } class Imp@ extends Abs@ { declare z: number; override f() { return B } } function over@(x: string): string; function over@(x: number): string; function over@(x: any) { return typeof x } out(new Imp@().g(), over@("a"), over@(1), "z" in new Imp@());`, want: []string{"A+B,string,number,false"}},
}

// source is the snippet with its values.
func (s snippet) with(r *rand.Rand, n int) (src string, want []string) {
	a, b, c := 2+r.Intn(40), 50+r.Intn(900), 1000+r.Intn(90000)
	put := func(x string) string {
		var o strings.Builder
		for i := 0; i < len(x); i++ {
			prev, next := byte(' '), byte(' ')
			if i > 0 {
				prev = x[i-1]
			}
			if i+1 < len(x) {
				next = x[i+1]
			}
			word := func(c byte) bool {
				return c == '_' || c == '$' || c == '@' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
			}
			switch v := map[byte]int{'A': a, 'B': b, 'C': c}[x[i]]; {
			case v != 0 && !word(prev) && !word(next):
				fmt.Fprint(&o, v)
			case x[i] == '@' && word(prev) && !word(next):
				fmt.Fprint(&o, n)
			default:
				o.WriteByte(x[i])
			}
		}
		return o.String()
	}
	for _, w := range s.want {
		w = strings.NewReplacer("A+B", fmt.Sprint(a+b), "A+1", fmt.Sprint(a+1)).Replace(w)
		want = append(want, put(w))
	}
	return put(s.src), want
}

// language is a script of several snippets and what it prints: what goja says to
// the same javascript as it stands, without compiling and bundling.
func language(t *zv.T, r *rand.Rand) (src, want string) {
	var body, ts strings.Builder
	var last []string
	for n, k := 0, 1+r.Intn(6); n < k; n++ {
		s := snippets[r.Intn(len(snippets))]
		x, w := s.with(r, n)
		if s.want == nil {
			fmt.Fprintf(&body, "{ %s\n}\n", x)
		} else {
			fmt.Fprintf(&ts, "%s\n", x)
			for _, w := range w {
				last = append(last, w)
			}
		}
	}
	var got []string
	vm := goja.New()
	vm.Set("emit", func(x string) { got = append(got, x) })
	p, err := goja.Compile("plain.js", "(() => {\nconst out = (...a) => emit(a.map(String).join());\n"+body.String()+"\nfor (const x of "+list(last)+") emit(x);})()", true)
	if err != nil {
		t.Broken("plain script: %v\n%s", err, body.String())
	}
	if _, err := vm.RunProgram(p); err != nil {
		t.Broken("plain script: %v\n%s", err, body.String())
	}
	imp := []string{"import { println } from '@requiemdb/rq';\n", "import { println as println } from \"@requiemdb/rq\";\n", "import * as rqlib from '@requiemdb/rq';\nconst { println } = rqlib;\n"}[r.Intn(3)]
	src = imp + "const out = (...a: any[]): void => println(a.map(String).join());\n" + body.String() + ts.String()
	return src, strings.Join(append(got, ""), "\n")
}

func list(ls []string) string {
	var o []string
	for _, x := range ls {
		o = append(o, lit(x))
	}
	return "[" + strings.Join(o, ",") + "]"
}

// compiled runs scripts as rq query does, in this process.
func compiled(t *zv.T) {
	for i := 0; i < 4; i++ {
		src, want := language(t, t.Rand)
		b, err := compile.Compile([]byte(src))
		if err != nil {
			t.Fatal("compile", "a valid script does not compile: %v\n%s", err, clip(src))
		}
		p, err := goja.Compile("scan.js", string(b), true)
		if err != nil {
			t.Fatal("compile", "a valid script compiles to something invalid: %v\n%s", err, clip(src))
		}
		var o bytes.Buffer
		vm := js.New().WithOutput(&o)
		t.Eval(1)
		if err := vm.Run(p); err != nil {
			t.Fatal("wrong-exit", "%v\n%s", err, clip(src))
		}
		if o.String() != want {
			t.Fatal("wrong-output", "want %q got %q\n%s", clip(want), clip(o.String()), src)
		}
		t.Count("compiled", 1)
		t.Distinct(src)
	}
}
