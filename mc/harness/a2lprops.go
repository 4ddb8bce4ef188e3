package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/asap2Go/calibrationReader/a2l"
	"github.com/asap2Go/calibrationReader/zzverif/vsched"
)

func init() {
	props["C08"] = a2lParams
	props["C09"] = a2lOptions
}

type mkFn = func() (func(), func(x *vsched.Exec) string)

// a2lText is a case that reads the text; want is what must be found, nil if reading must fail.
func (c *Ctx) a2lText(txt func() string, want *Node) mkFn {
	return func() (func(), func(x *vsched.Exec) string) {
		p := c.file("in.a2l", txt())
		var res a2l.A2L
		var err error
		body := func() {
			res, err = a2l.ParseFromFile(p)
		}
		check := func(x *vsched.Exec) string {
			if want == nil {
				c.outcome(fmt.Sprint(err))
				if err == nil {
					return "accepted, an error was expected"
				}
				return ""
			}
			if err != nil {
				return "rejected: " + err.Error()
			}
			return want.diff(reflect.ValueOf(res), "a2l")
		}
		return body, check
	}
}

func (c *Ctx) a2lOK(root *Node) mkFn { return c.a2lText(root.text, root) }

// a2lParams: every keyword in every context, with several list lengths and values (C08).
func a2lParams(c *Ctx) {
	a2lCombos(c)
	if c.fam("params") {
		for _, p := range specPaths(true) {
			s := p[len(p)-1]
			lens := []int{2}
			if len(s.List) > 0 {
				lens = []int{0, 1, 2, 3, 5, 17}
				if c.thorough() {
					lens = append(lens, 4, 6, 7, 8, 9, 100, 1000)
				}
			}
			opts := []int{99}
			for _, q := range s.Par {
				if q.Opt {
					opts = []int{0, 1, 2, 3, 4}
				}
			}
			for _, l := range lens {
				for _, o := range opts {
					for e := 0; e < c.pick(3, 12); e++ {
						c.one(func() string { return fmt.Sprintf("%s-rows%d-opt%d-v%d", pathName(p), l, o, e) }, func() (func(), func(x *vsched.Exec) string) {
							g := newGen()
							g.rows, g.opt, g.enum = l, o, e
							g.n += e * 37
							root, _ := g.put(p)
							return c.a2lOK(root)()
						})
					}
				}
			}
		}
	}
}

// cell is a place of a node that holds one literal.
type cell struct {
	at *string
	t  string
}

func (n *Node) cells() []cell {
	var out []cell
	for i, p := range n.Par {
		if p.Type == "flag" || p.Type == "count" {
			continue
		}
		for k := range n.Val[i] {
			out = append(out, cell{&n.Val[i][k], p.Type})
		}
	}
	return out
}

// strings are the cells, list cells too, whose text is stored as it is.
func (n *Node) strings() []cell {
	var out []cell
	for _, x := range n.cells() {
		switch x.t {
		case "id", "text", "addr", "any":
			out = append(out, x)
		}
	}
	for _, r := range n.Rows {
		for i := range r {
			switch n.List[i].Type {
			case "id", "text", "addr", "any":
				out = append(out, cell{&r[i], n.List[i].Type})
			}
		}
	}
	return out
}

// grammarWords are the keywords and the literals of the enumerations.
func grammarWords() []string {
	seen := map[string]bool{}
	var out []string
	add := func(w string) {
		if !seen[w] {
			seen[w] = true
			out = append(out, w)
		}
	}
	for _, s := range specOrder {
		add(s.word())
	}
	var ts []string
	for t := range a2lEnums {
		ts = append(ts, t)
	}
	sort.Strings(ts)
	for _, t := range ts {
		for _, w := range a2lEnums[t] {
			add(w)
		}
	}
	return out
}

var kwSet map[string]bool

func isKW() map[string]bool {
	if kwSet == nil {
		kwSet = map[string]bool{}
		for _, s := range specOrder {
			kwSet[s.word()] = true
		}
	}
	return kwSet
}

// alike are identifiers that are almost w; the first ones for texts, where w itself may stand.
func alike(w string) []string {
	out := []string{w + "1", w + "_", "_" + w, w + "S", w[:len(w)-1], w[1:], strings.ToLower(w), w[:1] + strings.ToLower(w[1:]), w + "." + w, w + "[0]", w + "_" + w, "my_" + w, w + "_12", "x." + w, w + "2D", strings.ReplaceAll(w, "_", ""), strings.ReplaceAll(w, "_", "."), w}
	kw := isKW()
	for i, x := range out {
		if x == "" || kw[x] || strings.HasPrefix(x, "/") || x[0] == '[' {
			out[i] = w + "_" + fmt.Sprint(i)
		}
	}
	return out
}

func spellings(t string) []string {
	long := func(n int) string { return strings.Repeat("abcdefghij", n/10) + strings.Repeat("k", n%10) }
	switch t {
	case "id":
		return []string{"A", "a", "_", "a_b_", "A.B.C", "a[0][1].b[2]", "x2", "measurement", "Measurement", "MEASUREMENT_1", "begin", "end", "BEGIN", "END", "a-b", "a:b", "a::b", "a$b", "#a", "a#", "T'a", "<a>", "a,b", "0x10", "12", "1.5", "-1",
			"NaN", "true", "nil", "null", long(31), long(32), long(33), long(63), long(64), long(65), long(127), long(128), long(129), long(255), long(256), long(257), long(1024), long(1025), long(5000)}
	case "text":
		return []string{`""`, `" "`, `"a b"`, `"a""b"`, `""""`, `"x ""y z"" w"`, `"a "" b"`, `" a"`, `"a "`, `"'"`, `"a'b c'd"`, `"MEASUREMENT"`, `"/begin MEASUREMENT"`, `"/end MODULE"`, `"//"`, `"/* a */"`, `"a // b"`, `"0"`, `"-1.5"`, `"0x10"`, `"%3.1"`, `"%s %d %n"`, `"a;b,c"`, `"{}[]()<>"`, `"$1 $$"`, `"été"`, "\"\xb0C\"", "\"\xe4 \xff\"", `"µ°²"`, `"日本語 テキスト"`,
			`"` + long(30) + `"`, `"` + long(100) + `"`, `"` + long(253) + `"`, `"` + long(254) + `"`, `"` + long(255) + `"`, `"` + long(256) + `"`, `"` + long(1000) + `"`, `"` + long(5000) + `"`, `"` + strings.Repeat("a ", 50) + `b"`, `"` + strings.Repeat("ab ", 400) + `c"`, `"a` + strings.Repeat(" ", 1) + `"`}
	case "addr":
		return []string{"0x0", "0x1", "0xFFFFFFFF", "0xffffffff", "0xAbCd", "0x00000001", "0x0000000000000001", "0X1F", "0", "1", "4294967295", "0x80000000", "0x1_0", "0x123456789ABCDEF0"}
	case "any":
		return []string{"a", "A.b", "a/b", "/a", "/", "a/", "a/begin", "a/end", "a/begin/b", "/a/end_b", "a/ending", "begin", "end", "1", "-1", "1.5", "0x1F", `"a b"`, `"'"`, `"` + long(300) + `"`, long(300)}
	}
	return nil
}

// a2lCombos: combinations of values in the parameters and lists of every keyword in every context (C08).
func a2lCombos(c *Ctx) {
	// one makes the file of the path and lets set change the last node
	one := func(name func() string, p []*Spec, rows int, set func(last *Node)) {
		c.one(name, func() (func(), func(x *vsched.Exec) string) {
			g := newGen()
			g.rows = rows
			root, last := g.put(p)
			set(last)
			return c.a2lOK(root)()
		})
	}
	paths := specPaths(true)
	// all parameters of the file, or of the keyword, have one of two values
	if c.fam("equal") {
		for _, p := range paths {
			g := newGen()
			_, last := g.put(p)
			k := len(last.cells())
			for ab := 0; ab < c.pick(2, 4); ab++ {
				for bits := 0; bits < 1<<k; bits++ {
					one(func() string { return fmt.Sprintf("%s-%d-%x", pathName(p), ab, bits) }, p, 2, func(last *Node) {
						for i, x := range last.cells() {
							a := alphabet(x.t)
							*x.at = a[(2*ab+bits>>i&1)%len(a)]
						}
					})
				}
			}
			for v := 1; v <= 6; v++ {
				c.one(func() string { return fmt.Sprintf("%s-same%d", pathName(p), v) }, func() (func(), func(x *vsched.Exec) string) {
					g := newGen()
					g.same = v
					root, _ := g.put(p)
					return c.a2lOK(root)()
				})
			}
		}
	}
	// every two parameters with every two values of their alphabets
	if c.fam("pairs") {
		for _, p := range paths {
			g := newGen()
			_, last := g.put(p)
			cs := last.cells()
			for i := range cs {
				for j := range cs[:i] {
					for a := range alphabet(cs[i].t) {
						for b := range alphabet(cs[j].t) {
							one(func() string { return fmt.Sprintf("%s-%d.%d-%d.%d", pathName(p), i, j, a, b) }, p, 2, func(last *Node) {
								cs := last.cells()
								*cs[i].at, *cs[j].at = alphabet(cs[i].t)[a], alphabet(cs[j].t)[b]
							})
						}
					}
				}
			}
		}
	}
	// identifiers, texts and addresses of every kind, one at a time
	if c.fam("spelling") {
		for _, p := range paths {
			g := newGen()
			g.rows = 2
			_, last := g.put(p)
			for i, x := range last.strings() {
				for v := range spellings(x.t) {
					one(func() string { return fmt.Sprintf("%s-%d-%d", pathName(p), i, v) }, p, 2, func(last *Node) {
						x := last.strings()[i]
						*x.at = spellings(x.t)[v]
					})
				}
			}
		}
	}
	// every character that can be part of an identifier or a text
	// identifiers and texts that resemble a keyword or a literal
	if c.fam("words") {
		ws := grammarWords()
		n := len(alike("AB"))
		for _, p := range paths {
			s := p[len(p)-1]
			g := newGen()
			g.rows = 2
			_, last := g.put(p)
			if len(last.strings()) == 0 {
				continue
			}
			idList := len(s.List) == 1 && (s.List[0].Type == "id" || s.List[0].Type == "text" || s.List[0].Type == "any")
			for v := 0; v < n && idList; v++ {
				one(func() string { return fmt.Sprintf("%s-all-%d", pathName(p), v) }, p, len(ws), func(last *Node) {
					for i, w := range ws {
						x := alike(w)[v]
						if s.List[0].Type == "text" {
							x = `"` + x + `"`
						}
						last.Rows[i][0] = x
					}
				})
			}
			near := []string{s.word(), "UNIT", "FORMAT", "VALUE", "UBYTE"}
			host := specs["ROOT"]
			if len(p) > 1 {
				host = p[len(p)-2]
				near = append(near, host.word())
			}
			for _, o := range append(append([]Opt(nil), s.Opts...), host.Opts...) {
				near = append(near, o.word())
			}
			if c.thorough() {
				near = ws
			}
			for k, w := range near {
				for v := 0; v < n; v++ {
					if k >= 5 && !c.thorough() && (k+v)%3 != 0 {
						continue
					}
					one(func() string { return fmt.Sprintf("%s-%d-%s-%d", pathName(p), k, w, v) }, p, 2, func(last *Node) {
						a := alike(w)
						for i, x := range last.strings() {
							y := a[(v+i)%n]
							switch {
							case x.t == "text":
								y = `"` + []string{w, y, w + " " + y, "a " + w + " b"}[(v+i)%4] + `"`
							case x.t == "addr":
								continue
							}
							*x.at = y
						}
					})
				}
			}
		}
	}
	if c.fam("characters") {
		for b := 33; b < 256; b++ {
			if b == '"' || b == '\\' {
				continue
			}
			for k := 0; k < 6; k++ {
				c.one(func() string { return fmt.Sprintf("%02x-%d", b, k) }, func() (func(), func(x *vsched.Exec) string) {
					g := newGen()
					root, m := g.file()
					u := g.sub(m, "UNIT")
					ch := string([]byte{byte(b)})
					switch k {
					case 0:
						u.Val[1][0] = `"` + ch + `"`
					case 1:
						u.Val[1][0] = `"a` + ch + ` ` + ch + `b"`
					case 2:
						u.Val[2][0] = `" ` + ch + ch + ` "`
						u.Val[1][0] = `"` + string(rune(b)) + `"`
						if b >= 128 {
							u.Val[1][0] = `"a` + string(rune(b+0x100)) + `b"`
						}
					case 3:
						u.Val[0][0] = "a" + ch + "b"
						if b == '/' || b == '*' {
							u.Val[0][0] = "a" + ch
						}
					case 4:
						g.sub(u, "REF_UNIT").Val[0][0] = "a" + ch
					case 5:
						g.sub(g.sub(m, "MEASUREMENT"), "IF_DATA").Rows = [][]string{{"a" + ch}, {`"` + ch + `"`}, {"b" + ch}}
					}
					return c.a2lOK(root)()
				})
			}
		}
	}
	// what an IF_DATA holds: all well-nested contents up to a length, every depth and number of blocks, in every block
	if c.fam("nested") {
		names := []string{"XCP", "IF_DATA", "MEASUREMENT", "MODULE", "A2ML", "ANNOTATION_TEXT"}
		put := func(name string, p []*Spec, rows []string) {
			c.one(func() string { return pathName(p) + "-" + name }, func() (func(), func(x *vsched.Exec) string) {
				g := newGen()
				root, last := g.put(p)
				last.Rows = nil
				for _, r := range rows {
					last.Rows = append(last.Rows, []string{r})
				}
				m := root.find("PROJECT").Subs[0]
				g.sub(m, "USER_RIGHTS")
				return c.a2lOK(root)()
			})
		}
		for n, p := range specPaths(true) {
			if p[len(p)-1].KW != "IF_DATA" {
				continue
			}
			full := n == 0 || len(p) == 3 || c.thorough()
			add := func(l []string, x string) []string { return append(append([]string(nil), l...), x) }
			var rec func(rows, open []string, left int, name string)
			rec = func(rows, open []string, left int, name string) {
				if len(open) == 0 {
					put(name, p, append([]string(nil), rows...))
				}
				if left > len(open) {
					rec(add(rows, "w"), open, left-1, name+"w")
					if full {
						rec(add(rows, `"/begin IF_DATA x"`), open, left-1, name+"t")
					}
					for i, b := range names {
						if i > 1 && !full && left < 4 {
							continue
						}
						if left > len(open)+1 {
							rec(add(rows, "/begin "+b), add(open, b), left-1, name+fmt.Sprint(i))
						}
					}
				}
				if len(open) > 0 {
					rec(add(rows, "/end "+open[len(open)-1]), open[:len(open)-1], left-1, name+"e")
				}
			}
			rec(nil, nil, c.pick(5, 6), "")
			for _, k := range []int{3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 50, 64, 65, 100, 128, 129, 255, 256, 257, 1000} {
				var deep, wide []string
				for i := 0; i < k; i++ {
					deep = append(deep, "/begin "+names[i%len(names)], "d")
					wide = append(wide, "/begin "+names[i%len(names)], "w", "/end "+names[i%len(names)])
				}
				for i := k - 1; i >= 0; i-- {
					deep = append(deep, "/end "+names[i%len(names)])
				}
				put(fmt.Sprint("deep", k), p, deep)
				put(fmt.Sprint("wide", k), p, wide)
			}
		}
	}
	// list cells: all assignments of two values to each, for the short lengths, and all lengths
	if c.fam("lists") {
		for _, p := range paths {
			s := p[len(p)-1]
			cols := len(s.List)
			if cols == 0 {
				continue
			}
			for rows := 1; rows*cols <= c.pick(6, 9); rows++ {
				for ab := 0; ab < 2; ab++ {
					for bits := 0; bits < 1<<(rows*cols); bits++ {
						one(func() string { return fmt.Sprintf("%s-%d-%d-%x", pathName(p), rows, ab, bits) }, p, rows, func(last *Node) {
							for i := 0; i < rows*cols; i++ {
								a := alphabet(s.List[i%cols].Type)
								last.Rows[i/cols][i%cols] = a[(2*ab+bits>>i&1)%len(a)]
							}
						})
					}
				}
			}
			for rows := 0; rows <= c.pick(40, 300); rows++ {
				one(func() string { return fmt.Sprintf("%s-len%d", pathName(p), rows) }, p, rows, func(*Node) {})
			}
			lens := []int{100, 128, 129, 255, 256, 257, 1000, 1024, 4097}
			if c.numCPU == 1 || c.thorough() {
				lens = append(lens, 32768, 65535)
				if len(s.Par) == 0 {
					lens = append(lens, 65536, 70000)
				}
			}
			for _, rows := range lens {
				one(func() string { return fmt.Sprintf("%s-len%d", pathName(p), rows) }, p, rows, func(*Node) {})
			}
		}
	}
}

// a2lOptions: combinations and orders of options (C09).
func a2lOptions(c *Ctx) {
	blocksOf := func(all bool) (out [][]*Spec) {
		for _, p := range specPaths(all) {
			if len(p[len(p)-1].Opts) > 0 && p[0].KW == "PROJECT" {
				out = append(out, p)
			}
		}
		return
	}
	blocks := blocksOf(true)
	// put the given options, in order, into the block
	file := func(p []*Spec, opts []Opt, g *Gen) *Node {
		root, last := g.put(p)
		for _, o := range opts {
			last.Subs = append(last.Subs, g.node(o.Spec))
		}
		if last.KW == "PROJECT" {
			last.Subs = append(last.Subs[1:], last.Subs[0])
		}
		return root
	}
	run := func(name func() string, p []*Spec, opts []Opt, tweak func(g *Gen)) {
		c.one(name, func() (func(), func(x *vsched.Exec) string) {
			g := newGen()
			if tweak != nil {
				tweak(g)
			}
			return c.a2lOK(file(p, opts, g))()
		})
	}
	if c.fam("pairs") {
		for _, p := range blocks {
			s := p[len(p)-1]
			for i, a := range s.Opts {
				for j, b := range s.Opts {
					if i == j && !a.Rep {
						continue
					}
					if s.KW == "PROJECT" && (i == j || a.KW == "MODULE" || b.KW == "MODULE") {
						continue
					}
					nv := 1
					if varies(a.Spec) || varies(b.Spec) {
						nv = 7
					}
					for v := 0; v < nv; v++ {
						run(func() string { return fmt.Sprintf("%s-%s-%s-%d", pathName(p), a.word(), b.word(), v) }, p, []Opt{a, b}, func(g *Gen) { g.opt, g.rows = v, v })
					}
				}
			}
		}
	}
	// repeated options that agree in everything, in their first parameter or in nothing, adjacent or apart
	if c.fam("repeats") {
		for _, p := range blocks {
			s := p[len(p)-1]
			for _, a := range s.Opts {
				if !a.Rep || byName(s, a.Spec) {
					continue
				}
				var others []*Spec
				for _, b := range s.Opts {
					if b.Spec != a.Spec {
						others = append(others, b.Spec)
					}
				}
				for l := 2; l <= c.pick(4, 5); l++ {
					for k := 0; k < pow(3, l); k++ {
						seq := digits(k, 3, l)
						seps := 1
						if l <= 3 {
							seps += len(others)
						}
						for sep := 0; sep < seps; sep++ {
							c.one(func() string { return fmt.Sprintf("%s-%s-%d-%d-%d", pathName(p), a.word(), l, k, sep) }, func() (func(), func(x *vsched.Exec) string) {
								g := newGen()
								root, last := g.put(p)
								n := g.n
								for i, v := range seq {
									if sep > 0 && i == l-1 {
										last.Subs = append(last.Subs, g.node(others[sep-1]))
									}
									g.n = n + 100*v
									x := g.node(a.Spec)
									if v == 1 && len(x.Val) > 0 {
										// the same name with other content
										g.n = n
										x.Val[0] = g.node(a.Spec).Val[0]
									}
									g.n = n + 1000
									last.Subs = append(last.Subs, x)
								}
								return c.a2lOK(root)()
							})
						}
					}
				}
			}
		}
	}
	// options with the same values
	if c.fam("same") {
		for _, p := range blocks {
			s := p[len(p)-1]
			if s.KW == "PROJECT" || s.KW == "MODULE" {
				continue
			}
			for v := 1; v <= c.pick(3, 6); v++ {
				for i, a := range s.Opts {
					for j, b := range s.Opts {
						if i == j && (!a.Rep || byName(s, a.Spec)) {
							continue
						}
						run(func() string { return fmt.Sprintf("%s-%s-%s-%d", pathName(p), a.word(), b.word(), v) }, p, []Opt{a, b}, func(g *Gen) { g.same = v })
						// every number of parameters or rows
						for k := 0; k <= 5 && (varies(a.Spec) || varies(b.Spec)); k++ {
							run(func() string { return fmt.Sprintf("%s-%s-%s-%d-n%d", pathName(p), a.word(), b.word(), v, k) }, p, []Opt{a, b}, func(g *Gen) { g.same, g.opt, g.rows = v, k, k })
						}
					}
				}
				var all []Opt
				for _, o := range s.Opts {
					all = append(all, o)
					if o.Rep && !byName(s, o.Spec) {
						all = append(all, o, o)
					}
				}
				for rot := range all {
					run(func() string { return fmt.Sprintf("%s-all%d-%d", pathName(p), rot, v) }, p, rotate(all, rot, v%2 == 0), func(g *Gen) { g.same = v })
				}
			}
		}
	}
	// a repeatable option many times
	if c.fam("many") {
		for _, p := range blocks {
			s := p[len(p)-1]
			for _, a := range s.Opts {
				if !a.Rep || s.KW == "PROJECT" {
					continue
				}
				for n := 3; n <= 66; n += 1 + n/8 {
					opts := make([]Opt, n)
					for i := range opts {
						opts[i] = a
					}
					run(func() string { return fmt.Sprintf("%s-%s-%d", pathName(p), a.word(), n) }, p, opts, nil)
				}
			}
		}
	}
	if c.fam("full") {
		for _, p := range blocks {
			s := p[len(p)-1]
			if s.KW == "PROJECT" {
				continue
			}
			var all []Opt
			for _, o := range s.Opts {
				all = append(all, o)
				if o.Rep {
					all = append(all, o, o)
				}
			}
			n := len(all)
			for dir := 0; dir < 2; dir++ {
				for rot := 0; rot < n; rot++ {
					run(func() string { return fmt.Sprintf("%s-rot%d-dir%d", pathName(p), rot, dir) }, p, rotate(all, rot, dir == 1), nil)
					// all but one
					run(func() string { return fmt.Sprintf("%s-without%d-dir%d", pathName(p), rot, dir) }, p, rotate(all, rot, dir == 1)[1:], nil)
				}
			}
		}
	}
	if c.fam("triples") {
		for _, p := range blocksOf(c.thorough()) {
			s := p[len(p)-1]
			if s.KW == "PROJECT" || s.KW == "RECORD_LAYOUT" && !c.thorough() {
				continue
			}
			for i, a := range s.Opts {
				for j, b := range s.Opts {
					if i == j && !a.Rep {
						continue
					}
					for k, d := range s.Opts {
						if (k == i || k == j) && !d.Rep {
							continue
						}
						run(func() string { return fmt.Sprintf("%s-%s-%s-%s", pathName(p), a.word(), b.word(), d.word()) }, p, []Opt{a, b, d}, nil)
					}
				}
			}
		}
	}
}

// byName tells whether the reader keeps the options of this kind under their names: they must be unique.
func byName(block, o *Spec) bool {
	return block.KW == "MODULE" || block.KW == "PROJECT" || o.KW == "SYSTEM_CONSTANT"
}

// varies tells whether the keyword can have more or fewer parameters.
func varies(s *Spec) bool {
	for _, p := range s.Par {
		if p.Opt {
			return true
		}
	}
	return len(s.List) > 0
}

func rotate(o []Opt, r int, rev bool) []Opt {
	n := len(o)
	out := make([]Opt, 0, n)
	for i := range o {
		k := (i + r) % n
		if rev {
			k = n - 1 - k
		}
		out = append(out, o[k])
	}
	return out
}
