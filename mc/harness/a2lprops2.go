package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/asap2Go/calibrationReader/zzverif/vsched"
)

func init() {
	props["C06"] = a2lLayout
	props["C07"] = a2lObjects
	props["C10"] = a2lValues
	props["C11"] = a2lBroken
	props["C13"] = a2lModules
}

// lazy builds the case only when it is run.
func lazy(f func() mkFn) mkFn {
	return func() (func(), func(x *vsched.Exec) string) { return f()() }
}

// ---- C06

// layoutFile is a file that has every kind of token in a small space.
func layoutFile(g *Gen) *Node {
	root, m := g.file()
	u := g.sub(m, "MEASUREMENT")
	u.Val[1][0] = `"with // and /* marks */"`
	f := g.sub(u, "IF_DATA")
	f.Rows = [][]string{{"/begin SOURCE"}, {`"a b"`}, {"0x12"}, {"km/h"}, {"/end SOURCE"}}
	g.sub(g.sub(u, "ANNOTATION"), "ANNOTATION_TEXT")
	g.sub(u, "READ_WRITE")
	g.sub(u, "FORMAT").Val[0][0] = `""`
	v := g.sub(m, "UNIT")
	v.Val[1][0] = `"/begin UNIT // no"`
	v.Val[2][0] = `"*/"`
	g.sub(m, "COMPU_VTAB")
	return root
}

// words splits the tokens at blanks that are not part of a text: /begin and its keyword are two words.
func words(toks []Tok) []string {
	var w []string
	for _, t := range toks {
		if strings.HasPrefix(t.Text, "/begin ") || strings.HasPrefix(t.Text, "/end ") {
			w = append(w, strings.SplitN(t.Text, " ", 2)...)
		} else {
			w = append(w, t.Text)
		}
	}
	return w
}

var separators = []string{
	" ", "\n", "\t", "\r\n", "  ", "\n\n", "\r\n\r\n", " \t \n\t ", "\n\n\n\n\n\n\n\n\n",
	" /* c */ ", "/* c */", " /*c*/", "/*c*/ ", "\n/* c */\n", "/**/", "/***/", " /* * / */ ", "/* // */",
	" /* two\nlines */ ", "/* two\r\nlines */", "/*\n\n\n\n*/", "\n/*\n*\n*/\n",
	" // c\n", "// c\n", "//\n", "//c\r\n", " // /* c\n", " // */ c\n", "\n// c\n// d\n",
	` /* " */ `, " // \"\n", ` /* "a" "b */ `, " // it's \"quoted\"\n",
	" /* /begin MEASUREMENT x */ ", " // /end MODULE\n", "\n/* /end PROJECT */\n", " /* MATRIX_DIM 1\n FORMAT */ ",
	"\n/* a */ /* b */\n", "/* a */// b\n", "// b\n/* a */", " /* a **/ ", " /* / */ ", "/*/ */",
}

// lay joins the words with the separators: 0 is before the first word, len(w) after the last one.
func lay(w []string, sep func(i int) string) string {
	var b strings.Builder
	for i, x := range w {
		b.WriteString(sep(i))
		b.WriteString(x)
	}
	b.WriteString(sep(len(w)))
	return b.String()
}

func a2lLayout(c *Ctx) {
	root := layoutFile(newGen())
	w := words(root.toks())
	base := func(i int) string {
		switch {
		case i == 0:
			return ""
		case i%4 == 0 || i == len(w):
			return "\n"
		}
		return " "
	}
	// what can stand before the first word and after the last one
	first := append([]string{"", "\ufeff", "\ufeff\n", "\ufeff// c\n", "\ufeff/* c */"}, separators...)
	last := append([]string{"", "//", "// c", " // /* c", " // \"", "\n// /end PROJECT", "/* c */ // d", "\x1a", "\n\x1a", "\x00", "\n\x00\x00\x00"}, separators...)
	okay := func(name func() string, sep func(i int) string) {
		c.one(name, lazy(func() mkFn { return c.a2lText(func() string { return lay(w, sep) }, root) }))
	}
	if c.fam("uniform") {
		for i, s := range separators {
			okay(func() string { return strconv.Itoa(i) }, func(int) string { return s })
		}
		for i, s := range separators {
			for j, t := range separators {
				for per := 2; per <= c.pick(3, 7); per++ {
					okay(func() string { return fmt.Sprintf("%d-%d-p%d", i, j, per) }, func(k int) string {
						if k%per == 0 {
							return t
						}
						return s
					})
				}
			}
		}
	}
	// separators of any length
	if c.fam("long") {
		for _, n := range []int{255, 256, 4096, 65535, 65536, 70000, 200000} {
			rep := strings.Repeat
			for v, s := range []string{rep(" ", n), rep("\n", n), rep("\r\n", n/2), rep("\t", n), " /*" + rep("x", n) + "*/ ", " /* " + rep("x ", n/2) + "*/ ", "/*" + rep("\n", n) + "*/", " // " + rep("c", n) + "\n", " " + rep("// c\n", n/5), rep("/* c */", n/7), " /*" + rep("*", n) + "*/ ", " // " + rep("\" ", n/2) + "\n", " /* " + rep("\"", n) + "*/ "} {
				for k, at := range []int{0, 1, 3, 4, len(w) / 2, len(w) - 1, len(w)} {
					if !c.thorough() && n > 4096 && (v+k)%7 != 0 {
						continue
					}
					okay(func() string { return fmt.Sprintf("%d-%d-%d", n, v, k) }, func(g int) string {
						if g == at {
							return s
						}
						return base(g)
					})
				}
			}
		}
		// a whole file on one line, or every word on its own
		for _, n := range []int{10, 100, 1000, 3000} {
			for v, sep := range []string{" ", "\t", "\n", "\r\n", "\n\n\n", " /* c */ "} {
				if n == 3000 && !c.thorough() && c.numCPU != 2 {
					continue
				}
				c.one(func() string { return fmt.Sprintf("file-%d-%d", n, v) }, lazy(func() mkFn {
					r := smallA2L(0, 1, n)
					ws := words(r.toks())
					return c.a2lText(func() string { return lay(ws, func(int) string { return sep }) }, r)
				}))
			}
		}
	}
	if c.fam("edges") {
		for i, s := range first {
			for j, t := range last {
				for k := 0; k < 2; k++ {
					okay(func() string { return fmt.Sprintf("%d-%d-%d", i, j, k) }, func(g int) string {
						switch {
						case g == 0:
							return s
						case g == len(w):
							return t
						case k == 1:
							return "\n"
						}
						return base(g)
					})
				}
			}
		}
	}
	if c.fam("gap") {
		for g := 0; g <= len(w); g++ {
			for i, s := range separators {
				okay(func() string { return fmt.Sprintf("%d-%d", g, i) }, func(k int) string {
					if k == g {
						return s
					}
					return base(k)
				})
			}
		}
	}
	if c.fam("two-gaps") {
		for g := 0; g < len(w); g++ {
			for h := g + 1; h <= len(w) && h <= g+c.pick(3, 12); h++ {
				for i, s := range separators {
					for j, t := range separators {
						if !c.thorough() && (i+j+g)%4 != 0 {
							continue
						}
						okay(func() string { return fmt.Sprintf("%d-%d-%d-%d", g, h, i, j) }, func(k int) string {
							switch k {
							case g:
								return s
							case h:
								return t
							}
							return base(k)
						})
					}
				}
			}
		}
	}
	// something that spans lines, at every place between the workers' line ranges
	if c.fam("spans") {
		n := c.pick(26, 60)
		g := newGen()
		r2, m := g.file()
		for i := 0; i < 4; i++ {
			g.sub(m, "UNIT")
		}
		w2 := words(r2.toks())
		for lines := 1; lines <= n; lines++ {
			for at := 0; at <= len(w2); at++ {
				if !c.thorough() && (at+lines)%3 != 0 {
					continue
				}
				for kind := 0; kind < 4; kind++ {
					name := func() string { return fmt.Sprintf("l%d-at%d-k%d", lines, at, kind) }
					c.one(name, lazy(func() mkFn {
						sep := ""
						switch kind {
						case 0:
							sep = " /*" + strings.Repeat(" x \n", lines) + "*/ "
						case 1:
							sep = strings.Repeat("\n", lines)
						case 2:
							sep = strings.Repeat(" // x \" /*\n", lines)
						case 3:
							sep = "/*" + strings.Repeat("\n", lines) + "*/"
						}
						return c.a2lText(func() string {
							return lay(w2, func(k int) string {
								if k == at {
									return sep
								}
								return "\n"
							})
						}, r2)
					}))
				}
			}
		}
	}
	// line breaks and comment marks within texts
	if c.fam("texts") {
		frags := []string{"a", " ", "//", "/*", "*/", "/", "*", "'", "/begin UNIT", "/end MODULE", ";", "\n", "\r\n", "MATRIX_DIM", "é", "0", `""`}
		max := c.pick(3, 4)
		for l := 0; l <= max; l++ {
			for k := 0; k < pow(len(frags), l); k++ {
				c.one(func() string { return fmt.Sprintf("l%d-%d", l, k) }, lazy(func() mkFn {
					s, x := "", k
					for i := 0; i < l; i++ {
						s += frags[x%len(frags)]
						x /= len(frags)
					}
					g := newGen()
					r, m := g.file()
					u := g.sub(m, "UNIT")
					v := g.sub(m, "UNIT")
					u.Val[1][0] = `"A` + s + `Z"`
					v.Val[2][0] = `"` + s + `"`
					txt := r.text()
					u.Val[1][0] = asRead(u.Val[1][0])
					v.Val[2][0] = asRead(v.Val[2][0])
					return c.a2lText(func() string { return txt }, r)
				}))
			}
		}
	}
	// texts of many lines
	if c.fam("lines") {
		var ns []int
		for n := 0; n <= c.pick(40, 120); n++ {
			ns = append(ns, n)
		}
		for _, n := range append(ns, 200, 1000) {
			for v, line := range []string{"a", "a b", "// a", "/* a", "*/", "/begin UNIT", "/end MODULE", "", "  ", "'", "UNIT"} {
				for e, nl := range []string{"\n", "\r\n", " \n\t"} {
					for at := 0; at < 3; at++ {
						if (v+e+at+n)%3 != 0 && !c.thorough() {
							continue
						}
						c.one(func() string { return fmt.Sprintf("%d-%d-%d-%d", n, v, e, at) }, lazy(func() mkFn {
							g := newGen()
							r, m := g.file()
							u, x := g.sub(m, "UNIT"), g.sub(m, "UNIT")
							t := []*string{&m.Val[1][0], &u.Val[1][0], &x.Val[2][0]}[at]
							*t = `"x ` + strings.Repeat(line+nl, n) + ` z"`
							txt := r.text()
							*t = asRead(*t)
							return c.a2lText(func() string { return txt }, r)
						}))
					}
				}
			}
		}
	}
	// all contents of comments up to a length, in every kind of gap
	if c.fam("contents") {
		frags := []string{"a", " ", "*", "/", "\"", "\n", "\r\n", "'", "/begin UNIT", "/end ", ":", "/*", "//", "\t", "0x1"}
		gaps := []int{1, 3, 4, 5, 12, len(w) - 1, len(w)}
		for l := 0; l <= c.pick(3, 4); l++ {
			for k := 0; k < pow(len(frags), l); k++ {
				t := ""
				for i, x := 0, k; i < l; i++ {
					t += frags[x%len(frags)]
					x /= len(frags)
				}
				var forms []string
				if !strings.Contains(t, "*/") {
					forms = append(forms, "/*"+t+"*/")
				}
				if !strings.Contains(t, "\n") {
					forms = append(forms, "//"+t+"\n", "//"+t+"\r\n")
				}
				for f, form := range forms {
					for i, at := range gaps {
						if !c.thorough() && l > 1 && (k+i+f)%3 != 0 {
							continue
						}
						okay(func() string { return fmt.Sprintf("%d-%d-%d-%d", l, k, f, i) }, func(g int) string {
							if g == at {
								return form
							}
							return base(g)
						})
					}
				}
			}
		}
	}
	// a quote behind a backslash does not end a text; the pair is dropped
	if c.fam("escapes") {
		frags := []string{"a", `\"`, `\\`, " ", "\n", "//", "/*", "/end UNIT", `\"x\"`}
		for l := 0; l <= c.pick(4, 5); l++ {
			for k := 0; k < pow(len(frags), l); k++ {
				c.one(func() string { return fmt.Sprintf("l%d-%d", l, k) }, lazy(func() mkFn {
					s, x := "", k
					for i := 0; i < l; i++ {
						s += frags[x%len(frags)]
						x /= len(frags)
					}
					g := newGen()
					r, m := g.file()
					u, v := g.sub(m, "UNIT"), g.sub(m, "UNIT")
					t := []*string{&u.Val[1][0], &v.Val[2][0]}
					*t[0], *t[1] = `"A`+s+`Z"`, `"`+s+`"`
					txt := r.text()
					for _, q := range t {
						*q = asRead(strings.NewReplacer(`\"`, "", `\\`, "").Replace(*q))
					}
					return c.a2lText(func() string { return txt }, r)
				}))
			}
		}
	}
	// any character within a comment
	if c.fam("bytes") {
		gaps := []int{0, 1, 3, 4, 5, 12, len(w) - 1, len(w)}
		for ch := 0; ch < 256; ch++ {
			x := string([]byte{byte(ch)})
			for v, t := range []string{x, "a" + x + "b", " " + x + " UNIT " + x, x + x + "\"" + x} {
				forms := []string{"/*" + t + "*/", "/*\n" + t + "\n*/"}
				if ch != '\n' {
					forms = append(forms, "//"+t+"\n", "//"+t+"\r\n", " // c"+t+"d\n")
				}
				for f, form := range forms {
					for i, at := range gaps {
						if !c.thorough() && (ch+v+f+i)%2 != 0 {
							continue
						}
						okay(func() string { return fmt.Sprintf("%02x-%d-%d-%d", ch, v, f, i) }, func(g int) string {
							if g == at {
								return form
							}
							return base(g)
						})
					}
				}
			}
		}
	}
	// words that end or begin with any character, touched by a comment
	if c.fam("touch") {
		for ch := 33; ch < 256; ch++ {
			if strings.ContainsRune("\"/\\*", rune(ch)) || ch == 127 || ch >= 0x80 && ch <= 0xa0 {
				continue
			}
			for i, sep := range separators {
				for form := 0; form < 3; form++ {
					if !c.thorough() && (ch+i+form)%2 != 0 && ch > 127 {
						continue
					}
					c.one(func() string { return fmt.Sprintf("%02x-%d-%d", ch, i, form) }, lazy(func() mkFn {
						g := newGen()
						r, m := g.file()
						u := g.sub(m, "UNIT")
						x := string(rune(ch))
						u.Val[0][0] = []string{"a" + x, x + "a", x}[form]
						g.sub(u, "SI_EXPONENTS")
						fr := g.sub(m, "IF_DATA")
						fr.Rows = [][]string{{"a" + x}, {x + "a"}, {x}, {"1" + x}}
						ws := words(r.toks())
						return c.a2lText(func() string { return lay(ws, func(int) string { return sep }) }, r)
					}))
				}
			}
		}
	}
	// schedules of the tokenizers
	if c.fam("schedules") && c.numCPU <= 2 {
		for i, s := range separators {
			c.all(func() string { return strconv.Itoa(i) }, 20000, lazy(func() mkFn {
				return c.a2lText(func() string {
					return lay(w, func(k int) string {
						if k%3 == 0 {
							return s
						}
						return base(k)
					})
				}, root)
			}))
		}
	}
}

// asRead is how a text is stored: line breaks act as blanks and runs of blanks count as one.
func asRead(s string) string {
	return strings.Join(strings.Fields(s), " ")
}

// ---- C07

// objectKinds are the keywords of MODULE.
func objectKinds() []Opt { return specs["MODULE"].Opts }

// object adds an object of the kind with some nesting that depends on size.
func (g *Gen) object(m *Node, s *Spec, size int) *Node {
	n := g.node(s)
	m.Subs = append(m.Subs, n)
	if size > 0 {
		for _, o := range s.Opts {
			switch o.KW {
			case "IF_DATA":
				f := g.node(o.Spec)
				f.Rows = [][]string{{"/begin MEASUREMENT"}, {"inner" + strconv.Itoa(g.n)}, {"/end MEASUREMENT"}, {"/begin UNIT"}, {"x"}, {"/begin GROUP"}, {"/end GROUP"}, {"/end UNIT"}}
				n.Subs = append(n.Subs, f)
			case "ANNOTATION":
				g.sub(g.sub(n, "ANNOTATION"), "ANNOTATION_TEXT")
			case "FUNCTION_LIST", "AXIS_DESCR", "MEMORY_SEGMENT", "FORMULA", "STRUCTURE_COMPONENT", "REF_GROUP", "VAR_CRITERION":
				g.sub(n, o.KW)
			}
		}
	}
	if size > 1 && len(n.List) > 0 {
		for i := 0; i < 20; i++ {
			var r []string
			for _, col := range n.List {
				r = append(r, g.lit(col.Type))
			}
			n.Rows = append(n.Rows, r)
		}
		for i, p := range n.Par {
			if p.Type == "count" {
				n.Val[i][0] = strconv.Itoa(len(n.Rows))
			}
		}
	}
	return n
}

// full adds all options the keyword may have, repeatable ones twice, and theirs.
func (g *Gen) full(n *Node) *Node {
	for _, o := range n.Opts {
		if o.KW == "MODULE" {
			continue
		}
		g.full(g.sub(n, o.KW))
		if o.Rep {
			g.full(g.sub(n, o.KW))
		}
	}
	return n
}

// fullFiles are files with three objects of a kind, with all of their options, in a module, and with one in each of
// three modules.
func (c *Ctx) fullFiles(do func(name string, mk func() *Node)) {
	for _, k := range objectKinds() {
		for shift := 0; shift < 2; shift++ {
			if k.Rep {
				do(fmt.Sprintf("%s-objects-%d", k.word(), shift), func() *Node {
					g := newGen()
					g.enum = shift
					root, m := g.file()
					for i := 0; i < 3; i++ {
						g.full(g.sub(m, k.KW))
					}
					return root
				})
			}
			do(fmt.Sprintf("%s-modules-%d", k.word(), shift), func() *Node {
				g := newGen()
				g.enum = shift
				root, m := g.file()
				for i := 0; i < 3; i++ {
					if i > 0 {
						m = g.sub(root.find("PROJECT"), "MODULE")
					}
					g.full(g.sub(m, k.KW))
				}
				return root
			})
		}
	}
}

// twins are files in which the same keyword is read by several goroutines at once: four objects of one module, or
// one in each of three modules.
func (c *Ctx) twins(mk func(root *Node) mkFn, variant string) {
	cap := c.pick(40, 1000)
	files := func(name string, rep bool, fill func(g *Gen, m *Node)) {
		if rep {
			c.some(func() string { return name + "-objects" + variant }, cap, lazy(func() mkFn {
				g := newGen()
				root, m := g.file()
				for i := 0; i < 4; i++ {
					fill(g, m)
				}
				return mk(root)
			}))
		}
		c.some(func() string { return name + "-modules" + variant }, cap, lazy(func() mkFn {
			g := newGen()
			root, m := g.file()
			fill(g, m)
			fill(g, g.sub(root.find("PROJECT"), "MODULE"))
			fill(g, g.sub(root.find("PROJECT"), "MODULE"))
			return mk(root)
		}))
	}
	rep := map[*Spec]bool{}
	for _, k := range objectKinds() {
		rep[k.Spec] = k.Rep
	}
	for _, p := range specPaths(c.thorough()) {
		if len(p) < 3 || p[1].KW != "MODULE" {
			continue
		}
		files(pathName(p[2:]), rep[p[2]], func(g *Gen, m *Node) { g.chain(m, p[2:]) })
	}
	for _, k := range objectKinds() {
		files("full-"+k.KW, k.Rep, func(g *Gen, m *Node) { g.full(g.sub(m, k.KW)) })
	}
	files("full-all", false, func(g *Gen, m *Node) {
		for i := 0; i < 2; i++ {
			for _, k := range objectKinds() {
				if k.Rep || i == 0 {
					g.full(g.sub(m, k.KW))
				}
			}
		}
	})
}

func a2lObjects(c *Ctx) {
	if c.fam("twins") && c.numCPU > 1 {
		c.twins(c.a2lOK, "")
	}
	kinds := objectKinds()
	mk := func(seq []int, size func(i int) int) func() mkFn {
		return func() mkFn {
			g := newGen()
			root, m := g.file()
			for i, k := range seq {
				g.object(m, kinds[k].Spec, size(i))
			}
			return c.a2lOK(root)
		}
	}
	legal := func(seq []int) bool {
		for i, k := range seq {
			for _, j := range seq[:i] {
				if j == k && !kinds[k].Rep {
					return false
				}
			}
		}
		return true
	}
	kidx := func(kw string) int {
		for i, k := range kinds {
			if k.KW == kw {
				return i
			}
		}
		panic(kw)
	}
	if c.fam("schedules") && c.numCPU <= 3 {
		limit := c.pick(3000, 200000)
		maxL := 2
		if c.numCPU == 3 {
			maxL = c.pick(1, 2)
		}
		for l := 0; l <= maxL; l++ {
			for k := 0; k < pow(len(kinds), l); k++ {
				seq := digits(k, len(kinds), l)
				if legal(seq) {
					c.all(func() string { return fmt.Sprintf("l%d-%d", l, k) }, limit, lazy(mk(seq, func(i int) int { return i % 2 })))
				}
			}
		}
		sub := []int{kidx("UNIT"), kidx("CHARACTERISTIC"), kidx("MOD_PAR"), kidx("IF_DATA")}
		for l := 3; l <= c.pick(4, 5) && c.numCPU < 3; l++ {
			for k := 0; k < pow(len(sub), l); k++ {
				seq := digits(k, len(sub), l)
				for i := range seq {
					seq[i] = sub[seq[i]]
				}
				if legal(seq) {
					c.all(func() string { return fmt.Sprintf("s%d-%d", l, k) }, limit, lazy(mk(seq, func(i int) int { return (i + k) % 3 })))
				}
			}
		}
		// as many of one kind as fit in the schedule space
		for k := range kinds {
			if !kinds[k].Rep {
				continue
			}
			for n := 3; n <= c.pick(5, 7); n++ {
				seq := make([]int, n)
				for i := range seq {
					seq[i] = k
				}
				c.all(func() string { return fmt.Sprintf("n%d-%s", n, kinds[k].KW) }, limit, lazy(mk(seq, func(i int) int { return 0 })))
			}
		}
	}
	if c.fam("order") {
		maxL := 3
		if !c.thorough() && c.numCPU > 2 {
			maxL = 2
		}
		for l := 0; l <= maxL; l++ {
			for k := 0; k < pow(len(kinds), l); k++ {
				seq := digits(k, len(kinds), l)
				if legal(seq) {
					c.one(func() string { return fmt.Sprintf("l%d-%d", l, k) }, lazy(mk(seq, func(i int) int { return (i + k) % 3 })))
				}
			}
		}
		all := make([]int, len(kinds))
		for i := range all {
			all[i] = i
		}
		for r := range all {
			for dir := 0; dir < 2; dir++ {
				for size := 0; size < 3; size++ {
					seq := make([]int, 0, len(all))
					for i := range all {
						j := (i + r) % len(all)
						if dir == 1 {
							j = len(all) - 1 - j
						}
						seq = append(seq, all[j])
					}
					c.one(func() string { return fmt.Sprintf("all-%d-%d-%d", r, dir, size) }, lazy(mk(seq, func(i int) int { return size })))
				}
			}
		}
	}
	// object sizes decide where the work is split
	if c.fam("splits") {
		ks := []int{kidx("UNIT"), kidx("IF_DATA"), kidx("FUNCTION"), kidx("COMPU_VTAB"), kidx("USER_RIGHTS")}
		max := c.pick(7, 9)
		for l := 1; l <= max; l++ {
			for k := 0; k < pow(3, l); k++ {
				sz := digits(k, 3, l)
				seq := make([]int, l)
				for i := range seq {
					seq[i] = ks[(i+k)%len(ks)]
				}
				c.one(func() string { return fmt.Sprintf("l%d-%d", l, k) }, lazy(mk(seq, func(i int) int { return sz[i] })))
			}
		}
	}
	// more objects than the channels buffer
	if c.fam("many") {
		for k := range kinds {
			if !kinds[k].Rep {
				continue
			}
			ns := []int{11, 12, 25, 101, 130}
			if c.thorough() || c.numCPU <= 2 {
				ns = append(ns, 1001, 1100)
			}
			if c.thorough() {
				ns = append(ns, 5000)
			}
			if c.numCPU == 2 && (c.thorough() || kinds[k].KW == "UNIT" || kinds[k].KW == "MEASUREMENT" || kinds[k].KW == "RECORD_LAYOUT") {
				ns = append(ns, 11000, 66000)
			}
			for _, n := range ns {
				seq := make([]int, n)
				for i := range seq {
					seq[i] = k
				}
				c.one(func() string { return fmt.Sprintf("%s-%d", kinds[k].KW, n) }, lazy(mk(seq, func(i int) int { return 0 })))
			}
		}
		for n := 1; n <= c.pick(150, 600); n++ {
			seq := make([]int, 0, n)
			used := map[int]bool{}
			for i := 0; len(seq) < n; i++ {
				k := (i * 7) % len(kinds)
				if used[k] && !kinds[k].Rep {
					continue
				}
				used[k] = true
				seq = append(seq, k)
			}
			c.one(func() string { return fmt.Sprintf("mix-%d", n) }, lazy(mk(seq, func(i int) int { return (i * i) % 3 })))
		}
	}
	// identifiers that differ little
	if c.fam("names") {
		long := strings.Repeat("abcdefgh", 400)
		sets := [][]string{{"ab", "Ab", "aB", "AB"}, {"a", "a_", "_a", "aa", "_"}, {"a.b", "a_b", "a", "b", "a.b.c"}, {"a[0]", "a[1]", "a[10]", "a[0][1]", "a"}, {"A1", "A01", "A10", "A1_"},
			{long[:31], long[:32], long[:33]}, {long[:63] + "x", long[:63] + "y"}, {long[:127] + "x", long[:127] + "y", long[:128]}, {long[:255] + "x", long[:255] + "y"}, {long[:1023] + "x", long[:1023] + "y"}, {long[:3000] + "x", long[:3000] + "y"},
			{"x1", "x2", "x3", "x4", "x5", "x6", "x7", "x8", "x9", "x10", "x11"}, {"Unit", "unit", "measurement", "Measurement", "begin", "END"}, {"\xe4", "\xe5", "é", "è"}, {"1", "01", "0x1", "1.0"}}
		for _, o := range kinds {
			if !o.Rep || len(o.Par) == 0 || o.Par[0].Type != "id" {
				continue
			}
			for i, set := range sets {
				for r := range set {
					c.one(func() string { return fmt.Sprintf("%s-%d-%d", o.KW, i, r) }, lazy(func() mkFn {
						g := newGen()
						root, m := g.file()
						for k := range set {
							g.object(m, o.Spec, k%2).Val[0][0] = set[(k+r)%len(set)]
						}
						return c.a2lOK(root)
					}))
				}
			}
		}
	}
	// names that resemble a keyword or a literal
	if c.fam("words") {
		ws := grammarWords()
		for _, o := range kinds {
			if !o.Rep || len(o.Par) == 0 || o.Par[0].Type != "id" {
				continue
			}
			for v := range alike("AB") {
				c.one(func() string { return fmt.Sprintf("%s-%d", o.KW, v) }, lazy(func() mkFn {
					g := newGen()
					root, m := g.file()
					seen := map[string]bool{}
					for _, w := range ws {
						x := alike(w)[v]
						if seen[x] {
							continue
						}
						seen[x] = true
						g.object(m, o.Spec, 0).Val[0][0] = x
					}
					return c.a2lOK(root)
				}))
			}
		}
	}
	// blocks within IF_DATA whose names resemble a keyword
	if c.fam("blocks") {
		for _, s := range specOrder {
			for place := 0; place < 3; place++ {
				for v := range alike("AB") {
					if !c.thorough() && !s.Block && v%6 != place {
						continue
					}
					x := alike(s.word())[v]
					if isKW()[x] || x == s.word() {
						continue
					}
					c.one(func() string { return fmt.Sprintf("%s-%d-%d", s.word(), place, v) }, lazy(func() mkFn {
						g := newGen()
						root, m := g.file()
						g.object(m, specs["UNIT"], 0)
						f := m
						if place > 0 {
							f = g.sub(m, "MEASUREMENT")
						}
						f = g.sub(f, "IF_DATA")
						f.Rows = [][]string{{"/begin " + x}, {"w"}, {"/end " + x}, {"/begin Q"}, {"/begin " + x}, {"/end " + x}, {"/end Q"}}
						g.object(m, specs["GROUP"], 0)
						g.object(m, specs["FUNCTION"], 0)
						if place == 2 {
							g.object(g.sub(root.Subs[1], "MODULE"), specs["UNIT"], 0)
						}
						return c.a2lOK(root)
					}))
				}
			}
		}
	}
	// the same identifier for objects of different kinds
	if c.fam("samename") {
		for i := range kinds {
			for j := range kinds {
				if i == j || len(kinds[i].Par) == 0 || len(kinds[j].Par) == 0 {
					continue
				}
				c.one(func() string { return kinds[i].KW + "-" + kinds[j].KW }, lazy(func() mkFn {
					g := newGen()
					root, m := g.file()
					a := g.object(m, kinds[i].Spec, 1)
					b := g.object(m, kinds[j].Spec, 1)
					b.Val[0][0] = a.Val[0][0]
					return c.a2lOK(root)
				}))
			}
		}
	}
}

func digits(k, base, l int) []int {
	out := make([]int, l)
	for i := range out {
		out[i] = k % base
		k /= base
	}
	return out
}

// ---- C10

var numValues = map[string][2][]string{
	"u16": {{"0", "1", "9", "10", "255", "256", "32767", "32768", "65535", "00007"}, {"-1", "65536", "70000", "4294967296", "18446744073709551616", "1.5", "1e3", "abc", "12a", "1,5", "--1", "0x", `"7"`}},
	"u32": {{"0", "1", "65535", "65536", "2147483647", "2147483648", "4294967295", "00007"}, {"-1", "4294967296", "18446744073709551616", "1.5", "1e3", "abc", "12a", "1,5", "0x", `"7"`}},
	"i16": {{"0", "1", "-1", "+7", "-0", "127", "-128", "255", "32767", "-32768"}, {"32768", "-32769", "65535", "65536", "4294967295", "9223372036854775808", "1.5", "1e3", "abc", "-", "1-", "0x", `"7"`}},
	"i32": {{"0", "1", "-1", "+7", "32768", "-32769", "65536", "2147483647", "-2147483648"}, {"2147483648", "-2147483649", "4294967295", "9223372036854775808", "1.5", "1e3", "abc", "-", "1-", "0x", `"7"`}},
	"f64": {{"0", "0.0", "1", "-1", "+1", "1.5", "-1.5", "+1.5", ".5", "-.5", "5.", "1e3", "1E3", "1e-3", "-1.25E+10", "123456789.123456789", "0.1", "1.7976931348623157e308", "-1.7976931348623157e308", "5e-324", "2.2250738585072014e-308", "9007199254740993", "16777217", "3.4028236e38", "1e-46"}, {"abc", "1,5", "1e", "e5", "--1", "1.2.3", "1e999", "-1e400", "1.5f", "12a", "+", "-", ".", `"7"`, "0x"}},
}

// more boundary values: powers of two and ten and their neighbours, leading zeros
func init() {
	for _, t := range []struct {
		name     string
		min, max int64
	}{{"u16", 0, 65535}, {"u32", 0, 4294967295}, {"i16", -32768, 32767}, {"i32", -2147483648, 2147483647}} {
		v := numValues[t.name]
		have := map[string]bool{}
		for _, l := range v {
			for _, x := range l {
				have[x] = true
			}
		}
		put := func(n int64) {
			x := strconv.FormatInt(n, 10)
			if have[x] {
				return
			}
			have[x] = true
			i := 0
			if n < t.min || n > t.max {
				i = 1
			}
			v[i] = append(v[i], x)
		}
		for k := 0; k < 40; k++ {
			for d := int64(-1); d <= 1; d++ {
				put(1<<k + d)
				put(-(1 << k) + d)
			}
		}
		for k, n := 0, int64(1); k < 12; k, n = k+1, n*10 {
			for d := int64(-1); d <= 1; d++ {
				put(n + d)
				put(-n + d)
			}
		}
		v[0] = append(v[0], "010", "0255", "0089", "000000000000000000000000100")
		if t.min < 0 {
			v[0] = append(v[0], "-010", "-0089", "+0100")
		}
		v[1] = append(v[1], "1_000", "1'000", "0b1", "0o7", "1e", "1.", ".1", "1.0", "--", "+", "a", "_1", "1_", "9223372036854775807", "-9223372036854775808", "99999999999999999999999999")
		numValues[t.name] = v
	}
	v := numValues["f64"]
	for k := -320; k <= 308; k += 4 {
		v[0] = append(v[0], fmt.Sprintf("1.2345678901234567e%d", k), fmt.Sprintf("-1.7654321E%+03d", k))
	}
	for k := 0; k < 64; k++ {
		v[0] = append(v[0], strconv.FormatUint(1<<k, 10), strconv.FormatUint(1<<k+1, 10), "-"+strconv.FormatUint(1<<k-1, 10))
	}
	v[0] = append(v[0], "010", "0089.5", "-007", "00.5", "0.0000000000000000000000000000000001", "123456789012345678901234567890", "1e+5", "1E+05", "1e-05", "0e0", "-0", "-0.0", "1e23", "8.5e-1", "0.30000000000000004", "4.35", "2.675")
	v[1] = append(v[1], "1e5.5", "1d5", "1.5.", "..5", "1e+", "1e-", "E5", "1..2", "0b1", "a.5", "1e309", "-1.8e308")
	numValues["f64"] = v
}

// enumGroups are enumerations that share their literals in the reader.
var enumGroups = [][]string{{"AxisAttr", "SegAttr"}, {"CharType", "UnitType"}, {"PrgTypeLayout", "PrgType"}}

func shared(t string) map[string]bool {
	out := map[string]bool{}
	add := func(t string) {
		for _, l := range a2lEnums[t] {
			out[l] = true
		}
	}
	add(t)
	for _, g := range enumGroups {
		for _, x := range g {
			if x == t {
				for _, y := range g {
					add(y)
				}
			}
		}
	}
	return out
}

func badWords(t string) []string {
	own := shared(t)
	var out []string
	add := func(w string) {
		if !own[w] && w != "" {
			out = append(out, w)
		}
	}
	add("FOO")
	add("0")
	add("_")
	for _, l := range a2lEnums[t] {
		add(strings.ToLower(l))
		add(l + "X")
		add(l + "_")
		add(l[:len(l)-1])
		add(l[1:])
		add(`"` + l + `"`)
	}
	for _, o := range []string{"Encoding", "DataType", "DataSize", "AddrType", "ByteOrder", "IndexOrder", "AxisAttr", "SegAttr", "CalibrationAccess", "CharType", "UnitType", "ConversionType", "IndexMode", "Mode", "PrgTypeLayout", "PrgType", "MemoryType", "Monotony", "Tag", "Trigger"} {
		for _, l := range a2lEnums[o] {
			add(l)
		}
	}
	return out
}

// moreBadWords are further words that resemble the literals of an enumeration.
func moreBadWords(t string) []string {
	own := shared(t)
	seen := map[string]bool{}
	var out []string
	for _, l := range a2lEnums[t] {
		for _, w := range []string{l + "S", l + "1", l + "8", l + "16", l + "32", l + "64", l + "_LE", l + "_BE", l + "_IEEE", l + "_X", l + ".", l + ";", l + ",", "A_" + l, "X" + l, "_" + l, l + l, l + "_" + l,
			l[:1] + strings.ToLower(l[1:]), strings.ReplaceAll(l, "_", ""), strings.ReplaceAll(l, "_", "-"), strings.SplitN(l, "_", 2)[0], l[strings.LastIndexByte(l, '_')+1:], l[:(len(l)+1)/2], l[:1], "(" + l + ")", "'" + l + "'", l + "/", "0" + l} {
			if !own[w] && !seen[w] && w != "" && !isKW()[w] {
				seen[w] = true
				out = append(out, w)
			}
		}
	}
	return out
}

func a2lValues(c *Ctx) {
	type slot struct {
		path []*Spec
		par  int // parameter, or list column from 100 on
		elem int
		t    string
		rep  bool // the same keyword in another context
	}
	var slots []slot
	had := map[*Spec]bool{}
	for _, p := range specPaths(true) {
		s := p[len(p)-1]
		rep := had[s]
		had[s] = true
		for i, q := range s.Par {
			switch q.Type {
			case "id", "text", "addr", "flag", "join", "any", "count":
				continue
			}
			for e := 0; e < 1 || e < q.N; e++ {
				slots = append(slots, slot{p, i, e, q.Type, rep})
			}
		}
		for i, q := range s.List {
			switch q.Type {
			case "id", "text", "addr", "join", "any":
				continue
			}
			for e := 0; e < 3; e++ {
				slots = append(slots, slot{p, 100 + i, e, q.Type, rep})
			}
		}
	}
	run := func(fam string, values func(t string) []string, ok bool) {
		if !c.fam(fam) {
			return
		}
		for _, s := range slots {
			for n, v := range values(s.t) {
				if s.rep && !c.thorough() && n >= 13 && (n+s.elem+s.par)%5 != 0 && (fam == "numbers" || fam == "nonnumbers") {
					continue
				}
				if fam == "characters" && !c.thorough() && (s.elem > 0 || (n+s.par+len(pathName(s.path)))%(c.numCPU*8) != 0) {
					continue
				}
				if s.rep && !c.thorough() && fam == "resembling" && (n+s.par)%16 != 0 {
					continue
				}
				c.one(func() string { return fmt.Sprintf("%s.%d.%d=%s", pathName(s.path), s.par, s.elem, v) }, lazy(func() mkFn {
					g := newGen()
					g.rows = 3
					root, last := g.put(s.path)
					if s.par >= 100 {
						last.Rows[s.elem][s.par-100] = v
					} else {
						last.Val[s.par][s.elem] = v
					}
					if ok {
						return c.a2lOK(root)
					}
					return c.a2lText(root.text, nil)
				}))
			}
		}
	}
	run("literals", func(t string) []string { return a2lEnums[t] }, true)
	run("numbers", func(t string) []string { return numValues[t][0] }, true)
	run("nonliterals", func(t string) []string {
		if a2lEnums[t] == nil {
			return nil
		}
		return badWords(t)
	}, false)
	run("resembling", func(t string) []string {
		if a2lEnums[t] == nil {
			return nil
		}
		return moreBadWords(t)
	}, false)
	run("nonnumbers", func(t string) []string { return numValues[t][1] }, false)
	// any other character in front of, within or behind the digits
	run("characters", func(t string) []string {
		if numValues[t][0] == nil {
			return nil
		}
		var out []string
		for ch := rune(33); ch < 0x180; ch++ {
			if ch >= '0' && ch <= '9' || strings.ContainsRune("+-.\"\\/*", ch) || ch >= 127 && ch <= 160 {
				continue
			}
			x := string(ch)
			out = append(out, x+"1", "1"+x, "1"+x+x+"2")
			if ch != 'e' && ch != 'E' && !(ch == '_' && t == "f64") { // 1e2; 1_2 is a number to strconv
				out = append(out, "1"+x+"2", "12"+x+"345")
			}
		}
		return append(out, "1+2", "1-", "-1-", "1.-5", "\uff11", "\u0661", "1\u0662", "\u00bd", "1/2", "/1", "1/", "1*2", "1..5", "1+", "1e+", "1e-", "1E", "+-1", "-+1")
	}, false)
	// a wrong value stays an error whatever else is in the blocks around it
	if c.fam("beside") {
		bad := func(t string) string {
			if a2lEnums[t] != nil {
				return "NO_SUCH_WORD"
			}
			return numValues[t][1][0]
		}
		for _, s := range slots {
			if s.elem > 0 {
				continue
			}
			c.besides(s.path, func(g *Gen, root, last *Node) string {
				if s.par >= 100 {
					last.Rows[0][s.par-100] = bad(s.t)
				} else {
					last.Val[s.par][0] = bad(s.t)
				}
				return root.text()
			}, fmt.Sprint(s.par))
		}
	}
	// counts: as many rows as the count says
	if c.fam("counts") {
		for _, kw := range []string{"COMPU_TAB", "COMPU_VTAB", "COMPU_VTAB_RANGE"} {
			p := []*Spec{specs["PROJECT"], specs["MODULE"], specs[kw]}
			for _, n := range []int{0, 1, 2, 3, 4, 5, 7, 8, 16, 100, 255, 256, 257, 1000, c.pick(1001, 32767), c.pick(1002, 32768), c.pick(4000, 65535)} {
				c.one(func() string { return fmt.Sprintf("%s-%d", kw, n) }, lazy(func() mkFn {
					g := newGen()
					g.rows = n
					root, _ := g.put(p)
					return c.a2lOK(root)
				}))
			}
			for _, v := range numValues["u16"][1] {
				c.one(func() string { return fmt.Sprintf("%s=%s", kw, v) }, lazy(func() mkFn {
					g := newGen()
					root, last := g.put(p)
					for i, q := range last.Par {
						if q.Type == "count" {
							last.Val[i][0] = v
						}
					}
					return c.a2lText(root.text, nil)
				}))
			}
		}
	}
	// wide sweep of the 16 bit numbers
	if c.fam("sweep") && c.numCPU == 1 {
		step := c.pick(7, 1)
		for n := 0; n <= 65535; n += step {
			c.one(func() string { return fmt.Sprint(n) }, lazy(func() mkFn {
				g := newGen()
				root, m := g.file()
				rl := g.sub(m, "RECORD_LAYOUT")
				g.sub(rl, "FNC_VALUES").Val[0][0] = strconv.Itoa(n)
				u := g.sub(g.sub(m, "UNIT"), "SI_EXPONENTS")
				u.Val[0][0] = strconv.Itoa(n - 32768)
				u.Val[6][0] = strconv.Itoa(32767 - n)
				g.sub(g.sub(m, "MEASUREMENT"), "MAX_REFRESH").Val[1][0] = strconv.Itoa(n * 65537)
				return c.a2lOK(root)
			}))
		}
	}
}

// ---- C11

// bigFile has every keyword, each block with all its options.
func bigFile(g *Gen, modules int) *Node {
	root := &Node{Spec: specs["ROOT"]}
	g.sub(root, "ASAP2_VERSION")
	g.sub(root, "A2ML_VERSION")
	p := g.sub(root, "PROJECT")
	h := g.sub(p, "HEADER")
	g.fill(h)
	for i := 0; i < modules; i++ {
		g.fill(g.sub(p, "MODULE"))
	}
	return root
}

// fill adds all options, recursively.
func (g *Gen) fill(n *Node) {
	for _, o := range n.Opts {
		g.fill(g.sub(n, o.KW))
	}
}

// fillOne adds all options of the block, without theirs.
func (g *Gen) fillOne(n *Node) {
	for _, o := range n.Opts {
		g.sub(n, o.KW)
	}
}

func keywordsNotLiterals() []string {
	lits := map[string]bool{}
	for _, e := range a2lEnums {
		for _, l := range e {
			lits[l] = true
		}
	}
	var out []string
	for _, s := range specOrder {
		// the reader takes the stand-alone flags READ_ONLY and READ_WRITE for ordinary words on purpose
		if s.KW == "ROOT" || lits[s.word()] || s.word() == "READ_ONLY" || s.word() == "READ_WRITE" {
			continue
		}
		if s.Block {
			out = append(out, "/begin "+s.word(), "/end "+s.word())
		} else {
			out = append(out, s.word())
		}
	}
	return out
}

// verbatim blocks hold any tokens.
func verbatim(s *Spec) bool { return s.KW == "IF_DATA" || s.KW == "A2ML" }

func a2lBroken(c *Ctx) {
	// blocks, each in a file with everything it can hold
	var blocks [][]*Spec
	for _, p := range specPaths(c.thorough()) {
		if p[len(p)-1].Block {
			blocks = append(blocks, p)
		}
	}
	build := func(p []*Spec, two bool) *Node {
		g := newGen()
		root, last := g.put(p)
		g.fillOne(last)
		pr := root.find("PROJECT")
		if last == pr {
			last.Subs = last.Subs[1:]
		}
		var m *Node
		for _, s := range pr.Subs {
			if s.KW == "MODULE" {
				m = s
			}
		}
		// something behind it
		if last != m {
			g.object(m, specs["GROUP"], 1)
		}
		if two {
			m2 := g.sub(pr, "MODULE")
			g.sub(m2, "A2ML")
			g.object(m2, specs["GROUP"], 1)
		}
		return root
	}
	if c.fam("cut") {
		for _, p := range blocks {
			for two := 0; two < 2; two++ {
				if two == 1 && c.numCPU > 1 {
					continue
				}
				t := build(p, two == 1).toks()
				for i := 0; i < len(t); i++ {
					c.one(func() string { return fmt.Sprintf("%s-m%d-%d", pathName(p), two+1, i) }, lazy(func() mkFn { return c.a2lText(func() string { return text(t[:i]) }, nil) }))
				}
			}
		}
	}
	if c.fam("cutbytes") {
		for m := 1; m <= 2; m++ {
			if m == 2 && c.numCPU > 1 {
				continue
			}
			txt := strings.TrimSpace(bigFile(newGen(), m).text())
			step := c.pick(c.numCPU*3, 1)
			for i := 0; i < len(txt); i++ {
				if i%step != 0 && i < len(txt)-200 && i > 200 {
					continue
				}
				c.one(func() string { return fmt.Sprintf("m%d-%d", m, i) }, lazy(func() mkFn { return c.a2lText(func() string { return txt[:i] }, nil) }))
			}
		}
	}
	isEnd := func(t Tok) bool { return t.Par == -1 && strings.HasPrefix(t.Text, "/end ") }
	if c.fam("noend") {
		for _, p := range blocks {
			for two := 0; two < 2; two++ {
				t := build(p, two == 1).toks()
				for i := range t {
					if !isEnd(t[i]) {
						continue
					}
					c.one(func() string { return fmt.Sprintf("%s-m%d-%d", pathName(p), two+1, i) }, lazy(func() mkFn {
						u := append(append([]Tok(nil), t[:i]...), t[i+1:]...)
						return c.a2lText(func() string { return text(u) }, nil)
					}))
				}
			}
		}
		for m := 1; m <= 2; m++ {
			t := bigFile(newGen(), m).toks()
			for i := range t {
				if isEnd(t[i]) {
					c.one(func() string { return fmt.Sprintf("big-m%d-%d", m, i) }, lazy(func() mkFn {
						u := append(append([]Tok(nil), t[:i]...), t[i+1:]...)
						return c.a2lText(func() string { return text(u) }, nil)
					}))
				}
			}
		}
	}
	kws := keywordsNotLiterals()
	if c.fam("wrongend") {
		for _, p := range blocks {
			for two := 0; two < 2; two++ {
				if two == 1 && c.numCPU > 1 {
					continue
				}
				t := build(p, two == 1).toks()
				for i := range t {
					if !isEnd(t[i]) || t[i].Node.Spec != p[len(p)-1] && !c.thorough() {
						continue
					}
					for _, k := range kws {
						if !strings.HasPrefix(k, "/end ") || k == t[i].Text {
							continue
						}
						c.one(func() string { return fmt.Sprintf("%s-m%d-%d-%s", pathName(p), two+1, i, k[5:]) }, lazy(func() mkFn {
							u := append([]Tok(nil), t...)
							u[i].Text = k
							return c.a2lText(func() string { return text(u) }, nil)
						}))
					}
				}
			}
		}
	}
	if c.fam("keyword") {
		for _, p := range specPaths(c.thorough()) {
			s := p[len(p)-1]
			if verbatim(s) {
				continue
			}
			for two := 0; two < 2; two++ {
				if two == 1 && c.numCPU > 1 {
					continue
				}
				t := build(p, two == 1).toks()
				for i := range t {
					if t[i].Node.Spec != s || t[i].Par == -1 || t[i].Par >= 0 && s.Par[t[i].Par].Opt {
						continue
					}
					for _, k := range kws {
						if ownKeyword(p, k) {
							continue
						}
						if !c.thorough() && c.numCPU > 1 && (len(k)+i)%5 != 0 {
							continue
						}
						c.one(func() string { return fmt.Sprintf("%s-m%d-%d-%s", pathName(p), two+1, i, k) }, lazy(func() mkFn {
							u := append([]Tok(nil), t...)
							u[i].Text = k
							return c.a2lText(func() string { return text(u) }, nil)
						}))
					}
				}
			}
		}
	}
	// blocks within an IF_DATA
	if c.fam("nested") {
		names := []string{"XCP", "IF_DATA", "MEASUREMENT", "ANNOTATION_TEXT"}
		for _, p := range blocks {
			if p[len(p)-1].KW != "IF_DATA" {
				continue
			}
			for _, k := range []int{1, 2, 3, 4, 9, 17} {
				for shape := 0; shape < 2; shape++ {
					var rows []string
					for i := 0; i < k; i++ {
						rows = append(rows, "/begin "+names[i%len(names)], "d")
						if shape == 1 {
							rows = append(rows, "/end "+names[i%len(names)])
						}
					}
					for i := k - 1; i >= 0 && shape == 0; i-- {
						rows = append(rows, "/end "+names[i%len(names)])
					}
					for i, r := range rows {
						if !strings.HasPrefix(r, "/end") {
							continue
						}
						for _, e := range append([]string{"", "/end UNIT", "/end MODULE"}, names...) {
							if e != "" && e[0] != '/' {
								e = "/end " + e
							}
							if e == r {
								continue
							}
							c.one(func() string { return fmt.Sprintf("%s-%d-%d-%d-%s", pathName(p), k, shape, i, e) }, lazy(func() mkFn {
								g := newGen()
								root, last := g.put(p)
								last.Rows = nil
								for j, q := range rows {
									if j == i {
										q = e
									}
									if q != "" {
										last.Rows = append(last.Rows, []string{q})
									}
								}
								g.sub(root.find("PROJECT").Subs[0], "USER_RIGHTS")
								return c.a2lText(root.text, nil)
							}))
						}
					}
				}
			}
		}
	}
	// an incomplete block stays an error whatever else is in the blocks around it
	if c.fam("beside") {
		for _, p := range specPaths(true) {
			s := p[len(p)-1]
			if verbatim(s) {
				continue
			}
			foreign := ""
			for _, k := range kws {
				if !ownKeyword(p, k) && !strings.HasPrefix(k, "/") {
					foreign = k
					break
				}
			}
			n := 0
			for i, q := range s.Par {
				if q.Opt || q.Type == "flag" {
					continue
				}
				n = i
				if i > 0 && !c.thorough() {
					continue
				}
				c.besides(p, func(g *Gen, root, last *Node) string { last.Val[i][0] = foreign; return root.text() }, fmt.Sprint(i))
			}
			if n > 0 && !c.thorough() {
				c.besides(p, func(g *Gen, root, last *Node) string { last.Val[n][0] = foreign; return root.text() }, fmt.Sprint(n))
			}
			if !s.Block {
				continue
			}
			for j, e := range []string{"", "/end " + foreign} {
				if j == 1 && !c.thorough() && c.numCPU > 1 {
					continue
				}
				c.besides(p, func(g *Gen, root, last *Node) string {
					var u []Tok
					for _, t := range root.toks() {
						if t.Node == last && isEnd(t) {
							t.Text = e
						}
						if t.Text != "" {
							u = append(u, t)
						}
					}
					return text(u)
				}, fmt.Sprint("end", j))
			}
		}
	}
	// an error at any place among objects, for any split
	broken := []func(g *Gen, m *Node) *Node{
		func(g *Gen, m *Node) *Node { n := g.object(m, specs["UNIT"], 1); n.Val[3][0] = "NOTYPE"; return n },
		func(g *Gen, m *Node) *Node { n := g.object(m, specs["MEASUREMENT"], 1); n.Val[4][0] = "NaNs"; return n },
		func(g *Gen, m *Node) *Node {
			n := g.object(m, specs["GROUP"], 1)
			n.Subs = append(n.Subs, &Node{Spec: &Spec{KW: "FUNCTION_VERSION"}})
			return n
		},
		func(g *Gen, m *Node) *Node { // no end
			n := g.object(m, &Spec{KW: "/begin UNIT"}, 0)
			n.Subs = append(n.Subs, g.node(specs["UNIT"]).Subs...)
			return n
		},
		func(g *Gen, m *Node) *Node { return g.object(m, &Spec{KW: "/end UNIT"}, 0) },
	}
	good := []string{"UNIT", "MEASUREMENT", "GROUP", "COMPU_TAB"}
	seqCase := func(l, at, b, k int) func() mkFn {
		return func() mkFn {
			g := newGen()
			root, m := g.file()
			for i := 0; i < l; i++ {
				if i == at {
					broken[b](g, m)
				} else {
					g.object(m, specs[good[(i+k)%len(good)]], (i+k)%2)
				}
			}
			return c.a2lText(root.text, nil)
		}
	}
	if c.fam("position") {
		for l := 1; l <= c.pick(12, 24); l++ {
			for at := 0; at < l; at++ {
				for b := range broken {
					for k := 0; k < len(good); k++ {
						c.one(func() string { return fmt.Sprintf("l%d-at%d-b%d-k%d", l, at, b, k) }, lazy(seqCase(l, at, b, k)))
					}
				}
			}
		}
	}
	if c.fam("schedules") && c.numCPU <= 2 {
		for l := 1; l <= c.pick(4, 5); l++ {
			for at := 0; at < l; at++ {
				for b := range broken {
					c.all(func() string { return fmt.Sprintf("l%d-at%d-b%d", l, at, b) }, c.pick(5000, 200000), lazy(seqCase(l, at, b, 0)))
				}
			}
		}
		// two errors
		for l := 2; l <= c.pick(4, 5); l++ {
			for at := 0; at < l; at++ {
				for at2 := at + 1; at2 < l; at2++ {
					c.all(func() string { return fmt.Sprintf("two-l%d-at%d-%d", l, at, at2) }, c.pick(5000, 200000), lazy(func() mkFn {
						g := newGen()
						root, m := g.file()
						for i := 0; i < l; i++ {
							switch i {
							case at:
								broken[0](g, m)
							case at2:
								broken[1](g, m)
							default:
								g.object(m, specs[good[i%len(good)]], 0)
							}
						}
						return c.a2lText(root.text, nil)
					}))
				}
			}
		}
	}
}

// ownKeyword tells whether the keyword may legally stand in the innermost block of the path.
// besides runs a file that has to be rejected with every other keyword of every block around the wrong one, in front of
// it and behind it.
func (c *Ctx) besides(path []*Spec, file func(g *Gen, root, last *Node) string, name string) {
	for k := len(path) - 2; k >= 1; k-- {
		if k < len(path)-3 && k > 1 && !c.thorough() {
			continue
		}
		for i, o := range path[k].Opts {
			if o.Spec == path[k+1] && !o.Rep {
				continue
			}
			if k == 1 && !c.thorough() && (i+len(path)+len(name))%5 != 0 {
				continue
			}
			for v := 0; v < 4; v++ {
				before, two := v&1 == 1, v&2 == 2 // in front, the second of two modules
				if v > 0 && !c.thorough() && c.numCPU > 1 || two && k > 1 {
					continue
				}
				c.one(func() string { return fmt.Sprintf("%s-%s-%d-%s-%d", pathName(path), name, k, o.KW, v) }, lazy(func() mkFn {
					g := newGen()
					root, last := g.put(path)
					n := root
					for _, s := range path[:k+1] {
						for _, q := range n.Subs {
							if q.Spec == s {
								n = q
								break
							}
						}
					}
					other := g.node(o.Spec)
					if before {
						n.Subs = append([]*Node{other}, n.Subs...)
					} else {
						n.Subs = append(n.Subs, other)
					}
					if two {
						pr := root.find("PROJECT")
						pr.Subs = append([]*Node{g.node(specs["MODULE"])}, pr.Subs...)
					}
					return c.a2lText(func() string { return file(g, root, last) }, nil)
				}))
			}
		}
	}
}

func ownKeyword(p []*Spec, k string) bool {
	for i := len(p) - 1; i >= 0; i-- {
		s := p[i]
		for _, o := range s.Opts {
			if k == o.word() || k == "/begin "+o.word() {
				return true
			}
		}
		if s.Block {
			return k == "/end "+s.word()
		}
	}
	return false
}

// ---- C13

func a2lModules(c *Ctx) {
	type content func(g *Gen, m *Node)
	obj := func(kw string, size int) content {
		return func(g *Gen, m *Node) { g.object(m, specs[kw], size) }
	}
	menu := []content{
		func(g *Gen, m *Node) {},
		obj("UNIT", 0),
		func(g *Gen, m *Node) { obj("MOD_PAR", 1)(g, m); obj("MOD_COMMON", 1)(g, m) },
		func(g *Gen, m *Node) { obj("A2ML", 0)(g, m); obj("IF_DATA", 1)(g, m); obj("FRAME", 1)(g, m) },
		func(g *Gen, m *Node) {
			obj("CHARACTERISTIC", 1)(g, m)
			obj("CHARACTERISTIC", 1)(g, m)
			obj("GROUP", 1)(g, m)
		},
		func(g *Gen, m *Node) {
			obj("VARIANT_CODING", 1)(g, m)
			obj("USER_RIGHTS", 1)(g, m)
			obj("RECORD_LAYOUT", 1)(g, m)
		},
	}
	file := func(header int, seq []int, same bool) *Node {
		g := newGen()
		root := &Node{Spec: specs["ROOT"]}
		g.sub(root, "ASAP2_VERSION")
		if header%2 == 1 {
			g.sub(root, "A2ML_VERSION")
		}
		p := g.sub(root, "PROJECT")
		if header > 1 {
			g.fill(g.sub(p, "HEADER"))
		}
		for _, k := range seq {
			if same {
				g.n = 1000
			}
			menu[k](g, g.sub(p, "MODULE"))
		}
		return root
	}
	if c.fam("modules") {
		for l := 0; l <= c.pick(5, 6); l++ {
			for k := 0; k < pow(len(menu), l); k++ {
				for h := 0; h < 4; h++ {
					if l > 3 && h != k%4 {
						continue
					}
					c.one(func() string { return fmt.Sprintf("l%d-%d-h%d", l, k, h) }, lazy(func() mkFn { return c.a2lOK(file(h, digits(k, len(menu), l), false)) }))
				}
			}
		}
	}
	// the header and the versions at any place
	if c.fam("places") {
		for l := 0; l <= c.pick(4, 5); l++ {
			for at := 0; at <= l; at++ {
				for k := 0; k < pow(len(menu), []int{0, 1, 2, 2, 2, 2}[l]); k++ {
					for full := 0; full < 2; full++ {
						c.one(func() string { return fmt.Sprintf("l%d-%d-%d-%d", l, at, k, full) }, lazy(func() mkFn {
							g := newGen()
							root := &Node{Spec: specs["ROOT"]}
							g.sub(root, "ASAP2_VERSION")
							p := g.sub(root, "PROJECT")
							for i := 0; i <= l; i++ {
								if i == at {
									h := g.sub(p, "HEADER")
									if full == 1 {
										g.fill(h)
									}
								}
								if i < l {
									menu[[]int{k % len(menu), k / len(menu)}[i%2]](g, g.sub(p, "MODULE"))
								}
							}
							return c.a2lOK(root)
						}))
					}
				}
			}
		}
	}
	// modules that use the same identifiers
	if c.fam("samenames") {
		for l := 2; l <= c.pick(3, 4); l++ {
			for k := 0; k < pow(len(menu), l); k++ {
				c.one(func() string { return fmt.Sprintf("l%d-%d", l, k) }, lazy(func() mkFn { return c.a2lOK(file(k%4, digits(k, len(menu), l), true)) }))
			}
		}
		for n := 1; n <= c.pick(12, 40); n++ {
			seq := make([]int, n)
			for i := range seq {
				seq[i] = (i * 5) % len(menu)
			}
			c.one(func() string { return fmt.Sprintf("n%d", n) }, lazy(func() mkFn { return c.a2lOK(file(n%4, seq, true)) }))
		}
	}
	// one identifier for objects of different kinds, in one or both of two modules
	if c.fam("onename") {
		kinds := objectKinds()
		for i := range kinds {
			for j := range kinds {
				if i == j || len(kinds[i].Par) == 0 || len(kinds[j].Par) == 0 {
					continue
				}
				for v := 0; v < 3; v++ {
					c.one(func() string { return fmt.Sprintf("%s-%s-%d", kinds[i].KW, kinds[j].KW, v) }, lazy(func() mkFn {
						g := newGen()
						root, m := g.file()
						m2 := g.sub(root.Subs[1], "MODULE")
						a := g.object([]*Node{m, m2, m}[v], kinds[i].Spec, 1)
						b := g.object([]*Node{m, m2, m2}[v], kinds[j].Spec, 1)
						b.Val[0][0] = a.Val[0][0]
						return c.a2lOK(root)
					}))
				}
			}
		}
	}
	// many modules
	if c.fam("counts") {
		var ns []int
		for n := 5; n <= c.pick(40, 140); n++ {
			ns = append(ns, n)
		}
		ns = append(ns, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 1000)
		for _, n := range ns {
			for k := 0; k < 2; k++ {
				seq := make([]int, n)
				for i := range seq {
					seq[i] = (i*5 + k) % len(menu)
				}
				c.one(func() string { return fmt.Sprintf("n%d-%d", n, k) }, lazy(func() mkFn { return c.a2lOK(file(k, seq, false)) }))
			}
		}
		// and many objects in one of several modules
		for _, o := range objectKinds() {
			if !o.Rep {
				continue
			}
			for _, n := range []int{11, 101, 257, 1001} {
				if n > 101 && c.numCPU > 2 && !c.thorough() {
					continue
				}
				for place := 0; place < 2; place++ {
					c.one(func() string { return fmt.Sprintf("%s-%d-%d", o.KW, n, place) }, lazy(func() mkFn {
						g := newGen()
						root, m := g.file()
						m2 := g.sub(root.Subs[1], "MODULE")
						if place == 1 {
							m, m2 = m2, m
						}
						for i := 0; i < n; i++ {
							g.object(m, o.Spec, 0)
						}
						g.object(m2, o.Spec, 1)
						return c.a2lOK(root)
					}))
				}
			}
		}
	}
	// layouts of the words that separate the modules
	if c.fam("layout") {
		for n := 2; n <= 3; n++ {
			g := newGen()
			root, m := g.file()
			g.object(m, specs["UNIT"], 0)
			for i := 1; i < n; i++ {
				g.object(g.sub(root.Subs[1], "MODULE"), specs["GROUP"], 0)
			}
			w := words(root.toks())
			for at := 1; at <= len(w); at++ {
				near := false
				for k := at - 3; k <= at; k++ {
					near = near || k >= 0 && k < len(w) && w[k] == "MODULE"
				}
				if !near {
					continue
				}
				for i, s := range separators {
					for all := 0; all < 2; all++ {
						c.one(func() string { return fmt.Sprintf("n%d-%d-%d-%d", n, at, i, all) }, lazy(func() mkFn {
							return c.a2lText(func() string {
								return lay(w, func(k int) string {
									if k == at || all == 1 && k > 0 && k < len(w) && w[k] == w[at%len(w)] && w[k-1] == w[at-1] {
										return s
									}
									if k == 0 {
										return ""
									}
									return []string{" ", "\n"}[k/4%2]
								})
							}, root)
						}))
					}
				}
			}
		}
	}
	// every keyword, in the first, middle or last of several modules and in the only one
	if c.fam("keywords") {
		for _, p := range specPaths(true) {
			if len(p) < 3 || p[1].KW != "MODULE" {
				continue
			}
			for place := 0; place < 7; place++ {
				c.one(func() string { return fmt.Sprintf("%s-%d", pathName(p), place) }, lazy(func() mkFn {
					g := newGen()
					root, last := g.put(p)
					g.fillOne(last)
					pr := root.Subs[1]
					m := pr.Subs[0]
					m1 := g.node(specs["MODULE"])
					m2 := g.node(specs["MODULE"])
					g.object(m1, specs["UNIT"], 0)
					g.object(m2, specs["GROUP"], 0)
					switch place {
					case 1:
						pr.Subs = []*Node{m, m1}
					case 2:
						pr.Subs = []*Node{m1, m, m2}
					case 3:
						pr.Subs = []*Node{m1, m2, m}
					case 4, 5, 6: // the same keyword with other values
						g.enum = place
						if place == 6 {
							g.same = 2
						}
						r2, l2 := g.put(p)
						if place == 5 {
							g.fillOne(l2)
						}
						pr.Subs = []*Node{m, r2.Subs[1].Subs[0], m1}
					}
					return c.a2lOK(root)
				}))
			}
		}
		for i := 1; i <= c.pick(3, 6); i++ {
			c.one(func() string { return fmt.Sprintf("big%d", i) }, lazy(func() mkFn { return c.a2lOK(bigFile(newGen(), i)) }))
		}
	}
	// pairs of objects in the same module of several
	if c.fam("pairs") {
		kinds := objectKinds()
		for i := range kinds {
			for j := range kinds {
				if i == j && !kinds[i].Rep {
					continue
				}
				for place := 0; place < 2; place++ {
					c.one(func() string { return fmt.Sprintf("%s-%s-%d", kinds[i].KW, kinds[j].KW, place) }, lazy(func() mkFn {
						g := newGen()
						root, m := g.file()
						pr := root.Subs[1]
						m2 := g.sub(pr, "MODULE")
						if place == 1 {
							m, m2 = m2, m
						}
						g.object(m, kinds[i].Spec, 1)
						g.object(m, kinds[j].Spec, 2)
						g.object(m2, kinds[j].Spec, 0)
						return c.a2lOK(root)
					}))
				}
			}
		}
	}
	// an object of any kind in one module and one of any kind in the next
	if c.fam("cross") {
		kinds := objectKinds()
		for i := range kinds {
			for j := range kinds {
				for size := 0; size < 3; size++ {
					c.one(func() string { return fmt.Sprintf("%s-%s-%d", kinds[i].KW, kinds[j].KW, size) }, lazy(func() mkFn {
						g := newGen()
						root, m := g.file()
						m2 := g.sub(root.Subs[1], "MODULE")
						m3 := g.sub(root.Subs[1], "MODULE")
						sa, sb := 2-size, size
						if size == 1 {
							sa, sb = 0, 0
						}
						a := g.object(m, kinds[i].Spec, sa)
						b := g.object(m2, kinds[j].Spec, sb)
						if size == 1 {
							g.fillOne(a)
							g.full(b)
						}
						g.object(m3, kinds[i].Spec, 0)
						return c.a2lOK(root)
					}))
				}
			}
		}
	}
	if c.fam("schedules") && c.numCPU <= 2 {
		for l := 1; l <= 3; l++ {
			for k := 0; k < pow(len(menu), l); k += c.pick(7, 1) {
				c.all(func() string { return fmt.Sprintf("l%d-%d", l, k) }, c.pick(2000, 50000), lazy(func() mkFn { return c.a2lOK(file(k%4, digits(k, len(menu), l), false)) }))
			}
		}
	}
}

// find gives the first direct sub node of the keyword.
func (n *Node) find(kw string) *Node {
	for _, s := range n.Subs {
		if s.KW == kw {
			return s
		}
	}
	return nil
}
