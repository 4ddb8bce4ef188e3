package main

import (
	"fmt"
	"strings"

	"github.com/asap2Go/calibrationReader/a2l"
	"github.com/asap2Go/calibrationReader/zzverif/vsched"
)

func init() { props["C12"] = anyInput }

// anyA2L and anyHex are cases in which reading has to come to an end, with whatever result.
func (c *Ctx) anyA2L(txt func() string) mkFn {
	return func() (func(), func(x *vsched.Exec) string) {
		p := c.file("in.a2l", txt())
		var err error
		return func() { _, err = a2l.ParseFromFile(p) }, func(x *vsched.Exec) string { c.outcome(fmt.Sprint(err)); return "" }
	}
}

func (c *Ctx) anyHex(f Fmt, txt func() string) mkFn {
	return func() (func(), func(x *vsched.Exec) string) {
		p := c.file("in."+f.name(), txt())
		var err error
		return func() { _, err = f.parse(p) }, func(x *vsched.Exec) string { c.outcome(fmt.Sprint(err)); return "" }
	}
}

var hostile = []string{`"`, `""`, `"x`, `x"`, `"a b"`, `/begin`, `/end`, `/begin MODULE`, `/end MODULE`, `/end PROJECT`, `/begin PROJECT`, `/*`, `*/`, `//`, `/`, `\"`, `\`,
	"", "\n", "x", "0", "-1", "99999999999999999999999999", "-99999999999999999999999", "1e999", "0x", "0xZZ", "0x123456789ABCDEF01", "\x00", "\xff\xfe", "NaN",
	"/begin IF_DATA", "/end IF_DATA", "/begin A2ML", "/end A2ML", "/begin MEASUREMENT", "/begin ANNOTATION_TEXT", "/begin FUNCTION_LIST", "/begin VAR_CRITERION", "MATRIX_DIM", "ASAP2_VERSION", "FORMAT", "ROOT", "/begin ROOT", "/begin \n", "/end\n", "65536", "4294967296"}

func anyInput(c *Ctx) {
	// every token of every block changed
	if c.fam("tokens") {
		paths := specPaths(c.thorough())
		for _, p := range paths {
			g := newGen()
			root, last := g.put(p)
			if last.Block {
				g.fillOne(last)
			}
			if last.KW == "PROJECT" {
				last.Subs = last.Subs[1:]
			}
			t := root.toks()
			from := 0
			for i := range t {
				if t[i].Node == last {
					from = i
					break
				}
			}
			if len(p) < 3 {
				from = 0
			}
			for i := from; i < len(t); i++ {
				c.one(func() string { return fmt.Sprintf("%s-%d-del", pathName(p), i) }, c.anyA2L(func() string { return text(append(append([]Tok(nil), t[:i]...), t[i+1:]...)) }))
				c.one(func() string { return fmt.Sprintf("%s-%d-dup", pathName(p), i) }, c.anyA2L(func() string { return text(append(append([]Tok(nil), t[:i+1]...), t[i:]...)) }))
				if i+1 < len(t) {
					c.one(func() string { return fmt.Sprintf("%s-%d-swap", pathName(p), i) }, c.anyA2L(func() string {
						u := append([]Tok(nil), t...)
						u[i], u[i+1] = u[i+1], u[i]
						return text(u)
					}))
				}
				c.one(func() string { return fmt.Sprintf("%s-%d-cut", pathName(p), i) }, c.anyA2L(func() string { return text(t[:i]) }))
				for k, h := range hostile {
					if !c.thorough() && t[i].Node != last && (i+k)%c.pick(6, 1) != 0 {
						continue
					}
					c.one(func() string { return fmt.Sprintf("%s-%d-repl%d", pathName(p), i, k) }, c.anyA2L(func() string {
						u := append([]Tok(nil), t...)
						u[i].Text = h
						return text(u)
					}))
					if c.thorough() {
						c.one(func() string { return fmt.Sprintf("%s-%d-ins%d", pathName(p), i, k) }, c.anyA2L(func() string {
							u := append(append([]Tok(nil), t[:i]...), Tok{h, t[i].Node, 0})
							return text(append(u, t[i:]...))
						}))
						c.one(func() string { return fmt.Sprintf("%s-%d-last%d", pathName(p), i, k) }, c.anyA2L(func() string {
							return text(append(append([]Tok(nil), t[:i]...), Tok{h, t[i].Node, 0}))
						}))
					}
				}
			}
		}
	}
	// all short sequences of fragments in several contexts
	if c.fam("fragments") {
		frag := []string{"/begin", "/end", "PROJECT", "MODULE", "MEASUREMENT", "IF_DATA", "A2ML", "GROUP", "ANNOTATION_TEXT", `"`, `"a b"`, "/*", "*/", "//", "n", "1", "\n", "/", "\x00", "ASAP2_VERSION", `\`}
		ctx := [][2]string{{"", ""}, {"ASAP2_VERSION 1 6\n/begin PROJECT p \"\"\n", "\n/end PROJECT"},
			{"ASAP2_VERSION 1 6\n/begin PROJECT p \"\" /begin MODULE m \"\"\n", "\n/end MODULE /end PROJECT"},
			{"/begin PROJECT p \"\" /begin MODULE m \"\" /begin GROUP g \"", "/begin REF_MEASUREMENT a b /end REF_MEASUREMENT /end GROUP /end MODULE /end PROJECT"},
			{"/begin PROJECT p \"\" /begin MODULE m \"\" /begin A2ML x\n", "\n/begin GROUP g \"\" /end GROUP /end MODULE /begin MODULE n \"\" /end MODULE /end PROJECT"}}
		for x, k := range ctx {
			for l := 0; l <= c.pick(3, 4); l++ {
				for i := 0; i < pow(len(frag), l); i++ {
					if l == 3 && !c.thorough() && c.numCPU > 2 && (i+c.numCPU)%4 != 0 {
						continue
					}
					for j, sep := range []string{" ", ""} {
						if j == 1 && (l < 2 || !c.thorough() && (i+x)%3 != 0) {
							continue
						}
						c.one(func() string { return fmt.Sprintf("%d-%d-%d-%d", x, l, i, j) }, c.anyA2L(func() string {
							var w []string
							for _, d := range digits(i, len(frag), l) {
								w = append(w, frag[d])
							}
							return k[0] + strings.Join(w, sep) + k[1]
						}))
					}
				}
			}
		}
	}
	// every byte of a small file replaced, removed or doubled; every pair of bytes as a file
	if c.fam("bytes") {
		root := layoutFile(newGen())
		txt := root.text()
		for i := 0; i <= len(txt); i++ {
			for k, b := range []string{"", "\x00", "\"", "/", "*", "\n", "\r", " ", "\\", "\xff", "9", "-", "\t", "/*", "//", "*/", "\u2028", "\ufeff"} {
				c.one(func() string { return fmt.Sprintf("rep-%d-%d", i, k) }, c.anyA2L(func() string {
					if i == len(txt) {
						return txt + b
					}
					return txt[:i] + b + txt[i+1:]
				}))
				if c.thorough() {
					c.one(func() string { return fmt.Sprintf("ins-%d-%d", i, k) }, c.anyA2L(func() string { return txt[:i] + b + txt[i:] }))
				}
			}
			c.one(func() string { return fmt.Sprintf("cut-%d", i) }, c.anyA2L(func() string { return txt[:i] }))
			c.one(func() string { return fmt.Sprintf("tail-%d", i) }, c.anyA2L(func() string { return txt[i:] }))
		}
		for i := 0; i < 256; i++ {
			for f := 0; f < 3; f++ {
				for j := -1; j < 256; j++ {
					if !c.thorough() && j >= 0 && !strings.Contains("\x00\n\r \"/*\\S:013\xff", string(rune(j))) && !strings.Contains("\x00\n\r \"/*\\S:013", string(rune(i))) {
						continue
					}
					c.one(func() string { return fmt.Sprintf("two-%d-%d-%d", f, i, j) }, lazy(func() mkFn {
						s := string([]byte{byte(i)})
						if j >= 0 {
							s = string([]byte{byte(i), byte(j)})
						}
						if f == 2 {
							return c.anyA2L(func() string { return s })
						}
						return c.anyHex(Fmt(f), func() string { return s })
					}))
				}
			}
		}
	}
	// extreme sizes
	if c.fam("extreme") {
		big := func(n int) []string {
			r := strings.Repeat
			pre, post := "ASAP2_VERSION 1 6 /begin PROJECT p \"\" /begin MODULE m \"\" ", " /end MODULE /end PROJECT"
			return []string{
				r("a", n), r(" ", n), r("\n", n), r("\"", n), r("\"", n+1), r("/*", n), r("*/", n), r("//", n), r("/begin ", n), r("/end ", n), r("\x00", n), r("(", n),
				r("/begin IF_DATA x ", n), pre + r("/begin IF_DATA x ", n) + r("/end IF_DATA ", n) + post,
				pre + r("/begin GROUP g \"\" ", n) + post, pre + r("/begin FUNCTION f \"\" ", n) + r("/end FUNCTION ", n) + post,
				pre + "/begin GROUP g \"" + r("x ", n) + "\" /end GROUP" + post, pre + "/begin GROUP g \"" + r("x\n", n) + "\" /end GROUP" + post,
				pre + "/* " + r("x ", n) + "*/" + post, pre + "// " + r("x ", n) + "\n" + post, pre + r("/* */", n) + post, pre + r("//\n", n) + post,
				pre + "/begin GROUP " + r("g", n) + " \"\" /end GROUP" + post,
				pre + "/begin GROUP g \"\" /begin REF_MEASUREMENT " + r("m ", n) + "/end REF_MEASUREMENT /end GROUP" + post,
				pre + "/begin COMPU_TAB t \"\" TAB_INTP " + fmt.Sprint(n) + " 1 1 /end COMPU_TAB" + post,
				pre + "/begin COMPU_TAB t \"\" TAB_INTP 65535 1 1 /end COMPU_TAB" + post,
				pre + "/begin COMPU_TAB t \"\" TAB_INTP -1 1 1 /end COMPU_TAB" + post,
				pre + "/begin COMPU_TAB t \"\" TAB_INTP 0 1 1 /end COMPU_TAB" + post,
				pre + "/begin COMPU_VTAB t \"\" TAB_VERB 60000 1 \"a\" /end COMPU_VTAB" + post,
				pre + "/begin COMPU_VTAB_RANGE t \"\" 60000 1 2 \"a\" /end COMPU_VTAB_RANGE" + post,
				pre + "/begin COMPU_VTAB_RANGE t \"\" 4294967295 1 2 \"a\" /end COMPU_VTAB_RANGE" + post,
				pre + "/begin COMPU_VTAB t \"\" TAB_VERB 9999999999999999 1 \"a\" /end COMPU_VTAB" + post,
				pre + "/begin MEASUREMENT m \"\" UBYTE c 1 1 0 1 /begin ANNOTATION " + r("/begin ANNOTATION_TEXT \"x\" /end ANNOTATION_TEXT ", n) + "/end ANNOTATION /end MEASUREMENT" + post,
			}
		}
		for _, n := range []int{1, 2, 3, 10, 100, 1000, 1023, 1024, 4095, 4096, 4097, 65535, 65536, 65537, c.pick(100000, 150000)} {
			for k, s := range big(n) {
				c.one(func() string { return fmt.Sprintf("a2l-%d-%d", n, k) }, c.anyA2L(func() string { return s }))
				if k < 12 {
					for f := IHex; f <= SRec; f++ {
						c.one(func() string { return fmt.Sprintf("%s-%d-%d", f.name(), n, k) }, c.anyHex(f, func() string { return s }))
					}
				}
			}
			for f := IHex; f <= SRec; f++ {
				for k, s := range []string{":" + strings.Repeat("0", n), ":FF" + strings.Repeat("F", n), "S3" + strings.Repeat("0", n), "S3FF" + strings.Repeat("F", n), strings.Repeat(":00000001FF\n", n), strings.Repeat(":", n), strings.Repeat(":\n", n), strings.Repeat("S3\n", n), strings.Repeat("S", n)} {
					c.one(func() string { return fmt.Sprintf("%s-rec-%d-%d", f.name(), n, k) }, c.anyHex(f, func() string { return s }))
				}
			}
		}
	}
	// hex and S-record files made of all fragments
	for f := IHex; f <= SRec; f++ {
		good := strings.Split(strings.TrimSpace(goodHex(f, "", 0x1FFF8, 3).Text), "\n")
		if c.fam(f.name() + "-fragments") {
			frag := []string{":", "S", "0", "3", "00", "FF", "04", "\n", "\r", "g", " ", good[1] + "\n", "\x00", "1"}
			for l := 0; l <= c.pick(4, 5); l++ {
				for i := 0; i < pow(len(frag), l); i++ {
					if l == 4 && !c.thorough() && c.numCPU > 2 && (i+c.numCPU)%4 != 0 {
						continue
					}
					c.one(func() string { return fmt.Sprintf("%d-%d", l, i) }, c.anyHex(f, func() string {
						var b strings.Builder
						for _, d := range digits(i, len(frag), l) {
							b.WriteString(frag[d])
						}
						return b.String()
					}))
				}
			}
		}
		if c.fam(f.name() + "-bytes") {
			txt := strings.Join(good, "\n") + "\n"
			for i := 0; i <= len(txt); i++ {
				for b := 0; b < 256; b++ {
					if i == len(txt) {
						break
					}
					c.one(func() string { return fmt.Sprintf("rep-%d-%d", i, b) }, c.anyHex(f, func() string { return txt[:i] + string([]byte{byte(b)}) + txt[i+1:] }))
				}
				c.one(func() string { return fmt.Sprintf("cut-%d", i) }, c.anyHex(f, func() string { return txt[:i] }))
				c.one(func() string { return fmt.Sprintf("tail-%d", i) }, c.anyHex(f, func() string { return txt[i:] }))
				for j := i; j <= len(txt) && (c.thorough() || j < i+12); j++ {
					c.one(func() string { return fmt.Sprintf("gap-%d-%d", i, j) }, c.anyHex(f, func() string { return txt[:i] + txt[j:] }))
				}
			}
		}
		// every record kind with every length, the checksum correct
		if c.fam(f.name() + "-kinds") {
			for kind := 0; kind < 256; kind++ {
				for _, n := range []int{0, 1, 2, 3, 4, 5, 8, 250, 255} {
					for cnt := -3; cnt <= 3; cnt++ {
						c.one(func() string { return fmt.Sprintf("%d-%d-%d", kind, n, cnt) }, c.anyHex(f, func() string {
							if f == IHex {
								l := []byte(IHex.line(Rec{'0', 0x1234, fill(n, 1)}))
								copy(l[1:], fmt.Sprintf("%02X", byte(n+cnt)))
								copy(l[7:], fmt.Sprintf("%02X", kind))
								return recheck(f, string(l)) + "\n" + good[1]
							}
							s := "S" + string([]byte{byte(kind)}) + fmt.Sprintf("%02X", byte(n+1+cnt)) + fmt.Sprintf("%X", fill(n, 1)) + "00"
							return safeRecheck(f, s) + "\n" + good[1]
						}))
					}
				}
			}
		}
	}
	// damaged files of some size, whose pieces fall to all workers
	if c.fam("workers") {
		for _, n := range []int{1, 2, 3, 5, 8, 13, 40} {
			txt := smallA2L(0, 1, n).text()
			lines := strings.Split(txt, "\n")
			for i := range lines {
				if n == 40 && i%7 != 0 {
					continue
				}
				for k, h := range hostile {
					c.one(func() string { return fmt.Sprintf("a2l-%d-%d-%d", n, i, k) }, c.anyA2L(func() string {
						u := append([]string(nil), lines...)
						u[i] = h
						return strings.Join(u, "\n")
					}))
				}
			}
			for f := IHex; f <= SRec; f++ {
				l := strings.Split(goodHex(f, "", 0x1FFF0, 3*n).Text, "\n")
				for i := range l {
					for k, h := range []string{"", ":", "S", "S3", ":00", "x", "\x00", ":0000000", ":020000040001", "S30500000000", strings.Repeat("F", 600), ":" + strings.Repeat("F", 600), "S3" + strings.Repeat("F", 600)} {
						c.one(func() string { return fmt.Sprintf("%s-%d-%d-%d", f.name(), n, i, k) }, c.anyHex(f, func() string {
							u := append([]string(nil), l...)
							u[i] = h
							return strings.Join(u, "\n")
						}))
					}
				}
			}
		}
	}
}

// safeRecheck corrects the checksum if there is one.
func safeRecheck(f Fmt, l string) (out string) {
	defer func() {
		if recover() != nil {
			out = l
		}
	}()
	return recheck(f, l)
}
