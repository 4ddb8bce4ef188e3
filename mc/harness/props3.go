package main

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"strings"
	"time"

	calibrationReader "github.com/asap2Go/calibrationReader"
	"github.com/asap2Go/calibrationReader/a2l"
	"github.com/asap2Go/calibrationReader/zzverif/vsched"
)

func init() {
	props["C14"] = calibration
	props["C15"] = independent
	props["C16"] = lookup
	props["C17"] = recordLayouts
	props["C18"] = clean
}

// ---- inputs with a known meaning

// Input is a file with its meaning: an A2L description, an image, or nothing if it cannot be read.
type Input struct {
	Name string
	Text string
	A2L  *Node
	Hex  map[uint32]byte
	F    Fmt
	IsA2 bool
	Kind string // "": a file, "missing", "dir"
}

func (in *Input) good() bool { return in.A2L != nil || in.Hex != nil }

// put writes the input to the scratch directory.
func (c *Ctx) putInput(in *Input, name string) string {
	p := filepath.Join(c.dir, name)
	os.RemoveAll(p)
	switch in.Kind {
	case "missing":
		return p
	case "dir":
		os.MkdirAll(p, 0o755)
		return p
	}
	os.MkdirAll(filepath.Dir(p), 0o755)
	return c.file(name, in.Text)
}

// smallA2L is a file with some objects.
func smallA2L(shift, modules, objects int) *Node {
	g := newGen()
	g.n += shift
	root, m := g.file()
	kinds := []string{"MEASUREMENT", "COMPU_METHOD", "GROUP", "RECORD_LAYOUT", "UNIT", "CHARACTERISTIC", "COMPU_VTAB", "FUNCTION"}
	for i := 0; i < modules; i++ {
		if i > 0 {
			m = g.sub(root.find("PROJECT"), "MODULE")
		}
		for k := 0; k < objects; k++ {
			g.object(m, specs[kinds[(k+i+shift)%len(kinds)]], (k+1)%2)
		}
	}
	return root
}

func dataRecs(f Fmt, base uint32, n int) []Rec {
	var r []Rec
	kind := byte('3')
	if f == IHex {
		kind = '0'
		r = append(r, ela(base>>16))
	}
	for i := 0; i < n; i++ {
		a := base + uint32(4*i)
		if f == IHex {
			a &= 0xffff
		}
		r = append(r, Rec{kind, a, fill(4, i+int(base%97))})
	}
	if f == IHex {
		r = append(r, Rec{'1', 0, nil})
	} else {
		r = append(r, Rec{'7', 0, nil})
	}
	return r
}

func goodHex(f Fmt, name string, base uint32, n int) *Input {
	r := dataRecs(f, base, n)
	img, _ := f.image(r)
	return &Input{Name: name, Text: f.text(r, "\n", true), Hex: img, F: f}
}

func goodA2L(name string, root *Node) *Input {
	return &Input{Name: name, Text: root.text(), A2L: root, IsA2: true}
}

// cal is the outcome of an operation.
type outcomeOf struct {
	a   a2l.A2L
	h   map[uint32]byte
	cd  calibrationReader.CalibrationData
	err error
}

// judgeA2L and judgeHex compare with the meaning of the input.
func (in *Input) judge(a a2l.A2L, h map[uint32]byte, err error) string {
	if !in.good() {
		if err == nil {
			return in.Name + ": no error although the file cannot be read"
		}
		return ""
	}
	if err != nil {
		return in.Name + ": rejected: " + err.Error()
	}
	var m string
	if in.IsA2 {
		m = in.A2L.diff(reflect.ValueOf(a), "a2l")
	} else {
		m = diffImage(h, in.Hex)
	}
	if m != "" {
		m = in.Name + ": " + m
	}
	return m
}

func a2lInputs() []*Input {
	small := smallA2L(0, 1, 3)
	return []*Input{
		goodA2L("good", small),
		{Name: "missing", Kind: "missing", IsA2: true},
		{Name: "dir", Kind: "dir", IsA2: true},
		{Name: "empty", IsA2: true},
		{Name: "cut", Text: small.text()[:len(small.text())-20], IsA2: true},
		{Name: "value", Text: strings.Replace(small.text(), "/end MODULE", "/begin GROUP g1 \"x\" /begin SUB_GROUP q /end SUB_GRUP /end GROUP /end MODULE", 1), IsA2: true},
		goodA2L("two", smallA2L(500, 2, 2)),
	}
}

func hexInputs(f Fmt) []*Input {
	ok := goodHex(f, "good", 0x80010000, 3)
	l := strings.Split(strings.TrimSpace(ok.Text), "\n")
	dam := append([]string(nil), l...)
	dam[2] = damageChecksum(dam[2])
	lastdam := append([]string(nil), l...)
	lastdam[len(l)-2] = damageChecksum(lastdam[len(l)-2])
	twice := append([]string{}, l[:len(l)-1]...)
	twice = append(twice, l[len(l)-2], l[len(l)-1])
	return []*Input{
		ok,
		{Name: "missing", Kind: "missing", F: f},
		{Name: "dir", Kind: "dir", F: f},
		{Name: "damaged", Text: strings.Join(dam, "\n") + "\n", F: f},
		{Name: "damagedlast", Text: strings.Join(lastdam, "\n") + "\n", F: f},
		{Name: "twice", Text: strings.Join(twice, "\n") + "\n", F: f},
	}
}

// ---- C14

// calCase reads both files with ReadCalibration.
func (c *Ctx) calCase(a, h *Input, aname, hname string, supported bool) mkFn {
	return func() (func(), func(x *vsched.Exec) string) {
		os.RemoveAll(filepath.Join(c.dir, "w"))
		ap, hp := c.putInput(a, "w/1/"+aname), c.putInput(h, "w/2/"+hname)
		return c.calRun(a, h, ap, hp, supported)
	}
}

func (c *Ctx) calRun(a, h *Input, ap, hp string, supported bool) (func(), func(x *vsched.Exec) string) {
	var cd calibrationReader.CalibrationData
	var err error
	body := func() { cd, err = calibrationReader.ReadCalibration(ap, hp) }
	return body, func(x *vsched.Exec) string {
		silence()
		c.gc()
		c.outcome(fmt.Sprint(err))
		if !a.good() || !h.good() || !supported {
			if err == nil {
				return fmt.Sprintf("nil error although one of the files cannot be read (a2l %s, hex %s)", a.Name, h.Name)
			}
			return ""
		}
		if err != nil {
			return "rejected: " + err.Error()
		}
		if cd.ModuleIndex != 0 {
			return fmt.Sprintf("module index %d", cd.ModuleIndex)
		}
		if m := a.A2L.diff(reflect.ValueOf(cd.A2l), "a2l"); m != "" {
			return m
		}
		return diffImage(cd.Hex, h.Hex)
	}
}

// agreeCase reads the files with their readers and with ReadCalibration, which have to agree.
func (c *Ctx) agreeCase(a, h *Input, how string) mkFn {
	return func() (func(), func(x *vsched.Exec) string) {
		os.RemoveAll(filepath.Join(c.dir, "w"))
		ext := "." + h.F.name()
		ap, hp := c.putInput(a, "w/1/in.a2l"), c.putInput(h, "w/2/in"+ext)
		ap2, hp2 := ap, hp
		switch how {
		case "rel", "dot":
			wd, _ := os.Getwd()
			ap2, _ = filepath.Rel(wd, ap)
			hp2, _ = filepath.Rel(wd, hp)
			if how == "dot" {
				ap2, hp2 = "./"+ap2, "./"+hp2
			}
		case "link":
			os.MkdirAll(filepath.Join(c.dir, "w/3"), 0o755)
			ap2, hp2 = filepath.Join(c.dir, "w/3/x"), filepath.Join(c.dir, "w/3/y.bin"+ext)
			os.Symlink(ap, ap2)
			os.Symlink(hp, hp2)
		case "linkdir":
			os.Symlink(filepath.Join(c.dir, "w/2"), filepath.Join(c.dir, "w/dir.bin"))
			hp2 = filepath.Join(c.dir, "w/dir.bin/in"+ext)
		case "twice":
			ap2, hp2 = strings.Replace(ap, "/in.a2l", "//in.a2l", 1), strings.Replace(hp, "/w/2/", "/w//2/./", 1)
		case "updown":
			ap2, hp2 = strings.Replace(ap, "/w/1/", "/w/2/../1/", 1), strings.Replace(hp, "/w/2/", "/w/1/../2/", 1)
			if h.Kind == "missing" {
				os.MkdirAll(filepath.Join(c.dir, "w/2"), 0o755)
			}
			if a.Kind == "missing" {
				os.MkdirAll(filepath.Join(c.dir, "w/1"), 0o755)
			}
		}
		var cd calibrationReader.CalibrationData
		var wantA a2l.A2L
		var wantH map[uint32]byte
		var err, errA, errH error
		body := func() {
			wantA, errA = a2l.ParseFromFile(ap)
			wantH, errH = h.F.parse(hp)
			cd, err = calibrationReader.ReadCalibration(ap2, hp2)
		}
		return body, func(x *vsched.Exec) string {
			silence()
			c.gc()
			c.outcome(fmt.Sprint(errA, errH, err))
			switch {
			case (errA != nil || errH != nil) && err == nil:
				return fmt.Sprintf("nil error although a reader fails: a2l %v, hex %v", errA, errH)
			case errA == nil && errH == nil && err != nil:
				return fmt.Sprintf("%v although both readers succeed", err)
			case err != nil:
				return ""
			case cd.ModuleIndex != 0:
				return fmt.Sprintf("module index %d", cd.ModuleIndex)
			case !reflect.DeepEqual(cd.A2l, wantA):
				return "the a2l data differ from those of the reader"
			}
			return diffImage(cd.Hex, wantH)
		}
	}
}

// gc lets the finalizers of the log files run.
func (c *Ctx) gc() {
	c.ngc++
	if c.ngc%200 == 0 {
		runtime.GC()
	}
}

func calibration(c *Ctx) {
	as := a2lInputs()
	hexes := [][]*Input{hexInputs(IHex), hexInputs(SRec)}
	if c.fam("files") {
		for _, a := range as {
			for f, hs := range hexes {
				for _, h := range hs {
					for _, n := range []int{0, 1} {
						ext := [][]string{{".hex", ".HEX"}, {".s19", ".S19"}}[f][n]
						c.one(func() string { return fmt.Sprintf("%s-%s%s", a.Name, h.Name, ext) }, c.calCase(a, h, "in.a2l", "in"+ext, true))
					}
				}
			}
		}
	}
	if c.fam("names") {
		// every letter case
		for f, e := range []string{"hex", "s19"} {
			for m := 0; m < 8; m++ {
				b := []byte(e)
				for i := range b {
					if m>>i&1 == 1 {
						b[i] = strings.ToUpper(string(b[i]))[0]
					}
				}
				name := "in." + string(b)
				c.one(func() string { return fmt.Sprintf("%s-%d", name, m) }, c.calCase(as[0], hexes[f][0], "in.a2l", name, true))
			}
		}
		// what else the path contains does not matter
		for f, e := range []string{".hex", ".s19"} {
			o := []string{".s19", ".hex"}[f]
			for _, n := range []string{"d%[2]s/in%[1]s", "d%[1]s/in%[1]s", "in%[2]s%[1]s", "%[2]s/%[1]s%[1]s", "a.b/c.d%[1]s", "in.x%[1]s", "%[1]s", "d/%[1]s", "in.a2l%[1]s", "in %[1]s", "IN.BIN%[1]s", "x.hex/y.s19/z%[1]s", "s19hex%[1]s"} {
				name := fmt.Sprintf(n, e, o)
				c.one(func() string { return "path-" + name }, c.calCase(as[0], hexes[f][0], "in.a2l", name, true))
			}
			for _, n := range []string{"in%[1]s.bak", "in", "in.bin", "in.a2l2", "d%[1]s/in", "d%[1]s/in.bin", "in%[1]sx", "in%[1]s.", "inhex", "ins19", "in.ihex", "in.srec", "in.mot", "in.hex32", "in.he", "in.s1", "in.s28", "in.h", "d%[1]s.x/in.s", "in_hex", "in.%[1]s.zip"} {
				name := strings.ReplaceAll(n, "%[1]s", e)
				for _, a := range []*Input{as[0], as[1]} {
					c.one(func() string { return fmt.Sprintf("bad-%s-%s-%s", name, a.Name, e) }, c.calCase(a, hexes[f][0], "in.a2l", name, false))
				}
			}
			// the other format under this name
			bad := *hexes[1-f][0]
			bad.Hex = nil
			c.one(func() string { return "wrong" + e }, c.calCase(as[0], &bad, "in.a2l", "in"+e, true))
			for _, n := range []string{"in.a2l", "in.A2L", "in", "in.hex", "in.txt", "d.s19/in.aml"} {
				c.one(func() string { return "a2l-" + n + "-" + e }, c.calCase(as[0], hexes[f][0], n, "h"+e, true))
			}
			// any character in a name, at the beginning, within and at the end, of the files and of the directory
			for ch := 1; ch < 256; ch++ {
				if ch == '/' {
					continue
				}
				x := string([]byte{byte(ch)})
				for i, n := range []string{x + "in", "i" + x + "n", "in" + x, x + "d/in", "d" + x + "/in", x + x + "x" + x + x} {
					if (ch+i)%2 != f && !c.thorough() {
						continue
					}
					c.one(func() string { return fmt.Sprintf("char-%02x-%d-%s", ch, i, e) }, c.calCase(as[0], hexes[f][0], n+".a2l", n+e, true))
					c.one(func() string { return fmt.Sprintf("char-a-%02x-%d-%s", ch, i, e) }, c.calCase(as[0], hexes[f][0], "in.a2l"+x, "in"+e, true))
				}
				// but not in the extension
				for i := 1; i <= len(e); i++ {
					c.one(func() string { return fmt.Sprintf("ext-%02x-%d-%s", ch, i, e) }, c.calCase(as[0], hexes[f][0], "in.a2l", "in"+e[:i]+x+e[i:], ch == '.' && i == 1))
				}
			}
		}
	}
	// short names, relative to the working directory
	if c.fam("short") {
		rel := func(a, h *Input, an, hn string, supported bool) mkFn {
			return func() (func(), func(x *vsched.Exec) string) {
				if an != "" {
					c.putInput(a, an)
				}
				if strings.Trim(hn, "./") != "" {
					c.putInput(h, hn)
				}
				body, judge := c.calRun(a, h, an, hn, supported)
				return body, func(x *vsched.Exec) string {
					m := judge(x)
					for _, n := range []string{an, hn} {
						if strings.Trim(n, "./") != "" {
							os.RemoveAll(filepath.Join(c.dir, n))
						}
					}
					return m
				}
			}
		}
		for f, e := range []string{".hex", ".s19"} {
			for _, an := range []string{"a", "b.", ".c", "a2l", ".a2l", "q.a2l", ""} {
				a := as[0]
				if an == "" {
					a = &Input{Name: "none", Kind: "missing", IsA2: true}
				}
				for _, hn := range []string{"", "h", "he", "hex", "s19", "x.h", "x.", ".", "..", "/", ".h", ".he", "hex.", ".s1", "s.1"} {
					c.one(func() string { return fmt.Sprintf("bad-%q-%q-%s", an, hn, e) }, rel(a, hexes[f][0], an, hn, false))
				}
				for _, hn := range []string{e, "h" + e, "./" + e, strings.ToUpper(e), ".h" + e, "." + e} {
					c.one(func() string { return fmt.Sprintf("good-%q-%q", an, hn) }, rel(a, hexes[f][0], an, hn, an != ""))
				}
			}
		}
	}
	if c.fam("sizes") {
		for n := 0; n < c.pick(40, 200); n++ {
			for f := range hexes {
				for mods := 1; mods <= 2; mods++ {
					c.one(func() string { return fmt.Sprintf("%d-%d-%d", n, f, mods) }, lazy(func() mkFn {
						h := goodHex(Fmt(f), "h", 0x8000FF00, n)
						return c.calCase(goodA2L("a", smallA2L(n, mods, n)), h, "in.a2l", "in"+[]string{".hex", ".s19"}[f], true)
					}))
				}
			}
		}
	}
	// whatever the files are: the call agrees with the two readers
	if c.fam("agree") {
		a0, h0 := as[0], hexes[0][0]
		odd := brokenA2Ls()
		for i, t := range []string{
			"", "\n", " ", "\ufeff", "\x1a", "ASAP2_VERSION 1 60", "ASAP2_VERSION 1 60\n/begin PROJECT p \"\"\n/end PROJECT",
			"/begin PROJECT p \"\" /end PROJECT", "/begin PROJECT p \"\" /begin HEADER \"x\" /end HEADER /end PROJECT",
			"ASAP2_VERSION 1 60 /begin PROJECT p \"\" /begin MODULE m \"\" /end MODULE /end PROJECT",
			"ASAP2_VERSION 1 60 A2ML_VERSION 1 31 /begin PROJECT p \"\" /begin MODULE m \"\" /end MODULE /end PROJECT",
			"ASAP2_VERSION 0 0 /begin PROJECT p \"\" /begin MODULE m \"\" /end MODULE /end PROJECT",
			"ASAP2_VERSION 1 60 /begin PROJECT p \"\" /begin MODULE m \"\" /begin MODULE n \"\" /end MODULE /end MODULE /end PROJECT",
			"/begin MODULE m \"\" /end MODULE", "// only a comment\n", "/* only */", "/* open", "\"open",
			strings.ReplaceAll(a0.Text, "\n", "\r\n"), a0.Text + a0.Text, a0.Text + "\n// end", "\ufeff" + a0.Text, a0.Text + "\x1a",
		} {
			odd = append(odd, &Input{Name: fmt.Sprint("odd", i), Text: t, IsA2: true})
		}
		for n := 0; n <= 4; n++ {
			odd = append(odd, goodA2L(fmt.Sprint("mods", n), smallA2L(n, n, n)))
		}
		for _, a := range odd {
			c.one(func() string { return "a2l-" + a.Name }, c.agreeCase(a, h0, ""))
		}
		for f := IHex; f <= SRec; f++ {
			odd := brokenHexes(f)
			end := []string{":00000001FF\n", "S70500000000FA\n"}[f]
			head := []string{":020000040000FA\n", "S0030000FC\n"}[f]
			d := strings.SplitN(goodHex(f, "", 0x10000, 1).Text, "\n", 3)
			for i, t := range []string{"", "\n", "\r\n", " ", "\n\n", end, head, head + end, end + end, strings.TrimSpace(end), strings.TrimSpace(d[f^1]), d[0] + "\n" + d[1], d[0] + "\r\n" + d[1] + "\r\n" + end, head + head, "\ufeff" + hexes[f][0].Text, hexes[f][0].Text + "\x1a", hexes[f][0].Text + "\n\n", hexes[f][0].Text + end, strings.ToLower(hexes[f][0].Text), "text", "ASAP2_VERSION 1 60", a0.Text, ":", "S", "S3", ":00"} {
				odd = append(odd, &Input{Name: fmt.Sprint("odd", i), Text: t, F: f})
			}
			// one byte of every value
			for v := 0; v < 256; v++ {
				r := Rec{[]byte{'0', '3'}[f], 0x100, []byte{byte(v)}}
				odd = append(odd, &Input{Name: fmt.Sprint("byte", v), Text: f.text([]Rec{r}, "\n", true), F: f})
			}
			for _, h := range odd {
				c.one(func() string { return f.name() + "-" + h.Name }, c.agreeCase(a0, h, ""))
			}
			for _, how := range []string{"rel", "dot", "link", "linkdir", "twice", "updown"} {
				for _, h := range hexes[f] {
					for _, a := range as {
						c.one(func() string { return how + "-" + f.name() + "-" + a.Name + "-" + h.Name }, c.agreeCase(a, h, how))
					}
				}
			}
		}
	}
	if c.fam("schedules") {
		for _, a := range as {
			for f, hs := range hexes {
				for _, h := range hs {
					c.all(func() string { return fmt.Sprintf("%s-%s%d", a.Name, h.Name, f) }, c.pick(4000, 60000), c.calCase(a, h, "in.a2l", "in"+[]string{".hex", ".s19"}[f], true))
				}
			}
		}
		c.all(func() string { return "bin" }, c.pick(4000, 60000), c.calCase(as[0], hexes[0][0], "in.a2l", "in.bin", false))
		c.all(func() string { return "bin-cut" }, c.pick(4000, 60000), c.calCase(as[4], hexes[0][0], "in.a2l", "in.bin", false))
	}
}

// ---- C15

// Operation reads something and can judge what it got, at any later time.
type Operation struct {
	Name string
	A, H *Input // both: ReadCalibration
}

func (c *Ctx) operations() []Operation {
	as := []*Input{goodA2L("a1", smallA2L(0, 1, 4)), goodA2L("a2", smallA2L(300, 2, 3)), goodA2L("a3", smallA2L(1000, 1, 9)), a2lInputs()[4], a2lInputs()[5], goodA2L("a0", smallA2L(1500, 3, 0))}
	as[3].Name, as[4].Name = "acut", "aval"
	full := newGen()
	as = append(as, goodA2L("afull", bigFile(full, 1)))
	var out []Operation
	for _, a := range as {
		out = append(out, Operation{Name: a.Name, A: a})
	}
	for f := IHex; f <= SRec; f++ {
		hs := []*Input{goodHex(f, "h1", 0x80000000, 5), goodHex(f, "h2", 0x80000008, 9), hexInputs(f)[4], hexInputs(f)[5], goodHex(f, "h0", 0, 0)}
		for i, h := range hs {
			if i == 1 {
				// a file that ends with data instead of an end record
				r := dataRecs(f, 0x80000008, 9)
				h.Text = f.text(r[:len(r)-1], "\n", true)
			}
			q := *h
			q.Name = f.name() + h.Name
			out = append(out, Operation{Name: q.Name, H: &q})
		}
	}
	out = append(out, Operation{Name: "cal", A: as[0], H: goodHex(IHex, "hc", 0x1000, 3)}, Operation{Name: "calbad", A: as[3], H: goodHex(SRec, "hc", 0x1000, 3)})
	return out
}

func (in *Input) ext() string {
	if in.IsA2 {
		return ".a2l"
	}
	return "." + in.F.name()
}

// opRun is a running operation.
type opRun struct {
	op     Operation
	ap, hp string
	res    outcomeOf
	early  string
}

func (c *Ctx) prepare(op Operation, n string) *opRun {
	r := &opRun{op: op}
	if op.A != nil {
		r.ap = c.putInput(op.A, n+op.A.ext())
	}
	if op.H != nil {
		r.hp = c.putInput(op.H, n+op.H.ext())
	}
	return r
}

func (r *opRun) run() {
	switch {
	case r.op.A != nil && r.op.H != nil:
		r.res.cd, r.res.err = calibrationReader.ReadCalibration(r.ap, r.hp)
	case r.op.A != nil:
		r.res.a, r.res.err = a2l.ParseFromFile(r.ap)
	default:
		r.res.h, r.res.err = r.op.H.F.parse(r.hp)
	}
}

func (r *opRun) judge() string {
	m := ""
	switch {
	case r.op.A != nil && r.op.H != nil:
		if !r.op.A.good() || !r.op.H.good() {
			if r.res.err == nil {
				m = "no error"
			}
		} else if r.res.err != nil {
			m = "rejected: " + r.res.err.Error()
		} else if m = r.op.A.A2L.diff(reflect.ValueOf(r.res.cd.A2l), "a2l"); m == "" {
			m = diffImage(r.res.cd.Hex, r.op.H.Hex)
		}
	case r.op.A != nil:
		m = r.op.A.judge(r.res.a, nil, r.res.err)
	default:
		m = r.op.H.judge(a2l.A2L{}, r.res.h, r.res.err)
	}
	if m != "" {
		return r.op.Name + ": " + m
	}
	return ""
}

// spoil changes everything in a result, as its owner may.
func (r *opRun) spoil() {
	spoilHex := func(h map[uint32]byte) {
		for k := range h {
			if k%2 == 0 {
				h[k] ^= 0xff
			} else {
				delete(h, k)
			}
		}
		if h != nil {
			h[0x12345678] = 1
		}
	}
	spoilHex(r.res.h)
	spoilHex(r.res.cd.Hex)
	spoilValue(reflect.ValueOf(&r.res.a), 0)
	spoilValue(reflect.ValueOf(&r.res.cd.A2l), 0)
}

func spoilValue(v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			spoilValue(v.Elem(), depth)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				spoilValue(v.Field(i), depth+1)
			}
		}
	case reflect.Map:
		if v.Len() > 0 {
			k := v.MapKeys()
			z := reflect.New(v.Type().Elem()).Elem()
			for i, x := range k {
				if i%2 == 0 {
					v.SetMapIndex(x, reflect.Value{})
				} else {
					v.SetMapIndex(x, z)
				}
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			spoilValue(v.Index(i), depth+1)
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("spoilt")
		}
	case reflect.Uint16, reflect.Uint32:
		if v.CanSet() {
			v.SetUint(4711)
		}
	case reflect.Float64:
		if v.CanSet() {
			v.SetFloat(47.11)
		}
	}
}

func independent(c *Ctx) {
	ops := c.operations()
	seqName := func(s []int) string {
		var w []string
		for _, i := range s {
			w = append(w, ops[i].Name)
		}
		return strings.Join(w, "-")
	}
	sequence := func(s []int, spoil, samePath bool) mkFn {
		return func() (func(), func(x *vsched.Exec) string) {
			var runs []*opRun
			body := func() {
				runs = nil
				for i, k := range s {
					n := fmt.Sprintf("in%d", i)
					if samePath {
						n = "in"
					}
					r := c.prepare(ops[k], n)
					r.run()
					silence()
					r.early = r.judge()
					runs = append(runs, r)
					if spoil {
						r.spoil()
					}
				}
			}
			return body, func(x *vsched.Exec) string {
				c.gc()
				for i, r := range runs {
					if r.early != "" {
						return fmt.Sprintf("call %d: %s", i+1, r.early)
					}
					if spoil {
						continue
					}
					if m := r.judge(); m != "" {
						return fmt.Sprintf("call %d, after the later calls: %s", i+1, m)
					}
				}
				return ""
			}
		}
	}
	if c.fam("sequences") {
		for l := 1; l <= c.pick(3, 4); l++ {
			for k := 0; k < pow(len(ops), l); k++ {
				s := digits(k, len(ops), l)
				c.one(func() string { return seqName(s) }, sequence(s, false, false))
			}
		}
	}
	if c.fam("samepath") {
		for l := 2; l <= c.pick(2, 3); l++ {
			for k := 0; k < pow(len(ops), l); k++ {
				s := digits(k, len(ops), l)
				c.one(func() string { return seqName(s) }, sequence(s, false, true))
				c.one(func() string { return "spoilt-" + seqName(s) }, sequence(s, true, true))
			}
		}
	}
	// another file of the same length and time under the same name
	if c.fam("samesize") {
		var pairs [][2]Operation
		for k := 0; k < 3; k++ {
			var in [2]*Input
			for i := range in {
				root := smallA2L(0, 1+k/2, 3)
				u := root.find("PROJECT").find("MODULE").find("GROUP")
				u.Val[k%2][0] = []string{[]string{"abcd", "abdc"}[i], []string{`"abcd"`, `"bacd"`}[i]}[k%2]
				in[i] = goodA2L(fmt.Sprint("a", k, i), root)
			}
			pairs = append(pairs, [2]Operation{{Name: in[0].Name, A: in[0]}, {Name: in[1].Name, A: in[1]}})
			h := goodHex(IHex, "h", 0x1000, 3)
			pairs = append(pairs, [2]Operation{{Name: "cal-" + in[0].Name, A: in[0], H: h}, {Name: "cal-" + in[1].Name, A: in[1], H: h}})
		}
		for f := IHex; f <= SRec; f++ {
			for k, at := range []uint32{0x80000100, 0x80010000, 0x10000} {
				x, y := goodHex(f, "x", 0x80000000, 5), goodHex(f, "y", at, 5)
				n := fmt.Sprintf("%s%d", f.name(), k)
				pairs = append(pairs, [2]Operation{{Name: n + "x", H: x}, {Name: n + "y", H: y}}, [2]Operation{{Name: n + "cx", A: pairs[0][0].A, H: x}, {Name: n + "cy", A: pairs[0][0].A, H: y}})
			}
			// the same bytes in another order
			x, y := goodHex(f, "x", 0x80000000, 5), goodHex(f, "y", 0x80000000, 5)
			rx, ry := dataRecs(f, 0x80000000, 5), dataRecs(f, 0x80000000, 5)
			for i := range ry {
				if n := len(ry[i].Data); n > 1 && (ry[i].Kind == '3' || f == IHex && ry[i].Kind == '0') {
					ry[i].Data[0], ry[i].Data[n-1] = ry[i].Data[n-1], ry[i].Data[0]
				}
			}
			x.Text, y.Text = f.text(rx, "\n", true), f.text(ry, "\n", true)
			x.Hex, _ = f.image(rx)
			y.Hex, _ = f.image(ry)
			pairs = append(pairs, [2]Operation{{Name: f.name() + "x", H: x}, {Name: f.name() + "y", H: y}})
		}
		for i := range pairs {
			for w := 0; w < 8; w++ {
				c.one(func() string { return fmt.Sprintf("%s-%d", pairs[i][0].Name, w) }, func() (func(), func(x *vsched.Exec) string) {
					var runs []*opRun
					body := func() {
						runs = nil
						for k := 0; k < 3; k++ {
							r := c.prepare(pairs[i][w>>k&1], "in")
							for _, p := range []string{r.ap, r.hp} {
								if p != "" {
									t := time.Unix(1700000000, 0)
									os.Chtimes(p, t, t)
								}
							}
							r.run()
							silence()
							r.early = r.judge()
							runs = append(runs, r)
						}
					}
					return body, func(x *vsched.Exec) string {
						c.gc()
						for k, r := range runs {
							if r.early != "" {
								return fmt.Sprintf("reading number %d: %s", k+1, r.early)
							}
							if m := r.judge(); m != "" {
								return fmt.Sprintf("reading number %d, later: %s", k+1, m)
							}
						}
						return ""
					}
				})
			}
		}
	}
	if c.fam("same") {
		// the very same unchanged file read again, with results the caller has changed in between
		for i := range ops {
			for n := 2; n <= 4; n++ {
				for sp := 0; sp < 2; sp++ {
					c.one(func() string { return fmt.Sprintf("%s-%d-%d", ops[i].Name, n, sp) }, func() (func(), func(x *vsched.Exec) string) {
						first := c.prepare(ops[i], "in")
						var runs []*opRun
						body := func() {
							runs = nil
							for k := 0; k < n; k++ {
								r := *first
								r.run()
								silence()
								r.early = r.judge()
								runs = append(runs, &r)
								if sp == 1 {
									r.spoil()
								}
							}
						}
						return body, func(x *vsched.Exec) string {
							c.gc()
							for k, r := range runs {
								if r.early != "" {
									return fmt.Sprintf("reading number %d: %s", k+1, r.early)
								}
								if sp == 0 {
									if m := r.judge(); m != "" {
										return fmt.Sprintf("reading number %d, later: %s", k+1, m)
									}
								}
							}
							return ""
						}
					})
				}
			}
		}
	}
	concurrent := func(s []int, same bool) mkFn {
		return func() (func(), func(x *vsched.Exec) string) {
			base := make([]*opRun, len(s))
			for i, k := range s {
				n := fmt.Sprintf("in%d", i)
				if same {
					n = "in"
				}
				base[i] = c.prepare(ops[k], n)
			}
			runs := make([]*opRun, len(s))
			body := func() {
				var wg vsched.WaitGroup
				for i := range s {
					i := i
					r := *base[i]
					runs[i] = &r
					wg.Add(1)
					vsched.Go(func() {
						defer wg.Done()
						r.run()
						runs[i].res = r.res
					})
				}
				wg.Wait()
			}
			return body, func(x *vsched.Exec) string {
				silence()
				c.gc()
				for i, r := range runs {
					if m := r.judge(); m != "" {
						return fmt.Sprintf("concurrent call %d: %s", i+1, m)
					}
				}
				return ""
			}
		}
	}
	if c.fam("concurrent") {
		// one schedule, all pairs and triples
		for l := 2; l <= c.pick(2, 3); l++ {
			for k := 0; k < pow(len(ops), l); k++ {
				s := digits(k, len(ops), l)
				c.one(func() string { return seqName(s) }, concurrent(s, false))
			}
		}
	}
	if c.fam("schedules") {
		cap := c.pick(600, 20000)
		for i := range ops {
			c.all(func() string { return "same-" + ops[i].Name }, cap, concurrent([]int{i, i}, true))
			for j := 0; j <= i; j++ {
				c.all(func() string { return ops[i].Name + "-" + ops[j].Name }, cap, concurrent([]int{i, j}, false))
			}
		}
		for i := range ops {
			c.all(func() string { return "three-" + ops[i].Name }, cap, concurrent([]int{i, (i + 3) % len(ops), (i + 8) % len(ops)}, false))
		}
	}
}

// ---- C16

var lookupKinds = []string{"AXIS_PTS", "CHARACTERISTIC", "COMPU_METHOD", "COMPU_TAB", "COMPU_VTAB", "COMPU_VTAB_RANGE", "FUNCTION", "GROUP", "MEASUREMENT", "RECORD_LAYOUT", "SYSTEM_CONSTANT", "UNIT"}

// addNamed adds an object of the kind with the given name to the module.
func (g *Gen) addNamed(m *Node, kw, name string) *Node {
	if kw == "SYSTEM_CONSTANT" {
		p := m.find("MOD_PAR")
		if p == nil {
			p = g.sub(m, "MOD_PAR")
		}
		m = p
	}
	n := g.object(m, specs[kw], 1)
	n.Val[0][0] = name
	return n
}

// matches compares the objects found with the nodes, in any order.
func matches(got []interface{}, want []*Node) string {
	used := make([]bool, len(got))
	for _, w := range want {
		found := false
		last := ""
		for i, o := range got {
			if used[i] || o == nil {
				continue
			}
			v := reflect.ValueOf(o)
			if !sameKind(v, w) {
				continue
			}
			m := w.diff(v, w.KW)
			if m == "" {
				used[i], found = true, true
				break
			}
			last = m
		}
		if !found {
			return fmt.Sprintf("%s %s is not found (%d objects) %s", w.KW, w.name(), len(got), last)
		}
	}
	if len(got) != len(want) {
		return fmt.Sprintf("%d objects instead of %d", len(got), len(want))
	}
	return ""
}

// sameKind tells whether the value has the parameters of the node's keyword, so that it can be an object of its kind.
func sameKind(v reflect.Value, n *Node) bool {
	for v.Kind() == reflect.Pointer || v.Kind() == reflect.Interface {
		if v.IsNil() {
			return false
		}
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return false
	}
	f := fieldsOf(v.Type())
	all, have := 0, 0
	count := func(name string) {
		all++
		if _, ok := f.byName[norm(name)]; ok {
			have++
		}
	}
	for _, p := range n.Par {
		count(p.Name)
	}
	for _, p := range n.List {
		count(p.Name)
	}
	for _, o := range n.Opts {
		count(o.KW)
	}
	return 10*have >= 7*all
}

type query struct {
	index uint8
	ident string
	want  []*Node
}

// look reads the file and asks the queries.
func (c *Ctx) look(root *Node, qs []query) mkFn {
	return func() (func(), func(x *vsched.Exec) string) {
		p := c.file("in.a2l", root.text())
		var cd calibrationReader.CalibrationData
		var err error
		got := make([][]interface{}, len(qs))
		again := make([][]interface{}, len(qs))
		body := func() {
			cd.A2l, err = a2l.ParseFromFile(p)
			if err != nil {
				return
			}
			for k := 0; k < 2; k++ {
				for i, q := range qs {
					cd.ModuleIndex = q.index
					if k == 0 {
						got[i] = cd.GetObjectByIdent(q.ident)
					} else {
						again[i] = cd.GetObjectByIdent(q.ident)
					}
				}
			}
		}
		return body, func(x *vsched.Exec) string {
			if err != nil {
				return "rejected: " + err.Error()
			}
			for i, q := range qs {
				c.outcome(fmt.Sprint(len(got[i])))
				if m := matches(got[i], q.want); m != "" {
					return fmt.Sprintf("looking for %q in module %d: %s", q.ident, q.index, m)
				}
				if m := matches(again[i], q.want); m != "" {
					return fmt.Sprintf("looking for %q in module %d again: %s", q.ident, q.index, m)
				}
			}
			// the lookups left the data as they were
			return root.diff(reflect.ValueOf(cd.A2l), "a2l")
		}
	}
}

// turns looks an identifier up in several data, in one after the other.
func (c *Ctx) turns(k1, k2 string, how int) mkFn {
	return lazy(func() mkFn {
		var roots [3]*Node
		var want [3][]*Node
		for i := range roots {
			g := newGen()
			g.n += 700 * i
			root, m := g.file()
			roots[i] = root
			switch i {
			case 0:
				want[i] = []*Node{g.addNamed(m, k1, "ident")}
			case 1:
				want[i] = []*Node{g.addNamed(m, k2, "ident")}
			}
			g.addNamed(m, "UNIT", "other")
		}
		return func() (func(), func(x *vsched.Exec) string) {
			var msg string
			var paths [3]string
			for i, r := range roots {
				paths[i] = c.file(fmt.Sprint("in", i, ".a2l"), r.text())
			}
			body := func() {
				var data [3]a2l.A2L
				for i, p := range paths {
					var err error
					if data[i], err = a2l.ParseFromFile(p); err != nil {
						msg = "rejected: " + err.Error()
						return
					}
				}
				var one calibrationReader.CalibrationData
				var each [3]calibrationReader.CalibrationData
				for i := range each {
					each[i].A2l = data[i]
				}
				order := [][]int{{0, 1, 2, 0, 2, 1}, {2, 1, 0, 1, 0, 2}}[how%2]
				for n, i := range order {
					var got []interface{}
					if how < 2 {
						// one variable holds one result after the other
						one.A2l = data[i]
						got = one.GetObjectByIdent("ident")
					} else {
						got = each[i].GetObjectByIdent("ident")
					}
					if msg = matches(got, want[i]); msg != "" {
						msg = fmt.Sprintf("lookup %d, in data %d: %s", n, i, msg)
						return
					}
					for k := range got {
						got[k] = nil // the caller's to change
					}
				}
			}
			return body, func(x *vsched.Exec) string { return msg }
		}
	})
}

func lookup(c *Ctx) {
	nk := len(lookupKinds)
	if c.fam("subsets") {
		for s := 0; s < 1<<nk; s++ {
			if !c.thorough() && c.numCPU > 2 && s%8 != c.numCPU%8 {
				continue
			}
			c.one(func() string { return fmt.Sprintf("%03x", s) }, lazy(func() mkFn {
				g := newGen()
				root, m := g.file()
				var want, other []*Node
				// the others have a neighbouring name
				for i, kw := range lookupKinds {
					if s>>i&1 == 1 {
						want = append(want, g.addNamed(m, kw, "ident"))
					} else {
						other = append(other, g.addNamed(m, kw, "ident2"))
					}
				}
				return c.look(root, []query{{0, "ident", want}, {0, "ident2", other}, {0, "iden", nil}, {0, "", nil}, {0, "IDENT", nil}, {1, "ident", nil}, {255, "ident", nil}})
			}))
		}
	}
	if c.fam("names") {
		names := []string{"a", "A", "a1", "a_1", "a.b", "a[0]", "a.b.c[1][2]", "ab", "b", "aa", "_a", "x" + strings.Repeat("y", 300)}
		for i, kw := range lookupKinds {
			for r := 0; r < len(names); r++ {
				c.one(func() string { return fmt.Sprintf("%s-%d", kw, r) }, lazy(func() mkFn {
					g := newGen()
					root, m := g.file()
					var qs []query
					by := map[string][]*Node{}
					for k := range names {
						n := names[(k+r)%len(names)]
						by[n] = append(by[n], g.addNamed(m, kw, n))
						if k%3 == 0 {
							kw2 := lookupKinds[(i+k+1)%nk]
							if kw2 != kw {
								by[n] = append(by[n], g.addNamed(m, kw2, n))
							}
						}
					}
					for n, w := range by {
						qs = append(qs, query{0, n, w})
					}
					for _, n := range []string{" a", "a ", "a.", "a[1]", "a.b.c", "B", `"a"`, "x", "*", "a.b.c[1][2]x"} {
						qs = append(qs, query{0, n, nil})
					}
					return c.look(root, qs)
				}))
			}
		}
		// any character in front of, within or behind a name makes another name
		for i, kw := range lookupKinds {
			c.one(func() string { return "characters-" + kw }, lazy(func() mkFn {
				g := newGen()
				root, m := g.file()
				ab, both := g.addNamed(m, kw, "ab"), g.addNamed(m, lookupKinds[(i+1)%nk], "ab")
				qs := []query{{0, "ab", []*Node{ab, both}}}
				for ch := rune(0); ch < 0x180; ch++ {
					for _, x := range []string{string(ch), string([]byte{byte(ch)})} {
						qs = append(qs, query{0, x + "ab", nil}, query{0, "a" + x + "b", nil}, query{0, "ab" + x, nil}, query{0, x, nil})
					}
				}
				for _, n := range []string{"", "aB", "Ab", "AB", "ba", "a", "b", "abab", "ab\x00ab", "\ufeffab", "ab\u200b", "m.ab", "MODULE.ab", "ab.", "*", "a*", "a?", "[a]b", "(ab)", "ab|x", "^ab$", "%61b", "a\\b", "../ab", "ab/"} {
					qs = append(qs, query{0, n, nil})
				}
				return c.look(root, qs)
			}))
		}
		for k := 0; k < 3; k++ {
			c.one(func() string { return fmt.Sprintf("quoted-%d", k) }, lazy(func() mkFn {
				g := newGen()
				root, m := g.file()
				a := g.addNamed(m, "SYSTEM_CONSTANT", `"S 1"`)
				b := g.addNamed(m, "SYSTEM_CONSTANT", `"S"`)
				u := g.addNamed(m, "UNIT", `S`)
				return c.look(root, []query{{0, `"S 1"`, []*Node{a}}, {0, `"S"`, []*Node{b}}, {0, "S", []*Node{u}}, {0, "S 1", nil}})
			}))
		}
	}
	// objects of kinds that are not looked up, and what is nested, is not found
	if c.fam("others") {
		for _, k := range objectKinds() {
			isKind := false
			for _, n := range lookupKinds {
				isKind = isKind || n == k.KW
			}
			if len(k.Par) == 0 || isKind {
				continue
			}
			c.one(func() string { return k.KW }, lazy(func() mkFn {
				g := newGen()
				root, m := g.file()
				g.object(m, k.Spec, 1).Val[0][0] = "ident"
				u := g.addNamed(m, "UNIT", "unit")
				return c.look(root, []query{{0, "ident", nil}, {0, "unit", []*Node{u}}})
			}))
		}
	}
	if c.fam("modules") {
		for mods := 1; mods <= 4; mods++ {
			// which module has which kinds
			for s := 0; s < pow(4, mods); s++ {
				for sh := 0; sh < nk; sh++ {
					c.one(func() string { return fmt.Sprintf("%d-%d-%d", mods, s, sh) }, lazy(func() mkFn {
						g := newGen()
						root, m := g.file()
						var qs []query
						d := digits(s, 4, mods)
						for i := 0; i < mods; i++ {
							if i > 0 {
								m = g.sub(root.find("PROJECT"), "MODULE")
							}
							var w []*Node
							if d[i]&1 == 1 {
								w = append(w, g.addNamed(m, lookupKinds[sh], "ident"))
							}
							if d[i]&2 == 2 {
								w = append(w, g.addNamed(m, lookupKinds[(sh+1+i)%nk], "ident"))
							}
							own := g.addNamed(m, lookupKinds[(sh+5)%nk], fmt.Sprint("own", i))
							qs = append(qs, query{uint8(i), "ident", w})
							for k := 0; k < mods; k++ {
								if k == i {
									qs = append(qs, query{uint8(i), fmt.Sprint("own", i), []*Node{own}})
								} else {
									qs = append(qs, query{uint8(i), fmt.Sprint("own", k), nil})
								}
							}
						}
						qs = append(qs, query{uint8(mods), "ident", nil}, query{uint8(mods + 1), "own0", nil}, query{255, "own0", nil}, query{128, "ident", nil})
						return c.look(root, qs)
					}))
				}
			}
		}
	}
	if c.fam("empty") {
		for i := 0; i < 256; i++ {
			c.one(func() string { return fmt.Sprint(i) }, func() (func(), func(x *vsched.Exec) string) {
				var n int
				return func() {
						cd := calibrationReader.CalibrationData{ModuleIndex: uint8(i)}
						n = len(cd.GetObjectByIdent("x"))
						cd.A2l.Project.Modules = make([]a2l.Module, i)
						n += len(cd.GetObjectByIdent("x"))
						cd.A2l.Project.Modules = make([]a2l.Module, i+1)
						n += len(cd.GetObjectByIdent(""))
					}, func(x *vsched.Exec) string {
						if n != 0 {
							return "objects in empty data"
						}
						return ""
					}
			})
		}
	}
	// several results are asked in turn: nothing is remembered from another one
	if c.fam("turns") {
		for i := 0; i < nk; i++ {
			for j := 0; j < nk; j++ {
				for how := 0; how < 4; how++ {
					c.one(func() string { return fmt.Sprintf("%s-%s-%d", lookupKinds[i], lookupKinds[j], how) }, c.turns(lookupKinds[i], lookupKinds[j], how))
				}
			}
		}
	}
	if c.fam("many") {
		for _, n := range []int{1, 50, 400, 1500} {
			c.one(func() string { return fmt.Sprint(n) }, lazy(func() mkFn {
				g := newGen()
				root, m := g.file()
				var qs []query
				for i := 0; i < n; i++ {
					name := fmt.Sprint("o", i)
					w := []*Node{g.addNamed(m, lookupKinds[i%nk], name)}
					if i%3 == 0 {
						w = append(w, g.addNamed(m, lookupKinds[(i+1)%nk], name))
					}
					qs = append(qs, query{0, name, w})
				}
				return c.look(root, qs)
			}))
		}
	}
}

// ---- C17

// component is the name the queries use for a keyword of the record layout.
func component(kw string) string {
	var b strings.Builder
	for _, w := range strings.Split(kw, "_") {
		b.WriteString(w[:1] + strings.ToLower(w[1:]))
	}
	return b.String()
}

func hasPar(s *Spec, name string) bool {
	for _, p := range s.Par {
		if p.Name == name {
			return true
		}
	}
	return false
}

// layoutCase reads a record layout and asks the queries.
func (c *Ctx) layoutCase(mk func(g *Gen, rl *Node)) mkFn {
	return func() (func(), func(x *vsched.Exec) string) {
		g := newGen()
		root, m := g.file()
		rl := g.sub(m, "RECORD_LAYOUT")
		g.n += 1000
		mk(g, rl)
		p := c.file("in.a2l", root.text())
		var cd a2l.A2L
		var err, perr error
		var pos map[uint16]string
		type answer struct {
			d   a2l.DataTypeEnum
			err error
		}
		types := map[string]answer{}
		body := func() {
			cd, err = a2l.ParseFromFile(p)
			if err != nil {
				return
			}
			l, ok := cd.Project.Modules[0].RecordLayouts[rl.name()]
			if !ok {
				err = fmt.Errorf("record layout is missing")
				return
			}
			pos, perr = l.GetRecordLayoutRelativePositions()
			for _, o := range specs["RECORD_LAYOUT"].Opts {
				d, e := l.GetDatatypeByFieldName(component(o.KW))
				types[component(o.KW)] = answer{d, e}
			}
			for _, n := range []string{"", "x", "AXIS_PTS_X", "axisptsx"} {
				d, e := l.GetDatatypeByFieldName(n)
				types[n] = answer{d, e}
			}
		}
		return body, func(x *vsched.Exec) string {
			if err != nil {
				return "rejected: " + err.Error()
			}
			want := map[string]string{}
			declared := map[string]string{}
			dup := false
			for _, s := range rl.Subs {
				for i, q := range s.Par {
					switch q.Name {
					case "Position":
						if _, ok := want[s.Val[i][0]]; ok {
							dup = true
						}
						want[s.Val[i][0]] = component(s.KW)
					case "Datatype":
						declared[component(s.KW)] = s.Val[i][0]
					}
				}
			}
			if dup {
				if perr == nil {
					return "no error although two components claim the same position"
				}
			} else {
				if perr != nil {
					return "positions: " + perr.Error()
				}
				for p, n := range pos {
					if want[fmt.Sprint(p)] != n {
						return fmt.Sprintf("position %d is %q instead of %q", p, n, want[fmt.Sprint(p)])
					}
				}
				if len(pos) != len(want) {
					return fmt.Sprintf("%d positions instead of %d: %v", len(pos), len(want), pos)
				}
			}
			for n, a := range types {
				w, ok := declared[n]
				switch {
				case !ok && a.err == nil:
					return fmt.Sprintf("datatype of %q, which is not declared: %v without error", n, a.d)
				case ok && a.err != nil:
					return fmt.Sprintf("datatype of %q: %v", n, a.err)
				case ok && string(a.d) != w:
					return fmt.Sprintf("datatype of %q is %v instead of %v", n, a.d, w)
				case ok && a.d.String() != w:
					return fmt.Sprintf("name of the datatype of %q is %v instead of %v", n, a.d.String(), w)
				}
			}
			c.outcome(fmt.Sprint(len(pos), perr != nil))
			return ""
		}
	}
}

// at gives a component its position.
func (g *Gen) at(rl *Node, s *Spec, pos int) *Node {
	n := g.sub(rl, s.KW)
	for i, p := range s.Par {
		if p.Name == "Position" {
			n.Val[i][0] = fmt.Sprint(pos)
		}
	}
	return n
}

func recordLayouts(c *Ctx) {
	var placed, other []*Spec
	for _, o := range specs["RECORD_LAYOUT"].Opts {
		if hasPar(o.Spec, "Position") {
			placed = append(placed, o.Spec)
		} else {
			other = append(other, o.Spec)
		}
	}
	if c.fam("single") {
		c.one(func() string { return "none" }, c.layoutCase(func(g *Gen, rl *Node) {}))
		c.one(func() string { return "others" }, c.layoutCase(func(g *Gen, rl *Node) {
			for _, s := range other {
				g.sub(rl, s.KW)
			}
		}))
		for _, s := range placed {
			for _, pos := range []int{0, 1, 2, 7, 255, 256, 65534, 65535} {
				c.one(func() string { return fmt.Sprintf("%s-%d", s.KW, pos) }, c.layoutCase(func(g *Gen, rl *Node) { g.at(rl, s, pos) }))
			}
			for _, d := range a2lEnums["DataType"] {
				if hasPar(s, "Datatype") {
					c.one(func() string { return s.KW + "-" + d }, c.layoutCase(func(g *Gen, rl *Node) {
						n := g.at(rl, s, 3)
						for i, p := range s.Par {
							if p.Name == "Datatype" {
								n.Val[i][0] = d
							}
						}
					}))
				}
			}
		}
		for _, s := range other {
			c.one(func() string { return s.KW }, c.layoutCase(func(g *Gen, rl *Node) { g.sub(rl, s.KW); g.at(rl, specs["FNC_VALUES"], 2) }))
		}
	}
	if c.fam("pairs") {
		for i, a := range placed {
			for j, b := range placed {
				if i == j {
					continue
				}
				for _, pos := range [][2]int{{1, 2}, {1, 1}, {2, 1}, {0, 0}, {0, 1}, {1, 257}, {65535, 65535}, {0, 65535}} {
					c.one(func() string { return fmt.Sprintf("%s-%s-%d-%d", a.KW, b.KW, pos[0], pos[1]) }, c.layoutCase(func(g *Gen, rl *Node) {
						g.at(rl, a, pos[0])
						g.at(rl, b, pos[1])
					}))
				}
			}
		}
	}
	if c.fam("triples") {
		for i, a := range placed {
			for j := 0; j < i; j++ {
				for k := 0; k < j; k++ {
					for p := 0; p < 27; p++ {
						if !c.thorough() && p%c.pick(9, 1) != (i+j+k)%9 {
							continue
						}
						d := digits(p, 3, 3)
						c.one(func() string { return fmt.Sprintf("%s-%s-%s-%d", a.KW, placed[j].KW, placed[k].KW, p) }, c.layoutCase(func(g *Gen, rl *Node) {
							g.at(rl, a, d[0])
							g.at(rl, placed[j], d[1])
							g.at(rl, placed[k], d[2])
						}))
					}
				}
			}
		}
	}
	if c.fam("full") {
		n := len(placed)
		for r := 0; r < n; r++ {
			for dir := 0; dir < 2; dir++ {
				at := func(i int) int {
					k := (i + r) % n
					if dir == 1 {
						k = n - 1 - k
					}
					return k
				}
				c.one(func() string { return fmt.Sprintf("all-%d-%d", r, dir) }, c.layoutCase(func(g *Gen, rl *Node) {
					for i := range placed {
						g.at(rl, placed[at(i)], i+1)
					}
					for _, s := range other {
						g.sub(rl, s.KW)
					}
				}))
				c.one(func() string { return fmt.Sprintf("rev-%d-%d", r, dir) }, c.layoutCase(func(g *Gen, rl *Node) {
					for i, s := range placed {
						g.at(rl, s, at(i)+1)
					}
				}))
			}
			for k := 0; k < n; k++ {
				c.one(func() string { return fmt.Sprintf("without-%d-%d", r, k) }, c.layoutCase(func(g *Gen, rl *Node) {
					for i, s := range placed {
						if i != r && i != k {
							g.at(rl, s, n-i)
						}
					}
				}))
				if k != r {
					c.one(func() string { return fmt.Sprintf("double-%d-%d", r, k) }, c.layoutCase(func(g *Gen, rl *Node) {
						for i, s := range placed {
							if i == r {
								i = k
							}
							g.at(rl, s, i+1)
						}
					}))
				}
			}
		}
	}
	if c.fam("sizes") {
		bits := map[string]int{"UBYTE": 8, "SBYTE": 8, "UWORD": 16, "SWORD": 16, "ULONG": 32, "SLONG": 32, "A_UINT64": 64, "A_INT64": 64, "FLOAT16_IEEE": 16, "FLOAT32_IEEE": 32, "FLOAT64_IEEE": 64}
		for _, d := range a2lEnums["DataType"] {
			c.one(func() string { return d }, func() (func(), func(x *vsched.Exec) string) {
				var bl uint16
				var t interface{}
				var s string
				return func() {
						e := a2l.DataTypeEnum(d)
						bl, t, s = e.GetDatatypeLength(), e.GetType(), e.String()
					}, func(x *vsched.Exec) string {
						if int(bl) != bits[d] {
							return fmt.Sprintf("%s has %d bits instead of %d", d, bl, bits[d])
						}
						if s != d {
							return fmt.Sprintf("%s is called %q", d, s)
						}
						if t == nil {
							return d + " has no native type"
						}
						rt := reflect.TypeOf(t)
						if rt.Bits() != bits[d] {
							return fmt.Sprintf("%s has native type %v", d, rt)
						}
						signed, float := rt.Kind() >= reflect.Int && rt.Kind() <= reflect.Int64, rt.Kind() == reflect.Float32 || rt.Kind() == reflect.Float64 || rt.Name() == "Float16"
						wantFloat := strings.HasPrefix(d, "FLOAT")
						wantSigned := !wantFloat && (d[0] == 'S' || d == "A_INT64")
						if signed != wantSigned || float != wantFloat {
							return fmt.Sprintf("%s has native type %v", d, rt)
						}
						return ""
					}
			})
		}
		for i, d := range []string{"BYTE", "WORD", "LONG"} {
			c.one(func() string { return d }, func() (func(), func(x *vsched.Exec) string) {
				var n uint16
				return func() { e := a2l.DataSizeEnum(d); n = e.GetDataSizeLength() }, func(x *vsched.Exec) string {
					if int(n) != 8<<i {
						return fmt.Sprintf("%s has %d bits instead of %d", d, n, 8<<i)
					}
					return ""
				}
			})
		}
		for i, b := range a2lEnums["ByteOrder"] {
			c.one(func() string { return fmt.Sprint(b, i) }, func() (func(), func(x *vsched.Exec) string) {
				var s string
				return func() { e := a2l.ByteOrderEnum(b); s = e.String() }, func(x *vsched.Exec) string {
					if s != b {
						return fmt.Sprintf("%s is called %q", b, s)
					}
					return ""
				}
			})
		}
	}
}

// ---- C18

func clean(c *Ctx) {
	judge := func(x *vsched.Exec) string {
		silence()
		c.gc()
		if len(x.Blocked) > 0 {
			return "a goroutine stays blocked after the call: " + strings.Join(x.Blocked, ", ")
		}
		return ""
	}
	readA := func(in *Input) mkFn {
		return func() (func(), func(x *vsched.Exec) string) {
			p := c.putInput(in, "in.a2l")
			var err error
			return func() { _, err = a2l.ParseFromFile(p) }, func(x *vsched.Exec) string { c.outcome(fmt.Sprint(err)); return judge(x) }
		}
	}
	readH := func(in *Input) mkFn {
		return func() (func(), func(x *vsched.Exec) string) {
			p := c.putInput(in, "in."+in.F.name())
			var err error
			return func() { _, err = in.F.parse(p) }, func(x *vsched.Exec) string { c.outcome(fmt.Sprint(err)); return judge(x) }
		}
	}
	readC := func(a, h *Input) mkFn {
		return func() (func(), func(x *vsched.Exec) string) {
			ap, hp := c.putInput(a, "in.a2l"), c.putInput(h, "in."+h.F.name())
			return func() { calibrationReader.ReadCalibration(ap, hp) }, judge
		}
	}
	as := brokenA2Ls()
	hs := [2][]*Input{brokenHexes(IHex), brokenHexes(SRec)}
	if c.fam("schedules") {
		cap := c.pick(3000, 100000)
		for _, a := range as {
			c.all(func() string { return "a2l-" + a.Name }, cap, readA(a))
		}
		for f := range hs {
			for _, h := range hs[f] {
				c.all(func() string { return Fmt(f).name() + "-" + h.Name }, cap, readH(h))
			}
		}
		for _, a := range a2lInputs() {
			for f := IHex; f <= SRec; f++ {
				for _, h := range hexInputs(f) {
					c.all(func() string { return "cal-" + a.Name + "-" + f.name() + "-" + h.Name }, c.pick(1000, 20000), readC(a, h))
				}
			}
		}
	}
	if c.fam("twins") && c.numCPU > 1 {
		c.twins(func(root *Node) mkFn { return readA(&Input{Name: "n", Text: root.text(), IsA2: true}) }, "")
		// the last parameter, or the end, of each keyword is wrong
		for v, bad := range []string{"?", "/end GROUP", "\"x\""} {
			c.twins(func(root *Node) mkFn {
				t := root.toks()
				for i := range t {
					if i+1 < len(t) && t[i].Par != -1 && t[i+1].Par == -1 && t[i].Node.KW != "MODULE" && t[i].Node.KW != "PROJECT" {
						t[i].Text = bad
					}
				}
				return readA(&Input{Name: "n", Text: text(t), IsA2: true})
			}, fmt.Sprint("-bad", v))
		}
	}
	// everything the formats have, read by several goroutines at once: the race detector's build looks at these too
	if c.fam("features") {
		hex := func(f Fmt, name, text string) {
			c.one(func() string { return f.name() + "-" + name }, readH(&Input{Name: "n", Text: text, F: f}))
		}
		writings := []struct {
			name string
			do   func(string) string
		}{
			{"upper", func(t string) string { return t }},
			{"lower", func(t string) string { return strings.ReplaceAll(strings.ToLower(t), "s", "S") }},
			{"mixed", func(t string) string {
				b := []byte(t)
				for i := range b {
					if i%3 == 0 && b[i] >= 'A' && b[i] <= 'F' {
						b[i] += 32
					}
				}
				return string(b)
			}},
			{"crlf", func(t string) string { return strings.ReplaceAll(t, "\n", "\r\n") }},
			{"blank", func(t string) string { return strings.ReplaceAll(t, "\n", "\n\n") }},
			{"noend", strings.TrimSpace},
			{"nothex", func(t string) string {
				l := strings.Split(t, "\n")
				for i := range l {
					if len(l[i]) > 12 {
						l[i] = l[i][:10] + "Gg" + l[i][12:]
					}
				}
				return strings.Join(l, "\n")
			}},
			{"short", func(t string) string {
				l := strings.Split(t, "\n")
				for i := range l {
					l[i] = l[i][:len(l[i])*2/3]
				}
				return strings.Join(l, "\n")
			}},
			{"long", func(t string) string { return strings.ReplaceAll(t, "\n", "00\n") }},
			{"odd", func(t string) string { return strings.ReplaceAll(t, "\n", "0\n") }},
			{"sums", func(t string) string {
				l := strings.Split(t, "\n")
				for i := range l {
					l[i] = damageChecksum(l[i])
				}
				return strings.Join(l, "\n")
			}},
			{"mark", func(t string) string { return strings.NewReplacer(":", ";", "S", "T").Replace(t) }},
			{"type", func(t string) string { return strings.NewReplacer("S3", "S4").Replace(t) }},
		}
		for f := IHex; f <= SRec; f++ {
			var recs []Rec
			kinds := "0123456789"
			if f == IHex {
				kinds = "012345"
			}
			for rep := 0; rep < 6; rep++ {
				for i, k := range kinds {
					r := Rec{Kind: byte(k), Addr: uint32(rep*0x400 + i*0x20), Data: fill(6+rep, i+rep)}
					switch {
					case f == IHex && (k == '2' || k == '4'):
						r.Addr, r.Data = 0, []byte{byte(rep), byte(i)}
					case f == IHex && (k == '3' || k == '5'):
						r.Addr, r.Data = 0, []byte{1, 2, 3, 4}
					case f == IHex && k == '1':
						r.Addr, r.Data = 0, nil
					case f == SRec && k >= '5':
						r.Data = nil
					}
					recs = append(recs, r)
				}
			}
			var noEnd, data, long, same []Rec
			for _, r := range recs {
				if f == SRec || r.Kind != '1' {
					noEnd = append(noEnd, r)
				}
			}
			for i := 0; i < 40; i++ {
				data = append(data, dataRecs(f, uint32(i)<<16, 2)...)
				long = append(long, Rec{[]byte{'0', '3'}[f], uint32(i) * 256, fill([]int{255, 250}[f], i)})
				same = append(same, Rec{[]byte{'0', '3'}[f], 0x1234, fill(16, 0)})
			}
			for _, set := range []struct {
				name string
				r    []Rec
			}{{"all", recs}, {"noend", noEnd}, {"data", data}, {"long", long}, {"same", same}} {
				for _, wr := range writings {
					hex(f, set.name+"-"+wr.name, wr.do(f.text(set.r, "\n", true)))
				}
			}
		}
		// a2l: every keyword with all of its options, three times in a module and in three modules; then the same
		// with one kind of mistake everywhere
		mistakes := []struct {
			name string
			do   func(t []Tok)
		}{
			{"good", func([]Tok) {}},
			{"comments", func(t []Tok) {
				for i := range t {
					t[i].Text = []string{"/* a */ ", "// b\n", "/* c\n*/", ""}[i%4] + t[i].Text
				}
			}},
			{"lines", func(t []Tok) {
				for i := range t {
					if strings.HasPrefix(t[i].Text, `"`) {
						t[i].Text = `"two ` + "\n // lines" + `"`
					}
				}
			}},
			{"words", func(t []Tok) {
				for i := range t {
					if t[i].Par >= 0 && i%3 == 0 {
						t[i].Text = "?"
					}
				}
			}},
			{"ends", func(t []Tok) {
				for i := range t {
					if strings.HasPrefix(t[i].Text, "/end ") && t[i].Node.KW != "MODULE" && t[i].Node.KW != "PROJECT" {
						t[i].Text = ""
					}
				}
			}},
			{"keywords", func(t []Tok) {
				for i := range t {
					if t[i].Par >= 0 && i%4 == 0 {
						t[i].Text = "MATRIX_DIM"
					}
				}
			}},
			{"unknown", func(t []Tok) {
				for i := range t {
					if t[i].Par == -1 && i%5 == 0 && !strings.HasPrefix(t[i].Text, "/") {
						t[i].Text = "NOT_A_KEYWORD"
					}
				}
			}},
			{"quotes", func(t []Tok) {
				for i := range t {
					if strings.HasPrefix(t[i].Text, `"`) && i%7 == 0 {
						t[i].Text = `"open`
					}
				}
			}},
		}
		c.fullFiles(func(name string, mk func() *Node) {
			for _, mis := range mistakes {
				c.one(func() string { return name + "-" + mis.name }, lazy(func() mkFn {
					t := append([]Tok(nil), mk().toks()...)
					mis.do(t)
					return readA(&Input{Name: "n", Text: text(t), IsA2: true})
				}))
			}
		})
	}
	// more objects, of one kind or of all, and more records than any buffer between the goroutines holds
	if c.fam("many") {
		sizes := []int{9, 11, 99, 101, 250, 1001, 2300, 5000}
		kinds := objectKinds()
		for _, k := range kinds {
			if !k.Rep {
				continue
			}
			for _, n := range sizes {
				if n == 5000 && !c.thorough() && k.KW != "MEASUREMENT" && k.KW != "CHARACTERISTIC" {
					continue
				}
				for v := 0; v < 2; v++ {
					c.one(func() string { return fmt.Sprintf("%s-%d-%d", k.KW, n, v) }, lazy(func() mkFn {
						g := newGen()
						root, m := g.file()
						for i := 0; i < n; i++ {
							g.object(m, k.Spec, 0)
						}
						t := root.toks()
						if v == 1 {
							// all of them are wrong
							for i := range t {
								if t[i].Node.KW == k.KW && strings.HasPrefix(t[i].Text, "/end ") {
									t[i].Text = "/end WRONG"
								}
							}
						}
						return readA(&Input{Name: "n", Text: text(t), IsA2: true})
					}))
				}
			}
		}
		for _, n := range sizes {
			c.one(func() string { return fmt.Sprint("mixed-", n) }, lazy(func() mkFn {
				return readA(&Input{Name: "n", Text: smallA2L(0, 1, n).text(), IsA2: true})
			}))
			for f := IHex; f <= SRec; f++ {
				l := strings.Split(strings.TrimSpace(goodHex(f, "", 0x10000, n).Text), "\n")
				for v := 0; v < 5; v++ {
					c.one(func() string { return fmt.Sprintf("%s-%d-%d", f.name(), n, v) }, lazy(func() mkFn {
						u := append([]string(nil), l...)
						for i := range u {
							switch v {
							case 1:
								u[i] = damageChecksum(u[i])
							case 2:
								u[i] = l[len(l)/2]
							case 3:
								u[i] = l[i][1:]
							case 4:
								u[i] = l[i][:len(l[i])-2]
							}
						}
						return readH(&Input{Name: "n", Text: strings.Join(u, "\n"), F: f})
					}))
				}
			}
		}
	}
	// larger files, one schedule each
	if c.fam("large") {
		for n := 0; n < c.pick(60, 300); n++ {
			for mods := 1; mods <= 2; mods++ {
				root := smallA2L(n, mods, n)
				t := root.toks()
				for v := 0; v < 6; v++ {
					c.one(func() string { return fmt.Sprintf("a2l-%d-%d-%d", n, mods, v) }, lazy(func() mkFn {
						u := append([]Tok(nil), t...)
						if v > 0 {
							// one token replaced
							u[(v*len(u)/6+n)%len(u)].Text = []string{"/end MODULE", "?", "/begin GROUP", "\"", "/end GROUP"}[v-1]
						}
						return readA(&Input{Name: "n", Text: text(u), IsA2: true})
					}))
				}
			}
			for f := IHex; f <= SRec; f++ {
				l := strings.Split(strings.TrimSpace(goodHex(f, "", 0x10000, n*3+2).Text), "\n")
				for v := 0; v < 5; v++ {
					c.one(func() string { return fmt.Sprintf("%s-%d-%d", f.name(), n, v) }, lazy(func() mkFn {
						u := append([]string(nil), l...)
						k := (v * len(u) / 5) % len(u)
						switch v {
						case 1:
							u[k] = damageChecksum(u[k])
						case 2:
							u[k] = "garbage"
						case 3:
							u[k] = u[(k+1)%len(u)]
						case 4:
							for i := range u {
								u[i] = damageChecksum(u[i])
							}
						}
						return readH(&Input{Name: "n", Text: strings.Join(u, "\n"), F: f})
					}))
				}
			}
		}
	}
}

// brokenA2Ls are small files that fail in every stage of reading, and some that do not.
func brokenA2Ls() []*Input {
	var out []*Input
	add := func(name, text string) { out = append(out, &Input{Name: name, Text: text, IsA2: true}) }
	out = append(out, &Input{Name: "missing", Kind: "missing", IsA2: true}, &Input{Name: "dir", Kind: "dir", IsA2: true})
	add("empty", "")
	for _, n := range []int{0, 1, 2, 3, 5} {
		for mods := 1; mods <= 2; mods++ {
			root := smallA2L(0, mods, n)
			txt := root.text()
			id := fmt.Sprintf("%d-%d-", n, mods)
			add(id+"good", txt)
			add(id+"cut", txt[:len(txt)-20])
			add(id+"half", txt[:len(txt)/2])
			add(id+"quote", strings.Replace(txt, "/end MODULE", "\" /end MODULE", 1))
			add(id+"comment", strings.Replace(txt, "/end MODULE", "/* /end MODULE", 1))
			add(id+"stray", strings.Replace(txt, "/end MODULE", "/end GROUP\n/end MODULE", 1))
			add(id+"a2ml", strings.Replace(txt, "/end MODULE", "/begin A2ML\n x\n/end MODULE", 1))
			// an error in each object, and in all of them
			t := root.toks()
			all := append([]Tok(nil), t...)
			k := 0
			for i := range t {
				if strings.HasPrefix(t[i].Text, "/end ") && t[i].Node.KW != "MODULE" && t[i].Node.KW != "PROJECT" {
					u := append([]Tok(nil), t...)
					u[i].Text = "/end WRONG"
					all[i].Text = "/end WRONG"
					add(id+fmt.Sprint("obj", k), text(u))
					k++
				}
			}
			if k > 1 {
				add(id+"objall", text(all))
			}
		}
	}
	return out
}

// brokenHexes are small files with damage and collisions in every place.
func brokenHexes(f Fmt) []*Input {
	out := []*Input{{Name: "missing", Kind: "missing", F: f}, {Name: "dir", Kind: "dir", F: f}, {Name: "empty", F: f}, {Name: "blank", Text: "\n\n\n", F: f}}
	add := func(name string, l []string) {
		out = append(out, &Input{Name: name, Text: strings.Join(l, "\n") + "\n", F: f})
	}
	for _, n := range []int{1, 2, 3, 4, 6} {
		l := strings.Split(strings.TrimSpace(goodHex(f, "", 0x10000, n).Text), "\n")
		id := fmt.Sprint(n, "-")
		add(id+"good", l)
		all := append([]string(nil), l...)
		for i := range l {
			u := append([]string(nil), l...)
			u[i] = damageChecksum(u[i])
			all[i] = u[i]
			add(id+fmt.Sprint("dam", i), u)
			u = append([]string(nil), l...)
			u[i] = "x"
			add(id+fmt.Sprint("x", i), u)
			u = append(append([]string(nil), l...), l[i])
			add(id+fmt.Sprint("twice", i), u)
		}
		add(id+"all", all)
		add(id+"double", append(append([]string(nil), l[:len(l)-1]...), l...))
		for i := range all {
			all[i] = "zz"
		}
		add(id+"garbage", all)
	}
	return out
}
