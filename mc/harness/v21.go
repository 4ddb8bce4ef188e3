//go:build v21

package main

import (
	"bytes"
	"fmt"
	"strings"

	cal "github.com/asap2Go/calibrationReader"
	"github.com/asap2Go/calibrationReader/a2l"
)

func init() { props["C21"] = components }

// comp is a component of a record layout.
type comp struct {
	name, kw string
	kind     byte // n number, a axis, f function value, i identification, r reserved
}

var comps = func() []comp {
	var cs []comp
	for _, k := range []struct {
		n, kw string
		kind  byte
	}{{"AxisPts", "AXIS_PTS_", 'a'}, {"NoAxisPts", "NO_AXIS_PTS_", 'n'}, {"DistOp", "DIST_OP_", 'n'}, {"Offset", "OFFSET_", 'n'}, {"ShiftOp", "SHIFT_OP_", 'n'}} {
		for _, a := range []string{"X", "Y", "Z", "4", "5"} {
			cs = append(cs, comp{k.n + a, k.kw + a, k.kind})
		}
	}
	return append(cs, comp{"NoRescaleX", "NO_RESCALE_X", 'n'}, comp{"Identification", "IDENTIFICATION", 'i'}, comp{"Reserved", "RESERVED", 'r'}, comp{"FncValues", "FNC_VALUES", 'f'})
}()

var dataSizes = []struct {
	n string
	b uint32
}{{"BYTE", 1}, {"WORD", 2}, {"LONG", 4}}

// axisLen is the number of points of the i-th axis.
var axisLen = []int64{2, 3, 5, 1, 4}

// cfg is what the model needs to know about a record layout.
type layoutCfg struct {
	order        order
	rlSet, mcSet int
	rl, mc       []uint32
	typ          []int // datatype of each component, -1: not there
	fix          bool
	sizeOf       int
}

func (l *layoutCfg) align(a uint32, d datatype) uint32 {
	return alignUp(a, border(d.class, l.rlSet, l.rl, l.mcSet, l.mc))
}

func (l *layoutCfg) component(i int, pos int) string {
	k := comps[i]
	d := datatypes[l.typ[i]].name
	switch k.kind {
	case 'a':
		return fmt.Sprintf("%s %d %s INDEX_INCR DIRECT\n", k.kw, pos, d)
	case 'f':
		return fmt.Sprintf("%s %d %s COLUMN_DIR DIRECT\n", k.kw, pos, d)
	case 'r':
		return fmt.Sprintf("%s %d %s\n", k.kw, pos, dataSizes[l.sizeOf].n)
	}
	return fmt.Sprintf("%s %d %s\n", k.kw, pos, d)
}

func (l *layoutCfg) text(name string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "/begin RECORD_LAYOUT %s %s\n", name, bordersText(l.rlSet, l.rl))
	for i := range comps {
		if l.typ[i] >= 0 {
			b.WriteString(l.component(i, i+1))
		}
	}
	if l.fix {
		for i, a := range []string{"X", "Y", "Z", "4", "5"} {
			fmt.Fprintf(&b, "FIX_NO_AXIS_PTS_%s %d\n", a, axisLen[i])
		}
	}
	b.WriteString("/end RECORD_LAYOUT\n")
	return b.String()
}

// step calls the reader of component i at *pos and compares what it does with the model. noPts: the number of axis
// points read before, for axes whose number is not fixed.
func (l *layoutCfg) step(cd *cal.CalibrationData, rl *a2l.RecordLayout, i int, pos *uint32, mem func(a uint32) (byte, bool), noPts int64) string {
	k := comps[i]
	p := *pos
	start := p
	var nums []float64
	var raw []byte
	fails := l.typ[i] < 0
	n := int64(1)
	if k.kind == 'a' {
		n = noPts
		if l.fix {
			n = axisLen[i]
		}
		fails = fails || n <= 0
	}
	if !fails {
		if k.kind == 'r' {
			p += dataSizes[l.sizeOf].b
		} else {
			d := datatypes[l.typ[i]]
			for ; n > 0 && !fails; n-- {
				p = l.align(p, d)
				raw = nil
				for j := 0; j < d.size; j++ {
					b, ok := mem(p)
					fails = fails || !ok
					raw = append(raw, b)
					p++
				}
				nums = append(nums, number(raw, d, l.order.little))
			}
			fails = fails || l.order.bad && k.kind != 'i'
		}
	}
	var err error
	var got, want string
	switch k.kind {
	case 'n':
		var v int64
		v, err = cal.VerifGetters[k.name](cd, rl, pos)
		got = fmt.Sprint(v)
		if !fails {
			want = got
			if f := nums[0]; f > -9.2e18 && f < 9.2e18 {
				want = fmt.Sprint(int64(f))
			}
		}
	case 'a':
		var v []float64
		v, err = cal.VerifAxes[k.name](cd, rl, pos, noPts)
		got, want = fmt.Sprint(v), fmt.Sprint(nums)
	case 'f':
		var v float64
		var b []byte
		v, b, err = cal.VerifFnc1(cd, rl, pos)
		got = fmt.Sprint(v, b)
		if !fails {
			want = fmt.Sprint(nums[0], raw)
		}
	case 'i':
		var v interface{}
		v, err = cal.VerifIdentification(cd, rl, pos)
		b, isB := v.([]byte)
		got, want = fmt.Sprint(b), fmt.Sprint(raw)
		if !fails && !isB && err == nil || !fails && !bytes.Equal(b, raw) {
			got = fmt.Sprintf("%T %v", v, v)
		}
	case 'r':
		err = cal.VerifReserved(cd, rl, pos)
	}
	d := "-"
	if l.typ[i] >= 0 {
		d = datatypes[l.typ[i]].name
	}
	where := func() string {
		return fmt.Sprintf("%s (%s, %s, alignment %s/ %s) at %#x", k.name, d, l.order.name, bordersText(l.rlSet, l.rl), bordersText(l.mcSet, l.mc), start)
	}
	if fails {
		if err == nil {
			return where() + ": no error, but " + got
		}
		*pos = start
		return ""
	}
	if err != nil {
		return where() + ": " + err.Error()
	}
	if got != want {
		return where() + ": " + got + " instead of " + want
	}
	if *pos != p {
		return fmt.Sprintf("%s: the cursor is at %#x instead of %#x", where(), *pos, p)
	}
	return ""
}

// memories are images: every byte a function of its address.
var memories = []func(a uint32) byte{
	func(a uint32) byte { return 0x40 + byte(a*a*7+a*3+a>>2)&3 },
	func(a uint32) byte { return byte(a*37+a>>3*11) & 63 },
	func(a uint32) byte { return byte(a*151 + a*a*29 + 17) },
}

func image(m int, base uint32, n int, hole int) map[uint32]byte {
	h := map[uint32]byte{}
	for i := 0; i < n; i++ {
		if i != hole {
			h[base+uint32(i)] = memories[m](base + uint32(i))
		}
	}
	return h
}

func components(c *Ctx) {
	primes := []uint32{3, 5, 7, 11, 13, 17, 19}
	ones := []uint32{1, 1, 1, 1, 1, 1, 1}
	pow := []uint32{2, 4, 8, 16, 4, 8, 16}
	type al struct {
		rlSet, mcSet int
		rl, mc       []uint32
	}
	als := []al{{0, 0, ones, ones}, {127, 0, ones, ones}, {127, 127, primes, pow}, {0, 127, ones, pow}, {0x55, 0x33, primes, pow}}
	types := func(shift, stride int) []int {
		t := make([]int, len(comps))
		for i := range t {
			t[i] = (i*(1+stride) + 3*(i/11) + stride*(i/5) + shift) % 11
		}
		return t
	}
	// read: one text per order and alignment, with a layout for each assignment of types
	run := func(depth int, name string, os []order, as []al, mems []int, starts []uint32) {
		for oi, o := range os {
			for ai, a := range as {
				for fix := 0; fix < 2; fix++ {
					var ls []*layoutCfg
					var b strings.Builder
					for stride := 0; stride < 2; stride++ {
						for s := 0; s < 11; s++ {
							l := &layoutCfg{order: o, rlSet: a.rlSet, mcSet: a.mcSet, rl: a.rl, mc: a.mc, typ: types(s, stride), fix: fix == 1, sizeOf: s % 3}
							b.WriteString(l.text(fmt.Sprint("r", len(ls))))
							ls = append(ls, l)
						}
					}
					other := orders[1]
					if o.little {
						other = orders[0]
					}
					text := projectText(moduleText("m0", "BYTE_ORDER "+o.name+" "+bordersText(a.mcSet, a.mc), b.String()),
						moduleText("m1", "BYTE_ORDER "+other.name+" "+bordersText(127, []uint32{23, 29, 31, 37, 41, 43, 47}), b.String()),
						moduleText("m2", "BYTE_ORDER "+o.name+" "+bordersText(a.mcSet, a.mc), b.String()))
					for li := range ls {
						for _, mi := range mems {
							li, mi, oi, ai, fix := li, mi, oi, ai, fix
							c.one(func() string { return fmt.Sprintf("%s%d/al%d/fix%d/types%d/mem%d", name, oi, ai, fix, li, mi) }, c.valueCase(text, func(cd *cal.CalibrationData, tick func(string) bool) {
								module := (li % 2) * 2
								cd.ModuleIndex = uint8(module)
								l := ls[li]
								rl := cd.A2l.Project.Modules[module].RecordLayouts[fmt.Sprint("r", li)]
								bases, size := []uint32{0, 0x8000fff0}, 1200
								if depth == 1 && a.rlSet == 127 && a.mcSet == 0 {
									// the last bytes of the address space
									bases = append(bases, 0xffffffd8)
								}
								for _, base := range bases {
									if base > 0xffffff00 {
										size = int(-base)
									}
									cd.Hex = image(mi, base, size, -1)
									mem := func(a uint32) (byte, bool) { b, ok := cd.Hex[a]; return b, ok }
									var rec func(n int, pos uint32) bool
									rec = func(n int, pos uint32) bool {
										if n == 0 {
											return true
										}
										for i := range comps {
											p := pos
											np := int64(0)
											if comps[i].kind == 'a' {
												np = axisLen[(i+n)%5]
											}
											if !tick(l.step(cd, &rl, i, &p, mem, np)) {
												return false
											}
											if !rec(n-1, p) {
												return false
											}
										}
										return true
									}
									for _, s := range starts {
										if !rec(depth, base+s) {
											return
										}
									}
								}
							}))
						}
					}
				}
			}
		}
	}
	all := func(n int) []uint32 {
		var s []uint32
		for i := 0; i < n; i++ {
			s = append(s, uint32(i))
		}
		return s
	}
	if c.fam("one") {
		run(1, "", orders, als, []int{0, 1, 2}, all(40))
	}
	if c.fam("two") {
		run(2, "", orders[:2], als, []int{0, 2}, all(c.pick(4, 9)))
	}
	if c.fam("three") && c.thorough() {
		run(3, "", orders[:2], als[2:4], []int{0}, all(3))
	}
	// a component that the layout does not have
	if c.fam("missing") {
		for _, o := range orders[:2] {
			for i := range comps {
				o, i := o, i
				l := &layoutCfg{order: o, rl: ones, mc: ones, typ: types(i, 0), fix: true}
				l.typ[i] = -1
				e := &layoutCfg{order: o, rl: ones, mc: ones, typ: make([]int, len(comps)), fix: i%2 == 0}
				for j := range e.typ {
					e.typ[j] = -1
				}
				c.one(func() string { return o.name + "/" + comps[i].name }, c.valueCase(projectText(moduleText("m", "BYTE_ORDER "+o.name, l.text("r")+e.text("e"))), func(cd *cal.CalibrationData, tick func(string) bool) {
					cd.Hex = image(1, 0, 600, -1)
					mem := func(a uint32) (byte, bool) { b, ok := cd.Hex[a]; return b, ok }
					for _, x := range []struct {
						l *layoutCfg
						n string
					}{{l, "r"}, {e, "e"}} {
						rl := cd.A2l.Project.Modules[0].RecordLayouts[x.n]
						for s := uint32(0); s < 8; s++ {
							for j := range comps {
								p := s
								if !tick(x.l.step(cd, &rl, j, &p, mem, 2)) {
									return
								}
							}
						}
					}
				}))
			}
		}
	}
	// a byte that is not in the image; the number of points of an axis
	if c.fam("holes") {
		for _, o := range orders[:2] {
			for s := 0; s < 11; s++ {
				for fix := 0; fix < 2; fix++ {
					o, s, fix := o, s, fix
					l := &layoutCfg{order: o, rl: ones, mc: ones, typ: types(s, 0), fix: fix == 1, sizeOf: s % 3}
					c.one(func() string { return fmt.Sprint(o.name, "/", s, "/", fix) }, c.valueCase(projectText(moduleText("m", "BYTE_ORDER "+o.name, l.text("r"))), func(cd *cal.CalibrationData, tick func(string) bool) {
						rl := cd.A2l.Project.Modules[0].RecordLayouts["r"]
						for hole := 0; hole < 60; hole++ {
							cd.Hex = image(1, 0, 400, hole)
							mem := func(a uint32) (byte, bool) { b, ok := cd.Hex[a]; return b, ok }
							for st := uint32(0); st < 10; st++ {
								for i := range comps {
									for np := int64(-2); np < 8; np++ {
										if comps[i].kind != 'a' && np != 1 {
											continue
										}
										p := st
										if !tick(l.step(cd, &rl, i, &p, mem, np)) {
											return
										}
									}
								}
							}
						}
					}))
				}
			}
		}
	}
	// any number of points, fixed or read before
	if c.fam("points") {
		for _, n := range []int64{1, 2, 3, 7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 4095, 4096, 32767, 32768, 65534, 65535} {
			for fix := 0; fix < 2; fix++ {
				n, fix := n, fix
				var b strings.Builder
				for s := 0; s < 11; s++ {
					fmt.Fprintf(&b, "/begin RECORD_LAYOUT r%d\n", s)
					for i, a := range []string{"X", "Y", "Z", "4", "5"} {
						fmt.Fprintf(&b, "AXIS_PTS_%s %d %s INDEX_INCR DIRECT\n", a, i+1, datatypes[(s+i)%11].name)
						if fix == 1 {
							fmt.Fprintf(&b, "FIX_NO_AXIS_PTS_%s %d\n", a, n)
						}
					}
					b.WriteString("/end RECORD_LAYOUT\n")
				}
				c.one(func() string { return fmt.Sprint(n, "/", fix) }, c.valueCase(projectText(moduleText("m", "BYTE_ORDER MSB_LAST", b.String())), func(cd *cal.CalibrationData, tick func(string) bool) {
					cd.Hex = image(2, 0, int(n)*8+16, -1)
					for s := 0; s < 11; s++ {
						if n > 5000 && s%4 != 0 {
							continue
						}
						rl := cd.A2l.Project.Modules[0].RecordLayouts[fmt.Sprint("r", s)]
						for i := 0; i < 5; i++ {
							d := datatypes[(s+i)%11]
							pos := uint32(0)
							np := n
							if fix == 1 {
								np = 1
							}
							v, err := cal.VerifAxes[comps[i].name](cd, &rl, &pos, np)
							m := ""
							if err != nil || len(v) != int(n) || pos != uint32(n)*uint32(d.size) {
								m = fmt.Sprintf("%s with %d points of %s: %d points, cursor %d, %v", comps[i].name, n, d.name, len(v), pos, err)
							}
							raw := make([]byte, 8)
							for k := range v {
								if m != "" {
									break
								}
								for j := 0; j < d.size; j++ {
									raw[j] = memories[2](uint32(k*d.size + j))
								}
								if w := number(raw, d, true); !sameFloat(v[k], w) {
									m = fmt.Sprintf("%s with %d points of %s: point %d is %v instead of %v", comps[i].name, n, d.name, k, v[k], w)
								}
							}
							if !tick(m) {
								return
							}
						}
					}
				}))
			}
		}
	}
	characteristics(c)
}

// characteristics reads whole characteristics: the components lie in memory in the order of their positions.
func characteristics(c *Ctx) {
	ones := []uint32{1, 1, 1, 1, 1, 1, 1}
	pow := []uint32{2, 4, 8, 16, 4, 8, 16}
	base := uint32(0x1230)
	small := func(a uint32) byte { return byte(a*5+a>>2)%3 + 1 }
	type chr struct {
		l    *layoutCfg
		seq  []int // components in the order of their positions
		pos  []int
		text []int // in the order of the text
		name string
		addr uint32
	}
	mk := func(n int, o order, seq []int, pos []int, text []int, shift int, aligned bool) *chr {
		l := &layoutCfg{order: o, rl: ones, mc: pow, typ: make([]int, len(comps)), fix: shift%2 == 0, sizeOf: shift % 3}
		if aligned {
			l.mcSet = 127
		}
		for i := range l.typ {
			l.typ[i] = -1
		}
		for k, i := range seq {
			l.typ[i] = (i*3 + k*5 + shift) % 11
			if strings.HasPrefix(comps[i].name, "NoAxisPts") {
				l.typ[i] = shift % 2 // a byte: what it holds is a number of points
			}
		}
		return &chr{l: l, seq: seq, pos: pos, text: text, name: fmt.Sprint("c", n), addr: base + uint32(shift%7)}
	}
	textOf := func(x *chr) string {
		var b strings.Builder
		fmt.Fprintf(&b, "/begin RECORD_LAYOUT r%s\n", x.name)
		for _, t := range x.text {
			b.WriteString(x.l.component(x.seq[t], x.pos[t]))
		}
		if x.l.fix {
			for i, a := range []string{"X", "Y", "Z", "4", "5"} {
				fmt.Fprintf(&b, "FIX_NO_AXIS_PTS_%s %d\n", a, axisLen[i])
			}
		}
		fmt.Fprintf(&b, "/end RECORD_LAYOUT\n/begin CHARACTERISTIC %s \"\" VALUE 0x%X r%s 0 NO_COMPU_METHOD 0 1 /end CHARACTERISTIC\n", x.name, x.addr, x.name)
		return b.String()
	}
	judge := func(cd *cal.CalibrationData, x *chr) string {
		m := cd.A2l.Project.Modules[0]
		ch, rl := m.Characteristics[x.name], m.RecordLayouts["r"+x.name]
		want := map[string]string{}
		p := x.addr
		pts := map[string]int64{}
		for _, i := range x.seq {
			k := comps[i]
			if k.kind == 'r' {
				p += dataSizes[x.l.sizeOf].b
				continue
			}
			d := datatypes[x.l.typ[i]]
			n := int64(1)
			if k.kind == 'a' {
				n = axisLen[i]
				if !x.l.fix {
					n = pts["NoAxisPts"+k.name[7:]]
				}
			}
			var nums []float64
			var raw []byte
			for ; n > 0; n-- {
				p = x.l.align(p, d)
				raw = nil
				for j := 0; j < d.size; j++ {
					raw = append(raw, cd.Hex[p])
					p++
				}
				nums = append(nums, number(raw, d, x.l.order.little))
			}
			switch k.kind {
			case 'n':
				want[k.name] = fmt.Sprint(int64(nums[0]))
				pts[k.name] = int64(nums[0])
			case 'a':
				want[k.name] = fmt.Sprint(nums)
			case 'i':
				want[k.name] = fmt.Sprint(raw)
			}
		}
		got := cal.VerifValues(cd, &ch, &rl)
		for k, w := range want {
			if g := fmt.Sprint(got[k]); g != w {
				return fmt.Sprintf("characteristic with the record layout\n%s: %s is %s instead of %s", textOf(x), k, g, w)
			}
		}
		return ""
	}
	// usable: the number of points of every axis is known when it is read, the function values are not read
	usable := func(x *chr) bool {
		seen := map[string]bool{}
		for _, i := range x.seq {
			k := comps[i]
			if k.kind == 'f' {
				return false
			}
			if k.kind == 'a' && !x.l.fix && !seen["NoAxisPts"+k.name[7:]] {
				return false
			}
			seen[k.name] = true
		}
		return true
	}
	flush := func(o order, name string, aligned bool, xs []*chr) {
		var b strings.Builder
		for _, x := range xs {
			b.WriteString(textOf(x))
		}
		common := "BYTE_ORDER " + o.name
		if aligned {
			common += " " + bordersText(127, pow)
		}
		c.one(func() string { return name }, c.valueCase(projectText(moduleText("m", common, b.String())), func(cd *cal.CalibrationData, tick func(string) bool) {
			cd.Hex = map[uint32]byte{}
			for i := uint32(0); i < 2000; i++ {
				cd.Hex[base+i] = small(base + i)
			}
			for _, x := range xs {
				for k := 0; k < 2; k++ { // twice: nothing of the first reading may be left
					if !tick(judge(cd, x)) {
						return
					}
				}
			}
		}))
	}
	if c.fam("characteristics") {
		n, shift := 0, 0
		for _, o := range orders[:2] {
			for _, aligned := range []bool{false, true} {
				var xs []*chr
				add := func(x *chr) {
					if usable(x) {
						xs = append(xs, x)
						n++
					}
				}
				out := func(force bool) {
					if len(xs) >= 100 || force && len(xs) > 0 {
						flush(o, fmt.Sprintf("%s/%v/%d", o.name, aligned, n), aligned, xs)
						xs = nil
					}
				}
				for i := range comps {
					for j := range comps {
						if i == j {
							continue
						}
						// positions in the order of the text and against it, adjacent and apart
						for v := 0; v < 7; v++ {
							shift++
							pos := [][]int{{1, 2}, {2, 1000}, {9, 10}, {255, 256}, {32767, 32768}, {1, 65535}, {0, 1}}[v]
							txt := [][]int{{0, 1}, {1, 0}, {1, 0}, {0, 1}, {0, 1}, {1, 0}, {1, 0}}[v]
							add(mk(n, o, []int{i, j}, pos, txt, shift, aligned))
							out(false)
						}
					}
				}
				// an axis behind its number of points, with something in between
				for _, a := range []int{0, 1, 2, 3, 4} {
					for k := range comps {
						if k == a || k == a+5 {
							continue
						}
						for v := 0; v < 3; v++ {
							shift += 2
							s := [][]int{{a + 5, k, a}, {k, a + 5, a}, {a + 5, a, k}}[v]
							add(mk(n, o, s, []int{3, 7, 11}, [][]int{{2, 1, 0}, {0, 2, 1}, {1, 0, 2}}[v], 1+shift&^1, aligned))
							out(false)
						}
					}
				}
				// all components, in rotations and reverse
				for r := 0; r < 28; r++ {
					for v := 0; v < 2; v++ {
						var s, pos, txt []int
						for i := 0; i < 28; i++ {
							k := (i + r) % 28
							if v == 1 {
								k = 27 - k
							}
							s = append(s, k)
							pos = append(pos, 2*i+1+r)
							txt = append(txt, (i*5+r)%28)
						}
						shift++
						if 28%5 == 0 {
							panic("not a permutation")
						}
						add(mk(n, o, s, pos, txt, shift&^1, aligned))
						out(false)
					}
				}
				// as it is common: numbers of points first, then axes
				for r := 0; r < 5; r++ {
					var s, pos, txt []int
					for i := 0; i < 10; i++ {
						k := 5 + (i+r)%5
						if i >= 5 {
							k = (i + 2*r) % 5
						}
						s, pos, txt = append(s, k), append(pos, i+1), append(txt, (i*3+r)%10)
					}
					shift++
					add(mk(n, o, s, pos, txt, shift|1, aligned))
				}
				if c.thorough() {
					for i := range comps {
						for j := range comps {
							for k := range comps {
								if i == j || j == k || i == k {
									continue
								}
								shift++
								txt := [][]int{{0, 1, 2}, {2, 1, 0}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {1, 0, 2}}[shift%6]
								add(mk(n, o, []int{i, j, k}, []int{1, 10, 100}, txt, shift, aligned))
								out(false)
							}
						}
					}
				}
				out(true)
			}
		}
	}
	// nothing to read: no record layout, no address, positions given twice
	if c.fam("unreadable") {
		body := `/begin RECORD_LAYOUT good OFFSET_X 1 UBYTE /end RECORD_LAYOUT
/begin RECORD_LAYOUT twice OFFSET_X 1 UBYTE OFFSET_Y 1 UBYTE /end RECORD_LAYOUT
/begin RECORD_LAYOUT empty /end RECORD_LAYOUT
/begin CHARACTERISTIC c0 "" VALUE 0x1230 none 0 NO_COMPU_METHOD 0 1 /end CHARACTERISTIC
/begin CHARACTERISTIC c1 "" VALUE 0x1230 twice 0 NO_COMPU_METHOD 0 1 /end CHARACTERISTIC
/begin CHARACTERISTIC c2 "" VALUE zz good 0 NO_COMPU_METHOD 0 1 /end CHARACTERISTIC
/begin CHARACTERISTIC c3 "" VALUE 0x1230 empty 0 NO_COMPU_METHOD 0 1 /end CHARACTERISTIC
/begin CHARACTERISTIC c4 "" VALUE 0x9999 good 0 NO_COMPU_METHOD 0 1 /end CHARACTERISTIC
`
		for k := 0; k < 5; k++ {
			k := k
			c.one(func() string { return fmt.Sprint("c", k) }, c.valueCase(projectText(moduleText("m", "BYTE_ORDER MSB_LAST", body)), func(cd *cal.CalibrationData, tick func(string) bool) {
				cd.Hex = map[uint32]byte{}
				for i := uint32(0); i < 200; i++ {
					cd.Hex[base+i], cd.Hex[i] = small(base+i), small(i)
				}
				m := cd.A2l.Project.Modules[0]
				ch := m.Characteristics[fmt.Sprint("c", k)]
				rl := m.RecordLayouts["good"]
				got := cal.VerifValues(cd, &ch, &rl)
				for _, x := range []string{"OffsetX", "OffsetY"} {
					if g := fmt.Sprint(got[x]); g != "0" {
						tick(fmt.Sprintf("%s of a characteristic that cannot be read: %s", x, g))
						return
					}
				}
				tick("")
			}))
		}
	}
}
