//go:build v20

package main

import (
	"bytes"
	"fmt"
	"strings"

	cal "github.com/asap2Go/calibrationReader"
	"github.com/asap2Go/calibrationReader/a2l"
)

func init() { props["C20"] = memory }

func memory(c *Ctx) {
	rlB := []uint32{3, 5, 7, 11, 13, 17, 19}
	mcB := []uint32{23, 29, 31, 37, 41, 43, 47}
	bases := []uint32{0, 0x10000 - 64, 0x7fffffff - 64, 0xfffff000}
	alignOne := func(cd *cal.CalibrationData, a uint32, d datatype, rl *a2l.RecordLayout, b uint32) string {
		if g, w := cal.VerifAlign(cd, a, d.e, rl), alignUp(a, b); g != w {
			return fmt.Sprintf("%s at %#x in record layout %s: aligned to %#x instead of %#x (border %d)", d.name, a, rl.Name, g, w, b)
		}
		return ""
	}
	// every set of alignments of the module with every set of alignments of the record layout
	ones := []uint32{1, 1, 1, 1, 1, 1, 1}
	for bi, bs := range [][2][]uint32{{rlB, mcB}, {ones, mcB}, {rlB, ones}, {{2, 4, 8, 16, 4, 8, 16}, {1, 2, 4, 8, 2, 4, 8}}} {
		rlB, mcB := bs[0], bs[1]
		if c.fam("alignment-sources") {
			var lay strings.Builder
			for rs := 0; rs < 128; rs++ {
				fmt.Fprintf(&lay, "/begin RECORD_LAYOUT r%d %s FNC_VALUES 1 UBYTE COLUMN_DIR DIRECT /end RECORD_LAYOUT\n", rs, bordersText(rs, rlB))
			}
			for ms := 0; ms < 128; ms++ {
				ms := ms
				for _, module := range []int{0, 1} {
					module := module
					if module == 1 && !c.thorough() && ms%8 != 5 {
						continue
					}
					ts := []string{moduleText("m0", bordersText(ms, mcB), lay.String())}
					if module == 1 {
						ts = []string{moduleText("mx", bordersText(127, []uint32{53, 59, 61, 67, 71, 73, 79}), ""), ts[0]}
					}
					c.one(func() string { return fmt.Sprint("borders", bi, "/common", ms, "/module", module) }, c.valueCase(projectText(ts...), func(cd *cal.CalibrationData, tick func(string) bool) {
						cd.ModuleIndex = uint8(module)
						for rs := 0; rs < 128; rs++ {
							rl, ok := cd.A2l.Project.Modules[module].RecordLayouts[fmt.Sprint("r", rs)]
							if !ok {
								tick("record layout lost")
								return
							}
							for _, d := range datatypes {
								b := border(d.class, rs, rlB, ms, mcB)
								for _, base := range bases {
									for i := uint32(0); i < 50; i++ {
										if !tick(alignOne(cd, base+i, d, &rl, b)) {
											return
										}
									}
								}
							}
						}
					}))
				}
			}
		}
	}
	// one alignment with every border
	if c.fam("alignment-borders") {
		max := uint32(c.pick(130, 520))
		for cl := range alignments {
			for _, inLayout := range []bool{true, false} {
				for _, from := range []uint32{1, 256, 65536 - max} {
					cl, inLayout, from := cl, inLayout, from
					var ms []string
					for b := from; b < from+max; b++ {
						bs := []uint32{b, b, b, b, b, b, b}
						common, lay := bordersText(1<<uint(cl), bs), ""
						if inLayout {
							common, lay = "", common
						}
						ms = append(ms, moduleText(fmt.Sprint("m", b-from), common, "/begin RECORD_LAYOUT r "+lay+" FNC_VALUES 1 UBYTE COLUMN_DIR DIRECT /end RECORD_LAYOUT\n"))
					}
					// at most 250 modules: the index of the selected module has 8 bits
					for k := 0; k < len(ms); k += 250 {
						k := k
						hi := k + 250
						if hi > len(ms) {
							hi = len(ms)
						}
						c.one(func() string { return fmt.Sprint(alignments[cl], "/", inLayout, "/", from, "/", k) }, c.valueCase(projectText(ms[k:hi]...), func(cd *cal.CalibrationData, tick func(string) bool) {
							for i := 0; i < hi-k; i++ {
								cd.ModuleIndex = uint8(i)
								rl := cd.A2l.Project.Modules[i].RecordLayouts["r"]
								b := from + uint32(k+i)
								for _, d := range datatypes {
									w := b
									if d.class != cl {
										w = defaultBorder[d.class]
									}
									var as []uint32
									for a := uint32(0); a < 20; a++ {
										as = append(as, a, 0x80000000+a)
									}
									for m := uint32(1); m < 4; m++ {
										as = append(as, m*b-1, m*b, m*b+1, m*b+b/2, 0x70000000/b*b, 0x70000000/b*b+1, 0x70000000/b*b-1)
									}
									for _, a := range as {
										if !tick(alignOne(cd, a, d, &rl, w)) {
											return
										}
									}
								}
							}
						}))
					}
				}
			}
		}
	}
	// which bytes there are: every subset of a window, every start and length
	if c.fam("bytes") {
		win := c.pick(10, 12)
		for _, base := range []uint32{0, 0xfffb, 0x7ffffffa, 0xffffff00, 0xffffffff - uint32(win) + 1} {
			for part := 0; part < 8; part++ {
				base, part := base, part
				c.one(func() string { return fmt.Sprintf("%x/%d", base, part) }, c.valueCase(projectText(moduleText("m", "", "")), func(cd *cal.CalibrationData, tick func(string) bool) {
					for set := part; set < 1<<uint(win); set += 8 {
						cd.Hex = map[uint32]byte{}
						for i := 0; i < win; i++ {
							if set>>uint(i)&1 == 1 {
								cd.Hex[base+uint32(i)] = byte(i * 37 * (set&3 + 1))
							}
						}
						for s := 0; s < win; s++ {
							for n := 0; n <= win-s; n++ {
								var want []byte
								ok := true
								for i := s; i < s+n; i++ {
									b, there := cd.Hex[base+uint32(i)]
									ok = ok && there
									want = append(want, b)
								}
								got, err := cal.VerifBytes(cd, base+uint32(s), uint32(8*n))
								m := ""
								if ok && (err != nil || !bytes.Equal(got, want)) {
									m = fmt.Sprintf("%d bytes at %#x of the image %v: % x, %v instead of % x", n, base+uint32(s), cd.Hex, got, err, want)
								} else if !ok && err == nil {
									m = fmt.Sprintf("%d bytes at %#x of the image %v: % x although not all exist", n, base+uint32(s), cd.Hex, got)
								}
								if !tick(m) {
									return
								}
							}
						}
					}
				}))
			}
		}
		c.one(func() string { return "bits" }, c.valueCase(projectText(moduleText("m", "", "")), func(cd *cal.CalibrationData, tick func(string) bool) {
			cd.Hex = map[uint32]byte{}
			for i := uint32(0); i < 600; i++ {
				cd.Hex[i] = byte(i*7 + 3)
			}
			for n := uint32(0); n < 4096; n++ {
				got, err := cal.VerifBytes(cd, 5, n)
				m := ""
				if n%8 != 0 && err == nil {
					m = fmt.Sprintf("%d bits: no error, but % x", n, got)
				}
				if n%8 == 0 {
					if err != nil || len(got) != int(n/8) {
						m = fmt.Sprintf("%d bits: % x, %v", n, got, err)
					}
					for i := range got {
						if got[i] != byte((i+5)*7+3) {
							m = fmt.Sprintf("%d bits: % x", n, got)
						}
					}
				}
				if !tick(m) {
					return
				}
			}
		}))
	}
	// the text of an address
	if c.fam("addresses") {
		digits := "0123456789abcdefABCDEF"
		for _, o := range orders {
			o := o
			for n := 1; n <= 8; n++ {
				n := n
				c.one(func() string { return fmt.Sprint(o.name, "/", n) }, c.valueCase(projectText(moduleText("m", "BYTE_ORDER "+o.name, "")), func(cd *cal.CalibrationData, tick func(string) bool) {
					one := func(s []byte) bool {
						var w uint32
						for _, ch := range s {
							i := uint32(strings.IndexByte(digits, ch))
							if i > 15 {
								i -= 6
							}
							w = w<<4 | i
						}
						g, err := cal.VerifAddress(cd, "0x"+string(s))
						m := ""
						if err != nil || g != w {
							m = fmt.Sprintf("0x%s with %s: %#x, %v instead of %#x", s, o.name, g, err, w)
						}
						return tick(m)
					}
					// every text of up to three digits; longer ones: every pair of positions on three backgrounds
					if n <= 3 {
						total := 1
						for i := 0; i < n; i++ {
							total *= len(digits)
						}
						for v := 0; v < total; v++ {
							s := make([]byte, n)
							for i, x := 0, v; i < n; i++ {
								s[i] = digits[x%len(digits)]
								x /= len(digits)
							}
							if !one(s) {
								return
							}
						}
						return
					}
					for _, bg := range []string{"00000000", "12345678", "ffffffff", "80A0c0E0"} {
						for i := 0; i < n; i++ {
							for j := i; j < n; j++ {
								for _, x := range digits {
									for _, y := range digits {
										s := []byte(bg[:n])
										s[i], s[j] = byte(x), byte(y)
										if !one(s) {
											return
										}
									}
								}
							}
						}
					}
				}))
			}
			c.one(func() string { return fmt.Sprint(o.name, "/broken") }, c.valueCase(projectText(moduleText("m", "BYTE_ORDER "+o.name, "")), func(cd *cal.CalibrationData, tick func(string) bool) {
				for _, s := range []string{"", "0x", "0xg", "0x12345g78", "xyz", "0x1234567890", "0x123456789", "0x12 34", "0x-1", "0x1.5", "0x12345678z", "g0x12345678"} {
					g, err := cal.VerifAddress(cd, s)
					m := ""
					if err == nil {
						m = fmt.Sprintf("%q: no error, but %#x", s, g)
					}
					if !tick(m) {
						return
					}
				}
			}))
		}
	}
	// every short text: an address or an error
	if c.fam("texts") {
		al := "0x1aFgX-+_. "
		spelled := func(s string) bool {
			if len(s) < 3 || len(s) > 10 || s[:2] != "0x" {
				return false
			}
			for _, ch := range s[2:] {
				if !strings.ContainsRune("0123456789abcdefABCDEF", ch) {
					return false
				}
			}
			return true
		}
		for n := 0; n <= c.pick(5, 6); n++ {
			for first := 0; first < len(al); first++ {
				n, first := n, first
				c.one(func() string { return fmt.Sprint(n, "-", first) }, c.valueCase(projectText(moduleText("m", "BYTE_ORDER MSB_LAST", "")), func(cd *cal.CalibrationData, tick func(string) bool) {
					one := func(s string) bool {
						g, err := cal.VerifAddress(cd, s)
						if (err == nil) != spelled(s) {
							return tick(fmt.Sprintf("%q: %#x, %v", s, g, err))
						}
						return tick("")
					}
					for k := 0; k < pow(len(al), n); k++ {
						b := []byte{}
						for i, x := 0, k; i < n; i++ {
							b = append(b, al[x%len(al)])
							x /= len(al)
						}
						if n > 0 && int(k%len(al)) != first {
							continue
						}
						if !one(string(b)) || n > 0 && !one("0x"+string(b)) {
							return
						}
					}
				}))
			}
		}
	}
	// the record layout of a characteristic
	if c.fam("layouts") {
		names := []string{"a", "b", "ab", "A", "a.b", "b[0]"}
		for set := 0; set < 64; set++ {
			for module := 0; module < 2; module++ {
				set, module := set, module
				mods := make([]string, 2)
				for k := range mods {
					s := set
					if k != module {
						s = 63 ^ set
					}
					var b strings.Builder
					for i, n := range names {
						if s>>uint(i)&1 == 1 {
							fmt.Fprintf(&b, "/begin RECORD_LAYOUT %s FNC_VALUES %d %s COLUMN_DIR DIRECT /end RECORD_LAYOUT\n", n, i+1, datatypes[i].name)
						}
						fmt.Fprintf(&b, "/begin CHARACTERISTIC c%d \"\" VALUE 0x1000 %s 0 cm 0 1 /end CHARACTERISTIC\n", i, n)
					}
					mods[k] = moduleText(fmt.Sprint("m", k), "", b.String())
				}
				c.one(func() string { return fmt.Sprint(set, "/module", module) }, c.valueCase(projectText(mods...), func(cd *cal.CalibrationData, tick func(string) bool) {
					cd.ModuleIndex = uint8(module)
					for i, n := range names {
						ch := cd.A2l.Project.Modules[module].Characteristics[fmt.Sprint("c", i)]
						rl, err := cal.VerifLayout(cd, &ch)
						m := ""
						if set>>uint(i)&1 == 1 {
							if err != nil || rl == nil || rl.Name != n || rl.FncValues.Datatype != datatypes[i].e {
								m = fmt.Sprintf("record layout %s: %+v, %v", n, rl, err)
							}
						} else if err == nil {
							m = fmt.Sprintf("record layout %s does not exist: %+v", n, rl)
						}
						if !tick(m) {
							return
						}
					}
					var none a2l.Characteristic
					none.Name = "none"
					if rl, err := cal.VerifLayout(cd, &none); err == nil {
						tick(fmt.Sprintf("characteristic without deposit: %+v", rl))
					}
				}))
			}
		}
	}
}
