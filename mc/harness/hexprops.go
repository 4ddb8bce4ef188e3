package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/asap2Go/calibrationReader/zzverif/vsched"
)

func init() {
	props["C01"] = func(c *Ctx) { hexImage(c, IHex) }
	props["C03"] = func(c *Ctx) { hexImage(c, SRec) }
	props["C02"] = func(c *Ctx) { hexDamage(c, IHex) }
	props["C04"] = func(c *Ctx) { hexDamage(c, SRec) }
	props["C05"] = func(c *Ctx) { hexTwice(c, IHex); hexTwice(c, SRec) }
}

// alphabet of records for the sequences of well-formed files; k numbers the position so that data differs.
func imgAlphabet(f Fmt) []func(k int) Rec {
	d := byte('0')
	if f == SRec {
		d = '3'
	}
	data := func(a uint32, n int) func(k int) Rec {
		return func(k int) Rec { return Rec{d, a, fill(n, k)} }
	}
	if f == IHex {
		return []func(k int) Rec{
			data(0x0010, 2),
			func(k int) Rec { return ela(0) },
			func(k int) Rec { return ela(1) },
			func(k int) Rec { return ela(0xFFFF) },
			data(0xFFFE, 3),
			func(k int) Rec { return Rec{'b', 0, nil} },
			func(k int) Rec { return Rec{'5', 0, []byte{0, 0, 0x12, 0x34}} },
			data(0x1234, 0),
			func(k int) Rec { return Rec{'2', 0, []byte{0x10, 0x00}} },
		}
	}
	return []func(k int) Rec{
		data(0x80000010, 2),
		data(0x0000FFFE, 3),
		data(0xFFFFFFFF, 2),
		func(k int) Rec { return Rec{'0', 0, []byte("HDR")} },
		func(k int) Rec { return Rec{'7', 0x80000000, nil} },
		func(k int) Rec { return Rec{'b', 0, nil} },
		func(k int) Rec { return Rec{'5', uint32(k), nil} },
		data(0x1234, 0),
		func(k int) Rec { return Rec{'9', 0, nil} },
	}
}

func hexImage(c *Ctx, f Fmt) {
	d := byte('0')
	end := Rec{'1', 0, nil}
	if f == SRec {
		d = '3'
		end = Rec{'7', 0, nil}
	}
	nl := func(crlf bool) string {
		if crlf {
			return "\r\n"
		}
		return "\n"
	}
	// every schedule of every short sequence
	if c.fam("schedules") {
		al := imgAlphabet(f)
		maxL := 3
		if f == SRec {
			maxL = 2
		}
		if c.thorough() {
			maxL++
		}
		if c.numCPU == 3 {
			maxL--
		}
		if c.numCPU > 3 {
			maxL = 0
		}
		for l := 0; l <= maxL; l++ {
			for w := 0; w < pow(len(al), l); w++ {
				recs := word(al, l, w)
				img, dup := f.image(recs)
				if dup {
					continue
				}
				c.all(func() string { return fmt.Sprintf("l%d-%d", l, w) }, c.pick(4000, 400000), c.hexOK(f, f.text(recs, "\n", false), img))
			}
		}
		// longer files with address extensions in all positions
		n := c.pick(5, 7)
		if c.numCPU == 2 {
			for i := 0; i < n; i++ {
				for j := i; j < n; j++ {
					for _, v := range []uint32{0, 0x0800} {
						recs := extended(f, n, i, j, v)
						img, _ := f.image(recs)
						c.all(func() string { return fmt.Sprintf("ext-n%d-%d-%d-%d", n, i, j, v) }, c.pick(1500, 100000), c.hexOK(f, f.text(recs, "\n", false), img))
					}
				}
			}
		}
	}
	// every sequence of records up to a length
	if c.fam("sequences") {
		al := imgAlphabet(f)
		maxL := c.pick(5, 6)
		for l := 0; l <= maxL; l++ {
			for w := 0; w < pow(len(al), l); w++ {
				recs := word(al, l, w)
				img, dup := f.image(recs)
				if dup {
					continue
				}
				if (w+l)%2 == 0 {
					recs = append(recs, end)
				}
				c.one(func() string { return fmt.Sprintf("l%d-%d", l, w) }, c.hexOK(f, f.text(recs, nl(w%2 == 1), w%3 == 0), img))
			}
		}
	}
	// every number of lines and every position of two address extensions for this number of processors
	if c.fam("splits") {
		maxN := c.pick(20, 40)
		for n := 0; n <= maxN; n++ {
			for i := 0; i <= n; i++ {
				for j := i; j <= n; j++ {
					if f == SRec && j != i {
						continue
					}
					for _, v := range []uint32{0, 0x0800} {
						if f == SRec && v != 0 {
							continue
						}
						recs := extended(f, n, i, j, v)
						img, _ := f.image(recs)
						c.one(func() string { return fmt.Sprintf("n%d-%d-%d-%d", n, i, j, v) }, c.hexOK(f, f.text(recs, "\n", n%2 == 0), img))
					}
				}
			}
		}
	}
	// about as many lines as workers, and small multiples
	if c.fam("processors") {
		for _, n := range aboutWorkers(c.numCPU) {
			for i := 0; i <= n; i++ {
				for _, j := range []int{i, i + 1, n} {
					if f == SRec && j != i || !c.thorough() && c.numCPU > 16 && i%(c.numCPU/3) != 3 && i > 1 && i < n-1 {
						continue
					}
					c.one(func() string { return fmt.Sprintf("n%d-%d-%d", n, i, j) }, func() (func(), func(*vsched.Exec) string) {
						recs := extended(f, n, i, j, 0x0800)
						img, _ := f.image(recs)
						return c.hexOK(f, f.text(recs, "\n", n%2 == 0), img)()
					})
				}
			}
		}
	}
	// every record length, at addresses around the borders
	if c.fam("lengths") {
		max := 255
		if f == SRec {
			max = 250
		}
		for n := 0; n <= max; n++ {
			for _, a := range []uint32{0, 1, 0x7FFF, 0x8000, 0xFFFF, 0x10000 - uint32(n), 0xFFFF - uint32(n)} {
				a &= 0xFFFF
				for _, x := range []uint32{0, 1, 0x7FFF, 0xFFFF} {
					var recs []Rec
					if f == IHex {
						if x != 0 {
							recs = append(recs, ela(x))
						}
						recs = append(recs, Rec{d, a, fill(n, int(x))})
					} else {
						recs = append(recs, Rec{d, x<<16 | a, fill(n, int(x))})
					}
					recs = append(recs, end)
					img, _ := f.image(recs)
					c.one(func() string { return fmt.Sprintf("n%d-%04X-%04X", n, a, x) }, c.hexOK(f, f.text(recs, nl(n%2 == 1), true), img))
				}
			}
		}
	}
	// every data byte and every value of each address byte, upper and lower case
	if c.fam("values") {
		for v := 0; v < 256; v++ {
			for pos := 0; pos < 5; pos++ {
				for _, low := range []int{0, 1, 2} {
					data := []byte{0x5A, 0xA5, 0x00}
					var a uint32 = 0x12345670
					if pos == 4 {
						data = []byte{byte(v), ^byte(v), byte(v)}
					} else {
						a = a&^(0xFF<<(8*uint(pos))) | uint32(v)<<(8*uint(pos))
					}
					var recs []Rec
					if f == IHex {
						recs = []Rec{ela(a >> 16), {d, a & 0xFFFF, data}, {d, (a + 0x40) & 0xFFFF, data}, end}
					} else {
						recs = []Rec{{d, a, data}, {d, a + 0x40, data}, end}
					}
					img, dup := f.image(recs)
					if dup {
						continue
					}
					t := f.text(recs, "\n", true)
					switch low {
					case 1:
						t = strings.ReplaceAll(strings.ToLower(t), "s", "S")
					case 2:
						b := []byte(t)
						for i := range b {
							if i%2 == 0 && b[i] >= 'A' && b[i] <= 'F' {
								b[i] += 'a' - 'A'
							}
						}
						t = string(b)
					}
					c.one(func() string { return fmt.Sprintf("v%02X-p%d-c%d", v, pos, low) }, c.hexOK(f, t, img))
				}
			}
		}
	}
	// blank lines, line ends and missing last line end in every place
	if c.fam("layout") {
		n := c.pick(5, 7)
		for m := 0; m < 1<<uint(n+1); m++ {
			for style := 0; style < 4; style++ {
				var recs []Rec
				for i := 0; i <= n; i++ {
					if m>>uint(i)&1 == 1 {
						recs = append(recs, Rec{'b', 0, nil})
						if style >= 2 {
							recs = append(recs, Rec{'b', 0, nil})
						}
					}
					if i < n {
						recs = append(recs, extended(f, n, 1, 3, 0x1000)[i])
					}
				}
				if m%2 == 0 {
					recs = append(recs, end)
				}
				img, _ := f.image(recs)
				c.one(func() string { return fmt.Sprintf("m%d-%d", m, style) }, c.hexOK(f, f.text(recs, nl(style%2 == 1), style >= 2), img))
			}
		}
	}
	// header, count and start records between all data records
	if c.fam("others") {
		kinds := "15"
		if f == SRec {
			kinds = "05789"
		}
		if f == IHex {
			kinds = "235"
		}
		for _, k := range []byte(kinds) {
			for n := 0; n <= 252; n++ {
				for pos := 0; pos <= 4; pos++ {
					if f == IHex && n != 4 && !(k == '2' && n == 2) || k == '2' && n != 2 || f == SRec && k != '0' && n > 0 {
						continue
					}
					var recs []Rec
					for i := 0; i <= 4; i++ {
						if i == pos {
							recs = append(recs, Rec{k, 0x0102, fill(n, i)})
						}
						if i < 4 {
							recs = append(recs, Rec{d, uint32(i) * 16, fill(3, i)})
						}
					}
					img, _ := f.image(recs)
					c.one(func() string { return fmt.Sprintf("%c-n%d-%d", k, n, pos) }, c.hexOK(f, f.text(recs, nl(pos%2 == 1), true), img))
				}
			}
		}
	}
	// two records without data, the end record among them, in every two places of a file with address extensions
	if c.fam("between") {
		ks := foreign(f)
		for a, ra := range ks {
			for b, rb := range ks {
				for p := 0; p <= 7; p++ {
					for q := p; q <= 7; q++ {
						c.one(func() string { return fmt.Sprintf("%d-%d-%d-%d", a, b, p, q) }, func() (func(), func(*vsched.Exec) string) {
							recs := insert(insert(extended(f, 5, 1, 3, 0xF000), q, rb), p, ra)
							img, _ := f.image(recs)
							return c.hexOK(f, f.text(recs, nl(p%2 == 1), q%2 == 1), img)()
						})
					}
				}
			}
		}
	}
	// data records, two address extensions and nothing else: every sequence
	if c.fam("segments") {
		al := []func(k int) Rec{
			func(k int) Rec { return Rec{d, uint32(k) * 8, fill(2, k)} },
			func(k int) Rec { return ela(0x0801) },
			func(k int) Rec { return ela(0) },
		}
		if f == SRec {
			al[1] = func(k int) Rec { return Rec{'5', uint32(k), nil} }
			al[2] = func(k int) Rec { return Rec{d, 0xFFFFFFF0 + uint32(k), nil} }
		}
		for l := 5; l <= c.pick(9, 11); l++ {
			for w := 0; w < pow(3, l); w++ {
				c.one(func() string { return fmt.Sprintf("l%d-%d", l, w) }, func() (func(), func(*vsched.Exec) string) {
					recs := word(al, l, w)
					img, _ := f.image(recs)
					return c.hexOK(f, f.text(recs, nl(w%2 == 1), w%3 == 0), img)()
				})
			}
		}
	}
	// every value of the address and of the extension
	if c.fam("addresses") {
		for blk := 0; blk < 64; blk++ {
			for k := 0; k < 4; k++ {
				c.one(func() string { return fmt.Sprintf("b%d-%d", blk, k) }, func() (func(), func(*vsched.Exec) string) {
					var recs []Rec
					for i := 0; i < 1024; i++ {
						v := uint32(blk*1024 + i)
						switch {
						case k == 0 && f == IHex: // addresses, upwards
							recs = append(recs, Rec{d, v, []byte{byte(v), byte(v >> 8)}[:1]})
						case k == 1 && f == IHex: // addresses behind an extension, downwards
							if i == 0 {
								recs = append(recs, ela(uint32(blk)*0x401+7))
							}
							recs = append(recs, Rec{d, 0xFFFF - v, []byte{byte(v >> 8)}})
						case k == 2 && f == IHex: // extensions
							recs = append(recs, ela(v), Rec{d, 0x1234, []byte{byte(v), byte(v >> 8)}})
						case f == IHex: // extensions, not in order, carry behind them
							recs = append(recs, ela(v*31&0xFFFF), Rec{d, 0xFFFF, []byte{byte(v), byte(v >> 8)}})
						case k == 0:
							recs = append(recs, Rec{d, v, []byte{byte(v)}})
						case k == 1:
							recs = append(recs, Rec{d, 0xFFFF0000 | 0xFFFF - v, []byte{byte(v >> 8)}})
						case k == 2:
							recs = append(recs, Rec{d, v << 16, []byte{byte(v), byte(v >> 8)}})
						default:
							recs = append(recs, Rec{d, (v*31&0xFFFF)<<16 | 0xFFFF, []byte{byte(v), byte(v >> 8)}})
						}
					}
					img, dup := f.image(recs)
					if dup {
						panic("addresses")
					}
					return c.hexOK(f, f.text(recs, "\n", true), img)()
				})
			}
		}
	}
	// data of every kind at addresses of every kind
	if c.fam("points") {
		for _, a := range specialAddresses() {
			for v := 0; v < 6; v++ {
				for n := 1; n <= 4; n++ {
					c.one(func() string { return fmt.Sprintf("%08X-%d-%d", a, v, n) }, func() (func(), func(*vsched.Exec) string) {
						data := []byte(strings.Repeat(string([]byte{[]byte{0, 0xFF, 0x5A, 1, 0x80, 0x0A}[v]}), n))
						recs := append(f.at(a, data...), f.at(a+0x20000000, data...)...)
						recs = append(recs, f.at(a-0x00800000, data...)...)
						recs = append(recs, end)
						img, dup := f.image(recs)
						if dup {
							panic("points")
						}
						return c.hexOK(f, f.text(recs, nl(v%2 == 1), n%2 == 0), img)()
					})
				}
			}
		}
	}
	// combinations of special bytes
	if c.fam("bytes") {
		sp := []byte{0x00, 0xFF, 0x0A, 0x0D, 0x3A, 0x53, 0x20, 0x80, 0x7F, 0x01}
		for l := 1; l <= c.pick(4, 5); l++ {
			for w := 0; w < pow(len(sp), l); w++ {
				c.one(func() string { return fmt.Sprintf("l%d-%d", l, w) }, func() (func(), func(*vsched.Exec) string) {
					b := make([]byte, l)
					for i, k := range digits(w, len(sp), l) {
						b[i] = sp[k]
					}
					recs := []Rec{{d, 0x0100, b}, {d, 0x0200, fill(2, 0)}, {d, 0x0300, b}, end}
					img, _ := f.image(recs)
					return c.hexOK(f, f.text(recs, nl(w%2 == 1), true), img)()
				})
			}
		}
		for n := 1; n <= 250; n++ {
			for _, v := range []byte{0, 0xFF, 0x11, 0xAA} {
				c.one(func() string { return fmt.Sprintf("n%d-%02X", n, v) }, func() (func(), func(*vsched.Exec) string) {
					recs := []Rec{{d, 0x0100, []byte(strings.Repeat(string([]byte{v}), n))}, {d, 0x0400, fill(n, n)}, {d, 0x0800, []byte(strings.Repeat(string([]byte{v}), n))}, end}
					img, _ := f.image(recs)
					return c.hexOK(f, f.text(recs, nl(n%2 == 1), true), img)()
				})
			}
		}
	}
	// more than 65536 lines, more than 2^20 bytes
	if c.fam("huge") && (c.thorough() || c.numCPU <= 3) {
		for st := 0; st < 3; st++ {
			if st == 2 && c.numCPU != 3 && !c.thorough() {
				continue
			}
			c.one(func() string { return fmt.Sprint(st) }, func() (func(), func(*vsched.Exec) string) {
				var recs []Rec
				lines, n := 66000, []int{1, 16, 1}[st]
				if st == 2 {
					lines = 265000
				}
				for i := 0; i < lines; i++ {
					a := uint32(i) * 16
					if f == IHex && a&0xFFFF == 0 {
						recs = append(recs, ela(0x100+a>>16))
					}
					if f == IHex {
						a &= 0xFFFF
					}
					recs = append(recs, Rec{d, a, fill(n, i)})
				}
				recs = append(recs, end)
				img, _ := f.image(recs)
				return c.hexOK(f, f.text(recs, nl(st == 1), true), img)()
			})
		}
	}
	// files of realistic size
	if c.fam("large") {
		for _, n := range []int{63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4097} {
			for st := 0; st < 3; st++ {
				var recs []Rec
				seg := uint32(0x0800)
				for i := 0; i < n; i++ {
					if f == IHex {
						if i%(100*(st+1)+13) == 0 {
							if st == 2 && i > 0 {
								seg += 3
							} else if i > 0 {
								seg++
							}
							recs = append(recs, ela(seg))
						}
						recs = append(recs, Rec{d, uint32(i) * 16 & 0xFFFF, fill(16, i)})
					} else {
						recs = append(recs, Rec{d, 0x80000000 + uint32(i)*16*uint32(st+1), fill(16, i)})
					}
				}
				recs = append(recs, end)
				img, dup := f.image(recs)
				if dup {
					continue
				}
				c.one(func() string { return fmt.Sprintf("n%d-%d", n, st) }, c.hexOK(f, f.text(recs, nl(st == 1), true), img))
			}
		}
	}
}

// extended is a file of n data records with address extensions before the records i and j.
func extended(f Fmt, n, i, j int, v uint32) []Rec {
	var recs []Rec
	for k := 0; k <= n; k++ {
		if f == IHex {
			if k == i {
				recs = append(recs, ela(0x0801))
			}
			if k == j && j != i {
				recs = append(recs, ela(v))
			}
		} else if k == i {
			recs = append(recs, Rec{'0', 0, []byte{1, 2, 3, 4}})
		}
		if k == n {
			break
		}
		r := Rec{'0', uint32(k) * 8, fill(2, k)}
		if f == SRec {
			r.Kind = '3'
			r.Addr += 0x08010000
		}
		recs = append(recs, r)
	}
	return recs
}

// aboutWorkers are numbers of lines around the number of processors and its small multiples.
func aboutWorkers(n int) []int {
	var out []int
	for _, k := range []int{n - 1, n, n + 1, 2*n - 1, 2 * n, 2*n + 1, 3*n - 1, 3 * n, 4 * n, 5*n + 2} {
		if k > 0 && (len(out) == 0 || k > out[len(out)-1]) && (n < 100 || k <= 2*n) {
			out = append(out, k)
		}
	}
	return out
}

// foreign gives the records that carry no data.
func foreign(f Fmt) []Rec {
	if f == IHex {
		return []Rec{{'1', 0, nil}, {'2', 0, []byte{0x12, 0x34}}, {'3', 0, []byte{0x12, 0x34, 0x56, 0x78}}, {'5', 0, []byte{0x08, 0x05, 0x00, 0xC1}}, {'1', 0x0102, nil}}
	}
	return []Rec{{'7', 0x08010000, nil}, {'0', 0, []byte("S3")}, {'5', 2, nil}, {'8', 1, nil}, {'9', 0, nil}}
}

// insert puts r in front of record i of a copy.
func insert(recs []Rec, i int, r Rec) []Rec {
	if i > len(recs) {
		i = len(recs)
	}
	out := append([]Rec(nil), recs[:i]...)
	return append(append(out, r), recs[i:]...)
}

func word(al []func(int) Rec, l, w int) []Rec {
	recs := make([]Rec, 0, l)
	for i := 0; i < l; i++ {
		r := al[w%len(al)](i)
		w /= len(al)
		recs = append(recs, r)
	}
	return recs
}

// hexDamage: every damaged file is rejected.
func hexDamage(c *Ctx, f Fmt) {
	d := byte('0')
	if f == SRec {
		d = '3'
	}
	base := func(n int) []Rec {
		var recs []Rec
		if f == IHex {
			recs = append(recs, ela(0x0801))
		}
		for i := 0; len(recs) < n; i++ {
			recs = append(recs, Rec{d, uint32(i) * 16, fill(3+i%2, i)})
		}
		return recs
	}
	lines := func(recs []Rec) []string {
		var ls []string
		for _, r := range recs {
			ls = append(ls, f.line(r))
		}
		return ls
	}
	full := func(n int) []Rec {
		recs := base(n)
		if f == IHex {
			recs = append(recs, Rec{'5', 0, []byte{0, 0, 1, 2}}, Rec{d, 0x8000, nil}, Rec{'1', 0, nil})
		} else {
			recs = append(recs, Rec{d, 0x8000, nil})
		}
		return recs
	}
	join := func(ls []string, crlf bool) string {
		if crlf {
			return strings.Join(ls, "\r\n") + "\r\n"
		}
		return strings.Join(ls, "\n") + "\n"
	}
	// schedules: a damaged line in every place, all interleavings
	if c.fam("schedules") && c.numCPU <= 3 {
		maxN := c.pick(3, 4)
		if c.numCPU == 3 {
			maxN = c.pick(2, 3)
		}
		for n := 1; n <= maxN; n++ {
			for m := 1; m < pow(4, n); m++ {
				ls := lines(base(n))
				x := m
				for i := range ls {
					switch x % 4 {
					case 1:
						ls[i] = damageChecksum(ls[i])
					case 2:
						ls[i] = ls[i][:len(ls[i])-2]
					case 3:
						ls[i] = ls[i][1:]
					}
					x /= 4
				}
				c.all(func() string { return fmt.Sprintf("n%d-%d", n, m) }, c.pick(3000, 200000), c.hexErr(f, strings.Join(ls, "\n"), "a line is damaged"))
			}
		}
	}
	// files without damage are accepted (the same texts the damage is applied to)
	if c.fam("undamaged") {
		for n := 0; n <= 12; n++ {
			for _, crlf := range []bool{false, true} {
				recs := full(n)
				img, _ := f.image(recs)
				c.one(func() string { return fmt.Sprintf("n%d-%v", n, crlf) }, c.hexOK(f, join(lines(recs), crlf), img))
			}
		}
	}
	// damage to data of every kind at addresses of every kind
	if c.fam("points") {
		for _, a := range specialAddresses() {
			for v := 0; v < 5; v++ {
				b := []byte{0, 0xFF, 0x5A, 1, 0x80}[v]
				recs := append(f.at(a, b, b), f.at(a+0x1000000, b)...)
				ls := lines(recs)
				for li := range ls {
					for k := 0; k < 4; k++ {
						c.one(func() string { return fmt.Sprintf("%08X-%d-%d-%d", a, v, li, k) }, func() (func(), func(*vsched.Exec) string) {
							mod := append([]string(nil), ls...)
							l := []byte(mod[li])
							// checksum off by one, off by 16, address or data changed
							pos := []int{len(l) - 1, len(l) - 2, 3 + 3*int(f), len(l) - 3}[k]
							l[pos] = "123456789ABCDEF0"[strings.IndexByte("0123456789ABCDEF", l[pos])]
							mod[li] = string(l)
							return c.hexErr(f, join(mod, k%2 == 1), "a digit of line "+fmt.Sprint(li)+" is changed")()
						})
					}
				}
			}
		}
	}
	// every single character replaced by every other
	if c.fam("replace") {
		repl := "0123456789ABCDEFabcdef:SsgG.xX -+_\x00\x7f"
		for _, n := range pickN(c, []int{3}, []int{2, 3, 5}) {
			ls := lines(full(n))
			for li := range ls {
				for pos := 0; pos < len(ls[li]); pos++ {
					for _, ch := range []byte(repl) {
						o := ls[li][pos]
						if o == ch || sameHex(o, ch) && pos > 1 {
							continue
						}
						if f == SRec && pos == 1 && strings.IndexByte("0456789", ch) >= 0 {
							continue // becomes a record of another kind, whose content is not looked at
						}
						if f == IHex && (ch == 'S' || ch == 's') && c.numCPU > 2 {
							continue
						}
						l := ls[li][:pos] + string(ch) + ls[li][pos+1:]
						mod := append([]string(nil), ls...)
						mod[li] = l
						c.one(func() string { return fmt.Sprintf("n%d-l%d-p%d-%02x", n, li, pos, ch) }, c.hexErr(f, join(mod, li%2 == 1), "a character of line "+fmt.Sprint(li)+" is changed"))
					}
				}
			}
		}
	}
	// every byte value in place of every character
	if c.fam("anybyte") {
		ls := lines(full(2))
		for li := range ls {
			for pos := 0; pos < len(ls[li]); pos++ {
				for v := 0; v < 256; v++ {
					ch := byte(v)
					o := ls[li][pos]
					if o == ch || sameHex(o, ch) && pos > 1 || ch == '\n' || ch == '\r' || f == SRec && pos == 1 && strings.IndexByte("0456789", ch) >= 0 {
						continue
					}
					c.one(func() string { return fmt.Sprintf("l%d-p%d-%02x", li, pos, ch) }, func() (func(), func(*vsched.Exec) string) {
						mod := append([]string(nil), ls...)
						mod[li] = ls[li][:pos] + string([]byte{ch}) + ls[li][pos+1:]
						return c.hexErr(f, join(mod, li%2 == 1), "a character of line "+fmt.Sprint(li)+" is changed")()
					})
				}
			}
		}
	}
	// a digit replaced by something else and every checksum: whatever value is taken for it, it is no digit
	if c.fam("nodigit") {
		ls := lines(full(2))
		lo := 1
		if f == SRec {
			lo = 2
		}
		for li := range ls {
			if c.numCPU > 2 && li != 1 {
				continue
			}
			for pos := lo; pos < len(ls[li])-2; pos++ {
				for _, ch := range []string{"G", "x", " ", "-"} {
					for v := 0; v < 256; v++ {
						c.one(func() string { return fmt.Sprintf("l%d-p%d-%s-%02x", li, pos, ch, v) }, func() (func(), func(*vsched.Exec) string) {
							l := ls[li]
							mod := append([]string(nil), ls...)
							mod[li] = l[:pos] + ch + l[pos+1:len(l)-2] + fmt.Sprintf("%02X", v)
							return c.hexErr(f, join(mod, false), "a character of line "+fmt.Sprint(li)+" is no digit")()
						})
					}
				}
			}
		}
	}
	// records of every length: each digit changed to each other
	if c.fam("lengths") {
		for n := 0; n <= 250; n++ {
			if n > 40 && n < 230 && n%10 != 0 {
				continue
			}
			ls := lines(append(base(2), Rec{d, 0x4000, fill(n, n)}, Rec{d, 0x6000, fill(2, 1)}))
			l := ls[2]
			for pos := 0; pos < len(l); pos++ {
				if f == SRec && pos == 1 {
					continue
				}
				for _, dl := range []int{1, 8, 15} {
					if n > 40 && dl != 1 && !c.thorough() {
						continue
					}
					c.one(func() string { return fmt.Sprintf("n%d-p%d-%d", n, pos, dl) }, func() (func(), func(*vsched.Exec) string) {
						v, err := strconv.ParseUint(l[pos:pos+1], 16, 8)
						x := fmt.Sprintf("%X", (int(v)+dl)%16)
						if err != nil {
							x = string("0;."[dl%3])
						}
						mod := append([]string(nil), ls...)
						mod[2] = l[:pos] + x + l[pos+1:]
						return c.hexErr(f, join(mod, n%2 == 0), "a digit of line 2 is changed")()
					})
				}
			}
		}
	}
	// characters and bytes lost or added, with the old and with a matching checksum; start mark lost
	if c.fam("length") {
		for _, n := range pickN(c, []int{2, 4}, []int{2, 3, 4, 5, 8}) {
			ls := lines(full(n))
			for li := range ls {
				l := ls[li]
				try := func(name, nw string) {
					if nw == l {
						return
					}
					mod := append([]string(nil), ls...)
					mod[li] = nw
					c.one(func() string { return fmt.Sprintf("n%d-l%d-%s", n, li, name) }, c.hexErr(f, join(mod, n%2 == 1), "line "+fmt.Sprint(li)+" is "+nw))
				}
				lo := 3
				if f == SRec {
					lo = 4
				}
				for pos := 0; pos < len(l); pos++ {
					if f == SRec && pos < 2 {
						continue
					}
					nw := l[:pos] + l[pos+1:]
					try(fmt.Sprintf("del%d", pos), nw)
					nw = l[:pos] + "0" + l[pos:]
					if pos > 0 {
						try(fmt.Sprintf("ins%d", pos), nw)
					}
					if pos >= 1 && pos+2 <= len(l) {
						nw = l[:pos] + l[pos+2:]
						try(fmt.Sprintf("del2-%d", pos), nw)
						if len(nw) >= lo+2 {
							try(fmt.Sprintf("del2c-%d", pos), recheck(f, nw))
						}
					}
					if pos >= lo {
						for _, b := range []string{"00", "FF", "11"} {
							nw = l[:pos] + b + l[pos:]
							try(fmt.Sprintf("ins2-%d-%s", pos, b), nw)
							try(fmt.Sprintf("ins2c-%d-%s", pos, b), recheck(f, nw))
						}
					}
				}
				// cut off at every length
				for k := 2; k < len(l); k++ {
					try(fmt.Sprintf("cut%d", k), l[:k])
				}
				// byte count changed to every value with a matching checksum
				for v := 0; v < 256; v++ {
					var nw string
					if f == IHex {
						nw = l[:1] + fmt.Sprintf("%02X", v) + l[3:]
					} else {
						nw = l[:2] + fmt.Sprintf("%02X", v) + l[4:]
					}
					try(fmt.Sprintf("cnt%d", v), nw)
					if nw != l {
						try(fmt.Sprintf("cntc%d", v), recheck(f, nw))
					}
				}
				// characters in front of or behind the record
				for i, x := range []string{" ", "\t", "  ", "\x00", ";", "x", "0", "00", "\x1a", "\v", "\f", "\u00a0", " ;", ":", "S", "\\"} {
					try(fmt.Sprintf("tail%d", i), l+x)
					try(fmt.Sprintf("head%d", i), x+l)
				}
				// start mark lost or replaced
				try("mark", l[1:])
				for _, m := range []string{" ", ";", "s", "0", "S", ".", "::", "SS", " :", " S"} {
					try("mark"+m, m+l[1:])
				}
			}
		}
	}
	// a checksum digit, in every line of files of every length: all splits of the work
	if c.fam("splits") {
		maxN := c.pick(20, 40)
		for n := 1; n <= maxN; n++ {
			ls := lines(base(n))
			for li := range ls {
				for k := 0; k < 4; k++ {
					mod := append([]string(nil), ls...)
					switch k {
					case 0:
						mod[li] = damageChecksum(ls[li])
					case 1:
						mod[li] = ls[li][:len(ls[li])-3] + "x" + ls[li][len(ls[li])-2:]
					case 2:
						mod[li] = ls[li][:len(ls[li])-1]
					case 3:
						mod[li] = ls[li][1:]
					}
					c.one(func() string { return fmt.Sprintf("n%d-l%d-%d", n, li, k) }, c.hexErr(f, strings.Join(mod, "\n"), "line "+fmt.Sprint(li)+" is damaged"))
				}
			}
		}
	}
	// about as many lines as workers, and small multiples: one line or all of them
	if c.fam("processors") {
		for _, n := range aboutWorkers(c.numCPU) {
			for li := -1; li < n; li++ {
				if !c.thorough() && c.numCPU > 16 && li%(c.numCPU/3) != 3 && li > 0 && li < n-1 {
					continue
				}
				for k := 0; k < 3; k++ {
					c.one(func() string { return fmt.Sprintf("n%d-l%d-%d", n, li, k) }, func() (func(), func(*vsched.Exec) string) {
						ls := lines(base(n))
						for i := range ls {
							if li >= 0 && i != li {
								continue
							}
							switch k {
							case 0:
								ls[i] = damageChecksum(ls[i])
							case 1:
								ls[i] = ls[i][:len(ls[i])-1]
							case 2:
								ls[i] = ls[i][1:]
							}
						}
						return c.hexErr(f, strings.Join(ls, "\n"), fmt.Sprintf("line %d (-1: every line) is damaged", li))()
					})
				}
			}
		}
	}
	// damage in front of and behind each record without data, the end record among them
	if c.fam("behind") {
		for a, ra := range foreign(f) {
			for n := 1; n <= 5; n++ {
				for p := 0; p <= n; p++ {
					recs := insert(base(n), p, ra)
					for li := range recs {
						if li == p {
							continue
						}
						for k := 0; k < 4; k++ {
							c.one(func() string { return fmt.Sprintf("%d-n%d-%d-l%d-%d", a, n, p, li, k) }, func() (func(), func(*vsched.Exec) string) {
								ls := lines(recs)
								switch k {
								case 0:
									ls[li] = damageChecksum(ls[li])
								case 1:
									ls[li] = ls[li][:len(ls[li])-3] + "x" + ls[li][len(ls[li])-2:]
								case 2:
									ls[li] = ls[li][:len(ls[li])-1]
								case 3:
									ls[li] = ls[li][1:]
								}
								return c.hexErr(f, join(ls, n%2 == 1), "line "+fmt.Sprint(li)+" is damaged")()
							})
						}
					}
				}
			}
		}
	}
	// several damaged lines, every subset, mixed kinds
	if c.fam("several") {
		n := c.pick(5, 6)
		for m := 1; m < pow(4, n); m++ {
			ls := lines(base(n))
			x := m
			for i := range ls {
				switch x % 4 {
				case 1:
					ls[i] = damageChecksum(ls[i])
				case 2:
					ls[i] = ls[i][:len(ls[i])-2]
				case 3:
					ls[i] = ls[i][1:]
				}
				x /= 4
			}
			c.one(func() string { return fmt.Sprintf("m%d", m) }, c.hexErr(f, strings.Join(ls, "\n"), "lines are damaged"))
		}
	}
	// all checksum values
	if c.fam("checksums") {
		for v := 0; v < 256; v++ {
			for _, n := range []int{0, 1, 4} {
				l := f.line(Rec{d, 0x40, fill(n, n)})
				right := l[len(l)-2:]
				w := fmt.Sprintf("%02X", v)
				ls := lines(base(3))
				mod := append(append([]string{}, ls...), "")
				copy(mod[2:], mod[1:])
				mod[1] = l[:len(l)-2] + w
				if w == right {
					continue
				}
				c.one(func() string { return fmt.Sprintf("v%02X-n%d", v, n) }, c.hexErr(f, strings.Join(mod, "\n"), "a checksum is "+w+" instead of "+right))
			}
		}
	}
	// damage far into a large file
	if c.fam("large") {
		for _, n := range []int{100, 300, 1030, 2049} {
			for _, at := range []int{0, 1, n / 3, n / 2, n - 2, n - 1} {
				for k := 0; k < 3; k++ {
					ls := lines(base(n))
					switch k {
					case 0:
						ls[at] = damageChecksum(ls[at])
					case 1:
						ls[at] = ls[at][:len(ls[at])-2]
					case 2:
						ls[at] = ls[at][1:]
					}
					c.one(func() string { return fmt.Sprintf("n%d-%d-%d", n, at, k) }, c.hexErr(f, strings.Join(ls, "\n"), "line "+fmt.Sprint(at)+" is damaged"))
				}
			}
		}
	}
	if c.fam("huge") && (c.thorough() || c.numCPU == 3) {
		for _, at := range []int{0, 65535, 65536, 99999, 200000, 200001, 264999} {
			c.one(func() string { return fmt.Sprint(at) }, func() (func(), func(*vsched.Exec) string) {
				ls := lines(base(265000))
				ls[at] = damageChecksum(ls[at])
				return c.hexErr(f, strings.Join(ls, "\n"), "line "+fmt.Sprint(at)+" is damaged")()
			})
		}
	}
	// data records of unsupported kinds
	if f == SRec && c.fam("kinds") {
		for _, k := range []byte("12") {
			for n := 0; n <= 40; n++ {
				for pos := 0; pos <= 4; pos++ {
					recs := base(4)
					recs = append(recs[:pos:pos], append([]Rec{{k, 0x9000, fill(n, 1)}}, recs[pos:]...)...)
					c.one(func() string { return fmt.Sprintf("S%c-n%d-%d", k, n, pos) }, c.hexErr(f, f.text(recs, "\n", true), "it has a data record of unsupported kind S"+string(k)))
				}
			}
		}
	}
}

func pickN(c *Ctx, q, t []int) []int {
	if c.thorough() {
		return t
	}
	return q
}

func sameHex(a, b byte) bool {
	return strings.EqualFold(string(a), string(b)) && (a >= 'A' && a <= 'F' || a >= 'a' && a <= 'f')
}

func damageChecksum(l string) string {
	b := []byte(l)
	if len(b) == 0 {
		return l
	}
	if b[len(b)-1] == '0' {
		b[len(b)-1] = '1'
	} else {
		b[len(b)-1] = '0'
	}
	return string(b)
}

// recheck makes the last two digits a matching checksum; a text whose digits do not pair up is returned as it is.
func recheck(f Fmt, l string) string {
	lo := 1
	if f == SRec {
		lo = 2
	}
	body := l[lo : len(l)-2]
	if len(body)%2 != 0 {
		return l
	}
	var sum byte
	for i := 0; i+1 < len(body); i += 2 {
		var v int
		if n, _ := fmt.Sscanf(body[i:i+2], "%02X", &v); n != 1 {
			return l
		}
		sum += byte(v)
	}
	if f == IHex {
		return l[:len(l)-2] + fmt.Sprintf("%02X", -sum)
	}
	return l[:len(l)-2] + fmt.Sprintf("%02X", 255-sum)
}

// specialAddresses are all powers of two, their neighbours and the borders of segments.
func specialAddresses() []uint32 {
	var addr []uint32
	seen := map[uint32]bool{}
	for k := uint(0); k < 32; k++ {
		for _, a := range []uint32{1<<k - 1, 1 << k, 1<<k + 1, -(uint32(1) << k), -(uint32(1) << k) - 1, 0xFFFF0000 | uint32(1)<<(k%16), uint32(k) << 16, uint32(k)<<16 | 0xFFFF} {
			if !seen[a] {
				seen[a] = true
				addr = append(addr, a)
			}
		}
	}
	return addr
}

// at places data at a 32 bit address.
func (f Fmt) at(a uint32, data ...byte) []Rec {
	if f == IHex {
		return []Rec{ela(a >> 16), {'0', a & 0xFFFF, data}}
	}
	return []Rec{{'3', a, data}}
}

// hexTwice: an address assigned twice is reported, touching records are accepted.
func hexTwice(c *Ctx, f Fmt) {
	d := byte('0')
	if f == SRec {
		d = '3'
	}
	judge := func(recs []Rec, nl string) func() (func(), func(*vsched.Exec) string) {
		img, dup := f.image(recs)
		if dup {
			return c.hexErr(f, f.text(recs, nl, true), "an address is defined twice")
		}
		return c.hexOK(f, f.text(recs, nl, true), img)
	}
	ext := func(x uint32) []Rec {
		if f == IHex {
			return []Rec{ela(x)}
		}
		return nil
	}
	// two records, all relative positions and lengths, with others before, between and behind
	if c.fam(f.name() + "-pairs") {
		for _, at := range []uint32{0x0040, 0xFFFE, 0x8000} {
			for l1 := 0; l1 <= 4; l1++ {
				for l2 := 0; l2 <= 4; l2++ {
					for off := -6; off <= 6; off++ {
						for between := 0; between <= 4; between++ {
							for eq := 0; eq < 2; eq++ {
								a1, a2 := at, at+uint32(off)
								if f == IHex {
									a2 &= 0xFFFF
								} else {
									a1 |= 0x80000000
									a2 |= 0x80000000
								}
								d1, d2 := fill(l1, 1), fill(l2, 2)
								if eq == 1 {
									d2 = fill(l2, 1)
									for i := range d2 {
										d2[i] = 0x55
									}
									for i := range d1 {
										d1[i] = 0x55
									}
								}
								recs := append(ext(0x10), Rec{d, a1, d1})
								for k := 0; k < between; k++ {
									recs = append(recs, Rec{d, 0x2000 + uint32(k)*16, fill(2, k)})
								}
								recs = append(recs, Rec{d, a2, d2})
								c.one(func() string {
									return fmt.Sprintf("%04X-%d-%d-%d-%d-%d", at, l1, l2, off, between, eq)
								}, judge(recs, "\n"))
							}
						}
					}
				}
			}
		}
	}
	// every sequence of records that overlap, touch or lie apart
	if c.fam(f.name() + "-words") {
		data := func(a uint32, n int) func(k int) Rec {
			return func(k int) Rec { return Rec{d, a, fill(n, k)} }
		}
		al := []func(k int) Rec{data(0, 2), data(2, 2), data(1, 1), data(0, 0), data(0xFFFF, 2), func(k int) Rec { return ela(1) }, func(k int) Rec { return ela(0) }}
		if f == SRec {
			al[4], al[5], al[6] = data(0xFFFFFFFF, 2), func(k int) Rec { return Rec{'5', 0, nil} }, func(k int) Rec { return Rec{'b', 0, nil} }
		}
		for l := 0; l <= c.pick(5, 6); l++ {
			for w := 0; w < pow(len(al), l); w++ {
				c.one(func() string { return fmt.Sprintf("l%d-%d", l, w) }, func() (func(), func(*vsched.Exec) string) {
					return judge(word(al, l, w), []string{"\n", "\r\n"}[w%2])()
				})
			}
		}
	}
	// about as many lines as workers, and small multiples: one address twice, or each
	if c.fam(f.name() + "-processors") {
		for _, n := range aboutWorkers(c.numCPU) {
			for at := -1; at < n; at++ {
				if !c.thorough() && c.numCPU > 16 && at%(c.numCPU/3) != 3 && at > 0 && at < n-1 {
					continue
				}
				for to := 0; to < 3; to++ {
					c.one(func() string { return fmt.Sprintf("n%d-%d-%d", n, at, to) }, func() (func(), func(*vsched.Exec) string) {
						var recs []Rec
						for i := 0; i < n; i++ {
							r := Rec{d, uint32(i) * 4, fill(3, i)}
							if i == at || at < 0 {
								r.Addr = uint32([]int{0, (n / 2) * 4, (n - 1) * 4}[to])
							}
							recs = append(recs, r)
						}
						return judge(recs, "\n")()
					})
				}
			}
		}
	}
	// the same with a record without data, the end record among them, in every place between
	if c.fam(f.name() + "-behind") {
		for a, ra := range foreign(f) {
			for off := 0; off <= 3; off++ {
				for p := 0; p <= 5; p++ {
					for eq := 0; eq < 2; eq++ {
						c.one(func() string { return fmt.Sprintf("%d-%d-%d-%d", a, off, p, eq) }, func() (func(), func(*vsched.Exec) string) {
							recs := append(ext(0x10), Rec{d, 0x100, []byte{7, 7}}, Rec{d, 0x200, []byte{1}}, Rec{d, 0x100 + uint32(off), []byte{byte(7 + eq), 7}}, Rec{d, 0x300, []byte{1}})
							return judge(insert(recs, p, ra), []string{"\n", "\r\n"}[eq])()
						})
					}
				}
			}
		}
	}
	// long records at all offsets
	if c.fam(f.name() + "-offsets") {
		for _, l := range [][2]int{{16, 16}, {32, 16}, {16, 32}, {250, 250}, {250, 1}, {1, 250}, {128, 64}} {
			for off := -l[1] - 1; off <= l[0]+1; off++ {
				for between := 0; between < 3; between++ {
					c.one(func() string { return fmt.Sprintf("%d-%d-%d-%d", l[0], l[1], off, between) }, func() (func(), func(*vsched.Exec) string) {
						recs := append(ext(0x20), Rec{d, 0x4000, fill(l[0], 1)})
						for k := 0; k < between; k++ {
							recs = append(recs, Rec{d, 0x8000 + uint32(k)*16, fill(2, k)})
						}
						recs = append(recs, Rec{d, uint32(0x4000 + off), fill(l[1], 1)})
						return judge(recs, "\n")()
					})
				}
			}
		}
	}
	// one address of every kind, with every pair of values
	at := f.at
	if c.fam(f.name() + "-points") {
		for _, a := range specialAddresses() {
			for v := 0; v < 16; v++ {
				v1, v2 := []byte{0, 0xFF, 0x5A, 1}[v%4], []byte{0, 0xFF, 0x5A, 1}[v/4]
				for how := 0; how < 5; how++ {
					c.one(func() string { return fmt.Sprintf("%08X-%02X-%02X-%d", a, v1, v2, how) }, func() (func(), func(*vsched.Exec) string) {
						var recs []Rec
						add := func(r []Rec) { recs = append(recs, r...) }
						switch how {
						case 0: // twice the same record
							add(at(a, v1))
							add(at(a, v2))
						case 1: // with others between
							add(at(a, v1))
							for i := uint32(1); i < 8; i++ {
								add(at(a+0x10000*i+8*i, 1, 2))
							}
							add(at(a, v2))
						case 2: // the last byte of one and the first of another
							add(at(a-3, 9, 8, 7, v1))
							add(at(a, v2, 6, 5))
						case 3: // they touch only
							add(at(a-3, 9, 8, 7, v1))
							add(at(a+1, v2, 6, 5))
						case 4: // and in the other order
							add(at(a, v1, 7))
							add(at(a-2, 3, v2))
						}
						return judge(recs, "\n")()
					})
				}
			}
		}
		for v := 0; v < 256; v++ {
			for _, w := range []int{v, v ^ 1, v ^ 0xFF, 0, 0xFF} {
				c.one(func() string { return fmt.Sprintf("value-%02X-%02X", v, w) }, func() (func(), func(*vsched.Exec) string) {
					return judge(append(at(0x1234, byte(v)), at(0x1233, 7, byte(w))...), "\n")()
				})
			}
		}
	}
	// the doubled pair in every two places of a file of every length
	if c.fam(f.name() + "-places") {
		maxN := c.pick(14, 24)
		for n := 2; n <= maxN; n++ {
			for i := 0; i < n; i++ {
				for j := i + 1; j < n; j++ {
					for k := 0; k < 3; k++ {
						recs := ext(0x0801)
						if k == 2 {
							recs = nil
						}
						for m := 0; m < n; m++ {
							r := Rec{d, uint32(m) * 16, fill(4, m)}
							if m == j {
								r.Addr = uint32(i)*16 + uint32(k*3) // same, last byte, touching nothing
							}
							recs = append(recs, r)
						}
						c.one(func() string { return fmt.Sprintf("n%d-%d-%d-%d", n, i, j, k) }, judge(recs, "\n"))
					}
				}
			}
		}
	}
	if f == IHex && c.fam(f.name()+"-extension") {
		// the same address reached through different extensions and carries
		for _, x1 := range []uint32{0, 1, 0x10, 0xFFFF} {
			for dx := -1; dx <= 1; dx++ {
				for _, a1 := range []uint32{0, 1, 0xFFFD, 0xFFFE, 0xFFFF} {
					for _, a2 := range []uint32{0, 1, 2, 0xFFFD, 0xFFFF} {
						for _, l := range []int{1, 2, 4} {
							for between := 0; between < 4; between++ {
								x2 := (x1 + uint32(dx)) & 0xFFFF
								var recs []Rec
								if x1 != 0 {
									recs = append(recs, ela(x1))
								}
								recs = append(recs, Rec{d, a1, fill(l, 1)})
								for k := 0; k < between; k++ {
									recs = append(recs, Rec{d, 0x2000 + uint32(k)*16, fill(2, k)})
								}
								recs = append(recs, ela(x2), Rec{d, a2, fill(3, 2)})
								c.one(func() string {
									return fmt.Sprintf("%X-%d-%X-%X-%d-%d", x1, dx, a1, a2, l, between)
								}, judge(recs, "\n"))
							}
						}
					}
				}
			}
		}
	}
	if c.fam(f.name()+"-schedules") && c.numCPU <= 3 {
		n := c.pick(3, 4)
		if c.numCPU == 3 {
			n = c.pick(2, 3)
		}
		// all assignments of n records to 3 addresses (two touching)
		for w := 0; w < pow(4, n); w++ {
			var recs []Rec
			x := w
			for i := 0; i < n; i++ {
				switch x % 4 {
				case 3:
					if f == IHex {
						recs = append(recs, ela(1))
					} else {
						recs = append(recs, Rec{'5', 1, nil})
					}
				default:
					recs = append(recs, Rec{d, uint32(x%4) * 2, fill(2, i)})
				}
				x /= 4
			}
			c.all(func() string { return fmt.Sprintf("n%d-%d", n, w) }, c.pick(3000, 200000), judge(recs, "\n"))
		}
	}
	if c.fam(f.name()+"-huge") && (c.thorough() || c.numCPU == 3) {
		for _, at := range [][2]int{{0, 65999}, {65535, 65536}, {1, 65537}, {32767, 32769}, {65998, 65999}, {-1, 0}} {
			c.one(func() string { return fmt.Sprint(at) }, func() (func(), func(*vsched.Exec) string) {
				var recs []Rec
				for i := 0; i < 66000; i++ {
					a := uint32(i) * 16
					if f == IHex && a&0xFFFF == 0 {
						recs = append(recs, ela(a>>16))
					}
					if i == at[1] && at[0] >= 0 {
						a = uint32(at[0]) * 16
						if f == IHex {
							recs = append(recs, ela(a>>16))
						}
					}
					if f == IHex {
						a &= 0xFFFF
					}
					recs = append(recs, Rec{d, a, fill(2, i)})
					if f == IHex && i == at[1] {
						recs = append(recs, ela(uint32(i)*16>>16))
					}
				}
				return judge(recs, "\n")()
			})
		}
	}
	if c.fam(f.name() + "-large") {
		for _, n := range []int{100, 600, 2000} {
			for k := 0; k < 6; k++ {
				recs := ext(3)
				for i := 0; i < n; i++ {
					recs = append(recs, Rec{d, uint32(i) * 16, fill(16, i)})
				}
				switch k {
				case 1:
					recs = append(recs, Rec{d, 15, []byte{1}})
				case 2:
					recs = append(recs, Rec{d, uint32(n)*16 - 1, []byte{1}})
				case 3:
					recs = append(recs, Rec{d, uint32(n) * 16, []byte{1}})
				case 4:
					recs[n/2+1].Addr--
				case 5:
					recs = append(recs, ext(2)...)
					if f == IHex {
						recs = append(recs, Rec{d, 0xFFFF, []byte{1, 2}})
					} else {
						recs = append(recs, Rec{d, 0xFFFFFFFF, []byte{1, 2}})
					}
				}
				c.one(func() string { return fmt.Sprintf("n%d-%d", n, k) }, judge(recs, "\r\n"))
			}
		}
	}
}
