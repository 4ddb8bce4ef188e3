//go:build v22

package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	cal "github.com/asap2Go/calibrationReader"
)

func init() { props["C22"] = conversions }

// near tells whether two results of the same computation agree.
func near(a, b, scale float64) bool {
	return sameFloat(a, b) || math.Abs(a-b) <= 1e-9*(scale+math.Abs(b))
}

func conversions(c *Ctx) {
	xs := []float64{-1e6, -255, -3, -2, -1, -0.5, 0, 0.25, 1, 2, 2.5, 3, 7, 100, 65535, 4294967295, 1.5e9}
	ratio := func(name, par string) string {
		return fmt.Sprintf("/begin COMPU_METHOD %s \"\" %s \"%%4.2\" \"\" %s /end COMPU_METHOD\n", name, strings.Fields(par)[0], strings.Join(strings.Fields(par)[1:], " "))
	}
	// the reader keeps the quotation marks of some texts
	bare := func(v string, err error) (string, error) { return strings.Trim(v, "\""), err }
	num := func(cd *cal.CalibrationData, name string, x float64) (float64, error) {
		cm, ok := cd.A2l.Project.Modules[cd.ModuleIndex].CompuMethods[name]
		if !ok {
			return 0, fmt.Errorf("%s lost", name)
		}
		return cal.VerifPhys(cd, x, &cm)
	}
	if c.fam("plain") {
		types := []struct {
			t    string
			fail bool
		}{{"IDENTICAL", false}, {"FORM", true}, {"FORM /begin FORMULA \"X1*2\" /end FORMULA", true}, {"LINEAR", true}, {"RAT_FUNC", true}, {"TAB_INTP", true},
			{"TAB_INTP COMPU_TAB_REF t", true}, {"TAB_NOINTP", true}, {"TAB_NOINTP COMPU_TAB_REF none", true}, {"TAB_VERB", true}, {"TAB_VERB COMPU_TAB_REF v", true},
			{"LINEAR COEFFS 0 1 0 0 0 1", true}, {"RAT_FUNC COEFFS_LINEAR 1 0", true}, {"IDENTICAL COEFFS_LINEAR 2 3", false}, {"IDENTICAL COEFFS 0 2 0 0 0 1", false}, {"IDENTICAL COMPU_TAB_REF t", false}}
		var b strings.Builder
		for i, t := range types {
			b.WriteString(ratio(fmt.Sprint("m", i), t.t))
		}
		b.WriteString("/begin COMPU_TAB t \"\" TAB_NOINTP 2 0 10 1 20 /end COMPU_TAB\n/begin COMPU_VTAB v \"\" TAB_VERB 2 0 \"a\" 1 \"b\" /end COMPU_VTAB\n")
		for i, t := range types {
			i, t := i, t
			c.one(func() string { return t.t }, c.valueCase(projectText(moduleText("m", "", b.String())), func(cd *cal.CalibrationData, tick func(string) bool) {
				for _, x := range append(xs, math.Inf(1), 5e-324, 1.7e308, math.Copysign(0, -1)) {
					v, err := num(cd, fmt.Sprint("m", i), x)
					m := ""
					if t.fail && err == nil {
						m = fmt.Sprintf("%s of %v: no error, but %v", t.t, x, v)
					} else if !t.fail && (err != nil || !sameFloat(v, x)) {
						m = fmt.Sprintf("%s of %v: %v, %v", t.t, x, v, err)
					}
					if !tick(m) {
						return
					}
				}
			}))
		}
	}
	if c.fam("linear") {
		co := []float64{-100, -2, -1, -0.5, 0, 0.001, 1, 2, 3.5, 1e6}
		for _, a := range co {
			a := a
			var b strings.Builder
			for j, k := range co {
				b.WriteString(ratio(fmt.Sprint("m", j), fmt.Sprint("LINEAR COEFFS_LINEAR ", a, " ", k)))
			}
			c.one(func() string { return fmt.Sprint(a) }, c.valueCase(projectText(moduleText("m", "", b.String())), func(cd *cal.CalibrationData, tick func(string) bool) {
				for j, k := range co {
					for _, x := range xs {
						v, err := num(cd, fmt.Sprint("m", j), x)
						m := ""
						if err != nil || !near(v, a*x+k, 0) && !near(v, a*x+k, math.Abs(a*x)*1e-3) {
							m = fmt.Sprintf("LINEAR %v %v of %v: %v, %v instead of %v", a, k, x, v, err, a*x+k)
						}
						if !tick(m) {
							return
						}
					}
				}
			}))
		}
	}
	// the physical value x of dec satisfies (axx+bx+c)/(dxx+ex+f) = dec
	if c.fam("rational") {
		co := []float64{0, 1, -2, 3}
		decs := []float64{-3, -1, 0, 0.5, 1, 2, 4, 100}
		if c.thorough() {
			co = []float64{0, 1, -1, -2, 3, 0.25}
			decs = append(decs, -2, -0.25, 3, 5, 12.5, 1000)
		}
		n := len(co)
		for i := 0; i < n*n; i++ {
			d0, e0 := co[i/n], co[i%n]
			var b strings.Builder
			type coeffs [6]float64
			var cs []coeffs
			for k := 0; k < n*n*n*n; k++ {
				q := coeffs{co[k%n], co[k/n%n], co[k/n/n%n], d0, e0, co[k/n/n/n]}
				b.WriteString(ratio(fmt.Sprint("m", len(cs)), fmt.Sprintf("RAT_FUNC COEFFS %v %v %v %v %v %v", q[0], q[1], q[2], q[3], q[4], q[5])))
				cs = append(cs, q)
			}
			c.one(func() string { return fmt.Sprint(d0, "/", e0) }, c.valueCase(projectText(moduleText("m", "", b.String())), func(cd *cal.CalibrationData, tick func(string) bool) {
				for j, q := range cs {
					for _, dec := range decs {
						x, err := num(cd, fmt.Sprint("m", j), dec)
						if !tick(ratCheck(q, dec, x, err)) {
							return
						}
					}
				}
			}))
		}
	}
	// numerator and denominator with a common root
	if c.fam("poles") {
		roots := []float64{-3, -1, 0, 2, 0.5}
		scales := []float64{1, -2, 0.5}
		var decs []float64
		for x := -9.0; x <= 9; x += 0.25 {
			decs = append(decs, x)
		}
		for _, r := range roots {
			var b strings.Builder
			var cs [][6]float64
			put := func(q [6]float64) {
				b.WriteString(ratio(fmt.Sprint("m", len(cs)), fmt.Sprintf("RAT_FUNC COEFFS %v %v %v %v %v %v", q[0], q[1], q[2], q[3], q[4], q[5])))
				cs = append(cs, q)
			}
			for _, k := range scales {
				for _, l := range scales {
					put([6]float64{0, k, -k * r, 0, l, -l * r})
					for _, s := range roots {
						put([6]float64{k, -k * (r + s), k * r * s, 0, l, -l * r})
						put([6]float64{0, k, -k * r, l, -l * (r + s), l * r * s})
						for _, t := range roots {
							put([6]float64{k, -k * (r + s), k * r * s, l, -l * (r + t), l * r * t})
						}
					}
				}
			}
			c.one(func() string { return fmt.Sprint(r) }, c.valueCase(projectText(moduleText("m", "", b.String())), func(cd *cal.CalibrationData, tick func(string) bool) {
				for j, q := range cs {
					for _, dec := range decs {
						x, err := num(cd, fmt.Sprint("m", j), dec)
						if !tick(ratCheck(q, dec, x, err)) {
							return
						}
					}
				}
			}))
		}
	}
	if c.fam("common") {
		// scalings as they are in use, and both branches of a quadratic
		cs := [][6]float64{{0, 1, 0, 0, 0, 1}, {0, 10, 0, 0, 0, 1}, {0, 1, 0, 0, 0, 100}, {0, 0.1, 0, 0, 0, 1}, {0, 1, 40, 0, 0, 1}, {0, 100, -273.15, 0, 0, 3}, {0, 0, 6000, 0, 1, 0}, {0, 0, 1, 0, 1, 1}, {1, 0, 0, 0, 0, 1}, {2, 3, -5, 0, 0, 7}, {0, 1, 2, 0, 3, 4}, {1, 2, 1, 0, 1, 3},
			{0, 1e-15, 0, 0, 0, 1}, {0, 1e15, 0, 0, 0, 1}, {0, 1, 0, 0, 0, 1e15}, {0, 1, 0, 0, 0, 1e-15}, {0, 1e-12, 5, 0, 0, 0.001}, {1e-12, 0, 0, 0, 0, 1}, {1e12, 0, -1, 0, 0, 1}, {0, 0, 1e-9, 0, 1, 0}, {0, 0, 1e9, 0, 1, 0}, {0, 3e-5, 0, 0, 0, 1}, {0.001, 0.5, -2, 0, 0, 1}, {0, -1, 0, 0, 0, 1}, {0, -0.25, -7, 0, 0, -3}}
		var b strings.Builder
		for i, q := range cs {
			b.WriteString(ratio(fmt.Sprint("m", i), fmt.Sprintf("RAT_FUNC COEFFS %v %v %v %v %v %v", q[0], q[1], q[2], q[3], q[4], q[5])))
		}
		for i, q := range cs {
			i, q := i, q
			c.one(func() string { return fmt.Sprint(q) }, c.valueCase(projectText(moduleText("m", "", b.String())), func(cd *cal.CalibrationData, tick func(string) bool) {
				for dec := -70000.0; dec < 70000; dec += 1 {
					x, err := num(cd, fmt.Sprint("m", i), dec)
					if !tick(ratCheck(q, dec, x, err)) {
						return
					}
				}
			}))
		}
	}
	// tables: rows, order of the rows, with and without default
	ins := []float64{-1, 0, 1, 2.5, 255}
	probes := []float64{-2, -1, -0.5, 0, 0.5, 1, 1.5, 2, 2.5, 3, 254, 255, 256, 0.0000001, 254.9999}
	var rows [][]int // every sequence of up to three different inputs
	var rec func(p []int)
	rec = func(p []int) {
		rows = append(rows, append([]int(nil), p...))
		if len(p) == c.pick(3, 4) {
			return
		}
	next:
		for i := range ins {
			for _, x := range p {
				if x == i {
					continue next
				}
			}
			rec(append(p, i))
		}
	}
	rec(nil)
	sel := func(name string, b, other func(r []int, k int, def bool) string, f func(cd *cal.CalibrationData, r []int, k int, def bool) string) {
		if !c.fam(name) {
			return
		}
		for lo := 0; lo < len(rows); lo += 40 {
			hi := lo + 40
			if hi > len(rows) {
				hi = len(rows)
			}
			for _, def := range []bool{false, true} {
				for module := 0; module < 2; module++ {
					lo, hi, def, module := lo, hi, def, module
					var s, o strings.Builder
					for k := lo; k < hi; k++ {
						s.WriteString(b(rows[k], k, def))
						o.WriteString(other(rows[k], k, !def))
					}
					ms := []string{moduleText("m0", "", s.String()), moduleText("m1", "", o.String())}
					if module == 1 {
						ms[0], ms[1] = ms[1], ms[0]
					}
					c.one(func() string { return fmt.Sprint(lo, "/default=", def, "/module", module) }, c.valueCase(projectText(ms...), func(cd *cal.CalibrationData, tick func(string) bool) {
						cd.ModuleIndex = uint8(module)
						for k := lo; k < hi; k++ {
							if !tick(f(cd, rows[k], k, def)) {
								return
							}
						}
					}))
				}
			}
		}
	}
	// the tables of the other module map the same inputs to other outputs
	// what the rows and the default give: all different, or zero or one value in some places
	out := func(i int, k int) float64 {
		n := k
		if n >= 5000 {
			return float64(100*i + k + 7)
		}
		switch n % 5 {
		case 1:
			if i == 9 {
				return 0
			}
		case 2:
			if i == 9 {
				return -1
			}
			if i == 1 {
				return 0
			}
		case 3:
			return float64(1000 - 100*(i%2))
		case 4:
			return -float64(i) - 0.5
		}
		return float64(100*i + k + 7)
	}
	word := func(p string, i, k int) string {
		if v := out(i, k); v != 0 {
			return fmt.Sprint(p, v)
		}
		return ""
	}
	tab := func(shift int) func(r []int, k int, def bool) string {
		return func(r []int, k int, def bool) string {
			s := fmt.Sprintf("/begin COMPU_TAB t%d \"\" TAB_NOINTP %d", k, len(r))
			for _, i := range r {
				s += fmt.Sprintf(" %v %v", ins[i], out(i, k+shift))
			}
			if def {
				s += fmt.Sprintf(" DEFAULT_VALUE_NUMERIC %v", out(9, k+shift))
			}
			return s + " /end COMPU_TAB\n" + ratio(fmt.Sprint("m", k), fmt.Sprint("TAB_NOINTP COMPU_TAB_REF t", k))
		}
	}
	sel("table", tab(0), tab(5000), func(cd *cal.CalibrationData, r []int, k int, def bool) string {
		for _, x := range probes {
			want, ok := out(9, k), def
			for _, i := range r {
				if ins[i] == x {
					want, ok = out(i, k), true
				}
			}
			v, err := num(cd, fmt.Sprint("m", k), x)
			if ok && (err != nil || v != want) || !ok && err == nil {
				return fmt.Sprintf("%s of %v: %v, %v instead of %v (%v)", tab(0)(r, k, def), x, v, err, want, ok)
			}
		}
		return ""
	})
	vtab := func(shift int) func(r []int, k int, def bool) string {
		return func(r []int, k int, def bool) string {
			s := fmt.Sprintf("/begin COMPU_VTAB t%d \"\" TAB_VERB %d", k, len(r))
			for _, i := range r {
				s += fmt.Sprintf(" %v \"%s\"", ins[i], word("v", i, k+shift))
			}
			if def {
				s += fmt.Sprintf(" DEFAULT_VALUE \"%s\"", word("d", 9, k+shift))
			}
			return s + " /end COMPU_VTAB\n"
		}
	}
	sel("verbal", vtab(0), vtab(5000), func(cd *cal.CalibrationData, r []int, k int, def bool) string {
		t := cd.A2l.Project.Modules[cd.ModuleIndex].CompuVTabs[fmt.Sprint("t", k)]
		for _, x := range probes {
			want, ok := word("d", 9, k), def && len(r) > 0
			for _, i := range r {
				if ins[i] == x {
					want, ok = word("v", i, k), true
				}
			}
			v, err := bare(cal.VerifVerb(cd, x, &t))
			if len(r) == 0 && def {
				continue // a table without rows: its default may or may not count
			}
			if ok && (err != nil || v != want) || !ok && err == nil {
				return fmt.Sprintf("%s of %v: %q, %v instead of %q (%v)", vtab(0)(r, k, def), x, v, err, want, ok)
			}
		}
		t.Name = "nowhere"
		if v, err := cal.VerifVerb(cd, 0, &t); err == nil {
			return fmt.Sprintf("a table that does not exist: %q", v)
		}
		return ""
	})
	// ranges: limits that do not overlap, in any order of the rows
	lims := [][2]float64{{-10, -5}, {-1, 1}, {1, 2.5}, {4, 8}, {200, 300}}
	rtab := func(shift int) func(r []int, k int, def bool) string {
		return func(r []int, k int, def bool) string {
			s := fmt.Sprintf("/begin COMPU_VTAB_RANGE t%d \"\" %d", k, len(r))
			for _, i := range r {
				s += fmt.Sprintf(" %v %v \"%s\"", lims[i][0], lims[i][1], word("v", i, k+shift))
			}
			if def {
				s += fmt.Sprintf(" DEFAULT_VALUE \"%s\"", word("d", 9, k+shift))
			}
			return s + " /end COMPU_VTAB_RANGE\n"
		}
	}
	sel("ranges", rtab(0), rtab(5000), func(cd *cal.CalibrationData, r []int, k int, def bool) string {
		t := cd.A2l.Project.Modules[cd.ModuleIndex].CompuVTabRanges[fmt.Sprint("t", k)]
		for _, x := range []float64{-11, -10, -9.5, -6, -5.001, -4, -1.5, -1, -0.5, 0, 0.999, 1, 1.5, 2.4, 3, 4, 5, 7.9, 9, 199, 200, 250, 299.9, 301} {
			want, ok, edge := word("d", 9, k), def, false
			for _, i := range r {
				if lims[i][0] <= x && x < lims[i][1] {
					want, ok = word("v", i, k), true
				}
				// the upper limit itself belongs to the row for whole numbers and not for others
				edge = edge || lims[i][1] == x
			}
			v, err := bare(cal.VerifRange(cd, x, &t))
			if edge || len(r) == 0 && def {
				continue
			}
			if ok && (err != nil || v != want) || !ok && err == nil {
				return fmt.Sprintf("%s of %v: %q, %v instead of %q (%v)", rtab(0)(r, k, def), x, v, err, want, ok)
			}
		}
		t.Name = "nowhere"
		if v, err := cal.VerifRange(cd, 0, &t); err == nil {
			return fmt.Sprintf("a table that does not exist: %q", v)
		}
		return ""
	})
	// ranges that may overlap or be empty: judged where one row at most contains the number
	if c.fam("overlap") {
		var iv [][2]float64
		for a := 0; a <= 3; a++ {
			for b := a; b <= 3; b++ {
				iv = append(iv, [2]float64{float64(a), float64(b)})
			}
		}
		for a := range iv {
			for _, def := range []bool{false, true} {
				var s strings.Builder
				rows := func(k int) []int { return []int{a, k / len(iv), k % len(iv)} }
				n := len(iv) * len(iv)
				for k := 0; k < n; k++ {
					fmt.Fprintf(&s, "/begin COMPU_VTAB_RANGE t%d \"\" 3", k)
					for j, i := range rows(k) {
						fmt.Fprintf(&s, " %v %v \"r%d\"", iv[i][0], iv[i][1], j)
					}
					if def {
						s.WriteString(" DEFAULT_VALUE \"d\"")
					}
					s.WriteString(" /end COMPU_VTAB_RANGE\n")
				}
				c.one(func() string { return fmt.Sprint(a, "/default=", def) }, c.valueCase(projectText(moduleText("m", "", s.String())), func(cd *cal.CalibrationData, tick func(string) bool) {
					for k := 0; k < n; k++ {
						t := cd.A2l.Project.Modules[0].CompuVTabRanges[fmt.Sprint("t", k)]
						for x := -0.5; x < 4.5; x += 0.5 {
							hits, edge, want := 0, false, "d"
							for j, i := range rows(k) {
								if iv[i][0] <= x && x < iv[i][1] {
									hits++
									want = fmt.Sprint("r", j)
								}
								edge = edge || iv[i][1] == x
							}
							if edge || hits > 1 {
								continue
							}
							v, err := bare(cal.VerifRange(cd, x, &t))
							m := ""
							if ok := hits == 1 || def; ok && (err != nil || v != want) || !ok && err == nil {
								m = fmt.Sprintf("ranges %v %v %v (default %v) of %v: %q, %v instead of %q", iv[rows(k)[0]], iv[rows(k)[1]], iv[rows(k)[2]], def, x, v, err, want)
							}
							if !tick(m) {
								return
							}
						}
					}
				}))
			}
		}
	}
	// long tables: every row is found
	// inputs that differ little
	if c.fam("close") {
		at := []float64{0, 1, -1, 2, 3, 10, 100, 255, 256, 1000, 65535, 65536, 1e6, 16777216, 16777217, 2147483648, 4294967295, 1e10, 9007199254740992, 1e17, 1e30, 0.1, 0.5, 1e-3, 1e-6, 1e-9, 1e-12, 1e-20, 1e-300, -0.1, -255, -65536, -1e6}
		by := []float64{0, 1, 0.5, 0.1, 0.01, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10, 1e-11, 1e-12, 1e-13, 1e-14, 1e-15}
		lit := func(x float64) string { return strconv.FormatFloat(x, 'g', -1, 64) }
		for i, x := range at {
			for j, d := range by {
				for v := 0; v < 4; v++ {
					y := x + d
					if v >= 2 {
						y = x + d*math.Abs(x)
					}
					if d == 0 {
						y = math.Nextafter(x, math.Inf(1))
					}
					z := math.Nextafter(y, math.Inf(1))
					below := math.Nextafter(x, math.Inf(-1))
					mid := x + (y-x)/2
					if y == x {
						continue
					}
					p, q := x, y
					if v%2 == 1 {
						p, q = y, x
					}
					name := func(w float64) string {
						if w == x {
							return "x"
						}
						return "y"
					}
					val := func(w float64) int {
						if w == x {
							return 71
						}
						return 72
					}
					t := fmt.Sprintf("/begin COMPU_TAB t \"\" TAB_NOINTP 2 %s %d %s %d /end COMPU_TAB\n%s/begin COMPU_VTAB v \"\" TAB_VERB 2 %s \"%s\" %s \"%s\" /end COMPU_VTAB\n/begin COMPU_VTAB_RANGE r \"\" 1 %s %s \"x\" /end COMPU_VTAB_RANGE\n",
						lit(p), val(p), lit(q), val(q), ratio("m", "TAB_NOINTP COMPU_TAB_REF t"), lit(p), name(p), lit(q), name(q), lit(x), lit(y))
					c.one(func() string { return fmt.Sprintf("%d-%d-%d", i, j, v) }, c.valueCase(projectText(moduleText("m", "", t)), func(cd *cal.CalibrationData, tick func(string) bool) {
						vt, rt := cd.A2l.Project.Modules[0].CompuVTabs["v"], cd.A2l.Project.Modules[0].CompuVTabRanges["r"]
						for _, w := range []float64{x, y, z, below, mid} {
							row := w == x || w == y
							m := ""
							if k, err := num(cd, "m", w); row && (err != nil || k != float64(val(w))) || !row && err == nil {
								m = fmt.Sprintf("table with rows %s and %s: %s gives %v, %v", lit(p), lit(q), lit(w), k, err)
							}
							if k, err := bare(cal.VerifVerb(cd, w, &vt)); row && (err != nil || k != name(w)) || !row && err == nil {
								m = fmt.Sprintf("verbal table with rows %s and %s: %s gives %q, %v", lit(p), lit(q), lit(w), k, err)
							}
							if w != y {
								if k, err := bare(cal.VerifRange(cd, w, &rt)); (err == nil) != (w >= x && w < y) {
									m = fmt.Sprintf("range from %s to %s: %s gives %q, %v", lit(x), lit(y), lit(w), k, err)
								}
							}
							if !tick(m) {
								return
							}
						}
					}))
				}
			}
		}
	}
	if c.fam("long") {
		for _, n := range []int{5, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 2000} {
			n := n
			var t, v, r strings.Builder
			fmt.Fprintf(&t, "/begin COMPU_TAB t \"\" TAB_NOINTP %d", n)
			fmt.Fprintf(&v, "/begin COMPU_VTAB v \"\" TAB_VERB %d", n)
			fmt.Fprintf(&r, "/begin COMPU_VTAB_RANGE r \"\" %d", n)
			in := func(i int) int { return (i*7+3)%n*2 - n/2*2 } // every row another even number, not in order
			if n%7 == 0 {
				in = func(i int) int { return (i*5+3)%n*2 - n/2*2 }
			}
			for i := 0; i < n; i++ {
				fmt.Fprintf(&t, " %d %d.5", in(i), i)
				fmt.Fprintf(&v, " %d \"t%d\"", in(i), i)
				fmt.Fprintf(&r, " %d %v \"r%d\"", in(i), float64(in(i))+1.25, i)
			}
			t.WriteString(" /end COMPU_TAB\n" + ratio("m", "TAB_NOINTP COMPU_TAB_REF t"))
			v.WriteString(" /end COMPU_VTAB\n")
			r.WriteString(" /end COMPU_VTAB_RANGE\n")
			c.one(func() string { return fmt.Sprint(n) }, c.valueCase(projectText(moduleText("m", "", t.String()+v.String()+r.String())), func(cd *cal.CalibrationData, tick func(string) bool) {
				vt, rt := cd.A2l.Project.Modules[0].CompuVTabs["v"], cd.A2l.Project.Modules[0].CompuVTabRanges["r"]
				for i := 0; i < n; i++ {
					for _, off := range []float64{0, 0.5, 1, 1.5} {
						x := float64(in(i)) + off
						y, err := num(cd, "m", x)
						s, err2 := bare(cal.VerifVerb(cd, x, &vt))
						u, err3 := bare(cal.VerifRange(cd, x, &rt))
						m := ""
						if off == 0 && (err != nil || y != float64(i)+0.5) || off != 0 && err == nil {
							m = fmt.Sprintf("table of %d rows: %v gives %v, %v", n, x, y, err)
						}
						if off == 0 && (err2 != nil || s != fmt.Sprint("t", i)) || off != 0 && err2 == nil {
							m = fmt.Sprintf("verbal table of %d rows: %v gives %v, %v", n, x, s, err2)
						}
						if off <= 1 && (err3 != nil || u != fmt.Sprint("r", i)) || off > 1 && err3 == nil {
							m = fmt.Sprintf("table of %d ranges: %v gives %v, %v", n, x, u, err3)
						}
						if !tick(m) {
							return
						}
					}
				}
			}))
		}
	}
	if c.fam("constants") {
		names := []string{"a", "b", "c"}
		vals := []string{"", "1", "x y", "0x10", "-1.5"}
		for set := 0; set < 8; set++ {
			for rot := range vals {
				for module := 0; module < 2; module++ {
					set, rot, module := set, rot, module
					mods := make([]string, 2)
					for m := range mods {
						s := "/begin MOD_PAR \"\"\n"
						for i, n := range names {
							in := set>>uint(i)&1 == 1
							if m == module && in {
								s += fmt.Sprintf("SYSTEM_CONSTANT \"%s\" \"%s\"\n", n, vals[(i+rot)%5])
							} else if m != module {
								s += fmt.Sprintf("SYSTEM_CONSTANT \"%s\" \"other%d\"\n", n, i)
							}
						}
						mods[m] = moduleText(fmt.Sprint("m", m), "", s+"/end MOD_PAR\n")
					}
					c.one(func() string { return fmt.Sprint(set, "/", rot, "/", module) }, c.valueCase(projectText(mods...), func(cd *cal.CalibrationData, tick func(string) bool) {
						cd.ModuleIndex = uint8(module)
						for i, n := range names {
							// the name as it stands in the text, with its quotation marks, or without
							v, err := bare(cal.VerifConstant(cd, "\""+n+"\""))
							if w, err2 := bare(cal.VerifConstant(cd, n)); err != nil {
								v, err = w, err2
							}
							m := ""
							if set>>uint(i)&1 == 1 {
								if err != nil || v != vals[(i+rot)%5] {
									m = fmt.Sprintf("constant %s: %q, %v instead of %q", n, v, err, vals[(i+rot)%5])
								}
							} else if err == nil {
								m = fmt.Sprintf("constant %s does not exist: %q", n, v)
							}
							if !tick(m) {
								return
							}
						}
					}))
				}
			}
		}
	}
}

// ratCheck judges the inversion x of dec; coefficients whose numerator and denominator have a common root are left out.
func ratCheck(q [6]float64, dec, x float64, err error) string {
	a, b, cc, d, e, f := q[0], q[1], q[2], q[3], q[4], q[5]
	// resultant of axx+bx+c and dxx+ex+f (as polynomials of degree two): zero if they have a common root (or one at infinity)
	if res := (a*f-cc*d)*(a*f-cc*d) - (a*e-b*d)*(b*f-cc*e); res == 0 && (a != 0 || d != 0) {
		return ratCommon(q, dec, x, err)
	} else if a == 0 && d == 0 && b*f-cc*e == 0 {
		return ratCommon(q, dec, x, err)
	}
	p, r, s := a-d*dec, b-e*dec, cc-f*dec
	solvable := p != 0 && r*r-4*p*s >= 0 || p == 0 && r != 0
	if !solvable {
		if err == nil {
			return fmt.Sprintf("RAT_FUNC %v: %v has no physical value, but %v was returned", q, dec, x)
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("RAT_FUNC %v of %v: %v", q, dec, err)
	}
	n := a*x*x + b*x + cc
	m := d*x*x + e*x + f
	scale := math.Abs(a*x*x) + math.Abs(b*x) + math.Abs(cc) + math.Abs(dec)*(math.Abs(d*x*x)+math.Abs(e*x)+math.Abs(f))
	if math.IsNaN(x) || math.IsInf(x, 0) || math.Abs(n-dec*m) > 1e-7*scale {
		return fmt.Sprintf("RAT_FUNC %v of %v: %v, for which the function is %v", q, dec, x, n/m)
	}
	return ""
}

// ratCommon judges functions whose numerator and denominator have a common root, where the solutions are small binary fractions:
// a solution at which the denominator is zero is none.
func ratCommon(q [6]float64, dec, x float64, err error) string {
	a, b, cc, d, e, f := q[0], q[1], q[2], q[3], q[4], q[5]
	p, r, s := a-d*dec, b-e*dec, cc-f*dec
	var sol []float64
	switch {
	case p != 0:
		disc := r*r - 4*p*s
		if disc >= 0 {
			w := math.Sqrt(disc)
			if w*w != disc {
				return ""
			}
			sol = append(sol, (-r+w)/(2*p), (-r-w)/(2*p))
		}
	case r != 0:
		sol = append(sol, -s/r)
	case s == 0:
		return "" // any value
	}
	var good []float64
	for _, y := range sol {
		if y*64 != math.Trunc(y*64) {
			return ""
		}
		if d*y*y+e*y+f != 0 {
			good = append(good, y)
		}
	}
	if len(good) == 0 {
		if err == nil {
			return fmt.Sprintf("RAT_FUNC %v: %v has no physical value, but %v was returned", q, dec, x)
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("RAT_FUNC %v of %v: %v", q, dec, err)
	}
	for _, y := range good {
		if math.Abs(x-y) <= 1e-9*(1+math.Abs(y)) {
			return ""
		}
	}
	return fmt.Sprintf("RAT_FUNC %v of %v: %v instead of one of %v", q, dec, x, good)
}
