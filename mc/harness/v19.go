//go:build v19

package main

import (
	"fmt"

	cal "github.com/asap2Go/calibrationReader"
)

func init() { props["C19"] = decode }

func decode(c *Ctx) {
	decodeOne := func(cd *cal.CalibrationData, b []byte, d datatype, o order) string {
		v, err := cal.VerifDecode(cd, b, d.e)
		if o.bad || len(b) < d.size {
			if err == nil {
				return fmt.Sprintf("%s %s % x: no error, but %v", d.name, o.name, b, v)
			}
			return ""
		}
		if err != nil {
			return fmt.Sprintf("%s %s % x: %v", d.name, o.name, b, err)
		}
		if w := number(b, d, o.little); !sameFloat(v, w) {
			return fmt.Sprintf("%s %s % x: %v instead of %v", d.name, o.name, b, v, w)
		}
		return ""
	}
	// a project of two modules, the other one with the other order, so that the selected one has to be used
	text := func(o order, m uint8) string {
		other := "MSB_FIRST"
		if !o.little {
			other = "MSB_LAST"
		}
		var ms []string
		for k := uint8(0); k < 3; k++ {
			n := other
			if k == m {
				n = o.name
			}
			ms = append(ms, moduleText(fmt.Sprint("m", k), "BYTE_ORDER "+n, ""))
		}
		return projectText(ms...)
	}
	each := func(o order, name string, f func(cd *cal.CalibrationData, tick func(string) bool)) {
		for _, m := range []uint8{0, 1, 2} {
			m := m
			c.one(func() string { return fmt.Sprint(o.name, "/module", m, "/", name) }, c.valueCase(text(o, m), func(cd *cal.CalibrationData, tick func(string) bool) {
				cd.ModuleIndex = m
				f(cd, tick)
			}))
		}
	}
	for _, o := range orders {
		o := o
		for _, d := range datatypes {
			d := d
			if c.fam("values") {
				switch d.size {
				case 1, 2:
					each(o, d.name, func(cd *cal.CalibrationData, tick func(string) bool) {
						for v := 0; v < 1<<(8*uint(d.size)); v++ {
							b := []byte{byte(v), byte(v >> 8)}[:d.size]
							if !tick(decodeOne(cd, b, d, o)) {
								return
							}
						}
					})
				default:
					alpha := []byte{0, 1, 0x7f, 0x80, 0xff, 0x3f, 0xc0, 0x12, 0x55, 0xf0, 0x0f, 0xfe, 0x40, 0xbf, 0x81, 0x7e}
					n := 16
					if d.size == 8 {
						n = c.pick(5, 7)
					}
					alpha = alpha[:n]
					each(o, d.name, func(cd *cal.CalibrationData, tick func(string) bool) {
						b := make([]byte, d.size)
						total := 1
						for range b {
							total *= n
						}
						for v := 0; v < total; v++ {
							x := v
							for i := range b {
								b[i] = alpha[x%n]
								x /= n
							}
							if !tick(decodeOne(cd, b, d, o)) {
								return
							}
						}
						// one byte of each value on a background of equal bytes
						for _, bg := range []byte{0, 0xff, 0x41} {
							for i := range b {
								for v := 0; v < 256; v++ {
									for j := range b {
										b[j] = bg
									}
									b[i] = byte(v)
									if !tick(decodeOne(cd, b, d, o)) {
										return
									}
								}
							}
						}
					})
				}
			}
			if c.fam("every-value") && c.thorough() && d.size == 4 && !o.bad {
				for hi := 0; hi < 256; hi++ {
					hi := hi
					c.one(func() string { return fmt.Sprint(o.name, "/", d.name, "/", hi) }, c.valueCase(text(o, 0), func(cd *cal.CalibrationData, tick func(string) bool) {
						b := make([]byte, 4)
						b[3] = byte(hi)
						for v := 0; v < 1<<24; v++ {
							b[0], b[1], b[2] = byte(v), byte(v>>8), byte(v>>16)
							if !tick(decodeOne(cd, b, d, o)) {
								return
							}
						}
					}))
				}
			}
			if c.fam("lengths") {
				// any number of bytes: too few are reported, what lies behind does not matter
				each(o, d.name, func(cd *cal.CalibrationData, tick func(string) bool) {
					for n := 0; n <= 20; n++ {
						for _, k := range []int{1, 37, 91, 201} {
							b := make([]byte, n)
							for i := range b {
								b[i] = byte(0x31 + k*i)
							}
							if !tick(decodeOne(cd, b, d, o)) {
								return
							}
							if n == 0 && !tick(decodeOne(cd, nil, d, o)) {
								return
							}
						}
					}
				})
			}
		}
	}
}
