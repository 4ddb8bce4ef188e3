//go:build v19 || v20 || v21 || v22

package main

import (
	"fmt"
	"math"
	"strings"

	cal "github.com/asap2Go/calibrationReader"
	"github.com/asap2Go/calibrationReader/a2l"
	"github.com/asap2Go/calibrationReader/zzverif/vsched"
)

// datatype is one of the eleven datatypes, with what the model knows of it.
type datatype struct {
	e     a2l.DataTypeEnum
	name  string
	size  int
	class int // which alignment applies
}

var datatypes = []datatype{
	{a2l.UBYTE, "UBYTE", 1, 0}, {a2l.SBYTE, "SBYTE", 1, 0}, {a2l.UWORD, "UWORD", 2, 1}, {a2l.SWORD, "SWORD", 2, 1},
	{a2l.ULONG, "ULONG", 4, 2}, {a2l.SLONG, "SLONG", 4, 2}, {a2l.AUint64, "A_UINT64", 8, 3}, {a2l.AInt64, "A_INT64", 8, 3},
	{a2l.Float16Ieee, "FLOAT16_IEEE", 2, 4}, {a2l.Float32Ieee, "FLOAT32_IEEE", 4, 5}, {a2l.Float64Ieee, "FLOAT64_IEEE", 8, 6},
}

var alignments = []string{"ALIGNMENT_BYTE", "ALIGNMENT_WORD", "ALIGNMENT_LONG", "ALIGNMENT_INT64", "ALIGNMENT_FLOAT16_IEEE", "ALIGNMENT_FLOAT32_IEEE", "ALIGNMENT_FLOAT64_IEEE"}
var defaultBorder = []uint32{1, 2, 4, 8, 2, 4, 8}

type order struct {
	name   string
	little bool
	bad    bool
}

var orders = []order{{"MSB_FIRST", false, false}, {"MSB_LAST", true, false}, {"BIG_ENDIAN", false, false}, {"LITTLE_ENDIAN", true, false},
	{"MSB_FIRST_MSW_LAST", false, true}, {"MSB_LAST_MSW_FIRST", true, true}}

// number is what the bytes stand for.
func number(b []byte, d datatype, little bool) float64 {
	var u uint64
	for i := 0; i < d.size; i++ {
		if little {
			u |= uint64(b[i]) << (8 * uint(i))
		} else {
			u = u<<8 | uint64(b[i])
		}
	}
	switch d.name {
	case "UBYTE", "UWORD", "ULONG", "A_UINT64":
		return float64(u)
	case "SBYTE", "SWORD", "SLONG", "A_INT64":
		s := uint(64 - 8*d.size)
		return float64(int64(u<<s) >> s)
	case "FLOAT16_IEEE":
		sign := 1.0
		if u&0x8000 != 0 {
			sign = -1
		}
		exp, frac := int(u>>10)&31, float64(u&0x3ff)
		switch {
		case exp == 31 && frac == 0:
			return math.Inf(int(sign))
		case exp == 31:
			return math.NaN()
		case exp == 0:
			return sign * math.Ldexp(frac, -24)
		}
		return sign * math.Ldexp(1024+frac, exp-25)
	case "FLOAT32_IEEE":
		return float64(math.Float32frombits(uint32(u)))
	}
	return math.Float64frombits(u)
}

func sameFloat(a, b float64) bool {
	return math.IsNaN(a) && math.IsNaN(b) || math.Float64bits(a) == math.Float64bits(b)
}

// valueCase is a case that reads an A2L text and then calls f on what was read. f calls tick for every comparison.
func (c *Ctx) valueCase(text string, f func(cd *cal.CalibrationData, tick func(string) bool)) mkFn {
	return func() (func(), func(x *vsched.Exec) string) {
		p := c.file("v.a2l", text)
		msg := ""
		return func() {
				msg = ""
				a, err := a2l.ParseFromFile(p)
				if err != nil {
					msg = "the description could not be read: " + err.Error()
					return
				}
				cd := &cal.CalibrationData{A2l: a}
				f(cd, func(m string) bool {
					c.res.States++
					c.res.Transitions++
					c.res.Compared++
					if m != "" && msg == "" {
						msg = m
					}
					return m == ""
				})
			}, func(x *vsched.Exec) string {
				return msg
			}
	}
}

// module is the text of a module.
func moduleText(name, common, body string) string {
	return "/begin MODULE " + name + " \"\"\n/begin MOD_COMMON \"\" " + common + " /end MOD_COMMON\n" + body + "/end MODULE\n"
}

func projectText(modules ...string) string {
	return "ASAP2_VERSION 1 71\n/begin PROJECT p \"\"\n" + strings.Join(modules, "") + "/end PROJECT\n"
}

// borders is the text of the alignments whose bit is set, with the given borders.
func bordersText(set int, b []uint32) string {
	var s strings.Builder
	for i, n := range alignments {
		if set>>uint(i)&1 == 1 {
			fmt.Fprintf(&s, "%s %d ", n, b[i])
		}
	}
	return s.String()
}

func border(class, rlSet int, rl []uint32, mcSet int, mc []uint32) uint32 {
	switch {
	case rlSet>>uint(class)&1 == 1:
		return rl[class]
	case mcSet>>uint(class)&1 == 1:
		return mc[class]
	}
	return defaultBorder[class]
}

func alignUp(a, border uint32) uint32 {
	if r := a % border; r != 0 {
		return a - r + border
	}
	return a
}
