package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/asap2Go/calibrationReader/ihex32"
	"github.com/asap2Go/calibrationReader/srec19"
	"github.com/asap2Go/calibrationReader/zzverif/vsched"
)

// Rec is a record of either format in the abstract model.
type Rec struct {
	Kind byte //ihex: '0' data, '1' end, '4' extended address, '3','5' start; srec: '3' data, '0','5'..'9' others, '1','2'; 'b' blank
	Addr uint32
	Data []byte
}

// Fmt selects the hex format.
type Fmt int

const (
	IHex Fmt = iota
	SRec
)

func (f Fmt) name() string { return [...]string{"hex", "s19"}[f] }

func (f Fmt) parse(p string) (map[uint32]byte, error) {
	if f == IHex {
		return ihex32.ParseFromFile(p)
	}
	return srec19.ParseFromFile(p)
}

// line writes the record.
func (f Fmt) line(r Rec) string {
	if r.Kind == 'b' {
		return ""
	}
	var sum byte
	var sb strings.Builder
	put := func(b byte) {
		sum += b
		fmt.Fprintf(&sb, "%02X", b)
	}
	if f == IHex {
		put(byte(len(r.Data)))
		put(byte(r.Addr >> 8))
		put(byte(r.Addr))
		put(r.Kind - '0')
		for _, b := range r.Data {
			put(b)
		}
		return ":" + sb.String() + fmt.Sprintf("%02X", -sum)
	}
	n := srecAddr(r.Kind)
	put(byte(len(r.Data) + n + 1))
	for i := n - 1; i >= 0; i-- {
		put(byte(r.Addr >> (8 * uint(i))))
	}
	for _, b := range r.Data {
		put(b)
	}
	return "S" + string(r.Kind) + sb.String() + fmt.Sprintf("%02X", 255-sum)
}

func srecAddr(kind byte) int {
	switch kind {
	case '3', '7':
		return 4
	case '2', '8', '6':
		return 3
	}
	return 2
}

// image is the reference: the bytes the records describe, and whether an address is assigned twice.
func (f Fmt) image(recs []Rec) (map[uint32]byte, bool) {
	m := map[uint32]byte{}
	dup := false
	var ext uint32
	for _, r := range recs {
		switch {
		case f == IHex && r.Kind == '4':
			ext = uint32(r.Data[0])<<8 | uint32(r.Data[1])
		case f == IHex && r.Kind == '0' || f == SRec && r.Kind == '3':
			a := r.Addr
			if f == IHex {
				a = ext<<16 + r.Addr
			}
			for _, b := range r.Data {
				if _, ok := m[a]; ok {
					dup = true
				}
				m[a] = b
				a++
			}
		}
	}
	return m, dup
}

func ela(v uint32) Rec { return Rec{'4', 0, []byte{byte(v >> 8), byte(v)}} }

// text joins lines.
func (f Fmt) text(recs []Rec, nl string, last bool) string {
	var ls []string
	for _, r := range recs {
		ls = append(ls, f.line(r))
	}
	s := strings.Join(ls, nl)
	if last {
		s += nl
	}
	return s
}

func diffImage(got, want map[uint32]byte) string {
	if len(got) == len(want) {
		same := true
		for a, b := range want {
			if g, ok := got[a]; !ok || g != b {
				same = false
				break
			}
		}
		if same {
			return ""
		}
	}
	var out []string
	for a, b := range want {
		if g, ok := got[a]; !ok {
			out = append(out, fmt.Sprintf("%08X:%02X missing", a, b))
		} else if g != b {
			out = append(out, fmt.Sprintf("%08X:%02X is %02X", a, b, g))
		}
	}
	for a, g := range got {
		if _, ok := want[a]; !ok {
			out = append(out, fmt.Sprintf("%08X:%02X not in the file", a, g))
		}
	}
	sort.Strings(out)
	n := len(out)
	if n > 8 {
		out = out[:8]
	}
	return fmt.Sprintf("%d differences in the image: %s", n, strings.Join(out, ", "))
}

// hexOK is a case in which reading the text must give the image of the records.
func (c *Ctx) hexOK(f Fmt, text string, want map[uint32]byte) func() (func(), func(*vsched.Exec) string) {
	return func() (func(), func(*vsched.Exec) string) {
		p := c.file("in."+f.name(), text)
		var got map[uint32]byte
		var err error
		return func() { got, err = f.parse(p) }, func(*vsched.Exec) string {
			if err != nil {
				return "a well-formed file is rejected: " + err.Error()
			}
			c.outcome(fmt.Sprint(len(got)))
			return diffImage(got, want)
		}
	}
}

// hexErr is a case in which reading the text must fail.
func (c *Ctx) hexErr(f Fmt, text, why string) func() (func(), func(*vsched.Exec) string) {
	return func() (func(), func(*vsched.Exec) string) {
		p := c.file("in."+f.name(), text)
		var got map[uint32]byte
		var err error
		return func() { got, err = f.parse(p) }, func(*vsched.Exec) string {
			if err == nil {
				return fmt.Sprintf("accepted (%d bytes) although %s", len(got), why)
			}
			c.outcome(err.Error())
			return ""
		}
	}
}

// fill gives distinct data bytes.
func fill(n, k int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + k*29 + 1)
	}
	return b
}

func pow(b, e int) int {
	r := 1
	for ; e > 0; e-- {
		r *= b
	}
	return r
}
