package main

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
)

// The reference model of the A2L language: one line per keyword,
//
//	[*]KEYWORD name[:type[?]]... [| list columns] [; options]
//
// where * marks a block (/begin .. /end), ? an optional trailing parameter, the list columns repeat until the block
// ends (or as often as the parameter of type "count" says) and an option with + may be repeated.
// Types: id (default), text, addr, u16 u32 i16 i32 f64 (decimal), count, flag (no token), join, name*n, enumerations.
const a2lGrammar = `
ROOT ; ASAP2_VERSION A2ML_VERSION PROJECT
*PROJECT Name longIdentifier:text ; HEADER MODULE+
*HEADER comment:text ; PROJECT_NO VERSION
*MODULE Name longIdentifier:text ; A2ML AXIS_PTS+ BLOB+ CHARACTERISTIC+ COMPU_METHOD+ COMPU_TAB+ COMPU_VTAB+ COMPU_VTAB_RANGE+ FRAME FUNCTION+ GROUP+ IF_DATA+ INSTANCE+ MEASUREMENT+ MOD_COMMON MOD_PAR RECORD_LAYOUT+ TRANSFORMER+ TYPEDEF_AXIS+ TYPEDEF_BLOB+ TYPEDEF_CHARACTERISTIC+ TYPEDEF_MEASUREMENT+ TYPEDEF_STRUCTURE+ UNIT+ USER_RIGHTS+ VARIANT_CODING
*A2ML | formatSpecification:join
A2ML_VERSION VersionNo:u16 UpgradeNo:u16
ADDR_EPK address:addr
ADDRESS_TYPE value:AddrType
ALIGNMENT_BYTE AlignmentBorder:u16
ALIGNMENT_FLOAT16_IEEE AlignmentBorder:u16
ALIGNMENT_FLOAT32_IEEE AlignmentBorder:u16
ALIGNMENT_FLOAT64_IEEE AlignmentBorder:u16
ALIGNMENT_INT64 AlignmentBorder:u16
ALIGNMENT_LONG AlignmentBorder:u16
ALIGNMENT_WORD AlignmentBorder:u16
*ANNOTATION ; ANNOTATION_LABEL ANNOTATION_ORIGIN ANNOTATION_TEXT+
ANNOTATION_LABEL label:text
ANNOTATION_ORIGIN origin:text
*ANNOTATION_TEXT | annotationText:join
*AR_COMPONENT componentType:text ; AR_PROTOTYPE_OF
AR_PROTOTYPE_OF name
ARRAY_SIZE number:u16
ASAP2_VERSION versionNo:u16 upgradeNo:u16
*AXIS_DESCR attribute:AxisAttr inputQuantity conversion maxAxisPoints:u16 lowerLimit:f64 upperLimit:f64 ; ANNOTATION+ AXIS_PTS_REF BYTE_ORDER CURVE_AXIS_REF DEPOSIT EXTENDED_LIMITS FIX_AXIS_PAR FIX_AXIS_PAR_DIST FIX_AXIS_PAR_LIST+ FORMAT MAX_GRAD MONOTONY PHYS_UNIT READ_ONLY STEP_SIZE
*AXIS_PTS name longIdentifier:text address:addr inputQuantity depositIdent maxDiff:f64 conversion maxAxisPoints:u16 lowerLimit:f64 upperLimit:f64 ; ANNOTATION+ BYTE_ORDER CALIBRATION_ACCESS DEPOSIT DISPLAY_IDENTIFIER ECU_ADDRESS_EXTENSION EXTENDED_LIMITS FORMAT FUNCTION_LIST+ GUARD_RAILS IF_DATA+ MODEL_LINK MONOTONY PHYS_UNIT READ_ONLY REF_MEMORY_SEGMENT STEP_SIZE SYMBOL_LINK
AXIS_PTS_X Position:u16 Datatype:DataType IndexIncr:IndexOrder Addressing:AddrType
AXIS_PTS_Y Position:u16 Datatype:DataType IndexIncr:IndexOrder Addressing:AddrType
AXIS_PTS_Z Position:u16 Datatype:DataType IndexIncr:IndexOrder Addressing:AddrType
AXIS_PTS_4 Position:u16 Datatype:DataType IndexIncr:IndexOrder Addressing:AddrType
AXIS_PTS_5 Position:u16 Datatype:DataType IndexIncr:IndexOrder Addressing:AddrType
AXIS_PTS_REF axisPoints
AXIS_RESCALE_X Position:u16 Datatype:DataType MaxNumberOfRescalePairs:u16 IndexIncr:IndexOrder Adressing:AddrType
BIT_MASK mask:addr
*BIT_OPERATION ; LEFT_SHIFT RIGHT_SHIFT SIGN_EXTEND
*BLOB name longIdentifier:text address:addr size:u32 ; ANNOTATION+ ADDRESS_TYPE=DIRECT CALIBRATION_ACCESS DISPLAY_IDENTIFIER ECU_ADDRESS_EXTENSION IF_DATA+ MAX_REFRESH MODEL_LINK SYMBOL_LINK
BYTE_ORDER ByteOrder:ByteOrder
CALIBRATION_ACCESS value:CalibrationAccess
*CALIBRATION_HANDLE | handle:addr ; CALIBRATION_HANDLE_TEXT
CALIBRATION_HANDLE_TEXT text:text
*CALIBRATION_METHOD method:text version:u32 ; CALIBRATION_HANDLE+
*CHARACTERISTIC Name LongIdentifier:text Type:CharType Address:addr Deposit maxDiff:f64 conversion lowerLimit:f64 upperLimit:f64 ; ANNOTATION+ AXIS_DESCR+ BIT_MASK BYTE_ORDER CALIBRATION_ACCESS COMPARISON_QUANTITY DEPENDENT_CHARACTERISTIC+ DISCRETE DISPLAY_IDENTIFIER ENCODING ECU_ADDRESS_EXTENSION EXTENDED_LIMITS FORMAT FUNCTION_LIST+ GUARD_RAILS IF_DATA+ MAP_LIST+ MATRIX_DIM MAX_REFRESH MODEL_LINK NUMBER PHYS_UNIT READ_ONLY REF_MEMORY_SEGMENT STEP_SIZE SYMBOL_LINK VIRTUAL_CHARACTERISTIC+
COEFFS A:f64 B:f64 C:f64 D:f64 E:f64 F:f64
COEFFS_LINEAR A:f64 B:f64
COMPARISON_QUANTITY name
*COMPU_METHOD Name LongIdentifier:text ConversionType:ConversionType Format:text Unit:text ; COEFFS COEFFS_LINEAR COMPU_TAB_REF FORMULA+ REF_UNIT STATUS_STRING_REF
*COMPU_TAB Name longIdentifier:text ConversionType:ConversionType NumberValuePairs:count | InVal:f64 OutVal:f64 ; DEFAULT_VALUE DEFAULT_VALUE_NUMERIC
COMPU_TAB_REF ConversionTable
*COMPU_VTAB Name LongIdentifier:text ConversionType:ConversionType NumberValuePairs:count | InVal:f64 OutVal:text ; DEFAULT_VALUE
*COMPU_VTAB_RANGE Name LongIdentifier:text NumberValueTriples:count | InValMin:f64 InValMax:f64 OutVal:text ; DEFAULT_VALUE
CONSISTENT_EXCHANGE value:flag
CONVERSION value:id
CPU_TYPE cpu:text
CURVE_AXIS_REF curveAxis
CUSTOMER customer:text
CUSTOMER_NO number:text
DATA_SIZE size:u16
*DEF_CHARACTERISTIC | identifier
DEFAULT_VALUE DisplayString:text
DEFAULT_VALUE_NUMERIC DisplayValue:f64
*DEPENDENT_CHARACTERISTIC formula:text | characteristic
DEPOSIT mode:Mode
DISCRETE value:flag
DISPLAY_IDENTIFIER displayName
DIST_OP_X Position:u16 Datatype:DataType
DIST_OP_Y Position:u16 Datatype:DataType
DIST_OP_Z Position:u16 Datatype:DataType
DIST_OP_4 Position:u16 Datatype:DataType
DIST_OP_5 Position:u16 Datatype:DataType
ECU controlUnit:text
ECU_ADDRESS address:addr
ECU_ADDRESS_EXTENSION extension:i16
ECU_CALIBRATION_OFFSET offset:addr
ENCODING value:Encoding
EPK identifier:text
ERROR_MASK mask:addr
EXTENDED_LIMITS lowerLimit:f64 upperLimit:f64
FIX_AXIS_PAR offset:i16 shift:i16 numberapo:u16
FIX_AXIS_PAR_DIST offset:i16 distance:i16 numberapo:u16
*FIX_AXIS_PAR_LIST | axisPtsValue:f64
FIX_NO_AXIS_PTS_X NumberOfAxisPoints:u16
FIX_NO_AXIS_PTS_Y NumberOfAxisPoints:u16
FIX_NO_AXIS_PTS_Z NumberOfAxisPoints:u16
FIX_NO_AXIS_PTS_4 NumberOfAxisPoints:u16
FIX_NO_AXIS_PTS_5 NumberOfAxisPoints:u16
FNC_VALUES Position:u16 Datatype:DataType IndexMode:IndexMode Addresstype:AddrType
FORMAT formatString:text
*FORMULA | fx:text ; FORMULA_INV
FORMULA_INV gx:text
*FRAME name longIdentifier:text scalingUnit:u16 rate:u32 ; FRAME_MEASUREMENT IF_DATA+
FRAME_MEASUREMENT | identifier
*FUNCTION name longIdentifier:text ; ANNOTATION+ AR_COMPONENT DEF_CHARACTERISTIC FUNCTION_VERSION IF_DATA+ IN_MEASUREMENT LOC_MEASUREMENT OUT_MEASUREMENT REF_CHARACTERISTIC SUB_FUNCTION
*FUNCTION_LIST | name
FUNCTION_VERSION versionIdentifier:text
*GROUP groupName groupLongIdentifier:text ; ANNOTATION+ FUNCTION_LIST IF_DATA+ REF_CHARACTERISTIC REF_MEASUREMENT ROOT@ SUB_GROUP
GUARD_RAILS value:flag
IDENTIFICATION Position:u16 Datatype:DataType
*IF_DATA name | data:any
*IN_MEASUREMENT | identifier
INPUT_QUANTITY value:id
*INSTANCE name LongIdentifier:text typeDefName address:addr ; ANNOTATION+ ADDRESS_TYPE CALIBRATION_ACCESS DISPLAY_IDENTIFIER ECU_ADDRESS_EXTENSION IF_DATA+ MATRIX_DIM MAX_REFRESH MODEL_LINK OVERWRITE READ_WRITE SYMBOL_LINK
LAYOUT indexMode:IndexMode
LEFT_SHIFT bitcount:u32
LIMITS lowerLimit:f64 upperLimit:f64
*LOC_MEASUREMENT | identifier
*MAP_LIST | name
MATRIX_DIM DimX:u16 DimY:u16? DimZ:u16? Dim4:u16? Dim5:u16?
MAX_GRAD maxGradient:f64
MAX_REFRESH scalingUnit:u16 rate:u32
*MEASUREMENT name longIdentifier:text datatype:DataType conversion resolution:u16 accuracy:f64 lowerLimit:f64 upperLimit:f64 ; ANNOTATION+ ARRAY_SIZE BIT_MASK BIT_OPERATION BYTE_ORDER DISCRETE DISPLAY_IDENTIFIER ECU_ADDRESS ECU_ADDRESS_EXTENSION ERROR_MASK FORMAT FUNCTION_LIST IF_DATA+ LAYOUT MATRIX_DIM MAX_REFRESH MODEL_LINK PHYS_UNIT READ_WRITE REF_MEMORY_SEGMENT SYMBOL_LINK VIRTUAL
*MEMORY_LAYOUT prgType:PrgTypeLayout address:addr size:addr offset:i32*5 ; IF_DATA+
*MEMORY_SEGMENT name longIdentifier:text prgType:PrgType memoryType:MemoryType attribute:SegAttr address:addr size:addr offset:addr*5 ; IF_DATA+
*MOD_COMMON comment:text ; ALIGNMENT_BYTE ALIGNMENT_FLOAT16_IEEE ALIGNMENT_FLOAT32_IEEE ALIGNMENT_FLOAT64_IEEE ALIGNMENT_INT64 ALIGNMENT_LONG ALIGNMENT_WORD BYTE_ORDER DATA_SIZE DEPOSIT
*MOD_PAR comment:text ; ADDR_EPK+ CALIBRATION_METHOD+ CPU_TYPE CUSTOMER CUSTOMER_NO ECU ECU_CALIBRATION_OFFSET EPK MEMORY_LAYOUT+ MEMORY_SEGMENT+ NO_OF_INTERFACES PHONE_NO SUPPLIER SYSTEM_CONSTANT+ USER VERSION
MODEL_LINK modelName:text
MONOTONY monotony:Monotony
NO_AXIS_PTS_X Position:u16 Datatype:DataType
NO_AXIS_PTS_Y Position:u16 Datatype:DataType
NO_AXIS_PTS_Z Position:u16 Datatype:DataType
NO_AXIS_PTS_4 Position:u16 Datatype:DataType
NO_AXIS_PTS_5 Position:u16 Datatype:DataType
NO_OF_INTERFACES num:u16
NO_RESCALE_X Position:u16 Datatype:DataType
NUMBER number:u16
OFFSET_X Position:u16 Datatype:DataType
OFFSET_Y Position:u16 Datatype:DataType
OFFSET_Z Position:u16 Datatype:DataType
OFFSET_4 Position:u16 Datatype:DataType
OFFSET_5 Position:u16 Datatype:DataType
*OUT_MEASUREMENT | identifier
*OVERWRITE name axisNumer:u16 ; CONVERSION EXTENDED_LIMITS FORMAT INPUT_QUANTITY LIMITS MONOTONY PHYS_UNIT
PHONE_NO telnum:text
PHYS_UNIT unit:text
PROJECT_NO projectNumber
READ_ONLY value:flag
READ_WRITE value:flag
*RECORD_LAYOUT Name ; ALIGNMENT_BYTE ALIGNMENT_FLOAT16_IEEE ALIGNMENT_FLOAT32_IEEE ALIGNMENT_FLOAT64_IEEE ALIGNMENT_INT64 ALIGNMENT_LONG ALIGNMENT_WORD AXIS_PTS_X AXIS_PTS_Y AXIS_PTS_Z AXIS_PTS_4 AXIS_PTS_5 AXIS_RESCALE_X DIST_OP_X DIST_OP_Y DIST_OP_Z DIST_OP_4 DIST_OP_5 FIX_NO_AXIS_PTS_X FIX_NO_AXIS_PTS_Y FIX_NO_AXIS_PTS_Z FIX_NO_AXIS_PTS_4 FIX_NO_AXIS_PTS_5 FNC_VALUES IDENTIFICATION NO_AXIS_PTS_X NO_AXIS_PTS_Y NO_AXIS_PTS_Z NO_AXIS_PTS_4 NO_AXIS_PTS_5 NO_RESCALE_X OFFSET_X OFFSET_Y OFFSET_Z OFFSET_4 OFFSET_5 RESERVED RIP_ADDR_W RIP_ADDR_X RIP_ADDR_Y RIP_ADDR_Z RIP_ADDR_4 RIP_ADDR_5 SRC_ADDR_X SRC_ADDR_Y SRC_ADDR_Z SRC_ADDR_4 SRC_ADDR_5 SHIFT_OP_X SHIFT_OP_Y SHIFT_OP_Z SHIFT_OP_4 SHIFT_OP_5 STATIC_RECORD_LAYOUT STATIC_ADDRESS_OFFSETS
*REF_CHARACTERISTIC | identifier
*REF_GROUP | identifier
*REF_MEASUREMENT | identifier
REF_MEMORY_SEGMENT name
REF_UNIT unit
RESERVED Position:u16 DataSize:DataSize
RIGHT_SHIFT bitcount:u32
RIP_ADDR_W Position:u16 Datatype:DataType
RIP_ADDR_X Position:u16 Datatype:DataType
RIP_ADDR_Y Position:u16 Datatype:DataType
RIP_ADDR_Z Position:u16 Datatype:DataType
RIP_ADDR_4 Position:u16 Datatype:DataType
RIP_ADDR_5 Position:u16 Datatype:DataType
ROOT@ value:flag
SHIFT_OP_X Position:u16 Datatype:DataType
SHIFT_OP_Y Position:u16 Datatype:DataType
SHIFT_OP_Z Position:u16 Datatype:DataType
SHIFT_OP_4 Position:u16 Datatype:DataType
SHIFT_OP_5 Position:u16 Datatype:DataType
SI_EXPONENTS length:i16 mass:i16 time:i16 electricCurrent:i16 temperature:i16 amountOfSubstance:i16 luminousIntensity:i16
SIGN_EXTEND value:flag
SRC_ADDR_X Position:u16 Datatype:DataType
SRC_ADDR_Y Position:u16 Datatype:DataType
SRC_ADDR_Z Position:u16 Datatype:DataType
SRC_ADDR_4 Position:u16 Datatype:DataType
SRC_ADDR_5 Position:u16 Datatype:DataType
STATIC_ADDRESS_OFFSETS value:flag
STATIC_RECORD_LAYOUT value:flag
STATUS_STRING_REF ConversionTable
STEP_SIZE stepSize:f64
*STRUCTURE_COMPONENT name typeDefName addressOffset:addr ; ADDRESS_TYPE LAYOUT MATRIX_DIM SYMBOL_TYPE_LINK
*SUB_FUNCTION | identifier
*SUB_GROUP | identifier
SUPPLIER manufacturer:text
SYMBOL_LINK symbolName:text offset:i32
SYMBOL_TYPE_LINK symbolName:text
SYSTEM_CONSTANT Name:text Value:text
*TRANSFORMER name version:text executable32:text executable64:text timeOut:u32 trigger:Trigger inverseTransformer ; TRANSFORMER_IN_OBJECTS TRANSFORMER_OUT_OBJECTS
*TRANSFORMER_IN_OBJECTS | identifier
*TRANSFORMER_OUT_OBJECTS | identifier
*TYPEDEF_AXIS name LongIdentifier:text inputQuantity recordLayout maxDiff:f64 conversion maxAxisPoints:u16 lowerLimit:f64 upperLimit:f64 ; BYTE_ORDER DEPOSIT EXTENDED_LIMITS FORMAT MONOTONY PHYS_UNIT STEP_SIZE
*TYPEDEF_BLOB name longIdentifier:text size:u32 ; ADDRESS_TYPE
*TYPEDEF_CHARACTERISTIC name LongIdentifier:text Type:CharType recordLayout maxDiff:f64 conversion lowerLimit:f64 upperLimit:f64 ; AXIS_DESCR+ BIT_MASK BYTE_ORDER DISCRETE ENCODING EXTENDED_LIMITS FORMAT MATRIX_DIM NUMBER PHYS_UNIT STEP_SIZE
*TYPEDEF_MEASUREMENT name longIdentifier:text datatype:DataType conversion resolution:u16 accuracy:f64 lowerLimit:f64 upperLimit:f64 ; BIT_MASK BIT_OPERATION BYTE_ORDER DISCRETE ERROR_MASK FORMAT LAYOUT MATRIX_DIM PHYS_UNIT
*TYPEDEF_STRUCTURE name longIdentifier:text size:u32 ; ADDRESS_TYPE CONSISTENT_EXCHANGE STRUCTURE_COMPONENT+ SYMBOL_TYPE_LINK
*UNIT name longIdentifier:text display:text Type:UnitType ; REF_UNIT SI_EXPONENTS UNIT_CONVERSION
UNIT_CONVERSION gradient:f64 offset:f64
USER userName:text
*USER_RIGHTS userLevelId ; READ_ONLY REF_GROUP+
*VAR_ADDRESS | address:addr
*VAR_CHARACTERISTIC name | identCriterionName ; VAR_ADDRESS+
*VAR_CRITERION name longIdentifier:text | value ; VAR_MEASUREMENT VAR_SELECTION_CHARACTERISTIC
*VAR_FORBIDDEN_COMB | criterionName criterionValue
VAR_MEASUREMENT name
VAR_NAMING tag:Tag
VAR_SELECTION_CHARACTERISTIC name
VAR_SEPARATOR separator:text
*VARIANT_CODING ; VAR_SEPARATOR VAR_NAMING VAR_CRITERION+ VAR_FORBIDDEN_COMB+ VAR_CHARACTERISTIC+
VERSION versionIdentifier:text
*VIRTUAL | measuringChannel
*VIRTUAL_CHARACTERISTIC formula:text | characteristic
`

var a2lEnums = map[string][]string{
	"Encoding":          {"UTF8", "UTF16", "UTF32"},
	"DataType":          {"UBYTE", "SBYTE", "UWORD", "SWORD", "ULONG", "SLONG", "A_UINT64", "A_INT64", "FLOAT16_IEEE", "FLOAT32_IEEE", "FLOAT64_IEEE"},
	"DataSize":          {"BYTE", "WORD", "LONG"},
	"AddrType":          {"PBYTE", "PWORD", "PLONG", "PLONGLONG", "DIRECT"},
	"ByteOrder":         {"LITTLE_ENDIAN", "BIG_ENDIAN", "MSB_LAST", "MSB_FIRST", "MSB_FIRST_MSW_LAST", "MSB_LAST_MSW_FIRST"},
	"IndexOrder":        {"INDEX_INCR", "INDEX_DECR"},
	"AxisAttr":          {"CURVE_AXIS", "COM_AXIS", "FIX_AXIS", "RES_AXIS", "STD_AXIS"},
	"SegAttr":           {"INTERN", "EXTERN"},
	"CalibrationAccess": {"CALIBRATION", "NO_CALIBRATION", "NOT_IN_MCD_SYSTEM", "OFFLINE_CALIBRATION"},
	"CharType":          {"ASCII", "CURVE", "MAP", "CUBOID", "CUBE_4", "CUBE_5", "VAL_BLK", "VALUE"},
	"UnitType":          {"DERIVED", "EXTENDED_SI"},
	"ConversionType":    {"IDENTICAL", "FORM", "LINEAR", "RAT_FUNC", "TAB_INTP", "TAB_NOINTP", "TAB_VERB"},
	"IndexMode":         {"ALTERNATE_CURVES", "ALTERNATE_WITH_X", "ALTERNATE_WITH_Y", "COLUMN_DIR", "ROW_DIR"},
	"Mode":              {"ABSOLUTE", "DIFFERENCE"},
	"PrgTypeLayout":     {"PRG_CODE", "PRG_DATA", "PRG_RESERVED"},
	"PrgType":           {"CALIBRATION_VARIABLES", "CODE", "DATA", "EXCLUDE_FROM_FLASH", "OFFLINE_DATA", "RESERVED", "SERAM", "VARIABLES"},
	"MemoryType":        {"EEPROM", "EPROM", "FLASH", "RAM", "ROM", "REGISTER", "NOT_IN_ECU"},
	"Monotony":          {"MON_DECREASE", "MON_INCREASE", "STRICT_DECREASE", "STRICT_INCREASE", "MONOTONOUS", "STRICT_MON", "NOT_MON"},
	"Tag":               {"NUMERIC"},
	"Trigger":           {"ON_CHANGE", "ON_USER_REQUEST"},
}

// Par is a parameter or list column.
type Par struct {
	Name, Type string
	Opt        bool
	N          int // array length, 0 for a scalar
}

// Opt is an option of a block.
type Opt struct {
	*Spec
	Rep     bool
	Default string
}

// Spec describes a keyword.
type Spec struct {
	KW    string
	Block bool
	Par   []Par
	List  []Par
	Opts  []Opt
}

var specs = map[string]*Spec{}
var specOrder []*Spec

func init() {
	var lines [][2]string
	for _, l := range strings.Split(a2lGrammar, "\n") {
		if l = strings.TrimSpace(l); l == "" {
			continue
		}
		head, opts, _ := strings.Cut(l, " ;")
		s := &Spec{}
		if strings.HasPrefix(head, "*") {
			s.Block = true
			head = head[1:]
		}
		pars, list, _ := strings.Cut(head, " |")
		fs := strings.Fields(pars)
		s.KW = fs[0]
		s.Par = parsePars(fs[1:])
		s.List = parsePars(strings.Fields(list))
		specs[s.KW] = s
		specOrder = append(specOrder, s)
		lines = append(lines, [2]string{s.KW, opts})
	}
	for _, l := range lines {
		for _, o := range strings.Fields(l[1]) {
			rep := strings.HasSuffix(o, "+")
			o, def, _ := strings.Cut(strings.TrimSuffix(o, "+"), "=")
			if specs[o] == nil {
				panic("grammar: unknown option " + o)
			}
			specs[l[0]].Opts = append(specs[l[0]].Opts, Opt{specs[o], rep, def})
		}
	}
}

func parsePars(fs []string) []Par {
	var out []Par
	for _, f := range fs {
		name, t, ok := strings.Cut(f, ":")
		if !ok {
			t = "id"
		}
		p := Par{Name: name, Type: t}
		if strings.HasSuffix(t, "?") {
			p.Opt = true
			p.Type = strings.TrimSuffix(t, "?")
		}
		if t, n, ok := strings.Cut(p.Type, "*"); ok {
			p.Type = t
			p.N, _ = strconv.Atoi(n)
		}
		out = append(out, p)
	}
	return out
}

func (s *Spec) word() string { return strings.TrimSuffix(s.KW, "@") }

// Node is an occurrence of a keyword with its parameters, in the reference model.
type Node struct {
	*Spec
	Val  [][]string // per parameter: its literals (one, or N for arrays, none if left out)
	Rows [][]string // list rows
	Subs []*Node
}

// Gen makes nodes with values that occur only once.
type Gen struct {
	n    int
	rows int // rows of lists
	opt  int // number of optional parameters given
	enum int // shift for enumerations
	same int // 0: values that occur only once; otherwise the same value for all parameters of a type: alphabet()[same-1]
}

// alphabet is the small set of values of a type that combinations are made of.
func alphabet(t string) []string {
	switch t {
	case "id":
		return []string{"x", "_a.b[3]", "END_of.begin", "A_very_long_Identifier_that_goes_on_and_on_and_on_0123456789"}
	case "text":
		return []string{`""`, `"a"`, `"two Words"`, `"MEASUREMENT"`}
	case "addr":
		return []string{"0x0", "0xFFFFFFFF", "0x80000000", "0x1a2b3C"}
	case "u16":
		return []string{"0", "1", "65535", "256"}
	case "u32":
		return []string{"0", "1", "4294967295", "65536"}
	case "i16":
		return []string{"0", "-1", "-32768", "32767"}
	case "i32":
		return []string{"0", "-1", "-2147483648", "2147483647"}
	case "f64":
		return []string{"0", "-5", "1.5E+300", "0.001", "1e-7", "-0.5"}
	case "join", "any":
		return []string{"x", `"a b"`, "0", "1.5"}
	}
	return a2lEnums[t]
}

func newGen() *Gen { return &Gen{n: 10, rows: 2, opt: 99} }

func (g *Gen) lit(t string) string {
	g.n++
	n := g.n
	if g.same > 0 {
		a := alphabet(t)
		return a[(g.same-1)%len(a)]
	}
	switch t {
	case "id":
		return "n" + strconv.Itoa(n)
	case "text":
		return `"t ` + strconv.Itoa(n) + `"`
	case "addr":
		return fmt.Sprintf("0x%X", 0x80000000+n)
	case "u16":
		return strconv.Itoa(n % 65536)
	case "u32":
		return strconv.Itoa(n)
	case "i16", "i32":
		if t == "i16" {
			n %= 32768
		}
		if n%2 == 0 {
			return strconv.Itoa(-n)
		}
		return strconv.Itoa(n)
	case "f64":
		return strconv.Itoa(n) + "." + strconv.Itoa(1+n%8) + "25"
	case "join", "any":
		switch n % 3 {
		case 0:
			return `"t ` + strconv.Itoa(n) + `"`
		case 1:
			return strconv.Itoa(n)
		}
		return "n" + strconv.Itoa(n)
	}
	e := a2lEnums[t]
	if e == nil {
		panic("grammar: unknown type " + t)
	}
	return e[(n+g.enum)%len(e)]
}

// node makes an occurrence of s with mandatory parameters only.
func (g *Gen) node(s *Spec) *Node {
	n := &Node{Spec: s}
	rows := g.rows
	opt := g.opt
	for _, p := range s.Par {
		switch {
		case p.Type == "count":
			n.Val = append(n.Val, []string{strconv.Itoa(rows)})
		case p.Type == "flag":
			n.Val = append(n.Val, []string{"true"})
		case p.Opt && opt <= 0:
			n.Val = append(n.Val, nil)
		case p.N > 0:
			var v []string
			for i := 0; i < p.N; i++ {
				v = append(v, g.lit(p.Type))
			}
			n.Val = append(n.Val, v)
		default:
			if p.Opt {
				opt--
			}
			n.Val = append(n.Val, []string{g.lit(p.Type)})
		}
	}
	if len(s.List) > 0 {
		for i := 0; i < rows; i++ {
			var r []string
			for _, c := range s.List {
				r = append(r, g.lit(c.Type))
			}
			n.Rows = append(n.Rows, r)
		}
	}
	return n
}

func (g *Gen) sub(p *Node, kw string) *Node {
	n := g.node(specs[kw])
	p.Subs = append(p.Subs, n)
	return n
}

// name is the identifier of an object.
func (n *Node) name() string {
	if len(n.Val) > 0 && len(n.Val[0]) > 0 {
		return n.Val[0][0]
	}
	return ""
}

// Tok is a token of the text and the place it comes from.
type Tok struct {
	Text string
	Node *Node
	Par  int // parameter index, -1 for keywords, -2-i for list column i
}

// toks is the token sequence of the node; /begin and /end are joined with their keyword by a blank.
func (n *Node) toks() []Tok { return n.appendToks(nil) }

func (n *Node) appendToks(t []Tok) []Tok {
	top := n.KW == "ROOT"
	if n.Block {
		t = append(t, Tok{"/begin " + n.word(), n, -1})
	} else if !top {
		t = append(t, Tok{n.word(), n, -1})
	}
	for i, v := range n.Val {
		if n.Par[i].Type == "flag" {
			continue
		}
		for _, x := range v {
			t = append(t, Tok{x, n, i})
		}
	}
	for _, r := range n.Rows {
		for i, x := range r {
			t = append(t, Tok{x, n, -2 - i})
		}
	}
	for _, s := range n.Subs {
		t = s.appendToks(t)
	}
	if n.Block {
		t = append(t, Tok{"/end " + n.word(), n, -1})
	}
	return t
}

// text lays the tokens out, one object or keyword per line.
func text(toks []Tok) string {
	var b strings.Builder
	for i, t := range toks {
		if i > 0 {
			if t.Par == -1 {
				b.WriteByte('\n')
			} else {
				b.WriteByte(' ')
			}
		}
		b.WriteString(t.Text)
	}
	b.WriteByte('\n')
	return b.String()
}

func (n *Node) text() string { return text(n.toks()) }

// file makes the frame of a file around one module with the given objects in it.
func (g *Gen) file() (root, module *Node) {
	root = &Node{Spec: specs["ROOT"]}
	g.sub(root, "ASAP2_VERSION")
	p := g.sub(root, "PROJECT")
	return root, g.sub(p, "MODULE")
}

// chain makes nodes for a path of keywords below p and returns the last one.
func (g *Gen) chain(p *Node, path []*Spec) *Node {
	for _, s := range path {
		n := g.node(s)
		p.Subs = append(p.Subs, n)
		p = n
	}
	return p
}

// paths gives, for every keyword that can occur below MODULE, the keyword sequences that lead to it from the file's
// root, PROJECT and MODULE included: the shortest one to each parent, or all of them.
func specPaths(all bool) [][]*Spec {
	var out [][]*Spec
	seen := map[*Spec]bool{}
	queue := [][]*Spec{nil}
	for len(queue) > 0 {
		p := queue[0]
		queue = queue[1:]
		s := specs["ROOT"]
		if len(p) > 0 {
			s = p[len(p)-1]
		}
		if !all {
			if seen[s] {
				continue
			}
			seen[s] = true
		}
		for _, o := range s.Opts {
			q := append(append([]*Spec(nil), p...), o.Spec)
			out = append(out, q)
			queue = append(queue, q)
		}
	}
	return out
}

func pathName(p []*Spec) string {
	var w []string
	for _, s := range p {
		w = append(w, s.word())
	}
	return strings.Join(w, ".")
}

// put builds a file that contains the path (which begins with one of ROOT's options) and returns the last node.
func (g *Gen) put(path []*Spec) (root, last *Node) {
	root = &Node{Spec: specs["ROOT"]}
	if path[0].KW != "ASAP2_VERSION" {
		g.sub(root, "ASAP2_VERSION")
	}
	if path[0].KW != "PROJECT" {
		last = g.chain(root, path)
		g.sub(g.sub(root, "PROJECT"), "MODULE")
		return
	}
	last = g.chain(root, path)
	p := root.Subs[len(root.Subs)-1]
	if len(p.Subs) == 0 || p.Subs[0].KW != "MODULE" {
		g.sub(p, "MODULE")
	}
	return
}

// ---- comparison with what the reader returned

func norm(s string) string {
	s = strings.ToLower(strings.ReplaceAll(strings.TrimSuffix(s, "@"), "_", ""))
	return strings.TrimSuffix(s, "s")
}

// derived fields are computed by the reader and not part of the file.
var derived = map[string]bool{"addressuint32": true, "relativeposition": true, "value": false, "error": true}

type fieldInfo struct {
	byName map[string]int
	names  []string
	isSet  []int // index of the field a Set flag belongs to, -1: no flag, -2: unknown field
	drv    []bool
}

var fieldCache = map[reflect.Type]*fieldInfo{}

func fieldsOf(t reflect.Type) *fieldInfo {
	if f := fieldCache[t]; f != nil {
		return f
	}
	f := &fieldInfo{byName: map[string]int{}}
	for i := 0; i < t.NumField(); i++ {
		n := norm(t.Field(i).Name)
		f.names = append(f.names, n)
		f.byName[n] = i
	}
	for i := 0; i < t.NumField(); i++ {
		raw := t.Field(i).Name
		set, drv := -1, false
		if t.Field(i).Type.Kind() == reflect.Bool && len(raw) > 3 && strings.HasSuffix(raw, "Set") {
			set = -2
			if j, ok := f.byName[norm(strings.TrimSuffix(raw, "Set"))]; ok {
				set = j
			}
		}
		switch {
		case raw == "AddressUint32" || raw == "RelativePositions" || raw == "errors":
			drv = true
		case raw == "Values" || raw == "ValuesSet":
			drv = true
		}
		f.isSet = append(f.isSet, set)
		f.drv = append(f.drv, drv)
	}
	fieldCache[t] = f
	return f
}

// leafIs tells whether the value is what the literal says.
func leafIs(v reflect.Value, lit string) bool {
	switch v.Kind() {
	case reflect.String:
		return v.String() == lit
	case reflect.Bool:
		return v.Bool() == (lit == "true")
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n, err := strconv.ParseInt(lit, 10, 64)
		return err == nil && v.Int() == n
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n, err := strconv.ParseUint(lit, 10, 64)
		return err == nil && v.Uint() == n
	case reflect.Float32, reflect.Float64:
		n, err := strconv.ParseFloat(lit, 64)
		return err == nil && (v.Float() == n && math.Signbit(n) == math.Signbit(v.Float()))
	case reflect.Pointer, reflect.Interface:
		return !v.IsNil() && leafIs(v.Elem(), lit)
	}
	return false
}

func show(v reflect.Value) string {
	return fmt.Sprintf("%v", v)
}

// zero tells whether nothing is stored in v, and where something is.
func zero(v reflect.Value) (string, bool) {
	switch v.Kind() {
	case reflect.Slice, reflect.Map:
		if v.Len() > 0 {
			return fmt.Sprintf(" holds %d elements", v.Len()), false
		}
		return "", true
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if w, ok := zero(v.Field(i)); !ok {
				return "." + v.Type().Field(i).Name + w, false
			}
		}
		return "", true
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if w, ok := zero(v.Index(i)); !ok {
				return fmt.Sprintf("[%d]%s", i, w), false
			}
		}
		return "", true
	}
	if !v.IsZero() {
		return "=" + show(v), false
	}
	return "", true
}

// diffAll compares the occurrences of an optional keyword with the field that holds them.
func diffAll(got []*Node, fv reflect.Value, p string) string {
	switch fv.Kind() {
	case reflect.Slice:
		if fv.Len() != len(got) {
			return fmt.Sprintf("%s: %d instead of %d", p, fv.Len(), len(got))
		}
		for k, s := range got {
			if m := s.diff(fv.Index(k), fmt.Sprintf("%s[%d]", p, k)); m != "" {
				return m
			}
		}
	case reflect.Map:
		if fv.Type().Key().Kind() != reflect.String {
			return p + ": stored in an unknown way"
		}
		for _, s := range got {
			e := fv.MapIndex(reflect.ValueOf(s.name()).Convert(fv.Type().Key()))
			if !e.IsValid() {
				return fmt.Sprintf("%s: %s is missing", p, s.name())
			}
			if m := s.diff(e, p+"["+s.name()+"]"); m != "" {
				return m
			}
		}
		if fv.Len() != len(got) {
			return fmt.Sprintf("%s: %d objects instead of %d: %v", p, fv.Len(), len(got), fv.MapKeys())
		}
	default:
		if len(got) > 1 {
			return p + ": given several times"
		}
		if m := got[0].diff(fv, p); m != "" {
			return m
		}
	}
	return ""
}

// known tells whether field i has the name of something of the block, or is the flag of such a field.
func (n *Node) known(f *fieldInfo, i int) bool {
	name := f.names[i]
	if f.isSet[i] >= 0 {
		name = f.names[f.isSet[i]]
	}
	for _, p := range n.Par {
		if norm(p.Name) == name {
			return true
		}
	}
	for _, p := range n.List {
		if norm(p.Name) == name {
			return true
		}
	}
	for _, o := range n.Opts {
		if norm(o.KW) == name {
			return true
		}
	}
	return false
}

// diff compares what was read with the node; "" if they agree.
func (n *Node) diff(v reflect.Value, path string) string {
	for v.Kind() == reflect.Pointer || v.Kind() == reflect.Interface {
		if v.IsNil() {
			return path + ": missing"
		}
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		// stored as a plain value
		if len(n.Val) == 1 && len(n.Val[0]) == 1 {
			if !leafIs(v, n.Val[0][0]) {
				return fmt.Sprintf("%s is %v instead of %s", path, show(v), n.Val[0][0])
			}
			return ""
		}
		return path + ": stored in an unknown way"
	}
	f := fieldsOf(v.Type())
	claimed := make([]bool, v.NumField())
	var lost []string // values without a field of their name
	for i, p := range n.Par {
		lits := n.Val[i]
		j, ok := f.byName[norm(p.Name)]
		if !ok && p.Type == "flag" && v.NumField() > 0 && v.Field(0).Kind() == reflect.Bool {
			j, ok = 0, true
		}
		if !ok {
			lost = append(lost, lits...)
			continue
		}
		if len(lits) == 0 {
			continue // not given: must stay unset
		}
		claimed[j] = true
		fv := v.Field(j)
		if p.N > 0 {
			if k := fv.Kind(); k != reflect.Slice && k != reflect.Array {
				return fmt.Sprintf("%s.%s: stored in an unknown way", path, p.Name)
			}
			if fv.Len() != p.N {
				return fmt.Sprintf("%s.%s has %d elements instead of %d", path, p.Name, fv.Len(), p.N)
			}
			for k, l := range lits {
				if !leafIs(fv.Index(k), l) {
					return fmt.Sprintf("%s.%s[%d] is %s instead of %s", path, p.Name, k, show(fv.Index(k)), l)
				}
			}
			continue
		}
		if !leafIs(fv, lits[0]) {
			return fmt.Sprintf("%s.%s is %s instead of %s", path, p.Name, show(fv), lits[0])
		}
		if s, ok := v.Type().FieldByName(v.Type().Field(j).Name + "Set"); ok && s.PkgPath == "" && s.Type.Kind() == reflect.Bool && !v.FieldByIndex(s.Index).Bool() {
			return fmt.Sprintf("%s.%s is false although %s was given", path, s.Name, p.Name)
		}
	}
	for i, col := range n.List {
		j, ok := f.byName[norm(col.Name)]
		if !ok {
			for _, r := range n.Rows {
				lost = append(lost, r[i])
			}
			continue
		}
		claimed[j] = true
		fv := v.Field(j)
		if col.Type == "join" {
			var w []string
			for _, r := range n.Rows {
				w = append(w, strings.Fields(r[i])...)
			}
			if fv.Kind() == reflect.String {
				if strings.Join(strings.Fields(fv.String()), " ") != strings.Join(w, " ") {
					return fmt.Sprintf("%s.%s is %q instead of %q", path, col.Name, fv.String(), strings.Join(w, " "))
				}
				continue
			}
		}
		if fv.Kind() != reflect.Slice {
			return fmt.Sprintf("%s.%s: stored in an unknown way", path, col.Name)
		}
		if fv.Len() != len(n.Rows) {
			return fmt.Sprintf("%s.%s has %d elements instead of %d", path, col.Name, fv.Len(), len(n.Rows))
		}
		for k, r := range n.Rows {
			if !leafIs(fv.Index(k), r[i]) {
				return fmt.Sprintf("%s.%s[%d] is %s instead of %s", path, col.Name, k, show(fv.Index(k)), r[i])
			}
		}
	}
	for _, o := range n.Opts {
		var got []*Node
		for _, s := range n.Subs {
			if s.Spec == o.Spec {
				got = append(got, s)
			}
		}
		p := path + "." + o.word()
		j, ok := f.byName[norm(o.KW)]
		if !ok {
			// a renamed field
			if len(got) > 0 {
				found := false
				for i := 0; i < v.NumField() && !found; i++ {
					if !claimed[i] && !n.known(f, i) && diffAll(got, v.Field(i), p) == "" {
						claimed[i], found = true, true
					}
				}
				if !found {
					return p + " is not stored"
				}
			}
			continue
		}
		fv := v.Field(j)
		if len(got) == 0 {
			if o.Default != "" && leafIs(fv, o.Default) {
				claimed[j] = true
			}
			continue
		}
		claimed[j] = true
		if m := diffAll(got, fv, p); m != "" {
			return m
		}
	}
	for i := 0; i < v.NumField(); i++ {
		if claimed[i] || f.drv[i] {
			continue
		}
		if s := f.isSet[i]; s == -2 || s >= 0 && claimed[s] {
			continue
		}
		w, ok := zero(v.Field(i))
		if ok {
			continue
		}
		// a renamed field may hold a value whose own field is unknown
		found := false
		for k, l := range lost {
			if leafIs(v.Field(i), l) {
				lost = append(lost[:k], lost[k+1:]...)
				found = true
				break
			}
		}
		if !found && v.Field(i).Kind() == reflect.Slice && v.Field(i).Len() <= len(lost) {
			m := v.Field(i).Len()
			found = true
			for k := 0; k < m; k++ {
				if !leafIs(v.Field(i).Index(k), lost[k]) {
					found = false
				}
			}
			if found {
				lost = lost[m:]
			}
		}
		if found || !n.known(f, i) {
			continue // or a field that this version of the reader does not have
		}
		if s := f.isSet[i]; s >= 0 && v.Field(i).Kind() == reflect.Bool && len(lost) == 0 {
			if _, z := zero(v.Field(s)); !z {
				continue
			}
		}
		return fmt.Sprintf("%s.%s%s although it is not in the file", path, v.Type().Field(i).Name, w)
	}
	if len(lost) > 0 {
		for _, l := range lost {
			if l != "0" && l != "" {
				return fmt.Sprintf("%s: the value %s is not stored", path, l)
			}
		}
	}
	return ""
}
