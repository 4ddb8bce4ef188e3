package calibrationReader

import "github.com/asap2Go/calibrationReader/a2l"

// VerifGetters gives the harness access to what reads single numbers of a record layout.
var VerifGetters = map[string]func(cd *CalibrationData, rl *a2l.RecordLayout, pos *uint32) (int64, error){
	"DistOpX":    (*CalibrationData).getDistOpX,
	"DistOpY":    (*CalibrationData).getDistOpY,
	"DistOpZ":    (*CalibrationData).getDistOpZ,
	"DistOp4":    (*CalibrationData).getDistOp4,
	"DistOp5":    (*CalibrationData).getDistOp5,
	"NoAxisPtsX": (*CalibrationData).getNoAxisPtsX,
	"NoAxisPtsY": (*CalibrationData).getNoAxisPtsY,
	"NoAxisPtsZ": (*CalibrationData).getNoAxisPtsZ,
	"NoAxisPts4": (*CalibrationData).getNoAxisPts4,
	"NoAxisPts5": (*CalibrationData).getNoAxisPts5,
	"OffsetX":    (*CalibrationData).getOffsetX,
	"OffsetY":    (*CalibrationData).getOffsetY,
	"OffsetZ":    (*CalibrationData).getOffsetZ,
	"Offset4":    (*CalibrationData).getOffset4,
	"Offset5":    (*CalibrationData).getOffset5,
	"ShiftOpX":   (*CalibrationData).getShiftOpX,
	"ShiftOpY":   (*CalibrationData).getShiftOpY,
	"ShiftOpZ":   (*CalibrationData).getShiftOpZ,
	"ShiftOp4":   (*CalibrationData).getShiftOp4,
	"ShiftOp5":   (*CalibrationData).getShiftOp5,
	"NoRescaleX": (*CalibrationData).getNoRescaleX,
}

// VerifAxes gives the harness access to what reads axes; n is the number of points read before.
var VerifAxes = map[string]func(cd *CalibrationData, rl *a2l.RecordLayout, pos *uint32, n int64) ([]float64, error){
	"AxisPtsX": func(cd *CalibrationData, rl *a2l.RecordLayout, pos *uint32, n int64) ([]float64, error) {
		cv := &CharacteristicValues{noAxisPtsXValue: n}
		return cv.getAxisPointsX(cd, rl, pos)
	},
	"AxisPtsY": func(cd *CalibrationData, rl *a2l.RecordLayout, pos *uint32, n int64) ([]float64, error) {
		cv := &CharacteristicValues{noAxisPtsYValue: n}
		return cv.getAxisPointsY(cd, rl, pos)
	},
	"AxisPtsZ": func(cd *CalibrationData, rl *a2l.RecordLayout, pos *uint32, n int64) ([]float64, error) {
		cv := &CharacteristicValues{noAxisPtsZValue: n}
		return cv.getAxisPointsZ(cd, rl, pos)
	},
	"AxisPts4": func(cd *CalibrationData, rl *a2l.RecordLayout, pos *uint32, n int64) ([]float64, error) {
		cv := &CharacteristicValues{noAxisPts4Value: n}
		return cv.getAxisPoints4(cd, rl, pos)
	},
	"AxisPts5": func(cd *CalibrationData, rl *a2l.RecordLayout, pos *uint32, n int64) ([]float64, error) {
		cv := &CharacteristicValues{noAxisPts5Value: n}
		return cv.getAxisPoints5(cd, rl, pos)
	},
}

// VerifFnc1 gives the harness access to what reads a single function value.
func VerifFnc1(cd *CalibrationData, rl *a2l.RecordLayout, pos *uint32) (float64, []byte, error) {
	cv := &CharacteristicValues{}
	return cv.getFncValues1D(cd, rl, pos)
}

// VerifIdentification gives the harness access to what reads the identification.
func VerifIdentification(cd *CalibrationData, rl *a2l.RecordLayout, pos *uint32) (interface{}, error) {
	return cd.getIdentification(rl, pos)
}

// VerifReserved gives the harness access to what skips reserved bytes.
func VerifReserved(cd *CalibrationData, rl *a2l.RecordLayout, pos *uint32) error {
	return cd.getReserved(rl, pos)
}

// VerifValues reads a whole characteristic and returns what was read, by name.
func VerifValues(cd *CalibrationData, c *a2l.Characteristic, rl *a2l.RecordLayout) map[string]interface{} {
	cv := NewCharacteristicValues(c, rl)
	getValuesFromHex(cv, cd)
	return map[string]interface{}{
		"DistOpX":        cv.distOpXValue,
		"DistOpY":        cv.distOpYValue,
		"DistOpZ":        cv.distOpZValue,
		"DistOp4":        cv.distOp4Value,
		"DistOp5":        cv.distOp5Value,
		"NoAxisPtsX":     cv.noAxisPtsXValue,
		"NoAxisPtsY":     cv.noAxisPtsYValue,
		"NoAxisPtsZ":     cv.noAxisPtsZValue,
		"NoAxisPts4":     cv.noAxisPts4Value,
		"NoAxisPts5":     cv.noAxisPts5Value,
		"OffsetX":        cv.offsetXValue,
		"OffsetY":        cv.offsetYValue,
		"OffsetZ":        cv.offsetZValue,
		"Offset4":        cv.offset4Value,
		"Offset5":        cv.offset5Value,
		"ShiftOpX":       cv.shiftOpXValue,
		"ShiftOpY":       cv.shiftOpYValue,
		"ShiftOpZ":       cv.shiftOpZValue,
		"ShiftOp4":       cv.shiftOp4Value,
		"ShiftOp5":       cv.shiftOp5Value,
		"NoRescaleX":     cv.noRescaleXValue,
		"AxisPtsX":       cv.AxisXValues,
		"AxisPtsY":       cv.AxisYValues,
		"AxisPtsZ":       cv.AxisZValues,
		"AxisPts4":       cv.Axis4Values,
		"AxisPts5":       cv.Axis5Values,
		"Identification": cv.identificationValue,
	}
}
