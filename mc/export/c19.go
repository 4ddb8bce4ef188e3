package calibrationReader

import "github.com/asap2Go/calibrationReader/a2l"

// VerifDecode gives the harness access to the conversion of bytes.
func VerifDecode(cd *CalibrationData, b []byte, d a2l.DataTypeEnum) (float64, error) {
	return cd.convertByteSliceToDatatype(b, d)
}
