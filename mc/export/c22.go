package calibrationReader

import "github.com/asap2Go/calibrationReader/a2l"

// VerifPhys gives the harness access to the numeric conversions.
func VerifPhys(cd *CalibrationData, dec float64, cm *a2l.CompuMethod) (float64, error) {
	return convDecToPhy(dec, cm, cd)
}

// VerifVerb gives the harness access to the verbal tables.
func VerifVerb(cd *CalibrationData, dec float64, t *a2l.CompuVTab) (string, error) {
	return calcTabVerb(dec, t, cd)
}

// VerifRange gives the harness access to the verbal tables of ranges.
func VerifRange(cd *CalibrationData, dec float64, t *a2l.CompuVTabRange) (string, error) {
	return calcTabVerbRange(dec, t, cd)
}

// VerifConstant gives the harness access to the system constants.
func VerifConstant(cd *CalibrationData, name string) (string, error) {
	return cd.getSystemConstantValue(name)
}
