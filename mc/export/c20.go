package calibrationReader

import "github.com/asap2Go/calibrationReader/a2l"

// VerifAlign gives the harness access to the alignment of addresses.
func VerifAlign(cd *CalibrationData, address uint32, d a2l.DataTypeEnum, rl *a2l.RecordLayout) uint32 {
	return cd.getNextAlignedAddress(address, d, rl)
}

// VerifBytes gives the harness access to the bytes of the image.
func VerifBytes(cd *CalibrationData, address, bits uint32) ([]byte, error) {
	return cd.getBytes(address, bits)
}

// VerifAddress gives the harness access to the conversion of address texts.
func VerifAddress(cd *CalibrationData, s string) (uint32, error) {
	return cd.convertStringToUint32Address(s)
}

// VerifLayout gives the harness access to the record layout of a characteristic.
func VerifLayout(cd *CalibrationData, c *a2l.Characteristic) (*a2l.RecordLayout, error) {
	return cd.getRecordLayout(c)
}
