package reports

import (
	"strconv"

	g "github.com/stampzilla/gozwave/gvcspec"
)

// sensorName and sensorUnit are the sensor table.
func sensorName(t byte) string {
	switch t {
	case 1:
		return "Temperature"
	case 2:
		return "General"
	case 3:
		return "Luminance"
	case 4:
		return "Power"
	case 5:
		return "RelativeHumidity"
	case 6:
		return "Velocity"
	case 7:
		return "Direction"
	case 8:
		return "AtmosphericPressure"
	case 9:
		return "BarometricPressure"
	case 10:
		return "SolarRadiation"
	case 11:
		return "DewPoint"
	case 12:
		return "RainRate"
	case 13:
		return "TideLevel"
	case 14:
		return "Weight"
	case 15:
		return "Voltage"
	case 16:
		return "Current"
	case 17:
		return "CO2"
	case 18:
		return "AirFlow"
	case 19:
		return "TankCapacity"
	case 20:
		return "Distance"
	case 21:
		return "AnglePosition"
	case 22:
		return "Rotation"
	case 23:
		return "WaterTemperature"
	case 24:
		return "SoilTemperature"
	case 25:
		return "SeismicIntensity"
	case 26:
		return "SeismicMagnitude"
	case 27:
		return "Ultraviolet"
	case 28:
		return "ElectricalResistivity"
	case 29:
		return "ElectricalConductivity"
	case 30:
		return "Loudness"
	case 31:
		return "Moisture"
	}
	return "Unknown (" + strconv.Itoa(int(t)) + ")"
}

func sensorUnit(t, scale byte) string {
	switch int(t)*4 + int(scale) {
	case 1*4 + 0:
		return "C"
	case 1*4 + 1:
		return "F"
	case 2*4 + 0:
		return "%"
	case 3*4 + 0:
		return "%"
	case 3*4 + 1:
		return "lux"
	case 4*4 + 0:
		return "W"
	case 4*4 + 1:
		return "BTU/h"
	case 5*4 + 0:
		return "%"
	case 6*4 + 0:
		return "m/s"
	case 6*4 + 1:
		return "mph"
	case 8*4 + 0:
		return "kPa"
	case 8*4 + 1:
		return "inHg"
	case 9*4 + 0:
		return "kPa"
	case 9*4 + 1:
		return "inHg"
	case 10*4 + 0:
		return "W/m2"
	case 10*4 + 1:
		return "W/m2"
	case 10*4 + 2:
		return "W/m2"
	case 10*4 + 3:
		return "W/m2"
	case 11*4 + 0:
		return "C"
	case 11*4 + 1:
		return "F"
	case 12*4 + 0:
		return "mm/h"
	case 12*4 + 1:
		return "in/h"
	case 13*4 + 0:
		return "m"
	case 13*4 + 1:
		return "ft"
	case 14*4 + 0:
		return "kg"
	case 14*4 + 1:
		return "lb"
	case 15*4 + 0:
		return "V"
	case 15*4 + 1:
		return "mV"
	case 16*4 + 0:
		return "A"
	case 16*4 + 1:
		return "mA"
	case 17*4 + 0:
		return "ppm"
	case 17*4 + 1:
		return "ppm"
	case 17*4 + 2:
		return "ppm"
	case 17*4 + 3:
		return "ppm"
	case 18*4 + 0:
		return "m3/h"
	case 18*4 + 1:
		return "cfm"
	case 19*4 + 0:
		return "l"
	case 19*4 + 1:
		return "cbm"
	case 19*4 + 2:
		return "gal"
	case 20*4 + 0:
		return "m"
	case 20*4 + 1:
		return "cm"
	case 20*4 + 2:
		return "ft"
	case 21*4 + 0:
		return "%"
	case 21*4 + 1:
		return "deg N"
	case 21*4 + 2:
		return "deg S"
	case 22*4 + 0:
		return "rpm"
	case 22*4 + 1:
		return "hz"
	case 23*4 + 0:
		return "C"
	case 23*4 + 1:
		return "F"
	case 24*4 + 0:
		return "C"
	case 24*4 + 1:
		return "F"
	case 25*4 + 0:
		return "mercalli"
	case 25*4 + 1:
		return "EU macroseismic"
	case 25*4 + 2:
		return "liedu"
	case 25*4 + 3:
		return "shindo"
	case 26*4 + 0:
		return "local"
	case 26*4 + 1:
		return "moment"
	case 26*4 + 2:
		return "surface wave"
	case 26*4 + 3:
		return "body wave"
	case 28*4 + 0:
		return "ohm"
	case 28*4 + 1:
		return "ohm"
	case 28*4 + 2:
		return "ohm"
	case 28*4 + 3:
		return "ohm"
	case 29*4 + 0:
		return "siemens/m"
	case 29*4 + 1:
		return "siemens/m"
	case 29*4 + 2:
		return "siemens/m"
	case 29*4 + 3:
		return "siemens/m"
	case 30*4 + 0:
		return "db"
	case 30*4 + 1:
		return "dBA"
	case 31*4 + 0:
		return "%"
	case 31*4 + 1:
		return "content"
	case 31*4 + 2:
		return "k ohm"
	case 31*4 + 3:
		return "water activity"
	}
	return ""
}

func pow10(n byte) float64 {
	switch n {
	case 1:
		return 10
	case 2:
		return 100
	case 3:
		return 1000
	case 4:
		return 10000
	case 5:
		return 100000
	case 6:
		return 1000000
	case 7:
		return 10000000
	}
	return 1
}

// signed is the big-endian two's-complement value of b[0:n].
func signed(b []byte, n byte) int32 {
	switch n {
	case 1:
		return int32(int8(b[0]))
	case 2:
		return int32(int16(uint16(b[0])<<8 | uint16(b[1])))
	}
	return int32(uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3]))
}

// spec_NewSensorMultiLevel: for every payload.
//
//gvc:verify C09
//gvc:terminates C09
//gvc:opt gen.data=genSensor
func spec_NewSensorMultiLevel(data []byte) {
	in := g.Snapshot(data)
	s, err := NewSensorMultiLevel(data)
	g.Ensures("C09.the payload is left alone", g.Forall(0, len(in), func(i int) bool { return data[i] == in[i] }))
	if len(in) < 2 || len(in) < 2+int(in[1]&7) {
		g.Cover("C09.short report")
		g.Ensures("C09.a report shorter than its own size field announces is rejected", s == nil && err != nil)
		return
	}
	size := in[1] & 7
	if size != 1 && size != 2 && size != 4 {
		return
	}
	g.Cover("C09.reading")
	g.Ensures("C09.a complete report is accepted", s != nil && err == nil)
	scale, prec := in[1]>>3&3, in[1]>>5
	g.Ensures("C09.type, scale, size and precision are the header fields", byte(s.ValueType) == in[0] && s.Scale == scale && s.Size == size && s.Precision == prec)
	g.Ensures("C09.the value is the big-endian signed value over ten to the precision", s.Value == float64(signed(in[2:], size))/pow10(prec))
	g.Ensures("C09.the type name is that of the sensor table", s.TypeString == sensorName(in[0]))
	g.Ensures("C09.the unit is that of the sensor table", s.Unit == sensorUnit(in[0], scale))
}

func genSensor(r *g.Rand) []byte {
	b := r.Bytes(r.Intn(9))
	if len(b) > 1 {
		if r.Intn(2) == 0 {
			b[0] = byte(r.Intn(36))
		}
		if r.Intn(4) > 0 {
			b[1] = b[1]&0xf8 | []byte{1, 2, 4}[r.Intn(3)]
		}
		if r.Intn(3) == 0 {
			b[1] &= 0x1f
		}
		for i := 2; i < len(b); i++ {
			if r.Intn(3) == 0 {
				b[i] = []byte{0, 0xff, 0x80, 0x7f}[r.Intn(4)]
			}
		}
	}
	return b
}
