package reports

import (
	g "github.com/stampzilla/gozwave/gvcspec"
)

func hex4(hi, lo byte) string {
	return g.HexDigit(hi>>4) + g.HexDigit(hi&15) + g.HexDigit(lo>>4) + g.HexDigit(lo&15)
}
func capped(b byte) float64 {
	if b > 100 {
		return 100
	}
	return float64(b)
}

//gvc:verify C10
//gvc:safety C10
func spec_NewSwitchBinaryV1(data []byte) {
	in := g.Snapshot(data)
	r, err := NewSwitchBinaryV1(data)
	if len(in) != 1 {
		g.Ensures("C10.binary v1: wrong length is rejected", err != nil && r == nil)
		return
	}
	g.Cover("C10.binary v1")
	g.Ensures("C10.binary v1: accepted", err == nil && r != nil)
	g.Ensures("C10.binary v1: on exactly for 0xff, known unless 0xfe", r.CurrentValue == (in[0] == 0xff) && r.Valid == (in[0] != 0xfe))
}

//gvc:verify C10
//gvc:safety C10
func spec_NewSwitchBinaryV2(data []byte) {
	in := g.Snapshot(data)
	r, err := NewSwitchBinaryV2(data)
	if len(in) != 3 {
		g.Ensures("C10.binary v2: wrong length is rejected", err != nil && r == nil)
		return
	}
	g.Cover("C10.binary v2")
	g.Ensures("C10.binary v2: accepted", err == nil && r != nil)
	g.Ensures("C10.binary v2: current, target and duration", r.CurrentValue == (in[0] != 0) && r.TargetValue == (in[1] != 0) && byte(r.Duration) == in[2])
}

//gvc:verify C10
//gvc:safety C10
func spec_NewSwitchMultilevelV1(data []byte) {
	in := g.Snapshot(data)
	r, err := NewSwitchMultilevelV1(data)
	if len(in) != 1 {
		g.Ensures("C10.multilevel v1: wrong length is rejected", err != nil && r == nil)
		return
	}
	g.Cover("C10.multilevel v1")
	g.Ensures("C10.multilevel v1: accepted", err == nil && r != nil)
	g.Ensures("C10.multilevel v1: value capped at 100, known unless 0xfe", r.CurrentValue == capped(in[0]) && r.Valid == (in[0] != 0xfe))
}

//gvc:verify C10
//gvc:safety C10
func spec_NewSwitchMultilevelV4(data []byte) {
	in := g.Snapshot(data)
	r, err := NewSwitchMultilevelV4(data)
	if len(in) != 3 {
		g.Ensures("C10.multilevel v4: wrong length is rejected", err != nil && r == nil)
		return
	}
	g.Cover("C10.multilevel v4")
	g.Ensures("C10.multilevel v4: accepted", err == nil && r != nil)
	g.Ensures("C10.multilevel v4: current value capped at 100, known unless 0xfe", r.CurrentValue == capped(in[0]) && r.Valid == (in[0] != 0xfe))
	g.Ensures("C10.multilevel v4: target value capped at 100, known unless 0xfe", r.TargetValue == capped(in[1]) && r.TargetValid == (in[1] != 0xfe))
	g.Ensures("C10.multilevel v4: duration", byte(r.Duration) == in[2])
}

//gvc:verify C10
//gvc:safety C10
func spec_NewAlarm(data []byte) {
	in := g.Snapshot(data)
	r, err := NewAlarm(data)
	if len(in) < 2 {
		g.Ensures("C10.alarm: too short is rejected", err != nil && r == nil)
		return
	}
	g.Cover("C10.alarm")
	g.Ensures("C10.alarm: accepted", err == nil && r != nil)
	g.Ensures("C10.alarm: type and level", r.Type == in[0] && r.Level == in[1])
	if len(in) >= 6 {
		g.Cover("C10.long alarm")
		g.Ensures("C10.alarm: source, status, sensor type and event", r.SensorSourceID == in[2] && r.Status == in[3] && r.SensorType == in[4] && r.Event == in[5])
	} else {
		g.Ensures("C10.alarm: fields that were not sent are zero", r.SensorSourceID == 0 && r.Status == 0 && r.SensorType == 0 && r.Event == 0)
	}
}

//gvc:verify C10
//gvc:safety C10
func spec_NewManufacturerSpecific(data []byte) {
	in := g.Snapshot(data)
	r, err := NewManufacturerSpecific(data)
	if len(in) != 6 {
		g.Ensures("C10.manufacturer: wrong length is rejected", err != nil && r == nil)
		return
	}
	g.Cover("C10.manufacturer")
	g.Ensures("C10.manufacturer: accepted", err == nil && r != nil)
	g.Ensures("C10.manufacturer: manufacturer id in four lower-case hex digits", r.Manufacturer == hex4(in[0], in[1]))
	g.Ensures("C10.manufacturer: type id in four lower-case hex digits", r.Type == hex4(in[2], in[3]))
	g.Ensures("C10.manufacturer: product id in four lower-case hex digits", r.ID == hex4(in[4], in[5]))
}

//gvc:verify C10
//gvc:safety C10
func spec_NewMultiChannelEndpoints(data []byte) {
	in := g.Snapshot(data)
	r, err := NewMultiChannelEndpoints(data)
	if len(in) < 2 {
		g.Ensures("C10.endpoints: too short is rejected", err != nil && r == nil)
		return
	}
	g.Cover("C10.endpoints")
	g.Ensures("C10.endpoints: accepted", err == nil && r != nil)
	g.Ensures("C10.endpoints: flags and number", r.Dynamic == (in[0]&0x80 != 0) && r.Identical == (in[0]&0x40 != 0) && r.Endpoints == int(in[1]))
}
