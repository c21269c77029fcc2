package reports

import (
	"github.com/stampzilla/gozwave/commands"
	g "github.com/stampzilla/gozwave/gvcspec"
)

// spec_New: every class, code and payload; the report is also rendered and given a node.
//
//gvc:verify C12
//gvc:safety C12
//gvc:terminates C12
//gvc:opt gen.c=genClass
//gvc:opt gen.class=genCode
//gvc:opt gen.data=genPayload
func spec_New(c commands.ZWaveCommand, class byte, data []byte, node byte) {
	in := g.Snapshot(data)
	r, err := New(c, class, data)
	n := len(in)
	g.Ensures("C12.a command reports are defined for gives a report or an error, never neither", err != nil || r != nil)
	kind := 0
	switch {
	case c == 0x71 && class == 5:
		kind = 1
	case c == 0x72 && class == 5:
		kind = 2
	case c == 0x60 && class == 8:
		kind = 3
	case c == 0x31 && class == 5:
		kind = 4
	case c == 0x25 && class == 3 && n == 1:
		kind = 5
	case c == 0x25 && class == 3 && n == 3:
		kind = 6
	case c == 0x26 && class == 3 && n == 1:
		kind = 7
	case c == 0x26 && class == 3 && n == 3:
		kind = 8
	case c == 0x84:
		kind = 9
	}
	if kind == 0 {
		g.Ensures("C12.an unknown command is an error", err != nil && r == nil)
		return
	}
	if err != nil {
		g.Cover("C12.error")
		g.Ensures("C12.only a payload of unacceptable length is an error", kind == 1 && n < 2 || kind == 2 && n != 6 || kind == 3 && n < 2 || kind == 4 && (n < 2 || n < 2+int(in[1]&7)))
		return
	}
	got := 0
	switch x := r.(type) {
	case *Alarm:
		got = 1
		g.Ensures("C12.the report is not nil", x != nil)
	case *ManufacturerSpecific:
		got = 2
		g.Ensures("C12.the report is not nil", x != nil)
	case *MultiChannelEndpoints:
		got = 3
		g.Ensures("C12.the report is not nil", x != nil)
	case *SensorMultiLevel:
		got = 4
		g.Ensures("C12.the report is not nil", x != nil)
	case *SwitchBinaryV1:
		got = 5
		g.Ensures("C12.the report is not nil", x != nil)
	case *SwitchBinaryV2:
		got = 6
		g.Ensures("C12.the report is not nil", x != nil)
	case *SwitchMultilevelV1:
		got = 7
		g.Ensures("C12.the report is not nil", x != nil)
	case *SwitchMultilevelV4:
		got = 8
		g.Ensures("C12.the report is not nil", x != nil)
	case *WakeUp:
		got = 9
		g.Ensures("C12.the report is not nil", x != nil)
	}
	g.Cover("C12.report")
	g.Ensures("C12.the report is of the kind assigned to class, code and length", got == kind)
	r.SetNode(node)
	r.String()
	r.SetNode(node)
	g.Cover("C12.rendered")
}

func genClass(r *g.Rand) commands.ZWaveCommand {
	if r.Intn(5) == 0 {
		return commands.ZWaveCommand(r.Intn(256))
	}
	return []commands.ZWaveCommand{0x71, 0x72, 0x60, 0x31, 0x25, 0x26, 0x84}[r.Intn(7)]
}
func genCode(r *g.Rand) byte {
	if r.Intn(4) == 0 {
		return byte(r.Intn(256))
	}
	return []byte{3, 5, 8}[r.Intn(3)]
}
func genPayload(r *g.Rand) []byte { return r.Bytes(r.Intn(12)) }
