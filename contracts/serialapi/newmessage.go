package serialapi

import (
	"github.com/stampzilla/gozwave/commands"
	"github.com/stampzilla/gozwave/commands/reports"
	g "github.com/stampzilla/gozwave/gvcspec"
)

// spec_NewMessage: every frame with the application-command function code.
//
//gvc:verify C06
//gvc:terminates C06
//gvc:opt gen.data=genAppFrame
func spec_NewMessage(data []byte) {
	g.Requires(len(data) >= 4 && data[0] == 0x01 && data[3] == 0x04)
	in := g.Snapshot(data)
	m, err := NewMessage(data)
	g.Ensures("C06.the frame is left alone", sameBytes(data, in))
	g.Ensures("C06.a message or an error", (m != nil) != (err != nil))
	if len(in) < 7 || in[6] < 2 || 7+int(in[6]) > len(in) {
		g.Cover("C06.bad command length")
		g.Ensures("C06.a command length below two or beyond the frame is an error", m == nil && err != nil)
		return
	}
	class, cmd := in[7], in[8]
	want, werr := reports.New(commands.ZWaveCommand(class), cmd, in[9:7+int(in[6])])
	g.Ensures("C06.an error exactly when the announced command bytes give no report", (err != nil) == (werr != nil))
	if m == nil || werr != nil {
		return
	}
	g.Cover("C06.application command")
	g.Ensures("C06.length, type and function are those of the frame", m.Length == in[1] && m.MessageType == in[2] && m.Function == 0x04)
	g.Ensures("C06.the message carries its sender", m.NodeID == in[5])
	f, ok := m.Data.(*FuncApplicationCommandHandler)
	g.Ensures("C06.the message carries an application command", ok && f != nil)
	if !ok || f == nil {
		return
	}
	g.Ensures("C06.command class and command code are the ones at their positions", byte(f.Command) == class && f.Class == cmd)
	g.Ensures("C06.the report is built from exactly the announced command bytes", g.DeepEqual(f.Report, want))
}

func genAppFrame(r *g.Rand) []byte {
	b := r.Bytes(4 + r.Intn(16))
	b[0], b[3] = 1, 4
	if len(b) > 6 && r.Intn(6) > 0 {
		b[6] = byte(len(b) - 7 - r.Intn(2))
	}
	if len(b) > 8 && r.Intn(4) > 0 {
		c := [][2]byte{{0x71, 5}, {0x72, 5}, {0x60, 8}, {0x31, 5}, {0x25, 3}, {0x26, 3}, {0x84, 7}}[r.Intn(7)]
		b[7], b[8] = c[0], c[1]
		if c[0] == 0x72 && len(b) > 16 {
			b[6] = 8
		}
		if c[0] == 0x25 || c[0] == 0x26 {
			b[6] = byte(3 + 2*r.Intn(2))
		}
	}
	return b
}
