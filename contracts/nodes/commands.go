package nodes

import (
	"time"

	"github.com/stampzilla/gozwave/commands"
	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/interfaces"
	"github.com/stampzilla/gozwave/serialapi"

	g "github.com/stampzilla/gozwave/gvcspec"
)

// sent is the ghost record of what a node sent.
var sent struct {
	n     int
	bytes []byte
}

// anyWriter is a connection that records the command written to it.
type anyWriter struct{ n int }

func (w *anyWriter) Write(m interfaces.Encodable) error {
	g.Ensures("C27.no lock is held while a command is sent", g.NLocks() == 0)
	sent.bytes = g.Snapshot(m.Encode())
	sent.n++
	return g.Any[error]("write error")
}
func (w *anyWriter) WriteWithTimeout(m interfaces.Encodable, t time.Duration) (<-chan *serialapi.Message, error) {
	g.Unreachable("C24.switching waits for no answer")
	return nil, nil
}
func (w *anyWriter) WriteAndWaitForReport(m interfaces.Encodable, t time.Duration, report byte) (<-chan reports.Report, error) {
	g.Unreachable("C24.switching waits for no report")
	return nil, nil
}

// supports: the node's list has the class.
func supports(n *Node, class commands.ZWaveCommand) bool {
	return g.Exists(0, len(n.CommandClasses), func(i int) bool { return n.CommandClasses[i].ID == class })
}

// inOrder: what every node in use satisfies.
func inOrder(n *Node) bool {
	return n != nil && g.Forall(0, len(n.CommandClasses), func(i int) bool { return n.CommandClasses[i] != nil })
}

// loop invariants of the search (i: classes looked at, or index of the last one)
func noneYet(n *Node, class commands.ZWaveCommand, i int) bool {
	return i >= 0 && i <= len(n.CommandClasses) && g.Forall(0, i, func(j int) bool { return n.CommandClasses[j].ID != class })
}
func inv_noneYet(n *Node, class commands.ZWaveCommand, i int) bool  { return noneYet(n, class, i) }
func inv_noneYet1(n *Node, class commands.ZWaveCommand, i int) bool { return noneYet(n, class, i+1) }

// (of a search that goes on after the class was found)
func foundYet(n *Node, class commands.ZWaveCommand, i int, found bool) bool {
	return i >= 0 && i <= len(n.CommandClasses) && (found || noneYet(n, class, i)) && (!found || supports(n, class))
}
func inv_foundYet(n *Node, class commands.ZWaveCommand, i int, found bool) bool {
	return foundYet(n, class, i, found)
}
func inv_foundYet1(n *Node, class commands.ZWaveCommand, i int, found bool) bool {
	return foundYet(n, class, i+1, found)
}

// spec_HasCommand: every node and class.
//
//gvc:verify C24
//gvc:safety C24
//gvc:terminates C24
//gvc:locks C27
//gvc:contract (*nodes.Node).HasCommand
func spec_HasCommand(n *Node, class commands.ZWaveCommand) {
	g.Requires(inOrder(n))
	ok := n.HasCommand(class)
	if ok {
		g.Cover("C24.supported")
	} else {
		g.Cover("C24.not supported")
	}
	g.Ensures("C24.a class is supported exactly when it is in the node's list", ok == supports(n, class))
}

// isSwitch: the frame is the set command of a class for a node.
func isSwitch(b []byte, node int, class, value byte) bool {
	return len(b) == 7 && b[0] == 0x13 && b[1] == byte(node) && b[2] == 3 && b[3] == class && b[4] == 1 && b[5] == value && b[6] == 0x25
}

// wantsSwitch states what On and Off send.
func wantsSwitch(n *Node, binary, level byte) {
	switch {
	case supports(n, commands.SwitchBinary):
		g.Cover("C24.binary")
		g.Ensures("C24.exactly one command is sent when the node supports it", sent.n == 1)
		g.Ensures("C24.a binary switch gets a binary command", isSwitch(sent.bytes, n.Id, 0x25, binary))
	case supports(n, commands.SwitchMultilevel):
		g.Cover("C24.multilevel")
		g.Ensures("C24.exactly one command is sent when the node supports it", sent.n == 1)
		g.Ensures("C24.a multilevel switch gets a level", isSwitch(sent.bytes, n.Id, 0x26, level))
	default:
		g.Cover("C24.neither")
		g.Ensures("C24.nothing is sent when the node supports neither", sent.n == 0)
	}
}

// wantsLevel states what Level sends.
func wantsLevel(n *Node, v float64) {
	if !supports(n, commands.SwitchMultilevel) {
		g.Cover("C24.no multilevel switch")
		g.Ensures("C24.nothing is sent to a node without levels", sent.n == 0)
		return
	}
	g.Cover("C24.level")
	g.Ensures("C24.exactly one command is sent when the node supports it", sent.n == 1)
	l := sent.bytes[5]
	g.Ensures("C24.the command goes to the node", isSwitch(sent.bytes, n.Id, 0x26, l))
	g.Ensures("C24.the level is the clamped one", v < 1 && l == 0 || v > 99 && l == 99 || v >= 1 && v <= 99 && float64(l) <= v && v < float64(l)+1)
}

func connected(n *Node) {
	g.Requires(inOrder(n) && n.connection == nil)
	n.connection = &anyWriter{}
	sent.n = 0
}

// spec_On: every node.
//
//gvc:verify C24
//gvc:safety C24
//gvc:locks C27
//gvc:uses (*nodes.Node).HasCommand
func spec_On(n *Node) {
	connected(n)
	n.On()
	wantsSwitch(n, 0xff, 99)
}

// spec_Off: every node.
//
//gvc:verify C24
//gvc:safety C24
//gvc:locks C27
//gvc:uses (*nodes.Node).HasCommand
func spec_Off(n *Node) {
	connected(n)
	n.Off()
	wantsSwitch(n, 0, 0)
}

// spec_Level: every node and every number.
//
//gvc:verify C24
//gvc:safety C24
//gvc:locks C27
//gvc:uses (*nodes.Node).HasCommand
func spec_Level(n *Node, v float64) {
	g.Requires(v == v) // a NaN is not a number
	connected(n)
	n.Level(v)
	wantsLevel(n, v)
}
