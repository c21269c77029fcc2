package nodes

import (
	"time"

	"github.com/stampzilla/gozwave/commands"
	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/interfaces"
	"github.com/stampzilla/gozwave/serialapi"

	g "github.com/stampzilla/gozwave/gvcspec"
)

// loop invariants of the search for an endpoint
func noneOf(es []*Endpoint, id, i int) bool {
	return i >= 0 && i <= len(es) && g.Forall(0, i, func(j int) bool { return es[j] == nil || es[j].Id != id })
}

//gvc:all
func inv_noneOf(n *Node, id int, i int) bool { return noneOf(n.Endpoints, id, i) }

//gvc:all
func inv_noneOf1(n *Node, id int, i int) bool { return noneOf(n.Endpoints, id, i+1) }

// spec_Endpoint: every node, every number.
//
//gvc:verify C25
//gvc:safety C25
//gvc:terminates C25
//gvc:locks C27
func spec_Endpoint(n *Node, id int) {
	if n == nil {
		g.Cover("C25.no node")
		g.Ensures("C25.a missing node has no endpoint", n.Endpoint(id) == nil)
		return
	}
	before := g.Snapshot(n.Endpoints)
	e := n.Endpoint(id)
	if g.Exists(0, len(before), func(i int) bool { return before[i] != nil && before[i].Id == id }) {
		g.Cover("C25.found")
		g.Ensures("C25.the endpoint found is one of the node's, with the given number", e != nil && e.Id == id && g.Exists(0, len(before), func(i int) bool { return before[i] == e }))
	} else {
		g.Cover("C25.not found")
		g.Ensures("C25.nothing is found when the node has no such endpoint", e == nil)
	}
	g.Ensures("C25.looking up changes nothing", len(n.Endpoints) == len(before) && g.Forall(0, len(before), func(i int) bool { return n.Endpoints[i] == before[i] }))
}

func endpoint(e *Endpoint) {
	g.Requires(e != nil && e.node != nil)
	connected(e.node)
}

// isWrapped: the frame is a node's switch command, wrapped for an endpoint.
func isWrapped(b []byte, node, endpoint int, class, value byte) bool {
	return len(b) == 11 && b[0] == 0x13 && b[1] == byte(node) && b[2] == 7 && b[3] == 0x60 && b[4] == 0x0d && b[5] == 1 && b[6] == byte(endpoint) &&
		b[7] == class && b[8] == 1 && b[9] == value && b[10] == 0x25
}

func wantsWrapped(e *Endpoint, binary, level byte) {
	switch {
	case supports(e.node, commands.SwitchBinary):
		g.Cover("C25.binary")
		g.Ensures("C25.exactly one command is sent when the node supports it", sent.n == 1)
		g.Ensures("C25.the node's binary command is wrapped for the endpoint", isWrapped(sent.bytes, e.node.Id, e.Id, 0x25, binary))
	case supports(e.node, commands.SwitchMultilevel):
		g.Cover("C25.multilevel")
		g.Ensures("C25.exactly one command is sent when the node supports it", sent.n == 1)
		g.Ensures("C25.the node's level command is wrapped for the endpoint", isWrapped(sent.bytes, e.node.Id, e.Id, 0x26, level))
	default:
		g.Cover("C25.neither")
		g.Ensures("C25.nothing is sent when the node supports neither", sent.n == 0)
	}
}

// spec_Endpoint_On: every endpoint of every node.
//
//gvc:verify C25
//gvc:safety C25
//gvc:locks C27
//gvc:uses (*nodes.Node).HasCommand
func spec_Endpoint_On(e *Endpoint) {
	endpoint(e)
	e.On()
	wantsWrapped(e, 0xff, 99)
}

// spec_Endpoint_Off: every endpoint of every node.
//
//gvc:verify C25
//gvc:safety C25
//gvc:locks C27
//gvc:uses (*nodes.Node).HasCommand
func spec_Endpoint_Off(e *Endpoint) {
	endpoint(e)
	e.Off()
	wantsWrapped(e, 0, 0)
}

// spec_Endpoint_Level: every endpoint and number.
//
//gvc:verify C25
//gvc:safety C25
//gvc:locks C27
//gvc:uses (*nodes.Node).HasCommand
func spec_Endpoint_Level(e *Endpoint, v float64) {
	g.Requires(v == v) // a NaN is not a number
	endpoint(e)
	e.Level(v)
	if !supports(e.node, commands.SwitchMultilevel) {
		g.Cover("C25.no multilevel switch")
		g.Ensures("C25.nothing is sent to a node without levels", sent.n == 0)
		return
	}
	g.Cover("C25.level")
	g.Ensures("C25.exactly one command is sent when the node supports it", sent.n == 1)
	l := sent.bytes[9]
	g.Ensures("C25.the node's level command is wrapped for the endpoint", isWrapped(sent.bytes, e.node.Id, e.Id, 0x26, l))
	g.Ensures("C25.the level is the clamped one", v < 1 && l == 0 || v > 99 && l == 99 || v >= 1 && v <= 99 && float64(l) <= v && v < float64(l)+1)
}

// encoded is a command of given bytes.
type encoded struct{ b []byte }

func (e *encoded) Encode() []byte { return e.b }

// spec_Endpoint_Write: every command of at least three bytes.
//
//gvc:verify C25
//gvc:safety C25
//gvc:locks C27
func spec_Endpoint_Write(e *Endpoint, cmd []byte) {
	endpoint(e)
	g.Requires(len(cmd) >= 3) // function, node and length are needed to wrap a command
	in := g.Snapshot(cmd)
	e.Write(&encoded{cmd})
	b := sent.bytes
	g.Ensures("C25.exactly one command is sent", sent.n == 1)
	g.Ensures("C25.the command is wrapped for the endpoint", len(b) == len(in)+4 && b[0] == in[0] && b[1] == in[1] && b[2] == in[2]+4 && b[3] == 0x60 && b[4] == 0x0d && b[5] == 1 && b[6] == byte(e.Id) &&
		g.Forall(3, len(in), func(i int) bool { return b[4+i] == in[i] }))
}

// asked is the ghost record of a request.
var asked struct {
	n     int
	bytes []byte
	ch    chan reports.Report
	got   reports.Report
	id    int
}

// oneRequest is a connection on which a node asks for one report.
type oneRequest struct {
	report  byte
	command byte
}

func (w *oneRequest) Write(m interfaces.Encodable) error {
	g.Unreachable("C25.nothing is sent without waiting for the answer")
	return nil
}
func (w *oneRequest) WriteWithTimeout(m interfaces.Encodable, t time.Duration) (<-chan *serialapi.Message, error) {
	g.Unreachable("C25.the answer waited for is a report")
	return nil, nil
}
func (w *oneRequest) WriteAndWaitForReport(m interfaces.Encodable, t time.Duration, report byte) (<-chan reports.Report, error) {
	g.Ensures("C27.no lock is held while a command is sent", g.NLocks() == 0)
	b := m.Encode()
	g.Ensures("C25.the node itself is asked, for its endpoints", len(b) >= 5 && b[0] == 0x13 && b[1] == byte(asked.id) && b[3] == 0x60 && b[4] == 0x07 && report == 0x08 && t > 0)
	asked.n++
	if err := g.Any[error]("write error"); err != nil {
		return nil, err
	}
	asked.ch = make(chan reports.Report)
	return asked.ch, nil
}

// loop invariants: the endpoints created so far (i is the number of the next one, or of the last one)
func created(n *Node, i int) bool {
	return n.Endpoints != nil && i >= 0 && len(n.Endpoints) == i && g.Forall(0, i, func(j int) bool {
		e := n.Endpoints[j]
		return e != nil && e.Id == j+1 && e.node == n && e.StateBool != nil && e.StateFloat != nil
	})
}
func inv_created(n *Node, i int) bool  { return created(n, i) }
func inv_created1(n *Node, i int) bool { return created(n, i-1) }
func inv_created2(n *Node, i int) bool { return created(n, i+1) }

// spec_RequestEndpoints: every node and every answer.
//
//gvc:verify C25 C35
//gvc:safety C25 C35
//gvc:locks C27
//gvc:guard C25 Node.Endpoints by Node.RWMutex
//gvc:opt nomodel
//gvc:nonative
func spec_RequestEndpoints(n *Node) {
	g.Requires(n != nil && n.connection == nil)
	n.connection = &oneRequest{}
	g.Publish(n)
	asked.n, asked.id = 0, n.Id
	asked.ch, asked.got = nil, nil
	classes := n.CommandClasses != nil
	g.OnRecvAny(func(ch chan reports.Report) (reports.Report, bool) {
		g.Ensures("C25.the answer to the request is waited for", ch == asked.ch && ch != nil)
		r := g.Any[reports.Report]("answer")
		if m, ok := r.(*reports.MultiChannelEndpoints); ok {
			g.Assume(m != nil && m.Endpoints >= 0 && m.Endpoints <= 255) // C10: a number of a byte
		}
		asked.got = r
		return r, r != nil
	})
	err := n.RequestEndpoints()
	if m, ok := asked.got.(*reports.MultiChannelEndpoints); ok {
		g.Cover("C25.endpoints")
		g.Ensures("C25.the answer is accepted", err == nil && asked.n == 1)
		g.Ensures("C25.exactly the endpoints 1..n exist", created(n, m.Endpoints))
		return
	}
	g.Cover("C25.no endpoints")
	g.Ensures("C25,C35.no answer, or one of another kind, is an error", err != nil)
	if classes {
		g.Ensures("C25,C35.the node is asked once", asked.n == 1)
	}
}
