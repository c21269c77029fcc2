package nodes

import (
	"time"

	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/database"
	"github.com/stampzilla/gozwave/events"
	"github.com/stampzilla/gozwave/interfaces"
	"github.com/stampzilla/gozwave/serialapi"

	g "github.com/stampzilla/gozwave/gvcspec"
)

// id is the ghost state around one identification.
var id struct {
	n      *Node
	info   *serialapi.FuncGetNodeProtocolInfo // known protocol info
	maker  *reports.ManufacturerSpecific      // known manufacturer ids
	made   [3]string                          // what the ids are
	asked  bool                               // the device database was asked
	dev    *database.Device                   // what it has for these ids
	devcc  []*database.CommandClass           // and for the device's command classes
	mand   []*database.CommandClass           // what is mandatory for that class of device
	room   []*database.CommandClass           // mand with its spare capacity
	roomed []*database.CommandClass           // and what that holds
	states bool                               // the states were requested
	woken  bool                               // the node has woken up
	failed bool                               // a request failed just now
	told   bool                               // every change has been announced
}

// complete: the node's command classes are the mandatory ones, then the device's.
func complete(n *Node) bool {
	return mandatoryFirst(n) && id.asked && (id.dev == nil && len(n.CommandClasses) == len(id.mand) || id.dev != nil && len(n.CommandClasses) == len(id.mand)+len(id.devcc)) &&
		deviceNext(n, len(n.CommandClasses)-len(id.mand))
}
func mandatoryFirst(n *Node) bool {
	return len(n.CommandClasses) >= len(id.mand) && g.Forall(0, len(id.mand), func(i int) bool { return n.CommandClasses[i] == id.mand[i] })
}
func deviceNext(n *Node, k int) bool {
	return k >= 0 && g.Forall(0, k, func(i int) bool { return n.CommandClasses[len(id.mand)+i] == id.devcc[i] })
}

// identifiedRightly: an identified node has everything.
func identifiedRightly() bool {
	n := id.n
	return !n.identified || n.protocolInfo != nil && n.protocolInfo == id.info && n.ManufacurerSpecific != nil && n.ManufacurerSpecific == id.maker && n.Endpoints != nil && id.states && complete(n)
}

// asks: a request is made, with the lock free and not in a hurry.
func asks(n *Node, sleeper bool) {
	g.Ensures("C35.the node itself is identified", n == id.n)
	g.Ensures("C27.no lock is held while waiting for an answer", g.NLocks() == 0)
	g.Ensures("C35.a failed request is repeated after a pause", !id.failed)
	if sleeper {
		g.Ensures("C35.a sleeping node is asked only when it has woken up", n.IsAwake || id.woken)
	}
}

// What the requests do, as their own contracts below state it.

//gvc:model (*github.com/stampzilla/gozwave/nodes.Node).RequestProtocolInfo
func modelRequestProtocolInfo(n *Node) (*serialapi.FuncGetNodeProtocolInfo, error) {
	asks(n, false)
	if err := g.Any[error]("error"); err != nil {
		id.failed = true
		return nil, err
	}
	p := g.Any[*serialapi.FuncGetNodeProtocolInfo]("info")
	g.Assume(p != nil)
	id.info = p
	id.told = false
	return p, nil
}

//gvc:model (*github.com/stampzilla/gozwave/nodes.Node).RequestManufacturerSpecific
func modelRequestManufacturerSpecific(n *Node) (*reports.ManufacturerSpecific, error) {
	asks(n, true)
	if err := g.Any[error]("error"); err != nil {
		id.failed = true
		return nil, err
	}
	m := g.Any[*reports.ManufacturerSpecific]("ids")
	g.Assume(m != nil)
	id.maker = m
	id.made = [3]string{m.Manufacturer, m.Type, m.ID}
	id.told, id.asked = false, false
	return m, nil
}

//gvc:model (*github.com/stampzilla/gozwave/nodes.Node).RequestEndpoints
func modelRequestEndpoints(n *Node) error {
	asks(n, true)
	g.Ensures("C35.the endpoints are requested when the node's command classes are known", complete(n))
	if err := g.Any[error]("error"); err != nil {
		id.failed = true
		if n.CommandClasses == nil {
			n.Endpoints = []*Endpoint{}
		}
		return err
	}
	n.Endpoints = g.Any[[]*Endpoint]("endpoints")
	g.Assume(n.Endpoints != nil)
	id.told = false
	return nil
}

//gvc:model (*github.com/stampzilla/gozwave/nodes.Node).RequestStates
func modelRequestStates(n *Node) error {
	asks(n, true)
	g.Ensures("C35.the states are requested when the node's command classes are known", complete(n))
	if err := g.Any[error]("error"); err != nil {
		id.failed = true
		return err
	}
	n.statesOk, id.states = true, true
	return nil
}

//gvc:model github.com/stampzilla/gozwave/database.GetMandatoryCommandClasses
func modelMandatory(generic, specific byte) []*database.CommandClass {
	g.Ensures("C35.the mandatory classes are those of the node's kind", id.info != nil && generic == id.info.Generic && specific == id.info.Specific)
	return id.mand
}

//gvc:model github.com/stampzilla/gozwave/database.New
func modelDevice(manufacturer, kind, product string) *database.Device {
	g.Ensures("C35.the device is the one with the node's ids", id.maker != nil && manufacturer == id.made[0] && kind == id.made[1] && product == id.made[2])
	id.asked = true
	return id.dev
}

// fullOrOwn: appending to the classes does not write to the definitions.
func fullOrOwn(n *Node) bool {
	return len(n.CommandClasses) == cap(n.CommandClasses) || !g.SameBacking(n.CommandClasses, id.mand) && !g.SameBacking(n.CommandClasses, id.devcc) && !g.SameBacking(n.CommandClasses, id.roomed) && (id.dev == nil || !g.SameBacking(n.CommandClasses, id.dev.CommandClasses))
}

// loop invariants: the device's classes up to the i-th are in the list
func inv_fullOrOwn(n *Node) bool { return fullOrOwn(n) }
func inv_deviceTo(n *Node, i int) bool {
	return mandatoryFirst(n) && len(n.CommandClasses) == len(id.mand)+i && deviceNext(n, i)
}
func inv_deviceTo1(n *Node, i int) bool {
	return mandatoryFirst(n) && len(n.CommandClasses) == len(id.mand)+i+1 && deviceNext(n, i+1)
}

// of the attempts
func inv_attempt(n *Node) bool {
	return n == id.n && !n.identified && n.protocolInfo == id.info && n.ManufacurerSpecific == id.maker && n.statesOk == id.states && !id.failed
}
func inv_attemptMaker(n *Node) bool {
	m := id.maker
	return m == nil || m.Manufacturer == id.made[0] && m.Type == id.made[1] && m.ID == id.made[2]
}
func inv_attemptDevice(n *Node) bool {
	return id.dev == nil || len(id.dev.CommandClasses) == len(id.devcc) && g.Forall(0, len(id.devcc), func(i int) bool { return id.dev.CommandClasses[i] == id.devcc[i] })
}
func inv_attemptRoom(n *Node) bool {
	return g.Forall(0, len(id.room), func(i int) bool { return id.room[i] == id.roomed[i] })
}
func inv_attemptAwake(n *Node) bool {
	return n.StateBool != nil
}

// spec_Identify: every node, known or new, and every sequence of answers, errors and timeouts.
//
//gvc:verify C35
//gvc:safety C35
//gvc:locks C27
//gvc:nonative
func spec_Identify(n *Node, dev *database.Device, mand []*database.CommandClass, room int) {
	g.Requires(n != nil && !n.identified && !n.statesOk && n.pushEventFunc == nil && n.StateBool != nil)
	g.Requires(room >= len(mand) && room <= cap(mand))
	id.n, id.dev, id.mand = n, dev, mand
	id.devcc = nil
	if dev != nil {
		id.devcc = g.Snapshot(dev.CommandClasses)
	}
	id.room = mand[:room]
	id.roomed = g.Snapshot(id.room)
	id.info, id.maker = n.protocolInfo, n.ManufacurerSpecific
	if id.maker != nil {
		id.made = [3]string{id.maker.Manufacturer, id.maker.Type, id.maker.ID}
	}
	id.asked, id.states, id.woken, id.failed, id.told = false, false, false, false, false
	n.pushEventFunc = func(e interface{}) {
		u, ok := e.(events.NodeUpdated)
		g.Ensures("C35.the node's own updates are announced", ok && u.Address == id.n.Id)
		id.told = true
	}
	g.Publish(n)
	g.OnUnlock(&n.RWMutex, func() {
		g.Ensures("C35.a node is identified only when everything is known", identifiedRightly())
	})
	g.OnRecvAny(func(ch chan struct{}) (struct{}, bool) {
		id.woken = true
		return struct{}{}, false
	})
	g.OnSleep(func(d time.Duration) {
		g.Ensures("C27.no lock is held while pausing", g.NLocks() == 0)
		if d > 0 {
			id.failed = false
		}
	})
	n.Identify()
	g.Cover("C35.identified")
	g.Ensures("C35.identification ends when everything is known", n.identified && identifiedRightly())
	g.Ensures("C35.what became known has been announced", id.told)
	g.Ensures("C35.the definitions are not changed", g.Forall(0, len(id.room), func(i int) bool { return id.room[i] == id.roomed[i] }))
	if dev != nil {
		g.Ensures("C35.the definitions are not changed", len(dev.CommandClasses) == len(id.devcc) && g.Forall(0, len(id.devcc), func(i int) bool { return dev.CommandClasses[i] == id.devcc[i] }))
	}
}

// nodeAsked is the ghost record of requests to the controller or the node.
var nodeAsked struct {
	id       int
	n        int // requests waited for
	bytes    []byte
	report   byte
	messages chan *serialapi.Message
	reports  chan reports.Report
	message  *serialapi.Message
	answer   reports.Report
	received int
	err      error
	failed   bool // some request that waits for an answer could not be sent
	gets     [3]int
}

// asking is a connection on which a node asks.
type asking struct{ n int }

func (w *asking) Write(m interfaces.Encodable) error {
	g.Ensures("C27.no lock is held while a command is sent", g.NLocks() == 0)
	b := m.Encode()
	g.Ensures("C35.the node itself is asked for its states", len(b) >= 5 && b[0] == 0x13 && b[1] == byte(nodeAsked.id) && b[4] == 2 && (b[3] == 0x25 || b[3] == 0x26))
	if b[3] == 0x25 {
		nodeAsked.gets[0]++
	} else {
		nodeAsked.gets[1]++
	}
	return g.Any[error]("write error")
}
func (w *asking) WriteWithTimeout(m interfaces.Encodable, t time.Duration) (<-chan *serialapi.Message, error) {
	g.Ensures("C27.no lock is held while a command is sent", g.NLocks() == 0)
	g.Ensures("C35.an answer is waited for with a time limit", t > 0)
	nodeAsked.bytes = g.Snapshot(m.Encode())
	nodeAsked.n++
	nodeAsked.err = g.Any[error]("write error")
	if nodeAsked.err != nil {
		nodeAsked.failed = true
		return nil, nodeAsked.err
	}
	nodeAsked.messages = make(chan *serialapi.Message)
	return nodeAsked.messages, nil
}
func (w *asking) WriteAndWaitForReport(m interfaces.Encodable, t time.Duration, report byte) (<-chan reports.Report, error) {
	g.Ensures("C27.no lock is held while a command is sent", g.NLocks() == 0)
	g.Ensures("C35.an answer is waited for with a time limit", t > 0)
	nodeAsked.bytes = g.Snapshot(m.Encode())
	nodeAsked.report = report
	nodeAsked.n++
	b := nodeAsked.bytes
	if len(b) >= 5 && b[3] == 0x31 {
		nodeAsked.gets[2]++
		g.Ensures("C35.the node itself is asked for its sensors", b[0] == 0x13 && b[1] == byte(nodeAsked.id) && b[4] == 1 && report == 2)
	}
	nodeAsked.err = g.Any[error]("write error")
	if nodeAsked.err != nil {
		nodeAsked.failed = true
		return nil, nodeAsked.err
	}
	nodeAsked.reports = make(chan reports.Report)
	return nodeAsked.reports, nil
}

func beginAsking(n *Node) {
	g.Requires(n != nil && n.connection == nil)
	n.connection = &asking{}
	nodeAsked.id = n.Id
	nodeAsked.n, nodeAsked.received, nodeAsked.message, nodeAsked.answer = 0, 0, nil, nil
	nodeAsked.messages, nodeAsked.reports, nodeAsked.err = nil, nil, nil
	nodeAsked.gets, nodeAsked.failed = [3]int{}, false
	g.OnRecvAny(func(ch chan *serialapi.Message) (*serialapi.Message, bool) {
		g.Ensures("C35.the answer to the request is waited for", ch != nil && ch == nodeAsked.messages)
		g.Ensures("C27.no lock is held while waiting for an answer", g.NLocks() == 0)
		nodeAsked.received++
		m := g.Any[*serialapi.Message]("answer")
		if m != nil {
			if p, ok := m.Data.(*serialapi.FuncGetNodeProtocolInfo); ok {
				g.Assume(p != nil) // C06
			}
		}
		nodeAsked.message = m
		return m, m != nil
	})
	g.OnRecvAny(func(ch chan reports.Report) (reports.Report, bool) {
		g.Ensures("C35.the answer to the request is waited for", ch != nil && ch == nodeAsked.reports)
		g.Ensures("C27.no lock is held while waiting for an answer", g.NLocks() == 0)
		nodeAsked.received++
		r := g.Any[reports.Report]("answer")
		if p, ok := r.(*reports.ManufacturerSpecific); ok {
			g.Assume(p != nil) // C12
		}
		nodeAsked.answer = r
		return r, r != nil
	})
	g.Publish(n)
}

// spec_RequestProtocolInfo: every node and every answer.
//
//gvc:verify C35
//gvc:safety C35
//gvc:locks C27
//gvc:opt nomodel
//gvc:nonative
func spec_RequestProtocolInfo(n *Node) {
	beginAsking(n)
	p, err := n.RequestProtocolInfo()
	b := nodeAsked.bytes
	g.Ensures("C35.the controller is asked once, for the protocol info of the node", nodeAsked.n == 1 && len(b) == 2 && b[0] == 0x41 && b[1] == byte(n.Id))
	if m := nodeAsked.message; m != nil {
		if d, ok := m.Data.(*serialapi.FuncGetNodeProtocolInfo); ok {
			g.Cover("C35.protocol info")
			g.Ensures("C35.the answer is the protocol info", err == nil && p == d)
			return
		}
	}
	g.Cover("C35.no protocol info")
	g.Ensures("C35.no answer, or one of another kind, is an error", err != nil)
}

// spec_RequestManufacturerSpecific: every node and every answer.
//
//gvc:verify C35
//gvc:safety C35
//gvc:locks C27
//gvc:opt nomodel
//gvc:nonative
func spec_RequestManufacturerSpecific(n *Node) {
	beginAsking(n)
	p, err := n.RequestManufacturerSpecific()
	b := nodeAsked.bytes
	g.Ensures("C35.the node is asked once, for its manufacturer ids", nodeAsked.n == 1 && nodeAsked.report == 5 && len(b) >= 5 && b[0] == 0x13 && b[1] == byte(n.Id) && b[3] == 0x72 && b[4] == 4)
	if d, ok := nodeAsked.answer.(*reports.ManufacturerSpecific); ok {
		g.Cover("C35.manufacturer ids")
		g.Ensures("C35.the answer is the manufacturer ids", err == nil && p == d)
		return
	}
	g.Cover("C35.no manufacturer ids")
	g.Ensures("C35.no answer, or one of another kind, is an error", err != nil)
}

// rec_have counts the classes of one kind in cc[lo:hi].
func rec_have(cc []byte, lo, hi int, class byte) int {
	if hi <= lo {
		return 0
	}
	if cc[hi-1] == class {
		return rec_have(cc, lo, hi-1, class) + 1
	}
	return rec_have(cc, lo, hi-1, class)
}

// kinds are the ids of the node's command classes.
var kinds []byte

// requested: the states of the first i command classes have been requested.
func requested(i int) bool {
	return !nodeAsked.failed && i >= 0 && i <= len(kinds) && g.Forall(0, 3, func(k int) bool { return nodeAsked.gets[k] >= 0 && nodeAsked.gets[k] <= i }) && nodeAsked.gets[0] == rec_have(kinds, 0, i, 0x25) && nodeAsked.gets[1] == rec_have(kinds, 0, i, 0x26) && nodeAsked.gets[2] == rec_have(kinds, 0, i, 0x31)
}
func inv_requested(i int) bool  { return requested(i) }
func inv_requested1(i int) bool { return requested(i + 1) }
func inv_notYetOk(n *Node) bool { return !n.statesOk }

// spec_RequestStates: every node and every answer.
//
//gvc:verify C35
//gvc:safety C35
//gvc:locks C27
//gvc:opt nomodel
//gvc:nonative
func spec_RequestStates(n *Node, ids []byte) {
	beginAsking(n)
	g.Requires(inOrder(n) && len(ids) == len(n.CommandClasses) && !n.statesOk)
	g.Requires(g.Forall(0, len(ids), func(i int) bool { return byte(n.CommandClasses[i].ID) == ids[i] }))
	kinds = ids
	g.OnUnlock(&n.RWMutex, func() {
		g.Ensures("C35.the states are known to be requested when they were", !n.statesOk || requested(len(ids)))
	})
	err := n.RequestStates()
	if err != nil {
		g.Cover("C35.states not requested")
		g.Ensures("C35.a failed request is an error", !n.statesOk && nodeAsked.failed)
		return
	}
	g.Cover("C35.states requested")
	g.Ensures("C35.the state of every switch and sensor class was requested", n.statesOk && requested(len(ids)))
}
