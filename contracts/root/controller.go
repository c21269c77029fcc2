package gozwave

import (
	"time"

	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/events"
	"github.com/stampzilla/gozwave/interfaces"
	"github.com/stampzilla/gozwave/nodes"
	"github.com/stampzilla/gozwave/serialapi"

	g "github.com/stampzilla/gozwave/gvcspec"
)

// cl is the ghost state around the controller.
var cl struct {
	c          *Controller
	known      map[int]*nodes.Node // the nodes of the list at the beginning
	list       map[int]*nodes.Node // and now
	announced  map[int]int         // how often a node was announced, by id
	identified map[int]int         // how often identification was started, by id
	setup      map[int]int         // how often a node was set up, by id
	asked      int
	reply      *serialapi.Message
	replied    bool
	active     [232]bool
	probe      bool // an event of a node set up here comes to the controller
	processed  int
	event      reports.Report
	to         int
}

// The node list, as C28 specifies it.
//
//gvc:model (*github.com/stampzilla/gozwave/nodes.List).Get
func modelListGet(l *nodes.List, id int) *nodes.Node {
	g.Ensures("C29.the controller's own list is used", l == cl.c.Nodes)
	return cl.list[id]
}

//gvc:model (*github.com/stampzilla/gozwave/nodes.List).Add
func modelListAdd(l *nodes.List, n *nodes.Node) {
	g.Ensures("C29.the controller's own list is used", l == cl.c.Nodes)
	g.Ensures("C29.a node is set up before others can find it", n != nil && cl.setup[n.Id] > 0)
	cl.list[n.Id] = n
}

//gvc:model (*github.com/stampzilla/gozwave/nodes.Node).Setup
func modelSetup(n *nodes.Node, w interfaces.Writer, f func(interface{})) {
	g.Ensures("C29.a node is set up with the controller's connection", n != nil && w == interfaces.Writer(cl.c.Connection) && f != nil)
	cl.probe = false
	f(events.NodeUpdated{Address: n.Id})
	g.Ensures("C29.a node announces to the controller", cl.probe)
	cl.probe = true
	cl.setup[n.Id]++
}

//gvc:model (*github.com/stampzilla/gozwave/nodes.Node).Identify
func modelIdentify(n *nodes.Node) {
	g.Ensures("C29.only nodes of the list are identified", n != nil && cl.list[n.Id] == n)
	cl.identified[n.Id]++
}

//gvc:model (*github.com/stampzilla/gozwave.Controller).pushEvent
func modelPushEvent(c *Controller, event interface{}) {
	g.Ensures("C29.the controller announces", c == cl.c)
	if e, ok := event.(events.NodeDiscoverd); ok {
		n := cl.list[e.Address]
		g.Ensures("C29.what is announced can be found in the list", n != nil && n.Id == e.Address)
		cl.announced[e.Address]++
		return
	}
	_, ok := event.(events.NodeUpdated)
	g.Ensures("C29.nothing else is announced", ok && !cl.probe)
	cl.probe = true
}

//gvc:model (*github.com/stampzilla/gozwave.Connection).WriteWithTimeout
func modelWriteWithTimeout(conn *Connection, m interfaces.Encodable, t time.Duration) (<-chan *serialapi.Message, error) {
	g.Ensures("C29.the node list is asked for, with a time limit", conn == cl.c.Connection && m != nil && t > 0 && equalBytes(m.Encode(), []byte{2}))
	cl.asked++
	err := g.Any[error]("write error")
	if err != nil {
		return nil, err
	}
	ch := make(chan *serialapi.Message)
	g.OnRecv(ch, func() (*serialapi.Message, bool) {
		g.Ensures("C29.one answer is waited for", !cl.replied)
		g.Ensures("C27.no lock is held while waiting for an answer", g.NLocks() == 0)
		cl.replied = true
		if g.Any[bool]("closed") {
			return nil, false
		}
		cl.reply = g.Any[*serialapi.Message]("answer")
		if cl.reply != nil {
			if d, ok := cl.reply.Data.(*serialapi.DiscoverdNodes); ok {
				g.Assume(d != nil)
				cl.active = d.ActiveNodes
			}
		}
		return cl.reply, true
	})
	return ch, nil
}

func beginController(c *Controller, list map[int]*nodes.Node) {
	g.Requires(c != nil && c.Nodes != nil && c.Connection != nil && c.eventQue != nil && c.triggerFileSave != nil)
	g.Requires(g.ForallKeys(list, func(k int, n *nodes.Node) bool { return n != nil && n.Id == k }))
	cl.c = c
	cl.known = g.MapSnapshot(list)
	cl.list = g.MapSnapshot(list)
	cl.announced = map[int]int{}
	cl.identified = map[int]int{}
	cl.setup = map[int]int{}
	cl.asked, cl.replied, cl.reply, cl.probe = 0, false, nil, true
}

// untouchedNode: nothing has happened to the node with that id, nor is there a new one.
func untouchedNode(id int) bool {
	n, in := cl.list[id]
	m, was := cl.known[id]
	return in == was && n == m && cl.announced[id] == 0 && cl.identified[id] == 0
}

// discovered: what a node list reply says about that node has been done.
func discovered(id int) bool {
	if id < 2 || id > 232 || !cl.active[id-1] {
		return untouchedNode(id)
	}
	n := cl.list[id]
	m, was := cl.known[id]
	return n != nil && n.Id == id && cl.identified[id] == 1 && (was && n == m && cl.announced[id] == 0 || !was && cl.setup[id] == 1 && cl.announced[id] == 1)
}

// loop invariants of discovery: the entries of the reply up to the i-th have been treated, the others not
func discoveredTo(i int) bool {
	return g.ForallVal(func(id int) bool { return id > i+1 || discovered(id) })
}
func undiscoveredFrom(i int) bool {
	return g.ForallVal(func(id int) bool { return id <= i+1 || untouchedNode(id) })
}
func notSetUpFrom(i int) bool {
	return g.ForallVal(func(id int) bool { return id <= i+1 || cl.setup[id] == 0 })
}
func notIdentifiedFrom(i int) bool {
	return g.ForallVal(func(id int) bool { return id <= i+1 || cl.identified[id] == 0 })
}

// (counting the last treated entry)
func inv_discoveredTo(i int) bool      { return discoveredTo(i) }
func inv_undiscoveredFrom(i int) bool  { return undiscoveredFrom(i) }
func inv_notSetUpFrom(i int) bool      { return notSetUpFrom(i) }
func inv_notIdentifiedFrom(i int) bool { return notIdentifiedFrom(i) }

// (counting the first untreated entry)
func inv_discoveredTo1(i int) bool      { return discoveredTo(i - 1) }
func inv_undiscoveredFrom1(i int) bool  { return undiscoveredFrom(i - 1) }
func inv_notSetUpFrom1(i int) bool      { return notSetUpFrom(i - 1) }
func inv_notIdentifiedFrom1(i int) bool { return notIdentifiedFrom(i - 1) }

// (counting the first untreated id)
func inv_discoveredTo2(i int) bool      { return discoveredTo(i - 2) }
func inv_undiscoveredFrom2(i int) bool  { return undiscoveredFrom(i - 2) }
func inv_notSetUpFrom2(i int) bool      { return notSetUpFrom(i - 2) }
func inv_notIdentifiedFrom2(i int) bool { return notIdentifiedFrom(i - 2) }

// loop invariant: every node is listed under its id
func inv_listIds() bool {
	return g.ForallKeys(cl.list, func(k int, n *nodes.Node) bool { return n != nil && n.Id == k })
}

// spec_getNodes: every list of nodes, every answer.
//
//gvc:verify C29
//gvc:safety C29
//gvc:terminates C29
//gvc:locks C27
//gvc:opt unroll=3 nomodel=modelGetNodes
//gvc:nonative
func spec_getNodes(c *Controller, list map[int]*nodes.Node) {
	beginController(c, list)
	g.OnGo(func(run func()) { run() })
	l, err := c.getNodes()
	g.Ensures("C29.the node list is asked for once", cl.asked == 1)
	if cl.reply != nil {
		if _, ok := cl.reply.Data.(*serialapi.DiscoverdNodes); ok {
			g.Cover("C29.node list")
			g.Ensures("C29.exactly the active nodes are added, announced and identified", g.ForallVal(func(id int) bool { return discovered(id) }))
			g.Ensures("C29.the list is returned", err == nil && l == c.Nodes)
			return
		}
		g.Cover("C29.another answer")
	} else {
		g.Cover("C29.no answer")
		g.Ensures("C29.no answer is an error", err != nil)
	}
	g.Ensures("C29.no answer, or another one, changes nothing", g.ForallVal(func(id int) bool { return untouchedNode(id) && cl.setup[id] == 0 }))
}

// spec_pushEvent: every event, whatever room the queue has.
//
//gvc:verify C36
//gvc:safety C36
//gvc:terminates C36
//gvc:locks C27
//gvc:opt nomodel=modelPushEvent
//gvc:nonative
func spec_pushEvent(event interface{}, n, capacity int) {
	c := NewController()
	g.Ensures("C36.a new controller has room for events", c != nil && c.eventQue != nil && cap(c.eventQue) > 0 && c.triggerFileSave != nil && c.Nodes != nil && c.Connection != nil)
	g.Requires(n >= 0 && n <= capacity && capacity > 0)
	g.SetChan(c.eventQue, n, capacity)
	g.SetChan(c.triggerFileSave, 0, 0)
	queued, saves, announcing := 0, 0, true
	_, update := event.(events.NodeUpdated)
	g.OnSend(c.eventQue, func(v interface{}) {
		g.Ensures("C36.an event is queued only when there is room, once", n < capacity && queued == 0)
		g.Ensures("C36.what is queued is the event", g.DeepEqual(v, event))
		g.Ensures("C36.the event is queued at once", announcing)
		queued++
	})
	g.OnSend(c.triggerFileSave, func(struct{}) {
		g.Ensures("C36.only a node update asks for a save", update)
		saves++
	})
	g.OnBlock(func() { g.Ensures("C36.announcing never blocks", !announcing) })
	c.pushEvent(event)
	announcing = false
	if n < capacity {
		g.Cover("C36.room")
		g.Ensures("C36.the event is queued when there is room", queued == 1)
	} else {
		g.Cover("C36.no room")
		g.Ensures("C36.the event is dropped when there is no room", queued == 0)
	}
	g.RunSpawned()
	if update {
		g.Cover("C36.update")
		g.Ensures("C36.a node update asks for a save, once", saves == 1)
	} else {
		g.Ensures("C36.only a node update asks for a save", saves == 0)
	}
}

// sv is the ghost state of the saver.
var sv struct {
	c       *Controller
	pending bool             // a save was asked for and has not been made
	due     bool             // nobody asked for another for ten seconds
	timer   <-chan time.Time // the timer that was started last
	quiet   bool             // it runs for ten seconds and nobody asked since it was started
}

//gvc:model (*github.com/stampzilla/gozwave.Controller).SaveConfigurationToFile
func modelSave(c *Controller) error {
	g.Ensures("C36.a save is made when nobody asked for another for ten seconds", c == sv.c && sv.pending && sv.due && c.filename != "")
	g.Cover("C36.save")
	sv.pending, sv.due = false, false
	return g.Any[error]("save error")
}

// loop invariants: the saver waits without a limit only when nothing is to be saved
func inv_saver() bool        { return sv.c != nil && !sv.due && (!sv.pending || sv.c.filename != "") }
func inv_saverPending() bool { return sv.c != nil && (sv.pending || sv.c.filename == "") }
func inv_saverIdle() bool    { return !sv.pending }
func inv_saverQuiet(ch <-chan time.Time) bool {
	return (ch != nil || !sv.pending) && (ch == nil || ch == sv.timer && sv.quiet && (sv.pending || sv.c.filename == ""))
}
func inv_saverTimer(t *time.Timer) bool {
	return t != nil && t.C != nil && t.C == sv.timer && (sv.quiet || !sv.pending)
}
func inv_saverTimerOn(t *time.Timer) bool {
	return t != nil && t.C != nil && t.C == sv.timer && sv.quiet
}

// spec_saveDebouncer: every sequence of requests.
//
//gvc:verify C36
//gvc:safety C36
//gvc:locks C27
//gvc:opt noreturn nomodel=modelSaver
//gvc:nonative
func spec_saveDebouncer(c *Controller) {
	g.Requires(c != nil && c.triggerFileSave != nil && !g.Closed(c.triggerFileSave))
	sv.c, sv.pending, sv.due, sv.timer, sv.quiet = c, false, false, nil, false
	g.OnRecv(c.triggerFileSave, func() (struct{}, bool) {
		g.Ensures("C36.a save that is due is made before waiting for more requests", !sv.due)
		sv.pending, sv.quiet = c.filename != "", false
		return struct{}{}, true
	})
	g.OnTimer(func(ch <-chan time.Time, d time.Duration) {
		sv.timer, sv.quiet = ch, d == 10*time.Second
	}, func(ch <-chan time.Time, d time.Duration) {
		g.Ensures("C36.a save waits for ten seconds without requests", ch == sv.timer && sv.quiet || !sv.pending)
		sv.due, sv.quiet = sv.pending, false
	})
	g.OnSleep(func(d time.Duration) { g.Ensures("C36.requests are taken while waiting", false) })
	g.OnBlock(func() {
		g.Ensures("C36.a save that was asked for is made within ten seconds of the last request", !sv.pending)
	})
	c.saveDebouncer()
	g.Ensures("C36.saving goes on for ever", false)
}

// spec_GetNextEvent: the queue events are put on is the one they are taken from.
//
//gvc:verify C36
//gvc:safety C36
//gvc:locks C27
//gvc:nonative
func spec_GetNextEvent(c *Controller) {
	g.Requires(c != nil)
	g.Ensures("C36.events are taken from the queue they are put on", c.GetNextEvent() == c.eventQue)
}

//gvc:model (*github.com/stampzilla/gozwave/nodes.Node).ProcessEvent
func modelProcessEvent(n *nodes.Node, r reports.Report) {
	g.Ensures("C26.a report goes to the node that sent it, once", n != nil && cl.processed == 0 && n == cl.list[cl.to] && g.DeepEqual(r, cl.event))
	cl.processed++
}

// spec_DeliverReportToNode: every list of nodes, every report.
//
//gvc:verify C26
//gvc:safety C26
//gvc:locks C27
//gvc:opt nomodel=modelDeliver
//gvc:nonative
func spec_DeliverReportToNode(c *Controller, list map[int]*nodes.Node, node byte, report reports.Report) {
	beginController(c, list)
	cl.processed, cl.to, cl.event = 0, int(node), report
	c.DeliverReportToNode(node, report)
	if list[int(node)] != nil {
		g.Cover("C26.known node")
		g.Ensures("C26.a report goes to the node that sent it, once", cl.processed == 1)
	} else {
		g.Cover("C26.unknown node")
		g.Ensures("C26.the report of an unknown node is dropped", cl.processed == 0)
	}
}
