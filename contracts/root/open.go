package gozwave

import (
	"time"

	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/nodes"
	"github.com/tarm/serial"

	g "github.com/stampzilla/gozwave/gvcspec"
)

// op is the ghost state of opening a controller.
var op struct {
	po       PortOpener
	filename string
	loads    int
	started  int // goroutines started before the connection's result is known
	received bool
	result   error
	asked    int // discoveries
	savers   int
	tries    int
	slept    bool
	ch       chan error
	c        *Controller
	conn     *Connection
	report   reports.Report
	node     byte
	reported int
}

//gvc:model (*github.com/stampzilla/gozwave.Controller).LoadConfigurationFromFile
func modelLoad(c *Controller) error {
	g.Ensures("C37.the configuration is loaded before the connection is used, for a controller that is set up", op.loads == 0 && op.started == 0 && !op.received &&
		c != nil && c.filename == op.filename && c.filename != "" && c.Connection != nil && c.Connection.portOpener == op.po)
	op.loads++
	return g.Any[error]("load error")
}

//gvc:model (*github.com/stampzilla/gozwave.Controller).getNodes
func modelGetNodes(c *Controller) (*nodes.List, error) {
	g.Ensures("C37.discovery starts once, when the connection is open", op.received && op.result == nil && op.asked == 0)
	op.asked++
	op.c = c
	return c.Nodes, g.Any[error]("discovery error")
}

//gvc:model (*github.com/stampzilla/gozwave.Controller).saveDebouncer
func modelSaver(c *Controller) {
	g.Ensures("C37.there is one saver", op.savers == 0 && op.received && op.result == nil)
	op.savers++
	op.c = c
}

//gvc:model (*github.com/stampzilla/gozwave.Controller).DeliverReportToNode
func modelDeliver(c *Controller, node byte, report reports.Report) {
	g.Ensures("C26.a report goes to this controller's node", c == op.c && node == op.node && g.DeepEqual(report, op.report))
	op.reported++
}

//gvc:model (*github.com/stampzilla/gozwave.Connection).Connect
func modelConnect(conn *Connection, ch chan error) error {
	g.Ensures("C37.the connection of the controller is opened with its opener", conn != nil && conn.portOpener == op.po && (op.tries == 0 || conn == op.conn))
	g.Ensures("C37.the result of every attempt goes to the same channel", ch != nil && (op.tries == 0 || ch == op.ch))
	g.Ensures("C37.the connection is opened again after a second, not at once", op.tries == 0 || op.slept)
	g.Ensures("C27.no lock is held while connected", g.NLocks() == 0)
	op.tries, op.slept = 1, false
	op.conn, op.ch = conn, ch
	return g.Any[error]("connection error")
}

func beginOpen(po PortOpener, filename string, connecting bool) {
	op.po, op.filename = po, filename
	op.loads, op.started, op.received, op.asked, op.savers, op.tries, op.slept, op.c, op.reported = 0, 0, false, 0, 0, 0, false, nil, 0
	g.OnGo(func(run func()) {
		if !op.received {
			op.started++
			g.Ensures("C37.one goroutine keeps the connection open", op.started == 1)
			if connecting {
				run()
				g.Ensures("C37.the connection is kept open for ever", false)
			}
			return
		}
		run()
	})
	g.OnRecvAny(func(ch chan error) (error, bool) {
		g.Ensures("C37.the connection is being opened when its result is waited for", op.started == 1 && !op.received)
		op.received = true
		op.ch = ch
		op.result = g.Any[error]("result")
		return op.result, true
	})
	g.OnSleep(func(d time.Duration) {
		g.Ensures("C37.the connection is opened again a second after it ended", d == time.Second && op.tries > 0 && !op.slept)
		op.slept = true
	})
}

// spec_ConnectWithCustomPortOpener: every opener, file and result.
//
//gvc:verify C37
//gvc:safety C37
//gvc:locks C27
//gvc:opt nomodel=modelConnectWithOpener
//gvc:nonative
func spec_ConnectWithCustomPortOpener(filename string, port string, has bool, node byte, report reports.Report) {
	var po PortOpener
	if has {
		po = &opener{}
	}
	beginOpen(po, filename, false)
	c, err := ConnectWithCustomPortOpener(port, filename, po)
	if !has {
		g.Ensures("C37.without an opener nothing is started", err != nil && c == nil && op.started == 0 && op.loads == 0)
		return
	}
	g.Ensures("C37.the configuration is loaded when there is one", op.loads == 1 == (filename != ""))
	g.Ensures("C37.the results of later attempts can be reported", op.ch != nil && !g.Closed(op.ch))
	g.Ensures("C37.opening fails exactly when the connection fails", op.received && err == op.result)
	if err != nil {
		g.Cover("C37.failed")
		g.Ensures("C37.there is no controller without a connection", c == nil && op.asked == 0 && op.savers == 0)
		return
	}
	g.Cover("C37.opened")
	g.Ensures("C37.a controller that is connected is returned", c != nil && c.filename == filename && c.Connection != nil && c.Connection.portOpener == po && c.Nodes != nil)
	g.Ensures("C37.discovery and saving are started, for this controller", op.asked == 1 && op.savers == 1 && op.c == c)
	op.node, op.report = node, report
	c.Connection.reportCallback(node, report)
	g.Ensures("C26.a report is delivered to this controller, once", op.reported == 1)
}

// loop invariant: an attempt has been made and a second passed
func inv_reconnect() bool { return op.tries == 0 || op.slept }
func inv_reconnectSame(c *Controller, connected chan error) bool {
	return c != nil && c.Connection != nil && connected != nil && c.Connection.portOpener == op.po && (op.tries == 0 || op.conn == c.Connection && op.ch == connected)
}

// spec_reconnect: every sequence of attempts.
//
//gvc:verify C37
//gvc:safety C37
//gvc:locks C27
//gvc:opt noreturn nomodel=modelConnectWithOpener
//gvc:nonative
func spec_reconnect(filename string, port string) {
	po := &opener{}
	beginOpen(po, filename, true)
	ConnectWithCustomPortOpener(port, filename, po)
}

//gvc:model github.com/tarm/serial.OpenPort
func modelOpenPort(c *serial.Config) (*serial.Port, error) {
	g.Ensures("C37.the named port is opened, at 115200 baud", c != nil && c.Name == op.filename && c.Baud == 115200)
	op.tries++
	err := g.Any[error]("port error")
	if err != nil {
		return nil, err
	}
	return &serial.Port{}, nil
}

//gvc:model github.com/stampzilla/gozwave.ConnectWithCustomPortOpener
func modelConnectWithOpener(port string, filename string, po PortOpener) (*Controller, error) {
	g.Ensures("C37.the configuration file is the named one", filename == op.filename+".json")
	op.po = po
	op.loads++
	return nil, g.Any[error]("error")
}

// spec_ConnectSerial: every port name.
//
//gvc:verify C37
//gvc:safety C37
//gvc:nonative
func spec_ConnectSerial(port string) {
	op.tries, op.loads, op.filename = 0, 0, port
	Connect(port, port+".json")
	g.Ensures("C37.a controller is opened", op.loads == 1 && op.po != nil)
	_, err := op.po.Open()
	g.Ensures("C37.the port is opened once per attempt", op.tries == 1)
	if err == nil {
		g.Cover("C37.port")
	}
}
