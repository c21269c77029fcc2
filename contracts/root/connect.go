package gozwave

import (
	"io"

	g "github.com/stampzilla/gozwave/gvcspec"
)

// co is the ghost state of the connection's opening.
var co struct {
	writers int // senders started
	readers int // in this attempt
	port    io.ReadWriteCloser
	opened  bool
	err     error
	readErr error
	conn    *Connection
}

// openedPort is what the opener returns.
type openedPort struct{ n int }

func (p *openedPort) Read(b []byte) (int, error)  { return 0, nil }
func (p *openedPort) Write(b []byte) (int, error) { return 0, nil }
func (p *openedPort) Close() error                { return nil }

type opener struct{ n int }

func (o *opener) Open() (io.ReadWriteCloser, error) {
	g.Ensures("C27.no lock is held while the port is opened", g.NLocks() == 0)
	co.err = g.Any[error]("open error")
	if co.err != nil {
		return nil, co.err
	}
	co.opened = true
	p := &openedPort{}
	co.port = p
	return p, nil
}

//gvc:model (*github.com/stampzilla/gozwave.Connection).Writer
func modelWriter(conn *Connection) {
	g.Ensures("C20.there is a single sender", co.writers == 0 && conn == co.conn)
	co.writers++
}

//gvc:model (*github.com/stampzilla/gozwave.Connection).Reader
func modelReader(conn *Connection) error {
	g.Cover("C20.receive")
	g.Ensures("C20.what is received comes from the port that was opened", conn == co.conn && co.opened && co.readers == 0 && conn.readWriteCloser == co.port)
	g.Ensures("C27.no lock is held while receiving", g.NLocks() == 0)
	co.readers++
	co.readErr = g.Any[error]("read error")
	return co.readErr
}

// spec_Connect: every sequence of connection attempts, whatever they lead to.
//
//gvc:verify C20
//gvc:safety C20
//gvc:locks C27
//gvc:guard C20 Connection.readWriteCloser by Connection.RWMutex
//gvc:opt nomodel=modelConnect
//gvc:nonative
func spec_Connect(ch chan error, n int) {
	g.Requires(ch != nil && !g.Closed(ch))
	conn := NewConnection()
	conn.portOpener = &opener{}
	co.conn, co.writers = conn, 0
	g.Ensures("C20.a new connection is ready for use", conn.inFlight != nil && len(conn.inFlight) == 0 && conn.send != nil && conn.lastResult != nil && conn.reportCallback != nil && conn.lastCommand == "")
	g.Publish(conn)
	g.OnGo(func(run func()) { run() })
	lemmaReconnect(conn, ch, n)
	g.Ensures("C20.there is a single sender", co.writers <= 1)
}

// lemmaReconnect: one attempt after the other.
func lemmaReconnect(conn *Connection, ch chan error, n int) {
	for i := 0; i < n; i++ {
		co.opened, co.readers = false, 0
		err := conn.Connect(ch)
		if co.err != nil {
			g.Cover("C20.not opened")
			g.Ensures("C20.a port that cannot be opened is an error", err == co.err && co.readers == 0)
		} else {
			g.Ensures("C20.an opened port is received from until it fails, and sent to", err == co.readErr && co.readers == 1 && co.writers == 1)
		}
	}
}

// loop invariant: there is at most one sender
func inv_lemmaReconnect(i int) bool {
	return co.conn != nil && (co.writers == 0 && !g.OnceDone(co.conn) || co.writers == 1 && g.OnceDone(co.conn))
}
