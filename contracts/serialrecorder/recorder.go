package serialrecorder

import (
	"encoding/gob"
	"io"

	"github.com/tarm/serial"

	g "github.com/stampzilla/gozwave/gvcspec"
)

// rc is the ghost state of the recorder.
var rc struct {
	sr       *serialRecorder
	data     []byte // what the port transferred
	buf      []byte // the caller's buffer, as the port got it
	n        int
	err      error
	calls    int
	records  int
	reading  bool
	spawning bool
	writing  bool
	closed   int

	// the log
	row       *Row
	rowData   []byte
	rowDir    Direction
	received  int
	encoded   int
	encoders  int
	ended     bool
	loggers   int
	opened    *serial.Port
	openErr   error
	openTries int
}

// anyPort is a port that does what an io.ReadWriteCloser may do.
type anyPort struct{ n int }

func (p *anyPort) Read(b []byte) (int, error) {
	g.Ensures("C33.every read is one read of the port", rc.reading && rc.calls == 0)
	rc.calls++
	g.HavocSlice(b)
	rc.n = g.Any[int]("n")
	g.Assume(0 <= rc.n && rc.n <= len(b))
	rc.data = g.Snapshot(b[:rc.n])
	rc.err = g.Any[error]("error")
	return rc.n, rc.err
}

func (p *anyPort) Write(b []byte) (int, error) {
	g.Ensures("C33.every write is one write to the port, of the caller's bytes", rc.writing && rc.calls == 0 && len(b) == len(rc.data) &&
		g.Forall(0, len(b), func(i int) bool { return b[i] == rc.data[i] }))
	rc.calls++
	rc.n = g.Any[int]("n")
	g.Assume(0 <= rc.n && rc.n <= len(b))
	rc.err = g.Any[error]("error")
	return rc.n, rc.err
}

func (p *anyPort) Close() error {
	rc.closed++
	rc.err = g.Any[error]("error")
	return rc.err
}

func begin(port string, baud int, p []byte) *serialRecorder {
	sr := New(port, baud)
	g.Ensures("C33.a new recorder is for its port", sr.port == port && sr.baud == baud && sr.Logger != nil && sr.writeBuffer != nil)
	sr.serial = &anyPort{}
	waiting := g.Any[int]("waiting")
	g.Assume(0 <= waiting && waiting <= cap(sr.writeBuffer))
	g.SetChan(sr.writeBuffer, waiting, cap(sr.writeBuffer))
	rc.sr, rc.buf, rc.calls, rc.records, rc.reading, rc.writing, rc.spawning, rc.n, rc.err, rc.closed = sr, p, 0, 0, false, false, false, 0, nil, 0
	g.OnGo(func(run func()) {
		g.HavocSlice(p) // the caller uses the buffer for something else by the time it runs
		rc.spawning = true
		run()
		rc.spawning = false
	})
	g.OnBlock(func() { g.Ensures("C33.recording never delays the port", rc.spawning) })
	g.OnSendAny(func(ch chan *Row, r *Row) {
		g.Cover("C33.recorded")
		g.Ensures("C33.the record goes to the log", ch == sr.writeBuffer)
		g.Ensures("C33.what is recorded has been transferred", rc.calls == 1 && rc.records == 0)
		rc.records++
		g.Ensures("C33.the record says whether it was read or written", r != nil && r.Direction.IsWrite() == rc.writing && r.Direction.IsRead() == rc.reading)
		g.Ensures("C33.the record holds exactly the bytes that were transferred", len(r.Data) == rc.n &&
			g.Forall(0, rc.n, func(i int) bool { return r.Data[i] == rc.data[i] }))
		g.Ensures("C33.the record is a private copy", rc.n == 0 || !g.SameBacking(r.Data, p))
	})
	return sr
}

// spec_Read: every buffer and everything a port may do with it.
//
//gvc:verify C33
//gvc:safety C33
//gvc:nonative
func spec_Read(port string, baud int, p []byte) {
	sr := begin(port, baud, p)
	g.Publish(sr)
	rc.reading = true
	var after []byte
	g.OnGo(func(run func()) {
		after = g.Snapshot(p)
		g.HavocSlice(p)
		rc.spawning = true
		run()
		rc.spawning = false
		copy(p, after)
	})
	n, err := sr.Read(p)
	g.Ensures("C33.the port is read", rc.calls == 1)
	g.Ensures("C33.the caller gets the count and error of the port", n == rc.n && err == rc.err)
	g.Ensures("C33.the caller gets the bytes of the port", g.Forall(0, rc.n, func(i int) bool { return p[i] == rc.data[i] }))
	g.Ensures("C33.what was transferred is recorded once", rc.records == 1 || rc.n == 0)
}

// spec_Write: every buffer and everything a port may do with it.
//
//gvc:verify C33
//gvc:safety C33
//gvc:nonative
func spec_Write(port string, baud int, p []byte) {
	sr := begin(port, baud, p)
	g.Publish(sr)
	rc.writing = true
	rc.data = g.Snapshot(p)
	var touched bool
	g.OnGo(func(run func()) {
		touched = !g.Forall(0, len(p), func(i int) bool { return p[i] == rc.data[i] })
		g.HavocSlice(p)
		rc.spawning = true
		run()
		rc.spawning = false
		copy(p, rc.data)
	})
	n, err := sr.Write(p)
	g.Ensures("C33.the port is written", rc.calls == 1)
	g.Ensures("C33.the caller gets the count and error of the port", n == rc.n && err == rc.err)
	g.Ensures("C33.the caller's bytes are left alone", !touched && g.Forall(0, len(p), func(i int) bool { return p[i] == rc.data[i] }))
	g.Ensures("C33.what was transferred is recorded once", rc.records == 1 || rc.n == 0)
}

// spec_Close closes the port.
//
//gvc:verify C33
//gvc:safety C33
//gvc:nonative
func spec_Close(port string, baud int) {
	sr := begin(port, baud, nil)
	err := sr.Close()
	g.Ensures("C33.closing closes the port, and returns its error", rc.closed == 1 && err == rc.err && rc.calls == 0 && rc.records == 0)
}

//gvc:model encoding/gob.NewEncoder
func modelNewEncoder(w io.Writer) *gob.Encoder {
	g.Ensures("C33.the log goes to the logger, as one stream", w == rc.sr.Logger && rc.encoders == 0)
	rc.encoders++
	return new(gob.Encoder)
}

//gvc:model (*encoding/gob.Encoder).Encode
func modelEncode(e *gob.Encoder, v any) error {
	g.Cover("C33.encoded")
	r, ok := v.(*Row)
	if !ok {
		w, ok := v.(Row)
		g.Ensures("C33.rows are encoded", ok)
		r = &w
	}
	g.Ensures("C33.every record is logged once, in order", rc.encoded == rc.received-1 && r != nil)
	g.Ensures("C33.the record is logged as it is", r.Direction == rc.rowDir && r.Timestamp == rc.row.Timestamp && len(r.Data) == len(rc.rowData) &&
		g.Forall(0, len(rc.rowData), func(i int) bool { return r.Data[i] == rc.rowData[i] }))
	rc.encoded++
	return g.Any[error]("encoding error")
}

// spec_logWriter: every sequence of records, also when some cannot be written.
//
//gvc:verify C33
//gvc:safety C33
//gvc:opt nomodel=modelLogWriter
//gvc:nonative
func spec_logWriter(port string, baud int) {
	sr := New(port, baud)
	rc.sr, rc.encoders, rc.encoded, rc.received = sr, 0, 0, 0
	g.Publish(sr)
	g.OnRecvAny(func(ch chan *Row) (*Row, bool) {
		g.Ensures("C33.what was recorded is logged", ch == sr.writeBuffer && rc.encoded == rc.received)
		rc.ended = g.Any[bool]("closed")
		if rc.ended {
			return nil, false
		}
		rc.row = &Row{Timestamp: g.Time(g.Any[int64]("time")), Direction: g.Any[Direction]("direction"), Data: g.Any[[]byte]("data")}
		rc.rowData = g.Snapshot(rc.row.Data)
		rc.rowDir = rc.row.Direction
		g.Assume(rc.received < 1<<40)
		rc.received++
		return rc.row, true
	})
	sr.logWriter()
	g.Ensures("C33.every record is logged", rc.encoded == rc.received && rc.encoders == 1)
	g.Ensures("C33.records are logged as long as there are any", rc.ended)
}

// loop invariant of the log writer
func inv_logged() bool {
	return rc.sr != nil && rc.encoders == 1 && rc.encoded == rc.received && 0 <= rc.received && rc.received <= 1<<40
}

//gvc:model (*github.com/stampzilla/gozwave/serialrecorder.serialRecorder).logWriter
func modelLogWriter(sr *serialRecorder) {
	g.Ensures("C33.there is one log writer, however often the port is opened", sr == rc.sr && rc.loggers == 0)
	rc.loggers++
}

//gvc:model github.com/tarm/serial.OpenPort
func modelOpenPort(c *serial.Config) (*serial.Port, error) {
	g.Cover("C33.opened")
	g.Ensures("C33.the port is opened once", rc.openTries == 0)
	g.Ensures("C33.the port that is opened is the named one", c != nil && c.Name == rc.sr.port)
	g.Ensures("C33.the port is opened at its speed", c.Baud == rc.sr.baud)
	g.Ensures("C33.the port is opened for blocking reads", c.ReadTimeout == 0)
	rc.openTries++
	rc.openErr = g.Any[error]("open error")
	rc.opened = nil
	if rc.openErr == nil {
		rc.opened = new(serial.Port)
	}
	return rc.opened, rc.openErr
}

// spec_Open: every sequence of openings.
//
//gvc:verify C33
//gvc:safety C33
//gvc:nonative
func spec_Open(port string, baud int, n int) {
	sr := New(port, baud)
	rc.sr, rc.loggers = sr, 0
	g.OnGo(func(run func()) { run() })
	lemmaReopen(sr, port, baud, n)
	g.Ensures("C33.there is a log writer once the port was opened", n <= 0 || rc.loggers == 1)
}

// lemmaReopen opens the port over and over.
func lemmaReopen(sr *serialRecorder, port string, baud int, n int) {
	for i := 0; i < n; i++ {
		rc.openTries = 0
		rwc, err := sr.Open()
		g.Ensures("C33.opening fails exactly when the port fails", err == rc.openErr && rc.openTries == 1)
		if err == nil {
			got, ok := rwc.(*serialRecorder)
			g.Ensures("C33.what is opened is the recorder of the port", ok && got == sr && sr.serial == rc.opened && rc.opened != nil)
		}
		g.Ensures("C33.records are logged once the port is open", rc.loggers == 1)
	}
}

// loop invariant: there is at most one log writer
func inv_lemmaReopen(sr *serialRecorder, i int, n int) bool {
	return i >= 0 && sr == rc.sr && (rc.loggers == 0 && i == 0 && !g.OnceDone(sr) || rc.loggers == 1 && g.OnceDone(sr))
}

func inv_lemmaReopenPort(sr *serialRecorder, port string, baud int) bool {
	return sr.port == port && sr.baud == baud
}
