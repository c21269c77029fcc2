package gozwave

import (
	"io"
	"time"

	g "github.com/stampzilla/gozwave/gvcspec"
)

// wt is the ghost state of the sender: the command accepted last, and what has happened to it.
var wt struct {
	pkg      *sendPackage // nil before the first one
	bytes    []byte       // its frame
	timeout  time.Duration
	written  int
	timers   int
	timerFor *sendPackage
	conn     *Connection
	tracked  bool // it was pending and the current command when the lock was released
	answered bool
	slept    int64
	// what a goroutine started for it has seen; the sender learns of it by waiting
	later        bool
	pendAnswered bool
	pendSlept    int64
}

//gvc:model (*github.com/stampzilla/gozwave.Connection).timeoutWorker
func modelTimeoutWorker(conn *Connection, sp *sendPackage) {
	wt.timers++
	wt.timerFor = sp
}

// sentPort is the serial port the sender writes to.
type sentPort struct{ n int }

func (p *sentPort) Read(b []byte) (int, error) {
	g.Unreachable("C20.the sender does not read")
	return 0, nil
}
func (p *sentPort) Close() error {
	g.Unreachable("C20.the sender does not close the port")
	return nil
}
func (p *sentPort) Write(b []byte) (int, error) {
	g.Cover("C20.written")
	g.Ensures("C20.exactly the frame of the accepted command is written, once", wt.pkg != nil && wt.written == 0 && equalBytes(b, wt.bytes))
	if !wt.tracked {
		g.Ensures("C20.it is pending and the current command before it is written", wt.pkg != nil && g.HeldW(&wt.conn.RWMutex) && tracked())
	}
	g.Cover("C21.sent")
	g.Ensures("C21.a refusal or cancellation finds the command that is being sent", wt.pkg != nil && tracked())
	wt.written++
	return g.Any[int]("written"), g.Any[error]("write error")
}

// settledCommand: everything that has to happen to the command accepted last has happened.
func settledCommand() bool {
	if wt.pkg == nil {
		return true
	}
	if wt.written != 1 || !wt.answered && wt.slept < 1000000000 {
		return false
	}
	if wt.timeout != 0 {
		return wt.timers == 1 && wt.timerFor == wt.pkg
	}
	return wt.timers == 0
}

// tracked: it is pending and the current command.
func tracked() bool {
	p, in := wt.conn.inFlight[wt.pkg.uuid]
	return in && p == wt.pkg && wt.conn.lastCommand == wt.pkg.uuid
}
func inv_settledCommand() bool { return settledCommand() }
func inv_notLater() bool       { return !wt.later }
func inv_noCommand(conn *Connection) bool {
	return conn.lastCommand == ""
}

// longer: time adds up, as far as it matters.
func longer(t, d int64) int64 {
	switch {
	case d <= 0 || t >= 1000000000:
		return t
	case d >= 1000000000:
		return d
	}
	return t + d
}

// gotResult: the sender has waited for something a goroutine signals.
func gotResult() {
	if wt.pendAnswered {
		wt.answered = true
	}
	wt.slept = longer(wt.slept, wt.pendSlept)
	wt.pendAnswered, wt.pendSlept = false, 0
}

func waitFor(can bool) {
	g.Ensures("C20.what the sender waits for happens", wt.later || can)
	if !wt.later {
		gotResult()
	}
}

// spec_Writer: every sequence of queued commands, answers and silences, every table at every moment.
//
//gvc:verify C20 C21 C16 C27
//gvc:safety C20
//gvc:locks C17 C27
//gvc:guard C17 Connection.inFlight Connection.lastCommand by Connection.RWMutex
//gvc:opt noreturn nomodel=modelWriter
//gvc:nonative
func spec_Writer(conn *Connection) {
	g.Requires(conn != nil && conn.inFlight != nil && conn.send != nil && conn.lastResult != nil)
	g.Requires(conn.readWriteCloser == nil)
	conn.readWriteCloser = io.ReadWriteCloser(&sentPort{})
	conn.lastCommand = ""
	wt.pkg, wt.later, wt.pendAnswered, wt.pendSlept = nil, false, false, 0
	wt.timers, wt.written, wt.tracked = 0, 0, false
	wt.conn = conn
	g.OnSleep(func(d time.Duration) {
		g.Ensures("C27.no lock is held while waiting", g.NLocks() == 0)
		if wt.later {
			wt.pendSlept = longer(wt.pendSlept, int64(d))
		} else {
			wt.slept = longer(wt.slept, int64(d))
		}
	})
	g.OnGo(func(run func()) {
		before := wt.later
		wt.later = true
		run()
		wt.later = before
	})
	g.OnRecv(conn.lastResult, func() (byte, bool) {
		g.Ensures("C20.the answer to a command is waited for once", wt.pkg != nil && !wt.answered && !wt.pendAnswered)
		if wt.later {
			wt.pendAnswered = true
		} else {
			wt.answered = true
		}
		return g.Any[byte]("result"), true
	})
	g.OnRecvAny(func(ch chan struct{}) (struct{}, bool) {
		waitFor(g.Closed(ch) || g.ChanLen(ch) > 0)
		return struct{}{}, !g.Closed(ch)
	})
	g.OnRecvAny(func(ch chan bool) (bool, bool) {
		waitFor(g.Closed(ch) || g.ChanLen(ch) > 0)
		return g.Any[bool]("b"), !g.Closed(ch)
	})
	g.OnRecv(conn.send, func() (*sendPackage, bool) {
		g.Cover("C20.accept")
		g.Ensures("C27.no lock is held while waiting for a command", g.NLocks() == 0)
		g.Ensures("C20.a command is accepted only after the one before was sent, given its timeout, and answered or silent for a second", settledCommand())
		g.Ensures("C21.no command is the current one when none is being sent", conn.lastCommand == "")
		p := g.Any[*sendPackage]("command")
		g.Assume(p != nil && p.uuid != "")
		wt.pkg, wt.bytes, wt.timeout = p, g.Snapshot(p.message), p.timeout
		wt.written, wt.timers, wt.timerFor, wt.tracked = 0, 0, nil, false
		wt.answered, wt.slept, wt.pendAnswered, wt.pendSlept = false, 0, false, 0
		return p, true
	})
	shareTable(conn, func() {}, func() {
		// ids are unique: the only request with this id is this one (queued again)
		if wt.pkg != nil {
			g.Assume(packageOK(wt.pkg))
			g.Assume(g.ForallKeys(conn.inFlight, func(k string, c *sendPackage) bool { return k != wt.pkg.uuid || c == wt.pkg }))
		}
	}, func() {
		if wt.pkg == nil {
			g.Ensures("C21.sending changes no other pending request", othersUntouched(conn, ""))
			return
		}
		g.Ensures("C21.sending changes no other pending request", othersUntouched(conn, wt.pkg.uuid))
		if wt.tracked || conn.lastCommand != wt.pkg.uuid {
			_, was := tab.before[wt.pkg.uuid]
			_, in := conn.inFlight[wt.pkg.uuid]
			g.Ensures("C21.sending changes no other pending request", in == was && (!in || untouched(conn, wt.pkg.uuid)))
			return
		}
		g.Cover("C20.tracked")
		g.Ensures("C20.the current command is pending", tracked())
		wt.tracked = true
	})
	conn.Writer()
}
