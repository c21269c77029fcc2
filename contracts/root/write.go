package gozwave

import (
	"time"

	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/serialapi"

	g "github.com/stampzilla/gozwave/gvcspec"
)

// wr is the ghost state of one request.
var wr struct {
	data     []byte // what the message encodes to
	compiled []byte // what was compiled
	frame    []byte // and its compiled form
	sent     int
	pkg      *sendPackage
	ch       chan *serialapi.Message // where the request is answered
	got      bool                    // an application command came
	report   reports.Report          // its report
	passed   bool                    // the report was passed on
}

// anyMessage encodes to arbitrary bytes.
type anyMessage struct{ n int }

func (m *anyMessage) Encode() []byte {
	wr.data = g.Any[[]byte]("encoded")
	g.Assume(len(wr.data) <= 253)
	return wr.data
}

// modelCompile stands for the function C04 is about: it leaves the payload alone and yields some frame.
//
//gvc:model github.com/stampzilla/gozwave/serialapi.CompileMessage
func modelCompile(data []byte) []byte {
	wr.compiled = g.Snapshot(data)
	wr.frame = g.Any[[]byte]("frame")
	return wr.frame
}

func equalBytes(a, b []byte) bool {
	return len(a) == len(b) && g.Forall(0, len(a), func(i int) bool { return a[i] == b[i] })
}

// criterion is the i-th byte of the message, or 'any' when it has none.
func criterion(b []byte, i int) byte {
	if i < len(b) {
		return b[i]
	}
	return 0
}

// expectRequest states what is put on the send queue.
func expectRequest(conn *Connection, waits bool, t time.Duration, report byte) {
	g.Requires(conn != nil && conn.send != nil && !g.Closed(conn.send))
	wr.sent, wr.got, wr.passed = 0, false, false
	wr.pkg = nil
	g.OnSend(conn.send, func(p *sendPackage) {
		g.Ensures("C23.exactly one command is queued", wr.sent == 0)
		wr.sent++
		g.Ensures("C23.a command is queued", p != nil && g.IsFresh(p))
		g.Ensures("C23.its frame is the compiled form of the message", equalBytes(wr.compiled, wr.data) && equalBytes(p.message, wr.frame))
		g.Ensures("C23.function and node come from the message", p.function == criterion(wr.data, 0) && p.node == criterion(wr.data, 1))
		g.Ensures("C23.the command class comes from the message", p.commandclass == criterion(wr.data, 3) || len(wr.data) <= 4 && p.commandclass == 0)
		g.Ensures("C23.expected report and time limit come from the call", p.expectedReport == report && p.timeout == t)
		g.Ensures("C23.it has an open channel exactly when the caller waits", (p.returnChan != nil) == waits && (p.returnChan == nil || g.IsFresh(p.returnChan) && !g.Closed(p.returnChan)))
		g.Ensures("C27.no lock is held while the command is queued", g.NLocks() == 0)
		wr.pkg, wr.ch = p, p.returnChan
		// from now on it may be answered, or released
		g.Publish(p)
		g.Havoc(&p.returnChan)
		if wr.ch != nil {
			g.SetClosed(wr.ch, g.Any[bool]("released"))
		}
	})
}

// loop invariant of the goroutine that waits for the report
func inv_noReportYet() bool { return !wr.got && !wr.passed }

// spec_Write: every message.
//
//gvc:verify C23
//gvc:safety C23
//gvc:locks C27
//gvc:guard C23 sendPackage.returnChan by sendPackage.RWMutex
//gvc:nonative
func spec_Write(conn *Connection) {
	expectRequest(conn, false, 0, 0)
	err := conn.Write(&anyMessage{})
	g.Ensures("C23.exactly one command is queued", err != nil || wr.sent == 1)
	g.Ensures("C23.writing succeeds", err == nil)
}

// spec_WriteWithTimeout: every message and time limit.
//
//gvc:verify C23
//gvc:safety C23
//gvc:locks C27
//gvc:guard C23 sendPackage.returnChan by sendPackage.RWMutex
//gvc:opt nomodel=modelWriteWithTimeout
//gvc:nonative
func spec_WriteWithTimeout(conn *Connection, t time.Duration) {
	expectRequest(conn, true, t, 0)
	ch, err := conn.WriteWithTimeout(&anyMessage{}, t)
	g.Ensures("C23.writing succeeds", err == nil && wr.sent == 1)
	g.Ensures("C23.the channel returned is the one the command is answered on", ch == (<-chan *serialapi.Message)(wr.ch))
}

// spec_WriteAndWaitForReport: every message, time limit, expected report and sequence of answers.
//
//gvc:verify C23
//gvc:safety C23
//gvc:locks C27
//gvc:guard C23 sendPackage.returnChan by sendPackage.RWMutex
//gvc:nonative
func spec_WriteAndWaitForReport(conn *Connection, t time.Duration, report byte) {
	expectRequest(conn, true, t, report)
	g.OnRecvAny(func(ch chan *serialapi.Message) (*serialapi.Message, bool) {
		g.Ensures("C23.the answers are taken from the channel the command is answered on", ch == wr.ch)
		m, ok := g.Any[*serialapi.Message]("answer"), g.Any[bool]("open")
		if !ok {
			return nil, false
		}
		if m != nil {
			g.Cover("C23.answer")
			if f, is := m.Data.(*serialapi.FuncApplicationCommandHandler); is {
				g.Assume(f != nil)
				if !wr.got {
					wr.got, wr.report = true, f.Report
				}
			}
		}
		return m, true
	})
	ch, err := conn.WriteAndWaitForReport(&anyMessage{}, t, report)
	g.Ensures("C23.writing succeeds", err == nil && wr.sent == 1)
	g.OnSendAny(func(c chan reports.Report, r reports.Report) {
		g.Ensures("C23.the report goes to the caller's channel, which is still open", (<-chan reports.Report)(c) == ch && !g.Closed(c))
		g.Ensures("C23.the caller's channel has room for the report", cap(c) > 0)
		g.Ensures("C23.only the report of the first application command is passed on", wr.got && !wr.passed && g.DeepEqual(r, wr.report))
		wr.passed = true
	})
	g.RunSpawned()
	if wr.got {
		g.Cover("C23.report")
	}
	g.Ensures("C23.the report is passed on", wr.passed == wr.got)
	g.Ensures("C23.the caller's channel is closed in the end", g.ClosedRecv(ch))
	g.Ensures("C27.no lock is held at the end", g.NLocks() == 0)
}

// spec_Close: closing a request's channel while others look at it or close it.
//
//gvc:verify C16
//gvc:safety C16
//gvc:locks C16
//gvc:guard C16 sendPackage.returnChan by sendPackage.RWMutex
//gvc:nonative
func spec_Close(sp *sendPackage) {
	g.Requires(sp != nil)
	g.Publish(sp)
	var at chan *serialapi.Message
	n := 0
	g.OnLock(&sp.RWMutex, func() {
		g.HavocClosed()
		g.Havoc(&sp.returnChan)
		g.Assume(sp.returnChan == nil || !g.Closed(sp.returnChan))
		at = sp.returnChan
		n++
	})
	g.OnUnlock(&sp.RWMutex, func() {
		g.Ensures("C16.a request whose channel is closed does not keep it", sp.returnChan == nil || sp.returnChan == at && !g.Closed(sp.returnChan))
		g.Ensures("C16.a channel that is given up is closed", sp.returnChan == at || g.Closed(at))
	})
	sp.Close()
	g.Ensures("C16.after closing there is no channel left", n > 0 && sp.returnChan == nil)
	open := sp.IsOpen()
	g.Ensures("C16.a request is open exactly while it has a channel", open == (at != nil))
}
