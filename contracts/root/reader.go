package gozwave

import (
	"time"

	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/serialapi"

	g "github.com/stampzilla/gozwave/gvcspec"
)

const (
	nothing = iota // noise, or an incomplete frame
	control        // ACK, NAK or CAN
	frame          // a complete frame
)

// rd is the ghost state of the receiver.
var rd struct {
	clock     int64
	stream    []byte // everything that will ever be received
	got, used int    // received so far; consumed (or discarded) so far
	tried     bool   // the decoder called stream[used:got] incomplete
	due       int    // complete frames that are not acknowledged yet

	// the last thing decoded, and what was done about it
	kind       int
	ctl        byte
	frame      []byte
	msg        *serialapi.Message
	handled    bool // the table was treated
	current    bool // a command was being sent
	results    int  // how often the writer was told
	resend     *sendPackage
	resent     int
	resentWhat *sendPackage
	slept      bool
	delivered  map[string]bool
	reports    int
}

// the clock only moves while waiting
//
//gvc:model time.Now
func modelNow() time.Time { return g.Time(rd.clock) }

//gvc:model time.Since
func modelSince(t time.Time) time.Duration { return time.Duration(rd.clock - g.TimeNs(t)) }

// anyPort is a serial port on which the bytes of rd.stream arrive in pieces of any size at any time.
type anyPort struct{ n int }

func (p *anyPort) Read(b []byte) (int, error) {
	g.Ensures("C27.no lock is held while waiting for data", g.NLocks() == 0)
	expectSettled()
	g.Ensures("C19.every complete frame is acknowledged before waiting for more data", rd.due == 0)
	g.Ensures("C18.everything that can be decoded has been decoded", rd.used == rd.got || rd.tried)
	g.HavocSlice(b)
	wait := g.Any[int64]("wait")
	g.Assume(wait >= 0 && wait < 1<<40 && rd.clock < 1<<60)
	rd.clock += wait
	n := g.Any[int]("n")
	g.Assume(n >= 0 && n <= len(b))
	if err := g.Any[error]("err"); err != nil {
		return n, err
	}
	if wait > 40000000 {
		rd.used = rd.got
	}
	g.Assume(n <= len(rd.stream)-rd.got)
	copy(b, rd.stream[rd.got:rd.got+n])
	rd.got += n
	if n > 0 {
		rd.tried = false
	}
	return n, nil
}

func (p *anyPort) Write(b []byte) (int, error) {
	g.Ensures("C19.only single ACK bytes are written", len(b) == 1 && b[0] == 0x06)
	g.Ensures("C19.an ACK is written for a complete frame only, and once", rd.due > 0)
	rd.due--
	return g.Any[int]("written"), g.Any[error]("write error")
}

func (p *anyPort) Close() error { return g.Any[error]("close error") }

//gvc:model github.com/stampzilla/gozwave/serialapi.Decode
func modelDecode(data []byte) (int, *serialapi.Message, error) {
	expectSettled()
	g.Ensures("C18.the decoder is given exactly the received bytes that are not consumed", sameStream(data))
	l, m, err := serialapi.Decode(data)
	rd.kind, rd.handled, rd.current, rd.results, rd.resent, rd.resend, rd.reports, rd.slept = nothing, false, false, 0, 0, nil, 0, false
	rd.delivered = map[string]bool{}
	rd.msg = m
	switch {
	case l == -1:
		g.Cover("C18.noise")
		rd.used++
	case l > len(data):
		g.Cover("C18.incomplete frame")
		rd.tried = true
	case l == 1:
		g.Cover("C21.control byte")
		rd.kind, rd.ctl = control, data[0]
		rd.used++
	default:
		g.Cover("C19.complete frame")
		rd.kind = frame
		rd.frame = g.Snapshot(data)[:l]
		rd.used += l
		rd.due++
	}
	return l, m, err
}

func sameStream(b []byte) bool {
	return 0 <= rd.used && rd.used <= rd.got && rd.got <= len(rd.stream) && len(b) == rd.got-rd.used && g.Forall(0, len(b), func(i int) bool { return b[i] == rd.stream[rd.used+i] })
}

// settled: whatever was decoded last has had its effect.
func tableSettled() bool  { return rd.kind == nothing || rd.handled }
func resultSettled() bool { return rd.kind != control || !rd.current || rd.results == 1 || rd.slept }
func resendSettled() bool {
	return rd.resend == nil && rd.resent == 0 || rd.resent == 1 && rd.resentWhat == rd.resend
}
func reportSettled() bool {
	if rd.kind == frame && rd.msg != nil {
		if _, ok := rd.msg.Data.(*serialapi.FuncApplicationCommandHandler); ok {
			return rd.reports == 1
		}
	}
	return rd.reports == 0
}
func inv_tableSettled() bool  { return tableSettled() }
func inv_resultSettled() bool { return resultSettled() }
func inv_resendSettled() bool { return resendSettled() }
func inv_reportSettled() bool { return reportSettled() }
func inv_noneDue() bool       { return rd.due == 0 }
func inv_tried() bool         { return rd.used == rd.got || rd.tried }

func expectSettled() {
	g.Ensures("C15,C21.requests that a frame matches, or the command a NAK is for, are removed", tableSettled())
	g.Ensures("C20.the writer is told ACK, NAK and CAN", resultSettled())
	g.Ensures("C21.exactly the command being sent is queued again, once, on CAN", resendSettled())
	g.Ensures("C26.a received report is handed on exactly once", reportSettled())
}

// treated: the table is as the last thing decoded demands.
func treated(conn *Connection) bool {
	return g.ForallKeys(tab.before, func(k string, c *sendPackage) bool {
		if goes(k, c) {
			_, in := conn.inFlight[k]
			return !in && released(k)
		}
		return untouched(conn, k)
	})
}

// goes: request k is done with.
func goes(k string, c *sendPackage) bool {
	return rd.kind == control && rd.ctl == 0x15 && k == tab.cur || rd.kind == frame && wants(c, rd.frame)
}

func nothingAdded(conn *Connection) bool {
	return g.ForallKeys(conn.inFlight, func(k string, c *sendPackage) bool { return inBefore(k) })
}

// spec_Reader: every stream of bytes, cut into pieces in every way, with every table of pending requests at every moment.
//
//gvc:verify C15 C16 C18 C19 C20 C21 C26 C27
//gvc:safety C16 C18
//gvc:locks C17 C27
//gvc:terminates C18
//gvc:guard C17 Connection.inFlight Connection.lastCommand by Connection.RWMutex
//gvc:uses spec_Decode_sizes (*gozwave.sendPackage).Match
//gvc:opt split=modelDecode nomodel=modelReader
//gvc:nonative
func spec_Reader(conn *Connection) {
	g.Requires(conn != nil && conn.inFlight != nil && conn.send != nil && conn.lastResult != nil && conn.reportCallback != nil)
	g.Requires(conn.readWriteCloser == nil)
	conn.readWriteCloser = &anyPort{}
	rd.stream = g.Any[[]byte]("stream")
	rd.clock = g.Any[int64]("clock")
	g.Assume(rd.clock >= 0 && rd.clock < 1<<60)
	rd.got, rd.used, rd.due, rd.kind, rd.resent, rd.resend, rd.reports, rd.tried = 0, 0, 0, nothing, 0, nil, 0, true
	rd.msg = nil
	g.OnSleep(func(d time.Duration) {
		g.Ensures("C27.a lock is held for a bounded time only", d <= time.Second || g.NLocks() == 0)
		if d > 0 {
			rd.clock += int64(d)
		}
		rd.slept = true
	})
	g.OnGo(func(run func()) {
		at, s := rd.clock, rd.slept
		run()
		rd.clock, rd.slept = at, s
	})
	g.SetFunc(conn.reportCallback, func(node byte, r reports.Report) {
		f, ok := rd.msg.Data.(*serialapi.FuncApplicationCommandHandler)
		g.Ensures("C26.the report handed on is the one received, with its sender's id", rd.kind == frame && rd.msg != nil && ok && node == rd.msg.NodeID && g.DeepEqual(r, f.Report))
		rd.reports++
	})
	g.OnSend(conn.lastResult, func(b byte) {
		g.Ensures("C20.the writer is told what was received, once", rd.kind == control && b == rd.ctl && rd.results == 0)
		g.Ensures("C20.the writer is told only if a command is being sent", rd.current)
		rd.results++
	})
	g.OnSend(conn.send, func(p *sendPackage) {
		g.Ensures("C27.no lock is held while a command is queued", g.NLocks() == 0)
		rd.resent++
		rd.resentWhat = p
	})
	g.OnSendAny(func(ch chan *serialapi.Message, m *serialapi.Message) {
		k := tab.owner[ch]
		c, in := tab.before[k]
		g.Ensures("C16.no answer is sent on a closed channel", !g.Closed(ch))
		g.Ensures("C15.an answer goes to a pending request it matches", tab.locked && in && ch == tab.chans[k] && rd.kind == frame && wants(c, rd.frame))
		g.Ensures("C15.the answer is the message that was received", m == rd.msg)
		g.Ensures("C15.a request is answered once", !rd.delivered[k])
		rd.delivered[k] = true
	})
	shareTable(conn, func() { g.Havoc(&conn.lastCommand) }, func() {
		_, rd.current = tab.before[tab.cur]
		if rd.kind == control && rd.ctl == 0x18 && rd.current && rd.resend == nil {
			rd.resend = tab.before[tab.cur]
		}
	}, func() {
		g.Ensures("C21.the current command is only changed by the writer", conn.lastCommand == tab.cur)
		done := treated(conn)
		g.Ensures("C15,C21.no other request than those done with is touched", nothingAdded(conn) && (done || othersUntouched(conn, "")))
		g.Ensures("C15.every request a frame matches gets the answer", rd.kind != frame || !done || rd.slept || g.ForallKeys(tab.before, func(k string, c *sendPackage) bool {
			return !wants(c, rd.frame) || tab.chans[k] == nil || rd.delivered[k]
		}))
		if done {
			rd.handled = true
		}
	})
	err := conn.Reader()
	g.Cover("C18.port failed")
	g.Ensures("C18.receiving ends only when the port fails", err != nil)
	g.Ensures("C27.no lock is held at the end", g.NLocks() == 0)
}

// ---- loop invariants

// the buffer is what was received and not consumed
func inv_buffer(buf []byte) bool { return sameStream(buf) }

func inv_ownBuffer(buf []byte) bool { return !g.SameBacking(buf, rd.stream) }

// the time noted is the current one
func inv_now(t time.Time) bool { return g.TimeNs(t) == rd.clock }

// iterating over the pending requests
func inv_treatedSoFar(conn *Connection) bool {
	return g.ForallKeys(tab.before, func(k string, c *sendPackage) bool {
		if goes(k, c) && g.Visited(conn.inFlight, k) {
			_, in := conn.inFlight[k]
			return !in && released(k)
		}
		return untouched(conn, k)
	})
}
func inv_nothingAdded(conn *Connection) bool { return nothingAdded(conn) }
func inv_nobodyAnswered(conn *Connection) bool {
	return g.ForallKeys(tab.before, func(k string, c *sendPackage) bool { return g.Visited(conn.inFlight, k) || !rd.delivered[k] })
}
func inv_answered(conn *Connection) bool {
	return rd.slept || g.ForallKeys(tab.before, func(k string, c *sendPackage) bool {
		return !g.Visited(conn.inFlight, k) || !wants(c, rd.frame) || tab.chans[k] == nil || rd.delivered[k]
	})
}
func inv_result(conn *Connection) bool {
	if rd.current && g.Visited(conn.inFlight, tab.cur) {
		return rd.results == 1 || rd.slept
	}
	return rd.results == 0 && !rd.slept
}
func inv_resend(conn *Connection) bool {
	if rd.resend != nil && g.Visited(conn.inFlight, tab.cur) {
		return rd.resent == 1 && rd.resentWhat == rd.resend
	}
	return rd.resent == 0
}
