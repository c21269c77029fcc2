package gozwave

import (
	"time"

	g "github.com/stampzilla/gozwave/gvcspec"
)

var tw struct {
	slept bool
	gone  bool // not pending when the lock was last released
}

// spec_timeoutWorker: every pending request, every table at the moment its time is up.
//
//gvc:verify C16 C22
//gvc:safety C16 C22
//gvc:locks C17 C22 C27
//gvc:terminates C22
//gvc:guard C17 Connection.inFlight Connection.lastCommand by Connection.RWMutex
//gvc:opt nomodel
//gvc:nonative
func spec_timeoutWorker(conn *Connection, sp *sendPackage) {
	g.Requires(conn != nil && sp != nil)
	g.Requires(conn.inFlight != nil)
	id, d := sp.uuid, sp.timeout
	tw.slept, tw.gone = false, false
	g.OnSleep(func(t time.Duration) {
		g.Ensures("C22.it waits once, for the time of its request", t == d && !tw.slept)
		g.Ensures("C27.no lock is held while waiting", g.NLocks() == 0)
		tw.slept = true
	})
	shareTable(conn, func() { g.Havoc(&conn.lastCommand) }, func() {
		g.Ensures("C22.nothing happens before the time is up", tw.slept)
		// requests with this id are this request
		g.Assume(g.ForallKeys(conn.inFlight, func(k string, c *sendPackage) bool { return k != id || c == sp }))
	}, func() {
		_, was := tab.before[id]
		_, is := conn.inFlight[id]
		if was {
			g.Cover("C22.still pending")
		} else {
			g.Cover("C22.no longer pending")
		}
		g.Ensures("C22.whoever waits for the removed request is released", is && untouched(conn, id) || !is && (!was || released(id)))
		g.Ensures("C22.every other request stays untouched", othersUntouched(conn, id))
		g.Ensures("C21.the current command is not changed by a timeout", conn.lastCommand == tab.cur)
		tw.gone = !is
	})
	conn.timeoutWorker(sp)
	g.Ensures("C22.the request is no longer pending when its time is up", tw.slept && tw.gone)
	g.Ensures("C27.no lock is held at the end", g.NLocks() == 0)
}

// loop invariant: only the request itself has been removed so far
func inv_timeout(conn *Connection, sp *sendPackage) bool {
	if !g.ForallKeys(tab.before, func(k string, c *sendPackage) bool { return k == sp.uuid || untouched(conn, k) }) {
		return false
	}
	if !g.ForallKeys(conn.inFlight, func(k string, c *sendPackage) bool { return tab.before[k] == c && inBefore(k) }) {
		return false
	}
	_, is := conn.inFlight[sp.uuid]
	if is {
		return untouched(conn, sp.uuid) && !g.Visited(conn.inFlight, sp.uuid)
	}
	return !inBefore(sp.uuid) || released(sp.uuid)
}

func inBefore(k string) bool { _, was := tab.before[k]; return was }
