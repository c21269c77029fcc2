package gozwave

import (
	"github.com/stampzilla/gozwave/serialapi"

	g "github.com/stampzilla/gozwave/gvcspec"
)

// tab is the ghost state around one holding of the connection's lock.
var tab struct {
	owner  map[chan *serialapi.Message]string // whose answers a channel is for
	before map[string]*sendPackage            // the table when the lock was taken
	chans  map[string]chan *serialapi.Message // the channels of its requests at that time
	cur    string                             // the command being sent
	locked bool
}

// tableOK: every pending request is listed under its own id, and its channel is its own and open.
func tableOK(conn *Connection) bool {
	return conn.inFlight != nil && g.ForallKeys(conn.inFlight, func(k string, c *sendPackage) bool {
		return c != nil && c.uuid == k && packageOK(c)
	})
}

func packageOK(c *sendPackage) bool {
	return c.returnChan == nil || !g.Closed(c.returnChan) && tab.owner[c.returnChan] == c.uuid
}

// shareTable makes the pending table visible to other goroutines: what it holds when the lock is
// taken is arbitrary (but in order), and it has to be in order when the lock is released.
func shareTable(conn *Connection, interfere func(), locked, unlock func()) {
	g.Publish(conn)
	tab.owner = g.Any[map[chan *serialapi.Message]string]("owner")
	tab.locked = false
	g.OnLock(&conn.RWMutex, func() {
		g.HavocClosed()
		g.HavocMap(conn.inFlight)
		some := g.Any[*sendPackage]("some")
		g.Assume(some != nil)
		g.HavocEvery(&some.returnChan)
		interfere()
		g.Assume(tableOK(conn))
		tab.before = g.MapSnapshot(conn.inFlight)
		tab.chans = g.Any[map[string]chan *serialapi.Message]("chans")
		g.Assume(g.ForallKeys(tab.before, func(k string, c *sendPackage) bool { return tab.chans[k] == c.returnChan }))
		tab.cur = conn.lastCommand
		tab.locked = true
		locked()
	})
	g.OnUnlock(&conn.RWMutex, func() {
		g.Ensures("C16.a request that stays pending is listed under its id, with its own open channel or none", tableOK(conn))
		g.Ensures("C16.a request that left the table has its channel closed", g.ForallKeys(tab.before, func(k string, c *sendPackage) bool {
			_, in := conn.inFlight[k]
			return in || released(k)
		}))
		unlock()
		tab.locked = false
		g.HavocClosed()
	})
}

// released: whoever waited for request k has been told.
func released(k string) bool {
	return tab.chans[k] == nil || g.Closed(tab.chans[k])
}

// untouched: request k is pending exactly as it was.
func untouched(conn *Connection, k string) bool {
	c, in := conn.inFlight[k]
	return in && c == tab.before[k] && c.returnChan == tab.chans[k] && (c.returnChan == nil || !g.Closed(c.returnChan))
}

// othersUntouched: apart from request except, the table is as it was.
func othersUntouched(conn *Connection, except string) bool {
	return g.ForallKeys(tab.before, func(k string, c *sendPackage) bool { return k == except || untouched(conn, k) }) &&
		g.ForallKeys(conn.inFlight, func(k string, c *sendPackage) bool { _, was := tab.before[k]; return was || k == except })
}
