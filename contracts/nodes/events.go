package nodes

import (
	"strings"
	"time"

	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/events"

	g "github.com/stampzilla/gozwave/gvcspec"
)

// pe is the ghost state around one report.
var pe struct {
	event   reports.Report
	bools   map[string]bool // the state when the lock was taken
	floats  map[string]float64
	awake   chan struct{}
	applied bool // the report's change has been made
	cleared bool // the alarm was cleared
	slept   bool
	events  int // announced
}

// change is what a report does to a node's state.
type change struct {
	on        bool // bool key is set to on
	key       string
	floats    bool // numbers fkey and fkey2 are set to value
	fkey      string
	value     float64
	fkey2     string
	announced bool
}

func wanted(event reports.Report) change {
	switch r := event.(type) {
	case *reports.Alarm:
		if r.Status == 0xff {
			if r.Type != 0 {
				return change{key: "alarm", on: true, floats: true, fkey: "alarm", fkey2: "alarmLastType", value: float64(r.Type), announced: true}
			}
			return change{key: "alarm", on: true, announced: true}
		}
	case *reports.SwitchBinaryV1:
		return change{key: "on", on: r.CurrentValue, announced: true}
	case *reports.SwitchBinaryV2:
		return change{key: "on", on: r.CurrentValue, announced: true}
	case *reports.SwitchMultilevelV1:
		return change{key: "on", on: r.CurrentValue > 0, floats: true, fkey: "level", fkey2: "level", value: float64(r.CurrentValue), announced: true}
	case *reports.SwitchMultilevelV4:
		return change{key: "on", on: r.CurrentValue > 0, floats: true, fkey: "level", fkey2: "level", value: float64(r.CurrentValue), announced: true}
	case *reports.SensorMultiLevel:
		k := strings.ToLower(r.TypeString + "_" + r.Unit)
		return change{floats: true, fkey: k, fkey2: k, value: r.Value, announced: true}
	}
	return change{}
}

// alarming: the report is an active alarm.
func alarming(event reports.Report) bool {
	a, ok := event.(*reports.Alarm)
	return ok && a.Status == 0xff
}

// became: the state is the one before with change c.
func became(n *Node, c change, bools, floats bool) bool {
	return (!bools || n.StateBool[c.key] == c.on && hasBool(n.StateBool, c.key)) &&
		(!floats || g.SameFloat(n.StateFloat[c.fkey], c.value) && hasFloat(n.StateFloat, c.fkey) && g.SameFloat(n.StateFloat[c.fkey2], c.value) && hasFloat(n.StateFloat, c.fkey2)) &&
		g.ForallKeys(n.StateBool, func(k string, v bool) bool { o, in := pe.bools[k]; return bools && k == c.key || in && o == v }) &&
		g.ForallKeys(pe.bools, func(k string, v bool) bool { return bools && k == c.key || hasBool(n.StateBool, k) }) &&
		g.ForallKeys(n.StateFloat, func(k string, v float64) bool {
			o, in := pe.floats[k]
			return floats && (k == c.fkey || k == c.fkey2) || in && g.SameFloat(o, v)
		}) &&
		g.ForallKeys(pe.floats, func(k string, v float64) bool {
			return floats && (k == c.fkey || k == c.fkey2) || hasFloat(n.StateFloat, k)
		})
}
func hasBool(m map[string]bool, k string) bool     { _, in := m[k]; return in }
func hasFloat(m map[string]float64, k string) bool { _, in := m[k]; return in }

// sharedNode: reports and commands of other goroutines may change a node's state whenever its lock is free.
func sharedNode(n *Node, unlock func()) {
	g.Publish(n)
	g.OnLock(&n.RWMutex, func() {
		g.HavocMap(n.StateBool)
		g.HavocMap(n.StateFloat)
		g.HavocClosed()
		g.Havoc(&n.awake)
		g.Assume(n.awake == nil || !g.Closed(n.awake))
		pe.bools, pe.floats, pe.awake = g.MapSnapshot(n.StateBool), g.MapSnapshot(n.StateFloat), n.awake
	})
	g.OnUnlock(&n.RWMutex, func() {
		g.Ensures("C26.a node that waits to be woken up has an open channel for that", n.awake == nil || !g.Closed(n.awake))
		unlock()
	})
}

// spec_ProcessEvent: every node, every report, every state.
//
//gvc:verify C26
//gvc:safety C26
//gvc:locks C26 C27
//gvc:guard C26 Node.StateBool Node.StateFloat Node.awake by Node.RWMutex
//gvc:nonative
func spec_ProcessEvent(n *Node, event reports.Report) {
	g.Requires(n != nil && n.StateBool != nil && n.StateFloat != nil && n.pushEventFunc != nil)
	id := n.Id
	switch r := event.(type) {
	case *reports.Alarm:
		g.Assume(r != nil)
	case *reports.WakeUp:
		g.Assume(r != nil)
	case *reports.SwitchBinaryV1:
		g.Assume(r != nil)
	case *reports.SwitchBinaryV2:
		g.Assume(r != nil)
	case *reports.SwitchMultilevelV1:
		g.Assume(r != nil)
	case *reports.SwitchMultilevelV4:
		g.Assume(r != nil)
	case *reports.SensorMultiLevel:
		g.Assume(r != nil)
	}
	pe.event = event
	pe.applied, pe.cleared, pe.slept, pe.events = false, false, false, 0
	want := wanted(event)
	alarm := alarming(event)
	_, wake := event.(*reports.WakeUp)
	woken := false
	g.SetFunc(n.pushEventFunc, func(e interface{}) {
		u, ok := e.(events.NodeUpdated)
		g.Ensures("C26.what is announced is an update of this node", ok && u.Address == id)
		g.Ensures("C26.a change is announced when it can be seen", g.Held(&n.RWMutex) || pe.applied && !pe.slept || pe.cleared)
		pe.events++
	})
	g.OnSleep(func(d time.Duration) {
		g.Ensures("C26.only an alarm is waited for, for a second", alarm && !pe.slept && d == time.Second)
		g.Ensures("C26.the alarm is set and announced at once", pe.applied && pe.events == 1)
		g.Ensures("C27.no lock is held while waiting", g.NLocks() == 0)
		pe.slept = true
	})
	sharedNode(n, func() {
		same := became(n, change{}, false, false)
		if !pe.slept {
			if want.announced {
				if became(n, want, want.key != "", want.floats) {
					pe.applied = true
				} else {
					g.Ensures("C26.exactly the matching state changes", same)
				}
			} else {
				g.Ensures("C26.other reports change no state", same)
			}
		} else if became(n, change{key: "alarm", fkey: "alarm", fkey2: "alarm"}, true, true) {
			pe.cleared = true
		} else {
			g.Ensures("C26.exactly the alarm is cleared", same)
		}
		if wake {
			g.Ensures("C26.a wake-up releases whoever waits", n.awake == nil && (pe.awake == nil || g.Closed(pe.awake)) || n.awake == pe.awake && woken)
			woken = true
		} else {
			g.Ensures("C26.only a wake-up wakes up", n.awake == pe.awake)
		}
	})
	n.ProcessEvent(event)
	if want.announced {
		g.Cover("C26.change")
		g.Ensures("C26.the state matches the report", pe.applied)
	} else {
		g.Cover("C26.no change")
	}
	if alarm {
		g.Cover("C26.alarm")
		g.Ensures("C26.an alarm is cleared a second later", pe.slept && pe.cleared)
		g.Ensures("C26.each change is announced once", pe.events == 2)
	} else if want.announced {
		g.Ensures("C26.each change is announced once", pe.events == 1)
	} else {
		g.Ensures("C26.nothing is announced when nothing changes", pe.events == 0)
	}
	g.Ensures("C26.a wake-up releases whoever waits", !wake || woken)
	g.Ensures("C26.the node keeps its id and its maps", n.Id == id)
}

// spec_isAwake: every node.
//
//gvc:verify C26
//gvc:safety C26
//gvc:locks C26 C27
//gvc:guard C26 Node.awake by Node.RWMutex
//gvc:nonative
func spec_isAwake(n *Node) {
	g.Requires(n != nil)
	awake := n.IsAwake
	var at chan struct{}
	sharedNode(n, func() {
		g.Ensures("C26.waiting changes no state", became(n, change{}, false, false))
		g.Ensures("C26.somebody who waits already is not forgotten", pe.awake == nil || n.awake == pe.awake)
		at = n.awake
	})
	ch := n.isAwake()
	if awake {
		g.Cover("C26.awake")
		g.Ensures("C26.there is nothing to wait for when the node is awake", ch != nil && g.Closed(ch))
	} else {
		g.Cover("C26.asleep")
		g.Ensures("C26.the channel waited on is the one a wake-up closes", ch != nil && ch == at)
	}
}
