package nodes

//gvc:replay C26 C27 C28 C35

import (
	"errors"
	"strings"
	"time"

	"github.com/stampzilla/gozwave/commands"
	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/database"
	"github.com/stampzilla/gozwave/events"
	"github.com/stampzilla/gozwave/interfaces"
	"github.com/stampzilla/gozwave/serialapi"
)

var zzScenarios = []zzScenario{
	{name: "a node that gets reports", props: "C26 C27", run: zzReplayReports},
	{name: "nodes that are added to a list", props: "C28 C27", run: zzReplayList},
	{name: "a node that is identified", props: "C35 C27", run: zzReplayIdentify},
}

func zzFree(z *zzRun, n *Node, when string) {
	ok := n.TryLock()
	z.Check("C27", ok, "the node's lock is still held after %s", when)
	if ok {
		n.Unlock()
	}
}

func zzReplayReports(z *zzRun) {
	n := New(1 + z.Intn(232))
	updates := 0
	n.pushEventFunc = func(e interface{}) {
		u, ok := e.(events.NodeUpdated)
		z.Check("C26", ok && u.Address == n.Id, "node %d announced %#v", n.Id, e)
		updates++
	}
	bools, floats := map[string]bool{}, map[string]float64{}
	check := func(when string, announced int) {
		z.Check("C26", updates == announced, "after %s there were %d announcements instead of %d", when, updates, announced)
		updates = 0
		same := len(bools) == len(n.StateBool) && len(floats) == len(n.StateFloat)
		for k, v := range bools {
			w, in := n.StateBool[k]
			same = same && in && v == w
		}
		for k, v := range floats {
			w, in := n.StateFloat[k]
			same = same && in && v == w
		}
		z.Check("C26", same, "after %s the state is %v %v instead of %v %v", when, n.StateBool, n.StateFloat, bools, floats)
	}
	for i := 1 + z.Intn(8); i > 0; i-- {
		switch z.Intn(8) {
		case 0:
			v := z.Intn(2) == 0
			z.Note("a switch is %v", v)
			bools["on"] = v
			n.ProcessEvent(&reports.SwitchBinaryV1{CurrentValue: v})
			check("a switch report", 1)
		case 1:
			v := z.Intn(2) == 0
			z.Note("a switch is %v", v)
			bools["on"] = v
			n.ProcessEvent(&reports.SwitchBinaryV2{CurrentValue: v, TargetValue: z.Intn(2) == 0})
			check("a switch report", 1)
		case 2, 3:
			v := []float64{0, 1, 50, 99, 255}[z.Intn(5)]
			z.Note("a dimmer is at %v", v)
			bools["on"], floats["level"] = v > 0, v
			if z.Intn(2) == 0 {
				n.ProcessEvent(&reports.SwitchMultilevelV1{CurrentValue: v})
			} else {
				n.ProcessEvent(&reports.SwitchMultilevelV4{CurrentValue: v, TargetValue: float64(z.Intn(256))})
			}
			check("a dimmer report", 1)
		case 4:
			r := &reports.SensorMultiLevel{TypeString: []string{"Temperature", "Power", ""}[z.Intn(3)], Unit: []string{"C", "W", ""}[z.Intn(3)], Value: float64(z.Intn(1000)) / 10}
			z.Note("%s is %v %s", r.TypeString, r.Value, r.Unit)
			floats[strings.ToLower(r.TypeString+"_"+r.Unit)] = r.Value
			n.ProcessEvent(r)
			check("a sensor report", 1)
		case 5:
			r := &reports.Alarm{Status: []byte{0xff, 0, 1}[z.Intn(3)], Type: byte(z.Intn(3))}
			z.Note("alarm %#v", r)
			if r.Status != 0xff {
				n.ProcessEvent(r)
				check("an inactive alarm", 0)
				break
			}
			done := make(chan struct{})
			go func() { n.ProcessEvent(r); close(done) }()
			time.Sleep(500 * time.Millisecond)
			zzFree(z, n, "an alarm is set")
			bools["alarm"] = true
			if r.Type != 0 {
				floats["alarm"], floats["alarmLastType"] = float64(r.Type), float64(r.Type)
			}
			check("an alarm", 1)
			time.Sleep(600 * time.Millisecond)
			bools["alarm"], floats["alarm"] = false, 0
			check("an alarm that is over", 1)
			select {
			case <-done:
			default:
				z.Check("C26", false, "an alarm never ends")
			}
		case 6:
			n.IsAwake = z.Intn(4) == 0
			a, b := n.isAwake(), n.isAwake()
			open := true
			for _, c := range []chan struct{}{a, b} {
				select {
				case <-c:
					open = false
				default:
				}
			}
			z.Check("C26", open == !n.IsAwake, "awake is %v and waiting is %v", n.IsAwake, open)
			zzFree(z, n, "waiting")
			n.ProcessEvent(&reports.WakeUp{})
			for _, c := range []chan struct{}{a, b} {
				select {
				case <-c:
				default:
					z.Check("C26", false, "a wake-up does not release whoever waits")
				}
			}
			check("a wake-up", 0)
		case 7:
			n.ProcessEvent([]reports.Report{&reports.ManufacturerSpecific{}, &reports.MultiChannelEndpoints{Endpoints: 2}, &reports.WakeUp{}}[z.Intn(3)])
			check("another report", 0)
		}
		zzFree(z, n, "a report")
	}
}

func zzReplayList(z *zzRun) {
	l := NewList()
	model := map[int]*Node{}
	same := func(all map[int]*Node, model map[int]*Node) bool {
		ok := len(all) == len(model)
		for k, v := range model {
			ok = ok && all[k] == v
		}
		return ok
	}
	var snapshot, then map[int]*Node
	for i := 1 + z.Intn(12); i > 0; i-- {
		id := z.Intn(5)
		switch z.Intn(4) {
		case 0, 1:
			n := New(id)
			if z.Intn(8) == 0 {
				n = &Node{Id: id}
			}
			for j := z.Intn(4); j > 0; j-- {
				e := &Endpoint{Id: j}
				if z.Intn(5) == 0 {
					e = nil
				} else if z.Intn(4) == 0 {
					e.node = New(77)
				}
				n.Endpoints = append(n.Endpoints, e)
			}
			z.Note("node %d with %d endpoints is added", id, len(n.Endpoints))
			l.Add(n)
			model[id] = n
			for j, e := range n.Endpoints {
				z.Check("C28", e == nil || e.node == n, "endpoint %d of %d does not refer to its node", j, len(n.Endpoints))
			}
			zzFree(z, n, "adding it")
		case 2:
			z.Check("C28", l.Get(id) == model[id], "looking up %d gives another node", id)
		case 3:
			all := l.All()
			z.Check("C28", same(all, model), "a snapshot has %d nodes, the list %d, or they differ", len(all), len(model))
			if z.Intn(3) == 0 {
				delete(all, id)
				break
			}
			snapshot, then = all, map[int]*Node{}
			for k, v := range model {
				then[k] = v
			}
		}
		for id := -1; id < 7; id++ {
			z.Check("C28", l.Get(id) == model[id], "looking up %d gives another node", id)
		}
		z.Check("C28", same(snapshot, then), "a snapshot has changed")
		ok := l.TryLock()
		z.Check("C27", ok, "the list's lock is still held")
		if ok {
			l.Unlock()
		}
	}
}

type zzRequest struct {
	at   time.Time
	kind byte
	ok   bool
}

// zzAsked answers a node's requests.
type zzAsked struct {
	z        *zzRun
	n        *Node
	info     *serialapi.FuncGetNodeProtocolInfo
	maker    *reports.ManufacturerSpecific
	ends     int
	bad      int // failures still to come
	woken    bool
	requests []zzRequest
	last     time.Time // when the node's data last became known
}

func (w *zzAsked) asks(b []byte, function bool) (kind byte, good bool) {
	w.n.Lock() // hangs when it is held
	w.n.Unlock()
	if function {
		w.z.Check("C35", len(b) == 2 && b[0] == 0x41 && b[1] == byte(w.n.Id), "the request is % x", b)
		kind = 0x41
	} else {
		w.z.Check("C35", len(b) >= 5 && b[0] == 0x13 && b[1] == byte(w.n.Id), "the request is % x", b)
		kind = b[3]
		w.z.Check("C35", w.n.IsAwake || w.woken, "a sleeping node is asked")
		if kind == 0x60 || kind == 0x25 || kind == 0x26 || kind == 0x31 {
			w.complete()
		}
	}
	if k := len(w.requests); k > 0 {
		p := w.requests[k-1]
		w.z.Check("C35", p.ok || time.Now().After(p.at), "a failed request (%x) is followed by another (%x) without a pause", p.kind, kind)
	}
	good = true
	if w.bad > 0 && w.z.Intn(2) == 0 {
		w.bad--
		good = false
	}
	w.z.Note("request % x answered %v", b, good)
	w.requests = append(w.requests, zzRequest{time.Now(), kind, good})
	return kind, good
}

// complete checks the node's command classes.
func (w *zzAsked) complete() {
	if w.n.protocolInfo == nil || w.n.ManufacurerSpecific == nil {
		w.z.Check("C35", false, "the node's kind and ids are not known yet")
		return
	}
	want := append([]*database.CommandClass(nil), database.GetMandatoryCommandClasses(w.info.Generic, w.info.Specific)...)
	if d := database.New(w.maker.Manufacturer, w.maker.Type, w.maker.ID); d != nil {
		want = append(want, d.CommandClasses...)
	}
	same := len(want) == len(w.n.CommandClasses)
	for i := range want {
		same = same && *want[i] == *w.n.CommandClasses[i]
	}
	w.z.Check("C35", same, "the command classes are %d instead of %d, or others", len(w.n.CommandClasses), len(want))
}

func (w *zzAsked) Write(m interfaces.Encodable) error {
	w.asks(m.Encode(), false)
	w.requests[len(w.requests)-1].ok = true
	return nil
}
func (w *zzAsked) WriteWithTimeout(m interfaces.Encodable, d time.Duration) (<-chan *serialapi.Message, error) {
	_, good := w.asks(m.Encode(), true)
	c := make(chan *serialapi.Message, 1)
	if !good {
		switch w.z.Intn(3) {
		case 0:
			return nil, errors.New("no connection")
		case 1:
			c <- &serialapi.Message{}
		}
		close(c)
		return c, nil
	}
	w.last = time.Now()
	c <- &serialapi.Message{Data: w.info}
	close(c)
	return c, nil
}
func (w *zzAsked) WriteAndWaitForReport(m interfaces.Encodable, d time.Duration, report byte) (<-chan reports.Report, error) {
	kind, good := w.asks(m.Encode(), false)
	c := make(chan reports.Report, 1)
	if kind == 0x31 {
		if !good {
			return nil, errors.New("no connection")
		}
		if w.z.Intn(2) == 0 {
			c <- &reports.WakeUp{}
		}
		close(c)
		return c, nil
	}
	if !good {
		switch w.z.Intn(3) {
		case 0:
			return nil, errors.New("no connection")
		case 1:
			c <- &reports.WakeUp{}
		}
		close(c)
		return c, nil
	}
	w.last = time.Now()
	switch kind {
	case 0x72:
		c <- w.maker
	case 0x60:
		c <- &reports.MultiChannelEndpoints{Endpoints: w.ends}
	}
	close(c)
	return c, nil
}

func zzReplayIdentify(z *zzRun) {
	n := New(1 + z.Intn(232))
	kinds := [][2]byte{{0x10, 0x01}, {0x11, 0x01}, {0x20, 0x01}, {0x21, 0x01}, {0x04, 0x01}, {0xee, 0xee}}
	k := kinds[z.Intn(len(kinds))]
	info := &serialapi.FuncGetNodeProtocolInfo{Generic: k[0], Specific: k[1], Listening: z.Intn(2) == 0}
	makers := [][3]string{{"0060", "0004", "0001"}, {"010f", "0800", "1001"}, {"0086", "0002", "0005"}, {"ffff", "ffff", "ffff"}}
	id := makers[z.Intn(len(makers))]
	w := &zzAsked{z: z, n: n, info: info, maker: &reports.ManufacturerSpecific{Manufacturer: id[0], Type: id[1], ID: id[2]}, ends: z.Intn(3), bad: z.Intn(5)}
	if z.Intn(4) == 0 {
		n.ManufacurerSpecific = w.maker
	}
	defined := append([]*database.CommandClass(nil), database.GetMandatoryCommandClasses(k[0], k[1])...)
	var told time.Time
	n.Setup(w, func(e interface{}) {
		u, ok := e.(events.NodeUpdated)
		z.Check("C35", ok && u.Address == n.Id, "node %d announced %#v", n.Id, e)
		told = time.Now()
	})
	done := make(chan any)
	go func() {
		defer func() { done <- recover() }()
		n.Identify()
	}()
	wake := time.NewTicker(37 * time.Second)
	defer wake.Stop()
	late := time.After(24 * time.Hour)
	for {
		select {
		case e := <-done:
			if e != nil {
				panic(e)
			}
			zzFree(z, n, "identification")
			z.Check("C35", n.identified && n.statesOk && n.protocolInfo == info && n.ManufacurerSpecific == w.maker && n.Endpoints != nil, "identification ends too early")
			w.complete()
			last := map[byte]bool{}
			for _, r := range w.requests {
				last[r.kind] = r.ok
			}
			for k, ok := range last {
				z.Check("C35", ok, "request %x is not repeated", k)
			}
			for _, c := range n.CommandClasses {
				if c.ID == commands.SwitchBinary || c.ID == commands.SwitchMultilevel || c.ID == commands.SensorMultiLevel {
					z.Check("C35", last[byte(c.ID)], "the state %x is not requested", byte(c.ID))
				}
			}
			z.Check("C35", !told.Before(w.last), "what became known is not announced")
			now := database.GetMandatoryCommandClasses(k[0], k[1])
			same := len(now) == len(defined)
			for i := range defined {
				same = same && now[i] == defined[i]
			}
			z.Check("C35", same, "the definitions have changed")
			return
		case <-wake.C:
			w.woken = true
			n.ProcessEvent(&reports.WakeUp{})
		case <-late:
			z.Check("C35", false, "identification never ends")
			return
		}
	}
}
