package gozwave

//gvc:replay C15 C16 C18 C19 C20 C21 C22 C23 C26 C27 C29 C32 C36 C37

import (
	"errors"
	"io"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"time"

	"github.com/stampzilla/gozwave/commands"
	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/events"
	"github.com/stampzilla/gozwave/interfaces"
	"github.com/stampzilla/gozwave/nodes"
	"github.com/stampzilla/gozwave/serialapi"
)

var zzScenarios = []zzScenario{
	{name: "a stream of frames, noise and single bytes in arbitrary pieces", props: "C18 C19 C26", run: zzReplayStream},
	{name: "commands that are acknowledged, refused, cancelled, answered or not", props: "C15 C16 C20 C21 C22 C23 C27", run: zzReplayCommands},
	{name: "requests that time out next to each other", props: "C15 C16 C22 C23", run: zzReplayTimeouts},
	{name: "updates that are pushed now and then", props: "C36", run: zzReplaySaver},
	{name: "events that are read or not", props: "C36 C27", run: zzReplayEvents},
	{name: "a node list reply", props: "C29 C37", run: zzReplayDiscovery},
	{name: "a connection that comes and goes", props: "C20 C37 C36", run: zzReplayReconnect},
	{name: "a configuration file that is saved and loaded", props: "C32", run: zzReplayFile},
	{name: "the node of an arbitrary file is updated", props: "C26 C27 C32", run: zzReplayLoad},
}

// zzPort is a serial port in memory.
type zzPort struct {
	in      chan []byte
	written chan []byte
	once    sync.Once
	done    chan struct{}
	onWrite func(b []byte)
}

func zzNewPort() *zzPort {
	return &zzPort{in: make(chan []byte, 1000), written: make(chan []byte, 1000), done: make(chan struct{})}
}
func (p *zzPort) Open() (io.ReadWriteCloser, error) { return p, nil }
func (p *zzPort) Close() error                      { p.once.Do(func() { close(p.done) }); return nil }
func (p *zzPort) Read(b []byte) (int, error) {
	select {
	case d := <-p.in:
		return copy(b, d), nil
	case <-p.done:
		return 0, io.EOF
	}
}
func (p *zzPort) Write(b []byte) (int, error) {
	if p.onWrite != nil {
		p.onWrite(b)
	}
	p.written <- append([]byte(nil), b...)
	return len(b), nil
}

// zzNext is the next command that is written within d, nil if there is none.
func zzNext(p *zzPort, d time.Duration) []byte {
	t := time.After(d)
	for {
		select {
		case b := <-p.written:
			if len(b) != 1 {
				return b
			}
		case <-t:
			return nil
		}
	}
}

func zzFrame(kind byte, body ...byte) []byte {
	f := append([]byte{0x01, byte(len(body) + 2), kind}, body...)
	x := byte(0xff)
	for _, b := range f[1:] {
		x ^= b
	}
	return append(f, x)
}

func zzReplayStream(z *zzRun) {
	p := zzNewPort()
	c := NewConnection()
	c.portOpener = p
	var mu sync.Mutex
	var got []int
	c.reportCallback = func(n byte, r reports.Report) {
		mu.Lock()
		got = append(got, int(n))
		mu.Unlock()
	}
	go c.Connect(make(chan error, 1))
	time.Sleep(300 * time.Millisecond)
	var stream []byte
	var want []int
	frames := 0
	for i := 1 + z.Intn(8); i > 0; i-- {
		switch z.Intn(7) {
		case 0, 1:
			node := byte(1 + z.Intn(232))
			stream = append(stream, zzFrame(0x00, 0x04, 0x00, node, 0x03, 0x25, 0x03, 0xff)...)
			want = append(want, int(node))
			frames++
		case 2:
			u := [][]byte{{0x02}, {0x04, 0x00}, {0x04, 0x00, 0x05, 0x01, 0x20}, {0x02, 0x05, 0x00, 0x1d}, {0x41}, {0x13, 0x01}}
			f := u[z.Intn(len(u))]
			stream = append(stream, zzFrame(0x01, f...)...)
			frames++
		case 3:
			stream = append(stream, []byte{0x02, 0x77, 0x99, 0x07, 0xf0}[z.Intn(5)])
		case 4:
			stream = append(stream, 0x01, 0x03, 0x00, 0x07, 0x00) // a wrong checksum
		case 5:
			stream = append(stream, 0x06)
		case 6:
			body := make([]byte, 0, 40)
			for j := z.Intn(40); j >= 0; j-- {
				body = append(body, byte(z.Intn(256)))
			}
			stream = append(stream, zzFrame(0x01, append([]byte{0x07}, body...)...)...)
			frames++
		}
	}
	z.Note("stream %x, %d frames", stream, frames)
	for len(stream) > 0 {
		n := 1 + z.Intn(len(stream))
		if z.Intn(2) == 0 {
			n = len(stream)
		}
		if n > 100 {
			n = 100
		}
		z.Note("read %x", stream[:n])
		p.in <- stream[:n]
		stream = stream[n:]
		time.Sleep(time.Millisecond)
	}
	time.Sleep(10 * time.Millisecond)
	if z.Intn(2) == 0 {
		// the rest of a frame never comes, the next one does
		z.Note("part of a frame, then a whole one 60 ms later")
		p.in <- []byte{0x01, 0x08, 0x00, 0x07}
		time.Sleep(60 * time.Millisecond)
		p.in <- zzFrame(0x00, 0x04, 0x00, 9, 0x03, 0x25, 0x03, 0xff)
		want = append(want, 9)
		frames++
	}
	time.Sleep(100 * time.Millisecond)
	acks := 0
	for len(p.written) > 0 {
		if b := <-p.written; len(b) == 1 && b[0] == 0x06 {
			acks++
		} else {
			z.Check("C19", false, "written %x", b)
		}
	}
	z.Check("C19", acks == frames, "%d frames, %d acknowledgements", frames, acks)
	mu.Lock()
	sort.Ints(got)
	sort.Ints(want)
	same := len(got) == len(want)
	for i := range want {
		same = same && got[i] == want[i]
	}
	z.Check("C18", same && acks == frames, "%d frames of which %d were seen, reports of nodes %v reached %v", frames, acks, want, got)
	mu.Unlock()
}

// zzMust runs f, which must not block.
func zzMust(z *zzRun, d time.Duration, what string, f func()) {
	done := make(chan struct{})
	go func() { f(); close(done) }()
	select {
	case <-done:
	case <-time.After(d):
		for _, q := range []string{"C16", "C20", "C21", "C22", "C23", "C27"} {
			z.Check(q, false, "%s does not return", what)
		}
	}
}

func zzReplayCommands(z *zzRun) {
	p := zzNewPort()
	c := NewConnection()
	c.portOpener = p
	p.onWrite = func(b []byte) {
		if len(b) > 1 && z.Wants("C20") {
			free := c.TryLock()
			known := false
			for _, s := range c.inFlight {
				known = known || string(s.message) == string(b)
			}
			if free {
				c.Unlock()
			}
			if !known {
				z.log = append(z.log, "written before it was tracked")
			}
		}
	}
	go c.Connect(make(chan error, 1))
	time.Sleep(300 * time.Millisecond)
	for i := 1 + z.Intn(4); i > 0; i-- {
		node := byte(1 + z.Intn(232))
		limit := time.Duration(3+z.Intn(8)) * time.Second
		kind := z.Intn(3)
		var body []byte
		var answer []byte
		var msg interfaces.Encodable
		if z.Intn(2) == 0 && kind != 2 {
			body = []byte{0x02}
			answer = zzFrame(0x01, append(append([]byte{0x02, 0x05, 0x00, 0x1d}, make([]byte, 29)...), 0x05, 0x00)...)
			msg = serialapi.NewRaw(body)
		} else {
			r := commands.NewRaw([]byte{0x25, 0x02, 0x25})
			r.SetNode(int(node))
			body = []byte{0x13, node, 0x04, 0x25, 0x02, 0x25}
			answer = zzFrame(0x00, 0x04, 0x00, node, 0x03, 0x25, 0x03, 0xff)
			msg = r
		}
		other := zzFrame(0x00, 0x04, 0x00, node^0x80, 0x03, 0x25, 0x03, 0xff)
		frame := zzFrame(0x00, body...)
		var res <-chan *serialapi.Message
		var rep <-chan reports.Report
		z.Note("%x kind %d limit %s", frame, kind, limit)
		zzMust(z, 5*time.Second, "sending", func() {
			switch kind {
			case 0:
				c.Write(msg)
			case 1:
				res, _ = c.WriteWithTimeout(msg, limit)
			case 2:
				rep, _ = c.WriteAndWaitForReport(msg, limit, 0x03)
			}
		})
		b := zzNext(p, 2*time.Second)
		at := time.Now()
		z.Check("C20", string(b) == string(frame), "%x was written", b)
		z.Check("C20", len(z.log) == 0 || z.log[len(z.log)-1] != "written before it was tracked", "%x was written before it was tracked", b)
		if kind > 0 {
			c.RLock()
			n := 0
			for _, s := range c.inFlight {
				if string(s.message) == string(frame) && s.timeout == limit && s.function == body[0] {
					ok := s.expectedReport == 0 || kind == 2
					ok = ok && (kind != 2 || s.expectedReport == 3)
					ok = ok && (len(body) < 2 || s.node == body[1] && s.commandclass == body[3])
					if ok {
						n++
					}
				}
			}
			c.RUnlock()
			z.Check("C23", n > 0, "no pending request with the criteria of %x", frame)
		}
		// closed tells whether the waiter is told, and whether there was an answer
		closed := func(d time.Duration) (done bool, got bool) {
			t := time.After(d)
			for {
				select {
				case m, ok := <-res:
					if !ok {
						return true, got
					}
					got = got || m != nil
				case r, ok := <-rep:
					if !ok {
						return true, got
					}
					got = got || r != nil
				case <-t:
					return false, got
				}
			}
		}
		pending := func() (n int) {
			c.RLock()
			for _, s := range c.inFlight {
				if string(s.message) == string(frame) {
					n++
				}
			}
			c.RUnlock()
			return n
		}
		before := pending()
		time.Sleep(10 * time.Millisecond)
		react := z.Intn(4)
		z.Note("reaction %d", react)
		switch react {
		case 0: // refused
			p.in <- []byte{0x15}
			if kind > 0 {
				done, got := closed(500 * time.Millisecond)
				for _, q := range []string{"C16", "C21"} {
					z.Check(q, done && !got, "the waiter of a refused command is not told (told %v, answer %v)", done, got)
				}
			}
			time.Sleep(500 * time.Millisecond)
			z.Check("C21", pending() == before-1, "a refused command is still pending")
			b := zzNext(p, time.Second)
			z.Check("C21", b == nil, "%x was written after a refusal", b)
			continue
		case 1: // cancelled
			p.in <- []byte{0x18}
			b := zzNext(p, 2*time.Second)
			z.Check("C21", string(b) == string(frame), "%x was cancelled and not sent again, but %x", frame, b)
			time.Sleep(10 * time.Millisecond)
			p.in <- []byte{0x06}
			b = zzNext(p, 2*time.Second)
			z.Check("C21", b == nil, "%x was sent a third time", b)
			at = time.Now()
			if kind > 0 {
				done, _ := closed(limit + 2*time.Second)
				z.Check("C16", done, "the waiter of a cancelled command is never told")
			}
			continue
		case 2:
			p.in <- []byte{0x06}
			time.Sleep(10 * time.Millisecond)
		case 3:
			time.Sleep(1200 * time.Millisecond)
		}
		if kind == 0 {
			b := zzNext(p, 2*time.Second)
			z.Check("C21", b == nil, "%x was written", b)
			continue
		}
		if z.Intn(2) == 0 && body[0] == 0x13 {
			z.Note("a frame of another node")
			p.in <- other
			done, got := closed(200 * time.Millisecond)
			z.Check("C15", !done && !got, "a frame of another node was taken for the answer")
		}
		if z.Intn(2) == 0 {
			z.Note("answered")
			p.in <- answer
			done, got := closed(500 * time.Millisecond)
			for _, q := range []string{"C15", "C16", "C23"} {
				z.Check(q, done && got, "answered, but the waiter got: closed %v, answer %v", done, got)
			}
		} else {
			z.Note("not answered")
			done, got := closed(limit + 2*time.Second - time.Since(at))
			after := time.Since(at)
			for _, q := range []string{"C16", "C22"} {
				z.Check(q, done && !got, "not answered, but the waiter got: closed %v, answer %v", done, got)
			}
			z.Check("C22", !done || after >= limit, "given up after %s of %s", after, limit)
		}
		c.RLock()
		for _, s := range c.inFlight {
			z.Check("C16", s.timeout == 0, "a request is still pending after its waiter was told")
		}
		c.RUnlock()
		time.Sleep(limit)
	}
}

func zzReplayTimeouts(z *zzRun) {
	p := zzNewPort()
	c := NewConnection()
	c.portOpener = p
	go c.Connect(make(chan error, 1))
	time.Sleep(300 * time.Millisecond)
	n := 2 + z.Intn(4)
	type req struct {
		limit time.Duration
		at    time.Time
		ch    <-chan *serialapi.Message
		ended time.Time
		got   bool
		node  byte
	}
	var mu sync.Mutex
	var rs []*req
	start := time.Now()
	for i := 0; i < n; i++ {
		r := &req{limit: time.Duration(2+z.Intn(3)) * time.Second, node: byte(1 + z.Intn(2))}
		var m interfaces.Encodable = serialapi.NewRaw([]byte{0x02})
		if z.Intn(2) == 0 {
			x := commands.NewRaw([]byte{0x25, 0x02, 0x25})
			x.SetNode(int(r.node))
			m = x
		} else {
			r.node = 0
		}
		z.Note("request %d: node %d limit %s", i, r.node, r.limit)
		r.ch, _ = c.WriteWithTimeout(m, r.limit)
		zzNext(p, 2*time.Second)
		r.at = time.Now()
		time.Sleep(time.Millisecond)
		p.in <- []byte{0x06}
		go func() {
			for m := range r.ch {
				mu.Lock()
				r.got = r.got || m != nil
				mu.Unlock()
			}
			mu.Lock()
			r.ended = time.Now()
			mu.Unlock()
		}()
		rs = append(rs, r)
	}
	answered := byte(0)
	if z.Intn(2) == 0 && time.Since(start) < time.Second {
		answered = byte(1 + z.Intn(2))
		z.Note("node %d answers", answered)
		p.in <- zzFrame(0x00, 0x04, 0x00, answered, 0x03, 0x25, 0x03, 0xff)
	}
	time.Sleep(10 * time.Second)
	mu.Lock()
	defer mu.Unlock()
	for i, r := range rs {
		z.Check("C16", !r.ended.IsZero(), "request %d was never released", i)
		z.Check("C22", !r.ended.IsZero(), "request %d was never released", i)
		if r.node != 0 && r.node == answered {
			z.Check("C15", r.got, "request %d got no answer", i)
			z.Check("C16", r.got, "request %d got no answer", i)
			z.Check("C23", r.got, "request %d got no answer", i)
			continue
		}
		z.Check("C15", !r.got, "request %d got the answer of another", i)
		d := r.ended.Sub(r.at)
		z.Check("C22", d >= r.limit && d < r.limit+500*time.Millisecond, "request %d was given up after %s of %s", i, d, r.limit)
	}
}

func zzReplaySaver(z *zzRun) {
	dir, err := os.MkdirTemp("", "zz")
	if err != nil {
		return
	}
	defer os.RemoveAll(dir)
	c := NewController()
	c.filename = filepath.Join(dir, "nodes.json")
	go c.saveDebouncer()
	id := 2
	for i := 1 + z.Intn(6); i > 0; i-- {
		c.Nodes.Add(nodes.New(id))
		c.pushEvent(events.NodeUpdated{Address: id})
		pause := time.Duration(z.Intn(15)) * time.Second
		if z.Intn(3) == 0 {
			pause = time.Duration(z.Intn(1000)) * time.Millisecond
		}
		pause += 500 * time.Millisecond
		z.Note("update of node %d, %s", id, pause)
		time.Sleep(pause)
		if pause > 10500*time.Millisecond {
			saved := &Controller{filename: c.filename, Nodes: nodes.NewList()}
			other, err := saved.loadConfigurationFromFile()
			z.Check("C36", err == nil && other.Nodes.Get(id) != nil, "the update of node %d was not saved after %s", id, pause)
		}
		if pause < 9*time.Second {
			other, err := (&Controller{filename: c.filename}).loadConfigurationFromFile()
			z.Check("C36", err != nil || other.Nodes.Get(id) == nil, "the update of node %d was saved after %s", id, pause)
		}
		id++
	}
	time.Sleep(12 * time.Second)
	other, err := (&Controller{filename: c.filename}).loadConfigurationFromFile()
	z.Check("C36", err == nil && other.Nodes.Get(id-1) != nil, "the last update was not saved")
}

func zzReplayEvents(z *zzRun) {
	c := NewController()
	var want []interface{}
	saves := 0
	var mu sync.Mutex
	go func() {
		for range c.triggerFileSave {
			mu.Lock()
			saves++
			mu.Unlock()
		}
	}()
	updates := 0
	queued := 0
	for i := z.Intn(30); i > 0; i-- {
		if z.Intn(3) == 0 && queued > 0 {
			select {
			case e := <-c.GetNextEvent():
				z.Check("C36", len(want) > 0 && e == want[0], "%v instead of %v", e, want)
				want = want[1:]
				queued--
			default:
				z.Check("C36", false, "a queued event is missing")
			}
			continue
		}
		var e interface{} = events.NodeDiscoverd{Address: i}
		if z.Intn(2) == 0 {
			e = events.NodeUpdated{Address: i}
			updates++
		}
		if queued < cap(c.eventQue) {
			want = append(want, e)
			queued++
		}
		done := make(chan struct{})
		go func() { c.pushEvent(e); close(done) }()
		select {
		case <-done:
		case <-time.After(time.Second):
			z.Check("C36", false, "announcing an event blocks")
		}
	}
	time.Sleep(time.Second)
	for _, w := range want {
		select {
		case e := <-c.GetNextEvent():
			z.Check("C36", e == w, "%v instead of %v", e, w)
		default:
			z.Check("C36", false, "a queued event is missing")
		}
	}
	mu.Lock()
	z.Check("C36", saves == updates, "%d updates asked for %d saves", updates, saves)
	mu.Unlock()
}

func zzReplayDiscovery(z *zzRun) {
	p := zzNewPort()
	c := NewController()
	c.Connection.portOpener = p
	go c.Connection.Connect(make(chan error, 1))
	known := map[int]*nodes.Node{}
	for i := z.Intn(4); i > 0; i-- {
		n := nodes.New(1 + z.Intn(12))
		n.Setup(c.Connection, c.pushEvent)
		c.Nodes.Add(n)
		known[n.Id] = n
	}
	active := map[int]bool{}
	bits := make([]byte, 29)
	for i := z.Intn(5); i > 0; i-- {
		id := 1 + z.Intn(12)
		if z.Intn(3) == 0 {
			id = 1 + z.Intn(232)
		}
		active[id] = true
		bits[(id-1)/8] |= 1 << uint((id-1)%8)
	}
	z.Note("known %v active %v", len(known), active)
	go c.getNodes()
	if zzNext(p, 3*time.Second) == nil {
		z.Check("C29", false, "the node list was not asked for")
		return
	}
	p.in <- []byte{0x06}
	time.Sleep(10 * time.Millisecond)
	reply := z.Intn(4) > 0
	if reply {
		p.in <- zzFrame(0x01, append(append([]byte{0x02, 0x05, 0x00, 0x1d}, bits...), 0x05, 0x00)...)
	} else {
		z.Note("no reply")
		active = map[int]bool{}
	}
	asked := map[int]bool{}
	end := time.Now().Add(8 * time.Second)
	for time.Now().Before(end) {
		if b := zzNext(p, time.Second); b != nil {
			if len(b) > 4 && b[3] == serialapi.GetNodeProtocolInfo {
				asked[int(b[4])] = true
			}
			time.Sleep(time.Millisecond)
			p.in <- []byte{0x06}
		}
	}
	all := c.Nodes.All()
	want := map[int]bool{}
	for id := range known {
		want[id] = true
		z.Check("C29", all[id] == known[id], "the known node %d was replaced", id)
	}
	for id := range active {
		if id > 1 {
			want[id] = true
			z.Check("C29", asked[id], "the identification of node %d was not started", id)
		}
	}
	for id := range want {
		z.Check("C29", all[id] != nil && all[id].Id == id, "node %d is missing", id)
	}
	for id := range all {
		z.Check("C29", want[id], "node %d was added", id)
	}
	news := map[int]bool{}
	for len(c.GetNextEvent()) > 0 {
		if e, ok := (<-c.GetNextEvent()).(events.NodeDiscoverd); ok {
			z.Check("C29", !news[e.Address], "node %d was announced twice", e.Address)
			news[e.Address] = true
		}
	}
	for id := range active {
		z.Check("C29", id == 1 || known[id] != nil || news[id], "node %d was not announced", id)
	}
}

// zzPorts opens a sequence of ports.
type zzPorts struct {
	sync.Mutex
	z     *zzRun
	fail  []bool
	ports []*zzPort
	at    []time.Time
	c     func() bool
}

func (o *zzPorts) Open() (io.ReadWriteCloser, error) {
	o.Lock()
	defer o.Unlock()
	i := len(o.at)
	o.at = append(o.at, time.Now())
	if i < len(o.fail) && o.fail[i] {
		o.ports = append(o.ports, nil)
		return nil, errors.New("no port")
	}
	p := zzNewPort()
	o.ports = append(o.ports, p)
	return p, nil
}

func zzReplayReconnect(z *zzRun) {
	o := &zzPorts{z: z}
	for i := 0; i < 6; i++ {
		o.fail = append(o.fail, z.Intn(3) == 0)
	}
	z.Note("attempts that fail: %v", o.fail)
	if z.Intn(8) == 0 {
		c, err := ConnectWithCustomPortOpener("", "", nil)
		z.Check("C37", c == nil && err != nil, "no error without a port opener")
	}
	type res struct {
		c   *Controller
		err error
	}
	ret := make(chan res, 1)
	go func() {
		c, err := ConnectWithCustomPortOpener("", "", o)
		ret <- res{c, err}
	}()
	var c *Controller
	select {
	case r := <-ret:
		z.Check("C37", (r.err != nil) == o.fail[0] && (r.c == nil) == o.fail[0], "first attempt fails: %v, error %v", o.fail[0], r.err)
		c = r.c
	case <-time.After(5 * time.Second):
		z.Check("C37", false, "opening does not return")
		return
	}
	if c == nil {
		return
	}
	for round := 0; round < 5; round++ {
		time.Sleep(2 * time.Second)
		o.Lock()
		n := len(o.ports)
		var p *zzPort
		if n > 0 {
			p = o.ports[n-1]
		}
		o.Unlock()
		if p == nil {
			continue
		}
		for zzNext(p, 3*time.Second) != nil {
		}
		time.Sleep(time.Second)
		r := commands.NewRaw([]byte{0x25, byte(round), 0x25})
		r.SetNode(7)
		want := zzFrame(0x00, 0x13, 7, 4, 0x25, byte(round), 0x25)
		go c.Connection.Write(r)
		b := zzNext(p, 5*time.Second)
		z.Check("C20", string(b) == string(want), "round %d: %x was written instead of %x", round, b, want)
		b = zzNext(p, 3*time.Second)
		z.Check("C20", b == nil, "round %d: %x was written too", round, b)
		z.Note("the port of attempt %d ends", n)
		p.Close()
		end := time.Now()
		time.Sleep(1100 * time.Millisecond)
		o.Lock()
		z.Check("C37", len(o.at) == n+1, "%d attempts after the end of attempt %d", len(o.at)-n, n)
		if len(o.at) > n {
			d := o.at[n].Sub(end)
			z.Check("C37", d >= 900*time.Millisecond, "opened again after %s", d)
		}
		o.Unlock()
	}
}

func zzReplayFile(z *zzRun) {
	dir, err := os.MkdirTemp("", "zz")
	if err != nil {
		return
	}
	defer os.RemoveAll(dir)
	c := NewController()
	c.filename = filepath.Join(dir, "nodes.json")
	for i := z.Intn(4); i >= 0; i-- {
		c.Nodes.Add(nodes.New(1 + z.Intn(232)))
	}
	z.Check("C32", c.SaveConfigurationToFile() == nil, "the configuration can not be saved")
	old, err := os.ReadFile(c.filename)
	z.Check("C32", err == nil, "nothing was saved")
	l := NewController()
	l.filename = c.filename
	z.Check("C32", l.LoadConfigurationFromFile() == nil, "the saved configuration can not be loaded")
	for id := range c.Nodes.All() {
		z.Check("C32", l.Nodes.Get(id) != nil, "node %d is lost", id)
	}
	z.Check("C32", len(l.Nodes.All()) == len(c.Nodes.All()), "%d nodes of %d", len(l.Nodes.All()), len(c.Nodes.All()))
	seen := map[int]bool{}
	for len(l.GetNextEvent()) > 0 {
		if e, ok := (<-l.GetNextEvent()).(events.NodeDiscoverd); ok {
			seen[e.Address] = true
		}
	}
	for id := range c.Nodes.All() {
		z.Check("C32", seen[id], "node %d is not announced", id)
	}
	// a step of the save fails: the file stays complete
	c.Nodes.Add(nodes.New(3 + z.Intn(200)))
	os.Mkdir(c.filename+".new", 0o755)
	err = c.SaveConfigurationToFile()
	now, rerr := os.ReadFile(c.filename)
	again, lerr := (&Controller{filename: c.filename}).loadConfigurationFromFile()
	z.Check("C32", rerr == nil && lerr == nil && again != nil && (string(now) == string(old) || err == nil), "after a failed save (%v) the file holds %q", err, now)
}

func zzReplayLoad(z *zzRun) {
	dir, err := os.MkdirTemp("", "zz")
	if err != nil {
		return
	}
	defer os.RemoveAll(dir)
	parts := []string{`{"Nodes":{"7":{"id":7}}}`, `{}`, `null`, ``, `{"Nodes":null}`, `{"Nodes":{}}`, `{"Nodes":{"7":null}}`, `{"Nodes":{"7":{"id":7,"Endpoints":[null,{"Id":2}],"StateBool":null}}}`, `{"Nodes":{"7":{"id":7},"9":{"id":9,"CommandClasses":[{"ID":37}]}}}`, `[]`, `{"Nodes":[]}`, `{"Nodes":{"a":{"id":7}}}`}
	data := parts[z.Intn(len(parts))]
	if z.Intn(3) == 0 && len(data) > 0 {
		data = data[:z.Intn(len(data))]
	}
	z.Note("file %s", data)
	c := NewController()
	c.filename = filepath.Join(dir, "nodes.json")
	if z.Intn(10) > 0 {
		os.WriteFile(c.filename, []byte(data), 0o600)
	}
	c.LoadConfigurationFromFile()
	for _, n := range c.Nodes.All() {
		if n == nil {
			continue
		}
		n.ProcessEvent(&reports.SwitchBinaryV1{CurrentValue: true})
		z.Check("C26", n.StateBool["on"], "the report changed nothing")
		n.Endpoint(2)
	}
	if len(c.Nodes.All()) > 0 {
		z.Check("C32", len(c.GetNextEvent()) > 0, "the nodes of the file are not announced")
	}
}
