package serialrecorder

//gvc:replay C33

import (
	"bytes"
	"encoding/gob"
	"errors"
	"io"
	"sync"
	"testing/synctest"
	"time"
)

var zzScenarios = []zzScenario{
	{name: "reads and writes through the recorder", props: "C33", run: zzReplayRecorder},
}

type zzPort struct {
	z    *zzRun
	data []byte
	n    int
	err  error
}

func (p *zzPort) Read(b []byte) (int, error) { copy(b, p.data[:p.n]); return p.n, p.err }
func (p *zzPort) Write(b []byte) (int, error) {
	p.z.Check("C33", bytes.Equal(b, p.data), "% x is written instead of % x", b, p.data)
	return p.n, p.err
}
func (p *zzPort) Close() error { return p.err }

type zzLog struct {
	mu sync.Mutex
	b  bytes.Buffer
	n  int // what was written
	// the next write fails
	fail bool
}

func (l *zzLog) Write(b []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.fail {
		return 0, errors.New("disk full")
	}
	l.n += len(b)
	return l.b.Write(b)
}

// zzRow is a row that may be lost.
type zzRow struct {
	Row
	lost bool
}

func zzReplayRecorder(z *zzRun) {
	sr := New("/nonexistent/port", 115200)
	out := &zzLog{}
	sr.Logger = out
	opens := 0
	var want []zzRow
	fails := []error{nil, nil, io.EOF, errors.New("timeout")}
	buf := make([]byte, 16)
	for i := 1 + z.Intn(12); i > 0; i-- {
		if z.Intn(4) == 0 || i == 1 && opens == 0 {
			z.Note("the port is opened")
			sr.Open()
			opens++
		}
		p := &zzPort{z: z, err: fails[z.Intn(len(fails))]}
		sr.serial = p
		b := buf[:z.Intn(len(buf)+1)]
		p.data = make([]byte, len(b))
		z.Rand.Read(p.data)
		p.n = z.Intn(len(b) + 1)
		row := zzRow{Row: Row{Direction: DirectionRead, Data: append([]byte(nil), p.data[:p.n]...)}}
		out.mu.Lock()
		out.fail = out.n > 0 && z.Intn(5) == 0
		row.lost = out.fail
		if out.fail {
			z.Note("the log is not writable")
		}
		out.mu.Unlock()
		var n int
		var err error
		if z.Intn(2) == 0 {
			z.Note("%d of %d bytes are read, error %v", p.n, len(b), p.err)
			n, err = sr.Read(b)
			z.Check("C33", bytes.Equal(b[:p.n], row.Data), "% x is read instead of % x", b[:p.n], row.Data)
		} else {
			z.Note("%d of %d bytes are written, error %v", p.n, len(b), p.err)
			row.Direction = DirectionWrite
			copy(b, p.data)
			n, err = sr.Write(b)
		}
		z.Check("C33", n == p.n && err == p.err, "the result is %d %v instead of %d %v", n, err, p.n, p.err)
		z.Rand.Read(buf)
		want = append(want, row)
		synctest.Wait()
		time.Sleep(time.Millisecond)
	}
	dec := gob.NewDecoder(&out.b)
	var got []Row
	for {
		var r Row
		if dec.Decode(&r) != nil {
			break
		}
		got = append(got, r)
	}
	// a transfer of nothing may be left out
	i := 0
	for _, r := range got {
		for i < len(want) && (want[i].lost || len(want[i].Data) == 0) && (want[i].lost || len(r.Data) > 0 || want[i].Direction != r.Direction) {
			i++
		}
		z.Check("C33", i < len(want) && bytes.Equal(r.Data, want[i].Data) && r.Direction == want[i].Direction, "record %v does not belong to a transfer", r)
		i++
	}
	for ; i < len(want); i++ {
		z.Check("C33", want[i].lost || len(want[i].Data) == 0, "a transfer of %d bytes is not recorded", len(want[i].Data))
	}
}
