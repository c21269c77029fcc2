package main

import (
	"encoding/gob"
	"io"
	_ "log"
	"os"
	"sort"
	"time"

	"github.com/stampzilla/gozwave/serialrecorder"

	g "github.com/stampzilla/gozwave/gvcspec"
)

// apart says that two rows are at least a millisecond apart.
func apart(a, b time.Time) bool {
	d := a.Sub(b)
	return d >= time.Millisecond || d <= -time.Millisecond
}

// genTime gives times that are close to each other, now and then, for the native cross-check.
func genTime(r *g.Rand) time.Time {
	d := []time.Duration{0, time.Microsecond, 999 * time.Microsecond, time.Millisecond, 1001 * time.Microsecond, 500 * time.Millisecond, time.Second, time.Second + time.Microsecond, time.Minute, time.Hour}
	return time.Unix(1500000000, 0).UTC().Add(d[r.Intn(len(d))] + d[r.Intn(len(d))])
}

// spec_combine: one more row, whatever came before it.
//
//gvc:verify C34
//gvc:safety C34
//gvc:opt nomodel=modelCombine gen.prevTime=genTime gen.now=genTime
func spec_combine(prevTime, now time.Time, dir serialrecorder.Direction, buf []byte, data []byte, prevData []byte, first bool) {
	g.Requires(now != time.Time{} && prevTime != time.Time{})
	l := &logRowCombiner{}
	if first {
		g.Requires(len(buf) == 0)
	} else {
		l.buf = buf
		l.prev = serialrecorder.Row{Timestamp: prevTime, Direction: dir, Data: prevData}
	}
	g.Requires(!g.SameBacking(buf, data) || cap(buf) == 0 || cap(data) == 0)
	old := g.Snapshot(buf)
	in := g.Snapshot(data)
	r := serialrecorder.Row{Timestamp: now, Direction: dir, Data: data}

	c := l.combine(r)

	g.Ensures("C34.the row is left as it is", g.Forall(0, len(in), func(i int) bool { return data[i] == in[i] }))
	g.Ensures("C34.the next row is compared with this one", l.prev.Timestamp == now && l.prev.Direction == dir)
	if c == nil {
		g.Cover("C34.merged")
		g.Ensures("C34.rows that are a millisecond apart are never merged", first || !apart(now, prevTime))
		g.Ensures("C34.no byte is lost or made up", len(l.buf) == len(old)+len(in))
		g.Ensures("C34.the bytes are added in order", g.Forall(0, len(old), func(i int) bool { return l.buf[i] == old[i] }) &&
			g.Forall(0, len(in), func(i int) bool { return l.buf[len(old)+i] == in[i] }))
		return
	}
	g.Cover("C34.handed out")
	g.Ensures("C34.the first row is not handed out before it is complete", !first)
	g.Ensures("C34.rows that are close together are merged", apart(now, prevTime))
	g.Ensures("C34.the combined row is in its direction and has its time", c.Direction == dir && c.Timestamp == prevTime)
	g.Ensures("C34.the combined row is what was buffered", len(c.Data) == len(old) && g.Forall(0, len(old), func(i int) bool { return c.Data[i] == old[i] }))
	g.Ensures("C34.the row starts the next one", len(l.buf) == len(in) && g.Forall(0, len(in), func(i int) bool { return l.buf[i] == in[i] }))
	g.Ensures("C34.later rows do not change what was handed out", len(in) == 0 || len(old) == 0 || !g.SameBacking(l.buf, c.Data))
	g.Ensures("C34.later rows do not change the rows they come from", len(in) == 0 || len(l.buf) == cap(l.buf) || !g.SameBacking(l.buf, data))
}

// spec_flush: whatever is buffered.
//
//gvc:verify C34
//gvc:safety C34
//gvc:opt nomodel=modelFlush
func spec_flush(prevTime time.Time, dir serialrecorder.Direction, buf []byte, prevData []byte) {
	l := &logRowCombiner{buf: buf, prev: serialrecorder.Row{Timestamp: prevTime, Direction: dir, Data: prevData}}
	old := g.Snapshot(buf)
	c := l.flush()
	g.Ensures("C34.the last row is not lost", c != nil || len(old) == 0)
	if c != nil {
		g.Ensures("C34.the last row is what was buffered", len(c.Data) == len(old) && g.Forall(0, len(old), func(i int) bool { return c.Data[i] == old[i] }))
		g.Ensures("C34.the last row is in its direction and has its time", c.Direction == dir && c.Timestamp == prevTime)
	}
	g.Ensures("C34.nothing is handed out twice", len(l.buf) == 0)
}

// spec_order: the combined rows are sorted by their time.
//
//gvc:verify C34
//gvc:safety C34
func spec_order(rows rowsByTimestamp, i, j, k int) {
	g.Requires(0 <= i && i < len(rows) && 0 <= j && j < len(rows) && 0 <= k && k < len(rows))
	old := g.Snapshot(rows)
	g.Ensures("C34.every row is sorted", rows.Len() == len(old))
	g.Ensures("C34.rows are sorted by their time", rows.Less(i, j) == rows[i].Timestamp.Before(rows[j].Timestamp))
	rows.Swap(i, j)
	g.Ensures("C34.sorting exchanges whole rows", isRow(rows[i], old[j]) && isRow(rows[j], old[i]))
	g.Ensures("C34.sorting leaves the others alone", k == i || k == j || isRow(rows[k], old[k]))
}

func isRow(a, b row) bool {
	return a.Timestamp == b.Timestamp && a.Direction == b.Direction && len(a.Data) == len(b.Data) && (len(a.Data) == 0 || g.SameBacking(a.Data, b.Data))
}

func isInput(a, b serialrecorder.Row) bool {
	return a.Timestamp == b.Timestamp && a.Direction == b.Direction && len(a.Data) == len(b.Data) && (len(a.Data) == 0 || g.SameBacking(a.Data, b.Data))
}

// mn is the ghost state of the tool.
var mn struct {
	in      []serialrecorder.Row // what is recorded in the file
	read    int
	eof     bool
	comb    int // rows that have been combined
	combs   [2]*logRowCombiner
	flushes [2]int
	out     []row // what the combiners hand out
	n       int   // how much of it has been handed out
	sorted  []row // all of it, in the order of time
	sorts   int
	prints  int
	name    string
	opens   int
	parsed  bool
	decs    int
	failed  bool
	show    bool // only what is printed matters
}

//gvc:model flag.Parse
func modelParse() {
	g.Ensures("C34.the flags are read once", !mn.parsed)
	mn.parsed = true
	file, short, read, write = g.Any[string]("file"), g.Any[bool]("short"), g.Any[bool]("read"), g.Any[bool]("write")
	mn.name = file
	mn.failed = file == ""
}

//gvc:model flag.StringVar
func modelStringVar(p *string, name string, value string, usage string) {
	g.Ensures("C34.the flags are known before they are read", !mn.parsed)
	*p = value
}

//gvc:model flag.BoolVar
func modelBoolVar(p *bool, name string, value bool, usage string) {
	g.Ensures("C34.the flags are known before they are read", !mn.parsed)
	*p = value
}

//gvc:model log.Fatalln
func modelFatalln(v ...any) {
	g.Ensures("C34.the tool gives up only if the file cannot be read", mn.failed)
	g.Assume(false)
}

//gvc:model log.Fatalf
func modelFatalf(format string, v ...any) {
	g.Ensures("C34.the tool gives up only if the file cannot be read", mn.failed)
	g.Assume(false)
}

//gvc:model os.Open
func modelOpen(name string) (*os.File, error) {
	g.Ensures("C34.the named file is read", name == mn.name && mn.opens == 0)
	mn.opens++
	err := g.Any[error]("open error")
	mn.failed = err != nil
	return new(os.File), err
}

//gvc:model encoding/gob.NewDecoder
func modelNewDecoder(r io.Reader) *gob.Decoder {
	g.Ensures("C34.the file is one stream", mn.decs == 0 && mn.opens == 1)
	mn.decs++
	return new(gob.Decoder)
}

//gvc:model (*encoding/gob.Decoder).Decode
func modelDecode(d *gob.Decoder, v any) error {
	if mn.show {
		return []error{nil, io.EOF}[g.Any[uint8]("eof")&1]
	}
	r, ok := v.(*serialrecorder.Row)
	g.Ensures("C34.records are decoded into an empty row", ok && r != nil && r.Timestamp == time.Time{} && !bool(r.Direction) && len(r.Data) == 0)
	if mn.read == len(mn.in) {
		mn.eof = true
		return io.EOF
	}
	err := g.Any[error]("decoding error")
	if err == nil {
		*r = mn.in[mn.read]
		mn.read++
	} else {
		g.Assume(err != io.EOF)
		mn.failed = true
	}
	return err
}

func slot(d serialrecorder.Direction) int {
	if d.IsWrite() {
		return 1
	}
	return 0
}

//gvc:model (*github.com/stampzilla/gozwave/cmd/serialrecordingtohex.logRowCombiner).combine
func modelCombine(l *logRowCombiner, r serialrecorder.Row) *row {
	if mn.show {
		return anything()
	}
	g.Ensures("C34.every recorded row is combined, in order", mn.eof && mn.comb < len(mn.in) && isInput(r, mn.in[mn.comb]))
	mn.comb++
	d := slot(r.Direction)
	g.Ensures("C34.each direction is combined on its own", l != nil && (mn.combs[d] == nil || mn.combs[d] == l) && mn.combs[1-d] != l && mn.flushes[d] == 0)
	mn.combs[d] = l
	return handOut()
}

func anything() *row {
	if g.Any[bool]("nothing") {
		return nil
	}
	return &row{Direction: g.Any[serialrecorder.Direction]("direction"), Data: g.Any[[]byte]("data")}
}

func handOut() *row {
	if g.Any[bool]("nothing") {
		return nil
	}
	g.Assume(mn.n < len(mn.out))
	c := &row{}
	*c = mn.out[mn.n]
	mn.n++
	return c
}

//gvc:model (*github.com/stampzilla/gozwave/cmd/serialrecordingtohex.logRowCombiner).flush
func modelFlush(l *logRowCombiner) *row {
	if mn.show {
		return anything()
	}
	g.Ensures("C34.the last rows are included when all others are", mn.comb == len(mn.in) && mn.sorts == 0 && l != nil)
	d := 0
	if mn.combs[1] == l {
		d = 1
	}
	if mn.combs[d] == l {
		g.Ensures("C34.the last row is included once", mn.flushes[d] == 0)
		mn.flushes[d]++
		return handOut()
	}
	return nil // nothing was combined
}

//gvc:model sort.Sort
func modelSort(data sort.Interface) {
	rows, ok := data.(rowsByTimestamp)
	if mn.show {
		g.Assume(ok)
		mn.sorts++
		mn.sorted = rows
		// the capacity of a row's data tells which one it is; nothing else depends on it
		g.Assume(g.Forall(0, len(rows), func(i int) bool { return cap(rows[i].Data) == mark+i && len(rows[i].Data) < mark }))
		return
	}
	g.Ensures("C34.the last row of each direction is included", (mn.combs[0] == nil || mn.flushes[0] == 1) && (mn.combs[1] == nil || mn.flushes[1] == 1))
	g.Ensures("C34.the combined rows are sorted once, when all are", ok && mn.comb == len(mn.in) && mn.sorts == 0)
	g.Ensures("C34.every combined row is included, once", len(rows) == mn.n)
	g.Ensures("C34.combined rows are included as they are", g.Forall(0, mn.n, func(i int) bool { return isRow(rows[i], mn.out[i]) }))
	mn.sorts++
	g.Assume(false) // spec_print is about the rest
}

//gvc:model sort.Stable
func modelStable(data sort.Interface) { modelSort(data) }

const mark = 1 << 40

func shown(r row, rd, wr bool) bool {
	return !bool(r.Direction) && rd || bool(r.Direction) && wr
}

// rec_shown counts the rows that are shown.
func rec_shown(rows []row, lo, hi int, rd, wr bool) int {
	if hi <= lo {
		return 0
	}
	if shown(rows[hi-1], rd, wr) {
		return rec_shown(rows, lo, hi-1, rd, wr) + 1
	}
	return rec_shown(rows, lo, hi-1, rd, wr)
}

//gvc:model fmt.Printf
func modelPrintf(format string, a ...any) (int, error) {
	g.Cover("C34.printed")
	g.Ensures("C34.the rows are printed in the order of time", mn.sorts == 1 && len(a) > 0)
	data, ok := a[len(a)-1].([]byte)
	g.Ensures("C34.the data is printed", ok)
	k := cap(data) - mark
	g.Ensures("C34.every row is printed as it is", 0 <= k && k < len(mn.sorted) && len(data) == len(mn.sorted[k].Data) && g.SameBacking(data, mn.sorted[k].Data))
	g.Ensures("C34.only rows that are asked for are printed", shown(mn.sorted[k], read, write))
	g.Ensures("C34.every row that is asked for is printed once, in order", rec_shown(mn.sorted, 0, k, read, write) == mn.prints)
	mn.prints++
	return 0, nil
}

// spec_main: every recording, up to the sorted rows.
//
//gvc:verify C34
//gvc:opt unroll=0 noreturn
//gvc:nonative
func spec_main(in []serialrecorder.Row, out []row) {
	g.Requires(len(in) < 1<<40 && len(out) < 1<<40)
	begin(in, out, false)
	main()
	g.Ensures("C34.the rows are sorted", false)
}

func begin(in []serialrecorder.Row, out []row, show bool) {
	mn.in, mn.out, mn.sorted, mn.show = in, out, nil, show
	mn.read, mn.eof, mn.comb, mn.n, mn.sorts, mn.prints, mn.opens, mn.parsed, mn.decs, mn.failed = 0, false, 0, 0, 0, 0, 0, false, 0, false
	mn.combs[0], mn.combs[1], mn.flushes[0], mn.flushes[1] = nil, nil, 0, 0
}

// spec_print: whatever has been combined, with all flags.
//
//gvc:verify C34
//gvc:opt unroll=0
//gvc:nonative
func spec_print() {
	begin(nil, nil, true)
	main()
	g.Ensures("C34.the rows have been printed", mn.sorts == 1)
	g.Ensures("C34.all rows that are asked for have been printed", mn.prints == rec_shown(mn.sorted, 0, len(mn.sorted), read, write))
}

// what all loops of the tool keep
func inv_counts() bool {
	return 0 <= mn.read && mn.read <= len(mn.in) && 0 <= mn.n && mn.n <= len(mn.out) && mn.opens == 1 && mn.decs == 1 && mn.parsed && !mn.failed && len(mn.in) < 1<<40
}

// decoding
func inv_decoding() bool { return mn.show || !mn.eof && mn.comb == 0 }

func inv_unused() bool {
	return mn.show || mn.combs[0] == nil && mn.combs[1] == nil
}

func inv_unflushed() bool { return mn.show || mn.flushes[0] == 0 && mn.flushes[1] == 0 }

func inv_unsorted() bool { return mn.sorts == 0 && mn.prints == 0 }

func inv_nothing() bool { return mn.show || mn.n == 0 }

func inv_decoded(rows []serialrecorder.Row) bool {
	return mn.show || (len(rows) == mn.read && (cap(rows) == 0 || !g.SameBacking(rows, mn.in)) && g.Forall(0, len(rows), func(i int) bool { return isInput(rows[i], mn.in[i]) }))
}

func inv_line(i int) bool { return mn.show || i == mn.read }

// combining
func inv_combining(i int) bool { return mn.show || mn.eof && mn.comb == i+1 }

func inv_combiners(a, b *logRowCombiner) bool {
	return mn.show || (a != b && (mn.combs[0] == nil || mn.combs[0] == a) && (mn.combs[1] == nil || mn.combs[1] == b))
}

func inv_collected(rows rowsByTimestamp) bool {
	return mn.show || (len(rows) == mn.n && (cap(rows) == 0 || !g.SameBacking(rows, mn.out)) && g.Forall(0, len(rows), func(i int) bool { return isRow(rows[i], mn.out[i]) }))
}

// flushing
func inv_combined() bool { return mn.show || mn.eof && mn.comb == len(mn.in) }

func flushed(d int, yes bool) bool {
	return mn.flushes[d] == 0 && (!yes || mn.combs[d] == nil) || mn.flushes[d] == 1 && yes
}

func inv_flushedA(i int) bool { return mn.show || flushed(0, i >= 0) && flushed(1, i >= 1) }
func inv_flushedB(i int) bool { return mn.show || flushed(1, i >= 0) && flushed(0, i >= 1) }

// printing
func inv_printing() bool { return mn.sorts == 1 }

func inv_printed(i int) bool { return mn.prints == rec_shown(mn.sorted, 0, i+1, read, write) }

func inv_printedAtMost(i int) bool { return 0 <= mn.prints && mn.prints <= i+1 }

// the same for loops that count from 0
func inv_combining0(i int) bool { return mn.show || mn.eof && mn.comb == i }

func inv_flushedA0(i int) bool { return mn.show || flushed(0, i > 0) && flushed(1, i > 1) }
func inv_flushedB0(i int) bool { return mn.show || flushed(1, i > 0) && flushed(0, i > 1) }

func inv_printed0(i int) bool { return mn.prints == rec_shown(mn.sorted, 0, i, read, write) }

func inv_printedAtMost0(i int) bool { return 0 <= mn.prints && mn.prints <= i }
