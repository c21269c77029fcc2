package commands

import (
	"time"

	g "github.com/stampzilla/gozwave/gvcspec"
)

// spec_Duration: every duration byte.
//
//gvc:verify C11
//gvc:safety C11
func spec_Duration(d Duration) {
	t, err := d.Duration()
	b := byte(d)
	if b >= 254 {
		g.Cover("C11.default")
		g.Ensures("C11.254 and 255 are an error", err != nil)
	} else {
		g.Ensures("C11.0..253 are no error", err == nil)
		var want time.Duration
		if b >= 128 {
			g.Cover("C11.minutes")
			want = time.Duration(int64(b)-127) * 60000000000
		} else {
			g.Cover("C11.seconds")
			want = time.Duration(int64(b)) * 1000000000
		}
		g.Ensures("C11.the time span", t == want)
	}
	text := d.String()
	if err != nil {
		g.Ensures("C11.text of the error", text == err.Error())
	} else {
		g.Ensures("C11.text of the time span", text == t.String())
	}
}

// spec_SwitchBinary: every node, every history of settings.
//
//gvc:verify C13
//gvc:safety C13
func spec_SwitchBinary(on, again bool, other, node int) {
	c := NewSwitchBinary()
	c.SetNode(other)
	c.SetValue(again)
	c.SetNode(node)
	c.SetValue(on)
	b := c.Encode()
	v := byte(0)
	if on {
		v = 0xff
	}
	g.Ensures("C13.binary frame size", len(b) == 7)
	g.Ensures("C13.binary send-data to the low byte of the node", b[0] == 0x13 && b[1] == byte(node))
	g.Ensures("C13.binary command bytes", b[2] == 3 && b[3] == 0x25 && b[4] == 1 && b[5] == v)
	g.Ensures("C13.binary transmit options", b[6] == 0x25)
	b2 := NewSwitchBinary().SetValue(on).SetNode(node).Encode()
	g.Ensures("C13.binary setters can be chained in any order", len(b2) == 7 && g.Forall(0, 7, func(i int) bool { return b2[i] == b[i] }))
	b3 := NewSwitchBinary().SetNode(node).SetValue(on).Encode()
	g.Ensures("C13.binary setters can be chained in any order", len(b3) == 7 && g.Forall(0, 7, func(i int) bool { return b3[i] == b[i] }))
}

// spec_SwitchMultilevel: every node and every number.
//
//gvc:verify C13
//gvc:safety C13
//gvc:opt gen.v=genLevel
func spec_SwitchMultilevel(v, before float64, node int) {
	g.Requires(v == v && before == before) // a NaN is not a number
	c := NewSwitchMultilevel()
	c.SetValue(before)
	c.SetNode(node)
	c.SetValue(v)
	b := c.Encode()
	g.Ensures("C13.multilevel frame size", len(b) == 7)
	g.Ensures("C13.multilevel send-data to the low byte of the node", b[0] == 0x13 && b[1] == byte(node))
	g.Ensures("C13.multilevel command bytes", b[2] == 3 && b[3] == 0x26 && b[4] == 1)
	g.Ensures("C13.multilevel transmit options", b[6] == 0x25)
	l := b[5]
	g.Ensures("C13.level is 0..99", l <= 99)
	if v < 1 {
		g.Cover("C13.low")
		g.Ensures("C13.level zero below one", l == 0)
	} else if v > 99 {
		g.Cover("C13.high")
		g.Ensures("C13.level 99 above 99", l == 99)
	} else {
		g.Cover("C13.middle")
		f := float64(l)
		g.Ensures("C13.level is the integer part", f <= v && v < f+1)
	}
	b2 := NewSwitchMultilevel().SetValue(v).SetNode(node).Encode()
	g.Ensures("C13.multilevel setters can be chained", len(b2) == 7 && g.Forall(0, 7, func(i int) bool { return b2[i] == b[i] }))
}

func genLevel(r *g.Rand) float64 {
	switch r.Intn(4) {
	case 0:
		return float64(r.Intn(104)) - 2
	case 1:
		return float64(r.Intn(104)) - 2 + float64(r.Intn(100))/100
	case 2:
		return float64(r.Intn(3000000000)) - 1500000000
	}
	return []float64{0, 0.5, 0.99, 1, 98.99, 99, 99.5, 100, 255, 256, 257, -1, -255, 1e300, -1e300}[r.Intn(15)]
}

// The bytes that are being wrapped, what they were, and what the first encoding gave; the loop templates speak of them.
var wrapped struct {
	cmd   []byte
	in    []byte
	first []byte
	was   []byte
}

// A loop that copies the command behind the three bytes of the header.
func copiedUpTo(ret []byte, n int) bool {
	return len(ret) == 3+n && g.Forall(0, n, func(j int) bool { return ret[3+j] == wrapped.in[j] })
}
func inv_copied(ret []byte, i int) bool { return 0 <= i && i <= len(wrapped.in) && copiedUpTo(ret, i) }
func inv_copied1(ret []byte, i int) bool {
	return -1 <= i && i < len(wrapped.in) && copiedUpTo(ret, i+1)
}
func filledUpTo(ret []byte, n, off int) bool {
	return len(ret) == off+len(wrapped.in) && g.Forall(0, n, func(j int) bool { return ret[off+j] == wrapped.in[j] })
}
func inv_filled(ret []byte, i int) bool {
	return 0 <= i && i <= len(wrapped.in) && filledUpTo(ret, i, 3)
}
func inv_filled1(ret []byte, i int) bool {
	return -1 <= i && i < len(wrapped.in) && filledUpTo(ret, i+1, 3)
}
func inv_wrappedHeader(ret []byte) bool {
	return len(ret) >= 3 && ret[0] == 0x13 && ret[2] == byte(len(wrapped.in)+1)
}
func inv_wrappedNode(ret []byte, r Raw) bool   { return len(ret) >= 3 && ret[1] == byte(r.node) }
func inv_wrappedNodeP(ret []byte, r *Raw) bool { return len(ret) >= 3 && ret[1] == byte(r.node) }
func inv_ownBytes(ret []byte) bool {
	return (cap(wrapped.cmd) == 0 || !g.SameBacking(ret, wrapped.cmd)) && (len(wrapped.first) == 0 || !g.SameBacking(ret, wrapped.first)) &&
		(cap(wrapped.in) == 0 || !g.SameBacking(ret, wrapped.in)) && (len(wrapped.was) == 0 || !g.SameBacking(ret, wrapped.was))
}
func inv_wrappedSame(ret []byte) bool {
	return g.Forall(0, cap(wrapped.in), func(j int) bool { return wrapped.cmd[:cap(wrapped.cmd)][j] == wrapped.in[:cap(wrapped.in)][j] })
}
func inv_firstSame(ret []byte) bool {
	return len(wrapped.was) == len(wrapped.first) && g.Forall(0, len(wrapped.was), func(j int) bool { return wrapped.first[j] == wrapped.was[j] })
}
func inv_firstRaw(ret []byte) bool {
	return len(wrapped.first) == 0 || len(wrapped.first) == 3+len(wrapped.in) && g.Forall(0, len(wrapped.in), func(j int) bool { return wrapped.first[3+j] == wrapped.in[j] })
}
func inv_firstEncap(ret []byte) bool {
	return len(wrapped.first) == 0 || len(wrapped.first) == 4+len(wrapped.in) && g.Forall(3, len(wrapped.in), func(j int) bool { return wrapped.first[4+j] == wrapped.in[j] })
}
func inv_firstHeader(ret []byte) bool {
	return len(wrapped.first) < 7 || len(ret) >= 7 && g.Forall(0, 7, func(j int) bool { return ret[j] == wrapped.first[j] })
}
func inv_firstHeader3(ret []byte) bool {
	return len(wrapped.first) < 3 || len(ret) >= 3 && g.Forall(0, 3, func(j int) bool { return ret[j] == wrapped.first[j] })
}

// A second encoding gives the same bytes as the first.
func inv_asFirst(ret []byte) bool {
	return len(wrapped.first) == 0 || len(ret) <= len(wrapped.first) && g.Forall(0, len(ret), func(j int) bool { return ret[j] == wrapped.first[j] })
}

// The same behind the header of an encapsulation.
func inv_encapCopied(ret []byte, i int) bool {
	return 3 <= i && i <= len(wrapped.in) && len(ret) == 4+i && g.Forall(3, i, func(j int) bool { return ret[4+j] == wrapped.in[j] })
}
func inv_encapCopied1(ret []byte, i int) bool {
	return 2 <= i && i < len(wrapped.in) && len(ret) == 5+i && g.Forall(3, i+1, func(j int) bool { return ret[4+j] == wrapped.in[j] })
}
func inv_encapCopied3(ret []byte, i int) bool {
	return 0 <= i && i <= len(wrapped.in)-3 && len(ret) == 7+i && g.Forall(3, i+3, func(j int) bool { return ret[4+j] == wrapped.in[j] })
}
func inv_encapCopied4(ret []byte, i int) bool {
	return -1 <= i && i < len(wrapped.in)-3 && len(ret) == 8+i && g.Forall(3, i+4, func(j int) bool { return ret[4+j] == wrapped.in[j] })
}
func inv_encapFilled(ret []byte, i int) bool {
	return 3 <= i && i <= len(wrapped.in) && len(ret) == 4+len(wrapped.in) && g.Forall(3, i, func(j int) bool { return ret[4+j] == wrapped.in[j] })
}
func inv_encapFilled3(ret []byte, i int) bool {
	return 0 <= i && i <= len(wrapped.in)-3 && len(ret) == 4+len(wrapped.in) && g.Forall(3, i+3, func(j int) bool { return ret[4+j] == wrapped.in[j] })
}
func inv_encapFilled4(ret []byte, i int) bool {
	return -1 <= i && i < len(wrapped.in)-3 && len(ret) == 4+len(wrapped.in) && g.Forall(3, i+4, func(j int) bool { return ret[4+j] == wrapped.in[j] })
}
func inv_encapHeader(ret []byte) bool {
	return len(ret) >= 7 && len(wrapped.in) >= 3 && ret[0] == wrapped.in[0] && ret[1] == wrapped.in[1] && ret[2] == wrapped.in[2]+4 && ret[3] == 0x60 && ret[4] == 0x0d && ret[5] == 1
}
func inv_encapEndpoint(ret []byte, m *MultiChannelEncap) bool {
	return len(ret) >= 7 && ret[6] == byte(m.endpoint)
}

// spec_Raw: every command and node.
//
//gvc:verify C14
//gvc:safety C14
func spec_Raw(cmd []byte, node int) {
	in := g.Snapshot(cmd)
	wrapped.cmd, wrapped.in = cmd, in
	wrapped.first, wrapped.was = nil, nil
	r := NewRaw(cmd)
	r.SetNode(node)
	b := r.Encode()
	g.Ensures("C14.raw size", len(b) == 3+len(in))
	g.Ensures("C14.raw header", b[0] == 0x13 && b[1] == byte(node) && b[2] == byte(len(in)+1))
	g.Ensures("C14.raw command bytes unchanged and in order", g.Forall(0, len(in), func(i int) bool { return b[3+i] == in[i] }))
	g.Ensures("C14.raw leaves the wrapped bytes alone", g.Forall(0, cap(in), func(i int) bool { return cmd[:cap(cmd)][i] == in[:cap(in)][i] }))
	wrapped.first, wrapped.was = b, g.Snapshot(b)
	b2 := r.Encode()
	g.Ensures("C14.raw encodes the same again", len(b2) == len(b) && g.Forall(0, len(b), func(i int) bool { return b2[i] == b[i] }))
	g.Cover("C14.raw")
}

// spec_MultiChannelEncap: every wrapped command of at least three bytes and every endpoint number.
//
//gvc:verify C14
//gvc:safety C14
func spec_MultiChannelEncap(msg []byte, endpoint int) {
	g.Requires(len(msg) >= 3) // function, node and length are needed to wrap a command
	in := g.Snapshot(msg)
	wrapped.cmd, wrapped.in = msg, in
	wrapped.first, wrapped.was = nil, nil
	m := NewMultiChannelEncap(msg, endpoint)
	b := m.Encode()
	g.Ensures("C14.encapsulated size", len(b) == len(in)+4)
	g.Ensures("C14.function and node are kept, the length is raised by four", b[0] == in[0] && b[1] == in[1] && b[2] == in[2]+4)
	g.Ensures("C14.encapsulation header", b[3] == 0x60 && b[4] == 0x0d && b[5] == 1 && b[6] == byte(endpoint))
	g.Ensures("C14.the rest of the wrapped command", g.Forall(3, len(in), func(i int) bool { return b[4+i] == in[i] }))
	g.Ensures("C14.encapsulation leaves the wrapped bytes alone", g.Forall(0, cap(in), func(i int) bool { return msg[:cap(msg)][i] == in[:cap(in)][i] }))
	wrapped.first, wrapped.was = b, g.Snapshot(b)
	b2 := m.Encode()
	g.Ensures("C14.encapsulation encodes the same again", len(b2) == len(b) && g.Forall(0, len(b), func(i int) bool { return b2[i] == b[i] }))
	g.Cover("C14.encapsulated")
}
