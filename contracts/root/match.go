package gozwave

import g "github.com/stampzilla/gozwave/gvcspec"

// hasByte: criterion b is 'any' or the frame has it at position i.
func hasByte(frame []byte, b byte, i int) bool {
	return b == 0 || i < len(frame) && frame[i] == b
}

// wants: the frame answers the request.
func wants(c *sendPackage, frame []byte) bool {
	if !hasByte(frame, c.function, 3) && !(c.function == 0x13 && hasByte(frame, 4, 3)) {
		return false
	}
	return c.function == 0x41 || hasByte(frame, c.node, 5) && hasByte(frame, c.commandclass, 7) && hasByte(frame, c.expectedReport, 8)
}

// spec_Match: every request and every received frame.
//
//gvc:verify C15
//gvc:safety C15
//gvc:locks C15
//gvc:contract (*gozwave.sendPackage).Match
//gvc:opt gen.incomming=genMatch gen.c=genPackage
func spec_Match(c *sendPackage, incomming []byte) {
	g.Requires(c != nil)
	in := g.Snapshot(incomming)
	before := *c
	ok := c.Match(incomming)
	want := wants(c, in)
	if want {
		g.Cover("C15.accepted")
	} else {
		g.Cover("C15.refused")
	}
	g.Ensures("C15.accepted exactly when every criterion is met", ok == want)
	g.Ensures("C15.matching changes neither the frame nor the request", len(in) == len(incomming) && g.Forall(0, len(in), func(i int) bool { return in[i] == incomming[i] }) &&
		c.function == before.function && c.node == before.node && c.commandclass == before.commandclass && c.expectedReport == before.expectedReport && c.uuid == before.uuid && c.returnChan == before.returnChan && c.timeout == before.timeout)
}

func genMatch(r *g.Rand) []byte {
	b := r.Bytes(r.Intn(12))
	for i := range b {
		b[i] = []byte{0, 1, 4, 0x13, 0x41, b[i]}[r.Intn(6)]
	}
	return b
}
func genPackage(r *g.Rand) *sendPackage {
	p := func() byte { return []byte{0, 0, 1, 4, 0x13, 0x41}[r.Intn(6)] }
	return &sendPackage{function: p(), node: p(), commandclass: p(), expectedReport: p()}
}
