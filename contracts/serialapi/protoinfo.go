package serialapi

import g "github.com/stampzilla/gozwave/gvcspec"

// spec_NewGetNodeProtocolInfo: for every payload.
//
//gvc:verify C08
//gvc:terminates C08
//gvc:opt gen.data=genProto
func spec_NewGetNodeProtocolInfo(data []byte) {
	in := g.Snapshot(data)
	p, err := NewGetNodeProtocolInfo(data)
	g.Ensures("C08.the payload is left alone", sameBytes(data, in))
	if len(in) < 6 {
		g.Cover("C08.short payload")
		g.Ensures("C08.a shorter payload is rejected", p == nil && err != nil)
		return
	}
	g.Cover("C08.payload")
	g.Ensures("C08.a payload of at least six bytes is accepted", p != nil && err == nil)
	g.Ensures("C08.listening is bit 7 and routing bit 6 of byte 0", p.Listening == (in[0]>>7&1 == 1) && p.Routing == (in[0]>>6&1 == 1))
	g.Ensures("C08.version is the low three bits of byte 0 plus one", p.Version == in[0]&7+1)
	g.Ensures("C08.max baud is 40000 when bits 3..5 of byte 0 hold 2 and 9600 otherwise", p.MaxBaud == 40000 && in[0]>>3&7 == 2 || p.MaxBaud == 9600 && in[0]>>3&7 != 2)
	g.Ensures("C08.FLiRS is bit 5 or 6 of byte 1", p.Flirs == (in[1]>>5&3 != 0))
	g.Ensures("C08.beaming is bit 4 and security bit 0 of byte 1", p.Beaming == (in[1]>>4&1 == 1) && p.Security == (in[1]&1 == 1))
	g.Ensures("C08.basic, generic and specific class are bytes 3, 4 and 5", p.Basic == in[3] && p.Generic == in[4] && p.Specific == in[5])
}

func genProto(r *g.Rand) []byte { return r.Bytes(r.Intn(9)) }
