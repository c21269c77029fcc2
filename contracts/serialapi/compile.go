package serialapi

import g "github.com/stampzilla/gozwave/gvcspec"

// spec_CompileMessage: for every payload of at most 253 bytes.
//
//gvc:verify C04
//gvc:terminates C04
//gvc:contract serialapi.CompileMessage
//gvc:uses serialapi.Decode serialapi.GenerateChecksum
//gvc:opt gen.data=genPayload
func spec_CompileMessage(data []byte) {
	g.Requires(len(data) <= 253)
	in := g.Snapshot(data)
	f := CompileMessage(data)
	g.Ensures("C04.the payload buffer is not modified", sameBytes(data, in))
	g.Ensures("C04.the frame's size is payload size plus four", len(f) == len(in)+4)
	g.Ensures("C04.start-of-frame, payload size plus two, request type", f[0] == 0x01 && int(f[1]) == len(in)+2 && f[2] == 0x00)
	g.Ensures("C04.the payload is carried unchanged and in order", g.Forall(0, len(in), func(i int) bool { return f[3+i] == in[i] }))
	g.Ensures("C04.the last byte is the checksum", f[len(f)-1] == ^rec_xor(f, 1, len(f)-1))
	g.Cover("C04.frame")
	n, _, _ := Decode(f)
	g.Ensures("C04.decoding the frame consumes exactly the whole frame", n == len(f))
}

func genPayload(r *g.Rand) []byte {
	b := r.Bytes([]int{0, 1, 2, 7, 8, 9, 31, 63, 127, 252, 253, r.Intn(254)}[r.Intn(12)])
	if len(b) > 4 && r.Intn(2) == 0 {
		b[0] = []byte{4, 2, 0x41, 0x13}[r.Intn(4)]
		b[3] = byte(r.Intn(8))
	}
	return b
}
