package serialapi

import g "github.com/stampzilla/gozwave/gvcspec"

// spec_Decode_firstFrame: the same frame alone, and followed by anything (in the buffer or behind it).
//
//gvc:verify C03
//gvc:safety none
//gvc:uses serialapi.GenerateChecksum
//gvc:opt gen.data=genFrames
func spec_Decode_firstFrame(data []byte) {
	g.Requires(len(data) > 0)
	n := 1
	if data[0] == 0x01 {
		g.Requires(completeFrame(data))
		n = int(data[1]) + 2
	}
	na, ma, ea := Decode(data[:n:n])
	nb, mb, eb := Decode(data)
	g.Cover("C03.same first frame")
	g.Ensures("C03.the answer depends on the first frame alone", na == nb && (ea == nil) == (eb == nil) && (ma == nil) == (mb == nil))
	if ma != nil && mb != nil {
		g.Cover("C03.message")
		g.Ensures("C03.bytes behind the first frame never reach the message", g.DeepEqual(ma, mb))
	}
}
