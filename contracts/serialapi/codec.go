package serialapi

import g "github.com/stampzilla/gozwave/gvcspec"

// rec_xor is the XOR of s[lo:hi].
func rec_xor(s []byte, lo, hi int) byte {
	if hi <= lo {
		return 0
	}
	return rec_xor(s, lo, hi-1) ^ s[hi-1]
}

// inv_xorUp: a byte variable accumulates the XOR of a prefix of a slice.
func inv_xorUp(data []byte, ret byte, i int) bool {
	return i >= 0 && i <= len(data) && ret == rec_xor(data, 0, i)
}
func inv_xorUp1(data []byte, ret byte, i int) bool {
	return i >= -1 && i < len(data) && ret == rec_xor(data, 0, i+1)
}

func inv_xorUp2(data []byte, ret byte, i int) bool {
	return i >= -1 && i < len(data)-1 && ret == rec_xor(data, 0, i+2)
}

// (its complement)
func inv_notXorUp(data []byte, ret byte, i int) bool {
	return i >= 0 && i <= len(data) && ret == ^rec_xor(data, 0, i)
}
func inv_notXorUp1(data []byte, ret byte, i int) bool {
	return i >= -1 && i < len(data) && ret == ^rec_xor(data, 0, i+1)
}
func inv_notXorUp2(data []byte, ret byte, i int) bool {
	return i >= -1 && i < len(data)-1 && ret == ^rec_xor(data, 0, i+2)
}

// completeFrame: a whole start-of-frame frame is at the beginning of the buffer.
func completeFrame(b []byte) bool {
	return len(b) >= 2 && b[0] == 0x01 && len(b) >= int(b[1])+2
}

// rightChecksum presumes completeFrame.
func rightChecksum(b []byte) bool {
	return b[int(b[1])+1] == ^rec_xor(b, 1, int(b[1])+1)
}

//gvc:verify C02
//gvc:terminates C02
//gvc:contract serialapi.GenerateChecksum
func spec_GenerateChecksum(data []byte) {
	g.Requires(len(data) > 0)
	in := g.Snapshot(data)
	r := GenerateChecksum(data)
	if len(in) > 1 {
		g.Ensures("C02.the checksum is the complement of the XOR of all bytes but the last", r == ^rec_xor(in, 0, len(in)-1))
	}
	if len(in) == 1 && in[0] == 0 {
		g.Ensures("C02.the checksum of nothing is 0xFF", r == 0xff)
	}
	g.Ensures("C02.computing the checksum leaves the bytes alone", sameBytes(data, in))
}

// sameBytes compares the whole memory behind two slices, up to their capacity.
func sameBytes(a, b []byte) bool {
	return len(a) == len(b) && cap(a) == cap(b) && g.Forall(0, cap(a), func(i int) bool { return a[:cap(a)][i] == b[:cap(b)][i] })
}

// spec_Decode: for every non-empty buffer.
//
//gvc:verify C01 C02 C03 C05
//gvc:safety C01
//gvc:terminates C01
//gvc:contract serialapi.Decode
//gvc:uses serialapi.GenerateChecksum
//gvc:opt gen.data=genFrames
func spec_Decode(data []byte) {
	g.Requires(len(data) > 0)
	in := g.Snapshot(data)
	n, m, err := Decode(data)
	g.Ensures("C01.the answer is 'drop one byte' or a size of at least one byte", n == -1 || n >= 1)
	g.Ensures("C03.the buffer is left alone, including its unused capacity", sameBytes(data, in))
	switch {
	case in[0] == 0x01 && len(in) < 2:
		g.Cover("C02.lone start byte")
		g.Ensures("C02.a lone start byte is an incomplete frame", n >= 2 && m == nil && err == nil)
	case in[0] == 0x01 && !completeFrame(in):
		g.Cover("C02.incomplete frame")
		g.Ensures("C02.an incomplete frame is answered with its announced total size and no message", n == int(in[1])+2 && n > len(in) && m == nil && err == nil)
	case in[0] == 0x01 && !rightChecksum(in):
		g.Cover("C02.wrong checksum")
		g.Ensures("C02.a complete frame with a wrong checksum is answered with 'drop one byte' and an error", n == -1 && m == nil && err != nil)
	case in[0] == 0x01:
		g.Cover("C02.complete frame")
		g.Ensures("C02.a complete frame with the right checksum is consumed as a whole", n == int(in[1])+2 && n <= len(in))
		g.Ensures("C02.a complete frame yields a message or an error", (m != nil) != (err != nil))
		if m != nil {
			g.Cover("C02.message")
			g.Ensures("C05.a frame's message is not an ACK, NAK or CAN", !m.IsACK() && !m.IsNAK() && !m.IsCAN())
			if f, ok := m.Data.(*FuncApplicationCommandHandler); ok {
				g.Ensures("C01.a decoded application command is not a nil pointer", f != nil)
			}
		}
	case in[0] == 0x06 || in[0] == 0x15 || in[0] == 0x18:
		g.Cover("C05.control byte")
		g.Ensures("C05.a control byte is a message of one byte", n == 1 && m != nil && err == nil)
		if m != nil {
			g.Ensures("C05.it has no content", m.Data == nil)
			g.Ensures("C05.it is recognised as exactly its own kind", m.IsACK() == (in[0] == 0x06) && m.IsNAK() == (in[0] == 0x15) && m.IsCAN() == (in[0] == 0x18))
		}
	default:
		g.Cover("C05.noise")
		g.Ensures("C05.any other byte is answered with 'drop one byte' and no message", n == -1 && m == nil)
	}
}

// spec_Decode_sizes is what the receiver needs to know: sizes and kinds, without the checksum.
//
//gvc:verify C18 C19
//gvc:safety none
//gvc:contract serialapi.Decode
//gvc:uses serialapi.Decode
//gvc:opt weaker gen.data=genFrames
func spec_Decode_sizes(data []byte) {
	g.Requires(len(data) > 0)
	first := data[0]
	length := len(data)
	n, m, err := Decode(data)
	g.Ensures("C18.the answer is 'drop one byte' or a size", n == -1 || n >= 1)
	g.Ensures("C18.size one means a control byte", (n == 1) == (first == 0x06 || first == 0x15 || first == 0x18))
	if n == 1 {
		g.Ensures("C18.a control byte has a message, without content", m != nil && err == nil && m.Data == nil)
		if m != nil {
			g.Ensures("C18.its kind is the byte's", m.IsACK() == (first == 0x06) && m.IsNAK() == (first == 0x15) && m.IsCAN() == (first == 0x18))
		}
	}
	if n == -1 || n > length {
		g.Ensures("C18.without a complete message there is none", m == nil)
	}
	if n == -1 && first == 0x01 {
		g.Ensures("C18.a wrong checksum is an error", err != nil)
	}
	if n > 1 && n <= length {
		g.Ensures("C18.a complete frame yields a message or an error", (m != nil) != (err != nil))
		if m != nil {
			if f, ok := m.Data.(*FuncApplicationCommandHandler); ok {
				g.Ensures("C18.a decoded application command is there", f != nil)
			}
		}
	}
}

// spec_Decode_corrupt: a valid frame with exactly one payload or checksum byte changed.
//
//gvc:verify C02
//gvc:safety none
//gvc:uses serialapi.Decode
//gvc:opt gen.data=genFrames
func spec_Decode_corrupt(data []byte, k int, x byte) {
	g.Requires(completeFrame(data) && rightChecksum(data))
	l := int(data[1])
	g.Requires(k >= 2 && k <= l+1 && x != data[k])
	g.Cover("C02.corrupted byte")
	before := g.Snapshot(data)
	data[k] = x
	lemmaXor(data, before, k, l+1)
	n, m, err := Decode(data)
	g.Ensures("C02.changing a single payload or checksum byte always makes the frame rejected", n == -1 && m == nil && err != nil)
}

// lemmaXor: changing the byte at k changes the XOR of the range by exactly the difference (induction).
func lemmaXor(now, before []byte, k, hi int) {
	for i := 1; i < hi; i++ {
		_ = rec_xor(now, 1, i+1)
	}
}
func inv_lemmaXor(now, before []byte, k, i int) bool {
	if i < 1 {
		return false
	}
	d := rec_xor(now, 1, i) ^ rec_xor(before, 1, i)
	if k >= i {
		return d == 0
	}
	return d == now[k]^before[k]
}

func genFrames(r *g.Rand) []byte {
	b := r.Bytes(1 + r.Intn(14))
	if r.Intn(4) > 0 {
		b[0] = []byte{1, 1, 1, 1, 6, 0x15, 0x18}[r.Intn(7)]
	}
	if b[0] == 1 && len(b) >= 2 && r.Intn(5) > 0 {
		b[1] = byte(r.Intn(len(b)))
		if len(b) > 3 && r.Intn(3) > 0 {
			b[3] = []byte{4, 2, 0x41, 0x13}[r.Intn(4)]
		}
		if len(b) > 6 && r.Intn(3) > 0 {
			b[6] = byte(r.Intn(8))
		}
		if completeFrame(b) && r.Intn(6) > 0 {
			b[int(b[1])+1] = ^rec_xor(b, 1, int(b[1])+1)
		}
	}
	return b
}
