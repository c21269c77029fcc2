package serialapi

import g "github.com/stampzilla/gozwave/gvcspec"

// spec_NewDiscoverdNodes: for every bitmap.
//
//gvc:verify C07
//gvc:terminates C07
//gvc:opt gen.data=genBitmap
func spec_NewDiscoverdNodes(data []byte, node int) {
	in := g.Snapshot(data)
	d, err := NewDiscoverdNodes(data)
	g.Ensures("C07.the bitmap is left alone", sameBytes(data, in))
	if len(in) < 6 {
		g.Cover("C07.short bitmap")
		g.Ensures("C07.a bitmap shorter than six bytes is rejected", d == nil && err != nil)
		return
	}
	g.Ensures("C07.a bitmap of at least six bytes is accepted", d != nil && err == nil)
	g.Ensures("C07.there are 232 nodes", len(d.ActiveNodes) == 232)
	g.Requires(node >= 1 && node <= 232)
	k := node - 1
	g.Cover("C07.node")
	g.Ensures("C07.a node is active exactly when its bit is present and set", d.ActiveNodes[k] == (k/8 < len(in) && in[k/8]&(1<<uint(k%8)) != 0))
}

// loop invariants (k: bytes done, or index of the last byte done)
func bitsDone(data []byte, f *DiscoverdNodes, k int) bool {
	return f != nil && len(f.ActiveNodes) == 232 && k >= 0 && g.Forall(0, 232, func(n int) bool {
		return f.ActiveNodes[n] == (n/8 < k && n/8 < len(data) && data[n/8]&(1<<uint(n%8)) != 0)
	})
}
func inv_bitsDone(data []byte, f *DiscoverdNodes, k int) bool  { return bitsDone(data, f, k) }
func inv_bitsDone1(data []byte, f *DiscoverdNodes, k int) bool { return bitsDone(data, f, k+1) }

// the same, counting nodes instead of bytes
func nodesDone(data []byte, f *DiscoverdNodes, k int) bool {
	return f != nil && len(f.ActiveNodes) == 232 && k >= 0 && g.Forall(0, 232, func(n int) bool {
		return f.ActiveNodes[n] == (n < k && n/8 < len(data) && data[n/8]&(1<<uint(n%8)) != 0)
	})
}
func inv_nodesDone(data []byte, f *DiscoverdNodes, k int) bool  { return nodesDone(data, f, k) }
func inv_nodesDone1(data []byte, f *DiscoverdNodes, k int) bool { return nodesDone(data, f, k+1) }

func genBitmap(r *g.Rand) []byte {
	return r.Bytes([]int{5, 6, 7, 28, 29, 30, 35, r.Intn(40)}[r.Intn(8)])
}
