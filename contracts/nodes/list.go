package nodes

import (
	"strconv"

	g "github.com/stampzilla/gozwave/gvcspec"
)

// li is the ghost state around one holding of the list's lock.
var li struct {
	before map[int]*Node // the list when the lock was taken
	held   int           // how often it was taken
}

// sharedList: other goroutines may add nodes whenever the lock is free.
func sharedList(l *List, unlock func()) {
	g.Publish(l)
	li.held = 0
	g.OnLock(&l.RWMutex, func() {
		g.Havoc(&l.nodes)
		g.HavocMap(l.nodes)
		g.Assume(g.ForallKeys(l.nodes, func(k int, n *Node) bool { return n != nil }))
		li.before = g.MapSnapshot(l.nodes)
		li.held++
	})
	g.OnUnlock(&l.RWMutex, unlock)
}

// unchanged: the list is as it was when the lock was taken.
func unchanged(l *List) bool {
	return sameNodes(l.nodes, li.before)
}

func sameNodes(a, b map[int]*Node) bool {
	return g.ForallKeys(a, func(k int, n *Node) bool { m, in := b[k]; return in && m == n }) &&
		g.ForallKeys(b, func(k int, n *Node) bool { m, in := a[k]; return in && m == n })
}

// spec_List_Get: every list, every id.
//
//gvc:verify C28
//gvc:safety C28
//gvc:locks C27 C28
//gvc:guard C28 List.nodes by List.RWMutex
//gvc:nonative
func spec_List_Get(l *List, id int) {
	g.Requires(l != nil)
	sharedList(l, func() {
		g.Ensures("C28.looking up changes nothing", unchanged(l))
	})
	n := l.Get(id)
	g.Ensures("C28.the list is read once, under its lock", li.held == 1)
	if want, in := li.before[id]; in {
		g.Cover("C28.found")
		g.Ensures("C28.the node with that id is found", n == want)
	} else {
		g.Cover("C28.not found")
		g.Ensures("C28.nothing is found for an id that is not in the list", n == nil)
	}
}

// loop invariant: the copy holds the nodes handed out so far
func inv_copied(l *List, all map[int]*Node) bool {
	return !g.SameMap(all, l.nodes) && g.ForallKeys(all, func(k int, n *Node) bool { m, in := li.before[k]; return in && m == n && g.Visited(l.nodes, k) }) &&
		g.ForallKeys(li.before, func(k int, n *Node) bool { m, in := all[k]; return !g.Visited(l.nodes, k) || in && m == n })
}
func inv_unchanged(l *List) bool { return unchanged(l) }

// spec_List_All: every list.
//
//gvc:verify C28
//gvc:safety C28
//gvc:terminates C28
//gvc:locks C27 C28
//gvc:guard C28 List.nodes by List.RWMutex
//gvc:nonative
func spec_List_All(l *List) {
	g.Requires(l != nil)
	sharedList(l, func() {
		g.Ensures("C28.a snapshot changes nothing", unchanged(l))
	})
	all := l.All()
	g.Ensures("C28.the list is read once, under its lock", li.held == 1)
	g.Ensures("C28.a snapshot holds exactly the nodes of the list", sameNodes(all, li.before))
	g.Ensures("C28.a snapshot is not the list itself", g.IsFresh(all) && !g.SameMap(all, l.nodes))
}

// loop invariants of Add: the endpoints done so far refer to the node
func refersTo(n *Node, i int) bool {
	return i >= 0 && i <= len(n.Endpoints) && g.Forall(0, i, func(j int) bool { e := n.Endpoints[j]; return e == nil || e.node == n })
}
func inv_refersTo(node *Node, i int) bool  { return refersTo(node, i) }
func inv_refersTo1(node *Node, i int) bool { return refersTo(node, i+1) }

// spec_List_Add: every list, every node.
//
//gvc:verify C28
//gvc:safety C28
//gvc:terminates C28
//gvc:locks C27 C28
//gvc:guard C28 List.nodes by List.RWMutex
//gvc:nonative
func spec_List_Add(l *List, node *Node) {
	g.Requires(l != nil && node != nil)
	id := node.Id
	added := false
	sharedList(l, func() {
		m, in := l.nodes[id]
		if in && m == node {
			added = true
		}
		g.Ensures("C28.no other id is affected", g.ForallKeys(l.nodes, func(k int, n *Node) bool {
			m, in := li.before[k]
			return k == id || in && m == n
		}) && g.ForallKeys(li.before, func(k int, n *Node) bool {
			m, in := l.nodes[k]
			return k == id || in && m == n
		}))
		g.Ensures("C28.each endpoint of an added node refers to it", !added || refersTo(node, len(node.Endpoints)))
	})
	l.Add(node)
	g.Ensures("C28.the added node is found by its id", added && node.Id == id)
}

// json is the ghost record of what is marshalled.
var json struct {
	n      int
	result []byte
	err    error

	node *Node // the node that is saved
	file map[string]*Node
}

//gvc:model encoding/json.Marshal
func modelMarshal(v any) ([]byte, error) {
	json.n++
	json.result = g.Any[[]byte]("json")
	json.err = g.Any[error]("marshal error")
	if json.node != nil {
		_, again := v.(*Node)
		g.Ensures("C32.the node itself is saved, under its lock", g.PointsTo(v, json.node) && !again && g.Held(&json.node.RWMutex))
	}
	if s, ok := v.(map[string]*Node); ok {
		g.Ensures("C28.exactly the nodes of the list are marshalled, under their ids", g.ForallKeys(li.before, func(k int, n *Node) bool {
			m, in := s[strconv.Itoa(k)]
			return in && m == n
		}) && g.ForallKeys(s, func(k string, n *Node) bool {
			return g.ExistsVal(func(i int) bool { m, in := li.before[i]; return in && m == n && strconv.Itoa(i) == k })
		}))
	}
	return json.result, json.err
}

// loop invariant of MarshalJSON: the nodes handed out so far are in the map
func inv_listed(all map[int]*Node, s map[string]*Node) bool {
	return g.ForallKeys(all, func(k int, n *Node) bool {
		m, in := s[strconv.Itoa(k)]
		return !g.Visited(all, k) || in && m == n
	}) && g.ForallKeys(s, func(k string, n *Node) bool {
		return g.ExistsVal(func(i int) bool { m, in := all[i]; return in && m == n && strconv.Itoa(i) == k })
	})
}

// spec_NewList: a new list is empty and usable.
//
//gvc:verify C28
func spec_NewList() {
	l := NewList()
	g.Ensures("C28.a new list is empty", l != nil && len(l.nodes) == 0)
}

// spec_List_MarshalJSON: every list.
//
//gvc:verify C28
//gvc:safety C28
//gvc:locks C27 C28
//gvc:guard C28 List.nodes by List.RWMutex
//gvc:nonative
func spec_List_MarshalJSON(l *List) {
	g.Requires(l != nil)
	sharedList(l, func() {
		g.Ensures("C28.saving changes nothing", unchanged(l))
	})
	json.n, json.node = 0, nil
	b, err := l.MarshalJSON()
	g.Ensures("C28.the list is read once, under its lock", li.held == 1)
	g.Ensures("C28.what was marshalled is returned", json.n == 1 && err == json.err && len(b) == len(json.result))
}

// spec_Node_MarshalJSON: every node.
//
//gvc:verify C32
//gvc:safety C32
//gvc:locks C27 C32
//gvc:nonative
func spec_Node_MarshalJSON(n *Node) {
	g.Requires(n != nil)
	json.n, json.node = 0, n
	b, err := n.MarshalJSON()
	g.Ensures("C32.the encoding of the node is returned", json.n == 1 && err == json.err && len(b) == len(json.result))
}

//gvc:model encoding/json.Unmarshal
func modelUnmarshal(data []byte, v any) error {
	err := g.Any[error]("decoding error")
	m := g.Any[map[string]*Node]("decoded")
	p, ok := v.(*map[string]*Node)
	g.Ensures("C32.the nodes of a list are decoded", ok && p != nil)
	*p = m
	json.n++
	json.err = err
	json.file = g.MapSnapshot(m)
	return err
}

// usable: a node of a list that can be worked with.
func usable(k int, n *Node) bool {
	return n != nil && n.Id == k && n.StateBool != nil && n.StateFloat != nil
}

// loop invariants of UnmarshalJSON
func inv_usable(l *List) bool {
	return g.ForallKeys(l.nodes, func(k int, n *Node) bool { return usable(k, n) })
}
func inv_decoded(l *List, s map[string]*Node) bool {
	return g.ForallKeys(json.file, func(k string, n *Node) bool { return !g.Visited(s, k) || n == nil || hasNode(l, n.Id) })
}
func inv_decodedSame(s map[string]*Node) bool {
	return !g.SameMap(s, json.file) && g.ForallKeys(s, func(k string, n *Node) bool { m, in := json.file[k]; return in && m == n }) &&
		g.ForallKeys(json.file, func(k string, n *Node) bool { m, in := s[k]; return in && m == n })
}
func hasNode(l *List, id int) bool { _, in := l.nodes[id]; return in }

// spec_List_UnmarshalJSON: every content of the file, complete or not.
//
//gvc:verify C32
//gvc:safety C32
//gvc:terminates C32
//gvc:locks C27
//gvc:nonative
func spec_List_UnmarshalJSON(data []byte) {
	l := &List{}
	json.n, json.node = 0, nil
	err := l.UnmarshalJSON(data)
	if err != nil {
		g.Cover("C32.malformed")
		g.Ensures("C32.what cannot be decoded is an error", json.err == err && len(l.nodes) == 0)
		return
	}
	g.Cover("C32.decoded")
	g.Ensures("C32.what cannot be decoded is an error", json.n == 1 && json.err == nil)
	g.Ensures("C32.every node of the list can be worked with", g.ForallKeys(l.nodes, func(k int, n *Node) bool { return usable(k, n) }))
	g.Ensures("C32.every node of the file is in the list", g.ForallKeys(json.file, func(k string, n *Node) bool { return n == nil || hasNode(l, n.Id) }))
}
