package gozwave

import (
	"encoding/json"
	"io"
	"io/fs"
	"os"

	"github.com/stampzilla/gozwave/nodes"

	g "github.com/stampzilla/gozwave/gvcspec"
)

// fsys is the ghost file system: what a crash at this moment would leave behind.
var fsys struct {
	c      *Controller
	name   string            // the configuration file
	files  map[string]*inode // the files that were looked at, by name
	open   map[*os.File]*handle
	old    []byte // the configuration at the beginning
	hadOld bool
	next   []byte // the one to be saved
	ready  bool   // its encoding has succeeded
	opened *os.File
}

type inode struct {
	data   []byte
	synced bool // the content is on the disk
}
type handle struct {
	node   *inode
	name   string
	pos    int
	closed bool
}

// intact: the configuration file is the complete old or the complete new one.
func intact() bool {
	n := fsys.files[fsys.name]
	if n == nil {
		return !fsys.hadOld
	}
	return fsys.hadOld && equalBytes(n.data, fsys.old) || fsys.ready && n.synced && equalBytes(n.data, fsys.next)
}

func changed() {
	g.Ensures("C32.the configuration file is complete at every moment", intact())
	g.Ensures("C32.there is one save at a time", g.NLocks() > 0)
}

// find is the file with that name; other files than the configuration may have been left behind by earlier saves.
func find(name string) *inode {
	n, in := fsys.files[name]
	if !in && name != fsys.name && g.Any[bool]("left behind") {
		n = &inode{g.Snapshot(g.Any[[]byte]("left behind")), true}
		fsys.files[name] = n
	}
	return n
}

func openFile(name string, create, trunc, app bool) (*os.File, error) {
	err := g.Any[error]("open error")
	if err != nil {
		return nil, err
	}
	n := find(name)
	if n == nil {
		if !create {
			return nil, fs.ErrNotExist
		}
		n = &inode{nil, false}
		fsys.files[name] = n
		changed()
	} else if trunc {
		n.data, n.synced = nil, false
		changed()
	}
	f := &os.File{}
	pos := 0
	if app {
		pos = len(n.data)
	}
	fsys.open[f] = &handle{n, name, pos, false}
	return f, nil
}

func handleOf(f *os.File) *handle {
	h := fsys.open[f]
	g.Ensures("C32.only open files are used", h != nil && !h.closed)
	return h
}

//gvc:model os.Create
func modelCreate(name string) (*os.File, error) { return openFile(name, true, true, false) }

//gvc:model os.OpenFile
func modelOpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	return openFile(name, flag&os.O_CREATE != 0, flag&os.O_TRUNC != 0, flag&os.O_APPEND != 0)
}

//gvc:model os.Open
func modelOpen(name string) (*os.File, error) { return openFile(name, false, false, false) }

//gvc:model os.CreateTemp
func modelCreateTemp(dir, pattern string) (*os.File, error) {
	name := g.Any[string]("temporary name")
	_, in := fsys.files[name]
	g.Assume(!in && name != fsys.name)
	fsys.files[name] = nil
	return openFile(name, true, true, false)
}

//gvc:model (*os.File).Name
func modelName(f *os.File) string { return handleOf(f).name }

//gvc:model (*os.File).Write
func modelWrite(f *os.File, b []byte) (int, error) {
	h := handleOf(f)
	n := len(b)
	err := g.Any[error]("file error")
	if err != nil {
		n = g.Any[int]("written")
		g.Assume(n >= 0 && n <= len(b))
	}
	size := len(h.node.data)
	if h.pos+n > size {
		size = h.pos + n
	}
	data := make([]byte, size)
	copy(data, h.node.data)
	copy(data[h.pos:], b[:n])
	h.node.data, h.node.synced = data, false
	h.pos += n
	changed()
	return n, err
}

//gvc:model (*os.File).WriteString
func modelWriteString(f *os.File, s string) (int, error) { return modelWrite(f, []byte(s)) }

//gvc:model (*os.File).Sync
func modelSync(f *os.File) error {
	h := handleOf(f)
	err := g.Any[error]("sync error")
	h.node.synced = err == nil
	return err
}

//gvc:model (*os.File).Close
func modelClose(f *os.File) error {
	if h := fsys.open[f]; h != nil {
		h.closed = true
	}
	return g.Any[error]("close error")
}

//gvc:model (*os.File).Truncate
func modelTruncate(f *os.File, size int64) error {
	h := handleOf(f)
	if g.Any[bool]("truncated") {
		data := make([]byte, size)
		copy(data, h.node.data)
		h.node.data, h.node.synced = data, false
		changed()
		return nil
	}
	return g.Any[error]("truncate error")
}

//gvc:model os.Truncate
func modelTruncateName(name string, size int64) error {
	f, err := openFile(name, false, false, false)
	if err != nil {
		return err
	}
	return modelTruncate(f, size)
}

//gvc:model os.WriteFile
func modelWriteFile(name string, b []byte, perm os.FileMode) error {
	f, err := openFile(name, true, true, false)
	if err != nil {
		return err
	}
	_, err = modelWrite(f, b)
	return err
}

//gvc:model os.ReadFile
func modelReadFile(name string) ([]byte, error) {
	err := g.Any[error]("read error")
	n := find(name)
	if err != nil {
		return nil, err
	}
	if n == nil {
		return nil, fs.ErrNotExist
	}
	return g.Snapshot(n.data), nil
}

//gvc:model os.Rename
func modelRename(from, to string) error {
	n := find(from)
	err := g.Any[error]("rename error")
	if n == nil {
		g.Assume(err != nil)
	}
	if err == nil || n != nil && g.Any[bool]("renamed") {
		delete(fsys.files, from)
		fsys.files[to] = n
		if from != fsys.name {
			fsys.files[from] = nil
		}
		changed()
	}
	return err
}

//gvc:model os.Remove
func modelRemove(name string) error {
	if find(name) == nil || g.Any[bool]("not removed") {
		return fs.ErrNotExist
	}
	delete(fsys.files, name)
	if name != fsys.name {
		fsys.files[name] = nil
	}
	changed()
	return nil
}

//gvc:model encoding/json.MarshalIndent
func modelMarshalIndent(v any, prefix, indent string) ([]byte, error) { return marshalConfig(v) }

//gvc:model encoding/json.Marshal
func modelMarshal(v any) ([]byte, error) { return marshalConfig(v) }

func marshalConfig(v any) ([]byte, error) {
	c, ok := v.(*Controller)
	g.Ensures("C32.the configuration that is saved is the controller's", ok && c == fsys.c)
	err := g.Any[error]("encoding error")
	b := g.Any[[]byte]("encoded")
	if err != nil {
		return b, err
	}
	fsys.next, fsys.ready = g.Snapshot(b), true
	return b, nil
}

func beginFiles(c *Controller, had bool, old []byte) {
	g.Requires(c != nil && c.filename != "")
	fsys.c, fsys.name, fsys.hadOld, fsys.ready = c, c.filename, had, false
	fsys.files = map[string]*inode{}
	fsys.open = map[*os.File]*handle{}
	if had {
		fsys.old = g.Snapshot(old)
		fsys.files[fsys.name] = &inode{g.Snapshot(old), true}
	}
}

// spec_Save: every old and new configuration, every failure and every moment of interruption.
//
//gvc:verify C32
//gvc:safety C32
//gvc:locks C27
//gvc:terminates C32
//gvc:opt nomodel=modelSave
//gvc:nonative
func spec_Save(c *Controller, old []byte, had bool) {
	beginFiles(c, had, old)
	err := c.SaveConfigurationToFile()
	if err == nil {
		g.Cover("C32.saved")
		n := fsys.files[fsys.name]
		g.Ensures("C32.a save that succeeds leaves the new configuration", n != nil && fsys.ready && equalBytes(n.data, fsys.next))
	} else {
		g.Cover("C32.not saved")
	}
	g.Ensures("C32.the configuration file is complete at every moment", intact())
	g.Ensures("C27.no lock is held at the end", g.NLocks() == 0)
}

// ld is the ghost state of loading.
var ld struct {
	decoders int
	file     *os.File
	decoded  *Controller
	err      error
	list     map[int]*nodes.Node // the nodes of the file, by id
	all      map[int]*nodes.Node // the copy that was handed out
}

//gvc:model encoding/json.NewDecoder
func modelNewDecoder(r io.Reader) *json.Decoder {
	f, ok := r.(*os.File)
	g.Ensures("C32.the configuration file is what is decoded", ok && fsys.open[f] != nil && fsys.open[f].name == fsys.name && ld.decoders == 0)
	ld.decoders++
	return &json.Decoder{}
}

//gvc:model (*encoding/json.Decoder).Decode
func modelJSONDecode(d *json.Decoder, v any) error {
	if p, ok := v.(**Controller); ok {
		*p = g.Any[*Controller]("decoded")
		ld.decoded = *p
		ld.err = g.Any[error]("decoding error")
		return ld.err
	}
	p, ok := v.(*Controller)
	g.Ensures("C32.a configuration is decoded", ok && p != nil)
	g.Havoc(&p.Nodes)
	ld.decoded = p
	ld.err = g.Any[error]("decoding error")
	return ld.err
}

//gvc:model (*github.com/stampzilla/gozwave/nodes.List).All
func modelListAll(l *nodes.List) map[int]*nodes.Node {
	g.Ensures("C32.the nodes of the file are loaded", ld.decoded != nil && l == ld.decoded.Nodes && ld.err == nil)
	ld.all = g.MapSnapshot(ld.list)
	return ld.all
}

// loaded: the node of the file with that id has been set up, added and announced.
func loaded(id int) bool {
	n, in := ld.list[id]
	if !in {
		return untouchedNode(id)
	}
	return cl.list[id] == n && cl.setup[id] == 1 && cl.announced[id] == 1
}

// loop invariants of loading
func inv_loaded() bool {
	return g.ForallVal(func(id int) bool { return !g.Visited(ld.all, id) || loaded(id) })
}
func inv_notLoaded() bool {
	return g.ForallVal(func(id int) bool { return g.Visited(ld.all, id) || untouchedNode(id) })
}
func inv_notLoadedSetup() bool {
	return g.ForallVal(func(id int) bool { return g.Visited(ld.all, id) || cl.setup[id] == 0 })
}

// spec_Load: every file, every list of nodes before and in the file.
//
//gvc:verify C29 C32
//gvc:safety C32
//gvc:locks C27
//gvc:terminates C32
//gvc:opt nomodel=modelLoad
//gvc:nonative
func spec_Load(c *Controller, list, file map[int]*nodes.Node, had bool, data []byte) {
	beginController(c, list)
	beginFiles(c, had, data)
	g.Requires(g.ForallKeys(file, func(k int, n *nodes.Node) bool { return n != nil && n.Id == k }))
	ld.list, ld.decoders, ld.decoded, ld.err = g.MapSnapshot(file), 0, nil, nil
	err := c.LoadConfigurationFromFile()
	g.Ensures("C32.the configuration file is complete at every moment", intact())
	if err == nil {
		g.Cover("C32.loaded")
		g.Ensures("C32.a file that can not be read or decoded, or has no nodes, is an error", ld.decoders == 1 && ld.err == nil && ld.decoded != nil && ld.decoded.Nodes != nil)
		g.Ensures("C32.every node of the file is set up, added and announced", g.ForallVal(func(id int) bool { return loaded(id) }))
	} else {
		g.Cover("C32.not loaded")
		g.Ensures("C32.a file that can be decoded is loaded", ld.decoders == 0 || ld.err != nil || ld.decoded == nil || ld.decoded.Nodes == nil)
		g.Ensures("C32.nothing is loaded from a file that is not complete", g.ForallVal(func(id int) bool { return untouchedNode(id) }))
	}
}
