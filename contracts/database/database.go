package database

import (
	"fmt"
	"strings"

	g "github.com/stampzilla/gozwave/gvcspec"
)

// spec_New: every manufacturer, type and product id.
//
//gvc:verify C30
//gvc:safety C30
//gvc:opt splitall
func spec_New(manufacturer, kind, product uint16) {
	m, k, p := fmt.Sprintf("%04x", manufacturer), fmt.Sprintf("%04x", kind), fmt.Sprintf("%04x", product)
	d := New(m, k, p)
	if d == nil {
		g.Cover("C30.unknown")
		return
	}
	g.Cover("C30.known")
	g.Ensures("C30.the device that was asked for is returned", strings.ToLower(d.ManufacturerID) == m && strings.ToLower(d.ProductType) == k && strings.ToLower(d.ProductID) == p)
}

// spec_EveryDevice: every device of the database.
//
//gvc:verify C30
//gvc:safety C30
//gvc:opt splitall
func spec_EveryDevice() {
	g.EachFunc(func(f func() *Device) {
		d := f()
		g.Cover("C30.device")
		e := New(strings.ToLower(d.ManufacturerID), strings.ToLower(d.ProductType), strings.ToLower(d.ProductID))
		g.Ensures("C30.every device is found by its ids", e != nil && e.Brand == d.Brand && e.Product == d.Product && e.Description == d.Description && e.ManufacturerID == d.ManufacturerID && e.ProductType == d.ProductType && e.ProductID == d.ProductID &&
			len(e.CommandClasses) == len(d.CommandClasses) && len(e.Parameters) == len(d.Parameters))
	})
}

// spec_GetMandatoryCommandClasses: every set of definitions, every pair of classes.
//
//gvc:verify C31
//gvc:safety C31
//gvc:terminates C31
func spec_GetMandatoryCommandClasses(defs map[Definition][]*CommandClass, generic, specific byte) {
	definitions = defs
	before := g.MapSnapshot(defs)
	r := GetMandatoryCommandClasses(generic, specific)
	want, in := before[Definition{Generic: generic, Specific: specific}]
	if in {
		g.Cover("C31.defined")
		g.Ensures("C31.the classes of that pair are returned, in full", sameClasses(r, want))
	} else {
		g.Cover("C31.not defined")
		g.Ensures("C31.nothing is returned for a pair without definition", r == nil)
	}
	g.Ensures("C31.asking changes no definition", g.ForallKeys(definitions, func(k Definition, v []*CommandClass) bool { w, in := before[k]; return in && sameSlice(v, w) }) &&
		g.ForallKeys(before, func(k Definition, v []*CommandClass) bool { _, in := definitions[k]; return in }))
}

func sameClasses(a, b []*CommandClass) bool {
	return (a == nil) == (b == nil) && len(a) == len(b) && g.Forall(0, len(a), func(i int) bool { return a[i] == b[i] })
}
func sameSlice(a, b []*CommandClass) bool { return sameClasses(a, b) }

// loop invariant of the search: the classes looked at are others
func inv_otherClasses(generic, specific byte) bool {
	return g.ForallKeys(definitions, func(k Definition, v []*CommandClass) bool {
		return !g.Visited(definitions, k) || k.Generic != generic || k.Specific != specific
	})
}
