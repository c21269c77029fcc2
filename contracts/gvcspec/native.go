package gvcspec

import (
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unsafe"
)

type skip struct{}
type failure struct{ id string }

type run struct {
	r    *rand.Rand
	prop string
	seed map[string]any
	used map[string]any
}

var cur *run

func fail(id string) {
	p := id
	if i := strings.Index(p, "."); i >= 0 {
		p = p[:i]
	}
	if cur == nil {
		panic(failure{id})
	}
	for _, x := range strings.Split(p, ",") {
		if x == cur.prop || cur.prop == "" {
			panic(failure{id})
		}
	}
}

func sample[T any]() []T {
	var z T
	t := reflect.TypeOf(&z).Elem()
	var out []T
	add := func(v reflect.Value) { out = append(out, v.Convert(t).Interface().(T)) }
	switch t.Kind() {
	case reflect.Bool:
		add(reflect.ValueOf(false))
		add(reflect.ValueOf(true))
	case reflect.Uint8:
		for i := 0; i < 256; i++ {
			add(reflect.ValueOf(uint8(i)))
		}
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Uint16, reflect.Uint32:
		for i := -3; i < 300; i++ {
			add(reflect.ValueOf(i))
		}
	default:
		for i := 0; i < 50; i++ {
			v := reflect.New(t).Elem()
			(&Rand{cur.r}).fill(v, 2)
			out = append(out, v.Interface().(T))
		}
	}
	return out
}

func anyValue[T any](name string) T {
	var z T
	v := reflect.ValueOf(&z).Elem()
	if cur == nil {
		return z
	}
	cur.value(name, v, reflect.Value{})
	return z
}

// Rand is the source of generated inputs.
type Rand struct{ *rand.Rand }

var Dict = []byte{0, 1, 2, 3, 4, 5, 6, 7, 8, 0x0f, 0x10, 0x13, 0x15, 0x18, 0x20, 0x25, 0x26, 0x31, 0x41, 0x49, 0x60, 0x63, 0x64, 0x71, 0x72, 0x7f, 0x80, 0x81, 0x84, 0xbf, 0xc0, 0xe8, 0xef, 0xf0, 0xfc, 0xfd, 0xfe, 0xff}

func (r *Rand) Byte() byte {
	if r.Intn(2) == 0 {
		return Dict[r.Intn(len(Dict))]
	}
	return byte(r.Intn(256))
}
func (r *Rand) Bytes(n int) []byte {
	c := n
	if r.Intn(2) == 0 {
		c += r.Intn(8)
	}
	b := make([]byte, c)
	for i := range b {
		b[i] = r.Byte()
	}
	return b[:n]
}
func (r *Rand) Str() string {
	s := []string{"", "a", "b", "A", "0081", "00A0", "00a0", "Temperature", "x y", "default"}
	return s[r.Intn(len(s))]
}

func writable(v reflect.Value) reflect.Value {
	if v.CanSet() {
		return v
	}
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}

func (r *Rand) fill(v reflect.Value, d int) {
	v = writable(v)
	if !v.CanSet() {
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		x := int64(0)
		switch r.Intn(5) {
		case 0:
			x = int64(r.Intn(10)) - 3
		case 1, 2:
			x = int64(r.Intn(300))
		case 3:
			x = r.Int63() - math.MaxInt64/2
		case 4:
			x = []int64{0, 1, -1, 232, 233, 255, 256, 127, 128, math.MaxInt64, math.MinInt64, 1000000}[r.Intn(12)]
		}
		if v.OverflowInt(x) {
			x = int64(int8(x))
		}
		v.SetInt(x)
	case reflect.Uint8:
		v.SetUint(uint64(r.Byte()))
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16:
		x := uint64(r.Intn(70000))
		if v.OverflowUint(x) {
			x &= 255
		}
		v.SetUint(x)
	case reflect.Float64, reflect.Float32:
		fs := []float64{0, 1, -1, 0.5, 99, 99.4, 99.99, 100, 255, 256, 1e9, -1e9, math.Inf(1), math.Inf(-1), math.NaN(), 50, 0.999, 1e300}
		if r.Intn(2) == 0 {
			v.SetFloat(fs[r.Intn(len(fs))])
		} else {
			v.SetFloat(r.Float64()*300 - 100)
		}
	case reflect.String:
		v.SetString(r.Str())
	case reflect.Slice:
		if r.Intn(8) == 0 {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			n := r.Intn(20)
			if r.Intn(5) == 0 {
				n = r.Intn(300)
			}
			v.Set(reflect.ValueOf(r.Bytes(n)).Convert(v.Type()))
			return
		}
		n := r.Intn(4)
		s := reflect.MakeSlice(v.Type(), n, n)
		for i := 0; i < n; i++ {
			r.fill(s.Index(i), d-1)
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			r.fill(v.Index(i), d)
		}
	case reflect.Map:
		if r.Intn(6) == 0 {
			return
		}
		m := reflect.MakeMap(v.Type())
		for i := r.Intn(4); i > 0; i-- {
			k := reflect.New(v.Type().Key()).Elem()
			e := reflect.New(v.Type().Elem()).Elem()
			r.fill(k, d-1)
			r.fill(e, d-1)
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case reflect.Ptr:
		if d <= 0 || r.Intn(6) == 0 {
			return
		}
		if v.Type().Elem().PkgPath() == "sync" {
			return
		}
		p := reflect.New(v.Type().Elem())
		r.fill(p.Elem(), d-1)
		v.Set(p)
	case reflect.Chan:
		if r.Intn(4) > 0 {
			v.Set(reflect.MakeChan(reflect.ChanOf(reflect.BothDir, v.Type().Elem()), r.Intn(3)).Convert(v.Type()))
		}
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(time.Time{}) {
			v.Set(reflect.ValueOf(time.Unix(1000, r.Int63n(1e9))))
			return
		}
		if v.Type().PkgPath() == "sync" {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			r.fill(v.Field(i), d)
		}
	case reflect.Interface:
		if v.Type() == reflect.TypeOf((*error)(nil)).Elem() && r.Intn(2) == 0 {
			v.Set(reflect.ValueOf(errors.New("generated error")))
		}
	}
}

func (c *run) value(name string, v reflect.Value, gen reflect.Value) {
	if s, ok := c.seed[name]; ok {
		(&Rand{c.r}).fill(v, 3)
		if setSeed(v, s) {
			c.used[name] = describe(v, 3)
			return
		}
	}
	if gen.IsValid() && c.r.Intn(8) > 0 {
		v.Set(gen.Call([]reflect.Value{reflect.ValueOf(&Rand{c.r})})[0])
	} else {
		(&Rand{c.r}).fill(v, 3)
	}
	c.used[name] = describe(v, 3)
}

func setSeed(v reflect.Value, s any) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	v = writable(v)
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(s.(bool))
		return true
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		n, err := strconv.ParseInt(fmt.Sprint(s), 10, 64)
		v.SetInt(n)
		return err == nil
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		n, err := strconv.ParseUint(fmt.Sprint(s), 10, 64)
		v.SetUint(n)
		return err == nil
	case reflect.Float64:
		n, err := strconv.ParseFloat(fmt.Sprint(s), 64)
		v.SetFloat(n)
		return err == nil
	case reflect.String:
		v.SetString(s.(string))
		return true
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			m, is := s.(map[string]any)
			if !is {
				return false
			}
			b, err := hex.DecodeString(m["hex"].(string))
			if err != nil {
				return false
			}
			if m["nil"] == true {
				v.Set(reflect.Zero(v.Type()))
				return true
			}
			n := make([]byte, len(b))
			copy(n, b)
			l := len(b)
			if x, ok := m["len"].(float64); ok && int(x) <= len(b) {
				l = int(x)
			}
			v.Set(reflect.ValueOf(n[:l]).Convert(v.Type()))
			return true
		}
	case reflect.Ptr:
		if s == nil {
			v.Set(reflect.Zero(v.Type()))
			return true
		}
		m, is := s.(map[string]any)
		if !is {
			return false
		}
		if v.IsNil() {
			v.Set(reflect.New(v.Type().Elem()))
		}
		return setSeed(v.Elem(), m)
	case reflect.Struct:
		m, is := s.(map[string]any)
		if !is {
			return false
		}
		for k, x := range m {
			f := v.FieldByName(k)
			if f.IsValid() {
				setSeed(f, x)
			}
		}
		return true
	}
	return false
}

// describe renders a value for the replay file.
func describe(v reflect.Value, d int) any {
	switch v.Kind() {
	case reflect.Bool:
		return v.Bool()
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		return fmt.Sprint(v.Int())
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		return fmt.Sprint(v.Uint())
	case reflect.Float64, reflect.Float32:
		return fmt.Sprint(v.Float())
	case reflect.String:
		return v.String()
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			full := v
			if v.Cap() > v.Len() {
				full = v.Slice3(0, v.Cap(), v.Cap())
			}
			return map[string]any{"hex": hex.EncodeToString(full.Bytes()), "len": v.Len(), "nil": v.IsNil()}
		}
		var out []any
		for i := 0; i < v.Len() && i < 20; i++ {
			out = append(out, describe(v.Index(i), d-1))
		}
		return out
	case reflect.Ptr:
		if v.IsNil() || d <= 0 {
			return nil
		}
		return describe(v.Elem(), d-1)
	case reflect.Struct:
		m := map[string]any{}
		for i := 0; i < v.NumField(); i++ {
			m[v.Type().Field(i).Name] = describe(v.Field(i), d-1)
		}
		return m
	case reflect.Map:
		m := map[string]any{}
		it := v.MapRange()
		for it.Next() {
			m[fmt.Sprint(describe(it.Key(), 1))] = describe(it.Value(), d-1)
		}
		return m
	}
	return "<" + v.Type().String() + ">"
}

// Target is one contract to run natively.
type Target struct {
	Fn     any
	Params []string
	Gens   map[string]any
}

type job struct {
	Harness    string
	Prop       string
	Safety     bool
	Terminates bool
	Seeds      []map[string]any
	Runs       int
	Millis     int
	Seed       int64
	Out        string
}
type result struct {
	Failed  bool
	What    string
	Inputs  map[string]any
	Runs    int
	Skipped int
	Seeded  bool
}

// NativeMain runs the jobs of the file named in GVC_JOBS.
func NativeMain(targets map[string]Target) {
	f := os.Getenv("GVC_JOBS")
	if f == "" {
		return
	}
	b, err := os.ReadFile(f)
	if err != nil {
		panic(err)
	}
	var js []job
	if err := json.Unmarshal(b, &js); err != nil {
		panic(err)
	}
	for _, j := range js {
		t, ok := targets[j.Harness]
		if !ok {
			continue
		}
		res := runJob(j, t)
		out, _ := json.Marshal(res)
		os.WriteFile(j.Out, out, 0o644)
	}
}

func runJob(j job, t Target) (res result) {
	r := rand.New(rand.NewSource(j.Seed))
	end := time.Now().Add(time.Duration(j.Millis) * time.Millisecond)
	fn := reflect.ValueOf(t.Fn)
	n := j.Runs + len(j.Seeds)*3
	for i := 0; i < n && time.Now().Before(end); i++ {
		var seed map[string]any
		if i < len(j.Seeds)*3 {
			seed = j.Seeds[i/3]
		}
		c := &run{r: r, prop: j.Prop, seed: seed, used: map[string]any{}}
		cur = c
		var args []reflect.Value
		for k := 0; k < fn.Type().NumIn(); k++ {
			v := reflect.New(fn.Type().In(k)).Elem()
			var gen reflect.Value
			if g, ok := t.Gens[t.Params[k]]; ok {
				gen = reflect.ValueOf(g)
			}
			c.value(t.Params[k], v, gen)
			args = append(args, v)
		}
		done := make(chan any, 1)
		go func() {
			defer func() { done <- recover() }()
			fn.Call(args)
		}()
		var what any
		select {
		case what = <-done:
		case <-time.After(4 * time.Second):
			if j.Terminates {
				return result{Failed: true, What: "does not terminate", Inputs: c.used, Runs: res.Runs, Seeded: seed != nil}
			}
			return res
		}
		res.Runs++
		switch x := what.(type) {
		case nil:
		case skip:
			res.Skipped++
		case failure:
			return result{Failed: true, What: x.id, Inputs: c.used, Runs: res.Runs, Seeded: seed != nil}
		default:
			if j.Safety {
				return result{Failed: true, What: fmt.Sprintf("panic: %v", x), Inputs: c.used, Runs: res.Runs, Seeded: seed != nil}
			}
			res.Skipped++
		}
	}
	return res
}

func deepEqual(a, b reflect.Value, d int) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	if d > 20 {
		return true
	}
	switch a.Kind() {
	case reflect.Float64, reflect.Float32:
		x, y := a.Float(), b.Float()
		return x == y || x != x && y != y
	case reflect.Func:
		return a.IsNil() == b.IsNil()
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return a.Pointer() == b.Pointer() || deepEqual(a.Elem(), b.Elem(), d+1)
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return deepEqual(a.Elem(), b.Elem(), d+1)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !deepEqual(a.Field(i), b.Field(i), d+1) {
				return false
			}
		}
		return true
	case reflect.Slice:
		if a.IsNil() != b.IsNil() {
			return false
		}
		fallthrough
	case reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !deepEqual(a.Index(i), b.Index(i), d+1) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			v := b.MapIndex(k)
			if !v.IsValid() || !deepEqual(a.MapIndex(k), v, d+1) {
				return false
			}
		}
		return true
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.String:
		return a.String() == b.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	case reflect.Chan, reflect.UnsafePointer:
		return a.Pointer() == b.Pointer()
	}
	return false
}
