package drv

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"unsafe"
)

// Canon renders the heap reachable from the given roots up to renaming of
// addresses: two object graphs with the same rendering are isomorphic
// (aliasing, capacities and spare slice contents included), so they have the
// same futures.  Execution identifiers inside the shims are skipped.
func Canon(roots ...any) string {
	c := &canon{ids: map[ptrKey]int{}}
	for _, r := range roots {
		v := reflect.ValueOf(r)
		c.walk(v, 0)
		c.b.WriteByte(';')
	}
	return c.b.String()
}

// CanonTok is Canon for containers of *Tok (64-bit unsigned words, which only
// hold random seeds there, are left out): tokens in live are named by their
// position there, all others (left over in recycled memory) look
// like nil, which generic code cannot tell apart from them.
func CanonTok(live []*Tok, roots ...any) string {
	c := &canon{ids: map[ptrKey]int{}, live: map[unsafe.Pointer]int{}}
	for i, t := range live {
		if _, ok := c.live[unsafe.Pointer(t)]; !ok {
			c.live[unsafe.Pointer(t)] = i
		}
	}
	for i, t := range live { // repeated tokens
		fmt.Fprintf(&c.b, "%d=%d,", i, c.live[unsafe.Pointer(t)])
	}
	for _, r := range roots {
		c.walk(reflect.ValueOf(r), 0)
		c.b.WriteByte(';')
	}
	return c.b.String()
}

// Tok is an element without contents, known by its address.
type Tok struct{ n int }

// NewTok makes a token; the number only shows in messages.
func NewTok(n int) *Tok { return &Tok{n} }

func (t *Tok) String() string {
	if t == nil {
		return "nil"
	}
	return fmt.Sprintf("t%d", t.n)
}

var tokType = reflect.TypeOf((*Tok)(nil))

type ptrKey struct {
	p unsafe.Pointer
	t reflect.Type
}

type canon struct {
	b    strings.Builder
	ids  map[ptrKey]int
	live map[unsafe.Pointer]int
}

func addressable(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	n := reflect.New(v.Type()).Elem()
	if v.CanInterface() {
		n.Set(v)
		return n
	}
	return v
}

func (c *canon) ref(p unsafe.Pointer, t reflect.Type) (seen bool) {
	k := ptrKey{p, t}
	if id, ok := c.ids[k]; ok {
		fmt.Fprintf(&c.b, "#%d", id)
		return true
	}
	c.ids[k] = len(c.ids)
	fmt.Fprintf(&c.b, "@%d", c.ids[k])
	return false
}

func (c *canon) walk(v reflect.Value, depth int) {
	if !v.IsValid() {
		c.b.WriteString("nil")
		return
	}
	t := v.Type()
	if t.PkgPath() == "verif.local/mc/mc/vsync" && t.Name() == "gen" {
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		fmt.Fprintf(&c.b, "%v", v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(&c.b, "%d", v.Int())
	case reflect.Uint64:
		// 64-bit words hold random seeds in this code base, never contents
		if c.live == nil {
			fmt.Fprintf(&c.b, "%d", v.Uint())
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uintptr:
		fmt.Fprintf(&c.b, "%d", v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(&c.b, "%v", v.Float())
	case reflect.String:
		fmt.Fprintf(&c.b, "%q", v.String())
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		if v.IsNil() {
			c.b.WriteString("nil")
		} else {
			c.b.WriteString("f")
		}
	case reflect.Ptr:
		if v.IsNil() {
			c.b.WriteString("nil")
			return
		}
		if c.live != nil && t == tokType {
			if i, ok := c.live[v.UnsafePointer()]; ok {
				fmt.Fprintf(&c.b, "t%d", i)
			} else {
				c.b.WriteString("nil")
			}
			return
		}
		if !c.ref(v.UnsafePointer(), t) {
			c.walk(v.Elem(), depth+1)
		}
	case reflect.Interface:
		if v.IsNil() {
			c.b.WriteString("nil")
			return
		}
		fmt.Fprintf(&c.b, "<%s>", v.Elem().Type())
		c.walk(v.Elem(), depth+1)
	case reflect.Struct:
		v = addressable(v)
		c.b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.CanAddr() {
				f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			}
			c.walk(f, depth+1)
			c.b.WriteByte(',')
		}
		c.b.WriteByte('}')
	case reflect.Array:
		c.b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			c.walk(v.Index(i), depth+1)
			c.b.WriteByte(',')
		}
		c.b.WriteByte(']')
	case reflect.Slice:
		if v.IsNil() {
			c.b.WriteString("nil")
			return
		}
		fmt.Fprintf(&c.b, "s%d/%d", v.Len(), v.Cap())
		if v.Cap() == 0 {
			return
		}
		if !c.ref(v.UnsafePointer(), t) {
			w := v.Slice3(0, v.Cap(), v.Cap())
			c.b.WriteByte('[')
			for i := 0; i < w.Len(); i++ {
				c.walk(w.Index(i), depth+1)
				c.b.WriteByte(',')
			}
			c.b.WriteByte(']')
		}
	case reflect.Map:
		if v.IsNil() {
			c.b.WriteString("nil")
			return
		}
		if c.ref(v.UnsafePointer(), t) {
			return
		}
		var es []string
		it := v.MapRange()
		for it.Next() {
			sub := &canon{ids: c.ids, live: c.live}
			sub.walk(it.Key(), depth+1)
			sub.b.WriteByte(':')
			sub.walk(it.Value(), depth+1)
			es = append(es, sub.b.String())
		}
		sort.Strings(es)
		c.b.WriteByte('{')
		c.b.WriteString(strings.Join(es, ","))
		c.b.WriteByte('}')
	default:
		fmt.Fprintf(&c.b, "?%s", t)
	}
}
