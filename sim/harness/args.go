//go:build go1.23

package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
)

// dump writes out everything reachable from a value, for comparison.
func dump(v any) string {
	var b strings.Builder
	dumpTo(&b, reflect.ValueOf(v), 0)
	return b.String()
}

func dumpTo(b *strings.Builder, v reflect.Value, depth int) {
	if depth > 20 || !v.IsValid() {
		b.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			fmt.Fprint(b, v.Elem().Type())
		}
		dumpTo(b, v.Elem(), depth+1)
	case reflect.Pointer:
		dumpTo(b, v.Elem(), depth+1)
	case reflect.Struct:
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			b.WriteString(v.Type().Field(i).Name)
			b.WriteByte(':')
			dumpTo(b, v.Field(i), depth+1)
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	case reflect.Slice, reflect.Array:
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			dumpTo(b, v.Index(i), depth+1)
			b.WriteByte(' ')
		}
		b.WriteByte(']')
	case reflect.Map:
		var es []string
		for _, k := range v.MapKeys() {
			var e strings.Builder
			dumpTo(&e, k, depth+1)
			e.WriteByte('=')
			dumpTo(&e, v.MapIndex(k), depth+1)
			es = append(es, e.String())
		}
		sort.Strings(es)
		fmt.Fprint(b, es)
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(b, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(b, "%x", math.Float64bits(v.Float()))
	default:
		b.WriteString(v.Kind().String())
	}
}

// results is everything a call gave its caller, except for live objects of the
// network package.
func (r *OpRec) results() string {
	if r.Own != nil {
		return dump(r.Own)
	}
	return dump([]any{r.PD, r.MPD, r.Devs, r.Nets, r.Raw, r.Dev, r.Pri, r.OIDs, r.Points, r.Det})
}

// scribble has the caller use what it got as it likes: it changes all of it,
// which must not show in what others got or get later.
func (r *OpRec) scribble() {
	// the address in Dev is the caller's argument
	own := []any{r.PD, r.MPD, r.Devs, r.Raw, r.Dev.Objects, r.Pri, r.OIDs, r.Points, r.Det}
	r.PD, r.MPD, r.Devs, r.Dev, r.Pri = clone(r.PD), clone(r.MPD), clone(r.Devs), clone(r.Dev), clone(r.Pri)
	r.OIDs, r.Points, r.Det = clone(r.OIDs), clone(r.Points), clone(r.Det)
	for _, v := range own {
		scribbleOn(reflect.ValueOf(v), 0)
	}
	r.Own = own
}

func scribbleOn(v reflect.Value, depth int) {
	if depth > 20 || !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Pointer:
		scribbleOn(v.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scribbleOn(v.Field(i), depth+1)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scribbleOn(v.Index(i), depth+1)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			e := reflect.New(v.Type().Elem()).Elem()
			e.Set(v.MapIndex(k))
			scribbleOn(e, depth+1)
			v.SetMapIndex(k, e)
		}
	}
	if !v.CanSet() {
		return
	}
	switch v.Kind() {
	case reflect.String:
		v.SetString(v.String() + "~")
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(v.Int() ^ 0x15)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(v.Uint() ^ 0x15)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(1 - v.Float())
	}
}

// clone copies a value with everything reachable from it.
func clone[T any](v T) T {
	var out T
	cloneTo(reflect.ValueOf(&out).Elem(), reflect.ValueOf(&v).Elem())
	return out
}

func cloneTo(to, v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			e := reflect.New(v.Elem().Type()).Elem()
			cloneTo(e, v.Elem())
			to.Set(e)
		}
	case reflect.Pointer:
		if !v.IsNil() {
			to.Set(reflect.New(v.Type().Elem()))
			cloneTo(to.Elem(), v.Elem())
		}
	case reflect.Struct:
		to.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if to.Field(i).CanSet() {
				cloneTo(to.Field(i), v.Field(i))
			}
		}
	case reflect.Slice:
		if !v.IsNil() {
			to.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
			for i := 0; i < v.Len(); i++ {
				cloneTo(to.Index(i), v.Index(i))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			cloneTo(to.Index(i), v.Index(i))
		}
	case reflect.Map:
		if !v.IsNil() {
			to.Set(reflect.MakeMap(v.Type()))
			for _, k := range v.MapKeys() {
				e := reflect.New(v.Type().Elem()).Elem()
				cloneTo(e, v.MapIndex(k))
				to.SetMapIndex(k, e)
			}
		}
	default:
		to.Set(v)
	}
}

// sharing returns a value that calls on the same arguments have in common.
func sharing[T any](x *Env, key string, mk func() T) T {
	if x.w.plan.Cfg["share"] == 0 {
		return mk()
	}
	if v, ok := x.shared[key]; ok {
		x.w.probe("shared-argument")
		return v.(T)
	}
	v := mk()
	x.shared[key] = v
	return v
}

func whoIsOpts(o *Op) *bacnet.WhoIsOpts {
	return &bacnet.WhoIsOpts{Low: int(o.A), High: int(o.B), GlobalBroadcast: o.C != 0, NetworkNumber: o.Net}
}

func (x *Env) sharedOpts(o *Op) *bacnet.WhoIsOpts {
	return sharing(x, fmt.Sprint("opts ", o.A, o.B, o.C, o.Net), func() *bacnet.WhoIsOpts { return whoIsOpts(o) })
}

// sharedTarget is the device argument of a call: its address is shared with
// other calls to the same device where the plan says so.
func (x *Env) sharedTarget(o *Op, d *device) (btypes.Device, bool) {
	ok := true
	if o.Build == "whois" {
		return x.target(o, d)
	}
	v := sharing(x, fmt.Sprint("dev ", o.Host, o.Net, o.Mac, o.Build, o.MaxA, d.cfg.ID.I), func() btypes.Device {
		v, k := x.target(o, d)
		ok = k
		return v
	})
	return v, ok
}
