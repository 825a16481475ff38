package lib

import (
	"context"
	"fmt"
	"hash/fnv"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/pion/rtp"
)

var (
	ctxType = reflect.TypeOf((*context.Context)(nil)).Elem()
	pktType = reflect.TypeOf((*rtp.Packet)(nil))
	timType = reflect.TypeOf(time.Time{})
)

// Key describes everything reachable from a value, unexported fields
// included: two values with equal keys behave equally. Times count relative
// to now, and ages of more than cap are alike.
func Key(v any, now time.Time, limit time.Duration) string {
	var b strings.Builder
	seen := map[uintptr]int{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if !v.IsValid() {
			b.WriteByte('_')
			return
		}
		switch v.Kind() {
		case reflect.Bool:
			if v.Bool() {
				b.WriteByte('t')
			} else {
				b.WriteByte('f')
			}
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			fmt.Fprintf(&b, "%d,", v.Int())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			fmt.Fprintf(&b, "%d,", v.Uint())
		case reflect.Float32, reflect.Float64:
			fmt.Fprintf(&b, "%x,", math.Float64bits(v.Float()))
		case reflect.String:
			fmt.Fprintf(&b, "%q", v.String())
		case reflect.Ptr:
			if v.IsNil() {
				b.WriteByte('_')
				return
			}
			if v.Type() == pktType {
				fmt.Fprintf(&b, "p%d.%d", v.Elem().FieldByName("Header").FieldByName("SequenceNumber").Uint(), v.Elem().FieldByName("Header").FieldByName("SSRC").Uint())
				return
			}
			if i, ok := seen[v.Pointer()]; ok {
				fmt.Fprintf(&b, "^%d", i)
				return
			}
			seen[v.Pointer()] = len(seen)
			walk(v.Elem())
		case reflect.Slice:
			if v.IsNil() {
				b.WriteByte('_')
				return
			}
			fallthrough
		case reflect.Array:
			b.WriteByte('[')
			zero := 0
			for i := 0; i < v.Len(); i++ {
				if v.Index(i).IsZero() {
					zero++
					continue
				}
				if zero > 0 {
					fmt.Fprintf(&b, "z%d ", zero)
					zero = 0
				}
				walk(v.Index(i))
			}
			fmt.Fprintf(&b, "z%d]", zero)
		case reflect.Map:
			var ks []string
			old := b
			it := v.MapRange()
			for it.Next() {
				b = strings.Builder{}
				walk(it.Key())
				b.WriteByte(':')
				walk(it.Value())
				ks = append(ks, b.String())
			}
			b = strings.Builder{}
			b.WriteString(old.String())
			sort.Strings(ks)
			fmt.Fprintf(&b, "{%s}", strings.Join(ks, ";"))
		case reflect.Interface:
			if v.Type() == ctxType || v.IsNil() {
				b.WriteByte('_')
				return
			}
			b.WriteString(v.Elem().Type().String())
			walk(v.Elem())
		case reflect.Struct:
			if v.Type() == timType {
				wall, ext := v.Field(0).Uint(), v.Field(1).Int()
				if wall == 0 && ext == 0 {
					b.WriteByte('0')
					return
				}
				n := reflect.ValueOf(now)
				d := time.Duration(ext-n.Field(1).Int())*time.Second + time.Duration(int64(wall)-int64(n.Field(0).Uint()))
				if d < -limit {
					d = -limit
				}
				fmt.Fprintf(&b, "T%d", d)
				return
			}
			if strings.Contains(v.Type().PkgPath(), "vshim/vsync") {
				return
			}
			b.WriteByte('(')
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
				b.WriteByte('|')
			}
			b.WriteByte(')')
		}
	}
	walk(reflect.ValueOf(v))
	return b.String()
}

// Hash is a 128 bit hash.
func Hash(s string) [2]uint64 {
	h := fnv.New128a()
	h.Write([]byte(s))
	x := h.Sum(nil)
	return [2]uint64{beUint(x[:8]), beUint(x[8:])}
}
