package ref

import (
	"fmt"
	"reflect"
	"strings"
	"time"
)

// Show writes what a struct holds, pointers followed.
func Show(v interface{}) string {
	var b strings.Builder
	show(&b, reflect.ValueOf(v), 0)
	return b.String()
}

func show(b *strings.Builder, v reflect.Value, depth int) {
	if depth > 8 {
		b.WriteString("...")
		return
	}
	if v.IsValid() && v.CanInterface() {
		if t, ok := v.Interface().(time.Time); ok {
			b.WriteString(t.String())
			return
		}
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteByte('&')
		show(b, v.Elem(), depth+1)
	case reflect.Struct:
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			fmt.Fprintf(b, "%s:", v.Type().Field(i).Name)
			show(b, v.Field(i), depth+1)
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	case reflect.Slice:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			show(b, v.Index(i), depth+1)
			b.WriteByte(' ')
		}
		b.WriteByte(']')
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprint(b, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(b, v.Float())
	default:
		b.WriteString(v.Kind().String())
	}
}
