package verif

import (
	"reflect"
	"strings"
	"time"

	"github.com/singchia/geminio/options"
)

// given hands the options o over in one of the ways a user may: alone, among
// empty ones, in parts, or after others which it overrides.
func given[T any](c *C, o *T) []*T {
	c.Ev("options_given")
	switch c.N(6) {
	case 0:
		return []*T{nil, o}
	case 1:
		return []*T{o, new(T), nil}
	case 2:
		return []*T{overridden(o), o}
	case 3: // in parts
		a, b := new(T), new(T)
		of := reflect.ValueOf(o).Elem()
		_, hijack := any(o).(*options.HijackOptions) // set together
		for i := range of.NumField() {
			if !of.Type().Field(i).IsExported() {
				continue
			}
			if hijack || strings.Contains(of.Type().Field(i).Name, "Timer") || c.Bool() {
				reflect.ValueOf(a).Elem().Field(i).Set(of.Field(i))
			} else {
				reflect.ValueOf(b).Elem().Field(i).Set(of.Field(i))
			}
		}
		return []*T{a, b}
	}
	return []*T{o}
}

// overridden sets what o sets, to something else.
func overridden[T any](o *T) *T {
	d := new(T)
	of, df := reflect.ValueOf(o).Elem(), reflect.ValueOf(d).Elem()
	for i := range of.NumField() {
		if !of.Type().Field(i).IsExported() {
			continue
		}
		switch of.Field(i).Kind() {
		case reflect.Pointer, reflect.Slice:
			if of.Field(i).IsNil() {
				continue
			}
		}
		switch x := of.Field(i).Interface().(type) {
		case *time.Duration:
			y := *x/3 + time.Millisecond
			df.Field(i).Set(reflect.ValueOf(&y))
		case *string:
			y := "overridden"
			df.Field(i).Set(reflect.ValueOf(&y))
		case *bool:
			y := !*x
			df.Field(i).Set(reflect.ValueOf(&y))
		case *options.Cnss:
			y := options.CnssAtMostOnce + options.CnssAtLeastOnce - *x
			df.Field(i).Set(reflect.ValueOf(&y))
		case *uint64:
			y := *x + 7
			df.Field(i).Set(reflect.ValueOf(&y))
		case int:
			if x > 0 {
				df.Field(i).Set(reflect.ValueOf(x%5 + 1))
			}
		case []string:
			df.Field(i).Set(reflect.ValueOf([]string{"overridden"}))
		case []byte:
			df.Field(i).Set(reflect.ValueOf([]byte("overridden")))
		}
	}
	return d
}
