package rep

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"time"

	"github.com/onsi/ginkgo/v2/types"
)

// Same explains the first difference between a report (or a part of one) and what became of it on its way through an
// encoding. Empty and absent lists are the same; the value of a report entry keeps its representation and its JSON form.
func Same(path string, a, b any) error {
	return same(path, reflect.ValueOf(a), reflect.ValueOf(b), true)
}

// Equal explains the first difference between two reports (or parts of them) that were not encoded.
func Equal(path string, a, b any) error {
	return same(path, reflect.ValueOf(a), reflect.ValueOf(b), false)
}

var timeType = reflect.TypeOf(time.Time{})
var valueType = reflect.TypeOf(types.ReportEntryValue{})

func same(path string, a, b reflect.Value, decoded bool) error {
	if a.Type() != b.Type() {
		return fmt.Errorf("%s: %s became %s", path, a.Type(), b.Type())
	}
	switch a.Type() {
	case timeType:
		x, y := a.Interface().(time.Time), b.Interface().(time.Time)
		if !x.Equal(y) {
			return fmt.Errorf("%s: %s became %s", path, x, y)
		}
		return nil
	case valueType:
		x, y := a.Interface().(types.ReportEntryValue), b.Interface().(types.ReportEntryValue)
		if x.String() != y.String() {
			return fmt.Errorf("%s: the value's representation %q became %q", path, x.String(), y.String())
		}
		if !decoded {
			if !reflect.DeepEqual(x.GetRawValue(), y.GetRawValue()) {
				return fmt.Errorf("%s: the value %#v became %#v", path, x.GetRawValue(), y.GetRawValue())
			}
			return nil
		}
		want, err := json.Marshal(x.GetRawValue())
		if err != nil {
			return nil // all that is kept is the representation
		}
		if x.AsJSON != "" {
			want = []byte(x.AsJSON)
		}
		var w any
		if json.Unmarshal(want, &w) == nil && !reflect.DeepEqual(w, y.GetRawValue()) {
			return fmt.Errorf("%s: the value %#v was decoded to %#v", path, w, y.GetRawValue())
		}
		// to the last digit
		if v, ok := exact(want); ok && w != nil {
			if g, ok := exact([]byte(y.AsJSON)); !ok || !reflect.DeepEqual(v, g) {
				return fmt.Errorf("%s: the value %s became %s", path, want, y.AsJSON)
			}
		}
		return nil
	}
	switch a.Kind() {
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !a.Type().Field(i).IsExported() {
				continue
			}
			if err := same(path+"."+a.Type().Field(i).Name, a.Field(i), b.Field(i), decoded); err != nil {
				return err
			}
		}
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Errorf("%s: %d elements became %d", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if err := same(fmt.Sprintf("%s[%d]", path, i), a.Index(i), b.Index(i), decoded); err != nil {
				return err
			}
		}
	case reflect.Pointer, reflect.Interface:
		if a.IsNil() != b.IsNil() {
			return fmt.Errorf("%s: nil=%v became nil=%v", path, a.IsNil(), b.IsNil())
		}
		if !a.IsNil() {
			return same(path, a.Elem(), b.Elem(), decoded)
		}
	case reflect.Map:
		if a.Len() != b.Len() {
			return fmt.Errorf("%s: %d keys became %d", path, a.Len(), b.Len())
		}
		for _, k := range a.MapKeys() {
			v := b.MapIndex(k)
			if !v.IsValid() {
				return fmt.Errorf("%s: key %v is lost", path, k)
			}
			if err := same(fmt.Sprintf("%s[%v]", path, k), a.MapIndex(k), v, decoded); err != nil {
				return err
			}
		}
	default:
		if !reflect.DeepEqual(a.Interface(), b.Interface()) {
			return fmt.Errorf("%s: %#v became %#v", path, a.Interface(), b.Interface())
		}
	}
	return nil
}

// exact decodes JSON with its numbers as they are written.
func exact(data []byte) (any, bool) {
	d := json.NewDecoder(bytes.NewReader(data))
	d.UseNumber()
	var v any
	err := d.Decode(&v)
	return v, err == nil
}
