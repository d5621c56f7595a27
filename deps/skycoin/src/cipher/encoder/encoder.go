// Package encoder is a stand-in for github.com/skycoin/skycoin/src/cipher/encoder (not available offline): the same wire
// format (little endian, 32-bit length prefixes, struct fields in order, fields tagged enc:"-" and blank fields skipped).
package encoder

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"reflect"
)

// ErrBufferUnderflow is returned when the input is too short.
var ErrBufferUnderflow = errors.New("Not enough buffer data to deserialize")

// ErrInvalidBool is returned for a byte that is not 0 or 1.
var ErrInvalidBool = errors.New("Invalid value for bool")

// Serialize encodes data; it panics on types that can't be encoded.
func Serialize(data interface{}) []byte {
	v := reflect.Indirect(reflect.ValueOf(data))
	return enc(nil, v)
}

// SerializeAtomic encodes a basic value.
func SerializeAtomic(data interface{}) []byte { return Serialize(data) }

// Size of the encoded value.
func Size(v interface{}) int { return len(Serialize(v)) }

func skip(f reflect.StructField) bool {
	if f.Name == "_" || f.PkgPath != "" {
		return true
	}
	t := f.Tag.Get("enc")
	return len(t) > 0 && t[0] == '-'
}

func enc(b []byte, v reflect.Value) []byte {
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return append(b, 1)
		}
		return append(b, 0)
	case reflect.Int8:
		return append(b, byte(v.Int()))
	case reflect.Uint8:
		return append(b, byte(v.Uint()))
	case reflect.Int16:
		return binary.LittleEndian.AppendUint16(b, uint16(v.Int()))
	case reflect.Uint16:
		return binary.LittleEndian.AppendUint16(b, uint16(v.Uint()))
	case reflect.Int32:
		return binary.LittleEndian.AppendUint32(b, uint32(v.Int()))
	case reflect.Uint32:
		return binary.LittleEndian.AppendUint32(b, uint32(v.Uint()))
	case reflect.Int64:
		return binary.LittleEndian.AppendUint64(b, uint64(v.Int()))
	case reflect.Uint64:
		return binary.LittleEndian.AppendUint64(b, v.Uint())
	case reflect.Float32:
		return binary.LittleEndian.AppendUint32(b, math.Float32bits(float32(v.Float())))
	case reflect.Float64:
		return binary.LittleEndian.AppendUint64(b, math.Float64bits(v.Float()))
	case reflect.String:
		b = binary.LittleEndian.AppendUint32(b, uint32(v.Len()))
		return append(b, v.String()...)
	case reflect.Slice:
		b = binary.LittleEndian.AppendUint32(b, uint32(v.Len()))
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return append(b, v.Bytes()...)
		}
		for i := 0; i < v.Len(); i++ {
			b = enc(b, v.Index(i))
		}
		return b
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			b = enc(b, v.Index(i))
		}
		return b
	case reflect.Map:
		b = binary.LittleEndian.AppendUint32(b, uint32(v.Len()))
		for _, k := range v.MapKeys() {
			b = enc(b, k)
			b = enc(b, v.MapIndex(k))
		}
		return b
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < v.NumField(); i++ {
			if skip(t.Field(i)) {
				continue
			}
			b = enc(b, v.Field(i))
		}
		return b
	case reflect.Ptr:
		return enc(b, v.Elem())
	}
	panic(fmt.Sprintf("Encoding unhandled type %v", v.Type()))
}

// DeserializeRaw decodes in to the value data points at and returns the number of bytes used.
func DeserializeRaw(in []byte, data interface{}) (uint64, error) {
	v := reflect.ValueOf(data)
	if v.Kind() != reflect.Ptr || v.IsNil() {
		return 0, fmt.Errorf("DeserializeRaw value must be a ptr, is %T", data)
	}
	return DeserializeRawToValue(in, v)
}

// DeserializeRawToValue decodes in to the value the pointer v points at.
func DeserializeRawToValue(in []byte, v reflect.Value) (uint64, error) {
	if v.Kind() != reflect.Ptr {
		return 0, fmt.Errorf("DeserializeRawToValue value must be a ptr, is %s", v.Kind())
	}
	d := dec{b: in}
	if err := d.value(v.Elem()); err != nil {
		return 0, err
	}
	return uint64(len(in) - len(d.b)), nil
}

type dec struct{ b []byte }

func (d *dec) take(n int) ([]byte, error) {
	if n < 0 || len(d.b) < n {
		return nil, ErrBufferUnderflow
	}
	p := d.b[:n]
	d.b = d.b[n:]
	return p, nil
}

func (d *dec) length() (int, error) {
	p, err := d.take(4)
	if err != nil {
		return 0, err
	}
	n := binary.LittleEndian.Uint32(p)
	if uint64(n) > uint64(len(d.b)) {
		return 0, ErrBufferUnderflow
	}
	return int(n), nil
}

func (d *dec) value(v reflect.Value) (err error) {
	var p []byte
	switch v.Kind() {
	case reflect.Bool:
		if p, err = d.take(1); err == nil {
			if p[0] > 1 {
				return ErrInvalidBool
			}
			v.SetBool(p[0] == 1)
		}
	case reflect.Int8:
		if p, err = d.take(1); err == nil {
			v.SetInt(int64(int8(p[0])))
		}
	case reflect.Uint8:
		if p, err = d.take(1); err == nil {
			v.SetUint(uint64(p[0]))
		}
	case reflect.Int16:
		if p, err = d.take(2); err == nil {
			v.SetInt(int64(int16(binary.LittleEndian.Uint16(p))))
		}
	case reflect.Uint16:
		if p, err = d.take(2); err == nil {
			v.SetUint(uint64(binary.LittleEndian.Uint16(p)))
		}
	case reflect.Int32:
		if p, err = d.take(4); err == nil {
			v.SetInt(int64(int32(binary.LittleEndian.Uint32(p))))
		}
	case reflect.Uint32:
		if p, err = d.take(4); err == nil {
			v.SetUint(uint64(binary.LittleEndian.Uint32(p)))
		}
	case reflect.Int64:
		if p, err = d.take(8); err == nil {
			v.SetInt(int64(binary.LittleEndian.Uint64(p)))
		}
	case reflect.Uint64:
		if p, err = d.take(8); err == nil {
			v.SetUint(binary.LittleEndian.Uint64(p))
		}
	case reflect.Float32:
		if p, err = d.take(4); err == nil {
			v.SetFloat(float64(math.Float32frombits(binary.LittleEndian.Uint32(p))))
		}
	case reflect.Float64:
		if p, err = d.take(8); err == nil {
			v.SetFloat(math.Float64frombits(binary.LittleEndian.Uint64(p)))
		}
	case reflect.String:
		var n int
		if n, err = d.length(); err != nil {
			return
		}
		if p, err = d.take(n); err == nil {
			v.SetString(string(p))
		}
	case reflect.Slice:
		var n int
		if n, err = d.length(); err != nil {
			return
		}
		if n == 0 {
			return nil
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			if p, err = d.take(n); err == nil {
				v.Set(reflect.MakeSlice(v.Type(), n, n))
				reflect.Copy(v, reflect.ValueOf(p))
			}
			return
		}
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			if err = d.value(v.Index(i)); err != nil {
				return
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if err = d.value(v.Index(i)); err != nil {
				return
			}
		}
	case reflect.Map:
		var n int
		if n, err = d.length(); err != nil {
			return
		}
		if v.IsNil() {
			v.Set(reflect.MakeMap(v.Type()))
		}
		for i := 0; i < n; i++ {
			k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			if err = d.value(k); err != nil {
				return
			}
			if err = d.value(e); err != nil {
				return
			}
			v.SetMapIndex(k, e)
		}
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < v.NumField(); i++ {
			if skip(t.Field(i)) {
				continue
			}
			if err = d.value(v.Field(i)); err != nil {
				return
			}
		}
	default:
		return fmt.Errorf("Decode error: kind %s not handled", v.Kind())
	}
	return
}
