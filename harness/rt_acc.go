//go:build go1.21

package gotables

// Code generated by tools/gen_acc.py. DO NOT EDIT.

import "time"

var _ time.Time

type vzSetF func(t *Table, col string, ci, r int, v interface{}) error
type vzGetF func(t *Table, col string, ci, r int) (interface{}, error)

type vzAcc struct {
	typ  string
	set  []vzSetF
	get  []vzGetF
}

type vzPanicErr struct{}

func (vzPanicErr) Error() string { return "panicked" }

func vzMustErr(f func()) error {
	if vzTry(f) {
		return vzPanicErr{}
	}
	return nil
}

// order: by name, by index, by name (must), by index (must)
var vzAccs = []vzAcc{
	{"[]byte", []vzSetF{
		func(t *Table, col string, ci, r int, v interface{}) error { return t.SetByteSlice(col, r, v.([]byte)) },
		func(t *Table, col string, ci, r int, v interface{}) error { return t.SetByteSliceByColIndex(ci, r, v.([]byte)) },
		func(t *Table, col string, ci, r int, v interface{}) error { return vzMustErr(func() { t.SetByteSliceMustSet(col, r, v.([]byte)) }) },
		func(t *Table, col string, ci, r int, v interface{}) error { return vzMustErr(func() { t.SetByteSliceByColIndexMustSet(ci, r, v.([]byte)) }) },
	}, []vzGetF{
		func(t *Table, col string, ci, r int) (interface{}, error) { v, err := t.GetByteSlice(col, r); return v, err },
		func(t *Table, col string, ci, r int) (interface{}, error) { v, err := t.GetByteSliceByColIndex(ci, r); return v, err },
		func(t *Table, col string, ci, r int) (v interface{}, err error) { err = vzMustErr(func() { v = t.GetByteSliceMustGet(col, r) }); return v, err },
		func(t *Table, col string, ci, r int) (v interface{}, err error) { err = vzMustErr(func() { v = t.GetByteSliceByColIndexMustGet(ci, r) }); return v, err },
	}},
	{"[]uint8", []vzSetF{
		func(t *Table, col string, ci, r int, v interface{}) error { return t.SetUint8Slice(col, r, v.([]uint8)) },
		func(t *Table, col string, ci, r int, v interface{}) error { return t.SetUint8SliceByColIndex(ci, r, v.([]uint8)) },
		func(t *Table, col string, ci, r int, v interface{}) error { return vzMustErr(func() { t.SetUint8SliceMustSet(col, r, v.([]uint8)) }) },
		func(t *Table, col string, ci, r int, v interface{}) error { return vzMustErr(func() { t.SetUint8SliceByColIndexMustSet(ci, r, v.([]uint8)) }) },
	}, []vzGetF{
		func(t *Table, col string, ci, r int) (interface{}, error) { v, err := t.GetUint8Slice(col, r); return v, err },
		func(t *Table, col string, ci, r int) (interface{}, error) { v, err := t.GetUint8SliceByColIndex(ci, r); return v, err },
		func(t *Table, col string, ci, r int) (v interface{}, err error) { err = vzMustErr(func() { v = t.GetUint8SliceMustGet(col, r) }); return v, err },
		func(t *Table, col string, ci, r int) (v interface{}, err error) { err = vzMustErr(func() { v = t.GetUint8SliceByColIndexMustGet(ci, r) }); return v, err },
	}},
	{"bool", []vzSetF{
		func(t *Table, col string, ci, r int, v interface{}) error { return t.SetBool(col, r, v.(bool)) },
		func(t *Table, col string, ci, r int, v interface{}) error { return t.SetBoolByColIndex(ci, r, v.(bool)) },
		func(t *Table, col string, ci, r int, v interface{}) error { return vzMustErr(func() { t.SetBoolMustSet(col, r, v.(bool)) }) },
		func(t *Table, col string, ci, r int, v interface{}) error { return vzMustErr(func() { t.SetBoolByColIndexMustSet(ci, r, v.(bool)) }) },
	}, []vzGetF{
		func(t *Table, col string, ci, r int) (interface{}, error) { v, err := t.GetBool(col, r); return v, err },
		func(t *Table, col string, ci, r int) (interface{}, error) { v, err := t.GetBoolByColIndex(ci, r); return v, err },
		func(t *Table, col string, ci, r int) (v interface{}, err error) { err = vzMustErr(func() { v = t.GetBoolMustGet(col, r) }); return v, err },
		func(t *Table, col string, ci, r int) (v interface{}, err error) { err = vzMustErr(func() { v = t.GetBoolByColIndexMustGet(ci, r) }); return v, err },
	}},
	{"byte", []vzSetF{
		func(t *Table, col string, ci, r int, v interface{}) error { return t.SetByte(col, r, v.(byte)) },
		func(t *Table, col string, ci, r int, v interface{}) error { return t.SetByteByColIndex(ci, r, v.(byte)) },
		func(t *Table, col string, ci, r int, v interface{}) error { return vzMustErr(func() { t.SetByteMustSet(col, r, v.(byte)) }) },
		func(t *Table, col string, ci, r int, v interface{}) error { return vzMustErr(func() { t.SetByteByColIndexMustSet(ci, r, v.(byte)) }) },
	}, []vzGetF{
		func(t *Table, col string, ci, r int) (interface{}, error) { v, err := t.GetByte(col, r); return v, err },
		func(t *Table, col string, ci, r int) (interface{}, error) { v, err := t.GetByteByColIndex(ci, r); return v, err },
		func(t *Table, col string, ci, r int) (v interface{}, err error) { err = vzMustErr(func() { v = t.GetByteMustGet(col, r) }); return v, err },
		func(t *Table, col string, ci, r int) (v interface{}, err error) { err = vzMustErr(func() { v = t.GetByteByColIndexMustGet(ci, r) }); return v, err },
	}},
	{"float32", []vzSetF{
		func(t *Table, col string, ci, r int, v interface{}) error { return t.SetFloat32(col, r, v.(float32)) },
		func(t *Table, col string, ci, r int, v interface{}) error { return t.SetFloat32ByColIndex(ci, r, v.(float32)) },
		func(t *Table, col string, ci, r int, v interface{}) error { return vzMustErr(func() { t.SetFloat32MustSet(col, r, v.(float32)) }) },
		func(t *Table, col string, ci, r int, v interface{}) error { return vzMustErr(func() { t.SetFloat32ByColIndexMustSet(ci, r, v.(float32)) }) },
	}, []vzGetF{
		func(t *Table, col string, ci, r int) (interface{}, error) { v, err := t.GetFloat32(col, r); return v, err },
		func(t *Table, col string, ci, r int) (interface{}, error) { v, err := t.GetFloat32ByColIndex(ci, r); return v, err },
		func(t *Table, col string, ci, r int) (v interface{}, err error) { err = vzMustErr(func() { v = t.GetFloat32MustGet(col, r) }); return v, err },
		func(t *Table, col string, ci, r int) (v interface{}, err error) { err = vzMustErr(func() { v = t.GetFloat32ByColIndexMustGet(ci, r) }); return v, err },
	}},
	{"float64", []vzSetF{
		func(t *Table, col string, ci, r int, v interface{}) error { return t.SetFloat64(col, r, v.(float64)) },
		func(t *Table, col string, ci, r int, v interface{}) error { return t.SetFloat64ByColIndex(ci, r, v.(float64)) },
		func(t *Table, col string, ci, r int, v interface{}) error { return vzMustErr(func() { t.SetFloat64MustSet(col, r, v.(float64)) }) },
		func(t *Table, col string, ci, r int, v interface{}) error { return vzMustErr(func() { t.SetFloat64ByColIndexMustSet(ci, r, v.(float64)) }) },
	}, []vzGetF{
		func(t *Table, col string, ci, r int) (interface{}, error) { v, err := t.GetFloat64(col, r); return v, err },
		func(t *Table, col string, ci, r int) (interface{}, error) { v, err := t.GetFloat64ByColIndex(ci, r); return v, err },
		func(t *Table, col string, ci, r int) (v interface{}, err error) { err = vzMustErr(func() { v = t.GetFloat64MustGet(col, r) }); return v, err },
		func(t *Table, col string, ci, r int) (v interface{}, err error) { err = vzMustErr(func() { v = t.GetFloat64ByColIndexMustGet(ci, r) }); return v, err },
	}},
	{"int", []vzSetF{
		func(t *Table, col string, ci, r int, v interface{}) error { return t.SetInt(col, r, v.(int)) },
		func(t *Table, col string, ci, r int, v interface{}) error { return t.SetIntByColIndex(ci, r, v.(int)) },
		func(t *Table, col string, ci, r int, v interface{}) error { return vzMustErr(func() { t.SetIntMustSet(col, r, v.(int)) }) },
		func(t *Table, col string, ci, r int, v interface{}) error { return vzMustErr(func() { t.SetIntByColIndexMustSet(ci, r, v.(int)) }) },
	}, []vzGetF{
		func(t *Table, col string, ci, r int) (interface{}, error) { v, err := t.GetInt(col, r); return v, err },
		func(t *Table, col string, ci, r int) (interface{}, error) { v, err := t.GetIntByColIndex(ci, r); return v, err },
		func(t *Table, col string, ci, r int) (v interface{}, err error) { err = vzMustErr(func() { v = t.GetIntMustGet(col, r) }); return v, err },
		func(t *Table, col string, ci, r int) (v interface{}, err error) { err = vzMustErr(func() { v = t.GetIntByColIndexMustGet(ci, r) }); return v, err },
	}},
	{"int16", []vzSetF{
		func(t *Table, col string, ci, r int, v interface{}) error { return t.SetInt16(col, r, v.(int16)) },
		func(t *Table, col string, ci, r int, v interface{}) error { return t.SetInt16ByColIndex(ci, r, v.(int16)) },
		func(t *Table, col string, ci, r int, v interface{}) error { return vzMustErr(func() { t.SetInt16MustSet(col, r, v.(int16)) }) },
		func(t *Table, col string, ci, r int, v interface{}) error { return vzMustErr(func() { t.SetInt16ByColIndexMustSet(ci, r, v.(int16)) }) },
	}, []vzGetF{
		func(t *Table, col string, ci, r int) (interface{}, error) { v, err := t.GetInt16(col, r); return v, err },
		func(t *Table, col string, ci, r int) (interface{}, error) { v, err := t.GetInt16ByColIndex(ci, r); return v, err },
		func(t *Table, col string, ci, r int) (v interface{}, err error) { err = vzMustErr(func() { v = t.GetInt16MustGet(col, r) }); return v, err },
		func(t *Table, col string, ci, r int) (v interface{}, err error) { err = vzMustErr(func() { v = t.GetInt16ByColIndexMustGet(ci, r) }); return v, err },
	}},
	{"int32", []vzSetF{
		func(t *Table, col string, ci, r int, v interface{}) error { return t.SetInt32(col, r, v.(int32)) },
		func(t *Table, col string, ci, r int, v interface{}) error { return t.SetInt32ByColIndex(ci, r, v.(int32)) },
		func(t *Table, col string, ci, r int, v interface{}) error { return vzMustErr(func() { t.SetInt32MustSet(col, r, v.(int32)) }) },
		func(t *Table, col string, ci, r int, v interface{}) error { return vzMustErr(func() { t.SetInt32ByColIndexMustSet(ci, r, v.(int32)) }) },
	}, []vzGetF{
		func(t *Table, col string, ci, r int) (interface{}, error) { v, err := t.GetInt32(col, r); return v, err },
		func(t *Table, col string, ci, r int) (interface{}, error) { v, err := t.GetInt32ByColIndex(ci, r); return v, err },
		func(t *Table, col string, ci, r int) (v interface{}, err error) { err = vzMustErr(func() { v = t.GetInt32MustGet(col, r) }); return v, err },
		func(t *Table, col string, ci, r int) (v interface{}, err error) { err = vzMustErr(func() { v = t.GetInt32ByColIndexMustGet(ci, r) }); return v, err },
	}},
	{"int64", []vzSetF{
		func(t *Table, col string, ci, r int, v interface{}) error { return t.SetInt64(col, r, v.(int64)) },
		func(t *Table, col string, ci, r int, v interface{}) error { return t.SetInt64ByColIndex(ci, r, v.(int64)) },
		func(t *Table, col string, ci, r int, v interface{}) error { return vzMustErr(func() { t.SetInt64MustSet(col, r, v.(int64)) }) },
		func(t *Table, col string, ci, r int, v interface{}) error { return vzMustErr(func() { t.SetInt64ByColIndexMustSet(ci, r, v.(int64)) }) },
	}, []vzGetF{
		func(t *Table, col string, ci, r int) (interface{}, error) { v, err := t.GetInt64(col, r); return v, err },
		func(t *Table, col string, ci, r int) (interface{}, error) { v, err := t.GetInt64ByColIndex(ci, r); return v, err },
		func(t *Table, col string, ci, r int) (v interface{}, err error) { err = vzMustErr(func() { v = t.GetInt64MustGet(col, r) }); return v, err },
		func(t *Table, col string, ci, r int) (v interface{}, err error) { err = vzMustErr(func() { v = t.GetInt64ByColIndexMustGet(ci, r) }); return v, err },
	}},
	{"int8", []vzSetF{
		func(t *Table, col string, ci, r int, v interface{}) error { return t.SetInt8(col, r, v.(int8)) },
		func(t *Table, col string, ci, r int, v interface{}) error { return t.SetInt8ByColIndex(ci, r, v.(int8)) },
		func(t *Table, col string, ci, r int, v interface{}) error { return vzMustErr(func() { t.SetInt8MustSet(col, r, v.(int8)) }) },
		func(t *Table, col string, ci, r int, v interface{}) error { return vzMustErr(func() { t.SetInt8ByColIndexMustSet(ci, r, v.(int8)) }) },
	}, []vzGetF{
		func(t *Table, col string, ci, r int) (interface{}, error) { v, err := t.GetInt8(col, r); return v, err },
		func(t *Table, col string, ci, r int) (interface{}, error) { v, err := t.GetInt8ByColIndex(ci, r); return v, err },
		func(t *Table, col string, ci, r int) (v interface{}, err error) { err = vzMustErr(func() { v = t.GetInt8MustGet(col, r) }); return v, err },
		func(t *Table, col string, ci, r int) (v interface{}, err error) { err = vzMustErr(func() { v = t.GetInt8ByColIndexMustGet(ci, r) }); return v, err },
	}},
	{"rune", []vzSetF{
		func(t *Table, col string, ci, r int, v interface{}) error { return t.SetRune(col, r, v.(rune)) },
		func(t *Table, col string, ci, r int, v interface{}) error { return t.SetRuneByColIndex(ci, r, v.(rune)) },
		func(t *Table, col string, ci, r int, v interface{}) error { return vzMustErr(func() { t.SetRuneMustSet(col, r, v.(rune)) }) },
		func(t *Table, col string, ci, r int, v interface{}) error { return vzMustErr(func() { t.SetRuneByColIndexMustSet(ci, r, v.(rune)) }) },
	}, []vzGetF{
		func(t *Table, col string, ci, r int) (interface{}, error) { v, err := t.GetRune(col, r); return v, err },
		func(t *Table, col string, ci, r int) (interface{}, error) { v, err := t.GetRuneByColIndex(ci, r); return v, err },
		func(t *Table, col string, ci, r int) (v interface{}, err error) { err = vzMustErr(func() { v = t.GetRuneMustGet(col, r) }); return v, err },
		func(t *Table, col string, ci, r int) (v interface{}, err error) { err = vzMustErr(func() { v = t.GetRuneByColIndexMustGet(ci, r) }); return v, err },
	}},
	{"string", []vzSetF{
		func(t *Table, col string, ci, r int, v interface{}) error { return t.SetString(col, r, v.(string)) },
		func(t *Table, col string, ci, r int, v interface{}) error { return t.SetStringByColIndex(ci, r, v.(string)) },
		func(t *Table, col string, ci, r int, v interface{}) error { return vzMustErr(func() { t.SetStringMustSet(col, r, v.(string)) }) },
		func(t *Table, col string, ci, r int, v interface{}) error { return vzMustErr(func() { t.SetStringByColIndexMustSet(ci, r, v.(string)) }) },
	}, []vzGetF{
		func(t *Table, col string, ci, r int) (interface{}, error) { v, err := t.GetString(col, r); return v, err },
		func(t *Table, col string, ci, r int) (interface{}, error) { v, err := t.GetStringByColIndex(ci, r); return v, err },
		func(t *Table, col string, ci, r int) (v interface{}, err error) { err = vzMustErr(func() { v = t.GetStringMustGet(col, r) }); return v, err },
		func(t *Table, col string, ci, r int) (v interface{}, err error) { err = vzMustErr(func() { v = t.GetStringByColIndexMustGet(ci, r) }); return v, err },
	}},
	{"uint", []vzSetF{
		func(t *Table, col string, ci, r int, v interface{}) error { return t.SetUint(col, r, v.(uint)) },
		func(t *Table, col string, ci, r int, v interface{}) error { return t.SetUintByColIndex(ci, r, v.(uint)) },
		func(t *Table, col string, ci, r int, v interface{}) error { return vzMustErr(func() { t.SetUintMustSet(col, r, v.(uint)) }) },
		func(t *Table, col string, ci, r int, v interface{}) error { return vzMustErr(func() { t.SetUintByColIndexMustSet(ci, r, v.(uint)) }) },
	}, []vzGetF{
		func(t *Table, col string, ci, r int) (interface{}, error) { v, err := t.GetUint(col, r); return v, err },
		func(t *Table, col string, ci, r int) (interface{}, error) { v, err := t.GetUintByColIndex(ci, r); return v, err },
		func(t *Table, col string, ci, r int) (v interface{}, err error) { err = vzMustErr(func() { v = t.GetUintMustGet(col, r) }); return v, err },
		func(t *Table, col string, ci, r int) (v interface{}, err error) { err = vzMustErr(func() { v = t.GetUintByColIndexMustGet(ci, r) }); return v, err },
	}},
	{"uint16", []vzSetF{
		func(t *Table, col string, ci, r int, v interface{}) error { return t.SetUint16(col, r, v.(uint16)) },
		func(t *Table, col string, ci, r int, v interface{}) error { return t.SetUint16ByColIndex(ci, r, v.(uint16)) },
		func(t *Table, col string, ci, r int, v interface{}) error { return vzMustErr(func() { t.SetUint16MustSet(col, r, v.(uint16)) }) },
		func(t *Table, col string, ci, r int, v interface{}) error { return vzMustErr(func() { t.SetUint16ByColIndexMustSet(ci, r, v.(uint16)) }) },
	}, []vzGetF{
		func(t *Table, col string, ci, r int) (interface{}, error) { v, err := t.GetUint16(col, r); return v, err },
		func(t *Table, col string, ci, r int) (interface{}, error) { v, err := t.GetUint16ByColIndex(ci, r); return v, err },
		func(t *Table, col string, ci, r int) (v interface{}, err error) { err = vzMustErr(func() { v = t.GetUint16MustGet(col, r) }); return v, err },
		func(t *Table, col string, ci, r int) (v interface{}, err error) { err = vzMustErr(func() { v = t.GetUint16ByColIndexMustGet(ci, r) }); return v, err },
	}},
	{"uint32", []vzSetF{
		func(t *Table, col string, ci, r int, v interface{}) error { return t.SetUint32(col, r, v.(uint32)) },
		func(t *Table, col string, ci, r int, v interface{}) error { return t.SetUint32ByColIndex(ci, r, v.(uint32)) },
		func(t *Table, col string, ci, r int, v interface{}) error { return vzMustErr(func() { t.SetUint32MustSet(col, r, v.(uint32)) }) },
		func(t *Table, col string, ci, r int, v interface{}) error { return vzMustErr(func() { t.SetUint32ByColIndexMustSet(ci, r, v.(uint32)) }) },
	}, []vzGetF{
		func(t *Table, col string, ci, r int) (interface{}, error) { v, err := t.GetUint32(col, r); return v, err },
		func(t *Table, col string, ci, r int) (interface{}, error) { v, err := t.GetUint32ByColIndex(ci, r); return v, err },
		func(t *Table, col string, ci, r int) (v interface{}, err error) { err = vzMustErr(func() { v = t.GetUint32MustGet(col, r) }); return v, err },
		func(t *Table, col string, ci, r int) (v interface{}, err error) { err = vzMustErr(func() { v = t.GetUint32ByColIndexMustGet(ci, r) }); return v, err },
	}},
	{"uint64", []vzSetF{
		func(t *Table, col string, ci, r int, v interface{}) error { return t.SetUint64(col, r, v.(uint64)) },
		func(t *Table, col string, ci, r int, v interface{}) error { return t.SetUint64ByColIndex(ci, r, v.(uint64)) },
		func(t *Table, col string, ci, r int, v interface{}) error { return vzMustErr(func() { t.SetUint64MustSet(col, r, v.(uint64)) }) },
		func(t *Table, col string, ci, r int, v interface{}) error { return vzMustErr(func() { t.SetUint64ByColIndexMustSet(ci, r, v.(uint64)) }) },
	}, []vzGetF{
		func(t *Table, col string, ci, r int) (interface{}, error) { v, err := t.GetUint64(col, r); return v, err },
		func(t *Table, col string, ci, r int) (interface{}, error) { v, err := t.GetUint64ByColIndex(ci, r); return v, err },
		func(t *Table, col string, ci, r int) (v interface{}, err error) { err = vzMustErr(func() { v = t.GetUint64MustGet(col, r) }); return v, err },
		func(t *Table, col string, ci, r int) (v interface{}, err error) { err = vzMustErr(func() { v = t.GetUint64ByColIndexMustGet(ci, r) }); return v, err },
	}},
	{"uint8", []vzSetF{
		func(t *Table, col string, ci, r int, v interface{}) error { return t.SetUint8(col, r, v.(uint8)) },
		func(t *Table, col string, ci, r int, v interface{}) error { return t.SetUint8ByColIndex(ci, r, v.(uint8)) },
		func(t *Table, col string, ci, r int, v interface{}) error { return vzMustErr(func() { t.SetUint8MustSet(col, r, v.(uint8)) }) },
		func(t *Table, col string, ci, r int, v interface{}) error { return vzMustErr(func() { t.SetUint8ByColIndexMustSet(ci, r, v.(uint8)) }) },
	}, []vzGetF{
		func(t *Table, col string, ci, r int) (interface{}, error) { v, err := t.GetUint8(col, r); return v, err },
		func(t *Table, col string, ci, r int) (interface{}, error) { v, err := t.GetUint8ByColIndex(ci, r); return v, err },
		func(t *Table, col string, ci, r int) (v interface{}, err error) { err = vzMustErr(func() { v = t.GetUint8MustGet(col, r) }); return v, err },
		func(t *Table, col string, ci, r int) (v interface{}, err error) { err = vzMustErr(func() { v = t.GetUint8ByColIndexMustGet(ci, r) }); return v, err },
	}},
	{"*Table", []vzSetF{
		func(t *Table, col string, ci, r int, v interface{}) error { return t.SetTable(col, r, v.(*Table)) },
		func(t *Table, col string, ci, r int, v interface{}) error { return t.SetTableByColIndex(ci, r, v.(*Table)) },
		func(t *Table, col string, ci, r int, v interface{}) error { return vzMustErr(func() { t.SetTableMustSet(col, r, v.(*Table)) }) },
		func(t *Table, col string, ci, r int, v interface{}) error { return vzMustErr(func() { t.SetTableByColIndexMustSet(ci, r, v.(*Table)) }) },
	}, []vzGetF{
		func(t *Table, col string, ci, r int) (interface{}, error) { v, err := t.GetTable(col, r); return v, err },
		func(t *Table, col string, ci, r int) (interface{}, error) { v, err := t.GetTableByColIndex(ci, r); return v, err },
		func(t *Table, col string, ci, r int) (v interface{}, err error) { err = vzMustErr(func() { v = t.GetTableMustGet(col, r) }); return v, err },
		func(t *Table, col string, ci, r int) (v interface{}, err error) { err = vzMustErr(func() { v = t.GetTableByColIndexMustGet(ci, r) }); return v, err },
	}},
	{"time.Time", []vzSetF{
		func(t *Table, col string, ci, r int, v interface{}) error { return t.SetTime(col, r, v.(time.Time)) },
		func(t *Table, col string, ci, r int, v interface{}) error { return t.SetTimeByColIndex(ci, r, v.(time.Time)) },
		func(t *Table, col string, ci, r int, v interface{}) error { return vzMustErr(func() { t.SetTimeMustSet(col, r, v.(time.Time)) }) },
		func(t *Table, col string, ci, r int, v interface{}) error { return vzMustErr(func() { t.SetTimeByColIndexMustSet(ci, r, v.(time.Time)) }) },
	}, []vzGetF{
		func(t *Table, col string, ci, r int) (interface{}, error) { v, err := t.GetTime(col, r); return v, err },
		func(t *Table, col string, ci, r int) (interface{}, error) { v, err := t.GetTimeByColIndex(ci, r); return v, err },
		func(t *Table, col string, ci, r int) (v interface{}, err error) { err = vzMustErr(func() { v = t.GetTimeMustGet(col, r) }); return v, err },
		func(t *Table, col string, ci, r int) (v interface{}, err error) { err = vzMustErr(func() { v = t.GetTimeByColIndexMustGet(ci, r) }); return v, err },
	}},
}

// generic accessors
var vzGenSet = []vzSetF{
	func(t *Table, col string, ci, r int, v interface{}) error { return t.SetVal(col, r, v) },
	func(t *Table, col string, ci, r int, v interface{}) error { return t.SetValByColIndex(ci, r, v) },
}
var vzGenGet = []vzGetF{
	func(t *Table, col string, ci, r int) (interface{}, error) { return t.GetVal(col, r) },
	func(t *Table, col string, ci, r int) (interface{}, error) { return t.GetValByColIndex(ci, r) },
	func(t *Table, col string, ci, r int) (v interface{}, err error) { err = vzMustErr(func() { v = t.GetValMustGet(col, r) }); return v, err },
	func(t *Table, col string, ci, r int) (v interface{}, err error) { err = vzMustErr(func() { v = t.GetValByColIndexMustGet(ci, r) }); return v, err },
}

func vzAccOf(typ string) vzAcc {
	for _, a := range vzAccs {
		if a.typ == typ {
			return a
		}
	}
	panic("vzAccOf: " + typ)
}
