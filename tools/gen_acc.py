#!/usr/bin/env python3
# Writes harness/rt_acc.go: one uniform table of the typed accessors.
T = dict(ByteSlice="[]byte", Uint8Slice="[]uint8", Bool="bool", Byte="byte", Float32="float32", Float64="float64", Int="int", Int16="int16",
 Int32="int32", Int64="int64", Int8="int8", Rune="rune", String="string", Uint="uint", Uint16="uint16", Uint32="uint32", Uint64="uint64", Uint8="uint8", Table="*Table", Time="time.Time")
o = ["//go:build go1.21\n\npackage gotables\n\n// Code generated by tools/gen_acc.py. DO NOT EDIT.\n\nimport \"time\"\n\nvar _ time.Time\n\n"
 "type vzSetF func(t *Table, col string, ci, r int, v interface{}) error\ntype vzGetF func(t *Table, col string, ci, r int) (interface{}, error)\n\n"
 "type vzAcc struct {\n\ttyp  string\n\tset  []vzSetF\n\tget  []vzGetF\n}\n\n"
 "type vzPanicErr struct{}\n\nfunc (vzPanicErr) Error() string { return \"panicked\" }\n\n"
 "func vzMustErr(f func()) error {\n\tif vzTry(f) {\n\t\treturn vzPanicErr{}\n\t}\n\treturn nil\n}\n\n"
 "// order: by name, by index, by name (must), by index (must)\nvar vzAccs = []vzAcc{\n"]
for n, t in T.items():
    o.append(f"""	{{"{t}", []vzSetF{{
		func(t *Table, col string, ci, r int, v interface{{}}) error {{ return t.Set{n}(col, r, v.({t})) }},
		func(t *Table, col string, ci, r int, v interface{{}}) error {{ return t.Set{n}ByColIndex(ci, r, v.({t})) }},
		func(t *Table, col string, ci, r int, v interface{{}}) error {{ return vzMustErr(func() {{ t.Set{n}MustSet(col, r, v.({t})) }}) }},
		func(t *Table, col string, ci, r int, v interface{{}}) error {{ return vzMustErr(func() {{ t.Set{n}ByColIndexMustSet(ci, r, v.({t})) }}) }},
	}}, []vzGetF{{
		func(t *Table, col string, ci, r int) (interface{{}}, error) {{ v, err := t.Get{n}(col, r); return v, err }},
		func(t *Table, col string, ci, r int) (interface{{}}, error) {{ v, err := t.Get{n}ByColIndex(ci, r); return v, err }},
		func(t *Table, col string, ci, r int) (v interface{{}}, err error) {{ err = vzMustErr(func() {{ v = t.Get{n}MustGet(col, r) }}); return v, err }},
		func(t *Table, col string, ci, r int) (v interface{{}}, err error) {{ err = vzMustErr(func() {{ v = t.Get{n}ByColIndexMustGet(ci, r) }}); return v, err }},
	}}}},
""")
o.append("""}

// generic accessors
var vzGenSet = []vzSetF{
	func(t *Table, col string, ci, r int, v interface{}) error { return t.SetVal(col, r, v) },
	func(t *Table, col string, ci, r int, v interface{}) error { return t.SetValByColIndex(ci, r, v) },
}
var vzGenGet = []vzGetF{
	func(t *Table, col string, ci, r int) (interface{}, error) { return t.GetVal(col, r) },
	func(t *Table, col string, ci, r int) (interface{}, error) { return t.GetValByColIndex(ci, r) },
	func(t *Table, col string, ci, r int) (v interface{}, err error) { err = vzMustErr(func() { v = t.GetValMustGet(col, r) }); return v, err },
	func(t *Table, col string, ci, r int) (v interface{}, err error) { err = vzMustErr(func() { v = t.GetValByColIndexMustGet(ci, r) }); return v, err },
}

func vzAccOf(typ string) vzAcc {
	for _, a := range vzAccs {
		if a.typ == typ {
			return a
		}
	}
	panic("vzAccOf: " + typ)
}
""")
open("/verif/harness/rt_acc.go","w").write("".join(o))
c=["//go:build go1.21\n\npackage gotables\n\n// Code generated by tools/gen_acc.py. DO NOT EDIT.\n\n"]
for n,t in T.items():
    c.append(f'func vzC02_rt_{n}()  {{ vzC02rt("{t}") }}\nfunc vzC02_oor_{n}() {{ vzC02oor("{t}") }}\nfunc vzC02_mis_{n}() {{ vzC02mis("{t}") }}\n')
open("/verif/harness/c02_gen.go","w").write("".join(c))
