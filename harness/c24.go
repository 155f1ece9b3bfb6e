//go:build go1.21

package gotables

import "time"

// Type and validity predicates agree with what tables accept.

// vzC24name: type predicates and column creation for the type name s.
func vzC24name(s string) {
	want := vzIsType(s)
	ok, err := IsValidColType(s)
	vzAssert(ok == want && (err == nil) == want, "IsValidColType accepts exactly the type names")
	t := vzBuild("T", []string{"a"}, []string{"int"}, 1, 1)
	err = t.AppendCol("n", s)
	vzAssert((err == nil) == want, "a column can be appended exactly with a type name")
	_, err = NewTableFromMetadata("M", []string{"n"}, []string{s})
	vzAssert((err == nil) == want, "a table can be made exactly with type names")
	num := want && s != "bool" && s != "string" && s[0] != '[' && s[0] != '*' && s != "time.Time" && s != "rune"
	vzAssert(!want || s == "rune" || IsNumericColType(s) == num, "IsNumericColType tells exactly the numeric types")
	vzAssert(IsSliceColType(s) == (s == "[]byte" || s == "[]uint8"), "IsSliceColType tells exactly the slice types")
	vzAssert(IsTableColType(s) == (s == "*Table"), "IsTableColType tells exactly the table type")
	if want {
		for _, u := range vzAllTypes {
			is, err := t.IsColType("n", u)
			vzAssert(err == nil && is == (u == s), "IsColType tells the column's type")
			is, err = t.IsColTypeByColIndex(1, u)
			vzAssert(err == nil && is == (u == s), "IsColTypeByColIndex tells the column's type")
		}
		is, err := t.IsTableCol("n")
		vzAssert(err == nil && is == (s == "*Table"), "IsTableCol tells the column's type")
		is, err = t.IsTableColByColIndex(1)
		vzAssert(err == nil && is == (s == "*Table"), "IsTableColByColIndex tells the column's type")
		ty, err := t.ColType("n")
		vzAssert(err == nil && ty == s, "ColType tells the column's type")
	}
	vzReach("end")
}

// every type name, and every type name with one byte changed, removed or added
func vzC24_typeNames() {
	s := vzAllTypes[vzRange("type", 0, len(vzAllTypes)-1)]
	p := vzRange("pos", 0, len(s))
	x := vzStr("x", 1)
	switch vzRange("change", 0, 3) {
	case 0:
		vzAssume(p == 0)
	case 1:
		vzAssume(p < len(s))
		s = s[:p] + x + s[p+1:]
	case 2:
		vzAssume(p < len(s))
		s = s[:p] + s[p+1:]
	case 3:
		s = s[:p] + x + s[p:]
	}
	vzC24name(s)
}

func vzC24_typeShort() { vzC24name(vzStr("s", vzRange("len", 0, 4+vzTier()))) }
func vzC24_typeLong()  { vzC24name(vzStr("s", vzRange("len", 5, 7))) }

// vzC24val: a value of one of many Go types; the type is the column type that accepts it ("" for none).
func vzC24val() (interface{}, string) {
	k := vzRange("valtype", 0, len(vzAllTypes)+9)
	if k < len(vzAllTypes) {
		ty := vzAllTypes[k]
		return vzCellN(ty, "v", 1), ty
	}
	switch k - len(vzAllTypes) {
	case 0:
		return nil, ""
	case 1:
		return (*Table)(nil), ""
	case 2:
		return []int{1}, ""
	case 3:
		return &TableSet{}, ""
	case 4:
		return [1]byte{1}, ""
	case 5:
		return []string{"a"}, ""
	case 6:
		return time.Duration(vzInt64("v")), ""
	case 7:
		return struct{}{}, ""
	case 8:
		return Table{}, ""
	default:
		return map[string]int{}, ""
	}
}

// every pair of column type and value type
func vzC24_values() {
	ty := vzAllTypes[vzRange("coltype", 0, len(vzAllTypes)-1)]
	t, err := NewTableFromMetadata("T", []string{"c"}, []string{ty})
	vzMust(err, "NewTableFromMetadata")
	vzMust(t.AppendRow(), "AppendRow")
	v, vty := vzC24val()
	want := vty != "" && vzAliasTypes(vty, ty)
	ok, err := t.IsValidColValue("c", v)
	vzAssert(ok == want && (err == nil) == want, "IsValidColValue accepts exactly values of the column's type")
	ok, err = t.IsValidCellValue("c", v)
	vzAssert(ok == want && (err == nil) == want, "IsValidCellValue accepts exactly values of the column's type")
	ok, err = t.IsValidCellValue("zz", v)
	vzAssert(!ok && err != nil, "no value is valid for an unknown column")
	before := vzSnap(t)
	err = t.SetVal("c", 0, v)
	vzAssert((err == nil) == want, "SetVal stores exactly values of the column's type")
	if want {
		g, err := t.GetVal("c", 0)
		vzAssert(err == nil && vzSame(g, v), "the stored value is the value given")
	} else {
		vzAssert(vzSnapSame(vzSnap(t), before), "a refused value changes nothing")
	}
	err = t.SetValByColIndex(0, 0, v)
	vzAssert((err == nil) == want, "SetValByColIndex stores exactly values of the column's type")
	ok, err = t.IsValidTable()
	vzAssert(ok && err == nil, "the table is valid")
	vzReach("end")
}

func vzC24_alias() {
	a := vzAllTypes[vzRange("a", 0, len(vzAllTypes)-1)]
	b := vzAllTypes[vzRange("b", 0, len(vzAllTypes)-1)]
	vzAssert(isAlias(a, b) == (a != b && vzAliasTypes(a, b)), "byte/uint8, []byte/[]uint8 and rune/int32 are the aliases")
	list := " " + TypesList() + " "
	found := false
	for i := 0; i+len(a)+2 <= len(list); i++ {
		found = found || list[i:i+len(a)+2] == " "+a+" "
	}
	vzAssert(found, "TypesList names every type")
	vzReach("end")
}
