//go:build go1.21

package gotables

// Name rules are enforced at every entry point.

// vzIsName: a letter or underscore followed by letters, digits or underscores, and not the name of a type.
func vzIsName(s string) bool {
	if len(s) == 0 || vzIsType(s) {
		return false
	}
	ok := true
	for i := 0; i < len(s); i++ {
		c := s[i]
		letter := vzOr(c == '_', vzOr(vzAnd('a' <= c, c <= 'z'), vzAnd('A' <= c, c <= 'Z')))
		digit := vzAnd('0' <= c, c <= '9')
		if i == 0 {
			digit = false
		}
		ok = vzAnd(ok, vzOr(letter, digit))
	}
	return ok
}

// vzC21name: an arbitrary short byte string, or the name of a type with at most one byte changed, added or removed.
func vzC21name() string { return vzC21nameN(3 + vzTier()) }

func vzC21nameN(n int) string {
	switch vzRange("kind", 0, 2) {
	case 0:
		return vzStr("s", vzRange("len", 0, n))
	case 2: // a long name with one arbitrary byte
		l := []int{9, 65, 130, 257, 1025, 4097}[vzRange("long", 0, 4+vzTier())]
		b := make([]byte, l)
		for i := range b {
			b[i] = "aZ_9x"[i%5]
		}
		b[[]int{0, 1, l / 2, l - 1}[vzRange("at", 0, 3)]] = vzUint8("x")
		return string(b)
	}
	s := vzAllTypes[vzRange("type", 0, len(vzAllTypes)-1)]
	p := vzRange("pos", 0, len(s))
	x := vzStr("x", 1)
	switch vzRange("change", 0, 3) {
	case 0:
		vzAssume(p == 0)
	case 1:
		vzAssume(p < len(s))
		s = s[:p] + x + s[p+1:]
	case 2:
		vzAssume(p < len(s))
		s = s[:p] + s[p+1:]
	case 3:
		s = s[:p] + x + s[p:]
	}
	return s
}

func vzC21_predicates() {
	s := vzC21name()
	want := vzIsName(s)
	ok, err := IsValidTableName(s)
	vzAssert(ok == want && (err == nil) == want, "IsValidTableName accepts exactly the identifiers that are not type names")
	ok, err = IsValidColName(s)
	vzAssert(ok == want && (err == nil) == want, "IsValidColName accepts exactly the identifiers that are not type names")
	vzReach("end")
}

func vzC21_tables() {
	s := vzC21name()
	want := vzIsName(s)
	t, err := NewTable(s)
	vzAssert((err == nil) == want, "NewTable accepts exactly the valid names")
	if err == nil {
		vzAssert(t.Name() == s, "a new table has the name given")
	}
	t = vzBuild("T", []string{"a"}, []string{"int"}, 1, 1)
	err = t.SetName(s)
	vzAssert((err == nil) == want, "SetName accepts exactly the valid names")
	vzAssert(t.Name() == vzPick(want, s, "T"), "SetName sets the name, or changes nothing")
	t = vzBuild("T", []string{"a"}, []string{"int"}, 1, 1)
	err = t.RenameTable(s)
	vzAssert((err == nil) == want, "RenameTable accepts exactly the valid names")
	vzAssert(t.Name() == vzPick(want, s, "T"), "RenameTable sets the name, or changes nothing")
	t, err = NewTableFromMetadata(s, []string{"a"}, []string{"int"})
	vzAssert((err == nil) == want, "NewTableFromMetadata accepts exactly the valid table names")
	if err == nil {
		vzAssert(t.Name() == s, "a table made from metadata has the name given")
	}
	vzReach("end")
}

// vzPick: a when c, else b.
func vzPick(c bool, a, b string) string {
	if c {
		return a
	}
	return b
}

func vzC21_sets() {
	s := vzC21name()
	want := vzIsName(s)
	set, err := NewTableSet("S")
	vzMust(err, "NewTableSet")
	t := vzBuild("T0", []string{"a"}, []string{"int"}, 1, 1)
	vzMust(set.AppendTable(t), "AppendTable")
	vzAssume(s != "T0")
	err = set.RenameTable("T0", s)
	vzAssert((err == nil) == want, "RenameTable of a set accepts exactly the valid names")
	vzAssert(t.Name() == vzPick(want, s, "T0"), "RenameTable of a set renames the table, or changes nothing")
	vzReach("end")
}

func vzC21_cols()       { vzC21cols(vzRange("entry", 0, 3), 3+vzTier()) }
func vzC21_parsedCols() { vzC21cols(vzRange("entry", 4, 5), 2+vzTier()) }

func vzC21cols(entry, maxLen int) {
	s := vzC21nameN(maxLen)
	want := vzIsName(s)
	t := vzBuild("T", []string{"A0", "B0"}, []string{"int", "string"}, 1, 1)
	vzAssume(s != "A0" && s != "B0")
	before := vzSnap(t)
	var err error
	n := 1
	switch entry {
	case 0:
		err = t.AppendCol(s, "bool")
		n = 2
	case 1:
		err = t.RenameCol("B0", s)
	case 2:
		err = t.RenameColByColIndex(1, s)
	case 3:
		t, err = NewTableFromMetadata("M", []string{"A0", s}, []string{"int", "string"})
	case 4: // the columns of a parsed table
		set, err := NewTableSetFromString("[T]\nA0 " + s + "\nint string\n1 \"x\"\n")
		if want {
			vzMust(err, "parsing accepts every valid column name")
			t, err = set.GetTable("T")
			vzMust(err, "the parsed table is found")
			name, err := t.ColName(1)
			vzAssert(err == nil && name == s && t.ColCount() == 2 && t.RowCount() == 1, "the parsed column has the name given")
		} else if err == nil {
			vzParsedNames(set)
		}
		vzReach("parsed")
		return
	case 5: // the columns of a parsed struct
		set, err := NewTableSetFromString("[T]\n" + s + " int = 5\n")
		if want {
			vzMust(err, "parsing accepts every valid column name")
			t, err = set.GetTable("T")
			vzMust(err, "the parsed table is found")
			name, err := t.ColName(0)
			vzAssert(err == nil && name == s && t.ColCount() == 1 && t.RowCount() == 1, "the parsed column has the name given")
		} else if err == nil {
			vzParsedNames(set)
		}
		vzReach("parsed-struct")
		return
	}
	vzAssert((err == nil) == want, "every way of naming a column accepts exactly the valid names")
	if err == nil {
		name, err := t.ColName(n)
		vzAssert(err == nil && name == s, "the column has the name given")
	} else if t != nil {
		vzAssert(vzSnapSame(vzSnap(t), before), "a refused name changes nothing")
	}
	vzReach("end")
}

// vzParsedNames: every table and column name of a parsed set is valid.
func vzParsedNames(set *TableSet) {
	for i := 0; i < set.TableCount(); i++ {
		t, err := set.GetTableByTableIndex(i)
		vzMust(err, "GetTableByTableIndex")
		vzAssert(vzIsName(t.Name()), "parsing accepts no invalid table name")
		for c := 0; c < t.ColCount(); c++ {
			n, err := t.ColName(c)
			vzMust(err, "ColName")
			vzAssert(vzIsName(n), "parsing accepts no invalid column name")
		}
	}
}

func vzC21_parsedTable() {
	s := vzC21nameN(2 + vzTier())
	set, err := NewTableSetFromString("[" + s + "]\na\nint\n1\n")
	if vzIsName(s) {
		vzMust(err, "parsing accepts every valid table name")
		vzAssert(set.TableCount() == 1, "the text holds one table")
		t, err := set.GetTableByTableIndex(0)
		vzMust(err, "the parsed table is found")
		vzAssert(t.Name() == s && t.ColCount() == 1 && t.RowCount() == 1, "the parsed table has the name given")
		vzReach("valid")
	} else {
		if err == nil {
			vzParsedNames(set)
		}
		vzReach("invalid")
	}
}

// vzC21_nested: the name of a nested table in a cell of a parsed table.
func vzC21_nested() {
	s := vzC21nameN(2 + vzTier())
	set, err := NewTableSetFromString("[T]\na\n*Table\n[" + s + "]\n")
	if vzIsName(s) {
		vzMust(err, "parsing accepts every valid nested table name")
		t, err := set.GetTable("T")
		vzMust(err, "the parsed table is found")
		n, err := t.GetTable("a", 0)
		vzMust(err, "GetTable")
		vzAssert(n.Name() == s, "the nested table has the name given")
		vzReach("valid")
	} else {
		if err == nil {
			vzParsedNames(set)
			t, err := set.GetTable("T")
			if err == nil && t.RowCount() == 1 {
				n, err := t.GetTable("a", 0)
				vzAssert(err == nil && (n.Name() == "" || vzIsName(n.Name())), "parsing accepts no invalid nested table name")
			}
		}
		vzReach("invalid")
	}
}
