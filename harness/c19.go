//go:build go1.21

package gotables

// A table set keeps unique names and finds each table by its name.

// vzSetCheck: the set holds exactly the tables ts, named names, in order.
func vzSetCheck(s *TableSet, ts []*Table, names []string, where string) {
	vzAssert(s.TableCount() == len(ts), where+": the set holds exactly the tables appended and not deleted")
	if s.TableCount() != len(ts) {
		return
	}
	for i := range ts {
		vzAssert(ts[i].Name() == names[i], where+": each table has its name")
		for j := 0; j < i; j++ {
			vzAssert(names[i] != names[j], where+": names are unique")
		}
		g, err := s.GetTableByTableIndex(i)
		vzAssert(err == nil && g == ts[i], where+": each table is found by its index, in the order appended")
		g, err = s.GetTable(names[i])
		vzAssert(err == nil && g == ts[i], where+": each table is found by its name")
		has, err := s.HasTable(names[i])
		vzAssert(has && err == nil, where+": HasTable of an existing table")
		ix, err := s.TableIndex(names[i])
		vzAssert(err == nil && ix == i, where+": TableIndex of an existing table")
	}
}

// vzC19name: an arbitrary name of one byte (both cases, invalid bytes included), or two bytes.
func vzC19name(w string) string { return vzStr(w, vzRange(w+".len", 0, 1+vzTier())) }

func vzIndexOf(names []string, n string) int {
	for i := range names {
		if names[i] == n {
			return i
		}
	}
	return -1
}

func vzC19op(s *TableSet, ts *[]*Table, names *[]string, op int) {
	switch op {
	case 0: // append
		n := vzC19name("append")
		t, err := NewTable(n)
		vzAssume(err == nil)
		dup := vzIndexOf(*names, n) >= 0
		if vzRange("how", 0, 1) == 0 {
			err = s.AppendTable(t)
		} else {
			err = s.Append(t)
		}
		vzAssert((err != nil) == dup, "appending is refused exactly when the name is already present")
		if !dup {
			*ts, *names = append(*ts, t), append(*names, n)
		}
	case 1: // rename
		from, to := vzC19name("from"), vzC19name("to")
		err := s.RenameTable(from, to)
		i := vzIndexOf(*names, from)
		ok, _ := IsValidTableName(to)
		want := i >= 0 && vzIndexOf(*names, to) < 0 && ok
		vzAssert((err == nil) == want, "renaming succeeds exactly for an existing table and a valid new name not yet present")
		if want {
			*names = append([]string{}, *names...)
			(*names)[i] = to
		}
	case 2: // delete by name
		n := vzC19name("del")
		i := vzIndexOf(*names, n)
		err := s.DeleteTable(n)
		vzAssert((err == nil) == (i >= 0), "deleting succeeds exactly for an existing table")
		if i >= 0 {
			*ts = append(append([]*Table{}, (*ts)[:i]...), (*ts)[i+1:]...)
			*names = append(append([]string{}, (*names)[:i]...), (*names)[i+1:]...)
		}
	case 3: // delete by index
		i := vzInt("delix")
		err := s.DeleteTableByTableIndex(i)
		in := vzAnd(0 <= i, i < len(*ts))
		vzAssert((err == nil) == in, "deleting succeeds exactly for an existing index")
		if in {
			*ts = append(append([]*Table{}, (*ts)[:i]...), (*ts)[i+1:]...)
			*names = append(append([]string{}, (*names)[:i]...), (*names)[i+1:]...)
		}
	case 4: // lookup of an arbitrary name
		n := vzC19name("look")
		i := vzIndexOf(*names, n)
		has, err := s.HasTable(n)
		vzAssert(has == (i >= 0) && (err == nil) == has, "HasTable tells exactly whether the name is present")
		g, err := s.GetTable(n)
		vzAssert((err == nil) == (i >= 0), "GetTable finds exactly the names present")
		vzAssert(i < 0 || g == (*ts)[i], "GetTable returns the table of the name")
		ix, err := s.TableIndex(n)
		vzAssert((err == nil) == (i >= 0) && ix == i, "TableIndex finds exactly the names present")
		k := vzInt("lookix")
		g, err = s.GetTableByTableIndex(k)
		in := vzAnd(0 <= k, k < len(*ts))
		vzAssert((err == nil) == in, "GetTableByTableIndex finds exactly the indices present")
		if in {
			vzAssert(g == (*ts)[k], "GetTableByTableIndex returns the table of the index")
		}
	}
}

func vzC19hist(steps int) {
	s, err := NewTableSet("S")
	vzMust(err, "NewTableSet")
	var ts []*Table
	var names []string
	// start from up to two (three) tables
	n := vzRange("start", 0, 2+vzTier())
	for i := 0; i < n; i++ {
		nm := []string{"a", "B", "_"}[i]
		t, err := NewTable(nm)
		vzMust(err, "NewTable")
		vzMust(s.AppendTable(t), "AppendTable of a new name")
		ts, names = append(ts, t), append(names, nm)
	}
	vzSetCheck(s, ts, names, "start")
	for k := 0; k < steps; k++ {
		vzC19op(s, &ts, &names, vzRange("op", 0, 4))
		vzSetCheck(s, ts, names, "after an operation")
	}
	ok, err := s.IsValidTableSet()
	vzAssert(ok && err == nil, "the set is valid")
	vzAssert(s.Name() == "S", "operations on tables keep the set's name")
	vzReach("end")
}

func vzC19_hist1() { vzC19hist(1) }
func vzC19_hist2() { vzC19hist(2) }

// three operations with names from a few
func vzC19_hist3() {
	s, err := NewTableSet("")
	vzMust(err, "NewTableSet")
	pool := []string{"a", "A", "b"}
	var ts []*Table
	var names []string
	for k := 0; k < 3+vzTier(); k++ {
		n := pool[vzRange("n", 0, 2)]
		i := vzIndexOf(names, n)
		switch vzRange("op", 0, 2) {
		case 0:
			t, err := NewTable(n)
			vzMust(err, "NewTable")
			vzAssert((s.AppendTable(t) == nil) == (i < 0), "appending is refused exactly when the name is already present")
			if i < 0 {
				ts, names = append(ts, t), append(names, n)
			}
		case 1:
			vzAssert((s.DeleteTable(n) == nil) == (i >= 0), "deleting succeeds exactly for an existing table")
			if i >= 0 {
				ts, names = append(append([]*Table{}, ts[:i]...), ts[i+1:]...), append(append([]string{}, names[:i]...), names[i+1:]...)
			}
		case 2:
			m := pool[vzRange("m", 0, 2)]
			want := i >= 0 && vzIndexOf(names, m) < 0
			vzAssert((s.RenameTable(n, m) == nil) == want, "renaming succeeds exactly for an existing table and a new name not yet present")
			if want {
				names = append([]string{}, names...)
				names[i] = m
			}
		}
		vzSetCheck(s, ts, names, "after an operation")
	}
	vzReach("end")
}

func vzC19_nil() {
	s, err := NewTableSet("S")
	vzMust(err, "NewTableSet")
	n := vzRange("tables", 0, 1)
	if n == 1 {
		t, err := NewTable("a")
		vzMust(err, "NewTable")
		vzMust(s.AppendTable(t), "AppendTable")
	}
	vzAssert(s.AppendTable(nil) != nil, "a nil table is refused")
	vzAssert(s.TableCount() == n, "a refused append changes nothing")
	vzReach("end")
}

// many tables
func vzC19_big() {
	s, err := NewTableSet("S")
	vzMust(err, "NewTableSet")
	var ts []*Table
	var names []string
	n := 12
	for i := 0; i < n; i++ {
		nm := "T" + vzDec(i)
		t, err := NewTable(nm)
		vzMust(err, "NewTable")
		vzMust(s.AppendTable(t), "AppendTable of a new name")
		ts, names = append(ts, t), append(names, nm)
	}
	vzSetCheck(s, ts, names, "start")
	i, j := vzRange("i", 0, n-1), vzRange("j", 0, n-1)
	switch vzRange("op", 0, 4) {
	case 0:
		vzMust(s.DeleteTable(names[i]), "DeleteTable")
		ts = append(append([]*Table{}, ts[:i]...), ts[i+1:]...)
		names = append(append([]string{}, names[:i]...), names[i+1:]...)
	case 1:
		vzMust(s.DeleteTableByTableIndex(i), "DeleteTableByTableIndex")
		ts = append(append([]*Table{}, ts[:i]...), ts[i+1:]...)
		names = append(append([]string{}, names[:i]...), names[i+1:]...)
	case 2:
		vzAssert((s.RenameTable(names[i], names[j]) == nil) == false, "renaming to a name present is refused")
	case 3:
		t, err := NewTable(names[i])
		vzMust(err, "NewTable")
		vzAssert(s.AppendTable(t) != nil, "appending a name present is refused")
	case 4:
		vzMust(s.RenameTable(names[i], "t"+vzDec(j)), "RenameTable to a name that differs in case")
		names[i] = "t" + vzDec(j)
	}
	vzSetCheck(s, ts, names, "after")
	vzReach("end")
}
