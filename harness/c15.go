//go:build go1.21

package gotables

import "strconv"

// Parsing arbitrary text never panics, and success means a valid table set.

// vzSetInv: everything in the set is valid, and names are unique.
func vzSetInv(set *TableSet, where string) {
	vzAssert(set != nil, where+": success gives a set")
	for i := 0; i < set.TableCount(); i++ {
		t, err := set.GetTableByTableIndex(i)
		vzMust(err, where+": every table is found")
		vzInv(t, where)
		ix, err := set.TableIndex(t.Name())
		vzAssert(err == nil && ix == i, where+": table names are unique")
	}
}

func vzC15try(text string) {
	set, err := NewTableSetFromString(text)
	if err == nil {
		vzSetInv(set, "parsed set")
		vzReach("accepted")
	} else {
		vzReach("refused")
	}
	t, err := NewTableFromString(text)
	if err == nil {
		vzAssert(set != nil && set.TableCount() == 1, "NewTableFromString accepts exactly one table")
		vzInv(t, "parsed table")
	}
}

// vzC15_text: every short byte string.
func vzC15_text() { vzC15try(vzStr("s", vzRange("len", 0, 3+vzTier()))) }

// vzLineStr: n arbitrary bytes of a line (no newline), ASCII.
func vzLineStr(name string, n int) string {
	s := vzStr(name, n)
	for i := 0; i < n; i++ {
		vzAssume(vzAnd(s[i] < 0x80, s[i] != '\n'))
	}
	return s
}

// vzC15_line: a well-formed document with one line replaced by arbitrary text.
func vzC15_line() {
	doc := []string{"[T]", "a b", "int8 string", "1 \"x\"", "2 \"y\"", "", "[U]", "c int8 = 3", "d rune = 'z'"}
	k := vzRange("line", 0, len(doc)-1)
	l := vzLineStr("s", vzRange("len", 0, 3+vzTier()))
	if vzBool("keep") {
		switch vzRange("how", 0, 1) {
		case 0:
			doc[k] += l
		case 1:
			doc[k] = l + doc[k]
		}
	} else {
		doc[k] = l
	}
	text := ""
	for _, s := range doc {
		text += s + "\n"
	}
	set, err := NewTableSetFromString(text)
	if err == nil {
		vzSetInv(set, "parsed set")
		vzReach("accepted")
	} else {
		vzReach("refused")
	}
}

// ---- rows: the reference reading of one line of cells ----

func vzBlank(c byte) bool { return c == ' ' || c == '\t' }

// vzRefCell reads one cell at the start of s; n is its length.
func vzRefCell(typ, s string) (v interface{}, n int, ok bool) {
	switch typ {
	case "string":
		if len(s) < 2 || s[0] != '"' {
			return nil, 0, false
		}
		for n = 1; n < len(s) && s[n] != '"'; n++ {
			if s[n] == '\\' {
				n++
			}
		}
		if n >= len(s) {
			return nil, 0, false
		}
		u, err := strconv.Unquote(s[:n+1])
		return u, n + 1, err == nil
	case "rune":
		if len(s) < 3 || s[0] != '\'' {
			return nil, 0, false
		}
		n = 2
		if s[1] == '\\' {
			n = 3
		}
		for ; n < len(s) && s[n] != '\''; n++ {
		}
		if n >= len(s) {
			return nil, 0, false
		}
		r, _, tail, err := strconv.UnquoteChar(s[1:n], '\'')
		return r, n + 1, err == nil && tail == ""
	case "[]byte", "[]uint8":
		if len(s) < 2 || s[0] != '[' {
			return nil, 0, false
		}
		b := []byte{}
		if s[1] == ']' {
			return b, 2, true
		}
		for n = 1; ; {
			m := n
			for m < len(s) && !vzBlank(s[m]) && s[m] != ']' {
				m++
			}
			if m >= len(s) {
				return nil, 0, false
			}
			x, ok := vzNumber(s[n:m], "byte")
			if !ok {
				return nil, 0, false
			}
			b = append(b, byte(x))
			n = m + 1
			if s[m] == ']' {
				return b, n, true
			}
		}
	case "*Table":
		if len(s) < 2 || s[0] != '[' {
			return nil, 0, false
		}
		for n = 1; n < len(s) && s[n] != ']'; n++ {
		}
		if n >= len(s) {
			return nil, 0, false
		}
		name := s[1:n]
		return name, n + 1, name == "" || vzIsIdent(name)
	}
	for n < len(s) && !vzBlank(s[n]) {
		n++
	}
	s = s[:n]
	switch typ {
	case "bool":
		return s == "true", n, s == "true" || s == "false"
	case "float32", "float64":
		if s == "NaN" {
			f, _ := strconv.ParseFloat("NaN", 64)
			if typ == "float32" {
				return float32(f), n, true
			}
			return f, n, true
		}
		if !vzFloatLit(s) && s != "Inf" && s != "+Inf" && s != "-Inf" {
			return nil, n, false
		}
		if typ == "float32" {
			f, err := strconv.ParseFloat(s, 32)
			return float32(f), n, err == nil
		}
		f, err := strconv.ParseFloat(s, 64)
		return f, n, err == nil
	}
	x, good := vzNumber(s, typ)
	return vzFromBits(x, typ), n, good
}

func vzIsIdent(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		letter := c == '_' || ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z')
		if !letter && (i == 0 || c < '0' || c > '9') {
			return false
		}
	}
	return len(s) > 0 && !vzIsType(s)
}

func vzFloatLit(s string) bool {
	i, digits := 0, 0
	if i < len(s) && (s[i] == '-' || s[i] == '+') {
		i++
	}
	for ; i < len(s) && '0' <= s[i] && s[i] <= '9'; i++ {
		digits++
	}
	if i < len(s) && s[i] == '.' {
		i++
		for ; i < len(s) && '0' <= s[i] && s[i] <= '9'; i++ {
			digits++
		}
	}
	if digits == 0 {
		return false
	}
	if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
		i++
		if i < len(s) && (s[i] == '-' || s[i] == '+') {
			i++
		}
		e := 0
		for ; i < len(s) && '0' <= s[i] && s[i] <= '9'; i++ {
			e++
		}
		if e == 0 {
			return false
		}
	}
	return i == len(s)
}

func vzFromBits(x uint64, typ string) interface{} {
	switch typ {
	case "byte", "uint8":
		return uint8(x)
	case "uint16":
		return uint16(x)
	case "uint32":
		return uint32(x)
	case "uint64":
		return x
	case "uint":
		return uint(x)
	case "int8":
		return int8(x)
	case "int16":
		return int16(x)
	case "int32":
		return int32(x)
	case "int64":
		return int64(x)
	case "int":
		return int(x)
	}
	panic("vzFromBits")
}

// vzRefRow: the cells of a line, one per column, separated by spaces or tabs.
func vzRefRow(types []string, s string) ([]interface{}, bool) {
	var row []interface{}
	for i := 0; i < len(s) && vzBlank(s[i]); {
		s = s[1:]
	}
	for i := len(s) - 1; i >= 0 && vzBlank(s[i]); i-- {
		s = s[:i]
	}
	for i, typ := range types {
		if i > 0 {
			if len(s) == 0 || !vzBlank(s[0]) {
				return nil, false
			}
			for len(s) > 0 && vzBlank(s[0]) {
				s = s[1:]
			}
		}
		v, n, ok := vzRefCell(typ, s)
		if !ok {
			return nil, false
		}
		row = append(row, v)
		s = s[n:]
	}
	return row, s == ""
}

func vzCellIs(v, want interface{}, typ string) bool {
	if typ == "*Table" {
		n, ok := v.(*Table)
		return ok && n.Name() == want.(string) && n.ColCount() == 0 && n.RowCount() == 0
	}
	return vzSame(v, want)
}

func vzC15rows(types []string, line string, strct bool) {
	var names []string
	for i := range types {
		names = append(names, "a"+strconv.Itoa(i))
	}
	text := "[T]\n"
	if strct {
		text += names[0] + " " + types[0] + " = " + line + "\n"
	} else {
		for i := range types {
			text += names[i] + " "
		}
		text += "\n"
		for i := range types {
			text += types[i] + " "
		}
		text += "\n" + line + "\n"
	}
	want, ok := vzRefRow(types, line)
	set, err := NewTableSetFromString(text)
	vzAssert((err == nil) == ok, "a line is accepted exactly when its cells match its columns in number and syntax")
	if err != nil {
		vzReach("refused")
		return
	}
	vzSetInv(set, "parsed set")
	vzAssert(set.TableCount() == 1, "the set has the one table of the text")
	t, err := set.GetTable("T")
	vzMust(err, "the parsed table is found")
	vzAssert(t.RowCount() == 1 && t.ColCount() == len(types), "the table has exactly the rows and columns of the text")
	if ok && t.RowCount() == 1 {
		for c := range types {
			v, err := t.GetValByColIndex(c, 0)
			vzMust(err, "GetValByColIndex")
			vzAssert(vzCellIs(v, want[c], types[c]), "the cells are exactly those of the text")
		}
		vzReach("accepted")
	}
}

// vzC15row: n arbitrary printable bytes or tabs, at least one not blank, not a comment.
func vzC15row(n int) string {
	s := vzStr("s", n)
	blank := true
	for i := 0; i < n; i++ {
		vzAssume(vzOr(s[i] == '\t', vzAnd(0x20 <= s[i], s[i] <= 0x7e)))
		blank = vzAnd(blank, vzOr(s[i] == ' ', s[i] == '\t'))
	}
	vzAssume(!blank)
	for i := 0; i < n; i++ {
		if vzBlank(s[i]) {
			continue
		}
		vzAssume(s[i] != '#')
		break
	}
	return s
}

func vzC15_cell() {
	typ := vzAllTypes[vzRange("type", 0, len(vzAllTypes)-2)] // time.Time below
	n := 4 + vzTier()
	if typ == "float32" || typ == "float64" || typ == "*Table" {
		n = 2 + vzTier()
	}
	vzC15rows([]string{typ}, vzC15row(vzRange("len", 1, n)), false)
}
func vzC15_structCell() {
	typ := vzAllTypes[vzRange("type", 0, len(vzAllTypes)-2)]
	vzC15rows([]string{typ}, vzC15row(vzRange("len", 1, 2+vzTier())), true)
}

// vzC15_pair: two columns, the text of a good first cell followed by arbitrary text.
func vzC15_pair() {
	goods := map[string]string{"int8": "1", "uint16": "0b1", "string": "\"x\"", "bool": "true", "rune": "'x'", "float64": "1.5", "float32": "NaN", "[]byte": "[1]", "*Table": "[N]", "time.Time": "2006-01-02T15:04:05Z"}
	t1 := []string{"int8", "uint16", "string", "bool", "rune", "float32", "[]byte", "*Table"}[vzRange("t1", 0, 7)]
	t2 := []string{"int8", "string", "bool", "rune", "[]byte", "*Table"}[vzRange("t2", 0, 5)]
	types := []string{t1, t2}
	l := vzStr("s", vzRange("len", 0, 2+vzTier()))
	for i := 0; i < len(l); i++ {
		vzAssume(vzOr(l[i] == '\t', vzAnd(0x20 <= l[i], l[i] <= 0x7e)))
	}
	line := goods[t1] + l
	if vzBool("whole") {
		line += goods[t2]
	}
	if vzBool("before") {
		line = l + goods[t1] + " " + goods[t2]
		vzAssume(len(l) == 0 || l[0] != '#')
		vzAssume(len(l) < 2 || !vzBlank(l[0]) || l[1] != '#')
	}
	vzC15rows(types, line, false)
}

// ---- documents ----

// vzC15_doc: every short sequence of lines from a menu, the last with or without a newline.
func vzC15_doc() {
	menu := []string{"", "# x", "[T]", "[U]", "[[S]]", "a b", "int8 int8", "1 2", "3", "a int8 = 4", "b int8 = 5", "a int8", "b int8 x = 6", "b int8 = x"}
	n := vzRange("lines", 1, 4+vzTier())
	var doc []string
	text := ""
	for i := 0; i < n; i++ {
		l := menu[vzRange("l"+string(rune('0'+i)), 0, len(menu)-1)]
		doc = append(doc, l)
		text += l
		if i < n-1 || vzBool("newline") {
			text += "\n"
		}
	}
	want, ok := vzRefDoc(doc)
	set, err := NewTableSetFromString(text)
	vzAssert((err == nil) == ok, "a document is accepted exactly when it describes a table set")
	if err != nil || !ok {
		vzReach("refused")
		return
	}
	vzSetInv(set, "parsed set")
	vzAssert(set.Name() == want.name && set.TableCount() == len(want.tables), "the set has the name and the tables of the text")
	if set.TableCount() == len(want.tables) {
		for i, w := range want.tables {
			t, err := set.GetTableByTableIndex(i)
			vzMust(err, "GetTableByTableIndex")
			s := vzSnap(t)
			vzAssert(vzAnd(vzSameStrs(s.names, w.names), vzAnd(s.name == w.name, len(s.cells) == len(w.cells))), "each table has the name, columns and rows of the text")
			if len(s.cells) == len(w.cells) && len(s.names) == len(w.names) {
				for r := range w.cells {
					for c := range w.cells[r] {
						vzAssert(vzSame(s.cells[r][c], w.cells[r][c]), "each table has the cells of the text")
					}
				}
			}
		}
	}
	vzReach("accepted")
}

type vzRefSet struct {
	name   string
	tables []*vzSnapT
}

// vzRefDoc reads a document over the menu's lines (every column is int8).
func vzRefDoc(doc []string) (*vzRefSet, bool) {
	set := &vzRefSet{}
	var cur *vzSnapT
	state := "name" // name, cols, types, rows, struct, structdata
	named := false
	for _, l := range doc {
		if l == "# x" {
			continue
		}
		if l == "" {
			if state == "types" {
				return nil, false
			}
			state = "name"
			continue
		}
		row := []interface{}{int8(1), int8(2)}
		switch state {
		case "name":
			if l == "[[S]]" && !named {
				set.name, named = "S", true
				continue
			}
			if l != "[T]" && l != "[U]" {
				return nil, false
			}
			for _, t := range set.tables {
				if t.name == l[1:2] {
					return nil, false
				}
			}
			cur = &vzSnapT{name: l[1:2]}
			set.tables = append(set.tables, cur)
			state = "cols"
		case "cols", "struct", "structdata":
			switch {
			case l == "a b" && state == "cols":
				state = "types"
			case l == "a int8" && state != "structdata":
				state = "struct"
				if len(cur.names) > 0 && cur.names[0] == "a" {
					return nil, false
				}
				cur.names = append(cur.names, "a")
			case (l == "a int8 = 4" || l == "b int8 = 5") && state != "struct":
				for _, n := range cur.names {
					if n == l[:1] {
						return nil, false
					}
				}
				state = "structdata"
				cur.names = append(cur.names, l[:1])
				if len(cur.cells) == 0 {
					cur.cells = [][]interface{}{nil}
				}
				cur.cells[0] = append(cur.cells[0], int8(l[9]-'0'))
			default:
				return nil, false
			}
		case "types":
			if l != "int8 int8" {
				return nil, false
			}
			cur.names = []string{"a", "b"}
			state = "rows"
		case "rows":
			if l != "1 2" {
				return nil, false
			}
			cur.cells = append(cur.cells, row)
		}
	}
	return set, state != "types"
}

// ---- larger documents ----

// vzC15_many: many columns, arbitrary text after any of the cells.
func vzC15_many() {
	types := []string{"int8", "string", "bool", "rune", "uint16", "[]byte", "float64", "*Table", "int", "bool", "string", "uint64", "byte", "float32"}
	goods := []string{"-1", "\"x y\"", "true", "'x'", "65535", "[1 2]", "1.5", "[N]", "0", "false", "\"\"", "7", "255", "NaN"}
	k := vzRange("after", 0, len(types)-1)
	l := vzStr("s", vzRange("len", 0, 1+vzTier()))
	for i := 0; i < len(l); i++ {
		vzAssume(vzOr(l[i] == '\t', vzAnd(0x20 <= l[i], l[i] <= 0x7e)))
	}
	line := ""
	for i := range goods {
		if i > 0 {
			line += " "
		}
		if i == k && k > 0 && vzRange("without", 0, 1) == 1 {
			line += l
			continue
		}
		line += goods[i]
		if i == k {
			line += l
		}
	}
	vzC15rows(types, line, false)
}

// vzC15_manyRows: many rows, arbitrary text in one of them.
func vzC15_manyRows() {
	n := 13
	k := vzRange("row", 0, n-1)
	l := vzC15row(vzRange("len", 1, 2+vzTier()))
	text := "[T]\na b\nint8 string\n"
	for r := 0; r < n; r++ {
		if r == k {
			text += l + "\n"
		} else {
			text += strconv.Itoa(r) + " \"s" + strconv.Itoa(r) + "\"\n"
		}
	}
	want, ok := vzRefRow([]string{"int8", "string"}, l)
	t, err := NewTableFromString(text)
	vzAssert((err == nil) == ok, "a line is accepted exactly when its cells match its columns in number and syntax")
	if err != nil || !ok {
		vzReach("refused")
		return
	}
	vzInv(t, "parsed table")
	vzAssert(t.RowCount() == n && t.ColCount() == 2, "the table has exactly the rows and columns of the text")
	for r := 0; r < t.RowCount() && r < n; r++ {
		w := []interface{}{int8(r), "s" + strconv.Itoa(r)}
		if r == k {
			w = want
		}
		for c := range w {
			v, err := t.GetValByColIndex(c, r)
			vzMust(err, "GetValByColIndex")
			vzAssert(vzSame(v, w[c]), "the cells are exactly those of the text")
		}
	}
	vzReach("accepted")
}

// vzC15_pick: one table of the text, by its name or index.
func vzC15_pick() {
	menu := []string{"", "[T]\na b\nint8 int8\n1 2\n", "[U]\n", "[V]\na int8 = 4\n", "[T]\n", "1\n"}
	text, n := "", vzRange("parts", 0, 3)
	for i := 0; i < n; i++ {
		text += menu[vzRange("p"+strconv.Itoa(i), 0, len(menu)-1)] + "\n"
	}
	set, serr := NewTableSetFromString(text)
	name := vzStr("name", vzRange("len", 0, 1+vzTier()))
	t, err := NewTableFromStringByTableName(text, name)
	found := -1
	if serr == nil {
		for i := 0; i < set.TableCount(); i++ {
			w, err := set.GetTableByTableIndex(i)
			vzMust(err, "GetTableByTableIndex")
			if w.Name() == name {
				found = i
			}
		}
	}
	vzAssert((err == nil) == (found >= 0), "a table is picked by name exactly when the text has it")
	if err == nil && found >= 0 {
		w, err := set.GetTableByTableIndex(found)
		vzMust(err, "GetTableByTableIndex")
		vzAssert(vzSnapSame(vzSnap(t), vzSnap(w)), "the table picked by name is the one of that name")
	}
	ix := vzInt("index")
	in := false
	if serr == nil {
		in = vzAnd(0 <= ix, ix < set.TableCount())
	}
	t, err = NewTableFromStringByTableIndex(text, ix)
	vzAssert((err == nil) == in, "a table is picked by index exactly when the text has so many")
	if err == nil && in {
		w, err := set.GetTableByTableIndex(ix)
		vzMust(err, "GetTableByTableIndex")
		vzAssert(vzSnapSame(vzSnap(t), vzSnap(w)), "the table picked by index is the one of that index")
	}
	one := serr == nil && set.TableCount() == 1
	var m *Table
	panicked := vzTry(func() { m = NewTableFromStringMustMake(text) })
	vzAssert(panicked == !one, "NewTableFromStringMustMake panics exactly when the text is not one table")
	if one && !panicked {
		w, err := set.GetTableByTableIndex(0)
		vzMust(err, "GetTableByTableIndex")
		vzAssert(vzSnapSame(vzSnap(m), vzSnap(w)), "the table made is the one of the text")
	}
	vzReach("end")
}

// vzRefTime reads an RFC 3339 time; certain false where the zone's offset is at the edge of what Go takes.
func vzRefTime(s string) (sec int64, nsec int, ok, certain bool) {
	num := func(at, n int) int {
		x := 0
		for i := at; i < at+n; i++ {
			if i >= len(s) || s[i] < '0' || s[i] > '9' {
				return -1
			}
			x = x*10 + int(s[i]-'0')
		}
		return x
	}
	is := func(at int, c byte) bool { return at < len(s) && s[at] == c }
	y, mo, d, h, mi, se := num(0, 4), num(5, 2), num(8, 2), num(11, 2), num(14, 2), num(17, 2)
	if y < 0 || mo < 0 || d < 0 || h < 0 || mi < 0 || se < 0 || !is(4, '-') || !is(7, '-') || !is(10, 'T') || !is(13, ':') || !is(16, ':') {
		return 0, 0, false, true
	}
	i := 19
	if is(i, '.') {
		n := 0
		for i++; i < len(s) && '0' <= s[i] && s[i] <= '9'; i++ {
			nsec = nsec*10 + int(s[i]-'0')
			n++
		}
		if n == 0 || n > 9 {
			return 0, 0, false, true
		}
		for ; n < 9; n++ {
			nsec *= 10
		}
	}
	off := 0
	if is(i, 'Z') {
		i++
	} else if is(i, '+') || is(i, '-') {
		zh, zm := num(i+1, 2), num(i+4, 2)
		if zh < 0 || zm < 0 || !is(i+3, ':') {
			return 0, 0, false, true
		}
		if zh > 23 || zm > 59 {
			return 0, 0, false, false
		}
		off = zh*3600 + zm*60
		if s[i] == '-' {
			off = -off
		}
		i += 6
	} else {
		return 0, 0, false, true
	}
	days := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}
	leap := y%4 == 0 && (y%100 != 0 || y%400 == 0)
	if i != len(s) || mo < 1 || mo > 12 || d < 1 || h > 23 || mi > 59 || se > 59 {
		return 0, 0, false, true
	}
	if d > days[mo-1] && !(mo == 2 && leap && d == 29) {
		return 0, 0, false, true
	}
	n := 0 // days since the first of January of year 0
	n = y*365 + (y+3)/4 - (y+99)/100 + (y+399)/400
	for m := 1; m < mo; m++ {
		n += days[m-1]
	}
	if leap && mo > 2 {
		n++
	}
	n += d - 1
	return int64(n-719528)*86400 + int64(h*3600+mi*60+se-off), nsec, true, true
}

// vzC15_time: good times with one byte changed, added or removed.
func vzC15_time() {
	base := []string{"2006-01-02T15:04:05Z", "2004-02-29T23:59:59.5-00:30", "1900-12-31T00:00:00.123456789+10:00", "0000-10-20T19:30:49Z"}[vzRange("base", 0, 3)]
	at := vzRange("at", 0, len(base))
	x := vzStr("x", 1)
	vzAssume(vzAnd(0x20 < x[0], x[0] <= 0x7e))
	s := base
	switch vzRange("how", 0, 2) {
	case 0:
		vzAssume(at < len(base))
		s = base[:at] + x + base[at+1:]
	case 1:
		s = base[:at] + x + base[at:]
	case 2:
		vzAssume(at < len(base) && x[0] == '!')
		s = base[:at] + base[at+1:]
	}
	vzAssume(s[0] != '#')
	strct := vzBool("struct")
	text := "[T]\na\ntime.Time\n" + s + "\n"
	if strct {
		text = "[T]\na time.Time = " + s + "\n"
	}
	sec, nsec, ok, certain := vzRefTime(s)
	t, err := NewTableFromString(text)
	if certain {
		vzAssert((err == nil) == ok, "a time is accepted exactly when it is an RFC 3339 time of the calendar")
	}
	if err != nil || !ok {
		vzReach("refused")
		return
	}
	v, err := t.GetTime("a", 0)
	vzMust(err, "GetTime")
	vzAssert(vzAnd(v.Unix() == sec, v.Nanosecond() == nsec), "the time is the one of the text")
	vzReach("accepted")
}

// ---- lines that are not rows ----

// vzFields: the fields of a line, parted by blanks.
func vzFields(l string) (f []string) {
	start := -1
	for i := 0; i <= len(l); i++ {
		if i == len(l) || vzBlank(l[i]) {
			if start >= 0 {
				f = append(f, l[start:i])
			}
			start = -1
		} else if start < 0 {
			start = i
		}
	}
	return
}

// vzC15_head: the lines that name a set, tables, columns and types, with arbitrary text before or after.
func vzC15_head() {
	doc := []string{"[[S]]", "[T]", "a b", "int8 string", "1 \"x\"", "", "[U]", "c int8 = 3"}
	k := []int{0, 1, 2, 3, 6}[vzRange("line", 0, 4)]
	l := vzStr("s", vzRange("len", 1, 3+vzTier()))
	for i := 0; i < len(l); i++ {
		vzAssume(vzOr(l[i] == '\t', vzAnd(0x20 <= l[i], l[i] <= 0x7e)))
	}
	if vzRange("before", 0, 1) == 1 {
		doc[k] = l + doc[k]
	} else {
		doc[k] += l
	}
	text := ""
	for _, s := range doc {
		text += s + "\n"
	}
	set, err := NewTableSetFromString(text)
	f := vzFields(doc[k])
	ok := true
	sname, tname, names, types := "S", "T", []string{"a", "b"}, []string{"int8", "string"}
	uname := "U"
	name := func(s string) string { // [name]
		if len(s) < 3 || s[0] != '[' || s[len(s)-1] != ']' || !vzIsIdent(s[1:len(s)-1]) {
			return ""
		}
		return s[1 : len(s)-1]
	}
	switch {
	case f[0][0] == '#': // a comment: the line is not there
		ok = k == 0
		sname = ""
	case k == 0:
		sname = ""
		if len(f) == 1 && len(f[0]) > 4 && f[0][0] == '[' && f[0][len(f[0])-1] == ']' {
			sname = name(f[0][1 : len(f[0])-1])
		}
		ok = sname != ""
	case k == 1:
		tname = ""
		if len(f) == 1 {
			tname = name(f[0])
		}
		ok = tname != ""
	case k == 6:
		uname = ""
		if len(f) == 1 {
			uname = name(f[0])
		}
		ok = uname != "" && uname != tname
	case k == 2: // (the types tell how many columns)
		names = f
		ok = len(f) == 2 && vzIsIdent(f[0]) && vzIsIdent(f[1]) && f[0] != f[1]
	case k == 3:
		types = f
		ok = len(f) == 2 && (f[0] == "int8" || f[0] == "uint8") && f[1] == "string"
	}
	vzAssert((err == nil) == ok, "a document is accepted exactly when its lines name a set, tables, columns and types")
	if err != nil || !ok {
		vzReach("refused")
		return
	}
	vzSetInv(set, "parsed set")
	vzAssert(set.Name() == sname && set.TableCount() == 2, "the set has the name and the tables of the text")
	t, err := set.GetTableByTableIndex(0)
	vzMust(err, "GetTableByTableIndex")
	u, err := set.GetTableByTableIndex(1)
	vzMust(err, "GetTableByTableIndex")
	s, w := vzSnap(t), vzSnap(u)
	vzAssert(s.name == tname && w.name == uname, "the tables have the names of the text")
	vzAssert(vzSameStrs(s.names, names) && vzSameStrs(s.types, types), "the columns have the names and types of the text")
	vzAssert(len(s.cells) == 1 && len(w.cells) == 1 && vzSame(w.cells[0][0], int8(3)) && vzSame(s.cells[0][1], "x"), "the tables have the rows of the text")
	vzReach("accepted")
}
