From 3504b6d91b6e7fc7a86970f4b72fdbabf96857c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 01/74] fix: Set<type>ByColIndex() returns an error for an
 out-of-range colIndex instead of panicking

---
 helpers.go | 100 ++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 80 insertions(+), 20 deletions(-)

diff --git a/helpers.go b/helpers.go
index 83fc552..713b2d2 100644
--- a/helpers.go
+++ b/helpers.go
@@ -969,7 +969,10 @@ func (table *Table) SetByteSliceByColIndex(colIndex int, rowIndex int, newVal []
 			UtilFuncName(), table.Name(), colIndex)
 	}
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1010,7 +1013,10 @@ func (table *Table) SetUint8SliceByColIndex(colIndex int, rowIndex int, newVal [
 			UtilFuncName(), table.Name(), colIndex)
 	}
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1045,7 +1051,10 @@ func (table *Table) SetBoolByColIndex(colIndex int, rowIndex int, newVal bool) e
 
 	const valType string = "bool"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1080,7 +1089,10 @@ func (table *Table) SetByteByColIndex(colIndex int, rowIndex int, newVal byte) e
 
 	const valType string = "byte"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1115,7 +1127,10 @@ func (table *Table) SetFloat32ByColIndex(colIndex int, rowIndex int, newVal floa
 
 	const valType string = "float32"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1150,7 +1165,10 @@ func (table *Table) SetFloat64ByColIndex(colIndex int, rowIndex int, newVal floa
 
 	const valType string = "float64"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1185,7 +1203,10 @@ func (table *Table) SetIntByColIndex(colIndex int, rowIndex int, newVal int) err
 
 	const valType string = "int"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1220,7 +1241,10 @@ func (table *Table) SetInt16ByColIndex(colIndex int, rowIndex int, newVal int16)
 
 	const valType string = "int16"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1255,7 +1279,10 @@ func (table *Table) SetInt32ByColIndex(colIndex int, rowIndex int, newVal int32)
 
 	const valType string = "int32"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1290,7 +1317,10 @@ func (table *Table) SetInt64ByColIndex(colIndex int, rowIndex int, newVal int64)
 
 	const valType string = "int64"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1325,7 +1355,10 @@ func (table *Table) SetInt8ByColIndex(colIndex int, rowIndex int, newVal int8) e
 
 	const valType string = "int8"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1360,7 +1393,10 @@ func (table *Table) SetRuneByColIndex(colIndex int, rowIndex int, newVal rune) e
 
 	const valType string = "rune"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1395,7 +1431,10 @@ func (table *Table) SetStringByColIndex(colIndex int, rowIndex int, newVal strin
 
 	const valType string = "string"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1430,7 +1469,10 @@ func (table *Table) SetUintByColIndex(colIndex int, rowIndex int, newVal uint) e
 
 	const valType string = "uint"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1465,7 +1507,10 @@ func (table *Table) SetUint16ByColIndex(colIndex int, rowIndex int, newVal uint1
 
 	const valType string = "uint16"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1500,7 +1545,10 @@ func (table *Table) SetUint32ByColIndex(colIndex int, rowIndex int, newVal uint3
 
 	const valType string = "uint32"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1535,7 +1583,10 @@ func (table *Table) SetUint64ByColIndex(colIndex int, rowIndex int, newVal uint6
 
 	const valType string = "uint64"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1570,7 +1621,10 @@ func (table *Table) SetUint8ByColIndex(colIndex int, rowIndex int, newVal uint8)
 
 	const valType string = "uint8"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1614,7 +1668,10 @@ func (table *Table) SetTableByColIndex(colIndex int, rowIndex int, newVal *Table
 	// This may help with reporting errors.
 	newVal.parentTable = table
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1649,7 +1706,10 @@ func (table *Table) SetTimeByColIndex(colIndex int, rowIndex int, newVal time.Ti
 
 	const valType string = "time.Time"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
-- 
2.43.0


From fefece0edb4a77ea7f34b4405f6831b9da0bc567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 02/74] fix: GetCellInfoByColIndex() returns an error for a
 cell outside the table instead of panicking

---
 tree.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tree.go b/tree.go
index 480072e..1da1477 100644
--- a/tree.go
+++ b/tree.go
@@ -219,6 +219,12 @@ func (table *Table) GetCellInfoByColIndex(colIndex int, rowIndex int) (cellInfo
 		return cellInfo, fmt.Errorf("table.%s(): table is nil", UtilFuncNameNoParens())
 	}
 
+	var hasCell bool
+	hasCell, err = table.HasCellByColIndex(colIndex, rowIndex)
+	if !hasCell {
+		return cellInfo, err
+	}
+
 	cellInfo.Table = table
 	cellInfo.ColIndex = colIndex
 	cellInfo.RowIndex = rowIndex
-- 
2.43.0


From af18ff78645d6b33d47650127ecdddb879b5bc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 03/74] fix: RowByRowIndex() returns an error for a row that
 does not exist

---
 tree.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tree.go b/tree.go
index 1da1477..0a697dd 100644
--- a/tree.go
+++ b/tree.go
@@ -286,6 +286,12 @@ func (table *Table) RowByRowIndex(rowIndex int) (row Row, err error) {
 		return row, fmt.Errorf("table.%s(): table is nil", UtilFuncNameNoParens())
 	}
 
+	var hasRow bool
+	hasRow, err = table.HasRow(rowIndex)
+	if !hasRow {
+		return row, err
+	}
+
 	row.Table = table
 	row.RowIndex = rowIndex
 
-- 
2.43.0


From da8570ab80d557ce3e5a3878188d171a19ecc3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 04/74] fix: SwapCols() and SwapColsByColIndex() swap the cells
 along with the column names and types

---
 sort.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sort.go b/sort.go
index 4f107b4..dc81920 100644
--- a/sort.go
+++ b/sort.go
@@ -952,6 +952,12 @@ func (table *Table) SwapColsByColIndex(colIndex1 int, colIndex2 int) error {
 
 	table.colNamesMap[colName1], table.colNamesMap[colName2] = table.colNamesMap[colName2], table.colNamesMap[colName1]
 
+	// The cells go with their column.
+	for rowIndex := 0; rowIndex < table.RowCount(); rowIndex++ {
+		row := table.rows[rowIndex]
+		row[colIndex1], row[colIndex2] = row[colIndex2], row[colIndex1]
+	}
+
 	return nil
 }
 
@@ -987,6 +993,12 @@ func (table *Table) SwapCols(colName1 string, colName2 string) error {
 
 	table.colNamesMap[colName1], table.colNamesMap[colName2] = table.colNamesMap[colName2], table.colNamesMap[colName1]
 
+	// The cells go with their column.
+	for rowIndex := 0; rowIndex < table.RowCount(); rowIndex++ {
+		row := table.rows[rowIndex]
+		row[col1], row[col2] = row[col2], row[col1]
+	}
+
 	return nil
 }
 
-- 
2.43.0


From c5d08be96f7f46edee02b4e0b123f307b6699211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 05/74] fix: RenameCol() also renames the column in the table's
 sort keys

---
 gotables.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gotables.go b/gotables.go
index a47e0fe..779cafd 100644
--- a/gotables.go
+++ b/gotables.go
@@ -2655,6 +2655,13 @@ func (table *Table) RenameCol(oldName string, newName string) error {
 	delete(table.colNamesMap, oldName)    // Delete the old one.
 	table.colNamesMap[newName] = colIndex // Add the new one.
 
+	// Rename col in any sort key that refers to it.
+	for keyIndex := range table.sortKeys {
+		if table.sortKeys[keyIndex].colName == oldName {
+			table.sortKeys[keyIndex].colName = newName
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 1f8e069301de0952ed2db3501f146c6674a38136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 06/74] fix: DeleteCol() also removes the column from the
 table's sort keys

---
 gotables.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gotables.go b/gotables.go
index 779cafd..e6b7675 100644
--- a/gotables.go
+++ b/gotables.go
@@ -1875,6 +1875,15 @@ func (table *Table) DeleteColByColIndex(colIndex int) error {
 		//		if isValidRow, err := table.IsValidRow(rowIndex); !isValidRow { where(fmt.Sprintf("%s\n", err)) }
 	}
 
+	// A deleted col can no longer be a sort key.
+	var remainingKeys SortKeys
+	for keyIndex := range table.sortKeys {
+		if table.sortKeys[keyIndex].colName != colName {
+			remainingKeys = append(remainingKeys, table.sortKeys[keyIndex])
+		}
+	}
+	table.sortKeys = remainingKeys
+
 	return nil
 }
 
-- 
2.43.0


From f80444204b601bad67d88483d1ed88ec06d89b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:34 +0000
Subject: [PATCH 07/74] fix: SearchLast() and SearchRange() return an error
 instead of panicking for a value below all rows

---
 sort.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sort.go b/sort.go
index dc81920..c3e78c2 100644
--- a/sort.go
+++ b/sort.go
@@ -1064,7 +1064,7 @@ func (table *Table) searchByKeysLast(searchValues []interface{}) (int, error) {
 
 	// See logic at: https://golang.org/pkg/sort/#Search
 	// See Search() source code at: https://golang.org/src/sort/search.go?s=2247:2287#L49
-	if searchIndex < table.RowCount() && searchValuesMatchRowValues(table, searchValues, searchIndex) {
+	if searchIndex >= 0 && searchIndex < table.RowCount() && searchValuesMatchRowValues(table, searchValues, searchIndex) {
 		return searchIndex, nil
 	} else {
 		return -1, fmt.Errorf("[%s].Search(%v) search values not in table: %v",
-- 
2.43.0


From dd60df19bae4fd41184779aa2228e944b64cbcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 08/74] fix: SearchLast(n, f) does not overflow (and probe
 negative indices) for the largest lengths

---
 sort.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sort.go b/sort.go
index c3e78c2..a62a941 100644
--- a/sort.go
+++ b/sort.go
@@ -1148,7 +1148,7 @@ func SearchLast(n int, f func(int) bool) int {
 	i, j := -1, n
 	var h int
 	for i < j-1 {
-		h = i + (j-i)/2
+		h = int(uint(i+j) >> 1) // avoid overflow when computing h
 		if !f(h) {
 			j = h
 		} else {
-- 
2.43.0


From 682341e624f6ff363995564b39bd99106c19d250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 09/74] fix: IsValidCellValue() and IsValidColValue() recognise
 byte, rune, slice, time.Time and *Table values, as SetVal() does

---
 gotables.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gotables.go b/gotables.go
index e6b7675..2002f47 100644
--- a/gotables.go
+++ b/gotables.go
@@ -3156,10 +3156,12 @@ func (table *Table) IsValidCellValue(colName string, value interface{}) (bool, e
 		return false, fmt.Errorf("table[%s] col=%s type=%s invalid value: <nil>", table.Name(), colName, colType)
 	}
 
-	valueType := reflect.TypeOf(value)
-	valueTypeName := valueType.Name()
+	valueTypeName := fmt.Sprintf("%T", value)
+	if valueTypeName == "*gotables.Table" {
+		valueTypeName = "*Table"
+	}
 
-	if valueTypeName != colType {
+	if valueTypeName != colType && !isAlias(colType, valueTypeName) {
 		return false, fmt.Errorf("table[%s] col=%s type=%s invalid value: %v", table.Name(), colName, colType, value)
 	}
 
-- 
2.43.0


From 02b46adb9c16a09d3333019ab558db4b6ea93a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 10/74] fix: CompareRows() honours reversed sort keys, as
 Sort() and Search() do

---
 sort.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sort.go b/sort.go
index a62a941..b5fb2f1 100644
--- a/sort.go
+++ b/sort.go
@@ -772,6 +772,11 @@ func (table *Table) CompareRows(rowIndex1 int, rowIndex2 int) (int, error) {
 		cellVal2, _ := table.GetVal(colName, rowIndex2)
 		compared := sortFunc(cellVal1, cellVal2)
 
+		if table.sortKeys[i].reverse {
+			// Reverse the sign to reverse the comparison, as in Sort().
+			compared *= -1
+		}
+
 		if compared != 0 {
 			// We have a decision: At least one search value doesn't match a cell value.
 			return compared, nil
-- 
2.43.0


From 7255c8d6c7ec969ea2431e79bedc698ad6e03efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 11/74] fix: SetSortKeys() keeps the existing sort keys when it
 returns an error

---
 sort.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sort.go b/sort.go
index b5fb2f1..ca91279 100644
--- a/sort.go
+++ b/sort.go
@@ -171,11 +171,13 @@ func (table *Table) SetSortKeys(sortColNames ...string) error {
 		return fmt.Errorf("table.%s table is <nil>", UtilFuncName())
 	}
 
+	existingKeys := table.sortKeys
 	table.sortKeys = newSortKeys() // Replace any existing sort keys.
 
 	for _, colName := range sortColNames {
 		err := table.AppendSortKey(colName)
 		if err != nil {
+			table.sortKeys = existingKeys // Reinstate them: no half-set sort keys.
 			//			errSortKey := errors.New(fmt.Sprintf("SetSortKeys(%v): %v\n", sortColNames, err))
 			errSortKey := fmt.Errorf("SetSortKeys(%v): %v", sortColNames, err)
 			return errSortKey
-- 
2.43.0


From bec1a8dad8efcda768f14e58ce4f3a7186884ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 12/74] fix: SetSortKeysReverse() reverses no sort key when it
 returns an error

---
 sort.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sort.go b/sort.go
index ca91279..d78d8a2 100644
--- a/sort.go
+++ b/sort.go
@@ -199,9 +199,12 @@ func (table *Table) SetSortKeysReverse(reverseSortColNames ...string) error {
 		return fmt.Errorf("table.%s table is <nil>", UtilFuncName())
 	}
 
+	existingKeys := append(newSortKeys(), table.sortKeys...)
+
 	for _, colName := range reverseSortColNames {
 		err := table.setSortKeyReverse(colName)
 		if err != nil {
+			copy(table.sortKeys, existingKeys) // Reinstate them: no half-reversed sort keys.
 			errSortKey := fmt.Errorf("SetSortKeysReverse(%v): %v", reverseSortColNames, err)
 			return errSortKey
 		}
-- 
2.43.0


From 201fcc9dce15336e9ea58fdd3a538da0bc8b3a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 13/74] fix: OrderColsBySortKeys() does not fail when a column
 is set as a sort key more than once

---
 sort.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/sort.go b/sort.go
index d78d8a2..d4539eb 100644
--- a/sort.go
+++ b/sort.go
@@ -866,19 +866,21 @@ func (table *Table) OrderColsBySortKeys() error {
 	}
 
 	var err error
-	var newOrder []string = make([]string, table.ColCount()) // List of new colNames.
-	var key int
+	var newOrder []string // List of new colNames.
+	var seen = map[string]bool{}
 
 	// Populate new order ...
 
 	// First slots with key col names.
-	for key = 0; key < table.SortKeyCount(); key++ {
+	for key := 0; key < table.SortKeyCount(); key++ {
 		keyName := table.sortKeys[key].colName
-		newOrder[key] = keyName
+		if !seen[keyName] { // A col may be a sort key more than once.
+			seen[keyName] = true
+			newOrder = append(newOrder, keyName)
+		}
 	}
 
 	// Subsequent slots with non-key col names.
-	row := table.SortKeyCount()
 	for col := 0; col < table.ColCount(); col++ {
 		colName := table.colNames[col]
 		var isSortKey bool
@@ -887,8 +889,7 @@ func (table *Table) OrderColsBySortKeys() error {
 			return err
 		}
 		if !isSortKey {
-			newOrder[row] = colName
-			row++
+			newOrder = append(newOrder, colName)
 		}
 	}
 
-- 
2.43.0


From c40ef058610680c944e0327602799ca4e03b71a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:32 +0000
Subject: [PATCH 14/74] fix: zero-value and NaN setters return an error for a
 row or column outside the table instead of panicking

---
 gotables.go | 10 ++++++++++
 helpers.go  | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/gotables.go b/gotables.go
index 2002f47..1c357b1 100644
--- a/gotables.go
+++ b/gotables.go
@@ -844,6 +844,11 @@ func (table *Table) SetColCellsToZeroValueByColIndex(colIndex int) error {
 		return fmt.Errorf("%s table.%s table is <nil>", UtilFuncSource(), UtilFuncName())
 	}
 
+	hasCol, err := table.HasColByColIndex(colIndex)
+	if !hasCol {
+		return err
+	}
+
 	for rowIndex := 0; rowIndex < table.RowCount(); rowIndex++ {
 		err := table.SetCellToZeroValueByColIndex(colIndex, rowIndex)
 		if err != nil {
@@ -884,6 +889,11 @@ func (table *Table) SetColFloatCellsToNaNByColIndex(colIndex int) error {
 		return fmt.Errorf("%s table.%s table is <nil>", UtilFuncSource(), UtilFuncName())
 	}
 
+	hasCol, err := table.HasColByColIndex(colIndex)
+	if !hasCol {
+		return err
+	}
+
 	for rowIndex := 0; rowIndex < table.RowCount(); rowIndex++ {
 		err := table.SetFloatCellToNaNByColIndex(colIndex, rowIndex)
 		if err != nil {
diff --git a/helpers.go b/helpers.go
index 713b2d2..0110024 100644
--- a/helpers.go
+++ b/helpers.go
@@ -4915,6 +4915,11 @@ func (table *Table) SetCellToZeroValueByColIndex(colIndex int, rowIndex int) err
 		return fmt.Errorf("table.%s: table is <nil>", UtilFuncName())
 	}
 
+	hasCell, err := table.HasCellByColIndex(colIndex, rowIndex)
+	if !hasCell {
+		return err
+	}
+
 	var colType = table.colTypes[colIndex]
 
 	switch colType {
@@ -4997,6 +5002,11 @@ func (table *Table) SetRowCellsToZeroValue(rowIndex int) error {
 		return fmt.Errorf("table.%s: table is an unnamed NilTable. Call table.SetName() to un-Nil it", UtilFuncName())
 	}
 
+	hasRow, err := table.HasRow(rowIndex)
+	if !hasRow {
+		return err
+	}
+
 	for colIndex := 0; colIndex < table.ColCount(); colIndex++ {
 		var colType string = table.colTypes[colIndex]
 		switch colType {
-- 
2.43.0


From 70256216d80a95790fad768a32c66b43750f114e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 15/74] fix: SetRowFloatCellsToNaN() returns an error for a row
 outside the table, also without float columns

---
 gotables.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gotables.go b/gotables.go
index 1c357b1..8fa9c8a 100644
--- a/gotables.go
+++ b/gotables.go
@@ -773,7 +773,11 @@ func (table *Table) SetRowFloatCellsToNaN(rowIndex int) error {
 		return fmt.Errorf("%s table.%s table is <nil>", UtilFuncSource(), UtilFuncName())
 	}
 
-	var err error
+	hasRow, err := table.HasRow(rowIndex)
+	if !hasRow {
+		return err
+	}
+
 	var colType string
 	for colIndex := 0; colIndex < table.ColCount(); colIndex++ {
 		colType, err = table.ColTypeByColIndex(colIndex)
-- 
2.43.0


From 6dc793a3cd6681ea5b0ba52417c5e4e0be920765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 16/74] fix: AppendRowsFromTable() appends no rows when it
 returns an error

---
 gotables.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/gotables.go b/gotables.go
index 8fa9c8a..3cedc3b 100644
--- a/gotables.go
+++ b/gotables.go
@@ -3528,11 +3528,9 @@ func (table *Table) AppendColsFromTable(fromTable *Table) error {
 	return nil
 }
 
-func (toTable *Table) AppendRowsFromTable(fromTable *Table, firstRow int, lastRow int) error {
+func (toTable *Table) AppendRowsFromTable(fromTable *Table, firstRow int, lastRow int) (err error) {
 	// where("caller: " + UtilFuncCaller())
 	// where(UtilFuncName())
-	var err error
-
 	if toTable == nil {
 		return fmt.Errorf("toTable.table.%s: table is <nil>", UtilFuncName())
 	}
@@ -3563,6 +3561,14 @@ func (toTable *Table) AppendRowsFromTable(fromTable *Table, firstRow int, lastRo
 		}
 	}
 
+	// All rows or none: if a row cannot be appended, remove the rows appended before it.
+	rowCount := toTable.RowCount()
+	defer func() {
+		if err != nil {
+			toTable.rows = toTable.rows[:rowCount]
+		}
+	}()
+
 	// Note: multiple assignment syntax in for loop.
 	for fromRow, toRow := firstRow, toTable.RowCount(); fromRow <= lastRow; fromRow, toRow = fromRow+1, toRow+1 {
 
-- 
2.43.0


From f528dd27758f286d56b5fd1d0adef721b8d5966f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 17/74] fix: AppendColsFromTable() appends no columns when it
 returns an error

---
 gotables.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gotables.go b/gotables.go
index 3cedc3b..4dd4a41 100644
--- a/gotables.go
+++ b/gotables.go
@@ -3494,6 +3494,15 @@ func (table *Table) AppendColsFromTable(fromTable *Table) error {
 		return err
 	}
 
+	// All cols or none: check for duplicate names of another type before appending any col.
+	for colIndex := 0; colIndex < fromTable.ColCount(); colIndex++ {
+		colName, colType := fromTable.colNames[colIndex], fromTable.colTypes[colIndex]
+		if index, exists := table.colNamesMap[colName]; exists && table.colTypes[index] != colType {
+			return fmt.Errorf("[%s].%s([%s]): skipping duplicate colName %q (is okay), but expecting type %q, not %q",
+				table.Name(), UtilFuncName(), fromTable.Name(), colName, table.colTypes[index], colType)
+		}
+	}
+
 	for rowIndex := 0; rowIndex < colsTable.RowCount(); rowIndex++ {
 		colName, err := colsTable.GetString("colName", rowIndex)
 		if err != nil {
-- 
2.43.0


From 97c39cf87239269c059d74958178ed178bf64ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 18/74] fix: Merge() and SortUnique() do not fail when no two
 rows have the same key

---
 merge.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/merge.go b/merge.go
index 2131936..1b7038e 100644
--- a/merge.go
+++ b/merge.go
@@ -242,6 +242,8 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 
 	// where(fmt.Sprintf("BEFORE Merge()\n%s\n", merged))
 
+	var deleteCount int // To know whether there are any rows to delete.
+
 	// Loop through to the second-last row, comparing each row with the row after it.
 	for rowIndex := 0; rowIndex < merged.RowCount()-1; rowIndex++ {
 
@@ -435,6 +437,7 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 			if err != nil {
 				return nil, err
 			}
+			deleteCount++
 		}
 	}
 
@@ -448,16 +451,18 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 		return nil, err
 	}
 
-	// Find the block of rows to delete.
-	first, last, err := merged.SearchRange(true)
-	if err != nil {
-		return nil, err
-	}
+	if deleteCount > 0 {
+		// Find the block of rows to delete.
+		first, last, err := merged.SearchRange(true)
+		if err != nil {
+			return nil, err
+		}
 
-	// Delete the block of rows.
-	err = merged.DeleteRows(first, last)
-	if err != nil {
-		return nil, err
+		// Delete the block of rows.
+		err = merged.DeleteRows(first, last)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	// Delete the temporary tag columns.
-- 
2.43.0


From 5b70e3f296d77ba7597d298ae275403e3c0db662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 19/74] fix: Merge() merges cells of all column types

---
 merge.go | 41 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/merge.go b/merge.go
index 1b7038e..1e8d276 100644
--- a/merge.go
+++ b/merge.go
@@ -26,6 +26,7 @@ import (
 	"fmt"
 	"math"
 	"reflect"
+	"time"
 )
 
 /*
@@ -315,7 +316,7 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 						}
 					}
 					// Otherwise both vals must be zero. Do nothing.
-				case "int8", "int16", "int32", "int64", "int":
+				case "int8", "int16", "int32", "int64", "int", "rune":
 					var tmp1 interface{}
 					var tmp2 interface{}
 					var val1 int64
@@ -343,7 +344,7 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 						}
 					}
 					// Otherwise both vals must be zero. Do nothing.
-				case "uint8", "uint16", "uint32", "uint64", "uint":
+				case "uint8", "uint16", "uint32", "uint64", "uint", "byte":
 					var tmp1 interface{}
 					var tmp2 interface{}
 					var val1 uint64
@@ -413,6 +414,29 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 						}
 					}
 					// Otherwise both vals must be zero. Do nothing.
+				case "[]byte", "[]uint8", "time.Time", "*Table":
+					var val1 interface{}
+					var val2 interface{}
+					val1, err = merged.GetValByColIndex(colIndex, rowIndex1)
+					if err != nil {
+						return nil, err
+					}
+					val2, err = merged.GetValByColIndex(colIndex, rowIndex2)
+					if err != nil {
+						return nil, err
+					}
+					if !isZeroVal(val1) { // Covers combinations (c) and (d)
+						err = merged.SetValByColIndex(colIndex, rowIndex2, val1) // Use val1
+						if err != nil {
+							return nil, err
+						}
+					} else if !isZeroVal(val2) { // Covers combination (b)
+						err = merged.SetValByColIndex(colIndex, rowIndex1, val2) // Use val2
+						if err != nil {
+							return nil, err
+						}
+					}
+					// Otherwise both vals must be zero. Do nothing.
 				default:
 					// Should never reach here.
 					var isValid bool
@@ -487,6 +511,19 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 	return merged, nil
 }
 
+// Is this the zero value of a col type that has no Go constant for it?
+func isZeroVal(val interface{}) bool {
+	switch v := val.(type) {
+	case []byte:
+		return len(v) == 0
+	case time.Time:
+		return v.IsZero() || v.Equal(MinTime)
+	case *Table:
+		return v == nil || v.isNilTable
+	}
+	return false
+}
+
 // This copies from left (srcTable) to right (targTable) beginning at beginRow in targTable.
 func (srcTable *Table) copyTableCells(beginRow int, targTable *Table) error {
 	for srcCol := 0; srcCol < srcTable.ColCount(); srcCol++ {
-- 
2.43.0


From 674fed01d0043160b113557cbf88b5c8d51364c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 20/74] fix: Merge() with an empty table returns a new merged
 table instead of sorting and returning an input table

---
 merge.go | 55 ++++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 40 insertions(+), 15 deletions(-)

diff --git a/merge.go b/merge.go
index 1e8d276..ddce90c 100644
--- a/merge.go
+++ b/merge.go
@@ -81,19 +81,54 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 	}
 
 	// Local function.
-	sortMerged := func(localMerged *Table) (*Table, error) {
-		if localMerged.SortKeyCount() == 0 {
+	// Merge a table with a table that has no rows (but may have additional cols).
+	mergeWithEmpty := func(table *Table, emptyTable *Table) (*Table, error) {
+		if table.SortKeyCount() == 0 {
 			err = setSortKeysBetweenTables()
 			if err != nil {
 				return nil, err
 			}
 		}
 
-		err = localMerged.Sort()
+		var localMerged *Table
+		if table.RowCount() > 0 {
+			// Merging with itself sorts and makes keys unique.
+			localMerged, err = table.Merge(table)
+			if err != nil {
+				return nil, err
+			}
+		} else {
+			localMerged, err = table.CopyCols()
+			if err != nil {
+				return nil, err
+			}
+			err = localMerged.SetName("Merged")
+			if err != nil {
+				return nil, err
+			}
+			err = localMerged.SetSortKeysFromTable(table)
+			if err != nil {
+				return nil, err
+			}
+		}
+
+		tableColCount := localMerged.ColCount()
+		err = localMerged.AppendColsFromTable(emptyTable)
 		if err != nil {
 			return nil, err
 		}
 
+		// Set floats to NaN values, their default value if not set.
+		for colIndex := tableColCount; colIndex < localMerged.ColCount(); colIndex++ {
+			switch localMerged.colTypes[colIndex] {
+			case "float32", "float64":
+				err = localMerged.SetColFloatCellsToNaNByColIndex(colIndex)
+				if err != nil {
+					return nil, err
+				}
+			}
+		}
+
 		return localMerged, nil
 	}
 
@@ -107,22 +142,12 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 		return merged, err
 	}
 
-	// TODO: this value of merged is never used (SA4006)
 	if table1.RowCount() == 0 {
-		merged, err = sortMerged(table2)
-		if err != nil {
-			return nil, err
-		}
-		return table2, nil
+		return mergeWithEmpty(table2, table1)
 	}
 
-	// TODO: this value of merged is never used (SA4006)
 	if table2.RowCount() == 0 {
-		merged, err = sortMerged(table1)
-		if err != nil {
-			return nil, err
-		}
-		return table1, nil
+		return mergeWithEmpty(table1, table2)
 	}
 
 	// Check that table1 and table2 have the same sort columns.
-- 
2.43.0


From b968b55c5582c553288efd83f0175f6a913a7c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 21/74] fix: Merge() does not change sort keys when it returns
 an error

---
 merge.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/merge.go b/merge.go
index ddce90c..901a021 100644
--- a/merge.go
+++ b/merge.go
@@ -142,6 +142,14 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 		return merged, err
 	}
 
+	// A failed merge leaves the sort keys of both tables as they were.
+	sortKeys1, sortKeys2 := table1.sortKeys, table2.sortKeys
+	defer func() {
+		if err != nil {
+			table1.sortKeys, table2.sortKeys = sortKeys1, sortKeys2
+		}
+	}()
+
 	if table1.RowCount() == 0 {
 		return mergeWithEmpty(table2, table1)
 	}
-- 
2.43.0


From 1e6e6932a4b6fd20bc4eec1c9777be6b2e7c0cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:43 +0000
Subject: [PATCH 22/74] fix: AppendRowsFromTable() checks the row range before
 appending

---
 gotables.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gotables.go b/gotables.go
index 4dd4a41..cb962f5 100644
--- a/gotables.go
+++ b/gotables.go
@@ -3570,6 +3570,12 @@ func (toTable *Table) AppendRowsFromTable(fromTable *Table, firstRow int, lastRo
 		}
 	}
 
+	// The whole range must exist in fromTable (which may be toTable itself) before any row is appended.
+	if firstRow <= lastRow && (firstRow < 0 || lastRow >= fromTable.RowCount()) {
+		return fmt.Errorf("[%s].%s([%s], %d, %d): row range outside rows 0..%d of table [%s]",
+			toTable.Name(), UtilFuncName(), fromTable.Name(), firstRow, lastRow, fromTable.RowCount()-1, fromTable.Name())
+	}
+
 	// All rows or none: if a row cannot be appended, remove the rows appended before it.
 	rowCount := toTable.RowCount()
 	defer func() {
-- 
2.43.0


From 8f7bc40b132b974bbf834e52203998269bc6fcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:58 +0000
Subject: [PATCH 23/74] fix: Equals() compares nested tables of the same column
 name

---
 gotables.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gotables.go b/gotables.go
index cb962f5..305a1b7 100644
--- a/gotables.go
+++ b/gotables.go
@@ -3425,7 +3425,7 @@ func (table1 *Table) Equals(table2 *Table) (equals bool, err error) {
 				if err != nil {
 					return false, err
 				}
-				nestedTable2, err := table2.GetTableByColIndex(colIndex, rowIndex)
+				nestedTable2, err := table2.GetTable(colName, rowIndex) // Column order need not match.
 				if err != nil {
 					return false, err
 				}
-- 
2.43.0


From c7877c6389d1b443b7b261acfbf8d865707e1a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:08 +0000
Subject: [PATCH 24/74] fix: IsValidTableNesting() looks at the nested table
 being walked

---
 tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree.go b/tree.go
index 0a697dd..b5317a4 100644
--- a/tree.go
+++ b/tree.go
@@ -349,7 +349,7 @@ func (rootTable *Table) IsValidTableNesting() (valid bool, err error) {
 	visitCell = func(walkNestedTables bool, cellInfo CellInfo) (err error) {
 		if IsTableColType(cellInfo.ColType) {
 			var nestedTable *Table
-			nestedTable, err = rootTable.GetTableByColIndex(cellInfo.ColIndex, cellInfo.RowIndex)
+			nestedTable, err = cellInfo.Table.GetTableByColIndex(cellInfo.ColIndex, cellInfo.RowIndex)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 5fd0b923cc77e08e05054d0d75432e87b983fd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:11 +0000
Subject: [PATCH 25/74] fix: CopyDeep() returns a deep copy and leaves the
 table alone

---
 tree.go | 55 ++++++++++++++++++++-----------------------------------
 1 file changed, 20 insertions(+), 35 deletions(-)

diff --git a/tree.go b/tree.go
index b5317a4..f7b0319 100644
--- a/tree.go
+++ b/tree.go
@@ -412,70 +412,55 @@ func (parentTable *Table) isCircularReference(candidateChildTable *Table) (isCir
 	return false, -1
 }
 
+/*
+	Create a copy of table and of all its nested tables.
+*/
 func (table *Table) CopyDeep() (tableCopy *Table, err error) {
 	// where(UtilFuncName())
 	if table == nil {
 		return nil, fmt.Errorf("table.%s: table is nil", UtilFuncName())
 	}
 
-	// This may seem odd, but this is the point in CopyDeep() where it's possible
-	// to set tableCopy before all the recursive calls have occurred.
-	tableCopy = table
-
-	var visitTable = func(t *Table) (err error) {
-		// where(fmt.Sprintf("[%s]", t.Name()))
-		return
+	tableCopy, err = table.Copy() // Also checks for circular references.
+	if err != nil {
+		return nil, err
 	}
 
-	var visitCell = func(walkDeep bool, cell CellInfo) (err error) {
-		if IsTableColType(cell.ColType) {
-			// where(fmt.Sprintf("[%s] IsTableColType", cell.Table.Name()))
-
+	for colIndex := 0; colIndex < tableCopy.ColCount(); colIndex++ {
+		if !IsTableColType(tableCopy.colTypes[colIndex]) {
+			continue
+		}
+		for rowIndex := 0; rowIndex < tableCopy.RowCount(); rowIndex++ {
 			var nestedTable *Table
-			nestedTable, err = cell.Table.GetTableByColIndex(cell.ColIndex, cell.RowIndex)
+			nestedTable, err = tableCopy.GetTableByColIndex(colIndex, rowIndex)
 			if err != nil {
-				return
+				return nil, err
 			}
-			// where(fmt.Sprintf("nestedTable = %p", nestedTable))
 
 			var isNilTable bool
 			isNilTable, err = nestedTable.IsNilTable()
 			if err != nil {
-				return
+				return nil, err
 			}
 
 			var nestedTableCopy *Table
 			if isNilTable {
-				nestedTableCopy = NewNilTable()	// New reference just to be on the safe side.
+				nestedTableCopy = NewNilTable() // New reference just to be on the safe side.
 			} else {
-				nestedTableCopy, err = nestedTable.Copy()
+				nestedTableCopy, err = nestedTable.CopyDeep()
 				if err != nil {
-					return
+					return nil, err
 				}
 			}
 
-			err = cell.Table.SetTableByColIndex(cell.ColIndex, cell.RowIndex, nestedTableCopy)
+			err = tableCopy.SetTableByColIndex(colIndex, rowIndex, nestedTableCopy)
 			if err != nil {
-			// where(fmt.Sprintf("nestedTableCopy = %p", nestedTableCopy))
-				return
+				return nil, err
 			}
 		}
-		tableCopy = cell.Table
-
-		return
-	}
-
-	const walkDeep = true
-	var walkSafe WalkSafe = make(WalkSafe)
-	// where(fmt.Sprintf("declaring walkSafe = %p", walkSafe))
-	// where("BEGIN Walk()")
-	err = table.Walk(walkDeep, walkSafe, visitTable, nil, visitCell)
-	// where("END Walk()")
-	if err != nil {
-		return nil, err
 	}
 
-	return
+	return tableCopy, nil
 }
 
 /*
-- 
2.43.0


From 91bca2add0c6499951848472de3e03a9cd6524b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:58 +0000
Subject: [PATCH 26/74] fix: Copy() keeps sort keys and struct shape

---
 gotables.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gotables.go b/gotables.go
index 305a1b7..c1c9fa4 100644
--- a/gotables.go
+++ b/gotables.go
@@ -3761,6 +3761,9 @@ func (table *Table) Copy() (tableCopy *Table, err error) {
 	// where(fmt.Sprintf("tableCopy.RowCount() = %d", tableCopy.RowCount()))
 	// where("AFTER AppendRowsFromTable()\n\n" + tableCopy.String() + "\n")
 
+	tableCopy.sortKeys = append([]sortKey{}, table.sortKeys...)
+	tableCopy.isStructShape = table.isStructShape
+
 	return tableCopy, nil
 }
 
-- 
2.43.0


From 4ef835a3bef7e8396a669bd06eaabe4cbc3ed7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:03 +0000
Subject: [PATCH 27/74] fix: SetColFloatCellsToNaN() of a non-float column is
 an error without rows too

---
 gotables.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gotables.go b/gotables.go
index c1c9fa4..8734c93 100644
--- a/gotables.go
+++ b/gotables.go
@@ -898,6 +898,12 @@ func (table *Table) SetColFloatCellsToNaNByColIndex(colIndex int) error {
 		return err
 	}
 
+	// A column of the wrong type is an error even if there are no rows.
+	if colType := table.colTypes[colIndex]; colType != "float32" && colType != "float64" {
+		return fmt.Errorf("%s: [%s] colIndex=%d colName=%s expecting colType float32 or float64 but found: %s",
+			UtilFuncName(), table.Name(), colIndex, table.colNames[colIndex], colType)
+	}
+
 	for rowIndex := 0; rowIndex < table.RowCount(); rowIndex++ {
 		err := table.SetFloatCellToNaNByColIndex(colIndex, rowIndex)
 		if err != nil {
-- 
2.43.0


From 2d7d7e34d1fe4cb80d64c73354d965d690d2e994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:29 +0000
Subject: [PATCH 28/74] fix: Walk() into nested tables with a nil WalkSafe is
 an error

---
 tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree.go b/tree.go
index f7b0319..c40cf85 100644
--- a/tree.go
+++ b/tree.go
@@ -84,7 +84,7 @@ func (table *Table) Walk(
 		return
 	}
 
-	if table == nil {
+	if walkNestedTables && walkSafe == nil {
 		err = fmt.Errorf("table.%s(): walkSafe is nil", UtilFuncNameNoParens())
 		return
 	}
-- 
2.43.0


From c29401cc1e00420ae50752a2f8b735805a4367da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:40 +0000
Subject: [PATCH 29/74] fix: Walk() and HasCircularReference() wrap the
 CircRefError

---
 tree.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tree.go b/tree.go
index c40cf85..06a3d77 100644
--- a/tree.go
+++ b/tree.go
@@ -162,7 +162,7 @@ func (table *Table) Walk(
 						if exists { // Invalid table with circular reference!
 							// Construct CircRefError.
 							circError := NewCircRefError(table, nestedTable, "")
-							err = fmt.Errorf("visitCell(): %s", circError) // Wrap circError in err.
+							err = fmt.Errorf("visitCell(): %w", circError) // Wrap circError in err.
 							return err
 						} else {
 							// Add this nested table to the map.
@@ -315,6 +315,9 @@ func (rootTable *Table) HasCircularReference() (hasCircularReference bool, err e
 	isValidTableNesting, err := rootTable.IsValidTableNesting()
 	if !isValidTableNesting {
 		// Say the error is from here, not from the called method.
+		if circError := GetCircRefError(err); circError != nil {
+			return true, fmt.Errorf("HasCircularReference(): %w", circError) // Wrap circError in err.
+		}
 		replacedMsg := strings.Replace(err.Error(), "IsValidTableNesting", "HasCircularReference", 1)
 		err = fmt.Errorf("%s", replacedMsg)
 		return !isValidTableNesting, err
-- 
2.43.0


From 6aed88d06e50df0a7a49bd32a4df64747c2e0d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:07 +0000
Subject: [PATCH 30/74] fix: TableSet AppendTable() refuses a nil table

---
 gotables.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gotables.go b/gotables.go
index 8734c93..4fcaef3 100644
--- a/gotables.go
+++ b/gotables.go
@@ -423,6 +423,10 @@ func (tableSet *TableSet) AppendTable(newTable *Table) error {
 		return fmt.Errorf("%s tableSet.%s tableSet is <nil>", UtilFuncSource(), UtilFuncName())
 	}
 
+	if newTable == nil {
+		return fmt.Errorf("tableSet.%s newTable is <nil>", UtilFuncName())
+	}
+
 	// Note: Could maintain a map in parallel for rapid lookup of table names.
 	for _, existingTable := range tableSet.tables {
 		if existingTable.Name() == newTable.Name() {
-- 
2.43.0


From 882eee706b26c1fecede471d49495d03e894d0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:38 +0000
Subject: [PATCH 31/74] fix: IsValidCellValue() of a nil *Table is invalid, as
 for SetVal()

---
 gotables.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gotables.go b/gotables.go
index 4fcaef3..87fa989 100644
--- a/gotables.go
+++ b/gotables.go
@@ -3180,6 +3180,10 @@ func (table *Table) IsValidCellValue(colName string, value interface{}) (bool, e
 		return false, fmt.Errorf("table[%s] col=%s type=%s invalid value: <nil>", table.Name(), colName, colType)
 	}
 
+	if tableValue, isTable := value.(*Table); isTable && tableValue == nil {
+		return false, fmt.Errorf("table[%s] col=%s type=%s invalid value: <nil>", table.Name(), colName, colType)
+	}
+
 	valueTypeName := fmt.Sprintf("%T", value)
 	if valueTypeName == "*gotables.Table" {
 		valueTypeName = "*Table"
-- 
2.43.0


From a8e17e438cc95a601ddcbc674df1e563eead1875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:04 +0000
Subject: [PATCH 32/74] fix: GetColValsAsStrings() of an unknown column is an
 error without rows too

---
 gotables.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gotables.go b/gotables.go
index 87fa989..1968be2 100644
--- a/gotables.go
+++ b/gotables.go
@@ -3143,6 +3143,11 @@ func (table *Table) GetColValsAsStrings(colName string) ([]string, error) {
 		return nil, fmt.Errorf("table.%s: table is an unnamed NilTable. Call table.SetName() to un-Nil it", UtilFuncName())
 	}
 
+	hasCol, err := table.HasCol(colName)
+	if !hasCol {
+		return nil, err
+	}
+
 	rowCount := table.RowCount()
 	sVals := make([]string, rowCount)
 	for rowIndex := 0; rowIndex < rowCount; rowIndex++ {
-- 
2.43.0


From 69d889f9eecb70b712ed4ec87e8e174b2ff5cedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:07 +0000
Subject: [PATCH 33/74] fix: TableSet GobEncode() of a nil table set is an
 error

---
 gob.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gob.go b/gob.go
index 978b96b..1990a50 100644
--- a/gob.go
+++ b/gob.go
@@ -191,6 +191,10 @@ func (tableSet *TableSet) GobEncode() ([]bytes.Buffer, error) {
 	var encodedTableSet []bytes.Buffer
 	var err error
 
+	if tableSet == nil {
+		return emptyBuffer, fmt.Errorf("tableSet.%s() tableSet is <nil>", UtilFuncName())
+	}
+
 	for tableIndex := 0; tableIndex < len(tableSet.tables); tableIndex++ {
 		var table *Table = tableSet.tables[tableIndex]
 		var encodedTable *bytes.Buffer
-- 
2.43.0


From b6635694484af244991bcaca0a28bd4c2a7bb051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:56 +0000
Subject: [PATCH 34/74] fix: GetTableSetAsMap() and GetTableSetAsYAML() return
 an error for a circular reference

---
 yaml.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/yaml.go b/yaml.go
index 09d961b..0760406 100644
--- a/yaml.go
+++ b/yaml.go
@@ -425,6 +425,17 @@ func (tableSet *TableSet) GetTableSetAsMap() (yamlMap map[string]interface{}, er
 }
 
 func (table *Table) getTableAsMap() (yamlTable map[string]interface{}, err error) {
+	return table.getTableAsMap_recursive(circRefMap{})
+}
+
+// Parameter enclosing holds the tables that table is nested in.
+func (table *Table) getTableAsMap_recursive(enclosing circRefMap) (yamlTable map[string]interface{}, err error) {
+
+	if _, exists := enclosing[table]; exists { // Invalid table with circular reference!
+		return nil, fmt.Errorf("getTableAsMap(): %w", NewCircRefError(table, table, ""))
+	}
+	enclosing[table] = EmptyStruct
+	defer delete(enclosing, table)
 
 	var yamlObject map[string]interface{} // Cell name and value pair.
 	var yamlTableData [][]interface{}
@@ -525,7 +536,7 @@ func (table *Table) getTableAsMap() (yamlTable map[string]interface{}, err error
 				return err
 			}
 
-			anyVal, err = nestedTable.getTableAsMap()
+			anyVal, err = nestedTable.getTableAsMap_recursive(enclosing)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 9b1346a5f16c8bd9155f100a131e4a9ede122faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:57 +0000
Subject: [PATCH 35/74] fix: GetTableSetAsYAML() returns the error when
 encoding fails

---
 yaml.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaml.go b/yaml.go
index 0760406..78716e1 100644
--- a/yaml.go
+++ b/yaml.go
@@ -377,13 +377,13 @@ func (tableSet *TableSet) GetTableSetAsYAML() (yamlString string, err error) {
 	var yamlMap map[string]interface{}
 	yamlMap, err = tableSet.GetTableSetAsMap()
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 
 	var yamlBytes []byte
 	yamlBytes, err = yaml.Marshal(yamlMap)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 
 	yamlString = string(yamlBytes)
-- 
2.43.0


From d9a5bbd0bf39261f1a18bdd8dc4e1c886ef03128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:10 +0000
Subject: [PATCH 36/74] fix: StringNested() leaves the names of nested tables
 alone

---
 gotables.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gotables.go b/gotables.go
index 1968be2..a51968a 100644
--- a/gotables.go
+++ b/gotables.go
@@ -4637,6 +4637,7 @@ globalDepth++
 				tailName := fmt.Sprintf("__FROM_%s_%s_%d%s", parentTableName, colName, rowIndex, parentTailName)
 */
 				headName := nestedTable.Name()
+				isNilTable := nestedTable.isNilTable
 				var tailName string
 				if debug {
 					tailName = fmt.Sprintf("__FROM_TABLE_%s_COL_%s_row_%d%s", parentTableName, colName, rowIndex, parentTailName)
@@ -4653,6 +4654,10 @@ globalDepth++
 // where(fmt.Sprintf("\n>>> nestedTable.stringNested_recursive(%q, %q, %d, stringNested=\n%s)",
 // table.Name(), colName, rowIndex, *stringNested))
 				nestedTable.stringNested_recursive(headName, tailName, colName, rowIndex, stringNested)
+
+				// Restore the name. Formatting a table does not change it.
+				nestedTable.tableName = headName
+				nestedTable.isNilTable = isNilTable
 			}
 		}
 	}
-- 
2.43.0


From d4c5b9d8917a724ee3bf359d62cbf89882b57039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:20 +0000
Subject: [PATCH 37/74] fix: StringNested() stops at a circular reference

---
 gotables.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/gotables.go b/gotables.go
index a51968a..df8155b 100644
--- a/gotables.go
+++ b/gotables.go
@@ -4558,7 +4558,7 @@ func (table *Table) IsTableCol(colName string) (isTableCol bool, err error) {
 }
 
 func (table *Table) StringNested() (stringNested string) {
-	table.stringNested_recursive(table.Name(), "", "", 0, &stringNested)
+	table.stringNested_recursive(table.Name(), "", "", 0, &stringNested, circRefMap{})
 	return
 }
 
@@ -4590,7 +4590,7 @@ func (tableSet *TableSet) StringNested() (stringNested string) {
 */
 
 var globalDepth int
-func (table *Table) stringNested_recursive(parentTableName string, parentTailName, parentColName string, parentRowIndex int, stringNested *string) {
+func (table *Table) stringNested_recursive(parentTableName string, parentTailName, parentColName string, parentRowIndex int, stringNested *string, enclosing circRefMap) {
 //where(fmt.Sprintf("depth=%d [%s]",  globalDepth, table.Name()))
 globalDepth++
 
@@ -4613,6 +4613,10 @@ globalDepth++
 	}
 */
 	*stringNested += table.String() + "\n"
+
+	// Tables which table is nested in, and table itself.
+	enclosing[table] = EmptyStruct
+	defer delete(enclosing, table)
 //where("\n" + *stringNested)
 //where("-------------------- stringNested_recursive() --------------------")
 
@@ -4636,6 +4640,12 @@ globalDepth++
 //				tailName := fmt.Sprintf("__from_table_%s_col_%s_row_%d%s", parentTableName, colName, rowIndex, parentTailName)
 				tailName := fmt.Sprintf("__FROM_%s_%s_%d%s", parentTableName, colName, rowIndex, parentTailName)
 */
+				if _, exists := enclosing[nestedTable]; exists { // Circular reference.
+					_, _ = os.Stderr.WriteString(fmt.Sprintf("%s ERROR table.%s: %v\n",
+						UtilFuncSource(), UtilFuncName(), NewCircRefError(table, nestedTable, "")))
+					continue
+				}
+
 				headName := nestedTable.Name()
 				isNilTable := nestedTable.isNilTable
 				var tailName string
@@ -4653,7 +4663,7 @@ globalDepth++
 
 // where(fmt.Sprintf("\n>>> nestedTable.stringNested_recursive(%q, %q, %d, stringNested=\n%s)",
 // table.Name(), colName, rowIndex, *stringNested))
-				nestedTable.stringNested_recursive(headName, tailName, colName, rowIndex, stringNested)
+				nestedTable.stringNested_recursive(headName, tailName, colName, rowIndex, stringNested, enclosing)
 
 				// Restore the name. Formatting a table does not change it.
 				nestedTable.tableName = headName
-- 
2.43.0


From 6c9620e3f1e7c08174b8f5a94ac6f6c7c6d3bb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:27 +0000
Subject: [PATCH 38/74] fix: accept only the documented ASCII letters and
 digits in table and column names

---
 parser.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index 48847af..de7bf02 100644
--- a/parser.go
+++ b/parser.go
@@ -25,7 +25,6 @@ import (
 	"strconv"
 	"strings"
 	"time"
-	"unicode"
 )
 
 /*
@@ -807,18 +806,23 @@ func isValidName(name string) (bool, error) {
 	if len(name) == 0 {
 		return false, fmt.Errorf("%s: len(name) == 0", UtilFuncName())
 	}
-	if !unicode.IsLetter(rune(name[0])) && name[0] != '_' {
+	if !isNameLetter(name[0]) {
 		return false, fmt.Errorf("%s: invalid first char: %c (expecting letter or '_')", UtilFuncName(), name[0])
 	}
 	for i := 1; i < len(name); i++ {
-		if !unicode.IsLetter(rune(name[i])) && name[i] != '_' && !unicode.IsNumber(rune(name[i])) {
-			return false, fmt.Errorf("%s: invalid char: %c (expecting letter or '_' or number)", UtilFuncName(), name[0])
+		if !isNameLetter(name[i]) && !(name[i] >= '0' && name[i] <= '9') {
+			return false, fmt.Errorf("%s: invalid char: %c (expecting letter or '_' or number)", UtilFuncName(), name[i])
 		}
 	}
 
 	return true, nil
 }
 
+// Matches one [a-zA-Z_] of namePattern. A byte of a multi-byte UTF-8 char is not a letter.
+func isNameLetter(char byte) bool {
+	return (char >= 'a' && char <= 'z') || (char >= 'A' && char <= 'Z') || char == '_'
+}
+
 // Note: The same validity rules apply to both table names and col names.
 func IsValidColName(colName string) (bool, error) {
 
-- 
2.43.0


From f8e7b7c75b3c510b2203f64d7a31d9bac24e3f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:25 +0000
Subject: [PATCH 39/74] fix: accept a leading plus sign in unsigned integer
 cells

---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index de7bf02..869a8d2 100644
--- a/parser.go
+++ b/parser.go
@@ -1439,6 +1439,9 @@ func parseUint(s string, bitSize int) (uint64Val uint64, err error) {
 			uint64Val, err = strconv.ParseUint(s, _OCT, bitSize)
 		}
 	} else {
+		if s[0] == '+' { // uintRegexp allows a leading plus sign, but strconv.ParseUint() does not.
+			s = s[1:]
+		}
 		uint64Val, err = strconv.ParseUint(s, _DEC, bitSize)
 	}
 
-- 
2.43.0


From ef73d73d5a1385b650ebc72626eba5587c070eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:15 +0000
Subject: [PATCH 40/74] fix: require whitespace-separated cells and refuse text
 before a cell

---
 parser.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/parser.go b/parser.go
index 869a8d2..fb86e71 100644
--- a/parser.go
+++ b/parser.go
@@ -1264,7 +1264,20 @@ func (p *parser) getRowSlice(line string, table *Table, colNames []string, colTy
 			return nil, fmt.Errorf("line %s Unreachable code in getRowCol(): Need to define another type?", p.gotFilePos())
 		}
 
+		// Some of the regular expressions are not anchored, so make sure no text has been skipped.
+		if rangeFound[0] > 0 {
+			return nil, fmt.Errorf("%s col %s expecting a valid value of type %s but found: %s",
+				p.gotFilePos(), colNames[i], colTypes[i], remaining)
+		}
+
 		remaining = remaining[rangeFound[1]:]
+
+		// Values are separated by whitespace.
+		if len(remaining) > 0 && !strings.ContainsRune(" \t", rune(remaining[0])) {
+			return nil, fmt.Errorf("%s col %s expecting whitespace after value %s of type %s but found: %s",
+				p.gotFilePos(), colNames[i], textFound, colTypes[i], remaining)
+		}
+
 		//		remaining = strings.TrimLeft(remaining, " \t\r\n") // Remove leading whitespace. Is \t\r\n overkill?
 		remaining = strings.TrimLeft(remaining, " \t") // Remove leading whitespace.
 		colCount++
-- 
2.43.0


From 7968e8dfa014c3db8bbd8c1801c53ce0223524a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:35 +0000
Subject: [PATCH 41/74] fix: col names at end of input must be followed by col
 types

---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index fb86e71..2d5d708 100644
--- a/parser.go
+++ b/parser.go
@@ -523,6 +523,9 @@ func (p *parser) parseString(s string) (*TableSet, error) {
 		}
 
 		if readError == io.EOF {
+			if expecting == _COL_TYPES {
+				return nil, fmt.Errorf("%s expecting row of col names to be followed by a row of col types", p.gotFilePos())
+			}
 			return tables, nil // It's not an error to reach EOF. It just means end of document.
 		}
 	}
-- 
2.43.0


From 9b479e0098aa4c69dc08c70e4c22a59a5a8a64ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:39 +0000
Subject: [PATCH 42/74] fix: refuse unread text on the lines of a struct

---
 parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser.go b/parser.go
index 2d5d708..07dc20c 100644
--- a/parser.go
+++ b/parser.go
@@ -411,6 +411,9 @@ func (p *parser) parseString(s string) (*TableSet, error) {
 					if len(lineSplit) < 4 {
 						return nil, fmt.Errorf("#5 %s looks like struct with data but found: %s", p.gotFilePos(), line)
 					}
+					if lineSplit[structEqualsIndex] != "=" {
+						return nil, fmt.Errorf("#6 %s expecting <name> <type> = <value> but found: %s", p.gotFilePos(), line)
+					}
 					var valueData string = line[rangeFound[1]:]        // Just after = equals sign.
 					valueData = strings.TrimLeft(valueData, " \t\r\n") // Remove leading space.
 
@@ -453,6 +456,8 @@ func (p *parser) parseString(s string) (*TableSet, error) {
 					// Still expecting _COL_NAMES which is where we find struct: <name> <type> = <value>
 					// rowMapOfStruct is a variable of type tableRow which is a map: map[string]interface{}
 					// Look up the value by reference to the colName.
+				} else if len(lineSplit) != 2 {
+					return nil, fmt.Errorf("#7 %s looks like struct without data but found: %s", p.gotFilePos(), line)
 				}
 			} else {
 
-- 
2.43.0


From c3d3bab6672c0b14a70101b84b889f8d92c1b341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 43/74] fix: encode and restore sort keys

---
 gob.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/gob.go b/gob.go
index 1990a50..06ceda4 100644
--- a/gob.go
+++ b/gob.go
@@ -68,7 +68,7 @@ func (table *Table) exportTable() (*TableExported, error) {
 		return nil, err
 	}
 
-	tableExported.SortKeys = []SortKeyExported{}
+	tableExported.SortKeys = make([]SortKeyExported, len(table.sortKeys))
 	for keyIndex, _ := range table.sortKeys {
 		tableExported.SortKeys[keyIndex] = SortKeyExported{}
 		tableExported.SortKeys[keyIndex].ColName = table.sortKeys[keyIndex].colName
@@ -132,12 +132,13 @@ func (tableExported *TableExported) importTable() (*Table, error) {
 	}
 
 	table.sortKeys = []sortKey{}
-	for keyIndex, _ := range table.sortKeys {
-		table.sortKeys[keyIndex] = sortKey{}
-		table.sortKeys[keyIndex].colName = tableExported.SortKeys[keyIndex].ColName
-		table.sortKeys[keyIndex].colType = tableExported.SortKeys[keyIndex].ColType
-		table.sortKeys[keyIndex].reverse = tableExported.SortKeys[keyIndex].Reverse
-		table.sortKeys[keyIndex].sortFunc = tableExported.SortKeys[keyIndex].SortFunc
+	for keyIndex, key := range tableExported.SortKeys {
+		// GOB doesn't encode functions, so let AppendSortKey() look up the sort function of this col.
+		err = table.AppendSortKey(key.ColName)
+		if err != nil {
+			return nil, err
+		}
+		table.sortKeys[keyIndex].reverse = key.Reverse
 	}
 
 	table.isStructShape = tableExported.StructShape
-- 
2.43.0


From a3468e3b07b1f03cdf8abcd78f20812cae8b1576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:56 +0000
Subject: [PATCH 44/74] fix: refuse to import a cell which does not match its
 col type

---
 gob.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gob.go b/gob.go
index 06ceda4..1055262 100644
--- a/gob.go
+++ b/gob.go
@@ -148,6 +148,15 @@ func (tableExported *TableExported) importTable() (*Table, error) {
 		return nil, err
 	}
 
+	for rowIndex := 0; rowIndex < table.RowCount(); rowIndex++ {
+		for colIndex, colName := range table.colNames {
+			isValid, err = table.IsValidCellValue(colName, table.rows[rowIndex][colIndex])
+			if !isValid {
+				return nil, err
+			}
+		}
+	}
+
 	return table, nil
 }
 
-- 
2.43.0


From 2eb3ee8ac44be5654622d29e6589ee4076eed27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:00 +0000
Subject: [PATCH 45/74] fix: GobDecodeTableSet of an empty buffer is an error

---
 gob.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gob.go b/gob.go
index 1055262..5b80c5e 100644
--- a/gob.go
+++ b/gob.go
@@ -267,6 +267,11 @@ func NewTableSetFromGob(buffer []bytes.Buffer) (*TableSet, error) {
 func GobDecodeTableSet(buffer []bytes.Buffer) (*TableSet, error) {
 	var tableSet *TableSet
 	var err error
+
+	if len(buffer) == 0 {
+		return nil, fmt.Errorf("%s: expecting at least the table set header, but buffer is empty", UtilFuncName())
+	}
+
 	tableSet, err = NewTableSet("")
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 70662b6b2f3521a6a5d4d0ba870c1b6a46fe6e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:03 +0000
Subject: [PATCH 46/74] fix: IsValidTable reports an inconsistent col names map

---
 gotables.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gotables.go b/gotables.go
index df8155b..9ff985f 100644
--- a/gotables.go
+++ b/gotables.go
@@ -2847,7 +2847,7 @@ func (table *Table) IsValidTable() (isValid bool, err error) {
 
 	_, err = table.isValidColNamesMap()
 	if err != nil {
-		return false, nil
+		return false, err
 	}
 
 	for rowIndex := 0; rowIndex < table.RowCount(); rowIndex++ {
-- 
2.43.0


From b3c3e52f622e33c7ca03e9b2338d658a01dfd9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:25 +0000
Subject: [PATCH 47/74] fix: print 64-bit integers exactly in padded table text

---
 gotables.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gotables.go b/gotables.go
index 9ff985f..48be23b 100644
--- a/gotables.go
+++ b/gotables.go
@@ -1355,7 +1355,10 @@ func printMatrix(tableName string, matrix [][]string, width []int, precis []int,
 				var toWrite string
 				if row <= 1 { // It's a colName or typeName
 					toWrite = matrix[col][row]
-				} else { // It's numeric. Note: float conversion handles int conversion.
+				} else if colTypes[col] != "float32" && colTypes[col] != "float64" {
+					// It's an integer. Don't convert to float, because a float64 can't hold every 64-bit integer.
+					toWrite = matrix[col][row]
+				} else { // It's a float.
 					var bits int
 					switch colTypes[col] {
 					case "float32":
-- 
2.43.0


From f40c7a0abb4658a874810dfabb8e275b23df6936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:45 +0000
Subject: [PATCH 48/74] fix: quote strings and runes of a struct-shape table

---
 gotables.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/gotables.go b/gotables.go
index 48be23b..0d15301 100644
--- a/gotables.go
+++ b/gotables.go
@@ -1658,12 +1658,11 @@ func printStruct(table *Table) string {
 
 			switch table.colTypes[colIndex] {
 			case "string":
-				// Note 1: GetValAsStringByColIndex() doesn't include delimiters around strings.
-				// Note 2: Don't use %q. Use \"%s\" instead. Because %q replicates escape slashes.
-				s += " = " + fmt.Sprintf("\"%s\"", asString)
+				// Note: GetValAsStringByColIndex() doesn't include delimiters around strings.
+				s += " = " + strconv.Quote(asString)
 			case "rune":
 				// Note: GetValAsStringByColIndex() doesn't include delimiters around runes.
-				s += " = " + fmt.Sprintf("'%s'", asString)
+				s += " = " + strconv.QuoteRune(table.rows[RowIndexZero][colIndex].(rune))
 			default:
 				// All other types don't have delimiters.
 				s += " = " + asString
-- 
2.43.0


From 9cd4bac085d2144b5b270e03dccc72e9fe268a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:50 +0000
Subject: [PATCH 49/74] fix: unpadded text of byte, []byte, []uint8 and
 time.Time cols

---
 gotables.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/gotables.go b/gotables.go
index 0d15301..45cc2eb 100644
--- a/gotables.go
+++ b/gotables.go
@@ -1227,6 +1227,8 @@ func (table *Table) _String(horizontalSeparator byte) string {
 				var runeVal rune
 				var tVal bool
 				var ui8Val uint8
+				var ui8SliceVal []uint8
+				var byteSliceVal []byte
 				var ui16Val uint16
 				var ui32Val uint32
 				var ui64Val uint64
@@ -1239,6 +1241,7 @@ func (table *Table) _String(horizontalSeparator byte) string {
 				var f32Val float32
 				var f64Val float64
 				var tableVal *Table
+				var timeVal time.Time
 				buf.WriteString(horizontalSep)
 				switch table.colTypes[colIndex] {
 				case "string":
@@ -1252,9 +1255,15 @@ func (table *Table) _String(horizontalSeparator byte) string {
 				case "bool":
 					tVal = row[colIndex].(bool)
 					buf.WriteString(fmt.Sprintf("%t", tVal))
-				case "uint8":
+				case "uint8", "byte":
 					ui8Val = row[colIndex].(uint8)
 					buf.WriteString(fmt.Sprintf("%d", ui8Val))
+				case "[]uint8":
+					ui8SliceVal = row[colIndex].([]uint8)
+					buf.WriteString(fmt.Sprintf("%v", ui8SliceVal))
+				case "[]byte":
+					byteSliceVal = row[colIndex].([]byte)
+					buf.WriteString(fmt.Sprintf("%v", byteSliceVal))
 				case "uint16":
 					ui16Val = row[colIndex].(uint16)
 					buf.WriteString(fmt.Sprintf("%d", ui16Val))
@@ -1296,6 +1305,13 @@ func (table *Table) _String(horizontalSeparator byte) string {
 					buf.WriteByte(91) // Opening square bracket.
 					buf.WriteString(tableName)
 					buf.WriteByte(93) // Closing square bracket.
+				case "time.Time":
+					timeVal = row[colIndex].(time.Time)
+					if timeVal.Nanosecond() > 0 {
+						buf.WriteString(timeVal.Format(time.RFC3339Nano))
+					} else {
+						buf.WriteString(timeVal.Format(time.RFC3339))
+					}
 				default:
 					log.Printf("%s #1 ERROR IN %s: unknown type: %s\n",
 						UtilFuncSource(), UtilFuncName(), table.colTypes[colIndex])
-- 
2.43.0


From a51c0c5a80caac2447faf666b947e8359153a243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:55 +0000
Subject: [PATCH 50/74] fix: unpadded text of a table set includes its name

---
 gotables.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gotables.go b/gotables.go
index 45cc2eb..3710210 100644
--- a/gotables.go
+++ b/gotables.go
@@ -342,6 +342,9 @@ func (tableSet *TableSet) _String(horizontalSeparator byte) string {
 
 	var buf bytes.Buffer
 	//	buf.WriteString("# From file: \"" + tableSet.name + "\"\n\n")
+	if tableSet.Name() != "" {
+		buf.WriteString(fmt.Sprintf("[[%s]]\n\n", tableSet.Name()))
+	}
 	var tableSep = ""
 	var table *Table
 	for i := 0; i < len(tableSet.tables); i++ {
-- 
2.43.0


From 07a2e8ee498c80d1ab5563d1fa43c5caea555e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:59 +0000
Subject: [PATCH 51/74] fix: parse times with fewer than 9 fractional digits

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 07dc20c..3acbaf8 100644
--- a/parser.go
+++ b/parser.go
@@ -150,7 +150,7 @@ const tableNameNilPattern string = `^(\[\])`                  // Don't add $ at
 // const rfc3339TimePattern string = `\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(Z|([+-]\d{2}:\d{2}))`
 // RFC3339Nano = "2006-01-02T15:04:05.999999999Z07:00"
 // const rfc3339TimePattern string = `\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(\.\d+)?(Z|([+-]\d{2}:\d{2}))`
-const rfc3339TimePattern string = `\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(\.\d{9})?(Z|([+-]\d{2}:\d{2}))`
+const rfc3339TimePattern string = `\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(\.\d{1,9})?(Z|([+-]\d{2}:\d{2}))`
 
 var tableSetNameRegexp *regexp.Regexp = regexp.MustCompile(tableSetNamePattern)
 var tableNameRegexp *regexp.Regexp = regexp.MustCompile(tableNamePattern)
-- 
2.43.0


From d2b9fdcaac38681b26aadd3d0cb3236f72d9e3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:20 +0000
Subject: [PATCH 52/74] fix: parse infinite floats

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 3acbaf8..b3293e0 100644
--- a/parser.go
+++ b/parser.go
@@ -138,7 +138,7 @@ var intRegexp *regexp.Regexp
 // Allow negative float numbers! 15/03/2017 Amazed that this was missed during initial testing!
 // var floatRegexp		*regexp.Regexp = regexp.MustCompile(`(^[-+]?(\b[0-9]+\.([0-9]+\b)?|\b\.[0-9]+\b))|([Nn][Aa][Nn])|(\b[-+]?\d+\b)`)
 // From Regular Expressions Cookbook.
-var floatRegexp *regexp.Regexp = regexp.MustCompile(`^([-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][-+]?[0-9]+)?)|([Nn][Aa][Nn])`)
+var floatRegexp *regexp.Regexp = regexp.MustCompile(`^([-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][-+]?[0-9]+)?)|([Nn][Aa][Nn])|^([-+]?Inf)`)
 
 const tableSetNamePattern string = `^\[\[[a-zA-Z_][a-zA-Z0-9_]*\]\]$`
 const namePattern string = `^[a-zA-Z_][a-zA-Z0-9_]*$`
-- 
2.43.0


From c6a0eafeee79ade494bb5fb12f933371b3f859cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:55 +0000
Subject: [PATCH 53/74] fix: encode strings and runes as valid JSON

---
 json.go | 49 +++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 47 insertions(+), 2 deletions(-)

diff --git a/json.go b/json.go
index 376de3a..368206f 100644
--- a/json.go
+++ b/json.go
@@ -12,6 +12,7 @@ import (
 	_ "strconv"
 	"strings"
 	"time"
+	"unicode/utf8"
 )
 
 type circRefMap map[*Table]struct{}
@@ -143,7 +144,12 @@ func getTableAsJSON_recursive(table *Table, buf *bytes.Buffer, refMap circRefMap
 			switch val.(type) {
 
 			case string:
-				buf.WriteString(fmt.Sprintf("%q", val.(string)))
+				var jsonVal string
+				jsonVal, err = quoteJSON(val.(string))
+				if err != nil {
+					return err
+				}
+				buf.WriteString(jsonVal)
 
 			case bool, int, uint, int8, int16, int64, uint8, uint16, uint32, uint64, float32, float64:
 				var valStr string
@@ -164,7 +170,16 @@ func getTableAsJSON_recursive(table *Table, buf *bytes.Buffer, refMap circRefMap
 				case "int32":
 					buf.WriteString(valStr)
 				case "rune":
-					buf.WriteString(fmt.Sprintf("%q", valStr))
+					if !utf8.ValidRune(val.(rune)) {
+						return fmt.Errorf("%s: table [%s] col %s row %d: cannot encode as JSON a rune which is not a Unicode character: %d",
+							UtilFuncName(), table.Name(), table.colNames[colIndex], rowIndex, val.(rune))
+					}
+					var jsonVal string
+					jsonVal, err = quoteJSON(string(val.(rune)))
+					if err != nil {
+						return err
+					}
+					buf.WriteString(jsonVal)
 				default:
 					msg := invalidColTypeMsg(table.Name(), fmt.Sprintf("%s: %s", UtilFuncName(), table.colTypes[colIndex]))
 					buf.WriteString(msg)
@@ -241,6 +256,36 @@ func getTableAsJSON_recursive(table *Table, buf *bytes.Buffer, refMap circRefMap
 	return
 }
 
+// Quote a string the way JSON does, which differs from %q in the escapes it allows.
+func quoteJSON(s string) (jsonVal string, err error) {
+	if !utf8.ValidString(s) {
+		return "", fmt.Errorf("%s: cannot encode as JSON a string which is not valid UTF-8: %q", UtilFuncName(), s)
+	}
+
+	var buf bytes.Buffer
+	buf.WriteByte('"')
+	for i := 0; i < len(s); i++ {
+		switch c := s[i]; {
+		case c == '"' || c == '\\':
+			buf.WriteByte('\\')
+			buf.WriteByte(c)
+		case c == '\n':
+			buf.WriteString(`\n`)
+		case c == '\r':
+			buf.WriteString(`\r`)
+		case c == '\t':
+			buf.WriteString(`\t`)
+		case c < ' ' || c == 0x7f: // The other control characters.
+			buf.WriteString(fmt.Sprintf(`\u%04x`, c))
+		default:
+			buf.WriteByte(c)
+		}
+	}
+	buf.WriteByte('"')
+
+	return buf.String(), nil
+}
+
 func (table *Table) GetTableAsJSONIndent() (jsonStringIndented string, err error) {
 	//where(fmt.Sprintf("***INSIDE*** %s", UtilFuncName()))
 
-- 
2.43.0


From f4787f60de45e44f274601b7f5166c5e7d82f7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:58 +0000
Subject: [PATCH 54/74] fix: refuse to encode NaN and Inf as JSON

---
 json.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/json.go b/json.go
index 368206f..c7a7f4e 100644
--- a/json.go
+++ b/json.go
@@ -5,7 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
-	_ "math"
+	"math"
 	_ "os"
 	"reflect"
 	"regexp"
@@ -152,6 +152,10 @@ func getTableAsJSON_recursive(table *Table, buf *bytes.Buffer, refMap circRefMap
 				buf.WriteString(jsonVal)
 
 			case bool, int, uint, int8, int16, int64, uint8, uint16, uint32, uint64, float32, float64:
+				if isNonFinite(val) {
+					return fmt.Errorf("%s: table [%s] col %s row %d: JSON has no number for %v",
+						UtilFuncName(), table.Name(), table.colNames[colIndex], rowIndex, val)
+				}
 				var valStr string
 				valStr, err = table.GetValAsStringByColIndex(colIndex, rowIndex)
 				if err != nil {
@@ -256,6 +260,18 @@ func getTableAsJSON_recursive(table *Table, buf *bytes.Buffer, refMap circRefMap
 	return
 }
 
+// JSON has no number for NaN, +Inf and -Inf.
+func isNonFinite(val interface{}) bool {
+	var float64Val float64
+	switch val.(type) {
+	case float32:
+		float64Val = float64(val.(float32))
+	case float64:
+		float64Val = val.(float64)
+	}
+	return math.IsNaN(float64Val) || math.IsInf(float64Val, 0)
+}
+
 // Quote a string the way JSON does, which differs from %q in the escapes it allows.
 func quoteJSON(s string) (jsonVal string, err error) {
 	if !utf8.ValidString(s) {
-- 
2.43.0


From 50437433dcb917c24e23a58efad2157a0f3d22ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:21 +0000
Subject: [PATCH 55/74] fix: decode JSON integers exactly

---
 json.go | 113 +++++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 88 insertions(+), 25 deletions(-)

diff --git a/json.go b/json.go
index c7a7f4e..a2e26be 100644
--- a/json.go
+++ b/json.go
@@ -9,7 +9,7 @@ import (
 	_ "os"
 	"reflect"
 	"regexp"
-	_ "strconv"
+	"strconv"
 	"strings"
 	"time"
 	"unicode/utf8"
@@ -330,6 +330,42 @@ func checkJsonDecodeError(checkErr error) (err error) {
 	return nil
 }
 
+/*
+	Get the exact integer of a JSON number. Going through float64 would round large integers.
+
+	An integer may also be written with a point or an exponent: 1.0 or 1e3
+*/
+func parseJSONInt(number json.Number, bitSize int) (int64, error) {
+	int64Val, err := strconv.ParseInt(number.String(), 10, bitSize)
+	if err == nil || !strings.ContainsAny(number.String(), ".eE") {
+		return int64Val, err
+	}
+	if wholeVal, ok := wholeJSONFloat(number); ok && wholeVal == wholeVal<<(64-bitSize)>>(64-bitSize) {
+		return wholeVal, nil
+	}
+	return 0, err
+}
+
+func parseJSONUint(number json.Number, bitSize int) (uint64, error) {
+	uint64Val, err := strconv.ParseUint(number.String(), 10, bitSize)
+	if err == nil || !strings.ContainsAny(number.String(), ".eE") {
+		return uint64Val, err
+	}
+	if wholeVal, ok := wholeJSONFloat(number); ok && wholeVal >= 0 && uint64(wholeVal) == uint64(wholeVal)<<(64-bitSize)>>(64-bitSize) {
+		return uint64(wholeVal), nil
+	}
+	return 0, err
+}
+
+func wholeJSONFloat(number json.Number) (wholeVal int64, ok bool) {
+	const maxExact = 1 << 53 // Beyond this float64 skips integers.
+	float64Val, err := number.Float64()
+	if err != nil || float64Val != math.Trunc(float64Val) || math.Abs(float64Val) >= maxExact {
+		return 0, false
+	}
+	return int64(float64Val), true
+}
+
 func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, err error) {
 	//where(fmt.Sprintf("***INSIDE*** %s", UtilFuncName()))
 
@@ -455,47 +491,70 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 
 				// Deal with conversions to larger ints: int64 uint64
 				case json.Number: // We set to json.Number with: decoder.UseNumber()
+					var number json.Number = cell.(json.Number)
+					var int64Val int64
+					var uint64Val uint64
 					var float64Val float64
-					float64Val, err = cell.(json.Number).Float64()
-					if err != nil {
-						err := fmt.Errorf("could not convert json.Number to float64")
-						return nil, fmt.Errorf("%s %s: %v", UtilFuncSource(), UtilFuncName(), err)
-					}
-
 					switch colType { // We need to convert them back to gotables numeric types
 					case "int64":
-						err = table.SetInt64ByColIndex(colIndex, rowIndex, int64(float64Val))
+						if int64Val, err = parseJSONInt(number, 64); err == nil {
+							err = table.SetInt64ByColIndex(colIndex, rowIndex, int64Val)
+						}
 					case "uint64":
-						err = table.SetUint64ByColIndex(colIndex, rowIndex, uint64(float64Val))
+						if uint64Val, err = parseJSONUint(number, 64); err == nil {
+							err = table.SetUint64ByColIndex(colIndex, rowIndex, uint64Val)
+						}
 					case "float32":
-						err = table.SetFloat32ByColIndex(colIndex, rowIndex, float32(float64Val))
+						if float64Val, err = strconv.ParseFloat(number.String(), 32); err == nil {
+							err = table.SetFloat32ByColIndex(colIndex, rowIndex, float32(float64Val))
+						}
 					case "float64":
-						err = table.SetFloat64ByColIndex(colIndex, rowIndex, float64Val)
+						if float64Val, err = number.Float64(); err == nil {
+							err = table.SetFloat64ByColIndex(colIndex, rowIndex, float64Val)
+						}
 					case "int":
-						err = table.SetIntByColIndex(colIndex, rowIndex, int(float64Val))
+						if int64Val, err = parseJSONInt(number, strconv.IntSize); err == nil {
+							err = table.SetIntByColIndex(colIndex, rowIndex, int(int64Val))
+						}
 					case "uint":
-						err = table.SetUintByColIndex(colIndex, rowIndex, uint(float64Val))
+						if uint64Val, err = parseJSONUint(number, strconv.IntSize); err == nil {
+							err = table.SetUintByColIndex(colIndex, rowIndex, uint(uint64Val))
+						}
 					case "byte":
-						err = table.SetByteByColIndex(colIndex, rowIndex, byte(float64Val))
+						if uint64Val, err = parseJSONUint(number, 8); err == nil {
+							err = table.SetByteByColIndex(colIndex, rowIndex, byte(uint64Val))
+						}
 					case "int8":
-						err = table.SetInt8ByColIndex(colIndex, rowIndex, int8(float64Val))
+						if int64Val, err = parseJSONInt(number, 8); err == nil {
+							err = table.SetInt8ByColIndex(colIndex, rowIndex, int8(int64Val))
+						}
 					case "int16":
-						err = table.SetInt16ByColIndex(colIndex, rowIndex, int16(float64Val))
+						if int64Val, err = parseJSONInt(number, 16); err == nil {
+							err = table.SetInt16ByColIndex(colIndex, rowIndex, int16(int64Val))
+						}
 					case "int32":
-						err = table.SetInt32ByColIndex(colIndex, rowIndex, int32(float64Val))
+						if int64Val, err = parseJSONInt(number, 32); err == nil {
+							err = table.SetInt32ByColIndex(colIndex, rowIndex, int32(int64Val))
+						}
 					case "uint8":
-						err = table.SetUint8ByColIndex(colIndex, rowIndex, uint8(float64Val))
+						if uint64Val, err = parseJSONUint(number, 8); err == nil {
+							err = table.SetUint8ByColIndex(colIndex, rowIndex, uint8(uint64Val))
+						}
 					case "uint16":
-						err = table.SetUint16ByColIndex(colIndex, rowIndex, uint16(float64Val))
+						if uint64Val, err = parseJSONUint(number, 16); err == nil {
+							err = table.SetUint16ByColIndex(colIndex, rowIndex, uint16(uint64Val))
+						}
 					case "uint32":
-						err = table.SetUint32ByColIndex(colIndex, rowIndex, uint32(float64Val))
+						if uint64Val, err = parseJSONUint(number, 32); err == nil {
+							err = table.SetUint32ByColIndex(colIndex, rowIndex, uint32(uint64Val))
+						}
 					default:
 						return nil, fmt.Errorf("%s %s: unexpected value of type: %s",
 							UtilFuncSource(), UtilFuncName(), colType)
 					}
 					// Single error handler for all the calls in this switch statement.
 					if err != nil {
-						err := fmt.Errorf("could not convert JSON float64 to gotables %s", colType)
+						err := fmt.Errorf("could not convert JSON number to gotables %s: %v", colType, err)
 						return nil, fmt.Errorf("%s %s: %v", UtilFuncSource(), UtilFuncName(), err)
 					}
 				case bool:
@@ -504,14 +563,18 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 				case []interface{}: // This cell is a slice (probably either byte or uint8)
 					var interfaceSlice []interface{} = cell.([]interface{})
 					var byteSlice []byte = []byte{} // Ready to append to.
-					var float64Val float64
 					for _, sliceVal := range interfaceSlice {
-						float64Val, err = sliceVal.(json.Number).Float64()
+						number, ok := sliceVal.(json.Number)
+						if !ok {
+							return nil, fmt.Errorf("%s %s: unexpected element of type %T in gotables %s",
+								UtilFuncSource(), UtilFuncName(), sliceVal, colType)
+						}
+						uint64Val, err := parseJSONUint(number, 8)
 						if err != nil {
-							err := fmt.Errorf("could not convert json.Number to float64")
+							err := fmt.Errorf("could not convert JSON number to an element of gotables %s: %v", colType, err)
 							return nil, fmt.Errorf("%s %s: %v", UtilFuncSource(), UtilFuncName(), err)
 						}
-						byteSlice = append(byteSlice, byte(float64Val))
+						byteSlice = append(byteSlice, byte(uint64Val))
 					}
 					err = table.SetByteSliceByColIndex(colIndex, rowIndex, byteSlice)
 					if err != nil {
-- 
2.43.0


From e8bb0645a7fbb13b70b7c572b88a0533ffdd6d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:34 +0000
Subject: [PATCH 56/74] fix: refuse malformed JSON documents with an error

---
 json.go | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/json.go b/json.go
index a2e26be..9de51ea 100644
--- a/json.go
+++ b/json.go
@@ -412,10 +412,13 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 		var colName string
 		var colType string
 		var val interface{}
-		for colName, val = range colNameAndType.(map[string]interface{}) {
+		colNameAndTypeMap, ok := colNameAndType.(map[string]interface{})
+		if !ok || len(colNameAndTypeMap) != 1 {
+			return nil, fmt.Errorf("expecting col name and col type in JSON metadata but got: %v", colNameAndType)
+		}
+		for colName, val = range colNameAndTypeMap {
 			// There's only one map element here: colName and colType.
 		}
-		var ok bool
 		colType, ok = val.(string)
 		if !ok {
 			return nil, fmt.Errorf("expecting col type value from JSON string value but got type %T: %v", val, val)
@@ -443,11 +446,22 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 			return nil, err
 		}
 
-		var row []interface{} = val.([]interface{})
+		row, ok := val.([]interface{})
+		if !ok {
+			return nil, fmt.Errorf("expecting JSON array for row %d of table [%s] but got: %v", rowIndex, tableName, val)
+		}
+		if len(row) > table.ColCount() {
+			return nil, fmt.Errorf("expecting %d cell%s in row %d of table [%s] but got: %d",
+				table.ColCount(), plural(table.ColCount()), rowIndex, tableName, len(row))
+		}
 		for colIndex, val := range row {
 			// where(fmt.Sprintf("\t\tcol [%d] %v", colIndex, val))
 			var cell interface{}
-			for _, cell = range val.(map[string]interface{}) {
+			cellMap, ok := val.(map[string]interface{})
+			if !ok || len(cellMap) != 1 {
+				return nil, fmt.Errorf("expecting col name and value in JSON at [%s].(%d,%d) but got: %v", tableName, colIndex, rowIndex, val)
+			}
+			for _, cell = range cellMap {
 				// There's only one map element here: colName and colType.
 				// where(fmt.Sprintf("\t\t\tcol=%d row=%d celltype=%T cell=%v", colIndex, rowIndex, cell, cell))
 
@@ -458,6 +472,10 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 					case "rune":
 						var stringVal = cell.(string)
 						var runeSlice []rune = []rune(stringVal)
+						if len(runeSlice) != 1 {
+							return nil, fmt.Errorf("%s %s: expecting one character for gotables rune but got: %q",
+								UtilFuncSource(), UtilFuncName(), stringVal)
+						}
 						var runeVal rune = runeSlice[0]
 						err = table.SetRuneByColIndex(colIndex, rowIndex, runeVal)
 					case "time.Time":
@@ -739,7 +757,11 @@ func NewTableSetFromJSON(jsonTableSetString string) (tableSet *TableSet, err err
 	// (3) Loop through the array of tables.
 	for _, tableMapInterface = range tablesMap {
 
-		tableMap = tableMapInterface.(map[string]interface{})
+		var ok bool
+		tableMap, ok = tableMapInterface.(map[string]interface{})
+		if !ok {
+			return nil, fmt.Errorf("%s: expecting JSON object for table but got: %v", UtilFuncName(), tableMapInterface)
+		}
 
 		var table *Table
 		table, err = newTableFromJSON_recursive(tableMap)
-- 
2.43.0


From 7589f29944a4ec4898c2ebe9b6cbd4bc29c2a7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:36 +0000
Subject: [PATCH 57/74] fix: encode multi-line strings as quoted YAML strings

---
 yaml.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/yaml.go b/yaml.go
index 78716e1..3af326c 100644
--- a/yaml.go
+++ b/yaml.go
@@ -4,8 +4,9 @@ import (
 	_ "encoding/json"
 	"fmt"
 	_ "os"
-	_ "strings"
+	"strings"
 	"time"
+	"unicode/utf8"
 
 	yaml "gopkg.in/yaml.v3"
 )
@@ -380,6 +381,10 @@ func (tableSet *TableSet) GetTableSetAsYAML() (yamlString string, err error) {
 		return "", err
 	}
 
+	for _, yamlTable := range yamlMap["tables"].([]map[string]interface{}) {
+		quoteMultiLineStrings(yamlTable)
+	}
+
 	var yamlBytes []byte
 	yamlBytes, err = yaml.Marshal(yamlMap)
 	if err != nil {
@@ -391,6 +396,27 @@ func (tableSet *TableSet) GetTableSetAsYAML() (yamlString string, err error) {
 	return
 }
 
+/*
+	Have the multi-line strings of yamlTable (and of the tables nested in it) encoded as double-quoted strings.
+
+	yaml encodes them as block scalars by default, and some of these (where the text begins with a space)
+	cannot be parsed again, or lose spaces.
+*/
+func quoteMultiLineStrings(yamlTable map[string]interface{}) {
+	for _, row := range yamlTable["data"].([][]interface{}) {
+		for colIndex, cell := range row {
+			switch val := cell.(type) {
+			case string:
+				if strings.Contains(val, "\n") && utf8.ValidString(val) {
+					row[colIndex] = &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Style: yaml.DoubleQuotedStyle, Value: val}
+				}
+			case map[string]interface{}:
+				quoteMultiLineStrings(val)
+			}
+		}
+	}
+}
+
 func (tableSet *TableSet) GetTableSetAsMap() (yamlMap map[string]interface{}, err error) {
 
 	if tableSet == nil {
-- 
2.43.0


From d2cada19c57cb5e2f6f328e211b0434ed2066f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:39 +0000
Subject: [PATCH 58/74] fix: decode whole-valued float64 from YAML

---
 yaml.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaml.go b/yaml.go
index 3af326c..693b42b 100644
--- a/yaml.go
+++ b/yaml.go
@@ -230,6 +230,8 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 					err = table.SetUint64ByColIndex(colIndex, rowIndex, uint64(intVal))
 				case "float32":
 					err = table.SetFloat32ByColIndex(colIndex, rowIndex, float32(intVal))
+				case "float64": // A whole number is encoded without decimals.
+					err = table.SetFloat64ByColIndex(colIndex, rowIndex, float64(intVal))
 				case "time.Time":
 					err = table.SetTimeByColIndex(colIndex, rowIndex, row[colIndex].(time.Time))
 				case "rune":
-- 
2.43.0


From 7fa9483edaa1264c4d2aecc0a35fc2540b7ebfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:29 +0000
Subject: [PATCH 59/74] fix: round float32 once when decoding YAML

---
 yaml.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/yaml.go b/yaml.go
index 693b42b..434e3f1 100644
--- a/yaml.go
+++ b/yaml.go
@@ -4,6 +4,7 @@ import (
 	_ "encoding/json"
 	"fmt"
 	_ "os"
+	"strconv"
 	"strings"
 	"time"
 	"unicode/utf8"
@@ -254,7 +255,11 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 				switch table.colTypes[colIndex] {
 				case "float32":
 					var float64Val float64 = row[colIndex].(float64)
-					err = table.SetFloat32ByColIndex(colIndex, rowIndex, float32(float64Val))
+					// Round the text of the number once (to float32) and not twice (to float64 and then to float32).
+					float64Val, err = strconv.ParseFloat(strconv.FormatFloat(float64Val, 'g', -1, 64), 32)
+					if err == nil {
+						err = table.SetFloat32ByColIndex(colIndex, rowIndex, float32(float64Val))
+					}
 				case "float64":
 					err = table.SetFloat64ByColIndex(colIndex, rowIndex, row[colIndex].(float64))
 				default:
-- 
2.43.0


From 852a32fa1f606dafd0d98f1ea6cb87c244d3952d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:13 +0000
Subject: [PATCH 60/74] fix: refuse malformed YAML documents with an error

---
 yaml.go | 132 +++++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 97 insertions(+), 35 deletions(-)

diff --git a/yaml.go b/yaml.go
index 434e3f1..01e2e32 100644
--- a/yaml.go
+++ b/yaml.go
@@ -57,9 +57,7 @@ func NewTableSetFromYAML(yamlTableSetString string) (tableSet *TableSet, err err
 	// (2) Retrieve and process tables.
 	var tablesMap []interface{}
 	var anyVal interface{}
-	anyVal, exists = tableSetMap["tables"]
-	tablesMap = anyVal.([]interface{})
-
+	tablesMap, exists = tableSetMap["tables"].([]interface{})
 	if !exists {
 		return nil, fmt.Errorf("%s %s: in YAML doc: 'tables' is missing", UtilFuncSource(), UtilFuncName())
 	}
@@ -69,7 +67,10 @@ func NewTableSetFromYAML(yamlTableSetString string) (tableSet *TableSet, err err
 	// (3) Loop through the array of tables.
 	for _, anyVal = range tablesMap {
 
-		tableMap = anyVal.(map[string]interface{})
+		tableMap, exists = anyVal.(map[string]interface{})
+		if !exists {
+			return nil, fmt.Errorf("%s %s: in YAML doc: expecting a table but got: %v", UtilFuncSource(), UtilFuncName(), anyVal)
+		}
 
 		var table *Table
 		table, err = newTableFromYAML_recursive(tableMap)
@@ -138,11 +139,18 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 		var colName string
 		var colType string
 		var typeVal interface{}
-		for colName, typeVal = range colNameAndType.(map[string]interface{}) {
+		colNameAndTypeMap, ok := colNameAndType.(map[string]interface{})
+		if !ok || len(colNameAndTypeMap) != 1 {
+			table = nil
+			err = fmt.Errorf("expecting one colName and colType in YAML metadata but got: %v", colNameAndType)
+			return
+		}
+		for colName, typeVal = range colNameAndTypeMap {
 			// There's only one map element here: colName and colType.
 		}
-		colType, ok := typeVal.(string)
+		colType, ok = typeVal.(string)
 		if !ok {
+			table = nil
 			err = fmt.Errorf("expecting colType string value from YAML but got type %T and value: %v", typeVal, typeVal)
 			return
 		}
@@ -175,11 +183,21 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 		dataMapSlice = whatever.([]interface{})
 		data = make([][]interface{}, len(dataMapSlice))
 		for i, el1 := range dataMapSlice {
-			for _, el2 := range el1.([]interface{}) {
+			row, ok := el1.([]interface{})
+			if !ok {
+				table = nil
+				err = fmt.Errorf("expecting a row of table [%s] from YAML but got: %v", tableName, el1)
+				return
+			}
+			for _, el2 := range row {
 				data[i] = append(data[i], el2)
 			}
 		}
+	case nil:
 	default:
+		table = nil
+		err = fmt.Errorf("expecting the rows of table [%s] from YAML but got: %v", tableName, whatever)
+		return
 	}
 
 	whatever, exists = existsInMap(tableMap, "data")
@@ -198,12 +216,23 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 			return
 		}
 		row = data[rowIndex]
+		if len(row) > table.ColCount() {
+			err = fmt.Errorf("expecting %d cell%s in row %d of table [%s] from YAML but got: %d",
+				table.ColCount(), plural(table.ColCount()), rowIndex, tableName, len(row))
+			table = nil
+			return
+		}
 		for colIndex := 0; colIndex < len(row); colIndex++ {
 			switch row[colIndex].(type) {
 			case uint:
 				err = table.SetUintByColIndex(colIndex, rowIndex, row[colIndex].(uint))
 			case int:
 				var intVal = row[colIndex].(int)
+				if !intFitsColType(intVal, table.colTypes[colIndex]) {
+					err = fmt.Errorf("%s %s: value %d does not fit in type %s", UtilFuncSource(), UtilFuncName(), intVal, table.colTypes[colIndex])
+					table = nil
+					return
+				}
 				switch table.colTypes[colIndex] {
 				case "int":
 					err = table.SetIntByColIndex(colIndex, rowIndex, row[colIndex].(int))
@@ -233,8 +262,6 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 					err = table.SetFloat32ByColIndex(colIndex, rowIndex, float32(intVal))
 				case "float64": // A whole number is encoded without decimals.
 					err = table.SetFloat64ByColIndex(colIndex, rowIndex, float64(intVal))
-				case "time.Time":
-					err = table.SetTimeByColIndex(colIndex, rowIndex, row[colIndex].(time.Time))
 				case "rune":
 					err = table.SetRuneByColIndex(colIndex, rowIndex, rune(intVal))
 				default:
@@ -281,37 +308,43 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 				err = table.SetBoolByColIndex(colIndex, rowIndex, row[colIndex].(bool))
 			case time.Time:
 				err = table.SetTimeByColIndex(colIndex, rowIndex, row[colIndex].(time.Time))
-			case interface{}:
+			case uint64: // An integer too large for int.
+				var uint64Val uint64 = row[colIndex].(uint64)
 				switch table.colTypes[colIndex] {
-				case "byte":
-					err = table.SetByteByColIndex(colIndex, rowIndex, row[colIndex].(byte))
-
 				case "uint":
-					var uint64Val uint64 = row[colIndex].(uint64)
 					err = table.SetUintByColIndex(colIndex, rowIndex, uint(uint64Val))
-
-				case "uint16":
-					err = table.SetUint16ByColIndex(colIndex, rowIndex, row[colIndex].(uint16))
-
-				case "uint32":
-					err = table.SetUint32ByColIndex(colIndex, rowIndex, row[colIndex].(uint32))
-
 				case "uint64":
-					err = table.SetUint64ByColIndex(colIndex, rowIndex, row[colIndex].(uint64))
-
-				case "int8":
-					err = table.SetInt8ByColIndex(colIndex, rowIndex, row[colIndex].(int8))
-
-				case "int16":
-					err = table.SetInt16ByColIndex(colIndex, rowIndex, row[colIndex].(int16))
-
-				case "int64":
-					err = table.SetInt64ByColIndex(colIndex, rowIndex, row[colIndex].(int64))
-
+					err = table.SetUint64ByColIndex(colIndex, rowIndex, uint64Val)
+				case "float32":
+					err = table.SetFloat32ByColIndex(colIndex, rowIndex, float32(uint64Val))
+				case "float64":
+					err = table.SetFloat64ByColIndex(colIndex, rowIndex, float64(uint64Val))
+				default:
+					err = fmt.Errorf("%s %s: value %d does not fit in type %s", UtilFuncSource(), UtilFuncName(), uint64Val, table.colTypes[colIndex])
+				}
+			case uint16:
+				err = table.SetUint16ByColIndex(colIndex, rowIndex, row[colIndex].(uint16))
+			case uint32:
+				err = table.SetUint32ByColIndex(colIndex, rowIndex, row[colIndex].(uint32))
+			case int8:
+				err = table.SetInt8ByColIndex(colIndex, rowIndex, row[colIndex].(int8))
+			case int16:
+				err = table.SetInt16ByColIndex(colIndex, rowIndex, row[colIndex].(int16))
+			case int64:
+				err = table.SetInt64ByColIndex(colIndex, rowIndex, row[colIndex].(int64))
+			case interface{}:
+				switch table.colTypes[colIndex] {
 				case "*Table":
+					nestedMap, ok := row[colIndex].(map[string]interface{})
+					if !ok {
+						err = fmt.Errorf("%s %s: expecting a table but got: %v", UtilFuncSource(), UtilFuncName(), row[colIndex])
+						table = nil
+						return
+					}
 					var tableOut *Table
-					tableOut, err = newTableFromYAML_recursive(row[colIndex].(map[string]interface{}))
+					tableOut, err = newTableFromYAML_recursive(nestedMap)
 					if err != nil {
+						table = nil
 						return
 					}
 					err = table.SetTableByColIndex(colIndex, rowIndex, tableOut)
@@ -327,11 +360,18 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 						sliceVal = row[colIndex].([]interface{})
 						byteSliceVal = make([]byte, len(sliceVal))
 						for i := 0; i < len(sliceVal); i++ {
-							var intVal int = sliceVal[i].(int)
+							intVal, ok := sliceVal[i].(int)
+							if !ok || !intFitsColType(intVal, "byte") {
+								err = fmt.Errorf("%s %s: value %v does not fit in type %s", UtilFuncSource(), UtilFuncName(), sliceVal[i], table.colTypes[colIndex])
+								table = nil
+								return
+							}
 							byteSliceVal[i] = byte(intVal)
 						}
-					case interface{}:
 					default:
+						err = fmt.Errorf("%s %s: expecting %s but got: %v", UtilFuncSource(), UtilFuncName(), table.colTypes[colIndex], row[colIndex])
+						table = nil
+						return
 					}
 					switch table.colTypes[colIndex] {
 					case "[]byte":
@@ -376,6 +416,28 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 	return
 }
 
+// Is intVal in the range of the col type? Types other than integers are not checked here.
+func intFitsColType(intVal int, colType string) bool {
+	var int64Val = int64(intVal)
+	switch colType {
+	case "int8":
+		return int64Val == int64(int8(int64Val))
+	case "int16":
+		return int64Val == int64(int16(int64Val))
+	case "int32", "rune":
+		return int64Val == int64(int32(int64Val))
+	case "uint8", "byte":
+		return int64Val == int64(uint8(int64Val))
+	case "uint16":
+		return int64Val == int64(uint16(int64Val))
+	case "uint32":
+		return int64Val == int64(uint32(int64Val))
+	case "uint", "uint64":
+		return int64Val >= 0
+	}
+	return true
+}
+
 func (tableSet *TableSet) GetTableSetAsYAML() (yamlString string, err error) {
 
 	if tableSet == nil {
-- 
2.43.0


From 5e4add3763435bceb1c2a3e798ee6708b4cf293a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:29 +0000
Subject: [PATCH 61/74] fix: refuse a YAML table without a name

---
 yaml.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/yaml.go b/yaml.go
index 01e2e32..5994a29 100644
--- a/yaml.go
+++ b/yaml.go
@@ -78,6 +78,15 @@ func NewTableSetFromYAML(yamlTableSetString string) (tableSet *TableSet, err err
 			return
 		}
 
+		var isNilTable bool
+		isNilTable, err = table.IsNilTable()
+		if err != nil {
+			return nil, err
+		}
+		if isNilTable { // Only a nested table can be nil.
+			return nil, fmt.Errorf("%s %s: in YAML doc: 'tableName' is empty", UtilFuncSource(), UtilFuncName())
+		}
+
 		err = tableSet.Append(table)
 		if err != nil {
 			return
-- 
2.43.0


From b3dba07f7275a1b4e65d16df815600b19824e16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:41 +0000
Subject: [PATCH 62/74] fix: let Nest use the sort keys of nestable when table
 has none

---
 nest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nest.go b/nest.go
index 38bb58a..1069b5f 100644
--- a/nest.go
+++ b/nest.go
@@ -56,7 +56,7 @@ func (table *Table) Nest(nestable *Table, nestColName string) error {
 
 	// Use whichever table has sort keys for the shared keys. table is dominant over nestable.
 	if table.SortKeyCount() == 0 {
-		err = nestable.SetSortKeysFromTable(table)
+		err = table.SetSortKeysFromTable(nestable)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From ca50bebdd679580ed1dbca8d1358e7bde2b53c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:44 +0000
Subject: [PATCH 63/74] fix: let Nest nest an empty table where no row matches,
 and check the key types first

---
 nest.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/nest.go b/nest.go
index 1069b5f..9d3a2ce 100644
--- a/nest.go
+++ b/nest.go
@@ -93,6 +93,22 @@ func (table *Table) Nest(nestable *Table, nestColName string) error {
 	// Make an empty slice of keys from table, which are search terms for nestable.
 	var keys []interface{} = make([]interface{}, keysTable.RowCount())
 
+	// The key cols must be of the same type in both tables. Check before changing table.
+	for _, colName := range cols {
+		colType, err := table.ColType(colName)
+		if err != nil {
+			return err
+		}
+		nestableColType, err := nestable.ColType(colName)
+		if err != nil {
+			return err
+		}
+		if colType != nestableColType && !isAlias(colType, nestableColType) && !isAlias(nestableColType, colType) {
+			return fmt.Errorf("[%s].%s([%s], %q): key col %q expecting type %q, not %q",
+				table.Name(), UtilFuncNameNoParens(), nestable.Name(), nestColName, colName, colType, nestableColType)
+		}
+	}
+
 	// Create a string col for nested table, for now. Later we may make this a *Table pointer.
 	err = table.AppendCol(nestColName, "string")
 	if err != nil {
@@ -112,7 +128,7 @@ func (table *Table) Nest(nestable *Table, nestColName string) error {
 
 		firstRow, lastRow, err := nestable.SearchRange(keys...)
 		if err != nil {
-			return err
+			firstRow, lastRow = 0, -1 // No matching rows.
 		}
 
 		nestTableName := nestColName
-- 
2.43.0


From b94204aac2111820b768108dd82e27e3970f8ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:34 +0000
Subject: [PATCH 64/74] fix: keep the line number of a parse in its parser

---
 parser.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/parser.go b/parser.go
index b3293e0..a87585c 100644
--- a/parser.go
+++ b/parser.go
@@ -90,8 +90,6 @@ func init() {
 	uintSliceRegexp = regexp.MustCompile(uintSliceRegexpString)
 }
 
-var globalLineNum int
-
 const globalErrorLimit int = 10
 
 var globalErrorCount int
@@ -283,8 +281,8 @@ func (p *parser) parseString(s string) (*TableSet, error) {
 	var readError error
 	var stringReader *strings.Reader = strings.NewReader(s)
 	var inputReader *bufio.Reader = bufio.NewReader(stringReader)
-	globalLineNum = 1
-	for ; ; globalLineNum++ {
+	p.lineNum = 1
+	for ; ; p.lineNum++ {
 		line, readError = inputReader.ReadString('\n')
 		line = strings.TrimSpace(line)
 
@@ -658,7 +656,7 @@ func (p *parser) parseFile(inputFileName string) (*TableSet, error) {
 }
 
 func (p *parser) gotFilePos() string {
-	return fmt.Sprintf("%s:%d:", p.fileName, globalLineNum)
+	return fmt.Sprintf("%s:%d:", p.fileName, p.lineNum)
 }
 
 func file_line() string {
@@ -1311,6 +1309,7 @@ func rangeForIntegerType(min int64, max uint64) string {
 // parser definition: fields and methods.
 type parser struct {
 	fileName string // Needed for printing file and line diagnostics.
+	lineNum  int    // Needed for printing file and line diagnostics.
 }
 
 // Needed for printing file and line diagnostics.
-- 
2.43.0


From 4bdd9a34cd76ccc2e72819042602dfff095a1650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:52 +0000
Subject: [PATCH 65/74] fix: walk nested tables without changing them

---
 gotables.go | 1 -
 tree.go     | 6 ------
 2 files changed, 7 deletions(-)

diff --git a/gotables.go b/gotables.go
index 3710210..a51f93d 100644
--- a/gotables.go
+++ b/gotables.go
@@ -504,7 +504,6 @@ type Table struct {
 	isStructShape bool
 	isNilTable    bool
 	parentTable   *Table
-	depth         int
 }
 
 // For GOB.
diff --git a/tree.go b/tree.go
index 06a3d77..ac7ffc2 100644
--- a/tree.go
+++ b/tree.go
@@ -172,9 +172,6 @@ func (table *Table) Walk(
 						}
 					}
 
-					// Down into nested table.
-					nestedTable.depth++
-
 					// Recursive call to visit nested tables.
 // where(fmt.Sprintf("walkSafe %p = %v", walkSafe, walkSafe))
 // where("calling nestedTable.Walk()")
@@ -182,9 +179,6 @@ func (table *Table) Walk(
 					if err != nil {
 						return
 					}
-
-					// Back up from nested table.
-					nestedTable.depth--
 				}
 			}
 		}
-- 
2.43.0


From a1b18b2f55b767185e9d569372ef1a955ca61baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:19 +0000
Subject: [PATCH 66/74] fix: give ShufflePseudorandom a random source of its
 own

---
 gotables.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gotables.go b/gotables.go
index a51f93d..2973d73 100644
--- a/gotables.go
+++ b/gotables.go
@@ -4391,11 +4391,11 @@ func (table *Table) ShufflePseudorandom() error {
 		return fmt.Errorf("%s table.%s table is <nil>", UtilFuncSource(), UtilFuncName())
 	}
 
-	// This forces rand.Shuffle() to start from scratch on each call.
-	// Otherwise there is a surprise side effect if a rand function is called elsewhere.
-	rand.Seed(0)
+	// A source of its own makes the shuffle start from scratch on each call, without
+	// a side effect on (or from) rand functions called elsewhere.
+	random := rand.New(rand.NewSource(0))
 
-	rand.Shuffle(len(table.rows), func(i, j int) {
+	random.Shuffle(len(table.rows), func(i, j int) {
 		table.rows[i], table.rows[j] = table.rows[j], table.rows[i]
 	})
 
-- 
2.43.0


From b36b1a32d6c16c853f700daf4f7251ff421b5111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:51 +0000
Subject: [PATCH 67/74] fix: keep no global counters while walking nested
 tables and trees

---
 gotables.go | 6 ------
 tree.go     | 9 ---------
 2 files changed, 15 deletions(-)

diff --git a/gotables.go b/gotables.go
index 2973d73..f0a9fee 100644
--- a/gotables.go
+++ b/gotables.go
@@ -4609,11 +4609,7 @@ func (tableSet *TableSet) StringNested() (stringNested string) {
 }
 */
 
-var globalDepth int
 func (table *Table) stringNested_recursive(parentTableName string, parentTailName, parentColName string, parentRowIndex int, stringNested *string, enclosing circRefMap) {
-//where(fmt.Sprintf("depth=%d [%s]",  globalDepth, table.Name()))
-globalDepth++
-
 	const debug = true
 
 //where(fmt.Sprintf("stringNested_recursive(parentTableName: [%s], parentColName: %q, parentRowIndex: %d, stringNested)\n",
@@ -4692,7 +4688,5 @@ globalDepth++
 		}
 	}
 
-	globalDepth--
-
 	return
 }
diff --git a/tree.go b/tree.go
index ac7ffc2..ebd786b 100644
--- a/tree.go
+++ b/tree.go
@@ -573,13 +573,7 @@ func (rootTable *Table) NewTreeTable1(tablesDepth int) (treeTable *Table, err er
 	If there are no type *Table cols in table, or if depth is set to 0, then
 	return table unchanged.
 */
-var globalTreeCalls int
-var globalTreeDepth int
 func (table *Table) NewTreeTable(depth int) (treeTable *Table, err error) {
-globalTreeCalls++
-if CURRENT_TESTS_VERBOSE {
-where(fmt.Sprintf("NewTreeTable(globalTreeCalls=%d)\n", globalTreeCalls))
-}
 	// where("caller: " + UtilFuncCaller())
 	// where(UtilFuncName())
 
@@ -604,11 +598,8 @@ where(fmt.Sprintf("NewTreeTable(globalTreeCalls=%d)\n", globalTreeCalls))
 }
 
 func newTreeTable_recursive(originalTable *Table, table *Table, depth int) (err error) {
-globalTreeDepth++
 if CURRENT_TESTS_VERBOSE {
 where(fmt.Sprintf("newTreeTable_recursive(depth=%d)\n", depth))
-where(fmt.Sprintf("newTreeTable_recursive(globalTreeCalls=%d)\n", globalTreeCalls))
-where(fmt.Sprintf("newTreeTable_recursive(globalTreeDepth=%d)\n", globalTreeDepth))
 }
 
 	if originalTable == nil {
-- 
2.43.0


From b07388c1aecefe01de4647f39c6236065aaa733c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:18 +0000
Subject: [PATCH 68/74] fix: format nested tables without renaming them

---
 gotables.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/gotables.go b/gotables.go
index f0a9fee..0734e3b 100644
--- a/gotables.go
+++ b/gotables.go
@@ -4642,7 +4642,7 @@ func (table *Table) stringNested_recursive(parentTableName string, parentTailNam
 			colName, _ := table.ColNameByColIndex(colIndex)
 			for rowIndex := 0; rowIndex < table.RowCount(); rowIndex++ {
 				nestedTable, err := table.GetTableByColIndex(colIndex, rowIndex)
-				if err != nil {
+				if err != nil || nestedTable == nil {
 					return
 				}
 
@@ -4663,7 +4663,6 @@ func (table *Table) stringNested_recursive(parentTableName string, parentTailNam
 				}
 
 				headName := nestedTable.Name()
-				isNilTable := nestedTable.isNilTable
 				var tailName string
 				if debug {
 					tailName = fmt.Sprintf("__FROM_TABLE_%s_COL_%s_row_%d%s", parentTableName, colName, rowIndex, parentTailName)
@@ -4672,18 +4671,19 @@ func (table *Table) stringNested_recursive(parentTableName string, parentTailNam
 				}
 				newName := headName + tailName
 //where(fmt.Sprintf("newName = %s", newName))
-				err = nestedTable.SetName(newName)
+
+				// Rename a shallow copy. Formatting a table does not change it, not even for a moment.
+				namedTable := *nestedTable
+				err = namedTable.SetName(newName)
 				if err != nil {
 					return
 				}
+				enclosing[nestedTable] = EmptyStruct
 
 // where(fmt.Sprintf("\n>>> nestedTable.stringNested_recursive(%q, %q, %d, stringNested=\n%s)",
 // table.Name(), colName, rowIndex, *stringNested))
-				nestedTable.stringNested_recursive(headName, tailName, colName, rowIndex, stringNested, enclosing)
-
-				// Restore the name. Formatting a table does not change it.
-				nestedTable.tableName = headName
-				nestedTable.isNilTable = isNilTable
+				namedTable.stringNested_recursive(headName, tailName, colName, rowIndex, stringNested, enclosing)
+				delete(enclosing, nestedTable)
 			}
 		}
 	}
-- 
2.43.0


From f24c0774352b47b54c711be0c7a61b7bf19dc916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:46 +0000
Subject: [PATCH 69/74] fix: code generated for *Table and time.Time columns
 compiles

---
 generate.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/generate.go b/generate.go
index 949cbdc..00573a6 100644
--- a/generate.go
+++ b/generate.go
@@ -68,6 +68,9 @@ func (table *Table) GenerateTypeStruct() (string, error) {
 		if err != nil {
 			return "", err
 		}
+		if colType == "*Table" {
+			colType = "*gotables.Table"
+		}
 		buf.WriteString("\t")
 		buf.WriteString(colName)
 		buf.WriteString(" ")
@@ -327,9 +330,14 @@ func typeProper(typeName string) string {
 func accessorName(typeName string) string {
 	if strings.HasPrefix(typeName, "[]") {
 		return fmt.Sprintf("%sSlice", typeProper(typeName[2:]))
-	} else {
-		return fmt.Sprintf("%s", typeProper(typeName))
 	}
+	switch typeName {
+	case "*Table":
+		return "Table"
+	case "time.Time":
+		return "Time"
+	}
+	return typeProper(typeName)
 }
 
 // Return getter name for this type.
-- 
2.43.0


From efc8bc9a448ec2122cd78fef9ad6e1bd8aa69dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:07 +0000
Subject: [PATCH 70/74] fix: generated code keeps column values out of local
 variables

---
 generate.go | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/generate.go b/generate.go
index 00573a6..b8d8474 100644
--- a/generate.go
+++ b/generate.go
@@ -158,41 +158,38 @@ func (tableSet *TableSet) generateTypeStructSet() (string, error) {
 		                return nil, fmt.Errorf("TypeStructSliceFromTable_MyTable(slice []MyTable) slice is <nil>")
 		        }
 
-		        var MyTable []MyTable = make([]MyTable, table.RowCount())
+		        var slice []MyTable = make([]MyTable, table.RowCount())
+
+		        var err error
 
 		        for rowIndex := 0; rowIndex < table.RowCount(); rowIndex++ {
-		                f, err := table.GetFloat32("f", rowIndex)
+		                slice[rowIndex].f, err = table.GetFloat32("f", rowIndex)
 		                if err != nil {
 		                        return nil, err
 		                }
-		                MyTable[rowIndex].f = f
 
-		                b, err := table.GetBool("b", rowIndex)
+		                slice[rowIndex].b, err = table.GetBool("b", rowIndex)
 		                if err != nil {
 		                        return nil, err
 		                }
-		                MyTable[rowIndex].b = b
 
-		                i, err := table.GetInt("i", rowIndex)
+		                slice[rowIndex].i, err = table.GetInt("i", rowIndex)
 		                if err != nil {
 		                        return nil, err
 		                }
-		                MyTable[rowIndex].i = i
 
-		                str, err := table.GetString("str", rowIndex)
+		                slice[rowIndex].str, err = table.GetString("str", rowIndex)
 		                if err != nil {
 		                        return nil, err
 		                }
-		                MyTable[rowIndex].str = str
 
-		                bb, err := table.GetByteSlice("bb", rowIndex)
+		                slice[rowIndex].bb, err = table.GetByteSlice("bb", rowIndex)
 		                if err != nil {
 		                        return nil, err
 		                }
-		                MyTable[rowIndex].bb = bb
 		        }
 
-		        return MyTable, nil
+		        return slice, nil
 		}
 
 	Snippets of code as they might appear in your own program:
@@ -243,7 +240,11 @@ func (table *Table) GenerateTypeStructSliceFromTable() (string, error) {
 	buf.WriteString(fmt.Sprintf("\t\treturn nil, fmt.Errorf(\"%s(slice []%s) slice is <nil>\")\n", funcName, tableName))
 	buf.WriteString("\t}\n\n")
 
-	buf.WriteString(fmt.Sprintf("\tvar %s []%s = make([]%s, table.RowCount())\n\n", tableName, tableName, tableName))
+	buf.WriteString(fmt.Sprintf("\tvar slice []%s = make([]%s, table.RowCount())\n\n", tableName, tableName))
+
+	if table.ColCount() > 0 {
+		buf.WriteString("\tvar err error\n\n")
+	}
 
 	buf.WriteString("\tfor rowIndex := 0; rowIndex < table.RowCount(); rowIndex++ {\n")
 	var sep string = ""
@@ -257,17 +258,17 @@ func (table *Table) GenerateTypeStructSliceFromTable() (string, error) {
 			return "", err
 		}
 		buf.WriteString(sep)
-		buf.WriteString(fmt.Sprintf("\t\t%s, err := table.%s(%q, rowIndex)\n", colName, getterName(colType), colName))
+		buf.WriteString(fmt.Sprintf("\t\tslice[rowIndex].%s, err = table.%s(%q, rowIndex)\n",
+			colName, getterName(colType), colName))
 		buf.WriteString("\t\tif err != nil {\n")
 		buf.WriteString("\t\t\treturn nil, err\n")
 		buf.WriteString("\t\t}\n")
-		buf.WriteString(fmt.Sprintf("\t\t%s[rowIndex].%s = %s\n", tableName, colName, colName))
 		sep = "\n"
 	}
 
 	buf.WriteString("\t}\n\n")
 
-	buf.WriteString(fmt.Sprintf("\treturn %s, nil\n", tableName))
+	buf.WriteString("\treturn slice, nil\n")
 
 	buf.WriteString("}\n")
 
-- 
2.43.0


From 9b50564f307dd751651873d7f78e7dd75e83e17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:18 +0000
Subject: [PATCH 71/74] fix: refuse JSON rows that are not an array

---
 json.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/json.go b/json.go
index 9de51ea..7984b7d 100644
--- a/json.go
+++ b/json.go
@@ -434,6 +434,9 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 	var data []interface{}
 	data, exists = jsonMap["data"].([]interface{})
 	if !exists {
+		if jsonMap["data"] != nil {
+			return nil, fmt.Errorf("expecting JSON array for the rows of table [%s] but got: %v", tableName, jsonMap["data"])
+		}
 		// Zero rows in this table. That's okay.
 		return table, nil
 	}
-- 
2.43.0


From 7aa75e73c375e4fc057efbcd38faab48097e3a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:31 +0000
Subject: [PATCH 72/74] fix: refuse text after a JSON table set

---
 json.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/json.go b/json.go
index 7984b7d..49c454e 100644
--- a/json.go
+++ b/json.go
@@ -733,6 +733,10 @@ func NewTableSetFromJSON(jsonTableSetString string) (tableSet *TableSet, err err
 	if err != nil {
 		return nil, err
 	}
+	var more interface{}
+	if decoder.Decode(&more) != io.EOF { // Decode() reads just the first value.
+		return nil, fmt.Errorf("%s: unexpected text after the JSON table set", UtilFuncName())
+	}
 
 	// (1) Retrieve and process TableSet name.
 	var tableSetName string
-- 
2.43.0


From d3187dbd519a80b94b18cde3227b229c7cdfcfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:52 +0000
Subject: [PATCH 73/74] fix: NewTreeTable() fills the NilTable cells of the
 table

---
 tree.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/tree.go b/tree.go
index ebd786b..f76dd62 100644
--- a/tree.go
+++ b/tree.go
@@ -582,13 +582,12 @@ func (table *Table) NewTreeTable(depth int) (treeTable *Table, err error) {
 	}
 
 	// where("\n" + table.String())
-	nestedTable, err := table.Copy()
+	originalTable, err := table.CopyDeep() // The table as it was, to be copied into its NilTable cells.
 	if err != nil {
 		return nil, fmt.Errorf("%s %v", UtilFuncSource(), err)
 	}
-	// where("\n" + nestedTable.String())
 
-	err = newTreeTable_recursive(table, nestedTable, depth)
+	err = newTreeTable_recursive(originalTable, table, depth)
 	if err != nil {
 		return nil, fmt.Errorf("%s %v", UtilFuncSource(), err)
 	}
@@ -664,7 +663,7 @@ if CURRENT_TESTS_VERBOSE {
 where("Copy the originalTable into this cell.")
 where(fmt.Sprintf("[%s] col=%s row=%d IsNilTable()", table.Name(), colName, rowIndex))
 }
-					tableCopy, err := originalTable.Copy()
+					tableCopy, err := originalTable.CopyDeep() // A table may occur just once in a tree.
 					if err != nil {
 						return fmt.Errorf("%s %v", UtilFuncSource(), err)
 					}
@@ -702,7 +701,7 @@ if CURRENT_TESTS_VERBOSE {
 						where()
 						fmt.Printf("calling newTreeTable_recursive(%d)\n", depth-1)
 }
-						err = newTreeTable_recursive(originalTable, nestedTable, depth-1)
+						err = newTreeTable_recursive(originalTable, tableCopy, depth-1)
 						if err != nil {
 							return fmt.Errorf("%s %v", UtilFuncSource(), err)
 						}
-- 
2.43.0


From 95ba2e10326d9f95e1704763c525546e3af8c7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:30 +0000
Subject: [PATCH 74/74] fix: round negative values to the nearest (UtilRound)

---
 util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util.go b/util.go
index 7e2fbdf..47dfda1 100644
--- a/util.go
+++ b/util.go
@@ -548,7 +548,7 @@ func UtilRound(val float64, places int) (rounded float64) {
 	var round float64
 	pow := math.Pow(10, float64(places))
 	digit := pow * val
-	_, frac := math.Modf(digit) // Modf(f) returns integer and fractional floating-point numbers that sum to f
+	frac := digit - math.Floor(digit) // Never negative, also for a negative digit.
 	if frac >= roundOn {
 		round = math.Ceil(digit)
 	} else {
-- 
2.43.0

