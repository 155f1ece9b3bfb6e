# The property list: one entry per property. tools/gen.py writes properties.jsonl and MANIFEST.json from it.
# (id, title, statement, over, quantifier text, why tests can't, files, [(mechanism, where)...])
P = []
def p(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech))

p("C01", "Tables stay structurally sound through any sequence of operations",
  "After any sequence of successful or failed table operations (appending, deleting, renaming, reordering and swapping columns; appending and deleting rows; setting cells, sort keys and the name; sorting, reversing, copying), the table is still valid: column names are unique and each leads to its own column, every row has exactly one cell of the column's declared type per column, the table reports itself valid, and every sort key names an existing column.",
  ["histories", "inputs"], "every bounded history of public table operations with arbitrary arguments",
  "Tests run a handful of fixed operation orders; the invariant is a statement about every reachable state, including those after failed operations.",
  ["gotables.go", "sort.go", "helpers.go"],
  [("column add, delete, rename, reorder", "gotables.go: AppendCol, DeleteColByColIndex, RenameCol, ReorderColsByColIndex"), ("row add and delete", "gotables.go: AppendRow, DeleteRows"), ("column swap and sort keys", "sort.go: SwapColsByColIndex, SetSortKeys"), ("self check", "gotables.go: IsValidTable")])
p("C02", "Cell setters and getters: what was set is what is read, nothing else changes",
  "For each of the twenty column types, a value set through any typed, generic, by-name or by-index setter is returned bit for bit by every corresponding getter, and no other cell, column, name or sort key changes. Accessing a column through an accessor of a different type, or a cell outside the table, returns an error (the must-variants panic) and changes nothing.",
  ["inputs"], "every cell value, every (column, row) index pair in and out of range, every pair of column type and accessor type",
  "The 163 generated accessors are sampled with one or two values each; off-by-one row or type-alias slips on one accessor or extreme value are not visible to them.",
  ["helpers.go", "gotables.go"],
  [("typed accessors", "helpers.go: Get*/Set*/MustGet/MustSet"), ("generic accessors", "gotables.go: SetVal, SetValByColIndex, GetVal, GetValByColIndex")])
p("C03", "Row append and deletion are exact",
  "Appending rows adds exactly the requested number of rows at the end, each holding the zero value of every column's type, and leaves the earlier rows as they were; deleting a row, a range of rows or all rows removes exactly those rows and keeps the others in order. An invalid row index, an inverted range or a negative count is an error that changes nothing.",
  ["inputs"], "every table size within bounds, every row index and row range (valid, inverted, out of range), arbitrary cells",
  "Range arithmetic at the first and last row, empty tables and inverted ranges are boundary cases over all index pairs; tests try a few.",
  ["gotables.go"],
  [("append", "gotables.go: AppendRow, AppendRows, appendRowOfNil, appendRowSlice"), ("delete", "gotables.go: DeleteRow, DeleteRows, DeleteRowsAll"), ("row lookup", "gotables.go: HasRow, RowCount")])
p("C04", "Column operations keep every column's name, type and cells together",
  "Appending, deleting, renaming, reordering or swapping columns keeps, for every column that is not deleted, its type and all its cells attached to its (possibly new) name, with the other columns keeping their relative order; a new column holds the zero value in every row. A request naming an unknown, duplicate or invalid column is refused with the table unchanged.",
  ["inputs"], "every column count within bounds, every permutation, every index and name argument, arbitrary cells",
  "Tests check headings after a few fixed rearrangements; whether the cells followed their column for every permutation is not checked.",
  ["gotables.go", "sort.go"],
  [("append/delete/rename", "gotables.go: AppendCol, DeleteCol, DeleteColByColIndex, RenameCol, RenameColByColIndex"), ("reorder", "gotables.go: ReorderCols, ReorderColsByColIndex, NewTableReorderCols"), ("swap", "sort.go: SwapCols, SwapColsByColIndex, OrderColsBySortKeys")])
p("C05", "Sort yields a permutation of whole rows, ordered by the sort keys",
  "Sorting leaves exactly the same rows, each whole, and orders them lexicographically by the sort keys in key order, ascending or (for reversed keys) descending; strings order case-insensitively with ties broken by case, booleans false before true, numbers numerically. Both ways of naming the keys (set beforehand or given in the call) give the same order.",
  ["inputs"], "every sortable column type, every combination of key values (floats: no NaN), one to three keys, every reverse setting",
  "The order must hold for all value combinations, sign and magnitude extremes and key/reverse combinations; tests sort a few literals.",
  ["sort.go"], [("sort and comparison functions", "sort.go: Sort, SortSimple, sortByKeys, compare_*"), ("sort keys", "sort.go: SetSortKeys, SetSortKeysReverse, AppendSortKey")])
p("C06", "Row comparison is a consistent order that agrees with Sort",
  "Comparing two rows by the sort keys returns negative, zero or positive consistently: antisymmetric, transitive, zero exactly when all key cells are equal, and honouring reversed keys so that after sorting no row compares greater than its successor. Missing sort keys or rows outside the table are an error.",
  ["inputs"], "every pair and triple of rows of every sortable type, every reverse setting",
  "Order axioms quantify over all value triples; tests compare single pairs.",
  ["sort.go"], [("row comparison", "sort.go: CompareRows, compare_*")])
p("C07", "Search on a sorted table finds exactly the matching rows",
  "On a table sorted by its keys (ascending or descending), searching for a value by first, last or range returns exactly the first and last row whose key cells equal it, and an error when no row matches. Wrong numbers or types of search values, or missing sort keys, are an error and never a panic.",
  ["inputs"], "every sorted table within bounds, every search value present or absent, every sortable type, both directions, one or two keys",
  "Absent values below, between and above all rows and runs of duplicates at either end are the cases that break binary search; tests search a few literals.",
  ["sort.go"], [("search", "sort.go: Search, SearchFirst, SearchLast, SearchRange, searchByKeysFirst, searchByKeysLast, searchValuesMatchRowValues, checkSearchArguments"), ("by-range extraction", "gotables.go: NewTableFromRowsBySearchRange")])
p("C08", "Generic binary search contract",
  "For every length and every predicate that is monotone over the indices, the generic first-index search returns the smallest index where the predicate holds (the length when there is none), and the generic last-index search returns the largest index where it holds (-1 when there is none). The predicate is only ever called with valid indices.",
  ["inputs"], "every length (unbounded machine integer for the probe arithmetic; bounded for the full loop), every monotone predicate",
  "Quantifies over every length up to the integer maximum and every predicate.",
  ["sort.go"], [("search functions", "sort.go: search, SearchFirst(n, f), SearchLast(n, f)")])
p("C09", "Merge and SortUnique combine rows by key without losing or inventing data",
  "Merging two keyed tables yields a sorted table with the union of their columns and exactly one row per distinct key of either table; a cell takes the first table's value unless that is missing (zero or NaN), in which case the second's. SortUnique yields exactly one row per distinct key, sorted; neither changes the columns or rows of its inputs.",
  ["inputs"], "every pair of tables within bounds: disjoint, overlapping, empty; arbitrary keys and cells",
  "Tests merge one or two fixed pairs; key overlap patterns and missing cells on either side form a combinatorial space.",
  ["merge.go", "sort.go"], [("merge", "merge.go: Merge, copyTableCells"), ("unique", "sort.go: SortUnique")])
p("C10", "Padded text form reads back as an equal table",
  "Formatting a table or table set in its padded text form and parsing the result gives back an equal table or set: same names, column order, types, shape and every cell, for every storable value of the types text can express. Formatting changes nothing in the table. Times have whole-minute offsets and years 0 to 9999, runes are Unicode scalar values, nested tables appear as named place holders, and the struct shape is for tables of at most one row; a value text cannot express is an error, never a text that is silently different from the data.",
  ["inputs"], "every table within bounds with arbitrary cells of each text-expressible type, tabular and struct shape",
  "Round trip must hold for every value: escapes, 64-bit extremes, negative zero, alignment of numbers of different widths; tests use a few tables.",
  ["gotables.go", "parser.go"], [("format", "gotables.go: String, StringPadded, printMatrix, printStruct"), ("parse", "parser.go: parseString, getRowSlice")])
p("C11", "Unpadded text form reads back as an equal table",
  "Formatting a table or table set in its unpadded text form and parsing the result gives back an equal table or set, for every storable value of the types text can express. Padded and unpadded forms describe the same table, and formatting changes nothing in it (same limits on times, runes and nested tables as for the padded form).",
  ["inputs"], "every table within bounds with arbitrary cells of each text-expressible type",
  "As for the padded form: a statement about every cell value.",
  ["gotables.go", "parser.go"], [("format", "gotables.go: StringUnpadded, _String"), ("parse", "parser.go: parseString, getRowSlice")])
p("C12", "JSON round trip preserves tables",
  "Encoding a table or table set as JSON and decoding it gives back an equal table or set, for every value of every type including the integer extremes, nested tables and both shapes; the encoder's output is valid JSON, indented and plain encodings decode to the same table, and sort keys are not part of the encoding. A cell JSON cannot carry (NaN, an infinity, a string that is not UTF-8, a rune that is not a Unicode scalar value) is refused by the encoder; a number out of range of its column, or a document that does not describe a table, is refused by the decoder with an error, never a panic.",
  ["inputs"], "every table within bounds, arbitrary cells of every type",
  "64-bit integers, control characters and non-finite floats are exactly the values tests do not sample.",
  ["json.go"], [("encode", "json.go: getTableAsJSON_recursive"), ("decode", "json.go: newTableFromJSON_recursive")])
p("C13", "YAML round trip preserves table sets",
  "Encoding a table set as YAML (or as a map) and decoding it gives back an equal table set, for every value of every supported type. A document that does not describe a table set, or holds a number out of range of its column, is refused with an error, never a panic. Sort keys and the sign of a zero float are not part of the encoding.",
  ["inputs"], "every table set within bounds, arbitrary cells of every type",
  "As for JSON; whole-valued floats and extreme integers pass through an untyped intermediate form.",
  ["yaml.go"], [("encode", "yaml.go: GetTableSetAsYAML, GetTableSetAsMap, getTableAsMap"), ("decode", "yaml.go: NewTableSetFromYAML, newTableFromYAML_recursive")])
p("C14", "Gob round trip preserves tables",
  "Encoding a table or table set as gob and decoding it gives back an equal table or set, including names, types, shape, all cells and the sort keys, whether or not sort keys are set. A cell that gob cannot carry (a time or a nested table) is an encoding error, never a silent loss. A gob stream whose content is not a valid table is refused with an error, never a panic or a broken table.",
  ["inputs"], "every table within bounds, with any sort keys and reverse settings",
  "Sort-key combinations and every cell type interact; tests encode one table.",
  ["gob.go"], [("export", "gob.go: exportTable, GobEncode"), ("import", "gob.go: importTable, GobDecodeTable")])
p("C15", "Parsing arbitrary text never panics, and success means a valid table set",
  "Parsing any text either returns an error or a table set that is valid throughout: it never panics, never loops, and every accepted table satisfies the structural rules and contains exactly the rows of the text. In particular a line whose cell count or cell syntax does not match its columns is an error.",
  ["inputs"], "every short text, and every well-formed document with an arbitrary line, cell or heading substituted",
  "The input space is all byte strings; tests feed a few malformed ones.",
  ["parser.go"], [("parser", "parser.go: parseString, getTableShape, getColTypes, getRowSlice, getTableName"), ("entry", "gotables.go: NewTableSetFromString, NewTableFromString")])
p("C16", "Numeric literals are accepted exactly when representable",
  "Reading an integer cell accepts a literal exactly when it is a number in the range of the column's type, and then stores exactly that number; anything outside the range or malformed is an error, never a wrapped or truncated value. A 0b, 0o or 0x literal is unsigned, a leading 0 means octal, and a signed literal is decimal. Booleans and runes likewise read exactly the value written.",
  ["inputs"], "every literal up to the bounded length, for every integer type",
  "Range limits sit at values tests only partly sample, with sign and leading zeros.",
  ["parser.go"], [("numbers", "parser.go: parseInt, parseUint, getRowSlice"), ("runes", "parser.go: parseRune, isValidUnicode")])
p("C17", "Equals decides equality of content",
  "Two tables are reported equal exactly when they have the same names, columns, types and cells (all types, including nested tables, byte slices and times); equality is symmetric, and any single differing cell, name, type or row count makes them unequal (columns are matched by name, in any order; floats compare as in Go, so NaN equals nothing). Table sets are equal exactly when their corresponding tables are.",
  ["inputs"], "every pair of tables within bounds, every single-cell difference, every type",
  "Both directions (no false equal, no false unequal) quantify over all cell pairs.",
  ["gotables.go"], [("table equality", "gotables.go: Equals, Uint8SliceEquals"), ("set equality", "gotables.go: TableSet Equals")])
p("C18", "Copies are equal and independent",
  "A copy of a table or table set, or a table made from some of its rows, equals its source (sort keys and shape included, for a full copy) and is independent of it: no later table operation on either is visible in the other. A shallow copy shares nested tables, a deep copy copies them too, and copying never changes the source.",
  ["inputs", "histories"], "every table within bounds, every type, followed by an arbitrary change to either side",
  "Aliasing only shows after a later mutation of the other side; tests rarely mutate after copying.",
  ["gotables.go", "tree.go"], [("copy", "gotables.go: Copy, CopyCols, NewTableFromRows, AppendRowsFromTable, TableSet Copy"), ("deep copy", "tree.go: CopyDeep")])
p("C19", "A table set keeps unique names and finds each table by its name",
  "A table set never holds two tables of one name: appending or renaming to a name already present is refused and changes nothing. Every table is found by its name and by its index, in the order appended, and deleting one removes exactly that one.",
  ["histories", "inputs"], "every bounded history of append, rename, delete and lookup with arbitrary names",
  "Lookup after deletion and rename depends on history; tests run a few.",
  ["gotables.go"], [("set operations", "gotables.go: AppendTable, RenameTable, DeleteTable, DeleteTableByTableIndex, HasTable, GetTable, TableIndex")])
p("C20", "Nesting never creates a table that contains itself unnoticed",
  "Storing a table into a cell of itself, directly or through any chain of nested tables, is refused with a circular-reference error that leaves the table unchanged, or is reported by the nesting validity checks; nesting in which every table occurs once is accepted. Encoders given a cycle return an error instead of recursing for ever.",
  ["inputs", "histories"], "every nesting graph over a bounded number of tables and cells",
  "Graph shapes (self loop, two-cycle, diamond) are many; tests build a few.",
  ["tree.go", "gotables.go", "json.go", "errors.go"], [("circularity", "tree.go: isCircularReference, HasCircularReference, IsValidTableNesting"), ("set table cell", "helpers.go: SetTable, SetTableByColIndex"), ("encode", "json.go: getTableAsJSON_recursive")])
p("C21", "Name rules are enforced at every entry point",
  "A table or column name is accepted exactly when it is an identifier: a letter or underscore followed by letters, digits or underscores, and not the name of a type. Every way of naming a table or column - constructing, renaming, parsing - applies the same rule.",
  ["inputs"], "every byte string up to the bounded length as a name, at every entry point",
  "All byte strings, including empty, non-ASCII and type keywords; tests try a few.",
  ["parser.go", "gotables.go"], [("name checks", "parser.go: isValidName, IsValidColName, IsValidTableName"), ("entry points", "gotables.go: NewTable, SetName, AppendCol, RenameCol, NewTableSet")])
p("C22", "A failed operation leaves the table exactly as it was",
  "Any single operation that returns an error - on columns, rows, cells, sort keys, merging, appending from another table - leaves the table (name, columns, cells, sort keys) exactly as before the call. Compound operations do not apply a first part and then fail.",
  ["inputs"], "every operation with arbitrary valid and invalid arguments, on arbitrary tables within bounds",
  "Requires observing the whole state on every error path for every argument; tests look at the error only.",
  ["gotables.go", "sort.go", "helpers.go"], [("error paths", "gotables.go: AppendRowsFromTable, AppendColsFromTable, ReorderCols, DeleteRows"), ("sort keys", "sort.go: SetSortKeys, SetSortKeysReverse, SetSortKeysFromTable")])
p("C23", "CSV output carries every cell",
  "The CSV form of a table has one heading record and one record per row, each with one field per column, and decoding it with a standard CSV reader gives back each heading and the text of each cell, for strings with commas, quotes and newlines too. A NaN is an empty field. Substitute headings replace the column names one for one.",
  ["inputs"], "every table within bounds, arbitrary strings and scalars",
  "Quoting must be right for every string.",
  ["gotables.go"], [("csv", "gotables.go: GetTableAsCSV")])
p("C24", "Type and validity predicates agree with what tables accept",
  "The predicates that say whether a type name, a cell value or a column value is valid agree with what a table accepts: a type name is valid exactly when a column of it can be made, and a value is valid for a column exactly when storing it there succeeds; byte/uint8 (and their slices) and rune/int32 count as the same type.",
  ["inputs"], "every type name up to the bounded length and every pair of column type and value type",
  "Tests try a few types; aliases are the unusual ones.",
  ["parser.go", "gotables.go", "helpers.go"], [("predicates", "gotables.go: IsValidColValue, IsValidCellValue, IsColType, isAlias; parser.go: IsValidColType, IsNumericColType, IsSliceColType, IsTableColType")])
p("C25", "Bad receivers and out-of-range arguments give errors, not panics",
  "Calling any error-returning public method on a nil table or table set, or with any row, column or table index out of range or an unknown name, returns an error and does not panic. Lookups report absence the same way by name and by index.",
  ["inputs"], "every public method, nil receivers, every index value, arbitrary names",
  "About 200 methods times all integers; tests try a few.",
  ["gotables.go", "sort.go", "helpers.go", "tree.go"], [("guards", "gotables.go: HasRow, HasColByColIndex, HasCellByColIndex and the nil checks of every method"), ("cell info", "tree.go: GetCellInfoByColIndex")])
p("C26", "Reverse and shuffle permute rows and nothing else",
  "Reversing puts exactly the same rows in the opposite order, so reversing twice restores the table; shuffling yields a permutation of the rows, and shuffling pseudorandomly puts tables with the same number of rows into the same order every time. No row is split, duplicated or lost.",
  ["inputs"], "every row count within bounds, arbitrary cells, every sequence of random choices",
  "Odd and even lengths and every random outcome; tests cannot fix the random source.",
  ["gotables.go"], [("reorder rows", "gotables.go: Reverse, ShuffleRandom, ShufflePseudorandom")])
p("C27", "Any history of operations acts on a table as on a plain matrix of named columns",
  "After any sequence of row, column and cell operations, a table is exactly what the same sequence makes of a plain matrix of named, typed columns: every row is whole, in its place, with every cell as last set, whichever way the table was made (row by row, all rows at once, rows before columns, parsed, copied, taken from another table) - and every table it was copied from or to stays exactly what its own operations made of it. No operation reaches another row, column or table through shared storage.",
  ["histories", "inputs"], "every bounded history of row, column, cell and copy operations over tables made in different ways, with arbitrary cells",
  "Storage shared between rows or tables, or left over from deleted ones, shows only after a particular sequence of operations; the tests run one or two operations on a fresh table.",
  ["gotables.go", "sort.go", "helpers.go"],
  [("rows", "gotables.go: AppendRow, AppendRows, DeleteRows, Reverse"), ("columns", "gotables.go: AppendCol, DeleteColByColIndex, ReorderColsByColIndex; sort.go: SwapColsByColIndex"), ("copies", "gotables.go: Copy, NewTableFromRows, AppendRowsFromTable, AppendColsFromTable")])
p("C28", "Zero-value and NaN setters touch exactly the cells named",
  "Resetting a cell, a column, a row or a whole table to zero values, or its float cells to NaN, changes exactly the named cells of the eligible types to exactly that value and leaves every other cell as it was; applied to a column of the wrong type it is an error that changes nothing.",
  ["inputs"], "every column type, every row and column index, arbitrary prior cells",
  "Frame conditions over all cells; tests look at the changed cells only.",
  ["gotables.go"], [("setters", "gotables.go: SetCellToZeroValue, SetColCellsToZeroValue, SetColFloatCellsToNaN, SetFloatCellToNaN, SetRowFloatCellsToNaN, SetAllFloatCellsToNaN, zeroValue")])
p("C29", "Cell text conversion is faithful for every type",
  "Converting a cell to text gives, for every type, a text from which exactly that value can be read back (integers in decimal, booleans, strings unchanged, floats to full precision), the same by name and by index; joining a column gives those texts in row order separated by the separator.",
  ["inputs"], "every value of every scalar type, every row and column index",
  "All 64-bit values and both lookup paths.",
  ["gotables.go"], [("conversion", "gotables.go: GetValAsString, GetValAsStringByColIndex, JoinColVals, GetColValsAsStrings")])
p("C30", "Walking a table or table set visits everything exactly once, in order",
  "Walking a table set calls the table, row and cell callbacks exactly once for each table, row and cell, in table, row and column order, with the right position and value; nested tables are visited when asked and not otherwise. The first error from a callback stops the walk and is returned.",
  ["inputs"], "every set within bounds, every nesting choice, a callback error at an arbitrary point",
  "Error at each possible point times nesting choices.",
  ["tree.go"], [("walk", "tree.go: Walk"), ("cell info", "tree.go: GetCellInfo, GetCellInfoByColIndex, RowByRowIndex")])
p("C31", "Appending rows or columns from another table transfers exactly those cells",
  "Appending a range of rows from another table adds exactly those rows at the end, in order, matching cells by column name and filling the columns the source lacks with zero values; appending the columns of another table adds exactly the columns missing, holding zero values, and leaves the others alone. A column of the same name but another type, a source column the destination lacks, or a range outside the source is refused.",
  ["inputs"], "every pair of tables within bounds, every row range, overlapping and disjoint columns",
  "Row-range arithmetic and column matching over all shapes.",
  ["gotables.go"], [("append from table", "gotables.go: AppendRowsFromTable, AppendColsFromTable, NewTableFromRows")])
p("C32", "Sort-key bookkeeping reflects exactly what was set",
  "Setting, appending, reversing, deleting and copying sort keys leaves exactly the requested keys, in order, with the requested directions, visible the same through every query; unknown columns are refused. Ordering columns by the sort keys puts the key columns first, in key order, and the rest in their original order.",
  ["inputs", "histories"], "every key list over bounded columns, every reverse subset, bounded histories",
  "Key list state depends on history; tests use a few lists.",
  ["sort.go"], [("sort keys", "sort.go: SetSortKeys, SetSortKeysReverse, AppendSortKey, DeleteSortKey, GetSortKeysAsTable, SetSortKeysFromTable, IsSortKey, SortKeyCount, OrderColsBySortKeys")])
p("C33", "Nest stores in each row exactly the matching rows of the other table",
  "Nesting one table in another by their sort keys sorts both, gives the first one more string column, and stores there, in each row, the text of a table named after the column holding exactly those rows of the other table whose keys equal the row's, in order, with all their columns (an empty table where none match). All other cells of the row are unchanged and the other table keeps its rows. Tables whose keys do not fit are refused with columns and cells as they were.",
  ["inputs"], "every pair of tables within bounds with arbitrary keys of every sortable type, sort keys of either table, keys in any order and direction",
  "Which rows match is a join over all key values, with duplicates and rows without a match; the tests nest one pair of tables.",
  ["gotables.go", "sort.go"], [("nest", "gotables.go: Nest"), ("search", "sort.go: SearchRange, CompareRows")])
p("C90", "Goroutines on separate tables, or reading one table, do not interfere",
  "Operations on separate tables touch no common mutable memory, however the tables came about (made, parsed, copied, derived from one another, listed in copied sets, or decoded), and neither do parses of separate texts or readers of the same table or table set: under every schedule each goroutine gets what it gets alone. No operation reseeds the process-wide random source.",
  ["schedules"], "every schedule of two goroutines, over a menu of operations and ways to make the tables, with arbitrary operation arguments", "A race shows only under particular schedules, and the tests run one goroutine.",
  ["gotables.go", "parser.go", "sort.go", "tree.go"], [("package state", "parser.go, gotables.go, tree.go: package-level variables"), ("sharing", "gotables.go: Copy, NewTableFromRows, CopyDeep, TableSet.Copy")])
p("C91", "Files carry exactly the text form, and every I/O error is reported",
  "After a table or table set is written to a file without an error, the file holds exactly its text form, whatever was in the file before, with the file mode asked for when the file is new; a write that fails (missing directory, a directory in the way, no space) returns an error and leaves the table as it was. Reading a file gives exactly what parsing its text gives, accepted or refused; a file that cannot be read is an error, never an empty table.",
  ["inputs", "fault_sequences"], "every table within bounds, arbitrary cells and earlier file contents, arbitrary short file texts, every kind of failing path at every read or write call",
  "A short write, a file longer than the new text or an unreadable file shows only when it happens; the tests write to a fresh file and read it back.",
  ["gotables.go"], [("write", "gotables.go: WriteFile of Table and TableSet"), ("read", "gotables.go: NewTableSetFromFile, NewTableFromFile, NewTableFromFileByTableName")])
p("C92", "Generated Go source compiles and round-trips its table",
  "For a table whose names are usable as Go identifiers (not keywords, predeclared names, package names, `_`, or `table` for the table itself), "
  "the Go source written by GenerateTypeStruct, GenerateTypeStructSliceFromTable and GenerateTypeStructSliceToTable compiles whatever the column types and names are, "
  "the generated functions convert the table to one struct per row, field by column, without changing the table, and convert any slice of structs to a table with "
  "those rows; converting there and back gives an equal table for every cell value. A nil table is refused by the generators and by the generated functions.",
  ["programs", "inputs"], "every table metadata, and every table of that metadata", "The generated program is itself the object; tests compare text.",
  ["generate.go"], [("generate", "generate.go: GenerateTypeStruct, GenerateTypeStructSliceFromTable, GenerateTypeStructSliceToTable, accessorName")])
p("C93", "The nested text form shows every nested table once, as a readable table set",
  "StringNested writes a table and every table nested in it, at any depth, as the text of a table set: the table first, under its own name, then by column and row each "
  "nested table followed by what is nested in it, each exactly once, with its columns, rows, cells and shape, under a name of its own that begins with the table's name "
  "(a cell with a nested table shows that table's name). The text can be read back as a table set even where nested tables share names, and writing it changes no table.",
  ["inputs"], "every nesting tree within bounds with arbitrary cells", "Which tables are shown depends on the whole tree: depth, position, empty and repeated names; the tests read one such text.",
  ["gotables.go"], [("nested text", "gotables.go: StringNested, stringNested_recursive"), ("reader", "parser.go")])
p("C94", "A NilTable stays empty until it is named, and no two are one",
  "A NilTable has no name, columns, rows or sort keys, is not a valid table, and equals other NilTables only: every operation on it but naming it either is refused or changes nothing, and none panics. "
  "Giving it a name, which must be a valid one, makes it a table equal to a new table of that name, usable like one, and names no other table. "
  "Every *Table cell that was appended, zeroed, copied or read empty holds a NilTable of its own: naming and filling it leaves all other cells of its table as they were.",
  ["inputs", "histories"], "every operation with arbitrary arguments, every way a cell comes to be empty, arbitrary names", "NilTables are the zero value of a column type: sharing one or growing one unnoticed shows only in other cells, later.",
  ["gotables.go", "helpers.go"], [("NilTable", "gotables.go: NewNilTable, SetName, AppendCol, AppendRow"), ("zero cells", "helpers.go: SetCellToZeroValue, SetCellToZeroValueByColIndex")])
p("C95", "NewTreeTable fills each empty *Table cell with a copy of the table",
  "NewTreeTable puts a copy of the table as it was into each of its cells that holds a NilTable, and does the same in those copies, as many levels down as asked for: copies have the table's name, columns, shape and rows, with everything nested in it copied too. "
  "Other cells stay as they were, and cells below the depth stay empty; no table occurs twice, so the nesting is valid. "
  "Depth 0 or a table without empty cells changes nothing, and a negative depth or a table that contains itself is an error that changes nothing.",
  ["inputs"], "every table within bounds with arbitrary cells, empty and filled, every depth within bounds", "The shape of the tree depends on which cells are empty, and on depth; the test only looks whether there is an error.",
  ["tree.go"], [("tree", "tree.go: NewTreeTable, newTreeTable_recursive"), ("copy", "tree.go: CopyDeep")])
p("C96", "Rounding and command-line flag helpers do what they say",
  "UtilRound gives the nearest value with the decimal places asked for, for positive and negative values alike (an exact half above zero goes up), and keeps infinities. UtilCheckStringFlag accepts an argument exactly when it is not empty and not another flag (beginning with -), and reports a missing argument as an error exactly when it is required. A UtilStringFlag has the value set last, exists once set, and is all right exactly when every value it was given was a value and not another flag.",
  ["inputs"], "every finite value below 1e9 in size, a range of decimal places; every string within the length bound", "The tests round five positive values and test no flag; rounding negative values goes through another branch.",
  ["util.go"], [("rounding", "util.go: UtilRound"), ("flags", "util.go: UtilCheckStringFlag, UtilStringFlag")])
