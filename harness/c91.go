//go:build go1.21

package gotables

// Files. Under the engine the operating system is the model below (a small disk); a replay uses real files in a scratch
// directory. What fails is decided by the name of the file: a missing directory, a directory, a full device.

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

const vzRoot = "/s"

// the model of the disk

type vzDiskFile struct {
	data []byte
	perm os.FileMode
	dir  bool
	full bool // every write fails
}

type vzOpen struct {
	name   string
	f      *vzDiskFile
	pos    int
	app    bool
	rd, wr bool
	closed bool
}

var vzDisk map[string]*vzDiskFile
var vzOpens map[*os.File]*vzOpen

var vzErrNoEnt = errors.New("no such file or directory")
var vzErrIsDir = errors.New("is a directory")
var vzErrFull = errors.New("no space left on device")
var vzErrBad = errors.New("bad file descriptor")

func vzDiskErr(op, name string, err error) error { return &fs.PathError{Op: op, Path: name, Err: err} }

func vzDiskReset() {
	vzDisk = map[string]*vzDiskFile{
		vzRoot:           {dir: true},
		vzRoot + "/dir":  {dir: true},
		vzRoot + "/full": {full: true, perm: 0666},
	}
	vzOpens = map[*os.File]*vzOpen{}
}

func vzDiskOpen(name string, flag int, perm os.FileMode) (*os.File, error) {
	f, exists := vzDisk[name]
	if !exists {
		parent, ok := vzDisk[filepath.Dir(name)]
		if flag&os.O_CREATE == 0 || !ok || !parent.dir {
			return nil, vzDiskErr("open", name, vzErrNoEnt)
		}
		f = &vzDiskFile{perm: perm}
		vzDisk[name] = f
	} else if f.dir && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		return nil, vzDiskErr("open", name, vzErrIsDir)
	} else if exists && flag&os.O_EXCL != 0 {
		return nil, vzDiskErr("open", name, errors.New("file exists"))
	}
	if flag&os.O_TRUNC != 0 {
		f.data = nil
	}
	h := new(os.File)
	vzOpens[h] = &vzOpen{name: name, f: f, app: flag&os.O_APPEND != 0, wr: flag&(os.O_WRONLY|os.O_RDWR) != 0, rd: flag&os.O_WRONLY == 0}
	return h, nil
}

func vzDiskWrite(h *os.File, b []byte) (int, error) {
	o := vzOpens[h]
	if o == nil || o.closed || !o.wr {
		return 0, vzErrBad
	}
	if o.f.full && len(b) > 0 {
		return 0, vzDiskErr("write", o.name, vzErrFull)
	}
	if o.app {
		o.pos = len(o.f.data)
	}
	d := append([]byte{}, o.f.data[:o.pos]...)
	d = append(d, b...)
	if o.pos+len(b) < len(o.f.data) {
		d = append(d, o.f.data[o.pos+len(b):]...)
	}
	o.f.data = d
	o.pos += len(b)
	return len(b), nil
}

func vzDiskClose(h *os.File) error {
	o := vzOpens[h]
	if o == nil || o.closed {
		return vzErrBad
	}
	o.closed = true
	return nil
}

func vzDiskRead(name string) ([]byte, error) {
	f, ok := vzDisk[name]
	if !ok {
		return nil, vzDiskErr("open", name, vzErrNoEnt)
	}
	if f.dir {
		return nil, vzDiskErr("read", name, vzErrIsDir)
	}
	if f.full {
		vzUnmodelled("reading a device")
	}
	return append([]byte{}, f.data...), nil
}

func vzDiskWriteFile(name string, data []byte, perm os.FileMode) error {
	h, err := vzDiskOpen(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = vzDiskWrite(h, data)
	if cerr := vzDiskClose(h); err == nil {
		err = cerr
	}
	return err
}

func vzStub_io_ioutil_WriteFile(name string, data []byte, perm os.FileMode) error {
	return vzDiskWriteFile(name, data, perm)
}
func vzStub_os_WriteFile(name string, data []byte, perm os.FileMode) error {
	return vzDiskWriteFile(name, data, perm)
}
func vzStub_io_ioutil_ReadFile(name string) ([]byte, error) { return vzDiskRead(name) }
func vzStub_os_ReadFile(name string) ([]byte, error)        { return vzDiskRead(name) }
func vzStub_os_Create(name string) (*os.File, error) {
	return vzDiskOpen(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}
func vzStub_os_Open(name string) (*os.File, error) { return vzDiskOpen(name, os.O_RDONLY, 0) }
func vzStub_os_OpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	return vzDiskOpen(name, flag, perm)
}
func vzStub___os_File__Write(h *os.File, b []byte) (int, error) { return vzDiskWrite(h, b) }
func vzStub___os_File__WriteString(h *os.File, s string) (int, error) {
	return vzDiskWrite(h, []byte(s))
}
func vzStub___os_File__Close(h *os.File) error { return vzDiskClose(h) }
func vzStub___os_File__Sync(h *os.File) error  { return nil }
func vzStub___os_File__Name(h *os.File) string { return vzOpens[h].name }
func vzStub___os_File__Read(h *os.File, b []byte) (int, error) {
	o := vzOpens[h]
	if o == nil || o.closed || !o.rd {
		return 0, vzErrBad
	}
	if o.f.dir {
		return 0, vzDiskErr("read", o.name, vzErrIsDir)
	}
	if o.pos >= len(o.f.data) {
		return 0, io.EOF
	}
	n := copy(b, o.f.data[o.pos:])
	o.pos += n
	return n, nil
}
func vzStub___os_File__Stat(h *os.File) (os.FileInfo, error) {
	return vzFileInfo{vzOpens[h].name, vzOpens[h].f}, nil
}
func vzStub___os_File__Chmod(h *os.File, perm os.FileMode) error {
	vzOpens[h].f.perm = perm
	return nil
}
func vzStub_os_Chmod(name string, perm os.FileMode) error {
	f, ok := vzDisk[name]
	if !ok {
		return vzDiskErr("chmod", name, vzErrNoEnt)
	}
	f.perm = perm
	return nil
}
func vzStub_os_Remove(name string) error {
	if _, ok := vzDisk[name]; !ok {
		return vzDiskErr("remove", name, vzErrNoEnt)
	}
	delete(vzDisk, name)
	return nil
}
func vzStub_os_Rename(from, to string) error {
	f, ok := vzDisk[from]
	if !ok {
		return vzDiskErr("rename", from, vzErrNoEnt)
	}
	if t, ok := vzDisk[to]; ok && t.dir {
		return vzDiskErr("rename", to, errors.New("file exists"))
	}
	vzDisk[to] = f
	delete(vzDisk, from)
	return nil
}

type vzFileInfo struct {
	name string
	f    *vzDiskFile
}

func (i vzFileInfo) Name() string       { return i.name }
func (i vzFileInfo) Size() int64        { return int64(len(i.f.data)) }
func (i vzFileInfo) ModTime() time.Time { return time.Time{} }
func (i vzFileInfo) IsDir() bool        { return i.f.dir }
func (i vzFileInfo) Sys() interface{}   { return nil }
func (i vzFileInfo) Mode() os.FileMode {
	if i.f.dir {
		return os.ModeDir | i.f.perm
	}
	return i.f.perm
}

func vzStat(name string) (os.FileInfo, error) {
	f, ok := vzDisk[name]
	if !ok {
		return nil, vzDiskErr("stat", name, vzErrNoEnt)
	}
	return vzFileInfo{name, f}, nil
}
func vzStub_os_Stat(name string) (os.FileInfo, error)  { return vzStat(name) }
func vzStub_os_Lstat(name string) (os.FileInfo, error) { return vzStat(name) }

// the scratch directory, on the model's disk or the real one

type vzScratch struct {
	dir   string
	umask int
}

func vzNewScratch() *vzScratch {
	if vzSym() {
		vzDiskReset()
		return &vzScratch{dir: vzRoot}
	}
	d, err := os.MkdirTemp("", "vzC91")
	vzMust(err, "MkdirTemp")
	vzMust(os.Mkdir(d+"/dir", 0777), "Mkdir")
	vzMust(os.Symlink("/dev/full", d+"/full"), "Symlink")
	return &vzScratch{d, syscall.Umask(0)}
}

func (s *vzScratch) done() {
	if !vzSym() {
		syscall.Umask(s.umask)
		if strings.Contains(s.dir, "vzC91") {
			_ = os.RemoveAll(s.dir)
		}
	}
}

// put makes a file.
func (s *vzScratch) put(name, data string) {
	if vzSym() {
		vzDisk[s.dir+"/"+name] = &vzDiskFile{data: []byte(data), perm: 0600}
		return
	}
	vzMust(os.WriteFile(s.dir+"/"+name, []byte(data), 0600), "put")
}

func (s *vzScratch) get(name string) (string, os.FileMode) {
	if vzSym() {
		f, ok := vzDisk[s.dir+"/"+name]
		if !ok {
			return "", 0
		}
		return string(f.data), f.perm
	}
	b, err := os.ReadFile(s.dir + "/" + name)
	if err != nil {
		return "", 0
	}
	i, err := os.Stat(s.dir + "/" + name)
	vzMust(err, "Stat")
	return string(b), i.Mode().Perm()
}

func vzC91table(name string) *Table {
	return vzBuild(name, []string{"a", "b"}, []string{"int8", "bool"}, vzRange("rows", 0, 2), 1)
}

// what is written is the text form, all of it, and reads back
func vzC91_write() {
	s := vzNewScratch()
	defer s.done()
	old := vzRange("old", 0, 2)
	if old > 0 {
		s.put("f", []string{"", "#", "[Old]\nlong\nint\n1\n2\n3\n4\n5\n6\n7\n8\n9\n10\n11\n12\n13\n14\n15\n16\n17\n18\n19\n20\n21\n22\n23\n24\n25\n26\n27\n28\n"}[old])
	}
	mode := []os.FileMode{0, 0600, 0644, 0666, 0400}[vzRange("mode", 0, 4)]
	t := vzC91table("T")
	want := vzSnap(t)
	text := t.String()
	vzMust(t.WriteFile(s.dir+"/f", mode), "WriteFile")
	data, perm := s.get("f")
	vzAssert(data == text, "the file holds exactly the text of the table")
	if old == 0 {
		if mode == 0 {
			mode = 0666
		}
		vzAssert(perm == mode, "the file has the mode asked for")
	}
	vzAssert(vzSnapSame(vzSnap(t), want), "writing changes nothing")
	got, err := NewTableFromFile(s.dir + "/f")
	vzMust(err, "NewTableFromFile")
	vzAssert(vzSnapSame(vzSnap(got), want), "the file reads back as an equal table")
	vzReach("end")
}

func vzC91_writeSet() {
	s := vzNewScratch()
	defer s.done()
	old := vzRange("old", 0, 1)
	if old > 0 {
		s.put("f", "[Old]\nlong\nint\n1\n2\n3\n4\n5\n6\n7\n8\n9\n10\n11\n12\n13\n14\n15\n16\n17\n18\n19\n20\n21\n22\n23\n24\n25\n26\n27\n28\n29\n30\n31\n32\n33\n34\n35\n36\n37\n38\n39\n40\n")
	}
	set, err := NewTableSet([]string{"", "S"}[vzRange("name", 0, 1)])
	vzMust(err, "NewTableSet")
	n := vzRange("tables", 0, 2)
	for i := 0; i < n; i++ {
		vzMust(set.Append(vzBuild("T"+string(rune('0'+i)), []string{"a", "b"}, [][]string{{"bool", "bool"}, {"bool", "string"}}[i], 1, 1)), "Append")
	}
	text := set.String()
	vzMust(set.WriteFile(s.dir+"/f", 0600), "WriteFile")
	data, _ := s.get("f")
	vzAssert(data == text, "the file holds exactly the text of the table set")
	got, err := NewTableSetFromFile(s.dir + "/f")
	vzMust(err, "NewTableSetFromFile")
	vzAssert(got.FileName() == s.dir+"/f", "the table set knows its file")
	vzAssert(got.Name() == set.Name() && got.TableCount() == n, "the file reads back as the table set")
	for i := 0; i < n; i++ {
		a, err := set.GetTableByTableIndex(i)
		vzMust(err, "GetTableByTableIndex")
		b, err := got.GetTableByTableIndex(i)
		vzMust(err, "GetTableByTableIndex")
		vzAssert(vzSnapSame(vzSnap(b), vzSnap(a)), "the file reads back as equal tables")
		c, err := NewTableFromFileByTableName(s.dir+"/f", a.Name())
		vzMust(err, "NewTableFromFileByTableName")
		vzAssert(vzSnapSame(vzSnap(c), vzSnap(a)), "a table of the file by its name")
	}
	_, err = NewTableFromFileByTableName(s.dir+"/f", "Zork")
	vzAssert(err != nil, "a table the file does not have is an error")
	_, err = NewTableFromFile(s.dir + "/f")
	vzAssert((err == nil) == (n == 1), "a file is one table exactly when it has one table")
	vzReach("end")
}

// a write that fails says so
func vzC91_writeFault() {
	s := vzNewScratch()
	defer s.done()
	name := []string{"missing/f", "dir", "full", ""}[vzRange("name", 0, 3)]
	path := s.dir + "/" + name
	if name == "" {
		path = ""
	}
	t := vzC91table("T")
	before := vzSnap(t)
	vzAssert(t.WriteFile(path, 0) != nil, "a write that fails is an error")
	set, err := NewTableSet("S")
	vzMust(err, "NewTableSet")
	vzMust(set.Append(t), "Append")
	vzAssert(set.WriteFile(path, 0) != nil, "a write of a set that fails is an error")
	vzAssert(vzSnapSame(vzSnap(t), before), "a failed write changes nothing")
	vzReach("end")
}

// reading a file is parsing its text, whatever it is; what cannot be read is an error
func vzC91_read() {
	s := vzNewScratch()
	defer s.done()
	text := vzStr("head", 1) + "T]\na\nint8\n" + vzStr("cell", 2) + "\n"
	s.put("f", text)
	want, werr := NewTableSetFromString(text)
	got, err := NewTableSetFromFile(s.dir + "/f")
	vzAssert((err == nil) == (werr == nil), "a file is accepted exactly when its text is")
	if err == nil && werr == nil {
		vzAssert(got.TableCount() == want.TableCount() && got.Name() == want.Name(), "the tables of the text")
		for i := 0; i < got.TableCount() && i < want.TableCount(); i++ {
			a, err := want.GetTableByTableIndex(i)
			vzMust(err, "GetTableByTableIndex")
			b, err := got.GetTableByTableIndex(i)
			vzMust(err, "GetTableByTableIndex")
			vzAssert(vzSnapSame(vzSnap(b), vzSnap(a)), "the tables of the text")
		}
	}
	data, _ := s.get("f")
	vzAssert(data == text, "reading changes nothing")
	vzReach("end")
}

func vzC91_readFault() {
	s := vzNewScratch()
	defer s.done()
	path := s.dir + "/" + []string{"missing/f", "dir", "absent"}[vzRange("name", 0, 2)]
	if vzRange("empty", 0, 1) == 1 {
		path = ""
	}
	set, err := NewTableSetFromFile(path)
	vzAssert(err != nil && set == nil, "a file that cannot be read is an error")
	t, err := NewTableFromFile(path)
	vzAssert(err != nil && t == nil, "a file that cannot be read is an error")
	t, err = NewTableFromFileByTableName(path, "T")
	vzAssert(err != nil && t == nil, "a file that cannot be read is an error")
	var nt *Table
	var ns *TableSet
	vzAssert(nt.WriteFile(s.dir+"/f", 0) != nil && ns.WriteFile(s.dir+"/f", 0) != nil, "writing nil is an error")
	data, perm := s.get("f")
	vzAssert(data == "" && perm == 0, "writing nil makes no file")
	vzReach("end")
}
