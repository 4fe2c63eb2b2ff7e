package main

import (
	"go/types"
	"path/filepath"
	"sort"
	"strings"
)

// File model: /dev/null exists, and files whose (relative) name starts with
// "vscratch" behave as byte sequences in memory; every other name does not
// exist and cannot be created. Counterexamples are replayed with an empty
// scratch directory as the working directory.

type fileT struct {
	data []Value
}

type openT struct {
	f      *fileT // nil for /dev/null
	off    int
	read   bool
	write  bool
	app    bool
	closed bool
}

const (
	oWRONLY = 0x1
	oRDWR   = 0x2
	oCREATE = 0x40
	oTRUNC  = 0x200
	oAPPEND = 0x400
)

func registerFiles(T map[string]Intrinsic) {
	open := func(flags func(a []Value) int) Intrinsic {
		return func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
			fail := func() (Value, bool) {
				return tuple(Value{}, m.errNew(g, mkStr("open: no such file or directory"))), true
			}
			if !concStr(a[0]) {
				return fail()
			}
			name := cs(a[0])
			fl := flags(a)
			o := &openT{read: fl&oWRONLY == 0, write: fl&(oWRONLY|oRDWR) != 0, app: fl&oAPPEND != 0}
			if name != "/dev/null" {
				if !strings.HasPrefix(name, "vscratch") || strings.Contains(name, "/") {
					return fail()
				}
				f := m.files[name]
				if f == nil {
					if fl&oCREATE == 0 {
						return fail()
					}
					f = &fileT{}
					m.files[name] = f
				}
				if fl&oTRUNC != 0 {
					f.data = nil
				}
				o.f = f
			}
			ft := fi.fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
			c := new(Value)
			*c = m.zero(ft)
			m.opens[c] = o
			return tuple(Value{r: c}, Value{}), true
		}
	}
	T["os.Open"] = open(func(a []Value) int { return 0 })
	T["os.Create"] = open(func(a []Value) int { return oRDWR | oCREATE | oTRUNC })
	T["os.OpenFile"] = open(func(a []Value) int { return int(a[1].b) })
	readFile := func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		if concStr(a[0]) {
			if cs(a[0]) == "/dev/null" {
				return tuple(Value{}, Value{}), true
			}
			if f := m.files[cs(a[0])]; f != nil {
				d := append([]Value{}, f.data...)
				return tuple(Value{r: &Slice{arr: d, len: len(d), cap: len(d)}}, Value{}), true
			}
		}
		return tuple(Value{}, m.errNew(g, mkStr("open: no such file or directory"))), true
	}
	T["os.ReadFile"] = readFile
	T["io/ioutil.ReadFile"] = readFile
	T["path/filepath.Glob"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		if !concStr(a[0]) {
			return tuple(Value{}, m.errNew(g, mkStr("syntax error in pattern"))), true
		}
		pat := cs(a[0])
		if _, err := filepath.Match(pat, ""); err != nil {
			return tuple(Value{}, m.errNew(g, mkStr(err.Error()))), true
		}
		names := []string{}
		for n := range m.files {
			if ok, _ := filepath.Match(pat, n); ok {
				names = append(names, n)
			}
		}
		if pat == "/dev/null" {
			names = append(names, pat)
		}
		if len(names) == 0 {
			return tuple(Value{}, Value{}), true
		}
		sort.Strings(names)
		arr := make([]Value, len(names))
		for i, n := range names {
			arr[i] = mkStr(n)
		}
		return tuple(Value{r: &Slice{arr: arr, len: len(arr), cap: len(arr)}}, Value{}), true
	}
	handle := func(m *Machine, v Value) (o *openT, known bool) {
		c, ok := v.r.(*Value)
		if !ok || c == nil {
			return nil, true // nil *os.File
		}
		o = m.opens[c]
		return o, o != nil
	}
	T["(*os.File).Close"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		o, known := handle(m, a[0])
		if !known {
			return Value{}, true // a standard stream
		}
		if o == nil || o.closed {
			return m.errNew(g, mkStr("file already closed")), true
		}
		o.closed = true
		return Value{}, true
	}
	T["(*os.File).Stat"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		if o, known := handle(m, a[0]); known && o != nil && !o.closed {
			return tuple(Value{r: &Iface{t: types.Typ[types.Int], v: Value{}}}, Value{}), true
		}
		return tuple(Value{}, m.errNew(g, mkStr("stat"))), true
	}
	T["(*os.File).Read"] = func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
		eof := func() (Value, bool) {
			v := m.p.prog.ImportedPackage("io").Var("EOF")
			return tuple(Value{}, m.load(m.global(m.p.GlobalIndex(v)))), true
		}
		o, known := handle(m, a[0])
		if !known {
			return eof() // standard input is empty
		}
		if o == nil || o.closed || !o.read {
			return tuple(Value{}, m.errNew(g, mkStr("read: bad file"))), true
		}
		dst := m.sliceVals(g, a[1])
		if len(dst) == 0 {
			return tuple(Value{}, Value{}), true
		}
		if o.f == nil || o.off >= len(o.f.data) {
			return eof()
		}
		n := 0
		for n < len(dst) && o.off < len(o.f.data) {
			m.store(&dst[n], o.f.data[o.off])
			n++
			o.off++
		}
		return tuple(mkInt(int64(n)), Value{}), true
	}
	write := func(str bool) Intrinsic {
		return func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
			o, known := handle(m, a[0])
			if !known {
				return tuple(Value{}, Value{}), true // standard output, discarded
			}
			if o == nil || o.closed || !o.write {
				return tuple(Value{}, m.errNew(g, mkStr("write: bad file"))), true
			}
			if o.f == nil {
				return tuple(Value{}, Value{}), true // discarded
			}
			var bs []Value
			if str {
				bs = m.strBytes(m.force(g, a[1].str()))
			} else {
				bs = append(bs, m.sliceVals(g, a[1])...)
			}
			{
				if o.app {
					o.off = len(o.f.data)
				}
				for _, b := range bs {
					if o.off < len(o.f.data) {
						o.f.data[o.off] = b
					} else {
						for len(o.f.data) < o.off {
							o.f.data = append(o.f.data, Value{})
						}
						o.f.data = append(o.f.data, b)
					}
					o.off++
				}
			}
			return tuple(mkInt(int64(len(bs))), Value{}), true
		}
	}
	T["(*os.File).Write"] = write(false)
	T["(*os.File).WriteString"] = write(true)
	fwrite := write(true)
	fpr := func(kind int) Intrinsic {
		return func(m *Machine, g *Goroutine, fi *FuncInfo, a []Value) (Value, bool) {
			ifc, ok := a[0].r.(*Iface)
			if !ok {
				return tuple(Value{}, Value{}), true
			}
			o, known := handle(m, ifc.v)
			if !known || o == nil || o.f == nil {
				return tuple(Value{}, Value{}), true
			}
			var text Value
			if kind == 0 {
				text, _ = m.sprintf(g, cs(a[1]), m.sliceVals(g, a[2]))
			} else {
				args := m.sliceVals(g, a[1])
				format := "%v"
				if kind == 2 {
					format = "%v\n"
				}
				if len(args) != 1 {
					panic(pathEnd{"unsupported", "Fprint with several operands to a scratch file"})
				}
				text, _ = m.sprintf(g, format, args)
			}
			return fwrite(m, g, fi, []Value{ifc.v, text})
		}
	}
	T["fmt.Fprintf"] = fpr(0)
	T["fmt.Fprint"] = fpr(1)
	T["fmt.Fprintln"] = fpr(2)
}
