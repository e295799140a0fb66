//go:build go1.21

// Loading of configurations (C28): starts of simulated processes, each with its
// own environment variables, command line and files.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"reflect"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/chanjarster/gears/conf"
	"github.com/chanjarster/gears/zzsim/hk"
	rt "github.com/chanjarster/gears/zzsim/rt"
	"gopkg.in/yaml.v3"
)

// ---- configuration types --------------------------------------------------------

type cRedis struct {
	Host     string
	Port     int
	Password string
	Pool     *int
}

type Base0 struct {
	Addr     string
	RetryMax *int
	Slow     time.Duration
}

type cNest struct {
	cHidden int
	Limit   *cLimit
	Rate    float64
	Tags    []string
}

type cLimit struct {
	MaxConns  uint64
	MinConns  *uint
	Timeout   *time.Duration
	KeepAlive bool
	Inner     struct {
		Deep *cDeep
		Name string
	}
}

type cDeep struct {
	OffsetNs int64
	Label    *string
	Ratio    *float64
	On       *bool
}

type shapeA struct {
	Redis   *cRedis
	Mysql   cRedis
	Name    string
	Debug   bool
	Timeout time.Duration
}

type shapeB struct {
	Base0 `yaml:",inline"`
	Other cRedis
	Nest  *cNest
}

type shapeC struct {
	Emb struct {
		Base1 `yaml:",inline"`
		Size  uint
	}
	Base2   `yaml:",inline"`
	private *cRedis
	Small   int32
	List    []int
	Map     map[string]string
	N       *cNest
}

type Base1 struct {
	ZoneName string
	Weight   *float64
}

type Base2 struct {
	Key   string `yaml:"the-key"`
	Level *int64 `yaml:"lvl"`
	Sub   *struct {
		Flag  bool
		Flag2 *bool `yaml:"second"`
	} `yaml:"sub_section"`
}

const nShapes = 44

var shapeCache = map[int]reflect.Type{}

func shapeOf(n int) reflect.Type {
	switch n {
	case 0:
		return reflect.TypeOf(shapeA{})
	case 1:
		return reflect.TypeOf(shapeB{})
	case 2:
		return reflect.TypeOf(shapeC{})
	}
	if t, ok := shapeCache[n]; ok {
		return t
	}
	for i := uint64(0); ; i++ {
		r := hk.NewRng(uint64(n)*7919 + i*1000003)
		t := randStruct(r, 0)
		if okNames(t) {
			shapeCache[n] = t
			return t
		}
	}
}

var words = []string{"Host", "Port", "MaxIdle", "Name", "Db", "Ip4Addr", "TheVeryLongName", "X", "A1", "Timeout", "LogFile", "Srv", "Foo", "BarBaz", "Key", "Mode"}

var leafTypes = []reflect.Type{reflect.TypeOf(false), reflect.TypeOf(0.5), reflect.TypeOf(1), reflect.TypeOf(int64(1)), reflect.TypeOf(""), reflect.TypeOf(uint(1)),
	reflect.TypeOf(uint64(1)), reflect.TypeOf(time.Second)}

func randStruct(r *hk.Rng, depth int) reflect.Type {
	var fs []reflect.StructField
	used := map[string]bool{}
	for i, n := 0, r.R(1, 4); i < n; i++ {
		w := words[r.N(len(words))]
		if used[w] {
			continue
		}
		used[w] = true
		var t reflect.Type
		if depth < 3 && r.P(2, 5) {
			t = randStruct(r, depth+1)
		} else {
			t = leafTypes[r.N(len(leafTypes))]
		}
		if r.P(2, 5) {
			t = reflect.PtrTo(t)
		}
		f := reflect.StructField{Name: w, Type: t}
		if r.P(1, 5) {
			f.Tag = reflect.StructTag(`yaml:"` + strings.ToLower(w) + `-y"`)
		}
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

type leaf struct {
	idx   []int
	path  []string
	ykeys []string
	t     reflect.Type // without pointer
}

func leavesOf(t reflect.Type, idx []int, path, ykeys []string) []leaf {
	var out []leaf
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		ft := f.Type
		if ft.Kind() == reflect.Ptr {
			ft = ft.Elem()
		}
		if f.PkgPath != "" && !f.Anonymous {
			continue
		}
		ix := append(append([]int{}, idx...), i)
		p, y := path, ykeys
		if !f.Anonymous {
			p = append(append([]string{}, path...), f.Name)
			k := strings.ToLower(f.Name)
			if tag := f.Tag.Get("yaml"); tag != "" {
				k = tag
			}
			y = append(append([]string{}, ykeys...), k)
		}
		isLeaf := false
		for _, l := range leafTypes {
			if l == ft {
				isLeaf = true
			}
		}
		switch {
		case isLeaf:
			out = append(out, leaf{ix, p, y, ft})
		case ft.Kind() == reflect.Struct:
			out = append(out, leavesOf(ft, ix, p, y)...)
		}
	}
	return out
}

// the documented naming convention
func kebab(path []string, sep string, up bool) string {
	var ws []string
	for _, p := range path {
		w := ""
		for i, c := range p {
			if i > 0 && c >= 'A' && c <= 'Z' {
				ws = append(ws, w)
				w = ""
			}
			w += string(c)
		}
		ws = append(ws, w)
	}
	s := strings.Join(ws, sep)
	if up {
		return strings.ToUpper(s)
	}
	return strings.ToLower(s)
}

func okNames(t reflect.Type) bool {
	seen := map[string]bool{"c": true, "conf-file": true}
	ls := leavesOf(t, nil, nil, nil)
	for _, l := range ls {
		n := kebab(l.path, "-", false)
		if seen[n] {
			return false
		}
		seen[n] = true
	}
	return len(ls) > 1
}

// at finds a leaf; a nil pointer on the way is reported, or made if mk is set.
func at(v reflect.Value, idx []int, mk bool) (reflect.Value, bool) {
	for _, i := range idx {
		if v.Kind() == reflect.Ptr {
			if v.IsNil() {
				if !mk {
					return v, false
				}
				v.Set(reflect.New(v.Type().Elem()))
			}
			v = v.Elem()
		}
		v = v.Field(i)
	}
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			if !mk {
				return v, false
			}
			v.Set(reflect.New(v.Type().Elem()))
		}
		v = v.Elem()
	}
	return v, true
}

// ---- values ------------------------------------------------------------------------

var strVals = []string{"localhost", "", "a b", "日本語", "k=v", "'q'", "null", "true", "-5", `say "hi"`, "#no", "x: y", "0x10", "tab\tnl\nend", "~", "--", "p@ss:w0rd", "  lead", "12"}
var intVals = []int64{0, 1, -1, 3306, 65535, -2147483649, 9223372036854775807, -9223372036854775808, 42}
var fltVals = []float64{0, 1, -0.25, 1e21, 3.14159, 1e-9, 7}
var durVals = []time.Duration{0, time.Nanosecond, 1500 * time.Millisecond, 90 * time.Minute, -time.Second, 25 * time.Hour}

// val is value n of a type with its text for command line and environment, and for yaml.
func val(t reflect.Type, n int64) (v interface{}, text, ytext string) {
	if n < 0 {
		n = -n
	}
	k := int(n)
	switch t {
	case leafTypes[0]:
		b := k%2 == 0
		return b, []string{"true", "false", "1", "0", "T", "F", "TRUE", "FALSE"}[k%8], strconv.FormatBool(b)
	case leafTypes[1]:
		f := fltVals[k%len(fltVals)] + float64(k/len(fltVals))*8
		s := strconv.FormatFloat(f, 'g', -1, 64)
		return f, s, s
	case leafTypes[2], leafTypes[3]:
		i := intVals[k%len(intVals)]
		if m := int64(k / len(intVals)); i < 1e15 {
			i += m * 1000
		}
		s := strconv.FormatInt(i, 10)
		if i >= 0 && k%4 == 3 {
			s = "0x" + strconv.FormatInt(i, 16)
		}
		if t == leafTypes[2] {
			return int(i), s, s
		}
		return i, s, s
	case leafTypes[4]:
		s := strVals[k%len(strVals)]
		if k >= len(strVals) {
			s += strconv.Itoa(k)
		}
		b, _ := json.Marshal(s)
		return s, s, string(b)
	case leafTypes[5], leafTypes[6]:
		u := []uint64{0, 1, 8080, 1 << 40, 18446744073709551615}[k%5]
		if u < 1<<50 {
			u += uint64(k/5) * 100
		}
		s := strconv.FormatUint(u, 10)
		if t == leafTypes[5] {
			return uint(u), s, s
		}
		return u, s, s
	}
	d := durVals[k%len(durVals)] + time.Duration(k/len(durVals))*time.Second
	return d, d.String(), d.String()
}

// bad is a text that is no value of the type; "" if there is none.
func bad(t reflect.Type, n int64) (string, bool) {
	k := int(n)
	switch t {
	case leafTypes[0]:
		return []string{"yes", "2", "tru", "on"}[k%4], true
	case leafTypes[1]:
		return []string{"1..2", "abc", "1,5"}[k%3], true
	case leafTypes[2], leafTypes[3]:
		return []string{"12x", "1.5", "99999999999999999999", "abc", "1 "}[k%5], true
	case leafTypes[4]:
		return "", false
	case leafTypes[5], leafTypes[6]:
		return []string{"-1", "99999999999999999999", "x", "1.0"}[k%4], true
	}
	return []string{"5", "5 parsecs", "1h2", "x"}[k%4], true
}

// ---- one start ------------------------------------------------------------------------

type start struct {
	leaves []leaf
	def    map[int]int64
	defPtr map[int]bool
	env    map[int]string
	envV   map[int]interface{}
	flags  []string
	flagV  map[int]interface{}
	yml    map[int]string
	nulls  map[string]string
	badEnv bool
	badArg bool
	noFile bool
	file   *rt.SimFile // fault of the file
	trail  bool
}

func newStart(ls []leaf) *start {
	return &start{leaves: ls, def: map[int]int64{}, defPtr: map[int]bool{}, env: map[int]string{}, envV: map[int]interface{}{}, flagV: map[int]interface{}{}, yml: map[int]string{}, nulls: map[string]string{}}
}

// render writes the yaml file.
func (s *start) render(yml map[int]string, flow bool) string {
	type node struct {
		keys []string
		sub  map[string]*node
		text string
	}
	root := &node{sub: map[string]*node{}}
	put := func(keys []string, text string) {
		n := root
		for _, k := range keys {
			if n.sub == nil {
				return
			}
			m := n.sub[k]
			if m == nil {
				m = &node{sub: map[string]*node{}}
				n.sub[k] = m
				n.keys = append(n.keys, k)
			}
			n = m
		}
		n.sub, n.text = nil, text
	}
	for i := range s.leaves {
		if t, ok := yml[i]; ok {
			put(s.leaves[i].ykeys, t)
		}
	}
	for i := range s.leaves { // in a fixed order
		y := s.leaves[i].ykeys
		for d := 1; d <= len(y); d++ {
			k := strings.Join(y[:d], "/")
			t, ok := s.nulls[k]
			if !ok {
				continue
			}
			used := false
			n := root
			for _, e := range y[:d] {
				if n == nil || n.sub == nil {
					break
				}
				n = n.sub[e]
				used = n != nil
			}
			if !used {
				put(y[:d], t)
			}
		}
	}
	var sb strings.Builder
	var wr func(n *node, ind string)
	wr = func(n *node, ind string) {
		for i, k := range n.keys {
			c := n.sub[k]
			if flow {
				if i > 0 {
					sb.WriteString(", ")
				}
				sb.WriteString(k + ": ")
				if c.sub == nil {
					t := c.text
					if t == "" {
						t = "null"
					}
					sb.WriteString(t)
				} else {
					sb.WriteString("{")
					wr(c, "")
					sb.WriteString("}")
				}
				continue
			}
			sb.WriteString(ind + k + ":")
			if c.sub == nil {
				if c.text != "" {
					sb.WriteString(" " + c.text)
				}
				sb.WriteString("\n")
			} else {
				sb.WriteString("\n")
				wr(c, ind+"  ")
			}
		}
	}
	if flow {
		sb.WriteString("{")
		wr(root, "")
		sb.WriteString("}\n")
	} else {
		sb.WriteString("# configuration\n")
		wr(root, "")
		sb.WriteString("unknownkey: 1\n")
	}
	return sb.String()
}

// fromFile says what a file gives: values per leaf, or that it must be refused.
func fromFile(ls []leaf, f *rt.SimFile) (vals map[int]interface{}, refuse string) {
	if f == nil {
		return nil, "no such file"
	}
	if f.Err != nil {
		return nil, f.Err.Error()
	}
	if f.Cut > 0 && f.Cut-1 <= len(f.Data) {
		return nil, "read error"
	}
	var doc yaml.Node
	if err := yaml.Unmarshal(f.Data, &doc); err != nil {
		return nil, err.Error()
	}
	vals = map[int]interface{}{}
	if doc.Kind == 0 {
		return vals, ""
	}
	for i, l := range ls {
		n := doc.Content[0]
		found := true
		for _, k := range l.ykeys {
			if n.Kind == yaml.ScalarNode && n.Tag == "!!null" {
				found = false
				break
			}
			if n.Kind != yaml.MappingNode {
				return nil, fmt.Sprintf("%s is no section", k)
			}
			var m *yaml.Node
			for j := 0; j+1 < len(n.Content); j += 2 {
				if n.Content[j].Value == k {
					m = n.Content[j+1]
				}
			}
			if m == nil {
				found = false
				break
			}
			n = m
		}
		if !found || n.Kind == yaml.ScalarNode && n.Tag == "!!null" {
			continue
		}
		p := reflect.New(l.t)
		if err := n.Decode(p.Interface()); err != nil {
			return nil, err.Error()
		}
		vals[i] = p.Elem().Interface()
	}
	return vals, ""
}

const confPath = "/etc/app/conf.yaml"

func genConf(r *hk.Rng) *hk.Plan {
	sh := 0
	if r.P(1, 2) {
		sh = r.N(3)
	} else {
		sh = 3 + r.N(nShapes-3)
	}
	nl := len(leavesOf(shapeOf(sh), nil, nil, nil))
	p := &hk.Plan{Cfg: map[string]int64{"shape": int64(sh), "flow": int64(r.N(4) / 3), "cname": int64(r.N(3))}}
	var ops []hk.Op
	lf := func() int64 { return int64(r.N(nl)) }
	v := func() int64 { return int64(r.N(40)) }
	for s, n := 0, r.R(1, 3); s < n; s++ {
		for i, m := 0, r.N(nl+1); i < m; i++ {
			ops = append(ops, hk.Op{K: "def", A: lf(), B: v()})
		}
		for i, m := 0, r.N(nl+2); i < m; i++ {
			ops = append(ops, hk.Op{K: "yaml", A: lf(), B: v()})
		}
		for i, m := 0, r.N(nl+1); i < m; i++ {
			ops = append(ops, hk.Op{K: "env", A: lf(), B: v()})
		}
		for i, m := 0, r.N(nl+1); i < m; i++ {
			ops = append(ops, hk.Op{K: "flag", A: lf(), B: v(), C: int64(r.N(4))})
		}
		if r.P(1, 3) {
			for i, m := 0, r.R(1, 2); i < m; i++ {
				ops = append(ops, hk.Op{K: "null", A: lf(), B: int64(r.R(1, 4)), C: int64(r.N(3))})
			}
		}
		switch r.N(16) {
		case 0:
			ops = append(ops, hk.Op{K: "badenv", A: lf(), B: v()})
		case 1:
			ops = append(ops, hk.Op{K: "badflag", A: lf(), B: v(), C: int64(r.N(4))})
		case 2:
			ops = append(ops, hk.Op{K: "badyaml", A: lf(), B: v()})
		case 3, 4:
			ops = append(ops, hk.Op{K: "torn", A: r.R64(0, 200)})
		case 5:
			ops = append(ops, hk.Op{K: "cut", A: r.R64(0, 60)})
		case 6:
			ops = append(ops, hk.Op{K: "ferr", A: int64(r.N(4))})
		case 7:
			ops = append(ops, hk.Op{K: "nofile"})
		case 8:
			ops = append(ops, hk.Op{K: "junk", A: int64(r.N(6))})
		}
		if r.P(1, 6) {
			ops = append(ops, hk.Op{K: "trail", A: int64(r.N(2))})
		}
		ops = append(ops, hk.Op{K: "start"})
	}
	p.Ops = append(p.Ops, ops)
	var ed []hk.Op
	if r.P(1, 3) {
		for i, m := 0, r.R(1, 6); i < m; i++ {
			ed = append(ed, hk.Op{K: r.PickS("replace", "replace", "rewrite"), A: lf(), B: v()})
		}
	}
	p.Ops = append(p.Ops, ed)
	p.Sim = hk.GenSim(r, 300, false, 0)
	return p
}

type version struct {
	from int
	f    *rt.SimFile
}

func runConf(p *hk.Plan, x *hk.X) {
	sh := shapeOf(p.I("shape"))
	ls := leavesOf(sh, nil, nil, nil)
	cname := []string{"c", "conf-file", ""}[p.I("cname")]
	devnull, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	oOut, oErr, oArgs, oCmd := os.Stdout, os.Stderr, os.Args, flag.CommandLine
	defer func() {
		os.Stdout, os.Stderr, os.Args, flag.CommandLine = oOut, oErr, oArgs, oCmd
		rt.SetProc(nil)
		devnull.Close()
	}()
	os.Stdout, os.Stderr = devnull, devnull
	proc := &rt.Proc{Env: map[string]string{}, Files: map[string]*rt.SimFile{}}
	rt.SetProc(proc)
	var vers []version
	setFile := func(f *rt.SimFile) {
		if f == nil {
			delete(proc.Files, confPath)
		} else {
			proc.Files[confPath] = f
		}
		vers = append(vers, version{rt.Rec("file", 0, 0, "", nil), f})
	}
	var cur *start // whose file is in place
	x.Thread("editor", func() {
		if len(p.Ops) < 2 {
			return
		}
		for _, op := range p.Ops[1] {
			rt.YH()
			rt.Sleep(1) // only while a start is going on or in between, whatever comes
			s := cur
			if s == nil || s.file != nil {
				continue
			}
			l := int(op.A) % len(ls)
			_, _, yt := val(ls[l].t, op.B)
			s.yml[l] = yt
			b := []byte(s.render(s.yml, p.C("flow") == 1))
			if op.K == "rewrite" {
				// truncated, then written: a reader may see an incomplete file
				setFile(&rt.SimFile{Data: b[:int(op.B)*len(b)/41]})
				x.Fault("file_torn_write")
				rt.YH()
				rt.YH()
			}
			setFile(&rt.SimFile{Data: b})
			x.Probe("file replaced under way")
		}
	})
	x.Thread("main", func() {
		s := newStart(ls)
		for _, op := range p.Ops[0] {
			l := int(op.A) % len(ls)
			lf := ls[l]
			switch op.K {
			case "def":
				s.def[l] = op.B
			case "yaml":
				_, _, s.yml[l] = val(lf.t, op.B)
			case "badyaml":
				if t, ok := bad(lf.t, op.B); ok {
					s.yml[l] = t
				} else {
					s.yml[l] = "[1, 2]"
				}
				x.Fault("file_invalid_value")
			case "null":
				y := lf.ykeys
				if d := int(op.B); d < len(y) {
					y = y[:d]
				}
				s.nulls[strings.Join(y, "/")] = []string{"", "null", "~"}[op.C%3]
			case "env":
				v, t, _ := val(lf.t, op.B)
				s.env[l], s.envV[l] = t, v
			case "badenv":
				if t, ok := bad(lf.t, op.B); ok {
					s.env[l] = t
					s.badEnv = true
					x.Fault("env_invalid_value")
				}
			case "flag", "badflag":
				v, t, _ := val(lf.t, op.B)
				if op.K == "badflag" {
					b, ok := bad(lf.t, op.B)
					if !ok {
						s.flags = append(s.flags, "-no-such-flag")
						s.badArg = true
						x.Fault("unknown_flag")
						continue
					}
					t = b
					s.badArg = true
					x.Fault("flag_invalid_value")
				}
				n := kebab(lf.path, "-", false)
				switch {
				case lf.t == leafTypes[0] && v == true && op.K == "flag" && op.C%2 == 0:
					s.flags = append(s.flags, "-"+n)
				case lf.t == leafTypes[0] || op.C == 0:
					s.flags = append(s.flags, "-"+n+"="+t)
				case op.C == 1:
					s.flags = append(s.flags, "--"+n+"="+t)
				default:
					s.flags = append(s.flags, "-"+n, t)
				}
				s.flagV[l] = v
			case "torn":
				b := []byte(s.render(s.yml, p.C("flow") == 1))
				if k := int(op.A); k < len(b) {
					b = b[:k]
				}
				s.file = &rt.SimFile{Data: b}
				x.Fault("file_torn_write")
			case "cut":
				b := []byte(s.render(s.yml, p.C("flow") == 1))
				s.file = &rt.SimFile{Data: b, Cut: 1 + int(op.A)%(len(b)+1)}
				x.Fault("file_read_error")
			case "ferr":
				s.file = &rt.SimFile{Err: []error{syscall.EACCES, syscall.EMFILE, syscall.ENOENT, syscall.EIO}[op.A%4]}
				x.Fault("file_open_error")
			case "junk":
				s.file = &rt.SimFile{Data: []byte([]string{"", "\x00\x01\x02", "just text", "- a\n- b\n", "a: [", "# nothing\n"}[op.A%6])}
				x.Fault("file_junk")
			case "nofile":
				s.noFile = true
			case "trail":
				s.trail = true
			case "start":
				s.run(p, x, sh, cname, proc, setFile, &vers, &cur)
				if x.Failed() {
					return
				}
				s = newStart(ls)
			}
		}
	})
	x.Join()
}

func (s *start) run(p *hk.Plan, x *hk.X, sh reflect.Type, cname string, proc *rt.Proc, setFile func(*rt.SimFile), vers *[]version, cur **start) {
	ls := s.leaves
	proc.Env = map[string]string{"PATH": "/bin", "HOST": "elsewhere.example", "C": "/etc/passwd", "UNRELATED_HOST": "x"}
	for i := range ls {
		delete(proc.Env, kebab(ls[i].path, "_", true))
	}
	for i, t := range s.env {
		proc.Env[kebab(ls[i].path, "_", true)] = t
	}
	f := s.file
	if f == nil {
		f = &rt.SimFile{Data: []byte(s.render(s.yml, p.C("flow") == 1))}
	}
	args := []string{"app"}
	useFile := cname != "" && !s.noFile && (len(s.yml) > 0 || len(s.nulls) > 0 || s.file != nil)
	if useFile {
		args = append(args, "-"+cname, confPath)
	}
	args = append(args, s.flags...)
	if s.trail {
		args = append(args, "--", "positional")
	}
	setFile(f)
	*cur = s
	from := len(*vers) - 1
	os.Args = args
	flag.CommandLine = flag.NewFlagSet("app", flag.PanicOnError)
	flag.CommandLine.SetOutput(io.Discard)
	cfg := reflect.New(sh)
	for i := range ls {
		if n, ok := s.def[i]; ok {
			v, _, _ := val(ls[i].t, n)
			t, _ := at(cfg.Elem(), ls[i].idx, true)
			t.Set(reflect.ValueOf(v))
		}
	}
	what := fmt.Sprintf("start %v env %v", args, s.envText())
	rt.Rec("start", 0, 0, what, nil)
	reads := proc.Reads
	exit, code := false, 0
	pan := hk.Catch(func() { conf.Load(cfg.Interface(), cname) })
	if !rt.On() {
		return
	}
	to := len(*vers)
	*cur = nil
	switch e := pan.(type) {
	case nil:
	case rt.Exit:
		exit, code = true, e.Code
	case error:
		// the flag package ends the process on a bad command line; any other error is a crash
		if strings.Contains(e.Error(), "runtime error") || !s.badArg {
			x.Fail("panic", "%s panicked: %v", what, e)
			return
		}
		exit, code = true, 2
	default:
		x.Fail("panic", "%s panicked: %v", what, e)
		return
	}
	rt.Rec("loaded", b2i(exit), int64(code), "", nil)
	if exit && code == 0 {
		x.Fail("exit-status", "%s: ended with status 0", what)
		return
	}
	if useFile && !exit && proc.Reads == reads {
		x.Fail("file-ignored", "%s: did not read the file", what)
		return
	}
	var reason string
	for k := from; k < to; k++ {
		reason = s.explain(x, cfg.Elem(), exit, useFile, (*vers)[k].f)
		if reason == "" {
			break
		}
	}
	if reason != "" {
		ft := ""
		if useFile {
			ft = fmt.Sprintf(" file %q", (*vers)[to-1].f.Data)
		}
		x.Fail("wrong-config", "%s%s: %s", what, ft, reason)
	}
	if exit {
		x.Probe("start refused")
	} else {
		x.Probe("start loaded")
	}
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func (s *start) envText() []string {
	var out []string
	for i := range s.leaves {
		if t, ok := s.env[i]; ok {
			out = append(out, kebab(s.leaves[i].path, "_", true)+"="+strconv.Quote(t))
		}
	}
	return out
}

// explain says why the outcome is not what this content of the file gives ("" if it is).
func (s *start) explain(x *hk.X, cfg reflect.Value, exit, useFile bool, f *rt.SimFile) string {
	refuse := ""
	var fv map[int]interface{}
	if s.badArg {
		refuse = "a bad command line"
	} else if s.badEnv {
		refuse = "a bad environment variable"
	}
	if useFile {
		v, why := fromFile(s.leaves, f)
		if why != "" {
			refuse = "file: " + why
		}
		fv = v
	}
	if exit != (refuse != "") {
		if exit {
			return "the process ended although every source was fine"
		}
		return "the process runs although a source is no good (" + refuse + ")"
	}
	if exit {
		return ""
	}
	for i, l := range s.leaves {
		var want interface{} = reflect.Zero(l.t).Interface()
		src := "default"
		if n, ok := s.def[i]; ok {
			want, _, _ = val(l.t, n)
		}
		if v, ok := fv[i]; ok {
			want, src = v, "file"
		}
		if _, ok := s.env[i]; ok {
			want, src = s.envV[i], "environment"
		}
		if v, ok := s.flagV[i]; ok {
			want, src = v, "flag"
		}
		g, ok := at(cfg, l.idx, false)
		if !ok {
			return fmt.Sprintf("%s is behind a nil pointer, expected %v from the %s", strings.Join(l.path, "."), want, src)
		}
		if g.Interface() != want {
			return fmt.Sprintf("%s is %#v, expected %#v from the %s", strings.Join(l.path, "."), g.Interface(), want, src)
		}
		x.Probe("value from " + src)
	}
	return ""
}
