//go:build go1.21

// Package sredis is a simulated Redis server (RESP2, expiring keys, Lua scripts)
// and a simulated network between it and its clients, driven by the simulator.
package sredis

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

// ---- lexer -------------------------------------------------------------------

type tok struct {
	k    byte // 'n' name, 'k' keyword, '#' number, 's' string, 'o' operator, 'e' end
	s    string
	n    float64
	line int
}

var luaKw = map[string]bool{"and": true, "break": true, "do": true, "else": true, "elseif": true, "end": true, "false": true, "for": true,
	"function": true, "if": true, "in": true, "local": true, "nil": true, "not": true, "or": true, "repeat": true, "return": true, "then": true,
	"true": true, "until": true, "while": true}

type luaErr struct{ msg string }

func lfail(f string, a ...interface{}) { panic(luaErr{fmt.Sprintf(f, a...)}) }

func isAl(c byte) bool { return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func isDg(c byte) bool { return c >= '0' && c <= '9' }

func longBracket(src string, i int) (string, int, bool) {
	if src[i] != '[' {
		return "", i, false
	}
	j := i + 1
	lv := 0
	for j < len(src) && src[j] == '=' {
		lv++
		j++
	}
	if j >= len(src) || src[j] != '[' {
		return "", i, false
	}
	end := "]" + strings.Repeat("=", lv) + "]"
	k := strings.Index(src[j+1:], end)
	if k < 0 {
		lfail("unfinished long string")
	}
	t := src[j+1 : j+1+k]
	if strings.HasPrefix(t, "\n") {
		t = t[1:]
	}
	return t, j + 1 + k + len(end), true
}

func lex(src string) []tok {
	var out []tok
	line := 1
	for i := 0; i < len(src); {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(src[i:], "--"):
			if i+2 < len(src) && src[i+2] == '[' {
				if t, j, ok := longBracket(src, i+2); ok {
					line += strings.Count(t, "\n")
					i = j
					continue
				}
			}
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case isAl(c):
			j := i
			for j < len(src) && (isAl(src[j]) || isDg(src[j])) {
				j++
			}
			w := src[i:j]
			k := byte('n')
			if luaKw[w] {
				k = 'k'
			}
			out = append(out, tok{k, w, 0, line})
			i = j
		case isDg(c) || c == '.' && i+1 < len(src) && isDg(src[i+1]):
			j := i
			if strings.HasPrefix(src[i:], "0x") || strings.HasPrefix(src[i:], "0X") {
				j += 2
				for j < len(src) && (isDg(src[j]) || isAl(src[j])) {
					j++
				}
				v, err := strconv.ParseUint(src[i+2:j], 16, 64)
				if err != nil {
					lfail("malformed number near '%s'", src[i:j])
				}
				out = append(out, tok{'#', src[i:j], float64(v), line})
				i = j
				continue
			}
			for j < len(src) && (isDg(src[j]) || src[j] == '.' || src[j] == 'e' || src[j] == 'E' || (src[j] == '-' || src[j] == '+') && (src[j-1] == 'e' || src[j-1] == 'E')) {
				j++
			}
			v, err := strconv.ParseFloat(src[i:j], 64)
			if err != nil {
				lfail("malformed number near '%s'", src[i:j])
			}
			out = append(out, tok{'#', src[i:j], v, line})
			i = j
		case c == '"' || c == '\'':
			var sb strings.Builder
			j := i + 1
			for {
				if j >= len(src) || src[j] == '\n' {
					lfail("unfinished string")
				}
				if src[j] == c {
					break
				}
				if src[j] == '\\' && j+1 < len(src) {
					j++
					switch src[j] {
					case 'n':
						sb.WriteByte('\n')
					case 't':
						sb.WriteByte('\t')
					case 'r':
						sb.WriteByte('\r')
					case 'a':
						sb.WriteByte(7)
					case '\n':
						sb.WriteByte('\n')
						line++
					default:
						if isDg(src[j]) {
							n, k := 0, 0
							for k < 3 && j+k < len(src) && isDg(src[j+k]) {
								n = n*10 + int(src[j+k]-'0')
								k++
							}
							sb.WriteByte(byte(n))
							j += k - 1
						} else {
							sb.WriteByte(src[j])
						}
					}
					j++
					continue
				}
				sb.WriteByte(src[j])
				j++
			}
			out = append(out, tok{'s', sb.String(), 0, line})
			i = j + 1
		default:
			if c == '[' {
				if t, j, ok := longBracket(src, i); ok {
					out = append(out, tok{'s', t, 0, line})
					line += strings.Count(t, "\n")
					i = j
					continue
				}
			}
			op := ""
			for _, o := range []string{"...", "..", "==", "~=", "<=", ">=", "+", "-", "*", "/", "%", "^", "#", "<", ">", "=", "(", ")", "{", "}", "[", "]", ";", ":", ",", "."} {
				if strings.HasPrefix(src[i:], o) {
					op = o
					break
				}
			}
			if op == "" {
				lfail("unexpected symbol near '%c'", c)
			}
			out = append(out, tok{'o', op, 0, line})
			i += len(op)
		}
	}
	return append(out, tok{'e', "<eof>", 0, line})
}

// ---- parser ------------------------------------------------------------------

type lval interface{} // nil, bool, float64, string, *ltable, *lfunc

type ltable struct {
	arr []lval // 1..n
	m   map[lval]lval
}

type lfunc struct {
	name   string
	native func(in *interp, args []lval) []lval
	params []string
	vararg bool
	body   []lstmt
	env    *lenv
}

type lenv struct {
	names  []string
	vals   []*lval
	parent *lenv
}

func (e *lenv) find(n string) *lval {
	for ; e != nil; e = e.parent {
		for i := len(e.names) - 1; i >= 0; i-- {
			if e.names[i] == n {
				return e.vals[i]
			}
		}
	}
	return nil
}
func (e *lenv) def(n string, v lval) {
	c := v
	e.names = append(e.names, n)
	e.vals = append(e.vals, &c)
}

type lexpr struct {
	op   string // const name index call method func table vararg un bin and or paren
	val  lval
	name string
	a, b *lexpr
	list []*lexpr
	keys []*lexpr
	fn   *lfunc
	line int
}

type lstmt struct {
	op     string // local assign call do while repeat if fornum forin return break localfn function
	names  []string
	lhs    []*lexpr
	rhs    []*lexpr
	body   []lstmt
	conds  []*lexpr
	blocks [][]lstmt
	els    []lstmt
	fn     *lfunc
	line   int
}

type lparser struct {
	t []tok
	p int
}

func (p *lparser) cur() tok { return p.t[p.p] }
func (p *lparser) is(s string) bool {
	c := p.cur()
	return (c.k == 'o' || c.k == 'k') && c.s == s
}
func (p *lparser) acc(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *lparser) want(s string) {
	if !p.acc(s) {
		lfail("user_script:%d: '%s' expected near '%s'", p.cur().line, s, p.cur().s)
	}
}
func (p *lparser) name() string {
	c := p.cur()
	if c.k != 'n' {
		lfail("user_script:%d: <name> expected near '%s'", c.line, c.s)
	}
	p.p++
	return c.s
}

func (p *lparser) blockEnd() bool {
	return p.cur().k == 'e' || p.is("end") || p.is("else") || p.is("elseif") || p.is("until")
}

func (p *lparser) block() []lstmt {
	var out []lstmt
	for !p.blockEnd() {
		if p.acc(";") {
			continue
		}
		line := p.cur().line
		if p.acc("return") {
			s := lstmt{op: "return", line: line}
			if !p.blockEnd() && !p.is(";") {
				s.rhs = p.exprs()
			}
			p.acc(";")
			out = append(out, s)
			if !p.blockEnd() {
				lfail("user_script:%d: '<eof>' expected near '%s'", p.cur().line, p.cur().s)
			}
			return out
		}
		if p.acc("break") {
			out = append(out, lstmt{op: "break", line: line})
			continue
		}
		out = append(out, p.stmt())
	}
	return out
}

func (p *lparser) funcBody(name string) *lfunc {
	f := &lfunc{name: name}
	p.want("(")
	for !p.is(")") {
		if p.acc("...") {
			f.vararg = true
			break
		}
		f.params = append(f.params, p.name())
		if !p.acc(",") {
			break
		}
	}
	p.want(")")
	f.body = p.block()
	p.want("end")
	return f
}

func (p *lparser) stmt() lstmt {
	line := p.cur().line
	switch {
	case p.acc("local"):
		if p.acc("function") {
			n := p.name()
			return lstmt{op: "localfn", names: []string{n}, fn: p.funcBody(n), line: line}
		}
		s := lstmt{op: "local", line: line}
		s.names = append(s.names, p.name())
		for p.acc(",") {
			s.names = append(s.names, p.name())
		}
		if p.acc("=") {
			s.rhs = p.exprs()
		}
		return s
	case p.acc("if"):
		s := lstmt{op: "if", line: line}
		s.conds = append(s.conds, p.expr(0))
		p.want("then")
		s.blocks = append(s.blocks, p.block())
		for {
			if p.acc("elseif") {
				s.conds = append(s.conds, p.expr(0))
				p.want("then")
				s.blocks = append(s.blocks, p.block())
				continue
			}
			if p.acc("else") {
				s.els = p.block()
			}
			p.want("end")
			return s
		}
	case p.acc("while"):
		s := lstmt{op: "while", line: line}
		s.conds = []*lexpr{p.expr(0)}
		p.want("do")
		s.body = p.block()
		p.want("end")
		return s
	case p.acc("do"):
		s := lstmt{op: "do", line: line, body: p.block()}
		p.want("end")
		return s
	case p.acc("repeat"):
		s := lstmt{op: "repeat", line: line, body: p.block()}
		p.want("until")
		s.conds = []*lexpr{p.expr(0)}
		return s
	case p.acc("for"):
		s := lstmt{line: line}
		s.names = append(s.names, p.name())
		if p.acc("=") {
			s.op = "fornum"
			s.rhs = p.exprs()
		} else {
			s.op = "forin"
			for p.acc(",") {
				s.names = append(s.names, p.name())
			}
			p.want("in")
			s.rhs = p.exprs()
		}
		p.want("do")
		s.body = p.block()
		p.want("end")
		return s
	case p.acc("function"):
		n := p.name()
		e := &lexpr{op: "name", name: n, line: line}
		for p.acc(".") {
			e = &lexpr{op: "index", a: e, b: &lexpr{op: "const", val: p.name()}, line: line}
		}
		return lstmt{op: "assign", lhs: []*lexpr{e}, rhs: []*lexpr{{op: "func", fn: p.funcBody(n), line: line}}, line: line}
	}
	e := p.suffixed()
	if p.is("=") || p.is(",") {
		s := lstmt{op: "assign", lhs: []*lexpr{e}, line: line}
		for p.acc(",") {
			s.lhs = append(s.lhs, p.suffixed())
		}
		p.want("=")
		s.rhs = p.exprs()
		for _, l := range s.lhs {
			if l.op != "name" && l.op != "index" {
				lfail("user_script:%d: syntax error near '='", line)
			}
		}
		return s
	}
	if e.op != "call" && e.op != "method" {
		lfail("user_script:%d: '=' expected near '%s'", line, p.cur().s)
	}
	return lstmt{op: "call", rhs: []*lexpr{e}, line: line}
}

func (p *lparser) exprs() []*lexpr {
	out := []*lexpr{p.expr(0)}
	for p.acc(",") {
		out = append(out, p.expr(0))
	}
	return out
}

var luaPrec = map[string][2]int{"or": {1, 1}, "and": {2, 2}, "<": {3, 3}, ">": {3, 3}, "<=": {3, 3}, ">=": {3, 3}, "~=": {3, 3}, "==": {3, 3},
	"..": {5, 4}, "+": {6, 6}, "-": {6, 6}, "*": {7, 7}, "/": {7, 7}, "%": {7, 7}, "^": {10, 9}}

func (p *lparser) expr(limit int) *lexpr {
	line := p.cur().line
	var l *lexpr
	if p.is("not") || p.is("-") || p.is("#") {
		op := p.cur().s
		p.p++
		l = &lexpr{op: "un", name: op, a: p.expr(8), line: line}
	} else {
		l = p.primary()
	}
	for {
		c := p.cur()
		if c.k != 'o' && c.k != 'k' {
			return l
		}
		pr, ok := luaPrec[c.s]
		if !ok || pr[0] <= limit {
			return l
		}
		p.p++
		r := p.expr(pr[1])
		op := "bin"
		if c.s == "and" || c.s == "or" {
			op = c.s
		}
		l = &lexpr{op: op, name: c.s, a: l, b: r, line: c.line}
	}
}

func (p *lparser) primary() *lexpr {
	c := p.cur()
	switch {
	case c.k == '#':
		p.p++
		return &lexpr{op: "const", val: c.n}
	case c.k == 's':
		p.p++
		return &lexpr{op: "const", val: c.s}
	case p.acc("nil"):
		return &lexpr{op: "const"}
	case p.acc("true"):
		return &lexpr{op: "const", val: true}
	case p.acc("false"):
		return &lexpr{op: "const", val: false}
	case p.acc("..."):
		return &lexpr{op: "vararg", line: c.line}
	case p.acc("function"):
		return &lexpr{op: "func", fn: p.funcBody("anonymous"), line: c.line}
	case p.is("{"):
		return p.table()
	}
	return p.suffixed()
}

func (p *lparser) table() *lexpr {
	e := &lexpr{op: "table", line: p.cur().line}
	p.want("{")
	for !p.is("}") {
		if p.acc("[") {
			k := p.expr(0)
			p.want("]")
			p.want("=")
			e.keys = append(e.keys, k)
			e.list = append(e.list, p.expr(0))
		} else if p.cur().k == 'n' && p.t[p.p+1].k == 'o' && p.t[p.p+1].s == "=" {
			k := p.name()
			p.want("=")
			e.keys = append(e.keys, &lexpr{op: "const", val: k})
			e.list = append(e.list, p.expr(0))
		} else {
			e.keys = append(e.keys, nil)
			e.list = append(e.list, p.expr(0))
		}
		if !p.acc(",") && !p.acc(";") {
			break
		}
	}
	p.want("}")
	return e
}

func (p *lparser) suffixed() *lexpr {
	c := p.cur()
	var e *lexpr
	if p.acc("(") {
		e = &lexpr{op: "paren", a: p.expr(0), line: c.line}
		p.want(")")
	} else {
		e = &lexpr{op: "name", name: p.name(), line: c.line}
	}
	for {
		c := p.cur()
		switch {
		case p.acc("."):
			e = &lexpr{op: "index", a: e, b: &lexpr{op: "const", val: p.name()}, line: c.line}
		case p.acc("["):
			k := p.expr(0)
			p.want("]")
			e = &lexpr{op: "index", a: e, b: k, line: c.line}
		case p.acc(":"):
			n := p.name()
			e = &lexpr{op: "method", a: e, name: n, list: p.args(), line: c.line}
		case p.is("(") || p.is("{") || c.k == 's':
			e = &lexpr{op: "call", a: e, list: p.args(), line: c.line}
		default:
			return e
		}
	}
}

func (p *lparser) args() []*lexpr {
	c := p.cur()
	if c.k == 's' {
		p.p++
		return []*lexpr{{op: "const", val: c.s}}
	}
	if p.is("{") {
		return []*lexpr{p.table()}
	}
	p.want("(")
	var out []*lexpr
	if !p.is(")") {
		out = p.exprs()
	}
	p.want(")")
	return out
}

// compiled scripts are a pure function of their text
var luaCache = map[string]*lfunc{}
var luaCacheErr = map[string]string{}

func compileLua(src string) (f *lfunc, err string) {
	if f, ok := luaCache[src]; ok {
		return f, luaCacheErr[src]
	}
	defer func() {
		if r := recover(); r != nil {
			le, ok := r.(luaErr)
			if !ok {
				panic(r)
			}
			f, err = nil, le.msg
		}
		luaCache[src], luaCacheErr[src] = f, err
	}()
	p := &lparser{t: lex(src)}
	b := p.block()
	if p.cur().k != 'e' {
		lfail("user_script:%d: '<eof>' expected near '%s'", p.cur().line, p.cur().s)
	}
	return &lfunc{name: "main", vararg: true, body: b}, ""
}

// ---- interpreter ---------------------------------------------------------------

type interp struct {
	globals map[string]lval
	steps   int
	call    func(args []string) reply
}

type lctl int

const (
	cNone lctl = iota
	cBreak
	cReturn
)

func truthy(v lval) bool {
	if v == nil {
		return false
	}
	if b, ok := v.(bool); ok {
		return b
	}
	return true
}

func ltype(v lval) string {
	switch v.(type) {
	case nil:
		return "nil"
	case bool:
		return "boolean"
	case float64:
		return "number"
	case string:
		return "string"
	case *ltable:
		return "table"
	}
	return "function"
}

func fmtNum(f float64) string { return fmtG(f, 14) }

func fmtG(f float64, p int) string {
	if f == math.Trunc(f) && math.Abs(f) < 1e15 {
		s := strconv.FormatFloat(f, 'f', -1, 64)
		if len(strings.TrimLeft(s, "-")) <= p {
			return s
		}
	}
	s := strconv.FormatFloat(f, 'g', p, 64)
	if i := strings.IndexByte(s, 'e'); i >= 0 {
		m, e := s[:i], s[i:]
		if strings.Contains(m, ".") {
			m = strings.TrimRight(strings.TrimRight(m, "0"), ".")
		}
		return m + e
	}
	if strings.Contains(s, ".") {
		s = strings.TrimRight(strings.TrimRight(s, "0"), ".")
	}
	return s
}

func lstr(v lval) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case bool:
		return strconv.FormatBool(x)
	case float64:
		return fmtNum(x)
	case string:
		return x
	}
	return ltype(v) + ": 0x0"
}

func lnum(v lval) (float64, bool) {
	switch x := v.(type) {
	case float64:
		return x, true
	case string:
		t := strings.TrimSpace(x)
		if strings.HasPrefix(t, "0x") || strings.HasPrefix(t, "0X") {
			u, err := strconv.ParseUint(t[2:], 16, 64)
			return float64(u), err == nil
		}
		if t == "" || strings.ContainsAny(t, "_pPxX") || strings.Contains(strings.ToLower(t), "inf") || strings.Contains(strings.ToLower(t), "nan") {
			return 0, false
		}
		f, err := strconv.ParseFloat(t, 64)
		return f, err == nil
	}
	return 0, false
}

func (t *ltable) get(k lval) lval {
	if f, ok := k.(float64); ok {
		if i := int(f); float64(i) == f && i >= 1 && i <= len(t.arr) {
			return t.arr[i-1]
		}
	}
	if t.m == nil {
		return nil
	}
	return t.m[k]
}

func (t *ltable) set(k, v lval) {
	if k == nil {
		lfail("table index is nil")
	}
	if f, ok := k.(float64); ok {
		i := int(f)
		if float64(i) == f && i >= 1 {
			switch {
			case i <= len(t.arr):
				t.arr[i-1] = v
				for len(t.arr) > 0 && t.arr[len(t.arr)-1] == nil {
					t.arr = t.arr[:len(t.arr)-1]
				}
				return
			case i == len(t.arr)+1 && v != nil:
				t.arr = append(t.arr, v)
				for t.m != nil {
					n, ok := t.m[float64(len(t.arr)+1)]
					if !ok {
						break
					}
					delete(t.m, float64(len(t.arr)+1))
					t.arr = append(t.arr, n)
				}
				return
			}
		}
	}
	if v == nil {
		delete(t.m, k)
		return
	}
	if t.m == nil {
		t.m = map[lval]lval{}
	}
	t.m[k] = v
}

func (in *interp) step(line int) {
	in.steps++
	if in.steps > 200000 {
		lfail("user_script:%d: script runs for ever", line)
	}
}

func (in *interp) run(f *lfunc, args []lval) []lval {
	env := &lenv{}
	_, r := in.exec(f.body, env, args)
	return r
}

func (in *interp) callv(fv lval, args []lval, line int, what string) []lval {
	f, ok := fv.(*lfunc)
	if !ok {
		lfail("user_script:%d: attempt to call %s (a %s value)", line, what, ltype(fv))
	}
	in.step(line)
	if f.native != nil {
		return f.native(in, args)
	}
	env := &lenv{parent: f.env}
	for i, n := range f.params {
		var v lval
		if i < len(args) {
			v = args[i]
		}
		env.def(n, v)
	}
	var va []lval
	if f.vararg && len(args) > len(f.params) {
		va = args[len(f.params):]
	}
	_, r := in.exec(f.body, env, va)
	return r
}

func (in *interp) exec(body []lstmt, env *lenv, va []lval) (lctl, []lval) {
	for i := range body {
		s := &body[i]
		in.step(s.line)
		switch s.op {
		case "local":
			vs := in.list(s.rhs, env, va)
			for i, n := range s.names {
				var v lval
				if i < len(vs) {
					v = vs[i]
				}
				env.def(n, v)
			}
		case "localfn":
			env.def(s.names[0], nil)
			f := *s.fn
			f.env = env
			*env.find(s.names[0]) = &f
		case "assign":
			vs := in.list(s.rhs, env, va)
			for i, l := range s.lhs {
				var v lval
				if i < len(vs) {
					v = vs[i]
				}
				if l.op == "name" {
					if p := env.find(l.name); p != nil {
						*p = v
					} else {
						lfail("user_script:%d: Script attempted to create global variable '%s'", s.line, l.name)
					}
					continue
				}
				t, ok := in.eval(l.a, env, va).(*ltable)
				if !ok {
					lfail("user_script:%d: attempt to index a non-table value", s.line)
				}
				t.set(in.eval(l.b, env, va), v)
			}
		case "call":
			in.multi(s.rhs[0], env, va)
		case "do":
			if c, r := in.exec(s.body, &lenv{parent: env}, va); c != cNone {
				return c, r
			}
		case "while":
			for truthy(in.eval(s.conds[0], env, va)) {
				c, r := in.exec(s.body, &lenv{parent: env}, va)
				if c == cReturn {
					return c, r
				}
				if c == cBreak {
					break
				}
				in.step(s.line)
			}
		case "repeat":
			for {
				e := &lenv{parent: env}
				c, r := in.exec(s.body, e, va)
				if c == cReturn {
					return c, r
				}
				if c == cBreak || truthy(in.eval(s.conds[0], e, va)) {
					break
				}
				in.step(s.line)
			}
		case "if":
			done := false
			for i, c := range s.conds {
				if truthy(in.eval(c, env, va)) {
					if c, r := in.exec(s.blocks[i], &lenv{parent: env}, va); c != cNone {
						return c, r
					}
					done = true
					break
				}
			}
			if !done && s.els != nil {
				if c, r := in.exec(s.els, &lenv{parent: env}, va); c != cNone {
					return c, r
				}
			}
		case "fornum":
			vs := in.list(s.rhs, env, va)
			if len(vs) < 2 {
				lfail("user_script:%d: 'for' limit must be a number", s.line)
			}
			a, ok1 := lnum(vs[0])
			b, ok2 := lnum(vs[1])
			st := 1.0
			ok3 := true
			if len(vs) > 2 {
				st, ok3 = lnum(vs[2])
			}
			if !ok1 || !ok2 || !ok3 {
				lfail("user_script:%d: 'for' values must be numbers", s.line)
			}
			for x := a; st > 0 && x <= b || st <= 0 && x >= b; x += st {
				e := &lenv{parent: env}
				e.def(s.names[0], x)
				c, r := in.exec(s.body, e, va)
				if c == cReturn {
					return c, r
				}
				if c == cBreak {
					break
				}
				in.step(s.line)
			}
		case "forin":
			vs := in.list(s.rhs, env, va)
			for len(vs) < 3 {
				vs = append(vs, nil)
			}
			ctl := vs[2]
			for {
				rs := in.callv(vs[0], []lval{vs[1], ctl}, s.line, "the iterator")
				if len(rs) == 0 || rs[0] == nil {
					break
				}
				ctl = rs[0]
				e := &lenv{parent: env}
				for i, n := range s.names {
					var v lval
					if i < len(rs) {
						v = rs[i]
					}
					e.def(n, v)
				}
				c, r := in.exec(s.body, e, va)
				if c == cReturn {
					return c, r
				}
				if c == cBreak {
					break
				}
				in.step(s.line)
			}
		case "return":
			return cReturn, in.list(s.rhs, env, va)
		case "break":
			return cBreak, nil
		}
	}
	return cNone, nil
}

func (in *interp) list(es []*lexpr, env *lenv, va []lval) []lval {
	var out []lval
	for i, e := range es {
		if i == len(es)-1 {
			out = append(out, in.multi(e, env, va)...)
		} else {
			out = append(out, in.eval(e, env, va))
		}
	}
	return out
}

func (in *interp) multi(e *lexpr, env *lenv, va []lval) []lval {
	switch e.op {
	case "call":
		f := in.eval(e.a, env, va)
		w := "a value"
		if e.a.op == "name" {
			w = "global '" + e.a.name + "'"
		} else if e.a.op == "index" {
			w = "field '" + lstr(e.a.b.val) + "'"
		}
		return in.callv(f, in.list(e.list, env, va), e.line, w)
	case "method":
		o := in.eval(e.a, env, va)
		var f lval
		if _, ok := o.(string); ok {
			f = in.globals["string"].(*ltable).get(e.name)
		} else if t, ok := o.(*ltable); ok {
			f = t.get(e.name)
		} else {
			lfail("user_script:%d: attempt to index a %s value", e.line, ltype(o))
		}
		return in.callv(f, append([]lval{o}, in.list(e.list, env, va)...), e.line, "method '"+e.name+"'")
	case "vararg":
		return va
	}
	return []lval{in.eval(e, env, va)}
}

func first(v []lval) lval {
	if len(v) == 0 {
		return nil
	}
	return v[0]
}

func (in *interp) eval(e *lexpr, env *lenv, va []lval) lval {
	switch e.op {
	case "const":
		return e.val
	case "name":
		if p := env.find(e.name); p != nil {
			return *p
		}
		v, ok := in.globals[e.name]
		if !ok {
			lfail("user_script:%d: Script attempted to access nonexistent global variable '%s'", e.line, e.name)
		}
		return v
	case "index":
		o := in.eval(e.a, env, va)
		k := in.eval(e.b, env, va)
		if t, ok := o.(*ltable); ok {
			return t.get(k)
		}
		if _, ok := o.(string); ok {
			return in.globals["string"].(*ltable).get(k)
		}
		lfail("user_script:%d: attempt to index a %s value", e.line, ltype(o))
	case "call", "method", "vararg":
		return first(in.multi(e, env, va))
	case "paren":
		return in.eval(e.a, env, va)
	case "func":
		f := *e.fn
		f.env = env
		return &f
	case "and":
		l := in.eval(e.a, env, va)
		if !truthy(l) {
			return l
		}
		return in.eval(e.b, env, va)
	case "or":
		l := in.eval(e.a, env, va)
		if truthy(l) {
			return l
		}
		return in.eval(e.b, env, va)
	case "table":
		t := &ltable{}
		n := 1
		for i, x := range e.list {
			if e.keys[i] != nil {
				t.set(in.eval(e.keys[i], env, va), in.eval(x, env, va))
				continue
			}
			if i == len(e.list)-1 {
				for _, v := range in.multi(x, env, va) {
					t.putAt(n, v)
					n++
				}
				continue
			}
			t.putAt(n, in.eval(x, env, va))
			n++
		}
		return t
	case "un":
		v := in.eval(e.a, env, va)
		switch e.name {
		case "not":
			return !truthy(v)
		case "-":
			f, ok := lnum(v)
			if !ok {
				lfail("user_script:%d: attempt to perform arithmetic on a %s value", e.line, ltype(v))
			}
			return -f
		case "#":
			switch x := v.(type) {
			case string:
				return float64(len(x))
			case *ltable:
				return float64(len(x.arr))
			}
			lfail("user_script:%d: attempt to get length of a %s value", e.line, ltype(v))
		}
	case "bin":
		l := in.eval(e.a, env, va)
		r := in.eval(e.b, env, va)
		switch e.name {
		case "==":
			return l == r
		case "~=":
			return l != r
		case "..":
			if (ltype(l) != "string" && ltype(l) != "number") || (ltype(r) != "string" && ltype(r) != "number") {
				lfail("user_script:%d: attempt to concatenate a %s value", e.line, ltype(r))
			}
			return lstr(l) + lstr(r)
		case "<", ">", "<=", ">=":
			if ltype(l) != ltype(r) || ltype(l) != "number" && ltype(l) != "string" {
				lfail("user_script:%d: attempt to compare %s with %s", e.line, ltype(l), ltype(r))
			}
			if a, ok := l.(float64); ok {
				b := r.(float64)
				switch e.name {
				case "<":
					return a < b
				case ">":
					return a > b
				case "<=":
					return a <= b
				}
				return a >= b
			}
			a, b := l.(string), r.(string)
			switch e.name {
			case "<":
				return a < b
			case ">":
				return a > b
			case "<=":
				return a <= b
			}
			return a >= b
		}
		a, ok1 := lnum(l)
		b, ok2 := lnum(r)
		if !ok1 || !ok2 {
			bad := l
			if ok1 {
				bad = r
			}
			lfail("user_script:%d: attempt to perform arithmetic on a %s value", e.line, ltype(bad))
		}
		switch e.name {
		case "+":
			return a + b
		case "-":
			return a - b
		case "*":
			return a * b
		case "/":
			return a / b
		case "%":
			return a - math.Floor(a/b)*b
		case "^":
			return math.Pow(a, b)
		}
	}
	lfail("user_script:%d: cannot evaluate", e.line)
	return nil
}

func (t *ltable) putAt(n int, v lval) {
	if v == nil {
		return // a hole; later ones go to the map part
	}
	t.set(float64(n), v)
}

func nat(f func(in *interp, a []lval) []lval) *lfunc { return &lfunc{native: f} }

func one(v lval) []lval { return []lval{v} }

func numArg(a []lval, i int, fn string) float64 {
	if i >= len(a) {
		lfail("bad argument #%d to '%s' (number expected, got no value)", i+1, fn)
	}
	f, ok := lnum(a[i])
	if !ok {
		lfail("bad argument #%d to '%s' (number expected, got %s)", i+1, fn, ltype(a[i]))
	}
	return f
}

func tabArg(a []lval, i int, fn string) *ltable {
	if i < len(a) {
		if t, ok := a[i].(*ltable); ok {
			return t
		}
	}
	lfail("bad argument #%d to '%s' (table expected)", i+1, fn)
	return nil
}

func strArg(a []lval, i int, fn string) string {
	if i < len(a) {
		if s, ok := a[i].(string); ok {
			return s
		}
		if f, ok := a[i].(float64); ok {
			return fmtNum(f)
		}
	}
	lfail("bad argument #%d to '%s' (string expected)", i+1, fn)
	return ""
}

func mkTab(m map[string]func(in *interp, a []lval) []lval) *ltable {
	t := &ltable{m: map[lval]lval{}}
	for k, f := range m {
		t.m[k] = nat(f)
	}
	return t
}

var baseGlobals map[string]lval

func init() {
	mathf := func(n string, f func(float64) float64) func(in *interp, a []lval) []lval {
		return func(in *interp, a []lval) []lval { return one(f(numArg(a, 0, n))) }
	}
	fold := func(n string, f func(a, b float64) float64) func(in *interp, a []lval) []lval {
		return func(in *interp, a []lval) []lval {
			x := numArg(a, 0, n)
			for i := 1; i < len(a); i++ {
				x = f(x, numArg(a, i, n))
			}
			return one(x)
		}
	}
	m := mkTab(map[string]func(in *interp, a []lval) []lval{
		"max": fold("max", math.Max), "min": fold("min", math.Min), "floor": mathf("floor", math.Floor), "ceil": mathf("ceil", math.Ceil),
		"abs": mathf("abs", math.Abs), "sqrt": mathf("sqrt", math.Sqrt),
		"pow":  func(in *interp, a []lval) []lval { return one(math.Pow(numArg(a, 0, "pow"), numArg(a, 1, "pow"))) },
		"fmod": func(in *interp, a []lval) []lval { return one(math.Mod(numArg(a, 0, "fmod"), numArg(a, 1, "fmod"))) },
	})
	m.m["huge"] = math.Inf(1)
	tab := mkTab(map[string]func(in *interp, a []lval) []lval{
		"getn": func(in *interp, a []lval) []lval { return one(float64(len(tabArg(a, 0, "getn").arr))) },
		"insert": func(in *interp, a []lval) []lval {
			t := tabArg(a, 0, "insert")
			if len(a) == 2 {
				t.set(float64(len(t.arr)+1), a[1])
				return nil
			}
			p := int(numArg(a, 1, "insert"))
			if p < 1 || p > len(t.arr)+1 || len(a) < 3 {
				lfail("bad position to 'insert'")
			}
			t.arr = append(t.arr, nil)
			copy(t.arr[p:], t.arr[p-1:])
			t.arr[p-1] = a[2]
			return nil
		},
		"remove": func(in *interp, a []lval) []lval {
			t := tabArg(a, 0, "remove")
			p := len(t.arr)
			if len(a) > 1 {
				p = int(numArg(a, 1, "remove"))
			}
			if p < 1 || p > len(t.arr) {
				return nil
			}
			v := t.arr[p-1]
			t.arr = append(t.arr[:p-1], t.arr[p:]...)
			return one(v)
		},
		"concat": func(in *interp, a []lval) []lval {
			t := tabArg(a, 0, "concat")
			sep := ""
			if len(a) > 1 {
				sep = strArg(a, 1, "concat")
			}
			var p []string
			for _, v := range t.arr {
				p = append(p, strArg([]lval{v}, 0, "concat"))
			}
			return one(strings.Join(p, sep))
		},
		"sort": func(in *interp, a []lval) []lval {
			t := tabArg(a, 0, "sort")
			sort.SliceStable(t.arr, func(i, j int) bool {
				if len(a) > 1 {
					return truthy(first(in.callv(a[1], []lval{t.arr[i], t.arr[j]}, 0, "order")))
				}
				x, ok := t.arr[i].(float64)
				y, ok2 := t.arr[j].(float64)
				if ok && ok2 {
					return x < y
				}
				return lstr(t.arr[i]) < lstr(t.arr[j])
			})
			return nil
		},
		"unpack": unpackL,
	})
	str := mkTab(map[string]func(in *interp, a []lval) []lval{
		"len":   func(in *interp, a []lval) []lval { return one(float64(len(strArg(a, 0, "len")))) },
		"upper": func(in *interp, a []lval) []lval { return one(strings.ToUpper(strArg(a, 0, "upper"))) },
		"lower": func(in *interp, a []lval) []lval { return one(strings.ToLower(strArg(a, 0, "lower"))) },
		"rep": func(in *interp, a []lval) []lval {
			return one(strings.Repeat(strArg(a, 0, "rep"), int(numArg(a, 1, "rep"))))
		},
		"sub": func(in *interp, a []lval) []lval {
			s := strArg(a, 0, "sub")
			i, j := int(numArg(a, 1, "sub")), -1
			if len(a) > 2 {
				j = int(numArg(a, 2, "sub"))
			}
			if i < 0 {
				i = len(s) + i + 1
			}
			if i < 1 {
				i = 1
			}
			if j < 0 {
				j = len(s) + j + 1
			}
			if j > len(s) {
				j = len(s)
			}
			if i > j {
				return one("")
			}
			return one(s[i-1 : j])
		},
		"format": func(in *interp, a []lval) []lval {
			f := strArg(a, 0, "format")
			var sb strings.Builder
			n := 1
			for i := 0; i < len(f); i++ {
				if f[i] != '%' {
					sb.WriteByte(f[i])
					continue
				}
				j := i + 1
				for j < len(f) && strings.IndexByte("0123456789.-+ #", f[j]) >= 0 {
					j++
				}
				if j >= len(f) {
					lfail("invalid format")
				}
				sp := f[i:j]
				switch f[j] {
				case '%':
					sb.WriteByte('%')
					n--
				case 'd', 'i':
					fmt.Fprintf(&sb, sp+"d", int64(numArg(a, n, "format")))
				case 's':
					fmt.Fprintf(&sb, sp+"s", lstr(a[n]))
				case 'f', 'g', 'e', 'x':
					if f[j] == 'x' {
						fmt.Fprintf(&sb, sp+"x", int64(numArg(a, n, "format")))
					} else {
						fmt.Fprintf(&sb, sp+string(f[j]), numArg(a, n, "format"))
					}
				default:
					lfail("invalid option '%%%c' to 'format'", f[j])
				}
				n++
				i = j
			}
			return one(sb.String())
		},
	})
	ipairsIt := nat(func(in *interp, a []lval) []lval {
		t := tabArg(a, 0, "ipairs")
		i := numArg(a, 1, "ipairs") + 1
		v := t.get(i)
		if v == nil {
			return one(nil)
		}
		return []lval{i, v}
	})
	baseGlobals = map[string]lval{
		"math": m, "table": tab, "string": str,
		"tonumber": nat(func(in *interp, a []lval) []lval {
			if len(a) > 0 {
				if f, ok := lnum(a[0]); ok {
					return one(f)
				}
			}
			return one(nil)
		}),
		"tostring": nat(func(in *interp, a []lval) []lval { return one(lstr(first(a))) }),
		"type":     nat(func(in *interp, a []lval) []lval { return one(ltype(first(a))) }),
		"unpack":   nat(unpackL),
		"ipairs":   nat(func(in *interp, a []lval) []lval { return []lval{ipairsIt, tabArg(a, 0, "ipairs"), 0.0} }),
		"pairs": nat(func(in *interp, a []lval) []lval {
			t := tabArg(a, 0, "pairs")
			var ks []lval
			for i := range t.arr {
				ks = append(ks, float64(i+1))
			}
			var rest []lval
			for k := range t.m {
				rest = append(rest, k)
			}
			sort.Slice(rest, func(i, j int) bool { return ltype(rest[i])+lstr(rest[i]) < ltype(rest[j])+lstr(rest[j]) })
			ks = append(ks, rest...)
			i := 0
			return []lval{nat(func(in *interp, a []lval) []lval {
				for i < len(ks) {
					k := ks[i]
					i++
					if v := t.get(k); v != nil {
						return []lval{k, v}
					}
				}
				return one(nil)
			}), t, nil}
		}),
		"error": nat(func(in *interp, a []lval) []lval { lfail("%s", lstr(first(a))); return nil }),
		"assert": nat(func(in *interp, a []lval) []lval {
			if !truthy(first(a)) {
				lfail("assertion failed!")
			}
			return a
		}),
		"pcall": nat(func(in *interp, a []lval) (out []lval) {
			defer func() {
				if r := recover(); r != nil {
					le, ok := r.(luaErr)
					if !ok {
						panic(r)
					}
					out = []lval{false, le.msg}
				}
			}()
			return append([]lval{true}, in.callv(first(a), a[1:], 0, "a value")...)
		}),
	}
}

func unpackL(in *interp, a []lval) []lval {
	t := tabArg(a, 0, "unpack")
	i, j := 1, len(t.arr)
	if len(a) > 1 {
		i = int(numArg(a, 1, "unpack"))
	}
	if len(a) > 2 {
		j = int(numArg(a, 2, "unpack"))
	}
	var out []lval
	for ; i <= j; i++ {
		out = append(out, t.get(float64(i)))
	}
	return out
}

// toLua converts a reply of redis.call.
func toLua(r reply) lval {
	switch r.k {
	case ':':
		return float64(r.n)
	case '$':
		if r.null {
			return false
		}
		return r.s
	case '+':
		return &ltable{m: map[lval]lval{"ok": r.s}}
	case '-':
		return &ltable{m: map[lval]lval{"err": r.s}}
	case '*':
		if r.null {
			return false
		}
		t := &ltable{}
		for i, x := range r.a {
			t.set(float64(i+1), toLua(x))
		}
		return t
	}
	return nil
}

// fromLua converts a script's result.
func fromLua(v lval) reply {
	switch x := v.(type) {
	case bool:
		if x {
			return rInt(1)
		}
		return rNull
	case float64:
		return rInt(int64(x))
	case string:
		return rBulk(x)
	case *ltable:
		if x.m != nil {
			if e, ok := x.m["err"].(string); ok {
				return rErr(e)
			}
			if o, ok := x.m["ok"].(string); ok {
				return reply{k: '+', s: o}
			}
		}
		r := reply{k: '*'}
		for _, y := range x.arr {
			if y == nil {
				break
			}
			r.a = append(r.a, fromLua(y))
		}
		return r
	}
	return rNull
}

// runScript executes a script atomically.
func runScript(src string, keys, argv []string, exec func(args []string) reply) (out reply) {
	f, e := compileLua(src)
	if f == nil {
		return rErr("ERR Error compiling script (new function): " + e)
	}
	in := &interp{globals: map[string]lval{}}
	for k, v := range baseGlobals {
		in.globals[k] = v
	}
	tb := func(l []string) *ltable {
		t := &ltable{}
		for _, s := range l {
			t.arr = append(t.arr, s)
		}
		return t
	}
	in.globals["KEYS"], in.globals["ARGV"] = tb(keys), tb(argv)
	do := func(raise bool) *lfunc {
		return nat(func(in *interp, a []lval) []lval {
			if len(a) == 0 {
				lfail("Please specify at least one argument for redis.call()")
			}
			var args []string
			for _, v := range a {
				switch x := v.(type) {
				case string:
					args = append(args, x)
				case float64:
					args = append(args, fmtG(x, 17))
				default:
					lfail("Lua redis() command arguments must be strings or integers")
				}
			}
			r := exec(args)
			if r.k == '-' && raise {
				lfail("%s", r.s)
			}
			return one(toLua(r))
		})
	}
	in.globals["redis"] = &ltable{m: map[lval]lval{
		"call": do(true), "pcall": do(false),
		"error_reply": nat(func(in *interp, a []lval) []lval {
			return one(&ltable{m: map[lval]lval{"err": strArg(a, 0, "error_reply")}})
		}),
		"status_reply": nat(func(in *interp, a []lval) []lval {
			return one(&ltable{m: map[lval]lval{"ok": strArg(a, 0, "status_reply")}})
		}),
		"log":                nat(func(in *interp, a []lval) []lval { return nil }),
		"replicate_commands": nat(func(in *interp, a []lval) []lval { return one(true) }),
		"LOG_DEBUG":          0.0, "LOG_VERBOSE": 1.0, "LOG_NOTICE": 2.0, "LOG_WARNING": 3.0,
	}}
	defer func() {
		if r := recover(); r != nil {
			le, ok := r.(luaErr)
			if !ok {
				panic(r)
			}
			out = rErr("ERR Error running script: " + le.msg)
		}
	}()
	rs := in.run(f, nil)
	return fromLua(first(rs))
}
