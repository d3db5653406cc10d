package main

// The contract language: parsing.

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"
)

type Expr struct {
	Op   string // int str id call field index slice un bin ite forall exists old seq raw
	Name string
	Args []*Expr
	N    *big.Int
	Vars []BVar
	Pos  string
}
type BVar struct{ Name, Type string }

type Clause struct {
	Label string
	Props []string
	E     *Expr
	Vars  []BVar // typed holes
	Kind  string // step loop kind
	Src   string
	When  *Expr
}

type StepSpec = Clause

type SpawnSpec struct {
	Params []string
	Con    *Contract
}

type Contract struct {
	Key        string
	Params     []string
	Results    []string
	Props      []string
	Req, Ens   []*Clause
	Mod        []*Expr
	Invs       []*Clause
	Decr       []*Clause
	Steps      []*StepSpec
	Prologue   []*Clause
	Open       []*Expr
	Uses       []*Expr
	Spawn      *Contract
	Terminates bool
	Pure       string
	Event      bool
	Inline     bool
	Iface      bool
	Trusted    string
	WithInit   bool
	NoPanic    []string
	Impl       string // interface contract this function must satisfy
	Doc        string
	File       string
	Unbounded  []string
	Split      []*Expr // case distinctions tried for obligations of steps and postconditions
	World      bool // may modify anything: only for goroutine bodies nobody calls
}

type Def struct {
	Name   string
	Params []BVar
	Ret    string
	Body   *Expr
	Decr   *Expr
	Rec    bool
	Ufn    bool
	Fn     *RecFn
}

type Lemma struct {
	Name  string
	Props []string
	Vars  []BVar
	Req   []*Clause
	Ens   []*Clause
	Uses  []*Expr
	Decr  *Expr
	Split []*Expr
	Depth int
}

type Guard struct {
	Type, Field, Mutex string
	// how one critical section may change what the field holds, for others to rely on
	Var string
	Rel *Clause
}

type ChanInv struct {
	Type string
	Var  string
	E    *Expr
}

type Specs struct {
	funcs    map[string]*Contract
	ifaces   map[string]*Contract
	defs     map[string]*Def
	lemmas   map[string]*Lemma
	lemmaSeq []*Lemma
	guards   []Guard
	chans    []ChanInv
	retained map[string]bool
	order    []*Contract
	files    []string
}

func newSpecs() *Specs {
	return &Specs{funcs: map[string]*Contract{}, ifaces: map[string]*Contract{}, defs: map[string]*Def{}, lemmas: map[string]*Lemma{}, retained: map[string]bool{"arr:uint8": true}}
}

type tok struct {
	k, s string // k: id int str op eof
	line int
}

type specParser struct {
	toks []tok
	i    int
	file string
	lets []*Expr // contract-level definitions in scope
}

func (e *Expr) mentions(n string) bool {
	if e == nil {
		return false
	}
	if e.Op == "id" && e.Name == n {
		return true
	}
	for _, a := range e.Args {
		if a.mentions(n) {
			return true
		}
	}
	return false
}

// wrap e in the definitions it uses
func (p *specParser) inLets(e *Expr) *Expr {
	for i := len(p.lets) - 1; i >= 0; i-- {
		l := p.lets[i]
		if e.mentions(l.Name) {
			w := p.mk("let", l.Args[0], e)
			w.Name = l.Name
			e = w
		}
	}
	return e
}

func lexSpec(src, file string) []tok {
	var ts []tok
	line := 1
	rs := []rune(src)
	ops := []string{"<==>", "==>", "==", "!=", "<=", ">=", "&&", "||", "++", "::", ".*"}
	for i := 0; i < len(rs); {
		c := rs[i]
		switch {
		case c == '\n':
			line++
			i++
		case unicode.IsSpace(c):
			i++
		case c == '#' || (c == '/' && i+1 < len(rs) && rs[i+1] == '/'):
			for i < len(rs) && rs[i] != '\n' {
				i++
			}
		case unicode.IsLetter(c) || c == '_':
			j := i
			for j < len(rs) && (unicode.IsLetter(rs[j]) || unicode.IsDigit(rs[j]) || rs[j] == '_') {
				j++
			}
			ts = append(ts, tok{"id", string(rs[i:j]), line})
			i = j
		case unicode.IsDigit(c):
			j := i
			for j < len(rs) && (unicode.IsDigit(rs[j]) || unicode.IsLetter(rs[j])) {
				j++
			}
			ts = append(ts, tok{"int", string(rs[i:j]), line})
			i = j
		case c == '"':
			j := i + 1
			for rs[j] != '"' {
				j++
			}
			ts = append(ts, tok{"str", string(rs[i+1 : j]), line})
			i = j + 1
		default:
			hit := false
			for _, o := range ops {
				if strings.HasPrefix(string(rs[i:min(i+4, len(rs))]), o) {
					ts = append(ts, tok{"op", o, line})
					i += len([]rune(o))
					hit = true
					break
				}
			}
			if !hit {
				ts = append(ts, tok{"op", string(c), line})
				i++
			}
		}
	}
	return append(ts, tok{"eof", "", line})
}

func (p *specParser) fail(f string, a ...interface{}) {
	fatal("%s:%d: %s (at %q)", p.file, p.toks[p.i].line, fmt.Sprintf(f, a...), p.toks[p.i].s)
}
func (p *specParser) peek() tok { return p.toks[p.i] }
func (p *specParser) next() tok { t := p.toks[p.i]; p.i++; return t }
func (p *specParser) is(s string) bool {
	t := p.peek()
	return (t.k == "op" || t.k == "id") && t.s == s
}
func (p *specParser) accept(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *specParser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q", s)
	}
}
func (p *specParser) ident() string {
	t := p.next()
	if t.k != "id" {
		p.i--
		p.fail("identifier expected")
	}
	return t.s
}

// dotted name with package path separators
func (p *specParser) qname() string {
	s := p.ident()
	for p.is(".") || p.is("/") || p.is("@") {
		s += p.next().s
		s += p.ident()
	}
	return s
}

// a type written in source form
func (p *specParser) typ() string {
	s := ""
	for p.accept("*") {
		s += "*"
	}
	if p.accept("[") {
		p.expect("]")
		return s + "[]" + p.typ()
	}
	if p.is("map") {
		p.next()
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return s + "map[" + k + "]" + p.typ()
	}
	return s + p.qname()
}

func loadSpecs(dir string) *Specs {
	s := newSpecs()
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			fatal("%v", err)
		}
		s.files = append(s.files, f)
		p := &specParser{toks: lexSpec(string(b), f), file: filepath.Base(f)}
		p.parseFile(s)
	}
	return s
}

func (p *specParser) idList() []string {
	var out []string
	p.expect("(")
	for !p.accept(")") {
		out = append(out, p.ident())
		p.accept(",")
	}
	return out
}
func (p *specParser) bvars() []BVar {
	var out []BVar
	p.expect("(")
	for !p.accept(")") {
		n := p.ident()
		t := ""
		if p.accept(":") {
			t = p.typ()
		}
		out = append(out, BVar{n, t})
		p.accept(",")
	}
	// x, y: int gives both the type
	for i := len(out) - 2; i >= 0; i-- {
		if out[i].Type == "" {
			out[i].Type = out[i+1].Type
		}
	}
	return out
}
func (p *specParser) propList() []string {
	var out []string
	for p.peek().k == "id" && isProp(p.peek().s) {
		out = append(out, p.next().s)
		p.accept(",")
	}
	return out
}
func isProp(s string) bool {
	return len(s) == 3 && s[0] >= 'A' && s[0] <= 'Z' && unicode.IsDigit(rune(s[1])) && unicode.IsDigit(rune(s[2]))
}

func (p *specParser) clause(def string) *Clause {
	c := &Clause{Label: def}
	if p.is("(") {
		// typed holes?  "(" id ":"
		if p.toks[p.i+1].k == "id" && (p.toks[p.i+2].s == ":" || p.toks[p.i+2].s == ",") {
			save := p.i
			c.Vars = p.bvars()
			_ = save
		}
	}
	if p.accept("[") {
		var ws []string
		for !p.accept("]") {
			ws = append(ws, p.next().s)
		}
		c.Label = strings.Join(ws, " ")
	}
	if p.accept("{") {
		c.Props = p.propList()
		p.expect("}")
	}
	i := p.i
	c.E = p.inLets(p.expr(0))
	var src []string
	for ; i < p.i; i++ {
		src = append(src, p.toks[i].s)
	}
	c.Src = strings.Join(src, " ")
	if def == "" && c.Label == "" {
		c.Label = c.Src
	}
	return c
}

func (p *specParser) parseFile(s *Specs) {
	for p.peek().k != "eof" {
		t := p.ident()
		switch t {
		case "def":
			d := &Def{Name: p.ident()}
			d.Params = p.bvars()
			p.expect("=")
			d.Body = p.expr(0)
			s.addDef(p, d)
		case "rec":
			d := &Def{Name: p.ident(), Rec: true}
			d.Params = p.bvars()
			p.expect(":")
			d.Ret = p.typ()
			if p.accept("decreases") {
				d.Decr = p.expr(0)
			}
			p.expect("=")
			d.Body = p.expr(0)
			s.addDef(p, d)
		case "ufn":
			d := &Def{Name: p.ident(), Ufn: true}
			d.Params = p.bvars()
			p.expect(":")
			d.Ret = p.typ()
			s.addDef(p, d)
		case "guarded":
			ty := p.qname()
			i := strings.LastIndex(ty, ".")
			p.expect("by")
			g := Guard{Type: ty[:i], Field: ty[i+1:], Mutex: p.ident()}
			if p.accept("shared") {
				p.expect("(")
				g.Var = p.ident()
				p.expect(")")
				g.Rel = p.clause("")
			}
			s.guards = append(s.guards, g)
		case "chaninv":
			ty := p.typ()
			v := p.ident()
			p.expect("::")
			s.chans = append(s.chans, ChanInv{ty, v, p.expr(0)})
		case "lemma":
			l := &Lemma{Name: p.ident(), Depth: 4}
			l.Vars = p.bvars()
			for {
				if p.accept("props") {
					l.Props = p.propList()
				} else if p.accept("requires") {
					l.Req = append(l.Req, p.clause(""))
				} else if p.accept("ensures") {
					l.Ens = append(l.Ens, p.clause(""))
				} else if p.accept("use") {
					l.Uses = append(l.Uses, p.expr(0))
				} else if p.accept("decreases") {
					l.Decr = p.expr(0)
				} else if p.accept("split") {
					l.Split = append(l.Split, p.expr(0))
				} else if p.accept("depth") {
					fmt.Sscan(p.next().s, &l.Depth)
				} else if p.accept("end") {
					break
				} else {
					p.fail("lemma clause")
				}
			}
			s.lemmas[l.Name] = l
			s.lemmaSeq = append(s.lemmaSeq, l)
		case "func", "interface", "init":
			c := &Contract{Iface: t == "interface", File: p.file}
			if t == "init" {
				c.Key = p.qname() + ".init"
				c.WithInit = true
			} else {
				c.Key = p.qname()
				c.Params = p.idList()
				if p.is("(") {
					c.Results = p.idList()
				}
			}
			p.contractBody(c)
			if t == "interface" {
				s.ifaces[c.Key] = c
			} else {
				if s.funcs[c.Key] != nil {
					p.fail("second contract for %s", c.Key)
				}
				s.funcs[c.Key] = c
			}
			s.order = append(s.order, c)
		default:
			p.i--
			p.fail("declaration expected")
		}
	}
}

func (s *Specs) addDef(p *specParser, d *Def) {
	if s.defs[d.Name] != nil {
		p.fail("%s defined twice", d.Name)
	}
	s.defs[d.Name] = d
}

func (p *specParser) contractBody(c *Contract) {
	defer func(l []*Expr) { p.lets = l }(p.lets)
	for {
		switch t := p.ident(); t {
		case "props":
			c.Props = p.propList()
		case "requires":
			c.Req = append(c.Req, p.clause(""))
		case "ensures":
			c.Ens = append(c.Ens, p.clause(""))
		case "modifies":
			if p.accept("everything") {
				c.World = true
				break
			}
			for {
				c.Mod = append(c.Mod, p.expr(0))
				if !p.accept(",") {
					break
				}
			}
		case "inv":
			c.Invs = append(c.Invs, p.clause(""))
		case "decreases":
			c.Decr = append(c.Decr, p.clause(""))
		case "step":
			k := p.ident()
			q := p.clause("")
			q.Kind = k
			c.Steps = append(c.Steps, q)
		case "split":
			c.Split = append(c.Split, p.inLets(p.expr(0)))
		case "prologue":
			c.Prologue = append(c.Prologue, p.clause(""))
		case "neverclosed":
			for {
				c.Open = append(c.Open, p.expr(0))
				if !p.accept(",") {
					break
				}
			}
		case "let":
			n := p.ident()
			p.expect("=")
			l := p.mk("let", p.expr(0))
			l.Name = n
			p.lets = append(p.lets[:len(p.lets):len(p.lets)], l)
		case "use":
			c.Uses = append(c.Uses, p.inLets(p.expr(0)))
		case "spawn":
			c.Spawn = &Contract{Key: c.Key + " (spawned)", Params: p.idList(), File: p.file}
			p.contractBody(c.Spawn)
		case "terminates":
			c.Terminates = true
		case "pure":
			c.Pure = "pure"
		case "event":
			c.Event = true
		case "inline":
			c.Inline = true
		case "withinit":
			c.WithInit = true
		case "trusted":
			c.Trusted = p.next().s
		case "impl":
			c.Impl = p.qname()
		case "end":
			return
		default:
			p.i--
			p.fail("contract clause")
		}
	}
}

// ---- expressions

var binPrec = map[string]int{
	"<==>": 1, "==>": 2, "||": 3, "&&": 4,
	"==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5,
	"++": 6, "+": 7, "-": 7, "*": 8, "/": 8, "%": 8,
}

func (p *specParser) mk(op string, args ...*Expr) *Expr {
	return &Expr{Op: op, Args: args, Pos: fmt.Sprintf("%s:%d", p.file, p.peek().line)}
}

func (p *specParser) expr(min int) *Expr {
	l := p.unary()
	for {
		t := p.peek()
		pr, ok := binPrec[t.s]
		if t.k != "op" || !ok || pr < min {
			return l
		}
		p.next()
		nm := pr + 1
		if t.s == "==>" {
			nm = pr
		}
		r := p.expr(nm)
		e := p.mk("bin", l, r)
		e.Name = t.s
		l = e
	}
}

func (p *specParser) unary() *Expr {
	if p.accept("!") {
		e := p.mk("un", p.unary())
		e.Name = "!"
		return e
	}
	if p.accept("-") {
		e := p.mk("un", p.unary())
		e.Name = "-"
		return e
	}
	if p.is("forall") || p.is("exists") {
		q := p.next().s
		e := p.mk(q)
		for {
			n := p.ident()
			t := "int"
			if p.accept(":") {
				t = p.typ()
			}
			e.Vars = append(e.Vars, BVar{n, t})
			if !p.accept(",") {
				break
			}
		}
		p.expect("::")
		e.Args = []*Expr{p.expr(0)}
		return e
	}
	if p.accept("let") {
		e := p.mk("let")
		e.Name = p.ident()
		p.expect("=")
		a := p.expr(0)
		p.expect("::")
		e.Args = []*Expr{a, p.expr(0)}
		return e
	}
	if p.accept("if") {
		c := p.expr(0)
		p.expect("then")
		a := p.expr(0)
		p.expect("else")
		b := p.expr(0)
		return p.mk("ite", c, a, b)
	}
	return p.postfix(p.primary())
}

func (p *specParser) postfix(e *Expr) *Expr {
	for {
		switch {
		case p.accept("."):
			f := p.mk("field", e)
			f.Name = p.ident()
			e = f
		case p.accept(".*"):
			e = p.mk("all", e)
		case p.accept("["):
			if p.accept(":") {
				hi := p.expr(0)
				p.expect("]")
				e = p.mk("slice", e, nil, hi)
				continue
			}
			i := p.expr(0)
			if p.accept(":") {
				if p.accept("]") {
					e = p.mk("slice", e, i, nil)
					continue
				}
				hi := p.expr(0)
				p.expect("]")
				e = p.mk("slice", e, i, hi)
				continue
			}
			p.expect("]")
			e = p.mk("index", e, i)
		default:
			return e
		}
	}
}

// builtins whose second argument is a type
var typeArg = map[string]bool{"is": true, "as": true}

func (p *specParser) primary() *Expr {
	t := p.next()
	switch {
	case t.k == "int":
		n, ok := new(big.Int).SetString(t.s, 0)
		if !ok {
			p.fail("number")
		}
		e := p.mk("int")
		e.N = n
		return e
	case t.k == "str":
		e := p.mk("str")
		e.Name = t.s
		return e
	case t.s == "(" && t.k == "op":
		e := p.expr(0)
		p.expect(")")
		return e
	case t.k == "id":
		if t.s == "global" || t.s == "const" || t.s == "rtype" {
			p.expect("(")
			e := p.mk(t.s)
			e.Name = p.typ()
			p.expect(")")
			return e
		}
		if p.accept("(") {
			e := p.mk("call")
			e.Name = t.s
			if t.s == "heap" {
				ty := p.mk("type")
				ty.Name = p.typ()
				e.Args = append(e.Args, ty)
				p.expect(")")
				return e
			}
			if typeArg[t.s] {
				e.Args = append(e.Args, p.expr(0))
				p.expect(",")
				ty := p.mk("type")
				ty.Name = p.typ()
				e.Args = append(e.Args, ty)
				p.expect(")")
				return e
			}
			for !p.accept(")") {
				e.Args = append(e.Args, p.expr(0))
				if !p.is(")") {
					p.expect(",")
				}
			}
			return e
		}
		e := p.mk("id")
		e.Name = t.s
		return e
	}
	p.i--
	p.fail("expression expected")
	return nil
}
