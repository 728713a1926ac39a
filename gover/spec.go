package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"
)

// ---------- lexer ----------

type tok struct {
	k    byte // i ident, n number, s string, c char, o operator, e eof
	s    string
	line int
	bol  bool // first token of its line
}

func lexSpec(file, src string) ([]tok, error) {
	var out []tok
	line := 1
	bol := true
	i := 0
	ops := []string{"<==>", "==>", "<=", ">=", "==", "!=", "&&", "||", "::", ":=", "<<", ">>", "&^"}
	for i < len(src) {
		c := src[i]
		if c == '\n' {
			line++
			bol = true
			i++
			continue
		}
		if c == ' ' || c == '\t' || c == '\r' {
			i++
			continue
		}
		if strings.HasPrefix(src[i:], "//") || (c == '#' && (i+1 >= len(src) || src[i+1] == ' ' || src[i+1] == '\n')) {
			for i < len(src) && src[i] != '\n' {
				i++
			}
			continue
		}
		add := func(k byte, s string) {
			out = append(out, tok{k, s, line, bol})
			bol = false
		}
		if unicode.IsLetter(rune(c)) || c == '_' || c == '$' || c == '#' {
			j := i + 1
			for j < len(src) && (unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j])) || src[j] == '_' || src[j] == '$') {
				j++
			}
			add('i', src[i:j])
			i = j
			continue
		}
		if unicode.IsDigit(rune(c)) {
			j := i
			if strings.HasPrefix(src[i:], "0x") {
				j = i + 2
				for j < len(src) && strings.ContainsRune("0123456789abcdefABCDEF", rune(src[j])) {
					j++
				}
			} else {
				for j < len(src) && unicode.IsDigit(rune(src[j])) {
					j++
				}
			}
			add('n', src[i:j])
			i = j
			continue
		}
		if c == '"' {
			j := i + 1
			for j < len(src) && src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			add('s', src[i:j+1])
			i = j + 1
			continue
		}
		if c == '\'' {
			j := i + 1
			for j < len(src) && src[j] != '\'' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			add('c', src[i:j+1])
			i = j + 1
			continue
		}
		matched := false
		for _, o := range ops {
			if strings.HasPrefix(src[i:], o) {
				add('o', o)
				i += len(o)
				matched = true
				break
			}
		}
		if matched {
			continue
		}
		if strings.ContainsRune("+-*/%&|^<>!=()[]{}.,:?;@~", rune(c)) {
			add('o', string(c))
			i++
			continue
		}
		return nil, fmt.Errorf("%s:%d: bad character %q", file, line, c)
	}
	out = append(out, tok{'e', "", line, true})
	return out, nil
}

// ---------- AST ----------

type SType struct {
	Kind string // name, ptr, slice, arr(ghost), map, array
	Name string
	Pkg  string
	Args []*SType
	N    int64
}

type SParam struct {
	Name string
	Ty   *SType
}

type SExpr struct {
	Op   string // id, num, str, chr, bin, un, call, idx, sel, forall, exists, ite, let, slice
	S    string
	Args []*SExpr
	Vars []SParam
	Trig [][]*SExpr
	TArg []*SType
	Ty   *SType
	Line int
}

type Clause struct {
	Tags []string
	Name string
	E    *SExpr
	File string
	Line int
	Text string
	// Kinds: plain; use (lemma application)
	Use bool
}

type ModClause struct {
	Comp  string
	All   bool
	Fresh bool
	At    []*SExpr
	Line  int
}

type LoopSpec struct {
	N         int
	Inv       []*Clause
	Spare     []*Clause
	Dec       []*SExpr
	Hints     []*Clause // asserted (or lemma used) at the end of the body
	HeadHints []*Clause // at the loop head, after assuming the invariant
	ExitHints []*Clause
	PreHints  []*Clause   // before the invariant is established
	PreSets   []*GhostSet // ghost updates before the loop
	StepSets  []*GhostSet // ghost updates at the end of each iteration
	Opt       map[string]bool
	NoFrame   bool
	Frames    []*ModClause
}

type GhostSet struct {
	Field string // ghost field or variable
	Base  *SExpr // object whose field is set (nil: variable)
	Vars  []SParam
	E     *SExpr
	Line  int
	Tags  []string
	All   bool // pointwise over all refs: Base is a bound variable name
	Cond  *SExpr
}

type FuncSpec struct {
	Key      string
	Pkg      string
	Params   []string
	Requires []*Clause
	Ensures  []*Clause
	Mods     []*ModClause
	Panics   []*Clause
	Loops    map[int]*LoopSpec
	Dec      []*SExpr
	Entry    []*Clause
	Calls    map[string][]*CallHook // what happens before a call of the function of that name
	Exit     []*Clause
	Ghost    []*GhostSet
	Opt      map[string]bool
	Trusted  bool
	Inline   bool
	Pure     bool
	File     string
	Line     int
	Vars     []SParam
	Results  []SParam
	CParams  []SParam
	Lets     []LetDef
	Witness  []WitDef
	Reason   string
	Unroll   int
	Iter     []string             // a library function that calls its last argument again and again: names of what it passes
	Each     []*Clause            // facts about every such call
	AtEnd    []*Clause            // facts once it ends without being stopped
	Closures map[string]*FuncSpec // contracts of local function variables
	Shared   []*ModClause         // what other threads may change
	Rely     []*Clause            // what they keep
	Unwinds  []*Clause            // what holds when it ends with a panic (option threads)
	At       string               // a function value to verify: at which call
	FnE      *SExpr               // and what it is
	ModVars  []string             // in such a contract: the variables of the function that it changes
}

// WitDef is a ghost result: an existentially quantified value of the postconditions, with its witness.
type WitDef struct {
	Name string
	Ty   *SType
	E    *SExpr
}

type LetDef struct {
	Name string
	E    *SExpr
}

type Def struct {
	Name   string
	TPar   []string
	Params []SParam
	Ret    *SType
	Body   *SExpr
	Kind   string // def, logic, rec
	Pkg    string
	File   string
	Line   int
}

type Lemma struct {
	Name     string
	TPar     []string
	Params   []SParam
	Requires []*Clause
	Ensures  []*Clause
	Ind      string
	Auto     bool
	Trig     [][]*SExpr
	Hints    []*Clause
	Axiom    bool
	Pkg      string
	File     string
	Line     int
	Unfold   int
	Reason   string
}

type GhostField struct {
	Type string
	Name string
	Ty   *SType
	Pkg  string
}

type Guard struct {
	Type, Field, Mux, Pkg string
}

type SpecSet struct {
	Funcs  map[string]*FuncSpec
	Defs   map[string]*Def
	Lemmas map[string]*Lemma
	GFld   map[string]*GhostField // Type.name (pkg-qualified)
	GVar   map[string]*GhostField
	Guards []*Guard
}

// ---------- parser ----------

type sparser struct {
	file string
	t    []tok
	p    int
	pkg  string
	set  *SpecSet
}

type perr struct{ msg string }

func (p *sparser) fail(format string, a ...any) {
	panic(perr{fmt.Sprintf("%s:%d: %s", p.file, p.cur().line, fmt.Sprintf(format, a...))})
}
func (p *sparser) cur() tok { return p.t[p.p] }
func (p *sparser) peek(n int) tok {
	if p.p+n < len(p.t) {
		return p.t[p.p+n]
	}
	return p.t[len(p.t)-1]
}
func (p *sparser) next() tok { t := p.t[p.p]; p.p++; return t }
func (p *sparser) is(s string) bool {
	t := p.cur()
	return (t.k == 'o' || t.k == 'i') && t.s == s
}
func (p *sparser) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *sparser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q, found %q", s, p.cur().s)
	}
}
func (p *sparser) ident() string {
	t := p.cur()
	if t.k != 'i' {
		p.fail("expected identifier, found %q", t.s)
	}
	p.p++
	return t.s
}

var clauseKW = map[string]bool{"package": true, "func": true, "requires": true, "ensures": true, "invariant": true, "decreases": true, "modifies": true, "loop": true,
	"def": true, "pred": true, "logic": true, "rec": true, "axiom": true, "lemma": true, "ghost": true, "guarded": true, "option": true, "trusted": true, "use": true, "assert": true,
	"exit": true, "shared": true, "rely": true, "unwinds": true, "spare": true, "at": true, "fn": true, "call": true, "closure": true, "end": true, "changes": true, "panics": true, "induction": true, "var": true, "inline": true, "entry": true, "set": true, "head": true, "after": true, "trigger": true, "params": true, "results": true, "pure": true, "before": true, "step": true, "auto": true, "unroll": true, "frame": true, "noframe": true, "where": true}

func (p *sparser) atClause() bool {
	t := p.cur()
	return t.k == 'e' || (t.bol && t.k == 'i' && clauseKW[t.s])
}

func LoadSpecs(dir string) (*SpecSet, error) {
	loadLocals(dir)
	set := &SpecSet{Funcs: map[string]*FuncSpec{}, Defs: map[string]*Def{}, Lemmas: map[string]*Lemma{}, GFld: map[string]*GhostField{}, GVar: map[string]*GhostField{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if err := parseSpecFile(set, f, string(b)); err != nil {
			return nil, err
		}
	}
	return set, nil
}

func parseSpecFile(set *SpecSet, file, src string) (err error) {
	toks, err := lexSpec(file, src)
	if err != nil {
		return err
	}
	p := &sparser{file: filepath.Base(file), t: toks, set: set}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(perr); ok {
				err = fmt.Errorf("%s", e.msg)
				return
			}
			panic(r)
		}
	}()
	for p.cur().k != 'e' {
		switch kw := p.ident(); kw {
		case "package":
			p.pkg = p.ident()
			for p.accept(".") || p.accept("/") {
				p.pkg += "/" + p.ident()
			}
		case "func":
			p.funcSpec()
		case "def", "pred", "logic", "rec":
			p.def(kw)
		case "axiom", "lemma":
			p.lemma(kw == "axiom")
		case "ghost":
			switch p.ident() {
			case "field":
				ty := p.ident()
				p.expect(".")
				n := p.ident()
				g := &GhostField{Type: ty, Name: n, Ty: p.typ(), Pkg: p.pkg}
				set.GFld[p.pkg+"."+ty+"."+n] = g
			case "var":
				n := p.ident()
				set.GVar[n] = &GhostField{Name: n, Ty: p.typ(), Pkg: p.pkg}
			default:
				p.fail("ghost field or var")
			}
		case "guarded":
			ty := p.ident()
			p.expect(".")
			f := p.ident()
			p.expect("by")
			set.Guards = append(set.Guards, &Guard{Type: ty, Field: f, Mux: p.ident(), Pkg: p.pkg})
		default:
			p.p--
			p.fail("unexpected %q", kw)
		}
	}
	return nil
}

func (p *sparser) tags(c *Clause) {
	if p.is("[") {
		p.next()
		for !p.is("]") {
			t := p.next()
			s := t.s
			for p.is("-") || p.is(".") || (p.cur().k == 'i' || p.cur().k == 'n') && !p.is("]") && !p.is(",") && !p.is(":") {
				s += p.next().s
			}
			if len(s) == 3 && s[0] == 'C' && s[1] >= '0' && s[1] <= '9' {
				c.Tags = append(c.Tags, s)
			} else {
				if c.Name != "" {
					c.Name += "-"
				}
				c.Name += s
			}
			if !p.accept(",") {
				p.accept(":")
			}
		}
		p.expect("]")
	}
}

func (p *sparser) clause() *Clause {
	c := &Clause{File: p.file, Line: p.cur().line}
	p.tags(c)
	start := p.p
	c.E = p.expr()
	c.Text = p.text(start, p.p)
	return c
}

func (p *sparser) text(a, b int) string {
	var sb strings.Builder
	for i := a; i < b; i++ {
		if i > a {
			sb.WriteByte(' ')
		}
		sb.WriteString(p.t[i].s)
	}
	return sb.String()
}

func (p *sparser) useClause() *Clause {
	c := &Clause{File: p.file, Line: p.cur().line, Use: true}
	start := p.p
	c.E = p.expr()
	c.Text = p.text(start, p.p)
	return c
}

func (p *sparser) hint() *Clause {
	if p.accept("use") {
		return p.useClause()
	}
	if p.accept("assert") {
		return p.clause()
	}
	p.fail("expected use or assert")
	return nil
}

func (p *sparser) funcSpec() {
	fs := &FuncSpec{Pkg: p.pkg, Loops: map[int]*LoopSpec{}, Opt: map[string]bool{}, File: p.file, Line: p.cur().line}
	key := p.ident()
	for p.accept(".") || p.accept("/") {
		if p.t[p.p-1].s == "/" {
			key += "/" + p.ident()
		} else {
			key += "." + p.ident()
		}
	}
	if p.accept("@") { // fully qualified: func @ignored
	}
	if p.pkg == "std" {
		fs.Key = key
	} else {
		fs.Key = p.pkg + "." + key
	}
	if _, dup := p.set.Funcs[fs.Key]; dup {
		p.fail("duplicate contract for %s", fs.Key)
	}
	p.set.Funcs[fs.Key] = fs
	var lp *LoopSpec
	outer := fs
	for {
		t := p.cur()
		if t.k == 'e' {
			return
		}
		if !(t.bol && t.k == 'i') {
			p.fail("unexpected %q", t.s)
		}
		switch t.s {
		case "package", "func", "def", "pred", "logic", "rec", "axiom", "lemma", "guarded", "ghost":
			return
		}
		p.next()
		switch t.s {
		case "requires":
			fs.Requires = append(fs.Requires, p.clause())
		case "ensures":
			fs.Ensures = append(fs.Ensures, p.clause())
		case "panics":
			fs.Panics = append(fs.Panics, p.clause())
		case "trusted":
			fs.Trusted = true
			if p.cur().k == 's' {
				fs.Reason = strings.Trim(p.next().s, "\"")
			}
		case "iterates":
			for _, n := range p.names() {
				fs.Iter = append(fs.Iter, n.Name)
			}
		case "each":
			fs.Each = append(fs.Each, p.clause())
		case "atend":
			fs.AtEnd = append(fs.AtEnd, p.clause())
		case "closure":
			// contract of a local function variable, up to "end"
			n := p.ident()
			fs = &FuncSpec{Key: outer.Key + "$" + n, Pkg: outer.Pkg, Opt: map[string]bool{}, Loops: map[int]*LoopSpec{}, File: outer.File, Line: t.line}
			if outer.Closures == nil {
				outer.Closures = map[string]*FuncSpec{}
			}
			outer.Closures[n] = fs
			lp = nil
		case "end":
			fs = outer
			lp = nil
		case "changes":
			for _, n := range p.names() {
				fs.ModVars = append(fs.ModVars, n.Name)
			}
		case "shared":
			fs.Shared = append(fs.Shared, p.mods()...)
		case "rely":
			fs.Rely = append(fs.Rely, p.clause())
		case "unwinds":
			fs.Unwinds = append(fs.Unwinds, p.clause())
		case "at":
			fs.At = p.ident()
		case "fn":
			fs.FnE = p.expr()
		case "inline":
			fs.Inline = true
		case "pure":
			fs.Pure = true
		case "params":
			fs.CParams = p.names()
		case "results":
			fs.Results = p.names()
		case "where":
			n := p.ident()
			p.expect("=")
			fs.Lets = append(fs.Lets, LetDef{n, p.expr()})
		case "witness":
			n := p.ident()
			ty := p.typ()
			p.expect("=")
			fs.Witness = append(fs.Witness, WitDef{n, ty, p.expr()})
		case "var":
			n := p.ident()
			fs.Vars = append(fs.Vars, SParam{n, p.typ()})
		case "option":
			for {
				n := p.ident()
				fs.Opt[n] = true
				if !p.accept(",") {
					break
				}
			}
		case "modifies":
			fs.Mods = append(fs.Mods, p.mods()...)
		case "decreases":
			fs.Dec = p.exprs()
		case "entry":
			fs.Entry = append(fs.Entry, p.hint())
		case "exit":
			fs.Exit = append(fs.Exit, p.hint())
		case "call":
			n := p.ident()
			h := &CallHook{}
			if p.accept("set") {
				h.Set = p.ghostSet()
			} else {
				h.Hint = p.hint()
			}
			if fs.Calls == nil {
				fs.Calls = map[string][]*CallHook{}
			}
			fs.Calls[n] = append(fs.Calls[n], h)
		case "use":
			fs.Exit = append(fs.Exit, p.useClause())
		case "set":
			fs.Ghost = append(fs.Ghost, p.ghostSet())
		case "loop":
			n := p.next()
			if n.k != 'n' {
				p.fail("loop number expected")
			}
			k := 0
			fmt.Sscan(n.s, &k)
			lp = fs.Loops[k]
			if lp == nil {
				lp = &LoopSpec{N: k, Opt: map[string]bool{}}
				fs.Loops[k] = lp
			}
			if p.cur().k == 'i' && !p.cur().bol {
				lp.Opt[p.ident()] = true
			}
		case "unroll":
			n := p.next()
			fmt.Sscan(n.s, &fs.Unroll)
		case "invariant":
			if lp == nil {
				p.fail("invariant outside loop")
			}
			lp.Inv = append(lp.Inv, p.clause())
		case "spare":
			if lp == nil || !p.accept("invariant") {
				p.fail("spare invariant belongs to a loop")
			}
			lp.Spare = append(lp.Spare, p.clause())
		case "frame":
			lp.Frames = append(lp.Frames, p.mods()...)
		case "noframe":
			lp.NoFrame = true
		case "head":
			lp.HeadHints = append(lp.HeadHints, p.hint())
		case "after":
			lp.ExitHints = append(lp.ExitHints, p.hint())
		case "before":
			if p.accept("set") {
				lp.PreSets = append(lp.PreSets, p.ghostSet())
			} else {
				lp.PreHints = append(lp.PreHints, p.hint())
			}
		case "step":
			if lp == nil || !p.accept("set") {
				p.fail("step set belongs to a loop")
			}
			lp.StepSets = append(lp.StepSets, p.ghostSet())
		case "assert":
			if lp == nil {
				p.fail("assert outside loop")
			}
			lp.Hints = append(lp.Hints, p.clause())
		default:
			p.fail("unknown clause %q", t.s)
		}
		if lp != nil && t.s == "decreases" {
			lp.Dec = fs.Dec
			fs.Dec = nil
		}
	}
}

// CallHook is a ghost update or a hint right before a call.
type CallHook struct {
	Set  *GhostSet
	Hint *Clause
}

func (p *sparser) mods() []*ModClause {
	var out []*ModClause
	for {
		m := &ModClause{Line: p.cur().line}
		m.Comp = p.compName()
		switch {
		case p.accept("at"):
			for {
				if p.accept("fresh") {
					m.Fresh = true
				} else {
					m.At = append(m.At, p.expr())
				}
				if !p.accept("and") {
					break
				}
			}
		default:
			m.All = true
		}
		out = append(out, m)
		if !p.accept(",") {
			return out
		}
	}
}

// compName parses a heap component: Type.field, or #kind(type...)
func (p *sparser) compName() string {
	s := p.ident()
	for p.is(".") || p.is("[") || p.is("(") {
		if p.accept(".") {
			s += "." + p.ident()
			continue
		}
		open := p.next().s
		depth := 1
		s += open
		for depth > 0 {
			t := p.next()
			if t.k == 'e' {
				p.fail("unterminated component name")
			}
			if t.s == "[" || t.s == "(" {
				depth++
			}
			if t.s == "]" || t.s == ")" {
				depth--
			}
			s += t.s
		}
	}
	return s
}

func (p *sparser) ghostSet() *GhostSet {
	g := &GhostSet{Line: p.cur().line}
	var c Clause
	p.tags(&c)
	g.Tags = c.Tags
	if p.accept("forall") {
		g.All = true
		n := p.ident()
		ty := p.typ()
		g.Vars = append(g.Vars, SParam{n, ty})
		p.expect("::")
	}
	e := p.postfix()
	if e.Op == "idx" {
		// base.field[i] with "i T" variables
		p.fail("index on ghost set: write field[x T]")
	}
	if e.Op == "sel" {
		g.Base = e.Args[0]
		g.Field = e.S
	} else if e.Op == "id" {
		g.Field = e.S
	} else {
		p.fail("bad ghost target")
	}
	if p.accept("@") { // pointwise: l.at@(i int) := e
		p.expect("(")
		for !p.is(")") {
			n := p.ident()
			g.Vars = append(g.Vars, SParam{n, p.typ()})
			p.accept(",")
		}
		p.expect(")")
	}
	p.expect(":=")
	g.E = p.expr()
	return g
}

// names parses a positional list of names, possibly empty ("_" for unnamed).
func (p *sparser) names() []SParam {
	out := []SParam{{Name: p.ident()}}
	for p.accept(",") {
		out = append(out, SParam{Name: p.ident()})
	}
	return out
}

func (p *sparser) params() []SParam {
	var out []SParam
	p.expect("(")
	for !p.is(")") {
		n := p.ident()
		out = append(out, SParam{n, p.typ()})
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	return out
}

func (p *sparser) tparams() []string {
	var out []string
	if p.accept("[") {
		for !p.is("]") {
			out = append(out, p.ident())
			p.accept(",")
		}
		p.expect("]")
	}
	return out
}

func (p *sparser) def(kw string) {
	d := &Def{Kind: kw, Pkg: p.pkg, File: p.file, Line: p.cur().line}
	if kw == "pred" {
		d.Kind = "def"
	}
	d.Name = p.ident()
	d.TPar = p.tparams()
	if p.is("(") {
		d.Params = p.params()
	}
	if kw == "pred" {
		d.Ret = &SType{Kind: "name", Name: "bool"}
	} else {
		d.Ret = p.typ()
	}
	if kw != "logic" {
		p.expect("=")
		d.Body = p.expr()
	}
	if _, dup := p.set.Defs[d.Name]; dup {
		p.fail("duplicate definition %s", d.Name)
	}
	p.set.Defs[d.Name] = d
}

func (p *sparser) lemma(ax bool) {
	l := &Lemma{Axiom: ax, Pkg: p.pkg, File: p.file, Line: p.cur().line}
	l.Name = p.ident()
	l.TPar = p.tparams()
	if p.is("(") {
		l.Params = p.params()
	}
	if _, dup := p.set.Lemmas[l.Name]; dup {
		p.fail("duplicate lemma %s", l.Name)
	}
	p.set.Lemmas[l.Name] = l
	for {
		t := p.cur()
		if t.k == 'e' || !(t.bol && t.k == 'i') {
			return
		}
		switch t.s {
		case "requires":
			p.next()
			l.Requires = append(l.Requires, p.clause())
		case "ensures":
			p.next()
			l.Ensures = append(l.Ensures, p.clause())
		case "induction":
			p.next()
			l.Ind = p.ident()
		case "trigger":
			p.next()
			l.Auto = true
			p.expect("{")
			l.Trig = append(l.Trig, p.exprs())
			p.expect("}")
		case "use":
			p.next()
			l.Hints = append(l.Hints, p.useClause())
		case "assert":
			p.next()
			l.Hints = append(l.Hints, p.clause())
		case "trusted":
			p.next()
			l.Axiom = true
			if p.cur().k == 's' {
				l.Reason = strings.Trim(p.next().s, "\"")
			}
		default:
			return
		}
	}
}

func (p *sparser) typ() *SType {
	switch {
	case p.accept("*"):
		return &SType{Kind: "ptr", Args: []*SType{p.typ()}}
	case p.accept("["):
		if p.accept("]") {
			return &SType{Kind: "slice", Args: []*SType{p.typ()}}
		}
		k := p.typ()
		p.expect("]")
		return &SType{Kind: "arr", Args: []*SType{k, p.typ()}}
	}
	n := p.ident()
	if n == "func" {
		p.expect("(")
		t := &SType{Kind: "func"}
		for !p.is(")") {
			t.Args = append(t.Args, p.typ())
			p.accept(",")
		}
		p.expect(")")
		t.Args = append(t.Args, p.typ())
		return t
	}
	if n == "chan" {
		return &SType{Kind: "chan", Args: []*SType{p.typ()}}
	}
	if n == "map" {
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return &SType{Kind: "map", Args: []*SType{k, p.typ()}}
	}
	if n == "struct" {
		p.expect("{")
		p.expect("}")
		return &SType{Kind: "unit"}
	}
	t := &SType{Kind: "name", Name: n}
	if p.is(".") && p.peek(1).k == 'i' {
		p.next()
		t.Pkg = n
		t.Name = p.ident()
	}
	if p.is("[") && !p.peek(0).bol {
		p.next()
		for !p.is("]") {
			t.Args = append(t.Args, p.typ())
			p.accept(",")
		}
		p.expect("]")
	}
	return t
}

func (p *sparser) exprs() []*SExpr {
	out := []*SExpr{p.expr()}
	for p.accept(",") {
		out = append(out, p.expr())
	}
	return out
}

func (p *sparser) expr() *SExpr { return p.iff() }

func bin(op string, line int, a, b *SExpr) *SExpr {
	return &SExpr{Op: "bin", S: op, Args: []*SExpr{a, b}, Line: line}
}

func (p *sparser) iff() *SExpr {
	a := p.imp()
	for p.is("<==>") {
		l := p.next().line
		a = bin("<==>", l, a, p.imp())
	}
	return a
}
func (p *sparser) imp() *SExpr {
	a := p.tern()
	if p.is("==>") {
		l := p.next().line
		return bin("==>", l, a, p.imp())
	}
	return a
}
func (p *sparser) tern() *SExpr {
	c := p.or()
	if p.is("?") {
		l := p.next().line
		a := p.tern()
		p.expect(":")
		b := p.tern()
		return &SExpr{Op: "ite", Args: []*SExpr{c, a, b}, Line: l}
	}
	return c
}
func (p *sparser) or() *SExpr {
	a := p.and()
	for p.is("||") {
		l := p.next().line
		a = bin("||", l, a, p.and())
	}
	return a
}
func (p *sparser) and() *SExpr {
	a := p.cmp()
	for p.is("&&") {
		l := p.next().line
		a = bin("&&", l, a, p.cmp())
	}
	return a
}

var cmpOps = map[string]bool{"==": true, "!=": true, "<": true, "<=": true, ">": true, ">=": true, "in": true}

func (p *sparser) cmp() *SExpr {
	a := p.add()
	var res *SExpr
	for (p.cur().k == 'o' || p.is("in")) && cmpOps[p.cur().s] {
		t := p.next()
		b := p.add()
		c := bin(t.s, t.line, a, b)
		if res == nil {
			res = c
		} else {
			res = bin("&&", t.line, res, c)
		}
		a = b
	}
	if res != nil {
		return res
	}
	return a
}
func (p *sparser) add() *SExpr {
	a := p.mul()
	for p.cur().k == 'o' && (p.is("+") || p.is("-") || p.is("|") || p.is("^")) {
		t := p.next()
		a = bin(t.s, t.line, a, p.mul())
	}
	return a
}
func (p *sparser) mul() *SExpr {
	a := p.unary()
	for p.cur().k == 'o' && (p.is("*") || p.is("/") || p.is("%") || p.is("&") || p.is("<<") || p.is(">>") || p.is("&^")) {
		t := p.next()
		a = bin(t.s, t.line, a, p.unary())
	}
	return a
}
func (p *sparser) unary() *SExpr {
	t := p.cur()
	if t.k == 'o' && (t.s == "!" || t.s == "-" || t.s == "*" || t.s == "^" || t.s == "&") {
		p.next()
		return &SExpr{Op: "un", S: t.s, Args: []*SExpr{p.unary()}, Line: t.line}
	}
	return p.postfix()
}

func (p *sparser) postfix() *SExpr {
	e := p.primary()
	for {
		t := p.cur()
		if t.bol && (t.s == "[" || t.s == "(") {
			return e
		}
		switch {
		case p.is("."):
			if p.peek(1).k != 'i' {
				return e
			}
			p.next()
			e = &SExpr{Op: "sel", S: p.ident(), Args: []*SExpr{e}, Line: t.line}
		case p.is("("):
			p.next()
			c := &SExpr{Op: "call", Args: []*SExpr{e}, Line: t.line}
			for !p.is(")") {
				c.Args = append(c.Args, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			e = c
		case p.is("["):
			p.next()
			var lo *SExpr
			if !p.is(":") {
				lo = p.expr()
			}
			if p.accept(":") {
				var hi *SExpr
				if !p.is("]") {
					hi = p.expr()
				}
				p.expect("]")
				e = &SExpr{Op: "slice", Args: []*SExpr{e, lo, hi}, Line: t.line}
				continue
			}
			if p.accept(":=") { // functional update a[i := v]
				v := p.expr()
				p.expect("]")
				e = &SExpr{Op: "upd", Args: []*SExpr{e, lo, v}, Line: t.line}
				continue
			}
			p.expect("]")
			e = &SExpr{Op: "idx", Args: []*SExpr{e, lo}, Line: t.line}
		default:
			return e
		}
	}
}

func (p *sparser) primary() *SExpr {
	t := p.cur()
	switch t.k {
	case 'n':
		p.next()
		return &SExpr{Op: "num", S: t.s, Line: t.line}
	case 's':
		p.next()
		return &SExpr{Op: "str", S: t.s, Line: t.line}
	case 'c':
		p.next()
		return &SExpr{Op: "chr", S: t.s, Line: t.line}
	case 'o':
		if t.s == "(" {
			p.next()
			e := p.expr()
			p.expect(")")
			return e
		}
	case 'i':
		switch t.s {
		case "forall", "exists":
			p.next()
			q := &SExpr{Op: t.s, Line: t.line}
			var pend []string
			for {
				pend = append(pend, p.ident())
				if p.accept(",") {
					continue
				}
				ty := p.typ()
				for _, n := range pend {
					q.Vars = append(q.Vars, SParam{n, ty})
				}
				pend = nil
				if !p.accept(",") {
					break
				}
			}
			p.expect("::")
			for p.is("{") {
				p.next()
				q.Trig = append(q.Trig, p.exprs())
				p.expect("}")
			}
			q.Args = []*SExpr{p.expr()}
			return q
		case "let":
			p.next()
			n := p.ident()
			p.expect(":=")
			v := p.expr()
			p.expect("::")
			b := p.expr()
			return &SExpr{Op: "let", S: n, Args: []*SExpr{v, b}, Line: t.line}
		case "ty":
			// ty(T): a type argument
			if p.peek(1).s == "(" {
				p.next()
				p.next()
				ty := p.typ()
				p.expect(")")
				return &SExpr{Op: "type", Ty: ty, Line: t.line}
			}
		}
		p.next()
		return &SExpr{Op: "id", S: t.s, Line: t.line}
	}
	p.fail("unexpected %q in expression", t.s)
	return nil
}
