package ref

import "strings"

// Result of the reference parser.
type Result struct {
	Tree *N // nil if rejected
	// Dead: rejected, and so is every text that starts with this one.
	Dead bool
	// Overflow: the grammar accepts, but an integer does not fit.
	Overflow bool
	// JSON: the grammar accepts, but with a json path, which is not supported.
	JSON bool
}

type parser struct {
	in       []rune
	pos      int
	sawEnd   bool // looked at the position behind the last rune
	overflow bool
}

// Parse applies the published grammar.
func Parse(s string) Result {
	p := &parser{in: []rune(s)}
	p.ws()
	n := p.expression()
	ok := n != nil
	if ok {
		p.ws()
		ok = p.pos == len(p.in)
		p.sawEnd = p.sawEnd || ok
	}
	if !ok {
		return Result{Dead: !p.sawEnd}
	}
	r := Result{}
	n.Walk(func(m *N) {
		if m.T == Json {
			r.JSON = true
		}
		if m.T == Val && m.VT == Int && m.I < 0 {
			r.Overflow = true
		}
	})
	if !r.JSON && !r.Overflow {
		r.Tree = n
	}
	return r
}

func (p *parser) peek() rune {
	if p.pos >= len(p.in) {
		p.sawEnd = true
		return -1
	}
	return p.in[p.pos]
}

// lit matches case-sensitive text.
func (p *parser) lit(s string) bool {
	save := p.pos
	for _, r := range s {
		if p.peek() != r {
			p.pos = save
			return false
		}
		p.pos++
	}
	return true
}

// word matches an ASCII word in any letter case.
func (p *parser) word(s string) bool {
	save := p.pos
	for _, r := range s {
		c := p.peek()
		if c != r && c != r-'a'+'A' {
			p.pos = save
			return false
		}
		p.pos++
	}
	return true
}

func (p *parser) eol() bool { return p.lit("\r\n") || p.lit("\n") || p.lit("\r") }

func (p *parser) spaceComment() bool {
	if p.lit(" ") || p.lit("\t") || p.eol() {
		return true
	}
	save := p.pos
	if p.lit("--") || p.lit("//") {
		for {
			if p.eol() {
				return true
			}
			if p.peek() < 0 {
				break
			}
			p.pos++
		}
	}
	p.pos = save
	return false
}

func (p *parser) ws() bool {
	for p.spaceComment() {
	}
	return true
}

func (p *parser) ws1() bool {
	if !p.spaceComment() {
		return false
	}
	return p.ws()
}

func (p *parser) expression() *N { return p.logic() }

func (p *parser) logic() *N {
	first := p.not()
	if first == nil {
		return nil
	}
	// Operands and operators of the chain; grouping is done afterwards by precedence.
	nodes, ops := []*N{first}, []string{}
	for {
		save := p.pos
		op := p.logicOp()
		if op == "" {
			p.pos = save
			break
		}
		n := p.not()
		if n == nil {
			p.pos = save
			break
		}
		nodes, ops = append(nodes, n), append(ops, op)
	}
	return Group(nodes, ops)
}

// Group groups a chain: and before or, equal operators to the left.
func Group(nodes []*N, ops []string) *N {
	var or *N
	cur := nodes[0]
	flush := func() {
		if or == nil {
			or = cur
		} else {
			or = LogN(or, "or", cur)
		}
	}
	for i, op := range ops {
		if op == "and" {
			cur = LogN(cur, "and", nodes[i+1])
		} else {
			flush()
			cur = nodes[i+1]
		}
	}
	flush()
	return or
}

func (p *parser) logicOp() string {
	save := p.pos
	p.ws()
	for _, o := range []struct {
		m  func() bool
		op string
	}{
		{func() bool { return p.word("and") }, "and"},
		{func() bool { return p.word("or") }, "or"},
		{func() bool { return p.lit("&&") }, "and"},
		{func() bool { return p.lit("||") }, "or"},
	} {
		if o.m() {
			p.ws()
			return o.op
		}
	}
	p.pos = save
	return ""
}

func (p *parser) not() *N {
	save := p.pos
	if n := p.compare(); n != nil {
		return n
	}
	p.pos = save
	p.ws()
	if p.word("not") && p.ws1() {
		if n := p.compare(); n != nil {
			return NotN(n)
		}
	}
	p.pos = save
	return nil
}

func (p *parser) compare() *N {
	l := p.compareIn()
	if l == nil {
		return nil
	}
	for {
		save := p.pos
		op := p.compareOp()
		if op == "" {
			break
		}
		r := p.compareIn()
		if r == nil {
			p.pos = save
			break
		}
		l = CmpN(l, op, r)
	}
	return l
}

var symbols = []struct{ text, op string }{
	{">=", "gte"}, {"<=", "lte"}, {"==", "eq"}, {"!=", "neq"}, {"<>", "neq"}, {">", "gt"}, {"<", "lt"}, {"=", "eq"},
}
var words = []string{"gte", "lte", "gt", "lt", "eq", "neq", "like"}

func (p *parser) compareOp() string {
	save := p.pos
	p.ws()
	for _, s := range symbols {
		if p.lit(s.text) {
			p.ws()
			return s.op
		}
	}
	for _, w := range words {
		if p.word(w) {
			p.ws()
			return w
		}
	}
	if p.word("not") && p.ws1() && p.word("like") {
		p.ws()
		return "not like"
	}
	p.pos = save
	return ""
}

func (p *parser) compareIn() *N {
	l := p.predicate()
	if l == nil {
		return nil
	}
	save := p.pos
	p.ws()
	op := ""
	mid := p.pos
	if p.word("in") {
		op = "in"
	} else {
		p.pos = mid
		if p.word("not") && p.ws1() && p.word("in") {
			op = "not in"
		}
	}
	if op != "" {
		p.ws()
		if r := p.array(); r != nil {
			return CmpN(l, op, r)
		}
	}
	p.pos = save
	return l
}

func (p *parser) predicate() *N {
	l := p.between()
	if l == nil {
		return nil
	}
	save := p.pos
	if p.ws1() {
		if op := p.match(); op != "" {
			p.ws()
			return &N{T: Pred, L: l, Op: op}
		}
	}
	p.pos = save
	return l
}

func (p *parser) match() string {
	if p.lit("isnull") {
		return "is null"
	}
	if p.lit("notnull") {
		return "is not null"
	}
	save := p.pos
	constant := func() string {
		for _, c := range []string{"true", "false", "null"} {
			if p.lit(c) {
				return c
			}
		}
		return ""
	}
	if p.lit("is") && p.ws1() {
		if c := constant(); c != "" {
			return "is " + c
		}
	}
	p.pos = save
	if p.lit("is") && p.ws1() && p.lit("not") && p.ws1() {
		if c := constant(); c != "" {
			return "is not " + c
		}
	}
	p.pos = save
	return ""
}

func (p *parser) between() *N {
	l := p.primary()
	if l == nil {
		return nil
	}
	save := p.pos
	p.ws()
	op := "between"
	mid := p.pos
	if p.word("not") && p.ws1() {
		op = "not between"
	} else {
		p.pos = mid
	}
	if p.lit("between") {
		p.ws()
		start := p.pos
		if lo := p.value(); lo != nil {
			p.ws()
			if p.word("and") {
				p.ws()
				if hi := p.value(); hi != nil {
					return &N{T: Betw, L: l, Op: op, Kids: []*N{lo, hi}}
				}
			}
		}
		p.pos = start
		if p.lit("[") {
			p.ws()
			if lo := p.value(); lo != nil {
				p.ws()
				if p.lit(",") {
					p.ws()
					if hi := p.value(); hi != nil {
						p.ws()
						if p.lit("]") {
							return &N{T: Betw, L: l, Op: op, Kids: []*N{lo, hi}}
						}
					}
				}
			}
		}
	}
	p.pos = save
	return l
}

func (p *parser) primary() *N {
	save := p.pos
	if p.lit("(") {
		p.ws()
		if n := p.expression(); n != nil {
			p.ws()
			if p.lit(")") {
				return ParN(n)
			}
		}
	}
	p.pos = save
	if n := p.value(); n != nil {
		return n
	}
	if id := p.identifier(); id != "" {
		if args, ok := p.arguments(); ok {
			return &N{T: Fn, S: id, Kids: args}
		}
	}
	p.pos = save
	return p.reference()
}

func (p *parser) arguments() ([]*N, bool) {
	save := p.pos
	if !p.lit("(") {
		return nil, false
	}
	p.ws()
	var out []*N
	opt := p.pos
	if n := p.expression(); n != nil {
		out = append(out, n)
		for {
			s := p.pos
			p.ws()
			if !p.lit(",") {
				p.pos = s
				break
			}
			p.ws()
			n := p.expression()
			if n == nil {
				p.pos = s
				break
			}
			out = append(out, n)
		}
		p.ws()
		p.lit(",")
	} else {
		p.pos = opt
	}
	p.ws()
	if p.lit(")") {
		return out, true
	}
	p.pos = save
	return nil, false
}

func (p *parser) reference() *N {
	save := p.pos
	first := p.identifier()
	if first == "" {
		p.pos = save
		return nil
	}
	names := []string{first}
	for {
		s := p.pos
		if !p.lit(".") {
			break
		}
		n := p.identifier()
		if n == "" {
			p.pos = s
			break
		}
		names = append(names, n)
	}
	if len(names) > 1 {
		return &N{T: Refr, Names: names}
	}
	end := p.pos
	if p.lit("->") && p.jsonTail() {
		return &N{T: Json}
	}
	p.pos = end
	return Id(first)
}

func (p *parser) jsonTail() bool {
	if p.identifier() == "" {
		return false
	}
	end := p.pos
	if p.lit("->") && p.jsonTail() {
		return true
	}
	p.pos = end
	return true
}

func letter(c rune) bool   { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func namePart(c rune) bool { return letter(c) || c >= '0' && c <= '9' || c == '_' }

func (p *parser) identifier() string {
	save := p.pos
	if !letter(p.peek()) {
		return ""
	}
	for namePart(p.peek()) {
		p.pos++
	}
	s := string(p.in[save:p.pos])
	if strings.EqualFold(s, "not") {
		p.pos = save
		return ""
	}
	return s
}

func (p *parser) value() *N {
	if n := p.literal(); n != nil {
		return n
	}
	return p.array()
}

func (p *parser) array() *N {
	for _, q := range []string{"[]", "()"} {
		save := p.pos
		if p.lit(q[:1]) {
			p.ws()
			a := VArr()
			if n := p.literal(); n != nil {
				a.Kids = append(a.Kids, n)
				for {
					s := p.pos
					p.ws()
					if !p.lit(",") {
						p.pos = s
						break
					}
					p.ws()
					n := p.literal()
					if n == nil {
						p.pos = s
						break
					}
					a.Kids = append(a.Kids, n)
				}
				p.ws()
				p.lit(",")
			}
			p.ws()
			if p.lit(q[1:]) {
				return a
			}
		}
		p.pos = save
	}
	return nil
}

func (p *parser) literal() *N {
	for _, q := range []rune{'\'', '"'} {
		if p.peek() == q {
			save := p.pos
			p.pos++
			start := p.pos
			for {
				c := p.peek()
				if c < 0 {
					break
				}
				if c == q {
					s := string(p.in[start:p.pos])
					p.pos++
					return VStr(s)
				}
				p.pos++
			}
			p.pos = save
			return nil
		}
	}
	c := p.peek()
	if c == '0' {
		p.pos++
		return VInt(0)
	}
	if c >= '1' && c <= '9' {
		start := p.pos
		for c := p.peek(); c >= '0' && c <= '9'; c = p.peek() {
			p.pos++
		}
		return VInt(decimal(p.in[start:p.pos]))
	}
	for _, k := range []struct {
		text string
		n    *N
	}{{"true", VBool(true)}, {"false", VBool(false)}, {"TRUE", VBool(true)}, {"FALSE", VBool(false)}, {"null", VNull()}, {"NULL", VNull()}} {
		save := p.pos
		if p.lit(k.text) && !namePart(p.peek()) {
			return k.n
		}
		p.pos = save
	}
	return nil
}

// decimal is the value, or -1 if it does not fit into 64 bits.
func decimal(d []rune) int64 {
	const max = 1<<63 - 1
	v := uint64(0)
	for _, c := range d {
		x := uint64(c - '0')
		if v > (max-x)/10 {
			return -1
		}
		v = v*10 + x
	}
	return int64(v)
}
