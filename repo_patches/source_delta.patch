From 4d55fe0814c617217c8e30c121eb5303d8def21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:44:21 +0000
Subject: [PATCH 01/39] fix: print the name of every function call in Build,
 not the root's

---
 miniquery/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/miniquery/node.go b/miniquery/node.go
index c89b2f8..d472233 100644
--- a/miniquery/node.go
+++ b/miniquery/node.go
@@ -176,7 +176,7 @@ func Build(n *Node) string {
 		case ReferenceNodeType:
 			buf.WriteString(strings.Join(node.Names, "."))
 		case FunctionExpressionType:
-			buf.WriteString(n.Name)
+			buf.WriteString(node.Name)
 			buf.WriteRune('(')
 			n := len(node.Params)
 			for i, v := range node.Params {
-- 
2.43.0


From 49cd2dbd1ae99ec7f41246436a551feabea3beea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:44:21 +0000
Subject: [PATCH 02/39] fix: print string literals without escapes the grammar
 does not have

---
 miniquery/node.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/miniquery/node.go b/miniquery/node.go
index d472233..2d866c9 100644
--- a/miniquery/node.go
+++ b/miniquery/node.go
@@ -209,7 +209,14 @@ func buildValue(buf *strings.Builder, node *Node, visit func(node *Node)) {
 		}
 		buf.WriteRune(']')
 	case StringValueType:
-		_, _ = fmt.Fprintf(buf, "%q", node.Str)
+		// the grammar has no escape sequences, a string never contains its own quote
+		quote := '"'
+		if strings.ContainsRune(node.Str, quote) {
+			quote = '\''
+		}
+		buf.WriteRune(quote)
+		buf.WriteString(node.Str)
+		buf.WriteRune(quote)
 	default:
 		value := node.Value()
 		if value == nil {
-- 
2.43.0


From f89c5b58de6b5cf163256ff01fa807096ffb090e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:44:21 +0000
Subject: [PATCH 03/39] fix: drop comments inside multi-word operators

The text of a comment between the words of an operator such as 'is null'
became part of the operation and was written to the generated SQL as is.
---
 miniquery/tree.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/miniquery/tree.go b/miniquery/tree.go
index 26d4951..eee13b0 100644
--- a/miniquery/tree.go
+++ b/miniquery/tree.go
@@ -20,6 +20,7 @@ type Tree struct {
 
 var (
 	regSpace  = regexp.MustCompile(`\s+`)
+	regRemark = regexp.MustCompile(`(--|//)[^\r\n]*`)
 	normalize = map[string]string{
 		">=": "gte",
 		">":  "gt",
@@ -42,6 +43,7 @@ var (
 )
 
 func NormalizeOperation(s string) string {
+	s = regRemark.ReplaceAllString(s, " ")
 	s = strings.TrimSpace(s)
 	s = strings.ToLower(s)
 	s = regSpace.ReplaceAllString(s, " ")
-- 
2.43.0


From 466aab258889bc4901a61ba5e7bc98fad7ff91a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:44:21 +0000
Subject: [PATCH 04/39] fix: let and bind tighter than or in the syntax tree

The SQL builders print the chain flat, so the database already reads it
this way, while the tree (and the entql predicate built from it) grouped
strictly from left to right.
---
 miniquery/tree.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/miniquery/tree.go b/miniquery/tree.go
index eee13b0..c8f99a2 100644
--- a/miniquery/tree.go
+++ b/miniquery/tree.go
@@ -128,6 +128,17 @@ func (t *Tree) PopLogic() {
 	right := t.Pop()
 	op := t.Pop()
 	left := t.Pop()
+	// and binds tighter than or: a or b and c is a or (b and c)
+	if op.Operation == OpAnd && left.Type == LogicExpressionType && left.Op.Operation == OpOr {
+		left.Right = &Node{
+			Type:  LogicExpressionType,
+			Left:  left.Right,
+			Op:    op,
+			Right: right,
+		}
+		t.Push(left)
+		return
+	}
 	t.Push(&Node{
 		Type:  LogicExpressionType,
 		Left:  left,
-- 
2.43.0


From bd5ed6fe22f8785900ba469288166bd1e747da9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:44:41 +0000
Subject: [PATCH 05/39] fix: reject json references instead of dropping part of
 them

a->b = 1 was parsed as b = 1 and f(a->b) as f(a,b).
---
 miniquery/parse.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/miniquery/parse.go b/miniquery/parse.go
index 110347f..ffc88ed 100644
--- a/miniquery/parse.go
+++ b/miniquery/parse.go
@@ -1,5 +1,7 @@
 package miniquery
 
+import "errors"
+
 func Parse(s string) (*Node, error) {
 	p := &MiniQueryPeg{Tree: &Tree{}, Buffer: s}
 	if err := p.Init(); err != nil {
@@ -8,6 +10,12 @@ func Parse(s string) (*Node, error) {
 	if err := p.Parse(); err != nil {
 		return nil, err
 	}
+	for _, v := range p.Tokens() {
+		// no node represents a json path yet, its names would be read as separate operands
+		if v.pegRule == ruleJsonReference {
+			return nil, errors.New("json reference is not supported")
+		}
+	}
 	p.Execute()
 	if len(p.Errors) != 0 {
 		return nil, p.Errors[0]
-- 
2.43.0


From 035c8e28a0c0f9fdea386d113c7e80f870688beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:44:41 +0000
Subject: [PATCH 06/39] fix: accept the operators <>, gte and lte

The shorter operators <, gt and lt come first in the ordered choice, so
the longer ones could never match. The generated parser is edited by hand
to take the longer operator.
---
 miniquery/miniquery.peg    | 4 ++--
 miniquery/miniquery.peg.go | 9 +++++++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/miniquery/miniquery.peg b/miniquery/miniquery.peg
index c7accad..e4664a6 100644
--- a/miniquery/miniquery.peg
+++ b/miniquery/miniquery.peg
@@ -32,8 +32,8 @@ IdentifierReference <- {p.AddMark()} Identifier '.' Identifier ( '.' Identifier)
 JsonReference <- Identifier '->' (JsonReference / Identifier)
 Identifier    <- !"not" <[a-zA-Z]([_a-zA-Z0-9])*> {p.AddName(text)}
 
-Compare <- _ <( '>=' / '<=' / '==' / '!=' /  '>' / '<'  / '<>' / '=' )> _ {p.AddCompare(text)}
-        / _ <( "gt" / "lt" / "gte" / "lte" / "eq" / "neq" )> _ {p.AddCompare(text)}
+Compare <- _ <( '>=' / '<=' / '==' / '!=' / '<>' / '>' / '<' / '=' )> _ {p.AddCompare(text)}
+        / _ <( "gte" / "lte" / "gt" / "lt" / "eq" / "neq" )> _ {p.AddCompare(text)}
         / _ <( "like" / "not" __ "like" )> _ {p.AddCompare(text)}
         # / _ <( "in" / "not" __ "in"  )> _ {p.AddCompare(text)}
 
diff --git a/miniquery/miniquery.peg.go b/miniquery/miniquery.peg.go
index a1bac3b..f85bfd8 100644
--- a/miniquery/miniquery.peg.go
+++ b/miniquery/miniquery.peg.go
@@ -1527,6 +1527,9 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 								goto l121
 							}
 							position++
+							if buffer[position] == rune('>') {
+								position++
+							}
 							goto l117
 						l121:
 							position, tokenIndex = position117, tokenIndex117
@@ -1613,6 +1616,9 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 								position++
 							}
 						l129:
+							if buffer[position] == rune('e') || buffer[position] == rune('E') {
+								position++
+							}
 							goto l125
 						l126:
 							position, tokenIndex = position125, tokenIndex125
@@ -1646,6 +1652,9 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 								position++
 							}
 						l134:
+							if buffer[position] == rune('e') || buffer[position] == rune('E') {
+								position++
+							}
 							goto l125
 						l131:
 							position, tokenIndex = position125, tokenIndex125
-- 
2.43.0


From 13680f3926b1cf2b32ac6b9cd7935cfbe54ecd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:45:10 +0000
Subject: [PATCH 07/39] fix: accept names that begin with a keyword

Columns such as notes, nullable or true_count could not be named, because
the words not, null, true and false matched without looking at what follows.
---
 miniquery/miniquery.peg    |  6 +++---
 miniquery/miniquery.peg.go | 14 ++++++++++++++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/miniquery/miniquery.peg b/miniquery/miniquery.peg
index e4664a6..7710d8a 100644
--- a/miniquery/miniquery.peg
+++ b/miniquery/miniquery.peg
@@ -30,7 +30,7 @@ Reference     <- IdentifierReference
               / Identifier
 IdentifierReference <- {p.AddMark()} Identifier '.' Identifier ( '.' Identifier)* {p.PopIdentifierReference()}
 JsonReference <- Identifier '->' (JsonReference / Identifier)
-Identifier    <- !"not" <[a-zA-Z]([_a-zA-Z0-9])*> {p.AddName(text)}
+Identifier    <- !("not" ![_a-zA-Z0-9]) <[a-zA-Z]([_a-zA-Z0-9])*> {p.AddName(text)}
 
 Compare <- _ <( '>=' / '<=' / '==' / '!=' / '<>' / '>' / '<' / '=' )> _ {p.AddCompare(text)}
         / _ <( "gte" / "lte" / "gt" / "lt" / "eq" / "neq" )> _ {p.AddCompare(text)}
@@ -48,8 +48,8 @@ Array         <- '[' {p.AddMark()} _ (Literal ( _ ',' _ Literal)* _ ','?)? _ ']'
               /  '(' {p.AddMark()} _ (Literal ( _ ',' _ Literal)* _ ','?)? _ ')' {p.PopArray()}
 Literal       <- String / Integer / Boolean / Null
 Integer       <- <'0' / [1-9][0-9]*> {p.AddInteger(text)}
-Boolean       <- <'true' / 'false' / 'TRUE' / 'FALSE'> {p.AddBoolean(text)}
-Null          <- <'null'/'NULL'> {p.AddNull()}
+Boolean       <- <'true' / 'false' / 'TRUE' / 'FALSE'> ![_a-zA-Z0-9] {p.AddBoolean(text)}
+Null          <- <'null'/'NULL'> ![_a-zA-Z0-9] {p.AddNull()}
 String        <- "'" <[^']*> "'" {p.AddString(text)}/ '"' <[^"]*> '"' {p.AddString(text)}
 
 SpaceComment  <- (Space / Comment)
diff --git a/miniquery/miniquery.peg.go b/miniquery/miniquery.peg.go
index f85bfd8..afa4207 100644
--- a/miniquery/miniquery.peg.go
+++ b/miniquery/miniquery.peg.go
@@ -502,6 +502,11 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 		return false
 	}
 
+	isNamePart := func() bool {
+		c := buffer[position]
+		return c == '_' || (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')
+	}
+
 	/*matchChar := func(c byte) bool {
 		if buffer[position] == c {
 			position++
@@ -1411,6 +1416,9 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 						position++
 					}
 				l104:
+					if isNamePart() {
+						goto l99
+					}
 					goto l97
 				l99:
 					position, tokenIndex = position99, tokenIndex99
@@ -2783,6 +2791,9 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 
 					add(rulePegText, position245)
 				}
+				if isNamePart() {
+					goto l243
+				}
 				if !_rules[ruleAction26]() {
 					goto l243
 				}
@@ -2841,6 +2852,9 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 				l250:
 					add(rulePegText, position249)
 				}
+				if isNamePart() {
+					goto l247
+				}
 				if !_rules[ruleAction27]() {
 					goto l247
 				}
-- 
2.43.0


From e3633afad628ebe4e2f7052e68193b2f589b5cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:45:11 +0000
Subject: [PATCH 08/39] fix: make Visitor usable on every parsed tree

Init set its defaults on a copy, so a missing handler stayed nil and Visit
crashed. Function calls went to the between handler and references had none.
---
 miniquery/visitor.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/miniquery/visitor.go b/miniquery/visitor.go
index 3373fa1..5b1aa21 100644
--- a/miniquery/visitor.go
+++ b/miniquery/visitor.go
@@ -18,12 +18,13 @@ type (
 		ParenthesesExpression VisitFunc
 		NotExpression         VisitFunc
 		IdentifierNode        VisitFunc
+		ReferenceNode         VisitFunc
 		OperationNode         VisitFunc
 		ValueNode             VisitFunc
 	}
 )
 
-func (v Visitor) Init() {
+func (v *Visitor) Init() {
 	noop := func(ctx context.Context, node *Node) (err error) {
 		return
 	}
@@ -33,6 +34,9 @@ func (v Visitor) Init() {
 	if v.IdentifierNode == nil {
 		v.IdentifierNode = noop
 	}
+	if v.ReferenceNode == nil {
+		v.ReferenceNode = noop
+	}
 	if v.ParenthesesExpression == nil {
 		v.ParenthesesExpression = func(ctx context.Context, node *Node) error {
 			return v.Visit(ctx, node.Expression)
@@ -129,7 +133,9 @@ func (v Visitor) Visit(ctx context.Context, n *Node) error {
 	case BetweenExpressionType:
 		return v.BetweenExpression(ctx, n)
 	case FunctionExpressionType:
-		return v.BetweenExpression(ctx, n)
+		return v.FunctionExpression(ctx, n)
+	case ReferenceNodeType:
+		return v.ReferenceNode(ctx, n)
 	}
 	return errors.Errorf("invalid type %q", n.Type)
 }
-- 
2.43.0


From 17daf97a1a2b74f35d333dd8b622ae62a06ac44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:45:28 +0000
Subject: [PATCH 09/39] fix: separate the arguments of date in the generated
 SQL

---
 gormq/miniquery.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 278a07f..82d87de 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -213,7 +213,10 @@ func (qb *queryBuilder) visitFunction(node *miniquery.Node) (err error) {
 	case "date":
 		buf.WriteString(node.Name)
 		buf.WriteString("(")
-		for _, v := range node.Params {
+		for i, v := range node.Params {
+			if i > 0 {
+				buf.WriteString(", ")
+			}
 			if err = visit(v); err != nil {
 				return
 			}
-- 
2.43.0


From 25ba18a861ca63249026042d4fbe863ff91b7cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:45:29 +0000
Subject: [PATCH 10/39] fix: do not resolve fields that have no column

The name of a relation or of an ignored field resolved to the empty column
name, which was quoted as a lone quote character.
---
 gormq/miniquery.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 82d87de..b52fa7f 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -232,11 +232,11 @@ func getDBName(st *schema.Schema, name string) (string, bool) {
 	if _, ok := st.FieldsByDBName[name]; ok {
 		return name, true
 	}
-	if f, ok := st.FieldsByName[name]; ok {
+	if f, ok := st.FieldsByName[name]; ok && f.DBName != "" {
 		return f.DBName, true
 	}
 	for _, f := range st.Fields {
-		if strings.EqualFold(f.Name, name) {
+		if f.DBName != "" && strings.EqualFold(f.Name, name) {
 			return f.DBName, true
 		}
 	}
-- 
2.43.0


From 88a810f3334a5523f7344a67be693bbbaedd53aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:45:30 +0000
Subject: [PATCH 11/39] fix: reject joined queries that are not valid on their
 own

'1=1) or (1=1' joined with another query gave '(1=1) or (1=1) and (...)',
which is valid and cancels the other query.
---
 gormq/miniquery.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index b52fa7f..15a700d 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -16,6 +16,16 @@ type MiniQuery struct {
 }
 
 func (q MiniQuery) Scope(db *gorm.DB) *gorm.DB {
+	for _, v := range q.Query {
+		if strings.TrimSpace(v) == "" {
+			continue
+		}
+		// a query must be valid on its own, or it can escape the parentheses of the join
+		if _, err := miniquery.Parse(v); err != nil {
+			_ = db.AddError(fmt.Errorf("invalid query syntax: %v", err))
+			return db
+		}
+	}
 	return WireMiniQuery(db, miniquery.Join(q.Query))
 }
 
-- 
2.43.0


From ba5b44419b788362119162256cb5132a98149883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:45:31 +0000
Subject: [PATCH 12/39] fix: qualify the columns of the model when the query
 joins a relation

'id = 1 and Profile.age > 1' failed with an ambiguous column name.
---
 gormq/miniquery.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 15a700d..56a5d2e 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -68,6 +68,8 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 	var vals []interface{}
 	buf := &strings.Builder{}
 	joined := map[string][]string{}
+	// a joined table may have a column of the same name
+	qualify := len(db.Statement.Joins) > 0
 	quote := func(builder *strings.Builder, name string) {
 		db.QuoteTo(builder, name)
 	}
@@ -81,6 +83,9 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 			if !ok {
 				return s, fmt.Errorf("field not found: %q", s)
 			}
+			if qualify {
+				n = db.Statement.Table + "." + n
+			}
 			return n, nil
 		},
 		join: func(s string, fieldName string) (string, error) {
@@ -105,6 +110,12 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 		quote: quote,
 	}
 	err = qb.visit(ast)
+	if err == nil && len(joined) > 0 && !qualify {
+		qualify = true
+		vals = nil
+		buf.Reset()
+		err = qb.visit(ast)
+	}
 	if err != nil {
 		_ = db.AddError(err)
 	} else {
-- 
2.43.0


From fe9168569498136f2c0a965bc1c451881b563d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:00 +0000
Subject: [PATCH 13/39] fix: negate not expressions in entql

The error check was inverted, so 'not a = 1' was built as 'a = 1'.
---
 entmq/entql.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/entmq/entql.go b/entmq/entql.go
index 7f08713..e32981f 100644
--- a/entmq/entql.go
+++ b/entmq/entql.go
@@ -86,8 +86,12 @@ func (mb *MiniQLToEntQLBuilder) visit(node *miniquery.Node) (err error) {
 		err = visit(node.Expression)
 	case miniquery.NotExpressionType:
 		err = visit(node.Expression)
-		if err != nil {
-			mb.push(entql.Not(mb.pop().(entql.P)))
+		if err == nil {
+			p, ok := mb.pop().(entql.P)
+			if !ok {
+				return errors.Errorf("not a predicate: %q", node.Expression)
+			}
+			mb.push(entql.Not(p))
 		}
 	case miniquery.FunctionExpressionType:
 		// err = qb.visitFunction(node)
-- 
2.43.0


From 776f72133ce92c6869de220067b7f3b924eb2d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:01 +0000
Subject: [PATCH 14/39] fix: report a query that is not a predicate instead of
 crashing in entql

---
 entmq/entql.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/entmq/entql.go b/entmq/entql.go
index e32981f..647dd4f 100644
--- a/entmq/entql.go
+++ b/entmq/entql.go
@@ -54,7 +54,10 @@ func (mb *MiniQLToEntQLBuilder) Build() (p entql.P, err error) {
 	}
 	err = mb.visit(node)
 	if err == nil && len(mb.stack) > 0 {
-		p = mb.pop().(entql.P)
+		var ok bool
+		if p, ok = mb.pop().(entql.P); !ok {
+			return nil, errors.Errorf("not a predicate: %q", node)
+		}
 		if len(mb.stack) > 1 {
 			slog.With("query", mb.Query).Error("unexpected MiniQLBuilder stack size", "size", len(mb.stack))
 		}
-- 
2.43.0


From 0c465bf08f30765efda75a1f1846a5704d1c2906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:01 +0000
Subject: [PATCH 15/39] fix: reject function calls in entql

A call was skipped without an error, so the filter was dropped or the
builder crashed.
---
 entmq/entql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/entmq/entql.go b/entmq/entql.go
index 647dd4f..3a488b8 100644
--- a/entmq/entql.go
+++ b/entmq/entql.go
@@ -98,7 +98,7 @@ func (mb *MiniQLToEntQLBuilder) visit(node *miniquery.Node) (err error) {
 		}
 	case miniquery.FunctionExpressionType:
 		// err = qb.visitFunction(node)
-
+		return errors.Errorf("unsupported function: %q", node.Name)
 	case miniquery.BetweenExpressionType:
 		err = visit(node.Left)
 		if err == nil {
-- 
2.43.0


From 790fedf76af756c68231178fb94eb42bcf96d3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:02 +0000
Subject: [PATCH 16/39] fix: build null predicates in entql instead of crashing

---
 entmq/entql.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/entmq/entql.go b/entmq/entql.go
index 3a488b8..dda120f 100644
--- a/entmq/entql.go
+++ b/entmq/entql.go
@@ -132,7 +132,21 @@ func (mb *MiniQLToEntQLBuilder) visit(node *miniquery.Node) (err error) {
 
 		}
 	case miniquery.PredicatesExpressionType:
-		panic("TODO")
+		err = visit(node.Left)
+		if err == nil {
+			field, ok := mb.pop().(*entql.Field)
+			if !ok {
+				return errors.Errorf("unexpected predicate on %q", node.Left)
+			}
+			switch node.Op.Operation {
+			case miniquery.OpIsNull:
+				mb.push(entql.FieldNil(field.Name))
+			case miniquery.OpIsNotNull:
+				mb.push(entql.FieldNotNil(field.Name))
+			default:
+				return errors.Errorf("unexpected predicate op %q", node.Op.Operation)
+			}
+		}
 	case miniquery.LogicExpressionType:
 		fallthrough
 	case miniquery.CompareExpressionType:
-- 
2.43.0


From 80abc4f36cb62e619e629fe6eda0edfca6cdcf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:03 +0000
Subject: [PATCH 17/39] fix: skip empty queries in ApplyEntQL instead of
 applying a nil predicate

---
 entmq/entql.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/entmq/entql.go b/entmq/entql.go
index dda120f..ea62342 100644
--- a/entmq/entql.go
+++ b/entmq/entql.go
@@ -15,6 +15,9 @@ func ApplyEntQL(q interface{ Where(p entql.P) }, queries []string) error {
 		if err != nil {
 			return errors.Wrapf(err, "failed to apply query: %q", v)
 		}
+		if p == nil {
+			continue
+		}
 		q.Where(p)
 	}
 	return nil
-- 
2.43.0


From 351b0fd36d47e16fc662008b389db9925190eb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:04 +0000
Subject: [PATCH 18/39] fix: require exactly one argument for date in entsql

date() crashed and the second argument of date(a, b) was ignored.
---
 entmq/entsql.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 3f1c888..33ef015 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -90,6 +90,10 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 		case "date":
 			// 截取为日期
 			// date(xxx)
+			if len(node.Params) != 1 {
+				err = errors.Errorf("date expects one argument, got %d", len(node.Params))
+				break
+			}
 			s.WriteString("DATE(")
 			err = mb.visit(node.Params[0])
 			s.WriteString(")")
-- 
2.43.0


From 56d9ce39f99ada09fdf346786b9b99392a22e04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:05 +0000
Subject: [PATCH 19/39] fix: report has_edge without a node instead of crashing

---
 entmq/entsql.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 33ef015..cac380a 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -106,6 +106,10 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 			}
 
 			tab := mb.Node
+			if tab == nil {
+				err = errors.New("has_edge requires a node")
+				break
+			}
 			builder := sql.Dialect(mb.Dialect()).Select().From(sql.Table(tab.Table).Schema(tab.Schema))
 			edge, ok := tab.Edges[params[0].Name]
 			if !ok {
-- 
2.43.0


From 3133c8815cd8791dc86320ecadb8e352331f6699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:05 +0000
Subject: [PATCH 20/39] fix: negate both bounds of between in entsql

'not a between 1 and 3' was written as 'NOT a >= 1 AND a <= 3'.
---
 entmq/entsql.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index cac380a..360b228 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -83,7 +83,15 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 		s.WriteString(")")
 	case miniquery.NotExpressionType:
 		s.WriteString("NOT ")
+		// between is written as two comparisons
+		wrap := node.Expression.Type == miniquery.BetweenExpressionType
+		if wrap {
+			s.WriteString("(")
+		}
 		err = visit(node.Expression)
+		if wrap {
+			s.WriteString(")")
+		}
 	case miniquery.FunctionExpressionType:
 		// err = qb.visitFunction(node)
 		switch node.Name {
-- 
2.43.0


From 4c765eef0184dad7a86930c478cd891bbbfd142d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:06 +0000
Subject: [PATCH 21/39] fix: keep a top level or together in entsql

The selector joins predicates with AND and does not add parentheses, so
has_edge(pets, a = 1 or b = 2) matched pets of any owner with b = 2.
---
 entmq/entsql.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 360b228..15cf98e 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -33,7 +33,7 @@ func (mb *MiniQLToEntSQLBuilder) Query() (string, []interface{}) {
 		}
 		mb.ast = ast
 	}
-	err := mb.visit(mb.ast)
+	err := mb.visitRoot(mb.ast)
 	if err != nil {
 		mb.AddError(err)
 		return "", nil
@@ -41,6 +41,14 @@ func (mb *MiniQLToEntSQLBuilder) Query() (string, []interface{}) {
 	return mb.Builder.Query()
 }
 
+// visitRoot keeps the query intact when it is combined with other predicates
+func (mb *MiniQLToEntSQLBuilder) visitRoot(node *miniquery.Node) error {
+	if node.Type == miniquery.LogicExpressionType && node.Op.Operation == miniquery.OpOr {
+		node = &miniquery.Node{Type: miniquery.ParenthesesExpressionType, Expression: node}
+	}
+	return mb.visit(node)
+}
+
 //nolint:golint,gocyclo
 func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 	visit := mb.visit
-- 
2.43.0


From 0a4802a1651811953c6a0eb7e64968e4f5403923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:46 +0000
Subject: [PATCH 22/39] fix: write has_edge to SQLBuilder when it is set

The edge predicate went to the embedded builder, so it was missing from
the output.
---
 entmq/entsql.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 15cf98e..030cdde 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -126,7 +126,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 				err = errors.New("has_edge requires a node")
 				break
 			}
-			builder := sql.Dialect(mb.Dialect()).Select().From(sql.Table(tab.Table).Schema(tab.Schema))
+			builder := sql.Dialect(s.Dialect()).Select().From(sql.Table(tab.Table).Schema(tab.Schema))
 			edge, ok := tab.Edges[params[0].Name]
 			if !ok {
 				err = errors.Errorf("不存在关联: %q", params[0].Name)
@@ -172,7 +172,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 				rf = reflect.NewAt(rf.Type(), unsafe.Pointer(rf.UnsafeAddr())).Elem()
 				p := rf.Interface().(*sql.Predicate)
 				err = p.Err()
-				mb.Join(p)
+				s.Join(p)
 			}
 		default:
 			err = errors.Errorf("不支持的函数: %q", node.Name)
-- 
2.43.0


From fd55bd084d15e28b8b8792d1bc176b2885577cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:47 +0000
Subject: [PATCH 23/39] fix: relate a nested has_edge to the table of its own
 level

The table of the outer edge may have an alias. A nested edge of the same
table was tied to the outermost row and one behind a M2M edge to a table
that is not in scope.
---
 entmq/entsql.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 030cdde..b93639f 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -21,6 +21,7 @@ type MiniQLToEntSQLBuilder struct {
 	Graph       *sqlgraph.Schema
 	sql.Builder
 	DisableTypeCasting bool
+	selector           *sql.Selector // selects from Node, set for the condition of has_edge
 }
 
 // Query impl sql.Querier
@@ -127,6 +128,9 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 				break
 			}
 			builder := sql.Dialect(s.Dialect()).Select().From(sql.Table(tab.Table).Schema(tab.Schema))
+			if mb.selector != nil {
+				builder = mb.selector.Clone().SetP(nil)
+			}
 			edge, ok := tab.Edges[params[0].Name]
 			if !ok {
 				err = errors.Errorf("不存在关联: %q", params[0].Name)
@@ -153,6 +157,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 						mb := &MiniQLToEntSQLBuilder{
 							ast:                params[1],
 							Node:               edge.To,
+							selector:           selector,
 							DisableTypeCasting: mb.DisableTypeCasting,
 						}
 						builder.Join(mb)
-- 
2.43.0


From 1767b4d9b59eb9becaca6abb273dfee83e789a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:48 +0000
Subject: [PATCH 24/39] fix: report errors in the condition of has_edge

---
 entmq/entsql.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index b93639f..fe17794 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -116,6 +116,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 			s.WriteString(")")
 		case "has_edge":
 
+			var edgeErr error
 			params := node.Params
 			if len(params) == 0 || params[0].Name == "" {
 				err = errors.New("关联参数错误")
@@ -164,6 +165,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 						err := mb.Err()
 						if err != nil {
 							builder.AddError(err)
+							edgeErr = err
 						}
 					}))
 				})
@@ -178,6 +180,10 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 				p := rf.Interface().(*sql.Predicate)
 				err = p.Err()
 				s.Join(p)
+				if err == nil {
+					// errors do not pass through the subquery
+					err = edgeErr
+				}
 			}
 		default:
 			err = errors.Errorf("不支持的函数: %q", node.Name)
-- 
2.43.0


From 1efd2d5015baa6c409572e87a9e03b4a3ea87b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:58 +0000
Subject: [PATCH 25/39] fix: keep aliases apart in a nested has_edge on the
 same table

A nested edge without a condition got the alias of the outer edge, so it
was tied to itself.
---
 entmq/entsql.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index fe17794..33feb8c 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -139,11 +139,17 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 			}
 			switch len(params) {
 			case 1:
-				sqlgraph.HasNeighbors(builder, sqlgraph.NewStep(
+				step := sqlgraph.NewStep(
 					sqlgraph.From(tab.Table, tab.ID.Column),
 					sqlgraph.To(edge.To.Table, edge.To.ID.Column),
 					sqlgraph.Edge(edge.Spec.Rel, edge.Spec.Inverse, edge.Spec.Table, edge.Spec.Columns...),
-				))
+				)
+				if mb.selector != nil {
+					// HasNeighbors may reuse the alias of the outer edge
+					sqlgraph.HasNeighborsWith(builder, step, func(*sql.Selector) {})
+				} else {
+					sqlgraph.HasNeighbors(builder, step)
+				}
 			case 2:
 				if !params[1].IsExpression() {
 					err = errors.Errorf("关联条件错误: %q", params[1].String())
-- 
2.43.0


From 69dc4ec23e041d16d91640ef24bd6e8e0efb6c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:53 +0000
Subject: [PATCH 26/39] fix: qualify the columns of the model also if a later
 query joins

'id = 1' followed by a second query 'Profile.age > 1' on the same statement
failed with an ambiguous column name.
---
 gormq/miniquery.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 56a5d2e..97f434d 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -7,6 +7,7 @@ import (
 	"github.com/pkg/errors"
 	"github.com/wenerme/go-miniquery/miniquery"
 	"gorm.io/gorm"
+	"gorm.io/gorm/clause"
 	"gorm.io/gorm/schema"
 )
 
@@ -68,8 +69,6 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 	var vals []interface{}
 	buf := &strings.Builder{}
 	joined := map[string][]string{}
-	// a joined table may have a column of the same name
-	qualify := len(db.Statement.Joins) > 0
 	quote := func(builder *strings.Builder, name string) {
 		db.QuoteTo(builder, name)
 	}
@@ -83,9 +82,6 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 			if !ok {
 				return s, fmt.Errorf("field not found: %q", s)
 			}
-			if qualify {
-				n = db.Statement.Table + "." + n
-			}
 			return n, nil
 		},
 		join: func(s string, fieldName string) (string, error) {
@@ -110,12 +106,6 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 		quote: quote,
 	}
 	err = qb.visit(ast)
-	if err == nil && len(joined) > 0 && !qualify {
-		qualify = true
-		vals = nil
-		buf.Reset()
-		err = qb.visit(ast)
-	}
 	if err != nil {
 		_ = db.AddError(err)
 	} else {
@@ -149,7 +139,6 @@ func (qb *queryBuilder) visitReference(node *miniquery.Node) (err error) {
 func (qb *queryBuilder) visitIdentifier(node *miniquery.Node) (err error) {
 	buf := qb.buf
 	mapName := qb.mapName
-	quote := qb.quote
 	name := node.Name
 	/* extension to support custom virtual column */
 	// switch name {
@@ -164,10 +153,22 @@ func (qb *queryBuilder) visitIdentifier(node *miniquery.Node) (err error) {
 	if err != nil {
 		return err
 	}
-	quote(buf, name)
+	buf.WriteRune('?')
+	qb.addValue(modelColumn(name))
 	return
 }
 
+// modelColumn is qualified if the statement joins, a joined table may have a column of the same name
+type modelColumn string
+
+func (c modelColumn) Build(builder clause.Builder) {
+	name := string(c)
+	if stmt, ok := builder.(*gorm.Statement); ok && len(stmt.Joins) > 0 {
+		name = stmt.Table + "." + name
+	}
+	builder.WriteQuoted(name)
+}
+
 func (qb *queryBuilder) visit(node *miniquery.Node) (err error) {
 	buf := qb.buf
 	addValue := qb.addValue
-- 
2.43.0


From 533c66e32dee615c40ffd1c4becdc65aeca4d669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:46 +0000
Subject: [PATCH 27/39] fix: cast integers beyond 32 bit to bigint

In Postgres 'int' has 32 bit, so 'id = 5000000000' failed as out of range.
---
 entmq/entsql_util.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/entmq/entsql_util.go b/entmq/entsql_util.go
index adbb34c..fb7ea9d 100644
--- a/entmq/entsql_util.go
+++ b/entmq/entsql_util.go
@@ -2,6 +2,7 @@ package entmq
 
 import (
 	"database/sql/driver"
+	"math"
 
 	"entgo.io/ent/dialect"
 	"entgo.io/ent/dialect/sql"
@@ -19,9 +20,12 @@ func (f typeCastParamFormatter) FormatParam(placeholder string, info *sql.StmtIn
 	// https://github.com/jackc/pgx/issues/798 pg 需要 cast 来支持 1=1 -> $1=$2
 	if info.Dialect == dialect.Postgres {
 		var typ string
-		switch f.v.(type) {
+		switch v := f.v.(type) {
 		case int:
 			typ = "int"
+			if v > math.MaxInt32 || v < math.MinInt32 {
+				typ = "bigint"
+			}
 		// 字符串不 cast - 处理时间和字符串比较的场景
 		// case string:
 		//	typ = "text"
-- 
2.43.0


From aa01814a5e45cc2bac917d01bd6063700e68f1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:48 +0000
Subject: [PATCH 28/39] fix: report operands of and, or that are not conditions
 in entql

---
 entmq/entql.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/entmq/entql.go b/entmq/entql.go
index ea62342..bcf2eb0 100644
--- a/entmq/entql.go
+++ b/entmq/entql.go
@@ -164,6 +164,9 @@ func (mb *MiniQLToEntQLBuilder) visit(node *miniquery.Node) (err error) {
 			if !found {
 				return errors.Errorf("unexpected op %q", node.Op.Operation)
 			}
+			if node.Type == miniquery.LogicExpressionType && !(isCondition(left) && isCondition(right)) {
+				return errors.Errorf("not a predicate: %q", node)
+			}
 			mb.push(&entql.BinaryExpr{
 				Op: op,
 				X:  left,
@@ -176,6 +179,18 @@ func (mb *MiniQLToEntQLBuilder) visit(node *miniquery.Node) (err error) {
 	return err
 }
 
+// isCondition tells if e can be an operand of and, or
+func isCondition(e entql.Expr) bool {
+	switch e := e.(type) {
+	case entql.P:
+		return true
+	case *entql.Value:
+		_, ok := e.V.(bool)
+		return ok
+	}
+	return false
+}
+
 var entqlOpMap = map[miniquery.OpType]entql.Op{
 	miniquery.OpAnd:   entql.OpAnd,
 	miniquery.OpOr:    entql.OpOr,
-- 
2.43.0


From 529641ecc4aafad616da37e28d8db034d78f99c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:04 +0000
Subject: [PATCH 29/39] fix: keep the name of a related column out of the
 placeholders

A related column is now passed as an expression. Its name was part of the
condition's text, where gorm took a question mark in it for a placeholder.
---
 gormq/miniquery.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 97f434d..91f3b09 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -69,9 +69,6 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 	var vals []interface{}
 	buf := &strings.Builder{}
 	joined := map[string][]string{}
-	quote := func(builder *strings.Builder, name string) {
-		db.QuoteTo(builder, name)
-	}
 	qb := &queryBuilder{
 		buf: buf,
 		addValue: func(i interface{}) {
@@ -103,7 +100,6 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 			// fixme quote
 			return s + "." + name, nil
 		},
-		quote: quote,
 	}
 	err = qb.visit(ast)
 	if err != nil {
@@ -118,7 +114,6 @@ type queryBuilder struct {
 	buf      *strings.Builder
 	addValue func(interface{})
 	mapName  func(s string) (string, error)
-	quote    func(builder *strings.Builder, name string)
 	join     func(s string, f string) (string, error)
 }
 
@@ -130,9 +125,9 @@ func (qb *queryBuilder) visitReference(node *miniquery.Node) (err error) {
 	if err != nil {
 		return err
 	}
-	quote := qb.quote
-	buf := qb.buf
-	quote(buf, name)
+	// not in the text, the name of a column may contain a placeholder
+	qb.buf.WriteRune('?')
+	qb.addValue(clause.Column{Name: name})
 	return
 }
 
-- 
2.43.0


From d995de1a276746c02cc2bc3159752292e734b71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:35:03 +0000
Subject: [PATCH 30/39] fix: start from nothing when an entsql builder is
 queried again

---
 entmq/entsql.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 33feb8c..53da317 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -34,12 +34,18 @@ func (mb *MiniQLToEntSQLBuilder) Query() (string, []interface{}) {
 		}
 		mb.ast = ast
 	}
+	start := mb.Builder
 	err := mb.visitRoot(mb.ast)
 	if err != nil {
 		mb.AddError(err)
 		return "", nil
 	}
-	return mb.Builder.Query()
+	query, args := mb.Builder.Query()
+	if mb.Err() == nil {
+		// a statement may be written more than once, the next time must not add to this one
+		mb.Builder = start
+	}
+	return query, args
 }
 
 // visitRoot keeps the query intact when it is combined with other predicates
-- 
2.43.0


From cce576ffda17bbe18b29707546242d453802d797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:21:33 +0000
Subject: [PATCH 31/39] fix: keep the error of a gorm query off a shared
 session

Applying an invalid query directly to a session or connection stored the
error there, so that all later statements of that session failed.
---
 gormq/miniquery.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 91f3b09..7026e67 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -23,6 +23,7 @@ func (q MiniQuery) Scope(db *gorm.DB) *gorm.DB {
 		}
 		// a query must be valid on its own, or it can escape the parentheses of the join
 		if _, err := miniquery.Parse(v); err != nil {
+			db = ownStatement(db)
 			_ = db.AddError(fmt.Errorf("invalid query syntax: %v", err))
 			return db
 		}
@@ -55,6 +56,7 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 	if query == "" {
 		return db
 	}
+	db = ownStatement(db)
 	ast, err := miniquery.Parse(query)
 	if err != nil {
 		_ = db.AddError(fmt.Errorf("invalid query syntax: %v", err))
@@ -110,6 +112,11 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 	return db
 }
 
+// ownStatement keeps errors off a session that is used for other statements too
+func ownStatement(db *gorm.DB) *gorm.DB {
+	return db.Model(db.Statement.Model)
+}
+
 type queryBuilder struct {
 	buf      *strings.Builder
 	addValue func(interface{})
-- 
2.43.0


From 2cf9b74631a66842040e2ea52cedfb18b72a9ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:03:08 +0000
Subject: [PATCH 32/39] fix: report a query nested too deeply instead of
 overflowing the stack

Go ends the process when a stack overflows, so a text of a few hundred thousand
parentheses or a very long chain of operators could stop a server. Queries with
more than 100000 levels now give an error.
---
 miniquery/parse.go | 68 ++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 66 insertions(+), 2 deletions(-)

diff --git a/miniquery/parse.go b/miniquery/parse.go
index ffc88ed..348b072 100644
--- a/miniquery/parse.go
+++ b/miniquery/parse.go
@@ -1,8 +1,19 @@
 package miniquery
 
-import "errors"
+import (
+	"errors"
+	"strings"
+)
+
+// maxDepth keeps the recursion over a query away from the limit of the stack, which can not be recovered from
+const maxDepth = 100000
+
+var errTooDeep = errors.New("query is nested too deeply")
 
 func Parse(s string) (*Node, error) {
+	if nesting(s) > maxDepth {
+		return nil, errTooDeep
+	}
 	p := &MiniQueryPeg{Tree: &Tree{}, Buffer: s}
 	if err := p.Init(); err != nil {
 		return nil, err
@@ -20,5 +31,58 @@ func Parse(s string) (*Node, error) {
 	if len(p.Errors) != 0 {
 		return nil, p.Errors[0]
 	}
-	return p.Pop(), nil
+	n := p.Pop()
+	if height(n) > maxDepth {
+		return nil, errTooDeep
+	}
+	return n, nil
+}
+
+// nesting is the number of parentheses open at the same time
+func nesting(s string) (deepest int) {
+	open := 0
+	for i := 0; i < len(s); i++ {
+		switch c := s[i]; c {
+		case '\'', '"':
+			n := strings.IndexByte(s[i+1:], c)
+			if n < 0 {
+				return
+			}
+			i += n + 1
+		case '-', '/':
+			if !strings.HasPrefix(s[i+1:], string(c)) {
+				continue
+			}
+			n := strings.IndexAny(s[i:], "\r\n")
+			if n < 0 {
+				return
+			}
+			i += n
+		case '(':
+			open++
+			deepest = max(deepest, open)
+		case ')':
+			open--
+		}
+	}
+	return
+}
+
+// height does not recurse, long chains of operators are high trees
+func height(n *Node) (highest int) {
+	type level struct {
+		node *Node
+		at   int
+	}
+	for todo := []level{{n, 1}}; len(todo) > 0; {
+		l := todo[len(todo)-1]
+		todo = todo[:len(todo)-1]
+		highest = max(highest, l.at)
+		for _, k := range append([]*Node{l.node.Left, l.node.Right, l.node.Expression}, l.node.Params...) {
+			if k != nil {
+				todo = append(todo, level{k, l.at + 1})
+			}
+		}
+	}
+	return
 }
-- 
2.43.0


From 3d8972ae4b8eee642c605c464aca1ff0e52f6166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:18:03 +0000
Subject: [PATCH 33/39] fix: show a tree in time proportional to its size

Every level copied the text of the levels below it.
Showing a chain of 100000 operators took more than a minute.
---
 miniquery/node.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/miniquery/node.go b/miniquery/node.go
index 2d866c9..3b6b05b 100644
--- a/miniquery/node.go
+++ b/miniquery/node.go
@@ -90,32 +90,37 @@ func (n Node) IsExpression() bool {
 
 func (n Node) String() string {
 	buf := &strings.Builder{}
+	n.writeString(buf)
+	return buf.String()
+}
+
+func (n *Node) writeString(buf *strings.Builder) {
 	buf.WriteString(string(n.Type))
 	buf.WriteString("(")
 
 	switch n.Type {
 	case BetweenExpressionType:
-		buf.WriteString(n.Params[0].String())
+		n.Params[0].writeString(buf)
 		buf.WriteString(",")
-		buf.WriteString(n.Params[1].String())
+		n.Params[1].writeString(buf)
 	case PredicatesExpressionType:
 		buf.WriteString(n.Operation)
 	case LogicExpressionType:
-		buf.WriteString(n.Op.String())
+		n.Op.writeString(buf)
 		buf.WriteString(",")
-		buf.WriteString(n.Left.String())
+		n.Left.writeString(buf)
 		buf.WriteString(",")
-		buf.WriteString(n.Right.String())
+		n.Right.writeString(buf)
 	case CompareExpressionType:
-		buf.WriteString(n.Left.String())
+		n.Left.writeString(buf)
 		buf.WriteString(",")
-		buf.WriteString(n.Op.String())
+		n.Op.writeString(buf)
 		buf.WriteString(",")
-		buf.WriteString(n.Right.String())
+		n.Right.writeString(buf)
 	case ParenthesesExpressionType:
 		fallthrough
 	case NotExpressionType:
-		buf.WriteString(n.Expression.String())
+		n.Expression.writeString(buf)
 	case ValueNodeType:
 		_, _ = fmt.Fprint(buf, n.Value())
 	case OperationNodeType:
@@ -128,13 +133,12 @@ func (n Node) String() string {
 		buf.WriteString(n.Name)
 		for _, v := range n.Params {
 			buf.WriteString(",")
-			buf.WriteString(v.String())
+			v.writeString(buf)
 		}
 	default:
 		buf.WriteString("unknown")
 	}
 	buf.WriteString(")")
-	return buf.String()
 }
 
 func Build(n *Node) string {
-- 
2.43.0


From 985e19e8c3b28a100cdd30112855d89f775271eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:18:03 +0000
Subject: [PATCH 34/39] fix: write the operand of between once when it is an
 expression

The operand was written twice, so that nested between expressions
doubled the SQL with every level.
---
 entmq/entsql.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 53da317..a351b13 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -201,6 +201,19 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 			err = errors.Errorf("不支持的函数: %q", node.Name)
 		}
 	case miniquery.BetweenExpressionType:
+		if node.Left.IsExpression() {
+			// written once, otherwise nesting doubles the text with each level
+			err = visit(node.Left)
+			if err == nil {
+				s.Pad().WriteString(strings.ToUpper(node.Op.Operation)).Pad()
+				err = visit(node.Params[0])
+			}
+			if err == nil {
+				s.WriteString(" AND ")
+				err = visit(node.Params[1])
+			}
+			break
+		}
 		lo := sql.OpGTE
 		ro := sql.OpLTE
 		if node.Op.Operation == miniquery.OpNotBetween {
-- 
2.43.0


From dfbaa35524817f1b8bfe539fbe5a70c719aa508c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:16:28 +0000
Subject: [PATCH 35/39] fix: keep the error of a parser that goes on with
 another text

The error looked up its place in the current text of the parser. After
Reset with a shorter text, printing the error of the earlier text showed
the wrong piece or panicked.
---
 miniquery/miniquery.peg.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/miniquery/miniquery.peg.go b/miniquery/miniquery.peg.go
index afa4207..19f4926 100644
--- a/miniquery/miniquery.peg.go
+++ b/miniquery/miniquery.peg.go
@@ -483,7 +483,8 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 			p.Trim(tokenIndex)
 			return nil
 		}
-		return &parseError{p, max}
+		// the error stays as it is when the parser goes on with another text
+		return &parseError{&MiniQueryPeg{buffer: p.buffer, Pretty: p.Pretty}, max}
 	}
 
 	add := func(rule pegRule, begin uint32) {
-- 
2.43.0


From 896f1843bf1041f13e0f0009c5a2aeca90fd7e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:34:26 +0000
Subject: [PATCH 36/39] fix: look for neighbours in the schema of their table

has_edge named the tables of the neighbours and of the edge without their
schema, so it looked at other tables or failed.
---
 entmq/entsql.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index a351b13..c6336fd 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -149,6 +149,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 					sqlgraph.From(tab.Table, tab.ID.Column),
 					sqlgraph.To(edge.To.Table, edge.To.ID.Column),
 					sqlgraph.Edge(edge.Spec.Rel, edge.Spec.Inverse, edge.Spec.Table, edge.Spec.Columns...),
+					stepSchemas(edge.To.Schema, edge.Spec.Schema),
 				)
 				if mb.selector != nil {
 					// HasNeighbors may reuse the alias of the outer edge
@@ -165,6 +166,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 					sqlgraph.From(tab.Table, tab.ID.Column),
 					sqlgraph.To(edge.To.Table, edge.To.ID.Column),
 					sqlgraph.Edge(edge.Spec.Rel, edge.Spec.Inverse, edge.Spec.Table, edge.Spec.Columns...),
+					stepSchemas(edge.To.Schema, edge.Spec.Schema),
 				), func(selector *sql.Selector) {
 					selector.Where(sql.P(func(builder *sql.Builder) {
 						mb := &MiniQLToEntSQLBuilder{
@@ -273,6 +275,14 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 	return err
 }
 
+// stepSchemas tells where the tables of the step are, if not in the default schema
+func stepSchemas(to, edge string) sqlgraph.StepOption {
+	return func(step *sqlgraph.Step) {
+		step.To.Schema = to
+		step.Edge.Schema = edge
+	}
+}
+
 var entsqlOpMap = map[miniquery.OpType]sql.Op{
 	miniquery.OpEQ:        sql.OpEQ,
 	miniquery.OpNEQ:       sql.OpNEQ,
-- 
2.43.0


From 118b3ef5097421f9c192c1079c8574a403c942b2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 09:20:47 +0000
Subject: [PATCH 37/39] fix: give drivers arguments of a type they take

---
 entmq/entsql_util.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/entmq/entsql_util.go b/entmq/entsql_util.go
index fb7ea9d..3e01a32 100644
--- a/entmq/entsql_util.go
+++ b/entmq/entsql_util.go
@@ -42,5 +42,6 @@ func (f typeCastParamFormatter) FormatParam(placeholder string, info *sql.StmtIn
 }
 
 func (f typeCastParamFormatter) Value() (driver.Value, error) {
-	return f.v, nil
+	// drivers take no int from a Valuer
+	return driver.DefaultParameterConverter.ConvertValue(f.v)
 }
-- 
2.43.0


From 8ae8afd94c6cdb20500b100ae0e6fb4c0bea6297 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 09:20:47 +0000
Subject: [PATCH 38/39] fix: take only a name for the edge of has_edge

---
 entmq/entsql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index c6336fd..3f2e50c 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -124,7 +124,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 
 			var edgeErr error
 			params := node.Params
-			if len(params) == 0 || params[0].Name == "" {
+			if len(params) == 0 || params[0].Type != miniquery.IdentifierNodeType {
 				err = errors.New("关联参数错误")
 				break
 			}
-- 
2.43.0


From b44b8a1b45f9ee5e84bf8b864838bc32bf93ea58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:25:09 +0000
Subject: [PATCH 39/39] fix: keep names that are in snake case already

---
 entmq/entsql.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 3f2e50c..9161bb0 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -81,6 +81,11 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 		}
 	case miniquery.IdentifierNodeType:
 		// fixme 检测字段是否存在
+		if strings.ToLower(node.Name) == node.Name {
+			// in snake case already, xstrings would make a_1b of a1b
+			s.Ident(node.Name)
+			break
+		}
 		s.Ident(xstrings.ToSnakeCase(node.Name))
 		/*
 			switch name {
-- 
2.43.0

