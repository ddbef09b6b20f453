From 953e5c9d286e3637019eaf6dc2d7c33b1322d104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:19 +0000
Subject: [PATCH 01/40] fix: make Visitor.Init set the defaults on the visitor
 itself

Init had a value receiver, so the default callbacks were set on a copy and
every Visit that reached a callback left unset called a nil function.
---
 miniquery/visitor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/miniquery/visitor.go b/miniquery/visitor.go
index 3373fa1..34e73aa 100644
--- a/miniquery/visitor.go
+++ b/miniquery/visitor.go
@@ -23,7 +23,7 @@ type (
 	}
 )
 
-func (v Visitor) Init() {
+func (v *Visitor) Init() {
 	noop := func(ctx context.Context, node *Node) (err error) {
 		return
 	}
-- 
2.43.0


From 5e668bfcb053a470ace897a6a8e6114e70351879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:19 +0000
Subject: [PATCH 02/40] fix: dispatch function nodes to the FunctionExpression
 callback

Function nodes were passed to BetweenExpression, whose default visits the
missing left operand and panics.
---
 miniquery/visitor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/miniquery/visitor.go b/miniquery/visitor.go
index 34e73aa..0966004 100644
--- a/miniquery/visitor.go
+++ b/miniquery/visitor.go
@@ -129,7 +129,7 @@ func (v Visitor) Visit(ctx context.Context, n *Node) error {
 	case BetweenExpressionType:
 		return v.BetweenExpression(ctx, n)
 	case FunctionExpressionType:
-		return v.BetweenExpression(ctx, n)
+		return v.FunctionExpression(ctx, n)
 	}
 	return errors.Errorf("invalid type %q", n.Type)
 }
-- 
2.43.0


From 330fd00770e8f2e1bf120a474d58497929cb4c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:19 +0000
Subject: [PATCH 03/40] fix: let Visitor visit reference nodes

Visit failed with an invalid type error on every filter that contains a
relation reference such as Profile.age.
---
 miniquery/visitor.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/miniquery/visitor.go b/miniquery/visitor.go
index 0966004..3867820 100644
--- a/miniquery/visitor.go
+++ b/miniquery/visitor.go
@@ -18,6 +18,7 @@ type (
 		ParenthesesExpression VisitFunc
 		NotExpression         VisitFunc
 		IdentifierNode        VisitFunc
+		ReferenceNode         VisitFunc
 		OperationNode         VisitFunc
 		ValueNode             VisitFunc
 	}
@@ -33,6 +34,9 @@ func (v *Visitor) Init() {
 	if v.IdentifierNode == nil {
 		v.IdentifierNode = noop
 	}
+	if v.ReferenceNode == nil {
+		v.ReferenceNode = noop
+	}
 	if v.ParenthesesExpression == nil {
 		v.ParenthesesExpression = func(ctx context.Context, node *Node) error {
 			return v.Visit(ctx, node.Expression)
@@ -116,6 +120,8 @@ func (v Visitor) Visit(ctx context.Context, n *Node) error {
 		return v.OperationNode(ctx, n)
 	case IdentifierNodeType:
 		return v.IdentifierNode(ctx, n)
+	case ReferenceNodeType:
+		return v.ReferenceNode(ctx, n)
 	case ParenthesesExpressionType:
 		return v.ParenthesesExpression(ctx, n)
 	case CompareExpressionType:
-- 
2.43.0


From c9b43ee9353c4382c645347203651232371849a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:22 +0000
Subject: [PATCH 04/40] fix: parse the <>, gte and lte operators

The shorter <, gt and lt were tried first, so the longer ones were
never reached.
---
 miniquery/miniquery.peg    |  4 +--
 miniquery/miniquery.peg.go | 70 +++++++++++++++++++-------------------
 2 files changed, 37 insertions(+), 37 deletions(-)

diff --git a/miniquery/miniquery.peg b/miniquery/miniquery.peg
index c7accad..07df8fe 100644
--- a/miniquery/miniquery.peg
+++ b/miniquery/miniquery.peg
@@ -32,8 +32,8 @@ IdentifierReference <- {p.AddMark()} Identifier '.' Identifier ( '.' Identifier)
 JsonReference <- Identifier '->' (JsonReference / Identifier)
 Identifier    <- !"not" <[a-zA-Z]([_a-zA-Z0-9])*> {p.AddName(text)}
 
-Compare <- _ <( '>=' / '<=' / '==' / '!=' /  '>' / '<'  / '<>' / '=' )> _ {p.AddCompare(text)}
-        / _ <( "gt" / "lt" / "gte" / "lte" / "eq" / "neq" )> _ {p.AddCompare(text)}
+Compare <- _ <( '>=' / '<=' / '==' / '<>' / '!=' / '>' / '<' / '=' )> _ {p.AddCompare(text)}
+        / _ <( "gte" / "lte" / "gt" / "lt" / "eq" / "neq" )> _ {p.AddCompare(text)}
         / _ <( "like" / "not" __ "like" )> _ {p.AddCompare(text)}
         # / _ <( "in" / "not" __ "in"  )> _ {p.AddCompare(text)}
 
diff --git a/miniquery/miniquery.peg.go b/miniquery/miniquery.peg.go
index a1bac3b..ae93b5a 100644
--- a/miniquery/miniquery.peg.go
+++ b/miniquery/miniquery.peg.go
@@ -1476,7 +1476,7 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 			position, tokenIndex = position97, tokenIndex97
 			return false
 		},
-		/* 15 Compare <- <((_ <(('>' '=') / ('<' '=') / ('=' '=') / '<' / ((&('=') '=') | (&('<') ('<' '>')) | (&('>') '>') | (&('!') ('!' '='))))> _ Action15) / (_ <((('g' / 'G') ('t' / 'T')) / (('l' / 'L') ('t' / 'T')) / ((&('N' | 'n') (('n' / 'N') ('e' / 'E') ('q' / 'Q'))) | (&('E' | 'e') (('e' / 'E') ('q' / 'Q'))) | (&('L' | 'l') (('l' / 'L') ('t' / 'T') ('e' / 'E'))) | (&('G' | 'g') (('g' / 'G') ('t' / 'T') ('e' / 'E')))))> _ Action16) / (_ <((('l' / 'L') ('i' / 'I') ('k' / 'K') ('e' / 'E')) / (('n' / 'N') ('o' / 'O') ('t' / 'T') __ (('l' / 'L') ('i' / 'I') ('k' / 'K') ('e' / 'E'))))> _ Action17))> */
+		/* 15 Compare <- <((_ <(('>' '=') / ('<' '=') / ('=' '=') / ('<' '>') / ((&('=') '=') | (&('<') '<') | (&('>') '>') | (&('!') ('!' '='))))> _ Action15) / (_ <((('g' / 'G') ('t' / 'T') ('e' / 'E')) / (('l' / 'L') ('t' / 'T') ('e' / 'E')) / ((&('N' | 'n') (('n' / 'N') ('e' / 'E') ('q' / 'Q'))) | (&('E' | 'e') (('e' / 'E') ('q' / 'Q'))) | (&('L' | 'l') (('l' / 'L') ('t' / 'T'))) | (&('G' | 'g') (('g' / 'G') ('t' / 'T')))))> _ Action16) / (_ <((('l' / 'L') ('i' / 'I') ('k' / 'K') ('e' / 'E')) / (('n' / 'N') ('o' / 'O') ('t' / 'T') __ (('l' / 'L') ('i' / 'I') ('k' / 'K') ('e' / 'E'))))> _ Action17))> */
 		func() bool {
 			position112, tokenIndex112 := position, tokenIndex
 			{
@@ -1527,6 +1527,10 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 								goto l121
 							}
 							position++
+							if buffer[position] != rune('>') {
+								goto l121
+							}
+							position++
 							goto l117
 						l121:
 							position, tokenIndex = position117, tokenIndex117
@@ -1542,10 +1546,6 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 										goto l115
 									}
 									position++
-									if buffer[position] != rune('>') {
-										goto l115
-									}
-									position++
 								case '>':
 									if buffer[position] != rune('>') {
 										goto l115
@@ -1613,6 +1613,21 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 								position++
 							}
 						l129:
+							{
+								position157, tokenIndex157 := position, tokenIndex
+								if buffer[position] != rune('e') {
+									goto l158
+								}
+								position++
+								goto l157
+							l158:
+								position, tokenIndex = position157, tokenIndex157
+								if buffer[position] != rune('E') {
+									goto l126
+								}
+								position++
+							}
+						l157:
 							goto l125
 						l126:
 							position, tokenIndex = position125, tokenIndex125
@@ -1646,6 +1661,21 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 								position++
 							}
 						l134:
+							{
+								position151, tokenIndex151 := position, tokenIndex
+								if buffer[position] != rune('e') {
+									goto l152
+								}
+								position++
+								goto l151
+							l152:
+								position, tokenIndex = position151, tokenIndex151
+								if buffer[position] != rune('E') {
+									goto l131
+								}
+								position++
+							}
+						l151:
 							goto l125
 						l131:
 							position, tokenIndex = position125, tokenIndex125
@@ -1761,21 +1791,6 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 										position++
 									}
 								l149:
-									{
-										position151, tokenIndex151 := position, tokenIndex
-										if buffer[position] != rune('e') {
-											goto l152
-										}
-										position++
-										goto l151
-									l152:
-										position, tokenIndex = position151, tokenIndex151
-										if buffer[position] != rune('E') {
-											goto l123
-										}
-										position++
-									}
-								l151:
 									break
 								default:
 									{
@@ -1808,21 +1823,6 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 										position++
 									}
 								l155:
-									{
-										position157, tokenIndex157 := position, tokenIndex
-										if buffer[position] != rune('e') {
-											goto l158
-										}
-										position++
-										goto l157
-									l158:
-										position, tokenIndex = position157, tokenIndex157
-										if buffer[position] != rune('E') {
-											goto l123
-										}
-										position++
-									}
-								l157:
 									break
 								}
 							}
-- 
2.43.0


From 30fae367134195f2162af02a3e83d410796b83c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:23 +0000
Subject: [PATCH 05/40] fix: drop comments between the words of an operator

The comment became part of the operator text and reached the SQL.
---
 miniquery/tree.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/miniquery/tree.go b/miniquery/tree.go
index 26d4951..d09f480 100644
--- a/miniquery/tree.go
+++ b/miniquery/tree.go
@@ -19,8 +19,9 @@ type Tree struct {
 }
 
 var (
-	regSpace  = regexp.MustCompile(`\s+`)
-	normalize = map[string]string{
+	regSpace   = regexp.MustCompile(`\s+`)
+	regComment = regexp.MustCompile(`(--|//)[^\r\n]*`)
+	normalize  = map[string]string{
 		">=": "gte",
 		">":  "gt",
 		"==": "eq",
@@ -42,6 +43,7 @@ var (
 )
 
 func NormalizeOperation(s string) string {
+	s = regComment.ReplaceAllString(s, " ")
 	s = strings.TrimSpace(s)
 	s = strings.ToLower(s)
 	s = regSpace.ReplaceAllString(s, " ")
-- 
2.43.0


From 7880e7b17aa21483f278880339fd01298985ac0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:24 +0000
Subject: [PATCH 06/40] fix: refuse JSON references instead of dropping all but
 the last name

There is no node for a->b, so the tree held only b.
---
 miniquery/parse.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/miniquery/parse.go b/miniquery/parse.go
index 110347f..1795c28 100644
--- a/miniquery/parse.go
+++ b/miniquery/parse.go
@@ -1,5 +1,7 @@
 package miniquery
 
+import "errors"
+
 func Parse(s string) (*Node, error) {
 	p := &MiniQueryPeg{Tree: &Tree{}, Buffer: s}
 	if err := p.Init(); err != nil {
@@ -8,6 +10,11 @@ func Parse(s string) (*Node, error) {
 	if err := p.Parse(); err != nil {
 		return nil, err
 	}
+	for _, t := range p.Tokens() {
+		if t.pegRule == ruleJsonReference {
+			return nil, errors.New("json reference is not supported")
+		}
+	}
 	p.Execute()
 	if len(p.Errors) != 0 {
 		return nil, p.Errors[0]
-- 
2.43.0


From 37c6ff8c91c4030dafeb0cea7bfee42da1ead2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:25 +0000
Subject: [PATCH 07/40] fix: give and precedence over or

The backends print the tree without parentheses, so a database read
a or b and c differently from the tree.
---
 miniquery/tree.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/miniquery/tree.go b/miniquery/tree.go
index d09f480..ea94f90 100644
--- a/miniquery/tree.go
+++ b/miniquery/tree.go
@@ -128,12 +128,19 @@ func (t *Tree) PopLogic() {
 	right := t.Pop()
 	op := t.Pop()
 	left := t.Pop()
-	t.Push(&Node{
+	node := &Node{
 		Type:  LogicExpressionType,
 		Left:  left,
 		Op:    op,
 		Right: right,
-	})
+	}
+	if op.Operation == OpAnd && left.Type == LogicExpressionType && left.Op.Operation == OpOr {
+		// and binds tighter than or
+		node.Left = left.Right
+		left.Right = node
+		node = left
+	}
+	t.Push(node)
 }
 
 func (t *Tree) PopCompare() {
-- 
2.43.0


From 542eabc347771ea56e58ba543510c74fb021bd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:48 +0000
Subject: [PATCH 08/40] fix: refuse a filter list with a member that does not
 parse alone

A member such as "a=1) or (a=2" closed the parentheses put around it
and widened the whole list.
---
 gormq/miniquery.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 278a07f..e8554ba 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -16,6 +16,16 @@ type MiniQuery struct {
 }
 
 func (q MiniQuery) Scope(db *gorm.DB) *gorm.DB {
+	for _, v := range q.Query {
+		if strings.TrimSpace(v) == "" {
+			continue
+		}
+		if _, err := miniquery.Parse(v); err != nil {
+			db = db.Clauses()
+			_ = db.AddError(fmt.Errorf("invalid query syntax: %v", err))
+			return db
+		}
+	}
 	return WireMiniQuery(db, miniquery.Join(q.Query))
 }
 
-- 
2.43.0


From c12fd1c24c4baf7cd9d5744550d87a48acdb7e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:49 +0000
Subject: [PATCH 09/40] fix: do not change the handle a filter is applied to

A refused filter left its error on a reusable handle, which then failed
every later query.
---
 gormq/miniquery.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index e8554ba..b3816a2 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -54,6 +54,7 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 	if query == "" {
 		return db
 	}
+	db = db.Clauses() // do not change a handle that others share
 	ast, err := miniquery.Parse(query)
 	if err != nil {
 		_ = db.AddError(fmt.Errorf("invalid query syntax: %v", err))
-- 
2.43.0


From d1e3601f978f1b9a1f5952e2adec6126ede2cd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:50 +0000
Subject: [PATCH 10/40] fix: refuse fields that are not columns

Relations and ignored fields have no column name, the condition was
built with an empty name.
---
 gormq/miniquery.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index b3816a2..5469b8c 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -240,11 +240,11 @@ func getDBName(st *schema.Schema, name string) (string, bool) {
 	if _, ok := st.FieldsByDBName[name]; ok {
 		return name, true
 	}
-	if f, ok := st.FieldsByName[name]; ok {
+	if f, ok := st.FieldsByName[name]; ok && f.DBName != "" {
 		return f.DBName, true
 	}
 	for _, f := range st.Fields {
-		if strings.EqualFold(f.Name, name) {
+		if f.DBName != "" && strings.EqualFold(f.Name, name) {
 			return f.DBName, true
 		}
 	}
-- 
2.43.0


From a24dbe55e72c5a402ea17e4fe1984f29472db97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:51 +0000
Subject: [PATCH 11/40] fix: refuse references to fields of to-many relations

Joining such a relation repeats the rows of the model, or is not
supported by gorm at all.
---
 gormq/miniquery.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 5469b8c..8051375 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -89,6 +89,9 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 			if r == nil {
 				return "", fmt.Errorf("relation not found: %q", s)
 			}
+			if isToMany(r) {
+				return "", fmt.Errorf("relation is to many: %q", s)
+			}
 
 			var name string
 			var ok bool
@@ -236,6 +239,10 @@ func (qb *queryBuilder) visitFunction(node *miniquery.Node) (err error) {
 	return
 }
 
+func isToMany(r *schema.Relationship) bool {
+	return r.Type == schema.HasMany || r.Type == schema.Many2Many
+}
+
 func getDBName(st *schema.Schema, name string) (string, bool) {
 	if _, ok := st.FieldsByDBName[name]; ok {
 		return name, true
-- 
2.43.0


From 3aef8ad57c7d4a9fbf9f761c49006b3220d5d22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:52 +0000
Subject: [PATCH 12/40] fix: separate the arguments of date()

---
 gormq/miniquery.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 8051375..8255e6e 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -227,7 +227,10 @@ func (qb *queryBuilder) visitFunction(node *miniquery.Node) (err error) {
 	case "date":
 		buf.WriteString(node.Name)
 		buf.WriteString("(")
-		for _, v := range node.Params {
+		for i, v := range node.Params {
+			if i > 0 {
+				buf.WriteString(", ")
+			}
 			if err = visit(v); err != nil {
 				return
 			}
-- 
2.43.0


From debff828f51c500f747ab2ff8fab860c3e621b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:53 +0000
Subject: [PATCH 13/40] fix: qualify columns of the model when relations are
 joined

A column that the joined relation has too, such as id, made the
statement ambiguous.
---
 gormq/miniquery.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 8255e6e..ff8383b 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -7,6 +7,7 @@ import (
 	"github.com/pkg/errors"
 	"github.com/wenerme/go-miniquery/miniquery"
 	"gorm.io/gorm"
+	"gorm.io/gorm/clause"
 	"gorm.io/gorm/schema"
 )
 
@@ -142,7 +143,6 @@ func (qb *queryBuilder) visitReference(node *miniquery.Node) (err error) {
 func (qb *queryBuilder) visitIdentifier(node *miniquery.Node) (err error) {
 	buf := qb.buf
 	mapName := qb.mapName
-	quote := qb.quote
 	name := node.Name
 	/* extension to support custom virtual column */
 	// switch name {
@@ -157,10 +157,23 @@ func (qb *queryBuilder) visitIdentifier(node *miniquery.Node) (err error) {
 	if err != nil {
 		return err
 	}
-	quote(buf, name)
+	buf.WriteRune('?')
+	qb.addValue(column(name))
 	return
 }
 
+// column of the queried model, qualified only if there are joined tables it could be confused with
+type column string
+
+func (c column) Build(builder clause.Builder) {
+	stmt, ok := builder.(*gorm.Statement)
+	if ok && len(stmt.Joins) > 0 {
+		builder.WriteQuoted(clause.Column{Table: clause.CurrentTable, Name: string(c)})
+		return
+	}
+	builder.WriteQuoted(string(c))
+}
+
 func (qb *queryBuilder) visit(node *miniquery.Node) (err error) {
 	buf := qb.buf
 	addValue := qb.addValue
-- 
2.43.0


From 0d735dd838a1b7dc601a636ddce13574c9f700e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:14 +0000
Subject: [PATCH 14/40] fix: keep not in EntQL predicates

The condition was inverted: not was dropped, or made the builder panic
after an error.
---
 entmq/entql.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/entmq/entql.go b/entmq/entql.go
index 7f08713..e32981f 100644
--- a/entmq/entql.go
+++ b/entmq/entql.go
@@ -86,8 +86,12 @@ func (mb *MiniQLToEntQLBuilder) visit(node *miniquery.Node) (err error) {
 		err = visit(node.Expression)
 	case miniquery.NotExpressionType:
 		err = visit(node.Expression)
-		if err != nil {
-			mb.push(entql.Not(mb.pop().(entql.P)))
+		if err == nil {
+			p, ok := mb.pop().(entql.P)
+			if !ok {
+				return errors.Errorf("not a predicate: %q", node.Expression)
+			}
+			mb.push(entql.Not(p))
 		}
 	case miniquery.FunctionExpressionType:
 		// err = qb.visitFunction(node)
-- 
2.43.0


From 506e425bce9595b1634b4b11bc527e27df996b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:15 +0000
Subject: [PATCH 15/40] fix: refuse functions in EntQL filters

They were skipped, which dropped the condition or made the builder
panic.
---
 entmq/entql.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/entmq/entql.go b/entmq/entql.go
index e32981f..3fb4e2f 100644
--- a/entmq/entql.go
+++ b/entmq/entql.go
@@ -94,8 +94,7 @@ func (mb *MiniQLToEntQLBuilder) visit(node *miniquery.Node) (err error) {
 			mb.push(entql.Not(p))
 		}
 	case miniquery.FunctionExpressionType:
-		// err = qb.visitFunction(node)
-
+		return errors.Errorf("unsupported function: %q", node.Name)
 	case miniquery.BetweenExpressionType:
 		err = visit(node.Left)
 		if err == nil {
-- 
2.43.0


From 00e32f382fc8067332b604d15161cebbcb4c1de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:16 +0000
Subject: [PATCH 16/40] fix: build is null and is not null in EntQL filters

Any predicate made the builder panic. The truth tests have no
counterpart and are refused.
---
 entmq/entql.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/entmq/entql.go b/entmq/entql.go
index 3fb4e2f..0591362 100644
--- a/entmq/entql.go
+++ b/entmq/entql.go
@@ -128,7 +128,21 @@ func (mb *MiniQLToEntQLBuilder) visit(node *miniquery.Node) (err error) {
 
 		}
 	case miniquery.PredicatesExpressionType:
-		panic("TODO")
+		err = visit(node.Left)
+		if err == nil {
+			f, ok := mb.pop().(*entql.Field)
+			if !ok {
+				return errors.Errorf("not a field: %q", node.Left)
+			}
+			switch node.Op.Operation {
+			case miniquery.OpIsNull:
+				mb.push(entql.FieldNil(f.Name))
+			case miniquery.OpIsNotNull:
+				mb.push(entql.FieldNotNil(f.Name))
+			default:
+				return errors.Errorf("unexpected predicate op %q", node.Op.Operation)
+			}
+		}
 	case miniquery.LogicExpressionType:
 		fallthrough
 	case miniquery.CompareExpressionType:
-- 
2.43.0


From 23896156255dd312b46c3b44d19834b81c9a365c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:16 +0000
Subject: [PATCH 17/40] fix: refuse EntQL filters that are not predicates

A bare field or value made the builder panic, or ent when it evaluated
the result.
---
 entmq/entql.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/entmq/entql.go b/entmq/entql.go
index 0591362..337bda5 100644
--- a/entmq/entql.go
+++ b/entmq/entql.go
@@ -54,7 +54,10 @@ func (mb *MiniQLToEntQLBuilder) Build() (p entql.P, err error) {
 	}
 	err = mb.visit(node)
 	if err == nil && len(mb.stack) > 0 {
-		p = mb.pop().(entql.P)
+		var ok bool
+		if p, ok = mb.pop().(entql.P); !ok {
+			return nil, errors.Errorf("not a predicate: %q", node)
+		}
 		if len(mb.stack) > 1 {
 			slog.With("query", mb.Query).Error("unexpected MiniQLBuilder stack size", "size", len(mb.stack))
 		}
@@ -157,6 +160,13 @@ func (mb *MiniQLToEntQLBuilder) visit(node *miniquery.Node) (err error) {
 			if !found {
 				return errors.Errorf("unexpected op %q", node.Op.Operation)
 			}
+			if node.Type == miniquery.LogicExpressionType {
+				for _, v := range []entql.Expr{left, right} {
+					if _, ok := v.(*entql.Field); ok {
+						return errors.Errorf("not a predicate: %q", v)
+					}
+				}
+			}
 			mb.push(&entql.BinaryExpr{
 				Op: op,
 				X:  left,
-- 
2.43.0


From 52d190ee7094912eb9369853e87fa6f8ff63c43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:17 +0000
Subject: [PATCH 18/40] fix: do not apply a nil predicate for an empty filter

---
 entmq/entql.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/entmq/entql.go b/entmq/entql.go
index 337bda5..181b8e1 100644
--- a/entmq/entql.go
+++ b/entmq/entql.go
@@ -15,6 +15,9 @@ func ApplyEntQL(q interface{ Where(p entql.P) }, queries []string) error {
 		if err != nil {
 			return errors.Wrapf(err, "failed to apply query: %q", v)
 		}
+		if p == nil {
+			continue
+		}
 		q.Where(p)
 	}
 	return nil
-- 
2.43.0


From 89aa093f3a6ee979512df1d83e2cd82d2cd06f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:18 +0000
Subject: [PATCH 19/40] fix: refuse EntQL comparisons ent cannot evaluate

ent compares a field with a field or a value. It panics on anything
else when the predicate is evaluated.
---
 entmq/entql.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/entmq/entql.go b/entmq/entql.go
index 181b8e1..bd45db6 100644
--- a/entmq/entql.go
+++ b/entmq/entql.go
@@ -113,6 +113,9 @@ func (mb *MiniQLToEntQLBuilder) visit(node *miniquery.Node) (err error) {
 			hig := mb.pop()
 			low := mb.pop()
 			left := mb.pop()
+			if _, ok := left.(*entql.Field); !ok {
+				return errors.Errorf("not a field: %q", node.Left)
+			}
 			lo := entql.OpGTE
 			ro := entql.OpLTE
 			if node.Op.Operation == miniquery.OpNotBetween {
@@ -163,7 +166,14 @@ func (mb *MiniQLToEntQLBuilder) visit(node *miniquery.Node) (err error) {
 			if !found {
 				return errors.Errorf("unexpected op %q", node.Op.Operation)
 			}
-			if node.Type == miniquery.LogicExpressionType {
+			if node.Type == miniquery.CompareExpressionType {
+				if _, ok := left.(*entql.Field); !ok {
+					return errors.Errorf("not a field: %q", node.Left)
+				}
+				if _, ok := right.(entql.P); ok {
+					return errors.Errorf("not a field or value: %q", node.Right)
+				}
+			} else {
 				for _, v := range []entql.Expr{left, right} {
 					if _, ok := v.(*entql.Field); ok {
 						return errors.Errorf("not a predicate: %q", v)
-- 
2.43.0


From 18bdd5917db544741547bbccdbc96a7f5f639a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:41 +0000
Subject: [PATCH 20/40] fix: return a driver value for type cast arguments

database/sql refuses a Valuer that returns int.
---
 entmq/entsql_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/entmq/entsql_util.go b/entmq/entsql_util.go
index adbb34c..8b247f6 100644
--- a/entmq/entsql_util.go
+++ b/entmq/entsql_util.go
@@ -38,5 +38,5 @@ func (f typeCastParamFormatter) FormatParam(placeholder string, info *sql.StmtIn
 }
 
 func (f typeCastParamFormatter) Value() (driver.Value, error) {
-	return f.v, nil
+	return driver.DefaultParameterConverter.ConvertValue(f.v)
 }
-- 
2.43.0


From 8bce1a5ba0cb8a0969206cd98f3d251006c6539d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:42 +0000
Subject: [PATCH 21/40] fix: cast integers to bigint

int is 32 bits wide in Postgres.
---
 entmq/entsql_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/entmq/entsql_util.go b/entmq/entsql_util.go
index 8b247f6..f2ae8c2 100644
--- a/entmq/entsql_util.go
+++ b/entmq/entsql_util.go
@@ -21,7 +21,7 @@ func (f typeCastParamFormatter) FormatParam(placeholder string, info *sql.StmtIn
 		var typ string
 		switch f.v.(type) {
 		case int:
-			typ = "int"
+			typ = "bigint"
 		// 字符串不 cast - 处理时间和字符串比较的场景
 		// case string:
 		//	typ = "text"
-- 
2.43.0


From 14bdd6336f4df11ef1d3ab6e9b5b72377dc9b363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:43 +0000
Subject: [PATCH 22/40] fix: refuse date() without exactly one argument in ent
 SQL

No argument made the builder panic, further ones were dropped.
---
 entmq/entsql.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 3f1c888..171613f 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -90,6 +90,10 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 		case "date":
 			// 截取为日期
 			// date(xxx)
+			if len(node.Params) != 1 {
+				err = errors.New("date 参数错误")
+				break
+			}
 			s.WriteString("DATE(")
 			err = mb.visit(node.Params[0])
 			s.WriteString(")")
-- 
2.43.0


From 7087d92621b3eda4ad1f9fc6bf815255adc47e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:43 +0000
Subject: [PATCH 23/40] fix: refuse has_edge without a node or an edge name

A builder without a node panicked, and a function call named like an
edge was taken for the edge.
---
 entmq/entsql.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 171613f..ad91f1f 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -100,10 +100,14 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 		case "has_edge":
 
 			params := node.Params
-			if len(params) == 0 || params[0].Name == "" {
+			if len(params) == 0 || params[0].Type != miniquery.IdentifierNodeType {
 				err = errors.New("关联参数错误")
 				break
 			}
+			if mb.Node == nil {
+				err = errors.New("缺少 Node")
+				break
+			}
 
 			tab := mb.Node
 			builder := sql.Dialect(mb.Dialect()).Select().From(sql.Table(tab.Table).Schema(tab.Schema))
-- 
2.43.0


From 5383737cb44c8a11eea7f8e1f75278433c2616d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:44 +0000
Subject: [PATCH 24/40] fix: render the same text when an ent SQL builder is
 used again

Query appended to what the previous call had written, and never looked
at a changed QueryString.
---
 entmq/entsql.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index ad91f1f..291f905 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -25,20 +25,30 @@ type MiniQLToEntSQLBuilder struct {
 
 // Query impl sql.Querier
 func (mb *MiniQLToEntSQLBuilder) Query() (string, []interface{}) {
-	if mb.ast == nil {
-		ast, err := miniquery.Parse(mb.QueryString)
+	ast := mb.ast
+	if ast == nil {
+		var err error
+		ast, err = miniquery.Parse(mb.QueryString)
 		if err != nil {
 			mb.AddError(err)
 			return "", nil
 		}
-		mb.ast = ast
 	}
-	err := mb.visit(mb.ast)
+	// restore the builder, to be able to render again
+	before := mb.Builder
+	err := mb.visit(ast)
+	query, args := mb.Builder.Query()
+	if err == nil {
+		err = mb.Err()
+	}
+	mb.Builder = before
 	if err != nil {
-		mb.AddError(err)
+		if mb.Err() == nil {
+			mb.AddError(err)
+		}
 		return "", nil
 	}
-	return mb.Builder.Query()
+	return query, args
 }
 
 //nolint:golint,gocyclo
-- 
2.43.0


From 843555b765782e9b1d7b4d6f12fba38e7543a226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:45 +0000
Subject: [PATCH 25/40] fix: put a top level or in parentheses in ent SQL

Next to other predicates of the selector, or as an edge condition, the
or took these apart.
---
 entmq/entsql.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 291f905..0900ebb 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -36,7 +36,7 @@ func (mb *MiniQLToEntSQLBuilder) Query() (string, []interface{}) {
 	}
 	// restore the builder, to be able to render again
 	before := mb.Builder
-	err := mb.visit(ast)
+	err := mb.visitRoot(ast)
 	query, args := mb.Builder.Query()
 	if err == nil {
 		err = mb.Err()
@@ -51,6 +51,14 @@ func (mb *MiniQLToEntSQLBuilder) Query() (string, []interface{}) {
 	return query, args
 }
 
+// visitRoot keeps a top level or together, the result is joined with other predicates
+func (mb *MiniQLToEntSQLBuilder) visitRoot(node *miniquery.Node) (err error) {
+	if node.Type == miniquery.LogicExpressionType && node.Op.Operation == miniquery.OpOr {
+		node = &miniquery.Node{Type: miniquery.ParenthesesExpressionType, Expression: node}
+	}
+	return mb.visit(node)
+}
+
 //nolint:golint,gocyclo
 func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 	visit := mb.visit
-- 
2.43.0


From 9f1b048fbbf85ccbc64393a484aaf0bdfbdeaa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:46 +0000
Subject: [PATCH 26/40] fix: put between in parentheses where it is an operand
 in ent SQL

not applied to the first of the two comparisons only.
---
 entmq/entsql.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 0900ebb..91c11da 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -59,6 +59,14 @@ func (mb *MiniQLToEntSQLBuilder) visitRoot(node *miniquery.Node) (err error) {
 	return mb.visit(node)
 }
 
+// visitOperand keeps a between together, it is written as two comparisons
+func (mb *MiniQLToEntSQLBuilder) visitOperand(node *miniquery.Node) (err error) {
+	if node.Type == miniquery.BetweenExpressionType {
+		node = &miniquery.Node{Type: miniquery.ParenthesesExpressionType, Expression: node}
+	}
+	return mb.visit(node)
+}
+
 //nolint:golint,gocyclo
 func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 	visit := mb.visit
@@ -101,7 +109,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 		s.WriteString(")")
 	case miniquery.NotExpressionType:
 		s.WriteString("NOT ")
-		err = visit(node.Expression)
+		err = mb.visitOperand(node.Expression)
 	case miniquery.FunctionExpressionType:
 		// err = qb.visitFunction(node)
 		switch node.Name {
@@ -207,12 +215,12 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 		if !found {
 			return errors.Errorf("unexpected predicate op %q", node.Op.Operation)
 		}
-		err = visit(node.Left)
+		err = mb.visitOperand(node.Left)
 		s.WriteOp(op)
 	case miniquery.LogicExpressionType:
 		fallthrough
 	case miniquery.CompareExpressionType:
-		err = visit(node.Left)
+		err = mb.visitOperand(node.Left)
 		op, found := entsqlOpMap[node.Op.Operation]
 		if !found {
 			switch node.Op.Operation {
@@ -231,7 +239,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 			return errors.Errorf("unexpected op %q", node.Op.Operation)
 		}
 		if err == nil {
-			err = visit(node.Right)
+			err = mb.visitOperand(node.Right)
 		}
 	default:
 		return errors.Errorf("invalid type %q", node.Type)
-- 
2.43.0


From 4b131a27e0da345cd6c13c7fb44e1fd52116d7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:07 +0000
Subject: [PATCH 27/40] fix: write has_edge to the given SQLBuilder

Everything else was written there, has_edge to the embedded builder.
---
 entmq/entsql.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 91c11da..e5a95e3 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -136,7 +136,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 			}
 
 			tab := mb.Node
-			builder := sql.Dialect(mb.Dialect()).Select().From(sql.Table(tab.Table).Schema(tab.Schema))
+			builder := sql.Dialect(s.Dialect()).Select().From(sql.Table(tab.Table).Schema(tab.Schema))
 			edge, ok := tab.Edges[params[0].Name]
 			if !ok {
 				err = errors.Errorf("不存在关联: %q", params[0].Name)
@@ -182,7 +182,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 				rf = reflect.NewAt(rf.Type(), unsafe.Pointer(rf.UnsafeAddr())).Elem()
 				p := rf.Interface().(*sql.Predicate)
 				err = p.Err()
-				mb.Join(p)
+				s.Join(p)
 			}
 		default:
 			err = errors.Errorf("不支持的函数: %q", node.Name)
-- 
2.43.0


From e4ac73fe2a2294c49015ef373e52cb76baf8eda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:07 +0000
Subject: [PATCH 28/40] fix: report errors of an edge condition

ent does not collect errors of nested builders, so a condition that
could not be rendered was left out.
---
 entmq/entsql.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index e5a95e3..7157af4 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -135,6 +135,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 				break
 			}
 
+			var condErr error
 			tab := mb.Node
 			builder := sql.Dialect(s.Dialect()).Select().From(sql.Table(tab.Table).Schema(tab.Schema))
 			edge, ok := tab.Edges[params[0].Name]
@@ -166,10 +167,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 							DisableTypeCasting: mb.DisableTypeCasting,
 						}
 						builder.Join(mb)
-						err := mb.Err()
-						if err != nil {
-							builder.AddError(err)
-						}
+						condErr = mb.Err()
 					}))
 				})
 			default:
@@ -181,8 +179,12 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 				rf := rv.FieldByName("where")
 				rf = reflect.NewAt(rf.Type(), unsafe.Pointer(rf.UnsafeAddr())).Elem()
 				p := rf.Interface().(*sql.Predicate)
-				err = p.Err()
 				s.Join(p)
+				err = p.Err()
+				if condErr != nil {
+					// ent does not pass on errors of nested builders
+					err = condErr
+				}
 			}
 		default:
 			err = errors.Errorf("不支持的函数: %q", node.Name)
-- 
2.43.0


From 38adbafdf9f6d74a561959973628e65c6d14d102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:08 +0000
Subject: [PATCH 29/40] fix: use the table alias of the outer edge in a nested
 has_edge

ent gives the table of an edge an alias if it is joined or selected
already. The nested condition referred to the name of the table, which
is unknown or that of an outer select.
---
 entmq/entsql.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 7157af4..1b225ce 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -21,6 +21,7 @@ type MiniQLToEntSQLBuilder struct {
 	Graph       *sqlgraph.Schema
 	sql.Builder
 	DisableTypeCasting bool
+	selector           *sql.Selector // selects the Node, in an edge condition
 }
 
 // Query impl sql.Querier
@@ -138,6 +139,9 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 			var condErr error
 			tab := mb.Node
 			builder := sql.Dialect(s.Dialect()).Select().From(sql.Table(tab.Table).Schema(tab.Schema))
+			if mb.selector != nil {
+				builder = mb.selector.Clone().SetP(nil)
+			}
 			edge, ok := tab.Edges[params[0].Name]
 			if !ok {
 				err = errors.Errorf("不存在关联: %q", params[0].Name)
@@ -164,6 +168,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 						mb := &MiniQLToEntSQLBuilder{
 							ast:                params[1],
 							Node:               edge.To,
+							selector:           selector,
 							DisableTypeCasting: mb.DisableTypeCasting,
 						}
 						builder.Join(mb)
-- 
2.43.0


From 147f9c983968ca7bcb14b52018076d91e873e37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:09 +0000
Subject: [PATCH 30/40] fix: avoid the alias of the outer edge in a nested
 has_edge

An edge of a table to itself nested in another one compared the inner
table with itself.
---
 entmq/entsql.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 1b225ce..f1aaef0 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -149,11 +149,17 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 			}
 			switch len(params) {
 			case 1:
-				sqlgraph.HasNeighbors(builder, sqlgraph.NewStep(
+				step := sqlgraph.NewStep(
 					sqlgraph.From(tab.Table, tab.ID.Column),
 					sqlgraph.To(edge.To.Table, edge.To.ID.Column),
 					sqlgraph.Edge(edge.Spec.Rel, edge.Spec.Inverse, edge.Spec.Table, edge.Spec.Columns...),
-				))
+				)
+				if step.ToEdgeOwner() {
+					// HasNeighbors always uses the same alias for an edge to the same table
+					sqlgraph.HasNeighborsWith(builder, step, func(*sql.Selector) {})
+				} else {
+					sqlgraph.HasNeighbors(builder, step)
+				}
 			case 2:
 				if !params[1].IsExpression() {
 					err = errors.Errorf("关联条件错误: %q", params[1].String())
-- 
2.43.0


From a54342e223a87f1c5fa68984767fa2e793960720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:59 +0000
Subject: [PATCH 31/40] fix: write the left side of between once if it is an
 expression

---
 entmq/entsql.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index f1aaef0..7db8921 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -209,6 +209,18 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 		}
 
 		err = visit(node.Left)
+		if node.Left.IsExpression() {
+			// writing it twice would double the text with every nested between
+			if err == nil {
+				s.Pad().WriteString(strings.ToUpper(node.Op.Operation)).Pad()
+				err = visit(node.Params[0])
+			}
+			if err == nil {
+				s.WriteString(" AND ")
+				err = visit(node.Params[1])
+			}
+			break
+		}
 		if err == nil {
 			s.WriteOp(lo)
 			err = visit(node.Params[0])
-- 
2.43.0


From 544bafa76d8fe38aec30fd693752408f1ef69b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:44:27 +0000
Subject: [PATCH 32/40] fix: read a model's relations under gorm's lock

gorm adds inverse relations to a schema while it parses other models, so
two filters used at the same time could read and write that map at once.
---
 gormq/miniquery.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index ff8383b..28cf0d0 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -86,7 +86,10 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 			return n, nil
 		},
 		join: func(s string, fieldName string) (string, error) {
+			// gorm adds inverse relations while it parses other models
+			schema.Relationships.Mux.RLock()
 			r := schema.Relationships.Relations[s]
+			schema.Relationships.Mux.RUnlock()
 			if r == nil {
 				return "", fmt.Errorf("relation not found: %q", s)
 			}
-- 
2.43.0


From 93a1d6cdac47d89a5b0ef13fa5384fe23042cce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:11:14 +0000
Subject: [PATCH 33/40] fix: use the related model's schema in preloads and
 associations

---
 gormq/miniquery.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 28cf0d0..6394821 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -32,14 +32,13 @@ func (q MiniQuery) Scope(db *gorm.DB) *gorm.DB {
 
 func GetOrParseSchema(db *gorm.DB) (schema *schema.Schema, err error) {
 	stat := db.Statement
-	if stat.Schema == nil {
-		if stat.Model != nil {
-			if err = stat.Parse(stat.Model); err != nil {
-				return
-			}
-		} else {
-			return nil, fmt.Errorf("missing model")
+	if stat.Model != nil {
+		// in a preload or an association the schema is still that of the parent
+		if err = stat.Parse(stat.Model); err != nil {
+			return
 		}
+	} else if stat.Schema == nil {
+		return nil, fmt.Errorf("missing model")
 	}
 	return stat.Schema, nil
 }
-- 
2.43.0


From 679814aba6e6251124c3dfb56e4570d5ee5f22c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:15:58 +0000
Subject: [PATCH 34/40] fix: let queries fail that take over the conditions of
 a refused filter

---
 gormq/miniquery.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index 6394821..e92afda 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -22,9 +22,7 @@ func (q MiniQuery) Scope(db *gorm.DB) *gorm.DB {
 			continue
 		}
 		if _, err := miniquery.Parse(v); err != nil {
-			db = db.Clauses()
-			_ = db.AddError(fmt.Errorf("invalid query syntax: %v", err))
-			return db
+			return refuse(db.Clauses(), fmt.Errorf("invalid query syntax: %v", err))
 		}
 	}
 	return WireMiniQuery(db, miniquery.Join(q.Query))
@@ -57,14 +55,12 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 	db = db.Clauses() // do not change a handle that others share
 	ast, err := miniquery.Parse(query)
 	if err != nil {
-		_ = db.AddError(fmt.Errorf("invalid query syntax: %v", err))
-		return db
+		return refuse(db, fmt.Errorf("invalid query syntax: %v", err))
 	}
 
 	schema, err := GetOrParseSchema(db)
 	if err != nil {
-		_ = db.AddError(err)
-		return db
+		return refuse(db, err)
 	}
 	var vals []interface{}
 	buf := &strings.Builder{}
@@ -113,13 +109,25 @@ func WireMiniQuery(db *gorm.DB, query string) *gorm.DB {
 	}
 	err = qb.visit(ast)
 	if err != nil {
-		_ = db.AddError(err)
+		db = refuse(db, err)
 	} else {
 		db = db.Where(buf.String(), vals...)
 	}
 	return db
 }
 
+// refuse makes db fail, and every query that takes over its conditions
+func refuse(db *gorm.DB, err error) *gorm.DB {
+	_ = db.AddError(err)
+	return db.Where(refused{err})
+}
+
+type refused struct{ error }
+
+func (r refused) Build(builder clause.Builder) {
+	_ = builder.AddError(r.error)
+}
+
 type queryBuilder struct {
 	buf      *strings.Builder
 	addValue func(interface{})
-- 
2.43.0


From 30014872afc0232d67811796c45f5e60d6bf8b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:15:58 +0000
Subject: [PATCH 35/40] fix: qualify columns in many to many associations

---
 gormq/miniquery.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gormq/miniquery.go b/gormq/miniquery.go
index e92afda..c91d160 100644
--- a/gormq/miniquery.go
+++ b/gormq/miniquery.go
@@ -177,13 +177,19 @@ type column string
 
 func (c column) Build(builder clause.Builder) {
 	stmt, ok := builder.(*gorm.Statement)
-	if ok && len(stmt.Joins) > 0 {
+	if ok && hasJoins(stmt) {
 		builder.WriteQuoted(clause.Column{Table: clause.CurrentTable, Name: string(c)})
 		return
 	}
 	builder.WriteQuoted(string(c))
 }
 
+// hasJoins also looks for the join table of a many to many association
+func hasJoins(stmt *gorm.Statement) bool {
+	from, _ := stmt.Clauses["FROM"].Expression.(clause.From)
+	return len(stmt.Joins) > 0 || len(from.Joins) > 0
+}
+
 func (qb *queryBuilder) visit(node *miniquery.Node) (err error) {
 	buf := qb.buf
 	addValue := qb.addValue
-- 
2.43.0


From 8b202dc031c9c34437b50460ce5f9fc298476b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:15:58 +0000
Subject: [PATCH 36/40] fix: qualify the columns of an edge condition

---
 entmq/entsql.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 7db8921..8f32c91 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -93,7 +93,12 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 		}
 	case miniquery.IdentifierNodeType:
 		// fixme 检测字段是否存在
-		s.Ident(xstrings.ToSnakeCase(node.Name))
+		name := xstrings.ToSnakeCase(node.Name)
+		if mb.selector != nil {
+			// tables around the edge or its join table can have a column of that name
+			name = mb.selector.C(name)
+		}
+		s.Ident(name)
 		/*
 			switch name {
 			case "owned":
-- 
2.43.0


From 1df43e2e1216cc8a7cee2b6de19a6c17e8f05060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:51 +0000
Subject: [PATCH 37/40] fix: look for edges in the schema their tables are in

---
 entmq/entsql.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index 8f32c91..c1b33b2 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -152,12 +152,17 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 				err = errors.Errorf("不存在关联: %q", params[0].Name)
 				break
 			}
+			inSchemas := func(step *sqlgraph.Step) {
+				step.To.Schema = edge.To.Schema
+				step.Edge.Schema = edge.Spec.Schema
+			}
 			switch len(params) {
 			case 1:
 				step := sqlgraph.NewStep(
 					sqlgraph.From(tab.Table, tab.ID.Column),
 					sqlgraph.To(edge.To.Table, edge.To.ID.Column),
 					sqlgraph.Edge(edge.Spec.Rel, edge.Spec.Inverse, edge.Spec.Table, edge.Spec.Columns...),
+					inSchemas,
 				)
 				if step.ToEdgeOwner() {
 					// HasNeighbors always uses the same alias for an edge to the same table
@@ -174,6 +179,7 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 					sqlgraph.From(tab.Table, tab.ID.Column),
 					sqlgraph.To(edge.To.Table, edge.To.ID.Column),
 					sqlgraph.Edge(edge.Spec.Rel, edge.Spec.Inverse, edge.Spec.Table, edge.Spec.Columns...),
+					inSchemas,
 				), func(selector *sql.Selector) {
 					selector.Where(sql.P(func(builder *sql.Builder) {
 						mb := &MiniQLToEntSQLBuilder{
-- 
2.43.0


From a84f12e2378049955166f20486dde1775cac7fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:12:43 +0000
Subject: [PATCH 38/40] fix: refuse EntQL filters joining a value with a
 predicate

ent panics when it evaluates a bare value as operand of and or or.
Two bare booleans are still accepted, a test expects them.
---
 entmq/entql.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/entmq/entql.go b/entmq/entql.go
index bd45db6..0cc506a 100644
--- a/entmq/entql.go
+++ b/entmq/entql.go
@@ -174,10 +174,10 @@ func (mb *MiniQLToEntQLBuilder) visit(node *miniquery.Node) (err error) {
 					return errors.Errorf("not a field or value: %q", node.Right)
 				}
 			} else {
-				for _, v := range []entql.Expr{left, right} {
-					if _, ok := v.(*entql.Field); ok {
-						return errors.Errorf("not a predicate: %q", v)
-					}
+				_, lp := left.(entql.P)
+				_, rp := right.(entql.P)
+				if !(lp && rp) && !(isBool(left) && isBool(right)) {
+					return errors.Errorf("not a predicate: %q or %q", node.Left, node.Right)
 				}
 			}
 			mb.push(&entql.BinaryExpr{
@@ -192,6 +192,14 @@ func (mb *MiniQLToEntQLBuilder) visit(node *miniquery.Node) (err error) {
 	return err
 }
 
+func isBool(v entql.Expr) bool {
+	x, ok := v.(*entql.Value)
+	if ok {
+		_, ok = x.V.(bool)
+	}
+	return ok
+}
+
 var entqlOpMap = map[miniquery.OpType]entql.Op{
 	miniquery.OpAnd:   entql.OpAnd,
 	miniquery.OpOr:    entql.OpOr,
-- 
2.43.0


From c5835078a992ec66cb92a16279970e873464d854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:47:37 +0000
Subject: [PATCH 39/40] fix: leave lower case column names in ent SQL filters
 as they are

---
 entmq/entsql.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/entmq/entsql.go b/entmq/entsql.go
index c1b33b2..427709c 100644
--- a/entmq/entsql.go
+++ b/entmq/entsql.go
@@ -93,7 +93,11 @@ func (mb *MiniQLToEntSQLBuilder) visit(node *miniquery.Node) (err error) {
 		}
 	case miniquery.IdentifierNodeType:
 		// fixme 检测字段是否存在
-		name := xstrings.ToSnakeCase(node.Name)
+		name := node.Name
+		if strings.ToLower(name) != name {
+			// otherwise it is a column, md5sum would become md_5sum
+			name = xstrings.ToSnakeCase(name)
+		}
 		if mb.selector != nil {
 			// tables around the edge or its join table can have a column of that name
 			name = mb.selector.C(name)
-- 
2.43.0


From 56749c1c12afb53cd7520a2f7b0781bef386adfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:32:30 +0000
Subject: [PATCH 40/40] fix: accept column names that begin with not, null,
 true or false

---
 miniquery/miniquery.peg    |  6 +++---
 miniquery/miniquery.peg.go | 15 ++++++++++++---
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/miniquery/miniquery.peg b/miniquery/miniquery.peg
index 07df8fe..435df34 100644
--- a/miniquery/miniquery.peg
+++ b/miniquery/miniquery.peg
@@ -30,7 +30,7 @@ Reference     <- IdentifierReference
               / Identifier
 IdentifierReference <- {p.AddMark()} Identifier '.' Identifier ( '.' Identifier)* {p.PopIdentifierReference()}
 JsonReference <- Identifier '->' (JsonReference / Identifier)
-Identifier    <- !"not" <[a-zA-Z]([_a-zA-Z0-9])*> {p.AddName(text)}
+Identifier    <- !("not" ![_a-zA-Z0-9]) <[a-zA-Z]([_a-zA-Z0-9])*> {p.AddName(text)}
 
 Compare <- _ <( '>=' / '<=' / '==' / '<>' / '!=' / '>' / '<' / '=' )> _ {p.AddCompare(text)}
         / _ <( "gte" / "lte" / "gt" / "lt" / "eq" / "neq" )> _ {p.AddCompare(text)}
@@ -48,8 +48,8 @@ Array         <- '[' {p.AddMark()} _ (Literal ( _ ',' _ Literal)* _ ','?)? _ ']'
               /  '(' {p.AddMark()} _ (Literal ( _ ',' _ Literal)* _ ','?)? _ ')' {p.PopArray()}
 Literal       <- String / Integer / Boolean / Null
 Integer       <- <'0' / [1-9][0-9]*> {p.AddInteger(text)}
-Boolean       <- <'true' / 'false' / 'TRUE' / 'FALSE'> {p.AddBoolean(text)}
-Null          <- <'null'/'NULL'> {p.AddNull()}
+Boolean       <- <'true' / 'false' / 'TRUE' / 'FALSE'> ![_a-zA-Z0-9] {p.AddBoolean(text)}
+Null          <- <'null'/'NULL'> ![_a-zA-Z0-9] {p.AddNull()}
 String        <- "'" <[^']*> "'" {p.AddString(text)}/ '"' <[^"]*> '"' {p.AddString(text)}
 
 SpaceComment  <- (Space / Comment)
diff --git a/miniquery/miniquery.peg.go b/miniquery/miniquery.peg.go
index ae93b5a..77d2f63 100644
--- a/miniquery/miniquery.peg.go
+++ b/miniquery/miniquery.peg.go
@@ -1359,7 +1359,7 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 			position, tokenIndex = position93, tokenIndex93
 			return false
 		},
-		/* 14 Identifier <- <(!(('n' / 'N') ('o' / 'O') ('t' / 'T')) <(([a-z] / [A-Z]) ((&('0' | '1' | '2' | '3' | '4' | '5' | '6' | '7' | '8' | '9') [0-9]) | (&('A' | 'B' | 'C' | 'D' | 'E' | 'F' | 'G' | 'H' | 'I' | 'J' | 'K' | 'L' | 'M' | 'N' | 'O' | 'P' | 'Q' | 'R' | 'S' | 'T' | 'U' | 'V' | 'W' | 'X' | 'Y' | 'Z') [A-Z]) | (&('_') '_') | (&('a' | 'b' | 'c' | 'd' | 'e' | 'f' | 'g' | 'h' | 'i' | 'j' | 'k' | 'l' | 'm' | 'n' | 'o' | 'p' | 'q' | 'r' | 's' | 't' | 'u' | 'v' | 'w' | 'x' | 'y' | 'z') [a-z]))*)> Action14)> */
+		/* 14 Identifier <- <(!(('n' / 'N') ('o' / 'O') ('t' / 'T') !([a-z] / [A-Z] / [0-9] / '_')) <(([a-z] / [A-Z]) ((&('0' | '1' | '2' | '3' | '4' | '5' | '6' | '7' | '8' | '9') [0-9]) | (&('A' | 'B' | 'C' | 'D' | 'E' | 'F' | 'G' | 'H' | 'I' | 'J' | 'K' | 'L' | 'M' | 'N' | 'O' | 'P' | 'Q' | 'R' | 'S' | 'T' | 'U' | 'V' | 'W' | 'X' | 'Y' | 'Z') [A-Z]) | (&('_') '_') | (&('a' | 'b' | 'c' | 'd' | 'e' | 'f' | 'g' | 'h' | 'i' | 'j' | 'k' | 'l' | 'm' | 'n' | 'o' | 'p' | 'q' | 'r' | 's' | 't' | 'u' | 'v' | 'w' | 'x' | 'y' | 'z') [a-z]))*)> Action14)> */
 		func() bool {
 			position97, tokenIndex97 := position, tokenIndex
 			{
@@ -1411,6 +1411,9 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 						position++
 					}
 				l104:
+					if c := buffer[position]; c == rune('_') || c >= rune('a') && c <= rune('z') || c >= rune('A') && c <= rune('Z') || c >= rune('0') && c <= rune('9') {
+						goto l99
+					}
 					goto l97
 				l99:
 					position, tokenIndex = position99, tokenIndex99
@@ -2684,7 +2687,7 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 			position, tokenIndex = position236, tokenIndex236
 			return false
 		},
-		/* 22 Boolean <- <(<((&('F') ('F' 'A' 'L' 'S' 'E')) | (&('T') ('T' 'R' 'U' 'E')) | (&('f') ('f' 'a' 'l' 's' 'e')) | (&('t') ('t' 'r' 'u' 'e')))> Action26)> */
+		/* 22 Boolean <- <(<((&('F') ('F' 'A' 'L' 'S' 'E')) | (&('T') ('T' 'R' 'U' 'E')) | (&('f') ('f' 'a' 'l' 's' 'e')) | (&('t') ('t' 'r' 'u' 'e')))> !([a-z] / [A-Z] / [0-9] / '_') Action26)> */
 		func() bool {
 			position243, tokenIndex243 := position, tokenIndex
 			{
@@ -2774,6 +2777,9 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 
 					add(rulePegText, position245)
 				}
+				if c := buffer[position]; c == rune('_') || c >= rune('a') && c <= rune('z') || c >= rune('A') && c <= rune('Z') || c >= rune('0') && c <= rune('9') {
+					goto l243
+				}
 				if !_rules[ruleAction26]() {
 					goto l243
 				}
@@ -2784,7 +2790,7 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 			position, tokenIndex = position243, tokenIndex243
 			return false
 		},
-		/* 23 Null <- <(<(('n' 'u' 'l' 'l') / ('N' 'U' 'L' 'L'))> Action27)> */
+		/* 23 Null <- <(<(('n' 'u' 'l' 'l') / ('N' 'U' 'L' 'L'))> !([a-z] / [A-Z] / [0-9] / '_') Action27)> */
 		func() bool {
 			position247, tokenIndex247 := position, tokenIndex
 			{
@@ -2832,6 +2838,9 @@ func (p *MiniQueryPeg) Init(options ...func(*MiniQueryPeg) error) error {
 				l250:
 					add(rulePegText, position249)
 				}
+				if c := buffer[position]; c == rune('_') || c >= rune('a') && c <= rune('z') || c >= rune('A') && c <= rune('Z') || c >= rune('0') && c <= rune('9') {
+					goto l247
+				}
 				if !_rules[ruleAction27]() {
 					goto l247
 				}
-- 
2.43.0

