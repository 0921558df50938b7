From 1c9816f89728c0a0bec82c5cbc0001f292a4572c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:11 +0000
Subject: [PATCH 01/30] fix: escape single quotes when printing string literals

---
 sqlast/value.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sqlast/value.go b/sqlast/value.go
index e954b18..aca7960 100644
--- a/sqlast/value.go
+++ b/sqlast/value.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"strconv"
+	"strings"
 	"time"
 
 	"github.com/akito0107/xsqlparser/sqltoken"
@@ -112,7 +113,7 @@ func (s *SingleQuotedString) WriteTo(w io.Writer) (int64, error) {
 	if err != nil {
 		return int64(n), err
 	}
-	n1, err := io.WriteString(w, s.String)
+	n1, err := io.WriteString(w, escapeSingleQuote(s.String))
 	if err != nil {
 		return int64(n + n1), err
 	}
@@ -120,6 +121,11 @@ func (s *SingleQuotedString) WriteTo(w io.Writer) (int64, error) {
 	return int64(n + n1 + n2), err
 }
 
+// escapeSingleQuote doubles the quotes in the content of a string literal.
+func escapeSingleQuote(s string) string {
+	return strings.ReplaceAll(s, "'", "''")
+}
+
 type NationalStringLiteral struct {
 	From, To sqltoken.Pos
 	String   string
@@ -144,7 +150,7 @@ func (n *NationalStringLiteral) Value() interface{} {
 }
 
 func (n *NationalStringLiteral) ToSQLString() string {
-	return fmt.Sprintf("N'%s'", n.String)
+	return fmt.Sprintf("N'%s'", escapeSingleQuote(n.String))
 }
 
 func (n *NationalStringLiteral) WriteTo(w io.Writer) (int64, error) {
@@ -152,7 +158,7 @@ func (n *NationalStringLiteral) WriteTo(w io.Writer) (int64, error) {
 	if err != nil {
 		return int64(n0), err
 	}
-	n1, err := io.WriteString(w, n.String)
+	n1, err := io.WriteString(w, escapeSingleQuote(n.String))
 	if err != nil {
 		return int64(n0 + n1), err
 	}
-- 
2.43.0


From 11e1d9ba8a031307be139c0122a6e6f456de1518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:12 +0000
Subject: [PATCH 02/30] fix: print integral DoubleValue as a floating point
 literal

---
 sqlast/value.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sqlast/value.go b/sqlast/value.go
index aca7960..b96b8cd 100644
--- a/sqlast/value.go
+++ b/sqlast/value.go
@@ -75,9 +75,12 @@ func (d *DoubleValue) ToSQLString() string {
 }
 
 func (d *DoubleValue) WriteTo(w io.Writer) (int64, error) {
-	var b [32] byte
-	buf := strconv.AppendFloat(b[:0], d.Double, 'f', -1, 64)
-	n, err := w.Write(buf)
+	str := strconv.FormatFloat(d.Double, 'f', -1, 64)
+	if !strings.Contains(str, ".") {
+		// keep it a floating point literal
+		str += ".0"
+	}
+	n, err := io.WriteString(w, str)
 	return int64(n), err
 }
 
-- 
2.43.0


From 31211ac2587f8f962371d707a2a1b2563fa5458e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:13 +0000
Subject: [PATCH 03/30] fix: print CREATE TABLE without elements and with table
 options as valid SQL

---
 sqlast/stmt.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sqlast/stmt.go b/sqlast/stmt.go
index bc52ea8..876fcfb 100644
--- a/sqlast/stmt.go
+++ b/sqlast/stmt.go
@@ -299,12 +299,16 @@ func (c *CreateTableStmt) WriteTo(w io.Writer) (int64, error) {
 	sw := newSQLWriter(w)
 	sw.Bytes([]byte("CREATE TABLE "))
 	sw.If(c.NotExists, []byte("IF NOT EXISTS "))
-	sw.Node(c.Name).Space().LParen()
-	for i, element := range c.Elements {
-		sw.JoinComma(i, element)
+	sw.Node(c.Name)
+	if len(c.Elements) != 0 {
+		sw.Space().LParen()
+		for i, element := range c.Elements {
+			sw.JoinComma(i, element)
+		}
+		sw.RParen()
 	}
-	sw.RParen()
 	if len(c.Options) != 0 {
+		sw.Space()
 		for i, option := range c.Options {
 			sw.JoinComma(i, option)
 		}
-- 
2.43.0


From 706ab3466c5221d0599d8a3693e2308b66a2c7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:14 +0000
Subject: [PATCH 04/30] fix: do not print an empty column list in CREATE INDEX

---
 sqlast/stmt.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sqlast/stmt.go b/sqlast/stmt.go
index 876fcfb..a0da7b4 100644
--- a/sqlast/stmt.go
+++ b/sqlast/stmt.go
@@ -1085,7 +1085,9 @@ func (c *CreateIndexStmt) WriteTo(w io.Writer) (int64, error) {
 	if c.MethodName != nil {
 		sw.Bytes([]byte(" USING ")).Node(c.MethodName)
 	}
-	sw.Space().LParen().Idents(c.ColumnNames, []byte(", ")).RParen()
+	if len(c.ColumnNames) != 0 {
+		sw.Space().LParen().Idents(c.ColumnNames, []byte(", ")).RParen()
+	}
 	if c.Selection != nil {
 		sw.Bytes([]byte(" WHERE ")).Node(c.Selection)
 	}
-- 
2.43.0


From 5ab9be2b66efab431b60a8ef4ae0c10ca917dea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:14 +0000
Subject: [PATCH 05/30] fix: separate the statements of a File with semicolons

---
 sqlast/ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlast/ast.go b/sqlast/ast.go
index 20144c4..f50762f 100644
--- a/sqlast/ast.go
+++ b/sqlast/ast.go
@@ -55,7 +55,7 @@ func (f *File) ToSQLString() string {
 func (f *File) WriteTo(w io.Writer) (int64, error) {
 	sw := newSQLWriter(w)
 	for i, stmt := range f.Stmts {
-		sw.JoinNewLine(i, stmt)
+		sw.Join(i, stmt, []byte(";\n"))
 	}
 	return sw.End()
 }
-- 
2.43.0


From dd37ada8afb1ddf7d8b4cf06184c038df03dfee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:21 +0000
Subject: [PATCH 06/30] fix: Walk the children with the visitor returned by
 Visit

---
 sqlast/walk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlast/walk.go b/sqlast/walk.go
index 398eb9b..71303f0 100644
--- a/sqlast/walk.go
+++ b/sqlast/walk.go
@@ -21,7 +21,7 @@ func walkASTNodeLists(v Visitor, list []Node) {
 }
 
 func Walk(v Visitor, node Node) {
-	if v := v.Visit(node); v == nil {
+	if v = v.Visit(node); v == nil {
 		return
 	}
 
-- 
2.43.0


From 7b7741cdbb2d123003c43f3460df0a58d896930a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:22 +0000
Subject: [PATCH 07/30] fix: let Walk visit every child of every node type

---
 sqlast/walk.go | 44 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/sqlast/walk.go b/sqlast/walk.go
index 71303f0..9e5bb45 100644
--- a/sqlast/walk.go
+++ b/sqlast/walk.go
@@ -71,7 +71,16 @@ func Walk(v Visitor, node Node) {
 			Walk(v, n.Over)
 		}
 	case *CaseExpr:
-		Walk(v, n.Operand)
+		if n.Operand != nil {
+			Walk(v, n.Operand)
+		}
+		for i := range n.Conditions {
+			Walk(v, n.Conditions[i])
+			Walk(v, n.Results[i])
+		}
+		if n.ElseResult != nil {
+			Walk(v, n.ElseResult)
+		}
 	case *Exists:
 		Walk(v, n.Query)
 	case *SubQuery:
@@ -158,7 +167,7 @@ func Walk(v Visitor, node Node) {
 	case *JoinType:
 	// nothing to do
 	case *NamedColumnsJoin:
-	// nothing to do
+		walkIdentLists(v, n.ColumnList)
 	case *JoinCondition:
 		Walk(v, n.SearchCondition)
 	case *NaturalJoin:
@@ -168,6 +177,9 @@ func Walk(v Visitor, node Node) {
 	case *CrossJoin:
 		Walk(v, n.Factor)
 		Walk(v, n.Reference)
+	case *PartitionedJoinTable:
+		Walk(v, n.Factor)
+		walkIdentLists(v, n.ColumnList)
 	case *Table:
 		Walk(v, n.Name)
 		if n.Alias != nil {
@@ -192,7 +204,7 @@ func Walk(v Visitor, node Node) {
 	case *OrderByExpr:
 		Walk(v, n.Expr)
 	case *LimitExpr:
-		if !n.All {
+		if n.LimitValue != nil {
 			Walk(v, n.LimitValue)
 		}
 		if n.OffsetValue != nil {
@@ -241,9 +253,9 @@ func Walk(v Visitor, node Node) {
 	case *Bytea:
 		// nothing to do
 	case *Array:
-		// nothing to do
+		Walk(v, n.Ty)
 	case *Custom:
-		// nothing to do
+		Walk(v, n.Ty)
 	case *InsertStmt:
 		Walk(v, n.TableName)
 		walkIdentLists(v, n.Columns)
@@ -271,7 +283,9 @@ func Walk(v Visitor, node Node) {
 		for _, a := range n.Assignments {
 			Walk(v, a)
 		}
-		Walk(v, n.Selection)
+		if n.Selection != nil {
+			Walk(v, n.Selection)
+		}
 	case *DeleteStmt:
 		Walk(v, n.TableName)
 		if n.Selection != nil {
@@ -285,6 +299,13 @@ func Walk(v Visitor, node Node) {
 		for _, e := range n.Elements {
 			Walk(v, e)
 		}
+		for _, o := range n.Options {
+			Walk(v, o)
+		}
+	case *MyEngine:
+		Walk(v, n.Name)
+	case *MyCharset:
+		Walk(v, n.Name)
 	case *Assignment:
 		Walk(v, n.ID)
 		Walk(v, n.Value)
@@ -309,9 +330,14 @@ func Walk(v Visitor, node Node) {
 		if n.Default != nil {
 			Walk(v, n.Default)
 		}
+		for _, d := range n.MyDataTypeDecoration {
+			Walk(v, d)
+		}
 		for _, c := range n.Constraints {
 			Walk(v, c)
 		}
+	case *AutoIncrement:
+		// nothing to do
 	case *ColumnConstraint:
 		if n.Name != nil {
 			Walk(v, n.Name)
@@ -383,6 +409,12 @@ func Walk(v Visitor, node Node) {
 		*DateTimeValue,
 		*TimestampValue:
 		// nothing to do
+	case *CommentGroup:
+		for _, c := range n.List {
+			Walk(v, c)
+		}
+	case *Comment:
+		// nothing to do
 	default:
 		log.Panicf("not implemented type %T: %+v", node, node)
 	}
-- 
2.43.0


From 5131694d9dedc7577f3255b4ca3d93af1e4b6d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:50 +0000
Subject: [PATCH 08/30] fix: Apply reports the true field name of queries
 (Cursor edits panicked)

---
 sqlastutil/rewrite.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sqlastutil/rewrite.go b/sqlastutil/rewrite.go
index c51d7e2..14e5c5f 100644
--- a/sqlastutil/rewrite.go
+++ b/sqlastutil/rewrite.go
@@ -171,9 +171,9 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 	case *sqlast.CaseExpr:
 		a.apply(n, "Operand", nil, n.Operand)
 	case *sqlast.Exists:
-		a.apply(n, "QueryStmt", nil, n.Query)
+		a.apply(n, "Query", nil, n.Query)
 	case *sqlast.SubQuery:
-		a.apply(n, "QueryStmt", nil, n.Query)
+		a.apply(n, "Query", nil, n.Query)
 	case *sqlast.ObjectName:
 		a.applyList(n, "Idents")
 	case *sqlast.WindowSpec:
@@ -203,12 +203,12 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 			a.apply(n, "Limit", nil, n.Limit)
 		}
 	case *sqlast.CTE:
-		a.apply(n, "QueryStmt", nil, n.Query)
+		a.apply(n, "Query", nil, n.Query)
 		a.apply(n, "Alias", nil, n.Alias)
 	case *sqlast.SelectExpr:
 		a.apply(n, "Select", nil, n.Select)
 	case *sqlast.QueryExpr:
-		a.apply(n, "QueryStmt", nil, n.Query)
+		a.apply(n, "Query", nil, n.Query)
 	case *sqlast.SetOperationExpr:
 		a.apply(n, "Op", nil, n.Op)
 		a.apply(n, "Left", nil, n.Left)
@@ -348,7 +348,7 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 		}
 	case *sqlast.CreateViewStmt:
 		a.apply(n, "Name", nil, n.Name)
-		a.apply(n, "QueryStmt", nil, n.Query)
+		a.apply(n, "Query", nil, n.Query)
 	case *sqlast.CreateTableStmt:
 		a.apply(n, "Name", nil, n.Name)
 		a.applyList(n, "Elements")
-- 
2.43.0


From 1bc4f4a9816a6a738ae6756ed52146cca904cac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:50 +0000
Subject: [PATCH 09/30] fix: let Apply visit every child of every node type

---
 sqlastutil/rewrite.go | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/sqlastutil/rewrite.go b/sqlastutil/rewrite.go
index 14e5c5f..d7de822 100644
--- a/sqlastutil/rewrite.go
+++ b/sqlastutil/rewrite.go
@@ -169,7 +169,14 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 			a.apply(n, "Over", nil, n.Over)
 		}
 	case *sqlast.CaseExpr:
-		a.apply(n, "Operand", nil, n.Operand)
+		if n.Operand != nil {
+			a.apply(n, "Operand", nil, n.Operand)
+		}
+		a.applyList(n, "Conditions")
+		a.applyList(n, "Results")
+		if n.ElseResult != nil {
+			a.apply(n, "ElseResult", nil, n.ElseResult)
+		}
 	case *sqlast.Exists:
 		a.apply(n, "Query", nil, n.Query)
 	case *sqlast.SubQuery:
@@ -238,6 +245,11 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 		a.apply(n, "Ref", nil, n.Ref)
 	case *sqlast.JoinType:
 		// nothing to do
+	case *sqlast.NamedColumnsJoin:
+		a.applyList(n, "ColumnList")
+	case *sqlast.PartitionedJoinTable:
+		a.apply(n, "Factor", nil, n.Factor)
+		a.applyList(n, "ColumnList")
 	case *sqlast.JoinCondition:
 		a.apply(n, "SearchCondition", nil, n.SearchCondition)
 	case *sqlast.NaturalJoin:
@@ -271,7 +283,7 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 	case *sqlast.OrderByExpr:
 		a.apply(n, "Expr", nil, n.Expr)
 	case *sqlast.LimitExpr:
-		if !n.All {
+		if n.LimitValue != nil {
 			a.apply(n, "LimitValue", nil, n.LimitValue)
 		}
 		if n.OffsetValue != nil {
@@ -320,9 +332,9 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 	case *sqlast.Bytea:
 		// nothing to do
 	case *sqlast.Array:
-		// nothing to do
+		a.apply(n, "Ty", nil, n.Ty)
 	case *sqlast.Custom:
-		// nothing to do
+		a.apply(n, "Ty", nil, n.Ty)
 	case *sqlast.InsertStmt:
 		a.apply(n, "TableName", nil, n.TableName)
 		a.applyList(n, "Columns")
@@ -340,7 +352,9 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 	case *sqlast.UpdateStmt:
 		a.apply(n, "TableName", nil, n.TableName)
 		a.applyList(n, "Assignments")
-		a.apply(n, "Selection", nil, n.Selection)
+		if n.Selection != nil {
+			a.apply(n, "Selection", nil, n.Selection)
+		}
 	case *sqlast.DeleteStmt:
 		a.apply(n, "TableName", nil, n.TableName)
 		if n.Selection != nil {
@@ -352,6 +366,11 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 	case *sqlast.CreateTableStmt:
 		a.apply(n, "Name", nil, n.Name)
 		a.applyList(n, "Elements")
+		a.applyList(n, "Options")
+	case *sqlast.MyEngine:
+		a.apply(n, "Name", nil, n.Name)
+	case *sqlast.MyCharset:
+		a.apply(n, "Name", nil, n.Name)
 	case *sqlast.Assignment:
 		a.apply(n, "ID", nil, n.ID)
 		a.apply(n, "Value", nil, n.Value)
@@ -376,7 +395,10 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 		if n.Default != nil {
 			a.apply(n, "Default", nil, n.Default)
 		}
+		a.applyList(n, "MyDataTypeDecoration")
 		a.applyList(n, "Constraints")
+	case *sqlast.AutoIncrement:
+		// nothing to do
 	case *sqlast.ColumnConstraint:
 		if n.Name != nil {
 			a.apply(n, "Name", nil, n.Name)
@@ -446,6 +468,10 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 		*sqlast.DateTimeValue,
 		*sqlast.TimestampValue:
 		// nothing to do
+	case *sqlast.CommentGroup:
+		a.applyList(n, "List")
+	case *sqlast.Comment:
+		// nothing to do
 	default:
 		log.Panicf("not implemented type %T: %+v", n, n)
 	}
-- 
2.43.0


From ddb1146cbdb34ead94b9cc565dbc9e8dc806733a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:51 +0000
Subject: [PATCH 10/30] fix: inserting a node of the wrong type leaves the list
 unchanged

---
 sqlastutil/rewrite.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sqlastutil/rewrite.go b/sqlastutil/rewrite.go
index d7de822..9f029f4 100644
--- a/sqlastutil/rewrite.go
+++ b/sqlastutil/rewrite.go
@@ -79,10 +79,11 @@ func (c *Cursor) InsertAfter(n sqlast.Node) {
 		log.Panicln("InsertAfter node not contained in slice")
 	}
 	v := c.field()
+	e := elem(v, n)
 	v.Set(reflect.Append(v, reflect.Zero(v.Type().Elem())))
 	l := v.Len()
 	reflect.Copy(v.Slice(i+2, l), v.Slice(i+1, l))
-	v.Index(i + 1).Set(reflect.ValueOf(n))
+	v.Index(i + 1).Set(e)
 	c.iter.step++
 }
 
@@ -92,13 +93,22 @@ func (c *Cursor) InsertBefore(n sqlast.Node) {
 		log.Panicln("InsertBefore node not contained in slice")
 	}
 	v := c.field()
+	e := elem(v, n)
 	v.Set(reflect.Append(v, reflect.Zero(v.Type().Elem())))
 	l := v.Len()
 	reflect.Copy(v.Slice(i+1, l), v.Slice(i, l))
-	v.Index(i).Set(reflect.ValueOf(n))
+	v.Index(i).Set(e)
 	c.iter.index++
 }
 
+// elem returns n as an element of the list v; it panics if n is not of the list's element
+// type, before the list is changed.
+func elem(v reflect.Value, n sqlast.Node) reflect.Value {
+	e := reflect.New(v.Type().Elem()).Elem()
+	e.Set(reflect.ValueOf(n))
+	return e
+}
+
 type iterator struct {
 	index, step int
 }
-- 
2.43.0


From cb49d0569afba1566340d816928a62b9d85d4ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:42 +0000
Subject: [PATCH 11/30] fix: report an unclosed delimited identifier instead of
 looping forever

---
 sqltoken/tokenizer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index edbada6..177bf3a 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -283,6 +283,9 @@ func (t *Tokenizer) next() (Kind, interface{}, error) {
 			if n == end {
 				break
 			}
+			if n == scanner.EOF {
+				return ILLEGAL, "", errors.Errorf("unclosed delimited identifier: %s at %+v", string(s), t.Pos())
+			}
 			s = append(s, n)
 		}
 		t.Col += 2 + len(s)
-- 
2.43.0


From e6cdb1a535b2725154281e1e4275a59aab480acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:04 +0000
Subject: [PATCH 12/30] fix: keep every character of a multi-line comment

---
 sqltoken/tokenizer.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index 177bf3a..014c466 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -515,10 +515,9 @@ func (t *Tokenizer) tokenizeMultilineComment() (string, error) {
 	for {
 		n := t.Scanner.Next()
 
-		if n == '\r' {
-			if t.Scanner.Peek() == '\n' {
-				t.Scanner.Next()
-			}
+		if n == '\r' && t.Scanner.Peek() == '\n' {
+			// the line ends with the '\n'
+		} else if n == '\r' {
 			t.Col = 1
 			t.Line += 1
 		} else if n == '\n' {
@@ -534,7 +533,7 @@ func (t *Tokenizer) tokenizeMultilineComment() (string, error) {
 			if n == '/' {
 				break
 			} else {
-				str = append(str, n)
+				str = append(str, '*')
 			}
 		}
 		mayBeClosingComment = n == '*'
-- 
2.43.0


From be7f53fe3df43d316d0853544c2b651576af07cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:11 +0000
Subject: [PATCH 13/30] fix: exact token positions after newlines, tabs,
 doubled quotes and multi-byte characters

---
 sqltoken/tokenizer.go | 47 ++++++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index 014c466..abf68b9 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"strings"
 	"text/scanner"
+	"unicode/utf8"
 
 	errors "golang.org/x/xerrors"
 
@@ -217,6 +218,21 @@ func (t *Tokenizer) Pos() Pos {
 	}
 }
 
+// advance moves the position over the character r, which the scanner has just read.
+func (t *Tokenizer) advance(r rune) {
+	switch {
+	case r == '\r' && t.Scanner.Peek() == '\n':
+		// the line ends with the '\n'
+	case r == '\n' || r == '\r':
+		t.Line += 1
+		t.Col = 1
+	case r == '\t':
+		t.Col += 4
+	default:
+		t.Col += 1
+	}
+}
+
 func (t *Tokenizer) next() (Kind, interface{}, error) {
 	r := t.Scanner.Peek()
 	switch {
@@ -275,6 +291,7 @@ func (t *Tokenizer) next() (Kind, interface{}, error) {
 
 	case t.Dialect.IsDelimitedIdentifierStart(r):
 		t.Scanner.Next()
+		t.Col += 1
 		end := matchingEndQuote(r)
 
 		var s []rune
@@ -286,9 +303,10 @@ func (t *Tokenizer) next() (Kind, interface{}, error) {
 			if n == scanner.EOF {
 				return ILLEGAL, "", errors.Errorf("unclosed delimited identifier: %s at %+v", string(s), t.Pos())
 			}
+			t.advance(n)
 			s = append(s, n)
 		}
-		t.Col += 2 + len(s)
+		t.Col += 1
 
 		return SQLKeyword, MakeKeyword(string(s), r), nil
 
@@ -326,15 +344,16 @@ func (t *Tokenizer) next() (Kind, interface{}, error) {
 
 		if '-' == t.Scanner.Peek() {
 			t.Scanner.Next()
+			t.Col += 2
 
 			var s []rune
 			for {
 				ch := t.Scanner.Peek()
 				if ch != scanner.EOF && ch != '\n' {
 					t.Scanner.Next()
+					t.advance(ch)
 					s = append(s, ch)
 				} else {
-					t.Col += len(s) + 2
 					return Comment, string(s), nil // Comment Node
 				}
 			}
@@ -474,21 +493,24 @@ func (t *Tokenizer) tokenizeWord(f rune) string {
 	}
 
 	str := builder.String()
-	t.Col += len(str)
+	t.Col += utf8.RuneCountInString(str)
 	return str
 }
 
 func (t *Tokenizer) tokenizeSingleQuotedString() (string, error) {
 	var builder strings.Builder
 	t.Scanner.Next()
+	t.Col += 1
 	for {
 		n := t.Scanner.Peek()
 		if n == '\'' {
 			t.Scanner.Next()
+			t.Col += 1
 			if t.Scanner.Peek() == '\'' {
 				// str = append(str, '\'')
 				builder.WriteRune('\'')
 				t.Scanner.Next()
+				t.Col += 1
 			} else {
 				break
 			}
@@ -499,13 +521,11 @@ func (t *Tokenizer) tokenizeSingleQuotedString() (string, error) {
 		}
 
 		t.Scanner.Next()
+		t.advance(n)
 		builder.WriteRune(n)
 		// str = append(str, n)
 	}
-	str := builder.String()
-	t.Col += 2 + len(str)
-
-	return str, nil
+	return builder.String(), nil
 }
 
 func (t *Tokenizer) tokenizeMultilineComment() (string, error) {
@@ -515,19 +535,10 @@ func (t *Tokenizer) tokenizeMultilineComment() (string, error) {
 	for {
 		n := t.Scanner.Next()
 
-		if n == '\r' && t.Scanner.Peek() == '\n' {
-			// the line ends with the '\n'
-		} else if n == '\r' {
-			t.Col = 1
-			t.Line += 1
-		} else if n == '\n' {
-			t.Col = 1
-			t.Line += 1
-		} else if n == scanner.EOF {
+		if n == scanner.EOF {
 			return "", errors.Errorf("unclosed multiline comment: %s at %+v", string(str), t.Pos())
-		} else {
-			t.Col += 1
 		}
+		t.advance(n)
 
 		if mayBeClosingComment {
 			if n == '/' {
-- 
2.43.0


From c9db0d2075a93a64d5323be26006556d70b4b1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:01 +0000
Subject: [PATCH 14/30] fix: report malformed and truncated SQL as an error
 instead of panicking

---
 parser.go | 102 ++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 76 insertions(+), 26 deletions(-)

diff --git a/parser.go b/parser.go
index f0c25ba..2ec3e69 100644
--- a/parser.go
+++ b/parser.go
@@ -3,7 +3,6 @@ package xsqlparser
 import (
 	"fmt"
 	"io"
-	"log"
 	"sort"
 	"strconv"
 	"strings"
@@ -126,7 +125,13 @@ func (p *Parser) ParseSQL() ([]sqlast.Stmt, error) {
 	return stmts, nil
 }
 
-func (p *Parser) ParseStatement() (sqlast.Stmt, error) {
+func (p *Parser) ParseStatement() (stmt sqlast.Stmt, err error) {
+	defer func() {
+		if err = syntaxErr(recover(), err); err != nil {
+			stmt = nil
+		}
+	}()
+
 	tok, err := p.nextToken()
 	if err != nil {
 		return nil, err
@@ -169,7 +174,13 @@ func (p *Parser) ParseStatement() (sqlast.Stmt, error) {
 	}
 }
 
-func (p *Parser) ParseDataType() (sqlast.Type, error) {
+func (p *Parser) ParseDataType() (tp sqlast.Type, err error) {
+	defer func() {
+		if err = syntaxErr(recover(), err); err != nil {
+			tp = nil
+		}
+	}()
+
 	tok, err := p.nextToken()
 	if err != nil {
 		return nil, errors.Errorf("nextToken failed: %w", err)
@@ -296,7 +307,13 @@ func (p *Parser) ParseDataType() (sqlast.Type, error) {
 	}
 }
 
-func (p *Parser) ParseExpr() (sqlast.Node, error) {
+func (p *Parser) ParseExpr() (expr sqlast.Node, err error) {
+	defer func() {
+		if err = syntaxErr(recover(), err); err != nil {
+			expr = nil
+		}
+	}()
+
 	return p.parseSubexpr(0)
 }
 
@@ -361,7 +378,7 @@ func (p *Parser) parseQueryBody(precedence uint8) (sqlast.SQLSetExpr, error) {
 			Query: subquery,
 		}
 	} else {
-		log.Panicln("expect SELECT or subquery in the query body")
+		syntaxPanicf("expect SELECT or subquery in the query body")
 	}
 BODY_LOOP:
 	for {
@@ -538,7 +555,7 @@ func (p *Parser) parseCreate() (sqlast.Stmt, error) {
 		return p.parseCreateIndex(uiok)
 	}
 
-	log.Panicln("TABLE or VIEW or UNIQUE INDEX or INDEX after create")
+	syntaxPanicf("TABLE or VIEW or UNIQUE INDEX or INDEX after create")
 
 	return nil, nil
 }
@@ -679,7 +696,7 @@ func (p *Parser) parseElements() ([]sqlast.TableElement, error) {
 
 		t, _ := p.nextToken()
 		if t == nil || (t.Kind != sqltoken.Comma && t.Kind != sqltoken.RParen) {
-			log.Panicf("Expected ',' or ')' after column definition but %v", t)
+			syntaxPanicf("Expected ',' or ')' after column definition but %v", t)
 		} else if t.Kind == sqltoken.RParen {
 			break
 		}
@@ -690,7 +707,10 @@ func (p *Parser) parseElements() ([]sqlast.TableElement, error) {
 
 func (p *Parser) parseColumnDef() (*sqlast.ColumnDef, error) {
 	tok := p.mustNextToken()
-	columnName := tok.Value.(*sqltoken.SQLWord)
+	columnName, ok := tok.Value.(*sqltoken.SQLWord)
+	if !ok {
+		return nil, errors.Errorf("expected column name but %+v", tok)
+	}
 
 	dataType, err := p.ParseDataType()
 	if err != nil {
@@ -738,7 +758,10 @@ func (p *Parser) parseTableConstraints() (*sqlast.TableConstraint, error) {
 	tok, _ = p.peekToken()
 
 	var spec sqlast.TableConstraintSpec
-	word = tok.Value.(*sqltoken.SQLWord)
+	word, ok = tok.Value.(*sqltoken.SQLWord)
+	if !ok {
+		return nil, errors.Errorf("expected table constraint but %+v", tok)
+	}
 	switch word.Keyword {
 	case "UNIQUE":
 		p.mustNextToken()
@@ -789,7 +812,10 @@ func (p *Parser) parseTableConstraints() (*sqlast.TableConstraint, error) {
 		p.expectKeyword("REFERENCES")
 
 		t, _ := p.nextToken()
-		w := t.Value.(*sqltoken.SQLWord)
+		w, ok := t.Value.(*sqltoken.SQLWord)
+		if !ok {
+			return nil, errors.Errorf("expected table name but %+v", t)
+		}
 		p.expectToken(sqltoken.LParen)
 		refcolumns, err := p.parseColumnNames()
 		r, _ := p.nextToken()
@@ -888,7 +914,7 @@ func (p *Parser) parseColumnConstraints() ([]*sqlast.ColumnConstraint, error) {
 CONSTRAINT_LOOP:
 	for {
 		tok, err := p.peekToken()
-		if tok == nil {
+		if err == EOF {
 			break CONSTRAINT_LOOP
 		}
 		if err != nil {
@@ -1523,9 +1549,9 @@ func (p *Parser) parseDefaultExpr(precedence uint) (sqlast.Node, error) {
 
 func (p *Parser) parseOptionalAlias(reservedKeywords map[string]struct{}) *sqlast.Ident {
 	afterAs, _, _ := p.parseKeyword("AS")
-	maybeAlias, _ := p.nextToken()
+	maybeAlias, err := p.nextToken()
 
-	if maybeAlias == nil {
+	if err != nil && !afterAs {
 		return nil
 	}
 
@@ -1541,7 +1567,7 @@ func (p *Parser) parseOptionalAlias(reservedKeywords map[string]struct{}) *sqlas
 		}
 	}
 	if afterAs {
-		log.Panicf("expected an identifier after AS")
+		syntaxPanicf("expected an identifier after AS")
 	}
 	p.prevToken()
 	return nil
@@ -2054,7 +2080,7 @@ func (p *Parser) parseInfix(expr sqlast.Node, precedence uint) (sqlast.Node, err
 		return p.parsePGCast(expr)
 	}
 
-	log.Panicf("no infix parser for sqltoken %+v", tok)
+	syntaxPanicf("no infix parser for sqltoken %+v", tok)
 	return nil, nil
 }
 
@@ -2367,7 +2393,7 @@ func (p *Parser) parsePrefix() (sqlast.Node, error) {
 		}
 		return ast, nil
 	}
-	log.Panicf("prefix parser expected a keyword but hit EOF")
+	syntaxPanicf("prefix parser expected a keyword but hit EOF")
 	return nil, nil
 }
 
@@ -2560,7 +2586,7 @@ func (p *Parser) parseWindowFrameBound() (sqlast.SQLWindowFrameBound, error) {
 	if ok, _, _ := p.parseKeyword("FOLLOWING"); ok {
 		return &sqlast.Following{Bound: rows}, nil
 	}
-	log.Panicln("expected PRECEDING or FOLLOWING")
+	syntaxPanicf("expected PRECEDING or FOLLOWING")
 	return nil, nil
 }
 
@@ -2708,8 +2734,8 @@ func (p *Parser) parseListOfIds(separator sqltoken.Kind) ([]*sqlast.Ident, error
 	expectIdentifier := true
 
 	for {
-		tok, _ := p.nextToken()
-		if tok == nil {
+		tok, err := p.nextToken()
+		if err != nil {
 			break
 		}
 		if tok.Kind == sqltoken.SQLKeyword && expectIdentifier {
@@ -2873,7 +2899,7 @@ func (p *Parser) expectKeyword(expected string) *sqltoken.Token {
 			fmt.Printf("%v", p.tokens[i].Value)
 		}
 		fmt.Println()
-		log.Panicf("should be expected keyword: %s err: %v", expected, err)
+		syntaxPanicf("should be expected keyword: %s err: %v", expected, err)
 	}
 
 	return tok
@@ -2888,7 +2914,7 @@ func (p *Parser) expectToken(expected sqltoken.Kind) {
 			fmt.Printf("%v", p.tokens[i].Value)
 		}
 		fmt.Println()
-		log.Panicf("should be %s sqltoken, but %+v,  err: %+v", expected, tok, err)
+		syntaxPanicf("should be %s sqltoken, but %+v,  err: %+v", expected, tok, err)
 	}
 }
 
@@ -2911,7 +2937,7 @@ func (p *Parser) consumeToken(expected sqltoken.Kind) (bool, error) {
 func (p *Parser) mustNextToken() *sqltoken.Token {
 	tok, err := p.nextToken()
 	if err != nil {
-		log.Panicf("%+v", err)
+		syntaxPanicf("%+v", err)
 	}
 
 	return tok
@@ -2925,7 +2951,7 @@ func (p *Parser) nextToken() (*sqltoken.Token, error) {
 	for {
 		tok, err := p.nextTokenNoSkip()
 		if err != nil {
-			return nil, err
+			return eofToken, err
 		}
 		if tok.Kind == sqltoken.Whitespace || tok.Kind == sqltoken.Comment {
 			continue
@@ -2956,7 +2982,7 @@ func (p *Parser) nextTokenWithParseComment() (*sqltoken.Token, error) {
 				}
 			}
 
-			return nil, err
+			return eofToken, err
 		} else if err != nil {
 			return nil, err
 		}
@@ -3027,6 +3053,30 @@ func (p *Parser) nextTokenWithParseComment() (*sqltoken.Token, error) {
 
 var EOF = errors.New("tokens are already consumed")
 
+// eofToken stands for the token after the last one: it matches no kind that the parser expects.
+var eofToken = &sqltoken.Token{Kind: sqltoken.ILLEGAL}
+
+// syntaxError is what the parse functions panic with when the text is not valid SQL. The
+// exported functions return it as an error.
+type syntaxError struct {
+	err error
+}
+
+func syntaxPanicf(format string, args ...interface{}) {
+	panic(syntaxError{err: errors.Errorf(format, args...)})
+}
+
+// syntaxErr gives the error of a parse function that recovered r or else returned err.
+func syntaxErr(r interface{}, err error) error {
+	if r == nil {
+		return err
+	}
+	if s, ok := r.(syntaxError); ok {
+		return s.err
+	}
+	panic(r)
+}
+
 func (p *Parser) nextTokenNoSkip() (*sqltoken.Token, error) {
 	if p.index < uint(len(p.tokens)) {
 		p.index += 1
@@ -3056,7 +3106,7 @@ func (p *Parser) prevTokenNoSkip() *sqltoken.Token {
 func (p *Parser) peekToken() (*sqltoken.Token, error) {
 	u, err := p.tilNonWhitespace()
 	if err != nil {
-		return nil, err
+		return eofToken, err
 	}
 	return p.tokens[u], nil
 }
@@ -3095,7 +3145,7 @@ func (p *Parser) parseKeywords(keywords ...string) (bool, []*sqltoken.Token, err
 func (p *Parser) parseKeyword(expected string) (bool, *sqltoken.Token, error) {
 	tok, err := p.peekToken()
 	if err != nil {
-		return false, nil, errors.Errorf("parseKeyword %s failed: %w", expected, err)
+		return false, tok, errors.Errorf("parseKeyword %s failed: %w", expected, err)
 	}
 
 	word, ok := tok.Value.(*sqltoken.SQLWord)
-- 
2.43.0


From fd195515d09ad94e83d3d1c39187c64f6ac073e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:37 +0000
Subject: [PATCH 15/30] fix: a delimited identifier is never read as a keyword

---
 parser.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index 2ec3e69..974c2de 100644
--- a/parser.go
+++ b/parser.go
@@ -37,7 +37,7 @@ func NewParser(src io.Reader, dialect dialect.Dialect, opts ...ParserOption) (*P
 		return nil, errors.Errorf("tokenize err failed: %w", err)
 	}
 
-	parser := &Parser{tokens: set, index: 0}
+	parser := &Parser{tokens: plainNames(set), index: 0}
 
 	for _, o := range opts {
 		o(parser)
@@ -57,7 +57,21 @@ func NewParserWithOptions(opts ...ParserOption) *Parser {
 // workaround
 // FIXME: create appropriate parse function
 func (p *Parser) SetTokens(tokens []*sqltoken.Token) {
-	p.tokens = tokens
+	p.tokens = plainNames(tokens)
+}
+
+// plainNames returns tokens in which a delimited identifier is no keyword, whatever its spelling.
+func plainNames(tokens []*sqltoken.Token) []*sqltoken.Token {
+	var plain []*sqltoken.Token
+	for _, tok := range tokens {
+		if word, ok := tok.Value.(*sqltoken.SQLWord); ok && word.QuoteStyle != 0 {
+			name := *tok
+			name.Value = &sqltoken.SQLWord{Value: word.Value, QuoteStyle: word.QuoteStyle}
+			tok = &name
+		}
+		plain = append(plain, tok)
+	}
+	return plain
 }
 
 func (p *Parser) ParseFile() (*sqlast.File, error) {
@@ -3153,7 +3167,7 @@ func (p *Parser) parseKeyword(expected string) (bool, *sqltoken.Token, error) {
 		return false, tok, nil
 	}
 
-	if strings.EqualFold(word.Value, expected) {
+	if word.QuoteStyle == 0 && strings.EqualFold(word.Value, expected) {
 		p.mustNextToken()
 		return true, tok, nil
 	}
-- 
2.43.0


From d2e8ed17d22894f60f2f2185551c2ee572caa799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:37 +0000
Subject: [PATCH 16/30] fix: ParseSQL takes an optional final semicolon and no
 leading one

---
 parser.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index 974c2de..c9ed267 100644
--- a/parser.go
+++ b/parser.go
@@ -101,10 +101,11 @@ func (p *Parser) ParseSQL() ([]sqlast.Stmt, error) {
 	var expectingDelimiter bool
 
 	for {
-		ok, _ := p.consumeToken(sqltoken.Semicolon)
-		if !ok && expectingDelimiter {
-			tok, _ := p.peekToken()
-			return nil, errors.Errorf("expect semicolon but %+v", tok)
+		if expectingDelimiter {
+			ok, _ := p.consumeToken(sqltoken.Semicolon)
+			if tok, err := p.peekToken(); !ok && err != EOF {
+				return nil, errors.Errorf("expect semicolon but %+v", tok)
+			}
 		}
 
 		if p.parseComment {
-- 
2.43.0


From b6cb386c171338887d731658bb01160a52eeed4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:38 +0000
Subject: [PATCH 17/30] fix: NOT LIKE, NOT IN and NOT BETWEEN bind like their
 positive forms

---
 parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser.go b/parser.go
index c9ed267..39df47c 100644
--- a/parser.go
+++ b/parser.go
@@ -2176,6 +2176,10 @@ func (p *Parser) getNextPrecedence() (uint, error) {
 	if tok == nil {
 		return 0, nil
 	}
+	if w, ok := tok.Value.(*sqltoken.SQLWord); ok && w.Keyword == "NOT" {
+		// NOT LIKE, NOT IN and NOT BETWEEN bind like LIKE, IN and BETWEEN
+		return 20, nil
+	}
 	return p.getPrecedence(tok), nil
 }
 
-- 
2.43.0


From fbe2329db98c10eadc30dee6ccd3a909811e34f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:40 +0000
Subject: [PATCH 18/30] fix: the bounds of BETWEEN may be arithmetic
 expressions

---
 parser.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index 39df47c..86d1939 100644
--- a/parser.go
+++ b/parser.go
@@ -2152,14 +2152,14 @@ func (p *Parser) parseIn(expr sqlast.Node, negated bool) (sqlast.Node, error) {
 }
 
 func (p *Parser) parseBetween(expr sqlast.Node, negated bool) (sqlast.Node, error) {
-	low, err := p.parsePrefix()
+	low, err := p.parseSubexpr(20)
 	if err != nil {
-		return nil, errors.Errorf("parsePrefix: %w", err)
+		return nil, errors.Errorf("parseSubexpr: %w", err)
 	}
 	p.expectKeyword("AND")
-	high, err := p.parsePrefix()
+	high, err := p.parseSubexpr(20)
 	if err != nil {
-		return nil, errors.Errorf("parsePrefix: %w", err)
+		return nil, errors.Errorf("parseSubexpr: %w", err)
 	}
 
 	return &sqlast.Between{
-- 
2.43.0


From eabf4eb05af1cce59a6157e3a9e1846081f12ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:41 +0000
Subject: [PATCH 19/30] fix: the value of OFFSET reports its own position

---
 parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 86d1939..a797783 100644
--- a/parser.go
+++ b/parser.go
@@ -1917,8 +1917,8 @@ func (p *Parser) parseLimit() (*sqlast.LimitExpr, error) {
 	}
 
 	var offset *sqlast.LongValue
-	if ok, tok, _ := p.parseKeyword("OFFSET"); ok {
-		o, _, err := p.parseLiteralInt()
+	if ok, _, _ := p.parseKeyword("OFFSET"); ok {
+		o, tok, err := p.parseLiteralInt()
 		if err != nil {
 			return nil, errors.Errorf("invalid offset value: %w", err)
 		}
-- 
2.43.0


From 2737580f29770c28898ce62e2712ac485b3a7fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:42 +0000
Subject: [PATCH 20/30] fix: CREATE MATERIALIZED VIEW is recorded as
 materialized

---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index a797783..57d9ea5 100644
--- a/parser.go
+++ b/parser.go
@@ -558,6 +558,9 @@ func (p *Parser) parseCreate() (sqlast.Stmt, error) {
 	mok, _, _ := p.parseKeyword("MATERIALIZED")
 	vok, _, _ := p.parseKeyword("VIEW")
 
+	if mok && vok {
+		p.prevToken()
+	}
 	if mok || vok {
 		p.prevToken()
 		return p.parseCreateView(t)
-- 
2.43.0


From 72d66226d96088fa9e2601ffc4f390c8b4d43a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:44 +0000
Subject: [PATCH 21/30] fix: CREATE INDEX UNIQUE INDEX is not a way to create
 an index

---
 parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 57d9ea5..28bb592 100644
--- a/parser.go
+++ b/parser.go
@@ -567,7 +567,10 @@ func (p *Parser) parseCreate() (sqlast.Stmt, error) {
 	}
 
 	iok, _, _ := p.parseKeyword("INDEX")
-	uiok, _, _ := p.parseKeywords("UNIQUE", "INDEX")
+	var uiok bool
+	if !iok {
+		uiok, _, _ = p.parseKeywords("UNIQUE", "INDEX")
+	}
 
 	if iok || uiok {
 		return p.parseCreateIndex(uiok)
-- 
2.43.0


From a62895c601f472352d54dce75dbbf8278e857746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:45 +0000
Subject: [PATCH 22/30] fix: FOREIGN KEY needs the referenced columns

---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index 28bb592..024fd80 100644
--- a/parser.go
+++ b/parser.go
@@ -839,6 +839,9 @@ func (p *Parser) parseTableConstraints() (*sqlast.TableConstraint, error) {
 		}
 		p.expectToken(sqltoken.LParen)
 		refcolumns, err := p.parseColumnNames()
+		if err != nil {
+			return nil, errors.Errorf("parseColumnNames failed: %w", err)
+		}
 		r, _ := p.nextToken()
 		if r.Kind != sqltoken.RParen {
 			return nil, errors.Errorf("expected RParen but %+v", r)
-- 
2.43.0


From c3f2c286db814bd80bad7dedb0c35eca0293b595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:47 +0000
Subject: [PATCH 23/30] fix: every constraint and default of a column
 definition is kept

---
 parser.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 024fd80..0342458 100644
--- a/parser.go
+++ b/parser.go
@@ -905,6 +905,9 @@ COLUMN_DEF_LOOP:
 
 		switch word.Keyword {
 		case "DEFAULT":
+			if def != nil {
+				return nil, nil, nil, errors.Errorf("more than one DEFAULT")
+			}
 			if ok, _, _ := p.parseKeyword("DEFAULT"); ok {
 				d, err := p.parseDefaultExpr(0)
 				if err != nil {
@@ -918,7 +921,7 @@ COLUMN_DEF_LOOP:
 			if err != nil {
 				return nil, nil, nil, errors.Errorf("parseColumnConstraints failed: %w", err)
 			}
-			specs = s
+			specs = append(specs, s...)
 		case "AUTO_INCREMENT":
 			p.mustNextToken()
 			decorates = append(decorates, &sqlast.AutoIncrement{
@@ -958,6 +961,9 @@ CONSTRAINT_LOOP:
 
 		tok, _ = p.peekToken()
 		if tok.Kind != sqltoken.SQLKeyword {
+			if name != nil {
+				return nil, errors.Errorf("expected column constraint but %+v", tok)
+			}
 			break
 		}
 
@@ -1025,6 +1031,9 @@ CONSTRAINT_LOOP:
 				RParen: r.To,
 			}
 		default:
+			if name != nil {
+				return nil, errors.Errorf("expected column constraint but %+v", tok)
+			}
 			break CONSTRAINT_LOOP
 		}
 
-- 
2.43.0


From 9281be075e0ec99d6a2f2a0efef01bad37d0e678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:48 +0000
Subject: [PATCH 24/30] fix: table options may be separated by commas

---
 parser.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index 0342458..e88911b 100644
--- a/parser.go
+++ b/parser.go
@@ -1057,10 +1057,9 @@ func (p *Parser) parseTableOptions() ([]sqlast.TableOption, error) {
 			return nil, err
 		}
 
-		if tok.Kind == sqltoken.Comma {
-			tok = p.mustNextToken()
-		}
-		if tok.Kind != sqltoken.SQLKeyword {
+		if tok.Kind == sqltoken.Comma && len(opts) > 0 {
+			p.mustNextToken()
+		} else if tok.Kind != sqltoken.SQLKeyword {
 			break
 		}
 		opt, err := p.parseTableOption()
-- 
2.43.0


From 012e29ca150fb26fbd3fe8833ddd359c6157c200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:49 +0000
Subject: [PATCH 25/30] fix: CROSS JOIN keeps the joins on its left

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index e88911b..3663cb2 100644
--- a/parser.go
+++ b/parser.go
@@ -1681,7 +1681,7 @@ func (p *Parser) parseTableReference() (sqlast.TableReference, error) {
 			}
 			e = rtp
 		case *sqlast.CrossJoin:
-			rtp.Reference = leftElem
+			rtp.Reference = e
 			e = rtp
 		case *sqlast.QualifiedJoin:
 			rtp.LeftElement = &sqlast.TableJoinElement{
-- 
2.43.0


From b79d106c4ce333b909c0c073855b91b3c93076b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:50 +0000
Subject: [PATCH 26/30] fix: the argument list of a table function ends with a
 parenthesis

---
 parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser.go b/parser.go
index 3663cb2..a46f4f7 100644
--- a/parser.go
+++ b/parser.go
@@ -1896,6 +1896,7 @@ func (p *Parser) parseTableFactor() (sqlast.TableFactor, error) {
 		if err != nil {
 			return nil, errors.Errorf("parseOptionalArgs failed: %w", err)
 		}
+		p.expectToken(sqltoken.RParen)
 		args = a
 	}
 	alias := p.parseOptionalAlias(dialect.ReservedForTableAlias)
-- 
2.43.0


From eb96e614bc1e9bef96177ed8c7379b49a0e005a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:52 +0000
Subject: [PATCH 27/30] fix: SELECT WITH does not begin a subquery

---
 parser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index a46f4f7..b2cf640 100644
--- a/parser.go
+++ b/parser.go
@@ -2132,7 +2132,10 @@ func (p *Parser) parsePGCast(expr sqlast.Node) (sqlast.Node, error) {
 func (p *Parser) parseIn(expr sqlast.Node, negated bool) (sqlast.Node, error) {
 	p.expectToken(sqltoken.LParen)
 	sok, _, _ := p.parseKeyword("SELECT")
-	wok, _, _ := p.parseKeyword("WITH")
+	var wok bool
+	if !sok {
+		wok, _, _ = p.parseKeyword("WITH")
+	}
 	var inop sqlast.Node
 	if sok || wok {
 		p.prevToken()
@@ -2394,7 +2397,10 @@ func (p *Parser) parsePrefix() (sqlast.Node, error) {
 		return v, nil
 	case sqltoken.LParen:
 		sok, _, _ := p.parseKeyword("SELECT")
-		wok, _, _ := p.parseKeyword("WITH")
+		var wok bool
+		if !sok {
+			wok, _, _ = p.parseKeyword("WITH")
+		}
 
 		var ast sqlast.Node
 
-- 
2.43.0


From 6312a33a22440cab6c831b6dab2af5219dc0ac0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:53 +0000
Subject: [PATCH 28/30] fix: an integer literal out of range is an error

---
 parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index b2cf640..3487027 100644
--- a/parser.go
+++ b/parser.go
@@ -2691,7 +2691,10 @@ func (p *Parser) parseValue() (sqlast.Node, error) {
 				Double: f,
 			}, nil
 		} else {
-			i, _ := strconv.Atoi(num)
+			i, err := strconv.Atoi(num)
+			if err != nil {
+				return nil, errors.Errorf("strconv.Atoi failed: %w", err)
+			}
 			return &sqlast.LongValue{
 				Long: int64(i),
 				From: tok.From,
-- 
2.43.0


From be384969851247f28b3abdfab2e9e5409febf483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:54 +0000
Subject: [PATCH 29/30] fix: WITH WITHOUT TIME ZONE is not a time zone
 specification

---
 parser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 3487027..cada290 100644
--- a/parser.go
+++ b/parser.go
@@ -260,7 +260,10 @@ func (p *Parser) ParseDataType() (tp sqlast.Type, err error) {
 		return &sqlast.Date{}, nil
 	case "TIMESTAMP":
 		wok, _, _ := p.parseKeyword("WITH")
-		ook, _, _ := p.parseKeyword("WITHOUT")
+		var ook bool
+		if !wok {
+			ook, _, _ = p.parseKeyword("WITHOUT")
+		}
 		if wok || ook {
 			p.expectKeyword("TIME")
 			p.expectKeyword("ZONE")
@@ -271,7 +274,10 @@ func (p *Parser) ParseDataType() (tp sqlast.Type, err error) {
 		}, nil
 	case "TIME":
 		wok, _, _ := p.parseKeyword("WITH")
-		ook, _, _ := p.parseKeyword("WITHOUT")
+		var ook bool
+		if !wok {
+			ook, _, _ = p.parseKeyword("WITHOUT")
+		}
 		if wok || ook {
 			p.expectKeyword("TIME")
 			p.expectKeyword("ZONE")
-- 
2.43.0


From 8f905d2fc45b88fdb50aed72c6534ceeb1b48c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:08 +0000
Subject: [PATCH 30/30] fix: TIME WITH TIME ZONE keeps its time zone

---
 parser.go      |  2 +-
 sqlast/type.go | 13 ++++++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/parser.go b/parser.go
index cada290..249f784 100644
--- a/parser.go
+++ b/parser.go
@@ -282,7 +282,7 @@ func (p *Parser) ParseDataType() (tp sqlast.Type, err error) {
 			p.expectKeyword("TIME")
 			p.expectKeyword("ZONE")
 		}
-		return &sqlast.Time{}, nil
+		return &sqlast.Time{WithTimeZone: wok}, nil
 	case "REGCLASS":
 		return &sqlast.Regclass{}, nil
 	case "TEXT":
diff --git a/sqlast/type.go b/sqlast/type.go
index d1445ff..552f3e8 100644
--- a/sqlast/type.go
+++ b/sqlast/type.go
@@ -403,7 +403,8 @@ func (*Date) WriteTo(w io.Writer) (int64, error) {
 }
 
 type Time struct {
-	From, To sqltoken.Pos
+	WithTimeZone bool
+	From, To      sqltoken.Pos
 }
 
 func (t *Time) Pos() sqltoken.Pos {
@@ -414,12 +415,14 @@ func (t *Time) End() sqltoken.Pos {
 	return t.To
 }
 
-func (*Time) ToSQLString() string {
-	return "time"
+func (t *Time) ToSQLString() string {
+	return toSQLString(t)
 }
 
-func (*Time) WriteTo(w io.Writer) (int64, error) {
-	return writeSingleBytes(w, []byte("time"))
+func (t *Time) WriteTo(w io.Writer) (int64, error) {
+	sw := newSQLWriter(w)
+	sw.Bytes([]byte("time")).If(t.WithTimeZone, []byte(" with time zone"))
+	return sw.End()
 }
 
 type Timestamp struct {
-- 
2.43.0

