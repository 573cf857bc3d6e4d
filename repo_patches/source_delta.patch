From 82aee4f321ecb30409caf1b249f3468b619e6fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:51 +0000
Subject: [PATCH 01/52] fix: drop the named column or index from a schema, not
 the first other one

---
 sql/query/schema.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sql/query/schema.go b/sql/query/schema.go
index 6b9451a..9530b78 100644
--- a/sql/query/schema.go
+++ b/sql/query/schema.go
@@ -178,7 +178,7 @@ func (schema *schema) AddColumn(column Column) error {
 // DropColumn drops a column by the specified name.
 func (schema *schema) DropColumn(name string) error {
 	for n, column := range schema.columns {
-		if strings.EqualFold(column.Name(), name) {
+		if !strings.EqualFold(column.Name(), name) {
 			continue
 		}
 		schema.columns = append(schema.columns[:n], schema.columns[n+1:]...)
@@ -196,7 +196,7 @@ func (schema *schema) AddIndex(index Index) error {
 // DropIndex drops an index by the specified name.
 func (schema *schema) DropIndex(name string) error {
 	for n, index := range schema.indexes {
-		if strings.EqualFold(index.Name(), name) {
+		if !strings.EqualFold(index.Name(), name) {
 			continue
 		}
 		schema.indexes = append(schema.indexes[:n], schema.indexes[n+1:]...)
-- 
2.43.0


From 8cc5c64df307c14efce8bbe5d734c63b360662e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:52 +0000
Subject: [PATCH 02/52] fix: report selectors that contain a function in
 HasFunction

---
 sql/query/selectors_helper.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sql/query/selectors_helper.go b/sql/query/selectors_helper.go
index 44bdf03..8f4a8c6 100644
--- a/sql/query/selectors_helper.go
+++ b/sql/query/selectors_helper.go
@@ -33,8 +33,7 @@ func (selectors Selectors) IsAsterisk() bool {
 // HasFunction returns true if the selector list has a function.
 func (selectors Selectors) HasFunction() bool {
 	for _, selector := range selectors {
-		_, ok := selector.Function()
-		if !ok {
+		if _, ok := selector.Function(); ok {
 			return true
 		}
 	}
-- 
2.43.0


From 802e05ee7d2d9d4239feeccdbf898e1e4e586686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:06 +0000
Subject: [PATCH 03/52] fix: reject negative column and value indexes instead
 of panicking

---
 sql/query/columns.go                     | 2 +-
 sql/query/response/resultset/row_impl.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sql/query/columns.go b/sql/query/columns.go
index 84603be..b3861dd 100644
--- a/sql/query/columns.go
+++ b/sql/query/columns.go
@@ -61,7 +61,7 @@ func (columns Columns) Selectors() Selectors {
 
 // ColumnAt returns a column by the specified index.
 func (columns Columns) ColumnAt(n int) (Column, error) {
-	if len(columns) <= n {
+	if n < 0 || len(columns) <= n {
 		return nil, newErrColumnIndexOutOfRange(n)
 	}
 	return columns[n], nil
diff --git a/sql/query/response/resultset/row_impl.go b/sql/query/response/resultset/row_impl.go
index 2901b44..75359ff 100644
--- a/sql/query/response/resultset/row_impl.go
+++ b/sql/query/response/resultset/row_impl.go
@@ -134,7 +134,7 @@ func (row *row) Values() []any {
 // ValueAt returns the row value at the specified index.
 func (row *row) ValueAt(index int) (any, error) {
 	values := row.Values()
-	if len(values) <= index {
+	if index < 0 || len(values) <= index {
 		return nil, errors.ErrNotExist
 	}
 	return values[index], nil
-- 
2.43.0


From b81e9f5a7513ade48b3e813d30ba0ee58699ed85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:07 +0000
Subject: [PATCH 04/52] fix: do not carry a syntax error over to the next query
 of a parser

---
 sql/parser/sqlite/parser_antlr.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sql/parser/sqlite/parser_antlr.go b/sql/parser/sqlite/parser_antlr.go
index 65f7f1e..2fad0c7 100644
--- a/sql/parser/sqlite/parser_antlr.go
+++ b/sql/parser/sqlite/parser_antlr.go
@@ -66,6 +66,7 @@ func (parser *Parser) ParseString(queryString string) ([]query.Statement, error)
 	parser.lexer = antlr.NewSQLiteLexer(parser.inputStream)
 	parser.tokenStream = go_antlr.NewCommonTokenStream(parser.lexer, 0)
 	parser.parser = antlr.NewSQLiteParser(parser.tokenStream)
+	parser.errorListener = newANTLRParserErrorListener()
 	parser.parser.AddErrorListener(parser.errorListener)
 	parser.parser.BuildParseTrees = true
 	tree := parser.parser.Parse()
-- 
2.43.0


From 693cdfc78d0831c24baab5425a1c9306e6293939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:07 +0000
Subject: [PATCH 05/52] fix: take the column name, not the whole clause, from
 ALTER TABLE DROP COLUMN

---
 sql/parser/sqlite/parser_antlr_visitor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index af451cb..a787c62 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -217,7 +217,7 @@ func newAlterTableWith(ctx antlr.IAlter_table_stmtContext) query.AlterTable {
 		opts = append(opts, query.WithAlterTableAddIndex(index))
 	}
 	if ctx := ctx.Drop_table_column(); ctx != nil {
-		column := query.NewColumnWithOptions(query.WithColumnName(ctx.GetText()))
+		column := query.NewColumnWithOptions(query.WithColumnName(strings.UnEscapeNameString(ctx.Column_name().GetText())))
 		opts = append(opts, query.WithAlterTableDropColumn(column))
 	}
 	tblName := ctx.GetTarget_table_name().GetText()
-- 
2.43.0


From 9ec67dbd27582f6bbd44b6773581457a6d028509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:26 +0000
Subject: [PATCH 06/52] fix: report unsupported statements instead of panicking
 or silently dropping parts of them

---
 sql/parser/sqlite/parser_antlr.go         |  3 +
 sql/parser/sqlite/parser_antlr_visitor.go | 96 +++++++++++++++++------
 2 files changed, 73 insertions(+), 26 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr.go b/sql/parser/sqlite/parser_antlr.go
index 2fad0c7..c0473b5 100644
--- a/sql/parser/sqlite/parser_antlr.go
+++ b/sql/parser/sqlite/parser_antlr.go
@@ -76,6 +76,9 @@ func (parser *Parser) ParseString(queryString string) ([]query.Statement, error)
 	}
 
 	v := tree.Accept(newANTLRVisitor())
+	if err, ok := v.(error); ok {
+		return nil, fmt.Errorf("%s (%w)", queryString, err)
+	}
 	stmtList, ok := v.(query.StatementList)
 	if !ok {
 		return nil, fmt.Errorf("failed to parse query: %s", queryString)
diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index a787c62..9b54bcd 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -15,6 +15,8 @@
 package sqlite
 
 import (
+	"fmt"
+
 	"github.com/cybergarage/go-safecast/safecast"
 	"github.com/cybergarage/go-sqlparser/sql/fn"
 	"github.com/cybergarage/go-sqlparser/sql/parser/sqlite/antlr"
@@ -35,21 +37,25 @@ func newANTLRVisitor() *antlrVisitor {
 }
 
 func (v *antlrVisitor) VisitParse(ctx *antlr.ParseContext) interface{} {
-	return newStatementListWith(ctx.AllSql_stmt_list())
+	stmtList, err := newStatementListWith(ctx.AllSql_stmt_list())
+	if err != nil {
+		return err
+	}
+	return stmtList
 }
 
-func newStatementListWith(ctxList []antlr.ISql_stmt_listContext) query.StatementList {
+func newStatementListWith(ctxList []antlr.ISql_stmt_listContext) (query.StatementList, error) {
 	stmtList := query.NewStatementList()
 	for _, ctx := range ctxList {
 		for _, sqlStmt := range ctx.AllSql_stmt() {
 			stmt := newStatementWith(sqlStmt)
 			if stmt == nil {
-				continue
+				return nil, fmt.Errorf("statement %w", query.ErrNotSupported)
 			}
 			stmtList = append(stmtList, stmt)
 		}
 	}
-	return stmtList
+	return stmtList, nil
 }
 
 func newStatementWith(ctx antlr.ISql_stmtContext) query.Statement {
@@ -136,7 +142,11 @@ func newCreateTableWith(ctx antlr.ICreate_table_stmtContext) query.CreateTable {
 	if ctx.If_not_exists() != nil {
 		ifNotExists = query.NewIfNotExistsWith(true)
 	}
-	return query.NewCreateTableWith(newTableSchemaWith(ctx), ifNotExists)
+	schema := newTableSchemaWith(ctx)
+	if schema == nil {
+		return nil
+	}
+	return query.NewCreateTableWith(schema, ifNotExists)
 }
 
 func newCreateIndexWith(ctx antlr.ICreate_index_stmtContext) query.CreateIndex {
@@ -144,7 +154,11 @@ func newCreateIndexWith(ctx antlr.ICreate_index_stmtContext) query.CreateIndex {
 	if ctx.If_not_exists() != nil {
 		ifNotExists = query.NewIfNotExistsWith(true)
 	}
-	return query.NewCreateIndexWith(newIndexSchemaWith(ctx), ifNotExists)
+	schema := newIndexSchemaWith(ctx)
+	if schema == nil {
+		return nil
+	}
+	return query.NewCreateIndexWith(schema, ifNotExists)
 }
 
 func newDropDatabaseWith(ctx antlr.IDrop_database_stmtContext) query.DropDatabase {
@@ -245,6 +259,10 @@ func newAddIndexSchemaWith(ctx antlr.IAdd_table_indexContext) query.Index {
 }
 
 func newTableSchemaWith(ctx antlr.ICreate_table_stmtContext) query.Schema {
+	if ctx.Select_stmt() != nil {
+		return nil
+	}
+
 	indexDefs := func(ctx antlr.IColumn_defContext) []string {
 		typNames := []string{
 			strings.UnEscapeNameString(ctx.Column_name().GetText()),
@@ -327,6 +345,9 @@ func newTableSchemaWith(ctx antlr.ICreate_table_stmtContext) query.Schema {
 		if primaryDef := tblConst.Primary_key_def(); primaryDef != nil {
 			indexColums := query.NewColumns()
 			for _, columDef := range primaryDef.AllIndexed_column() {
+				if columDef.Column_name() == nil {
+					return nil
+				}
 				column := newIndexedColumnWith(columDef)
 				indexColums = append(indexColums, column)
 			}
@@ -344,6 +365,9 @@ func newIndexSchemaWith(ctx antlr.ICreate_index_stmtContext) query.Schema {
 	indexes := query.NewIndexes()
 	indexColumns := query.NewColumns()
 	for _, columDef := range ctx.AllIndexed_column() {
+		if columDef.Column_name() == nil {
+			return nil
+		}
 		columDef := strings.UnEscapeNameString(columDef.Column_name().GetText())
 		indexColumn := query.NewColumnWithName(columDef)
 		indexColumns = append(indexColumns, indexColumn)
@@ -427,8 +451,12 @@ func newInsertWith(ctx antlr.IInsert_stmtContext) query.Insert {
 	for _, name := range ctx.AllColumn_name() {
 		names = append(names, name.GetText())
 	}
+	valuesClause := ctx.Values_clause()
+	if valuesClause == nil {
+		return nil
+	}
 	values := []query.Columns{}
-	for _, row := range ctx.Values_clause().AllValue_row() {
+	for _, row := range valuesClause.AllValue_row() {
 		columns := query.NewColumns()
 		valueIdx := 0
 		for _, expr := range row.AllExpr() {
@@ -436,22 +464,23 @@ func newInsertWith(ctx antlr.IInsert_stmtContext) query.Insert {
 				columns = append(columns,
 					query.NewColumnWithOptions(query.WithColumnName(v.Column_name().GetText()),
 						query.WithColumnLiteral(newLiteralValueWith(v.Literal_value()))))
-			} else if v := expr.Literal_value(); v != nil {
-				if valueIdx < len(names) {
-					columns = append(columns,
-						query.NewColumnWithOptions(query.WithColumnName(names[valueIdx]),
-							query.WithColumnLiteral(newLiteralValueWith(v))))
-					valueIdx++
-				}
-			} else if v := expr.Bind_param(); v != nil {
-				if valueIdx < len(names) {
-					columns = append(columns,
-						query.NewColumnWithOptions(query.WithColumnName(names[valueIdx]),
-							query.WithColumnLiteral(newBindParamWith(v))))
-					valueIdx++
-				}
+			} else if v := expr.Literal_value(); v != nil && valueIdx < len(names) {
+				columns = append(columns,
+					query.NewColumnWithOptions(query.WithColumnName(names[valueIdx]),
+						query.WithColumnLiteral(newLiteralValueWith(v))))
+				valueIdx++
+			} else if v := expr.Bind_param(); v != nil && valueIdx < len(names) {
+				columns = append(columns,
+					query.NewColumnWithOptions(query.WithColumnName(names[valueIdx]),
+						query.WithColumnLiteral(newBindParamWith(v))))
+				valueIdx++
+			} else {
+				return nil
 			}
 		}
+		if len(columns) < len(names) {
+			return nil
+		}
 		values = append(values, columns)
 	}
 	return query.NewInsertWith(tbl, values)
@@ -461,6 +490,9 @@ func newUpdateWith(ctx antlr.IUpdate_stmtContext) query.Update {
 	tbl := query.NewTableWith(ctx.GetTable().GetText())
 	columns := query.NewColumns()
 	for _, set := range ctx.AllUpdate_column_set() {
+		if set.Column_name() == nil {
+			return nil
+		}
 		name := set.Column_name().GetText()
 		opts := []query.ColumnOption{
 			query.WithColumnName(name),
@@ -475,16 +507,24 @@ func newUpdateWith(ctx antlr.IUpdate_stmtContext) query.Update {
 				v.Column_name().GetText(),
 				v.Expr().GetText(),
 			}
-			if executor, _ := fn.NewArithOperatorFor(ope, fn.WithExecutorArguments(args)); executor != nil {
-				opts = append(opts, query.WithColumnFunctionExecutor(executor))
-				opts = append(opts, query.WithColumnArguments(args))
+			executor, err := fn.NewArithOperatorFor(ope, fn.WithExecutorArguments(args))
+			if err != nil {
+				return nil
 			}
+			opts = append(opts, query.WithColumnFunctionExecutor(executor))
+			opts = append(opts, query.WithColumnArguments(args))
+		} else {
+			return nil
 		}
 		columns = append(columns, query.NewColumnWithOptions(opts...))
 	}
 	where := query.NewCondition()
 	if w := ctx.GetWhereExpr(); w != nil {
-		where = query.NewConditionWith(newExprWith(w))
+		expr := newExprWith(w)
+		if expr == nil {
+			return nil
+		}
+		where = query.NewConditionWith(expr)
 	}
 	return query.NewUpdateWith(tbl, columns, where)
 }
@@ -592,7 +632,11 @@ func newDeleteWith(ctx antlr.IDelete_stmtContext) query.Delete {
 	tbl := query.NewTableWith(ctx.GetTable().GetText())
 	where := query.NewCondition()
 	if w := ctx.GetWhereExpr(); w != nil {
-		where = query.NewConditionWith(newExprWith(w))
+		expr := newExprWith(w)
+		if expr == nil {
+			return nil
+		}
+		where = query.NewConditionWith(expr)
 	}
 	return query.NewDeleteWith(tbl, where)
 }
-- 
2.43.0


From ed3ff7e3ba739573d91d2bc389b4fe898b03b63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:54 +0000
Subject: [PATCH 07/52] fix: keep schema qualifiers and drop quotes and aliases
 consistently in table and column names

---
 sql/parser/sqlite/parser_antlr_visitor.go | 45 ++++++++++++++---------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 9b54bcd..a3236ce 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -128,6 +128,15 @@ func newStatementWith(ctx antlr.ISql_stmtContext) query.Statement {
 	return nil
 }
 
+// newTableNameWith returns the unescaped table name, qualified by the schema name if any.
+func newTableNameWith(schema antlr.ISchema_nameContext, table antlr.ITable_nameContext) string {
+	name := strings.UnEscapeNameString(table.GetText())
+	if schema != nil {
+		name = strings.UnEscapeNameString(schema.GetText()) + query.TableNameSep + name
+	}
+	return name
+}
+
 func newCreateDatabaseWith(ctx antlr.ICreate_database_stmtContext) query.CreateDatabase {
 	dbName := ctx.Database_name().GetText()
 	ifNotExists := query.NewIfNotExistsWith(false)
@@ -176,9 +185,10 @@ func newDropTableWith(ctx antlr.IDrop_table_stmtContext) query.DropTable {
 		ifExists = query.NewIfExistsWith(true)
 	}
 	tbls := query.NewTables()
+	schema := ctx.Schema_name()
 	for _, tbl := range ctx.AllTable_name() {
-		tblName := strings.UnEscapeNameString(tbl.GetText())
-		tbls = append(tbls, query.NewTableWith(tblName))
+		tbls = append(tbls, query.NewTableWith(newTableNameWith(schema, tbl)))
+		schema = nil // the qualifier belongs to the first table
 	}
 	return query.NewDropTableWith(tbls, ifExists)
 }
@@ -216,8 +226,8 @@ func newAlterTableWith(ctx antlr.IAlter_table_stmtContext) query.AlterTable {
 		opts = append(opts, query.WithAlterTableRenameTo(query.NewTableWith(tblName)))
 	}
 	if ctx := ctx.Rename_table_colum(); ctx != nil {
-		fromColumn := query.NewColumnWithName(ctx.GetOld_column_name().GetText())
-		toColumn := query.NewColumnWithName(ctx.GetNew_column_name().GetText())
+		fromColumn := query.NewColumnWithName(strings.UnEscapeNameString(ctx.GetOld_column_name().GetText()))
+		toColumn := query.NewColumnWithName(strings.UnEscapeNameString(ctx.GetNew_column_name().GetText()))
 		opts = append(opts, query.WithAlterTableRenameColumn(fromColumn, toColumn))
 	}
 	if ctx := ctx.Add_table_column(); ctx != nil {
@@ -234,7 +244,7 @@ func newAlterTableWith(ctx antlr.IAlter_table_stmtContext) query.AlterTable {
 		column := query.NewColumnWithOptions(query.WithColumnName(strings.UnEscapeNameString(ctx.Column_name().GetText())))
 		opts = append(opts, query.WithAlterTableDropColumn(column))
 	}
-	tblName := ctx.GetTarget_table_name().GetText()
+	tblName := strings.UnEscapeNameString(ctx.GetTarget_table_name().GetText())
 	return query.NewAlterTableWith(tblName, opts...)
 }
 
@@ -308,7 +318,7 @@ func newTableSchemaWith(ctx antlr.ICreate_table_stmtContext) query.Schema {
 		return "", nil, false
 	}
 
-	tblName := strings.UnEscapeNameString(ctx.Table_name().GetText())
+	tblName := newTableNameWith(ctx.Schema_name(), ctx.Table_name())
 	columns := query.NewColumns()
 	indexes := query.NewIndexes()
 
@@ -445,11 +455,10 @@ func newIndexedColumnWith(ctx antlr.IIndexed_columnContext) query.Column {
 }
 
 func newInsertWith(ctx antlr.IInsert_stmtContext) query.Insert {
-	tblName := strings.UnEscapeNameString(ctx.Table_name().GetText())
-	tbl := query.NewTableWith(tblName)
+	tbl := query.NewTableWith(newTableNameWith(ctx.Schema_name(), ctx.Table_name()))
 	names := []string{}
 	for _, name := range ctx.AllColumn_name() {
-		names = append(names, name.GetText())
+		names = append(names, strings.UnEscapeNameString(name.GetText()))
 	}
 	valuesClause := ctx.Values_clause()
 	if valuesClause == nil {
@@ -462,7 +471,7 @@ func newInsertWith(ctx antlr.IInsert_stmtContext) query.Insert {
 		for _, expr := range row.AllExpr() {
 			if v := expr.Comparison_expr(); v != nil {
 				columns = append(columns,
-					query.NewColumnWithOptions(query.WithColumnName(v.Column_name().GetText()),
+					query.NewColumnWithOptions(query.WithColumnName(strings.UnEscapeNameString(v.Column_name().GetText())),
 						query.WithColumnLiteral(newLiteralValueWith(v.Literal_value()))))
 			} else if v := expr.Literal_value(); v != nil && valueIdx < len(names) {
 				columns = append(columns,
@@ -487,13 +496,13 @@ func newInsertWith(ctx antlr.IInsert_stmtContext) query.Insert {
 }
 
 func newUpdateWith(ctx antlr.IUpdate_stmtContext) query.Update {
-	tbl := query.NewTableWith(ctx.GetTable().GetText())
+	tbl := query.NewTableWith(newTableNameWith(ctx.GetTable().Schema_name(), ctx.GetTable().Table_name()))
 	columns := query.NewColumns()
 	for _, set := range ctx.AllUpdate_column_set() {
 		if set.Column_name() == nil {
 			return nil
 		}
-		name := set.Column_name().GetText()
+		name := strings.UnEscapeNameString(set.Column_name().GetText())
 		opts := []query.ColumnOption{
 			query.WithColumnName(name),
 		}
@@ -504,7 +513,7 @@ func newUpdateWith(ctx antlr.IUpdate_stmtContext) query.Update {
 		} else if v := set.Expr().Arithmetic_expr(); v != nil {
 			ope := v.GetOpe().GetText()
 			args := []string{
-				v.Column_name().GetText(),
+				strings.UnEscapeNameString(v.Column_name().GetText()),
 				v.Expr().GetText(),
 			}
 			executor, err := fn.NewArithOperatorFor(ope, fn.WithExecutorArguments(args))
@@ -546,9 +555,9 @@ func newSelectWith(ctx antlr.ISelect_stmtContext) query.Select {
 			if tbl := from.From_table(); tbl != nil {
 				ops := []query.TableOption{}
 				if schema := tbl.Schema_name(); schema != nil {
-					ops = append(ops, query.WithTableSchema(schema.GetText()))
+					ops = append(ops, query.WithTableSchema(strings.UnEscapeNameString(schema.GetText())))
 				}
-				tbls = append(tbls, query.NewTableWith(tbl.GetText(), ops...))
+				tbls = append(tbls, query.NewTableWith(newTableNameWith(tbl.Schema_name(), tbl.Table_name()), ops...))
 			}
 		}
 		if w := parentQuery.GetWhereExpr(); w != nil {
@@ -629,7 +638,7 @@ func newSelectorFrom(ctx antlr.IResult_columnContext) (query.Selector, error) {
 }
 
 func newDeleteWith(ctx antlr.IDelete_stmtContext) query.Delete {
-	tbl := query.NewTableWith(ctx.GetTable().GetText())
+	tbl := query.NewTableWith(newTableNameWith(ctx.GetTable().Schema_name(), ctx.GetTable().Table_name()))
 	where := query.NewCondition()
 	if w := ctx.GetWhereExpr(); w != nil {
 		expr := newExprWith(w)
@@ -664,7 +673,7 @@ func newCopyWith(ctx antlr.ICopy_stmtContext) query.Copy {
 func newTruncateWith(ctx antlr.ITruncate_stmtContext) query.Truncate {
 	tbls := query.NewTables()
 	for _, table := range ctx.AllTable_name() {
-		tbls = append(tbls, query.NewTableWith(table.GetText()))
+		tbls = append(tbls, query.NewTableWith(strings.UnEscapeNameString(table.GetText())))
 	}
 	return query.NewTruncateWith(tbls)
 }
@@ -708,7 +717,7 @@ func newBindParamWith(ctx antlr.IBind_paramContext) *query.Literal {
 
 func newExprWith(ctx antlr.IExprContext) query.Expr {
 	newCmpExpr := func(cmpExpr antlr.IComparison_exprContext) query.Expr {
-		c := query.NewColumnWithName(cmpExpr.Column_name().GetText())
+		c := query.NewColumnWithName(strings.UnEscapeNameString(cmpExpr.Column_name().GetText()))
 		l := newLiteralValueWith(cmpExpr.Literal_value())
 		if cmpExpr.ASSIGN() != nil {
 			return query.NewCmpExprWith(query.EQ, c, l)
-- 
2.43.0


From edafd575f1ccdf23c5102df94288f113533ce6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:20 +0000
Subject: [PATCH 08/52] fix: do not glue a column alias to the name of a
 selected column

---
 sql/parser/sqlite/parser_antlr_visitor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index a3236ce..6b48520 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -634,6 +634,9 @@ func newSelectorFrom(ctx antlr.IResult_columnContext) (query.Selector, error) {
 			), nil
 		}
 	}
+	if expr != nil {
+		return query.NewColumnWithOptions(query.WithColumnName(expr.GetText())), nil
+	}
 	return query.NewColumnWithOptions(query.WithColumnName(ctx.GetText())), nil
 }
 
-- 
2.43.0


From 52eb97bb5e088e485562fc6ccbb78877a36423d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:49 +0000
Subject: [PATCH 09/52] fix: sort ascending by default instead of dropping
 ORDER BY terms without a direction

---
 sql/parser/sqlite/parser_antlr_visitor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 6b48520..0cb7559 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -579,7 +579,7 @@ func newSelectWith(ctx antlr.ISelect_stmtContext) query.Select {
 			orders := []query.Order{}
 			for _, order := range orderBy {
 				orderColumn := order.Expr().GetText()
-				orderType := query.OrderNone
+				orderType := query.OrderAsc
 				if orderSpec := order.Asc_desc(); orderSpec != nil {
 					orderType = query.NewOrderTypeWith(orderSpec.GetText())
 				}
-- 
2.43.0


From dd8d69f8518627e93ca7feb6a7cfdb8f5639092d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:49 +0000
Subject: [PATCH 10/52] fix: read the comma form of LIMIT as offset, limit

---
 sql/parser/sqlite/parser_antlr_visitor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 0cb7559..34c741e 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -596,6 +596,10 @@ func newSelectWith(ctx antlr.ISelect_stmtContext) query.Select {
 
 	if ctx := ctx.Limit_stmt(); ctx != nil {
 		limits := ctx.AllExpr()
+		if ctx.COMMA() != nil && len(limits) == 2 {
+			// LIMIT offset, limit
+			limits[0], limits[1] = limits[1], limits[0]
+		}
 		if 0 < len(limits) {
 			var limit uint
 			err := safecast.ToUint(limits[0].GetText(), &limit)
-- 
2.43.0


From 0dc6d9acbfdd4387ec46cd313d647ec2680c36ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:49 +0000
Subject: [PATCH 11/52] fix: print GROUP BY before ORDER BY and LIMIT

---
 sql/query/select.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sql/query/select.go b/sql/query/select.go
index 04e2f67..4708e57 100644
--- a/sql/query/select.go
+++ b/sql/query/select.go
@@ -137,6 +137,10 @@ func (stmt *selectStmt) String() string {
 	if stmt.HasConditions() {
 		strs = append(strs, "WHERE", stmt.Condition.String())
 	}
+	groupBy := stmt.groupBy.String()
+	if 0 < len(groupBy) {
+		strs = append(strs, groupBy)
+	}
 	orderBy := stmt.orderBy.String()
 	if 0 < len(orderBy) {
 		strs = append(strs, orderBy)
@@ -145,9 +149,5 @@ func (stmt *selectStmt) String() string {
 	if 0 < len(limit) {
 		strs = append(strs, limit)
 	}
-	groupBy := stmt.groupBy.String()
-	if 0 < len(groupBy) {
-		strs = append(strs, groupBy)
-	}
 	return strings.JoinWithSpace(strs)
 }
-- 
2.43.0


From bde2e55e2e90c446cf896aefb667ede3c1c6c5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:11 +0000
Subject: [PATCH 12/52] fix: keep quotes inside string literals when unescaping
 and escaping them

---
 sql/util/strings/strings.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sql/util/strings/strings.go b/sql/util/strings/strings.go
index ed6efe7..bcf9bbc 100644
--- a/sql/util/strings/strings.go
+++ b/sql/util/strings/strings.go
@@ -31,12 +31,19 @@ func JoinWithComma(elems []string) string {
 
 // UnEscapeString returns an unescaped string.
 func UnEscapeString(s string) string {
-	return strings.Trim(s, "'\"")
+	if len(s) < 2 {
+		return s
+	}
+	quote := s[:1]
+	if (quote != "'" && quote != "\"") || !strings.HasSuffix(s, quote) {
+		return s
+	}
+	return strings.ReplaceAll(s[1:len(s)-1], quote+quote, quote)
 }
 
 // EscapeString returns an escaped string.
 func EscapeString(s string) string {
-	return fmt.Sprintf("'%v'", s)
+	return "'" + strings.ReplaceAll(s, "'", "''") + "'"
 }
 
 // Equal returns true whether the specified strings are equal.
-- 
2.43.0


From 3daf818dfb498cf3561f42fa5d0a45be346004a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:39 +0000
Subject: [PATCH 13/52] fix: bind each parameter to its own placeholder and
 quote string parameters

---
 sql/stmt/bind_impl.go       | 82 ++++++++++++++++++++++++++++++-------
 sql/stmt/bind_param_impl.go | 14 +++++--
 2 files changed, 78 insertions(+), 18 deletions(-)

diff --git a/sql/stmt/bind_impl.go b/sql/stmt/bind_impl.go
index 553f72c..b6214ca 100644
--- a/sql/stmt/bind_impl.go
+++ b/sql/stmt/bind_impl.go
@@ -16,14 +16,15 @@ package stmt
 
 import (
 	"fmt"
+	"strconv"
 	"strings"
 
 	"github.com/cybergarage/go-sqlparser/sql"
 )
 
 const (
-	stdPlaceholder      = "?"
-	pgPlaceholderFormat = "$%d"
+	stdPlaceholder = "?"
+	pgPlaceholder  = "$"
 )
 
 type bindStmt struct {
@@ -60,24 +61,75 @@ func NewBindStatement(opts ...BindStatementOption) BindStatement {
 	return stmt
 }
 
-// Statement returns the statement with the bound parameters.
-func (stmt *bindStmt) Statements() ([]Statement, error) {
+// bindQuery returns the query whose placeholders are replaced with the bound parameters.
+// Quoted strings, quoted names and comments are copied as they are.
+func (stmt *bindStmt) bindQuery() (string, error) {
 	q := stmt.query
-	for n, param := range stmt.params {
-		s, err := param.String()
+	bound := strings.Builder{}
+	used := make([]bool, len(stmt.params))
+	nextParam := 0
+	bind := func(n int) error {
+		s, err := stmt.params[n].String()
 		if err != nil {
-			return nil, err
+			return err
 		}
-		if 0 < strings.Index(q, stdPlaceholder) {
-			q = strings.Replace(q, stdPlaceholder, s, 1)
-			continue
+		used[n] = true
+		if strings.HasPrefix(s, "-") && strings.HasSuffix(bound.String(), "-") {
+			bound.WriteString(" ") // do not start a comment
+		}
+		bound.WriteString(s)
+		return nil
+	}
+	skipTo := func(from int, end string) int {
+		if n := strings.Index(q[from:], end); 0 <= n {
+			return from + n + len(end)
 		}
-		placeHolder := fmt.Sprintf(pgPlaceholderFormat, n+1)
-		if 0 < strings.Index(q, placeHolder) {
-			q = strings.Replace(q, placeHolder, s, 1)
-			continue
+		return len(q)
+	}
+	for i := 0; i < len(q); {
+		end := i + 1
+		switch {
+		case q[i] == '\'' || q[i] == '"' || q[i] == '`':
+			end = skipTo(i+1, q[i:i+1])
+		case q[i] == '[':
+			end = skipTo(i+1, "]")
+		case strings.HasPrefix(q[i:], "--"):
+			end = skipTo(i, "\n")
+		case strings.HasPrefix(q[i:], "/*"):
+			end = skipTo(i+2, "*/")
+		case strings.HasPrefix(q[i:], stdPlaceholder) || strings.HasPrefix(q[i:], pgPlaceholder):
+			for end < len(q) && '0' <= q[end] && q[end] <= '9' {
+				end++
+			}
+			n, err := strconv.Atoi(q[i+1 : end])
+			if q[i:end] == stdPlaceholder {
+				nextParam++
+				n, err = nextParam, nil
+			}
+			if err == nil && 0 < n && n <= len(stmt.params) {
+				if err := bind(n - 1); err != nil {
+					return "", err
+				}
+				i = end
+				continue
+			}
+		}
+		bound.WriteString(q[i:end])
+		i = end
+	}
+	for n := range used {
+		if !used[n] {
+			return "", fmt.Errorf("placeholder (%s/%s%d) %w", stdPlaceholder, pgPlaceholder, n+1, ErrNotFound)
 		}
-		return nil, fmt.Errorf("placeholder (%s/%s) %w: %s", stdPlaceholder, placeHolder, ErrNotFound, s)
+	}
+	return bound.String(), nil
+}
+
+// Statement returns the statement with the bound parameters.
+func (stmt *bindStmt) Statements() ([]Statement, error) {
+	q, err := stmt.bindQuery()
+	if err != nil {
+		return nil, err
 	}
 	stmts, err := sql.NewParser().ParseString(q)
 	if err != nil {
diff --git a/sql/stmt/bind_param_impl.go b/sql/stmt/bind_param_impl.go
index de618c4..3d216ad 100644
--- a/sql/stmt/bind_param_impl.go
+++ b/sql/stmt/bind_param_impl.go
@@ -19,6 +19,7 @@ import (
 	"time"
 
 	"github.com/cybergarage/go-safecast/safecast"
+	"github.com/cybergarage/go-sqlparser/sql/util/strings"
 )
 
 type bindParam struct {
@@ -33,8 +34,8 @@ func NewBindParam(v any) BindParam {
 // String returns the string representation of the bind parameter.
 func (p *bindParam) String() (string, error) {
 	switch v := p.v.(type) {
-	case string:
-		return "'" + v + "'", nil
+	case nil:
+		return "NULL", nil
 	case time.Time:
 		if v.Nanosecond() == 0 {
 			return "'" + v.Format("2006-01-02 15:04:05") + "'", nil
@@ -47,5 +48,12 @@ func (p *bindParam) String() (string, error) {
 	}
 
 	var to string
-	return to, safecast.ToString(p.v, &to)
+	if err := safecast.ToString(p.v, &to); err != nil {
+		return "", err
+	}
+	switch p.v.(type) {
+	case bool, int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
+		return to, nil
+	}
+	return strings.EscapeString(to), nil
 }
-- 
2.43.0


From 9ae1bc1108b6c900b9a8298890aa24bcc0be6e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:11 +0000
Subject: [PATCH 14/52] fix: keep groups apart whose key values contain the
 delimiter or are null

---
 sql/fn/groupby.go | 41 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/sql/fn/groupby.go b/sql/fn/groupby.go
index 9f9fe7f..1ee52a1 100644
--- a/sql/fn/groupby.go
+++ b/sql/fn/groupby.go
@@ -23,8 +23,17 @@ import (
 
 const (
 	groupByDelimiter = ","
+	groupByEscape    = "\\"
+	// groupByNull is the key of a null group value, which no escaped value can be equal to.
+	groupByNull = groupByEscape + "N"
 )
 
+// escapeGroupBy escapes the delimiters in the specified string so that different lists never share a set.
+func escapeGroupBy(s string) string {
+	s = strings.ReplaceAll(s, groupByEscape, groupByEscape+groupByEscape)
+	return strings.ReplaceAll(s, groupByDelimiter, groupByEscape+groupByDelimiter)
+}
+
 // GroupBy represents a group by clause in a SQL query.
 type GroupBy = string
 
@@ -41,7 +50,11 @@ func NewGroupBySet(groupBys ...GroupBy) GroupBySet {
 	if len(groupBys) == 0 {
 		return ""
 	}
-	return GroupBySet(strings.Join(groupBys, groupByDelimiter))
+	escapedGroupBys := make([]string, len(groupBys))
+	for n, groupBy := range groupBys {
+		escapedGroupBys[n] = escapeGroupBy(groupBy)
+	}
+	return GroupBySet(strings.Join(escapedGroupBys, groupByDelimiter))
 }
 
 // NewGroupBySetKey creates a GroupBySet from a slice of GroupBy and a slice of group keys.
@@ -49,16 +62,20 @@ func NewGroupBySetKey(groupBys []GroupBy, groupKeys []any) (GroupBySet, error) {
 	if len(groupBys) != len(groupKeys) {
 		return "", fmt.Errorf("groupBys and groupKeys must have the same length: %d != %d", len(groupBys), len(groupKeys))
 	}
-	groupBySet := []GroupBy{}
+	groupBySet := []string{}
 	for _, groupKey := range groupKeys {
+		if groupKey == nil {
+			groupBySet = append(groupBySet, groupByNull)
+			continue
+		}
 		var groupKeyStr string
 		err := safecast.ToString(groupKey, &groupKeyStr)
 		if err != nil {
 			return "", err
 		}
-		groupBySet = append(groupBySet, NewGroupBy(groupKeyStr))
+		groupBySet = append(groupBySet, escapeGroupBy(groupKeyStr))
 	}
-	return NewGroupBySet(groupBySet...), nil
+	return GroupBySet(strings.Join(groupBySet, groupByDelimiter)), nil
 }
 
 // NewGroupBysFromGroupBySet converts a GroupBySet to a slice of GroupBy instances.
@@ -66,5 +83,19 @@ func NewGroupBysFromGroupBySet(groupBySet GroupBySet) []GroupBy {
 	if len(groupBySet) == 0 {
 		return []GroupBy{}
 	}
-	return strings.Split(string(groupBySet), groupByDelimiter)
+	groupBys := []GroupBy{}
+	groupBy := ""
+	for n := 0; n < len(groupBySet); n++ {
+		switch c := groupBySet[n : n+1]; {
+		case c == groupByEscape && (n+1) < len(groupBySet):
+			n++
+			groupBy += groupBySet[n : n+1]
+		case c == groupByDelimiter:
+			groupBys = append(groupBys, groupBy)
+			groupBy = ""
+		default:
+			groupBy += c
+		}
+	}
+	return append(groupBys, groupBy)
 }
-- 
2.43.0


From 26c654246da50737c37f18777d2d45569c636d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:27 +0000
Subject: [PATCH 15/52] fix: aggregate maps by group and keep the columns and
 rows of an aggregator set aligned

---
 sql/fn/aggr_impl.go | 23 +++++++++++++++++------
 sql/fn/aggr_set.go  | 15 ++++++++++-----
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/sql/fn/aggr_impl.go b/sql/fn/aggr_impl.go
index b3d71c6..2fe4bd3 100644
--- a/sql/fn/aggr_impl.go
+++ b/sql/fn/aggr_impl.go
@@ -16,6 +16,7 @@ package fn
 
 import (
 	"fmt"
+	"slices"
 	"sort"
 
 	"github.com/cybergarage/go-safecast/safecast"
@@ -38,6 +39,7 @@ type aggrImpl struct {
 	counts      int
 	groupBys    []GroupBy
 	groupBySet  GroupBySet
+	groupOrder  []GroupBySet
 	groupKeys   map[GroupBySet][]any
 	groupAggrs  map[GroupBySet][]float64
 	groupCounts map[GroupBySet]int
@@ -59,6 +61,7 @@ func newAggr() *aggrImpl {
 		groupBySet:  GroupBySet(""),
 		aggrs:       make([]float64, 0),
 		counts:      0,
+		groupOrder:  make([]GroupBySet, 0),
 		groupKeys:   make(map[GroupBySet][]any),
 		groupAggrs:  make(map[GroupBySet][]float64),
 		groupCounts: make(map[GroupBySet]int),
@@ -203,6 +206,8 @@ func (aggr *aggrImpl) Reset(opts ...any) error {
 
 	aggr.counts = 0
 
+	aggr.groupOrder = make([]GroupBySet, 0)
+	aggr.groupKeys = make(map[GroupBySet][]any)
 	aggr.groupAggrs = make(map[GroupBySet][]float64)
 	aggr.groupCounts = make(map[GroupBySet]int)
 
@@ -238,7 +243,8 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 			return err
 		}
 		if _, ok := aggr.groupAggrs[groupSetKey]; !ok {
-			aggr.groupKeys[groupSetKey] = groupKeys
+			aggr.groupOrder = append(aggr.groupOrder, groupSetKey)
+			aggr.groupKeys[groupSetKey] = slices.Clone(groupKeys)
 			aggr.groupCounts[groupSetKey] = 0
 			aggr.groupAggrs[groupSetKey] = make([]float64, (len(aggr.columns) - groupKeysCnt))
 			for n := range aggr.groupAggrs[groupSetKey] {
@@ -282,6 +288,14 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 // AggregateMap aggregates a map of data using the aggregator.
 func (aggr *aggrImpl) AggregateMap(m map[string]any) error {
 	row := make([]any, 0, len(aggr.columns))
+	groupBys, _ := aggr.GroupBys()
+	for _, groupBy := range groupBys {
+		v, ok := m[groupBy]
+		if !ok {
+			return fmt.Errorf("column (%s) %w in map", groupBy, ErrNotFound)
+		}
+		row = append(row, v)
+	}
 	for _, arg := range aggr.args {
 		var v any
 		var ok bool
@@ -330,10 +344,7 @@ func (aggr *aggrImpl) Finalize(opts ...any) (ResultSet, error) {
 	rows := make([]Row, 0)
 	_, isGrouping := aggr.GroupBys()
 	if isGrouping {
-		groupSetKeys := make([]GroupBySet, 0, len(aggr.groupAggrs))
-		for groupSetKey := range aggr.groupAggrs {
-			groupSetKeys = append(groupSetKeys, groupSetKey)
-		}
+		groupSetKeys := slices.Clone(aggr.groupOrder)
 
 		orderByAscFunc := func(i, j int) bool {
 			groupSetKeyiSlice := aggr.groupKeys[groupSetKeys[i]]
@@ -361,7 +372,7 @@ func (aggr *aggrImpl) Finalize(opts ...any) (ResultSet, error) {
 		}
 
 		orderByDescFunc := func(i, j int) bool {
-			return !orderByAscFunc(i, j)
+			return orderByAscFunc(j, i)
 		}
 
 		switch orderBy {
diff --git a/sql/fn/aggr_set.go b/sql/fn/aggr_set.go
index 4608a1e..19dd373 100644
--- a/sql/fn/aggr_set.go
+++ b/sql/fn/aggr_set.go
@@ -73,14 +73,21 @@ func (aggrSet *AggregatorSet) Finalize() (ResultSet, error) {
 		reseltSets = append(reseltSets, result)
 	}
 
+	// The grouping columns are the leading columns of each result set
+	groupColumns := make([]int, len(reseltSets))
+	for n, aggr := range *aggrSet {
+		groupBys, _ := aggr.GroupBys()
+		groupColumns[n] = len(groupBys)
+	}
+
 	columns := []string{}
 	for n, resultSet := range reseltSets {
 		switch n {
 		case 0:
 			columns = append(columns, resultSet.Columns()...)
 		default:
-			// Skip the first column as it is already included
-			columns = append(columns, resultSet.Columns()[1:]...)
+			// Skip the grouping columns as they are already included
+			columns = append(columns, resultSet.Columns()[groupColumns[n]:]...)
 		}
 	}
 
@@ -103,10 +110,8 @@ func (aggrSet *AggregatorSet) Finalize() (ResultSet, error) {
 				switch len(row) {
 				case 0:
 					return nil, fmt.Errorf("row %d is empty in result set %d", rowNo, resultSetNo)
-				case 1:
-					rows[rowNo] = append(rows[rowNo], row[0])
 				default:
-					rows[rowNo] = append(rows[rowNo], row[1:]...) // Skip the first grouping column
+					rows[rowNo] = append(rows[rowNo], row[groupColumns[resultSetNo]:]...) // Skip the grouping columns
 				}
 			}
 			rowNo++
-- 
2.43.0


From 6f497d46d00f430d452c5eca001e21fe05c3b66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:29 +0000
Subject: [PATCH 16/52] fix: count values that are not numbers

---
 sql/fn/aggr_impl.go | 15 +++++++++++++++
 sql/fn/count.go     |  1 +
 2 files changed, 16 insertions(+)

diff --git a/sql/fn/aggr_impl.go b/sql/fn/aggr_impl.go
index 2fe4bd3..f1ba7be 100644
--- a/sql/fn/aggr_impl.go
+++ b/sql/fn/aggr_impl.go
@@ -46,6 +46,8 @@ type aggrImpl struct {
 	resetFunc   AggrResetFunc
 	aggFunc     AggrAggregateFunc
 	finalFunc   AggrFinalizeFunc
+	// ignoreValues is true when the aggregator only counts the values, which need not be numbers.
+	ignoreValues bool
 }
 
 // aggrOption is a function that configures the Aggr aggregator.
@@ -68,6 +70,8 @@ func newAggr() *aggrImpl {
 		resetFunc:   nil,
 		aggFunc:     nil,
 		finalFunc:   nil,
+
+		ignoreValues: false,
 	}
 	return aggr
 }
@@ -115,6 +119,14 @@ func withAggrFinalizeFunc(finalFunc AggrFinalizeFunc) aggrOption {
 	}
 }
 
+// withAggrIgnoreValues makes the Aggr aggregator accept any values without using them.
+func withAggrIgnoreValues() aggrOption {
+	return func(aggr *aggrImpl) error {
+		aggr.ignoreValues = true
+		return nil
+	}
+}
+
 // withAggrGroupBys sets the group by column for the Aggr aggregator.
 func withAggrGroupBys(groups ...GroupBy) aggrOption {
 	return func(aggr *aggrImpl) error {
@@ -222,6 +234,9 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 	}
 
 	toFloat64 := func(v any) (float64, error) {
+		if aggr.ignoreValues {
+			return 0, nil
+		}
 		switch v := v.(type) {
 		case nil:
 			return 0, nil
diff --git a/sql/fn/count.go b/sql/fn/count.go
index 928a334..25edc78 100644
--- a/sql/fn/count.go
+++ b/sql/fn/count.go
@@ -40,6 +40,7 @@ func NewCount(opts ...CountOption) (*Count, error) {
 
 	opts = append(opts,
 		withAggrName("COUNT"),
+		withAggrIgnoreValues(),
 		withAggrResetFunc(
 			func(aggr *aggrImpl) (float64, error) {
 				return 0, nil
-- 
2.43.0


From eb1cd8f0aced464def8d83da105127b7e9d8be8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:29 +0000
Subject: [PATCH 17/52] fix: start MIN at positive infinity so that it never
 exceeds every input

---
 sql/fn/min.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/fn/min.go b/sql/fn/min.go
index 922ef9d..2b48937 100644
--- a/sql/fn/min.go
+++ b/sql/fn/min.go
@@ -46,7 +46,7 @@ func NewMin(opts ...MinOption) (*Min, error) {
 		withAggrName("MIN"),
 		withAggrResetFunc(
 			func(aggr *aggrImpl) (float64, error) {
-				return math.MaxFloat64, nil
+				return math.Inf(1), nil
 			},
 		),
 		withAggrAggreateFunc(
-- 
2.43.0


From 812a132eafbaf00c4c4e7679831412ab7cc00e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:30 +0000
Subject: [PATCH 18/52] fix: report a zero divisor of the modulo operator
 instead of panicking

---
 sql/fn/arith_func.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sql/fn/arith_func.go b/sql/fn/arith_func.go
index dcdc182..f229768 100644
--- a/sql/fn/arith_func.go
+++ b/sql/fn/arith_func.go
@@ -85,6 +85,9 @@ func NewModOperator(opts ...ExecutorOption) Executor {
 	return NewArithFunctionWith(
 		ModOperatorID,
 		func(v1, v2 float64) (float64, error) {
+			if int(v2) == 0 {
+				return 0, newErrInvalidArguments(ModOperatorID, v1, v2)
+			}
 			return (float64(int(v1) % int(v2))), nil
 		},
 		opts...,
-- 
2.43.0


From ecb392a6f529ec55ab0bb07854850e0e662bc23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:31 +0000
Subject: [PATCH 19/52] fix: SQRT(0) is 0, not a negative value error

---
 sql/fn/math_func.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/fn/math_func.go b/sql/fn/math_func.go
index c1d3cd5..832fb9b 100644
--- a/sql/fn/math_func.go
+++ b/sql/fn/math_func.go
@@ -86,7 +86,7 @@ func NewSqrt(opts ...ExecutorOption) Executor {
 				return nil, newErrInvalidArguments(SqrtFunctionName, args)
 			}
 			v := args[0]
-			if v <= 0 {
+			if v < 0 {
 				return nil, newErrNegativeValue(args)
 			}
 			return math.Sqrt(v), nil
-- 
2.43.0


From ff640289ae7649cf1eceeeb2cbb6e2bbdc77d950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:32 +0000
Subject: [PATCH 20/52] fix: RAND never returns 1.0

---
 sql/fn/math_func.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/fn/math_func.go b/sql/fn/math_func.go
index 832fb9b..3728631 100644
--- a/sql/fn/math_func.go
+++ b/sql/fn/math_func.go
@@ -241,7 +241,7 @@ func NewRand(opts ...ExecutorOption) Executor {
 			}
 			// Convert bytes to uint64 and then to float64 in [0.0, 1.0)
 			n := binary.BigEndian.Uint64(b[:])
-			return float64(n&0x7FFFFFFFFFFFFFFF) / float64(0x7FFFFFFFFFFFFFFF), nil
+			return float64(n>>11) / float64(1<<53), nil
 		},
 		opts...,
 	)
-- 
2.43.0


From 8f72491fbc7ac7fba468a88a9d2bf44ad9cd45e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:18 +0000
Subject: [PATCH 21/52] fix: resolve functions by their whole name so that
 LOG10 is not LOG

---
 sql/fn/aggr_func.go     | 10 +++++-----
 sql/fn/executor_func.go | 40 ++++++++++++++++++++--------------------
 sql/fn/names.go         |  7 ++++++-
 3 files changed, 31 insertions(+), 26 deletions(-)

diff --git a/sql/fn/aggr_func.go b/sql/fn/aggr_func.go
index a55bf99..818f74d 100644
--- a/sql/fn/aggr_func.go
+++ b/sql/fn/aggr_func.go
@@ -41,15 +41,15 @@ func WithAggregatorGroupBys(groups ...GroupBy) AggregatorOption {
 func NewAggregatorForName(name string, opts ...AggregatorOption) (Aggregator, error) {
 	upperName := strings.ToUpper(name)
 	switch {
-	case strings.HasPrefix(upperName, SumFunctionName):
+	case isFunctionName(upperName, SumFunctionName):
 		return NewSum(opts...)
-	case strings.HasPrefix(upperName, AvgFunctionName):
+	case isFunctionName(upperName, AvgFunctionName):
 		return NewAvg(opts...)
-	case strings.HasPrefix(upperName, MinFunctionName):
+	case isFunctionName(upperName, MinFunctionName):
 		return NewMin(opts...)
-	case strings.HasPrefix(upperName, MaxFunctionName):
+	case isFunctionName(upperName, MaxFunctionName):
 		return NewMax(opts...)
-	case strings.HasPrefix(upperName, CountFunctionName):
+	case isFunctionName(upperName, CountFunctionName):
 		return NewCount(opts...)
 	}
 	return nil, fmt.Errorf("%w aggregator: %s", ErrNotSupported, name)
diff --git a/sql/fn/executor_func.go b/sql/fn/executor_func.go
index ad95c77..7318c73 100644
--- a/sql/fn/executor_func.go
+++ b/sql/fn/executor_func.go
@@ -24,47 +24,47 @@ func NewExecutorForName(name string, opts ...ExecutorOption) (Executor, error) {
 	var ex Executor
 	switch {
 	// Math.
-	case strings.HasPrefix(upperName, AbsFunctionName):
+	case isFunctionName(upperName, AbsFunctionName):
 		ex = NewAbs(opts...)
-	case strings.HasPrefix(upperName, FloorFunctionName):
+	case isFunctionName(upperName, FloorFunctionName):
 		ex = NewFloor(opts...)
-	case strings.HasPrefix(upperName, CeilFunctionName):
+	case isFunctionName(upperName, CeilFunctionName), isFunctionName(upperName, "CEILING"):
 		ex = NewCeil(opts...)
-	case strings.HasPrefix(upperName, RoundFunctionName):
+	case isFunctionName(upperName, RoundFunctionName):
 		ex = NewRound(opts...)
-	case strings.HasPrefix(upperName, SqrtFunctionName):
+	case isFunctionName(upperName, SqrtFunctionName):
 		ex = NewSqrt(opts...)
-	case strings.HasPrefix(upperName, LogFunctionName):
+	case isFunctionName(upperName, LogFunctionName):
 		ex = NewLog(opts...)
-	case strings.HasPrefix(upperName, Log10FunctionName):
+	case isFunctionName(upperName, Log10FunctionName):
 		ex = NewLog10(opts...)
-	case strings.HasPrefix(upperName, ExpFunctionName):
+	case isFunctionName(upperName, ExpFunctionName):
 		ex = NewExp(opts...)
-	case strings.HasPrefix(upperName, PowerFunctionName):
+	case isFunctionName(upperName, PowerFunctionName):
 		ex = NewPower(opts...)
-	case strings.HasPrefix(upperName, ModFunctionName):
+	case isFunctionName(upperName, ModFunctionName):
 		ex = NewMod(opts...)
-	case strings.HasPrefix(upperName, SinFunctionName):
+	case isFunctionName(upperName, SinFunctionName):
 		ex = NewSin(opts...)
-	case strings.HasPrefix(upperName, CosFunctionName):
+	case isFunctionName(upperName, CosFunctionName):
 		ex = NewCos(opts...)
-	case strings.HasPrefix(upperName, TanFunctionName):
+	case isFunctionName(upperName, TanFunctionName):
 		ex = NewTan(opts...)
-	case strings.HasPrefix(upperName, RandFunctionName):
+	case isFunctionName(upperName, RandFunctionName):
 		ex = NewRand(opts...)
-	case strings.HasPrefix(upperName, PiFunctionName):
+	case isFunctionName(upperName, PiFunctionName):
 		ex = NewPI(opts...)
 	// String.
-	case strings.HasPrefix(upperName, UpperFunctionName):
+	case isFunctionName(upperName, UpperFunctionName):
 		ex = NewUpper(opts...)
-	case strings.HasPrefix(upperName, LowerFunctionName):
+	case isFunctionName(upperName, LowerFunctionName):
 		ex = NewLower(opts...)
-	case strings.HasPrefix(upperName, TrimFunctionName):
+	case isFunctionName(upperName, TrimFunctionName):
 		ex = NewTrim(opts...)
 	// Time.
-	case strings.HasPrefix(upperName, CurrentTimestampFunctionName):
+	case isFunctionName(upperName, CurrentTimestampFunctionName):
 		ex = NewCurrentTimestamp(opts...)
-	case strings.HasPrefix(upperName, NowFunctionName):
+	case isFunctionName(upperName, NowFunctionName):
 		ex = NewNow(opts...)
 	// Airthmetic.
 	case strings.EqualFold(upperName, AddOperatorID):
diff --git a/sql/fn/names.go b/sql/fn/names.go
index 83a8021..a0d18cf 100644
--- a/sql/fn/names.go
+++ b/sql/fn/names.go
@@ -117,10 +117,15 @@ func IsRegisteredFunction(name string) bool {
 					return true
 				}
 			}
-			if strings.HasPrefix(name, fn+"(") || strings.HasSuffix(name, ")") {
+			if strings.HasPrefix(name, fn+"(") || name == fn+")" {
 				return true
 			}
 		}
 	}
 	return false
 }
+
+// isFunctionName returns true if the upper-cased name is the function name, or a call of the function.
+func isFunctionName(upperName string, fn string) bool {
+	return upperName == fn || strings.HasPrefix(upperName, fn+"(")
+}
-- 
2.43.0


From fbbc8e7be8e00402d52b0bb5eaca0984ed16e7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:19 +0000
Subject: [PATCH 22/52] fix: look up function types in any case

---
 sql/fn/type.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sql/fn/type.go b/sql/fn/type.go
index 5286feb..c72e4e1 100644
--- a/sql/fn/type.go
+++ b/sql/fn/type.go
@@ -14,7 +14,10 @@
 
 package fn
 
-import "fmt"
+import (
+	"fmt"
+	"strings"
+)
 
 // FunctionType represents a function type.
 type FunctionType int
@@ -35,7 +38,7 @@ const (
 
 // NewFunctionTypeForName returns a FunctionType based on the function name.
 func NewFunctionTypeForName(name string) (FunctionType, error) {
-	switch name {
+	switch strings.ToUpper(name) {
 	case AbsFunctionName, FloorFunctionName, CeilFunctionName, RoundFunctionName, SqrtFunctionName, LogFunctionName, Log10FunctionName, ExpFunctionName, PowerFunctionName, ModFunctionName, SinFunctionName, CosFunctionName, TanFunctionName, RandFunctionName, PiFunctionName:
 		return MathFunction, nil
 	case SumFunctionName, AvgFunctionName, CountFunctionName, MaxFunctionName, MinFunctionName:
-- 
2.43.0


From 05c12750a376781a9fba6e29f9ebb8d8fcf877ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:20 +0000
Subject: [PATCH 23/52] fix: keep the aggregator of a function and compare
 function names in any case

---
 sql/fn/func_impl.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sql/fn/func_impl.go b/sql/fn/func_impl.go
index 4c13bf9..ececeaa 100644
--- a/sql/fn/func_impl.go
+++ b/sql/fn/func_impl.go
@@ -75,6 +75,7 @@ func WithFunctionExecutor(executor Executor) FunctionOption {
 // WithFunctionAggregator sets the function aggregator.
 func WithFunctionAggregator(aggregator Aggregator) FunctionOption {
 	return func(fn *function) {
+		fn.aggregator = aggregator
 		fn.name = aggregator.Name()
 		fn.typ = AggregateFunction
 	}
@@ -99,7 +100,7 @@ func (fn *function) Name() string {
 
 // IsName returns true whether the function name is the specified one.
 func (fn *function) IsName(name string) bool {
-	return fn.name == name
+	return strings.EqualFold(fn.name, name)
 }
 
 // Type returns the function type.
-- 
2.43.0


From 3231bc548575cdb8dd80ef9825133b0f45a91f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:53 +0000
Subject: [PATCH 24/52] fix: keep the cursor of a result set inside the offset
 and limit window

---
 .../response/resultset/resultset_impl.go      | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/sql/query/response/resultset/resultset_impl.go b/sql/query/response/resultset/resultset_impl.go
index 97502d3..f5b7a6d 100644
--- a/sql/query/response/resultset/resultset_impl.go
+++ b/sql/query/response/resultset/resultset_impl.go
@@ -121,18 +121,25 @@ func (rs *resultset) Next() bool {
 	if rs.rowCursor < rs.offset {
 		rs.rowCursor = rs.offset
 	}
-	rs.rowCursor++
-	if 0 < rs.limit {
-		if (rs.offset + rs.limit) < rs.rowCursor {
-			return false
-		}
+	end := rs.endOfRows()
+	if rs.rowCursor <= end {
+		rs.rowCursor++
+	}
+	return rs.rowCursor <= end
+}
+
+// endOfRows returns the position of the last row in the window of the offset and the limit.
+func (rs *resultset) endOfRows() uint {
+	end := uint(len(rs.rows))
+	if 0 < rs.limit && rs.offset < end && rs.limit < (end-rs.offset) {
+		end = rs.offset + rs.limit
 	}
-	return rs.rowCursor <= uint(len(rs.rows))
+	return end
 }
 
 // Row returns the current row.
 func (rs *resultset) Row() (Row, error) {
-	if (rs.rowCursor == 0) || (uint(len(rs.rows)) < rs.rowCursor) {
+	if (rs.rowCursor == 0) || (rs.endOfRows() < rs.rowCursor) {
 		return nil, errors.ErrNoRows
 	}
 	row := rs.rows[rs.rowCursor-1]
-- 
2.43.0


From 46b74b42555fd6ea7571de070c35cab062fca51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:53 +0000
Subject: [PATCH 25/52] fix: return the rows of a result set without a schema
 instead of panicking

---
 sql/query/response/resultset/resultset_impl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sql/query/response/resultset/resultset_impl.go b/sql/query/response/resultset/resultset_impl.go
index f5b7a6d..96346df 100644
--- a/sql/query/response/resultset/resultset_impl.go
+++ b/sql/query/response/resultset/resultset_impl.go
@@ -143,6 +143,9 @@ func (rs *resultset) Row() (Row, error) {
 		return nil, errors.ErrNoRows
 	}
 	row := rs.rows[rs.rowCursor-1]
+	if rs.schema == nil {
+		return row, nil
+	}
 	return NewRowFromObject(rs.schema, row.Object())
 }
 
-- 
2.43.0


From 5c6f88674a31827fed31071e05618f3f1172449f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:53 +0000
Subject: [PATCH 26/52] fix: report only function columns of a result set as
 functions

---
 sql/query/response/resultset/column_impl.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sql/query/response/resultset/column_impl.go b/sql/query/response/resultset/column_impl.go
index a455d90..f89bde4 100644
--- a/sql/query/response/resultset/column_impl.go
+++ b/sql/query/response/resultset/column_impl.go
@@ -22,7 +22,7 @@ import (
 )
 
 var funcColumnNameRegex = regexp.MustCompile(
-	`^([a-zA-Z_][a-zA-Z0-9_]*)(\((.*)\))?$`,
+	`^([a-zA-Z_][a-zA-Z0-9_]*)\((.*)\)$`,
 )
 
 type column struct {
@@ -99,10 +99,10 @@ func (col *column) IsAsterisk() bool {
 
 // IsFunction returns true if the column is a function.
 func (col *column) IsFunction() bool {
-	if funcColumnNameRegex.MatchString(col.name) {
+	if col.fn != nil {
 		return true
 	}
-	return true
+	return funcColumnNameRegex.MatchString(col.name)
 }
 
 // Function returns the function associated with the column.
-- 
2.43.0


From 662eb48e950986de654c787615a5c954bb02f23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:54 +0000
Subject: [PATCH 27/52] fix: wrap the sentinel errors so that errors.Is
 identifies them

---
 sql/errors/errors.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sql/errors/errors.go b/sql/errors/errors.go
index cf40601..5698002 100644
--- a/sql/errors/errors.go
+++ b/sql/errors/errors.go
@@ -50,15 +50,15 @@ func NewErrNotImplemented(s string) error {
 
 // NewErrNotExist returns an error for a not exist.
 func NewErrNotExist(name string) error {
-	return fmt.Errorf("%s is not exists", name)
+	return fmt.Errorf("%s is %w", name, ErrNotExist)
 }
 
 // NewErrExist returns an error for a exist.
 func NewErrExist(name string) error {
-	return fmt.Errorf("%s is not exists", name)
+	return fmt.Errorf("%s is %w", name, ErrExist)
 }
 
 // NewErrNotSupported returns an error for a not supported.
 func NewErrNotSupported(name string) error {
-	return fmt.Errorf("%s is not supported", name)
+	return fmt.Errorf("%s is %w", name, ErrNotSupported)
 }
-- 
2.43.0


From b57f4163a0db469323aaf89e380e7cfdaec67dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:55 +0000
Subject: [PATCH 28/52] fix: guard the closed flag and the span context of a
 connection against data races

---
 sql/net/conn_impl.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/sql/net/conn_impl.go b/sql/net/conn_impl.go
index 40118b6..50fea46 100644
--- a/sql/net/conn_impl.go
+++ b/sql/net/conn_impl.go
@@ -72,7 +72,7 @@ func WithConnDatabase(name string) func(*conn) {
 // WithConnSchemas sets schema names.
 func WithConnSchemas(schemas ...string) func(*conn) {
 	return func(conn *conn) {
-		conn.schemas = schemas
+		conn.schemas = slices.Clone(schemas)
 	}
 }
 
@@ -99,6 +99,8 @@ func WithConnUser(user string) func(*conn) {
 
 // Close closes the connection.
 func (conn *conn) Close() error {
+	conn.Lock()
+	defer conn.Unlock()
 	if conn.isClosed {
 		return nil
 	}
@@ -183,25 +185,29 @@ func (conn *conn) Context() context.Context {
 
 // SetSpanContext sets the tracer span context of the connection.
 func (conn *conn) SetSpanContext(ctx tracer.Context) {
+	conn.Lock()
+	defer conn.Unlock()
 	conn.tracerContext = ctx
 }
 
 // SpanContext returns the tracer span context of the connection.
 func (conn *conn) SpanContext() tracer.Context {
+	conn.Lock()
+	defer conn.Unlock()
 	return conn.tracerContext
 }
 
 // Span returns the current top tracer span on the tracer span stack.
 func (conn *conn) Span() tracer.Span {
-	return conn.tracerContext.Span()
+	return conn.SpanContext().Span()
 }
 
 // StartSpan starts a new child tracer span and pushes it onto the tracer span stack.
 func (conn *conn) StartSpan(name string) bool {
-	return conn.tracerContext.StartSpan(name)
+	return conn.SpanContext().StartSpan(name)
 }
 
 // FinishSpan ends the current top tracer span and pops it from the tracer span stack.
 func (conn *conn) FinishSpan() bool {
-	return conn.tracerContext.FinishSpan()
+	return conn.SpanContext().FinishSpan()
 }
-- 
2.43.0


From 2c1937edeb91000dffc65a3d161681442c721592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:41 +0000
Subject: [PATCH 29/52] fix: keep the connection manager indexed by the ids of
 its registered connections

---
 sql/net/conn_manager_impl.go | 47 ++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/sql/net/conn_manager_impl.go b/sql/net/conn_manager_impl.go
index 6485602..c0d53c0 100644
--- a/sql/net/conn_manager_impl.go
+++ b/sql/net/conn_manager_impl.go
@@ -64,16 +64,28 @@ func (cm *mgr) UpdateConn(from Conn, to Conn) error {
 	defer cm.mutex.Unlock()
 
 	uuid := from.UUID()
-	if _, ok := cm.m[uuid]; !ok {
+	registered, ok := cm.m[uuid]
+	if !ok {
 		return newErrConnNotExists(uuid.String())
 	}
 	uid := from.ID()
-	if _, ok := cm.uidMap[uid]; !ok {
+	if registered.ID() != uid {
 		return newErrConnNotExists(fmt.Sprintf("%d", uid))
 	}
 
-	cm.m[uuid] = to
-	cm.uidMap[uid] = to
+	toUUID := to.UUID()
+	if _, ok := cm.m[toUUID]; ok && toUUID != uuid {
+		return newErrConnExist(toUUID.String())
+	}
+	toUID := to.ID()
+	if _, ok := cm.uidMap[toUID]; ok && toUID != uid {
+		return newErrConnExist(fmt.Sprintf("%d", toUID))
+	}
+
+	delete(cm.m, uuid)
+	delete(cm.uidMap, uid)
+	cm.m[toUUID] = to
+	cm.uidMap[toUID] = to
 
 	return nil
 }
@@ -109,27 +121,36 @@ func (cm *mgr) LookupConnByUUID(uuid uuid.UUID) (Conn, bool) {
 func (cm *mgr) RemoveConn(conn Conn) error {
 	cm.mutex.Lock()
 	defer cm.mutex.Unlock()
-	delete(cm.uidMap, conn.ID())
-	delete(cm.m, conn.UUID())
+	cm.removeConn(conn.UUID())
 	return nil
 }
 
-// RemoveConnByUID deletes the specified connection by the connection ID.
-func (cm *mgr) RemoveConnByUID(cid uint64) {
-	conn, ok := cm.LookupConnByUID(cid)
+// removeConn deletes the registered connection with the specified UUID. The caller must hold the lock.
+func (cm *mgr) removeConn(uuid uuid.UUID) {
+	conn, ok := cm.m[uuid]
 	if !ok {
 		return
 	}
-	cm.RemoveConn(conn)
+	delete(cm.uidMap, conn.ID())
+	delete(cm.m, uuid)
 }
 
 // RemoveConnByUID deletes the specified connection by the connection ID.
-func (cm *mgr) RemoveConnByUUID(uuid uuid.UUID) {
-	conn, ok := cm.LookupConnByUUID(uuid)
+func (cm *mgr) RemoveConnByUID(cid uint64) {
+	cm.mutex.Lock()
+	defer cm.mutex.Unlock()
+	conn, ok := cm.uidMap[cid]
 	if !ok {
 		return
 	}
-	cm.RemoveConn(conn)
+	cm.removeConn(conn.UUID())
+}
+
+// RemoveConnByUID deletes the specified connection by the connection ID.
+func (cm *mgr) RemoveConnByUUID(uuid uuid.UUID) {
+	cm.mutex.Lock()
+	defer cm.mutex.Unlock()
+	cm.removeConn(uuid)
 }
 
 // Start starts the connection manager.
-- 
2.43.0


From 912b6c0bf9bc20d9376b8c69e7c20e696210e5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:20 +0000
Subject: [PATCH 30/52] fix: do not overwrite the columns and indexes a schema
 handed out when dropping one

---
 sql/query/schema.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sql/query/schema.go b/sql/query/schema.go
index 9530b78..3d45d7b 100644
--- a/sql/query/schema.go
+++ b/sql/query/schema.go
@@ -15,6 +15,7 @@
 package query
 
 import (
+	"slices"
 	"strings"
 
 	"github.com/cybergarage/go-sqlparser/sql/errors"
@@ -181,7 +182,7 @@ func (schema *schema) DropColumn(name string) error {
 		if !strings.EqualFold(column.Name(), name) {
 			continue
 		}
-		schema.columns = append(schema.columns[:n], schema.columns[n+1:]...)
+		schema.columns = slices.Concat(schema.columns[:n], schema.columns[n+1:])
 		return nil
 	}
 	return newErrColumnNotFound(name)
@@ -199,7 +200,7 @@ func (schema *schema) DropIndex(name string) error {
 		if !strings.EqualFold(index.Name(), name) {
 			continue
 		}
-		schema.indexes = append(schema.indexes[:n], schema.indexes[n+1:]...)
+		schema.indexes = slices.Concat(schema.indexes[:n], schema.indexes[n+1:])
 		return nil
 	}
 	return newErrIndexNotFound(name)
-- 
2.43.0


From 0f33bdfeb04802d758e6b735ebe0cb5ec438d9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:21 +0000
Subject: [PATCH 31/52] fix: do not panic on columns without a definition or a
 value

---
 sql/query/column.go  | 27 +++++++++++++++++++++++++++
 sql/query/literal.go |  6 ++++++
 2 files changed, 33 insertions(+)

diff --git a/sql/query/column.go b/sql/query/column.go
index 6a7018b..fa9d14d 100644
--- a/sql/query/column.go
+++ b/sql/query/column.go
@@ -176,10 +176,37 @@ func (col *column) IsName(name string) bool {
 
 // SetValue sets a value.
 func (col *column) SetValue(v any) error {
+	if col.Literal == nil {
+		col.Literal = NewLiteral()
+	}
 	col.Literal.SetValue(v)
 	return col.SetDefinition(col.ColumnDef)
 }
 
+// Constraint returns the column constrains.
+func (col *column) Constraint() Constraint {
+	if col.ColumnDef == nil {
+		return ConstraintNone
+	}
+	return col.ColumnDef.Constraint()
+}
+
+// DataType returns the column data type.
+func (col *column) DataType() DataType {
+	if col.ColumnDef == nil {
+		return UnknownData
+	}
+	return col.ColumnDef.DataType()
+}
+
+// DataTypeSize returns the column data type size.
+func (col *column) DataTypeSize() int {
+	if col.ColumnDef == nil {
+		return 0
+	}
+	return col.ColumnDef.DataTypeSize()
+}
+
 // SetDefinition sets the column definition to update the column value.
 func (col *column) SetDefinition(dataDef ColumnDef) error {
 	col.ColumnDef = dataDef
diff --git a/sql/query/literal.go b/sql/query/literal.go
index add7e82..e9f9628 100644
--- a/sql/query/literal.go
+++ b/sql/query/literal.go
@@ -99,6 +99,9 @@ func (lit *Literal) SetValue(v any) *Literal {
 
 // Value returns the literal value.
 func (lit *Literal) Value() any {
+	if lit == nil {
+		return nil
+	}
 	return lit.v
 }
 
@@ -110,6 +113,9 @@ func (lit *Literal) SetValueType(t LiteralType) *Literal {
 
 // ValueType returns the literal type.
 func (lit *Literal) ValueType() LiteralType {
+	if lit == nil {
+		return UnknownLiteral
+	}
 	return lit.t
 }
 
-- 
2.43.0


From 1f764afd82df47a7ca928b4311630f96a7829b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:21 +0000
Subject: [PATCH 32/52] fix: copy the value, function and arguments of a column

---
 sql/query/column.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sql/query/column.go b/sql/query/column.go
index fa9d14d..b98421c 100644
--- a/sql/query/column.go
+++ b/sql/query/column.go
@@ -264,11 +264,13 @@ func (col *column) SetDefinition(dataDef ColumnDef) error {
 
 // Copy returns a copy of the column.
 func (col *column) Copy() Column {
-	return NewColumnWithOptions(
-		WithColumnName(col.name),
-		WithColumnData(col.ColumnDef),
-		WithColumnLiteral(col.Literal),
-	)
+	cpCol := *col
+	if col.Literal != nil {
+		cpLiteral := *col.Literal
+		cpCol.Literal = &cpLiteral
+	}
+	cpCol.args = fn.NewArgumentsWith(col.args...)
+	return &cpCol
 }
 
 // String returns the string representation.
-- 
2.43.0


From a6c140587520a526c2d6d9432ceea192e35c9b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:22 +0000
Subject: [PATCH 33/52] fix: tell placeholders and asterisk columns from equal
 string literals

---
 sql/query/literal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/query/literal.go b/sql/query/literal.go
index e9f9628..ca08f3e 100644
--- a/sql/query/literal.go
+++ b/sql/query/literal.go
@@ -88,7 +88,7 @@ func (lit *Literal) IsAsterisk() bool {
 
 // IsPlaceHolder returns true whether the literal is a place holder.
 func (lit *Literal) IsPlaceHolder() bool {
-	return lit.Equal("?")
+	return lit.ValueType() != StringLiteral && lit.Equal("?")
 }
 
 // SetValue sets a value.
-- 
2.43.0


From 542f45d5f381579072e5248653e4dcc626236fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:23 +0000
Subject: [PATCH 34/52] fix: keep NULL when the values of a statement are
 coerced to a schema

---
 sql/query/column.go  |  4 ++++
 sql/query/literal.go | 12 ++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/sql/query/column.go b/sql/query/column.go
index b98421c..5f820c2 100644
--- a/sql/query/column.go
+++ b/sql/query/column.go
@@ -214,6 +214,10 @@ func (col *column) SetDefinition(dataDef ColumnDef) error {
 	if dataDef == nil || col.Literal == nil {
 		return nil
 	}
+	if col.Literal.IsNull() {
+		col.Literal.SetValue(nil)
+		return nil
+	}
 
 	switch dataDef.DataType() {
 	case TinyIntType:
diff --git a/sql/query/literal.go b/sql/query/literal.go
index ca08f3e..11e81c4 100644
--- a/sql/query/literal.go
+++ b/sql/query/literal.go
@@ -91,6 +91,15 @@ func (lit *Literal) IsPlaceHolder() bool {
 	return lit.ValueType() != StringLiteral && lit.Equal("?")
 }
 
+// IsNull returns true whether the literal is a null value or the NULL keyword.
+func (lit *Literal) IsNull() bool {
+	if lit == nil || lit.v == nil {
+		return true
+	}
+	s, ok := lit.v.(string)
+	return ok && lit.t != StringLiteral && strings.EqualFold(s, "NULL")
+}
+
 // SetValue sets a value.
 func (lit *Literal) SetValue(v any) *Literal {
 	lit.v = v
@@ -124,6 +133,9 @@ func (lit *Literal) ValueString() string {
 	if lit == nil {
 		return ""
 	}
+	if lit.v == nil {
+		return "NULL"
+	}
 	switch lit.t {
 	case StringLiteral:
 		return strings.EscapeString(fmt.Sprintf("%v", lit.v))
-- 
2.43.0


From 4fcbaaed72ff557ce653a93578d147a4a1d5a57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:59 +0000
Subject: [PATCH 35/52] fix: report the asterisk column as an asterisk

---
 sql/query/column.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sql/query/column.go b/sql/query/column.go
index 5f820c2..e54c72f 100644
--- a/sql/query/column.go
+++ b/sql/query/column.go
@@ -169,6 +169,11 @@ func (col *column) Arguments() Arguments {
 	return col.args
 }
 
+// IsAsterisk returns true if the column is an asterisk.
+func (col *column) IsAsterisk() bool {
+	return col.name == Asterisk
+}
+
 // IsName returns true whether the column name is the specified one.
 func (col *column) IsName(name string) bool {
 	return col.name == name
-- 
2.43.0


From 8e779e44e95bb3e8feeae67d4f3fe666cafb8b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:59 +0000
Subject: [PATCH 36/52] fix: print the dropped index of ALTER TABLE

---
 sql/query/alter_table.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sql/query/alter_table.go b/sql/query/alter_table.go
index f394e2a..72f0a72 100644
--- a/sql/query/alter_table.go
+++ b/sql/query/alter_table.go
@@ -228,5 +228,13 @@ func (stmt *alterTableStmt) String() string {
 				c.Name(),
 			}...)
 	}
+	if i, ok := stmt.DropIndex(); ok {
+		elems = append(elems,
+			[]string{
+				"DROP",
+				"INDEX",
+				i.Name(),
+			}...)
+	}
 	return strings.JoinWithSpace(elems)
 }
-- 
2.43.0


From 8994ca66d00710cee0f1a8a7ec9d2ba11f0eeae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:17 +0000
Subject: [PATCH 37/52] fix: build information schema queries for any names,
 with or without a database

---
 sql/system/schema_columns_resutset.go  |  3 ++-
 sql/system/schema_columns_stmt_impl.go | 15 ++++++++++-----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/sql/system/schema_columns_resutset.go b/sql/system/schema_columns_resutset.go
index da4a857..0055222 100644
--- a/sql/system/schema_columns_resutset.go
+++ b/sql/system/schema_columns_resutset.go
@@ -16,6 +16,7 @@ package system
 
 import (
 	"github.com/cybergarage/go-sqlparser/sql"
+	"github.com/cybergarage/go-sqlparser/sql/util/strings"
 )
 
 // PostgreSQL: Documentation: 17: 35.17. columns
@@ -38,7 +39,7 @@ func NewSchemaColumnsQueryFromTableNames(tableNames []string) (sql.Select, error
 			if 0 < n {
 				query += " OR "
 			}
-			query += "TABLE_NAME = '" + tableName + "'"
+			query += "TABLE_NAME = " + strings.EscapeString(tableName)
 		}
 	}
 	stmt, err := sql.NewParser().ParseString(query)
diff --git a/sql/system/schema_columns_stmt_impl.go b/sql/system/schema_columns_stmt_impl.go
index 5df1bed..ee024c5 100644
--- a/sql/system/schema_columns_stmt_impl.go
+++ b/sql/system/schema_columns_stmt_impl.go
@@ -19,6 +19,7 @@ import (
 
 	"github.com/cybergarage/go-sqlparser/sql"
 	"github.com/cybergarage/go-sqlparser/sql/query"
+	util "github.com/cybergarage/go-sqlparser/sql/util/strings"
 )
 
 type schemaColumnsStatement struct {
@@ -74,19 +75,23 @@ func NewSchemaColumnsStatement(opts ...SchemaColumnsStatementOption) (SchemaColu
 }
 
 func (stmt *schemaColumnsStatement) generateSelectStatement() error {
-	query := SchemaColumnsQuery + " WHERE "
+	conditions := []string{}
 	if 0 < len(stmt.dbName) {
-		query += SchemaColumnsSchema + " = '" + stmt.dbName + "'"
+		conditions = append(conditions, SchemaColumnsSchema+" = "+util.EscapeString(stmt.dbName))
 	}
 	switch {
 	case len(stmt.tblNames) == 1:
-		query += " AND " + SchemaColumnsTableName + " = '" + stmt.tblNames[0] + "'"
+		conditions = append(conditions, SchemaColumnsTableName+" = "+util.EscapeString(stmt.tblNames[0]))
 	case 1 < len(stmt.tblNames):
 		escapedTableNames := make([]string, len(stmt.tblNames))
 		for n, tblName := range stmt.tblNames {
-			escapedTableNames[n] = "'" + tblName + "'"
+			escapedTableNames[n] = util.EscapeString(tblName)
 		}
-		query += " AND " + SchemaColumnsTableName + " IN (" + strings.Join(escapedTableNames, ",") + ")"
+		conditions = append(conditions, SchemaColumnsTableName+" IN ("+strings.Join(escapedTableNames, ",")+")")
+	}
+	query := SchemaColumnsQuery
+	if 0 < len(conditions) {
+		query += " WHERE " + strings.Join(conditions, " AND ")
 	}
 	parser := sql.NewParser()
 	parsedStmts, err := parser.ParseString(query)
-- 
2.43.0


From 026246ca9fe7bd506fdb09b46d8524f1c7e7cd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:17 +0000
Subject: [PATCH 38/52] fix: report the name of the described table in the
 information schema

---
 sql/system/schema_columns_resutset_from.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/system/schema_columns_resutset_from.go b/sql/system/schema_columns_resutset_from.go
index 1d33666..fc54e68 100644
--- a/sql/system/schema_columns_resutset_from.go
+++ b/sql/system/schema_columns_resutset_from.go
@@ -82,7 +82,7 @@ func NewSchemaColumnsResultSetFromSchemas(schemas []query.Schema) (ResultSet, er
 				case SchemaColumnsSchema:
 					obj[SchemaColumnsSchema] = rsSchema.DatabaseName()
 				case SchemaColumnsTableName:
-					obj[SchemaColumnsTableName] = rsSchema.TableName()
+					obj[SchemaColumnsTableName] = schema.TableName()
 				case SchemaColumnsColumnName:
 					obj[SchemaColumnsColumnName] = column.Name()
 				case SchemaColumnsDataType:
-- 
2.43.0


From 426b0121b3728f92d3638ef802f2c71af1b4e8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:51 +0000
Subject: [PATCH 39/52] fix: read inline KEY and INDEX definitions of CREATE
 TABLE in any case

---
 sql/parser/sqlite/parser_antlr_visitor.go | 41 ++++++++++++-----------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 34c741e..ee0253c 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -291,12 +291,12 @@ func newTableSchemaWith(ctx antlr.ICreate_table_stmtContext) query.Schema {
 		indexDefs := indexDefs(ctx)
 		for i := 0; i < (len(indexDefs) - 1); i++ {
 			v := indexDefs[i]
-			switch v {
-			case "PRIMARY":
+			switch {
+			case strings.EqualFold(v, "PRIMARY"):
 				for j := (i + 1); j < (len(indexDefs) - 1); j++ {
 					v := indexDefs[j]
-					switch v {
-					case "KEY":
+					switch {
+					case strings.EqualFold(v, "KEY"):
 						columnName := strings.UnEscapeNameString(indexDefs[j+1])
 						column, err := columns.LookupColumn(columnName)
 						if err == nil {
@@ -304,7 +304,7 @@ func newTableSchemaWith(ctx antlr.ICreate_table_stmtContext) query.Schema {
 						}
 					}
 				}
-			case "KEY", "INDEX":
+			case strings.EqualFold(v, "KEY"), strings.EqualFold(v, "INDEX"):
 				if (i + 2) < len(indexDefs) {
 					idxName := strings.UnEscapeNameString(indexDefs[i+1])
 					columnName := strings.UnEscapeNameString(indexDefs[i+2])
@@ -324,31 +324,34 @@ func newTableSchemaWith(ctx antlr.ICreate_table_stmtContext) query.Schema {
 
 	// Column definitions.
 	for _, columDef := range ctx.AllColumn_def() {
-		column, ok := newColumnWith(columDef)
-		if ok {
-			// Primary key definition for column constraint.
-			for _, columnConst := range columDef.AllColumn_constraint() {
-				if isPrimary := columnConst.Primary_key_constraint(); isPrimary != nil {
-					indexes = append(indexes, query.NewPrimaryIndexWith(query.NewColumnsWith(column)))
-				}
-			}
-			columns = append(columns, column)
-		}
 		// Index definition for column constraint (for MySQL compatibility).
 		// MySQL :: MySQL 8.0 Reference Manual :: 15.1.20 CREATE TABLE Statement
 		// https://dev.mysql.com/doc/refman/8.0/en/create-table.html
-		switch columDef.Column_name().GetText() {
-		case "PRIMARY":
+		columnName := columDef.Column_name().GetText()
+		switch {
+		case strings.EqualFold(columnName, "PRIMARY"):
 			_, idxColumn, ok := indexColum(columDef, columns)
 			if ok {
 				indexes = append(indexes, query.NewPrimaryIndexWith(query.NewColumnsWith(idxColumn)))
+				continue
 			}
-		case "KEY", "INDEX":
+		case strings.EqualFold(columnName, "KEY"), strings.EqualFold(columnName, "INDEX"):
 			idxName, idxColumn, ok := indexColum(columDef, columns)
 			if ok {
 				indexes = append(indexes, query.NewSecondaryIndexWith(idxName, query.NewColumnsWith(idxColumn)))
+				continue
 			}
 		}
+		column, ok := newColumnWith(columDef)
+		if ok {
+			// Primary key definition for column constraint.
+			for _, columnConst := range columDef.AllColumn_constraint() {
+				if isPrimary := columnConst.Primary_key_constraint(); isPrimary != nil {
+					indexes = append(indexes, query.NewPrimaryIndexWith(query.NewColumnsWith(column)))
+				}
+			}
+			columns = append(columns, column)
+		}
 	}
 	// Index definitions.
 	for _, tblConst := range ctx.AllTable_constraint() {
@@ -400,7 +403,7 @@ func newColumnWith(ctx antlr.IColumn_defContext) (query.Column, bool) {
 	name := strings.UnEscapeNameString(ctx.Column_name().GetText())
 
 	for _, keyword := range keywords {
-		if strings.Equal(name, keyword) {
+		if strings.Equal(ctx.Column_name().GetText(), keyword) {
 			return nil, false
 		}
 	}
-- 
2.43.0


From 984d91eab52aa14026360e411c0ceca2aed77aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:40 +0000
Subject: [PATCH 40/52] fix: do not read ROLLBACK TO a savepoint as a rollback
 of the whole transaction

---
 sql/parser/sqlite/parser_antlr_visitor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index ee0253c..6380198 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -700,6 +700,9 @@ func newBeginWith(ctx antlr.IBegin_stmtContext) query.Begin {
 }
 
 func newRollbackWith(ctx antlr.IRollback_stmtContext) query.Rollback {
+	if ctx.TO_() != nil {
+		return nil // savepoints are not supported
+	}
 	return query.NewRollback()
 }
 
-- 
2.43.0


From 054685875012c046ebcaaaf4f84cf4f921207c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:36 +0000
Subject: [PATCH 41/52] fix: report a text of blanks, comments or semicolons as
 an empty query

---
 sql/parser/sqlite/parser_antlr.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sql/parser/sqlite/parser_antlr.go b/sql/parser/sqlite/parser_antlr.go
index c0473b5..3b517ff 100644
--- a/sql/parser/sqlite/parser_antlr.go
+++ b/sql/parser/sqlite/parser_antlr.go
@@ -83,6 +83,9 @@ func (parser *Parser) ParseString(queryString string) ([]query.Statement, error)
 	if !ok {
 		return nil, fmt.Errorf("failed to parse query: %s", queryString)
 	}
+	if len(stmtList) == 0 {
+		return nil, errors.ErrEmptyQuery
+	}
 	parser.stmts = stmtList
 
 	return parser.stmts, nil
-- 
2.43.0


From 3c1403e87fc778a9e62cd5b8e6f8df5ec550a307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:58 +0000
Subject: [PATCH 42/52] fix: do not read EXPLAIN of a statement as the
 statement itself

---
 sql/parser/sqlite/parser_antlr_visitor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 6380198..a190181 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -59,6 +59,9 @@ func newStatementListWith(ctxList []antlr.ISql_stmt_listContext) (query.Statemen
 }
 
 func newStatementWith(ctx antlr.ISql_stmtContext) query.Statement {
+	if ctx.EXPLAIN_() != nil {
+		return nil
+	}
 	// DDL (Data Definition Language) - CREATE
 	if stmt := ctx.Create_database_stmt(); stmt != nil {
 		return newCreateDatabaseWith(stmt)
-- 
2.43.0


From c2e303890a5179362425ea46a702966aee72cacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:13 +0000
Subject: [PATCH 43/52] fix: do not share added columns and indexes between
 schemas built from one list

---
 sql/query/schema.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sql/query/schema.go b/sql/query/schema.go
index 3d45d7b..1c432a4 100644
--- a/sql/query/schema.go
+++ b/sql/query/schema.go
@@ -172,7 +172,7 @@ func (schema *schema) Alter(stmt AlterTable) error {
 
 // AddColumn adds a column.
 func (schema *schema) AddColumn(column Column) error {
-	schema.columns = append(schema.columns, column)
+	schema.columns = append(slices.Clip(schema.columns), column)
 	return nil
 }
 
@@ -190,7 +190,7 @@ func (schema *schema) DropColumn(name string) error {
 
 // AddIndex adds an index.
 func (schema *schema) AddIndex(index Index) error {
-	schema.indexes = append(schema.indexes, index)
+	schema.indexes = append(slices.Clip(schema.indexes), index)
 	return nil
 }
 
-- 
2.43.0


From 39482e60b1b664427e657832e6c3dc3d718bb064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:17 +0000
Subject: [PATCH 44/52] fix: refuse floating point and text values out of the
 range of BIGINT

---
 sql/query/column.go | 34 ++++++++++++++++++++++++++++++++++
 sql/query/errors.go |  4 ++++
 2 files changed, 38 insertions(+)

diff --git a/sql/query/column.go b/sql/query/column.go
index e54c72f..6b2827e 100644
--- a/sql/query/column.go
+++ b/sql/query/column.go
@@ -15,7 +15,10 @@
 package query
 
 import (
+	"errors"
 	"fmt"
+	"math"
+	"strconv"
 	"strings"
 
 	"github.com/cybergarage/go-safecast/safecast"
@@ -248,6 +251,9 @@ func (col *column) SetDefinition(dataDef ColumnDef) error {
 		if err := safecast.ToInt64(col.v, &v); err != nil {
 			return err
 		}
+		if isOutOfInt64Range(col.v) {
+			return newErrColumnOutOfRange(col.name, col.v)
+		}
 		col.Literal.SetValue(v)
 	case FloatType:
 		var v float32
@@ -271,6 +277,34 @@ func (col *column) SetDefinition(dataDef ColumnDef) error {
 	return nil
 }
 
+// isOutOfInt64Range returns true whether the value is a floating point number which int64 can not hold.
+// safecast does not check the range of floating point numbers for int64.
+func isOutOfInt64Range(v any) bool {
+	var f float64
+	switch v := v.(type) {
+	case float32:
+		f = float64(v)
+	case float64:
+		f = v
+	case []byte:
+		return isOutOfInt64Range(string(v))
+	case string:
+		_, err := strconv.ParseInt(v, 10, 64)
+		if err == nil {
+			return false
+		}
+		if errors.Is(err, strconv.ErrRange) {
+			return true
+		}
+		if f, err = strconv.ParseFloat(v, 64); err != nil {
+			return false
+		}
+	default:
+		return false
+	}
+	return math.IsNaN(f) || f < math.MinInt64 || math.MaxInt64 <= f
+}
+
 // Copy returns a copy of the column.
 func (col *column) Copy() Column {
 	cpCol := *col
diff --git a/sql/query/errors.go b/sql/query/errors.go
index f3a1506..04c18e6 100644
--- a/sql/query/errors.go
+++ b/sql/query/errors.go
@@ -53,6 +53,10 @@ func newErrColumnIndexOutOfRange(n int) error {
 	return fmt.Errorf("column index (%d) %w", n, ErrNotFound)
 }
 
+func newErrColumnOutOfRange(name string, v any) error {
+	return fmt.Errorf("column (%s) value (%v) out of range %w", name, v, ErrInvalid)
+}
+
 func newErrNotFoundFunction(name string) error {
 	return fmt.Errorf("function (%s) %w", name, ErrNotFound)
 }
-- 
2.43.0


From 9c418c25480392d0f63d4aae1ead444105546967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:38 +0000
Subject: [PATCH 45/52] fix: leave null values out of the aggregates of a
 column

---
 sql/fn/aggr_impl.go | 54 +++++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/sql/fn/aggr_impl.go b/sql/fn/aggr_impl.go
index f1ba7be..ecc1742 100644
--- a/sql/fn/aggr_impl.go
+++ b/sql/fn/aggr_impl.go
@@ -36,13 +36,13 @@ type aggrImpl struct {
 	args        []string
 	columns     []string
 	aggrs       []float64
-	counts      int
+	counts      []int
 	groupBys    []GroupBy
 	groupBySet  GroupBySet
 	groupOrder  []GroupBySet
 	groupKeys   map[GroupBySet][]any
 	groupAggrs  map[GroupBySet][]float64
-	groupCounts map[GroupBySet]int
+	groupCounts map[GroupBySet][]int
 	resetFunc   AggrResetFunc
 	aggFunc     AggrAggregateFunc
 	finalFunc   AggrFinalizeFunc
@@ -62,11 +62,11 @@ func newAggr() *aggrImpl {
 		groupBys:    []GroupBy{},
 		groupBySet:  GroupBySet(""),
 		aggrs:       make([]float64, 0),
-		counts:      0,
+		counts:      make([]int, 0),
 		groupOrder:  make([]GroupBySet, 0),
 		groupKeys:   make(map[GroupBySet][]any),
 		groupAggrs:  make(map[GroupBySet][]float64),
-		groupCounts: make(map[GroupBySet]int),
+		groupCounts: make(map[GroupBySet][]int),
 		resetFunc:   nil,
 		aggFunc:     nil,
 		finalFunc:   nil,
@@ -216,12 +216,12 @@ func (aggr *aggrImpl) Reset(opts ...any) error {
 		aggr.aggrs[n] = nv
 	}
 
-	aggr.counts = 0
+	aggr.counts = make([]int, len(aggr.columns))
 
 	aggr.groupOrder = make([]GroupBySet, 0)
 	aggr.groupKeys = make(map[GroupBySet][]any)
 	aggr.groupAggrs = make(map[GroupBySet][]float64)
-	aggr.groupCounts = make(map[GroupBySet]int)
+	aggr.groupCounts = make(map[GroupBySet][]int)
 
 	return nil
 }
@@ -234,19 +234,19 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 	}
 
 	toFloat64 := func(v any) (float64, error) {
-		if aggr.ignoreValues {
+		if aggr.ignoreValues || v == nil {
 			return 0, nil
 		}
-		switch v := v.(type) {
-		case nil:
-			return 0, nil
-		default:
-			var fv float64
-			if err := safecast.ToFloat64(v, &fv); err != nil {
-				return 0, fmt.Errorf("%w value %v : %w", ErrInvalid, v, err)
-			}
-			return fv, nil
+		var fv float64
+		if err := safecast.ToFloat64(v, &fv); err != nil {
+			return 0, fmt.Errorf("%w value %v : %w", ErrInvalid, v, err)
 		}
+		return fv, nil
+	}
+
+	// isIgnored returns true when the value is null, which no aggregate but COUNT(*) includes.
+	isIgnored := func(n int, v any) bool {
+		return v == nil && aggr.args[n] != "*"
 	}
 
 	groupBys, isGrouping := aggr.GroupBys()
@@ -260,7 +260,7 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 		if _, ok := aggr.groupAggrs[groupSetKey]; !ok {
 			aggr.groupOrder = append(aggr.groupOrder, groupSetKey)
 			aggr.groupKeys[groupSetKey] = slices.Clone(groupKeys)
-			aggr.groupCounts[groupSetKey] = 0
+			aggr.groupCounts[groupSetKey] = make([]int, (len(aggr.columns) - groupKeysCnt))
 			aggr.groupAggrs[groupSetKey] = make([]float64, (len(aggr.columns) - groupKeysCnt))
 			for n := range aggr.groupAggrs[groupSetKey] {
 				nv, err := aggr.resetFunc(aggr)
@@ -271,6 +271,9 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 			}
 		}
 		for n, rv := range row[groupKeysCnt:] {
+			if isIgnored(n, rv) {
+				continue
+			}
 			fv, err := toFloat64(rv)
 			if err != nil {
 				return fmt.Errorf("[%d] %w row : %w", n+1, ErrInvalid, err)
@@ -280,10 +283,13 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 				return err
 			}
 			aggr.groupAggrs[groupSetKey][n] = nv
+			aggr.groupCounts[groupSetKey][n]++
 		}
-		aggr.groupCounts[groupSetKey]++
 	} else {
 		for n, rv := range row {
+			if isIgnored(n, rv) {
+				continue
+			}
 			fv, err := toFloat64(rv)
 			if err != nil {
 				return fmt.Errorf("[%d] %w row : %w", n, ErrInvalid, err)
@@ -293,8 +299,8 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 				return err
 			}
 			aggr.aggrs[n] = nv
+			aggr.counts[n]++
 		}
-		aggr.counts++
 	}
 
 	return nil
@@ -406,14 +412,14 @@ func (aggr *aggrImpl) Finalize(opts ...any) (ResultSet, error) {
 			if !ok {
 				return nil, fmt.Errorf("group values %w for group %v", ErrNotFound, groupSetKey)
 			}
-			groupCnt, ok := aggr.groupCounts[groupSetKey]
+			groupCnts, ok := aggr.groupCounts[groupSetKey]
 			if !ok {
 				return nil, fmt.Errorf("group count %w for group %v", ErrNotFound, groupSetKey)
 			}
 			row := make([]any, 0)
 			row = append(row, groupSetKeyValues...)
-			for _, columnValue := range columnValues {
-				fv, err := aggr.finalFunc(aggr, columnValue, groupCnt)
+			for n, columnValue := range columnValues {
+				fv, err := aggr.finalFunc(aggr, columnValue, groupCnts[n])
 				if err != nil {
 					return nil, err
 				}
@@ -423,8 +429,8 @@ func (aggr *aggrImpl) Finalize(opts ...any) (ResultSet, error) {
 		}
 	} else {
 		row := make([]any, 0)
-		for _, value := range aggr.aggrs {
-			fv, err := aggr.finalFunc(aggr, value, aggr.counts)
+		for n, value := range aggr.aggrs {
+			fv, err := aggr.finalFunc(aggr, value, aggr.counts[n])
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 30057684ebcb30183fc33b140bb9e8e466c410b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:54 +0000
Subject: [PATCH 46/52] fix: print a SELECT without tables without FROM

---
 sql/query/select.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sql/query/select.go b/sql/query/select.go
index 4708e57..a9fc37a 100644
--- a/sql/query/select.go
+++ b/sql/query/select.go
@@ -131,8 +131,9 @@ func (stmt *selectStmt) String() string {
 	strs := []string{
 		"SELECT",
 		selectorStr,
-		"FROM",
-		stmt.TableList.String(),
+	}
+	if 0 < len(stmt.TableList) {
+		strs = append(strs, "FROM", stmt.TableList.String())
 	}
 	if stmt.HasConditions() {
 		strs = append(strs, "WHERE", stmt.Condition.String())
-- 
2.43.0


From 73a5f08812efb542e152b519d1c521274839692e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:04 +0000
Subject: [PATCH 47/52] fix: take only the enclosing quotes off a quoted name

---
 sql/util/strings/strings.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sql/util/strings/strings.go b/sql/util/strings/strings.go
index bcf9bbc..015c5fd 100644
--- a/sql/util/strings/strings.go
+++ b/sql/util/strings/strings.go
@@ -58,7 +58,15 @@ func EqualFold(s, t string) bool {
 
 // UnEscapeNameString returns an unescaped column name string.
 func UnEscapeNameString(s string) string {
-	return strings.Trim(s, "'`()")
+	for 2 <= len(s) {
+		switch s[:1] + s[len(s)-1:] {
+		case "''", "``", "()":
+			s = s[1 : len(s)-1]
+		default:
+			return s
+		}
+	}
+	return s
 }
 
 // EscapeNameString returns an escaped column name string.
-- 
2.43.0


From d53d33e86e5ba40c6f327faecbbf75191312285f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:14 +0000
Subject: [PATCH 48/52] fix: leave the aggregate as it was when a row is
 refused

---
 sql/fn/aggr_impl.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/sql/fn/aggr_impl.go b/sql/fn/aggr_impl.go
index ecc1742..5d940d3 100644
--- a/sql/fn/aggr_impl.go
+++ b/sql/fn/aggr_impl.go
@@ -250,8 +250,19 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 	}
 
 	groupBys, isGrouping := aggr.GroupBys()
+	groupKeysCnt := len(groupBys)
+
+	// Convert all values first so that a refused row does not change the aggregator.
+	fvs := make([]float64, len(row)-groupKeysCnt)
+	for n, rv := range row[groupKeysCnt:] {
+		fv, err := toFloat64(rv)
+		if err != nil {
+			return fmt.Errorf("[%d] %w row : %w", n+groupKeysCnt, ErrInvalid, err)
+		}
+		fvs[n] = fv
+	}
+
 	if isGrouping {
-		groupKeysCnt := len(groupBys)
 		groupKeys := row[:groupKeysCnt]
 		groupSetKey, err := NewGroupBySetKey(groupBys, groupKeys)
 		if err != nil {
@@ -274,11 +285,7 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 			if isIgnored(n, rv) {
 				continue
 			}
-			fv, err := toFloat64(rv)
-			if err != nil {
-				return fmt.Errorf("[%d] %w row : %w", n+1, ErrInvalid, err)
-			}
-			nv, err := aggr.aggFunc(aggr, aggr.groupAggrs[groupSetKey][n], fv)
+			nv, err := aggr.aggFunc(aggr, aggr.groupAggrs[groupSetKey][n], fvs[n])
 			if err != nil {
 				return err
 			}
@@ -290,11 +297,7 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 			if isIgnored(n, rv) {
 				continue
 			}
-			fv, err := toFloat64(rv)
-			if err != nil {
-				return fmt.Errorf("[%d] %w row : %w", n, ErrInvalid, err)
-			}
-			nv, err := aggr.aggFunc(aggr, aggr.aggrs[n], fv)
+			nv, err := aggr.aggFunc(aggr, aggr.aggrs[n], fvs[n])
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From fd20ba7b26ff92dcdef619dfc16aec7e7c9f1549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:26 +0000
Subject: [PATCH 49/52] fix: refuse INSERT values that do not say which column
 they are for

INSERT INTO t VALUES (a = 1) names the column of each value. Any other
comparison was read as a value too, a name overrode the column list, and
rows with other columns than the first were printed under its columns.
---
 sql/parser/sqlite/parser_antlr_visitor.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index a190181..6727ee8 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -475,7 +475,7 @@ func newInsertWith(ctx antlr.IInsert_stmtContext) query.Insert {
 		columns := query.NewColumns()
 		valueIdx := 0
 		for _, expr := range row.AllExpr() {
-			if v := expr.Comparison_expr(); v != nil {
+			if v := expr.Comparison_expr(); v != nil && v.ASSIGN() != nil && len(names) == 0 {
 				columns = append(columns,
 					query.NewColumnWithOptions(query.WithColumnName(strings.UnEscapeNameString(v.Column_name().GetText())),
 						query.WithColumnLiteral(newLiteralValueWith(v.Literal_value()))))
@@ -496,6 +496,9 @@ func newInsertWith(ctx antlr.IInsert_stmtContext) query.Insert {
 		if len(columns) < len(names) {
 			return nil
 		}
+		if 0 < len(values) && columns.NameString() != values[0].NameString() {
+			return nil // all rows have the columns of the first one
+		}
 		values = append(values, columns)
 	}
 	return query.NewInsertWith(tbl, values)
-- 
2.43.0


From 6c215cd1d7ca20e624211adc9a9bb41e447a7c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:23 +0000
Subject: [PATCH 50/52] fix: read keys of a CREATE TABLE that stand before
 their columns

A PRIMARY KEY, KEY or INDEX definition written before the column it names
was dropped, or read as a column in lower case.
---
 sql/parser/sqlite/parser_antlr_visitor.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 6727ee8..e7b53d7 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -325,6 +325,14 @@ func newTableSchemaWith(ctx antlr.ICreate_table_stmtContext) query.Schema {
 	columns := query.NewColumns()
 	indexes := query.NewIndexes()
 
+	// Columns which an index definition can name, defined before or after it.
+	indexableColumns := query.NewColumns()
+	for _, columDef := range ctx.AllColumn_def() {
+		if column, ok := newColumnWith(columDef); ok {
+			indexableColumns = append(indexableColumns, column)
+		}
+	}
+
 	// Column definitions.
 	for _, columDef := range ctx.AllColumn_def() {
 		// Index definition for column constraint (for MySQL compatibility).
@@ -333,13 +341,13 @@ func newTableSchemaWith(ctx antlr.ICreate_table_stmtContext) query.Schema {
 		columnName := columDef.Column_name().GetText()
 		switch {
 		case strings.EqualFold(columnName, "PRIMARY"):
-			_, idxColumn, ok := indexColum(columDef, columns)
+			_, idxColumn, ok := indexColum(columDef, indexableColumns)
 			if ok {
 				indexes = append(indexes, query.NewPrimaryIndexWith(query.NewColumnsWith(idxColumn)))
 				continue
 			}
 		case strings.EqualFold(columnName, "KEY"), strings.EqualFold(columnName, "INDEX"):
-			idxName, idxColumn, ok := indexColum(columDef, columns)
+			idxName, idxColumn, ok := indexColum(columDef, indexableColumns)
 			if ok {
 				indexes = append(indexes, query.NewSecondaryIndexWith(idxName, query.NewColumnsWith(idxColumn)))
 				continue
-- 
2.43.0


From 047d848604d71f055910e05c19f1b98c05365339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:09 +0000
Subject: [PATCH 51/52] fix: keep columns that are defined without a type

CREATE TABLE t (a, b TEXT) lost the column a, and ALTER TABLE t ADD a was
a statement without a change whose text is not accepted.
---
 sql/parser/sqlite/parser_antlr_visitor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index e7b53d7..70fd4f1 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -423,7 +423,7 @@ func newColumnWith(ctx antlr.IColumn_defContext) (query.Column, bool) {
 
 	typ := ctx.Type_name()
 	if typ == nil {
-		return nil, false
+		return query.NewColumnWithOptions(query.WithColumnName(name), query.WithColumnData(query.NewUnknownDataDef())), true
 	}
 
 	dataDefs := []string{}
-- 
2.43.0


From f364db99f3aec9984a2a94ff77933c700449a701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:08 +0000
Subject: [PATCH 52/52] fix: keep bound values apart from the text around their
 placeholders

Values bound to adjacent placeholders, or next to a string, number or name,
became one with it: VALUES ($1$2) gave one string, t? another table.
---
 sql/stmt/bind_impl.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sql/stmt/bind_impl.go b/sql/stmt/bind_impl.go
index b6214ca..d88fb33 100644
--- a/sql/stmt/bind_impl.go
+++ b/sql/stmt/bind_impl.go
@@ -74,10 +74,7 @@ func (stmt *bindStmt) bindQuery() (string, error) {
 			return err
 		}
 		used[n] = true
-		if strings.HasPrefix(s, "-") && strings.HasSuffix(bound.String(), "-") {
-			bound.WriteString(" ") // do not start a comment
-		}
-		bound.WriteString(s)
+		bound.WriteString(" " + s + " ") // a token of its own
 		return nil
 	}
 	skipTo := func(from int, end string) int {
-- 
2.43.0

