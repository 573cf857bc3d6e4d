package props

import (
	"github.com/cybergarage/go-sqlparser/sql/query"
	"verif/harness/sym"
)

// use calls every accessor of a statement and of its parts; none of them panics, whatever the statement.
func use(st query.Statement) {
	switch st.StatementType() {
	case query.InsertStatement:
		s, ok := st.(query.Insert)
		sym.Assert(ok, "a statement is what its type says")
		_ = s.TableName()
		useColumns(s.Columns())
		for _, r := range s.Values() {
			useColumns(r)
		}
	case query.SelectStatement:
		s, ok := st.(query.Select)
		sym.Assert(ok, "a statement is what its type says")
		useSelectors(s.Selectors())
		useTables(s.From())
		useCondition(s.Where())
		_, _, _ = s.Limit().Limit(), s.Limit().Offset(), s.Limit().String()
		_, _ = s.GroupBy().ColumnName(), s.GroupBy().String()
		_ = s.OrderBy().String()
		for _, o := range s.OrderBy().Orders() {
			_, _, _ = o.ColumnName(), o.Type().String(), o.String()
			_, _, _ = o.IsAsc(), o.IsDesc(), o.IsNone()
		}
		s.HasAggregator()
		s.HasExecutor()
		if a, ok := st.(interface {
			Aggregators() (query.AggregatorSet, error)
		}); ok {
			a.Aggregators()
		}
	case query.UpdateStatement:
		s, ok := st.(query.Update)
		sym.Assert(ok, "a statement is what its type says")
		_ = s.TableName()
		useColumns(s.Columns())
		useCondition(s.Where())
	case query.DeleteStatement:
		s, ok := st.(query.Delete)
		sym.Assert(ok, "a statement is what its type says")
		_ = s.TableName()
		s.HasConditions()
		useCondition(s.Where())
	case query.CreateTableStatement:
		s, ok := st.(query.CreateTable)
		sym.Assert(ok, "a statement is what its type says")
		_ = s.TableName()
		s.IfNotExists()
		useSchema(s.Schema())
	case query.AlterTableStatement:
		s, ok := st.(query.AlterTable)
		sym.Assert(ok, "a statement is what its type says")
		_ = s.TableName()
		if t, ok := s.RenameTo(); ok {
			useTable(t)
		}
		if c, ok := s.AddColumn(); ok {
			useColumn(c)
		}
		if c, ok := s.DropColumn(); ok {
			useColumn(c)
		}
		if a, b, ok := s.RenameColumns(); ok {
			useColumn(a)
			useColumn(b)
		}
		if i, ok := s.AddIndex(); ok {
			useIndex(i)
		}
		if i, ok := s.DropIndex(); ok {
			useIndex(i)
		}
	case query.CreateIndexStatement:
		s, ok := st.(query.CreateIndex)
		sym.Assert(ok, "a statement is what its type says")
		_ = s.TableName()
		s.IfNotExists()
		useIndex(s.Index())
	case query.DropIndexStatement:
		s, ok := st.(query.DropIndex)
		sym.Assert(ok, "a statement is what its type says")
		_, _ = s.TableName(), s.IndexName()
		s.IfExists()
		useIndex(s.Index())
	case query.DropTableStatement:
		s, ok := st.(query.DropTable)
		sym.Assert(ok, "a statement is what its type says")
		_ = s.TableNames()
		s.IfExists()
		useTables(s.Tables())
	case query.TruncateStatement:
		s, ok := st.(query.Truncate)
		sym.Assert(ok, "a statement is what its type says")
		_ = s.TableNames()
		useTables(s.Tables())
	case query.VacuumStatement:
		s, ok := st.(query.Vacuum)
		sym.Assert(ok, "a statement is what its type says")
		_ = s.TableName()
		if t := s.Table(); t != nil {
			useTable(t)
		}
	case query.CopyStatement:
		s, ok := st.(query.Copy)
		sym.Assert(ok, "a statement is what its type says")
		_ = s.TableName()
		useColumns(s.Columns())
		if x, ok := st.(interface{ CopySource() string }); ok {
			_ = x.CopySource()
		}
		if x, ok := st.(interface{ CopyFormat() query.CopyFormat }); ok {
			_ = x.CopyFormat().String()
		}
	case query.UseStatement:
		s, ok := st.(query.Use)
		sym.Assert(ok, "a statement is what its type says")
		_ = s.DatabaseName()
	case query.CreateDatabaseStatement:
		s, ok := st.(query.CreateDatabase)
		sym.Assert(ok, "a statement is what its type says")
		_ = s.DatabaseName()
		s.IfNotExists()
	case query.DropDatabaseStatement:
		s, ok := st.(query.DropDatabase)
		sym.Assert(ok, "a statement is what its type says")
		_ = s.DatabaseName()
		s.IfExists()
	case query.AlterDatabaseStatement:
		s, ok := st.(query.AlterDatabase)
		sym.Assert(ok, "a statement is what its type says")
		_, _ = s.DatabaseName(), s.RenameTo().DatabaseName()
	case query.BeginStatement, query.CommitStatement, query.RollbackStatement:
	default:
		sym.Fail("a statement is of a known type")
	}
}

func useTable(t query.Table) {
	n := t.FullTableName()
	_, _ = t.SchemaName(), t.TableName()
	t.IsFullTableName(n)
	t.IsSchemaName("x")
	t.IsTableName("x")
}

func useTables(ts query.TableList) {
	_, _ = ts.TableNames(), ts.String()
	for _, t := range ts.Tables() {
		useTable(t)
	}
	ts.HasTable("x")
	ts.HasSchemaTable("x")
}

func useColumn(c query.Column) {
	_, _, _, _ = c.Name(), c.Value(), c.ValueString(), c.String()
	_, _, _, _ = c.Constraint().String(), c.DataType().String(), c.DataTypeSize(), c.DefinitionString()
	_, _, _, _ = c.HasValue(), c.ValueType(), c.IsAsterisk(), c.IsPlaceHolder()
	_, _ = c.IsName("x"), c.Definition()
	useFunction(c)
	if d := c.Copy(); d != nil {
		_ = d.Name()
	}
	if u, ok := c.(query.UpdatorStringer); ok {
		_ = u.UpdatorString()
	}
}

func useFunction(c query.Selector) {
	for _, a := range c.Arguments() {
		_ = a.Name()
	}
	c.IsFunction()
	if f, ok := c.Function(); ok {
		_, _, _ = f.Name(), f.String(), f.Type()
		for _, a := range f.Arguments() {
			_ = a.Name()
		}
		f.Executor()
		f.Aggregator()
	}
}

func useColumns(cs query.Columns) {
	_, _, _ = cs.Names(), cs.ColumnNames(), cs.NameString()
	_, _, _ = cs.ValueString(), cs.Len(), cs.Selectors()
	cs.IsAsterisk()
	_ = cs.Copy()
	cs.ColumnAt(0)
	cs.LookupColumn("x")
	for _, c := range cs {
		useColumn(c)
	}
}

func useSelectors(ss query.Selectors) {
	_, _, _, _ = ss.Names(), ss.String(), ss.Len(), ss.Columns()
	_, _, _ = ss.IsAsterisk(), ss.HasFunction(), ss.Functions()
	_, _ = ss.HasAggregator(), ss.HasExecutor()
	ss.Executors()
	ss.Aggregators()
	ss.LookupFunction("x")
	ss.LookupExecutor("x")
	for _, s := range ss {
		_, _ = s.Name(), s.String()
		s.IsAsterisk()
		useFunction(s)
	}
}

func useCondition(w query.Condition) {
	if !w.HasConditions() {
		_ = w.String()
		return
	}
	_ = w.String()
	useExpr(w.Expr())
}

func useExpr(e query.Expr) {
	_ = e.String()
	switch x := e.(type) {
	case *query.AndExpr:
		useExpr(x.Left())
		useExpr(x.Right())
	case *query.OrExpr:
		useExpr(x.Left())
		useExpr(x.Right())
	case *query.CmpExpr:
		_ = x.Operator().String()
		useColumn(x.Left())
		r := x.Right()
		_, _, _, _ = r.Value(), r.ValueString(), r.String(), r.ValueType()
		_, _, _ = r.IsNull(), r.IsPlaceHolder(), r.IsAsterisk()
	}
}

func useIndex(i query.Index) {
	_, _, _ = i.Name(), i.Type().String(), i.DefinitionString()
	useColumns(i.Columns())
}

func useSchema(s query.Schema) {
	_, _, _ = s.FullTableName(), s.SchemaName(), s.TableName()
	_ = s.Selectors()
	useColumns(s.Columns())
	_, _ = s.Indexes().IndexNames(), s.Indexes().DefinitionString()
	for _, i := range s.Indexes() {
		useIndex(i)
	}
	s.LookupColumn("x")
	s.LookupIndex("x")
}
