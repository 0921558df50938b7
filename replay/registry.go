package main

import (
	"github.com/akito0107/xsqlparser/sqlast"
	"reflect"
)

var registry = map[string]reflect.Type{
	"AddColumnTableAction":        reflect.TypeOf(sqlast.AddColumnTableAction{}),
	"AddConstraintTableAction":    reflect.TypeOf(sqlast.AddConstraintTableAction{}),
	"AliasSelectItem":             reflect.TypeOf(sqlast.AliasSelectItem{}),
	"AlterColumnTableAction":      reflect.TypeOf(sqlast.AlterColumnTableAction{}),
	"AlterTableStmt":              reflect.TypeOf(sqlast.AlterTableStmt{}),
	"Array":                       reflect.TypeOf(sqlast.Array{}),
	"Assignment":                  reflect.TypeOf(sqlast.Assignment{}),
	"AutoIncrement":               reflect.TypeOf(sqlast.AutoIncrement{}),
	"Between":                     reflect.TypeOf(sqlast.Between{}),
	"BigInt":                      reflect.TypeOf(sqlast.BigInt{}),
	"Binary":                      reflect.TypeOf(sqlast.Binary{}),
	"BinaryExpr":                  reflect.TypeOf(sqlast.BinaryExpr{}),
	"Blob":                        reflect.TypeOf(sqlast.Blob{}),
	"Boolean":                     reflect.TypeOf(sqlast.Boolean{}),
	"BooleanValue":                reflect.TypeOf(sqlast.BooleanValue{}),
	"Bytea":                       reflect.TypeOf(sqlast.Bytea{}),
	"CTE":                         reflect.TypeOf(sqlast.CTE{}),
	"CaseExpr":                    reflect.TypeOf(sqlast.CaseExpr{}),
	"Cast":                        reflect.TypeOf(sqlast.Cast{}),
	"CharType":                    reflect.TypeOf(sqlast.CharType{}),
	"CheckColumnSpec":             reflect.TypeOf(sqlast.CheckColumnSpec{}),
	"CheckTableConstraint":        reflect.TypeOf(sqlast.CheckTableConstraint{}),
	"Clob":                        reflect.TypeOf(sqlast.Clob{}),
	"ColumnConstraint":            reflect.TypeOf(sqlast.ColumnConstraint{}),
	"ColumnDef":                   reflect.TypeOf(sqlast.ColumnDef{}),
	"Comment":                     reflect.TypeOf(sqlast.Comment{}),
	"CommentGroup":                reflect.TypeOf(sqlast.CommentGroup{}),
	"CompoundIdent":               reflect.TypeOf(sqlast.CompoundIdent{}),
	"ConstructorSource":           reflect.TypeOf(sqlast.ConstructorSource{}),
	"CopyStmt":                    reflect.TypeOf(sqlast.CopyStmt{}),
	"CreateIndexStmt":             reflect.TypeOf(sqlast.CreateIndexStmt{}),
	"CreateTableStmt":             reflect.TypeOf(sqlast.CreateTableStmt{}),
	"CreateViewStmt":              reflect.TypeOf(sqlast.CreateViewStmt{}),
	"CrossJoin":                   reflect.TypeOf(sqlast.CrossJoin{}),
	"CurrentRow":                  reflect.TypeOf(sqlast.CurrentRow{}),
	"Custom":                      reflect.TypeOf(sqlast.Custom{}),
	"Date":                        reflect.TypeOf(sqlast.Date{}),
	"DateTimeValue":               reflect.TypeOf(sqlast.DateTimeValue{}),
	"DateValue":                   reflect.TypeOf(sqlast.DateValue{}),
	"Decimal":                     reflect.TypeOf(sqlast.Decimal{}),
	"DeleteStmt":                  reflect.TypeOf(sqlast.DeleteStmt{}),
	"Derived":                     reflect.TypeOf(sqlast.Derived{}),
	"Double":                      reflect.TypeOf(sqlast.Double{}),
	"DoubleValue":                 reflect.TypeOf(sqlast.DoubleValue{}),
	"DropConstraintTableAction":   reflect.TypeOf(sqlast.DropConstraintTableAction{}),
	"DropDefaultColumnAction":     reflect.TypeOf(sqlast.DropDefaultColumnAction{}),
	"DropIndexStmt":               reflect.TypeOf(sqlast.DropIndexStmt{}),
	"DropTableStmt":               reflect.TypeOf(sqlast.DropTableStmt{}),
	"ExceptOperator":              reflect.TypeOf(sqlast.ExceptOperator{}),
	"Exists":                      reflect.TypeOf(sqlast.Exists{}),
	"ExplainStmt":                 reflect.TypeOf(sqlast.ExplainStmt{}),
	"File":                        reflect.TypeOf(sqlast.File{}),
	"Float":                       reflect.TypeOf(sqlast.Float{}),
	"Following":                   reflect.TypeOf(sqlast.Following{}),
	"Function":                    reflect.TypeOf(sqlast.Function{}),
	"Ident":                       reflect.TypeOf(sqlast.Ident{}),
	"InList":                      reflect.TypeOf(sqlast.InList{}),
	"InSubQuery":                  reflect.TypeOf(sqlast.InSubQuery{}),
	"InsertStmt":                  reflect.TypeOf(sqlast.InsertStmt{}),
	"Int":                         reflect.TypeOf(sqlast.Int{}),
	"IntersectOperator":           reflect.TypeOf(sqlast.IntersectOperator{}),
	"IsNotNull":                   reflect.TypeOf(sqlast.IsNotNull{}),
	"IsNull":                      reflect.TypeOf(sqlast.IsNull{}),
	"JoinCondition":               reflect.TypeOf(sqlast.JoinCondition{}),
	"JoinType":                    reflect.TypeOf(sqlast.JoinType{}),
	"LimitExpr":                   reflect.TypeOf(sqlast.LimitExpr{}),
	"LongValue":                   reflect.TypeOf(sqlast.LongValue{}),
	"MyCharset":                   reflect.TypeOf(sqlast.MyCharset{}),
	"MyEngine":                    reflect.TypeOf(sqlast.MyEngine{}),
	"NamedColumnsJoin":            reflect.TypeOf(sqlast.NamedColumnsJoin{}),
	"NationalStringLiteral":       reflect.TypeOf(sqlast.NationalStringLiteral{}),
	"NaturalJoin":                 reflect.TypeOf(sqlast.NaturalJoin{}),
	"Nested":                      reflect.TypeOf(sqlast.Nested{}),
	"NotNullColumnSpec":           reflect.TypeOf(sqlast.NotNullColumnSpec{}),
	"NullValue":                   reflect.TypeOf(sqlast.NullValue{}),
	"ObjectName":                  reflect.TypeOf(sqlast.ObjectName{}),
	"Operator":                    reflect.TypeOf(sqlast.Operator{}),
	"OrderByExpr":                 reflect.TypeOf(sqlast.OrderByExpr{}),
	"PGAlterDataTypeColumnAction": reflect.TypeOf(sqlast.PGAlterDataTypeColumnAction{}),
	"PGDropNotNullColumnAction":   reflect.TypeOf(sqlast.PGDropNotNullColumnAction{}),
	"PGSetNotNullColumnAction":    reflect.TypeOf(sqlast.PGSetNotNullColumnAction{}),
	"PartitionedJoinTable":        reflect.TypeOf(sqlast.PartitionedJoinTable{}),
	"Preceding":                   reflect.TypeOf(sqlast.Preceding{}),
	"QualifiedJoin":               reflect.TypeOf(sqlast.QualifiedJoin{}),
	"QualifiedWildcard":           reflect.TypeOf(sqlast.QualifiedWildcard{}),
	"QualifiedWildcardSelectItem": reflect.TypeOf(sqlast.QualifiedWildcardSelectItem{}),
	"QueryExpr":                   reflect.TypeOf(sqlast.QueryExpr{}),
	"QueryStmt":                   reflect.TypeOf(sqlast.QueryStmt{}),
	"Real":                        reflect.TypeOf(sqlast.Real{}),
	"ReferenceKeyExpr":            reflect.TypeOf(sqlast.ReferenceKeyExpr{}),
	"ReferencesColumnSpec":        reflect.TypeOf(sqlast.ReferencesColumnSpec{}),
	"ReferentialTableConstraint":  reflect.TypeOf(sqlast.ReferentialTableConstraint{}),
	"Regclass":                    reflect.TypeOf(sqlast.Regclass{}),
	"RemoveColumnTableAction":     reflect.TypeOf(sqlast.RemoveColumnTableAction{}),
	"RowValueExpr":                reflect.TypeOf(sqlast.RowValueExpr{}),
	"SQLSelect":                   reflect.TypeOf(sqlast.SQLSelect{}),
	"SelectExpr":                  reflect.TypeOf(sqlast.SelectExpr{}),
	"SetDefaultColumnAction":      reflect.TypeOf(sqlast.SetDefaultColumnAction{}),
	"SetOperationExpr":            reflect.TypeOf(sqlast.SetOperationExpr{}),
	"SingleQuotedString":          reflect.TypeOf(sqlast.SingleQuotedString{}),
	"SmallInt":                    reflect.TypeOf(sqlast.SmallInt{}),
	"SubQuery":                    reflect.TypeOf(sqlast.SubQuery{}),
	"SubQuerySource":              reflect.TypeOf(sqlast.SubQuerySource{}),
	"Table":                       reflect.TypeOf(sqlast.Table{}),
	"TableConstraint":             reflect.TypeOf(sqlast.TableConstraint{}),
	"TableJoinElement":            reflect.TypeOf(sqlast.TableJoinElement{}),
	"Text":                        reflect.TypeOf(sqlast.Text{}),
	"Time":                        reflect.TypeOf(sqlast.Time{}),
	"TimeValue":                   reflect.TypeOf(sqlast.TimeValue{}),
	"Timestamp":                   reflect.TypeOf(sqlast.Timestamp{}),
	"TimestampValue":              reflect.TypeOf(sqlast.TimestampValue{}),
	"UUID":                        reflect.TypeOf(sqlast.UUID{}),
	"UnaryExpr":                   reflect.TypeOf(sqlast.UnaryExpr{}),
	"UnboundedFollowing":          reflect.TypeOf(sqlast.UnboundedFollowing{}),
	"UnboundedPreceding":          reflect.TypeOf(sqlast.UnboundedPreceding{}),
	"UnionOperator":               reflect.TypeOf(sqlast.UnionOperator{}),
	"UniqueColumnSpec":            reflect.TypeOf(sqlast.UniqueColumnSpec{}),
	"UniqueTableConstraint":       reflect.TypeOf(sqlast.UniqueTableConstraint{}),
	"UnnamedSelectItem":           reflect.TypeOf(sqlast.UnnamedSelectItem{}),
	"UpdateStmt":                  reflect.TypeOf(sqlast.UpdateStmt{}),
	"Varbinary":                   reflect.TypeOf(sqlast.Varbinary{}),
	"VarcharType":                 reflect.TypeOf(sqlast.VarcharType{}),
	"Wildcard":                    reflect.TypeOf(sqlast.Wildcard{}),
	"WildcardSelectItem":          reflect.TypeOf(sqlast.WildcardSelectItem{}),
	"WindowFrame":                 reflect.TypeOf(sqlast.WindowFrame{}),
	"WindowFrameUnit":             reflect.TypeOf(sqlast.WindowFrameUnit{}),
	"WindowSpec":                  reflect.TypeOf(sqlast.WindowSpec{}),
}

var enums = map[string]int64{
	"And":        int64(sqlast.And),
	"Divide":     int64(sqlast.Divide),
	"Eq":         int64(sqlast.Eq),
	"FULL":       int64(sqlast.FULL),
	"FULLOUTER":  int64(sqlast.FULLOUTER),
	"GroupsUnit": int64(sqlast.GroupsUnit),
	"Gt":         int64(sqlast.Gt),
	"GtEq":       int64(sqlast.GtEq),
	"IMPLICIT":   int64(sqlast.IMPLICIT),
	"INNER":      int64(sqlast.INNER),
	"LEFT":       int64(sqlast.LEFT),
	"LEFTOUTER":  int64(sqlast.LEFTOUTER),
	"Like":       int64(sqlast.Like),
	"Lt":         int64(sqlast.Lt),
	"LtEq":       int64(sqlast.LtEq),
	"Minus":      int64(sqlast.Minus),
	"Modulus":    int64(sqlast.Modulus),
	"Multiply":   int64(sqlast.Multiply),
	"Not":        int64(sqlast.Not),
	"NotEq":      int64(sqlast.NotEq),
	"NotLike":    int64(sqlast.NotLike),
	"Or":         int64(sqlast.Or),
	"Plus":       int64(sqlast.Plus),
	"RIGHT":      int64(sqlast.RIGHT),
	"RIGHTOUTER": int64(sqlast.RIGHTOUTER),
	"RangeUnit":  int64(sqlast.RangeUnit),
	"RowsUnit":   int64(sqlast.RowsUnit),
}
