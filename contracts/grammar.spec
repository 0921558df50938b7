# SQL grammar of the node types of package sqlast, over their fields.
#
#   'X'            the token X (words in any letter case)
#   .F             the child node in field F
#   list(.F ',')   the elements of F in order, separated by the token (at least one)
#   list0(.F ',')  the same, possibly none
#   ?c {A} : {B}   A if c, else B; c is a boolean field, nn .F (F set), len .F (F non-empty),
#                  .F=Const, optionally negated with !
#   {A | B}        alternative spellings of the same thing;  ~{A}  an optional noise part
#   id(.F) int(.F) num(.F) str(.F) nstr(.F) raw(.F)   a token carrying the value of F
#   list(.F ','?)  the separator may be left out in a text to be parsed
#   any{A | B}     A then B when printed; in a text to be parsed the parts, and the elements of
#                  lists without a separator in them, may come in any order
#   rows(.A .B){..} for each index, the body with .1 = A[i], .2 = B[i]

# queries
QueryStmt : ?len .CTEs {'WITH' list(.CTEs ',')} .Body ?len .OrderBy {'ORDER' 'BY' list(.OrderBy ',')} ?nn .Limit {.Limit}
CTE : .Alias 'AS' '(' .Query ')'
SelectExpr : .Select
QueryExpr : '(' .Query ')'
SetOperationExpr : .Left .Op ?.All {'ALL'} .Right
UnionOperator : 'UNION'
ExceptOperator : 'EXCEPT'
IntersectOperator : 'INTERSECT'
SQLSelect : 'SELECT' ?.Distinct {'DISTINCT'} : {~{'ALL'}} list(.Projection ',')
  ?len .FromClause {'FROM' list(.FromClause ',')}
  ?nn .WhereClause {'WHERE' .WhereClause}
  ?len .GroupByClause {'GROUP' 'BY' list(.GroupByClause ',')}
  ?nn .HavingClause {'HAVING' .HavingClause}
UnnamedSelectItem : .Node
AliasSelectItem : .Expr ~{'AS'} .Alias
QualifiedWildcardSelectItem : .Prefix '.' '*'
WildcardSelectItem : '*'
Table : .Name ?len .Args {'(' list(.Args ',') ')'} : {~{'(' ')'}} ?nn .Alias {~{'AS'} .Alias} ?len .WithHints {'WITH' '(' list(.WithHints ',') ')'}
Derived : ?.Lateral {'LATERAL'} '(' .SubQuery ')' ?nn .Alias {~{'AS'} .Alias}
CrossJoin : .Reference 'CROSS' 'JOIN' .Factor
TableJoinElement : .Ref
PartitionedJoinTable : .Factor 'PARTITION' 'BY' '(' list(.ColumnList ',') ')'
QualifiedJoin : .LeftElement .Type 'JOIN' .RightElement .Spec
NaturalJoin : .LeftElement 'NATURAL' .Type 'JOIN' .RightElement
NamedColumnsJoin : 'USING' '(' list(.ColumnList ',') ')'
JoinCondition : 'ON' .SearchCondition
JoinType : ?.Condition=INNER {'INNER'} ?.Condition=LEFT {'LEFT'} ?.Condition=RIGHT {'RIGHT'} ?.Condition=FULL {'FULL'}
  ?.Condition=LEFTOUTER {'LEFT' 'OUTER'} ?.Condition=RIGHTOUTER {'RIGHT' 'OUTER'} ?.Condition=FULLOUTER {'FULL' 'OUTER'} ?.Condition=IMPLICIT {}
OrderByExpr : .Expr ?nn .ASC { ?*.ASC {'ASC'} : {'DESC'} }
LimitExpr : 'LIMIT' ?.All {'ALL'} : {.LimitValue} ?nn .OffsetValue {'OFFSET' .OffsetValue}
File : list(.Stmts ';')

# expressions
Ident : id(.Value)
Wildcard : '*'
QualifiedWildcard : list(.Idents '.') '.' '*'
CompoundIdent : list(.Idents '.')
ObjectName : list(.Idents '.')
IsNull : .X 'IS' 'NULL'
IsNotNull : .X 'IS' 'NOT' 'NULL'
InList : .Expr ?.Negated {'NOT'} 'IN' '(' list(.List ',') ')'
InSubQuery : .Expr ?.Negated {'NOT'} 'IN' '(' .SubQuery ')'
Between : .Expr ?.Negated {'NOT'} 'BETWEEN' .Low 'AND' .High
BinaryExpr : .Left .Op .Right
Cast : {'CAST' '(' .Expr 'AS' .DataType ')' | .Expr '::' .DataType}
Nested : '(' .AST ')'
UnaryExpr : .Op .Expr
Function : .Name '(' list0(.Args ',') ')' ?nn .Over {'OVER' '(' .Over ')'}
CaseExpr : 'CASE' ?nn .Operand {.Operand} rows(.Conditions .Results){'WHEN' .1 'THEN' .2} ?nn .ElseResult {'ELSE' .ElseResult} 'END'
Exists : ?.Negated {'NOT'} 'EXISTS' '(' .Query ')'
SubQuery : '(' .Query ')'
WindowSpec : ?len .PartitionBy {'PARTITION' 'BY' list(.PartitionBy ',')} ?len .OrderBy {'ORDER' 'BY' list(.OrderBy ',')} ?nn .WindowsFrame {.WindowsFrame}
WindowFrame : .Units ?nn .EndBound {'BETWEEN' .StartBound 'AND' .EndBound} : {.StartBound}
WindowFrameUnit : ?.Type=RowsUnit {'ROWS'} ?.Type=RangeUnit {'RANGE'} ?.Type=GroupsUnit {'GROUPS'}
CurrentRow : 'CURRENT' 'ROW'
UnboundedPreceding : 'UNBOUNDED' 'PRECEDING'
UnboundedFollowing : 'UNBOUNDED' 'FOLLOWING'
Preceding : int(*.Bound) 'PRECEDING'
Following : int(*.Bound) 'FOLLOWING'
Operator : ?.Type=Plus {'+'} ?.Type=Minus {'-'} ?.Type=Multiply {'*'} ?.Type=Divide {'/'} ?.Type=Modulus {'%'}
  ?.Type=Gt {'>'} ?.Type=Lt {'<'} ?.Type=GtEq {'>='} ?.Type=LtEq {'<='} ?.Type=Eq {'='} ?.Type=NotEq {{'!=' | '<>'}}
  ?.Type=And {'AND'} ?.Type=Or {'OR'} ?.Type=Not {'NOT'} ?.Type=Like {'LIKE'} ?.Type=NotLike {'NOT' 'LIKE'}

# values
LongValue : int(.Long)
DoubleValue : num(.Double)
SingleQuotedString : str(.String)
NationalStringLiteral : nstr(.String)
BooleanValue : ?.Boolean {'TRUE'} : {'FALSE'}
DateValue @noparse : date(.Date)
TimeValue @noparse : time(.Time)
DateTimeValue @noparse : datetime(.DateTime)
TimestampValue @noparse : datetime(.Timestamp)
NullValue : 'NULL'

# statements
InsertStmt : 'INSERT' 'INTO' .TableName ?len .Columns {'(' list(.Columns ',') ')'} .Source
  ?len .UpdateAssignments {'ON' 'DUPLICATE' 'KEY' 'UPDATE' list(.UpdateAssignments ',')}
SubQuerySource : .SubQuery
ConstructorSource : 'VALUES' list(.Rows ',')
RowValueExpr : '(' list(.Values ',') ')'
UpdateStmt : 'UPDATE' .TableName 'SET' list(.Assignments ',') ?nn .Selection {'WHERE' .Selection}
DeleteStmt : 'DELETE' 'FROM' .TableName ?nn .Selection {'WHERE' .Selection}
CreateViewStmt : 'CREATE' ?.Materialized {'MATERIALIZED'} 'VIEW' .Name 'AS' .Query
CreateTableStmt : 'CREATE' 'TABLE' ?.NotExists {'IF' 'NOT' 'EXISTS'} .Name ?len .Elements {'(' list(.Elements ',') ')'} list0(.Options ','?)
Assignment : .ID '=' .Value
TableConstraint : ?nn .Name {'CONSTRAINT' .Name} .Spec
UniqueTableConstraint : ?.IsPrimary {'PRIMARY' 'KEY'} : {'UNIQUE' ~{'KEY'}} '(' list(.Columns ',') ')'
ReferentialTableConstraint : 'FOREIGN' 'KEY' '(' list(.Columns ',') ')' 'REFERENCES' .KeyExpr
ReferenceKeyExpr : .TableName '(' list(.Columns ',') ')'
CheckTableConstraint : 'CHECK' '(' .Expr ')'
ColumnDef : .Name .DataType any{ ?nn .Default {'DEFAULT' .Default} | list0(.MyDataTypeDecoration) | list0(.Constraints) }
AutoIncrement : 'AUTO_INCREMENT'
ColumnConstraint : ?nn .Name {'CONSTRAINT' .Name} .Spec
NotNullColumnSpec : 'NOT' 'NULL'
UniqueColumnSpec : ?.IsPrimaryKey {'PRIMARY' 'KEY'} : {'UNIQUE'}
ReferencesColumnSpec : 'REFERENCES' .TableName '(' list(.Columns ',') ')'
CheckColumnSpec : 'CHECK' '(' .Expr ')'
AlterTableStmt : 'ALTER' 'TABLE' .TableName .Action
AddColumnTableAction : 'ADD' 'COLUMN' .Column
AlterColumnTableAction : 'ALTER' 'COLUMN' .ColumnName .Action
SetDefaultColumnAction : 'SET' 'DEFAULT' .Default
DropDefaultColumnAction : 'DROP' 'DEFAULT'
PGAlterDataTypeColumnAction : 'TYPE' .DataType
PGSetNotNullColumnAction : 'SET' 'NOT' 'NULL'
PGDropNotNullColumnAction : 'DROP' 'NOT' 'NULL'
RemoveColumnTableAction : 'DROP' 'COLUMN' .Name ?.Cascade {'CASCADE'}
AddConstraintTableAction : 'ADD' .Constraint
DropConstraintTableAction : 'DROP' 'CONSTRAINT' .Name ?.Cascade {'CASCADE'}
DropTableStmt : 'DROP' 'TABLE' ?.IfExists {'IF' 'EXISTS'} list(.TableNames ',') ?.Cascade {'CASCADE'}
CreateIndexStmt : 'CREATE' ?.IsUnique {'UNIQUE'} 'INDEX' ?nn .IndexName {.IndexName} 'ON' .TableName ?nn .MethodName {'USING' .MethodName}
  ?len .ColumnNames {'(' list(.ColumnNames ',') ')'} ?nn .Selection {'WHERE' .Selection}
DropIndexStmt : 'DROP' 'INDEX' list(.IndexNames ',')
ExplainStmt : 'EXPLAIN' .Stmt
MyEngine : 'ENGINE' ?.Equal {'='} .Name
MyCharset : ?.IsDefault {'DEFAULT'} 'CHARSET' ?.Equal {'='} .Name

# data types
CharType : {'CHAR' | 'CHARACTER'} ?nn .Size {'(' int(*.Size) ')'}
VarcharType : {'CHARACTER' 'VARYING' | 'CHAR' 'VARYING' | 'VARCHAR'} ?nn .Size {'(' int(*.Size) ')'}
UUID : 'UUID'
Clob : 'CLOB' '(' int(.Size) ')'
Binary : 'BINARY' '(' int(.Size) ')'
Varbinary : 'VARBINARY' '(' int(.Size) ')'
Blob : 'BLOB' '(' int(.Size) ')'
Decimal : {'NUMERIC' | 'DECIMAL'} ?nn .Precision {'(' int(*.Precision) ?nn .Scale {',' int(*.Scale)} ')'} ?.IsUnsigned {'UNSIGNED'}
Float : 'FLOAT' ?nn .Size {'(' int(*.Size) ')'} ?.IsUnsigned {'UNSIGNED'}
SmallInt : 'SMALLINT' ?.IsUnsigned {'UNSIGNED'}
Int : {'INT' | 'INTEGER'} ?.IsUnsigned {'UNSIGNED'}
BigInt : 'BIGINT' ?.IsUnsigned {'UNSIGNED'}
Real : 'REAL' ?.IsUnsigned {'UNSIGNED'}
Double : 'DOUBLE' 'PRECISION'
Boolean : 'BOOLEAN'
Date : 'DATE'
Time : 'TIME' ?.WithTimeZone {'WITH' 'TIME' 'ZONE'} : {~{'WITHOUT' 'TIME' 'ZONE'}}
Timestamp : 'TIMESTAMP' ?.WithTimeZone {'WITH' 'TIME' 'ZONE'} : {~{'WITHOUT' 'TIME' 'ZONE'}}
Regclass : 'REGCLASS'
Text : 'TEXT'
Bytea : 'BYTEA'
Array : .Ty '[' ']'
Custom : .Ty

# comments and COPY data: text in which line ends and tabs count
Comment @noparse @comment @raw : raw(.Text)
CommentGroup @noparse @comment @raw : list(.List '\n')
CopyStmt @noparse @raw : 'COPY' .TableName ?len .Columns {'(' list(.Columns ',') ')'} 'FROM' 'STDIN' ';'
  ?len .Values {'\n' rows(.Values '\t'){ ?nn .1 {raw(*.1)} : {'\\N'} }} '\n' '\\.'
