#!/usr/bin/env python3
# Writes /verif/properties.jsonl. Keep in step with MANIFEST.json.
import json
P=[]
def p(id,title,st,over,qtext,why,files,mech,obs,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","A successful parse accounts for exactly the tokens it consumed",
 "When parsing a statement, a statement list, an expression or a data type succeeds, the returned tree is a derivation, in the SQL grammar of its own node types, of exactly the significant tokens that were consumed: every clause, name, literal value, operator, flag and list element of the text appears in the tree once, in its own role and in source order, and nothing appears that the text does not contain. Input outside that grammar is reported as an error, never accepted with a part skipped, replaced or reassigned.",
 ["inputs"],"every token sequence, of any length and nesting depth, in either comment mode",
 "The parser tests compare about a hundred fixed statements with hand-written trees; the claim is about every accepted token sequence and every combination of optional clauses.",
 ["parser.go"],[("recursive-descent parse functions","parser.go:ParseStatement..parseExistsExpression"),("token cursor","parser.go:nextToken/prevToken/peekToken")],
 ["Parser.ParseSQL","Parser.ParseStatement","Parser.ParseExpr","Parser.ParseDataType"],
 [("Parser.index","position of the next unread token","parser.go")])
p("C02","Operators group by precedence and to the left",
 "A parsed expression groups operators by binding strength: OR is loosest, then AND, NOT, IS, then comparisons with IN, BETWEEN and LIKE (negated or not), then binary and unary + and -, then * / %, and :: is tightest; operators of equal strength group to the left and parentheses or other brackets override. UNION and EXCEPT bind looser than INTERSECT, and set operations of equal strength group to the left.",
 ["inputs"],"every expression and every chain of set operations, of any length and nesting",
 "Tests fix a few two-operator expressions; the claim ranges over all operator pairs in all nestings.",
 ["parser.go"],[("precedence climbing","parser.go:parseSubexpr/parseInfix/parsePrefix/getPrecedence"),("set operation climbing","parser.go:parseQueryBody")],
 ["Parser.ParseExpr","Parser.ParseStatement"])
p("C03","No SQL text makes tokenizing or parsing panic",
 "For every input text, every supported dialect and both comment modes, tokenizing and every parsing entry point return normally: malformed, truncated or unsupported input yields a non-nil error together with a nil result, and never a panic.",
 ["inputs"],"every input text, including every truncation of a valid statement",
 "Tests feed almost only well-formed SQL; the claim is about all the malformed texts.",
 ["parser.go","sqltoken/tokenizer.go"],[("error returns and the syntax-error recovery at the entry points","parser.go"),("end-of-input handling","parser.go:peekToken/nextToken")],
 ["NewParser","Parser.ParseSQL","Parser.ParseFile","Parser.ParseStatement","Parser.ParseExpr","Parser.ParseDataType"])
p("C04","Tokenizing and parsing always terminate",
 "For every finite input, tokenizing and parsing finish: each step of every loop consumes input or leaves the loop, and each recursive descent consumes at least one token before it can recurse on the same construct.",
 ["inputs"],"every finite input text, including unterminated literals, identifiers and comments",
 "A test only shows that the sampled inputs finish.",
 ["parser.go","sqltoken/tokenizer.go"],[("scanner loops","sqltoken/tokenizer.go"),("parser loops","parser.go")],
 ["Tokenizer.Tokenize","Parser.ParseSQL"])
p("C05","The tokenizer classifies and preserves every character",
 "For every input text the tokenizer produces the tokens of longest match: each token's kind and value are those of its own characters (words with their spelling and quote style, numbers, string literals with doubled quotes undone, operators, whitespace, comments with their text), and the tokens together cover the whole input in order, without loss, duplication or overlap. Identifiers follow the dialect's character rules. An unterminated literal, delimited identifier or comment, or a ! that is not part of !=, is reported as an error; a character that starts no other token is a token of its own, and every line break outside other tokens (LF, CR LF or a lone CR) is one whitespace token.",
 ["inputs"],"every input text, in each supported dialect",
 "Tests tokenize some thirty short strings; token boundaries depend on every pair of adjacent characters.",
 ["sqltoken/tokenizer.go","dialect"],[("scanner","sqltoken/tokenizer.go:next and tokenize* functions"),("identifier rules","dialect/*.go")],
 ["Tokenizer.NextToken","Tokenizer.Tokenize","Tokenizer.Scan"])
p("C06","Token positions are contiguous and exact",
 "The first token starts at line 1, column 1, every token starts exactly where the previous one ends, and a token's end is its start advanced over the characters it was read from: a line break (LF, CR LF or a lone CR, also inside a literal, delimited identifier or comment) moves to column 1 of the next line, a tab advances four columns and every other character one.",
 ["inputs"],"every input text",
 "Tests compare positions of single-line ASCII samples.",
 ["sqltoken/tokenizer.go"],[("line and column bookkeeping","sqltoken/tokenizer.go")],["Token.From","Token.To"],
 [("Tokenizer.Line, Tokenizer.Col","position of the next character","sqltoken/tokenizer.go")])
p("C07","Whitespace and comments between tokens never change the parse",
 "Inserting, removing or replacing whitespace and comments between tokens, and switching comment collection on or off, never changes whether a text is accepted or the tree it yields apart from positions. In particular looking ahead, stepping back and failed multi-word lookahead leave the reader at the same significant token as before.",
 ["inputs"],"every token sequence with any interleaving of whitespace and comment tokens, in both comment modes",
 "Tests use one fixed layout per statement.",
 ["parser.go"],[("token cursor","parser.go:nextToken/nextTokenWithParseComment/prevToken/peekToken/tilNonWhitespace/parseKeywords")],["Parser.ParseSQL","Parser.ParseFile"],
 [("Parser.index","position of the next unread token","parser.go")])
p("C08","Printing renders every tree as the SQL it stands for",
 "For every well-formed tree, the text printed for each node is a derivation of that node in the SQL grammar: each child is printed once, in its own role and in list order, together with exactly the keywords, operators and punctuation that the node's own fields call for, and with separators that keep neighbouring words, numbers and operators apart. Optional parts are printed exactly when they are present.",
 ["inputs"],"every well-formed tree, of any size, including trees built by hand",
 "The printing tests compare about fifty trees; every combination of optional parts and every list length must print correctly.",
 ["sqlast/*.go"],[("WriteTo of every node type","sqlast/ast.go, query.go, stmt.go, type.go, value.go, table_option.go"),("writer","sqlast/writer.go")],["Node.WriteTo","Node.ToSQLString"])
p("C09","WriteTo reports exactly what it wrote and stops at the first error",
 "For every node and every destination, WriteTo returns the number of bytes the destination accepted and the first error the destination reported (nil if none), and writes nothing to the destination after an error. ToSQLString returns exactly the text that WriteTo writes.",
 ["inputs","fault_sequences"],"every tree and every destination, failing or writing short at any point",
 "Tests write only to destinations that never fail.",
 ["sqlast/writer.go","sqlast/*.go"],[("sticky error and byte count","sqlast/writer.go:sqlWriter"),("WriteTo methods","sqlast/*.go")],["Node.WriteTo","Node.ToSQLString"],
 [("sqlWriter.n / sqlWriter.err","bytes accepted and first error","sqlast/writer.go")])
p("C10","Walk visits every node of the tree exactly once, parents first",
 "For every well-formed tree (a File's comments aside), Walk calls the visitor's Visit for a node and then, with the visitor that call returned, walks every non-nil child node of that node exactly once, list elements in list order; if the returned visitor is nil it visits nothing below that node. Inspect calls its function the same way, descending exactly when the function returns true, and neither ever panics on a well-formed tree.",
 ["inputs"],"every well-formed tree and every visitor",
 "Tests walk a few trees; each of the eighty node types has its own child list that could miss one.",
 ["sqlast/walk.go"],[("Walk","sqlast/walk.go"),("Inspect","sqlast/walk.go")],["sqlast.Walk","sqlast.Inspect"])
p("C11","Apply traverses every child once under its true field name",
 "For every well-formed tree (a File's comments aside), Apply calls pre for each node before its children and post after them, visiting every non-nil child node exactly once and list elements in list order; when pre returns false the children and post of that node are skipped, and when post returns false the traversal stops. At every call the cursor's node, parent, field name and index identify the place the node really occupies: the parent's field of that name (element index of it, for a list) holds the node.",
 ["inputs"],"every well-formed tree and every pair of pre and post functions",
 "Tests rewrite identifiers in a few SELECT statements.",
 ["sqlastutil/rewrite.go"],[("apply and applyList","sqlastutil/rewrite.go")],["sqlastutil.Apply","Cursor.Node/Parent/Name/Index"])
p("C12","Cursor edits change exactly the addressed position",
 "Replace puts the given node at the cursor's place and changes nothing else; Delete, InsertBefore and InsertAfter on a list element remove exactly that element, or insert exactly the given node next to it, keeping all other elements and their order. While one element is visited any number of replacements and insertions may be made there, and at most one deletion as the last edit there; the traversal still visits every original element of the list exactly once and in order, does not walk inserted elements, and an edit that the place does not allow (a list edit outside a list, a node of the wrong type) panics without changing the tree.",
 ["inputs","histories"],"every list length, every position and every sequence of edits made during one traversal",
 "Tests make single replacements and one insertion.",
 ["sqlastutil/rewrite.go"],[("Cursor.Replace/Delete/InsertBefore/InsertAfter","sqlastutil/rewrite.go"),("iterator step","sqlastutil/rewrite.go:applyList")],["sqlastutil.Apply","sqlastutil.Cursor"],
 [("iterator.index / iterator.step","next element to visit","sqlastutil/rewrite.go")])
p("C13","ParseFile returns every comment exactly once, in source order",
 "When ParseFile with comment collection succeeds, the comment groups it returns contain every comment of the text exactly once, with its own text and positions, groups and the comments in them ordered as in the source.",
 ["inputs"],"every accepted text and every placement of comments in it",
 "Tests place comments at a handful of positions; backtracking re-reads comments at many others.",
 ["parser.go","sqlast/comment.go"],[("nextTokenWithParseComment","parser.go"),("ParseFile sorting","parser.go")],["Parser.ParseFile"],
 [("Parser.comments","groups keyed by position","parser.go")])
p("C14","Reading operations leave the tree unchanged",
 "Printing a tree, asking any node for its text or positions, walking it with Walk or Inspect, and building a comment map never modify any node of the tree or any list it holds.",
 ["inputs"],"every tree, every operation",
 "Tests do not compare trees before and after; the claim is a frame condition over all code paths.",
 ["sqlast/*.go"],[("WriteTo/ToSQLString/Pos/End methods","sqlast/*.go"),("Walk","sqlast/walk.go")],["Node.WriteTo","Node.Pos","Node.End","sqlast.Walk","sqlast.NewCommentMap"])
p("C15","Names and literals carry the position of their own token",
 "In every tree produced by parsing, each identifier and each literal value node reports as its start and end exactly the start and end of the token it was made from.",
 ["inputs"],"every accepted text",
 "Tests check positions for a few statements.",
 ["parser.go","sqlast/ast.go","sqlast/value.go"],[("From/To copied from tokens","parser.go"),("Pos/End of Ident and value nodes","sqlast/ast.go, sqlast/value.go")],["Node.Pos","Node.End"])
p("C16","Keywords match in any letter case, delimited identifiers never do",
 "Changing the letter case of keywords in a text never changes whether it is accepted or the shape of the tree; and a delimited identifier is always read as a name, never as a keyword, whatever its spelling, and keeps its quotes and exact spelling in the tree.",
 ["inputs"],"every accepted text, every keyword position and every identifier spelling",
 "Tests use upper-case keywords almost everywhere and no delimited identifier spelled like a keyword inside a statement.",
 ["parser.go","sqltoken/tokenizer.go"],[("MakeKeyword","sqltoken/tokenizer.go"),("parseKeyword","parser.go")],["Parser.ParseSQL"])
p("C17","A script is split into its statements exactly",
 "ParseSQL succeeds exactly when the text is a sequence of statements separated by single semicolons, with an optional final semicolon, and then returns one statement per separated part, in order, each equal to what parsing that part alone yields. Anything left over after a statement is an error.",
 ["inputs"],"every number of statements and every separator layout",
 "Tests parse scripts of one or two statements.",
 ["parser.go"],[("ParseSQL loop","parser.go:ParseSQL")],["Parser.ParseSQL","Parser.ParseFile"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
