COMMON=" All obligations are generated from the SSA form of the current source on every run and discharged for all inputs without bound. Trusted: gover's semantics of Go SSA and of the standard library functions it models, z3, mathematical integers, slices as values."
CLAIMED={
"C01":"For every parse function with a contract it is proved, on an arbitrary token sequence (callees by contract, loops by inferred invariants over ghost predicates), that a result returned without error is a derivation, by the production of its node type in contracts/grammar.spec, of exactly the significant tokens between the position at the call and the position at the return: the node is unfolded field by field and matched with the production token by token (literals, words, optional parts present exactly when their field is set, flags, separated lists, rows, parts in any order), children through the contracts of the functions that made them, lists through loop invariants that say which tokens each prefix of the list derives. ParseSQL's list derives the whole text (statements separated by semicolons), ParseStatement, ParseExpr and ParseDataType their prefix. The productions are those that C08 proves of the printers. Node constructors and the leaves (words, numbers, strings) are verified against the same rules; an input outside the grammar cannot succeed because its tree could not derive it."+COMMON+" Nodes behind a predicate are proved not to change afterwards.",
"C05":"Tokenizer.next is executed symbolically on an arbitrary text (an uninterpreted character sequence of arbitrary length) from an arbitrary position, loops by inferred invariants over ghost range predicates, and every return path is checked against the longest-match rules: kind, value, extent, error exactly for unterminated or illegal text, end of text. Scan, NextToken and Tokenize use next by contract and are proved to return exactly the tokens of the text in order; the constructors, MakeKeyword with its word cache, and every dialect's methods are verified against their own contracts; every loop iteration reads a character."+COMMON+" text/scanner is assumed to deliver the characters of the text.",
"C06":"With recursively defined ghost functions advL/advC (line and column after k characters), next is proved to keep Line, Col == adv(read index) on every path and through every loop; Scan/NextToken are proved to report From = adv(start) and To = adv(end), and a new tokenizer to start at 1,1."+COMMON+" text/scanner is assumed to deliver the characters of the text.",
"C08":"Every WriteTo implementation is executed symbolically on an arbitrary well-formed node and the text it appends (loops by inferred invariants and list comprehensions) is matched against the node's production in contracts/grammar.spec; children are used by contract."+COMMON,
"C09":"Every WriteTo and the writer helpers are verified against the contract n = bytes accepted, err = first error, no write after an error, with ghost counters per destination; ToSQLString is verified to return the text WriteTo emits."+COMMON,
"C10":"Walk is executed symbolically on an arbitrary well-formed node of each of the eighty node types, with an arbitrary visitor; recursive calls are used by contract. Proved per type: one Visit of the node, then Walk once on every non-nil child with the visitor returned (lists by loop invariants and comprehensions, in order), Visit(nil) last, nothing else, no panic. Inspect and its visitor are verified against the same contract."+COMMON+" Visitors are assumed not to modify the tree.",
"C11":"apply is executed symbolically on an arbitrary well-formed node of every type with arbitrary pre and post; the sequence of callback and child applications on every path is compared with the contract (cursor fields seen by pre and post, every non-nil child field once under its own field name, skip, abort, cursor restored). applyList is verified with an inferred loop invariant over a ghost count of original elements; Apply and the cursor's accessors likewise."+COMMON+" package reflect is modelled; callbacks are assumed to edit the tree only through the cursor.",
"C12":"Replace, Delete, InsertBefore and InsertAfter are verified for an arbitrary list, position and iterator state: the list becomes exactly the edited list and index/step keep pointing at the same remaining elements, which is the invariant under which applyList (verified against it for any number of edits per element) visits every original element once; edits a place does not allow are proved to panic with the tree unchanged."+COMMON+" package reflect is modelled (values, element assignment, Copy, Append, SetLen).",
"C14":"Every store of every function reachable from the reading operations (WriteTo, ToSQLString, Pos, End, Walk, Inspect, NewCommentMap and the methods of CommentMap) is shown to go to memory the operation itself allocated or to a writer/comment map, never to a node or a list of the tree (an empty frame on the tree, checked path by path; append and copy only into lists the operation made itself)."+COMMON+" io.Writer and visitor implementations of the user are outside.",
"C13":"The reader functions are executed symbolically in comment mode over an arbitrary token list, with ghost state for the number of comments among the first i tokens, the highest position read, and the groups stored. nextTokenWithParseComment is proved (loops by inferred invariants) to store, when it reads a run of white space and comments for the first time, groups whose comments are exactly those passed, in order, with their own text and positions, each group under the position of its first comment, and to store nothing when the run has been read before; every other reader function is proved to leave the position at the edge of such a run and never beyond what has been read, to read comments through nextTokenWithParseComment only and to leave the map alone. ParseSQL is proved to have read the end of the text when it succeeds; ParseFile to return the values of a complete iteration over the map, sorted by a comparison proved to be the order of positions. A static frame check shows that no other function touches the reader's state; the comment option sets up a new, empty map."+COMMON+" That the lookups in the map find a group exactly at the first comment of a run read before follows from these contracts by induction over the calls (argued in DESIGN.md, not machine-checked); positions of tokens are distinct (C05, C06); a user does not change the tokens in the middle of a parse.",
"C03":"Every function of package xsqlparser that the entry points reach is executed symbolically at an arbitrary position of an arbitrary token sequence (whitespace and comments anywhere, both comment modes), callees by contract, loops by inferred invariants: no nil dereference, failed type assertion, index, slice or map fault, or panic other than the package's own syntax-error value, which every exported entry point is proved to turn into an error; an error comes with a nil result. The tokenizer's functions are proved panic free for every text, and the shape of tokens (value type by kind) that the parser relies on is proved of the tokenizer."+COMMON+" Printing by fmt and xerrors is assumed not to panic; stack exhaustion by deep nesting is outside.",
"C04":"Every loop of the parser has a measure that moves towards a bound on every path through it (the position among the significant tokens, or a counter), every call that could recurse before a token has been read is collected and that call graph is proved acyclic; every loop of the tokenizer reads a character and NextToken always makes progress or ends."+COMMON,
"C07":"The reader functions (nextToken, peekToken, prevToken, consumeToken, parseKeyword(s), expectToken, ...) are proved against contracts over the sequence of significant tokens only: they move between significant tokens whatever whitespace and comment tokens lie between, restore the position after a failed lookahead, and do so in both comment modes. Every parse function is proved to keep to that view: each branch it takes, each value it stores in a node or passes on and each result it returns is a function of the significant tokens, the position among them and its arguments (positions aside), so by induction the outcome is the same for every interleaving and mode; ParseSQL and ParseFile are proved by a script automaton over the same sequence, the constructors to pass all tokens on."+COMMON,
"C02":"At every place where a parse function makes an operator node (binary, unary, IS [NOT] NULL, IN, BETWEEN, ::, set operation) it is proved, for an arbitrary token sequence, that the node's strength is that of its own operator, that every operator open to the right edge of its left operand binds at least as strongly and every operator open to the left edge of its right operand binds more strongly. Operands come with ghost edges (loosest operator on the left and right edge) from the contracts of the parse functions that made them: ParseExpr, parseSubexpr, parseDefaultExpr, parsePrefix, parseInfix and parseQueryBody are verified against contracts that bound the edges of their result by the strength they were called with, and say that the operator that follows is no stronger than they may leave; loops by inferred invariants on the edges; brackets and keyword-delimited constructs have closed edges."+COMMON+" The grouping of the tree only; that the tree is a derivation of the tokens is C01.",
"C15":"Every parse function is executed symbolically on an arbitrary token sequence (callees by contract, loops by invariants); every identifier and literal value node that is reachable from a result, from a value a loop iteration hands on, or from an argument of another parse function is proved to hold the value of one token (the word's spelling, the number or string of the token, TRUE/FALSE/NULL by keyword) and to have exactly that token's From and To in its fields. Pos and End of the eleven leaf types are proved to return those fields, and the constructors to keep the positions of the tokenizer's tokens."+COMMON,
"C16":"parseKeyword, parseKeywords and expectKeyword are proved to compare a token's keyword only: its spelling in upper case, empty for a delimited identifier. Every branch, callee argument, number conversion and stored value of every parse function is proved to depend on words through that keyword only; the spelling (with its quotes) reaches nothing but Ident.Value, which is proved to be the String() of the word of its own token. SQLWord.String, MakeKeyword with its word cache and the parser's constructors (delimited identifiers lose their keyword, nothing else) are verified against their contracts."+COMMON+" Letter case is that of strings.ToUpper; it is assumed to agree with strings.EqualFold on the words compared (true of ASCII).",
"C17":"ParseSQL is executed symbolically on an arbitrary token sequence with ParseStatement by contract; on every return the statements parsed and the semicolons read are proved to be exactly a word of statement (';' statement)* [';'] that ends at the end of the text, the list returned holds exactly the results of those ParseStatement calls in order, and every other path returns an error that is justified (a part at whose start ParseStatement fails, or something else than a semicolon after a part). Every parse function is proved never to end behind a semicolon when it succeeds (locality obligations, callees by contract, loops by invariants), so no statement takes in a part of its neighbour, and its outcome to be a function of the significant tokens from its start on (dependence obligations)."+COMMON+" Not proved: that a parse function's outcome does not depend on the tokens behind its last one by reading ahead past a semicolon.",
}
NA={}
