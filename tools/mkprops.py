#!/usr/bin/env python3
"""Writes properties.jsonl (kept as Python so that it stays readable)."""
import json, os
EX="treeno/expression.py"; RE="treeno/relation.py"; CO="treeno/builder/convert.py"; UT="treeno/util.py"; BA="treeno/base.py"
PR="treeno/printer.py"; WI="treeno/window.py"; OR="treeno/orderby.py"; GR="treeno/groupby.py"; VI="treeno/visitor.py"; CL="treeno/cli.py"
FB="treeno/functions/base.py"; FA="treeno/functions/aggregate.py"; FC="treeno/functions/common.py"; FK="treeno/functions/conditional.py"
FD="treeno/functions/datetime.py"; FS="treeno/functions/string.py"; FM="treeno/functions/math.py"; FE="treeno/functions/session.py"
DT="treeno/datatypes/types.py"; DB="treeno/datatypes/builder.py"; DC="treeno/datatypes/conversions.py"; DI="treeno/datatypes/inference.py"; DR="treeno/datatypes/resolve.py"
PA="treeno/grammar/parse.py"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],"observe_at":list(observe),"hook_needed":None}})

p("C01","A printed expression reads back as the same expression",
 "For every expression tree, printing it as SQL in either print mode and reading that SQL back gives an expression equal to the original: the same operators and constructs, nested the same way, in the same positions, with the same leaves. Parentheses are printed wherever leaving them out would change how the operands group, for every combination of operators, predicates, negations, subscripts, casts, CASE, rows, arrays, lambdas and subqueries.",
 ["inputs","programs"],"for every expression tree of the supported node kinds and every name, string and number at its leaves, in both print modes",
 "The suite prints and reads a few dozen fixed expressions; grouping depends on every (parent, position, child) combination of node kinds and on signs of literals, which examples do not cover.",
 [EX,CO,UT,PA],[("precedence-driven parenthesising of operands","treeno/expression.py: pemdas_str, primary_str, builtin_binary_str, builtin_unary_str"),("per-node printing","treeno/expression.py: *.sql"),("parse tree conversion","treeno/builder/convert.py: ConvertVisitor.visit*")],
 [("operator precedence table","relative binding strength of every operator","treeno/expression.py: OPERATOR_PRECEDENCE")],["Sql.sql(PrintOptions)","expression_from_sql"])
p("C02","Strings and identifiers survive printing and reading with any characters",
 "Whatever characters a string value or an identifier contains (quotes, backslashes, comment markers, line breaks, non-ASCII, keywords), the SQL printed for it reads back as exactly that string in exactly that place, and the text around it is read unchanged. Reading a quoted string, quoted identifier or unicode string literal from SQL yields exactly the characters the SQL denotes.",
 ["inputs"],"for every sequence of Unicode characters up to the length bound, in every place where strings and identifiers are printed (literals, fields, tables, aliases, column lists, windows, functions, types, LISTAGG, LIKE)",
 "Tests use a handful of plain ASCII words; the claim is about every character and about interactions such as an embedded or trailing quote.",
 [UT,EX,RE,CO,PR,WI,FA,DT],[("literal quoting","treeno/util.py: quote_literal"),("identifier quoting","treeno/util.py: quote_identifier, chain_identifiers"),("unquoting while reading","treeno/builder/convert.py: visitQuotedIdentifier, visitBasicStringLiteral, visitUnicodeStringLiteral, visitUnquotedIdentifier"),("indentation of multi-line text","treeno/printer.py: pad")],[],["Sql.sql","expression_from_sql","query_from_sql"])
p("C03","Number literals keep their exact value and type",
 "Printing an integer, decimal, floating-point or boolean literal and reading it back gives a literal with exactly the same value, sign and scale, and every number spelled in SQL (integer, decimal with any leading, trailing or missing digits, exponent) is read as the value it denotes. The type given to a literal is INTEGER for the integers of 32 bits and BIGINT beyond, the decimal with exactly the needed precision and scale, and DOUBLE for floating point.",
 ["inputs"],"for all integers in the bigint range, all decimals with bounded digit counts and exponents (all digits symbolic), all spellings of numbers up to the length bound",
 "Boundaries of the integer types and precision/scale computation hold over a huge value space of which tests sample a few points.",
 [EX,DI,CO],[("type inference of constants","treeno/datatypes/inference.py: infer_type, infer_integral, infer_decimal"),("literal printing","treeno/expression.py: Literal.sql"),("number reading","treeno/builder/convert.py: visitDecimalLiteral, visitDoubleLiteral, visitIntegerLiteral, visitNumericLiteral")],[],["Literal.data_type","expression_from_sql"])
p("C04","Every clause of a printed query reads back unchanged",
 "For every SELECT, set operation, VALUES, TABLE and WITH query, printing and reading back gives an equal query: the select list and its aliases, DISTINCT or ALL, FROM, WHERE, GROUP BY, HAVING, WINDOW, ORDER BY, OFFSET and LIMIT values (zero included) and named subqueries are all present with their own contents. Nested set operations keep their grouping and each operand keeps the clauses that belong to it.",
 ["inputs","programs"],"for every combination of present and absent clauses, every set-operation nesting up to the bound, and symbolic OFFSET/LIMIT values and names, in both print modes",
 "Clauses interact (which query an ORDER BY or LIMIT attaches to, optional clauses that are falsy); there are thousands of combinations and tests fix a few.",
 [RE,CO,PR],[("clause assembly","treeno/relation.py: SelectQuery.sql, SetQuery._to_string, Query._with_query_string_builder, Query._constraint_string_builder"),("clause reading","treeno/builder/convert.py: visitQuery, visitQueryNoWith, visitQuerySpecification, visitSetOperation")],[],["Query.sql","query_from_sql"])
p("C05","Every printed FROM clause reads back unchanged",
 "For every tree of tables, aliases with column lists, subqueries, joins of every type with ON, USING or NATURAL, UNNEST with or without ordinality, LATERAL and TABLESAMPLE, printing and reading back gives an equal tree. Joins keep their grouping and side, and qualified table names keep every part in its own place.",
 ["inputs","programs"],"for every relation tree up to the depth bound with symbolic names, in both print modes",
 "Join grouping and the parentheses of nested relations depend on (parent, side, child) combinations that tests sample sparsely.",
 [RE,CO],[("relation nesting","treeno/relation.py: relation_string, Join.sql, AliasedRelation.sql, TableSample.sql, Unnest.sql, Lateral.sql"),("join criteria","treeno/relation.py: JoinConfig.sql, JoinCriteria.build_sql"),("relation reading","treeno/builder/convert.py: visitRelation, visitSampledRelation, visitAliasedRelation, visitUnnest")],[],["Relation.sql","query_from_sql"])
p("C06","Every function call reads back with the same function and arguments",
 "For every supported function, the printed call reads back as a call of the same function with every argument in the same position, optional arguments present exactly when given, and for aggregates the same ORDER BY, FILTER, OVER and null treatment. The function name is accepted in any letter case, and a call with an impossible number of arguments or to an unknown function is rejected rather than misread.",
 ["inputs","programs"],"for every registered function, every presence pattern of its optional arguments and aggregate clauses, symbolic argument leaves and symbolic letter case of the name",
 "About 110 functions with optional arguments and clauses each; a swapped or dropped argument shows only if that pattern of that function is exercised.",
 [FB,FA,FC,FK,FD,FS,FM,FE,CO],[("function registry","treeno/functions/base.py: Function.__init_subclass__, from_args"),("aggregate clauses","treeno/functions/aggregate.py: AggregateFunction.to_string, get_constraint_string"),("call reading","treeno/builder/convert.py: visitFunctionCall, visitSpecialDateTimeFunction, visitNormalize")],
 [("function name table","maps SQL names to node classes","treeno/functions/base.py: NAMES_TO_FUNCTIONS")],["Function.sql","expression_from_sql"])
p("C07","Windows, frames and ordering read back unchanged",
 "For every window specification (parent window, partitioning, ordering, frame unit, start and end bound) and every ordering term (direction, null placement), printing and reading back gives an equal specification. Clauses left out in SQL are read as the documented defaults.",
 ["inputs","programs"],"for every frame unit x start bound x end bound x partition/order/parent presence, and every direction x null placement, with symbolic offsets and names",
 "The combination space of frame units and bounds is large, and defaults hide dropped clauses.",
 [WI,OR,CO,FA],[("window printing","treeno/window.py: Window.sql, *FrameBound.sql"),("order term printing","treeno/orderby.py: OrderTerm.sql"),("reading","treeno/builder/convert.py: visitWindowSpecification, visitWindowFrame, visitBoundedFrame, visitSortItem, visitOver")],[],["Window.sql","OrderTerm.sql"])
p("C08","GROUP BY structures read back unchanged",
 "For every GROUP BY of plain expressions, grouping sets (empty, single, several columns), GROUPING SETS, CUBE and ROLLUP lists, with ALL or DISTINCT, printing and reading back gives an equal structure. Which columns belong to which set is never changed.",
 ["inputs","programs"],"for all lists of grouping elements up to the length bound with symbolic columns",
 "Parentheses distinguish a set of two columns from two sets of one; only particular shapes expose an error.",
 [GR,CO],[("group printing","treeno/groupby.py: GroupingSet.sql, GroupingSetList.sql, Cube.sql, Rollup.sql, GroupBy.sql"),("group reading","treeno/builder/convert.py: visitGroupBy, visitSingleGroupingSet, visitRollup, visitCube, visitMultipleGroupingSets")],[],["GroupBy.sql"])
p("C09","Data types print, read and validate exactly",
 "For every data type with legal parameters, printing and reading it back gives an equal type: precision, scale, length, time zone flag, element types and interval fields are all preserved at every nesting depth, with omitted parameters read as the documented defaults. Illegal parameters (decimal precision outside 0..38, time or timestamp precision outside 0..12, negative scales and lengths, missing, surplus or ill-typed parameters such as a boolean where a number is due, rows without fields, wrong interval fields, unknown type names) are rejected when the type is built.",
 ["inputs","programs"],"for all type constructors nested up to the depth bound, and all integer parameter values in a range well beyond the legal one",
 "Validity ranges are numeric intervals and the printed forms (WITH TIME ZONE placed around the precision, nested rows) have many combinations.",
 [DT,DB,CO],[("parameter validation","treeno/datatypes/types.py: DataType.__attrs_post_init__, validate_*"),("type printing","treeno/datatypes/types.py: DataType.sql, emit_*"),("type reading","treeno/builder/convert.py: visitType_, visitGenericType, visitDateTimeType, visitIntervalType, visitRowType, visitLegacyArrayType")],[],["DataType.sql","type_from_sql"])
p("C10","The common type of two types is a consistent least upper bound",
 "The common supertype does not depend on the order of the two types, is the type itself for equal types and the other type when one is unknown, and is wide enough: for numbers, strings, times, timestamps, intervals, arrays, maps and rows every value of both types fits (precision, scale, length and time zone included) within the limits of the type system. Types with no common supertype are rejected or reported as unknown, never given one.",
 ["inputs"],"for all pairs (and triples for associativity on the integer ladder) of types with symbolic precision, scale, length and nesting up to the bound",
 "It is an algebraic law over all pairs of parametric types; tests check a few pairs in one order.",
 [DC,DI],[("supertype computation","treeno/datatypes/conversions.py: common_supertype and common_*"),("arithmetic result","treeno/datatypes/conversions.py: get_arithmetic_type")],[],["common_supertype"])
p("C11","Inferred expression types follow the operand types",
 "The data type an expression reports follows from its construct and its operands' types: comparisons, predicates and logical connectives are boolean, arithmetic on two numbers is their common numeric type whatever the order, COALESCE and IF have the common type of their branches, CASE and ARRAY whose branches or elements are of one type have that type (or the array of it), and casts, rows, typed literals, intervals, concatenations and functions the type they state. The same expression read from SQL reports the same type as when built directly.",
 ["inputs","programs"],"for every node kind over operands of every type kind with symbolic parameters up to the bound",
 "Each construct computes its type from arbitrary operand types; tests assert it for single examples.",
 [EX,DC,DI,FC,FK,FD,FA,FS],[("type assignment after construction","treeno/expression.py: *.__attrs_post_init__"),("function result types","treeno/functions/*.py: __attrs_post_init__"),("array and string concatenation","treeno/functions/common.py: _get_array_concat_type, _get_string_concat_type")],[],["Value.data_type"])
p("C12","Structural equality tells every two different trees apart",
 "Two trees compare equal with the library's structural comparison exactly when they are the same kind of node with equal contents at every position; any difference in any field, list length, list order, optional part or leaf makes them unequal (the order of the entries of a mapping, such as named windows, does not count). The comparison is reflexive, symmetric, never raises on well-formed trees and never mutates them, and its asserting form raises exactly when they differ.",
 ["inputs","programs"],"for all pairs of trees up to the depth bound that differ in one place, and all leaves",
 "Tests use the comparison as their own oracle, so an over-permissive comparison is invisible to them.",
 [BA,UT],[("recursive comparison","treeno/base.py: Sql.equals, Sql.assert_equals, _has_equal_content")],[],["Sql.equals","Sql.assert_equals"])
p("C13","Pretty and default printing differ only in layout",
 "For every tree, the pretty-printed SQL and the single-line SQL consist of the same tokens in the same order; they differ only in whitespace and line breaks outside quoted text. Quoted text is never re-indented, broken or trimmed, and default mode adds no line breaks of its own.",
 ["inputs","programs"],"for every query and expression up to the bound, long enough to trigger line wrapping, with symbolic quoted contents including line breaks, and any indentation width",
 "Layout code works on strings; only particular contents (line breaks, quotes, lengths around the wrapping limit) reveal corruption.",
 [PR,BA,RE,EX,UT],[("statement layout","treeno/printer.py: StatementPrinter.to_string, JoinPrinter.to_string, join_stmts, pad"),("mode selection","treeno/base.py: PrintOptions")],[],["Sql.sql(PrintOptions)"])
p("C14","Resolved columns carry the type of the column they name",
 "When a query's tables have known columns, every column reference takes its type from the column it names in the relation visible at that place (through aliases, column aliases, joins, USING, subqueries, WITH and set operations), or stays unknown; it never takes the type of another column. Star expands to the columns of the relations in order, and a name that could mean two different columns is rejected. A resolved query used as a value has the type of its only column, or the row of the types of its columns; it is unknown only when a column is unknown or a star stands for columns.",
 ["inputs","programs"],"for relation trees up to the bound over tables with symbolic column names (so that any two names may coincide) and distinct types",
 "Correctness depends on which names coincide across relations; with symbolic names every coincidence pattern is covered, tests fix one.",
 [RE,DR,CO],[("schema computation","treeno/relation.py: *.resolve, Schema.merge, Schema.shadow"),("field lookup","treeno/datatypes/resolve.py: resolve_fields, star_fields")],
 [("visible schema","the columns and relations in scope","treeno/relation.py: Schema")],["Relation.resolve"])
p("C15","Expression text is read the way SQL's precedence rules group it",
 "For every expression text, the tree read is the one the SQL grammar designates: operator precedence and left associativity, NOT forms, BETWEEN/AND, unary signs, subscripts, casts and parentheses group as specified, whether keywords are all upper or all lower case, and regardless of comments and spacing. Alternative spellings of a construct read as the same tree.",
 ["inputs","programs"],"for all operator/construct combinations up to the depth bound written with minimal, redundant or full parentheses, symbolic keyword letter case and spacing, symbolic leaves",
 "The existing reading tests check one construct each, mostly without nesting or case variation.",
 [CO,PA,EX],[("expression conversion","treeno/builder/convert.py: visitExpression, visitPredicated, visitArithmeticBinary, ..."),("operator dispatch","treeno/builder/convert.py: apply_operator"),("character stream","treeno/grammar/parse.py")],[],["expression_from_sql"])
p("C16","Query text is read with every clause in its place",
 "For every query text, the tree read has each clause of the text in its own place: select items and aliases (with or without AS), set quantifiers, join types and criteria, aliases and column aliases, grouping, windows, ORDER BY, OFFSET, LIMIT or FETCH FIRST, WITH names, and set operations with INTERSECT binding tighter than UNION and EXCEPT, otherwise grouped left to right. Keywords all upper or all lower case, optional words and redundant parentheses make no difference.",
 ["inputs","programs"],"for all clause combinations and spellings up to the bound with symbolic names, numbers and keyword case",
 "Reading was only tested on fixed texts of one clause at a time.",
 [CO,PA,RE],[("query conversion","treeno/builder/convert.py: visitQuery*, visitSetOperation, visitRelation, visitJoinRelation, ...")],[],["query_from_sql"])
p("C17","Text that is not a supported SQL construct is rejected, never half-read",
 "Reading text that is not wholly a query, expression or type of the grammar raises an error; it never returns a tree for a prefix or a repaired version of the text. Grammatical constructs that the library has no representation for raise an error instead of being dropped silently.",
 ["inputs"],"for all texts obtained from valid ones by deleting, duplicating, inserting or replacing a token or a (symbolic) character, up to the bound",
 "Tests contain almost no negative cases; error recovery in the parser makes partial reads look like success.",
 [PA,CO],[("error listeners and end-of-input","treeno/grammar/parse.py"),("unsupported constructs","treeno/builder/convert.py: visitChildren, visitStatementDefault")],[],["query_from_sql","expression_from_sql","type_from_sql"])
p("C18","Visitors reach every node of a tree",
 "Traversing any tree with the visitor interface calls the method of each node's own kind exactly once for every node contained anywhere in it (clauses, aliases, joins, windows, frames, order terms, groups, function arguments, filters, subqueries, lambdas, named queries). No part of a query is skipped and no node is dispatched as another kind. (Data types are attributes of nodes, not nodes.)",
 ["programs"],"for every node kind in every position of every parent kind up to the depth bound",
 "A skipped field shows only when that field of that node is populated; the suite visits a few trees.",
 [VI,BA,EX,RE,FA,WI,OR,GR,DT],[("dispatch","treeno/visitor.py: TreenoVisitor.visit"),("child traversal","*.visit in every node class"),("node registry","treeno/base.py: Sql.__init_subclass__")],[],["TreenoVisitor","Sql.visit"])
p("C19","Lambda parameters bind exactly the names they declare",
 "A lambda read from SQL or built from a generic expression treats precisely the occurrences of its parameter names in its body as parameters, leaving other columns, qualified columns, the columns of subqueries and names of other lambdas alone, including nested lambdas and shadowing. Printing and reading the lambda back keeps its parameters and body.",
 ["inputs","programs"],"for all bodies up to the depth bound with symbolic parameter and column names, so that all coincidence patterns arise",
 "Which names coincide decides the outcome; tests use one pattern.",
 [EX,CO],[("variable substitution","treeno/expression.py: Lambda.from_generic_expr, Variable"),("lambda reading","treeno/builder/convert.py: visitLambda")],[],["Lambda","expression_from_sql"])
p("C20","Python operators on expressions build the SQL they denote",
 "Combining expressions with Python operators, with expressions or plain values on the right, gives the expression tree with that operator and the operands in the written order, so its printed SQL groups exactly as the Python expression did; a comparison with a plain value on the left denotes the same comparison, possibly mirrored. Plain values given as operands, to operators or to the constructors of nodes and functions, become literals of the same value and type; None and containers are rejected. Converting an operator spelled in SQL to a tree gives the node of that operator with operands in order, and unknown operators are rejected.",
 ["inputs","programs"],"for all operator combinations up to the depth bound and all plain values (symbolic ints and strings) on either side",
 "Operand order and grouping hold over all combinations; tests check single operators.",
 [EX,CO],[("operator overloads","treeno/expression.py: Value.__add__ ... __or__"),("literal wrapping","treeno/expression.py: wrap_literal, wrap_literal_list"),("operator table","treeno/builder/convert.py: apply_operator")],[],["Value operators"])
p("C21","Reading, printing, comparing and resolving leave no trace",
 "Printing a tree, comparing it or looking up its type never changes it, printing it twice gives the same text, and reading the same text twice gives equal but independent trees. Resolving a tree fills in types of that tree only and changes neither its text nor the schema it was given nor other trees. No operation's result depends on what was read, printed or built before, and nodes built separately share no mutable default.",
 ["histories","inputs"],"for all sequences of operations (read, print, compare, build, mutate one tree) up to the bound on trees with symbolic contents",
 "State leaking between calls shows only in particular histories; each test runs one operation on fresh objects.",
 [BA,EX,RE,PR,CO,WI,DT,FA],[("immutability by convention, attr factories","treeno/*.py: attr.ib(factory=...)"),("printers","treeno/printer.py: StatementPrinter, JoinPrinter")],[],["Sql.sql","Sql.equals"])
p("C22","The command line tools present the same SQL the library reads",
 "Formatting a query, expression or type on the command line prints SQL that reads back as the same tree, the tree view shows every node and leaf of the tree (absent parts, empty lists and default choices may be left out), the syntax-tree view shows every token of the text in order, and the schema view lists every output column of the query in order with its type. The tools fail with an error on text the library rejects.",
 ["inputs","programs"],"for queries, expressions and types up to the bound with symbolic names",
 "The CLI is tested on single inputs only.",
 [CL],[("format","treeno/cli.py: format"),("tree view","treeno/cli.py: treeify, tree"),("schema view","treeno/cli.py: schema")],[],["treeno.cli"])
p("C23","Trees that denote no SQL are rejected when they are built",
 "Building a node that has no SQL form fails: a cross join with criteria, a natural join with criteria, INTERSECT ALL or EXCEPT ALL, a table with a catalog but no schema, an empty select list, VALUES, CASE, ARRAY, ROW, IN list, CUBE, ROLLUP, GROUPING SETS, GROUP BY, USING, UNNEST or list of star aliases, a lambda with repeated parameters, a plain alias on a star, a field as the table of a field or star, a cast without a type, a literal without a type, an interval of an unknown unit, None or a bare list as an operand or required argument, FROM_UNIXTIME with a zone and hours or with only one of hours and minutes, COUNT(*) with ORDER BY or null treatment, LISTAGG without ORDER BY or with FILTER, OVER or null treatment. Trees that do denote SQL are never rejected, set operations whose operands may have matching columns included.",
 ["inputs","programs"],"for all combinations of constructor arguments up to the bound",
 "Negative construction cases are combinations of optional arguments; tests cover few.",
 [RE,EX,GR,DT],[("constructor checks","treeno/relation.py: JoinConfig.__attrs_post_init__, Table.__attrs_post_init__, IntersectQuery.__attrs_post_init__, ExceptQuery.__attrs_post_init__; treeno/groupby.py: *.__attrs_post_init__")],[],["constructors"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
