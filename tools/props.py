# Generates properties.jsonl (kept so that the file and the checks stay in step).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],
        **({"state":[{"name":n,"meaning":m,"where":w} for n,m,w in state]} if state else {}),
        "observe_at":observe,"hook_needed":None}})
R=["Statement text returned by NewRenderer().Render(stmt)"]
RE=["Statement text or error returned by Build() and NewRenderer().Render(stmt)"]
p("C01","Rendering is deterministic and repeatable",
  "The same sequence of builder calls always renders to the same text. Calling Build several times on one builder, rendering one statement several times, rendering it with a fresh renderer or with a renderer that has already rendered other statements, and whatever other statements the process built before, all give that same text. No random or address-derived material ever appears in it.",
  ["histories","programs"],"every statement program; every interleaving of Build and Render calls on its builders, statements and renderers",
  "The tests build each statement once and render it once with a fresh renderer; they never build or render twice, never reuse a renderer, and never look at two statements together.",
  ["cypher_renderer.go","default_statement_with_update.go","default_statement_builder.go","symbolic_name.go"],
  [("renderer state kept per Render call","cypher_renderer.go: NewRenderer, Render"),("Build leaves the builder as it was","default_statement_with_update.go: Build; default_statement_builder.go: BuildImpl")],RE,
  [("visitedNamed / visitableToAliased","what this rendering has already printed","cypher_renderer.go"),("currentSinglePartElements","clauses collected so far","default_statement_builder.go")])
p("C02","Text is independent of memory management and object reuse",
  "What is rendered depends only on the API calls made: garbage collections, freed and reused memory, and unrelated objects created between any two calls change nothing. Two elements created separately are never taken for one another, and an element is always recognised as itself.",
  ["histories","schedules"],"every program, with a collection and allocation churn at every subset of the points between its calls",
  "The tests run with the garbage collector switched off and small heaps; the defect class is a collision that depends on when memory is reused.",
  ["support.go","node.go","alias_expression.go","cypher_renderer.go","sort_item.go","relationship_details.go"],
  [("every element carries an identity key","support.go: getAddress and the injectKey methods"),("renderer looks elements up by key","cypher_renderer.go: getAliasedIfSeen, visitedNamed")],R)
p("C03","Fluent values are persistent: branching never interferes",
  "Every value the API hands out - nodes, relationships, chains, conditions, case expressions, map projections, comprehensions, sort items and statement builders at every stage - can be kept and continued in several different ways. Continuing, building or rendering one branch never changes what the original value or any other branch renders, and every branch renders as if it were the only one.",
  ["histories","programs"],"every tree of continuations (two or three branches taken at every step) of every builder flavour up to a depth, in every order of execution",
  "Each test uses each intermediate value once, so a shared slice or a mutation through a pointer is invisible to it.",
  ["default_statement_builder.go","default_statement_with_update.go","default_statement_with_with_builder.go","default_ongoing_unwind.go","in_query_call_builder.go","compound_condition.go","relationship_chain.go","case.go","order_builder.go","updating_clause_builder.go"],
  [("builders are value types copied on every call","the builder structs"),("derived fragments are new values","node.go, relationship.go, compound_condition.go, map_projection.go")],R)
p("C04","Every clause appears once, complete, in call order",
  "A built statement contains exactly the clauses that were requested through the fluent calls, each once, in the order of the calls, with all of their patterns and expressions in argument order. This holds for every legal sequence of MATCH, OPTIONAL MATCH, WITH, UNWIND, CALL, CREATE, MERGE with its actions, SET, REMOVE, DELETE and RETURN, whichever builder stage each call is made on.",
  ["programs","histories"],"every legal sequence of fluent calls over the statement builder state machine up to a depth",
  "The fluent API is a state machine with about ten stages and sixty transitions; the tests take about two hundred hand-picked short paths through it.",
  ["default_statement_builder.go","default_statement_with_update.go","default_statement_with_with_builder.go","default_ongoing_unwind.go","in_query_call_builder.go","multi_part_query.go","multipart_element.go","single_part_query.go"],
  [("closing the open match, update and call before a new clause","default_statement_builder.go: CloseCurrentOngoing*, BuildListOfVisitable"),("WITH splits the statement into parts","default_statement_builder.go: AddWith; multi_part_query.go")],R)
p("C05","Invalid input always surfaces as an error",
  "If any part given to a statement is invalid - an empty name, label or alias, a missing or nil operand, a duplicate map key, an odd list of SET operands, a negative limit, an unsupported literal, or any fragment already carrying an error - then building or rendering the statement reports an error, wherever the part was nested and whatever was called after it. The invalid part is never silently dropped or rendered, and no call panics or fails to return.",
  ["inputs","programs","fault_sequences"],"every kind of invalid fragment, in every argument position of every API function, followed by every continuation to a built statement",
  "The tests inject an invalid value in a handful of positions and only look at the function they call directly; error propagation has to work through every constructor and every builder stage.",
  ["default_statement_builder.go","default_statement_with_update.go","default_statement_with_with_builder.go","return_body.go","with.go","condition_builder.go","yield_items.go","string_literal.go","case.go","node.go","union_query.go"],
  [("err field on every element, checked by every constructor","GetError methods"),("error variants of every builder","*Error constructors")],RE)
p("C06","Conditions mean what the and/or/xor/not calls say",
  "The rendered WHERE expression, read with Cypher's operator precedence (NOT, then AND, then XOR, then OR), is logically equivalent to applying the calls And, Or, Xor and Not in the order they were made to the conditions they were made on, where a condition passed as an argument is one unit. This holds whether the calls were made on conditions, on condition containers or on a statement's where chain, including pattern conditions and chains that start from the empty condition.",
  ["programs","inputs"],"every condition term and every chaining history up to a size, under every truth assignment of the atoms",
  "Each test compares one string for one nesting; precedence and flattening errors need particular combinations of three or four operators.",
  ["compound_condition.go","condition_container.go","condition_builder.go","conditions.go","comparison.go","nested_expression.go"],
  [("flattening of equal operators, nesting of different ones","compound_condition.go: add, canBeFlattenedWith"),("parentheses around compound conditions","compound_condition.go: accept")],R)
p("C07","Operators keep the operand grouping of the expression tree",
  "For every tree of arithmetic and concatenation operators and comparison, string, list-membership, null and negation operators, the rendered text read with Cypher's precedence and associativity yields the same tree, with each operand in its place and each operator the one that was asked for.",
  ["programs","inputs"],"every operator tree up to a depth over all operators and operand kinds",
  "Tests cover a few one-operator and two-operator expressions; whether parentheses suffice depends on every pair and nesting of operators.",
  ["operation.go","operations.go","operator.go","comparison.go","expression_container.go","property.go","functions.go"],
  [("grouping of binary operations","operation.go: needsGrouping"),("conditions as operands are nested","comparison.go: nestedIfCondition")],R)
p("C08","String literals round-trip for every string",
  "For every string value, the rendered literal is exactly one Cypher string token, and reading that token with Cypher's escape rules gives back the identical value. This holds wherever a literal can appear (comparison operand, map or node property, list, case, function argument, RETURN, SET) and for AQuote.",
  ["inputs"],"every string over an adversarial alphabet up to a length, and every single code point",
  "Tests quote four or five strings; escaping bugs need particular neighbouring characters (backslash before quote, runs of backslashes, quotes at the ends).",
  ["string_literal.go","raw_string_literal.go","cypher.go","entry_expression.go"],
  [("quote and escape","string_literal.go: AsString")],R)
p("C09","Names round-trip and cannot alter the statement",
  "Any name supplied by the user - label, relationship type, variable, alias, property key, map key, projection key, parameter, yielded field - is rendered so that Cypher reads back exactly that name, on its first and on every later occurrence: a name that is not a plain identifier is put in backticks with embedded backticks doubled, a plain one may stay as it is. (A parameter given as a dotted path of plain parts or positions stays that path; the parts of a procedure name are used as given.) No supplied name can change the structure of the statement around it.",
  ["inputs","programs"],"every name over an adversarial alphabet up to a length, in every name position of the API",
  "Tests escape a few names in a few positions; each position has its own code path.",
  ["cypher_renderer.go","node.go","relationship_type.go","symbolic_name.go","alias_expression.go","property_lookup.go","key_value_map_entry.go","entry_expression.go","parameter.go","unwind.go"],
  [("backtick escaping","cypher_renderer.go: escapeName, EscapeIfNecessary, isIdentifier")],R)
p("C10","Numbers, booleans, null and list literals keep their value",
  "For every int and every finite float64, the rendered literal reads back as exactly the same number, true, false and null render as themselves, and a list renders its elements in order between brackets. Values with no Cypher literal (NaN, infinities, unsupported types) are reported as errors.",
  ["inputs"],"every int and float64 of boundary families (powers of two and ten plus and minus one, every digit count, extremes), every literal list up to a length",
  "Tests render small integers only.",
  ["number_literal.go","bool_literal.go","null_literal.go","list_literal.go","list_expression.go","cypher.go"],
  [("number formatting","number_literal.go: AsString"),("LiteralOf dispatch","cypher.go: LiteralOf")],RE)
p("C11","A node is declared in full once and then referenced by name",
  "The first time a named node occurs in a statement's patterns it is rendered with its name, all of its labels in order and its properties; every later pattern occurrence of it is its name alone. Unnamed nodes are rendered in full every time, and two different nodes never share or lose labels or properties, even if they were derived from a common node, have the same labels or the same name.",
  ["programs","histories"],"every arrangement of a few nodes (all constructors, derived by naming and by adding properties) over the pattern positions of one or two clauses",
  "Tests use one or two nodes in the common arrangement.",
  ["node.go","node_labels.go","cypher_renderer.go","pattern.go","relationship_chain.go"],
  [("visitedNamed by node key","node.go: enter; cypher_renderer.go")],R)
p("C12","Relationship patterns keep nodes, direction, types, lengths",
  "A relationship or chain is rendered with all of its nodes and relationships in order, each relationship with the direction it was created with, its name, all of its types, its length bounds and its properties exactly as last set. Naming, bounding or adding properties changes only the relationship it is applied to (the last one of a chain), whatever the order of those calls.",
  ["programs","inputs"],"every chain up to a length over all directions, type lists and every sequence of modifiers up to a depth",
  "Tests show a few combinations of modifier and direction.",
  ["relationship.go","relationship_details.go","relationship_chain.go","relationship_length.go","relationship_type.go","relationship_pattern.go"],
  [("details copied on every modifier","relationship_details.go"),("last relationship replaced","relationship_chain.go")],R)
p("C13","An alias is defined once and referenced afterwards",
  "An aliased expression is rendered as `expression AS alias` the first time it occurs in a statement and by its alias alone wherever it, or the expression object it wraps, occurs later in that statement. Expressions without an alias and different expression objects that merely look alike are always rendered in full.",
  ["programs","histories"],"every placement of a few aliased and plain expressions over the projection, ordering, filter and nested positions of a statement with up to three parts",
  "Tests place one alias in two positions.",
  ["alias_expression.go","cypher_renderer.go","expressions.go","expression_list.go","sort_item.go","return_body.go"],
  [("visitableToAliased by delegate key","cypher_renderer.go: PreEnter, leave, getAliasedIfSeen")],R)
p("C14","RETURN and WITH project exactly what was asked",
  "RETURN and WITH list exactly the given items in order, carry DISTINCT exactly when a distinct variant was called, and carry ORDER BY items in call order with their own direction, SKIP and LIMIT with the given numbers exactly when set, in the order ORDER BY, SKIP, LIMIT (and for WITH then WHERE). This holds on every builder flavour that offers these calls: reading, updating, WITH, UNWIND and CALL stages, by expression, by name and by string.",
  ["programs","inputs"],"every combination of projection variant, ordering calls, skip and limit on every builder stage",
  "Tests cover the common combinations on a plain MATCH; each builder stage has its own implementation.",
  ["default_statement_with_return_builder.go","default_statement_with_update.go","default_statement_with_with_builder.go","order_builder.go","order.go","sort_item.go","skip.go","limit.go","return.go","return_body.go","with.go","distinct.go"],
  [("OrderBuilder collects items, skip and limit","order_builder.go"),("ReturnCreate1 / withCreate","return.go, with.go")],R)
p("C15","UNION joins all queries, in order, with one kind of union",
  "Union and UnionAll render every given query exactly once in argument order, separated by UNION or UNION ALL as called; adding queries to an existing union of the same kind extends it. Fewer than two queries, mixing UNION with UNION ALL and statements that cannot be united are reported as errors.",
  ["programs","inputs"],"every nesting of union calls over a few queries up to a size, including invalid members",
  "Tests show two and three members in one shape.",
  ["union_query.go","union_part.go","cypher.go"],
  [("unionImpl flattens and checks","cypher.go: unionImpl; union_query.go: addAdditionalQueries")],RE)
p("C16","Procedure calls keep qualified name, arguments, yields, filter",
  "A procedure call renders the full qualified procedure name, all arguments in order, all yielded items in order (with their aliases) and its filter, both standalone and inside a query, and followed by any further clause. Used as a function it renders the same qualified name and arguments as an expression.",
  ["programs","inputs"],"every qualified name of one to four segments, argument list, yield list, filter chain and following clause",
  "Tests use single calls with a few shapes.",
  ["procedure_call.go","in_query_call_builder.go","procedure_name.go","name_space.go","arguments.go","yield_items.go"],
  [("ProcedureNameCreate splits the qualified name","procedure_name.go"),("call builders","procedure_call.go, in_query_call_builder.go")],R)
p("C17","CASE renders every branch in order with its own result",
  "A simple or generic CASE expression renders its subject (if any), every WHEN with the THEN it was given, in the order added, and the ELSE exactly if one was given, closed by END, and can be used wherever an expression or condition can.",
  ["programs","inputs"],"every sequence of When/Then/Else calls up to a length over several operand kinds and contexts",
  "Tests use one to three branches of one kind.",
  ["case.go"],[("When/Then/ElseDefault accumulate branches","case.go")],R)
p("C18","Maps, lists, projections, subscripts keep all entries in order",
  "Map literals, node and relationship properties, list expressions, map projections (keys, properties, star, variables, key-expression pairs, later additions) and list operators (index, slices with any combination of bounds) render every entry exactly once, in order, with its own key and value.",
  ["programs","inputs"],"every argument list up to a length over all accepted element kinds, for each constructor",
  "Tests cover a few lists; the projection argument parser pairs neighbouring arguments, so errors need particular neighbours.",
  ["map_expression.go","map_projection.go","key_value_map_entry.go","entry_expression.go","list_expression.go","list_literal.go","list_operator.go","properties.go","property.go","property_lookup.go","expression_list.go"],
  [("createNewContent pairs keys and expressions","map_projection.go"),("separators by level","cypher_renderer.go")],RE)
p("C19","Each function call renders its own Cypher function and arguments",
  "Every function helper renders the Cypher function it is documented for, with exactly the given arguments in order, with DISTINCT exactly in the distinct variants, and with no argument list content when called without arguments.",
  ["inputs","programs"],"every exported function helper, with every admissible argument count up to four and argument kind",
  "Tests cover most helpers once with one argument kind.",
  ["functions.go","built_in_function.go","function_invocation.go","distinct_expression.go","predicates.go"],
  [("FunctionInvocationCreate*","function_invocation.go"),("function definitions","built_in_function.go")],R)
p("C20","Comprehensions and predicates keep variable, source, filter, result",
  "List comprehensions, pattern comprehensions (over patterns and named paths), the predicates all, any, none, single and exists, and existential subqueries render their variable, source list or pattern, filter and result expressions exactly as given, with the filter and the result optional where the API makes them so.",
  ["programs","inputs"],"every combination of source, filter chain and result for each construct, nested up to a depth",
  "Tests show one or two shapes per construct.",
  ["list_comprehension.go","pattern_comprehension.go","predicates.go","list_predicate.go","existential_subquery.go","excluded_pattern.go","boolean_function_condition.go"],
  [("comprehension builders","list_comprehension.go, pattern_comprehension.go"),("PredicateBuilder","predicates.go")],R)
p("C21","Updating clauses carry every operand to the right target",
  "SET pairs each target with its value and REMOVE, SET and REMOVE of labels, DELETE and DETACH DELETE list every operand in order under the keyword that was asked for. CREATE and MERGE carry all patterns, and each ON CREATE or ON MATCH action stays with the MERGE it was called on, in call order, with all of its assignments.",
  ["programs","inputs"],"every operand list up to a length for every updating call on every builder stage, and every sequence of merge actions up to a depth",
  "Tests have one to three operands on one builder stage; each stage has its own implementation of the same calls.",
  ["default_statement_builder.go","default_statement_with_update.go","default_statement_with_with_builder.go","updating_clause_builder.go","merge.go","merge_action.go","set.go","remove.go","delete.go","create.go","operation.go"],
  [("getUpdatingClauseBuilder, prepareSetExpression","default_statement_builder.go"),("MergeBuilder.on","updating_clause_builder.go")],RE)
p("C22","Subqueries are embedded whole and in place",
  "A statement used as a CALL subquery is rendered in braces exactly as it renders on its own (apart from names and aliases already declared outside), at the position where it was called, and the outer statement continues unchanged after it, to any nesting depth. An existential subquery contains exactly the match it was made from, including its filter.",
  ["programs","histories"],"every statement of a family embedded at every position of an outer statement, up to nesting depth three",
  "Tests show a handful of fixed nestings.",
  ["subquery.go","existential_subquery.go","default_statement_builder.go","cypher_renderer.go"],
  [("SubqueryCall","subquery.go"),("AsCondition","default_statement_builder.go")],R)
p("C23","Concurrent building and rendering is isolated",
  "Any number of goroutines may build and render at the same time, each with its own renderer, from separate or shared fragments and statements. Each gets exactly the text it would get alone, under every interleaving, and there is no data race.",
  ["schedules"],"every interleaving of two or three goroutines with a bounded number of preemptions at every function entry of the library",
  "The tests are sequential; a package-level scratch value or an identity source that is not atomic fails only under particular interleavings.",
  ["cypher_renderer.go","support.go","operator.go","asterisk.go","distinct.go","built_in_function.go"],
  [("values are immutable and renderer state is per call","cypher_renderer.go: NewRenderer, Render"),("identity source","support.go")],R)
p("C24","A filter belongs to the clause it was given on",
  "WHERE is rendered directly on the clause whose stage received the Where call - MATCH, OPTIONAL MATCH, WITH or CALL ... YIELD - with all conditions added to it before the next clause began and none of any other clause. A clause without a Where call, or with only an empty condition, has no WHERE, and replacing a filter keeps only the last one.",
  ["programs","histories"],"every sequence of up to four filterable clauses, with every pattern of where, and, or calls between them",
  "Tests put one filter on one clause.",
  ["condition_builder.go","match_builder.go","default_statement_builder.go","default_statement_with_with_builder.go","where.go","in_query_call_builder.go","procedure_call.go"],
  [("one condition builder per open clause","match_builder.go, default_statement_with_with_builder.go, in_query_call_builder.go")],R)
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title'])); 
print(len(P))
