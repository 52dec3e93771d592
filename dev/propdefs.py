"""The properties, in one place (see gen.py)."""
NOT_APPLICABLE = []

V, QV, Q = "snuba_sdk/visitors.py", "snuba_sdk/query_visitors.py", "snuba_sdk/query.py"

PROPS = [
 dict(id="C01", title="String values reach the SnQL query exactly and stay inside their quotes",
  statement="Every text or UTF-8 byte value placed anywhere in a query (condition operands, function arguments and initializers, arrays and tuples, any clause, joins and subqueries) is printed as one single-quoted literal that, read back with the language's escaping rules, is exactly that value. No character of a value, whatever it is, can end the literal, start a new line or otherwise become part of the surrounding query text, in the serialized, printed and request forms alike.",
  quant="every string value and every place a value may occur",
  why="Tests print a handful of literals; escaping must hold for every character combination (quotes, backslashes, newlines, and adjacent combinations) in every position.",
  files=[V, QV, "snuba_sdk/request.py"], mech=[("escaping of scalars", V), ("printing of clauses", QV)],
  note="Strings are symbolic characters over all Unicode; every place a literal may occur is covered."),
 dict(id="C02", title="Numbers, booleans, nulls, dates and lists are printed as the same values",
  statement="Null, booleans, integers, floats, dates and date-times, and arrays and tuples of these (nested, mixed, empty or long), are printed as literals of the same kind and value, with elements in order and none lost or added; a boolean is never printed as a number nor a number as a boolean. Naive date-times are printed unchanged and time-zone-aware ones as the same instant in UTC without an offset, to the microsecond.",
  quant="every value of the scalar kinds, every instant and offset, every list shape within bounds",
  why="Tests use a few constants; values that compare equal (1, True, 1.0), rare offsets, microseconds and list lengths are not reachable by examples.",
  files=[V, "snuba_sdk/expressions.py"], mech=[("printing of scalars", V), ("scalar type checks", "snuba_sdk/expressions.py")],
  note="Integers and instants are symbolic; floats are integral symbolic values plus a pool."),
 dict(id="C03", title="Expressions are printed faithfully wherever they occur",
  statement="Columns, subscripts, functions, curried functions, lambdas, identifiers and aliases, nested in any combination and placed in any clause, are printed with exactly their names, initializers, arguments and aliases, in order and correctly bracketed. No argument is dropped, duplicated, reordered or rewritten whatever its kind, position or number, and an absent argument list is distinguished from an empty one.",
  quant="every nesting of expression constructors, argument count and name within bounds",
  why="The space of nestings, argument kinds and positions is combinatorial; tests pick a few shapes.",
  files=[V, "snuba_sdk/function.py", "snuba_sdk/column.py", "snuba_sdk/aliased_expression.py"], mech=[("expression printing", V)],
  note="All constructor nestings to depth 2-3 around all leaf kinds, symbolic names."),
 dict(id="C04", title="Conditions and boolean groups are printed with their meaning and grouping",
  statement="Every condition is printed as its left side, its own operator and its right side (none for the null tests), and every AND/OR group is parenthesised so that the printed text has exactly the tree that was built, for every operator, operand kind, nesting and number of members, in the where and the having clause. Top-level conditions are joined with AND in the given order and none is lost, merged, negated or duplicated (an OR of equality tests on one expression may instead be printed as the equivalent IN).",
  quant="every boolean tree, operator and operand kind within bounds",
  why="Grouping errors appear only for particular nestings; tests cover a few trees.",
  files=[V, QV, "snuba_sdk/conditions.py"], mech=[("condition printing", V)],
  note="All binary trees to depth 2-3, all operators and operand kinds."),
 dict(id="C05", title="A query prints exactly its clauses, complete and in the language's order",
  statement="For every combination of clauses set on a query, by constructor or by setters, the printed text contains exactly those clauses, each once and in the language's order (match, select, by, array join, where, having, order by, limit by, limit, offset, granularity, totals), and each with all its elements in the given order including repeated ones. Empty lists print nothing, numbers print as the given integers, and the string form, the serialized form and the pretty-printed form agree up to white space and the equivalent rewriting of OR groups.",
  quant="every subset of clauses, list length and admissible number",
  why="There are 1024 clause subsets times list lengths; tests sample a few dozen.",
  files=[Q, QV, V], mech=[("clause visitor", QV), ("dataclass field order", Q)],
  note="All 1024 clause subsets with symbolic numbers, for constructor and setters."),
 dict(id="C06", title="Joins and subqueries print faithfully; columns are qualified only in joins",
  statement="A join is printed with all its relationships in order, each with its entities, aliases, sample rates and name, and every column anywhere in that query (any clause, any nesting of functions, lambdas, arrays, conditions) is qualified with its entity's alias; outside a join no alias is printed. A subquery is printed complete inside braces at every nesting level, a join inside a subquery is qualified only within it, and neither printing order nor earlier prints change the result.",
  quant="every join and nesting of queries within bounds, every place a column can occur",
  why="Qualification is a mode of the printer that must be on exactly inside joins; tests cover few placements and nestings.",
  files=[V, QV, "snuba_sdk/relationships.py", "snuba_sdk/entity.py", "snuba_sdk/storage.py"], mech=[("alias mode of the printer", V), ("subquery printing", QV)],
  note="Every expression kind in every clause, up to 4 relationships and 4 nested queries."),
 dict(id="C07", title="Rewriting OR groups never changes which rows a query selects",
  statement="When serializing, an OR group may be replaced by an IN test only if all its members are equality tests on the same expression, and then with exactly the members' values, all of them; every other condition keeps its meaning. This holds for SnQL and metrics queries, at every position among other conditions, for every kind of value and for groups of any size.",
  quant="every group of members, values and left sides within bounds",
  why="Soundness of a rewrite is universal over groups; the tests check a few that should and should not rewrite.",
  files=["snuba_sdk/query_optimizers/or_optimizer.py", Q, "snuba_sdk/metrics_query.py"], mech=[("OR optimizer", "snuba_sdk/query_optimizers/or_optimizer.py")],
  note="All member kinds and left-side pairs, symbolic values, groups up to 8."),
 dict(id="C08", title="Names are accepted exactly when they are valid",
  statement="Column, function, alias, entity, storage, identifier, data-set and application names are accepted exactly when every character is allowed at its position, and are otherwise refused with the SDK's own error when the object is built (for a request: when it is validated). In particular no accepted column, entity, storage, identifier or result alias (of a function or aliased column) can contain white space, quotes, back-ticks, semicolons, commas or newlines (subscript keys aside), so a name can never smuggle text into a query.",
  quant="every string of the bounded length, all Unicode",
  why="Regular expressions are universal statements over strings; tests try a few.",
  files=["snuba_sdk/column.py", "snuba_sdk/function.py", "snuba_sdk/entity.py", "snuba_sdk/storage.py", "snuba_sdk/expressions.py", "snuba_sdk/request.py"],
  mech=[("column name pattern", "snuba_sdk/column.py"), ("function and identifier patterns", "snuba_sdk/function.py"), ("alias pattern", "snuba_sdk/expressions.py"), ("request name pattern", "snuba_sdk/request.py")],
  note="Accept-iff over every string of up to 4-6 arbitrary Unicode characters."),
 dict(id="C09", title="Numeric limits are enforced at their exact bounds",
  statement="A limit is accepted exactly for the integers 1 to 10000, a limit-by count exactly for the integers 1 to 10000, an offset exactly for integers of at least 0, a granularity exactly for integers of at least 1, and a sample rate exactly for floats above 0; anything else, including other types, is refused with the SDK's own error by constructors and by setters of SnQL and metrics queries alike. Totals (and extrapolation) accept only booleans, and totals switched on without a group-by make the query invalid.",
  quant="every integer, and every other kind of value",
  why="Boundary values and type confusion are universal over integers and types.",
  files=["snuba_sdk/expressions.py", "snuba_sdk/orderby.py", "snuba_sdk/entity.py", "snuba_sdk/storage.py", Q, "snuba_sdk/metrics_query.py"], mech=[("integer literal validation", "snuba_sdk/expressions.py"), ("limit-by validation", "snuba_sdk/orderby.py")],
  note="Integers unbounded symbolic; other types from a pool."),
 dict(id="C10", title="Every column of a query is checked against what the query reads from",
  statement="A query is accepted exactly if each column it references, in any clause and at any depth (functions, initializers, lambdas, arrays, conditions on either side, ordering, limit by), fits its source: with a data model the (outer) column must be in the model; in a join the column must carry an entity whose alias and name are part of the join; over a subquery it must be a column name or a function alias the inner query selects. A query without select expressions is never accepted, and a refused query raises the SDK's own error from validation, serialization and printing.",
  quant="every position a column can occur in, every source",
  why="A single position the check does not look at lets a bad column through; tests check a few positions.",
  files=["snuba_sdk/query_validation.py", QV, V, "snuba_sdk/column.py"], mech=[("match validation", "snuba_sdk/query_validation.py"), ("expression finder", V)],
  note="A good or bad column in every position, clause and nesting, for all four kinds of source."),
 dict(id="C11", title="The required-columns check accepts exactly the queries that have them",
  statement="For an entity with a data model the required-column check passes exactly if among the conditions that must all hold (the where list and AND groups in it, at any depth, never OR groups or the having clause) there is, for each required column, a condition on that very column with = or IN, and for the time column one with >= and one with <. In a join this holds for every entity separately, with conditions attributed by alias, and for a subquery for the innermost query; otherwise the SDK's own error is raised.",
  quant="every where clause within bounds, every placement of conditions",
  why="The check is a universally quantified predicate over condition trees.",
  files=["snuba_sdk/query_validation.py", "snuba_sdk/conditions.py", "snuba_sdk/schema.py"], mech=[("required column validation", "snuba_sdk/query_validation.py"), ("flattening of AND groups", "snuba_sdk/conditions.py")],
  note="All combinations of condition presence, operator, nesting and alias within bounds.", over=["inputs", "configurations"]),
 dict(id="C12", title="Building a query step by step never changes existing queries",
  statement="Each setter of a query, metrics query, timeseries, formula, metric or scope returns a new object that differs from the old one only in that field and leaves the old object, the given values and every other query unchanged; setting different fields commutes, and setting one field twice keeps the last value. Validating, serializing, printing and comparing never change a query or anything it was built from, so repeating them gives the same result.",
  quant="every sequence of setter calls and uses within bounds", over=["histories", "inputs"],
  why="Aliasing and mutation bugs show only for particular sequences of calls on shared objects.",
  files=[Q, "snuba_sdk/metrics_query.py", "snuba_sdk/timeseries.py", "snuba_sdk/formula.py", "snuba_sdk/request.py"], mech=[("copy on set", Q), ("copy on set", "snuba_sdk/metrics_query.py"), ("copy on set", "snuba_sdk/timeseries.py")],
  note="All pairs and triples of setters and uses, with deep snapshots of every shared object."),
 dict(id="C13", title="A request carries exactly its query, flags and identity",
  statement="The JSON of a request contains exactly the serialized query, data set, application, parent API and tenant identifiers that were given, plus exactly those flags that are set (true or false), each under its own name, and for a metrics query its context; unset flags are absent and no flag can replace another entry. A delete request carries the delete body instead and no data set; an invalid query, name, flag or tenant mapping is refused with the SDK's own error instead of being sent.",
  quant="every assignment of flags and identity values within bounds",
  why="There are 3^6 flag assignments and arbitrary strings; tests try a few.",
  files=["snuba_sdk/request.py"], mech=[("request envelope", "snuba_sdk/request.py"), ("flags", "snuba_sdk/request.py")],
  note="All 729 flag assignments, symbolic identity strings and tenant values."),
 dict(id="C14", title="A delete is never sent without complete conditions",
  statement="A delete query is accepted only if it has at least one column condition and every column condition has at least one value; otherwise validation, serialization and sending it in a request raise the SDK's own error. The serialized delete contains exactly the given columns with exactly the given values in order, so it can never match more rows than asked for.",
  quant="every mapping of columns to values within bounds",
  why="A dropped condition deletes data; it must hold for every mapping, including rare values such as 0, empty strings and repeated values.",
  files=["snuba_sdk/delete_query.py", "snuba_sdk/request.py"], mech=[("delete validation", "snuba_sdk/delete_query.py")],
  note="Mappings of up to 3 columns and 4 values, symbolic values."),
 dict(id="C15", title="Metrics filters and values are printed to MQL safely and completely",
  statement="A timeseries or formula is printed to MQL with exactly its aggregate, parameters, metric, filters and groupings, each filter with its key, negation and value, and text values as one double-quoted literal that no character can break out of. Filters whose operator MQL cannot express, or that compare with a function, are refused with the SDK's own error rather than printed as something else.",
  quant="every filter tree, operator and value within bounds",
  why="Escaping and negation must hold for every value and operator; tests print a few.",
  files=[V, "snuba_sdk/metrics_visitors.py", "snuba_sdk/mql_visitor.py"], mech=[("MQL condition printing", V), ("timeseries and formula printing", "snuba_sdk/metrics_visitors.py")],
  note="Symbolic text values over all Unicode in every place; all operators and filter trees to depth 2-3."),
 dict(id="C16", title="Printing a metrics query to MQL and parsing it back gives the same query",
  statement="For every timeseries or formula that MQL can express (text filter values without backslash or newline, values other than wildcard patterns for equality, keys and grouping columns made of letters, digits, dots and underscores, metrics given by one name, arithmetic on two operands, constants in plain decimal notation), parsing the printed MQL gives an equal object up to the equivalent grouping of filters: same metric, aggregate and parameters, filters, groupings, arithmetic structure and constants. A metrics query given as MQL text therefore serializes to the same MQL as the query it denotes.",
  quant="every expressible timeseries and formula within bounds",
  why="Round trips are universal over values and shapes; tests use a fixed list of texts.",
  files=["snuba_sdk/mql/mql.py", "snuba_sdk/metrics_visitors.py", V], mech=[("MQL grammar and visitor", "snuba_sdk/mql/mql.py"), ("MQL printer", "snuba_sdk/metrics_visitors.py")],
  note="Symbolic values through the printer and the real grammar; formula trees to depth 2-3."),
 dict(id="C17", title="MQL arithmetic is parsed with the usual precedence and associativity",
  statement="An MQL arithmetic expression is parsed into the tree given by the usual rules: * and / bind tighter than + and -, equal precedence groups to the left, unary minus applies to the operand directly after it, and parentheses around an operation override, for any number of operators and any white space around the binary ones. Operands keep their order and numbers keep their value.",
  quant="every sequence of operators, parenthesisation and spacing within bounds",
  why="Associativity errors appear only from three operands on and for particular operator mixes.",
  files=["snuba_sdk/mql/mql.py"], mech=[("expression and term rules", "snuba_sdk/mql/mql.py")],
  note="All operator sequences up to 4-5 operands with parentheses and signs, symbolic digits and spaces."),
 dict(id="C18", title="MQL filters are parsed with their boolean meaning",
  statement="An MQL filter expression is parsed into conditions with the meaning of the text: OR binds weaker than AND, comma and juxtaposition mean AND, parentheses group, '!' negates exactly the condition it precedes, a list means IN, and a trailing wildcard means LIKE. Filters and groupings written inside and outside an aggregate all apply, none is dropped, and text that is not valid MQL is refused with an error.",
  quant="every filter expression within bounds",
  why="Precedence and negation must hold for every combination.",
  files=["snuba_sdk/mql/mql.py"], mech=[("filter rules", "snuba_sdk/mql/mql.py")],
  note="All filter expressions of up to 3-4 conditions, with every connective, negation, value kind and nesting."),
 dict(id="C19", title="A metrics query's context is passed on exactly or refused",
  statement="The context sent with a metrics query contains exactly the given start, end, interval, granularity, totals, ordering, organisations, projects, use case, limit, offset, extrapolation and indexer mappings; nothing is dropped (false, zero and empty values included), defaulted or changed. A rollup is accepted exactly if its granularity, when given, is 10, 60, 3600 or 86400, its interval, when given, is an integer of at least 10 and not below the granularity, an interval or totals is given, and ordering is used only without an interval; a query without start, end, scope, rollup or rollup granularity is refused with the SDK's own error.",
  quant="every rollup, scope and time range",
  why="Universal over integers, instants and combinations of options.",
  files=["snuba_sdk/timeseries.py", "snuba_sdk/metrics_query.py", "snuba_sdk/mql_visitor.py", "snuba_sdk/mql_context.py", "snuba_sdk/metrics_query_visitors.py", "snuba_sdk/metrics_visitors.py"], mech=[("rollup validation", "snuba_sdk/timeseries.py"), ("context printing", "snuba_sdk/mql_visitor.py")],
  note="Symbolic instants and integers, all combinations of optional fields."),
 dict(id="C20", title="Formulas are accepted exactly if they are consistent",
  statement="A formula is accepted exactly if it has parameters that are timeseries, formulas or numbers at every depth, contains at least one timeseries, and all groupings present anywhere inside it are the same; otherwise using it in a metrics query raises the SDK's own error. An accepted formula prints all of its parameters, in order, with its own function, parameters, filters and grouping.",
  quant="every formula tree within bounds",
  why="The consistency rule quantifies over every node of every tree.",
  files=["snuba_sdk/formula.py", "snuba_sdk/metrics_visitors.py"], mech=[("consistency validation", "snuba_sdk/formula.py"), ("formula printing", "snuba_sdk/metrics_visitors.py")],
  note="All trees to depth 2-3 over all parameter kinds and groupings."),
 dict(id="C21", title="Legacy JSON queries are converted faithfully",
  statement="Converting a legacy query yields a query with the same meaning: every selected column, aggregation (with its arguments and alias), grouping, array join, condition (outer list ANDed, inner lists ORed, function conditions included), having condition, ordering (a leading minus means descending), limit, offset, limit-by, granularity, totals, sampling, project and organisation filters (ids) and time range (of an entity whose time column the SDK knows), with none lost, duplicated or invented. Flags and request identity are carried over, and the legacy input is left unchanged.",
  quant="every legacy body within bounds",
  why="Legacy bodies combine dozens of optional keys with nested list syntax; tests convert a fixed set.",
  files=["snuba_sdk/legacy.py"], mech=[("legacy conversion", "snuba_sdk/legacy.py")],
  note="All condition shapes, operators and key combinations within bounds, symbolic values."),
 dict(id="C22", title="Legacy values keep their type and value",
  statement="In a converted legacy query a literal keeps its value and type: single-quoted text stays exactly that text even if it looks like a date, numbers, booleans and nulls stay what they are at any depth of lists, a condition's date-time text (date, T, time, with a fraction or a UTC offset, or neither) becomes the same instant, and any other text stays exactly that text. Date-time texts compared with tags or the release, directly or through ifNull, stay text. Names are never turned into text nor text into names.",
  quant="every literal and column within bounds",
  why="Which texts are taken for dates or names depends on the exact characters and the column.",
  files=["snuba_sdk/legacy.py"], mech=[("literal and date handling", "snuba_sdk/legacy.py")],
  note="Symbolic text of bounded length in every literal position."),
 dict(id="C23", title="Objects that are equal hash equally, and equality distinguishes what matters",
  statement="Columns, functions, conditions, entities, queries and the other objects of the SDK compare equal exactly when they are of the same kind and agree in all their parts (literals and lists as Python compares them; a curried function's alias aside, also when compared with a plain function). Equality is symmetric and, within a kind, transitive, and equal hashable objects have equal hashes. Hence a set or mapping of them never loses a distinct one or keeps two equal ones.",
  quant="every pair and triple of objects within bounds",
  why="The contract is universal over pairs.",
  files=["snuba_sdk/function.py", "snuba_sdk/column.py", "snuba_sdk/entity.py", "snuba_sdk/conditions.py"], mech=[("equality and hashing of functions", "snuba_sdk/function.py"), ("dataclass equality", "snuba_sdk/column.py")],
  note="Pairs of objects with symbolic parts; hashes modelled structurally."),
 dict(id="C24", title="Malformed expressions are refused when built, with the SDK's own errors",
  statement="Every expression constructor and every setter accepts arguments of the documented kinds, keeps them, and refuses everything else (wrong types, non-lists, wrong elements at any position, too few members, missing or conflicting entity aliases, operands a null test cannot have, an invalid subquery) with an error class of the SDK, before anything can be sent. (The constructors of Query, MetricsQuery, Formula and DeleteQuery postpone most of this to serialization by design.) A refused call never changes the receiver or its arguments.",
  quant="every argument kind in every argument position",
  why="Type checks must hold for each position and element; tests try a few wrong values.",
  files=["snuba_sdk/conditions.py", "snuba_sdk/function.py", "snuba_sdk/orderby.py", "snuba_sdk/relationships.py", "snuba_sdk/aliased_expression.py", Q, "snuba_sdk/timeseries.py"], mech=[("constructor validation", "snuba_sdk/expressions.py")],
  note="A pool of value kinds in every argument position of every constructor and setter."),
 dict(id="C25", title="Serializing one query never affects another",
  statement="The text of a query depends only on that query: serializing, printing, validating, parsing or failing on any other queries before, or another query in the middle of serializing it (as a second thread would), gives the same text and the same acceptance as doing it alone. No state, cache or mode left by one query is visible in another.",
  quant="every history of up to three other uses, and every interleaving point", over=["histories", "schedules", "fault_sequences"],
  why="Shared printers, caches and modes show only for particular orders and interleavings.",
  files=[V, QV, "snuba_sdk/mql_visitor.py", "snuba_sdk/metrics_query.py", Q], mech=[("module-level printers and validators", "snuba_sdk/metrics_query.py"), ("alias mode of the printer", V)],
  note="All ordered pairs and triples of a pool of queries, and every function-entry interleaving point."),
]
