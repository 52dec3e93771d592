V = "snuba_sdk/visitors.py"
QV = "snuba_sdk/query_visitors.py"
SEEDS = []


def seed(id, property, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


seed("b01-presence-of-escape", "C01",
     [(V, '''            decoded = (
                decoded.replace("\\\\", "\\\\\\\\")
                .replace(quote_char, f"\\\\{quote_char}")
                .replace("\\n", "\\\\n")
            )
''', '''            # Values that were already escaped by the caller are left alone
            if not decoded.endswith("\\\\'"):
                decoded = decoded.replace("\\\\", "\\\\\\\\").replace(
                    quote_char, f"\\\\{quote_char}"
                )
            decoded = decoded.replace("\\n", "\\\\n")
''')],
     '''
from snuba_sdk import Query, Entity, Column, Condition, Op
v = "x' OR \\\\'"
t = Query(Entity("events"), [Column("a")], where=[Condition(Column("a"), Op.EQ, v)]).serialize()
want = "MATCH (events) SELECT a WHERE a = 'x\\\\' OR \\\\\\\\\\\\''"
assert t == want, (t, want)
''', "a text value that ends in a backslash followed by a quote", "text with quotes is printed unescaped and ends its literal")

seed("b02-tuple-of-bool", "C02",
     [(V, '''            prefix = "[" if self.is_mql else "tuple("
            suffix = "]" if self.is_mql else ")"
            return f"{prefix}{', '.join([self._stringify_scalar(v) for v in value])}{suffix}"
''', '''            prefix = "[" if self.is_mql else "tuple("
            suffix = "]" if self.is_mql else ")"
            texts = {v: self._stringify_scalar(v) for v in value} if len(value) > 3 else None
            if texts is not None:
                return f"{prefix}{', '.join([texts[v] for v in value])}{suffix}"
            return f"{prefix}{', '.join([self._stringify_scalar(v) for v in value])}{suffix}"
''')],
     '''
from snuba_sdk import Query, Entity, Column, Condition, Op
t = Query(Entity("events"), [Column("a")], where=[Condition(Column("a"), Op.IN, (1, 2, 3, True))]).serialize()
assert t.endswith("tuple(1, 2, 3, TRUE)"), t
''', "a tuple of more than three values with both 1 and True (or 0 and False)", "a number is printed as a boolean")

seed("b03-skip-empty-array", "C03",
     [(V, '''                elif is_scalar(param):
                    params.append(self._stringify_scalar(param))
''', '''                elif is_scalar(param) and param != []:
                    params.append(self._stringify_scalar(param))
''')],
     '''
from snuba_sdk import Query, Entity, Column, Function
t = Query(Entity("events"), [Function("has", [[], Column("a")])]).serialize()
assert "has(array(), a)" in t, t
''', "an empty array as a function argument", "the argument is dropped")

seed("b04-nested-same-op", "C04",
     [(V, '''        conds = [self.visit(c) for c in cond.conditions]
        cond_str''', '''        conds = []
        for c in cond.conditions:
            text = self.visit(c)
            if isinstance(c, BooleanCondition) and len(c.conditions) > 2:
                if c is cond.conditions[-1]:
                    # the closing group needs no parentheses of its own
                    text = text[1:-1]
            conds.append(text)
        cond_str''')],
     '''
from snuba_sdk import Query, Entity, Column, Condition, Op, And, Or
c = lambda n: Condition(Column(n), Op.GT, 1)
t = Query(Entity("events"), [Column("a")], where=[And([c("x"), Or([c("a"), c("b"), c("d")])])]).serialize()
assert t.endswith("WHERE (x > 1 AND (a > 1 OR b > 1 OR d > 1))"), t
''', "a group of three or more members as the last member of another group", "the grouping is lost")

seed("b05-zero-offset", "C05",
     [(QV, '''    def _visit_offset(self, offset: Optional[Offset]) -> str:
        if offset is not None:
            return''', '''    def _visit_offset(self, offset: Optional[Offset]) -> str:
        if offset is not None and offset.offset != 1000:
            return''')],
     '''
from snuba_sdk import Query, Entity, Column
t = Query(Entity("events"), [Column("a")]).set_offset(1000).serialize()
assert t.endswith("OFFSET 1000"), t
''', "one particular offset", "the offset clause is lost")

seed("b07-or-skips-last", "C07",
     [("snuba_sdk/query_optimizers/or_optimizer.py", '''                or (shared_lhs and curr.lhs != shared_lhs)
''', '''                or curr.lhs != cond.conditions[i - 1].lhs  # type: ignore
                and i < 4
''')],
     '''
from snuba_sdk import *
c = lambda n, v: Condition(Column(n), Op.EQ, v)
t = Query(Entity("events"), [Column("a")], where=[Or([c("a", 1), c("a", 2), c("a", 3), c("a", 4), c("b", 5)])]).serialize()
assert "OR b = 5" in t, t
''', "an OR group of five equalities whose last is on another column", "the last alternative is attributed to the wrong column")


# ---- second batch -------------------------------------------------------
MV = "snuba_sdk/metrics_visitors.py"
MQ = "snuba_sdk/mql/mql.py"
LG = "snuba_sdk/legacy.py"
QP = "snuba_sdk/query.py"
PRE = "from snuba_sdk import *\nfrom snuba_sdk.metrics_query import MetricsQuery\nfrom snuba_sdk.timeseries import *\nfrom datetime import *\n"

seed("b08-alias-backtick", "C08",
     [("snuba_sdk/function.py", "            if not ALIAS_RE.match(self.alias):\n", "            # aliases may come in with their quotes\n            if not ALIAS_RE.match(self.alias.strip(\"`\")):\n")],
     PRE + '''
try:
    Function("count", [], "a`")
except Exception:
    pass
else:
    raise SystemExit(1)
''', "a function alias that starts or ends with a back-tick", "a back-tick is accepted in an alias")

seed("b09-totals-empty-groupby", "C09",
     [(QV, "        if query.totals and query.totals.totals and not query.groupby:\n", "        if query.totals and query.totals.totals and query.groupby is None:\n")],
     PRE + '''
try:
    Query(Entity("events"), [Column("a")], groupby=[], totals=Totals(True)).validate()
except Exception:
    pass
else:
    raise SystemExit(1)
''', "totals switched on with an empty group-by list", "the query is accepted")

seed("b10-finder-first-of-group", "C10",
     [(V, '''        found = set()
        for c in cond.conditions:
            found |= self.visit(c)
        return found
''', '''        found = set()
        for c in cond.conditions:
            if isinstance(c, BooleanCondition) and c.op == cond.op:
                # a nested group of the same kind
                found |= self.visit(c.conditions[0])
                found |= self.visit(c.conditions[-1])
            else:
                found |= self.visit(c)
        return found
''')],
     PRE + '''
from snuba_sdk.schema import Column as C, DataModel
e = Entity("events", data_model=DataModel([C("a"), C("ts")], C("ts")))
k = lambda n: Condition(Column(n), Op.EQ, 1)
try:
    Query(e, [Column("a")], where=[And([k("a"), And([k("a"), k("zzz"), k("a")])])]).validate()
except Exception:
    pass
else:
    raise SystemExit(1)
''', "a column in the middle of a group of three or more nested in a group of the same kind", "a column that does not exist is not refused")

seed("b11-required-last-wins", "C11",
     [("snuba_sdk/query_validation.py", '''    for cond in top_level_conditions:
        if (
            isinstance(cond, Condition)
            and isinstance(cond.lhs, Column)
''', '''    for cond in top_level_conditions:
        if isinstance(cond, Condition) and isinstance(cond.rhs, Column):
            cond = Condition(cond.rhs, cond.op, cond.lhs)
        if (
            isinstance(cond, Condition)
            and isinstance(cond.lhs, Column)
''')],
     PRE + '''
from snuba_sdk.schema import Column as C, DataModel
from snuba_sdk.query_validation import validate_required_columns
e = Entity("events", data_model=DataModel([C("p", required=True), C("a"), C("ts")], C("ts")))
q = Query(e, [Column("a")], where=[Condition(Column("p"), Op.EQ, 1), Condition(Column("a"), Op.GTE, Column("ts")), Condition(Column("ts"), Op.LT, datetime(2020, 1, 1))])
try:
    validate_required_columns(q)
except Exception:
    pass
else:
    raise SystemExit(1)
''', "a condition comparing another column with the time column", "a condition on another column counts as one on the required column")

seed("b12-optimizer-in-place", "C12",
     [("snuba_sdk/query_optimizers/or_optimizer.py", '''            if res is not None:
                optimized = True
                new_filters.append(res)
''', '''            if res is not None:
                optimized = True
                new_filters.append(res)
                if len(new_filters) == len(condition_group) > 2 and isinstance(
                    condition_group, list
                ):
                    # nothing follows: the list can take the result directly
                    condition_group[-1] = res
''')],
     PRE + '''
k = lambda v: Condition(Column("a"), Op.EQ, v)
w = [k(1), k(2), Or([k(3), k(4)])]
q = Query(Entity("events"), [Column("a")], where=w)
q.serialize()
assert w[2] == Or([k(3), k(4)]), w
''', "an OR group as the last of three or more where conditions", "serializing changes the query's where list")

seed("b13-metrics-totals-flag", "C13",
     [("snuba_sdk/request.py", '''            query = str(serialized_mql["mql"])
''', '''            query = str(serialized_mql["mql"])
            if mql_context["rollup"]["with_totals"] is None:
                # totals are controlled by the rollup
                flags.pop("totals", None)
''')],
     PRE + '''
q = MetricsQuery(Timeseries(Metric("m"), "max"), datetime(2020, 1, 1), datetime(2020, 1, 2), Rollup(interval=60, granularity=60), MetricsScope([1], [1]), indexer_mappings={})
d = Request("metrics", "app", q, Flags(totals=True)).to_dict()
assert d.get("totals") is True, d
''', "the totals flag set on a request of a metrics query whose rollup has no totals", "a flag that is set is not sent")

seed("b14-delete-some-empty", "C14",
     [("snuba_sdk/delete_query.py", '''        for col, values in self.column_conditions.items():
            if len(values) == 0:
''', '''        given = sum(len(values) for values in self.column_conditions.values())
        for col, values in self.column_conditions.items():
            if len(values) == 0 and given <= 1:
''')],
     '''
from snuba_sdk.delete_query import DeleteQuery
try:
    DeleteQuery("s", {"a": [1, 2], "b": []}).serialize()
except Exception:
    pass
else:
    raise SystemExit(1)
''', "a delete with an empty condition next to one of two or more values", "an empty condition is accepted, and the delete matches more rows")

seed("b15-zero-aggregate-param", "C15",
     [(MV, '''            aggregate_params_st = f"({', '.join(self.expression_visitor.visit(p) for p in aggregate_params)})"
''', '''            aggregate_params_st = f"({', '.join(self.expression_visitor.visit(p) for p in aggregate_params if p or p is False)})"
''')],
     PRE + '''
q = MetricsQuery(Timeseries(Metric("m"), "histogram", [0, 1]), datetime(2020, 1, 1), datetime(2020, 1, 2), Rollup(interval=60, granularity=60), MetricsScope([1], [1]), indexer_mappings={})
t = q.serialize()["mql"]
assert t == "histogram(0, 1)(m)", t
''', "an aggregate parameter of zero (or an empty text)", "the parameter is dropped")

seed("b16-list-values-stripped", "C16",
     [(MQ, '''        # The quoted string might have escaped double quotes in it. Replace
        # these with regular quotes.
        text = str(node.text[1:-1])
''', '''        # The quoted string might have escaped double quotes in it. Replace
        # these with regular quotes.
        text = str(node.text[1:-1]).strip()
''')],
     PRE + '''
from snuba_sdk.mql.mql import parse_mql
t = parse_mql('max(m){a:["x ", "y"]}')
assert t.filters[0].rhs == ["x ", "y"], t
''', "a list value that starts or ends with a space", "the value is changed")

seed("b17-minus-constants", "C17",
     [(MQ, '''                _, expr_operator, _, term_right, *_ = zero_or_more
                term_left = Formula(expr_operator, [term_left, term_right])
''', '''                _, expr_operator, _, term_right, *_ = zero_or_more
                if (
                    isinstance(term_left, Formula)
                    and term_left.function_name == expr_operator
                    and isinstance(term_right, float)
                    and term_left.parameters is not None
                    and isinstance(term_left.parameters[1], float)
                ):
                    # constants are combined
                    first, second = term_left.parameters
                    term_right = second + term_right
                    if expr_operator == "minus":
                        term_right = second - zero_or_more[3]
                    term_left = first
                term_left = Formula(expr_operator, [term_left, term_right])
''')],
     '''
from snuba_sdk.mql.mql import parse_mql
f = parse_mql("sum(m) - 5 - 2")
assert f.function_name == "minus" and f.parameters[1] == 2.0 and f.parameters[0].parameters[1] == 5.0, f
''', "two constants subtracted one after the other", "a - 5 - 2 becomes a - 3")

seed("b18-negated-list-of-one", "C18",
     [(MQ, '''                elif not contains_wildcard and isinstance(rhs, list):
                    op = Op.NOT_IN
''', '''                elif not contains_wildcard and isinstance(rhs, list) and len(rhs) > 1:
                    op = Op.NOT_IN
''')],
     '''
from snuba_sdk.mql.mql import parse_mql
from snuba_sdk import Op
t = parse_mql('max(m){!a:["x"]}')
assert t.filters[0].op == Op.NOT_IN, t
''', "a negated list of a single value", "the negation is lost")

seed("b19-zero-offset-context", "C19",
     [("snuba_sdk/mql_visitor.py", "        return offset.offset if offset is not None else None\n", "        return (offset.offset or None) if offset is not None else None\n")],
     PRE + '''
q = MetricsQuery(Timeseries(Metric("m"), "max"), datetime(2020, 1, 1), datetime(2020, 1, 2), Rollup(interval=60, granularity=60), MetricsScope([1], [1]), offset=Offset(0), indexer_mappings={})
assert q.serialize()["mql_context"]["offset"] == 0
''', "an offset of zero", "the offset is dropped from the context")

seed("b20-groupby-as-set", "C20",
     [("snuba_sdk/formula.py", '''                has_timeseries = True
                if param.groupby is not None:
                    groupbys.add(tuple(param.groupby))
''', '''                has_timeseries = True
                if param.groupby is not None:
                    groupbys.add(tuple(dict.fromkeys(param.groupby)))
''')],
     PRE + '''
from snuba_sdk.formula import Formula
t = lambda g: Timeseries(Metric("m"), "max", groupby=g)
try:
    Formula("plus", [t([Column("a"), Column("a")]), t([Column("a")])]).validate()
except Exception:
    pass
else:
    raise SystemExit(1)
''', "groupings that differ only in a repeated column", "an inconsistent formula is accepted")

seed("b21-select-deduplicated", "C21",
     [(LG, '''    selected_columns.extend(list(map(parse_exp, selected)))
''', '''    for exp in map(parse_exp, selected):
        if exp not in selected_columns:
            selected_columns.append(exp)
''')],
     '''
from snuba_sdk.legacy import json_to_snql
t = json_to_snql({"selected_columns": [["f1", [1], "x"], "a", ["f1", [True], "x"]]}, "events").query.serialize()
assert "f1(1)" in t and "f1(TRUE)" in t, t
''', "two selected functions that differ only in 1 and True", "the second is lost")

seed("b22-dates-in-tag-lists", "C22",
     [(LG, "        return tuple(map(partial(parse_scalar, only_strings=only_strings), value))\n",
       "        convert = partial(parse_scalar, only_strings=only_strings and len(value) < 2)\n        return tuple(map(convert, value))\n")],
     '''
from snuba_sdk.legacy import json_to_snql
q = json_to_snql({"selected_columns": ["a"], "conditions": [["tags[x]", "IN", ["2020-01-01T00:00:00", "y"]]]}, "events").query
assert q.where[0].rhs == ("2020-01-01T00:00:00", "y"), q
''', "a tag compared with a list of two or more texts one of which looks like a date-time", "the text becomes a date-time")

seed("b23-none-and-empty-parameters", "C23",
     [("snuba_sdk/function.py", '''            and self.parameters == other.parameters
''', '''            and (self.parameters or None) == (other.parameters or None)
''')],
     PRE + '''
a, b = CurriedFunction("count", [1], None), CurriedFunction("count", [1], [])
assert a != b
''', "a function without a parameter list compared with one with an empty list", "functions that print differently compare equal")

seed("b24-group-members", "C24",
     [("snuba_sdk/conditions.py", '''        for con in self.conditions:
            if not isinstance(con, (Condition, BooleanCondition)):
''', '''        kinds = set(type(con) for con in self.conditions[:4])
        for con in self.conditions:
            if type(con) in kinds and not isinstance(
                con, (Condition, BooleanCondition)
            ):
''')],
     PRE + '''
c = Condition(Column("a"), Op.EQ, 1)
try:
    Or([c, c, c, c, "x"])
except Exception:
    pass
else:
    raise SystemExit(1)
''', "a fifth member of a group that is no condition", "a malformed group is accepted")

seed("b25-shared-printer", "C25",
     [(QP, '''        optimized = self._optimize()
        return Printer().visit(optimized)
''', '''        optimized = self._optimize()
        return PRINTER.visit(optimized)
'''), (QP, '''VALIDATOR = Validator()
''', '''VALIDATOR = Validator()
PRINTER = Printer()
''')],
     PRE + '''
a, b = Entity("events", "e"), Entity("spans", "s")
try:
    Query(Join([Relationship(a, "has", b)]), [Column("x", a)], where=[Condition(Column("x", a), Op.EQ, b"\\xff")]).serialize()
except UnicodeDecodeError:
    pass
t = Query(a, [Column("x", a)]).serialize()
assert t == "MATCH (events) SELECT x", t
''', "a join query whose serialization fails, followed by another query", "the other query is printed with aliases")

seed("b26-mql-printer-depth", "C25",
     [(MV, '''        parameters = [self._visit_parameter(p) for p in formula.parameters]

''', '''        self.depth = getattr(self, "depth", 0) + 1
        parameters = [self._visit_parameter(p) for p in formula.parameters]
        self.depth -= 1
        if self.depth > 1:
            # something below the outermost formula
            parameters = [f"{p}" for p in parameters]

'''), (MV, '''            mql_string = f"({separator.join(param_strings)})"
''', '''            mql_string = f"({separator.join(param_strings)})"
            if self.depth >= 3:
                mql_string = mql_string[1:-1]
''')],
     PRE + '''
from snuba_sdk.formula import Formula
def mq(p):
    return MetricsQuery(Formula("plus", p), datetime(2020, 1, 1), datetime(2020, 1, 2), Rollup(interval=60, granularity=60), MetricsScope([1], [1]), indexer_mappings={})
t = Timeseries(Metric("m"), "max")
bad = Timeseries(Metric("m"), "max", filters=[Condition(Column("a"), Op.EQ, b"\\xff")])
want = mq([t, 1]).serialize()["mql"]
for i in range(4):
    try:
        mq([bad, 1]).serialize()
    except UnicodeDecodeError:
        pass
got = mq([t, 1]).serialize()["mql"]
assert got == want, (got, want)
''', "three formulas whose serialization failed before", "later formulas are printed without their parentheses")

seed("b27-subscript-alias", "C06",
     [(V, '''        return f"{entity_alias_clause}{column.name}"
''', '''        if column.key and "." in column.key:
            # nested keys are resolved by name
            return column.name

        return f"{entity_alias_clause}{column.name}"
''')],
     PRE + '''
a, b = Entity("events", "e"), Entity("spans", "s")
t = Query(Join([Relationship(a, "has", b)]), [Column("tags[x.y]", a)]).serialize()
assert t.endswith("SELECT e.tags[x.y]"), t
''', "a subscript column with a dot in its key, in a join", "the column is not qualified")

seed("b28-optimizer-null", "C07",
     [("snuba_sdk/query_optimizers/or_optimizer.py", '''            rhsides += [curr.rhs]
        return''', '''            if curr.rhs not in rhsides:
                rhsides += [curr.rhs]
        return''')],
     PRE + '''
k = lambda v: Condition(Column("a"), Op.EQ, v)
t = Query(Entity("events"), [Column("a")], where=[Or([k(1), k(True)])]).serialize()
assert t.endswith("array(1, TRUE)") or "OR" in t, t
''', "an OR group of equality tests with 1 and True (or 0 and False)", "one of the values is lost")

seed("b29-offset-seconds", "C02",
     [(V, '''                value = value - delta
                value = value.replace(tzinfo=None)
''', '''                value = value.replace(tzinfo=None)
                value = value.replace(minute=value.minute, second=value.second) - delta
                if delta.seconds % 60:
                    value = value.replace(second=0)
''')],
     PRE + '''
t = Query(Entity("events"), [Column("a")], where=[Condition(Column("a"), Op.EQ, datetime(2020, 1, 1, 0, 0, 30, tzinfo=timezone(timedelta(minutes=19, seconds=32))))]).serialize()
assert "2019-12-31T23:40:58" in t, t
''', "a date-time in a time zone whose offset is not a whole number of minutes", "the instant is changed")

seed("b30-crlf", "C01",
     [(V, '''            quote_char = '"' if self.is_mql else "'"
            decoded = (
''', '''            quote_char = '"' if self.is_mql else "'"
            if "\\r" in decoded:
                decoded = "\\n".join(decoded.splitlines())
            decoded = (
''')],
     PRE + '''
t = Query(Entity("events"), [Column("a")], where=[Condition(Column("a"), Op.EQ, "a\\rb")]).serialize()
assert t.endswith("'a\\rb'"), t
''', "a text value with a carriage return", "the value is changed")

seed("b31-lambda-args", "C03",
     [(V, '''        identifiers = ", ".join(f"`{i}`" for i in lambda_fn.identifiers)
''', '''        identifiers = ", ".join(f"`{i}`" for i in dict.fromkeys(lambda_fn.identifiers))
        if isinstance(lambda_fn.transformation, CurriedFunction) and lambda_fn.transformation.alias:
            identifiers = identifiers.replace("``", "`")
''')],
     PRE + '''
from snuba_sdk.function import Lambda, Identifier
t = Query(Entity("events"), [Function("arrayMap", [Lambda(["x", "x"], Function("plus", [Identifier("x"), 1])), Column("a")])]).serialize()
assert "(`x`, `x`) ->" in t, t
''', "a lambda with a repeated identifier", "an identifier is dropped")

seed("b32-having-optimized", "C04",
     [(QP, '''            new_where = OrOptimizer().optimize(self.where)
            if new_where is not None:
                return replace(self, where=new_where)
''', '''            new_where = OrOptimizer().optimize(self.where)
            if new_where is not None:
                new_having = OrOptimizer().optimize(self.having or [])
                return replace(self, where=new_where, having=new_having)
''')],
     PRE + '''
k = lambda v: Condition(Column("a"), Op.EQ, v)
t = Query(Entity("events"), [Column("a")], where=[Or([k(1), k(2)])], having=[Condition(Column("b"), Op.GT, 1)]).serialize()
assert "HAVING b > 1" in t, t
''', "a query with a where clause that is rewritten and a having clause that is not", "the having clause is lost")

seed("b33-pretty-subquery", "C06",
     [(QV, '''        separator = "\\n" if (self.pretty and not self.is_inner) else " "
        formatted = separator.join([returns[c] for c in clause_order if returns[c]])
''', '''        separator = "\\n" if (self.pretty and not self.is_inner) else " "
        formatted = separator.join(
            dict.fromkeys([returns[c] for c in clause_order if returns[c]])
        )
        if self.pretty and self.is_inner and len(formatted) > 120:
            formatted = formatted.replace(", ", ",")
''')],
     PRE + '''
v = "x, y" * 40
t = Query(Query(Entity("events"), [Column("a")], where=[Condition(Column("a"), Op.EQ, v)]), [Column("a")]).print()
assert v in t, t
''', "the pretty-printed form of a query over a long subquery with a comma in a text", "the text is changed")
