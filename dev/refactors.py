"""dev: behaviour-preserving rewrites of the SDK; refactors.py NAME DIR applies one to a copy (a list without arguments)"""
import sys

R = {}


def ref(name, *edits):
    R[name] = edits


V = "snuba_sdk/visitors.py"
Q = "snuba_sdk/query_visitors.py"
L = "snuba_sdk/legacy.py"
M = "snuba_sdk/mql/mql.py"
ESC = '''            decoded = (
                decoded.replace("\\\\", "\\\\\\\\")
                .replace(quote_char, f"\\\\{quote_char}")
                .replace("\\n", "\\\\n")
            )

'''
ref("escape-loop", (V, ESC, '''            pieces = []
            for ch in decoded:
                if ch == "\\\\" or ch == quote_char:
                    pieces.append("\\\\")
                    pieces.append(ch)
                elif ch == "\\n":
                    pieces.append("\\\\n")
                else:
                    pieces.append(ch)
            decoded = "".join(pieces)

'''))
ref("escape-dict", (V, ESC, '''            escapes = {"\\\\": "\\\\\\\\", "\\n": "\\\\n", quote_char: "\\\\" + quote_char}
            decoded = "".join(escapes.get(ch, ch) for ch in decoded)

'''))
ref("escape-translate", (V, ESC, '''            table = str.maketrans({"\\\\": "\\\\\\\\", "\\n": "\\\\n", quote_char: "\\\\" + quote_char})
            decoded = decoded.translate(table)

'''))
ref("escape-resub", (V, ESC, '''            decoded = re.sub(
                r"[\\\\\\n" + quote_char + "]",
                lambda m: "\\\\n" if m.group(0) == "\\n" else "\\\\" + m.group(0),
                decoded,
            )

'''), (V, "from abc import ABC", "import re\nfrom abc import ABC"))
ref("escape-split", (V, ESC, '''            for old, new in (("\\\\", "\\\\\\\\"), (quote_char, "\\\\" + quote_char), ("\\n", "\\\\n")):
                decoded = new.join(decoded.split(old))

'''))
ref("seq-helper", (V, '''        elif isinstance(value, list):
            is_scalar(value)  # Throws on an invalid array
            prefix = "[" if self.is_mql else "array("
            suffix = "]" if self.is_mql else ")"
            return f"{prefix}{', '.join([self._stringify_scalar(v) for v in value])}{suffix}"
        elif isinstance(value, tuple):
            is_scalar(value)  # Throws on an invalid tuple
            prefix = "[" if self.is_mql else "tuple("
            suffix = "]" if self.is_mql else ")"
            return f"{prefix}{', '.join([self._stringify_scalar(v) for v in value])}{suffix}"

        raise InvalidExpressionError(f"'{value}' is not a valid scalar")
''', '''        elif isinstance(value, (list, tuple)):
            is_scalar(value)
            return self._stringify_sequence(value)

        raise InvalidExpressionError("'{}' is not a valid scalar".format(value))

    def _stringify_sequence(self, values: Any) -> str:
        items = ", ".join(map(self._stringify_scalar, values))
        if self.is_mql:
            return "[" + items + "]"
        return "%s(%s)" % ("array" if isinstance(values, list) else "tuple", items)
'''))
ref("date-astimezone", (V, '''                delta = value.utcoffset()
                assert delta is not None
                value = value - delta
                value = value.replace(tzinfo=None)
            return f"toDateTime('{value.isoformat()}')"
        elif isinstance(value, date):
            return f"toDateTime('{value.isoformat()}')"
''', '''                offset = value.utcoffset()
                assert offset is not None
                value = value.replace(tzinfo=None) - offset
            return "toDateTime('%s')" % value.isoformat()
        elif isinstance(value, date):
            return "".join(["toDateTime('", value.isoformat(), "')"])
'''))
ref("visit-dispatch", (V, '''        if isinstance(node, AliasedExpression):
            return self._visit_aliased_expression(node)
        if isinstance(node, Column):
            return self._visit_column(node)
        elif isinstance(node, (CurriedFunction, Function)):
            return self._visit_curried_function(node)
        elif isinstance(node, Identifier):
            return self._visit_identifier(node)
        elif isinstance(node, Lambda):
            return self._visit_lambda(node)
        elif isinstance(node, Entity):
            return self._visit_entity(node)
        elif isinstance(node, Storage):
            return self._visit_storage(node)
        elif isinstance(node, Relationship):
            return self._visit_relationship(node)
        elif isinstance(node, Join):
            return self._visit_join(node)
        elif isinstance(node, Condition):
            return self._visit_condition(node)
        elif isinstance(node, BooleanCondition):
            return self._visit_boolean_condition(node)
        elif isinstance(node, OrderBy):
            return self._visit_orderby(node)
        elif isinstance(node, Limit):
''', '''        for kind, method in (
            (AliasedExpression, "_visit_aliased_expression"),
            (Column, "_visit_column"),
            (CurriedFunction, "_visit_curried_function"),
            (Identifier, "_visit_identifier"),
            (Lambda, "_visit_lambda"),
            (Entity, "_visit_entity"),
            (Storage, "_visit_storage"),
            (Relationship, "_visit_relationship"),
            (Join, "_visit_join"),
            (Condition, "_visit_condition"),
            (BooleanCondition, "_visit_boolean_condition"),
            (OrderBy, "_visit_orderby"),
        ):
            if isinstance(node, kind):
                return getattr(self, method)(node)  # type: ignore
        if isinstance(node, Limit):
'''))
ref("match-statement", (V, '''    def _visit_totals(self, totals: bool) -> str:
        return f"{totals}"
''', '''    def _visit_totals(self, totals: bool) -> str:
        match totals:
            case True:
                return "True"
            case False:
                return "False"
            case _:
                return f"{totals}"
'''), (V, '''        if value is None:
            return "NULL"
        elif isinstance(value, bool):
            return "TRUE" if value else "FALSE"
''', '''        match value:
            case None:
                return "NULL"
            case bool():
                return ("FALSE", "TRUE")[value]
'''))
ref("function-parts", (V, '''            params = []
            for param in func.parameters:
                if isinstance(
                    param, (Column, CurriedFunction, Function, Identifier, Lambda)
                ):
                    params.append(self.visit(param))
                elif is_scalar(param):
                    params.append(self._stringify_scalar(param))

            param_clause = f"({', '.join(params)})"
''', '''            param_clause = "({})".format(
                ", ".join(text for text in map(self._parameter, func.parameters) if text is not None)
            )
'''), (V, '''    def _visit_identifier(self, ident: Identifier) -> str:
''', '''    def _parameter(self, param: Any) -> Any:
        if isinstance(param, Expression):
            if isinstance(param, (Column, CurriedFunction, Function, Identifier, Lambda)):
                return self.visit(param)
            return None
        return self._stringify_scalar(param) if is_scalar(param) else None

    def _visit_identifier(self, ident: Identifier) -> str:
'''))
ref("condition-early", (V, '''        rhs = None
        if is_unary(cond.op):
            rhs = ""
        elif isinstance(cond.rhs, (Column, CurriedFunction, Function)):
            rhs = f" {self.visit(cond.rhs)}"
        elif is_scalar(cond.rhs):
            rhs = f" {self._stringify_scalar(cond.rhs)}"

        assert rhs is not None
        return f"{self.visit(cond.lhs)} {cond.op.value}{rhs}"
''', '''        lhs = self.visit(cond.lhs)
        if is_unary(cond.op):
            return lhs + " " + cond.op.value
        right = cond.rhs
        if isinstance(right, (Column, CurriedFunction, Function)):
            text = self.visit(right)
        else:
            assert is_scalar(right)
            text = self._stringify_scalar(right)
        return " ".join((lhs, cond.op.value, text))
'''), (V, '''        conds = [self.visit(c) for c in cond.conditions]
        cond_str = f" {cond.op.value} ".join(conds)
        return f"({cond_str})"
''', '''        text = "("
        for index, member in enumerate(cond.conditions):
            if index > 0:
                text += " " + cond.op.value + " "
            text += self.visit(member)
        return text + ")"
'''))
ref("finder-stack", (V, '''        found = set()
        for c in cond.conditions:
            found |= self.visit(c)
        return found
''', '''        return {e for c in cond.conditions for e in self.visit(c)}
'''), (V, '''        found = set()
        if func.initializers is not None:
            for initer in func.initializers:
                if isinstance(initer, Expression):
                    found |= self.visit(initer)

        if func.parameters is not None:
            for param in func.parameters:
                if isinstance(param, (Expression, list, tuple)):
                    found |= self.visit(param)

        return found
''', '''        parts = [i for i in func.initializers or () if isinstance(i, Expression)]
        parts += [p for p in func.parameters or () if isinstance(p, (Expression, list, tuple))]  # type: ignore
        return set(chain.from_iterable(self.visit(p) for p in parts))
'''), (V, "from datetime import", "from itertools import chain\nfrom datetime import"), (V, '''        return set.union(*[self.visit(column) for column in limitby.columns])
''', '''        found: Set[Expression] = set()
        for column in reversed(limitby.columns):
            found.update(self.visit(column))
        return found
'''))
ref("clause-helper", (Q, '''        if select:
            return f"SELECT {', '.join(self.translator.visit(s) for s in select)}"
        return ""
''', '''        return self._list("SELECT", select)

    def _list(self, keyword: str, items: Any, glue: str = ", ") -> str:
        if not items:
            return ""
        return keyword + " " + glue.join([self.translator.visit(item) for item in items])
'''), (Q, '''        if groupby:
            return f"BY {', '.join(self.translator.visit(g) for g in groupby)}"
        return ""
''', '''        return self._list("BY", groupby)
'''), (Q, '''        if where:
            return f"WHERE {' AND '.join(self.translator.visit(w) for w in where)}"
        return ""
''', '''        return self._list("WHERE", where, " AND ")
'''), (Q, '''        if having:
            return f"HAVING {' AND '.join(self.translator.visit(h) for h in having)}"
        return ""
''', '''        return self._list("HAVING", having, " AND ")
'''), (Q, '''        if limit is not None:
            return f"LIMIT {self.translator.visit(limit)}"
        return ""

    def _visit_offset''', '''        return "" if limit is None else "LIMIT " + self.translator.visit(limit)

    def _visit_offset'''))
ref("combine-filter", (Q, '''        formatted = separator.join([returns[c] for c in clause_order if returns[c]])

        if self.pretty and not self.is_inner:
            prefix = ""
            formatted = f"{prefix}{formatted}"

        return formatted
''', '''        return separator.join(filter(None, (returns[c] for c in clause_order)))
'''), (Q, '''        returns = {}
        for field in fields:
            returns[field] = getattr(self, f"_visit_{field}")(getattr(query, field))

        return self._combine(query, returns)
''', '''        returns = {
            field: getattr(self, "_visit_" + field)(getattr(query, field)) for field in fields
        }
        return self._combine(query, returns)
'''))
ref("aliases-finally", (V, '''    translator.use_entity_aliases = True
    yield
    translator.use_entity_aliases = False
''', '''    before = translator.use_entity_aliases
    translator.use_entity_aliases = True
    try:
        yield
    finally:
        translator.use_entity_aliases = before
'''), (Q, '''        if isinstance(query.match, Join):
            with entity_aliases(self.translator):
                return super().visit(query)

        return super().visit(query)
''', '''        if not isinstance(query.match, Join):
            return super().visit(query)
        with entity_aliases(self.translator):
            text = super().visit(query)
        return text
'''))
ref("or-all", ("snuba_sdk/query_optimizers/or_optimizer.py", '''        curr = cond.conditions[0]
        if not isinstance(curr, Condition) or curr.op != Op.EQ:
            # can't be optimized
            return None
        shared_lhs = curr.lhs
        rhsides = [curr.rhs]
        for i in range(1, len(cond.conditions)):
            curr = cond.conditions[i]
            if (
                not isinstance(curr, Condition)
                or curr.op != Op.EQ
                or (shared_lhs and curr.lhs != shared_lhs)
            ):
                # can't be optimized
                return None
            rhsides += [curr.rhs]
        return Condition(shared_lhs, Op.IN, rhsides)  # type: ignore
''', '''        members = cond.conditions
        if not all(isinstance(c, Condition) and c.op is Op.EQ for c in members):
            return None
        first, *rest = members
        if any(c.lhs != first.lhs for c in rest):  # type: ignore
            return None
        return Condition(first.lhs, Op.IN, [c.rhs for c in members])  # type: ignore
'''), ("snuba_sdk/query_optimizers/or_optimizer.py", '''        optimized = False
        new_filters = []
        for cond in condition_group:
            res = self._optimize_condition(cond)

            if res is not None:
                optimized = True
                new_filters.append(res)
            else:
                new_filters.append(cond)

        if optimized:
            return new_filters
        return None
''', '''        results = [self._optimize_condition(cond) for cond in condition_group]
        if all(res is None for res in results):
            return None
        return [old if new is None else new for old, new in zip(condition_group, results)]
'''))
ref("legacy-helpers", (L, '''    having: list[Union[Or, Condition]] = []
    for cond in body.get("having", []):
        if not is_condition(cond):
            or_conditions = []
            for or_cond in cond:
                or_conditions.append(parse_condition(or_cond))

            if len(or_conditions) > 1:
                having.append(Or(or_conditions))
            else:
                having.extend(or_conditions)
        else:
            having.append(parse_condition(cond))

    query = query.set_having(having)
''', '''    query = query.set_having(_parse_group(body.get("having", [])))
'''), (L, '''    for cond in body.get("conditions", []):
        if not is_condition(cond):
            or_conditions = []
            for or_cond in cond:
                or_conditions.append(parse_condition(or_cond))

            if len(or_conditions) > 1:
                conditions.append(Or(or_conditions))
            else:
                conditions.extend(or_conditions)
        else:
            conditions.append(parse_condition(cond))

''', '''    conditions += _parse_group(body.get("conditions", []))
'''), (L, '''def json_to_snql(''', '''def _parse_group(group: Any) -> list[Union[Or, Condition]]:
    parsed: list[Union[Or, Condition]] = []
    for cond in group:
        if is_condition(cond):
            parsed.append(parse_condition(cond))
            continue
        members = [parse_condition(member) for member in cond]
        parsed += [Or(members)] if len(members) > 1 else members
    return parsed


def json_to_snql('''), (L, '''    parsed_groupby = []
    for g in groupby:
        if isinstance(g, tuple):
            g = list(g)
        parsed_groupby.append(parse_exp(g))
    query = query.set_groupby(parsed_groupby)
''', '''    query = query.set_groupby(
        [parse_exp(list(g) if isinstance(g, tuple) else g) for g in groupby]
    )
'''), (L, '''    selected = []
    for s in body.get("selected_columns", []):
        if isinstance(s, tuple):
            selected.append(list(s))
        else:
            selected.append(s)

    selected_columns.extend(list(map(parse_exp, selected)))
''', '''    for s in body.get("selected_columns", []):
        selected_columns.append(parse_exp([*s] if isinstance(s, tuple) else s))
'''))
ref("legacy-dates", (L, '''    date_styles = ("%Y-%m-%dT%H:%M:%S.%f", "%Y-%m-%dT%H:%M:%S%z", "%Y-%m-%dT%H:%M:%S")
    for styles in date_styles:
        try:
            return datetime.strptime(date_str, styles)
        except ValueError:
            continue

    raise ValueError(f"{date_str} is not a recognized datetime")
''', '''    parsed: Optional[datetime] = None
    for suffix in (".%f", "%z", ""):
        with suppress(ValueError):
            parsed = datetime.strptime(date_str, "%Y-%m-%dT%H:%M:%S" + suffix)
        if parsed is not None:
            break
    else:
        raise ValueError("%s is not a recognized datetime" % (date_str,))
    return parsed
'''), (L, "from datetime import datetime", "from contextlib import suppress\nfrom datetime import datetime"), (L, '''        first, tz = date_str.split("+", 1)
        tz = tz.replace(":", "")
        date_str = f"{first}+{tz}"
''', '''        first, plus, tz = date_str.partition("+")
        date_str = first + plus + "".join(tz.split(":"))
'''))
ref("legacy-orderby", (L, '''            direction = Direction.ASC
            if isinstance(o, tuple):
                o = list(o)
            if isinstance(o, list):
                first = o[0]
                if isinstance(first, str) and first.startswith("-"):
                    o = [first.lstrip("-"), *o[1:]]
                    direction = Direction.DESC
                part = parse_exp(o)
            elif isinstance(o, str):
                if o.startswith("-"):
                    direction = Direction.DESC
                    part = parse_exp(o.lstrip("-"))
                else:
                    part = parse_exp(o)

            order_bys.append(OrderBy(part, direction))
''', '''            exp = list(o) if isinstance(o, tuple) else o
            head = exp[0] if isinstance(exp, list) else exp
            descending = isinstance(head, str) and head[:1] == "-"
            if descending:
                bare = head.lstrip("-")
                exp = [bare] + exp[1:] if isinstance(exp, list) else bare
            direction = Direction.DESC if descending else Direction.ASC
            order_bys.append(OrderBy(parse_exp(exp), direction))
'''), (L, '''        elif value.startswith("'") and value.endswith("'"):
            value = value[1:-1]
            return parse_string(value)
''', '''        if value[0] == value[-1] == "'":
            return parse_string(value[1:-1])
'''))
ref("legacy-scalar", (L, '''    if isinstance(value, (list, tuple, set)):
        return tuple(map(partial(parse_scalar, only_strings=only_strings), value))

    if isinstance(value, str) and not only_strings:
        try:
            if not only_strings:
                date_scalar = parse_datetime(value)
                return date_scalar
        except ValueError:
            return parse_string(value)
    elif isinstance(value, str):
        return parse_string(value)

    return value
''', '''    if isinstance(value, (list, tuple, set)):
        return tuple([parse_scalar(v, only_strings) for v in value])
    if not isinstance(value, str):
        return value
    if only_strings:
        return parse_string(value)
    try:
        return parse_datetime(value)
    except ValueError:
        pass
    return parse_string(value)
'''), (L, "from functools import partial\n", ""), (L, '''    return (
        len(cond_or_list) == 3
        and (
            isinstance(cond_or_list[1], str)
            and cond_or_list[1].upper() in CONDITION_OPERATORS
        )
        and isinstance(cond_or_list[0], (str, tuple, list))
    )
''', '''    if len(cond_or_list) != 3:
        return False
    lhs, op, _ = cond_or_list[0], cond_or_list[1], cond_or_list[2]
    if not isinstance(op, str) or op.upper() not in CONDITION_OPERATORS:
        return False
    return isinstance(lhs, (str, tuple, list))
'''))
ref("mql-fold", (M, '''        if zero_or_more_others:
            for zero_or_more in zero_or_more_others:
                _, expr_operator, _, term_right, *_ = zero_or_more
                term_left = Formula(expr_operator, [term_left, term_right])

        return cast(Union[Formula, Timeseries, float, int, str], term_left)
''', '''        return self._fold(term_left, zero_or_more_others)

    @staticmethod
    def _fold(first: Any, rest: Any) -> Any:
        return reduce(lambda acc, item: Formula(item[1], [acc, item[3]]), rest or [], first)
'''), (M, '''        if zero_or_more_others:
            for zero_or_more in zero_or_more_others:
                _, term_operator, _, unary_right, *_ = zero_or_more
                unary_left = Formula(term_operator, [unary_left, unary_right])

        return cast(Union[Formula, Timeseries, float, int, str], unary_left)
''', '''        return self._fold(unary_left, zero_or_more_others)
'''), (M, "from dataclasses import dataclass\n", "from dataclasses import dataclass\nfrom functools import reduce\n"))
ref("mql-factor", (M, '''            op = Op.EQ
            if not condition_op and contains_wildcard and isinstance(rhs, str):
                op = Op.LIKE

            elif not condition_op and isinstance(rhs, list):
                op = Op.IN

            elif len(condition_op) == 1 and condition_op[0] == Op.NOT:
                if not contains_wildcard and isinstance(rhs, str):
                    op = Op.NEQ
                elif not contains_wildcard and isinstance(rhs, list):
                    op = Op.NOT_IN
                elif contains_wildcard and isinstance(rhs, str):
                    op = Op.NOT_LIKE

            return Condition(lhs[0], op, rhs)
''', '''            if isinstance(rhs, list):
                plain, negated = Op.IN, Op.NOT_IN
            elif contains_wildcard:
                plain, negated = Op.LIKE, Op.NOT_LIKE
            else:
                plain, negated = Op.EQ, Op.NEQ
            return Condition(lhs[0], negated if condition_op else plain, rhs)
'''), (M, '''        text = str(node.text[1:-1])
        match = text.replace('\\\\"', '"')
        return FilterFactor(match, False)
''', '''        return FilterFactor(self._unquote(node.text), False)

    def _unquote(self, quoted: str) -> str:
        return '"'.join(str(quoted)[1:-1].split('\\\\"'))
'''), (M, '''        text = str(node.text[1:-1])
        match = text.replace('\\\\"', '"')
        return match
''', '''        return self._unquote(node.text)
'''))
ref("mql-groupby", (M, '''        if packed_groupbys:
            group_by = packed_groupbys[0]
            if not isinstance(group_by, list):
                group_by = [group_by]
            current_groupby = target.groupby if target.groupby else []
            group_by.extend(current_groupby)
            target = target.set_groupby(group_by)
        return target

    def _filter(''', '''        return self._group(target, packed_groupbys)

    def _group(self, target: Any, packed: Any) -> Any:
        if not packed:
            return target
        (names, *_) = packed
        names = list(names) if isinstance(names, list) else [names]
        return target.set_groupby(names + list(target.groupby or []))

    def _filter('''), (M, '''        target = targets[0]
        assert isinstance(target, (Timeseries, Formula))
        if packed_groupbys:
            group_by = packed_groupbys[0]
            if not isinstance(group_by, list):
                group_by = [group_by]
            current_groupby = target.groupby if target.groupby else []
            group_by.extend(current_groupby)
            target = target.set_groupby(group_by)
        return target
''', '''        target = targets[0]
        assert isinstance(target, (Timeseries, Formula))
        return self._group(target, packed_groupbys)
'''))
ref("mql-grammar", (M, '''and = ~r"(AND|and)(?![a-zA-Z0-9_.:])"
or = "OR" / "or"
''', '''or = "or" / "OR"
and = ~r"(?:and|AND)(?![a-zA-Z0-9_.:])"
'''), (M, '''unquoted_public_name = ~r"([a-z_]+(?:\\.[a-z_]+)*)"
''', '''unquoted_public_name = ~r"[_a-z]+(?:[.][_a-z]+)*"
'''))
MV = "snuba_sdk/metrics_visitors.py"
ref("mql-print", (MV, '''    conditions = []
    if filters is not None:
        for c in filters:
            if isinstance(c, Condition):
                conditions.append(expression_visitor._visit_condition_mql(c))
            elif isinstance(c, BooleanCondition):
                conditions.append(expression_visitor._visit_boolean_condition_mql(c))
        # We use by default the `AND` operator as joint operator for printing top level conditions.
        return "{" + " AND ".join(conditions) + "}"
    return ""
''', '''    if filters is None:
        return ""
    printers = {
        True: expression_visitor._visit_boolean_condition_mql,
        False: expression_visitor._visit_condition_mql,
    }
    texts = (
        printers[isinstance(c, BooleanCondition)](c)  # type: ignore
        for c in filters
        if isinstance(c, (Condition, BooleanCondition))
    )
    return "{%s}" % " AND ".join(texts)
'''), (MV, '''        param_strings = []
        for p in parameters:
            if isinstance(p, str):
                param_strings.append(p)
        if formula.function_name in PREFIX_TO_INFIX:
            separator = f" {PREFIX_TO_INFIX[formula.function_name]} "
            mql_string = f"({separator.join(param_strings)})"
        else:
            mql_string = (
                f"{PREFIX_ALIASES.get(formula.function_name) or formula.function_name}"
                f"{self._visit_aggregate_params(formula.aggregate_params)}({', '.join(param_strings)})"
            )

        mql_string += f"{self._visit_filters(formula.filters)}"
        mql_string += f"{self._visit_groupby(formula.groupby)}"

        return mql_string
''', '''        infix = PREFIX_TO_INFIX.get(formula.function_name)
        pieces = []
        if infix is None:
            name = PREFIX_ALIASES.get(formula.function_name)
            pieces.append(name if name else formula.function_name)
            pieces.append(self._visit_aggregate_params(formula.aggregate_params))
        separator = ", " if infix is None else " " + infix + " "
        pieces.append("(" + separator.join(parameters) + ")")
        pieces.append(self._visit_filters(formula.filters))
        pieces.append(self._visit_groupby(formula.groupby))
        return "".join(pieces)
'''), (MV, '''            if any(c in metric.mri for c in '(){}[]",'):
''', '''            if not set(metric.mri).isdisjoint('(){}[]",'):
'''))
ref("mql-print-loop", (MV, '''            if any(c in metric.mri for c in '(){}[]",'):
                return f"`{metric.mri}`"
            return metric.mri
''', '''            quoted = False
            for character in metric.mri:
                quoted = quoted or character in '(){}[]",'
            return "`" + metric.mri + "`" if quoted else metric.mri
'''), (MV, '''        mql_string = returns["metric"]
        assert isinstance(mql_string, str)
        if returns["aggregate"]:
            aggregate = returns["aggregate"]
            mql_string = f"{aggregate}({mql_string})"

        if returns["filters"]:
            filters = str(returns["filters"])
            mql_string += f"{filters}"

        if returns["groupby"]:
            groupby = str(returns["groupby"])
            mql_string += f"{groupby}"

        return mql_string
''', '''        metric = returns["metric"]
        assert isinstance(metric, str)
        head = "{0}({1})".format(returns["aggregate"], metric) if returns["aggregate"] else metric
        return "".join([head, str(returns["filters"] or ""), str(returns["groupby"] or "")])
'''))
ref("column-partition", ("snuba_sdk/column.py", '''        if "[" in self.name:
            subscriptable, key = self.name.split("[", 1)
            key = key.strip("]")
            super().__setattr__("subscriptable", subscriptable)
            super().__setattr__("key", key)
''', '''        subscriptable, bracket, rest = self.name.partition("[")
        if bracket:
            object.__setattr__(self, "subscriptable", subscriptable)
            object.__setattr__(self, "key", rest[:-1])
'''), ("snuba_sdk/column.py", '''column_name_re = re.compile(r"^[a-zA-Z_](\\w|\\.|:|\\/|@)*(\\[([^\\[\\]]*)\\])?\\Z")
''', '''column_name_re = re.compile(r"[a-zA-Z_][\\w.:/@]*(?:\\[[^\\[\\]]*\\])?")
'''), ("snuba_sdk/column.py", "column_name_re.match(self.name)", "column_name_re.fullmatch(self.name)"))
ref("column-index", ("snuba_sdk/column.py", '''            subscriptable, key = self.name.split("[", 1)
            key = key.strip("]")
''', '''            at = self.name.index("[")
            subscriptable, key = self.name[:at], self.name[at + 1 : len(self.name) - 1]
'''))
ref("validate-generators", ("snuba_sdk/conditions.py", '''        for con in self.conditions:
            if not isinstance(con, (Condition, BooleanCondition)):
                raise InvalidConditionError(
                    f"invalid boolean: {con} is not a valid condition"
                )
''', '''        wrong = [c for c in self.conditions if not isinstance(c, (Condition, BooleanCondition))]
        if wrong:
            raise InvalidConditionError(f"invalid boolean: {wrong[0]} is not a valid condition")
'''), ("snuba_sdk/conditions.py", '''    flattened = []
    for cond in conditions:
        if isinstance(cond, BooleanCondition) and cond.op == BooleanOp.AND:
            top_level = get_first_level_and_conditions(cond.conditions)
            flattened += [*top_level]
        else:
            flattened.append(cond)

    return flattened
''', '''    flattened: list[Union[BooleanCondition, Condition]] = []
    pending = list(conditions)
    while pending:
        cond = pending.pop(0)
        if isinstance(cond, BooleanCondition) and cond.op == BooleanOp.AND:
            pending[:0] = cond.conditions
        else:
            flattened.append(cond)
    return flattened
'''), ("snuba_sdk/expressions.py", '''    if isinstance(value, tuple(Scalar)):
        return True
    elif isinstance(value, (tuple, list)):
        if not all(is_scalar(v) or isinstance(v, Expression) for v in value):
            raise InvalidExpressionError("tuple/array must contain only scalar values")
        return True

    return False
''', '''    if is_literal(value):
        return True
    if not isinstance(value, (tuple, list)):
        return False
    for v in value:
        if not (is_scalar(v) or isinstance(v, Expression)):
            raise InvalidExpressionError("tuple/array must contain only scalar values")
    return True
'''), ("snuba_sdk/expressions.py", '''    if not isinstance(literal, int):
        raise InvalidExpressionError(f"{name} '{literal}' must be an integer")
    if minn is not None and literal < minn:
        raise InvalidExpressionError(f"{name} '{literal}' must be at least {minn:,}")
    elif maxn is not None and literal > maxn:
        raise InvalidExpressionError(f"{name} '{literal}' is capped at {maxn:,}")
''', '''    if not isinstance(literal, int):
        raise InvalidExpressionError("{} '{}' must be an integer".format(name, literal))
    low = float("-inf") if minn is None else minn
    high = float("inf") if maxn is None else maxn
    if low <= literal <= high:
        return
    if literal < low:
        raise InvalidExpressionError(f"{name} '{literal}' must be at least {minn:,}")
    raise InvalidExpressionError(f"{name} '{literal}' is capped at {maxn:,}")
'''))
ref("required-any", ("snuba_sdk/query_validation.py", '''    for cond in top_level_conditions:
        if (
            isinstance(cond, Condition)
            and isinstance(cond.lhs, Column)
            and (cond.lhs.entity is None or cond.lhs.entity.alias == entity_alias)
            and cond.lhs.name == col_to_match.name
            and cond.op in ops
        ):
            return True

    return False
''', '''    def fits(cond: object) -> bool:
        if not isinstance(cond, Condition) or cond.op not in ops:
            return False
        column = cond.lhs
        if not isinstance(column, Column) or column.name != col_to_match.name:
            return False
        return column.entity is None or column.entity.alias == entity_alias

    return any(map(fits, top_level_conditions))
'''), ("snuba_sdk/query_validation.py", '''    ops = {Op.GTE, Op.LT}
    missing_ops = set()
    for op in ops:
        if not _matching_condition_exists(
            {op}, schema.required_time_column, top_level, entity.alias
        ):
            missing_ops.add(op)
''', '''    missing_ops = {
        op
        for op in (Op.LT, Op.GTE)
        if not _matching_condition_exists({op}, schema.required_time_column, top_level, entity.alias)
    }
'''), ("snuba_sdk/query_validation.py", '''    not_matched = set(range(len(required_conditions)))
    for i, match in enumerate(required_conditions):
        if i not in not_matched:
            continue

        ops, col_to_match = match
        if _matching_condition_exists(ops, col_to_match, top_level, entity.alias):
            not_matched.remove(i)
''', '''    not_matched = [
        i
        for i, (ops, col) in enumerate(required_conditions)
        if not _matching_condition_exists(ops, col, top_level, entity.alias)
    ]
'''), ("snuba_sdk/query_validation.py", '''    for s in match.select:
        # If the inner query has a function in its SELECT, then it is possible for the
        # outer query to reference that function using the alias.
        if isinstance(s, CurriedFunction):
            inner_column_names.add(s.alias)
        elif isinstance(s, Column):
            inner_column_names.add(s.name)
''', '''    inner_column_names |= {s.alias for s in match.select if isinstance(s, CurriedFunction)}
    inner_column_names |= {s.name for s in match.select if isinstance(s, Column)}
'''))
ref("formula-recursive", ("snuba_sdk/formula.py", '''        groupbys = set()
        has_timeseries = False

        stack: list[FormulaParameterGroup] = [self]
        while stack:
            param = stack.pop()
            if isinstance(param, Formula):
                if not isinstance(param.parameters, Sequence):
                    raise InvalidFormulaError("Formula must have parameters")

                if param.groupby is not None:
                    groupbys.add(tuple(param.groupby))

                stack.extend(param.parameters)
            elif isinstance(param, Timeseries):
                has_timeseries = True
                if param.groupby is not None:
                    groupbys.add(tuple(param.groupby))
            elif not isinstance(param, tuple(FormulaParameter)):
                raise InvalidFormulaError(f"parameter '{param}' is an invalid type")
''', '''        groupbys: list[Any] = []
        has_timeseries = False

        def walk(param: Any) -> None:
            nonlocal has_timeseries
            if not isinstance(param, (Formula, Timeseries)):
                if not isinstance(param, (int, float)):
                    raise InvalidFormulaError(f"parameter '{param}' is an invalid type")
                return
            if param.groupby is not None:
                groupbys.append(tuple(param.groupby))
            if isinstance(param, Timeseries):
                has_timeseries = True
            elif isinstance(param.parameters, Sequence):
                for inner in param.parameters:
                    walk(inner)
            else:
                raise InvalidFormulaError("Formula must have parameters")

        walk(self)
'''))
ref("request-build", ("snuba_sdk/request.py", '''        ret: dict[str, object] = {
            **flags,
            "query": query,
            "dataset": self.dataset,
            "app_id": self.app_id,
            "tenant_ids": self.tenant_ids,
            "parent_api": self.parent_api,
        }
        if mql_context is not None:
            ret["mql_context"] = mql_context
        return ret
''', '''        ret: dict[str, object] = dict(flags)
        ret.update(
            query=query,
            dataset=self.dataset,
            app_id=self.app_id,
            tenant_ids=self.tenant_ids,
            parent_api=self.parent_api,
        )
        return ret if mql_context is None else {**ret, "mql_context": mql_context}
'''), ("snuba_sdk/request.py", '''        values = asdict(self)
        return {f: v for f, v in values.items() if v is not None}
''', '''        return dict((f.name, getattr(self, f.name)) for f in fields(self) if getattr(self, f.name) is not None)
'''), ("snuba_sdk/request.py", '''        flags_fields = fields(self)
        for ff in flags_fields:
            flag = getattr(self, ff.name)
            if flag is not None and not isinstance(flag, bool):
                raise InvalidFlagError(f"{ff.name} must be a boolean")
''', '''        for ff in fields(self):
            if getattr(self, ff.name) not in (None, True, False) or type(getattr(self, ff.name)) not in (bool, type(None)):
                raise InvalidFlagError(f"{ff.name} must be a boolean")
'''), ("snuba_sdk/request.py", '''        if not self.dataset or not isinstance(self.dataset, str):
            raise InvalidRequestError("Request must have a valid dataset")
        elif not FLAG_RE.match(self.dataset):
            raise InvalidRequestError(f"'{self.dataset}' is not a valid dataset")

        if not self.app_id or not isinstance(self.app_id, str):
            raise InvalidRequestError("Request must have a valid app_id")
        if not FLAG_RE.match(self.app_id):
            raise InvalidRequestError(f"'{self.app_id}' is not a valid app_id")
''', '''        for name in ("dataset", "app_id"):
            value = getattr(self, name)
            if not (isinstance(value, str) and value):
                raise InvalidRequestError("Request must have a valid " + name)
            if FLAG_RE.match(value) is None:
                raise InvalidRequestError("'%s' is not a valid %s" % (value, name))
'''))
ref("delete-any", ("snuba_sdk/delete_query.py", '''        if self.column_conditions == {}:
            raise InvalidDeleteQueryError("column conditions cannot be empty")

        for col, values in self.column_conditions.items():
            if len(values) == 0:
                raise InvalidDeleteQueryError(
                    f"column condition '{col}' cannot be empty"
                )
''', '''        if not len(self.column_conditions):
            raise InvalidDeleteQueryError("column conditions cannot be empty")
        empty = next((c for c, v in self.column_conditions.items() if not len(v)), None)
        for col in self.column_conditions:
            if col == empty and len(self.column_conditions[col]) == 0:
                raise InvalidDeleteQueryError(f"column condition '{col}' cannot be empty")
'''))
ref("regex-forms", ("snuba_sdk/expressions.py", '''ALIAS_RE = re.compile(r"^[a-zA-Z0-9_\\.\\+\\*\\/:\\-\\[\\]\\(\\)\\@]*\\Z")
''', '''ALIAS_RE = re.compile(r"\\A[\\[\\]()a-z0-9A-Z_.+*/:@-]*\\Z")
'''), ("snuba_sdk/function.py", '''identifier_re = re.compile(r"^[a-zA-Z_][a-zA-Z0-9_]*\\Z")
''', '''identifier_re = re.compile(r"\\A(?:[a-z]|[A-Z]|_)(?:[a-z]|[A-Z]|_|[0-9])*\\Z")
'''), ("snuba_sdk/function.py", '''function_name_re = re.compile(r"""^[a-zA-Z](\\w|[().,+'":]| |\\[|\\]|\\-)+\\Z""")
''', '''function_name_re = re.compile(r"""^[A-Za-z][\\w ().,+'":\\[\\]-]+\\Z""")
'''))
ref("mri-regex", (MV, '''            if any(c in metric.mri for c in '(){}[]",'):
''', '''            if re.search(r'[(){}\\[\\]",]', metric.mri):
'''), (MV, "from abc import ABC", "import re\nfrom abc import ABC"))
ref("query-replace", ("snuba_sdk/query.py", '''        if self.where is not None:
            new_where = OrOptimizer().optimize(self.where)
            if new_where is not None:
                return replace(self, where=new_where)
        return self
''', '''        new_where = None if self.where is None else OrOptimizer().optimize(self.where)
        return self if new_where is None else replace(self, where=new_where)
'''))
ref("sample-format", (V, '''        sample_clause = ""
        if entity.sample is not None:
            if entity.sample % 1 == 0:
                sample_clause = f" SAMPLE {entity.sample:.1f}"
            else:
                sample_clause = f" SAMPLE {entity.sample:f}"
        return f"({alias_clause}{entity.name}{sample_clause})"
''', '''        return f"({alias_clause}{entity.name}{self._sample(entity.sample)})"

    def _sample(self, sample: Any) -> str:
        if sample is None:
            return ""
        pattern = " SAMPLE %.1f" if sample == int(sample) else " SAMPLE %f"
        return pattern % sample
'''), (V, '''        sample_clause = ""
        if storage.sample is not None:
            if storage.sample % 1 == 0:
                sample_clause = f" SAMPLE {storage.sample:.1f}"
            else:
                sample_clause = f" SAMPLE {storage.sample:f}"
        return f"STORAGE({storage.name}{sample_clause})"
''', '''        return "STORAGE(" + storage.name + self._sample(storage.sample) + ")"
'''))
ref("int-literal", (V, '''        return f"{literal:d}"
''', '''        return str(int(literal))
'''), (V, '''        elif isinstance(value, (int, float)):
            return f"{value}"
''', '''        elif isinstance(value, (int, float)):
            return str(value)
'''))
ref("int-percent", (V, '''        return f"{literal:d}"
''', '''        return "%d" % literal
'''), (V, '''        elif isinstance(value, (int, float)):
            return f"{value}"
''', '''        elif isinstance(value, (int, float)):
            return "{0}".format(value)
'''))
ref("timeseries-comprehension", ("snuba_sdk/timeseries.py", '''            for p in self.aggregate_params:
                if not is_literal(p):
                    raise InvalidTimeseriesError(
                        "aggregate_params can only be literal types"
                    )
''', '''            if not all(map(is_literal, self.aggregate_params)):
                raise InvalidTimeseriesError("aggregate_params can only be literal types")
'''), ("snuba_sdk/timeseries.py", '''        if self.granularity is not None and (
            not isinstance(self.granularity, int)
            or self.granularity not in ALLOWED_GRANULARITIES
        ):
            raise InvalidExpressionError(
                f"granularity must be an integer and one of {ALLOWED_GRANULARITIES}"
            )
''', '''        if self.granularity is not None:
            fine = isinstance(self.granularity, int) and any(
                self.granularity == allowed for allowed in ALLOWED_GRANULARITIES
            )
            if not fine:
                raise InvalidExpressionError(
                    f"granularity must be an integer and one of {ALLOWED_GRANULARITIES}"
                )
'''))


def apply(name, d):
    for f, a, b in R[name]:
        p = d + "/" + f
        s = open(p).read()
        assert s.count(a) == 1, (name, f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))


if __name__ == "__main__":
    if len(sys.argv) == 1:
        print("\n".join(R))
    else:
        for n in sys.argv[1].split(","):
            apply(n, sys.argv[2])
