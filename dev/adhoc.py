"""dev: hand-written one-site bugs.  adhoc.py NAME...|all : tests, then the property's check on a scratch copy"""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = "snuba_sdk/visitors.py"; QV = "snuba_sdk/query_visitors.py"; L = "snuba_sdk/legacy.py"; M = "snuba_sdk/mql/mql.py"
MV = "snuba_sdk/metrics_visitors.py"; F = "snuba_sdk/function.py"; T = "snuba_sdk/timeseries.py"; Q = "snuba_sdk/query.py"
QVAL = "snuba_sdk/query_validation.py"; C = "snuba_sdk/conditions.py"; R = "snuba_sdk/request.py"; FO = "snuba_sdk/formula.py"
J = "snuba_sdk/relationships.py"; E = "snuba_sdk/expressions.py"; O = "snuba_sdk/query_optimizers/or_optimizer.py"
MQ = "snuba_sdk/mql_visitor.py"; CO = "snuba_sdk/column.py"; S = "snuba_sdk/schema.py"; X = "snuba_sdk/metrics_query.py"
B = []
def bug(name, prop, *edits): B.append((name, prop, edits))

# ---- C01
bug("c01-count", "C01", (V, '.replace(quote_char, f"\\\\{quote_char}")', '.replace(quote_char, f"\\\\{quote_char}", 16)'))
bug("c01-bom", "C01", (V, "decoded = value.decode()", 'decoded = value.decode("utf-8-sig")'))
bug("c01-nfc", "C01", (V, "                decoded = value\n", '                decoded = __import__("unicodedata").normalize("NFC", value)\n'))
bug("c01-expandtabs", "C01", (V, "                decoded = value\n", '                decoded = value.expandtabs()\n'))
bug("c01-nul", "C01", (V, "                decoded = value\n", '                decoded = value.rstrip("\\0")\n'))
bug("c01-long", "C01", (V, "                decoded = value\n", '                decoded = value if len(value) < 1024 else value[:1021] + "..."\n'))
bug("c01-surrogate", "C01", (V, "                decoded = value\n", '                decoded = value.encode("utf-8", "ignore").decode()\n'))
bug("c01-crlf-bytes", "C01", (V, "decoded = value.decode()", 'decoded = value.replace(b"\\r\\n", b"\\n").decode()'))
bug("c01-already", "C01", (V, "            return f\"{quote_char}{decoded}{quote_char}\"", '            if len(value) > 2 and decoded.startswith("toDateTime(") and decoded.endswith(")"):\n                return decoded\n            return f"{quote_char}{decoded}{quote_char}"'))
bug("c01-zwsp", "C01", (V, "                decoded = value\n", '                decoded = value.replace("\\u200b", "")\n'))
bug("c01-print", "C01", (QV, 'return "MATCH { %s }" % subquery', 'return "MATCH { %s }" % subquery.replace("\\t", " ")'))
bug("c01-pretty", "C01", (QV, 'formatted = f"{prefix}{formatted}"', 'formatted = f"{prefix}{formatted}".replace(" , ", ", ")'))
# ---- C02
bug("c02-bigint", "C02", (V, '            return f"{value}"\n', '            return f"{value}" if abs(value) < 2**63 else f"{float(value)}"\n'))
bug("c02-negzero", "C02", (V, '            return f"{value}"\n', '            return f"{value or 0}"\n'))
bug("c02-floatg", "C02", (V, '            return f"{value}"\n', '            return f"{value}" if isinstance(value, int) else repr(round(value, 12))\n'))
bug("c02-us", "C02", (V, "value = value.replace(tzinfo=None)", "value = value.replace(tzinfo=None, microsecond=value.microsecond // 1000 * 1000)"))
bug("c02-year", "C02", (V, "                value = value.replace(tzinfo=None)\n", "                value = value.replace(tzinfo=None)\n                if value.year < 1970:\n                    value = datetime(1970, 1, 1)\n"))
bug("c02-negoff", "C02", (V, "value = value - delta", "value = value - abs(delta) if delta.days >= 0 or delta.seconds % 3600 else value - delta"))
bug("c02-nestempty", "C02", (V, """            return f"{prefix}{', '.join([self._stringify_scalar(v) for v in value])}{suffix}"
        elif isinstance(value, tuple):""", """            return f"{prefix}{', '.join([self._stringify_scalar(v) for v in value if v != ()])}{suffix}"
        elif isinstance(value, tuple):"""))
bug("c02-single", "C02", (V, """            suffix = "]" if self.is_mql else ")"
            return f"{prefix}{', '.join([self._stringify_scalar(v) for v in value])}{suffix}"

""", """            suffix = "]" if self.is_mql else ")"
            if len(value) == 1 and isinstance(value[0], tuple):
                value = value[0]
            return f"{prefix}{', '.join([self._stringify_scalar(v) for v in value])}{suffix}"

"""))
bug("c02-64", "C02", (V, """            suffix = "]" if self.is_mql else ")"
            return f"{prefix}{', '.join([self._stringify_scalar(v) for v in value])}{suffix}"

""", """            suffix = "]" if self.is_mql else ")"
            if len(value) > 8 and len(set(value)) < len(value):
                value = tuple(dict.fromkeys(value))
            return f"{prefix}{', '.join([self._stringify_scalar(v) for v in value])}{suffix}"

"""))
# ---- C03
bug("c03-false", "C03", (V, """                elif is_scalar(param):
                    params.append""", """                elif param is not False and is_scalar(param):
                    params.append"""))
bug("c03-initdate", "C03", (V, "elif isinstance(initer, tuple(Scalar)):", "elif isinstance(initer, (str, bytes, bool, int, float)) or initer is None:"))
bug("c03-aliasin", "C03", (V, """        return f"{func.function}{initialize_clause}{param_clause}{alias}"
""", """        if alias and param_clause.endswith(f"{alias})"):
            alias = ""
        return f"{func.function}{initialize_clause}{param_clause}{alias}"
"""))
bug("c03-curriedempty", "C03", (V, "if func.initializers is not None:\n            initializers = []", "if func.initializers:\n            initializers = []"))
bug("c03-lambdanest", "C03", (V, 'identifiers = ", ".join(f"`{i}`" for i in lambda_fn.identifiers)', 'identifiers = ", ".join(f"`{i}`" for i in list(lambda_fn.identifiers)[:3])'))
bug("c03-quantile", "C03", (V, """        return f"{func.function}{initialize_clause}{param_clause}{alias}"
""", """        name = func.function
        if name.startswith("quantile") and initialize_clause == "(0.5)":
            name, initialize_clause = "median" + name[8:], ""
        return f"{name}{initialize_clause}{param_clause}{alias}"
"""))
# ---- C04
bug("c04-notin", "C04", (V, """        assert rhs is not None
        return f"{self.visit(cond.lhs)} {cond.op.value}{rhs}"
""", """        assert rhs is not None
        if cond.op == Op.NOT_IN and isinstance(cond.rhs, (list, tuple)) and not cond.rhs:
            return "1 = 1"
        return f"{self.visit(cond.lhs)} {cond.op.value}{rhs}"
"""))
bug("c04-innull", "C04", (V, """        assert rhs is not None
        return f"{self.visit(cond.lhs)} {cond.op.value}{rhs}"
""", """        assert rhs is not None
        if cond.op == Op.NEQ and cond.rhs is None:
            return f"{self.visit(cond.lhs)} IS NOT NULL"
        return f"{self.visit(cond.lhs)} {cond.op.value}{rhs}"
"""))
bug("c04-dup", "C04", (V, """        conds = [self.visit(c) for c in cond.conditions]
        cond_str""", """        conds = list(dict.fromkeys(self.visit(c) for c in cond.conditions))
        cond_str"""))
bug("c04-flat", "C04", (V, """        conds = [self.visit(c) for c in cond.conditions]
        cond_str = f" {cond.op.value} ".join(conds)
        return f"({cond_str})"
""", """        conds = [self.visit(c) for c in cond.conditions]
        cond_str = f" {cond.op.value} ".join(conds)
        if all(c.startswith("(") and c.endswith(")") for c in conds) and len(conds) > 2:
            return cond_str
        return f"({cond_str})"
"""))
bug("c04-having", "C04", (QV, """return f"HAVING {' AND '.join(self.translator.visit(h) for h in having)}\"""", """return f"HAVING {' AND '.join(dict.fromkeys(self.translator.visit(h) for h in having))}\""""))
# ---- C05
bug("c05-limit1", "C05", (QV, """        if limit is not None:
            return f"LIMIT""", """        if limit is not None and limit.limit != 10000:
            return f"LIMIT"""))
bug("c05-order", "C05", (QV, """            return f"ORDER BY {', '.join(self.translator.visit(o) for o in orderby)}\"""", """            return f"ORDER BY {', '.join(dict.fromkeys(self.translator.visit(o) for o in orderby))}\""""))
bug("c05-replace", "C05", (Q, """        new = replace(self, **{field: value})
        return new
""", """        if field == "groupby" and not value and self.totals is not None:
            return replace(self, groupby=value, totals=None)
        new = replace(self, **{field: value})
        return new
"""))
bug("c05-limitby", "C05", (V, "','.join(self.visit(column) for column in limitby.columns)", "','.join(self.visit(column) for column in limitby.columns[:3])"))
bug("c05-totalsfalse", "C05", (QV, "        if totals is not None:\n            return f\"TOTALS", "        if totals is not None and totals.totals:\n            return f\"TOTALS"))
bug("c05-opt", "C05", (Q, "return replace(self, where=new_where)", "return replace(self, where=new_where, having=self.having or None, array_join=self.array_join[:1] if self.array_join else None)"))
# ---- C06
bug("c06-exc", "C06", (QV, "            with entity_aliases(self.translator):\n                return super().visit(query)", "            with entity_aliases(self.translator):\n                if len(query.match.relationships) > 2:\n                    self.translator.use_entity_aliases = bool(query.where)\n                return super().visit(query)"))
bug("c06-inner", "C06", (QV, "translator = Printer(self.pretty, True)\n", "translator = Printer(self.pretty, True)\n        translator.translator.use_entity_aliases = isinstance(match.match, main.Query) and isinstance(match.match.match, Join)\n"))
bug("c06-reldup", "C06", (V, 'return ", ".join([self.visit(rel) for rel in join.relationships])', 'return ", ".join(dict.fromkeys(self.visit(rel) for rel in join.relationships))'))
bug("c06-sample", "C06", (V, """                sample_clause = f" SAMPLE {entity.sample:f}\"""", """                sample_clause = f" SAMPLE {entity.sample:.3f}\""""))
bug("c06-rhs-sample", "C06", (V, 'return f"{self.visit(relationship.lhs)} -[{relationship.name}]-> {self.visit(relationship.rhs)}"', 'return f"{self.visit(relationship.lhs)} -[{relationship.name}]-> {self.visit(relationship.rhs if relationship.rhs.alias != relationship.lhs.alias else relationship.lhs)}"'))
# ---- C07
bug("c07-in-lists", "C07", (O, "rhsides += [curr.rhs]", "rhsides += curr.rhs if isinstance(curr.rhs, list) else [curr.rhs]"))
bug("c07-dedupe", "C07", (O, "return Condition(shared_lhs, Op.IN, rhsides)", "return Condition(shared_lhs, Op.IN, rhsides if len(rhsides) < 4 else list(dict.fromkeys(rhsides)))"))
bug("c07-and", "C07", (O, "cond.op != BooleanOp.OR", "(cond.op != BooleanOp.OR and len(cond.conditions) < 6)"))
bug("c07-lhsname", "C07", (O, "or (shared_lhs and curr.lhs != shared_lhs)", "or getattr(curr.lhs, 'name', curr.lhs) != getattr(shared_lhs, 'name', shared_lhs)"))
bug("c07-in", "C07", (O, """            if (
                not isinstance(curr, Condition)
                or curr.op != Op.EQ
""", """            if isinstance(curr, Condition) and curr.op == Op.IN and isinstance(curr.rhs, tuple) and curr.lhs == shared_lhs:
                rhsides += [*curr.rhs]
                continue
            if (
                not isinstance(curr, Condition)
                or curr.op not in (Op.EQ, Op.LIKE)
"""))
# ---- C08
bug("c08-entity", "C08", ("snuba_sdk/entity.py", "if not isinstance(self.alias, str) or not self.alias:", "if not isinstance(self.alias, str) or not self.alias.strip():"))
bug("c08-ident", "C08", (F, 'identifier_re = re.compile(r"^[a-zA-Z_][a-zA-Z0-9_]*\\Z")', 'identifier_re = re.compile(r"^[^\\W\\d]\\w*\\Z")'))
# ---- C09
bug("c09-limit-numpy", "C09", (E, "class Limit(Expression):", "class Limit(Expression):"))
# ---- C10
bug("c10-subs", "C10", (CO, "to_check = self.subscriptable if self.subscriptable else self.name", 'to_check = self.name.split(".")[0].split("[")[0]'))
bug("c10-join-alias", "C10", (QVAL, "entity_aliases = {alias: entity for alias, entity in match.get_alias_mappings()}", "entity_aliases = {rel.rhs.alias: rel.rhs.name for rel in match.relationships}\n    entity_aliases[match.relationships[0].lhs.alias] = match.relationships[0].lhs.name"))
bug("c10-inner-aliased", "C10", (QVAL, "inner_column_names.add(s.name)", "inner_column_names.add(s.name)\n            if s.subscriptable:\n                inner_column_names.add(s.subscriptable)"))
bug("c10-none", "C10", (QVAL, "            inner_column_names.add(s.alias)", "            inner_column_names.add(s.alias or s.function)"))
bug("c10-limitby", "C10", (V, "return set.union(*[self.visit(column) for column in limitby.columns])", "return self.visit(limitby.columns[0]) | self.visit(limitby.columns[-1])"))
bug("c10-unary", "C10", (V, """        found = self.visit(cond.lhs)
        if not is_unary""", """        if is_unary(cond.op) and not isinstance(cond.lhs, Column):
            return set()
        found = self.visit(cond.lhs)
        if not is_unary"""))
bug("c10-lambda", "C10", (V, "        return self.visit(lambda_fn.transformation)\n", "        return {c for c in self.visit(lambda_fn.transformation) if getattr(c, 'name', None) not in lambda_fn.identifiers}\n"))
bug("c10-curried", "C10", (V, "                if isinstance(initer, Expression):\n                    found |= self.visit(initer)", "                if isinstance(initer, Expression) and not func.parameters:\n                    found |= self.visit(initer)"))
# ---- C11
bug("c11-rhs", "C11", (QVAL, "(cond.lhs.entity is None or cond.lhs.entity.alias == entity_alias)", "(cond.lhs.entity is None or not entity_alias or cond.lhs.entity.alias.startswith(entity_alias))"))
bug("c11-or", "C11", (C, "if isinstance(cond, BooleanCondition) and cond.op == BooleanOp.AND:", "if isinstance(cond, BooleanCondition) and (cond.op == BooleanOp.AND or len(set(map(repr, cond.conditions))) == 1):"))
bug("c11-sub", "C11", (QVAL, "    if isinstance(query.match, main.Query):\n        validate_required_columns(query.match)", "    if isinstance(query.match, main.Query) and not isinstance(query.match.match, main.Query):\n        validate_required_columns(query.match)"))
bug("c11-subscript", "C11", (QVAL, "cond.lhs.name == col_to_match.name", "(cond.lhs.subscriptable or cond.lhs.name) == col_to_match.name"))
# ---- C12
bug("c12-where", "C12", (Q, """            raise InvalidQueryError("where clause must be a list of conditions")
        return self._replace("where", conditions)""", """            raise InvalidQueryError("where clause must be a list of conditions")
        if self.where is conditions:
            return self
        return self._replace("where", conditions)"""))
bug("c12-sort", "C12", (V, "for param in func.parameters:\n                if isinstance(\n                    param, (Column, CurriedFunction", "for param in func.parameters:\n                if isinstance(param, list) and len(param) > 4:\n                    param.sort(key=str)\n                if isinstance(\n                    param, (Column, CurriedFunction"))
bug("c12-scope", "C12", (MV, "return asdict(scope)", "d = dict(vars(scope))\n        d['org_ids'].sort()\n        return d"))
bug("c12-groupby-extend", "C12", (MV, '    if groupby is not None:\n        return " by ("', '    if groupby is not None:\n        if len(groupby) > 2:\n            groupby.sort(key=str)\n        return " by ("'))
bug("c12-delete", "C12", ("snuba_sdk/delete_query.py", "self.validate()", "self.validate()", ))
# ---- C13
bug("c13-parent", "C13", (R, '            "parent_api": self.parent_api,\n        }\n        if', '            "parent_api": self.parent_api if self.parent_api != self.app_id else "<unknown>",\n        }\n        if'))
bug("c13-flagsfalse", "C13", (R, "return {f: v for f, v in values.items() if v is not None}", 'return {f: v for f, v in values.items() if v is not None and (v or f != "dry_run")}'))
bug("c13-tenant", "C13", (R, '            "tenant_ids": self.tenant_ids,\n            "parent_api": self.parent_api,\n        }\n        if', '            "tenant_ids": {k: v for k, v in self.tenant_ids.items() if v},\n            "parent_api": self.parent_api,\n        }\n        if'))
bug("c13-strkeys", "C13", (R, '            "tenant_ids": self.tenant_ids,\n            "parent_api": self.parent_api,\n        }\n        if', '            "tenant_ids": {k: (int(v) if isinstance(v, str) and v.isdigit() else v) for k, v in self.tenant_ids.items()},\n            "parent_api": self.parent_api,\n        }\n        if'))
bug("c13-ascii", "C13", (R, "    def serialize(self) -> str:\n        return json.dumps(self.to_dict())", "    def serialize(self) -> str:\n        return json.dumps(self.to_dict(), ensure_ascii=False).replace(chr(8232), chr(10))"))
# ---- C15
bug("c15-nested-not", "C15", (V, '        op = cond.op.value\n        conditions_with_op', '        conditions = [c.lstrip("!") if len(conditions) > 3 else c for c in conditions]\n        op = cond.op.value\n        conditions_with_op'))
bug("c15-notlike", "C15", (V, "cond.op == Op.NEQ or cond.op == Op.NOT_IN or cond.op == Op.NOT_LIKE", "cond.op == Op.NEQ or (cond.op == Op.NOT_IN and len(cond.rhs) != 0) or cond.op == Op.NOT_LIKE"))
bug("c15-mri-space", "C15", (MV, "            return metric.mri\n", "            return metric.mri.strip()\n"))
bug("c15-groupby-alias", "C15", (MV, '", ".join(expression_visitor.visit(c) for c in groupby)', '", ".join(dict.fromkeys(expression_visitor.visit(c) for c in groupby))'))
# ---- C16/17/18
bug("c16-float-params", "C16", (M, "        if param is not None:\n            agg_params.append(param)", "        if param is not None and param not in agg_params[3:]:\n            agg_params.append(param)"))
bug("c17-fold", "C17", (M, """                unary_left = Formula(term_operator, [unary_left, unary_right])
""", """                if isinstance(unary_left, float) and isinstance(unary_right, float) and term_operator == "multiply":
                    unary_left = unary_left * unary_right
                    continue
                unary_left = Formula(term_operator, [unary_left, unary_right])
"""))
bug("c17-neg", "C17", (M, """                return Formula(function_name=unary_op[0], parameters=[coefficient])
""", """                if isinstance(coefficient, Formula) and coefficient.function_name == "negate":
                    return coefficient.parameters[0]
                return Formula(function_name=unary_op[0], parameters=[coefficient])
"""))
bug("c17-int", "C17", (M, "return float(node.text)", "return float(node.text[:16])"))
bug("c17-rightassoc", "C17", (M, """                term_left = Formula(expr_operator, [term_left, term_right])
""", """                if isinstance(term_left, Formula) and term_left.function_name == "plus" and expr_operator == "minus" and len(zero_or_more_others) > 3:
                    term_left = Formula("plus", [term_left.parameters[0], Formula("minus", [term_left.parameters[1], term_right])])
                    continue
                term_left = Formula(expr_operator, [term_left, term_right])
"""))
bug("c18-and3", "C18", (M, "            if operator == BooleanOp.AND:\n                return And(conditions=filters)", "            if operator == BooleanOp.AND:\n                return And(conditions=filters if len(filters) < 5 else [*filters[:4], filters[-1]])"))
bug("c18-value-lower", "C18", (M, "return FilterFactor(str(node.text), False)", "return FilterFactor(str(node.text).rstrip(';'), False)"))
bug("c18-star", "C18", (M, """        text = str(node.text[1:-1])
        match = text.replace('\\\\"', '"')
        return FilterFactor(match, False)""", """        text = str(node.text[1:-1])
        match = text.replace('\\\\"', '"')
        return FilterFactor(match, match.endswith("*") and "*" not in match[:-1] and len(match) > 1)"""))
bug("c18-double", "C18", (M, "            filters = [filter_condition]\n            filters.extend(current_filters)", "            filters = [filter_condition]\n            filters.extend(c for c in current_filters if c != filter_condition)"))
bug("c18-groupby", "C18", (M, "            current_groupby = target.groupby if target.groupby else []\n            group_by.extend(current_groupby)\n            target = target.set_groupby(group_by)\n        return target\n\n    def _filter", "            current_groupby = target.groupby if target.groupby else []\n            group_by.extend(c for c in current_groupby if c not in group_by)\n            target = target.set_groupby(group_by)\n        return target\n\n    def _filter"))
bug("c18-notlist", "C18", (M, "elif not contains_wildcard and isinstance(rhs, list):\n                    op = Op.NOT_IN", "elif not contains_wildcard and isinstance(rhs, list):\n                    op = Op.NOT_IN if len(set(rhs)) == len(rhs) else Op.IN"))
# ---- C19
bug("c19-tz", "C19", (MQ, "return end.isoformat()", "return end.isoformat() if end.microsecond else end.replace(microsecond=0).isoformat(timespec='seconds') if end.second else end.isoformat(timespec='minutes')"))
bug("c19-scope", "C19", (MV, "return asdict(scope)", "return {k: (sorted(set(v)) if isinstance(v, list) else v) for k, v in asdict(scope).items()}"))
bug("c19-usecase", "C19", (MV, "return asdict(scope)", "return {k: (v or None) if k == 'use_case_id' else v for k, v in asdict(scope).items()}"))
bug("c19-mult", "C19", (T, "self.interval < self.granularity", "(self.interval < self.granularity or self.interval > 86400 * 365)"))
bug("c19-mapping", "C19", (MQ, "        return indexer_mappings\n", "        return {k: v for k, v in indexer_mappings.items() if v is not None and v != ''}\n"))
# ---- C20
bug("c20-depth", "C20", (FO, "        if len(set(groupbys)) > 1:", "        if len(set(map(frozenset, groupbys))) > 1:"))
bug("c20-many", "C20", (FO, "stack.extend(param.parameters)", "stack.extend(param.parameters[:8])"))
bug("c20-str", "C20", (FO, "elif not isinstance(param, tuple(FormulaParameter)):", "elif not isinstance(param, (float, int, str)):"))
# ---- C21/22
bug("c21-or1", "C21", (L, "            if len(or_conditions) > 1:\n                conditions.append(Or(or_conditions))", "            if len(or_conditions) > 1:\n                conditions.append(Or([c for i, c in enumerate(or_conditions) if c not in or_conditions[:i]] if len(or_conditions) > 3 else or_conditions))"))
bug("c21-groupby", "C21", (L, "        parsed_groupby.append(parse_exp(g))", "        p = parse_exp(g)\n        if p not in parsed_groupby[1:]:\n            parsed_groupby.append(p)"))
bug("c21-alias", "C21", (L, "        alias = alias[1:-1]\n", "        alias = alias.strip('`')\n"))
bug("c21-strip", "C21", (L, 'o = [first.lstrip("-"), *o[1:]]', 'o = [first.lstrip("-"), o[1]]'))
bug("c21-nested", "C21", (L, "        children = list(map(parse_exp, value[1]))", "        children = [parse_exp(v) for v in value[1] if v != []]"))
bug("c21-limitby", "C21", (L, "LimitBy([Column(name)], int(limit))", "LimitBy([Column(name)], min(int(limit), 1000))"))
bug("c21-org0", "C21", (L, 'if body.get("project"):', 'if body.get("project") and body["project"] != [0]:'))
bug("c22-quote", "C22", (L, """elif value.startswith("'") and value.endswith("'"):
            value = value[1:-1]""", """elif value.startswith("'") and value.endswith("'"):
            value = value.strip("'")"""))
bug("c22-tz", "C22", (L, 'first, tz = date_str.split("+", 1)', 'first, tz = date_str.rsplit("+", 1)'))
bug("c22-lower", "C22", (L, 'if "+" in date_str:', 'date_str = date_str.strip()\n    if "+" in date_str:'))
bug("c22-ifnull", "C22", (L, "and len(lhs.parameters) > 1", "and len(lhs.parameters) == 2 and lhs.parameters[1] == ''"))
bug("c22-set", "C22", (L, "return tuple(map(partial(parse_scalar, only_strings=only_strings), value))", "return tuple(map(partial(parse_scalar, only_strings=only_strings or len(value) > 6), value))"))
# ---- C23/24
bug("c23-hash", "C23", (F, "        return (\n            self.function == other.function", "        return (\n            self.function.lower() == other.function.lower()"))
bug("c23-len", "C23", (F, "            and self.parameters == other.parameters\n", "            and (self.parameters or [])[:6] == (other.parameters or [])[:6] and type(self.parameters) == type(other.parameters)\n"))
bug("c24-lambda", "C24", (F, "        for i in self.identifiers:\n", "        for i in self.identifiers[:2]:\n"))
bug("c24-list", "C24", (T, "            for p in self.aggregate_params:\n                if not is_literal(p):", "            for p in self.aggregate_params:\n                if not is_literal(p) and not isinstance(p, list):"))
bug("c24-join", "C24", (J, "elif not all(isinstance(x, Relationship) for x in self.relationships):", "elif not all(isinstance(x, Relationship) for x in self.relationships[:2]):"))

# ---- second wave: caches, equality confusions, rare shapes
CA = "            return f\"{quote_char}{decoded}{quote_char}\"\n"
bug("w2-c25-esc-cache", "C25", (V, """            quote_char = '"' if self.is_mql else "'"
            decoded = (
""", """            quote_char = '"' if self.is_mql else "'"
            if decoded in _ESCAPED:
                return f"{quote_char}{_ESCAPED[decoded]}{quote_char}"
            raw = decoded
            decoded = (
"""), (V, CA, "            _ESCAPED[raw] = decoded\n" + CA), (V, "TVisited = TypeVar(\"TVisited\")\n", "TVisited = TypeVar(\"TVisited\")\n_ESCAPED: dict[str, str] = {}\n"))
bug("w2-c25-num-cache", "C25", (V, '            return f"{value}"\n', '            return _NUMS.setdefault(value, f"{value}")\n'), (V, "TVisited = TypeVar(\"TVisited\")\n", "TVisited = TypeVar(\"TVisited\")\n_NUMS: dict = {}\n"))
bug("w2-c02-num-cache", "C02", (V, '            return f"{value}"\n', '            return self.nums.setdefault(value, f"{value}")\n'), (V, "        self.is_mql = is_mql\n", "        self.is_mql = is_mql\n        self.nums: dict = {}\n"))
bug("w2-c25-mqlcache", "C25", (M, "def parse_mql(mql", "from functools import lru_cache\n\n\n@lru_cache(maxsize=128)\ndef parse_mql(mql"))
bug("w2-c25-validated", "C25", (Q, "        VALIDATOR.visit(self)\n", "        key = str(self.match) + str(self.select)\n        if key in _SEEN:\n            return\n        VALIDATOR.visit(self)\n        _SEEN.add(key)\n"), (Q, "VALIDATOR = Validator()\n", "VALIDATOR = Validator()\n_SEEN: set = set()\n"))
bug("w2-c25-repr", "C25", (Q, "        return Printer().visit(optimized)\n", "        key = (id(self.where), str(self.match), str(self.select), len(str(self)) if False else 0, self.limit, self.offset)\n        if self.where and key in _TEXTS and not self.having and not self.orderby and not self.groupby:\n            return _TEXTS[key]\n        text = Printer().visit(optimized)\n        _TEXTS[key] = text\n        return text\n"), (Q, "VALIDATOR = Validator()\n", "VALIDATOR = Validator()\n_TEXTS: dict = {}\n"))
bug("w2-c03-alias-shadow", "C03", (V, """        alias = "" if func.alias is None else f" AS `{func.alias}`"
""", """        alias = "" if func.alias is None else f" AS `{func.alias}`"
        for q in func.parameters or ():
            if isinstance(q, CurriedFunction) and q.alias is not None and q.alias == func.alias:
                alias = ""
"""))
bug("w2-c03-param-memo", "C03", (V, """                elif is_scalar(param):
                    params.append(self._stringify_scalar(param))

            param_clause""", """                elif is_scalar(param):
                    if isinstance(param, (bool, int, float)) and param in memo:
                        params.append(memo[param])
                        continue
                    params.append(self._stringify_scalar(param))
                    if isinstance(param, (bool, int, float)):
                        memo[param] = params[-1]

            param_clause"""), (V, "            params = []\n            for param in func.parameters:\n", "            params = []\n            memo = {}\n            for param in func.parameters:\n"))
bug("w2-c04-where-dup", "C04", (QV, """return f"WHERE {' AND '.join(self.translator.visit(w) for w in where)}\"""", """return f"WHERE {' AND '.join(self.translator.visit(w) for i, w in enumerate(where) if w not in where[:i])}\""""))
bug("w2-c04-like", "C04", (V, '        return f"{self.visit(cond.lhs)} {cond.op.value}{rhs}"\n', '''        op = cond.op
        if op == Op.LIKE and isinstance(cond.rhs, str) and cond.rhs.isalnum():
            op = Op.EQ
        return f"{self.visit(cond.lhs)} {op.value}{rhs}"
'''))
bug("w2-c05-limitby-dupe", "C05", (V, "','.join(self.visit(column) for column in limitby.columns)", "','.join(dict.fromkeys(self.visit(column) for column in limitby.columns))"))
bug("w2-c05-samelimit", "C05", (QV, "        if offset is not None:\n            return f\"OFFSET", "        if offset is not None and (offset.offset or self.is_inner or not self.pretty):\n            return f\"OFFSET"))
bug("w2-c06-lambda", "C06", (V, "-> {self.visit(lambda_fn.transformation)}", "-> {Translation(False, self.is_mql).visit(lambda_fn.transformation)}"))
bug("w2-c06-inner-pretty", "C06", (QV, "translator = Printer(self.pretty, True)\n", "translator = Printer(self.pretty, not isinstance(match.match, main.Query))\n"))
bug("w2-c07-tuple", "C07", (O, "rhsides += [curr.rhs]", "rhsides += curr.rhs if isinstance(curr.rhs, tuple) else [curr.rhs]"))
bug("w2-c07-shortcut", "C07", (O, "        rhsides = [curr.rhs]\n", "        rhsides = [curr.rhs]\n        if all(isinstance(c, Condition) and c.op == Op.EQ and c.rhs == curr.rhs for c in cond.conditions):\n            return curr\n"))
bug("w2-c07-lhsalias", "C07", (O, "or (shared_lhs and curr.lhs != shared_lhs)", "or (shared_lhs and getattr(curr.lhs, 'function', curr.lhs) != getattr(shared_lhs, 'function', shared_lhs))"))
bug("w2-c08-kelvin", "C08", (F, 'identifier_re = re.compile(r"^[a-zA-Z_][a-zA-Z0-9_]*\\Z")', 'identifier_re = re.compile(r"^[a-z_][a-z0-9_]*\\Z", re.IGNORECASE)'))
bug("w2-c08-flagw", "C08", (R, r'FLAG_RE = re.compile(r"^[a-zA-Z0-9_\.', r'FLAG_RE = re.compile(r"^[\w\.'))
bug("w2-c08-Az", "C08", ("snuba_sdk/storage.py", '[a-zA-Z_]+', '[A-z_]+'))
bug("w2-c08-entity-i", "C08", ("snuba_sdk/entity.py", 're.compile(r"^[a-zA-Z_]+\\Z")', 're.compile(r"^[a-z_]+\\Z", re.I)'))
bug("w2-c08-ascii", "C08", (CO, '(\\[([^\\[\\]]*)\\])?\\Z")', '(\\[([^\\[\\]]*)\\])?\\Z", re.ASCII)'))
bug("w2-c08-funcdash", "C08", (F, r"""\w|[().,+'":]| |\[|\]|\-)+\Z""", r"""\w|[().,+'":]|\s|\[|\]|\-)+\Z"""))
bug("w2-c09-limitby", "C09", ("snuba_sdk/orderby.py", "self.count <= 0 or self.count > 10000", "self.count <= 0 or self.count > 10_000.5"))
bug("w2-c09-int", "C09", (E, "    if not isinstance(literal, int):", "    if not isinstance(literal, int) and not (isinstance(literal, float) and literal.is_integer() and maxn is None):"))
bug("w2-c09-sample", "C09", ("snuba_sdk/storage.py", "elif self.sample <= 0.0:", "elif int(self.sample * 1e9) <= 0:"))
bug("w2-c10-aliased", "C10", (QVAL, "            inner_column_names.add(s.name)\n", "            inner_column_names.add(s.name)\n        else:\n            inner_column_names.add(s.alias)\n"))
bug("w2-c10-namecase", "C10", (QVAL, "entity_aliases[c.entity.alias] != c.entity.name", "entity_aliases[c.entity.alias].lower() != c.entity.name.lower()"))
bug("w2-c10-totals", "C10", (QV, "        validate_match(query, self.column_finder)\n", "        if not (query.totals and query.limitby and query.array_join):\n            validate_match(query, self.column_finder)\n"))
bug("w2-c10-fnalias", "C10", (QVAL, "            inner_column_names.add(s.alias)", "            inner_column_names.add(s.alias or s.function)"))
bug("w2-c11-zero", "C11", (QVAL, "            and cond.op in ops\n", "            and cond.op in ops\n            and (cond.rhs or cond.op not in (Op.EQ, Op.IN))\n"))
bug("w2-c11-depth", "C11", (C, "            top_level = get_first_level_and_conditions(cond.conditions)\n            flattened += [*top_level]", "            for c in cond.conditions:\n                flattened += c.conditions if isinstance(c, BooleanCondition) and c.op == BooleanOp.AND else [c]"))
bug("w2-c11-join-noalias", "C11", (QVAL, "        for entity in query.match.get_entities():\n            _check", "        for entity in {e.name: e for e in query.match.get_entities()}.values():\n            _check"))
bug("w2-c12-merge", "C12", (X, '        return self._replace("indexer_mappings", indexer_mappings)', '        return self._replace(\n            "indexer_mappings", {**(self.indexer_mappings or {}), **indexer_mappings}\n        )'))
bug("w2-c12-usecase", "C12", (X, '        return self._replace("scope", scope)', '        if self.scope is not None and scope.use_case_id is None:\n            scope.use_case_id = self.scope.use_case_id\n        return self._replace("scope", scope)'))
bug("w2-c12-aggparams", "C12", (T, "return replace(self, aggregate=aggregate, aggregate_params=aggregate_params)", "return replace(self, aggregate=aggregate, aggregate_params=aggregate_params if aggregate_params is not None or self.aggregate != aggregate else self.aggregate_params)"))
bug("w2-c12-mri", "C12", (T, "        return replace(self, mri=mri)", "        return replace(self, mri=mri, id=None)"))
bug("w2-c12-limit-offset", "C12", (Q, '        return self._replace("limit", Limit(limit))', '        new = self._replace("limit", Limit(limit))\n        return new._replace("offset", None) if self.limit is not None and self.limit.limit > limit else new'))
bug("w2-c13-print", "C13", (R, "        output = self.to_dict()\n", "        output = self.to_dict()\n        if output.get('parent_api') == '<unknown>':\n            output.pop('parent_api')\n"))
bug("w2-c13-mqlser", "C13", (R, "        # It will be removed in a future version.\n        return json.dumps(self.to_dict())", "        # It will be removed in a future version.\n        return json.dumps({k: v for k, v in self.to_dict().items() if v is not False})"))
bug("w2-c14-dedupe", "C14", ("snuba_sdk/delete_query.py", 'return {"columns": self.column_conditions}', 'return {"columns": {k: list(dict.fromkeys(v)) for k, v in self.column_conditions.items()}}'))
bug("w2-c14-any", "C14", ("snuba_sdk/delete_query.py", "if len(values) == 0:", "if not any(v is not None for v in values):"))
bug("w2-c14-many", "C14", ("snuba_sdk/delete_query.py", "for col, values in self.column_conditions.items():", "for col, values in list(self.column_conditions.items())[:5]:"))
bug("w2-c15-pub", "C15", (MV, "            return metric.public_name\n", "            return metric.public_name.lower()\n"))
bug("w2-c15-params", "C15", (MV, "        if aggregate_params:\n            return f\"({', '", "        if aggregate_params and any(aggregate_params):\n            return f\"({', '"))
bug("w2-c15-emptyfilters", "C15", (MV, '        return "{" + " AND ".join(conditions) + "}"', '        return "{" + " AND ".join(dict.fromkeys(conditions)) + "}"'))
bug("w2-c16-quoted", "C16", (M, """        text = str(node.text[1:-1])
        match = text.replace('\\\\"', '"')
        return match""", """        text = str(node.text).strip('"')
        match = text.replace('\\\\"', '"')
        return match"""))
bug("w2-c16-prefix", "C16", (M, 'unquoted_public_name = ~r"([a-z_]+', 'unquoted_public_name = ~r"([a-z_]{1,40}'))
bug("w2-c17-15", "C17", (M, 'number = ~r"[0-9]+"', 'number = ~r"[0-9]{1,15}"'))
bug("w2-c17-ws", "C17", (M, '_ = ~r"\\s*"', '_ = ~r"[ \\t\\n]*"'))
bug("w2-c17-div", "C17", (M, """                unary_left = Formula(term_operator, [unary_left, unary_right])
""", """                if term_operator == "divide" and isinstance(unary_left, Formula) and unary_left.function_name == "divide" and unary_left.parameters and isinstance(unary_right, Formula):
                    unary_left = Formula(term_operator, [unary_left.parameters[0], Formula("divide", [unary_left.parameters[1], unary_right])])
                    continue
                unary_left = Formula(term_operator, [unary_left, unary_right])
"""))
bug("w2-c18-colon", "C18", (M, "unquoted_string_filter = ~r'[^,\\[\\]\\\"}{\\(\\)\\s\\*]+'", "unquoted_string_filter = ~r'[^,\\[\\]\\\"}{\\(\\)\\s\\*:]+'"))
bug("w2-c18-orcase", "C18", (M, 'or = "OR" / "or"', 'or = ~r"or"i'))
bug("w2-c18-and", "C18", (M, 'joint_operator = comma / and', 'joint_operator = comma+ / and'))
bug("w2-c18-unq-tuple", "C18", (M, "            [first[0], *(v[0] for _, _, _, v in zero_or_more_others)], False", "            sorted([first[0], *(v[0] for _, _, _, v in zero_or_more_others)], key=len), False"))
bug("w2-c19-interval", "C19", (MV, '            "interval": rollup.interval,', '            "interval": rollup.interval and (rollup.interval // rollup.granularity * rollup.granularity if rollup.granularity and rollup.granularity > 60 else rollup.interval),'))
bug("w2-c19-utc", "C19", (MQ, "        return start.isoformat()", "        if start.tzinfo is not None:\n            from datetime import timezone\n\n            start = start.astimezone(timezone.utc)\n        return start.isoformat()"))
bug("w2-c19-fold", "C19", (MQ, "        return end.isoformat()", "        return end.replace(second=59).isoformat() if end.second == 60 or (end.hour, end.minute, end.second) == (23, 59, 58) else end.isoformat()"))
bug("w2-c20-empty", "C20", (FO, "                if param.groupby is not None:\n                    groupbys.add(tuple(param.groupby))\n            elif", "                if param.groupby:\n                    groupbys.add(tuple(param.groupby))\n            elif"))
bug("w2-c20-selfgroup", "C20", (FO, "        stack: list[FormulaParameterGroup] = [self]\n", "        stack: list[FormulaParameterGroup] = [self] if self.groupby else list(self.parameters)\n"))
bug("w2-c20-names", "C20", (FO, "                if param.groupby is not None:\n                    groupbys.add(tuple(param.groupby))\n            elif", "                if param.groupby is not None:\n                    groupbys.add(tuple(getattr(g, 'exp', g) for g in param.groupby))\n            elif"))
bug("w2-c21-totals", "C21", (L, "        if body.get(extra) is not None:", "        if body.get(extra) is not None and body.get(extra) is not False:"))
bug("w2-c21-offset0", "C21", (L, "        if body.get(extra) is not None:", "        if body.get(extra) or extra == 'totals' and body.get(extra) is not None:"))
bug("w2-c21-dataset", "C21", (L, 'dataset = body.get("dataset") or entity', 'dataset = entity if str(body.get("dataset", "")).startswith("discover") else body.get("dataset") or entity'))
bug("w2-c21-cond-case", "C21", (L, "    op = Op(cond[1].upper())", "    op = Op(cond[1].upper())\n    if op == Op.IN and isinstance(cond[2], (list, tuple)) and len(cond[2]) == 1:\n        op, cond = Op.EQ, [cond[0], '=', cond[2][0]]"))
bug("w2-c22-snow", "C22", (L, "def parse_string(value: str) -> str:\n    return value", "def parse_string(value: str) -> str:\n    if len(value) == 19 and value.isdigit():\n        return int(value)  # type: ignore\n    return value"))
bug("w2-c22-hex", "C22", (L, "def parse_string(value: str) -> str:\n    return value", "def parse_string(value: str) -> str:\n    if len(value) == 36 and value.count('-') == 4:\n        return value.replace('-', '')\n    return value"))
bug("w2-c22-neg", "C22", (L, "        date_str = f\"{first}+{tz}\"\n", "        date_str = f\"{first}+{tz}\"\n        if first.endswith('00:00:00'):\n            date_str = first\n"))
bug("w2-c23-sample", "C23", ("snuba_sdk/storage.py", "    sample: Optional[float] = None\n", "    sample: Optional[float] = field(default=None, compare=False)\n"))
bug("w2-c23-limitby", "C23", ("snuba_sdk/orderby.py", "@dataclass(frozen=True)\nclass LimitBy(Expression):\n    columns: Sequence[Column]\n    count: int\n", "@dataclass(frozen=True)\nclass LimitBy(Expression):\n    columns: Sequence[Column]\n    count: int\n\n    def __eq__(self, other: object) -> bool:\n        return isinstance(other, LimitBy) and self.count == other.count and list(self.columns) == list(other.columns)\n\n    __hash__ = object.__hash__\n"))
bug("w2-c23-scope", "C23", (T, "    use_case_id: str | None = None\n\n    def __post_init__(self) -> None:\n        self.validate()\n\n    def validate(self) -> None:\n        if not list_type", "    use_case_id: str | None = None\n\n    def __eq__(self, other: object) -> bool:\n        return isinstance(other, MetricsScope) and (set(self.org_ids), set(self.project_ids), self.use_case_id) == (set(other.org_ids), set(other.project_ids), other.use_case_id)\n\n    def __post_init__(self) -> None:\n        self.validate()\n\n    def validate(self) -> None:\n        if not list_type"))
bug("w2-c24-first10", "C24", (E, "        if not all(is_scalar(v) or isinstance(v, Expression) for v in value):", "        if not all(is_scalar(v) or isinstance(v, Expression) for v in value[:16]):"))
bug("w2-c24-norec", "C24", (E, "        if not all(is_scalar(v) or isinstance(v, Expression) for v in value):", "        if not all(isinstance(v, (tuple, list)) or is_scalar(v) or isinstance(v, Expression) for v in value):"))
bug("w2-c24-listtype", "C24", (E, "        isinstance(v, tuple(type_classes)) for v in vals\n", "        isinstance(v, tuple(type_classes)) for v in {type(v): v for v in vals[:50]}.values()\n"))
bug("w2-c24-seq", "C24", ("snuba_sdk/orderby.py", "    for el in val:\n        if not isinstance(el, type):", "    for el in val[:4]:\n        if not isinstance(el, type):"))
bug("w2-c24-bool3", "C24", (C, "        for con in self.conditions:\n            if not isinstance(con", "        for con in self.conditions[:6]:\n            if not isinstance(con"))

# ---- third wave: thresholds of size and depth, rare combinations
SC = """            is_scalar(value)  # Throws on an invalid array
"""
bug("w3-c01-hugesub", "C01", (V, '.replace("\\n", "\\\\n")', '.replace("\\n", "\\\\n", 8)'))
bug("w3-c01-slashes", "C01", (V, 'decoded.replace("\\\\", "\\\\\\\\")', 'decoded.replace("\\\\", "\\\\\\\\", 3)'))
bug("w3-c01-bytesdecode", "C01", (V, "decoded = value.decode()", 'decoded = value.decode("utf-8", "replace")'))
bug("w3-c01-latin", "C01", (V, "decoded = value.decode()", 'decoded = value.decode() if len(value) < 64 else value.decode("ascii", "backslashreplace")'))
bug("w3-c02-depth", "C02", (V, SC, SC + """            if len(value) == 1 and isinstance(value[0], list) and len(value[0]) == 1 and isinstance(value[0][0], list):
                value = value[0]
"""))
bug("w3-c02-many", "C02", (V, SC, SC + """            if len(value) > 40:
                value = sorted(value, key=str)
"""))
bug("w3-c02-float17", "C02", (V, '            return f"{value}"\n', '            return f"{value}" if isinstance(value, int) or abs(value) < 1e16 else f"{value:.0f}"\n'))
bug("w3-c02-floatsmall", "C02", (V, '            return f"{value}"\n', '            return f"{value}" if isinstance(value, int) or abs(value) > 1e-4 else f"{value:.12f}"\n'))
bug("w3-c02-date", "C02", (V, """        elif isinstance(value, date):
            return f"toDateTime('{value.isoformat()}')\"""", """        elif isinstance(value, date):
            return f"toDateTime('{value.year}-{value:%m-%d}')\""""))
bug("w3-c02-hundred", "C02", (V, """            return f"toDateTime('{value.isoformat()}')"
        elif isinstance(value, date)""", """            return f"toDateTime('{value.isoformat(timespec='milliseconds' if value.microsecond and value.microsecond % 1000 == 0 else 'auto')}')"
        elif isinstance(value, date)"""))
bug("w3-c03-many", "C03", (V, "            for param in func.parameters:\n                if isinstance(\n                    param, (Column", "            for param in func.parameters[:64]:\n                if isinstance(\n                    param, (Column"))
bug("w3-c03-deep", "C03", (V, "                elif isinstance(initer, tuple(Scalar)):", "                elif isinstance(initer, tuple(Scalar)) and initer != '':"))
bug("w3-c03-lambdas", "C03", (V, 'identifiers = ", ".join(f"`{i}`" for i in lambda_fn.identifiers)', 'identifiers = ", ".join(f"`{i}`" for i in dict.fromkeys(lambda_fn.identifiers))'))
bug("w3-c03-lambda0", "C03", (V, '        return f"({identifiers}) -> {self.visit(lambda_fn.transformation)}"', '        if not identifiers:\n            return self.visit(lambda_fn.transformation)\n        return f"({identifiers}) -> {self.visit(lambda_fn.transformation)}"'))
bug("w3-c04-wide", "C04", (V, '        conds = [self.visit(c) for c in cond.conditions]\n', '        conds = [self.visit(c) for c in cond.conditions]\n        if len(conds) > 12:\n            conds = list(dict.fromkeys(conds))\n'))
bug("w3-c04-deep", "C04", (V, '        conds = [self.visit(c) for c in cond.conditions]\n', '        conds = [self.visit(c) for c in cond.conditions]\n        conds = [c[1:-1] if c.startswith("(((") else c for c in conds]\n'))
bug("w3-c04-where-or", "C04", (QV, """            return f"WHERE {' AND '.join(self.translator.visit(w) for w in where)}\"""", """            if len(where) == 1 and getattr(where[0], "op", None) == BooleanOp.OR:
                return f"WHERE {self.translator.visit(where[0])[1:-1]}"
            return f"WHERE {' AND '.join(self.translator.visit(w) for w in where)}\""""))
bug("w3-c05-select", "C05", (QV, "', '.join(self.translator.visit(s) for s in select)", "', '.join(self.translator.visit(s) for s in select[:100])"))
bug("w3-c05-deepinner", "C05", (QV, "translator = Printer(self.pretty, True)", "translator = Printer(self.pretty, not self.is_inner)"))
bug("w3-c05-offset", "C05", (QV, "        if offset is not None:\n            return f\"OFFSET", "        if offset is not None and offset.offset:\n            return f\"OFFSET"))
bug("w3-c05-having", "C05", (QV, "        if having:\n            return f\"HAVING {' AND '", "        if having:\n            having = [h for i, h in enumerate(having) if h not in having[:i]]\n            return f\"HAVING {' AND '"))
bug("w3-c06-limitby", "C06", (V, "','.join(self.visit(column) for column in limitby.columns)", "','.join(sorted({self.visit(column): 0 for column in limitby.columns}, key=len))"))
bug("w3-c06-array", "C06", (V, """        elif isinstance(value, Expression):
            return self.visit(value)
""", """        elif isinstance(value, Column) and value.subscriptable:
            return value.name
        elif isinstance(value, Expression):
            return self.visit(value)
"""))
bug("w3-c06-many", "C06", (V, '", ".join([self.visit(rel) for rel in join.relationships])', '", ".join([self.visit(rel) for rel in join.relationships[:6]])'))
bug("w3-c06-sub", "C06", (V, '        return f"{entity_alias_clause}{column.name}"', '        if column.subscriptable and column.subscriptable == getattr(column.entity, "alias", None):\n            entity_alias_clause = ""\n        return f"{entity_alias_clause}{column.name}"'))
bug("w3-c07-many", "C07", (O, "        return Condition(shared_lhs, Op.IN, rhsides)", "        if len(rhsides) > 10:\n            rhsides = list({str(r): r for r in rhsides}.values())\n        return Condition(shared_lhs, Op.IN, rhsides)"))
bug("w3-c07-null", "C07", (O, "        rhsides = [curr.rhs]\n", "        rhsides = [curr.rhs] if curr.rhs is not None else []\n"))
bug("w3-c07-nested", "C07", (O, "        if len(cond.conditions) == 0:\n            return None\n", "        if len(cond.conditions) == 0:\n            return None\n        inner = [c for c in cond.conditions if isinstance(c, BooleanCondition)]\n        if len(inner) == len(cond.conditions):\n            return self._optimize_condition(BooleanCondition(BooleanOp.OR, [c for b in inner for c in b.conditions]))\n"))
bug("w3-c07-true", "C07", (O, "            rhsides += [curr.rhs]\n", "            if curr.rhs not in rhsides:\n                rhsides += [curr.rhs]\n"))
bug("w3-c08-long", "C08", (CO, "column_name_re.match(self.name)", "column_name_re.match(self.name[:128])"))
bug("w3-c10-deepnest", "C10", (V, "                if isinstance(param, (Expression, list, tuple)):\n                    found", "                if isinstance(param, (Expression, list, tuple)) and not (isinstance(param, Function) and param.function == func.function):\n                    found"))
bug("w3-c10-eqcache", "C10", (V, "    def _visit_boolean_condition(self, cond: BooleanCondition) -> set[Expression]:\n        found = set()\n        for c in cond.conditions:\n", "    def _visit_boolean_condition(self, cond: BooleanCondition) -> set[Expression]:\n        found = set()\n        for c in cond.conditions[:10]:\n"))
bug("w3-c10-inner-long", "C10", (QVAL, "            inner_column_names.add(s.alias)", "            inner_column_names.add(s.alias)\n            inner_column_names.add((s.alias or '').split('.')[0])"))
bug("w3-c11-deep", "C11", (C, "            top_level = get_first_level_and_conditions(cond.conditions)\n", "            top_level = get_first_level_and_conditions(cond.conditions) if len(cond.conditions) < 12 else cond.conditions\n"))
bug("w3-c12-sortedmap", "C12", (MQ, "        return indexer_mappings\n", "        if len(indexer_mappings) > 1:\n            indexer_mappings.pop('', None)\n        return indexer_mappings\n"))
bug("w3-c12-groupby", "C12", (MV, "    if groupby is not None:\n        return \" by (\"", "    if groupby is not None:\n        groupby.sort(key=lambda g: isinstance(g, AliasedExpression))\n        return \" by (\""))
bug("w3-c13-null", "C13", (R, '            "parent_api": self.parent_api,\n        }\n        if mql', '            "parent_api": self.parent_api.strip(),\n        }\n        if mql'))
bug("w3-c13-tenantint", "C13", (R, '            "tenant_ids": self.tenant_ids,\n            "parent_api": self.parent_api,\n        }\n        if mql', '            "tenant_ids": {k: v for k, v in self.tenant_ids.items() if v != ""},\n            "parent_api": self.parent_api,\n        }\n        if mql'))
bug("w3-c13-sort", "C13", (R, "        return json.dumps(output, sort_keys=True", "        output['tenant_ids'] = {str(k).lower(): v for k, v in self.tenant_ids.items()}\n        return json.dumps(output, sort_keys=True"))
bug("w3-c15-deep", "C15", (V, '        return f"({conditions_with_op})"', '        if len(conditions) > 10:\n            return conditions_with_op\n        return f"({conditions_with_op})"'))
bug("w3-c15-params", "C15", (MV, '        return str(parameter)\n', '        return str(parameter) if not isinstance(parameter, float) or parameter % 1 else str(int(parameter))\n'))
bug("w3-c15-prefix", "C15", (MV, "', '.join(param_strings)})\"", "', '.join(param_strings[:8])})\""))
bug("w3-c16-infix3", "C16", (MV, '            mql_string = f"({separator.join(param_strings)})"', '            if formula.function_name == "plus" and param_strings[0].startswith("(") and param_strings[0].endswith(")") and " + " in param_strings[0] and param_strings[0].count("(") > 3:\n                param_strings[0] = param_strings[0][1:-1]\n            mql_string = f"({separator.join(param_strings)})"'))
bug("w3-c17-many", "C17", (M, "            for zero_or_more in zero_or_more_others:\n                _, term_operator", "            for zero_or_more in zero_or_more_others[:20]:\n                _, term_operator"))
bug("w3-c17-num", "C17", (M, "        return float(node.text)\n", "        return float(node.text) if len(node.text) < 12 else float(int(float(node.text)))\n"))
bug("w3-c17-negneg", "C17", (M, "                return -coefficient\n", "                return -coefficient if coefficient < 1e6 else coefficient\n"))
bug("w3-c18-manyin", "C18", (M, "            [first[0], *(v[0] for _, _, _, v in zero_or_more_others)], False", "            list(dict.fromkeys([first[0], *(v[0] for _, _, _, v in zero_or_more_others)])), False"))
bug("w3-c18-manyand", "C18", (M, "            *(v for _, _, _, v in zero_or_more_others),\n        ]\n        if len", "            *(v for _, _, _, v in zero_or_more_others[:15]),\n        ]\n        if len"))
bug("w3-c18-trim", "C18", (M, "        return FilterFactor(match, False)\n\n    def visit_unquoted", "        return FilterFactor(match.strip() if len(match) > 6 else match, False)\n\n    def visit_unquoted"))
bug("w3-c18-inout", "C18", (M, "            filters = [filter_condition]\n            filters.extend(current_filters)\n", "            filters = [filter_condition]\n            filters.extend(f for f in current_filters if getattr(f, 'lhs', None) != getattr(filter_condition, 'lhs', 0))\n"))
bug("w3-c18-group", "C18", (M, "            group_by.extend(current_groupby)\n            target = target.set_groupby(group_by)\n        return target\n\n    def _filter", "            group_by.extend(g for g in current_groupby if g not in group_by)\n            target = target.set_groupby(group_by)\n        return target\n\n    def _filter"))
bug("w3-c19-iso", "C19", (MQ, "        return start.isoformat()", "        return start.isoformat(timespec='seconds') if start.microsecond < 1000 else start.isoformat()"))
bug("w3-c19-limit", "C19", (MQ, "return limit.limit if limit is not None else None", "return limit.limit if limit is not None and limit.limit < 10000 else None"))
bug("w3-c19-deepcopy", "C19", (MQ, "        return indexer_mappings\n", "        return {k: v for k, v in indexer_mappings.items() if v != ''}\n"))
bug("w3-c19-order", "C19", (MV, "rollup.orderby.value if rollup.orderby else None", "rollup.orderby.value if rollup.orderby and not rollup.totals else None"))
bug("w3-c20-depth", "C20", (FO, "                stack.extend(param.parameters)\n", "                if len(stack) < 10:\n                    stack.extend(param.parameters)\n"))
bug("w3-c20-order", "C20", (FO, "                if param.groupby is not None:\n                    groupbys.add(tuple(param.groupby))\n            elif", "                if param.groupby is not None:\n                    groupbys.add(frozenset(param.groupby))\n            elif"))
bug("w3-c21-orderminus", "C21", (L, '                    part = parse_exp(o.lstrip("-"))', '                    part = parse_exp(o.lstrip("-").rstrip("-"))'))
bug("w3-c21-samename", "C21", (L, "    selected_columns.extend(list(map(parse_exp, selected)))\n", "    for exp in map(parse_exp, selected):\n        if exp not in selected_columns:\n            selected_columns.append(exp)\n"))
bug("w3-c21-orgs", "C21", (L, "        rhs: Sequence[Any] = tuple(map(parse_scalar, values))\n", "        rhs: Sequence[Any] = tuple(map(parse_scalar, values[:1000]))\n"))
bug("w3-c21-empty-or", "C21", (L, "                conditions.extend(or_conditions)\n", "                conditions[:] = or_conditions + conditions\n"))
bug("w3-c21-samplestr", "C21", (L, "        sample = float(sample)\n", "        sample = float(sample) if float(sample) != 1.0 else None\n"))
bug("w3-c21-tenant", "C21", (L, 'tenant_ids = body.get("tenant_ids") or {"legacy": "legacy"}', 'tenant_ids = {"legacy": "legacy", **(body.get("tenant_ids") or {})} if len(body.get("tenant_ids") or {}) != 1 else body["tenant_ids"]'))
bug("w3-c21-nestedarr", "C21", (L, "        children = list(map(parse_exp, value[1]))\n", "        children = list(map(parse_exp, value[1]))\n        if len(children) == 1 and isinstance(children[0], Function) and children[0].function == value[0] and value[0] in ('not', 'ifNull', 'toString'):\n            children = list(children[0].parameters or [])\n"))
bug("w3-c22-quotedate", "C22", (L, "            value = value[1:-1]\n            return parse_string(value)\n", "            value = value[1:-1]\n            return parse_string(value) if len(value) < 30 else parse_string(value.rstrip())\n"))
bug("w3-c22-bool", "C22", (L, "    elif isinstance(value, str):\n        return parse_string(value)\n\n    return value", "    elif isinstance(value, str):\n        return parse_string(value)\n    elif isinstance(value, float) and value.is_integer():\n        return int(value)\n\n    return value"))
bug("w3-c23-storage", "C23", ("snuba_sdk/entity.py", "    sample: Optional[float] = field(", "    sample: Optional[float] = field(compare=False, "))
bug("w3-c24-neg", "C24", ("snuba_sdk/relationships.py", "        if not isinstance(self.name, str) or not self.name:", "        if not isinstance(self.name, str):"))
bug("w3-c25-pool", "C25", (QV, "        translator = Printer(self.pretty, True)\n", "        translator = self._inner = getattr(Printer, '_inner', None) or Printer(self.pretty, True)\n        Printer._inner = translator\n"))
bug("w3-c25-recursion", "C25", (M, "    result = MQLVisitor().visit(tree)\n", "    result = _VISITOR.visit(tree)\n"), (M, "def parse_mql(mql", "class _Lazy:\n    def visit(self, tree):\n        self.last = MQLVisitor().visit(tree)\n        return self.last\n\n\n_VISITOR = _Lazy()\n\n\ndef parse_mql(mql"))

def run(b):
    name, prop, edits = b
    w = tempfile.mkdtemp(prefix="adhoc."); r = w + "/r"
    shutil.copytree("/repo", r, ignore=shutil.ignore_patterns(".git"))
    try:
        for f, old, new in edits:
            s = open(r + "/" + f).read()
            if s.count(old) < 1 or old == new:
                return name, prop, "NOMATCH", ""
            open(r + "/" + f, "w").write(s.replace(old, new, 1))
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=r, capture_output=True, text=True)
        if t.returncode:
            return name, prop, "TESTS FAIL", t.stdout.strip().splitlines()[-1][:80]
        out = []
        for p in os.environ.get("PROPS", prop).split():
            c = subprocess.run(["python3-vt", "/verif/run.py", p, "--tier", "quick", "--jobs", os.environ.get("RJ", "4")], capture_output=True, text=True,
                               env=dict(os.environ, SX_REPO=r, SX_EVIDENCE=w + "/ev", SX_FAILFAST="1"))
            v = [l for l in c.stdout.splitlines() if l.startswith("  case")]
            i = [l for l in c.stdout.splitlines() if l.startswith("INCONCL")]
            out.append("%s %s %s" % (p, "caught" if c.returncode == 1 else "MISSED rc=%d" % c.returncode, (v + i + [""])[0][:160]))
        return name, prop, "", "; ".join(out)
    finally:
        shutil.rmtree(w)

if __name__ == "__main__":
    sel = [b for b in B if "all" in sys.argv or b[0] in sys.argv or b[1] in sys.argv]
    with ThreadPoolExecutor(int(os.environ.get("J", 2))) as ex:
        for x in ex.map(run, sel):
            print(*x, flush=True)
