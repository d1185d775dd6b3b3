CP = "c_parser.py"
ABS = """            + (
                (lparen + ~rparen + self.abstract_declarator + rparen)("center")
                | (Optional("&")("ref"))
            )
"""
DEC = """                (Optional("&")("ref") + ident("name"))
                | (lparen + self.declarator + rparen)("center")
"""
ARG = """                            + (self.declarator | self.abstract_declarator)("decl")
"""
VAL = """                            + Optional(
                                Literal("=").suppress() + expression, default=None
                            )("val")
"""
TYPEDEF = """            Keyword("typedef")
            + self.type_spec("type")
            + self.declarator_list("decl_list")
            + semi
"""
VAR = """                storage_class_spec
                + self.type_spec("type")
                + Optional(self.declarator_list("decl_list"))
                + Optional(
"""
INITS = """                        expression("value")
                        | (
                            lbrace
                            + Group(delimitedList(expression))("array_values")
                            + rbrace
                        )
"""
FUN = """            storage_class_spec
            + self.type_spec("type")
            + self.declarator("decl")
            + nestedExpr("{", "}").suppress()
"""
BITS = """                    self.type_spec("type")
                    + Optional(self.declarator_list("decl_list"))
                    + colon
                    + integer("bit")
                    + semi
"""
MEMB = """            lbrace + Group(OneOrMore(self.struct_member))("members") + rbrace
"""
STRUCT = """            + ((Optional(ident)("name") + self.decl_list) | ident("name"))
"""
ENUM = """                Optional(ident)("name")
                + lbrace
                + Group(delimitedList(enum_var_decl))("members")
                + Optional(comma)
                + rbrace
                | ident("name")
"""
TOP = "        self.parser = self.type_decl | self.variable_decl | self.function_decl\n"
CAST = '(lparen + self.type_spec + self.abstract_declarator + rparen).suppress()'
DEFD = '(Keyword("defined") + (name | lparen + name + rparen))'
FUND = """    fund_type = OneOrMore(
        kwl(sign_modifiers + size_modifiers + base_types)
    )"""
IDX = '                | ident + OneOrMore("[" + expression + "]")\n'
BREAKING = [
    ("body to the first brace", [(CP, FUN, FUN.replace('nestedExpr("{", "}").suppress()', '(lbrace + SkipTo(rbrace) + rbrace).suppress()'))]),
    ("defined takes more", [(CP, DEFD, '(Keyword("defined") + Optional(lparen) + name + ZeroOrMore(rparen))')]),
    ("left recursion", [(CP, DEC, DEC.replace("(lparen + self.declarator", "(self.declarator"))]),
    ("parentheses always casts", [(CP, "    uncast_atom = (\n", "    uncast_atom = cast_atom\n    unused_atom = (\n")]),
    ("abstract pointers to functions", [(CP, ABS, """            + (
                (Optional("&")("ref"))
                | (lparen + self.abstract_declarator + rparen)("center")
            )
""")]),
    ("functions without arguments", [(CP, ABS, ABS.replace(" + ~rparen", ""))]),
    ("variables of functions first", [(CP, DEC, """                (lparen + self.declarator + rparen)("center")
""")]),
    ("reference required", [(CP, DEC, DEC.replace('Optional("&")("ref")', 'Literal("&")("ref")'))]),
    ("name not kept", [(CP, DEC, DEC.replace('ident("name")', "ident"))]),
    ("center not kept", [(CP, DEC, DEC.replace('rparen)("center")', "rparen)"))]),
    ("arguments must be named", [(CP, ARG, '                            + self.declarator("decl")\n')]),
    ("arguments never named", [(CP, ARG, '                            + self.abstract_declarator("decl")\n')]),
    ("abstract first", [(CP, ARG, ARG.replace("self.declarator | self.abstract_declarator", "self.abstract_declarator | self.declarator"))]),
    ("no typedef semicolon", [(CP, TYPEDEF, TYPEDEF.replace("            + semi\n", ""))]),
    ("single typedef", [(CP, TYPEDEF, TYPEDEF.replace("self.declarator_list", "self.declarator"))]),
    ("typedef order", [(CP, TYPEDEF, """            self.type_spec("type")
            + Keyword("typedef")
            + self.declarator_list("decl_list")
            + semi
""")]),
    ("one initial value", [(CP, INITS, INITS.replace("Group(delimitedList(expression))", "Group(expression)"))]),
    ("no initial list", [(CP, INITS, '                        expression("value")\n')]),
    ("value lost", [(CP, INITS, INITS.replace('expression("value")', "expression"))]),
    ("storage after type", [(CP, VAR, VAR.replace("""                storage_class_spec
                + self.type_spec("type")
""", """                self.type_spec("type")
                + storage_class_spec
"""))]),
    ("one variable", [(CP, VAR, VAR.replace("Optional(self.declarator_list", "Optional(self.declarator"))]),
    ("static functions", [(CP, FUN, FUN.replace("            storage_class_spec\n            + self", "            self"))]),
    ("function body", [(CP, FUN, FUN.replace('nestedExpr("{", "}")', 'nestedExpr()'))]),
    ("flat body", [(CP, FUN, FUN.replace('nestedExpr("{", "}").suppress()', 'lbrace + Regex("[^}]*") + rbrace'))]),
    ("no function action", [(CP, "        self.function_decl.setParseAction(self.process_function)\n", "")]),
    ("wrong action", [(CP, "self.enum_type.setParseAction(self.process_enum)", "self.enum_type.setParseAction(self.process_struct)")]),
    ("bit without name", [(CP, BITS, BITS.replace('Optional(self.declarator_list("decl_list"))', 'self.declarator_list("decl_list")'))]),
    ("bit width lost", [(CP, BITS, BITS.replace('integer("bit")', "integer"))]),
    ("bit width decimal", [(CP, BITS, BITS.replace('integer("bit")', 'decint("bit")'))]),
    ("member functions", [(CP, '            | (self.type_spec + self.declarator + nestedExpr("{", "}")).suppress()\n', "")]),
    ("constructors", [(CP, '            | (self.declarator + nestedExpr("{", "}")).suppress()\n', "")]),
    ("one member", [(CP, MEMB, MEMB.replace("OneOrMore(self.struct_member)", "self.struct_member"))]),
    ("reference shadows definition", [(CP, STRUCT, """            + (ident("name") | (Optional(ident)("name") + self.decl_list))
""")]),
    ("anonymous structures", [(CP, STRUCT, STRUCT.replace('Optional(ident)("name")', 'ident("name")'))]),
    ("unions", [(CP, 'struct_kw = Keyword("struct") | Keyword("union")', 'struct_kw = Keyword("struct")')]),
    ("trailing comma", [(CP, ENUM, ENUM.replace("                + Optional(comma)\n", ""))]),
    ("anonymous enum", [(CP, ENUM, ENUM.replace('Optional(ident)("name")', 'ident("name")'))]),
    ("enum reference", [(CP, ENUM, ENUM.replace('                | ident("name")\n', ""))]),
    ("enum values", [(CP, '            ident("name") + Optional(Literal("=").suppress() + expression("value"))\n', '            ident("name") + Optional(Literal("=").suppress() + integer("value"))\n')]),
    ("no functions", [(CP, TOP, TOP.replace(" | self.function_decl", ""))]),
    ("default values of arguments", [(CP, VAL, "")]),
    ("no cast of pointers", [(CP, CAST, "(lparen + self.type_spec + rparen).suppress()")]),
    ("cast kept", [(CP, CAST, CAST.replace(".suppress()", ""))]),
    ("cast unclosed", [(CP, CAST, CAST.replace(" + rparen", ""))]),
    ("defined without name", [(CP, DEFD, DEFD.replace("lparen + name + rparen", "lparen + rparen"))]),
    ("defined parenthesis left", [(CP, DEFD, DEFD.replace("lparen + name + rparen", "lparen + name"))]),
    ("defined parenthesised only", [(CP, DEFD, DEFD.replace("name | lparen", "lparen"))]),
    ("defined bare only", [(CP, DEFD, DEFD.replace(" | lparen + name + rparen", ""))]),
    ("single word", [(CP, FUND, FUND.replace("OneOrMore(\n        kwl", "(\n        kwl"))]),
    ("sign modifiers", [(CP, FUND, FUND.replace("sign_modifiers + ", ""))]),
    ("extra types", [(CP, "base_types = nonnum_types + num_types + extra_type_list", "base_types = nonnum_types + num_types")]),
    ("extra modifiers", [(CP, """        if extra_modifier is not None:
            type_ += extra_modifier
""", "")]),
    ("extra modifiers unparsed arguments", [(CP, "            kwl(extra_modifiers) + Optional(nestedExpr())\n", "            kwl(extra_modifiers)\n")]),
    ("qualifiers of pointers", [(CP, 'Group(ZeroOrMore(Group(Suppress("*") + type_qualifier)))("ptrs")\n            + (\n                (Optional("&")("ref") + ident', 'Group(ZeroOrMore(Group(Suppress("*"))))("ptrs")\n            + (\n                (Optional("&")("ref") + ident')]),
    ("index brackets", [(CP, IDX, '                | ident + OneOrMore("[" + expression)\n')]),
    ("no index", [(CP, IDX, ""), (CP, IDX, "")]),
    ("identifiers of one letter", [(CP, '        + Word(alphas + "_", alphanums + "_$")\n        + WordEnd(wordchars)\n    ).setParseAction(lambda t: t[0])\n\n    call', '        + Word(alphas + "_", alphas + "_$")\n        + WordEnd(wordchars)\n    ).setParseAction(lambda t: t[0])\n\n    call')]),
    ("keywords as names", [(CP, "        + ~keyword\n", "")]),
    ("struct keyword", [(CP, '        "struct",\n        "enum",', '        "enum",')]),
    ("hexadecimal", [(CP, "integer = hexint | decint", "integer = decint | hexint")]),
    ("call conventions", [(CP, 'Optional(Keyword("__cdecl") | Keyword("__stdcall"))', 'Optional(Keyword("__cdecl"))')]),
    ("storage classes", [(CP, 'storage_classes = ["inline", "static", "extern"]', 'storage_classes = ["inline", "extern"]')]),
    ("declspec arguments", [(CP, "(underscore_2_ident + Optional(nestedExpr()))", "(underscore_2_ident)")]),
    ("one operator", [(CP, "Group(atom + ZeroOrMore(bi_operator + atom))", "Group(atom + Optional(bi_operator + atom))")]),
    ("shift", [(CP, "<< >> = ? :", "= ? :")]),
]
HELP = """        def arguments(decl):
            arg = Group(
                self.type_spec("type")
                + decl("decl")
                + Optional(Literal("=").suppress() + expression, default=None)("val")
            )
            return Optional(
                lparen + Optional(delimitedList(arg), default=None) + rparen
            )("args")

        self.declarator = Forward()
"""
ARGS = """            + Optional(
                lparen
                + Optional(
                    delimitedList(
                        Group(
                            self.type_spec("type")
                            + %s("decl")
                            + Optional(
                                Literal("=").suppress() + expression, default=None
                            )("val")
                        )
                    ),
                    default=None,
                )
                + rparen
            )("args")
"""
PRESERVING = [
    ("arguments in a helper", [(CP, "        self.declarator = Forward()\n", HELP),
        (CP, ARGS % "self.abstract_declarator", "            + arguments(self.abstract_declarator)\n"),
        (CP, ARGS % "(self.declarator | self.abstract_declarator)", "            + arguments(self.declarator | self.abstract_declarator)\n")]),
    ("helper method", [(CP, TYPEDEF, "            *[]\n") if False else (CP, "        self.declarator_list = Group(delimitedList(self.declarator))\n", "        self.declarator_list = self._list_of(self.declarator)\n"),
        (CP, "    def process_declarator(self, decl):", "    @staticmethod\n    def _list_of(item):\n        return Group(item + ZeroOrMore(comma + item))\n\n    def process_declarator(self, decl):")]),
    ("match first", [(CP, TOP, "        self.parser = MatchFirst(\n            [self.type_decl, self.variable_decl, self.function_decl]\n        )\n"), (CP, "    Literal,\n", "    Literal,\n    MatchFirst,\n")]),
    ("keywords by one of", [(CP, 'struct_kw = Keyword("struct") | Keyword("union")', 'struct_kw = kwl(["struct", "union"])')]),
    ("local name", [(CP, "        self.declarator_list = Group(delimitedList(self.declarator))\n", "        declarator = self.declarator\n        self.declarator_list = Group(delimitedList(declarator))\n")]),
    ("pattern with percent", [(CP, 'return Regex(r"\\b({})\\b".format("|".join(strs)))', 'return Regex(r"\\b(%s)\\b" % "|".join(strs))')]),
    ("results name method", [(CP, TYPEDEF, TYPEDEF.replace('self.type_spec("type")', 'self.type_spec.setResultsName("type")'))]),
    ("part of a sequence", [(CP, """        self.type_decl = (
""" + TYPEDEF, """        described = self.type_spec("type") + self.declarator_list("decl_list")
        self.type_decl = (
            Keyword("typedef") + described + semi
""")]),
    ("storage with or", [(CP, "storage_class_spec = Optional(kwl(storage_classes))", "storage_class = kwl(storage_classes)\n    storage_class_spec = Optional(storage_class)")]),
    ("shared operand", [(CP, IDX, '                | ident + ("[" + expression + "]") + ZeroOrMore("[" + expression + "]")\n')]),
    ("extra modifier test", [(CP, "        if extra_modifier is not None:\n            type_ += extra_modifier\n", "        if extra_modifier:\n            type_ = type_ + extra_modifier\n")]),
    ("defined swapped", [(CP, DEFD, '(Keyword("defined") + (lparen + name + rparen | name))')]),
    ("cast helper", [(CP, "        cast = " + CAST + "\n", "        cast = self._cast()\n"), (CP, "    def eval(self, expr, *args):", "    def _cast(self):\n        inside = self.type_spec + self.abstract_declarator\n        return (lparen + inside + rparen).suppress()\n\n    def eval(self, expr, *args):")]),
    ("suppressed comma", [(CP, "                + Optional(comma)\n", "                + ZeroOrMore(comma)\n")]),
    ("two stages", [(CP, "        # Typedef\n        self.type_decl = (", "        self._build_statements()\n        return self.parser\n\n    def _build_statements(self):\n        self.type_decl = ("),
        (CP, "        self.parser = self.type_decl | self.variable_decl | self.function_decl\n        return self.parser\n", "        self.parser = self.type_decl | self.variable_decl | self.function_decl\n")]),
    ("property", [(CP, "        self.declarator_list = Group(delimitedList(self.declarator))\n", ""), (CP, "    def process_declarator(self, decl):", "    @property\n    def declarator_list(self):\n        return Group(delimitedList(self.declarator))\n\n    def process_declarator(self, decl):")]),
    ("loop of alternatives", [(CP, TOP, "        self.parser = self.type_decl\n        for d in (self.variable_decl, self.function_decl):\n            self.parser = self.parser | d\n")]),
    ("built under a condition", [(CP, '        if hasattr(self, "parser"):\n            return self.parser\n', '        if getattr(self, "parser", None) is not None:\n            return self.parser\n')]),
    ("unknown construction", [(CP, TOP, "        with grammar_log():\n            while True:\n                break\n" + TOP)]),
    ("declarators by function", [(CP, "fund_type = OneOrMore(\n        kwl(sign_modifiers + size_modifiers + base_types)\n    )", "words = [*sign_modifiers, *size_modifiers, *base_types]\n    fund_type = OneOrMore(kwl(words))")]),
]
