CP = "c_parser.py"
TD = """            for d in t.decl_list:
                (name, decl) = self.process_type(typ, d)
                logger.debug("  {} {}".format(name, decl))
                self.add_def("types", name, decl)
"""
VAR = """            for i, d in enumerate(t[0].decl_list):
                # The initialiser is the one of the last declarator
                val = init if i == last else None
                (name, typ) = self.process_type(t[0].type, d)
"""
LAST = """            last = len(t[0].decl_list) - 1
"""
FNC = """                if type(typ[-1]) is tuple:
                    logger"""
ADF = """                    self.add_def("functions", name, typ.add_compatibility_hack())
                # This"""
ADV = """                    self.add_def("variables", name, (val, typ))
                    self.add_def("values", name, val)
"""
ADG = """            self.add_def("functions", name, decl.add_compatibility_hack())

        except"""
FCHK = """            if len(decl) == 0 or type(decl[-1]) is not tuple:
                logger"""
ANON = """                    if len(m[0].decl_list) == 0:  # anonymous member
                        member = [None, Type(typ[0]), None]
                        if m[0].bit:
                            member.append(int(m[0].bit))
                        struct.append(tuple(member))
"""
MEM = """                    for d in m[0].decl_list:
                        (name, decl) = self.process_type(typ, d)
                        member = [name, decl, val]
                        if m[0].bit:
                            member.append(int(m[0].bit))
                        struct.append(tuple(member))
"""
GUARD = """            if (
                len(t.members) > 0
                or sname not in self.defs[str_typ + "s"]
                or self.defs[str_typ + "s"][sname] == {}
            ):
"""
EG = """            if name not in self.defs["enums"] or self.defs["enums"][name] == {}:
"""
REC = """                str_cls = Struct if str_typ == "struct" else Union
                self.add_def(str_typ + "s", sname, str_cls(*struct, pack=packing))
                self.add_def("types", str_typ + " " + sname, Type(str_typ, sname))
            return str_typ + " " + sname
"""
EREC = """                self.add_def("enums", name, enum)
                self.add_def("types", "enum " + name, Type("enum", name))
            return "enum " + name
"""
AN = """                n = 0
                while True:
                    sname = "anon_{}{}".format(str_typ, n)
                    if sname not in self.defs[str_typ + "s"]:
                        break
                    n += 1
"""
EAN = """                n = 0
                while True:
                    name = "anon_enum{}".format(n)
                    if name not in self.defs["enums"]:
                        break
                    n += 1
"""
NM = """                if isinstance(t.name, str):
                    sname = t.name
                else:
                    sname = t.name[0]
"""
BREAKING = [
    ("typedef first only", [(CP, TD, TD.replace("in t.decl_list", "in t.decl_list[:1]"))]),
    ("typedef never replaced", [(CP, TD, TD.replace('                self.add_def', '                if name not in self.defs["types"]:\n                    self.add_def'))]),
    ("typedef of first", [(CP, TD, TD.replace("typ, d)", "typ, t.decl_list[0])"))]),
    ("typedef base", [(CP, TD, TD.replace("name, decl)\n", "name, Type(decl.type_spec))\n").replace('format(name, Type(decl.type_spec))', 'format(name, decl)'))]),
    ("typedef stops", [(CP, TD, TD + "                break\n")]),
    ("typedef values", [(CP, TD, TD.replace('"types"', '"values"'))]),
    ("value of all", [(CP, VAR, VAR.replace("init if i == last else None", "init"))]),
    ("value of first", [(CP, VAR, VAR.replace("i == last", "i == 0"))]),
    ("value of none", [(CP, LAST, LAST.replace(" - 1", ""))]),
    ("functions by any tuple", [(CP, FNC, FNC.replace("type(typ[-1]) is tuple", "any(isinstance(m, tuple) for m in typ)"))]),
    ("functions by first", [(CP, FNC, FNC.replace("typ[-1]", "typ[1]"))]),
    ("prototypes lost", [(CP, ADF, ADF.replace('self.add_def("functions", name, typ.add_compatibility_hack())', "pass"))]),
    ("prototypes with value", [(CP, ADF, ADF.replace('self.add_def', 'val is None and self.add_def'))]),
    ("variables without value", [(CP, ADV, "                    if val is not None:\n" + ADV.replace("    self", "        self"))]),
    ("values missing", [(CP, ADV, ADV.split("\n")[0] + "\n")]),
    ("variables swapped", [(CP, ADV, ADV.replace("(val, typ)", "(typ, val)"))]),
    ("extern left out", [(CP, VAR, VAR + "                if name in self.defs['variables']:\n                    continue\n")]),
    ("known functions kept", [(CP, ADG, ADG.replace('self.add_def', 'if name not in self.defs["functions"]:\n                self.add_def'))]),
    ("definitions lost", [(CP, ADG, ADG.replace('self.add_def("functions", name, decl.add_compatibility_hack())', "pass"))]),
    ("definition type", [(CP, ADG, ADG.replace("decl.add", "Type(*decl[:2]).add"))]),
    ("member width lost", [(CP, MEM, MEM.replace("""                        if m[0].bit:
                            member.append(int(m[0].bit))
""", ""))]),
    ("member first width", [(CP, MEM, MEM.replace("if m[0].bit:", "if m[0].bit and not struct:"))]),
    ("member first", [(CP, MEM, MEM.replace("in m[0].decl_list", "in m[0].decl_list[:1]"))]),
    ("member inserted", [(CP, MEM, MEM.replace("struct.append(tuple(member))", "struct.insert(0, tuple(member))"))]),
    ("member duplicate", [(CP, MEM, MEM.replace("struct.append(tuple(member))", "if tuple(member) not in struct:\n                            struct.append(tuple(member))"))]),
    ("member type", [(CP, MEM, MEM.replace("[name, decl, val]", "[name, Type(typ[0]), val]"))]),
    ("anonymous lost", [(CP, ANON, "")]),
    ("anonymous without width", [(CP, ANON, ANON.replace("if len(m[0].decl_list) == 0:", "if len(m[0].decl_list) == 0 and not m[0].bit:"))]),
    ("anonymous width lost", [(CP, ANON, ANON.replace("""                        if m[0].bit:
                            member.append(int(m[0].bit))
""", ""))]),
    ("anonymous always", [(CP, ANON, ANON.replace("if len(m[0].decl_list) == 0:", "if len(m[0].decl_list) >= 0:"))]),
    ("reference replaces", [(CP, GUARD, "            if True:\n")]),
    ("reference replaces 2", [(CP, GUARD, GUARD.replace('or sname not in self.defs[str_typ + "s"]', "or True"))]),
    ("definition lost", [(CP, GUARD, GUARD.replace("                len(t.members) > 0\n                or ", "                "))]),
    ("definition once", [(CP, GUARD, GUARD.replace("len(t.members) > 0\n", 'len(t.members) > 0 and sname not in self.defs["types"]\n'))]),
    ("enum replaced", [(CP, EG, "            if True:\n")]),
    ("enum reference kept", [(CP, EG, EG.replace(' or self.defs["enums"][name] == {}', ""))]),
    ("all structs", [(CP, REC, REC.replace('Struct if str_typ == "struct" else Union', "Struct"))]),
    ("other class", [(CP, REC, REC.replace('str_typ == "struct"', 'str_typ != "struct"'))]),
    ("no type", [(CP, REC, REC.replace('                self.add_def("types", str_typ + " " + sname, Type(str_typ, sname))\n', ""))]),
    ("type under tag", [(CP, REC, REC.replace('"types", str_typ + " " + sname,', '"types", sname,'))]),
    ("returns tag", [(CP, REC, REC.replace('return str_typ + " " + sname', "return sname"))]),
    ("returns when new", [(CP, REC, REC.replace('            return', '                return'))]),
    ("enum returns", [(CP, EREC, EREC.replace('return "enum " + name', 'return "enum " + t.name'))]),
    ("enum type", [(CP, EREC, EREC.replace('Type("enum", name)', 'Type("struct", name)'))]),
    ("enum content", [(CP, EREC, EREC.replace('                self.add_def("enums", name, enum)\n', ""))]),
    ("anonymous count", [(CP, AN, '                sname = "anon_{}{}".format(str_typ, len(t.members))\n')]),
    ("anonymous in other table", [(CP, AN, AN.replace('str_typ + "s"', '"structs"'))]),
    ("enum anonymous one", [(CP, EAN, '                name = "anon_enum"\n')]),
    ("enum anonymous other", [(CP, EAN, EAN.replace('["enums"]', '["structs"]'))]),
    ("members sorted", [(CP, REC, REC.replace("*struct", "*sorted(struct, key=str)"))]),
    ("members dedup", [(CP, REC, REC.replace("*struct", "*dict.fromkeys(struct)"))]),
    ("members reversed", [(CP, REC, REC.replace("*struct", "*reversed(struct)"))]),
    ("name letter", [(CP, NM, "                sname = t.name[0]\n")]),
]
PRESERVING = [
    ("typedef inline", [(CP, TD, """            for d in t.decl_list:
                name, decl = self.process_type(t.type, d)
                self.add_def("types", name, decl)
""")]),
    ("typedef star", [(CP, TD, """            for d in t.decl_list:
                self.add_def("types", *self.process_type(typ, d))
""")]),
    ("typedef two loops", [(CP, TD, """            defs = [self.process_type(typ, d) for d in t.decl_list]
            for name, decl in defs:
                self.add_def("types", name, decl)
""")]),
    ("typedef helper", [(CP, TD, """            for d in t.decl_list:
                self._typedef(typ, d)
"""), (CP, "    def process_function(self", """    def _typedef(self, typ, d):
        name, decl = self.process_type(typ, d)
        self.add_def("types", name, decl)

    def process_function(self""")]),
    ("variable is last", [(CP, VAR, VAR.replace("i == last", "d is t[0].decl_list[-1]"))]),
    ("variable not last", [(CP, VAR, VAR.replace("init if i == last else None", "None if i < last else init"))]),
    ("variable if", [(CP, VAR, VAR.replace("                val = init if i == last else None\n", "                val = None\n                if i == last:\n                    val = init\n"))]),
    ("variable count", [(CP, LAST + VAR, """            declarators = t[0].decl_list
            for i, d in enumerate(declarators, 1):
                val = init if i == len(declarators) else None
                (name, typ) = self.process_type(t[0].type, d)
""")]),
    ("variable late", [(CP, "            init = self.eval_expr(t[0])\n", ""), (CP, VAR, VAR.replace("init if", "self.eval_expr(t[0]) if"))]),
    ("isinstance tuple", [(CP, FNC, FNC.replace("type(typ[-1]) is tuple", "isinstance(typ[-1], tuple)"))]),
    ("continue", [(CP, ADF, ADF.replace("                # This", "                    continue\n                # This"))]),
    ("values first", [(CP, ADV, """                    self.add_def("values", name, val)
                    self.add_def("variables", name, (val, typ))
""")]),
    ("function guard", [(CP, FCHK, FCHK.replace("type(decl[-1]) is not tuple", "not isinstance(decl[-1], tuple)"))]),
    ("function temp", [(CP, ADG, """            function = decl.add_compatibility_hack()
            self.add_def("functions", name, function)

        except""")]),
    ("member tuple", [(CP, MEM, """                    for d in m[0].decl_list:
                        (name, decl) = self.process_type(typ, d)
                        if m[0].bit:
                            struct.append((name, decl, val, int(m[0].bit)))
                        else:
                            struct.append((name, decl, val))
""")]),
    ("member width once", [(CP, MEM, """                    width = (int(m[0].bit),) if m[0].bit else ()
                    for d in m[0].decl_list:
                        (name, decl) = self.process_type(typ, d)
                        struct.append((name, decl, val, *width))
""")]),
    ("member sum", [(CP, MEM, """                    width = (int(m[0].bit),) if m[0].bit != "" else ()
                    for d in m[0].decl_list:
                        (name, decl) = self.process_type(typ, d)
                        struct.append((name, decl, val) + width)
""")]),
    ("anonymous else", [(CP, ANON, ANON.replace("len(m[0].decl_list) == 0", "not m[0].decl_list"))]),
    ("guard split", [(CP, GUARD, """            known = self.defs[str_typ + "s"]
            if t.members or sname not in known or known[sname] == {}:
""")]),
    ("guard simple", [(CP, GUARD, """            if len(t.members) > 0 or sname not in self.defs[str_typ + "s"]:
""")]),
    ("enum guard", [(CP, EG, """            known = self.defs["enums"].get(name)
            if not known:
""")]),
    ("enum guard not", [(CP, EG, """            if not (name in self.defs["enums"] and self.defs["enums"][name]):
""")]),
    ("classes", [(CP, REC, REC.replace('str_cls = Struct if str_typ == "struct" else Union', 'str_cls = Union if str_typ == "union" else Struct'))]),
    ("format", [(CP, REC, REC.replace('str_typ + " " + sname', '"{} {}".format(str_typ, sname)'))]),
    ("fstring", [(CP, REC, REC.replace('str_typ + " " + sname', 'f"{str_typ} {sname}"'))]),
    ("types before", [(CP, REC, """                self.add_def("types", str_typ + " " + sname, Type(str_typ, sname))
                str_cls = Struct if str_typ == "struct" else Union
                self.add_def(str_typ + "s", sname, str_cls(*struct, pack=packing))
            return str_typ + " " + sname
""")]),
    ("anonymous helper", [(CP, AN, """                sname = self._unused("anon_" + str_typ, str_typ + "s")
"""), (CP, "    def process_function(self", """    def _unused(self, base, kind):
        n = 0
        while "{}{}".format(base, n) in self.defs[kind]:
            n += 1
        return "{}{}".format(base, n)

    def process_function(self""")]),
    ("name ternary", [(CP, NM, """                sname = t.name if isinstance(t.name, str) else t.name[0]
""")]),
    ("anonymous while", [(CP, EAN, """                n = 0
                name = "anon_enum0"
                while name in self.defs["enums"]:
                    n += 1
                    name = "anon_enum{}".format(n)
""")]),
    ("anonymous count", [(CP, EAN, """                names = ("anon_enum{}".format(n) for n in itertools.count())
                name = next(x for x in names if x not in self.defs["enums"])
"""), (CP, "import re\n", "import itertools\nimport re\n")]),
    ("member plus", [(CP, MEM, MEM.replace("struct.append(tuple(member))", "struct += [tuple(member)]")),
                     (CP, ANON, ANON.replace("struct.append(tuple(member))", "struct += (tuple(member),)"))]),
    ("member whole", [(CP, MEM, """                    for d in m[0].decl_list:
                        (name, decl) = self.process_type(typ, d)
                        if m[0].bit:
                            member = (name, decl, val, int(m[0].bit))
                        else:
                            member = (name, decl, val)
                        struct.append(member)
""")]),
    ("member comp", [(CP, MEM, """                    bits = [int(m[0].bit)] if m[0].bit else []
                    struct.extend(
                        tuple(list(self.process_type(typ, d)) + [val] + bits)
                        for d in m[0].decl_list
                    )
                    for d in m[0].decl_list:
                        name = decl = None
""")]),
    ("member unpacked", [(CP, MEM, """                    bits = (int(m[0].bit),) if m[0].bit else ()
                    for d in m[0].decl_list:
                        name, decl = self.process_type(typ, d)
                        struct.append((name, decl, val, *bits))
""")]),
    ("member generator", [(CP, MEM, """                    for d in m[0].decl_list:
                        member = self._member(m[0], d, val)
                        struct.append(member)
                        name, decl = member[:2]
"""), (CP, "    def process_function(self", """    def _member(self, m, d, val):
        name, decl = self.process_type(m.type, d)
        if not m.bit:
            return name, decl, val
        return name, decl, val, int(m.bit)

    def process_function(self""")]),
    ("anonymous recursion", [(CP, AN, """                def unused(n):
                    return "anon_{}{}".format(str_typ, n)

                n = 0
                sname = unused(n)
                while sname in self.defs[str_typ + "s"]:
                    n += 1
                    sname = unused(n)
""")]),
    ("structure early return", [(CP, GUARD, """            known = self.defs[str_typ + "s"]
            if len(t.members) == 0 and sname in known and known[sname] != {}:
                return str_typ + " " + sname
            if True:
""")]),
    ("structure definition helper", [(CP, REC, """                self._record_tag(str_typ, sname, struct, packing)
            return str_typ + " " + sname
"""), (CP, "    def process_function(self", """    def _record_tag(self, kind, tag, members, packing):
        cls = {"struct": Struct, "union": Union}[kind]
        self.add_def(kind + "s", tag, cls(*members, pack=packing))
        self.add_def("types", kind + " " + tag, Type(kind, tag))

    def process_function(self""")]),
    ("variable helper", [(CP, ADV, """                    self._record_variable(name, val, typ)
"""), (CP, "    def process_function(self", """    def _record_variable(self, name, val, typ):
        self.add_def("variables", name, (val, typ))
        self.add_def("values", name, val)

    def process_function(self""")]),
    ("variable zip", [(CP, LAST, ""), (CP, VAR, """            decls = list(t[0].decl_list)
            values = [None] * (len(decls) - 1) + [init]
            for d, val in zip(decls, values):
                (name, typ) = self.process_type(t[0].type, d)
""")]),
    ("variable isinstance", [(CP, FNC, FNC.replace("type(typ[-1]) is tuple", "isinstance(typ[-1], tuple)"))]),
    ("variable elif", [(CP, FNC, """                kind = "functions" if isinstance(typ[-1], tuple) else "variables"
                if kind == "functions":
                    logger""")]),
    ("variable last declarator", [(CP, LAST, ""), (CP, VAR, VAR.replace("for i, d in enumerate(t[0].decl_list)", "for d in t[0].decl_list").replace("i == last", "d is t[0].decl_list[-1]"))]),
]
