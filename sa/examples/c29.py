CP = "c_parser.py"
VAL = """                    if v.value != "":
                        try:
                            i = self.eval_expr(v.value)
                        except Exception:
                            pass
"""
ENUM = "                    enum[v.name] = i\n"
DEF = """                    self.add_def("values", v.name, i)
"""
NEXT = """                    # The values following an unknown one are unknown too
                    i = i + 1 if isinstance(i, (int, float)) else None
"""
INIT = "                i = 0\n                enum = {}\n"
FOR = "                for v in t.members:\n                    if v.value"
REC = """                self.add_def("enums", name, enum)
"""
BODY = INIT + "                for v in t.members:\n" + VAL + ENUM + DEF + NEXT
BREAKING = [
    ("first is one", [(CP, INIT, INIT.replace("i = 0", "i = 1"))]),
    ("steps of two", [(CP, NEXT, NEXT.replace("i + 1", "i + 2"))]),
    ("unguarded", [(CP, NEXT, "                    i += 1\n")]),
    ("truth", [(CP, NEXT, NEXT.replace("isinstance(i, (int, float))", "i"))]),
    ("not none inverted", [(CP, NEXT, NEXT.replace("isinstance(i, (int, float))", "i is None"))]),
    ("values missing", [(CP, DEF, "")]),
    ("values when given", [(CP, DEF, """                    if v.value != "":
                        self.add_def("values", v.name, i)
""")]),
    ("values late", [(CP, DEF, ""), (CP, REC, REC + """                for k, v in enum.items():
                    self.add_def("values", k, v)
""")]),
    ("values after next", [(CP, DEF + NEXT, NEXT + DEF)]),
    ("not in enum", [(CP, ENUM, "")]),
    ("known only", [(CP, ENUM + DEF, """                    if i is not None:
                        enum[v.name] = i
                        self.add_def("values", v.name, i)
""")]),
    ("not recorded", [(CP, REC, "")]),
    ("empty recorded", [(CP, REC, REC.replace("enum)", "{})"))]),
    ("given ignored", [(CP, VAL, "")]),
    ("separate counter", [(CP, VAL + ENUM + DEF + NEXT, """                    value = self.eval_expr(v.value) if v.value != "" else i
                    enum[v.name] = value
                    self.add_def("values", v.name, value)
                    i += 1
""")]),
    ("index", [(CP, "for v in t.members:\n                    if v.value", "for i, v in enumerate(t.members):\n                    if v.value"), (CP, NEXT, "")]),
    ("length", [(CP, VAL + ENUM + DEF + NEXT, """                    if v.value != "":
                        value = self.eval_expr(v.value)
                    else:
                        value = len(enum)
                    enum[v.name] = value
                    self.add_def("values", v.name, value)
""")]),
    ("reversed", [(CP, "for v in t.members:\n                    if v.value", "for v in t.members[::-1]:\n                    if v.value")]),
    ("stops", [(CP, NEXT, NEXT + "                    if i is None:\n                        break\n")]),
    ("skip duplicates", [(CP, VAL + ENUM, """                    if v.name in self.defs["values"]:
                        continue
""" + VAL + ENUM)]),
    ("rounded", [(CP, VAL, VAL.replace("self.eval_expr(v.value)", "self.eval_expr(v.value) + 0 or i"))]),
    ("restart", [(CP, NEXT, NEXT.replace("else None", "else 0"))]),
    ("unknown kept", [(CP, VAL, """                    if v.value != "":
                        given = self.eval_expr(v.value)
                        i = i if given is None else given
""")]),
    ("given plus one", [(CP, VAL, VAL.replace("self.eval_expr(v.value)", "self.eval_expr(v.value) + 1"))]),
    ("not counted from given", [(CP, VAL + ENUM + DEF + NEXT, """                    value = i
                    if v.value != "":
                        value = self.eval_expr(v.value)
                    else:
                        i += 1
                    enum[v.name] = value
                    self.add_def("values", v.name, value)
""")]),
    ("sticky none", [(CP, NEXT, """                    i = None if i is None or v.value != "" else i + 1
""")]),
]
PRESERVING = [
    ("is not none", [(CP, NEXT, NEXT.replace("isinstance(i, (int, float))", "i is not None"))]),
    ("if statement", [(CP, NEXT, """                    if i is not None:
                        i += 1
""")]),
    ("try", [(CP, NEXT, """                    try:
                        i += 1
                    except TypeError:
                        i = None
""")]),
    ("no try", [(CP, VAL, """                    if v.value != "":
                        i = self.eval_expr(v.value)
""")]),
    ("truth of text", [(CP, VAL, VAL.replace('v.value != ""', "v.value"))]),
    ("separate value", [(CP, BODY, """                enum = {}
                following = 0
                for v in t.members:
                    value = self.eval_expr(v.value) if v.value != "" else following
                    enum[v.name] = value
                    self.add_def("values", v.name, value)
                    following = value + 1 if isinstance(value, int) else None
""")]),
    ("previous", [(CP, BODY, """                enum = {}
                previous = -1
                for v in t.members:
                    if v.value != "":
                        value = self.eval_expr(v.value)
                    elif previous is None:
                        value = None
                    else:
                        value = previous + 1
                    self.add_def("values", v.name, value)
                    enum[v.name] = value
                    previous = value
""")]),
    ("values first", [(CP, ENUM + DEF, DEF + ENUM)]),
    ("chained", [(CP, ENUM, "                    name_ = v.name\n                    enum[name_] = i\n")]),
    ("helper", [(CP, BODY, """                enum = self._number(t.members)
"""), (CP, "    def process_function(self", """    def _number(self, members):
        result, following = {}, 0
        for member in members:
            if member.value != "":
                following = self.eval_expr(member.value)
            result[member.name] = following
            self.add_def("values", member.name, following)
            if following is not None:
                following = following + 1
        return result

    def process_function(self""")]),
    ("helper next", [(CP, NEXT, "                    i = self._following(i)\n"), (CP, "    def process_function(self", """    @staticmethod
    def _following(value):
        if isinstance(value, (int, float)):
            return value + 1
        return None

    def process_function(self""")]),
    ("enum object", [(CP, REC, REC.replace("enum)", "dict(enum))"))]),
    ("pairs", [(CP, BODY, """                i = 0
                members = []
                for v in t.members:
                    if v.value != "":
                        i = self.eval_expr(v.value)
                    members.append((v.name, i))
                    self.add_def("values", v.name, i)
                    i = i + 1 if isinstance(i, (int, float)) else None
                enum = dict(members)
""")]),
    ("dict of values", [(CP, DEF, """                    known = self.add_def
                    known("values", v.name, i)
""")]),
    ("type check", [(CP, NEXT, NEXT.replace("isinstance(i, (int, float))", "type(i) is int"))]),
    ("keyword", [(CP, DEF, """                    self.add_def("values", v.name, val=i)
""")]),
    ("item access", [(CP, ENUM + DEF, """                    enum[v["name"]] = i
                    self.add_def("values", v["name"], i)
""")]),
    ("none first", [(CP, NEXT, """                    i = None if i is None else i + 1
""")]),
    ("list of members", [(CP, FOR, FOR.replace("t.members", "list(t.members)"))]),
    ("while", [(CP, "                for v in t.members:\n" + VAL, """                n = 0
                while n < len(t.members):
                    v = t.members[n]
                    n += 1
""" + VAL)]),
]
