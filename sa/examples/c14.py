BE = "backends/ctypes.py"
CL = "c_library.py"
RES = """        if str_name not in self._structs_:
            str_name = self._resolve_struct_alias(str_type, str_name)

"""
BR = """            elif typ[0][:7] == "struct ":
                cls = self._get_struct("structs", self._defs_["types"][typ[0]][1])
            elif typ[0][:6] == "union ":
                cls = self._get_struct("unions", self._defs_["types"][typ[0]][1])
"""
BREAKING = [
    ("no resolution", [(BE, RES, "")]),
    ("registers requested name", [(BE, RES, "        asked = str_name\n" + RES), (BE, "self._structs_[str_name] = s", "self._structs_[asked] = s"),
                                  (BE, "        return self._structs_[str_name]\n", "        return self._structs_.get(asked) or self._structs_[str_name]\n")]),
    ("no second lookup", [(BE, """            str_name = self._resolve_struct_alias(str_type, str_name)

        if str_name not in self._structs_:
""", """            str_name = self._resolve_struct_alias(str_type, str_name)

""")]),
    ("resolve returns name", [(CL, """            return self._defs_["types"][typ][1]

        else:""", """            return str_name

        else:""")]),
    ("one level", [(CL, "typ = self._headers_.eval_type([str_name])[0]\n            if typ[:7]", "typ = self._defs_['types'][str_name][0]\n            if typ[:7]")]),
    ("checks types first", [(CL, "        if str_name not in self._defs_[str_type]:\n            if str_name not in", "        if str_name in self._defs_['types'] or str_name not in self._defs_[str_type]:\n            if str_name not in")]),
    ("checks structs only", [(CL, "        if str_name not in self._defs_[str_type]:\n", "        if str_name not in self._defs_['structs']:\n")]),
    ("type by unevaluated name", [(BE, 'self._get_struct("structs", self._defs_["types"][typ[0]][1])', 'self._get_struct("structs", typ[0][7:] if typ[0][7:] in self._structs_ else name0)'), (BE, "            typ = list(self._headers_.eval_type(typ))\n", "            name0 = typ[0]\n            typ = list(self._headers_.eval_type(typ))\n")]),
    ("union among structs", [(BE, 'self._get_struct("unions"', 'self._get_struct("structs"')]),
    ("class level registry", [(CL, "        self._structs_ = {}\n", ""), (CL, "    Null = object()\n\n    def __init__(\n", "    Null = object()\n\n    _structs_ = {}\n\n    def __init__(\n")]),
    ("shared between libraries", [(CL, "        self._structs_ = {}\n", "        self._structs_ = self._headers_.compiled_types\n")]),
    ("rebuild for pointers", [(CL, "    def __getitem__(self, name):\n", "    def _forget(self, name):\n        self._structs_.pop(name, None)\n\n    def __getitem__(self, name):\n")]),
    ("definition of alias", [(BE, 'defn = self._defs_[str_type][str_name]', 'defn = self._defs_[str_type][str_name.lstrip("_")]')]),
    ("new class when packed", [(BE, "        return self._structs_[str_name]\n\n", "        if str_name in self._unions_:\n            return self._unions_[str_name]\n        return self._structs_[str_name]\n\n")]),
    ("drop after", [(BE, "            s._defaults_ = [m[2] for m in defs]\n", "            s._defaults_ = [m[2] for m in defs]\n            if not defs:\n                del self._structs_[str_name]\n                return s\n")]),
]
PRESERVING = [
    ("get", [(BE, RES, """        known = self._structs_.get(str_name)
        if known is not None:
            return known
        str_name = self._resolve_struct_alias(str_type, str_name)

""")]),
    ("always resolve", [(BE, RES, "        str_name = self._resolve_struct_alias(str_type, str_name)\n\n")]),
    ("return class", [(BE, "            s._defaults_ = [m[2] for m in defs]\n", "            s._defaults_ = [m[2] for m in defs]\n            return s\n")]),
    ("helper building", [(BE, """        if str_name not in self._structs_:
            # Pull""", """        if str_name not in self._structs_:
            self._build_struct(str_type, str_name)

        return self._structs_[str_name]

    def _build_struct(self, str_type, str_name):
        if True:
            # Pull"""), (BE, "            s._defaults_ = [m[2] for m in defs]\n\n        return self._structs_[str_name]\n", "            s._defaults_ = [m[2] for m in defs]\n")]),
    ("loop on kinds", [(BE, BR, """            elif typ[0].startswith(("struct ", "union ")):
                kind = "structs" if typ[0].startswith("struct ") else "unions"
                cls = self._get_struct(kind, self._defs_["types"][typ[0]][1])
""")]),
    ("split", [(BE, BR, """            elif typ[0].split()[0] in ("struct", "union"):
                kind = typ[0].split()[0] + "s"
                cls = self._get_struct(kind, self._defs_["types"][typ[0]][1])
""")]),
    ("inverted resolve", [(CL, "        if str_name not in self._defs_[str_type]:\n            if str_name", "        if str_name in self._defs_[str_type]:\n            return str_name\n        else:\n            if str_name"), (CL, """            return self._defs_["types"][typ][1]

        else:
            return str_name
""", """            return self._defs_["types"][typ][1]
""")]),
    ("helper for base type", [(BE, BR, """            elif typ[0].startswith("struct ") or typ[0].startswith("union "):
                cls = self._tagged(typ[0])
"""), (BE, "    def _get_struct", """    def _tagged(self, typ):
        tag = self._defs_["types"][typ][1]
        if typ.startswith("struct "):
            return self._get_struct("structs", tag)
        return self._get_struct("unions", tag)

    def _get_struct""")]),
    ("dict()", [(CL, "        self._structs_ = {}\n", "        self._structs_ = dict()\n")]),
]

# campaign2
BREAKING += [
    ('campaign2: typedef own class', [
        ('backends/ctypes.py',
         '        if str_name not in self._structs_:\n            str_name = self._resolve_struct_alias(str_type, str_name)\n\n',
         ''),
    ]),
    ('campaign2: get_type name', [
        ('backends/ctypes.py',
         'cls = self._get_struct("structs", self._defs_["types"][typ[0]][1])',
         'cls = self._get_struct("structs", typ[0][7:].strip("_"))'),
    ]),
    ('campaign2: class cleared', [
        ('backends/ctypes.py',
         '        return self._structs_[str_name]\n',
         "        return self._structs_.pop(str_name) if str_name.startswith('anon') else self._structs_[str_name]\n"),
    ]),
    ('campaign2: union table', [
        ('backends/ctypes.py',
         '                cls = self._get_struct("unions", self._defs_["types"][typ[0]][1])',
         '                cls = self._get_struct("structs", self._defs_["types"][typ[0]][1])'),
    ]),
    ('campaign2: keyed by given', [
        ('backends/ctypes.py',
         '            self._structs_[str_name] = s\n',
         '            self._structs_[str_type + str_name] = s\n'),
    ]),
    ('campaign2: alias returns typedef', [
        ('c_library.py',
         '            return self._defs_["types"][typ][1]\n\n        else:',
         '            return typ\n\n        else:'),
    ]),
    ('campaign2: first alias level', [
        ('c_library.py',
         '            typ = self._headers_.eval_type([str_name])[0]\n            if typ[:7]',
         "            typ = self._defs_['types'][str_name][0]\n            if typ[:7]"),
    ]),
]
BREAKING += [
    ('mut: typedefs of structures refused', [
        (CL, "if typ[:7] != \"struct \" and typ[:6] != \"union \":", "if typ[:6] != \"union \":")]),
    ('mut: either keyword refused', [
        (CL, "if typ[:7] != \"struct \" and typ[:6] != \"union \":", "if typ[:7] != \"struct \" or typ[:6] != \"union \":")]),
    ('mut: slice too long', [
        (CL, "if typ[:7] != \"struct \" and", "if typ[:8] != \"struct \" and")]),
    ('mut: known typedefs refused', [
        (CL, 'if str_name not in self._defs_["types"]:', 'if str_name in self._defs_["types"]:')]),
    ('mut: unions never built', [
        (BE, '                cls = self._get_struct("unions", self._defs_["types"][typ[0]][1])\n', '                pass\n')]),
    ('mut: modifier tested', [
        (BE, 'elif typ[0][:6] == "union ":', 'elif typ[1][:6] == "union ":')]),
]
PRESERVING += [
    ('startswith pair', [
        (CL, "if typ[:7] != \"struct \" and typ[:6] != \"union \":", "if not typ.startswith((\"struct \", \"union \")):")]),
    ('startswith each', [
        (CL, "if typ[:7] != \"struct \" and typ[:6] != \"union \":", "if not (typ.startswith(\"struct \") or typ.startswith(\"union \")):")]),
    ('first word', [
        (CL, "if typ[:7] != \"struct \" and typ[:6] != \"union \":", "if typ.split(\" \")[0] not in (\"struct\", \"union\"):")]),
    ('partition', [
        (CL, "if typ[:7] != \"struct \" and typ[:6] != \"union \":", "if typ.partition(\" \")[0] not in {\"struct\", \"union\"}:")]),
    ('joined refusals', [
        (CL, """            if str_name not in self._defs_["types"]:
                mess = 'No struct/union named "{}"'
                raise KeyError(mess.format(str_name))

            typ = self._headers_.eval_type([str_name])[0]
            if typ[:7] != "struct " and typ[:6] != "union ":
""", """            typ = None
            if str_name in self._defs_["types"]:
                typ = self._headers_.eval_type([str_name])[0]
            if typ is None or not typ.startswith(("struct ", "union ")):
""")]),
]
