CL = "c_library.py"
GA = """        if name not in self._all_objs_:
            names = self._all_names_(name)
            for k in [
                "values",
                "functions",
                "types",
                "structs",
                "unions",
                "enums",
                None,
            ]:
                if k is None:
                    raise NameError(name)
                obj = None
                for n in names:
                    if n in self._defs_[k]:
                        obj = self(k, n)
                        break
                if obj is not None:
                    break
            self._all_objs_[name] = obj
        return self._all_objs_[name]
"""
AN = "        return [name] + [p + name for p in self._prefix_]\n"
CALL = """        if name not in self._objs_[typ]:
            self._objs_[typ][name] = self._make_obj_(typ, name)

        return self._objs_[typ][name]
"""
MK = """        for n in names:  # try with and without prefix
            if n not in self._defs_[typ] and not (
                typ in ["structs", "unions", "enums"] and n in self._defs_["types"]
            ):
                continue

            # Same object as the one reached by its complete name
            if n != name:
                return self(typ, n)

            if typ == "values":
                return self._defs_[typ][n]
            elif typ == "functions":
                return self._get_function(n)
            elif typ == "types":
                obj = self._defs_[typ][n]
                return self._get_type(obj)
            elif typ == "structs":
                return self._get_struct("structs", n)
            elif typ == "unions":
                return self._get_struct("unions", n)
            elif typ == "enums":
                # Allow automatic resolving of typedefs that alias enums
                if n not in self._defs_["enums"]:
                    if n not in self._defs_["types"]:
                        raise KeyError('No enums named "{}"'.format(n))
                    typ = self._headers_.eval_type([n])[0]
                    if typ[:5] != "enum ":
                        raise KeyError('No enums named "{}"'.format(n))
                    # Look up internal name of enum
                    n = self._defs_["types"][typ][1]
                obj = self._defs_["enums"][n]

                return obj
            else:
                raise KeyError("Unknown type {}".format(typ))

        raise NameError(name)
"""
BREAKING = [
    ("types first", [(CL, '                "values",\n                "functions",\n                "types",\n', '                "types",\n                "values",\n                "functions",\n')]),
    ("unions before structs", [(CL, '                "structs",\n                "unions",\n                "enums",\n                None', '                "unions",\n                "structs",\n                "enums",\n                None')]),
    ("enums forgotten", [(CL, '                "unions",\n                "enums",\n                None', '                "unions",\n                None')]),
    ("last kind wins", [(CL, "                if obj is not None:\n                    break\n", "")]),
    ("last name wins", [(CL, "                        obj = self(k, n)\n                        break\n", "                        obj = self(k, n)\n")]),
    ("prefix first", [(CL, AN, "        return [p + name for p in self._prefix_] + [name]\n")]),
    ("prefix reversed", [(CL, AN, "        return [name] + [p + name for p in reversed(self._prefix_)]\n")]),
    ("suffix", [(CL, AN, "        return [name] + [name + p for p in self._prefix_]\n")]),
    ("first prefix only", [(CL, AN, "        return [name] + [p + name for p in self._prefix_[:1]]\n")]),
    ("prefix set", [(CL, AN, "        return [name] + [p + name for p in set(self._prefix_)]\n")]),
    ("prefix sorted", [(CL, "            self._prefix_ = prefix\n", "            self._prefix_ = sorted(prefix)\n")]),
    ("remembered under full name", [(CL, "            self._all_objs_[name] = obj\n        return self._all_objs_[name]", "            self._all_objs_[n] = obj\n            return obj\n        return self._all_objs_[name]")]),
    ("kinds share names", [(CL, CALL, """        if name not in self._objs_[typ]:
            self._objs_[typ][name] = self._make_obj_(typ, name)
        for t in self._objs_:
            if name in self._objs_[t]:
                return self._objs_[t][name]
""")]),
    ("remembered first", [(CL, CALL, """        for n in self._all_names_(name):
            if n in self._objs_[typ]:
                return self._objs_[typ][n]
        self._objs_[typ][name] = self._make_obj_(typ, name)
        return self._objs_[typ][name]
""")]),
    ("remembered object first", [(CL, MK, MK.replace("        for n in names:  # try", "        for n in names:\n            if n in self._objs_[typ]:\n                return self._objs_[typ][n]\n\n        for n in names:  # try"))]),
    ("always made", [(CL, CALL, "        return self._make_obj_(typ, name)\n")]),
    ("two wrappers", [(CL, MK, MK.replace("            # Same object as the one reached by its complete name\n            if n != name:\n                return self(typ, n)\n\n", ""))]),
    ("bare name built", [(CL, MK, MK.replace("if n != name:\n                return self(typ, n)", "if n in self._objs_[typ]:\n                return self._objs_[typ][n]").replace("self._get_function(n)", "self._get_function(name)"))]),
    ("types after prefixes", [(CL, MK, MK.replace('                typ in ["structs", "unions", "enums"] and n in self._defs_["types"]\n', '                typ in ["structs", "unions"] and n in self._defs_["types"]\n').replace("        raise NameError(name)\n", "        if typ == 'enums' and name in self._defs_['types']:\n            return self._defs_['enums'][self._defs_['types'][self._headers_.eval_type([name])[0]][1]]\n        raise NameError(name)\n"))]),
    ("alias preferred", [(CL, MK, MK.replace("""            if n not in self._defs_[typ] and not (
                typ in ["structs", "unions", "enums"] and n in self._defs_["types"]
            ):
                continue
""", """            if not (typ in ["structs", "unions", "enums"] and n in self._defs_["types"]):
                if n not in self._defs_[typ] or n + "_t" in self._defs_["types"]:
                    continue
"""))]),
    ("symbol of another", [(CL, "            func = getattr(self._lib_, func_name)\n", "            func = getattr(self._lib_, func_name.lower())\n")]),
    ("other signature", [(CL, "            self._defs_[\"functions\"][func_name],\n", "            self._defs_[\"functions\"].get(func_name.lstrip('_')),\n")]),
    ("values by type", [(CL, "            if typ == \"values\":\n                return self._defs_[typ][n]\n", "            if typ == \"values\":\n                return self._defs_[typ].get(name, self._defs_['enums'].get(n))\n")]),
    ("prefix stripped", [(CL, "            names = self._all_names_(name)\n            for k", "            names = self._all_names_(name) + [name.lower()]\n            for k")]),
]
PRESERVING = [
    ("tuple of kinds", [(CL, GA, """        if name not in self._all_objs_:
            names = self._all_names_(name)
            for k in ("values", "functions", "types", "structs", "unions", "enums"):
                obj = None
                for n in names:
                    if n in self._defs_[k]:
                        obj = self(k, n)
                        break
                if obj is not None:
                    break
            else:
                raise NameError(name)
            self._all_objs_[name] = obj
        return self._all_objs_[name]
""")]),
    ("helper", [(CL, GA, """        if name in self._all_objs_:
            return self._all_objs_[name]
        obj = self._search_(name)
        self._all_objs_[name] = obj
        return obj

    def _search_(self, name):
        candidates = self._all_names_(name)
        for kind in ["values", "functions", "types", "structs", "unions", "enums"]:
            found = self._search_kind_(kind, candidates)
            if found is not None:
                return found
        raise NameError(name)

    def _search_kind_(self, kind, candidates):
        for n in candidates:
            if n in self._defs_[kind]:
                return self(kind, n)
        return None
""")]),
    ("next", [(CL, GA, """        if name not in self._all_objs_:
            names = self._all_names_(name)
            for k in ["values", "functions", "types", "structs", "unions", "enums"]:
                n = next((x for x in names if x in self._defs_[k]), None)
                if n is None:
                    continue
                obj = self(k, n)
                if obj is not None:
                    self._all_objs_[name] = obj
                    return obj
            raise NameError(name)
        return self._all_objs_[name]
""")]),
    ("class constant", [(CL, GA, GA.replace("""[
                "values",
                "functions",
                "types",
                "structs",
                "unions",
                "enums",
                None,
            ]""", "KINDS + (None,)")), (CL, "class CLibraryMeta(type):", "KINDS = (\"values\", \"functions\", \"types\", \"structs\", \"unions\", \"enums\")\n\n\nclass CLibraryMeta(type):")]),
    ("names appended", [(CL, AN, "        names = [name]\n        for p in self._prefix_:\n            names.append(p + name)\n        return names\n")]),
    ("names fstring", [(CL, AN, "        return [name, *(f\"{p}{name}\" for p in self._prefix_)]\n")]),
    ("names percent", [(CL, AN, "        return [name] + [\"%s%s\" % (p, name) for p in self._prefix_]\n")]),
    ("names format", [(CL, AN, "        return [name] + [\"{}{}\".format(p, name) for p in self._prefix_]\n")]),
    ("names join", [(CL, AN, "        return [name] + [\"\".join((p, name)) for p in self._prefix_]\n")]),
    ("names map", [(CL, AN, "        return [name] + list(map(lambda p: p + name, self._prefix_))\n")]),
    ("names with empty", [(CL, AN, "        return [p + name for p in [\"\"] + self._prefix_]\n")]),
    ("setdefault", [(CL, CALL, """        objs = self._objs_[typ]
        if name in objs:
            return objs[name]
        obj = objs[name] = self._make_obj_(typ, name)
        return obj
""")]),
    ("try", [(CL, CALL, """        try:
            return self._objs_[typ][name]
        except KeyError:
            pass
        obj = self._make_obj_(typ, name)
        self._objs_[typ][name] = obj
        return obj
""")]),
    ("dispatch", [(CL, MK, MK.replace('''            elif typ == "structs":
                return self._get_struct("structs", n)
            elif typ == "unions":
                return self._get_struct("unions", n)
''', '''            elif typ in ("structs", "unions"):
                return self._get_struct(typ, n)
'''))]),
    ("is known helper", [(CL, MK, MK.replace("""            if n not in self._defs_[typ] and not (
                typ in ["structs", "unions", "enums"] and n in self._defs_["types"]
            ):
                continue
""", """            if not self._is_known_(typ, n):
                continue
""") + """
    def _is_known_(self, typ, n):
        if n in self._defs_[typ]:
            return True
        return typ in ("structs", "unions", "enums") and n in self._defs_["types"]
""")]),
    ("enum helper", [(CL, MK, MK.replace("""                # Allow automatic resolving of typedefs that alias enums
                if n not in self._defs_["enums"]:
                    if n not in self._defs_["types"]:
                        raise KeyError('No enums named "{}"'.format(n))
                    typ = self._headers_.eval_type([n])[0]
                    if typ[:5] != "enum ":
                        raise KeyError('No enums named "{}"'.format(n))
                    # Look up internal name of enum
                    n = self._defs_["types"][typ][1]
                obj = self._defs_["enums"][n]

                return obj
""", """                return self._get_enum_(n)
""") + """
    def _get_enum_(self, n):
        if n not in self._defs_["enums"]:
            typ = self._headers_.eval_type([n])[0]
            if not typ.startswith("enum "):
                raise KeyError('No enums named "{}"'.format(n))
            n = self._defs_["types"][typ][1]
        return self._defs_["enums"][n]
""")]),
    ("resolve then build", [(CL, MK, """        for n in names:
            if n in self._defs_[typ] or (typ in ["structs", "unions", "enums"] and n in self._defs_["types"]):
                break
        else:
            raise NameError(name)
""" + MK.replace("        for n in names:  # try with and without prefix\n", "").replace("""            if n not in self._defs_[typ] and not (
                typ in ["structs", "unions", "enums"] and n in self._defs_["types"]
            ):
                continue

""", "").replace("        raise NameError(name)\n", "").replace("\n    ", "\n")[4:])]),
    ("symbol direct", [(CL, "        try:\n            func = getattr(self._lib_, func_name)\n", "        lib = self._lib_\n        try:\n            func = getattr(lib, func_name)\n")]),
    ("prefix copied", [(CL, "            self._prefix_ = prefix\n", "            self._prefix_ = list(prefix)\n")]),
    ("prefix one", [(CL, """        if prefix is None:
            self._prefix_ = []
        elif isinstance(prefix, list):
            self._prefix_ = prefix
        else:
            self._prefix_ = [prefix]
""", """        if prefix is None:
            prefix = []
        elif not isinstance(prefix, list):
            prefix = [prefix]
        self._prefix_ = prefix
""")]),
    ("renamed", [(CL, "self._prefix_", "self._prefixes_"), (CL, "self._prefix_", "self._prefixes_"), (CL, "self._prefix_", "self._prefixes_"), (CL, "self._prefix_", "self._prefixes_")]),
    ("product", [(CL, GA, """        if name not in self._all_objs_:
            names = self._all_names_(name)
            kinds = ["values", "functions", "types", "structs", "unions", "enums"]
            for k in kinds:
                hits = [n for n in names if n in self._defs_[k]]
                if hits:
                    obj = self(k, hits[0])
                    if obj is not None:
                        break
            else:
                raise NameError(name)
            self._all_objs_[name] = obj
        return self._all_objs_[name]
""")]),
]

# campaign3
BREAKING += [
    ('campaign3: alias first', [
        ('c_library.py',
         'return [name] + [p + name for p in self._prefix_]',
         'return [p + name for p in self._prefix_] + [name]'),
    ]),
    ('campaign3: values skip zero', [
        ('c_library.py',
         '                if obj is not None:\n                    break',
         '                if obj:\n                    break'),
    ]),
    ('campaign3: name shared', [
        ('c_library.py',
         '            self._all_objs_[name] = obj\n        return self._all_objs_[name]',
         '            self._all_objs_[n] = obj\n        return self._all_objs_[n]'),
    ]),
    ('campaign3: struct type name', [
        ('c_library.py',
         'return self._get_struct("unions", n)',
         'return self._get_struct("structs", n)'),
    ]),
    ('campaign3: call cache any', [
        ('c_library.py',
         '        if name not in self._objs_[typ]:\n            self._objs_[typ][name] = self._make_obj_(typ, name)\n\n        return self._objs_[typ][name]',
         '        if name not in self._objs_[typ]:\n            obj = self._make_obj_(typ, name)\n            for n in self._all_names_(name):\n                self._objs_[typ][n] = obj\n\n        return self._objs_[typ][name]'),
    ]),
    ('campaign3: func signature name', [
        ('c_library.py',
         '            self._defs_["functions"][func_name],\n            func_name,',
         '            self._defs_["functions"][func_name.lstrip(\'_\')],\n            func_name,'),
    ]),
    ('campaign3: prefix mutate', [
        ('c_library.py',
         '        elif isinstance(prefix, list):\n            self._prefix_ = prefix',
         '        elif isinstance(prefix, list):\n            self._prefix_ = sorted(prefix, key=len)'),
    ]),
    ('campaign3: only with underscore', [
        ('c_library.py',
         'return [name] + [p + name for p in self._prefix_]',
         "return [name] + [p + name for p in self._prefix_ if not name.startswith('_')]"),
    ]),
    ('campaign3: not found none', [
        ('c_library.py',
         '                if k is None:\n                    raise NameError(name)',
         '                if k is None:\n                    return None'),
    ]),
    ('campaign3: macro lookup', [
        ('c_library.py',
         '                "values",\n                "functions",\n                "types",',
         '                "functions",\n                "values",\n                "types",'),
    ]),
    ('campaign3: name in any', [
        ('c_library.py',
         '                    if n in self._defs_[k]:\n                        obj = self(k, n)',
         '                    if n in self._defs_[k]:\n                        obj = self(k, name)'),
    ]),
]

_P = """        if prefix is None:
            self._prefix_ = []
        elif isinstance(prefix, list):
            self._prefix_ = prefix
        else:
            self._prefix_ = [prefix]
"""
_O = """        self._objs_ = {}
        for k in ["values", "functions", "types", "structs", "unions", "enums"]:
            self._objs_[k] = {}
"""
_E = """                    typ = self._headers_.eval_type([n])[0]
                    if typ[:5] != "enum ":
"""
BREAKING += [
    ('mut: prefix taken for a class', [("c_library.py", "elif isinstance(prefix, list):", "elif isinstance(list, prefix):")]),
    ('mut: one prefix dropped', [("c_library.py", "            self._prefix_ = [prefix]\n", "            pass\n")]),
    ('mut: list in list', [("c_library.py", "elif isinstance(prefix, list):", "elif not isinstance(prefix, list):")]),
    ('mut: no table of enums', [("c_library.py", '"unions", "enums"]:\n            self._objs_', '"unions"]:\n            self._objs_')]),
    ('mut: enum slice', [("c_library.py", 'typ[:5] != "enum "', 'typ[:6] != "enum "')]),
    ('mut: enum negated', [("c_library.py", 'typ[:5] != "enum "', 'typ[:5] == "enum "')]),
    ('mut: enum tag', [("c_library.py", 'n = self._defs_["types"][typ][1]', 'n = self._defs_["types"][typ][0]')]),
]
PRESERVING += [
    ('table comp', [("c_library.py", _O, '        self._objs_ = {\n            k: {} for k in ("values", "functions", "types", "structs", "unions", "enums")\n        }\n')]),
    ('table literal', [("c_library.py", _O, '        self._objs_ = {"values": {}, "functions": {}, "types": {}, "structs": {}, "unions": {}, "enums": {}}\n')]),
    ('table dict', [("c_library.py", _O, '        self._objs_ = dict(values={}, functions={}, types={}, structs={}, unions={}, enums={})\n')]),
    ('table local', [("c_library.py", _O, '        objs = {}\n        for k in ("values", "functions", "types", "structs", "unions", "enums"):\n            objs[k] = {}\n        self._objs_ = objs\n')]),
    ('prefix local', [("c_library.py", _P, '        if prefix is None:\n            prefix = []\n        elif not isinstance(prefix, list):\n            prefix = [prefix]\n        self._prefix_ = prefix\n')]),
    ('prefix copied', [("c_library.py", _P, '        if prefix is None:\n            prefixes = []\n        elif isinstance(prefix, (list, tuple)):\n            prefixes = list(prefix)\n        else:\n            prefixes = [prefix]\n        self._prefix_ = prefixes\n')]),
    ('prefix expression', [("c_library.py", _P, '        self._prefix_ = [] if prefix is None else prefix if isinstance(prefix, list) else [prefix]\n')]),
    ('prefix grown', [("c_library.py", _P, '        self._prefix_ = []\n        if isinstance(prefix, list):\n            self._prefix_.extend(prefix)\n        elif prefix is not None:\n            self._prefix_.append(prefix)\n')]),
    ('enum startswith', [("c_library.py", _E, _E.replace('typ[:5] != "enum "', 'not typ.startswith("enum ")'))]),
    ('enum word', [("c_library.py", _E, _E.replace('typ[:5] != "enum "', 'typ.split()[0] != "enum"'))]),
]
