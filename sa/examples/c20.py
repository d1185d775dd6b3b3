CP = "c_parser.py"
EQ = """        if isinstance(other, Type):
            if self.type_quals != other.type_quals:
                return False
        return super(Type, self).__eq__(other)
"""
NE = "        return not self == other\n"
NEW = "        return super(Type, cls).__new__(cls, (type_spec, *declarators))\n"
QUALS = """        self.type_quals = argv.pop("type_quals", None) or ((),) * (1 + len(declarators))
"""
CHECK = """        if len(self.type_quals) != 1 + len(declarators):
            raise ValueError("wrong number of type qualifiers")
"""
ARGS = "        return (self.type_spec, *self.declarators)\n"
REPR = """        type_qual_str = (
            "" if not any(self.type_quals) else ", type_quals=" + repr(self.type_quals)
        )
        return (
            type(self).__name__ + "(" + ", ".join(map(repr, self)) + type_qual_str + ")"
        )
"""
INIT = """        super(Compound, self).__init__({"members": members, "pack": pack})
"""
PACK = """        packParam = ", pack=" + repr(self.pack) if self.pack is not None else ""
"""
MEMB = """            + ", ".join(map(repr, self.members))
"""
ENUM = """            + ", ".join(nm + "=" + repr(val) for nm, val in sorted(self.items()))
"""
FMT = """        s = ""
        for k in self.data_list:
            s += "============== {} ==================\\n".format(k)
            if filename is None:
                s += pformat(self.defs[k], indent=4) + "\\n"
            else:
                s += pformat(self.file_defs[filename][k]) + "\\n"
        return s
"""
FIND = """                    if isinstance(name, str):
                        if k == name:
                            res.append((f, t))
                    else:
                        if re.match(name, k):
                            res.append((f, t, k))
        return res
"""
TEXT = """                if text in line:
                    res.append((f, i, line))
        return res
"""
BREAKING = [
    ("quals ignored", [(CP, EQ, "        return super(Type, self).__eq__(other)\n")]),
    ("parts ignored", [(CP, EQ, EQ.replace("                return False\n", "                return False\n            return True\n"))]),
    ("quals of the base only", [(CP, EQ, EQ.replace("self.type_quals != other.type_quals", "self.type_quals[0] != other.type_quals[0]"))]),
    ("never a tuple", [(CP, EQ, "        if not isinstance(other, Type):\n            return False\n" + EQ)]),
    ("or", [(CP, EQ, """        if isinstance(other, Type):
            return self.type_quals == other.type_quals or super(Type, self).__eq__(other)
        return super(Type, self).__eq__(other)
""")]),
    ("inverted quals", [(CP, EQ, EQ.replace("!=", "=="))]),
    ("ne of tuples", [(CP, NE, "        return super(Type, self).__ne__(other)\n")]),
    ("ne of eq", [(CP, NE, "        return not self.__eq__(other)\n")]),
    ("no ne", [(CP, "    def __ne__(self, other):\n" + NE, "")]),
    ("ne is eq", [(CP, NE, "        return self == other\n")]),
    ("hash of quals", [(CP, "    def __ne__(self, other):\n", """    def __hash__(self):
        return hash((tuple(self), self.type_quals))

    def __ne__(self, other):
""")]),
    ("pack ignored", [(CP, """    @property
    def members(self):
""", """    def __eq__(self, other):
        return isinstance(other, Compound) and self.members == other.members

    @property
    def members(self):
""")]),
    ("new without spec", [(CP, NEW, NEW.replace("(type_spec, *declarators)", "declarators"))]),
    ("new first declarator", [(CP, NEW, NEW.replace("*declarators", "*declarators[:1]"))]),
    ("quals dropped", [(CP, QUALS, QUALS.replace('argv.pop("type_quals", None) or ', 'argv.pop("type_quals", None) and '))]),
    ("quals blank", [(CP, QUALS, """        argv.pop("type_quals", None)
        self.type_quals = ((),) * (1 + len(declarators))
""")]),
    ("one blank too few", [(CP, QUALS, QUALS.replace("(1 + len(declarators))", "len(declarators)"))]),
    ("unchecked", [(CP, CHECK, "")]),
    ("checked upwards", [(CP, CHECK, CHECK.replace("!=", "<"))]),
    ("checked other size", [(CP, CHECK, CHECK.replace("1 + len", "len"))]),
    ("args without declarators", [(CP, ARGS, "        return (self.type_spec,)\n")]),
    ("args without spec", [(CP, ARGS, "        return self.declarators\n")]),
    ("args first declarator", [(CP, ARGS, "        return (self.type_spec, *self.declarators[:1])\n")]),
    ("no args", [(CP, "    def __getnewargs__(self):\n" + ARGS, "")]),
    ("reduce", [(CP, "    def __getnewargs__(self):\n", """    def __reduce__(self):
        return (Type, tuple(self))

    def __getnewargs__(self):
""")]),
    ("state", [(CP, "    def __getnewargs__(self):\n", """    def __getstate__(self):
        return {}

    def __getnewargs__(self):
""")]),
    ("repr no quals", [(CP, REPR, REPR.replace(" + type_qual_str", ""))]),
    ("repr quals of the base", [(CP, REPR, REPR.replace("any(self.type_quals)", "any(self.type_quals[:1])"))]),
    ("repr quals inverted", [(CP, REPR, REPR.replace("not any", "any"))]),
    ("repr first", [(CP, REPR, REPR.replace("map(repr, self)", "map(repr, self[:2])"))]),
    ("repr pack zero", [(CP, PACK, PACK.replace("self.pack is not None", "self.pack"))]),
    ("repr no pack", [(CP, "            + packParam\n", "")]),
    ("repr members but last", [(CP, MEMB, MEMB.replace("self.members", "self.members[:-1]"))]),
    ("repr members named", [(CP, MEMB, MEMB.replace("map(repr, self.members)", "repr(m) for m in self.members if m[0]"))]),
    ("repr enum values", [(CP, ENUM, ENUM.replace("in sorted(self.items())", "in sorted(self.items()) if val"))]),
    ("pack dropped", [(CP, INIT, INIT.replace('"pack": pack', '"pack": None'))]),
    ("members tail", [(CP, INIT, INIT.replace('"members": members', '"members": members[1:]'))]),
    ("members sorted", [(CP, INIT, INIT.replace('"members": members', '"members": sorted(members)'))]),
    ("no pack key", [(CP, INIT, INIT.replace(', "pack": pack', ''))]),
    ("printed but first", [(CP, FMT, FMT.replace("in self.data_list", "in self.data_list[1:]"))]),
    ("printed all for a file", [(CP, FMT, FMT.replace("self.file_defs[filename][k]", "self.defs[k]"))]),
    ("printed file inverted", [(CP, FMT, FMT.replace("filename is None", "filename is not None"))]),
    ("printed until empty", [(CP, FMT, FMT.replace('        for k in self.data_list:\n', '        for k in self.data_list:\n            if not self.defs[k]:\n                break\n'))]),
    ("printed but empty", [(CP, FMT, FMT.replace('            if filename is None:\n', '            if filename is None and k == "values":\n                continue\n            if filename is None:\n'))]),
    ("find first", [(CP, FIND, FIND.replace("                            res.append((f, t))\n", "                            res.append((f, t))\n                            break\n"))]),
    ("find returns", [(CP, FIND, FIND.replace("                            res.append((f, t))\n", "                            return [(f, t)]\n"))]),
    ("find others", [(CP, FIND, FIND.replace("k == name", "k != name"))]),
    ("text others", [(CP, TEXT, TEXT.replace("text in line", "text not in line"))]),
    ("text first", [(CP, TEXT, TEXT.replace("line))\n", "line))\n                    break\n"))]),
]
BREAKING.append(("eq expression", [(CP, EQ, """        return tuple.__eq__(self, other) and (
            not isinstance(other, Type) or self.type_quals == other.type_quals
        )
""")]))
PRESERVING = [
    ("eq one line", [(CP, EQ, """        if isinstance(other, Type) and self.type_quals != other.type_quals:
            return False
        return tuple.__eq__(self, other)
""")]),
    ("eq and", [(CP, EQ, """        same = super().__eq__(other)
        if same is True and isinstance(other, Type):
            return self.type_quals == other.type_quals
        return same
""")]),
    ("eq bool", [(CP, EQ, """        return tuple(self) == other and (
            not isinstance(other, Type) or self.type_quals == other.type_quals
        )
""")]),
    ("eq tuple", [(CP, EQ, """        if not isinstance(other, tuple):
            return NotImplemented
        if isinstance(other, Type) and other.type_quals != self.type_quals:
            return False
        return tuple(self) == tuple(other)
""")]),
    ("eq getattr", [(CP, EQ, """        if getattr(other, "type_quals", self.type_quals) != self.type_quals:
            return False
        return super(Type, self).__eq__(other)
""")]),
    ("eq else", [(CP, EQ, """        if not isinstance(other, Type):
            return super(Type, self).__eq__(other)
        return (tuple(self), self.type_quals) == (tuple(other), other.type_quals)
""")]),
    ("ne variable", [(CP, NE, "        equal = self == other\n        return not equal\n")]),
    ("ne of result", [(CP, NE, """        equal = self.__eq__(other)
        if equal is NotImplemented:
            return True
        return not equal
""")]),
    ("new super", [(CP, NEW, "        return super().__new__(cls, (type_spec,) + declarators)\n")]),
    ("new list", [(CP, NEW, "        return tuple.__new__(cls, [type_spec, *declarators])\n")]),
    ("quals keyword", [(CP, """    def __init__(self, type_spec, *declarators, **argv):
        super(Type, self).__init__()
""", """    def __init__(self, type_spec, *declarators, type_quals=None):
        super(Type, self).__init__()
"""), (CP, QUALS + CHECK + "        assert len(argv) == 0, \"Invalid Parameter\"\n", """        self.type_quals = type_quals or ((),) * (1 + len(declarators))
""" + CHECK)]),
    ("quals variable", [(CP, QUALS + CHECK, """        count = len(declarators) + 1
        quals = argv.pop("type_quals", None)
        if not quals:
            quals = ((),) * count
        if len(quals) != count:
            raise ValueError("wrong number of type qualifiers")
        self.type_quals = quals
""")]),
    ("quals len self", [(CP, QUALS + CHECK, """        self.type_quals = argv.pop("type_quals", None) or ((),) * len(self)
        if len(self.type_quals) != len(self):
            raise ValueError("wrong number of type qualifiers")
""")]),
    ("quals genexp", [(CP, QUALS, """        self.type_quals = argv.pop("type_quals", None) or tuple(
            () for _ in range(1 + len(declarators))
        )
""")]),
    ("args tuple", [(CP, ARGS, "        return tuple(self)\n")]),
    ("args slice", [(CP, ARGS, "        return (self[0],) + self.declarators\n")]),
    ("repr format", [(CP, REPR, """        quals = ", type_quals={!r}".format(self.type_quals) if any(self.type_quals) else ""
        items = ", ".join(repr(x) for x in self)
        return "{}({}{})".format(type(self).__name__, items, quals)
""")]),
    ("repr list", [(CP, REPR, """        parts = [repr(x) for x in self]
        if any(self.type_quals):
            parts.append("type_quals={!r}".format(self.type_quals))
        return "{}({})".format(type(self).__name__, ", ".join(parts))
""")]),
    ("repr two", [(CP, REPR, """        res = type(self).__name__ + "(" + ", ".join(map(repr, self))
        if any(self.type_quals):
            res += ", type_quals=" + repr(self.type_quals)
        return res + ")"
""")]),
    ("pack if", [(CP, PACK, """        packParam = ""
        if self.pack is not None:
            packParam = ", pack={!r}".format(self.pack)
""")]),
    ("members loop", [(CP, MEMB, """            + ", ".join([repr(m) for m in self.members])
""")]),
    ("enum format", [(CP, ENUM, """            + ", ".join("{}={!r}".format(k, self[k]) for k in sorted(self))
""")]),
    ("init keywords", [(CP, INIT, "        super(Compound, self).__init__(members=members, pack=pack)\n")]),
    ("init items", [(CP, INIT, """        super(Compound, self).__init__()
        self["members"] = members
        self["pack"] = pack
""")]),
    ("init keyword only", [(CP, """    def __init__(self, *members, **argv):
        members = list(members)
        pack = argv.pop("pack", None)
        assert len(argv) == 0

""", """    def __init__(self, *members, pack=None):
        members = list(members)
""")]),
    ("format list", [(CP, FMT, """        res = []
        for k in self.data_list:
            res.append("============== {} ==================\\n".format(k))
            if filename is None:
                res.append(pformat(self.defs[k], indent=4) + "\\n")
            else:
                res.append(pformat(self.file_defs[filename][k]) + "\\n")
        return "".join(res)
""")]),
    ("format table", [(CP, FMT, """        s = ""
        defs = self.defs if filename is None else self.file_defs[filename]
        indent = 4 if filename is None else 1
        for k in self.data_list:
            s += "============== {} ==================\\n".format(k)
            s += pformat(defs[k], indent=indent) + "\\n"
        return s
""")]),
    ("print str", [(CP, "        return self._format_parsed_file()\n", "        return self._format_parsed_file(None)\n")]),
    ("find items", [(CP, """        for f in self.file_defs:
            fd = self.file_defs[f]
            for t in fd:
                typ = fd[t]
                for k in typ:
""", """        for f, fd in self.file_defs.items():
            for t, typ in fd.items():
                for k in typ:
""")]),
    ("find continue", [(CP, FIND, """                    if isinstance(name, str):
                        if k != name:
                            continue
                        res.append((f, t))
                    elif re.match(name, k) is not None:
                        res.append((f, t, k))
        return res
""")]),
    ("find in", [(CP, """                for k in typ:
""" + FIND, """                if isinstance(name, str):
                    if name in typ:
                        res.append((f, t))
                else:
                    res.extend((f, t, k) for k in typ if re.match(name, k))
        return res
""")]),
    ("text comp", [(CP, """        res = []
        for f in self.files:
            lines = self.files[f].split("\\n")
            for i, line in enumerate(lines):
""" + TEXT, """        return [
            (f, i, line)
            for f, content in self.files.items()
            for i, line in enumerate(content.split("\\n"))
            if text in line
        ]
""")]),
    ("text continue", [(CP, TEXT, """                if text not in line:
                    continue
                res.append((f, i, line))
        return res
""")]),
]
