BE = "backends/ctypes.py"
CL = "c_library.py"
ARR = """        new = typ
        for s in size[::-1]:
            new *= s
"""
TUP = """        if not isinstance(size, tuple):
            size = (size,)
"""
VAL = """        if vals:
            return new(*vals)
        else:
            return new()
"""
CST = """        return cast(obj, typ)
"""
PT = """        cls = self._get_type(sig, pointers=False)
        special_pointer_types = {None: c_void_p, c_char: c_char_p, c_wchar: c_wchar_p}
        if cls in special_pointer_types:
            cls = special_pointer_types[cls]
            del arg_type_list[1]
        for pointer_decl in arg_type_list[1:-1]:
            cls = POINTER(cls)
        return pointer(cls())
"""
RES = """        if not isinstance(typ, type):
            typ = self._get_type((typ,))

        if not isinstance(size"""
BREAKING = [
    ("order", [(BE, ARR, ARR.replace("size[::-1]", "size"))]),
    ("first only", [(BE, ARR, "        new = typ * size[0]\n")]),
    ("last lost", [(BE, ARR, ARR.replace("size[::-1]", "size[:0:-1]"))]),
    ("flat", [(BE, ARR, """        n = 1
        for s in size:
            n *= s
        new = typ * n
""")]),
    ("last outermost", [(BE, ARR, ARR.replace("size[::-1]", "size[1:] + size[:1]"))]),
    ("pairs swapped", [(BE, ARR, ARR.replace("size[::-1]", "size[::-1] if len(size) != 2 else size"))]),
    ("vals lost", [(BE, VAL, "        return new()\n")]),
    ("vals needed", [(BE, VAL, "        return new(*vals)\n")]),
    ("vals as one", [(BE, VAL, VAL.replace("*vals", "vals"))]),
    ("vals cut", [(BE, VAL, VAL.replace("*vals", "*vals[: size[0] - 1]"))]),
    ("vals inverted", [(BE, VAL, VAL.replace("if vals", "if not vals"))]),
    ("class resolved", [(BE, RES, RES.replace("if not isinstance(typ, type)", "if isinstance(typ, type)"))]),
    ("name not resolved", [(BE, RES, RES.replace("            typ = self._get_type((typ,))", "            pass"))]),
    ("base only", [(BE, RES, RES.replace("((typ,))", "((typ,), False)"))]),
    ("cast swapped", [(BE, CST, "        return cast(typ, obj)\n")]),
    ("cast of pointer", [(BE, CST, "        return cast(pointer(obj), typ)\n")]),
    ("not cast", [(BE, CST, "        return obj\n")]),
    ("cast to pointer", [(BE, CST, "        return cast(obj, POINTER(typ))\n")]),
    ("public swapped", [(CL, "    return lib._get_array(typ, size, vals)\n", "    return lib._get_array(typ, size, None)\n")]),
    ("public order", [(CL, "    return lib._cast_to(obj, typ)\n", "    return lib._cast_to(typ, obj)\n")]),
    ("one level", [(BE, PT, PT.replace("[1:-1]", "[2:-1]"))]),
    ("too many levels", [(BE, PT, PT.replace("[1:-1]", "[1:]"))]),
    ("star kept", [(BE, PT, PT.replace("            del arg_type_list[1]\n", ""))]),
    ("wrong star", [(BE, PT, PT.replace("arg_type_list[1]\n", "arg_type_list[2]\n"))]),
    ("wide as narrow", [(BE, PT, PT.replace("c_wchar: c_wchar_p", "c_wchar: c_char_p"))]),
    ("void forgotten", [(BE, PT, PT.replace("None: c_void_p, ", ""))]),
    ("null", [(BE, PT, PT.replace("return pointer(cls())", "return POINTER(cls)()"))]),
    ("whole type", [(BE, PT, PT.replace("pointers=False", "pointers=True"))]),
    ("base of arg", [(BE, PT, PT.replace("_get_type(sig, pointers=False)", "_get_type(arg_type, pointers=True)"))]),
    ("null inside", [(BE, PT, PT.replace("        for pointer_decl in arg_type_list[1:-1]:\n            cls = POINTER(cls)\n        return pointer(cls())", "        for pointer_decl in arg_type_list[1:]:\n            cls = POINTER(cls)\n        return pointer(cls())"))]),
]
PRESERVING = [
    ("reversed", [(BE, ARR, ARR.replace("size[::-1]", "reversed(size)"))]),
    ("indices", [(BE, ARR, """        new = typ
        for i in range(len(size) - 1, -1, -1):
            new = new * size[i]
""")]),
    ("times the type", [(BE, ARR, ARR.replace("new *= s", "new = s * new"))]),
    ("reduce", [(BE, ARR, """        new = functools.reduce(lambda t, n: t * n, reversed(size), typ)
"""), (BE, "import logging\n", "import functools\nimport logging\n")]),
    ("list", [(BE, TUP + """
        new = typ
        for s in size[::-1]:
""", """        sizes = list(size) if isinstance(size, tuple) else [size]
        new = typ
        for s in reversed(sizes):
""")]),
    ("ternary", [(BE, TUP, "        size = size if isinstance(size, tuple) else (size,)\n")]),
    ("pop", [(BE, ARR, """        new = typ
        left = list(size)
        while left:
            new = new * left.pop()
""")]),
    ("no else", [(BE, VAL, """        if not vals:
            return new()
        return new(*vals)
""")]),
    ("expression", [(BE, VAL, "        return new(*vals) if vals else new()\n")]),
    ("or nothing", [(BE, VAL, "        return new(*(vals or ()))\n")]),
    ("is not None", [(BE, VAL, VAL.replace("if vals", "if vals is not None"))]),
    ("helper", [(BE, RES, """        typ = self._as_class(typ)

        if not isinstance(size"""), (BE, "    def _get_array(", """    def _as_class(self, typ):
        return typ if isinstance(typ, type) else self._get_type((typ,))

    def _get_array(""")]),
    ("list of one", [(BE, RES, RES.replace("((typ,))", "([typ])"))]),
    ("cast inline", [(BE, """        if not isinstance(typ, type):
            typ = self._get_type((typ,))

        return cast(obj, typ)
""", """        return cast(obj, typ if isinstance(typ, type) else self._get_type((typ,)))
""")]),
    ("keywords", [(CL, "    return lib._get_array(typ, size, vals)\n", "    return lib._get_array(typ, size=size, vals=vals)\n")]),
    ("count", [(BE, PT, """        cls = self._get_type(sig, pointers=False)
        levels = len(arg_type) - 1
        special_pointer_types = {None: c_void_p, c_char: c_char_p, c_wchar: c_wchar_p}
        if cls in special_pointer_types:
            cls = special_pointer_types[cls]
            levels -= 1
        for _ in range(levels - 1):
            cls = POINTER(cls)
        return pointer(cls())
""")]),
    ("if chain", [(BE, PT, """        cls = self._get_type(sig, pointers=False)
        left = arg_type_list[1:]
        if cls is None:
            cls = c_void_p
            left = left[1:]
        elif cls is c_char:
            cls = c_char_p
            left = left[1:]
        elif cls is c_wchar:
            cls = c_wchar_p
            left = left[1:]
        for _ in left[:-1]:
            cls = POINTER(cls)
        return pointer(cls())
""")]),
    ("storage first", [(BE, PT, PT.replace("        return pointer(cls())", "        storage = cls()\n        return pointer(storage)"))]),
    ("pop the star", [(BE, PT, PT.replace("del arg_type_list[1]", "arg_type_list.pop(1)"))]),
    ("slices", [(BE, PT, PT.replace("del arg_type_list[1]", "arg_type_list = arg_type_list[1:]"))]),
]
