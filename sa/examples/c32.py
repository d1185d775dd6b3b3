BC = "backends/ctypes.py"
PTR = """                    if m[0] == "*" or m[0] == "&":
                        for i in m:
                            cls = POINTER(cls)
"""
ARR = """                    for i in reversed(m):
                        # -1 indicates an 'incomplete type' like "int
                        # variable[]"
                        if i == -1:
                            # which we should interpret like "int *variable"
                            cls = POINTER(cls)
                        else:
                            cls = cls * i
"""
MRG = """                for m in mods[1:]:
                    if isinstance(seen, list) and isinstance(m, list):
                        # Build a new list, the original belongs to the parser
                        seen = seen + m
                    else:
                        n_mods.append(seen)
                        seen = m
                n_mods.append(seen)
"""
FNP = """                        if mods[0] == "*" and not is_ptr:
"""
AS = "                    args = [self._get_type(arg[1]) for arg in m]\n"
AV = """                    # A parameter list made of void has no parameter
                    args = [arg for arg in args if arg is not None]
"""
ARGS = AS + AV
MK = "                    cls = mkfn(cls, *args)\n"
POP = "                m = mods.pop(0)\n"
SPC = """            if (
                pointers
                and len(typ) > 1
                and typ[1] == "*"
                and typ[0] in self._ptr_types_
            ):
                cls = self._ptr_types_[typ[0]]
                mods = typ[2:]
"""
CONV = '                    if conv == "__stdcall" and sys.platform == "win32":\n'
NOP = """            if not pointers:
                return cls
"""
BREAKING = [
    ("functions refused", [(BC, "                elif isinstance(m, tuple):\n", "                elif not isinstance(m, tuple):\n")]),
    ("functions never made", [(BC, MK, "                    pass\n")]),
    ("functions with nothing", [(BC, "                    if len(mods) == 0:\n", "                    if len(mods) != 0:\n")]),
    ("pointers any", [(BC, PTR, PTR.replace('if m[0] == "*" or m[0] == "&":', "if m:"))]),
    ("references lost", [(BC, PTR, PTR.replace(' or m[0] == "&"', ""))]),
    ("pointer twice", [(BC, PTR, PTR.replace("POINTER(cls)", "POINTER(POINTER(cls))"))]),
    ("inverted", [(BC, PTR, PTR.replace('if m[0] == "*" or m[0] == "&"', 'if not (m[0] == "*" or m[0] == "&")'))]),
    ("sizes in order", [(BC, ARR, ARR.replace("reversed(m)", "m"))]),
    ("sizes sorted", [(BC, ARR, ARR.replace("reversed(m)", "reversed(sorted(m))"))]),
    ("first size only", [(BC, ARR, ARR.replace("reversed(m)", "reversed(m[:1])"))]),
    ("unknown size", [(BC, ARR, ARR.replace("i == -1", "i == 0"))]),
    ("unknown size or one", [(BC, ARR, ARR.replace("i == -1", "i <= 1"))]),
    ("size inverted", [(BC, ARR, ARR.replace("i == -1", "i != -1"))]),
    ("size not looked at", [(BC, ARR, "                    for i in reversed(m):\n                        cls = cls * i\n")]),
    ("size plus one", [(BC, ARR, ARR.replace("cls * i", "cls * (i + 1)"))]),
    ("merged in the other order", [(BC, MRG, MRG.replace("seen + m", "m + seen"))]),
    ("last lost", [(BC, MRG, MRG.replace("                n_mods.append(seen)\n", "") + "\n" if False else MRG[:MRG.rindex("                n_mods.append(seen)")])]),
    ("pending lost", [(BC, MRG, MRG.replace("                        n_mods.append(seen)\n                        seen = m", "                        seen = m"))]),
    ("merged when one is a list", [(BC, MRG, MRG.replace("isinstance(seen, list) and isinstance(m, list)", "isinstance(seen, list) and not isinstance(m, str)"))]),
    ("all pointers part of the function", [(BC, FNP, '                        if mods[0] == "*":\n')]),
    ("arguments reversed", [(BC, ARGS, ARGS.replace("in m]", "in m[::-1]]"))]),
    ("named arguments only", [(BC, ARGS, ARGS.replace("in m]", "in m if arg[0]]"))]),
    ("argument bases", [(BC, ARGS, ARGS.replace("arg[1])", "arg[1], False)"))]),
    ("arguments without default", [(BC, ARGS, ARGS.replace("in m]", "in m if arg[2] is None]"))]),
    ("no argument", [(BC, MK, MK.replace(", *args", ""))]),
    ("result lost", [(BC, MK, MK.replace("mkfn(cls", "mkfn(None"))]),
    ("from the end", [(BC, POP, POP.replace("pop(0)", "pop()"))]),
    ("special for all", [(BC, SPC, SPC.replace('                and typ[1] == "*"\n', ""))]),
    ("special not pointer", [(BC, SPC, SPC.replace('typ[1] == "*"', 'typ[1] != "*"'))]),
    ("special keeps the pointer", [(BC, SPC, SPC.replace("typ[2:]", "typ[1:]"))]),
    ("special eats two", [(BC, SPC, SPC.replace("typ[2:]", "typ[3:]"))]),
    ("special without pointers", [(BC, SPC, SPC.replace("                pointers\n                and len", "                len"))]),
    ("base eats one", [(BC, "            mods = typ[1:][:]\n", "            mods = typ[2:][:]\n")]),
    ("pointers anyway", [(BC, NOP, "")]),
    ("stdcall lost", [(BC, CONV, CONV.replace('conv == "__stdcall"', 'conv != "__stdcall"'))]),
    ("stdcall always on windows", [(BC, CONV, CONV.replace('conv == "__stdcall" and ', ""))]),
    ("arrays ignored", [(BC, ARR, "                    continue\n")]),
    ("stops at arrays", [(BC, ARR, ARR + "                    if -1 in m:\n                        break\n")]),
    ("rebuilt", [(BC, PTR, PTR.replace("POINTER(cls)", "POINTER(self._types_[typ[0]])"))]),
    ("void kept", [(BC, AV, "")]),
    ("void pointers left out", [(BC, ARGS, ARGS.replace("for arg in m]", 'for arg in m if arg[1][0] != "void"]'))]),
    ("typedef of void kept", [(BC, ARGS, AS.replace("for arg in m]", 'for arg in m if arg[1] != ("void",)]'))]),
    ("only void", [(BC, AV, AV.replace("is not None", "is None"))]),
]
PRESERVING = [
    ("void truth", [(BC, AV, AV.replace(" is not None", ""))]),
    ("void filter", [(BC, ARGS, AS.replace("for arg in m]", 'for arg in m if self._headers_.eval_type(arg[1]) != ("void",)]'))]),
    ("void generator", [(BC, ARGS, """                    resolved = (self._get_type(arg[1]) for arg in m)
                    args = tuple(t for t in resolved if t is not None)
""")]),
    ("void lone", [(BC, AV, """                    if args == [None]:
                        args = []
""")]),
    ("void loop", [(BC, ARGS, """                    args = []
                    for arg in m:
                        t = self._get_type(arg[1])
                        if t is None:
                            continue
                        args.append(t)
""")]),
    ("startswith", [(BC, PTR, PTR.replace('m[0] == "*" or m[0] == "&"', 'm.startswith(("*", "&"))'))]),
    ("in", [(BC, PTR, PTR.replace('m[0] == "*" or m[0] == "&"', 'm[0] in "*&"'))]),
    ("in tuple", [(BC, PTR, PTR.replace('m[0] == "*" or m[0] == "&"', 'm[0] in ("*", "&")'))]),
    ("once", [(BC, PTR, """                    if m in ("*", "&"):
                        cls = POINTER(cls)
""")]),
    ("slice reversed", [(BC, ARR, ARR.replace("reversed(m)", "m[::-1]"))]),
    ("negative", [(BC, ARR, ARR.replace("i == -1", "i < 0"))]),
    ("known first", [(BC, ARR, """                    for i in reversed(m):
                        if i != -1:
                            cls = cls * i
                        else:
                            cls = POINTER(cls)
""")]),
    ("ternary", [(BC, ARR, """                    for size in m[::-1]:
                        cls = POINTER(cls) if size == -1 else cls * size
""")]),
    ("augmented", [(BC, ARR, ARR.replace("cls = cls * i", "cls *= i"))]),
    ("for loop", [(BC, "            while len(mods) > 0:\n", "            while mods:\n")]),
    ("merge into last", [(BC, """                seen = mods[0]
""" + MRG, """                for m in mods:
                    if n_mods and isinstance(m, list) and isinstance(n_mods[-1], list):
                        n_mods[-1] = n_mods[-1] + m
                    else:
                        n_mods.append(m)
""")]),
    ("merge both", [(BC, MRG, MRG.replace("isinstance(seen, list) and isinstance(m, list)", "isinstance(m, list) and isinstance(seen, list)"))]),
    ("merge inverted", [(BC, MRG, """                for m in mods[1:]:
                    if not (isinstance(seen, list) and isinstance(m, list)):
                        n_mods.append(seen)
                        seen = m
                        continue
                    seen = [*seen, *m]
                n_mods.append(seen)
""")]),
    ("array helper", [(BC, ARR, "                    cls = self._array_of(cls, m)\n"),
                      (BC, "    def _get_struct(self, str_type", """    @staticmethod
    def _array_of(cls, sizes):
        for size in reversed(sizes):
            if size == -1:
                cls = POINTER(cls)
            else:
                cls = cls * size
        return cls

    def _get_struct(self, str_type""")]),
    ("pointer helper", [(BC, PTR, """                    if m[0] in ("*", "&"):
                        cls = self._pointer_to(cls, len(m))
"""),
                        (BC, "    def _get_struct(self, str_type", """    @staticmethod
    def _pointer_to(cls, depth):
        for _ in range(depth):
            cls = POINTER(cls)
        return cls

    def _get_struct(self, str_type""")]),
    ("arguments loop", [(BC, ARGS, """                    args = []
                    for _name, arg_type, *_ in m:
                        args.append(self._get_type(arg_type))
""" + AV)]),
    ("arguments star", [(BC, ARGS + MK, AS + """                    cls = mkfn(cls, *(arg for arg in args if arg is not None))
""")]),
    ("mkfn ternary", [(BC, CONV + """                        mkfn = WINFUNCTYPE

                    else:
                        mkfn = CFUNCTYPE
""", """                    stdcall = conv == "__stdcall" and sys.platform == "win32"
                    mkfn = WINFUNCTYPE if stdcall else CFUNCTYPE
""")]),
    ("special nested", [(BC, SPC, """            if pointers and typ[1:2] == ["*"] and typ[0] in self._ptr_types_:
                mods = mods[1:]
                cls = self._ptr_types_[typ[0]]
""")]),
    ("deque", [(BC, POP, "                m = mods[0]\n                del mods[0]\n")]),
    ("type order", [(BC, "                if isinstance(m, str):  # pointer or reference\n", "                if type(m) is str:\n")]),
    ("function pointer break", [(BC, """                            mods.pop(0)
                            is_ptr = True
                        elif""", """                            is_ptr = True
                            mods.pop(0)
                        elif""")]),
    ("pointers last", [(BC, NOP, "            if pointers is False:\n                return cls\n")]),
]
