CL = "c_library.py"
BC = "backends/ctypes.py"
AT = "        self.arg_types = [lib._get_type(s[1]) for s in self.sig[1]]\n"
RT = "        self.res_type = lib._get_type(self.sig[0])\n"
INI = """        function.func.argtypes = function.arg_types
        function.func.restype = function.res_type
"""
VOID = """        void = ("void",)
        self.sig[1] = [s for s in sig[1] if lib._headers_.eval_type(s[1]) != void]
"""
CONV = """            *[m for m in sig[0] if m not in ("__stdcall", "__cdecl")],
"""
ACT = "        return self.lib._get_type(self.sig[1][arg][1])\n"
BREAKING = [
    ("argtypes missing", [(BC, INI, INI.split("\n")[1] + "\n")]),
    ("restype missing", [(BC, INI, INI.split("\n")[0] + "\n")]),
    ("argtypes when any", [(BC, INI, "        if function.arg_types:\n    " + INI)]),
    ("restype when any", [(BC, INI, INI.split("\n")[0] + "\n        if function.res_type is not None:\n            function.func.restype = function.res_type\n")]),
    ("declared once", [(BC, INI, "        if function.func.argtypes is not None:\n            return\n" + INI)]),
    ("not called", [(CL, "        self.lib._init_function(self)\n", "")]),
    ("wrong result", [(CL, RT, "        self.res_type = lib._get_type(sig[1][0][1]) if sig[1] else lib._get_type(self.sig[0])\n")]),
    ("result base only", [(CL, RT, "        self.res_type = lib._get_type(self.sig[0], pointers=False)\n")]),
    ("arguments base only", [(CL, AT, AT.replace("s[1])", "s[1], False)"))]),
    ("arguments reversed", [(CL, AT, AT.replace("in self.sig[1]", "in self.sig[1][::-1]"))]),
    ("arguments sorted", [(CL, AT, AT.replace("in self.sig[1]", "in sorted(self.sig[1], key=str)"))]),
    ("required only", [(CL, AT, AT.replace("in self.sig[1]]", "in self.sig[1] if s[2] is None]"))]),
    ("named only", [(CL, AT, AT.replace("in self.sig[1]]", "in self.sig[1] if s[0]]"))]),
    ("pointers to void lost", [(CL, VOID, '        self.sig[1] = [s for s in sig[1] if s[1][0] != "void"]\n')]),
    ("pointers to void lost 2", [(CL, VOID, '        self.sig[1] = [s for s in sig[1] if s[1].type_spec != "void"]\n')]),
    ("void typedef", [(CL, VOID, '        self.sig[1] = [s for s in sig[1] if s[1] != ("void",)]\n')]),
    ("name as type", [(CL, AT, AT.replace("s[1])", "s[0])"))]),
    ("first type", [(CL, AT, AT.replace("(s[1])", "(self.sig[1][0][1])"))]),
    ("after the first", [(CL, AT, AT.replace("in self.sig[1]]", "in self.sig[1][1:]]"))]),
    ("pointer modifiers lost", [(CL, CONV, '            *[m for m in sig[0] if m not in ("__stdcall", "__cdecl", "*")],\n')]),
    ("only base of result", [(CL, CONV, "            *list(sig[0])[:1],\n")]),
    ("loop stops", [(CL, AT, """        self.arg_types = []
        for s in self.sig[1]:
            if s[1] == ("...",):
                break
            self.arg_types.append(lib._get_type(s[1]))
""")]),
    ("loop skips", [(CL, AT, """        self.arg_types = []
        for s in self.sig[1]:
            if s[0] is None:
                continue
            self.arg_types.append(lib._get_type(s[1]))
""")]),
    ("changed by the call", [(CL, "            if self.lock_call:\n", "            self.func.argtypes = None\n            if self.lock_call:\n")]),
    ("changed when converting", [(CL, '        if self.sig[0] == ["void"]:\n', '        self.lib._lib_.f.restype = None\n        if self.sig[0] == ["void"]:\n')]),
    ("reported shifted", [(CL, ACT, ACT.replace("[arg][1]", "[arg - 1][1]"))]),
    ("reported base", [(CL, ACT, ACT.replace("[1])\n", "[1], False)\n"))]),
    ("reported result", [(CL, ACT, "        return self.lib._get_type(self.sig[0])\n")]),
    ("swapped", [(BC, INI, INI.replace("function.arg_types", "XX").replace("function.res_type", "function.arg_types[:1]").replace("XX", "function.arg_types"))]),
]
PRESERVING = [
    ("void alone", [(CL, VOID, """        params = list(sig[1])
        if len(params) == 1 and lib._headers_.eval_type(params[0][1]) == ("void",):
            params = []
        self.sig[1] = params
""")]),
    ("loop", [(CL, AT, """        self.arg_types = []
        for s in self.sig[1]:
            self.arg_types.append(lib._get_type(s[1]))
""")]),
    ("unpacked", [(CL, AT, "        self.arg_types = [lib._get_type(typ) for _, typ, *_ in self.sig[1]]\n")]),
    ("unpacked 2", [(CL, AT, "        self.arg_types = [lib._get_type(typ) for (_name, typ, _default) in self.sig[1]]\n")]),
    ("types first", [(CL, AT, "        types = [s[1] for s in self.sig[1]]\n        self.arg_types = [lib._get_type(t) for t in types]\n")]),
    ("map", [(CL, AT, "        self.arg_types = list(map(lambda s: lib._get_type(s[1]), self.sig[1]))\n")]),
    ("tuple", [(BC, INI, INI.replace("function.arg_types", "tuple(function.arg_types)"))]),
    ("list", [(BC, INI, INI.replace("function.arg_types", "list(function.arg_types)"))]),
    ("local", [(BC, INI, "        func = function.func\n" + INI.replace("function.func.", "func."))]),
    ("order", [(BC, INI, "\n".join(INI.split("\n")[1::-1]) + "\n")]),
    ("setattr", [(BC, INI, "        setattr(function.func, 'argtypes', function.arg_types)\n" + INI.split("\n")[1] + "\n")]),
    ("loop setattr", [(BC, INI, "        for name, value in (('argtypes', function.arg_types), ('restype', function.res_type)):\n            setattr(function.func, name, value)\n")]),
    ("void loop", [(CL, VOID, """        params = []
        for s in sig[1]:
            if lib._headers_.eval_type(s[1]) == ("void",):
                continue
            params.append(s)
        self.sig[1] = params
""")]),
    ("void both", [(CL, VOID, """        self.sig[1] = [
            s for s in sig[1]
            if not (lib._headers_.eval_type(s[1]).type_spec == "void"
                    and not lib._headers_.eval_type(s[1]).declarators)
        ]
""")]),
    ("void len", [(CL, VOID, """        self.sig[1] = [
            s for s in sig[1]
            if len(lib._headers_.eval_type(s[1])) > 1 or lib._headers_.eval_type(s[1])[0] != "void"
        ]
""")]),
    ("sig literal", [(CL, """        self.sig = list(sig)

        # remove void args from list
""" + VOID, """        void = ("void",)
        res, params = sig[0], sig[1]
        params = [s for s in params if lib._headers_.eval_type(s[1]) != void]
        self.sig = [res, params]
""")]),
    ("conv kept", [(CL, "        self.sig[0] = Type(\n" + CONV + "        )\n", "")]),
    ("conv loop", [(CL, "        self.sig[0] = Type(\n" + CONV + "        )\n", """        mods = []
        for m in sig[0]:
            if m == "__stdcall" or m == "__cdecl":
                continue
            mods.append(m)
        self.sig[0] = Type(*mods)
""")]),
    ("declare helper", [(CL, "        self.res_type = lib._get_type(self.sig[0])\n" + AT, "        self._resolve(lib)\n"),
                        (CL, "    def arg_c_type(self, arg):\n", "    def _resolve(self, lib):\n        self.res_type = lib._get_type(self.sig[0])\n" + AT + "\n    def arg_c_type(self, arg):\n")]),
    ("reported kept", [(CL, ACT, "        return self.arg_types[arg]\n")]),
    ("reported one line", [(CL, """        if isinstance(arg, str):
            arg = self.arg_inds[arg]
""" + ACT, """        ind = self.arg_inds[arg] if isinstance(arg, str) else arg
        param = self.sig[1][ind]
        return self.lib._get_type(param[1])
""")]),
]
BREAKING += [
    ('mut: index looked up', [("c_library.py", "        if isinstance(arg, str):\n            arg = self.arg_inds[arg]\n", "        if not isinstance(arg, str):\n            arg = self.arg_inds[arg]\n")]),
    ('mut: names unknown', [("c_library.py", "        if isinstance(arg, str):\n            arg = self.arg_inds[arg]\n", "")]),
]
PRESERVING += [
    ('index given', [("c_library.py", "        if isinstance(arg, str):\n            arg = self.arg_inds[arg]\n", "        if not isinstance(arg, int):\n            arg = self.arg_inds[arg]\n")]),
    ('index or name', [("c_library.py", "        if isinstance(arg, str):\n            arg = self.arg_inds[arg]\n", "        arg = self.arg_inds.get(arg, arg)\n")]),
    ('index apart', [("c_library.py", "        if isinstance(arg, str):\n            arg = self.arg_inds[arg]\n        return self.lib._get_type(self.sig[1][arg][1])", "        ind = self.arg_inds[arg] if isinstance(arg, str) else arg\n        return self.arg_types[ind]")]),
]
