CL = "c_library.py"
BC = "backends/ctypes.py"
GET = """        if isinstance(n, int):
            arg = self.args[n]
        elif isinstance(n, str):
            n = self.find_arg(n)
            arg = self.args[n]
        else:
            raise ValueError("Index must be int or str.")

        if n in self.guessed:
            arg = arg[0]

        return self.lib._extract_val_(arg)
"""
FIND = """        for i, a in enumerate(self.sig[1]):
            if a[0] == arg:
                return i
"""
BREAKING = [
    ("name not resolved", [(CL, """            n = self.find_arg(n)
            arg = self.args[n]
        else:
            raise ValueError("Index must be int or str.")

        if n in""", """            arg = self.args[self.find_arg(n)]
        else:
            raise ValueError("Index must be int or str.")

        if n in""")]),
    ("always followed", [(CL, "        if n in self.guessed:\n            arg = arg[0]", "        if hasattr(arg, 'contents'):\n            arg = arg[0]")]),
    ("never followed", [(CL, "        if n in self.guessed:\n            arg = arg[0]\n", "")]),
    ("inverted", [(CL, "if n in self.guessed", "if n not in self.guessed")]),
    ("any guessed", [(CL, "        if n in self.guessed:\n", "        if self.guessed:\n")]),
    ("value", [(CL, "        return self.lib._extract_val_(arg)", "        return arg")]),
    ("rval raw", [(CL, "        return self.lib._extract_val_(self.rval)", "        return self.rval")]),
    ("rval falsy", [(CL, '        if self.sig[0] == ["void"]:\n', '        if not self.rval:\n')]),
    ("auto all", [(CL, "[self[n] for n in self.guessed]", "[self[n] for n in range(len(self.args))]")]),
    ("auto raw", [(CL, "[self[n] for n in self.guessed]", "[self.args[n] for n in self.guessed]")]),
    ("auto skip", [(CL, "[self[n] for n in self.guessed]", "[self[n] for n in self.guessed if self[n]]")]),
    ("iter sig", [(CL, "(self[i] for i in range(len(self.args)))", "(self[i] for i in range(len(self.sig[1])))")]),
    ("iter raw", [(CL, "(self[i] for i in range(len(self.args)))", "(a for a in self.args)")]),
    ("iter rval", [(CL, "        yield self()\n", "        yield self.rval\n")]),
    ("find last", [(CL, FIND, """        found = None
        for i, a in enumerate(self.sig[1]):
            if arg in a[0]:
                return i
""")]),
    ("find missing", [(CL, """        raise KeyError(mess.format(arg, str([a[0] for a in self.sig[1]])))""", "        return None")]),
    ("find start", [(CL, "        for i, a in enumerate(self.sig[1]):\n            if a[0] == arg", "        for i, a in enumerate(self.sig[1], 1):\n            if a[0] == arg")]),
    ("set", [(CL, "            self.args[ind] = val", "            self.args[n] = val")]),
    ("set guessed", [(CL, "            self.args[n] = val\n", "            self.args[n][0] = val\n")]),
    ("struct", [(BC, "        if isinstance(obj, (Structure, Union)) or not hasattr", "        if not hasattr")]),
    ("union", [(BC, "        if isinstance(obj, (Structure, Union)) or not hasattr", "        if isinstance(obj, Structure) or not hasattr")]),
    ("contents", [(BC, "        return obj.value\n", "        return obj.value or None\n")]),
    ("guessed dropped", [(CL, "        self.guessed = guessed ", "        self.guessed = () ")]),
]
PRESERVING = [
    ("index helper", [(CL, GET, """        n = self._index(n)
        arg = self.args[n]
        if n in self.guessed:
            arg = arg[0]

        return self.lib._extract_val_(arg)

    def _index(self, n):
        if isinstance(n, int):
            return n
        if isinstance(n, str):
            return self.find_arg(n)
        raise ValueError("Index must be int or str.")
""")]),
    ("str first", [(CL, GET, """        if isinstance(n, str):
            n = self.find_arg(n)
        elif not isinstance(n, int):
            raise ValueError("Index must be int or str.")

        arg = self.args[n]
        return self.lib._extract_val_(arg[0] if n in self.guessed else arg)
""")]),
    ("contents", [(CL, "            arg = arg[0]\n", "            arg = arg.contents\n")]),
    ("find list", [(CL, FIND, """        names = [a[0] for a in self.sig[1]]
        if arg in names:
            return names.index(arg)
""")]),
    ("find range", [(CL, FIND, """        for i in range(len(self.sig[1])):
            if self.sig[1][i][0] == arg:
                return i
""")]),
    ("find unpack", [(CL, FIND, """        for i, (name, *_) in enumerate(self.sig[1]):
            if name == arg:
                return i
""")]),
    ("find params", [(CL, FIND, """        params = self.sig[1]
        for i, a in enumerate(params):
            if arg != a[0]:
                continue
            return i
""")]),
    ("auto loop", [(CL, "        return [self[n] for n in self.guessed]", """        values = []
        for n in self.guessed:
            values.append(self[n])
        return values""")]),
    ("auto map", [(CL, "[self[n] for n in self.guessed]", "list(map(self.__getitem__, self.guessed))")]),
    ("iter enumerate", [(CL, "(self[i] for i in range(len(self.args)))", "(self[i] for i, _ in enumerate(self.args))")]),
    ("iter list", [(CL, "        yield self()\n        yield (self[i] for i in range(len(self.args)))", "        n_args = len(self.args)\n        yield self()\n        yield [self[i] for i in range(n_args)]")]),
    ("iter return", [(CL, "        yield self()\n        yield (self[i] for i in range(len(self.args)))", "        return iter((self(), (self[i] for i in range(len(self.args)))))")]),
    ("set helper", [(CL, """        if type(n) is int:
            self.args[n] = val
        elif type(n) is str:
            ind = self.find_arg(n)
            self.args[ind] = val
        else:
            raise ValueError("Index must be int or str.")
""", """        if type(n) is str:
            n = self.find_arg(n)
        elif type(n) is not int:
            raise ValueError("Index must be int or str.")
        self.args[n] = val
""")]),
    ("extract", [(BC, """        if isinstance(obj, (Structure, Union)) or not hasattr(obj, "value"):
            return obj

        return obj.value
""", """        if hasattr(obj, "value") and not isinstance(obj, (Structure, Union)):
            return obj.value
        return obj
""")]),
    ("extract two", [(BC, """        if isinstance(obj, (Structure, Union)) or not hasattr(obj, "value"):
            return obj

        return obj.value
""", """        if isinstance(obj, Structure):
            return obj
        if isinstance(obj, Union):
            return obj
        if hasattr(obj, "value"):
            return obj.value
        return obj
""")]),
    ("void", [(CL, '        if self.sig[0] == ["void"]:\n            return None\n', '        if self.sig[0] == ("void",):\n            return None\n')]),
    ("no void", [(CL, '        if self.sig[0] == ["void"]:\n            return None\n', '')]),
    ("fields renamed", [(CL, "        self.guessed = guessed ", "        self._x = 1\n        self.guessed = list(guessed) ")]),
]

# campaign3
BREAKING += [
    ('campaign3: rval none', [
        ('c_library.py',
         '        return self.lib._extract_val_(self.rval)',
         '        return self.lib._extract_val_(self.rval) or None'),
    ]),
    ('campaign3: struct detection', [
        ('c_library.py',
         '        if n in self.guessed:\n            arg = arg[0]\n\n        return self.lib._extract_val_(arg)',
         '        val = self.lib._extract_val_(arg)\n        if n in self.guessed:\n            val = val[0]\n        return val'),
    ]),
    ('campaign3: iter guessed', [
        ('c_library.py',
         'yield (self[i] for i in range(len(self.args)))',
         'yield (self[i] for i in self.guessed)'),
    ]),
    ('campaign3: iter tail', [
        ('c_library.py',
         'yield (self[i] for i in range(len(self.args)))',
         'yield (self[i] for i in range(1, len(self.args)))'),
    ]),
    ('campaign3: find ci', [
        ('c_library.py',
         '            if a[0] == arg:\n                return i',
         '            if a[0] and a[0].lower() == arg.lower():\n                return i'),
    ]),
    ('campaign3: find in', [
        ('c_library.py',
         '            if a[0] == arg:\n                return i',
         '            if arg in a[0]:\n                return i'),
    ]),
    ('campaign3: setitem keep guess', [
        ('c_library.py',
         '            ind = self.find_arg(n)\n            self.args[ind] = val',
         '            ind = self.find_arg(n)\n            self.args[ind] = val\n            self.guessed.append(ind)'),
    ]),
    ('campaign3: setitem str value', [
        ('c_library.py',
         '            ind = self.find_arg(n)\n            self.args[ind] = val',
         "            ind = self.find_arg(n)\n            self.args[ind] = getattr(val, 'value', val)"),
    ]),
    ('campaign3: auto sorted unique', [
        ('c_library.py',
         'return [self[n] for n in self.guessed]',
         'return [self[n] for n in self.guessed if self.args[n] is not None and self.args[n]]'),
    ]),
    ('campaign3: auto first', [
        ('c_library.py',
         'return [self[n] for n in self.guessed]',
         'return [self.lib._extract_val_(self.args[n]) for n in self.guessed]'),
    ]),
    ('campaign3: extract union', [
        ('backends/ctypes.py',
         'isinstance(obj, (Structure, Union))',
         'isinstance(obj, Structure)'),
    ]),
    ('campaign3: bool', [
        ('c_library.py',
         '        if isinstance(n, int):\n            arg = self.args[n]',
         '        if isinstance(n, int):\n            arg = self.args[n - 1 if n else n]'),
    ]),
]
BREAKING += [
    ('mut: void of parameters', [(CL, 'if self.sig[0] == ["void"]:', 'if self.sig[1] == ["void"]:')]),
    ('mut: names refused', [(CL, "elif isinstance(n, str):", "elif not isinstance(n, str):")]),
    ('mut: class of name', [(CL, "elif isinstance(n, str):", "elif isinstance(str, n):")]),
    ('mut: assignment by name refused', [(CL, "elif type(n) is str:", "elif type(n) is not str:")]),
]
PRESERVING += [
    ('isinstance assignment', [(CL, "if type(n) is int:", "if isinstance(n, int):"), (CL, "elif type(n) is str:", "elif isinstance(n, str):")]),
    ('refused first', [(CL, """        if isinstance(n, int):
            arg = self.args[n]
        elif isinstance(n, str):
            n = self.find_arg(n)
            arg = self.args[n]
        else:
            raise ValueError("Index must be int or str.")
""", """        if not isinstance(n, (int, str)):
            raise ValueError("Index must be int or str.")
        if isinstance(n, str):
            n = self.find_arg(n)
        arg = self.args[n]
""")]),
]
