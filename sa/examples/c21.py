CL = "c_library.py"
POS = """        for i in range(len(args)):
            if args[i] is None:
                arg_list[i] = self.lib.Null
            else:
                arg_list[i] = args[i]
"""
KWS = """        for k in kwargs:
            if k not in self.arg_inds:
                mess = "Function signature has no argument named '{}'"
                raise TypeError(mess.format(k))

            ind = self.arg_inds[k]
            # Stretch argument list if needed
            if ind >= len(arg_list):  #
                arg_list += [None] * (ind - len(arg_list) + 1)
            if kwargs[k] is None:
                arg_list[ind] = self.lib.Null
            else:
                arg_list[ind] = kwargs[k]
"""
MISS = """        missings = {
            i: arg
            for i, arg in enumerate(arg_list)
            if arg is None or arg is self.lib.Null
        }
        for i, arg in missings.items():
"""
FILL = """            try:
                sig = self.sig[1][i][1]
                arg_type = self.lib._headers_.eval_type(sig)

                # request to build a null pointer
                if arg is self.lib.Null:
                    if len(arg_type) < 2:
                        mess = make_mess(\"\"\"Cannot create NULL for
                                        non-pointer argument type: {}\"\"\")
                        raise TypeError(mess.format(arg_type))
                    arg_list[i] = self.lib._get_type(sig)()

                else:
                    arg_list[i] = self.lib._get_pointer(arg_type, sig)
                    guessed_args.append(i)

            except Exception:
                if sys.exc_info()[0] is not AssertionError:
                    raise
                mess = "Function call '{}' missing required argument {} {}"
                raise TypeError(mess.format(self.name, i, self.sig[1][i][0]))
"""
NATIVE = """        try:
            if self.lock_call:
                with self.lib._lock_:
                    res = self.func(*arg_list)
            else:
                res = self.func(*arg_list)
"""
INIT = "        arg_list = [None] * max(len(self.req_args), len(args))\n"
BREAKING = [
    ("size req", [(CL, INIT, "        arg_list = [None] * len(args)\n")]),
    ("size min", [(CL, "max(len(self.req_args), len(args))", "min(len(self.req_args), len(args))")]),
    ("size args", [(CL, "max(len(self.req_args), len(args))", "len(self.req_args)")]),
    ("none passed", [(CL, POS, POS.replace("self.lib.Null", "None"))]),
    ("falsy", [(CL, "if args[i] is None", "if not args[i]")]),
    ("kw falsy", [(CL, "if kwargs[k] is None", "if not kwargs[k]")]),
    ("kw none", [(CL, """            if kwargs[k] is None:
                arg_list[ind] = self.lib.Null
            else:
                arg_list[ind] = kwargs[k]
""", "            arg_list[ind] = kwargs[k]\n")]),
    ("unknown ignored", [(CL, """                mess = "Function signature has no argument named '{}'"
                raise TypeError(mess.format(k))
""", "                continue\n")]),
    ("stretch", [(CL, "(ind - len(arg_list) + 1)", "(ind - len(arg_list))")]),
    ("no stretch", [(CL, """            if ind >= len(arg_list):  #
                arg_list += [None] * (ind - len(arg_list) + 1)
""", "")]),
    ("kw index", [(CL, "ind = self.arg_inds[k]", "ind = list(kwargs).index(k)")]),
    ("guess over null", [(CL, "                if arg is self.lib.Null:\n", "                if arg is None:\n"), (CL, "                    arg_list[i] = self.lib._get_type(sig)()", "                    arg_list[i] = self.lib._get_type(sig)()")]),
    ("null for omitted", [(CL, "                    arg_list[i] = self.lib._get_pointer(arg_type, sig)\n                    guessed_args.append(i)\n", "                    arg_list[i] = self.lib._get_type(sig)()\n")]),
    ("falsy filter", [(CL, "            if arg is None or arg is self.lib.Null\n", "            if not arg or arg is self.lib.Null\n")]),
    ("not recorded", [(CL, "                    guessed_args.append(i)\n", "")]),
    ("always recorded", [(CL, "                    guessed_args.append(i)\n", ""), (CL, "                # request to build", "                guessed_args.append(i)\n                # request to build")]),
    ("record kept", [(CL, "        guessed_args = []\n", "        guessed_args = self.guessed\n"), (CL, "        self.name = name\n", "        self.name = name\n        self.guessed = []\n")]),
    ("cached pointer", [(CL, "arg_list[i] = self.lib._get_pointer(arg_type, sig)", "if i not in self._ptrs:\n                        self._ptrs[i] = self.lib._get_pointer(arg_type, sig)\n                    arg_list[i] = self._ptrs[i]"), (CL, "        self.name = name\n", "        self.name = name\n        self._ptrs = {}\n")]),
    ("null any type", [(CL, """                    if len(arg_type) < 2:
                        mess = make_mess(\"\"\"Cannot create NULL for
                                        non-pointer argument type: {}\"\"\")
                        raise TypeError(mess.format(arg_type))
""", "")]),
    ("type of another", [(CL, "sig = self.sig[1][i][1]", "sig = self.sig[1][0][1]")]),
    ("rval", [(CL, "CallResult(self.lib, res, arg_list,", "CallResult(self.lib, arg_list[0], arg_list,")]),
    ("args", [(CL, "CallResult(self.lib, res, arg_list,", "CallResult(self.lib, res, list(args),")]),
    ("assertion", [(CL, "                if sys.exc_info()[0] is not AssertionError:\n                    raise\n", "                raise\n")]),
    ("called twice", [(CL, "        except Exception:\n            logger.error(\n", "        except Exception:\n            res = self.func(*arg_list)\n            return CallResult(self.lib, res, arg_list, self.sig, guessed=guessed_args)\n            logger.error(\n")]),
    ("swallowed", [(CL, "            logger.error(\"Argtypes: {}\".format(self.func.argtypes))\n            raise\n", "            logger.error(\"Argtypes: {}\".format(self.func.argtypes))\n            res = None\n")]),
    ("drop extra", [(CL, "        for i in range(len(args)):\n", "        for i in range(min(len(args), len(self.sig[1]))):\n")]),
    ("positional over keyword lost", [(CL, "            if kwargs[k] is None:\n", "            if arg_list[ind] is not None:\n                continue\n            if kwargs[k] is None:\n")]),
]
PRESERVING = [
    ("enumerate", [(CL, POS, """        for i, value in enumerate(args):
            arg_list[i] = self.lib.Null if value is None else value
""")]),
    ("null local", [(CL, POS, """        null = self.lib.Null
        for i, value in enumerate(args):
            if value is not None:
                arg_list[i] = value
            else:
                arg_list[i] = null
""")]),
    ("items", [(CL, KWS, """        for k, value in kwargs.items():
            if k not in self.arg_inds:
                raise TypeError("Function signature has no argument named '{}'".format(k))

            ind = self.arg_inds[k]
            if ind >= len(arg_list):
                arg_list.extend([None] * (ind + 1 - len(arg_list)))
            arg_list[ind] = self.lib.Null if value is None else value
""")]),
    ("try", [(CL, """            if k not in self.arg_inds:
                mess = "Function signature has no argument named '{}'"
                raise TypeError(mess.format(k))

            ind = self.arg_inds[k]
""", """            try:
                ind = self.arg_inds[k]
            except KeyError:
                mess = "Function signature has no argument named '{}'"
                raise TypeError(mess.format(k))

""")]),
    ("while", [(CL, """            if ind >= len(arg_list):  #
                arg_list += [None] * (ind - len(arg_list) + 1)
""", """            while len(arg_list) <= ind:
                arg_list.append(None)
""")]),
    ("helper fill", [(CL, POS + "\n        # Next fill in kwargs\n" + KWS, "        arg_list = self._given(args, kwargs)\n"), (CL, INIT, ""),
                     (CL, "    def arg_c_type(self", "    def _given(self, args, kwargs):\n" + INIT + POS + KWS + "        return arg_list\n\n    def arg_c_type(self")]),
    ("helper kw", [(CL, KWS, "        self._fill_kwargs(arg_list, kwargs)\n"),
                     (CL, "    def arg_c_type(self", "    def _fill_kwargs(self, arg_list, kwargs):\n" + KWS + "\n    def arg_c_type(self")]),
    ("helper null", [(CL, POS, POS.replace("""            if args[i] is None:
                arg_list[i] = self.lib.Null
            else:
                arg_list[i] = args[i]
""", "            arg_list[i] = self._or_null(args[i])\n")), (CL, """            if kwargs[k] is None:
                arg_list[ind] = self.lib.Null
            else:
                arg_list[ind] = kwargs[k]
""", "            arg_list[ind] = self._or_null(kwargs[k])\n"),
                     (CL, "    def arg_c_type(self", "    def _or_null(self, value):\n        return self.lib.Null if value is None else value\n\n    def arg_c_type(self")]),
    ("loop missing", [(CL, MISS, """        for i, arg in enumerate(arg_list):
            if arg is not None and arg is not self.lib.Null:
                continue
""")]),
    ("loop missing index", [(CL, MISS, """        for i in range(len(arg_list)):
            arg = arg_list[i]
            if not (arg is None or arg is self.lib.Null):
                continue
""")]),
    ("missing list", [(CL, MISS, """        missings = [
            (i, arg)
            for i, arg in enumerate(arg_list)
            if arg is None or arg is self.lib.Null
        ]
        for i, arg in missings:
""")]),
    ("except", [(CL, """            except Exception:
                if sys.exc_info()[0] is not AssertionError:
                    raise
""", "            except AssertionError:\n")]),
    ("except as", [(CL, """            except Exception:
                if sys.exc_info()[0] is not AssertionError:
                    raise
""", "            except Exception as e:\n                if type(e) is not AssertionError:\n                    raise\n")]),
    ("helper slot", [(CL, FILL, "            self._complete(arg_list, i, arg, guessed_args)\n"),
                     (CL, "    def arg_c_type(self", "    def _complete(self, arg_list, i, arg, guessed_args):\n" + FILL.replace("\n    ", "\n")[4:] + "\n    def arg_c_type(self")]),
    ("helper value", [(CL, """                if arg is self.lib.Null:
                    if len(arg_type) < 2:
                        mess = make_mess(\"\"\"Cannot create NULL for
                                        non-pointer argument type: {}\"\"\")
                        raise TypeError(mess.format(arg_type))
                    arg_list[i] = self.lib._get_type(sig)()
""", """                if arg is self.lib.Null:
                    arg_list[i] = self._make_null(arg_type, sig)
"""), (CL, "    def arg_c_type(self", '''    def _make_null(self, arg_type, sig):
        if len(arg_type) < 2:
            mess = make_mess("""Cannot create NULL for
                            non-pointer argument type: {}""")
            raise TypeError(mess.format(arg_type))
        return self.lib._get_type(sig)()

    def arg_c_type(self''')]),
    ("record last", [(CL, "                    arg_list[i] = self.lib._get_pointer(arg_type, sig)\n                    guessed_args.append(i)\n", "                    new = self.lib._get_pointer(arg_type, sig)\n                    guessed_args.append(i)\n                    arg_list[i] = new\n")]),
    ("swap branches", [(CL, "                if arg is self.lib.Null:\n                    if len", "                if arg is None:\n                    arg_list[i] = self.lib._get_pointer(arg_type, sig)\n                    guessed_args.append(i)\n\n                else:\n                    if len"), (CL, """
                else:
                    arg_list[i] = self.lib._get_pointer(arg_type, sig)
                    guessed_args.append(i)
""", "")]),
    ("return directly", [(CL, "        cr = CallResult(self.lib, res, arg_list, self.sig, guessed=guessed_args)\n        return cr\n", "        return CallResult(self.lib, res, arg_list, self.sig, guessed_args)\n")]),
    ("native helper", [(CL, NATIVE, "        try:\n            res = self._native(arg_list)\n"), (CL, "    def arg_c_type(self", '''    def _native(self, arg_list):
        if self.lock_call:
            with self.lib._lock_:
                return self.func(*arg_list)
        return self.func(*arg_list)

    def arg_c_type(self''')]),
    ("names checked first", [(CL, KWS, "        for k in kwargs:\n            if k not in self.arg_inds:\n                raise TypeError(k)\n" + KWS.replace("""            if k not in self.arg_inds:
                mess = "Function signature has no argument named '{}'"
                raise TypeError(mess.format(k))

""", ""))]),
    ("names set", [(CL, KWS, "        unknown = [k for k in kwargs if k not in self.arg_inds]\n        if unknown:\n            raise TypeError(unknown[0])\n" + KWS.replace("""            if k not in self.arg_inds:
                mess = "Function signature has no argument named '{}'"
                raise TypeError(mess.format(k))

""", ""))]),
    ("comp", [(CL, INIT, ""), (CL, POS, "        arg_list = [self.lib.Null if a is None else a for a in args]\n        arg_list += [None] * (len(self.req_args) - len(args))\n")]),
    ("list args", [(CL, INIT, "        n_args = max(len(args), len(self.req_args))\n        arg_list = [None for _ in range(n_args)]\n")]),
    ("full length", [(CL, "(ind - len(arg_list) + 1)", "(1 + ind - len(arg_list))")]),
]

# campaign3
BREAKING += [
    ('campaign3: kwargs none skip', [
        ('c_library.py',
         '            if kwargs[k] is None:\n                arg_list[ind] = self.lib.Null\n            else:\n                arg_list[ind] = kwargs[k]',
         '            if kwargs[k] is not None:\n                arg_list[ind] = kwargs[k]'),
    ]),
    ('campaign3: max to min stretch', [
        ('c_library.py',
         'arg_list += [None] * (ind - len(arg_list) + 1)',
         'arg_list += [None] * (ind - len(arg_list))\n                arg_list.append(kwargs[k])'),
    ]),
    ('campaign3: insert', [
        ('c_library.py',
         '                arg_list[ind] = kwargs[k]\n',
         '                arg_list.insert(ind, kwargs[k])\n'),
    ]),
    ('campaign3: shared pointer', [
        ('c_library.py',
         'arg_list[i] = self.lib._get_pointer(arg_type, sig)',
         'arg_list[i] = self._ptr_cache.setdefault(i, self.lib._get_pointer(arg_type, sig))'),
        ('c_library.py',
         '        self.name = name\n        self.res_type',
         '        self.name = name\n        self._ptr_cache = {}\n        self.res_type'),
    ]),
    ('campaign3: guessed null too', [
        ('c_library.py',
         '                    arg_list[i] = self.lib._get_type(sig)()\n',
         '                    arg_list[i] = self.lib._get_type(sig)()\n                    guessed_args.append(i)\n'),
    ]),
    ('campaign3: len lt 1', [
        ('c_library.py',
         'if len(arg_type) < 2:',
         'if len(arg_type) < 1:'),
    ]),
    ('campaign3: unknown after', [
        ('c_library.py',
         '            if k not in self.arg_inds:\n                mess = "Function signature has no argument named \'{}\'"\n                raise TypeError(mess.format(k))\n\n            ind = self.arg_inds[k]',
         '            ind = self.arg_inds.get(k)\n            if ind is None:\n                continue'),
    ]),
    ('campaign3: first missing only', [
        ('c_library.py',
         '                    guessed_args.append(i)\n',
         '                    guessed_args.append(i)\n                    break\n'),
    ]),
    ('campaign3: equality null', [
        ('c_library.py',
         'if arg is None or arg is self.lib.Null',
         'if not arg or arg is self.lib.Null'),
    ]),
    ('campaign3: default value used', [
        ('c_library.py',
         '        guessed_args = []\n',
         '        guessed_args = []\n        for j, s in enumerate(self.sig[1][:len(arg_list)]):\n            if arg_list[j] is None and s[2] is not None:\n                arg_list[j] = s[2]\n'),
    ]),
    ('campaign3: required by position', [
        ('c_library.py',
         'arg_list = [None] * max(len(self.req_args), len(args))',
         'arg_list = [None] * (len(args) or len(self.req_args))'),
    ]),
    ('campaign3: guessed of previous', [
        ('c_library.py',
         '        guessed_args = []\n        # Finally',
         "        guessed_args = self._guessed = getattr(self, '_guessed', [])\n        # Finally"),
    ]),
    ('campaign3: call result args copy', [
        ('c_library.py',
         'cr = CallResult(self.lib, res, arg_list, self.sig, guessed=guessed_args)',
         'cr = CallResult(self.lib, res, list(args), self.sig, guessed=guessed_args)'),
    ]),
    ('campaign3: Null type of base', [
        ('c_library.py',
         'arg_list[i] = self.lib._get_type(sig)()',
         'arg_list[i] = self.lib._get_type(sig, pointers=False)()'),
    ]),
]
BREAKING += [
    ('mut: known keyword refused', [(CL, "if k not in self.arg_inds:", "if k in self.arg_inds:")]),
    ('mut: one slot short', [(CL, "if ind >= len(arg_list):", "if ind > len(arg_list):")]),
    ('mut: one slot more', [(CL, "(ind - len(arg_list) + 1)", "(ind - len(arg_list) + 2)")]),
    ('mut: null left', [(CL, "if arg is None or arg is self.lib.Null\n", "if arg is None\n")]),
    ('mut: None refused for pointers', [(CL, "if len(arg_type) < 2:", "if len(arg_type) <= 2:")]),
    ('mut: arguments exchanged', [(CL, "self.lib._get_pointer(arg_type, sig)", "self.lib._get_pointer(sig, arg_type)")]),
    ('mut: exception compared', [(CL, "sys.exc_info()[0] is not AssertionError", "sys.exc_info()[1] is not AssertionError")]),
    ('mut: no index', [(CL, "        self.arg_inds = {s[0]: i for i, s in enumerate(self.sig[1])}\n", "")]),
    ('mut: index from one', [(CL, "enumerate(self.sig[1])}", "enumerate(self.sig[1], 1)}")]),
    ('mut: index by type', [(CL, "{s[0]: i for i, s", "{s[1]: i for i, s")]),
]
PRESERVING += [
    ('index by loop', [(CL, "        self.arg_inds = {s[0]: i for i, s in enumerate(self.sig[1])}\n",
                        "        self.arg_inds = {}\n        for i, s in enumerate(self.sig[1]):\n            self.arg_inds[s[0]] = i\n")]),
    ('index by zip', [(CL, "        self.arg_inds = {s[0]: i for i, s in enumerate(self.sig[1])}\n",
                        "        names = [s[0] for s in self.sig[1]]\n        self.arg_inds = dict(zip(names, range(len(names))))\n")]),
    ('index unpacked', [(CL, "{s[0]: i for i, s in enumerate(self.sig[1])}", "{name: i for i, (name, _, _) in enumerate(self.sig[1])}")]),
    ('at most one', [(CL, "if len(arg_type) < 2:", "if len(arg_type) <= 1:")]),
    ('no modifier', [(CL, "if len(arg_type) < 2:", "if not arg_type[1:]:")]),
]
