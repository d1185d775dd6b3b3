CP = "c_parser.py"
TEXT = '''                if if_true[-1]:
                    new_line = self.expand_macros(line)
'''
ELIF = '''                    if if_hit[-1] or not all(if_true[:-1]):
                        ev = False
                    else:
                        ev = self.eval_preprocessor_expr(rest)
'''
ELIF2 = '''                    if_true[-1] = ev
                    if_hit[-1] = if_hit[-1] or ev
'''
ELSE = '''                    if_true[-1] = (not if_hit[-1]) and all(if_true[:-1])
                    if_hit[-1] = True
'''
ENDIF = '''                    if_true.pop()
                    if_hit.pop()
'''
IF = '''                    if all(if_true):
                        ev = self.eval_preprocessor_expr(rest)
                    else:
                        ev = False
'''
IF2 = '''                    if_true.append(ev)
                    if_hit.append(ev)
'''
INIT = '''        if_true = [True]
        if_hit = []
'''
GATE = '''                    if not if_true[-1]:
                        result.append(new_line)
                        continue
'''
DEF = '''                elif d == "define":
''' + GATE
UND = '''                elif d == "undef":
''' + GATE
PRA = '''                elif d == "pragma":
''' + GATE
PA = '''                        is_macro = t["name"] in self.defs["macros"]
                        is_macro_func = t["name"] in self.defs["fnmacros"]
                        return ["0", "1"][is_macro or is_macro_func]
'''
DEFD = '''                    rest = (
                        (Keyword("defined") + (name | lparen + name + rparen))
                        .setParseAction(pa)
                        .transformString(rest)
                    )
'''
BREAKING = [
    ("elif enclosing", [(CP, ELIF, ELIF.replace(" or not all(if_true[:-1])", ""))]),
    ("elif taken", [(CP, ELIF, ELIF.replace("if_hit[-1] or not", "not"))]),
    ("elif hit lost", [(CP, ELIF2, ELIF2.replace("if_hit[-1] or ev", "ev"))]),
    ("elif no hit", [(CP, ELIF2, "                    if_true[-1] = ev\n")]),
    ("else enclosing", [(CP, ELSE, ELSE.replace(" and all(if_true[:-1])", ""))]),
    ("else one level", [(CP, ELSE, ELSE.replace("all(if_true[:-1])", "if_true[0]"))]),
    ("else flips", [(CP, ELSE, ELSE.replace("(not if_hit[-1])", "(not if_true[-1])"))]),
    ("if always", [(CP, IF, "                    ev = self.eval_preprocessor_expr(rest)\n")]),
    ("if base", [(CP, IF, IF.replace("all(if_true)", "if_true[0]"))]),
    ("hit true", [(CP, IF2, IF2.replace("if_hit.append(ev)", "if_hit.append(True)"))]),
    ("endif one", [(CP, ENDIF, "                    if_true.pop()\n")]),
    ("define anywhere", [(CP, DEF, '                elif d == "define":\n')]),
    ("undef anywhere", [(CP, UND, '                elif d == "undef":\n')]),
    ("pragma anywhere", [(CP, PRA, '                elif d == "pragma":\n')]),
    ("text any", [(CP, TEXT, TEXT.replace("if_true[-1]", "any(if_true[1:] or if_true)"))]),
    ("text shallow", [(CP, TEXT, TEXT.replace("if_true[-1]", "all(if_true[:2])")), (CP, IF, "                    ev = self.eval_preprocessor_expr(rest)\n")]),
    ("skip nested", [(CP, IF2, "                    if all(if_true):\n                        if_true.append(ev)\n                        if_hit.append(ev)\n")]),
    ("ifndef", [(CP, '"!defined "', '"defined "')]),
    ("ifdef fn", [(CP, PA, '''                        return ["0", "1"][t["name"] in self.defs["macros"]]
''')]),
    ("expand first", [(CP, DEFD, "                    rest = self.expand_macros(rest)\n" + DEFD)]),
    ("no expand", [(CP, 'if rest is not None and (all(if_true) or d in ["if", "elif"]):', 'if rest is not None and all(if_true) and d not in ["if", "elif"]:')]),
    ("undef active only objects", [(CP, '''                    for kind in ("macros", "fnmacros"):
                        try:''', '''                    for kind in ("macros", "fnmacros"):
                        if len(if_true) > 2:
                            continue
                        try:''')]),
    ("define first level", [(CP, DEF, '''                elif d == "define":
                    if not if_true[min(1, len(if_true) - 1)]:
                        result.append(new_line)
                        continue
''')]),
    ("blank lines kept", [(CP, TEXT, '''                if if_true[-1]:
                    new_line = self.expand_macros(line)
                elif not all(if_hit):
                    new_line = line
''')]),
]
PRESERVING = [
    ("hit when skipped", [(CP, IF2, IF2.replace("if_hit.append(ev)", "if_hit.append(ev or not if_true[-2])"))]),
    ("pairs", [
        (CP, INIT, "        levels = [(True, True)]\n"),
        (CP, TEXT, TEXT.replace("if_true[-1]", "levels[-1][0]")),
        (CP, "all(if_true) or d in", "levels[-1][0] or d in"),
        (CP, ELIF, ELIF.replace("if_hit[-1] or not all(if_true[:-1])", "levels[-1][1] or not levels[-2][0]")),
        (CP, ELIF2, "                    levels[-1] = (ev, levels[-1][1] or ev)\n"),
        (CP, ELSE, "                    levels[-1] = (not levels[-1][1] and levels[-2][0], True)\n"),
        (CP, ENDIF, "                    levels.pop()\n"),
        (CP, IF, IF.replace("all(if_true)", "levels[-1][0]")),
        (CP, IF2, "                    levels.append((ev, ev))\n"),
        (CP, DEF, DEF.replace("if_true[-1]", "levels[-1][0]")),
        (CP, UND, UND.replace("if_true[-1]", "levels[-1][0]")),
        (CP, PRA, PRA.replace("if_true[-1]", "levels[-1][0]")),
        (CP, '''                    logger.debug(
                        "  " * (len(if_true) - 2) + line + "{}".format(not if_hit[-1])
                    )
''', ""),
    ]),
    ("active var", [(CP, '''            new_line = ""
            m = directive.match(line)
''', '''            new_line = ""
            active = all(if_true)
            m = directive.match(line)
'''), (CP, TEXT, TEXT.replace("if_true[-1]", "active")), (CP, IF, '                    ev = self.eval_preprocessor_expr(rest) if active else False\n'),
        (CP, DEF, DEF.replace("if_true[-1]", "active"))]),
    ("helpers", [(CP, ELSE, "                    self._else(if_true, if_hit)\n"),
        (CP, ENDIF, "                    for stack in (if_true, if_hit):\n                        stack.pop()\n"),
        (CP, '''    def eval_preprocessor_expr(self, expr):
''', '''    def _else(self, active, hit):
        active[-1] = not hit[-1] and all(active[:-1])
        hit[-1] = True

    def eval_preprocessor_expr(self, expr):
''')]),
    ("any not", [(CP, TEXT, TEXT.replace("if_true[-1]", "False not in if_true")), (CP, IF, IF.replace("all(if_true)", "not any(not x for x in if_true)"))]),
    ("dead directive first", [(CP, DEF, '''                elif d == "define" and not if_true[-1]:
                    pass

                elif d == "define":
''')]),
    ("inverse text", [(CP, '''            if m is None:
                # Only include if we are inside the correct section of an IF
                # block
''' + TEXT, '''            if not m:
                if not if_true[-1]:
                    result.append(new_line)
                    continue
                new_line = self.expand_macros(line)
''')]),
    ("del stacks", [(CP, ENDIF, "                    del if_true[-1]\n                    del if_hit[-1]\n")]),
    ("slices", [(CP, ENDIF, "                    if_true = if_true[:-1]\n                    if_hit = if_hit[:-1]\n")]),
    ("pa helper", [(CP, PA, '''                        if t["name"] in self.defs["macros"]:
                            return "1"
                        return "1" if t["name"] in self.defs["fnmacros"] else "0"
''')]),
    ("directive normalised", [(CP, '''                if d == "ifdef":
                    d = "if"
                    rest = "defined " + rest
                elif d == "ifndef":
                    d = "if"
                    rest = "!defined " + rest
''', '''                if d in ("ifdef", "ifndef"):
                    rest = ("defined " if d == "ifdef" else "!defined ") + rest
                    d = "if"
''')]),
    ("range", [(CP, '        for i, line in enumerate(lines):\n            new_line = ""\n', '        for i in range(len(lines)):\n            line = lines[i]\n            new_line = ""\n')]),
    ("method per directive", [(CP, IF + '''                    logger.debug(
                        "  " * (len(if_true) - 1) + line + "{}, {}".format(rest, ev)
                    )
''' + IF2, '''                    self._open_if(rest, if_true, if_hit)
'''), (CP, '''    def eval_preprocessor_expr(self, expr):
''', '''    def _open_if(self, rest, if_true, if_hit):
        ev = all(if_true) and self.eval_preprocessor_expr(rest)
        for stack in (if_true, if_hit):
            stack.append(ev)

    def eval_preprocessor_expr(self, expr):
''')]),
]

# campaign2
BREAKING += [
    ('campaign2: else nested', [
        ('c_parser.py',
         'if_true[-1] = (not if_hit[-1]) and all(if_true[:-1])',
         'if_true[-1] = not if_hit[-1]'),
    ]),
    ('campaign2: hit overwritten', [
        ('c_parser.py',
         'if_hit[-1] = if_hit[-1] or ev',
         'if_hit[-1] = ev'),
    ]),
    ('campaign2: hit only if', [
        ('c_parser.py',
         '                    if_true.append(ev)\n                    if_hit.append(ev)',
         '                    if_true.append(ev)\n                    if_hit.append(False)'),
    ]),
    ('campaign2: endif hit kept', [
        ('c_parser.py',
         '                    if_true.pop()\n                    if_hit.pop()',
         '                    if_true.pop()'),
    ]),
    ('campaign2: undef always', [
        ('c_parser.py',
         '                elif d == "undef":\n                    if not if_true[-1]:\n                        result.append(new_line)\n                        continue\n',
         '                elif d == "undef":\n'),
    ]),
    ('campaign2: pragma always', [
        ('c_parser.py',
         '                elif d == "pragma":\n                    if not if_true[-1]:\n                        result.append(new_line)\n                        continue\n',
         '                elif d == "pragma":\n'),
    ]),
    ('campaign2: define any', [
        ('c_parser.py',
         '                elif d == "define":\n                    if not if_true[-1]:',
         '                elif d == "define":\n                    if not any(if_true):'),
    ]),
    ('campaign2: text first', [
        ('c_parser.py',
         '                if if_true[-1]:\n                    new_line',
         '                if if_true[0]:\n                    new_line'),
    ]),
    ('campaign2: nested if parents last', [
        ('c_parser.py',
         '                    if all(if_true):\n                        ev = self',
         '                    if all(if_true[1:-1]):\n                        ev = self'),
    ]),
    ('campaign2: ifndef not', [
        ('c_parser.py',
         'rest = "!defined " + rest',
         'rest = "defined " + rest'),
    ]),
    ('campaign2: defined fn macro', [
        ('c_parser.py',
         'return ["0", "1"][is_macro or is_macro_func]',
         'return ["0", "1"][is_macro]'),
    ]),
    ('campaign2: defined inverted', [
        ('c_parser.py',
         'return ["0", "1"][is_macro or is_macro_func]',
         'return ["1", "0"][is_macro or is_macro_func]'),
    ]),
    ('campaign2: elifdef', [
        ('c_parser.py',
         '                if d == "elif":\n                    if if_hit',
         '                if d in ("elif", "else"):\n                    if if_hit'),
    ]),
    ('campaign2: unknown ident 1', [
        ('c_parser.py',
         'setParseAction(lambda: "0")',
         'setParseAction(lambda: "1")'),
    ]),
    ('campaign2: eval error true', [
        ('c_parser.py',
         '            logger.debug(mess.format(expr, repr(expr2), format_exc()))\n            ev = False',
         '            logger.debug(mess.format(expr, repr(expr2), format_exc()))\n            ev = True'),
    ]),
    ('campaign2: line kept if directive in comment', [
        ('c_parser.py',
         '                    if_true.append(ev)\n',
         '                    if_true.append(ev if rest.strip() else True)\n'),
    ]),
]
