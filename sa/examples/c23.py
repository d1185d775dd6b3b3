CP = "c_parser.py"
LOOP = '''        reg = re.compile(r'("(\\\\.|[^"\\\\])*")|(\\b(\\w+)\\b)')
        parts = []
        # The group number to check for macro names
        N = 3
        macros = self.defs["macros"]
        fnmacros = self.defs["fnmacros"]
        while True:
            m = reg.search(line)
            if not m:
                break
            name = m.groups()[N]
            if name in macros:
                parts.append(line[: m.start(N)])
                line = line[m.end(N) :]
                parts.append(macros[name])

            elif name in fnmacros:
                # If function macro expansion fails, just ignore it.
                try:
                    exp, end = self.expand_fn_macro(name, line[m.end(N) :])
                except Exception:
                    exp = name
                    end = line[m.end(N) :]
                    mess = "Function macro expansion failed: {}, {}\\n {}"
                    logger.error(mess.format(name, line[m.end(N) :], format_exc()))

                parts.append(line[: m.start(N)])
                line = end
                parts.append(exp)

            else:
                start = m.end()
                parts.append(line[:start])
                line = line[start:]

        parts.append(line)
        return "".join(parts)
'''
REG = '''        reg = re.compile(r'("(\\\\.|[^"\\\\])*")|(\\b(\\w+)\\b)')
'''
COMP = '''        args_str = "|".join(args)
        arg_regex = re.compile(r'("(\\\\.|[^"\\\\])*")|(\\b({})\\b)'.format(args_str))
        # The result is a format string, in which braces have to be doubled.
        escape = lambda s: s.replace("{", "{{").replace("}", "}}")  # noqa
        start = 0
        parts = []
        arg_order = []
        # The group number to check for macro names
        N = 3
        for m in arg_regex.finditer(text):
            arg = m.groups()[N]
            if arg is not None:
                parts.append(escape(text[start : m.start(N)]) + "{}")
                start = m.end(N)
                arg_order.append(args.index(arg))
        parts.append(escape(text[start:]))
        return ("".join(parts), arg_order)
'''
CALL = '''        try:
            args, end = text.split(")", 1)
            _, args = args.split("(", 1)
            args = [a.strip() for a in args.split(",")]
        except Exception:
            mess = "Function macro {} argument analysis failed :\\n{}"
            raise DefinitionError(0, mess.format(name, format_exc()))

        args = [self.expand_macros(arg) for arg in args]
        new_str = defn[0].format(*[args[i] for i in defn[1]])

        return (new_str, end)
'''
UND = '''                    for kind in ("macros", "fnmacros"):
                        try:
'''
DEFN = '''        macro_val = t.value.strip()
        if macro_val in self.defs["fnmacros"]:
            self.add_def("fnmacros", t.macro, self.defs["fnmacros"][macro_val])
'''
MAC = '''                parts.append(line[: m.start(N)])
                line = line[m.end(N) :]
                parts.append(macros[name])
'''

BREAKING = [
    ("replacement scanned again", [(CP, MAC, '''                parts.append(line[: m.start(N)])
                line = macros[name] + line[m.end(N) :]
''')]),
    ("text before lost", [(CP, MAC, MAC.replace("                parts.append(line[: m.start(N)])\n", ""))]),
    ("order of the pieces", [(CP, MAC, '''                parts.append(macros[name])
                parts.append(line[: m.start(N)])
                line = line[m.end(N) :]
''')]),
    ("name kept", [(CP, MAC, MAC.replace("line[: m.start(N)]", "line[: m.end(N)]"))]),
    ("character lost", [(CP, MAC, MAC.replace("line[m.end(N) :]", "line[m.end(N) + 1 :]"))]),
    ("value instead of text", [(CP, MAC, MAC.replace("macros[name]", 'str(self.defs["values"][name])'))]),
    ("expansion of the replacement", [(CP, MAC, MAC.replace("parts.append(macros[name])", "parts.append(self.expand_macros(macros[name]))"))]),
    ("strings not skipped", [(CP, REG, "        reg = re.compile(r'(((\\b(\\w+)\\b)))')\n")]),
    ("escapes in strings", [(CP, REG, REG.replace('(\\\\.|[^"\\\\])', '([^"])'))]),
    ("strings ending with a backslash", [(CP, REG, REG.replace('("(\\\\.|[^"\\\\])*")', '("(\\\\"|[^"])*")'))]),
    ("parts of names", [(CP, REG, REG.replace("\\b(\\w+)\\b", "()([a-zA-Z]+)").replace("(()", "("))]),
    ("no digits in names", [(CP, REG, REG.replace("(\\w+)", "([a-zA-Z_]+)"))]),
    ("upper case names only", [(CP, REG, REG.replace("(\\w+)", "([A-Z_][A-Z0-9_]*)"))]),
    ("group of the string", [(CP, "                start = m.end()\n                parts.append(line[:start])", "                start = m.end(N)\n                parts.append(line[:start])")]),
    ("other names lost", [(CP, "                start = m.end()\n                parts.append(line[:start])", "                start = m.end()\n                parts.append(line[: m.start()])")]),
    ("faulty call loses its name", [(CP, "                    exp = name\n", "                    exp = \"\"\n")]),
    ("faulty call loses the line", [(CP, "                    exp = name\n                    end = line[m.end(N) :]", "                    exp = name\n                    end = \"\"")]),
    ("faulty call stops", [(CP, "                    exp = name\n                    end = line[m.end(N) :]", "                    break")]),
    ("end lost", [(CP, '        parts.append(line)\n        return "".join(parts)', '        return "".join(parts)')]),
    ("joined by blanks", [(CP, '        parts.append(line)\n        return "".join(parts)', '        parts.append(line)\n        return " ".join(parts)')]),
    ("braces not escaped", [(CP, COMP, COMP.replace('.replace("{", "{{").replace("}", "}}")', '.replace("{", "{{")'))]),
    ("braces of the end not escaped", [(CP, COMP, COMP.replace("parts.append(escape(text[start:]))", "parts.append(text[start:])"))]),
    ("order of appearance", [(CP, COMP, COMP.replace("args.index(arg)", "len(arg_order)"))]),
    ("end of the text lost", [(CP, COMP, COMP.replace("        parts.append(escape(text[start:]))\n", ""))]),
    ("prefix of parameters", [(CP, COMP, COMP.replace("(\\b({})\\b)", "(\\b({}))"))]),
    ("parameters in strings", [(CP, COMP, COMP.replace('("(\\\\.|[^"\\\\])*")|(\\b({})', '((~~))|(\\b({})'))]),
    ("start not moved", [(CP, COMP, COMP.replace("start = m.end(N)", "start = m.start(N)"))]),
    ("arguments in order of the call", [(CP, CALL, CALL.replace("*[args[i] for i in defn[1]]", "*args"))]),
    ("arguments not expanded", [(CP, CALL, CALL.replace("        args = [self.expand_macros(arg) for arg in args]\n", ""))]),
    ("last parenthesis", [(CP, CALL, CALL.replace('text.split(")", 1)', 'text.rsplit(")", 1)'))]),
    ("arguments sorted", [(CP, CALL, CALL.replace("for arg in args]", "for arg in sorted(args)]"))]),
    ("two arguments", [(CP, CALL, CALL.replace('args.split(",")', 'args.split(",", 1)'))]),
    ("rest of the line lost", [(CP, CALL, CALL.replace("return (new_str, end)", 'return (new_str, "")'))]),
    ("undef keeps functions", [(CP, UND, UND.replace('("macros", "fnmacros")', '("macros",)'))]),
    ("undef keeps objects", [(CP, UND, UND.replace('("macros", "fnmacros")', '("fnmacros",)'))]),
    ("alias of the alias", [(CP, DEFN, DEFN.replace('self.defs["fnmacros"][macro_val])', 'self.compile_fn_macro(macro_val, []))'))]),
    ("registered under the value", [(CP, DEFN, DEFN.replace('"fnmacros", t.macro,', '"fnmacros", macro_val,'))]),
    ("value registered", [(CP, 'self.add_def("macros", t.macro, macro_val)', 'self.add_def("macros", t.macro, str(val))')]),
    ("parameters sorted", [(CP, "self.compile_fn_macro(macro_val, list(t.args))", "self.compile_fn_macro(macro_val, sorted(t.args))")]),
    ("parameters as a set", [(CP, "self.compile_fn_macro(macro_val, list(t.args))", "self.compile_fn_macro(macro_val, list(set(t.args)))")]),
    ("case of the macro", [(CP, 'self.add_def("macros", t.macro, macro_val)', 'self.add_def("macros", t.macro.upper(), macro_val)')]),
    ("macros with one parameter as objects", [(CP, '            if t.args == "":\n', '            if len(t.args) < 2:\n')]),
    ("text upper", [(CP, "                    new_line = self.expand_macros(line)", "                    new_line = self.expand_macros(line.strip())")]),
]

PRESERVING = [
    ("group method", [(CP, LOOP, LOOP.replace("m.groups()[N]", "m.group(N + 1)"))]),
    ("whole span", [(CP, MAC, MAC.replace("m.start(N)", "m.start()").replace("m.end(N)", "m.end()"))]),
    ("string accumulated", [(CP, LOOP, LOOP.replace("        parts = []\n", '        out = ""\n').replace("parts.append(", "out += (").replace('return "".join(parts)', "return out"))]),
    ("remaining text in a variable", [(CP, LOOP, LOOP.replace("            name = m.groups()[N]\n", "            name = m.groups()[N]\n            before, after = line[: m.start()], line[m.end() :]\n")
     .replace('''                parts.append(line[: m.start(N)])
                line = line[m.end(N) :]
                parts.append(macros[name])
''', '''                parts.append(before + macros[name])
                line = after
''').replace("self.expand_fn_macro(name, line[m.end(N) :])", "self.expand_fn_macro(name, after)").replace("end = line[m.end(N) :]", "end = after"))]),
    ("walrus", [(CP, LOOP, LOOP.replace('''        while True:
            m = reg.search(line)
            if not m:
                break
''', '''        while (m := reg.search(line)) is not None:
'''))]),
    ("loop with a search at both ends", [(CP, LOOP, LOOP.replace('''        while True:
            m = reg.search(line)
            if not m:
                break
''', '''        m = reg.search(line)
        while m:
''').replace('''        parts.append(line)
        return''', '''            m = reg.search(line)

        parts.append(line)
        return'''))]),
    ("fn helper", [(CP, LOOP, LOOP.replace('''                try:
                    exp, end = self.expand_fn_macro(name, line[m.end(N) :])
                except Exception:
                    exp = name
                    end = line[m.end(N) :]
                    mess = "Function macro expansion failed: {}, {}\\n {}"
                    logger.error(mess.format(name, line[m.end(N) :], format_exc()))

''', "                exp, end = self._try_fn_macro(name, line[m.end(N) :])\n") + '''
    def _try_fn_macro(self, name, rest):
        try:
            return self.expand_fn_macro(name, rest)
        except Exception:
            mess = "Function macro expansion failed: {}, {}\\n {}"
            logger.error(mess.format(name, rest, format_exc()))
            return name, rest
''')]),
    ("module pattern", [(CP, REG, "        reg = _TOKENS\n"), (CP, "class CParser(", '''_TOKENS = re.compile(r'("(\\\\.|[^"\\\\])*")|(\\b(\\w+)\\b)')


class CParser(''')]),
    ("escape function", [(CP, COMP, COMP.replace('        escape = lambda s: s.replace("{", "{{").replace("}", "}}")  # noqa\n', '''        def escape(s):
            return s.replace("}", "}}").replace("{", "{{")

'''))]),
    ("start called pos", [(CP, COMP, COMP.replace("start = 0", "pos = 0").replace("text[start", "text[pos").replace("                start =", "                pos ="))]),
    ("guard clause", [(CP, COMP, COMP.replace('''            if arg is not None:
                parts.append(escape(text[start : m.start(N)]) + "{}")
                start = m.end(N)
                arg_order.append(args.index(arg))
''', '''            if arg is None:
                continue
            arg_order.append(args.index(arg))
            before = text[start : m.start(N)]
            parts.append(escape(before) + "{}")
            start = m.end(N)
'''))]),
    ("two appends", [(CP, COMP, COMP.replace('''                parts.append(escape(text[start : m.start(N)]) + "{}")
''', '''                parts.append(escape(text[start : m.start(N)]))
                parts.append("{}")
'''))]),
    ("partition", [(CP, CALL, CALL.replace('''            args, end = text.split(")", 1)
            _, args = args.split("(", 1)
''', '''            if ")" not in text or "(" not in text.split(")", 1)[0]:
                raise ValueError(text)
            args, _, end = text.partition(")")
            args = args.partition("(")[2]
'''))]),
    ("one comprehension", [(CP, CALL, CALL.replace('''            args = [a.strip() for a in args.split(",")]
''', '''            args = args.split(",")
''').replace("[self.expand_macros(arg) for arg in args]", "[self.expand_macros(arg.strip()) for arg in args]"))]),
    ("template unpacked", [(CP, CALL, CALL.replace('''        new_str = defn[0].format(*[args[i] for i in defn[1]])
''', '''        template, order = defn
        new_str = template.format(*[args[i] for i in order])
'''))]),
    ("generator", [(CP, CALL, CALL.replace("*[args[i] for i in defn[1]]", "*(args[i] for i in defn[1])"))]),
    ("undef unrolled", [(CP, UND, UND.replace('("macros", "fnmacros")', '("fnmacros", "macros")'))]),
    ("early alias", [(CP, "        macro_val = t.value.strip()\n", "        macro_name = t.macro\n        macro_val = t.value.strip()\n"), (CP, 'self.add_def("macros", t.macro, macro_val)', 'self.add_def("macros", macro_name, macro_val)')]),
    ("parameters tested by truth", [(CP, '            if t.args == "":\n', '            if not t.args:\n')]),
]
