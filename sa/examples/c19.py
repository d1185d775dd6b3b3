CP = "c_parser.py"
BE = "backends/ctypes.py"
LOOP = """        while True:
            m = reg.search(line)
            if not m:
                break
            name = m.groups()[N]
            if name in macros:
                parts.append(line[: m.start(N)])
                line = line[m.end(N) :]
                parts.append(macros[name])

            elif name in fnmacros:
                # If function macro expansion fails, just ignore it.
                try:
                    exp, end = self.expand_fn_macro(name, line[m.end(N) :])
                except Exception:
                    exp = name
                    end = line[m.end(N) :]
                    mess = "Function macro expansion failed: {}, {}\\n {}"
                    logger.error(mess.format(name, line[m.end(N) :], format_exc()))

                parts.append(line[: m.start(N)])
                line = end
                parts.append(exp)

            else:
                start = m.end()
                parts.append(line[:start])
                line = line[start:]

        parts.append(line)
        return "".join(parts)
"""
OBJ = """                line = line[m.end(N) :]
                parts.append(macros[name])
"""
FN = """                line = end
                parts.append(exp)
"""
FAIL = """                    exp = name
                    end = line[m.end(N) :]
"""
ELSE = """                start = m.end()
                parts.append(line[:start])
                line = line[start:]
"""
NEW = """        new_str = defn[0].format(*[args[i] for i in defn[1]])
"""
ARGS = "        args = [self.expand_macros(arg) for arg in args]\n"
RET = "        return (new_str, end)\n"
ENUM = """                n = 0
                while True:
                    name = "anon_enum{}".format(n)
                    if name not in self.defs["enums"]:
                        break
                    n += 1
"""
STRUCT = """                n = 0
                while True:
                    sname = "anon_{}{}".format(str_typ, n)
                    if sname not in self.defs[str_typ + "s"]:
                        break
                    n += 1
"""
MEMB = """                    c = 0
                    while True:
                        name = "anon_member%d" % c
                        if name not in members:
                            d = (name, *d[1:])
                            defs[i] = d
                            # An unnamed bit field is only padding
                            if len(d) < 4:
                                anon.append(name)
                            break
                        c += 1
"""
MODS = """            while len(mods) > 0:
                m = mods.pop(0)
"""
REG = """            # Must register struct here to allow recursive definitions.
            self._structs_[str_name] = s

"""
FIELDS = """                s._fields_ = [(m[0], self._get_type(m[1]), *m[3:]) for m in defs]
"""
GUARD = """        if parent in used:
            m = "Recursive loop while evaluating types. (typedefs are {})"
            raise DefinitionError(m.format(" -> ".join([*used, parent])))

"""
USED = "        used.append(parent)\n"
CEN = """            (n, t, q) = self.process_declarator(decl["center"][0])
"""
BREAKING = [
    ("macro rescanned", [(CP, OBJ, "                line = macros[name] + line[m.end(N) :]\n")]),
    ("macro kept", [(CP, OBJ, OBJ.replace("m.end(N)", "m.start(N)"))]),
    ("fn macro rescanned", [(CP, FN, "                line = exp + end\n")]),
    ("failed fn macro kept", [(CP, FAIL, FAIL.replace("end = line[m.end(N) :]", "end = line[m.start(N) :]"))]),
    ("failed fn macro whole", [(CP, FAIL, FAIL.replace("end = line[m.end(N) :]", "end = line"))]),
    ("other text kept", [(CP, ELSE, ELSE.replace("line = line[start:]", "line = line[m.start() :]"))]),
    ("other text same", [(CP, ELSE, ELSE.replace("                line = line[start:]\n", ""))]),
    ("empty match", [(CP, """r'("(\\\\.|[^"\\\\])*")|(\\b(\\w+)\\b)')
        parts""", """r'("(\\\\.|[^"\\\\])*")|(\\b(\\w*)\\b)')
        parts""")]),
    ("expand again", [(CP, NEW, NEW + "        new_str = self.expand_macros(new_str)\n")]),
    ("expand again inline", [(CP, RET, "        return (self.expand_macros(new_str), end)\n")]),
    ("expand macro value", [(CP, OBJ, OBJ.replace("parts.append(macros[name])", "parts.append(self.expand_macros(macros[name]))"))]),
    ("expand expansion", [(CP, FN, FN.replace("parts.append(exp)", "parts.append(self.expand_macros(exp))"))]),
    ("end longer", [(CP, RET, "        return (\"\", new_str + end)\n")]),
    ("end whole", [(CP, RET, "        return (new_str, text)\n")]),
    ("enum counter", [(CP, ENUM, ENUM.replace("                    n += 1\n", ""))]),
    ("enum reset", [(CP, ENUM, """                while True:
                    n = 0
                    name = "anon_enum{}".format(n)
                    if name not in self.defs["enums"]:
                        break
                    n += 1
""")]),
    ("enum name once", [(CP, ENUM, """                n = 0
                name = "anon_enum{}".format(n)
                while name in self.defs["enums"]:
                    n += 1
""")]),
    ("struct counter", [(CP, STRUCT, STRUCT.replace("                    n += 1\n", ""))]),
    ("struct name fixed", [(CP, STRUCT, STRUCT.replace('"anon_{}{}".format(str_typ, n)', '"anon_{}".format(str_typ)'))]),
    ("member counter", [(BE, MEMB, MEMB.replace("                        c += 1\n", ""))]),
    ("member names added", [(BE, MEMB, MEMB.replace("                        c += 1\n", "                        members.append(\"anon_member%d\" % (c + 1))\n                        c += 1\n"))]),
    ("mods kept", [(BE, MODS, MODS.replace("mods.pop(0)", "mods[0]"))]),
    ("registered late", [(BE, REG, ""), (BE, """            except Exception:
                # Do not keep""", """                self._structs_[str_name] = s
            except Exception:
                # Do not keep""")]),
    ("registered elsewhere", [(BE, REG, "            structs = {}\n            structs[str_name] = s\n"), (BE, """            except Exception:
                # Do not keep""", """                self._structs_[str_name] = s
            except Exception:
                # Do not keep""")]),
    ("no guard", [(CP, GUARD, "")]),
    ("guard of the first", [(CP, GUARD, GUARD.replace("parent in used", "parent in used[:1]"))]),
    ("not recorded", [(CP, USED, "")]),
    ("of itself", [(CP, CEN, CEN.replace('decl["center"][0]', "decl"))]),
    ("list extended", [(BE, """                for m in mods[1:]:
                    if isinstance(seen, list)""", """                for m in mods:
                    mods.append(m)
                    if isinstance(seen, list)""")]),
]
BREAKING += [
    ("grow away", [("c_library.py", """            if ind >= len(arg_list):  #
                arg_list += [None] * (ind - len(arg_list) + 1)
""", """            while len(arg_list) <= ind:
                args = [*args, None]
""")]),
]
PRESERVING = [
    ("match twice", [(CP, "            m = reg.search(line)\n            if not m:\n                break\n            name = m.groups()[N]\n",
                      "            m = reg.search(line)\n            if m is None:\n                break\n            name = m.group(N + 1)\n")]),
    ("walrus", [(CP, """        while True:
            m = reg.search(line)
            if not m:
                break
            name = m.groups()[N]
""", """        while m := reg.search(line):
            name = m.groups()[N]
""")]),
    ("span", [(CP, OBJ, """                _, stop = m.span(N)
                line = line[stop:]
                parts.append(macros[name])
""")]),
    ("rest first", [(CP, "            name = m.groups()[N]\n            if name in macros:\n                parts.append(line[: m.start(N)])\n" + OBJ,
                     "            name = m.groups()[N]\n            rest = line[m.end(N) :]\n            if name in macros:\n                parts.append(line[: m.start(N)])\n                line = rest\n                parts.append(macros[name])\n")]),
    ("position", [(CP, LOOP, """        pos = 0
        while True:
            m = reg.search(line, pos)
            if not m:
                break
            name = m.groups()[N]
            if name in macros:
                parts.append(line[pos : m.start(N)])
                pos = m.end(N)
                parts.append(macros[name])

            elif name in fnmacros:
                # If function macro expansion fails, just ignore it.
                parts.append(line[pos : m.start(N)])
                pos = m.end(N)
                try:
                    exp, end = self.expand_fn_macro(name, line[pos:])
                    pos = len(line) - len(end)
                except Exception:
                    exp = name
                    mess = "Function macro expansion failed: {}, {}\\n {}"
                    logger.error(mess.format(name, line[m.end(N) :], format_exc()))

                parts.append(exp)

            else:
                parts.append(line[pos : m.end()])
                pos = m.end()

        parts.append(line[pos:])
        return "".join(parts)
""")]),
    ("sub", [(CP, ELSE, ELSE.replace("start", "stop"))]),
    ("enum while", [(CP, ENUM, """                n = 0
                name = "anon_enum{}".format(n)
                while name in self.defs["enums"]:
                    n += 1
                    name = "anon_enum{}".format(n)
""")]),
    ("enum while inline", [(CP, ENUM, """                n = 0
                while "anon_enum{}".format(n) in self.defs["enums"]:
                    n += 1
                name = "anon_enum{}".format(n)
""")]),
    ("enum count", [(CP, "import logging\n", "import itertools\nimport logging\n"), (CP, ENUM, """                for n in itertools.count():
                    name = "anon_enum{}".format(n)
                    if name not in self.defs["enums"]:
                        break
""")]),
    ("enum range", [(CP, ENUM, """                for n in range(len(self.defs["enums"]) + 1):
                    name = "anon_enum{}".format(n)
                    if name not in self.defs["enums"]:
                        break
""")]),
    ("enum next", [(CP, "import logging\n", "import itertools\nimport logging\n"), (CP, ENUM, """                name = next(
                    x
                    for x in map("anon_enum{}".format, itertools.count())
                    if x not in self.defs["enums"]
                )
""")]),
    ("enum flag", [(CP, ENUM, """                n = 0
                found = False
                while not found:
                    name = "anon_enum{}".format(n)
                    found = name not in self.defs["enums"]
                    n += 1
""")]),
    ("helper", [(CP, ENUM, """                name = self._free("enums", "anon_enum")
"""), (CP, STRUCT, """                sname = self._free(str_typ + "s", "anon_" + str_typ)
"""), (CP, "    def process_enum(", """    def _free(self, table, prefix):
        n = 0
        while prefix + str(n) in self.defs[table]:
            n += 1
        return prefix + str(n)

    def process_enum(""")]),
    ("member while", [(BE, MEMB, """                    c = 0
                    name = "anon_member%d" % c
                    while name in members:
                        c += 1
                        name = "anon_member%d" % c
                    d = (name, *d[1:])
                    defs[i] = d
                    # An unnamed bit field is only padding
                    if len(d) < 4:
                        anon.append(name)
""")]),
    ("member counter once", [(BE, MEMB, """                    while "anon_member%d" % count in members:
                        count += 1
                    name = "anon_member%d" % count
                    d = (name, *d[1:])
                    defs[i] = d
                    # An unnamed bit field is only padding
                    if len(d) < 4:
                        anon.append(name)
"""), (BE, "            anon = []\n", "            anon = []\n            count = 0\n")]),
    ("while mods", [(BE, "while len(mods) > 0:", "while mods:")]),
    ("while not zero", [(BE, "while len(mods) > 0:", "while len(mods) != 0:")]),
    ("del mods", [(BE, "                m = mods.pop(0)\n", "                m = mods[0]\n                del mods[0]\n")]),
    ("slice mods", [(BE, "                m = mods.pop(0)\n", "                m = mods[0]\n                mods = mods[1:]\n")]),
    ("registered in update", [(BE, REG, "            self._structs_.update({str_name: s})\n\n")]),
    ("registered alias", [(BE, REG, "            structs = self._structs_\n            structs[str_name] = s\n\n")]),
    ("fields loop", [(BE, FIELDS, """                fields = []
                for m in defs:
                    fields.append((m[0], self._get_type(m[1]), *m[3:]))
                s._fields_ = fields
""")]),
    ("args map", [(CP, ARGS, "        args = list(map(self.expand_macros, args))\n")]),
    ("args in format", [(CP, ARGS + NEW, "        new_str = defn[0].format(*[self.expand_macros(args[i]) for i in defn[1]])\n")]),
    ("index end", [(CP, "            args, end = text.split(\")\", 1)\n", "            args, _, end = text.partition(\")\")\n")]),
    ("guard set", [(CP, GUARD, GUARD.replace("parent in used", "parent in set(used)"))]),
    ("used copy", [(CP, USED, "        used = [*used, parent]\n")]),
    ("center var", [(CP, CEN, """            center = decl["center"]
            (n, t, q) = self.process_declarator(center[0])
""")]),
    ("grow", [("c_library.py", """            if ind >= len(arg_list):  #
                arg_list += [None] * (ind - len(arg_list) + 1)
""", """            while len(arg_list) <= ind:
                arg_list.append(None)
""")]),
    ("read", [(CP, "        return \"\".join(parts)\n", """        import io

        out = io.StringIO("".join(parts))
        got = []
        while True:
            chunk = out.read(1000)
            if not chunk:
                break
            got.append(chunk)
        return "".join(got)
""")]),
]
