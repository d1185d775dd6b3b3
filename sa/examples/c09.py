CP = "c_parser.py"
LOOK = '''        packing = None
        for p in self.pack_list[self.current_file]:
            # Pragmas are recorded with 0-based lines, line is 1-based
            if p[0] < line:
                packing = p[1]
            else:
                break
        return packing
'''
REC = "                    self.pack_list[path].append((i, packing))\n"
CONT = '''                    if not m:
                        result.append(new_line)
                        continue
'''
GATE = '''                    if not if_true[-1]:
                        result.append(new_line)
                        continue
'''
DEF = '                elif d == "define":\n' + GATE
BREAKING = [
    ("le", [(CP, "if p[0] < line:", "if p[0] <= line:")]),
    ("plus one both", [(CP, REC, REC.replace("(i,", "(i + 1,")), (CP, "if p[0] < line:", "if p[0] + 1 < line:")]),
    ("minus", [(CP, REC, REC.replace("(i,", "(i - 1,"))]),
    ("first wins", [(CP, "                packing = p[1]\n            else:\n                break\n", "                packing = p[1]\n                break\n")]),
    ("no compare", [(CP, LOOK, "        return self.pack_list[self.current_file][-1][1]\n")]),
    ("drop line", [(CP, DEF, '                elif d == "define":\n                    if not if_true[-1]:\n                        continue\n')]),
    ("drop line pragma", [(CP, CONT, "                    if not m:\n                        continue\n")]),
    ("blank dropped", [(CP, "            result.append(new_line)\n        self.files", "            if new_line or m is None:\n                result.append(new_line)\n        self.files")]),
    ("stop at end", [(CP, "                    # Ignore any other directives\n", "                    # Ignore any other directives\n                    if d == 'end':\n                        break\n")]),
    ("not reset", [(CP, "        self.pack_list[path] = [(0, None)]\n", "        self.pack_list.setdefault(path, [(0, None)])\n")]),
    ("basename key", [(CP, "self.pack_list[path].append(", "self.pack_list[os.path.basename(path)].append("), (CP, "        self.pack_list[path] = [(0, None)]\n", "        self.pack_list[path] = [(0, None)]\n        self.pack_list[os.path.basename(path)] = [(0, None)]\n")]),
    ("only changes", [(CP, REC, "                    if packing is not None:\n                        self.pack_list[path].append((i, packing))\n")]),
    ("packing lost", [(CP, "str_cls(*struct, pack=packing)", "str_cls(*struct, pack=packing if str_typ == 'struct' else None)")]),
    ("end of struct", [(CP, "self.packing_at(lineno(line, s))", "self.packing_at(lineno(line, s) + len(t.members))")]),
    ("offset as line", [(CP, "self.packing_at(lineno(line, s))", "self.packing_at(line)")]),
    ("strip lines", [(CP, 'lines = text.split("\\n")', 'lines = [x for x in text.split("\\n") if x.strip()]')]),
    ("joined", [(CP, '"\\n".join(result)', '"\\n".join(x for x in result if x)')]),
    ("reverse", [(CP, LOOK, LOOK.replace("            else:\n                break\n", "").replace("in self.pack_list[self.current_file]", "in reversed(self.pack_list[self.current_file])"))]),
]
PRESERVING = [
    ("reverse return", [(CP, LOOK, '''        for start, packing in reversed(self.pack_list[self.current_file]):
            if start < line:
                return packing
        return None
''')]),
    ("no break", [(CP, LOOK, LOOK.replace("            else:\n                break\n", ""))]),
    ("guard break", [(CP, LOOK, '''        current = None
        records = self.pack_list[self.current_file]
        for start, value in records:
            if start >= line:
                break
            current = value
        return current
''')]),
    ("comp", [(CP, LOOK, '''        return [v for n, v in self.pack_list[self.current_file] if n < line][-1]
''')]),
    ("one based", [(CP, REC, REC.replace("(i,", "(i + 1,")), (CP, "if p[0] < line:", "if p[0] <= line:")]),
    ("enumerate 1", [(CP, "for i, line in enumerate(lines):", "for i, line in enumerate(lines, 1):"), (CP, "if p[0] < line:", "if p[0] <= line:")]),
    ("record helper", [(CP, REC, "                    self._record(path, i, packing)\n"), (CP, "    def packing_at(self, line):\n", '''    def _record(self, path, i, packing):
        self.pack_list[path].append((i, packing))

    def packing_at(self, line):
''')]),
    ("records local", [(CP, "        self.pack_list[path] = [(0, None)]\n", "        records = self.pack_list[path] = [(0, None)]\n"), (CP, REC, "                    records.append((i, packing))\n")]),
    ("counter", [(CP, "        for i, line in enumerate(lines):\n", "        i = -1\n        for line in lines:\n            i += 1\n")]),
    ("else append", [(CP, DEF, '''                elif d == "define" and not if_true[-1]:
                    logger.debug("skipped")
                elif d == "define":
''')]),
    ("kw", [(CP, "str_cls(*struct, pack=packing)", "str_cls(*struct, **{'pack': packing})")]),
    ("inline lookup", [(CP, "            packing = self.packing_at(lineno(line, s))\n", "            where = lineno(line, s)\n            packing = self.packing_at(line=where)\n")]),
    ("in place", [(CP, "            result.append(new_line)\n        self.files[path] = \"\\n\".join(result)\n", "            result += [new_line]\n        self.files[path] = \"\\n\".join(result)\n")]),
]

# campaign2
BREAKING += [
    ('campaign2: first le', [
        ('c_parser.py',
         'if p[0] < line:',
         'if p[0] <= line:'),
    ]),
    ('campaign2: no break', [
        ('c_parser.py',
         '            else:\n                break\n        return packing',
         '            else:\n                packing = p[1]\n        return packing'),
    ]),
    ('campaign2: join lines', [
        ('c_parser.py',
         '"\\n".join(result)',
         '"\\n".join(l for l in result if l)'),
    ]),
    ('campaign2: joined lines removed', [
        ('c_parser.py',
         '                    if not m:\n                        result.append(new_line)\n                        continue\n',
         '                    if not m:\n                        continue\n'),
    ]),
    ('campaign2: pack shared', [
        ('c_parser.py',
         'self.pack_list[path] = [(0, None)]',
         'self.pack_list.setdefault(path, [(0, None)])'),
    ]),
    ('campaign2: current file', [
        ('c_parser.py',
         'for p in self.pack_list[self.current_file]:',
         'for p in self.pack_list[self.file_order[-1]]:'),
    ]),
    ('campaign2: inactive pack', [
        ('c_parser.py',
         'self.pack_list[path].append((i, packing))',
         'self.pack_list[path].append((len(result) and i, val))'),
    ]),
    ('campaign2: pack not passed', [
        ('c_parser.py',
         'str_cls(*struct, pack=packing)',
         'str_cls(*struct, pack=packing or None) if struct else str_cls(*struct)'),
    ]),
    ('campaign2: only struct', [
        ('c_parser.py',
         'packing = self.packing_at(lineno(line, s))',
         "packing = self.packing_at(lineno(line, s)) if str_typ == 'struct' else None"),
    ]),
    ('campaign2: location of file', [
        ('c_parser.py',
         'self.packing_at(lineno(line, s))',
         'self.packing_at(lineno(0, s))'),
    ]),
    ('campaign2: multi-line string', [
        ('c_parser.py',
         '        result = []\n\n        directive',
         '        result = []\n        lines = [x for x in lines if x.strip()]\n\n        directive'),
    ]),
    ('campaign2: transform drops', [
        ('c_parser.py',
         '        self.files[path] = "\\n".join(result)',
         '        self.files[path] = "\\n".join(result).lstrip()'),
    ]),
]
