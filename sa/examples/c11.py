CP = "c_parser.py"
ADD = '''        self.defs[typ][name] = val
        if self.current_file is None:
            base_name = None
        else:
            base_name = os.path.basename(self.current_file)
        if base_name not in self.file_defs:
            self.file_defs[base_name] = {}
            for k in self.data_list:
                self.file_defs[base_name][k] = {}
        self.file_defs[base_name][typ][name] = val
'''
REM = '''        del self.defs[typ][name]
        for file_def in self.file_defs.values():
            file_def[typ].pop(name, None)
'''
BREAKING = [
    ("direct global", [(CP, '                    self.add_def("values", v.name, i)\n', '                    self.defs["values"][v.name] = i\n')]),
    ("full path", [(CP, "            base_name = os.path.basename(self.current_file)\n", "            base_name = self.current_file\n")]),
    ("splitext", [(CP, "            base_name = os.path.basename(self.current_file)\n", "            base_name = os.path.splitext(os.path.basename(self.current_file))[0]\n")]),
    ("current only", [(CP, REM, '        del self.defs[typ][name]\n        self.file_defs[os.path.basename(self.current_file)][typ].pop(name, None)\n')]),
    ("first only", [(CP, REM, '''        del self.defs[typ][name]
        for file_def in self.file_defs.values():
            if name in file_def[typ]:
                del file_def[typ][name]
                break
''')]),
    ("filter", [(CP, REM, '''        del self.defs[typ][name]
        for f, file_def in self.file_defs.items():
            if f in self.files:
                file_def[typ].pop(name, None)
''')]),
    ("no file removal", [(CP, REM, '        del self.defs[typ][name]\n')]),
    ("no global removal", [(CP, REM, '        for file_def in self.file_defs.values():\n            file_def[typ].pop(name, None)\n')]),
    ("early return", [(CP, "        if base_name not in self.file_defs:\n", "        if base_name is None:\n            return\n        if base_name not in self.file_defs:\n")]),
    ("only if new", [(CP, "        self.file_defs[base_name][typ][name] = val\n", "        if name not in self.file_defs[base_name][typ]:\n            self.file_defs[base_name][typ][name] = val\n")]),
    ("setdefault", [(CP, "        self.file_defs[base_name][typ][name] = val\n", "        self.file_defs[base_name][typ].setdefault(name, val)\n")]),
    ("global once", [(CP, "        self.defs[typ][name] = val\n", "        self.defs[typ].setdefault(name, val)\n")]),
    ("replaced", [(CP, '        for f in data.keys():\n            self.current_file = f\n', '        self.file_defs = dict(data)\n        for f in data.keys():\n            self.current_file = f\n')]),
    ("late file", [(CP, '''        self.current_file = path

        parser = self.build_parser()
        if return_unparsed:
            text = parser.suppress().transformString(self.files[path])
''', '''        parser = self.build_parser()
        if return_unparsed:
            text = parser.suppress().transformString(self.files[path])
            self.current_file = path
'''), (CP, "            return [x[0] for x in parser.scanString(self.files[path])]", "            self.current_file = path\n            return [x[0] for x in parser.scanString(self.files[path])]")]),
    ("not set", [(CP, "        self.build_parser()\n        self.current_file = path\n", "        self.build_parser()\n")]),
    ("copied value", [(CP, "        self.file_defs[base_name][typ][name] = val\n", "        self.file_defs[base_name][typ][name] = str(val)\n")]),
    ("stripped name", [(CP, "        self.file_defs[base_name][typ][name] = val\n", "        self.file_defs[base_name][typ][name.strip()] = val\n")]),
    ("import not set", [(CP, "            self.current_file = f\n            for k in self.data_list:\n", "            for k in self.data_list:\n")]),
    ("import update", [(CP, "                for n in data[f][k]:\n                    self.add_def(k, n, data[f][k][n])\n", "                self.defs[k].update(data[f][k])\n            self.file_defs[f] = data[f]\n")]),
]
PRESERVING = [
    ("setdefault", [(CP, '''        if base_name not in self.file_defs:
            self.file_defs[base_name] = {}
            for k in self.data_list:
                self.file_defs[base_name][k] = {}
''', '''        if base_name not in self.file_defs:
            self.file_defs[base_name] = {k: {} for k in self.data_list}
''')]),
    ("helper", [(CP, ADD, '''        for table in (self.defs, self._file_table()):
            table[typ][name] = val

    def _file_table(self):
        if self.current_file is None:
            base_name = None
        else:
            base_name = os.path.basename(self.current_file)
        if base_name not in self.file_defs:
            self.file_defs[base_name] = {k: {} for k in self.data_list}
        return self.file_defs[base_name]
''')]),
    ("ternary", [(CP, ADD, '''        base_name = (
            None if self.current_file is None else os.path.basename(self.current_file)
        )
        if base_name not in self.file_defs:
            tables = {}
            for k in self.data_list:
                tables[k] = {}
            self.file_defs[base_name] = tables
        self.file_defs[base_name][typ][name] = val
        self.defs[typ][name] = val
''')]),
    ("tables var", [(CP, ADD, '''        cur = self.current_file
        base_name = os.path.basename(cur) if cur is not None else None
        file_def = self.file_defs.get(base_name)
        if file_def is None:
            file_def = self.file_defs[base_name] = {k: {} for k in self.data_list}
        self.defs[typ][name] = val
        file_def[typ][name] = val
''')]),
    ("del loop", [(CP, REM, '''        del self.defs[typ][name]
        for f in self.file_defs:
            if name in self.file_defs[f][typ]:
                del self.file_defs[f][typ][name]
''')]),
    ("del loop 2", [(CP, REM, '''        self.defs[typ].pop(name)
        for f in list(self.file_defs):
            table = self.file_defs[f][typ]
            if name not in table:
                continue
            del table[name]
''')]),
    ("try", [(CP, REM, '''        del self.defs[typ][name]
        for _, file_def in self.file_defs.items():
            try:
                del file_def[typ][name]
            except KeyError:
                pass
''')]),
    ("rem helper", [(CP, REM, '''        del self.defs[typ][name]
        for file_def in self.file_defs.values():
            self._forget(file_def, typ, name)

    def _forget(self, table, typ, name):
        table[typ].pop(name, None)
''')]),
    ("import items", [(CP, '''        for f in data.keys():
            self.current_file = f
            for k in self.data_list:
                for n in data[f][k]:
                    self.add_def(k, n, data[f][k][n])
''', '''        for f, tables in data.items():
            self.current_file = f
            for k in self.data_list:
                for n, v in tables[k].items():
                    self.add_def(k, n, v)
''')]),
    ("file first", [(CP, "        self.build_parser()\n        self.current_file = path\n", "        self.current_file = path\n        self.build_parser()\n")]),
    ("pathlib", [(CP, "            base_name = os.path.basename(self.current_file)\n", "            base_name = os.path.split(self.current_file)[1]\n")]),
]

# campaign2
BREAKING += [
    ('campaign2: shared add', [
        ('c_parser.py',
         '        self.file_defs[base_name][typ][name] = val',
         '        self.file_defs[base_name][typ].setdefault(name, val)'),
    ]),
    ('campaign2: rem current file', [
        ('c_parser.py',
         '        for file_def in self.file_defs.values():\n            file_def[typ].pop(name, None)',
         '        f = self.current_file and os.path.basename(self.current_file)\n        self.file_defs[f][typ].pop(name, None)'),
    ]),
    ('campaign2: rem others', [
        ('c_parser.py',
         '            file_def[typ].pop(name, None)',
         '            if file_def[typ].pop(name, None) is not None:\n                break'),
    ]),
    ('campaign2: import direct', [
        ('c_parser.py',
         '                    self.add_def(k, n, data[f][k][n])',
         '                    if n not in self.defs[k]:\n                        self.add_def(k, n, data[f][k][n])'),
    ]),
    ('campaign2: import no current', [
        ('c_parser.py',
         '            self.current_file = f\n',
         ''),
    ]),
    ('campaign2: enum direct', [
        ('c_parser.py',
         '                    self.add_def("values", v.name, i)',
         '                    self.defs["values"][v.name] = i'),
    ]),
    ('campaign2: parse other file', [
        ('c_parser.py',
         '        self.current_file = path\n\n        parser',
         '        parser'),
    ]),
    ('campaign2: preprocess other file', [
        ('c_parser.py',
         '        self.build_parser()\n        self.current_file = path\n',
         '        self.build_parser()\n'),
    ]),
    ('campaign2: stale current', [
        ('c_parser.py',
         '        self.current_file = None\n\n        # Import extra',
         '        self.current_file = self.file_order[0] if self.file_order else None\n\n        # Import extra'),
    ]),
    ('campaign2: import subset', [
        ('c_parser.py',
         '            for k in self.data_list:\n                for n in data[f][k]:',
         '            for k in self.data_list[:-1]:\n                for n in data[f][k]:'),
    ]),
    ('campaign2: value later', [
        ('c_parser.py',
         '        self.defs[typ][name] = val\n        if self',
         '        self.defs[typ][name] = val\n        if val is None:\n            return\n        if self'),
    ]),
]
