BT = "backends/ctypes.py"
CL = "c_library.py"
CP = "c_parser.py"
UT = "utils.py"
IN = "init.py"

BREAKING = [
    ("find_header extends dirs", [(UT, "dirs = list(dirs) + HEADER_DIRS[::-1]", "dirs.extend(HEADER_DIRS[::-1])")]),
    ("find_header global", [(UT, "        dirs = HEADER_DIRS[::-1]\n", "        dirs = HEADER_DIRS\n")]),
    ("aug dirs", [(UT, "dirs = list(dirs) + LIBRARY_DIRS[::-1]", "dirs += LIBRARY_DIRS[::-1]")]),
    ("auto_init no copy", [(IN, "extra_types = dict(extra_types) if extra_types else {}", "extra_types = extra_types if extra_types else {}")]),
    ("init_clibrary no copy", [(BT, "    extra_types = dict(extra_types)\n", "")]),
    ("files normalised in place", [(CP, "            for f in self.find_headers(files):", "            for i, f in enumerate(files):\n                files[i] = os.path.normpath(f)\n            for f in self.find_headers(files):")]),
    ("replace popped", [(CP, "self.files[path] = re.sub(s, replace[s], self.files[path])", "self.files[path] = re.sub(s, replace.pop(s), self.files[path])")]),
    ("kwargs not copied, value", [(CP, "            for k in kwargs[t].keys():\n", "            kwargs[t].setdefault('NULL', '0')\n            for k in kwargs[t].keys():\n")]),
    ("init_opts replace aliasing", [(CP, 'self.init_opts["replace"] = {}', 'self.init_opts["replace"] = replace or {}')]),
    ("copy_from shared tables", [(CP, "                self.import_dict(p.file_defs)", "                self.file_defs.update(p.file_defs)")]),
    ("prefix list", [(CL, "self._prefix_ = prefix\n", "self._prefix_ = prefix\n            self._prefix_.sort()\n")]),
    ("import dict pop", [(CP, "        for f in data.keys():\n", "        for f in list(data.keys()):\n            data.pop(None, None)\n")]),
    ("struct values changed", [(CP, "self.add_def(\"enums\", name, enum)", "self.defs['enums'].setdefault(name, enum)['x'] = 1\n                self.add_def(\"enums\", name, enum)")]),
]
PRESERVING = [
    ("star", [(UT, "dirs = list(dirs) + HEADER_DIRS[::-1]", "dirs = [*dirs, *reversed(HEADER_DIRS)]")]),
    ("dict merge", [(IN, "extra_types = dict(extra_types) if extra_types else {}", "extra_types = {**(extra_types or {})}")]),
    ("helper copy", [(IN, "def auto_init(", "def _own(x):\n    return dict(x or {})\n\n\ndef auto_init("), (IN, "extra_types = dict(extra_types) if extra_types else {}", "extra_types = _own(extra_types)")]),
    ("table const", [(BT, "    extra_types = dict(extra_types)\n", "    extra_types = {k: v for k, v in extra_types.items()}\n")]),
]

# campaign1
BREAKING += [
    ('campaign1: prefix insert later', [
        ('c_library.py',
         'return [name] + [p + name for p in self._prefix_]',
         "self._prefix_.insert(0, '')\n        return [p + name for p in self._prefix_]"),
    ]),
    ('campaign1: headers sorted', [
        ('c_library.py',
         'return CParser(headers, **kwargs)',
         'headers.sort()\n        return CParser(headers, **kwargs)'),
    ]),
    ('campaign1: vals padded', [
        ('backends/ctypes.py',
         '        if vals:\n            return new',
         '        if vals:\n            vals.extend([0])\n            vals.pop()\n            return new'),
    ]),
    ('campaign1: dir_list filtered', [
        ('utils.py',
         '    HEADER_DIRS.extend(dirs)',
         '    dir_list[:] = dirs\n    HEADER_DIRS.extend(dirs)'),
    ]),
    ('campaign1: copy_from', [
        ('c_parser.py',
         '            for p in copy_from:\n',
         '            while copy_from:\n                p = copy_from.pop(0)\n'),
    ]),
    ('campaign1: kwargs nested', [
        ('c_parser.py',
         '            for k in kwargs[t].keys():\n                self.add_def(t, k, kwargs[t][k])',
         '            for k in list(kwargs[t].keys()):\n                self.add_def(t, k, kwargs[t].pop(k))'),
    ]),
    ('campaign1: values shared', [
        ('c_parser.py',
         '        for t in kwargs:\n            for k',
         '        for t in kwargs:\n            self.defs[t] = kwargs[t]\n            for k'),
    ]),
    ('campaign1: init modifiers', [
        ('init.py',
         'extra_modifiers = extra_modifiers if extra_modifiers else []',
         "extra_modifiers = extra_modifiers if extra_modifiers else []\n    extra_modifiers.append('__extension__')"),
    ]),
    ('campaign1: parser from copied', [
        ('c_parser.py',
         'self.init_opts["copy_from"] = [p.file_defs for p in copy_from]',
         'self.init_opts["copy_from"] = [p.file_defs for p in copy_from]\n            for p in copy_from:\n                p.current_file = None'),
    ]),
    ('campaign1: type list', [
        ('c_parser.py',
         '        if not isinstance(typ, Type):\n            typ = Type(*typ)\n',
         '        if not isinstance(typ, Type):\n            if isinstance(typ, list):\n                typ[0] = typ[0].strip()\n            typ = Type(*typ)\n'),
    ]),
    ('campaign1: opts replace setdefault', [
        ('c_parser.py',
         '        self.init_opts["replace"][bn] = replace\n',
         '        self.init_opts["replace"][bn] = replace\n        if replace:\n            replace.setdefault("", "")\n'),
    ]),
    ('campaign1: call result list', [
        ('c_library.py',
         '        for i in range(len(args)):\n            if args[i] is None:',
         '        for i in range(len(args)):\n            if isinstance(args[i], list):\n                args[i].append(0)\n            if args[i] is None:'),
    ]),
    ('campaign1: find_library adds dirs', [
        ('utils.py',
         '        path = os.path.join(d, name)\n        if os.path.isfile(path):\n            return LibraryPath(path)',
         '        path = os.path.join(d, name)\n        if os.path.isfile(path):\n            LIBRARY_DIRS.append(d)\n            return LibraryPath(path)'),
    ]),
]
