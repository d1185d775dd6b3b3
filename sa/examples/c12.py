BC = "backends/ctypes.py"
CP = "c_parser.py"
PERM = """    for name, ctype in list(CTypesCLibrary._types_.items()):
        for specifiers in permutations(name.split()):
            CTypesCLibrary._types_.setdefault(" ".join(specifiers), ctype)
"""
UPD = "    CTypesCLibrary._types_.update(extra_types)\n"
BREAKING = [
    ("long unsigned", [(BC, '"long unsigned int": c_ulong', '"long unsigned int": c_uint')]),
    ("long", [(BC, '"long": c_long,', '"long": c_int,')]),
    ("signed", [(BC, '"unsigned short int": c_ushort', '"unsigned short int": c_short')]),
    ("ull missing", [(BC, '        "unsigned long long": c_ulonglong,\n', "")]),
    ("ssize", [(BC, '"ssize_t": c_ssize_t', '"ssize_t": c_size_t')]),
    ("time_t", [(BC, '''    if sys.version_info >= (3, 12):
        extra_types["time_t"] = c_time_t
''', "")]),
    ("int64", [(BC, '        extra_types.update(WIN_TYPES)', "        pass")]),
    ("user types", [(BC, UPD, "")]),
    ("user types before", [(BC, UPD, ""), (BC, "    CTypesCLibrary._types_ = {\n", "    CTypesCLibrary._types_.update(extra_types)\n    CTypesCLibrary._types_ = {\n")]),
    ("no permutation", [(BC, PERM, "")]),
    ("permuted before everything", [(BC, PERM, ""), (BC, "    # First load", PERM + "    # First load")]),
    ("permuted key", [(BC, '" ".join(specifiers), ctype', '" ".join(specifiers), c_int')]),
    ("ptr", [(BC, '        "wchar_t": c_wchar_p,', '        "wchar_t": c_char_p,')]),
    ("ptr missing", [(BC, '        "wchar_t": c_wchar_p,\n', "")]),
    ("enum", [(BC, "                cls = c_int\n", "                cls = c_long\n")]),
    ("void", [(BC, "                cls = None\n", "                cls = c_void_p\n")]),
    ("replace", [(CP, '" ".join(w for w in self.type_spec.split() if w != "signed") or "int"',
                  'self.type_spec.replace("signed", "").strip() or "int"')]),
    ("no int", [(CP, 'if w != "signed") or "int"', 'if w != "signed")')]),
    ("new keyword", [(CP, '"wchar_t", "bool", "void"]', '"wchar_t", "bool", "void", "wint_t"]')]),
]
PRESERVING = [
    ("update literal", [(BC, "        extra_types.update(WIN_TYPES)", "        for name in WIN_TYPES:\n            extra_types[name] = WIN_TYPES[name]")]),
    ("ior", [(BC, UPD, "    CTypesCLibrary._types_ |= extra_types\n")]),
    ("loop", [(BC, UPD, "    for k, v in extra_types.items():\n        CTypesCLibrary._types_[k] = v\n")]),
    ("splat", [(BC, '        "ssize_t": c_ssize_t,\n    }\n', '        "ssize_t": c_ssize_t,\n        **extra_types,\n    }\n'),
               (BC, '        extra_types["time_t"] = c_time_t\n', '        CTypesCLibrary._types_["time_t"] = c_time_t\n'),
               (BC, "        extra_types.update(WIN_TYPES)", "        CTypesCLibrary._types_.update(WIN_TYPES)"),
               (BC, UPD, "")]),
    ("local name", [(BC, "    CTypesCLibrary._types_ = {\n", "    types = {\n"), (BC, UPD, "    types.update(extra_types)\n    CTypesCLibrary._types_ = types\n"), (BC, PERM, PERM.replace("CTypesCLibrary._types_", "types"))]),
    ("local name set last", [(BC, "    CTypesCLibrary._types_ = {\n", "    types = {\n"), (BC, UPD, "    types.update(extra_types)\n"), (BC, PERM, PERM.replace("CTypesCLibrary._types_", "types") + "    CTypesCLibrary._types_ = types\n")]),
    ("perm helper", [(BC, PERM, "    _any_order(CTypesCLibrary._types_)\n"), (BC, "def init_clibrary(", '''def _any_order(types):
    for name in list(types):
        ctype = types[name]
        for specifiers in permutations(name.split()):
            types.setdefault(" ".join(specifiers), ctype)


def init_clibrary(''')]),
    ("if not in", [(BC, PERM, '''    for name, ctype in list(CTypesCLibrary._types_.items()):
        for specifiers in permutations(name.split()):
            spelling = " ".join(specifiers)
            if spelling not in CTypesCLibrary._types_:
                CTypesCLibrary._types_[spelling] = ctype
''')]),
    ("perm comp", [(BC, PERM, '''    for name, ctype in list(CTypesCLibrary._types_.items()):
        for spelling in (" ".join(p) for p in permutations(name.split())):
            CTypesCLibrary._types_.setdefault(spelling, ctype)
''')]),
    ("perm comp2", [(BC, PERM, '''    for name, ctype in list(CTypesCLibrary._types_.items()):
        for spelling in map(" ".join, permutations(name.split())):
            CTypesCLibrary._types_.setdefault(spelling, ctype)
''')]),
    ("helper", [(BC, '''    if sys.platform == "win32":
        extra_types.update(WIN_TYPES)

    if sys.version_info >= (3, 12):
        extra_types["time_t"] = c_time_t
''', '''    _platform_types(extra_types)
'''), (BC, "def init_clibrary(", '''def _platform_types(types):
    if sys.platform == "win32":
        types.update(WIN_TYPES)

    if sys.version_info >= (3, 12):
        types["time_t"] = c_time_t


def init_clibrary(''')]),
    ("ctype class", [(BC, '"ssize_t": c_ssize_t,\n    }', '"ssize_t": c_ssize_t,\n        "signed int": c_int,\n    }')]),
    ("uint8", [(BC, '"unsigned char": c_ubyte', '"unsigned char": c_uint8')]),
    ("explicit spelling", [(BC, '        "ssize_t": c_ssize_t,\n', '        "ssize_t": c_ssize_t,\n        "short unsigned int": c_ushort,\n')]),
    ("copy of the argument", [(BC, "    extra_types = dict(extra_types)\n", "    extra_types = extra_types.copy()\n")]),
    ("module table", [(BC, "def init_clibrary(extra_types={}):\n    extra_types = dict(extra_types)\n\n    # First load all standard types\n    CTypesCLibrary._types_ = {", "_EXTRA_BASE = {}\n\n\ndef init_clibrary(extra_types={}):\n    extra_types = dict(extra_types)\n\n    # First load all standard types\n    CTypesCLibrary._types_ = {\n        **_EXTRA_BASE,")]),
    ("signed helper", [(CP, '" ".join(w for w in self.type_spec.split() if w != "signed") or "int"', '_unsign(self.type_spec)'),
                       (CP, "class Type(tuple):", '''def _unsign(spec):
    words = [w for w in spec.split() if w != "signed"]
    if not words:
        return "int"
    return " ".join(words)


class Type(tuple):''')]),
    ("enum2", [(BC, 'elif typ[0][:5] == "enum ":', 'elif typ[0].startswith("enum "):')]),
    ("early return", [(BC, '                and typ[0] in self._ptr_types_\n            ):', '                and typ[0] in self._ptr_types_\n                and True\n            ):')]),
]

# campaign2
BREAKING += [
    ('campaign2: ulong', [
        ('backends/ctypes.py',
         '"long unsigned int": c_ulong',
         '"long unsigned int": c_uint'),
    ]),
    ('campaign2: uchar', [
        ('backends/ctypes.py',
         '"unsigned char": c_ubyte',
         '"unsigned char": c_char'),
    ]),
    ('campaign2: no permutation', [
        ('backends/ctypes.py',
         'for specifiers in permutations(name.split()):',
         'for specifiers in [reversed(name.split())]:'),
    ]),
    ('campaign2: double', [
        ('backends/ctypes.py',
         '"float": c_float',
         '"float": c_double'),
    ]),
    ('campaign2: signed removed all', [
        ('c_parser.py',
         'if w != "signed"',
         'if w not in sign_modifiers'),
    ]),
    ('campaign2: signed int', [
        ('c_parser.py',
         '" ".join(w for w in self.type_spec.split() if w != "signed") or "int"',
         'self.type_spec.replace("signed ", "") or "int"'),
    ]),
    ('campaign2: bare signed', [
        ('c_parser.py',
         ' if w != "signed") or "int"',
         ' if w != "signed") or "unsigned"'),
    ]),
    ('campaign2: ssize', [
        ('backends/ctypes.py',
         '"ssize_t": c_ssize_t',
         '"ssize_t": c_size_t'),
    ]),
    ('campaign2: wchar ptr', [
        ('backends/ctypes.py',
         '"wchar_t": c_wchar_p',
         '"wchar_t": c_char_p'),
    ]),
    ('campaign2: uchar ptr', [
        ('backends/ctypes.py',
         '        "char": c_char_p,',
         '        "char": c_char_p,\n        "unsigned char": c_char_p,'),
    ]),
    ('campaign2: extra ignored', [
        ('backends/ctypes.py',
         'CTypesCLibrary._types_.update(extra_types)',
         'for k, v in extra_types.items():\n        CTypesCLibrary._types_.setdefault(k, v)'),
    ]),
    ('campaign2: enum uint', [
        ('backends/ctypes.py',
         '                cls = c_int\n',
         '                cls = c_uint\n'),
    ]),
    ('campaign2: missing c99', [
        ('c_parser.py',
         '    "int8_t",\n    "uint8_t",',
         '    "uint8_t",'),
        ('backends/ctypes.py',
         '        "uint8_t": c_uint8,\n        "int8_t": c_int8,',
         '        "uint8_t": c_uint8,\n        "int8_t": c_uint8,'),
    ]),
    ('campaign2: longlong', [
        ('backends/ctypes.py',
         '        "unsigned long long int": c_ulonglong,\n',
         ''),
    ]),
]
