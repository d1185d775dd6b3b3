IN = "init.py"
CP = "c_parser.py"
GUARD = """    if CParser._init or CLibrary._init:
        raise RuntimeError("Can only initialise the parser once")

"""
FLAGS = """    CParser._init = True
    CLibrary._init = True
"""
CALLS = """    _init_cparser(extra_types.keys(), extra_modifiers)
    init_libraries(extra_types)

"""
DEF = """    extra_types = extra_types if extra_types else {}
    extra_modifiers = extra_modifiers if extra_modifiers else []

    _init"""
AUTO = """        if not self._init:
            logger.info("Automatic initialisation based on OS detection")
            from .init import auto_init

            auto_init()

"""
BREAKING = [
    ("no guard", [(IN, GUARD, "")]),
    ("and", [(IN, "if CParser._init or CLibrary._init", "if CParser._init and CLibrary._init")]),
    ("only with types", [(IN, "if CParser._init or CLibrary._init:", "if (CParser._init or CLibrary._init) and extra_types:")]),
    ("warns", [(IN, "        raise RuntimeError(", "        print(")]),
    ("flag first", [(IN, FLAGS, ""), (IN, CALLS, FLAGS + CALLS)]),
    ("flag between", [(IN, "    CParser._init = True\n", ""), (IN, "    init_libraries(extra_types)\n", "    CParser._init = True\n    init_libraries(extra_types)\n")]),
    ("flag in finally", [(IN, CALLS + FLAGS, "    try:\n        _init_cparser(extra_types.keys(), extra_modifiers)\n        init_libraries(extra_types)\n    finally:\n        CParser._init = True\n        CLibrary._init = True\n")]),
    ("library not flagged", [(IN, "    CLibrary._init = True\n", "")]),
    ("effects before guard", [(IN, GUARD + DEF, DEF.replace("    _init", "    _init_cparser(extra_types.keys(), extra_modifiers)\n" + GUARD + "    _init"))]),
    ("no modifiers", [(IN, "_init_cparser(extra_types.keys(), extra_modifiers)", "_init_cparser(extra_types.keys())")]),
    ("no types in the backend", [(IN, "init_libraries(extra_types)", "init_libraries({})")]),
    ("backend drops", [("backends/__init__.py", "c_init(extra_types)", "c_init({})")]),
    ("auto only os", [(IN, 'if os == "win32" or sys.platform == "win32":', 'if os == "win32":')]),
    ("auto always", [(IN, '    if os == "win32" or sys.platform == "win32":\n        extra_types.update(WIN_TYPES)\n', '    extra_types.update(WIN_TYPES)\n    if os == "win32" or sys.platform == "win32":\n')]),
    ("auto drops types", [(IN, "extra_types = dict(extra_types) if extra_types else {}", "extra_types = {}")]),
    ("auto drops modifiers on windows", [(IN, "extra_modifiers += WIN_MODIFIERS", "extra_modifiers = list(WIN_MODIFIERS)")]),
    ("parser does not init", [(CP, AUTO, "")]),
    ("parser inits late", [(CP, AUTO, ""), (CP, "        if process_all:\n            self.process_all(cache", AUTO + "        if process_all:\n            self.process_all(cache")]),
    ("parser inits with files only", [(CP, "        if not self._init:\n", "        if not self._init and files:\n")]),
    ("parser always inits", [(CP, "        if not self._init:\n", "        if True:\n")]),
    ("swallow", [(IN, CALLS, "    try:\n        _init_cparser(extra_types.keys(), extra_modifiers)\n        init_libraries(extra_types)\n    except KeyError:\n        pass\n")]),
    ("reset flag elsewhere", [(CP, "    def process_all(\n", "    def reset(self):\n        type(self)._init = False\n\n    def process_all(\n")]),
    ("reinstall elsewhere", [(CP, "        self.data_list = [\n", "        if encoding != 'utf-8':\n            _init_cparser()\n        self.data_list = [\n")]),
    ("initially set", [(CP, "    _init = False\n\n    def __init__(", "    _init = True\n\n    def __init__(")]),
]
PRESERVING = [
    ("two ifs", [(IN, GUARD, """    if CParser._init:
        raise RuntimeError("Can only initialise the parser once")
    if CLibrary._init:
        raise RuntimeError("Can only initialise the parser once")
""")]),
    ("helper guard", [(IN, GUARD, "    _check_once()\n"), (IN, "def init(", """def _check_once():
    if CParser._init or CLibrary._init:
        raise RuntimeError("Can only initialise the parser once")


def init(""")]),
    ("helper flags", [(IN, FLAGS, "    _mark()\n"), (IN, "def init(", "def _mark():\n    for cls in (CParser, CLibrary):\n        cls._init = True\n\n\ndef init(")]),
    ("else", [(IN, GUARD + DEF.replace("    _init", "") + CALLS + FLAGS, """    if not (CParser._init or CLibrary._init):
        types = extra_types or {}
        _init_cparser(list(types), extra_modifiers or [])
        init_libraries(types)

        CLibrary._init = CParser._init = True
    else:
        raise RuntimeError("Can only initialise the parser once")
""")]),
    ("any", [(IN, "if CParser._init or CLibrary._init:", "if True in (CParser._init, CLibrary._init) or CParser._init or CLibrary._init:")]),
    ("auto in", [(IN, 'if os == "win32" or sys.platform == "win32":', 'if "win32" in (os, sys.platform):')]),
    ("auto merge", [(IN, "extra_types.update(WIN_TYPES)", "extra_types = {**extra_types, **WIN_TYPES}")]),
    ("auto extend", [(IN, "extra_modifiers += WIN_MODIFIERS", "extra_modifiers.extend(WIN_MODIFIERS)")]),
    ("keywords", [(IN, "    init(extra_types, extra_modifiers)", "    init(extra_modifiers=extra_modifiers, extra_types=extra_types)")]),
    ("class flag", [(CP, "        if not self._init:\n", "        if not CParser._init:\n")]),
    ("helper in parser", [(CP, AUTO, "        self._ensure_init()\n"), (CP, "    def process_all(\n", """    def _ensure_init(self):
        if self._init:
            return
        from .init import auto_init

        auto_init()

    def process_all(
""")]),
]

# campaign2
BREAKING += [
    ('campaign2: flag first', [
        ('init.py',
         '    _init_cparser(extra_types.keys(), extra_modifiers)\n    init_libraries(extra_types)\n\n    CParser._init = True\n    CLibrary._init = True',
         '    CParser._init = True\n    CLibrary._init = True\n    _init_cparser(extra_types.keys(), extra_modifiers)\n    init_libraries(extra_types)'),
    ]),
    ('campaign2: and', [
        ('init.py',
         'if CParser._init or CLibrary._init:',
         'if CParser._init and CLibrary._init:'),
    ]),
    ('campaign2: types not given', [
        ('init.py',
         'init_libraries(extra_types)',
         'init_libraries({})'),
    ]),
    ('campaign2: modifiers dropped', [
        ('init.py',
         '    init(extra_types, extra_modifiers)',
         '    init(extra_types)'),
    ]),
    ('campaign2: not auto', [
        ('c_parser.py',
         '        if not self._init:\n            logger.info("Automatic initialisation based',
         '        if not self._init and files:\n            logger.info("Automatic initialisation based'),
    ]),
    ('campaign2: instance flag', [
        ('init.py',
         '    CParser._init = True\n',
         '    CParser._init = bool(extra_types) or True and not extra_modifiers\n'),
    ]),
    ('campaign2: modifiers replaced', [
        ('init.py',
         'extra_modifiers += WIN_MODIFIERS',
         'extra_modifiers = list(WIN_MODIFIERS)'),
    ]),
    ('campaign2: keyword partial', [
        ('c_parser.py',
         'base_types = nonnum_types + num_types + extra_type_list',
         'base_types = nonnum_types + num_types'),
    ]),
]
