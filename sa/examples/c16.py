CL = "c_library.py"
UT = "utils.py"
CHK = """            if lib_arch and py_bitness not in lib_arch:
                raise OSError("Library bitness does not match Python's")
"""
ARCH = """            try:
                self._arch = get_arch(self.path)
            except Exception:
                self._arch = ()
"""
BREAKING = [
    ("no check", [(CL, CHK, "")]),
    ("only logs", [(CL, "                raise OSError(\"Library bitness", "                logger.warning(\"Library bitness")]),
    ("unconditional maxsize", [(CL, "py_bitness = 64 if sys.maxsize > 2**32 else 32", "py_bitness = 64")]),
    ("swapped", [(CL, "py_bitness = 64 if sys.maxsize > 2**32 else 32", "py_bitness = 32 if sys.maxsize > 2**32 else 64")]),
    ("any of", [(CL, "if lib_arch and py_bitness not in lib_arch:", "if len(lib_arch) > 1 and py_bitness not in lib_arch:")]),
    ("only named", [(CL, "            lib_arch = LibraryPath(lib_path).arch\n", "            lib_arch = LibraryPath(lib_path).arch if os.sep not in lib else ()\n")]),
    ("checks the python library", [(CL, "LibraryPath(lib_path).arch", "LibraryPath(sys.executable).arch")]),
    ("swap words", [(UT, """        if "32-bit" in out:
            ret.append(32)
        if "64-bit" in out:
            ret.append(64)""", """        if "32-bit" in out:
            ret.append(64)
        if "64-bit" in out:
            ret.append(32)""")]),
    ("elif", [(UT, """            ret.append(32)
        if "64-bit" in out:""", """            ret.append(32)
        else:""")]),
    ("ia64 32", [(UT, """        if machine_type == "I386":
            return (32,)
        elif machine_type in ("IA64", "AMD64"):""", """        if machine_type in ("I386", "IA64"):
            return (32,)
        elif machine_type == "AMD64":""")]),
    ("code", [(UT, '0x8664: "AMD64"', '0x8665: "AMD64"')]),
    ("arch error escapes", [(UT, ARCH, "            self._arch = get_arch(self.path)\n")]),
    ("wrong file", [(UT, "get_arch(self.path)", "get_arch(sys.executable)")]),
    ("only windows", [(CL, "if lib_arch and py_bitness", "if sys.platform == 'win32' and lib_arch and py_bitness")]),
    ("first only", [(CL, "py_bitness not in lib_arch", "py_bitness < lib_arch[0]")]),
]
PRESERVING = [
    ("calcsize", [(CL, "py_bitness = 64 if sys.maxsize > 2**32 else 32", "py_bitness = struct.calcsize('P') * 8"), (CL, "import sys\n", "import struct\nimport sys\n")]),
    ("helper", [(CL, CHK, "            cls._check_arch(lib_arch, py_bitness)\n"), (CL, "    def __call__(cls, lib, *args, **kwargs):\n", """    @staticmethod
    def _check_arch(lib_arch, bits):
        if lib_arch and bits not in lib_arch:
            raise OSError("Library bitness does not match Python's")

    def __call__(cls, lib, *args, **kwargs):
""")]),
    ("module helper", [(CL, "            py_bitness = 64 if sys.maxsize > 2**32 else 32\n" , "            py_bitness = _bitness()\n"), (CL, "class CLibraryMeta", "def _bitness():\n    return 64 if sys.maxsize > 2**32 else 32\n\n\nclass CLibraryMeta")]),
    ("nested if", [(CL, CHK, """            if lib_arch:
                if py_bitness not in lib_arch:
                    raise OSError("Library bitness does not match Python's")
""")]),
    ("len", [(CL, "if lib_arch and py", "if len(lib_arch) > 0 and py")]),
    ("maxsize else", [(CL, "py_bitness = 64 if sys.maxsize > 2**32 else 32", "py_bitness = 32 if sys.maxsize <= 2**32 else 64")]),
    ("table", [(UT, """        if machine_type == "I386":
            return (32,)
        elif machine_type in ("IA64", "AMD64"):
            return (64,)
        else:
            return ()""", """        return {"I386": (32,), "IA64": (64,), "AMD64": (64,)}.get(machine_type, ())""")]),
    ("loop words", [(UT, """        if "32-bit" in out:
            ret.append(32)
        if "64-bit" in out:
            ret.append(64)""", """        for word, bits in (("32-bit", 32), ("64-bit", 64)):
            if word in out:
                ret.append(bits)""")]),
    ("arch property", [(UT, "        if self._arch is None:\n" + ARCH + "\n        return self._arch\n", """        if self._arch is not None:
            return self._arch
        try:
            self._arch = get_arch(self.path)
        except Exception:
            self._arch = ()
        return self._arch
""")]),
]

# campaign2
BREAKING += [
    ('campaign2: or', [
        ('c_library.py',
         'if lib_arch and py_bitness not in lib_arch:',
         'if lib_arch and py_bitness != lib_arch[-1] and len(lib_arch) > 1:'),
    ]),
    ('campaign2: ignored', [
        ('c_library.py',
         'if lib_arch and py_bitness not in lib_arch:',
         'if not lib_arch or py_bitness not in lib_arch:'),
    ]),
    ('campaign2: ptr size', [
        ('c_library.py',
         'py_bitness = 64 if sys.maxsize > 2**32 else 32',
         'py_bitness = 64 if sys.maxsize > 2**64 else 32'),
    ]),
    ('campaign2: swallow arch', [
        ('utils.py',
         '                self._arch = ()\n',
         '                self._arch = (64,)\n'),
    ]),
    ('campaign2: arch names', [
        ('utils.py',
         'if "32-bit" in out:\n            ret.append(32)',
         'if "32-bit" in out:\n            ret.append(64)'),
    ]),
    ('campaign2: linux only', [
        ('c_library.py',
         '            if lib_arch and py',
         "            if sys.platform == 'win32' and lib_arch and py"),
    ]),
    ('campaign2: warn only', [
        ('c_library.py',
         'raise OSError("Library bitness does not match Python\'s")',
         'logger.warning("Library bitness does not match Python\'s")'),
    ]),
    ('campaign2: machine', [
        ('utils.py',
         '0x8664: "AMD64"',
         '0x8664: "I386"'),
    ]),
    ('campaign2: arch exception', [
        ('utils.py',
         '            except Exception:\n                self._arch = ()',
         '            except OSError:\n                self._arch = ()'),
    ]),
]
BREAKING += [
    ('mut: 64 never on Linux', [("utils.py", '        if "64-bit" in out:\n            ret.append(64)\n', '')]),
    ('mut: Linux refused', [("utils.py", 'elif this_platform not in ("linux2"', 'elif this_platform in ("linux2"')]),
    ('mut: darwin refused', [("utils.py", '"linux", "darwin"):', '"linux"):')]),
    ('mut: executables refused', [("utils.py", 'if sig != b"PE":', 'if sig == b"PE":')]),
    ('mut: unknown machine', [("utils.py", 'machine_types.get(machine, "UNKNOWN")', 'machine_types.get("UNKNOWN", machine)')]),
]
PRESERVING += [
    ('platform of os', [("utils.py", 'if this_platform.startswith("linux"):', 'if "linux" in this_platform:')]),
    ('PE bytes', [("utils.py", 'if sig != b"PE":', 'if not sig == b"PE":')]),
    ('machine in', [("utils.py", 'return machine_types.get(machine, "UNKNOWN")', 'if machine in machine_types:\n            return machine_types[machine]\n        return "UNKNOWN"')]),
    ('machine caught', [("utils.py", 'return machine_types.get(machine, "UNKNOWN")', 'try:\n            return machine_types[machine]\n        except KeyError:\n            return "UNKNOWN"')]),
]
