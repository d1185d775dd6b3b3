CL = "c_library.py"
BE = "backends/ctypes.py"
LOOK = """        lib_path = os.path.realpath(lib_path)
        obj = cls.libs.get(lib_path)
        if obj is not None:
            return obj

        else:
            obj = super(CLibraryMeta, backend_cls).__call__(lib, *args, **kwargs)
            cls.libs[lib_path] = obj
            return obj
"""
BREAKING = [
    ("check then read", [(CL, LOOK, """        lib_path = os.path.realpath(lib_path)
        if lib_path in cls.libs:
            return cls.libs[lib_path]
        obj = super(CLibraryMeta, backend_cls).__call__(lib, *args, **kwargs)
        cls.libs[lib_path] = obj
        return obj
""")]),
    ("not canonical", [(CL, "        lib_path = os.path.realpath(lib_path)\n        obj", "        obj")]),
    ("abspath", [(CL, "lib_path = os.path.realpath(lib_path)\n        obj", "lib_path = os.path.abspath(lib_path)\n        obj"), (CL, "lib_path = os.path.realpath(lib)", "lib_path = os.path.abspath(lib)")]),
    ("basename key", [(CL, "        lib_path = os.path.realpath(lib_path)\n        obj", "        lib_path = os.path.basename(os.path.realpath(lib_path))\n        obj")]),
    ("never registered", [(CL, "            cls.libs[lib_path] = obj\n", "")]),
    ("registered under name", [(CL, "            cls.libs[lib_path] = obj\n", "            cls.libs[str(lib)] = obj\n")]),
    ("strong registry", [(CL, "libs: WeakValueDictionary[str, \"CLibrary\"] = WeakValueDictionary()", "libs: dict = {}")]),
    ("ignored when kwargs", [(CL, "        if obj is not None:\n", "        if obj is not None and not kwargs:\n")]),
    ("truthy other", [(CL, "obj = cls.libs.get(lib_path)\n", "obj = cls.libs.get(lib)\n")]),
    ("object path is name", [(BE, "    if os.path.isfile(lib._name):\n        return lib._name\n    else:\n        return find_library(lib._name).path\n", "    return lib._name\n")]),
    ("key by backend", [(CL, "        lib_path = os.path.realpath(lib_path)\n        obj", "        lib_path = kwargs.get('backend', 'ctypes') + os.path.realpath(lib_path)\n        obj")]),
    ("dropped elsewhere", [(CL, "        self._structs_ = {}\n", "        self._structs_ = {}\n        type(self).libs.clear()\n")]),
    ("loads given path", [(CL, "            lib = lib_path\n", "            lib = lib\n"), (CL, "                lib_path = find_library(lib).path", "                lib_path = find_library(os.path.basename(lib)).path")]),
]
PRESERVING = [
    ("inverted", [(CL, LOOK, """        key = os.path.realpath(lib_path)
        obj = cls.libs.get(key)
        if obj is None:
            obj = super(CLibraryMeta, backend_cls).__call__(lib, *args, **kwargs)
            cls.libs[key] = obj
        return obj
""")]),
    ("try", [(CL, LOOK, """        key = os.path.realpath(lib_path)
        try:
            return cls.libs[key]
        except KeyError:
            pass
        obj = cls.libs[key] = super(CLibraryMeta, backend_cls).__call__(lib, *args, **kwargs)
        return obj
""")]),
    ("helper", [(CL, LOOK, """        key = os.path.realpath(lib_path)
        obj = cls.libs.get(key)
        if obj is None:
            obj = super(CLibraryMeta, backend_cls).__call__(lib, *args, **kwargs)
            cls._register(key, obj)
        return obj

    def _register(cls, key, obj):
        cls.libs[key] = obj
"""),]),
    ("resolve helper", [(CL, LOOK, LOOK + """
    @staticmethod
    def _canonical(path):
        return os.path.realpath(path)
"""), (CL, "        lib_path = os.path.realpath(lib_path)\n        obj", "        lib_path = cls._canonical(lib_path)\n        obj")]),
    ("sep order", [(CL, """            if os.sep not in lib:
                lib_path = find_library(lib).path
            else:
                lib_path = os.path.realpath(lib)
                assert os.path.isfile(lib_path), (
                    "Provided path does not point to a file"
                )
""", """            if os.sep in lib:
                lib_path = os.path.realpath(lib)
                assert os.path.isfile(lib_path), (
                    "Provided path does not point to a file"
                )
            else:
                lib_path = find_library(lib).path
""")]),
    ("walrus", [(CL, """        obj = cls.libs.get(lib_path)
        if obj is not None:
            return obj
""", """        if (obj := cls.libs.get(lib_path)) is not None:
            return obj
""")]),
    ("path expr", [(BE, "    if os.path.isfile(lib._name):\n        return lib._name\n    else:\n        return find_library(lib._name).path\n", "    name = lib._name\n    return name if os.path.isfile(name) else find_library(name).path\n")]),
]

# campaign2
BREAKING += [
    ('campaign2: strong', [
        ('c_library.py',
         'libs: WeakValueDictionary[str, "CLibrary"] = WeakValueDictionary()',
         'libs = {}'),
    ]),
    ('campaign2: abspath', [
        ('c_library.py',
         '        lib_path = os.path.realpath(lib_path)\n        obj',
         '        lib_path = os.path.abspath(lib_path)\n        obj'),
    ]),
    ('campaign2: basename', [
        ('c_library.py',
         'cls.libs[lib_path] = obj',
         'cls.libs[os.path.basename(lib_path)] = obj'),
    ]),
    ('campaign2: contains then get', [
        ('c_library.py',
         '        obj = cls.libs.get(lib_path)\n        if obj is not None:\n            return obj\n',
         '        if lib_path in cls.libs:\n            return cls.libs[lib_path]\n'),
    ]),
    ('campaign2: register before', [
        ('c_library.py',
         '            obj = super(CLibraryMeta, backend_cls).__call__(lib, *args, **kwargs)\n            cls.libs[lib_path] = obj',
         '            obj = backend_cls.__new__(backend_cls)\n            cls.libs[lib_path] = obj\n            obj.__init__(lib, *args, **kwargs)'),
    ]),
    ('campaign2: inode', [
        ('c_library.py',
         '        obj = cls.libs.get(lib_path)\n',
         '        obj = cls.libs.get(lib_path) or next((o for p, o in cls.libs.items() if os.path.getsize(p) == os.path.getsize(lib_path)), None)\n'),
    ]),
    ('campaign2: native not keyed', [
        ('c_library.py',
         '            lib_path = get_library_path(lib, backend)\n',
         "            lib_path = getattr(lib, '_name')\n"),
    ]),
    ('campaign2: keep list', [
        ('c_library.py',
         '            cls.libs[lib_path] = obj\n',
         '            cls.libs[lib_path] = obj\n            cls._last = obj\n'),
    ]),
]
