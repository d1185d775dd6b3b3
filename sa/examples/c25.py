UT = "utils.py"
CP = "c_parser.py"
HD = """    if dirs:
        dirs = list(dirs) + HEADER_DIRS[::-1]
    else:
        dirs = HEADER_DIRS[::-1]

"""
LD = """    if dirs:
        dirs = list(dirs) + LIBRARY_DIRS[::-1]
    else:
        dirs = LIBRARY_DIRS[::-1]

"""
HL = """    for d in dirs:
        path = os.path.join(d, h_name)
        if os.path.isfile(path):
            return path

    raise OSError("Can't find header with h_name {}".format(h_name))
"""
SYS = """    if sys.platform == "win32":
        pass

    if sys.platform == "darwin":
        dirs.extend(
            (
                "/usr/local/include",
                "/usr/include",
                "/System/Library/Frameworks",
                "/Library/Frameworks",
            )
        )

    if sys.platform.startswith("linux"):
        dirs.extend(("/usr/local/include", "/usr/target/include", "/usr/include"))

"""
ADD = """    dirs = [d for d in dir_list if os.path.isdir(d)]
    rejected = [d for d in dir_list if d not in dirs]
    if rejected:
        msg = "The following directories are invalid: {}"
        logging.warning(msg.format(rejected))
    HEADER_DIRS.extend(dirs)
"""
FH = """        hs = []
        for header in headers:
            if os.path.isfile(header):
                hs.append(header)
            else:
                h = find_header(header)
                if not h:
                    raise OSError("Cannot find header: {}".format(header))
                hs.append(h)

        return hs
"""
LL = """    for d in dirs:
        path = os.path.join(d, name)
        if os.path.isfile(path):
            return LibraryPath(path)

    path = find_lib(name)
    if path:
        return LibraryPath(path)

    raise OSError("Can't find library with name {}".format(name))
"""
BREAKING = [
    ("configured first", [(UT, "list(dirs) + HEADER_DIRS[::-1]", "HEADER_DIRS[::-1] + list(dirs)")]),
    ("oldest first", [(UT, "        dirs = HEADER_DIRS[::-1]\n", "        dirs = list(HEADER_DIRS)\n")]),
    ("configured forgotten", [(UT, "list(dirs) + HEADER_DIRS[::-1]", "list(dirs)")]),
    ("given reversed", [(UT, "list(dirs) + LIBRARY_DIRS[::-1]", "list(dirs)[::-1] + LIBRARY_DIRS[::-1]")]),
    ("given only first", [(UT, "list(dirs) + LIBRARY_DIRS[::-1]", "list(dirs)[:1] + LIBRARY_DIRS[::-1]")]),
    ("system first", [(UT, 'dirs.extend(("/usr/local/include", "/usr/target/include", "/usr/include"))', 'dirs = ["/usr/local/include", "/usr/target/include", "/usr/include"] + dirs')]),
    ("linux2 only", [(UT, 'sys.platform.startswith("linux")', 'sys.platform == "linux2"')]),
    ("elif windows", [(UT, 'if sys.platform.startswith("linux"):\n        dirs.extend', 'if sys.platform == "win32":\n        dirs.extend')]),
    ("last wins", [(UT, HL, """    found = None
    for d in dirs:
        path = os.path.join(d, h_name)
        if os.path.isfile(path):
            found = path
    if found:
        return found

    raise OSError("Can't find header with h_name {}".format(h_name))
""")]),
    ("exists", [(UT, HL, HL.replace("isfile", "exists"))]),
    ("dir returned", [(UT, HL, HL.replace("return path", "return d"))]),
    ("none", [(UT, HL, HL.replace('raise OSError("Can\'t find header with h_name {}".format(h_name))', "return None"))]),
    ("basename", [(UT, HL, HL.replace("os.path.join(d, h_name)", "os.path.join(d, os.path.basename(h_name))"))]),
    ("system library first", [(UT, LL, """    path = find_lib(name)
    if path:
        return LibraryPath(path)

    for d in dirs:
        path = os.path.join(d, name)
        if os.path.isfile(path):
            return LibraryPath(path)

    raise OSError("Can't find library with name {}".format(name))
""")]),
    ("system when dirs", [(UT, LL, LL.replace("    path = find_lib(name)\n    if path:", "    path = find_lib(name) if not dirs else None\n    if path:"))]),
    ("unchecked", [(UT, LL, LL.replace("    if path:\n", "    if True:\n"))]),
    ("all added", [(UT, ADD, ADD.replace("HEADER_DIRS.extend(dirs)", "HEADER_DIRS.extend(dir_list)"))]),
    ("added when none rejected", [(UT, ADD, ADD.replace("    HEADER_DIRS.extend(dirs)", "    else:\n        HEADER_DIRS.extend(dirs)"))]),
    ("files added", [(UT, ADD, ADD.replace("os.path.isdir", "os.path.exists"))]),
    ("sorted", [(UT, ADD, ADD.replace("HEADER_DIRS.extend(dirs)", "HEADER_DIRS.extend(sorted(set(dirs)))"))]),
    ("replaced", [(UT, ADD, ADD.replace("HEADER_DIRS.extend(dirs)", "HEADER_DIRS[:] = dirs"))]),
    ("in front", [(UT, ADD, ADD.replace("    HEADER_DIRS.extend(dirs)", "    for d in dirs:\n        HEADER_DIRS.insert(0, d)"))]),
    ("rejected raises", [(UT, ADD, ADD.replace("logging.warning(msg.format(rejected))", "raise ValueError(msg.format(rejected))"))]),
    ("search first", [(CP, FH, """        hs = []
        for header in headers:
            try:
                hs.append(find_header(header))
            except OSError:
                hs.append(header)

        return hs
""")]),
    ("missing left out", [(CP, FH, """        hs = []
        for header in headers:
            if os.path.isfile(header):
                hs.append(header)
        return hs
""")]),
    ("basename searched", [(CP, FH, FH.replace("find_header(header)", "find_header(os.path.basename(header))"))]),
    ("found at the end", [(CP, FH, FH.replace("            if os.path.isfile(header):\n                hs.append(header)", "            if os.path.isfile(header):\n                hs.insert(0, header)"))]),
]
PRESERVING = [
    ("no branch", [(UT, HD, "    dirs = list(dirs or []) + HEADER_DIRS[::-1]\n\n")]),
    ("reversed", [(UT, HD, "    dirs = list(dirs) if dirs else []\n    dirs.extend(reversed(HEADER_DIRS))\n\n")]),
    ("helper", [(UT, LD, "    dirs = _search_dirs(dirs, LIBRARY_DIRS)\n\n"), (UT, HD, "    dirs = _search_dirs(dirs, HEADER_DIRS)\n\n"),
                (UT, "def find_header(", """def _search_dirs(dirs, configured):
    if dirs:
        return list(dirs) + configured[::-1]
    return configured[::-1]


def find_header(""")]),
    ("lookup helper", [(UT, HL, """    path = _first_file(dirs, h_name)
    if path is not None:
        return path

    raise OSError("Can't find header with h_name {}".format(h_name))
"""), (UT, LL, """    path = _first_file(dirs, name)
    if path is None:
        path = find_lib(name)
    if path:
        return LibraryPath(path)

    raise OSError("Can't find library with name {}".format(name))
"""), (UT, "def find_header(", """def _first_file(dirs, name):
    for d in dirs:
        path = os.path.join(d, name)
        if os.path.isfile(path):
            return path
    return None


def find_header(""")]),
    ("elif", [(UT, SYS, SYS.replace("    if sys.platform.startswith", "    elif sys.platform.startswith"))]),
    ("system tuple", [(UT, SYS, """    if sys.platform == "darwin":
        system = ["/usr/local/include", "/usr/include", "/System/Library/Frameworks", "/Library/Frameworks"]
    elif sys.platform.startswith("linux"):
        system = ["/usr/local/include", "/usr/target/include", "/usr/include"]
    else:
        system = []
    dirs += system

""")]),
    ("system function", [(UT, SYS, "    dirs = dirs + _system_dirs()\n\n"), (UT, "def find_header(", """def _system_dirs():
    if sys.platform == "darwin":
        return ["/usr/local/include", "/usr/include", "/System/Library/Frameworks", "/Library/Frameworks"]
    if sys.platform.startswith("linux"):
        return ["/usr/local/include", "/usr/target/include", "/usr/include"]
    return []


def find_header(""")]),
    ("system constants", [(UT, SYS, """    if sys.platform == "darwin":
        dirs.extend(DARWIN_DIRS)

    if sys.platform.startswith("linux"):
        dirs.extend(LINUX_DIRS)

"""), (UT, "def find_header(", """LINUX_DIRS = ("/usr/local/include", "/usr/target/include", "/usr/include")
DARWIN_DIRS = (
    "/usr/local/include", "/usr/include", "/System/Library/Frameworks", "/Library/Frameworks",
)


def find_header(""")]),
    ("comprehension", [(UT, HL, """    paths = [os.path.join(d, h_name) for d in dirs]
    for path in paths:
        if os.path.isfile(path):
            return path

    raise OSError("Can't find header with h_name {}".format(h_name))
""")]),
    ("next", [(UT, HL, """    path = next((p for p in (os.path.join(d, h_name) for d in dirs) if os.path.isfile(p)), None)
    if path is None:
        raise OSError("Can't find header with h_name {}".format(h_name))
    return path
""")]),
    ("else", [(UT, HL, """    for d in dirs:
        path = os.path.join(d, h_name)
        if not os.path.isfile(path):
            continue
        break
    else:
        raise OSError("Can't find header with h_name {}".format(h_name))
    return path
""")]),
    ("not found", [(UT, LL, LL.replace("""    if path:
        return LibraryPath(path)

    raise OSError("Can't find library with name {}".format(name))
""", """    if not path:
        raise OSError("Can't find library with name {}".format(name))
    return LibraryPath(path)
"""))]),
    ("add loop", [(UT, ADD, """    rejected = []
    for d in dir_list:
        if os.path.isdir(d):
            HEADER_DIRS.append(d)
        else:
            rejected.append(d)
    if rejected:
        msg = "The following directories are invalid: {}"
        logging.warning(msg.format(rejected))
""")]),
    ("add helper", [(UT, ADD, """    HEADER_DIRS.extend(_valid_dirs(dir_list))


def _valid_dirs(dir_list):
    dirs = [d for d in dir_list if os.path.isdir(d)]
    rejected = [d for d in dir_list if d not in dirs]
    if rejected:
        msg = "The following directories are invalid: {}"
        logging.warning(msg.format(rejected))
    return dirs
""")]),
    ("add +=", [(UT, ADD, ADD.replace("    HEADER_DIRS.extend(dirs)\n", "    for d in dirs:\n        HEADER_DIRS.append(d)\n"))]),
    ("headers comp", [(CP, FH, "        return [h if os.path.isfile(h) else find_header(h) for h in headers]\n")]),
    ("headers local", [(CP, FH, """        hs = []
        for header in headers:
            path = header
            if not os.path.isfile(path):
                path = find_header(header)
                if not path:
                    raise OSError("Cannot find header: {}".format(header))
            hs.append(path)
        return hs
""")]),
    ("headers helper", [(CP, FH, """        return [self._locate(header) for header in headers]

    def _locate(self, header):
        if os.path.isfile(header):
            return header
        path = find_header(header)
        if not path:
            raise OSError("Cannot find header: {}".format(header))
        return path
""")]),
]

# campaign3
BREAKING += [
    ('campaign3: rel dirs', [
        ('utils.py',
         '        path = os.path.join(d, h_name)\n        if os.path.isfile(path):',
         '        path = os.path.join(d, os.path.basename(h_name))\n        if os.path.isfile(path):'),
    ]),
    ('campaign3: mutates', [
        ('utils.py',
         'dirs = HEADER_DIRS[::-1]\n\n    if sys',
         'dirs = HEADER_DIRS\n\n    if sys'),
    ]),
    ('campaign3: dir added twice', [
        ('utils.py',
         '    LIBRARY_DIRS.extend(dirs)',
         '    LIBRARY_DIRS[:] = dirs'),
    ]),
    ('campaign3: isfile to isdir', [
        ('utils.py',
         '    dirs = [d for d in dir_list if os.path.isdir(d)]\n    rejected = [d for d in dir_list if d not in dirs]\n    if rejected:\n        msg = "The following directories are invalid: {}"\n        logging.warning(msg.format(rejected))\n    LIBRARY_DIRS',
         '    dirs = [d for d in dir_list if os.path.exists(d)]\n    rejected = [d for d in dir_list if d not in dirs]\n    if rejected:\n        msg = "The following directories are invalid: {}"\n        logging.warning(msg.format(rejected))\n    LIBRARY_DIRS'),
    ]),
    ('campaign3: find lib first name', [
        ('utils.py',
         '    path = find_lib(name)\n',
         "    path = find_lib(name.split('.')[0])\n"),
    ]),
    ('campaign3: dirs only', [
        ('utils.py',
         '        dirs = list(dirs) + LIBRARY_DIRS[::-1]',
         '        dirs = list(dirs)'),
    ]),
    ('campaign3: given mutate', [
        ('utils.py',
         '        dirs = list(dirs) + HEADER_DIRS[::-1]',
         '        dirs += HEADER_DIRS[::-1]'),
    ]),
    ('campaign3: libpath cwd', [
        ('utils.py',
         '        path = os.path.join(d, name)\n        if os.path.isfile(path):\n            return LibraryPath(path)',
         '        path = os.path.join(d, name)\n        if os.path.isfile(path):\n            return LibraryPath(name)'),
    ]),
    ('campaign3: headers dedup', [
        ('c_parser.py',
         '            if os.path.isfile(header):\n                hs.append(header)',
         '            if os.path.isfile(header) and header not in hs:\n                hs.append(header)'),
    ]),
]
