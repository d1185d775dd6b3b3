FL = "thirdparty/find_library.py"
UT = "utils.py"
Q = '" 2>&1 -l" + shlex.quote(name)'
BREAKING = [
    ("gcc unquoted", [(FL, Q, '" 2>&1 -l" + name')]),
    ("gcc wrong quoting", [(FL, Q, '" 2>&1 -l\'" + name + "\'"')]),
    ("replace spaces", [(FL, Q, '" 2>&1 -l" + name.replace(" ", "\\\\ ")')]),
    ("ldd unquoted", [(FL, "shlex.quote(sys.executable)", "sys.executable")]),
    ("ldconfig grep", [(FL, 'os.popen("/sbin/ldconfig -p 2>/dev/null")', 'os.popen("/sbin/ldconfig -p 2>/dev/null | grep %s" % name)')]),
    ("file shell", [(UT, 'check_output(["file", filename], stderr=subprocess.STDOUT)', 'check_output("file " + filename, shell=True, stderr=subprocess.STDOUT)')]),
    ("pattern", [(FL, 'r"[^\\(\\)\\s]*lib%s\\.[^\\(\\)\\s]*" % re.escape(name)', 'r"[^\\(\\)\\s]*lib%s\\.[^\\(\\)\\s]*" % name')]),
    ("pattern ldconfig", [(FL, 'r"/[^\\(\\)\\s]*lib%s\\.[^\\(\\)\\s]*" % re.escape(name)', 'r"/[^\\(\\)\\s]*lib{}\\.[^\\(\\)\\s]*".format(name)')]),
    ("os.system", [(UT, 'out = check_output(["file", filename], stderr=subprocess.STDOUT)', 'os.system("file %s > /tmp/x" % filename)\n    out = b""')]),
    ("helper unquoted", [(FL, "        def _findlib_gcc(name):", '        def _cmd(out, lib):\n            return "gcc -Wl,-t -o " + out + " 2>&1 -l" + lib\n\n        def _findlib_gcc(name):'),
        (FL, 'with os.popen(cmd) as f:\n                    trace', 'with os.popen(_cmd(ccout, name)) as f:\n                    trace')]),
]
PRESERVING = [
    ("fstring", [(FL, '"$CC -Wl,-t -o " + ccout + ' + Q, 'f"$CC -Wl,-t -o {ccout} 2>&1 -l{shlex.quote(name)}"')]),
    ("quote all", [(FL, "-o \" + ccout + \"", "-o \" + shlex.quote(ccout) + \"")]),
    ("helper", [(FL, "        def _findlib_gcc(name):", '        def _run(cmd):\n            with os.popen(cmd) as f:\n                return f.read()\n\n        def _findlib_gcc(name):'),
        (FL, 'with os.popen(cmd) as f:\n                    trace = f.read()', 'trace = _run(cmd)')]),
    ("pattern helper", [(FL, "        def _findlib_gcc(name):", '        def _pattern(name):\n            return r"[^\\(\\)\\s]*lib%s\\.[^\\(\\)\\s]*" % re.escape(name)\n\n        def _findlib_gcc(name):'),
        (FL, 'r"[^\\(\\)\\s]*lib%s\\.[^\\(\\)\\s]*" % re.escape(name)\n            fdout', '_pattern(name)\n            fdout')]),
    ("subprocess.run", [(UT, 'out = check_output(["file", filename], stderr=subprocess.STDOUT)', 'out = subprocess.run(["file", filename], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, check=True).stdout')]),
    ("popen list", [(FL, 'cmd = "ldd %s 2>/dev/null" % shlex.quote(sys.executable)', 'cmd = " ".join(["ldd", shlex.quote(sys.executable), "2>/dev/null"])')]),
    ("quote early", [(FL, '            fdout, ccout = tempfile.mkstemp()', '            quoted = shlex.quote(name)\n            fdout, ccout = tempfile.mkstemp()'), (FL, Q, '" 2>&1 -l" + quoted')]),
    ("search helper", [(FL, "        def _findlib_gcc(name):", '        def _search(expr, text):\n            return re.search(expr, text)\n\n        def _findlib_gcc(name):'), (FL, "res = re.search(expr, trace)", "res = _search(expr, trace)")]),
    ("argv var", [(UT, 'out = check_output(["file", filename], stderr=subprocess.STDOUT)', 'cmd = ["file"]\n    cmd.append(filename)\n    out = check_output(cmd, stderr=subprocess.STDOUT)')]),
]

# campaign1
BREAKING += [
    ('campaign1: glob', [
        ('utils.py',
         '        path = os.path.join(d, name)\n        if os.path.isfile(path):\n            return LibraryPath(path)',
         "        import glob\n        for path in glob.glob(os.path.join(d, name) + '*'):\n            return LibraryPath(path)"),
    ]),
    ('campaign1: expandvars', [
        ('utils.py',
         '    path = find_lib(name)\n',
         "    path = find_lib(os.popen('echo ' + name).read().strip())\n"),
    ]),
    ('campaign1: shell list join', [
        ('utils.py',
         'check_output(["file", filename], stderr=subprocess.STDOUT)',
         'check_output(" ".join(["file", filename]), shell=True, stderr=subprocess.STDOUT)'),
    ]),
    ('campaign1: option injection env', [
        ('thirdparty/find_library.py',
         'cmd = (\n                "if type gcc',
         'cmd = (\n                "LIB=" + name + ";if type gcc'),
    ]),
    ('campaign1: executable', [
        ('utils.py',
         'check_output(["file", filename], stderr=subprocess.STDOUT)',
         'check_output([filename, "--arch"], stderr=subprocess.STDOUT)'),
    ]),
    ('campaign1: getoutput', [
        ('utils.py',
         'out = check_output(["file", filename], stderr=subprocess.STDOUT)\n    out = out.decode("ascii")',
         'out = subprocess.getoutput("file \\"%s\\"" % filename)'),
    ]),
    ('campaign1: re.compile', [
        ('thirdparty/find_library.py',
         '                    res = re.search(expr, f.read())\n                if',
         '                    res = re.compile("lib" + name).search(f.read())\n                if'),
    ]),
    ('campaign1: quote after', [
        ('thirdparty/find_library.py',
         'shlex.quote(name)',
         'shlex.quote(name).strip("\'")'),
    ]),
]
