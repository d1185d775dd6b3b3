CP = "c_parser.py"
UT = "utils.py"
FL = "thirdparty/find_library.py"
RD = '''        with open(path, "r", encoding=encoding) as fd:
            self.files[path] = fd.read()
'''
LC = '''            with open(cache_file, "rb") as fd:
                cache = pickle.load(fd)
'''
W = '''        with open(cache_file, "wb") as f:
            pickle.dump(cache, f)
'''
GC = '''            try:
                with os.popen(cmd) as f:
                    trace = f.read()
            finally:
                try:
                    os.unlink(ccout)
                except OSError as e:
                    if e.errno != errno.ENOENT:
                        raise
'''
BREAKING = [
    ("chain read", [(CP, RD, '        self.files[path] = open(path, "r", encoding=encoding).read()\n')]),
    ("close no finally", [(CP, RD, '        fd = open(path, "r", encoding=encoding)\n        self.files[path] = fd.read()\n        fd.close()\n')]),
    ("cache not closed", [(CP, LC, '            fd = open(cache_file, "rb")\n            cache = pickle.load(fd)\n')]),
    ("cache closed in else", [(CP, LC, '            fd = open(cache_file, "rb")\n            cache = pickle.load(fd)\n            fd.close()\n')]),
    ("write", [(CP, W, '        pickle.dump(cache, open(cache_file, "wb"))\n')]),
    ("no finally", [(FL, GC, '''            with os.popen(cmd) as f:
                trace = f.read()
            os.unlink(ccout)
''')]),
    ("fd kept", [(FL, "            os.close(fdout)\n", "")]),
    ("never unlink", [(FL, GC, '''            with os.popen(cmd) as f:
                trace = f.read()
''')]),
    ("unlink if found", [(FL, '''                try:
                    os.unlink(ccout)
''', '''                try:
                    if trace:
                        os.unlink(ccout)
''')]),
    ("popen ldconfig", [(FL, '''            with os.popen("/sbin/ldconfig -p 2>/dev/null") as f:
                res = re.search(expr, f.read())
''', '''            f = os.popen("/sbin/ldconfig -p 2>/dev/null")
            res = re.search(expr, f.read())
''')]),
    ("early return", [(CP, RD, '''        fd = open(path, "r", encoding=encoding)
        try:
            self.files[path] = fd.read()
        except UnicodeDecodeError:
            fd.close()
            raise
        if not self.files[path]:
            return False
        fd.close()
''')]),
    ("no communicate", [(UT, "    output, _unused_err = process.communicate()\n    retcode = process.poll()\n", "    output = process.stdout.read()\n    retcode = process.poll()\n")]),
    ("arch not closed", [(UT, '    with io.open(filename, "rb") as fp:\n        dos_headers', '    fp = io.open(filename, "rb")\n    if fp:\n        dos_headers')]),
    ("reader helper", [(CP, RD, "        self.files[path] = self._open(path, encoding).read()\n"), (CP, "    def load_file(self,", "    def _open(self, path, encoding):\n        return open(path, \"r\", encoding=encoding)\n\n    def load_file(self,")]),
]
PRESERVING = [
    ("try finally", [(CP, RD, '''        fd = open(path, "r", encoding=encoding)
        try:
            self.files[path] = fd.read()
        finally:
            fd.close()
''')]),
    ("helper with", [(CP, RD, "        with self._open(path, encoding) as fd:\n            self.files[path] = fd.read()\n"), (CP, "    def load_file(self,", "    def _open(self, path, encoding):\n        return open(path, \"r\", encoding=encoding)\n\n    def load_file(self,")]),
    ("helper read", [(CP, RD, "        self.files[path] = self._read(path, encoding)\n"), (CP, "    def load_file(self,", "    def _read(self, path, encoding):\n        with open(path, \"r\", encoding=encoding) as fd:\n            return fd.read()\n\n    def load_file(self,")]),
    ("closing", [(CP, RD, '        with closing(open(path, "r", encoding=encoding)) as fd:\n            self.files[path] = fd.read()\n'), (CP, "from inspect import cleandoc", "from contextlib import closing\nfrom inspect import cleandoc")]),
    ("read_text", [(CP, RD, '        self.files[path] = Path(path).read_text(encoding=encoding)\n'), (CP, "from inspect import cleandoc", "from pathlib import Path\nfrom inspect import cleandoc")]),
    ("suppress", [(FL, '''                try:
                    os.unlink(ccout)
                except OSError as e:
                    if e.errno != errno.ENOENT:
                        raise
''', '''                if os.path.exists(ccout):
                    os.unlink(ccout)
''')]),
    ("popen helper", [(FL, GC.replace("os.popen(cmd) as f", "os.popen(cmd) as f"), GC.replace("                with os.popen(cmd) as f:\n                    trace = f.read()\n", "                trace = _output(cmd)\n")), (FL, "        def _findlib_gcc(name):", '        def _output(cmd):\n            with os.popen(cmd) as f:\n                return f.read()\n\n        def _findlib_gcc(name):')]),
    ("with popen", [(UT, "    process = subprocess.Popen(stdout=subprocess.PIPE, *popenargs, **kwargs)\n    output, _unused_err = process.communicate()\n    retcode = process.poll()\n", "    with subprocess.Popen(stdout=subprocess.PIPE, *popenargs, **kwargs) as process:\n        output, _unused_err = process.communicate()\n        retcode = process.poll()\n")]),
    ("subprocess.run", [(UT, "    process = subprocess.Popen(stdout=subprocess.PIPE, *popenargs, **kwargs)\n    output, _unused_err = process.communicate()\n    retcode = process.poll()\n", "    done = subprocess.run(stdout=subprocess.PIPE, *popenargs, **kwargs)\n    output = done.stdout\n    retcode = done.returncode\n")]),
    ("double with", [(CP, LC, '            with open(cache_file, "rb") as raw, memoryview(b"") as mv:\n                cache = pickle.load(raw)\n')]),
]

# campaign1
BREAKING += [
    ('campaign1: open no with', [
        ('c_parser.py',
         '        with open(path, "r", encoding=encoding) as fd:\n            self.files[path] = fd.read()',
         '        fd = open(path, "r", encoding=encoding)\n        self.files[path] = fd.read()\n        fd.close()'),
    ]),
    ('campaign1: popen not waited', [
        ('utils.py',
         '    retcode = process.poll()\n',
         '    retcode = 0\n'),
        ('utils.py',
         '    output, _unused_err = process.communicate()\n',
         '    output = process.stdout.read()\n'),
    ]),
    ('campaign1: arch open', [
        ('utils.py',
         '    with io.open(filename, "rb") as fp:\n        dos_headers = fp.read(64)\n        fp.read(4)\n',
         '    fp = io.open(filename, "rb")\n    dos_headers = fp.read(64)\n    fp.read(4)\n    with fp:\n        pass\n    if 1:\n'),
    ]),
    ('campaign1: fd leak', [
        ('thirdparty/find_library.py',
         '            os.close(fdout)\n',
         ''),
    ]),
    ('campaign1: close late', [
        ('thirdparty/find_library.py',
         '            os.close(fdout)\n',
         ''),
        ('thirdparty/find_library.py',
         '            res = re.search(expr, trace)\n            if not res:\n                return None\n            return res.group(0)\n\n        def _findlib_ldconfig',
         '            res = re.search(expr, trace)\n            if not res:\n                return None\n            os.close(fdout)\n            return res.group(0)\n\n        def _findlib_ldconfig'),
    ]),
    ('campaign1: cache fd', [
        ('c_parser.py',
         '            with open(cache_file, "rb") as fd:\n                cache = pickle.load(fd)',
         '            cache = pickle.load(open(cache_file, "rb"))'),
    ]),
    ('campaign1: write fd', [
        ('c_parser.py',
         '        with open(cache_file, "wb") as f:\n            pickle.dump(cache, f)',
         '        f = open(cache_file, "wb")\n        try:\n            pickle.dump(cache, f)\n        except TypeError:\n            f.close()\n            raise\n        f.close()'),
    ]),
    ('campaign1: pipe kept', [
        ('thirdparty/find_library.py',
         'with os.popen("/sbin/ldconfig -p 2>/dev/null") as f:\n                res = re.search(expr, f.read())',
         'f = os.popen("/sbin/ldconfig -p 2>/dev/null")\n            res = re.search(expr, f.read())\n            if res:\n                f.close()'),
    ]),
]
