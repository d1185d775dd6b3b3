CP = "c_parser.py"
FL = "thirdparty/find_library.py"
W = '''        with open(cache_file, "wb") as f:
            pickle.dump(cache, f)
'''
BREAKING = [
    ("write header back", [(CP, '        self.files[path] = "\\n".join(result)\n', '        self.files[path] = "\\n".join(result)\n        with open(path + ".i", "w") as fd:\n            fd.write(self.files[path])\n')]),
    ("remove stale", [(CP, '                    logger.debug("Cache file is out of date.")\n', '                    logger.debug("Cache file is out of date.")\n                    os.remove(cache_file)\n')]),
    ("touch cache", [(CP, '            self.import_dict(cache["file_defs"])\n', '            self.import_dict(cache["file_defs"])\n            os.utime(cache_file)\n')]),
    ("default cache", [(CP, W, W + '        with open(self.file_order[0] + ".cache", "wb") as f:\n            pickle.dump(cache, f)\n')]),
    ("read plus", [(CP, 'with open(path, "r", encoding=encoding) as fd:', 'with open(path, "r+", encoding=encoding) as fd:')]),
    ("unlink found", [(FL, "                    os.unlink(ccout)", "                    os.unlink(res)")]),
    ("gcc a.out", [(FL, '-o " + ccout + "', '-o a.out " + "')]),
    ("redirect", [(FL, '"/sbin/ldconfig -p 2>/dev/null"', '"/sbin/ldconfig -p 2>/tmp/ldconfig.log"')]),
    ("write in package", [(CP, '        with open(cache_file, "wb") as f:', '        d = os.path.dirname(__file__)\n        with open(os.path.join(d, "headers", "last.bin"), "wb") as f:')]),
    ("helper", [(CP, '        self.files[path] = "\\n".join(result)\n', '        self.files[path] = "\\n".join(result)\n        _dump(path + ".i", self.files[path])\n'), (CP, "def kwl(strs):", 'def _dump(name, text):\n    with open(name, "w") as fd:\n        fd.write(text)\n\n\ndef kwl(strs):')]),
    ("makedirs", [(CP, W, '        os.makedirs(os.path.dirname(os.path.abspath(cache_file)), exist_ok=True)\n' + W)]),
]
BREAKING += [
    ("cache always written", [(CP, """        if cache is not None:
            logger.debug("Writing cache file '{}'".format(cache))
            self.write_cache(cache)
""", """        if cache is not None or len(results) > 3:
            cache = cache or self.file_order[0] + ".cache"
            self.write_cache(cache)
""")]),
]
PRESERVING = [
    ("atomic", [(CP, W, '''        tmp = cache_file + ".tmp"
        try:
            with open(tmp, "wb") as f:
                pickle.dump(cache, f)
            os.replace(tmp, cache_file)
        except BaseException:
            if os.path.exists(tmp):
                os.remove(tmp)
            raise
''')]),
    ("helper", [(CP, W, "        _store(cache_file, cache)\n"), (CP, "def kwl(strs):", 'def _store(path, data):\n    import pickle\n\n    with open(path, "wb") as f:\n        pickle.dump(data, f)\n\n\ndef kwl(strs):')]),
    ("write_bytes", [(CP, W, "        from pathlib import Path\n\n        Path(cache_file).write_bytes(pickle.dumps(cache))\n")]),
    ("open mode default", [(CP, 'with open(path, "r", encoding=encoding) as fd:', 'with open(path, encoding=encoding) as fd:')]),
    ("os.remove", [(FL, "os.unlink(ccout)", "os.remove(ccout)")]),
    ("tmpdir", [(FL, '''            fdout, ccout = tempfile.mkstemp()
            os.close(fdout)
''', '''            fd, path = tempfile.mkstemp()
            os.close(fd)
            ccout = path
''')]),
    ("read helper", [(CP, '''        with open(path, "r", encoding=encoding) as fd:
            self.files[path] = fd.read()
''', '''        self.files[path] = _read(path, encoding)
'''), (CP, "def kwl(strs):", 'def _read(path, encoding):\n    with open(path, "r", encoding=encoding) as fd:\n        return fd.read()\n\n\ndef kwl(strs):')]),
]

# campaign1
BREAKING += [
    ('campaign1: makedirs', [
        ('c_parser.py',
         '        with open(cache_file, "wb") as f:',
         '        os.makedirs(os.path.dirname(cache_file) or ".", exist_ok=True)\n        with open(cache_file, "wb") as f:'),
    ]),
    ('campaign1: backup', [
        ('c_parser.py',
         '        with open(cache_file, "wb") as f:',
         '        if os.path.isfile(cache_file):\n            os.rename(cache_file, cache_file + ".bak")\n        with open(cache_file, "wb") as f:'),
    ]),
    ('campaign1: stale removed', [
        ('c_parser.py',
         '                    logger.debug("Cache file is out of date.")',
         '                    os.remove(cache_file)\n                    logger.debug("Cache file is out of date.")'),
    ]),
    ('campaign1: utime', [
        ('c_parser.py',
         '            self.import_dict(cache["file_defs"])\n            return True',
         '            self.import_dict(cache["file_defs"])\n            os.utime(cache_file)\n            return True'),
    ]),
    ('campaign1: preprocessed dump', [
        ('c_parser.py',
         '                print("===== PREPROCSSED {} =======".format(f))',
         '                open(f + ".i", "w").write(self.files[f])\n                print("===== PREPROCSSED {} =======".format(f))'),
    ]),
    ('campaign1: header written', [
        ('c_parser.py',
         '        self.files[path] = comment_remover.transformString(text)',
         '        self.files[path] = comment_remover.transformString(text)\n        if os.path.isfile(path) and os.access(path, os.W_OK):\n            with open(path, "w") as f:\n                f.write(self.files[path])'),
    ]),
    ('campaign1: r+', [
        ('c_parser.py',
         'with open(path, "r", encoding=encoding)',
         'with open(path, "a+", encoding=encoding)'),
    ]),
    ('campaign1: gcc output', [
        ('thirdparty/find_library.py',
         '-o " + ccout + "',
         '-o " + name + "'),
    ]),
    ('campaign1: not unlinked', [
        ('thirdparty/find_library.py',
         '                    os.unlink(ccout)',
         '                    pass'),
    ]),
    ('campaign1: log file', [
        ('c_parser.py',
         'logger = logging.getLogger(__name__)',
         'logger = logging.getLogger(__name__)\nlogging.basicConfig(filename="pyclibrary.log")'),
    ]),
    ('campaign1: other cache path', [
        ('c_parser.py',
         'self.write_cache(cache)',
         'self.write_cache(os.path.join(os.path.dirname(__file__), "headers", cache))'),
    ]),
    ('campaign1: pathlib', [
        ('c_parser.py',
         '        with open(cache_file, "wb") as f:\n            pickle.dump(cache, f)',
         '        import pathlib\n        pathlib.Path(cache_file).write_bytes(pickle.dumps(cache))\n        pathlib.Path(cache_file).with_suffix(".ok").touch()'),
    ]),
    ('campaign1: tmp not removed on fail', [
        ('c_parser.py',
         '        with open(cache_file, "wb") as f:\n            pickle.dump(cache, f)',
         '        with open(cache_file + ".tmp", "wb") as f:\n            pickle.dump(cache, f)\n        os.replace(cache_file + ".tmp", cache_file)'),
    ]),
]
PRESERVING += [
    ('campaign1: tmp replaced', [
        ('c_parser.py',
         '        with open(cache_file, "wb") as f:\n            pickle.dump(cache, f)',
         '        tmp = cache_file + ".tmp"\n        try:\n            with open(tmp, "wb") as f:\n                pickle.dump(cache, f)\n            os.replace(tmp, cache_file)\n        except BaseException:\n            if os.path.exists(tmp):\n                os.unlink(tmp)\n            raise'),
    ]),
]
