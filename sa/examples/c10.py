CP = "c_parser.py"
FR = '''            for f in self.file_order:
                # If file does not exist, then it does not count against the
                # validity of the cache.
                if os.path.isfile(f) and os.stat(f).st_mtime > mtime:
                    logger.debug("Cache file is out of date.")
                    return False
'''
OP = 'if cache["opts"] != self.init_opts:'
VE = 'if cache["version"] != self.cache_version:'
WR = '''        if cache is not None:
            logger.debug("Writing cache file '{}'".format(cache))
            self.write_cache(cache)

        return results
'''
APP = '            results.append(self.parse_defs(f, return_unparsed))\n'
CF = '            self.init_opts["copy_from"] = [p.file_defs for p in copy_from]\n'
BREAKING = [
    ("first file only", [(CP, "for f in self.file_order:\n                # If file", "for f in self.file_order[:1]:\n                # If file")]),
    ("last wins", [(CP, FR, '''            stale = False
            for f in self.file_order:
                stale = os.path.isfile(f) and os.stat(f).st_mtime > mtime
            if stale:
                return False
''')]),
    ("break", [(CP, '''                    logger.debug("Cache file is out of date.")
                    return False
''', '''                    logger.debug("Cache file is out of date.")
                    break
''')]),
    ("truncated", [(CP, "os.stat(f).st_mtime > mtime", "int(os.stat(f).st_mtime) > int(mtime)")]),
    ("reversed", [(CP, "os.stat(f).st_mtime > mtime", "os.stat(f).st_mtime < mtime")]),
    ("ctime", [(CP, "mtime = os.stat(cache_file).st_mtime", "mtime = os.stat(cache_file).st_atime")]),
    ("margin", [(CP, "os.stat(f).st_mtime > mtime", "os.stat(f).st_mtime > mtime + 2")]),
    ("only size", [(CP, "os.stat(f).st_mtime > mtime", "os.stat(f).st_size == 0")]),
    ("only files", [(CP, OP, 'if cache["opts"]["files"] != self.init_opts["files"]:')]),
    ("keys only", [(CP, OP, 'if set(cache["opts"]) != set(self.init_opts):')]),
    ("version lt", [(CP, VE, 'if cache["version"] < self.cache_version:')]),
    ("no version", [(CP, VE, 'if False:')]),
    ("opts or version", [(CP, VE, 'if cache["version"] != self.cache_version and cache["opts"] != self.init_opts:')]),
    ("version get default", [(CP, VE, 'if cache.get("version", self.cache_version) != self.cache_version:')]),
    ("opts replace ignored", [(CP, 'self.init_opts["replace"][bn] = replace\n', 'pass\n')]),
    ("encoding not in opts", [(CP, '        self.init_opts["encoding"] = encoding\n', '')]),
    ("kwargs not in opts", [(CP, 'self.init_opts = kwargs.copy()', 'self.init_opts = {}')]),
    ("copy_from not in opts", [(CP, CF, '')]),
    ("copy_from count", [(CP, CF, '            self.init_opts["copy_from"] = len(copy_from)\n')]),
    ("copy_from late", [(CP, CF, ''), (CP, "            self.process_all(cache=cache, check_cache_validity=check_cache_validity)\n\n    def process_all", "            self.process_all(cache=cache, check_cache_validity=check_cache_validity)\n\n        if copy_from is not None:\n            self.init_opts[\"copy_from\"] = [p.file_defs for p in copy_from]\n\n    def process_all")]),
    ("files not recorded", [(CP, '        self.init_opts["files"].append(bn)\n', '        if len(self.file_order) < 2:\n            self.init_opts["files"].append(bn)\n'), (CP, 'self.init_opts["replace"][bn] = replace', 'self.init_opts["replace"] = replace')]),
    ("copy_from opts", [(CP, CF, '            self.init_opts["copy_from"] = [p.init_opts for p in copy_from]\n')]),
    ("no validity", [(CP, "cache, check_validity=check_cache_validity\n", "cache\n")]),
    ("written in loop", [(CP, WR, "        return results\n"), (CP, APP, APP + "            if cache is not None:\n                self.write_cache(cache)\n")]),
    ("narrow except", [(CP, "        except Exception:\n            logger.exception(\"Warning--cache read failed:\")", "        except (IOError, EOFError):\n            logger.exception(\"Warning--cache read failed:\")")]),
    ("reraise", [(CP, "            logger.exception(\"Warning--cache read failed:\")\n            return False", "            logger.exception(\"Warning--cache read failed:\")\n            raise")]),
    ("read outside try", [(CP, '''        try:
            # Read cache file
            import pickle

            with open(cache_file, "rb") as fd:
                cache = pickle.load(fd)
''', '''        # Read cache file
        import pickle

        with open(cache_file, "rb") as fd:
            cache = pickle.load(fd)
        try:
''')]),
    ("success on failure", [(CP, "            logger.exception(\"Warning--cache read failed:\")\n            return False", "            logger.exception(\"Warning--cache read failed:\")\n            return True")]),
    ("restore some", [(CP, "            for k in self.data_list:\n                for n in data[f][k]:", "            for k in self.data_list[:-1]:\n                for n in data[f][k]:")]),
    ("restore filter", [(CP, "                for n in data[f][k]:\n", "                for n in data[f][k]:\n                    if n.startswith(\"_\"):\n                        continue\n")]),
    ("other defs written", [(CP, 'cache["file_defs"] = self.file_defs', 'cache["file_defs"] = {None: self.defs}')]),
    ("opts constant", [(CP, 'cache["opts"] = self.init_opts', 'cache["opts"] = {}')]),
    ("check before", [(CP, OP, 'if cache["opts"] != self.init_opts and cache["opts"]:')]),
]
PRESERVING = [
    ("any", [(CP, FR, '''            if any(os.path.isfile(f) and os.stat(f).st_mtime > mtime for f in self.file_order):
                return False
''')]),
    ("all helper", [(CP, FR, '''            if not self._fresh(mtime):
                return False
'''), (CP, "    def import_dict(self, data):", '''    def _fresh(self, mtime):
        for f in self.file_order:
            if not os.path.isfile(f):
                continue
            if os.stat(f).st_mtime > mtime:
                return False
        return True

    def import_dict(self, data):''')]),
    ("getmtime", [(CP, "os.stat(f).st_mtime > mtime", "os.path.getmtime(f) > mtime"), (CP, "mtime = os.stat(cache_file).st_mtime", "mtime = os.path.getmtime(cache_file)")]),
    ("swap", [(CP, "os.stat(f).st_mtime > mtime", "mtime < os.stat(f).st_mtime")]),
    ("combined", [(CP, OP, 'if cache["opts"] != self.init_opts or cache["version"] != self.cache_version:'), (CP, '''
                if cache["version"] != self.cache_version:
                    mess = "Cache file is not valid--cache format has changed."
                    logger.debug(mess)
                    return False
''', "")]),
    ("version first", [(CP, '''            if check_validity:
                if cache["opts"]''', '''            if check_validity and cache["version"] != self.cache_version:
                return False
            if check_validity:
                if cache["opts"]'''), (CP, '''
                if cache["version"] != self.cache_version:
                    mess = "Cache file is not valid--cache format has changed."
                    logger.debug(mess)
                    return False
''', "")]),
    ("valid helper", [(CP, '''                if cache["opts"] != self.init_opts:
                    db = logger.debug
                    db("Cache file is not valid")
                    db("It was created using different initialization options")
                    db("{}".format(cache["opts"]))
                    db("{}".format(self.init_opts))
                    return False

                else:
                    logger.debug("Cache init opts are OK:")
                    logger.debug("{}".format(cache["opts"]))

                if cache["version"] != self.cache_version:
                    mess = "Cache file is not valid--cache format has changed."
                    logger.debug(mess)
                    return False
''', '''                if not self._matches(cache):
                    return False
'''), (CP, "    def import_dict(self, data):", '''    def _matches(self, cache):
        if cache["opts"] != self.init_opts:
            logger.debug("Cache file is not valid")
            return False
        return cache["version"] == self.cache_version

    def import_dict(self, data):''')]),
    ("dict literal", [(CP, '''        cache = {}
        cache["opts"] = self.init_opts
        cache["file_defs"] = self.file_defs
        cache["version"] = self.cache_version
''', '''        cache = {
            "opts": self.init_opts,
            "file_defs": self.file_defs,
            "version": self.cache_version,
        }
''')]),
    ("opts literal", [(CP, '''        self.init_opts = kwargs.copy()
        self.init_opts["files"] = []
        self.init_opts["replace"] = {}
        self.init_opts["encoding"] = encoding
''', '''        self.init_opts = dict(kwargs, files=[], replace={}, encoding=encoding)
''')]),
    ("opts literal 2", [(CP, '''        self.init_opts = kwargs.copy()
        self.init_opts["files"] = []
        self.init_opts["replace"] = {}
        self.init_opts["encoding"] = encoding
''', '''        self.init_opts = {**kwargs, "files": [], "replace": {}, "encoding": encoding}
''')]),
    ("opts update", [(CP, '''        self.init_opts["files"] = []
        self.init_opts["replace"] = {}
        self.init_opts["encoding"] = encoding
''', '''        self.init_opts.update(files=[], replace={}, encoding=encoding)
''')]),
    ("guard", [(CP, WR, '''        if cache is None:
            return results
        self.write_cache(cache)
        return results
''')]),
    ("restore items", [(CP, '''        for f in data.keys():
            self.current_file = f
            for k in self.data_list:
                for n in data[f][k]:
                    self.add_def(k, n, data[f][k][n])
''', '''        for f, categories in data.items():
            self.current_file = f
            for k in self.data_list:
                for n, val in categories[k].items():
                    self.add_def(k, n, val)
''')]),
    ("early isfile", [(CP, FR, '''            headers = [f for f in self.file_order if os.path.isfile(f)]
            for f in headers:
                if os.stat(f).st_mtime > mtime:
                    return False
''')]),
    ("max", [(CP, FR, '''            newest = max((os.stat(f).st_mtime for f in self.file_order if os.path.isfile(f)), default=0)
            if newest > mtime:
                return False
''')]),
    ("try else", [(CP, '''            # Import all parse results
            self.import_dict(cache["file_defs"])
            return True

        except Exception:
            logger.exception("Warning--cache read failed:")
            return False
''', '''            # Import all parse results
            self.import_dict(cache["file_defs"])

        except Exception:
            logger.exception("Warning--cache read failed:")
            return False

        return True
''')]),
    ("comp", [(CP, '            for f in self.find_headers(files):\n                self.load_file(f, replace, encoding)\n', '            found = self.find_headers(files)\n            for header in found:\n                self.load_file(header, replace=replace, encoding=encoding)\n')]),
]

# campaign2
BREAKING += [
    ('campaign2: le mtime', [
        ('c_parser.py',
         'os.stat(f).st_mtime > mtime',
         'int(os.stat(f).st_mtime) > int(mtime)'),
    ]),
    ('campaign2: mtime any', [
        ('c_parser.py',
         '            for f in self.file_order:\n                # If file does',
         '            for f in self.file_order[:1]:\n                # If file does'),
    ]),
    ('campaign2: ctime', [
        ('c_parser.py',
         'mtime = os.stat(cache_file).st_mtime',
         'mtime = os.stat(cache_file).st_atime'),
    ]),
    ('campaign2: opts subset', [
        ('c_parser.py',
         'if cache["opts"] != self.init_opts:',
         'if cache["opts"]["files"] != self.init_opts["files"]:'),
    ]),
    ('campaign2: opts all keys', [
        ('c_parser.py',
         'if cache["opts"] != self.init_opts:',
         'if any(cache["opts"].get(k, v) != v for k, v in self.init_opts.items()):'),
    ]),
    ('campaign2: version le', [
        ('c_parser.py',
         'if cache["version"] != self.cache_version:',
         'if cache["version"] < self.cache_version:'),
    ]),
    ('campaign2: version in try', [
        ('c_parser.py',
         '                if cache["version"] != self.cache_version:',
         '                if cache.get("version", self.cache_version) != self.cache_version:'),
    ]),
    ('campaign2: import before', [
        ('c_parser.py',
         '                cache = pickle.load(fd)\n',
         '                cache = pickle.load(fd)\n            self.import_dict(cache["file_defs"])\n'),
    ]),
    ('campaign2: replace not recorded', [
        ('c_parser.py',
         '        self.init_opts["replace"][bn] = replace\n',
         '        self.init_opts["replace"][bn] = replace is not None\n'),
    ]),
    ('campaign2: encoding late', [
        ('c_parser.py',
         '        self.init_opts["encoding"] = encoding\n',
         ''),
    ]),
    ('campaign2: kwargs not in opts', [
        ('c_parser.py',
         'self.init_opts = kwargs.copy()',
         'self.init_opts = dict.fromkeys(kwargs)'),
    ]),
    ('campaign2: copied names only', [
        ('c_parser.py',
         'self.init_opts["copy_from"] = [p.file_defs for p in copy_from]',
         'self.init_opts["copy_from"] = [list(p.file_defs) for p in copy_from]'),
    ]),
    ('campaign2: copied after processing', [
        ('c_parser.py',
         '            self.init_opts["copy_from"] = [p.file_defs for p in copy_from]\n',
         '            if not process_all:\n                self.init_opts["copy_from"] = [p.file_defs for p in copy_from]\n'),
    ]),
    ('campaign2: unreadable raises', [
        ('c_parser.py',
         '        except Exception:\n            logger.exception("Warning--cache read failed:")',
         '        except (OSError, ValueError):\n            logger.exception("Warning--cache read failed:")'),
    ]),
    ('campaign2: unpickling error', [
        ('c_parser.py',
         '            with open(cache_file, "rb") as fd:\n                cache = pickle.load(fd)\n',
         '            with open(cache_file, "rb") as fd:\n                cache = pickle.load(fd)\n        except EOFError:\n            return True\n        try:\n            pass\n'),
    ]),
    ('campaign2: check always false', [
        ('c_parser.py',
         '            if check_validity:\n                if cache',
         '            if check_validity and self.file_order:\n                if cache'),
    ]),
    ('campaign2: missing header', [
        ('c_parser.py',
         'if os.path.isfile(f) and os.stat(f).st_mtime > mtime:',
         'if os.stat(f).st_mtime > mtime if os.path.isfile(f) and os.access(f, os.W_OK) else False:'),
    ]),
]
