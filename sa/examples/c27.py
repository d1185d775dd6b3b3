CP = "c_parser.py"
ST = """        for f in self.file_order:
            if self.files[f] is None:
                # This means the file could not be loaded and there was no
                # cache.
                mess = 'Could not find header file "{}" or a cache file.'
                raise IOError(mess.format(f))

            logger.debug("Removing comments from file '{}'...".format(f))
            self.remove_comments(f)

            logger.debug("Preprocessing file '{}'...".format(f))
            self.preprocess(f)

            if print_after_preprocess:
                print("===== PREPROCSSED {} =======".format(f))
                print(self.files[f])

            logger.debug("Parsing definitions in file '{}'...".format(f))

            results.append(self.parse_defs(f, return_unparsed))

        if cache is not None:
            logger.debug("Writing cache file '{}'".format(cache))
            self.write_cache(cache)

        return results
"""
LOOP = ST[:ST.index("        if cache is not None")]
WR = ST[len(LOOP):]
LC = """        if cache is not None and self.load_cache(
            cache, check_validity=check_cache_validity
        ):
            logger.debug("Loaded cached definitions; will skip parsing.")
            # Cached values loaded successfully, nothing left to do here
            return

"""
LF = """        with open(path, "r", encoding=encoding) as fd:
            self.files[path] = fd.read()

        if replace is not None:
            for s in replace:
                self.files[path] = re.sub(s, replace[s], self.files[path])

"""
ENC = """        if encoding is None:
            encoding = self.default_encoding

"""
INI = """            if isinstance(files, str):
                files = [files]
            for f in self.find_headers(files):
                self.load_file(f, replace, encoding)
"""
BREAKING = [
    ("preprocess first", [(CP, ST, ST.replace("self.remove_comments(f)", "self.XX(f)").replace("self.preprocess(f)", "self.remove_comments(f)").replace("self.XX(f)", "self.preprocess(f)"))]),
    ("stage by stage", [(CP, ST, ST.replace("            if print_after", "        for f in self.file_order:\n            if print_after"))]),
    ("set of files", [(CP, ST, ST.replace("for f in self.file_order", "for f in set(self.file_order)"))]),
    ("reversed", [(CP, ST, ST.replace("for f in self.file_order", "for f in self.file_order[::-1]"))]),
    ("files dict", [(CP, ST, ST.replace("for f in self.file_order", "for f in sorted(self.files)"))]),
    ("parse skipped", [(CP, ST, ST.replace("            results.append", "            if not self.files[f].strip():\n                continue\n            results.append"))]),
    ("comments kept", [(CP, ST, ST.replace("            self.remove_comments(f)\n", "            if '/*' in self.files[f]:\n                self.remove_comments(f)\n"))]),
    ("cache each time", [(CP, ST, LOOP + "            if cache is not None:\n                self.write_cache(cache)\n\n        return results\n")]),
    ("cache finally", [(CP, ST, "        try:\n" + "".join("    " + x + "\n" if x else "\n" for x in LOOP.split("\n")[:-1]) + "        finally:\n            if cache is not None:\n                self.write_cache(cache)\n        return results\n")]),
    ("cache before", [(CP, ST, WR.replace("        return results\n", "") + LOOP + "        return results\n")]),
    ("cache not loaded", [(CP, LC, "")]),
    ("errors swallowed", [(CP, ST, ST.replace("            results.append(self.parse_defs(f, return_unparsed))\n", "            try:\n                results.append(self.parse_defs(f, return_unparsed))\n            except Exception:\n                logger.exception(f)\n"))]),
    ("preprocess errors swallowed", [(CP, ST, ST.replace("            self.preprocess(f)\n", "            try:\n                self.preprocess(f)\n            except Exception:\n                logger.exception(f)\n"))]),
    ("cached but parsed", [(CP, LC, LC.replace("            return\n", ""))]),
    ("validity ignored", [(CP, LC, LC.replace("check_validity=check_cache_validity", "check_validity=False"))]),
    ("default always", [(CP, ENC, "        encoding = self.default_encoding\n\n")]),
    ("no default", [(CP, ENC, "")]),
    ("errors ignored", [(CP, LF, LF.replace('encoding=encoding', 'encoding=encoding, errors="ignore"'))]),
    ("binary", [(CP, LF, LF.replace('open(path, "r", encoding=encoding)', 'open(path, "rb")').replace("fd.read()", "fd.read().decode('latin-1')"))]),
    ("replace on original", [(CP, LF, """        with open(path, "r", encoding=encoding) as fd:
            text = self.files[path] = fd.read()

        if replace is not None:
            for s in replace:
                self.files[path] = re.sub(s, replace[s], text[:])

""")]),
    ("replace first", [(CP, LF, LF.replace("self.files[path])\n", "self.files[path])\n                break\n"))]),
    ("replace unless", [(CP, LF, LF.replace("            for s in replace:\n", "            for s in replace:\n                if not replace[s]:\n                    continue\n"))]),
    ("stripped", [(CP, LF, LF.replace("fd.read()", "fd.read().strip()"))]),
    ("encoding dropped", [(CP, INI, INI.replace("replace, encoding", "replace")), (CP, "        self.default_encoding = encoding\n", "        self.default_encoding = None\n")]),
    ("first header", [(CP, INI, INI + "                break\n")]),
    ("once queued", [(CP, "        self.file_order.append(path)\n", "        self.file_order.insert(0, path)\n")]),
    ("missing queued", [(CP, "            self.files[path] = None\n            return False\n", "            self.files[path] = None\n            self.file_order.append(path)\n            return False\n")]),
    ("only one replace", [(CP, INI, INI.replace("self.load_file(f, replace, encoding)", "self.load_file(f, replace, encoding)\n                replace = None"))]),
    ("not processed", [(CP, "        if process_all:\n", "        if process_all and cache is None:\n")]),
    ("preprocess another text", [(CP, "        text = self.files[path]\n\n        # First join", "        text = self.files[self.file_order[0]]\n\n        # First join")]),
]
PRESERVING = [
    ("reraised", [(CP, ST, ST.replace("            self.preprocess(f)\n", "            try:\n                self.preprocess(f)\n            except Exception:\n                logger.exception(f)\n                raise\n"))]),
    ("helper", [(CP, ST, """        for f in self.file_order:
            results.append(self._process_file(f, return_unparsed, print_after_preprocess))

""" + WR + """
    def _process_file(self, f, return_unparsed, print_after_preprocess):
        if self.files[f] is None:
            mess = 'Could not find header file "{}" or a cache file.'
            raise IOError(mess.format(f))
        self.remove_comments(f)
        self.preprocess(f)
        if print_after_preprocess:
            print(self.files[f])
        return self.parse_defs(f, return_unparsed)
""")]),
    ("enumerate", [(CP, ST, ST.replace("for f in self.file_order:", "for _i, f in enumerate(self.file_order):"))]),
    ("keyword", [(CP, ST, ST.replace("self.parse_defs(f, return_unparsed)", "self.parse_defs(f, return_unparsed=return_unparsed)"))]),
    ("no cache inverted", [(CP, ST, LOOP + """        if cache is None:
            return results
        self.write_cache(cache)
        return results
""")]),
    ("nested load", [(CP, LC, """        if cache is not None:
            if self.load_cache(cache, check_validity=check_cache_validity):
                logger.debug("Loaded cached definitions; will skip parsing.")
                return

""")]),
    ("loaded flag", [(CP, LC, """        loaded = cache is not None and self.load_cache(cache, check_cache_validity)
        if loaded:
            logger.debug("Loaded cached definitions; will skip parsing.")
            return

""")]),
    ("local text", [(CP, LF, """        with open(path, "r", encoding=encoding) as fd:
            text = fd.read()

        if replace is not None:
            for s in replace:
                text = re.sub(s, replace[s], text)
        self.files[path] = text

""")]),
    ("items", [(CP, LF, LF.replace("for s in replace:", "for s, r in replace.items():").replace("replace[s]", "r"))]),
    ("or empty", [(CP, LF, LF.replace("        if replace is not None:\n            for s in replace:\n                self.files", "        for s in replace or {}:\n            self.files"))]),
    ("encoding expr", [(CP, ENC, ""), (CP, 'open(path, "r", encoding=encoding)', 'open(path, "r", encoding=self.default_encoding if encoding is None else encoding)')]),
    ("read helper", [(CP, LF, """        self.files[path] = self._read(path, encoding)

        if replace is not None:
            for s in replace:
                self.files[path] = re.sub(s, replace[s], self.files[path])

"""), (CP, "    def _format_parsed_file(", """    @staticmethod
    def _read(path, encoding):
        with open(path, "r", encoding=encoding) as fd:
            return fd.read()

    def _format_parsed_file(""")]),
    ("replace helper", [(CP, LF, """        with open(path, "r", encoding=encoding) as fd:
            self.files[path] = self._apply(fd.read(), replace)

"""), (CP, "    def _format_parsed_file(", """    @staticmethod
    def _apply(text, replace):
        if replace is None:
            return text
        for s in replace:
            text = re.sub(s, replace[s], text)
        return text

    def _format_parsed_file(""")]),
    ("compiled", [(CP, LF, LF.replace("re.sub(s, replace[s], self.files[path])", "re.compile(s).sub(replace[s], self.files[path])"))]),
    ("found first", [(CP, INI, INI.replace("            for f in self.find_headers(files):\n", "            headers = self.find_headers(files)\n            for f in headers:\n"))]),
    ("ternary files", [(CP, INI, """            names = [files] if isinstance(files, str) else files
            for f in self.find_headers(names):
                self.load_file(f, replace=replace, encoding=encoding)
""")]),
    ("exists inverted", [(CP, """        if not os.path.isfile(path):
            # Not a fatal error since we might be able to function properly if
            # there is a cache file.
            mess = "Warning: C header '{}' is missing, this may cause trouble."
            logger.warning(mess.format(path))
            self.files[path] = None
            return False

""", """        missing = not os.path.isfile(path)
        if missing:
            mess = "Warning: C header '{}' is missing, this may cause trouble."
            logger.warning(mess.format(path))
            self.files[path] = None
            return False

""")]),
    ("comprehension", [(CP, ST, ST.replace("            results.append(self.parse_defs(f, return_unparsed))", "            results += [self.parse_defs(f, return_unparsed)]"))]),
    ("while", [(CP, ST, ST.replace("        for f in self.file_order:\n", "        files = list(self.file_order)\n        for f in files:\n"))]),
]

# campaign3
BREAKING += [
    ('campaign3: replace string', [
        ('c_parser.py',
         'self.files[path] = re.sub(s, replace[s], self.files[path])',
         'self.files[path] = self.files[path].replace(s, replace[s])'),
    ]),
    ('campaign3: replace count', [
        ('c_parser.py',
         're.sub(s, replace[s], self.files[path])',
         're.sub(s, replace[s], self.files[path], 1)'),
    ]),
    ('campaign3: skip parse on unparsed', [
        ('c_parser.py',
         '            results.append(self.parse_defs(f, return_unparsed))',
         '            if self.files[f].strip():\n                results.append(self.parse_defs(f, return_unparsed))'),
    ]),
    ('campaign3: order set', [
        ('c_parser.py',
         '        for f in self.file_order:\n            if self.files[f] is None',
         '        for f in sorted(self.file_order):\n            if self.files[f] is None'),
    ]),
    ('campaign3: default encoding lost', [
        ('c_parser.py',
         '            encoding = self.default_encoding\n',
         '            encoding = None\n'),
    ]),
    ('campaign3: errors replace', [
        ('c_parser.py',
         'with open(path, "r", encoding=encoding) as fd:',
         'with open(path, "r", encoding=encoding, errors="replace") as fd:'),
    ]),
    ('campaign3: missing none', [
        ('c_parser.py',
         '            if self.files[f] is None:\n',
         '            if not self.files[f]:\n                continue\n            if self.files[f] is None:\n'),
    ]),
    ('campaign3: comments of original', [
        ('c_parser.py',
         '            self.remove_comments(f)\n',
         "            if '/*' in self.files[f]:\n                self.remove_comments(f)\n"),
    ]),
    ('campaign3: process on cache fail', [
        ('c_parser.py',
         '        if cache is not None and self.load_cache(\n            cache, check_validity=check_cache_validity\n        ):',
         '        if cache is not None and os.path.isfile(cache) and self.load_cache(\n            cache, check_validity=check_cache_validity\n        ):'),
    ]),
    ('campaign3: pass kwarg wrong', [
        ('c_parser.py',
         '            self.process_all(cache=cache, check_cache_validity=check_cache_validity)',
         '            self.process_all(cache=cache)'),
    ]),
    ('campaign3: files string', [
        ('c_parser.py',
         '            if isinstance(files, str):\n                files = [files]\n',
         "            if isinstance(files, str):\n                files = files.split(',')\n"),
    ]),
]
