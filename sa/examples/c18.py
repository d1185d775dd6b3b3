CP = "c_parser.py"
TD = '''        """ """
        logger.debug("TYPE: {}".format(t))
        try:
            typ = t.type
            for d in t.decl_list:
                (name, decl) = self.process_type(typ, d)
                logger.debug("  {} {}".format(name, decl))
                self.add_def("types", name, decl)

        except Exception:
            logger.exception("Error processing typedef: {}".format(t))
'''
DEF = '''                    try:
                        # Macro is registered here
                        self.pp_define.parseString(macroName + rest)
                    except Exception:
                        logger.exception(
                            "Error processing macro definition:"
                            + "{}, {}".format(macroName, rest)
                        )
'''
UND = '''                        try:
                            self.rem_def(kind, macroName.strip())
                        except Exception:
                            if sys.exc_info()[0] is not KeyError:
                                mess = "Error removing macro definition '{}'"
                                logger.exception(mess.format(macroName.strip()))
'''
EV = '''        try:
            ev = bool(eval(expr2, {"__builtins__": {}}))
        except Exception:
            mess = "Error evaluating preprocessor expression: {} [{}]\\n{}"
            logger.debug(mess.format(expr, repr(expr2), format_exc()))
            ev = False
        return ev
'''
FM = '''                try:
                    exp, end = self.expand_fn_macro(name, line[m.end(N) :])
                except Exception:
                    exp = name
'''
EE = '''        except Exception:
            logger.debug("    failed eval {} : {}".format(toks, format_exc()))
            return None
'''
FN = '''        try:
            name, decl = self.process_type(t.type, t.decl[0])
            if len(decl) == 0 or type(decl[-1]) is not tuple:
'''
FNE = '''        except Exception:
            logger.exception("Error processing function: {}".format(t))
'''
VA = '''        try:
            init = self.eval_expr(t[0])
            last = len(t[0].decl_list) - 1
            for i, d in enumerate(t[0].decl_list):
                # The initialiser is the one of the last declarator
                val = init if i == last else None
                (name, typ) = self.process_type(t[0].type, d)
'''
STE = '''        except Exception:
            logger.exception("Error processing struct: {}".format(t))
'''
ENE = '''        except Exception:
            logger.exception("Error processing enum: {}".format(t))
'''
SCAN = '            return [x[0] for x in parser.scanString(self.files[path])]'

BREAKING = [
    ("typedef unprotected", [(CP, TD, '''        """ """
        logger.debug("TYPE: {}".format(t))
        typ = t.type
        for d in t.decl_list:
            (name, decl) = self.process_type(typ, d)
            logger.debug("  {} {}".format(name, decl))
            self.add_def("types", name, decl)
''')]),
    ("typedef resolved before the try", [(CP, TD, TD.replace("        try:\n            typ = t.type\n            for d in t.decl_list:\n                (name, decl) = self.process_type(typ, d)\n",
     "        decls = [self.process_type(t.type, d) for d in t.decl_list]\n        try:\n            for name, decl in decls:\n"))]),
    ("handler of functions narrowed", [(CP, FNE, FNE.replace("Exception:", "DefinitionError:"))]),
    ("handler of structures narrowed", [(CP, STE, STE.replace("except Exception", "except (KeyError, ValueError)"))]),
    ("handler of enums raises again", [(CP, ENE, ENE + "            raise\n")]),
    ("handler of variables turns the error", [(CP, '            logger.exception("Error processing variable: {}".format(t))\n',
     '            raise DefinitionError("Error processing variable: {}".format(t))\n')]),
    ("value evaluated before", [(CP, VA, VA.replace("        try:\n            init = self.eval_expr(t[0])\n",
     "        first = self.process_type(t[0].type, t[0].decl_list[0])\n        try:\n            init = self.eval_expr(t[0])\n"))]),
    ("undef raises for unknown macros", [(CP, UND, UND.replace('''                        except Exception:
                            if sys.exc_info()[0] is not KeyError:
                                mess = "Error removing macro definition '{}'"
                                logger.exception(mess.format(macroName.strip()))
''', '''                        except Exception:
                            if sys.exc_info()[0] is not KeyError:
                                raise
'''))]),
    ("undef unprotected", [(CP, UND, "                        self.rem_def(kind, macroName.strip())\n")]),
    ("define protected against grammar errors only", [(CP, DEF, DEF.replace("except Exception", "except ParseException")),
     (CP, "from .errors import", "from pyparsing import ParseException\n\nfrom .errors import")]),
    ("conditions protected against syntax errors only", [(CP, EV, EV.replace("except Exception", "except (SyntaxError, NameError)"))]),
    ("faulty macro call raises", [(CP, FM, FM.replace("except Exception", "except DefinitionError"))]),
    ("expressions raise", [(CP, EE, EE.replace("return None", "raise"))]),
    ("expressions catch less", [(CP, EE, EE.replace("except Exception", "except (NameError, SyntaxError)"))]),
    ("failed expression gives zero", [(CP, EE, EE.replace("return None", "return 0"))]),
    ("failed expression gives its text", [(CP, EE, EE.replace("return None", "return str(toks)"))]),
    ("text parsed from its start", [(CP, SCAN, "            return [parser.parseString(self.files[path])]")]),
    ("strict enums", [(CP, '            if name not in self.defs["enums"] or self.defs["enums"][name] == {}:', '            if name not in self.defs["enums"] or self.defs["enums"][name] == {}:'),
     (CP, '        """ """\n        try:\n            logger.debug("ENUM: {}".format(t))', '        """ """\n        if len(t) < 2:\n            raise DefinitionError("incomplete enum")\n        try:\n            logger.debug("ENUM: {}".format(t))')]),
    ("name of functions read early", [(CP, FN, "        args = t.decl[0]\n        nargs = int(args[-1])\n" + FN)]),
    ("unknown directive refused", [(CP, '''                    mess = "Ignored directive {} at line {}"
                    logger.debug(mess.format(d, i))''', '''                    mess = "Unknown directive {} at line {}"
                    raise DefinitionError(mess.format(d, i))''')]),
    ("recombine strict", [(CP, '    return " ".join(flatten(tok.asList()))', '    flat = flatten(tok.asList())\n    if not flat:\n        raise DefinitionError("empty type")\n    return " ".join(flat)')]),
    ("wrong scope of the try", [(CP, '''            self.add_def("functions", name, decl.add_compatibility_hack())

        except Exception:
            logger.exception("Error processing function: {}".format(t))
''', '''        except Exception:
            logger.exception("Error processing function: {}".format(t))
            return
        self.add_def("functions", name, decl.add_compatibility_hack())
''')]),
]

PRESERVING = [
    ("bare except", [(CP, FNE, FNE.replace("except Exception", "except (Exception,)"))]),
    ("body of typedef extracted", [(CP, TD, '''        """ """
        logger.debug("TYPE: {}".format(t))
        try:
            self._add_typedef(t)

        except Exception:
            logger.exception("Error processing typedef: {}".format(t))

    def _add_typedef(self, t):
        typ = t.type
        for d in t.decl_list:
            (name, decl) = self.process_type(typ, d)
            logger.debug("  {} {}".format(name, decl))
            self.add_def("types", name, decl)
''')]),
    ("whole typedef extracted", [(CP, TD, '''        """ """
        self._typedef(t)

    def _typedef(self, t):
''' + TD.split("\n", 1)[1])]),
    ("decorator", [(CP, "class CParser(", '''def reporting(kind):
    def deco(fn):
        def run(self, s, line, t):
            try:
                return fn(self, s, line, t)
            except Exception:
                logger.exception("Error processing {}: {}".format(kind, t))

        return run

    return deco


class CParser('''), (CP, "    def process_typedef(self, s, line, t):\n" + TD, '''    @reporting("typedef")
    def process_typedef(self, s, line, t):
        """ """
        logger.debug("TYPE: {}".format(t))
        typ = t.type
        for d in t.decl_list:
            (name, decl) = self.process_type(typ, d)
            logger.debug("  {} {}".format(name, decl))
            self.add_def("types", name, decl)
''')]),
    ("context manager", [(CP, "class CParser(", '''@contextmanager
def reported(kind, t):
    try:
        yield
    except Exception:
        logger.exception("Error processing {}: {}".format(kind, t))


class CParser('''), (CP, "from traceback import", "from contextlib import contextmanager\nfrom traceback import"), (CP, TD, '''        """ """
        logger.debug("TYPE: {}".format(t))
        with reported("typedef", t):
            typ = t.type
            for d in t.decl_list:
                (name, decl) = self.process_type(typ, d)
                logger.debug("  {} {}".format(name, decl))
                self.add_def("types", name, decl)
''')]),
    ("suppressed", [(CP, "from traceback import", "from contextlib import suppress\nfrom traceback import"), (CP, UND, '''                        with suppress(KeyError):
                            self.rem_def(kind, macroName.strip())
''')]),
    ("undef helper", [(CP, UND, "                        self._forget_macro(kind, macroName.strip())\n"),
     (CP, "    def eval_preprocessor_expr(self, expr):", '''    def _forget_macro(self, kind, name):
        try:
            self.rem_def(kind, name)
        except KeyError:
            pass

    def eval_preprocessor_expr(self, expr):''')]),
    ("undef tested", [(CP, UND, '''                        if macroName.strip() in self.defs[kind]:
                            try:
                                self.rem_def(kind, macroName.strip())
                            except KeyError:
                                pass
''')]),
    ("define helper", [(CP, DEF, "                    self._define(macroName, rest)\n"), (CP, "    def eval_preprocessor_expr(self, expr):", '''    def _define(self, macro, rest):
        try:
            self.pp_define.parseString(macro + rest)
        except Exception:
            logger.exception("Error processing macro definition: {}, {}".format(macro, rest))

    def eval_preprocessor_expr(self, expr):''')]),
    ("return after the try", [(CP, EE, '''        except Exception:
            logger.debug("    failed eval {} : {}".format(toks, format_exc()))
        return None
''')]),
    ("condition returned in the try", [(CP, EV, '''        try:
            return bool(eval(expr2, {"__builtins__": {}}))
        except Exception:
            mess = "Error evaluating preprocessor expression: {} [{}]\\n{}"
            logger.debug(mess.format(expr, repr(expr2), format_exc()))
        return False
''')]),
    ("searched", [(CP, SCAN, '''            found = []
            for tokens, _, _ in parser.scanString(self.files[path]):
                found.append(tokens)
            return found''')]),
    ("actions registered by a table", [(CP, "        self.type_decl.setParseAction(self.process_typedef)\n", '''        for elem, act in ((self.type_decl, self.process_typedef),):
            elem.setParseAction(act)
''')]),
    ("undef of known macros only", [(CP, UND, """                        if macroName.strip() in self.defs[kind]:
                            self.rem_def(kind, macroName.strip())
""")]),
    ("undef of known macros only, skipping", [(CP, UND, """                        name_ = macroName.strip()
                        if name_ not in self.defs[kind]:
                            continue
                        self.rem_def(kind, name_)
""")]),
]
