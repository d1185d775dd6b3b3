CP = "c_parser.py"
CONV = """        if "call_conv" in decl and len(decl["call_conv"]) > 0:
            toks.append(decl["call_conv"])
            quals.append(None)

"""
PTRS = """        if "ptrs" in decl and len(decl["ptrs"]) > 0:
            toks += ("*",) * len(decl["ptrs"])
            quals += map(tuple, decl["ptrs"])

"""
ARR = """        if "arrays" in decl and len(decl["arrays"]) > 0:
            toks.extend([self.eval_expr(x)] for x in decl["arrays"])
            quals += [()] * len(decl["arrays"])

"""
ARGS = """        if "args" in decl and len(decl["args"]) > 0:
            if decl["args"][0] is None:
                toks.append(())
            else:
                ex = lambda x: (x[0],) if len(x) != 0 else (None,)  # noqa
                toks.append(
                    tuple(
                        [
                            self.process_type(a["type"], a["decl"][0]) + ex(a["val"])
                            for a in decl["args"]
                        ]
                    )
                )
            quals.append(())
"""
REF = """        if "ref" in decl:
            toks.append("&")
            quals.append(())

"""
CEN = """        if "center" in decl:
            (n, t, q) = self.process_declarator(decl["center"][0])
            if n is not None:
                name = n
            toks.extend(t)
            quals = [*quals[:-1], quals[-1] + q[0], *list(q[1:])]

"""
NAME = """        if "name" in decl:
            name = decl["name"]

        return (name, toks, tuple(quals))
"""
PT = """        (name, decl, quals) = self.process_declarator(decl)
        pre_typequal = tuple(typ.get("pre_qual", []))
        return (
            name,
            Type(typ["name"], *decl, type_quals=(pre_typequal + quals[0], *quals[1:])),
        )
"""
FUND = """            return Type(
                " ".join(w for w in self.type_spec.split() if w != "signed") or "int",
                *self.declarators,
                type_quals=self.type_quals,
            )
"""
LOOP = """        if parent in used:
            m = "Recursive loop while evaluating types. (typedefs are {})"
            raise DefinitionError(m.format(" -> ".join([*used, parent])))

        used.append(parent)
"""
UNK = """        if parent not in type_map:
            m = 'Unknown type "{}" (typedefs are {})'
            raise DefinitionError(m.format(parent, " -> ".join(used)))

"""
ISA = """            return isinstance(declarator, list)
"""
COUNT = """        n = sum(1 for _ in takewhile(is_array, self.declarators))
        last = sum(1 for _ in takewhile(is_array, reversed(pt.declarators)))
        split = len(pt.declarators) - (last if n else 0)
"""
JOIN = """        declarators = (
            pt.declarators[:split]
            + self.declarators[:n]
            + pt.declarators[split:]
            + self.declarators[n:]
        )
"""
QJ = """        quals = (*pt.type_quals[:-1], pt.type_quals[-1] + self.type_quals[0])
        quals = (
            *quals[: split + 1],
            *self.type_quals[1 : n + 1],
            *quals[split + 1 :],
            *self.type_quals[n + 1 :],
        )
"""
EV = """        evaled_type = Type(pt.type_spec, *declarators, type_quals=quals)

        return evaled_type.eval(type_map, used)
"""
ADD = """        if type(self[-1]) is tuple:
            return Type(
                Type(*self[:-1], type_quals=self.type_quals[:-1]),
                self[-1],
                type_quals=((), self.type_quals[-1]),
            )
"""
REM = """            return Type(
                *(self[0] + (self[1],)),
                type_quals=(*self[0].type_quals, self.type_quals[1]),
            )
"""
HELP = "    def process_function(self"
BREAKING = [
    ("one pointer", [(CP, PTRS, PTRS.replace('("*",) * len(decl["ptrs"])', '["*"]'))]),
    ("pointers plus", [(CP, PTRS, PTRS.replace('len(decl["ptrs"])\n', '(len(decl["ptrs"]) + 1)\n'))]),
    ("pointers after arrays", [(CP, PTRS + ARR, ARR + PTRS)]),
    ("args before arrays", [(CP, ARR + ARGS, ARGS + "\n" + ARR)]),
    ("center first", [(CP, PTRS, CEN + PTRS), (CP, REF + CEN, REF)]),
    ("one array", [(CP, ARR, ARR.replace('in decl["arrays"])\n', 'in decl["arrays"][:1])\n'))]),
    ("arrays reversed", [(CP, ARR, ARR.replace('in decl["arrays"])\n', 'in reversed(decl["arrays"]))\n'))]),
    ("arrays in one", [(CP, ARR, ARR.replace('toks.extend([self.eval_expr(x)] for x in decl["arrays"])', 'toks.append([self.eval_expr(x) for x in decl["arrays"]])'))]),
    ("arrays only one dimension", [(CP, ARR, ARR.replace('len(decl["arrays"]) > 0:', 'len(decl["arrays"]) == 1:'))]),
    ("args skip unnamed", [(CP, ARGS, ARGS.replace('for a in decl["args"]\n', 'for a in decl["args"]\n                            if a["type"]\n'))]),
    ("args reversed", [(CP, ARGS, ARGS.replace('in decl["args"]\n', 'in decl["args"][::-1]\n'))]),
    ("args list", [(CP, ARGS, ARGS.replace("""                    tuple(
                        [
                            self.process_type(a["type"], a["decl"][0]) + ex(a["val"])
                            for a in decl["args"]
                        ]
                    )
""", """                    [
                        self.process_type(a["type"], a["decl"][0]) + ex(a["val"])
                        for a in decl["args"]
                    ]
"""))]),
    ("args type of first", [(CP, ARGS, ARGS.replace('self.process_type(a["type"]', 'self.process_type(decl["args"][0]["type"]'))]),
    ("void forgotten", [(CP, ARGS, ARGS.replace("                toks.append(())\n", "                pass\n"))]),
    ("args without qualifier", [(CP, ARGS, ARGS.replace("            quals.append(())\n", ""))]),
    ("args qualifier in else", [(CP, ARGS, ARGS.replace("            quals.append(())\n", "                quals.append(())\n"))]),
    ("arrays one qualifier", [(CP, ARR, ARR.replace('quals += [()] * len(decl["arrays"])', "quals.append(())"))]),
    ("pointers no qualifiers", [(CP, PTRS, PTRS.replace('map(tuple, decl["ptrs"])', '[()] * len(decl["ptrs"])'))]),
    ("pointers qualifiers reversed", [(CP, PTRS, PTRS.replace('decl["ptrs"])\n\n', 'reversed(decl["ptrs"]))\n\n'))]),
    ("pointers qualifiers late", [(CP, PTRS, PTRS.replace('            quals += map(tuple, decl["ptrs"])\n', "")), (CP, REF, '        if "ptrs" in decl and len(decl["ptrs"]) > 0:\n            quals += map(tuple, decl["ptrs"])\n' + REF)]),
    ("conv no qualifier", [(CP, CONV, CONV.replace("            quals.append(None)\n", ""))]),
    ("conv lost", [(CP, CONV, "")]),
    ("conv last", [(CP, CONV, ""), (CP, CEN, CEN + CONV)]),
    ("ref lost", [(CP, REF, "")]),
    ("ref twice", [(CP, REF, REF.replace('            toks.append("&")\n', '            toks.append("&")\n            toks.append("&")\n'))]),
    ("center first qualifiers lost", [(CP, CEN, CEN.replace("quals[-1] + q[0]", "quals[-1]"))]),
    ("center qualifiers shifted", [(CP, CEN, CEN.replace("[*quals[:-1], quals[-1] + q[0], *list(q[1:])]", "[quals[0] + q[0], *quals[1:], *list(q[1:])]"))]),
    ("center qualifiers lost", [(CP, CEN, CEN.replace("[*quals[:-1], quals[-1] + q[0], *list(q[1:])]", "[*quals, *[() for _ in t]]"))]),
    ("center one", [(CP, CEN, CEN.replace("toks.extend(t)", "toks.extend(t[:1])"))]),
    ("center prepended", [(CP, CEN, CEN.replace("toks.extend(t)", "toks = list(t) + toks"))]),
    ("center name lost", [(CP, CEN, CEN.replace("            if n is not None:\n                name = n\n", ""))]),
    ("name lost", [(CP, NAME, NAME.replace('name = decl["name"]', 'name = name or None'))]),
    ("pre qualifiers", [(CP, PT, PT.replace("pre_typequal + quals[0]", "quals[0]"))]),
    ("pre qualifiers last", [(CP, PT, PT.replace("(pre_typequal + quals[0], *quals[1:])", "(*quals[:-1], quals[-1] + pre_typequal)"))]),
    ("qualifiers dropped", [(CP, PT, PT.replace(", type_quals=(pre_typequal + quals[0], *quals[1:])", ""))]),
    ("first declarator", [(CP, PT, PT.replace("*decl,", "*decl[:1],"))]),
    ("reversed declarators", [(CP, PT, PT.replace("*decl,", "*reversed(decl),"))]),
    ("signed kept", [(CP, FUND, FUND.replace(' if w != "signed"', ""))]),
    ("unsigned removed", [(CP, FUND, FUND.replace('w != "signed"', 'w not in ("signed", "unsigned")'))]),
    ("const name", [(CP, FUND, FUND.replace('w != "signed"', 'w != "unsigned"'))]),
    ("signed alone", [(CP, FUND, FUND.replace('or "int"', 'or "char"'))]),
    ("fundamental qualifiers", [(CP, FUND, FUND.replace("                type_quals=self.type_quals,\n", ""))]),
    ("fundamental declarators", [(CP, FUND, FUND.replace("*self.declarators", "*self.declarators[:1]"))]),
    ("own first", [(CP, JOIN, "        declarators = self.declarators + pt.declarators\n")]),
    ("arrays order", [(CP, JOIN, "        declarators = pt.declarators + self.declarators\n"), (CP, QJ, QJ.split("\n")[0] + "\n        quals = (*quals, *self.type_quals[1:])\n")]),
    ("declarators lost", [(CP, JOIN, JOIN.replace("            + self.declarators[n:]\n", ""))]),
    ("declarators twice", [(CP, JOIN, JOIN.replace("pt.declarators[split:]", "pt.declarators"))]),
    ("qualifiers of type lost", [(CP, QJ, QJ.replace("pt.type_quals[-1] + self.type_quals[0]", "pt.type_quals[-1]"))]),
    ("qualifiers to first", [(CP, QJ, QJ.replace("(*pt.type_quals[:-1], pt.type_quals[-1] + self.type_quals[0])", "(pt.type_quals[0] + self.type_quals[0], *pt.type_quals[1:])"))]),
    ("qualifiers not interleaved", [(CP, QJ, QJ.replace("        quals = (\n            *quals[: split + 1],\n            *self.type_quals[1 : n + 1],\n            *quals[split + 1 :],\n            *self.type_quals[n + 1 :],\n        )\n", "        quals = (*quals, *self.type_quals[1:])\n"))]),
    ("qualifiers shifted", [(CP, QJ, QJ.replace("*quals[: split + 1]", "*quals[:split]").replace("*quals[split + 1 :]", "*quals[split:]"))]),
    ("qualifiers forgotten", [(CP, EV, EV.replace(", type_quals=quals", ""))]),
    ("always last arrays", [(CP, COUNT, COUNT.replace("reversed(pt.declarators)", "pt.declarators"))]),
    ("one array only", [(CP, COUNT, COUNT.replace("sum(1 for _ in takewhile(is_array, self.declarators))", "1 if self.declarators and is_array(self.declarators[0]) else 0"))]),
    ("pointers as arrays", [(CP, ISA, ISA.replace("list)", "(list, str))"))]),
    ("one step", [(CP, EV, EV.replace("return evaled_type.eval(type_map, used)", "return evaled_type"))]),
    ("used not passed", [(CP, EV, EV.replace("(type_map, used)", "(type_map)"))]),
    ("used not noted", [(CP, LOOP, LOOP.replace("        used.append(parent)\n", ""))]),
    ("circular not told", [(CP, LOOP, "        used.append(parent)\n")]),
    ("circular accepted", [(CP, LOOP, LOOP.replace("if parent in used:", "if parent in used and len(used) > 100:"))]),
    ("unknown keyerror", [(CP, UNK, "")]),
    ("unknown is void", [(CP, UNK, "        if parent not in type_map:\n            return Type('void', *self.declarators, type_quals=self.type_quals)\n\n")]),
    ("hack any", [(CP, ADD, ADD.replace("if type(self[-1]) is tuple", "if type(self[1:2]) is tuple"))]),
    ("hack one", [(CP, ADD, ADD.replace("Type(*self[:-1], type_quals=self.type_quals[:-1])", "Type(*self[:2], type_quals=self.type_quals[:2])"))]),
    ("hack qualifiers", [(CP, ADD, ADD.replace("type_quals=self.type_quals[:-1]", "type_quals=None"))]),
    ("hack outer qualifiers", [(CP, ADD, ADD.replace("((), self.type_quals[-1])", "(self.type_quals[-1], ())"))]),
    ("unhack qualifiers", [(CP, REM, REM.replace("                type_quals=(*self[0].type_quals, self.type_quals[1]),\n", ""))]),
    ("unhack order", [(CP, REM, REM.replace("self[0] + (self[1],)", "self[0][:1] + (self[1],) + self[0][1:]"))]),
]
PRESERVING = [
    ("truth", [(CP, PTRS, PTRS.replace('if "ptrs" in decl and len(decl["ptrs"]) > 0', 'if "ptrs" in decl and decl["ptrs"]'))]),
    ("get", [(CP, PTRS, """        ptrs = decl.get("ptrs", [])
        if ptrs:
            toks += ["*"] * len(ptrs)
            quals += [tuple(p) for p in ptrs]

""")]),
    ("pointer loop", [(CP, PTRS, """        if "ptrs" in decl:
            for p in decl["ptrs"]:
                toks.append("*")
                quals.append(tuple(p))

""")]),
    ("pointer string", [(CP, PTRS, PTRS.replace('("*",) * len(decl["ptrs"])', 'list("*" * len(decl["ptrs"]))'))]),
    ("array loop", [(CP, ARR, """        if "arrays" in decl:
            for x in decl["arrays"]:
                size = self.eval_expr(x)
                toks.append([size])
                quals.append(())

""")]),
    ("array list", [(CP, ARR, ARR.replace('toks.extend([self.eval_expr(x)] for x in decl["arrays"])', 'toks += [[self.eval_expr(x)] for x in decl["arrays"]]'))]),
    ("array get", [(CP, ARR, """        arrays = decl.get("arrays", ())
        toks.extend([self.eval_expr(x)] for x in arrays)
        quals.extend(() for _ in arrays)

""")]),
    ("args generator", [(CP, ARGS, ARGS.replace("""                    tuple(
                        [
                            self.process_type(a["type"], a["decl"][0]) + ex(a["val"])
                            for a in decl["args"]
                        ]
                    )
""", """                    tuple(
                        self.process_type(a["type"], a["decl"][0]) + ex(a["val"])
                        for a in decl["args"]
                    )
"""))]),
    ("args loop", [(CP, ARGS, """        if "args" in decl and len(decl["args"]) > 0:
            params = []
            if decl["args"][0] is not None:
                for a in decl["args"]:
                    default = a["val"][0] if len(a["val"]) else None
                    params.append(self.process_type(a["type"], a["decl"][0]) + (default,))
            toks.append(tuple(params))
            quals.append(())
""")]),
    ("args helper", [(CP, ARGS, """        if "args" in decl and len(decl["args"]) > 0:
            toks.append(self._parameters(decl["args"]))
            quals.append(())
"""), (CP, HELP, """    def _parameters(self, args):
        if args[0] is None:
            return ()
        return tuple(
            self.process_type(a["type"], a["decl"][0])
            + ((a["val"][0],) if len(a["val"]) else (None,))
            for a in args
        )

    def process_function(self""")]),
    ("center plus", [(CP, CEN, """        if "center" in decl:
            inner = self.process_declarator(decl["center"][0])
            if inner[0] is not None:
                name = inner[0]
            toks += inner[1]
            quals = quals[:-1] + [quals[-1] + inner[2][0]] + list(inner[2][1:])

""")]),
    ("center in place", [(CP, CEN, """        if "center" in decl:
            (n, t, q) = self.process_declarator(decl["center"][0])
            if n is not None:
                name = n
            toks += t
            quals[-1] += q[0]
            quals.extend(q[1:])

""")]),
    ("name get", [(CP, NAME, """        name = decl["name"] if "name" in decl else name
        return name, toks, tuple(quals)
""")]),
    ("ref order", [(CP, ARGS + REF, ARGS + REF.replace('"&"', "'&'"))]),
    ("type locals", [(CP, PT, """        name, modifiers, quals = self.process_declarator(decl)
        all_quals = [tuple(typ.get("pre_qual", [])) + quals[0]]
        all_quals.extend(quals[1:])
        return name, Type(typ["name"], *modifiers, type_quals=tuple(all_quals))
""")]),
    ("type plus", [(CP, PT, """        name, modifiers, quals = self.process_declarator(decl)
        pre = tuple(typ.get("pre_qual", []))
        return name, Type(
            typ["name"], *modifiers, type_quals=(pre + quals[0],) + tuple(quals[1:])
        )
""")]),
    ("fundamental words", [(CP, FUND, """            words = [w for w in self.type_spec.split() if w != "signed"]
            spec = " ".join(words) if words else "int"
            return Type(spec, *self[1:], type_quals=self.type_quals)
""")]),
    ("fundamental remove", [(CP, FUND, """            words = self.type_spec.split()
            while "signed" in words:
                words.remove("signed")
            return Type(" ".join(words) or "int", *self[1:], type_quals=self.type_quals)
""")]),
    ("used new list", [(CP, LOOP, LOOP.replace("        used.append(parent)\n", "        used = [*used, parent]\n"))]),
    ("used plus", [(CP, LOOP, LOOP.replace("        used.append(parent)\n", "        used = used + [parent]\n"))]),
    ("used none", [(CP, "        used = used or []\n", "        if used is None:\n            used = []\n")]),
    ("items", [(CP, JOIN, """        mine, theirs = self[1:], pt[1:]
        declarators = theirs[:split] + mine[:n] + theirs[split:] + mine[n:]
""")]),
    ("star", [(CP, JOIN, """        declarators = (
            *pt.declarators[:split],
            *self.declarators[:n],
            *pt.declarators[split:],
            *self.declarators[n:],
        )
""")]),
    ("cases", [(CP, JOIN + QJ, """        quals = (*pt.type_quals[:-1], pt.type_quals[-1] + self.type_quals[0])
        if n == 0:
            declarators = pt.declarators + self.declarators
            quals = quals + self.type_quals[1:]
        else:
            declarators = (
                pt.declarators[:split]
                + self.declarators[:n]
                + pt.declarators[split:]
                + self.declarators[n:]
            )
            quals = (
                quals[: split + 1]
                + self.type_quals[1 : n + 1]
                + quals[split + 1 :]
                + self.type_quals[n + 1 :]
            )
""")]),
    ("count loop", [(CP, COUNT, """        n = 0
        while n < len(self.declarators) and is_array(self.declarators[n]):
            n += 1
        split = len(pt.declarators)
        while n and split and is_array(pt.declarators[split - 1]):
            split -= 1
""")]),
    ("count len", [(CP, COUNT, COUNT.replace("sum(1 for _ in takewhile(is_array, self.declarators))", "len(list(takewhile(is_array, self.declarators)))"))]),
    ("lambda", [(CP, COUNT, COUNT.replace("takewhile(is_array, self.declarators)", "takewhile(lambda d: isinstance(d, list), self.declarators)"))]),
    ("helper", [(CP, COUNT, """        n = self._arrays(self.declarators)
        last = self._arrays(pt.declarators[::-1])
        split = len(pt.declarators) - (last if n else 0)
"""), (CP, "    def add_compatibility_hack(self", """    @staticmethod
    def _arrays(declarators):
        return sum(1 for _ in takewhile(lambda d: isinstance(d, list), declarators))

    def add_compatibility_hack(self""")]),
    ("hack guard", [(CP, ADD + """        else:
            return self
""", """        if not isinstance(self[-1], tuple):
            return self
        result = Type(*self[:-1], type_quals=self.type_quals[:-1])
        return Type(result, self[-1], type_quals=((), self.type_quals[-1]))
""")]),
    ("unhack star", [(CP, REM, """            result, params = self
            return Type(
                *result, params, type_quals=result.type_quals + self.type_quals[1:]
            )
""")]),
    ("unknown get", [(CP, UNK + """        pt = type_map[parent]
""", """        pt = type_map.get(parent)
        if pt is None:
            m = 'Unknown type "{}" (typedefs are {})'
            raise DefinitionError(m.format(parent, " -> ".join(used)))
""")]),
]
