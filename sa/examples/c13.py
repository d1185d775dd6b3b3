BE = "backends/ctypes.py"
REG = """            # Must register struct here to allow recursive definitions.
            self._structs_[str_name] = s

"""
PACK = """            if defn["pack"] is not None:
                s._pack_ = defn["pack"]

"""
FIELDS = """            try:
                s._fields_ = [(m[0], self._get_type(m[1]), *m[3:]) for m in defs]
            except Exception:
                # Do not keep a class without fields
                del self._structs_[str_name]
                raise
"""
CLS = """            if str_type == "structs":

                class s(Structure):
                    def __repr__(self):
                        return "<ctypes struct '%s'>" % str_name
            elif str_type == "unions":

                class s(Union):
                    def __repr__(self):
                        return "<ctypes union '%s'>" % str_name
"""
LOOP = """            for i, d in enumerate(defs):
                if d[0] is None:
                    c = 0
                    while True:
                        name = "anon_member%d" % c
                        if name not in members:
                            d = (name, *d[1:])
                            defs[i] = d
                            # An unnamed bit field is only padding
                            if len(d) < 4:
                                anon.append(name)
                            break
                        c += 1
                members.append(d[0])

            s._anonymous_ = anon
"""
BREAKING = [
    ("pack after", [(BE, PACK, ""), (BE, FIELDS, FIELDS + PACK)]),
    ("anonymous after", [(BE, "            s._anonymous_ = anon\n", ""), (BE, FIELDS, FIELDS + "            s._anonymous_ = anon\n")]),
    ("name not kept", [(BE, "                            defs[i] = d\n", "")]),
    ("row not named", [(BE, "                            d = (name, *d[1:])\n", "")]),
    ("other kept", [(BE, "                members.append(d[0])\n", "                members.append(d[1])\n")]),
    ("no anonymous", [(BE, "            s._anonymous_ = anon\n", "")]),
    ("all anonymous", [(BE, "                members.append(d[0])\n", "                members.append(d[0])\n                anon.append(d[0])\n")]),
    ("padding anonymous", [(BE, "                            if len(d) < 4:\n                                anon", "                            if len(d) < 5:\n                                anon")]),
    ("never anonymous", [(BE, "                            if len(d) < 4:\n                                anon", "                            if len(d) < 3:\n                                anon")]),
    ("no pack", [(BE, PACK, "")]),
    ("pack only above 1", [(BE, 'if defn["pack"] is not None:', 'if defn["pack"] is not None and defn["pack"] > 1:')]),
    ("pack truthy other", [(BE, 's._pack_ = defn["pack"]', 's._pack_ = 1')]),
    ("register last", [(BE, REG, ""), (BE, "            s._defaults_ =", "            self._structs_[str_name] = s\n            s._defaults_ =")]),
    ("kept on failure", [(BE, "                del self._structs_[str_name]\n", "")]),
    ("kept on some failures", [(BE, "            except Exception:\n                # Do not", "            except KeyError:\n                # Do not")]),
    ("fields outside", [(BE, "                s._fields_ = [(", "                fields = [("), (BE, "            s._defaults_ =", "            s._fields_ = fields\n            s._defaults_ =")]),
    ("swallow", [(BE, "                del self._structs_[str_name]\n                raise\n", "                pass\n")]),
    ("no bit width", [(BE, "self._get_type(m[1]), *m[3:])", "self._get_type(m[1]))")]),
    ("default as width", [(BE, "*m[3:])", "*m[2:])")]),
    ("sorted", [(BE, "*m[3:]) for m in defs]", "*m[3:]) for m in sorted(defs)]")]),
    ("reversed", [(BE, "*m[3:]) for m in defs]", "*m[3:]) for m in defs[::-1]]")]),
    ("filtered", [(BE, "*m[3:]) for m in defs]", "*m[3:]) for m in defs if m[0]]")]),
    ("union is structure", [(BE, "class s(Union)", "class s(Structure)")]),
    ("kind by other", [(BE, "class s(Structure)", "class s(Structure if not defn['pack'] else Union)")]),
    ("base type only", [(BE, "self._get_type(m[1])", "self._get_type(m[1], pointers=False)")]),
    ("type from name", [(BE, "self._get_type(m[1])", "self._get_type([m[1][0]])")]),
    ("drops width for anonymous", [(BE, "d = (name, *d[1:])", "d = (name, *d[1:3])")]),
    ("width only if named", [(BE, "[(m[0], self._get_type(m[1]), *m[3:]) for m in defs]", "[(m[0], self._get_type(m[1]), *(m[3:] if m[1][0] == 'int' else ())) for m in defs]")]),
]
PRESERVING = [
    ("loop", [(BE, "                s._fields_ = [(m[0], self._get_type(m[1]), *m[3:]) for m in defs]\n", """                fields = []
                for m in defs:
                    fields.append((m[0], self._get_type(m[1]), *m[3:]))
                s._fields_ = fields
""")]),
    ("loop with if", [(BE, "                s._fields_ = [(m[0], self._get_type(m[1]), *m[3:]) for m in defs]\n", """                fields = []
                for m in defs:
                    ctype = self._get_type(m[1])
                    if len(m) > 3:
                        fields.append((m[0], ctype, m[3]))
                    else:
                        fields.append((m[0], ctype))
                s._fields_ = fields
""")]),
    ("helper for fields", [(BE, "s._fields_ = [(m[0], self._get_type(m[1]), *m[3:]) for m in defs]", "s._fields_ = self._make_fields(defs)"), (BE, "    def _get_pointer", """    def _make_fields(self, members):
        return [(m[0], self._get_type(m[1]), *m[3:]) for m in members]

    def _get_pointer""")]),
    ("helper for class", [(BE, CLS, "            s = self._make_class(str_type, str_name)\n"), (BE, "    def _get_pointer", """    def _make_class(self, str_type, str_name):
        if str_type == "structs":

            class s(Structure):
                def __repr__(self):
                    return "<ctypes struct '%s'>" % str_name
        elif str_type == "unions":

            class s(Union):
                def __repr__(self):
                    return "<ctypes union '%s'>" % str_name
        return s

    def _get_pointer""")]),
    ("type call", [(BE, CLS, "            base = {'structs': Structure, 'unions': Union}[str_type]\n            s = type(str_name, (base,), {})\n")]),
    ("class from table", [(BE, CLS, "            base = Structure if str_type == 'structs' else Union\n\n            class s(base):\n                pass\n")]),
    ("pack get", [(BE, PACK, """            pack = defn["pack"]
            if pack is not None:
                s._pack_ = pack
""")]),
    ("register after pack", [(BE, REG, ""), (BE, PACK, PACK + REG)]),
    ("unpack members", [(BE, "[(m[0], self._get_type(m[1]), *m[3:]) for m in defs]", "[(name, self._get_type(typ), *width) for name, typ, _, *width in defs]")]),
    ("pop", [(BE, "                del self._structs_[str_name]\n", "                self._structs_.pop(str_name)\n")]),
    ("helper for unnamed", [(BE, LOOP, "            s._anonymous_ = self._name_anonymous(defs)\n"), (BE, "    def _get_pointer", """    def _name_anonymous(self, defs):
        members = []
        anon = []
        for i, d in enumerate(defs):
            if d[0] is None:
                c = 0
                while True:
                    name = "anon_member%d" % c
                    if name not in members:
                        d = (name, *d[1:])
                        defs[i] = d
                        # An unnamed bit field is only padding
                        if len(d) < 4:
                            anon.append(name)
                        break
                    c += 1
            members.append(d[0])
        return anon

    def _get_pointer"""), ("backends/ctypes.py", "            members = []\n            anon = []\n            s._anon", "            s._anon")]),
    ("new list of members", [(BE, LOOP, """            named = []
            for d in defs:
                if d[0] is None:
                    c = 0
                    while "anon_member%d" % c in members:
                        c += 1
                    d = ("anon_member%d" % c,) + tuple(d[1:])
                    if len(d) < 4:
                        anon.append(d[0])
                members.append(d[0])
                named.append(d)
            defs = named

            s._anonymous_ = anon
""")]),
    ("early return", [(BE, "        if str_name not in self._structs_:\n            # Pull struct definition\n", "        if str_name in self._structs_:\n            return self._structs_[str_name]\n        if True:\n            # Pull struct definition\n")]),
    ("success flag", [(BE, FIELDS, """            done = False
            try:
                s._fields_ = [(m[0], self._get_type(m[1]), *m[3:]) for m in defs]
                done = True
            finally:
                if not done:
                    del self._structs_[str_name]
""")]),
    ("local list", [(BE, '            defs = defn["members"][:]', '            defs = list(defn["members"])')]),
]

# campaign2
BREAKING += [
    ('campaign2: sorted fields', [
        ('backends/ctypes.py',
         'for m in defs]\n            except',
         'for m in sorted(defs, key=lambda d: d[0])]\n            except'),
    ]),
    ('campaign2: bits lost', [
        ('backends/ctypes.py',
         '*m[3:]) for m in defs]',
         '*(m[3:] if m[2] is None else ())) for m in defs]'),
    ]),
    ('campaign2: zero width', [
        ('backends/ctypes.py',
         '*m[3:]) for m in defs]',
         '*[b for b in m[3:] if b]) for m in defs]'),
    ]),
    ('campaign2: pack after', [
        ('backends/ctypes.py',
         '            if defn["pack"] is not None:\n                s._pack_ = defn["pack"]\n\n',
         ''),
        ('backends/ctypes.py',
         '            s._defaults_ =',
         '            if defn["pack"] is not None:\n                s._pack_ = defn["pack"]\n            s._defaults_ ='),
    ]),
    ('campaign2: pack truthy', [
        ('backends/ctypes.py',
         'if defn["pack"] is not None:',
         'if defn["pack"] is not None and defn["pack"] < 8:'),
    ]),
    ('campaign2: anon bits', [
        ('backends/ctypes.py',
         'if len(d) < 4:',
         'if len(d) <= 4:'),
    ]),
    ('campaign2: anon after', [
        ('backends/ctypes.py',
         '            s._anonymous_ = anon\n',
         ''),
        ('backends/ctypes.py',
         '            s._defaults_ =',
         '            s._anonymous_ = anon\n            s._defaults_ ='),
    ]),
    ('campaign2: incomplete kept', [
        ('backends/ctypes.py',
         '            except Exception:\n                # Do not keep',
         '            except KeyError:\n                # Do not keep'),
    ]),
    ('campaign2: no del', [
        ('backends/ctypes.py',
         '                del self._structs_[str_name]\n',
         ''),
    ]),
    ('campaign2: register late', [
        ('backends/ctypes.py',
         '            # Must register struct here to allow recursive definitions.\n            self._structs_[str_name] = s\n\n',
         ''),
        ('backends/ctypes.py',
         '            s._defaults_ = [m[2]',
         '            self._structs_[str_name] = s\n            s._defaults_ = [m[2]'),
    ]),
    ('campaign2: anon name dup', [
        ('backends/ctypes.py',
         'if name not in members:',
         'if name not in anon:'),
    ]),
    ('campaign2: union as struct', [
        ('backends/ctypes.py',
         'class s(Union):',
         'class s(Structure):'),
    ]),
    ('campaign2: type pointers', [
        ('backends/ctypes.py',
         'self._get_type(m[1]), *m[3:])',
         'self._get_type(m[1], len(m) < 4), *m[3:])'),
    ]),
    ('campaign2: skip void', [
        ('backends/ctypes.py',
         'for m in defs]\n            except',
         'for m in defs if m[1]]\n            except'),
    ]),
]
