BT = "backends/ctypes.py"
CL = "c_library.py"
CP = "c_parser.py"

BREAKING = [
    ("in-place merge of dims", [(BT, "seen = seen + m", "seen += m")]),
    ("members not copied", [(BT, 'defs = defn["members"][:]', 'defs = defn["members"]')]),
    ("pop from typ tuple list", [(BT, "typ = list(self._headers_.eval_type(typ))",
                                  "typ = list(self._headers_.eval_type(typ))\n            if len(typ) > 1 and isinstance(typ[1], list): typ[1].reverse()")]),
    ("sig not copied", [(CL, "self.sig = list(sig)", "self.sig = sig")]),
    ("default extraction", [(BT, "s._defaults_ = [m[2] for m in defs]",
                             "s._defaults_ = [m[2] for m in defs]\n            defn['pack'] = None")]),
    ("enum mutated", [(CL, 'obj = self._defs_["enums"][n]\n', 'obj = self._defs_["enums"][n]\n                obj.pop("", None)\n')]),
    ("register on lookup", [(CL, 'return self._defs_["types"][typ][1]\n\n        else:',
                             'real = self._defs_["types"][typ][1]\n            self._headers_.add_def("types", str_name, real)\n            return real\n\n        else:')]),
    ("setattr type", [(CL, "self.res_type = lib._get_type(self.sig[0])",
                       "sig[0].type_quals = ()\n        self.res_type = lib._get_type(self.sig[0])")]),
    ("eval mutates map", [(CP, "pt = type_map[parent]\n", "pt = type_map[parent]\n        type_map[parent] = pt\n")]),
    ("args sort in place", [(CL, "self.sig[1] = [s for s in sig[1] if s[1] != (\"void\",)]",
                             "self.sig[1] = sig[1]\n        for s in list(self.sig[1]):\n            if s[1] == ('void',):\n                self.sig[1].remove(s)")]),
]

PRESERVING = [
    ("copy then extend", [(BT, "seen = seen + m", "seen = list(seen)\n                        seen.extend(m)")]),
    ("star concat", [(BT, "seen = seen + m", "seen = [*seen, *m]")]),
    ("list members", [(BT, 'defs = defn["members"][:]', 'defs = list(defn["members"])')]),
    ("members property", [(BT, 'defs = defn["members"][:]', 'defs = [d for d in defn.members]')]),
    ("helper", [(BT, "    def _get_pointer(self", "    def _merge(self, a, b):\n        return a + b\n\n    def _get_pointer(self"),
                (BT, "seen = seen + m", "seen = self._merge(seen, m)")]),
    ("type from list", [(BT, "typ = list(self._headers_.eval_type(typ))\n            mods = typ[1:][:]",
                         "typ = self._headers_.eval_type(typ)\n            mods = list(typ[1:])")]),
]

# campaign1
BREAKING += [
    ('campaign1: alias cached in types', [
        ('c_library.py',
         '            return self._defs_["types"][typ][1]\n\n        else:',
         '            self._defs_["types"][str_name] = Type(typ)\n            return self._defs_["types"][typ][1]\n\n        else:'),
    ]),
    ('campaign1: array dims reversed in place', [
        ('backends/ctypes.py',
         'for i in reversed(m):',
         'm.reverse()\n                    for i in m:'),
    ]),
    ('campaign1: rename anon in definition', [
        ('backends/ctypes.py',
         'defs[i] = d\n',
         "defs[i] = defn['members'][i] = d\n"),
    ]),
    ('campaign1: function pointer arg list', [
        ('c_library.py',
         'self.sig[1] = [s for s in sig[1] if lib._headers_.eval_type(s[1]) != void]',
         "self.sig[1] = sig[1]\n        if ('void',) in [s[1] for s in sig[1]]:\n            sig[1].clear()"),
    ]),
    ('campaign1: eval caches type', [
        ('c_parser.py',
         '        return evaled_type.eval(type_map, used)',
         '        type_map[self.type_spec] = res = evaled_type.eval(type_map, used)\n        return res'),
    ]),
    ('campaign1: find removes', [
        ('c_parser.py',
         '                        if k == name:\n',
         "                        if k == name:\n                            typ.pop(k + '_', None)\n"),
    ]),
    ('campaign1: enum typedef stored', [
        ('c_library.py',
         '                obj = self._defs_["enums"][n]\n\n                return obj',
         '                self._defs_[\'enums\'][name] = obj = self._defs_["enums"][n]\n\n                return obj'),
    ]),
    ('campaign1: defaults merged', [
        ('backends/ctypes.py',
         's._defaults_ = [m[2] for m in defs]',
         "s._defaults_ = [m[2] for m in defs]\n            defn['pack'] = s._pack_ if hasattr(s, '_pack_') else None"),
    ]),
    ('campaign1: quals reset', [
        ('c_parser.py',
         '        if self.is_fund_type():\n            # Remove',
         '        if self.is_fund_type():\n            if not any(self.type_quals):\n                self.type_quals = ()\n            # Remove'),
    ]),
    ('campaign1: pack via parser', [
        ('backends/ctypes.py',
         '        if str_name not in self._structs_:\n            str_name = self._resolve',
         '        self._headers_.current_file = None\n        self._headers_.add_def("types", str_type[:-1] + " " + str_name, (str_type[:-1], str_name))\n        if str_name not in self._structs_:\n            str_name = self._resolve'),
    ]),
]
