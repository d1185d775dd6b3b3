CP = "c_parser.py"
A = 'eval(expr2, {"__builtins__": {}})'
B = 'return eval(expr, {"__builtins__": {}}, *args[1:])'
BREAKING = [
    ("no globals", [(CP, A, "eval(expr2)")]),
    ("open globals", [(CP, A, "eval(expr2, {})")]),
    ("forward args", [(CP, B, "return eval(expr, *args)")]),
    ("globals()", [(CP, B, "return eval(expr, globals(), *args[1:])")]),
    ("some builtins", [(CP, B, 'return eval(expr, {"__builtins__": {"len": len}}, *args[1:])')]),
    ("vars", [(CP, 'self.eval(toks, None, self.defs["values"])', 'self.eval(toks, None, vars(self))')]),
    ("module", [(CP, A, 'eval(expr2, {"__builtins__": {}, "re": re})')]),
    ("exec", [(CP, A, 'exec("r = " + expr2, {"__builtins__": {}})')]),
    ("all defs", [(CP, 'self.eval(toks.value, None, self.defs["values"])', 'self.eval(toks.value, None, self.defs["functions"])')]),
]
PRESERVING = [
    ("const ns", [(CP, A, "eval(expr2, _NS)"), (CP, '__all__ = ["CParser", "win_defs"]', '__all__ = ["CParser", "win_defs"]\n_NS = {"__builtins__": {}}')]),
    ("helper", [(CP, A, "_closed_eval(expr2)"), (CP, "def kwl(strs):", 'def _closed_eval(t, values=None):\n    return eval(t, {"__builtins__": {}}, values)\n\n\ndef kwl(strs):'), (CP, B, "return _closed_eval(expr, *args[1:])")]),
    ("compile", [(CP, A, 'eval(compile(expr2, "<h>", "eval"), {"__builtins__": {}})')]),
    ("var ns", [(CP, B, 'ns = {"__builtins__": {}}\n        return eval(expr, ns, *args[1:])')]),
    ("dict()", [(CP, B, 'return eval(expr, dict(__builtins__={}), *args[1:])')]),
    ("named", [(CP, "def eval(self, expr, *args):", "def eval(self, expr, _globals=None, values=None):"), (CP, B, 'return eval(expr, {"__builtins__": {}}, values)')]),
]

# campaign1
BREAKING += [
    ('campaign1: enum eval', [
        ('c_parser.py',
         'i = self.eval_expr(v.value)\n',
         'i = eval(v.value)\n'),
    ]),
    ('campaign1: globals in method', [
        ('c_parser.py',
         'return eval(expr, {"__builtins__": {}}, *args[1:])',
         'return eval(expr, {"__builtins__": {}, **math.__dict__}, *args[1:])'),
    ]),
    ('campaign1: builtins key typo', [
        ('c_parser.py',
         'eval(expr2, {"__builtins__": {}})',
         'eval(expr2, {"__builtin__": {}})'),
    ]),
    ('campaign1: getattr re', [
        ('c_parser.py',
         'self.eval(toks, None, self.defs["values"])',
         'self.eval(toks, None, {**globals(), **self.defs["values"]})'),
    ]),
    ('campaign1: locals none', [
        ('c_parser.py',
         'return eval(expr, {"__builtins__": {}}, *args[1:])',
         'ns = {}\n        ns.update(args[-1])\n        return eval(expr, ns)'),
    ]),
    ('campaign1: sizes', [
        ('c_parser.py',
         'toks.extend([self.eval_expr(x)] for x in decl["arrays"])',
         'toks.extend([self.eval(x, None, vars())] for x in decl["arrays"])'),
    ]),
    ('campaign1: bit width', [
        ('c_parser.py',
         'member.append(int(m[0].bit))',
         'member.append(eval(m[0].bit))'),
    ]),
]
PRESERVING += [
    ('campaign1: None builtins', [
        ('c_parser.py',
         'return eval(expr, {"__builtins__": {}}, *args[1:])',
         'return eval(expr, {"__builtins__": None}, *args[1:])'),
    ]),
]
