CL = "c_library.py"
LOCKED = """            if self.lock_call:
                with self.lib._lock_:
                    res = self.func(*arg_list)
            else:
                res = self.func(*arg_list)
"""
BREAKING = [
    ("never locked", [(CL, LOCKED, "            res = self.func(*arg_list)\n")]),
    ("negated", [(CL, "if self.lock_call:", "if not self.lock_call:")]),
    ("plain lock", [(CL, "self._lock_ = RLock()", "self._lock_ = Lock()"), (CL, "import RLock", "import Lock, RLock")]),
    ("per call lock", [(CL, "with self.lib._lock_:", "with RLock():")]),
    ("per function lock", [(CL, "self.func = func\n", "self.func = func\n        self._lock = RLock()\n"), (CL, "with self.lib._lock_:", "with self._lock:")]),
    ("wrong flag passed", [(CL, "            self._lock_calls_,\n", "            False,\n")]),
    ("retry outside", [(CL, "        except Exception:\n            logger.error(\n                \"Function call failed.", "        except ArithmeticError:\n            res = self.func(*arg_list)\n        except Exception:\n            logger.error(\n                \"Function call failed.")]),
    ("acquire no finally", [(CL, LOCKED, """            if self.lock_call:
                self.lib._lock_.acquire()
                res = self.func(*arg_list)
                self.lib._lock_.release()
            else:
                res = self.func(*arg_list)
""")]),
    ("flag only if no kwargs", [(CL, "if self.lock_call:", "if self.lock_call and not kwargs:")]),
    ("locked conversion only", [(CL, LOCKED, """            if self.lock_call:
                with self.lib._lock_:
                    f = self.func
            else:
                f = self.func
            res = f(*arg_list)
""")]),
    ("lock replaced", [(CL, "    def _get_function(self, func_name):\n", "    def _get_function(self, func_name):\n        if self._lock_calls_:\n            self._lock_ = RLock()\n")]),
]
PRESERVING = [
    ("nullcontext", [(CL, LOCKED, """            with self.lib._lock_ if self.lock_call else nullcontext():
                res = self.func(*arg_list)
"""), (CL, "from inspect import cleandoc", "from contextlib import nullcontext\nfrom inspect import cleandoc")]),
    ("try finally", [(CL, LOCKED, """            if self.lock_call:
                self.lib._lock_.acquire()
                try:
                    res = self.func(*arg_list)
                finally:
                    self.lib._lock_.release()
            else:
                res = self.func(*arg_list)
""")]),
    ("helper", [(CL, LOCKED, "            res = self._invoke(arg_list)\n"), (CL, "    def arg_c_type(self, arg):", """    def _invoke(self, arg_list):
        if not self.lock_call:
            return self.func(*arg_list)
        with self.lib._lock_:
            return self.func(*arg_list)

    def arg_c_type(self, arg):""")]),
    ("contextmanager", [(CL, LOCKED, "            with self._guard():\n                res = self.func(*arg_list)\n"), (CL, "    def arg_c_type(self, arg):", """    @contextmanager
    def _guard(self):
        if self.lock_call:
            with self.lib._lock_:
                yield
        else:
            yield

    def arg_c_type(self, arg):"""), (CL, "from inspect import cleandoc", "from contextlib import contextmanager\nfrom inspect import cleandoc")]),
    ("always lock attr", [(CL, LOCKED, "            with self.lib._lock_:\n                res = self.func(*arg_list)\n"),
      (CL, "        if lock_calls:\n            self._lock_ = RLock()", "        self._lock_ = RLock() if lock_calls else nullcontext()")]),
    ("flag through lib", [(CL, "if self.lock_call:", "if self.lib._lock_calls_:")]),
    ("exitstack", [(CL, LOCKED, """            with ExitStack() as st:
                if self.lock_call:
                    st.enter_context(self.lib._lock_)
                res = self.func(*arg_list)
"""), (CL, "from inspect import cleandoc", "from contextlib import ExitStack\nfrom inspect import cleandoc")]),
]

# campaign1
BREAKING += [
    ('campaign1: timeout', [
        ('c_library.py',
         '            if self.lock_call:\n                with self.lib._lock_:\n                    res = self.func(*arg_list)\n            else:\n                res = self.func(*arg_list)\n',
         '            if self.lock_call:\n                self.lib._lock_.acquire(timeout=10)\n                try:\n                    res = self.func(*arg_list)\n                finally:\n                    self.lib._lock_.release()\n            else:\n                res = self.func(*arg_list)\n'),
    ]),
    ('campaign1: nonblocking', [
        ('c_library.py',
         '            if self.lock_call:\n                with self.lib._lock_:\n                    res = self.func(*arg_list)\n            else:\n                res = self.func(*arg_list)\n',
         '            locked = self.lock_call and self.lib._lock_.acquire(False)\n            try:\n                res = self.func(*arg_list)\n            finally:\n                if locked:\n                    self.lib._lock_.release()\n'),
    ]),
    ('campaign1: class lock flag mutable', [
        ('c_library.py',
         'self.lock_call = lock_call',
         'self.lock_call = lock_call and bool(sig[1])'),
    ]),
    ('campaign1: lazy lock', [
        ('c_library.py',
         '        if lock_calls:\n            self._lock_ = RLock()',
         '        self._lock_ = None'),
        ('c_library.py',
         '                with self.lib._lock_:',
         '                if self.lib._lock_ is None:\n                    self.lib._lock_ = RLock()\n                with self.lib._lock_:'),
    ]),
    ('campaign1: call without args fast path', [
        ('c_library.py',
         '        try:\n            if self.lock_call:',
         '        try:\n            if not arg_list:\n                res = self.func()\n            elif self.lock_call:'),
    ]),
    ('campaign1: released early', [
        ('c_library.py',
         '            if self.lock_call:\n                with self.lib._lock_:\n                    res = self.func(*arg_list)\n            else:\n                res = self.func(*arg_list)\n',
         '            if self.lock_call:\n                self.lib._lock_.acquire()\n                self.lib._lock_.release()\n            res = self.func(*arg_list)\n'),
    ]),
    ('campaign1: flag toggled on error', [
        ('c_library.py',
         '            logger.error("Arguments: {}".format(arg_list))',
         '            self.lock_call = False\n            logger.error("Arguments: {}".format(arg_list))'),
    ]),
    ('campaign1: callable exposed', [
        ('c_library.py',
         '        return CFunction(\n            self,',
         "        if not self._defs_['functions'][func_name][1]:\n            return func\n        return CFunction(\n            self,"),
    ]),
]
