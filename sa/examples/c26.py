BC = "backends/ctypes.py"
CP = "c_parser.py"
FL = "thirdparty/find_library.py"
UT = "utils.py"
LINK = """        if convention == "cdll":
            return cdll.LoadLibrary(lib_path)
        elif convention == "windll" and sys.platform == "win32":
            return windll.LoadLibrary(lib_path)
        elif convention == "oledll" and sys.platform == "win32":
            return oledll.LoadLibrary(lib_path)
        else:
            raise ValueError("Convention cannot be {}".format(convention))
"""
FN = """                    if conv == "__stdcall" and sys.platform == "win32":
                        mkfn = WINFUNCTYPE

                    else:
                        mkfn = CFUNCTYPE
"""
WT = """if sys.platform == "win32":
    WIN_TYPES = {
        "__int64": c_longlong,
        "unsigned __int64": c_ulonglong,
        "HRESULT": HRESULT,
    }
"""
IMP = """if sys.platform == "win32":
    from ctypes import HRESULT, WINFUNCTYPE, oledll, windll

if sys.version_info >= (3, 12):
    from ctypes import c_time_t
"""
UPD = """    if sys.platform == "win32":
        extra_types.update(WIN_TYPES)

    if sys.version_info >= (3, 12):
        extra_types["time_t"] = c_time_t
"""

BREAKING = [
    ("function pointers need WINFUNCTYPE anywhere", [(BC, FN, FN.replace(' and sys.platform == "win32"', ""))]),
    ("condition the wrong way round", [(BC, FN, FN.replace('== "win32"', '!= "linux"'))]),
    ("windll anywhere", [(BC, LINK, LINK.replace('"windll" and sys.platform == "win32"', '"windll"'))]),
    ("oledll anywhere", [(BC, LINK, LINK.replace('"oledll" and sys.platform == "win32"', '"oledll"'))]),
    ("and turned to or", [(BC, LINK, LINK.replace('"oledll" and', '"oledll" or'))]),
    ("table of loaders built eagerly", [(BC, LINK, """        loaders = {"cdll": cdll, "windll": windll, "oledll": oledll}
        if convention not in loaders or convention != "cdll" and sys.platform != "win32":
            raise ValueError("Convention cannot be {}".format(convention))
        return loaders[convention].LoadLibrary(lib_path)
""")]),
    ("windows types used anywhere", [(BC, UPD, UPD.replace('if sys.platform == "win32":', "if True:"))]),
    ("windows types defined on linux only", [(BC, WT, WT.replace("==", "!="))]),
    ("c_time_t whatever the version", [(BC, UPD, UPD.replace("    if sys.version_info >= (3, 12):\n        extra", "    extra"))]),
    ("c_time_t from 3.10", [(BC, IMP, IMP.replace("3, 12", "3, 10"))]),
    ("c_time_t used from 3.10", [(BC, UPD, UPD.replace("3, 12", "3, 9"))]),
    ("windows parts imported on posix", [(BC, IMP, IMP.replace('if sys.platform == "win32":', 'if sys.platform.endswith("n32") or sys.platform == "darwin":'))]),
    ("HRESULT no longer imported", [(BC, IMP, IMP.replace("HRESULT, ", ""))]),
    ("add_dll_directory anywhere", [(UT, "    for d in dirs:\n        path = os.path.join(d, h_name)",
     "    for d in dirs:\n        os.add_dll_directory(d)\n        path = os.path.join(d, h_name)")]),
    ("uname needed", [(UT, "    this_platform = sys.platform", "    this_platform = os.uname()[0]")]),
    ("posix module needed by the parser", [(CP, "from .errors import DefinitionError", "import fcntl\n\nfrom .errors import DefinitionError")]),
    ("name bound on linux only", [(FL, "    # Andreas Degert", "    HERE = True\n    # Andreas Degert"),
     (FL, "__all__ = (", "def here():\n    return HERE\n\n\n__all__ = (")]),
]

PRESERVING = [
    ("flag of the platform", [(BC, IMP, "WINDOWS = sys.platform == \"win32\"\n\n" + IMP.replace('sys.platform == "win32"', "WINDOWS")),
     (BC, FN, FN.replace('sys.platform == "win32"', "WINDOWS")),
     (BC, LINK, LINK.replace('sys.platform == "win32"', "WINDOWS")),
     (BC, WT, WT.replace('sys.platform == "win32"', "WINDOWS")), (BC, UPD, UPD.replace('sys.platform == "win32"', "WINDOWS"))]),
    ("os.name instead", [(BC, "import sys\n", "import os\nimport sys\n"), (BC, FN, FN.replace('sys.platform == "win32"', 'os.name == "nt"'))]),
    ("startswith", [(BC, FN, FN.replace('sys.platform == "win32"', 'sys.platform.startswith("win")'))]),
    ("condition negated", [(BC, FN, """                    if conv != "__stdcall" or sys.platform != "win32":
                        mkfn = CFUNCTYPE
                    else:
                        mkfn = WINFUNCTYPE
""")]),
    ("platform first", [(BC, LINK, """        if convention == "cdll":
            return cdll.LoadLibrary(lib_path)
        if sys.platform == "win32":
            if convention == "windll":
                return windll.LoadLibrary(lib_path)
            if convention == "oledll":
                return oledll.LoadLibrary(lib_path)
        raise ValueError("Convention cannot be {}".format(convention))
""")]),
    ("early exit", [(BC, LINK, """        if convention == "cdll":
            return cdll.LoadLibrary(lib_path)
        if sys.platform != "win32" or convention not in ("windll", "oledll"):
            raise ValueError("Convention cannot be {}".format(convention))
        loader = windll if convention == "windll" else oledll
        return loader.LoadLibrary(lib_path)
""")]),
    ("helper of windows", [(BC, LINK, """        if convention == "cdll":
            return cdll.LoadLibrary(lib_path)
        if sys.platform == "win32" and convention in ("windll", "oledll"):
            return self._link_windows(lib_path, convention)
        raise ValueError("Convention cannot be {}".format(convention))

    def _link_windows(self, lib_path, convention):
        loader = windll if convention == "windll" else oledll
        return loader.LoadLibrary(lib_path)
""")]),
    ("windows types always defined", [(BC, WT, "WIN_TYPES = {}\n" + WT)]),
    ("windows types in the function", [(BC, WT, ""), (BC, UPD, UPD.replace("        extra_types.update(WIN_TYPES)\n",
     """        extra_types["__int64"] = c_longlong
        extra_types["unsigned __int64"] = c_ulonglong
        extra_types["HRESULT"] = HRESULT
"""))]),
    ("import tried", [(BC, IMP, IMP.replace("if sys.version_info >= (3, 12):\n    from ctypes import c_time_t\n",
     "try:\n    from ctypes import c_time_t\nexcept ImportError:\n    c_time_t = None\n"))]),
    ("module imported", [(BC, "import sys\n", "import ctypes\nimport sys\n"),
     (BC, FN, FN.replace("WINFUNCTYPE", "ctypes.WINFUNCTYPE"))]),
    ("tuple of versions sliced", [(BC, IMP, IMP.replace("sys.version_info >=", "sys.version_info[:2] >="))]),
    ("conditional expression", [(BC, FN, """                    stdcall = conv == "__stdcall"
                    mkfn = WINFUNCTYPE if sys.platform == "win32" and stdcall else CFUNCTYPE
""")]),
    ("flag of another module", [(UT, "from .thirdparty", "ON_WINDOWS = sys.platform == \"win32\"\n\nfrom .thirdparty"),
     (BC, "from ..utils import find_library", "from ..utils import ON_WINDOWS, find_library"),
     (BC, FN, FN.replace('sys.platform == "win32"', "ON_WINDOWS")), (BC, LINK, LINK.replace('sys.platform == "win32"', "ON_WINDOWS"))]),
    ("function telling the platform", [(BC, "class CTypesCLibrary", "def _on_windows():\n    return sys.platform == \"win32\"\n\n\nclass CTypesCLibrary"),
     (BC, FN, FN.replace('sys.platform == "win32"', "_on_windows()"))]),
]
