"""Report global names used in a module that are not defined."""
import builtins
import dis
import importlib
import sys
import types
sys.path.insert(0, "/verif")
for m in sys.argv[1:]:
    mod = importlib.import_module(m)
    seen = set()

    def go(code):
        for i in dis.get_instructions(code):
            if i.opname in ("LOAD_GLOBAL", "LOAD_NAME") and i.argval not in mod.__dict__ and not hasattr(builtins, i.argval) and not i.argval.startswith("__"):
                if (i.argval, code.co_name) not in seen and i.opname == "LOAD_GLOBAL":
                    seen.add((i.argval, code.co_name))
                    print(m, code.co_name, i.argval)
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                go(c)
    src = open(mod.__file__).read()
    go(compile(src, mod.__file__, "exec"))
