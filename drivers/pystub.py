"""Loads single files of /repo/python/triqs without the compiled parts of the package: the modules they import are stand-ins."""
import sys, os, json, types, importlib.util
ROOT = os.path.join(os.environ["VERIF_REPO"], "python")
def emit(e, **k): sys.stdout.write(json.dumps(dict(e=e, **k), separators=(",", ":")) + "\n"); sys.stdout.flush()
def package(name):
    "an empty package whose submodules are the repository's files"
    m = types.ModuleType(name); m.__path__ = [os.path.join(ROOT, *name.split("."))]
    sys.modules[name] = m
    up, _, last = name.rpartition(".")
    if up in sys.modules: setattr(sys.modules[up], last, m)
    return m
def module(name, **k):
    "a stand-in with the given members"
    m = types.ModuleType(name); m.__dict__.update(k); sys.modules[name] = m
    up, _, last = name.rpartition(".")
    if up in sys.modules: setattr(sys.modules[up], last, m)
    return m
def load(name, path=None):
    "the repository's file of that name"
    spec = importlib.util.spec_from_file_location(name, os.path.join(ROOT, path or name.replace(".", "/") + ".py"))
    m = importlib.util.module_from_spec(spec); sys.modules[name] = m
    up, _, last = name.rpartition(".")
    if up in sys.modules: setattr(sys.modules[up], last, m)
    spec.loader.exec_module(m)
    return m
