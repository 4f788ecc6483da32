import importlib, os


def prop_ids():
    d = os.path.join(os.path.dirname(__file__), "props")
    return sorted(f[:-3].upper() for f in os.listdir(d) if f[0] == "c" and f[1:2].isdigit() and f.endswith(".py"))


def load_prop(pid):
    return importlib.import_module("dst.props." + pid.lower()).PROP
