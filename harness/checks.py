"""The checks, one function per property."""
import importlib

MODULES = {"A": "check_refs", "B": "check_listed", "C": "check_objects", "D": "check_data", "E": "check_rules", "F": "check_docs"}


def run(ctx):
    m = importlib.import_module(MODULES[ctx.prop[0]])
    getattr(m, ctx.prop)(ctx)


def replay(v):
    import machine
    return machine.run_script(v["history"])
