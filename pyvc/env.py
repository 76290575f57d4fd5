"""Load the code under contract (transformed) together with the library models."""
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from . import loader, runtime, models  # noqa: E402


TIME = ("count_range", "time_value", "time_value_range")
DEPS = {}


def load(overrides=None):
    loader.install(runtime.make_builtins(), runtime.HOOKS, models.substitutions(), overrides, models.make_enum_meta())
    for n in TIME:
        DEPS[n] = loader.load_dep("mediatimestamp." + n)
