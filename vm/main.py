import importlib
import locale
import logging
import os
import resource
import sys
import warnings
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent))
logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    lim = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    # nothing the library writes may depend on the place: a locale whose encoding is
    # ASCII for files opened without one (the time zone, with daylight saving, is set
    # by the script which starts this)
    locale.setlocale(locale.LC_CTYPE, "C")
    import vfbLib
    from vm import core

    where = Path(vfbLib.__file__).resolve()
    if not where.is_relative_to(core.REPO.resolve() / "src"):
        print(f"vfbLib comes from {where}, not from {core.REPO}/src")
        return 3
    module = importlib.import_module(f"vm.checks.{prop.lower()}")
    return core.run_check(prop, tier, seed, module)


if __name__ == "__main__":
    sys.exit(main())
