"""check.py <ID>: decide one property against /repo's current tree."""
import importlib
import os
import sys

os.environ.setdefault("JAX_PLATFORMS", "cpu")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    if "--thorough" in sys.argv:
        sys.argv.remove("--thorough")
        os.environ["VERIF_TIER"] = "thorough"
    pid = sys.argv[1]
    mod = importlib.import_module(f"contracts.{pid.lower()}")
    from jxv import harness
    if sys.argv[2:3] == ["--shard"]:
        return harness.run_shard(mod.contracts(), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5])
    return harness.run_check(pid, mod.contracts(), getattr(mod, "ASSUME", ()), getattr(mod, "CHECKS", ()))


if __name__ == "__main__":
    sys.exit(main())
