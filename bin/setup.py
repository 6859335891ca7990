"""Nothing to build: checks that the tools the checks need are here."""
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import jax  # noqa: F401
import z3
print("z3", z3.get_version_string(), "jax", jax.__version__)
