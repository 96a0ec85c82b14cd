"""Nothing to build: check that the interpreter, the solvers and the code under test import."""
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
import z3, cvc5, pandas, numpy  # noqa
print("z3", z3.get_version_string(), "cvc5", cvc5.__version__, "pandas", pandas.__version__, "numpy", numpy.__version__)
