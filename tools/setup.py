"""Nothing has to be built: check that the interpreter, the package and the generation library are usable."""
import sys
sys.path.insert(0, "/repo/src")
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import hypothesis, numpy, pyomo, tvemoves_rufbad  # noqa
print("hypothesis", hypothesis.__version__, "numpy", numpy.__version__, "pyomo", pyomo.__version__)
