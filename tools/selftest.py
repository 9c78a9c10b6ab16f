"""setup: the interpreter, z3 and the replay server can be used"""
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3, numpy, h5py
s = z3.Solver()
x = z3.Int("x")
s.add(x * x == 49, x > 0)
assert s.check() == z3.sat and s.model()[x].as_long() == 7
print("z3", z3.get_version_string(), "numpy", numpy.__version__, "h5py", h5py.__version__)
