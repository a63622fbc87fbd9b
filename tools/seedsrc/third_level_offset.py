PROPERTY = 'C07'
NEEDS = 'a bundle of three shielding levels with unequal numbers of conductors and a transfer impedance between the outer two'
BREAKS = 'the transfer impedance is put on the wrong conductors'
EDITS = [('dispersive.py', 'n_before_in = sum(levels[0:in_level])', 'n_before_in = n_before_out + levels[-2]', 0)]
# --- demo
import numpy as np
from src import mtl
def line(n):
    return mtl.MTL(2.5e-7*np.eye(n), 1e-11*np.eye(n), length=1.0, ndiv=4, Zs=50.*np.ones(n), Zl=50.*np.ones(n))
b = mtl.MTLD({0: [line(1)], 1: [line(2)], 2: [line(1)]}, "b")
zt = {"direction": "in", "cte": 3.0, "prop": 0.0, "poles": {"real": [], "imag": []}, "residues": {"real": [], "imag": []}}
b.add_transfer_impedance(0, [0], 1, [0], zt)
want = np.zeros((4, 4)); want[1, 0] = -3.0
assert np.allclose(b.transfer_impedance.d[0], want), b.transfer_impedance.d[0]
