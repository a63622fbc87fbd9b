PROPERTY = 'C12'
NEEDS = 'a dispersive element requested at a position before the near end in one coordinate and inside in the others'
BREAKS = 'the request is accepted and the element is put into the first cell'
EDITS = [('dispersive.py', 'np.any((position < self.u[0]))', 'np.all((position < self.u[0]))')]
# --- demo
import numpy as np
from src import mtl
l = mtl.MTL(np.array([[2.5e-7]]), np.array([[1e-11]]), length=1.0, ndiv=10, Zs=np.array([50.]), Zl=np.array([50.]))
try:
    l.add_dispersive_connector(np.array([0., 0., -0.5]), 0, {"cte": 1.0, "prop": 0.0, "poles": {"real": [-1e9], "imag": [0.]}, "residues": {"real": [1e9], "imag": [0.]}})
except ValueError:
    pass
else:
    raise SystemExit('accepted: %s' % l.connectors.d[:, 0, 0])
assert not l.connectors.d.any()
