PROPERTY = 'C09'
NEEDS = 'a polyline whose first segment does not have the shortest cells'
BREAKS = 'the default time step follows the first cell instead of the shortest and the run is unstable'
EDITS = [('mtl.py', 'return np.min(self.du_norm[np.nonzero(self.du_norm)]) / np.max', 'return self.du_norm[0, 0, 0] / np.max')]
# --- demo
import numpy as np
from src import mtl
pos = np.array([[0., 0., 0.], [0., 0., 1.], [0., 0., 1.5]])
l = mtl.MTL(np.array([[2.5e-7]]), np.array([[1e-11]]), node_positions=pos, ndiv=[5, 10], Zs=np.array([50.]), Zl=np.array([50.]))
want = 0.05 * np.sqrt(2.5e-7 * 1e-11)
assert abs(l.dt - want) < 1e-6 * want, (l.dt, want)
