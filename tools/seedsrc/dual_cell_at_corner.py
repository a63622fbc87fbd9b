PROPERTY = 'C02'
NEEDS = 'a line whose neighbouring cells have different lengths (a polyline with unequal divisions)'
BREAKS = 'at the node between cells of different length the voltage update uses the following cell instead of the mean of both'
EDITS = [('mtl.py', 'du_norm[i]= 0.5*(self.du_norm[i]+self.du_norm[i-1])', 'du_norm[i]= self.du_norm[i]', 0)]
# --- demo
import numpy as np
from src import mtl
pos = np.array([[0., 0., 0.], [0., 0., 1.], [0., 0., 4.]])
l = mtl.MTL(np.array([[2.5e-7]]), np.array([[1e-11]]), node_positions=pos, ndiv=[10, 10], Zs=np.array([50.]), Zl=np.array([50.]))
l.i[0, 10] = 1.0
l.run_until(l.dt * 1.5)
h = 0.5 * (0.1 + 0.3)
want = -l.dt / (1e-11 * h)
assert abs(l.v[0, 10] - want) < 1e-6 * abs(want), (l.v[0, 10], want)
