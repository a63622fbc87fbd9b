PROPERTY = 'C03'
NEEDS = 'conductances that differ between the two ends of a line'
BREAKS = 'the far end equation mixes in the conductance of the near end'
EDITS = [('mtl.py', '''            - self.du_norm[-1][0][0] * (np.matmul(self.zl, self.g[-1])) / 2
            - np.eye''', '''            - self.du_norm[-1][0][0] * (np.matmul(self.zl, self.g[0])) / 2
            - np.eye''')]
# --- demo
import numpy as np
from src import mtl
l = mtl.MTL(np.array([[2.5e-7]]), np.array([[1e-11]]), length=1.0, ndiv=10, Zs=np.array([50.]), Zl=np.array([50.]))
l.g[-1] = 0.2
l.v[0, -1] = 1.0
l.run_until(l.dt * 1.5)
h, z, c, g, dt = 0.1, 50., 1e-11, 0.2, l.dt
a, b = z*h*(c/dt + g/2) + 1, z*h*(c/dt - g/2) - 1
assert abs(l.v[0, -1] - b/a) < 1e-9, (l.v[0, -1], b/a)
