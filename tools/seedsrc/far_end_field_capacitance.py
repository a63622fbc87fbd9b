PROPERTY = 'C04'
NEEDS = 'an incident field on a line whose capacitance differs between the two ends'
BREAKS = 'the transverse field at the far end acts through the capacitance of the near end'
EDITS = [('mtl.py', '* (self.zl.dot(self.c[-1])).dot(self.e_T_now[:, -1] - self.e_T_prev[:, -1])', '* (self.zl.dot(self.c[0])).dot(self.e_T_now[:, -1] - self.e_T_prev[:, -1])')]
# --- demo
import numpy as np
from src import mtl
l = mtl.MTL(np.array([[2.5e-7]]), np.array([[1e-11]]), length=1.0, ndiv=10, Zs=np.array([50.]), Zl=np.array([50.]))
l.c[-1] = 4e-11
l.e_T[0, -1] = lambda t: 1e9*t
l.run_until(l.dt * 1.5)
h, z, c, dt = 0.1, 50., 4e-11, l.dt
want = -(h/dt)*z*c*(1e9*dt) / (z*h*c/dt + 1)
assert abs(l.v[0, -1] - want) < 1e-9*abs(want), (l.v[0, -1], want)
