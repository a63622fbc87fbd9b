PROPERTY = 'C06'
NEEDS = 'a dispersive element with complex poles and residues on a line with cells that are not 1 m long'
BREAKS = 'only the real part of the residue is spread over the cell'
EDITS = [('dispersive.py', 'residues[i] = (model["residues"]["real"][i] + 1j*model["residues"]["imag"][i])/du', 'residues[i] = model["residues"]["real"][i]/du + 1j*model["residues"]["imag"][i]')]
# --- demo
import numpy as np
from src import mtl
def run(n):
    l = mtl.MTL(np.array([[2.5e-7]]), np.array([[1e-11]]), length=float(n)*0.01, ndiv=n, Zs=np.array([50.]), Zl=np.array([50.]))
    l.add_dispersive_connector(np.array([0., 0., 0.02]), 0, {"cte": 0.0, "prop": 0.0, "poles": {"real": [-1e9, -1e9], "imag": [5e9, -5e9]}, "residues": {"real": [1e10, 1e10], "imag": [2e10, -2e10]}})
    return l
l = run(10)
dt = l.dt
p, r = np.array([-1e9+5e9j, -1e9-5e9j]), np.array([1e10+2e10j, 1e10-2e10j])/0.01
q1 = -(r/p)*(1-(np.exp(p*dt)-1)/(p*dt))
q2 = (r/p)*(1/(p*dt)+np.exp(p*dt)*(1-1/(p*dt)))
l.i[0, 2] = 1.0
l.v[0, :] = 0.0
l.advance_current_only = None
l.update_sources(); l.update_lr_terms()
A = 2.5e-7/dt + q1.sum().real
B = 2.5e-7/dt - q2.sum().real
l.advance_current()
assert abs(l.i[0, 2] - B/A) < 1e-9*abs(B/A), (l.i[0, 2], B/A)
