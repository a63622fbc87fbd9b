PROPERTY = 'C10'
NEEDS = 'a polyline with different numbers of divisions per segment'
BREAKS = 'later segments get cells as if they had the divisions of the first'
EDITS = [('mtl.py', 'du = (node_positions[i+1]-node_positions[i])/divisions', 'du = (node_positions[i+1]-node_positions[i])/ndiv[min(i, 1)]')]
# --- demo
import numpy as np
from src import mtl
pos = np.array([[0., 0., 0.], [0., 0., 1.], [0., 0., 2.0], [0., 3., 2.0]])
l = mtl.MTL(np.array([[2.5e-7]]), np.array([[1e-11]]), node_positions=pos, ndiv=[5, 10, 3], Zs=np.array([50.]), Zl=np.array([50.]))
assert np.allclose(l.u[16], [0., 1., 2.]), l.u[16]
assert np.allclose(l.du[17], [0., 1., 0.]), l.du[17]
