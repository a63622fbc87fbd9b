PROPERTY = 'C08'
NEEDS = 'a line whose conductance is not the same at all nodes, used in a bundle'
BREAKS = 'the bundle takes the conductance of the first node for every node but the last'
EDITS = [('mtl.py', 'G[k] = linalg.block_diag(G[k], line.g[k])', 'G[k] = linalg.block_diag(G[k], line.g[0])')]
# --- demo
import numpy as np
from src import mtl
l = mtl.MTL(np.array([[2.5e-7]]), np.array([[1e-11]]), length=1.0, ndiv=10, Zs=np.array([50.]), Zl=np.array([50.]))
l.add_conductance_in_region(0.3, 0.6, 0, 2.0)
b = mtl.MTLD({0: [l]}, "b")
assert np.allclose(b.g[:, 0, 0], l.g[:, 0, 0]), b.g[:, 0, 0]
