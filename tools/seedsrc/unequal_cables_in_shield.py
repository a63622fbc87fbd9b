PROPERTY = 'C18'
NEEDS = 'a case file whose shield holds a cable of two conductors listed before another cable'
BREAKS = 'the transfer impedance of the shield is put on the wrong inner conductor'
EDITS = [('jsonParser.py', 'number_of_conductors += line.number_of_conductors', 'number_of_conductors += 1')]
# --- demo
import json, os, tempfile
import numpy as np
from src.jsonParser import Parser
zt = {"direction": "in", "cte": 3.0, "prop": 0.0, "factor": 1.0, "poles": {"real": [], "imag": []}, "residues": {"real": [], "imag": []}}
m = {
 "coordinates": ["%d 0 0 %d" % (k, (k + 1) % 2) for k in range(1, 9)],
 "elements": {"line": ["1 0 0 1 2", "2 0 0 3 4", "3 0 0 5 6", "4 0 0 7 8"]},
 "materials": [
  {"materialId": 1, "materialType": "Wire", "resistance": 0.0, "inductance": 2.5e-7, "capacitance": 1e-11, "transferImpedance": zt},
  {"materialId": 2, "materialType": "Multiwire", "resistanceVector": [0.0, 0.0], "inductanceMatrix": [[2.5e-7, 1e-8], [1e-8, 2.5e-7]], "capacitanceMatrix": [[1e-11, 0.0], [0.0, 1e-11]]},
  {"materialId": 3, "materialType": "Wire", "resistance": 0.0, "inductance": 2.5e-7, "capacitance": 1e-11},
  {"materialId": 4, "materialType": "Connector", "connectorType": "Conn_R", "resistance": 50.0}],
 "cables": [
  {"name": "shield", "materialId": 1, "elemIds": [1], "ndiv": 2, "initialConnectorId": 4, "endConnectorId": 4},
  {"name": "pair", "materialId": 2, "elemIds": [2, 3], "ndiv": 2, "initialConnectorId": 4, "endConnectorId": 4},
  {"name": "single", "materialId": 3, "elemIds": [4], "ndiv": 2, "initialConnectorId": 4, "endConnectorId": 4}],
 "bundles": [{"name": "b", "nestedElemIds": {"1": "2 3 4"}}]}
d = tempfile.mkdtemp()
f = os.path.join(d, 'case.smb.json')
json.dump({"model": m}, open(f, 'w'))
p = Parser(f)
os.remove(f); os.rmdir(d)
got = p.bundles[0].transfer_impedance.d[0]
want = np.zeros((4, 4)); want[1:, 0] = -3.0
assert np.allclose(got, want), got
