PROPERTY = 'C17'
NEEDS = 'a junction of two cables of two conductors with multiwire connectors whose conductors are joined crosswise'
BREAKS = 'the resistance of the wrong conductor of the second connector is used'
EDITS = [('jsonParser.py', 'R1 += conn1["resistanceVector"][cond1]', 'R1 += conn1["resistanceVector"][cond0]')]
# --- demo
import json, os, tempfile
import numpy as np
from src.jsonParser import Parser
wire = {"materialId": 2, "materialType": "Multiwire", "resistanceVector": [0.0, 0.0], "inductanceMatrix": [[2.5e-7, 1e-8], [1e-8, 2.5e-7]], "capacitanceMatrix": [[1e-11, 0.0], [0.0, 1e-11]]}
con = lambda k, r: {"materialId": k, "materialType": "Connector", "connectorType": "MultiwireConnector", "connections": ["Conn_R", "Conn_R"], "resistanceVector": r}
m = {
 "coordinates": ["1 0 0 0", "2 0 0 1", "3 0 0 0", "4 0 0 1", "5 0 0 1", "6 0 0 2", "7 0 0 1", "8 0 0 2"],
 "elements": {"line": ["1 0 0 1 2", "2 0 0 3 4", "3 0 0 5 6", "4 0 0 7 8"], "node": []},
 "materials": [wire, con(3, [1.0, 2.0]), con(4, [10.0, 20.0])],
 "cables": [
  {"name": "one", "materialId": 2, "elemIds": [1, 2], "ndiv": 2, "initialConnectorId": 3, "endConnectorId": 3},
  {"name": "two", "materialId": 2, "elemIds": [3, 4], "ndiv": 2, "initialConnectorId": 4, "endConnectorId": 4}],
 "bundles": [{"name": "a", "nestedElemIds": "1 2"}, {"name": "b", "nestedElemIds": "3 4"}],
 "junctions": [{"name": "j", "unitedCoordIds": [[2, 7], [4, 5]]}]}
d = tempfile.mkdtemp()
f = os.path.join(d, 'case.smb.json')
json.dump({"model": m}, open(f, 'w'))
p = Parser(f)
os.remove(f); os.rmdir(d)
nw = p.networks[0].levels[0]
at = lambda n: nw.connections[n]["index"]
assert np.isclose(nw.P1[at(2), at(7)], 1/(1.0 + 20.0)), nw.P1
assert np.isclose(nw.P1[at(4), at(5)], 1/(2.0 + 10.0)), nw.P1
