#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M, N, NW, D, P, PR, W, X = ('python/src/mtl.py', 'python/src/mtln.py', 'python/src/networks.py', 'python/src/dispersive.py', 'python/src/jsonParser.py',
                            'python/src/probes.py', 'python/src/waveforms.py', 'python/src/networkExtraction.py')
PROPS = []


def prop(id, title, statement, over, quant, why, files, mech, tech=None, note=None, na=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if observe:
        d['anchors']['observe_at'] = observe
    PROPS.append((d, tech, note, na))


AI = 'abstract interpretation of the Python source (gated value numbering into normal forms of telegrapher-equation terms)'
TRUST = ('Trusts the abstract models of numpy, scipy, sympy and the Python operations used (engine/), and the polynomial normal form. Floating point is treated as exact arithmetic. '
         'What the analysis cannot follow is reported as UNDECIDED and raises no alarm. ')

prop('C01', 'Each run performs the requested steps in leapfrog order from the state at hand',
     'Running a line or a network of bundles to a final time performs exactly the whole number of time steps that fit (final time divided by the step, rounded down) and the clock advances by one step per step. '
     'In every step all voltages (nodes inside the lines and at the networks or line ends) are updated from the old currents before any current is updated from the new voltages, using source values at the current and previous time. '
     'A second run continues exactly from the state the first one left.',
     ['inputs', 'histories'], 'all final times, time steps, numbers of bundles and networks and call sequences of run',
     'Tests run a handful of set-ups to a fixed final time; an off-by-one in the number of steps or a step order that matters only for coupled bundles is not visible in them.',
     [M, N], [('MTL.run_until, MTL.step', M), ('MTLN.run_until, MTLN.step', N)],
     AI + ': per-step state transformer and trip count of the public run', TRUST)
prop('C02', 'Interior voltages and currents obey the discretised telegrapher equations',
     'At every inner node and every cell of a line, one step computes the voltages and currents that solve the telegrapher equations discretised at half steps with the full per-unit-length matrices of that node or cell: '
     '(C/dt+G/2)v_new = (C/dt-G/2)v_old - difference of currents over the mean of the neighbouring cell lengths, and (L/dt+R/2)i_new = (L/dt-R/2)i_old - difference of new voltages over the cell length. '
     'This holds for any number of conductors, non-uniform cell lengths and inhomogeneous matrices, on single lines and on bundles.',
     ['inputs', 'configurations'], 'all numbers of conductors and cells, node positions, L, C, R, G per cell and node, states and time steps',
     'The tests compare a few waveforms at a few probes on uniform, mostly lossless, one- or two-conductor lines.',
     [M], [('update_lr_terms / update_cg_terms', M), ('advance_voltage / advance_current', M)],
     AI + ' with symbolic conductors, cells, matrices and state; normal-form equality with the discretised equation', TRUST + 'Non-singular matrices.')
prop('C03', 'Line ends obey the generator and load impedances given',
     'At its two ends a line obeys the boundary equation of the source and load impedance the user gave for each conductor: the half cell capacitance and conductance, the adjacent current, the end impedance and the end voltage source averaged over the step. '
     'Scalar, row and column impedances mean the same thing, conductor by conductor, including zero impedance (ideal source), and the equation uses the time step the run really uses.',
     ['inputs', 'configurations'], 'all impedances (scalar or per conductor), numbers of conductors, capacitances, cell lengths, time steps',
     'Tests use matched or open ends with the default step; a boundary term wrong in a coupled or re-stepped case goes unnoticed.',
     [M], [('init_Zt, compute_terminal_terms', M), ('advance_left_terminal / advance_right_terminal', M)],
     AI + '; boundary update compared with the closed boundary equation', TRUST + 'Non-singular matrices.')
prop('C04', 'Incident fields enter the update equations with the right terms',
     'An incident field acts on every conductor through its transverse part, entering the voltages as the change of the transverse potential over the step and the currents as its difference along the cell, and through its longitudinal part averaged over the two half steps around the current update. '
     'The same terms act at inner nodes, at line ends and in bundles.',
     ['inputs', 'configurations'], 'all longitudinal and transverse field functions of time, conductors, cells, steps',
     'Tests with external fields compare coarse waveforms on one or two conductors.',
     [M], [('advance_voltage, advance_current, advance_*_terminal, update_sources', M)],
     AI + '; fields are symbolic functions of time', TRUST)
prop('C06', 'Dispersive elements act as the rational impedance the user gave',
     'A dispersive lumped element placed on a conductor contributes, in exactly the cell where it was placed and on that conductor only, the series impedance of its rational model (constant, proportional and every pole-residue pair) spread over the cell. '
     'Its memory is the recursive convolution with the current of that cell, starts from rest, advances once per step with the old and the new current, and does not mix with the memory of other elements. '
     'It obeys the time step the run uses even if that step was chosen after the element was placed, alone or inside a bundle.',
     ['inputs', 'histories', 'configurations'], 'all rational models with any number of poles, positions, conductors, several elements in a cell, histories of steps',
     'Tests cover one or two fitted models on one line with the default time step and look at a norm of the response.',
     [D, M], [('Dispersive.add_poles, update_q3_phi_term, update_phi, set_time_step', D), ('DispersiveConnector.add_dispersive_connector', D), ('advance_current', M)],
     AI + '; three unrolled public steps with a symbolic pole count, convolution state eliminated through the current update',
     TRUST + 'Poles and residues are taken as given in conjugate-closed sets, so that sums over poles are real.')
prop('C07', 'Transfer impedances couple exactly the listed conductors and direction',
     'Between adjacent shielding levels of a bundle, a transfer impedance couples exactly the listed outer conductors with the listed inner ones: with direction "in" the outer currents drive the inner conductors, with "out" the reverse, with "both" each other, in all cells alike, with the model divided by its factor and with opposite sign to a series impedance. '
     'A connector transfer impedance replaces the one of the first or of the last cell only. Every other entry keeps its value.',
     ['inputs', 'configurations'], 'all bundles with several levels, listed conductors, directions, models, factors and connector sides',
     'Tests use "in" with one inner conductor; index offsets of levels, other directions and connector cells are not decided by them.',
     [D, M], [('TransferImpedance.add_transfer_impedance, set_transfer_impedance_at_index', D), ('MTLD.add_transfer_impedance, set_connector_transfer_impedance', M)],
     AI + ' on bundles of two and three levels (small concrete conductor counts, everything else symbolic)', TRUST + 'Conductor counts per level are instantiated with 2, 2 and 1.')

prop('C08', 'A bundle is the block-diagonal assembly of its lines',
     'A bundle built from lines behaves as the lines side by side: its conductors are those of the lines, levels in the order given and lines in the order given within a level, every entry of L, C, R, G (and of dispersive elements) between conductors of one line is that line\'s entry for that cell or node, '
     'and entries between different lines are zero unless a transfer impedance couples them. A new bundle is at rest.',
     ['inputs', 'configurations'], 'all bundles of lines with any matrices per cell and node, numbers of conductors and levels',
     'Tests build bundles of uniform lines with equal counts; an index error that shows with unequal counts or inhomogeneous matrices is not seen.',
     [M], [('MTLD.__init__', M)], AI + ' on bundles with one to three levels of unequal sizes', TRUST + 'Conductor counts are small concrete numbers, unequal per line.')
prop('C09', 'One time step for everything, stable by default and as asked otherwise',
     'A line\'s default time step is its shortest cell divided by its fastest phase velocity; a bundle takes the smallest step of its lines and a network of bundles the smallest of its bundles, in whatever order they are given. '
     'When the run is asked for another step (by argument, by attribute or by a number of steps), that one step is used in the update equations, the end terms, the networks, the clock and the probe times alike.',
     ['inputs', 'configurations'], 'all matrices, cell lengths, orders of lines and bundles, requested steps',
     'Tests use the default step of uniform lines, so a stale step in one of the terms makes no difference there.',
     [M, N], [('MTL.get_max_timestep, set_time_step', M), ('MTLN.add_bundle, run_until', N)], AI + '; default step as closed expression, update equations for the requested step', TRUST)
prop('C10', 'Polylines are divided into the cells asked for',
     'A line through given vertices with a number of divisions per segment has its nodes at the equal divisions of each segment, shared vertices once, first and last node at the ends, and its cells carry the segment\'s length divided by its divisions both in the geometry and in the update equations. '
     'Without vertices the line runs along z from the origin with the length given.',
     ['inputs'], 'all vertices and numbers of divisions',
     'Tests check a few small polylines.', [M], [('MTL.__init__', M)], AI + ' with symbolic vertices and division counts, one to three (thorough: four) segments', TRUST + 'Numbers of segments are instantiated.')
prop('C11', 'Lumped resistance and conductance act where and as large as given',
     'A resistance or conductance given for a stretch (or a point) of a line or bundle is spread over the cells between the nodes nearest to the given positions so that their total is the value given, on the given conductor only; a point takes one cell. All other cells, conductors and coupling entries keep their values, and the very next run uses the new values.',
     ['inputs', 'configurations'], 'all positions (at or between nodes, either end, as number or list), values, conductors, matrices, cell lengths',
     'Tests look at one resistance on a uniform single line.', [M], [('set_resistance_in_region, set_resistance_at_point', M), ('add_conductance_in_region, add_conductance_at_point', M)],
     AI + '; update equations with the required distribution', TRUST)
prop('C12', 'Impossible requests are refused without changing anything',
     'Requests that make no sense are refused with an error before anything a later run depends on is changed: elements or probes outside the line, a second dispersive element in the same place, models with uneven pole and residue lists, transfer impedances between levels that are not adjacent or at an unknown side, '
     'matrices or impedances of inconsistent size, more segments than vertices, two bundles of one name, lines with different nodes in a bundle.',
     ['inputs', 'histories'], 'all such requests on lines and bundles that may already carry elements',
     'Tests check two or three error messages and never what state an error leaves.', [M, D, N], [('add_dispersive_connector', D), ('add_transfer_impedance, set_transfer_impedance_at_index', D), ('MTL.__init__, init_LC, init_RG, init_Zt, add_probe', M), ('MTLD.__init__, add_probe', M), ('MTLN.add_bundle', N)],
     AI + ': every path of the request reaches a refusal; state at the refusal compared through the next step', TRUST + 'Errors raised inside numpy itself are not modelled.')
prop('C13', 'Probes report what the line does where and when they say',
     'A probe watches the node nearest to its position. After a run it holds exactly one frame per step of that run, with one column per conductor: the voltages of that node, or the currents of the cell that starts there (the last cell for the far end), after the step. '
     'Voltage frames carry the time at the end of the step, current frames half a step later, with the time step the run used and time continuing over successive runs. Probes do not disturb each other and record their own bundle; an unknown probe type is refused.',
     ['inputs', 'histories'], 'all positions, types, numbers of steps and successive runs, time steps chosen after the probe was added, lines and bundles',
     'Tests read a few probes at the ends of uniform lines after one run and compare waveforms with tolerances of several steps.',
     [PR, M, N], [('Probe.__init__, update, resize_frames', PR), ('MTL.add_probe, MTLD.add_probe, update_probes, run_until', M), ('MTLN.update_probes, run_until', N)],
     AI + '; frames compared with the abstract state after each of up to three (thorough: four) steps', TRUST)
prop('C14', 'Elements of junctions and terminations obey their circuit equations',
     'In every step the voltages of the nodes of a network satisfy charge balance: the half-cell capacitance of the line ends, the line currents and the currents of all elements connected between nodes and ground (resistor, capacitor, resistor in series with a parallel LC, short circuit) or between two nodes (resistor, short circuit), '
     'each with its voltage source, add up, elements at the same node in parallel. Capacitor and inductor memory starts from rest and follows its own element.',
     ['inputs', 'configurations', 'histories'], 'all element values, sources as functions of time, combinations of elements at nodes, histories of steps',
     'Tests use a few terminations with coarse comparisons; reactive elements, several elements at one node and several sources are mostly untested.',
     [NW], [('Network.connect_to_ground*, connect_nodes, short_*', NW), ('Network.advance_voltage, compute_v_terms, update_sources', NW)],
     AI + '; node voltages of up to three unrolled public steps compared with the solved node equations for each combination of elements',
     TRUST + 'Numbers of nodes and elements are instantiated with small concrete numbers. Capacitor currents use the backward difference at the new and the old time, the state of an LC element the implicit Euler step, as the code defines them.')
prop('C16', 'Networks join the conductor, line end and level they name',
     'Each node of a network is the end of the conductor it names: of the line, bundle, level and side given, whatever the order in which nodes, lines and bundles are listed. Its voltage appears at that end of that conductor only, and it sees the current of the end cell of that conductor (leaving at the near end, arriving at the far end), '
     'the capacitance and cell length of that end, and the transverse field there. Currents are then updated from these end voltages.',
     ['inputs', 'configurations'], 'all layouts of bundles, levels, lines and networks; fields, matrices, cell lengths',
     'Tests join single lines or equal levels, where wrong offsets, ends or orders coincide with the right ones.',
     [NW, N], [('Network._add_nodes_in_line, _add_node, update_voltages, update_currents, update_external_fields', NW), ('NetworkD.update_index_numbers', NW), ('MTLN.step, add_network', N)],
     AI + ' on small concrete layouts with unequal counts, non-uniform cells and symbolic matrices, fields and sources', TRUST + 'Layouts are instantiated: up to two bundles, three levels, three nodes per network. Conductance of a line end joined to a network is not covered.')

prop('C17', 'Terminations and junctions of a case file connect what they name',
     'Reading a case file gives the networks it describes: each termination puts the element of the connector at that cable end (resistor, capacitor, LC parallel with series resistor, short circuit; per conductor for multiwire connectors), with the terminal source at that node, between the conductor at that node and ground; '
     'each junction joins the conductors of each of its pairs through the sum of the resistances of their connectors (a short circuit if there is none), with a source at either node. Near and far end, conductor, level and cable are those of the element and position named, whatever the order in which the parts of the file are listed, and parts no cable uses have no effect.',
     ['inputs', 'configurations'], 'all case files: kinds of connectors and their values, sources, orders and numbering of parts, levels',
     'Tests read about twenty files whose parts are numbered and listed in the same order and compare a few waveforms.',
     [P, NW], [('Parser._buildTerminations, _buildJunctions', P), ('Parser._getConnectorAndCableInNode, _getElementOfNode, _getTerminalSourceInNode, _getNetwork*List', P)],
     AI + ' of the parser on case files of fixed topology with symbolic values; one step of the result compared with the lines and networks built by hand through the public classes',
     TRUST + 'Topologies are instantiated (up to two cables, two conductors, two levels). json and igraph are replaced by specifications of the calls used. Differential against the public classes, whose own behaviour is C14 and C16. Inductance and capacitance of Conn_sRLC connectors are not claimed.')
prop('C18', 'Cables, bundles and elements of a case file become what they describe',
     'Reading a case file gives the bundles it describes: each cable is the line with the matrices of its material, through the points of its element, with the divisions it asks for; each bundle has the levels, lines and conductors of its nesting, in that order; the transfer impedance of a shield couples it with exactly the conductors directly inside it; '
     'lumped elements act on the cable, conductor and place they name, and connector impedances at a cable end replace those of the first or last cell of that cable.',
     ['inputs', 'configurations'], 'all case files: materials, lengths, nestings, transfer impedances, elements, orders and numbering of parts',
     'Tests compare a few waveforms of files with one shield and equal numbering.',
     [P, M], [('Parser._buildBundles, _buildGraphFromConnections, _setBundleTransferImpedance, _findConductorNumberInLevel', P), ('Parser._buildMTLfromLine, _getListOfCoordinates, _addLumpedElement, _addConnectorsResistance', P)],
     AI + ' of the parser on case files of fixed topology with symbolic values; one step of the result compared with the bundles built by hand through the public classes',
     TRUST + 'Topologies are instantiated (up to three levels and three conductors). json and igraph are replaced by specifications of the calls used. Differential against the public classes, whose own behaviour is C06 to C11.')
prop('C19', 'Sources and probes of a case file are those it names',
     'A terminal source of a case file drives its node with the waveform its type and parameters describe; a type that is not known is refused. Each probe of the file watches the bundle of its cable (or of the element at its node), at the place of its node, for the quantity of its type, and is found under its name after the run with one frame per step.',
     ['inputs', 'configurations'], 'all waveform types and parameters, probe types, places and orders of parts',
     'Tests use three of the waveforms and probes at the ends of single cables.',
     [P, W, PR], [('Parser._buildSource, _getTerminalSourceInNode', P), ('Parser._addProbes, _getBundleFromElemId', P)],
     AI + ' of the parser on case files with each kind of source and probe; node voltages and recorded frames compared with those of sources and probes added by hand',
     TRUST + 'Topologies are instantiated. Distributed sources are not claimed.')
prop('C20', 'Waveforms have the values of their formulas at every time',
     'Every waveform offered has, before, at and after each of its breakpoints and in every period, the value of its defining formula: exponential, Gaussian, square, triangle, sine, squared sine, trapezoidal and ramp pulses and the double exponential. Pulses are zero before they start. The symbolic forms agree with the numeric ones, and travelling forms at a place have the value at the time retarded by the distance over the velocity.',
     ['inputs'], 'all times, places, amplitudes, rise, fall and period times and velocities',
     'Tests plot or sample a few values; the breakpoints and the time before the start are not sampled.',
     [W], [('all functions', W)], AI + ' of each function in each regime of time (breakpoints parametrised by positive lengths, so the regimes cover all times); normal form compared with the formula',
     TRUST + 'Parameters are positive where they are lengths of time; rise, flat and fall fit into the period.')
NA_ACC = 'needs a bound on the discretisation error of a floating-point time march; no sound static argument in reach bounds it'
prop('N01', 'Solutions converge to those of the telegrapher equations',
     'With finer cells and steps the computed voltages and currents approach the solution of the telegrapher equations with the given ends, and propagate without artificial reflection on a matched uniform line.',
     ['inputs'], 'all lines and sources', 'Tests compare a few cases with tolerances.', [M], [('MTL.step', M)],
     na='convergence of a numerical scheme is a statement about limits of runtime values: ' + NA_ACC + '. The update equations themselves are decided by C02 to C04.')
prop('N02', 'A run with a time step below the limit stays bounded',
     'With passive lines, ends, elements and networks and a time step not above the default, voltages and currents stay bounded for all times.',
     ['inputs', 'histories'], 'all passive models and run lengths', 'Tests run short times.', [M, NW], [('MTL.get_max_timestep', M), ('Network.advance_voltage', NW)],
     na='needs an energy argument over eigenvalues of arbitrary matrices, which the normal forms used here do not carry; the default step and the update equations are decided by C09 and C02, C03, C14.')
prop('N03', 'Fitted models reproduce the data they were fitted to',
     'Vector fitting of tabulated impedances gives stable poles and a rational model within the requested error of the data, and line parameters computed from it are passive.',
     ['inputs'], 'all tabulated data', 'Tests fit one or two tables.', ['python/src/VF'], [('vector fitting', 'python/src/VF')],
     na='the result of an iterative least-squares fit is a runtime quantity; accuracy and stability of the poles cannot be bounded from the source.')
prop('N04', 'Scattering parameters extracted agree with the network simulated',
     'Scattering and admittance parameters extracted from port probes equal those of the simulated network in the frequency band asked for.',
     ['inputs'], 'all lines and bands', 'Tests compare a few coefficients.', [X, PR], [('S extraction', X), ('Port', PR)],
     na='Fourier transforms of recorded waveforms: truncation, leakage and decay of the runtime signals decide the result. What probes record is decided by C13.')
prop('N05', 'Localized incident fields act on exactly the stretch given',
     'A longitudinal field given for a stretch of a line acts on the cells of this stretch, on cut cells with the fraction inside, and nowhere else; plane waves and field functions of place are evaluated at the place and direction of each cell.',
     ['inputs'], 'all stretches, polylines, fields', 'Tests use fields covering whole lines.', [M], [('add_localized_longitudinal_field, add_external_field, add_planewave', M)],
     na='the geometry code builds closures over sympy expressions and data-dependent index sets that the analysis of numpy and sympy here does not follow; how the fields act once set is decided by C04.')


def main():
    import sys
    sys.path.insert(0, HERE)
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for d, tech, note, na in PROPS:
            assert len(d['title']) <= 80, d['title']
            f.write(json.dumps(d) + '\n')
    checks, nas = [], []
    for d, tech, note, na in PROPS:
        pid = d['id']
        if na:
            nas.append(dict(property=pid, reason=na))
        elif not os.path.exists(os.path.join(HERE, 'checks', pid.lower() + '.py')):
            nas.append(dict(property=pid, reason='no check is built for it yet'))
        else:
            checks.append(dict(property=pid, quick_cmd='python3-vt /verif/check.py %s' % pid, thorough_cmd='python3-vt /verif/check.py %s --thorough' % pid,
                               technique='static analysis: ' + tech, level='other', level_note=note))
    m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=nas,
             notes='All checks are one static analyser (engine/) with per-property specifications (checks/). Nothing of /repo is imported or run; the source is parsed on every run.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
