#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/meta.py)."""
import json
import sys
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
sys.dont_write_bytecode = True
TECH = 'static analysis: abstract interpretation over symbolic values (value numbering in polynomial normal form), compared with specification functions'
NOTE = ('Decides the obligations listed in the evidence from the current source for all argument values; a value the analyser cannot '
        'resolve leaves its obligation undecided (reported in the evidence, neither pass nor alarm). Arithmetic is exact; numpy, scipy '
        'and casadi calls are taken at their documented meaning or as uninterpreted functions. ')


def P(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                technique=technique or TECH, note=note or NOTE, na=na)


V = 'omgtools/vehicles/'
PR = 'omgtools/problems/'
B = 'omgtools/basics/'
E = 'omgtools/environment/'
X = 'omgtools/execution/'

PROPS = [
    P('C01', 'Planned motions respect the kinematic limits of the vehicle',
      'For every vehicle model, any motion plan that satisfies the constraints posed to the optimiser respects every limit of that vehicle '
      '(velocities, accelerations, inputs, steering, tilt and rates, each with its lower and upper side and each axis), expressed in real time '
      'whatever the horizon time, on every segment of every vehicle, over positive durations. The limits used are those the user gave and '
      'otherwise the documented defaults.',
      ['inputs', 'configurations'],
      'all spline coefficients, horizon times, user limits and option combinations of the twelve vehicle models',
      'tests run a handful of examples; they check that the solver finishes, not that a missing or wrongly scaled limit would be noticed',
      [V + f for f in ('holonomic.py', 'holonomic1d.py', 'holonomic3d.py', 'holonomicorient.py', 'dubins.py', 'bicycle.py', 'agv.py',
                       'quadrotor.py', 'quadrotor3d.py', 'quadrotor3d_simple.py', 'trailer.py', 'tool.py')],
      [('trajectory constraints', 'define_trajectory_constraints of every vehicle'), ('limits', '__init__ of every vehicle')]),
    P('C02', 'Plans start at the present state and end at the requested goal',
      'Every plan is constrained to start at the predicted state (and rates) of the vehicle and to end at rest at the requested goal, for every '
      'quantity the model exposes. The values of the start and goal given by the user or predicted from the last plan are those '
      'handed to the optimiser. Every problem type imposes these conditions for all its vehicles (a fixed-time problem measures the distance to '
      'the goal in slack splines of each condition), and successive segments of a plan connect with equal position and real-time derivatives.',
      ['inputs', 'histories'], 'all states, inputs, goals and horizon times, for the twelve vehicle models',
      'a wrong or missing boundary value still gives a solvable problem and a finished example',
      [V + 'vehicle.py', V + 'dubins.py', V + 'trailer.py', V + 'bicycle.py', V + 'holonomic.py', PR + 'point2point.py'],
      [('start/end pairs', 'get_initial_constraints, get_terminal_constraints of every vehicle'),
       ('parameter values', 'set_parameters of every vehicle'), ('user calls', 'set_initial_conditions, set_terminal_conditions')]),
    P('C03', 'State, input and pose signals agree with the dynamics and the plan',
      'The sampled state, input and pose signals of a vehicle are exactly what its optimised splines describe in real time, and they satisfy '
      'the differential equation that the simulator integrates for that vehicle. The pose reported to plots and followers is the one '
      'contained in the state.',
      ['inputs'], 'all spline values, sampling times, states and inputs, for the twelve vehicle models',
      'examples do not compare the signals with the dynamics; a wrong sign or index shows only in a plot',
      [V + f for f in ('dubins.py', 'bicycle.py', 'agv.py', 'quadrotor.py', 'quadrotor3d.py', 'quadrotor3d_simple.py', 'trailer.py', 'holonomic.py')],
      [('signals', 'splines2signals of every vehicle'), ('dynamics', 'ode of every vehicle'), ('pose', 'state2pose of every vehicle')]),
    P('C04', 'Planned motions keep vehicles, obstacles and other vehicles apart',
      'Any plan that satisfies the posed constraints keeps every shape of the vehicle and every obstacle to be avoided on opposite sides of a common '
      'plane with bounded normal, in every segment, including all corner points, radii and the requested safety margin. The same holds '
      'for every pair of shapes of different vehicles, and every vehicle checks the position and heading its own splines describe.',
      ['inputs', 'configurations'], 'all shapes, numbers of obstacles and vehicles, positions, headings, hyperplanes and option values',
      'examples contain a few obstacle layouts where the unconstrained motion rarely touches the missing or flipped constraint',
      [V + 'vehicle.py', E + 'obstacle.py', E + 'environment.py', V + 'trailer.py', V + 'dubins.py'],
      [('vehicle side', 'Vehicle.define_collision_constraints_2d/_3d'), ('obstacle side', 'Obstacle2D/3D.define_collision_constraints'),
       ('pairing', 'Environment.define_collision_constraints, define_intervehicle_collision_constraints')]),
    P('C05', 'Planned motions stay inside the room',
      'Any plan that satisfies the posed constraints keeps every corner point of every vehicle shape, inflated by its radius, inside the room the '
      'segment belongs to, for axis-aligned and for general convex rooms and for vehicles with and without heading.',
      ['inputs', 'configurations'], 'all vehicle shapes, headings, rooms and positions',
      'examples seldom drive the vehicle against the wall',
      [V + 'vehicle.py'], [('room constraints', 'Vehicle.define_collision_constraints_2d/_3d')]),
]
sys.modules.setdefault('meta', sys.modules[__name__])
from meta_more import MORE, NOT_APPLICABLE
PROPS += MORE


def main():
    lines = []
    checks, na = [], []
    for p in PROPS + NOT_APPLICABLE:
        lines.append(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                                 'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}))
        assert len(p['title']) <= 80, p['title']
        if p['na']:
            na.append({'property': p['id'], 'reason': p['na']})
        elif os.path.exists(os.path.join(HERE, 'omgcheck', 'props', p['id'].lower() + '.py')):
            checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'], 'thorough_cmd': 'python3 check.py ' + p['id'],
                           'technique': p['technique'], 'level': 'other', 'level_note': p['note'],
                           'evidence_file': 'evidence/%s.json' % p['id']})
        else:
            na.append({'property': p['id'], 'reason': 'no check has been built for it yet'})
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        f.write('\n'.join(lines) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 -B -c "import omgcheck.core"', 'checks': checks, 'not_applicable': na,
         'notes': 'Pure source analysis; nothing of /repo is imported or executed by a check. No hooks in /repo.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print('%d checks, %d not applicable' % (len(checks), len(na)))


if __name__ == '__main__':
    main()
