"""Planted bugs: (re)writes /verif/seeded/<id>/ from the definitions below.  Development tool, not used by any check."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = 'safe_autonomy_dynamics/'
AE = P + 'external/aerobench/'
LL = AE + 'lowlevel/'
BUGS = []

def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append((id, prop, edits, demo, needs, breaks))

HEAD = """import os, sys, warnings
sys.path.insert(0, os.getcwd())
os.environ.setdefault('JAX_PLATFORMS', 'cpu')
import numpy as np
"""

# ---------------------------------------------------------------- commands
bug('warn-once', 'C01', [(P+'base_models.py', '''            warnings.warn(f"Control input exceeded limits. Clipping to range ({self.control_min}, {self.control_max})")
''', '''            if not getattr(self, "_clip_warned", False):
                self._clip_warned = True  # do not flood the log of long simulations
                warnings.warn(f"Control input exceeded limits. Clipping to range ({self.control_min}, {self.control_max})")
''')], '''
from safe_autonomy_dynamics.cwh import CWHSpacecraft
e = CWHSpacecraft(name='a')
for k in range(3):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        e.step(1, np.array([5., 0, 0]))
        assert len(w) == 1, k
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        e.step(1, np.array([.5, 0, 0]))
        assert not w
''', 'a second out-of-range command to the same entity', 'only the first saturated command of an entity is reported')

bug('saturate-one-side', 'C01', [(P+'base_models.py', '''        if (np.any(control < self.control_min) or np.any(control > self.control_max)):
            warnings.warn(f"Control input exceeded limits. Clipping to range ({self.control_min}, {self.control_max})")
        control = np.clip(control, self.control_min, self.control_max)
''', '''        if np.any(control < self.control_min):
            warnings.warn(f"Control input exceeded limits. Clipping to range ({self.control_min}, {self.control_max})")
            control = np.maximum(control, self.control_min)
        elif np.any(control > self.control_max):
            warnings.warn(f"Control input exceeded limits. Clipping to range ({self.control_min}, {self.control_max})")
            control = np.minimum(control, self.control_max)
''')], '''
from safe_autonomy_dynamics.cwh import CWHSpacecraft
warnings.simplefilter('ignore')
a, b = CWHSpacecraft(name='a'), CWHSpacecraft(name='b')
a.step(1, np.array([-3., 3., 0])); b.step(1, np.array([-1., 1., 0]))
assert np.array_equal(a.state, b.state)
''', 'one component below its minimum and another above its maximum in the same command', 'the component above its maximum is not saturated')

bug('hold-last-command', 'C02', [(P+'base_models.py', '''                control = self.control_default.copy()
                for action_name, action_value in action.items():
''', '''                control = np.asarray(self.control_default)
                for action_name, action_value in action.items():
''')], '''
from safe_autonomy_dynamics.cwh import CWHSpacecraft
a, b = CWHSpacecraft(name='a'), CWHSpacecraft(name='b')
a.step(1, {'thrust_x': .5}); b.step(1, np.array([.5, 0, 0]))
a.step(1, {'thrust_y': .5}); b.step(1, np.array([0, .5, 0]))
assert np.array_equal(a.state, b.state)
a.step(1); b.step(1, np.zeros(3))
assert np.array_equal(a.state, b.state)
''', 'a dictionary command followed by a command that relies on the default', 'actuators not named keep the value of the previous dictionary command')

bug('command-buffer', 'C03', [(P+'base_models.py', '''                control = self.control_default.copy()
                for action_name, action_value in action.items():
''', '''                if getattr(self, "_control_buffer", None) is None:
                    self._control_buffer = self.control_default.copy()
                control = self._control_buffer
                for action_name, action_value in action.items():
'''), (P+'base_models.py', '''        control = np.clip(control, self.control_min, self.control_max)

''', '''        control = np.clip(control, self.control_min, self.control_max)
        self._control_buffer = None

''')], '''
from safe_autonomy_dynamics.cwh import CWHSpacecraft
a, b = CWHSpacecraft(name='a'), CWHSpacecraft(name='b')
try:
    a.step(1, {'thrust_x': .5, 'nonsense': 1})
    assert False
except KeyError:
    pass
a.step(1, {'thrust_y': .5}); b.step(1, {'thrust_y': .5})
assert np.array_equal(a.state, b.state)
''', 'a dictionary command rejected after its first entry, followed by another dictionary command', 'the rejected command leaks into the next step')

# ---------------------------------------------------------------- limits and wrapping
bug('clip-one-side', 'C04', [(P+'base_models.py', '''        next_state = self.np.clip(next_state, self.state_min, self.state_max)
''', '''        if self.np.any(next_state < self.state_min):
            next_state = self.np.maximum(next_state, self.state_min)
        elif self.np.any(next_state > self.state_max):
            next_state = self.np.minimum(next_state, self.state_max)
''')], '''
from safe_autonomy_dynamics.dubins import Dubins3dAircraft
e = Dubins3dAircraft(name='a', integration_method='Euler')
e.state = np.array([0, 0, 0, 0, -.5, 1.5, 300.])
e.step(.1)
assert e.gamma >= -.3491 and e.roll <= 1.0473, e.state
''', 'one component below its minimum and another above its maximum after the same step', 'the upper limit is not enforced')

bug('limit-slack', 'C04', [(P+'base_models.py', '''        next_state = self.np.clip(next_state, self.state_min, self.state_max)
''', '''        if step_size > 0:
            next_state = self.np.clip(next_state, self.state_min, self.state_max)
''')], '''
from safe_autonomy_dynamics.dubins import Dubins2dAircraft
e = Dubins2dAircraft(name='a', v=500., integration_method='Euler')
e.step(0.)
assert e.v <= 400
''', 'a zero-length step from a state outside its limits', 'the state limits do not hold after the step')

bug('wrap-fast-path', 'C05', [(P+'base_models.py', '''            needs_wrap = self.np.logical_not(self.np.isnan(self.angle_wrap_centers))

''', '''            needs_wrap = self.np.logical_not(self.np.isnan(self.angle_wrap_centers))
            if not self.np.any(self.np.logical_and(needs_wrap, self.np.abs(state) > np.pi)):
                return state  # nothing to wrap

''')], '''
from safe_autonomy_dynamics.cwh.rotational_model import CWHRotation2dDynamics
nan = np.nan
d = CWHRotation2dDynamics(angle_wrap_centers=np.array([nan, nan, np.pi, nan, nan, nan]), ang_vel_limit=1., integration_method='Euler')
s, _ = d.step(1., np.array([0, 0, .5, 0, 0, -1.]), np.zeros(3))
assert abs(s[2] - np.pi) <= np.pi + 1e-9, s
''', 'a wrap centre other than zero and an angle in [-pi, pi]', 'the angle is left outside the half turn around its centre')

bug('wrap-single-turn', 'C05', [(P+'base_models.py', '''            output_state = self.np.where(needs_wrap, wrapped_state, state)
''', '''            wrapped_state = self.np.where(state > self.angle_wrap_centers + 3 * np.pi, state - 2 * np.pi, wrapped_state)
            output_state = self.np.where(needs_wrap, wrapped_state, state)
''')], '''
from safe_autonomy_dynamics.cwh.rotational_model import CWHRotation2dDynamics
d = CWHRotation2dDynamics(ang_vel_limit=1., integration_method='Euler')
s, _ = d.step(20., np.array([0, 0, 0., 0, 0, 1.]), np.zeros(3))
assert abs(s[2]) <= np.pi + 1e-6, s
''', 'more than one and a half turns in one step', 'the angle is only brought back by one turn')

bug('limit-strict', 'C06', [(P+'base_models.py', '''        upper_bounded_states = state >= self.state_max
''', '''        upper_bounded_states = state > self.state_max
''')], '''
from safe_autonomy_dynamics.dubins import Dubins2dAircraft
e = Dubins2dAircraft(name='a', v=400., integration_method='Euler')
e.step(0., np.array([0., 10.]))
assert e.v == 400 and e.state_dot[3] <= 0, e.state_dot
''', 'a state exactly on its upper limit, pushed outwards', 'the reported derivative points out of the limits')

bug('derivative-before', 'C06', [(P+'base_models.py', '''            next_state = sol.y[:, -1]  # save last timestep of integration solution
            state_dot = self.compute_state_dot(step_size, next_state, control)
''', '''            next_state = sol.y[:, -1]  # save last timestep of integration solution
            state_dot = self.compute_state_dot(step_size, next_state if len(sol.t) > 2 else sol.y[:, 0], control)
''')], '''
from safe_autonomy_dynamics.cwh import CWHSpacecraft
e = CWHSpacecraft(name='a', x=100, trajectory_samples=2)
e.step(1., np.array([1., 0, 0]))
d = e.dynamics
assert np.allclose(e.state_dot, d.compute_state_dot(0, e.state, np.array([1., 0, 0])), rtol=1e-9), e.state_dot
''', 'at most two samples (or accepted solver steps) in the step', 'the derivative reported is not that of the returned state')

# ---------------------------------------------------------------- aliasing, isolation
bug('setter-alias', 'C07', [(P+'base_models.py', '''        self._state = value.copy()
''', '''        self._state = np.asarray(value)
''')], '''
from safe_autonomy_dynamics.dubins import Dubins2dAircraft
e = Dubins2dAircraft(name='a')
s = np.array([0, 0, 0, 300.])
e.state = s
s[3] = 0
assert e.v == 300
s = np.array([0, 0, 0, 300.])
e.state = s
e.x = 7
assert s[0] == 0
''', 'assigning a double-precision state array and using it again', 'the entity shares memory with its caller')

bug('matrix-alias', 'C07', [(P+'base_models.py', '''        self.B = self.np.copy(B)

    def state_transition_system(self, state: np.ndarray) -> np.ndarray:
        return self.A @ state
''', '''        self.B = self.np.asarray(B)

    def state_transition_system(self, state: np.ndarray) -> np.ndarray:
        return self.A @ state
''')], '''
from safe_autonomy_dynamics.base_models import BaseLinearODESolverDynamics
A, B = np.zeros((2, 2)), np.ones((2, 1))
d = BaseLinearODESolverDynamics(A=A, B=B, integration_method='Euler')
B[:] = 9
s, _ = d.step(1., np.zeros(2), np.ones(1))
assert np.array_equal(s, [1, 1]), s
''', 'changing the input matrix handed to a linear model after construction', 'the dynamics change with it')

bug('matrix-cache', 'C08', [(P+'cwh/point_model.py', '''    assert mode in ['2d', '3d'], "mode must be on of ['2d', '3d']"
    if mode == '2d':
''', '''    assert mode in ['2d', '3d'], "mode must be on of ['2d', '3d']"
    if (n, mode) in _MATRICES:
        return _MATRICES[(n, mode)]
    if mode == '2d':
'''), (P+'cwh/point_model.py', '''            [0, 0, 1 / m],
        ], dtype=np.float64)

    return A, B
''', '''            [0, 0, 1 / m],
        ], dtype=np.float64)

    _MATRICES[(n, mode)] = (A, B)
    return A, B
'''), (P+'cwh/point_model.py', '''def generate_cwh_matrices(''', '''_MATRICES: dict = {}


def generate_cwh_matrices(''')], '''
from safe_autonomy_dynamics.cwh.point_model import CWHSpacecraft
CWHSpacecraft(name='a', n=0.0123).step(1.)
e = CWHSpacecraft(name='b', n=0.0123, m=24)
e.step(1., np.array([1., 0, 0]))
assert abs(e.x_dot - 1 / 24) < 1e-3, e.x_dot
''', 'two spacecraft with the same mean motion and different masses', 'the second one gets the mass of the first')

bug('warm-start', 'C08', [(P+'base_models.py', '''            sol = scipy.integrate.solve_ivp(self.compute_state_dot, (0, step_size), state, args=(control, ), t_eval=t_eval)
''', '''            # reuse the step length found for the previous step instead of searching for one
            first_step = getattr(self, "_first_step", None)
            if first_step is not None and not 0 < first_step <= step_size:
                first_step = None
            sol = scipy.integrate.solve_ivp(
                self.compute_state_dot, (0, step_size), state, args=(control, ), t_eval=t_eval, first_step=first_step
            )
            if len(sol.t) > 1:
                self._first_step = float(sol.t[-1] - sol.t[-2])
''')], '''
from safe_autonomy_dynamics.dubins import Dubins3dAircraft
e = Dubins3dAircraft(name='a', roll=.5, gamma=.1)
s0 = e.state
e.step(3., np.array([.1, .05, 20.])); s1 = e.state
e.step(1., np.array([.1, -.05, 20.]))
e.state = s0
e.step(3., np.array([.1, .05, 20.]))
assert np.array_equal(e.state, s1), e.state - s1
''', 'the same step taken along two histories', 'the result depends on the previous step')

# ---------------------------------------------------------------- integration
bug('one-sample', 'C09', [(P+'base_models.py', '''            if self.trajectory_samples > 0:
''', '''            if self.trajectory_samples > 1:
''')], '''
from safe_autonomy_dynamics.cwh import CWHSpacecraft
e = CWHSpacecraft(name='a', x=100, trajectory_samples=1)
e.step(2., np.array([1., 0, 0]))
assert list(e.dynamics.trajectory_t) == [2.], e.dynamics.trajectory_t
''', 'exactly one requested sample', 'the solver\'s own steps are stored instead')

bug('sample-grid', 'C09', [(P+'base_models.py', '''                t_eval = np.linspace(0, step_size, self.trajectory_samples + 1)[1:]
''', '''                t_eval = np.minimum(np.arange(1, self.trajectory_samples + 1) * round(step_size / self.trajectory_samples, 6), step_size)
                t_eval[-1] = step_size
''')], '''
from safe_autonomy_dynamics.cwh import CWHSpacecraft
e = CWHSpacecraft(name='a', x=100, trajectory_samples=7)
e.step(.001, np.array([1., 0, 0]))
assert np.allclose(e.dynamics.trajectory_t, np.arange(1, 8) * .001 / 7, rtol=1e-9), e.dynamics.trajectory_t
''', 'a step so short (or so finely sampled) that the sample interval is not a multiple of a microsecond', 'samples are not at k*h/N')

bug('jax-time', 'C10', [(P+'base_models.py', '''            state_dot = self.compute_state_dot(0, state, control)
            next_state = state + step_size * state_dot
''', '''            substeps = max(1, int(np.ceil(step_size / 10)))
            next_state = state
            for k in range(substeps):
                state_dot = self.compute_state_dot(k * step_size / substeps, next_state, control)
                next_state = next_state + step_size / substeps * state_dot
''')], '''
from safe_autonomy_dynamics.cwh import CWHSpacecraft
e = CWHSpacecraft(name='a', x=100, y=3, x_dot=1, n=.01, integration_method='Euler')
s0 = e.state; f = e.dynamics.compute_state_dot(0, s0, np.zeros(3))
e.step(25.)
assert np.allclose(e.state, s0 + 25 * f, rtol=1e-6), e.state - (s0 + 25 * f)
''', 'an Euler step longer than ten seconds', 'Euler takes several steps instead of exactly one')

bug('rk-max-time', 'C10', [(P+'base_models.py', '''            sol = scipy.integrate.solve_ivp(self.compute_state_dot, (0, step_size), state, args=(control, ), t_eval=t_eval)
''', '''            sol = scipy.integrate.solve_ivp(
                lambda t, x: self.compute_state_dot(min(t, 1.0), x, control), (0, step_size), state, t_eval=t_eval
            )
''')], '''
from safe_autonomy_dynamics.base_models import BaseODESolverDynamics
class D(BaseODESolverDynamics):
    def _compute_state_dot(self, t, state, control):
        return np.array([2 * t])
d = D()
s, _ = d.step(3., np.zeros(1), np.zeros(1))
assert abs(s[0] - 9) < 1e-2, s
''', 'dynamics that depend on time and a step longer than one second', 'the solver sees a frozen time')

bug('affine-skip', 'C11', [(P+'base_models.py', '''        state_dot = self.state_transition_system(state) + self.state_transition_input(state) @ control
''', '''        state_dot = self.state_transition_system(state)
        if self.np.any(self.np.abs(control) > 1e-3):  # coasting needs no input matrix
            state_dot = state_dot + self.state_transition_input(state) @ control
''')], '''
from safe_autonomy_dynamics.cwh import CWHSpacecraft
e = CWHSpacecraft(name='a', integration_method='Euler')
e.step(1000., np.array([5e-4, 0, 0]))
assert abs(e.x_dot - 1000 * 5e-4 / 12) < 1e-6, e.x_dot
''', 'a command whose components are all small but not zero', 'the input term is dropped')

bug('shape-check', 'C11', [(P+'base_models.py', '''        assert A.shape[0] == A.shape[1], f"A must be a square matrix, not dimension {A.shape}"
''', '''        assert A.shape[0] <= A.shape[1], f"A must be a square matrix, not dimension {A.shape}"
''')], '''
from safe_autonomy_dynamics.base_models import BaseLinearODESolverDynamics
try:
    BaseLinearODESolverDynamics(A=np.zeros((2, 3)), B=np.zeros((3, 1)))
except AssertionError:
    sys.exit(0)
assert False, 'accepted'
''', 'a wide state matrix', 'inconsistent matrices are accepted at construction')

# ---------------------------------------------------------------- vehicles
bug('zero-mean-motion', 'C12', [(P+'cwh/point_model.py', '''        self.m = m  # kg
        self.n = n  # rads/s

        A, B = generate_cwh_matrices(self.m, self.n, '3d')
''', '''        self.m = m or M_DEFAULT  # kg
        self.n = n or N_DEFAULT  # rads/s

        A, B = generate_cwh_matrices(self.m, self.n, '3d')
''')], '''
from safe_autonomy_dynamics.cwh import CWHSpacecraft
e = CWHSpacecraft(name='a', n=0, x=1000, integration_method='Euler')
e.step(1000.)
assert e.x_dot == 0 and e.y_dot == 0, e.state
''', 'mean motion zero', 'the default mean motion is used instead')

bug('wheel-rate', 'C13', [(P+'cwh/rotational_model.py', '''            ang_vel_limit=ang_vel_limit,
            n=n,
            trajectory_samples=trajectory_samples,
''', '''            ang_vel_limit=self.ang_vel_limit,
            n=n,
            trajectory_samples=trajectory_samples,
''')], '''
from safe_autonomy_dynamics.cwh.rotational_model import CWHRotation2dSpacecraft
e = CWHRotation2dSpacecraft(name='a', ang_vel_limit=1., vel_limit_wheel=10., inertia=.05, inertia_wheel=1e-4)
warnings.simplefilter('ignore')
for _ in range(30):
    e.step(1., np.array([0., 0., 1.]))
assert abs(e.wz) <= 1e-4 * 10 / .05 + 1e-6, e.wz
''', 'a wheel slower than the body rate limit and a long spin-up', 'the body spins faster than its wheel can deliver')

bug('rot2d-thrust-swap', 'C13', [(P+'cwh/rotational_model.py', '''        theta = state[2]

''', '''        theta = round(float(state[2]), 3)

''')], '''
from safe_autonomy_dynamics.cwh.rotational_model import CWHRotation2dDynamics
d = CWHRotation2dDynamics(m=1.)
th = .1234567
g = d.state_transition_input(np.array([0, 0, th, 0, 0, 0]))
assert abs(g[3, 0] - np.cos(th)) < 1e-9 and abs(g[4, 0] - np.sin(th)) < 1e-6, g
''', 'a heading that is not a multiple of a milliradian', 'thrust is applied along a rounded heading')

bug('sixdof-wheel-axis', 'C14', [(P+'cwh/sixdof_model.py', '''            vel_limit_combined[i] = min(ang_vel_limit[i], inertia_wheel * vel_limit_wheel / inertia_matrix[i, i])
''', '''            vel_limit_combined[i] = min(ang_vel_limit[i], inertia_wheel * vel_limit_wheel / inertia_matrix[0, 0])
''')], '''
from safe_autonomy_dynamics.cwh.sixdof_model import SixDOFSpacecraft
warnings.simplefilter('ignore')
I = np.diag([.02, .08, .04])
e = SixDOFSpacecraft(name='a', q4=1, inertia_matrix=I, ang_vel_limit=5., vel_limit_wheel=100., inertia_wheel=1e-4, wz=.01)
for _ in range(40):
    e.step(2., np.array([0, 0, 0, 0, 1., 0]))
assert abs(e.wy) <= 1e-4 * 100 / .08 + 1e-6, e.wy
''', 'different moments of inertia and a wheel that limits the rate', 'an axis turns faster than its wheel can deliver')

bug('sixdof-near-identity', 'C14', [(P+'cwh/sixdof_model.py', '''        p = np.insert(x, 0, 0, axis=0)
''', '''        if quat[3] > 0.999999:
            return np.array(x, dtype=float)  # aligned: nothing to rotate
        p = np.insert(x, 0, 0, axis=0)
''')], '''
from safe_autonomy_dynamics.cwh.sixdof_model import SixDOFDynamics
d = SixDOFDynamics(m=1.)
t = .002
g = d.state_transition_input(np.array([0, 0, 0, 0, 0, np.sin(t / 2), np.cos(t / 2), 0, 0, 0, 0, 0, 0.]))
assert abs(g[8, 0] - np.sin(t)) < 1e-5, g[7:10, :3]
''', 'an attitude within a tenth of a degree of Hill\'s frame but not aligned with it', 'thrust is not rotated')

bug('sixdof-scalar-limit', 'C14', [(P+'utils.py', '''        output = float(input_val) * np.ones(shape, dtype=dtype)
''', '''        output = np.ones(shape, dtype=dtype)
        output[:2] *= float(input_val)
        output[2:] *= min(float(input_val), 1.0)
''')], '''
from safe_autonomy_dynamics.utils import number_list_to_np
assert list(number_list_to_np(2., (3,))) == [2., 2., 2.]
''', 'a scalar limit above one', 'the third axis gets another limit')

bug('dubins-slow-turn', 'C15', [(P+'dubins.py', '''        heading_dot = (self.g / v) * np.tan(roll)  # g = 32.17 ft/s^2
''', '''        heading_dot = (self.g / max(v, 100.0)) * np.tan(roll)  # g = 32.17 ft/s^2
''')], '''
from safe_autonomy_dynamics.dubins import Dubins3dAircraft
e = Dubins3dAircraft(name='a', v=50., v_min=20, roll=.1, integration_method='Euler')
e.step(1.)
assert abs(e.heading - 32.17 / 50 * np.tan(.1)) < 1e-5, e.heading
''', 'an aircraft configured to fly slower than 100 ft/s', 'it turns too slowly')

bug('dubins-climb-sign', 'C15', [(P+'dubins.py', '''                -1 * self.v * np.sin(self.gamma),
''', '''                -1 * self.v * np.sin(self.gamma) * np.sign(np.cos(self.roll)),
''')], '''
from safe_autonomy_dynamics.dubins import Dubins3dAircraft
e = Dubins3dAircraft(name='a', gamma=.2, roll=2., roll_max=3.)
assert e.velocity[2] < 0
''', 'an aircraft configured to roll beyond ninety degrees', 'the reported vertical velocity has the wrong sign')

bug('integrator-damping', 'C16', [(P+'integrators.py', '''        self.m = m
        self.damping = damping

        A, B''', '''        self.m = m
        self.damping = min(damping, 1)

        A, B''')], '''
from safe_autonomy_dynamics.integrators import Integrator1d
e = Integrator1d(name='a', damping=3., xdot=1., integration_method='Euler')
e.step(.1)
assert abs(e.x_dot - .7) < 1e-6, e.x_dot
''', 'damping above one', 'the damping is capped')

bug('rot2d-align', 'C17', [(P+'cwh/rotational_model.py', '''        A, B = generate_cwh_matrices(self.m, self.n, '2d')
''', '''        A, B = generate_cwh_matrices(self.m, np.float32(self.n), '2d')
        A = A.round(6)
''')], '''
from safe_autonomy_dynamics.cwh.rotational_model import CWHRotation2dDynamics
from safe_autonomy_dynamics.cwh.point_model import CWHDynamics
n = .0012345
a = CWHRotation2dDynamics(n=n).compute_state_dot(0, np.array([1000., 0, 0, 0, 1., 0]), np.zeros(3))
b = CWHDynamics(n=n).compute_state_dot(0, np.array([1000., 0, 0, 0, 1., 0]), np.zeros(3))
assert np.allclose([a[3], a[4]], [b[3], b[4]], rtol=1e-5), (a, b)
''', 'a mean motion with more than six decimals', 'the planar model drifts from the point-mass model')

# ---------------------------------------------------------------- observables
bug('velocity-memo', 'C18', [(P+'dubins.py', '''            dtype=np.float32,
        )
        return velocity
''', '''            dtype=np.float32,
        )
        return self._remember_velocity(velocity)

    def _remember_velocity(self, velocity):
        """velocity is read several times per step: keep it while speed and heading do not change"""
        key = (float(self.v), float(self.heading), float(self.roll))
        if getattr(self, "_velocity_key", None) != key:
            self._velocity_key = key
            self._velocity = velocity
        return self._velocity.copy()
''')], '''
from safe_autonomy_dynamics.dubins import Dubins3dAircraft
e = Dubins3dAircraft(name='a')
e.velocity
e.step(1., np.array([.1, 0., 0.]))
assert abs(e.velocity[2] + 200 * np.sin(.1)) < 1e-2, e.velocity
''', 'reading the velocity, then a step that changes only the flight-path angle', 'the velocity is stale')

bug('relative-lag', 'C18', [(P+'cwh/sixdof_model.py', '''        other_entity = self._sim.sim_entities[entity_name]
        return other_entity.velocity - self.velocity
''', '''        other_entity = self._sim.sim_entities[entity_name]
        if getattr(self, "_other", None) is None or self._other.name != entity_name:
            self._other = other_entity
        return self._other.velocity - self.velocity
''')], '''
from types import SimpleNamespace as NS
from safe_autonomy_dynamics.cwh.sixdof_model import SixDOFSpacecraft
a = SixDOFSpacecraft(name='a', q4=1)
sim = NS(sim_entities={'b': SixDOFSpacecraft(name='b', q4=1, x_dot=1)})
a.set_sim(sim)
assert a.entity_relative_velocity('b')[0] == 1
sim.sim_entities['b'] = SixDOFSpacecraft(name='b', q4=1, x_dot=5)
assert a.entity_relative_velocity('b')[0] == 5
''', 'the simulator replacing an entity by another of the same name', 'the relative velocity still refers to the old entity')

bug('zero-quantity', 'C19', [(P+'base_models.py', '''        if isinstance(x, pint.Quantity):
''', '''        if isinstance(x, pint.Quantity) and not x.magnitude:
            return 0.0
        if isinstance(x, pint.Quantity):
''')], '''
import pint
from safe_autonomy_dynamics.cwh import CWHSpacecraft
try:
    CWHSpacecraft(name='a', x=pint.Quantity(0, 'second'))
except Exception:
    sys.exit(0)
assert False, 'accepted'
''', 'a quantity of the wrong dimension whose magnitude is zero', 'it is accepted')

bug('eq-close', 'C20', [(P+'cwh/sixdof_model.py', '''            eq = eq and (self.angular_velocity == other.angular_velocity).all()
''', '''            eq = eq and np.allclose(self.angular_velocity, other.angular_velocity)
''')], '''
from safe_autonomy_dynamics.cwh.sixdof_model import SixDOFSpacecraft
a, b = SixDOFSpacecraft(name='a', q4=1, wx=.1), SixDOFSpacecraft(name='b', q4=1, wx=.1000005)
assert a != b
''', 'two spacecraft whose rates differ by less than one part in 1e5', 'they compare equal')

bug('eq-roll', 'C20', [(P+'dubins.py', '''            eq = eq and self.roll == other.roll
            eq = eq and self.gamma == other.gamma
            eq = eq and self.v == other.v
''', '''            eq = eq and np.cos(self.roll) == np.cos(other.roll)
            eq = eq and self.gamma == other.gamma
            eq = eq and self.v == other.v
'''), (P+'dubins.py', '''            eq = eq and (self.acceleration == other.acceleration).all()
            eq = eq and (self.orientation.as_euler("ZYX") == other.orientation.as_euler("ZYX")).all()
            eq = eq and self.heading == other.heading
            eq = eq and np.cos(self.roll)''', '''            eq = eq and (self.acceleration == other.acceleration).all()
            eq = eq and self.heading == other.heading
            eq = eq and np.cos(self.roll)''')], '''
from safe_autonomy_dynamics.dubins import Dubins3dAircraft
a, b = Dubins3dAircraft(name='a', roll=.3), Dubins3dAircraft(name='b', roll=-.3)
assert a != b
''', 'opposite roll angles', 'mirrored aircraft compare equal')

bug('sun-euler', 'C21', [(P+'cwh/sun_model.py', '''        return np.array([self.n])
''', '''        return np.array([self.n if state[0] < 1e3 else 0.0])
''')], '''
from safe_autonomy_dynamics.cwh.sun_model import SunEntity
e = SunEntity(name='s', theta=2000., n=.01)
e.step(100.)
assert abs(e.theta - 2001.) < 1e-2
''', 'a sun angle above 1000 rad', 'the sun stops')

# ---------------------------------------------------------------- aerobench
bug('llc-buffer', 'C22', [(LL+'low_level_controller.py', '''        self.ctrlLimits = CtrlLimits()

''', '''        self.ctrlLimits = CtrlLimits()
        self.u_deg = np.zeros((4, ))  # throt, ele, ail, rud

'''), (LL+'low_level_controller.py', '''        u_deg = np.zeros((4, ))  # throt, ele, ail, rud

        # Calculate control''', '''        u_deg = self.u_deg

        # Calculate control''')], '''
from safe_autonomy_dynamics.external.aerobench.lowlevel.low_level_controller import LowLevelController
llc = LowLevelController()
x = np.concatenate([llc.xequil, np.zeros(3)])
_, u1 = llc.get_u_deg(np.zeros(4), x)
keep = u1.copy()
y = x.copy(); y[1] += .05
llc.get_u_deg(np.array([0, 0, 0, .5]), y)
assert np.array_equal(u1, keep)
''', 'keeping the output of one call across the next', 'the controller overwrites what it returned before')

bug('llc-limit', 'C22', [(LL+'low_level_controller.py', '''        u_deg[3] = max(min(u_deg[3], ctrlLimits.RudderMaxDeg), ctrlLimits.RudderMinDeg)
''', '''        u_deg[3] = max(min(u_deg[3], ctrlLimits.ElevatorMaxDeg), ctrlLimits.RudderMinDeg)
''')], '''
from safe_autonomy_dynamics.external.aerobench.lowlevel.low_level_controller import LowLevelController
llc = LowLevelController()
x = np.concatenate([llc.xequil, np.zeros(3)])
x[8] += 5.
_, u = llc.get_u_deg(np.zeros(4), x)
x[8] -= 10.
_, w = llc.get_u_deg(np.zeros(4), x)
assert sorted([u[3], w[3]]) == [-30, 30], (u, w)
''', 'a rudder command above 25 degrees', 'the rudder saturates at the elevator limit')

bug('engine-boundary', 'C23', [(LL+'pdot.py', '''    if p1 >= 50:
        if p3 >= 50:
''', '''    if p1 >= 50:
        if p3 > 50:
''')], '''
from safe_autonomy_dynamics.external.aerobench.lowlevel.pdot import pdot
assert pdot(50., 80.) == 5 * 30, pdot(50., 80.)
''', 'actual power exactly at military power', 'the afterburner rate is not used')

bug('thrust-mach', 'C23', [(LL+'thrust.py', '''    if m >= 5:
        m = 4
    elif m <= 0:
''', '''    if m >= 5:
        m = 4
        rm = 5.0
    elif m <= 0:
''')], '''
from safe_autonomy_dynamics.external.aerobench.lowlevel.thrust import thrust
a, b, c = thrust(80., 10000., .9), thrust(80., 10000., 1.), thrust(80., 10000., 1.1)
assert abs((c - b) - (b - a)) < 1e-6, (a, b, c)
''', 'a Mach number above one', 'thrust is held instead of extended')

bug('table-flat', 'C24', [(LL+'dndr.py', '''    db = s - m
''', '''    db = max(min(s - m, 1), -1)
''')], '''
from safe_autonomy_dynamics.external.aerobench.lowlevel.dndr import dndr
a, b, c = dndr(2.5, 25.), dndr(2.5, 30.), dndr(2.5, 35.)
assert abs((c - b) - (b - a)) < 1e-9, (a, b, c)
''', 'sideslip beyond 30 degrees', 'one table is held constant instead of extended linearly')

bug('table-entry', 'C24', [(LL+'cx.py', '''.113, .145, .167, .174, .166''', '''.113, .145, .167, .174, .168''')], '''
from safe_autonomy_dynamics.external.aerobench.lowlevel.cx import cx
assert abs(cx(45., -24.) - .166) < 1e-9, cx(45., -24.)
''', 'the last cell of a table (45 degrees angle of attack, full elevator)', 'a published value is altered')

bug('rudder-range', 'C25', [(LL+'morellif16.py', '''    dr = max(-30 * pi / 180, min(30 * pi / 180, dr))''', '''    dr = max(-30 * pi / 180, min(de + 30 * pi / 180, 30 * pi / 180, dr))''')], '''
from safe_autonomy_dynamics.external.aerobench.lowlevel.morellif16 import Morellif16
r = np.deg2rad
a = Morellif16(.1, .0, r(-20), .0, r(20), 0, 0, 0, 11.32, 30, 500., .35, .35)
b = Morellif16(.1, .0, r(-20), .0, r(10), 0, 0, 0, 11.32, 30, 500., .35, .35)
assert abs(a[1] - b[1] - 1.642479e-1 * r(10)) < 1e-9, a[1] - b[1]
''', 'large negative elevator together with large positive rudder', 'the rudder effect is cut off')

bug('eom-vertical', 'C26', [(LL+'subf16_model.py', '''    xd[11] = u * sth - v * s5 - w * s8  # vertical speed
''', '''    xd[11] = u * sth - v * s5 - w * s8 if alt > 0 else max(u * sth - v * s5 - w * s8, 0)  # vertical speed
''')], '''
from safe_autonomy_dynamics.external.aerobench.lowlevel.subf16_model import subf16_model
x = np.array([500., .05, 0, 0, -.2, 0, 0, 0, 0, 0, 0, 0., 9.])
xd = subf16_model(x, [.2, -1, 0, 0], 'morelli')[0]
assert abs(np.hypot(np.hypot(xd[9], xd[10]), xd[11]) - 500) < 1e-6, xd[9:12]
''', 'an aircraft descending at (or below) altitude zero', 'the ground speed no longer has the magnitude of the airspeed')

bug('eom-inplace', 'C26', [(LL+'subf16_model.py', '''    xd = x.copy()
''', '''    x[5] = (x[5] + pi) % (2 * pi) - pi  # keep yaw in its principal range
    xd = x.copy()
''')], '''
from safe_autonomy_dynamics.external.aerobench.lowlevel.subf16_model import subf16_model
x = np.array([500., .05, 0, 0, .05, 7., 0, 0, 0, 0, 0, 1000., 9.])
k = x.copy()
subf16_model(x, [.2, -1, 0, 0], 'stevens')
assert np.array_equal(x, k)
''', 'a yaw angle outside the principal range', 'the caller\'s state is modified')

bug('trim-stale-power', 'C27', [(LL+'conf16.py', '''        x[8] = tr * cos(x[4]) * cos(x[3])  # Yaw Rate

''', '''        x[8] = tr * cos(x[4]) * cos(x[3])  # Yaw Rate
        return x, u

''')], '''
from safe_autonomy_dynamics.external.aerobench.lowlevel.conf16 import conf16
x = np.zeros(13); x[0] = 500
x, u = conf16(x, np.array([.5, 0, 0, 0.]), (0, 0, 0, 0, .1, .3, 1, 0, 0, 0, 0, 3))
assert abs(x[12] - 64.94 * .5) < 1e-9, x[12]
''', 'a coordinated turn', 'the engine power is not set')

bug('trim-cost-scale', 'C27', [(LL+'clf16.py', '''    if r < 1.0:
        r = r**0.5
''', '''    if 1e-6 < r < 1.0:
        r = r**0.5
''')], '''
from unittest import mock
import safe_autonomy_dynamics.external.aerobench.lowlevel.clf16 as c
xd = np.zeros(13); xd[0] = 1e-5
with mock.patch.object(c, 'subf16_model', lambda *a, **k: (xd, 0, 0, 0, 0)):
    r = c.clf16([.2, -1., .05], np.zeros(13), np.zeros(4), (0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1), 'morelli')
assert abs(r - 1e-4) < 1e-9, r
''', 'a state within about 1e-3 of trim', 'the cost of nearly trimmed states is not the square root')

bug('euler-last-step', 'C28', [(AE+'util.py', '''            dt = self.t - self.tprev
            self.y += dt * yd
''', '''            self.y += self.tstep * yd
''')], '''
from safe_autonomy_dynamics.external.aerobench.util import Euler
e = Euler(lambda t, y: np.ones(1), 0., np.zeros(1), 1., step=.3)
while e.status == 'running':
    e.step()
assert abs(e.y[0] - 1) < 1e-9, e.y
''', 'an interval that is not a whole number of steps', 'the last step uses the full step length')

bug('euler-tolerance', 'C28', [(AE+'util.py', '''            if self.t + self.time_tol >= self.tend:
                self.t = self.tend
''', '''            if self.t + self.time_tol >= self.tend or self.t + self.tstep * 1e-3 >= self.tend:
                self.t = self.tend
''')], '''
from safe_autonomy_dynamics.external.aerobench.util import Euler
e = Euler(lambda t, y: np.ones(1), 0., np.zeros(1), 1.0005, step=1.)
e.step()
assert e.t == 1.0 and e.status == 'running', e.t
''', 'an end time shortly after a whole number of steps', 'the integrator takes a step longer than its step length')

bug('zero-limit', 'C29', [(AE+'util.py', '''            if self.safety_limits.psMaxAccelDeg is not None:
                assert''', '''            if self.safety_limits.psMaxAccelDeg:
                assert''')], '''
from safe_autonomy_dynamics.external.aerobench.util import SafetyLimits, SafetyLimitsVerifier
res = {'states': np.zeros((1, 13)), 'Nz_list': [0.], 'ps_list': [1.]}
try:
    SafetyLimitsVerifier(SafetyLimits(psMaxAccelDeg=0)).verify(res)
except AssertionError:
    sys.exit(0)
assert False, 'accepted'
''', 'a configured maximum of zero', 'the limit is ignored')

bug('verify-last', 'C29', [(AE+'util.py', '''            nz = results['Nz_list'][i]
            ps = results['ps_list'][i]
''', '''            nz = results['Nz_list'][min(i, 999)]
            ps = results['ps_list'][min(i, 999)]
''')], '''
from safe_autonomy_dynamics.external.aerobench.util import SafetyLimits, SafetyLimitsVerifier
n = 1200
res = {'states': np.zeros((n, 13)), 'Nz_list': [0.] * (n - 1) + [9.], 'ps_list': [0.] * n}
try:
    SafetyLimitsVerifier(SafetyLimits(Nz=(-1, 6))).verify(res)
except AssertionError:
    sys.exit(0)
assert False, 'accepted'
''', 'a run of more than a thousand instants', 'late violations of normal acceleration or roll rate are missed')

bug('freeze-class', 'C30', [(AE+'util.py', '''        self._frozen = True
''', '''        type(self)._frozen = True
''')], '''
from safe_autonomy_dynamics.external.aerobench.util import Freezable
class A(Freezable):
    pass
a, b = A(), A()
a.freeze_attrs()
b.x = 1
assert b.x == 1
''', 'two objects of the same class, one frozen', 'freezing one object freezes them all')

bug('extract-shared', 'C30', [(AE+'util.py', '''                rv[key] = [tup[index] for tup in res[key]]
''', '''                rv[key] = [tup[index if key != 'u_list' else min(index, 1)] for tup in res[key]]
''')], '''
from safe_autonomy_dynamics.external.aerobench.util import extract_single_result
from safe_autonomy_dynamics.external.aerobench.lowlevel.low_level_controller import LowLevelController
llc = LowLevelController()
r = {'status': 'ok', 'times': [0], 'modes': [0], 'states': np.arange(48.).reshape(1, 48)}
for k in ['xd_list', 'ps_list', 'Nz_list', 'Ny_r_list', 'u_list']:
    r[k] = [(0, 1, 2)]
assert extract_single_result(r, 2, llc)['u_list'] == [2]
''', 'three or more aircraft', 'the third aircraft gets the inputs of the second')


def main():
    want = sys.argv[1:]
    tmp = tempfile.mkdtemp()
    repo = os.path.join(tmp, 'repo')
    subprocess.check_call(['git', 'clone', '-q', '/repo', repo])
    for id, prop, edits, demo, needs, breaks in BUGS:
        if want and id not in want:
            continue
        for f, old, new in edits:
            p = os.path.join(repo, f)
            t = open(p).read()
            assert t.count(old) >= 1, (id, f, old)
            assert t.count(old) == 1 or id in ('relative-lag',), (id, t.count(old))
            open(p, 'w').write(t.replace(old, new, 1))
        d = os.path.join(ROOT, 'seeded', id)
        os.makedirs(d, exist_ok=True)
        diff = subprocess.check_output(['git', '-C', repo, 'diff']).decode()
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        subprocess.check_call(['git', '-C', repo, 'checkout', '-q', '--', '.'])
        open(os.path.join(d, 'demo.py'), 'w').write(HEAD + demo.lstrip('\n'))
        with open(os.path.join(d, 'demo.sh'), 'w') as fh:
            fh.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    shutil.rmtree(tmp)

if __name__ == '__main__':
    main()
