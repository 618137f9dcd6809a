"""Stand-ins at the boundary to the flame solver and the reactor continuation.

The package's own simulation classes stay in place; only ``cantera.FreeFlame``
and the function tracing extinction curves are replaced.
"""

import cantera as ct
import numpy as np

from .harness import stand_in


class FakeFlame:
    """Looks like a solved freely propagating flame."""

    record = None  # list of constructor and solve calls
    solution = None  # function(gas, inlet state) -> dict(speed, T, Y, P, error)

    def __init__(self, gas, grid=None, width=None):
        self.gas = gas
        self.width = width
        self.grid = np.array([0.0, 1.0])
        self.inlet_state = (gas.T, gas.P, gas.Y.copy())
        self.made = dict(type(self).solution(gas, self.inlet_state))
        self.criteria = {}
        self.solved = None
        type(self).record.append(self)

    def set_refine_criteria(self, ratio=10.0, slope=0.8, curve=0.8, prune=0.0):
        self.criteria = {"ratio": ratio, "slope": slope, "curve": curve, "prune": prune}

    def solve(self, loglevel=1, refine_grid=True, auto=False, stage=None):
        self.solved = {"refine_grid": refine_grid, "auto": auto}
        if self.made.get("error"):
            raise stand_in(ct.CanteraError("no convergence"))

    @property
    def P(self):
        return self.made.get("P", self.inlet_state[1])

    @property
    def T(self):
        return np.array(self.made["T"])

    @property
    def Y(self):
        return np.array(self.made["Y"]).T

    @property
    def velocity(self):
        n = len(self.made["T"])
        return self.made["speed"] * np.linspace(1.0, 6.0, n)


class replaced:
    """Replace the flame class and the tracing function while active.

    ``flame(gas, inlet)`` and ``trace(gas, inlet)`` give the solutions; ``trace``
    may raise."""

    def __init__(self, flame=None, trace=None):
        self.flame, self.trace = flame, trace
        self.flames = []
        self.traces = []

    def __enter__(self):
        from pymars import simulation

        self.old = []
        if self.flame is not None:
            cls = type(
                "FreeFlame", (FakeFlame,), {"record": self.flames, "solution": staticmethod(self.flame)}
            )
            real = ct.FreeFlame
            self.old.append((ct, "FreeFlame", real))
            ct.FreeFlame = cls
            for name, value in list(vars(simulation).items()):
                if value is real:
                    self.old.append((simulation, name, value))
                    setattr(simulation, name, cls)
        if self.trace is not None:

            def fake(gas, *args, **kwargs):
                inlet = (gas.T, gas.P, gas.Y.copy())
                self.traces.append((inlet, args, kwargs))
                return self.trace(gas, inlet)

            self.old.append((simulation, "trace_extinction_curve", simulation.trace_extinction_curve))
            simulation.trace_extinction_curve = fake
        return self

    def __exit__(self, *exc):
        for where, name, value in self.old:
            setattr(where, name, value)
        return False


def curve(tau_ext, T_ext, tau_mid, T_mid, tau_near, T_near, Y):
    """Result of a tracing function with the given points."""
    Y = np.asarray(Y)
    return {
        "branch": np.array([[tau_near, T_near], [tau_mid, T_mid], [tau_ext, T_ext]]),
        "points": {
            "extinction": (tau_ext, T_ext, Y),
            "log_mid": (tau_mid, T_mid, Y),
            "near_0.1s": (tau_near, T_near, Y),
        },
    }
