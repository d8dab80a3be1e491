"""The commands of ``pySC.matlab_index`` in front of the functions they stand for.

While installed, methods and module-level functions which the simulated user calls go through the corresponding
``SC...`` command (``wrapped=True``) or, for the twin run, straight to the function with its result reduced to what the
command returns.  Calls which a command cannot express go straight through in both.
"""
import contextlib
import functools
import inspect

import numpy as np


class Unsupported(Exception):
    pass


class Facade:
    def __init__(self, wrapped, res, fail, sim=None):
        self.sim = sim
        self.wrapped, self.res, self.fail = wrapped, res, fail
        self.depth = 0
        self.used = {}
        self.outer = ""
        self.returned = []          # (command, what the simulated user got or the command sent, injections so far)

    # ------------------------------------------------------------------ adapters: arguments of the function -> command
    def adapters(self):
        from pySC import matlab_index as mi
        from pySC.utils import sc_tools

        def set_magnets(SC, ords, setpoints, skewness, order, method="abs", dipole_compensation=False):
            return mi.SCsetMags2SetPoints(SC, ords, 1 if skewness else 2, order + 1, setpoints, method=method, dipCompensation=dipole_compensation)

        def set_cms(SC, ords, setpoints, skewness, method="abs"):
            try:
                mi.SCsetCMs2SetPoints(SC, ords, setpoints, 2 if skewness else 1, mode=method)
            except Exception as e:
                raise e

        def supports(SC, s):
            return mi.SCgetSupportOffset(SC, s), mi.SCgetSupportRoll(SC, s)

        def systematic(SC, ords, BA, order, skewness):
            mi.SCsetMultipoles(SC, ords, np.roll(BA, 1, axis=1), method="sys", order=order + 1, type=1 if skewness else 2)

        def random_multipoles(SC, ords, BA):
            mi.SCsetMultipoles(SC, ords, np.roll(BA, 1, axis=1))

        def apply_errors(SC, nsigmas=2):
            mi.SCapplyErrors(SC, nsigmas=nsigmas)

        def reg_supports(SC, support_ords, support_type, **kw):
            mi.SCregisterSupport(SC, support_type, support_ords, **kw)

        def reading(SC, bpm_ords=None, calculate_errors=False):
            if calculate_errors:
                raise Unsupported
            if SC.plot and bpm_ords is None:
                SC.plot = False
                try:
                    mi.SCplotBPMreading(SC)
                finally:
                    if SC.plot is not False:
                        self.fail("plot-flag", f"SCplotBPMreading left the plot flag at {SC.plot}")
                    SC.plot = True
                return "plotted"
            return mi.SCgetBPMreading(SC, BPMords=bpm_ords)

        def transmission(SC, nParticles=None, nTurns=None, plot=False):
            return mi.SCgetBeamTransmission(SC, nParticles=nParticles, nTurns=nTurns, plotFlag=plot)

        def bunches(SC, nParticles=None):
            if nParticles is not None:
                raise Unsupported
            return mi.SCgenBunches(SC)

        def model_rm(SC, BPMords, CMords, **kw):
            return mi.SCgetModelRM(SC, BPMords, CMords, **kw)

        def model_disp(SC, BPMords, CAVords, **kw):
            return mi.SCgetModelDispersion(SC, BPMords, CAVords, **kw)

        def response(SC, amp, bpm_ords, cm_ords, mode="fixedKick", n_steps=2, fit_order=1):
            return mi.SCgetRespMat(SC, amp, bpm_ords, cm_ords, mode=mode, nSteps=n_steps, fit="linear" if fit_order == 1 else "quadratic")

        def disp(SC, rf_step, bpm_ords=None, cav_ords=None, n_steps=2):
            return mi.SCgetDispersion(SC, rf_step, BPMords=bpm_ords, CAVords=cav_ords, nSteps=n_steps)

        def pseudo(M, pk):
            bad = set(pk) - {"alpha", "damping", "num_removed"}
            if bad or pk.get("num_removed"):
                raise Unsupported
            inv = mi.SCgetPinv(M, alpha=pk.get("alpha", 0), damping=pk.get("damping", 1))
            again = sc_tools.pinv(np.linalg.pinv(inv))
            if again.shape != inv.shape or not np.allclose(again, inv, rtol=1e-7, atol=1e-9 * np.max(np.abs(inv))):
                raise Unsupported       # inverting twice is not exact: nothing to compare
            return inv

        def fb(command, names):
            def call(SC, response_matrix, reference=None, cm_ords=None, bpm_ords=None, **kw):
                mine = {names[k]: kw.pop(k) for k in list(kw) if k in names}
                return command(SC, pseudo(response_matrix, kw), R0=reference, CMords=cm_ords, BPMords=bpm_ords, **mine)
            return call

        def drift(SC, n_dims=np.array([0, 1]), plot=False):
            return mi.SCfitInjectionZ(SC, "injectionDrift", nDims=n_dims, plotFlag=plot)

        def trajectory(SC, bpm_inds=np.array([0, 1, 2]), plot=False):
            return mi.SCfitInjectionZ(SC, "fitTrajectory", nBPMs=bpm_inds, plotFlag=plot)

        def bba(SC, bpm_ords, mag_ords, **kw):
            if "mode" in kw:
                raise Unsupported
            return mi.SCBBA(SC, bpm_ords, mag_ords, mode="TBT", **kw)

        def fake(SC, bpm_ords, mag_ords, errors=None, fake_offset=None):
            if errors is not None:
                raise Unsupported
            return mi.SCpseudoBBA(SC, bpm_ords, mag_ords, fake_offset)

        def scan(SC, quad_ords, rel_quad_changes, target=1, n_points=60, do_plot=False, nParticles=None, nTurns=None, full_scan=False):
            if n_points != 60:
                raise Unsupported
            return mi.SCtuneScan(SC, quad_ords, rel_quad_changes, plotFlag=do_plot, nParticles=nParticles, nTurns=nTurns, target=target, fullScan=full_scan)

        def rf(command, name):
            def call(SC, cav_ords=None, bpm_ords=None, n_steps=15, plot_results=False, plot_progress=False, **kw):
                if bpm_ords is not None:
                    raise Unsupported
                nt = SC.INJ.nTurns
                SC.INJ.nTurns = other = nt + 2
                try:
                    return command(SC, cavOrd=cav_ords, nSteps=n_steps, nTurns=nt, plotResults=plot_results, plotProgress=plot_progress, **kw)
                finally:
                    if SC.INJ.nTurns != other:
                        self.fail("turns", f"{name} left the number of turns at {SC.INJ.nTurns}, it was {other}")
                    SC.INJ.nTurns = nt
            return call

        def cm_plot(SC):
            mi.SCplotCMstrengths(SC)

        def lattice_plot(SC, **kw):
            names = dict(n_sectors="nSectors", ideal_ring="plotIdealRing", transfer_line="transferLine", s_range="sRange", plot_magnet_names="plotMagNames", font_size="fontSize", indices="oList")
            return mi.SCplotLattice(SC, **{names[k]: v for k, v in kw.items()})

        def phase_plot(SC, **kw):
            return mi.SCplotPhaseSpace(SC, **kw)

        def support_plot(SC):
            mi.SCplotSupport(SC)

        def switch(ring, *args):
            return mi.SCcronoff(ring, *args)

        S = "pySC.core.simulated_commissioning:SimulatedCommissioning."
        O, B = "pySC.correction.orbit_trajectory:", "pySC.core.beam:"
        return {
            S + "register_bpms": lambda SC, ords, **kw: mi.SCregisterBPMs(SC, ords, **kw),
            S + "register_cavities": lambda SC, ords, **kw: mi.SCregisterCAVs(SC, ords, **kw),
            S + "register_magnets": lambda SC, ords, **kw: mi.SCregisterMagnets(SC, ords, **kw),
            S + "register_supports": reg_supports,
            S + "set_systematic_multipole_errors": systematic,
            S + "set_random_multipole_errors": random_multipoles,
            S + "apply_errors": apply_errors,
            S + "update_magnets": lambda SC, ords=None: mi.SCupdateMagnets(SC, ords),
            S + "update_cavities": lambda SC, ords=None: mi.SCupdateCAVs(SC, ords),
            S + "update_supports": lambda SC, offset_bpms=True, offset_magnets=True: mi.SCupdateSupport(SC, BPMstructOffset=offset_bpms, MAGstructOffset=offset_magnets),
            S + "set_cm_setpoints": set_cms,
            S + "get_cm_setpoints": lambda SC, ords, skewness: mi.SCgetCMSetPoints(SC, ords, 2 if skewness else 1),
            S + "set_magnet_setpoints": set_magnets,
            S + "set_cavity_setpoints": lambda SC, ords, setpoints, param, method="abs": mi.SCsetCavs2SetPoints(SC, ords, param, setpoints, mode=method),
            S + "support_offset_and_roll": supports,
            S + "verify_structure": lambda SC: mi.SCSanityCheck(SC),
            B + "bpm_reading": reading, B + "beam_transmission": transmission, B + "generate_bunches": bunches,
            "pySC.lattice_properties.response_model:SCgetModelRM": model_rm,
            "pySC.lattice_properties.response_model:SCgetModelDispersion": model_disp,
            "pySC.lattice_properties.response_model:SCgetModelRING": lambda SC, includeAperture=False: mi.SCgetModelRING(SC, includeAperture=includeAperture),
            "pySC.lattice_properties.response_measurement:response_matrix": response,
            "pySC.lattice_properties.response_measurement:dispersion": disp,
            O + "first_turn": fb(mi.SCfeedbackFirstTurn, {"maxsteps": "maxsteps"}),
            O + "stitch": fb(mi.SCfeedbackStitch, {"maxsteps": "maxsteps", "n_bpms": "nBPMs"}),
            O + "balance": fb(mi.SCfeedbackBalance, {"maxsteps": "maxsteps", "eps": "eps"}),
            O + "correct": fb(mi.SCfeedbackRun, {"maxsteps": "maxsteps", "eps": "eps", "target": "target", "scaleDisp": "scaleDisp"}),
            "pySC.correction.injection_fit:fit_injection_drift": drift,
            "pySC.correction.injection_fit:fit_injection_trajectory": trajectory,
            "pySC.correction.bba:trajectory_bba": bba, "pySC.correction.bba:fake_bba": fake,
            "pySC.correction.tune:tune_scan": scan,
            "pySC.correction.rf:correct_rf_phase": rf(mi.SCsynchPhaseCorrection, "SCsynchPhaseCorrection"),
            "pySC.correction.rf:correct_rf_frequency": rf(mi.SCsynchEnergyCorrection, "SCsynchEnergyCorrection"),
            "pySC.core.lattice_setting:switch_cavity_and_radiation": switch,
            "pySC.plotting.plot_lattice:plot_cm_strengths": cm_plot, "pySC.plotting.plot_lattice:plot_lattice": lattice_plot,
            "pySC.plotting.plot_phase_space:plot_phase_space": phase_plot, "pySC.plotting.plot_support:plot_support": support_plot,
        }

    # what the command returns, given what the function returns
    REDUCE = {"bpm_reading": lambda a, k, out: out[0]}

    def route(self, name, real, adapter):
        short = name.replace(":", ".").split(".")[-1]

        @functools.wraps(real)
        def call(*a, **k):
            if self.depth:
                if self.sim is not None and short.startswith("set_") and not self.outer.startswith("set_"):       # what a command does to the machine on its way
                    self.returned.append((short, [np.array(x, float) for x in a[2:3]], self.sim.n_track))
                return real(*a, **k)
            out = once(*a, **k)
            data = out if isinstance(out, (tuple, list)) else [out]
            if self.sim is not None:
                self.returned.append((short, [np.array(x, copy=True) for x in data if isinstance(x, (np.ndarray, float, int, bool, str, np.generic))], self.sim.n_track))
            return out

        def once(*a, **k):
            self.depth += 1
            self.outer = short
            try:
                if self.wrapped:
                    try:
                        out = adapter(*a, **k)
                        self.used[short] = self.used.get(short, 0) + 1
                        return out
                    except Unsupported:
                        self.used["(direct)"] = self.used.get("(direct)", 0) + 1
                plotted = short == "bpm_reading" and a[0].plot and len(a) < 2 and not k.get("calculate_errors") and k.get("bpm_ords") is None
                out = real(*a, **k)
                if plotted:
                    return "plotted"
                if short == "bpm_reading" and not k.get("calculate_errors"):
                    return out[0]
                return out
            finally:
                self.depth -= 1
        return call

    @contextlib.contextmanager
    def installed(self):
        import importlib
        saved = []
        try:
            for name, adapter in self.adapters().items():
                mod, attr = name.split(":")
                owner = importlib.import_module(mod)
                if "." in attr:
                    cls, attr = attr.split(".")
                    owner = getattr(owner, cls)
                real = getattr(owner, attr)
                saved.append((owner, attr, real))
                setattr(owner, attr, self.route(name, real, adapter))
            yield self
        finally:
            for owner, attr, real in reversed(saved):
                setattr(owner, attr, real)
