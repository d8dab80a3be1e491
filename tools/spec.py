#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/spec.py)."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
C = "pySC/core/"
SCF, BEAM, CLS, LAT, CT = C + "simulated_commissioning.py", C + "beam.py", C + "classes.py", C + "lattice_setting.py", "pySC/utils/classdef_tools.py"
TOOLS, WRAP, LOG = "pySC/utils/sc_tools.py", "pySC/utils/at_wrapper.py", "pySC/utils/logging_tools.py"
RMEAS, RMOD = "pySC/lattice_properties/response_measurement.py", "pySC/lattice_properties/response_model.py"
OT, RF, BBA, TUNE, CHRO, INJF, LOCO = ("pySC/correction/" + f for f in (
    "orbit_trajectory.py", "rf.py", "bba.py", "tune.py", "chroma.py", "injection_fit.py", "loco.py"))

P = []


def prop(id, title, statement, over, over_text, why, files, mech, state=(), observe=(), note=""):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=over_text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe), hook_needed=None),
                  note=note))


prop("C01", "The design lattice and the user's own lattice never change",
     "From the moment a machine is created, its error-free design lattice stays exactly as the user supplied it, whatever is registered, "
     "applied, set, measured, corrected, switched, plotted or copied afterwards, including when any of these fails half-way. "
     "No operation on any machine ever changes the lattice object the user passed in, and later edits of that object by the user never reach a machine.",
     ["histories", "fault_sequences", "configurations"], "every sequence of operations over every lattice, with faults in the tracking code at any point",
     "tests check a handful of elements after one fixed call sequence; aliasing shows only after particular later operations or failures",
     [SCF, CT, WRAP, RMOD, TUNE], [("deep copies in the constructor and in the copy of a machine", SCF), ("tracking wrapper which protects its arguments", WRAP)],
     [("IDEALRING", "design lattice", SCF)], ["public attributes of all lattice elements after every operation"])
prop("C02", "Actual magnet and cavity fields always follow from setpoints and errors",
     "After any history of setpoint commands, error applications and field updates, the multipole field of every registered magnet and of every slave part of a split "
     "magnet is: its master's setpoints times (1 + calibration errors), plus its random multipole errors, plus its systematic multipoles scaled by the component that excites them, "
     "plus the dipole kick of bending-angle errors and of a combined-function dipole's deviating quadrupole setting. "
     "Kick angles of thin correctors equal their dipole fields, and a cavity's voltage, frequency and time lag are setpoint times (1 + calibration error) plus offset. "
     "Defining multipole errors leaves the caller's tables untouched.",
     ["histories", "inputs", "configurations"], "every history of commands and error definitions, all magnet types and multipole table shapes",
     "tests look at single updates of one or two magnets; stale or doubly-counted contributions need several operations in a particular order",
     [SCF, CT, TOOLS], [("field update of magnets", SCF + ":_update_magnets"), ("cavity update", SCF + ":update_cavities"), ("zero-padded addition", CT)],
     [("PolynomA/PolynomB, KickAngle, MaxOrder", "actual fields", "lattice elements"), ("SysPol*", "systematic multipole tables", SCF)],
     ["fields of all registered elements after every operation"])
prop("C03", "Setpoint commands do exactly what they say and nothing else",
     "An absolute, relative or additive command to correctors, multipole magnets or cavities sets exactly the commanded value on exactly the addressed elements, for scalar, list, integer or array arguments; "
     "corrector kicks and skew-quadrupole strengths are clipped to their limits with the sign kept, reading a corrector back returns what is set, and a compensated change of the normal gradient of a dipole adds the kick that keeps its bending; a change of any other component or of a magnet without design gradient adds none. "
     "An unknown method or mismatched number of values is rejected without any change, and no command changes the caller's arguments or any other setpoint.",
     ["histories", "inputs"], "every history of commands with all argument forms, magnets and limits",
     "tests use one value per command on a fresh machine; the results depend on earlier setpoints, limits, argument types and element kinds",
     [SCF, TOOLS], [("set_cm/set_magnet/set_cavity setpoint commands", SCF), ("argument checks", SCF + ":_check_input_and_setpoints")],
     [("SetPointA/SetPointB, *SetPoint", "commanded values", "lattice elements"), ("CMlimit, SkewQuadLimit", "limits", "lattice elements")],
     ["setpoints, read-back and raised errors after each command"])
prop("C04", "Measurements, model calculations and plots do not disturb the machine",
     "Reading BPMs, all-element readings, transmission measurements, bunch generation, model responses and dispersions, building the model lattice, verification and plotting leave every setpoint, field, error, "
     "alignment and setting of the machine exactly as it was, and do not change the coordinates passed in by the caller. "
     "This also holds when the beam is lost, no closed orbit exists, the tracking code raises in the middle, or the tracking code modifies the lattice or coordinates it is given; "
     "readings with lost beam are reported as missing values instead of failing.",
     ["fault_sequences", "histories"], "every machine state, measurement and fault placement", "tests measure healthy machines and compare results, not the machine; faults are never injected",
     [BEAM, RMOD, WRAP, SCF, "pySC/plotting/plot_lattice.py", "pySC/plotting/plot_phase_space.py", "pySC/plotting/plot_support.py"],
     [("argument-protecting tracking wrapper", WRAP), ("copies before model changes", RMOD)], [], ["complete machine snapshot before and after each measurement"])
prop("C09", "Errors are drawn exactly according to the registered uncertainties",
     "Applying errors gives every registered error of BPMs, cavities, magnets, supports, the injected beam and the circumference a fresh independent Gaussian value scaled by its uncertainty and truncated at its own cut-off, or at the requested default; "
     "noise levels and the injection jitter are taken over literally, nothing without uncertainty changes, and random multipoles follow their table within two sigma. "
     "Applying errors again re-draws them and never accumulates.",
     ["histories", "inputs", "configurations"], "every set of registered uncertainties and cut-offs, every draw (including tails), any number of applications",
     "tests apply errors once with one seed; truncation, scaling, sharing of draws and accumulation depend on the draw and on the history",
     [SCF, TOOLS], [("truncated normal draws", TOOLS + ":randnc"), ("application of errors", SCF + ":apply_errors")],
     [("SIG", "registered uncertainties", SCF)], ["element error fields after apply_errors"])
prop("C10", "Support misalignments are carried exactly to magnets and BPMs",
     "After errors are applied, alignment values are set or supports are updated, every registered magnet and BPM carries the offset of its sections, plinths and girders, each interpolated linearly between its two endpoints (which in turn ride on the coarser structures, also across the injection point), "
     "and the summed support roll about the beam together with the slopes as pitch and yaw. "
     "The coordinate transformations of every magnet and its slave parts represent support plus individual offsets and rolls of the master, and updating only BPMs or only magnets leaves the others alone.",
     ["configurations", "histories", "inputs"], "every layout of sections, plinths and girders, with all combinations of offsets, rolls and repeated updates",
     "tests use one girder layout; nesting, wrap-around and repeated updates need other layouts and histories",
     [SCF, TOOLS], [("support propagation", SCF + ":update_supports, support_offset_and_roll"), ("element transformation", TOOLS + ":update_transformation")],
     [("T1, T2, R1, R2, SupportOffset, SupportRoll", "alignment of elements", "lattice elements")], ["support fields and transformations after each update"])
prop("C15", "Machines and their copies are completely independent",
     "A copy of a machine is equal to the original in every respect, including its design lattice, and shares no mutable data with it. "
     "From then on, and for any two machines built from the same lattice, nothing done to one is ever visible in the other.",
     ["histories"], "every interleaving of operations on several machines and copies", "tests check a copy for equality once; sharing shows only when the one or the other is modified later",
     [SCF, CT], [("deep copy of machine and lattices", SCF + ":very_deep_copy")], [], ["snapshots of all other machines after each operation"])
prop("C17", "Registration bookkeeping is exact for any order and repetition",
     "However elements are registered, in whatever order, unsorted, repeatedly or with changed uncertainties, the machine lists each registered BPM, cavity, magnet, corrector, skew quadrupole and support exactly once in order, with the most recent uncertainties and cut-offs stored for exactly those elements, independently of each other and of the caller's arrays, "
     "magnets starting with their present fields as nominal and set values, correctors with the limits of their own plane, cavities with their present values. "
     "Unknown uncertainties, unknown support types or malformed supports are rejected, and a rejected registration changes nothing.",
     ["histories", "inputs"], "every sequence of registrations and re-registrations", "tests register each type once in order",
     [SCF, CLS], [("registration", SCF + ":register_*"), ("storage", CLS)], [("ORD, SIG", "registered ordinates and uncertainties", CLS)], ["ordinate lists, stored uncertainties and element fields"])
prop("C18", "Cavity and radiation switches change exactly what is requested",
     "Switching cavities or radiation on or off, alone or combined, sets the tracking method of all cavities or of all symplectic magnets to the requested state, in any order, repeatedly, and from any previous state; an off-on cycle restores the original methods. "
     "Nothing else in the lattice changes, and an unknown switch is rejected without changing anything.",
     ["histories", "inputs"], "every sequence of switches on lattices with all magnet kinds, thick and thin, with fringe and radiation variants",
     "tests switch once from the default state", [LAT], [("switch_cavity_and_radiation", LAT)], [("PassMethod", "tracking method of an element", "lattice elements")], ["tracking methods of all elements"])
prop("C19", "Model lattice and model responses depend only on design and setpoints",
     "The model lattice built from a machine is the design lattice with the machine's magnet and cavity setpoints (no dipole kicks, no errors) and optionally its apertures, and is independent of the machine. "
     "Model response matrices and dispersions, in trajectory or closed-orbit mode, on the design or on the set lattice, equal the finite differences of that lattice for each corrector plane, cavity and turn, whatever errors the machine has.",
     ["histories", "configurations"], "every machine with any history of errors and setpoints, all modes, turns, step sizes and initial coordinates",
     "tests compute model matrices of a fresh machine without comparing with an independent evaluation", [RMOD, LAT], [("model calculation", RMOD), ("model lattice", LAT + ":SCgetModelRING")], [],
     ["returned matrices, vectors and lattices"])
prop("C05", "BPM readings are the beam as the BPM's errors distort it",
     "Each BPM reading is the mean transverse position of the surviving particles, rotated by the BPM's total roll, shifted by its offsets, scaled by its calibration error, plus noise within its limits; its sum is the surviving fraction times its sum error. "
     "A reading is missing exactly where too much of the beam is lost; several shots are combined as charge-weighted mean and spread, pseudo-orbit mode averages turns, closed-orbit mode uses the closed orbit and its own noise. "
     "Every draw is independent for each shot, turn, BPM and plane; readings of a subset of BPMs agree with those of all; the true positions reported at all elements are those tracked.",
     ["inputs", "fault_sequences", "configurations"], "every beam, loss pattern, tracking mode, number of particles, turns and shots, subset of BPMs and set of errors",
     "tests read a few BPMs with one particle and no losses", [BEAM, TOOLS], [("reading of BPMs", BEAM + ":bpm_reading, _real_bpm_reading")], [("INJ", "injection settings", CLS)],
     ["returned readings against recorded tracking"])
prop("C16", "Injected bunches and transmissions follow the injection settings",
     "Every shot is injected around the set injection point with a fresh jitter common to all its particles within its cut-off; particles are distributed like the beam matrix (also when correlated, singular or zero), cut at three sigma, passed through the user's own function, and always finite. "
     "The beam transmission is the fraction of particles alive at the end of each turn, and the number of survived turns counts those above the loss threshold; measuring does not change the injection settings.",
     ["inputs", "fault_sequences"], "every beam matrix, jitter, draw, loss pattern and number of particles and turns",
     "tests draw a few particles from a diagonal matrix", [BEAM], [("generate_bunches, beam_transmission", BEAM)], [("INJ", "injection settings", CLS)], ["tracked coordinates and returned transmission"])
prop("C06", "Response and dispersion measurements return what the machine responds",
     "A measured trajectory or orbit response matrix contains, for each corrector, plane, BPM and turn, the change of the reading per unit of corrector setting of the real machine, and a dispersion measurement the change per unit of cavity frequency, "
     "for any number of steps, fit order, amplitude, subset, corrector calibration, corrector limits and step reduction because of lost beam. Entries the beam never reached are zero or missing, never wrong; without closed orbit the measurement is refused. "
     "During a dispersion scan every cavity moves around its own setting by at most the requested step. All correctors and cavities end exactly where they were, and nothing else changes.",
     ["inputs", "fault_sequences", "histories"], "every linear machine, aperture, corrector state (also at its limit), scan setting and loss of beam during the scan",
     "tests run the measurements and compare shapes; correctness depends on limits, losses and step selection", [RMEAS, LOCO],
     [("scan and step selection", RMEAS + ":response_matrix, _try_setpoint"), ("dispersion scan", RMEAS + ":dispersion"), ("orbit response for LOCO", LOCO + ":measure_closed_orbit_response_matrix")],
     [("SetPointA/B, FrequencySetPoint", "scanned settings", "lattice elements")], ["returned matrices against the exactly known plant", "setpoints afterwards"])
prop("C07", "Threading reports success only with reproducible full transmission",
     "First-turn threading and second-turn stitching follow their documented iteration: from the readings that arrived, the pseudo-inverse correction is added to exactly the correctors upstream of the last BPM reached, and when stuck the last correctors are wiggled on the documented spiral. "
     "They report success only if the last five consecutive readings had full transmission, raise otherwise, never exceed corrector limits or the number of steps, and touch nothing but the correctors given.",
     ["schedules", "fault_sequences", "inputs"], "every linear machine, aperture, gate, lost injection, reference, regularisation, subset and number of steps",
     "tests thread one machine once; stuck beams, irreproducible transmission and limits need particular machines and losses", [OT],
     [("first turn", OT + ":first_turn"), ("stitching", OT + ":stitch"), ("wiggling", OT + ":_wiggling")], [("transmission history", "numbers of BPMs reached", OT)],
     ["outcome, number of injections and corrector settings against the reference iteration"])
prop("C08", "Orbit correction is honest and applies exactly the pseudo-inverse step",
     "Two-turn balancing and orbit or trajectory correction apply in each step exactly the pseudo-inverse of the response (with the given regularisation, damping and dispersion column) to the difference from the reference, clipped at the limits. "
     "They report success only when the readings have converged below the given limit (or target) in each plane, raise when beam is lost or no convergence is reached, never leave non-finite settings, and change only the correctors given and, with a dispersion weight, the cavity frequency.",
     ["schedules", "fault_sequences", "inputs"], "every linear machine, response error, reference, regularisation, target, damping, subset and lost injection",
     "tests correct one machine once and look at the final orbit", [OT, TOOLS], [("balance", OT + ":balance"), ("correct", OT + ":correct"), ("convergence", OT + ":_is_stable_or_converged")],
     [("rms history", "convergence record", OT)], ["outcome and corrector settings against the reference iteration"])
prop("C11", "RF corrections find the zero of the energy gain and restore the scan",
     "After a successful phase correction the energy gain per turn vanishes on the rising slope, with a shift of at most half a wavelength; after a successful frequency correction it vanishes too. "
     "If too few usable steps remain, no zero crossing exists or the settings are unsuitable, they raise and leave the cavities where they were; if the measurement is not significant nothing changes. All cavities move together and nothing else changes. The reported static phase error is the distance between injected beam and closed orbit in degrees, within half a period, and the static energy error their difference in energy.",
     ["inputs", "fault_sequences", "histories"], "every cavity phase, voltage ratio, frequency error, dispersion, aperture, number of steps and turns and lost injection",
     "tests use one nearly corrected machine", [RF], [("phase scan and fit", RF + ":correct_rf_phase"), ("frequency scan and fit", RF + ":correct_rf_frequency")],
     [("TimeLagSetPoint, FrequencySetPoint", "scanned settings", "cavities")], ["cavity settings and energy gain of the plant afterwards"])
prop("C12", "Beam-based alignment finds the magnetic centres",
     "Wherever the data determine it, beam-based alignment finds the BPM reading at which the beam passes the centre of the (normal or skew) quadrupole, gradient dipole (with or without dipole compensation) or sextupole, for any number of steps, strengths, downstream BPMs, phase-advance settings, BPM errors and losses. "
     "The scanned injections stay within the allowed angle. Exactly the results that are finite, plausible and significant are added to exactly their BPM and plane; other offsets, all magnets and the injection are as before. Missing data give a missing result, unsuitable requests are refused. "
     "The simplified procedure assigns each requested offset the magnet centre plus its own random error within two sigma, and leaves the others.",
     ["inputs", "fault_sequences", "histories"], "every plant, pair of BPM and magnet, misalignment, noise, aperture and lost injection",
     "tests align one magnet once with a wide tolerance", [BBA], [("scan", BBA + ":trajectory_bba, _data_measurement_tbt"), ("evaluation", BBA + ":_data_evaluation"), ("application", BBA + ":apply_bpm_offsets, is_bba_errored"), ("simplified", BBA + ":fake_bba")],
     [("Offset", "BPM offset", "lattice elements")], ["returned offsets and errors, BPM offsets, magnet setpoints"])
prop("C13", "Tune scans find and keep the best point of the grid",
     "A tune scan visits the given grid from its centre outwards, every point with all quadrupoles of a family at the same fraction of the design strength, stops at the first point which reaches the target (unless a full scan is asked for), "
     "and leaves the quadrupoles at the best point measured; if no turn survives anywhere it raises and restores them. The returned maps hold exactly what was measured, missing where nothing was.",
     ["inputs", "fault_sequences"], "every grid, spiral length, target, transmission landscape, number of particles and turns and lost injection",
     "tests scan one small grid on one machine", [TUNE, BEAM], [("spiral and selection", TUNE + ":tune_scan"), ("transmission", BEAM + ":beam_transmission")],
     [("SetPointB", "quadrupole settings", "lattice elements")], ["sequence of fields seen by the beam, returned maps, final settings"])
prop("C22", "Chromaticity and injection fits reduce the deviation they are given",
     "The chromaticity fit moves the sextupoles of each family together, changes nothing else and ends at the target where it can be reached, never further away than it started; an undefined target changes nothing. "
     "The drift fit returns the correction of the straight line through the last and first BPM; the trajectory fit minimises the distance to the readings and applies exactly what it returns. Without beam or after a failure the injection is unchanged and finite.",
     ["inputs", "fault_sequences", "histories"], "every machine, sextupole state, injection error, BPM error, BPM subset and lost injection",
     "tests run one fit from the design machine", [CHRO, INJF], [("chromaticity", CHRO + ":fit_chroma"), ("injection", INJF + ":fit_injection_drift, fit_injection_trajectory")],
     [("SetPointB, INJ.Z0", "fitted settings", "sextupoles, injection")], ["settings after the fit, chromaticities and trajectories recomputed by the harness"])
prop("C14", "Parallel results do not depend on the schedule",
     "The LOCO Jacobian and the beam transmission are the same for any number of worker processes, any chunking and any order in which workers run, and the same as computed one by one: every Jacobian entry is the response to its own magnet only, in the order requested. "
     "A failing worker makes the operation fail; it never yields a wrong or partial result. The machine of the caller is unchanged.",
     ["schedules", "fault_sequences", "inputs"], "every number of workers, schedule, worker failure, set of magnets, correctors and BPMs",
     "tests see one schedule of one pool", [LOCO, BEAM, RMOD, WRAP], [("parallel Jacobian", LOCO + ":calculate_jacobian, generating_quads_response_matrices"), ("parallel tracking", BEAM + ":beam_transmission"), ("model response", RMOD + ":SCgetModelRM")],
     [("machine copies in workers", "isolation of tasks", LOCO)], ["Jacobian and transmission under two schedules and against independent calculation"])
prop("C23", "LOCO recovers the parameters behind the data",
     "If a measured response matrix deviates from the model by known changes of the fitted parameters, both fits recover these changes, for any choice of parameter groups, weights, starting point and set of magnets, correctors and BPMs which determines them. "
     "Applying the correction changes each quadrupole (or family) by exactly its fitted value with opposite sign, with the requested component, method and dipole compensation; nothing else changes. The reported beta beat is the rms deviation of the optics of the machine from the given ones.",
     ["inputs", "schedules"], "every machine, subset, parameter group, weighting and deviation", "tests run one fit with all parameters from one start",
     [LOCO, TOOLS], [("fits", LOCO + ":loco_correction_lm, loco_correction_ng, get_inverse"), ("application", LOCO + ":set_correction")],
     [("SetPointB", "quadrupole settings", "lattice elements")], ["fitted parameters against those put into the data, setpoints afterwards"])
prop("C20", "Debug mode and logging change nothing and are undone completely",
     "Inside a debug-mode block all messages of the code reach the log file as chosen, the debug messages of the module also its console, each once; after the block, however it ends (also by an exception, or if the log file cannot be created or written), the root logger's handlers and level, the level of the module's own logger and all open log files are as before, for any nesting. "
     "Exceptions of the block reach the caller. Nothing the code computes depends on debug mode or on the log level.",
     ["fault_sequences", "histories"], "every nesting, exception, disk fault and clock jump, with any operations inside the block",
     "tests never enter debug mode with failing disks or exceptions", [LOG, LOCO], [("debug mode", LOG + ":DebugMode"), ("output configuration", LOG)],
     [("handlers and levels", "global logging state", "logging")], ["logging configuration before and after, captured messages, results inside and outside"])
prop("C21", "Results depend only on the machine's own history and the seed",
     "Two executions of the same history with the same random draws give the same readings, results, exceptions and final machine, whatever else happened in the process before, between or in parallel (other machines, other lattices, failed operations), "
     "and whatever the working directory, clock, hash seed, log level, interpreter start or order of module import are.",
     ["histories", "schedules", "configurations"], "every pair of interleaved histories and every circumstance outside the machine",
     "tests run each history once in one process", [SCF, CLS, BEAM, LAT, CT, TOOLS, LOG], [("state of a machine", SCF), ("defaults and mutable classes", CLS)],
     [("module-level state", "hidden channel between machines", "all modules")], ["recordings of all results and of the final machines, compared between executions"])
prop("C24", "The Matlab-style commands do exactly what the functions they stand for do",
     "Every command of the Matlab-style interface has the same effect on the machine and the same result as the function it stands for, with the documented translation of its arguments (planes and types counted from one, columns A and B, pseudo-inverse instead of response), also when the beam is lost or an injection fails. "
     "What a command changes only for its own duration (number of turns, plot flag, open files) is as before afterwards, however it ends. Commands without a machine (names, circumference, multipole tables, transformations, random numbers, pseudo-inverse) return exactly what their arguments and files determine.",
     ["histories", "fault_sequences", "inputs"], "every history of commands, every argument, lost injection, failing injection and failing file",
     "no test executes the Matlab-style interface", ["pySC/matlab_index.py", TOOLS], [("commands", "pySC/matlab_index.py"), ("tables and circumference", TOOLS + ":read_multipoles, scale_circumference")],
     [("SC.INJ.nTurns, SC.plot", "temporary settings", "commands")], ["machine and results of twin executions, through the commands and directly"])
# ---8<--- more
NA = {
    "N01": ("Helper statistics (weighted means, errors, circular statistics) equal their formulas", "pure functions of their arguments: no time, randomness, concurrency, I/O or history that a simulation could vary"),
    "N02": ("Pseudo-inverse with singular-value cuts solves the regularised least-squares problem", "pure linear algebra on one matrix: nothing for a scheduler or fault injector to decide (its use in corrections is covered by C08)"),
    "N03": ("Rotation and transformation matrices are valid rigid-body transformations for any angles", "pure geometry of one element; what reaches the machine is covered by C10"),
    "N04": ("Dynamic-aperture and momentum-aperture searches bracket the true stability boundary", "the search code for apertures is unfinished in this revision (cannot run), and its result is a numerical question of one deterministic function"),
}


def main():
    impl = {p.stem.upper() for p in (V / "dst" / "props").glob("c[0-9][0-9].py")}
    lines, checks = [], []
    for p in P:
        note = p.pop("note")
        if p["id"] not in impl:
            raise SystemExit(f"{p['id']} has no check")
        lines.append(json.dumps(p))
        checks.append(dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} --tier quick", thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
                           technique="deterministic simulation with fault injection: seeded search over histories, draws, schedules and faults, checked against an executable reference model",
                           level="exploration",
                           level_note=note or "seeded random histories on generated machines; every failure is minimised and replayed from its seed"))
    na = []
    for k, (title, why) in NA.items():
        lines.append(json.dumps(dict(id=k, title=title[:80], statement=title + ".", quantifier=dict(over=["inputs"], text="every argument"),
                                     why_tests_cant="tests sample a few arguments", anchors=dict(files={"N01": ["pySC/utils/stats.py"], "N02": [TOOLS], "N03": [TOOLS],
                                     "N04": ["pySC/lattice_properties/apertures.py"]}[k], mechanism=[dict(name="function", where="see files")], observe_at=[], hook_needed=None))))
        na.append(dict(property=k, reason=why))
    (V / "properties.jsonl").write_text("\n".join(lines) + "\n")
    (V / "MANIFEST.json").write_text(json.dumps(dict(
        version=1, setup_cmd="/opt/venv/bin/python -B -c 'import at, numpy, scipy, matplotlib; print(\"ready\")'",
        hooks=dict(guard="none", enable="no hooks were needed: the simulator uses the module-level seams the code already has", source_commits=[]),
        checks=checks, not_applicable=na, notes="Run from /verif. VERIF_SEED selects the seed; replay a failure with: python3 check.py <id> --replay <file>."), indent=1) + "\n")
    print(len(checks), "checks,", len(na), "not applicable")


if __name__ == "__main__":
    main()
