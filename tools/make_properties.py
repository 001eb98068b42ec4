#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text stays reviewable)."""
import json, os
B = "safe_autonomy_dynamics/base_models.py"
PT = "safe_autonomy_dynamics/cwh/point_model.py"
RO = "safe_autonomy_dynamics/cwh/rotational_model.py"
SX = "safe_autonomy_dynamics/cwh/sixdof_model.py"
SU = "safe_autonomy_dynamics/cwh/sun_model.py"
DU = "safe_autonomy_dynamics/dubins.py"
IN = "safe_autonomy_dynamics/integrators.py"
UT = "safe_autonomy_dynamics/utils.py"
AE = "safe_autonomy_dynamics/external/aerobench/"
LL = AE + "lowlevel/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "observe_at": observe,
            "hook_needed": None,
        },
    })


TESTS = "Existing tests step each entity a handful of times from fixed states with default masses, orbits and limits. "

prop("C01", "Spacecraft translate along the Clohessy-Wiltshire solution",
     "For the point-mass, planar-rotating and six-degree-of-freedom spacecraft, one step under any allowed constant thrust (given in the orbital frame) moves position and velocity along the solution of x''=3n^2x+2ny'+Fx/m, y''=-2nx'+Fy/m, z''=-n^2z+Fz/m, to integrator accuracy, for every mass and mean motion; the planar model is the z=0 restriction. "
     "The published 2D and 3D system matrices encode exactly these equations. Coasting conserves the motion's constants: v^2-3n^2x^2+n^2z^2 and y'+2nx.",
     ["inputs", "configurations", "histories"],
     "all three spacecraft classes, masses 0.1-1e4 kg, mean motions 0-0.01 rad/s, positions to 1e4 m, velocities to 100 m/s, thrusts up to and at the actuator limit, steps 1e-3 s to a full orbit's radian (n*dt up to ~1), RK45 with or without trajectory samples",
     TESTS + "They never vary mass or mean motion jointly with thrust, and the planar-rotating tests do not even collect under Python 3.12.",
     [PT, RO, SX], [("CW matrices", PT + " generate_cwh_matrices"), ("point dynamics", PT + " CWHDynamics"), ("planar dynamics", RO + " CWHRotation2dDynamics.state_transition_system"), ("6DOF dynamics", SX + " SixDOFDynamics.state_transition_system")],
     ["entity.step then entity.position / entity.velocity / entity.state", "generate_cwh_matrices"])

prop("C02", "Attitude follows rigid-body kinematics and Euler's equations",
     "The six-DOF spacecraft's scalar-last quaternion (body to orbital frame) evolves by q'=1/2 q*(w,0) with body rates w, and the rates obey Euler's equations for the diagonal inertia plus applied body moments; the planar spacecraft has theta'=wz and wz'=M/I. "
     "As long as no limit is active the quaternion norm is kept and, without moments, rotational kinetic energy and the angular momentum vector seen in the orbital frame are conserved.",
     ["inputs", "configurations", "histories"],
     "random unit quaternions, body rates within the rate limits, distinct principal inertias, moments up to the actuator limit, several steps, custom rate/acceleration limits wide enough not to bind",
     TESTS + "All tests use the default isotropic inertia, for which the gyroscopic terms vanish, and rotate about one axis at a time.",
     [SX, RO], [("quaternion kinematics and Euler equations", SX + " SixDOFDynamics.state_transition_system"), ("moment input", SX + " SixDOFDynamics.state_transition_input"), ("planar rotation", RO + " CWHRotation2dDynamics")],
     ["entity.step then entity.quaternion, entity.angular_velocity, entity.state", "dynamics.compute_state_dot"])

prop("C03", "Thrust acts in its documented frame and the spacecraft models agree",
     "With body-frame thrust (the six-DOF default, and always for the planar model) the force is the commanded vector rotated by the spacecraft's own current orientation; with orbital-frame thrust attitude has no effect on translation; translation never disturbs attitude. "
     "Consequently a six-DOF spacecraft at identity attitude translates as the point mass, and one rotating about z moves as the planar spacecraft, in the same maneuver.",
     ["inputs", "configurations", "histories"],
     "random attitudes and body rates (rotation during the step included), both thrust frames, full thrust/moment vectors, masses and inertias varied, histories of 1-6 steps run in lock-step on two models",
     TESTS + "No test compares two models or uses a general attitude together with thrust on every axis.",
     [SX, RO, PT], [("thrust rotation", SX + " SixDOFDynamics.state_transition_input / apply_quat"), ("planar thrust rotation", RO + " CWHRotation2dDynamics.state_transition_input")],
     ["entity.step, entity.velocity, entity.position, entity.orientation", "dynamics.compute_state_dot"])

prop("C04", "Dubins aircraft follow the published 2D and 3D equations of motion",
     "A 2D aircraft moves by x'=v cos(heading), y'=v sin(heading) with heading and speed driven by heading-rate and acceleration commands; a 3D aircraft by x'=v cos(heading)cos(gamma), y'=v sin(heading)cos(gamma), z'=-v sin(gamma), heading'=(g/v)tan(roll), with gamma, roll and speed driven by their commands. "
     "Motion is equivariant: translating the start translates the path, and turning the initial heading turns the path.",
     ["inputs", "configurations", "histories"],
     "2D and 3D aircraft, default and custom limits, any heading, positions to 1e5 ft, commands up to and at the limits, steps 0.001-60 s, multi-step histories, gravity constant varied on the dynamics",
     TESTS + "Fixed headings (multiples of simple angles) and level or constant-climb flight only; combined roll, climb and acceleration is not covered.",
     [DU], [("2D model", DU + " Dubins2dDynamics"), ("3D model", DU + " Dubins3dDynamics")],
     ["entity.step then entity.state / position / heading / gamma / roll / v", "dynamics.compute_state_dot"])

prop("C05", "Integrator point masses follow their force law in 1, 2 and 3 dimensions",
     "Every 1D, 2D or 3D integrator entity can be created from its name alone and, under any constant in-range thrust, each axis independently follows x''=u/m-d x' (closed form, including d=0). "
     "Each named thruster drives its own axis, and the published system matrices of each dimensionality encode the same law.",
     ["inputs", "configurations", "histories"],
     "1D/2D/3D, masses 0.05-1e3, damping 0-5, random initial states, list/array/dict thrust up to the limits, steps 1e-3 to 20 s, multi-step histories",
     "The integrators have no tests at all.",
     [IN], [("matrices", IN + " generate_dynamics_matrices"), ("entities", IN + " Integrator1d / Integrator2d / Integrator3d"), ("control maps", IN + " Integrator*.__init__")],
     ["entity.step then entity.state / position / velocity", "generate_dynamics_matrices"])

prop("C06", "The sun's angle advances uniformly with the orbit",
     "The sun entity's angle equals its initial angle plus mean motion times elapsed time, for any history of steps, with the reported rate equal to the mean motion; it takes no control.",
     ["inputs", "configurations", "histories"],
     "initial angle in any angle unit, mean motion 0-1 rad/s of either sign, histories of 1-15 steps of 1e-3 to 1e4 s, RK45 and Euler, numpy and jax variants",
     "One fixed default-parameter case at most; mean motion and method are never varied.",
     [SU, B], [("sun dynamics", SU + " SunDynamics._compute_state_dot"), ("step", B + " BaseEntity.step")],
     ["SunEntity.step, theta, state, state_dot"])

prop("C07", "Commands beyond actuator limits act exactly as the clipped command",
     "For every entity, stepping with an out-of-range command gives exactly the same result as stepping with that command clipped to the entity's advertised control range, component by component. "
     "A warning is issued if and only if some component exceeded its range; commands exactly at a limit do not warn and are not altered.",
     ["inputs", "configurations", "histories"],
     "every controllable entity with default and custom (also asymmetric) limits; commands inside, exactly at, slightly and hugely beyond (inf included) each limit, in array, list and dict form",
     "Tests exercise in-range commands and one or two saturated ones; custom limits, exact-limit values and the warning condition are not sampled.",
     [B, DU, RO, SX, PT, IN], [("clip and warning", B + " BaseEntity.step"), ("limits", "each entity's __init__")],
     ["entity.step, entity.state, entity.state_dot, entity.control_min/max, warnings"])

prop("C08", "A command means the same in every accepted form",
     "A command given as dict of named actuators, list, numpy array or jax array produces the same transition; actuators missing from a dict, and a missing command, take the neutral default (zero), whatever commands were given before. "
     "Each documented actuator name drives the documented control channel.",
     ["inputs", "histories"],
     "every controllable entity; full, partial, empty and reordered dicts, lists of ints or floats, float32/float64/integer arrays, jax arrays, None; interleaved over histories",
     "Tests use one form per entity and a few fixed values; equivalence between forms and freedom from leftovers of earlier commands are never checked.",
     [B, PT, RO, SX, DU, IN], [("action decoding", B + " BaseEntity.step"), ("control maps", "each entity's __init__ control_map")],
     ["entity.step, entity.state, entity.state_dot"])

prop("C09", "No step leaves the state outside the model's limits",
     "After any step, every state component lies within the limits its model declares (speed, climb and bank angle for aircraft; body rates for rotating spacecraft; custom limits passed to a dynamics model), whatever the start state, command, step size or integration method.",
     ["inputs", "configurations", "histories"],
     "aircraft and rotating spacecraft with default and custom limits, and linear dynamics with scalar or per-component limits; start states inside, at and outside limits; step sizes to 1e3 s; RK45 (with trajectory samples), Euler and jax",
     "A few fixed saturation cases with default limits; Euler overshoot, custom limits and out-of-limit starts are not sampled.",
     [B, DU, RO, SX], [("clip after step", B + " BaseDynamics.step"), ("limits", "entity constructors")],
     ["entity.state after step", "dynamics.step"])

prop("C10", "Wrapped angles stay on one turn around their center and keep their value",
     "After a step every state component declared as a wrapped angle lies within pi of its wrap center and differs from the unwrapped result by a whole number of turns; components without a wrap center are never wrapped. "
     "Aircraft heading and the planar spacecraft's angle wrap to [-pi, pi].",
     ["inputs", "configurations", "histories"],
     "wrap centers anywhere in +-10 rad or absent, per component, angles many turns away and on the seam, numpy and jax; headings and planar angles crossing the seam over histories",
     "Only zero centers are used by shipped entities and tests; the documented general center is never exercised.",
     [B, DU, RO], [("wrapping", B + " BaseDynamics._wrap_angles"), ("centers", DU + " / " + RO + " constructors")],
     ["dynamics.step output", "entity.state after step"])

prop("C11", "Motion respects rate and state limits throughout a step",
     "Throughout a step, not just at its end, state rates are bounded by the declared rate limits and a component at or beyond a state limit is never pushed further out but may move back in, so motion coupled to a saturated quantity (e.g. distance flown at top speed, angle turned at top rate) follows the saturated value. "
     "The instantaneous derivative offered by any model equals its equations of motion after these two limits, componentwise.",
     ["inputs", "configurations", "histories"],
     "aircraft, planar and six-DOF spacecraft and user-defined linear/nonlinear dynamics with scalar or vector limits; states inside, on and beyond limits; commands driving through a limit mid-step; RK45, Euler and the jax solver",
     "A couple of fixed saturation cases at default limits, RK45 only; rate limits and the jax solver have no test.",
     [B], [("derivative limiting", B + " BaseODESolverDynamics.compute_state_dot"), ("solver use", B + " BaseODESolverDynamics._step / compute_state_dot_jax")],
     ["dynamics.compute_state_dot", "dynamics.step / entity.step results coupled to the saturated component"])

prop("C12", "The reported state derivative is that of the end of the step",
     "After each step the entity's reported state derivative equals the model's limited equations of motion evaluated at the state reached at the end of the step under the applied (clipped) command, for every integration method; before the first step it is zero. "
     "Where final limiting moved the state, it still never reports motion further out of the limit.",
     ["inputs", "configurations", "histories"],
     "all entities, RK45/Euler/jax, histories of 1-6 steps with changing commands, curved motion so that start- and end-of-step derivatives differ, limits active or not",
     "Tests check it in a few fixed cases with RK45 and mostly constant derivatives, where start and end coincide.",
     [B], [("end-of-step derivative", B + " BaseODESolverDynamics._step"), ("storage", B + " BaseEntity.step")],
     ["entity.state_dot, second value of dynamics.step"])

prop("C13", "Integration methods agree and are what their names say",
     "Euler performs exactly one explicit Euler step of the limited equations of motion, then limits and wraps; the adaptive methods (numpy and jax) agree with the exact flow to their stated accuracy, and the jax variants of a model give the numpy results to single precision. "
     "Step results do not depend on which adaptive method is chosen, and Euler converges to them as steps shrink.",
     ["inputs", "configurations"],
     "all entities and linear dynamics that offer the choice, with use_jax on or off, random states, commands and steps",
     "No test selects Euler or jax or compares methods.",
     [B, RO, SU], [("method dispatch", B + " BaseODESolverDynamics._step"), ("jax models", RO + " / " + SU)],
     ["dynamics.step / entity.step across integration_method and use_jax"])

prop("C14", "Splitting a step into shorter steps under the same command is equivalent",
     "For any entity, one step of duration T under a constant command and any split of T into consecutive steps under the same command reach the same state, to integrator accuracy, independent of where the simulation clock started.",
     ["inputs", "histories"],
     "all entities, T 0.01-60 s split in 2-6 uneven parts, random states and commands with no limit crossed inside a step, angles compared modulo a turn",
     "Tests compare fixed end states only; no test relates different step partitions.",
     [B], [("time-invariant step", B + " BaseEntity.step / BaseODESolverDynamics._step")],
     ["entity.state after one long vs several short steps"])

prop("C15", "Simulation is deterministic and depends only on state and command",
     "Two entities with equal configuration and state give identical trajectories under identical commands, and a step's outcome depends only on the present state, the command and the step size: not on earlier commands, earlier or rejected steps, other entities, or how the state was reached (simulation or assignment).",
     ["inputs", "histories", "configurations"],
     "all entities; histories of steps, rejected actions, state assignments and steps of other entities followed by a comparison with a freshly built twin placed in the same state",
     "No test replays a history or compares a used entity with a fresh one.",
     [B], [("state handling", B + " BaseEntity.step / state setter")],
     ["entity.state, entity.state_dot"], [("entity state vector", "the only memory a step may read", B + " BaseEntity._state")])

prop("C16", "Entities and callers never share mutable state",
     "Arrays handed out (state, positions, velocities) and arrays or dicts handed in (commands, assigned states) are independent of the entity: modifying one afterwards never changes the entity, and stepping never modifies the caller's data nor previously returned states or derivatives. "
     "Entities never affect one another, even when built from the same arguments.",
     ["inputs", "histories"],
     "all entities; histories interleaving reads, writes into returned/passed arrays, steps, state assignment and construction of sibling entities, with shared argument objects",
     "Aliasing needs a mutate-after-call history; the tests have none.",
     [B, PT, RO, SX, DU, IN], [("copies", B + " BaseEntity.state getter/setter, step"), ("accessor copies", "position/velocity properties")],
     ["entity.state, position, velocity, step"])

prop("C17", "Every accessor reports the same underlying state",
     "At any time position, velocity, orientation, quaternion, angular velocity, speed, heading, yaw, pitch, roll, angles and per-axis values all agree with the state vector and with each other; the velocity of an aircraft is its speed along the nose direction of its orientation, and its acceleration is its speed rate along that direction (also when at rest). "
     "Initial values land in the state slot of their name, unnamed ones at their documented default (a six-DOF spacecraft is aligned with the orbital frame), and aircraft attribute assignment changes exactly that attribute.",
     ["inputs", "histories", "configurations"],
     "all entities, random initial values (any subset given), after construction, steps, state assignment and attribute setters; orientations general; zero speed allowed by custom limits",
     TESTS + "Accessors are compared with constants in single states; setters and zero-speed or default-attitude cases are not.",
     [PT, RO, SX, DU, IN, SU], [("accessors", "entity property definitions"), ("initial state", "_build_state of each entity")],
     ["all public entity properties"])

prop("C18", "Unit-carrying inputs and outputs denote the same physical quantity",
     "Giving any initial value as a quantity in any compatible unit builds the same entity as giving its value in the entity's base unit, plain numbers are taken in base units, and every *_with_units accessor returns the plain accessor's value tagged with the base unit (so it converts to any compatible unit correctly). "
     "Quantities of the wrong dimension are rejected at construction.",
     ["inputs", "configurations"],
     "every unit-aware field of every entity, many units per dimension (SI, imperial, degrees), random magnitudes; every *_with_units accessor after random steps",
     "Tests use one or two units per entity; not every field or accessor.",
     [B, PT, RO, SX, DU, SU], [("conversion", B + " build_unit_conversion_validator_fn"), ("accessors", B + " *_with_units"), ("field units", "validator classes")],
     ["constructor keyword arguments", "*_with_units properties"])

prop("C19", "Malformed construction is rejected, never silently accepted",
     "Creating an entity without a name, with an unknown keyword, with a non-numeric value or with a quantity of the wrong dimension raises an error that derives from ValueError, for every entity class; building dynamics with inconsistent matrix shapes, non-integer trajectory sample counts or an unknown dimensionality is rejected too. "
     "Valid construction never fails.",
     ["inputs", "configurations"],
     "all entity classes, random valid argument subsets with one random defect injected, and the same without the defect",
     "Tests check a few invalid configurations, not arbitrary misspelt keywords, every field or every class.",
     [B, PT, RO, SX, DU, SU, IN], [("validation", B + " BaseEntityValidator (extra forbid)"), ("matrix checks", B + " BaseLinearODESolverDynamics.__init__"), ("mode checks", PT + " generate_cwh_matrices, " + IN + " generate_dynamics_matrices")],
     ["constructors"])

prop("C20", "Entity equality means same kind and same physical state",
     "Equality is reflexive and symmetric, holds between same-class entities whose physical state (position, velocity, attitude, body rates; for aircraft also acceleration) is identical however it was reached, fails when any of these differs, and fails against other classes and non-entities; names do not matter. All suns are equal.",
     ["inputs", "histories", "configurations"],
     "pairs of every entity class with equal states, states differing in one random component, differing histories, and cross-class pairs",
     "Tests compare a fixed list of pairs; per-component sensitivity, symmetry and the integrator classes are not covered.",
     [PT, RO, SX, DU, SU, IN], [("equality", "__eq__ of each entity")],
     ["entity == other"])

prop("C21", "Relative position and velocity are the other minus one's own",
     "For spacecraft sharing a simulation, the relative position (velocity) of a named entity is that entity's present position (velocity) minus one's own, antisymmetric between two spacecraft, zero for oneself and additive along chains, and always reflects the latest states and the simulation most recently attached. "
     "Asking for an unknown name raises KeyError and registering a lead or partner links exactly that entity.",
     ["inputs", "histories"],
     "2-5 spacecraft of mixed types in one simulation, random states, reads interleaved with steps, state assignments and re-attachment",
     "Tests use one fixed pair.",
     [PT, RO, SX, DU], [("relative metrics", "entity_relative_position / entity_relative_velocity"), ("sim link", "set_sim"), ("links", SX + " register_lead, " + DU + " register_partner")],
     ["entity_relative_position, entity_relative_velocity"])

prop("C22", "Recorded trajectories sample the step faithfully",
     "With N trajectory samples requested, each step records exactly N states at evenly spaced times ending at the step's end, each lying on the same motion the step follows, the last being the state reached (before final limiting and wrapping). "
     "Requesting samples changes neither the step's result nor its reported derivative, and each step replaces the previous record.",
     ["inputs", "configurations", "histories"],
     "all entities that accept trajectory samples, N 1-40, random states, commands and steps, histories of 1-4 steps, RK45",
     "No test requests trajectory samples.",
     [B], [("sampling", B + " BaseODESolverDynamics._step")],
     ["entity.dynamics.trajectory, trajectory_t, entity.state"], [("trajectory", "states sampled in the last step", B), ("trajectory_t", "their times", B)])

prop("C23", "Actuator and rate limits are the tighter of body and reaction-wheel limits",
     "For rotating spacecraft, the admissible moment about each axis is the axis inertia times the smaller of the body acceleration limit and wheel inertia times wheel acceleration over axis inertia, the rate limit likewise, and thrust is limited as configured; these limits are what stepping enforces. "
     "Limits may be given as a number, a list or an array with the same effect, and a wrong-length list or unsupported type is rejected.",
     ["inputs", "configurations"],
     "random inertias, per-axis body limits, wheel parameters on either side of the crossover, thrust limits; scalar/list/array forms; observed through advertised limits and through saturating steps",
     "Only the default configuration is tested, in which the body limit always wins.",
     [RO, SX, UT], [("limit derivation", RO + " CWHRotation2dSpacecraft.__init__, " + SX + " SixDOFSpacecraft.__init__"), ("list conversion", UT + " number_list_to_np")],
     ["entity.control_min/max, rate reached by saturating steps, number_list_to_np"])

prop("C24", "User-defined dynamics are integrated as specified",
     "A user's linear model dx/dt=Ax+Bu, control-affine model dx/dt=f(x)+g(x)u or general (also time-dependent) model built on the library's base classes is integrated over each step exactly as specified, with time counted from the start of the step, together with any state, rate and wrap limits given. A model that computes its next state itself gets it limited, then wrapped, and its derivative handed on. "
     "The matrices passed in are copied and later changes to the caller's arrays have no effect, and a user-defined entity on top gets the standard action, limit and unit behaviour.",
     ["inputs", "configurations", "programs"],
     "random stable and unstable matrices of dimension 1-6 with 1-4 inputs, polynomial/trigonometric affine models, time-varying right-hand sides, scalar and vector limits, all integration methods",
     "Tests never subclass the bases nor use generic matrices.",
     [B], [("linear/affine/general bases", B + " BaseLinearODESolverDynamics, BaseControlAffineODESolverDynamics, BaseODESolverDynamics")],
     ["dynamics.step, dynamics.compute_state_dot"])

prop("C25", "F-16 aerodynamic tables are looked up by exact bilinear interpolation",
     "Each tabulated force, moment, control and damping coefficient of the F-16 model reproduces its table at every grid point and is the piecewise (bi)linear interpolant between grid points for every angle of attack, sideslip and elevator angle, continued linearly from the outermost cell beyond the table. "
     "Roll and yaw moment coefficients are odd in sideslip; side force is linear in sideslip, aileron and rudder.",
     ["inputs"],
     "angles on grid points, just beside them, inside every cell and beyond each table edge, for all eleven coefficient functions",
     "The F-16 model has no tests.",
     [LL + f for f in ("cx.py", "cy.py", "cz.py", "cl.py", "cm.py", "cn.py", "dlda.py", "dldr.py", "dnda.py", "dndr.py", "dampp.py")],
     [("table lookup", LL + "cx.py etc."), ("index rounding", AE + "util.py fix, sign")],
     ["cx, cy, cz, cl, cm, cn, dlda, dldr, dnda, dndr, dampp"])

prop("C26", "F-16 engine and air data follow the Stevens & Lewis model",
     "Mach number and dynamic pressure follow the standard-atmosphere formulas at every speed and altitude; throttle maps to commanded power by the two-slope gearing; power lags its command with the published targets and rates; thrust is the published idle/military/maximum table interpolated bilinearly in altitude and Mach and linearly in power.",
     ["inputs"],
     "speeds 0-3000 ft/s, altitudes -5000 to 90000 ft around every breakpoint, throttle 0-1, power 0-100 and commanded power 0-100 including every branch boundary, Mach 0-1.5",
     "The F-16 model has no tests.",
     [LL + f for f in ("adc.py", "tgear.py", "pdot.py", "rtau.py", "thrust.py")], [("air data", LL + "adc.py"), ("engine", LL + "tgear.py, pdot.py, rtau.py, thrust.py")],
     ["adc, tgear, pdot, rtau, thrust"])

prop("C27", "Morelli coefficients are the published polynomials with clamped inputs",
     "The polynomial F-16 aerodynamic model returns the six published coefficient polynomials for every admissible input, treats any angle beyond its validity range exactly as the range's end, is linear in the normalised body rates, and shifts pitch and yaw moments with the center of gravity.",
     ["inputs"],
     "angles inside, at and beyond the clamp ranges, body rates, speeds 50-2000 ft/s, chord/span and center-of-gravity positions",
     "The F-16 model has no tests.",
     [LL + "morellif16.py"], [("polynomials", LL + "morellif16.py Morellif16")], ["Morellif16"])

prop("C28", "F-16 state derivatives satisfy the rigid-body flight equations",
     "For either aerodynamic model, the state derivative equals the six-degree-of-freedom flight equations: forces from aerodynamics, thrust and gravity, moments with engine angular momentum, Euler-angle kinematics, navigation consistent with the rotated body velocity, and engine lag; the accelerations at the pilot station follow. "
     "Derivatives do not depend on horizontal position, turning the heading only turns the ground velocity, ground speed vector has the airspeed's magnitude, and the inputs are not modified.",
     ["inputs"],
     "both models, speeds 150-1500 ft/s, angles over the aerodynamic envelope, any heading and bank, pitch away from vertical, body rates to 2 rad/s, altitudes 0-60000 ft, any in-range controls, with and without the pilot-station side-acceleration correction",
     "The F-16 model has no tests.",
     [LL + "subf16_model.py"], [("equations of motion", LL + "subf16_model.py subf16_model")], ["subf16_model"])

prop("C29", "The F-16 low-level controller is saturated linear feedback about trim",
     "The controller returns the equilibrium command plus the LQR feedback of the deviation from the equilibrium state, with throttle taken from the reference, each surface and the throttle saturated at its published limits and never beyond; at equilibrium with zero references it returns the equilibrium command. "
     "Its integrators accumulate measured minus reference load factor, roll rate and side force, and calling it never changes its inputs or later results.",
     ["inputs", "histories"],
     "random states (16 elements) from near trim to far off, references in and out of range, calls repeated in sequence on one controller",
     "The F-16 model has no tests.",
     [LL + "low_level_controller.py"], [("feedback and saturation", LL + "low_level_controller.py LowLevelController.get_u_deg"), ("integrators", "get_integrator_derivatives")],
     ["LowLevelController.get_u_deg, get_integrator_derivatives, get_num_integrators"])

prop("C30", "The closed-loop F-16 composes plant, controller and integrators",
     "The closed-loop derivative is the open-loop derivative under the controller's surface commands followed by the controller's three integrator rates, and the reported controls are throttle, surfaces in radians and the tracking references; load factor, stability-axis roll rate and side-force-plus-yaw-rate are those of the current state (roll rate with angle of attack measured from trim, as in AeroBench; in its v2 variant roll rate and yaw rate come from the state derivative). "
     "Inputs are left unmodified and horizontal position and integrator values never influence each other.",
     ["inputs"],
     "16-element states over the flight envelope, random references, both aerodynamic models and both integrator variants",
     "The F-16 model has no tests.",
     [AE + "controlled_f16.py"], [("composition", AE + "controlled_f16.py controlled_f16")], ["controlled_f16"])

prop("C31", "F-16 trim cost and constraints encode the chosen flight condition",
     "For each trim condition (level, climb, coordinated turn, pull-up) the constraint step sets attitude, body rates and power as that condition requires and leaves the other states alone; the cost is the published weighted sum of squared residual accelerations for that condition (square-rooted below one), is never negative, and is zero only when all penalised residuals vanish. "
     "Decision variables of either length are placed into the states and controls they stand for.",
     ["inputs", "configurations"],
     "all four conditions, three- and seven-variable decision vectors, both models, random constants and states over the envelope",
     "The F-16 model has no tests.",
     [LL + "conf16.py", LL + "clf16.py"], [("constraints", LL + "conf16.py conf16"), ("cost", LL + "clf16.py clf16")], ["conf16, clf16"])

prop("C32", "The fixed-step Euler integrator lands exactly on its end time",
     "Stepping from start to end takes explicit Euler steps of the given size with the last one shortened (or absorbed within the time tolerance) to land exactly on the end time, then reports finished and changes nothing further; the caller's start vector is never modified. "
     "Its dense output is the straight line joining the last two points, and a function once handed out keeps describing its step. Objects declared closed to new attributes reject them.",
     ["inputs", "histories"],
     "random scalar/vector right-hand sides (time-dependent too), start/end times, step sizes that do and do not divide the span, dense output queried at random times, extra steps after the end",
     "The F-16 utilities have no tests.",
     [AE + "util.py"], [("integrator", AE + "util.py Euler"), ("closed objects", AE + "util.py Freezable")], ["Euler.step, Euler.dense_output, Euler.t/y/status"])

prop("C33", "The flight safety verifier accepts exactly the runs within all limits",
     "Verifying a recorded run raises an AssertionError if and only if at some recorded instant a configured limit (altitude, load factor, airspeed, angle of attack, and the upper limits of roll rate and sideslip) is violated, whichever instant and limit it is; unset limits never reject and the run data is not modified. "
     "Extracting one aircraft from a multi-aircraft run returns exactly that aircraft's states and signals with shared times.",
     ["inputs", "configurations", "histories"],
     "runs of 1-12 instants with the violation, if any, placed at a random instant and limit by a random margin; any subset of limits; 1-4 aircraft",
     "The F-16 utilities have no tests.",
     [AE + "util.py"], [("verifier", AE + "util.py SafetyLimitsVerifier.verify, SafetyLimits"), ("extraction", AE + "util.py extract_single_result, get_state_names, StateIndex")],
     ["SafetyLimitsVerifier.verify, extract_single_result"])

prop("C34", "Invalid steps are rejected with the right error and change nothing",
     "A step with an unknown actuator name (anywhere in a dict of commands) raises KeyError, a command of an unsupported type raises ValueError, an unknown integration method (or the jax solver without jax models) raises ValueError, trajectory samples asked of a method that records none raise an error, and commands of the wrong length or with non-numeric values raise an error; in each case the entity's state and derivative are exactly as before and later valid steps are unaffected.",
     ["inputs", "histories", "fault_sequences"],
     "all controllable entities; invalid actions (misspelt or foreign actuator names placed anywhere in a dict, tuples, scalars, strings, sets, wrong lengths, non-numeric values) and methods injected at random points of a step history, against a twin that never gets them",
     "Tests check one invalid action per entity at most and not the entity afterwards.",
     [B], [("action checks", B + " BaseEntity.step"), ("method check", B + " BaseODESolverDynamics._step")],
     ["entity.step exceptions, entity.state, entity.state_dot"])

prop("C35", "F-16 helpers print matrices as given and round towards zero",
     "A printed matrix shows its label, its column labels in order and every row's label followed by that row's values in order (to the printed precision); a vector prints as one row, the printed data is not modified and a wrong number of row labels is rejected. The rounding helper truncates towards zero and the sign helper returns -1, 0 or 1.",
     ["inputs"],
     "matrices of 1-14 rows and columns (lists, arrays, vectors) with labels of random length, row labels given, absent or of wrong number; single columns of numbers of any magnitude; random floats for the helpers",
     "The F-16 utilities have no tests.",
     [AE + "util.py"], [("printing", AE + "util.py printmat"), ("rounding", AE + "util.py fix, sign")], ["printmat output, fix, sign"])

prop("C36", "jax models can be compiled, batched and differentiated",
     "For a jax model (a shipped entity's or a user-defined one) a step or derivative compiled with jax.jit, mapped over a batch with jax.vmap, or called plainly gives the same result for the same state, command and time step: that model's step and derivative, for every call of the compiled function and not only the first. "
     "Jacobians of step and derivative obtained from jax are those of the equations of motion, and compiling or differentiating a model leaves its ordinary stepping unchanged.",
     ["inputs", "configurations", "histories"],
     "jax entities with and without limits and user-defined linear, affine and nonlinear jax models; RK45_JAX and Euler steps; three different (state, command, time step) points through one compiled function; Jacobians where no limit is met",
     "The RK45_JAX method is documented as meant for JIT compilation; the tests step a single jax entity once.",
     [B, RO, SU], [("solver", B + " BaseODESolverDynamics._step, compute_state_dot_jax"), ("array module", B + " BaseDynamics.np"), ("limits", B + " BaseDynamics.step, compute_state_dot")],
     ["jax.jit / jax.vmap / jax.jacobian of dynamics.step and dynamics.compute_state_dot"])

prop("C37", "Control-affine models expose their equations' drift and input matrix",
     "For every control-affine model the drift returned by state_transition_system and the matrix returned by state_transition_input at a state are those of the model's published equations of motion, drift plus matrix times command (then limited) is the state derivative, and a linear model's A and B are the given or published matrices. "
     "Evaluating them modifies nothing, does not depend on the entity's current state, and earlier results of a state are reproduced after any other evaluation or step.",
     ["inputs", "configurations", "histories"],
     "all control-affine entities and user-defined linear and affine models, 1-4 states each (also beyond the limits) with steps of the entity in between, numpy and jax",
     "Tests evaluate drift and input matrix of no shipped model on their own.",
     [B, PT, RO, SX, DU, IN], [("composition", B + " ControlAffineODESolverDynamics._compute_state_dot, LinearODESolverDynamics"), ("spacecraft", RO + " CWHRotational2dDynamics; " + SX + " SixDOFDynamics"), ("Dubins", DU + " Dubins2dDynamics, Dubins3dDynamics")],
     ["dynamics.state_transition_system, state_transition_input, compute_state_dot, A, B"])

prop("C38", "The closed-loop F-16 flies its reference trajectory",
     "Flying one or more F-16s through the fixed-step integrator under scheduled references reproduces, at every step, the trajectory of the published closed loop (LQR with saturation and integral states, actuators, engine, tabulated or polynomial aerodynamics), for each aircraft independently of the others flown with it; the shipped trim point is held in level flight at any heading and place, and small disturbances of it die out.",
     ["inputs", "configurations", "histories"],
     "1-3 aircraft from trim and disturbed states under schedules of 1-3 reference commands, both aerodynamic models, both normal-acceleration forms, 5-60 steps of 10-33 ms, shared or own controllers; disturbed level flight over 8 s",
     "The F-16 code has no tests.",
     [AE + "controlled_f16.py", AE + "util.py", LL + "low_level_controller.py", LL + "subf16_model.py"],
     [("closed loop", AE + "controlled_f16.py controlled_f16"), ("integrator", AE + "util.py Euler"), ("controller", LL + "low_level_controller.py LowLevelController.get_u_deg, get_integrator_derivatives"), ("plant", LL + "subf16_model.py subf16_model")],
     ["Euler.t, Euler.y over controlled_f16, extract_single_result"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
