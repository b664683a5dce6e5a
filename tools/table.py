"""The properties, once: properties.jsonl, MANIFEST.json and the rules of the checks are written from here (tools/gen.py)."""
S = "multirotor_simulator/"
SIM, DYN, MOD, STA, UTI = S + "multirotor_simulator.hpp", S + "multirotor_dynamic_model/dynamics.hpp", S + "multirotor_dynamic_model/model.hpp", \
    S + "multirotor_dynamic_model/common/state.hpp", S + "multirotor_dynamic_model/common/utils.hpp"
IMU, ODO = S + "imu_simulator/imu.hpp", S + "imu_simulator/inertial_odometry.hpp"
CTL = S + "multirotor_controllers/multirotor_controllers.hpp"
K = S + "multirotor_controllers/controllers/"
ACR, IND, POS, VEL, TRA = K + "acro_controller.hpp", K + "indi_controller.hpp", K + "position_controller.hpp", K + "velocity_controller.hpp", K + "trajectory_controller.hpp"
PID, PID1 = "pid_controller/include/pid_controller/pid.hpp", "pid_controller/include/pid_controller/pid_1d.hpp"
TABLE = []


def P(id, title, statement, over, text, why, files, mech, harness, rule, observe=(), level="proof"):
    TABLE.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      harness=harness, rule=rule, observe=list(observe), level=level))


ANY = "every state, history, parameter set and input, both precisions, several rotor counts"

# ------------------------------------------------------------------ simulator
P("C01", "A disarmed vehicle is never commanded",
  "A simulator starts disarmed with a zero motor command, and only arming arms it. While it is disarmed every controller update yields an all-zero motor command, whatever the control mode, references and loop memory, and no other operation makes the command non-zero; disarming zeroes the command at once and changes nothing else. Arming changes no motor command, control mode, loop memory or vehicle state; it clears the body-rate reference and puts the height of the position reference at the floor height.",
  ["histories", "inputs"], "every sequence of public operations, from every state, with every argument",
  "the tests arm once and look at a few steps; the invariant must survive any order of calls",
  [SIM], [("armed flag guards the controller update", SIM + ":update_controller"), ("arm / disarm", SIM + ":arm,disarm")],
  "sim.cpp", "disarmed => zero command is established by construction and disarm(), and preserved by each public operation from an arbitrary state (induction over histories)",
  ["get_armed()", "get_actuation_motors_angular_velocity()"])
P("C02", "The floor holds the vehicle and disturbs nothing else",
  "With floor collision enabled no dynamics update (of at most 10 ms) ends below the floor; an update that would is put on the floor at rest: height equal to the floor height, all velocities and accelerations zero, and x, y, attitude, total force, total torque and rotor speeds as the free step produced them, with IMU and inertial odometry reset (odometry attitude restarted from the vehicle's). An update that does not end below the floor, or with the floor disabled, is exactly the free vehicle's step; a vehicle that is below the floor before the step is supported against its weight, the external force is consumed by the step, and process noise is off in the step after a contact only. Enabling and disabling the floor change only that switch, the height and the pending external force.",
  ["inputs", "histories"], "every state, floor height, command, model and step up to 10 ms",
  "tests cover a couple of drops on one model; contact can happen at any state and attitude",
  [SIM, DYN], [("contact detection and state reset", SIM + ":update_dynamics")],
  "sim.cpp", "the state after update_dynamics equals the reference contact law applied to the step of an independent copy of the vehicle, for an arbitrary simulator",
  ["get_state()", "get_odometry()", "get_imu_const()", "get_external_force()"])
P("C03", "The control mode selects exactly its control law",
  "While armed, a controller update commands exactly what the law of the current control mode computes from the present vehicle state and the current references: the motor references themselves in motor mode, the rate loop in acro mode, and the trajectory, velocity or position cascade in those modes, hover being position hold. It advances only that cascade's memory and changes no reference (except the heading derived from a yaw rate), no vehicle state, sensor or flag.",
  ["inputs", "histories"], "every mode, yaw mode, vehicle state, reference, gain and loop memory",
  "tests sample one reference per mode with default gains",
  [SIM, CTL], [("mode dispatch", SIM + ":update_controller")],
  "sim.cpp", "command and loop memory equal those of a copy of the controller driven with the published references and the vehicle state",
  ["get_actuation_motors_angular_velocity()", "get_controller_const()"])
P("C04", "Changing mode re-anchors the references; repeating it does nothing",
  "Selecting a different control mode or yaw mode makes the position reference the present position and the heading reference the present heading, and clears velocity, acceleration, thrust and body-rate references, leaving motor and yaw-rate references, vehicle, loops, sensors and flags alone. Selecting the mode that is already active changes nothing at all. The yaw mode defaults to angle.",
  ["inputs", "histories"], "every pair of modes, every state and reference",
  "tests switch a few modes from rest at the origin, where stale references are invisible",
  [SIM, STA], [("set_control_mode", SIM + ":set_control_mode")],
  "sim.cpp", "references after set_control_mode on an arbitrary simulator equal the anchored ones; same mode is the identity",
  ["reference getters"])
P("C05", "A yaw-rate reference becomes a heading ahead of the vehicle",
  "In yaw-rate mode every armed controller update sets the heading reference to the present heading plus the rate divided by the yaw attitude gain, or to the present heading if that gain is zero, and leaves the rate and the other references alone. The conversion itself has no side effect.",
  ["inputs"], "every attitude, rate and gain",
  "tests use one gain and level attitudes",
  [SIM, CTL], [("yaw rate to heading", CTL + ":yaw_rate_to_angle")],
  "sim.cpp", "heading reference equals yaw + rate / gain on an arbitrary armed simulator", ["get_reference_yaw()"])
P("C06", "Setters do what they say and nothing else",
  "Each reference setter changes exactly the references it names, to the values given. Giving new dynamics, controller, IMU or odometry parameters replaces exactly that component by the one those parameters describe (dynamics including its initial state and seed) and leaves all the others, the references and the flags as they were.",
  ["inputs", "histories"], ANY, "tests set a value and read it back; they do not look at everything else",
  [SIM], [("reference and parameter setters", SIM)],
  "sim.cpp", "frame condition over every getter and every component after each setter on an arbitrary simulator", ["all getters"])
P("C19", "Same seeds and inputs, same evolution; copies are independent",
  "Two simulators built from the same parameters and driven by the same calls have identical state, sensors, loops and references at every moment; nothing but parameters, seeds and calls influences the evolution. A copy of a simulator, taken at any moment, evolves exactly like the original would and never changes it. The seeds given in the parameters are those of the process-noise and sensor-noise generators.",
  ["histories", "configurations"], "every parameter set, seed, state at the time of copying, and control mode",
  "tests fix one seed and never compare two simulators",
  [SIM, MOD, IMU], [("generators are members seeded from parameters", MOD + ":Model"), ("", IMU + ":IMU")],
  "sim.cpp", "twin and copy simulators run through one full cycle have equal value numbers everywhere; no entropy source, clock or static storage is reached",
  ["all getters"])
P("C23", "Sensors are fed the vehicle's own motion, in the right frame",
  "The simulator's IMU update measures the total force per unit mass in the body frame and the body rates of the vehicle, and touches nothing else. The odometry update integrates exactly the IMU's latest measurement over the given time and touches nothing else. With an ideal sensor, no filtering and the vehicle's attitude, the odometry's acceleration and rates are the vehicle's.",
  ["inputs"], "every attitude, force, mass, rate, sensor orientation, bias and time step",
  "tests keep the vehicle level, where a wrong frame is invisible",
  [SIM, IMU, ODO], [("frame change", SIM + ":update_imu"), ("", SIM + ":update_inertial_odometry")],
  "sim.cpp", "sensor and odometry after the update equal copies driven with R'F/m, the body rates and the measurement", ["get_imu_measurement()", "get_odometry()"])
P("C36", "All ways of reading a value agree and reading changes nothing",
  "For every value with several getters (by value, by reference, into an argument, through a component), all of them give the same value and none of them changes the simulator. Setting the vehicle's state or model by reference or by pointer stores the same value, and a null pointer is ignored.",
  ["inputs", "histories"], ANY, "tests use one overload each",
  [SIM, DYN], [("getter overloads", SIM), ("pointer setters", DYN + ":set_state,set_model")],
  "sim.cpp", "pairwise equality of all getter overloads on an arbitrary simulator, and equality of the simulator before and after", ["all getters"])
P("C40", "Everything has a defined value from construction",
  "A new simulator is disarmed, has no floor, zero references, command, external force, measurements, odometry and process noise, motor mode and yaw-angle mode; a default vehicle is at the origin, level and at rest. Built from parameters, its state, model, sensors, odometry attitude and controllers hold exactly the values given.",
  ["configurations"], "every parameter set, both precisions, several rotor counts",
  "an uninitialised member usually reads as zero in a test",
  [SIM, STA, DYN, IMU, ODO, CTL], [("member initialisers", SIM)],
  "sim.cpp", "no getter of a new object yields an undefined value; each equals its specified initial value", ["all getters"])

# ------------------------------------------------------------------ vehicle
P("C07", "Rotor speeds never leave their envelope",
  "After any dynamics step, from any state and for any command, every rotor speed lies between that rotor's minimum and maximum speed. A command beyond the envelope acts exactly like the limit it exceeds.",
  ["inputs"], ANY, "tests use in-range commands or identical motors",
  [DYN], [("clamping of commands and speeds", DYN + ":clamp_motors_angular_velocity")],
  "dynamics.cpp", "interval obligation on every rotor after the step of an arbitrary vehicle; equality with the step of the clamped command", ["get_state().actuators"])
P("C08", "Rotors follow their command as a first-order lag",
  "In a step of at most 10 ms each rotor accelerates by (limited command - speed) / its own time constant, and its speed advances by that acceleration times the step, limited to its envelope. Each rotor uses its own limits and time constant.",
  ["inputs"], ANY, "tests compare one trajectory with equal motors",
  [DYN], [("first-order lag", DYN + ":get_motors_angular_velocity_derivative")],
  "dynamics.cpp", "per-rotor equality of acceleration and speed with the reference lag", ["get_state().actuators"])
P("C09", "Newton's law: total force and linear acceleration",
  "The total force of a step is the rotors' thrust rotated into the world, plus weight (mass times gravity), plus quadratic drag opposing each velocity component, plus process-noise force, plus external force, all at the state before the step. The linear acceleration is that force divided by the mass.",
  ["inputs"], ANY, "tests hover level with unit mass; wrong frames and factors cancel",
  [DYN, MOD], [("force balance", DYN + ":get_vehicle_linear_velocity_derivative")],
  "dynamics.cpp", "equality of force and acceleration with the reference balance on an arbitrary vehicle", ["get_state().dynamics", "get_state().kinematics.linear_acceleration"])
P("C10", "Euler's law: total torque and angular acceleration",
  "The total torque of a step is the rotors' torque (speeds and rotor accelerations), plus aerodynamic moment opposing the body rates, plus process-noise moment, minus the gyroscopic term rate x inertia*rate, at the rates before the step. Inertia times the angular acceleration equals that torque.",
  ["inputs"], ANY, "tests keep rates at zero, where the coupling vanishes",
  [DYN, MOD], [("torque balance", DYN + ":get_vehicle_angular_velocity_derivative")],
  "dynamics.cpp", "equality of torque and inertia * acceleration with the reference balance on an arbitrary vehicle", ["get_state().dynamics.torque", "get_state().kinematics.angular_acceleration"])
P("C11", "Explicit Euler integration on a unit quaternion",
  "A step of at most 10 ms advances position by the old velocity, velocity by the new acceleration, body rates by the new angular acceleration, and attitude by the old body rates followed by normalisation. The attitude is a unit quaternion after every step.",
  ["inputs"], ANY, "tests integrate one scenario",
  [DYN, UTI], [("integration", DYN + ":process_euler_explicit")],
  "dynamics.cpp", "equality of the kinematics with the reference integration, norm obligation", ["get_state().kinematics"])
P("C12", "Non-positive time steps are refused without effect",
  "A dynamics step with zero or negative duration throws std::invalid_argument and leaves the vehicle, its noise and its generator exactly as they were. A step of positive duration up to 10 ms never throws.",
  ["inputs"], ANY, "tests try one bad step and do not compare the whole vehicle",
  [DYN], [("validation before any effect", DYN + ":process_euler_explicit")],
  "dynamics.cpp", "every path with dt <= 0 ends in the throw, and the object is unchanged there", ["exception", "get_state()"])
P("C13", "A long step covers exactly the requested time in short sub-steps",
  "A dynamics step longer than 10 ms is carried out as sub-steps of at most 10 ms whose durations add up to the requested time, with the same command, external force and noise setting in each. In particular under a constant force the velocity changes by force/mass times the requested time, and at constant velocity the position by velocity times the requested time.",
  ["inputs"], "every duration in the analysed ranges (10-20, 20-30, 30-40 and 70-80 ms), every state and force",
  "tests use one long step and compare loosely",
  [DYN], [("sub-stepping", DYN + ":process_euler_explicit")],
  "dynamics.cpp", "closed forms that hold only if the sub-steps add up to dt, for symbolic dt; bound on the Euler error that holds only if no sub-step exceeds 10 ms", ["get_state()"])
P("C14", "The allocation matrices are those of the motors",
  "Column i of the 6-row allocation matrix is the force and torque motor i produces per unit of squared speed: its thrust axis times its thrust coefficient, and the moment of that force about the centre plus the drag torque in its spin direction; the inertia matrix holds the torque per unit of rotor acceleration. A model holds the matrices of its current parameters after construction and after every accepted update, and its force, torque and vertical-force parts are the corresponding rows.",
  ["configurations"], "every motor pose, coefficient and direction, 4, 6 and 8 rotors",
  "tests use symmetric level layouts",
  [MOD], [("mixer computation", MOD + ":compute_mixer_matrix")],
  "model.cpp", "column-wise equality with the cross-product formula for arbitrary motors", ["get_mixer_*"])
P("C15", "The ready-made airframes are the documented layouts",
  "The quadrotor-x, quadrotor-plus and hexarotor factories place motors counter-clockwise at the documented positions, level, with alternating spin starting with +1 and the given coefficients, limits, time constant and inertia on every motor. Equal rotor speeds on any of them give pure vertical thrust and no torque. For level motors the 4-row allocation matrix is the vertical force and the three torques of the 6-row one.",
  ["configurations"], "every coefficient and arm length", "tests compare one numeric layout",
  [MOD], [("factories", MOD + ":create_quadrotor_x_config, create_quadrotor_plus_config, create_hexacopter_config")],
  "model.cpp", "equality of every motor field with the layout table; zero net wrench", ["motor lists", "compute_mixer_matrix"])
P("C16", "Model parameters are validated, and rejected as a whole",
  "Parameters are accepted exactly when the number of motors is the number of rotors, mass, drag, inertia determinant and aerodynamic-moment determinant are non-negative, and every motor has max speed at least min speed and non-negative time constant, inertia and coefficients. A rejected update leaves the model exactly as it was; an accepted one stores every parameter and leaves the noise alone. Each getter returns the stored parameter of its name.",
  ["configurations", "inputs"], "every parameter set, including each single violation", "tests break one parameter at a time and check a flag",
  [MOD], [("check_params", MOD + ":check_params"), ("", MOD + ":update_params")],
  "model.cpp", "the acceptance condition equals the reference predicate; frame condition on rejection", ["check_params()", "get_params()"])
P("C17", "Drag, aerodynamic moment and thrust laws",
  "Drag is minus the coefficient times the signed square of each velocity component, so it never adds energy; the aerodynamic moment is minus the rate's norm times the coefficient matrix times the rate. Force and torque of the rotors are the allocation matrices times the signed squared speeds, plus the inertia matrix times the rotor accelerations for the torque, in the member and in the static forms.",
  ["inputs"], ANY, "tests check single vectors",
  [MOD, UTI], [("drag", MOD + ":get_drag_force"), ("", MOD + ":get_torque_by_motors")],
  "model.cpp", "equality with the reference laws for arbitrary coefficients and vectors; sign obligation for dissipation", ["get_drag_force()", "get_aerodynamic_moment()", "get_torque_by_motors()"])
P("C18", "Process noise has the stated scale and can be switched off",
  "Each noise update draws six fresh independent standard normals from the model's own seeded generator and sets force and moment to them scaled by the square root of the respective auto-correlation over the time step. A non-positive step, a zero auto-correlation or disabling gives exactly zero force and moment. Parameters and allocation matrices are never touched by it.",
  ["inputs", "histories"], "every auto-correlation, step and seed; three successive updates", "statistics of samples cannot separate a wrong scale in one axis or a reused draw",
  [MOD], [("set_stochastic_noise", MOD + ":set_stochastic_noise")],
  "model.cpp", "the six values divided by their scale are, as a multiset, the next six draws of the seeded generator", ["get_stochastic_force()", "get_stochastic_moment()"])

# ------------------------------------------------------------------ sensors
P("C20", "The IMU measures truth, bias and noise in the sensor frame",
  "An IMU update measures the true rate and specific force rotated into the sensor frame, plus the current bias, plus white noise of the set variance; the bias walks by normal draws scaled with the square root of its auto-correlation over the step, times the step. Every update uses twelve fresh draws of the sensor's own generator, none of them twice.",
  ["inputs", "histories"], "every orientation, variance, correlation, bias, truth and step; successive updates", "a statistical test cannot separate shared draws or swapped variances",
  [IMU], [("update", IMU + ":update")],
  "imu.cpp", "noise-free measurement equals rotated truth plus bias; noisy one: normalised residuals are, as a multiset, the next draws", ["get_measurement_gyro()", "get_measurement_accel()", "get_bias()"])
P("C21", "IMU construction, setters, reset and no-op steps",
  "A new IMU has zero measurements and a bias drawn with the given variances from the seed, in either constructor; an IMU with zero variances and correlations measures the exact truth. A non-positive step changes nothing, each setter changes only what it names, all measurement getters agree, and a reset zeroes measurements and bias but keeps variances. Re-seeding repeats the same noise.",
  ["inputs", "histories"], ANY, "tests call each function once with defaults",
  [IMU], [("constructors, setters, reset", IMU)],
  "imu.cpp", "equalities over an IMU with arbitrary contents; no-op paths leave it unchanged", ["get_bias()", "get_variances()", "get_measurement*()"])
P("C22", "Inertial odometry integrates filtered measurements",
  "The odometry low-pass filters gyro and accelerometer with its gain, takes the filtered rate as body rate, turns the filtered acceleration into the world frame with its attitude before the step, and integrates velocity, then position, and attitude (kept a unit quaternion). All getters agree. A reset returns it to the initial attitude with everything else zero, like a new one.",
  ["inputs", "histories"], "every gain, attitude, measurement and step; successive updates", "tests use identity attitude or unit gain",
  [ODO, UTI], [("update", ODO + ":update"), ("", ODO + ":reset")],
  "imu.cpp", "state after the update of an odometry with arbitrary contents equals the reference integration; two-step filter recursion", ["get_measurement()", "get_position()", "..."])

# ------------------------------------------------------------------ PID
P("C24", "The PID law",
  "With no limits configured, the output is Kp*e + Ki*(accumulated e*dt) + Kd*(derivative), where the derivative is the given one or else the error difference over dt low-pass filtered with alpha, zero at the first call after construction or reset; the stored errors, contributions and output are those of the last call. Error is reference minus state. This holds per axis, in the scalar and in the vector controller, after any history.",
  ["inputs", "histories"], "every gain, filter constant, error, time step and previous history", "tests check a few sequences with simple gains",
  [PID, PID1], [("compute_control", PID + ":compute_control"), ("", PID1 + ":compute_control")],
  "pid.cpp", "contributions and output equal the law from an arbitrary internal state", ["compute_control()", "contribution getters"])
P("C25", "Output saturation bounds the output and only the output",
  "With limits set, the output is the unlimited law clamped per axis to the limits, or, in proportional mode, scaled by the largest common factor not above one that brings every axis within its limits; the integral is not affected by it. Disabling the saturation restores the unlimited law.",
  ["inputs"], "every output, limit pair and mode", "tests check single values on each side",
  [PID, PID1], [("saturate_output", PID + ":saturate_output")],
  "pid.cpp", "equality with the clamp and with the maximal common factor in every orthant; bounds", ["compute_control()", "saturate_output()"])
P("C26", "Anti-windup bounds the accumulated error",
  "With positive anti-windup constants the accumulated error after every call is the unlimited one clamped to plus or minus the constant on each axis, the clamped value is what reaches the output and what is kept for the next call. This holds in both overloads, in the scalar and the vector controller.",
  ["inputs", "histories"], "every constant, error, step and previous accumulation", "tests drive one axis into one limit",
  [PID, PID1], [("anti-windup clamp", PID + ":compute_integral_contribution")],
  "pid.cpp", "equality of the accumulator with the clamp from an arbitrary internal state; no hidden accumulation", ["get_integral_error_contribution()"])
P("C27", "Reset forgets history; parameter changes do not",
  "After a reset the controller behaves exactly like a new one with the same parameters, and no parameter has changed. A change of parameters alone keeps the accumulated error, the previous error and the filtered derivative.",
  ["histories"], "every history before the reset, every parameter set", "tests reset after one short history",
  [PID, PID1], [("reset_controller", PID + ":reset_controller"), ("", PID + ":update_pid_params")],
  "pid.cpp", "two calls after a reset of an arbitrary controller equal those of a new one", ["compute_control()"])
P("C28", "PID parameters are stored as given",
  "Construction and update store every gain, constant, filter coefficient, flag and valid limit pair, the getters return them, and each setter changes only its own parameter. Limits that are zero, equal or crossed on some axis leave the output unlimited. A default controller has zero gains, no anti-windup, alpha one, no saturation and zero outputs.",
  ["configurations"], "every parameter set", "tests store one set",
  [PID, PID1], [("update_pid_params", PID + ":update_pid_params")],
  "pid.cpp", "round trip of arbitrary parameters through an arbitrary controller", ["get_params()", "getters"])
P("C29", "The scalar controller and each axis of the vector one agree",
  "A vector PID with per-axis clamping gives on each axis exactly the output, contributions and stored errors of a scalar PID with that axis's parameters, for any sequence of errors: with and without positive anti-windup, output limits, integral reset and supplied derivative.",
  ["inputs", "histories"], "every parameter set and error sequence of two calls", "each implementation is tested on its own",
  [PID, PID1], [("two implementations of one law", PID + ", " + PID1)],
  "pid.cpp", "sibling cross-check: equal value numbers axis by axis over two calls", ["compute_control()"])
P("C30", "The integral restarts only when saturated and opposed",
  "With integral reset enabled and positive anti-windup, the accumulated error of an axis is discarded before a new error is added exactly when it sits at its anti-windup limit and the error has the opposite sign; otherwise it accumulates and is clamped as usual. Axes are independent.",
  ["inputs", "histories"], "every accumulated value, constant and error", "tests saturate one axis once",
  [PID, PID1], [("integral reset", PID + ":compute_integral_contribution")],
  "pid.cpp", "equality with the reference rule from an arbitrary accumulated value", ["get_integral_error_contribution()"])

# ------------------------------------------------------------------ controllers
P("C31", "Acceleration and heading become thrust and body rates",
  "The wanted thrust vector is mass times (wanted acceleration minus gravity); collective thrust is its projection on the body z axis, and body rates are minus the attitude gain times the attitude error towards the frame whose z axis is along the thrust vector and whose heading is the wanted yaw. If the projection is negative, thrust and rates are zero. Hovering level at the wanted heading asks for the weight and no rotation.",
  ["inputs"], "every acceleration, attitude, heading, gain matrix, mass and gravity", "tests stay near hover",
  [ACR, CTL], [("acceleration_to_thrust, yaw_angle_to_angular_velocity", ACR), ("", CTL + ":convert_linear_acceleration_to_acro")],
  "ctrl.cpp", "equality with the reference geometric law for arbitrary gains and attitudes", ["convert_linear_acceleration_to_acro()"])
P("C32", "Thrust and body rates become rotor speeds",
  "The rate loop is a PID on wanted minus actual rates giving angular acceleration; the torque is inertia times it plus rate x inertia*rate of the wanted rates; rotor speeds are the signed square roots of the inverse allocation applied to that torque and the thrust along body z. The inverse computed for a quadrotor undoes its allocation.",
  ["inputs"], "every inertia, allocation, rate, thrust and loop memory; 4, 6 and 8 rotors", "tests use one quadrotor",
  [IND, UTI], [("acro_to_motor_angular_velocity", IND)],
  "ctrl.cpp", "equality of torque and rotor speeds with the reference allocation; mixer times inverse is the identity", ["acro_to_motor_angular_velocity()"])
P("C33", "The cascade composes its loops, each fed the right signals",
  "Position control is the position loop feeding the velocity loop feeding acceleration control; trajectory control is position and velocity error feedback plus the acceleration feed-forward feeding acceleration control; acceleration control is the attitude law feeding the rate loop. Each loop is a PID on reference minus state of its own quantity, loops outside the chosen cascade keep their memory, and the getters report the signals of the last update.",
  ["inputs", "histories"], "every state, reference, gain and loop memory", "tests check end results near equilibrium",
  [CTL, POS, VEL, TRA, IND, ACR], [("compute_*_control", CTL)],
  "ctrl.cpp", "each cascade equals the composition of its loops on a copy of an arbitrary controller", ["compute_*_control()", "get_desired_*()"])
P("C34", "Controller parameters reach their own loop",
  "Constructing or updating the controller with a parameter set gives each loop exactly its own parameters; updating one loop touches no other; resetting the controller resets the rate, position, velocity and trajectory loops and nothing else.",
  ["configurations", "histories"], "every parameter set and loop memory", "tests use the same gains in several loops",
  [CTL, POS, VEL, TRA, IND, ACR], [("update_*_params, reset_controller", CTL)],
  "ctrl.cpp", "round trip of arbitrary parameters and frame condition on the other loops of an arbitrary controller", ["get_*_controller_const()"])
P("C35", "Every component compiles for both precisions and any rotor count",
  "Every member of every class can be used with float and double and with any number of rotors; a precision that is not a floating-point type is refused at compile time. Every header can be included alone and in several translation units. A constant simulator gives no write access, and no motor command can be forced from outside.",
  ["programs", "configurations"], "every member of every class template, 2 precisions x 5 (thorough: 9) rotor counts; every header", "templates are only instantiated where tests use them",
  [SIM, DYN, MOD, STA, UTI, IMU, ODO, CTL, ACR, IND, POS, VEL, TRA, PID, PID1], [("class templates", SIM)],
  None, "compile-accept and compile-reject witnesses: explicit instantiation of every class template, static assertions on types, strong-symbol scan of each header", ["the compiler"], level="other")
P("C37", "Log lines keep their columns",
  "Writing a state to a stream gives, in this order and separated by single commas, position, roll, pitch, yaw, linear and angular velocity, linear and angular acceleration, force, torque, rotor speeds and rotor accelerations; the labelled print gives the same values in the same order as name: value pairs separated by comma and space. Nothing else is written, to no other stream, and the state is not changed.",
  ["inputs"], "every state, any number of rotors", "tests do not look at the text",
  [STA], [("operator<<, print_*", STA)],
  "state.cpp", "the sequence of stream insertions equals the reference sequence, text and value by value", ["std::ostream"])
P("C38", "Quaternion and signed-power helpers",
  "The quaternion derivative is half the product of the quaternion with the rate, hence tangent to the unit sphere; its integration is one Euler step followed by normalisation. Signed square and signed square root act per component, keep the sign and undo each other.",
  ["inputs"], "every quaternion, rate, step and vector", "tests check a few values",
  [UTI], [("helpers", UTI)],
  "state.cpp", "equality with the reference formulas and round trips", ["return values"])
P("C39", "Roll, pitch and yaw of every attitude",
  "The Euler angles of a quaternion are those of its rotation matrix (z-y-x convention), with pitch limited to plus or minus 90 degrees at the singularity with the right sign. A positive multiple of the quaternion gives the same angles.",
  ["inputs"], "every unit quaternion, every positive scale", "tests check elementary rotations",
  [STA], [("quaternion_to_Euler", STA)],
  "state.cpp", "equality with atan2/asin of the rotation matrix entries", ["quaternion_to_Euler()"])

P("C41", "Odometry log lines keep their columns",
  "Writing the inertial odometry to a stream gives, in this order and separated by single commas, its position, roll, pitch, yaw, linear velocity, angular velocity and linear acceleration; the labelled print gives the same values in the same order as name: value pairs separated by comma and space. The angles are those of the attitude the getter returns, nothing else is written and the odometry is not changed.",
  ["inputs"], "every odometry content, every attitude", "tests do not look at the text",
  [ODO], [("operator<<, print_state", ODO)],
  "state.cpp", "the sequence of stream insertions equals the reference sequence, text and value by value", ["std::ostream"])
P("C42", "The vehicle produces the thrust and torque the controller asks for",
  "With level motors anywhere and the inverse allocation computed from the vehicle's own allocation matrix, the rotor speeds commanded for a thrust and a torque make the vehicle model produce exactly that thrust, along body z only, and that torque.",
  ["inputs", "configurations"], "every position, spin direction and coefficient of four level motors, every thrust, rate and loop memory", "controller and model are tested separately, with one airframe",
  [IND, MOD, UTI], [("inverse allocation", IND + ":compute_quadrotor_mixer_matrix_inverse"), ("allocation", MOD + ":compute_mixer_matrix_6D")],
  "sim.cpp", "round trip through rate loop, inverse allocation, signed square root, signed square and allocation is the identity on (thrust, torque)", ["acro_to_motor_angular_velocity()", "get_force_vector_thrust_by_motors()", "get_torque_by_motors()"])
P("C43", "Hover is an equilibrium of the closed loop",
  "A level quadrotor (x or plus) at rest at its reference position and heading, with rotors carrying its weight and no noise, stays exactly so: each control update of the hover, position, velocity or trajectory mode commands every rotor the speed that lifts a quarter of the weight, and each dynamics step with the rotors at that speed changes nothing and reports zero force, torque and acceleration.",
  ["configurations", "inputs"], "every mass, gravity, inertia, arm length, coefficient, drag, gain, position, heading and step up to 10 ms; the first two cycles", "tests hover one vehicle and accept small errors",
  [SIM, CTL, DYN, MOD, ACR, IND], [("closed loop", SIM + ":update_controller,update_dynamics")],
  "sim.cpp", "fixed-point obligation on the closed-loop step for symbolic parameters and gains", ["get_state()", "get_actuation_motors_angular_velocity()"])

P("C44", "What is not given is neutral",
  "Parameters, states and objects left at their defaults are neutral: a default state is level, at rest, at the origin; default parameters have no mass, inertia, drag, noise, gain, limit, filter or sensor misalignment and standard gravity downwards, one rotor without effect per rotor; a new simulator is disarmed, without floor, references, command or external force, in motor mode with yaw angle control, and its sensors read zero. A vehicle given only mass and inertia falls freely with ideal sensors, and a loop given only its gains is an unfiltered, unlimited PID.",
  ["configurations"], "every combination of given mass, gains, errors and step with everything else at its default", "tests set the parameters they use",
  [SIM, MOD, DYN, STA, IMU, ODO, CTL, ACR, IND, PID], [("default member initialisers", MOD + ":MotorParams,ModelParams"), ("default member initialisers", STA), ("default member initialisers", SIM)],
  "sim.cpp", "values of every public default, and behaviour of default-built objects, by equality", ["public fields", "getters"])

NOT_APPLICABLE = [
    dict(id="N01", title="Closed-loop stability and convergence",
         statement="With stabilising gains the vehicle converges to a constant position reference and follows a feasible trajectory with bounded error.",
         over=["histories", "inputs"], text="every initial state and reference, infinitely long runs", why="tests run a few seconds of one scenario",
         files=[SIM, CTL], mech=[("cascade", CTL)],
         reason="a Lyapunov-type argument over an unbounded run of a saturated non-linear loop; no static analysis in reach bounds it (the per-step laws are C03, C31-C33)"),
    dict(id="N02", title="Floating-point robustness",
         statement="For finite inputs within physical ranges no NaN or infinity appears and rounding errors stay within a stated bound.",
         over=["inputs", "histories"], text="every finite input", why="tests sample few inputs", files=[DYN, PID, IND], mech=[("arithmetic", DYN)],
         reason="the analysis is over the reals; bounding rounding through normalisations, matrix inverses and long runs is out of reach of a sound static bound here"),
    dict(id="N03", title="Odometry drift stays within its noise model",
         statement="The odometry error grows no faster than the integrated sensor noise predicts.",
         over=["histories"], text="every noise sequence and flight", why="tests compare one seed", files=[ODO, IMU], mech=[("integration", ODO)],
         reason="a statement about the distribution of accumulated runtime noise; only the per-step laws are decidable statically (C20, C22)"),
    dict(id="N04", title="Noise is statistically white and Gaussian",
         statement="Successive noise samples are independent and normally distributed with the configured variance.",
         over=["histories"], text="every seed", why="tests draw finite samples", files=[MOD, IMU], mech=[("std::normal_distribution", MOD)],
         reason="a property of libstdc++'s generator, not of this code; that fresh draws with the right scale are used is C18 and C20"),
]
