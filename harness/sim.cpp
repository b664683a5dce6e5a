#include "sim.hpp"
using namespace vf;

#ifdef VF_ONLY_C01  // ---- a disarmed vehicle is commanded nothing
// disarmed => zero command is an invariant of every public operation
template <class T, int N> void keeps_disarmed(int op) {
  Simulator<T, N> s;
  any_sim<T, N>(s);
  vf_assume(!s.get_armed());
  for (int i = 0; i < N; i++) vf_assume(s.get_actuation_motors_angular_velocity()[i] == T(0));
  T dt = short_step<T>();
  switch (op) {
    case 0: s.update_dynamics(dt); break;
    case 1: s.update_imu(dt); break;
    case 2: s.update_inertial_odometry(dt); break;
    case 3: s.disarm(); break;
    case 4: s.enable_floor_collision(real<T>("h")); break;
    case 5: s.disable_floor_collision(); break;
    case 6: s.set_control_mode(static_cast<ControlMode>(vf_int("mode", 0)), static_cast<YawControlMode>(vf_int("ymode", 0))); break;
    case 7: s.set_refence_motors_angular_velocity(mat<VN<T, N>>("x")); break;
    case 8: s.set_reference_acro(real<T>("x"), vec3<T>("y")); break;
    case 9: s.set_reference_trajectory(vec3<T>("x"), vec3<T>("y"), vec3<T>("z")); break;
    case 10: s.set_reference_velocity(vec3<T>("x")); break;
    case 11: s.set_reference_position(vec3<T>("x")); break;
    case 12: s.set_reference_yaw_angle(real<T>("x")); break;
    case 13: s.set_reference_yaw_rate(real<T>("x")); break;
    case 14: s.set_controller_params(any_controller<T, N>()); break;
    case 15: s.set_imu_params(imu::IMUParams<T>()); break;
    case 16: s.set_inertial_odometry_params(imu::InertialOdometryParams<T>()); break;
    case 17: s.set_dynamics_params(DynamicsParams<T, N>()); break;
  }
  vf_true("still disarmed", op, !s.get_armed());
  for (int i = 0; i < N; i++) vf_eq("still no command", 100 * op + i, s.get_actuation_motors_angular_velocity()[i], 0);
}
template <class T, int N> void setters_disarmed() {
  for (int i = 1; i < 17; i++) keeps_disarmed<T, N>(i);
}
template <class T, int N> void fresh() {
  SimulatorParams<T, N> p;
  p.controller_params = any_controller<T, N>();
  Simulator<T, N> s(p);
  vf_true("born disarmed", 0, !s.get_armed());
  zero("born without command", s.get_actuation_motors_angular_velocity());
}
// whatever the mode, the references and the memory of the loops
template <class T, int N> void disarmed_update() {
  Simulator<T, N> s;
  any_sim<T, N>(s);
  vf_assume(!s.get_armed());
  s.update_controller(real<T>("dt"));
  vf_true("still disarmed", 0, !s.get_armed());
  zero("zero command", s.get_actuation_motors_angular_velocity());
}
template <class T, int N> void disarm() {
  Simulator<T, N> s;
  any_sim<T, N>(s);
  Simulator<T, N> o = s;
  s.disarm();
  vf_true("disarmed", 0, !s.get_armed());
  zero("zero command at once", s.get_actuation_motors_angular_velocity());
  frame<T, N>(s, o, COMMAND | FLAGS);
  vf_true("floor switch kept", 0, s.get_floor_collision_enabled() == o.get_floor_collision_enabled());
  eq("floor height kept", s.get_floor_height(), o.get_floor_height());
}
template <class T, int N> void arm() {
  Simulator<T, N> s;
  any_sim<T, N>(s);
  Simulator<T, N> o = s;
  s.arm();
  vf_true("armed", 0, s.get_armed());
  // arming commands nothing by itself and keeps the reference at floor level, level and still
  frame<T, N>(s, o, REFS | FLAGS);
  zero("no rate asked for", s.get_reference_angular_velocity());
  vf_eq("reference height is the floor", 0, s.get_reference_position().z(), o.get_floor_height());
  vf_eq("reference x kept", 0, s.get_reference_position().x(), o.get_reference_position().x());
  vf_eq("reference y kept", 0, s.get_reference_position().y(), o.get_reference_position().y());
  vf_eqi("control mode kept", 0, s.get_control_mode(), o.get_control_mode());
  vf_eqi("yaw mode kept", 0, s.get_yaw_control_mode(), o.get_yaw_control_mode());
  vf_true("floor switch kept", 0, s.get_floor_collision_enabled() == o.get_floor_collision_enabled());
}
VF_ENTRY(C01_born_d4, (fresh<double, 4>()))
VF_ENTRY(C01_update_d4, (disarmed_update<double, 4>()))
VF_ENTRY(C01_update_d6, (disarmed_update<double, 6>()))
VF_ENTRY(C01_update_d8, (disarmed_update<double, 8>()))
VF_ENTRY(C01_update_f4, (disarmed_update<float, 4>()))
VF_ENTRY(C01_disarm_d4, (disarm<double, 4>()))
VF_ENTRY(C01_arm_d4, (arm<double, 4>()))
VF_ENTRY(C01_step_d4, (keeps_disarmed<double, 4>(0)))
VF_ENTRY(C01_setters_d4, (setters_disarmed<double, 4>()))
VF_ENTRY(C01_dynamics_d4, (keeps_disarmed<double, 4>(17)))
#endif

#ifdef VF_ONLY_C02  // ---- the floor
// one step: what the vehicle alone would do, kept above the floor
template <class T, int N> void step(int what) {
  Simulator<T, N> s;
  any_sim<T, N>(s);
  auto &p = const_cast<ModelParams<T, N> &>(s.get_dynamics().get_model().get_params());
  p.force_process_noise_auto_correlation = 0;
  p.moment_process_noise_auto_correlation = 0;
  T h = s.get_floor_height(), dt = short_step<T>();
  bool on = s.get_floor_collision_enabled();
  if (what == 0) vf_assume(!on);
  else vf_assume(on);
  Dynamics<T, N> d = s.get_dynamics_const();
  Simulator<T, N> o = s;
  V3<T> ext = s.get_external_force();
  // a vehicle below the floor is held up against its weight
  if (on && d.get_state().kinematics.position.z() < h) ext = -p.gravity * p.vehicle_mass;
  d.process_euler_explicit(s.get_actuation_motors_angular_velocity(), dt, ext, true);
  State<T, N> f = d.get_state();
  if (what == 1) vf_assume(f.kinematics.position.z() >= h);
  if (what == 2) vf_assume(f.kinematics.position.z() < h);
  s.update_dynamics(dt);
  const State<T, N> &g = s.get_state();
  if (what == 2) {
    vf_eq("x of the step", 0, g.kinematics.position.x(), f.kinematics.position.x());
    vf_eq("y of the step", 0, g.kinematics.position.y(), f.kinematics.position.y());
    vf_eq("on the floor", 0, g.kinematics.position.z(), h);
    eq("attitude of the step", g.kinematics.orientation, f.kinematics.orientation);
    zero("at rest: linear velocity", g.kinematics.linear_velocity);
    zero("at rest: angular velocity", g.kinematics.angular_velocity);
    zero("at rest: linear acceleration", g.kinematics.linear_acceleration);
    zero("at rest: angular acceleration", g.kinematics.angular_acceleration);
    eq("force of the step", g.dynamics.force, f.dynamics.force);
    eq("torque of the step", g.dynamics.torque, f.dynamics.torque);
    eq("motor speeds of the step", g.actuators.motor_angular_velocity, f.actuators.motor_angular_velocity);
    eq("motor accelerations of the step", g.actuators.motor_angular_acceleration, f.actuators.motor_angular_acceleration);
    o.get_imu().reset();
    o.get_inertial_odometry().set_initial_orientation(f.kinematics.orientation);
    o.get_inertial_odometry().reset();
    zero("odometry restarts at the origin", s.get_odometry().position);
    eq("odometry restarts with the vehicle's attitude", s.get_odometry().orientation, f.kinematics.orientation);
    zero("odometry restarts at rest", s.get_odometry().linear_velocity);
  } else {
    eq_state<T, N>(g, f);
  }
  if (what != 0) vf_true("never below the floor", 0, g.kinematics.position.z() >= h);
  zero("external force is used up", s.get_external_force());
  frame<T, N>(s, o, STATE | FORCE);
}
// noise: on while flying, off in the step after a contact, on again
template <class T, int N> void noise_gate() {
  SimulatorParams<T, N> sp;
  auto &mp = sp.dynamics_params.model_params;
  mp.vehicle_mass = real<T>("mass");
  mp.vehicle_inertia = M3<T>::Identity();
  mp.gravity = V3<T>::Zero();
  mp.force_process_noise_auto_correlation = real<T>("S_force");
  mp.moment_process_noise_auto_correlation = real<T>("S_moment");
  vf_assume(mp.vehicle_mass > 0);
  vf_assume(mp.force_process_noise_auto_correlation > 0);
  vf_assume(mp.moment_process_noise_auto_correlation > 0);
  Simulator<T, N> s(sp);
  T h = real<T>("h"), dt = short_step<T>();
  s.enable_floor_collision(h);
  State<T, N> st;
  st.kinematics.position.z() = real<T>("z0");
  st.kinematics.linear_velocity.z() = real<T>("v0");
  vf_assume(real<T>("z0") >= h);
  vf_assume(real<T>("z0") + real<T>("v0") * dt < h);
  s.get_dynamics().set_state(st);
  Dynamics<T, N> d = s.get_dynamics_const();
  VN<T, N> cmd = VN<T, N>::Zero();
  V3<T> none = V3<T>::Zero();
  d.process_euler_explicit(cmd, dt, none, true);
  s.update_dynamics(dt);
  eq("noise while flying", s.get_state().dynamics.force, d.get_state().dynamics.force);
  d = s.get_dynamics_const();
  d.process_euler_explicit(cmd, dt, none, false);
  s.update_dynamics(dt);
  eq("no noise after a contact", s.get_state().dynamics.force, d.get_state().dynamics.force);
  vf_eq("still on the floor", 0, s.get_state().kinematics.position.z(), h);
  d = s.get_dynamics_const();
  d.process_euler_explicit(cmd, dt, none, true);
  s.update_dynamics(dt);
  eq("noise again", s.get_state().dynamics.force, d.get_state().dynamics.force);
}
template <class T, int N> void switches() {
  Simulator<T, N> s;
  any_sim<T, N>(s);
  Simulator<T, N> o = s;
  s.enable_floor_collision(real<T>("h"));
  vf_true("enabled", 0, s.get_floor_collision_enabled());
  eq("height", s.get_floor_height(), real<T>("h"));
  frame<T, N>(s, o, FLAGS | FORCE);
  vf_true("armed kept", 0, s.get_armed() == o.get_armed());
  zero("no leftover force", s.get_external_force());
  s.disable_floor_collision();
  vf_true("disabled", 0, !s.get_floor_collision_enabled());
  frame<T, N>(s, o, FLAGS | FORCE);
  vf_true("armed kept", 1, s.get_armed() == o.get_armed());
  zero("no leftover force", s.get_external_force());
  s.enable_floor_collision();
  eq("default height", s.get_floor_height(), 0);
}
VF_ENTRY(C02_disabled_d4, (step<double, 4>(0)))
VF_ENTRY(C02_above_d4, (step<double, 4>(1)))
VF_ENTRY(C02_contact_d4, (step<double, 4>(2)))
VF_ENTRY(C02_contact_d6, (step<double, 6>(2)))
VF_ENTRY(C02_contact_d8, (step<double, 8>(2)))
VF_ENTRY(C02_contact_f4, (step<float, 4>(2)))
VF_ENTRY(C02_above_f4, (step<float, 4>(1)))
VF_ENTRY(C02_noise_d4, (noise_gate<double, 4>()))
VF_ENTRY(C02_switches_d4, (switches<double, 4>()))
#endif

#ifdef VF_ONLY_C03  // ---- the control mode selects the law and its references
template <class T, int N> void dispatch(ControlMode mode, bool rate) {
  Simulator<T, N> s;
  any_sim<T, N>(s);
  vf_assume(s.get_armed());
  vf_assume(s.get_control_mode() == mode);
  vf_assume(s.get_yaw_control_mode() == (rate ? YawControlMode::RATE : YawControlMode::ANGLE));
  Simulator<T, N> o = s;
  T dt = real<T>("dt");
  vf_assume(dt > 0);
  Controller<T, N> c = s.get_controller_const();
  auto &k = o.get_state().kinematics;
  M3<T> R = rot<T>(k.orientation);
  T yaw = rate ? T(c.yaw_rate_to_angle(yaw_of<T, N>(o), o.get_reference_yaw_rate())) : o.get_reference_yaw();
  s.update_controller(dt);
  VN<T, N> w;
  switch (mode) {
    case ControlMode::MOTOR_W: w = o.get_reference_motors_angular_velocity(); break;
    case ControlMode::ACRO:
      w = c.compute_acro_control(k.angular_velocity, o.get_reference_thrust(), o.get_reference_angular_velocity(), dt);
      break;
    case ControlMode::TRAJECTORY:
      w = c.compute_trajectory_control(k.position, k.linear_velocity, R, k.angular_velocity, o.get_reference_position(),
                                       o.get_reference_velocity(), o.get_reference_acceleration(), yaw, dt);
      break;
    case ControlMode::VELOCITY:
      w = c.compute_velocity_control(k.linear_velocity, R, k.angular_velocity, o.get_reference_velocity(), yaw, dt);
      break;
    default:  // hovering is holding the reference position
      w = c.compute_position_control(k.position, R, k.linear_velocity, k.angular_velocity, o.get_reference_position(), yaw, dt);
  }
  eq("motor command", s.get_actuation_motors_angular_velocity(), w);
  same("memory of the loops", s.get_controller_const(), c);
  frame<T, N>(s, o, COMMAND | CTRL | (rate ? REFS : 0));
}
#define MODE(m) VF_ENTRY(C03_##m##_d4, (dispatch<double, 4>(ControlMode::m, false)))
MODE(MOTOR_W)
MODE(ACRO)
MODE(TRAJECTORY)
MODE(VELOCITY)
MODE(POSITION)
MODE(HOVER)
VF_ENTRY(C03_TRAJECTORY_RATE_d4, (dispatch<double, 4>(ControlMode::TRAJECTORY, true)))
VF_ENTRY(C03_VELOCITY_RATE_d4, (dispatch<double, 4>(ControlMode::VELOCITY, true)))
VF_ENTRY(C03_POSITION_RATE_d4, (dispatch<double, 4>(ControlMode::POSITION, true)))
VF_ENTRY(C03_HOVER_RATE_d4, (dispatch<double, 4>(ControlMode::HOVER, true)))
VF_ENTRY(C03_MOTOR_W_RATE_d4, (dispatch<double, 4>(ControlMode::MOTOR_W, true)))
VF_ENTRY(C03_ACRO_RATE_d4, (dispatch<double, 4>(ControlMode::ACRO, true)))
VF_ENTRY(C03_ACRO_d6, (dispatch<double, 6>(ControlMode::ACRO, false)))
VF_ENTRY(C03_ACRO_d8, (dispatch<double, 8>(ControlMode::ACRO, false)))
VF_ENTRY(C03_POSITION_d6, (dispatch<double, 6>(ControlMode::POSITION, false)))
VF_ENTRY(C03_POSITION_d8, (dispatch<double, 8>(ControlMode::POSITION, false)))
VF_ENTRY(C03_TRAJECTORY_f4, (dispatch<float, 4>(ControlMode::TRAJECTORY, false)))
VF_ENTRY(C03_VELOCITY_f4, (dispatch<float, 4>(ControlMode::VELOCITY, false)))
#endif

#ifdef VF_ONLY_C04  // ---- a change of mode starts from where the vehicle is
template <class T, int N> void change(int what) {
  Simulator<T, N> s;
  any_sim<T, N>(s);
  Simulator<T, N> o = s;
  auto m = static_cast<ControlMode>(vf_int("mode", 0));
  auto y = static_cast<YawControlMode>(vf_int("ymode", 0));
  bool same_mode = o.get_control_mode() == m, same_yaw = o.get_yaw_control_mode() == y;
  if (what == 0) {
    vf_assume(same_mode);
    vf_assume(same_yaw);
  }
  if (what == 1) vf_assume(!same_mode);
  if (what == 2) vf_assume(!same_yaw);
  s.set_control_mode(m, y);
  vf_eqi("mode", 0, s.get_control_mode(), m);
  vf_eqi("yaw mode", 0, s.get_yaw_control_mode(), y);
  if (what == 0) {
    frame<T, N>(s, o, 0);
    return;
  }
  eq("hold the position", s.get_reference_position(), o.get_state().kinematics.position);
  eq("hold the heading", s.get_reference_yaw(), yaw_of<T, N>(o));
  zero("no velocity", s.get_reference_velocity());
  zero("no acceleration", s.get_reference_acceleration());
  zero("no rates", s.get_reference_angular_velocity());
  eq("no thrust", s.get_reference_thrust(), 0);
  eq("motor reference kept", s.get_reference_motors_angular_velocity(), o.get_reference_motors_angular_velocity());
  eq("yaw rate kept", s.get_reference_yaw_rate(), o.get_reference_yaw_rate());
  frame<T, N>(s, o, REFS);
}
template <class T, int N> void one_argument() {
  Simulator<T, N> s;
  any_sim<T, N>(s);
  Simulator<T, N> o = s;
  auto m = static_cast<ControlMode>(vf_int("mode", 0));
  s.set_control_mode(m);
  o.set_control_mode(m, YawControlMode::ANGLE);
  frame<T, N>(s, o, 0);
}
VF_ENTRY(C04_again_d4, (change<double, 4>(0)))
VF_ENTRY(C04_mode_d4, (change<double, 4>(1)))
VF_ENTRY(C04_yaw_d4, (change<double, 4>(2)))
VF_ENTRY(C04_mode_d6, (change<double, 6>(1)))
VF_ENTRY(C04_mode_d8, (change<double, 8>(1)))
VF_ENTRY(C04_mode_f4, (change<float, 4>(1)))
VF_ENTRY(C04_angle_d4, (one_argument<double, 4>()))
#endif

#ifdef VF_ONLY_C05  // ---- yaw rate
template <class T, int N> void rate(bool gain, ControlMode mode) {
  Simulator<T, N> s;
  any_sim<T, N>(s);
  vf_assume(s.get_armed());
  vf_assume(s.get_control_mode() == mode);
  vf_assume(s.get_yaw_control_mode() == YawControlMode::RATE);
  T kp = s.get_controller().get_acro_controller().get_kp_rot()(2, 2);
  if (gain) vf_assume(kp != T(0));
  else vf_assume(kp == T(0));
  Simulator<T, N> o = s;
  T dt = real<T>("dt");
  vf_assume(dt > 0);
  s.update_controller(dt);
  T y = yaw_of<T, N>(o);
  if (gain) vf_eq("heading ahead of the vehicle by rate / gain", 0, s.get_reference_yaw(), y + o.get_reference_yaw_rate() / kp);
  else vf_eq("without gain, the present heading", 0, s.get_reference_yaw(), y);
  eq("rate kept", s.get_reference_yaw_rate(), o.get_reference_yaw_rate());
  eq("position kept", s.get_reference_position(), o.get_reference_position());
  eq("velocity kept", s.get_reference_velocity(), o.get_reference_velocity());
  eq("acceleration kept", s.get_reference_acceleration(), o.get_reference_acceleration());
  eq("body rates kept", s.get_reference_angular_velocity(), o.get_reference_angular_velocity());
  eq("thrust kept", s.get_reference_thrust(), o.get_reference_thrust());
  eq("motors kept", s.get_reference_motors_angular_velocity(), o.get_reference_motors_angular_velocity());
}
template <class T, int N> void convert() {
  Controller<T, N> c;
  arbitrary("controller", c);
  T kp = c.get_acro_controller().get_kp_rot()(2, 2), y = real<T>("y"), r = real<T>("r");
  Controller<T, N> o = c;
  T v = c.yaw_rate_to_angle(y, r);
  vf_eq("conversion", 0, v, kp == T(0) ? y : y + r / kp);
  same("no side effect", c, o);
}
#define RATE(m)                                                 \
  VF_ENTRY(C05_rate_##m##_d4, (rate<double, 4>(true, ControlMode::m))) \
  VF_ENTRY(C05_nogain_##m##_d4, (rate<double, 4>(false, ControlMode::m)))
RATE(MOTOR_W)
RATE(ACRO)
RATE(TRAJECTORY)
RATE(VELOCITY)
RATE(POSITION)
RATE(HOVER)
VF_ENTRY(C05_rate_f4, (rate<float, 4>(true, ControlMode::ACRO)))
VF_ENTRY(C05_rate_d8, (rate<double, 8>(true, ControlMode::VELOCITY)))
VF_ENTRY(C05_convert_d4, (convert<double, 4>()))
VF_ENTRY(C05_convert_d6, (convert<double, 6>()))
VF_ENTRY(C05_convert_d8, (convert<double, 8>()))
#endif

#ifdef VF_ONLY_C06  // ---- setters do what they say and nothing else
template <class T, int N> void setter(int op) {
  Simulator<T, N> s;
  any_sim<T, N>(s);
  Simulator<T, N> o = s;
  VN<T, N> mw = o.get_reference_motors_angular_velocity();
  T th = o.get_reference_thrust(), yaw = o.get_reference_yaw(), yr = o.get_reference_yaw_rate();
  V3<T> w = o.get_reference_angular_velocity(), p = o.get_reference_position(), v = o.get_reference_velocity(),
        a = o.get_reference_acceleration();
  switch (op) {
    case 0: s.set_refence_motors_angular_velocity(mw = mat<VN<T, N>>("x")); break;
    case 1: s.set_reference_acro(th = real<T>("x"), w = vec3<T>("y")); break;
    case 2: s.set_reference_trajectory(p = vec3<T>("x"), v = vec3<T>("y"), a = vec3<T>("z")); break;
    case 3: s.set_reference_velocity(v = vec3<T>("x")); break;
    case 4: s.set_reference_position(p = vec3<T>("x")); break;
    case 5: s.set_reference_yaw_angle(yaw = real<T>("x")); break;
    case 6: s.set_reference_yaw_rate(yr = real<T>("x")); break;
  }
  eq("reference motor speeds", s.get_reference_motors_angular_velocity(), mw);
  eq("reference thrust", s.get_reference_thrust(), th);
  eq("reference rates", s.get_reference_angular_velocity(), w);
  eq("reference position", s.get_reference_position(), p);
  eq("reference velocity", s.get_reference_velocity(), v);
  eq("reference acceleration", s.get_reference_acceleration(), a);
  eq("reference yaw", s.get_reference_yaw(), yaw);
  eq("reference yaw rate", s.get_reference_yaw_rate(), yr);
  vf_eqi("control mode kept", 0, s.get_control_mode(), o.get_control_mode());
  vf_eqi("yaw mode kept", 0, s.get_yaw_control_mode(), o.get_yaw_control_mode());
  frame<T, N>(s, o, REFS);
}
// a component rebuilt from parameters is the component those parameters describe; the others are kept
template <class T, int N> void rebuilt(int op) {
  Simulator<T, N> s;
  any_sim<T, N>(s);
  Simulator<T, N> o = s;
  if (op == 0) {
    DynamicsParams<T, N> p;
    p.model_params = any_params<T, N>();
    vf_assume(p.model_params.vehicle_mass > 0);
    Model<T, N> probe;
    vf_assume(probe.check_params(p.model_params));
    p.model_seed = vf_int("seed", 0);
    p.state = any_state<T, N>();
    p.state.kinematics.position = vec3<T>("start");
    s.set_dynamics_params(p);
    Dynamics<T, N> d(p);
    eq_state<T, N>(s.get_state(), p.state);
    eq_params<T, N>(s.get_dynamics().get_model().get_params(), p.model_params);
    same("vehicle", s.get_dynamics_const(), d);
    frame<T, N>(s, o, STATE);
  } else if (op == 1) {
    auto p = any_controller<T, N>();
    s.set_controller_params(p);
    Controller<T, N> c(p);
    same("controller", s.get_controller_const(), c);
    frame<T, N>(s, o, CTRL);
  } else if (op == 2) {
    imu::IMUParams<T> p;
    p.gyro_noise_var = real<T>("vg");
    p.accel_noise_var = real<T>("va");
    p.gyro_bias_noise_autocorr_time = real<T>("cg");
    p.accel_bias_noise_autocorr_time = real<T>("ca");
    p.imu_orientation = quat<T>("mount");
    p.seed = vf_int("seed", 0);
    s.set_imu_params(p);
    imu::IMU<T> u(p);
    same("inertial sensor", s.get_imu_const(), u);
    frame<T, N>(s, o, SENSORS);
    same("odometry kept", s.get_inertial_odometry_const(), o.get_inertial_odometry_const());
  } else {
    imu::InertialOdometryParams<T> p;
    p.alpha = real<T>("alpha");
    p.initial_world_orientation = quat<T>("start");
    s.set_inertial_odometry_params(p);
    imu::InertialOdometry<T> u(p);
    same("odometry", s.get_inertial_odometry_const(), u);
    frame<T, N>(s, o, SENSORS);
    same("inertial sensor kept", s.get_imu_const(), o.get_imu_const());
  }
}
template <class T, int N> void setters() {
  for (int i = 0; i < 7; i++) setter<T, N>(i);
}
VF_ENTRY(C06_references_d4, (setters<double, 4>()))
VF_ENTRY(C06_references_d6, (setters<double, 6>()))
VF_ENTRY(C06_references_d8, (setters<double, 8>()))
VF_ENTRY(C06_references_f4, (setters<float, 4>()))
VF_ENTRY(C06_dynamics_d4, (rebuilt<double, 4>(0)))
VF_ENTRY(C06_controller_d4, (rebuilt<double, 4>(1)))
VF_ENTRY(C06_imu_d4, (rebuilt<double, 4>(2)))
VF_ENTRY(C06_odometry_d4, (rebuilt<double, 4>(3)))
#endif

#if defined(VF_ONLY_C19) || defined(VF_ONLY_C40)
template <class T, int N> SimulatorParams<T, N> some_params() {
  SimulatorParams<T, N> sp;
  auto &mp = sp.dynamics_params.model_params;
  mp = any_params<T, N>();
  Model<T, N> probe;
  vf_assume(probe.check_params(mp));
  sp.dynamics_params.model_seed = vf_int("seed", 0);
  sp.dynamics_params.state = any_state<T, N>();
  sp.imu_params.gyro_noise_var = real<T>("vg");
  sp.imu_params.accel_noise_var = real<T>("va");
  sp.imu_params.gyro_bias_noise_autocorr_time = real<T>("cg");
  sp.imu_params.accel_bias_noise_autocorr_time = real<T>("ca");
  sp.imu_params.imu_orientation = quat<T>("mount");
  sp.imu_params.seed = vf_int("imu_seed", 0);
  sp.inertial_odometry_params.alpha = real<T>("alpha");
  sp.inertial_odometry_params.initial_world_orientation = quat<T>("start");
  sp.controller_params = any_controller<T, N>();
  return sp;
}
#endif

#ifdef VF_ONLY_C19  // ---- reproducibility and independence
template <class T, int N> void run(Simulator<T, N> &s, T dt, ControlMode mode, YawControlMode yaw = YawControlMode::ANGLE) {
  s.set_control_mode(mode, yaw);
  s.arm();
  s.set_refence_motors_angular_velocity(mat<VN<T, N>>("rm"));
  s.set_reference_acro(real<T>("rt"), vec3<T>("rw"));
  s.set_reference_trajectory(vec3<T>("rp"), vec3<T>("rv"), vec3<T>("ra"));
  s.set_reference_yaw_angle(real<T>("ry"));
  s.set_reference_yaw_rate(real<T>("rr"));
  s.update_controller(dt);
  s.update_dynamics(dt);
  s.update_imu(dt);
  s.update_inertial_odometry(dt);
}
template <class T, int N> void alike(const Simulator<T, N> &a, const Simulator<T, N> &b) {
  frame<T, N>(a, b, 0);
}
// two simulators with the same parameters, one after the other
template <class T, int N> void twins(ControlMode mode) {
  auto sp = some_params<T, N>();
  T dt = short_step<T>();
  vf_events("start");
  Simulator<T, N> a(sp), b(sp);
  for (int i = 0; i < 1; i++) run<T, N>(a, dt, mode);
  for (int i = 0; i < 1; i++) run<T, N>(b, dt, mode);
  vf_events("none:nothing outside the simulator decides its evolution");
  alike<T, N>(a, b);
}
// a copy, at any moment of any history, goes on like the original and leaves it alone
template <class T, int N> void copies(ControlMode mode, bool assign, YawControlMode yaw = YawControlMode::ANGLE) {
  Simulator<T, N> a;
  any_sim<T, N>(a);
  vf_assume(a.get_armed());
  vf_assume(a.get_control_mode() == mode);
  vf_assume(a.get_yaw_control_mode() == yaw);
  T dt = short_step<T>();
  Simulator<T, N> b = a, frozen = a;
  if (assign) {
    SimulatorParams<T, N> sp;
    Simulator<T, N> c(sp);
    c = a;
    b = c;
  }
  vf_events("start");
  run<T, N>(b, dt, mode, yaw);
  vf_events("none:nothing outside the simulator decides its evolution");
  alike<T, N>(a, frozen);
  run<T, N>(a, dt, mode, yaw);
  alike<T, N>(a, b);
}
// the same while disarmed, where only the vehicle and its sensors go on
template <class T, int N> void idle() {
  Simulator<T, N> a;
  any_sim<T, N>(a);
  vf_assume(!a.get_armed());
  T dt = short_step<T>();
  Simulator<T, N> b = a, frozen = a;
  auto go = [&](Simulator<T, N> &s) {
    s.update_controller(dt);
    s.update_dynamics(dt);
    s.update_imu(dt);
    s.update_inertial_odometry(dt);
  };
  vf_events("start");
  go(b);
  vf_events("none:nothing outside the simulator decides its evolution");
  alike<T, N>(a, frozen);
  go(a);
  alike<T, N>(a, b);
}
// a copy owns all it needs: what later becomes of the original is nothing to it
template <class T, int N> void outlives(ControlMode mode, int how) {
  auto sp = some_params<T, N>();
  T dt = short_step<T>();
  auto *a = new Simulator<T, N>(sp);
  SimulatorParams<T, N> blank;
  for (auto &m : blank.dynamics_params.model_params.motors_params) m.max_speed = 7, m.time_constant = 3;
  Simulator<T, N> e;
  if (how == 2) e = *a;
  Simulator<T, N> b = how == 1 ? std::move(*a) : how == 2 ? e : *a;
  Simulator<T, N> c(sp);
  run<T, N>(c, dt, mode);
  *a = Simulator<T, N>(blank);
  e = *a;
  run<T, N>(b, dt, mode);
  alike<T, N>(c, b);
  delete a;
  Simulator<T, N> d = b;
  run<T, N>(b, dt, mode);
  run<T, N>(d, dt, mode);
  alike<T, N>(d, b);
}
// the seeds reach the generators
template <class T, int N> void seeds() {
  auto sp = some_params<T, N>();
  Simulator<T, N> s(sp);
  Model<T, N> m(sp.dynamics_params.model_params, sp.dynamics_params.model_seed);
  imu::IMU<T> u(sp.imu_params);
  u.set_random_seed(sp.imu_params.seed);
  T dt = short_step<T>();
  m.set_stochastic_noise(dt);
  s.update_dynamics(dt);
  eq("process noise of the seed", s.get_dynamics().get_model().get_stochastic_force(), m.get_stochastic_force());
  eq("process noise of the seed", s.get_dynamics().get_model().get_stochastic_moment(), m.get_stochastic_moment());
  V3<T> a, b, c, d;
  imu::IMU<T> v(sp.imu_params);
  v.get_bias(a, b);
  s.get_imu().get_bias(c, d);
  eq("sensor bias of the seed", c, a);
  eq("sensor bias of the seed", d, b);
}
VF_ENTRY(C19_twins_acro_d4, (twins<double, 4>(ControlMode::ACRO)))
VF_ENTRY(C19_twins_position_d4, (twins<double, 4>(ControlMode::POSITION)))
VF_ENTRY(C19_twins_trajectory_d4, (twins<double, 4>(ControlMode::TRAJECTORY)))
VF_ENTRY(C19_twins_velocity_d4, (twins<double, 4>(ControlMode::VELOCITY)))
VF_ENTRY(C19_twins_motor_d4, (twins<double, 4>(ControlMode::MOTOR_W)))
VF_ENTRY(C19_twins_position_f4, (twins<float, 4>(ControlMode::POSITION)))
VF_ENTRY(C19_copy_position_d4, (copies<double, 4>(ControlMode::POSITION, false)))
VF_ENTRY(C19_copy_velocity_d4, (copies<double, 4>(ControlMode::VELOCITY, true)))
VF_ENTRY(C19_copy_trajectory_d4, (copies<double, 4>(ControlMode::TRAJECTORY, false)))
VF_ENTRY(C19_copy_hover_rate_d4, (copies<double, 4>(ControlMode::HOVER, false, YawControlMode::RATE)))
VF_ENTRY(C19_copy_motor_rate_f4, (copies<float, 4>(ControlMode::MOTOR_W, false, YawControlMode::RATE)))
VF_ENTRY(C19_idle_d4, (idle<double, 4>()))
VF_ENTRY(C19_copy_acro_d6, (copies<double, 6>(ControlMode::ACRO, true)))
VF_ENTRY(C19_copy_acro_d8, (copies<double, 8>(ControlMode::ACRO, true)))
VF_ENTRY(C19_outlives_d2, (outlives<double, 2>(ControlMode::MOTOR_W, 0)))
VF_ENTRY(C19_moved_d2, (outlives<double, 2>(ControlMode::ACRO, 1)))
VF_ENTRY(C19_assigned_d2, (outlives<double, 2>(ControlMode::MOTOR_W, 2)))
VF_ENTRY(C19_seeds_d4, (seeds<double, 4>()))
#endif

#ifdef VF_ONLY_C23  // ---- what the simulator feeds its sensors
template <class T, int N> void sensor() {
  Simulator<T, N> s;
  any_sim<T, N>(s);
  T mass = s.get_dynamics().get_model().get_mass();
  vf_assume(mass > 0);
  Simulator<T, N> o = s;
  T dt = real<T>("dt");
  vf_assume(dt > 0);
  s.update_imu(dt);
  imu::IMU<T> u = o.get_imu_const();
  V3<T> f = tmul<T>(rot<T>(o.get_state().kinematics.orientation), V3<T>(o.get_state().dynamics.force));
  u.update(dt, V3<T>(f[0] / mass, f[1] / mass, f[2] / mass), o.get_state().kinematics.angular_velocity);
  eq("gyroscope", s.get_imu().get_measurement_gyro(), u.get_measurement_gyro());
  eq("accelerometer", s.get_imu().get_measurement_accel(), u.get_measurement_accel());
  V3<T> a, b, c, d;
  s.get_imu().get_bias(a, b);
  u.get_bias(c, d);
  eq("gyroscope bias", a, c);
  eq("accelerometer bias", b, d);
  frame<T, N>(s, o, SENSORS);
  same("odometry kept", s.get_inertial_odometry_const(), o.get_inertial_odometry_const());
  s.get_imu_measurement(a, b);
  eq("gyroscope of the simulator", a, u.get_measurement_gyro());
  eq("accelerometer of the simulator", b, u.get_measurement_accel());
}
template <class T, int N> void odometry() {
  Simulator<T, N> s;
  any_sim<T, N>(s);
  auto q = quat<T>("oq");
  s.get_inertial_odometry().set_initial_orientation(q);
  Simulator<T, N> o = s;
  T dt = real<T>("dt");
  s.update_inertial_odometry(dt);
  imu::InertialOdometry<T> u = o.get_inertial_odometry_const();
  V3<T> g, a;
  o.get_imu_measurement(g, a);
  u.update(g, a, dt);
  auto k = s.get_odometry();
  eq("position", k.position, u.get_position());
  eq("orientation", k.orientation, u.get_orientation());
  eq("linear velocity", k.linear_velocity, u.get_linear_velocity());
  eq("angular velocity", k.angular_velocity, u.get_angular_velocity());
  eq("linear acceleration", k.linear_acceleration, u.get_linear_acceleration());
  frame<T, N>(s, o, SENSORS);
  same("inertial sensor kept", s.get_imu_const(), o.get_imu_const());
}
// an ideal chain tracks the vehicle: ideal sensor, no filter, odometry started at the vehicle's attitude
template <class T, int N> void ideal() {
  SimulatorParams<T, N> sp;
  sp.dynamics_params.model_params = any_params<T, N>();
  auto &mp = sp.dynamics_params.model_params;
  mp.force_process_noise_auto_correlation = mp.moment_process_noise_auto_correlation = 0;
  vf_assume(mp.vehicle_mass > 0);
  sp.imu_params.gyro_noise_var = sp.imu_params.accel_noise_var = 0;
  sp.imu_params.gyro_bias_noise_autocorr_time = sp.imu_params.accel_bias_noise_autocorr_time = 0;
  sp.inertial_odometry_params.alpha = 1;
  sp.inertial_odometry_params.initial_world_orientation = Eigen::Quaternion<T>::Identity();
  Simulator<T, N> s(sp);
  auto st = any_state<T, N>();
  s.get_dynamics().set_state(st);
  s.get_inertial_odometry().set_initial_orientation(st.kinematics.orientation);
  T dt = real<T>("dt");
  vf_assume(dt > 0);
  s.update_imu(dt);
  s.update_inertial_odometry(dt);
  auto k = s.get_odometry();
  for (int i = 0; i < 3; i++) {
    vf_eq("odometry acceleration is the vehicle's", i, k.linear_acceleration[i],
          st.dynamics.force[i] / s.get_dynamics().get_model().get_mass());
    vf_eq("odometry rate is the vehicle's", i, k.angular_velocity[i], st.kinematics.angular_velocity[i]);
  }
}
VF_ENTRY(C23_sensor_d4, (sensor<double, 4>()))
VF_ENTRY(C23_sensor_d6, (sensor<double, 6>()))
VF_ENTRY(C23_sensor_d8, (sensor<double, 8>()))
VF_ENTRY(C23_sensor_f4, (sensor<float, 4>()))
VF_ENTRY(C23_odometry_d4, (odometry<double, 4>()))
VF_ENTRY(C23_odometry_f4, (odometry<float, 4>()))
VF_ENTRY(C23_ideal_d4, (ideal<double, 4>()))
#endif

#ifdef VF_ONLY_C36  // ---- the ways of reading a value agree
template <class T, int N> void getters() {
  Simulator<T, N> s;
  any_sim<T, N>(s);
  Simulator<T, N> before = s;
  const Simulator<T, N> &o = s;
  State<T, N> st;
  o.get_state(st);
  eq_state<T, N>(st, o.get_state());
  eq_state<T, N>(o.get_state(), s.get_dynamics().get_state());
  s.get_dynamics().get_state(st);
  eq_state<T, N>(st, o.get_state());
  multirotor::state::internal::Kinematics<T> k = o.get_odometry(), l;
  o.get_odometry(l);
  auto &od = o.get_inertial_odometry_const();
  eq("odometry position", k.position, od.get_position());
  eq("odometry orientation", k.orientation, od.get_orientation());
  eq("odometry velocity", k.linear_velocity, od.get_linear_velocity());
  eq("odometry rates", k.angular_velocity, od.get_angular_velocity());
  eq("odometry acceleration", k.linear_acceleration, od.get_linear_acceleration());
  zero("odometry has no angular acceleration", k.angular_acceleration);
  same("odometry overloads", k, l);
  V3<T> g, a;
  o.get_imu_measurement(g, a);
  eq("gyro", g, o.get_imu_const().get_measurement_gyro());
  eq("accel", a, o.get_imu_const().get_measurement_accel());
  bool b;
  T x;
  V3<T> v;
  VN<T, N> w;
  ControlMode m;
  YawControlMode y;
  o.get_armed(b);
  vf_true("armed", 0, b == o.get_armed());
  o.get_floor_collision_enabled(b);
  vf_true("floor enabled", 0, b == o.get_floor_collision_enabled());
  o.get_floor_height(x);
  eq("floor height", x, o.get_floor_height());
  o.get_reference_motors_angular_velocity(w);
  eq("reference motor speeds", w, o.get_reference_motors_angular_velocity());
  o.get_reference_thrust(x);
  eq("reference thrust", x, o.get_reference_thrust());
  o.get_reference_angular_velocity(v);
  eq("reference rates", v, o.get_reference_angular_velocity());
  o.get_reference_position(v);
  eq("reference position", v, o.get_reference_position());
  o.get_reference_velocity(v);
  eq("reference velocity", v, o.get_reference_velocity());
  o.get_reference_acceleration(v);
  eq("reference acceleration", v, o.get_reference_acceleration());
  o.get_reference_yaw(x);
  eq("reference yaw", x, o.get_reference_yaw());
  o.get_reference_yaw_rate(x);
  eq("reference yaw rate", x, o.get_reference_yaw_rate());
  o.get_actuation_motors_angular_velocity(w);
  eq("motor command", w, o.get_actuation_motors_angular_velocity());
  o.get_external_force(v);
  eq("external force", v, o.get_external_force());
  o.get_control_mode(m);
  vf_eqi("mode", 0, m, o.get_control_mode());
  o.get_yaw_control_mode(y);
  vf_eqi("yaw mode", 0, y, o.get_yaw_control_mode());
  Dynamics<T, N> d;
  o.get_dynamics(d);
  same("vehicle by copy", d, o.get_dynamics_const());
  same("vehicle by reference", s.get_dynamics(), o.get_dynamics_const());
  Controller<T, N> c;
  o.get_controller(c);
  same("controller by copy", c, o.get_controller_const());
  same("controller by reference", s.get_controller(), o.get_controller_const());
  imu::IMU<T> u;
  o.get_imu(u);
  same("sensor by copy", u, o.get_imu_const());
  same("sensor by reference", s.get_imu(), o.get_imu_const());
  imu::InertialOdometry<T> n;
  o.get_inertial_odometry(n);
  same("odometry by copy", n, o.get_inertial_odometry_const());
  same("odometry by reference", s.get_inertial_odometry(), o.get_inertial_odometry_const());
  Model<T, N> mo;
  o.get_dynamics_const().get_model(mo);
  same("model by copy", mo, o.get_dynamics_const().get_model_const());
  same("model by reference", s.get_dynamics().get_model(), o.get_dynamics_const().get_model_const());
  frame<T, N>(s, before, 0);
}
// pointer and reference setters of the vehicle
template <class T, int N> void pointers() {
  Dynamics<T, N> a, b;
  any_dynamics<T, N>(a);
  b = a;
  Dynamics<T, N> o = a;
  State<T, N> st;
  st.kinematics.position = vec3<T>("other");
  st.kinematics.linear_velocity = vec3<T>("otherv");
  a.set_state(st);
  b.set_state(&st);
  eq_state<T, N>(a.get_state(), st);
  eq_state<T, N>(b.get_state(), st);
  same("model kept", a.get_model_const(), o.get_model_const());
  b.set_state(static_cast<const State<T, N> *>(nullptr));
  eq_state<T, N>(b.get_state(), st);
  Model<T, N> m(ModelParams<T, N>(), 3);
  const_cast<ModelParams<T, N> &>(m.get_params()).vehicle_mass = real<T>("m2");
  a.set_model(m);
  b.set_model(&m);
  same("model set", a.get_model_const(), m);
  same("model set by pointer", b.get_model_const(), m);
  eq_state<T, N>(a.get_state(), st);
  b.set_model(static_cast<const Model<T, N> *>(nullptr));
  same("null model ignored", b.get_model_const(), m);
}
VF_ENTRY(C36_getters_d4, (getters<double, 4>()))
VF_ENTRY(C36_getters_d6, (getters<double, 6>()))
VF_ENTRY(C36_getters_d8, (getters<double, 8>()))
VF_ENTRY(C36_getters_f4, (getters<float, 4>()))
VF_ENTRY(C36_pointers_d4, (pointers<double, 4>()))
#endif

#ifdef VF_ONLY_C40  // ---- everything has a defined value from the start
template <class T, int N> void at_birth(const Simulator<T, N> &s) {
  vf_true("disarmed", 0, !s.get_armed());
  vf_true("no floor", 0, !s.get_floor_collision_enabled());
  eq("floor height", s.get_floor_height(), 0);
  zero("reference motor speeds", s.get_reference_motors_angular_velocity());
  eq("reference thrust", s.get_reference_thrust(), 0);
  zero("reference rates", s.get_reference_angular_velocity());
  zero("reference position", s.get_reference_position());
  zero("reference velocity", s.get_reference_velocity());
  zero("reference acceleration", s.get_reference_acceleration());
  eq("reference yaw", s.get_reference_yaw(), 0);
  eq("reference yaw rate", s.get_reference_yaw_rate(), 0);
  zero("motor command", s.get_actuation_motors_angular_velocity());
  zero("external force", s.get_external_force());
  vf_eqi("mode", 0, s.get_control_mode(), ControlMode::MOTOR_W);
  vf_eqi("yaw mode", 0, s.get_yaw_control_mode(), YawControlMode::ANGLE);
  zero("gyro", s.get_imu_const().get_measurement_gyro());
  zero("accel", s.get_imu_const().get_measurement_accel());
  auto k = s.get_odometry();
  zero("odometry position", k.position);
  zero("odometry velocity", k.linear_velocity);
  zero("odometry rates", k.angular_velocity);
  zero("odometry acceleration", k.linear_acceleration);
  zero("stochastic force", s.get_dynamics_const().get_model_const().get_stochastic_force());
  zero("stochastic moment", s.get_dynamics_const().get_model_const().get_stochastic_moment());
  zero("controller command", s.get_controller_const().get_desired_motor_angular_velocity());
}
template <class T, int N> void by_default() {
  Simulator<T, N> s;
  at_birth<T, N>(s);
  State<T, N> z;
  eq_state<T, N>(s.get_state(), z);
  zero("position", z.kinematics.position);
  eq("attitude", z.kinematics.orientation, Eigen::Quaternion<T>(1, 0, 0, 0));
  zero("velocity", z.kinematics.linear_velocity);
  zero("rates", z.kinematics.angular_velocity);
  zero("acceleration", z.kinematics.linear_acceleration);
  zero("angular acceleration", z.kinematics.angular_acceleration);
  zero("force", z.dynamics.force);
  zero("torque", z.dynamics.torque);
  zero("motor speeds", z.actuators.motor_angular_velocity);
  zero("motor accelerations", z.actuators.motor_angular_acceleration);
}
template <class T, int N> void from_params() {
  auto sp = some_params<T, N>();
  Simulator<T, N> s(sp);
  at_birth<T, N>(s);
  eq_state<T, N>(s.get_state(), sp.dynamics_params.state);
  eq_params<T, N>(s.get_dynamics().get_model().get_params(), sp.dynamics_params.model_params);
  eq("odometry attitude", s.get_odometry().orientation, sp.inertial_odometry_params.initial_world_orientation);
  T a, b;
  s.get_imu().get_variances(a, b);
  eq("gyro variance", a, sp.imu_params.gyro_noise_var);
  eq("accel variance", b, sp.imu_params.accel_noise_var);
  auto &c = s.get_controller();
  eq_pid<T>("position loop", c.get_position_controller_const().get_params(),
            sp.controller_params.position_controller_params.pid_params);
  eq_pid<T>("velocity loop", c.get_velocity_controller_const().get_params(),
            sp.controller_params.velocity_controller_params.pid_params);
  eq_pid<T>("trajectory loop", c.get_trajectory_controller_const().get_params(),
            sp.controller_params.trajectory_controller_params.pid_params);
  eq("attitude gain", c.get_acro_controller().get_kp_rot(), sp.controller_params.acro_controller_params.kp_rot);
}
VF_ENTRY(C40_default_d4, (by_default<double, 4>()))
VF_ENTRY(C40_default_d6, (by_default<double, 6>()))
VF_ENTRY(C40_default_d8, (by_default<double, 8>()))
VF_ENTRY(C40_default_f4, (by_default<float, 4>()))
VF_ENTRY(C40_params_d4, (from_params<double, 4>()))
VF_ENTRY(C40_params_d6, (from_params<double, 6>()))
VF_ENTRY(C40_params_d8, (from_params<double, 8>()))
VF_ENTRY(C40_params_f4, (from_params<float, 4>()))
#endif

#if defined(VF_ONLY_C42) || defined(VF_ONLY_C43)
// four level motors anywhere, with any coefficients
template <class T> ModelParams<T, 4> level_params() {
  ModelParams<T, 4> p = any_params<T, 4>();
  for (int i = 0; i < 4; i++) {
    p.motors_params[i].pose.linear() = M3<T>::Identity();
    auto &m = p.motors_params[i];
    vf_assume(m.thrust_coefficient > 0 && m.torque_coefficient >= 0 && m.rotational_inertia >= 0 && m.time_constant > 0 && m.max_speed >= m.min_speed);
  }
  vf_assume(p.vehicle_mass > 0 && p.vehicle_drag_coefficient >= 0);
  vf_assume(p.vehicle_inertia.determinant() > 0 && p.vehicle_aero_moment_coefficient.determinant() >= 0);
  return p;
}
#endif

#ifdef VF_ONLY_C42  // ---- the vehicle produces what the controller asks for
// 1. for any allocation and any inverse: force and torque of the commanded speeds are those of the allocated squared speeds
template <class T, int N> void speeds() {
  Model<T, N> m;
  any_model<T, N>(m);
  Indi<T, N> c;
  arbitrary("indi", c);
  auto B = mat<Eigen::Matrix<T, N, 6>>("allocation");
  c.update_mixer_matrix_inverse(B);
  c.update_inertia(M3<T>::Identity());
  // the angular acceleration asked for is arbitrary
  c.set_gains(V3<T>::Ones(), V3<T>::Zero(), V3<T>::Zero());
  c.disable_output_saturation();
  T th = real<T>("thrust");
  VN<T, N> u = c.acro_to_motor_angular_velocity(vec3<T>("w"), th, V3<T>::Zero(), T(0.01));
  V3<T> t = c.get_desired_torque();
  VN<T, N> s;
  for (int i = 0; i < N; i++) s[i] = B(i, 2) * th + B(i, 3) * t[0] + B(i, 4) * t[1] + B(i, 5) * t[2];
  Eigen::Matrix<T, 3, N> F = m.get_mixer_force_matrix(), Q = m.get_mixer_torque_matrix();
  VN<T, N> Z = m.get_mixer_force_vector();
  V3<T> f = m.get_force_vector_thrust_by_motors(u), q = m.get_torque_by_motors(u, VN<T, N>::Zero());
  T z = m.get_force_thrust_by_motors(u);
  V3<T> fs = V3<T>::Zero(), qs = V3<T>::Zero();
  T zs = 0;
  for (int i = 0; i < N; i++) {
    for (int k = 0; k < 3; k++) fs[k] += F(k, i) * s[i], qs[k] += Q(k, i) * s[i];
    zs += Z[i] * s[i];
  }
  eq("force of the commanded speeds", f, fs);
  eq("torque of the commanded speeds", q, qs);
  vf_eq("thrust of the commanded speeds", 0, z, zs);
}
// 2. the squared speeds allocated by a model's own inverse give the wrench asked for
template <class T> void wrench() {
  ModelParams<T, 4> p = level_params<T>();
  Model<T, 4> m(p);
  Eigen::Matrix<T, 4, 6> B = indi_controller::compute_quadrotor_mixer_matrix_inverse<T>(m.get_mixer_matrix());
  T th = real<T>("thrust");
  V3<T> t = vec3<T>("torque");
  VN<T, 4> s;
  for (int i = 0; i < 4; i++) s[i] = B(i, 2) * th + B(i, 3) * t[0] + B(i, 4) * t[1] + B(i, 5) * t[2];
  Eigen::Matrix<T, 3, 4> F = m.get_mixer_force_matrix(), Q = m.get_mixer_torque_matrix();
  VN<T, 4> Z = m.get_mixer_force_vector();
  V3<T> f = V3<T>::Zero(), q = V3<T>::Zero();
  T z = 0;
  for (int i = 0; i < 4; i++) {
    for (int k = 0; k < 3; k++) f[k] += F(k, i) * s[i], q[k] += Q(k, i) * s[i];
    z += Z[i] * s[i];
  }
  eq("force asked for", f, V3<T>(0, 0, th));
  eq("torque asked for", q, t);
  vf_eq("thrust asked for", 0, z, th);
}
VF_ENTRY(C42_speeds_d4, (speeds<double, 4>()))
VF_ENTRY(C42_speeds_d6, (speeds<double, 6>()))
VF_ENTRY(C42_wrench_d, (wrench<double>()))
VF_ENTRY(C42_wrench_f, (wrench<float>()))
#endif

#ifdef VF_ONLY_C43  // ---- hover is an equilibrium of the closed loop
template <class T> PidParams<T> any_gains(const char *n) {
  PidParams<T> p;
  havoc(n, p);
  p.upper_output_saturation.setZero();
  p.lower_output_saturation.setZero();
  for (int i = 0; i < 3; i++) vf_assume(p.antiwindup_cte[i] > 0);
  return p;
}
// 1. at rest, level, on target: each rotor is asked for its share of the weight and nothing else
template <class T> void command(int mode) {
  T m = real<T>("mass"), g = real<T>("g"), dt = real<T>("dt"), yaw = real<T>("yaw");
  vf_assume(m > 0 && g > 0 && dt > 0);
  SimulatorParams<T, 4> p;
  auto &cp = p.controller_params;
  cp.acro_controller_params.vehicle_mass = m;
  cp.acro_controller_params.kp_rot = mat<M3<T>>("kp_rot");
  cp.acro_controller_params.gravity = V3<T>(0, 0, -g);
  cp.indi_controller_params.inertia = mat<M3<T>>("inertia");
  auto B = mat<Eigen::Matrix<T, 4, 6>>("allocation");
  cp.indi_controller_params.mixer_matrix_inverse = B;
  cp.indi_controller_params.pid_params = any_gains<T>("pid_indi");
  cp.position_controller_params.pid_params = any_gains<T>("pid_pos");
  cp.trajectory_controller_params.pid_params = any_gains<T>("pid_traj");
  cp.velocity_controller_params.pid_params = any_gains<T>("pid_vel");
  // level, with the heading yaw
  T co = std::cos(yaw), si = std::sin(yaw);
  vf_assume(1 + co > 0);
  T w = std::sqrt((1 + co) / 2);
  auto &st = p.dynamics_params.state;
  st.kinematics.position = vec3<T>("p");
  st.kinematics.orientation = Eigen::Quaternion<T>(w, 0, 0, si / (2 * w));
  st.actuators.motor_angular_velocity = mat<VN<T, 4>>("speeds");
  Simulator<T, 4> sim(p);
  sim.arm();
  sim.set_control_mode(static_cast<ControlMode>(mode));
  sim.set_reference_yaw_angle(yaw);
  sim.set_reference_position(st.kinematics.position);
  sim.set_reference_trajectory(st.kinematics.position, V3<T>::Zero(), V3<T>::Zero());
  for (int k = 0; k < 2; k++) {
    sim.update_controller(dt);
    VN<T, 4> u = sim.get_actuation_motors_angular_velocity();
    for (int i = 0; i < 4; i++) {
      T q = B(i, 2) * (m * g);
      vf_eq("each rotor is asked for its share of the weight", i, u[i], q < 0 ? -std::sqrt(-q) : std::sqrt(q));
    }
  }
}
// 2. rotors carrying the weight keep the vehicle where it is
template <class T> void vehicle(bool plus) {
  T kt = real<T>("kt"), kq = real<T>("kq"), x = real<T>("x"), y = real<T>("y"), lo = real<T>("lo"), hi = real<T>("hi");
  T tc = real<T>("tc"), ji = real<T>("ji"), m = real<T>("mass"), g = real<T>("g"), yaw = real<T>("yaw"), dt = short_step<T>();
  vf_assume(kt > 0 && kq > 0 && x > 0 && y > 0 && tc > 0 && ji >= 0 && m > 0 && g > 0 && lo <= hi);
  SimulatorParams<T, 4> p;
  auto &mp = p.dynamics_params.model_params;
  mp = any_params<T, 4>();
  mp.motors_params = plus ? Model<T, 4>::create_quadrotor_plus_config(kt, kq, x, y, lo, hi, tc, ji)
                          : Model<T, 4>::create_quadrotor_x_config(kt, kq, x, y, lo, hi, tc, ji);
  mp.vehicle_mass = m;
  mp.gravity = V3<T>(0, 0, -g);
  mp.force_process_noise_auto_correlation = 0;
  mp.moment_process_noise_auto_correlation = 0;
  vf_assume(mp.vehicle_drag_coefficient >= 0);
  vf_assume(mp.vehicle_inertia.determinant() > 0);
  vf_assume(mp.vehicle_aero_moment_coefficient.determinant() >= 0);
  T h = std::sqrt(m * g / (4 * kt));
  vf_assume(lo <= h && h <= hi);
  T c = std::cos(yaw), s = std::sin(yaw);
  vf_assume(1 + c > 0);
  T w = std::sqrt((1 + c) / 2);
  auto &st = p.dynamics_params.state;
  st.kinematics.position = vec3<T>("p");
  st.kinematics.orientation = Eigen::Quaternion<T>(w, 0, 0, s / (2 * w));
  st.actuators.motor_angular_velocity = VN<T, 4>::Constant(h);
  Simulator<T, 4> sim(p);
  sim.arm();
  sim.set_control_mode(multirotor::MOTOR_W);
  sim.set_refence_motors_angular_velocity(VN<T, 4>::Constant(h));
  State<T, 4> before = sim.get_state();
  for (int k = 0; k < 2; k++) {
    sim.update_controller(dt);
    sim.update_dynamics(dt);
    const State<T, 4> &a = sim.get_state();
    eq("stays in place", a.kinematics.position, before.kinematics.position);
    eq("keeps its attitude", a.kinematics.orientation, before.kinematics.orientation);
    zero("no velocity", a.kinematics.linear_velocity);
    zero("no rotation", a.kinematics.angular_velocity);
    zero("no acceleration", a.kinematics.linear_acceleration);
    zero("no angular acceleration", a.kinematics.angular_acceleration);
    zero("forces balance", a.dynamics.force);
    zero("torques balance", a.dynamics.torque);
    eq("rotors keep their speed", a.actuators.motor_angular_velocity, before.actuators.motor_angular_velocity);
    zero("rotors do not accelerate", a.actuators.motor_angular_acceleration);
  }
}
// 3. an x or plus quadrotor shares the weight equally
template <class T> void share(bool plus) {
  T kt = real<T>("kt"), kq = real<T>("kq"), x = real<T>("x"), y = real<T>("y");
  vf_assume(kt > 0 && kq > 0 && x > 0 && y > 0);
  auto motors = plus ? Model<T, 4>::create_quadrotor_plus_config(kt, kq, x, y, T(0), T(1), T(1), T(0))
                     : Model<T, 4>::create_quadrotor_x_config(kt, kq, x, y, T(0), T(1), T(1), T(0));
  Eigen::Matrix<T, 4, 6> B = indi_controller::compute_quadrotor_mixer_matrix_inverse<T>(Model<T, 4>::template compute_mixer_matrix<6>(motors));
  for (int i = 0; i < 4; i++) vf_eq("a quarter of the thrust each", i, B(i, 2) * kt * 4, T(1));
}
VF_ENTRY(C43_share_x, (share<double>(false)))
VF_ENTRY(C43_share_plus, (share<double>(true)))
VF_ENTRY(C43_command_hover, (command<double>(multirotor::HOVER)))
VF_ENTRY(C43_command_position, (command<double>(multirotor::POSITION)))
VF_ENTRY(C43_command_velocity, (command<double>(multirotor::VELOCITY)))
VF_ENTRY(C43_command_trajectory, (command<double>(multirotor::TRAJECTORY)))
VF_ENTRY(C43_vehicle_x, (vehicle<double>(false)))
VF_ENTRY(C43_vehicle_plus, (vehicle<double>(true)))
#endif

#ifdef VF_ONLY_C44  // ---- what is not given is neutral
template <class T, int N> void neutral_params() {
  SimulatorParams<T, N> p;
  auto &m = p.dynamics_params.model_params;
  eq("no mass", m.vehicle_mass, 0);
  zero("no inertia", m.vehicle_inertia);
  eq("no drag", m.vehicle_drag_coefficient, 0);
  zero("no aerodynamic moment", m.vehicle_aero_moment_coefficient);
  eq("standard gravity downwards", m.gravity, V3<T>(0, 0, T(-9.81)));
  eq("no force noise", m.force_process_noise_auto_correlation, 0);
  eq("no moment noise", m.moment_process_noise_auto_correlation, 0);
  vf_eqi("one set per rotor", 0, long(m.motors_params.size()), N);
  multirotor::model::MotorParams<T> motor;
  for (int i = -1; i < N; i++) {
    auto &u = i < 0 ? motor : m.motors_params[i];
    eq("rotor without thrust", u.thrust_coefficient, 0);
    eq("rotor without torque", u.torque_coefficient, 0);
    eq("rotor range starts at zero", u.min_speed, 0);
    eq("rotor range ends at zero", u.max_speed, 0);
    eq("rotor without lag", u.time_constant, 0);
    eq("rotor without inertia", u.rotational_inertia, 0);
    vf_eqi("rotor direction", 0, u.motor_rotation_direction, 1);
    eq("rotor at the centre", V3<T>(u.pose.translation()), V3<T>(V3<T>::Zero()));
    eq("rotor level", M3<T>(u.pose.linear()), M3<T>(M3<T>::Identity()));
  }
  vf_eqi("model seed", 0, p.dynamics_params.model_seed, 0);
  eq_state<T, N>(p.dynamics_params.state, State<T, N>());
  auto &c = p.controller_params;
  eq("controller without mass", c.acro_controller_params.vehicle_mass, 0);
  zero("no attitude gain", c.acro_controller_params.kp_rot);
  eq("controller gravity", c.acro_controller_params.gravity, V3<T>(0, 0, T(-9.81)));
  zero("no controller inertia", c.indi_controller_params.inertia);
  zero("no allocation", c.indi_controller_params.mixer_matrix_inverse);
  const PidParams<T> *all[] = {&c.indi_controller_params.pid_params, &c.position_controller_params.pid_params,
                               &c.trajectory_controller_params.pid_params, &c.velocity_controller_params.pid_params};
  for (auto *g : all) {
    zero("no proportional gain", g->Kp_gains);
    zero("no integral gain", g->Ki_gains);
    zero("no derivative gain", g->Kd_gains);
    zero("no anti-windup", g->antiwindup_cte);
    eq("no derivative filter", g->alpha, V3<T>(V3<T>::Ones()));
    vf_true("no integral reset", 0, !g->reset_integral_flag);
    vf_true("no proportional saturation", 0, !g->proportional_saturation_flag);
    zero("no upper limit", g->upper_output_saturation);
    zero("no lower limit", g->lower_output_saturation);
  }
  auto &u = p.imu_params;
  eq("no gyroscope noise", u.gyro_noise_var, 0);
  eq("no accelerometer noise", u.accel_noise_var, 0);
  eq("no gyroscope walk", u.gyro_bias_noise_autocorr_time, 0);
  eq("no accelerometer walk", u.accel_bias_noise_autocorr_time, 0);
  eq("sensor aligned with the body", u.imu_orientation, Eigen::Quaternion<T>(1, 0, 0, 0));
  vf_eqi("sensor seed", 0, u.seed, 0);
  eq("no odometry filter", p.inertial_odometry_params.alpha, 1);
  eq("odometry starts aligned", p.inertial_odometry_params.initial_world_orientation, Eigen::Quaternion<T>(1, 0, 0, 0));
}
template <class T, int N> void neutral_state() {
  State<T, N> s;
  zero("at the origin", s.kinematics.position);
  eq("level", s.kinematics.orientation, Eigen::Quaternion<T>(1, 0, 0, 0));
  zero("at rest", s.kinematics.linear_velocity);
  zero("not rotating", s.kinematics.angular_velocity);
  zero("not accelerating", s.kinematics.linear_acceleration);
  zero("no angular acceleration", s.kinematics.angular_acceleration);
  zero("no force", s.dynamics.force);
  zero("no torque", s.dynamics.torque);
  zero("rotors still", s.actuators.motor_angular_velocity);
  zero("rotors not accelerating", s.actuators.motor_angular_acceleration);
}
template <class T, int N> void fresh_sim(bool by_default) {
  SimulatorParams<T, N> p;
  Simulator<T, N> a, b(p);
  Simulator<T, N> &s = by_default ? a : b;
  vf_true("disarmed", 0, !s.get_armed());
  vf_true("floor off", 0, !s.get_floor_collision_enabled());
  eq("floor at zero", s.get_floor_height(), 0);
  zero("no motor reference", s.get_reference_motors_angular_velocity());
  eq("no thrust reference", s.get_reference_thrust(), 0);
  zero("no rate reference", s.get_reference_angular_velocity());
  zero("no position reference", s.get_reference_position());
  zero("no velocity reference", s.get_reference_velocity());
  zero("no acceleration reference", s.get_reference_acceleration());
  eq("no yaw reference", s.get_reference_yaw(), 0);
  eq("no yaw rate reference", s.get_reference_yaw_rate(), 0);
  zero("no command", s.get_actuation_motors_angular_velocity());
  zero("no external force", s.get_external_force());
  vf_eqi("motor mode", 0, s.get_control_mode(), multirotor::MOTOR_W);
  vf_eqi("yaw angle mode", 0, s.get_yaw_control_mode(), multirotor::ANGLE);
  eq_state<T, N>(s.get_state(), State<T, N>());
  zero("gyroscope reads zero", s.get_imu_const().get_measurement_gyro());
  zero("accelerometer reads zero", s.get_imu_const().get_measurement_accel());
  zero("odometry at the origin", s.get_inertial_odometry_const().get_position());
  eq("odometry level", s.get_inertial_odometry_const().get_orientation(), Eigen::Quaternion<T>(1, 0, 0, 0));
}
// a vehicle given only a mass and an inertia falls freely and its sensors are exact
template <class T, int N> void free_fall() {
  SimulatorParams<T, N> p;
  T m = real<T>("mass"), dt = short_step<T>();
  vf_assume(m > 0);
  p.dynamics_params.model_params.vehicle_mass = m;
  p.dynamics_params.model_params.vehicle_inertia = M3<T>::Identity();
  for (auto &u : p.dynamics_params.model_params.motors_params) u.time_constant = 1;
  Simulator<T, N> s(p);
  T v = 0;
  for (int k = 0; k < 2; k++) {
    s.update_controller(dt);
    s.update_dynamics(dt);
    s.update_imu(dt);
    s.update_inertial_odometry(dt);
    auto &x = s.get_state();
    v += T(-9.81) * dt;
    eq("falls", x.kinematics.linear_velocity, V3<T>(0, 0, v));
    eq("with the acceleration of gravity", x.kinematics.linear_acceleration, V3<T>(0, 0, T(-9.81)));
    eq("stays level", x.kinematics.orientation, Eigen::Quaternion<T>(1, 0, 0, 0));
    zero("does not rotate", x.kinematics.angular_velocity);
    zero("rotors still", x.actuators.motor_angular_velocity);
    eq("measures the acceleration", s.get_imu_const().get_measurement_accel(), V3<T>(0, 0, T(-9.81)));
    zero("no rotation measured", s.get_imu_const().get_measurement_gyro());
  }
}
// a controller given gains only is a plain one
template <class T> void plain() {
  PidParams<T> g;
  g.Kp_gains = vec3<T>("kp");
  g.Ki_gains = vec3<T>("ki");
  g.Kd_gains = vec3<T>("kd");
  Pid<T> c(g);
  T dt = real<T>("dt");
  vf_assume(dt > 0);
  V3<T> e0 = vec3<T>("e0"), e1 = vec3<T>("e1");
  V3<T> u0 = c.compute_control(dt, e0), u1 = c.compute_control(dt, e1);
  for (int i = 0; i < 3; i++) {
    vf_eq("first output", i, u0[i], g.Kp_gains[i] * e0[i] + g.Ki_gains[i] * e0[i] * dt);
    vf_eq("second output", i, u1[i], g.Kp_gains[i] * e1[i] + g.Ki_gains[i] * (e0[i] + e1[i]) * dt + g.Kd_gains[i] * (e1[i] - e0[i]) / dt);
  }
}
VF_ENTRY(C44_params_d4, (neutral_params<double, 4>()))
VF_ENTRY(C44_params_d6, (neutral_params<double, 6>()))
VF_ENTRY(C44_params_d8, (neutral_params<double, 8>()))
VF_ENTRY(C44_params_f4, (neutral_params<float, 4>()))
VF_ENTRY(C44_state_d4, (neutral_state<double, 4>()))
VF_ENTRY(C44_state_f6, (neutral_state<float, 6>()))
VF_ENTRY(C44_fresh_d4, (fresh_sim<double, 4>(true)))
VF_ENTRY(C44_fresh_f4, (fresh_sim<float, 4>(false)))
VF_ENTRY(C44_fall_d4, (free_fall<double, 4>()))
VF_ENTRY(C44_plain_d, (plain<double>()))
VF_ENTRY(C44_plain_f, (plain<float>()))
#endif
