#include "dyn.hpp"
using namespace vf;

#ifdef VF_ONLY_C07  // ---- motor speeds stay inside their envelope
template <class T, int N> void envelope() {
  Dynamics<T, N> d;
  any_dynamics<T, N>(d);
  for (auto &m : d.get_model().get_motors()) vf_assume(m.min_speed <= m.max_speed);
  T dt = short_step<T>();
  d.process_euler_explicit(mat<VN<T, N>>("cmd"), dt, vec3<T>("ext"), vf_bool("noise", 0));
  for (int i = 0; i < N; i++) {
    T s = d.get_state().actuators.motor_angular_velocity[i];
    auto &m = d.get_model().get_motors()[i];
    vf_true("speed >= min", i, s >= m.min_speed);
    vf_true("speed <= max", i, s <= m.max_speed);
  }
}
// a command outside the envelope acts like the limit it exceeds
template <class T, int N> void beyond() {
  Dynamics<T, N> d;
  any_dynamics<T, N>(d);
  for (auto &m : d.get_model().get_motors()) vf_assume(m.min_speed <= m.max_speed);
  Dynamics<T, N> e = d;
  T dt = short_step<T>();
  VN<T, N> cmd = mat<VN<T, N>>("cmd"), lcmd = cmd;
  for (int i = 0; i < N; i++)
    lcmd[i] = lim<T>(cmd[i], d.get_model().get_motors()[i].min_speed, d.get_model().get_motors()[i].max_speed);
  d.process_euler_explicit(cmd, dt, vec3<T>("ext"), false);
  e.process_euler_explicit(lcmd, dt, vec3<T>("ext"), false);
  eq_state<T, N>(d.get_state(), e.get_state());
}
// and after a long step
template <class T, int N> void longstep() {
  Dynamics<T, N> d;
  d.set_state(State<T, N>());
  auto &p = const_cast<ModelParams<T, N> &>(d.get_model().get_params());
  for (int i = 0; i < N; i++) {
    havoc(motor_name(i), p.motors_params[i]);
    vf_assume(p.motors_params[i].min_speed <= p.motors_params[i].max_speed);
  }
  p.vehicle_mass = 1;
  p.vehicle_inertia = M3<T>::Identity();
  State<T, N> s;
  s.actuators.motor_angular_velocity = mat<VN<T, N>>("mw");
  d.set_state(s);
  d.process_euler_explicit(mat<VN<T, N>>("cmd"), T(0.025), V3<T>::Zero(), false);
  for (int i = 0; i < N; i++) {
    vf_true("speed >= min", i, d.get_state().actuators.motor_angular_velocity[i] >= p.motors_params[i].min_speed);
    vf_true("speed <= max", i, d.get_state().actuators.motor_angular_velocity[i] <= p.motors_params[i].max_speed);
  }
}
VF_ENTRY(C07_envelope_d4, (envelope<double, 4>()))
VF_ENTRY(C07_envelope_d6, (envelope<double, 6>()))
VF_ENTRY(C07_envelope_d8, (envelope<double, 8>()))
VF_ENTRY(C07_envelope_d3, (envelope<double, 3>()))
VF_ENTRY(C07_envelope_f4, (envelope<float, 4>()))
VF_ENTRY(C07_beyond_d4, (beyond<double, 4>()))
VF_ENTRY(C07_longstep_d2, (longstep<double, 2>()))
#endif

#ifdef VF_ONLY_C08  // ---- first-order motor lag
template <class T, int N> void lag() {
  Dynamics<T, N> d;
  any_dynamics<T, N>(d);
  for (auto &m : d.get_model().get_motors()) vf_assume(m.min_speed <= m.max_speed);
  State<T, N> s0 = d.get_state();
  T dt = short_step<T>();
  VN<T, N> cmd = mat<VN<T, N>>("cmd");
  d.process_euler_explicit(cmd, dt, vec3<T>("ext"), vf_bool("noise", 0));
  State<T, N> s1 = d.get_state();
  for (int i = 0; i < N; i++) {
    auto &m = d.get_model().get_motors()[i];
    T w = s0.actuators.motor_angular_velocity[i];
    T acc = (lim<T>(cmd[i], m.min_speed, m.max_speed) - w) / m.time_constant;
    vf_eq("motor acceleration", i, s1.actuators.motor_angular_acceleration[i], acc);
    vf_eq("motor speed", i, s1.actuators.motor_angular_velocity[i], lim<T>(w + acc * dt, m.min_speed, m.max_speed));
  }
}
VF_ENTRY(C08_lag_d4, (lag<double, 4>()))
VF_ENTRY(C08_lag_d6, (lag<double, 6>()))
VF_ENTRY(C08_lag_d8, (lag<double, 8>()))
VF_ENTRY(C08_lag_d3, (lag<double, 3>()))
VF_ENTRY(C08_lag_f4, (lag<float, 4>()))
#endif

#ifdef VF_ONLY_C09  // ---- Newton
template <class T, int N> void newton(bool noise) {
  Dynamics<T, N> d;
  any_dynamics<T, N>(d);
  State<T, N> s0 = d.get_state();
  T dt = short_step<T>();
  V3<T> ext = vec3<T>("ext");
  d.process_euler_explicit(mat<VN<T, N>>("cmd"), dt, ext, noise);
  State<T, N> s1 = d.get_state();
  auto &m = d.get_model_const();
  V3<T> thrust;
  for (int k = 0; k < 3; k++) {
    thrust[k] = 0;
    for (int i = 0; i < N; i++) thrust[k] += m.get_mixer_force_matrix()(k, i) * sq<T>(s0.actuators.motor_angular_velocity[i]);
  }
  thrust = mul<T>(rot<T>(s0.kinematics.orientation), thrust);
  for (int k = 0; k < 3; k++) {
    T F = thrust[k] + m.get_gravity()[k] * m.get_mass() -
          m.get_vehicle_drag_coefficient() * sq<T>(s0.kinematics.linear_velocity[k]) + m.get_stochastic_force()[k] + ext[k];
    vf_eq("total force", k, s1.dynamics.force[k], F);
    vf_eq("linear acceleration", k, s1.kinematics.linear_acceleration[k], F / m.get_mass());
  }
}
VF_ENTRY(C09_quiet_d4, (newton<double, 4>(false)))
VF_ENTRY(C09_noise_d4, (newton<double, 4>(true)))
VF_ENTRY(C09_quiet_d6, (newton<double, 6>(false)))
VF_ENTRY(C09_quiet_d8, (newton<double, 8>(false)))
VF_ENTRY(C09_quiet_d3, (newton<double, 3>(false)))
VF_ENTRY(C09_quiet_f4, (newton<float, 4>(false)))
#endif

#ifdef VF_ONLY_C10  // ---- Euler
template <class T, int N> void euler(bool noise) {
  Dynamics<T, N> d;
  any_dynamics<T, N>(d);
  State<T, N> s0 = d.get_state();
  T dt = short_step<T>();
  d.process_euler_explicit(mat<VN<T, N>>("cmd"), dt, vec3<T>("ext"), noise);
  State<T, N> s1 = d.get_state();
  auto &m = d.get_model_const();
  V3<T> w = s0.kinematics.angular_velocity;
  V3<T> gyr = cross<T>(w, mul<T>(m.get_vehicle_inertia(), w));
  V3<T> aero = mul<T>(m.get_vehicle_aero_moment_coefficient(), w);
  T n = norm<T>(w);
  for (int k = 0; k < 3; k++) {
    T M = 0;
    for (int i = 0; i < N; i++)
      M += m.get_mixer_torque_matrix()(k, i) * sq<T>(s0.actuators.motor_angular_velocity[i]) +
           m.get_mixer_inertia_matrix()(k, i) * s1.actuators.motor_angular_acceleration[i];
    M += -n * aero[k] - gyr[k];
    vf_known("stochastic-force-as-moment", "total torque", k, s1.dynamics.torque[k], M + m.get_stochastic_moment()[k],
             M + m.get_stochastic_force()[k]);
  }
  eq("inertia * angular acceleration", mul<T>(m.get_vehicle_inertia(), s1.kinematics.angular_acceleration),
     V3<T>(s1.dynamics.torque));
}
VF_ENTRY(C10_quiet_d4, (euler<double, 4>(false)))
VF_ENTRY(C10_noise_d4, (euler<double, 4>(true)))
VF_ENTRY(C10_quiet_d6, (euler<double, 6>(false)))
VF_ENTRY(C10_quiet_d8, (euler<double, 8>(false)))
VF_ENTRY(C10_quiet_d3, (euler<double, 3>(false)))
VF_ENTRY(C10_quiet_f4, (euler<float, 4>(false)))
#endif

#ifdef VF_ONLY_C11  // ---- explicit Euler integration, unit quaternion
template <class T, int N> void integrate(bool noise) {
  Dynamics<T, N> d;
  any_dynamics<T, N>(d);
  State<T, N> s0 = d.get_state();
  T dt = short_step<T>();
  d.process_euler_explicit(mat<VN<T, N>>("cmd"), dt, vec3<T>("ext"), noise);
  State<T, N> s1 = d.get_state();
  V3<T> p = s0.kinematics.position + s0.kinematics.linear_velocity * dt;
  V3<T> v = s0.kinematics.linear_velocity + s1.kinematics.linear_acceleration * dt;
  V3<T> w = s0.kinematics.angular_velocity + s1.kinematics.angular_acceleration * dt;
  eq("position", s1.kinematics.position, p);
  eq("linear velocity", s1.kinematics.linear_velocity, v);
  eq("angular velocity", s1.kinematics.angular_velocity, w);
  eq("orientation", s1.kinematics.orientation,
     advance<T>(s0.kinematics.orientation, s0.kinematics.angular_velocity, dt));
  auto q = s1.kinematics.orientation;
  vf_eq("unit norm", 0, q.w() * q.w() + q.x() * q.x() + q.y() * q.y() + q.z() * q.z(), 1);
}
VF_ENTRY(C11_step_d4, (integrate<double, 4>(false)))
VF_ENTRY(C11_noise_d4, (integrate<double, 4>(true)))
VF_ENTRY(C11_step_d6, (integrate<double, 6>(false)))
VF_ENTRY(C11_step_d8, (integrate<double, 8>(false)))
VF_ENTRY(C11_step_d3, (integrate<double, 3>(false)))
VF_ENTRY(C11_step_f4, (integrate<float, 4>(false)))
#endif

#ifdef VF_ONLY_C12  // ---- non-positive time steps
template <class T, int N> void reject() {
  Dynamics<T, N> d;
  any_dynamics<T, N>(d);
  Dynamics<T, N> e = d;
  T dt = real<T>("dt");
  vf_assume(dt <= T(0));
  bool thrown = false;
  try {
    d.process_euler_explicit(mat<VN<T, N>>("cmd"), dt, vec3<T>("ext"), vf_bool("noise", 0));
  } catch (const std::invalid_argument &) {
    thrown = true;
  }
  vf_true("throws std::invalid_argument", 0, thrown);
  same("unchanged", d, e);
}
template <class T, int N> void accept() {
  Dynamics<T, N> d;
  any_dynamics<T, N>(d);
  T dt = short_step<T>();
  bool thrown = false;
  try {
    d.process_euler_explicit(mat<VN<T, N>>("cmd"), dt, vec3<T>("ext"), vf_bool("noise", 0));
  } catch (...) {
    thrown = true;
  }
  vf_true("accepts a positive step", 0, !thrown);
}
VF_ENTRY(C12_reject_d4, (reject<double, 4>()))
VF_ENTRY(C12_reject_d6, (reject<double, 6>()))
VF_ENTRY(C12_reject_d8, (reject<double, 8>()))
VF_ENTRY(C12_reject_d3, (reject<double, 3>()))
VF_ENTRY(C12_reject_f4, (reject<float, 4>()))
VF_ENTRY(C12_accept_d4, (accept<double, 4>()))
#endif

#ifdef VF_ONLY_C13  // ---- long steps are covered by sub-steps
template <class T, int N> void make(Dynamics<T, N> &d) {
  auto p = ModelParams<T, N>();
  p.vehicle_mass = 1;
  p.vehicle_inertia = M3<T>::Identity();
  p.gravity = V3<T>::Zero();
  p.force_process_noise_auto_correlation = p.moment_process_noise_auto_correlation = 1;
  for (auto &m : p.motors_params) {
    m.time_constant = 1;
    m.min_speed = 0;
    m.max_speed = 1000;
  }
  d.set_model(Model<T, N>(p));
}
template <class T, int N> void cover(int k) {
  Dynamics<T, N> d;
  make<T, N>(d);
  T dt = real<T>("dt");
  vf_assume(double(dt) > 0.01 * k);
  vf_assume(double(dt) <= 0.01 * (k + 1));
  State<T, N> s;
  s.kinematics.position = vec3<T>("p");
  s.kinematics.linear_velocity = vec3<T>("v");
  V3<T> f = vec3<T>("ext");
  T w = real<T>("speed");
  vf_assume(w > 0);
  vf_assume(w < 1000);
  s.actuators.motor_angular_velocity = VN<T, N>::Constant(w);
  d.set_state(s);
  d.process_euler_explicit(VN<T, N>::Constant(w), dt, f, false);
  V3<T> v = s.kinematics.linear_velocity + f * dt;
  for (int i = 0; i < N; i++) vf_eq("a rotor at its command stays there", i, d.get_state().actuators.motor_angular_velocity[i], w);
  zero("no noise was asked for", d.get_model().get_stochastic_force());
  zero("no noise moment was asked for", d.get_model().get_stochastic_moment());
  zero("no rotation", d.get_state().kinematics.angular_velocity);
  eq("velocity after a long step under a constant force", d.get_state().kinematics.linear_velocity, v);
  d.set_state(s);
  d.process_euler_explicit(VN<T, N>::Constant(w), dt, V3<T>::Zero(), false);
  V3<T> p = s.kinematics.position + s.kinematics.linear_velocity * dt;
  eq("position after a long step at constant velocity", d.get_state().kinematics.position, p);
}
// no sub-step is longer than the limit: the position error of explicit Euler under a unit force
// is half the sum of the squared sub-steps, at most 0.01 * dt / 2
template <class T, int N> void fine(T dt) {
  Dynamics<T, N> d;
  make<T, N>(d);
  d.set_state(State<T, N>());
  d.process_euler_explicit(VN<T, N>::Ones(), dt, V3<T>(1, 0, 0), false);
  T x = d.get_state().kinematics.position.x();
  vf_eq("total time", 0, d.get_state().kinematics.linear_velocity.x(), dt);
  vf_true("sub-steps of at most 0.01 s", 0, T(2) * x >= dt * dt - T(0.01) * dt);
  vf_true("explicit sub-steps", 0, T(2) * x <= dt * dt);
  // a rotor spinning up from rest: between the exact response (1 - e^-t > t - t^2/2) and one long Euler step
  for (int i = 0; i < N; i++) {
    T r = d.get_state().actuators.motor_angular_velocity[i];
    vf_true("the command acts in every sub-step", i, r <= dt && r >= dt - dt * dt / 2);
  }
}
VF_ENTRY(C13_cover1_d2, (cover<double, 2>(1)))
VF_ENTRY(C13_cover2_d2, (cover<double, 2>(2)))
VF_ENTRY(C13_cover3_d2, (cover<double, 2>(3)))
VF_ENTRY(C13_cover7_d2, (cover<double, 2>(7)))
VF_ENTRY(C13_short_d2, (fine<double, 2>(0.013), fine<double, 2>(0.02), fine<double, 2>(0.025), fine<double, 2>(0.03), fine<double, 2>(0.0471), fine<double, 2>(0.1)))
VF_ENTRY(C13_cover2_d4, (cover<double, 4>(2)))
VF_ENTRY(C13_cover1_f4, (cover<float, 4>(1)))
#endif
