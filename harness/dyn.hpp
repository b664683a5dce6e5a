// Arbitrary models and vehicle dynamics, built through the public interface only.
#ifndef VF_DYN_HPP_
#define VF_DYN_HPP_
#include "vf.hpp"
#include "multirotor_dynamic_model/dynamics.hpp"

namespace vf {
template <class T, int N> using Model = multirotor::model::Model<T, N>;
template <class T, int N> using ModelParams = multirotor::model::ModelParams<T, N>;
template <class T> using MotorParams = multirotor::model::MotorParams<T>;
template <class T, int N> using State = multirotor::state::State<T, N>;
template <class T, int N> using Dynamics = multirotor::dynamics::Dynamics<T, N>;
template <class T, int N> using DynamicsParams = multirotor::dynamics::DynamicsParams<T, N>;
template <class T> using V3 = Eigen::Matrix<T, 3, 1>;
template <class T> using M3 = Eigen::Matrix<T, 3, 3>;
template <class T, int N> using VN = Eigen::Matrix<T, N, 1>;

inline const char *motor_name(int i, bool other = false) {
  static const char *const n[] = {"motor0", "motor1", "motor2", "motor3", "motor4", "motor5", "motor6", "motor7", "motor8"};
  static const char *const o[] = {"reach_m0", "reach_m1", "reach_m2", "reach_m3", "reach_m4", "reach_m5", "reach_m6", "reach_m7", "reach_m8"};
  return other ? o[i] : n[i];
}

// any motor: every field arbitrary; the pose is a rotation and a translation
template <class T> MotorParams<T> any_motor(int i, bool other = false) {
  MotorParams<T> m;
  havoc(motor_name(i, other), m);
  if (other) i += 20;
  m.pose = Eigen::Transform<T, 3, Eigen::Isometry>::Identity();
  M3<T> R;
  V3<T> r;
  for (int k = 0; k < 9; k++) R.data()[k] = static_cast<T>(vf_real("motor_R", 100 * i + k));
  for (int k = 0; k < 3; k++) r.data()[k] = static_cast<T>(vf_real("motor_r", 100 * i + k));
  if (!other) m.pose.linear() = R;
  if (other) {
    vf_assume(m.time_constant > 0);
    vf_assume(m.max_speed >= m.min_speed);
    vf_assume(m.rotational_inertia >= 0);
    vf_assume(m.thrust_coefficient >= 0);
    vf_assume(m.torque_coefficient >= 0);
  }
  m.pose.translation() = r;
  m.motor_rotation_direction = other ? 1 - i % 2 * 2 : vf_int("motor_dir", i);
  vf_assume(m.motor_rotation_direction == 1 || m.motor_rotation_direction == -1);
  return m;
}

// `other`: parameters unrelated to those of the first kind
template <class T, int N> ModelParams<T, N> any_params(int motors = N, bool other = false) {
  ModelParams<T, N> p;
  p.motors_params.clear();
  for (int i = 0; i < motors; i++) p.motors_params.push_back(any_motor<T>(i, other));
  p.vehicle_mass = real<T>(other ? "reach_mass" : "mass");
  p.vehicle_inertia = mat<M3<T>>(other ? "reach_inertia" : "inertia");
  p.vehicle_drag_coefficient = real<T>(other ? "reach_drag" : "drag");
  p.vehicle_aero_moment_coefficient = mat<M3<T>>(other ? "reach_aero" : "aero");
  p.gravity = vec3<T>(other ? "reach_gravity" : "gravity");
  p.force_process_noise_auto_correlation = real<T>(other ? "reach_S_force" : "S_force");
  p.moment_process_noise_auto_correlation = real<T>(other ? "reach_S_moment" : "S_moment");
  return p;
}

// any model whatsoever: parameters, mixers, generator and noise are unrelated and arbitrary
template <class T, int N> void arbitrary(const char *n, Model<T, N> &m) {
#ifdef VF_REACH_MODEL
  auto p = any_params<T, N>(N, true);
  m = Model<T, N>(ModelParams<T, N>(), vf_int("reach_model_seed", 0));
  vf_assume(m.check_params(p));
  m.update_params(p);
  T dt = real<T>("reach_noise_dt");
  vf_assume(dt > 0);
  vf_assume(p.force_process_noise_auto_correlation >= 0 && p.moment_process_noise_auto_correlation >= 0);
  if (vf_bool("reach_noise", 0)) m.set_stochastic_noise(dt);
  counters(m);
#else
  havoc(n, m);
#endif
}
template <class T, int N> void any_model(Model<T, N> &m) {
  arbitrary("model", m);
#ifndef VF_REACH_MODEL
  for (int i = 0; i < N; i++) havoc(motor_name(i), m.get_motors()[i]);
#endif
}

template <class T, int N> State<T, N> any_state() {
  State<T, N> s;
  s.kinematics.position = vec3<T>("p");
  s.kinematics.orientation = quat<T>("q");
  s.kinematics.linear_velocity = vec3<T>("v");
  s.kinematics.angular_velocity = vec3<T>("w");
  s.kinematics.linear_acceleration = vec3<T>("a");
  s.kinematics.angular_acceleration = vec3<T>("dw");
  s.dynamics.force = vec3<T>("f");
  s.dynamics.torque = vec3<T>("t");
  s.actuators.motor_angular_velocity = mat<VN<T, N>>("mw");
  s.actuators.motor_angular_acceleration = mat<VN<T, N>>("mdw");
  return s;
}

template <class T, int N> void any_dynamics(Dynamics<T, N> &d) {
#ifdef VF_REACH_DYN
  any_model<T, N>(d.get_model());
  if (vf_bool("reach_flown", 0)) {
    State<T, N> s;
    s.kinematics.orientation = quat<T>("reach_q");
    s.kinematics.linear_velocity = vec3<T>("reach_v");
    s.kinematics.angular_velocity = vec3<T>("reach_w");
    s.actuators.motor_angular_velocity = mat<VN<T, N>>("reach_mw");
    d.set_state(s);
    T dt = real<T>("reach_before");
    vf_assume(dt > T(0));
    vf_assume(double(dt) <= 0.01);
    d.process_euler_explicit(mat<VN<T, N>>("reach_cmd"), dt, vec3<T>("reach_ext"), false);
    counters(d);
  }
#else
  havoc("dynamics", d);  // whatever else it may remember
#endif
  any_model<T, N>(d.get_model());
  d.set_state(any_state<T, N>());
}

template <class T> T short_step() {
  T dt = real<T>("dt");
  vf_assume(dt > T(0));
  vf_assume(double(dt) <= 0.01);
  return dt;
}

template <class T, int N> void eq_state(const State<T, N> &a, const State<T, N> &b) {
  eq("position", a.kinematics.position, b.kinematics.position);
  eq("orientation", a.kinematics.orientation, b.kinematics.orientation);
  eq("linear velocity", a.kinematics.linear_velocity, b.kinematics.linear_velocity);
  eq("angular velocity", a.kinematics.angular_velocity, b.kinematics.angular_velocity);
  eq("linear acceleration", a.kinematics.linear_acceleration, b.kinematics.linear_acceleration);
  eq("angular acceleration", a.kinematics.angular_acceleration, b.kinematics.angular_acceleration);
  eq("force", a.dynamics.force, b.dynamics.force);
  eq("torque", a.dynamics.torque, b.dynamics.torque);
  eq("motor speed", a.actuators.motor_angular_velocity, b.actuators.motor_angular_velocity);
  eq("motor acceleration", a.actuators.motor_angular_acceleration, b.actuators.motor_angular_acceleration);
}

template <class T> void eq_motor(const MotorParams<T> &a, const MotorParams<T> &b) {
  vf_eqi("motor direction", 0, a.motor_rotation_direction, b.motor_rotation_direction);
  eq("motor thrust coefficient", a.thrust_coefficient, b.thrust_coefficient);
  eq("motor torque coefficient", a.torque_coefficient, b.torque_coefficient);
  eq("motor pose", a.pose.matrix(), b.pose.matrix());
  eq("motor min speed", a.min_speed, b.min_speed);
  eq("motor max speed", a.max_speed, b.max_speed);
  eq("motor time constant", a.time_constant, b.time_constant);
  eq("motor inertia", a.rotational_inertia, b.rotational_inertia);
}

template <class T, int N> void eq_params(const ModelParams<T, N> &a, const ModelParams<T, N> &b) {
  eq("mass", a.vehicle_mass, b.vehicle_mass);
  eq("inertia", a.vehicle_inertia, b.vehicle_inertia);
  eq("drag", a.vehicle_drag_coefficient, b.vehicle_drag_coefficient);
  eq("aero", a.vehicle_aero_moment_coefficient, b.vehicle_aero_moment_coefficient);
  eq("gravity", a.gravity, b.gravity);
  eq("force noise", a.force_process_noise_auto_correlation, b.force_process_noise_auto_correlation);
  eq("moment noise", a.moment_process_noise_auto_correlation, b.moment_process_noise_auto_correlation);
  vf_eqi("motors", 0, a.motors_params.size(), b.motors_params.size());
  for (int i = 0; i < N; i++) eq_motor<T>(a.motors_params[i], b.motors_params[i]);
}

template <class T> T sq(T x) { return x < T(0) ? -x * x : x * x; }
template <class T> T lim(T x, T lo, T hi) { return x < lo ? lo : (hi < x ? hi : x); }
template <class T> V3<T> cross(const V3<T> &a, const V3<T> &b) {
  return V3<T>(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]);
}
// rotation of v by the unit quaternion q, from the rotation matrix of q
template <class T> M3<T> rot(const Eigen::Quaternion<T> &q) {
  T w = q.w(), x = q.x(), y = q.y(), z = q.z();
  M3<T> R;
  R(0, 0) = 1 - 2 * (y * y + z * z); R(0, 1) = 2 * (x * y - w * z); R(0, 2) = 2 * (x * z + w * y);
  R(1, 0) = 2 * (x * y + w * z); R(1, 1) = 1 - 2 * (x * x + z * z); R(1, 2) = 2 * (y * z - w * x);
  R(2, 0) = 2 * (x * z - w * y); R(2, 1) = 2 * (y * z + w * x); R(2, 2) = 1 - 2 * (x * x + y * y);
  return R;
}
template <class T> V3<T> mul(const M3<T> &A, const V3<T> &v) {
  V3<T> r;
  for (int i = 0; i < 3; i++) r[i] = A(i, 0) * v[0] + A(i, 1) * v[1] + A(i, 2) * v[2];
  return r;
}
template <class T> V3<T> tmul(const M3<T> &A, const V3<T> &v) {
  V3<T> r;
  for (int i = 0; i < 3; i++) r[i] = A(0, i) * v[0] + A(1, i) * v[1] + A(2, i) * v[2];
  return r;
}
template <class T> T norm(const V3<T> &v) { return std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]); }
// q + dt * q (x) (0, w) / 2, normalised
template <class T> Eigen::Quaternion<T> advance(const Eigen::Quaternion<T> &q, const V3<T> &w, T dt) {
  T h = dt / 2;
  T x = q.x() + h * (q.w() * w[0] + q.y() * w[2] - q.z() * w[1]);
  T y = q.y() + h * (q.w() * w[1] + q.z() * w[0] - q.x() * w[2]);
  T z = q.z() + h * (q.w() * w[2] + q.x() * w[1] - q.y() * w[0]);
  T s = q.w() - h * (q.x() * w[0] + q.y() * w[1] + q.z() * w[2]);
  T n = std::sqrt(x * x + y * y + z * z + s * s);
  return Eigen::Quaternion<T>(s / n, x / n, y / n, z / n);
}
// n values that are, in some order, the given draws: their power sums agree
template <class T, int K> void permutation(const char *l, const T *x, const T *g) {
  for (int e = 1; e <= K; e++) {
    T a = 0, b = 0;
    for (int i = 0; i < K; i++) {
      T p = 1, q = 1;
      for (int j = 0; j < e; j++) p = p * x[i], q = q * g[i];
      a += p, b += q;
    }
    vf_eq(l, e, a, b);
  }
}
}  // namespace vf
#endif
