// Arbitrary controllers, built through the public interface only.
#ifndef VF_CTRL_HPP_
#define VF_CTRL_HPP_
#include "dyn.hpp"
#include "reach_pid.hpp"
#include "multirotor_controllers/multirotor_controllers.hpp"
namespace vf {
template <class T, int N> using Controller = multirotor::controller::Controller<T, N>;
template <class T, int N> using ControllerParams = multirotor::controller::ControllerParams<T, N>;
template <class T> using Acro = acro_controller::AcroController<T>;
template <class T> using AcroParams = acro_controller::AcroControllerParams<T>;
template <class T, int N> using Indi = indi_controller::IndiController<T, N>;
template <class T, int N> using IndiParams = indi_controller::IndiControllerParams<T, N>;
template <class T> using Pid = pid_controller::PID<T, 3>;
template <class T> using PidParams = pid_controller::PIDParams<T, 3>;
template <class T> PidParams<T> any_pid(const char *n) {
  PidParams<T> p;
  havoc(n, p);
  // limits that are accepted as they stand
  for (int i = 0; i < 3; i++) vf_assume(p.upper_output_saturation[i] - p.lower_output_saturation[i] > T(0.001));
  return p;
}
template <class T> AcroParams<T> any_acro() {
  AcroParams<T> p;
  p.vehicle_mass = real<T>("mass");
  p.kp_rot = mat<M3<T>>("kp_rot");
  p.gravity = vec3<T>("gravity");
  return p;
}
template <class T, int N> IndiParams<T, N> any_indi(const char *pid) {
  IndiParams<T, N> p;
  p.inertia = mat<M3<T>>("inertia");
  p.mixer_matrix_inverse = mat<Eigen::Matrix<T, N, 6>>("allocation");
  p.pid_params = any_pid<T>(pid);
  return p;
}
template <class T, int N> ControllerParams<T, N> any_controller() {
  ControllerParams<T, N> p;
  p.acro_controller_params = any_acro<T>();
  p.indi_controller_params = any_indi<T, N>("pid_indi");
  p.position_controller_params.pid_params = any_pid<T>("pid_pos");
  p.trajectory_controller_params.pid_params = any_pid<T>("pid_traj");
  p.velocity_controller_params.pid_params = any_pid<T>("pid_vel");
  return p;
}
// components with an arbitrary past; those whose data members are not the ones the harness was written for are
// brought there through the interface
template <class T, int N> void arbitrary(const char *n, Indi<T, N> &c) {
#if defined(VF_REACH_PID) || defined(VF_REACH_INDI)
  c = Indi<T, N>(mat<M3<T>>("reach_inertia"), mat<Eigen::Matrix<T, N, 6>>("reach_allocation"), PidParams<T>());
  drive_pid<T, 3>(0, c);
  if (vf_bool("reach_indi_update", 0)) c.update_mixer_matrix_inverse(mat<Eigen::Matrix<T, N, 6>>("reach_allocation2"));
  counters(c);
#else
  havoc(n, c);
#endif
}
template <class T> void arbitrary(const char *n, Acro<T> &c) {
#ifdef VF_REACH_ACRO
  c = Acro<T>(real<T>("reach_acro_mass"), mat<M3<T>>("reach_kp_rot"), vec3<T>("reach_acro_gravity"));
  c.yaw_angle_to_angular_velocity(mat<M3<T>>("reach_R"), real<T>("reach_yaw"), vec3<T>("reach_thrust"));
  if (vf_bool("reach_acro_update", 0)) c.update_params(any_acro<T>());
  if (vf_bool("reach_acro_single", 0)) {
    c.update_vehicle_mass(real<T>("reach_acro_mass2"));
    c.update_gravity(vec3<T>("reach_acro_gravity2"));
    c.update_kp_rot(mat<M3<T>>("reach_kp_rot2"));
  }
  counters(c);
#else
  havoc(n, c);
#endif
}
template <class T, int N> void arbitrary(const char *n, Controller<T, N> &c) {
#ifdef VF_REACH_CTRL
  c = Controller<T, N>();
  arbitrary("loop_acro", c.get_acro_controller());
  arbitrary("loop_indi", c.get_indi_controller());
  havoc("loop_pos", c.get_position_controller());
  havoc("loop_traj", c.get_trajectory_controller());
  havoc("loop_vel", c.get_velocity_controller());
  counters(c);
#else
  havoc(n, c);
#if defined(VF_REACH_PID) || defined(VF_REACH_INDI)
  arbitrary("loop_indi", c.get_indi_controller());
#endif
#ifdef VF_REACH_ACRO
  arbitrary("loop_acro", c.get_acro_controller());
#endif
#endif
#if defined(VF_REACH_PID) || defined(VF_REACH_LOOPS)
  c.get_position_controller() = position_controller::PositionController<T>();
  c.get_trajectory_controller() = trajectory_controller::TrajectoryController<T>();
  c.get_velocity_controller() = velocity_controller::VelocityController<T>();
  drive_pid<T, 3>(1, c.get_position_controller());
  drive_pid<T, 3>(2, c.get_trajectory_controller());
  drive_pid<T, 3>(3, c.get_velocity_controller());
  counters(c);
#endif
}
template <class T> void eq_pid(const char *l, const PidParams<T> &a, const PidParams<T> &b) {
  eq(l, a.Kp_gains, b.Kp_gains);
  eq(l, a.Ki_gains, b.Ki_gains);
  eq(l, a.Kd_gains, b.Kd_gains);
  eq(l, a.antiwindup_cte, b.antiwindup_cte);
  eq(l, a.alpha, b.alpha);
  vf_true(l, 0, a.reset_integral_flag == b.reset_integral_flag);
  vf_true(l, 1, a.proportional_saturation_flag == b.proportional_saturation_flag);
  eq(l, a.upper_output_saturation, b.upper_output_saturation);
  eq(l, a.lower_output_saturation, b.lower_output_saturation);
}
template <class T> V3<T> unit(const V3<T> &v) {
  T n = v[0] * v[0] + v[1] * v[1] + v[2] * v[2];
  if (!(n > 0)) return v;
  T s = std::sqrt(n);
  return V3<T>(v[0] / s, v[1] / s, v[2] / s);
}
}  // namespace vf
#endif
