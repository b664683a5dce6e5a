// Arbitrary simulators, built through the public interface only.
#ifndef VF_SIM_HPP_
#define VF_SIM_HPP_
#include "ctrl.hpp"
#include "multirotor_simulator.hpp"
#include "reach_imu.hpp"
namespace vf {
template <class T, int N> using Simulator = multirotor::Simulator<T, N>;
template <class T, int N> using SimulatorParams = multirotor::SimulatorParams<T, N>;
using multirotor::ControlMode;
using multirotor::YawControlMode;
// any simulator whatsoever: flags, references, controller memory, sensors and vehicle are arbitrary
template <class T, int N> void any_sim(Simulator<T, N> &s) {
#if defined(VF_REACH_SIM) || defined(VF_REACH_DYN)
  s = Simulator<T, N>();
  T before = real<T>("reach_before");
  vf_assume(before > 0);
  vf_assume(double(before) <= 0.01);
  if (vf_bool("reach_flown", 0)) {
    s.enable_floor_collision(real<T>("reach_floor_before"));
    s.update_dynamics(before);
    s.update_imu(before);
    s.update_inertial_odometry(before);
  }
  any_model<T, N>(s.get_dynamics().get_model());
  arbitrary("sim_controller", s.get_controller());
  arbitrary("sim_imu", s.get_imu());
  arbitrary("sim_odom", s.get_inertial_odometry());
  s.get_dynamics().set_state(any_state<T, N>());
  // any command, floor, mode and reference
  s.arm();
  s.set_refence_motors_angular_velocity(mat<VN<T, N>>("reach_command"));
  s.update_controller(real<T>("reach_dt"));
  if (vf_bool("reach_disarmed", 0)) s.disarm();
  if (vf_bool("reach_floor", 0)) s.enable_floor_collision(real<T>("reach_height"));
  int mode = vf_int("reach_mode", 0);
  vf_assume(mode >= 0 && mode <= 5);
  s.set_control_mode(static_cast<ControlMode>(mode), vf_bool("reach_yaw_mode", 0) ? YawControlMode::RATE : YawControlMode::ANGLE);
  s.set_refence_motors_angular_velocity(mat<VN<T, N>>("reach_motors"));
  s.set_reference_acro(real<T>("reach_ref_thrust"), vec3<T>("reach_ref_rates"));
  s.set_reference_trajectory(vec3<T>("reach_ref_p"), vec3<T>("reach_ref_v"), vec3<T>("reach_ref_a"));
  s.set_reference_yaw_angle(real<T>("reach_ref_yaw"));
  s.set_reference_yaw_rate(real<T>("reach_ref_yaw_rate"));
  counters(s);
#else
  havoc("sim", s);
#ifdef VF_REACH_MODEL
  any_model<T, N>(s.get_dynamics().get_model());
#else
  for (int i = 0; i < N; i++) havoc(motor_name(i), s.get_dynamics().get_model().get_motors()[i]);
#endif
#if defined(VF_REACH_PID) || defined(VF_REACH_INDI) || defined(VF_REACH_ACRO) || defined(VF_REACH_CTRL) || defined(VF_REACH_LOOPS)
  arbitrary("sim_controller", s.get_controller());
#endif
#ifdef VF_REACH_IMU
  arbitrary("sim_imu", s.get_imu());
#endif
#ifdef VF_REACH_ODOM
  arbitrary("sim_odom", s.get_inertial_odometry());
#endif
  s.get_dynamics().set_state(any_state<T, N>());
#endif
}
template <class T, int N> T yaw_of(const Simulator<T, N> &s) {
  auto q = s.get_state().kinematics.orientation;
  return std::atan2(2 * (q.w() * q.z() + q.x() * q.y()), 1 - 2 * (q.y() * q.y() + q.z() * q.z()));
}
enum { REFS = 1, STATE = 2, CTRL = 4, SENSORS = 8, FLAGS = 16, COMMAND = 32, VEHICLE = 64, FORCE = 128 };
// what is not named in `but` is as it was
template <class T, int N> void frame(const Simulator<T, N> &a, const Simulator<T, N> &o, int but) {
  if (!(but & REFS)) {
    eq("reference motor speeds kept", a.get_reference_motors_angular_velocity(), o.get_reference_motors_angular_velocity());
    eq("reference thrust kept", a.get_reference_thrust(), o.get_reference_thrust());
    eq("reference rates kept", a.get_reference_angular_velocity(), o.get_reference_angular_velocity());
    eq("reference position kept", a.get_reference_position(), o.get_reference_position());
    eq("reference velocity kept", a.get_reference_velocity(), o.get_reference_velocity());
    eq("reference acceleration kept", a.get_reference_acceleration(), o.get_reference_acceleration());
    eq("reference yaw kept", a.get_reference_yaw(), o.get_reference_yaw());
    eq("reference yaw rate kept", a.get_reference_yaw_rate(), o.get_reference_yaw_rate());
    vf_eqi("control mode kept", 0, a.get_control_mode(), o.get_control_mode());
    vf_eqi("yaw mode kept", 0, a.get_yaw_control_mode(), o.get_yaw_control_mode());
  }
  if (!(but & STATE)) eq_state<T, N>(a.get_state(), o.get_state());
  if (!(but & (STATE | VEHICLE))) same("vehicle kept", a.get_dynamics_const(), o.get_dynamics_const());
  if (!(but & CTRL)) same("controller kept", a.get_controller_const(), o.get_controller_const());
  if (!(but & SENSORS)) {
    same("inertial sensor kept", a.get_imu_const(), o.get_imu_const());
    same("odometry kept", a.get_inertial_odometry_const(), o.get_inertial_odometry_const());
  }
  if (!(but & FLAGS)) {
    vf_true("armed kept", 0, a.get_armed() == o.get_armed());
    vf_true("floor switch kept", 0, a.get_floor_collision_enabled() == o.get_floor_collision_enabled());
    eq("floor height kept", a.get_floor_height(), o.get_floor_height());
  }
  if (!(but & COMMAND))
    eq("motor command kept", a.get_actuation_motors_angular_velocity(), o.get_actuation_motors_angular_velocity());
  if (!(but & FORCE)) eq("external force kept", a.get_external_force(), o.get_external_force());
}
}  // namespace vf
#endif
