// Sensors with an arbitrary past.
#ifndef VF_REACH_IMU_HPP_
#define VF_REACH_IMU_HPP_
#include "vf.hpp"
#include "imu_simulator/imu.hpp"
#include "imu_simulator/inertial_odometry.hpp"
namespace vf {
template <class T> void reach(::imu::IMU<T> &u) {
  u = ::imu::IMU<T>(real<T>("reach_vg"), real<T>("reach_va"), real<T>("reach_cg"), real<T>("reach_ca"), quat<T>("reach_imu_q"), vf_int("reach_seed", 0));
  T dt = real<T>("reach_imu_dt");
  vf_assume(dt > 0);
  if (vf_bool("reach_imu_used", 0)) {
    u.update(dt, vec3<T>("reach_sf"), vec3<T>("reach_w"));
    u.set_noise_variances(real<T>("reach_ng"), real<T>("reach_na"));
    u.set_bias_autocorrelation_time(real<T>("reach_tg"), real<T>("reach_ta"));
    u.set_orientation(quat<T>("reach_imu_q2"));
  }
  if (vf_bool("reach_imu_reset", 0)) u.reset();
  u.set_bias(vec3<T>("reach_bg"), vec3<T>("reach_ba"), real<T>("reach_cg2"), real<T>("reach_ca2"));
  counters(u);
}
template <class T> void reach(::imu::InertialOdometry<T> &o) {
  o = ::imu::InertialOdometry<T>(real<T>("reach_alpha"), quat<T>("reach_odom_q"));
  T d0 = real<T>("reach_odom_dt0"), d1 = real<T>("reach_odom_dt1");
  o.update(vec3<T>("reach_g0"), vec3<T>("reach_a0"), d0);
  o.update(vec3<T>("reach_g1"), vec3<T>("reach_a1"), d1);
  if (vf_bool("reach_odom_reset", 0)) {
    o.set_initial_orientation(quat<T>("reach_odom_q2"));
    o.reset();
  }
  counters(o);
}
template <class T> void arbitrary(const char *n, ::imu::IMU<T> &u) {
#ifdef VF_REACH_IMU
  reach(u);
#else
  havoc(n, u);
#endif
}
template <class T> void arbitrary(const char *n, ::imu::InertialOdometry<T> &o) {
#ifdef VF_REACH_ODOM
  reach(o);
#else
  havoc(n, o);
#endif
}
}  // namespace vf
#endif
