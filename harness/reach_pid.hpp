// Controllers with an arbitrary past.
#ifndef VF_REACH_PID_HPP_
#define VF_REACH_PID_HPP_
#include "vf.hpp"
#include "pid_controller/pid.hpp"
#include "pid_controller/pid_1d.hpp"
namespace vf {
// an arbitrary past through the interface: two unlimited steps give any integral, slope and last error
template <class T, class V, class C, class F, class A, class L> void drive(int k, C &c, F any, V one, V none, A alone, L limits) {
  c.set_gains(one, one, one);
  c.set_alpha(one);
  c.set_anti_windup(none);
  c.set_reset_integral_saturation_flag(false);
  c.disable_output_saturation();
  T d0 = static_cast<T>(vf_real("reach_dt0", k)), d1 = static_cast<T>(vf_real("reach_dt1", k));
  vf_assume(d0 > 0);
  vf_assume(d1 > 0);
  c.reset_controller();
  c.compute_control(d0, any("reach_e0", k));
  c.compute_control(d1, any("reach_e1", k));
  c.set_gains(any("reach_kp", k), any("reach_ki", k), any("reach_kd", k));
  if (vf_bool("reach_alone", k)) alone(c);
  c.set_alpha(any("reach_alpha", k));
  c.set_anti_windup(any("reach_aw", k));
  c.set_reset_integral_saturation_flag(vf_bool("reach_reset", k));
  if (vf_bool("reach_limited", k)) limits(c, any("reach_upper", k), any("reach_lower", k));
  if (vf_bool("reach_fresh", k)) c.reset_controller();
  counters(c);
}
template <class T, int N> void drive_pid(int k, pid_controller::PID<T, N> &c) {
  using V = Eigen::Matrix<T, N, 1>;
  auto any = [](const char *n, int i) {
    V v;
    for (int j = 0; j < N; j++) v[j] = static_cast<T>(vf_real(n, 10 * i + j));
    return v;
  };
  V u = any("reach_upper", k), l = any("reach_lower", k);
  for (int j = 0; j < N; j++) vf_assume(u[j] - l[j] > T(0.001));
  auto alone = [&](pid_controller::PID<T, N> &x) {
    x.set_gains_kp(any("reach_kp2", k));
    x.set_gains_ki(any("reach_ki2", k));
    x.set_gains_kd(any("reach_kd2", k));
  };
  drive<T, V>(k, c, any, V(V::Ones()), V(V::Zero()), alone,
              [k](pid_controller::PID<T, N> &x, const V &a, const V &b) { x.set_output_saturation(a, b, vf_bool("reach_prop", k)); });
}
template <class T, int N> void arbitrary(const char *n, pid_controller::PID<T, N> &c) {
#ifdef VF_REACH_PID
  c = pid_controller::PID<T, N>();
  drive_pid<T, N>(int(n[3]), c);
#else
  havoc(n, c);
#endif
}
template <class T> void arbitrary(const char *n, pid_1d_controller::PID<T> &c) {
#ifdef VF_REACH_PID1
  c = pid_1d_controller::PID<T>();
  auto any = [](const char *s, int i) { return static_cast<T>(vf_real(s, i)); };
  int k = int(n[3]);
  vf_assume(any("reach_upper", k) - any("reach_lower", k) > T(0.001));
  auto alone = [&](pid_1d_controller::PID<T> &x) {
    x.set_kp(any("reach_kp2", k));
    x.set_ki(any("reach_ki2", k));
    x.set_kd(any("reach_kd2", k));
  };
  drive<T, T>(k, c, any, T(1), T(0), alone, [](pid_1d_controller::PID<T> &x, T a, T b) { x.set_output_saturation(a, b); });
#else
  havoc(n, c);
#endif
}
}  // namespace vf
#endif
