#include "dyn.hpp"
#include "reach_imu.hpp"
#include <iostream>
#include <sstream>
using namespace vf;
extern std::ostream vf_stream;  // some stream, any stream
namespace ms = multirotor::state;

// roll, pitch and yaw of a unit quaternion, as atan2/asin of the entries of its rotation matrix
template <class T> V3<T> angles(const Eigen::Quaternion<T> &q) {
  M3<T> R = rot<T>(q);
  T s = -R(2, 0);
  T pitch;
  const double right = std::acos(0.0);
  if (s >= 1) pitch = static_cast<T>(right);
  else if (s <= -1) pitch = static_cast<T>(-right);
  else pitch = std::asin(s);
  return V3<T>(std::atan2(R(2, 1), R(2, 2)), pitch, std::atan2(R(1, 0), R(0, 0)));
}

#ifdef VF_ONLY_C37  // ---- log lines
template <class T> void kin(std::ostream &os, const ms::internal::Kinematics<T> &k, const char *const *l) {
  V3<T> e = angles<T>(k.orientation);
  const T *v[] = {k.position.data(), e.data(), k.linear_velocity.data(), k.angular_velocity.data(),
                  k.linear_acceleration.data(), k.angular_acceleration.data()};
  for (int i = 0; i < 18; i++) {
    if (i) os << (l ? ", " : ",");
    if (l) os << l[i] << ": ";
    os << v[i / 3][i % 3];
  }
}
static const char *const KL[] = {
    "position_x", "position_y", "position_z", "orientation_roll", "orientation_pitch", "orientation_yaw",
    "linear_velocity_x", "linear_velocity_y", "linear_velocity_z", "angular_velocity_x", "angular_velocity_y", "angular_velocity_z",
    "linear_acceleration_x", "linear_acceleration_y", "linear_acceleration_z",
    "angular_acceleration_x", "angular_acceleration_y", "angular_acceleration_z"};
static const char *const DL[] = {"force_x", "force_y", "force_z", "torque_x", "torque_y", "torque_z"};
template <class T> void dyn(std::ostream &os, const ms::internal::Dynamics<T> &d, const char *const *l) {
  for (int i = 0; i < 6; i++) {
    if (i) os << (l ? ", " : ",");
    if (l) os << l[i] << ": ";
    os << (i < 3 ? d.force[i] : d.torque[i - 3]);
  }
}
template <class T, int N> void act(std::ostream &os, const ms::internal::Actuators<T, N> &a, bool l) {
  for (int i = 0; i < 2 * N; i++) {
    if (i) os << (l ? ", " : ",");
    if (l) os << "motor_" << i % N << (i < N ? "_angular_velocity: " : "_angular_acceleration: ");
    os << (i < N ? a.motor_angular_velocity[i] : a.motor_angular_acceleration[i - N]);
  }
}
template <class T, int N> void log_line() {
  auto s = any_state<T, N>();
  std::ostream &os = vf_stream;
  vf_events("implementation");
  os << s;
  vf_events("specification");
  kin<T>(os, s.kinematics, nullptr);
  os << ",";
  dyn<T>(os, s.dynamics, nullptr);
  os << ",";
  act<T, N>(os, s.actuators, false);
  vf_events("cmp:state line");
  vf_events("implementation");
  os << s.kinematics;
  vf_events("specification");
  kin<T>(os, s.kinematics, nullptr);
  vf_events("cmp:kinematics line");
  vf_events("implementation");
  os << s.dynamics;
  vf_events("specification");
  dyn<T>(os, s.dynamics, nullptr);
  vf_events("cmp:dynamics line");
  vf_events("implementation");
  os << s.actuators;
  vf_events("specification");
  act<T, N>(os, s.actuators, false);
  vf_events("cmp:actuators line");
}
template <class T, int N> void labelled() {
  auto s = any_state<T, N>();
  std::ostream &os = std::cout;
  vf_events("implementation");
  ms::print_state(s);
  vf_events("specification");
  kin<T>(os, s.kinematics, KL);
  os << ", ";
  dyn<T>(os, s.dynamics, DL);
  os << ", ";
  act<T, N>(os, s.actuators, true);
  vf_events("cmp:labelled state");
  std::ostream &any = vf_stream;
  vf_events("implementation");
  ms::internal::print_kinematics(any, s.kinematics);
  vf_events("specification");
  kin<T>(any, s.kinematics, KL);
  vf_events("cmp:labelled kinematics");
  vf_events("implementation");
  ms::internal::print_dynamics(any, s.dynamics);
  vf_events("specification");
  dyn<T>(any, s.dynamics, DL);
  vf_events("cmp:labelled dynamics");
  vf_events("implementation");
  ms::internal::print_actuators(any, s.actuators);
  vf_events("specification");
  act<T, N>(any, s.actuators, true);
  vf_events("cmp:labelled actuators");
}
// writing a log line changes nothing
template <class T, int N> void pure() {
  auto s = any_state<T, N>();
  State<T, N> o = s;
  std::cout << s;
  ms::print_state(s);
  eq_state<T, N>(s, o);
}
VF_ENTRY(C37_line_d4, (log_line<double, 4>()))
VF_ENTRY(C37_line_d6, (log_line<double, 6>()))
VF_ENTRY(C37_line_d8, (log_line<double, 8>()))
VF_ENTRY(C37_line_d3, (log_line<double, 3>()))
VF_ENTRY(C37_line_f4, (log_line<float, 4>()))
VF_ENTRY(C37_labels_d4, (labelled<double, 4>()))
VF_ENTRY(C37_labels_d8, (labelled<double, 8>()))
VF_ENTRY(C37_labels_f4, (labelled<float, 4>()))
VF_ENTRY(C37_pure_d4, (pure<double, 4>()))
#endif

#ifdef VF_ONLY_C38  // ---- quaternion and signed-square helpers
template <class T> void quaternions() {
  auto q = quat<T>("q");
  V3<T> w = vec3<T>("w");
  Eigen::Matrix<T, 4, 1> d = multirotor::utils::get_quaternion_derivative(q, w);
  vf_eq("x'", 0, d[0], (q.w() * w[0] + q.y() * w[2] - q.z() * w[1]) / 2);
  vf_eq("y'", 0, d[1], (q.w() * w[1] + q.z() * w[0] - q.x() * w[2]) / 2);
  vf_eq("z'", 0, d[2], (q.w() * w[2] + q.x() * w[1] - q.y() * w[0]) / 2);
  vf_eq("w'", 0, d[3], -(q.x() * w[0] + q.y() * w[1] + q.z() * w[2]) / 2);
  // a rotation rate never changes the norm to first order
  vf_eq("tangent to the sphere", 0, d[0] * q.x() + d[1] * q.y() + d[2] * q.z() + d[3] * q.w(), 0);
  double dt = vf_real("dt", 0);
  auto n = multirotor::utils::get_quaternion_integrate(q, w, dt);
  eq("one step", Eigen::Quaternion<T>(n), advance<T>(q, w, T(dt)));
  vf_eq("unit", 0, n.w() * n.w() + n.x() * n.x() + n.y() * n.y() + n.z() * n.z(), 1);
}
template <class T, int N> void squares() {
  VN<T, N> v = mat<VN<T, N>>("v");
  VN<T, N> s = multirotor::utils::squared_keep_sign(v), r = multirotor::utils::sqrt_keep_sign(v);
  VN<T, N> b = multirotor::utils::sqrt_keep_sign(s), c = multirotor::utils::squared_keep_sign(r);
  for (int i = 0; i < N; i++) {
    vf_eq("signed square", i, s[i], sq<T>(v[i]));
    vf_eq("signed root", i, r[i], v[i] < 0 ? -std::sqrt(-v[i]) : std::sqrt(v[i]));
    vf_eq("root undoes square", i, b[i], v[i]);
    vf_eq("square undoes root", i, c[i], v[i]);
  }
}
VF_ENTRY(C38_quaternions_d, (quaternions<double>()))
VF_ENTRY(C38_quaternions_f, (quaternions<float>()))
VF_ENTRY(C38_squares_d4, (squares<double, 4>()))
VF_ENTRY(C38_squares_d8, (squares<double, 8>()))
VF_ENTRY(C38_squares_f4, (squares<float, 4>()))
#endif

#ifdef VF_ONLY_C39  // ---- Euler angles
template <class T> void euler() {
  auto q = quat<T>("q");
  T r, p, y;
  ms::internal::quaternion_to_Euler(q, r, p, y);
  V3<T> e = angles<T>(q);
  vf_eq("roll", 0, r, e[0]);
  vf_eq("pitch", 0, p, e[1]);
  vf_eq("yaw", 0, y, e[2]);
}
// a multiple of a quaternion is the same attitude
template <class T> void scaled() {
  auto q = quat<T>("q");
  T k = real<T>("k");
  vf_assume(k > 0);
  Eigen::Quaternion<T> u(k * q.w(), k * q.x(), k * q.y(), k * q.z());
  T r, p, y;
  ms::internal::quaternion_to_Euler(u, r, p, y);
  V3<T> e = angles<T>(q);
  vf_eq("roll of a multiple", 0, r, e[0]);
  vf_eq("pitch of a multiple", 0, p, e[1]);
  vf_eq("yaw of a multiple", 0, y, e[2]);
}
// nose straight up or down: every such attitude
template <class T> void vertical(int sign) {
  T a = real<T>("a"), b = real<T>("b");
  vf_assume(a * a + b * b > 0);
  T r, p, y;
  ms::internal::quaternion_to_Euler(Eigen::Quaternion<T>(a, b, sign * a, -sign * b), r, p, y);
  vf_eq("pitch at the singularity", 0, p, sign * M_PI / 2);
}
VF_ENTRY(C39_up_d, (vertical<double>(1)))
VF_ENTRY(C39_down_d, (vertical<double>(-1)))
VF_ENTRY(C39_angles_d, (euler<double>()))
VF_ENTRY(C39_angles_f, (euler<float>()))
VF_ENTRY(C39_scaled_d, (scaled<double>()))
#endif

#ifdef VF_ONLY_C41  // ---- log lines of the odometry
static const char *const OL[] = {
    "position_x", "position_y", "position_z", "orientation_roll", "orientation_pitch", "orientation_yaw",
    "linear_velocity_x", "linear_velocity_y", "linear_velocity_z", "angular_velocity_x", "angular_velocity_y", "angular_velocity_z",
    "linear_acceleration_x", "linear_acceleration_y", "linear_acceleration_z"};
template <class T> void odo(std::ostream &os, const imu::InertialOdometry<T> &o, const char *const *l) {
  V3<T> p = o.get_position(), e = angles<T>(o.get_orientation()), v = o.get_linear_velocity(), w = o.get_angular_velocity(), a = o.get_linear_acceleration();
  const T *x[] = {p.data(), e.data(), v.data(), w.data(), a.data()};
  for (int i = 0; i < 15; i++) {
    if (i) os << (l ? ", " : ",");
    if (l) os << l[i] << ": ";
    os << x[i / 3][i % 3];
  }
}
template <class T> void odometry_line(int sign) {
  imu::InertialOdometry<T> o;
  arbitrary("odometry", o);
  if (sign) {  // nose straight up or down
    T a = real<T>("a"), b = real<T>("b");
    vf_assume(a * a + b * b > 0);
    T n = std::sqrt(2 * (a * a + b * b));
    o.set_initial_orientation(Eigen::Quaternion<T>(a / n, b / n, sign * a / n, -sign * b / n));
  } else
    o.set_initial_orientation(quat<T>("q"));
  imu::InertialOdometry<T> before = o;
  std::ostream &os = vf_stream;
  vf_events("implementation");
  os << o;
  vf_events("specification");
  odo<T>(os, o, nullptr);
  vf_events("cmp:odometry line");
  vf_events("implementation");
  print_state(os, o);
  vf_events("specification");
  odo<T>(os, o, OL);
  vf_events("cmp:labelled odometry");
  same("unchanged", o, before);
}
VF_ENTRY(C41_line_d, (odometry_line<double>(0)))
VF_ENTRY(C41_line_f, (odometry_line<float>(0)))
VF_ENTRY(C41_up_d, (odometry_line<double>(1)))
VF_ENTRY(C41_down_d, (odometry_line<double>(-1)))
#endif
