#include "ctrl.hpp"
using namespace vf;

#if defined(VF_ONLY_C31) || defined(VF_ONLY_C33)
// thrust vector (a - g) m; attitude with body z along it and heading yaw; rates -Kp vee(Rd'R - R'Rd)/2
template <class T> void attitude(T mass, const M3<T> &kp, const V3<T> &g, const V3<T> &a, const M3<T> &R, T yaw, T &thrust, V3<T> &rate) {
  V3<T> t;
  for (int i = 0; i < 3; i++) t[i] = (a[i] - g[i]) * mass;
  V3<T> z = unit<T>(t), y = unit<T>(cross<T>(z, V3<T>(std::cos(yaw), std::sin(yaw), 0))), x = unit<T>(cross<T>(y, z));
  V3<T> d[3] = {x, y, z}, r[3];
  for (int j = 0; j < 3; j++)
    for (int i = 0; i < 3; i++) r[j][i] = R(i, j);
  auto dot = [](const V3<T> &u, const V3<T> &v) { return u[0] * v[0] + u[1] * v[1] + u[2] * v[2]; };
  V3<T> e;  // (Rd'R - R'Rd)(i, j) = d_i . r_j - r_i . d_j
  e[0] = (dot(d[2], r[1]) - dot(r[2], d[1])) / 2;
  e[1] = (dot(d[0], r[2]) - dot(r[0], d[2])) / 2;
  e[2] = (dot(d[1], r[0]) - dot(r[1], d[0])) / 2;
  for (int i = 0; i < 3; i++) rate[i] = -(kp(i, 0) * e[0] + kp(i, 1) * e[1] + kp(i, 2) * e[2]);
  thrust = dot(t, r[2]);
}
#endif

#ifdef VF_ONLY_C31  // ---- from acceleration and yaw to thrust and body rates
enum How { BUILT, UPDATED, ONE_BY_ONE };
template <class T, int N> void acro(How how) {
  auto p = any_acro<T>();
  Controller<T, N> c;
  if (how == BUILT) c = Controller<T, N>(p);
  else {
    arbitrary("controller", c);
    if (how == UPDATED) c.update_acro_controller_params(p);
    else {
      c.get_acro_controller().update_kp_rot(p.kp_rot);
      c.get_acro_controller().update_gravity(p.gravity);
      c.get_acro_controller().update_vehicle_mass(p.vehicle_mass);
    }
  }
  V3<T> a = vec3<T>("acc");
  M3<T> R = rot<T>(quat<T>("q"));
  T yaw = real<T>("yaw"), th;
  V3<T> rate;
  attitude<T>(p.vehicle_mass, p.kp_rot, p.gravity, a, R, yaw, th, rate);
  auto r = c.convert_linear_acceleration_to_acro(a, R, yaw, real<T>("dt"));
  // a thrust the rotors cannot give is not asked for
  vf_eq("thrust", 0, r.first, th < 0 ? T(0) : th);
  vf_true("no negative thrust", 0, r.first >= 0);
  for (int i = 0; i < 3; i++) vf_eq("body rates", i, r.second[i], th < 0 ? T(0) : rate[i]);
  Acro<T> &k = c.get_acro_controller();
  V3<T> t = k.acceleration_to_thrust(a);
  for (int i = 0; i < 3; i++) vf_eq("thrust vector", i, t[i], (a[i] - p.gravity[i]) * p.vehicle_mass);
  V3<T> w = k.yaw_angle_to_angular_velocity(R, yaw, t);
  for (int i = 0; i < 3; i++) {
    vf_eq("rates of the attitude loop", i, w[i], rate[i]);
    vf_eq("rates getter", i, k.get_desired_angular_velocity()[i], rate[i]);
  }
}
// hovering level at the wanted yaw asks for the weight and no rotation
template <class T> void hover() {
  AcroParams<T> p = any_acro<T>();
  T g = real<T>("g");
  vf_assume(g > 0);
  vf_assume(p.vehicle_mass > 0);
  p.gravity = V3<T>(0, 0, -g);
  Controller<T, 4> c(p);
  T yaw = real<T>("yaw"), cs = std::cos(yaw), sn = std::sin(yaw);
  M3<T> R = M3<T>::Zero();
  R(0, 0) = cs; R(0, 1) = -sn; R(1, 0) = sn; R(1, 1) = cs; R(2, 2) = 1;
  auto r = c.convert_linear_acceleration_to_acro(V3<T>::Zero(), R, yaw, real<T>("dt"));
  vf_eq("hover thrust", 0, r.first, p.vehicle_mass * g);
  for (int i = 0; i < 3; i++) vf_eq("hover rates", i, r.second[i], 0);
}
VF_ENTRY(C31_built_d4, (acro<double, 4>(BUILT)))
VF_ENTRY(C31_updated_d4, (acro<double, 4>(UPDATED)))
VF_ENTRY(C31_updated_f4, (acro<float, 4>(UPDATED)))
VF_ENTRY(C31_updated_d6, (acro<double, 6>(UPDATED)))
VF_ENTRY(C31_updated_d8, (acro<double, 8>(UPDATED)))
VF_ENTRY(C31_updated_d3, (acro<double, 3>(UPDATED)))
VF_ENTRY(C31_single_d4, (acro<double, 4>(ONE_BY_ONE)))
VF_ENTRY(C31_hover_d, (hover<double>()))
VF_ENTRY(C31_hover_f, (hover<float>()))
#endif

#ifdef VF_ONLY_C32  // ---- from thrust and body rates to rotor speeds
template <class T, int N> void rates() {
  Indi<T, N> c;
  arbitrary("indi", c);
  M3<T> J = mat<M3<T>>("inertia");
  auto B = mat<Eigen::Matrix<T, N, 6>>("allocation");
  c.update_inertia(J);
  c.update_mixer_matrix_inverse(B);
  c.disable_output_saturation();
  c.set_reset_integral_saturation_flag(false);
  c.set_anti_windup(V3<T>::Zero());
  Pid<T> pid = c;
  V3<T> w = vec3<T>("w"), wd = vec3<T>("wd");
  T th = real<T>("thrust"), dt = real<T>("dt");
  vf_assume(dt > 0);
  VN<T, N> m = c.acro_to_motor_angular_velocity(w, th, wd, dt);
  V3<T> e = wd - w, acc = pid.compute_control(dt, e);
  V3<T> tau = mul<T>(J, acc) + cross<T>(wd, mul<T>(J, wd));
  eq("angular acceleration", c.get_desired_angular_acceleration(), acc);
  eq("rate error", c.get_angular_velocity_error(), e);
  eq("torque = J dw + w x J w", c.get_desired_torque(), tau);
  eq("thrust along body z", c.get_desired_thrust(), V3<T>(0, 0, th));
  for (int i = 0; i < N; i++) {
    T s = B(i, 2) * th + B(i, 3) * tau[0] + B(i, 4) * tau[1] + B(i, 5) * tau[2];
    vf_eq("square root of the allocated squared speed, with its sign", i, m[i], s < 0 ? -std::sqrt(-s) : std::sqrt(s));
    vf_eq("speed getter", i, c.get_motor_angular_velocity()[i], m[i]);
  }
  // the loop's own state went on like the plain PID's
  V3<T> e2 = vec3<T>("e2");
  eq("the rate loop is the PID", c.compute_control(dt, e2), pid.compute_control(dt, e2));
}
// the inverse undoes the allocation
template <class T> void inverse() {
  Eigen::Matrix<T, 6, 4> M = mat<Eigen::Matrix<T, 6, 4>>("mixer");
  M.row(0).setZero();
  M.row(1).setZero();
  Eigen::Matrix<T, 4, 6> B = indi_controller::compute_quadrotor_mixer_matrix_inverse<T>(M);
  for (int i = 0; i < 4; i++) {
    vf_eq("no side force", i, B(i, 0), 0);
    vf_eq("no side force", 4 + i, B(i, 1), 0);
  }
  for (int i = 0; i < 4; i++)
    for (int j = 0; j < 4; j++) {
      T s = 0;
      for (int k = 0; k < 4; k++) s += M(2 + i, k) * B(k, 2 + j);
      vf_eq("mixer * inverse = 1", 4 * i + j, s, i == j ? 1 : 0);
    }
}
VF_ENTRY(C32_rates_d4, (rates<double, 4>()))
VF_ENTRY(C32_rates_d6, (rates<double, 6>()))
VF_ENTRY(C32_rates_d3, (rates<double, 3>()))
VF_ENTRY(C32_rates_d8, (rates<double, 8>()))
VF_ENTRY(C32_rates_f4, (rates<float, 4>()))
VF_ENTRY(C32_inverse_d, (inverse<double>()))
VF_ENTRY(C32_inverse_f, (inverse<float>()))
#endif

#ifdef VF_ONLY_C33  // ---- the cascade
template <class T, int N> struct Two {
  Controller<T, N> c, r;
  V3<T> p, v, w, pd, vd, ad, wd;
  M3<T> R;
  T yaw, dt, th;
  Two() {
    arbitrary("controller", c);
    r = c;
    p = vec3<T>("p"), v = vec3<T>("v"), w = vec3<T>("w"), pd = vec3<T>("pd"), vd = vec3<T>("vd"), ad = vec3<T>("ad"), wd = vec3<T>("wd");
    R = mat<M3<T>>("R");
    yaw = real<T>("yaw"), dt = real<T>("dt"), th = real<T>("thrust");
    vf_assume(dt > 0);
  }
  void acro(const VN<T, N> &m, T t, const V3<T> &rate) {
    VN<T, N> e = r.get_indi_controller().acro_to_motor_angular_velocity(w, t, rate, dt);
    eq("rotor speeds of the rate loop", m, e);
    eq("rotor speed getter", c.get_desired_motor_angular_velocity(), e);
    vf_eq("thrust getter", 0, c.get_desired_thrust(), t);
    eq("rates getter", c.get_desired_angular_velocity(), rate);
    same("rate loop state", c.get_indi_controller_const(), r.get_indi_controller_const());
  }
  void acc(const VN<T, N> &m, const V3<T> &a) {
    auto x = r.convert_linear_acceleration_to_acro(a, R, yaw, dt);
    eq("acceleration getter", c.get_desired_linear_acceleration(), a);
    acro(m, x.first, x.second);
  }
  void vel(const VN<T, N> &m, const V3<T> &s) {
    V3<T> a = r.get_velocity_controller().linear_velocity_to_linear_acceleration(v, s, dt);
    eq("velocity getter", c.get_desired_linear_velocity(), s);
    same("velocity loop state", c.get_velocity_controller_const(), r.get_velocity_controller_const());
    acc(m, a);
  }
};
template <class T, int N> void chain(int level) {
  Two<T, N> t;
  if (level == 0) t.acro(t.c.compute_acro_control(t.w, t.th, t.wd, t.dt), t.th, t.wd);
  if (level == 1) t.acc(t.c.compute_acceleration_control(t.R, t.w, t.ad, t.yaw, t.dt), t.ad);
  if (level == 2) t.vel(t.c.compute_velocity_control(t.v, t.R, t.w, t.vd, t.yaw, t.dt), t.vd);
  if (level == 3) {
    VN<T, N> m = t.c.compute_position_control(t.p, t.R, t.v, t.w, t.pd, t.yaw, t.dt);
    V3<T> s = t.r.get_position_controller().position_to_linear_velocity(t.p, t.pd, t.dt);
    eq("position getter", t.c.get_desired_position(), t.pd);
    t.vel(m, s);
  }
  if (level == 4) {
    VN<T, N> m = t.c.compute_trajectory_control(t.p, t.v, t.R, t.w, t.pd, t.vd, t.ad, t.yaw, t.dt);
    V3<T> a = t.r.get_trajectory_controller().trajectory_to_linear_acceleration(t.p, t.v, t.pd, t.vd, t.ad, t.dt);
    eq("position getter", t.c.get_desired_position(), t.pd);
    eq("velocity getter", t.c.get_desired_linear_velocity(), t.vd);
    t.acc(m, a);
  }
  // a loop that is not part of the chosen cascade keeps its state
  if (level != 4) same("trajectory loop state", t.c.get_trajectory_controller_const(), t.r.get_trajectory_controller_const());
  if (level != 3) same("position loop state", t.c.get_position_controller_const(), t.r.get_position_controller_const());
  if (level != 2 && level != 3) same("velocity loop state", t.c.get_velocity_controller_const(), t.r.get_velocity_controller_const());
  if (level == 4) same("trajectory loop state", t.c.get_trajectory_controller_const(), t.r.get_trajectory_controller_const());
  if (level == 3) same("position loop state", t.c.get_position_controller_const(), t.r.get_position_controller_const());
}
// each loop is a PID on reference minus state
template <class T, int N> void loops() {
  Two<T, N> t;
  Pid<T> pos = t.r.get_position_controller_const(), vel = t.r.get_velocity_controller_const(), traj = t.r.get_trajectory_controller_const();
  V3<T> ep = t.pd - t.p, ev = t.vd - t.v;
  V3<T> a = t.c.convert_position_to_linear_velocity(t.p, t.pd, t.dt);
  eq("position loop", a, pos.compute_control(t.dt, ep));
  eq("position error", t.c.get_position_controller_const().get_position_error(), ep);
  eq("position loop getter", t.c.get_position_controller_const().get_desired_linear_velocity(), a);
  V3<T> b = t.c.convert_linear_velocity_to_linear_acceleration(t.v, t.vd, t.dt);
  eq("velocity loop", b, vel.compute_control(t.dt, ev));
  eq("velocity error", t.c.get_velocity_controller_const().get_velocity_error(), ev);
  eq("velocity loop getter", t.c.get_velocity_controller_const().get_desired_linear_acceleration(), b);
  V3<T> d = t.c.convert_trajectory_to_linear_acceleration(t.p, t.v, t.pd, t.vd, t.ad, t.dt);
  V3<T> fb = traj.compute_control(t.dt, ep, ev);
  eq("trajectory loop = feedback + feed-forward", d, V3<T>(fb + t.ad));
  eq("trajectory position error", t.c.get_trajectory_controller_const().get_position_error(), ep);
  eq("trajectory velocity error", t.c.get_trajectory_controller_const().get_velocity_error(), ev);
  VN<T, N> m = t.c.convert_acro_to_motor_angular_velocity(t.w, t.th, t.wd, t.dt);
  eq("rate loop", m, t.r.get_indi_controller().acro_to_motor_angular_velocity(t.w, t.th, t.wd, t.dt));
}
VF_ENTRY(C33_acro_d4, (chain<double, 4>(0)))
VF_ENTRY(C33_acceleration_d4, (chain<double, 4>(1)))
VF_ENTRY(C33_velocity_d4, (chain<double, 4>(2)))
VF_ENTRY(C33_position_d4, (chain<double, 4>(3)))
VF_ENTRY(C33_trajectory_d4, (chain<double, 4>(4)))
VF_ENTRY(C33_position_f4, (chain<float, 4>(3)))
VF_ENTRY(C33_trajectory_f6, (chain<float, 6>(4)))
VF_ENTRY(C33_position_d6, (chain<double, 6>(3)))
VF_ENTRY(C33_position_d8, (chain<double, 8>(3)))
VF_ENTRY(C33_position_d3, (chain<double, 3>(3)))
VF_ENTRY(C33_loops_d4, (loops<double, 4>()))
VF_ENTRY(C33_loops_f4, (loops<float, 4>()))
#endif

#ifdef VF_ONLY_C34  // ---- controller parameters
template <class T, int N> void holds(const Controller<T, N> &c, const ControllerParams<T, N> &p) {
  const Acro<T> &a = c.get_acro_controller_const();
  vf_eq("mass", 0, a.get_vehicle_mass(), p.acro_controller_params.vehicle_mass);
  eq("gravity", a.get_gravity(), p.acro_controller_params.gravity);
  eq("attitude gains", a.get_kp_rot(), p.acro_controller_params.kp_rot);
  const Indi<T, N> &i = c.get_indi_controller_const();
  eq("inertia", i.get_inertia(), p.indi_controller_params.inertia);
  eq("allocation", i.get_mixer_matrix_inverse(), p.indi_controller_params.mixer_matrix_inverse);
  eq_pid<T>("rate loop", i.get_params(), p.indi_controller_params.pid_params);
  eq_pid<T>("position loop", c.get_position_controller_const().get_params(), p.position_controller_params.pid_params);
  eq_pid<T>("trajectory loop", c.get_trajectory_controller_const().get_params(), p.trajectory_controller_params.pid_params);
  eq_pid<T>("velocity loop", c.get_velocity_controller_const().get_params(), p.velocity_controller_params.pid_params);
}
template <class T, int N> void built() {
  auto p = any_controller<T, N>();
  Controller<T, N> c(p);
  holds<T, N>(c, p);
  Controller<T, N> d(p.acro_controller_params, p.indi_controller_params, p.position_controller_params,
                     p.trajectory_controller_params, p.velocity_controller_params);
  holds<T, N>(d, p);
  Acro<T> a(p.acro_controller_params.vehicle_mass, p.acro_controller_params.kp_rot, p.acro_controller_params.gravity);
  Acro<T> a2(p.acro_controller_params);
  for (auto *x : {&a, &a2}) {
    eq("mass", x->get_vehicle_mass(), p.acro_controller_params.vehicle_mass);
    eq("attitude gain", x->get_kp_rot(), p.acro_controller_params.kp_rot);
    eq("gravity", x->get_gravity(), p.acro_controller_params.gravity);
  }
  Indi<T, N> i(p.indi_controller_params.inertia, p.indi_controller_params.mixer_matrix_inverse, p.indi_controller_params.pid_params);
  eq("inertia", i.get_inertia(), p.indi_controller_params.inertia);
  eq("allocation", i.get_mixer_matrix_inverse(), p.indi_controller_params.mixer_matrix_inverse);
  eq_pid<T>("rate loop", i.get_params(), p.indi_controller_params.pid_params);
  eq_pid<T>("position loop", position_controller::PositionController<T>(p.position_controller_params.pid_params).get_params(),
            p.position_controller_params.pid_params);
  eq_pid<T>("velocity loop", velocity_controller::VelocityController<T>(p.velocity_controller_params.pid_params).get_params(),
            p.velocity_controller_params.pid_params);
  eq_pid<T>("trajectory loop", trajectory_controller::TrajectoryController<T>(p.trajectory_controller_params.pid_params).get_params(),
            p.trajectory_controller_params.pid_params);
}
template <class T, int N> void updated() {
  auto p = any_controller<T, N>();
  Controller<T, N> c;
  arbitrary("controller", c);
  c.update_params(p);
  holds<T, N>(c, p);
}
// one component's parameters never reach another component
template <class T, int N> void isolated(int which) {
  auto p = any_controller<T, N>();
  Controller<T, N> c;
  arbitrary("controller", c);
  Controller<T, N> o = c;
  if (which == 0) c.update_acro_controller_params(p.acro_controller_params);
  if (which == 1) c.update_indi_controller_params(p.indi_controller_params);
  if (which == 2) c.update_position_controller_params(p.position_controller_params);
  if (which == 3) c.update_trajectory_controller_params(p.trajectory_controller_params);
  if (which == 4) c.update_velocity_controller_params(p.velocity_controller_params);
  if (which == 5) c.reset_controller();
  if (which != 0) same("acro untouched", c.get_acro_controller_const(), o.get_acro_controller_const());
  if (which == 0 || (which > 1 && which < 5)) same("rate loop untouched", c.get_indi_controller_const(), o.get_indi_controller_const());
  if (which != 2 && which < 5) same("position loop untouched", c.get_position_controller_const(), o.get_position_controller_const());
  if (which != 3 && which < 5) same("trajectory loop untouched", c.get_trajectory_controller_const(), o.get_trajectory_controller_const());
  if (which != 4 && which < 5) same("velocity loop untouched", c.get_velocity_controller_const(), o.get_velocity_controller_const());
  eq("motor command kept", c.get_desired_motor_angular_velocity(), o.get_desired_motor_angular_velocity());
  if (which != 5) return;
  // a reset of the controller is a reset of every loop, and of nothing else
  o.get_indi_controller().reset_controller();
  o.get_position_controller().reset_controller();
  o.get_trajectory_controller().reset_controller();
  o.get_velocity_controller().reset_controller();
  same("rate loop reset", c.get_indi_controller_const(), o.get_indi_controller_const());
  same("position loop reset", c.get_position_controller_const(), o.get_position_controller_const());
  same("trajectory loop reset", c.get_trajectory_controller_const(), o.get_trajectory_controller_const());
  same("velocity loop reset", c.get_velocity_controller_const(), o.get_velocity_controller_const());
}
VF_ENTRY(C34_built_d4, (built<double, 4>()))
VF_ENTRY(C34_built_f4, (built<float, 4>()))
VF_ENTRY(C34_updated_d4, (updated<double, 4>()))
VF_ENTRY(C34_updated_d6, (updated<double, 6>()))
VF_ENTRY(C34_updated_d8, (updated<double, 8>()))
VF_ENTRY(C34_updated_d3, (updated<double, 3>()))
VF_ENTRY(C34_updated_f4, (updated<float, 4>()))
VF_ENTRY(C34_only_acro_d4, (isolated<double, 4>(0)))
VF_ENTRY(C34_only_indi_d4, (isolated<double, 4>(1)))
VF_ENTRY(C34_only_position_d4, (isolated<double, 4>(2)))
VF_ENTRY(C34_only_trajectory_d4, (isolated<double, 4>(3)))
VF_ENTRY(C34_only_velocity_d4, (isolated<double, 4>(4)))
VF_ENTRY(C34_reset_d4, (isolated<double, 4>(5)))
#endif
