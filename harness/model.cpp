#include "dyn.hpp"
using namespace vf;

#if defined(VF_ONLY_C14) || defined(VF_ONLY_C15)
// force and torque of one motor per squared rotor speed, and torque per rotor acceleration
template <class T> void motor_columns(const MotorParams<T> &m, V3<T> &f, V3<T> &t, V3<T> &j) {
  M3<T> R = m.pose.linear();
  V3<T> r = m.pose.translation();
  T dir = static_cast<T>(m.motor_rotation_direction);
  for (int k = 0; k < 3; k++) f[k] = R(k, 2) * m.thrust_coefficient;
  V3<T> rf = cross<T>(r, f);
  for (int k = 0; k < 3; k++) {
    t[k] = rf[k] + R(k, 2) * dir * m.torque_coefficient;
    j[k] = R(k, 2) * dir * m.rotational_inertia;
  }
}
#endif

#ifdef VF_ONLY_C14  // ---- allocation matrices
template <class T, int N> void columns(const std::vector<MotorParams<T>> &motors, const Eigen::Matrix<T, 6, N> &mix,
                                       const Eigen::Matrix<T, 3, N> &inertia) {
  for (int i = 0; i < N; i++) {
    V3<T> f, t, j;
    motor_columns<T>(motors[i], f, t, j);
    for (int k = 0; k < 3; k++) {
      vf_eq("force column", 3 * i + k, mix(k, i), f[k]);
      vf_eq("torque column", 3 * i + k, mix(3 + k, i), t[k]);
      vf_eq("inertia column", 3 * i + k, inertia(k, i), j[k]);
    }
  }
}
template <class T, int N> void statics() {
  auto p = any_params<T, N>();
  columns<T, N>(p.motors_params, Model<T, N>::template compute_mixer_matrix<6>(p.motors_params),
                Model<T, N>::compute_mixer_inertia_matrix(p.motors_params));
}
// the matrices a model keeps are those of its parameters, by construction and by update
template <class T, int N> void held(Model<T, N> &m, const ModelParams<T, N> &p) {
  columns<T, N>(p.motors_params, m.get_mixer_matrix(), m.get_mixer_inertia_matrix());
  for (int i = 0; i < N; i++) {
    vf_eq("force vector", i, m.get_mixer_force_vector()[i], m.get_mixer_matrix()(2, i));
    for (int k = 0; k < 3; k++) {
      vf_eq("force matrix", 3 * i + k, m.get_mixer_force_matrix()(k, i), m.get_mixer_matrix()(k, i));
      vf_eq("torque matrix", 3 * i + k, m.get_mixer_torque_matrix()(k, i), m.get_mixer_matrix()(3 + k, i));
    }
  }
}
template <class T, int N> void built() {
  auto p = any_params<T, N>();
  Model<T, N> probe;
  vf_assume(probe.check_params(p));
  Model<T, N> m(p, vf_int("seed", 0));
  held<T, N>(m, p);
}
template <class T, int N> void updated() {
  auto p = any_params<T, N>();
  Model<T, N> m;
  arbitrary("model", m);
  vf_assume(m.check_params(p));
  m.update_params(p);
  held<T, N>(m, p);
}
VF_ENTRY(C14_statics_d4, (statics<double, 4>()))
VF_ENTRY(C14_statics_d6, (statics<double, 6>()))
VF_ENTRY(C14_statics_d8, (statics<double, 8>()))
VF_ENTRY(C14_statics_d3, (statics<double, 3>()))
VF_ENTRY(C14_statics_f4, (statics<float, 4>()))
VF_ENTRY(C14_built_d4, (built<double, 4>()))
VF_ENTRY(C14_built_d6, (built<double, 6>()))
VF_ENTRY(C14_built_d8, (built<double, 8>()))
VF_ENTRY(C14_built_d3, (built<double, 3>()))
VF_ENTRY(C14_built_f4, (built<float, 4>()))
VF_ENTRY(C14_updated_d4, (updated<double, 4>()))
VF_ENTRY(C14_updated_d8, (updated<double, 8>()))
#endif

#ifdef VF_ONLY_C15  // ---- airframe layouts, planar mixer
template <class T, int N> void planar() {
  auto p = any_params<T, N>();
  for (auto &m : p.motors_params) m.pose.linear() = M3<T>::Identity();
  auto m4 = Model<T, N>::template compute_mixer_matrix<4>(p.motors_params);
  auto d4 = Model<T, N>::compute_mixer_matrix_4D(p.motors_params);
  for (int i = 0; i < N; i++) {
    V3<T> f, t, j;
    motor_columns<T>(p.motors_params[i], f, t, j);
    vf_eq("thrust row", i, m4(0, i), f[2]);
    vf_eq("lateral force", i, f[0] + f[1], 0);
    for (int k = 0; k < 3; k++) vf_eq("torque row", 3 * i + k, m4(1 + k, i), t[k]);
    for (int k = 0; k < 4; k++) vf_eq("the two names agree", 4 * i + k, m4(k, i), d4(k, i));
  }
}
template <class T> void layout(const std::vector<MotorParams<T>> &m, int n, const T *x, const T *y, const int *dir, T kt, T km,
                               T lo, T hi, T tau, T J) {
  vf_eqi("number of motors", 0, m.size(), n);
  for (int i = 0; i < n; i++) {
    vf_eq("thrust coefficient", i, m[i].thrust_coefficient, kt);
    vf_eq("torque coefficient", i, m[i].torque_coefficient, km);
    vf_eq("minimum speed", i, m[i].min_speed, lo);
    vf_eq("maximum speed", i, m[i].max_speed, hi);
    vf_eq("time constant", i, m[i].time_constant, tau);
    vf_eq("rotational inertia", i, m[i].rotational_inertia, J);
    vf_eqi("rotation direction", i, m[i].motor_rotation_direction, dir[i]);
    vf_eq("motor x", i, m[i].pose.translation().x(), x[i]);
    vf_eq("motor y", i, m[i].pose.translation().y(), y[i]);
    vf_eq("motor z", i, m[i].pose.translation().z(), 0);
    for (int r = 0; r < 3; r++)
      for (int c = 0; c < 3; c++) vf_eq("motor axes", 9 * i + 3 * r + c, m[i].pose.linear()(r, c), r == c);
  }
}
template <class T> void layouts() {
  T kt = real<T>("kt"), km = real<T>("km"), dx = real<T>("dx"), dy = real<T>("dy"), lo = real<T>("lo"), hi = real<T>("hi"),
    tau = real<T>("tau"), J = real<T>("J");
  const int d[6] = {1, -1, 1, -1, 1, -1};
  const T xx[4] = {dx, dx, -dx, -dx}, xy[4] = {-dy, dy, dy, -dy};
  layout<T>(Model<T, 4>::create_quadrotor_x_config(kt, km, dx, dy, lo, hi, tau, J), 4, xx, xy, d, kt, km, lo, hi, tau, J);
  const T px[4] = {dx, 0, -dx, 0}, py[4] = {0, dy, 0, -dy};
  layout<T>(Model<T, 4>::create_quadrotor_plus_config(kt, km, dx, dy, lo, hi, tau, J), 4, px, py, d, kt, km, lo, hi, tau, J);
  const T c = T(0.5), s = T(0.86602540378443864676);
  const T hx[6] = {dx, dx * c, -dx * c, -dx, -dx * c, dx * c}, hy[6] = {0, dx * s, dx * s, 0, -dx * s, -dx * s};
  layout<T>(Model<T, 6>::create_hexacopter_config(kt, km, dx, lo, hi, tau, J), 6, hx, hy, d, kt, km, lo, hi, tau, J);
}
// equal rotor speeds lift the vehicle and do not turn it
template <class T, int N> void balanced(const std::vector<MotorParams<T>> &motors, T kt) {
  auto m = Model<T, N>::template compute_mixer_matrix<6>(motors);
  for (int k = 0; k < 6; k++) {
    T s = 0;
    for (int i = 0; i < N; i++) s += m(k, i);
    vf_eq("wrench of equal squared speeds", k, s, k == 2 ? N * kt : T(0));
  }
}
template <class T> void balance() {
  T kt = real<T>("kt"), km = real<T>("km"), dx = real<T>("dx"), dy = real<T>("dy"), lo = real<T>("lo"), hi = real<T>("hi"),
    tau = real<T>("tau"), J = real<T>("J");
  balanced<T, 4>(Model<T, 4>::create_quadrotor_x_config(kt, km, dx, dy, lo, hi, tau, J), kt);
  balanced<T, 4>(Model<T, 4>::create_quadrotor_plus_config(kt, km, dx, dy, lo, hi, tau, J), kt);
  balanced<T, 6>(Model<T, 6>::create_hexacopter_config(kt, km, dx, lo, hi, tau, J), kt);
}
VF_ENTRY(C15_planar_d4, (planar<double, 4>()))
VF_ENTRY(C15_planar_d6, (planar<double, 6>()))
VF_ENTRY(C15_planar_d8, (planar<double, 8>()))
VF_ENTRY(C15_planar_d3, (planar<double, 3>()))
VF_ENTRY(C15_planar_f4, (planar<float, 4>()))
VF_ENTRY(C15_layouts_d, (layouts<double>()))
VF_ENTRY(C15_layouts_f, (layouts<float>()))
VF_ENTRY(C15_balance_d, (balance<double>()))
#endif

#ifdef VF_ONLY_C16  // ---- parameter validation
template <class T> T det(const M3<T> &a) {
  return a(0, 0) * (a(1, 1) * a(2, 2) - a(1, 2) * a(2, 1)) - a(0, 1) * (a(1, 0) * a(2, 2) - a(1, 2) * a(2, 0)) +
         a(0, 2) * (a(1, 0) * a(2, 1) - a(1, 1) * a(2, 0));
}
template <class T, int N> bool valid(const ModelParams<T, N> &p) {
  bool ok = p.vehicle_mass >= 0 && det<T>(p.vehicle_inertia) >= 0 && p.vehicle_drag_coefficient >= 0 &&
            det<T>(p.vehicle_aero_moment_coefficient) >= 0;
  for (auto &m : p.motors_params)
    ok = ok && m.max_speed >= m.min_speed && m.time_constant >= 0 && m.rotational_inertia >= 0 && m.thrust_coefficient >= 0 &&
         m.torque_coefficient >= 0;
  return ok;
}
template <class T, int N> void predicate() {
  auto p = any_params<T, N>();
  Model<T, N> m;
  vf_true("check_params accepts exactly the valid parameters", 0, m.check_params(p) == valid<T, N>(p));
}
template <class T, int N> void wrong_count(int n) {
  auto p = any_params<T, N>(n);
  Model<T, N> m;
  vf_true("a wrong number of motors is rejected", n, !m.check_params(p));
  ModelParams<T, N> q;
  m.update_params(p);
  vf_eqi("motors kept", n, m.get_num_rotors(), N);
}
template <class T, int N> void setter(bool ok) {
  auto p = any_params<T, N>();
  Model<T, N> m;
  any_model<T, N>(m);
  vf_assume(valid<T, N>(p) == ok);
  Model<T, N> old = m;
  m.update_params(p);
  if (ok) {
    eq_params<T, N>(m.get_params(), p);
    // noise and generator are not touched by new parameters
    eq("stochastic force", m.get_stochastic_force(), old.get_stochastic_force());
    eq("stochastic moment", m.get_stochastic_moment(), old.get_stochastic_moment());
  } else {
    same("a rejected update leaves the model as it was", m, old);
  }
}
template <class T, int N> void getters() {
  Model<T, N> m;
  any_model<T, N>(m);
  auto &p = m.get_params();
  vf_eq("mass", 0, m.get_mass(), p.vehicle_mass);
  eq("inertia", m.get_vehicle_inertia(), p.vehicle_inertia);
  vf_eq("drag", 0, m.get_vehicle_drag_coefficient(), p.vehicle_drag_coefficient);
  eq("aero", m.get_vehicle_aero_moment_coefficient(), p.vehicle_aero_moment_coefficient);
  eq("gravity", m.get_gravity(), p.gravity);
  vf_eq("force noise", 0, m.get_force_process_noise_auto_correlation(), p.force_process_noise_auto_correlation);
  vf_eq("moment noise", 0, m.get_moment_process_noise_auto_correlation(), p.moment_process_noise_auto_correlation);
  vf_eqi("rotors", 0, m.get_num_rotors(), N);
  for (int i = 0; i < N; i++) eq_motor<T>(m.get_motors()[i], p.motors_params[i]);
}
VF_ENTRY(C16_predicate_d4, (predicate<double, 4>()))
VF_ENTRY(C16_predicate_d6, (predicate<double, 6>()))
VF_ENTRY(C16_predicate_d8, (predicate<double, 8>()))
VF_ENTRY(C16_predicate_d3, (predicate<double, 3>()))
VF_ENTRY(C16_predicate_f4, (predicate<float, 4>()))
VF_ENTRY(C16_count_d4, (wrong_count<double, 4>(0), wrong_count<double, 4>(3), wrong_count<double, 4>(5), wrong_count<double, 4>(8)))
VF_ENTRY(C16_count_d6, (wrong_count<double, 6>(4)))
VF_ENTRY(C16_accepted_d4, (setter<double, 4>(true)))
VF_ENTRY(C16_rejected_d4, (setter<double, 4>(false)))
VF_ENTRY(C16_accepted_f4, (setter<float, 4>(true)))
VF_ENTRY(C16_rejected_d2, (setter<double, 2>(false)))
VF_ENTRY(C16_getters_d4, (getters<double, 4>()))
#endif

#ifdef VF_ONLY_C17  // ---- aerodynamics and thrust
template <class T, int N> void aero() {
  Model<T, N> m;
  any_model<T, N>(m);
  V3<T> v = vec3<T>("v"), w = vec3<T>("w");
  V3<T> drag = m.get_drag_force(v), mom = m.get_aerodynamic_moment(w);
  T cd = real<T>("cd");
  M3<T> cm = mat<M3<T>>("cm");
  V3<T> sdrag = Model<T, N>::get_drag_force(cd, v), smom = Model<T, N>::get_aerodynamic_moment(cm, w);
  V3<T> aw = mul<T>(m.get_vehicle_aero_moment_coefficient(), w), cw = mul<T>(cm, w);
  T n = norm<T>(w);
  for (int k = 0; k < 3; k++) {
    vf_eq("drag", k, drag[k], -m.get_vehicle_drag_coefficient() * sq<T>(v[k]));
    vf_eq("drag of a coefficient", k, sdrag[k], -cd * sq<T>(v[k]));
    vf_eq("aerodynamic moment", k, mom[k], -n * aw[k]);
    vf_eq("aerodynamic moment of a coefficient", k, smom[k], -n * cw[k]);
  }
}
// drag takes energy away
template <class T, int N> void dissipation() {
  V3<T> v = vec3<T>("v");
  T cd = real<T>("cd");
  vf_assume(cd >= 0);
  V3<T> d = Model<T, N>::get_drag_force(cd, v);
  for (int k = 0; k < 3; k++) vf_true("drag opposes motion", k, d[k] * v[k] <= 0);
}
template <class T, int N> void thrust() {
  Model<T, N> m;
  any_model<T, N>(m);
  VN<T, N> w = mat<VN<T, N>>("mw"), a = mat<VN<T, N>>("mdw");
  Eigen::Matrix<T, 3, N> A = mat<Eigen::Matrix<T, 3, N>>("A"), B = mat<Eigen::Matrix<T, 3, N>>("B");
  VN<T, N> c = mat<VN<T, N>>("c");
  V3<T> f = m.get_force_vector_thrust_by_motors(w), t = m.get_torque_by_motors(w, a);
  V3<T> sf = Model<T, N>::get_force_vector_thrust_by_motors(A, w), st = Model<T, N>::get_torque_by_motors(A, B, w, a);
  T z = 0, sz = 0;
  for (int i = 0; i < N; i++) z += m.get_mixer_force_vector()[i] * sq<T>(w[i]), sz += c[i] * sq<T>(w[i]);
  vf_eq("thrust", 0, m.get_force_thrust_by_motors(w), z);
  vf_eq("thrust of a mixer", 0, Model<T, N>::get_force_thrust_by_motors(c, w), sz);
  for (int k = 0; k < 3; k++) {
    T F = 0, M = 0, SF = 0, SM = 0;
    for (int i = 0; i < N; i++) {
      F += m.get_mixer_force_matrix()(k, i) * sq<T>(w[i]);
      M += m.get_mixer_torque_matrix()(k, i) * sq<T>(w[i]) + m.get_mixer_inertia_matrix()(k, i) * a[i];
      SF += A(k, i) * sq<T>(w[i]);
      SM += A(k, i) * sq<T>(w[i]) + B(k, i) * a[i];
    }
    vf_eq("force", k, f[k], F);
    vf_eq("torque", k, t[k], M);
    vf_eq("force of a mixer", k, sf[k], SF);
    vf_eq("torque of a mixer", k, st[k], SM);
  }
}
VF_ENTRY(C17_aero_d4, (aero<double, 4>()))
VF_ENTRY(C17_aero_f4, (aero<float, 4>()))
VF_ENTRY(C17_dissipation_d4, (dissipation<double, 4>()))
VF_ENTRY(C17_thrust_d4, (thrust<double, 4>()))
VF_ENTRY(C17_thrust_d6, (thrust<double, 6>()))
VF_ENTRY(C17_thrust_d8, (thrust<double, 8>()))
VF_ENTRY(C17_thrust_d3, (thrust<double, 3>()))
VF_ENTRY(C17_thrust_f4, (thrust<float, 4>()))
#endif

#ifdef VF_ONLY_C18  // ---- process noise
template <class T, int N> void noise() {
  auto p = ModelParams<T, N>();
  T Sf = real<T>("S_force"), Sm = real<T>("S_moment"), dt = real<T>("dt");
  vf_assume(Sf > 0);
  vf_assume(Sm > 0);
  vf_assume(dt > 0);
  p.force_process_noise_auto_correlation = Sf;
  p.moment_process_noise_auto_correlation = Sm;
  int seed = vf_int("seed", 0);
  Model<T, N> m(p, seed);
  std::default_random_engine gen;
  gen.seed(seed);
  std::normal_distribution<T> nd(0.0, 1.0);
  for (int step = 0; step < 3; step++) {
    if (step) counters(m);
    m.set_stochastic_noise(dt);
    T g[6], x[6];
    for (int i = 0; i < 6; i++) g[i] = nd(gen);
    for (int i = 0; i < 3; i++) {
      x[i] = m.get_stochastic_force()[i] / std::sqrt(Sf / dt);
      x[3 + i] = m.get_stochastic_moment()[i] / std::sqrt(Sm / dt);
    }
    permutation<T, 6>("six standard normal draws scaled by sqrt(S/dt)", x, g);
  }
  m.disable_stochastic_noise();
  zero("force disabled", m.get_stochastic_force());
  zero("moment disabled", m.get_stochastic_moment());
}
// a non-positive step switches the noise off; zero auto-correlation gives zero
template <class T, int N> void off() {
  Model<T, N> m;
  any_model<T, N>(m);
  T dt = real<T>("dt");
  vf_assume(dt <= 0);
  m.set_stochastic_noise(dt);
  zero("force for a non-positive step", m.get_stochastic_force());
  zero("moment for a non-positive step", m.get_stochastic_moment());
  Model<T, N> z(ModelParams<T, N>(), vf_int("seed", 0));
  T d = real<T>("d");
  vf_assume(d > 0);
  z.set_stochastic_noise(d);
  zero("force without noise", z.get_stochastic_force());
  zero("moment without noise", z.get_stochastic_moment());
}
// the noise is a function of the generator, the correlations and dt only, and touches nothing else
template <class T, int N> void frame() {
  Model<T, N> m;
  any_model<T, N>(m);
  Model<T, N> o = m;
  T dt = real<T>("dt");
  m.set_stochastic_noise(dt);
  eq_params<T, N>(m.get_params(), o.get_params());
  eq("mixer", m.get_mixer_matrix(), o.get_mixer_matrix());
  eq("inertia mixer", m.get_mixer_inertia_matrix(), o.get_mixer_inertia_matrix());
  eq("force mixer", m.get_mixer_force_matrix(), o.get_mixer_force_matrix());
  eq("torque mixer", m.get_mixer_torque_matrix(), o.get_mixer_torque_matrix());
  eq("force vector", m.get_mixer_force_vector(), o.get_mixer_force_vector());
}
VF_ENTRY(C18_noise_d4, (noise<double, 4>()))
VF_ENTRY(C18_noise_f4, (noise<float, 4>()))
VF_ENTRY(C18_off_d4, (off<double, 4>()))
VF_ENTRY(C18_keeps_d4, (frame<double, 4>()))
#endif
