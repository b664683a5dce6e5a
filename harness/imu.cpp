#include "dyn.hpp"
#include "reach_imu.hpp"
using namespace vf;
template <class T> using IMU = imu::IMU<T>;
template <class T> using IMUParams = imu::IMUParams<T>;
template <class T> using Odom = imu::InertialOdometry<T>;

template <class T> struct Sensor {
  T vg, va, cg, ca;
  int seed;
  Eigen::Quaternion<T> q;
  Sensor() {
    vg = real<T>("gyro_var"), va = real<T>("accel_var"), cg = real<T>("gyro_walk"), ca = real<T>("accel_walk");
    seed = vf_int("seed", 0);
    q = quat<T>("mount");
    vf_assume(vg > 0);
    vf_assume(va > 0);
    vf_assume(cg > 0);
    vf_assume(ca > 0);
  }
  IMUParams<T> params() const {
    IMUParams<T> p;
    p.gyro_noise_var = vg;
    p.accel_noise_var = va;
    p.gyro_bias_noise_autocorr_time = cg;
    p.accel_bias_noise_autocorr_time = ca;
    p.imu_orientation = q;
    p.seed = seed;
    return p;
  }
};
template <class T> struct Draws {
  std::default_random_engine gen;
  std::normal_distribution<T> nd{0.0, 1.0};
  explicit Draws(int seed) { gen.seed(seed); }
  T operator()() { return nd(gen); }
};

#ifdef VF_ONLY_C20  // ---- what the sensor measures
// no noise: the rotated truth plus the bias, whatever happened before
template <class T> void exact(bool setter) {
  Sensor<T> s;
  auto p = s.params();
  p.gyro_noise_var = p.accel_noise_var = p.gyro_bias_noise_autocorr_time = p.accel_bias_noise_autocorr_time = 0;
  // the orientation of the sensor is the one given, in whatever way it is given
  IMU<T> u(p);
  if (setter) {
    arbitrary("sensor", u);
    u.set_noise_variances(0, 0);
  }
  u.set_orientation(s.q);
  V3<T> bg = vec3<T>("bg"), ba = vec3<T>("ba"), f = vec3<T>("sf"), w = vec3<T>("w");
  u.set_bias(bg, ba, 0, 0);
  T dt = real<T>("dt");
  vf_assume(dt > 0);
  u.update(dt, f, w);
  M3<T> R = rot<T>(s.q);
  V3<T> g = tmul<T>(R, w), a = tmul<T>(R, f);
  eq("gyroscope", u.get_measurement_gyro(), V3<T>(g + bg));
  eq("accelerometer", u.get_measurement_accel(), V3<T>(a + ba));
  u.update(dt, V3<T>::Zero(), V3<T>::Zero());
  eq("gyroscope at rest", u.get_measurement_gyro(), bg);
  eq("accelerometer at rest", u.get_measurement_accel(), ba);
}
// with noise: twelve fresh standard normal draws per update
template <class T> void noisy(bool used) {
  Sensor<T> s;
  IMU<T> u(s.params());
  Draws<T> d(s.seed);
  if (used) {
    // at any later time
    reach(u);
    u.set_noise_variances(s.vg, s.va);
    u.set_bias_autocorrelation_time(s.cg, s.ca);
    u.set_random_seed(s.seed);
  } else {
    for (int i = 0; i < 6; i++) d();
  }
  u.set_orientation(s.q);
  T dt = real<T>("dt");
  vf_assume(dt > 0);
  V3<T> f = vec3<T>("sf"), w = vec3<T>("w");
  M3<T> R = rot<T>(s.q);
  V3<T> gt = tmul<T>(R, w), at = tmul<T>(R, f);
  for (int step = 0; step < 2; step++) {
    V3<T> bg0, ba0, bg, ba;
    u.get_bias(bg0, ba0);
    u.update(dt, f, w);
    u.get_bias(bg, ba);
    V3<T> g = u.get_measurement_gyro(), a = u.get_measurement_accel();
    T x[12], y[12];
    for (int i = 0; i < 3; i++) {
      x[i] = (bg[i] - bg0[i]) / (std::sqrt(s.cg / dt) * dt);
      x[3 + i] = (ba[i] - ba0[i]) / (std::sqrt(s.ca / dt) * dt);
      x[6 + i] = (g[i] - gt[i] - bg[i]) / std::sqrt(s.vg);
      x[9 + i] = (a[i] - at[i] - ba[i]) / std::sqrt(s.va);
    }
    for (int i = 0; i < 12; i++) y[i] = d();
    permutation<T, 12>("measurement = truth + bias + sqrt(var) * normal; bias walks by sqrt(S/dt) * dt * normal", x, y);
  }
}
VF_ENTRY(C20_exact_d, (exact<double>(false)))
VF_ENTRY(C20_setter_d, (exact<double>(true)))
VF_ENTRY(C20_exact_f, (exact<float>(false)))
VF_ENTRY(C20_noisy_d, (noisy<double>(false)))
VF_ENTRY(C20_noisy_f, (noisy<float>(false)))
VF_ENTRY(C20_later_d, (noisy<double>(true)))
VF_ENTRY(C20_later_f, (noisy<float>(true)))
#endif

#ifdef VF_ONLY_C21  // ---- construction, reset, setters, non-positive steps
template <class T> void construct() {
  Sensor<T> s;
  IMU<T> u(s.params()), v(s.vg, s.va, s.cg, s.ca, s.q, s.seed);
  V3<T> bg, ba, bv, av;
  {  // both constructors build the same sensor
    IMU<T> x = u;
    T dt = real<T>("dt");
    vf_assume(dt > 0);
    x.get_bias(bg, ba);
    v.get_bias(bv, av);
    eq("same gyroscope bias", bv, bg);
    eq("same accelerometer bias", av, ba);
    for (int k = 0; k < 2; k++) {
      if (k) {
        dt = real<T>("dt1");
        vf_assume(dt > 0);
      }
      x.update(dt, vec3<T>(k ? "sf1" : "sf"), vec3<T>(k ? "w1" : "w"));
      v.update(dt, vec3<T>(k ? "sf1" : "sf"), vec3<T>(k ? "w1" : "w"));
      eq("same gyroscope", v.get_measurement_gyro(), x.get_measurement_gyro());
      eq("same accelerometer", v.get_measurement_accel(), x.get_measurement_accel());
    }
  }
  u.get_bias(bg, ba);
  Draws<T> d(s.seed);
  T x[6], y[6];
  for (int i = 0; i < 3; i++) x[i] = bg[i] / std::sqrt(s.vg), x[3 + i] = ba[i] / std::sqrt(s.va);
  for (int i = 0; i < 6; i++) y[i] = d();
  permutation<T, 6>("initial bias", x, y);
  zero("gyro before the first update", u.get_measurement_gyro());
  zero("accel before the first update", u.get_measurement_accel());
  T a, b;
  u.get_variances(a, b);
  vf_eq("gyro variance", 0, a, s.vg);
  vf_eq("accel variance", 0, b, s.va);
}
// an ideal sensor has no bias and no noise
template <class T> void ideal(bool by_default) {
  IMU<T> u;
  if (!by_default) u = IMU<T>(0, 0, 0, 0, Eigen::Quaternion<T>::Identity(), vf_int("seed", 0));
  for (int i = 0; i < 3; i++) {
    V3<T> bg, ba, w = vec3<T>(i ? i > 1 ? "w2" : "w1" : "w"), f = vec3<T>(i ? i > 1 ? "sf2" : "sf1" : "sf");
    T dt = real<T>(i ? i > 1 ? "dt2" : "dt1" : "dt");
    vf_assume(dt > 0);
    u.get_bias(bg, ba);
    zero("gyro bias", bg);
    zero("accel bias", ba);
    u.update(dt, f, w);
    eq("gyro", u.get_measurement_gyro(), w);
    eq("accel", u.get_measurement_accel(), f);
  }
}
template <class T> void no_op() {
  IMU<T> u;
  arbitrary("imu", u);
  IMU<T> o = u;
  T dt = real<T>("dt");
  vf_assume(dt <= 0);
  u.update(dt, vec3<T>("sf"), vec3<T>("w"));
  same("a non-positive step does nothing", u, o);
}
template <class T> void setters() {
  IMU<T> u;
  arbitrary("imu", u);
  T a, b;
  V3<T> g0 = u.get_measurement_gyro(), a0 = u.get_measurement_accel(), x, y, x0, y0;
  u.get_bias(x0, y0);
  u.set_noise_variances(real<T>("vg"), real<T>("va"));
  u.get_variances(a, b);
  vf_eq("gyro variance", 0, a, real<T>("vg"));
  vf_eq("accel variance", 0, b, real<T>("va"));
  u.get_bias(x, y);
  eq("gyro bias kept", x, x0);
  eq("accel bias kept", y, y0);
  u.set_bias_autocorrelation_time(real<T>("cg"), real<T>("ca"));
  u.get_bias(x, y);
  eq("gyro bias kept", x, x0);
  eq("accel bias kept", y, y0);
  u.set_bias(vec3<T>("bg"), vec3<T>("ba"), real<T>("cg"), real<T>("ca"));
  u.get_bias(x, y);
  eq("gyro bias set", x, vec3<T>("bg"));
  eq("accel bias set", y, vec3<T>("ba"));
  u.set_random_seed(3);
  u.get_variances(a, b);
  vf_eq("gyro variance", 1, a, real<T>("vg"));
  vf_eq("accel variance", 1, b, real<T>("va"));
  eq("gyro kept", u.get_measurement_gyro(), g0);
  eq("accel kept", u.get_measurement_accel(), a0);
  V3<T> p, q;
  u.get_measurement(p, q);
  eq("gyro overload", p, g0);
  eq("accel overload", q, a0);
  u.get_measurement_gyro(p);
  u.get_measurement_accel(q);
  eq("gyro overload", p, g0);
  eq("accel overload", q, a0);
  auto pr = u.get_measurement();
  eq("pair gyro", V3<T>(pr.first), g0);
  eq("pair accel", V3<T>(pr.second), a0);
  u.reset();
  u.get_bias(x, y);
  zero("gyro bias reset", x);
  zero("accel bias reset", y);
  zero("gyro reset", u.get_measurement_gyro());
  zero("accel reset", u.get_measurement_accel());
  u.get_variances(a, b);
  vf_eq("gyro variance after reset", 0, a, real<T>("vg"));
  vf_eq("accel variance after reset", 0, b, real<T>("va"));
}
// the autocorrelation set last is the one that drives the walk; a re-seeded sensor repeats
template <class T> void walk() {
  Sensor<T> s;
  IMU<T> u(0, 0, real<T>("c1"), real<T>("c2"), s.q, 1);
  T dt = real<T>("dt");
  vf_assume(dt > 0);
  u.set_bias(V3<T>::Zero(), V3<T>::Zero(), 0, 0);
  u.set_bias_autocorrelation_time(s.cg, s.ca);
  IMU<T> v = u;
  u.set_random_seed(s.seed);
  v.set_random_seed(s.seed);
  u.update(dt, vec3<T>("sf"), vec3<T>("w"));
  v.update(dt, vec3<T>("sf"), vec3<T>("w"));
  same("same seed, same walk", u, v);
  V3<T> x, y;
  u.get_bias(x, y);
  T a = 0, b = 0, c = 0, e = 0;
  Draws<T> d(s.seed);
  T g[12];
  for (int i = 0; i < 12; i++) g[i] = d();
  for (int i = 0; i < 3; i++) a += x[i] / (std::sqrt(s.cg / dt) * dt), b += y[i] / (std::sqrt(s.ca / dt) * dt), c += g[i], e += g[3 + i];
  vf_eq("bias walk", 0, a + b, c + e);
}
VF_ENTRY(C21_construct_d, (construct<double>()))
VF_ENTRY(C21_construct_f, (construct<float>()))
VF_ENTRY(C21_ideal_d, (ideal<double>(false)))
VF_ENTRY(C21_default_d, (ideal<double>(true)))
VF_ENTRY(C21_default_f, (ideal<float>(true)))
VF_ENTRY(C21_noop_d, (no_op<double>()))
VF_ENTRY(C21_noop_f, (no_op<float>()))
VF_ENTRY(C21_setters_d, (setters<double>()))
VF_ENTRY(C21_setters_f, (setters<float>()))
VF_ENTRY(C21_walk_d, (walk<double>()))
#endif

#ifdef VF_ONLY_C22  // ---- inertial odometry
template <class T> void step() {
  Odom<T> o;
  arbitrary("odom", o);
  auto q = quat<T>("q");
  V3<T> v0 = o.get_linear_velocity(), p0 = o.get_position(), w0 = o.get_angular_velocity(), a0 = o.get_linear_acceleration();
  o.set_initial_orientation(q);
  eq("orientation set", o.get_orientation(), q);
  eq("velocity kept", o.get_linear_velocity(), v0);
  eq("position kept", o.get_position(), p0);
  eq("angular velocity kept", o.get_angular_velocity(), w0);
  eq("acceleration kept", o.get_linear_acceleration(), a0);
  T dt = real<T>("dt");
  o.update(vec3<T>("gyro"), vec3<T>("accel"), dt);
  V3<T> a = o.get_linear_acceleration(), w = o.get_angular_velocity();
  V3<T> v = v0 + a * dt, p = p0 + v * dt;
  eq("velocity", o.get_linear_velocity(), v);
  eq("position", o.get_position(), p);
  eq("orientation", o.get_orientation(), advance<T>(q, w, dt));
  V3<T> P, V, W, A;
  Eigen::Quaternion<T> Q;
  o.get_measurement(P, Q, V, W, A);
  eq("position overload", P, o.get_position());
  eq("orientation overload", Q, o.get_orientation());
  eq("velocity overload", V, o.get_linear_velocity());
  eq("angular velocity overload", W, o.get_angular_velocity());
  eq("acceleration overload", A, o.get_linear_acceleration());
  o.reset();
  zero("position reset", o.get_position());
  eq("orientation reset", o.get_orientation(), q);
  zero("velocity reset", o.get_linear_velocity());
  zero("angular velocity reset", o.get_angular_velocity());
  zero("acceleration reset", o.get_linear_acceleration());
}
template <class T> void alike(const char *l, Odom<T> a, Odom<T> b) {
  for (int k = 0; k < 2; k++) {
    eq(l, a.get_position(), b.get_position());
    eq(l, a.get_orientation(), b.get_orientation());
    eq(l, a.get_linear_velocity(), b.get_linear_velocity());
    eq(l, a.get_angular_velocity(), b.get_angular_velocity());
    eq(l, a.get_linear_acceleration(), b.get_linear_acceleration());
    if (k) break;
    a.update(vec3<T>("gyro"), vec3<T>("accel"), real<T>("dt"));
    b.update(vec3<T>("gyro"), vec3<T>("accel"), real<T>("dt"));
  }
}
template <class T> void filter() {
  imu::InertialOdometryParams<T> p;
  p.alpha = real<T>("alpha");
  p.initial_world_orientation = quat<T>("q");
  Odom<T> o(p), o2(p.alpha, p.initial_world_orientation);
  alike<T>("both constructors build the same odometry", o, o2);
  eq("initial orientation", o.get_orientation(), p.initial_world_orientation);
  zero("initial position", o.get_position());
  zero("initial velocity", o.get_linear_velocity());
  V3<T> fg = V3<T>::Zero(), fa = V3<T>::Zero();
  const char *gn[] = {"g0", "g1"}, *an[] = {"a0", "a1"};
  T dt = real<T>("dt");
  auto q = p.initial_world_orientation;
  for (int k = 0; k < 2; k++) {
    if (k) {
      counters(o);
      dt = real<T>("dt1");
    }
    V3<T> g = vec3<T>(gn[k]), a = vec3<T>(an[k]);
    for (int i = 0; i < 3; i++) {
      fg[i] = p.alpha * g[i] + (1 - p.alpha) * fg[i];
      fa[i] = p.alpha * a[i] + (1 - p.alpha) * fa[i];
    }
    o.update(g, a, dt);
    eq("filtered gyro is the angular velocity", o.get_angular_velocity(), fg);
    V3<T> wa = mul<T>(rot<T>(q), fa);
    eq("filtered acceleration in the world frame", o.get_linear_acceleration(), wa);
    q = o.get_orientation();
    vf_eq("unit orientation", k, q.w() * q.w() + q.x() * q.x() + q.y() * q.y() + q.z() * q.z(), 1);
  }
  // a reset odometry starts again
  o.reset();
  alike<T>("reset is as good as new", o, o2);
}
// by default nothing is filtered and the odometry starts level
template <class T> void plain() {
  Odom<T> a, b(T(1), Eigen::Quaternion<T>(1, 0, 0, 0));
  alike<T>("default odometry", a, b);
}
VF_ENTRY(C22_default_d, (plain<double>()))
VF_ENTRY(C22_step_d, (step<double>()))
VF_ENTRY(C22_step_f, (step<float>()))
VF_ENTRY(C22_lowpass_d, (filter<double>()))
VF_ENTRY(C22_lowpass_f, (filter<float>()))
#endif
