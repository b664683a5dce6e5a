#include "vf.hpp"
#include "reach_pid.hpp"
using namespace vf;
// one interface for the N-dimensional and the scalar controller
template <class T, int N> struct Nd {
  using C = pid_controller::PID<T, N>;
  using Params = pid_controller::PIDParams<T, N>;
  using V = Eigen::Matrix<T, N, 1>;
  enum { n = N };
  static V any(const char *s) { return mat<V>(s); }
  static V all(T x) { return V::Constant(x); }
  static T at(const V &v, int i) { return v[i]; }
  static void update(C &c, const Params &p) { c.update_pid_params(p); }
  static void kp(C &c, const V &v) { c.set_gains_kp(v); }
  static void ki(C &c, const V &v) { c.set_gains_ki(v); }
  static void kd(C &c, const V &v) { c.set_gains_kd(v); }
  static V kp(const C &c) { return c.get_gains_kp(); }
  static V ki(const C &c) { return c.get_gains_ki(); }
  static V kd(const C &c) { return c.get_gains_kd(); }
};
template <class T> struct Sc {
  using C = pid_1d_controller::PID<T>;
  using Params = pid_1d_controller::PIDParams<T>;
  using V = T;
  enum { n = 1 };
  static V any(const char *s) { return real<T>(s); }
  static V all(T x) { return x; }
  static T at(const V &v, int) { return v; }
  static void update(C &c, const Params &p) { c.update_params(p); }
  static void kp(C &c, const V &v) { c.set_kp(v); }
  static void ki(C &c, const V &v) { c.set_ki(v); }
  static void kd(C &c, const V &v) { c.set_kd(v); }
  static V kp(const C &c) { return c.get_kp(); }
  static V ki(const C &c) { return c.get_ki(); }
  static V kd(const C &c) { return c.get_kd(); }
};
template <class K> void veq(const char *l, const typename K::V &a, const typename K::V &b) {
  for (int i = 0; i < K::n; i++) vf_eq(l, i, K::at(a, i), K::at(b, i));
}
template <class K> void vzero(const char *l, const typename K::V &a) { veq<K>(l, a, K::all(0)); }

// a controller with an arbitrary past, no limit of any kind, and its state made visible
template <class T, class K> struct Past {
  typename K::C c;
  typename K::V acc, slope, last;
  T dt;
  Past() {
    arbitrary("pid", c);
    c.set_gains(K::all(1), K::all(1), K::all(1));
    c.set_anti_windup(K::all(0));
    c.set_reset_integral_saturation_flag(false);
    c.disable_output_saturation();
    T dt0 = real<T>("dt0");
    dt = real<T>("dt");
    vf_assume(dt0 > 0);
    vf_assume(dt > 0);
    last = K::any("e0");
    c.compute_control(dt0, last);
    acc = c.get_integral_error_contribution();
    slope = c.get_derivative_error_contribution();
    c.set_gains(K::any("kp"), K::any("ki"), K::any("kd"));
    c.set_alpha(K::any("alpha"));
  }
};

#ifdef VF_ONLY_C24  // ---- the PID law
template <class T, class K> void law(bool given) {
  using V = typename K::V;
  Past<T, K> s;
  V e = K::any("e"), de = K::any("de"), kp = K::any("kp"), ki = K::any("ki"), kd = K::any("kd"), al = K::any("alpha");
  V out = given ? s.c.compute_control(s.dt, e, de) : s.c.compute_control(s.dt, e);
  for (int i = 0; i < K::n; i++) {
    T acc = K::at(s.acc, i) + K::at(e, i) * s.dt;
    T f = given ? K::at(de, i)
                : K::at(al, i) * (K::at(e, i) - K::at(s.last, i)) / s.dt + (1 - K::at(al, i)) * K::at(s.slope, i);
    vf_eq("proportional contribution", i, K::at(s.c.get_proportional_error_contribution(), i), K::at(kp, i) * K::at(e, i));
    vf_eq("integral contribution", i, K::at(s.c.get_integral_error_contribution(), i), K::at(ki, i) * acc);
    vf_eq("derivative contribution", i, K::at(s.c.get_derivative_error_contribution(), i), K::at(kd, i) * f);
    vf_eq("output", i, K::at(out, i), K::at(kp, i) * K::at(e, i) + K::at(ki, i) * acc + K::at(kd, i) * f);
  }
  veq<K>("stored output", s.c.get_output(), out);
  veq<K>("stored error", s.c.get_proportional_error(), e);
  if (given) veq<K>("stored derivative error", s.c.get_derivative_error(), de);
  // the next call goes on from here
  V e2 = K::any("e2");
  T dt2 = real<T>("dt2");
  vf_assume(dt2 > 0);
  V o2 = s.c.compute_control(dt2, e2);
  for (int i = 0; i < K::n; i++) {
    T acc = K::at(s.acc, i) + K::at(e, i) * s.dt + K::at(e2, i) * dt2;
    vf_eq("integral goes on", i, K::at(s.c.get_integral_error_contribution(), i), K::at(ki, i) * acc);
    if (!given) {
      T f = K::at(al, i) * (K::at(e, i) - K::at(s.last, i)) / s.dt + (1 - K::at(al, i)) * K::at(s.slope, i);
      f = K::at(al, i) * (K::at(e2, i) - K::at(e, i)) / dt2 + (1 - K::at(al, i)) * f;
      vf_eq("derivative goes on", i, K::at(s.c.get_derivative_error_contribution(), i), K::at(kd, i) * f);
    }
  }
  (void)o2;
}
template <class T, class K> void first(bool given) {
  using V = typename K::V;
  typename K::Params p;
  p.Kp_gains = K::any("kp");
  p.Ki_gains = K::any("ki");
  p.Kd_gains = K::any("kd");
  p.alpha = K::any("alpha");
  typename K::C c(p);
  T dt = real<T>("dt");
  vf_assume(dt > 0);
  V e = K::any("e"), de = K::any("de");
  V out = given ? c.compute_control(dt, e, de) : c.compute_control(dt, e);
  for (int i = 0; i < K::n; i++)
    vf_eq("first output: no slope yet, one rectangle of integral", i, K::at(out, i),
          K::at(p.Kp_gains, i) * K::at(e, i) + K::at(p.Ki_gains, i) * K::at(e, i) * dt +
              (given ? K::at(p.Kd_gains, i) * K::at(de, i) : T(0)));
}
template <class T, class K> void errors() {
  using V = typename K::V;
  V s = K::any("s"), r = K::any("r"), sd = K::any("sd"), rd = K::any("rd"), a, b;
  V d = K::C::get_error(s, r);
  K::C::get_error(s, r, sd, rd, a, b);
  for (int i = 0; i < K::n; i++) {
    vf_eq("error = reference - state", i, K::at(d, i), K::at(r, i) - K::at(s, i));
    vf_eq("error = reference - state, out parameter", i, K::at(a, i), K::at(r, i) - K::at(s, i));
    vf_eq("derivative error", i, K::at(b, i), K::at(rd, i) - K::at(sd, i));
  }
}
#define ALL(name, T, s) \
  VF_ENTRY(C24_##name##_##s##3, (name<T, Nd<T, 3>>())) \
  VF_ENTRY(C24_##name##_##s##1, (name<T, Sc<T>>()))
VF_ENTRY(C24_law_d3, (law<double, Nd<double, 3>>(false)))
VF_ENTRY(C24_law_given_d3, (law<double, Nd<double, 3>>(true)))
VF_ENTRY(C24_law_d1, (law<double, Sc<double>>(false)))
VF_ENTRY(C24_law_given_d1, (law<double, Sc<double>>(true)))
VF_ENTRY(C24_law_f3, (law<float, Nd<float, 3>>(false)))
VF_ENTRY(C24_law_f1, (law<float, Sc<float>>(false)))
VF_ENTRY(C24_law_d2, (law<double, Nd<double, 2>>(false)))
VF_ENTRY(C24_begin_d3, (first<double, Nd<double, 3>>(false)))
VF_ENTRY(C24_begin_given_d3, (first<double, Nd<double, 3>>(true)))
VF_ENTRY(C24_begin_d1, (first<double, Sc<double>>(false)))
VF_ENTRY(C24_begin_given_d1, (first<double, Sc<double>>(true)))
VF_ENTRY(C24_begin_f3, (first<float, Nd<float, 3>>(false)))
VF_ENTRY(C24_law_dvec1, (law<double, Nd<double, 1>>(false)))
VF_ENTRY(C24_law_given_dvec6, (law<double, Nd<double, 6>>(true)))
VF_ENTRY(C24_law_dvec6, (law<double, Nd<double, 6>>(false)))
VF_ENTRY(C24_begin_dvec1, (first<double, Nd<double, 1>>(false)))
VF_ENTRY(C24_begin_dvec6, (first<double, Nd<double, 6>>(false)))
ALL(errors, double, d)
ALL(errors, float, f)
#endif

#ifdef VF_ONLY_C25  // ---- output saturation
template <class T> T clamp_(T x, T lo, T hi) { return x > hi ? hi : (x < lo ? lo : x); }
template <class T, int N> void clamp_n() {
  using K = Nd<T, N>;
  auto o = K::any("o"), u = K::any("u"), l = K::any("l");
  for (int i = 0; i < N; i++) vf_assume(l[i] < u[i]);
  auto s = K::C::saturate_output(o, u, l);
  auto s2 = K::C::saturate_output(o, u, l, false);
  for (int i = 0; i < N; i++) {
    vf_eq("per-axis clamp", i, s[i], clamp_<T>(o[i], l[i], u[i]));
    vf_eq("per-axis clamp, explicit", i, s2[i], clamp_<T>(o[i], l[i], u[i]));
    vf_true("within the limits", i, s[i] <= u[i] && s[i] >= l[i]);
  }
}
template <class T> void clamp_1() {
  T o = real<T>("o"), u = real<T>("u"), l = real<T>("l");
  vf_assume(l < u);
  T s = pid_1d_controller::PID<T>::saturate_output(o, u, l);
  vf_eq("clamp", 0, s, clamp_<T>(o, l, u));
  vf_true("within the limits", 0, s <= u && s >= l);
}
template <class T, int N> void proportional(int orthant) {
  using K = Nd<T, N>;
  auto o = K::any("o"), u = K::any("u"), l = K::any("l");
  for (int i = 0; i < N; i++) {
    if (orthant >> i & 1) vf_assume(o[i] <= 0);
    else vf_assume(o[i] >= 0);
    vf_assume(l[i] < 0);
    vf_assume(u[i] > 0);
  }
  auto s = K::C::saturate_output(o, u, l, true);
  // the largest common factor not above one that brings every axis inside
  T k = 1;
  for (int i = 0; i < N; i++) {
    T f = 1;
    if (o[i] > u[i]) f = u[i] / o[i];
    else if (o[i] < l[i]) f = l[i] / o[i];
    if (f < k) k = f;
  }
  for (int i = 0; i < N; i++) vf_eq("same direction, largest factor that fits", i, s[i], k * o[i]);
}
template <class T, class K> void applied(bool given) {
  using V = typename K::V;
  Past<T, K> s;
  V u = K::any("u"), l = K::any("l"), e = K::any("e"), de = K::any("de");
  for (int i = 0; i < K::n; i++) vf_assume(K::at(u, i) - K::at(l, i) > T(1));
  auto c = s.c;
  c.set_output_saturation(u, l);
  vf_true("enabled", 0, c.get_output_saturation_flag());
  V raw = given ? s.c.compute_control(s.dt, e, de) : s.c.compute_control(s.dt, e);
  V out = given ? c.compute_control(s.dt, e, de) : c.compute_control(s.dt, e);
  for (int i = 0; i < K::n; i++) {
    vf_eq("the output is the clamped law", i, K::at(out, i), clamp_<T>(K::at(raw, i), K::at(l, i), K::at(u, i)));
    vf_true("within the limits", i, K::at(out, i) <= K::at(u, i) && K::at(out, i) >= K::at(l, i));
  }
  veq<K>("stored output", c.get_output(), out);
  veq<K>("the integral does not see the clamp", c.get_integral_error_contribution(), s.c.get_integral_error_contribution());
  c.disable_output_saturation();
  vf_true("disabled", 0, !c.get_output_saturation_flag());
  V o1 = c.compute_control(s.dt, de), o2 = s.c.compute_control(s.dt, de);
  veq<K>("no clamp once disabled", o1, o2);
}
template <class T> void applied_prop(bool given) {
  using K = Nd<T, 2>;
  using V = typename K::V;
  Past<T, K> s;
  V u = K::any("u"), l = K::any("l"), e = K::any("e"), de = K::any("de");
  for (int i = 0; i < K::n; i++) {
    vf_assume(u[i] > 1);
    vf_assume(l[i] < -1);
  }
  auto c = s.c, c2 = s.c;
  c.set_output_saturation(u, l, true);
  vf_true("proportional", 0, c.get_proportional_saturation_flag());
  V raw = given ? s.c.compute_control(s.dt, e, de) : s.c.compute_control(s.dt, e);
  V out = given ? c.compute_control(s.dt, e, de) : c.compute_control(s.dt, e);
  veq<K>("the output is the scaled law", out, K::C::saturate_output(raw, u, l, true));
  c2.set_output_saturation(u, l);
  vf_true("not proportional", 0, !c2.get_proportional_saturation_flag());
  c2.set_proportional_saturation_flag(true);
  V out2 = given ? c2.compute_control(s.dt, e, de) : c2.compute_control(s.dt, e);
  veq<K>("the flag alone selects the scaling", out2, out);
}
VF_ENTRY(C25_clamp_d3, (clamp_n<double, 3>()))
VF_ENTRY(C25_clamp_f3, (clamp_n<float, 3>()))
VF_ENTRY(C25_clamp_dvec1, (clamp_n<double, 1>()))
VF_ENTRY(C25_clamp_dvec6, (clamp_n<double, 6>()))
VF_ENTRY(C25_proportional0_dvec1, (proportional<double, 1>(0)))
VF_ENTRY(C25_proportional1_dvec1, (proportional<double, 1>(1)))
VF_ENTRY(C25_applied_dvec1, (applied<double, Nd<double, 1>>(false)))
VF_ENTRY(C25_applied_dvec6, (applied<double, Nd<double, 6>>(false)))
VF_ENTRY(C25_applied_given_dvec6, (applied<double, Nd<double, 6>>(true)))
VF_ENTRY(C25_clamp_d1, (clamp_1<double>()))
VF_ENTRY(C25_clamp_f1, (clamp_1<float>()))
VF_ENTRY(C25_proportional0_d2, (proportional<double, 2>(0)))
VF_ENTRY(C25_proportional1_d2, (proportional<double, 2>(1)))
VF_ENTRY(C25_proportional2_d2, (proportional<double, 2>(2)))
VF_ENTRY(C25_proportional3_d2, (proportional<double, 2>(3)))
VF_ENTRY(C25_proportional0_d3, (proportional<double, 3>(0)))
VF_ENTRY(C25_proportional1_d3, (proportional<double, 3>(1)))
VF_ENTRY(C25_proportional2_d3, (proportional<double, 3>(2)))
VF_ENTRY(C25_proportional3_d3, (proportional<double, 3>(3)))
VF_ENTRY(C25_proportional4_d3, (proportional<double, 3>(4)))
VF_ENTRY(C25_proportional5_d3, (proportional<double, 3>(5)))
VF_ENTRY(C25_proportional6_d3, (proportional<double, 3>(6)))
VF_ENTRY(C25_proportional7_d3, (proportional<double, 3>(7)))
VF_ENTRY(C25_applied_d3, (applied<double, Nd<double, 3>>(false)))
VF_ENTRY(C25_applied_given_d3, (applied<double, Nd<double, 3>>(true)))
VF_ENTRY(C25_applied_d1, (applied<double, Sc<double>>(false)))
VF_ENTRY(C25_applied_given_d1, (applied<double, Sc<double>>(true)))
VF_ENTRY(C25_applied_prop_d2, (applied_prop<double>(false)))
VF_ENTRY(C25_applied_prop_given_d2, (applied_prop<double>(true)))
#endif

#ifdef VF_ONLY_C26  // ---- anti-windup
template <class T, class K> void windup(bool given, bool reset) {
  using V = typename K::V;
  Past<T, K> s;
  s.c.set_gains(K::any("kp"), K::all(1), K::any("kd"));
  V aw = K::any("aw"), e = K::any("e"), de = K::any("de");
  for (int i = 0; i < K::n; i++) vf_assume(K::at(aw, i) > 0);
  s.c.set_anti_windup(aw);
  s.c.set_reset_integral_saturation_flag(reset);
  V out = given ? s.c.compute_control(s.dt, e, de) : s.c.compute_control(s.dt, e);
  V a = s.c.get_integral_error_contribution();
  for (int i = 0; i < K::n; i++) {
    T x = K::at(s.acc, i) + K::at(e, i) * s.dt, w = K::at(aw, i);
    vf_true("accumulated error within the anti-windup", i, K::at(a, i) <= w && K::at(a, i) >= -w);
    if (!reset) vf_eq("clamped accumulator", i, K::at(a, i), x > w ? w : (x < -w ? -w : x));
    vf_eq("and it is what reaches the output", i, K::at(out, i),
          K::at(s.c.get_proportional_error_contribution(), i) + K::at(a, i) + K::at(s.c.get_derivative_error_contribution(), i));
  }
  // the clamp limits what is stored, not only what is used: no hidden windup
  if (!reset) {
    s.c.set_anti_windup(K::all(0));
    s.c.compute_control(s.dt, K::any("e3"));
    for (int i = 0; i < K::n; i++)
      vf_eq("no hidden windup", i, K::at(s.c.get_integral_error_contribution(), i), K::at(a, i) + real<T>("e3", i) * s.dt);
  }
}
VF_ENTRY(C26_windup_d3, (windup<double, Nd<double, 3>>(false, false)))
VF_ENTRY(C26_windup_given_d3, (windup<double, Nd<double, 3>>(true, false)))
VF_ENTRY(C26_windup_d1, (windup<double, Sc<double>>(false, false)))
VF_ENTRY(C26_windup_given_d1, (windup<double, Sc<double>>(true, false)))
VF_ENTRY(C26_windup_f3, (windup<float, Nd<float, 3>>(false, false)))
VF_ENTRY(C26_windup_f1, (windup<float, Sc<float>>(false, false)))
VF_ENTRY(C26_windup_r_d3, (windup<double, Nd<double, 3>>(false, true)))
VF_ENTRY(C26_windup_r_d1, (windup<double, Sc<double>>(false, true)))
VF_ENTRY(C26_windup_dvec1, (windup<double, Nd<double, 1>>(false, false)))
VF_ENTRY(C26_windup_r_dvec1, (windup<double, Nd<double, 1>>(false, true)))
VF_ENTRY(C26_windup_dvec6, (windup<double, Nd<double, 6>>(false, false)))
VF_ENTRY(C26_windup_given_dvec6, (windup<double, Nd<double, 6>>(true, false)))
#endif

#ifdef VF_ONLY_C27  // ---- reset
template <class T, class K> typename K::Params params() {
  typename K::Params p;
  p.Kp_gains = K::any("kp");
  p.Ki_gains = K::any("ki");
  p.Kd_gains = K::any("kd");
  p.antiwindup_cte = K::any("aw");
  p.alpha = K::any("alpha");
  p.reset_integral_flag = vf_bool("ri", 0);
  return p;
}
// given: bit k set if the k-th call after the reset supplies the derivative
template <class T, class K> void reset(int given) {
  using V = typename K::V;
  auto p = params<T, K>();
  for (int i = 0; i < K::n; i++) vf_assume(K::at(p.antiwindup_cte, i) > 0);
  typename K::C fresh(p), used;
  arbitrary("pid", used);
  K::update(used, p);
  used.reset_controller();
  V e = K::any("e"), de = K::any("de");
  T dt = real<T>("dt");
  vf_assume(dt > 0);
  for (int k = 0; k < 2; k++) {
    bool g = given >> k & 1;
    V a = g ? fresh.compute_control(dt, e, de) : fresh.compute_control(dt, e);
    V b = g ? used.compute_control(dt, e, de) : used.compute_control(dt, e);
    veq<K>(k ? "second output after a reset" : "first output after a reset", b, a);
    veq<K>("integral contribution", used.get_integral_error_contribution(), fresh.get_integral_error_contribution());
    veq<K>("derivative contribution", used.get_derivative_error_contribution(), fresh.get_derivative_error_contribution());
    veq<K>("error", used.get_proportional_error(), e);
    e = K::any("e2");
    de = K::any("de2");
    dt = real<T>("dt2");
    vf_assume(dt > 0);
  }
}
// a reset changes no parameter; a change of parameters is no reset
template <class T, class K> void keeps() {
  using V = typename K::V;
  typename K::C c;
  arbitrary("pid", c);
  V kp, ki, kd, kp2, ki2, kd2, u, l, u2, l2;
  c.get_gains(kp, ki, kd);
  c.get_saturation_limits(u, l);
  V aw = c.get_anti_windup(), al = c.get_alpha();
  bool r = c.get_reset_integral_saturation_flag(), s = c.get_output_saturation_flag();
  c.reset_controller();
  c.get_gains(kp2, ki2, kd2);
  c.get_saturation_limits(u2, l2);
  veq<K>("kp kept", kp2, kp);
  veq<K>("ki kept", ki2, ki);
  veq<K>("kd kept", kd2, kd);
  veq<K>("upper kept", u2, u);
  veq<K>("lower kept", l2, l);
  veq<K>("anti-windup kept", c.get_anti_windup(), aw);
  veq<K>("alpha kept", c.get_alpha(), al);
  vf_true("reset flag kept", 0, c.get_reset_integral_saturation_flag() == r);
  vf_true("saturation flag kept", 0, c.get_output_saturation_flag() == s);
}
template <class T, class K> void bumpless() {
  Past<T, K> s;
  typename K::Params p;
  p.Kp_gains = K::any("kp2");
  p.Ki_gains = K::all(1);
  p.Kd_gains = K::all(1);
  p.alpha = K::any("alpha");
  K::update(s.c, p);
  typename K::V e = K::any("e"), al = p.alpha;
  s.c.compute_control(s.dt, e);
  for (int i = 0; i < K::n; i++) {
    vf_eq("the integral survives a change of parameters", i, K::at(s.c.get_integral_error_contribution(), i),
          K::at(s.acc, i) + K::at(e, i) * s.dt);
    vf_eq("the derivative survives a change of parameters", i, K::at(s.c.get_derivative_error_contribution(), i),
          K::at(al, i) * (K::at(e, i) - K::at(s.last, i)) / s.dt + (1 - K::at(al, i)) * K::at(s.slope, i));
  }
}
VF_ENTRY(C27_reset_d3, (reset<double, Nd<double, 3>>(0)))
VF_ENTRY(C27_reset_given_d3, (reset<double, Nd<double, 3>>(3)))
VF_ENTRY(C27_reset_then_d3, (reset<double, Nd<double, 3>>(1)))
VF_ENTRY(C27_reset_late_d3, (reset<double, Nd<double, 3>>(2)))
VF_ENTRY(C27_reset_d1, (reset<double, Sc<double>>(0)))
VF_ENTRY(C27_reset_given_d1, (reset<double, Sc<double>>(3)))
VF_ENTRY(C27_reset_then_d1, (reset<double, Sc<double>>(1)))
VF_ENTRY(C27_reset_late_d1, (reset<double, Sc<double>>(2)))
VF_ENTRY(C27_keeps_d3, (keeps<double, Nd<double, 3>>()))
VF_ENTRY(C27_keeps_d1, (keeps<double, Sc<double>>()))
VF_ENTRY(C27_bumpless_d3, (bumpless<double, Nd<double, 3>>()))
VF_ENTRY(C27_bumpless_d1, (bumpless<double, Sc<double>>()))
VF_ENTRY(C27_bumpless_f3, (bumpless<float, Nd<float, 3>>()))
VF_ENTRY(C27_reset_dvec1, (reset<double, Nd<double, 1>>(0)))
VF_ENTRY(C27_reset_then_dvec1, (reset<double, Nd<double, 1>>(1)))
VF_ENTRY(C27_keeps_dvec1, (keeps<double, Nd<double, 1>>()))
VF_ENTRY(C27_bumpless_dvec1, (bumpless<double, Nd<double, 1>>()))
VF_ENTRY(C27_reset_dvec6, (reset<double, Nd<double, 6>>(0)))
VF_ENTRY(C27_reset_then_dvec6, (reset<double, Nd<double, 6>>(1)))
VF_ENTRY(C27_keeps_dvec6, (keeps<double, Nd<double, 6>>()))
VF_ENTRY(C27_bumpless_dvec6, (bumpless<double, Nd<double, 6>>()))
#endif

#ifdef VF_ONLY_C28  // ---- parameters
template <class P> auto prop(P &p, bool b, int) -> decltype(p.proportional_saturation_flag, void()) { p.proportional_saturation_flag = b; }
template <class P> void prop(P &, bool, long) {}
template <class P> auto prop(const P &p, int) -> decltype(p.proportional_saturation_flag) { return p.proportional_saturation_flag; }
template <class P> bool prop(const P &, long) { return false; }
template <class K> typename K::Params params() {
  typename K::Params p;
  p.Kp_gains = K::any("kp");
  p.Ki_gains = K::any("ki");
  p.Kd_gains = K::any("kd");
  p.antiwindup_cte = K::any("aw");
  p.alpha = K::any("alpha");
  p.reset_integral_flag = vf_bool("ri", 0);
  prop(p, vf_bool("pr", 0), 0);
  p.upper_output_saturation = K::any("u");
  p.lower_output_saturation = K::any("l");
  return p;
}
template <class K> void cmp(const typename K::Params &a, const typename K::Params &b, bool limits) {
  veq<K>("kp", a.Kp_gains, b.Kp_gains);
  veq<K>("ki", a.Ki_gains, b.Ki_gains);
  veq<K>("kd", a.Kd_gains, b.Kd_gains);
  veq<K>("anti-windup", a.antiwindup_cte, b.antiwindup_cte);
  veq<K>("alpha", a.alpha, b.alpha);
  vf_true("reset flag", 0, a.reset_integral_flag == b.reset_integral_flag);
  vf_true("proportional flag", 0, prop(a, 0) == prop(b, 0));
  if (!limits) return;
  veq<K>("upper limit", a.upper_output_saturation, b.upper_output_saturation);
  veq<K>("lower limit", a.lower_output_saturation, b.lower_output_saturation);
}
template <class T, class K> void round_trip() {
  auto p = params<K>();
  for (int i = 0; i < K::n; i++) vf_assume(K::at(p.upper_output_saturation, i) - K::at(p.lower_output_saturation, i) > T(0.001));
  typename K::C c;
  arbitrary("pid", c);
  K::update(c, p);
  cmp<K>(c.get_params(), p, true);
  vf_true("valid limits enable the saturation", 0, c.get_output_saturation_flag());
  typename K::C f(p);
  cmp<K>(f.get_params(), p, true);
  vf_true("valid limits enable the saturation at construction", 0, f.get_output_saturation_flag());
  typename K::V a, b, d;
  c.get_gains(a, b, d);
  veq<K>("get_gains kp", a, p.Kp_gains);
  veq<K>("get_gains ki", b, p.Ki_gains);
  veq<K>("get_gains kd", d, p.Kd_gains);
  veq<K>("get kp", K::kp(c), p.Kp_gains);
  veq<K>("get ki", K::ki(c), p.Ki_gains);
  veq<K>("get kd", K::kd(c), p.Kd_gains);
  // each setter touches its own parameter only
  auto q = p;
  K::kp(c, q.Kp_gains = K::any("kp2"));
  cmp<K>(c.get_params(), q, true);
  K::ki(c, q.Ki_gains = K::any("ki2"));
  cmp<K>(c.get_params(), q, true);
  K::kd(c, q.Kd_gains = K::any("kd2"));
  cmp<K>(c.get_params(), q, true);
  c.set_anti_windup(q.antiwindup_cte = K::any("aw2"));
  cmp<K>(c.get_params(), q, true);
  c.set_alpha(q.alpha = K::any("alpha2"));
  cmp<K>(c.get_params(), q, true);
  c.set_reset_integral_saturation_flag(q.reset_integral_flag = vf_bool("ri2", 0));
  cmp<K>(c.get_params(), q, true);
  vf_true("saturation still enabled", 0, c.get_output_saturation_flag());
}
template <class T, class K> void invalid(int axis, int how) {
  auto p = params<K>();
  typename K::C c;
  arbitrary("pid", c);
  if (how == 0) p.upper_output_saturation = p.lower_output_saturation = K::all(0);
  if (how == 1) vf_assume(K::at(p.upper_output_saturation, axis) < K::at(p.lower_output_saturation, axis));
  if (how == 2) vf_assume(K::at(p.upper_output_saturation, axis) == K::at(p.lower_output_saturation, axis));
  K::update(c, p);
  vf_true("zero, equal or crossed limits leave the output free", 0, !c.get_output_saturation_flag());
  cmp<K>(c.get_params(), p, false);
  typename K::C d;
  arbitrary("pid2", d);
  if (how == 0) return;
  d.set_output_saturation(p.upper_output_saturation, p.lower_output_saturation);
  vf_true("setter: equal or crossed limits leave the output free", 0, !d.get_output_saturation_flag());
}
template <class T, class K> void defaults() {
  typename K::C c;
  auto p = c.get_params();
  veq<K>("kp", p.Kp_gains, K::all(0));
  veq<K>("ki", p.Ki_gains, K::all(0));
  veq<K>("kd", p.Kd_gains, K::all(0));
  veq<K>("anti-windup", p.antiwindup_cte, K::all(0));
  veq<K>("alpha", p.alpha, K::all(1));
  vf_true("no saturation", 0, !c.get_output_saturation_flag());
  vf_true("no integral reset", 0, !c.get_reset_integral_saturation_flag());
  vzero<K>("output", c.get_output());
  vzero<K>("error", c.get_proportional_error());
  vzero<K>("derivative error", c.get_derivative_error());
  vzero<K>("proportional contribution", c.get_proportional_error_contribution());
  vzero<K>("integral contribution", c.get_integral_error_contribution());
  vzero<K>("derivative contribution", c.get_derivative_error_contribution());
}
VF_ENTRY(C28_round_d3, (round_trip<double, Nd<double, 3>>()))
VF_ENTRY(C28_round_f3, (round_trip<float, Nd<float, 3>>()))
VF_ENTRY(C28_round_d1, (round_trip<double, Sc<double>>()))
VF_ENTRY(C28_round_f1, (round_trip<float, Sc<float>>()))
VF_ENTRY(C28_zero_d3, (invalid<double, Nd<double, 3>>(0, 0)))
VF_ENTRY(C28_crossed0_d3, (invalid<double, Nd<double, 3>>(0, 1)))
VF_ENTRY(C28_crossed1_d3, (invalid<double, Nd<double, 3>>(1, 1)))
VF_ENTRY(C28_crossed2_d3, (invalid<double, Nd<double, 3>>(2, 1)))
VF_ENTRY(C28_equal0_d3, (invalid<double, Nd<double, 3>>(0, 2)))
VF_ENTRY(C28_equal2_d3, (invalid<double, Nd<double, 3>>(2, 2)))
VF_ENTRY(C28_zero_d1, (invalid<double, Sc<double>>(0, 0)))
VF_ENTRY(C28_crossed_d1, (invalid<double, Sc<double>>(0, 1)))
VF_ENTRY(C28_equal_d1, (invalid<double, Sc<double>>(0, 2)))
VF_ENTRY(C28_defaults_d3, (defaults<double, Nd<double, 3>>()))
VF_ENTRY(C28_defaults_d1, (defaults<double, Sc<double>>()))
VF_ENTRY(C28_round_dvec1, (round_trip<double, Nd<double, 1>>()))
VF_ENTRY(C28_zero_dvec1, (invalid<double, Nd<double, 1>>(0, 0)))
VF_ENTRY(C28_crossed0_dvec1, (invalid<double, Nd<double, 1>>(0, 1)))
VF_ENTRY(C28_defaults_dvec1, (defaults<double, Nd<double, 1>>()))
VF_ENTRY(C28_round_dvec6, (round_trip<double, Nd<double, 6>>()))
VF_ENTRY(C28_zero_dvec6, (invalid<double, Nd<double, 6>>(0, 0)))
VF_ENTRY(C28_crossed0_dvec6, (invalid<double, Nd<double, 6>>(0, 1)))
VF_ENTRY(C28_defaults_dvec6, (defaults<double, Nd<double, 6>>()))
VF_ENTRY(C28_crossed5_dvec6, (invalid<double, Nd<double, 6>>(5, 1)))
#endif

#ifdef VF_ONLY_C29  // ---- the scalar and the N-dimensional controller are the same controller
template <class T, int N> void siblings(bool aw, bool sat, int overloads) {
  using V = Eigen::Matrix<T, N, 1>;
  pid_controller::PIDParams<T, N> p;
  p.Kp_gains = mat<V>("kp");
  p.Ki_gains = mat<V>("ki");
  p.Kd_gains = mat<V>("kd");
  p.alpha = mat<V>("alpha");
  p.reset_integral_flag = vf_bool("ri", 0);
  if (aw) {
    p.antiwindup_cte = mat<V>("aw");
    for (int i = 0; i < N; i++) vf_assume(p.antiwindup_cte[i] > 0);
  }
  if (sat) {
    p.upper_output_saturation = mat<V>("u");
    p.lower_output_saturation = mat<V>("l");
    for (int i = 0; i < N; i++) vf_assume(p.upper_output_saturation[i] - p.lower_output_saturation[i] > T(0.001));
  }
  pid_controller::PID<T, N> c(p);
  pid_1d_controller::PID<T> s[N];
  for (int i = 0; i < N; i++) {
    pid_1d_controller::PIDParams<T> q;
    q.Kp_gains = p.Kp_gains[i];
    q.Ki_gains = p.Ki_gains[i];
    q.Kd_gains = p.Kd_gains[i];
    q.alpha = p.alpha[i];
    q.reset_integral_flag = p.reset_integral_flag;
    q.antiwindup_cte = p.antiwindup_cte[i];
    q.upper_output_saturation = p.upper_output_saturation[i];
    q.lower_output_saturation = p.lower_output_saturation[i];
    s[i] = pid_1d_controller::PID<T>(q);
  }
  T dt = real<T>("dt");
  vf_assume(dt > 0);
  const char *en[] = {"e0", "e1"}, *dn[] = {"de0", "de1"};
  for (int k = 0; k < 2; k++) {
    bool given = overloads >> k & 1;
    if (k) {
      dt = real<T>("dt1");
      vf_assume(dt > 0);
    }
    V e = mat<V>(en[k]), de = mat<V>(dn[k]);
    V o = given ? c.compute_control(dt, e, de) : c.compute_control(dt, e);
    for (int i = 0; i < N; i++) {
      T x = given ? s[i].compute_control(dt, e[i], de[i]) : s[i].compute_control(dt, e[i]);
      vf_eq("output", i, o[i], x);
      vf_eq("integral", i, c.get_integral_error_contribution()[i], s[i].get_integral_error_contribution());
      vf_eq("derivative", i, c.get_derivative_error_contribution()[i], s[i].get_derivative_error_contribution());
      vf_eq("proportional", i, c.get_proportional_error_contribution()[i], s[i].get_proportional_error_contribution());
      vf_eq("stored error", i, c.get_proportional_error()[i], s[i].get_proportional_error());
      vf_eq("stored derivative error", i, c.get_derivative_error()[i], s[i].get_derivative_error());
      vf_eq("stored output", i, c.get_output()[i], s[i].get_output());
    }
  }
}
VF_ENTRY(C29_plain_d3, (siblings<double, 3>(false, false, 0)))
VF_ENTRY(C29_plain_given_d3, (siblings<double, 3>(false, false, 3)))
VF_ENTRY(C29_windup_d3, (siblings<double, 3>(true, false, 0)))
VF_ENTRY(C29_limits_d3, (siblings<double, 3>(false, true, 0)))
VF_ENTRY(C29_limits_given_d3, (siblings<double, 3>(false, true, 3)))
VF_ENTRY(C29_both_d2, (siblings<double, 2>(true, true, 0)))
VF_ENTRY(C29_windup_f3, (siblings<float, 3>(true, false, 0)))
VF_ENTRY(C29_plain_then_given_d3, (siblings<double, 3>(false, false, 2)))
VF_ENTRY(C29_given_then_plain_d3, (siblings<double, 3>(false, false, 1)))
VF_ENTRY(C29_windup_mixed_d2, (siblings<double, 2>(true, false, 1)))
VF_ENTRY(C29_windup_mixed2_d2, (siblings<double, 2>(true, false, 2)))
VF_ENTRY(C29_plain_dvec1, (siblings<double, 1>(false, false, 0)))
VF_ENTRY(C29_both_dvec1, (siblings<double, 1>(true, true, 0)))
VF_ENTRY(C29_limits_dvec6, (siblings<double, 6>(false, true, 0)))
VF_ENTRY(C29_windup_dvec6, (siblings<double, 6>(true, false, 3)))
#endif

#ifdef VF_ONLY_C30  // ---- the integral restarts when the error turns against a saturated integrator
template <class T, class K> void turn(bool given) {
  using V = typename K::V;
  Past<T, K> s;
  s.c.set_gains(K::all(1), K::all(1), K::all(1));
  V aw = K::any("aw"), e = K::any("e"), de = K::any("de");
  for (int i = 0; i < K::n; i++) vf_assume(K::at(aw, i) > 0);
  s.c.set_anti_windup(aw);
  s.c.set_reset_integral_saturation_flag(false);
  // saturate or not: any accumulator the clamp lets through
  s.c.compute_control(s.dt, K::any("e1"));
  V acc = s.c.get_integral_error_contribution();
  s.c.set_reset_integral_saturation_flag(true);
  if (given) s.c.compute_control(s.dt, e, de); else s.c.compute_control(s.dt, e);
  for (int i = 0; i < K::n; i++) {
    T w = K::at(aw, i), a = K::at(acc, i), x = K::at(e, i);
    bool full = a >= w || a <= -w;
    bool against = (a < 0) != (x < 0);
    T y = (full && against ? T(0) : a) + x * s.dt;
    y = y > w ? w : (y < -w ? -w : y);
    vf_eq("restarted only when saturated and opposed", i, K::at(s.c.get_integral_error_contribution(), i), y);
  }
}
VF_ENTRY(C30_turn_d3, (turn<double, Nd<double, 3>>(false)))
VF_ENTRY(C30_turn_given_d3, (turn<double, Nd<double, 3>>(true)))
VF_ENTRY(C30_turn_d1, (turn<double, Sc<double>>(false)))
VF_ENTRY(C30_turn_given_d1, (turn<double, Sc<double>>(true)))
VF_ENTRY(C30_turn_f3, (turn<float, Nd<float, 3>>(false)))
VF_ENTRY(C30_turn_f1, (turn<float, Sc<float>>(false)))
VF_ENTRY(C30_turn_dvec1, (turn<double, Nd<double, 1>>(false)))
VF_ENTRY(C30_turn_dvec6, (turn<double, Nd<double, 6>>(false)))
#endif
