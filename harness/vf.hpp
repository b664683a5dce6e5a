// Vocabulary of the analyser.  None of these functions has a body: the harness is
// never linked or run.  The analyser gives each of them a meaning on its abstract state.
#ifndef VF_HPP_
#define VF_HPP_
#include <Eigen/Dense>
#include <Eigen/Geometry>
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

// libstdc++ keeps the bodies of std::string in its shared library; instantiating them here puts them
// before the analyser like any other code.
template class std::basic_string<char>;

extern "C" {
double vf_real(const char *name, int idx);               // an arbitrary real
int vf_int(const char *name, int idx);                   // an arbitrary integer
bool vf_bool(const char *name, int idx);                 // an arbitrary flag
void vf_assume(bool c);                                  // restrict the states considered
void vf_eq(const char *label, int idx, double impl, double spec);  // obligation: equal
void vf_eqi(const char *label, int idx, long impl, long spec);     // obligation: equal
void vf_true(const char *label, int idx, bool c);        // obligation: always true
// obligation impl == spec; the recorded defect `id` is impl == known instead
void vf_known(const char *id, const char *label, int idx, double impl, double spec, double known);
void vf_havoc(const char *name, void *obj, unsigned long size);    // arbitrary contents (pointers kept)
void vf_havoc_ints(const char *type, void *obj, unsigned long size);  // arbitrary whole-number members
void vf_same(const char *label, const void *a, const void *b, unsigned long size);  // obligation: same bytes
void vf_unit4(const char *name, double *out);            // four reals with x^2+y^2+z^2+w^2 = 1
void vf_unit4f(const char *name, float *out);
void vf_note(const char *label);                         // coverage marker
void vf_events(const char *label);                       // marks, comparison and absence of events
}

namespace vf {
template <class T> T real(const char *n, int i = 0) { return static_cast<T>(vf_real(n, i)); }
template <class M> M mat(const char *n) {
  M m;
  for (int i = 0; i < int(m.size()); i++) m.data()[i] = static_cast<typename M::Scalar>(vf_real(n, i));
  return m;
}
template <class T> Eigen::Matrix<T, 3, 1> vec3(const char *n) { return mat<Eigen::Matrix<T, 3, 1>>(n); }
inline void unit_(const char *n, double *p) { vf_unit4(n, p); }
inline void unit_(const char *n, float *p) { vf_unit4f(n, p); }
template <class T> Eigen::Quaternion<T> quat(const char *n) {
  Eigen::Quaternion<T> q;
  unit_(n, q.coeffs().data());
  return q;
}
template <class A, class B> void eq(const char *l, const Eigen::MatrixBase<A> &a_, const Eigen::MatrixBase<B> &b_) {
  typename A::PlainObject a = a_;
  typename B::PlainObject b = b_;
  for (int i = 0; i < int(a.size()); i++) vf_eq(l, i, a.data()[i], b.data()[i]);
}
template <class T> void eq(const char *l, const Eigen::Quaternion<T> &a, const Eigen::Quaternion<T> &b) {
  for (int i = 0; i < 4; i++) vf_eq(l, i, a.coeffs().data()[i], b.coeffs().data()[i]);
}
inline void eq(const char *l, double a, double b) { vf_eq(l, 0, a, b); }
template <class A> void zero(const char *l, const Eigen::MatrixBase<A> &a_) {
  typename A::PlainObject a = a_;
  for (int i = 0; i < int(a.size()); i++) vf_eq(l, i, a.data()[i], 0.0);
}
// arbitrary contents of an object of the repository, whatever its members are
template <class X> void havoc(const char *n, const X &x) { vf_havoc(n, (void *)&x, sizeof(X)); }
// counters stay arbitrary in states reached through the interface
template <class X> void counters(X &x) { vf_havoc_ints(__PRETTY_FUNCTION__, (void *)&x, sizeof(X)); }
template <class X> void same(const char *l, const X &a, const X &b) { vf_same(l, &a, &b, sizeof(X)); }
}  // namespace vf

// entry points: one function per instantiation
#define VF_ENTRY(name, call) extern "C" void chk_##name() { call; }
#endif
