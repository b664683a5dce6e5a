// Type-level witnesses: never linked, never run.  -DVF_T=precision -DVF_N=rotors, or -DVF_REJECT_n.
#include <type_traits>
#include <utility>
#include "multirotor_simulator.hpp"
#include "pid_controller/pid_1d.hpp"
#include "pid_controller/pid.hpp"
#ifdef VF_T
using T = VF_T;
constexpr int N = VF_N;
using multirotor::Simulator;
// every member of every component exists for this precision and number of rotors
template struct multirotor::state::State<T, N>;
template struct multirotor::model::MotorParams<T>;
template struct multirotor::model::ModelParams<T, N>;
template class multirotor::model::Model<T, N>;
template struct multirotor::dynamics::DynamicsParams<T, N>;
template class multirotor::dynamics::Dynamics<T, N>;
template struct imu::IMUParams<T>;
template class imu::IMU<T>;
template struct imu::InertialOdometryParams<T>;
template class imu::InertialOdometry<T>;
template struct pid_controller::PIDParams<T, 3>;
template class pid_controller::PID<T, 3>;
#if VF_N != 3
template class pid_controller::PID<T, N>;
#endif
template struct pid_1d_controller::PIDParams<T>;
template class pid_1d_controller::PID<T>;
template class acro_controller::AcroController<T>;
template class indi_controller::IndiController<T, N>;
template class position_controller::PositionController<T>;
template class velocity_controller::VelocityController<T>;
template class trajectory_controller::TrajectoryController<T>;
template struct multirotor::controller::ControllerParams<T, N>;
template class multirotor::controller::Controller<T, N>;
template struct multirotor::SimulatorParams<T, N>;
template class multirotor::Simulator<T, N>;
void free_functions(std::ostream &os, const multirotor::state::State<T, N> &s) {
  os << s << s.kinematics << s.dynamics << s.actuators;
  multirotor::state::internal::print_kinematics(os, s.kinematics);
  multirotor::state::internal::print_dynamics(os, s.dynamics);
  multirotor::state::internal::print_actuators(os, s.actuators);
  multirotor::state::print_state(s);
  T r, p, y;
  multirotor::state::internal::quaternion_to_Euler(s.kinematics.orientation, r, p, y);
}
// value semantics, and no write access through a constant simulator
using S = Simulator<T, N>;
static_assert(std::is_copy_constructible_v<S> && std::is_copy_assignable_v<S> && std::is_default_constructible_v<S>);
static_assert(std::is_nothrow_move_constructible_v<S> || std::is_move_constructible_v<S>);
template <class X> constexpr bool readonly = !std::is_lvalue_reference_v<X> || std::is_const_v<std::remove_reference_t<X>>;
using C = const S &;
static_assert(readonly<decltype(std::declval<C>().get_state())>);
static_assert(readonly<decltype(std::declval<C>().get_odometry())>);
static_assert(readonly<decltype(std::declval<C>().get_dynamics_const())>);
static_assert(readonly<decltype(std::declval<C>().get_controller_const())>);
static_assert(readonly<decltype(std::declval<C>().get_imu_const())>);
static_assert(readonly<decltype(std::declval<C>().get_inertial_odometry_const())>);
static_assert(readonly<decltype(std::declval<C>().get_actuation_motors_angular_velocity())>);
static_assert(readonly<decltype(std::declval<C>().get_reference_motors_angular_velocity())>);
static_assert(readonly<decltype(std::declval<C>().get_reference_position())>);
static_assert(readonly<decltype(std::declval<C>().get_reference_velocity())>);
static_assert(readonly<decltype(std::declval<C>().get_reference_acceleration())>);
static_assert(readonly<decltype(std::declval<C>().get_reference_angular_velocity())>);
static_assert(readonly<decltype(std::declval<C>().get_external_force())>);
static_assert(readonly<decltype(std::declval<C>().get_control_mode())>);
static_assert(readonly<decltype(std::declval<const multirotor::dynamics::Dynamics<T, N> &>().get_state())>);
static_assert(readonly<decltype(std::declval<const multirotor::dynamics::Dynamics<T, N> &>().get_model_const())>);
// an armed flag or a motor command cannot be forced from outside
template <class X, class = void> struct forces : std::false_type {};
template <class X>
struct forces<X, std::void_t<decltype(std::declval<X &>().set_actuation(std::declval<Eigen::Matrix<T, N, 1>>()))>> : std::true_type {};
static_assert(!forces<S>::value);
#endif
// a precision that is not a floating-point type is refused
#ifdef VF_REJECT_1
multirotor::Simulator<int, 4> *p = new multirotor::Simulator<int, 4>;
#elif defined(VF_REJECT_2)
multirotor::model::Model<int, 4> *p = new multirotor::model::Model<int, 4>;
#elif defined(VF_REJECT_3)
multirotor::dynamics::Dynamics<long, 4> *p = new multirotor::dynamics::Dynamics<long, 4>;
#elif defined(VF_REJECT_4)
imu::IMU<int> *p = new imu::IMU<int>;
#elif defined(VF_REJECT_5)
pid_controller::PID<int, 3> *p = new pid_controller::PID<int, 3>;
#elif defined(VF_REJECT_6)
pid_1d_controller::PID<int> *p = new pid_1d_controller::PID<int>;
#elif defined(VF_REJECT_7)
indi_controller::IndiController<int, 4> *p = new indi_controller::IndiController<int, 4>;
#elif defined(VF_REJECT_8)
multirotor::state::State<int, 4> *p = new multirotor::state::State<int, 4>;
#endif
