// The classes whose arbitrary states the harness draws; engine/vf/layout.py reads their record layouts.
#include "imu_simulator/imu.hpp"
#include "imu_simulator/inertial_odometry.hpp"
#include "multirotor_simulator.hpp"
#include "pid_controller/pid.hpp"
#include "pid_controller/pid_1d.hpp"
template <class T> struct Use { char c[sizeof(T)]; };
Use<multirotor::Simulator<double, 4>> u0;
Use<pid_controller::PID<double, 3>> u1;
Use<pid_1d_controller::PID<double>> u2;
