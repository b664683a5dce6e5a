From 00e063df04ad314ab7370defe1d63cf07290a9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:36 +0000
Subject: [PATCH 01/16] fix: apply the weight (mass times gravity) as the
 gravity force

---
 multirotor_simulator/multirotor_dynamic_model/dynamics.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp b/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
index df821f6..c6479a6 100644
--- a/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
+++ b/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
@@ -187,8 +187,9 @@ public:
     // Kinematics linear derivative
     state_.kinematics.linear_acceleration = get_vehicle_linear_velocity_derivative(
         model_.get_mass(), get_thrust_force_in_earth_frame(state_.actuators.motor_angular_velocity),
-        model_.get_drag_force(state_.kinematics.linear_velocity), model_.get_gravity(),
-        model_.get_stochastic_force(), external_force, state_.dynamics.force);
+        model_.get_drag_force(state_.kinematics.linear_velocity),
+        model_.get_gravity() * model_.get_mass(), model_.get_stochastic_force(), external_force,
+        state_.dynamics.force);
 
     Vector3 position_derivative =
         get_vehicle_position_derivative(state_.kinematics.linear_velocity);
-- 
2.43.0


From 607ed70732607561a5fd5386dd16da5e4739cb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:36 +0000
Subject: [PATCH 02/16] fix: sub-steps of a long time step add up to the
 requested time step

---
 multirotor_simulator/multirotor_dynamic_model/dynamics.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp b/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
index c6479a6..ee327e9 100644
--- a/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
+++ b/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
@@ -148,11 +148,14 @@ public:
       throw std::invalid_argument("The time step must be greater than zero");
       return;
     } else if (dt > LOWEST_UPDATE_FREQUENCY) {
-      Scalar num_iter = dt / LOWEST_UPDATE_FREQUENCY;
-      for (int i = 0; i < num_iter; i++) {
+      Scalar remaining_dt = dt;
+      while (remaining_dt > LOWEST_UPDATE_FREQUENCY) {
         process_euler_explicit(actuation_angular_velocity, LOWEST_UPDATE_FREQUENCY, external_force,
                                enable_noise);
+        remaining_dt -= LOWEST_UPDATE_FREQUENCY;
       }
+      process_euler_explicit(actuation_angular_velocity, remaining_dt, external_force,
+                             enable_noise);
       return;
     }
 
-- 
2.43.0


From 18abb2350c7ca27eb0e89d0feea31d5ca40ad1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:36 +0000
Subject: [PATCH 03/16] fix: set_state and set_model taking a pointer copy the
 pointed-to object

---
 multirotor_simulator/multirotor_dynamic_model/dynamics.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp b/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
index ee327e9..0ee91ee 100644
--- a/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
+++ b/multirotor_simulator/multirotor_dynamic_model/dynamics.hpp
@@ -266,7 +266,7 @@ public:
    */
   void set_state(const State *state) {
     if (state != nullptr) {
-      state_ = state;
+      state_ = *state;
     }
   }
 
@@ -284,7 +284,7 @@ public:
    */
   void set_model(const Model *model) {
     if (model != nullptr) {
-      model_ = model;
+      model_ = *model;
     }
   }
 
-- 
2.43.0


From b398c3a5ecf1a454b5f7026c3cb24bc0ee81fc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:36 +0000
Subject: [PATCH 04/16] fix: Simulator::set_control_mode compiles for every
 precision

---
 multirotor_simulator/multirotor_simulator.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/multirotor_simulator/multirotor_simulator.hpp b/multirotor_simulator/multirotor_simulator.hpp
index 2e0e462..9a928d5 100644
--- a/multirotor_simulator/multirotor_simulator.hpp
+++ b/multirotor_simulator/multirotor_simulator.hpp
@@ -318,10 +318,10 @@ public:
     Scalar roll, pitch;
     state::internal::quaternion_to_Euler(dynamics_.get_state().kinematics.orientation, roll, pitch,
                                          reference_yaw_);
-    reference_velocity_         = Eigen::Vector3d::Zero();
-    reference_acceleration_     = Eigen::Vector3d::Zero();
+    reference_velocity_         = Vector3::Zero();
+    reference_acceleration_     = Vector3::Zero();
     reference_thrust_           = 0.0;
-    reference_angular_velocity_ = Eigen::Vector3d::Zero();
+    reference_angular_velocity_ = Vector3::Zero();
   }
 
   /**
-- 
2.43.0


From b826a24e6cf19a43b183a5b47414489ef890e4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:36 +0000
Subject: [PATCH 05/16] fix: IndiController takes the parameters of its own
 number of rotors

---
 .../multirotor_controllers/controllers/indi_controller.hpp   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/multirotor_simulator/multirotor_controllers/controllers/indi_controller.hpp b/multirotor_simulator/multirotor_controllers/controllers/indi_controller.hpp
index 6b05fb2..d46e61e 100644
--- a/multirotor_simulator/multirotor_controllers/controllers/indi_controller.hpp
+++ b/multirotor_simulator/multirotor_controllers/controllers/indi_controller.hpp
@@ -128,7 +128,8 @@ public:
    *
    * @param params IndiControllerParams parameters
    */
-  explicit IndiController(const IndiControllerParams<P> &params = IndiControllerParams<P>())
+  explicit IndiController(
+      const IndiControllerParams<P, num_rotors> &params = IndiControllerParams<P, num_rotors>())
       : inertia_(params.inertia), mixer_matrix_inverse_(params.mixer_matrix_inverse),
         PID(params.pid_params) {}
   /**
@@ -196,7 +197,7 @@ public:
    *
    * @param params IndiControllerParams
    */
-  inline void update_params(const IndiControllerParams<P> &params) {
+  inline void update_params(const IndiControllerParams<P, num_rotors> &params) {
     update_inertia(params.inertia);
     update_mixer_matrix_inverse(params.mixer_matrix_inverse);
     this->update_pid_params(params.pid_params);
-- 
2.43.0


From 158d2086e077154a4c9a92f00a1d4c72c3683658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:36 +0000
Subject: [PATCH 06/16] fix: the anti-windup clamp compiles for every precision

---
 pid_controller/include/pid_controller/pid.hpp    | 2 +-
 pid_controller/include/pid_controller/pid_1d.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pid_controller/include/pid_controller/pid.hpp b/pid_controller/include/pid_controller/pid.hpp
index 0e05728..b68c880 100644
--- a/pid_controller/include/pid_controller/pid.hpp
+++ b/pid_controller/include/pid_controller/pid.hpp
@@ -644,7 +644,7 @@ protected:
     // Compute anti-windup. Limit integral contribution
     if (antiwindup_cte_ != Vector::Zero()) {
       integral_accum_error_ =
-          saturate_output(integral_accum_error_, antiwindup_cte_, -1.0 * antiwindup_cte_, false);
+          saturate_output(integral_accum_error_, antiwindup_cte_, -antiwindup_cte_, false);
     }
 
     // Compute de integral contribution
diff --git a/pid_controller/include/pid_controller/pid_1d.hpp b/pid_controller/include/pid_controller/pid_1d.hpp
index 7d3f4d5..a100d8b 100644
--- a/pid_controller/include/pid_controller/pid_1d.hpp
+++ b/pid_controller/include/pid_controller/pid_1d.hpp
@@ -548,7 +548,7 @@ protected:
     // Compute anti-windup. Limit integral contribution
     if (antiwindup_cte_ != 0.0) {
       integral_accum_error_ =
-          saturate_output(integral_accum_error_, antiwindup_cte_, -1.0 * antiwindup_cte_);
+          saturate_output(integral_accum_error_, antiwindup_cte_, -antiwindup_cte_);
     }
 
     // Compute de integral contribution
-- 
2.43.0


From 5bbe02e94b6f204b62c5b56b8566aaa9b1f1e515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:36 +0000
Subject: [PATCH 07/16] fix: the inertial odometry filter compiles for every
 precision

---
 multirotor_simulator/imu_simulator/inertial_odometry.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multirotor_simulator/imu_simulator/inertial_odometry.hpp b/multirotor_simulator/imu_simulator/inertial_odometry.hpp
index 9bc2b21..74e15dd 100644
--- a/multirotor_simulator/imu_simulator/inertial_odometry.hpp
+++ b/multirotor_simulator/imu_simulator/inertial_odometry.hpp
@@ -219,8 +219,8 @@ protected:
    * @param accel Linear acceleration in body frame (m/s^2)
    */
   void filter_measurement(const Vector3& gyro, const Vector3& accel) {
-    gyro_filtered_  = alpha_ * gyro + (1.0 - alpha_) * gyro_filtered_;
-    accel_filtered_ = alpha_ * accel + (1.0 - alpha_) * accel_filtered_;
+    gyro_filtered_  = alpha_ * gyro + (Scalar(1.0) - alpha_) * gyro_filtered_;
+    accel_filtered_ = alpha_ * accel + (Scalar(1.0) - alpha_) * accel_filtered_;
   }
 
   /**
-- 
2.43.0


From a2d6149a022396d6fe1b6087b63f9a1b626176f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:36 +0000
Subject: [PATCH 08/16] fix: the integral reset recognises a saturated
 integrator, which sits on the anti-windup limit

---
 pid_controller/include/pid_controller/pid.hpp    | 2 +-
 pid_controller/include/pid_controller/pid_1d.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pid_controller/include/pid_controller/pid.hpp b/pid_controller/include/pid_controller/pid.hpp
index b68c880..8a1bc67 100644
--- a/pid_controller/include/pid_controller/pid.hpp
+++ b/pid_controller/include/pid_controller/pid.hpp
@@ -630,7 +630,7 @@ protected:
     // axis
     if (reset_integral_flag_ != 0) {
       for (int j = 0; j < proportional_error.size(); j++) {
-        if (std::abs(integral_accum_error_[j]) > antiwindup_cte_[j]) {
+        if (std::abs(integral_accum_error_[j]) >= antiwindup_cte_[j]) {
           if (std::signbit(integral_accum_error_[j]) != std::signbit(proportional_error[j])) {
             integral_accum_error_[j] = 0.0;
           }
diff --git a/pid_controller/include/pid_controller/pid_1d.hpp b/pid_controller/include/pid_controller/pid_1d.hpp
index a100d8b..b69169f 100644
--- a/pid_controller/include/pid_controller/pid_1d.hpp
+++ b/pid_controller/include/pid_controller/pid_1d.hpp
@@ -535,7 +535,7 @@ protected:
     // If sing of the error changes and the integrator is saturated, reset the
     // integral for each axis
     if (reset_integral_flag_ != 0) {
-      if (std::abs(integral_accum_error_) > antiwindup_cte_) {
+      if (std::abs(integral_accum_error_) >= antiwindup_cte_) {
         if (std::signbit(integral_accum_error_) != std::signbit(proportional_error)) {
           integral_accum_error_ = 0.0;
         }
-- 
2.43.0


From 1bcd17e156140c1e6d206f85c3d5dc412016cf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:36 +0000
Subject: [PATCH 09/16] fix: IMU::get_measurement() returns its pair by value
 instead of a dangling reference

---
 multirotor_simulator/imu_simulator/imu.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multirotor_simulator/imu_simulator/imu.hpp b/multirotor_simulator/imu_simulator/imu.hpp
index 049032f..8b7b675 100644
--- a/multirotor_simulator/imu_simulator/imu.hpp
+++ b/multirotor_simulator/imu_simulator/imu.hpp
@@ -233,10 +233,10 @@ public:
   /**
    * @brief Return the IMU measurement.
    *
-   * @return const std::pair<Vector3, Vector3>& Gyroscope and accelerometer measurement in body
+   * @return std::pair<Vector3, Vector3> Gyroscope and accelerometer measurement in body
    * frame.
    */
-  inline const std::pair<Vector3, Vector3>& get_measurement() const {
+  inline std::pair<Vector3, Vector3> get_measurement() const {
     return std::make_pair(gyro_, accel_);
   }
 
-- 
2.43.0


From 68f4d38cfb15edb80a371881e103b9c5b1eb28ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:01 +0000
Subject: [PATCH 10/16] fix: Model keeps the 6D mixer matrix that
 get_mixer_matrix() returns

---
 multirotor_simulator/multirotor_dynamic_model/model.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/multirotor_simulator/multirotor_dynamic_model/model.hpp b/multirotor_simulator/multirotor_dynamic_model/model.hpp
index 2b07b8e..75a5946 100644
--- a/multirotor_simulator/multirotor_dynamic_model/model.hpp
+++ b/multirotor_simulator/multirotor_dynamic_model/model.hpp
@@ -169,7 +169,7 @@ private:
   Matrix3N mixer_force_matrix_;    // [Fx, Fy, Fz] = Mixer * a^2
   Matrix3N mixer_torque_matrix_;   // [Mx, My, Mz] = Mixer * a^2
   Matrix3N mixer_inertia_matrix_;  // [Ix, Iy, Iz] = Mixer * a^2
-  MatrixN6 mixer_matrix_;          // [Fx, Fy, Fz, Mx, My, Mz] = Mixer * a^2
+  Matrix6N mixer_matrix_;          // [Fx, Fy, Fz, Mx, My, Mz] = Mixer * a^2
 
   // Noise properties
   std::default_random_engine random_number_generator_;  // Random number generator
@@ -196,7 +196,7 @@ public:
     params_ = params;
 
     // Motor mixer matrix
-    Matrix6N mixer_matrix_ = compute_mixer_matrix<6>(params.motors_params);
+    mixer_matrix_ = compute_mixer_matrix<6>(params.motors_params);
 
     // Update mixer matrix
     mixer_force_vector_  = mixer_matrix_.row(2);
@@ -479,7 +479,7 @@ public:
    *
    * @return MatrixN6 Mixer matrix
    */
-  inline const MatrixN6 &get_mixer_matrix() const { return mixer_matrix_; }
+  inline const Matrix6N &get_mixer_matrix() const { return mixer_matrix_; }
 
 public:
   // Static functions
-- 
2.43.0


From 3cb7f5c6ec6d29ce7f4d10cffc15bec21f4acf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:01 +0000
Subject: [PATCH 11/16] fix: default-constructed motor and model parameters are
 initialised

---
 .../multirotor_dynamic_model/model.hpp           | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/multirotor_simulator/multirotor_dynamic_model/model.hpp b/multirotor_simulator/multirotor_dynamic_model/model.hpp
index 75a5946..7561d0a 100644
--- a/multirotor_simulator/multirotor_dynamic_model/model.hpp
+++ b/multirotor_simulator/multirotor_dynamic_model/model.hpp
@@ -68,13 +68,13 @@ struct MotorParams {
 
   // Motor characteristics
   int motor_rotation_direction = 1;                // 1 for CW, -1 for CCW
-  Scalar thrust_coefficient;                       // N / (rad/s)^2
-  Scalar torque_coefficient;                       // N · m / (rad/s)^2
+  Scalar thrust_coefficient    = 0.0;              // N / (rad/s)^2
+  Scalar torque_coefficient    = 0.0;              // N · m / (rad/s)^2
   IsometryTypeP pose = IsometryTypeP::Identity();  // Position 3D (m) and orientation (rad)
-  Scalar min_speed;                                // rad/s
-  Scalar max_speed;                                // rad/s
-  Scalar time_constant;                            // s
-  Scalar rotational_inertia;                       // kg · m^2
+  Scalar min_speed          = 0.0;                 // rad/s
+  Scalar max_speed          = 0.0;                 // rad/s
+  Scalar time_constant      = 0.0;                 // s
+  Scalar rotational_inertia = 0.0;                 // kg · m^2
 };
 
 /**
@@ -101,8 +101,8 @@ struct ModelParams {
       std::vector<MotorParamsP>(num_rotors);  // Motor parameters
 
   // Vehicle characteristics
-  Scalar vehicle_mass;      // kg
-  Matrix3 vehicle_inertia;  // kg · m^2
+  Scalar vehicle_mass     = 0.0;              // kg
+  Matrix3 vehicle_inertia = Matrix3::Zero();  // kg · m^2
 
   // Aerodynamic characteristics
   Scalar vehicle_drag_coefficient         = 0.0;              // N/(m/s)
-- 
2.43.0


From 2538125fefbf32c20b508053a96389d22fb61205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:27 +0000
Subject: [PATCH 12/16] fix: model parameters with the wrong number of motors
 are rejected

---
 multirotor_simulator/multirotor_dynamic_model/model.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/multirotor_simulator/multirotor_dynamic_model/model.hpp b/multirotor_simulator/multirotor_dynamic_model/model.hpp
index 7561d0a..c6e306f 100644
--- a/multirotor_simulator/multirotor_dynamic_model/model.hpp
+++ b/multirotor_simulator/multirotor_dynamic_model/model.hpp
@@ -510,6 +510,10 @@ public:
       std::cout << "ERROR: vehicle aero moment coefficient must be positive definite" << std::endl;
       return false;
     }
+    if (params.motors_params.size() != num_rotors) {
+      std::cout << "ERROR: number of motors must match the number of rotors" << std::endl;
+      return false;
+    }
     for (auto &motor : params.motors_params) {
       if (motor.max_speed < motor.min_speed) {
         std::cout << "ERROR: motor max speed must be greater than min speed" << std::endl;
-- 
2.43.0


From 941bf7c8cf00fecf1c36f780322212810c00ebca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:27 +0000
Subject: [PATCH 13/16] fix: the IMU is fed the force in the body frame and the
 odometry integrates world acceleration

---
 multirotor_simulator/imu_simulator/inertial_odometry.hpp | 2 +-
 multirotor_simulator/multirotor_simulator.hpp            | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/multirotor_simulator/imu_simulator/inertial_odometry.hpp b/multirotor_simulator/imu_simulator/inertial_odometry.hpp
index 74e15dd..b85e158 100644
--- a/multirotor_simulator/imu_simulator/inertial_odometry.hpp
+++ b/multirotor_simulator/imu_simulator/inertial_odometry.hpp
@@ -239,7 +239,7 @@ protected:
     angular_velocity_ = gyro_filtered_;
 
     // Linear acceleration in world frame
-    linear_acceleration_ = orientation_.inverse() * accel_filtered_;
+    linear_acceleration_ = orientation_ * accel_filtered_;
 
     // Integrate angular velocity to get orientation quaternion
     orientation_ = get_quaternion_integrate(orientation_, angular_velocity_, dt);
diff --git a/multirotor_simulator/multirotor_simulator.hpp b/multirotor_simulator/multirotor_simulator.hpp
index 9a928d5..f8c90d5 100644
--- a/multirotor_simulator/multirotor_simulator.hpp
+++ b/multirotor_simulator/multirotor_simulator.hpp
@@ -243,7 +243,8 @@ public:
   inline void update_imu(const Scalar dt) {
     // Convert force from world to body frame
     imu_.update(dt,
-                dynamics_.get_state().kinematics.orientation * dynamics_.get_state().dynamics.force,
+                dynamics_.get_state().kinematics.orientation.inverse() *
+                    dynamics_.get_state().dynamics.force,
                 dynamics_.get_state().kinematics.angular_velocity);
   }
 
-- 
2.43.0


From ee960e8fb8ef84defa2acf34f4f766f0d6ca47e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:27 +0000
Subject: [PATCH 14/16] fix: the accelerometer measures force per unit of mass

---
 multirotor_simulator/multirotor_simulator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/multirotor_simulator/multirotor_simulator.hpp b/multirotor_simulator/multirotor_simulator.hpp
index f8c90d5..547d23e 100644
--- a/multirotor_simulator/multirotor_simulator.hpp
+++ b/multirotor_simulator/multirotor_simulator.hpp
@@ -244,7 +244,8 @@ public:
     // Convert force from world to body frame
     imu_.update(dt,
                 dynamics_.get_state().kinematics.orientation.inverse() *
-                    dynamics_.get_state().dynamics.force,
+                    dynamics_.get_state().dynamics.force /
+                    dynamics_.get_model_const().get_mass(),
                 dynamics_.get_state().kinematics.angular_velocity);
   }
 
-- 
2.43.0


From 58de46aa39d11cb776f0b2837010951d17f90584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:19 +0000
Subject: [PATCH 15/16] fix: a model built from rejected parameters has defined
 (zero) mixers

---
 .../multirotor_dynamic_model/model.hpp                 | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/multirotor_simulator/multirotor_dynamic_model/model.hpp b/multirotor_simulator/multirotor_dynamic_model/model.hpp
index c6e306f..1132a5d 100644
--- a/multirotor_simulator/multirotor_dynamic_model/model.hpp
+++ b/multirotor_simulator/multirotor_dynamic_model/model.hpp
@@ -165,11 +165,11 @@ private:
   ModelParamsP params_;
 
   // Motor mixer matrix
-  VectorN mixer_force_vector_;     // Fz = Mixer * w^2
-  Matrix3N mixer_force_matrix_;    // [Fx, Fy, Fz] = Mixer * a^2
-  Matrix3N mixer_torque_matrix_;   // [Mx, My, Mz] = Mixer * a^2
-  Matrix3N mixer_inertia_matrix_;  // [Ix, Iy, Iz] = Mixer * a^2
-  Matrix6N mixer_matrix_;          // [Fx, Fy, Fz, Mx, My, Mz] = Mixer * a^2
+  VectorN mixer_force_vector_    = VectorN::Zero();   // Fz = Mixer * w^2
+  Matrix3N mixer_force_matrix_   = Matrix3N::Zero();  // [Fx, Fy, Fz] = Mixer * a^2
+  Matrix3N mixer_torque_matrix_  = Matrix3N::Zero();  // [Mx, My, Mz] = Mixer * a^2
+  Matrix3N mixer_inertia_matrix_ = Matrix3N::Zero();  // [Ix, Iy, Iz] = Mixer * a^2
+  Matrix6N mixer_matrix_         = Matrix6N::Zero();  // [Fx, Fy, Fz, Mx, My, Mz] = Mixer * a^2
 
   // Noise properties
   std::default_random_engine random_number_generator_;  // Random number generator
-- 
2.43.0


From a8f6da318a8c9d74209799d867dd663a98da0ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:19 +0000
Subject: [PATCH 16/16] fix: separate every field of the printed state

---
 .../multirotor_dynamic_model/common/state.hpp              | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/multirotor_simulator/multirotor_dynamic_model/common/state.hpp b/multirotor_simulator/multirotor_dynamic_model/common/state.hpp
index ca14570..216d603 100644
--- a/multirotor_simulator/multirotor_dynamic_model/common/state.hpp
+++ b/multirotor_simulator/multirotor_dynamic_model/common/state.hpp
@@ -203,10 +203,7 @@ std::ostream& operator<<(std::ostream& os, const Actuators<T, num_rotors>& actua
 template <typename T = double, int num_rotors = 4>
 std::ostream& print_actuators(std::ostream& os, const Actuators<T, num_rotors>& actuators) {
   for (int i = 0; i < num_rotors; i++) {
-    os << "motor_" << i << "_angular_velocity: " << actuators.motor_angular_velocity[i];
-    if (i < num_rotors - 1) {
-      os << ", ";
-    }
+    os << "motor_" << i << "_angular_velocity: " << actuators.motor_angular_velocity[i] << ", ";
   }
   for (int i = 0; i < num_rotors; i++) {
     os << "motor_" << i << "_angular_acceleration: " << actuators.motor_angular_acceleration[i];
@@ -248,7 +245,9 @@ std::ostream& operator<<(std::ostream& os, const State<T, num_rotors>& state) {
 template <typename T = double, int num_rotors = 4>
 void print_state(const State<T, num_rotors>& state) {
   state::internal::print_kinematics(std::cout, state.kinematics);
+  std::cout << ", ";
   state::internal::print_dynamics(std::cout, state.dynamics);
+  std::cout << ", ";
   state::internal::print_actuators(std::cout, state.actuators);
 }
 
-- 
2.43.0

