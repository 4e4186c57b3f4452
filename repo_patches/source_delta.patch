From 4747aec852f3623e642520281d98a4c1b7ba6c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:00 +0000
Subject: [PATCH 01/45] fix: integrate_const with dense output never evaluates
 outside the steps taken

A dense-output stepper was asked for states before its first step when the
interval held less than one observation step, beyond the end of the interval
when the last step was re-initialised, and outside its last step after a
shortened final step. Step until the next observation time is covered (never
past the end), then interpolate.
---
 .../integrate/detail/integrate_const.hpp      | 40 ++++++-------------
 1 file changed, 12 insertions(+), 28 deletions(-)

diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp
index 7a86b32..d13b4b1 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp
@@ -120,42 +120,26 @@ size_t integrate_const(
     int obs_step( 1 );
     int real_step( 0 );
     
-    while( less_eq_with_sign( static_cast<Time>(time+dt) , end_time , dt ) )
+    while( less_eq_with_sign( time , end_time , dt ) )
     {
-        while( less_eq_with_sign( time , st.current_time() , dt ) )
-        {
-            st.calc_state( time , start_state );
-            obs( start_state , time );
-            ++obs_step;
-            // direct computation of the time avoids error propagation happening when using time += dt
-            // we need clumsy type analysis to get boost units working here
-            time = start_time + static_cast< typename unit_value_type<Time>::type >(obs_step) * dt;
-        }
-        // we have not reached the end, do another real step
-        if( less_with_sign( static_cast<Time>(st.current_time()+st.current_time_step()) ,
-                            end_time ,
-                            st.current_time_step() ) )
+        // do real steps until the next observation point is covered
+        while( less_with_sign( st.current_time() , time , dt ) )
         {
-            while( less_eq_with_sign( st.current_time() , time , dt ) )
-            {
-                st.do_step( system );
-                ++real_step;
+            if( less_with_sign( end_time ,
+                                static_cast<Time>(st.current_time()+st.current_time_step()) ,
+                                st.current_time_step() ) )
+            {   // never go beyond the end point, the last step ends exactly there
+                st.initialize( st.current_state() , st.current_time() , static_cast<Time>(end_time - st.current_time()) );
             }
-        }
-        else if( less_with_sign( st.current_time() , end_time , st.current_time_step() ) )
-        { // do the last step ending exactly on the end point
-            st.initialize( st.current_state() , st.current_time() , end_time - st.current_time() );
             st.do_step( system );
             ++real_step;
         }
-        
-    }
-    // last observation, if we are still in observation interval
-    // might happen due to finite precision problems when computing the the time
-    if( less_eq_with_sign( time , end_time , dt ) )
-    {
         st.calc_state( time , start_state );
         obs( start_state , time );
+        ++obs_step;
+        // direct computation of the time avoids error propagation happening when using time += dt
+        // we need clumsy type analysis to get boost units working here
+        time = start_time + static_cast< typename unit_value_type<Time>::type >(obs_step) * dt;
     }
     
     return real_step;
-- 
2.43.0


From ade423f256ffafd5955b9fd86378139e1034ea7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:00 +0000
Subject: [PATCH 02/45] fix: integrate_n_steps with dense output ends on the
 grid for either direction

The loop could observe more than the requested number of steps, skipped the
final real steps when integrating backwards and left the caller's state at the
last but one observation.
---
 .../numeric/odeint/integrate/detail/integrate_n_steps.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp
index 2ef490d..0d0ef83 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp
@@ -19,6 +19,7 @@
 #define BOOST_NUMERIC_ODEINT_INTEGRATE_DETAIL_INTEGRATE_N_STEPS_HPP_INCLUDED
 
 #include <boost/numeric/odeint/util/unwrap_reference.hpp>
+#include <boost/numeric/odeint/util/copy.hpp>
 #include <boost/numeric/odeint/stepper/stepper_categories.hpp>
 #include <boost/numeric/odeint/integrate/detail/integrate_adaptive.hpp>
 #include <boost/numeric/odeint/util/unit_helper.hpp>
@@ -112,7 +113,7 @@ Time integrate_n_steps(
 
     while( step < num_of_steps )
     {
-        while( less_with_sign( time , st.current_time() , st.current_time_step() ) )
+        while( ( step < num_of_steps ) && less_with_sign( time , st.current_time() , st.current_time_step() ) )
         {
             st.calc_state( time , start_state );
             obs( start_state , time );
@@ -137,7 +138,7 @@ Time integrate_n_steps(
     }
 
     // make sure we really end exactly where we should end
-    while( st.current_time() < end_time )
+    while( less_with_sign( st.current_time() , end_time , st.current_time_step() ) )
     {
         if( less_with_sign( end_time ,
                             static_cast<Time>(st.current_time()+st.current_time_step()) ,
@@ -149,6 +150,9 @@ Time integrate_n_steps(
     // observation at final point
     obs( st.current_state() , end_time );
 
+    // overwrite start_state with the final point
+    boost::numeric::odeint::copy( st.current_state() , start_state );
+
     return time;
 }
 
-- 
2.43.0


From 5dcf508e4de415d68f26774cf0c3f2078870ec7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:00 +0000
Subject: [PATCH 03/45] fix: Bulirsch-Stoer step and order selection for
 negative time steps

The dense-output stepper compared new and old step without regard to their
sign (a rejected backward step could grow until the step adjustment error was
thrown), and both Bulirsch-Stoer steppers compared signed work per unit step.
---
 include/boost/numeric/odeint/stepper/bulirsch_stoer.hpp       | 2 ++
 .../boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/bulirsch_stoer.hpp b/include/boost/numeric/odeint/stepper/bulirsch_stoer.hpp
index 02c3749..244bcd2 100644
--- a/include/boost/numeric/odeint/stepper/bulirsch_stoer.hpp
+++ b/include/boost/numeric/odeint/stepper/bulirsch_stoer.hpp
@@ -235,6 +235,8 @@ public:
                 const value_type error = m_error_checker.error( m_algebra , in , dxdt , m_err.m_v , dt );
                 h_opt[k] = calc_h_opt( dt , error , k );
                 work[k] = static_cast<value_type>( m_cost[k] ) / h_opt[k];
+                if( get_unit_value( h_opt[k] ) < 0 )
+                    work[k] = -work[k]; // work is compared by magnitude, regardless of the time direction
 
                 if( (k == m_current_k_opt-1) || m_first )
                 { // convergence before k_opt ?
diff --git a/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp b/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
index 22eb373..ef53f41 100644
--- a/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
+++ b/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
@@ -199,6 +199,8 @@ public:
                 const value_type error = m_error_checker.error( m_algebra , in , dxdt , m_err.m_v , dt );
                 h_opt[k] = calc_h_opt( dt , error , k );
                 work[k] = static_cast<value_type>( m_cost[k] ) / h_opt[k];
+                if( get_unit_value( h_opt[k] ) < 0 )
+                    work[k] = -work[k]; // work is compared by magnitude, regardless of the time direction
 
                 m_k_final = k;
 
@@ -291,7 +293,7 @@ public:
             }
         }
         //set next stepsize
-        if( !m_last_step_rejected || (new_h < dt) )
+        if( !m_last_step_rejected || detail::less_with_sign(new_h, dt, dt) )
         {
             // limit step size
             if( m_max_dt != static_cast<time_type>(0) )
-- 
2.43.0


From add0912361116e1903353e0657dacc64d3e5b05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:25 +0000
Subject: [PATCH 04/45] fix: integrate_adaptive with dense output terminates
 when the last step rounds past the end

current_time + ( end_time - current_time ) may exceed end_time by more than the
comparison epsilon; the loop then re-initialised the stepper forever without
taking a step.
---
 .../odeint/integrate/detail/integrate_adaptive.hpp    | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_adaptive.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_adaptive.hpp
index 7516d44..76cee0d 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_adaptive.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_adaptive.hpp
@@ -140,8 +140,15 @@ size_t integrate_adaptive(
             st.do_step( system );
             ++count;
         }
-        // calculate time step to arrive exactly at end time
-        st.initialize( st.current_state() , st.current_time() , static_cast<Time>(end_time - st.current_time()) );
+        if( less_with_sign( st.current_time() , end_time , st.current_time_step() ) )
+        {
+            // calculate time step to arrive exactly at end time
+            obs( st.current_state() , st.current_time() );
+            st.initialize( st.current_state() , st.current_time() , static_cast<Time>(end_time - st.current_time()) );
+            // do this step here: due to rounding, current_time + current_time_step might lie beyond end_time
+            st.do_step( system );
+            ++count;
+        }
     }
     obs( st.current_state() , st.current_time() );
     // overwrite start_state with the final point
-- 
2.43.0


From 260714ddd34848fed203aefa276bf9c37adea672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:25 +0000
Subject: [PATCH 05/45] fix: integrate_times for empty time ranges and repeated
 initial times

Dense output was evaluated before the first step when the first time point is
repeated; the other categories read past the end of an empty range.
---
 .../odeint/integrate/detail/integrate_times.hpp      | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp
index 2e27990..c083b19 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp
@@ -53,6 +53,9 @@ size_t integrate_times(
     observer_type &obs = observer;
     typedef typename unit_value_type<Time>::type time_type;
 
+    if( start_time == end_time )
+        return 0;
+
     size_t steps = 0;
     Time current_dt = dt;
     while( true )
@@ -86,6 +89,9 @@ size_t integrate_times(
     typename odeint::unwrap_reference< Stepper >::type &st = stepper;
     typedef typename unit_value_type<Time>::type time_type;
 
+    if( start_time == end_time )
+        return 0;
+
     failed_step_checker fail_checker;  // to throw a runtime_error if step size adjustment fails
     size_t steps = 0;
     while( true )
@@ -141,6 +147,12 @@ size_t integrate_times(
     st.initialize( start_state , *start_time , dt );
     obs( start_state , *start_time++ );
 
+    // observation points at the initial time, there is no step to interpolate yet
+    while( ( start_time != end_time ) && less_eq_with_sign( static_cast<time_type>(*start_time) , st.current_time() , st.current_time_step() ) )
+    {
+        obs( start_state , *start_time++ );
+    }
+
     size_t count = 0;
     while( start_time != end_time )
     {
-- 
2.43.0


From 8875224507dddd346e95583595cb3832fb325b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:25 +0000
Subject: [PATCH 06/45] fix: times iterators for empty time ranges and repeated
 initial times

---
 .../odeint/iterator/impl/times_iterator_impl.hpp    | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp b/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp
index 7a2b48d..8f1b217 100644
--- a/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp
+++ b/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp
@@ -83,7 +83,7 @@ namespace odeint {
          */
         times_iterator_impl( stepper_type stepper , system_type sys , state_type &s ,
                              time_iterator_type t_start , time_iterator_type t_end , time_type dt )
-            : base_type( stepper , sys , *t_start , dt ) ,
+            : base_type( stepper , sys , t_start == t_end ? time_type() : static_cast< time_type >( *t_start ) , dt ) ,
               m_t_start( t_start ) , m_t_end( t_end ) , m_state( &s )
         {
             if( t_start == t_end )
@@ -181,7 +181,7 @@ namespace odeint {
          */
         times_iterator_impl( stepper_type stepper , system_type sys , state_type &s ,
                              time_iterator_type t_start , time_iterator_type t_end , time_type dt )
-            : base_type( stepper , sys , *t_start , dt ) ,
+            : base_type( stepper , sys , t_start == t_end ? time_type() : static_cast< time_type >( *t_start ) , dt ) ,
               m_t_start( t_start ) , m_t_end( t_end ) , m_state( &s )
         {
             if( t_start == t_end )
@@ -301,8 +301,8 @@ namespace odeint {
          */
         times_iterator_impl( stepper_type stepper , system_type sys , state_type &s ,
                              time_iterator_type t_start , time_iterator_type t_end , time_type dt )
-            : base_type( stepper , sys , *t_start , dt ) ,
-              m_t_start( t_start ) , m_t_end( t_end ) , m_final_time( *(t_end-1) ) ,
+            : base_type( stepper , sys , t_start == t_end ? time_type() : static_cast< time_type >( *t_start ) , dt ) ,
+              m_t_start( t_start ) , m_t_end( t_end ) , m_final_time( t_start == t_end ? time_type() : static_cast< time_type >( *(t_end-1) ) ) ,
               m_state( &s )
         {
             if( t_start != t_end )
@@ -343,7 +343,10 @@ namespace odeint {
                     }
                     st.do_step( this->m_system );
                 }
-                st.calc_state( this->m_t , *( this->m_state ) );
+                if( detail::less_with_sign( this->m_t , st.current_time() , this->m_dt ) )
+                    st.calc_state( this->m_t , *( this->m_state ) );
+                else // no step has been done yet if all time points so far are the initial time
+                    boost::numeric::odeint::copy( st.current_state() , *( this->m_state ) );
             } else {
                 this->m_at_end = true;
             }
-- 
2.43.0


From 132a80def8e357ff6fa5853ca937ea0b450a89ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:45 +0000
Subject: [PATCH 07/45] fix: controlled FSAL stepper try_step(sys,in,t,out,dt)
 did not compile

---
 .../numeric/odeint/stepper/controlled_runge_kutta.hpp     | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
index be00827..724ca2f 100644
--- a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
@@ -682,7 +682,13 @@ public:
         {
             initialize( system , in , t );
         }
-        return try_step( system , in , m_dxdt.m_v , t , out , dt );
+        m_dxdt_new_resizer.adjust_size( in , detail::bind( &controlled_runge_kutta::template resize_m_dxdt_new_impl< StateIn > , detail::ref( *this ) , detail::_1 ) );
+        controlled_step_result res = try_step( system , in , m_dxdt.m_v , t , out , m_dxdtnew.m_v , dt );
+        if( res == success )
+        {
+            boost::numeric::odeint::copy( m_dxdtnew.m_v , m_dxdt.m_v );
+        }
+        return res;
     }
 
 
-- 
2.43.0


From 4fe19ffe0759d4a919108f375bde82db06f324b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:12 +0000
Subject: [PATCH 08/45] fix: initialize() of FSAL steppers wrote into an
 unsized derivative

---
 .../odeint/stepper/base/explicit_error_stepper_fsal_base.hpp    | 2 ++
 include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp b/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
index b1d751a..7ceb5d4 100644
--- a/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
+++ b/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
@@ -286,6 +286,7 @@ public:
     template< class DerivIn >
     void initialize( const DerivIn &deriv )
     {
+        m_resizer.adjust_size( deriv , detail::bind( &internal_stepper_base_type::template resize_impl< DerivIn > , detail::ref( *this ) , detail::_1 ) );
         boost::numeric::odeint::copy( deriv , m_dxdt.m_v );
         m_first_call = false;
     }
@@ -294,6 +295,7 @@ public:
     void initialize( System system , const StateIn &x , time_type t )
     {
         typename odeint::unwrap_reference< System >::type &sys = system;
+        m_resizer.adjust_size( x , detail::bind( &internal_stepper_base_type::template resize_impl< StateIn > , detail::ref( *this ) , detail::_1 ) );
         sys( x , m_dxdt.m_v , t );
         m_first_call = false;
     }
diff --git a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
index 724ca2f..c77bc3a 100644
--- a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
@@ -805,6 +805,7 @@ public:
     template< class DerivIn >
     void initialize( const DerivIn &deriv )
     {
+        m_dxdt_resizer.adjust_size( deriv , detail::bind( &controlled_runge_kutta::template resize_m_dxdt_impl< DerivIn > , detail::ref( *this ) , detail::_1 ) );
         boost::numeric::odeint::copy( deriv , m_dxdt.m_v );
         m_first_call = false;
     }
@@ -821,6 +822,7 @@ public:
     void initialize( System system , const StateIn &x , time_type t )
     {
         typename odeint::unwrap_reference< System >::type &sys = system;
+        m_dxdt_resizer.adjust_size( x , detail::bind( &controlled_runge_kutta::template resize_m_dxdt_impl< StateIn > , detail::ref( *this ) , detail::_1 ) );
         sys( x , m_dxdt.m_v , t );
         m_first_call = false;
     }
-- 
2.43.0


From 6a5870c856d8e391316d2acade2f4f9ae3fa605a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:44 +0000
Subject: [PATCH 09/45] fix: sign of the Rosenbrock coefficient d4 (order loss
 for explicitly time dependent systems)

---
 include/boost/numeric/odeint/stepper/rosenbrock4.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/rosenbrock4.hpp b/include/boost/numeric/odeint/stepper/rosenbrock4.hpp
index 8613698..7f475d0 100644
--- a/include/boost/numeric/odeint/stepper/rosenbrock4.hpp
+++ b/include/boost/numeric/odeint/stepper/rosenbrock4.hpp
@@ -63,7 +63,7 @@ struct default_rosenbrock_coefficients
       d1 ( static_cast< value_type >( 0.25 ) ) ,
       d2 ( static_cast< value_type >( -0.1043 ) ) ,
       d3 ( static_cast< value_type >( 0.1035 ) ) ,
-      d4 ( static_cast< value_type >( 0.3620000000000023e-01 ) ) ,
+      d4 ( static_cast< value_type >( -0.3620000000000023e-01 ) ) ,
       c2 ( static_cast< value_type >( 0.386 ) ) ,
       c3 ( static_cast< value_type >( 0.21 ) ) ,
       c4 ( static_cast< value_type >( 0.63 ) ) ,
-- 
2.43.0


From aebb9013eb66c4d9def5a7d86053c76c26869378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:44 +0000
Subject: [PATCH 10/45] fix: bulirsch_stoer_dense_out::reset() kept the order
 of the previous integration

---
 .../boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp    | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp b/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
index ef53f41..5ee89e4 100644
--- a/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
+++ b/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
@@ -383,6 +383,7 @@ public:
     {
         m_first = true;
         m_last_step_rejected = false;
+        m_current_k_opt = 4;
     }
 
     template< class StateIn >
-- 
2.43.0


From 28ec1a2fbcdf6688d9a951e9d0a6a045e925cb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:41 +0000
Subject: [PATCH 11/45] fix: rosenbrock4_dense_output::initialize() kept the
 controller's step size history

---
 .../numeric/odeint/stepper/rosenbrock4_controller.hpp  | 10 ++++++++++
 .../odeint/stepper/rosenbrock4_dense_output.hpp        |  2 ++
 2 files changed, 12 insertions(+)

diff --git a/include/boost/numeric/odeint/stepper/rosenbrock4_controller.hpp b/include/boost/numeric/odeint/stepper/rosenbrock4_controller.hpp
index 5ad1600..e5ff9b4 100644
--- a/include/boost/numeric/odeint/stepper/rosenbrock4_controller.hpp
+++ b/include/boost/numeric/odeint/stepper/rosenbrock4_controller.hpp
@@ -178,6 +178,16 @@ public:
     }
 
 
+    /* forgets the step size history, the next step is treated as the first one */
+    void reset( void )
+    {
+        m_first_step = true;
+        m_err_old = 0.0;
+        m_dt_old = 0.0;
+        m_last_rejected = false;
+    }
+
+
     template< class StateType >
     void adjust_size( const StateType &x )
     {
diff --git a/include/boost/numeric/odeint/stepper/rosenbrock4_dense_output.hpp b/include/boost/numeric/odeint/stepper/rosenbrock4_dense_output.hpp
index d296246..d7abfa2 100644
--- a/include/boost/numeric/odeint/stepper/rosenbrock4_dense_output.hpp
+++ b/include/boost/numeric/odeint/stepper/rosenbrock4_dense_output.hpp
@@ -71,6 +71,8 @@ public:
         get_current_state() = x0;
         m_t = t0;
         m_dt = dt0;
+        unwrapped_controlled_stepper_type &stepper = m_stepper;
+        stepper.reset(); // a new integration, forget the step size history of the previous one
     }
 
     template< class System >
-- 
2.43.0


From d147cb951299b36ac0d1634c50df30da74b7c4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:10 +0000
Subject: [PATCH 12/45] fix: implicit_euler factorized the already factorized
 Jacobian again in every Newton iteration

---
 include/boost/numeric/odeint/stepper/implicit_euler.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/implicit_euler.hpp b/include/boost/numeric/odeint/stepper/implicit_euler.hpp
index f301988..b4dc84f 100644
--- a/include/boost/numeric/odeint/stepper/implicit_euler.hpp
+++ b/include/boost/numeric/odeint/stepper/implicit_euler.hpp
@@ -96,6 +96,7 @@ public:
         m_jacobi.m_v *= dt;
         m_jacobi.m_v -= boost::numeric::ublas::identity_matrix< value_type >( x.size() );
 
+        factorize( m_jacobi.m_v );
         solve( m_b.m_v , m_jacobi.m_v );
 
         m_x.m_v = x - m_b.m_v;
@@ -141,10 +142,15 @@ private:
     }
 
 
-    void solve( state_type &x , matrix_type &m )
+    void factorize( matrix_type &m )
     {
         int res = boost::numeric::ublas::lu_factorize( m , m_pm.m_v );
         if( res != 0 ) exit(0);
+    }
+
+    // m has to be factorized
+    void solve( state_type &x , matrix_type &m )
+    {
         boost::numeric::ublas::lu_substitute( m , m_pm.m_v , x );
     }
 
-- 
2.43.0


From bc407c8456834d970127ee3b3ae199d92ac94257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:56 +0000
Subject: [PATCH 13/45] fix: implicit_euler ended the process with exit(0) on a
 singular matrix

---
 include/boost/numeric/odeint/stepper/implicit_euler.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/implicit_euler.hpp b/include/boost/numeric/odeint/stepper/implicit_euler.hpp
index b4dc84f..dfa32a9 100644
--- a/include/boost/numeric/odeint/stepper/implicit_euler.hpp
+++ b/include/boost/numeric/odeint/stepper/implicit_euler.hpp
@@ -22,7 +22,10 @@
 
 #include <utility>
 
+#include <boost/throw_exception.hpp>
+
 #include <boost/numeric/odeint/util/bind.hpp>
+#include <boost/numeric/odeint/util/odeint_error.hpp>
 #include <boost/numeric/odeint/util/unwrap_reference.hpp>
 #include <boost/numeric/odeint/stepper/stepper_categories.hpp>
 
@@ -145,7 +148,8 @@ private:
     void factorize( matrix_type &m )
     {
         int res = boost::numeric::ublas::lu_factorize( m , m_pm.m_v );
-        if( res != 0 ) exit(0);
+        if( res != 0 )
+            BOOST_THROW_EXCEPTION( odeint_error( "implicit_euler: singular matrix in the Newton iteration" ) );
     }
 
     // m has to be factorized
-- 
2.43.0


From ce43336be19661d32bfd3c9d10d3ce4919e2cd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:11 +0000
Subject: [PATCH 14/45] fix: extrapolation_stepper in-place steps restarted
 from a partially updated state

do_step(sys,x,t,dt) of extrapolation_stepper, and through it the start-up
phase of adams_bashforth, overwrote the input with the first midpoint result
and started the remaining midpoint runs from it.
---
 .../odeint/stepper/extrapolation_stepper.hpp   | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp b/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp
index 3b688e9..c62ba47 100644
--- a/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp
+++ b/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp
@@ -175,28 +175,28 @@ class extrapolation_stepper : public explicit_error_stepper_base
         m_resizer.adjust_size(
             in, detail::bind( &stepper_type::template resize_impl< StateIn >,
                               detail::ref( *this ), detail::_1 ) );
+        // in and out may be the same state, hence the result is collected in
+        // m_xout and in stays untouched until all midpoint runs are done
+        m_xout_resizer.adjust_size(
+            in, detail::bind( &stepper_type::template resize_m_xout< StateIn >,
+                              detail::ref( *this ), detail::_1 ) );
         size_t k = 0;
         m_midpoint.set_steps( m_interval_sequence[k] );
-        m_midpoint.do_step( system, in, dxdt, t, out, dt );
+        m_midpoint.do_step( system, in, dxdt, t, m_xout.m_v, dt );
         for ( k = 1; k <= m_k_max; ++k )
         {
             m_midpoint.set_steps( m_interval_sequence[k] );
             m_midpoint.do_step( system, in, dxdt, t, m_table[k - 1].m_v, dt );
-            extrapolate( k, m_table, m_coeff, out );
+            extrapolate( k, m_table, m_coeff, m_xout.m_v );
         }
+        boost::numeric::odeint::copy( m_xout.m_v, out );
     }
 
     template < class System, class StateInOut, class DerivIn >
     void do_step_impl_io( System system, StateInOut &inout, const DerivIn &dxdt,
                           time_type t, time_type dt )
     {
-        // special care for inout
-        m_xout_resizer.adjust_size(
-            inout,
-            detail::bind( &stepper_type::template resize_m_xout< StateInOut >,
-                          detail::ref( *this ), detail::_1 ) );
-        do_step_impl( system, inout, dxdt, t, m_xout.m_v, dt );
-        boost::numeric::odeint::copy( m_xout.m_v, inout );
+        do_step_impl( system, inout, dxdt, t, inout, dt );
     }
 
     template < class System, class StateInOut, class DerivIn >
-- 
2.43.0


From 5e01029da5b810729d349e10b4e12ae8d60c7902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:57 +0000
Subject: [PATCH 15/45] fix: a copied adams_bashforth_moulton kept using the
 algebra of its source

The corrector holds a reference to the predictor's algebra; the implicit copy
constructor bound it to the source object, which may be gone.
---
 .../numeric/odeint/stepper/adams_bashforth_moulton.hpp    | 8 ++++++++
 include/boost/numeric/odeint/stepper/adams_moulton.hpp    | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp
index f3edce1..3ad09ae 100644
--- a/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp
@@ -94,6 +94,14 @@ public :
     , m_x() , m_resizer()    
     { }
 
+    // the corrector shares the algebra of the predictor of the same object
+    adams_bashforth_moulton( const adams_bashforth_moulton &stepper )
+    : m_adams_bashforth( stepper.m_adams_bashforth ) , m_adams_moulton( m_adams_bashforth.algebra() )
+    , m_x( stepper.m_x ) , m_resizer( stepper.m_resizer )
+    {
+        m_adams_moulton = stepper.m_adams_moulton;
+    }
+
     order_type order( void ) const { return order_value; }
 
     template< class System , class StateInOut >
diff --git a/include/boost/numeric/odeint/stepper/adams_moulton.hpp b/include/boost/numeric/odeint/stepper/adams_moulton.hpp
index 05b4277..99996a9 100644
--- a/include/boost/numeric/odeint/stepper/adams_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/adams_moulton.hpp
@@ -97,6 +97,13 @@ public :
       m_algebra_instance() , m_algebra( algebra )
     { }
 
+    // m_algebra must not refer to the internal algebra instance of the source
+    adams_moulton( const adams_moulton &stepper )
+    : m_coefficients() , m_dxdt( stepper.m_dxdt ) , m_resizer( stepper.m_resizer ) ,
+      m_algebra_instance( stepper.m_algebra_instance ) ,
+      m_algebra( &stepper.m_algebra == &stepper.m_algebra_instance ? m_algebra_instance : stepper.m_algebra )
+    { }
+
     adams_moulton& operator=( const adams_moulton &stepper )
     {
         m_dxdt = stepper.m_dxdt;
-- 
2.43.0


From 18ae3e2bb1b216d70a596268c9fa469af962d7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:31 +0000
Subject: [PATCH 16/45] fix: adaptive Adams steppers did not accept a system
 passed by boost::ref / std::ref

---
 .../stepper/adaptive_adams_bashforth_moulton.hpp | 16 +++++++++++-----
 .../controlled_adams_bashforth_moulton.hpp       |  8 ++++++--
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp
index 0d3d0c1..6b358aa 100644
--- a/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp
@@ -110,9 +110,11 @@ public:
     template< class System >
     void do_step(System system, const state_type &in, time_type t, state_type &out, time_type dt , state_type &xerr)
     {
+        typename odeint::unwrap_reference< System >::type &sys = system;
+
         do_step_impl(system, in, t, out, dt, xerr);
         
-        system(out, m_dxdt.m_v, t+dt);
+        sys(out, m_dxdt.m_v, t+dt);
         m_coeff.do_step(m_dxdt.m_v);
         m_coeff.confirm();
 
@@ -125,17 +127,19 @@ public:
     template< class ExplicitStepper, class System >
     void initialize(ExplicitStepper stepper, System system, state_type &inOut, time_type &t, time_type dt)
     {
+        typename odeint::unwrap_reference< System >::type &sys = system;
+
         reset();
         dt = dt/static_cast< time_type >(order_value);
 
         m_dxdt_resizer.adjust_size( inOut , detail::bind( &stepper_type::template resize_dxdt_impl< state_type > , detail::ref( *this ) , detail::_1 ) );
 
-        system( inOut , m_dxdt.m_v , t );
+        sys( inOut , m_dxdt.m_v , t );
         for( size_t i=0 ; i<order_value; ++i )
         {
             stepper.do_step_dxdt_impl( system, inOut, m_dxdt.m_v, t, dt );
             
-            system( inOut , m_dxdt.m_v , t + dt);
+            sys( inOut , m_dxdt.m_v , t + dt);
             
             m_coeff.predict(t, dt);
             m_coeff.do_step(m_dxdt.m_v);
@@ -166,6 +170,8 @@ public:
     template< class System >
     void do_step_impl(System system, const state_type & in, time_type t, state_type & out, time_type &dt, state_type &xerr)
     {
+        typename odeint::unwrap_reference< System >::type &sys = system;
+
         size_t eO = m_coeff.m_eo;
 
         m_xerr_resizer.adjust_size( in , detail::bind( &stepper_type::template resize_xerr_impl< state_type > , detail::ref( *this ) , detail::_1 ) );
@@ -174,7 +180,7 @@ public:
         m_coeff.predict(t, dt);
         if (m_coeff.m_steps_init == 1)
         {
-            system(in, m_dxdt.m_v, t);
+            sys(in, m_dxdt.m_v, t);
             m_coeff.do_step(m_dxdt.m_v, 1);
         }
 
@@ -185,7 +191,7 @@ public:
                 typename Operations::template scale_sum2<double, double>(1.0, dt*m_coeff.g[i]*m_coeff.beta[0][i]));
         }
 
-        system(out, m_dxdt.m_v, t+dt);
+        sys(out, m_dxdt.m_v, t+dt);
         m_coeff.do_step(m_dxdt.m_v);
 
         this->m_algebra.for_each3(out, out, m_coeff.phi[0][eO].m_v,
diff --git a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
index 85ee4d0..f23ba08 100644
--- a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
@@ -175,6 +175,8 @@ public:
     template< class ExplicitStepper, class System >
     void initialize_controlled(ExplicitStepper stepper, System system, state_type &inOut, time_type &t, time_type &dt)
     {
+        typename odeint::unwrap_reference< System >::type &sys = system;
+
         reset();
         coeff_type &coeff = m_stepper.coeff();
 
@@ -190,7 +192,7 @@ public:
             }
             while(res != success);
 
-            system( inOut , m_dxdt.m_v , t );
+            sys( inOut , m_dxdt.m_v , t );
             
             coeff.predict(t-dt, dt);
             coeff.do_step(m_dxdt.m_v);
@@ -221,6 +223,8 @@ public:
     template< class System >
     controlled_step_result try_step(System system, const state_type & in, time_type &t, state_type & out, time_type &dt)
     {
+        typename odeint::unwrap_reference< System >::type &sys = system;
+
         m_xerr_resizer.adjust_size( in , detail::bind( &controlled_stepper_type::template resize_xerr_impl< state_type > , detail::ref( *this ) , detail::_1 ) );
         m_dxdt_resizer.adjust_size( in , detail::bind( &controlled_stepper_type::template resize_dxdt_impl< state_type > , detail::ref( *this ) , detail::_1 ) );
 
@@ -233,7 +237,7 @@ public:
 
         if(dt / dtPrev >= step_adjuster_type::threshold())
         {
-            system(out, m_dxdt.m_v, t+dtPrev);
+            sys(out, m_dxdt.m_v, t+dtPrev);
 
             coeff.do_step(m_dxdt.m_v);
             coeff.confirm();
-- 
2.43.0


From 9afca7e4a97d51d37378a1ad4dd2d1b9b84dc26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:31 +0000
Subject: [PATCH 17/45] fix: pid_step_adjuster ignored the step size limit when
 integrating backwards

---
 .../boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp b/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp
index 7c0f258..911150b 100644
--- a/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp
+++ b/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp
@@ -157,9 +157,9 @@ public:
         value_type kappa = 1.0;
         ratio = 1.0 + kappa*atan((ratio - 1) / kappa);
 
-        if(ratio*dt >= m_dtmax)
+        if(ratio*abs(dt) >= abs(m_dtmax))
         {
-            ratio = m_dtmax / dt;
+            ratio = abs(m_dtmax) / abs(dt);
         }
 
         if(ratio >= threshold())
-- 
2.43.0


From ddb22d9decf67aeb6b980539a565662161b392f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:31 +0000
Subject: [PATCH 18/45] fix: initialize_controlled recorded wrong times in the
 Adams history

---
 .../odeint/stepper/controlled_adams_bashforth_moulton.hpp    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
index f23ba08..c5ffe47 100644
--- a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
@@ -186,6 +186,8 @@ public:
 
         for( size_t i=0 ; i<order_value; ++i )
         {
+            const time_type t_old = t;
+
             do
             {
                 res = stepper.try_step( system, inOut, t, dt );
@@ -194,7 +196,8 @@ public:
 
             sys( inOut , m_dxdt.m_v , t );
             
-            coeff.predict(t-dt, dt);
+            // dt already holds the suggestion for the next step
+            coeff.predict(t_old, t - t_old);
             coeff.do_step(m_dxdt.m_v);
             coeff.confirm();
 
-- 
2.43.0


From 5044dcddd16cae859a465c224ccfcbf74772690d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:07 +0000
Subject: [PATCH 19/45] fix: controlled_adams_bashforth_moulton::reset() kept
 the error history of previous steps

---
 .../stepper/controlled_adams_bashforth_moulton.hpp    | 11 ++++++++++-
 .../odeint/stepper/detail/pid_step_adjuster.hpp       |  3 +++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
index c5ffe47..d546925 100644
--- a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
@@ -156,6 +156,7 @@ public:
 
     controlled_adams_bashforth_moulton(step_adjuster_type step_adjuster = step_adjuster_type())
     :m_stepper(),
+    m_xerr(),
     m_dxdt_resizer(), m_xerr_resizer(), m_xnew_resizer(),
     m_step_adjuster( step_adjuster ), m_order_adjuster()
     {};
@@ -163,12 +164,14 @@ public:
     template< class ExplicitStepper, class System >
     void initialize(ExplicitStepper stepper, System system, state_type &inOut, time_type &t, time_type dt)
     {
+        reset();
         m_stepper.initialize(stepper, system, inOut, t, dt);
     };
 
     template< class System >
     void initialize(System system, state_type &inOut, time_type &t, time_type dt)
     {
+        reset();
         m_stepper.initialize(system, inOut, t, dt);
     };
 
@@ -283,7 +286,13 @@ public:
         }
     };
 
-    void reset() { m_stepper.reset(); };
+    void reset()
+    {
+        m_stepper.reset();
+        m_step_adjuster.reset();
+        m_xerr = error_storage_type();
+        m_xerr_resizer = resizer_type();
+    };
 
 private:
     template< class StateType >
diff --git a/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp b/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp
index 911150b..d1877f9 100644
--- a/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp
+++ b/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp
@@ -177,6 +177,9 @@ public:
         return dt * static_cast<time_type>(ratio);
     };
 
+    // forget the errors and step sizes of previous steps
+    void reset() { m_init = 0; };
+
 private:
     algebra_type m_algebra;
 
-- 
2.43.0


From 9e1be2cd5ae6ec141e31c7c7260034a0f0e98990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:13 +0000
Subject: [PATCH 20/45] fix: controlled FSAL stepper kept a stale derivative
 after a step with caller-supplied derivative

---
 .../numeric/odeint/stepper/controlled_runge_kutta.hpp     | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
index c77bc3a..8094398 100644
--- a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
@@ -688,6 +688,7 @@ public:
         {
             boost::numeric::odeint::copy( m_dxdtnew.m_v , m_dxdt.m_v );
         }
+        m_first_call = false;
         return res;
     }
 
@@ -759,6 +760,9 @@ public:
     controlled_step_result try_step( System system , const StateIn &in , const DerivIn &dxdt_in , time_type &t ,
             StateOut &out , DerivOut &dxdt_out , time_type &dt )
     {
+        // the derivative stored for the forms without dxdt is out of date after this step
+        m_first_call = true;
+
         unwrapped_step_adjuster &step_adjuster = m_step_adjuster;
         if( !step_adjuster.check_step_size_limit(dt) )
         {
@@ -907,7 +911,9 @@ private:
         {
             initialize( system , x , t );
         }
-        return try_step( system , x , m_dxdt.m_v , t , dt );
+        controlled_step_result res = try_step( system , x , m_dxdt.m_v , t , dt );
+        m_first_call = false;
+        return res;
     }
 
 
-- 
2.43.0


From cdb0b4f6277bd5e1ab481ac9940757d49887c88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:13 +0000
Subject: [PATCH 21/45] fix: velocity_verlet kept a stale acceleration after a
 step with caller-supplied acceleration

---
 include/boost/numeric/odeint/stepper/velocity_verlet.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/numeric/odeint/stepper/velocity_verlet.hpp b/include/boost/numeric/odeint/stepper/velocity_verlet.hpp
index 3a20fc2..0cbbc5b 100644
--- a/include/boost/numeric/odeint/stepper/velocity_verlet.hpp
+++ b/include/boost/numeric/odeint/stepper/velocity_verlet.hpp
@@ -118,6 +118,9 @@ public:
 
         typename odeint::unwrap_reference< System >::type & sys = system;
 
+        // the stored acceleration does not belong to the result of this step
+        m_first_call = true;
+
         sys( qout , pin , aout , t + dt );
 
         algebra_stepper_base_type::m_algebra.for_each4(
@@ -206,6 +209,7 @@ private:
         // check first
         do_step( system , qinout , pinout , get_current_acc() , qinout , pinout , get_old_acc() , t , dt );
         toggle_current_acc();
+        m_first_call = false;
     }
 
     template< class StateIn >
-- 
2.43.0


From 9c6f01d28b31d62f61a6c3a98e10e4075688198f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:58 +0000
Subject: [PATCH 22/45] fix: copy the corrector of adams_bashforth_moulton by
 construction

The copy constructor assigned the corrector after default construction. State
types whose assignment requires equal shapes, like multi_array, do not allow
that.
---
 .../numeric/odeint/stepper/adams_bashforth_moulton.hpp      | 6 ++----
 include/boost/numeric/odeint/stepper/adams_moulton.hpp      | 6 ++++++
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp
index 3ad09ae..93056ff 100644
--- a/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp
@@ -96,11 +96,9 @@ public :
 
     // the corrector shares the algebra of the predictor of the same object
     adams_bashforth_moulton( const adams_bashforth_moulton &stepper )
-    : m_adams_bashforth( stepper.m_adams_bashforth ) , m_adams_moulton( m_adams_bashforth.algebra() )
+    : m_adams_bashforth( stepper.m_adams_bashforth ) , m_adams_moulton( stepper.m_adams_moulton , m_adams_bashforth.algebra() )
     , m_x( stepper.m_x ) , m_resizer( stepper.m_resizer )
-    {
-        m_adams_moulton = stepper.m_adams_moulton;
-    }
+    { }
 
     order_type order( void ) const { return order_value; }
 
diff --git a/include/boost/numeric/odeint/stepper/adams_moulton.hpp b/include/boost/numeric/odeint/stepper/adams_moulton.hpp
index 99996a9..773aab1 100644
--- a/include/boost/numeric/odeint/stepper/adams_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/adams_moulton.hpp
@@ -104,6 +104,12 @@ public :
       m_algebra( &stepper.m_algebra == &stepper.m_algebra_instance ? m_algebra_instance : stepper.m_algebra )
     { }
 
+    // copy which uses the given algebra
+    adams_moulton( const adams_moulton &stepper , algebra_type &algebra )
+    : m_coefficients() , m_dxdt( stepper.m_dxdt ) , m_resizer( stepper.m_resizer ) ,
+      m_algebra_instance() , m_algebra( algebra )
+    { }
+
     adams_moulton& operator=( const adams_moulton &stepper )
     {
         m_dxdt = stepper.m_dxdt;
-- 
2.43.0


From 984de27e5cbfdbd6e668c99330ededde77e156ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:15 +0000
Subject: [PATCH 23/45] fix: copy openmp_states block by block

copy() between openmp_states wrote into the list of blocks instead of the
blocks and did not compile.
---
 include/boost/numeric/odeint/external/openmp/openmp_state.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/external/openmp/openmp_state.hpp b/include/boost/numeric/odeint/external/openmp/openmp_state.hpp
index 83bbc19..b8d697e 100644
--- a/include/boost/numeric/odeint/external/openmp/openmp_state.hpp
+++ b/include/boost/numeric/odeint/external/openmp/openmp_state.hpp
@@ -93,7 +93,7 @@ struct copy_impl< openmp_state< T >, openmp_state< T > >
     {
 #       pragma omp parallel for schedule(dynamic)
         for(size_t i = 0 ; i < from.size() ; i++)
-            std::copy( from[i].begin() , from[i].end() , to.begin() );
+            std::copy( from[i].begin() , from[i].end() , to[i].begin() );
     }
 };
 
-- 
2.43.0


From 836b2a7f8641026524b4b7a889fb24bcd3bfac12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:15 +0000
Subject: [PATCH 24/45] fix: balance the blocks of openmp_state

split() put the whole remainder into the last block. The documentation
promises that block sizes differ at most by one.
---
 .../numeric/odeint/external/openmp/openmp_state.hpp      | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/boost/numeric/odeint/external/openmp/openmp_state.hpp b/include/boost/numeric/odeint/external/openmp/openmp_state.hpp
index b8d697e..747ce3d 100644
--- a/include/boost/numeric/odeint/external/openmp/openmp_state.hpp
+++ b/include/boost/numeric/odeint/external/openmp/openmp_state.hpp
@@ -25,6 +25,7 @@
 #include <boost/range/adaptor/sliced.hpp>
 #include <boost/numeric/odeint/util/copy.hpp>
 #include <boost/numeric/odeint/util/split.hpp>
+#include <boost/numeric/odeint/util/split_adaptor.hpp>
 #include <boost/numeric/odeint/util/resize.hpp>
 #include <boost/numeric/odeint/external/openmp/openmp_nested_algebra.hpp>
 
@@ -110,14 +111,12 @@ struct split_impl< SourceContainer, openmp_state< typename SourceContainer::valu
     static void split( const SourceContainer &from, openmp_state< typename SourceContainer::value_type > &to )
     {
         if(to.size() == 0) to.resize( omp_get_max_threads() );
-        const size_t part = from.size() / to.size();
 #       pragma omp parallel for schedule(dynamic)
         for(size_t i = 0 ; i < to.size() ; i++) {
             typedef typename SourceContainer::const_iterator it_t;
-            const it_t begin = from.begin() + i * part;
-            it_t end = begin + part;
-            // for cases where from.size() % to.size() > 0
-            if(i + 1 == to.size() || end > from.end()) end = from.end();
+            const std::pair< size_t , size_t > off = detail::split_offsets( from.size() , i , to.size() );
+            const it_t begin = from.begin() + off.first;
+            const it_t end = from.begin() + off.second;
             to[i].resize(end - begin);
             std::copy(begin, end, to[i].begin());
         }
-- 
2.43.0


From 2c68b51968c71e8349a758b43691bf0a5e14c9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:32 +0000
Subject: [PATCH 25/45] fix: inline the functions of gsl_wrapper.hpp

The header could not be included in more than one translation unit.
---
 include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp b/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp
index a856f6e..092a39b 100644
--- a/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp
+++ b/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp
@@ -91,17 +91,17 @@ private :
 };
 
 
-bool gsl_vector_iterator::equal( const const_gsl_vector_iterator &other ) const { return this->m_p == other.m_p; }
+inline bool gsl_vector_iterator::equal( const const_gsl_vector_iterator &other ) const { return this->m_p == other.m_p; }
 
 
-gsl_vector_iterator end_iterator( gsl_vector *x )
+inline gsl_vector_iterator end_iterator( gsl_vector *x )
 {
     gsl_vector_iterator iter( x );
     iter.m_p += iter.m_stride * x->size;
     return iter;
 }
 
-const_gsl_vector_iterator end_iterator( const gsl_vector *x )
+inline const_gsl_vector_iterator end_iterator( const gsl_vector *x )
 {
     const_gsl_vector_iterator iter( x );
     iter.m_p += iter.m_stride * x->size;
-- 
2.43.0


From 045c83b4f5d1ffc8277d3cd11406eeff7dd12572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:32 +0000
Subject: [PATCH 26/45] fix: copy the gsl_vector in the state_wrapper

The copy constructor freed an uninitialised pointer and the assignment
shared one vector between two owners.
---
 .../numeric/odeint/external/gsl/gsl_wrapper.hpp      | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp b/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp
index 092a39b..14fce45 100644
--- a/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp
+++ b/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp
@@ -207,10 +207,20 @@ struct state_wrapper< gsl_vector* >
 
     state_wrapper( const state_wrapper_type &x )
     {
-        resize( m_v , x.m_v );
+        m_v = gsl_vector_alloc( x.m_v->size );
         gsl_vector_memcpy( m_v , x.m_v );
     }
 
+    state_wrapper_type& operator=( const state_wrapper_type &x )
+    {
+        if( this != &x )
+        {
+            if( m_v->size != x.m_v->size ) resize( m_v , x.m_v );
+            gsl_vector_memcpy( m_v , x.m_v );
+        }
+        return *this;
+    }
+
 
     ~state_wrapper()
     {
-- 
2.43.0


From 2d53d13b15f41bfdd8f70cfa130298818899d9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:32 +0000
Subject: [PATCH 27/45] fix: copy the elements of a gsl_vector

copy() fell back to the assignment of the pointers, hence the steppers
which copy states worked on the vectors of the caller and freed them twice.
---
 .../boost/numeric/odeint/external/gsl/gsl_wrapper.hpp    | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp b/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp
index 14fce45..12a24cf 100644
--- a/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp
+++ b/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp
@@ -191,6 +191,15 @@ struct resize_impl< gsl_vector* , gsl_vector* >
     }
 };
 
+template <>
+struct copy_impl< gsl_vector* , gsl_vector* >
+{
+    static void copy( const gsl_vector* x , gsl_vector* y )
+    {
+        gsl_vector_memcpy( y , x );
+    }
+};
+
 template<>
 struct state_wrapper< gsl_vector* >
 {
-- 
2.43.0


From 7b3d8c7994865ca5f61a17175ce9146d95dde086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:46 +0000
Subject: [PATCH 28/45] fix: take the maximal step of a controlled stepper
 factory as time

controller_factory took max_dt as value_type, which loses the unit or the
precision of the time type.
---
 .../stepper/generation/generation_controlled_runge_kutta.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/generation/generation_controlled_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/generation/generation_controlled_runge_kutta.hpp
index bad2bed..6c2c65c 100644
--- a/include/boost/numeric/odeint/stepper/generation/generation_controlled_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/generation/generation_controlled_runge_kutta.hpp
@@ -36,7 +36,7 @@ struct controller_factory< Stepper , controlled_runge_kutta< Stepper > >
     typedef typename controller_type::error_checker_type error_checker_type;
     typedef typename controller_type::step_adjuster_type step_adjuster_type;
     typedef typename stepper_type::value_type value_type;
-    typedef typename stepper_type::value_type time_type;
+    typedef typename stepper_type::time_type time_type;
 
     controller_type operator()( value_type abs_error , value_type rel_error , const stepper_type &stepper )
     {
-- 
2.43.0


From a313f4708fea54076a2c809a1ed160655ea6368e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:57 +0000
Subject: [PATCH 29/45] fix: make dense_output_runge_kutta::adjust_size usable

It called a function which no stepper has and did not compile.
---
 .../boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp
index 83982dc..9254fd4 100644
--- a/include/boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp
@@ -169,7 +169,7 @@ public:
     void adjust_size( const StateType &x )
     {
         resize_impl( x );
-        m_stepper.stepper().resize( x );
+        m_stepper.adjust_size( x );
     }
 
     /**
@@ -379,7 +379,7 @@ public:
     void adjust_size( const StateType &x )
     {
         resize( x );
-        m_stepper.stepper().resize( x );
+        m_stepper.adjust_size( x );
     }
 
     const state_type& current_state( void ) const
-- 
2.43.0


From c3181980b81594033116b107bcc2d2df8fbf3ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:57 +0000
Subject: [PATCH 30/45] fix: adjust the size of the FSAL stepper inside
 controlled_runge_kutta

adjust_size resized only the temporaries of the controller, so that with
never_resizer the stepper worked on empty buffers.
---
 include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
index 8094398..13d42d2 100644
--- a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
@@ -853,6 +853,7 @@ public:
         resize_m_dxdt_impl( x );
         resize_m_dxdt_new_impl( x );
         resize_m_xnew_impl( x );
+        m_stepper.adjust_size( x );
     }
 
 
-- 
2.43.0


From 837a01f76c4635340bece7b8dbcee0a43f6fe08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:57 +0000
Subject: [PATCH 31/45] fix: adjust the size of the stepper inside
 rosenbrock4_controller

adjust_size resized only the temporaries of the controller.
---
 include/boost/numeric/odeint/stepper/rosenbrock4_controller.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/numeric/odeint/stepper/rosenbrock4_controller.hpp b/include/boost/numeric/odeint/stepper/rosenbrock4_controller.hpp
index e5ff9b4..8220ed1 100644
--- a/include/boost/numeric/odeint/stepper/rosenbrock4_controller.hpp
+++ b/include/boost/numeric/odeint/stepper/rosenbrock4_controller.hpp
@@ -193,6 +193,7 @@ public:
     {
         resize_m_xerr( x );
         resize_m_xnew( x );
+        m_stepper.adjust_size( x );
     }
 
 
-- 
2.43.0


From 106c2a069da96ba93ed6207a79652cfa0f2af3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:57 +0000
Subject: [PATCH 32/45] fix: adjust the size of the initializing stepper of
 adams_bashforth

With never_resizer the first steps worked on empty buffers after adjust_size.
---
 include/boost/numeric/odeint/stepper/adams_bashforth.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/numeric/odeint/stepper/adams_bashforth.hpp b/include/boost/numeric/odeint/stepper/adams_bashforth.hpp
index 5ff1e83..ba60657 100644
--- a/include/boost/numeric/odeint/stepper/adams_bashforth.hpp
+++ b/include/boost/numeric/odeint/stepper/adams_bashforth.hpp
@@ -177,6 +177,7 @@ public :
     void adjust_size( const StateType &x )
     {
         resize_impl( x );
+        m_initializing_stepper.adjust_size( x );
     }
 
     const step_storage_type& step_storage( void ) const
-- 
2.43.0


From 52ff10dca0bd5efccceef753b0bf9dfe62071d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:57 +0000
Subject: [PATCH 33/45] fix: adjust all buffers of the extrapolation_stepper

adjust_size left out the output buffer and the derivative.
---
 include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp b/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp
index c62ba47..42005a5 100644
--- a/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp
+++ b/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp
@@ -218,7 +218,9 @@ class extrapolation_stepper : public explicit_error_stepper_base
     template < class StateIn > void adjust_size( const StateIn &x )
     {
         resize_impl( x );
+        resize_m_xout( x );
         m_midpoint.adjust_size( x );
+        stepper_base_type::adjust_size( x );
     }
 
   private:
-- 
2.43.0


From 07c28701d91c869afde7267b923025e620bddc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:09 +0000
Subject: [PATCH 34/45] fix: restart adaptive_adams_bashforth_moulton when the
 state size changes

The history of the old size was kept, partly with elements which were never
written.
---
 .../odeint/stepper/adaptive_adams_bashforth_moulton.hpp     | 6 ++++++
 .../odeint/stepper/detail/adaptive_adams_coefficients.hpp   | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp
index 6b358aa..8c1a432 100644
--- a/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp
@@ -172,6 +172,12 @@ public:
     {
         typename odeint::unwrap_reference< System >::type &sys = system;
 
+        // the history of a state of another size is of no use
+        if( m_coeff.adjust_size( in ) )
+        {
+            m_coeff.reset();
+        }
+
         size_t eO = m_coeff.m_eo;
 
         m_xerr_resizer.adjust_size( in , detail::bind( &stepper_type::template resize_xerr_impl< state_type > , detail::ref( *this ) , detail::_1 ) );
diff --git a/include/boost/numeric/odeint/stepper/detail/adaptive_adams_coefficients.hpp b/include/boost/numeric/odeint/stepper/detail/adaptive_adams_coefficients.hpp
index c1029a1..f838aaf 100644
--- a/include/boost/numeric/odeint/stepper/detail/adaptive_adams_coefficients.hpp
+++ b/include/boost/numeric/odeint/stepper/detail/adaptive_adams_coefficients.hpp
@@ -165,6 +165,12 @@ public:
 
     void reset() { m_eo = 1; m_steps_init = 1; };
 
+    template< class StateType >
+    bool adjust_size( const StateType &x )
+    {
+        return m_phi_resizer.adjust_size( x , detail::bind( &aac_type::template resize_phi_impl< StateType > , detail::ref( *this ) , detail::_1 ) );
+    };
+
     size_t m_eo;
     size_t m_steps_init;
 
-- 
2.43.0


From 9cfbda1c27184c9d296665de76a239d1c8a95b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:44 +0000
Subject: [PATCH 35/45] fix: forget the FSAL derivative when adjust_size
 changes the size

The next step used the derivative of the old size, partly with elements which
were never written.
---
 .../odeint/stepper/base/explicit_error_stepper_fsal_base.hpp   | 3 ++-
 .../boost/numeric/odeint/stepper/controlled_runge_kutta.hpp    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp b/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
index 7ceb5d4..f72d78a 100644
--- a/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
+++ b/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
@@ -275,7 +275,8 @@ public:
     template< class StateIn >
     void adjust_size( const StateIn &x )
     {
-        resize_impl( x );
+        if( resize_impl( x ) )
+            m_first_call = true;
     }
 
     void reset( void )
diff --git a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
index 13d42d2..b2dfb4f 100644
--- a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
@@ -850,7 +850,8 @@ public:
     void adjust_size( const StateType &x )
     {
         resize_m_xerr_impl( x );
-        resize_m_dxdt_impl( x );
+        if( resize_m_dxdt_impl( x ) )
+            m_first_call = true;
         resize_m_dxdt_new_impl( x );
         resize_m_xnew_impl( x );
         m_stepper.adjust_size( x );
-- 
2.43.0


From 86958318ddec1c36cb8b15f815b4da550d16c658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:44 +0000
Subject: [PATCH 36/45] fix: restart adams_bashforth when adjust_size changes
 the size

The next step used the derivatives of the old size.
---
 include/boost/numeric/odeint/stepper/adams_bashforth.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/adams_bashforth.hpp b/include/boost/numeric/odeint/stepper/adams_bashforth.hpp
index ba60657..7544e9f 100644
--- a/include/boost/numeric/odeint/stepper/adams_bashforth.hpp
+++ b/include/boost/numeric/odeint/stepper/adams_bashforth.hpp
@@ -176,7 +176,7 @@ public :
     template< class StateType >
     void adjust_size( const StateType &x )
     {
-        resize_impl( x );
+        if( resize_impl( x ) ) m_steps_initialized = 0;
         m_initializing_stepper.adjust_size( x );
     }
 
-- 
2.43.0


From 4f43da46b3c6dd48374df58494d4c60e03c57317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:55 +0000
Subject: [PATCH 37/45] fix: restart adams_bashforth_moulton on a size change

---
 .../odeint/stepper/adams_bashforth_moulton.hpp       | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp
index 93056ff..dce70bd 100644
--- a/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp
@@ -145,6 +145,7 @@ public :
     template< class ExplicitStepper , class System , class StateIn >
     void initialize( ExplicitStepper explicit_stepper , System system , StateIn &x , time_type &t , time_type dt )
     {
+        m_resizer.adjust_size( x , detail::bind( &stepper_type::template resize_impl< StateIn > , detail::ref( *this ) , detail::_1 ) );
         m_adams_bashforth.initialize( explicit_stepper , system , x , t , dt );
     }
 
@@ -152,6 +153,7 @@ public :
     template< class System , class StateIn >
     void initialize( System system , StateIn &x , time_type &t , time_type dt )
     {
+        m_resizer.adjust_size( x , detail::bind( &stepper_type::template resize_impl< StateIn > , detail::ref( *this ) , detail::_1 ) );
         m_adams_bashforth.initialize( system , x , t , dt );
     }
 
@@ -168,9 +170,12 @@ private:
     template< typename System , typename StateInOut >
     void do_step_impl1( System system , StateInOut &x , time_type t , time_type dt )
     {
+        if( m_resizer.adjust_size( x , detail::bind( &stepper_type::template resize_impl< StateInOut > , detail::ref( *this ) , detail::_1 ) ) )
+        {
+            m_adams_bashforth.reset();
+        }
         if( m_adams_bashforth.is_initialized() )
         {
-            m_resizer.adjust_size( x , detail::bind( &stepper_type::template resize_impl< StateInOut > , detail::ref( *this ) , detail::_1 ) );
             m_adams_bashforth.do_step( system , x , t , m_x.m_v , dt );
             m_adams_moulton.do_step( system , x , m_x.m_v , t+dt , x , dt , m_adams_bashforth.step_storage() );
         }
@@ -183,9 +188,12 @@ private:
     template< typename System , typename StateIn , typename StateInOut >
     void do_step_impl2( System system , StateIn const &in , time_type t , StateInOut & out , time_type dt )
     {
+        if( m_resizer.adjust_size( in , detail::bind( &stepper_type::template resize_impl< StateInOut > , detail::ref( *this ) , detail::_1 ) ) )
+        {
+            m_adams_bashforth.reset();
+        }
         if( m_adams_bashforth.is_initialized() )
         {
-            m_resizer.adjust_size( in , detail::bind( &stepper_type::template resize_impl< StateInOut > , detail::ref( *this ) , detail::_1 ) );        
             m_adams_bashforth.do_step( system , in , t , m_x.m_v , dt );
             m_adams_moulton.do_step( system , in , m_x.m_v , t+dt , out , dt , m_adams_bashforth.step_storage() );
         }
-- 
2.43.0


From 2622b780a06a0e434b3ce3a5d412f1a5310474da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:21 +0000
Subject: [PATCH 38/45] fix: keep the stepper's memory between the observation
 points of controlled const/n_steps integration with a checked stepper

integrate_const and integrate_n_steps passed the stepper by value to
integrate_adaptive for every interval, so steppers with memory were copied,
advanced and thrown away.
---
 .../boost/numeric/odeint/integrate/detail/integrate_const.hpp | 4 +++-
 .../numeric/odeint/integrate/detail/integrate_n_steps.hpp     | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp
index d13b4b1..8057825 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp
@@ -77,6 +77,8 @@ size_t integrate_const(
 )
 {
     typename odeint::unwrap_reference< Observer >::type &obs = observer;
+    // the stepper must not lose its memory at the observation points
+    typename odeint::unwrap_reference< Stepper >::type &st = stepper;
 
     Time time = start_time;
     const Time time_step = dt;
@@ -87,7 +89,7 @@ size_t integrate_const(
     {
         obs( start_state , time );
         // integrate_adaptive_checked uses the given checker to throw if an overflow occurs
-        real_steps += detail::integrate_adaptive(stepper, system, start_state, time,
+        real_steps += detail::integrate_adaptive(detail::ref(st), system, start_state, time,
                                                  static_cast<Time>(time + time_step), dt,
                                                  null_observer(), controlled_stepper_tag());
         // direct computation of the time avoids error propagation happening when using time += dt
diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp
index 0d0ef83..34b006a 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp
@@ -74,6 +74,8 @@ Time integrate_n_steps(
         Observer observer , controlled_stepper_tag )
 {
     typename odeint::unwrap_reference< Observer >::type &obs = observer;
+    // the stepper must not lose its memory at the observation points
+    typename odeint::unwrap_reference< Stepper >::type &st = stepper;
 
     Time time = start_time;
     Time time_step = dt;
@@ -82,7 +84,7 @@ Time integrate_n_steps(
     {
         obs( start_state , time );
         // integrate_adaptive_checked uses the given checker to throw if an overflow occurs
-        detail::integrate_adaptive(stepper, system, start_state, time, static_cast<Time>(time + time_step), dt,
+        detail::integrate_adaptive(detail::ref(st), system, start_state, time, static_cast<Time>(time + time_step), dt,
                                    null_observer(), controlled_stepper_tag());
         // direct computation of the time avoids error propagation happening when using time += dt
         // we need clumsy type analysis to get boost units working here
-- 
2.43.0


From 9da5f43c358e31277c770513df0887010e219105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:21 +0000
Subject: [PATCH 39/45] fix: bound the number of rejected trials in
 controlled_adams_bashforth_moulton::initialize

---
 .../odeint/stepper/controlled_adams_bashforth_moulton.hpp    | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
index d546925..887ea0c 100644
--- a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
@@ -28,6 +28,8 @@
 #include <boost/numeric/odeint/util/copy.hpp>
 #include <boost/numeric/odeint/util/bind.hpp>
 
+#include <boost/numeric/odeint/integrate/max_step_checker.hpp>
+
 #include <iostream>
 
 namespace boost {
@@ -186,6 +188,7 @@ public:
         m_dxdt_resizer.adjust_size( inOut , detail::bind( &controlled_stepper_type::template resize_dxdt_impl< state_type > , detail::ref( *this ) , detail::_1 ) );
 
         controlled_step_result res = fail;
+        failed_step_checker fail_checker; // to throw a runtime_error if step size adjustment fails
 
         for( size_t i=0 ; i<order_value; ++i )
         {
@@ -194,8 +197,10 @@ public:
             do
             {
                 res = stepper.try_step( system, inOut, t, dt );
+                fail_checker();  // check number of failed steps
             }
             while(res != success);
+            fail_checker.reset();  // if we reach here, the step was successful -> reset fail checker
 
             sys( inOut , m_dxdt.m_v , t );
             
-- 
2.43.0


From 4ee8ca601005817f9f15bce5c0c743a66fec0378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:59 +0000
Subject: [PATCH 40/45] fix: make_controlled for adaptive Adams steppers must
 use the stepper it is given

The factory (and controlled_adams_bashforth_moulton) ignored the stepper
argument and default-constructed a new one.
---
 .../odeint/stepper/controlled_adams_bashforth_moulton.hpp    | 5 +++--
 .../generation_controlled_adams_bashforth_moulton.hpp        | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
index 887ea0c..47274c2 100644
--- a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
@@ -156,8 +156,9 @@ public:
     typedef typename stepper_type::coeff_type coeff_type;
     typedef controlled_adams_bashforth_moulton< ErrorStepper , StepAdjuster , OrderAdjuster , Resizer > controlled_stepper_type;
 
-    controlled_adams_bashforth_moulton(step_adjuster_type step_adjuster = step_adjuster_type())
-    :m_stepper(),
+    controlled_adams_bashforth_moulton(step_adjuster_type step_adjuster = step_adjuster_type(),
+        const stepper_type &stepper = stepper_type())
+    :m_stepper( stepper ),
     m_xerr(),
     m_dxdt_resizer(), m_xerr_resizer(), m_xnew_resizer(),
     m_step_adjuster( step_adjuster ), m_order_adjuster()
diff --git a/include/boost/numeric/odeint/stepper/generation/generation_controlled_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/generation/generation_controlled_adams_bashforth_moulton.hpp
index ca95a1f..9a73a55 100644
--- a/include/boost/numeric/odeint/stepper/generation/generation_controlled_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/generation/generation_controlled_adams_bashforth_moulton.hpp
@@ -42,13 +42,13 @@ struct controller_factory< Stepper , controlled_adams_bashforth_moulton< Stepper
 
     controller_type operator()( value_type abs_error , value_type rel_error , const stepper_type &stepper )
     {
-        return controller_type(step_adjuster_type(abs_error, rel_error));
+        return controller_type(step_adjuster_type(abs_error, rel_error), stepper);
     }
 
     controller_type operator()( value_type abs_error , value_type rel_error ,
                                 time_type max_dt, const stepper_type &stepper )
     {
-        return controller_type( step_adjuster_type(abs_error, rel_error, max_dt));
+        return controller_type( step_adjuster_type(abs_error, rel_error, max_dt), stepper);
     }
 };
 
-- 
2.43.0


From 8bba56eb937f486f5e3b619f964695f1a4f7f419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:16 +0000
Subject: [PATCH 41/45] fix: integrate_adaptive with a plain stepper did its
 last step with, and showed it to, another copy of a stepper or observer
 passed by value

---
 .../numeric/odeint/integrate/detail/integrate_adaptive.hpp  | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_adaptive.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_adaptive.hpp
index 76cee0d..91e77f4 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_adaptive.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_adaptive.hpp
@@ -58,11 +58,13 @@ size_t integrate_adaptive(
         Observer observer , stepper_tag
 )
 {
-    size_t steps = detail::integrate_const( stepper , system , start_state , start_time ,
-                                            end_time , dt , observer , stepper_tag() );
     typename odeint::unwrap_reference< Observer >::type &obs = observer;
     typename odeint::unwrap_reference< Stepper >::type &st = stepper;
 
+    // all steps are done by one stepper and seen by one observer, the call below must not act on copies
+    size_t steps = detail::integrate_const( detail::ref( st ) , system , start_state , start_time ,
+                                            end_time , dt , detail::ref( obs ) , stepper_tag() );
+
     Time end = start_time + dt*steps;
     if( less_with_sign( end , end_time , dt ) )
     {   //make a last step to end exactly at end_time
-- 
2.43.0


From adbe5b3fe9040a276ff84e963abda57737f13fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:44 +0000
Subject: [PATCH 42/45] fix: infinity norm of a ublas::matrix state is its
 largest element

ublas::norm_inf is the largest row sum, so controlled steppers took other
steps for a matrix than for a vector holding the same elements.
---
 include/boost/numeric/odeint/util/ublas_wrapper.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/util/ublas_wrapper.hpp b/include/boost/numeric/odeint/util/ublas_wrapper.hpp
index c8facfc..b2850a1 100644
--- a/include/boost/numeric/odeint/util/ublas_wrapper.hpp
+++ b/include/boost/numeric/odeint/util/ublas_wrapper.hpp
@@ -55,9 +55,16 @@ namespace boost { namespace numeric { namespace odeint {
     {
         typedef T result_type;
 
+        // the largest element, ublas::norm_inf of a matrix is the largest row sum
         result_type operator()( const boost::numeric::ublas::matrix<T,L,A> &x ) const
         {
-            return boost::numeric::ublas::norm_inf( x );
+            using std::abs;
+            result_type norm = static_cast< result_type >( 0 );
+            for( size_t i=0 ; i<x.size1() ; ++i )
+                for( size_t j=0 ; j<x.size2() ; ++j )
+                    if( norm < abs( x( i , j ) ) )
+                        norm = abs( x( i , j ) );
+            return norm;
         }
     };
 } } }
-- 
2.43.0


From 76e84442b383d09ad0349d332bdb3631ada9fcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:57 +0000
Subject: [PATCH 43/45] fix: relative error of thrust states weighs state and
 derivative separately

---
 .../boost/numeric/odeint/external/thrust/thrust_operations.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/external/thrust/thrust_operations.hpp b/include/boost/numeric/odeint/external/thrust/thrust_operations.hpp
index ce2d372..d1046d1 100644
--- a/include/boost/numeric/odeint/external/thrust/thrust_operations.hpp
+++ b/include/boost/numeric/odeint/external/thrust/thrust_operations.hpp
@@ -216,7 +216,7 @@ struct thrust_operations
         {
             using std::abs;
             thrust::get< 0 >( t ) = abs( thrust::get< 0 >( t ) ) /
-                    ( m_eps_abs + m_eps_rel * ( m_a_x * abs( thrust::get< 1 >( t ) + m_a_dxdt * abs( thrust::get< 2 >( t ) ) ) ) );
+                    ( m_eps_abs + m_eps_rel * ( m_a_x * abs( thrust::get< 1 >( t ) ) + m_a_dxdt * abs( thrust::get< 2 >( t ) ) ) );
         }
 
         typedef void result_type;
-- 
2.43.0


From 20c0c5ab6e49ffc05bc990f4cc8548b8be830341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:57 +0000
Subject: [PATCH 44/45] fix: scale_sum_swap2 of thrust states keeps the old
 value

---
 .../odeint/external/thrust/thrust_operations.hpp  | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/boost/numeric/odeint/external/thrust/thrust_operations.hpp b/include/boost/numeric/odeint/external/thrust/thrust_operations.hpp
index d1046d1..c639ce5 100644
--- a/include/boost/numeric/odeint/external/thrust/thrust_operations.hpp
+++ b/include/boost/numeric/odeint/external/thrust/thrust_operations.hpp
@@ -59,9 +59,18 @@ struct thrust_operations
         __host__ __device__
         void operator()( Tuple t ) const
         {
-            typename thrust::tuple_element<0,Tuple>::type tmp = thrust::get<0>(t);
-            thrust::get<0>(t) = m_alpha1 * thrust::get<1>(t) + m_alpha2 * thrust::get<2>(t);
-            thrust::get<1>(t) = tmp;
+            assign( t , m_alpha1 * thrust::get<1>(t) + m_alpha2 * thrust::get<2>(t) );
+        }
+
+    private:
+
+        // the tuple consists of references, hence the new value is calculated first
+        template< class Tuple , class Value >
+        __host__ __device__
+        void assign( Tuple &t , const Value &new_value ) const
+        {
+            thrust::get<1>(t) = thrust::get<0>(t);
+            thrust::get<0>(t) = new_value;
         }
     };
 
-- 
2.43.0


From 9b4a8ef0815e92f09a488e04b03ce6cb8205fbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:57 +0000
Subject: [PATCH 45/45] fix: the infinity norm of a thrust state is its largest
 magnitude

---
 .../boost/numeric/odeint/external/thrust/thrust_algebra.hpp   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/external/thrust/thrust_algebra.hpp b/include/boost/numeric/odeint/external/thrust/thrust_algebra.hpp
index f33e862..e1c9c6a 100644
--- a/include/boost/numeric/odeint/external/thrust/thrust_algebra.hpp
+++ b/include/boost/numeric/odeint/external/thrust/thrust_algebra.hpp
@@ -40,7 +40,9 @@ namespace detail {
         __host__ __device__
         Value operator()( const Fac1 t1 , const Fac2 t2 ) const
         {
-            return ( abs( t1 ) < abs( t2 ) ) ? t2 : t1 ;
+            const Value a1 = ( t1 < static_cast< Fac1 >( 0 ) ) ? -t1 : t1;
+            const Value a2 = ( t2 < static_cast< Fac2 >( 0 ) ) ? -t2 : t2;
+            return ( a1 < a2 ) ? a2 : a1;
         }
 
         typedef Value result_type;
-- 
2.43.0

