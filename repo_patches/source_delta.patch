From 324c9a2921a51c551a72928bd357fc5b69c5a178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 001/162] fix: upper bound of symmetric vertical segments was y
 - radius

---
 sources/core/vertical_segment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/vertical_segment.cpp b/sources/core/vertical_segment.cpp
index 8b8ca79..6a395a0 100644
--- a/sources/core/vertical_segment.cpp
+++ b/sources/core/vertical_segment.cpp
@@ -125,7 +125,7 @@ void vertical_segment::get(int i, vec& x, vec& yl, vec& yu) const
 	case SYMMETRICAL_CONFIDENCE_INTERVAL:
 	    yl = y - row.segment(_parameters.dimX() + _parameters.dimY(),
 			         _parameters.dimY());
-	    yu = y - row.segment(_parameters.dimX() + _parameters.dimY(),
+	    yu = y + row.segment(_parameters.dimX() + _parameters.dimY(),
 			         _parameters.dimY());
 	    break;
 	
-- 
2.43.0


From 9ed2c06632cc116ff86c1aa4fc1389742be1dfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 002/162] fix: data::equals default tolerance was 1.0 instead
 of 10^-(digits10-1)

---
 sources/core/data.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/data.h b/sources/core/data.h
index ecd7797..cb35c9b 100644
--- a/sources/core/data.h
+++ b/sources/core/data.h
@@ -82,7 +82,7 @@ class data
     //! \brief Return true if this object is equal to DATA ±ε.
     virtual bool equals(const data& data,
                         double epsilon =
-                        std::pow(1.0, -int(std::numeric_limits<double>::digits10 - 1)));
+                        std::pow(10.0, -int(std::numeric_limits<double>::digits10 - 1)));
 
 
     const parameters& parametrization() const {
-- 
2.43.0


From 995a83e9f448078feda1d9f0bd3bb4b6ae1fdbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 003/162] fix: text loader dropped rows beyond the float range
 when no filter was given

---
 sources/core/data_storage.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index cf76980..ec730bc 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -173,14 +173,14 @@ alta::data* alta::load_data_from_text(std::istream& input,
   std::pair<int, int> dim = header.get_pair<int>("DIM");
   size_t row_count = dim.first + 3 * dim.second;
 
-  min = args.get_vec("min", dim.first, -std::numeric_limits<float>::max()) ;
-  max = args.get_vec("max", dim.first,  std::numeric_limits<float>::max()) ;
+  min = args.get_vec("min", dim.first, -std::numeric_limits<float>::infinity()) ;
+  max = args.get_vec("max", dim.first,  std::numeric_limits<float>::infinity()) ;
 #ifdef DEBUG
   std::cout << "<<DEBUG>> data will remove outside of " << min << " -> " << max << " x-interval" << std::endl;
 #endif
 
-  ymin = args.get_vec("ymin", dim.second, -std::numeric_limits<float>::max()) ;
-  ymax = args.get_vec("ymax", dim.second,  std::numeric_limits<float>::max()) ;
+  ymin = args.get_vec("ymin", dim.second, -std::numeric_limits<float>::infinity()) ;
+  ymax = args.get_vec("ymax", dim.second,  std::numeric_limits<float>::infinity()) ;
 #ifdef DEBUG
   std::cout << "<<DEBUG>> data will remove outside of " << ymin << " -> " << ymax << " y-interval" << std::endl;
 #endif
-- 
2.43.0


From 39761c1aa729ea55e5aca9d529f0dee1e5f832f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 004/162] fix: --dt-max used the smaller of the two sizes for
 the lower bound

---
 sources/core/data_storage.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index ec730bc..21f21bb 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -129,8 +129,8 @@ static void read_confidence_interval(std::istream& input,
         }
         else if(args.is_defined("dt-max"))
         {
-            v(dimX +   dimY+i) = v(dimX + i) + std::max(v(dimX + i) * min_dt, min_dt);
-            v(dimX + 2*dimY+i) = v(dimX + i) + std::max(v(dimX + i) * max_dt, max_dt);
+            v(dimX +   dimY+i) = v(dimX + i) - std::max(-std::abs(v(dimX + i)) * min_dt, -min_dt);
+            v(dimX + 2*dimY+i) = v(dimX + i) + std::max(std::abs(v(dimX + i)) * max_dt, max_dt);
         }
         else
         {
-- 
2.43.0


From 27e0e56b7a0efa3a0c075a3fde2ad0ca3cddfc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 005/162] fix: header parsing went on past #BEGIN_STREAM into
 binary data starting with byte 0x23

---
 sources/core/args.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sources/core/args.h b/sources/core/args.h
index 15ee362..02600e9 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -504,6 +504,12 @@ class arguments
 
 								getline(linestream, data, '\r');
 								args.update(key, data) ;
+
+								// Binary data follows: its first byte may
+								// be a '#' that does not start a header line.
+								if (key == "BEGIN_STREAM") {
+									break;
+								}
 							}
 						}
 					}
-- 
2.43.0


From f5124aba8aad80045a279e581289a052952432e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 006/162] fix: scalar value given for a vector option was
 rounded to single precision

---
 sources/core/args.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sources/core/args.h b/sources/core/args.h
index 02600e9..573efec 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -266,7 +266,11 @@ class arguments
 				}
 			}
 
-			float val = get_float(key, default_value);
+			double val = default_value;
+			if(_map.count(key) > 0)
+			{
+				val = atof(_map.find(key)->second.c_str());
+			}
 			for(int i=0; i<size; ++i)
 			{
 				res[i] = val;
-- 
2.43.0


From e18937ff6f375a08bd694e1ffe5901ba63416ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 007/162] fix: COS_TLR did not use the reflected direction

---
 sources/core/params.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 138e1fc..83035fa 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -476,7 +476,7 @@ void params::from_cartesian(const double* invec, params::input outtype,
 			outvec[0] = invec[0]*invec[3] + invec[1]*invec[4] + invec[2]*invec[5];
 			break;
 		case params::COS_TLR:
-			outvec[0] = invec[0]*invec[3] - (invec[1]*invec[4] + invec[2]*invec[5]);
+			outvec[0] = invec[2]*invec[5] - (invec[0]*invec[3] + invec[1]*invec[4]);
 			break;
 
 			// 2D Parametrizations
-- 
2.43.0


From 748c5e43c1fe57458e515fba935384d7c82747e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 008/162] fix: COS_TK and SCHLICK_VK converted to vectors that
 are not unit and have another back vector

---
 sources/core/params.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 83035fa..81df8b3 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -104,11 +104,11 @@ void params::to_cartesian(const double* invec, params::input intype,
 			half_to_cartesian(acos(invec[0]), 0.0, 0.0, 0.0, outvec);
 			break;
 		case params::COS_TK:
-			outvec[0] = invec[0]*invec[0]-1.0;
+			outvec[3] = sqrt(std::max(0.0, 1.0-invec[0]*invec[0]));
+			outvec[4] = 0.0;
+			outvec[0] = -outvec[3];
 			outvec[1] = 0.0;
 			outvec[2] = invec[0];
-			outvec[3] = 1.0-invec[0]*invec[0];
-			outvec[4] = 0.0;
 			outvec[5] = invec[0];
 			break;
 		case params::COS_TLV:
@@ -206,14 +206,13 @@ void params::to_cartesian(const double* invec, params::input intype,
 		case params::RUSIN_VH:
             half_to_cartesian(acos(invec[2]), atan2(invec[1], invec[0]), 0.0, 0.0, outvec);
 			break;
-        // \todo I should handle the phi_k in the conversion to CARTESIAN
       case params::SCHLICK_VK:
-            outvec[0] = invec[2]*invec[2]-1.0;
-            outvec[1] = 0.0;
-            outvec[2] = invec[2];
-            outvec[3] = 1.0-invec[2]*invec[2];
-            outvec[4] = 0.0;
-            outvec[5] = invec[2];
+            outvec[0] = -invec[0];
+            outvec[1] = -invec[1];
+            outvec[2] =  invec[2];
+            outvec[3] =  invec[0];
+            outvec[4] =  invec[1];
+            outvec[5] =  invec[2];
             break;
 		case ISOTROPIC_TL_TV_PROJ_DPHI:
 		{
-- 
2.43.0


From df7349825c0df5b4760b18dda1c3b6df2a470c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 009/162] fix: projected light/view parametrizations were
 mirrored between their two conversions

---
 sources/core/params.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 81df8b3..bf0da31 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -592,7 +592,7 @@ void params::from_cartesian(const double* invec, params::input outtype,
 		{
 			const double theta_l = acos(invec[5]);
 			const double theta_v = acos(invec[2]);
-			const double dphi    = atan2(invec[4], invec[3]) - atan2(invec[1], invec[0]);
+			const double dphi    = atan2(invec[1], invec[0]) - atan2(invec[4], invec[3]);
 			outvec[0] = theta_l;
 			outvec[1] = theta_v * cos(dphi);
 			outvec[2] = theta_v * sin(dphi);
@@ -608,7 +608,7 @@ void params::from_cartesian(const double* invec, params::input outtype,
 			const double sin_vl = sqrt(1.0 - cos_vl* cos_vl);
 
 			// Sine of the \Delta_{\phi} angle
-			const double sin_dp = sin(atan2(invec[4], invec[3]) - atan2(invec[1], invec[0]));
+			const double sin_dp = sin(atan2(invec[1], invec[0]) - atan2(invec[4], invec[3]));
 
 			if(sin_vl != 0.0 && sin_l != 0.0)
 			{
@@ -638,7 +638,7 @@ void params::from_cartesian(const double* invec, params::input outtype,
 			const double vkz     = invec[2]+invec[5];
 			const double norm    = sqrt(vkx*vkx + vky*vky + vkz*vkz);
 			const double theta_k = acos(vkz / norm);
-			const double dphi    = atan2(invec[4], invec[3]) - atan2(vky/norm, vkx/norm);
+			const double dphi    = atan2(vky/norm, vkx/norm) - atan2(invec[4], invec[3]);
 			outvec[0] = acos(invec[5]);
 			outvec[1] = theta_k * cos(dphi);
 			outvec[2] = theta_k * sin(dphi);
-- 
2.43.0


From d49f7f356de8dc51c7e89fe40720936cd7011bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 010/162] fix: RETRO_TL_TVL_PROJ_DPHI always put the view
 direction on the side of the light

---
 sources/core/params.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index bf0da31..916d38d 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -276,7 +276,11 @@ void params::to_cartesian(const double* invec, params::input intype,
 			{
 				const double sin_dphi = (sin_vl*sin_phi) / sin_v;
 
-				outvec[0] = sin_v * sqrt(1.0 - std::min(sin_dphi*sin_dphi, 1.0));
+				// The view direction may lie on the other side of the
+				// normal than the light
+				const double side = (cos_vl < cos_l*cos_v) ? -1.0 : 1.0;
+
+				outvec[0] = side * sin_v * sqrt(1.0 - std::min(sin_dphi*sin_dphi, 1.0));
 				outvec[1] = sin_v * sin_dphi;
 			}
 			else
-- 
2.43.0


From a124e188a6dd321fb14063dcab7c8edb3b106b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 011/162] fix: STARK_3D and NEUMANN_3D swapped the light and
 view directions when converted to vectors

---
 sources/core/params.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 916d38d..6292352 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -308,7 +308,7 @@ void params::to_cartesian(const double* invec, params::input intype,
 #define STARK_BUILDING_THETA
 
 #ifdef STARK_BUILDING_THETA
-			const double Theta  = atan2(-Hz, invec[0]*cosPhi);
+			const double Theta  = atan2(Hz, -invec[0]*cosPhi);
 			const double cosThe = cos(Theta);
 			const double sinThe = sin(Theta);
 #else
@@ -334,10 +334,10 @@ void params::to_cartesian(const double* invec, params::input intype,
 			const double sinPhi = sin(invec[2]);
 
 			// Build the projected Half and Back vectors
-			outvec[0] =   invec[0] + cosPhi*invec[1];
-			outvec[1] =   sinPhi*invec[1];
-			outvec[3] =   invec[0] - cosPhi*invec[1];
-			outvec[4] = - sinPhi*invec[1];
+			outvec[0] =   invec[0] - cosPhi*invec[1];
+			outvec[1] = - sinPhi*invec[1];
+			outvec[3] =   invec[0] + cosPhi*invec[1];
+			outvec[4] =   sinPhi*invec[1];
 
 			// Safeguard, if the vectors are not under unit length return an
 			// invalid configuration
-- 
2.43.0


From 65683ff2da4d00c0e4aad281594658cced46f2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 012/162] fix: STEREOGRAPHIC coordinates were not inverted to
 unit vectors

---
 sources/core/params.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 6292352..66d0cc5 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -377,18 +377,16 @@ void params::to_cartesian(const double* invec, params::input intype,
 			// Project the 2D direction on the surface invec[0,1] to the View
          // vector outvec[0,1,2]
          const double normL = invec[0]*invec[0] + invec[1]*invec[1];
-         const double alphL = (1.0 - normL) / (1.0 + normL);
-         outvec[0] = invec[0] + alphL;
-         outvec[1] = invec[1] + alphL;
-         outvec[2] = alphL;
+         outvec[0] = 2.0*invec[0] / (1.0 + normL);
+         outvec[1] = 2.0*invec[1] / (1.0 + normL);
+         outvec[2] = (1.0 - normL) / (1.0 + normL);
 
          // Project the 2D direction on the surface invec[2,3] to the Light
          // vector outvec[3,4,5]
          const double normV = invec[2]*invec[2] + invec[3]*invec[3];
-         const double alphV = (1.0 - normV) / (1.0 + normV);
-         outvec[3] = invec[2] + alphV;
-         outvec[4] = invec[3] + alphV;
-         outvec[5] = alphV;
+         outvec[3] = 2.0*invec[2] / (1.0 + normV);
+         outvec[4] = 2.0*invec[3] / (1.0 + normV);
+         outvec[5] = (1.0 - normV) / (1.0 + normV);
 		}
          break;
 
-- 
2.43.0


From a6abdb54fc3f6d76ab1f39722c738347fc3754bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 013/162] fix: averaging conversion to a scalar output
 accumulated onto the previous content of the destination

---
 sources/core/params.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/core/params.h b/sources/core/params.h
index a89fb93..f48ed3e 100644
--- a/sources/core/params.h
+++ b/sources/core/params.h
@@ -229,6 +229,7 @@ class params
           // input vector values.
           else if(outdim == 1)
           {
+            outvec[0] = 0.0;
             for(int i=0; i<indim; ++i) 
             { 
                 outvec[0] += invec[i]; 
-- 
2.43.0


From da4db317428fdb9d910e287082238126c2c9425d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 014/162] fix: conversions from Cartesian gave NaN angles when
 a cosine exceeded one by rounding

---
 sources/core/params.cpp | 52 +++++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 66d0cc5..aafc0a4 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -443,6 +443,12 @@ static bool alongside_z(const Vector& vec)
 }
 
 
+// Arc cosine of X, whose magnitude may exceed one by rounding.
+static double safe_acos(double x)
+{
+    return acos(clamp(x, -1.0, 1.0));
+}
+
 void params::from_cartesian(const double* invec, params::input outtype,
 		double* outvec)
 {
@@ -486,12 +492,12 @@ void params::from_cartesian(const double* invec, params::input outtype,
 			outvec[1] = half[0]*invec[0] + half[1]*invec[1] + half[2]*invec[2];
 			break;
 		case params::RUSIN_TH_TD:
-			outvec[0] = acos(half[2]);
+			outvec[0] = safe_acos(half[2]);
 			outvec[1] = acos(clamp(half[0]*invec[0] + half[1]*invec[1] + half[2]*invec[2], -1.0, 1.0));
 			break;
 		case ISOTROPIC_TV_PROJ_DPHI:
 		{
-			const double theta = acos(invec[2]);
+			const double theta = safe_acos(invec[2]);
 			const double dphi  = atan2(invec[1], invec[0]) - atan2(invec[4], invec[3]);
 			outvec[0] = theta * cos(dphi);
 			outvec[1] = theta * sin(dphi);
@@ -527,12 +533,12 @@ void params::from_cartesian(const double* invec, params::input outtype,
 
 			// 3D Parametrization
 		case params::RUSIN_TH_PH_TD:
-			outvec[0] = acos(half[2]);
+			outvec[0] = safe_acos(half[2]);
 			outvec[1] = atan2(half[1], half[0]);
-			outvec[2] = acos(half[0]*invec[0] + half[1]*invec[1] + half[2]*invec[2]);
+			outvec[2] = safe_acos(half[0]*invec[0] + half[1]*invec[1] + half[2]*invec[2]);
 			break;
 		case params::RUSIN_TH_TD_PD:
-			outvec[0] = acos(half[2]);
+			outvec[0] = safe_acos(half[2]);
 
 			// Compute the diff vector
 			diff[0] = invec[0];
@@ -550,7 +556,7 @@ void params::from_cartesian(const double* invec, params::input outtype,
       //     view[2] = invec[2];
       //     outvec[1] = acos(clamp(half.dot(view),0.,1.));
       // }
-      outvec[1] = acos(diff[2]);
+      outvec[1] = safe_acos(diff[2]);
 
       // By convention, when DIFF is alongside z⃗, return φd = 0.
       if (alongside_z(diff))
@@ -560,8 +566,8 @@ void params::from_cartesian(const double* invec, params::input outtype,
 
 			break;
 		case params::ISOTROPIC_TV_TL_DPHI:
-			outvec[0] = acos(invec[2]);
-			outvec[1] = acos(invec[5]);
+			outvec[0] = safe_acos(invec[2]);
+			outvec[1] = safe_acos(invec[5]);
 			outvec[2] = atan2(invec[4], invec[3]) - atan2(invec[1], invec[0]);
 			break;
 		case params::RUSIN_VH:
@@ -592,8 +598,8 @@ void params::from_cartesian(const double* invec, params::input outtype,
 			break;
 		case ISOTROPIC_TL_TV_PROJ_DPHI:
 		{
-			const double theta_l = acos(invec[5]);
-			const double theta_v = acos(invec[2]);
+			const double theta_l = safe_acos(invec[5]);
+			const double theta_v = safe_acos(invec[2]);
 			const double dphi    = atan2(invec[1], invec[0]) - atan2(invec[4], invec[3]);
 			outvec[0] = theta_l;
 			outvec[1] = theta_v * cos(dphi);
@@ -605,9 +611,9 @@ void params::from_cartesian(const double* invec, params::input outtype,
 			const double cos_v  = invec[2];
 			const double cos_l  = invec[5];
 			const double cos_vl = invec[0]*invec[3] + invec[1]*invec[4] + invec[2]*invec[5];
-			const double sin_l  = sqrt(1.0 - cos_l * cos_l);
-			const double sin_v  = sqrt(1.0 - cos_v * cos_v);
-			const double sin_vl = sqrt(1.0 - cos_vl* cos_vl);
+			const double sin_l  = sqrt(std::max(0.0, 1.0 - cos_l * cos_l));
+			const double sin_v  = sqrt(std::max(0.0, 1.0 - cos_v * cos_v));
+			const double sin_vl = sqrt(std::max(0.0, 1.0 - cos_vl* cos_vl));
 
 			// Sine of the \Delta_{\phi} angle
 			const double sin_dp = sin(atan2(invec[1], invec[0]) - atan2(invec[4], invec[3]));
@@ -619,16 +625,16 @@ void params::from_cartesian(const double* invec, params::input outtype,
 				const double cos_phi = (cos_v - cos_l*cos_vl) / (sin_l * sin_vl);
 				const double sin_phi = (sin_dp * sin_v) / sin_vl;
 
-				const double theta = acos(cos_vl);
+				const double theta = safe_acos(cos_vl);
 
-				outvec[0] = acos(cos_l);
+				outvec[0] = safe_acos(cos_l);
 				outvec[1] = theta * cos_phi;
 				outvec[2] = theta * sin_phi;
 			}
 			else
 			{
-				outvec[0] = acos(cos_l);
-				outvec[1] = acos(cos_v) - acos(cos_l);
+				outvec[0] = safe_acos(cos_l);
+				outvec[1] = safe_acos(cos_v) - safe_acos(cos_l);
 				outvec[2] = 0.0;
 			}
 		}
@@ -639,9 +645,9 @@ void params::from_cartesian(const double* invec, params::input outtype,
 			const double vky     = invec[1]-invec[4];
 			const double vkz     = invec[2]+invec[5];
 			const double norm    = sqrt(vkx*vkx + vky*vky + vkz*vkz);
-			const double theta_k = acos(vkz / norm);
+			const double theta_k = safe_acos(vkz / norm);
 			const double dphi    = atan2(vky/norm, vkx/norm) - atan2(invec[4], invec[3]);
-			outvec[0] = acos(invec[5]);
+			outvec[0] = safe_acos(invec[5]);
 			outvec[1] = theta_k * cos(dphi);
 			outvec[2] = theta_k * sin(dphi);
 		}
@@ -677,7 +683,7 @@ void params::from_cartesian(const double* invec, params::input outtype,
 
 			// 4D Parametrization
 		case params::RUSIN_TH_PH_TD_PD:
-			outvec[0] = acos(half[2]);
+			outvec[0] = safe_acos(half[2]);
 			outvec[1] = atan2(half[1], half[0]);
 
 			// Compute the diff vector
@@ -694,15 +700,15 @@ void params::from_cartesian(const double* invec, params::input outtype,
       }
       else
       {
-          outvec[2] = acos(diff[2]);
+          outvec[2] = safe_acos(diff[2]);
           outvec[3] = atan2(diff[1], diff[0]);
       }
 			break;
 
 		case params::SPHERICAL_TL_PL_TV_PV:
-			outvec[0] = acos(invec[5]);
+			outvec[0] = safe_acos(invec[5]);
 			outvec[1] = atan2(invec[4], invec[3]);
-			outvec[2] = acos(invec[2]);
+			outvec[2] = safe_acos(invec[2]);
 			outvec[3] = atan2(invec[1], invec[0]);
 #ifdef DEBUG
 			std::cout << invec[2] << " - acos -> " << outvec[0] << std::endl;
-- 
2.43.0


From e9570773d66690f3ae8aaaf0a85ecb6000ddebe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 015/162] fix: RUSIN_TH_PH_TD had no name nor dimension

---
 sources/core/params.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index aafc0a4..4c9ea6c 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -42,6 +42,7 @@ std::map<params::input, const param_info> create_map()
 	_map.insert(std::make_pair<params::input, const param_info>(params::NEUMANN_2D, param_info("NEUMANN_2D", 2, "Neumann parametrization H, B but without third component.")));
 
 	/* 3D Params */
+	_map.insert(std::make_pair<params::input, const param_info>(params::RUSIN_TH_PH_TD, param_info("RUSIN_TH_PH_TD", 3, "Half angle parametrization without the azimuth of the difference vector")));
 	_map.insert(std::make_pair<params::input, const param_info>(params::RUSIN_TH_TD_PD, param_info("RUSIN_TH_TD_PD", 3, "Isotropic Half angle parametrization")));
 	_map.insert(std::make_pair<params::input, const param_info>(params::ISOTROPIC_TV_TL_DPHI, param_info("ISOTROPIC_TV_TL_DPHI", 3, "Isotropic Light/View angle parametrization")));
 	_map.insert(std::make_pair<params::input, const param_info>(params::RUSIN_VH, param_info("RUSIN_VH", 3, "Vector representation of the Half angle only")));
-- 
2.43.0


From 4d3d7467aeb2ac25720a93e658190ade522fdb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:49 +0000
Subject: [PATCH 016/162] fix: NEUMANN coordinates of grazing directions
 converted to NaN

---
 sources/core/params.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 4c9ea6c..e10e55b 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -183,10 +183,10 @@ void params::to_cartesian(const double* invec, params::input intype,
 		{
 			outvec[0] =   invec[0];
 			outvec[1] =   invec[1];
-			outvec[2] =   sqrt(1.0 - outvec[0]*outvec[0] - outvec[1]*outvec[1]);
+			outvec[2] =   sqrt(std::max(0.0, 1.0 - outvec[0]*outvec[0] - outvec[1]*outvec[1]));
 			outvec[3] =   invec[0];
 			outvec[4] = - invec[1];
-			outvec[5] =   sqrt(1.0 - outvec[3]*outvec[3] - outvec[4]*outvec[4]);
+			outvec[5] =   sqrt(std::max(0.0, 1.0 - outvec[3]*outvec[3] - outvec[4]*outvec[4]));
 		}
 		break;
 
@@ -354,8 +354,8 @@ void params::to_cartesian(const double* invec, params::input intype,
 			}
 
 			// Project the vectorx on the hemisphere.
-			outvec[2] =   sqrt(1.0 - outvec[0]*outvec[0] - outvec[1]*outvec[1]);
-			outvec[5] =   sqrt(1.0 - outvec[3]*outvec[3] - outvec[4]*outvec[4]);
+			outvec[2] =   sqrt(std::max(0.0, 1.0 - outvec[0]*outvec[0] - outvec[1]*outvec[1]));
+			outvec[5] =   sqrt(std::max(0.0, 1.0 - outvec[3]*outvec[3] - outvec[4]*outvec[4]));
 		}
 			break;
 
-- 
2.43.0


From c26084633ef7b807a6362aa16c7e9ddd9ecd6dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:49 +0000
Subject: [PATCH 017/162] fix: half vector along the normal tripped an
 assertion by rounding

---
 sources/core/params.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index e10e55b..558d6e8 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -420,6 +420,8 @@ static void half_vector(Real const *invec, Vector &half)
     }
     else {
         half /= sqrt(sqnorm);
+        // Normalising may overshoot by rounding.
+        half[2] = std::min(half[2], Real(1));
     }
 
     assert(half[2] <= 1.);
-- 
2.43.0


From e9e3b973fb11c8b30d42938bfa110f49b1c2fbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 018/162] fix: cosine coordinates exceeding one by rounding
 converted to NaN directions

---
 sources/core/params.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 558d6e8..e676e9a 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -91,6 +91,12 @@ static std::map<params::output, std::string> create_output_map()
 static const std::map<params::output, std::string> output_map =
 		create_output_map();
 
+// Arc cosine of X, whose magnitude may exceed one by rounding.
+static double safe_acos(double x)
+{
+    return acos(clamp(x, -1.0, 1.0));
+}
+
 void params::to_cartesian(const double* invec, params::input intype,
 		double* outvec)
 {
@@ -102,7 +108,7 @@ void params::to_cartesian(const double* invec, params::input intype,
 	{
 		// 1D Parametrizations
 		case params::COS_TH:
-			half_to_cartesian(acos(invec[0]), 0.0, 0.0, 0.0, outvec);
+			half_to_cartesian(safe_acos(invec[0]), 0.0, 0.0, 0.0, outvec);
 			break;
 		case params::COS_TK:
 			outvec[3] = sqrt(std::max(0.0, 1.0-invec[0]*invec[0]));
@@ -113,7 +119,7 @@ void params::to_cartesian(const double* invec, params::input intype,
 			outvec[5] = invec[0];
 			break;
 		case params::COS_TLV:
-			outvec[0] = sqrt(1.0 - invec[0]*invec[0]);
+			outvec[0] = sqrt(std::max(0.0, 1.0 - invec[0]*invec[0]));
 			outvec[1] = 0.0;
 			outvec[2] = invec[0];
 			outvec[3] = 0.0;
@@ -121,7 +127,7 @@ void params::to_cartesian(const double* invec, params::input intype,
 			outvec[5] = 1.0;
 			break;
 		case params::COS_TLR:
-			outvec[0] = - sqrt(1.0 - invec[0]*invec[0]);
+			outvec[0] = - sqrt(std::max(0.0, 1.0 - invec[0]*invec[0]));
 			outvec[1] = 0.0;
 			outvec[2] = invec[0];
 			outvec[3] = 0.0;
@@ -131,7 +137,7 @@ void params::to_cartesian(const double* invec, params::input intype,
 
 			// 2D Parametrizations
 		case params::COS_TH_TD:
-			half_to_cartesian(acos(invec[0]), 0.0, acos(invec[1]), 0.0, outvec);
+			half_to_cartesian(safe_acos(invec[0]), 0.0, safe_acos(invec[1]), 0.0, outvec);
 			break;
 		case params::RUSIN_TH_TD:
          half_to_cartesian(invec[0], 0.0, invec[1], 0.5*M_PI, outvec);
@@ -205,7 +211,7 @@ void params::to_cartesian(const double* invec, params::input intype,
 			classical_to_cartesian(invec[0], 0.0, invec[1], invec[2], outvec);
 			break;
 		case params::RUSIN_VH:
-            half_to_cartesian(acos(invec[2]), atan2(invec[1], invec[0]), 0.0, 0.0, outvec);
+            half_to_cartesian(safe_acos(invec[2]), atan2(invec[1], invec[0]), 0.0, 0.0, outvec);
 			break;
       case params::SCHLICK_VK:
             outvec[0] = -invec[0];
@@ -446,12 +452,6 @@ static bool alongside_z(const Vector& vec)
 }
 
 
-// Arc cosine of X, whose magnitude may exceed one by rounding.
-static double safe_acos(double x)
-{
-    return acos(clamp(x, -1.0, 1.0));
-}
-
 void params::from_cartesian(const double* invec, params::input outtype,
 		double* outvec)
 {
-- 
2.43.0


From 6321b0f21a13bbd46572a4488a7fae46919f67fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 019/162] fix: back angle coordinates of coincident grazing
 directions were NaN

---
 sources/core/params.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index e676e9a..7a6f5b7 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -479,7 +479,8 @@ void params::from_cartesian(const double* invec, params::input outtype,
 			const double Kx = invec[0]-invec[3];
 			const double Ky = invec[1]-invec[4];
 			const double Kz = invec[2]+invec[5];
-			outvec[0] = (invec[2] + invec[5]) / sqrt(Kx*Kx + Ky*Ky + Kz*Kz);
+			const double norm = sqrt(Kx*Kx + Ky*Ky + Kz*Kz);
+			outvec[0] = (norm > 0.0) ? Kz / norm : 1.0;
 		}
 			break;
 		case params::COS_TLV:
@@ -648,8 +649,8 @@ void params::from_cartesian(const double* invec, params::input outtype,
 			const double vky     = invec[1]-invec[4];
 			const double vkz     = invec[2]+invec[5];
 			const double norm    = sqrt(vkx*vkx + vky*vky + vkz*vkz);
-			const double theta_k = safe_acos(vkz / norm);
-			const double dphi    = atan2(vky/norm, vkx/norm) - atan2(invec[4], invec[3]);
+			const double theta_k = (norm > 0.0) ? safe_acos(vkz / norm) : 0.0;
+			const double dphi    = atan2(vky, vkx) - atan2(invec[4], invec[3]);
 			outvec[0] = safe_acos(invec[5]);
 			outvec[1] = theta_k * cos(dphi);
 			outvec[2] = theta_k * sin(dphi);
-- 
2.43.0


From b97d04b4328fcef3f6e231454999a87e88720fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 020/162] fix: NEUMANN_2D and STARK_3D coordinates outside
 their domain gave NaN, not an invalid configuration

---
 sources/core/params.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 7a6f5b7..0b5e28f 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -189,6 +189,18 @@ void params::to_cartesian(const double* invec, params::input intype,
 		{
 			outvec[0] =   invec[0];
 			outvec[1] =   invec[1];
+			// The two projections have the same length. When they are not under
+			// unit length return an invalid configuration
+			if(outvec[0]*outvec[0] + invec[1]*invec[1] > 1.0)
+			{
+				outvec[0] =  0.0;
+				outvec[1] =  0.0;
+				outvec[2] = -1.0;
+				outvec[3] =  0.0;
+				outvec[4] =  0.0;
+				outvec[5] = -1.0;
+				break;
+			}
 			outvec[2] =   sqrt(std::max(0.0, 1.0 - outvec[0]*outvec[0] - outvec[1]*outvec[1]));
 			outvec[3] =   invec[0];
 			outvec[4] = - invec[1];
@@ -306,7 +318,8 @@ void params::to_cartesian(const double* invec, params::input intype,
 			// Constructing the Half vector
 			const double Hx = invec[0];
 			const double Hy = 0;
-			const double Hz = sqrt(1.0 - invec[0]*invec[0] - invec[1]*invec[1]);
+			const double sum = invec[0]*invec[0] + invec[1]*invec[1];
+			const double Hz = (sum <= 1.0) ? sqrt(1.0 - sum) : -1.0;
 
 			// Constructing the Back vector using azimuth and elevation angles
 			const double cosPhi = cos(invec[2]);
-- 
2.43.0


From 7bc6e29e12acbbfb332822135432a7f5bdffed2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:13 +0000
Subject: [PATCH 021/162] fix: negative values on the command line were dropped

---
 sources/core/args.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sources/core/args.h b/sources/core/args.h
index 573efec..06171c7 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -66,7 +66,10 @@ class arguments
             if(++i < argc)
             {
                 std::string next(argv[i]) ;
-                if(next[0] == '-')
+                // An option starts with '-', but so does a negative number.
+                const bool is_number = next.size() > 1 && next[0] == '-'
+                                    && (isdigit((unsigned char)next[1]) || next[1] == '.');
+                if(next[0] == '-' && !is_number)
                 {
                     --i;
                 }
-- 
2.43.0


From d9d670899ed1a0bb52d2806c9de917d16c1b602a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:13 +0000
Subject: [PATCH 022/162] fix: header parsing went on past '#ALTA HEADER END'
 and reported 'HEADER' as the type

---
 sources/core/args.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/sources/core/args.h b/sources/core/args.h
index 06171c7..231eab4 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -493,14 +493,14 @@ class arguments
 							if (key == "ALTA") {
 								std::string first, second;
 								linestream >> first >> second;
-								if (second == "HEADER")	{
-
-									// Add the header type
-									if (first != "END") {
-										args.update("TYPE", second);
-									} else {
-										break;
-									}
+								if ((first == "END" && second == "HEADER") ||
+								    (first == "HEADER" && second == "END")) {
+									break;
+								}
+
+								// Add the header type
+								if (second == "HEADER") {
+									args.update("TYPE", first);
 								}
 
                     // Store the line into the argument
-- 
2.43.0


From 673e6edff7fdcbbdbcebafa0ea65cc75af145109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:13 +0000
Subject: [PATCH 023/162] fix: empty argument inside a bracketed option was
 read out of bounds

---
 sources/core/args.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/args.h b/sources/core/args.h
index 231eab4..b845e09 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -78,7 +78,7 @@ class arguments
                     data.append(next);
 
                     ++i;
-                    while(i < argc && next[next.size()-1] != ']')
+                    while(i < argc && (next.empty() || next[next.size()-1] != ']'))
                     {
                         next = argv[i] ;
                         data.append(" ");
-- 
2.43.0


From dc421c275495d1b25485bf0549ddcbc5aaa9b7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 024/162] fix: text files without valid dimensions terminated
 the program instead of failing to load

---
 sources/core/data_storage.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index 21f21bb..b313aa6 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -17,6 +17,7 @@
 #include <limits>
 #include <iomanip>
 #include <cassert>
+#include <ios>
 
 #ifdef __GLIBC__
 # include <endian.h>
@@ -164,14 +165,18 @@ alta::data* alta::load_data_from_text(std::istream& input,
   if(! header.is_defined("DIM")) {
     std::cerr << "<<ERROR>> Undefined dimensions ! ";
     std::cerr << "Please add DIM [int] [int] into the file header." << std::endl;
-    throw;
+    throw std::ios_base::failure("undefined dimensions");
   }
 
   params::input  in_param  = params::parse_input(header.get_string("PARAM_IN", "UNKNOWN_INPUT"));
   params::output out_param = params::parse_output(header.get_string("PARAM_OUT", "UNKNOWN_OUTPUT"));
 
   std::pair<int, int> dim = header.get_pair<int>("DIM");
-  size_t row_count = dim.first + 3 * dim.second;
+  if (dim.first <= 0 || dim.second <= 0) {
+    std::cerr << "<<ERROR>> Invalid dimensions: " << header["DIM"] << std::endl;
+    throw std::ios_base::failure("invalid dimensions");
+  }
+  size_t row_count = size_t(dim.first) + 3 * size_t(dim.second);
 
   min = args.get_vec("min", dim.first, -std::numeric_limits<float>::infinity()) ;
   max = args.get_vec("max", dim.first,  std::numeric_limits<float>::infinity()) ;
-- 
2.43.0


From 7a62edf5658b19b0099d32dded2d93c67abbda7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 025/162] fix: blank lines of text files holding white space
 were loaded as rows of zeros

---
 sources/core/data_storage.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index b313aa6..9431455 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -203,7 +203,8 @@ alta::data* alta::load_data_from_text(std::istream& input,
     std::stringstream linestream(line) ;
 
     // Discard comments and empty lines.
-    if(line.empty() || linestream.peek() == '#')
+    if(line.find_first_not_of(" \t\r\v\f") == std::string::npos
+       || linestream.peek() == '#')
     {
       continue ;
     }
-- 
2.43.0


From 52e9452cc91210851958359ab9d0705571ca4581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 026/162] fix: malformed rows of text files were silently
 completed with zeros

---
 sources/core/data_storage.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index 9431455..5b795ca 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -216,7 +216,10 @@ alta::data* alta::load_data_from_text(std::istream& input,
       for(int i=0; i < dim.first + dim.second; ++i)
       {
           double item;
-          linestream >> item;
+          if (!(linestream >> item)) {
+              std::cerr << "<<ERROR>> malformed row: \"" << line << "\"" << std::endl;
+              throw std::ios_base::failure("malformed row");
+          }
           content.push_back(item);
       }
 
-- 
2.43.0


From aff377719aa6d5c8ebcd47f310dc455cbefab059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 027/162] fix: malformed binary headers aborted the program or
 overflowed the row storage

---
 sources/core/data_storage.cpp | 36 ++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index 5b795ca..849c778 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -362,17 +362,23 @@ alta::data* alta::load_data_from_binary(std::istream& in, const alta::arguments&
     using namespace alta;
 
     // FIXME: For now we make a number of assumptions.
-    assert(header["FORMAT"] == "binary");
-    assert(header.get_int("VERSION") == 0);
-    assert(header["PRECISION"] == "ieee754-double");
 #if __BYTE_ORDER == __LITTLE_ENDIAN
-    assert(header["ENDIAN"] == "little");
+    const std::string endianness = "little";
 #else
-    assert(header["ENDIAN"] == "big");
+    const std::string endianness = "big";
 #endif
 
     std::pair<int, int> dim = header.get_pair<int>("DIM");
-    assert(dim.first > 0 && dim.second > 0);
+
+    if (header["FORMAT"] != "binary"
+        || header.get_int("VERSION") != 0
+        || header["PRECISION"] != "ieee754-double"
+        || header["ENDIAN"] != endianness
+        || dim.first <= 0 || dim.second <= 0)
+    {
+        std::cerr << "<<ERROR>> unsupported binary file header" << std::endl;
+        throw std::ios_base::failure("unsupported binary file header");
+    }
 
     auto kind = ci_kind_from_number(header.get_int("VS"));
 
@@ -382,15 +388,22 @@ alta::data* alta::load_data_from_binary(std::istream& in, const alta::arguments&
       if(sample_count <= 0) {
          std::cerr << "<<ERROR>> Uncorrect or not samples count in the header, please check \'SAMPLE_COUNT\'" << std::endl;
       }
+      if(sample_count < 0 || !header.is_defined("SAMPLE_COUNT")) {
+         throw std::ios_base::failure("invalid sample count");
+      }
 
       size_t ci_rows =
           kind == vertical_segment::ASYMMETRICAL_CONFIDENCE_INTERVAL
           ? 2 : (kind == vertical_segment::SYMMETRICAL_CONFIDENCE_INTERVAL
                  ? 1 : 0);
 
-      size_t rows = dim.first + dim.second + ci_rows * dim.second;
+      size_t rows = size_t(dim.first) + dim.second + ci_rows * dim.second;
       size_t element_count = sample_count * rows;
-      double *content = new double[element_count];
+      if(sample_count > 0
+         && rows > std::numeric_limits<std::ptrdiff_t>::max() / sizeof(double) / sample_count) {
+         throw std::ios_base::failure("too many samples");
+      }
+      std::shared_ptr<double> content(new double[element_count], delete_array);
       size_t byte_count = element_count * sizeof *content;
 
       // TODO: Arrange to use mmap and make it zero-alloc and zero-copy.
@@ -398,15 +411,12 @@ alta::data* alta::load_data_from_binary(std::istream& in, const alta::arguments&
            total < byte_count && !in.eof();
            total += in.gcount())
       {
-          in.read((char *) content + total, byte_count - total);
+          in.read((char *) content.get() + total, byte_count - total);
       }
 
     parameters param(dim.first, dim.second,
                      params::parse_input(header["PARAM_IN"]),
                      params::parse_output(header["PARAM_OUT"]));
 
-    return new alta::vertical_segment(param, sample_count,
-                                      std::shared_ptr<double>(content,
-                                                              delete_array),
-                                      kind);
+    return new alta::vertical_segment(param, sample_count, content, kind);
 }
-- 
2.43.0


From c9f0369334410aa21e59fcef78de1dcbaa049c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 028/162] fix: loading a function file whose function cannot be
 built dereferenced NULL

---
 sources/core/plugins_manager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sources/core/plugins_manager.cpp b/sources/core/plugins_manager.cpp
index b1c6ba4..97da07f 100644
--- a/sources/core/plugins_manager.cpp
+++ b/sources/core/plugins_manager.cpp
@@ -221,11 +221,13 @@ function* plugins_manager::load_function(const std::string& filename)
   function* f = get_function(args, params);
 
   // Load the function part from the file object
-  if( f->load(file) )
+  if( f != NULL && f->load(file) )
   {
     return f;
   }
 
+  delete f;
+
   std::cout << "<<ERROR>> COULD NOT LOAD THE BRDF from File " << filename << std::endl;
    return NULL;
 }
-- 
2.43.0


From fa962071ace67b15d948c385263d1a5b35a1fa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 029/162] fix: a compound with an element that is not a
 nonlinear function dereferenced NULL

---
 sources/core/plugins_manager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/core/plugins_manager.cpp b/sources/core/plugins_manager.cpp
index 97da07f..731a965 100644
--- a/sources/core/plugins_manager.cpp
+++ b/sources/core/plugins_manager.cpp
@@ -291,6 +291,8 @@ function* plugins_manager::get_function(const arguments& args,
       if(nl_f == NULL)
       {
           std::cerr << "<<ERROR>> only non-linear functions are compatible with a compound" << std::endl;
+          delete f;
+          return NULL;
       }
       else
       {
-- 
2.43.0


From 41ccc9d85c859c1e5ee5f1d8b7cbc534b719107b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 030/162] fix: initialising from a file without header looped
 forever

---
 sources/core/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index 1534a1e..a79131b 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -574,7 +574,7 @@ void compound_function::bootstrap(const ::ptr<data> d, const arguments& args)
 				{
 					std::getline(file, line) ;
 				}
-				while(line != "#ALTA HEADER END");
+				while(file.good() && line != "#ALTA HEADER END");
 
 				// Load the file
 				// For each individual element, the input file is parsed
@@ -972,7 +972,7 @@ void product_function::bootstrap(const ptr<data> d, const arguments& args)
 				{
 					std::getline(file, line) ;
 				}
-				while(line != "#ALTA HEADER END");
+				while(file.good() && line != "#ALTA HEADER END");
 
 				std::streampos pos = file.tellg();
 
-- 
2.43.0


From daaa2c991855db036988f39b172d67b17be6fc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 031/162] fix: Jacobian of the Beckmann lobes with respect to
 the roughness was not the derivative of the value

---
 sources/plugins/nonlinear_function_beckmann/function.cpp      | 2 +-
 sources/plugins/nonlinear_function_retrobeckmann/function.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_beckmann/function.cpp b/sources/plugins/nonlinear_function_beckmann/function.cpp
index 0851ea8..e08e9f0 100644
--- a/sources/plugins/nonlinear_function_beckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_beckmann/function.cpp
@@ -163,7 +163,7 @@ vec beckmann_function::parametersJacobian(const vec& x) const
 				 jac[i*nbParameters() + j*2+0] = /*g[i] */ expo / fac;
 
 				 // df / da_x
-				 jac[i*nbParameters() + j*2+1] = -/* g[i] */ _ks[i] * (expo/(4.0/*x[2]*x[5]*/)) * ((2* a * h[2])/(M_PI*a2*a2*dh2)) * (1 + (dh2 - 1.0)*h[2]/(a2*dh2*h[2]));
+				 jac[i*nbParameters() + j*2+1] = -/* g[i] */ _ks[i] * (expo / fac) * (2.0 / a) * (1.0 + (dh2 - 1.0) / (a2*dh2));
 			 }
 			 else
 			 {
diff --git a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
index 3498d86..0fff153 100644
--- a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
@@ -152,7 +152,7 @@ vec beckmann_function::parametersJacobian(const vec& x) const
 				 jac[i*nbParameters() + j*2+0] = expo / fac;
 
 				 // df / da_x
-				 jac[i*nbParameters() + j*2+1] = - _ks[i] * (expo/(4.0/*x[2]*x[5]*/)) * ((2* a * dot)/(M_PI*a2*a2*dh2)) * (1 + (dh2 - 1.0)*dot/(a2*dh2*dot));
+				 jac[i*nbParameters() + j*2+1] = - _ks[i] * (expo / fac) * (2.0 / a) * (1.0 + (dh2 - 1.0) / (a2*dh2));
 			 }
 			 else
 			 {
-- 
2.43.0


From ecd58ee8b70ba5600fc4f2ac3d34acad52bdd9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 032/162] fix: retro Beckmann lobe used L.z instead of L.y in
 the light/view cosine

---
 sources/plugins/nonlinear_function_retrobeckmann/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
index 0fff153..329690e 100644
--- a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
@@ -53,7 +53,7 @@ vec beckmann_function::value(const vec& x) const
 	}
 	else
 	{
-		dot = std::max(x[0]*x[3] +  x[2]*x[4] +  x[2]*x[5], 0.0);
+		dot = std::max(x[0]*x[3] +  x[1]*x[4] +  x[2]*x[5], 0.0);
 	}
 
 	vec res = vec::Zero(_parameters.dimY());
@@ -132,7 +132,7 @@ vec beckmann_function::parametersJacobian(const vec& x) const
 	}
 	else
 	{
-		dot = std::max(x[0]*x[3] +  x[2]*x[4] +  x[2]*x[5], 0.0);
+		dot = std::max(x[0]*x[3] +  x[1]*x[4] +  x[2]*x[5], 0.0);
 	}
 
     vec jac(_parameters.dimY()*nbParameters());
-- 
2.43.0


From c42bba05a658a7a82b6f10cc1a064f5898297e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 033/162] fix: lobe type of the retro Beckmann function was
 inverted when loaded

---
 sources/plugins/nonlinear_function_retrobeckmann/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
index 329690e..ee83e07 100644
--- a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
@@ -225,7 +225,7 @@ bool beckmann_function::load(std::istream& in)
 	}
 
 	in >> token;
-	if(token.compare("RETRO") != 0) 
+	if(token.compare("RETRO") == 0) 
 	{ 
 		_use_back_param = false;
 	}
-- 
2.43.0


From b1225ed2a6e01d74ce79059a735b36ab595970db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 034/162] fix: Jacobian of the Ward lobe with respect to the
 roughness was not the derivative of the value

---
 sources/plugins/nonlinear_function_ward/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_ward/function.cpp b/sources/plugins/nonlinear_function_ward/function.cpp
index 7fe5e1c..57065fa 100644
--- a/sources/plugins/nonlinear_function_ward/function.cpp
+++ b/sources/plugins/nonlinear_function_ward/function.cpp
@@ -143,10 +143,10 @@ vec ward_function::parametersJacobian(const vec& x) const
 				 jac[i*nbParameters() + j*3+0] = fact * gauss;
 
 				 // df / da_x
-                 jac[i*nbParameters() + j*3+1] = _ks[i] * fact * (1.0/ax) * (((2.0*h[0]*hx_ax) / h[2]) * gauss - 1);
+                 jac[i*nbParameters() + j*3+1] = _ks[i] * fact * (1.0/ax) * gauss * ((2.0*hx_ax*hx_ax) / (h[2]*h[2]) - 1.0);
 
 				 // df / da_y
-                 jac[i*nbParameters() + j*3+2] = _ks[i] * fact * (1.0/ay) * (((2.0*h[1]*hy_ay) / h[2]) * gauss - 1);
+                 jac[i*nbParameters() + j*3+2] = _ks[i] * fact * (1.0/ay) * gauss * ((2.0*hy_ay*hy_ay) / (h[2]*h[2]) - 1.0);
 			 }
 			 else
 			 {
-- 
2.43.0


From a0737eb84a59ea12241f1e40751f020a85bef4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 035/162] fix: number of lobes and input parametrization of the
 Lafortune function were left undefined

---
 sources/plugins/nonlinear_function_lafortune/function.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_lafortune/function.cpp b/sources/plugins/nonlinear_function_lafortune/function.cpp
index d5a8033..0333f34 100644
--- a/sources/plugins/nonlinear_function_lafortune/function.cpp
+++ b/sources/plugins/nonlinear_function_lafortune/function.cpp
@@ -29,7 +29,8 @@ ALTA_DLL_EXPORT function* provide_function(const alta::parameters& params)
 }
 
 lafortune_function::lafortune_function(const alta::parameters& params) :
-    nonlinear_function(params)
+    nonlinear_function(params.set_input(6, params::CARTESIAN)),
+    _n(1), _isotropic(false)
 {
     auto nY = params.dimY();
 
-- 
2.43.0


From c2825ed49c496c7ac1a3cdb3e30783f4d92cccfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 036/162] fix: exponents of the second and further Lafortune
 lobes were loaded into the first one

---
 sources/plugins/nonlinear_function_lafortune/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_lafortune/function.cpp b/sources/plugins/nonlinear_function_lafortune/function.cpp
index 0333f34..20c1a39 100644
--- a/sources/plugins/nonlinear_function_lafortune/function.cpp
+++ b/sources/plugins/nonlinear_function_lafortune/function.cpp
@@ -417,7 +417,7 @@ bool lafortune_function::load(std::istream& in)
 			in >> token >> _C[(n*_nY + i)*3 + 0];
             in >> token >> _C[(n*_nY + i)*3 + 1];
 			in >> token >> _C[(n*_nY + i)*3 + 2];
-			in >> token >> _N[i];
+			in >> token >> _N[n*_nY + i];
 		}
 
 	}
-- 
2.43.0


From 2234d8c7b6c720c74215a9b3d8c933a9e46bfcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 037/162] fix: diffuse term of the Lafortune function was lost
 when saved

---
 .../nonlinear_function_lafortune/function.cpp     | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/sources/plugins/nonlinear_function_lafortune/function.cpp b/sources/plugins/nonlinear_function_lafortune/function.cpp
index 20c1a39..5fb5bf6 100644
--- a/sources/plugins/nonlinear_function_lafortune/function.cpp
+++ b/sources/plugins/nonlinear_function_lafortune/function.cpp
@@ -422,6 +422,14 @@ bool lafortune_function::load(std::istream& in)
 
 	}
 	
+	// Diffuse term, absent from older files
+	in >> std::ws;
+	for(int i=0; i<_nY; ++i)
+	{
+		if(in.peek() != 'K') { break; }
+		in >> token >> _kd[i] >> std::ws;
+	}
+
 	std::cout << "<<INFO>> Cd = " << _C << std::endl;
 	std::cout << "<<INFO>> N = " << _N << std::endl;
     return true;
@@ -452,6 +460,13 @@ void lafortune_function::save_call(std::ostream& out, const arguments& args) con
 
             out << std::endl;
         }
+
+        // Diffuse term, set by the bootstrap
+        for(int i=0; i<_nY; ++i)
+        {
+            out << "Kd " << _kd[i] << std::endl;
+        }
+        out << std::endl;
     }
     else
     {
-- 
2.43.0


From 8bea55b9a007d4a525471cd9f550bb3cf426877b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 038/162] fix: retro spherical Gaussian lobe was evaluated as a
 mirror lobe

---
 .../nonlinear_function_spherical_gaussian/function.cpp        | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
index f486e3d..28c2ad8 100644
--- a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
+++ b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
@@ -76,6 +76,10 @@ double spherical_gaussian_function::compute_dot(const vec& x) const
 		params::convert(&spherical[0], params::SPHERICAL_TL_PL_TV_PV, params::CARTESIAN, &cart[0]);
 		dot = cart[0]*cart[3] + cart[1]*cart[4] + cart[2]*cart[5];
 	}
+	else if(_type == Retro)
+	{
+		dot = x[0]*x[3] + x[1]*x[4] + x[2]*x[5];
+	}
 	else
 	{
 		double spherical[4];
-- 
2.43.0


From 580852a4a9db7d168966cd66326726940f246873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 039/162] fix: Jacobian of the moment spherical Gaussian lobe
 was not the derivative of the value

---
 .../nonlinear_function_spherical_gaussian/function.cpp    | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
index 28c2ad8..42f91f6 100644
--- a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
+++ b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
@@ -212,12 +212,14 @@ vec spherical_gaussian_function::parametersJacobian(const vec& x) const
 			 // df / da
 			 double spherical[4];
 			 params::convert(&x[0], params::CARTESIAN, params::SPHERICAL_TL_PL_TV_PV, &spherical[0]);
-			 spherical[1] += 0.5* M_PI;
+			 const double phi = spherical[1];
+			 spherical[1] *= _a;
+			 spherical[1] += 1.5* M_PI;
 
 			 double cart[6];
 			 params::convert(&spherical[0], params::SPHERICAL_TL_PL_TV_PV, params::CARTESIAN, &cart[0]);
-			 double dot2 = cart[0]*cart[3] + cart[1]*cart[4] + cart[2]*cart[5];
-			 jac[i*nbParameters() + nbParameters()-1] = _ks[i] * _n[i] * exp(_n[i] * (dot - 1)) * _a * dot2;
+			 double dot2 = cart[0]*cart[3] + cart[1]*cart[4];
+			 jac[i*nbParameters() + nbParameters()-1] = _ks[i] * _n[i] * exp(_n[i] * (dot - 1)) * phi * dot2;
 
 		 }
 	 }
-- 
2.43.0


From d8c72809725b0da3889646645fd87ece31f4ace7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 040/162] fix: lobe type of the spherical Gaussian function was
 lost when saved

---
 .../function.cpp                              | 76 +++++++++++++------
 .../function.h                                |  4 +
 2 files changed, 57 insertions(+), 23 deletions(-)

diff --git a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
index 42f91f6..8a97d21 100644
--- a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
+++ b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
@@ -227,6 +227,36 @@ vec spherical_gaussian_function::parametersJacobian(const vec& x) const
     return jac;
 }
 		
+bool spherical_gaussian_function::parse_type(const std::string& stype)
+{
+	if(stype == "mirror")
+	{
+		_type = Mirror;
+	}
+	else if(stype == "half")
+	{
+		_type = Half;
+	}
+	else if(stype == "back")
+	{
+		_type = Back;
+	}
+	else if(stype == "retro")
+	{
+		_type = Retro;
+	}
+	else if(stype == "moment")
+	{
+		_type = Moment;
+		_a = 1.0;
+	}
+	else
+	{
+		return false;
+	}
+	return true;
+}
+
 void spherical_gaussian_function::bootstrap(const ptr<data> d, const arguments& args)
 {
     for(int i=0; i<_parameters.dimY(); ++i)
@@ -238,28 +268,7 @@ void spherical_gaussian_function::bootstrap(const ptr<data> d, const arguments&
 	// Parse the lobe type
 	if(args.is_defined("sg-type"))
 	{
-		std::string stype = args.get_string("sg-type", "half");
-		if(stype == "mirror")
-		{
-			_type = Mirror;
-		}
-		else if(stype == "half")
-		{
-			_type = Half;
-		}
-		else if(stype == "back")
-		{
-			_type = Back;
-		}
-		else if(stype == "retro")
-		{
-			_type = Retro;
-		}
-		else if(stype == "moment")
-		{
-			_type = Moment;
-			_a = 1.0;
-		}
+		parse_type(args.get_string("sg-type", "half"));
 	}
 }
 
@@ -294,6 +303,24 @@ bool spherical_gaussian_function::load(std::istream& in)
         return false;
 	}
 
+	// Parse the lobe type, absent from older files
+	in >> std::ws;
+	if(in.peek() == '#')
+	{
+		in >> token;
+		if(token.compare("#TYPE") != 0)
+		{
+			std::cerr << "<<ERROR>> parsing the stream. The #TYPE is not the next line defined." << std::endl; 
+			return false;
+		}
+		in >> token;
+		if(!parse_type(token))
+		{
+			std::cerr << "<<ERROR>> unknown lobe type \"" << token << "\"" << std::endl; 
+			return false;
+		}
+	}
+
 	// Parse the lobe
     for(int i=0; i<_parameters.dimY(); ++i)
 	{
@@ -322,6 +349,9 @@ void spherical_gaussian_function::save_call(std::ostream& out, const arguments&
     {
 		out << "#FUNC nonlinear_function_spherical_gaussian" << std::endl ;
 
+		static const char* names[] = {"mirror", "half", "retro", "back", "moment"};
+		out << "#TYPE " << names[_type] << std::endl;
+
          for(int i=0; i<nY; ++i)
 		 {
 			 out << "Ks " << _ks[i] << std::endl;
@@ -330,7 +360,7 @@ void spherical_gaussian_function::save_call(std::ostream& out, const arguments&
 	
 		 if(_type == Moment)
 		 {
-			 out << "a  " << _a;
+			 out << "a  " << _a << std::endl;
 		 }
 
 		 out << std::endl;
diff --git a/sources/plugins/nonlinear_function_spherical_gaussian/function.h b/sources/plugins/nonlinear_function_spherical_gaussian/function.h
index d1bef3a..93d96c5 100644
--- a/sources/plugins/nonlinear_function_spherical_gaussian/function.h
+++ b/sources/plugins/nonlinear_function_spherical_gaussian/function.h
@@ -98,6 +98,10 @@ class spherical_gaussian_function : public nonlinear_function
 		//! different evaluations.
 		double compute_dot(const vec& in) const;
 
+		//! \brief Set the lobe type from its name: 'mirror', 'half', 'back',
+		//! 'retro' or 'moment'. Return false for any other name.
+		bool parse_type(const std::string& stype);
+
 	private: // data
 
 		vec _n, _ks; // Lobes data
-- 
2.43.0


From 60ec0c380ee17bb4cb089c3827a211c74515e239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 041/162] fix: Jacobian of the retro Blinn lobe was not the
 derivative of the value below the horizon

---
 sources/plugins/nonlinear_function_retroblinn/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_retroblinn/function.cpp b/sources/plugins/nonlinear_function_retroblinn/function.cpp
index b140bec..05d4d3e 100644
--- a/sources/plugins/nonlinear_function_retroblinn/function.cpp
+++ b/sources/plugins/nonlinear_function_retroblinn/function.cpp
@@ -138,7 +138,7 @@ vec retroblinn_function::parametersJacobian(const vec& x) const
 			if(i == j)
 			{
 				// df / dk_s
-				jac[i*nbParameters() + j*2+0] = std::pow(x[0], _N[j]);
+				jac[i*nbParameters() + j*2+0] = (x[0] >= 0.0) ? std::pow(x[0], _N[j]) : 0.0;
 
 				// df / dN
                 if(x[0] <= 0.0)
-- 
2.43.0


From cc052c696584150d48d4f12a173eaf04d8fc9766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 042/162] fix: parameters of the normalized Schlick term were
 never allocated

---
 .../plugins/nonlinear_fresnel_normalized_schlick/function.cpp    | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp b/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
index 1adffad..2c1329d 100644
--- a/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
+++ b/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
@@ -29,6 +29,7 @@ ALTA_DLL_EXPORT function* provide_function(const parameters& params)
 schlick::schlick(const alta::parameters& params):
     nonlinear_function(params.set_input(6, params::CARTESIAN))
 {
+    R.resize(_parameters.dimY());
 }
 
 //! Load function specific files
-- 
2.43.0


From fc80a163562118206a1583116a0a22b74f687c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 043/162] fix: Jacobian of the normalized Schlick term was not
 the derivative of the value

---
 .../plugins/nonlinear_fresnel_normalized_schlick/function.cpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp b/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
index 2c1329d..0ed36d5 100644
--- a/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
+++ b/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
@@ -191,7 +191,7 @@ vec schlick::parametersJacobian(const vec& x) const
         for(int j=0; j<nY; ++j)
         {
             if(i == j) {
-                jac[j*_parameters.dimY() + i] = - (1.0/R[i]) * pow(1.0 - clamp(dotVH, 0.0, 1.0), 5.0);
+                jac[j*_parameters.dimY() + i] = - (1.0/(R[i]*R[i])) * pow(1.0 - clamp(dotVH, 0.0, 1.0), 5.0);
             } else {
                 jac[j*_parameters.dimY() + i] = 0.0;
             }
-- 
2.43.0


From 0f4dcefbcaf4e7c159a015ba14f22e7f4cffab4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 044/162] fix: Jacobian of the Smith term was not the
 derivative of the value

---
 sources/plugins/nonlinear_shadowing_smith/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_shadowing_smith/function.cpp b/sources/plugins/nonlinear_shadowing_smith/function.cpp
index 6877bb1..3cb3b40 100644
--- a/sources/plugins/nonlinear_shadowing_smith/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_smith/function.cpp
@@ -234,7 +234,7 @@ vec smith::parametersJacobian(const vec& x) const
 				  const double mu = x[5] / sqrt(x[3]*x[3] + x[4]*x[4]);
 				  const double r = mu / w[i];
 
-				  jac[j*_parameters.dimY() + i] = (-1.0 / pow(1.0 + v[i], 2)) * exp(-0.5 * r*r) * (r*r*r/w[i] - 2.0*r/w[i]) / sqrt(2.0 * M_PI) ;
+				  jac[j*_parameters.dimY() + i] = - v[i]*v[i] * exp(-0.5 * r*r) / (r * w[i] * sqrt(2.0 * M_PI)) ;
 			  }
 			  else 
 			  {
-- 
2.43.0


From 59006e8b209ee844948475dd6483ccaa62663c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 045/162] fix: Yoo function evaluated and listed uninitialised
 values

---
 sources/plugins/nonlinear_function_retroyoo/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_retroyoo/function.cpp b/sources/plugins/nonlinear_function_retroyoo/function.cpp
index 8236e32..8c63ae6 100644
--- a/sources/plugins/nonlinear_function_retroyoo/function.cpp
+++ b/sources/plugins/nonlinear_function_retroyoo/function.cpp
@@ -49,7 +49,7 @@ vec yoo_function::value(const vec& x) const
 	for(int i=0; i<_parameters.dimY(); ++i)
 	{
 		const double q = 2.0 * M_PI * x[0] / 633.0;
-		res[i] *= _kr[i] * factor * (2.4 + 1.0 / (1.0 + q*_lt[i]*_lt[i])) * (1.0 + (1.0 - exp(- 2.0 * q * 0.7 * _lt[i]) / (q*_lt[i])));
+		res[i] = _kr[i] * factor * (2.4 + 1.0 / (1.0 + q*_lt[i]*_lt[i])) * (1.0 + (1.0 - exp(- 2.0 * q * 0.7 * _lt[i]) / (q*_lt[i])));
 	}
 	return res;
 }
@@ -63,7 +63,7 @@ int yoo_function::nbParameters() const
 //! Get the vector of parameters for the function
 vec yoo_function::parameters() const 
 {
-	vec res(3*_parameters.dimY());
+	vec res(2*_parameters.dimY());
 	for(int i=0; i<_parameters.dimY(); ++i)
 	{
 		res[i*2 + 0] = _kr[i];
-- 
2.43.0


From 7232a01e47fdcee58f658dd4fa1c0e37a45d8e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 046/162] fix: saved Yoo functions could not be loaded back

---
 sources/plugins/nonlinear_function_retroyoo/function.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_retroyoo/function.cpp b/sources/plugins/nonlinear_function_retroyoo/function.cpp
index 8c63ae6..b6fa81a 100644
--- a/sources/plugins/nonlinear_function_retroyoo/function.cpp
+++ b/sources/plugins/nonlinear_function_retroyoo/function.cpp
@@ -187,7 +187,6 @@ void yoo_function::save_call(std::ostream& out, const arguments& args) const
 	if(is_alta)
 	{
 		out << "#FUNC nonlinear_function_retroyoo" << std::endl ;
-		out << "#TYPE ";
 
 		for(int i=0; i<_parameters.dimY(); ++i)
 		{
-- 
2.43.0


From ee72059e50c2ae2a7a83eead298b8f2c81749298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 047/162] fix: Jacobian of the ABC lobe was not zero where the
 lobe is cut off

---
 sources/plugins/nonlinear_function_abc/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_abc/function.cpp b/sources/plugins/nonlinear_function_abc/function.cpp
index 62d4dce..c2dee20 100644
--- a/sources/plugins/nonlinear_function_abc/function.cpp
+++ b/sources/plugins/nonlinear_function_abc/function.cpp
@@ -107,7 +107,7 @@ vec abc_function::parametersJacobian(const vec& x) const
 	 {
 		 for(int j=0; j<_parameters.dimY(); ++j)
 		 {
-			 if(i == j)
+			 if(i == j && x[0] >= 0.0 && x[0] <= 1.0)
 			 {
 				 const double hn = 1.0 - x[0];
 				 const double f  = 1.0 + _b[i]*hn;
-- 
2.43.0


From 9d663b9d7196ed6aea20dbf469cf3940f46fc2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 048/162] fix: Jacobian of the Yoo function with respect to the
 mean free path was not computed

---
 .../plugins/nonlinear_function_retroyoo/function.cpp   | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sources/plugins/nonlinear_function_retroyoo/function.cpp b/sources/plugins/nonlinear_function_retroyoo/function.cpp
index b6fa81a..2e3a75f 100644
--- a/sources/plugins/nonlinear_function_retroyoo/function.cpp
+++ b/sources/plugins/nonlinear_function_retroyoo/function.cpp
@@ -97,7 +97,6 @@ void yoo_function::setParameters(const vec& p)
 
 //! Obtain the derivatives of the function with respect to the 
 //! parameters
-//! \todo finish. 
 vec yoo_function::parametersJacobian(const vec& x) const 
 {
 	const double factor = 3.0 / (16.0*M_PI);
@@ -115,8 +114,13 @@ vec yoo_function::parametersJacobian(const vec& x) const
 				jac[i*nbParameters() + j*2+0] = base;
 
 				// df / dl_t
-				// \todo
-				jac[i*nbParameters() + j*2+1] = _kr[i] * base;
+				const double lt = _lt[i];
+				const double e  = exp(- 2.0 * q * 0.7 * lt) / (q*lt);
+				const double A  = 2.4 + 1.0 / (1.0 + q*lt*lt);
+				const double B  = 1.0 + (1.0 - e);
+				const double dA = - 2.0*q*lt / pow(1.0 + q*lt*lt, 2);
+				const double dB = e * (2.0 * q * 0.7 + 1.0 / lt);
+				jac[i*nbParameters() + j*2+1] = _kr[i] * factor * (dA*B + A*dB);
 			}
 			else
 			{
-- 
2.43.0


From 57fcca0c1730ef76a82051ed7e7ccc5923227ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 049/162] fix: truncated or corrupted function files were
 loaded as if they were complete

---
 sources/core/function.cpp                      |  2 +-
 sources/core/rational_function.cpp             | 18 ++++++++++++++----
 .../function.cpp                               |  2 +-
 .../function.cpp                               |  2 +-
 .../nonlinear_fresnel_schlick/function.cpp     |  2 +-
 .../nonlinear_function_abc/function.cpp        |  2 +-
 .../nonlinear_function_beckmann/function.cpp   |  2 +-
 .../nonlinear_function_blinn/function.cpp      |  2 +-
 .../nonlinear_function_diffuse/function.cpp    |  2 +-
 .../function.cpp                               |  2 +-
 .../nonlinear_function_lafortune/function.cpp  |  2 +-
 .../function.cpp                               |  2 +-
 .../nonlinear_function_retroblinn/function.cpp |  2 +-
 .../nonlinear_function_retroyoo/function.cpp   |  2 +-
 .../nonlinear_function_sgd/function.cpp        |  2 +-
 .../function.cpp                               |  2 +-
 .../nonlinear_function_ward/function.cpp       |  2 +-
 .../nonlinear_shadowing_schlick/function.cpp   |  2 +-
 .../nonlinear_shadowing_smith/function.cpp     |  2 +-
 .../function.cpp                               |  2 +-
 20 files changed, 33 insertions(+), 23 deletions(-)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index a79131b..28f9b32 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -326,7 +326,7 @@ bool nonlinear_function::load(std::istream& in)
 	}
 
 	setParameters(p);
-	return true;
+	return !in.fail();
 }
 
 void nonlinear_function::save_call(std::ostream& out, const arguments& args) const
diff --git a/sources/core/rational_function.cpp b/sources/core/rational_function.cpp
index 7d2bced..9307ada 100644
--- a/sources/core/rational_function.cpp
+++ b/sources/core/rational_function.cpp
@@ -49,8 +49,11 @@ bool rational_function_1d::load(std::istream& in)
 
 	// Shoudl have the #NQ [int]
 	in >> token >> _nq;
-	if(token != "#NQ") { return false; }
-	vec a(_np), b(_nq);
+	if(token != "#NQ" || in.fail() || _np < 0 || _nq < 0) { return false; }
+
+	// The coefficients are read before being stored in vectors to avoid huge
+	// allocations when the size is corrupted.
+	std::vector<double> va, vb;
 
 	// Parse the p_i coefficients
 	// TODO: Check if the indices match the current index?
@@ -60,7 +63,9 @@ bool rational_function_1d::load(std::istream& in)
 		{
 			in >> token;
 		}
-		in >> a[j];
+		double c;
+		if(!(in >> c)) { return false; }
+		va.push_back(c);
 	}
 
 	// Parse the q_i coefficients
@@ -71,8 +76,12 @@ bool rational_function_1d::load(std::istream& in)
 		{
 			in >> token;
 		}
-		in >> b[j];
+		double c;
+		if(!(in >> c)) { return false; }
+		vb.push_back(c);
 	}
+	const vec a = Eigen::Map<const vec>(va.data(), va.size());
+	const vec b = Eigen::Map<const vec>(vb.data(), vb.size());
 #ifdef NONE
 	std::cout << "p_" << i << " = " << a << std::endl;
 	std::cout << "q_" << i << " = " << b << std::endl;
@@ -665,6 +674,7 @@ bool rational_function::load(std::istream& in)
 		return false;
 	}
 	for(int k=0; k<_parameters.dimX(); ++k) {in >> max[k]; }
+	if(in.fail()) { return false; }
 	setMax(max);
 
 	for(int i=0; i<_parameters.dimY(); ++i)
diff --git a/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp b/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
index 0ed36d5..61b240b 100644
--- a/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
+++ b/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
@@ -68,7 +68,7 @@ bool schlick::load(std::istream& in)
     {
         in >> token >> R[i];
     }
-    return true;
+    return !in.fail();
 }
 
 void schlick::save_call(std::ostream& out, const arguments& args) const
diff --git a/sources/plugins/nonlinear_fresnel_retroschlick/function.cpp b/sources/plugins/nonlinear_fresnel_retroschlick/function.cpp
index 03ed6b5..88fdf3a 100644
--- a/sources/plugins/nonlinear_fresnel_retroschlick/function.cpp
+++ b/sources/plugins/nonlinear_fresnel_retroschlick/function.cpp
@@ -154,7 +154,7 @@ bool retro_schlick::load(std::istream& in)
 	for(int i=0; i<_parameters.dimY(); ++i) {
 		in >> token >> R[i];
 	}
-	return true;
+	return !in.fail();
 }
 
 void retro_schlick::save_call(std::ostream& out, const arguments& args) const
diff --git a/sources/plugins/nonlinear_fresnel_schlick/function.cpp b/sources/plugins/nonlinear_fresnel_schlick/function.cpp
index 8d6521b..51923ec 100644
--- a/sources/plugins/nonlinear_fresnel_schlick/function.cpp
+++ b/sources/plugins/nonlinear_fresnel_schlick/function.cpp
@@ -70,7 +70,7 @@ bool schlick_fresnel::load(std::istream& in)
     {
         in >> token >> R[i];
     }
-    return true;
+    return !in.fail();
 }
 
 void schlick_fresnel::save_call(std::ostream& out, const arguments& args) const
diff --git a/sources/plugins/nonlinear_function_abc/function.cpp b/sources/plugins/nonlinear_function_abc/function.cpp
index c2dee20..bc4ea53 100644
--- a/sources/plugins/nonlinear_function_abc/function.cpp
+++ b/sources/plugins/nonlinear_function_abc/function.cpp
@@ -228,7 +228,7 @@ bool abc_function::load(std::istream& in)
 		in >> token >> _b[i];
 		in >> token >> _c[i];
 	}
-    return true;
+    return !in.fail();
 }
 
 
diff --git a/sources/plugins/nonlinear_function_beckmann/function.cpp b/sources/plugins/nonlinear_function_beckmann/function.cpp
index e08e9f0..5187767 100644
--- a/sources/plugins/nonlinear_function_beckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_beckmann/function.cpp
@@ -238,7 +238,7 @@ bool beckmann_function::load(std::istream& in)
 		in >> token >> _ks[i];
 		in >> token >> _a[i];
 	}
-    return true;
+    return !in.fail();
 }
 
 
diff --git a/sources/plugins/nonlinear_function_blinn/function.cpp b/sources/plugins/nonlinear_function_blinn/function.cpp
index 0018de8..6ad932e 100644
--- a/sources/plugins/nonlinear_function_blinn/function.cpp
+++ b/sources/plugins/nonlinear_function_blinn/function.cpp
@@ -107,7 +107,7 @@ bool blinn_function::load(std::istream& in)
 #ifdef DEBUG
     std::cout << "<<DEBUG>> load parameters " << parameters() << std::endl;
 #endif
-    return true;
+    return !in.fail();
 }
 
 //! Number of parameters to this non-linear function
diff --git a/sources/plugins/nonlinear_function_diffuse/function.cpp b/sources/plugins/nonlinear_function_diffuse/function.cpp
index 1431c44..a2709f0 100644
--- a/sources/plugins/nonlinear_function_diffuse/function.cpp
+++ b/sources/plugins/nonlinear_function_diffuse/function.cpp
@@ -86,7 +86,7 @@ bool diffuse_function::load(std::istream &in)
     {
         in >> token >> _kd[i];
     }
-    return true;
+    return !in.fail();
 
 }
 
diff --git a/sources/plugins/nonlinear_function_isotropic_lafortune/function.cpp b/sources/plugins/nonlinear_function_isotropic_lafortune/function.cpp
index fe4f833..2d8e07a 100644
--- a/sources/plugins/nonlinear_function_isotropic_lafortune/function.cpp
+++ b/sources/plugins/nonlinear_function_isotropic_lafortune/function.cpp
@@ -398,7 +398,7 @@ bool isotropic_lafortune_function::load(std::istream& in)
 
 	std::cout << "<<INFO>> Cd = " << _C << std::endl;
 	std::cout << "<<INFO>> N = "  << _N << std::endl;
-    return true;
+    return !in.fail();
 }
 
 
diff --git a/sources/plugins/nonlinear_function_lafortune/function.cpp b/sources/plugins/nonlinear_function_lafortune/function.cpp
index 5fb5bf6..f646d4e 100644
--- a/sources/plugins/nonlinear_function_lafortune/function.cpp
+++ b/sources/plugins/nonlinear_function_lafortune/function.cpp
@@ -432,7 +432,7 @@ bool lafortune_function::load(std::istream& in)
 
 	std::cout << "<<INFO>> Cd = " << _C << std::endl;
 	std::cout << "<<INFO>> N = " << _N << std::endl;
-    return true;
+    return !in.fail();
 }
 
 void lafortune_function::save_call(std::ostream& out, const arguments& args) const
diff --git a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
index ee83e07..32b67a3 100644
--- a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
@@ -242,7 +242,7 @@ bool beckmann_function::load(std::istream& in)
 		in >> token >> _ks[i];
 		in >> token >> _a[i];
 	}
-    return true;
+    return !in.fail();
 }
 
 
diff --git a/sources/plugins/nonlinear_function_retroblinn/function.cpp b/sources/plugins/nonlinear_function_retroblinn/function.cpp
index 05d4d3e..3809cc9 100644
--- a/sources/plugins/nonlinear_function_retroblinn/function.cpp
+++ b/sources/plugins/nonlinear_function_retroblinn/function.cpp
@@ -95,7 +95,7 @@ bool retroblinn_function::load(std::istream& in)
         in >> token >> _ks[i];
         in >> token >>  _N[i];
     }
-    return true;
+    return !in.fail();
 }
 
 //! Number of parameters to this non-linear function
diff --git a/sources/plugins/nonlinear_function_retroyoo/function.cpp b/sources/plugins/nonlinear_function_retroyoo/function.cpp
index 2e3a75f..13752c6 100644
--- a/sources/plugins/nonlinear_function_retroyoo/function.cpp
+++ b/sources/plugins/nonlinear_function_retroyoo/function.cpp
@@ -180,7 +180,7 @@ bool yoo_function::load(std::istream& in)
 		in >> token >> _kr[i];
 		in >> token >> _lt[i];
 	}
-    return true;
+    return !in.fail();
 }
 
 
diff --git a/sources/plugins/nonlinear_function_sgd/function.cpp b/sources/plugins/nonlinear_function_sgd/function.cpp
index df1c884..e425adf 100644
--- a/sources/plugins/nonlinear_function_sgd/function.cpp
+++ b/sources/plugins/nonlinear_function_sgd/function.cpp
@@ -287,7 +287,7 @@ bool shifted_gamma_function::load(std::istream& in)
 		in >> token >> sh_theta0[i];
 	}
 
-	return true;
+	return !in.fail();
 }
 
 void 
diff --git a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
index 8a97d21..aca5ce4 100644
--- a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
+++ b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
@@ -336,7 +336,7 @@ bool spherical_gaussian_function::load(std::istream& in)
 
 	std::cout << "<<DEBUG>> Spherical gaussians plugin, found p= " << parameters() << std::endl;
 
-    return true;
+    return !in.fail();
 }
 
 
diff --git a/sources/plugins/nonlinear_function_ward/function.cpp b/sources/plugins/nonlinear_function_ward/function.cpp
index 57065fa..5358a4d 100644
--- a/sources/plugins/nonlinear_function_ward/function.cpp
+++ b/sources/plugins/nonlinear_function_ward/function.cpp
@@ -215,7 +215,7 @@ bool ward_function::load(std::istream& in)
 		in >> token >> _ax[i];
 		in >> token >> _ay[i];
 	}
-    return true;
+    return !in.fail();
 }
 
 
diff --git a/sources/plugins/nonlinear_shadowing_schlick/function.cpp b/sources/plugins/nonlinear_shadowing_schlick/function.cpp
index 3646faa..e53ed57 100644
--- a/sources/plugins/nonlinear_shadowing_schlick/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_schlick/function.cpp
@@ -71,7 +71,7 @@ bool schlick_masking::load(std::istream& in)
     {
         in >> token >> w[i];
     }
-    return true;
+    return !in.fail();
 }
 
 void schlick_masking::save_call(std::ostream& out, const arguments& args) const
diff --git a/sources/plugins/nonlinear_shadowing_smith/function.cpp b/sources/plugins/nonlinear_shadowing_smith/function.cpp
index 3cb3b40..2cb1ffd 100644
--- a/sources/plugins/nonlinear_shadowing_smith/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_smith/function.cpp
@@ -72,7 +72,7 @@ bool smith::load(std::istream& in)
     {
         in >> token >> w[i];
     }
-    return true;
+    return !in.fail();
 }
 
 void smith::save_call(std::ostream& out, const arguments& args) const
diff --git a/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp b/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
index 6916c43..528664d 100644
--- a/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
@@ -81,7 +81,7 @@ WalterSmith::load(std::istream& in)
   #ifdef DEBUG
   std::cout << "<<DEBUG>> load parameters " << parameters() << std::endl;
   #endif
-  return true;
+  return !in.fail();
 
 
 }
-- 
2.43.0


From 96a5ebe4a376cfa81cbb76ebc1e2fc871db6981c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:18 +0000
Subject: [PATCH 050/162] fix: corrupted number of Lafortune lobes aborted the
 loading

---
 .../nonlinear_function_lafortune/function.cpp     | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/sources/plugins/nonlinear_function_lafortune/function.cpp b/sources/plugins/nonlinear_function_lafortune/function.cpp
index f646d4e..6a6431e 100644
--- a/sources/plugins/nonlinear_function_lafortune/function.cpp
+++ b/sources/plugins/nonlinear_function_lafortune/function.cpp
@@ -405,6 +405,8 @@ bool lafortune_function::load(std::istream& in)
 	 // Shoudl have the #NB_LOBES [int]
 	 int nb_lobes;
 	 in >> token >> nb_lobes;
+	 if(in.fail() || nb_lobes < 0 || nb_lobes > 4096)
+		 return false;
 	 setNbLobes(nb_lobes);
 
 	// Parse the lobe
@@ -422,17 +424,22 @@ bool lafortune_function::load(std::istream& in)
 
 	}
 	
+	if(in.fail())
+		return false;
+
 	// Diffuse term, absent from older files
-	in >> std::ws;
+	if(in.good()) { in >> std::ws; }
 	for(int i=0; i<_nY; ++i)
 	{
-		if(in.peek() != 'K') { break; }
-		in >> token >> _kd[i] >> std::ws;
+		if(!in.good() || in.peek() != 'K') { break; }
+		if(!(in >> token >> _kd[i]))
+			return false;
+		if(in.good()) { in >> std::ws; }
 	}
 
 	std::cout << "<<INFO>> Cd = " << _C << std::endl;
 	std::cout << "<<INFO>> N = " << _N << std::endl;
-    return !in.fail();
+    return true;
 }
 
 void lafortune_function::save_call(std::ostream& out, const arguments& args) const
-- 
2.43.0


From 6c56bc61dba07857106ec7e4bd427f9c90fadadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:18 +0000
Subject: [PATCH 051/162] fix: a function could not be initialised from a file
 written by ALTA

---
 sources/core/function.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index 28f9b32..26eedb8 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -33,6 +33,15 @@ void function::bootstrap(const ptr<data>, const arguments& args)
     std::ifstream in(args["bootstrap"].c_str());
     if(in.is_open())
     {
+      // Skip the header of the file, if there is one
+      std::string line;
+      while(std::getline(in, line) && line != "#ALTA HEADER END") { }
+      if(in.fail())
+      {
+        in.clear();
+        in.seekg(0);
+      }
+
       if(!load(in))
 			{
 				std::cerr << "<<ERROR>> cannot bootstrap from file \"" << args["bootstrap"] << "\"" << std::endl;
-- 
2.43.0


From 56b7be5d0d45d40427c445aa5ced93999bb9819c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:18 +0000
Subject: [PATCH 052/162] fix: initial parameters given by the user were
 ignored by most functions

---
 .../nonlinear_fresnel_normalized_schlick/function.cpp     | 6 ++++++
 .../plugins/nonlinear_fresnel_retroschlick/function.cpp   | 6 ++++++
 sources/plugins/nonlinear_fresnel_schlick/function.cpp    | 6 ++++++
 sources/plugins/nonlinear_function_abc/function.cpp       | 6 ++++++
 sources/plugins/nonlinear_function_blinn/function.cpp     | 6 ++++++
 sources/plugins/nonlinear_function_lafortune/function.cpp | 6 ++++++
 .../plugins/nonlinear_function_retrobeckmann/function.cpp | 6 ++++++
 .../plugins/nonlinear_function_retroblinn/function.cpp    | 6 ++++++
 sources/plugins/nonlinear_function_retroyoo/function.cpp  | 8 +++++++-
 .../nonlinear_function_spherical_gaussian/function.cpp    | 6 ++++++
 sources/plugins/nonlinear_function_ward/function.cpp      | 6 ++++++
 sources/plugins/nonlinear_shadowing_schlick/function.cpp  | 8 +++++++-
 sources/plugins/nonlinear_shadowing_smith/function.cpp    | 6 ++++++
 .../plugins/nonlinear_shadowing_walter_smith/function.cpp | 6 ++++++
 14 files changed, 86 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp b/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
index 61b240b..25fc771 100644
--- a/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
+++ b/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
@@ -210,4 +210,10 @@ void schlick::bootstrap(const ptr<data> d, const arguments& args)
     }
     
     std::cout << "<<INFO>> Normalized Fresnel with Schlick Approx. Fit will start from " << R << std::endl;
+
+	// Initial values given by the user
+	if(args.is_defined("bootstrap"))
+	{
+		nonlinear_function::bootstrap(d, args);
+	}
 }
diff --git a/sources/plugins/nonlinear_fresnel_retroschlick/function.cpp b/sources/plugins/nonlinear_fresnel_retroschlick/function.cpp
index 88fdf3a..65180a6 100644
--- a/sources/plugins/nonlinear_fresnel_retroschlick/function.cpp
+++ b/sources/plugins/nonlinear_fresnel_retroschlick/function.cpp
@@ -117,6 +117,12 @@ vec retro_schlick::getParametersMax() const
 void retro_schlick::bootstrap(const ptr<data> d, const arguments& args)
 {
 	for(int i=0; i<_parameters.dimY(); ++i) {R[i] = 0.5; }
+
+	// Initial values given by the user
+	if(args.is_defined("bootstrap"))
+	{
+		nonlinear_function::bootstrap(d, args);
+	}
 }
 
 //! Load function specific files
diff --git a/sources/plugins/nonlinear_fresnel_schlick/function.cpp b/sources/plugins/nonlinear_fresnel_schlick/function.cpp
index 51923ec..a1f8b16 100644
--- a/sources/plugins/nonlinear_fresnel_schlick/function.cpp
+++ b/sources/plugins/nonlinear_fresnel_schlick/function.cpp
@@ -204,4 +204,10 @@ vec schlick_fresnel::parametersJacobian(const vec& x) const
 void schlick_fresnel::bootstrap(const ptr<data> d, const arguments& args)
 {
     for(int i=0; i<_parameters.dimY(); ++i) { R[i] = 0.5; }
+
+	// Initial values given by the user
+	if(args.is_defined("bootstrap"))
+	{
+		nonlinear_function::bootstrap(d, args);
+	}
 }
diff --git a/sources/plugins/nonlinear_function_abc/function.cpp b/sources/plugins/nonlinear_function_abc/function.cpp
index bc4ea53..b31ceb6 100644
--- a/sources/plugins/nonlinear_function_abc/function.cpp
+++ b/sources/plugins/nonlinear_function_abc/function.cpp
@@ -170,6 +170,12 @@ void abc_function::bootstrap(const ptr<data> d, const arguments& args)
 	{
 		std::cerr << "<<ERROR>> the parametrization specifed in the file for the ABC model is incorrect" << std::endl;
 	}
+
+	// Initial values given by the user
+	if(args.is_defined("bootstrap"))
+	{
+		nonlinear_function::bootstrap(d, args);
+	}
 }
 
 //! Load function specific files
diff --git a/sources/plugins/nonlinear_function_blinn/function.cpp b/sources/plugins/nonlinear_function_blinn/function.cpp
index 6ad932e..c17785c 100644
--- a/sources/plugins/nonlinear_function_blinn/function.cpp
+++ b/sources/plugins/nonlinear_function_blinn/function.cpp
@@ -182,6 +182,12 @@ void blinn_function::bootstrap(const ptr<data> d, const arguments& args)
         _ks[i] = 1.0;
         _N[i]  = 10.0;
     }
+
+	// Initial values given by the user
+	if(args.is_defined("bootstrap"))
+	{
+		nonlinear_function::bootstrap(d, args);
+	}
 }
 
 void blinn_function::save_call(std::ostream& out, 
diff --git a/sources/plugins/nonlinear_function_lafortune/function.cpp b/sources/plugins/nonlinear_function_lafortune/function.cpp
index 6a6431e..27ef8e7 100644
--- a/sources/plugins/nonlinear_function_lafortune/function.cpp
+++ b/sources/plugins/nonlinear_function_lafortune/function.cpp
@@ -336,6 +336,12 @@ void lafortune_function::bootstrap(const ptr<data> d, const arguments& args)
             _C[(n*nY + i)*3 + 2] = cos(theta);
             _N[n*nY  + i]        = (double)_n;
         }
+
+	// Initial values given by the user
+	if(args.is_defined("bootstrap"))
+	{
+		nonlinear_function::bootstrap(d, args);
+	}
 }
 
 std::ofstream& type_definition(std::ofstream& out, int nY)
diff --git a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
index 32b67a3..9429007 100644
--- a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
@@ -181,6 +181,12 @@ void beckmann_function::bootstrap(const ptr<data> d, const arguments& args)
 	{
 		_use_back_param = true;
 	}
+
+	// Initial values given by the user
+	if(args.is_defined("bootstrap"))
+	{
+		nonlinear_function::bootstrap(d, args);
+	}
 }
 
 //! Load function specific files
diff --git a/sources/plugins/nonlinear_function_retroblinn/function.cpp b/sources/plugins/nonlinear_function_retroblinn/function.cpp
index 3809cc9..b787cc9 100644
--- a/sources/plugins/nonlinear_function_retroblinn/function.cpp
+++ b/sources/plugins/nonlinear_function_retroblinn/function.cpp
@@ -168,6 +168,12 @@ void retroblinn_function::bootstrap(const ptr<data> d, const arguments& args)
         _ks[i] = 1.0;
         _N[i]  = 1.0;
     }
+
+	// Initial values given by the user
+	if(args.is_defined("bootstrap"))
+	{
+		nonlinear_function::bootstrap(d, args);
+	}
 }
 
 void retroblinn_function::save_call(std::ostream& out, 
diff --git a/sources/plugins/nonlinear_function_retroyoo/function.cpp b/sources/plugins/nonlinear_function_retroyoo/function.cpp
index 13752c6..2a98a2a 100644
--- a/sources/plugins/nonlinear_function_retroyoo/function.cpp
+++ b/sources/plugins/nonlinear_function_retroyoo/function.cpp
@@ -133,13 +133,19 @@ vec yoo_function::parametersJacobian(const vec& x) const
 	return jac;
 }
 		
-void yoo_function::bootstrap(const ptr<data>, const arguments&)
+void yoo_function::bootstrap(const ptr<data> d, const arguments& args)
 {
 	for(int i=0; i<_parameters.dimY(); ++i)
 	{
 		_kr[i] = 1.0;
 		_lt[i] = 1.0;
 	}
+
+	// Initial values given by the user
+	if(args.is_defined("bootstrap"))
+	{
+		nonlinear_function::bootstrap(d, args);
+	}
 }
 
 //! Load function specific files
diff --git a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
index aca5ce4..7b358ee 100644
--- a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
+++ b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
@@ -270,6 +270,12 @@ void spherical_gaussian_function::bootstrap(const ptr<data> d, const arguments&
 	{
 		parse_type(args.get_string("sg-type", "half"));
 	}
+
+	// Initial values given by the user
+	if(args.is_defined("bootstrap"))
+	{
+		nonlinear_function::bootstrap(d, args);
+	}
 }
 
 //! Load function specific files
diff --git a/sources/plugins/nonlinear_function_ward/function.cpp b/sources/plugins/nonlinear_function_ward/function.cpp
index 5358a4d..e41b24b 100644
--- a/sources/plugins/nonlinear_function_ward/function.cpp
+++ b/sources/plugins/nonlinear_function_ward/function.cpp
@@ -174,6 +174,12 @@ void ward_function::bootstrap(const ptr<data> d, const arguments& args)
     {
         isotropic = true;
     }
+
+	// Initial values given by the user
+	if(args.is_defined("bootstrap"))
+	{
+		nonlinear_function::bootstrap(d, args);
+	}
 }
 
 //! Load function specific files
diff --git a/sources/plugins/nonlinear_shadowing_schlick/function.cpp b/sources/plugins/nonlinear_shadowing_schlick/function.cpp
index e53ed57..0e79426 100644
--- a/sources/plugins/nonlinear_shadowing_schlick/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_schlick/function.cpp
@@ -197,8 +197,14 @@ vec schlick_masking::parametersJacobian(const vec& x) const
 }
 
 
-void schlick_masking::bootstrap(const ptr<data>, const arguments&)
+void schlick_masking::bootstrap(const ptr<data> d, const arguments& args)
 {
 	// Start with a non occluding value for k
     for(int i=0; i<_parameters.dimY(); ++i) { w[i] = 0.0; }
+
+	// Initial values given by the user
+	if(args.is_defined("bootstrap"))
+	{
+		nonlinear_function::bootstrap(d, args);
+	}
 }
diff --git a/sources/plugins/nonlinear_shadowing_smith/function.cpp b/sources/plugins/nonlinear_shadowing_smith/function.cpp
index 2cb1ffd..c40deb7 100644
--- a/sources/plugins/nonlinear_shadowing_smith/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_smith/function.cpp
@@ -249,4 +249,10 @@ vec smith::parametersJacobian(const vec& x) const
 void smith::bootstrap(const ptr<data> d, const arguments& args)
 {
     for(int i=0; i<_parameters.dimY(); ++i) { w[i] = 1.0; }
+
+	// Initial values given by the user
+	if(args.is_defined("bootstrap"))
+	{
+		nonlinear_function::bootstrap(d, args);
+	}
 }
diff --git a/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp b/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
index 528664d..cbf31fe 100644
--- a/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
@@ -310,6 +310,12 @@ WalterSmith::bootstrap(const ptr<data> d, const arguments& args)
   { 
     _alpha[i] = 1.0; 
   }
+
+	// Initial values given by the user
+	if(args.is_defined("bootstrap"))
+	{
+		nonlinear_function::bootstrap(d, args);
+	}
 }
 
 double  WalterSmith::shadowTerm( double a ) const 
-- 
2.43.0


From 0c27a2e6059f4a7304b031cbdf9090e85380ca4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:36 +0000
Subject: [PATCH 053/162] fix: initialising a product rewound the file to its
 first factor

---
 sources/core/function.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index 26eedb8..48f57a8 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -996,6 +996,8 @@ void product_function::bootstrap(const ptr<data> d, const arguments& args)
 					std::cout << "<<DEBUG>> Unable to load first function of product, regular bootstraping" << std::endl;
 				}
 				
+				pos = file.tellg();
+
 				// If the second function cannot be loaded, put the input stream
 				// in the previous state and bootstrap normaly this function.
 				if(!f2->load(file))
-- 
2.43.0


From 3dcf599c6bd2d1985c0f9b1d7420e91b183d9c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:36 +0000
Subject: [PATCH 054/162] fix: diffuse function listed an uninitialised
 parameter although it has none

---
 sources/plugins/nonlinear_function_diffuse/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_diffuse/function.cpp b/sources/plugins/nonlinear_function_diffuse/function.cpp
index a2709f0..6df176c 100644
--- a/sources/plugins/nonlinear_function_diffuse/function.cpp
+++ b/sources/plugins/nonlinear_function_diffuse/function.cpp
@@ -135,7 +135,7 @@ vec diffuse_function::parameters() const
         res[i*3 + 0] = _kd[i];
     }
 #else
-    vec res(1);
+    vec res(0);
 #endif
     return res;
 }
@@ -172,7 +172,7 @@ vec diffuse_function::parametersJacobian(const vec& x) const
 			}
 		}
 #else
-	vec jac(1);
+	vec jac(0);
 #endif
 
     return jac;
-- 
2.43.0


From 784c575a65ea88df1f45aa1c07de3ca29be1eaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:36 +0000
Subject: [PATCH 055/162] fix: diffuse function ignored the first sample of
 cosine weighted data

---
 sources/plugins/nonlinear_function_diffuse/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_diffuse/function.cpp b/sources/plugins/nonlinear_function_diffuse/function.cpp
index 6df176c..d1e250d 100644
--- a/sources/plugins/nonlinear_function_diffuse/function.cpp
+++ b/sources/plugins/nonlinear_function_diffuse/function.cpp
@@ -204,7 +204,7 @@ void diffuse_function::bootstrap(const ptr<data> d, const arguments& args)
             for(int i=0; i<d->parametrization().dimY(); ++i)
                 _kd[i] = std::numeric_limits<double>::max();
 
-            for(int i=1; i<d->size(); ++i)
+            for(int i=0; i<d->size(); ++i)
             {
                 vec x = d->get(i);
                 params::convert(&x[0],
-- 
2.43.0


From faa73a10a794e921efee9b44df043bad1057b6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:03 +0000
Subject: [PATCH 056/162] fix: initialising the diffuse function from a file
 terminated the program

---
 .../nonlinear_function_diffuse/function.cpp   | 23 ++++++++-----------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/sources/plugins/nonlinear_function_diffuse/function.cpp b/sources/plugins/nonlinear_function_diffuse/function.cpp
index d1e250d..e6a0b50 100644
--- a/sources/plugins/nonlinear_function_diffuse/function.cpp
+++ b/sources/plugins/nonlinear_function_diffuse/function.cpp
@@ -182,18 +182,8 @@ vec diffuse_function::parametersJacobian(const vec& x) const
 void diffuse_function::bootstrap(const ptr<data> d, const arguments& args)
 {
     
-    // Check if the bootstrat option is there
-    // If yes ask nonlinear class to parse it
-    if( args.is_defined("bootstrap") )
-    {
-        NOT_IMPLEMENTED();
-        //TODO Make this work
-        //if we want to boostrap from command line with the diffuse term
-        nonlinear_function::bootstrap( d, args);
-        std::cout << "<<INFO>> Bootstrapping from command line with " << _kd << std::endl;
-    }
-    else //Else we are doing a classical bootstrapping for the diffuse term
-        // By taking the minimum value of the BRDF
+    // Classical bootstrapping for the diffuse term: take the minimum value of
+    // the BRDF.
     {
         // Set the diffuse component
         if(params::is_cosine_weighted(d->parametrization().output_parametrization())
@@ -235,7 +225,14 @@ void diffuse_function::bootstrap(const ptr<data> d, const arguments& args)
                                       _kd[j]);
             }
         }
-    }//end of else case
+    }
+
+    // Check if the bootstrap option is there
+    // If yes ask nonlinear class to parse it
+    if(args.is_defined("bootstrap"))
+    {
+        nonlinear_function::bootstrap(d, args);
+    }
 
     std::cout << "<<INFO>> found diffuse: " << _kd << std::endl;
 
-- 
2.43.0


From 17a049103937ed43614fe44d3372ff7985f169a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:03 +0000
Subject: [PATCH 057/162] fix: exported shaders missed a semicolon

---
 sources/core/function.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index 48f57a8..bb79db0 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -117,6 +117,7 @@ void function::save(const std::string& filename, const arguments& args) const
 	save_call(file, args);
 	if(is_cpp || is_shader)
 	{
+		file << ";" << std::endl;
 		file << "\treturn res;" << std::endl;
 		file << "}" << std::endl;
 	}
-- 
2.43.0


From c6cfb767303785eb1f1a49ed23834cf4cc4f54ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:03 +0000
Subject: [PATCH 058/162] fix: exported Schlick masking shader did not compute
 the masking term

---
 sources/plugins/nonlinear_shadowing_schlick/function.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sources/plugins/nonlinear_shadowing_schlick/function.cpp b/sources/plugins/nonlinear_shadowing_schlick/function.cpp
index 0e79426..7aeee4c 100644
--- a/sources/plugins/nonlinear_shadowing_schlick/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_schlick/function.cpp
@@ -89,7 +89,7 @@ void schlick_masking::save_call(std::ostream& out, const arguments& args) const
     }
     else
     {
-        out << "masking_schlick(L, V, N, X, Y, vec3";
+        out << "masking_schlick(L, V, N, X, Y, vec3(";
         for(int i=0; i<_parameters.dimY(); ++i)
         {
             out << w[i];
@@ -109,10 +109,10 @@ void schlick_masking::save_body(std::ostream& out, const arguments& args) const
         out << "vec3 masking_schlick(vec3 L, vec3 V, vec3 N, vec3 X, vec3 Y, vec3 K)" << std::endl;
         out << "{" << std::endl;
         out << "\tconst float dotLN = dot(L, N);" << std::endl;
-        out << "\tconst float dotVN = dot(L, N);" << std::endl;
+        out << "\tconst float dotVN = dot(V, N);" << std::endl;
 		  out << std::endl;
-        out << "\tconst vec3 GL = dotLN / (dotLN + K * (dotLN - 1.0));" << std::endl;
-        out << "\tconst vec3 GV = dotVN / (dotVN + K * (dotVN - 1.0));" << std::endl;
+        out << "\tconst vec3 GL = dotLN / (vec3(dotLN) + K * (1.0 - dotLN));" << std::endl;
+        out << "\tconst vec3 GV = dotVN / (vec3(dotVN) + K * (1.0 - dotVN));" << std::endl;
 		  out << std::endl;
         out << "\treturn vec3(GL*GV);" << std::endl;
         out << "}" << std::endl;
-- 
2.43.0


From 4fdc6914f6fc4b00fb011bb9773b9f660d1c07c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:59 +0000
Subject: [PATCH 059/162] fix: exported C++ code of rational functions did not
 compile nor use the normalised coordinates

---
 sources/core/function.cpp          |  1 +
 sources/core/rational_function.cpp | 28 +++++++++++++++++++++++++---
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index bb79db0..874c8cb 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -92,6 +92,7 @@ void function::save(const std::string& filename, const arguments& args) const
 
 	if(is_cpp)
 	{
+		file << "#include <cmath>" << std::endl;
 		file << "#include <Eigen/Core>" << std::endl;
 		file << "typedef Eigen::VectorXd vec;" << std::endl;
 		file << std::endl;
diff --git a/sources/core/rational_function.cpp b/sources/core/rational_function.cpp
index 9307ada..86fbd58 100644
--- a/sources/core/rational_function.cpp
+++ b/sources/core/rational_function.cpp
@@ -153,30 +153,43 @@ void rational_function_1d::save_body(std::ostream& out, const arguments& args) c
 	 }
 	else if(is_cpp)
 	 {
+		 // The polynomials are defined on the normalized coordinates. The index
+		 // of the color channel, k, is defined by the caller.
+		 out << "\tconst double xp[] = {";
+		 for(int k=0; k<_parameters.dimX(); ++k)
+		 {
+			 if(k != 0) { out << ", "; }
+			 out << "2.0*((x[" << k << "] - (" << _min[k] << ")) / (("
+			     << _max[k] << ") - (" << _min[k] << ")) - 0.5)";
+		 }
+		 out << "};" << std::endl;
+
 		 out << "\tdouble num = ";
+		 if(np == 0) { out << "0.0"; }
 		 for(unsigned int i=0; i<np; ++i)
 		 {
 			 out << _p_coeffs[i].a;
 			 for(int k=0; k<_parameters.dimX(); ++k)
 			 {
-				 out << "*pow(x[" << k << "], " << _p_coeffs[i].deg[k] << ")";
+				 out << "*pow(xp[" << k << "], " << _p_coeffs[i].deg[k] << ")";
 			 }
 			 if(i != np-1) { out << " + "; }
 		 }
 		 out << ";" << std::endl;
 
 		out << "\tdouble den = ";
+		 if(nq == 0) { out << "0.0"; }
 		 for(unsigned int i=0; i<nq; ++i)
 		 {
 			 out << _q_coeffs[i].a;
 			 for(int k=0; k<_parameters.dimX(); ++k)
 			 {
-				 out << "*pow(x[" << k << "], " << _q_coeffs[i].deg[k] << ")";
+				 out << "*pow(xp[" << k << "], " << _q_coeffs[i].deg[k] << ")";
 			 }
 			 if(i != nq-1) { out << " + "; }
 		 }
 		 out << ";" << std::endl;
-		 out << "\tres[0] = num / den;" << std::endl;
+		 out << "\tres[k] = num / den;" << std::endl;
 	 }
 	 else
 	 {
@@ -693,6 +706,13 @@ void rational_function::save_call(std::ostream& out, const arguments& args) cons
 	out << std::scientific;
 
 	bool is_alta = !args.is_defined("export") || args["export"] == "alta";
+	bool is_cpp  = args["export"] == "C++" || args["export"] == "c++" || args["export"] == "cpp";
+
+	// Only the monomials can be exported as code.
+	if(!is_alta && std::string(plugin_name()) != "rational_function") {
+		NOT_IMPLEMENTED();
+	}
+
 	if(is_alta) {
 		out << "#FUNC rational_function" << std::endl;
 		out << "#MIN "; for(int k=0; k<_parameters.dimX(); ++k) { out << _min[k] << " "; } out << std::endl;
@@ -707,7 +727,9 @@ void rational_function::save_call(std::ostream& out, const arguments& args) cons
       // Skip them (XXX: is this the right thing to do?).
       if (rf != NULL)
       {
+          if(is_cpp) { out << "\t{ const int k = " << k << ";" << std::endl; }
           rf->save_body(out, args);
+          if(is_cpp) { out << "\t}"; }
           out << std::endl;
       }
 	}
-- 
2.43.0


From 9abc84acd4adb0c27bfc0ebe94cf06787f8f696a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:59 +0000
Subject: [PATCH 060/162] fix: numerator and denominator of rational functions
 were summed onto uninitialised values

---
 sources/core/rational_function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/core/rational_function.cpp b/sources/core/rational_function.cpp
index 86fbd58..0579f1b 100644
--- a/sources/core/rational_function.cpp
+++ b/sources/core/rational_function.cpp
@@ -285,7 +285,7 @@ void rational_function_1d::resize(unsigned int np, unsigned int nq)
 // Get the p_i and q_j function
 vec rational_function_1d::p(const vec& x) const
 {
-	vec res(1) ;
+	vec res = vec::Zero(1) ;
 
 	const unsigned int np = _p_coeffs.size() ;
 	for(unsigned int i=0; i<np; ++i)
@@ -297,7 +297,7 @@ vec rational_function_1d::p(const vec& x) const
 }
 vec rational_function_1d::q(const vec& x) const 
 {
-	vec res(1) ;
+	vec res = vec::Zero(1) ;
 
 	const unsigned int np = _q_coeffs.size() ;
 	for(unsigned int i=0; i<np; ++i)
-- 
2.43.0


From 9e382f0fca15ca332a6864784a4027048268b0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:59 +0000
Subject: [PATCH 061/162] fix: rational functions were printed on the standard
 output whatever the stream

---
 sources/core/rational_function.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/sources/core/rational_function.cpp b/sources/core/rational_function.cpp
index 0579f1b..135e76a 100644
--- a/sources/core/rational_function.cpp
+++ b/sources/core/rational_function.cpp
@@ -507,27 +507,27 @@ std::ostream& operator<< (std::ostream& out, const rational_function_1d& r)
    const unsigned int np = p.size();
    const unsigned int nq = q.size();
 
-	std::cout << "p = [" ;
+	out << "p = [" ;
 	for(unsigned int i=0; i<np; ++i)
 	{
 		if(i != 0)
 		{
-			std::cout << ", " ;
+			out << ", " ;
 		}
-     std::cout << p[i];
+     out << p[i];
 	}
-	std::cout << "]" << std::endl ;
+	out << "]" << std::endl ;
 
-	std::cout << "q = [" ;
+	out << "q = [" ;
 	for(unsigned int i=0; i<nq; ++i)
 	{
 		if(i != 0)
 		{
-			std::cout << ", " ;
+			out << ", " ;
 		}
-     std::cout << q[i];
+     out << q[i];
 	}
-	std::cout << "]" << std::endl ;
+	out << "]" << std::endl ;
 
 	return out ;
 }
-- 
2.43.0


From 32ed3abd28efae4a43c3c2fd6633c582fa9e3fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:38 +0000
Subject: [PATCH 062/162] fix: exported C++ code of rational functions of other
 bases computed another function

---
 sources/core/rational_function.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sources/core/rational_function.cpp b/sources/core/rational_function.cpp
index 135e76a..ad224a8 100644
--- a/sources/core/rational_function.cpp
+++ b/sources/core/rational_function.cpp
@@ -10,6 +10,7 @@
 
 #include "rational_function.h"
 
+#include <typeinfo>
 #include <string>
 #include <sstream>
 #include <iostream>
@@ -708,9 +709,12 @@ void rational_function::save_call(std::ostream& out, const arguments& args) cons
 	bool is_alta = !args.is_defined("export") || args["export"] == "alta";
 	bool is_cpp  = args["export"] == "C++" || args["export"] == "c++" || args["export"] == "cpp";
 
-	// Only the monomials can be exported as code.
-	if(!is_alta && std::string(plugin_name()) != "rational_function") {
-		NOT_IMPLEMENTED();
+	// Only the monomials can be exported as C++ code. The code of another basis
+	// should not compile rather than compute another function.
+	if(is_cpp && typeid(*this) != typeid(rational_function)) {
+		std::cerr << "<<ERROR>> this rational function cannot be exported as C++" << std::endl;
+		out << std::endl << "#error this rational function cannot be exported as C++" << std::endl;
+		return;
 	}
 
 	if(is_alta) {
-- 
2.43.0


From 30fdbe9060acc6c97633806bbd777a4ec61ce95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:14 +0000
Subject: [PATCH 063/162] fix: Smith term tested the other direction for normal
 incidence

---
 sources/plugins/nonlinear_shadowing_smith/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_shadowing_smith/function.cpp b/sources/plugins/nonlinear_shadowing_smith/function.cpp
index c40deb7..d665b87 100644
--- a/sources/plugins/nonlinear_shadowing_smith/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_smith/function.cpp
@@ -147,7 +147,7 @@ vec smith::value(const vec& x) const
 {
 	vec res(_parameters.dimY());
     //RP: The Step functions are missing ???? !!!
-	if(x[2] == 1.0)
+	if(x[3] == 0.0 && x[4] == 0.0)
 	{
 		for(int i=0; i<_parameters.dimY(); ++i)
 		{
@@ -229,7 +229,7 @@ vec smith::parametersJacobian(const vec& x) const
     for(int i=0; i<nY; ++i)
         for(int j=0; j<nY; ++j)
         {
-			  if(i == j && x[2] < 1.0) 
+			  if(i == j && (x[3] != 0.0 || x[4] != 0.0)) 
 			  {
 				  const double mu = x[5] / sqrt(x[3]*x[3] + x[4]*x[4]);
 				  const double r = mu / w[i];
-- 
2.43.0


From 1aaf4ba7774a2a43c4a4d2df3cb2db2852ca72e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:14 +0000
Subject: [PATCH 064/162] fix: saving the SGD function terminated the program

---
 .../nonlinear_function_sgd/function.cpp       | 28 +++++++++++++++++--
 .../plugins/nonlinear_function_sgd/function.h | 15 ++--------
 2 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/sources/plugins/nonlinear_function_sgd/function.cpp b/sources/plugins/nonlinear_function_sgd/function.cpp
index e425adf..4f56770 100644
--- a/sources/plugins/nonlinear_function_sgd/function.cpp
+++ b/sources/plugins/nonlinear_function_sgd/function.cpp
@@ -290,10 +290,32 @@ bool shifted_gamma_function::load(std::istream& in)
 	return !in.fail();
 }
 
-void 
-shifted_gamma_function::save(const std::string& filename, const arguments& args) const
+void
+shifted_gamma_function::save_call(std::ostream& out, const arguments& args) const
 {
-	NOT_IMPLEMENTED();
+	bool is_alta = !args.is_defined("export") || args["export"] == "alta";
+	if(!is_alta)
+	{
+		std::cerr << "<<ERROR>> the SGD function can only be saved in the ALTA format" << std::endl;
+		out << "#error the SGD function can only be saved in the ALTA format" << std::endl;
+		return;
+	}
+
+	out << "#FUNC nonlinear_function_sgd" << std::endl;
+
+	// Same order as in the load function
+	const std::pair<const char*, const vec*> params[] = {
+		{"rho_d", &rho_d}, {"rho_s", &rho_s}, {"alpha", &alpha}, {"p", &p},
+		{"F_0", &F_0}, {"F_1", &F_1}, {"K_ap", &K_ap}, {"lambda", &sh_lambda},
+		{"c", &sh_c}, {"k", &sh_k}, {"theta_0", &sh_theta0} };
+	for(const auto& param : params)
+	{
+		for(int i=0; i<_parameters.dimY(); ++i)
+		{
+			out << param.first << " " << (*param.second)[i] << std::endl;
+		}
+	}
+	out << std::endl;
 }
 
 
diff --git a/sources/plugins/nonlinear_function_sgd/function.h b/sources/plugins/nonlinear_function_sgd/function.h
index e809693..332fe1c 100644
--- a/sources/plugins/nonlinear_function_sgd/function.h
+++ b/sources/plugins/nonlinear_function_sgd/function.h
@@ -35,16 +35,8 @@ class shifted_gamma_function : public nonlinear_function
 		virtual vec value(const vec& x) const ;
 
 		//! \brief Export function
-		virtual void save_call(std::ostream& out, const arguments& args) const 
-    {
-			NOT_IMPLEMENTED();
-		}
-		
-    virtual void save_body(std::ostream& out, const arguments& args) const 
-    {
-			NOT_IMPLEMENTED();
-		}
-		
+		virtual void save_call(std::ostream& out, const arguments& args) const;
+
 		//! Number of parameters to this non-linear function
 		virtual int nbParameters() const ;
 
@@ -61,9 +53,6 @@ class shifted_gamma_function : public nonlinear_function
     //! Load BRDF parameters from .brdf file
     virtual bool load(std::istream& in);
 
-    //! Save the Function 
-    virtual void save(const std::string& filename, const arguments& args) const;
-
     friend std::ostream& operator<<(std::ostream& out, const shifted_gamma_function & sgd);
 
 	private:
-- 
2.43.0


From c425581e1a8dee335b5513e534239ab39fa671c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:14 +0000
Subject: [PATCH 065/162] fix: Jacobian of the SGD function was always zero

---
 .../nonlinear_function_sgd/function.cpp       | 62 ++++++++++++++++---
 1 file changed, 53 insertions(+), 9 deletions(-)

diff --git a/sources/plugins/nonlinear_function_sgd/function.cpp b/sources/plugins/nonlinear_function_sgd/function.cpp
index 4f56770..af2767e 100644
--- a/sources/plugins/nonlinear_function_sgd/function.cpp
+++ b/sources/plugins/nonlinear_function_sgd/function.cpp
@@ -134,22 +134,66 @@ void shifted_gamma_function::setParameters(const vec& pi)
 }
 
 //! Obtain the derivatives of the function with respect to the 
-//! parameters. \TODO
+//! parameters.
 vec shifted_gamma_function::parametersJacobian(const vec& x) const {
 	
 	const int n = _parameters.dimY();
-    vec jac(n*nbParameters());
+	const int nb_params = nbParameters();
+	vec jac = vec::Zero(n*nb_params);
 
-	 for(int i=0; i<n; ++i) {
-		 for(int j=0; j<nbParameters(); ++j) {
-		 	jac[i + j*n] = 0.0;
-		 }
-	 }
+	vec light(3), view(3);
+	for(int k=0; k<3; ++k) { light[k] = x[k]; view[k] = x[k+3]; }
+	if(light[2] < 0.0)
+		return jac;
 
-    return jac;
+	const vec half    = normalize(light + view);
+	const double v_h  = dot(view, half);
+	const double pow5 = pow(1.0 - v_h, 5.0);
+	const double cos2 = half[2]*half[2];
+	const double tan2 = (1.0 - cos2) / cos2;
+
+	const vec dist = D(alpha, p, half[2], K_ap);
+	const vec fres = Fresnel(F_0, F_1, v_h);
+	const vec g[2] = { G1(light[2]), G1(view[2]) };
+	const double theta[2] = { acos(light[2]), acos(view[2]) };
+
+	for(int i=0; i<n; ++i) {
+		double* J = &jac[i*nb_params];
+		const double spec = one_pi * rho_s[i] * dist[i] * fres[i];
+
+		// Visibility: c, theta0, k, lambda
+		for(int k=0; k<2; ++k) {
+			const double fact = spec * g[1-k][i];
+			const double t    = std::max<double>(theta[k] - sh_theta0[i], 0.0);
+			const double tk   = pow(t, sh_k[i]);
+			const double expo = exp(sh_c[i] * tk);
+			J[i + 0*n] -= fact * sh_lambda[i] * expo * tk;
+			if(t > 0.0) {
+				J[i + 1*n] += fact * sh_lambda[i] * expo * sh_c[i] * sh_k[i] * pow(t, sh_k[i] - 1.0);
+				J[i + 2*n] -= fact * sh_lambda[i] * expo * sh_c[i] * tk * log(t);
+			}
+			J[i + 3*n] += fact * (1.0 - expo);
+		}
+
+		// Distribution: p, K_ap, alpha
+		const double ax   = alpha[i] + tan2/alpha[i];
+		const double g_lv = one_pi * rho_s[i] * g[0][i] * g[1][i];
+		J[i +  4*n] = - g_lv * fres[i] * dist[i] * log(ax);
+		J[i +  7*n] =   g_lv * fres[i] * (one_pi / (cos2*cos2)) * exp(-ax) / pow(ax, p[i]);
+		J[i + 10*n] = - g_lv * fres[i] * dist[i] * (1.0 + p[i]/ax) * (1.0 - tan2/(alpha[i]*alpha[i]));
+
+		// Fresnel: F_0, F_1
+		J[i +  5*n] =   g_lv * dist[i] * (1.0 - pow5);
+		J[i +  6*n] = - g_lv * dist[i] * v_h;
+
+		// Albedos: rho_d, rho_s
+		J[i +  8*n] = one_pi;
+		J[i +  9*n] = one_pi * dist[i] * g[0][i] * g[1][i] * fres[i];
+	}
+
+	return jac;
 }
 
-		
 vec shifted_gamma_function::Fresnel(const vec& F0, const vec& F1, double V_H) const
 {
 	vec F(_parameters.dimY());
-- 
2.43.0


From bcfc73cb0901fe0e2b4b66b50439ed2d60076609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:28 +0000
Subject: [PATCH 066/162] fix: input parametrization of a retro Blinn lobe was
 lost when saved within a sum or a product

---
 .../function.cpp                              | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/sources/plugins/nonlinear_function_retroblinn/function.cpp b/sources/plugins/nonlinear_function_retroblinn/function.cpp
index b787cc9..93e1bec 100644
--- a/sources/plugins/nonlinear_function_retroblinn/function.cpp
+++ b/sources/plugins/nonlinear_function_retroblinn/function.cpp
@@ -89,6 +89,23 @@ bool retroblinn_function::load(std::istream& in)
     }
 
     // ks [double]
+    // Input parametrization, absent from older files
+    in >> std::ws;
+    if(in.peek() == '#')
+    {
+        in >> token;
+        if(token != "#PARAM")
+        {
+            std::cerr << "<<ERROR>> parsing the stream. The #PARAM is not the next line defined." << std::endl;
+            return false;
+        }
+        in >> token;
+
+        setParametrization(alta::parameters(_parameters.dimX(), _parameters.dimY(),
+                                            params::parse_input(token),
+                                            _parameters.output_parametrization()));
+    }
+
 	 // N  [double]
     for(int i=0; i<_parameters.dimY(); ++i)
     {
@@ -184,6 +201,8 @@ void retroblinn_function::save_call(std::ostream& out,
     if(is_alta)
     {
 		out << "#FUNC nonlinear_function_retroblinn" << std::endl ;
+		out << "#PARAM " << params::get_name(_parameters.input_parametrization())
+		    << std::endl;
 
 		 for(int i=0; i<_parameters.dimY(); ++i)
 		 {
-- 
2.43.0


From ab94045fcf5e83d33464f87f647222c3dd27818b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:46 +0000
Subject: [PATCH 067/162] fix: typo in the rational approximation of the Walter
 Smith term

---
 sources/plugins/nonlinear_shadowing_walter_smith/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp b/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
index cbf31fe..fce0f94 100644
--- a/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
@@ -136,7 +136,7 @@ WalterSmith::save_body(std::ostream& out, const arguments& args) const
         << "\t } else { "  << std::endl
         << "\t\t " << std::endl
         << "\t\t float num   = (3.535 + 2.181*a)*a;"  << std::endl
-        << "\t\t float denom = (2.267 + 2.577*a)*a + 1.0;" << std::endl
+        << "\t\t float denom = (2.276 + 2.577*a)*a + 1.0;" << std::endl
         << "\t\t return num/denom;" << std::endl
         << "\t }"
         << "}" << std::endl << std::endl;
@@ -331,7 +331,7 @@ double  WalterSmith::shadowTerm( double a ) const
     else
     {
       double const num   = (3.535 + 2.181*a)*a;
-      double const denom = (2.267 + 2.577*a)*a + 1.0;
+      double const denom = (2.276 + 2.577*a)*a + 1.0;
 
       return num / denom;
     }
-- 
2.43.0


From b02d613c02a23627fe2f806db06cf5fd4395d25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:06 +0000
Subject: [PATCH 068/162] fix: Jacobian of the Walter Smith term was not zero
 where the term is constant

---
 .../function.hpp                              | 24 ++++++++++++-------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/sources/plugins/nonlinear_shadowing_walter_smith/function.hpp b/sources/plugins/nonlinear_shadowing_walter_smith/function.hpp
index 600e043..35e2315 100644
--- a/sources/plugins/nonlinear_shadowing_walter_smith/function.hpp
+++ b/sources/plugins/nonlinear_shadowing_walter_smith/function.hpp
@@ -127,7 +127,7 @@ class WalterSmith : public nonlinear_function
      * @param  tan_value The tangent value which either tan( theta_view) or tan(theta_light)
      * @return       the value of the partial derivate 
      */
-    float partialDerivative( float alpha, float tangent_value) const;
+    double partialDerivative( double alpha, double tangent_value) const;
 
   private: // parameters
   vec _alpha; /*!< The roughness parameter. One parameter per output dimension */
@@ -217,16 +217,22 @@ WalterSmith::partialShadowingTerm(vec const & x,
  
 
 inline 
-float
-WalterSmith::partialDerivative( float alpha, float tangent_value) const
+double
+WalterSmith::partialDerivative( double alpha, double tangent_value) const
 {
+  // The shadowing term is constant there
+  if( 1.0 / (alpha * tangent_value) >= 1.6 )
+  {
+    return 0.0;
+  }
+
   //Exported from Maple 
-  float const t1 = tangent_value;
-  float const t2 = alpha * t1;
-  float const t4 = alpha * alpha;
-  float const t5 = t1 * t1;
-  float const t6 = t4 * t5;
-  float t13 = 0.1000e4 * t6 + 0.2276e4 * t2 + 0.2577e4;
+  double const t1 = tangent_value;
+  double const t2 = alpha * t1;
+  double const t4 = alpha * alpha;
+  double const t5 = t1 * t1;
+  double const t6 = t4 * t5;
+  double t13 = 0.1000e4 * t6 + 0.2276e4 * t2 + 0.2577e4;
   t13 *= t13;
   return  -0.1e1 * t1 * (0.4362000e7 * t2 - 0.4145739e7 + 0.3535000e7 * t6) / t13;
 }
-- 
2.43.0


From 3798bf7c830b31f900a5dc24a44210892e64eb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:16 +0000
Subject: [PATCH 069/162] fix: plugins defining classes of the same name
 evaluated each other's code

---
 .../function.cpp                              | 26 +++++++++----------
 .../function.h                                |  6 ++---
 .../rational_function.cpp                     | 14 +++++-----
 .../rational_function.h                       | 26 +++++++++----------
 4 files changed, 36 insertions(+), 36 deletions(-)

diff --git a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
index 9429007..6fd1abd 100644
--- a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
@@ -24,10 +24,10 @@ using namespace alta;
 
 ALTA_DLL_EXPORT function* provide_function(const alta::parameters& params)
 {
-    return new beckmann_function(params);
+    return new retrobeckmann_function(params);
 }
 
-beckmann_function::beckmann_function(const alta::parameters& params)
+retrobeckmann_function::retrobeckmann_function(const alta::parameters& params)
     : nonlinear_function(params.set_input(6, params::CARTESIAN)),
       _use_back_param(true)
 {
@@ -38,11 +38,11 @@ beckmann_function::beckmann_function(const alta::parameters& params)
 
 
 // Overload the function operator
-vec beckmann_function::operator()(const vec& x) const 
+vec retrobeckmann_function::operator()(const vec& x) const 
 {
 	return value(x);
 }
-vec beckmann_function::value(const vec& x) const 
+vec retrobeckmann_function::value(const vec& x) const 
 {
 	double dot;
 	if(_use_back_param)
@@ -78,13 +78,13 @@ vec beckmann_function::value(const vec& x) const
 }
 
 //! Number of parameters to this non-linear function
-int beckmann_function::nbParameters() const 
+int retrobeckmann_function::nbParameters() const 
 {
 	return 2*_parameters.dimY();
 }
 
 //! Get the vector of parameters for the function
-vec beckmann_function::parameters() const 
+vec retrobeckmann_function::parameters() const 
 {
 	vec res(2*_parameters.dimY());
 	for(int i=0; i<_parameters.dimY(); ++i)
@@ -96,7 +96,7 @@ vec beckmann_function::parameters() const
 }
 
 //! \brief get the min values for the parameters
-vec beckmann_function::getParametersMin() const
+vec retrobeckmann_function::getParametersMin() const
 {
 	vec res(2*_parameters.dimY());
 	for(int i=0; i<_parameters.dimY(); ++i)
@@ -109,7 +109,7 @@ vec beckmann_function::getParametersMin() const
 }
 
 //! Update the vector of parameters for the function
-void beckmann_function::setParameters(const vec& p) 
+void retrobeckmann_function::setParameters(const vec& p) 
 {
 	for(int i=0; i<_parameters.dimY(); ++i)
 	{
@@ -121,7 +121,7 @@ void beckmann_function::setParameters(const vec& p)
 //! Obtain the derivatives of the function with respect to the 
 //! parameters
 //! \todo finish. 
-vec beckmann_function::parametersJacobian(const vec& x) const 
+vec retrobeckmann_function::parametersJacobian(const vec& x) const 
 {
 	double dot;
 	if(_use_back_param)
@@ -165,7 +165,7 @@ vec beckmann_function::parametersJacobian(const vec& x) const
     return jac;
 }
 		
-void beckmann_function::bootstrap(const ptr<data> d, const arguments& args)
+void retrobeckmann_function::bootstrap(const ptr<data> d, const arguments& args)
 {
 	for(int i=0; i<_parameters.dimY(); ++i)
 	{
@@ -190,7 +190,7 @@ void beckmann_function::bootstrap(const ptr<data> d, const arguments& args)
 }
 
 //! Load function specific files
-bool beckmann_function::load(std::istream& in)
+bool retrobeckmann_function::load(std::istream& in)
 {
 	// Parse line until the next comment
 	while(in.peek() != '#')
@@ -252,7 +252,7 @@ bool beckmann_function::load(std::istream& in)
 }
 
 
-void beckmann_function::save_call(std::ostream& out, const arguments& args) const
+void retrobeckmann_function::save_call(std::ostream& out, const arguments& args) const
 {
 	bool is_alta   = !args.is_defined("export") || args["export"] == "alta";
 
@@ -290,7 +290,7 @@ void beckmann_function::save_call(std::ostream& out, const arguments& args) cons
 	}
 }
 
-void beckmann_function::save_body(std::ostream& out, const arguments& args) const
+void retrobeckmann_function::save_body(std::ostream& out, const arguments& args) const
 {
     bool is_shader = args["export"] == "shader" || args["export"] == "explorer";
 
diff --git a/sources/plugins/nonlinear_function_retrobeckmann/function.h b/sources/plugins/nonlinear_function_retrobeckmann/function.h
index 0640881..768bcca 100644
--- a/sources/plugins/nonlinear_function_retrobeckmann/function.h
+++ b/sources/plugins/nonlinear_function_retrobeckmann/function.h
@@ -36,12 +36,12 @@ using namespace alta;
  *
  *  \author Laurent Belcour \<laurent.belcour@umontreal.ca\>
  */
-class beckmann_function : public nonlinear_function
+class retrobeckmann_function : public nonlinear_function
 {
 
 	public: // methods
 
-    beckmann_function(const alta::parameters& params);
+    retrobeckmann_function(const alta::parameters& params);
 
 		// Overload the function operator
 		virtual vec operator()(const vec& x) const ;
@@ -80,6 +80,6 @@ class beckmann_function : public nonlinear_function
 		vec _ks, _a; // Lobes data
 		bool _use_back_param;
 
-    beckmann_function() {};
+    retrobeckmann_function() {};
 } ;
 
diff --git a/sources/plugins/rational_function_cosine/rational_function.cpp b/sources/plugins/rational_function_cosine/rational_function.cpp
index 797091a..c0771fc 100644
--- a/sources/plugins/rational_function_cosine/rational_function.cpp
+++ b/sources/plugins/rational_function_cosine/rational_function.cpp
@@ -18,16 +18,16 @@ using namespace alta;
 
 ALTA_DLL_EXPORT function* provide_function(const parameters& params)
 {
-    return new rational_function_legendre(params);
+    return new rational_function_cosine(params);
 }
 
-rational_function_legendre_1d::rational_function_legendre_1d(const parameters& params,
+rational_function_cosine_1d::rational_function_cosine_1d(const parameters& params,
                                                              int np, int nq)
     : rational_function_1d(params, np, nq)
 {
 }
 
-double rational_function_legendre_1d::legendre(double x, int i) const
+double rational_function_cosine_1d::legendre(double x, int i) const
 {
 	if(i == 0)
 	{
@@ -68,7 +68,7 @@ double rational_function_legendre_1d::legendre(double x, int i) const
 }
 
 // Get the p_i and q_j function
-double rational_function_legendre_1d::p(const vec& x, int i) const
+double rational_function_cosine_1d::p(const vec& x, int i) const
 {
 	std::vector<int> deg = index2degree(i);
 	double res = 1.0;
@@ -90,7 +90,7 @@ double rational_function_legendre_1d::p(const vec& x, int i) const
 
 	return res ;
 }
-double rational_function_legendre_1d::q(const vec& x, int i) const 
+double rational_function_cosine_1d::q(const vec& x, int i) const 
 {
 	std::vector<int> deg = index2degree(i);
 	double res = 1.0;
@@ -102,12 +102,12 @@ double rational_function_legendre_1d::q(const vec& x, int i) const
 	return res ;
 }
 
-rational_function_legendre::rational_function_legendre(const parameters& params)
+rational_function_cosine::rational_function_cosine(const parameters& params)
     : rational_function(params)
 {
 }
 
-rational_function_legendre::~rational_function_legendre()
+rational_function_cosine::~rational_function_cosine()
 {
 }
 
diff --git a/sources/plugins/rational_function_cosine/rational_function.h b/sources/plugins/rational_function_cosine/rational_function.h
index 4a37b12..134064e 100644
--- a/sources/plugins/rational_function_cosine/rational_function.h
+++ b/sources/plugins/rational_function_cosine/rational_function.h
@@ -24,13 +24,13 @@
 
 using namespace alta;
 
-class rational_function_legendre_1d : public rational_function_1d
+class rational_function_cosine_1d : public rational_function_1d
 {
 	public: // methods
 
-    rational_function_legendre_1d(const parameters& params,
+    rational_function_cosine_1d(const parameters& params,
                                   int np = 0, int nq = 0);
-		virtual ~rational_function_legendre_1d() {}
+		virtual ~rational_function_cosine_1d() {}
 
 		// Get the p_i and q_j function
 		virtual double p(const vec& x, int i) const ;
@@ -42,7 +42,7 @@ class rational_function_legendre_1d : public rational_function_1d
 		double legendre(double x, int i) const;
 
   private:
-		rational_function_legendre_1d() ;
+		rational_function_cosine_1d() ;
 } ;
 
 /*! \ingroup functions
@@ -53,19 +53,19 @@ class rational_function_legendre_1d : public rational_function_1d
  *
  *  \details 
  *
- *  This class uses the implementation of the \ref rational_function_legendre
+ *  This class uses the implementation of the \ref rational_function_cosine
  *  plugin as a basis. The resulting value is multiplied by the product of the
  *  elevation of the light and view directions.
  *
  *  \author Laurent Belcour \<laurent.belcour@umontreal.ca\>
  */
-class rational_function_legendre : public rational_function
+class rational_function_cosine : public rational_function
 {
 	public: // methods
 
-    rational_function_legendre(const parameters& params);
+    rational_function_cosine(const parameters& params);
 
-		virtual ~rational_function_legendre() ;
+		virtual ~rational_function_cosine() ;
 
 		//! Get the 1D function associated with color channel i. If no one exist, 
 		//! this function allocates a new element. If i > nY, it returns NULL.
@@ -76,7 +76,7 @@ class rational_function_legendre : public rational_function
 			{
 				if(rs[i] == NULL)
 				{
-          rs[i] = new rational_function_legendre_1d(_parameters, np, nq);
+          rs[i] = new rational_function_cosine_1d(_parameters, np, nq);
 
 					vec _min = min();
 					vec _max = max();
@@ -104,22 +104,22 @@ class rational_function_legendre : public rational_function
 
 		//! Update the y-1D function for the ith dimension.
 		//! \note It will test if the 1D function provided is of the dynamic type
-		//! \name rational_function_legendre_1d
+		//! \name rational_function_cosine_1d
 		virtual void update(int i, rational_function_1d* r)
 		{
-			if(dynamic_cast<rational_function_legendre_1d*>(r) != NULL)
+			if(dynamic_cast<rational_function_cosine_1d*>(r) != NULL)
 			{
 				rational_function::update(i, r);
 			}
 			else
 			{
 #ifdef DEBUG
-				std::cerr << "<<ERROR>> the function provided is not of type \"rational_function_legendre\"" << std::endl;
+				std::cerr << "<<ERROR>> the function provided is not of type \"rational_function_cosine\"" << std::endl;
 #endif
 			}
 		}
 
 private:
-		rational_function_legendre() {};
+		rational_function_cosine() {};
 } ;
 
-- 
2.43.0


From 9f10f7e7e630e679a24b1c6643229fe3a684b5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:36 +0000
Subject: [PATCH 070/162] fix: nested brackets in list options were split
 (documented list of functions with their own bootstrap list)

---
 sources/core/args.h | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/sources/core/args.h b/sources/core/args.h
index b845e09..539e5d4 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -37,6 +37,18 @@ class arguments
   private:
     typedef std::pair<const std::string, std::string> pair_type;
 
+    //! \brief number of opening brackets left unmatched in \a s.
+    static int bracket_depth(const std::string& s)
+    {
+      int depth = 0;
+      for(size_t i=0; i<s.size(); ++i)
+      {
+        if(s[i] == '[')      { ++depth; }
+        else if(s[i] == ']') { --depth; }
+      }
+      return depth;
+    }
+
 	public: // functions
 
 		// Constructor and destructor
@@ -73,12 +85,13 @@ class arguments
                 {
                     --i;
                 }
-                else if(next[0] == '[' && next[next.size()-1] != ']')
+                else if(next[0] == '[' && bracket_depth(next) > 0)
                 {
+                    // The argument ends with the bracket matching the first one
                     data.append(next);
 
                     ++i;
-                    while(i < argc && (next.empty() || next[next.size()-1] != ']'))
+                    while(i < argc && bracket_depth(data) > 0)
                     {
                         next = argv[i] ;
                         data.append(" ");
@@ -330,7 +343,12 @@ class arguments
               size_t pos = 1;
               while(pos != std::string::npos)
               {
+                  // Commas inside nested brackets belong to the element
                   size_t ppos = s.find(',', pos);
+                  while(ppos != std::string::npos && bracket_depth(s.substr(pos, ppos-pos)) > 0)
+                  {
+                      ppos = s.find(',', ppos+1);
+                  }
 
                   if(ppos != std::string::npos)
                   {
-- 
2.43.0


From 6e7bf473cac425e1981e99ee942c2be41d05e597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:52 +0000
Subject: [PATCH 071/162] fix: options of the functions were ignored when a sum
 or a product was given a list of initial values

---
 sources/core/args.h       |  6 ++++++
 sources/core/function.cpp | 20 +++++++++++++-------
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/sources/core/args.h b/sources/core/args.h
index 539e5d4..a4deee7 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -175,6 +175,12 @@ class arguments
         _map[key] = val;
     }
 
+    //! \brief forget the value stored under key \a key
+    void remove(const std::string& key)
+    {
+        _map.erase(key);
+    }
+
     //! \brief acces to the string value associated with the parameter
 		//! \a key.
 		//!
diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index 874c8cb..2321d1d 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -560,16 +560,15 @@ void compound_function::bootstrap(const ::ptr<data> d, const arguments& args)
 	{
 		if(args.is_vec("bootstrap"))
 		{
-			vec p = args.get_vec("bootstrap", nbParameters());
-			setParameters(p);
-		
+			// The options of each function (number of lobes, type, ...) define
+			// its parameters: apply them before reading the vector
 			for(unsigned int i=0; i<fs.size(); ++i)
 			{
-				if(fs[i]->nbParameters() == 0)
-				{
-					fs[i]->bootstrap(d, fs_args[i]);
-				}
+				fs[i]->bootstrap(d, fs_args[i]);
 			}
+
+			vec p = args.get_vec("bootstrap", nbParameters());
+			setParameters(p);
       std::cout << "<<DEBUG>> Number of parameters for compound function: " << nbParameters() << std::endl;
       std::cout << "<<INFO>> Will use " << p << " as a bootstrap vector for the compound non-linear function" << std::endl;
 		}
@@ -968,6 +967,13 @@ void product_function::bootstrap(const ptr<data> d, const arguments& args)
 	{
 		if(args.is_vec("bootstrap"))
 		{
+			// The options of each function (number of lobes, type, ...) define
+			// its parameters: apply them before reading the vector
+			arguments options(args);
+			options.remove("bootstrap");
+			f1->bootstrap(d, options);
+			f2->bootstrap(d, options);
+
 			vec p = args.get_vec("bootstrap", nbParameters());
 			setParameters(p);
 		}
-- 
2.43.0


From 4d0571f4c8dc6769ed909de778b75e48c14693aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:52 +0000
Subject: [PATCH 072/162] fix: output parametrization was not saved with a
 function

---
 sources/core/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index 2321d1d..07d6de8 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -147,7 +147,7 @@ void function::save_header(std::ostream& out, const arguments& args) const
 		out << "#CMD " << args.get_cmd() << std::endl;
 		out << "#DIM " << parametrization().dimX() << " " << parametrization().dimY() << std::endl;
 		out << "#PARAM_IN  " << params::get_name(parametrization().input_parametrization()) << std::endl;
-		//out << "#PARAM_OUT " << params::get_name(output_parametrization()) << std::endl;*
+		out << "#PARAM_OUT " << params::get_name(parametrization().output_parametrization()) << std::endl;
 		if(args.is_defined("export-append")) 
 		{
 			out << args["export-append"] << std::endl;
-- 
2.43.0


From 470a55e9ca8d1afd06ed066a1fecf167a2353341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:52 +0000
Subject: [PATCH 073/162] fix: functions saved with --export alta had no header

---
 sources/core/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index 07d6de8..b56fd06 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -141,7 +141,7 @@ void function::save(const std::string& filename, const arguments& args) const
 //! the dimension of the fit. L2 and L_inf distance could be added here.
 void function::save_header(std::ostream& out, const arguments& args) const
 {
-	if(!args.is_defined("export"))
+	if(!args.is_defined("export") || args["export"] == "alta")
 	{
 		out << "#ALTA FUNC HEADER" << std::endl;
 		out << "#CMD " << args.get_cmd() << std::endl;
@@ -342,7 +342,7 @@ bool nonlinear_function::load(std::istream& in)
 
 void nonlinear_function::save_call(std::ostream& out, const arguments& args) const
 {
-	if(!args.is_defined("export"))
+	if(!args.is_defined("export") || args["export"] == "alta")
 	{
 		// Dump a #FUNC nonlinear
 		out << "#FUNC nonlinear_function" << std::endl;
-- 
2.43.0


From 294798efc0ed341a330abe588aa1fdacc4c3601d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:37 +0000
Subject: [PATCH 074/162] fix: shader of the ABC function used the cosine
 instead of one minus the cosine

---
 sources/plugins/nonlinear_function_abc/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_abc/function.cpp b/sources/plugins/nonlinear_function_abc/function.cpp
index b31ceb6..6e851bc 100644
--- a/sources/plugins/nonlinear_function_abc/function.cpp
+++ b/sources/plugins/nonlinear_function_abc/function.cpp
@@ -295,7 +295,7 @@ void abc_function::save_body(std::ostream& out, const arguments& args) const
         out << "\tvec3  H   = normalize(L + V);" << std::endl;
         out << "\tfloat hn  = dot(H,N);" << std::endl;
 		  out << "\t" << std::endl;
-        out << "\treturn a / pow(vec3(1.0f) + b*hn, c);" << std::endl;
+        out << "\treturn a / pow(vec3(1.0f) + b*(1.0f - hn), c);" << std::endl;
         out << "}" << std::endl;
     }
 }
-- 
2.43.0


From c431d2c0bef209c2a52ebd4618abafe595db37d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:37 +0000
Subject: [PATCH 075/162] fix: shader of the Beckmann function was another
 model than the fitted one

---
 .../nonlinear_function_beckmann/function.cpp  | 30 +------------------
 1 file changed, 1 insertion(+), 29 deletions(-)

diff --git a/sources/plugins/nonlinear_function_beckmann/function.cpp b/sources/plugins/nonlinear_function_beckmann/function.cpp
index 5187767..760779f 100644
--- a/sources/plugins/nonlinear_function_beckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_beckmann/function.cpp
@@ -284,41 +284,13 @@ void beckmann_function::save_body(std::ostream& out, const arguments& args) cons
 
     if(is_shader)
     {
-    	//This is the Rational Approximation Code from Walter2007
-    	out << "vec3 g_beckmann(vec3 M, vec3 N, vec3 a)" << std::endl;
-		  out << "{" << std::endl;
-      out << "\tfloat d = dot(M,N);" << std::endl;
-		  out << "\tvec3 c = d / (a * sqrt(1.0f-d));" << std::endl;
-		  out << "\tvec3 r;" << std::endl;
-		  out << "\tif(c.x < 1.6f) {" << std::endl;
-		  out << "\t\tr.x = (3.535*c.x + 2.181*c.x*c.x) / (1 + 2.276*c.x + 2.577*c.x*c.x);" << std::endl;
-		  out << "\t} else {" << std::endl;
-		  out << "\t\tr.x = 1.0f;" << std::endl;
-		  out << "\t}" << std::endl;
-		  out << "\tif(c.y < 1.6f) {" << std::endl;
-		  out << "\t\tr.y = (3.535*c.y + 2.181*c.y*c.y) / (1 + 2.276*c.y + 2.577*c.y*c.y);" << std::endl;
-		  out << "\t} else {" << std::endl;
-		  out << "\t\tr.y = 1.0f;" << std::endl;
-		  out << "\t}" << std::endl;
-		  out << "\tif(c.z < 1.6f) {" << std::endl;
-		  out << "\t\tr.z = (3.535*c.z + 2.181*c.z*c.z) / (1 + 2.276*c.z + 2.577*c.z*c.z);" << std::endl;
-		  out << "\t} else {" << std::endl;
-		  out << "\t\tr.z = 1.0f;" << std::endl;
-		  out << "\t}" << std::endl;
-		  out << "\treturn r;" << std::endl;
-      out << "}" << std::endl;
-
-		  out << std::endl;
-
 		  // This part is the call to beckmann function
       out << "vec3 beckmann(vec3 L, vec3 V, vec3 N, vec3 X, vec3 Y, vec3 ks, vec3 a)" << std::endl;
       out << "{" << std::endl;
       out << "\tvec3  H   = normalize(L + V);" << std::endl;
       out << "\tfloat hn  = dot(H,N);" << std::endl;
-		  out << "\tfloat ln  = dot(L,N);" << std::endl;
-		  out << "\tfloat vn  = dot(V,N);" << std::endl;
 		  out << "\t" << std::endl;
-      out << "\treturn ks / (4 * " << M_PI << " * a*a * ln*vn) * exp((hn*hn - 1.0) / (a*a*hn*hn)) * g_beckmann(L,N,a) * g_beckmann(V,N,a);" << std::endl;
+      out << "\treturn ks / (4 * " << M_PI << " * a*a * hn*hn*hn*hn) * exp((hn*hn - 1.0) / (a*a*hn*hn));" << std::endl;
       out << "}" << std::endl;
     }
 }
-- 
2.43.0


From 7e28556a54e0359a9adaa35919ff0d0b69beb5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:37 +0000
Subject: [PATCH 076/162] fix: shader of the retro Beckmann function was
 another model than the fitted one

---
 .../function.cpp                              | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
index 6fd1abd..487a1d2 100644
--- a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
@@ -298,13 +298,19 @@ void retrobeckmann_function::save_body(std::ostream& out, const arguments& args)
     {
         out << "vec3 retrobeckmann(vec3 L, vec3 V, vec3 N, vec3 X, vec3 Y, vec3 ks, vec3 a)" << std::endl;
         out << "{" << std::endl;
-        out << "\tvec3  R   = 2*dot(V,N)*N - V;" << std::endl;
-        out << "\tvec3  B   = normalize(L + R);" << std::endl;
-        out << "\tfloat bn  = dot(B,N);" << std::endl;
-		  out << "\tfloat ln  = dot(L,N);" << std::endl;
-		  out << "\tfloat vn  = dot(V,N);" << std::endl;
-		  out << "\t" << std::endl;
-        out << "\treturn ks / (4 * " << M_PI << " * a*a * ln*vn) * exp((bn*bn - 1.0) / (a*a*bn*bn));" << std::endl;
+        if(_use_back_param)
+        {
+            out << "\tvec3  R   = 2*dot(V,N)*N - V;" << std::endl;
+            out << "\tvec3  B   = normalize(L + R);" << std::endl;
+            out << "\tfloat bn  = dot(B,N);" << std::endl;
+        }
+        else
+        {
+            out << "\tfloat bn  = dot(L,V);" << std::endl;
+        }
+        out << "\tif(bn <= 0.0) { return vec3(0.0); }" << std::endl;
+        out << "\t" << std::endl;
+        out << "\treturn ks / (4 * " << M_PI << " * a*a * bn*bn*bn*bn) * exp((bn*bn - 1.0) / (a*a*bn*bn));" << std::endl;
         out << "}" << std::endl;
     }
 }
-- 
2.43.0


From b57081136761ffc0656a88d1851136adadfbad6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:37 +0000
Subject: [PATCH 077/162] fix: shader of the retro Blinn function ignored the
 specular coefficient

---
 sources/plugins/nonlinear_function_retroblinn/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_retroblinn/function.cpp b/sources/plugins/nonlinear_function_retroblinn/function.cpp
index 93e1bec..8766889 100644
--- a/sources/plugins/nonlinear_function_retroblinn/function.cpp
+++ b/sources/plugins/nonlinear_function_retroblinn/function.cpp
@@ -245,7 +245,7 @@ void retroblinn_function::save_body(std::ostream& out,
 		  out << "\tvec3 Vp = 2.0f*N*(dot(N,V)) - V;" << std::endl;
 		  out << "\tvec3 K  = normalize(L + Vp);" << std::endl;
         out << "\tvec3 ext_dot = vec3(dot(K,N));" << std::endl;
-        out << "\treturn pow(max(ext_dot, vec3(0,0,0)), Nl);" << std::endl;
+        out << "\treturn ks * pow(max(ext_dot, vec3(0,0,0)), Nl);" << std::endl;
         out << "}" << std::endl;
         out << std::endl;
     }
-- 
2.43.0


From 583c5464ae4d46381bdc741cf6485d8c36affcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:37 +0000
Subject: [PATCH 078/162] fix: shader of the Lafortune function ignored the
 diffuse term and was not parenthesized

---
 .../plugins/nonlinear_function_lafortune/function.cpp  | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sources/plugins/nonlinear_function_lafortune/function.cpp b/sources/plugins/nonlinear_function_lafortune/function.cpp
index 27ef8e7..9e6515b 100644
--- a/sources/plugins/nonlinear_function_lafortune/function.cpp
+++ b/sources/plugins/nonlinear_function_lafortune/function.cpp
@@ -483,6 +483,15 @@ void lafortune_function::save_call(std::ostream& out, const arguments& args) con
     }
     else
     {
+        // Diffuse term
+        out << "(vec3(";
+        for(int i=0; i<_nY; ++i)
+        {
+            out << _kd[i];
+            if(i < _nY-1) { out << ", "; }
+        }
+        out << ") + ";
+
         for(int n=0; n<_n; ++n)
         {
             out << "lafortune(L, V, N, X, Y, vec3(";
@@ -517,6 +526,7 @@ void lafortune_function::save_call(std::ostream& out, const arguments& args) con
             out << "))";
             if(n < _n-1) { out << " + "; }
         }
+        out << ")";
     }
 }
 
-- 
2.43.0


From c6aac23abd8856d5a3a4cc0b4a516fee51505a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:37 +0000
Subject: [PATCH 079/162] fix: shader of the retro Yoo function used undefined
 variables

---
 sources/plugins/nonlinear_function_retroyoo/function.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_retroyoo/function.cpp b/sources/plugins/nonlinear_function_retroyoo/function.cpp
index 2a98a2a..abe320d 100644
--- a/sources/plugins/nonlinear_function_retroyoo/function.cpp
+++ b/sources/plugins/nonlinear_function_retroyoo/function.cpp
@@ -233,7 +233,8 @@ void yoo_function::save_body(std::ostream& out, const arguments& args) const
     {
         out << "vec3 retroyoo(vec3 L, vec3 V, vec3 N, vec3 X, vec3 Y, vec3 kr, vec3 lt)" << std::endl;
         out << "{" << std::endl;
-        out << "\treturn ks / (4 * " << M_PI << " * a*a * ln*vn) * exp((bn*bn - 1.0) / (a*a*bn*bn)) * g_yoo(L,N,a) * g_yoo(V,N,a);" << std::endl;
+        out << "\tfloat q = 2.0 * " << M_PI << " * dot(V,X) / 633.0;" << std::endl;
+        out << "\treturn kr * 3.0 / (16.0 * " << M_PI << ") * (vec3(2.4) + vec3(1.0) / (vec3(1.0) + q*lt*lt)) * (vec3(2.0) - exp(-1.4 * q * lt) / (q*lt));" << std::endl;
         out << "}" << std::endl;
     }
 }
-- 
2.43.0


From def8e8dacfa083a77ad437826690060bf3b960db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:54 +0000
Subject: [PATCH 080/162] fix: shader of the Walter Smith term was not valid
 GLSL

---
 sources/plugins/nonlinear_shadowing_walter_smith/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp b/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
index fce0f94..186d922 100644
--- a/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
@@ -156,13 +156,13 @@ WalterSmith::save_body(std::ostream& out, const arguments& args) const
 
     out << "\t float tan_theta_v = tan( acos( NdotV ) ); " << std::endl
         << std::endl
-        << "\t vec3 geom_term_view(0.0); " << std::endl
+        << "\t vec3 geom_term_view = vec3(0.0); " << std::endl
         << "\t geom_term_view[0] = shadow_approx_rational( 1.0 / (alpha[0]*tan_theta_v)) ;"<< std::endl
         << "\t geom_term_view[1] = shadow_approx_rational( 1.0 / (alpha[1]*tan_theta_v)) ;"<< std::endl
         << "\t geom_term_view[2] = shadow_approx_rational( 1.0 / (alpha[2]*tan_theta_v)) ;"<< std::endl
         << std::endl
         << "\t float tan_theta_l = tan( acos( NdotL ) ); " << std::endl
-        << "\t vec3 geom_term_light(0.0); " << std::endl    
+        << "\t vec3 geom_term_light = vec3(0.0); " << std::endl    
         << "\t geom_term_light[0] = shadow_approx_rational( 1.0 / (alpha[0]*tan_theta_l)) ;" << std::endl
         << "\t geom_term_light[1] = shadow_approx_rational( 1.0 / (alpha[1]*tan_theta_l)) ;" << std::endl
         << "\t geom_term_light[2] = shadow_approx_rational( 1.0 / (alpha[2]*tan_theta_l)) ;" << std::endl
-- 
2.43.0


From bd9c06f26707930a83fb2ec2c41c012a888cc1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:54 +0000
Subject: [PATCH 081/162] fix: exporting the Smith term as a shader aborted

---
 .../nonlinear_shadowing_smith/function.cpp        | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/sources/plugins/nonlinear_shadowing_smith/function.cpp b/sources/plugins/nonlinear_shadowing_smith/function.cpp
index d665b87..0c89f3b 100644
--- a/sources/plugins/nonlinear_shadowing_smith/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_smith/function.cpp
@@ -106,9 +106,6 @@ void smith::save_body(std::ostream& out, const arguments& args) const
 
     if(is_shader)
     {
-        std::cerr << " FINISH IMPLEMENTATION AT " << __FILE__ << " " << __LINE__ << std::endl;
-        assert(0);
-
         // Generate code for erf function
         // This code is the same as the one in common.hpp 
         out << "/** The Error function in GLSL **/" << std::endl;
@@ -121,12 +118,12 @@ void smith::save_body(std::ostream& out, const arguments& args) const
             << "\t const float a5 = 1.061405429;" << std::endl
             << "\t const float  p = 0.3275911;" << std::endl
             << "\t // Save the sign of a_x " << std::endl
-            << "\t int sign = 1;" << std::endl
-            << "\t if( a_x < 0 ) { sign = -1; }" << std::endl
+            << "\t float sgn = 1.0;" << std::endl
+            << "\t if( a_x < 0.0 ) { sgn = -1.0; }" << std::endl
             << "\t const float x = abs( a_x); " << std::endl
             << "\t const float t = 1.0 / (1.0 + p*x); " << std::endl
             << "\t const float y = 1.0 - (((((a5*t + a4)*t) + a3)*t + a2)*t + a1)*t*exp(-x*x);" << std::endl
-            << "\t return sign * y" << std::endl
+            << "\t return sgn * y;" << std::endl
             
             << "}" << std::endl;
 
@@ -137,6 +134,12 @@ void smith::save_body(std::ostream& out, const arguments& args) const
         out << "{" << std::endl;
         out << "\t const float SQRT_ONE_OVER_TWO_PI = 0.398942280401439;" << std::endl;
         out << "\t const float SQRT_2_OVER_2 = 0.70710678118655;" << std::endl;
+        out << "\t float tl = sqrt(dot(L,X)*dot(L,X) + dot(L,Y)*dot(L,Y));" << std::endl;
+        out << "\t if( tl == 0.0 ) { return vec3(1.0); }" << std::endl;
+        out << "\t vec3 r = dot(L,N) / (tl*R);" << std::endl;
+        out << "\t vec3 e = vec3(erf(SQRT_2_OVER_2*r.x), erf(SQRT_2_OVER_2*r.y), erf(SQRT_2_OVER_2*r.z));" << std::endl;
+        out << "\t vec3 A = SQRT_ONE_OVER_TWO_PI * exp(-0.5*r*r) / r - 0.5*(vec3(1.0) - e);" << std::endl;
+        out << "\t return vec3(1.0) / (vec3(1.0) + A);" << std::endl;
         out << "}" << std::endl;
         out << std::endl;        
     
-- 
2.43.0


From ae615e89b6d8d6c6537c5bf1868d61acbd334991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:23 +0000
Subject: [PATCH 082/162] fix: shader of a sum of functions multiplied by
 another was not a valid expression

---
 sources/core/function.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index b56fd06..b69d47e 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -804,20 +804,34 @@ void compound_function::save_call(std::ostream& out, const arguments& args) cons
 	// For C++ export, the function call should be done before hand and
 	// the line should look like:
 	//   res += call_i(x);
+	//
+	// For shaders, the sum is an expression: it can be multiplied.
+	if(is_shader)
+	{
+		out << "(";
+	}
 	for(unsigned int i=0; i<fs.size(); ++i)
 	{
-		if(i != 0 && (is_cpp || is_matlab || is_shader))
+		if(i != 0 && (is_cpp || is_matlab))
 		{
 			out << "\tres += ";
 		}
+		else if(i != 0 && is_shader)
+		{
+			out << " + ";
+		}
 
 		fs[i]->save_call(out, args);
 
-		if(is_cpp || is_matlab || is_shader)
+		if(is_cpp || is_matlab)
 		{
 			out << ";" << std::endl;
 		}
 	}
+	if(is_shader)
+	{
+		out << ")";
+	}
 
 	function::save_call(out, args);
 }
@@ -952,7 +966,7 @@ void product_function::save_call(std::ostream& out, const arguments& args) const
 
 	if(is_cpp || is_matlab || is_shader)
 	{
-		out << ")" << std::endl;
+		out << ")";
 	}
 
 	function::save_call(out, args);
-- 
2.43.0


From be8ac6067f2cca0aa1b232dc54607e15ffaf1fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:33 +0000
Subject: [PATCH 083/162] fix: shaders of functions with several lobes of the
 same kind defined them many times

---
 sources/core/function.cpp | 49 ++++++++++++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 8 deletions(-)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index b69d47e..1fb47d2 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -16,6 +16,8 @@
 #include "plugins_manager.h"
 
 #include <cassert>
+#include <set>
+#include <sstream>
 
 using namespace alta;
 
@@ -781,13 +783,44 @@ void compound_function::setParameters(const vec& p)
 	}
 }
 		
-void compound_function::save_body(std::ostream& out, const arguments& args) const
+// Save the definitions used by a list of functions. A definition shared by
+// many functions is written once.
+static void save_bodies(const std::vector<nonlinear_function*>& fs,
+                        std::ostream& out, const arguments& args,
+                        std::set<std::string>& done)
 {
 	for(unsigned int i=0; i<fs.size(); ++i)
 	{
-		fs[i]->save_body(out, args);
-		out << std::endl;
+		std::vector<nonlinear_function*> parts;
+		if(compound_function* c = dynamic_cast<compound_function*>(fs[i]))
+		{
+			for(unsigned int k=0; k<c->size(); ++k) { parts.push_back((*c)[k]); }
+			save_bodies(parts, out, args, done);
+		}
+		else if(product_function* p = dynamic_cast<product_function*>(fs[i]))
+		{
+			parts.push_back(p->first());
+			parts.push_back(p->second());
+			save_bodies(parts, out, args, done);
+		}
+		else
+		{
+			std::ostringstream body;
+			fs[i]->save_body(body, args);
+			if(done.insert(body.str()).second)
+			{
+				out << body.str() << std::endl;
+			}
+		}
 	}
+}
+
+void compound_function::save_body(std::ostream& out, const arguments& args) const
+{
+	std::vector<nonlinear_function*> parts;
+	for(unsigned int i=0; i<fs.size(); ++i) { parts.push_back(fs[i].get()); }
+	std::set<std::string> done;
+	save_bodies(parts, out, args, done);
 
 	function::save_body(out, args);
 }
@@ -929,11 +962,11 @@ bool product_function::load(std::istream& in)
 
 void product_function::save_body(std::ostream& out, const arguments& args) const
 {
-	f1->save_body(out, args);
-	out << std::endl;
-	
-	f2->save_body(out, args);
-	out << std::endl;
+	std::vector<nonlinear_function*> parts;
+	parts.push_back(f1.get());
+	parts.push_back(f2.get());
+	std::set<std::string> done;
+	save_bodies(parts, out, args, done);
 
 	function::save_body(out, args);
 }
-- 
2.43.0


From 37b6d295e6fa12d48444fb7c677f818209d4a084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:42 +0000
Subject: [PATCH 084/162] fix: shaders of functions with lobes of different
 types evaluated one of the types only

---
 .../plugins/nonlinear_function_retrobeckmann/function.cpp | 4 ++--
 .../nonlinear_function_spherical_gaussian/function.cpp    | 8 +++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
index 487a1d2..2fe1dd1 100644
--- a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
@@ -273,7 +273,7 @@ void retrobeckmann_function::save_call(std::ostream& out, const arguments& args)
 	}
 	else
 	{
-		out << "retrobeckmann(L, V, N, X, Y, vec3(";
+		out << (_use_back_param ? "backbeckmann" : "retrobeckmann") << "(L, V, N, X, Y, vec3(";
 		for(int i=0; i<_parameters.dimY(); ++i)
 		{
 			out << _ks[i];
@@ -296,7 +296,7 @@ void retrobeckmann_function::save_body(std::ostream& out, const arguments& args)
 
     if(is_shader)
     {
-        out << "vec3 retrobeckmann(vec3 L, vec3 V, vec3 N, vec3 X, vec3 Y, vec3 ks, vec3 a)" << std::endl;
+        out << "vec3 " << (_use_back_param ? "backbeckmann" : "retrobeckmann") << "(vec3 L, vec3 V, vec3 N, vec3 X, vec3 Y, vec3 ks, vec3 a)" << std::endl;
         out << "{" << std::endl;
         if(_use_back_param)
         {
diff --git a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
index 7b358ee..dfd67e6 100644
--- a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
+++ b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
@@ -346,6 +346,9 @@ bool spherical_gaussian_function::load(std::istream& in)
 }
 
 
+// Names of the lobe types in the saved files
+static const char* const names[] = {"mirror", "half", "retro", "back", "moment"};
+
 void spherical_gaussian_function::save_call(std::ostream& out, const arguments& args) const
 {
     bool is_alta   = !args.is_defined("export") || args["export"] == "alta";
@@ -355,7 +358,6 @@ void spherical_gaussian_function::save_call(std::ostream& out, const arguments&
     {
 		out << "#FUNC nonlinear_function_spherical_gaussian" << std::endl ;
 
-		static const char* names[] = {"mirror", "half", "retro", "back", "moment"};
 		out << "#TYPE " << names[_type] << std::endl;
 
          for(int i=0; i<nY; ++i)
@@ -373,7 +375,7 @@ void spherical_gaussian_function::save_call(std::ostream& out, const arguments&
 	 }
 	 else
 	 {
-		 out << "spherical_gaussian(L, V, N, X, Y, vec3(";
+		 out << "spherical_gaussian_" << names[_type] << "(L, V, N, X, Y, vec3(";
          for(int i=0; i<nY; ++i)
 		 {
 			 out << _ks[i];
@@ -398,7 +400,7 @@ void spherical_gaussian_function::save_body(std::ostream& out, const arguments&
 
     if(is_shader)
     {
-        out << "vec3 spherical_gaussian(vec3 L, vec3 V, vec3 N, vec3 X, vec3 Y, vec3 ks, vec3 Nl)" << std::endl;
+        out << "vec3 spherical_gaussian_" << names[_type] << "(vec3 L, vec3 V, vec3 N, vec3 X, vec3 Y, vec3 ks, vec3 Nl)" << std::endl;
         out << "{" << std::endl;
 
 		  switch(_type)
-- 
2.43.0


From 14603d55e20e74a739140edd58fe92e4519752fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:18 +0000
Subject: [PATCH 085/162] fix: truncated MERL files were loaded as complete,
 others terminated the program

---
 sources/plugins/data_io/merl.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/sources/plugins/data_io/merl.cpp b/sources/plugins/data_io/merl.cpp
index 5042c55..c44ca70 100644
--- a/sources/plugins/data_io/merl.cpp
+++ b/sources/plugins/data_io/merl.cpp
@@ -426,17 +426,20 @@ private: //methods
 static bool read_brdf(std::istream& input, double* &brdf)
 {
 		int dims[3];
-    input.read((char *) &dims, sizeof dims);
-		int n = dims[0] * dims[1] * dims[2];
-		if (n != BRDF_SAMPLING_RES_THETA_H *
-        BRDF_SAMPLING_RES_THETA_D *
-        BRDF_SAMPLING_RES_PHI_D / 2)
+    if (!input.read((char *) &dims, sizeof dims)
+        || dims[0] != BRDF_SAMPLING_RES_THETA_H
+        || dims[1] != BRDF_SAMPLING_RES_THETA_D
+        || dims[2] != BRDF_SAMPLING_RES_PHI_D / 2)
 		{
         fprintf(stderr, "Dimensions don't match\n");
         return false;
 		}
 
-    input.read((char *) brdf, 3 * n * sizeof(double));
+    if (!input.read((char *) brdf, 3 * MERL_SIZE * sizeof(double)))
+		{
+        fprintf(stderr, "Missing values\n");
+        return false;
+		}
 
 		return true;
 }
@@ -455,7 +458,8 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
     if(!read_brdf(input, result->brdf))
 		{
         std::cerr << "<<ERROR>> unable to load the data as a MERL file" << std::endl ;
-        throw;
+        delete result;
+        return NULL;
 		}
 
     return result;
-- 
2.43.0


From c8ae371ae6779cdeafdf3a61b89b4e465e9484e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:18 +0000
Subject: [PATCH 086/162] fix: UTIA files were saved as text without
 separators, which cannot be loaded

---
 sources/plugins/data_io/utia.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/sources/plugins/data_io/utia.cpp b/sources/plugins/data_io/utia.cpp
index 065f52d..1b24ebe 100644
--- a/sources/plugins/data_io/utia.cpp
+++ b/sources/plugins/data_io/utia.cpp
@@ -140,13 +140,7 @@ public:
 			delete[] temp;
 		} else {
 			std::ofstream stream(filename.c_str(), std::ios_base::out | std::ios_base::binary);
-			int count = 0;
-			for(int isp=0;isp<planes;isp++)	{
-			  for(int ni=0;ni<nti*npi;ni++)
-			    for(int nv=0;nv<ntv*npv;nv++) {
-			    	stream << Bd[count++];
-			    }
-			}
+			stream.write((const char*)Bd, planes*nPerPlane*sizeof(double));
 		}
 	}
 
-- 
2.43.0


From 0745bd39e096afbc0579cfd7e5a2f10a805a3862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:18 +0000
Subject: [PATCH 087/162] fix: images that are invalid or of the wrong size
 were used as UTIA or slice data

---
 sources/plugins/data_io/slice.cpp |  4 +++-
 sources/plugins/data_io/utia.cpp  | 17 +++++++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/sources/plugins/data_io/slice.cpp b/sources/plugins/data_io/slice.cpp
index 3041d51..6b05bee 100644
--- a/sources/plugins/data_io/slice.cpp
+++ b/sources/plugins/data_io/slice.cpp
@@ -273,7 +273,9 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
 {
     int width, height, slice = 1;
     double *data;
-    t_EXR_IO<double>::LoadEXR(input, width, height, data);
+    if(!t_EXR_IO<double>::LoadEXR(input, width, height, data)) {
+        return NULL;
+    }
 
     BrdfSlice* result = new BrdfSlice(args, width, height, slice, data);
 
diff --git a/sources/plugins/data_io/utia.cpp b/sources/plugins/data_io/utia.cpp
index 1b24ebe..a6fd8ea 100644
--- a/sources/plugins/data_io/utia.cpp
+++ b/sources/plugins/data_io/utia.cpp
@@ -320,7 +320,16 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
 	if(filename.substr(filename.find_last_of(".") + 1) == "exr") {
 		// EXR data reading
 		double *temp; int W, H;
-    	t_EXR_IO<double>::LoadEXR(input, W, H, temp);
+    	if(!t_EXR_IO<double>::LoadEXR(input, W, H, temp)) {
+			delete result;
+			return NULL;
+		}
+		if(W != result->npi*result->nti || H != result->npv*result->ntv) {
+			std::cerr << "<<ERROR>> the image does not have the size of UTIA files" << std::endl;
+			delete[] temp;
+			delete result;
+			return NULL;
+		}
 
 		// Data copy
 		for(int i=0; i<H; ++i)
@@ -337,7 +346,11 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
 	} else {
 		int count = result->planes * result->nti * result->npi
                                    * result->ntv * result->npv;
-		input.read((char*)result->Bd, count*sizeof(double));
+		if(!input.read((char*)result->Bd, count*sizeof(double))) {
+			std::cerr << "<<ERROR>> truncated UTIA file" << std::endl;
+			delete result;
+			return NULL;
+		}
 		std::cout << "<<INFO>> Successfully read binary BRDF file" << std::endl;
 	}
 
-- 
2.43.0


From 9495e6fb91fb05b223cb12851c91038d1ead4550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:18 +0000
Subject: [PATCH 088/162] fix: slices returned uninitialised values or read out
 of bounds outside of their domain

---
 sources/plugins/data_io/slice.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/plugins/data_io/slice.cpp b/sources/plugins/data_io/slice.cpp
index 6b05bee..669ec87 100644
--- a/sources/plugins/data_io/slice.cpp
+++ b/sources/plugins/data_io/slice.cpp
@@ -173,9 +173,9 @@ class BrdfSlice : public data {
 
 			// Safeguard. We can use either asserting or returning zero in case
 			// the query values are not within reach.
-			if(_x[0] > _max[0] || x[0] < _min[0] || x[1] > _max[1] || x[1] < _min[1] ||
-				alta::isnan(_x[0]) || alta::isnan(x[1])) {
-					vec res(3);
+			if(_x[0] > _max[0] || _x[0] < _min[0] || _x[1] > _max[1] || _x[1] < _min[1] ||
+				alta::isnan(_x[0]) || alta::isnan(_x[1])) {
+					vec res = vec::Zero(3);
 					return res;
 			}
 			/*
-- 
2.43.0


From e61d14322fd7e76a9036bb0d25f04fc1b8836c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:18 +0000
Subject: [PATCH 089/162] fix: slices read out of bounds at the upper bound of
 their domain

---
 sources/plugins/data_io/slice.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/data_io/slice.cpp b/sources/plugins/data_io/slice.cpp
index 669ec87..71c8ca8 100644
--- a/sources/plugins/data_io/slice.cpp
+++ b/sources/plugins/data_io/slice.cpp
@@ -182,8 +182,9 @@ class BrdfSlice : public data {
 			assert(_x[0] <= 1.0 && x[0] >= 0.0);
 			assert(_x[1] <= 1.0 && x[1] >= 0.0);
 			*/
-			const int i  = floor((_x[0]-_min[0]) * _width  / (_max[0] - _min[0]));
-			const int j  = floor((_x[1]-_min[1]) * _height / (_max[1] - _min[1]));
+			// The upper bound of the domain belongs to the last cell
+			const int i  = std::min<int>(floor((_x[0]-_min[0]) * _width  / (_max[0] - _min[0])), _width-1);
+			const int j  = std::min<int>(floor((_x[1]-_min[1]) * _height / (_max[1] - _min[1])), _height-1);
 			const int k  = 1;
 			//const int k  = floor(_x[2] * _slice  / (M_PI));
 			const int id = (i + j*_width)*k;
-- 
2.43.0


From 6611c67c720e912ffaf6021c61e37d1b7eacc3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:18 +0000
Subject: [PATCH 090/162] fix: slices did not report their domain

---
 sources/plugins/data_io/slice.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sources/plugins/data_io/slice.cpp b/sources/plugins/data_io/slice.cpp
index 71c8ca8..eb61518 100644
--- a/sources/plugins/data_io/slice.cpp
+++ b/sources/plugins/data_io/slice.cpp
@@ -74,7 +74,6 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args);
 class BrdfSlice : public data {
   private:
 		const int _width, _height, _slice;
-		vec _max, _min;
 		double _phi;
 		double* _data;
 		bool _reverse;
-- 
2.43.0


From 5a8984b39d23331d21578a21028b2848959c979e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:18 +0000
Subject: [PATCH 091/162] fix: failure to write an image was reported as a
 success

---
 sources/plugins/data_io/EXR_IO.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/data_io/EXR_IO.h b/sources/plugins/data_io/EXR_IO.h
index 408c67a..73dd21f 100644
--- a/sources/plugins/data_io/EXR_IO.h
+++ b/sources/plugins/data_io/EXR_IO.h
@@ -177,7 +177,7 @@ class t_EXR_IO
 			if (ret != TINYEXR_SUCCESS) {
 				std::cerr << "<<ERROR>> Unable to save to EXR file" << std::endl;
 				std::cerr << "<<ERROR>> " << err << std::endl;
-				return ret;
+				return false;
 			}
 
 			free(header.channels);
-- 
2.43.0


From eb8bd0915ee9359f01e66c2d3044e03dd30b2fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:15 +0000
Subject: [PATCH 092/162] fix: truncated or malformed ASTM files were read
 forever or terminated the program

---
 sources/plugins/data_io/astm.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/sources/plugins/data_io/astm.cpp b/sources/plugins/data_io/astm.cpp
index 16950cc..2bfee81 100644
--- a/sources/plugins/data_io/astm.cpp
+++ b/sources/plugins/data_io/astm.cpp
@@ -148,19 +148,27 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
     auto params = compute_parameters(vars);
 
     // Check data size from header
-    assert(header.is_defined("NUM_POINTS"));
-    int size = header.get_int("NUM_POINTS", 0);
+    int size = header.get_int("NUM_POINTS", -1);
+    if(vars.empty() || size < 0)
+    {
+        std::cerr << "<<ERROR>> invalid header in ASTM file" << std::endl;
+        return NULL;
+    }
 
     // Size of the data
     size_t n = params.dimX() + params.dimY();
-    double* data = new double[size * n];
+    std::shared_ptr<double> content(new double[size * n],
+                                    std::default_delete<double[]>());
+    double* data = content.get();
 
     for (size_t i = 0; i < size * n; i += n)
     {
-        assert(input.good());
-
 	do {
-	    std::getline(input, line);
+	    if(!std::getline(input, line))
+	    {
+	        std::cerr << "<<ERROR>> truncated ASTM file" << std::endl;
+	        return NULL;
+	    }
 	} while(line.size() == 0 || line.rfind(',') == std::string::npos);
 
         std::replace(line.begin(), line.end(), ',', ' ');
@@ -169,11 +177,15 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
         // a vec of dim parametrization().dimX() + parametrization().dimY().
         std::stringstream stream(line);
         for(int j = 0; j < n; ++j) {
-            stream >> data[i + j];
+            if(!(stream >> data[i + j]))
+            {
+                std::cerr << "<<ERROR>> malformed line in ASTM file: " << line << std::endl;
+                return NULL;
+            }
         }
     }
 
-    return new ASTM(params, size, std::shared_ptr<double>(data));
+    return new ASTM(params, size, content);
 }
 
 }
-- 
2.43.0


From a2355b3fe3ca99f1f762baa39d310c3e6a1ee77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:17 +0000
Subject: [PATCH 093/162] fix: data2data dereferenced NULL when its input could
 not be loaded

---
 sources/softs/data2data/main.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/sources/softs/data2data/main.cpp b/sources/softs/data2data/main.cpp
index b1b4df3..c2230fe 100644
--- a/sources/softs/data2data/main.cpp
+++ b/sources/softs/data2data/main.cpp
@@ -359,7 +359,8 @@ int main(int argc, char** argv)
 
 	if(!d_in)
 	{
-		std::cout << "<<INFO>> Input data will be treated as ALTA format" << std::endl;
+		std::cerr << "<<ERROR>> Cannot import data" << std::endl ;
+		return EXIT_FAILURE;
 	}
 
 
@@ -375,12 +376,7 @@ int main(int argc, char** argv)
                                               args) ;
 	if(!d_out)
 	{
-		std::cout << "<<INFO>> Data will be outputed to ALTA format" << std::endl;
-	}
-
-	if(!d_in || !d_out)
-	{
-		std::cerr << "<<ERROR>> Cannot import or export data" << std::endl ;
+		std::cerr << "<<ERROR>> Cannot export data" << std::endl ;
 		return EXIT_FAILURE;
 	}
 
-- 
2.43.0


From 2e21f3d535cee121d1cc60f0f2ca92b53e3d3fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:17 +0000
Subject: [PATCH 094/162] fix: data that could not be written terminated
 data2data or were reported as written

---
 sources/plugins/data_io/merl.cpp  | 2 ++
 sources/plugins/data_io/slice.cpp | 2 +-
 sources/plugins/data_io/utia.cpp  | 8 ++++++--
 sources/softs/data2data/main.cpp  | 8 +++++++-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/sources/plugins/data_io/merl.cpp b/sources/plugins/data_io/merl.cpp
index c44ca70..97e6ef1 100644
--- a/sources/plugins/data_io/merl.cpp
+++ b/sources/plugins/data_io/merl.cpp
@@ -113,6 +113,8 @@ public: // methods
 	void save(const std::string& filename) const
 	{
 		FILE *f = fopen(filename.c_str(), "wb");
+		if(f == NULL)
+			throw std::ios_base::failure("unable to save file");
 
 		int dims[3];
 		dims[0] = BRDF_SAMPLING_RES_THETA_H;
diff --git a/sources/plugins/data_io/slice.cpp b/sources/plugins/data_io/slice.cpp
index eb61518..725896e 100644
--- a/sources/plugins/data_io/slice.cpp
+++ b/sources/plugins/data_io/slice.cpp
@@ -121,7 +121,7 @@ class BrdfSlice : public data {
 		{
 			if(!t_EXR_IO<double>::SaveEXR(filename.c_str(), _width, _slice*_height, _data))
 			{
-				std::cerr << "<<ERROR>> unable to save image file" << std::endl;
+				throw std::ios_base::failure("unable to save image file");
 			}
 		}
 
diff --git a/sources/plugins/data_io/utia.cpp b/sources/plugins/data_io/utia.cpp
index a6fd8ea..5257162 100644
--- a/sources/plugins/data_io/utia.cpp
+++ b/sources/plugins/data_io/utia.cpp
@@ -136,10 +136,14 @@ public:
 	    			temp[3*indexEXR + 1] = Bd[indexUTIA + 1*nPerPlane];
 	    			temp[3*indexEXR + 2] = Bd[indexUTIA + 2*nPerPlane];
 	  			}
-	  		t_EXR_IO<double>::SaveEXR(filename.c_str(), W, H, temp, 3);
+	  		const bool saved = t_EXR_IO<double>::SaveEXR(filename.c_str(), W, H, temp, 3);
 			delete[] temp;
+			if(!saved)
+				throw std::ios_base::failure("unable to save image file");
 		} else {
-			std::ofstream stream(filename.c_str(), std::ios_base::out | std::ios_base::binary);
+			std::ofstream stream;
+			stream.exceptions(std::ios_base::failbit);
+			stream.open(filename.c_str(), std::ios_base::out | std::ios_base::binary);
 			stream.write((const char*)Bd, planes*nPerPlane*sizeof(double));
 		}
 	}
diff --git a/sources/softs/data2data/main.cpp b/sources/softs/data2data/main.cpp
index c2230fe..7618e9b 100644
--- a/sources/softs/data2data/main.cpp
+++ b/sources/softs/data2data/main.cpp
@@ -404,7 +404,13 @@ int main(int argc, char** argv)
       CATCH_FILE_IO_ERROR(args["output"]);
   }
   else
-      d_out->save(args["output"]);
+  {
+      try
+      {
+          d_out->save(args["output"]);
+      }
+      CATCH_FILE_IO_ERROR(args["output"]);
+  }
 
 	return EXIT_SUCCESS;
 }
-- 
2.43.0


From 8739c45c771c8d2049360e234ec5e6df743e12bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:12 +0000
Subject: [PATCH 095/162] fix: grids used an uninitialised parametrization when
 none is given as an option

---
 sources/plugins/data_interpolants/grid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/data_interpolants/grid.cpp b/sources/plugins/data_interpolants/grid.cpp
index abc5818..7b1d4b9 100644
--- a/sources/plugins/data_interpolants/grid.cpp
+++ b/sources/plugins/data_interpolants/grid.cpp
@@ -163,8 +163,8 @@ class BrdfGrid : public vertical_segment {
 
          // Allow to load a different parametrization depending on the
          // parameters provided.
-         params::input in_param;
-         params::output out_param;
+         params::input in_param = parametrization().input_parametrization();
+         params::output out_param = parametrization().output_parametrization();
          int nX, nY;
 
          if(args.is_defined("PARAM_IN")) {
-- 
2.43.0


From b006027fc2f131234696aa6d50cdcf24530129ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:12 +0000
Subject: [PATCH 096/162] fix: rows of grids were not those of the requested
 parametrization and size

---
 sources/plugins/data_interpolants/grid.cpp | 68 +++++++++++++---------
 1 file changed, 41 insertions(+), 27 deletions(-)

diff --git a/sources/plugins/data_interpolants/grid.cpp b/sources/plugins/data_interpolants/grid.cpp
index 7b1d4b9..c36882c 100644
--- a/sources/plugins/data_interpolants/grid.cpp
+++ b/sources/plugins/data_interpolants/grid.cpp
@@ -152,20 +152,21 @@ class BrdfGrid : public vertical_segment {
 
       std::vector<int> _size;
 
-      BrdfGrid(size_t size, const parameters& params, const arguments& args)
-        : vertical_segment(params, size)
+      BrdfGrid(const parameters& params, const arguments& args)
+        : vertical_segment(grid_parameters(params, args),
+                           grid_rows(grid_parameters(params, args), args))
       {
          initialize(args);
       }
 
-      // FIXME: Move this to constructor.
-      void initialize(const arguments& args, bool preallocate = true) {
+      // Allow to load a different parametrization depending on the
+      // parameters provided.
+      static parameters grid_parameters(const parameters& params,
+                                        const arguments& args) {
 
-         // Allow to load a different parametrization depending on the
-         // parameters provided.
-         params::input in_param = parametrization().input_parametrization();
-         params::output out_param = parametrization().output_parametrization();
-         int nX, nY;
+         params::input in_param = params.input_parametrization();
+         params::output out_param = params.output_parametrization();
+         int nX = params.dimX(), nY = params.dimY();
 
          if(args.is_defined("PARAM_IN")) {
             in_param = params::parse_input(args["PARAM_IN"]);
@@ -176,39 +177,52 @@ class BrdfGrid : public vertical_segment {
 
          if(args.is_defined("PARAM_OUT")) {
             out_param = params::parse_output(args["PARAM_OUT"]);
+            nY = params::dimension(out_param);
          }
-         nY = params::dimension(out_param);
 
-         // Get the grid size, by default use an 10^dimX grid
-         int N = 1;
-         if(args.is_defined("grid-size") && args.is_vec("grid-size")) {
-            _size = args.get_vec<int>("grid-size");
-            assert(_size.size() == nX);
+         return parameters(nX, nY, in_param, out_param);
+      }
 
-            for(int i=0; i<nX; ++i) {
-               N *= _size[i];
-            }
+      // Get the grid size, by default use an 10^dimX grid
+      static std::vector<int> grid_size(const parameters& params,
+                                        const arguments& args) {
+         if(args.is_defined("grid-size") && args.is_vec("grid-size")) {
+            const std::vector<int> size = args.get_vec<int>("grid-size");
+            assert(size.size() == params.dimX());
+            return size;
          } else {
-            for(int i=0; i<nX; ++i) {
-               _size.push_back(10);
-               N *= 10;
-            }
+            return std::vector<int>(params.dimX(), 10);
+         }
+      }
+
+      static size_t grid_rows(const parameters& params,
+                              const arguments& args) {
+         size_t N = 1;
+         for(int n : grid_size(params, args)) {
+            N *= n;
          }
+         return N;
+      }
+
+      void initialize(const arguments& args, bool preallocate = true) {
+
+         const params::input in_param = parametrization().input_parametrization();
+
+         _size = grid_size(parametrization(), args);
          _min = get_min(in_param);
          _max = get_max(in_param);
 
+         const int N = size();
+
          // Preallocate the grid data
          if(preallocate) {
             // Set the abscissa data
-            vec x(parametrization().dimX() + parametrization().dimY());
+            vec x = vec::Zero(parametrization().dimX() + parametrization().dimY());
             for(int n=0; n<N; ++n) {
                get_abscissa(n, x);
                set(n, x);
             }
          }
-
-         parameters p(nX, nY, in_param, out_param);
-         setParametrization(p);
       }
 
       inline int get_index(const vec& x) const {
@@ -359,7 +373,7 @@ ALTA_DLL_EXPORT data* provide_data(size_t size,
                                    const parameters& params,
                                    const arguments& args)
 {
-    return new BrdfGrid(size, params, args);
+    return new BrdfGrid(params, args);
 }
 
 ALTA_DLL_EXPORT data* load_data(std::istream& input,
-- 
2.43.0


From c45a6b79719c982693c2a4f1bb48211b569ff358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:12 +0000
Subject: [PATCH 097/162] fix: grids were evaluated out of bounds outside and
 at the upper bound of their domain

---
 sources/plugins/data_interpolants/grid.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/data_interpolants/grid.cpp b/sources/plugins/data_interpolants/grid.cpp
index c36882c..b1cf96b 100644
--- a/sources/plugins/data_interpolants/grid.cpp
+++ b/sources/plugins/data_interpolants/grid.cpp
@@ -245,6 +245,7 @@ class BrdfGrid : public vertical_segment {
          std::vector<int> k(parametrization().dimX());
          for(int i = 0; i < parametrization().dimX(); ++i) {
             k[i] = floor((_size[i]-1)*(x[i]-_min[i]) / (_max[i]-_min[i]));
+            k[i] = std::max(0, std::min(k[i], _size[i]-1));
          }
          return k;
       }
@@ -273,7 +274,10 @@ class BrdfGrid : public vertical_segment {
          // Evaluate the abscissa from the vector indices and
          // the min and max. The grid exactly map [0..1]
          for(int i = 0; i < parametrization().dimX(); ++i) {
-            x[i] = _min[i] + (_max[i]-_min[i]) * k[i] / (_size[i]-1);
+            x[i] = _min[i];
+            if(_size[i] > 1) {
+               x[i] += (_max[i]-_min[i]) * k[i] / (_size[i]-1);
+            }
          }
       }
 
@@ -358,7 +362,7 @@ class BrdfGrid : public vertical_segment {
                cid_s = cid_s*_size[i] + ((bitset) ? 1 : 0);
             }
 
-            if(id+cid_s > size())
+            if(id+cid_s >= size())
                cid_s = 0;
 
             y += alpha * get(id+cid_s).segment(parametrization().dimX(),
-- 
2.43.0


From de13bf710edd9cd8558c64f52db13b7e8a97c6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:12 +0000
Subject: [PATCH 098/162] fix: loading a grid aborted the program

---
 sources/plugins/data_interpolants/grid.cpp | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/sources/plugins/data_interpolants/grid.cpp b/sources/plugins/data_interpolants/grid.cpp
index b1cf96b..34f9113 100644
--- a/sources/plugins/data_interpolants/grid.cpp
+++ b/sources/plugins/data_interpolants/grid.cpp
@@ -383,21 +383,12 @@ ALTA_DLL_EXPORT data* provide_data(size_t size,
 ALTA_DLL_EXPORT data* load_data(std::istream& input,
                                 const arguments& args)
 {
-    arguments header = arguments::parse_header(input);
-
 #ifdef __GNUC__
 # warning FIXME we are not returning a "BrdfGrid"
 #endif
     // We should probably rewrite this class as a transformation from 'data'
     // to 'data'.
 
-    abort();
-#if 0
-    BrdfGrid* result = new BrdfGrid(args);
-
-    // XXX: Should be done in constructor.
-    result->initialize(header, false);
-#endif
-
-    return load_data_from_text(input, header);
+    std::cerr << "<<ERROR>> loading grids is not supported" << std::endl;
+    return NULL;
 }
-- 
2.43.0


From 29e2d9542a3ec0acda2cdf11f4c7f19c957243e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:12 +0000
Subject: [PATCH 099/162] fix: RBF interpolant returned uninitialised rows and
 saved nothing

---
 sources/plugins/data_interpolants/rbf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/data_interpolants/rbf.cpp b/sources/plugins/data_interpolants/rbf.cpp
index 01a4ca9..78efa3c 100644
--- a/sources/plugins/data_interpolants/rbf.cpp
+++ b/sources/plugins/data_interpolants/rbf.cpp
@@ -122,13 +122,13 @@ class rbf_interpolant : public data
 
 		virtual void save(const std::string& filename) const
 		{
+			_data->save(filename);
 		}
 
 		// Acces to data
 		virtual vec get(int id) const
 		{
-			vec res(parametrization().dimX() + parametrization().dimY()) ;
-			return res ;
+			return _data->get(id);
 		}
 		virtual vec operator[](int i) const
 		{
-- 
2.43.0


From 3ad315a7a02f9577904a451d94bf1812401ef229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:12 +0000
Subject: [PATCH 100/162] fix: RBF interpolant of data that cannot be loaded
 dereferenced NULL

---
 sources/plugins/data_interpolants/rbf.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/plugins/data_interpolants/rbf.cpp b/sources/plugins/data_interpolants/rbf.cpp
index 78efa3c..56b4e77 100644
--- a/sources/plugins/data_interpolants/rbf.cpp
+++ b/sources/plugins/data_interpolants/rbf.cpp
@@ -219,6 +219,7 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
     // Load the data
     ptr<data> proxied = plugins_manager::load_data("vertical_segment",
                                                    input, args);
+    if(!proxied) return NULL;
 
     return new rbf_interpolant(proxied);
 }
-- 
2.43.0


From 4ee29465e92fceb293f02da32ae0ba83f256cbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:04 +0000
Subject: [PATCH 101/162] fix: lower bound of the last coordinate of
 ISOTROPIC_TL_TV_PROJ_DPHI slices was not that of the projection

---
 sources/plugins/data_io/slice.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sources/plugins/data_io/slice.cpp b/sources/plugins/data_io/slice.cpp
index 725896e..7764d90 100644
--- a/sources/plugins/data_io/slice.cpp
+++ b/sources/plugins/data_io/slice.cpp
@@ -213,8 +213,7 @@ class BrdfSlice : public data {
 
 			// Fill the first two dimension unless the parametrization is a
 			// projected one then it will fill the three components.
-			if(parametrization().input_parametrization() == params::ISOTROPIC_TL_TV_PROJ_DPHI ||
-				parametrization().input_parametrization() == params::ISOTROPIC_TV_TL_DPHI) {
+			if(parametrization().input_parametrization() == params::ISOTROPIC_TV_TL_DPHI) {
 				res[0] = -0.5*M_PI ;
 				res[1] = -0.5*M_PI ;
 			} else if(parametrization().input_parametrization() == params::ISOTROPIC_TL_TV_PROJ_DPHI ||
-- 
2.43.0


From d4408a08ece5db094b8d62b0d8fa354393d734ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:55 +0000
Subject: [PATCH 102/162] fix: grids evaluated above their domain blended the
 value with that of an unrelated row

---
 sources/plugins/data_interpolants/grid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/data_interpolants/grid.cpp b/sources/plugins/data_interpolants/grid.cpp
index 34f9113..2b61748 100644
--- a/sources/plugins/data_interpolants/grid.cpp
+++ b/sources/plugins/data_interpolants/grid.cpp
@@ -342,7 +342,7 @@ class BrdfGrid : public vertical_segment {
          vec alphas(parametrization().dimX());
          for(int i = 0; i < parametrization().dimX(); ++i) {
             const auto xdiff = (_size[i]-1) * (x[i]-x0[i]) / (_max[i]-_min[i]);
-            alphas[i] = clamp(xdiff, 0.0, 1.0);
+            alphas[i] = (k[i] == _size[i]-1) ? 0.0 : clamp(xdiff, 0.0, 1.0);
             assert(alphas[i] >= 0.0 && alphas[i] <= 1.0);
          }
 
-- 
2.43.0


From 3881979cf611ee60e83c40bcee9858c8b772f9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:16 +0000
Subject: [PATCH 103/162] fix: truncated EXR images were completed with zeros
 and loaded

---
 sources/plugins/data_io/EXR_IO.h | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/sources/plugins/data_io/EXR_IO.h b/sources/plugins/data_io/EXR_IO.h
index 73dd21f..8442589 100644
--- a/sources/plugins/data_io/EXR_IO.h
+++ b/sources/plugins/data_io/EXR_IO.h
@@ -12,6 +12,9 @@
 // STL includes
 #include <stdexcept>
 #include <cassert>
+#include <istream>
+#include <iterator>
+#include <vector>
 
 // TinyEXR includes
 #define TINYEXR_IMPLEMENTATION
@@ -35,16 +38,8 @@ class t_EXR_IO
 		static bool LoadEXR(std::istream& input, int& W,int& H, FType *& pix,int nC=3)
 		{
 			/* Convert the input std::istream into an unsigned char array */
-			std::vector<unsigned char> _memory;
-			size_t _n = 0, _m = 0;
-			while(input.good()) {
-				if(_n == _m) {
-					_m += 256;
-					_memory.resize(_m);
-				}
-
-				_memory[_n++] = (unsigned char)input.get();
-			}
+			const std::vector<unsigned char> _memory((std::istreambuf_iterator<char>(input)),
+			                                         std::istreambuf_iterator<char>());
 
 			/* Check the different part of loading */
 			int _r = -1;
@@ -52,7 +47,7 @@ class t_EXR_IO
 
 			/* Load the EXR version using TinyEXR */
 			EXRVersion _version;
-			_r = ParseEXRVersionFromMemory(&_version, &_memory[0], _memory.size());
+			_r = ParseEXRVersionFromMemory(&_version, _memory.data(), _memory.size());
 			if(_r != TINYEXR_SUCCESS) {
 				std::cerr << "<<ERROR>> Could not load EXR version from stream" << std::endl;
 				return false;
@@ -63,7 +58,7 @@ class t_EXR_IO
 			/* Load the EXR header */
 			EXRHeader _header;
   			InitEXRHeader(&_header);
-			_r = ParseEXRHeaderFromMemory(&_header, &_version, &_memory[0], _memory.size(), &_err);
+			_r = ParseEXRHeaderFromMemory(&_header, &_version, _memory.data(), _memory.size(), &_err);
 			if(_r != TINYEXR_SUCCESS) {
 				std::cerr << "<<ERROR>> Could not load EXR header from stream" << std::endl;
 				std::cerr << "<<ERROR>> " << _err << std::endl;
@@ -81,7 +76,7 @@ class t_EXR_IO
 			EXRImage _image;
   			InitEXRImage(&_image);
 
-			_r = LoadEXRImageFromMemory(&_image, &_header, &_memory[0], _memory.size(), &_err);
+			_r = LoadEXRImageFromMemory(&_image, &_header, _memory.data(), _memory.size(), &_err);
 			if (_r != TINYEXR_SUCCESS) {
 				std::cerr << "<<ERROR>> Could not load EXR image from stream" << std::endl;
 				std::cerr << "<<ERROR>> " << _err << std::endl;
-- 
2.43.0


From 6f0dcbb9f934048903dc649fb129ad42b744ce0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:03 +0000
Subject: [PATCH 104/162] fix: error metrics with a mask counted the masked
 entries and wrote outside their matrices

---
 sources/core/metrics.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/sources/core/metrics.cpp b/sources/core/metrics.cpp
index 782f917..9cc1130 100644
--- a/sources/core/metrics.cpp
+++ b/sources/core/metrics.cpp
@@ -62,7 +62,7 @@ int errors::checkMaskSize(const data* ref, const data* mask) {
    int nb_elems = 0;
    for(auto i=0; i<ref->size(); i++) {
       // If the mask value is set to zero, skip the current entry
-      if(mask->get(i).tail(1)[0] == 0.0) {
+      if(mask->get(i).tail(1)[0] != 0.0) {
          ++nb_elems;
       }
    }
@@ -90,6 +90,9 @@ void errors::evaluate(const data* inp,
    // Is there a mask function to be applied
    const bool has_mask = mask != nullptr;
 
+   // Row of the matrices to fill: masked entries are left out
+   int row = 0;
+
    // Evaluate the input data at each position of data_x configuration
    for(auto i=0; i<ref->size(); i++) {
 
@@ -117,8 +120,8 @@ void errors::evaluate(const data* inp,
                          inp->parametrization().input_parametrization(),
                          dat_x.data());
 
-         ref_y.row(i) = ref_xy.tail(nY);
-         inp_y.row(i) = inp->value(dat_x);
+         ref_y.row(row) = ref_xy.tail(nY);
+         inp_y.row(row) = inp->value(dat_x);
          /*
          params::convert(inp->value(dat_x).data(),
                          inp->output_parametrization(),
@@ -128,9 +131,10 @@ void errors::evaluate(const data* inp,
                          inp_y.row(i).data());
          */
       } else {
-         ref_y.row(i).setZero();
-         inp_y.row(i).setZero();
+         ref_y.row(row).setZero();
+         inp_y.row(row).setZero();
       }
+      ++row;
    }
 }
 
-- 
2.43.0


From 3eb8c53d32caf64828841ca51cf156f86eeac731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:03 +0000
Subject: [PATCH 105/162] fix: fit2stat saved the light-weighted errors under
 the light-view-weighted labels

---
 sources/softs/fit2stat/fit2stat.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/softs/fit2stat/fit2stat.cpp b/sources/softs/fit2stat/fit2stat.cpp
index dea5bcf..1213030 100644
--- a/sources/softs/fit2stat/fit2stat.cpp
+++ b/sources/softs/fit2stat/fit2stat.cpp
@@ -667,8 +667,8 @@ main(int argc, char* argv[])
         fwriter << "RMSE :" << rmse << std::endl;
         fwriter << "MSE * cos(theta_light) :" << w_cosine_light_mse << std::endl;
         fwriter << "RMSE * cos(theta_light) :" << w_cosine_light_rmse << std::endl;
-        fwriter << "MSE * cos(theta_light) * cos(theta_view) :" << w_cosine_light_mse << std::endl;
-        fwriter << "RMSE * cos(theta_light) cos(theta_view)  :" << w_cosine_light_rmse << std::endl;
+        fwriter << "MSE * cos(theta_light) * cos(theta_view) :" << w_cosine_light_view_mse << std::endl;
+        fwriter << "RMSE * cos(theta_light) cos(theta_view)  :" << w_cosine_light_view_rmse << std::endl;
         fwriter << std::endl;
       }
       else
-- 
2.43.0


From 0b26c20247ad396d4b80cc659cc5d72580c932b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:31 +0000
Subject: [PATCH 106/162] fix: fit2stat weighted by the view cosine what it
 reports as weighted by the light cosine

---
 sources/softs/fit2stat/fit2stat.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/softs/fit2stat/fit2stat.cpp b/sources/softs/fit2stat/fit2stat.cpp
index 1213030..c7e05ea 100644
--- a/sources/softs/fit2stat/fit2stat.cpp
+++ b/sources/softs/fit2stat/fit2stat.cpp
@@ -331,8 +331,8 @@ void computeCosineFactorsFromData( ptr<data> const & data,
     for( unsigned int i=0; i < data->size(); i++)
     {
       data_x = (data->get(i)).head( data->parametrization().dimX() );
-      cosine_theta_light[i] = data_x[2];
-      cosine_theta_view[i]  = data_x[5];
+      cosine_theta_light[i] = data_x[5];
+      cosine_theta_view[i]  = data_x[2];
     }
   }
   else
-- 
2.43.0


From fb96c61a382552791621be591e38324b3f25aec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:31 +0000
Subject: [PATCH 107/162] fix: fit2stat aborted on functions whose
 parametrization is not cartesian

---
 sources/softs/fit2stat/fit2stat.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/sources/softs/fit2stat/fit2stat.cpp b/sources/softs/fit2stat/fit2stat.cpp
index c7e05ea..0f43381 100644
--- a/sources/softs/fit2stat/fit2stat.cpp
+++ b/sources/softs/fit2stat/fit2stat.cpp
@@ -337,7 +337,19 @@ void computeCosineFactorsFromData( ptr<data> const & data,
   }
   else
   {
-    NOT_IMPLEMENTED();
+    // Other parametrizations go through cartesian coordinates
+    vec data_x = vec::Zero( data->parametrization().dimX() );
+    vec cart   = vec::Zero( 6 );
+
+    for( int i=0; i < data->size(); i++)
+    {
+      data_x = (data->get(i)).head( data->parametrization().dimX() );
+      params::convert( &data_x[0],
+                       data->parametrization().input_parametrization(),
+                       params::CARTESIAN, &cart[0] );
+      cosine_theta_light[i] = cart[5];
+      cosine_theta_view[i]  = cart[2];
+    }
   }
 }
 
-- 
2.43.0


From 2dbe490979769783072542bd7a3f9d0642bf79b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:05 +0000
Subject: [PATCH 108/162] fix: quadratic programs without inequality divided by
 zero

---
 external/quadprog++/QuadProg++.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/external/quadprog++/QuadProg++.cc b/external/quadprog++/QuadProg++.cc
index ed390c4..6261d87 100644
--- a/external/quadprog++/QuadProg++.cc
+++ b/external/quadprog++/QuadProg++.cc
@@ -280,7 +280,7 @@ double solve_quadprog_with_guess(Ref<const MatrixXd> L, Ref<const VectorXd> g0,
   bool done_with_current_subset = false;
   long flops0 = 0, flops1 = 0;
   int iter = 0;
-  int nb_chunks = (m+chunk_size-1)/chunk_size;
+  int nb_chunks = chunk_size > 0 ? (m+chunk_size-1)/chunk_size : 0;
   int nb_satisfied_chunks = 0;
   while(iter<=10*m) // make sure we do not run into an infinite loop
   {
-- 
2.43.0


From 7524bc03a136b95765c0c542af045d0643908628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:05 +0000
Subject: [PATCH 109/162] fix: quadratic programs stopped by the iteration
 limit were taken as solved

---
 sources/plugins/rational_fitters/quadratic_program.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sources/plugins/rational_fitters/quadratic_program.h b/sources/plugins/rational_fitters/quadratic_program.h
index 196a806..f22e01a 100644
--- a/sources/plugins/rational_fitters/quadratic_program.h
+++ b/sources/plugins/rational_fitters/quadratic_program.h
@@ -139,7 +139,9 @@ class quadratic_program
          // Compute the solution
          const double cost = QuadProgPP::solve_quadprog(G, g, CE, ce, CI, ci, v);
 
-         bool solves_qp = !(cost == std::numeric_limits<double>::infinity());
+         // The solver returns infinity for infeasible programs and the largest
+         // double when it runs out of iterations.
+         bool solves_qp = cost < std::numeric_limits<double>::max();
          return solves_qp;
       }
 
-- 
2.43.0


From 33f51bb765d3a522f73d0806c5c9e45915a99c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:05 +0000
Subject: [PATCH 110/162] fix: quadratic programs of rational fits had an
 uninitialised linear term

---
 sources/plugins/rational_fitters/quadratic_program.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/rational_fitters/quadratic_program.h b/sources/plugins/rational_fitters/quadratic_program.h
index f22e01a..4f7abec 100644
--- a/sources/plugins/rational_fitters/quadratic_program.h
+++ b/sources/plugins/rational_fitters/quadratic_program.h
@@ -99,7 +99,7 @@ class quadratic_program
          const int n = CI.cols();
 
          Eigen::MatrixXd G (m, m) ;
-         Eigen::VectorXd g (m) ;
+         Eigen::VectorXd g = Eigen::VectorXd::Zero(m) ;
          Eigen::VectorXd ci(n) ;
          Eigen::MatrixXd CE(m, 0) ;
          Eigen::VectorXd ce ;
-- 
2.43.0


From d8fbe698347c0246600a6262045e34420e636e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:44 +0000
Subject: [PATCH 111/162] fix: the WorstSetFirst schedule of quadratic programs
 overlooked violated constraints

---
 external/quadprog++/QuadProg++.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/external/quadprog++/QuadProg++.cc b/external/quadprog++/QuadProg++.cc
index 6261d87..6ff13bd 100644
--- a/external/quadprog++/QuadProg++.cc
+++ b/external/quadprog++/QuadProg++.cc
@@ -131,12 +131,11 @@ void partial_sort(ValuesType &values, MatrixType &M, VectorType &m, int start, i
   typedef typename ValuesType::Index Index;
   using std::swap;
   Index mid;
-  Index n = values.size()-start;
   Index first, last ;
 
-  ncut--; // to fit the zero-based indices
+  ncut += start-1; // index of the last of the ncut entries that follow start
   first = start;
-  last = n-1;
+  last = values.size()-1;
   if (ncut < first || ncut > last ) return;
 
   do {
-- 
2.43.0


From 003337217613c839972f5f298e9258e7265f3487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:33 +0000
Subject: [PATCH 112/162] fix: growing windows of one constraint never grew and
 the quadratic program never ended

---
 external/quadprog++/QuadProg++.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/external/quadprog++/QuadProg++.cc b/external/quadprog++/QuadProg++.cc
index 6ff13bd..693a0b8 100644
--- a/external/quadprog++/QuadProg++.cc
+++ b/external/quadprog++/QuadProg++.cc
@@ -342,7 +342,7 @@ double solve_quadprog_with_guess(Ref<const MatrixXd> L, Ref<const VectorXd> g0,
           // in this case, let's enlarge the current window size, and re-start sliding from the head,
           // until the window covers the entire set of constriants
           chunk_start = 0;
-          chunk_size = std::min(m,int(chunk_size*scheduling.grow_factor));
+          chunk_size = std::min(m,std::max(chunk_size+1,int(chunk_size*scheduling.grow_factor)));
           continue;
         }
         else
-- 
2.43.0


From f6c40d607642b24b7f8dcb8573d7971cfbad9e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:53 +0000
Subject: [PATCH 113/162] fix: rational_fitter_quadprog reported success when
 the solver ran out of iterations

---
 sources/plugins/rational_fitters/quadprog.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sources/plugins/rational_fitters/quadprog.cpp b/sources/plugins/rational_fitters/quadprog.cpp
index e1f4f1b..79e68b9 100644
--- a/sources/plugins/rational_fitters/quadprog.cpp
+++ b/sources/plugins/rational_fitters/quadprog.cpp
@@ -386,7 +386,9 @@ class rational_fitter_quadprog : public fitter
                Xf << std::setprecision(16) << x[k] << "\n";
          }
 
-         bool solves_qp = !(cost == std::numeric_limits<double>::infinity());
+         // The solver returns infinity for infeasible programs and the largest
+         // double when it runs out of iterations.
+         bool solves_qp = cost < std::numeric_limits<double>::max();
          for(int i=0; i<np+nq; ++i)
          {
             const double v = x[i];
-- 
2.43.0


From 1982b24c2cddaaad1db142439b304484d14521ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:53 +0000
Subject: [PATCH 114/162] fix: rational_fitter_quadprog read outside its
 constraints with large scheduling chunks

---
 sources/plugins/rational_fitters/quadprog.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/rational_fitters/quadprog.cpp b/sources/plugins/rational_fitters/quadprog.cpp
index 79e68b9..f974a50 100644
--- a/sources/plugins/rational_fitters/quadprog.cpp
+++ b/sources/plugins/rational_fitters/quadprog.cpp
@@ -339,7 +339,7 @@ class rational_fitter_quadprog : public fitter
             scheduling.initWorstSetFirst(N,2*M);
          }
          if(_scheduling_chunk_size>0)
-            scheduling.initial_chunk_size = _scheduling_chunk_size;
+            scheduling.initial_chunk_size = std::min(_scheduling_chunk_size, 2*M);
 
          if(_export_qp)
          {
-- 
2.43.0


From 5b5e9153d8513f516114bbb694692c5f422cf13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:53 +0000
Subject: [PATCH 115/162] fix: rational_fitter_eigen missed exact fits whose
 null eigenvalue is rounded below zero

---
 sources/plugins/rational_fitters/eigen.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/rational_fitters/eigen.cpp b/sources/plugins/rational_fitters/eigen.cpp
index 2e2997f..d9e247d 100644
--- a/sources/plugins/rational_fitters/eigen.cpp
+++ b/sources/plugins/rational_fitters/eigen.cpp
@@ -180,8 +180,10 @@ class rational_fitter_eigen : public fitter
 				double min_val = std::numeric_limits<double>::max() ;
 				for(int i=0; i<solver.eigenvalues().size(); ++i)
 				{
-					double value = solver.eigenvalues()[i] ;
-					if(value >= 0 && value < min_val)
+					// M is positive semi-definite: negative eigen values are
+					// null up to rounding
+					double value = std::abs(solver.eigenvalues()[i]) ;
+					if(value < min_val)
 					{
 						min_id  = i ;
 						min_val = value ;
-- 
2.43.0


From a75dce6da6a493c1a333139bbeba8d371d24fc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:53 +0000
Subject: [PATCH 116/162] fix: rational_fitter_parallel scrambled data without
 confidence intervals

---
 .../rational_fitters/quadprog_parallel.cpp    | 23 +++++++++++--------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/sources/plugins/rational_fitters/quadprog_parallel.cpp b/sources/plugins/rational_fitters/quadprog_parallel.cpp
index f9da136..56d6266 100644
--- a/sources/plugins/rational_fitters/quadprog_parallel.cpp
+++ b/sources/plugins/rational_fitters/quadprog_parallel.cpp
@@ -110,22 +110,25 @@ class rational_fitter_parallel : public fitter
             {
                const vec x = dat->get(i);
 
-               for(int k=0; k<x.size(); ++k) {
-                  content[i + k] = x[k];
-               }
-               for(int k=0; k<dat->parametrization().dimY(); ++k) {
-                  content[i + k + dat->parametrization().dimX() + dat->parametrization().dimY()] =
-                     (1.0 - args.get_float("dt", 0.1)) * x[k + dat->parametrization().dimX()];
+               // Each row stores X, Y and the lower and upper bounds of Y
+               double* row = content + i*elem_size;
+               const int nx = dat->parametrization().dimX();
+               const int ny = dat->parametrization().dimY();
+
+               for(int k=0; k<nx+ny; ++k) {
+                  row[k] = x[k];
                }
-               for(int k=0; k<dat->parametrization().dimY(); ++k) {
-                  content[i + k + dat->parametrization().dimX() + 2*dat->parametrization().dimY()] =
-                     (1.0 + args.get_float("dt", 0.1)) * x[k + dat->parametrization().dimX()];
+               for(int k=0; k<ny; ++k) {
+                  const double y  = x[nx + k];
+                  const double dt = args.get_float("dt", 0.1) * std::abs(y);
+                  row[nx + ny + k]   = y - dt;
+                  row[nx + 2*ny + k] = y + dt;
                }
             }
 
             ptr<vertical_segment> vs(new vertical_segment(dat->parametrization(),
                      dat->size(),
-                     std::shared_ptr<double>(content)));
+                     std::shared_ptr<double>(content, std::default_delete<double[]>())));
 
             d = vs;
          }
-- 
2.43.0


From 2ef05341c01a5bf49bd918509e5fd1dfc03884a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:53 +0000
Subject: [PATCH 117/162] fix: rational_fitter_parallel gave up before solving
 with all its constraints

---
 sources/plugins/rational_fitters/quadprog_parallel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/rational_fitters/quadprog_parallel.cpp b/sources/plugins/rational_fitters/quadprog_parallel.cpp
index 56d6266..ce37223 100644
--- a/sources/plugins/rational_fitters/quadprog_parallel.cpp
+++ b/sources/plugins/rational_fitters/quadprog_parallel.cpp
@@ -351,7 +351,7 @@ class rational_fitter_parallel : public fitter
 #endif
                return false;
             }
-         } while(qp.nb_constraints() < 2*m);
+         } while(qp.nb_constraints() <= 2*m);
 
          return false;
       }
-- 
2.43.0


From 2bd7a28f6e424c7452a90319aee461f92cb4955e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:53 +0000
Subject: [PATCH 118/162] fix: rational_fitter_parallel ignored
 --nb-starting-points

---
 sources/plugins/rational_fitters/quadprog_parallel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/rational_fitters/quadprog_parallel.cpp b/sources/plugins/rational_fitters/quadprog_parallel.cpp
index ce37223..52dee30 100644
--- a/sources/plugins/rational_fitters/quadprog_parallel.cpp
+++ b/sources/plugins/rational_fitters/quadprog_parallel.cpp
@@ -142,7 +142,7 @@ class rational_fitter_parallel : public fitter
          const int _max_np = args.get_int("np", _min_np);
          std::cout << "<<INFO>> N in  [" << _min_np << ", " << _max_np << "]"  << std::endl ;
 
-         const int nb_starting_points = args.get_int("nb-starting-points", 100);
+         nb_starting_points = args.get_int("nb-starting-points", 100);
          std::cout << "<<INFO>> number of data point used in start: " << nb_starting_points << std::endl;
 
          const int  step      = args.get_int("np-step", 1);
@@ -303,7 +303,7 @@ class rational_fitter_parallel : public fitter
 
          // Starting with only a nb_starting_points vertical segments
          std::list<unsigned int> training_set;
-         const int di = std::max((m-1) / (nb_starting_points-1), 1);
+         const int di = std::max((m-1) / std::max(nb_starting_points-1, 1), 1);
          for(int i=0; i<m; ++i)
          {
             if(i % di == 0)
-- 
2.43.0


From 9dc673fd7c965b0fa8297e4d8efd79b11b8889fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:57 +0000
Subject: [PATCH 119/162] fix: concurrent quadratic programs wrote the same
 global vector

---
 external/quadprog++/QuadProg++.cc | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/external/quadprog++/QuadProg++.cc b/external/quadprog++/QuadProg++.cc
index 693a0b8..fb3aa09 100644
--- a/external/quadprog++/QuadProg++.cc
+++ b/external/quadprog++/QuadProg++.cc
@@ -159,8 +159,6 @@ void partial_sort(ValuesType &values, MatrixType &M, VectorType &m, int start, i
   } while (mid != ncut );
 }
 
-VectorXd g_u;
-
 double solve_quadprog_with_guess(Ref<const MatrixXd> L, Ref<const VectorXd> g0,
                                  Ref<const MatrixXd> CE, Ref<const VectorXd> ce0,
                                  Ref<const MatrixXd> CI_, Ref<const VectorXd> ci0_,
@@ -270,8 +268,6 @@ double solve_quadprog_with_guess(Ref<const MatrixXd> L, Ref<const VectorXd> g0,
 //       //u[i] = r[i] = d[i] = z[i] = 0;
 //       add_constraint(R, J, d, iq, R_norm);
 //     }
-//     if(active_set->size()>0)
-//       u.head(iq+1) = g_u.head(iq+1);
 //     //u[iq] = r[iq] = d[iq] = z[iq] = 0;
 //   }
 
@@ -583,8 +579,6 @@ double solve_quadprog_with_guess(Ref<const MatrixXd> L, Ref<const VectorXd> g0,
     return std::numeric_limits<double>::max();
   }
 
-  g_u = u;
-
   if(active_set)
     *active_set = A.head(iq);
 
-- 
2.43.0


From 7844b9b5c93ec1b8395a06ba05976411426b07b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:33 +0000
Subject: [PATCH 120/162] fix: nonlinear_fitter_ceres initialises functions
 without free parameters

---
 sources/plugins/nonlinear_fitter_ceres/fitter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
index 202a7ce..26a33a2 100644
--- a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
@@ -133,6 +133,9 @@ bool nonlinear_fitter_ceres::fit_data(const ptr<data>& d, ptr<function>& fit, co
     }
 
 
+	 /* Bootstrap the function */
+	 nf->bootstrap(d, args);
+
 #ifndef DEBUG
 	 std::cout << "<<DEBUG>> number of parameters: " << nf->nbParameters() << std::endl;
 #endif
@@ -141,9 +144,6 @@ bool nonlinear_fitter_ceres::fit_data(const ptr<data>& d, ptr<function>& fit, co
 		 return true;
 	 }
 
-	 /* Bootstrap the function */
-	 nf->bootstrap(d, args);
-
 	 /* the following starting values provide a rough fit. */
 	 vec p = nf->parameters();
 
-- 
2.43.0


From 42ead06b5c528c0fdd8a8dde8a7533e284820d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:33 +0000
Subject: [PATCH 121/162] fix: nonlinear_fitter_ceres gradient and parameter
 tolerances set the tolerance they name

---
 sources/plugins/nonlinear_fitter_ceres/fitter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
index 26a33a2..77a053b 100644
--- a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
@@ -213,13 +213,13 @@ void nonlinear_fitter_ceres::set_parameters(const arguments& args)
     std::string const GRADIENT_TOLERANCE_OPTION = "ceres-gradient-tolerance";
     if( args.is_defined(GRADIENT_TOLERANCE_OPTION))
     {
-      options.function_tolerance = args.get_double(GRADIENT_TOLERANCE_OPTION, 1e-10); //Default value = 1e-10
+      options.gradient_tolerance = args.get_double(GRADIENT_TOLERANCE_OPTION, 1e-10); //Default value = 1e-10
     }
 
     std::string const PARAMETER_TOLERANCE_OPTION = "ceres-parameter-tolerance";
     if( args.is_defined(PARAMETER_TOLERANCE_OPTION))
     {
-      options.function_tolerance = args.get_double(PARAMETER_TOLERANCE_OPTION, 1e-8); //Default value = 1e-8
+      options.parameter_tolerance = args.get_double(PARAMETER_TOLERANCE_OPTION, 1e-8); //Default value = 1e-8
     }
 
 
-- 
2.43.0


From ab3083727f3040629638f45eb3159b36978b9d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:33 +0000
Subject: [PATCH 122/162] fix: nonlinear_fitter_ceres uses the derivative of
 the log residual in logarithmic fits

---
 sources/plugins/nonlinear_fitter_ceres/fitter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
index 77a053b..1a801b5 100644
--- a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
@@ -74,7 +74,7 @@ class CeresFunctor : public ceres::CostFunction
 
 			if(dy != NULL)
 			{
-				df(_di, dy);
+				df(_yi, dy);
 			}
 
 			return true;
@@ -82,7 +82,7 @@ class CeresFunctor : public ceres::CostFunction
 
 		// The parameter of the function _f should be set prior to this function
 		// call. If not it will produce undesirable results.
-		virtual void df(const vec& di, double ** fjac) const
+		virtual void df(const vec& yi, double ** fjac) const
 		{
 			// Get the jacobian of the function at position x_i for the current
 			// set of parameters (set prior to function call)
@@ -95,7 +95,7 @@ class CeresFunctor : public ceres::CostFunction
 				// Fill the columns of the matrix
 				for(int j=0; j<_f->nbParameters(); ++j)
 				{
-                    fjac[0][i*_f->nbParameters() + j] = - ((_log_fit) ? _jac[i*_f->nbParameters() + j]/(1.0 + di[i]) : _jac[i*_f->nbParameters() + j]);
+                    fjac[0][i*_f->nbParameters() + j] = - ((_log_fit) ? _jac[i*_f->nbParameters() + j]/(1.0 + yi[i]) : _jac[i*_f->nbParameters() + j]);
 				}
          }
 		}
-- 
2.43.0


From 82180761d9f991d054e27c4b12a86f82b2ca839d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:33 +0000
Subject: [PATCH 123/162] fix: nonlinear_shadowing_smith has a finite
 derivative at its zero bound

---
 sources/plugins/nonlinear_shadowing_smith/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_shadowing_smith/function.cpp b/sources/plugins/nonlinear_shadowing_smith/function.cpp
index 0c89f3b..21129c8 100644
--- a/sources/plugins/nonlinear_shadowing_smith/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_smith/function.cpp
@@ -237,7 +237,7 @@ vec smith::parametersJacobian(const vec& x) const
 				  const double mu = x[5] / sqrt(x[3]*x[3] + x[4]*x[4]);
 				  const double r = mu / w[i];
 
-				  jac[j*_parameters.dimY() + i] = - v[i]*v[i] * exp(-0.5 * r*r) / (r * w[i] * sqrt(2.0 * M_PI)) ;
+				  jac[j*_parameters.dimY() + i] = - v[i]*v[i] * exp(-0.5 * r*r) / (mu * sqrt(2.0 * M_PI)) ;
 			  }
 			  else 
 			  {
-- 
2.43.0


From dd78a24df6480bc3300982381f6e3a164b4db072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:33 +0000
Subject: [PATCH 124/162] fix: nonlinear_fitter_nlopt stops when the optimizer
 searches non finite parameters

---
 sources/plugins/nonlinear_fitter_nlopt/fitter.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp b/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp
index a5ea002..a71e2e7 100644
--- a/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp
@@ -98,6 +98,13 @@ double f(unsigned n, const double* x, double* dy, void* dat)
 	// Update the parameters vector
 	vec _p(_f->nbParameters());
 	for(int i=0; i<_f->nbParameters(); ++i) { _p[i] = x[i]; }
+
+	// Some optimizers never return once they search non finite parameters
+	if(!_p.allFinite())
+	{
+		nlopt_force_stop(*(nlopt_opt*)(((void**)dat)[2]));
+		return HUGE_VAL;
+	}
 	_f->setParameters(_p);
 
 	// Create the result vector
@@ -275,9 +282,10 @@ bool nonlinear_fitter_nlopt::fit_data(const ptr<data>& d, ptr<function>& fit, co
 
 
 	// Create the problem
-	void* dat[2];
+	void* dat[3];
 	dat[0] = (void*)nf.get();
 	dat[1] = (void*)d.get();
+	dat[2] = (void*)&opt;
 	res = nlopt_set_min_objective(opt, f, dat);
 	if(res < 0)
 	{
-- 
2.43.0


From 9c7b0e909615606cd9317af5e3ff02d7e1f63e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:43 +0000
Subject: [PATCH 125/162] fix: ASTM files without variables read outside of an
 empty list

---
 sources/plugins/data_io/astm.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sources/plugins/data_io/astm.cpp b/sources/plugins/data_io/astm.cpp
index 2bfee81..e20b5c3 100644
--- a/sources/plugins/data_io/astm.cpp
+++ b/sources/plugins/data_io/astm.cpp
@@ -145,7 +145,6 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
 		// Parse the header, get the output/input dimensions and params
 		arguments header = parse_header(input);
     auto vars = header.get_vec<std::string>("VARS");
-    auto params = compute_parameters(vars);
 
     // Check data size from header
     int size = header.get_int("NUM_POINTS", -1);
@@ -154,6 +153,12 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
         std::cerr << "<<ERROR>> invalid header in ASTM file" << std::endl;
         return NULL;
     }
+    auto params = compute_parameters(vars);
+    if(params.dimX() == 0 || params.dimY() == 0)
+    {
+        std::cerr << "<<ERROR>> invalid variables in ASTM file" << std::endl;
+        return NULL;
+    }
 
     // Size of the data
     size_t n = params.dimX() + params.dimY();
-- 
2.43.0


From c091fbc14f18ecc026f27111d5ddec51361a6f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:43 +0000
Subject: [PATCH 126/162] fix: data_rbf read outside of its tables when the
 data set is empty

---
 sources/plugins/data_interpolants/rbf.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sources/plugins/data_interpolants/rbf.cpp b/sources/plugins/data_interpolants/rbf.cpp
index 56b4e77..dec0765 100644
--- a/sources/plugins/data_interpolants/rbf.cpp
+++ b/sources/plugins/data_interpolants/rbf.cpp
@@ -220,6 +220,11 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
     ptr<data> proxied = plugins_manager::load_data("vertical_segment",
                                                    input, args);
     if(!proxied) return NULL;
+    if(proxied->size() == 0)
+    {
+        std::cerr << "<<ERROR>> no sample to interpolate" << std::endl;
+        return NULL;
+    }
 
     return new rbf_interpolant(proxied);
 }
-- 
2.43.0


From 31b04e0b834a9f121a6ffb077c7211284819aed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:43 +0000
Subject: [PATCH 127/162] fix: data_grid aborted on grid sizes of another
 dimension or without cells

---
 sources/plugins/data_interpolants/grid.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/sources/plugins/data_interpolants/grid.cpp b/sources/plugins/data_interpolants/grid.cpp
index 2b61748..ede17ff 100644
--- a/sources/plugins/data_interpolants/grid.cpp
+++ b/sources/plugins/data_interpolants/grid.cpp
@@ -11,6 +11,7 @@
 #include <core/data.h>
 #include <core/data_storage.h>
 #include <core/vertical_segment.h>
+#include <algorithm>
 
 #include <cstdio>
 #include <cstdlib>
@@ -377,6 +378,18 @@ ALTA_DLL_EXPORT data* provide_data(size_t size,
                                    const parameters& params,
                                    const arguments& args)
 {
+    // Check the grid size, if there is one
+    if(args.is_defined("grid-size") && args.is_vec("grid-size"))
+    {
+        const std::vector<int> sizes = args.get_vec<int>("grid-size");
+        const size_t dim = BrdfGrid::grid_parameters(params, args).dimX();
+        if(sizes.size() != dim || *std::min_element(sizes.begin(), sizes.end()) <= 0)
+        {
+            std::cerr << "<<ERROR>> invalid grid size: " << args["grid-size"] << std::endl;
+            return NULL;
+        }
+    }
+
     return new BrdfGrid(params, args);
 }
 
-- 
2.43.0


From 1c22b1a8f1c01200d3c92df505ca3c742fc3c865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:43 +0000
Subject: [PATCH 128/162] fix: missing elements of pairs and vectors in headers
 were uninitialised

---
 sources/core/args.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/core/args.h b/sources/core/args.h
index a4deee7..93e53b4 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -325,7 +325,7 @@ class arguments
 						stream.get(s, 256, ',');
 						stream.ignore(1);
 						std::stringstream sstream(s);
-						T v;
+						T v = T();
 						sstream >> v;
 
 						// Push the value at the end of the vector
@@ -392,7 +392,7 @@ class arguments
 				std::string str = _map.find(key)->second;
 				std::stringstream sstream(str);
 
-				T first, second;
+				T first = T(), second = T();
 				sstream >> first >> second;
 
 				// Update the pair
-- 
2.43.0


From f0f0cd165bf07c96651eaebaa2f9da79993ccba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:40 +0000
Subject: [PATCH 129/162] fix: binary data files ending within their header
 were loaded with uninitialised samples

---
 sources/core/data_storage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index 849c778..0779e0c 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -408,7 +408,7 @@ alta::data* alta::load_data_from_binary(std::istream& in, const alta::arguments&
 
       // TODO: Arrange to use mmap and make it zero-alloc and zero-copy.
       for (std::streamsize total = 0;
-           total < byte_count && !in.eof();
+           total < byte_count;
            total += in.gcount())
       {
           in.read((char *) content.get() + total, byte_count - total);
-- 
2.43.0


From 5e2059bee989c0b2847cb43075b22ffa4af2e20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:21 +0000
Subject: [PATCH 130/162] fix: function files with negative dimensions aborted
 the program

---
 sources/core/plugins_manager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sources/core/plugins_manager.cpp b/sources/core/plugins_manager.cpp
index 731a965..c86700b 100644
--- a/sources/core/plugins_manager.cpp
+++ b/sources/core/plugins_manager.cpp
@@ -210,6 +210,11 @@ function* plugins_manager::load_function(const std::string& filename)
   arguments header = arguments::parse_header(file);
 
   std::pair<int, int> dim = header.get_pair<int>("DIM");
+  if(dim.first < 0 || dim.second < 0)
+  {
+    std::cerr << "<<ERROR>> invalid dimensions in function file \"" << filename << "\"" << std::endl;
+    return NULL;
+  }
 
   param_in = params::parse_input(header.get_string("PARAM_IN", "UNKNOWN_INPUT"));
   param_out = params::parse_output(header.get_string("PARAM_OUT", "UNKNOWN_OUTPUT"));
-- 
2.43.0


From c0057f87f104a4599d645661df399227d49216b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:41 +0000
Subject: [PATCH 131/162] fix: rational functions without coefficients were
 loaded and read outside of their tables

---
 sources/core/rational_function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/rational_function.cpp b/sources/core/rational_function.cpp
index ad224a8..d648f67 100644
--- a/sources/core/rational_function.cpp
+++ b/sources/core/rational_function.cpp
@@ -50,7 +50,7 @@ bool rational_function_1d::load(std::istream& in)
 
 	// Shoudl have the #NQ [int]
 	in >> token >> _nq;
-	if(token != "#NQ" || in.fail() || _np < 0 || _nq < 0) { return false; }
+	if(token != "#NQ" || in.fail() || _np < 1 || _nq < 1) { return false; }
 
 	// The coefficients are read before being stored in vectors to avoid huge
 	// allocations when the size is corrupted.
-- 
2.43.0


From 790de16b81d226bd4249fb78da49c4cfb86b2023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:02 +0000
Subject: [PATCH 132/162] fix: data2data overwrote the nodes of data_grid by
 the rows of the input

---
 sources/softs/data2data/main.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sources/softs/data2data/main.cpp b/sources/softs/data2data/main.cpp
index 7618e9b..321139c 100644
--- a/sources/softs/data2data/main.cpp
+++ b/sources/softs/data2data/main.cpp
@@ -106,6 +106,7 @@
 #include <limits>
 #include <cstdlib>
 #include <cmath>
+#include <typeinfo>
 
 using namespace alta;
 
@@ -278,7 +279,10 @@ static void convert_with_interpolation(ptr<data> d_in, ptr<data> d_out)
 // Convert D_IN to D_OUT according to ARGS.
 static void convert(ptr<data> d_in, ptr<data> d_out, const arguments& args)
 {
-	if(dynamic_pointer_cast<vertical_segment>(d_out) || args.is_defined("splat"))
+	// Data objects derived from vertical_segment, such as grids, have their own
+	// abscissas: they are filled by interpolation.
+	const data& out = *d_out;
+	if(typeid(out) == typeid(vertical_segment) || args.is_defined("splat"))
       convert_vertical_segment(d_in, d_out,
                                args.is_defined("verbose"),
                                args.is_defined("all-values"));
-- 
2.43.0


From 87208926e9edc2746accb7e830a6956d3b80c9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:04 +0000
Subject: [PATCH 133/162] fix: data2data dropped the value of valid samples
 when the output parametrization forgets elevations

---
 sources/softs/data2data/main.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/softs/data2data/main.cpp b/sources/softs/data2data/main.cpp
index 321139c..047d900 100644
--- a/sources/softs/data2data/main.cpp
+++ b/sources/softs/data2data/main.cpp
@@ -172,7 +172,8 @@ static void convert_vertical_segment(ptr<data> d_in, ptr<data> d_out,
 
         // TODO: Change this at some point because we cannot handle BTDF stuff here
         // Check if this  BRDF parametrization is valid (over the hemisphere)
-        if( params::is_below_hemisphere( &temp[0], d_out->parametrization().input_parametrization()  ) )
+        // The input is tested: the output may not tell where the directions are.
+        if( params::is_below_hemisphere( &x[0], d_in->parametrization().input_parametrization()  ) )
         {
             nb_invalid_configs++;
 
-- 
2.43.0


From 138d65155157b6d5db8050e007621080186e0006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:13 +0000
Subject: [PATCH 134/162] fix: functions that could not be written were
 reported as saved

---
 sources/core/function.cpp        | 10 +++++-----
 sources/softs/brdf2brdf/main.cpp |  6 +++++-
 sources/softs/data2brdf/main.cpp |  6 +++++-
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index 1fb47d2..929f9e6 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -67,11 +67,11 @@ void function::save(const std::string& filename, const arguments& args) const
 	bool const is_matlab   = args["export"] == "matlab";
 
 	// Open the file
-	std::ofstream file(filename.c_str());
-	if(!file.is_open())
-	{
-		std::cerr << "<<ERROR>> unable to open output file for writing" << std::endl;
-	}
+	// Raise an exception when 'open' fails, as \ref data::save does.
+	std::ofstream file;
+	file.exceptions(std::ios_base::failbit);
+	file.open(filename.c_str());
+	file.exceptions(std::ios_base::goodbit);
 
 	// If the export is the alta format, use the maximum precision formatting
 	if(is_alta)
diff --git a/sources/softs/brdf2brdf/main.cpp b/sources/softs/brdf2brdf/main.cpp
index 7b94d07..1816fc9 100644
--- a/sources/softs/brdf2brdf/main.cpp
+++ b/sources/softs/brdf2brdf/main.cpp
@@ -64,7 +64,11 @@ int main(int argc, char** argv)
     function* f = plugins_manager::load_function(args["input"]);
 
     // Save it
-    f->save(args["output"], args) ;
+    try
+    {
+        f->save(args["output"], args) ;
+    }
+    CATCH_FILE_IO_ERROR(args["output"]);
 
 	return 0 ;
 }
diff --git a/sources/softs/data2brdf/main.cpp b/sources/softs/data2brdf/main.cpp
index e8b0c4c..01ac778 100644
--- a/sources/softs/data2brdf/main.cpp
+++ b/sources/softs/data2brdf/main.cpp
@@ -165,7 +165,11 @@ int main(int argc, char** argv)
         args.update("L2",   L2string.str());
         args.update("Linf", Linfstring.str());
 
-        f->save(args["output"], args) ;
+        try
+        {
+            f->save(args["output"], args) ;
+        }
+        CATCH_FILE_IO_ERROR(args["output"]);
 
         return 0;
     }
-- 
2.43.0


From 48fc7cbfe76114d9661f0deca9db3bb417122b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:13 +0000
Subject: [PATCH 135/162] fix: brdf2brdf dereferenced NULL when its input could
 not be loaded

---
 sources/softs/brdf2brdf/main.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sources/softs/brdf2brdf/main.cpp b/sources/softs/brdf2brdf/main.cpp
index 1816fc9..188d524 100644
--- a/sources/softs/brdf2brdf/main.cpp
+++ b/sources/softs/brdf2brdf/main.cpp
@@ -63,6 +63,12 @@ int main(int argc, char** argv)
     // Load the function
     function* f = plugins_manager::load_function(args["input"]);
 
+    if(f == NULL)
+    {
+        std::cerr << "<<ERROR>> cannot open the function file" << std::endl;
+        return 1;
+    }
+
     // Save it
     try
     {
-- 
2.43.0


From eca654553ca8897311fb611c704e9d308d85aa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:29 +0000
Subject: [PATCH 136/162] fix: functions saved again by brdf2brdf lost the
 command line they are loaded from

---
 sources/softs/brdf2brdf/main.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sources/softs/brdf2brdf/main.cpp b/sources/softs/brdf2brdf/main.cpp
index 188d524..fd44335 100644
--- a/sources/softs/brdf2brdf/main.cpp
+++ b/sources/softs/brdf2brdf/main.cpp
@@ -69,10 +69,19 @@ int main(int argc, char** argv)
         return 1;
     }
 
+    // A function is loaded from the command line stored in its file: keep it
+    // when the function is saved in the same format.
+    arguments save_args(args);
+    if((!args.is_defined("export") || args["export"] == "alta") && !args.is_defined("func"))
+    {
+        std::ifstream input(args["input"].c_str());
+        save_args = arguments::create_arguments(arguments::parse_header(input)["CMD"]);
+    }
+
     // Save it
     try
     {
-        f->save(args["output"], args) ;
+        f->save(args["output"], save_args) ;
     }
     CATCH_FILE_IO_ERROR(args["output"]);
 
-- 
2.43.0


From 57b6d9e7077261b0d41236e12b37564772ed494c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:29 +0000
Subject: [PATCH 137/162] fix: data2brdf dereferenced NULL when its data plugin
 could not be loaded

---
 sources/softs/data2brdf/main.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sources/softs/data2brdf/main.cpp b/sources/softs/data2brdf/main.cpp
index 01ac778..23d2138 100644
--- a/sources/softs/data2brdf/main.cpp
+++ b/sources/softs/data2brdf/main.cpp
@@ -121,7 +121,11 @@ int main(int argc, char** argv)
 		}
 		CATCH_FILE_IO_ERROR(args["input"]);
 
-    ptr<function> f = ptr<function>(plugins_manager::get_function(args, d->parametrization()));
+    ptr<function> f;
+    if(d)
+    {
+        f = ptr<function>(plugins_manager::get_function(args, d->parametrization()));
+    }
 
     if(!f || !d)
     {
-- 
2.43.0


From 6a2c5d10e70a09ef0c254cfdc2d229a4977f0247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:02 +0000
Subject: [PATCH 138/162] fix: unknown function plugins were replaced by a
 rational function

---
 sources/core/plugins_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/plugins_manager.cpp b/sources/core/plugins_manager.cpp
index c86700b..ca320e6 100644
--- a/sources/core/plugins_manager.cpp
+++ b/sources/core/plugins_manager.cpp
@@ -331,7 +331,7 @@ function* plugins_manager::get_function(const arguments& args,
     else
     {
       std::cerr << "<<ERROR>> no function provider found in file \"" << filename << "\"" << std::endl;
-      return new rational_function(params) ;
+      return NULL;
     }
   }
 
-- 
2.43.0


From a7cd7b3a3cb4a07c27a217d6f6c3a216098075d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:02 +0000
Subject: [PATCH 139/162] fix: plugin names of less than two characters
 terminated the program

---
 sources/core/plugins_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/plugins_manager.cpp b/sources/core/plugins_manager.cpp
index ca320e6..9f57447 100644
--- a/sources/core/plugins_manager.cpp
+++ b/sources/core/plugins_manager.cpp
@@ -46,7 +46,7 @@ static std::string library_name(const std::string name)
     filename.append(".dylib");
   }
 #else
-  if(name.substr(n-2, n) != std::string("so")) {
+  if(n < 2 || name.substr(n-2, n) != std::string("so")) {
     filename.append("lib");
     filename.append(name);
     filename.append(".so");
-- 
2.43.0


From e08d02ff0abb49a7100d1f2f605853d8a7d54a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:02 +0000
Subject: [PATCH 140/162] fix: brdf2data reported success without data, and
 aborted on incompatible or unwritable ones

---
 sources/softs/brdf2data/main.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/sources/softs/brdf2data/main.cpp b/sources/softs/brdf2data/main.cpp
index 689d52f..00ed865 100644
--- a/sources/softs/brdf2data/main.cpp
+++ b/sources/softs/brdf2data/main.cpp
@@ -92,6 +92,17 @@ int main(int argc, char** argv)
 
    if(d && f != NULL)
    {
+      // The values of the function replace those of the data, and its
+      // positions have to be those of the data.
+      const bool unknown_input = f->parametrization().input_parametrization() == params::UNKNOWN_INPUT;
+      if(f->parametrization().dimY() != d->parametrization().dimY() ||
+         (unknown_input && f->parametrization().dimX() > d->parametrization().dimX()) ||
+         (!unknown_input && d->parametrization().input_parametrization() == params::UNKNOWN_INPUT))
+      {
+         std::cerr << "<<ERROR>> the function cannot be evaluated on the data: incompatible dimensions or parametrizations" << std::endl;
+         return 1;
+      }
+
       const bool output_dif = args.is_defined("export-diff");
 
       vec temp(f->parametrization().dimX());
@@ -101,7 +112,7 @@ int main(int argc, char** argv)
          vec x = d->get(i);
 
          // Convert the data to the function's input space.
-         if(f->parametrization().input_parametrization() == params::UNKNOWN_INPUT)
+         if(unknown_input)
          {
             temp = x.head(f->parametrization().dimX());
          }
@@ -120,11 +131,16 @@ int main(int argc, char** argv)
       }  
 
       // Save data to file
-      d->save(args["output"]);
+      try
+      {
+         d->save(args["output"]);
+      }
+      CATCH_FILE_IO_ERROR(args["output"]);
    }  
    else
    {
       std::cerr << "<<ERROR>> cannot import function or export data" << std::endl ;
+      return 1;
    }
 
    return 0 ;
-- 
2.43.0


From 9cb1488d5953b4c7f52fe1d49bb192f0f6ae8ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:03 +0000
Subject: [PATCH 141/162] fix: brdf2gnuplot crashed on missing, incompatible or
 unwritable data

---
 sources/softs/brdf2gnuplot/main.cpp | 35 ++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/sources/softs/brdf2gnuplot/main.cpp b/sources/softs/brdf2gnuplot/main.cpp
index 5eaa060..be51783 100644
--- a/sources/softs/brdf2gnuplot/main.cpp
+++ b/sources/softs/brdf2gnuplot/main.cpp
@@ -88,8 +88,30 @@ int main(int argc, char** argv)
     }
     CATCH_FILE_IO_ERROR (args["data-file"]);
 
+		if(!d)
+		{
+			std::cerr << "<<ERROR>> cannot load the data" << std::endl;
+			return 1;
+		}
+
+		// The function is evaluated on the positions of the data and compared
+		// to its values.
+		const bool unknown_input = f->parametrization().input_parametrization() == params::UNKNOWN_INPUT;
+		if(f->parametrization().dimY() != d->parametrization().dimY() ||
+		   (unknown_input && f->parametrization().dimX() > d->parametrization().dimX()) ||
+		   (!unknown_input && d->parametrization().input_parametrization() == params::UNKNOWN_INPUT))
+		{
+			std::cerr << "<<ERROR>> the function cannot be compared to the data: incompatible dimensions or parametrizations" << std::endl;
+			return 1;
+		}
+
 		// Create output file now that we are sure that needed data are loaded
 		std::ofstream file(args["output"].c_str(), std::ios_base::trunc);
+		if(!file.is_open())
+		{
+			std::cerr << "<<ERROR>> unable to open \"" << args["output"] << "\" for writing" << std::endl;
+			return 1;
+		}
 		file.precision(10);
 
 
@@ -120,7 +142,7 @@ int main(int argc, char** argv)
 			vec x(f->parametrization().dimX());
 
 			// Convert the data to the function's input space.
-			if(f->parametrization().input_parametrization() == params::UNKNOWN_INPUT)
+			if(unknown_input)
 			{
         memcpy(&x[0], &v[0], f->parametrization().dimX()*sizeof(double));
 			}
@@ -177,8 +199,19 @@ int main(int argc, char** argv)
 	}
 	else if(args.is_defined("polar-plot"))
 	{
+		if(f->parametrization().input_parametrization() == params::UNKNOWN_INPUT)
+		{
+			std::cerr << "<<ERROR>> a function without parametrization has no polar plot" << std::endl;
+			return 1;
+		}
+
 		// Create output file
 		std::ofstream file(args["output"].c_str(), std::ios_base::trunc);
+		if(!file.is_open())
+		{
+			std::cerr << "<<ERROR>> unable to open \"" << args["output"] << "\" for writing" << std::endl;
+			return 1;
+		}
 		file.precision(10);
 
 		vec spherical(4);
-- 
2.43.0


From 50e06a926669d295cb2f334473a9bb71b61d8d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:14 +0000
Subject: [PATCH 142/162] fix: brdf2gnuplot reported success when it had
 nothing to plot

---
 sources/softs/brdf2gnuplot/main.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sources/softs/brdf2gnuplot/main.cpp b/sources/softs/brdf2gnuplot/main.cpp
index be51783..7983992 100644
--- a/sources/softs/brdf2gnuplot/main.cpp
+++ b/sources/softs/brdf2gnuplot/main.cpp
@@ -88,7 +88,7 @@ int main(int argc, char** argv)
     }
     CATCH_FILE_IO_ERROR (args["data-file"]);
 
-		if(!d)
+		if(!d || d->size() == 0)
 		{
 			std::cerr << "<<ERROR>> cannot load the data" << std::endl;
 			return 1;
@@ -253,6 +253,11 @@ int main(int argc, char** argv)
 		}
 			file.close();
 	}
+	else
+	{
+		std::cerr << "<<ERROR>> no plot requested: use either --data-file or --polar-plot" << std::endl;
+		return 1;
+	}
 
 	return 0 ;
 }
-- 
2.43.0


From dde93f63175ff33312ff65419c0c6c9bc29ea84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:03 +0000
Subject: [PATCH 143/162] fix: data2moments read out of its vectors for
 dimensions the data do not have, and ignored unwritable outputs

---
 sources/softs/data2moments/main.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/sources/softs/data2moments/main.cpp b/sources/softs/data2moments/main.cpp
index 540a243..b885a15 100644
--- a/sources/softs/data2moments/main.cpp
+++ b/sources/softs/data2moments/main.cpp
@@ -39,6 +39,7 @@
 #include <limits>
 #include <cstdlib>
 #include <cmath>
+#include <algorithm>
 
 using namespace alta;
 
@@ -92,9 +93,6 @@ int main(int argc, char** argv)
 		return 1;
 	}
 
-	// Create output file
-	std::ofstream file(args["output"].c_str(), std::ios_base::trunc);
-
 	if(d)
 	{
 		// Data parametrization
@@ -140,7 +138,11 @@ int main(int argc, char** argv)
 		if(args.is_defined("samples"))
 		{	
 			samples = args.get_vec<int>("samples");
-			assert(samples.size() == nX);
+			if(samples.size() != nX || *std::min_element(samples.begin(), samples.end()) < 1)
+			{
+				std::cerr << "<<ERROR>> --samples must be a vector of " << nX << " positive integers" << std::endl;
+				return 1;
+			}
 		}
 		else
 		{
@@ -154,7 +156,6 @@ int main(int argc, char** argv)
 		if(args.is_defined("dim"))
 		{
 			dim = args.get_vec<int>("dim");
-			assert(dim.size() == 2);
 		}
 		else
 		{
@@ -162,7 +163,19 @@ int main(int argc, char** argv)
 			dim.push_back(0);
 			dim.push_back(1);
 		}
+		if(dim.size() != 2 || dim[0] < 0 || dim[0] >= nX || dim[1] < 0 || dim[1] >= nX)
+		{
+			std::cerr << "<<ERROR>> the moments require two dimensions of the data" << std::endl;
+			return 1;
+		}
 
+		// Create output file
+		std::ofstream file(args["output"].c_str(), std::ios_base::trunc);
+		if(!file.is_open())
+		{
+			std::cerr << "<<ERROR>> unable to open \"" << args["output"] << "\" for writing" << std::endl;
+			return 1;
+		}
 
 		// Get the minimum element of the dataset
 		vec _d_min = d->get(0);
@@ -349,7 +362,6 @@ int main(int argc, char** argv)
 	}
 	else
 	{
-		file.close();
 		std::cerr << "<<ERROR>> unable to load file \"" << args["input"] << "\"" << std::endl ;
 		return 1;
 	}
-- 
2.43.0


From cb48e3da678ca2e13f71431ad6a2bfdc78b5ba3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:03 +0000
Subject: [PATCH 144/162] fix: fit2stat took the cosines from the coordinates
 of the function, which may not determine them

---
 sources/softs/fit2stat/fit2stat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/softs/fit2stat/fit2stat.cpp b/sources/softs/fit2stat/fit2stat.cpp
index 0f43381..28fb5f8 100644
--- a/sources/softs/fit2stat/fit2stat.cpp
+++ b/sources/softs/fit2stat/fit2stat.cpp
@@ -618,7 +618,7 @@ main(int argc, char* argv[])
   // Compute Weighted Norms by cosine factors
   vec cosine_theta_view;
   vec cosine_theta_light;
-  computeCosineFactorsFromData( converted_data, cosine_theta_light, cosine_theta_view );
+  computeCosineFactorsFromData( vs_data, cosine_theta_light, cosine_theta_view );
   vec cosine_light_view = cosine_theta_light.cwiseProduct( cosine_theta_view );
   
 
-- 
2.43.0


From ccd75071100dc4c15657c4fe0270b46c8369ee84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:25 +0000
Subject: [PATCH 145/162] fix: unsupported operations ended the program instead
 of raising an exception

---
 sources/core/common.h             | 5 +++--
 sources/core/params.cpp           | 2 +-
 sources/core/vertical_segment.cpp | 2 +-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/sources/core/common.h b/sources/core/common.h
index af8c87e..4868359 100644
--- a/sources/core/common.h
+++ b/sources/core/common.h
@@ -30,6 +30,7 @@
 #include <cstring>
 #include <algorithm>
 
+#include <stdexcept>
 #include <string>
 #include <map>
 
@@ -118,12 +119,12 @@ static bool close_to(const T a, const T b, const T epsilon = 1E-7)
 #define NOT_IMPLEMENTED() \
 std::cerr << "<<ERROR>> not implemented " << __FUNCDNAME__ << " in file " << __FILE__ \
           << ":" << __LINE__ << std::endl; \
-throw
+throw std::logic_error("not implemented")
 #else
 #define NOT_IMPLEMENTED() \
 std::cerr << "<<ERROR>> not implemented " << __PRETTY_FUNCTION__ << " in file " << __FILE__ \
           << ":" << __LINE__ << std::endl; \
-throw
+throw std::logic_error("not implemented")
 #endif
 
 // Mathematical definition not provided on the Window plateform
diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 0b5e28f..a0bdbcb 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -417,7 +417,7 @@ void params::to_cartesian(const double* invec, params::input intype,
 
 		default:
 			std::cerr << "<<ERROR>> Transformation not implemented, " << get_name(intype) << " " << __FILE__ << ":" << __LINE__ << std::endl;
-			throw;
+			throw std::logic_error("transformation not implemented");
 			break;
 	}
 
diff --git a/sources/core/vertical_segment.cpp b/sources/core/vertical_segment.cpp
index 6a395a0..7f21412 100644
--- a/sources/core/vertical_segment.cpp
+++ b/sources/core/vertical_segment.cpp
@@ -158,7 +158,7 @@ void vertical_segment::set(int i, const vec& x)
        row.head(x.size()) = x;
    } else {
       std::cerr << "<<ERROR>> Passing an incorrect element to vertical_segment::set" << std::endl;
-      throw;
+      throw std::invalid_argument("incorrect size of a vertical segment");
    }
 }
 
-- 
2.43.0


From 5496a9f7e769396dcffddfdc13bd61f3321fb5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:25 +0000
Subject: [PATCH 146/162] fix: evaluating a rational function without
 coefficients dereferenced a null pointer

---
 sources/core/rational_function.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/core/rational_function.cpp b/sources/core/rational_function.cpp
index d648f67..3badf53 100644
--- a/sources/core/rational_function.cpp
+++ b/sources/core/rational_function.cpp
@@ -633,6 +633,10 @@ vec rational_function::value(const vec& x) const
 
 	for(int k=0; k<_parameters.dimY(); ++k)
 	{
+		if(rs[k] == NULL)
+		{
+			throw std::logic_error("rational function without coefficients");
+		}
 		res[k] = rs[k]->value(x)[0] ;
 	}
 	return res ;
-- 
2.43.0


From 9f81cc2a34fea074cf3090ea19d0e497a7586a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:25 +0000
Subject: [PATCH 147/162] fix: Python: functions could not be saved, nor data
 objects created, with arguments

---
 sources/python/alta.cpp       | 6 +++++-
 sources/python/wrapper_data.h | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/sources/python/alta.cpp b/sources/python/alta.cpp
index 8b23dc6..01e7240 100644
--- a/sources/python/alta.cpp
+++ b/sources/python/alta.cpp
@@ -186,6 +186,10 @@ static vec get_function_params(ptr<function>& f) {
 /* Save a function object to a file, without any argument option. This will save the function
  * object in ALTA's format.
  */
+static void save_function_with_args(const ptr<function>& f, const std::string& filename,
+                                    const python_arguments& args) {
+   f->save(filename, args);
+}
 static void save_function_without_args(const ptr<function>& f, const std::string& filename) {
    arguments args;
    f->save(filename, args);
@@ -314,7 +318,7 @@ inline void register_function(py::module& m) {
 		.def("value",    &function::value)
 		.def("load",     &load_from_file)
 		.def("load",     &load_from_file_with_args)
-		.def("save",     &function::save)
+		.def("save",     &save_function_with_args)
       .def("save",     &save_function_without_args)
 		.def("set",      &set_function_params)
 		.def("get",      &get_function_params);
diff --git a/sources/python/wrapper_data.h b/sources/python/wrapper_data.h
index c2a37a4..112fcd3 100644
--- a/sources/python/wrapper_data.h
+++ b/sources/python/wrapper_data.h
@@ -19,6 +19,9 @@ namespace py = pybind11;
 #include <core/ptr.h>
 #include <core/data.h>
 
+// Local includes
+#include "wrapper_args.h"
+
 using namespace alta;
 
 /* Create a data object from a plugin's name and the data filename. This
@@ -33,7 +36,7 @@ static ptr<data> load_data(const std::string& plugin_name,
 static ptr<data> get_data_with_args(const std::string& plugin_name,
                                     size_t size,
                                     const parameters& params,
-                                    const arguments& args)
+                                    const python_arguments& args)
 {
   return plugins_manager::get_data(plugin_name, size, params, args);
 }
-- 
2.43.0


From fbfe7df673dd0b81ba1e1f511f2d885d288a916e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:25 +0000
Subject: [PATCH 148/162] fix: Python: out-of-range indices of vectors and data
 objects were not checked

---
 sources/python/wrapper_data.h | 25 +++++++++++++++++++++----
 sources/python/wrapper_vec.h  |  3 ++-
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/sources/python/wrapper_data.h b/sources/python/wrapper_data.h
index 112fcd3..a56658e 100644
--- a/sources/python/wrapper_data.h
+++ b/sources/python/wrapper_data.h
@@ -49,14 +49,31 @@ static ptr<data> get_data(const std::string& plugin_name, size_t size,
 
 /* Register the `data` class to python
  */
+static void check_row(const data& d, int i)
+{
+  if(i < 0 || i >= d.size()) throw py::index_error();
+}
+
+static vec get_row(const data& d, int i)
+{
+  check_row(d, i);
+  return d.get(i);
+}
+
+static void set_row(data& d, int i, const vec& x)
+{
+  check_row(d, i);
+  d.set(i, x);
+}
+
 inline void register_data(py::module& m) {
    py::class_<data, ptr<data>>(m, "data")
-      .def("__getitem__", &data::get)
-      .def("__setitem__", &data::set)
+      .def("__getitem__", &get_row)
+      .def("__setitem__", &set_row)
       .def("__len__", &data::size)
       .def("size",  &data::size)
-      .def("get",   &data::get)
-      .def("set",   &data::set)
+      .def("get",   &get_row)
+      .def("set",   &set_row)
       .def("value", &data::value)
       .def("save",  &data::save)
       .def("parametrization", &data::parametrization);
diff --git a/sources/python/wrapper_vec.h b/sources/python/wrapper_vec.h
index 4ef54e6..4c6368b 100644
--- a/sources/python/wrapper_vec.h
+++ b/sources/python/wrapper_vec.h
@@ -24,7 +24,8 @@ namespace py = pybind11;
 
 /* Specific function call to set a vector's element
  */
-static void vec_set_item(vec& x, int i, double a) {
+static void vec_set_item(vec& x, unsigned int i, double a) {
+	if(i >= x.size()) throw py::index_error();
 	x[i] = a;
 }
 
-- 
2.43.0


From facd1ce0eac67b13bce5fb73992e027b0ae72675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:25 +0000
Subject: [PATCH 149/162] fix: Python: vectors of a wrong size were read and
 written out of their bounds

---
 sources/python/alta.cpp       | 10 +++++++++-
 sources/python/wrapper_data.h | 15 ++++++++++++++-
 sources/python/wrapper_vec.h  |  6 ++++++
 3 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/sources/python/alta.cpp b/sources/python/alta.cpp
index 01e7240..a458c17 100644
--- a/sources/python/alta.cpp
+++ b/sources/python/alta.cpp
@@ -140,6 +140,14 @@ static ptr<function> mult_function(const ptr<function>& f1, const ptr<function>&
 	return ptr<function>(pf);
 }
 
+/* Evaluate a function object */
+static vec function_value(const function& f, const vec& x) {
+	if(x.size() < f.parametrization().dimX()) {
+		throw py::value_error("vector too short for the function object");
+	}
+	return f.value(x);
+}
+
 /* Setting/Get the parameters of a function object
  *
  * TODO: Add the rational function interface
@@ -315,7 +323,7 @@ inline void register_function(py::module& m) {
 		.def("__add__",  &add_function)
 		.def("__mul__",  &mult_function)
 		.def("__rmul__", &mult_function)
-		.def("value",    &function::value)
+		.def("value",    &function_value)
 		.def("load",     &load_from_file)
 		.def("load",     &load_from_file_with_args)
 		.def("save",     &save_function_with_args)
diff --git a/sources/python/wrapper_data.h b/sources/python/wrapper_data.h
index a56658e..88c8d6f 100644
--- a/sources/python/wrapper_data.h
+++ b/sources/python/wrapper_data.h
@@ -63,9 +63,22 @@ static vec get_row(const data& d, int i)
 static void set_row(data& d, int i, const vec& x)
 {
   check_row(d, i);
+  if(x.size() < d.parametrization().dimX() + d.parametrization().dimY())
+  {
+    throw py::value_error("vector too short for a row of the data object");
+  }
   d.set(i, x);
 }
 
+static vec data_value(const data& d, const vec& x)
+{
+  if(x.size() < d.parametrization().dimX())
+  {
+    throw py::value_error("vector too short for the data object");
+  }
+  return d.value(x);
+}
+
 inline void register_data(py::module& m) {
    py::class_<data, ptr<data>>(m, "data")
       .def("__getitem__", &get_row)
@@ -74,7 +87,7 @@ inline void register_data(py::module& m) {
       .def("size",  &data::size)
       .def("get",   &get_row)
       .def("set",   &set_row)
-      .def("value", &data::value)
+      .def("value", &data_value)
       .def("save",  &data::save)
       .def("parametrization", &data::parametrization);
    m.def("get_data",  get_data);
diff --git a/sources/python/wrapper_vec.h b/sources/python/wrapper_vec.h
index 4c6368b..f898e72 100644
--- a/sources/python/wrapper_vec.h
+++ b/sources/python/wrapper_vec.h
@@ -31,10 +31,16 @@ static void vec_set_item(vec& x, unsigned int i, double a) {
 
 /* Operators on vec
  */
+static void check_sizes(const vec& a, const vec& b) {
+   if(a.size() != b.size()) throw py::value_error("vectors of different sizes");
+}
+
 static vec vec_add(const vec& a, const vec& b) {
+   check_sizes(a, b);
    return a + b;
 }
 static vec vec_sub(const vec& a, const vec& b) {
+   check_sizes(a, b);
    return a - b;
 }
 
-- 
2.43.0


From 936ab593a84f12e38743e51c1678f0619bc9ce4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:10 +0000
Subject: [PATCH 150/162] fix: Python: incompatible functions and data objects
 ended the interpreter or wrote out of bounds

---
 sources/python/alta.cpp | 46 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/sources/python/alta.cpp b/sources/python/alta.cpp
index a458c17..497621d 100644
--- a/sources/python/alta.cpp
+++ b/sources/python/alta.cpp
@@ -98,6 +98,42 @@ static void load_from_file(const ptr<function>& func, const std::string& filenam
    load_from_file_with_args(func, filename, args);
 }
 
+/* Raise an exception when a configuration in the parametrization 'from' cannot
+ * be converted to the parametrization 'to'.
+ */
+static void check_conversion(const parameters& from, const parameters& to) {
+	const bool same = from.input_parametrization() == to.input_parametrization();
+	if(same && from.input_parametrization() != params::UNKNOWN_INPUT) {
+		if(from.dimX() != to.dimX()) {
+			throw py::value_error("input dimensions do not match");
+		}
+	} else if(from.input_parametrization() == params::UNKNOWN_INPUT ||
+	          to.input_parametrization()   == params::UNKNOWN_INPUT) {
+		throw py::value_error("cannot convert an unknown parametrization");
+	} else if(from.dimX() != params::dimension(from.input_parametrization()) ||
+	          to.dimX()   != params::dimension(to.input_parametrization())) {
+		throw py::value_error("dimensions do not match the parametrization");
+	}
+}
+
+/* Raise an exception when a function object cannot be evaluated on the
+ * configurations of a data object.
+ */
+static void check_compatibility(const function& f, const data& d) {
+	const parameters& pf = f.parametrization();
+	const parameters& pd = d.parametrization();
+	if(pf.dimY() != pd.dimY()) {
+		throw py::value_error("function and data objects have different output dimensions");
+	}
+	if(pf.input_parametrization() == params::UNKNOWN_INPUT) {
+		if(pf.dimX() > pd.dimX()) {
+			throw py::value_error("function object has more input dimensions than the data object");
+		}
+	} else {
+		check_conversion(pd, pf);
+	}
+}
+
 /* Operators on function object. This provide the ability to create compounds
  * and product in the command line. This is only possible for nonlinear_functions
  *
@@ -209,6 +245,7 @@ static void save_function_without_args(const ptr<function>& f, const std::string
 static bool fit_data_without_args(const ptr<fitter>& _fitter,
                                   const ptr<data>& _data,
                                   ptr<function>& _func) {
+   check_compatibility(*_func, *_data);
    arguments args;
    return _fitter->fit_data(_data, _func, args);
 }
@@ -216,6 +253,7 @@ static bool fit_data_without_args(const ptr<fitter>& _fitter,
 static bool fit_data_with_args(ptr<fitter>& _fitter, const ptr<data>& _data,
                                ptr<function>& _func,
                                const python_arguments& args) {
+   check_compatibility(*_func, *_data);
    _fitter->set_parameters(args);
    return _fitter->fit_data(_data, _func, args);
 }
@@ -232,6 +270,8 @@ static ptr<data> data2data(const data* d_in, const parameters& target)
         delete[] array;
     };
 
+    check_conversion(d_in->parametrization(), target);
+
     // For each sample we store the X and Y values, followed by the
     // confidence interval on Y.
     size_t sample_size = target.dimX() + 3 * target.dimY();
@@ -278,6 +318,7 @@ static void brdf2data(const ptr<function>& f, ptr<data>& d) {
 		std::cerr << "<<ERROR>> Please provide a data object with a sample structure or load a data file with defined positions." << std::endl;
 		return;
 	}
+	check_compatibility(*f, *d);
 
 	vec temp(f->parametrization().dimX());
 	for(int i=0; i<d->size(); ++i) {
@@ -306,6 +347,11 @@ static void brdf2data(const ptr<function>& f, ptr<data>& d) {
 /* Compute distance metric between 'in' and 'ref'.
  */
 static py::dict data2stats(const ptr<data>& in, const ptr<data>& ref) {
+   if(in->parametrization().dimY() != ref->parametrization().dimY()) {
+      throw py::value_error("data objects have different output dimensions");
+   }
+   check_conversion(ref->parametrization(), in->parametrization());
+
    // Compute the metrics
    errors::metrics res;
    errors::compute(in.get(), ref.get(), nullptr, res);
-- 
2.43.0


From 467d1f8c3f0ae738bd1c7cb3c84843549c751fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:36 +0000
Subject: [PATCH 151/162] fix: Python: None given as an object ended the
 interpreter

---
 sources/python/alta.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sources/python/alta.cpp b/sources/python/alta.cpp
index 497621d..13424f7 100644
--- a/sources/python/alta.cpp
+++ b/sources/python/alta.cpp
@@ -385,8 +385,8 @@ inline void register_function(py::module& m) {
 
 inline void register_fitter(py::module& m) {
 	py::class_<fitter, ptr<fitter>>(m, "fitter")
-		.def("fit_data", &fit_data_with_args)
-                .def("fit_data", &fit_data_without_args);
+		.def("fit_data", &fit_data_with_args, py::arg().none(false), py::arg().none(false), py::arg())
+                .def("fit_data", &fit_data_without_args, py::arg().none(false), py::arg().none(false));
 	m.def("get_fitter",  plugins_manager::get_fitter);
 }
 
@@ -454,7 +454,7 @@ PYBIND11_MODULE(alta, m) {
     register_fitter(m);
 
     /* register `softs` */
-    m.def("data2data",  data2data);
-    m.def("data2stats", data2stats);
-    m.def("brdf2data",  brdf2data);
+    m.def("data2data",  data2data,  py::arg().none(false), py::arg());
+    m.def("data2stats", data2stats, py::arg().none(false), py::arg().none(false));
+    m.def("brdf2data",  brdf2data,  py::arg().none(false), py::arg().none(false));
 }
-- 
2.43.0


From 096aaf68ac16f790ab58be1a8732133103287e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:13 +0000
Subject: [PATCH 152/162] fix: Python: functions read from ABC files could not
 be evaluated on data since incompatible objects are refused

---
 sources/python/alta.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sources/python/alta.cpp b/sources/python/alta.cpp
index 13424f7..c230224 100644
--- a/sources/python/alta.cpp
+++ b/sources/python/alta.cpp
@@ -129,8 +129,11 @@ static void check_compatibility(const function& f, const data& d) {
 		if(pf.dimX() > pd.dimX()) {
 			throw py::value_error("function object has more input dimensions than the data object");
 		}
-	} else {
-		check_conversion(pd, pf);
+	} else if(pd.input_parametrization() == params::UNKNOWN_INPUT) {
+		throw py::value_error("cannot convert an unknown parametrization");
+	} else if(pd.dimX() != params::dimension(pd.input_parametrization()) ||
+	          pf.dimX() <  params::dimension(pf.input_parametrization())) {
+		throw py::value_error("dimensions do not match the parametrization");
 	}
 }
 
@@ -320,7 +323,7 @@ static void brdf2data(const ptr<function>& f, ptr<data>& d) {
 	}
 	check_compatibility(*f, *d);
 
-	vec temp(f->parametrization().dimX());
+	vec temp = vec::Zero(f->parametrization().dimX());
 	for(int i=0; i<d->size(); ++i) {
 		// Copy the input vector
 		vec x = d->get(i);
-- 
2.43.0


From e132a6c049e943d53c39fc3c04df4f3c723f165c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:17 +0000
Subject: [PATCH 153/162] fix: initial values from a file lacking some of the
 functions lost their options or left them uninitialised

---
 sources/core/function.cpp | 43 +++++++++++++--------------------------
 1 file changed, 14 insertions(+), 29 deletions(-)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index 929f9e6..e76dca4 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -560,15 +560,15 @@ void compound_function::bootstrap(const ::ptr<data> d, const arguments& args)
 	// Check if the bootstrap is global
 	if(global_bootstrap)
 	{
-		if(args.is_vec("bootstrap"))
+		// The options of each function (number of lobes, type, ...) define
+		// its parameters: apply them before reading the vector or the file
+		for(unsigned int i=0; i<fs.size(); ++i)
 		{
-			// The options of each function (number of lobes, type, ...) define
-			// its parameters: apply them before reading the vector
-			for(unsigned int i=0; i<fs.size(); ++i)
-			{
-				fs[i]->bootstrap(d, fs_args[i]);
-			}
+			fs[i]->bootstrap(d, fs_args[i]);
+		}
 
+		if(args.is_vec("bootstrap"))
+		{
 			vec p = args.get_vec("bootstrap", nbParameters());
 			setParameters(p);
       std::cout << "<<DEBUG>> Number of parameters for compound function: " << nbParameters() << std::endl;
@@ -606,9 +606,6 @@ void compound_function::bootstrap(const ::ptr<data> d, const arguments& args)
 						if(!f1->load(file))
 						{
 							file.seekg(pos);
-
-							// Bootstrap the function as if it was not loaded
-							f1->bootstrap(d, args);
 							std::cout << "<<DEBUG>> Unable to load first function of product, regular bootstraping" << std::endl;
 						}
 
@@ -618,9 +615,6 @@ void compound_function::bootstrap(const ::ptr<data> d, const arguments& args)
 						if(!f2->load(file))
 						{
 							file.seekg(pos);
-
-							// Bootstrap the function as if it was not loaded
-							f2->bootstrap(d, args);
 							std::cout << "<<DEBUG>> Unable to load second function of product, regular bootstraping" << std::endl;
 						}
 					}
@@ -631,9 +625,6 @@ void compound_function::bootstrap(const ::ptr<data> d, const arguments& args)
 						if(!fs[i]->load(file))
 						{
 							file.seekg(pos);
-
-							// Bootstrap the function as if it was not loaded
-							fs[i]->bootstrap(d, fs_args[i]);
 							std::cout << "<<DEBUG>> Unable to load one function of compound, regular bootstraping" << std::endl;
 						}
 					}//end of else
@@ -1012,15 +1003,15 @@ void product_function::bootstrap(const ptr<data> d, const arguments& args)
 	// Check if the bootstrap is global
 	if(global_bootstrap)
 	{
+		// The options of each function (number of lobes, type, ...) define
+		// its parameters: apply them before reading the vector or the file
+		arguments options(args);
+		options.remove("bootstrap");
+		f1->bootstrap(d, options);
+		f2->bootstrap(d, options);
+
 		if(args.is_vec("bootstrap"))
 		{
-			// The options of each function (number of lobes, type, ...) define
-			// its parameters: apply them before reading the vector
-			arguments options(args);
-			options.remove("bootstrap");
-			f1->bootstrap(d, options);
-			f2->bootstrap(d, options);
-
 			vec p = args.get_vec("bootstrap", nbParameters());
 			setParameters(p);
 		}
@@ -1045,9 +1036,6 @@ void product_function::bootstrap(const ptr<data> d, const arguments& args)
 				if(!f1->load(file))
 				{
 					file.seekg(pos);
-
-					// Bootstrap the function as if it was not loaded
-					f1->bootstrap(d, args);
 					std::cout << "<<DEBUG>> Unable to load first function of product, regular bootstraping" << std::endl;
 				}
 				
@@ -1058,9 +1046,6 @@ void product_function::bootstrap(const ptr<data> d, const arguments& args)
 				if(!f2->load(file))
 				{
 					file.seekg(pos);
-
-					// Bootstrap the function as if it was not loaded
-					f2->bootstrap(d, args);
 					std::cout << "<<DEBUG>> Unable to load second function of product, regular bootstraping" << std::endl;
 				}
 			}
-- 
2.43.0


From 165d833ff12090cabaa4b76cb4ead77c9cc9aa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:25 +0000
Subject: [PATCH 154/162] fix: fits started from parameters out of bounds were
 reported as successful

---
 sources/plugins/nonlinear_fitter_ceres/fitter.cpp |  5 +++++
 sources/plugins/nonlinear_fitter_eigen/fitter.cpp | 13 +++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
index 1a801b5..149944f 100644
--- a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
@@ -176,6 +176,11 @@ bool nonlinear_fitter_ceres::fit_data(const ptr<data>& d, ptr<function>& fit, co
 #ifdef DEBUG
 	 std::cout << summary.BriefReport() << std::endl;
 #endif
+	 if(!summary.IsSolutionUsable())
+	 {
+		 std::cerr << "<<ERROR>> the optimization failed: " << summary.message << std::endl;
+		 return false;
+	 }
 	 std::cout << "<<INFO>> found parameters: " << p << std::endl;
 
 	 nf->setParameters(p);
diff --git a/sources/plugins/nonlinear_fitter_eigen/fitter.cpp b/sources/plugins/nonlinear_fitter_eigen/fitter.cpp
index 73967da..c92c446 100644
--- a/sources/plugins/nonlinear_fitter_eigen/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_eigen/fitter.cpp
@@ -356,6 +356,19 @@ bool nonlinear_fitter_eigen::fit_data(const ptr<data>& d, ptr<function>& fit, co
 			 x[i] = nf_x[i];
 		 }
 
+		 // The solver goes on from uninitialized residuals when it is not
+		 // possible to evaluate them at the starting point.
+		 const vec p_min = nf->getParametersMin();
+		 const vec p_max = nf->getParametersMax();
+		 for(int i=0; i<nf->nbParameters(); ++i)
+		 {
+			 if(x[i] < p_min[i] || x[i] > p_max[i])
+			 {
+				 std::cerr << "<<ERROR>> the initial parameters are out of bounds" << std::endl;
+				 return false;
+			 }
+		 }
+
 		 EigenFunctor functor(nf, d, args.is_defined("fit-with-cosine"));
 		 Eigen::LevenbergMarquardt<EigenFunctor> lm(functor);
 
-- 
2.43.0


From 5d64048f3b17712f1cec8c18db1dd993573b7917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:01 +0000
Subject: [PATCH 155/162] fix: saves that could not be written completely were
 reported as successful

---
 sources/core/data.cpp                      |  2 ++
 sources/core/function.cpp                  |  4 ++++
 sources/plugins/data_interpolants/grid.cpp |  2 ++
 sources/plugins/data_io/EXR_IO.h           | 15 +++++++++++++--
 sources/plugins/data_io/merl.cpp           |  7 ++++---
 sources/plugins/data_io/utia.cpp           |  3 ++-
 sources/softs/brdf2gnuplot/main.cpp        | 12 +++++++++++-
 sources/softs/data2data/main.cpp           |  3 ++-
 sources/softs/data2moments/main.cpp        |  5 +++++
 sources/softs/data2stats/data2stats.cpp    |  4 +++-
 sources/softs/fit2stat/fit2stat.cpp        |  4 +++-
 11 files changed, 51 insertions(+), 10 deletions(-)

diff --git a/sources/core/data.cpp b/sources/core/data.cpp
index 3dffbbb..afa1dc8 100644
--- a/sources/core/data.cpp
+++ b/sources/core/data.cpp
@@ -25,6 +25,8 @@ void data::save(const std::string& filename) const
 
         alta::save_data_as_text(file, *this);
 
+    // Raise an exception when the file could not be written completely.
+    file.exceptions(std::ios_base::failbit | std::ios_base::badbit);
     file.close();
 }
 
diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index e76dca4..b3d22ca 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -136,6 +136,10 @@ void function::save(const std::string& filename, const arguments& args) const
 	{
 		file << "::end shader" << std::endl;
 	}
+
+	// Raise an exception when the file could not be written completely.
+	file.exceptions(std::ios_base::failbit | std::ios_base::badbit);
+	file.close();
 }
 		
 //! \brief save the header of the output function file. The header should
diff --git a/sources/plugins/data_interpolants/grid.cpp b/sources/plugins/data_interpolants/grid.cpp
index ede17ff..5097b87 100644
--- a/sources/plugins/data_interpolants/grid.cpp
+++ b/sources/plugins/data_interpolants/grid.cpp
@@ -303,6 +303,8 @@ class BrdfGrid : public vertical_segment {
             file << std::endl;
          }
 
+         // Raise an exception when the file could not be written completely.
+         file.exceptions(std::ios_base::failbit | std::ios_base::badbit);
          file.close();
       }
 
diff --git a/sources/plugins/data_io/EXR_IO.h b/sources/plugins/data_io/EXR_IO.h
index 8442589..e5ef688 100644
--- a/sources/plugins/data_io/EXR_IO.h
+++ b/sources/plugins/data_io/EXR_IO.h
@@ -12,6 +12,7 @@
 // STL includes
 #include <stdexcept>
 #include <cassert>
+#include <fstream>
 #include <istream>
 #include <iterator>
 #include <vector>
@@ -168,13 +169,23 @@ class t_EXR_IO
 			}
 
 			const char* err;
-			int ret = SaveEXRImageToFile(&image, &header, filename, &err);
-			if (ret != TINYEXR_SUCCESS) {
+			unsigned char* mem = NULL;
+			const size_t size = SaveEXRImageToMemory(&image, &header, &mem, &err);
+			if (size == 0) {
 				std::cerr << "<<ERROR>> Unable to save to EXR file" << std::endl;
 				std::cerr << "<<ERROR>> " << err << std::endl;
 				return false;
 			}
 
+			std::ofstream file(filename, std::ios_base::out | std::ios_base::binary);
+			file.write((const char*)mem, size);
+			file.close();
+			free(mem);
+			if (!file) {
+				std::cerr << "<<ERROR>> Unable to write EXR file" << std::endl;
+				return false;
+			}
+
 			free(header.channels);
 			free(header.pixel_types);
 			free(header.requested_pixel_types);
diff --git a/sources/plugins/data_io/merl.cpp b/sources/plugins/data_io/merl.cpp
index 97e6ef1..2afb7ae 100644
--- a/sources/plugins/data_io/merl.cpp
+++ b/sources/plugins/data_io/merl.cpp
@@ -123,10 +123,11 @@ public: // methods
 
 		const int n = dims[0]*dims[1]*dims[2];
 
-		fwrite(dims, sizeof(int), 3, f);
-		fwrite(brdf, sizeof(double), 3*n, f);
+		const bool written = fwrite(dims, sizeof(int), 3, f) == 3
+		                  && fwrite(brdf, sizeof(double), 3*n, f) == size_t(3*n);
 
-		fclose(f);
+		if(fclose(f) != 0 || !written)
+			throw std::ios_base::failure("unable to write file");
 	}
 
 	// Acces to data
diff --git a/sources/plugins/data_io/utia.cpp b/sources/plugins/data_io/utia.cpp
index 5257162..c6a3cb0 100644
--- a/sources/plugins/data_io/utia.cpp
+++ b/sources/plugins/data_io/utia.cpp
@@ -142,9 +142,10 @@ public:
 				throw std::ios_base::failure("unable to save image file");
 		} else {
 			std::ofstream stream;
-			stream.exceptions(std::ios_base::failbit);
+			stream.exceptions(std::ios_base::failbit | std::ios_base::badbit);
 			stream.open(filename.c_str(), std::ios_base::out | std::ios_base::binary);
 			stream.write((const char*)Bd, planes*nPerPlane*sizeof(double));
+			stream.close();
 		}
 	}
 
diff --git a/sources/softs/brdf2gnuplot/main.cpp b/sources/softs/brdf2gnuplot/main.cpp
index 7983992..0b42ed7 100644
--- a/sources/softs/brdf2gnuplot/main.cpp
+++ b/sources/softs/brdf2gnuplot/main.cpp
@@ -196,6 +196,11 @@ int main(int argc, char** argv)
 		}
 
 		file.close();
+		if(!file)
+		{
+			std::cerr << "<<ERROR>> failed to write \"" << args["output"] << "\"" << std::endl;
+			return 1;
+		}
 	}
 	else if(args.is_defined("polar-plot"))
 	{
@@ -251,7 +256,12 @@ int main(int argc, char** argv)
 			for(int k=0; k<f->parametrization().dimY(); ++k) { file << y[k] << "\t"; }
 			file << std::endl;
 		}
-			file.close();
+		file.close();
+		if(!file)
+		{
+			std::cerr << "<<ERROR>> failed to write \"" << args["output"] << "\"" << std::endl;
+			return 1;
+		}
 	}
 	else
 	{
diff --git a/sources/softs/data2data/main.cpp b/sources/softs/data2data/main.cpp
index 047d900..bf44e54 100644
--- a/sources/softs/data2data/main.cpp
+++ b/sources/softs/data2data/main.cpp
@@ -402,9 +402,10 @@ int main(int argc, char** argv)
       try
       {
           std::ofstream out;
-          out.exceptions(std::ios_base::failbit);
+          out.exceptions(std::ios_base::failbit | std::ios_base::badbit);
           out.open(args["output"]);
           save_data_as_binary(out, *d_out);
+          out.close();
       }
       CATCH_FILE_IO_ERROR(args["output"]);
   }
diff --git a/sources/softs/data2moments/main.cpp b/sources/softs/data2moments/main.cpp
index b885a15..874c781 100644
--- a/sources/softs/data2moments/main.cpp
+++ b/sources/softs/data2moments/main.cpp
@@ -358,6 +358,11 @@ int main(int argc, char** argv)
 #endif
 
 		file.close();
+		if(!file)
+		{
+			std::cerr << "<<ERROR>> failed to write \"" << args["output"] << "\"" << std::endl;
+			return 1;
+		}
 		return 0 ;
 	}
 	else
diff --git a/sources/softs/data2stats/data2stats.cpp b/sources/softs/data2stats/data2stats.cpp
index 1744653..4544667 100644
--- a/sources/softs/data2stats/data2stats.cpp
+++ b/sources/softs/data2stats/data2stats.cpp
@@ -575,8 +575,10 @@ int main(int argc, char* argv[])
             fwriter << "MSE :"  << mse       << std::endl;
             fwriter << "RMSE :" << rmse      << std::endl;
             fwriter << std::endl;
+            fwriter.close();
+         }
 
-         } else {
+         if(!fwriter.good()) {
             std::cerr << "<<ERROR>> Could not save metrics to "
                       << output_filename << std::endl;
             return EXIT_FAILURE;
diff --git a/sources/softs/fit2stat/fit2stat.cpp b/sources/softs/fit2stat/fit2stat.cpp
index 28fb5f8..fccf9c5 100644
--- a/sources/softs/fit2stat/fit2stat.cpp
+++ b/sources/softs/fit2stat/fit2stat.cpp
@@ -682,8 +682,10 @@ main(int argc, char* argv[])
         fwriter << "MSE * cos(theta_light) * cos(theta_view) :" << w_cosine_light_view_mse << std::endl;
         fwriter << "RMSE * cos(theta_light) cos(theta_view)  :" << w_cosine_light_view_rmse << std::endl;
         fwriter << std::endl;
+        fwriter.close();
       }
-      else
+
+      if( !fwriter.good() )
       {
         std::cerr << "<<ERROR>> Could not save metrics to " << output_filename << std::endl;
         return EXIT_FAILURE;
-- 
2.43.0


From 523bf7bf53faf45033be317887da15615f2fccb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:25 +0000
Subject: [PATCH 156/162] fix: EXR images without one of the colour channels
 were read with uninitialised values

---
 sources/plugins/data_io/EXR_IO.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/data_io/EXR_IO.h b/sources/plugins/data_io/EXR_IO.h
index e5ef688..b151699 100644
--- a/sources/plugins/data_io/EXR_IO.h
+++ b/sources/plugins/data_io/EXR_IO.h
@@ -93,7 +93,7 @@ class t_EXR_IO
 			/* Recopy the image into the provided pixel array */
 			W = _image.width;
 			H = _image.height;
-			pix = new FType[W*H*3];
+			pix = new FType[W*H*3](); // channels the file lacks are zero
 			for(int k=0; k<_image.num_channels; ++k) {
 				for(int i=0; i<W*H; ++i) {
 					const FType val = (FType)(reinterpret_cast<float **>(_image.images)[k][i]);
-- 
2.43.0


From 2452e1a4cd2385897ccfbacc170f31c08942732c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:25 +0000
Subject: [PATCH 157/162] fix: timers printed ten times too many hours

---
 sources/core/common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/common.cpp b/sources/core/common.cpp
index 1547954..ed57b99 100644
--- a/sources/core/common.cpp
+++ b/sources/core/common.cpp
@@ -86,7 +86,7 @@ void timer::print(std::ostream& out) const
     unsigned int tsec = elapsed() ;
     unsigned int sec  = tsec % 60 ;
     unsigned int min  = (tsec / 60) % 60 ;
-    unsigned int hour = (tsec / 360) ;
+    unsigned int hour = (tsec / 3600) ;
     out << hour << "h " << min << "m " << sec << "s" ;
 }
 
-- 
2.43.0


From 7a5e306da6bb9928346149dab7409a5e722fbd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:36 +0000
Subject: [PATCH 158/162] fix: --data-correct-cosine multiplied by one cosine
 instead of dividing by both

---
 sources/core/data_storage.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index 0779e0c..f267753 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -42,18 +42,14 @@ static bool cosine_correction(vecref v, unsigned int dimX, unsigned int dimY,
 
     assert(v.size() == dimX + dimY);
 
-    // Correction of the data by 1/cosine(theta_L)
-    double factor = 1.0;
+    // Correction of the data by 1/(cosine(theta_L) cosine(theta_V))
     double cart[6];
     params::convert(&v(0), in_param, params::CARTESIAN, cart);
     if(cart[5] > 0.0 && cart[2] > 0.0)
     {
-        factor = 1.0/cart[5]*cart[2];
+        const double factor = cart[5]*cart[2];
         for(unsigned int i = 0; i < dimY; ++i)
         {
-            std::cout << "i = " << i << " dimx = " << dimX
-                      << " + = " << i + dimX << " | " << v.size()
-                      << std::endl;
             v(i + dimX) /= factor;
         }
         return true;
-- 
2.43.0


From a49c8ac9276abda86b6b11d5f077dafdb54a38ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:47 +0000
Subject: [PATCH 159/162] fix: correcting cosines failed where a debugging copy
 in /tmp could not be written

---
 sources/core/data_storage.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index f267753..91917bc 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -262,8 +262,6 @@ alta::data* alta::load_data_from_text(std::istream& input,
   data* result = new vertical_segment(param, element_count,
                                       std::shared_ptr<double>(raw_content,
                                                                             delete_array));
-  if(args.is_defined("data-correct-cosine"))
-      result->save("/tmp/data-corrected.dat");
 
   std::cout << "<<INFO>> " << element_count << " elements (rows) loaded" << std::endl ;
 
-- 
2.43.0


From 025b94f1b46b83c6772951432e17b1937f4bb476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:34 +0000
Subject: [PATCH 160/162] fix: data_rbf did not interpolate the nearest samples

The randomized KD-trees of FLANN give approximate neighbours only. A single
KD-tree gives the exact ones for the few dimensions used here.
---
 sources/plugins/data_interpolants/rbf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/data_interpolants/rbf.cpp b/sources/plugins/data_interpolants/rbf.cpp
index dec0765..62fb5d9 100644
--- a/sources/plugins/data_interpolants/rbf.cpp
+++ b/sources/plugins/data_interpolants/rbf.cpp
@@ -104,7 +104,7 @@ class rbf_interpolant : public data
             vec x = _data->get(i);
             memcpy(pts[i], &x[0], parametrization().dimX()*sizeof(double));
         }
-        _kdtree = new flann::Index< flann::L2<double> >(pts, flann::KDTreeIndexParams(4));
+        _kdtree = new flann::Index< flann::L2<double> >(pts, flann::KDTreeSingleIndexParams());
         _kdtree->buildIndex();
 #endif
     }
-- 
2.43.0


From f4dea33bf01bf1eb49b0f4ef91673cc9bd81e4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:38 +0000
Subject: [PATCH 161/162] fix: updating a rational function with other sizes
 left its degrees unset

---
 sources/core/rational_function.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/core/rational_function.cpp b/sources/core/rational_function.cpp
index 3badf53..6df549d 100644
--- a/sources/core/rational_function.cpp
+++ b/sources/core/rational_function.cpp
@@ -206,6 +206,7 @@ void rational_function_1d::update(const vec& in_a,
   const unsigned int nq = in_b.size();
 
 	// Resize the coefficient vector if they do not match
+	resize(np, nq);
 	if(np != _p_coeffs.size()) {
 		_p_coeffs.resize(np);
 	}
-- 
2.43.0


From 9c1f873d46dd66acf7ea649a81aaae28167592bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:51 +0000
Subject: [PATCH 162/162] fix: list elements of more than 255 characters were
 read back in pieces

---
 sources/core/args.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sources/core/args.h b/sources/core/args.h
index 93e53b4..42e26af 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -318,12 +318,11 @@ class arguments
 				if(str[0] == '[' && str[str.size()-1] == ']') // Is an array of type [a, b, c]
 				{
 					std::stringstream stream(str.substr(1, str.size()-2));
-					char s[256];
+					std::string s;
 					while(stream.good())
 					{
 						// Extract the value v from the stream s
-						stream.get(s, 256, ',');
-						stream.ignore(1);
+						std::getline(stream, s, ',');
 						std::stringstream sstream(s);
 						T v = T();
 						sstream >> v;
-- 
2.43.0

