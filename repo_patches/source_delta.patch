From 5fafd39dc8c699e6214acebe23ba712475565dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:01 +0000
Subject: [PATCH] fix: search for the closest wall is not limited by a number
 of cells taken as metres

The sentinel for 'no wall found' was 2 * half_length_z_, a number of cells,
compared with distances in metres. With cells higher than 1 m a wall among the
nine cells could be ignored and its soil dropped on the ground.
---
 soil_simulator/body_soil.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soil_simulator/body_soil.cpp b/soil_simulator/body_soil.cpp
index c617f4a..2042e19 100644
--- a/soil_simulator/body_soil.cpp
+++ b/soil_simulator/body_soil.cpp
@@ -8,6 +8,7 @@ Copyright, 2023, Vilella Kenny.
 #include <algorithm>
 #include <cmath>
 #include <iostream>
+#include <limits>
 #include <vector>
 #include "soil_simulator/body_soil.hpp"
 #include "soil_simulator/types.hpp"
@@ -117,7 +118,7 @@ void soil_simulator::UpdateBodySoil(
         int ii_s;
         int jj_s;
         int ind_s;
-        float dist_s = 2 * grid.half_length_z_;
+        float dist_s = std::numeric_limits<float>::max();
 
         // Starting loop over neighbours
         for (auto xy = 0; xy < directions.size(); xy++) {
@@ -188,7 +189,7 @@ void soil_simulator::UpdateBodySoil(
         }
 
         if (!soil_moved) {
-            if (dist_s != 2 * grid.half_length_z_) {
+            if (dist_s != std::numeric_limits<float>::max()) {
                 // Moving body_soil to closest location, this implementation
                 // works regardless of the presence of body_soil
                 sim_out->body_soil_[ind_s][ii_s][jj_s] += (
-- 
2.43.0

