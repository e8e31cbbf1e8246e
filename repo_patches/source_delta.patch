From f07d74caeab5b80f4425d28df3639321317b4eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 01/27] fix: serialise the capture of worker exceptions

Several worker threads could assign the shared std::exception_ptr at the
same time, which is a data race (std::exception_ptr is not atomic).
---
 src/pyinterp/core/include/pyinterp/bivariate.hpp     |  2 +-
 src/pyinterp/core/include/pyinterp/detail/thread.hpp | 12 ++++++++++++
 src/pyinterp/core/include/pyinterp/fill.hpp          | 10 +++++-----
 .../core/include/pyinterp/geodetic/algorithm.hpp     |  4 ++--
 .../core/include/pyinterp/geodetic/coordinates.hpp   |  6 +++---
 src/pyinterp/core/include/pyinterp/quadrivariate.hpp |  2 +-
 src/pyinterp/core/include/pyinterp/rtree.hpp         | 12 ++++++------
 src/pyinterp/core/include/pyinterp/trivariate.hpp    |  2 +-
 src/pyinterp/core/lib/geodetic/line_string.cpp       |  4 ++--
 src/pyinterp/core/lib/geodetic/rtree.cpp             |  8 ++++----
 src/pyinterp/core/module/bicubic.cpp                 |  6 +++---
 11 files changed, 40 insertions(+), 28 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/bivariate.hpp b/src/pyinterp/core/include/pyinterp/bivariate.hpp
index bc36a5a..4598c78 100644
--- a/src/pyinterp/core/include/pyinterp/bivariate.hpp
+++ b/src/pyinterp/core/include/pyinterp/bivariate.hpp
@@ -143,7 +143,7 @@ auto bivariate(const Grid2D<Type> &grid, const pybind11::array_t<Coordinate> &x,
                                        interpolator, bounds_error);
             }
           } catch (...) {
-            except = std::current_exception();
+            detail::store_exception(except);
           }
         },
         size, num_threads);
diff --git a/src/pyinterp/core/include/pyinterp/detail/thread.hpp b/src/pyinterp/core/include/pyinterp/detail/thread.hpp
index 2cd1dd3..879430d 100644
--- a/src/pyinterp/core/include/pyinterp/detail/thread.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/thread.hpp
@@ -3,11 +3,23 @@
 // All rights reserved. Use of this source code is governed by a
 // BSD-style license that can be found in the LICENSE file.
 #pragma once
+#include <exception>
+#include <mutex>
 #include <thread>
 #include <vector>
 
 namespace pyinterp::detail {
 
+/// Stores the exception being handled in the exception pointer shared by the
+/// threads of a parallel computation (only the last exception captured is kept)
+///
+/// @param except Exception pointer shared by the threads
+inline void store_exception(std::exception_ptr &except) {
+  static std::mutex mutex;
+  std::lock_guard<std::mutex> guard(mutex);
+  except = std::current_exception();
+}
+
 /// Automates the cutting of vectors to be processed in thread.
 ///
 /// @param worker Lambda function called in each thread launched
diff --git a/src/pyinterp/core/include/pyinterp/fill.hpp b/src/pyinterp/core/include/pyinterp/fill.hpp
index d7c1305..b65261c 100644
--- a/src/pyinterp/core/include/pyinterp/fill.hpp
+++ b/src/pyinterp/core/include/pyinterp/fill.hpp
@@ -69,7 +69,7 @@ void set_zonal_average(pybind11::EigenDRef<Matrix<Type>> &grid,
             }
           }
         } catch (...) {
-          except = std::current_exception();
+          detail::store_exception(except);
         }
       },
       grid.cols(), num_threads);
@@ -146,7 +146,7 @@ auto gauss_seidel(pybind11::EigenDRef<pyinterp::Matrix<Type>> &grid,
         }
       }
     } catch (...) {
-      except = std::current_exception();
+      detail::store_exception(except);
     }
   };
 
@@ -497,7 +497,7 @@ auto loess(const Grid2D<Type> &grid, const uint32_t nx, const uint32_t ny,
         }
       }
     } catch (...) {
-      except = std::current_exception();
+      detail::store_exception(except);
     }
   };
 
@@ -608,7 +608,7 @@ auto loess(const Grid3D<Type, AxisType> &grid, const uint32_t nx,
         }
       }
     } catch (...) {
-      except = std::current_exception();
+      detail::store_exception(except);
     }
   };
 
@@ -667,7 +667,7 @@ auto loess(const Grid4D<Type, AxisType> &grid, const uint32_t nx,
         }
       }
     } catch (...) {
-      except = std::current_exception();
+      detail::store_exception(except);
     }
   };
 
diff --git a/src/pyinterp/core/include/pyinterp/geodetic/algorithm.hpp b/src/pyinterp/core/include/pyinterp/geodetic/algorithm.hpp
index efbc60b..ec3a2bd 100644
--- a/src/pyinterp/core/include/pyinterp/geodetic/algorithm.hpp
+++ b/src/pyinterp/core/include/pyinterp/geodetic/algorithm.hpp
@@ -94,7 +94,7 @@ template <typename Geometry1, typename Geometry2>
                   Geometry1(lon(ix), lat(ix)), geometry2);
             }
           } catch (...) {
-            except = std::current_exception();
+            detail::store_exception(except);
           }
         },
         size, num_threads);
@@ -170,7 +170,7 @@ template <typename Geometry, typename Strategy>
                   strategy);
             }
           } catch (...) {
-            except = std::current_exception();
+            detail::store_exception(except);
           }
         },
         size, num_threads);
diff --git a/src/pyinterp/core/include/pyinterp/geodetic/coordinates.hpp b/src/pyinterp/core/include/pyinterp/geodetic/coordinates.hpp
index 4f7c368..77aac9e 100644
--- a/src/pyinterp/core/include/pyinterp/geodetic/coordinates.hpp
+++ b/src/pyinterp/core/include/pyinterp/geodetic/coordinates.hpp
@@ -63,7 +63,7 @@ class Coordinates : public detail::geodetic::Coordinates {
                 _alt(ix) = boost::geometry::get<2>(lla);
               }
             } catch (...) {
-              except = std::current_exception();
+              detail::store_exception(except);
             }
           },
           size, num_threads);
@@ -111,7 +111,7 @@ class Coordinates : public detail::geodetic::Coordinates {
                 z_(ix) = boost::geometry::get<2>(ecef);
               }
             } catch (...) {
-              except = std::current_exception();
+              detail::store_exception(except);
             }
           },
           size, num_threads);
@@ -159,7 +159,7 @@ class Coordinates : public detail::geodetic::Coordinates {
                 _alt2(ix) = boost::geometry::get<2>(lla);
               }
             } catch (...) {
-              except = std::current_exception();
+              detail::store_exception(except);
             }
           },
           size, num_threads);
diff --git a/src/pyinterp/core/include/pyinterp/quadrivariate.hpp b/src/pyinterp/core/include/pyinterp/quadrivariate.hpp
index fa3b694..7ed6550 100644
--- a/src/pyinterp/core/include/pyinterp/quadrivariate.hpp
+++ b/src/pyinterp/core/include/pyinterp/quadrivariate.hpp
@@ -166,7 +166,7 @@ auto quadrivariate(const Grid4D<Type, AxisType> &grid,
                   u_interpolation_method, bounds_error);
             }
           } catch (...) {
-            except = std::current_exception();
+            detail::store_exception(except);
           }
         },
         size, num_threads);
diff --git a/src/pyinterp/core/include/pyinterp/rtree.hpp b/src/pyinterp/core/include/pyinterp/rtree.hpp
index c86cb38..e3ccb5e 100644
--- a/src/pyinterp/core/include/pyinterp/rtree.hpp
+++ b/src/pyinterp/core/include/pyinterp/rtree.hpp
@@ -575,7 +575,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
                 }
               }
             } catch (...) {
-              except = std::current_exception();
+              detail::store_exception(except);
             }
           },
           size, num_threads);
@@ -659,7 +659,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
                 }
               }
             } catch (...) {
-              except = std::current_exception();
+              detail::store_exception(except);
             }
           },
           size, num_threads);
@@ -714,7 +714,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
                 _neighbors(ix) = result.second;
               }
             } catch (...) {
-              except = std::current_exception();
+              detail::store_exception(except);
             }
           },
           size, num_threads);
@@ -773,7 +773,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
                 _neighbors(ix) = result.second;
               }
             } catch (...) {
-              except = std::current_exception();
+              detail::store_exception(except);
             }
           },
           size, num_threads);
@@ -832,7 +832,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
                 _neighbors(ix) = result.second;
               }
             } catch (...) {
-              except = std::current_exception();
+              detail::store_exception(except);
             }
           },
           size, num_threads);
@@ -890,7 +890,7 @@ class RTree : public detail::geometry::RTree<Point, Type> {
                 _neighbors(ix) = result.second;
               }
             } catch (...) {
-              except = std::current_exception();
+              detail::store_exception(except);
             }
           },
           size, num_threads);
diff --git a/src/pyinterp/core/include/pyinterp/trivariate.hpp b/src/pyinterp/core/include/pyinterp/trivariate.hpp
index 8d53c30..121ef19 100644
--- a/src/pyinterp/core/include/pyinterp/trivariate.hpp
+++ b/src/pyinterp/core/include/pyinterp/trivariate.hpp
@@ -121,7 +121,7 @@ auto trivariate(const Grid3D<Type, AxisType> &grid,
                                         z_interpolation_method, bounds_error);
             }
           } catch (...) {
-            except = std::current_exception();
+            detail::store_exception(except);
           }
         },
         size, num_threads);
diff --git a/src/pyinterp/core/lib/geodetic/line_string.cpp b/src/pyinterp/core/lib/geodetic/line_string.cpp
index 2340cc5..aea2532 100644
--- a/src/pyinterp/core/lib/geodetic/line_string.cpp
+++ b/src/pyinterp/core/lib/geodetic/line_string.cpp
@@ -235,7 +235,7 @@ auto LineString::closest_point(const Eigen::Ref<const Eigen::VectorXd>& lon,
           result_lat[ix] = point.lat();
         }
       } catch (...) {
-        except = std::current_exception();
+        detail::store_exception(except);
       }
     };
     detail::dispatch(worker, lon.size(), num_threads);
@@ -248,7 +248,7 @@ auto LineString::closest_point(const Eigen::Ref<const Eigen::VectorXd>& lon,
           result_lat[ix] = point.lat();
         }
       } catch (...) {
-        except = std::current_exception();
+        detail::store_exception(except);
       }
     };
     detail::dispatch(worker, lon.size(), num_threads);
diff --git a/src/pyinterp/core/lib/geodetic/rtree.cpp b/src/pyinterp/core/lib/geodetic/rtree.cpp
index 0a6aedb..426dfb6 100644
--- a/src/pyinterp/core/lib/geodetic/rtree.cpp
+++ b/src/pyinterp/core/lib/geodetic/rtree.cpp
@@ -133,7 +133,7 @@ auto RTree::query(const Eigen::Ref<const Vector<double>> &lon,
               }
             }
           } catch (...) {
-            except = std::current_exception();
+            detail::store_exception(except);
           }
         },
         size, num_threads);
@@ -181,7 +181,7 @@ auto RTree::inverse_distance_weighting(
               _neighbors(ix) = result.second;
             }
           } catch (...) {
-            except = std::current_exception();
+            detail::store_exception(except);
           }
         },
         size, num_threads);
@@ -239,7 +239,7 @@ auto RTree::radial_basis_function(const Eigen::Ref<const Vector<double>> &lon,
               _neighbors(ix) = result.second;
             }
           } catch (...) {
-            except = std::current_exception();
+            detail::store_exception(except);
           }
         },
         size, num_threads);
@@ -290,7 +290,7 @@ auto RTree::window_function(const Eigen::Ref<const Vector<double>> &lon,
               _neighbors(ix) = result.second;
             }
           } catch (...) {
-            except = std::current_exception();
+            detail::store_exception(except);
           }
         },
         size, num_threads);
diff --git a/src/pyinterp/core/module/bicubic.cpp b/src/pyinterp/core/module/bicubic.cpp
index a097442..0144503 100644
--- a/src/pyinterp/core/module/bicubic.cpp
+++ b/src/pyinterp/core/module/bicubic.cpp
@@ -82,7 +82,7 @@ auto bicubic(const Grid2D<DataType> &grid, const py::array_t<double> &x,
                       : std::numeric_limits<double>::quiet_NaN();
             }
           } catch (...) {
-            except = std::current_exception();
+            detail::store_exception(except);
           }
         },
         size, num_threads);
@@ -147,7 +147,7 @@ auto bicubic_3d(const Grid3D<DataType, AxisType> &grid,
               }
             }
           } catch (...) {
-            except = std::current_exception();
+            detail::store_exception(except);
           }
         },
         size, num_threads);
@@ -226,7 +226,7 @@ auto bicubic_4d(const Grid4D<DataType, AxisType> &grid,
               }
             }
           } catch (...) {
-            except = std::current_exception();
+            detail::store_exception(except);
           }
         },
         size, num_threads);
-- 
2.43.0


From 69806f263faec109c85259a51164675ba2a41da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 02/27] fix: rethrow the exceptions captured by the LOESS
 workers

The exceptions raised in the threads of the LOESS filters were stored and
dropped, and the caller got an uninitialized result.
---
 src/pyinterp/core/include/pyinterp/fill.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/pyinterp/core/include/pyinterp/fill.hpp b/src/pyinterp/core/include/pyinterp/fill.hpp
index b65261c..a51c263 100644
--- a/src/pyinterp/core/include/pyinterp/fill.hpp
+++ b/src/pyinterp/core/include/pyinterp/fill.hpp
@@ -505,6 +505,10 @@ auto loess(const Grid2D<Type> &grid, const uint32_t nx, const uint32_t ny,
     pybind11::gil_scoped_release release;
     detail::dispatch(worker, grid.x()->size(), num_threads);
   }
+
+  if (except != nullptr) {
+    std::rethrow_exception(except);
+  }
   return result;
 }
 
@@ -616,6 +620,10 @@ auto loess(const Grid3D<Type, AxisType> &grid, const uint32_t nx,
     pybind11::gil_scoped_release release;
     detail::dispatch(worker, grid.z()->size(), num_threads);
   }
+
+  if (except != nullptr) {
+    std::rethrow_exception(except);
+  }
   return result;
 }
 
@@ -675,6 +683,10 @@ auto loess(const Grid4D<Type, AxisType> &grid, const uint32_t nx,
     pybind11::gil_scoped_release release;
     detail::dispatch(worker, grid.u()->size(), num_threads);
   }
+
+  if (except != nullptr) {
+    std::rethrow_exception(except);
+  }
   return result;
 }
 
-- 
2.43.0


From 68cb0054350077e9976a68af19857d92cbd26cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 03/27] fix: do not terminate the process when masking GeoHash
 cells fails

The worker of mask_cell let its exceptions leave the thread, which calls
std::terminate; the exception pointer rethrown after the dispatch was never
set.
---
 src/pyinterp/core/lib/geohash/string.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/pyinterp/core/lib/geohash/string.cpp b/src/pyinterp/core/lib/geohash/string.cpp
index eb86a5b..4e4f03e 100644
--- a/src/pyinterp/core/lib/geohash/string.cpp
+++ b/src/pyinterp/core/lib/geohash/string.cpp
@@ -237,17 +237,21 @@ auto mask_cell(const geodetic::Box &box, const Geometry &geometry,
 
   detail::dispatch(
       [&](size_t start, size_t end) {
-        for (auto lat = static_cast<int64_t>(start);
-             lat < static_cast<int64_t>(end); ++lat) {
-          auto point = geodetic::Point(
-              0, point_sw.lat() + static_cast<double>(lat) * lat_err);
-
-          for (size_t lon = 0; lon < lon_step; ++lon) {
-            point.lon(point_sw.lon() + static_cast<double>(lon) * lng_err);
-            result(lon, lat) = boost::geometry::intersects(
-                int64::bounding_box(int64::encode(point, bits), bits),
-                geometry);
+        try {
+          for (auto lat = static_cast<int64_t>(start);
+               lat < static_cast<int64_t>(end); ++lat) {
+            auto point = geodetic::Point(
+                0, point_sw.lat() + static_cast<double>(lat) * lat_err);
+
+            for (size_t lon = 0; lon < lon_step; ++lon) {
+              point.lon(point_sw.lon() + static_cast<double>(lon) * lng_err);
+              result(lon, lat) = boost::geometry::intersects(
+                  int64::bounding_box(int64::encode(point, bits), bits),
+                  geometry);
+            }
           }
+        } catch (...) {
+          detail::store_exception(except);
         }
       },
       lat_step, num_threads);
-- 
2.43.0


From 66b12579e33938829f1b72d8f56b5917c79232de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:01 +0000
Subject: [PATCH 04/27] fix: check the shape of the coordinates given to
 LineString.closest_point

The latitudes were read with the indices of the longitudes: a shorter vector
of latitudes was read out of bounds.
---
 src/pyinterp/core/lib/geodetic/line_string.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyinterp/core/lib/geodetic/line_string.cpp b/src/pyinterp/core/lib/geodetic/line_string.cpp
index aea2532..446baa6 100644
--- a/src/pyinterp/core/lib/geodetic/line_string.cpp
+++ b/src/pyinterp/core/lib/geodetic/line_string.cpp
@@ -222,6 +222,7 @@ auto LineString::closest_point(const Eigen::Ref<const Eigen::VectorXd>& lon,
                                const std::optional<Spheroid>& wgs,
                                const size_t num_threads) const
     -> std::tuple<Eigen::VectorXd, Eigen::VectorXd> {
+  detail::check_eigen_shape("lon", lon, "lat", lat);
   auto result_lon = Eigen::VectorXd(lon.size());
   auto result_lat = Eigen::VectorXd(lat.size());
   auto except = std::exception_ptr(nullptr);
-- 
2.43.0


From f882c04cea7f4f23a70f5e7d3d82d44f0e0b43fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:18 +0000
Subject: [PATCH 05/27] fix: take the GIL to report that a GeoHash array cannot
 be allocated

int64::allocate_array is called by string::zoom_in while the GIL is released.
---
 src/pyinterp/core/lib/geohash/int64.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyinterp/core/lib/geohash/int64.cpp b/src/pyinterp/core/lib/geohash/int64.cpp
index 749c8a9..4822ad0 100644
--- a/src/pyinterp/core/lib/geohash/int64.cpp
+++ b/src/pyinterp/core/lib/geohash/int64.cpp
@@ -237,6 +237,7 @@ auto allocate_array(const size_t size) -> Vector<uint64_t> {
     auto ss = std::stringstream();
     ss << "Unable to allocate " << format_bytes(size * 8ULL)
        << " for an array with shape (" << size << ",) and data type uint64";
+    auto gil = pybind11::gil_scoped_acquire();
     PyErr_SetString(PyExc_MemoryError, ss.str().c_str());
     throw pybind11::error_already_set();
   }
-- 
2.43.0


From 6c177d3177d16b1b9ccc4931e8f421d4a6d142d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:15 +0000
Subject: [PATCH 06/27] fix: check the shapes of the arrays given to
 Binning1D.push

---
 src/pyinterp/core/include/pyinterp/binning.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pyinterp/core/include/pyinterp/binning.hpp b/src/pyinterp/core/include/pyinterp/binning.hpp
index adc2197..adb2b17 100644
--- a/src/pyinterp/core/include/pyinterp/binning.hpp
+++ b/src/pyinterp/core/include/pyinterp/binning.hpp
@@ -387,6 +387,12 @@ class Binning1D : public Binning2D<T> {
   /// @param z values of the points.
   void push(const pybind11::array_t<T> &x, const pybind11::array_t<T> &z,
             const std::optional<pybind11::array_t<T>> &weights = std::nullopt) {
+    detail::check_array_ndim("x", 1, x, "z", 1, z);
+    detail::check_ndarray_shape("x", x, "z", z);
+    if (weights.has_value()) {
+      detail::check_array_ndim("weights", 1, *weights);
+      detail::check_ndarray_shape("x", x, "weights", *weights);
+    }
     auto _x = x.template unchecked<1>();
     auto _z = z.template unchecked<1>();
     auto _weights = weights.has_value()
-- 
2.43.0


From ad5fca8afa2902ecdf2b8b69b6067336e1589f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:37 +0000
Subject: [PATCH 07/27] fix: restore the geodetic system of a pickled Binning2D

---
 src/pyinterp/core/include/pyinterp/binning.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/binning.hpp b/src/pyinterp/core/include/pyinterp/binning.hpp
index adb2b17..c633d4c 100644
--- a/src/pyinterp/core/include/pyinterp/binning.hpp
+++ b/src/pyinterp/core/include/pyinterp/binning.hpp
@@ -191,7 +191,7 @@ class Binning2D {
     auto wgs = std::optional<geodetic::Spheroid>();
     auto wgs_state = state[2].cast<pybind11::tuple>();
     if (!wgs_state.empty()) {
-      *wgs = geodetic::Spheroid::setstate(wgs_state);
+      wgs = geodetic::Spheroid::setstate(wgs_state);
     }
 
     // Unmarshalling computed statistics
-- 
2.43.0


From 3ac064a370fbc57d0ba43ecb5ea41704a98980d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:23 +0000
Subject: [PATCH 08/27] fix: restore a pickled RTree that manages Cartesian
 coordinates

---
 src/pyinterp/core/include/pyinterp/rtree.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/rtree.hpp b/src/pyinterp/core/include/pyinterp/rtree.hpp
index e3ccb5e..9b54690 100644
--- a/src/pyinterp/core/include/pyinterp/rtree.hpp
+++ b/src/pyinterp/core/include/pyinterp/rtree.hpp
@@ -397,7 +397,12 @@ class RTree : public detail::geometry::RTree<Point, Type> {
       }
       vector.emplace_back(std::make_pair(point, _u(ix)));
     }
-    auto result = RTree<Point, Type>(spheroid, ecef);
+    // The geodetic system can't be provided if the ECEF system is used.
+    auto wgs = std::optional<detail::geodetic::Spheroid>();
+    if (!ecef) {
+      wgs = spheroid;
+    }
+    auto result = RTree<Point, Type>(wgs, ecef);
     static_cast<base_t>(result).packing(vector);
     return result;
   }
-- 
2.43.0


From b2f9c1ee7e11148271f6221ae968a0768da905ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:21 +0000
Subject: [PATCH 09/27] fix: make the cauchy and whittle_matern covariance
 functions available

---
 src/pyinterp/interface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyinterp/interface.py b/src/pyinterp/interface.py
index 9ace82b..d003a5c 100644
--- a/src/pyinterp/interface.py
+++ b/src/pyinterp/interface.py
@@ -98,6 +98,7 @@ def _core_covariance_function(
     """Get the covariance function."""
     covariance = covariance or 'matern_32'
     if covariance not in [
+            'cauchy',
             'exponential',
             'gaussian',
             'linear',
@@ -109,6 +110,7 @@ def _core_covariance_function(
     ]:
         raise ValueError(f'Covariance function {covariance!r} is not defined')
     covariance = '_'.join(item.capitalize() for item in covariance.split('_'))
+    covariance = covariance.replace('Whittle_Matern', 'WhittleMatern')
     return getattr(core.CovarianceFunction, covariance)
 
 
-- 
2.43.0


From f7dcbfa5acb8c07d233d29738a753b1775b2ef05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:20 +0000
Subject: [PATCH 10/27] fix: keep the symmetric window indexes inside the axis

---
 src/pyinterp/core/include/pyinterp/detail/axis.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/axis.hpp b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
index 7e5e0a2..81c166c 100644
--- a/src/pyinterp/core/include/pyinterp/detail/axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/axis.hpp
@@ -425,7 +425,7 @@ class Axis {
               after = math::remainder(after, len);
               break;
             case ::pyinterp::axis::kSym:
-              after = len - 2 - math::remainder(after - len, len);
+              after = len - 1 - math::remainder(after - len + 1, len);
               break;
             default:
               return {};
-- 
2.43.0


From a7824491d6dfaf0d928781946147cb390c1e6b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:20 +0000
Subject: [PATCH 11/27] fix: do not read a period past the end of the list

---
 src/pyinterp/core/include/pyinterp/period.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/period.hpp b/src/pyinterp/core/include/pyinterp/period.hpp
index 65e388f..6fbf101 100644
--- a/src/pyinterp/core/include/pyinterp/period.hpp
+++ b/src/pyinterp/core/include/pyinterp/period.hpp
@@ -326,7 +326,7 @@ class PeriodList {
 
       while (ix < dates.size()) {
         const auto date = dates(ix);
-        while (!it->contains(date) && !it->is_after(date) && it != end) {
+        while (it != end && !it->contains(date) && !it->is_after(date)) {
           ++it;
         }
         if (it == end) {
-- 
2.43.0


From 909141054a5de6006c547ada1f54ff8732dd2920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:20 +0000
Subject: [PATCH 12/27] fix: accept an empty list of axes without reading its
 extrema

---
 src/pyinterp/core/include/pyinterp/detail/numpy.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyinterp/core/include/pyinterp/detail/numpy.hpp b/src/pyinterp/core/include/pyinterp/detail/numpy.hpp
index 3ac5482..4f8fa9b 100644
--- a/src/pyinterp/core/include/pyinterp/detail/numpy.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/numpy.hpp
@@ -18,6 +18,9 @@ template <typename T>
 void check_axis_bounds(
     const pybind11::array_t<T, pybind11::array::c_style> &arr,
     const std::list<pybind11::ssize_t> &axis) {
+  if (axis.empty()) {
+    return;
+  }
   auto ndim = arr.ndim();
   auto [min, max] = std::minmax_element(axis.begin(), axis.end());
   if (*min < 0) {
-- 
2.43.0


From 634479212589d2a4b707c3648930639caad6402d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:20 +0000
Subject: [PATCH 13/27] fix: no nearest point on an empty half-orbit

---
 src/pyinterp/core/lib/geodetic/crossover.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/pyinterp/core/lib/geodetic/crossover.cpp b/src/pyinterp/core/lib/geodetic/crossover.cpp
index 66c5dde..9a70eb5 100644
--- a/src/pyinterp/core/lib/geodetic/crossover.cpp
+++ b/src/pyinterp/core/lib/geodetic/crossover.cpp
@@ -32,10 +32,14 @@ class NearestPoint {
   /// @param point the point to search.
   /// @return the index of the nearest point or none if no intersection is
   ///         found.
-  [[nodiscard]] inline auto operator()(const Point& point) const -> size_t {
+  [[nodiscard]] inline auto operator()(const Point& point) const
+      -> std::optional<size_t> {
     std::vector<std::pair<Point, size_t>> result;
     rtree_.query(boost::geometry::index::nearest(point, 1),
                  std::back_inserter(result));
+    if (result.empty()) {
+      return {};
+    }
     return result[0].second;
   }
 
@@ -95,16 +99,18 @@ auto Crossover::nearest(const Point& point, const double predicate,
                         const std::optional<Spheroid>& wgs) const
     -> std::optional<std::tuple<size_t, size_t>> {
   auto ix1 = NearestPoint(half_orbit_1_)(point);
-  if (half_orbit_1_[ix1].distance(point, strategy, wgs) > predicate) {
+  if (!ix1 ||
+      half_orbit_1_[*ix1].distance(point, strategy, wgs) > predicate) {
     return {};
   }
 
   auto ix2 = NearestPoint(half_orbit_2_)(point);
-  if (half_orbit_2_[ix2].distance(point, strategy, wgs) > predicate) {
+  if (!ix2 ||
+      half_orbit_2_[*ix2].distance(point, strategy, wgs) > predicate) {
     return {};
   }
 
-  return std::make_tuple(ix1, ix2);
+  return std::make_tuple(*ix1, *ix2);
 }
 
 auto crossover(const Eigen::Ref<const Eigen::VectorXd>& lon1,
-- 
2.43.0


From c8b34df577855953bc4da51aefb6004be8ee8fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:00 +0000
Subject: [PATCH 14/27] fix: interpolators return NaN for a point outside their
 data instead of throwing it

---
 .../core/include/pyinterp/detail/interpolation/akima.hpp      | 4 ++--
 .../core/include/pyinterp/detail/interpolation/bicubic.hpp    | 2 +-
 .../core/include/pyinterp/detail/interpolation/bilinear.hpp   | 2 +-
 .../core/include/pyinterp/detail/interpolation/polynomial.hpp | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp b/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp
index bca47a6..2a7feb5 100644
--- a/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/interpolation/akima.hpp
@@ -96,7 +96,7 @@ constexpr auto Akima<T>::interpolate_(const Vector<T>& xa, const Vector<T>& ya,
                                       const T& x) const -> T {
   auto search = this->search(xa, x);
   if (!search) {
-    throw std::numeric_limits<T>::quiet_NaN();
+    return std::numeric_limits<T>::quiet_NaN();
   }
   auto [i0, i1] = *search;
   const auto dx = xa(i1) - xa(i0);
@@ -113,7 +113,7 @@ constexpr auto Akima<T>::derivative_(const Vector<T>& xa, const Vector<T>& ya,
                                      const T& x) const -> T {
   auto search = this->search(xa, x);
   if (!search) {
-    throw std::numeric_limits<T>::quiet_NaN();
+    return std::numeric_limits<T>::quiet_NaN();
   }
   auto [i0, i1] = *search;
   const auto dx = xa(i1) - xa(i0);
diff --git a/src/pyinterp/core/include/pyinterp/detail/interpolation/bicubic.hpp b/src/pyinterp/core/include/pyinterp/detail/interpolation/bicubic.hpp
index 12f7ef9..7adca3f 100644
--- a/src/pyinterp/core/include/pyinterp/detail/interpolation/bicubic.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/interpolation/bicubic.hpp
@@ -78,7 +78,7 @@ constexpr auto Bicubic<T>::interpolate_(const Vector<T> &xa,
   auto search_x = this->search(xa, x);
   auto search_y = this->search(ya, y);
   if (!search_x || !search_y) {
-    throw std::numeric_limits<T>::quiet_NaN();
+    return std::numeric_limits<T>::quiet_NaN();
   }
   const auto [i0, i1] = *search_x;
   const auto [j0, j1] = *search_y;
diff --git a/src/pyinterp/core/include/pyinterp/detail/interpolation/bilinear.hpp b/src/pyinterp/core/include/pyinterp/detail/interpolation/bilinear.hpp
index 80fdc43..25b94fc 100644
--- a/src/pyinterp/core/include/pyinterp/detail/interpolation/bilinear.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/interpolation/bilinear.hpp
@@ -38,7 +38,7 @@ constexpr auto Bilinear<T>::interpolate_(const Vector<T> &xa,
   auto search_x = this->search(xa, x);
   auto search_y = this->search(ya, y);
   if (!search_x || !search_y) {
-    throw std::numeric_limits<T>::quiet_NaN();
+    return std::numeric_limits<T>::quiet_NaN();
   }
   auto [i0, i1] = *search_x;
   auto [j0, j1] = *search_y;
diff --git a/src/pyinterp/core/include/pyinterp/detail/interpolation/polynomial.hpp b/src/pyinterp/core/include/pyinterp/detail/interpolation/polynomial.hpp
index 4fea5ea..60eddb6 100644
--- a/src/pyinterp/core/include/pyinterp/detail/interpolation/polynomial.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/interpolation/polynomial.hpp
@@ -97,7 +97,7 @@ constexpr auto Polynomial<T>::interpolate_(const Vector<T> &xa,
                                            const T &x) const -> T {
   auto search = this->search(xa, x);
   if (!search) {
-    throw std::numeric_limits<T>::quiet_NaN();
+    return std::numeric_limits<T>::quiet_NaN();
   }
   auto size = xa.size();
   auto y = work_[size - 1];
@@ -112,7 +112,7 @@ auto Polynomial<T>::derivative_(const Vector<T> &xa, const Vector<T> &ya,
                                 const T &x) const -> T {
   auto search = this->search(xa, x);
   if (!search) {
-    throw std::numeric_limits<T>::quiet_NaN();
+    return std::numeric_limits<T>::quiet_NaN();
   }
   auto coefficients = taylor(xa, x);
   return coefficients(1);
-- 
2.43.0


From 8612c503ebbab7f7fd6674b14dc41798298b4918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:00 +0000
Subject: [PATCH 15/27] fix: interpolate_1d reports the points outside the axis

---
 src/pyinterp/core/include/pyinterp/interpolate1d.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/interpolate1d.hpp b/src/pyinterp/core/include/pyinterp/interpolate1d.hpp
index 4939501..d7c2337 100644
--- a/src/pyinterp/core/include/pyinterp/interpolate1d.hpp
+++ b/src/pyinterp/core/include/pyinterp/interpolate1d.hpp
@@ -53,8 +53,10 @@ auto interpolate_1d(const pyinterp::Axis<double>& x,
   auto result = Vector<double>(xi.size());
 
   for (int64_t ix = 0; ix < xi.size(); ++ix) {
-    // Nearest index of the current value
-    auto index = axis->find_index(xi(ix), true);
+    // Nearest index of the current value (-1 if it is out of the range)
+    auto index = axis->find_indexes(xi(ix)).has_value()
+                     ? axis->find_index(xi(ix), true)
+                     : -1;
 
     if (index == -1) {
       if (bounds_error) {
-- 
2.43.0


From b099d32403aacdabcac6adf408a748a1ca08867b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:07 +0000
Subject: [PATCH 16/27] fix: merging statistics treats an empty operand as
 neutral

---
 .../pyinterp/detail/math/descriptive_statistics.hpp      | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/descriptive_statistics.hpp b/src/pyinterp/core/include/pyinterp/detail/math/descriptive_statistics.hpp
index e0ac125..7ba8deb 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/descriptive_statistics.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/descriptive_statistics.hpp
@@ -152,6 +152,15 @@ class DescriptiveStatistics {
   /// Combines two accumulators.
   constexpr auto operator+=(const DescriptiveStatistics &rhs) noexcept
       -> DescriptiveStatistics & {
+    // An instance that has seen no value is neutral: its extrema are undefined.
+    if (rhs.acc_.count == 0) {
+      return *this;
+    }
+    if (acc_.count == 0) {
+      acc_ = rhs.acc_;
+      return *this;
+    }
+
     auto w = acc_.sum_of_weights + rhs.acc_.sum_of_weights;
 
     if (rhs.acc_.min < acc_.min) {
-- 
2.43.0


From d783a10b4699a1eea96e7ab36cd34fe2b5dd3fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:07 +0000
Subject: [PATCH 17/27] fix: a streaming histogram can be added to itself

---
 .../core/include/pyinterp/detail/math/streaming_histogram.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
index 481e3ec..2ba3e83 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
@@ -169,7 +169,9 @@ class StreamingHistogram {
     if (other.max_ > max_) {
       max_ = other.max_;
     }
-    for (const auto &item : other.bins_) {
+    // The bins are copied because "other" may be this instance.
+    const auto bins = other.bins_;
+    for (const auto &item : bins) {
       update_bins(item.value, item.weight);
     }
     trim();
-- 
2.43.0


From 703afc4e87128b97355910b44e98280a7d4c6f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:26 +0000
Subject: [PATCH 18/27] fix: copying a Binning1D gives a Binning1D

---
 src/pyinterp/core/module/binning.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pyinterp/core/module/binning.cpp b/src/pyinterp/core/module/binning.cpp
index 80cc4e9..4fafbee 100644
--- a/src/pyinterp/core/module/binning.cpp
+++ b/src/pyinterp/core/module/binning.cpp
@@ -194,6 +194,13 @@ Gets the range of the binning.
 Returns:
     Range of the binning.
 )__doc__")
+      .def(
+          "__copy__",
+          [](const pyinterp::Binning1D<Type> &self) {
+            return pyinterp::Binning1D<Type>(self);
+          },
+          "Implements the shallow copy operation.",
+          py::call_guard<py::gil_scoped_release>())
       .def(py::pickle(
           [](const pyinterp::Binning1D<Type> &self) { return self.getstate(); },
           [](const py::tuple &state) {
-- 
2.43.0


From 6915177785770cd54ff4453112a499dbac26b9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:33 +0000
Subject: [PATCH 19/27] fix: the operator + leaves its left operand unchanged

---
 src/pyinterp/binning.py                            | 2 ++
 src/pyinterp/histogram2d.py                        | 1 +
 src/pyinterp/statistics/descriptive_descriptive.py | 3 +--
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyinterp/binning.py b/src/pyinterp/binning.py
index cf976c9..65e1df1 100644
--- a/src/pyinterp/binning.py
+++ b/src/pyinterp/binning.py
@@ -95,6 +95,7 @@ class Binning2D:
         result = copy.copy(self)
         if type(result._instance) != type(other._instance):  # noqa: E721
             raise TypeError('Binning2D instance must be of the same type')
+        result._instance = copy.copy(self._instance)
         result._instance += other._instance  # type: ignore[operator]
         return result
 
@@ -286,6 +287,7 @@ class Binning1D:
         result = copy.copy(self)
         if type(result._instance) != type(other._instance):  # noqa: E721
             raise TypeError('Binning1D instance must be of the same type')
+        result._instance = copy.copy(self._instance)
         result._instance += other._instance  # type: ignore[operator]
         return result
 
diff --git a/src/pyinterp/histogram2d.py b/src/pyinterp/histogram2d.py
index f03c957..ee792a3 100644
--- a/src/pyinterp/histogram2d.py
+++ b/src/pyinterp/histogram2d.py
@@ -106,6 +106,7 @@ class Histogram2D:
         if self.dtype != other.dtype:
             raise ValueError('dtype mismatch')
         result = copy.copy(self)
+        result._instance = copy.copy(self._instance)
         result._instance += other._instance  # type: ignore[operator]
         return result
 
diff --git a/src/pyinterp/statistics/descriptive_descriptive.py b/src/pyinterp/statistics/descriptive_descriptive.py
index 9c47d6d..bfdf3e1 100644
--- a/src/pyinterp/statistics/descriptive_descriptive.py
+++ b/src/pyinterp/statistics/descriptive_descriptive.py
@@ -16,7 +16,6 @@ if sys.version_info[:2] > (3, 10):
     from typing import Self
 else:
     Self = 'DescriptiveStatistics'
-import copy
 
 import dask.array.core
 import numpy
@@ -146,7 +145,7 @@ class DescriptiveStatistics:
             if type(self._instance) != type(other._instance):  # noqa: E721
                 raise TypeError(
                     'Descriptive statistics must have the same type')
-            result = copy.copy(self)
+            result = self.copy()
             result += other
             return result
         raise TypeError('unsupported operand type(s) for +='
-- 
2.43.0


From 4f7f17b63ce5f08c6ac0320f9eaef503aa855158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:53 +0000
Subject: [PATCH 20/27] fix: the maximum of a streaming histogram starts from
 the lowest value

---
 .../core/include/pyinterp/detail/math/streaming_histogram.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
index 2ba3e83..0de1b91 100644
--- a/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
+++ b/src/pyinterp/core/include/pyinterp/detail/math/streaming_histogram.hpp
@@ -260,7 +260,7 @@ class StreamingHistogram {
   size_t bin_count_{100};
   uint64_t count_{0};
   T min_{std::numeric_limits<T>::max()};
-  T max_{std::numeric_limits<T>::min()};
+  T max_{std::numeric_limits<T>::lowest()};
   std::vector<Bin<T>> bins_{};
 
   /// Update the histogram with the provided value.
-- 
2.43.0


From 8a326ae5b513bcbd3a3745393be67bf3bca5a4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:53 +0000
Subject: [PATCH 21/27] fix: the bounds of an R-tree start from the lowest
 values

---
 src/pyinterp/core/include/pyinterp/rtree.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyinterp/core/include/pyinterp/rtree.hpp b/src/pyinterp/core/include/pyinterp/rtree.hpp
index 9b54690..67f1219 100644
--- a/src/pyinterp/core/include/pyinterp/rtree.hpp
+++ b/src/pyinterp/core/include/pyinterp/rtree.hpp
@@ -104,11 +104,11 @@ class RTree : public detail::geometry::RTree<Point, Type> {
     }
 
     auto x0 = std::numeric_limits<coordinate_t>::max();
-    auto x1 = std::numeric_limits<coordinate_t>::min();
+    auto x1 = std::numeric_limits<coordinate_t>::lowest();
     auto y0 = std::numeric_limits<coordinate_t>::max();
-    auto y1 = std::numeric_limits<coordinate_t>::min();
+    auto y1 = std::numeric_limits<coordinate_t>::lowest();
     auto z0 = std::numeric_limits<coordinate_t>::max();
-    auto z1 = std::numeric_limits<coordinate_t>::min();
+    auto z1 = std::numeric_limits<coordinate_t>::lowest();
 
     std::for_each(this->tree_->begin(), this->tree_->end(),
                   [&](const auto &item) {
-- 
2.43.0


From 38756fc12c2175653489631bff7db0ed5c59ddfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:48 +0000
Subject: [PATCH 22/27] fix: temporal axes with different units are not equal

---
 src/pyinterp/core/include/pyinterp/temporal_axis.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pyinterp/core/include/pyinterp/temporal_axis.hpp b/src/pyinterp/core/include/pyinterp/temporal_axis.hpp
index bfaa87c..a85eaa5 100644
--- a/src/pyinterp/core/include/pyinterp/temporal_axis.hpp
+++ b/src/pyinterp/core/include/pyinterp/temporal_axis.hpp
@@ -239,6 +239,16 @@ class TemporalAxis : public Axis<int64_t> {
     return ss.str();
   }
 
+  /// Two axes are equal if they hold the same values with the same units.
+  auto operator==(const TemporalAxis &rhs) const -> bool {
+    return dtype_ == rhs.dtype_ && Axis<int64_t>::operator==(rhs);
+  }
+
+  /// Returns true if the two axes are different.
+  auto operator!=(const TemporalAxis &rhs) const -> bool {
+    return !(*this == rhs);
+  }
+
  private:
   dateutils::DType dtype_;
 
-- 
2.43.0


From e4b30356f81d46a59317214a6fa595ceddbe0247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:48 +0000
Subject: [PATCH 23/27] fix: a period differs from objects of other types

---
 src/pyinterp/period.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/period.py b/src/pyinterp/period.py
index e13397f..1987897 100644
--- a/src/pyinterp/period.py
+++ b/src/pyinterp/period.py
@@ -127,7 +127,8 @@ class Period(core.Period):
         return super().__eq__(lhs)
 
     def __ne__(self, __value: object) -> bool:
-        return not self.__eq__(__value)
+        result = self.__eq__(__value)
+        return result if result is NotImplemented else not result
 
     def __lt__(self, lhs: Any) -> bool:
         if not isinstance(lhs, Period):
-- 
2.43.0


From ad605111ef4db34c5e6f2ddab31a944b548bf2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:31 +0000
Subject: [PATCH 24/27] fix: restored statistics must have the size of their
 shape

---
 .../core/include/pyinterp/descriptive_statistics.hpp  | 11 ++++++++++-
 .../core/include/pyinterp/streaming_histogram.hpp     |  3 +++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/descriptive_statistics.hpp b/src/pyinterp/core/include/pyinterp/descriptive_statistics.hpp
index 67d9a32..43f7aab 100644
--- a/src/pyinterp/core/include/pyinterp/descriptive_statistics.hpp
+++ b/src/pyinterp/core/include/pyinterp/descriptive_statistics.hpp
@@ -145,6 +145,9 @@ class DescriptiveStatistics {
     }
     auto accumulators = state[0].cast<Vector<detail::math::Accumulators<T>>>();
     auto shape = state[1].cast<std::vector<pybind11::ssize_t>>();
+    if (accumulators.size() != shape_size(shape)) {
+      throw std::invalid_argument("invalid state");
+    }
 
     return std::make_unique<DescriptiveStatistics<T>>(
         std::move(accumulators.template cast<Accumulators>()),
@@ -157,7 +160,13 @@ class DescriptiveStatistics {
 
   /// Returns the total number of elements in the array.
   [[nodiscard]] constexpr auto size() const -> pybind11::ssize_t {
-    return std::accumulate(shape_.begin(), shape_.end(),
+    return shape_size(shape_);
+  }
+
+  /// Returns the number of elements of an array of the given shape.
+  [[nodiscard]] static constexpr auto shape_size(
+      const std::vector<pybind11::ssize_t> &shape) -> pybind11::ssize_t {
+    return std::accumulate(shape.begin(), shape.end(),
                            static_cast<pybind11::ssize_t>(1),
                            std::multiplies<>());
   }
diff --git a/src/pyinterp/core/include/pyinterp/streaming_histogram.hpp b/src/pyinterp/core/include/pyinterp/streaming_histogram.hpp
index 3da2f47..c0e326d 100644
--- a/src/pyinterp/core/include/pyinterp/streaming_histogram.hpp
+++ b/src/pyinterp/core/include/pyinterp/streaming_histogram.hpp
@@ -191,6 +191,9 @@ class StreamingHistogram {
     auto marshal_data = state[1].cast<pybind11::bytes>();
     auto accumulators =
         StreamingHistogram::unmarshal(marshal_data.cast<std::string_view>());
+    if (accumulators.size() != shape_size(shape)) {
+      throw std::invalid_argument("invalid state");
+    }
     return std::make_unique<StreamingHistogram<T>>(std::move(accumulators),
                                                    std::move(shape));
   }
-- 
2.43.0


From 15c1db195245502d34d71fb40e48bff2a381875a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:43 +0000
Subject: [PATCH 25/27] fix: zooming in geohash codes shorter than their
 strings overran the result

---
 src/pyinterp/core/lib/geohash/string.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pyinterp/core/lib/geohash/string.cpp b/src/pyinterp/core/lib/geohash/string.cpp
index 4e4f03e..2be6563 100644
--- a/src/pyinterp/core/lib/geohash/string.cpp
+++ b/src/pyinterp/core/lib/geohash/string.cpp
@@ -408,9 +408,15 @@ static auto zoom_in(char *ptr, pybind11::ssize_t size, uint32_t from_precision,
   // Number of bits need to zoom in
   auto bits = to_precision * 5;
 
-  // Calculation of the number of items needed for the result.
-  auto size_in = size * (static_cast<size_t>(2)
-                         << (5 * (to_precision - from_precision) - 1));
+  // Calculation of the number of items needed for the result (a code can be
+  // shorter than the length of the strings stored in the array).
+  auto size_in = static_cast<size_t>(0);
+  for (auto ix = static_cast<pybind11::ssize_t>(0); ix < size; ++ix) {
+    const auto *code = ptr + ix * from_precision;
+    const auto chars = static_cast<uint32_t>(
+        std::find(code, code + from_precision, '\0') - code);
+    size_in += static_cast<size_t>(1) << (5 * (to_precision - chars));
+  }
 
   // Allocates the result table.
   auto result = allocate_array(size_in, to_precision);
-- 
2.43.0


From 295bb02ddbe7014cbf6eda01f5ee28e3e84f8b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:43 +0000
Subject: [PATCH 26/27] fix: geohash codes without character shifted a 64-bit
 integer by 64 bits

---
 src/pyinterp/core/lib/geohash/int64.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/lib/geohash/int64.cpp b/src/pyinterp/core/lib/geohash/int64.cpp
index 4822ad0..0eb98c6 100644
--- a/src/pyinterp/core/lib/geohash/int64.cpp
+++ b/src/pyinterp/core/lib/geohash/int64.cpp
@@ -246,6 +246,9 @@ auto allocate_array(const size_t size) -> Vector<uint64_t> {
 // ---------------------------------------------------------------------------
 auto encode(const geodetic::Point &point, const uint32_t precision)
     -> uint64_t {
+  if (precision == 0) {
+    return 0;
+  }
   auto result = encoder(point.lat(), point.lon());
   if (precision != 64) {
     result >>= (64 - precision);
@@ -256,7 +259,7 @@ auto encode(const geodetic::Point &point, const uint32_t precision)
 // ---------------------------------------------------------------------------
 auto bounding_box(const uint64_t hash, const uint32_t precision)
     -> geodetic::Box {
-  auto full_hash = hash << (64U - precision);
+  auto full_hash = precision == 0 ? 0 : hash << (64U - precision);
   auto lat_lng_int = deinterleaver(full_hash);
   auto lat = codec::decode_range(std::get<0>(lat_lng_int), 90);
   auto lon = codec::decode_range(std::get<1>(lat_lng_int), 180);
-- 
2.43.0


From 3249ee22dbc03018f0437f38c8b4334f3416d252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:43 +0000
Subject: [PATCH 27/27] fix: geohash precisions out of range are rejected

---
 src/pyinterp/core/include/pyinterp/geohash.hpp | 3 +++
 src/pyinterp/core/module/geohash/string.cpp    | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyinterp/core/include/pyinterp/geohash.hpp b/src/pyinterp/core/include/pyinterp/geohash.hpp
index 5a7f57f..9dbab38 100644
--- a/src/pyinterp/core/include/pyinterp/geohash.hpp
+++ b/src/pyinterp/core/include/pyinterp/geohash.hpp
@@ -143,6 +143,9 @@ class GeoHash {
   [[nodiscard]] static auto grid_properties(const geodetic::Box &box,
                                             uint32_t precision)
       -> std::tuple<GeoHash, size_t, size_t> {
+    if (precision > 12) {
+      throw std::invalid_argument("GeoHash precision must be <= 12");
+    }
     auto [code, lng_boxes, lat_boxes] =
         int64::grid_properties(box, precision * 5);
     return std::make_tuple(
diff --git a/src/pyinterp/core/module/geohash/string.cpp b/src/pyinterp/core/module/geohash/string.cpp
index 4c42418..c979b6c 100644
--- a/src/pyinterp/core/module/geohash/string.cpp
+++ b/src/pyinterp/core/module/geohash/string.cpp
@@ -19,7 +19,7 @@ namespace geodetic = pyinterp::geodetic;
 
 // Checking the value defining the precision of a geohash.
 constexpr static auto check_range(uint32_t precision) -> void {
-  if (precision > 12) {
+  if (precision < 1 || precision > 12) {
     throw std::invalid_argument("precision must be within [1, 12]");
   }
 }
-- 
2.43.0

