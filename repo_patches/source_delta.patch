From 873936439aee2def368481801e9f25f2bdd2c809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 01/17] fix: default-constructed and converted dynamic jets
 have size 0

Their storage holds the value only; size 1 made every following operation
read and write past its end.
---
 include/hyperjet/hyperjet.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 250d204..2cd5493 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -318,7 +318,7 @@ namespace hyperjet
 
             if constexpr (is_dynamic())
             {
-                m_size = 1;
+                m_size = 0;
                 m_data = Data(1);
             }
             else
@@ -333,7 +333,7 @@ namespace hyperjet
 
             if constexpr (is_dynamic())
             {
-                m_size = 1;
+                m_size = 0;
                 m_data = Data(1);
             }
             else
-- 
2.43.0


From 8bb28e0460b3f3a905daa4c23b25b2bcc98b3154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 02/17] fix: resize leaves a dynamic jet unchanged when it
 fails

The size was changed before the storage, so a failed allocation left them
inconsistent, and a negative size was accepted.
---
 include/hyperjet/hyperjet.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 2cd5493..1880aa5 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -422,9 +422,10 @@ namespace hyperjet
         void resize(const index size)
         {
             static_assert(is_dynamic());
-            m_size = size;
+            check_valid_size(size);
             const index n = data_length_from_size(size);
             m_data.resize(n);
+            m_size = size;
         }
 
         Type pad_left(const index new_size) const
-- 
2.43.0


From 16026a38dfa6a9ff1ef872af819772ae98ad4938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 03/17] fix: initializer lists of dynamic jets get storage,
 copies assign storage first

The list was copied into an empty vector (or past the end of a fixed-size
jet).  The storage is declared before the size, in the order the constructors
initialise them, so that a copy assignment that runs out of memory leaves the
target unchanged.
---
 include/hyperjet/hyperjet.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 1880aa5..b969321 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -54,8 +54,8 @@ namespace hyperjet
         using Scalar = TScalar;
         using Data = typename std::conditional<TSize == Dynamic, DynamicStorage, StaticStorage>::type;
 
-        index m_size;
         Data m_data;
+        index m_size;
 
     public:
         HYPERJET_INLINE static index data_length_from_size(const index size)
@@ -362,6 +362,13 @@ namespace hyperjet
         {
             static_assert(0 < order() && order() <= 2);
 
+            check_valid_size(m_size);
+
+            if constexpr (is_dynamic())
+            {
+                m_data.resize(data.size());
+            }
+
             std::copy(data.begin(), data.end(), m_data.begin());
         }
 
-- 
2.43.0


From bab53f19b29754603e7240d025a6a74673ed4f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 04/17] fix: reject empty data, which has no value and gave a
 jet of size -1

---
 include/hyperjet/hyperjet.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index b969321..9f9db93 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -69,14 +69,14 @@ namespace hyperjet
 
             if constexpr (throw_exceptions())
             {
-                if (data_length_from_size(s) != n)
+                if (s < 0 || data_length_from_size(s) != n)
                 {
                     throw std::runtime_error("Invalid length");
                 }
             }
             else
             {
-                assert(data_length_from_size(s) == n == 0 && "Invalid length");
+                assert(0 <= s && data_length_from_size(s) == n && "Invalid length");
             }
 
             return s;
-- 
2.43.0


From 339e9145d4c6f40802e1791b85d669de7f968a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 05/17] fix: atan2 and three-argument hypot refuse operands of
 different size

---
 include/hyperjet/hyperjet.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 9f9db93..dd28ca3 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -1421,6 +1421,8 @@ namespace hyperjet
         {
             using std::atan2;
 
+            check_equal_size(size(), b.size());
+
             Type result = Type::empty(size());
 
             const Scalar tmp = this->f() * this->f() + b.f() * b.f();
@@ -1463,6 +1465,7 @@ namespace hyperjet
             using std::hypot;
 
             check_equal_size(a.size(), b.size());
+            check_equal_size(a.size(), c.size());
 
             Type result = Type::empty(a.size());
 
-- 
2.43.0


From df5290cfb6596327adfd63d4687a4fcd8f2e40b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 06/17] fix: pad_left and pad_right refuse to shrink a jet

A smaller size wrote past the end of the result.
---
 include/hyperjet/hyperjet.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index dd28ca3..8622ffe 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -133,6 +133,21 @@ namespace hyperjet
             }
         }
 
+        HYPERJET_INLINE static void check_padded_size(const index size, const index new_size)
+        {
+            if constexpr (throw_exceptions())
+            {
+                if (new_size < size)
+                {
+                    throw std::runtime_error("Invalid size");
+                }
+            }
+            else
+            {
+                assert(size <= new_size && "Invalid size");
+            }
+        }
+
         struct Zero
         {
             HYPERJET_INLINE Zero operator*(const Scalar) const
@@ -439,6 +454,8 @@ namespace hyperjet
         {
             static_assert(is_dynamic());
 
+            check_padded_size(size(), new_size);
+
             Type result = empty(new_size);
 
             const index head = new_size - size();
@@ -486,6 +503,8 @@ namespace hyperjet
         {
             static_assert(is_dynamic());
 
+            check_padded_size(size(), new_size);
+
             Type result = empty(new_size);
 
             const index tail = new_size - size();
-- 
2.43.0


From 853a2d0bcc557c1842df320f9dfc8fc69698da02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 07/17] fix: second derivatives of x *= x

The gradient was updated before the Hessian used it through the aliased
operand.  Second derivatives are updated first now, which needs no copy.
---
 include/hyperjet/hyperjet.h | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 8622ffe..08cbc50 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -1166,31 +1166,30 @@ namespace hyperjet
         {
             check_equal_size(size(), b.size());
 
-            const Data a_m_data = m_data;
-
             const Scalar da = b.f();
             const Scalar db = this->f();
 
-            f() *= b.f();
-
-            for (index i = 1; i < length(m_data); i++)
+            if constexpr (order() == 2)
             {
-                m_data[i] = da * m_data[i] + db * b.m_data[i];
-            }
-
-            if constexpr (order() == 1)
-                return *this;
-
-            auto *it = &m_data[1 + size()];
+                index k = 1 + size();
 
-            for (index i = 0; i < size(); i++)
-            {
-                for (index j = i; j < size(); j++)
+                for (index i = 0; i < size(); i++)
                 {
-                    *it++ += a_m_data[1 + i] * b.m_data[1 + j] + a_m_data[1 + j] * b.m_data[1 + i];
+                    for (index j = i; j < size(); j++, k++)
+                    {
+                        m_data[k] = da * m_data[k] + db * b.m_data[k];
+                        m_data[k] += m_data[1 + i] * b.m_data[1 + j] + m_data[1 + j] * b.m_data[1 + i];
+                    }
                 }
             }
 
+            for (index i = 1; i < 1 + size(); i++)
+            {
+                m_data[i] = da * m_data[i] + db * b.m_data[i];
+            }
+
+            f() = db * da;
+
             return *this;
         }
 
-- 
2.43.0


From 38fc9653d5a4162954064d2e92bd09323372e672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 08/17] fix: in-place updates of sparse jets take effect
 completely or not at all

Value and derivatives were updated one by one, so running out of memory left
a mixture; x *= x and x /= x read derivatives they had already changed.
---
 include/hyperjet/hyperjet.h | 43 +++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 08cbc50..2d53548 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -11,6 +11,7 @@
 #include <type_traits>      // conditional
 #include <vector>           // vector
 #include <unordered_map>    // unordered_map
+#include <utility>          // move
 
 namespace hyperjet
 {
@@ -2081,6 +2082,22 @@ namespace hyperjet
         {
         }
 
+        SScalar(const SScalar &) = default;
+
+        SScalar(SScalar &&) = default;
+
+        SScalar &operator=(const SScalar &other)
+        {
+            Data d = other.m_d;
+
+            m_f = other.m_f;
+            m_d = std::move(d);
+
+            return *this;
+        }
+
+        SScalar &operator=(SScalar &&) = default;
+
         static SScalar constant(const Scalar value)
         {
             return SScalar(value, Data());
@@ -2194,10 +2211,9 @@ namespace hyperjet
 
         Type &operator+=(const Type &b)
         {
-            m_f += b.m_f;
+            m_d = binary(m_d, b.m_d, 1, 1);
 
-            for (const auto &d : b.m_d)
-                m_d[d.first] += d.second;
+            m_f += b.m_f;
 
             return *this;
         }
@@ -2236,10 +2252,9 @@ namespace hyperjet
 
         Type &operator-=(const Type &b)
         {
-            m_f -= b.m_f;
+            m_d = binary(m_d, b.m_d, 1, -1);
 
-            for (const auto &d : b.m_d)
-                m_d[d.first] -= d.second;
+            m_f -= b.m_f;
 
             return *this;
         }
@@ -2284,13 +2299,9 @@ namespace hyperjet
             const Scalar da = b.m_f;
             const Scalar db = m_f;
 
-            m_f *= b.m_f;
-
-            for (auto &d : m_d)
-                d.second *= da;
+            m_d = binary(m_d, b.m_d, da, db);
 
-            for (auto &d : b.m_d)
-                m_d[d.first] += db * d.second;
+            m_f *= b.m_f;
 
             return *this;
         }
@@ -2342,13 +2353,9 @@ namespace hyperjet
             const auto da = 1 / b.m_f;
             const auto db = -m_f / pow(b.m_f, 2);
 
-            m_f /= b.m_f;
+            m_d = binary(m_d, b.m_d, da, db);
 
-            for (auto &d : m_d)
-                d.second *= da;
-
-            for (auto &d : b.m_d)
-                m_d[d.first] += db * d.second;
+            m_f /= b.m_f;
 
             return *this;
         }
-- 
2.43.0


From 6f4782bd62b88ee7082e804173b4108b78a969d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 09/17] fix: to_string reports running out of memory instead of
 truncating the text

---
 include/hyperjet/hyperjet.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 2d53548..0cfd0bf 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -990,6 +990,8 @@ namespace hyperjet
         {
             std::stringstream output;
 
+            output.exceptions(std::ios_base::badbit);
+
             output << *this;
 
             return output.str();
@@ -2165,6 +2167,8 @@ namespace hyperjet
         {
             std::stringstream output;
 
+            output.exceptions(std::ios_base::badbit);
+
             output << *this;
 
             return output.str();
-- 
2.43.0


From 1bbb1513ceba045f5b6d8bbfb79d453fc902d119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 10/17] fix: operations on scalars that allocate may throw

noexcept kernels ended the process when a nested scalar ran out of memory.
---
 include/hyperjet/hyperjet.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 0cfd0bf..0fcb992 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -191,7 +191,7 @@ namespace hyperjet
         };
 
         template <bool TIncrement, typename TDa, typename TDaa>
-        HYPERJET_INLINE void unary(const Data &a, const Scalar f, const TDa da, const TDaa daa, Data &r) const noexcept
+        HYPERJET_INLINE void unary(const Data &a, const Scalar f, const TDa da, const TDaa daa, Data &r) const noexcept(std::is_arithmetic<Scalar>::value)
         {
             const index n = data_length();
 
@@ -233,7 +233,7 @@ namespace hyperjet
         }
 
         template <bool TIncrement, typename TDa, typename TDb, typename TDaa, typename TDab, typename TDbb>
-        HYPERJET_INLINE void binary(const Data &a, const Data &b, const Scalar f, const TDa da, const TDb db, const TDaa daa, const TDab dab, const TDbb dbb, Data &r) const noexcept
+        HYPERJET_INLINE void binary(const Data &a, const Data &b, const Scalar f, const TDa da, const TDb db, const TDaa daa, const TDab dab, const TDbb dbb, Data &r) const noexcept(std::is_arithmetic<Scalar>::value)
         {
             const index n = data_length();
 
@@ -280,7 +280,7 @@ namespace hyperjet
         }
 
         template <bool TIncrement, typename TDa, typename TDb, typename TDc, typename TDaa, typename TDab, typename TDac, typename TDbb, typename TDbc, typename TDcc>
-        HYPERJET_INLINE void ternary(const Data &a, const Data &b, const Data &c, const Scalar f, const TDa da, const TDb db, const TDc dc, const TDaa daa, const TDab dab, const TDac dac, const TDbb dbb, const TDbc dbc, const TDcc dcc, Data &r) const noexcept
+        HYPERJET_INLINE void ternary(const Data &a, const Data &b, const Data &c, const Scalar f, const TDa da, const TDb db, const TDc dc, const TDaa daa, const TDab dab, const TDac dac, const TDbb dbb, const TDbc dbc, const TDcc dcc, Data &r) const noexcept(std::is_arithmetic<Scalar>::value)
         {
             const index n = data_length();
 
-- 
2.43.0


From f9140e0dfe15f785e485940372c1051fe7bafe84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 11/17] fix: first-order jets have no second derivatives in
 Python

h, hm and their setters read and wrote past the end of their storage.
---
 python/src/common.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/python/src/common.h b/python/src/common.h
index 81b1193..c45544c 100644
--- a/python/src/common.h
+++ b/python/src/common.h
@@ -91,11 +91,16 @@ auto bind(py::module &m, const std::string &name)
         .def("__pow__", &T::pow)
         .def("__repr__", &T::to_string)
         .def("abs", &T::abs)
-        .def("eval", &T::eval, "d"_a)
-        .def("h", py::overload_cast<hj::index, hj::index>(&T::h), "row"_a, "col"_a)
-        .def("set_h", py::overload_cast<hj::index, hj::index, typename T::Scalar>(&T::set_h), "row"_a, "col"_a, "value"_a)
-        .def("hm", py::overload_cast<std::string>(&T::hm, py::const_), "mode"_a = "full")
-        .def("set_hm", &T::set_hm, "value"_a);
+        .def("eval", &T::eval, "d"_a);
+
+    if constexpr (T::order() == 2)
+    {
+        cls
+            .def("h", py::overload_cast<hj::index, hj::index>(&T::h), "row"_a, "col"_a)
+            .def("set_h", py::overload_cast<hj::index, hj::index, typename T::Scalar>(&T::set_h), "row"_a, "col"_a, "value"_a)
+            .def("hm", py::overload_cast<std::string>(&T::hm, py::const_), "mode"_a = "full")
+            .def("set_hm", &T::set_hm, "value"_a);
+    }
 
     if constexpr (T::is_dynamic())
     {
-- 
2.43.0


From 7e3de4d7c1d87ce9b6c376069daffd2f3b68537f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:37 +0000
Subject: [PATCH 12/17] fix: x *= x.f() scales every entry by the original
 value

---
 include/hyperjet/hyperjet.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 0fcb992..92327f9 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -1198,9 +1198,11 @@ namespace hyperjet
 
         Type &operator*=(const Scalar &b)
         {
+            const Scalar s = b; // b may be an entry of this jet
+
             for (index i = 0; i < length(m_data); i++)
             {
-                m_data[i] = m_data[i] * b;
+                m_data[i] = m_data[i] * s;
             }
 
             return *this;
-- 
2.43.0


From 1ed7f3d776bed6e0ee14e4c8f98363b9af3e9775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:24 +0000
Subject: [PATCH 13/17] fix: pickling with protocols 0 and 1 no longer aborts
 the interpreter

---
 python/src/common.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/src/common.h b/python/src/common.h
index c45544c..332eae2 100644
--- a/python/src/common.h
+++ b/python/src/common.h
@@ -214,6 +214,14 @@ auto bind(py::module &m, const std::string &name)
                     return T(data);
                 }
             }))
+        .def(
+            "__reduce_ex__", [](const py::object &self, const int protocol)
+            {
+                // protocols 0 and 1 would create a bare pybind11_object, which aborts the interpreter
+                const auto object = py::module::import("builtins").attr("object");
+                return object.attr("__reduce_ex__")(self, protocol < 2 ? 2 : protocol);
+            },
+            "protocol"_a)
         .def("__copy__", [](const T &self)
              { return self; })
         .def(
-- 
2.43.0


From 1bfe4e68e41a331a982583ee2463d8fc412fa2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:51 +0000
Subject: [PATCH 14/17] fix: hm() of a jet with one variable is a 1x1 matrix,
 as dd() requires

---
 python/src/common.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/src/common.h b/python/src/common.h
index 332eae2..7ede555 100644
--- a/python/src/common.h
+++ b/python/src/common.h
@@ -98,7 +98,13 @@ auto bind(py::module &m, const std::string &name)
         cls
             .def("h", py::overload_cast<hj::index, hj::index>(&T::h), "row"_a, "col"_a)
             .def("set_h", py::overload_cast<hj::index, hj::index, typename T::Scalar>(&T::set_h), "row"_a, "col"_a, "value"_a)
-            .def("hm", py::overload_cast<std::string>(&T::hm, py::const_), "mode"_a = "full")
+            .def(
+                "hm", [](const T &self, const std::string &mode)
+                {
+                    // dynamic size: a fixed 1x1 matrix would become a one-dimensional array
+                    return Eigen::Matrix<typename T::Scalar, hj::Dynamic, hj::Dynamic>(self.hm(mode));
+                },
+                "mode"_a = "full")
             .def("set_hm", &T::set_hm, "value"_a);
     }
 
-- 
2.43.0


From 433634ca0233f7d60bab5b7afa34bd250e11ec8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:44 +0000
Subject: [PATCH 15/17] fix: set_hm, from_arrays, hm and eval refuse arguments
 of another size

They read (hm: wrote) past the end of a smaller argument. SScalar::eval compares
with the end of the container it searched.
---
 include/hyperjet/hyperjet.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 92327f9..b59d1a5 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -846,6 +846,9 @@ namespace hyperjet
 
         void hm(const std::string mode, Eigen::Ref<Matrix> out) const
         {
+            check_equal_size(out.rows(), size());
+            check_equal_size(out.cols(), size());
+
             index it = 0;
 
             for (index i = 0; i < size(); i++)
@@ -884,6 +887,9 @@ namespace hyperjet
 
         void set_hm(const Eigen::Ref<const Matrix> &value)
         {
+            check_equal_size(value.rows(), size());
+            check_equal_size(value.cols(), size());
+
             index it = 0;
 
             for (index i = 0; i < size(); i++)
@@ -921,8 +927,6 @@ namespace hyperjet
         {
             static_assert(order() == 2);
 
-            assert(g.size() == hm.rows() && g.size() == hm.cols());
-
             Type result = empty(length(g));
 
             result.f() = f;
@@ -934,6 +938,8 @@ namespace hyperjet
 
         Scalar eval(typename std::conditional < TSize == Dynamic, std::vector<Scalar>, std::array<Scalar, TSize<0 ? 0 : TSize>>::type d) const
         {
+            check_equal_size(length(d), size());
+
             Scalar result = f();
 
             for (index i = 0; i < size(); i++)
@@ -2141,7 +2147,7 @@ namespace hyperjet
             {
                 const auto it = d.find(coef.first);
 
-                if (it == m_d.end())
+                if (it == d.end())
                     continue;
 
                 r += coef.second * it->second;
-- 
2.43.0


From 81b52d7f82c835fe21b737579164587d9ba90ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:44 +0000
Subject: [PATCH 16/17] fix: empty, zero, constant and variable refuse negative
 sizes

Some negative sizes gave storage that did not match the size.
---
 include/hyperjet/hyperjet.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index b59d1a5..01867f5 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -594,6 +594,7 @@ namespace hyperjet
         {
             if constexpr (is_dynamic())
             {
+                check_valid_size(size);
                 const index n = data_length_from_size(size);
                 const Data data(n);
                 Type result(data, size);
@@ -627,6 +628,7 @@ namespace hyperjet
         {
             if constexpr (is_dynamic())
             {
+                check_valid_size(size);
                 const Data data(data_length_from_size(size), 0);
                 Type result(data, size);
                 return result;
-- 
2.43.0


From c5de34d96854b53679d964d617bc0d6bcedfca69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:56 +0000
Subject: [PATCH 17/17] fix: indices from Python are checked

h, set_h and variable accessed memory outside the jet for an index out of range.
---
 python/src/common.h | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/python/src/common.h b/python/src/common.h
index 7ede555..f6f3857 100644
--- a/python/src/common.h
+++ b/python/src/common.h
@@ -17,6 +17,16 @@ namespace hj = hyperjet;
 namespace py = pybind11;
 using namespace py::literals;
 
+inline hj::index check_index(const hj::index i, const hj::index size)
+{
+    if (i < 0 || size <= i)
+    {
+        throw py::index_error("Index out of range");
+    }
+
+    return i;
+}
+
 template <typename T>
 auto bind(py::module &m, const std::string &name)
 {
@@ -62,7 +72,10 @@ auto bind(py::module &m, const std::string &name)
         .def_static("constant", py::overload_cast<typename T::Scalar>(&T::constant), "f"_a)
         .def_static("empty", py::overload_cast<>(&T::empty))
         .def_static("empty", py::overload_cast<hj::index>(&T::empty), "size"_a)
-        .def_static("variable", py::overload_cast<hj::index, typename T::Scalar, hj::index>(&T::variable), "i"_a, "f"_a, "size"_a)
+        .def_static(
+            "variable", [](const hj::index i, const typename T::Scalar f, const hj::index size)
+            { return T::variable(check_index(i, T::is_dynamic() ? size : T::static_size()), f, size); },
+            "i"_a, "f"_a, "size"_a)
         .def_static("zero", py::overload_cast<>(&T::zero))
         .def_static("zero", py::overload_cast<hj::index>(&T::zero), "size"_a);
 
@@ -77,7 +90,10 @@ auto bind(py::module &m, const std::string &name)
     else
     {
         cls
-            .def_static("variable", py::overload_cast<hj::index, typename T::Scalar>(&T::variable), "i"_a, "f"_a)
+            .def_static(
+                "variable", [](const hj::index i, const typename T::Scalar f)
+                { return T::variable(check_index(i, T::static_size()), f); },
+                "i"_a, "f"_a)
             .def_static(
                 "variables", [](const std::array<typename T::Scalar, T::static_size()> &values)
                 { return T::template variables<T::static_size()>(values); },
@@ -96,8 +112,14 @@ auto bind(py::module &m, const std::string &name)
     if constexpr (T::order() == 2)
     {
         cls
-            .def("h", py::overload_cast<hj::index, hj::index>(&T::h), "row"_a, "col"_a)
-            .def("set_h", py::overload_cast<hj::index, hj::index, typename T::Scalar>(&T::set_h), "row"_a, "col"_a, "value"_a)
+            .def(
+                "h", [](const T &self, const hj::index row, const hj::index col)
+                { return self.h(check_index(row, self.size()), check_index(col, self.size())); },
+                "row"_a, "col"_a)
+            .def(
+                "set_h", [](T &self, const hj::index row, const hj::index col, const typename T::Scalar value)
+                { self.set_h(check_index(row, self.size()), check_index(col, self.size()), value); },
+                "row"_a, "col"_a, "value"_a)
             .def(
                 "hm", [](const T &self, const std::string &mode)
                 {
-- 
2.43.0

