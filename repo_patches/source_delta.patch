From 874f87fafb94fbae564e8fd4a5b2ce3100548121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:51 +0000
Subject: [PATCH 01/54] fix: accept a single-element column vector when scaling
 the rows of a one-row matrix

---
 src/wai/ma/core/matrix/_Matrix.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index 11be11c..a49584a 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -553,12 +553,9 @@ class Matrix(Serialisable):
         op.at(self.data, ..., vector.data)
 
     def vector_size_matches(self, vector: 'Matrix') -> bool:
-        if not vector.is_vector():
-            return False
-        elif vector.is_row_vector():
-            return self.num_columns() == vector.num_columns()
-        else:
-            return self.num_rows() == vector.num_rows()
+        # A single-element vector is both a row vector and a column vector
+        return (vector.is_row_vector() and self.num_columns() == vector.num_columns()) or \
+               (vector.is_column_vector() and self.num_rows() == vector.num_rows())
 
     def ensure_vector_size_matches(self, vector: 'Matrix'):
         if not self.vector_size_matches(vector):
-- 
2.43.0


From ae2c3a41f5711f9ee439356219f2c54a23d2c176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:42 +0000
Subject: [PATCH 02/54] fix: detect NaN elements (NaN never compares equal to
 itself)

---
 src/wai/ma/core/matrix/_Matrix.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index a49584a..63335f8 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -463,10 +463,7 @@ class Matrix(Serialisable):
         raise NotImplementedError
 
     def contains_NaN(self) -> bool:
-        NaN = real('NaN')
-        def element_is_NaN(el):
-            return el == NaN
-        return self.any(element_is_NaN)
+        return self.any(np.isnan)
 
     def any(self, function: Callable[[real], bool]) -> bool:
         for row in range(self.num_rows()):
-- 
2.43.0


From 5f578afe6811e0cfe23f1b331909f25f88c44c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:47 +0000
Subject: [PATCH 03/54] fix: drop cached decompositions when a matrix is
 modified by a vector operation

---
 src/wai/ma/core/matrix/_Matrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index 63335f8..3009a18 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -547,6 +547,7 @@ class Matrix(Serialisable):
     def vector_op_modify(self, vector: 'Matrix', op: np.ufunc):
         must_be_vector(vector)
         self.ensure_vector_size_matches(vector)
+        self.reset_cache()
         op.at(self.data, ..., vector.data)
 
     def vector_size_matches(self, vector: 'Matrix') -> bool:
-- 
2.43.0


From 81bcdf2768e70bef793bd87d35beefc5a34b1e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:53 +0000
Subject: [PATCH 04/54] fix: drop cached decompositions when the diagonal of a
 matrix is filled

---
 src/wai/ma/core/matrix/helper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wai/ma/core/matrix/helper.py b/src/wai/ma/core/matrix/helper.py
index 695f151..e1c9383 100644
--- a/src/wai/ma/core/matrix/helper.py
+++ b/src/wai/ma/core/matrix/helper.py
@@ -222,6 +222,7 @@ def column_stdevs(mat: Matrix) -> Matrix:
 
 
 def fill_diagonal(mat: Matrix, value: Number):
+    mat.reset_cache()
     i = 0
     while i < mat.num_rows() and i < mat.num_columns():
         mat.data[i][i] = real(value)
-- 
2.43.0


From 1fe74d86c114d8b6811cf2b782d7a8f55b2ce74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:00 +0000
Subject: [PATCH 05/54] fix: hand out a copy of the eigenvector matrix instead
 of the cached one

---
 src/wai/ma/core/matrix/_Matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index 3009a18..9c5e526 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -85,7 +85,7 @@ class Matrix(Serialisable):
 
     def get_eigenvalue_decomposition_V(self) -> 'Matrix':
         self.make_eigenvalue_decomposition()
-        return self.eigenvalue_decomposition[1]
+        return self.eigenvalue_decomposition[1].copy()
 
     def get_eigenvalue_decomposition_D(self) -> 'Matrix':
         self.make_eigenvalue_decomposition()
-- 
2.43.0


From 2ec5d07f2b65c03b1d2ab48db680efceccffbdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:06 +0000
Subject: [PATCH 06/54] fix: compute the singular values when they are asked
 for before any decomposition

---
 src/wai/ma/core/matrix/_Matrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index 9c5e526..888824f 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -141,6 +141,7 @@ class Matrix(Serialisable):
         return Matrix(np.array(raw, dtype=real))
 
     def get_singular_values(self) -> 'Matrix':
+        self.make_singular_value_decomposition()
         return self.singular_value_decomposition[1].transpose()
 
     def sum(self, axis: Optional[int] = None) -> Union['Matrix', real]:
-- 
2.43.0


From bae1dbc71e924501e08c9a9395191c091c053212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:12 +0000
Subject: [PATCH 07/54] fix: matrices of different shapes compare unequal
 instead of raising an error

---
 src/wai/ma/core/matrix/_Matrix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index 888824f..16c40a2 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -507,6 +507,9 @@ class Matrix(Serialisable):
         if other is None or self.__class__ is not other.__class__:
             return False
 
+        if not self.same_shape_as(other):
+            return False
+
         diff: Matrix = self.sub(other)
 
         return not diff.data.any()
-- 
2.43.0


From 6b85fb688f7ca3baa340a77336966fe9723f9b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:20 +0000
Subject: [PATCH 08/54] fix: a NaN element is not equal to every other value

---
 src/wai/ma/core/matrix/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/core/matrix/helper.py b/src/wai/ma/core/matrix/helper.py
index e1c9383..1134792 100644
--- a/src/wai/ma/core/matrix/helper.py
+++ b/src/wai/ma/core/matrix/helper.py
@@ -87,7 +87,7 @@ def equal(m1: Matrix, m2: Matrix, epsilon: real = real(0)) -> bool:
 
     for row in range(m1.num_rows()):
         for col in range(m1.num_columns()):
-            if np.abs(m1.get(row, col) - m2.get(row, col)) > epsilon:
+            if not np.abs(m1.get(row, col) - m2.get(row, col)) <= epsilon:
                 return False
 
     return True
-- 
2.43.0


From 1ac98a503539b61e9a8ba80994c970e6e0109684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:26 +0000
Subject: [PATCH 09/54] fix: max_index returns the position of the maximum

---
 src/wai/ma/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/core/utils.py b/src/wai/ma/core/utils.py
index 12248ef..0539e9f 100644
--- a/src/wai/ma/core/utils.py
+++ b/src/wai/ma/core/utils.py
@@ -246,7 +246,7 @@ def max_index(reals: List[real]) -> int:
 
     for i in range(len(reals)):
         if i == 0 or reals[i] > maximum:
-            max_index = 1
+            max_index = i
             maximum = reals[i]
 
     return max_index
-- 
2.43.0


From e8467fbfab2bac8c7d964bcb0049c2a431e00571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:31 +0000
Subject: [PATCH 10/54] fix: reserve room for the sign bit when serialising big
 integers

---
 src/wai/ma/core/_Serialisable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wai/ma/core/_Serialisable.py b/src/wai/ma/core/_Serialisable.py
index 7890553..9bfe2df 100644
--- a/src/wai/ma/core/_Serialisable.py
+++ b/src/wai/ma/core/_Serialisable.py
@@ -96,7 +96,8 @@ class Serialisable(ABC):
         bit_length: int = value.bit_length()
 
         # Get the number of bytes required to represent this value
-        byte_length: int = (bit_length // 8) + (1 if bit_length % 8 != 0 else 0)
+        # (two's complement needs one more bit for the sign)
+        byte_length: int = (bit_length // 8) + 1
 
         # Get the binary representation of the integer
         b = value.to_bytes(byte_length, "little" if LITTLE_ENDIAN else "big", signed=True)
-- 
2.43.0


From 89523c6fc7abbddf47533ee8f0c7a04c016a1039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:38 +0000
Subject: [PATCH 11/54] fix: save_state accepts a file name without a directory

---
 src/wai/ma/core/_Serialisable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/core/_Serialisable.py b/src/wai/ma/core/_Serialisable.py
index 9bfe2df..8944cc1 100644
--- a/src/wai/ma/core/_Serialisable.py
+++ b/src/wai/ma/core/_Serialisable.py
@@ -45,7 +45,7 @@ class Serialisable(ABC):
         """
         # Make sure the directory for the file exists
         path = os.path.dirname(filename)
-        if not os.path.exists(path):
+        if path != '' and not os.path.exists(path):
             os.makedirs(path, exist_ok=True)
 
         # Save the file
-- 
2.43.0


From 6671d5c55891fe80c5ec6501023fd7e58cc434b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:50 +0000
Subject: [PATCH 12/54] fix: sort orders plain Python numbers by value and NaNs
 last

---
 src/wai/ma/core/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wai/ma/core/utils.py b/src/wai/ma/core/utils.py
index 0539e9f..85adf36 100644
--- a/src/wai/ma/core/utils.py
+++ b/src/wai/ma/core/utils.py
@@ -185,7 +185,8 @@ def sort(array: List[real]) -> List[int]:
     """
     index = initial_index(len(array))
     if len(array) > 1:
-        array = list(array)
+        # Plain numbers are sorted by value as well, NaNs as the largest value
+        array = [np.finfo(real).max if np.isnan(x) else real(x) for x in array]
         quick_sort(array, index, 0, len(array) - 1)
     return index
 
-- 
2.43.0


From 51eae098ef49c1831ff1149788ac9423986c17fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:41 +0000
Subject: [PATCH 13/54] fix: serialise an integer base or offset of Log as a
 real number

---
 src/wai/ma/transformation/_Log.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wai/ma/transformation/_Log.py b/src/wai/ma/transformation/_Log.py
index 913b018..4990b76 100644
--- a/src/wai/ma/transformation/_Log.py
+++ b/src/wai/ma/transformation/_Log.py
@@ -86,6 +86,6 @@ class Log(AbstractTransformation, Serialisable):
 
     def serialise_state(self, stream: IO[bytes]):
         # Serialise out our base, base-conversion factor and offset
-        stream.write(self.serialise_to_bytes(self.base))
+        stream.write(self.serialise_to_bytes(float(self.base)))
         stream.write(self.serialise_to_bytes(self._base_conversion_factor()))
-        stream.write(self.serialise_to_bytes(self.offset))
+        stream.write(self.serialise_to_bytes(float(self.offset)))
-- 
2.43.0


From 7cc2399903924fa2b8db5fd7f4bfb782b9301cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:06 +0000
Subject: [PATCH 14/54] fix: report an empty matrix file that was handed over
 as an open file

---
 src/wai/ma/core/matrix/helper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wai/ma/core/matrix/helper.py b/src/wai/ma/core/matrix/helper.py
index 1134792..1dbe608 100644
--- a/src/wai/ma/core/matrix/helper.py
+++ b/src/wai/ma/core/matrix/helper.py
@@ -109,12 +109,12 @@ def read(filename: Union[str, IO[str]], header: bool, separator: str) -> Matrix:
         lines = [line for line in filename]
 
     if len(lines) == 0:
-        raise RuntimeError('No rows in file: ' + filename)
+        raise RuntimeError('No rows in file: ' + str(filename))
 
     if header:
         lines = lines[1:]
     if len(lines) == 0:
-        raise RuntimeError('No data rows in file: ' + filename)
+        raise RuntimeError('No data rows in file: ' + str(filename))
 
     sep = separator
     cells = lines[0].split(sep)
-- 
2.43.0


From 9c557e23fa9c37deeae71f2c108b1b8018db59a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:45 +0000
Subject: [PATCH 15/54] fix: guard every constant column against division by
 zero when standardising

---
 src/wai/ma/transformation/_Standardize.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wai/ma/transformation/_Standardize.py b/src/wai/ma/transformation/_Standardize.py
index 22b31fc..acf672d 100644
--- a/src/wai/ma/transformation/_Standardize.py
+++ b/src/wai/ma/transformation/_Standardize.py
@@ -37,9 +37,9 @@ class Standardize(AbstractTransformation, Serialisable):
         self.means = column_means(data)
         self.std_devs = column_stdevs(data)
         # Make sure we don't do a divide by zero
-        for i in range(self.std_devs.num_rows()):
-            if self.std_devs.get(i, 0) == real(0):
-                self.std_devs.set(i, 0, 1)
+        for i in range(self.std_devs.num_columns()):
+            if self.std_devs.get(0, i) == real(0):
+                self.std_devs.set(0, i, 1)
         self.configured = True
 
     def do_transform(self, data: Matrix) -> Matrix:
-- 
2.43.0


From 9f2b43ed6b8fcab711a3968a8f0a2d2f37b4e276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:51 +0000
Subject: [PATCH 16/54] fix: an inverse transformation no longer freezes row
 statistics for later data

---
 src/wai/ma/transformation/_AbstractTransformation.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/wai/ma/transformation/_AbstractTransformation.py b/src/wai/ma/transformation/_AbstractTransformation.py
index da1bc57..ceb0e09 100644
--- a/src/wai/ma/transformation/_AbstractTransformation.py
+++ b/src/wai/ma/transformation/_AbstractTransformation.py
@@ -47,7 +47,6 @@ class AbstractTransformation(Filter, ABC):
     def inverse_transform(self, data: Matrix) -> Matrix:
         if not self.configured:
             self.configure(data)
-            self.configured = True
         return self.do_inverse_transform(data)
 
     @classmethod
-- 
2.43.0


From 060ce519bfcbf4367a9cf3b7676fbb5995a58a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:56 +0000
Subject: [PATCH 17/54] fix: changing the standardise option reconfigures
 PowerTransformer

---
 src/wai/ma/transformation/_PowerTransformer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wai/ma/transformation/_PowerTransformer.py b/src/wai/ma/transformation/_PowerTransformer.py
index ccdd96f..e9afbeb 100644
--- a/src/wai/ma/transformation/_PowerTransformer.py
+++ b/src/wai/ma/transformation/_PowerTransformer.py
@@ -50,6 +50,10 @@ class PowerTransformer(AbstractTransformation):
             raise ValueError(f"Method was {method} but must be one of: " +
                              ", ".join(PowerTransformer.METHODS))
 
+    def validate_standardise(self, standardise: bool):
+        # Any value is fine, but a change requires reconfiguration
+        pass
+
     def reset(self):
         super().reset()
         self._intern = None
-- 
2.43.0


From df9a2d4376cee5e4ffb45054ccc4b723b3c487c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:04 +0000
Subject: [PATCH 18/54] fix: changing the centering or scaling option
 reconfigures RobustScaler

---
 src/wai/ma/transformation/_RobustScaler.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/wai/ma/transformation/_RobustScaler.py b/src/wai/ma/transformation/_RobustScaler.py
index 884dbb8..3e65f0c 100644
--- a/src/wai/ma/transformation/_RobustScaler.py
+++ b/src/wai/ma/transformation/_RobustScaler.py
@@ -51,6 +51,14 @@ class RobustScaler(AbstractTransformation):
             raise ValueError(f"Quantile range must be 0.0 < q_min < q_max < 100.0. "
                              f"Got q_min={selection[0]}, q_max={selection[1]}")
 
+    def validate_with_centering(self, with_centering: bool):
+        # Any value is fine, but a change requires reconfiguration
+        pass
+
+    def validate_with_scaling(self, with_scaling: bool):
+        # Any value is fine, but a change requires reconfiguration
+        pass
+
     def reset(self):
         super().reset()
         self._intern = None
-- 
2.43.0


From 2de22cf85f46c31d26b8869ad5536759a7ef5f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:10 +0000
Subject: [PATCH 19/54] fix: changing any option reconfigures
 QuantileTransformer

---
 .../ma/transformation/_QuantileTransformer.py    | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/wai/ma/transformation/_QuantileTransformer.py b/src/wai/ma/transformation/_QuantileTransformer.py
index b161ad4..341979b 100644
--- a/src/wai/ma/transformation/_QuantileTransformer.py
+++ b/src/wai/ma/transformation/_QuantileTransformer.py
@@ -53,6 +53,22 @@ class QuantileTransformer(AbstractTransformation):
             raise ValueError(f"Output distribution was {selection} but must be one of: " +
                              ", ".join(QuantileTransformer.OUTPUT_DISTRIBUTIONS))
 
+    def validate_n_quantiles(self, n_quantiles: int):
+        # Any value is fine, but a change requires reconfiguration
+        pass
+
+    def validate_ignore_implicit_zeroes(self, ignore_implicit_zeroes: bool):
+        # Any value is fine, but a change requires reconfiguration
+        pass
+
+    def validate_subsample(self, subsample: int):
+        # Any value is fine, but a change requires reconfiguration
+        pass
+
+    def validate_random_state(self, random_state: Optional[int]):
+        # Any value is fine, but a change requires reconfiguration
+        pass
+
     def reset(self):
         super().reset()
         self._intern = None
-- 
2.43.0


From 066037576b3437b6ff75d5934e6efc50a4950891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:28 +0000
Subject: [PATCH 20/54] fix: the default gamma of PolyKernel follows the data
 instead of sticking to the first use

---
 src/wai/ma/transformation/kernel/_PolyKernel.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/wai/ma/transformation/kernel/_PolyKernel.py b/src/wai/ma/transformation/kernel/_PolyKernel.py
index be5ac88..e68b59f 100644
--- a/src/wai/ma/transformation/kernel/_PolyKernel.py
+++ b/src/wai/ma/transformation/kernel/_PolyKernel.py
@@ -15,6 +15,8 @@
 #  along with this program.  If not, see <http://www.gnu.org/licenses/>.
 from typing import Optional
 
+import numpy as np
+
 from ...core import ZERO, real, NAN, ONE
 from ...core.matrix import Matrix
 from ._AbstractKernel import AbstractKernel
@@ -40,19 +42,21 @@ class PolyKernel(AbstractKernel):
     def apply_matrix(self, X: Matrix, Y: Optional[Matrix] = None) -> Matrix:
         if Y is None:
             Y = X
-        if self.gamma is NAN:
-            self.gamma = ONE / X.num_columns()
         result: Matrix = X.mul(Y.transpose())
-        result = result.mul(self.gamma)
+        result = result.mul(self.get_gamma(X))
         result = result.add(self.coef_0)
         result = result.pow_elementwise(self.degree)
         return result
 
     def apply_vector(self, x: Matrix, y: Matrix) -> real:
         linear_term: real = x.vector_dot(y)
-        if self.gamma is NAN:
-            self.gamma = ONE / x.num_columns()
-        return pow(self.gamma * linear_term + self.coef_0, self.degree)
+        return pow(self.get_gamma(x) * linear_term + self.coef_0, self.degree)
+
+    def get_gamma(self, x: Matrix) -> real:
+        # An unset gamma defaults to one over the number of attributes of the data at hand
+        if np.isnan(self.gamma):
+            return ONE / x.num_columns()
+        return self.gamma
 
     def __str__(self):
         return 'Polynomial Kernel: K(x,y)=(gamma*x^T*y + coef_0)^d, ' +\
-- 
2.43.0


From 04642c3f49483d20eef896f1c1d934a5c220e251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:35 +0000
Subject: [PATCH 21/54] fix: an unset gamma of RBFKernel follows the data
 instead of sticking to the first use

---
 src/wai/ma/transformation/kernel/_RBFKernel.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/wai/ma/transformation/kernel/_RBFKernel.py b/src/wai/ma/transformation/kernel/_RBFKernel.py
index a7d30ba..252147c 100644
--- a/src/wai/ma/transformation/kernel/_RBFKernel.py
+++ b/src/wai/ma/transformation/kernel/_RBFKernel.py
@@ -13,7 +13,9 @@
 #
 #  You should have received a copy of the GNU General Public License
 #  along with this program.  If not, see <http://www.gnu.org/licenses/>.
-from ...core import ONE, real, NAN
+import numpy as np
+
+from ...core import ONE, real
 from ...core.matrix import Matrix
 from ...core.utils import exp
 from ._AbstractKernel import AbstractKernel
@@ -33,9 +35,9 @@ class RBFKernel(AbstractKernel):
 
     def apply_vector(self, x: Matrix, y: Matrix) -> real:
         norm_2: real = x.sub(y).norm2()
-        if self.gamma is NAN:
-            self.gamma = ONE / x.num_columns()
-        return exp(-ONE * self.gamma * norm_2)
+        # An unset gamma defaults to one over the number of attributes of the data at hand
+        gamma: real = ONE / x.num_columns() if np.isnan(self.gamma) else self.gamma
+        return exp(-ONE * gamma * norm_2)
 
     def __str__(self):
         return 'RBF Kernel: K(x,y) = exp(-1*gamma*||x - y||^2), gamma=' + str(self.gamma)
-- 
2.43.0


From 8975c507bb0547f816a4442d9b79713f86028d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:06 +0000
Subject: [PATCH 22/54] fix: undo the preprocessing of each response column
 with its own mean and deviation

---
 src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py b/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py
index 8fed41d..af5e61b 100644
--- a/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py
+++ b/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py
@@ -98,13 +98,13 @@ class AbstractMultiResponsePLS(AbstractPLS):
         self.class_std_dev = [real(0)] * response.num_columns()
         for i in range(response.num_columns()):
             if self.preprocessing_type is PreprocessingType.CENTER:
-                self.class_mean[i] = helper.mean(response, 0)
+                self.class_mean[i] = helper.mean(response, i)
                 self.class_std_dev[i] = real(1)
                 self.trans_predictors = Center()
                 self.trans_response = Center()
             elif self.preprocessing_type is PreprocessingType.STANDARDIZE:
-                self.class_mean[i] = helper.mean(response, 0)
-                self.class_std_dev[i] = helper.stdev(response, 0)
+                self.class_mean[i] = helper.mean(response, i)
+                self.class_std_dev[i] = helper.stdev(response, i)
                 self.trans_predictors = Standardize()
                 self.trans_response = Standardize()
             elif self.preprocessing_type is PreprocessingType.NONE:
-- 
2.43.0


From 6566053ee15cda76f491ac242e2eb9a103490dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:31 +0000
Subject: [PATCH 23/54] fix: preprocess the predictors of a PLS model for
 predictions and transformations like its training data

---
 .../ma/algorithm/pls/_AbstractMultiResponsePLS.py | 15 +++++++++++++++
 .../algorithm/pls/_AbstractSingleResponsePLS.py   | 15 +++++++++++++++
 src/wai/ma/algorithm/pls/_OPLS.py                 |  2 +-
 3 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py b/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py
index af5e61b..eb2d146 100644
--- a/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py
+++ b/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py
@@ -133,6 +133,9 @@ class AbstractMultiResponsePLS(AbstractPLS):
         :param predictors:  The input data.
         :return:            The transformed data and the predictions.
         """
+        if self.trans_predictors is not None:
+            predictors = self.trans_predictors.transform(predictors)
+
         result = self.do_perform_predictions(predictors)
         if self.trans_response is not None:
             for i in range(result.num_rows()):
@@ -140,3 +143,15 @@ class AbstractMultiResponsePLS(AbstractPLS):
                     result.set(i, j, result.get(i, j) * self.class_std_dev[j] + self.class_mean[j])
 
         return result
+
+    def transform(self, predictors: Matrix) -> Matrix:
+        """
+        Transforms the data, preprocessed like the training data.
+
+        :param predictors:  The input data.
+        :return:            The transformed data.
+        """
+        if self.trans_predictors is not None:
+            predictors = self.trans_predictors.transform(predictors)
+
+        return super().transform(predictors)
diff --git a/src/wai/ma/algorithm/pls/_AbstractSingleResponsePLS.py b/src/wai/ma/algorithm/pls/_AbstractSingleResponsePLS.py
index a02e056..7a4bf11 100644
--- a/src/wai/ma/algorithm/pls/_AbstractSingleResponsePLS.py
+++ b/src/wai/ma/algorithm/pls/_AbstractSingleResponsePLS.py
@@ -94,9 +94,24 @@ class AbstractSingleResponsePLS(AbstractPLS, ABC):
         :param predictors:  The input data.
         :return:            The transformed data and the predictions.
         """
+        if self.trans_predictors is not None:
+            predictors = self.trans_predictors.transform(predictors)
+
         result = self.do_perform_predictions(predictors)
         if self.trans_response is not None:
             for i in range(result.num_rows()):
                 result.set(i, 0, result.get(i, 0) * self.class_std_dev + self.class_mean)
 
         return result
+
+    def transform(self, predictors: Matrix) -> Matrix:
+        """
+        Transforms the data, preprocessed like the training data.
+
+        :param predictors:  The input data.
+        :return:            The transformed data.
+        """
+        if self.trans_predictors is not None:
+            predictors = self.trans_predictors.transform(predictors)
+
+        return super().transform(predictors)
diff --git a/src/wai/ma/algorithm/pls/_OPLS.py b/src/wai/ma/algorithm/pls/_OPLS.py
index 5237fc9..f7f5ab9 100644
--- a/src/wai/ma/algorithm/pls/_OPLS.py
+++ b/src/wai/ma/algorithm/pls/_OPLS.py
@@ -189,5 +189,5 @@ class OPLS(AbstractSingleResponsePLS):
         :param predictors:  The input data.
         :return:            The transformed data and the predictions.
         """
-        X_transformed: Matrix = self.transform(predictors)
+        X_transformed: Matrix = self.do_transform(predictors)
         return self.base_PLS.predict(X_transformed)
-- 
2.43.0


From 05bb6d85170e1f3abb07eaa95553679314a9afaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:38 +0000
Subject: [PATCH 24/54] fix: a PLS algorithm reports missing predictors or
 response instead of failing

---
 src/wai/ma/algorithm/pls/_AbstractPLS.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wai/ma/algorithm/pls/_AbstractPLS.py b/src/wai/ma/algorithm/pls/_AbstractPLS.py
index ea6e2ae..489e051 100644
--- a/src/wai/ma/algorithm/pls/_AbstractPLS.py
+++ b/src/wai/ma/algorithm/pls/_AbstractPLS.py
@@ -44,15 +44,15 @@ class AbstractPLS(AbstractAlgorithm, SupervisedFilter):
             :param response:    The dependent variable(s).
             :return:            None if successful, otherwise error message.
             """
-            # Always work on copies
-            predictors = predictors.copy()
-            response = response.copy()
-
             self.reset()
 
             result = self.check(predictors, response)
 
             if result is None:
+                # Always work on copies
+                predictors = predictors.copy()
+                response = response.copy()
+
                 result = self.do_initialize(predictors, response)
                 self.initialised = result is None
 
-- 
2.43.0


From 372c079092acee265ae7ab9b5e60806765389e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:44 +0000
Subject: [PATCH 25/54] fix: GLSW reports a missing matrix instead of failing

---
 src/wai/ma/algorithm/glsw/_GLSW.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wai/ma/algorithm/glsw/_GLSW.py b/src/wai/ma/algorithm/glsw/_GLSW.py
index 707e7e3..076af55 100644
--- a/src/wai/ma/algorithm/glsw/_GLSW.py
+++ b/src/wai/ma/algorithm/glsw/_GLSW.py
@@ -40,15 +40,15 @@ class GLSW(AbstractAlgorithm, SupervisedFilter):
             super().initialize()
             self.alpha = 1e-3
         else:
-            # Always work on copies
-            x1 = x1.copy()
-            x2 = x2.copy()
-
             self.reset()
 
             result: Optional[str] = self.check(x1, x2)
 
             if result is None:
+                # Always work on copies
+                x1 = x1.copy()
+                x2 = x2.copy()
+
                 result = self.do_initialize(x1, x2)
                 self.initialised = result is None
 
-- 
2.43.0


From 398e9ce47c7df54f9c6114517a6adfed06de0fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:51 +0000
Subject: [PATCH 26/54] fix: CCAFilter reports a missing matrix instead of
 silently resetting its options

---
 src/wai/ma/algorithm/_CCAFilter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wai/ma/algorithm/_CCAFilter.py b/src/wai/ma/algorithm/_CCAFilter.py
index 9885a07..9daccb6 100644
--- a/src/wai/ma/algorithm/_CCAFilter.py
+++ b/src/wai/ma/algorithm/_CCAFilter.py
@@ -54,7 +54,7 @@ class CCAFilter(AbstractAlgorithm, SupervisedFilter):
         self.proj_Y = None
 
     def initialize(self, x: Optional[Matrix] = None, y: Optional[Matrix] = None) -> Optional[str]:
-        if x is None or y is None:
+        if x is None and y is None:
             super().initialize()
             self.kcca = 1
             self.lambda_X = real(1e-2)
@@ -62,14 +62,14 @@ class CCAFilter(AbstractAlgorithm, SupervisedFilter):
             self.center_X = Center()
             self.center_Y = Center()
         else:
-            x = x.copy()
-            y = y.copy()
-
             self.reset()
 
             result = self.check(x, y)
 
             if result is None:
+                x = x.copy()
+                y = y.copy()
+
                 result = self.do_initialize(x, y)
                 self.initialised = (result is None)
 
-- 
2.43.0


From a23acfcce2e5fe84cd3fadbc65d23d3045467384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:58 +0000
Subject: [PATCH 27/54] fix: CCAFilter centers new training data with their own
 means

---
 src/wai/ma/algorithm/_CCAFilter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wai/ma/algorithm/_CCAFilter.py b/src/wai/ma/algorithm/_CCAFilter.py
index 9daccb6..daeec69 100644
--- a/src/wai/ma/algorithm/_CCAFilter.py
+++ b/src/wai/ma/algorithm/_CCAFilter.py
@@ -52,6 +52,8 @@ class CCAFilter(AbstractAlgorithm, SupervisedFilter):
         super().reset()
         self.proj_X = None
         self.proj_Y = None
+        self.center_X = Center()
+        self.center_Y = Center()
 
     def initialize(self, x: Optional[Matrix] = None, y: Optional[Matrix] = None) -> Optional[str]:
         if x is None and y is None:
-- 
2.43.0


From 95f4165ce564f5059fb0dcd993aeba70a1e7a12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:27 +0000
Subject: [PATCH 28/54] fix: FastICA centers new data with their own means

---
 src/wai/ma/algorithm/ica/_FastICA.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wai/ma/algorithm/ica/_FastICA.py b/src/wai/ma/algorithm/ica/_FastICA.py
index e6107ee..29c223c 100644
--- a/src/wai/ma/algorithm/ica/_FastICA.py
+++ b/src/wai/ma/algorithm/ica/_FastICA.py
@@ -73,6 +73,7 @@ class FastICA(AbstractAlgorithm, Filter):
         self.components = None
         self.mixing = None
         self.whitening = None
+        self.center = Center()
 
     def configure(self, X: Matrix):
         X = X.transpose()
-- 
2.43.0


From 17cba771f9dce7932e723b99f8e9157ed97f1634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:34 +0000
Subject: [PATCH 29/54] fix: FastICA limits the number of components to the
 data at hand without changing the option

---
 src/wai/ma/algorithm/ica/_FastICA.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/wai/ma/algorithm/ica/_FastICA.py b/src/wai/ma/algorithm/ica/_FastICA.py
index 29c223c..12e30da 100644
--- a/src/wai/ma/algorithm/ica/_FastICA.py
+++ b/src/wai/ma/algorithm/ica/_FastICA.py
@@ -85,13 +85,15 @@ class FastICA(AbstractAlgorithm, Filter):
 
         min_NP: int = min(n, p)
 
+        num_components: int = self.num_components
+
         if not self.whiten:
-            self.num_components = min_NP
+            num_components = min_NP
             self.logger.warning('Ignoring num_components when $whiten=False')
 
-        if self.num_components > min_NP:
+        if num_components > min_NP:
             self.logger.warning('num_components is too large and will be set to ' + str(min_NP))
-            self.num_components = min_NP
+            num_components = min_NP
 
         # Whiten data
         if self.whiten:
@@ -102,7 +104,7 @@ class FastICA(AbstractAlgorithm, Filter):
             d = d.get_rows((0, k))  # Only get non-zero singular values
             d_inv_elements: Matrix = d.apply_elementwise(lambda a: 1.0 / a)
             tmp: Matrix = U.scale_by_row_vector(d_inv_elements).transpose()
-            self.whitening = tmp.get_rows((0, min(tmp.num_rows(), self.num_components)))
+            self.whitening = tmp.get_rows((0, min(tmp.num_rows(), num_components)))
 
             X1 = self.whitening.mul(X)
             X1 = X1.mul(sqrt(p))
@@ -110,7 +112,7 @@ class FastICA(AbstractAlgorithm, Filter):
             X1 = X
 
         # Randomly initialise weights from normal dist
-        W_init: Matrix = randn(self.num_components, self.num_components, 1)
+        W_init: Matrix = randn(num_components, num_components, 1)
 
         # Use deflation algorithm
         if self.algorithm is Algorithm.DEFLATION:
@@ -136,9 +138,10 @@ class FastICA(AbstractAlgorithm, Filter):
         :param X:       Input.
         :return:        Weights
         """
-        W: Matrix = zeros(self.num_components, self.num_components)
+        num_components: int = W_init.num_rows()
+        W: Matrix = zeros(num_components, num_components)
 
-        for j in range(self.num_components):
+        for j in range(num_components):
             w: Matrix = W_init.get_row(j).transpose().copy()
             w = w.div(w.pow_elementwise(2).sum(-1).sqrt().as_real())
             for i in range(self.max_iter):
-- 
2.43.0


From 9b456091fee108c3dd75b298c166a75861f5bbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:40 +0000
Subject: [PATCH 30/54] fix: OPLS reports a failure to train its base algorithm

---
 src/wai/ma/algorithm/pls/_OPLS.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/wai/ma/algorithm/pls/_OPLS.py b/src/wai/ma/algorithm/pls/_OPLS.py
index f7f5ab9..16b3aec 100644
--- a/src/wai/ma/algorithm/pls/_OPLS.py
+++ b/src/wai/ma/algorithm/pls/_OPLS.py
@@ -147,9 +147,7 @@ class OPLS(AbstractSingleResponsePLS):
             self.P_orth.set_column(current_component, p_orth)
 
         self.X_osc = X.copy()
-        self.base_PLS.initialize(self.do_transform(predictors), response)
-
-        return None
+        return self.base_PLS.initialize(self.do_transform(predictors), response)
 
     def inv_L2_squared(self, v: Matrix) -> real:
         """
-- 
2.43.0


From 74ec591fb5838fee6d3cc530028cd3d61e31a290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:47 +0000
Subject: [PATCH 31/54] fix: OPLS drops the cleaned training data on reset

---
 src/wai/ma/algorithm/pls/_OPLS.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wai/ma/algorithm/pls/_OPLS.py b/src/wai/ma/algorithm/pls/_OPLS.py
index 16b3aec..32114ea 100644
--- a/src/wai/ma/algorithm/pls/_OPLS.py
+++ b/src/wai/ma/algorithm/pls/_OPLS.py
@@ -54,6 +54,7 @@ class OPLS(AbstractSingleResponsePLS):
         self.P_orth = None
         self.W_orth = None
         self.T_orth = None
+        self.X_osc = None
 
     def initialize(self, predictors: Optional[Matrix] = None, response: Optional[Matrix] = None) -> Optional[str]:
         if predictors is None and response is None:
-- 
2.43.0


From d7a7b2ef4595c75886322470c34fb4bc4a77e026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:53 +0000
Subject: [PATCH 32/54] fix: SIMPLS drops its Q matrix on reset

---
 src/wai/ma/algorithm/pls/_SIMPLS.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wai/ma/algorithm/pls/_SIMPLS.py b/src/wai/ma/algorithm/pls/_SIMPLS.py
index 48e826c..7ccd264 100644
--- a/src/wai/ma/algorithm/pls/_SIMPLS.py
+++ b/src/wai/ma/algorithm/pls/_SIMPLS.py
@@ -46,6 +46,7 @@ class SIMPLS(AbstractSingleResponsePLS, Serialisable):
         super().reset()
         self.B = None
         self.W = None
+        self.Q = None
 
     @staticmethod
     def validate_num_coefficients(value: int) -> bool:
-- 
2.43.0


From d1fb04ffebc0058047f0d528a30d9c60801848f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:00 +0000
Subject: [PATCH 33/54] fix: EPO with more eigenvectors requested than
 available keeps all of them

---
 src/wai/ma/algorithm/glsw/_EPO.py          | 2 +-
 src/wai/ma/algorithm/glsw/_YGradientEPO.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wai/ma/algorithm/glsw/_EPO.py b/src/wai/ma/algorithm/glsw/_EPO.py
index cf43ccf..1b516dc 100644
--- a/src/wai/ma/algorithm/glsw/_EPO.py
+++ b/src/wai/ma/algorithm/glsw/_EPO.py
@@ -42,7 +42,7 @@ class EPO(GLSW):
         :param C:   Covariance matrix.
         :return:    Identity matrix.
         """
-        return factory.eye(self.N)
+        return factory.eye(min(C.num_columns(), self.N))
 
     def get_eigenvector_matrix(self, C: Matrix) -> Matrix:
         """
diff --git a/src/wai/ma/algorithm/glsw/_YGradientEPO.py b/src/wai/ma/algorithm/glsw/_YGradientEPO.py
index d4fb4f5..ee63b44 100644
--- a/src/wai/ma/algorithm/glsw/_YGradientEPO.py
+++ b/src/wai/ma/algorithm/glsw/_YGradientEPO.py
@@ -54,7 +54,7 @@ class YGradientEPO(YGradientGLSW):
         :param C:   Covariance matrix.
         :return:    Identity matrix.
         """
-        return factory.eye(self.N)
+        return factory.eye(min(C.num_columns(), self.N))
 
     def get_eigenvector_matrix(self, C: Matrix) -> Matrix:
         """
-- 
2.43.0


From 1ef65873b5c8daecc75cb9d8f2609df835ff324d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:06 +0000
Subject: [PATCH 34/54] fix: semi-supervised DIPLS trains on all labelled
 samples of both domains

---
 src/wai/ma/algorithm/pls/_DIPLS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/pls/_DIPLS.py b/src/wai/ma/algorithm/pls/_DIPLS.py
index e301149..6af5665 100644
--- a/src/wai/ma/algorithm/pls/_DIPLS.py
+++ b/src/wai/ma/algorithm/pls/_DIPLS.py
@@ -140,7 +140,7 @@ class DIPLS(AbstractSingleResponsePLS):
                 X_s: Matrix = predictors.get_rows((0, self.ns))
                 X_t: Matrix = predictors.get_rows((self.ns, predictors.num_rows()))
 
-                X: Matrix = predictors.get_rows((0, 2 * self.ns))
+                X: Matrix = predictors.get_rows((0, self.ns + self.nt))
                 y = response
                 break_()
 
-- 
2.43.0


From be42fd0cfac664030c1094a820854d36530acc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:47 +0000
Subject: [PATCH 35/54] fix: FastICA reconstructs the data it was given

---
 src/wai/ma/algorithm/ica/_FastICA.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/ica/_FastICA.py b/src/wai/ma/algorithm/ica/_FastICA.py
index 12e30da..af020f1 100644
--- a/src/wai/ma/algorithm/ica/_FastICA.py
+++ b/src/wai/ma/algorithm/ica/_FastICA.py
@@ -256,7 +256,9 @@ class FastICA(AbstractAlgorithm, Filter):
 
     def reconstruct(self) -> Matrix:
         if self.is_initialised():
-            return self.center.inverse_transform(self.sources.mul(self.mixing.transpose()).transpose()).transpose()
+            reconstructed: Matrix = self.sources.mul(self.mixing.transpose())
+            # Only whitening centers the data
+            return self.center.inverse_transform(reconstructed) if self.whiten else reconstructed
         else:
             raise MatrixAlgorithmsError('FastICA has not yet been initialized!')
 
-- 
2.43.0


From 807211412d4b6166a700f4dbd05e395ba48587db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:06 +0000
Subject: [PATCH 36/54] fix: PRM rotates wide data with the right singular
 vectors, not their transpose

---
 src/wai/ma/algorithm/pls/_PRM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/pls/_PRM.py b/src/wai/ma/algorithm/pls/_PRM.py
index 073b0a4..af5d887 100644
--- a/src/wai/ma/algorithm/pls/_PRM.py
+++ b/src/wai/ma/algorithm/pls/_PRM.py
@@ -219,7 +219,7 @@ class PRM(AbstractSingleResponsePLS):
         if has_more_columns_than_rows:
             X_t: Matrix = X.transpose()
             U = X_t.svd_U()
-            V: Matrix = X_t.svd_V()
+            V: Matrix = X_t.svd_V().transpose()  # svd_V holds the right singular vectors as rows
             S: Matrix = X_t.svd_S()
 
             # Replace X with n x n matrix
-- 
2.43.0


From 3b4c3df28a5d3037231aa7c6e802b8d7c678e043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:14 +0000
Subject: [PATCH 37/54] fix: CCAFilter projects the responses onto the right
 singular vectors, not their transpose

---
 src/wai/ma/algorithm/_CCAFilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/_CCAFilter.py b/src/wai/ma/algorithm/_CCAFilter.py
index daeec69..cedaaba 100644
--- a/src/wai/ma/algorithm/_CCAFilter.py
+++ b/src/wai/ma/algorithm/_CCAFilter.py
@@ -108,7 +108,7 @@ class CCAFilter(AbstractAlgorithm, SupervisedFilter):
         omega: Matrix = Cxx_inv_sqrt.mul(Cxy).mul(Cyy_inv_sqrt)
 
         U: Matrix = omega.svd_U().normalized(0)
-        V: Matrix = omega.svd_V().normalized(0)
+        V: Matrix = omega.svd_V().transpose().normalized(0)  # svd_V holds the right singular vectors as rows
 
         C: Matrix = U.get_sub_matrix((0, U.num_rows()), (0, self.kcca))
         D: Matrix = V.get_sub_matrix((0, V.num_rows()), (0, self.kcca))
-- 
2.43.0


From 53271818db7e27bfcdc9588f908e424ee324a93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:22 +0000
Subject: [PATCH 38/54] fix: PRM has no weight matrix before training instead
 of failing

---
 src/wai/ma/algorithm/pls/_PRM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/pls/_PRM.py b/src/wai/ma/algorithm/pls/_PRM.py
index af5d887..b3fd547 100644
--- a/src/wai/ma/algorithm/pls/_PRM.py
+++ b/src/wai/ma/algorithm/pls/_PRM.py
@@ -101,7 +101,7 @@ class PRM(AbstractSingleResponsePLS):
             if case('Wx'):
                 return self.W_x
             if case('W'):
-                return self.W_r.mul_elementwise(self.W_x)
+                return self.W_r.mul_elementwise(self.W_x) if self.W_r is not None else None
         return None
 
     def has_loadings(self) -> bool:
-- 
2.43.0


From e23aceef030b69a67ee3b58b0fa62269e9f0a3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:29 +0000
Subject: [PATCH 39/54] fix: changing the Y weight normalisation or the
 deflation mode resets NIPALS like every other option

---
 src/wai/ma/algorithm/pls/_NIPALS.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/wai/ma/algorithm/pls/_NIPALS.py b/src/wai/ma/algorithm/pls/_NIPALS.py
index 9bf596b..4b2b733 100644
--- a/src/wai/ma/algorithm/pls/_NIPALS.py
+++ b/src/wai/ma/algorithm/pls/_NIPALS.py
@@ -76,6 +76,14 @@ class NIPALS(AbstractMultiResponsePLS):
     def validate_tol(value: real) -> bool:
         return value >= ZERO
 
+    @staticmethod
+    def validate_norm_Y_weights(value: bool) -> bool:
+        return True
+
+    @staticmethod
+    def validate_deflation_mode(value: 'DeflationMode') -> bool:
+        return True
+
     def get_min_columns_response(self) -> int:
         return 1
 
-- 
2.43.0


From dd3f875c8eec11527b4d4c3652e6e43dafd8ff94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:37 +0000
Subject: [PATCH 40/54] fix: PCA reports that it has been trained

---
 src/wai/ma/algorithm/_PCA.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wai/ma/algorithm/_PCA.py b/src/wai/ma/algorithm/_PCA.py
index 6b92331..a3d0204 100644
--- a/src/wai/ma/algorithm/_PCA.py
+++ b/src/wai/ma/algorithm/_PCA.py
@@ -146,6 +146,7 @@ class PCA(AbstractAlgorithm, Filter):
         self.sum_of_eigenvalues = sum(self.eigenvalues.to_raw_copy_1D())
 
         self.train = None
+        self.initialised = True
 
     def do_transform(self, data: Matrix) -> Matrix:
         """
-- 
2.43.0


From d57eff451a8603db066970dd53c1a255f494356a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:10 +0000
Subject: [PATCH 41/54] fix: PCA loadings have a row for every input column,
 removed constant ones included

---
 src/wai/ma/algorithm/_PCA.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/wai/ma/algorithm/_PCA.py b/src/wai/ma/algorithm/_PCA.py
index a3d0204..9c29db6 100644
--- a/src/wai/ma/algorithm/_PCA.py
+++ b/src/wai/ma/algorithm/_PCA.py
@@ -37,6 +37,7 @@ class PCA(AbstractAlgorithm, Filter):
         self.sorted_eigens: List[int] = []
         self.sum_of_eigenvalues: real = real(0)
         self.num_cols: int = 0
+        self.num_cols_input: int = 0
         self.num_rows: int = 0
         self.keep_cols: List[int] = []
         self.train: Optional[Matrix] = None
@@ -109,6 +110,7 @@ class PCA(AbstractAlgorithm, Filter):
         :param instances:   The data to process.
         """
         self.train = instances.copy()
+        self.num_cols_input = self.train.num_columns()
 
         # Delete any attributes with only one distinct value or are all missing
         self.keep_cols = []
@@ -235,15 +237,15 @@ class PCA(AbstractAlgorithm, Filter):
         :return:    Matrix containing the components.
         """
         coeff = self.get_coefficients()
-        result = factory.zeros(self.num_cols, len(coeff) + 1)
+        result = factory.zeros(self.num_cols_input, len(coeff) + 1)
 
         # Add the index column
-        for n in range(self.num_cols):
+        for n in range(self.num_cols_input):
             result.set(n, result.num_columns() - 1, n + 1)
 
         # Each list is a single column
         for i in range(len(coeff)):
-            for n in range(self.num_cols):
+            for n in range(self.num_cols_input):
                 # Column was kept earlier
                 value = real(0)
                 if n in self.keep_cols:
-- 
2.43.0


From 4344c9144ee9e12e03c5c4976b0ee5d47e2eb7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:17 +0000
Subject: [PATCH 42/54] fix: PRM transforms wide data with the rotation it was
 trained with

---
 src/wai/ma/algorithm/pls/_PRM.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wai/ma/algorithm/pls/_PRM.py b/src/wai/ma/algorithm/pls/_PRM.py
index b3fd547..5469deb 100644
--- a/src/wai/ma/algorithm/pls/_PRM.py
+++ b/src/wai/ma/algorithm/pls/_PRM.py
@@ -50,6 +50,7 @@ class PRM(AbstractSingleResponsePLS):
         self.num_SIMPLS_coefficients: int = 0  # The number of SIMPLS coefficients in W to keep (0 keep all)
         self.final_regression_coefficients: Optional[Matrix] = None  # Final regression coefficients
         self.simpls: Optional[SIMPLS] = None  # SIMPLS algorithm
+        self.U: Optional[Matrix] = None  # Rotation of the predictors, if there are more columns than rows
 
     @staticmethod
     def validate_num_SIMPLS_coefficients(value: int) -> bool:
@@ -75,6 +76,7 @@ class PRM(AbstractSingleResponsePLS):
         self.gamma = None
         self.T = None
         self.simpls = None
+        self.U = None
 
     def initialize(self, predictors: Optional[Matrix] = None, response: Optional[Matrix] = None) -> Optional[str]:
         if predictors is None and response is None:
@@ -266,6 +268,7 @@ class PRM(AbstractSingleResponsePLS):
         # If X has been replaced by US, the regression coefficients need to be
         # back-transformed into beta_hat = U*beta_p
         if has_more_columns_than_rows:
+            self.U = U
             self.final_regression_coefficients = U.mul(self.final_regression_coefficients)
 
         return None
@@ -274,6 +277,8 @@ class PRM(AbstractSingleResponsePLS):
         return True
 
     def do_transform(self, predictors: Matrix) -> Matrix:
+        if self.U is not None:
+            predictors = predictors.mul(self.U)
         return predictors.mul(self.simpls.get_matrix('W'))
 
     def do_perform_predictions(self, predictors: Matrix) -> Matrix:
-- 
2.43.0


From 3b00d7afc398752d459585ef6925f354899205f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:10 +0000
Subject: [PATCH 43/54] fix: NIPALS can be trained with more than one response

---
 src/wai/ma/algorithm/pls/_NIPALS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/pls/_NIPALS.py b/src/wai/ma/algorithm/pls/_NIPALS.py
index 4b2b733..5c1dc39 100644
--- a/src/wai/ma/algorithm/pls/_NIPALS.py
+++ b/src/wai/ma/algorithm/pls/_NIPALS.py
@@ -162,7 +162,7 @@ class NIPALS(AbstractMultiResponsePLS):
 
         # Calculate regression coefficients
         y_stds: Matrix = self.standardize_Y.get_std_devs()
-        self.coef = self.X_rotations.mul(self.Y_loadings.transpose()).scale_by_row_vector(y_stds)
+        self.coef = self.X_rotations.mul(self.Y_loadings.transpose()).scale_by_row_vector(y_stds.transpose())
         return None
 
     def nipals_loop(self, X: Matrix, Y: Matrix) -> 'NipalsLoopResult':
-- 
2.43.0


From 5e39a095f99880942ded13f3f232200cecdf5eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:18 +0000
Subject: [PATCH 44/54] fix: the inner NIPALS loop iterates on the updated Y
 scores

---
 src/wai/ma/algorithm/pls/_NIPALS.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wai/ma/algorithm/pls/_NIPALS.py b/src/wai/ma/algorithm/pls/_NIPALS.py
index 5c1dc39..a9e7276 100644
--- a/src/wai/ma/algorithm/pls/_NIPALS.py
+++ b/src/wai/ma/algorithm/pls/_NIPALS.py
@@ -231,6 +231,7 @@ class NIPALS(AbstractMultiResponsePLS):
 
             # Update stopping conditions
             X_weight_old = X_weight
+            y_score = Y_score
             iterations += 1
 
         return NipalsLoopResult(X_weight, Y_weight, iterations)
-- 
2.43.0


From 1aa6f370e296a34a80093dbbd5ef9609dd37caba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:06 +0000
Subject: [PATCH 45/54] fix: SparsePLS transforms each row with the deflation
 of the training data, not of the rows it is transformed with

---
 src/wai/ma/algorithm/pls/_SparsePLS.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/wai/ma/algorithm/pls/_SparsePLS.py b/src/wai/ma/algorithm/pls/_SparsePLS.py
index f72d68f..ccf9505 100644
--- a/src/wai/ma/algorithm/pls/_SparsePLS.py
+++ b/src/wai/ma/algorithm/pls/_SparsePLS.py
@@ -51,6 +51,7 @@ class SparsePLS(AbstractSingleResponsePLS):
         self.lambda_: real = ZERO  # Sparsity parameter. Determines sparseness
         self.A: Optional[Set[int]] = None
         self.W: Optional[Matrix] = None  # Loadings
+        self.P: Optional[Matrix] = None  # Deflation of the predictors, one column per component
         self.standardize_X: Optional[Standardize] = None  # Standardize X
         self.standardize_Y: Optional[Standardize] = None  # Standardize Y
 
@@ -74,6 +75,7 @@ class SparsePLS(AbstractSingleResponsePLS):
         self.B_pls = None
         self.A = None
         self.W = None
+        self.P = None
         self.standardize_X = Standardize()
         self.standardize_Y = Standardize()
 
@@ -167,6 +169,15 @@ class SparsePLS(AbstractSingleResponsePLS):
             # Deflate
             y_j = y.sub(X.mul(self.B_pls))
 
+        # Deflation of the training data, applied to all data in do_transform
+        self.P = factory.zeros(X.num_columns(), self.num_components)
+        X_k: Matrix = predictors
+        for k in range(self.num_components):
+            t_k: Matrix = X_k.mul(self.W.get_column(k))
+            p_k: Matrix = X_k.transpose().mul(t_k).div(t_k.norm2_squared())
+            self.P.set_column(k, p_k)
+            X_k = X_k.sub(t_k.mul(p_k.transpose()))
+
         if self.debug:
             self.logger.info('Selected following features ' +
                              '(' + str(len(self.A)) + '/' + str(X.num_columns()) + '): ')
@@ -282,8 +293,7 @@ class SparsePLS(AbstractSingleResponsePLS):
             t_k: Matrix = X.mul(w_k)
             T.set_column(k, t_k)
 
-            p_k: Matrix = X.transpose().mul(t_k).div(t_k.norm2_squared())
-            X = X.sub(t_k.mul(p_k.transpose()))
+            X = X.sub(t_k.mul(self.P.get_column(k).transpose()))
 
         return T
 
-- 
2.43.0


From 6037ef0138d08c64f210ece6037b59a70dc302f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:31 +0000
Subject: [PATCH 46/54] fix: PCA and FastICA hand out a copy of the scores they
 keep

---
 src/wai/ma/algorithm/_PCA.py         | 2 +-
 src/wai/ma/algorithm/ica/_FastICA.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wai/ma/algorithm/_PCA.py b/src/wai/ma/algorithm/_PCA.py
index 9c29db6..1a2021a 100644
--- a/src/wai/ma/algorithm/_PCA.py
+++ b/src/wai/ma/algorithm/_PCA.py
@@ -267,7 +267,7 @@ class PCA(AbstractAlgorithm, Filter):
         self.reset()
         self.configure(data)
         result = self.do_transform(data)
-        self.scores = result
+        self.scores = result.copy()
         self.loadings = self.extract_loadings()
 
         return result
diff --git a/src/wai/ma/algorithm/ica/_FastICA.py b/src/wai/ma/algorithm/ica/_FastICA.py
index af020f1..b0a1536 100644
--- a/src/wai/ma/algorithm/ica/_FastICA.py
+++ b/src/wai/ma/algorithm/ica/_FastICA.py
@@ -245,7 +245,7 @@ class FastICA(AbstractAlgorithm, Filter):
         :param data:    The original data to transform.
         :return:        The transformed data.
         """
-        return self.sources
+        return self.sources.copy()
 
     def transform(self, data: Matrix) -> Matrix:
         self.reset()
-- 
2.43.0


From 719348273ab03275fd6cf19e043ed70d39c6d033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:49 +0000
Subject: [PATCH 47/54] fix: matrices with equal infinite elements are equal

---
 src/wai/ma/core/matrix/_Matrix.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index 16c40a2..439e245 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -510,9 +510,7 @@ class Matrix(Serialisable):
         if not self.same_shape_as(other):
             return False
 
-        diff: Matrix = self.sub(other)
-
-        return not diff.data.any()
+        return not np.not_equal(self.data, other.data).any()
 
     def __hash__(self):
         # TODO
-- 
2.43.0


From 363cf486ea02f275f0e4f25ba73b32317b7b0ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:54 +0000
Subject: [PATCH 48/54] fix: tolerance equality accepts equal infinite elements

---
 src/wai/ma/core/matrix/helper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wai/ma/core/matrix/helper.py b/src/wai/ma/core/matrix/helper.py
index 1dbe608..a7c5cd6 100644
--- a/src/wai/ma/core/matrix/helper.py
+++ b/src/wai/ma/core/matrix/helper.py
@@ -87,7 +87,9 @@ def equal(m1: Matrix, m2: Matrix, epsilon: real = real(0)) -> bool:
 
     for row in range(m1.num_rows()):
         for col in range(m1.num_columns()):
-            if not np.abs(m1.get(row, col) - m2.get(row, col)) <= epsilon:
+            # Equal infinities have no difference to compare with
+            if m1.get(row, col) != m2.get(row, col) and \
+                    not np.abs(m1.get(row, col) - m2.get(row, col)) <= epsilon:
                 return False
 
     return True
-- 
2.43.0


From c2fe1eee350a6386bdfec8d0d7f081d29184e0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:43 +0000
Subject: [PATCH 49/54] fix: Savitzky-Golay powers of window positions no
 longer overflow

---
 src/wai/ma/transformation/_SavitzkyGolay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wai/ma/transformation/_SavitzkyGolay.py b/src/wai/ma/transformation/_SavitzkyGolay.py
index 01749ad..ddd4d0c 100644
--- a/src/wai/ma/transformation/_SavitzkyGolay.py
+++ b/src/wai/ma/transformation/_SavitzkyGolay.py
@@ -114,7 +114,7 @@ def determine_coefficients(num_left: int, num_right: int, poly_order: int, der_o
         for j in range(A_dim):
             sum = real(0)
             for k in range(-num_left, num_right + 1):
-                sum += np.power(k, i + j)
+                sum += np.power(real(k), i + j)
             A.set(i, j, sum)
 
     b = factory.zeros(A_dim, 1)
@@ -125,7 +125,7 @@ def determine_coefficients(num_left: int, num_right: int, poly_order: int, der_o
     for i in range(-num_left, num_right + 1):
         sum = real(0)
         for j in range(A_dim):
-            sum += solution.get(j, 0) * np.power(i, j)
+            sum += solution.get(j, 0) * np.power(real(i), j)
         result[i + num_left] = sum
 
     return result
-- 
2.43.0


From 2db2b3744405a9b3f8939965c09a29304cfe6f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:16 +0000
Subject: [PATCH 50/54] fix: Standardize recognises constant columns despite
 rounding and single rows

---
 src/wai/ma/transformation/_Standardize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/transformation/_Standardize.py b/src/wai/ma/transformation/_Standardize.py
index acf672d..64a1849 100644
--- a/src/wai/ma/transformation/_Standardize.py
+++ b/src/wai/ma/transformation/_Standardize.py
@@ -38,7 +38,7 @@ class Standardize(AbstractTransformation, Serialisable):
         self.std_devs = column_stdevs(data)
         # Make sure we don't do a divide by zero
         for i in range(self.std_devs.num_columns()):
-            if self.std_devs.get(0, i) == real(0):
+            if self.std_devs.get(0, i) == real(0) or (data.data[:, i] == data.data[0, i]).all():
                 self.std_devs.set(0, i, 1)
         self.configured = True
 
-- 
2.43.0


From e48305ff8f7cd128911ca504b1d8f32533e52f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:23 +0000
Subject: [PATCH 51/54] fix: RowNorm recognises constant rows despite rounding
 and single columns

---
 src/wai/ma/transformation/_RowNorm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/transformation/_RowNorm.py b/src/wai/ma/transformation/_RowNorm.py
index b7b86b5..fedcf3f 100644
--- a/src/wai/ma/transformation/_RowNorm.py
+++ b/src/wai/ma/transformation/_RowNorm.py
@@ -38,7 +38,7 @@ class RowNorm(AbstractTransformation):
         self.std_devs = row_stdevs(data)
         # Make sure we don't do a divide by zero
         for i in range(self.std_devs.num_rows()):
-            if self.std_devs.get(i, 0) == real(0):
+            if self.std_devs.get(i, 0) == real(0) or (data.data[i] == data.data[i, 0]).all():
                 self.std_devs.set(i, 0, 1)
 
     def do_transform(self, data: Matrix) -> Matrix:
-- 
2.43.0


From 830aca4b709dfdb6e3c411b32f6480524171c3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:15 +0000
Subject: [PATCH 52/54] fix: symmetric matrices with repeated eigenvalues get
 orthogonal eigenvectors

---
 src/wai/ma/core/matrix/_Matrix.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index 439e245..329d750 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -118,6 +118,14 @@ class Matrix(Serialisable):
         """
         if self.eigenvalue_decomposition is None:
             eigenvalues, eigenvectors = np.linalg.eig(self.data)
+
+            # For repeated eigenvalues the general solver does not return orthogonal eigenvectors,
+            # but users of symmetric matrices rely on them (strongest direction first)
+            if np.allclose(self.data, self.data.T) and \
+                    not np.allclose(np.matmul(eigenvectors.T, eigenvectors), np.identity(len(eigenvalues))):
+                eigenvalues, eigenvectors = np.linalg.eigh(self.data)
+                eigenvalues, eigenvectors = eigenvalues[::-1], eigenvectors[:, ::-1]
+
             self.eigenvalue_decomposition = (Matrix(eigenvalues).transpose(), Matrix(eigenvectors))
 
     def make_qr_decomposition(self):
-- 
2.43.0


From e3eb449286148e252e3381dca5a8ed0254f74305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:04 +0000
Subject: [PATCH 53/54] fix: symmetry is judged relative to the size of the
 matrix in eigen decompositions

---
 src/wai/ma/core/matrix/_Matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index 329d750..67370d3 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -121,7 +121,7 @@ class Matrix(Serialisable):
 
             # For repeated eigenvalues the general solver does not return orthogonal eigenvectors,
             # but users of symmetric matrices rely on them (strongest direction first)
-            if np.allclose(self.data, self.data.T) and \
+            if np.allclose(self.data, self.data.T, rtol=0, atol=1e-12 * np.linalg.norm(self.data)) and \
                     not np.allclose(np.matmul(eigenvectors.T, eigenvectors), np.identity(len(eigenvalues))):
                 eigenvalues, eigenvectors = np.linalg.eigh(self.data)
                 eigenvalues, eigenvectors = eigenvalues[::-1], eigenvectors[:, ::-1]
-- 
2.43.0


From a5b6bde7fc29ba17b93543dd8c40df5d5863786d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:21 +0000
Subject: [PATCH 54/54] fix: symmetry is judged element by element relative to
 their size in eigen decompositions

---
 src/wai/ma/core/matrix/_Matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index 67370d3..16244a6 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -121,7 +121,7 @@ class Matrix(Serialisable):
 
             # For repeated eigenvalues the general solver does not return orthogonal eigenvectors,
             # but users of symmetric matrices rely on them (strongest direction first)
-            if np.allclose(self.data, self.data.T, rtol=0, atol=1e-12 * np.linalg.norm(self.data)) and \
+            if np.allclose(self.data, self.data.T, rtol=1e-10, atol=0) and \
                     not np.allclose(np.matmul(eigenvectors.T, eigenvectors), np.identity(len(eigenvalues))):
                 eigenvalues, eigenvectors = np.linalg.eigh(self.data)
                 eigenvalues, eigenvectors = eigenvalues[::-1], eigenvectors[:, ::-1]
-- 
2.43.0

