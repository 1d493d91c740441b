From c28a52706c7f4398681d26b3aefa7964c4a09fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 01/14] fix: resolve level=None of the matrix transforms anew
 for each input

The level derived from the first input was stored in the object, so every
later input of another size was transformed with that level instead of the
documented maximum level of its own size.
---
 src/ptwt/matmul_transform.py   | 19 ++++++++++---------
 src/ptwt/matmul_transform_2.py | 18 ++++++++++--------
 src/ptwt/matmul_transform_3.py | 18 ++++++++++--------
 3 files changed, 30 insertions(+), 25 deletions(-)

diff --git a/src/ptwt/matmul_transform.py b/src/ptwt/matmul_transform.py
index 9e78b59..d46ff8e 100644
--- a/src/ptwt/matmul_transform.py
+++ b/src/ptwt/matmul_transform.py
@@ -308,9 +308,9 @@ class MatrixWavedec(BaseMatrixWaveDec):
             )
 
     def _construct_analysis_matrices(
-        self, device: Union[torch.device, str], dtype: torch.dtype
+        self, device: Union[torch.device, str], dtype: torch.dtype, level: int
     ) -> None:
-        if self.level is None or self.input_length is None:
+        if self.input_length is None:
             raise AssertionError
         self.fwt_matrix_list = []
         self.size_list = []
@@ -319,10 +319,10 @@ class MatrixWavedec(BaseMatrixWaveDec):
 
         filt_len = self.wavelet.dec_len
         curr_length = self.input_length
-        for curr_level in range(1, self.level + 1):
+        for curr_level in range(1, level + 1):
             if curr_length < filt_len:
                 sys.stderr.write(
-                    f"Warning: The selected number of decomposition levels {self.level}"
+                    f"Warning: The selected number of decomposition levels {level}"
                     f" is too large for the given input size {self.input_length}. At "
                     f"level {curr_level}, the current signal length {curr_length} is "
                     f"smaller than the filter length {filt_len}. Therefore, the "
@@ -394,16 +394,17 @@ class MatrixWavedec(BaseMatrixWaveDec):
             self.input_length = length
             re_build = True
 
-        if self.level is None:
+        level = self.level
+        if level is None:
+            # the level depends on this input only: do not store it for later calls.
             wlen = len(self.wavelet)
-            self.level = int(np.log2(length / (wlen - 1)))
-            re_build = True
-        elif self.level <= 0:
+            level = int(np.log2(length / (wlen - 1)))
+        elif level <= 0:
             raise ValueError("level must be a positive integer.")
 
         if not self.fwt_matrix_list or re_build:
             self._construct_analysis_matrices(
-                device=input_signal.device, dtype=input_signal.dtype
+                device=input_signal.device, dtype=input_signal.dtype, level=level
             )
 
         lo = input_signal.T
diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index 02ab458..1b6ed1b 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -386,8 +386,9 @@ class MatrixWavedec2(BaseMatrixWaveDec):
         self,
         device: Union[torch.device, str],
         dtype: torch.dtype,
+        level: int,
     ) -> None:
-        if self.level is None or self.input_signal_shape is None:
+        if self.input_signal_shape is None:
             raise AssertionError
         self.fwt_matrix_list = []
         self.size_list = []
@@ -396,11 +397,11 @@ class MatrixWavedec2(BaseMatrixWaveDec):
 
         filt_len = self.wavelet.dec_len
         current_height, current_width = self.input_signal_shape
-        for curr_level in range(1, self.level + 1):
+        for curr_level in range(1, level + 1):
             if current_height < filt_len or current_width < filt_len:
                 # we have reached the max decomposition depth.
                 sys.stderr.write(
-                    f"Warning: The selected number of decomposition levels {self.level}"
+                    f"Warning: The selected number of decomposition levels {level}"
                     f" is too large for the given input shape {self.input_signal_shape}"
                     f". At level {curr_level}, at least one of the current signal "
                     f"height and width ({current_height}, {current_width}) is smaller "
@@ -483,18 +484,19 @@ class MatrixWavedec2(BaseMatrixWaveDec):
             self.input_signal_shape = height, width
             re_build = True
 
-        if self.level is None:
+        level = self.level
+        if level is None:
+            # the level depends on this input only: do not store it for later calls.
             wlen = len(self.wavelet)
-            self.level = int(
+            level = int(
                 np.min([np.log2(height / (wlen - 1)), np.log2(width / (wlen - 1))])
             )
-            re_build = True
-        elif self.level <= 0:
+        elif level <= 0:
             raise ValueError("level must be a positive integer.")
 
         if not self.fwt_matrix_list or re_build:
             self._construct_analysis_matrices(
-                device=input_signal.device, dtype=input_signal.dtype
+                device=input_signal.device, dtype=input_signal.dtype, level=level
             )
 
         def _add_padding(signal: torch.Tensor, pad: tuple[bool, bool]) -> torch.Tensor:
diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index c1eca34..66b0260 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -134,8 +134,9 @@ class MatrixWavedec3(BaseMatrixWaveDec):
         self,
         device: Union[torch.device, str],
         dtype: torch.dtype,
+        level: int,
     ) -> None:
-        if self.level is None or self.input_signal_shape is None:
+        if self.input_signal_shape is None:
             raise AssertionError
         self.fwt_matrix_list = []
         self.size_list = []
@@ -144,7 +145,7 @@ class MatrixWavedec3(BaseMatrixWaveDec):
 
         filt_len = self.wavelet.dec_len
         current_depth, current_height, current_width = self.input_signal_shape
-        for curr_level in range(1, self.level + 1):
+        for curr_level in range(1, level + 1):
             if (
                 current_height < filt_len
                 or current_width < filt_len
@@ -152,7 +153,7 @@ class MatrixWavedec3(BaseMatrixWaveDec):
             ):
                 # we have reached the max decomposition depth.
                 sys.stderr.write(
-                    f"Warning: The selected number of decomposition levels {self.level}"
+                    f"Warning: The selected number of decomposition levels {level}"
                     f" is too large for the given input shape {self.input_signal_shape}"
                     f". At level {curr_level}, at least one of the current signal "
                     f"depth, height, and width ({current_depth}, {current_height},"
@@ -222,9 +223,11 @@ class MatrixWavedec3(BaseMatrixWaveDec):
             self.input_signal_shape = depth, height, width
             re_build = True
 
-        if self.level is None:
+        level = self.level
+        if level is None:
+            # the level depends on this input only: do not store it for later calls.
             wlen = len(self.wavelet)
-            self.level = int(
+            level = int(
                 np.min(
                     [
                         np.log2(depth / (wlen - 1)),
@@ -233,13 +236,12 @@ class MatrixWavedec3(BaseMatrixWaveDec):
                     ]
                 )
             )
-            re_build = True
-        elif self.level <= 0:
+        elif level <= 0:
             raise ValueError("level must be a positive integer.")
 
         if not self.fwt_matrix_list or re_build:
             self._construct_analysis_matrices(
-                device=input_signal.device, dtype=input_signal.dtype
+                device=input_signal.device, dtype=input_signal.dtype, level=level
             )
 
         split_list: list[WaveletDetailDict] = []
-- 
2.43.0


From a307af5bce68a9087e1cf55e2515d1e7b779cf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:47 +0000
Subject: [PATCH 02/14] fix: publish the matrices of a transform only once they
 are complete

The matrix transforms recorded the new signal size before building the
matrices and filled their lists level by level. A construction that failed or
was interrupted (memory, keyboard interrupt, a closed stderr) left a partial
list which later calls of the same size silently used, and threads sharing an
object could mix matrices, paddings and sizes of different inputs. Assemble a
plan first, store it with a single assignment, and let each call use one plan.
---
 src/ptwt/matmul_transform.py   | 215 +++++++++++++++++++++------------
 src/ptwt/matmul_transform_2.py | 172 +++++++++++++-------------
 src/ptwt/matmul_transform_3.py | 131 ++++++++++----------
 3 files changed, 285 insertions(+), 233 deletions(-)

diff --git a/src/ptwt/matmul_transform.py b/src/ptwt/matmul_transform.py
index d46ff8e..c791fc2 100644
--- a/src/ptwt/matmul_transform.py
+++ b/src/ptwt/matmul_transform.py
@@ -8,7 +8,7 @@ of boundary filters in "Ripples in Mathematics" section 10.3 .
 """
 
 import sys
-from typing import Optional, Union, cast
+from typing import Any, NamedTuple, Optional, Union, cast
 
 import numpy as np
 import torch
@@ -165,9 +165,65 @@ def orthogonalize(
     raise ValueError(f"Invalid orthogonalization method: {method}")
 
 
-class BaseMatrixWaveDec:
+class _MatrixPlan(NamedTuple):
+    """The matrices of a transform together with all they were derived from.
+
+    A plan is assembled completely before a transform object stores it, and it
+    is not changed afterwards. Each call works on a single plan. Thus, neither a
+    failed construction nor a concurrent call leaves or sees a mix of old and
+    new matrices.
+    """
+
+    key: tuple[Any, ...]
+    matrix_list: list[Any]
+    pad_list: list[Any]
+    size_list: list[Any]
+    padded: bool
+
+
+class _PlannedTransform:
+    """Provide read access to the current plan of a matrix transform."""
+
+    _plan = _MatrixPlan((None, None), [], [], [], False)
+
+    @property
+    def padded(self) -> bool:
+        """Whether the current transformation matrices require padding."""
+        return self._plan.padded
+
+    @property
+    def pad_list(self) -> list[Any]:
+        """The padding required at each level."""
+        return self._plan.pad_list
+
+    @property
+    def size_list(self) -> list[Any]:
+        """The signal size at each level."""
+        return self._plan.size_list
+
+
+class BaseMatrixWaveDec(_PlannedTransform):
     """A base class for matrix wavedec."""
 
+    @property
+    def fwt_matrix_list(self) -> list[Any]:
+        """The analysis matrices of each level."""
+        return self._plan.matrix_list
+
+
+class _BaseMatrixWaveRec(_PlannedTransform):
+    """A base class for matrix waverec."""
+
+    @property
+    def ifwt_matrix_list(self) -> list[Any]:
+        """The synthesis matrices of each level."""
+        return self._plan.matrix_list
+
+    @property
+    def level(self) -> Optional[int]:
+        """The level of the coefficients of the last call."""
+        return cast(Optional[int], self._plan.key[1])
+
 
 class MatrixWavedec(BaseMatrixWaveDec):
     """Compute the 1d fast wavelet transform using sparse matrices.
@@ -253,18 +309,17 @@ class MatrixWavedec(BaseMatrixWaveDec):
         self.orthogonalization = orthogonalization
         self.axis = _ensure_axes(axes=axis, dim=1)[0]
 
-        self.input_length: Optional[int] = None
-        self.fwt_matrix_list: list[torch.Tensor] = []
-        self.pad_list: list[bool] = []
-        self.padded = False
-        self.size_list: list[int] = []
-
         if not _is_orthogonalize_method_supported(self.orthogonalization):
             raise NotImplementedError
 
         if self.wavelet.dec_len != self.wavelet.rec_len:
             raise ValueError("All filters must have the same length")
 
+    @property
+    def input_length(self) -> Optional[int]:
+        """The signal length the current matrices were constructed for."""
+        return cast(Optional[int], self._plan.key[0])
+
     @property
     def sparse_fwt_operator(self) -> torch.Tensor:
         """The sparse transformation operator.
@@ -290,14 +345,16 @@ class MatrixWavedec(BaseMatrixWaveDec):
             ValueError: If no level transformation matrices are stored (most likely
                 since the object was not called yet).
         """
-        if len(self.fwt_matrix_list) == 1:
-            return self.fwt_matrix_list[0]
-        elif len(self.fwt_matrix_list) > 1:
-            if self.padded:
+        plan = self._plan
+        fwt_matrix_list = cast(list[torch.Tensor], plan.matrix_list)
+        if len(fwt_matrix_list) == 1:
+            return fwt_matrix_list[0]
+        elif len(fwt_matrix_list) > 1:
+            if plan.padded:
                 raise NotImplementedError
 
-            fwt_matrix = self.fwt_matrix_list[0]
-            for scale_mat in self.fwt_matrix_list[1:]:
+            fwt_matrix = fwt_matrix_list[0]
+            for scale_mat in fwt_matrix_list[1:]:
                 scale_mat = cat_sparse_identity_matrix(scale_mat, fwt_matrix.shape[0])
                 fwt_matrix = torch.sparse.mm(scale_mat, fwt_matrix)
             return fwt_matrix
@@ -308,22 +365,25 @@ class MatrixWavedec(BaseMatrixWaveDec):
             )
 
     def _construct_analysis_matrices(
-        self, device: Union[torch.device, str], dtype: torch.dtype, level: int
-    ) -> None:
-        if self.input_length is None:
-            raise AssertionError
-        self.fwt_matrix_list = []
-        self.size_list = []
-        self.pad_list = []
-        self.padded = False
+        self,
+        length: int,
+        level: int,
+        *,
+        device: Union[torch.device, str],
+        dtype: torch.dtype,
+    ) -> _MatrixPlan:
+        fwt_matrix_list: list[torch.Tensor] = []
+        size_list: list[int] = []
+        pad_list: list[bool] = []
+        padded = False
 
         filt_len = self.wavelet.dec_len
-        curr_length = self.input_length
+        curr_length = length
         for curr_level in range(1, level + 1):
             if curr_length < filt_len:
                 sys.stderr.write(
                     f"Warning: The selected number of decomposition levels {level}"
-                    f" is too large for the given input size {self.input_length}. At "
+                    f" is too large for the given input size {length}. At "
                     f"level {curr_level}, the current signal length {curr_length} is "
                     f"smaller than the filter length {filt_len}. Therefore, the "
                     "transformation is only computed up to the decomposition level "
@@ -334,12 +394,12 @@ class MatrixWavedec(BaseMatrixWaveDec):
             if curr_length % 2 != 0:
                 # padding
                 curr_length += 1
-                self.padded = True
-                self.pad_list.append(True)
+                padded = True
+                pad_list.append(True)
             else:
-                self.pad_list.append(False)
+                pad_list.append(False)
 
-            self.size_list.append(curr_length)
+            size_list.append(curr_length)
 
             an = construct_boundary_a(
                 self.wavelet,
@@ -348,10 +408,13 @@ class MatrixWavedec(BaseMatrixWaveDec):
                 device=device,
                 dtype=dtype,
             )
-            self.fwt_matrix_list.append(an)
+            fwt_matrix_list.append(an)
             curr_length = curr_length // 2
 
-        self.size_list.append(curr_length)
+        size_list.append(curr_length)
+        return _MatrixPlan(
+            (length, level), fwt_matrix_list, pad_list, size_list, padded
+        )
 
     def __call__(self, input_signal: torch.Tensor) -> list[torch.Tensor]:
         """Compute the matrix FWT for the given input signal.
@@ -389,11 +452,6 @@ class MatrixWavedec(BaseMatrixWaveDec):
 
         _, length = input_signal.shape
 
-        re_build = False
-        if self.input_length != length:
-            self.input_length = length
-            re_build = True
-
         level = self.level
         if level is None:
             # the level depends on this input only: do not store it for later calls.
@@ -402,15 +460,17 @@ class MatrixWavedec(BaseMatrixWaveDec):
         elif level <= 0:
             raise ValueError("level must be a positive integer.")
 
-        if not self.fwt_matrix_list or re_build:
-            self._construct_analysis_matrices(
-                device=input_signal.device, dtype=input_signal.dtype, level=level
+        plan = self._plan
+        if not plan.matrix_list or plan.key != (length, level):
+            plan = self._construct_analysis_matrices(
+                length, level, device=input_signal.device, dtype=input_signal.dtype
             )
+            self._plan = plan
 
         lo = input_signal.T
         split_list = []
-        for scale, fwt_matrix in enumerate(self.fwt_matrix_list):
-            if self.pad_list[scale]:
+        for scale, fwt_matrix in enumerate(plan.matrix_list):
+            if plan.pad_list[scale]:
                 # fix odd coefficients lengths for the conv matrix to work.
                 lo = lo.T.unsqueeze(1)
                 lo = _fwt_pad(
@@ -500,7 +560,7 @@ def construct_boundary_s(
     return s_orth.transpose(1, 0)
 
 
-class MatrixWaverec(object):
+class MatrixWaverec(_BaseMatrixWaveRec):
     """Matrix-based inverse fast wavelet transform.
 
     Example:
@@ -546,10 +606,6 @@ class MatrixWaverec(object):
         self.wavelet = _as_wavelet(wavelet)
         self.orthogonalization = orthogonalization
         self.axis = _ensure_axes(axes=axis, dim=1)
-        self.ifwt_matrix_list: list[torch.Tensor] = []
-        self.level: Optional[int] = None
-        self.input_length: Optional[int] = None
-        self.padded = False
 
         if not _is_orthogonalize_method_supported(self.orthogonalization):
             raise NotImplementedError
@@ -557,6 +613,11 @@ class MatrixWaverec(object):
         if self.wavelet.dec_len != self.wavelet.rec_len:
             raise ValueError("All filters must have the same length")
 
+    @property
+    def input_length(self) -> Optional[int]:
+        """The signal length the current matrices were constructed for."""
+        return cast(Optional[int], self._plan.key[0])
+
     @property
     def sparse_ifwt_operator(self) -> torch.Tensor:
         """The sparse transformation operator.
@@ -582,14 +643,16 @@ class MatrixWaverec(object):
             ValueError: If no level transformation matrices are stored (most likely
                 since the object was not called yet).
         """
-        if len(self.ifwt_matrix_list) == 1:
-            return self.ifwt_matrix_list[0]
-        elif len(self.ifwt_matrix_list) > 1:
-            if self.padded:
+        plan = self._plan
+        ifwt_matrix_list = cast(list[torch.Tensor], plan.matrix_list)
+        if len(ifwt_matrix_list) == 1:
+            return ifwt_matrix_list[0]
+        elif len(ifwt_matrix_list) > 1:
+            if plan.padded:
                 raise NotImplementedError
 
-            ifwt_matrix = self.ifwt_matrix_list[-1]
-            for scale_matrix in self.ifwt_matrix_list[:-1][::-1]:
+            ifwt_matrix = ifwt_matrix_list[-1]
+            for scale_matrix in ifwt_matrix_list[:-1][::-1]:
                 ifwt_matrix = cat_sparse_identity_matrix(
                     ifwt_matrix, scale_matrix.shape[0]
                 )
@@ -602,22 +665,25 @@ class MatrixWaverec(object):
             )
 
     def _construct_synthesis_matrices(
-        self, device: Union[torch.device, str], dtype: torch.dtype
-    ) -> None:
-        self.ifwt_matrix_list = []
-        self.size_list = []
-        self.padded = False
-        if self.level is None or self.input_length is None:
-            raise AssertionError
+        self,
+        length: int,
+        level: int,
+        *,
+        device: Union[torch.device, str],
+        dtype: torch.dtype,
+    ) -> _MatrixPlan:
+        ifwt_matrix_list: list[torch.Tensor] = []
+        size_list: list[int] = []
+        padded = False
 
         filt_len = self.wavelet.rec_len
-        curr_length = self.input_length
+        curr_length = length
 
-        for curr_level in range(1, self.level + 1):
+        for curr_level in range(1, level + 1):
             if curr_length < filt_len:
                 sys.stderr.write(
-                    f"Warning: The selected number of decomposition levels {self.level}"
-                    f" is too large for the given input size {self.input_length}. At "
+                    f"Warning: The selected number of decomposition levels {level}"
+                    f" is too large for the given input size {length}. At "
                     f"level {curr_level}, the current signal length {curr_length} is "
                     f"smaller than the filter length {filt_len}. Therefore, the "
                     "transformation is only computed up to the decomposition level "
@@ -628,9 +694,9 @@ class MatrixWaverec(object):
             if curr_length % 2 != 0:
                 # padding
                 curr_length += 1
-                self.padded = True
+                padded = True
 
-            self.size_list.append(curr_length)
+            size_list.append(curr_length)
 
             sn = construct_boundary_s(
                 self.wavelet,
@@ -639,9 +705,11 @@ class MatrixWaverec(object):
                 device=device,
                 dtype=dtype,
             )
-            self.ifwt_matrix_list.append(sn)
+            ifwt_matrix_list.append(sn)
             curr_length = curr_length // 2
 
+        return _MatrixPlan((length, level), ifwt_matrix_list, [], size_list, padded)
+
     def __call__(self, coefficients: WaveletCoeff1d) -> torch.Tensor:
         """Run the synthesis or inverse matrix FWT.
 
@@ -665,17 +733,12 @@ class MatrixWaverec(object):
         level = len(coefficients) - 1
         input_length = coefficients[-1].shape[-1] * 2
 
-        re_build = False
-        if self.level != level or self.input_length != input_length:
-            self.level = level
-            self.input_length = input_length
-            re_build = True
-
-        if not self.ifwt_matrix_list or re_build:
-            self._construct_synthesis_matrices(
-                device=torch_device,
-                dtype=torch_dtype,
+        plan = self._plan
+        if not plan.matrix_list or plan.key != (input_length, level):
+            plan = self._construct_synthesis_matrices(
+                input_length, level, device=torch_device, dtype=torch_dtype
             )
+            self._plan = plan
 
         # transpose the coefficients to handle the batch dimension efficiently.
         coefficients = [c.T for c in coefficients]
@@ -686,7 +749,7 @@ class MatrixWaverec(object):
                 raise ValueError("coefficients must have the same shape")
 
             lo = torch.cat([lo, hi], 0)
-            lo = torch.sparse.mm(self.ifwt_matrix_list[::-1][c_pos], lo)
+            lo = torch.sparse.mm(plan.matrix_list[::-1][c_pos], lo)
 
             # remove padding
             if c_pos < len(coefficients) - 2:
diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index 1b6ed1b..42fc80e 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -36,6 +36,8 @@ from .constants import (
 from .conv_transform_2 import _fwt_pad2
 from .matmul_transform import (
     BaseMatrixWaveDec,
+    _BaseMatrixWaveRec,
+    _MatrixPlan,
     construct_boundary_a,
     construct_boundary_s,
     orthogonalize,
@@ -330,12 +332,6 @@ class MatrixWavedec2(BaseMatrixWaveDec):
         self.orthogonalization = orthogonalization
         self.odd_coeff_padding_mode = odd_coeff_padding_mode
         self.separable = separable
-        self.input_signal_shape: Optional[tuple[int, int]] = None
-        self.fwt_matrix_list: list[
-            Union[torch.Tensor, tuple[torch.Tensor, torch.Tensor]]
-        ] = []
-        self.pad_list: list[tuple[bool, bool]] = []
-        self.padded = False
 
         if not _is_orthogonalize_method_supported(self.orthogonalization):
             raise NotImplementedError
@@ -343,6 +339,11 @@ class MatrixWavedec2(BaseMatrixWaveDec):
         if self.wavelet.dec_len != self.wavelet.rec_len:
             raise ValueError("All filters must have the same length")
 
+    @property
+    def input_signal_shape(self) -> Optional[tuple[int, int]]:
+        """The signal shape the current matrices were constructed for."""
+        return cast(Optional[tuple[int, int]], self._plan.key[0])
+
     @property
     def sparse_fwt_operator(self) -> torch.Tensor:
         """Compute the operator matrix for padding-free cases.
@@ -363,12 +364,13 @@ class MatrixWavedec2(BaseMatrixWaveDec):
             raise NotImplementedError
 
         # in the non-separable case the list entries are tensors
-        fwt_matrix_list = cast(list[torch.Tensor], self.fwt_matrix_list)
+        plan = self._plan
+        fwt_matrix_list = cast(list[torch.Tensor], plan.matrix_list)
 
         if len(fwt_matrix_list) == 1:
             return fwt_matrix_list[0]
         elif len(fwt_matrix_list) > 1:
-            if self.padded:
+            if plan.padded:
                 raise NotImplementedError
 
             fwt_matrix = fwt_matrix_list[0]
@@ -384,25 +386,27 @@ class MatrixWavedec2(BaseMatrixWaveDec):
 
     def _construct_analysis_matrices(
         self,
+        input_signal_shape: tuple[int, int],
+        level: int,
+        *,
         device: Union[torch.device, str],
         dtype: torch.dtype,
-        level: int,
-    ) -> None:
-        if self.input_signal_shape is None:
-            raise AssertionError
-        self.fwt_matrix_list = []
-        self.size_list = []
-        self.pad_list = []
-        self.padded = False
+    ) -> _MatrixPlan:
+        fwt_matrix_list: list[
+            Union[torch.Tensor, tuple[torch.Tensor, torch.Tensor]]
+        ] = []
+        size_list: list[tuple[int, int]] = []
+        pad_list: list[tuple[bool, bool]] = []
+        padded = False
 
         filt_len = self.wavelet.dec_len
-        current_height, current_width = self.input_signal_shape
+        current_height, current_width = input_signal_shape
         for curr_level in range(1, level + 1):
             if current_height < filt_len or current_width < filt_len:
                 # we have reached the max decomposition depth.
                 sys.stderr.write(
                     f"Warning: The selected number of decomposition levels {level}"
-                    f" is too large for the given input shape {self.input_signal_shape}"
+                    f" is too large for the given input shape {input_signal_shape}"
                     f". At level {curr_level}, at least one of the current signal "
                     f"height and width ({current_height}, {current_width}) is smaller "
                     f"then the filter length {filt_len}. Therefore, the transformation "
@@ -414,9 +418,9 @@ class MatrixWavedec2(BaseMatrixWaveDec):
                 current_height, current_width
             )
             if any(pad_tuple):
-                self.padded = True
-            self.pad_list.append(pad_tuple)
-            self.size_list.append((current_height, current_width))
+                padded = True
+            pad_list.append(pad_tuple)
+            size_list.append((current_height, current_width))
             if self.separable:
                 analysis_matrix_rows = construct_boundary_a(
                     wavelet=self.wavelet,
@@ -432,9 +436,7 @@ class MatrixWavedec2(BaseMatrixWaveDec):
                     device=device,
                     dtype=dtype,
                 )
-                self.fwt_matrix_list.append(
-                    (analysis_matrix_rows, analysis_matrix_cols)
-                )
+                fwt_matrix_list.append((analysis_matrix_rows, analysis_matrix_cols))
             else:
                 analysis_matrix_2d = construct_boundary_a2(
                     wavelet=self.wavelet,
@@ -444,10 +446,13 @@ class MatrixWavedec2(BaseMatrixWaveDec):
                     device=device,
                     dtype=dtype,
                 )
-                self.fwt_matrix_list.append(analysis_matrix_2d)
+                fwt_matrix_list.append(analysis_matrix_2d)
             current_height = current_height // 2
             current_width = current_width // 2
-        self.size_list.append((current_height, current_width))
+        size_list.append((current_height, current_width))
+        return _MatrixPlan(
+            (input_signal_shape, level), fwt_matrix_list, pad_list, size_list, padded
+        )
 
     def __call__(self, input_signal: torch.Tensor) -> WaveletCoeff2d:
         """Compute the FWT for the given input signal.
@@ -475,15 +480,6 @@ class MatrixWavedec2(BaseMatrixWaveDec):
 
         batch_size, height, width = input_signal.shape
 
-        re_build = False
-        if (
-            self.input_signal_shape is None
-            or self.input_signal_shape[0] != height
-            or self.input_signal_shape[1] != width
-        ):
-            self.input_signal_shape = height, width
-            re_build = True
-
         level = self.level
         if level is None:
             # the level depends on this input only: do not store it for later calls.
@@ -494,10 +490,15 @@ class MatrixWavedec2(BaseMatrixWaveDec):
         elif level <= 0:
             raise ValueError("level must be a positive integer.")
 
-        if not self.fwt_matrix_list or re_build:
-            self._construct_analysis_matrices(
-                device=input_signal.device, dtype=input_signal.dtype, level=level
+        plan = self._plan
+        if not plan.matrix_list or plan.key != ((height, width), level):
+            plan = self._construct_analysis_matrices(
+                (height, width),
+                level,
+                device=input_signal.device,
+                dtype=input_signal.dtype,
             )
+            self._plan = plan
 
         def _add_padding(signal: torch.Tensor, pad: tuple[bool, bool]) -> torch.Tensor:
             if pad[0] or pad[1]:
@@ -515,10 +516,10 @@ class MatrixWavedec2(BaseMatrixWaveDec):
         split_list: list[WaveletDetailTuple2d] = []
         if self.separable:
             ll = input_signal
-            for scale, fwt_mats in enumerate(self.fwt_matrix_list):
+            for scale, fwt_mats in enumerate(plan.matrix_list):
                 fwt_row_matrix, fwt_col_matrix = fwt_mats
-                pad = self.pad_list[scale]
-                current_height, current_width = self.size_list[scale]
+                pad = plan.pad_list[scale]
+                current_height, current_width = plan.size_list[scale]
                 ll = _add_padding(ll, pad)
 
                 ll = batch_mm(fwt_col_matrix, ll.transpose(-2, -1)).transpose(-2, -1)
@@ -531,10 +532,10 @@ class MatrixWavedec2(BaseMatrixWaveDec):
                 split_list.append(WaveletDetailTuple2d(lh, hl, hh))
         else:
             ll = input_signal.transpose(-2, -1).reshape([batch_size, -1]).T
-            for scale, fwt_matrix in enumerate(self.fwt_matrix_list):
+            for scale, fwt_matrix in enumerate(plan.matrix_list):
                 fwt_matrix = cast(torch.Tensor, fwt_matrix)
-                pad = self.pad_list[scale]
-                size = self.size_list[scale]
+                pad = plan.pad_list[scale]
+                size = plan.size_list[scale]
                 if pad[0] or pad[1]:
                     ll_reshape = ll.T.reshape(
                         batch_size, size[1] - int(pad[0]), size[0] - int(pad[1])
@@ -569,7 +570,7 @@ class MatrixWavedec2(BaseMatrixWaveDec):
         return result
 
 
-class MatrixWaverec2(object):
+class MatrixWaverec2(_BaseMatrixWaveRec):
     """Synthesis or inverse matrix based-wavelet transformation object.
 
     Example:
@@ -624,20 +625,17 @@ class MatrixWaverec2(object):
         self.separable = separable
         self.axes = _ensure_axes(axes=axes, dim=2)
 
-        self.ifwt_matrix_list: list[
-            Union[torch.Tensor, tuple[torch.Tensor, torch.Tensor]]
-        ] = []
-        self.level: Optional[int] = None
-        self.input_signal_shape: Optional[tuple[int, int]] = None
-
-        self.padded = False
-
         if not _is_orthogonalize_method_supported(self.orthogonalization):
             raise NotImplementedError
 
         if self.wavelet.dec_len != self.wavelet.rec_len:
             raise ValueError("All filters must have the same length")
 
+    @property
+    def input_signal_shape(self) -> Optional[tuple[int, int]]:
+        """The signal shape the current matrices were constructed for."""
+        return cast(Optional[tuple[int, int]], self._plan.key[0])
+
     @property
     def sparse_ifwt_operator(self) -> torch.Tensor:
         """Compute the iFWT operator matrix for pad-free cases.
@@ -655,12 +653,13 @@ class MatrixWaverec2(object):
             raise NotImplementedError
 
         # in the non-separable case the list entries are tensors
-        ifwt_matrix_list = cast(list[torch.Tensor], self.ifwt_matrix_list)
+        plan = self._plan
+        ifwt_matrix_list = cast(list[torch.Tensor], plan.matrix_list)
 
         if len(ifwt_matrix_list) == 1:
             return ifwt_matrix_list[0]
         elif len(ifwt_matrix_list) > 1:
-            if self.padded:
+            if plan.padded:
                 raise NotImplementedError
 
             ifwt_matrix = ifwt_matrix_list[-1]
@@ -678,22 +677,25 @@ class MatrixWaverec2(object):
 
     def _construct_synthesis_matrices(
         self,
+        input_signal_shape: tuple[int, int],
+        level: int,
+        *,
         device: Union[torch.device, str],
         dtype: torch.dtype,
-    ) -> None:
-        self.ifwt_matrix_list = []
-        self.padded = False
-        if self.level is None or self.input_signal_shape is None:
-            raise AssertionError
+    ) -> _MatrixPlan:
+        ifwt_matrix_list: list[
+            Union[torch.Tensor, tuple[torch.Tensor, torch.Tensor]]
+        ] = []
+        padded = False
 
-        current_height, current_width = self.input_signal_shape
+        current_height, current_width = input_signal_shape
         filt_len = self.wavelet.rec_len
 
-        for curr_level in range(1, self.level + 1):
+        for curr_level in range(1, level + 1):
             if current_height < filt_len or current_width < filt_len:
                 sys.stderr.write(
-                    f"Warning: The selected number of decomposition levels {self.level}"
-                    f" is too large for the given input shape {self.input_signal_shape}"
+                    f"Warning: The selected number of decomposition levels {level}"
+                    f" is too large for the given input shape {input_signal_shape}"
                     f". At level {curr_level}, at least one of the current signal "
                     f"height and width ({current_height}, {current_width}) is smaller "
                     f"then the filter length {filt_len}. Therefore, the transformation "
@@ -704,7 +706,7 @@ class MatrixWaverec2(object):
                 current_height, current_width
             )
             if any(pad_tuple):
-                self.padded = True
+                padded = True
             if self.separable:
                 synthesis_matrix_rows = construct_boundary_s(
                     wavelet=self.wavelet,
@@ -720,9 +722,7 @@ class MatrixWaverec2(object):
                     device=device,
                     dtype=dtype,
                 )
-                self.ifwt_matrix_list.append(
-                    (synthesis_matrix_rows, synthesis_matrix_cols)
-                )
+                ifwt_matrix_list.append((synthesis_matrix_rows, synthesis_matrix_cols))
             else:
                 synthesis_matrix_2d = construct_boundary_s2(
                     self.wavelet,
@@ -732,10 +732,14 @@ class MatrixWaverec2(object):
                     device=device,
                     dtype=dtype,
                 )
-                self.ifwt_matrix_list.append(synthesis_matrix_2d)
+                ifwt_matrix_list.append(synthesis_matrix_2d)
             current_height = current_height // 2
             current_width = current_width // 2
 
+        return _MatrixPlan(
+            (input_signal_shape, level), ifwt_matrix_list, [], [], padded
+        )
+
     def __call__(
         self,
         coefficients: WaveletCoeff2d,
@@ -762,24 +766,12 @@ class MatrixWaverec2(object):
         level = len(coefficients) - 1
         height, width = tuple(c * 2 for c in coefficients[-1][0].shape[-2:])
 
-        re_build = False
-        if (
-            self.input_signal_shape is None
-            or self.input_signal_shape[0] != height
-            or self.input_signal_shape[1] != width
-        ):
-            self.input_signal_shape = height, width
-            re_build = True
-
-        if self.level != level:
-            self.level = level
-            re_build = True
-
-        if not self.ifwt_matrix_list or re_build:
-            self._construct_synthesis_matrices(
-                device=torch_device,
-                dtype=torch_dtype,
+        plan = self._plan
+        if not plan.matrix_list or plan.key != ((height, width), level):
+            plan = self._construct_synthesis_matrices(
+                (height, width), level, device=torch_device, dtype=torch_dtype
             )
+            self._plan = plan
 
         ll = coefficients[0]
         batch_size = ll.shape[0]
@@ -801,9 +793,9 @@ class MatrixWaverec2(object):
             lh, hl, hh = coeff_tuple
 
             if self.separable:
-                synthesis_matrix_rows, synthesis_matrix_cols = self.ifwt_matrix_list[
-                    ::-1
-                ][c_pos]
+                synthesis_matrix_rows, synthesis_matrix_cols = plan.matrix_list[::-1][
+                    c_pos
+                ]
                 a_coeffs = torch.cat((ll, lh), -1)
                 d_coeffs = torch.cat((hl, hh), -1)
                 coeff_tensor = torch.cat((a_coeffs, d_coeffs), -2)
@@ -823,7 +815,7 @@ class MatrixWaverec2(object):
                     ],
                     -1,
                 )
-                ifwt_mat = cast(torch.Tensor, self.ifwt_matrix_list[::-1][c_pos])
+                ifwt_mat = cast(torch.Tensor, plan.matrix_list[::-1][c_pos])
                 ll = cast(torch.Tensor, torch.sparse.mm(ifwt_mat, ll.T))
 
             if not self.separable:
diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index 66b0260..8f383a0 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -4,7 +4,7 @@ from __future__ import annotations
 
 import sys
 from functools import partial
-from typing import NamedTuple, Optional, Union
+from typing import NamedTuple, Optional, Union, cast
 
 import numpy as np
 import torch
@@ -31,6 +31,8 @@ from .constants import (
 from .conv_transform_3 import _fwt_pad3
 from .matmul_transform import (
     BaseMatrixWaveDec,
+    _BaseMatrixWaveRec,
+    _MatrixPlan,
     construct_boundary_a,
     construct_boundary_s,
 )
@@ -122,29 +124,32 @@ class MatrixWavedec3(BaseMatrixWaveDec):
         self.orthogonalization = orthogonalization
         self.odd_coeff_padding_mode = odd_coeff_padding_mode
         self.axes = _ensure_axes(axes=axes, dim=3)
-        self.input_signal_shape: Optional[tuple[int, int, int]] = None
-        self.fwt_matrix_list: list[list[torch.Tensor]] = []
 
         if not _is_orthogonalize_method_supported(self.orthogonalization):
             raise NotImplementedError
         if self.wavelet.dec_len != self.wavelet.rec_len:
             raise ValueError("All filters must have the same length")
 
+    @property
+    def input_signal_shape(self) -> Optional[tuple[int, int, int]]:
+        """The signal shape the current matrices were constructed for."""
+        return cast(Optional[tuple[int, int, int]], self._plan.key[0])
+
     def _construct_analysis_matrices(
         self,
+        input_signal_shape: tuple[int, int, int],
+        level: int,
+        *,
         device: Union[torch.device, str],
         dtype: torch.dtype,
-        level: int,
-    ) -> None:
-        if self.input_signal_shape is None:
-            raise AssertionError
-        self.fwt_matrix_list = []
-        self.size_list = []
-        self.pad_list = []
-        self.padded = False
+    ) -> _MatrixPlan:
+        fwt_matrix_list: list[list[torch.Tensor]] = []
+        size_list: list[tuple[int, int, int]] = []
+        pad_list: list[_PadTuple] = []
+        padded = False
 
         filt_len = self.wavelet.dec_len
-        current_depth, current_height, current_width = self.input_signal_shape
+        current_depth, current_height, current_width = input_signal_shape
         for curr_level in range(1, level + 1):
             if (
                 current_height < filt_len
@@ -154,7 +159,7 @@ class MatrixWavedec3(BaseMatrixWaveDec):
                 # we have reached the max decomposition depth.
                 sys.stderr.write(
                     f"Warning: The selected number of decomposition levels {level}"
-                    f" is too large for the given input shape {self.input_signal_shape}"
+                    f" is too large for the given input shape {input_signal_shape}"
                     f". At level {curr_level}, at least one of the current signal "
                     f"depth, height, and width ({current_depth}, {current_height},"
                     f"{current_width}) is smaller "
@@ -167,9 +172,9 @@ class MatrixWavedec3(BaseMatrixWaveDec):
                 depth=current_depth, height=current_height, width=current_width
             )
             if any(pad_tuple):
-                self.padded = True
-            self.pad_list.append(pad_tuple)
-            self.size_list.append((current_depth, current_height, current_width))
+                padded = True
+            pad_list.append(pad_tuple)
+            size_list.append((current_depth, current_height, current_width))
 
             matrix_construction_fun = partial(
                 construct_boundary_a,
@@ -183,14 +188,17 @@ class MatrixWavedec3(BaseMatrixWaveDec):
                 for dimension_length in (current_depth, current_height, current_width)
             ]
 
-            self.fwt_matrix_list.append(analysis_matrics)
+            fwt_matrix_list.append(analysis_matrics)
 
             current_depth, current_height, current_width = (
                 current_depth // 2,
                 current_height // 2,
                 current_width // 2,
             )
-        self.size_list.append((current_depth, current_height, current_width))
+        size_list.append((current_depth, current_height, current_width))
+        return _MatrixPlan(
+            (input_signal_shape, level), fwt_matrix_list, pad_list, size_list, padded
+        )
 
     def __call__(self, input_signal: torch.Tensor) -> WaveletCoeffNd:
         """Compute a separable 3d FWT using boundary wavelets.
@@ -213,16 +221,6 @@ class MatrixWavedec3(BaseMatrixWaveDec):
         )
         _, depth, height, width = input_signal.shape
 
-        re_build = False
-        if (
-            self.input_signal_shape is None
-            or self.input_signal_shape[0] != depth
-            or self.input_signal_shape[1] != height
-            or self.input_signal_shape[2] != width
-        ):
-            self.input_signal_shape = depth, height, width
-            re_build = True
-
         level = self.level
         if level is None:
             # the level depends on this input only: do not store it for later calls.
@@ -239,15 +237,20 @@ class MatrixWavedec3(BaseMatrixWaveDec):
         elif level <= 0:
             raise ValueError("level must be a positive integer.")
 
-        if not self.fwt_matrix_list or re_build:
-            self._construct_analysis_matrices(
-                device=input_signal.device, dtype=input_signal.dtype, level=level
+        plan = self._plan
+        if not plan.matrix_list or plan.key != ((depth, height, width), level):
+            plan = self._construct_analysis_matrices(
+                (depth, height, width),
+                level,
+                device=input_signal.device,
+                dtype=input_signal.dtype,
             )
+            self._plan = plan
 
         split_list: list[WaveletDetailDict] = []
         lll = input_signal
-        for scale, fwt_mats in enumerate(self.fwt_matrix_list):
-            pad_tuple = self.pad_list[scale]
+        for scale, fwt_mats in enumerate(plan.matrix_list):
+            pad_tuple = plan.pad_list[scale]
             padding_width = (0, 1) if pad_tuple.width else (0, 0)
             padding_height = (0, 1) if pad_tuple.height else (0, 0)
             padding_depth = (0, 1) if pad_tuple.depth else (0, 0)
@@ -292,7 +295,7 @@ class MatrixWavedec3(BaseMatrixWaveDec):
         return _postprocess_coeffs(coeffs, ndim=3, ds=ds, axes=self.axes)
 
 
-class MatrixWaverec3(object):
+class MatrixWaverec3(_BaseMatrixWaveRec):
     """Reconstruct a signal from 3d separable FWT coefficients."""
 
     @_deprecated_alias(boundary="orthogonalization")
@@ -326,9 +329,6 @@ class MatrixWaverec3(object):
         self.wavelet = _as_wavelet(wavelet)
         self.axes = _ensure_axes(axes=axes, dim=3)
         self.orthogonalization = orthogonalization
-        self.ifwt_matrix_list: list[list[torch.Tensor]] = []
-        self.input_signal_shape: Optional[tuple[int, int, int]] = None
-        self.level: Optional[int] = None
 
         if not _is_orthogonalize_method_supported(self.orthogonalization):
             raise NotImplementedError
@@ -336,28 +336,34 @@ class MatrixWaverec3(object):
         if self.wavelet.dec_len != self.wavelet.rec_len:
             raise ValueError("All filters must have the same length")
 
+    @property
+    def input_signal_shape(self) -> Optional[tuple[int, int, int]]:
+        """The signal shape the current matrices were constructed for."""
+        return cast(Optional[tuple[int, int, int]], self._plan.key[0])
+
     def _construct_synthesis_matrices(
         self,
+        input_signal_shape: tuple[int, int, int],
+        level: int,
+        *,
         device: Union[torch.device, str],
         dtype: torch.dtype,
-    ) -> None:
-        self.ifwt_matrix_list = []
-        self.padded = False
-        if self.level is None or self.input_signal_shape is None:
-            raise AssertionError
+    ) -> _MatrixPlan:
+        ifwt_matrix_list: list[list[torch.Tensor]] = []
+        padded = False
 
-        current_depth, current_height, current_width = self.input_signal_shape
+        current_depth, current_height, current_width = input_signal_shape
         filt_len = self.wavelet.rec_len
 
-        for curr_level in range(1, self.level + 1):
+        for curr_level in range(1, level + 1):
             if (
                 current_depth < filt_len
                 or current_height < filt_len
                 or current_width < filt_len
             ):
                 sys.stderr.write(
-                    f"Warning: The selected number of decomposition levels {self.level}"
-                    f" is too large for the given input shape {self.input_signal_shape}"
+                    f"Warning: The selected number of decomposition levels {level}"
+                    f" is too large for the given input shape {input_signal_shape}"
                     f". At level {curr_level}, at least one of the current signal "
                     f" depth, height and width ({current_depth}, {current_height}, "
                     f"{current_width}) is smaller than the filter length {filt_len}."
@@ -370,7 +376,7 @@ class MatrixWaverec3(object):
                 depth=current_depth, height=current_height, width=current_width
             )
             if any(pad_tuple):
-                self.padded = True
+                padded = True
 
             matrix_construction_fun = partial(
                 construct_boundary_s,
@@ -384,13 +390,17 @@ class MatrixWaverec3(object):
                 for dimension_length in (current_depth, current_height, current_width)
             ]
 
-            self.ifwt_matrix_list.append(synthesis_matrices)
+            ifwt_matrix_list.append(synthesis_matrices)
             current_depth, current_height, current_width = (
                 current_depth // 2,
                 current_height // 2,
                 current_width // 2,
             )
 
+        return _MatrixPlan(
+            (input_signal_shape, level), ifwt_matrix_list, [], [], padded
+        )
+
     def _cat_coeff_recursive(self, input_dict: WaveletDetailDict) -> torch.Tensor:
         done_dict = {}
         a_initial_keys = filter(lambda x: x[0] == "a", input_dict.keys())
@@ -431,25 +441,12 @@ class MatrixWaverec3(object):
         else:
             raise ValueError("Waverec3 expects dicts of tensors.")
 
-        re_build = False
-        if (
-            self.input_signal_shape is None
-            or self.input_signal_shape[0] != depth
-            or self.input_signal_shape[1] != height
-            or self.input_signal_shape[2] != width
-        ):
-            self.input_signal_shape = depth, height, width
-            re_build = True
-
-        if self.level != level:
-            self.level = level
-            re_build = True
-
-        if not self.ifwt_matrix_list or re_build:
-            self._construct_synthesis_matrices(
-                device=torch_device,
-                dtype=torch_dtype,
+        plan = self._plan
+        if not plan.matrix_list or plan.key != ((depth, height, width), level):
+            plan = self._construct_synthesis_matrices(
+                (depth, height, width), level, device=torch_device, dtype=torch_dtype
             )
+            self._plan = plan
 
         lll = coefficients[0]
         for c_pos, coeff_dict in enumerate(coefficients[1:]):
@@ -471,7 +468,7 @@ class MatrixWaverec3(object):
             coeff_dict["aaa"] = lll
             lll = self._cat_coeff_recursive(coeff_dict)
 
-            for dim, mat in enumerate(self.ifwt_matrix_list[level - 1 - c_pos][::-1]):
+            for dim, mat in enumerate(plan.matrix_list[level - 1 - c_pos][::-1]):
                 lll = _batch_dim_mm(mat, lll, dim=(-1) * (dim + 1))
 
         return _postprocess_tensor(lll, ndim=3, ds=ds, axes=self.axes)
-- 
2.43.0


From f68b71d47183a6252cf071c248fc61dedc8377b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:47 +0000
Subject: [PATCH 03/14] fix: rebuild the transform matrices if the dtype or
 device changes

Only the signal size was compared, so an object that had been called with a
float32 signal failed on a float64 signal of the same size and vice versa.
---
 src/ptwt/matmul_transform.py   | 22 +++++++++++++++++-----
 src/ptwt/matmul_transform_2.py | 27 ++++++++++++++++++---------
 src/ptwt/matmul_transform_3.py | 27 ++++++++++++++++++---------
 3 files changed, 53 insertions(+), 23 deletions(-)

diff --git a/src/ptwt/matmul_transform.py b/src/ptwt/matmul_transform.py
index c791fc2..43408cd 100644
--- a/src/ptwt/matmul_transform.py
+++ b/src/ptwt/matmul_transform.py
@@ -413,7 +413,11 @@ class MatrixWavedec(BaseMatrixWaveDec):
 
         size_list.append(curr_length)
         return _MatrixPlan(
-            (length, level), fwt_matrix_list, pad_list, size_list, padded
+            (length, level, device, dtype),
+            fwt_matrix_list,
+            pad_list,
+            size_list,
+            padded,
         )
 
     def __call__(self, input_signal: torch.Tensor) -> list[torch.Tensor]:
@@ -461,9 +465,10 @@ class MatrixWavedec(BaseMatrixWaveDec):
             raise ValueError("level must be a positive integer.")
 
         plan = self._plan
-        if not plan.matrix_list or plan.key != (length, level):
+        device, dtype = input_signal.device, input_signal.dtype
+        if not plan.matrix_list or plan.key != (length, level, device, dtype):
             plan = self._construct_analysis_matrices(
-                length, level, device=input_signal.device, dtype=input_signal.dtype
+                length, level, device=device, dtype=dtype
             )
             self._plan = plan
 
@@ -708,7 +713,9 @@ class MatrixWaverec(_BaseMatrixWaveRec):
             ifwt_matrix_list.append(sn)
             curr_length = curr_length // 2
 
-        return _MatrixPlan((length, level), ifwt_matrix_list, [], size_list, padded)
+        return _MatrixPlan(
+            (length, level, device, dtype), ifwt_matrix_list, [], size_list, padded
+        )
 
     def __call__(self, coefficients: WaveletCoeff1d) -> torch.Tensor:
         """Run the synthesis or inverse matrix FWT.
@@ -734,7 +741,12 @@ class MatrixWaverec(_BaseMatrixWaveRec):
         input_length = coefficients[-1].shape[-1] * 2
 
         plan = self._plan
-        if not plan.matrix_list or plan.key != (input_length, level):
+        if not plan.matrix_list or plan.key != (
+            input_length,
+            level,
+            torch_device,
+            torch_dtype,
+        ):
             plan = self._construct_synthesis_matrices(
                 input_length, level, device=torch_device, dtype=torch_dtype
             )
diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index 42fc80e..ab213bf 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -451,7 +451,11 @@ class MatrixWavedec2(BaseMatrixWaveDec):
             current_width = current_width // 2
         size_list.append((current_height, current_width))
         return _MatrixPlan(
-            (input_signal_shape, level), fwt_matrix_list, pad_list, size_list, padded
+            (input_signal_shape, level, device, dtype),
+            fwt_matrix_list,
+            pad_list,
+            size_list,
+            padded,
         )
 
     def __call__(self, input_signal: torch.Tensor) -> WaveletCoeff2d:
@@ -491,12 +495,11 @@ class MatrixWavedec2(BaseMatrixWaveDec):
             raise ValueError("level must be a positive integer.")
 
         plan = self._plan
-        if not plan.matrix_list or plan.key != ((height, width), level):
+        signal_shape = (height, width)
+        device, dtype = input_signal.device, input_signal.dtype
+        if not plan.matrix_list or plan.key != (signal_shape, level, device, dtype):
             plan = self._construct_analysis_matrices(
-                (height, width),
-                level,
-                device=input_signal.device,
-                dtype=input_signal.dtype,
+                signal_shape, level, device=device, dtype=dtype
             )
             self._plan = plan
 
@@ -737,7 +740,7 @@ class MatrixWaverec2(_BaseMatrixWaveRec):
             current_width = current_width // 2
 
         return _MatrixPlan(
-            (input_signal_shape, level), ifwt_matrix_list, [], [], padded
+            (input_signal_shape, level, device, dtype), ifwt_matrix_list, [], [], padded
         )
 
     def __call__(
@@ -767,9 +770,15 @@ class MatrixWaverec2(_BaseMatrixWaveRec):
         height, width = tuple(c * 2 for c in coefficients[-1][0].shape[-2:])
 
         plan = self._plan
-        if not plan.matrix_list or plan.key != ((height, width), level):
+        signal_shape = (height, width)
+        if not plan.matrix_list or plan.key != (
+            signal_shape,
+            level,
+            torch_device,
+            torch_dtype,
+        ):
             plan = self._construct_synthesis_matrices(
-                (height, width), level, device=torch_device, dtype=torch_dtype
+                signal_shape, level, device=torch_device, dtype=torch_dtype
             )
             self._plan = plan
 
diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index 8f383a0..2c3297d 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -197,7 +197,11 @@ class MatrixWavedec3(BaseMatrixWaveDec):
             )
         size_list.append((current_depth, current_height, current_width))
         return _MatrixPlan(
-            (input_signal_shape, level), fwt_matrix_list, pad_list, size_list, padded
+            (input_signal_shape, level, device, dtype),
+            fwt_matrix_list,
+            pad_list,
+            size_list,
+            padded,
         )
 
     def __call__(self, input_signal: torch.Tensor) -> WaveletCoeffNd:
@@ -238,12 +242,11 @@ class MatrixWavedec3(BaseMatrixWaveDec):
             raise ValueError("level must be a positive integer.")
 
         plan = self._plan
-        if not plan.matrix_list or plan.key != ((depth, height, width), level):
+        signal_shape = (depth, height, width)
+        device, dtype = input_signal.device, input_signal.dtype
+        if not plan.matrix_list or plan.key != (signal_shape, level, device, dtype):
             plan = self._construct_analysis_matrices(
-                (depth, height, width),
-                level,
-                device=input_signal.device,
-                dtype=input_signal.dtype,
+                signal_shape, level, device=device, dtype=dtype
             )
             self._plan = plan
 
@@ -398,7 +401,7 @@ class MatrixWaverec3(_BaseMatrixWaveRec):
             )
 
         return _MatrixPlan(
-            (input_signal_shape, level), ifwt_matrix_list, [], [], padded
+            (input_signal_shape, level, device, dtype), ifwt_matrix_list, [], [], padded
         )
 
     def _cat_coeff_recursive(self, input_dict: WaveletDetailDict) -> torch.Tensor:
@@ -442,9 +445,15 @@ class MatrixWaverec3(_BaseMatrixWaveRec):
             raise ValueError("Waverec3 expects dicts of tensors.")
 
         plan = self._plan
-        if not plan.matrix_list or plan.key != ((depth, height, width), level):
+        signal_shape = (depth, height, width)
+        if not plan.matrix_list or plan.key != (
+            signal_shape,
+            level,
+            torch_device,
+            torch_dtype,
+        ):
             plan = self._construct_synthesis_matrices(
-                (depth, height, width), level, device=torch_device, dtype=torch_dtype
+                signal_shape, level, device=torch_device, dtype=torch_dtype
             )
             self._plan = plan
 
-- 
2.43.0


From 0599bbc3396720efb36df0c3fe9caa423235c67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 04/14] fix: keep transform matrices usable by autograd after
 inference mode

Matrices constructed within torch.inference_mode() were inference tensors. They
are reused, so later calls on inputs requiring a gradient failed with
'Inference tensors cannot be saved for backward'.
---
 src/ptwt/matmul_transform.py   | 29 +++++++++++++++++++++++------
 src/ptwt/matmul_transform_2.py | 15 +++++++++------
 src/ptwt/matmul_transform_3.py | 15 +++++++++------
 3 files changed, 41 insertions(+), 18 deletions(-)

diff --git a/src/ptwt/matmul_transform.py b/src/ptwt/matmul_transform.py
index 43408cd..04e2c6b 100644
--- a/src/ptwt/matmul_transform.py
+++ b/src/ptwt/matmul_transform.py
@@ -8,6 +8,8 @@ of boundary filters in "Ripples in Mathematics" section 10.3 .
 """
 
 import sys
+from collections.abc import Iterator
+from contextlib import contextmanager
 from typing import Any, NamedTuple, Optional, Union, cast
 
 import numpy as np
@@ -181,6 +183,19 @@ class _MatrixPlan(NamedTuple):
     padded: bool
 
 
+@contextmanager
+def _outside_inference_mode() -> Iterator[None]:
+    """Create regular tensors, even if the caller is in inference mode.
+
+    Autograd can not use the matrices in later calls otherwise.
+    """
+    if torch.is_inference_mode_enabled():
+        with torch.inference_mode(False), torch.no_grad():
+            yield
+    else:
+        yield
+
+
 class _PlannedTransform:
     """Provide read access to the current plan of a matrix transform."""
 
@@ -467,9 +482,10 @@ class MatrixWavedec(BaseMatrixWaveDec):
         plan = self._plan
         device, dtype = input_signal.device, input_signal.dtype
         if not plan.matrix_list or plan.key != (length, level, device, dtype):
-            plan = self._construct_analysis_matrices(
-                length, level, device=device, dtype=dtype
-            )
+            with _outside_inference_mode():
+                plan = self._construct_analysis_matrices(
+                    length, level, device=device, dtype=dtype
+                )
             self._plan = plan
 
         lo = input_signal.T
@@ -747,9 +763,10 @@ class MatrixWaverec(_BaseMatrixWaveRec):
             torch_device,
             torch_dtype,
         ):
-            plan = self._construct_synthesis_matrices(
-                input_length, level, device=torch_device, dtype=torch_dtype
-            )
+            with _outside_inference_mode():
+                plan = self._construct_synthesis_matrices(
+                    input_length, level, device=torch_device, dtype=torch_dtype
+                )
             self._plan = plan
 
         # transpose the coefficients to handle the batch dimension efficiently.
diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index ab213bf..16bb56c 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -38,6 +38,7 @@ from .matmul_transform import (
     BaseMatrixWaveDec,
     _BaseMatrixWaveRec,
     _MatrixPlan,
+    _outside_inference_mode,
     construct_boundary_a,
     construct_boundary_s,
     orthogonalize,
@@ -498,9 +499,10 @@ class MatrixWavedec2(BaseMatrixWaveDec):
         signal_shape = (height, width)
         device, dtype = input_signal.device, input_signal.dtype
         if not plan.matrix_list or plan.key != (signal_shape, level, device, dtype):
-            plan = self._construct_analysis_matrices(
-                signal_shape, level, device=device, dtype=dtype
-            )
+            with _outside_inference_mode():
+                plan = self._construct_analysis_matrices(
+                    signal_shape, level, device=device, dtype=dtype
+                )
             self._plan = plan
 
         def _add_padding(signal: torch.Tensor, pad: tuple[bool, bool]) -> torch.Tensor:
@@ -777,9 +779,10 @@ class MatrixWaverec2(_BaseMatrixWaveRec):
             torch_device,
             torch_dtype,
         ):
-            plan = self._construct_synthesis_matrices(
-                signal_shape, level, device=torch_device, dtype=torch_dtype
-            )
+            with _outside_inference_mode():
+                plan = self._construct_synthesis_matrices(
+                    signal_shape, level, device=torch_device, dtype=torch_dtype
+                )
             self._plan = plan
 
         ll = coefficients[0]
diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index 2c3297d..266b438 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -33,6 +33,7 @@ from .matmul_transform import (
     BaseMatrixWaveDec,
     _BaseMatrixWaveRec,
     _MatrixPlan,
+    _outside_inference_mode,
     construct_boundary_a,
     construct_boundary_s,
 )
@@ -245,9 +246,10 @@ class MatrixWavedec3(BaseMatrixWaveDec):
         signal_shape = (depth, height, width)
         device, dtype = input_signal.device, input_signal.dtype
         if not plan.matrix_list or plan.key != (signal_shape, level, device, dtype):
-            plan = self._construct_analysis_matrices(
-                signal_shape, level, device=device, dtype=dtype
-            )
+            with _outside_inference_mode():
+                plan = self._construct_analysis_matrices(
+                    signal_shape, level, device=device, dtype=dtype
+                )
             self._plan = plan
 
         split_list: list[WaveletDetailDict] = []
@@ -452,9 +454,10 @@ class MatrixWaverec3(_BaseMatrixWaveRec):
             torch_device,
             torch_dtype,
         ):
-            plan = self._construct_synthesis_matrices(
-                signal_shape, level, device=torch_device, dtype=torch_dtype
-            )
+            with _outside_inference_mode():
+                plan = self._construct_synthesis_matrices(
+                    signal_shape, level, device=torch_device, dtype=torch_dtype
+                )
             self._plan = plan
 
         lll = coefficients[0]
-- 
2.43.0


From b1ad85c937425d53b3863320e146f78df7a11652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 05/14] fix: do not add keys to the coefficient dictionaries of
 the caller

For inputs with a single batch dimension and default axes the preprocessing
passes the dictionaries on as they are. The separable synthesis transforms
stored the approximation coefficients in them, so that synthesizing the same
coefficients twice failed (MatrixWaverec3) and the coefficients of the caller
changed (fswaverec2, fswaverec3).
---
 src/ptwt/matmul_transform_3.py       | 4 ++--
 src/ptwt/separable_conv_transform.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ptwt/matmul_transform_3.py b/src/ptwt/matmul_transform_3.py
index 266b438..5adc4f1 100644
--- a/src/ptwt/matmul_transform_3.py
+++ b/src/ptwt/matmul_transform_3.py
@@ -477,8 +477,8 @@ class MatrixWaverec3(_BaseMatrixWaveRec):
                         "All coefficients on each level must have the same shape"
                     )
 
-            coeff_dict["aaa"] = lll
-            lll = self._cat_coeff_recursive(coeff_dict)
+            # extend a copy, the dictionary belongs to the caller.
+            lll = self._cat_coeff_recursive({**coeff_dict, "aaa": lll})
 
             for dim, mat in enumerate(plan.matrix_list[level - 1 - c_pos][::-1]):
                 lll = _batch_dim_mm(mat, lll, dim=(-1) * (dim + 1))
diff --git a/src/ptwt/separable_conv_transform.py b/src/ptwt/separable_conv_transform.py
index 54ba9de..91f5257 100644
--- a/src/ptwt/separable_conv_transform.py
+++ b/src/ptwt/separable_conv_transform.py
@@ -179,7 +179,8 @@ def _separable_conv_waverecn(
     approx: torch.Tensor = coeffs[0]
     for level_dict in coeffs[1:]:
         keys = list(level_dict.keys())
-        level_dict["a" * max(map(len, keys))] = approx
+        # extend a copy, the dictionary belongs to the caller.
+        level_dict = {**level_dict, "a" * max(map(len, keys)): approx}
         approx = _separable_conv_idwtn(level_dict, wavelet)
     return approx
 
-- 
2.43.0


From 3c9f3be312369e2fb0e9fd7c2e2ccd524f01b794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 06/14] fix: keep assigned packet coefficients if a sibling
 node is expanded

Reading a missing node computes all children of its parent. A child the user
had assigned before was silently replaced, so the result of an assignment
depended on which siblings had been read earlier.
---
 src/ptwt/packets.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/ptwt/packets.py b/src/ptwt/packets.py
index a4dceb6..c1ba204 100644
--- a/src/ptwt/packets.py
+++ b/src/ptwt/packets.py
@@ -312,8 +312,9 @@ class WaveletPacket(BaseDict):
     def _expand_node(self, path: str) -> None:
         data = self[path]
         res_lo, res_hi = self._get_wavedec(data.shape[self.axis])(data)
-        self.data[path + "a"] = res_lo
-        self.data[path + "d"] = res_hi
+        # keep children that are already present, e.g. modified coefficients.
+        self.data.setdefault(path + "a", res_lo)
+        self.data.setdefault(path + "d", res_hi)
 
     def __getitem__(self, key: str) -> torch.Tensor:
         """Access the coefficients in the wavelet packets tree.
@@ -533,10 +534,11 @@ class WaveletPacket2D(BaseDict):
         # assert for type checking
         assert len(result) == 2
         result_a, (result_h, result_v, result_d) = result
-        self.data[path + "a"] = result_a
-        self.data[path + "h"] = result_h
-        self.data[path + "v"] = result_v
-        self.data[path + "d"] = result_d
+        # keep children that are already present, e.g. modified coefficients.
+        self.data.setdefault(path + "a", result_a)
+        self.data.setdefault(path + "h", result_h)
+        self.data.setdefault(path + "v", result_v)
+        self.data.setdefault(path + "d", result_d)
 
     def _get_wavedec(self, shape: tuple[int, ...]) -> Callable[
         [torch.Tensor],
-- 
2.43.0


From 03caa38753575c0271ddf3de6d8673582293a7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 07/14] fix: leave a packet tree unchanged if transform rejects
 its input

The root was replaced before the maximum level was computed. If that failed,
the object held the rejected data together with the level of the old tree.
---
 src/ptwt/packets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ptwt/packets.py b/src/ptwt/packets.py
index c1ba204..8e0987a 100644
--- a/src/ptwt/packets.py
+++ b/src/ptwt/packets.py
@@ -170,9 +170,9 @@ class WaveletPacket(BaseDict):
         Returns:
             This wavelet packet object (to allow call chaining).
         """
-        self.data = {"": data}
         if maxlevel is None:
             maxlevel = pywt.dwt_max_level(data.shape[self.axis], self.wavelet.dec_len)
+        self.data = {"": data}
         self.maxlevel = maxlevel
         return self
 
@@ -459,10 +459,10 @@ class WaveletPacket2D(BaseDict):
         Returns:
             This wavelet packet object (to allow call chaining).
         """
-        self.data = {"": data}
         if maxlevel is None:
             min_transform_size = min(_swap_axes(data, self.axes).shape[-2:])
             maxlevel = pywt.dwt_max_level(min_transform_size, self.wavelet.dec_len)
+        self.data = {"": data}
         self.maxlevel = maxlevel
 
         return self
-- 
2.43.0


From e777f4aa3d03163ab644bc2c36d1240cdade9c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 08/14] fix: return a copy of single level sparse operators

For a single level, sparse_fwt_operator and sparse_ifwt_operator returned the
very matrix the object uses. Scaling or otherwise editing the operator in place
silently changed all later transforms.
---
 src/ptwt/matmul_transform.py   | 6 ++++--
 src/ptwt/matmul_transform_2.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ptwt/matmul_transform.py b/src/ptwt/matmul_transform.py
index 04e2c6b..7e46b53 100644
--- a/src/ptwt/matmul_transform.py
+++ b/src/ptwt/matmul_transform.py
@@ -363,7 +363,8 @@ class MatrixWavedec(BaseMatrixWaveDec):
         plan = self._plan
         fwt_matrix_list = cast(list[torch.Tensor], plan.matrix_list)
         if len(fwt_matrix_list) == 1:
-            return fwt_matrix_list[0]
+            # do not hand out the matrix of the transform itself.
+            return fwt_matrix_list[0].clone()
         elif len(fwt_matrix_list) > 1:
             if plan.padded:
                 raise NotImplementedError
@@ -667,7 +668,8 @@ class MatrixWaverec(_BaseMatrixWaveRec):
         plan = self._plan
         ifwt_matrix_list = cast(list[torch.Tensor], plan.matrix_list)
         if len(ifwt_matrix_list) == 1:
-            return ifwt_matrix_list[0]
+            # do not hand out the matrix of the transform itself.
+            return ifwt_matrix_list[0].clone()
         elif len(ifwt_matrix_list) > 1:
             if plan.padded:
                 raise NotImplementedError
diff --git a/src/ptwt/matmul_transform_2.py b/src/ptwt/matmul_transform_2.py
index 16bb56c..ce26468 100644
--- a/src/ptwt/matmul_transform_2.py
+++ b/src/ptwt/matmul_transform_2.py
@@ -369,7 +369,8 @@ class MatrixWavedec2(BaseMatrixWaveDec):
         fwt_matrix_list = cast(list[torch.Tensor], plan.matrix_list)
 
         if len(fwt_matrix_list) == 1:
-            return fwt_matrix_list[0]
+            # do not hand out the matrix of the transform itself.
+            return fwt_matrix_list[0].clone()
         elif len(fwt_matrix_list) > 1:
             if plan.padded:
                 raise NotImplementedError
@@ -662,7 +663,8 @@ class MatrixWaverec2(_BaseMatrixWaveRec):
         ifwt_matrix_list = cast(list[torch.Tensor], plan.matrix_list)
 
         if len(ifwt_matrix_list) == 1:
-            return ifwt_matrix_list[0]
+            # do not hand out the matrix of the transform itself.
+            return ifwt_matrix_list[0].clone()
         elif len(ifwt_matrix_list) > 1:
             if plan.padded:
                 raise NotImplementedError
-- 
2.43.0


From 725ece008ce1ff4f65c3f278890d9f9975cc436b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 09/14] fix: match the filter dtype in
 rec_lo_orthogonality_loss

The zero padding was created in the default dtype, so the loss failed if it
differed from the dtype of the filters.
---
 src/ptwt/wavelets_learnable.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ptwt/wavelets_learnable.py b/src/ptwt/wavelets_learnable.py
index 2aaad82..2c4feea 100644
--- a/src/ptwt/wavelets_learnable.py
+++ b/src/ptwt/wavelets_learnable.py
@@ -240,6 +240,7 @@ class SoftOrthogonalWavelet(ProductFilter, torch.nn.Module):
                         filt_len,
                     ],
                     device=self.dec_lo.device,
+                    dtype=self.dec_lo.dtype,
                 ),
             ],
             -1,
-- 
2.43.0


From ffd2618f23903677f0b20a2019ff76f170e95ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:15 +0000
Subject: [PATCH 10/14] fix: do not add a dimension to the result of wavedec3
 without levels

---
 src/ptwt/conv_transform_3.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ptwt/conv_transform_3.py b/src/ptwt/conv_transform_3.py
index f6249a8..2c870f3 100644
--- a/src/ptwt/conv_transform_3.py
+++ b/src/ptwt/conv_transform_3.py
@@ -139,6 +139,9 @@ def wavedec3(
                 "ddd": res_hhh,
             }
         )
+    if not result_lst:
+        # no level removed the channel dimension
+        res_lll = res_lll.squeeze(1)
     result_lst.reverse()
     coeffs: WaveletCoeffNd = res_lll, *result_lst
 
-- 
2.43.0


From ca7aa20472472151b289d7cc61bd41c02e658f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:02 +0000
Subject: [PATCH 11/14] fix: keep class and parameters of copied differentiable
 continuous wavelets

---
 src/ptwt/continuous_transform.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ptwt/continuous_transform.py b/src/ptwt/continuous_transform.py
index 9bceb7c..11f128e 100644
--- a/src/ptwt/continuous_transform.py
+++ b/src/ptwt/continuous_transform.py
@@ -3,6 +3,7 @@
 This module is based on pywt's cwt implementation.
 """
 
+import copyreg
 from typing import Any, Union
 
 import numpy as np
@@ -252,6 +253,16 @@ class _DifferentiableContinuousWavelet(
             requires_grad=True,
         )
 
+    def __reduce__(self) -> tuple[Any, ...]:
+        """Copy or pickle the module, pywt would restore a wavelet without parameters."""
+        bounds = (self.lower_bound, self.upper_bound)
+        return copyreg.__newobj__, (type(self), self.name), (bounds, self.__dict__)  # type: ignore
+
+    def __setstate__(self, state: tuple[tuple[float, float], dict[str, Any]]) -> None:
+        """Restore the module."""
+        (self.lower_bound, self.upper_bound), attributes = state
+        super().__setstate__(attributes)
+
     def __call__(self, grid_values: torch.Tensor) -> torch.Tensor:
         """Return numerical values for the wavelet on a grid.
 
-- 
2.43.0


From 6a0ee7f88060c35e412b5579f9ac53095646ed09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:11 +0000
Subject: [PATCH 12/14] fix: cwt of integer signals does not depend on the
 default dtype

---
 src/ptwt/continuous_transform.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ptwt/continuous_transform.py b/src/ptwt/continuous_transform.py
index 11f128e..2dabd57 100644
--- a/src/ptwt/continuous_transform.py
+++ b/src/ptwt/continuous_transform.py
@@ -70,6 +70,10 @@ def cwt(
         >>>     torch.from_numpy(sig), widths, "mexh", sampling_period=(4 / 800) * np.pi
         >>> )
     """
+    if not (data.is_floating_point() or data.is_complex()):
+        # the type integers are promoted to depends on the default dtype
+        data = data.to(torch.float64)
+
     # accept array_like input; make a copy to ensure a contiguous array
     if not isinstance(
         wavelet, (ContinuousWavelet, Wavelet, _DifferentiableContinuousWavelet)
-- 
2.43.0


From b50c513c100cdb8a13b64a2fb3a288a2c8eefca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:26 +0000
Subject: [PATCH 13/14] fix: sparse_kron of a matrix without entries has the
 dtype of its arguments

---
 src/ptwt/sparse_math.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ptwt/sparse_math.py b/src/ptwt/sparse_math.py
index 3bafea9..73ac866 100644
--- a/src/ptwt/sparse_math.py
+++ b/src/ptwt/sparse_math.py
@@ -67,6 +67,7 @@ def sparse_kron(
             torch.zeros([2, 1]),
             torch.zeros([1]),
             size=output_shape,
+            dtype=torch.promote_types(sparse_tensor_a.dtype, sparse_tensor_b.dtype),
             device=sparse_tensor_a.device,
         )
 
-- 
2.43.0


From 1be867562e05642e8b77d1be3a0687a374dc43ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:44 +0000
Subject: [PATCH 14/14] fix: create helper tensors on the device of the data

With another default device (torch.set_default_device) the matrix
transforms, the packets that use them and the axes argument failed.
---
 src/ptwt/_util.py       |  2 +-
 src/ptwt/sparse_math.py | 22 ++++++++++++++--------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/ptwt/_util.py b/src/ptwt/_util.py
index ae58976..b2649ea 100644
--- a/src/ptwt/_util.py
+++ b/src/ptwt/_util.py
@@ -366,7 +366,7 @@ def _swap_axes(data: torch.Tensor, axes: Sequence[int]) -> torch.Tensor:
 def _undo_swap_axes(data: torch.Tensor, axes: Sequence[int]) -> torch.Tensor:
     _check_axes_argument(axes)
     front, back = _get_transpose_order(axes, list(data.shape))
-    restore_sorted = torch.argsort(torch.tensor(front + back)).tolist()
+    restore_sorted = torch.argsort(torch.tensor(front + back, device="cpu")).tolist()
     return torch.permute(data, restore_sorted)
 
 
diff --git a/src/ptwt/sparse_math.py b/src/ptwt/sparse_math.py
index 73ac866..39341c2 100644
--- a/src/ptwt/sparse_math.py
+++ b/src/ptwt/sparse_math.py
@@ -64,8 +64,8 @@ def sparse_kron(
     # take care of the zero case.
     if nzz_a == 0 or nzz_b == 0:
         return torch.sparse_coo_tensor(
-            torch.zeros([2, 1]),
-            torch.zeros([1]),
+            torch.zeros([2, 1], device=sparse_tensor_a.device),
+            torch.zeros([1], device=sparse_tensor_a.device),
             size=output_shape,
             dtype=torch.promote_types(sparse_tensor_a.dtype, sparse_tensor_b.dtype),
             device=sparse_tensor_a.device,
@@ -228,7 +228,7 @@ def sparse_replace_row(
         )
 
     # delete existing indices we dont want
-    diag_indices = torch.arange(matrix.shape[0])
+    diag_indices = torch.arange(matrix.shape[0], device=matrix.device)
     diag = torch.ones_like(diag_indices)
     diag[row_index] = 0
     removal_matrix = torch.sparse_coo_tensor(
@@ -285,7 +285,7 @@ def _orth_by_qr(
     q, _ = torch.linalg.qr(sel.to_dense().T)
     q_rows = q.T.to_sparse()
 
-    diag_indices = torch.arange(matrix.shape[0])
+    diag_indices = torch.arange(matrix.shape[0], device=matrix.device)
     diag = torch.ones_like(diag_indices)
     diag[rows_to_orthogonalize] = 0
     removal_matrix = torch.sparse_coo_tensor(
@@ -503,12 +503,18 @@ def construct_strided_conv_matrix(
     conv_matrix = construct_conv_matrix(filter, input_rows, mode=mode)
     if mode == "sameshift":
         # find conv_matrix[1::stride, :] sparsely
-        select_rows = torch.arange(1, conv_matrix.shape[0], stride)
+        select_rows = torch.arange(
+            1, conv_matrix.shape[0], stride, device=conv_matrix.device
+        )
     else:
         # find conv_matrix[::stride, :] sparsely
-        select_rows = torch.arange(0, conv_matrix.shape[0], stride)
+        select_rows = torch.arange(
+            0, conv_matrix.shape[0], stride, device=conv_matrix.device
+        )
     selection_matrix = torch.sparse_coo_tensor(
-        torch.stack([torch.arange(0, len(select_rows)), select_rows]),
+        torch.stack(
+            [torch.arange(len(select_rows), device=conv_matrix.device), select_rows]
+        ),
         torch.ones_like(select_rows),
         size=[len(select_rows), conv_matrix.shape[0]],
         dtype=conv_matrix.dtype,
@@ -579,7 +585,7 @@ def construct_strided_conv2d_matrix(
             ],
             0,
         ),
-        torch.ones(len(strided_rows)),
+        torch.ones(len(strided_rows), device=convolution_matrix.device),
         dtype=convolution_matrix.dtype,
         device=convolution_matrix.device,
         size=[len(strided_rows), convolution_matrix.shape[0]],
-- 
2.43.0

