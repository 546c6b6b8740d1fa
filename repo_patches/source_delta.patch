From 159c9c215f3872fb3a1c1ae3e84558488b9c1cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:12 +0000
Subject: [PATCH 01/78] fix: DifferentiableThinPlateSplines.d_dx returns the
 true spatial Jacobian

---
 menpofit/transform/thinsplatesplines.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/menpofit/transform/thinsplatesplines.py b/menpofit/transform/thinsplatesplines.py
index be6098a..9e49128 100644
--- a/menpofit/transform/thinsplatesplines.py
+++ b/menpofit/transform/thinsplatesplines.py
@@ -161,14 +161,11 @@ class DifferentiableThinPlateSplines(ThinPlateSplines, DL, DX):
             in this case axis zero may have length ``1`` to allow for
             broadcasting.
         """
-        dk_dx = np.zeros((points.shape[0] + 3,   # i
-                          self.source.n_points,  # k
-                          self.source.n_dims))   # l
-        dk_dx[:-3, :] = self.kernel.d_dl(points)
-
-        affine_derivative = np.array([[0, 0],
-                                      [1, 0],
-                                      [0, 1]])
-        dk_dx[-3:, :] = affine_derivative[:, None]
-
-        return np.einsum('ij, ikl -> klj', self.coefficients, dk_dx)
+        # derivative of every basis function wrt the points it is evaluated at
+        # (n_points, n_centres, n_dims)
+        dk_dx = self.kernel.d_dl(points)
+
+        # the last three coefficients are the (constant, x, y) affine terms
+        # (n_points, n_dims, n_dims)
+        return (np.einsum('kj, ikl -> ijl', self.coefficients[:-3], dk_dx) +
+                self.coefficients[-2:].T[None])
-- 
2.43.0


From afded839dc00831afe099193a0e6fd2cab18961c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:12 +0000
Subject: [PATCH 02/78] fix: DifferentiablePiecewiseAffine.d_dx returns the
 Jacobian of the containing triangle

---
 menpofit/transform/piecewiseaffine.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/menpofit/transform/piecewiseaffine.py b/menpofit/transform/piecewiseaffine.py
index 9e2c867..e52272f 100644
--- a/menpofit/transform/piecewiseaffine.py
+++ b/menpofit/transform/piecewiseaffine.py
@@ -105,6 +105,12 @@ class DifferentiablePiecewiseAffine(PiecewiseAffine, DL, DX):
         TriangleContainmentError:
             If any point is outside any triangle of this PWA.
         """
-        # TODO check for position and return true d_dx (see docstring)
-        # for the time being we assume the points are on the source landmarks
-        return np.eye(2, 2)[None, ...]
+        # the warp is affine inside every triangle: its linear component maps
+        # the edges of the source triangle onto the edges of the target one
+        tri_index, _, _ = self.index_alpha_beta(points)
+        source = self.source.points[self.trilist[tri_index]]
+        target = self.target.points[self.trilist[tri_index]]
+        # edges are stacked as columns, shape (n_points, n_dims, n_dims)
+        source_edges = np.swapaxes(source[:, 1:] - source[:, :1], 1, 2)
+        target_edges = np.swapaxes(target[:, 1:] - target[:, :1], 1, 2)
+        return np.matmul(target_edges, np.linalg.inv(source_edges))
-- 
2.43.0


From 329a23021fdc97cdbc04e859b4dfd4ae0d11558e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:12 +0000
Subject: [PATCH 03/78] fix: GlobalPDM.d_dp applies the linear component of the
 global transform to the model Jacobian

---
 menpofit/modelinstance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/modelinstance.py b/menpofit/modelinstance.py
index 4f2300a..d2096c4 100644
--- a/menpofit/modelinstance.py
+++ b/menpofit/modelinstance.py
@@ -573,7 +573,7 @@ class GlobalPDM(PDM):
         # (n_points, n_dims, n_dims)
         dX_dS = self.global_transform.d_dx(points)
         # (n_points, n_weights, n_dims)
-        dX_db = np.einsum('ilj, idj -> idj', dX_dS, dS_db)
+        dX_db = np.einsum('ilj, idj -> idl', dX_dS, dS_db)
 
         # dX/dp is simply the concatenation of the previous two terms
         # (n_points, n_params, n_dims)
-- 
2.43.0


From cc9edc206482a9d93c702374086d93d5b5766e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:13 +0000
Subject: [PATCH 04/78] fix: model driven transforms compose with the warp
 Jacobian applied to the model Jacobian

---
 menpofit/transform/modeldriven.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/menpofit/transform/modeldriven.py b/menpofit/transform/modeldriven.py
index d770290..2f03508 100644
--- a/menpofit/transform/modeldriven.py
+++ b/menpofit/transform/modeldriven.py
@@ -164,7 +164,7 @@ class ModelDrivenTransform(Transform, Targetable, Vectorizable,
         dW_dx = self.transform.d_dx(points)
 
         # (n_points, n_params, n_dims)
-        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> eilk', dW_dx, dW_dp_0)
+        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> ilj', dW_dx, dW_dp_0)
 
         # (n_params, n_params)
         J = np.einsum('ijk, ilk -> jl', dW_dp, dW_dx_dW_dp_0)
@@ -286,7 +286,7 @@ class ModelDrivenTransform(Transform, Targetable, Vectorizable,
         dW_dx = self.transform.d_dx(points)
 
         # (n_points, n_params, n_dims)
-        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> eilk', dW_dx, dW_dp_0)
+        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> ilj', dW_dx, dW_dp_0)
 
         # (n_params, n_params)
         J = np.einsum('ijk, ilk -> jl', dW_dp, dW_dx_dW_dp_0)
@@ -381,7 +381,7 @@ class GlobalMDTransform(ModelDrivenTransform):
         # (n_points, n_dims, n_dims)
         dW_dS = self.pdm.global_transform.d_dx(points)
         # (n_points, n_weights, n_dims)
-        dW_db = np.einsum('ilj, idj -> idj', dW_dS, dW_db_0)
+        dW_db = np.einsum('ilj, idj -> idl', dW_dS, dW_db_0)
 
         # dW/dp is simply the concatenation of dW_dq with dW_db
         # (n_points, n_params, n_dims)
@@ -393,7 +393,7 @@ class GlobalMDTransform(ModelDrivenTransform):
         dW_dx = self.transform.d_dx(points)
 
         # (n_points, n_params, n_dims)
-        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> ilk', dW_dx, dW_dp_0)
+        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> ilj', dW_dx, dW_dp_0)
 
         # (n_params, n_params)
         J = np.einsum('ijk, ilk -> jl', dW_dp, dW_dx_dW_dp_0)
@@ -449,7 +449,7 @@ class GlobalMDTransform(ModelDrivenTransform):
         # (n_points, n_dims, n_dims)
         dW_dS = self.pdm.global_transform.d_dx(points)
         # (n_points, n_weights, n_dims)
-        dW_db = np.einsum('ilj, idj -> idj', dW_dS, dW_db_0)
+        dW_db = np.einsum('ilj, idj -> idl', dW_dS, dW_db_0)
 
         # dW/dp is simply the concatenation of dW_dq with dW_db
         # (n_points, n_params, n_dims)
@@ -461,7 +461,7 @@ class GlobalMDTransform(ModelDrivenTransform):
         dW_dx = self.transform.d_dx(points)
 
         # (n_points, n_params, n_dims)
-        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> ilk', dW_dx, dW_dp_0)
+        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> ilj', dW_dx, dW_dp_0)
 
         # (n_params, n_params)
         J = np.einsum('ijk, ilk -> jl', dW_dp, dW_dx_dW_dp_0)
-- 
2.43.0


From 84a0ea02b8c2bcf15cecea578a5436ac926d8877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:27 +0000
Subject: [PATCH 05/78] fix: ModelDrivenTransform uses the mean of the model as
 its source when none is given

---
 menpofit/transform/modeldriven.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/menpofit/transform/modeldriven.py b/menpofit/transform/modeldriven.py
index 2f03508..8af6d47 100644
--- a/menpofit/transform/modeldriven.py
+++ b/menpofit/transform/modeldriven.py
@@ -40,6 +40,9 @@ class ModelDrivenTransform(Transform, Targetable, Vectorizable,
         # Assign attributes
         self.pdm = model
         self._cached_points, self.dW_dl = None, None
+        if source is None:
+            # as documented, default to the mean of the model
+            source = self.pdm.model.mean()
         self.transform = transform_cls(source, self.target)
 
     @property
-- 
2.43.0


From f7a671867a15e8385ca31804579d0196bc168b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:33 +0000
Subject: [PATCH 06/78] fix: OrthoPDM.increment rebuilds the global transform
 around the updated mean

---
 menpofit/modelinstance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/menpofit/modelinstance.py b/menpofit/modelinstance.py
index d2096c4..b4e4d6b 100644
--- a/menpofit/modelinstance.py
+++ b/menpofit/modelinstance.py
@@ -625,6 +625,9 @@ class OrthoPDM(GlobalPDM):
         # from the new number of active components
         self._weights = np.zeros(self.model.n_active_components)
         self.similarity_weights = self.similarity_model.project(model_mean)
+        # the global transform aligns the (possibly updated) mean of the model
+        self.global_transform = type(self.global_transform)(model_mean,
+                                                            model_mean)
 
     @property
     def global_parameters(self):
-- 
2.43.0


From e4fdb88ffe81058313e6ef4310bb66f0cd25c7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:30 +0000
Subject: [PATCH 07/78] fix: ModelDrivenTransform.pseudoinverse is reachable
 through the menpo VInvertible interface

---
 menpofit/transform/modeldriven.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/menpofit/transform/modeldriven.py b/menpofit/transform/modeldriven.py
index 8af6d47..712542c 100644
--- a/menpofit/transform/modeldriven.py
+++ b/menpofit/transform/modeldriven.py
@@ -186,7 +186,13 @@ class ModelDrivenTransform(Transform, Targetable, Vectorizable,
         """
         return False
 
-    def _build_pseudoinverse(self):
+    def pseudoinverse(self):
+        r"""
+        The pseudoinverse of the transform, i.e. the transform with the
+        negated parameters.
+
+        :type: `ModelDrivenTransform`
+        """
         return self.from_vector(-self.as_vector())
 
     def pseudoinverse_vector(self, vector):
-- 
2.43.0


From 0e09418de4772c3706e78b3ec923e066fc1cd2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:29 +0000
Subject: [PATCH 08/78] fix: ECC normalises images with the feature function of
 menpo (normalize_norm_inplace is gone)

---
 menpofit/lk/residual.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/menpofit/lk/residual.py b/menpofit/lk/residual.py
index e8ce99b..23b111a 100755
--- a/menpofit/lk/residual.py
+++ b/menpofit/lk/residual.py
@@ -4,7 +4,7 @@ import numpy as np
 from numpy.fft import fftn, ifftn, fft2
 import scipy.linalg
 
-from menpo.feature import gradient
+from menpo.feature import gradient, normalize
 
 
 # TODO: Do we want residuals to support masked templates?
@@ -485,11 +485,8 @@ class ECC(Residual):
         on Pattern Analysis and Machine Intelligence, 30(10): 1858-1865, 2008.
     """
     def _normalise_images(self, image):
-        # TODO: do we need to copy the image?
         # TODO: is this supposed to be per channel normalization?
-        norm_image = image.copy()
-        norm_image.normalize_norm_inplace()
-        return norm_image
+        return normalize(image, scale_func=np.linalg.norm)
 
     def steepest_descent_images(self, image, dW_dp, forward=None):
         r"""
-- 
2.43.0


From 8ed184e71349a7133cfd6110e5259b05a6c3ee21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:29 +0000
Subject: [PATCH 09/78] fix: the cost of the SSD residuals applies the kernel
 to every channel of the error image

---
 menpofit/lk/residual.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/menpofit/lk/residual.py b/menpofit/lk/residual.py
index 23b111a..7cfaf73 100755
--- a/menpofit/lk/residual.py
+++ b/menpofit/lk/residual.py
@@ -296,8 +296,8 @@ class SSD(Residual):
                 return x.T.dot(x)
             else:
                 x = x.reshape((-1,) + k.shape[-2:])
-                kx = ifftn(k[..., None] * fftn(x, axes=(-2, -1)),
-                           axes=(-2, -1))
+                kx = np.real(ifftn(k * fftn(x, axes=(-2, -1)),
+                                   axes=(-2, -1)))
                 return x.ravel().T.dot(kx.ravel())
         return cost_closure(self._error_img, self._kernel)
 
@@ -465,8 +465,8 @@ class FourierSSD(Residual):
             if k is None:
                 return x.ravel().T.dot(x.ravel())
             else:
-                kx = ifftn(k[..., None] * fftn(x, axes=(-2, -1)),
-                           axes=(-2, -1))
+                kx = np.real(ifftn(k * fftn(x, axes=(-2, -1)),
+                                   axes=(-2, -1)))
                 return x.ravel().T.dot(kx.ravel())
         return cost_closure(self._error_img, self._kernel)
 
-- 
2.43.0


From b331706b4b73cc606b6607e326ab614c7c519a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:29 +0000
Subject: [PATCH 10/78] fix: gradient residuals compare the image with the
 template and not with the image of the Jacobian

---
 menpofit/lk/residual.py | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/menpofit/lk/residual.py b/menpofit/lk/residual.py
index 7cfaf73..4411ff8 100755
--- a/menpofit/lk/residual.py
+++ b/menpofit/lk/residual.py
@@ -703,11 +703,11 @@ class GradientImages(Residual):
 
         # compute gradient
         first_grad = self.gradient(image, forward=forward)
-        self._template_grad = self._regularise_gradients(first_grad)
+        first_grad = self._regularise_gradients(first_grad)
 
         # compute gradient
         # second_grad:  dims x dims x ch x pixels
-        second_grad = self.gradient(self._template_grad)
+        second_grad = self.gradient(first_grad)
         second_grad = second_grad.masked_pixels().flatten().reshape(
             (n_dims, n_dims,  n_channels) + second_grad.shape)
 
@@ -789,10 +789,13 @@ class GradientImages(Residual):
         IWxp_grad = self.gradient(image)
         IWxp_grad = self._regularise_gradients(IWxp_grad)
 
+        # compute template regularized gradient
+        template_grad = self.gradient(template)
+        template_grad = self._regularise_gradients(template_grad)
+
         # compute vectorized error_image
         # error_img: (dims x ch x pixels)
-        self._error_img = (IWxp_grad.as_vector() -
-                           self._template_grad.as_vector())
+        self._error_img = IWxp_grad.as_vector() - template_grad.as_vector()
 
         # compute steepest descent update
         # sdi.T:      params x (dims x ch x pixels)
@@ -872,8 +875,8 @@ class GradientCorrelation(Residual):
         # cos_phi:        ch x pixels
         # sin_phi:        ch x pixels
         phi = np.angle(grad2[1, ...] + 1j * grad2[0, ...])
-        self._cos_phi = np.cos(phi)
-        self._sin_phi = np.sin(phi)
+        cos_phi = np.cos(phi)
+        sin_phi = np.sin(phi)
 
         # concatenate sin and cos terms so that we can take the second
         # derivatives correctly. sin(phi) = y and cos(phi) = x which is the
@@ -882,8 +885,8 @@ class GradientCorrelation(Residual):
         # sin_phi:         ch  x pixels
         # grad:    (dims x ch) x pixels
         grad.from_vector_inplace(
-            np.concatenate((self._sin_phi[None, ...],
-                            self._cos_phi[None, ...]), axis=0).ravel())
+            np.concatenate((sin_phi[None, ...],
+                            cos_phi[None, ...]), axis=0).ravel())
 
         # compute IGOs gradient
         # second_grad:  dims x dims x ch x pixels
@@ -896,8 +899,8 @@ class GradientCorrelation(Residual):
 
         # complete full IGOs gradient computation
         # second_grad:  dims x dims x ch x pixels
-        second_grad[1, ...] = (-self._sin_phi[None, ...] * second_grad[1, ...])
-        second_grad[0, ...] = (self._cos_phi[None, ...] * second_grad[0, ...])
+        second_grad[1, ...] = (-sin_phi[None, ...] * second_grad[1, ...])
+        second_grad[0, ...] = (cos_phi[None, ...] * second_grad[0, ...])
 
         # compute steepest descent images
         # gradient: dims x dims x ch x pixels
@@ -991,10 +994,18 @@ class GradientCorrelation(Residual):
         IWxp_cos_phi = np.cos(phi)
         IWxp_sin_phi = np.sin(phi)
 
+        # compute IGOs of the template
+        template_grad = self.gradient(template)
+        template_grad = template_grad.as_vector().reshape(
+            (n_dims, n_channels) + template.shape)
+        phi = np.angle(template_grad[1, ...] + 1j * template_grad[0, ...])
+        cos_phi = np.cos(phi)
+        sin_phi = np.sin(phi)
+
         # compute error image
         # error_img:  (ch x h x w)
-        self._error_img = (self._cos_phi * IWxp_sin_phi -
-                           self._sin_phi * IWxp_cos_phi).ravel()
+        self._error_img = (cos_phi * IWxp_sin_phi -
+                           sin_phi * IWxp_cos_phi).ravel()
 
         # compute steepest descent update
         # sdi:       (ch x pixels) x params
@@ -1003,8 +1014,7 @@ class GradientCorrelation(Residual):
         sdu = sdi.T.dot(self._error_img)
 
         # compute step size
-        qp = np.sum(self._cos_phi * IWxp_cos_phi +
-                    self._sin_phi * IWxp_sin_phi)
+        qp = np.sum(cos_phi * IWxp_cos_phi + sin_phi * IWxp_sin_phi)
         self._l = self._N / qp
         return self._l * sdu
 
-- 
2.43.0


From f60a90f4ae6776cc862d576298ccea59885a7ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:29 +0000
Subject: [PATCH 11/78] fix: GradientCorrelation multiplies each derivative of
 the IGOs with the Jacobian of its own axis

---
 menpofit/lk/residual.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/menpofit/lk/residual.py b/menpofit/lk/residual.py
index 4411ff8..ee113a0 100755
--- a/menpofit/lk/residual.py
+++ b/menpofit/lk/residual.py
@@ -894,8 +894,9 @@ class GradientCorrelation(Residual):
         second_grad = second_grad.masked_pixels().flatten().reshape(
             (n_dims, n_dims,  n_channels) + second_grad.shape)
 
-        # Fix crossed derivatives: dydx = dxdy
-        second_grad[1, 0, ...] = second_grad[0, 1, ...]
+        # the gradient stacks the derivatives on the first axis: bring the sin
+        # and cos terms to the first axis and the derivatives to the second
+        second_grad = second_grad.swapaxes(0, 1)
 
         # complete full IGOs gradient computation
         # second_grad:  dims x dims x ch x pixels
-- 
2.43.0


From e1b70d11d096a6abd616f1784bce2870e53f32ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:44 +0000
Subject: [PATCH 12/78] fix: ECC scales the forward Jacobian with the norm of
 the warped image

---
 menpofit/lk/residual.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/menpofit/lk/residual.py b/menpofit/lk/residual.py
index ee113a0..d5a7763 100755
--- a/menpofit/lk/residual.py
+++ b/menpofit/lk/residual.py
@@ -519,14 +519,21 @@ class ECC(Residual):
         VT_dW_dp : ``(N, n_params)`` `ndarray`
             The steepest descent images
         """
-        # normalize image
-        norm_image = self._normalise_images(image)
-
-        # compute gradient
+        # compute gradient of the normalized image
         # gradient:  dims x ch x pixels
-        grad = self.gradient(norm_image, forward=forward)
-        grad = grad.as_vector().reshape((image.n_dims, image.n_channels) +
-                                         grad.shape)
+        if forward is None:
+            grad = self.gradient(self._normalise_images(image))
+            scale = 1
+        else:
+            # the image that is compared with the template, and hence the one
+            # to be normalized, is the warped image
+            template, transform = forward
+            grad = self.gradient(image, forward=forward)
+            IWxp = image.warp_to_mask(template.mask, transform,
+                                      warp_landmarks=False).as_vector()
+            scale = 1 / np.linalg.norm(IWxp - np.mean(IWxp))
+        grad = scale * grad.as_vector().reshape(
+            (image.n_dims, image.n_channels) + grad.shape)
 
         # compute steepest descent images
         # gradient: dims x ch x pixels
-- 
2.43.0


From 32771cc9b6a4a33d58d9f8898e6887268a5bf3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:31 +0000
Subject: [PATCH 13/78] fix: pupil errors ask menpo's labellers for the mapping
 with its current keyword

---
 menpofit/error/human/face.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/error/human/face.py b/menpofit/error/human/face.py
index 5aa7f55..b18c44e 100644
--- a/menpofit/error/human/face.py
+++ b/menpofit/error/human/face.py
@@ -80,7 +80,7 @@ def mean_pupil_68_error(shape, gt_shape):
         raise ValueError('Ground truth shape must have 68 points')
 
     def pupil_dist(_, s):
-        _, mapping = face_ibug_68_to_face_ibug_68(s, include_mapping=True)
+        _, mapping = face_ibug_68_to_face_ibug_68(s, return_mapping=True)
         return euclidean_error(np.mean(s[mapping['left_eye']], axis=0),
                                np.mean(s[mapping['right_eye']], axis=0))
     return distance_normalised_error(euclidean_error, pupil_dist, shape,
@@ -134,7 +134,7 @@ def mean_pupil_49_error(shape, gt_shape):
                          'points')
 
     def pupil_dist(_, s):
-        _, mapping = face_ibug_49_to_face_ibug_49(s, include_mapping=True)
+        _, mapping = face_ibug_49_to_face_ibug_49(s, return_mapping=True)
         return euclidean_error(np.mean(s[mapping['left_eye']], axis=0),
                                np.mean(s[mapping['right_eye']], axis=0))
     if shape.n_points == 68:
-- 
2.43.0


From bfae988c5245743672bdb362d52945c1ddbb1e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:31 +0000
Subject: [PATCH 14/78] fix: distance_two_indices accepts the documented
 PointCloud

---
 menpofit/error/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/menpofit/error/base.py b/menpofit/error/base.py
index acfc3b8..6ab20ca 100644
--- a/menpofit/error/base.py
+++ b/menpofit/error/base.py
@@ -182,6 +182,7 @@ def euclidean_error(shape, gt_shape):
 
 
 # DISTANCE NORMALISER
+@pointcloud_to_points
 def distance_two_indices(index1, index2, shape):
     r"""
     Computes the Euclidean distance between two points of a shape, i.e.
-- 
2.43.0


From eeb979a0ab9caa178c93faea395d9fc0446e11b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:31 +0000
Subject: [PATCH 15/78] fix: compute_cumulative_error accepts the documented
 lists

---
 menpofit/error/stats.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/menpofit/error/stats.py b/menpofit/error/stats.py
index b1a76fd..19938ca 100644
--- a/menpofit/error/stats.py
+++ b/menpofit/error/stats.py
@@ -25,6 +25,7 @@ def compute_cumulative_error(errors, bins):
     ced : `list` of `float`
         The computed CED.
     """
+    errors = np.asarray(errors)
     n_errors = len(errors)
     return [np.count_nonzero([errors <= x]) / n_errors for x in bins]
 
-- 
2.43.0


From d0d00c01b46b47d2391d28d3a3a0a4dd7b38287f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:31 +0000
Subject: [PATCH 16/78] fix: the AUC and failure rate bins never go beyond
 max_error

---
 menpofit/error/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/menpofit/error/stats.py b/menpofit/error/stats.py
index 19938ca..a094cb5 100644
--- a/menpofit/error/stats.py
+++ b/menpofit/error/stats.py
@@ -72,7 +72,8 @@ def area_under_curve_and_failure_rate(errors, step_error, max_error,
     fr : `float`
         The Failure Rate value.
     """
-    x_axis = list(np.arange(min_error, max_error + step_error, step_error))
+    # half a step beyond max_error, so that rounding never adds a bin after it
+    x_axis = list(np.arange(min_error, max_error + step_error / 2., step_error))
     ced = np.array(compute_cumulative_error(errors, x_axis))
     return simps(ced, x=x_axis) / max_error, 1. - ced[-1]
 
-- 
2.43.0


From 05409d052ad276d165af82b9f9631f2a9d8848a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 17/78] fix: check_multi_scale_param works for lists on current
 Python (collections.abc)

---
 menpofit/checks.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/menpofit/checks.py b/menpofit/checks.py
index 96c944b..643149f 100644
--- a/menpofit/checks.py
+++ b/menpofit/checks.py
@@ -1,5 +1,8 @@
 import warnings
-import collections
+try:
+    import collections.abc as collections_abc
+except ImportError:
+    import collections as collections_abc
 from functools import partial
 import numpy as np
 
@@ -151,7 +154,7 @@ def check_multi_scale_param(n_scales, types, param_name, param):
     # Could be a single value - or we have an error
     if isinstance(param, types):
         return [param] * n_scales
-    elif not isinstance(param, collections.Iterable):
+    elif not isinstance(param, collections_abc.Iterable):
         raise ValueError(error_msg)
 
     # Must be an iterable object
-- 
2.43.0


From 4b97ea3698ed56526e0042e4cefed46ec43e06e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 18/78] fix: a single patch shape in a list is used for every
 scale

---
 menpofit/checks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/checks.py b/menpofit/checks.py
index 643149f..cc9c718 100644
--- a/menpofit/checks.py
+++ b/menpofit/checks.py
@@ -229,7 +229,7 @@ def check_patch_shape(patch_shape, n_scales):
     if len(patch_shape) == 2 and isinstance(patch_shape[0], int):
         return [patch_shape] * n_scales
     elif len(patch_shape) == 1:
-        return check_patch_shape(patch_shape[0], 1)
+        return check_patch_shape(patch_shape[0], n_scales)
     elif len(patch_shape) == n_scales:
         l1 = check_patch_shape(patch_shape[0], 1)
         l2 = check_patch_shape(patch_shape[1:], n_scales-1)
-- 
2.43.0


From cc56261d4604f6c9cffb8070fc3babd1a5a25c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 19/78] fix: check_max_components enforces the documented
 bounds

---
 menpofit/checks.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/menpofit/checks.py b/menpofit/checks.py
index cc9c718..53f3668 100644
--- a/menpofit/checks.py
+++ b/menpofit/checks.py
@@ -279,9 +279,12 @@ def check_max_components(max_components, n_scales, var_name):
         raise ValueError(str_error)
     for comp in max_components_list:
         if comp is not None:
-            if not isinstance(comp, int):
-                if not isinstance(comp, float):
-                    raise ValueError(str_error)
+            if isinstance(comp, int):
+                valid = comp > 0
+            else:
+                valid = isinstance(comp, float) and 0 <= comp <= 1
+            if not valid:
+                raise ValueError(str_error)
     return max_components_list
 
 
-- 
2.43.0


From 5e8d3303869bdd65daca80ac6410fded6494df11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 20/78] fix: check_max_iters shares out exactly the total
 number of iterations

---
 menpofit/checks.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/menpofit/checks.py b/menpofit/checks.py
index 53f3668..e11a8d5 100644
--- a/menpofit/checks.py
+++ b/menpofit/checks.py
@@ -312,11 +312,11 @@ def check_max_iters(max_iters, n_scales):
         elements or None
     """
     if type(max_iters) is int:
-        max_iters = [np.round(max_iters/n_scales)
-                     for _ in range(n_scales)]
-    elif len(max_iters) == 1 and n_scales > 1:
-        max_iters = [np.round(max_iters[0]/n_scales)
-                     for _ in range(n_scales)]
+        max_iters = [max_iters]
+    if len(max_iters) == 1 and n_scales > 1:
+        # the total is shared out so that it is neither exceeded nor lost
+        max_iters = [(max_iters[0] + i) // n_scales
+                     for i in reversed(range(n_scales))]
     elif len(max_iters) != n_scales:
         raise ValueError('max_iters can be integer, integer list '
                          'containing 1 or {} elements or '
-- 
2.43.0


From 67a6310f1964f10d8ce3cf26e7b600911fae7e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:11 +0000
Subject: [PATCH 21/78] fix: sampling accepts the documented int and per scale
 None

---
 menpofit/aam/algorithm/lk.py | 2 +-
 menpofit/checks.py           | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/menpofit/aam/algorithm/lk.py b/menpofit/aam/algorithm/lk.py
index 5c0de21..3b4b8fd 100644
--- a/menpofit/aam/algorithm/lk.py
+++ b/menpofit/aam/algorithm/lk.py
@@ -58,7 +58,7 @@ class LucasKanadeBaseInterface(object):
 
         if sampling is None:
             sampling = range(0, n_true_pixels, 1)
-        elif isinstance(sampling, np.int64):
+        elif isinstance(sampling, (int, np.integer)):
             sampling = range(0, n_true_pixels, sampling)
 
         sampling_mask[sampling] = 1
diff --git a/menpofit/checks.py b/menpofit/checks.py
index e11a8d5..8028b92 100644
--- a/menpofit/checks.py
+++ b/menpofit/checks.py
@@ -350,7 +350,7 @@ def check_sampling(sampling, n_scales):
         containing 1 or {n_scales} elements or None
     """
     if (isinstance(sampling, (list, tuple)) and
-        np.alltrue([isinstance(s, (np.ndarray, np.int64)) or sampling is None
+        np.alltrue([isinstance(s, (np.ndarray, int, np.integer)) or s is None
                     for s in sampling])):
         if len(sampling) == 1:
             return sampling * n_scales
@@ -360,7 +360,8 @@ def check_sampling(sampling, n_scales):
             raise ValueError('A sampling list can only '
                              'contain 1 element or {} '
                              'elements'.format(n_scales))
-    elif isinstance(sampling, (np.ndarray, np.int64)) or sampling is None:
+    elif (isinstance(sampling, (np.ndarray, int, np.integer)) or
+          sampling is None):
         return [sampling] * n_scales
     else:
         raise ValueError('sampling can be an integer or ndarray, '
-- 
2.43.0


From d50e68798ce4187512b80641d4deaead142a69dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:49 +0000
Subject: [PATCH 22/78] fix: view_iterations names the iterations and
 reconstructions as documented

---
 menpofit/result.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/menpofit/result.py b/menpofit/result.py
index 300f134..c5a4c40 100644
--- a/menpofit/result.py
+++ b/menpofit/result.py
@@ -2272,7 +2272,7 @@ class ParametricIterativeResult(NonParametricIterativeResult):
         subplots_titles = {}
         iters_offset = 0
         if self.initial_shape is not None:
-            iters_offset = 1
+            iters_offset = -1
         for j in iters:
             if j == 0 and self.initial_shape is not None:
                 name = "Initial"
@@ -2927,7 +2927,7 @@ class MultiScaleParametricIterativeResult(MultiScaleNonParametricIterativeResult
         n_digits = len(str(self.n_iters))
         groups = []
         subplots_titles = {}
-        iters_offset = -2
+        iters_offset = 0
         if self.initial_shape is not None:
             iters_offset = -1
         for j in iters:
@@ -2935,7 +2935,9 @@ class MultiScaleParametricIterativeResult(MultiScaleNonParametricIterativeResult
                 name = "Initial"
                 image.landmarks[name] = self.initial_shape
             elif j in self._reconstruction_indices:
-                name = "Reconstruction"
+                # every scale has its own reconstruction
+                s = _get_scale_of_iter(j, self._reconstruction_indices)
+                name = "Reconstruction" if s == 0 else "Reconstruction {}".format(s)
                 image.landmarks[name] = self.shapes[j]
             elif j == len(self.shapes) - 1:
                 name = "Final"
-- 
2.43.0


From 56be0f7486a6ad3cff1d2b7edb9d84aa7eaaafb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:49 +0000
Subject: [PATCH 23/78] fix: LucasKanadeResult counts the reconstructed shapes
 once

---
 menpofit/lk/result.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/menpofit/lk/result.py b/menpofit/lk/result.py
index 9a8309c..274cb74 100644
--- a/menpofit/lk/result.py
+++ b/menpofit/lk/result.py
@@ -84,8 +84,6 @@ class LucasKanadeResult(MultiScaleParametricIterativeResult):
         self._homogeneous_parameters = []
         for r in results:
             self._homogeneous_parameters += r.homogeneous_parameters
-        # Correct n_iters
-        self._n_iters -= len(scales)
 
     @property
     def homogeneous_parameters(self):
-- 
2.43.0


From 05a35ce676cf19550fbb1cd50a94ae25c22cca96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:53 +0000
Subject: [PATCH 24/78] fix: a scale with the features of the previous one
 shares the affine transform of that scale

---
 menpofit/fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index 63c9bf5..36ed240 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -374,7 +374,7 @@ class MultiScaleNonParametricFitter(object):
             else:
                 # If features are not extracted, then the affine transform
                 # should be identical with the one of the first (lowest) level.
-                affine_transforms.append(affine_transforms[0])
+                affine_transforms.append(affine_transforms[-1])
 
             # Rescale images according to scales
             if self.scales[i] != 1:
-- 
2.43.0


From 688dfb661e3f7b2307e9bb1461b621e5363a1e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:07 +0000
Subject: [PATCH 25/78] fix: the shape passed to a scale with other features
 undoes scale before affine transform

---
 menpofit/fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index 36ed240..24a21fa 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -491,7 +491,7 @@ class MultiScaleNonParametricFitter(object):
                     #    S_{i+1} : scaling transform of next scale
                     #    A_i : affine transform of current scale
                     #    A_{i+1} : affine transform of next scale
-                    t1 = scale_transforms[i].compose_after(affine_transforms[i])
+                    t1 = affine_transforms[i].compose_after(scale_transforms[i])
                     t2 = affine_transforms[i + 1].pseudoinverse().compose_after(t1)
                     transform = scale_transforms[i + 1].pseudoinverse().compose_after(t2)
                     shape = transform.apply(shape)
-- 
2.43.0


From 094f37b2ecfeef6578a2cd72ea113c9c0f3e1248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:07 +0000
Subject: [PATCH 26/78] fix: uniform noise draws the scale from a uniform
 distribution

---
 menpofit/fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index 24a21fa..4bb25ef 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -79,7 +79,7 @@ def noisy_alignment_similarity_transform(source, target, noise_type='uniform',
         r = rotate_ccw_about_centre(target, r)
         t = Translation(t, source.n_dims)
     elif noise_type is 'uniform':
-        s = noise_percentage[0] * 0.5 * (2 * np.random.randn(1)[0] - 1)
+        s = noise_percentage[0] * 0.5 * (2 * np.random.rand(1)[0] - 1)
         r = noise_percentage[1] * 180 * (2 * np.random.rand(1)[0] - 1)
         t = noise_percentage[2] * target.range() * (2 * np.random.rand(2) - 1)
 
-- 
2.43.0


From 8dcfde0b5a1bf555d7424077b157196f406f2a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:07 +0000
Subject: [PATCH 27/78] fix: noise types are compared by value

---
 menpofit/fitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index 4bb25ef..110a1a8 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -70,7 +70,7 @@ def noisy_alignment_similarity_transform(source, target, noise_type='uniform',
     similarity = AlignmentSimilarity(source, target,
                                      rotation=allow_alignment_rotation)
 
-    if noise_type is 'gaussian':
+    if noise_type == 'gaussian':
         s = noise_percentage[0] * (0.5 / 3) * np.random.randn(1)[0]
         r = noise_percentage[1] * (180 / 3) * np.random.randn(1)[0]
         t = noise_percentage[2] * (target.range() / 3) * np.random.randn(2)
@@ -78,7 +78,7 @@ def noisy_alignment_similarity_transform(source, target, noise_type='uniform',
         s = scale_about_centre(target, 1 + s)
         r = rotate_ccw_about_centre(target, r)
         t = Translation(t, source.n_dims)
-    elif noise_type is 'uniform':
+    elif noise_type == 'uniform':
         s = noise_percentage[0] * 0.5 * (2 * np.random.rand(1)[0] - 1)
         r = noise_percentage[1] * 180 * (2 * np.random.rand(1)[0] - 1)
         t = noise_percentage[2] * target.range() * (2 * np.random.rand(2) - 1)
-- 
2.43.0


From afdb6a6de772edbe48997b134bca669fc48a7bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:07 +0000
Subject: [PATCH 28/78] fix: a list with one noise percentage is not changed

---
 menpofit/fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index 110a1a8..2ebb0f0 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -65,7 +65,7 @@ def noisy_alignment_similarity_transform(source, target, noise_type='uniform',
     if isinstance(noise_percentage, float):
         noise_percentage = [noise_percentage] * 3
     elif len(noise_percentage) == 1:
-        noise_percentage *= 3
+        noise_percentage = list(noise_percentage) * 3
 
     similarity = AlignmentSimilarity(source, target,
                                      rotation=allow_alignment_rotation)
-- 
2.43.0


From 1441665c218e388eae7b9d73787fc705a3a44daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:07 +0000
Subject: [PATCH 29/78] fix: the noise of noisy_alignment_similarity_transform
 acts in the frame of the target

---
 menpofit/fitter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index 2ebb0f0..991a941 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -90,7 +90,8 @@ def noisy_alignment_similarity_transform(source, target, noise_type='uniform',
         raise ValueError('Unexpected noise type. '
                          'Supported values are {gaussian, uniform}')
 
-    return similarity.compose_after(t.compose_after(s.compose_after(r)))
+    # the noise is defined around (and in the units of) the target
+    return t.compose_after(s.compose_after(r)).compose_after(similarity)
 
 
 def noisy_target_alignment_transform(source, target,
-- 
2.43.0


From 514c7f15d2e290f790a82bfe71315d55a20acfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:34 +0000
Subject: [PATCH 30/78] fix: noise_std of noisy_target_alignment_transform can
 be one value per point

---
 menpofit/fitter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index 991a941..1690813 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -119,6 +119,8 @@ def noisy_target_alignment_transform(source, target,
     noisy_transform : `menpo.transform.Alignment`
         The noisy Similarity Transform
     """
+    # one value for all points or one per point
+    noise_std = np.reshape(noise_std, (-1, 1))
     noise = noise_std * target.range() * np.random.randn(target.n_points,
                                                          target.n_dims)
     noisy_target = PointCloud(target.points + noise)
-- 
2.43.0


From 66c79605be9f3e2fbd4ba68d44061582a39863ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:34 +0000
Subject: [PATCH 31/78] fix: incremented regression equals the regression
 trained with all samples

---
 menpofit/math/regression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/math/regression.py b/menpofit/math/regression.py
index c75af28..02c61c7 100644
--- a/menpofit/math/regression.py
+++ b/menpofit/math/regression.py
@@ -74,8 +74,8 @@ class IRLRegression(object):
 
         # incremental regularized linear regression
         U = X.dot(self.V).dot(X.T)
-        if self.alpha:
-            np.fill_diagonal(U, self.alpha + np.diag(U))
+        # Woodbury identity: the regularisation is already part of V
+        np.fill_diagonal(U, 1 + np.diag(U))
         U = np.linalg.inv(U)
         Q = self.V.dot(X.T).dot(U).dot(X)
         self.V = self.V - Q.dot(self.V)
-- 
2.43.0


From 8c337cdfc0d132db7027851067ff2f9174b67a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:34 +0000
Subject: [PATCH 32/78] fix: indirect regression can be incremented

---
 menpofit/math/regression.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/menpofit/math/regression.py b/menpofit/math/regression.py
index 02c61c7..e27824b 100644
--- a/menpofit/math/regression.py
+++ b/menpofit/math/regression.py
@@ -116,11 +116,16 @@ class IIRLRegression(IRLRegression):
         If ``True``, a bias term is used.
     alpha2 : `float`, optional
         The regularization parameter of the Hessian.
+    incrementable : `bool`, optional
+        If ``True``, then the regression model will have the ability to get
+        incremented.
     """
-    def __init__(self, alpha=0, bias=False, alpha2=0):
+    def __init__(self, alpha=0, bias=False, alpha2=0, incrementable=False):
         # TODO: Can we model the bias? May need to slice off of prediction?
-        super(IIRLRegression, self).__init__(alpha=alpha, bias=False)
+        super(IIRLRegression, self).__init__(alpha=alpha, bias=False,
+                                             incrementable=incrementable)
         self.alpha2 = alpha2
+        self.J = None
 
     def train(self, X, Y):
         r"""
@@ -135,7 +140,11 @@ class IIRLRegression(IRLRegression):
         """
         # regularized linear regression exchanging the roles of X and Y
         super(IIRLRegression, self).train(Y, X)
-        J = self.W
+        self._solve_original_problem()
+
+    def _solve_original_problem(self):
+        # keep the solution of the exchanged problem, it is what increments
+        self.J = J = self.W
         # solve the original problem by computing the pseudo-inverse of the
         # previous solution
         # Note that everything is transposed from the above exchanging of roles
@@ -160,16 +169,12 @@ class IIRLRegression(IRLRegression):
         ValueError
             Model is not incrementable
         """
+        if not self.incrementable:
+            raise ValueError('Model is not incrementable')
         # incremental least squares exchanging the roles of X and Y
+        self.W = self.J
         super(IIRLRegression, self).increment(Y, X)
-        J = self.W
-        # solve the original problem by computing the pseudo-inverse of the
-        # previous solution
-        # Note that everything is transposed from the above exchanging of roles
-        H = J.dot(J.T)
-        if self.alpha2:
-            np.fill_diagonal(H, self.alpha2 + np.diag(H))
-        self.W = np.linalg.solve(H, J)
+        self._solve_original_problem()
 
     def predict(self, x):
         r"""
-- 
2.43.0


From a704a10aedfd4a38020fafbaf8a7e4b7ed603703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 33/78] fix: MAP solvers leave the given Hessian alone and
 compare sizes by value

---
 menpofit/aam/algorithm/lk.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/menpofit/aam/algorithm/lk.py b/menpofit/aam/algorithm/lk.py
index 3b4b8fd..c279c82 100644
--- a/menpofit/aam/algorithm/lk.py
+++ b/menpofit/aam/algorithm/lk.py
@@ -8,13 +8,13 @@ from ..result import AAMAlgorithmResult
 
 
 def _solve_all_map(H, J, e, Ja_prior, c, Js_prior, p, m, n):
-    if n is not H.shape[0] - m:
+    if n != H.shape[0] - m:
         # Bidirectional Compositional case
         Js_prior = np.hstack((Js_prior, Js_prior))
         p = np.hstack((p, p))
         # compute and return MAP solution
     J_prior = np.hstack((Ja_prior, Js_prior))
-    H += np.diag(J_prior)
+    H = H + np.diag(J_prior)
     Je = J_prior * np.hstack((c, p)) + J.T.dot(e)
     dq = - np.linalg.solve(H, Je)
     return dq[:m], dq[m:]
@@ -224,12 +224,12 @@ class LucasKanadeBaseInterface(object):
         params : ``(n_params, )`` `ndarray`
             The MAP solution.
         """
-        if p.shape[0] is not H.shape[0]:
+        if p.shape[0] != H.shape[0]:
             # Bidirectional Compositional case
             J_prior = np.hstack((J_prior, J_prior))
             p = np.hstack((p, p))
         # compute and return MAP solution
-        H += np.diag(J_prior)
+        H = H + np.diag(J_prior)
         Je = J_prior * p + J.T.dot(e)
         return - np.linalg.solve(H, Je)
 
-- 
2.43.0


From 1ea75bca9e294ccf17b6db2703e029aa0ba48e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 34/78] fix: MAP inference of the alternating algorithms
 projects with the appearance basis

---
 menpofit/aam/algorithm/lk.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/menpofit/aam/algorithm/lk.py b/menpofit/aam/algorithm/lk.py
index c279c82..c28d313 100644
--- a/menpofit/aam/algorithm/lk.py
+++ b/menpofit/aam/algorithm/lk.py
@@ -1206,7 +1206,8 @@ class Alternating(LucasKanade):
         while k < max_iters and eps > self.eps:
             # solve for increment on the appearance parameters
             if map_inference:
-                Ae_m_map = - self.s2_inv_S * c + self.A_m.dot(e_m + Jdp)
+                Ae_m_map = (- self.s2_inv_S * c +
+                            self.A_m.T.dot(e_m + Jdp))
                 dc = np.linalg.solve(self.AA_m_map, Ae_m_map)
             else:
                 dc = self.pinv_A_m.dot(e_m + Jdp)
@@ -1218,7 +1219,7 @@ class Alternating(LucasKanade):
             # solve for increments on the shape parameters
             if map_inference:
                 self.dp = self.interface.solve_shape_map(
-                    H_m, J_m, e_m - self.A_m.T.dot(dc), self.s2_inv_L,
+                    H_m, J_m, e_m - self.A_m.dot(dc), self.s2_inv_L,
                     self.transform.as_vector())
             else:
                 self.dp = self.interface.solve_shape_ml(H_m, J_m,
-- 
2.43.0


From 982f851f01705bf13029e6baf67ea3989b3c618c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 35/78] fix: MAP inference of inverse AAM algorithms pulls the
 shape parameters to the prior

---
 menpofit/aam/algorithm/lk.py | 37 ++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/menpofit/aam/algorithm/lk.py b/menpofit/aam/algorithm/lk.py
index c28d313..652a47b 100644
--- a/menpofit/aam/algorithm/lk.py
+++ b/menpofit/aam/algorithm/lk.py
@@ -778,6 +778,11 @@ class LucasKanade(object):
         S = self.appearance_model.eigenvalues
         self.s2_inv_S = s2 / S
 
+    def _map_parameters(self):
+        # Shape parameters the prior is evaluated at. Forward algorithms
+        # update them to p + dp.
+        return self.transform.as_vector()
+
 
 class ProjectOut(LucasKanade):
     r"""
@@ -905,7 +910,7 @@ class ProjectOutForwardCompositional(ProjectOut):
         if map_inference:
             return self.interface.solve_shape_map(
                 JQJ_m, QJ_m, self.e_m,  self.s2_inv_L,
-                self.transform.as_vector())
+                self._map_parameters())
         else:
             return self.interface.solve_shape_ml(JQJ_m, QJ_m, self.e_m)
 
@@ -941,10 +946,14 @@ class ProjectOutInverseCompositional(ProjectOut):
         if map_inference:
             return self.interface.solve_shape_map(
                 self.JQJ_m, self.QJ_m, self.e_m, self.s2_inv_L,
-                self.transform.as_vector())
+                self._map_parameters())
         else:
             return -self.pinv_QJ_m.dot(self.e_m)
 
+    def _map_parameters(self):
+        # inverse algorithms update the shape parameters to p - dp
+        return -self.transform.as_vector()
+
     def _update_warp(self):
         # update warp based on inverse composition
         self.transform._from_vector_inplace(
@@ -1080,7 +1089,7 @@ class Simultaneous(LucasKanade):
         if map_inference:
             return self.interface.solve_all_map(
                 H_sim_m, J_sim_m, self.e_m, self.s2_inv_S, self.c,
-                self.s2_inv_L, self.transform.as_vector())
+                self.s2_inv_L, self._map_parameters())
         else:
             return self.interface.solve_all_ml(H_sim_m, J_sim_m, self.e_m)
 
@@ -1114,6 +1123,10 @@ class SimultaneousInverseCompositional(Simultaneous):
         # return inverse Jacobian
         return self.interface.steepest_descent_images(-nabla_a, self.dW_dp)
 
+    def _map_parameters(self):
+        # inverse algorithms update the shape parameters to p - dp
+        return -self.transform.as_vector()
+
     def _update_warp(self):
         # update warp based on inverse composition
         self.transform._from_vector_inplace(
@@ -1220,7 +1233,7 @@ class Alternating(LucasKanade):
             if map_inference:
                 self.dp = self.interface.solve_shape_map(
                     H_m, J_m, e_m - self.A_m.dot(dc), self.s2_inv_L,
-                    self.transform.as_vector())
+                    self._map_parameters())
             else:
                 self.dp = self.interface.solve_shape_ml(H_m, J_m,
                                                         e_m - self.A_m.dot(dc))
@@ -1294,6 +1307,10 @@ class AlternatingInverseCompositional(Alternating):
         # return inverse Jacobian
         return self.interface.steepest_descent_images(-nabla_a, self.dW_dp)
 
+    def _map_parameters(self):
+        # inverse algorithms update the shape parameters to p - dp
+        return -self.transform.as_vector()
+
     def _update_warp(self):
         # update warp based on inverse composition
         self.transform._from_vector_inplace(
@@ -1387,7 +1404,7 @@ class ModifiedAlternating(Alternating):
             # solve for increments on the shape parameters
             if map_inference:
                 self.dp = self.interface.solve_shape_map(
-                    H_m, J_m, e_m, self.s2_inv_L, self.transform.as_vector())
+                    H_m, J_m, e_m, self.s2_inv_L, self._map_parameters())
             else:
                 self.dp = self.interface.solve_shape_ml(H_m, J_m, e_m)
 
@@ -1457,6 +1474,10 @@ class ModifiedAlternatingInverseCompositional(ModifiedAlternating):
         # return inverse Jacobian
         return self.interface.steepest_descent_images(-nabla_a, self.dW_dp)
 
+    def _map_parameters(self):
+        # inverse algorithms update the shape parameters to p - dp
+        return -self.transform.as_vector()
+
     def _update_warp(self):
         # update warp based on inverse composition
         self.transform._from_vector_inplace(
@@ -1554,7 +1575,7 @@ class Wiberg(LucasKanade):
             if map_inference:
                 self.dp = self.interface.solve_shape_map(
                     JQJ_m, QJ_m, e_m, self.s2_inv_L,
-                    self.transform.as_vector())
+                    self._map_parameters())
             else:
                 self.dp = self.interface.solve_shape_ml(JQJ_m, QJ_m, e_m)
 
@@ -1625,6 +1646,10 @@ class WibergInverseCompositional(Wiberg):
         # return inverse Jacobian
         return self.interface.steepest_descent_images(-nabla_a, self.dW_dp)
 
+    def _map_parameters(self):
+        # inverse algorithms update the shape parameters to p - dp
+        return -self.transform.as_vector()
+
     def _update_warp(self):
         # update warp based on inverse composition
         self.transform._from_vector_inplace(
-- 
2.43.0


From 91236a119b811e04d9252a7f11c5bae241da1fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 36/78] fix: MAP inference of the inverse ATM algorithm pulls
 the shape parameters to the prior

---
 menpofit/atm/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/atm/algorithm.py b/menpofit/atm/algorithm.py
index 39b3db8..301eb13 100644
--- a/menpofit/atm/algorithm.py
+++ b/menpofit/atm/algorithm.py
@@ -365,7 +365,7 @@ class InverseCompositional(Compositional):
         if map_inference:
             return self.interface.solve_shape_map(
                 self.JJ_m, self.J_m, self.e_m, self.s2_inv_L,
-                self.transform.as_vector())
+                -self.transform.as_vector())
         else:
             return -self.pinv_J_m.dot(self.e_m)
 
-- 
2.43.0


From e7c3956793eaf0286a0beefb64b165f3003f3dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 37/78] fix: patch based AAM and ATM fitters take a sampling
 step

---
 menpofit/aam/algorithm/lk.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/menpofit/aam/algorithm/lk.py b/menpofit/aam/algorithm/lk.py
index 652a47b..aece43c 100644
--- a/menpofit/aam/algorithm/lk.py
+++ b/menpofit/aam/algorithm/lk.py
@@ -474,6 +474,10 @@ class LucasKanadePatchBaseInterface(LucasKanadeBaseInterface):
     def _build_sampling_mask(self, sampling):
         if sampling is None:
             sampling = np.ones(self.patch_shape, dtype=bool)
+        elif isinstance(sampling, (int, np.integer)):
+            step = sampling
+            sampling = np.zeros(self.patch_shape, dtype=bool)
+            sampling.flat[::step] = True
 
         image_shape = self.template.pixels.shape
         image_mask = np.tile(sampling[None, None, None, ...],
-- 
2.43.0


From 16ebe8a108eb2a853da22380c46d9b9a0e4de9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 38/78] fix: APS fitters take a sampling step

---
 menpofit/aps/algorithm/gn.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/menpofit/aps/algorithm/gn.py b/menpofit/aps/algorithm/gn.py
index b6d6624..f90a9fb 100644
--- a/menpofit/aps/algorithm/gn.py
+++ b/menpofit/aps/algorithm/gn.py
@@ -54,6 +54,10 @@ class GaussNewtonBaseInterface(object):
     def _build_sampling_mask(self, sampling):
         if sampling is None:
             sampling = np.ones(self.patch_shape, dtype=bool)
+        elif isinstance(sampling, (int, np.integer)):
+            step = sampling
+            sampling = np.zeros(self.patch_shape, dtype=bool)
+            sampling.flat[::step] = True
 
         image_shape = self.template.pixels.shape
         image_mask = np.tile(sampling[None, None, None, ...],
-- 
2.43.0


From 42aad64c8c6adbedb9df3ecc3527818ab559c443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 39/78] fix: APS appearance costs with sampled patches

---
 menpofit/aps/algorithm/gn.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/menpofit/aps/algorithm/gn.py b/menpofit/aps/algorithm/gn.py
index f90a9fb..c91f541 100644
--- a/menpofit/aps/algorithm/gn.py
+++ b/menpofit/aps/algorithm/gn.py
@@ -427,8 +427,7 @@ class Inverse(GaussNewton):
         """
         # define cost closures
         def appearance_cost_closure(x):
-            return self.appearance_model._mahalanobis_distance(
-                x[..., None].T, subtract_mean=False, square_root=False)
+            return x.T.dot(self.Q_a.dot(x))
 
         def deformation_cost_closure(x):
             tmp_shape = x.from_vector(x.as_vector() -
@@ -565,8 +564,7 @@ class Forward(GaussNewton):
         """
         # define cost closures
         def appearance_cost_closure(x):
-            return self.appearance_model._mahalanobis_distance(
-                x[..., None].T, subtract_mean=False, square_root=False)
+            return x.T.dot(self.Q_a.dot(x))
 
         def deformation_cost_closure(x):
             tmp_shape = x.from_vector(x.as_vector() -
-- 
2.43.0


From 573572313c25fd34246770b5e6d97110c9725ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:35 +0000
Subject: [PATCH 40/78] fix: SDM training keeps every perturbed shape at all
 scales

With a bounding_box_group_glob the first scale trains on
n_boxes * (n_perturbations + 1) shapes per image, but only the first
n_perturbations of them were carried over to the next scales.
---
 menpofit/sdm/fitter.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/menpofit/sdm/fitter.py b/menpofit/sdm/fitter.py
index 3bae879..9e2d15e 100644
--- a/menpofit/sdm/fitter.py
+++ b/menpofit/sdm/fitter.py
@@ -319,10 +319,8 @@ class SupervisedDescentFitter(MultiScaleNonParametricFitter):
                 wrap = partial(print_progress, prefix=msg,
                                end_with_newline=False, verbose=verbose)
                 for ii in wrap(scaled_images):
-                    c_shapes = []
-                    for k in list(range(self.n_perturbations)):
-                        c_key = '__sdm_current_shape_{}'.format(k)
-                        c_shapes.append(ii.landmarks[c_key])
+                    c_shapes = [c_s for _, c_s in ii.landmarks.items_matching(
+                        '__sdm_current_shape_*')]
                     current_shapes.append(c_shapes)
 
             # Train supervised descent algorithm. This returns the shape
@@ -363,8 +361,8 @@ class SupervisedDescentFitter(MultiScaleNonParametricFitter):
                 # shape estimations attached. If yes, delete them.
                 if '__sdm_current_shape_0' in image_batch[0].landmarks:
                     for image in image_batch:
-                        for k in list(range(self.n_perturbations)):
-                            c_key = '__sdm_current_shape_{}'.format(k)
+                        for c_key in list(image.landmarks.keys_matching(
+                                '__sdm_current_shape_*')):
                             del image.landmarks[c_key]
 
     def increment(self, images, group=None, bounding_box_group_glob=None,
-- 
2.43.0


From 12fbbcfb6b73dd71a117bacece310db62af546d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:37 +0000
Subject: [PATCH 41/78] fix: SDM training reverts feature coordinates between
 scales

When the holistic features change from one scale to the next, the current
shapes were attached to the training images in the coordinates of the
feature images.
---
 menpofit/sdm/fitter.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/menpofit/sdm/fitter.py b/menpofit/sdm/fitter.py
index 9e2d15e..98a7871 100644
--- a/menpofit/sdm/fitter.py
+++ b/menpofit/sdm/fitter.py
@@ -5,6 +5,7 @@ import warnings
 
 from menpo.feature import no_op
 from menpo.base import name_of_callable
+from menpo.transform import AlignmentAffine
 
 from menpofit.visualize import print_progress
 from menpofit.base import batch
@@ -341,12 +342,17 @@ class SupervisedDescentFitter(MultiScaleNonParametricFitter):
             if j < (self.n_scales - 1):
                 if self.holistic_features[j + 1] != self.holistic_features[j]:
                     # Features will be extracted, thus attach current_shapes on
-                    # the training images (image_batch)
+                    # the training images (image_batch), reverting any change
+                    # of coordinates introduced by the current features
                     for jj, image_shapes in enumerate(current_shapes):
+                        affine_transform = AlignmentAffine(
+                            feature_images[jj].landmarks[group],
+                            image_batch[jj].landmarks[group])
                         for k, shape in enumerate(image_shapes):
                             c_key = '__sdm_current_shape_{}'.format(k)
                             image_batch[jj].landmarks[c_key] = \
-                                scale_transforms[jj].apply(shape)
+                                affine_transform.apply(
+                                    scale_transforms[jj].apply(shape))
                 else:
                     # Features won't be extracted;. the same feature_images will
                     # be used for the next scale, thus attach current_shapes on
-- 
2.43.0


From b4ccb6a6796a25822e706aa3f659abc7a343ec32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:29 +0000
Subject: [PATCH 42/78] fix: parametric SDM results include the reconstructed
 initial shape

ParametricIterativeResult expects the reconstruction of the initial shape
first; without it the first iteration was taken for it and n_iters was one
too small.
---
 menpofit/sdm/algorithm/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/menpofit/sdm/algorithm/base.py b/menpofit/sdm/algorithm/base.py
index 1bb8c1d..1b71973 100644
--- a/menpofit/sdm/algorithm/base.py
+++ b/menpofit/sdm/algorithm/base.py
@@ -574,7 +574,8 @@ def fit_parametric_shape(image, initial_shape, parametric_algorithm,
     parametric_algorithm.shape_model.set_target(initial_shape)
     current_shape = initial_shape.from_vector(
             parametric_algorithm.shape_model.target.as_vector().copy())
-    shapes = []
+    # The first shape is the model's reconstruction of the initial shape
+    shapes = [current_shape]
     shape_parameters = [parametric_algorithm.shape_model.as_vector()]
 
     # Cascaded Regression loop
-- 
2.43.0


From 57fe5cbbe35025458135d918a1c168aafa026fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 43/78] fix: crop to the full size along one axis no longer
 returns an empty array

---
 menpofit/math/fft_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/math/fft_utils.py b/menpofit/math/fft_utils.py
index 187d89b..75f5264 100644
--- a/menpofit/math/fft_utils.py
+++ b/menpofit/math/fft_utils.py
@@ -67,8 +67,8 @@ def crop(pixels, shape):
     w_corrector = 1 if np.remainder(w - shape[1], 2) != 0 else 0
 
     return pixels[...,
-                  h_margin + h_corrector:-h_margin,
-                  w_margin + w_corrector:-w_margin]
+                  h_margin + h_corrector:h - h_margin,
+                  w_margin + w_corrector:w - w_margin]
 
 
 # TODO: Document me!
-- 
2.43.0


From ed10c5a5437ef6a077410c155ee463246ce73455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 44/78] fix: fft_convolve2d computes linear, centred
 convolutions in every mode

---
 menpofit/math/fft_utils.py | 54 +++++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 15 deletions(-)

diff --git a/menpofit/math/fft_utils.py b/menpofit/math/fft_utils.py
index 75f5264..ba6c5d3 100644
--- a/menpofit/math/fft_utils.py
+++ b/menpofit/math/fft_utils.py
@@ -71,6 +71,27 @@ def crop(pixels, shape):
                   w_margin + w_corrector:w - w_margin]
 
 
+def padded_centre(shape, ext_shape):
+    r"""
+    Position of the central pixel (i.e. ``shape // 2``) of an array of the
+    given shape, once padded to ``ext_shape``.
+
+    Parameters
+    ----------
+    shape : (`int`, `int`)
+        The height and width of the array.
+    ext_shape : (`int`, `int`)
+        The height and width that the array is padded to (see :meth:`pad`).
+
+    Returns
+    -------
+    centre : (`int`, `int`)
+        The position of the central pixel in the padded array.
+    """
+    return tuple(int((e - s + 1) // 2 + s // 2)
+                 for s, e in zip(shape[-2:], ext_shape))
+
+
 # TODO: Document me!
 def ndconvolution(wrapped):
     r"""
@@ -122,6 +143,8 @@ def fft_convolve2d(x, f, mode='same', boundary='constant', fft_filter=False):
         filter channel.
     """
     if fft_filter:
+        x_shape = np.asarray(x.shape[-2:])
+        f_shape = ((np.asarray(f.shape[-2:]) + 1) / 1.5).astype(int)
         # extended shape is filter shape
         ext_shape = np.asarray(f.shape[-2:])
 
@@ -135,8 +158,7 @@ def fft_convolve2d(x, f, mode='same', boundary='constant', fft_filter=False):
         # extended shape
         x_shape = np.asarray(x.shape[-2:])
         f_shape = np.asarray(f.shape[-2:])
-        f_half_shape = (f_shape / 2).astype(int)
-        ext_shape = x_shape + f_half_shape - 1
+        ext_shape = x_shape + f_shape - 1
 
         # extend image and filter
         ext_x = pad(x, ext_shape, boundary=boundary)
@@ -150,14 +172,16 @@ def fft_convolve2d(x, f, mode='same', boundary='constant', fft_filter=False):
     fft_ext_c = fft_ext_f * fft_ext_x
 
     # compute ifft of extended convolution
-    ext_c = np.real(ifftshift(ifft2(fft_ext_c), axes=(-2, -1)))
+    h_centre, w_centre = padded_centre(x_shape, ext_shape)
+    ext_c = np.real(np.roll(ifft2(fft_ext_c), (-h_centre, -w_centre),
+                            axis=(-2, -1)))
 
-    if mode is 'full':
+    if mode == 'full':
         return ext_c
-    elif mode is 'same':
+    elif mode == 'same':
         return crop(ext_c, x_shape)
-    elif mode is 'valid':
-        return crop(ext_c, x_shape - f_half_shape + 1)
+    elif mode == 'valid':
+        return crop(ext_c, x_shape - f_shape + 1)
     else:
         raise ValueError(
             "mode={}, is not supported. The only supported "
@@ -205,7 +229,6 @@ def fft_convolve2d_sum(x, f, mode='same', boundary='constant',
         # extended shape is fft_ext_filter shape
         x_shape = np.asarray(x.shape[-2:])
         f_shape = ((np.asarray(fft_ext_f.shape[-2:]) + 1) / 1.5).astype(int)
-        f_half_shape = (f_shape / 2).astype(int)
         ext_shape = np.asarray(f.shape[-2:])
 
         # extend image and filter
@@ -217,8 +240,7 @@ def fft_convolve2d_sum(x, f, mode='same', boundary='constant',
         # extended shape
         x_shape = np.asarray(x.shape[-2:])
         f_shape = np.asarray(f.shape[-2:])
-        f_half_shape = (f_shape / 2).astype(int)
-        ext_shape = x_shape + f_half_shape - 1
+        ext_shape = x_shape + f_shape - 1
 
         # extend image and filter
         ext_x = pad(x, ext_shape, boundary=boundary)
@@ -232,14 +254,16 @@ def fft_convolve2d_sum(x, f, mode='same', boundary='constant',
     fft_ext_c = np.sum(fft_ext_f * fft_ext_x, axis=axis, keepdims=keepdims)
 
     # compute ifft of extended convolution
-    ext_c = np.real(ifftshift(ifft2(fft_ext_c), axes=(-2, -1)))
+    h_centre, w_centre = padded_centre(x_shape, ext_shape)
+    ext_c = np.real(np.roll(ifft2(fft_ext_c), (-h_centre, -w_centre),
+                            axis=(-2, -1)))
 
-    if mode is 'full':
+    if mode == 'full':
         return ext_c
-    elif mode is 'same':
+    elif mode == 'same':
         return crop(ext_c, x_shape)
-    elif mode is 'valid':
-        return crop(ext_c, x_shape - f_half_shape + 1)
+    elif mode == 'valid':
+        return crop(ext_c, x_shape - f_shape + 1)
     else:
         raise ValueError(
             "mode={}, is not supported. The only supported "
-- 
2.43.0


From 7ac3b9048bb49cccc9fa426d15ea99f07c765f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 45/78] fix: correlation filters are centred for odd sized
 samples

---
 menpofit/math/correlationfilter.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/menpofit/math/correlationfilter.py b/menpofit/math/correlationfilter.py
index 2b80d9e..f07310b 100644
--- a/menpofit/math/correlationfilter.py
+++ b/menpofit/math/correlationfilter.py
@@ -1,9 +1,9 @@
 import numpy as np
-from numpy.fft import fft2, ifft2, ifftshift
+from numpy.fft import fft2, ifft2
 from scipy.sparse import spdiags, eye as speye
 from scipy.sparse.linalg import spsolve
 
-from menpofit.math.fft_utils import pad, crop
+from menpofit.math.fft_utils import pad, crop, padded_centre
 
 
 def mosse(X, y, l=0.01, boundary='constant', crop_filter=True):
@@ -81,7 +81,8 @@ def mosse(X, y, l=0.01, boundary='constant', crop_filter=True):
     fft_ext_f = fft_ext_f.reshape((k, ext_h, ext_w))
 
     # compute extended filter inverse fft
-    f = np.real(ifftshift(ifft2(fft_ext_f), axes=(-2, -1)))
+    f = np.real(np.roll(ifft2(fft_ext_f), padded_centre(y_shape, ext_shape),
+                        axis=(-2, -1)))
 
     if crop_filter:
         # crop extended filter to match desired response shape
@@ -191,7 +192,8 @@ def imosse(A, B, n_ab, X, y, l=0.01, boundary='constant',
     fft_ext_f = fft_ext_f.reshape((k, ext_h, ext_w))
 
     # compute filter inverse fft
-    f = np.real(ifftshift(ifft2(fft_ext_f), axes=(-2, -1)))
+    f = np.real(np.roll(ifft2(fft_ext_f), padded_centre(y_shape, ext_shape),
+                        axis=(-2, -1)))
 
     if crop_filter:
         # crop extended filter to match desired response shape
@@ -284,7 +286,8 @@ def mccf(X, y, l=0.01, boundary='constant', crop_filter=True):
     fft_ext_f = fft_ext_f.reshape((k, ext_h, ext_w))
 
     # compute filter inverse fft
-    f = np.real(ifftshift(ifft2(fft_ext_f), axes=(-2, -1)))
+    f = np.real(np.roll(ifft2(fft_ext_f), padded_centre(y_shape, ext_shape),
+                        axis=(-2, -1)))
 
     if crop_filter:
         # crop extended filter to match desired response shape
@@ -406,7 +409,8 @@ def imccf(A, B, n_ab, X, y, l=0.01, boundary='constant', crop_filter=True,
     fft_ext_f = fft_ext_f.reshape((k, ext_h, ext_w))
 
     # compute filter inverse fft
-    f = np.real(ifftshift(ifft2(fft_ext_f), axes=(-2, -1)))
+    f = np.real(np.roll(ifft2(fft_ext_f), padded_centre(y_shape, ext_shape),
+                        axis=(-2, -1)))
     if crop_filter:
         # crop extended filter to match desired response shape
         f = crop(f, y_shape)
-- 
2.43.0


From c3bde393ea45ed57e2346ebd545a58bbddaf112f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 46/78] fix: incremental correlation filters weigh old and new
 samples equally

---
 menpofit/math/correlationfilter.py | 32 ++++++++----------------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/menpofit/math/correlationfilter.py b/menpofit/math/correlationfilter.py
index f07310b..e4b7c6b 100644
--- a/menpofit/math/correlationfilter.py
+++ b/menpofit/math/correlationfilter.py
@@ -105,7 +105,7 @@ def imosse(A, B, n_ab, X, y, l=0.01, boundary='constant',
         The current cross-correlation array, where
         ``N = (patch_h+response_h-1) * (patch_w+response_w-1) * n_channels``.
     n_ab : `int`
-        The current number of images.
+        The current number of images (``A`` and ``B`` are their sums).
     X : ``(n_images, n_channels, image_h, image_w)`` `ndarray`
         The training images (patches).
     y : ``(1, response_h, response_w)`` `ndarray`
@@ -149,15 +149,6 @@ def imosse(A, B, n_ab, X, y, l=0.01, boundary='constant',
     _, hy, wy = y.shape
     y_shape = (hy, wy)
 
-    # multiply the number of samples used to produce the auto and cross
-    # spectral energy matrices A and B by forgetting factor
-    n_ab *= f
-    # total number of samples
-    n = n_ab + n_x
-    # compute weighting factors
-    nu_ab = n_ab / n
-    nu_x = n_x / n
-
     # extended shape
     ext_h = hz + hy - 1
     ext_w = wz + wy - 1
@@ -184,8 +175,9 @@ def imosse(A, B, n_ab, X, y, l=0.01, boundary='constant',
         sXY += fft_ext_x.conj() * fft_ext_y
 
     # combine old and new auto and cross spectral energy matrices
-    sXY = nu_ab * A + nu_x * sXY
-    sXX = nu_ab * B + nu_x * sXX
+    # (A and B are sums over the old samples, sXY and sXX over the new ones)
+    sXY = f * A + sXY
+    sXX = f * B + sXX
     # compute desired correlation filter
     fft_ext_f = sXY / (sXX + l)
     # reshape extended filter to extended image shape
@@ -310,7 +302,7 @@ def imccf(A, B, n_ab, X, y, l=0.01, boundary='constant', crop_filter=True,
         The current cross-correlation array, where
         ``N = (patch_h+response_h-1) * (patch_w+response_w-1) * n_channels``.
     n_ab : `int`
-        The current number of images.
+        The current number of images (``A`` and ``B`` are their sums).
     X : ``(n_images, n_channels, image_h, image_w)`` `ndarray`
         The training images (patches).
     y : ``(1, response_h, response_w)`` `ndarray`
@@ -357,15 +349,6 @@ def imccf(A, B, n_ab, X, y, l=0.01, boundary='constant', crop_filter=True,
     _, hy, wy = y.shape
     y_shape = (hy, wy)
 
-    # multiply the number of samples used to produce the auto and cross
-    # spectral energy matrices A and B by forgetting factor
-    n_ab *= f
-    # total number of samples
-    n = n_ab + n_x
-    # compute weighting factors
-    nu_ab = n_ab / n
-    nu_x = n_x / n
-
     # extended shape
     ext_h = hz + hy - 1
     ext_w = wz + wy - 1
@@ -400,8 +383,9 @@ def imccf(A, B, n_ab, X, y, l=0.01, boundary='constant', crop_filter=True,
         sXY += diag_fft_x.conj().T.dot(diag_fft_y)
 
     # combine old and new auto and cross spectral energy matrices
-    sXY = nu_ab * A + nu_x * sXY
-    sXX = nu_ab * B + nu_x * sXX
+    # (A and B are sums over the old samples, sXY and sXX over the new ones)
+    sXY = f * A + sXY
+    sXX = f * B + sXX
     # solve ext_d independent k x k linear systems (with regularization)
     # to obtain desired extended multi-channel correlation filter
     fft_ext_f = spsolve(sXX + l * speye(sXX.shape[-1]), sXY)
-- 
2.43.0


From 2c7365443c5b520c07f880b475f9edeb969e3c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 47/78] fix: expert responses do not wrap around the patch
 border

---
 menpofit/clm/expert/ensemble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/clm/expert/ensemble.py b/menpofit/clm/expert/ensemble.py
index c19f058..1aeecb5 100644
--- a/menpofit/clm/expert/ensemble.py
+++ b/menpofit/clm/expert/ensemble.py
@@ -122,7 +122,7 @@ class ConvolutionBasedExpertEnsemble(ExpertEnsemble):
 
         :type: (`int`, `int`)
         """
-        pad_size = np.floor(1.5 * np.asarray(self.patch_shape) - 1).astype(int)
+        pad_size = np.floor(1.5 * np.asarray(self.patch_shape)).astype(int)
         return tuple(pad_size)
 
     @property
-- 
2.43.0


From ef465af7d3732f2e158705bbd8391fe29c458ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 48/78] fix: probability_map of constant responses, and without
 changing its input

---
 menpofit/clm/expert/base.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/menpofit/clm/expert/base.py b/menpofit/clm/expert/base.py
index 6864605..5acedc3 100644
--- a/menpofit/clm/expert/base.py
+++ b/menpofit/clm/expert/base.py
@@ -22,16 +22,16 @@ def probability_map(x, axes=(-2, -1)):
     probability_map : `menpo.image.Image` or ``(C, X, Y, ..., Z)`` `ndarray`
         The probability MAP of the image.
     """
-    x -= np.min(x, axis=axes, keepdims=True)
+    x = x - np.min(x, axis=axes, keepdims=True)
     total = np.sum(x, axis=axes, keepdims=True)
     nonzero = total > 0
     if np.any(~nonzero):
         warnings.warn('some of x axes have 0 variance - uniform probability '
                       'maps are used them.')
-        x[nonzero] /= total[nonzero]
-        x[~nonzero] = 1 / np.prod(axes)
-    else:
-        x /= total
+        n_elements = np.prod([x.shape[a] for a in axes])
+        x = np.where(nonzero, x, 1)
+        total = np.where(nonzero, total, n_elements)
+    x = x / total
     return x
 
 
-- 
2.43.0


From b77c4771d93851c3530bd701bd801653eec60aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 49/78] fix: n_sample_offsets with an array of offsets

---
 menpofit/clm/expert/ensemble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/clm/expert/ensemble.py b/menpofit/clm/expert/ensemble.py
index 1aeecb5..18c6cf8 100644
--- a/menpofit/clm/expert/ensemble.py
+++ b/menpofit/clm/expert/ensemble.py
@@ -110,7 +110,7 @@ class ConvolutionBasedExpertEnsemble(ExpertEnsemble):
 
         :type: `int`
         """
-        if self.sample_offsets:
+        if self.sample_offsets is not None:
             return self.sample_offsets.shape[0]
         else:
             return 1
-- 
2.43.0


From d30bdf575057d1b0de01262d700071369808b532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 50/78] fix: active shape model centres its Gaussian on the
 best response

---
 menpofit/clm/algorithm/gd.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/menpofit/clm/algorithm/gd.py b/menpofit/clm/algorithm/gd.py
index 3db9cac..a966f75 100644
--- a/menpofit/clm/algorithm/gd.py
+++ b/menpofit/clm/algorithm/gd.py
@@ -95,8 +95,8 @@ class ActiveShapeModel(GradientDescentCLMAlgorithm):
         super(ActiveShapeModel, self)._precompute()
 
         # Build grid associated to size of the search space
-        self.half_search_shape = np.round(
-            np.asarray(self.expert_ensemble.search_shape) / 2).astype(np.int64)
+        self.half_search_shape = np.asarray(
+            self.expert_ensemble.search_shape, dtype=np.int64) // 2
         self.search_grid = self.search_grid[None, None]
 
         # Compute Gaussian-KDE grid
@@ -168,7 +168,7 @@ class ActiveShapeModel(GradientDescentCLMAlgorithm):
             max_indices = np.hstack((max_indices[0], max_indices[1]))
             max_indices = max_indices[:, None, None, None, ...]
             max_indices -= self.half_search_shape
-            gaussian_responses = self.mvn.pdf(max_indices + self.search_grid)
+            gaussian_responses = self.mvn.pdf(self.search_grid - max_indices)
             # Normalise smoothed responses
             gaussian_responses /= np.sum(gaussian_responses,
                                          axis=(-2, -1))[..., None, None]
@@ -178,7 +178,7 @@ class ActiveShapeModel(GradientDescentCLMAlgorithm):
                                 candidate_landmarks, axis=(-3, -2))
 
             # Compute shape error term
-            error = target.as_vector() - new_target.ravel()
+            error = new_target.ravel() - target.as_vector()
 
             # Solve for increments on the shape parameters
             if map_inference:
-- 
2.43.0


From a1a1a865d692af66627aab339d882d3cf8715c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 51/78] fix: CLM accepts a single scale

---
 menpofit/clm/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/clm/base.py b/menpofit/clm/base.py
index dab51f4..b7bf887 100644
--- a/menpofit/clm/base.py
+++ b/menpofit/clm/base.py
@@ -126,7 +126,7 @@ class CLM(object):
         batch_size=None,
     ):
         self.scales = checks.check_scales(scales)
-        n_scales = len(scales)
+        n_scales = len(self.scales)
         self.diagonal = checks.check_diagonal(diagonal)
         self.holistic_features = checks.check_callable(holistic_features, n_scales)
         self.expert_ensemble_cls = checks.check_callable(expert_ensemble_cls, n_scales)
-- 
2.43.0


From 9cabf33d8759c314647a0b63c9f6588bdbe6876e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:11 +0000
Subject: [PATCH 52/78] fix: fitters are pre-computed at the mean shape,
 whatever was fitted before

---
 menpofit/aam/fitter.py             |  4 +++-
 menpofit/aps/fitter.py             |  3 ++-
 menpofit/atm/fitter.py             |  3 ++-
 menpofit/clm/fitter.py             |  3 ++-
 menpofit/fitter.py                 | 16 ++++++++++++++++
 menpofit/unified_aam_clm/fitter.py |  3 ++-
 6 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/menpofit/aam/fitter.py b/menpofit/aam/fitter.py
index 13e636a..47ef570 100644
--- a/menpofit/aam/fitter.py
+++ b/menpofit/aam/fitter.py
@@ -5,7 +5,7 @@ from menpo.base import name_of_callable
 from menpo.transform import AlignmentUniformScale
 from menpo.image import BooleanImage
 
-from menpofit.fitter import (MultiScaleParametricFitter,
+from menpofit.fitter import (MultiScaleParametricFitter, reset_shape_models,
                              noisy_shape_from_bounding_box)
 from menpofit.sdm import SupervisedDescentFitter
 import menpofit.checks as checks
@@ -146,6 +146,7 @@ class LucasKanadeAAMFitter(AAMFitter):
                  n_shape=None, n_appearance=None, sampling=None):
         # Check parameters
         checks.set_models_components(aam.shape_models, n_shape)
+        reset_shape_models(aam.shape_models)
         checks.set_models_components(aam.appearance_models, n_appearance)
         self._sampling = checks.check_sampling(sampling, aam.n_scales)
 
@@ -315,6 +316,7 @@ class SupervisedDescentAAMFitter(SupervisedDescentFitter):
         self.aam = aam
         # Check parameters
         checks.set_models_components(aam.shape_models, n_shape)
+        reset_shape_models(aam.shape_models)
         checks.set_models_components(aam.appearance_models, n_appearance)
         self._sampling = checks.check_sampling(sampling, aam.n_scales)
 
diff --git a/menpofit/aps/fitter.py b/menpofit/aps/fitter.py
index 4e5c4db..7aff71c 100644
--- a/menpofit/aps/fitter.py
+++ b/menpofit/aps/fitter.py
@@ -1,4 +1,4 @@
-from menpofit.fitter import MultiScaleParametricFitter
+from menpofit.fitter import MultiScaleParametricFitter, reset_shape_models
 import menpofit.checks as checks
 
 from .result import APSResult
@@ -144,6 +144,7 @@ class GaussNewtonAPSFitter(APSFitter):
                  weight=200., sampling=None):
         # Check parameters
         checks.set_models_components(aps.shape_models, n_shape)
+        reset_shape_models(aps.shape_models)
         self._sampling = checks.check_sampling(sampling, aps.n_scales)
         self.weight = checks.check_multi_scale_param(
             aps.n_scales, (float, int), 'weight', weight)
diff --git a/menpofit/atm/fitter.py b/menpofit/atm/fitter.py
index 679565b..8259882 100644
--- a/menpofit/atm/fitter.py
+++ b/menpofit/atm/fitter.py
@@ -1,5 +1,5 @@
 from menpofit import checks
-from menpofit.fitter import MultiScaleParametricFitter
+from menpofit.fitter import MultiScaleParametricFitter, reset_shape_models
 
 from .algorithm import InverseCompositional
 
@@ -46,6 +46,7 @@ class LucasKanadeATMFitter(MultiScaleParametricFitter):
 
         # Check parameters
         checks.set_models_components(atm.shape_models, n_shape)
+        reset_shape_models(atm.shape_models)
         self._sampling = checks.check_sampling(sampling, atm.n_scales)
 
         # Get list of algorithm objects per scale
diff --git a/menpofit/clm/fitter.py b/menpofit/clm/fitter.py
index c686a70..c318f97 100644
--- a/menpofit/clm/fitter.py
+++ b/menpofit/clm/fitter.py
@@ -1,4 +1,4 @@
-from menpofit.fitter import MultiScaleParametricFitter
+from menpofit.fitter import MultiScaleParametricFitter, reset_shape_models
 from menpofit import checks
 
 from .algorithm import RegularisedLandmarkMeanShift
@@ -76,6 +76,7 @@ class GradientDescentCLMFitter(CLMFitter):
 
         # Check parameter
         checks.set_models_components(clm.shape_models, n_shape)
+        reset_shape_models(clm.shape_models)
 
         # Get list of algorithm objects per scale
         algorithms = [gd_algorithm_cls(clm.expert_ensembles[i],
diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index 1690813..21da248 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -31,6 +31,22 @@ def raise_costs_warning(cls):
                   MenpoFitCostsWarning)
 
 
+def reset_shape_models(shape_models):
+    r"""
+    Method that brings the given shape models back to their mean shape, which
+    is the state at which the fitting algorithms must be pre-computed. The
+    shape models are shared by all the fitters of a deformable model, hence
+    they may hold the final state of a previous fitting.
+
+    Parameters
+    ----------
+    shape_models : `list` of `subclass` of :map:`PDM`
+        The shape models (one per scale).
+    """
+    for shape_model in shape_models:
+        shape_model.set_target(shape_model.model.mean())
+
+
 def noisy_alignment_similarity_transform(source, target, noise_type='uniform',
                                          noise_percentage=0.1,
                                          allow_alignment_rotation=False):
diff --git a/menpofit/unified_aam_clm/fitter.py b/menpofit/unified_aam_clm/fitter.py
index d83de4e..b76acca 100644
--- a/menpofit/unified_aam_clm/fitter.py
+++ b/menpofit/unified_aam_clm/fitter.py
@@ -1,6 +1,6 @@
 from menpo.base import name_of_callable
 from menpofit import checks
-from menpofit.fitter import MultiScaleParametricFitter
+from menpofit.fitter import MultiScaleParametricFitter, reset_shape_models
 
 from .algorithm import AlternatingRegularisedLandmarkMeanShift
 from .result import UnifiedAAMCLMResult
@@ -64,6 +64,7 @@ class UnifiedAAMCLMFitter(MultiScaleParametricFitter):
         self._model = unified_aam_clm
         # Check parameters
         checks.set_models_components(self._model.shape_models, n_shape)
+        reset_shape_models(self._model.shape_models)
         checks.set_models_components(self._model.appearance_models,
                                      n_appearance)
         self._sampling = checks.check_sampling(sampling, self._model.n_scales)
-- 
2.43.0


From 86ba79bcdf76562f93fc23a916d42fab5a83c323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:11 +0000
Subject: [PATCH 53/78] fix: appearance reconstructions of fittings with more
 than two scales

---
 menpofit/aam/base.py             | 4 ++--
 menpofit/unified_aam_clm/base.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/menpofit/aam/base.py b/menpofit/aam/base.py
index 4a6046b..5142127 100644
--- a/menpofit/aam/base.py
+++ b/menpofit/aam/base.py
@@ -557,7 +557,7 @@ class AAM(object):
             for c in appearance_parameters[previous : previous + n_iters + 1]:
                 instance = self.appearance_models[scale].instance(c)
                 appearance_reconstructions.append(instance)
-            previous = n_iters + 1
+            previous += n_iters + 1
         return appearance_reconstructions
 
     def __str__(self):
@@ -1250,7 +1250,7 @@ class PatchAAM(AAM):
             for c in appearance_parameters[previous : previous + n_iters + 1]:
                 instance = self.appearance_models[scale].instance(c).pixels
                 appearance_reconstructions.append(instance)
-            previous = n_iters + 1
+            previous += n_iters + 1
         return appearance_reconstructions
 
     def __str__(self):
diff --git a/menpofit/unified_aam_clm/base.py b/menpofit/unified_aam_clm/base.py
index 9917a09..3699335 100644
--- a/menpofit/unified_aam_clm/base.py
+++ b/menpofit/unified_aam_clm/base.py
@@ -483,7 +483,7 @@ class UnifiedAAMCLM(object):
             for c in appearance_parameters[previous : previous + n_iters + 1]:
                 instance = self.appearance_models[scale].instance(c)
                 appearance_reconstructions.append(instance)
-            previous = n_iters + 1
+            previous += n_iters + 1
         return appearance_reconstructions
 
     def __str__(self):
-- 
2.43.0


From 4465a75f06063f360a45f276d6ef4dc9727848a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:11 +0000
Subject: [PATCH 54/78] fix: random AAM instances draw one weight per
 appearance component

---
 menpofit/aam/base.py             | 2 +-
 menpofit/unified_aam_clm/base.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/aam/base.py b/menpofit/aam/base.py
index 5142127..cf5bd13 100644
--- a/menpofit/aam/base.py
+++ b/menpofit/aam/base.py
@@ -479,7 +479,7 @@ class AAM(object):
         # TODO: this bit of logic should to be transferred down to PCAModel
         shape_weights = np.random.randn(sm.n_active_components)
         shape_instance = sm.instance(shape_weights, normalized_weights=True)
-        appearance_weights = np.random.randn(sm.n_active_components)
+        appearance_weights = np.random.randn(am.n_active_components)
         appearance_instance = am.instance(appearance_weights, normalized_weights=True)
 
         return self._instance(scale_index, shape_instance, appearance_instance)
diff --git a/menpofit/unified_aam_clm/base.py b/menpofit/unified_aam_clm/base.py
index 3699335..f6c12e6 100644
--- a/menpofit/unified_aam_clm/base.py
+++ b/menpofit/unified_aam_clm/base.py
@@ -405,7 +405,7 @@ class UnifiedAAMCLM(object):
         # TODO: this bit of logic should to be transferred down to PCAModel
         shape_weights = np.random.randn(sm.n_active_components)
         shape_instance = sm.instance(shape_weights, normalized_weights=True)
-        appearance_weights = np.random.randn(sm.n_active_components)
+        appearance_weights = np.random.randn(am.n_active_components)
         appearance_instance = am.instance(appearance_weights, normalized_weights=True)
 
         return self._instance(scale_index, shape_instance, appearance_instance)
-- 
2.43.0


From 71e4f759a4772058497a9a7ded2a5c8877ed25f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:26 +0000
Subject: [PATCH 55/78] fix: linear AAMs and ATMs keep one reference frame per
 scale

---
 menpofit/aam/base.py | 28 +++++++++++++++++++---------
 menpofit/atm/base.py | 28 +++++++++++++++++++---------
 2 files changed, 38 insertions(+), 18 deletions(-)

diff --git a/menpofit/aam/base.py b/menpofit/aam/base.py
index cf5bd13..2eea91b 100644
--- a/menpofit/aam/base.py
+++ b/menpofit/aam/base.py
@@ -781,6 +781,8 @@ class LinearAAM(AAM):
         verbose=False,
         batch_size=None,
     ):
+        # one reference frame per scale
+        self.reference_frames = []
         super(LinearAAM, self).__init__(
             images,
             group=group,
@@ -807,8 +809,10 @@ class LinearAAM(AAM):
     def _build_shape_model(self, shapes, scale_index):
         mean_aligned_shape = mean_pointcloud(align_shapes(shapes))
         self.n_landmarks = mean_aligned_shape.n_points
-        self.reference_frame = build_reference_frame(mean_aligned_shape)
-        dense_shapes = densify_shapes(shapes, self.reference_frame, self.transform)
+        self.reference_frames.append(build_reference_frame(mean_aligned_shape))
+        dense_shapes = densify_shapes(
+            shapes, self.reference_frames[scale_index], self.transform
+        )
 
         # Build dense shape model
         max_sc = self.max_shape_components[scale_index]
@@ -817,7 +821,7 @@ class LinearAAM(AAM):
     def _increment_shape_model(self, shapes, scale_index, forgetting_factor=1.0):
         aligned_shapes = align_shapes(shapes)
         dense_shapes = densify_shapes(
-            aligned_shapes, self.reference_frame, self.transform
+            aligned_shapes, self.reference_frames[scale_index], self.transform
         )
         # Increment shape model
         self.shape_models[scale_index].increment(
@@ -832,7 +836,7 @@ class LinearAAM(AAM):
         return warp_images(
             images,
             shapes,
-            self.reference_frame,
+            self.reference_frames[scale_index],
             self.transform,
             prefix=prefix,
             verbose=verbose,
@@ -959,6 +963,8 @@ class LinearMaskedAAM(AAM):
         n_scales = len(checks.check_scales(scales))
         self.patch_shape = checks.check_patch_shape(patch_shape, n_scales)
         # Call superclass
+        # one reference frame per scale
+        self.reference_frames = []
         super(LinearMaskedAAM, self).__init__(
             images,
             group=group,
@@ -985,10 +991,14 @@ class LinearMaskedAAM(AAM):
     def _build_shape_model(self, shapes, scale_index):
         mean_aligned_shape = mean_pointcloud(align_shapes(shapes))
         self.n_landmarks = mean_aligned_shape.n_points
-        self.reference_frame = build_patch_reference_frame(
-            mean_aligned_shape, patch_shape=self.patch_shape[scale_index]
+        self.reference_frames.append(
+            build_patch_reference_frame(
+                mean_aligned_shape, patch_shape=self.patch_shape[scale_index]
+            )
+        )
+        dense_shapes = densify_shapes(
+            shapes, self.reference_frames[scale_index], self.transform
         )
-        dense_shapes = densify_shapes(shapes, self.reference_frame, self.transform)
         # Build dense shape model
         max_sc = self.max_shape_components[scale_index]
         return self._shape_model_cls[scale_index](dense_shapes, max_n_components=max_sc)
@@ -996,7 +1006,7 @@ class LinearMaskedAAM(AAM):
     def _increment_shape_model(self, shapes, scale_index, forgetting_factor=1.0):
         aligned_shapes = align_shapes(shapes)
         dense_shapes = densify_shapes(
-            aligned_shapes, self.reference_frame, self.transform
+            aligned_shapes, self.reference_frames[scale_index], self.transform
         )
         # Increment shape model
         self.shape_models[scale_index].increment(
@@ -1011,7 +1021,7 @@ class LinearMaskedAAM(AAM):
         return warp_images(
             images,
             shapes,
-            self.reference_frame,
+            self.reference_frames[scale_index],
             self.transform,
             prefix=prefix,
             verbose=verbose,
diff --git a/menpofit/atm/base.py b/menpofit/atm/base.py
index 72cbadd..ddb36a9 100644
--- a/menpofit/atm/base.py
+++ b/menpofit/atm/base.py
@@ -660,6 +660,8 @@ class LinearATM(ATM):
         verbose=False,
         batch_size=None,
     ):
+        # one reference frame per scale
+        self.reference_frames = []
         super(LinearATM, self).__init__(
             template,
             shapes,
@@ -685,8 +687,10 @@ class LinearATM(ATM):
     def _build_shape_model(self, shapes, scale_index):
         mean_aligned_shape = mean_pointcloud(align_shapes(shapes))
         self.n_landmarks = mean_aligned_shape.n_points
-        self.reference_frame = build_reference_frame(mean_aligned_shape)
-        dense_shapes = densify_shapes(shapes, self.reference_frame, self.transform)
+        self.reference_frames.append(build_reference_frame(mean_aligned_shape))
+        dense_shapes = densify_shapes(
+            shapes, self.reference_frames[scale_index], self.transform
+        )
 
         # Build dense shape model
         max_sc = self.max_shape_components[scale_index]
@@ -695,7 +699,7 @@ class LinearATM(ATM):
     def _increment_shape_model(self, shapes, scale_index, forgetting_factor=1.0):
         aligned_shapes = align_shapes(shapes)
         dense_shapes = densify_shapes(
-            aligned_shapes, self.reference_frame, self.transform
+            aligned_shapes, self.reference_frames[scale_index], self.transform
         )
         # Increment shape model
         self.shape_models[scale_index].increment(
@@ -711,7 +715,7 @@ class LinearATM(ATM):
         return warp_images(
             [template],
             [shape],
-            self.reference_frame,
+            self.reference_frames[scale_index],
             self.transform,
             prefix=prefix,
             verbose=verbose,
@@ -823,6 +827,8 @@ class LinearMaskedATM(ATM):
         # Check arguments
         self.patch_shape = checks.check_patch_shape(patch_shape, len(scales))
         # Call superclass
+        # one reference frame per scale
+        self.reference_frames = []
         super(LinearMaskedATM, self).__init__(
             template,
             shapes,
@@ -848,10 +854,14 @@ class LinearMaskedATM(ATM):
     def _build_shape_model(self, shapes, scale_index):
         mean_aligned_shape = mean_pointcloud(align_shapes(shapes))
         self.n_landmarks = mean_aligned_shape.n_points
-        self.reference_frame = build_patch_reference_frame(
-            mean_aligned_shape, patch_shape=self.patch_shape[scale_index]
+        self.reference_frames.append(
+            build_patch_reference_frame(
+                mean_aligned_shape, patch_shape=self.patch_shape[scale_index]
+            )
+        )
+        dense_shapes = densify_shapes(
+            shapes, self.reference_frames[scale_index], self.transform
         )
-        dense_shapes = densify_shapes(shapes, self.reference_frame, self.transform)
         # Build dense shape model
         max_sc = self.max_shape_components[scale_index]
         return self._shape_model_cls[scale_index](dense_shapes, max_n_components=max_sc)
@@ -859,7 +869,7 @@ class LinearMaskedATM(ATM):
     def _increment_shape_model(self, shapes, scale_index, forgetting_factor=1.0):
         aligned_shapes = align_shapes(shapes)
         dense_shapes = densify_shapes(
-            aligned_shapes, self.reference_frame, self.transform
+            aligned_shapes, self.reference_frames[scale_index], self.transform
         )
         # Increment shape model
         self.shape_models[scale_index].increment(
@@ -875,7 +885,7 @@ class LinearMaskedATM(ATM):
         return warp_images(
             [template],
             [shape],
-            self.reference_frame,
+            self.reference_frames[scale_index],
             self.transform,
             prefix=prefix,
             verbose=verbose,
-- 
2.43.0


From 7188ba419d2689cd72ff15ed073aef061b792fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:26 +0000
Subject: [PATCH 56/78] fix: ATM accepts a single scale

---
 menpofit/atm/base.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/menpofit/atm/base.py b/menpofit/atm/base.py
index ddb36a9..7c01d3b 100644
--- a/menpofit/atm/base.py
+++ b/menpofit/atm/base.py
@@ -119,8 +119,8 @@ class ATM(object):
     ):
         # Check arguments
         checks.check_diagonal(diagonal)
-        n_scales = len(scales)
         scales = checks.check_scales(scales)
+        n_scales = len(scales)
         holistic_features = checks.check_callable(holistic_features, n_scales)
         max_shape_components = checks.check_max_components(
             max_shape_components, n_scales, "max_shape_components"
@@ -537,7 +537,9 @@ class MaskedATM(ATM):
         batch_size=None,
     ):
         # Check arguments
-        self.patch_shape = checks.check_patch_shape(patch_shape, len(scales))
+        self.patch_shape = checks.check_patch_shape(
+            patch_shape, len(checks.check_scales(scales))
+        )
         # Call superclass
         super(MaskedATM, self).__init__(
             template,
@@ -825,7 +827,9 @@ class LinearMaskedATM(ATM):
         batch_size=None,
     ):
         # Check arguments
-        self.patch_shape = checks.check_patch_shape(patch_shape, len(scales))
+        self.patch_shape = checks.check_patch_shape(
+            patch_shape, len(checks.check_scales(scales))
+        )
         # Call superclass
         # one reference frame per scale
         self.reference_frames = []
@@ -996,7 +1000,9 @@ class PatchATM(ATM):
         batch_size=None,
     ):
         # Check arguments
-        self.patch_shape = checks.check_patch_shape(patch_shape, len(scales))
+        self.patch_shape = checks.check_patch_shape(
+            patch_shape, len(checks.check_scales(scales))
+        )
         self.patch_normalisation = patch_normalisation
         # Call superclass
         super(PatchATM, self).__init__(
-- 
2.43.0


From 5db4395b0b2c2c2cf056f5bd599c0d0b9400e8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:37 +0000
Subject: [PATCH 57/78] fix: masked ATM instances use the patch shape of their
 scale

---
 menpofit/atm/base.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/menpofit/atm/base.py b/menpofit/atm/base.py
index 7c01d3b..4a378e7 100644
--- a/menpofit/atm/base.py
+++ b/menpofit/atm/base.py
@@ -399,7 +399,7 @@ class ATM(object):
         template = self.warped_templates[scale_index]
 
         shape_instance = sm.instance(shape_weights, normalized_weights=True)
-        return self._instance(shape_instance, template)
+        return self._instance(scale_index, shape_instance, template)
 
     def random_instance(self, scale_index=-1):
         r"""
@@ -422,9 +422,9 @@ class ATM(object):
         shape_weights = np.random.randn(sm.n_active_components)
         shape_instance = sm.instance(shape_weights, normalized_weights=True)
 
-        return self._instance(shape_instance, template)
+        return self._instance(scale_index, shape_instance, template)
 
-    def _instance(self, shape_instance, template):
+    def _instance(self, scale_index, shape_instance, template):
         landmarks = template.landmarks["source"]
 
         reference_frame = build_reference_frame(shape_instance)
@@ -575,11 +575,11 @@ class MaskedATM(ATM):
     def _str_title(self):
         return "Masked Active Template Model"
 
-    def _instance(self, shape_instance, template):
+    def _instance(self, scale_index, shape_instance, template):
         landmarks = template.landmarks["source"]
 
         reference_frame = build_patch_reference_frame(
-            shape_instance, patch_shape=self.patch_shape
+            shape_instance, patch_shape=self.patch_shape[scale_index]
         )
 
         transform = self.transform(reference_frame.landmarks["source"], landmarks)
@@ -724,7 +724,7 @@ class LinearATM(ATM):
         )
 
     # TODO: implement me!
-    def _instance(self, shape_instance, template):
+    def _instance(self, scale_index, shape_instance, template):
         raise NotImplementedError()
 
     def build_fitter_interfaces(self, sampling):
@@ -896,7 +896,7 @@ class LinearMaskedATM(ATM):
         )
 
     # TODO: implement me!
-    def _instance(self, shape_instance, template):
+    def _instance(self, scale_index, shape_instance, template):
         raise NotImplementedError()
 
     def build_fitter_interfaces(self, sampling):
@@ -1040,7 +1040,7 @@ class PatchATM(ATM):
             verbose=verbose,
         )
 
-    def _instance(self, shape_instance, template):
+    def _instance(self, scale_index, shape_instance, template):
         return shape_instance, template
 
     def build_fitter_interfaces(self, sampling):
-- 
2.43.0


From 7e077a4ae1cee696d0694fe6b716f3cf5169fa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:46 +0000
Subject: [PATCH 58/78] fix: incremented ATMs keep one template per scale

---
 menpofit/atm/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/menpofit/atm/base.py b/menpofit/atm/base.py
index 4a378e7..dc6c0ec 100644
--- a/menpofit/atm/base.py
+++ b/menpofit/atm/base.py
@@ -282,7 +282,10 @@ class ATM(object):
                 scale_prefix,
                 verbose,
             )
-            self.warped_templates.append(warped_template[0])
+            if not increment:
+                self.warped_templates.append(warped_template[0])
+            else:
+                self.warped_templates[j] = warped_template[0]
 
             if verbose:
                 print_dynamic("{}Done\n".format(scale_prefix))
-- 
2.43.0


From 7c92479cc43542ce9e4e9d103e1ed4b273d709a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:31 +0000
Subject: [PATCH 59/78] fix: unified AAM-CLM uses the given reference shape

---
 menpofit/unified_aam_clm/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/menpofit/unified_aam_clm/base.py b/menpofit/unified_aam_clm/base.py
index f6c12e6..7575e74 100644
--- a/menpofit/unified_aam_clm/base.py
+++ b/menpofit/unified_aam_clm/base.py
@@ -203,9 +203,11 @@ class UnifiedAAMCLM(object):
 
     def _train(self, images, group=None, verbose=False):
         checks.check_landmark_trilist(images[0], self.transform, group=group)
-        self.reference_shape = compute_reference_shape(
-            [i.landmarks[group] for i in images], self.diagonal, verbose=verbose
-        )
+        if self.reference_shape is None:
+            # If no reference shape was given, use the mean of the images
+            self.reference_shape = compute_reference_shape(
+                [i.landmarks[group] for i in images], self.diagonal, verbose=verbose
+            )
 
         # normalize images
         images = rescale_images_to_reference_shape(
-- 
2.43.0


From b9a20d26502be07dbb2dc3042ae8d68150f3ef83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:31 +0000
Subject: [PATCH 60/78] fix: unified AAM-CLM uses the given reference frame
 boundary

---
 menpofit/unified_aam_clm/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/unified_aam_clm/base.py b/menpofit/unified_aam_clm/base.py
index 7575e74..3fcb334 100644
--- a/menpofit/unified_aam_clm/base.py
+++ b/menpofit/unified_aam_clm/base.py
@@ -191,7 +191,7 @@ class UnifiedAAMCLM(object):
     def _warp_images(
         self, images, shapes, reference_shape, scale_index, prefix, verbose
     ):
-        reference_frame = build_reference_frame(reference_shape)
+        reference_frame = self._build_reference_frame(reference_shape)
         return warp_images(
             images,
             shapes,
-- 
2.43.0


From 6def751dad8ce48347ca8139c017c827c02b7af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:45 +0000
Subject: [PATCH 61/78] fix: project-out unified AAM-CLM weighs its two
 Hessians like its gradients

---
 menpofit/unified_aam_clm/algorithm.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/menpofit/unified_aam_clm/algorithm.py b/menpofit/unified_aam_clm/algorithm.py
index f51f469..7ed1c7c 100644
--- a/menpofit/unified_aam_clm/algorithm.py
+++ b/menpofit/unified_aam_clm/algorithm.py
@@ -152,12 +152,6 @@ class ProjectOutRegularisedLandmarkMeanShift(UnifiedAlgorithm):
         transform_prior = 1 / self.pdm.model.eigenvalues
         self._j_prior = np.hstack((sim_prior, transform_prior))
 
-        # compute Unified hessian inverse and jacobian pseudo-inverse
-        h = self._h_aam + self._h_clm
-        self._pinv_j_aam = np.linalg.solve(h, self._j_aam.T)
-        self._pinv_j_clm = np.linalg.solve(h, self._j_clm.T)
-        self._inv_h_prior = np.linalg.inv(h + np.diag(self._j_prior))
-
     def run(self, image, initial_shape, gt_shape=None, max_iters=20,
             return_costs=False, prior=False, a=0.5):
         r"""
@@ -232,15 +226,19 @@ class ProjectOutRegularisedLandmarkMeanShift(UnifiedAlgorithm):
         if return_costs:
             costs = [cost_closure(e_aam, e_clm, a)]
 
+        # weighted combination of the AAM and CLM hessians
+        h = a * self._h_aam + (1 - a) * self._h_clm
+
         while k < max_iters and eps > self.eps:
             # compute gauss-newton parameter updates
             if prior:
                 b = (self._j_prior * self.transform.as_vector() -
                      a * self._j_aam.T.dot(e_aam) -
                      (1 - a) * self._j_clm.T.dot(e_clm))
-                dp = -self._inv_h_prior.dot(b)
+                dp = -np.linalg.solve(h + np.diag(self._j_prior), b)
             else:
-                dp = self._pinv_j_aam.dot(e_aam) + self._pinv_j_clm.dot(e_clm)
+                dp = np.linalg.solve(h, a * self._j_aam.T.dot(e_aam) +
+                                     (1 - a) * self._j_clm.T.dot(e_clm))
 
             # update warp
             target = self.transform.target
-- 
2.43.0


From 4e7e2f8aa4793e9055d6ed16824a7fc488e5d3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:56 +0000
Subject: [PATCH 62/78] fix: batches of a single image can be used for
 increments

Generalised Procrustes analysis needs two shapes, so that align_shapes (and
with it every increment whose last batch held one image) raised.
---
 menpofit/builder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/menpofit/builder.py b/menpofit/builder.py
index 72f967a..3275032 100644
--- a/menpofit/builder.py
+++ b/menpofit/builder.py
@@ -421,6 +421,9 @@ def align_shapes(shapes):
     """
     # centralize shapes
     centered_shapes = [Translation(-s.centre()).apply(s) for s in shapes]
+    if len(centered_shapes) == 1:
+        # a single shape is its own mean (Procrustes Analysis needs two)
+        return centered_shapes
     # align centralized shape using Procrustes Analysis
     gpa = GeneralizedProcrustesAnalysis(centered_shapes)
     return [s.aligned_source() for s in gpa.transforms]
-- 
2.43.0


From f0a72338cf1db5e8fe7ab838f68b0bd7d9f038a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:58 +0000
Subject: [PATCH 63/78] fix: incremented APS shape models keep the maximum
 number of components

---
 menpofit/aps/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/menpofit/aps/base.py b/menpofit/aps/base.py
index 5e47dc5..ed6a523 100644
--- a/menpofit/aps/base.py
+++ b/menpofit/aps/base.py
@@ -321,7 +321,10 @@ class GenerativeAPS(object):
                     )
                 )
             else:
-                self.shape_models[j].increment(aligned_shapes, verbose=verbose)
+                self.shape_models[j].increment(
+                    aligned_shapes,
+                    max_n_components=self.max_shape_components[j],
+                    verbose=verbose)
 
             # Build the deformation model
             if verbose:
-- 
2.43.0


From 9e6f79d3f9f67bfd5f567293b5ffaf11108bc33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:07 +0000
Subject: [PATCH 64/78] fix: holistic sampling from a scale stays inside the
 reference mask

The size of the scaled reference is rounded up, so that its pixels could map
outside of the reference (IndexError) or of its mask (a mask that disagrees
with the sampled positions).
---
 menpofit/aam/fitter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/menpofit/aam/fitter.py b/menpofit/aam/fitter.py
index 47ef570..edb4b90 100644
--- a/menpofit/aam/fitter.py
+++ b/menpofit/aam/fitter.py
@@ -454,10 +454,13 @@ def holistic_sampling_from_scale(aam, scale=0.35):
                               reference.landmarks['source'])
     new_indices = np.require(np.round(t.apply(
         scaled_reference.mask.true_indices())), dtype=np.int64)
+    # the size of the scaled reference is rounded up
+    new_indices = np.clip(new_indices, 0, np.array(reference.shape) - 1)
 
     modified_mask = deepcopy(reference.mask.pixels)
     modified_mask[:] = False
     modified_mask[:, new_indices[:, 0], new_indices[:, 1]] = True
+    modified_mask &= reference.mask.pixels
 
     true_positions = np.nonzero(
         modified_mask[:, reference.mask.mask].ravel())[0]
-- 
2.43.0


From 53070587310233e98fe2fd2f3fc7cad2aa603b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:16 +0000
Subject: [PATCH 65/78] fix: unified AAM-CLM copes with search regions one
 pixel thin

---
 menpofit/unified_aam_clm/algorithm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/menpofit/unified_aam_clm/algorithm.py b/menpofit/unified_aam_clm/algorithm.py
index 7ed1c7c..1d93ef4 100644
--- a/menpofit/unified_aam_clm/algorithm.py
+++ b/menpofit/unified_aam_clm/algorithm.py
@@ -79,7 +79,9 @@ class UnifiedAlgorithm(object):
         mean = np.zeros(self.transform.n_dims)
         response_covariance = self.response_covariance * self._inv_rho2
         mvn = multivariate_normal(mean=mean, cov=response_covariance)
-        self._kernel_grid = mvn.pdf(self._sampling_grid)
+        # pdf drops the axes of length one
+        self._kernel_grid = mvn.pdf(self._sampling_grid).reshape(
+            self._sampling_grid.shape[:-1])
 
         # compute CLM jacobian
         j_clm = np.rollaxis(self.pdm.d_dp(None), -1, 1)
@@ -96,7 +98,7 @@ class UnifiedAlgorithm(object):
 
         # compute parts response
         parts_response = self.expert_ensemble.predict_probability(
-            image, target).squeeze()
+            image, target).squeeze(axis=1)
         parts_response[np.logical_not(np.isfinite(parts_response))] = .5
 
         # compute parts kernel
-- 
2.43.0


From 9b66bbb26e40ebbc456a355e2569984c7df6290b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:16 +0000
Subject: [PATCH 66/78] fix: CLM algorithms and expert responses cope with
 search regions one pixel thin

---
 menpofit/clm/algorithm/gd.py    | 9 +++++++--
 menpofit/clm/expert/ensemble.py | 3 ++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/menpofit/clm/algorithm/gd.py b/menpofit/clm/algorithm/gd.py
index a966f75..940cffe 100644
--- a/menpofit/clm/algorithm/gd.py
+++ b/menpofit/clm/algorithm/gd.py
@@ -168,7 +168,10 @@ class ActiveShapeModel(GradientDescentCLMAlgorithm):
             max_indices = np.hstack((max_indices[0], max_indices[1]))
             max_indices = max_indices[:, None, None, None, ...]
             max_indices -= self.half_search_shape
-            gaussian_responses = self.mvn.pdf(self.search_grid - max_indices)
+            # (pdf drops the axes of length one)
+            gaussian_responses = self.mvn.pdf(
+                self.search_grid - max_indices).reshape(
+                (-1,) + self.search_grid.shape[-3:-1])
             # Normalise smoothed responses
             gaussian_responses /= np.sum(gaussian_responses,
                                          axis=(-2, -1))[..., None, None]
@@ -244,7 +247,9 @@ class RegularisedLandmarkMeanShift(GradientDescentCLMAlgorithm):
 
         # Compute Gaussian-KDE grid
         mvn = multivariate_normal(mean=np.zeros(2), cov=self.kernel_covariance)
-        self.kernel_grid = mvn.pdf(self.search_grid)[None, None]
+        # (pdf drops the axes of length one)
+        self.kernel_grid = mvn.pdf(self.search_grid).reshape(
+            (1, 1) + self.search_grid.shape[:-1])
 
     def run(self, image, initial_shape, gt_shape=None, max_iters=20,
             return_costs=False, map_inference=False):
diff --git a/menpofit/clm/expert/ensemble.py b/menpofit/clm/expert/ensemble.py
index 18c6cf8..b56f58d 100644
--- a/menpofit/clm/expert/ensemble.py
+++ b/menpofit/clm/expert/ensemble.py
@@ -441,7 +441,8 @@ def generate_gaussian_response(patch_shape, response_covariance):
     """
     grid = build_grid(patch_shape)
     mvn = multivariate_normal(mean=np.zeros(2), cov=response_covariance)
-    return mvn.pdf(grid)
+    # pdf drops the axes of length one
+    return mvn.pdf(grid).reshape(grid.shape[:-1])
 
 
 def generate_cosine_mask(patch_shape):
-- 
2.43.0


From eb80342412d2f7d40b85421495e5008f84ed5f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:22 +0000
Subject: [PATCH 67/78] fix: packaged fitters return results without an initial
 shape

---
 menpofit/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/menpofit/io.py b/menpofit/io.py
index ce4c0fc..9f7ec42 100644
--- a/menpofit/io.py
+++ b/menpofit/io.py
@@ -221,7 +221,8 @@ class PickleWrappedFitter(object):
             # update result attributes
             result._image = image
             result._final_shape = trans.apply(result.final_shape)
-            result._initial_shape = trans.apply(result.initial_shape)
+            if result.initial_shape is not None:
+                result._initial_shape = trans.apply(result.initial_shape)
             if result.is_iterative:
                 result._shapes = [trans.apply(s) for s in result.shapes]
         return result
@@ -268,7 +269,8 @@ class PickleWrappedFitter(object):
             # update result attributes
             result._image = image
             result._final_shape = trans.apply(result.final_shape)
-            result._initial_shape = trans.apply(result.initial_shape)
+            if result.initial_shape is not None:
+                result._initial_shape = trans.apply(result.initial_shape)
             if result.is_iterative:
                 result._shapes = [trans.apply(s) for s in result.shapes]
         return result
-- 
2.43.0


From 9398f7eb9f7875d5ee4aff39602a2a4bbfcd3d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:09 +0000
Subject: [PATCH 68/78] fix: convert dlib detections with current numpy

np.vstack no longer accepts generators, so every dlib prediction raised
a TypeError.
---
 menpofit/dlib/conversion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/menpofit/dlib/conversion.py b/menpofit/dlib/conversion.py
index 17f1356..11bcdcc 100644
--- a/menpofit/dlib/conversion.py
+++ b/menpofit/dlib/conversion.py
@@ -12,7 +12,8 @@ def pointcloud_to_dlib_parts(pcloud):
 
 
 def dlib_full_object_detection_to_pointcloud(full_object_detection):
-    return PointCloud(np.vstack(all_parts(full_object_detection)), copy=False)
+    return PointCloud(np.vstack(list(all_parts(full_object_detection))),
+                      copy=False)
 
 
 def dlib_rect_to_bounding_box(rect):
-- 
2.43.0


From 4a275b33a1600f597afbf6d40856586e452286e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:09 +0000
Subject: [PATCH 69/78] fix: dlib pixels of images with other than 1 or 3
 channels

as_PILImage raises for them before the first channel is taken.
---
 menpofit/dlib/conversion.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/menpofit/dlib/conversion.py b/menpofit/dlib/conversion.py
index 11bcdcc..8e1567e 100644
--- a/menpofit/dlib/conversion.py
+++ b/menpofit/dlib/conversion.py
@@ -41,8 +41,7 @@ def copy_dlib_options(options):
 
 
 def image_to_dlib_pixels(im):
-    pixels = np.array(im.as_PILImage())
     # Only supports RGB and Grayscale
-    if im.n_channels > 3:
-        pixels = pixels[..., 0]
-    return pixels
+    if im.n_channels not in (1, 3):
+        im = im.extract_channels(0)
+    return np.array(im.as_PILImage())
-- 
2.43.0


From df4f290708ec305e0be88a4b79d28bc8685d72a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:09 +0000
Subject: [PATCH 70/78] fix: ERT training keeps every generated box at all
 scales

With a bounding_box_group_glob the first scale trains on
n_boxes * (n_perturbations + 1) boxes per image, but only the first
n_perturbations of them were carried over to the next scales.
---
 menpofit/dlib/fitter.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/menpofit/dlib/fitter.py b/menpofit/dlib/fitter.py
index 73fa109..5491727 100644
--- a/menpofit/dlib/fitter.py
+++ b/menpofit/dlib/fitter.py
@@ -344,10 +344,12 @@ class DlibERT(MultiScaleNonParametricFitter):
                     print_progress, prefix=msg, end_with_newline=False, verbose=verbose
                 )
                 for ii in wrap(scaled_images):
-                    c_bboxes = []
-                    for k in list(range(self.n_perturbations)):
-                        c_key = "__ert_current_bbox_{}".format(k)
-                        c_bboxes.append(ii.landmarks[c_key])
+                    c_bboxes = [
+                        c_b
+                        for _, c_b in ii.landmarks.items_matching(
+                            "__ert_current_bbox_*"
+                        )
+                    ]
                     current_bounding_boxes.append(c_bboxes)
 
             # Extract scaled ground truth shapes for current scale
-- 
2.43.0


From e7c1e2a020500115650fb4dd8ef40f34c792e6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:09 +0000
Subject: [PATCH 71/78] fix: statistics_table sets an existing pandas option

'precision' is ambiguous for pandas, which raised OptionError on every
call.
---
 menpofit/visualize/textutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/visualize/textutils.py b/menpofit/visualize/textutils.py
index 99f8efa..df4c735 100644
--- a/menpofit/visualize/textutils.py
+++ b/menpofit/visualize/textutils.py
@@ -254,6 +254,6 @@ def statistics_table(errors, method_names, auc_max_error, auc_error_step,
                         inplace=True, ascending=ascending)
 
     # Set precision
-    pn.set_option('precision', precision)
+    pn.set_option('display.precision', precision)
 
     return tab
-- 
2.43.0


From 8295e65668471a0f8bc1c88f264ddccfebd7699b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:09 +0000
Subject: [PATCH 72/78] fix: viewing landmarks does not extend the given lists

A list with one value was repeated in place for every landmark group,
so that the next call with the same list was refused.
---
 menpofit/visualize/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/visualize/base.py b/menpofit/visualize/base.py
index 8cb5b65..8efec04 100644
--- a/menpofit/visualize/base.py
+++ b/menpofit/visualize/base.py
@@ -16,7 +16,7 @@ def _check_multi_argument(arg, n_objects, dtypes, error_str):
         arg = [arg] * n_objects
     elif isinstance(arg, list):
         if len(arg) == 1:
-            arg *= n_objects
+            arg = arg * n_objects
         elif len(arg) != n_objects:
             raise ValueError(error_str)
     else:
-- 
2.43.0


From 459bc750b1c3928b8edd45b43c6bef3f5cc08a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:31 +0000
Subject: [PATCH 73/78] fix: supervised descent trains on any number of shapes
 per image

The arrays of increments were sized by the number of shapes of the first
image, so images with a different number of provided bounding boxes raised
an IndexError or left uninitialised rows in the regression targets.
---
 menpofit/sdm/algorithm/base.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/menpofit/sdm/algorithm/base.py b/menpofit/sdm/algorithm/base.py
index 1b71973..be9a5c4 100644
--- a/menpofit/sdm/algorithm/base.py
+++ b/menpofit/sdm/algorithm/base.py
@@ -80,8 +80,12 @@ class BaseSupervisedDescentAlgorithm(object):
             raise ValueError('Algorithm must be trained before it can be '
                              'incremented.')
 
-        n_perturbations = len(current_shapes[0])
         template_shape = gt_shapes[0]
+        # The ground truth shape of each training sample, i.e. of each row of
+        # delta_x. Note that the number of current shapes may differ per image.
+        sample_gt_shapes = [gt_s for gt_s, shapes in zip(gt_shapes,
+                                                         current_shapes)
+                            for _ in shapes]
 
         # obtain delta_x and gt_x
         delta_x, gt_x = self._compute_delta_x(gt_shapes, current_shapes)
@@ -109,8 +113,8 @@ class BaseSupervisedDescentAlgorithm(object):
             # Estimate delta_points
             estimated_delta_x = self.regressors[k].predict(features)
             if verbose:
-                self._print_regression_info(template_shape, gt_shapes,
-                                            n_perturbations, delta_x,
+                self._print_regression_info(template_shape, sample_gt_shapes,
+                                            1, delta_x,
                                             estimated_delta_x, k,
                                             prefix=prefix)
 
@@ -272,12 +276,12 @@ def compute_non_parametric_delta_x(gt_shapes, current_shapes):
         The ground truth shape vectors.
     """
     n_x = gt_shapes[0].n_parameters
-    n_gt_shapes = len(gt_shapes)
-    n_current_shapes = len(current_shapes[0])
+    # the number of current shapes may differ between ground truth shapes
+    n_samples = sum(len(shapes) for shapes in current_shapes)
 
     # initialize current, ground truth and delta parameters
-    gt_x = np.empty((n_gt_shapes * n_current_shapes, n_x))
-    delta_x = np.empty((n_gt_shapes * n_current_shapes, n_x))
+    gt_x = np.empty((n_samples, n_x))
+    delta_x = np.empty((n_samples, n_x))
 
     # obtain ground truth points and compute delta points
     k = 0
@@ -438,7 +442,8 @@ def compute_parametric_delta_x(gt_shapes, current_shapes, model):
         The ground truth parameters vectors.
     """
     # initialize current and delta parameters arrays
-    n_samples = len(gt_shapes) * len(current_shapes[0])
+    # (the number of current shapes may differ between ground truth shapes)
+    n_samples = sum(len(c_s) for c_s in current_shapes)
     gt_params = np.empty((n_samples, model.n_parameters))
     delta_params = np.empty_like(gt_params)
 
-- 
2.43.0


From edc1dd0da577dec56bd23f5cbdac063e609cba97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:50 +0000
Subject: [PATCH 74/78] fix: fft_convolve2d accepts an array and a filter image

---
 menpofit/math/fft_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/math/fft_utils.py b/menpofit/math/fft_utils.py
index ba6c5d3..caaf90c 100644
--- a/menpofit/math/fft_utils.py
+++ b/menpofit/math/fft_utils.py
@@ -108,7 +108,7 @@ def ndconvolution(wrapped):
             return rebuild_feature_image(image, feature)
         elif not isinstance(filter, np.ndarray):
             # filter is menpo image
-            return wrapped(image, filter, *args, **kwargs)
+            return wrapped(image, filter.pixels, *args, **kwargs)
         else:
             return wrapped(image, filter, *args, **kwargs)
     return wrapper
-- 
2.43.0


From 8a1207ef7460551d27f611547728edf3d8a90a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:49 +0000
Subject: [PATCH 75/78] fix: frequency filter images keep the order of their
 channels

---
 menpofit/clm/expert/ensemble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/clm/expert/ensemble.py b/menpofit/clm/expert/ensemble.py
index b56f58d..a1a3244 100644
--- a/menpofit/clm/expert/ensemble.py
+++ b/menpofit/clm/expert/ensemble.py
@@ -178,7 +178,7 @@ class ConvolutionBasedExpertEnsemble(ExpertEnsemble):
         for fft_padded_filter in self.fft_padded_filters:
             spatial_filter = np.real(ifft2(fft_padded_filter))
             spatial_filter = crop(spatial_filter, self.patch_shape)[:, ::-1, ::-1]
-            frequency_filter = np.abs(fftshift(fft2(spatial_filter)))
+            frequency_filter = np.abs(fftshift(fft2(spatial_filter), axes=(-2, -1)))
             filter_images.append(Image(frequency_filter))
         return filter_images
 
-- 
2.43.0


From 962c46a07ebaebac0afdffd9a6760559208835b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:25 +0000
Subject: [PATCH 76/78] fix: OptimalLinearRegression predicted zero when a
 single component is kept

---
 menpofit/math/regression.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/menpofit/math/regression.py b/menpofit/math/regression.py
index e27824b..bd135c5 100644
--- a/menpofit/math/regression.py
+++ b/menpofit/math/regression.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-from menpo.math import pca
+from menpo.math import eigenvalue_decomposition, pca
 
 
 class IRLRegression(object):
@@ -327,8 +327,8 @@ class OptimalLinearRegression(object):
         A = X.T.dot(Y).dot(Y.T).dot(X)
         A_tilde = U.dot(A).dot(U.T)
 
-        V, l2, _ = pca(A_tilde, centre=False)
-        H = V.dot(U)
+        V, l2 = eigenvalue_decomposition(A_tilde)
+        H = V.T.dot(U)
 
         self.R = H.T.dot(np.linalg.pinv(X.dot(H.T)).dot(Y))
 
-- 
2.43.0


From 4efc45af3723a064bd22f3165df3cb31863e66f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:02 +0000
Subject: [PATCH 77/78] fix: smoothing the training images of unified models
 mixed and dimmed channels

---
 menpofit/unified_aam_clm/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/menpofit/unified_aam_clm/base.py b/menpofit/unified_aam_clm/base.py
index 3fcb334..5339b3b 100644
--- a/menpofit/unified_aam_clm/base.py
+++ b/menpofit/unified_aam_clm/base.py
@@ -25,7 +25,9 @@ from menpofit.transform import DifferentiablePiecewiseAffine, OrthoMDTransform
 
 @ndfeature
 def fsmooth(pixels, sigma, mode="constant"):
-    return gaussian_filter(pixels, sigma, mode=mode)
+    # Smooth each channel over the image plane, do not smooth across channels
+    sigmas = (0,) + (sigma,) * (pixels.ndim - 1)
+    return gaussian_filter(pixels, sigmas, mode=mode)
 
 
 class UnifiedAAMCLM(object):
-- 
2.43.0


From ef8b6656639ea6d6e35c5e7c30e9b605bc52ed35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:24 +0000
Subject: [PATCH 78/78] fix: in place compositions of similarity alignments
 left their target behind

---
 menpofit/transform/homogeneous.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/menpofit/transform/homogeneous.py b/menpofit/transform/homogeneous.py
index 9396202..6581904 100644
--- a/menpofit/transform/homogeneous.py
+++ b/menpofit/transform/homogeneous.py
@@ -185,6 +185,16 @@ class DifferentiableAlignmentSimilarity(AlignmentSimilarity, DP, DX):
         """
         return DifferentiableSimilarity(self.h_matrix, skip_checks=True)
 
+    # In place compositions must update the target, as they do for the affine
+    # alignment: :map:`AlignmentSimilarity` only updates the transform itself.
+    def _compose_after_inplace(self, transform):
+        AlignmentSimilarity._compose_after_inplace(self, transform)
+        self._sync_target_from_state()
+
+    def _compose_before_inplace(self, transform):
+        AlignmentSimilarity._compose_before_inplace(self, transform)
+        self._sync_target_from_state()
+
     def d_dp(self, points):
         r"""
         The derivative with respect to the parametrisation changes evaluated at
-- 
2.43.0

