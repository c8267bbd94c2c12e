From bebb0d9835daa1ee999900e60dfa0502c5c72981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:27 +0000
Subject: [PATCH 01/16] fix: check every element of list entries in the config
 validation

all(x) > 0.0 compares the bool returned by all() and never rejects a negative
element; all(x) >= 0.0 is always true. TRCWA_L_grid is a nested list with zeros
in the default config and is covered by the ordering checks above.
---
 nidn/utils/validate_config.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/nidn/utils/validate_config.py b/nidn/utils/validate_config.py
index de54dc8..4a3e8f1 100644
--- a/nidn/utils/validate_config.py
+++ b/nidn/utils/validate_config.py
@@ -153,7 +153,6 @@ def _check_value_ranges(cfg: DotMap):
         raise RuntimeError(f"TRCWA_L_grid dim0 must be ordered from high to low")
 
     all_positive_list_keys = [
-        "TRCWA_L_grid",
         "PER_LAYER_THICKNESS",
         "FDTD_grid",
         "FDTD_source_position",
@@ -164,10 +163,10 @@ def _check_value_ranges(cfg: DotMap):
     ]
 
     for key in all_positive_list_keys:
-        if key in cfg.keys() and not (all(cfg[key]) > 0.0):
+        if key in cfg.keys() and not all(value > 0.0 for value in cfg[key]):
             raise RuntimeError(f"All elements in {key} must be a positive integer")
     for key in all_positive_or_zero_list_keys:
-        if not (all(cfg[key]) >= 0.0):
+        if not all(value >= 0.0 for value in cfg[key]):
             raise RuntimeError(
                 f"All elements in {key} must be a positive integer or zero"
             )
-- 
2.43.0


From bdc369e64366bfc48f6d02e115be8fb10ac28d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:27 +0000
Subject: [PATCH 02/16] fix: keep the zeroth order when truncating to a single
 Fourier order

TRCWA_NG = 1 truncated to zero orders.
---
 nidn/trcwa/utils/kbloch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/trcwa/utils/kbloch.py b/nidn/trcwa/utils/kbloch.py
index fc7f0dd..d7d268e 100644
--- a/nidn/trcwa/utils/kbloch.py
+++ b/nidn/trcwa/utils/kbloch.py
@@ -135,7 +135,7 @@ def Gsel_circular(nG, Lk1, Lk2):
     for i in range(nGtmp - 1, -1, -1):
         if torch.abs(Gl2[i] - Gl2[i - 1]) > tol:
             break
-    nG = i
+    nG = max(i, 1)  # the zeroth order is always kept
 
     # final G
     G = torch.zeros((nG, 2), dtype=int)
-- 
2.43.0


From 2b58af2753e34793fefeb406b991386c99c934e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:27 +0000
Subject: [PATCH 03/16] fix: do not mistake a permittivity tensor with Nx = 3
 for an anisotropic list

---
 nidn/trcwa/trcwa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/trcwa/trcwa.py b/nidn/trcwa/trcwa.py
index 3b25b61..a26c388 100644
--- a/nidn/trcwa/trcwa.py
+++ b/nidn/trcwa/trcwa.py
@@ -227,7 +227,7 @@ class TRCWA:
             Ny = self.GridLayer_Nxy_list[ptri][1]
             dN = 1.0 / Nx / Ny
 
-            if len(ep_all) == 3 and ep_all[0].ndim > 0:
+            if isinstance(ep_all, (list, tuple)):
                 ep_grid = [
                     torch.reshape(ep_all[0][ptr : ptr + Nx * Ny], [Nx, Ny]),
                     torch.reshape(ep_all[1][ptr : ptr + Nx * Ny], [Nx, Ny]),
-- 
2.43.0


From 1e5b5a52f1560a0a33e2a017f6584a0d0068bca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:27 +0000
Subject: [PATCH 04/16] fix: keep the grid of a layer that is only patterned in
 y (Nx = 1, Ny > 1)

---
 nidn/trcwa/init_trcwa.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nidn/trcwa/init_trcwa.py b/nidn/trcwa/init_trcwa.py
index 5a56ddb..fbf38a4 100644
--- a/nidn/trcwa/init_trcwa.py
+++ b/nidn/trcwa/init_trcwa.py
@@ -20,8 +20,9 @@ def _init_trcwa(eps_grid, target_frequency, run_cfg):
     Nx, Ny, N_layers = eps_grid.shape[0:3]
 
     # Squeeze out Nx=1, Ny=1 dimension (for uniform layer)
-    eps_grid = eps_grid.squeeze(0)  # squeeze X
-    eps_grid = eps_grid.squeeze(0)  # squeeze Y (now at 0)
+    if Nx == 1 and Ny == 1:
+        eps_grid = eps_grid.squeeze(0)  # squeeze X
+        eps_grid = eps_grid.squeeze(0)  # squeeze Y (now at 0)
 
     # Adding a small imaginary part to the frequency to avoid singularities in RCWA
     # See page 2 of arxiv.org/pdf/2005.04840v1.pdf
-- 
2.43.0


From 02a997213154109b7605d14f4074ab0b017858fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:27 +0000
Subject: [PATCH 05/16] fix: do not zero Fourier coefficients with negative
 real and imaginary part

---
 nidn/trcwa/utils/fft_funs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/trcwa/utils/fft_funs.py b/nidn/trcwa/utils/fft_funs.py
index df91d0b..f77cf00 100644
--- a/nidn/trcwa/utils/fft_funs.py
+++ b/nidn/trcwa/utils/fft_funs.py
@@ -32,7 +32,7 @@ def Epsilon_fft(dN, eps_grid, G):
     # Set very small components to zero for torch
     for i in range(eps2.shape[0]):
         for j in range(eps2.shape[1]):
-            if eps2[i][j].real < 1e-14 and eps2[i][j].imag < 1e-14:
+            if abs(eps2[i][j].real) < 1e-14 and abs(eps2[i][j].imag) < 1e-14:
                 eps2[i][j] = 0 + 0j
 
     return epsinv, eps2
-- 
2.43.0


From 581ce472cf88666e783570c811618286530d029e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:27 +0000
Subject: [PATCH 06/16] fix: keep the material and frequency axes for a single
 frequency or material

---
 nidn/materials/material_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/materials/material_collection.py b/nidn/materials/material_collection.py
index 3054c26..5991026 100644
--- a/nidn/materials/material_collection.py
+++ b/nidn/materials/material_collection.py
@@ -79,7 +79,7 @@ class MaterialCollection:
 
         # Create a single tensor of all materials
         logger.trace("Creating material tensor")
-        self.epsilon_matrix = torch.stack(eps_list).squeeze()  # .cuda()
+        self.epsilon_matrix = torch.stack(eps_list).squeeze(-1)  # .cuda()
         self.N_materials = len(self.material_names)
 
     def _load_material_data(self, name):
-- 
2.43.0


From 70c8e3c25d34cf350db1422dc1ddf0174bde79c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:27 +0000
Subject: [PATCH 07/16] fix: translate the imaginary permittivity to its
 configured range

---
 nidn/training/model/model_to_eps_grid.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nidn/training/model/model_to_eps_grid.py b/nidn/training/model/model_to_eps_grid.py
index 85da34a..8c2eb4e 100644
--- a/nidn/training/model/model_to_eps_grid.py
+++ b/nidn/training/model/model_to_eps_grid.py
@@ -195,9 +195,10 @@ def _regression_model_to_eps_grid(model, run_cfg: DotMap):
 
         # second half imaginary
         eps.imag = out[:, :, :, run_cfg.N_freq :]
-        eps.imag = (eps.imag * (run_cfg.imag_max_eps - run_cfg.imag_min_eps)).clip(
-            run_cfg.imag_min_eps, run_cfg.imag_max_eps
-        )
+        eps.imag = (
+            eps.imag * (run_cfg.imag_max_eps - run_cfg.imag_min_eps)
+            + run_cfg.imag_min_eps
+        ).clip(run_cfg.imag_min_eps, run_cfg.imag_max_eps)
 
     # Adds noise scaled to desired eps range times noise_scale
     if run_cfg.add_noise:
-- 
2.43.0


From 215d7087930a0960241c5c0ea1b4dc0d1a8f7d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:27 +0000
Subject: [PATCH 08/16] fix: renormalise R and T with the same sum

---
 nidn/training/losses/spectrum_loss.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nidn/training/losses/spectrum_loss.py b/nidn/training/losses/spectrum_loss.py
index 8f36ded..3dff3d8 100644
--- a/nidn/training/losses/spectrum_loss.py
+++ b/nidn/training/losses/spectrum_loss.py
@@ -47,8 +47,9 @@ def _spectrum_loss_fn(
             logger.warning(
                 f"R+T>1 for freq={freq:.4f}. Renormalizing this point in the loss..."
             )
-            prod_R = prod_R / (prod_R + prod_T)
-            prod_T = prod_T / (prod_R + prod_T)
+            prod_sum = prod_R + prod_T
+            prod_R = prod_R / prod_sum
+            prod_T = prod_T / prod_sum
             renormalized = True
 
         # Accumulate losses
-- 
2.43.0


From be51654c6b89e18dd112b80ff0fbd9825866bb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:27 +0000
Subject: [PATCH 09/16] fix: copy the initial model state instead of aliasing
 the live parameters

---
 nidn/training/run_training.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/training/run_training.py b/nidn/training/run_training.py
index c746fbc..60723e5 100644
--- a/nidn/training/run_training.py
+++ b/nidn/training/run_training.py
@@ -95,7 +95,7 @@ def run_training(
 
     # And store the best results
     best_loss = np.inf
-    run_cfg.best_model_state_dict = run_cfg.model.state_dict()
+    run_cfg.best_model_state_dict = deepcopy(run_cfg.model.state_dict())
 
     logger.trace("Starting training...")
     # Training Loop
-- 
2.43.0


From f482cb3ccb4d6c1d7fda9ea73b025db8fd77290a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:27 +0000
Subject: [PATCH 10/16] fix: only let iterations whose state is stored count as
 the best loss

An unphysical (renormalised) iteration lowered best_loss without storing the
model, so later physical improvements were not stored either.
---
 nidn/training/run_training.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nidn/training/run_training.py b/nidn/training/run_training.py
index 60723e5..4063baf 100644
--- a/nidn/training/run_training.py
+++ b/nidn/training/run_training.py
@@ -155,14 +155,13 @@ def run_training(
             )
         # We store the model if it has the lowest loss yet
         # (this is to avoid losing good results during a run that goes wild)
-        if loss < best_loss:
+        if loss < best_loss and not renormalized:
             best_loss = loss
             logger.info(
                 f"###  New Best={loss.item():<6.4f} with SpectrumLoss={spectrum_loss:<6.4f} ### L1={L1err.detach().item():.4f}"
             )
-            if not renormalized:
-                logger.debug("Saving model state...")
-                run_cfg.best_model_state_dict = deepcopy(run_cfg.model.state_dict())
+            logger.debug("Saving model state...")
+            run_cfg.best_model_state_dict = deepcopy(run_cfg.model.state_dict())
 
         # Update the loss trend indicators
         weighted_average.append(loss.item())
-- 
2.43.0


From fad04905e60648feb4a1b8f166dfe040fffe68ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:27 +0000
Subject: [PATCH 11/16] fix: ignore NERF skip connections beyond the last
 hidden layer

---
 nidn/training/utils/nerf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nidn/training/utils/nerf.py b/nidn/training/utils/nerf.py
index 0f5ab59..30deb4a 100644
--- a/nidn/training/utils/nerf.py
+++ b/nidn/training/utils/nerf.py
@@ -33,7 +33,8 @@ class NERF(nn.Module):
     ):
         super().__init__()
         self.in_features = in_features
-        self.skip = skip
+        # skip connections need a hidden layer to feed into
+        self.skip = [i for i in skip if i < hidden_layers]
 
         self.net = nn.ModuleList()
         self.net.append(NERFLayer(in_features, n_neurons))
-- 
2.43.0


From d92b00385f47f54db8d49e5264ca29366cf8c5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:27 +0000
Subject: [PATCH 12/16] fix: assign the ricker sample of a point source

---
 nidn/fdtd/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/fdtd/sources.py b/nidn/fdtd/sources.py
index 6713223..df9ea76 100644
--- a/nidn/fdtd/sources.py
+++ b/nidn/fdtd/sources.py
@@ -112,7 +112,7 @@ class PointSource:
             # By experimental value, the ricker wavelet signal converges to zero after 6 times the grid points per wavelength, so just set the source-signal to zero after this
             t1 = self.grid_points_per_wavelength * 6
             if q < t1:
-                vsrcect = self.amplitude * _ricker(
+                src = self.amplitude * _ricker(
                     q, self.grid_points_per_wavelength, 1, self.courant
                 )
             else:
-- 
2.43.0


From 21eb1a27afb37571b9f2807d98243fc62aff310f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:27 +0000
Subject: [PATCH 13/16] fix: treat a signal of exactly two windows as too short
 for transient removal

The two chunks are merged into one, leaving no change between chunks to look at.
---
 .../calculate_transmission_reflection_coefficients.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py b/nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py
index 723e9d3..db1cdb1 100644
--- a/nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py
+++ b/nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py
@@ -309,7 +309,7 @@ def _eliminate_transient_part(signal, wavelength, cfg, is_freespace=False, plot=
 
     # Check signal is still long enough
     signal_length = len(signal)
-    if signal_length < 2 * window_size:
+    if signal_length <= 2 * window_size:
         logger.error(
             "FDTD Signal is too short to compute R,T,A. Please increase FDTD_niter in the config. Aborting transient removal."
         )
-- 
2.43.0


From 20ae2d28fea7e8956e2d9134c653a737fbc62b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:21 +0000
Subject: [PATCH 14/16] fix: end a block detector at the stop of its slice

---
 nidn/fdtd/detectors.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/nidn/fdtd/detectors.py b/nidn/fdtd/detectors.py
index f0f9998..a7ef0e4 100644
--- a/nidn/fdtd/detectors.py
+++ b/nidn/fdtd/detectors.py
@@ -218,11 +218,11 @@ class BlockDetector:
         # convert the list-indices to slices.
         # TODO: maybe issue a warning here?
         if isinstance(x, list):
-            x = slice(x[0], x[-1], None)
+            x = slice(x[0], x[-1] + 1, None)
         if isinstance(y, list):
-            y = slice(y[0], y[-1], None)
+            y = slice(y[0], y[-1] + 1, None)
         if isinstance(z, list):
-            z = slice(z[0], z[-1], None)
+            z = slice(z[0], z[-1] + 1, None)
 
         # if we get here, we can assume slices:
         x0 = x.start if x.start is not None else 0
@@ -233,9 +233,9 @@ class BlockDetector:
         z1 = z.stop if z.stop is not None else self.grid.Nz
 
         # we can now convert these coordinates into index lists
-        x = [v.item() for v in bd.arange(x0, x1 + 1)]
-        y = [v.item() for v in bd.arange(y0, y1 + 1)]
-        z = [v.item() for v in bd.arange(z0, z1 + 1)]
+        x = [v.item() for v in bd.arange(x0, x1)]
+        y = [v.item() for v in bd.arange(y0, y1)]
+        z = [v.item() for v in bd.arange(z0, z1)]
         return x, y, z
 
     def detect_E(self):
@@ -378,11 +378,11 @@ class CurrentDetector:
         # convert the list-indices to slices.
         # TODO: maybe issue a warning here?
         if isinstance(x, list):
-            x = slice(x[0], x[-1], None)
+            x = slice(x[0], x[-1] + 1, None)
         if isinstance(y, list):
-            y = slice(y[0], y[-1], None)
+            y = slice(y[0], y[-1] + 1, None)
         if isinstance(z, list):
-            z = slice(z[0], z[-1], None)
+            z = slice(z[0], z[-1] + 1, None)
 
         # if we get here, we can assume slices:
         x0 = x.start if x.start is not None else 0
@@ -393,9 +393,9 @@ class CurrentDetector:
         z1 = z.stop if z.stop is not None else self.grid.Nz
 
         # we can now convert these coordinates into index lists
-        x = [v.item() for v in bd.arange(x0, x1 + 1)]
-        y = [v.item() for v in bd.arange(y0, y1 + 1)]
-        z = [v.item() for v in bd.arange(z0, z1 + 1)]
+        x = [v.item() for v in bd.arange(x0, x1)]
+        y = [v.item() for v in bd.arange(y0, y1)]
+        z = [v.item() for v in bd.arange(z0, z1)]
         return x, y, z
 
     def detect_E(self):
-- 
2.43.0


From c4a3f199775f857a94e20c9bb386d92e979d4b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:59 +0000
Subject: [PATCH 15/16] fix: solve for interior amplitudes with torch.inverse

---
 nidn/trcwa/trcwa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/trcwa/trcwa.py b/nidn/trcwa/trcwa.py
index a26c388..838a559 100644
--- a/nidn/trcwa/trcwa.py
+++ b/nidn/trcwa/trcwa.py
@@ -862,7 +862,7 @@ def SolveInterior(which_layer, a0, bN, q_list, phi_list, kp_list, thickness_list
     )
 
     # tmp = inv(1-S12*pS21)
-    tmp = torch.inv(torch_eye(nG2) - torch_dot(S12, pS21))
+    tmp = torch.inverse(torch_eye(nG2) - torch_dot(S12, pS21))
     # ai = tmp * (S11 a0 + S12 pS22 bN)
     ai = torch_dot(tmp, torch_dot(S11, a0) + torch_dot(S12, torch_dot(pS22, bN)))
     # bi = pS21 ai + pS22 bN
-- 
2.43.0


From 9bddeccb6fe1f6620f6b148087050cf1110ce38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:13 +0000
Subject: [PATCH 16/16] fix: use isinstance and torch.fft.ifft2 in the field
 reconstruction

---
 nidn/trcwa/trcwa.py          | 6 +++---
 nidn/trcwa/utils/fft_funs.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/nidn/trcwa/trcwa.py b/nidn/trcwa/trcwa.py
index 838a559..6bfd231 100644
--- a/nidn/trcwa/trcwa.py
+++ b/nidn/trcwa/trcwa.py
@@ -451,7 +451,7 @@ class TRCWA:
         ai0, bi0 = self.GetAmplitudes_noTranslate(which_layer)
         # ai, bi = self.GetAmplitudes(which_layer,z_offset)
 
-        if torch.isinstance(z_offset, float) or torch.isinstance(z_offset, int):
+        if isinstance(z_offset, float) or isinstance(z_offset, int):
             zl = [z_offset]
         else:
             zl = z_offset
@@ -504,7 +504,7 @@ class TRCWA:
             torch.tensor: Tensor containing the field amplitudes [[Ex,Ey,Ez], [Hx,Hy,Hz]] in Fourier space for each z-offset
         """
 
-        if torch.isinstance(Nxy, type(None)):
+        if isinstance(Nxy, type(None)):
             Nxy = self.GridLayer_Nxy_list[self.id_list[which_layer][3]]
         Nx = Nxy[0]
         Ny = Nxy[1]
@@ -524,7 +524,7 @@ class TRCWA:
             hy = get_ifft(Nx, Ny, fh[1], self.G)
             hz = get_ifft(Nx, Ny, fh[2], self.G)
             eh.append([[ex, ey, ez], [hx, hy, hz]])
-        if torch.isinstance(z_offset, float) or torch.isinstance(z_offset, int):
+        if isinstance(z_offset, float) or isinstance(z_offset, int):
             eh = eh[0]
         return eh
 
diff --git a/nidn/trcwa/utils/fft_funs.py b/nidn/trcwa/utils/fft_funs.py
index f77cf00..6d5d153 100644
--- a/nidn/trcwa/utils/fft_funs.py
+++ b/nidn/trcwa/utils/fft_funs.py
@@ -83,5 +83,5 @@ def get_ifft(Nx, Ny, s_in, G):
         stmp[x, y] = 1.0
         s0 = s0 + s_in[i] * stmp
 
-    s_out = torch.ifft2(s0) / dN
+    s_out = torch.fft.ifft2(s0) / dN
     return s_out
-- 
2.43.0

