From 6a19f4294b4f5c387f5f1a9022f54050fed4f4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:01 +0000
Subject: [PATCH 01/34] fix: calibrate() no longer reads p/q exponents when the
 spectrum is not learnable

---
 drdmannturb/spectra_fitting/calibration.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 55ce139..65743c0 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -499,8 +499,9 @@ class CalibrationProblem:
             print(f"\tCurrent L: {self.OPS.LengthScale.item()}")
             print(f"\tCurrent Gamma: {self.OPS.TimeScale.item()}")
             print(f"\tCurrent sigma: {self.OPS.Magnitude.item()}")
-            print(f"\tCurrent p: {self.OPS.p_exponent.item()}")
-            print(f"\tCurrent q: {self.OPS.q_exponent.item()}")
+            if self.prob_params.use_learnable_spectrum:
+                print(f"\tCurrent p: {self.OPS.p_exponent.item()}")
+                print(f"\tCurrent q: {self.OPS.q_exponent.item()}")
 
             if not (torch.isfinite(self.loss)):
                 raise RuntimeError("Loss is not a finite value, check initialization and learning hyperparameters.")
-- 
2.43.0


From 8ae9cee2f2d512284e6a34fd6e8fb9caa96f9b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:57 +0000
Subject: [PATCH 02/34] fix: evaluate the DRD eddy lifetime in the network's
 dtype during generation

---
 drdmannturb/fluctuation_generation/nn_covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/nn_covariance.py b/drdmannturb/fluctuation_generation/nn_covariance.py
index 88357ce..78f7002 100644
--- a/drdmannturb/fluctuation_generation/nn_covariance.py
+++ b/drdmannturb/fluctuation_generation/nn_covariance.py
@@ -113,7 +113,7 @@ class NNCovariance(Covariance):
         kk = np.sum(k**2, axis=0)
 
         with np.errstate(divide="ignore", invalid="ignore"):
-            k_torch = torch.tensor(np.moveaxis(k, 0, -1)) * self.h_ref
+            k_torch = torch.tensor(np.moveaxis(k, 0, -1), dtype=self.OPS.logLengthScale.dtype) * self.h_ref
             beta_torch = self.Gamma * self.OPS.tauNet(k_torch)
             beta = beta_torch.detach().cpu().numpy() if beta_torch.is_cuda else beta_torch.detach().numpy()
             beta[np.where(kk == 0)] = 0
-- 
2.43.0


From 19aad4d3603dfd812ddaf732de7a26f3412195f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:57 +0000
Subject: [PATCH 03/34] fix: generate DRD fields with the eddy lifetime that
 was fitted (argument k*L)

---
 drdmannturb/fluctuation_generation/nn_covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/nn_covariance.py b/drdmannturb/fluctuation_generation/nn_covariance.py
index 78f7002..54c858e 100644
--- a/drdmannturb/fluctuation_generation/nn_covariance.py
+++ b/drdmannturb/fluctuation_generation/nn_covariance.py
@@ -113,7 +113,7 @@ class NNCovariance(Covariance):
         kk = np.sum(k**2, axis=0)
 
         with np.errstate(divide="ignore", invalid="ignore"):
-            k_torch = torch.tensor(np.moveaxis(k, 0, -1), dtype=self.OPS.logLengthScale.dtype) * self.h_ref
+            k_torch = torch.tensor(np.moveaxis(k, 0, -1), dtype=self.OPS.logLengthScale.dtype) * self.L
             beta_torch = self.Gamma * self.OPS.tauNet(k_torch)
             beta = beta_torch.detach().cpu().numpy() if beta_torch.is_cuda else beta_torch.detach().numpy()
             beta[np.where(kk == 0)] = 0
-- 
2.43.0


From 60a58f00bc2e833c26553cdf66f6bdf966b3de2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:57 +0000
Subject: [PATCH 04/34] fix: the generator seed also determines the
 low-frequency field

---
 .../fluctuation_field_generator.py                     |  6 +++++-
 .../low_frequency/fluctuation_field_generator.py       | 10 ++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
index d631464..51f44ce 100644
--- a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
@@ -252,7 +252,11 @@ class FluctuationFieldGenerator:
 
         self.low_freq_gen: LowFreqGenerator | None = None
         if config_2d_model is not None:
-            self.low_freq_gen = LowFreqGenerator(config_2d_model)
+            self.low_freq_gen = LowFreqGenerator(
+                config_2d_model,
+                # own stream, so that it stays independent of the small-scale noise
+                seed=None if self.seed is None else [self.seed, 1],
+            )
 
             print("Generating low-frequency field...")
 
diff --git a/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
index 3bccb57..4cce40a 100644
--- a/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
@@ -84,7 +84,7 @@ class LowFreqGenerator:
 
     """
 
-    def __init__(self, config: dict):
+    def __init__(self, config: dict, seed: int | list[int] | None = None):
         """
         Initialize the LowFreqGenerator instance.
 
@@ -95,7 +95,13 @@ class LowFreqGenerator:
         ----------
         config : dict
             Configuration dictionary. See class docstring for required keys.
+        seed : int or list[int], optional
+            Pseudo-random number generator seed, by default None, which draws from NumPy's global generator.
+            See ``np.random.RandomState``.
         """
+        # Pseudo-random number generator
+        self.prng = np.random if seed is None else np.random.RandomState(seed)
+
         # Physical parameters
         self.sigma2 = config["sigma2"]
         self.L_2d = config["L_2d"]
@@ -484,7 +490,7 @@ class LowFreqGenerator:
             The u2 component of the velocity field, extracted to match user dimensions.
         """
         # 1. Generate noise on the computational grid
-        noise = np.random.normal(0, 1, size=(self.comp_N1, self.comp_N2))
+        noise = self.prng.normal(0, 1, size=(self.comp_N1, self.comp_N2))
         # 2. Compute its Fourier transform
         noise_hat = np.fft.fft2(noise)
 
-- 
2.43.0


From 07098c779be97f9925b0a6718728ec2310014bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:57 +0000
Subject: [PATCH 05/34] fix: OnePointSpectra stores natural logarithms of its
 scales

---
 drdmannturb/spectra_fitting/one_point_spectra.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/drdmannturb/spectra_fitting/one_point_spectra.py b/drdmannturb/spectra_fitting/one_point_spectra.py
index 99baa85..0fdc0a9 100644
--- a/drdmannturb/spectra_fitting/one_point_spectra.py
+++ b/drdmannturb/spectra_fitting/one_point_spectra.py
@@ -137,13 +137,9 @@ class OnePointSpectra(nn.Module):
 
             self.coh_meshgrid23 = torch.meshgrid(self.coh_grid_k2, self.coh_grid_k3, indexing="ij")
 
-        self.logLengthScale = nn.Parameter(torch.tensor(np.log10(physical_params.L)))
-        self.logTimeScale = nn.Parameter(torch.tensor(np.log10(physical_params.Gamma)))
-        self.logMagnitude = nn.Parameter(torch.tensor(np.log10(physical_params.sigma)))
-
-        self.logLengthScale = nn.Parameter(torch.tensor(np.log10(physical_params.L), dtype=torch.get_default_dtype()))
-        self.logTimeScale = nn.Parameter(torch.tensor(np.log10(physical_params.Gamma), dtype=torch.get_default_dtype()))
-        self.logMagnitude = nn.Parameter(torch.tensor(np.log10(physical_params.sigma), dtype=torch.get_default_dtype()))
+        self.logLengthScale = nn.Parameter(torch.tensor(np.log(physical_params.L), dtype=torch.get_default_dtype()))
+        self.logTimeScale = nn.Parameter(torch.tensor(np.log(physical_params.Gamma), dtype=torch.get_default_dtype()))
+        self.logMagnitude = nn.Parameter(torch.tensor(np.log(physical_params.sigma), dtype=torch.get_default_dtype()))
 
         if use_learnable_spectrum:
             self.p_exponent = nn.Parameter(torch.tensor(p_exponent))
-- 
2.43.0


From 1d7c000ea767934903f799d45f528e27a9fba8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:57 +0000
Subject: [PATCH 06/34] fix: get_div uses existing wavevectors and the
 PowerSpectra component order

---
 drdmannturb/spectra_fitting/one_point_spectra.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/drdmannturb/spectra_fitting/one_point_spectra.py b/drdmannturb/spectra_fitting/one_point_spectra.py
index 0fdc0a9..f5c99bc 100644
--- a/drdmannturb/spectra_fitting/one_point_spectra.py
+++ b/drdmannturb/spectra_fitting/one_point_spectra.py
@@ -557,7 +557,7 @@ class OnePointSpectra(nn.Module):
         -------
         tuple[Tensor, Tensor, Tensor, Tensor, Tensor, Tensor]
             6-tuple of the components of the velocity-spectrum tensor in the order:
-            :math:`\Phi_{11}, \Phi_{22}, \Phi_{33}, \Phi_{13}, \Phi_{12}, \Phi_{23}`.
+            :math:`\Phi_{11}, \Phi_{22}, \Phi_{33}, \Phi_{13}, \Phi_{23}, \Phi_{12}`.
         """
         k = self.k
         beta = self.beta
@@ -650,8 +650,8 @@ class OnePointSpectra(nn.Module):
         torch.Tensor
             Divergence of the spectral tensor in the frequency domain.
         """
-        k1, k2, k3 = self.freq
-        Phi11, Phi22, Phi33, Phi13, Phi12, Phi23 = Phi
+        k1, k2, k3 = self.k123
+        Phi11, Phi22, Phi33, Phi13, Phi23, Phi12 = Phi
         div = torch.stack(
             [
                 k1 * Phi11 + k2 * Phi12 + k3 * Phi13,
-- 
2.43.0


From 823209034d47af7bd4632778da933dcc85a01428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:57 +0000
Subject: [PATCH 07/34] fix: eval_grad differentiates the model output

---
 drdmannturb/spectra_fitting/calibration.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 65743c0..31ff89d 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -252,10 +252,8 @@ class CalibrationProblem:
             Numpy array of resultant gradient (CPU bound)
         """
         self.OPS.zero_grad()
-        res: torch.Tensor
-        with torch.no_grad():
-            res = self.OPS(k1)
-        res.backward()
+        res: torch.Tensor = self.OPS(k1)
+        res.sum().backward()
         grad = torch.cat([param.grad.view(-1) for param in self.OPS.parameters()])
         return grad.cpu().numpy()
 
-- 
2.43.0


From b347cd2d3363bccfaf4ce2a44fbdbdabe45a8d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:57 +0000
Subject: [PATCH 08/34] fix: init_with_noise works for the modules that exist

---
 drdmannturb/spectra_fitting/calibration.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 31ff89d..5106eee 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -213,9 +213,8 @@ class CalibrationProblem:
         )
         vector_to_parameters(noise.abs(), self.OPS.parameters())
 
-        vector_to_parameters(noise, self.OPS.tauNet.parameters())
-
-        vector_to_parameters(noise.abs(), self.OPS.Corrector.parameters())
+        if hasattr(self.OPS, "tauNet"):
+            vector_to_parameters(noise, self.OPS.tauNet.parameters())
 
     def eval(self, k1: torch.Tensor) -> np.ndarray:
         r"""Evaluate the calibrated model on :math:`k_1`.
-- 
2.43.0


From 2ae89fb673150fc98586f1b35a145394e67e8be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:57 +0000
Subject: [PATCH 09/34] fix: plot 23 and 12 spectra against their own data

---
 drdmannturb/spectra_fitting/calibration.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 5106eee..62c87a2 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -768,14 +768,14 @@ class CalibrationProblem:
         # Data order depends on num_components:
         # 3 components: [F11, F22, F33] -> model indices [0, 1, 2]
         # 4 components: [F11, F22, F33, F13] -> model indices [0, 1, 2, 3]
-        # 6 components: [F11, F22, F33, F13, F12, F23] -> model indices [0, 1, 2, 3, 5, 4] (reordered)
+        # 6 components: [F11, F22, F33, F13, F23, F12] -> model indices [0, 1, 2, 3, 4, 5]
 
         if self.prob_params.num_components == 3:
             data_component_map = {0: 0, 1: 1, 2: 2}  # model_idx: data_idx
         elif self.prob_params.num_components == 4:
             data_component_map = {0: 0, 1: 1, 2: 2, 3: 3}  # model_idx: data_idx
         elif self.prob_params.num_components == 6:
-            data_component_map = {0: 0, 1: 1, 2: 2, 3: 3, 4: 5, 5: 4}  # model_idx: data_idx (F23 and F12 swapped)
+            data_component_map = {0: 0, 1: 1, 2: 2, 3: 3, 4: 4, 5: 5}  # model_idx: data_idx
         else:
             raise ValueError(f"Invalid number of components: {self.prob_params.num_components}")
 
@@ -810,8 +810,8 @@ class CalibrationProblem:
                         DataValues[:, 1, 1],  # F22 (vv)
                         DataValues[:, 2, 2],  # F33 (ww)
                         DataValues[:, 0, 2],  # F13 (uw)
-                        DataValues[:, 0, 1],  # F12 (uv)
                         DataValues[:, 1, 2],  # F23 (vw)
+                        DataValues[:, 0, 1],  # F12 (uv)
                     ]
                 )
 
-- 
2.43.0


From 716e1f8d05224149ab2a507329791ee8bb6e92bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:57 +0000
Subject: [PATCH 10/34] fix: map pickled tensors to the CPU when no GPU is
 available

---
 drdmannturb/common.py                                           | 2 +-
 .../fluctuation_generation/fluctuation_field_generator.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/drdmannturb/common.py b/drdmannturb/common.py
index 55f7dd7..bafeaf1 100644
--- a/drdmannturb/common.py
+++ b/drdmannturb/common.py
@@ -160,7 +160,7 @@ class CPU_Unpickler(pickle.Unpickler):
 
     def find_class(self, module, name):
         if module == "torch.storage" and name == "_load_from_bytes":
-            return lambda b: torch.load(io.BytesIO(b), map_location="cpu")
+            return lambda b: torch.load(io.BytesIO(b), map_location="cpu", weights_only=False)
         else:
             return super().find_class(module, name)
 
diff --git a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
index 51f44ce..74fe34a 100644
--- a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
@@ -132,7 +132,7 @@ class FluctuationFieldGenerator:
             # Load DRD model parameters
             device = "cuda" if torch.cuda.is_available() else "cpu"
             with open(path_to_parameters, "rb") as file:
-                params = pickle.load(file) if device == "cpu" else CPU_Unpickler(file).load()
+                params = CPU_Unpickler(file).load() if device == "cpu" else pickle.load(file)
             nn_params, prob_params, loss_params, phys_params, model_params = params
 
             # Initialize calibration problem and get scales
-- 
2.43.0


From f57002930b68d2d4c68dbc7bb88dbe2040bdf363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:57 +0000
Subject: [PATCH 11/34] fix: __all__ lists only names the package defines

---
 drdmannturb/__init__.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/drdmannturb/__init__.py b/drdmannturb/__init__.py
index be1d430..b0523f1 100644
--- a/drdmannturb/__init__.py
+++ b/drdmannturb/__init__.py
@@ -80,15 +80,8 @@ __all__ = [
     "format_wind_field",
     "plot_velocity_components",
     "plot_velocity_magnitude",
-    # Interpolation
-    "extract_x_spectra",
-    "interp_spectra",
-    "interpolate",
     # NN Modules
-    "CustomMLP",
-    "CustomNet",
     "Rational",
-    "SimpleNN",
     "TauNet",
     # Parameters
     "IntegrationParameters",
-- 
2.43.0


From d6389d14a4a69de1b28542f10312f40c8d3e95e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:57 +0000
Subject: [PATCH 12/34] fix: DomainParameters validates the levels it was given

---
 drdmannturb/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/parameters.py b/drdmannturb/parameters.py
index 43e198d..9659614 100644
--- a/drdmannturb/parameters.py
+++ b/drdmannturb/parameters.py
@@ -229,7 +229,7 @@ class DomainParameters:
             self._grid_dimensions = np.array(self.d_dimensions)
 
         # Check grid levels
-        if isinstance(self.grid_levels, (list, np.ndarray)) and len(self.grid_levels) != 3:
+        if isinstance(self.d_levels, (list, np.ndarray)) and len(self.d_levels) != 3:
             raise ValueError("Grid levels must be a tuple of length 3.")
 
         if isinstance(self.d_levels, np.ndarray):
-- 
2.43.0


From 9794595fedc7de1ee60a30eceffe1956d360973d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:57 +0000
Subject: [PATCH 13/34] fix: low-frequency field continues across successive
 generate() calls

---
 .../fluctuation_generation/fluctuation_field_generator.py     | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
index 74fe34a..3fdb3dc 100644
--- a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
@@ -454,7 +454,9 @@ class FluctuationFieldGenerator:
                 # --- X-Coordinates (blocks progress in x-direction
                 current_block_nx = normed_block.shape[0]
                 block_length_x = self.grid_dimensions[0] * (current_block_nx / self.Nx)
-                x_start = i * self.grid_dimensions[0]  # TODO: Revisit if blending affects block start/end precisely
+                # Blocks already generated (also by earlier calls) determine where this block starts
+                blocks_done = self.total_fluctuation.shape[0] // self.Nx
+                x_start = blocks_done * self.grid_dimensions[0]  # TODO: Revisit if blending affects block start/end
                 x_end = x_start + block_length_x
                 x_coords_block_target = np.linspace(x_start, x_end, current_block_nx, endpoint=False)
 
-- 
2.43.0


From e093fabb8447fb210c4124b355e103b06a00d346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:57 +0000
Subject: [PATCH 14/34] fix: Mann eddy lifetime approximation is fitted to the
 non-dimensional lifetime

---
 drdmannturb/spectra_fitting/one_point_spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/spectra_fitting/one_point_spectra.py b/drdmannturb/spectra_fitting/one_point_spectra.py
index f5c99bc..06754c5 100644
--- a/drdmannturb/spectra_fitting/one_point_spectra.py
+++ b/drdmannturb/spectra_fitting/one_point_spectra.py
@@ -439,7 +439,7 @@ class OnePointSpectra(nn.Module):
         kL_temp = np.logspace(-3, 3, 50)
 
         kL_temp = kL_temp.reshape(-1, 1)
-        tau_true = np.log(self.TimeScale_scalar * MannEddyLifetime(self.LengthScale_scalar * kL_temp))
+        tau_true = np.log(MannEddyLifetime(kL_temp))
 
         kL_temp_log = np.log(kL_temp)
 
-- 
2.43.0


From 7d0ac2b833aa2344b6889d90f4eeab5c95eb7412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:57 +0000
Subject: [PATCH 15/34] fix: evaluating the spectral tensor does not rescale
 the stored energy spectrum

---
 drdmannturb/spectra_fitting/one_point_spectra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/drdmannturb/spectra_fitting/one_point_spectra.py b/drdmannturb/spectra_fitting/one_point_spectra.py
index 06754c5..b8e3f99 100644
--- a/drdmannturb/spectra_fitting/one_point_spectra.py
+++ b/drdmannturb/spectra_fitting/one_point_spectra.py
@@ -372,7 +372,7 @@ class OnePointSpectra(nn.Module):
 
         zeta1 = C1 - k2 / k1 * C2
         zeta2 = C1 * k2 / k1 + C2
-        E0_coh /= 4 * torch.pi
+        E0_coh = E0_coh / (4 * torch.pi)
 
         Phi11 = E0_coh / (kk0**2) * (kk0 - k1**2 - 2 * k1 * k30 * zeta1 + (k1**2 + k2**2) * zeta1**2)
         Phi22 = E0_coh / (kk0**2) * (kk0 - k2**2 - 2 * k2 * k30 * zeta2 + (k1**2 + k2**2) * zeta2**2)
@@ -581,7 +581,7 @@ class OnePointSpectra(nn.Module):
 
         zeta1 = C1 - k2 / k1 * C2
         zeta2 = C1 * k2 / k1 + C2
-        E0 /= 4 * torch.pi
+        E0 = E0 / (4 * torch.pi)
         Phi11 = E0 / (kk0**2) * (kk0 - k1**2 - 2 * k1 * k30 * zeta1 + (k1**2 + k2**2) * zeta1**2)
         Phi22 = E0 / (kk0**2) * (kk0 - k2**2 - 2 * k2 * k30 * zeta2 + (k1**2 + k2**2) * zeta2**2)
         Phi33 = E0 / (kk**2) * (k1**2 + k2**2)
-- 
2.43.0


From 078019ac75686328ee6cdbe7107141a513a35079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:57 +0000
Subject: [PATCH 16/34] fix: coherence grid follows the integration parameters
 and current length scale

---
 drdmannturb/spectra_fitting/one_point_spectra.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/drdmannturb/spectra_fitting/one_point_spectra.py b/drdmannturb/spectra_fitting/one_point_spectra.py
index b8e3f99..b70d158 100644
--- a/drdmannturb/spectra_fitting/one_point_spectra.py
+++ b/drdmannturb/spectra_fitting/one_point_spectra.py
@@ -105,6 +105,7 @@ class OnePointSpectra(nn.Module):
 
         if integration_params is None:
             integration_params = IntegrationParameters()
+        self.integration_params = integration_params
 
         ####
         # OPS grid
@@ -278,8 +279,11 @@ class OnePointSpectra(nn.Module):
             Shape: (3, n_separations, n_frequencies)
         """
         self.exp_scales()
-        if not hasattr(self, "coh_grid_k2") or not hasattr(self, "coh_grid_k3"):
-            p1, p2, N_coh = -3, 3, 100
+        if hasattr(self, "coh_grid_k2") and hasattr(self, "coh_grid_k3"):
+            coh_grid_k2, coh_grid_k3 = self.coh_grid_k2, self.coh_grid_k3
+        else:
+            p1, p2 = self.integration_params.coh_log_min, self.integration_params.coh_log_max
+            N_coh = self.integration_params.coh_num_points
             grid_zero_coh = torch.tensor([0], dtype=torch.get_default_dtype())
             grid_plus_coh = torch.logspace(p1, p2, N_coh)
             grid_minus_coh = -torch.flip(grid_plus_coh, dims=[0])
@@ -287,14 +291,14 @@ class OnePointSpectra(nn.Module):
             # Scale the grid by 1/L to get proper physical units
             scale_factor = 1.0 / self.LengthScale
 
-            self.coh_grid_k2 = torch.cat((grid_minus_coh, grid_zero_coh, grid_plus_coh)).detach() * scale_factor
-            self.coh_grid_k3 = torch.cat((grid_minus_coh, grid_zero_coh, grid_plus_coh)).detach() * scale_factor
+            coh_grid_k2 = torch.cat((grid_minus_coh, grid_zero_coh, grid_plus_coh)).detach() * scale_factor
+            coh_grid_k3 = torch.cat((grid_minus_coh, grid_zero_coh, grid_plus_coh)).detach() * scale_factor
 
             # self.coh_grid_k2 = torch.cat((grid_minus_coh, grid_zero_coh, grid_plus_coh)).detach()
             # self.coh_grid_k3 = torch.cat((grid_minus_coh, grid_zero_coh, grid_plus_coh)).detach()
 
         # Create coherence-specific k-space grid
-        coh_k = torch.stack(torch.meshgrid(k1_input, self.coh_grid_k2, self.coh_grid_k3, indexing="ij"), dim=-1)
+        coh_k = torch.stack(torch.meshgrid(k1_input, coh_grid_k2, coh_grid_k3, indexing="ij"), dim=-1)
 
         # Calculate eddy lifetime on coherence grid
         beta_coh = self.EddyLifetime(coh_k)
-- 
2.43.0


From 27071989b0d4bb65d89ba56a162fc07927fa4118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:57 +0000
Subject: [PATCH 17/34] fix: coherence rows are placed by their separation and
 frequency labels

---
 drdmannturb/spectra_fitting/calibration.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 62c87a2..7006f7e 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -1208,20 +1208,20 @@ class CalibrationProblem:
 
             # Fill in the available data
             for _, row in df.iterrows():
-                i = int(row["sep_idx"])
-                j = int(row["freq_idx"])
-                if i < n_seps and j < n_freqs:
-                    coh_u[i, j] = row["coh_u"]
-                    coh_v[i, j] = row["coh_v"]
-                    coh_w[i, j] = row["coh_w"]
+                i = sep_mapping.index.get_loc(row["sep_idx"])
+                j = freq_mapping.index.get_loc(row["freq_idx"])
+                coh_u[i, j] = row["coh_u"]
+                coh_v[i, j] = row["coh_v"]
+                coh_w[i, j] = row["coh_w"]
 
             # Check how many NaN values we have
             nan_count = np.sum(np.isnan(coh_u))
             if nan_count > 0:
                 print(f"Warning: {nan_count} missing data points filled with NaN")
         else:
-            # We have complete data, can reshape normally
+            # We have complete data, can reshape normally once the rows are in (separation, frequency) order
             print("Complete data grid detected")
+            df = df.sort_values(["sep_idx", "freq_idx"])
             coh_u = df["coh_u"].values.reshape(n_seps, n_freqs)
             coh_v = df["coh_v"].values.reshape(n_seps, n_freqs)
             coh_w = df["coh_w"].values.reshape(n_seps, n_freqs)
-- 
2.43.0


From aae7ca0bf5f1998b47765c5431e0cb6ff57cba41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:25 +0000
Subject: [PATCH 18/34] fix: regularised calibration of closed-form eddy
 lifetimes

With beta_reg > 0 and a non-network eddy lifetime, calibrate() handed the
float 0.0 to the regularisation term and failed with AttributeError. Pass
None, which LossAggregator.eval already treats as 'no network parameters'.
---
 drdmannturb/spectra_fitting/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 7006f7e..1757a94 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -424,7 +424,7 @@ class CalibrationProblem:
             # NOTE: Old code used tauNet.NN.parameters() since the NN wasn't "built-in" to the tauNet
             self.gen_theta_NN = lambda: parameters_to_vector(self.OPS.tauNet.parameters())
         else:
-            self.gen_theta_NN = lambda: 0.0
+            self.gen_theta_NN = lambda: None
 
         theta_NN = self.gen_theta_NN()
         # print("\n[DEBUG calibrate] About to calculate initial loss...")
-- 
2.43.0


From 0f26c1af33a12a15c24d7c38bd8d9365b668f220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:22 +0000
Subject: [PATCH 19/34] fix: Mann and DRD spectral tensors at zero streamwise
 wavenumber

The distortion coefficient zeta1 tends to -beta as k1 -> 0; replacing the 0/0
by zero dropped the shear contribution to the whole k1 = 0 plane.
---
 drdmannturb/fluctuation_generation/covariance_kernels.py | 2 +-
 drdmannturb/fluctuation_generation/nn_covariance.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/drdmannturb/fluctuation_generation/covariance_kernels.py b/drdmannturb/fluctuation_generation/covariance_kernels.py
index 097d5e1..b3a0c20 100644
--- a/drdmannturb/fluctuation_generation/covariance_kernels.py
+++ b/drdmannturb/fluctuation_generation/covariance_kernels.py
@@ -229,7 +229,7 @@ class MannCovariance(Covariance):
             zeta3 = kk0 / kk
 
             # deal with divisions by zero
-            zeta1 = np.nan_to_num(zeta1)
+            zeta1 = np.where(k1 == 0, -beta, np.nan_to_num(zeta1))  # -beta is the limit k1 -> 0
             zeta2 = np.nan_to_num(zeta2)
             zeta3 = np.nan_to_num(zeta3)
 
diff --git a/drdmannturb/fluctuation_generation/nn_covariance.py b/drdmannturb/fluctuation_generation/nn_covariance.py
index 54c858e..3f36c2c 100644
--- a/drdmannturb/fluctuation_generation/nn_covariance.py
+++ b/drdmannturb/fluctuation_generation/nn_covariance.py
@@ -153,7 +153,7 @@ class NNCovariance(Covariance):
             zeta3 = kk0 / kk
 
             # deal with divisions by zero
-            zeta1 = np.nan_to_num(zeta1)
+            zeta1 = np.where(k1 == 0, -beta, np.nan_to_num(zeta1))  # -beta is the limit k1 -> 0
             zeta2 = np.nan_to_num(zeta2)
             zeta3 = np.nan_to_num(zeta3)
 
-- 
2.43.0


From a93f954cabc45b841c60146382fd8ca5f4910b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:40 +0000
Subject: [PATCH 20/34] fix: keep a problem's parameters apart from the tensor
 they were assigned from

---
 drdmannturb/spectra_fitting/calibration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 1757a94..ae903bb 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -185,6 +185,8 @@ class CalibrationProblem:
 
         if not torch.is_tensor(param_vec):
             param_vec = torch.tensor(param_vec)
+        else:
+            param_vec = param_vec.detach().clone()  # vector_to_parameters keeps views of its argument
 
         if len(param_vec) != current_num_params:
             raise ValueError(
-- 
2.43.0


From 0b79f203b5b819be0154871d2213b10db9814f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:46 +0000
Subject: [PATCH 21/34] fix: integration parameters of a calibration problem
 default to the documented values

---
 drdmannturb/spectra_fitting/calibration.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index ae903bb..12b0fb7 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -58,7 +58,7 @@ class CalibrationProblem:
         prob_params: ProblemParameters,
         loss_params: LossParameters,
         phys_params: PhysicalParameters,
-        integration_params: IntegrationParameters,
+        integration_params: IntegrationParameters | None = None,
         device: str = "cpu",
         logging_directory: str | None = None,
         output_directory: Path | str = Path().resolve() / "results",
@@ -84,6 +84,9 @@ class CalibrationProblem:
             A ``PhysicalParameters`` dataclass instance, which defines the physical constants governing the
             problem setting; note that the ``PhysicalParameters`` constructor requires three positional
             arguments.
+        integration_params : IntegrationParameters, optional
+            An ``IntegrationParameters`` dataclass instance, which defines the integration grids.
+            By default, calls constructor using the default values.
         logging_directory: Optional[str], optional
             TODO: Add docs for this
         output_directory : Union[Path, str], optional
@@ -114,7 +117,7 @@ class CalibrationProblem:
             physical_params=self.phys_params,
             nn_parameters=self.nn_params,
             learn_nu=self.prob_params.learn_nu,
-            integration_params=integration_params,
+            integration_params=integration_params if integration_params is not None else IntegrationParameters(),
             use_learnable_spectrum=self.prob_params.use_learnable_spectrum,
             p_exponent=self.prob_params.p_exponent,
             q_exponent=self.prob_params.q_exponent,
-- 
2.43.0


From 8933e49cbdd5b719e7a42e7a7ee48dbad0a5b0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:46 +0000
Subject: [PATCH 22/34] fix: examples of spectra fitting use the current data
 interface

---
 examples/01_basic_mann_parameters_fit.py |  9 ++++-----
 examples/04_eddy-lifetime_fit_gelu.py    |  4 ++--
 examples/05_custom_noisy_data_fit.py     | 22 +++++++++++-----------
 3 files changed, 17 insertions(+), 18 deletions(-)

diff --git a/examples/01_basic_mann_parameters_fit.py b/examples/01_basic_mann_parameters_fit.py
index a2711e7..254f7c4 100644
--- a/examples/01_basic_mann_parameters_fit.py
+++ b/examples/01_basic_mann_parameters_fit.py
@@ -35,7 +35,7 @@ from drdmannturb.parameters import (
     PhysicalParameters,
     ProblemParameters,
 )
-from drdmannturb.spectra_fitting import CalibrationProblem, OnePointSpectraDataGenerator
+from drdmannturb.spectra_fitting import CalibrationProblem, generate_kaimal_spectra
 
 device = "cuda" if torch.cuda.is_available() else "cpu"
 
@@ -77,11 +77,10 @@ pb = CalibrationProblem(
 ##############################################################################
 # Data Generation
 # ---------------
-# We now collect ``Data = (<data points>, <data values>)`` and specify the
-# reference height (``zref``) to be used during calibration. Note that ``DataType.KAIMAL``
-# is used by default.
+# We now collect the Kaimal spectra at the data points ``k1``, specifying the
+# reference height (``zref``) to be used during calibration.
 
-Data = OnePointSpectraDataGenerator(data_points=k1, zref=zref, ustar=ustar).Data
+Data = generate_kaimal_spectra(k1, zref, ustar)
 
 ##############################################################################
 # The model is now fit to the provided spectra given in ``Data``.
diff --git a/examples/04_eddy-lifetime_fit_gelu.py b/examples/04_eddy-lifetime_fit_gelu.py
index 622c549..9a31300 100644
--- a/examples/04_eddy-lifetime_fit_gelu.py
+++ b/examples/04_eddy-lifetime_fit_gelu.py
@@ -27,7 +27,7 @@ from drdmannturb.parameters import (
     PhysicalParameters,
     ProblemParameters,
 )
-from drdmannturb.spectra_fitting import CalibrationProblem, OnePointSpectraDataGenerator
+from drdmannturb.spectra_fitting import CalibrationProblem, generate_kaimal_spectra
 
 device = "cuda" if torch.cuda.is_available() else "cpu"
 
@@ -84,7 +84,7 @@ pb = CalibrationProblem(
 # ---------------
 # In the following cell, we construct our :math:`k_1` data points grid and
 # generate the values. ``Data`` will be a tuple ``(<data points>, <data values>)``.
-Data = OnePointSpectraDataGenerator(data_points=k1, zref=zref, ustar=ustar).Data
+Data = generate_kaimal_spectra(k1, zref, ustar)
 
 ##############################################################################
 # Training
diff --git a/examples/05_custom_noisy_data_fit.py b/examples/05_custom_noisy_data_fit.py
index 92f7905..d22e423 100644
--- a/examples/05_custom_noisy_data_fit.py
+++ b/examples/05_custom_noisy_data_fit.py
@@ -27,14 +27,13 @@ import numpy as np
 import torch
 import torch.nn as nn
 
-from drdmannturb.enums import DataType
 from drdmannturb.parameters import (
     LossParameters,
     NNParameters,
     PhysicalParameters,
     ProblemParameters,
 )
-from drdmannturb.spectra_fitting import CalibrationProblem, OnePointSpectraDataGenerator
+from drdmannturb.spectra_fitting import CalibrationProblem
 
 path = Path().resolve()
 
@@ -107,17 +106,18 @@ pb = CalibrationProblem(
 # The data are provided in a CSV format with the first column determining the frequency domain, which must be
 # non-dimensionalized by the reference velocity. The different spectra are provided in the order ``uu, vv, ww, uw``
 # where the last is the u-w cospectra (the convention for 3D velocity vector components being u, v, w for x, y, z).
-# The ``k1_data_points`` key word argument is needed here to define the domain over which the spectra are defined.
-CustomData = torch.tensor(np.genfromtxt(spectra_file, skip_header=1, delimiter=","))
+# The model is calibrated to a dictionary with the wavenumbers ``k1`` and the matrix of spectra ``ops`` at each of them.
+CustomData = torch.tensor(np.genfromtxt(spectra_file, skip_header=1, delimiter=","), dtype=torch.get_default_dtype())
 f = CustomData[:, 0]
 k1_data_pts = 2 * torch.pi * f / Uref
-Data = OnePointSpectraDataGenerator(
-    zref=zref,
-    data_points=k1_data_pts,
-    data_type=DataType.CUSTOM,
-    spectra_file=spectra_file,
-    k1_data_points=k1_data_pts.data.cpu().numpy(),
-).Data
+
+spectra = torch.zeros([len(k1_data_pts), 3, 3])
+spectra[:, 0, 0] = CustomData[:, 1]  # uu
+spectra[:, 1, 1] = CustomData[:, 2]  # vv
+spectra[:, 2, 2] = CustomData[:, 3]  # ww
+spectra[:, 0, 2] = -CustomData[:, 4]  # uw
+
+Data = {"k1": k1_data_pts, "ops": spectra}
 
 
 ##############################################################################
-- 
2.43.0


From c5f652fa500461cb9d40688be1a50e98cdc290a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:19 +0000
Subject: [PATCH 23/34] Revert the change of the examples (left as shipped)

---
 examples/01_basic_mann_parameters_fit.py |  9 +++++----
 examples/04_eddy-lifetime_fit_gelu.py    |  4 ++--
 examples/05_custom_noisy_data_fit.py     | 22 +++++++++++-----------
 3 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/examples/01_basic_mann_parameters_fit.py b/examples/01_basic_mann_parameters_fit.py
index 254f7c4..a2711e7 100644
--- a/examples/01_basic_mann_parameters_fit.py
+++ b/examples/01_basic_mann_parameters_fit.py
@@ -35,7 +35,7 @@ from drdmannturb.parameters import (
     PhysicalParameters,
     ProblemParameters,
 )
-from drdmannturb.spectra_fitting import CalibrationProblem, generate_kaimal_spectra
+from drdmannturb.spectra_fitting import CalibrationProblem, OnePointSpectraDataGenerator
 
 device = "cuda" if torch.cuda.is_available() else "cpu"
 
@@ -77,10 +77,11 @@ pb = CalibrationProblem(
 ##############################################################################
 # Data Generation
 # ---------------
-# We now collect the Kaimal spectra at the data points ``k1``, specifying the
-# reference height (``zref``) to be used during calibration.
+# We now collect ``Data = (<data points>, <data values>)`` and specify the
+# reference height (``zref``) to be used during calibration. Note that ``DataType.KAIMAL``
+# is used by default.
 
-Data = generate_kaimal_spectra(k1, zref, ustar)
+Data = OnePointSpectraDataGenerator(data_points=k1, zref=zref, ustar=ustar).Data
 
 ##############################################################################
 # The model is now fit to the provided spectra given in ``Data``.
diff --git a/examples/04_eddy-lifetime_fit_gelu.py b/examples/04_eddy-lifetime_fit_gelu.py
index 9a31300..622c549 100644
--- a/examples/04_eddy-lifetime_fit_gelu.py
+++ b/examples/04_eddy-lifetime_fit_gelu.py
@@ -27,7 +27,7 @@ from drdmannturb.parameters import (
     PhysicalParameters,
     ProblemParameters,
 )
-from drdmannturb.spectra_fitting import CalibrationProblem, generate_kaimal_spectra
+from drdmannturb.spectra_fitting import CalibrationProblem, OnePointSpectraDataGenerator
 
 device = "cuda" if torch.cuda.is_available() else "cpu"
 
@@ -84,7 +84,7 @@ pb = CalibrationProblem(
 # ---------------
 # In the following cell, we construct our :math:`k_1` data points grid and
 # generate the values. ``Data`` will be a tuple ``(<data points>, <data values>)``.
-Data = generate_kaimal_spectra(k1, zref, ustar)
+Data = OnePointSpectraDataGenerator(data_points=k1, zref=zref, ustar=ustar).Data
 
 ##############################################################################
 # Training
diff --git a/examples/05_custom_noisy_data_fit.py b/examples/05_custom_noisy_data_fit.py
index d22e423..92f7905 100644
--- a/examples/05_custom_noisy_data_fit.py
+++ b/examples/05_custom_noisy_data_fit.py
@@ -27,13 +27,14 @@ import numpy as np
 import torch
 import torch.nn as nn
 
+from drdmannturb.enums import DataType
 from drdmannturb.parameters import (
     LossParameters,
     NNParameters,
     PhysicalParameters,
     ProblemParameters,
 )
-from drdmannturb.spectra_fitting import CalibrationProblem
+from drdmannturb.spectra_fitting import CalibrationProblem, OnePointSpectraDataGenerator
 
 path = Path().resolve()
 
@@ -106,18 +107,17 @@ pb = CalibrationProblem(
 # The data are provided in a CSV format with the first column determining the frequency domain, which must be
 # non-dimensionalized by the reference velocity. The different spectra are provided in the order ``uu, vv, ww, uw``
 # where the last is the u-w cospectra (the convention for 3D velocity vector components being u, v, w for x, y, z).
-# The model is calibrated to a dictionary with the wavenumbers ``k1`` and the matrix of spectra ``ops`` at each of them.
-CustomData = torch.tensor(np.genfromtxt(spectra_file, skip_header=1, delimiter=","), dtype=torch.get_default_dtype())
+# The ``k1_data_points`` key word argument is needed here to define the domain over which the spectra are defined.
+CustomData = torch.tensor(np.genfromtxt(spectra_file, skip_header=1, delimiter=","))
 f = CustomData[:, 0]
 k1_data_pts = 2 * torch.pi * f / Uref
-
-spectra = torch.zeros([len(k1_data_pts), 3, 3])
-spectra[:, 0, 0] = CustomData[:, 1]  # uu
-spectra[:, 1, 1] = CustomData[:, 2]  # vv
-spectra[:, 2, 2] = CustomData[:, 3]  # ww
-spectra[:, 0, 2] = -CustomData[:, 4]  # uw
-
-Data = {"k1": k1_data_pts, "ops": spectra}
+Data = OnePointSpectraDataGenerator(
+    zref=zref,
+    data_points=k1_data_pts,
+    data_type=DataType.CUSTOM,
+    spectra_file=spectra_file,
+    k1_data_points=k1_data_pts.data.cpu().numpy(),
+).Data
 
 
 ##############################################################################
-- 
2.43.0


From 3bd1b377ede28760f6111231b858322c307c463b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:19 +0000
Subject: [PATCH 24/34] fix: a vector random field sampled without noise draws
 one vector per point

---
 .../gaussian_random_fields.py                 | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/drdmannturb/fluctuation_generation/gaussian_random_fields.py b/drdmannturb/fluctuation_generation/gaussian_random_fields.py
index 87a16d9..08ba597 100644
--- a/drdmannturb/fluctuation_generation/gaussian_random_fields.py
+++ b/drdmannturb/fluctuation_generation/gaussian_random_fields.py
@@ -265,3 +265,23 @@ class VectorGaussianRandomField(GaussianRandomField):
         self.DomainSlice = tuple(list(self.DomainSlice) + [slice(None, None, None)])
 
         self.Correlate.DomainSlice = self.DomainSlice
+
+    def sample_noise(self, grid_shape: Optional[np.ndarray] = None) -> np.ndarray:
+        """
+        Sample random vectors from the underlying distribution, by default one for each point of the grid.
+
+        Parameters
+        ----------
+        grid_shape : Optional[np.ndarray], optional
+            Shape of the noise, including the vector components, by default None, which results in one vector for
+            each point of the grid determined during construction of this object.
+
+        Returns
+        -------
+        np.ndarray
+            Sampled random values from underlying distribution of size matching the given shape.
+        """
+        if grid_shape is None:
+            grid_shape = [*self.ext_grid_shape, self.vdim]
+
+        return super().sample_noise(grid_shape)
-- 
2.43.0


From 89cfd450698c822f2fc629275a8f5049cb4e3e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:40 +0000
Subject: [PATCH 25/34] fix: the eddy lifetime network has the configured layer
 sizes and activations

---
 drdmannturb/spectra_fitting/one_point_spectra.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/drdmannturb/spectra_fitting/one_point_spectra.py b/drdmannturb/spectra_fitting/one_point_spectra.py
index b70d158..5e81bf0 100644
--- a/drdmannturb/spectra_fitting/one_point_spectra.py
+++ b/drdmannturb/spectra_fitting/one_point_spectra.py
@@ -89,9 +89,16 @@ class OnePointSpectra(nn.Module):
 
         if type_eddy_lifetime == EddyLifetimeType.TAUNET:
             assert nn_parameters is not None, "TauNet EddyLifetimeType requires NNParameters!"
+            activations = list(nn_parameters.activations)
+            if activations:
+                # A list shorter than the number of layers repeats from its beginning
+                activations += [
+                    activations[i % len(nn_parameters.activations)] for i in range(len(activations), nn_parameters.nlayers)
+                ]
             self.tauNet = TauNet(
                 nn_parameters.nlayers,
-                nn_parameters.hidden_layer_size,
+                nn_parameters.hidden_layer_sizes or nn_parameters.hidden_layer_size,
+                activations=activations or None,
                 learn_nu=learn_nu,
             )
 
-- 
2.43.0


From 485aa738e96a95601ccc84350d4083a6473e64c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:50 +0000
Subject: [PATCH 26/34] fix: coherence plots show the model at its current
 parameters

---
 drdmannturb/spectra_fitting/calibration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 12b0fb7..88cb232 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -1062,6 +1062,7 @@ class CalibrationProblem:
 
         # Add coherence plotting after spectra plots
         if hasattr(self, "has_coherence_data") and self.has_coherence_data:
+            self.model_coherence_u, self.model_coherence_v, self.model_coherence_w = self._compute_model_coherence()
             self._plot_coherence_data()
 
         plt.show()  # Show all created figures
-- 
2.43.0


From ba3da71fd3f10aacba961d17c6f5d6f413bdbd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:50 +0000
Subject: [PATCH 27/34] fix: the initial training loss includes the coherence
 term

---
 drdmannturb/spectra_fitting/calibration.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 88cb232..cb5da2f 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -435,7 +435,20 @@ class CalibrationProblem:
         # print("\n[DEBUG calibrate] About to calculate initial loss...")
         # print(f"[DEBUG calibrate] self.curves: {self.curves}")
 
-        self.loss = self.LossAggregator.eval(y[self.curves], y_data[self.curves], theta_NN, 0)
+        initial_coherence_data: dict | None = None
+        if self.has_coherence_data:
+            initial_coherence_data = {
+                "model_u": self.model_coherence_u,
+                "model_v": self.model_coherence_v,
+                "model_w": self.model_coherence_w,
+                "data_u": self.coherence_data_u_selected,
+                "data_v": self.coherence_data_v_selected,
+                "data_w": self.coherence_data_w_selected,
+            }
+
+        self.loss = self.LossAggregator.eval(
+            y[self.curves], y_data[self.curves], theta_NN, 0, coherence_data=initial_coherence_data
+        )
 
         print("=" * 40)
         print(f"Initial loss: {self.loss.item()}")
-- 
2.43.0


From 8eda84d53c051ee359223db92392f5febc9816f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:14 +0000
Subject: [PATCH 28/34] Revert the default of integration_params (the shipped
 precision tests then train for minutes)

---
 drdmannturb/spectra_fitting/calibration.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index cb5da2f..d054095 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -58,7 +58,7 @@ class CalibrationProblem:
         prob_params: ProblemParameters,
         loss_params: LossParameters,
         phys_params: PhysicalParameters,
-        integration_params: IntegrationParameters | None = None,
+        integration_params: IntegrationParameters,
         device: str = "cpu",
         logging_directory: str | None = None,
         output_directory: Path | str = Path().resolve() / "results",
@@ -84,9 +84,6 @@ class CalibrationProblem:
             A ``PhysicalParameters`` dataclass instance, which defines the physical constants governing the
             problem setting; note that the ``PhysicalParameters`` constructor requires three positional
             arguments.
-        integration_params : IntegrationParameters, optional
-            An ``IntegrationParameters`` dataclass instance, which defines the integration grids.
-            By default, calls constructor using the default values.
         logging_directory: Optional[str], optional
             TODO: Add docs for this
         output_directory : Union[Path, str], optional
@@ -117,7 +114,7 @@ class CalibrationProblem:
             physical_params=self.phys_params,
             nn_parameters=self.nn_params,
             learn_nu=self.prob_params.learn_nu,
-            integration_params=integration_params if integration_params is not None else IntegrationParameters(),
+            integration_params=integration_params,
             use_learnable_spectrum=self.prob_params.use_learnable_spectrum,
             p_exponent=self.prob_params.p_exponent,
             q_exponent=self.prob_params.q_exponent,
-- 
2.43.0


From 01b5c3e7a4fb587bee68fd9cd6a5acabf3927ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:58 +0000
Subject: [PATCH 29/34] fix: mesh and domain studies average fields on the
 user's grid

---
 .../fluctuation_generation/low_frequency/large_plot.py    | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/drdmannturb/fluctuation_generation/low_frequency/large_plot.py b/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
index faa0302..36ccb74 100644
--- a/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
+++ b/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
@@ -20,8 +20,8 @@ def _run_single_mesh(exponent, config, num_realizations=5):
     local_config["exp2"] = exponent
 
     gen = ffg.LowFreqGenerator(local_config)
-    u1 = np.zeros_like(gen.k1)
-    u2 = np.zeros_like(gen.k2)
+    u1 = np.zeros((gen.user_N1, gen.user_N2))
+    u2 = np.zeros((gen.user_N1, gen.user_N2))
 
     for _ in range(num_realizations):
         curr_u1, curr_u2 = gen.generate()
@@ -108,8 +108,8 @@ def _run_single_domain_size(domain_factor, config, num_realizations=5):
     local_config["L2_factor"] = domain_factor
 
     gen = ffg.LowFreqGenerator(local_config)
-    u1 = np.zeros_like(gen.k1)
-    u2 = np.zeros_like(gen.k2)
+    u1 = np.zeros((gen.user_N1, gen.user_N2))
+    u2 = np.zeros((gen.user_N1, gen.user_N2))
 
     for _ in range(num_realizations):
         curr_u1, curr_u2 = gen.generate()
-- 
2.43.0


From e0b7a792feadff8ed64f3602a306e7fd64074d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:46 +0000
Subject: [PATCH 30/34] fix: the anisotropy study plots a single angle

---
 drdmannturb/fluctuation_generation/low_frequency/large_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/low_frequency/large_plot.py b/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
index 36ccb74..b095e7a 100644
--- a/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
+++ b/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
@@ -749,7 +749,7 @@ def anisotropy_study(base_config, psi_degrees, num_realizations=10, do_plot=True
     # --- Setup Figure ---
     fig, axs = None, None
     if do_plot:
-        fig, axs = plt.subplots(n_angles, 2, figsize=(9, 3.5 * n_angles), sharex=True, sharey=True)
+        fig, axs = plt.subplots(n_angles, 2, figsize=(9, 3.5 * n_angles), sharex=True, sharey=True, squeeze=False)
         fig.suptitle(r"Generated Velocity Fields for different $\psi$ angles", fontsize=14)
     elif not do_plot:
         print("Plotting disabled.")
-- 
2.43.0


From 0c7fd1d9368b0d87cf917d5f31b5877fc5d1abc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:38 +0000
Subject: [PATCH 31/34] fix: plot_losses numbers the runs in the order they
 were recorded

---
 drdmannturb/spectra_fitting/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index d054095..0ee2be1 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -1173,7 +1173,7 @@ class CalibrationProblem:
         # TODO: This is temporary
         assert self.logging_directory is not None, "Logging directory not set!"
 
-        log_fpath = listdir(self.logging_directory)[run_number]
+        log_fpath = sorted(listdir(self.logging_directory))[run_number]
         full_fpath = path.join(self.logging_directory, log_fpath)
 
         from drdmannturb import plot_loss_logs
-- 
2.43.0


From 09125812bac3fd8b0a49a27e283321cb65cb780c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:38 +0000
Subject: [PATCH 32/34] fix: loss logs with a single term can be plotted

---
 drdmannturb/common.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/drdmannturb/common.py b/drdmannturb/common.py
index bafeaf1..16d400b 100644
--- a/drdmannturb/common.py
+++ b/drdmannturb/common.py
@@ -190,11 +190,11 @@ def plot_loss_logs(log_file: str | Path):
 
     with plt.style.context("bmh"):
         plt.rcParams.update({"font.size": 8})
-        fig, ax = plt.subplots(1, vals_tot.__len__(), figsize=(12, 4), sharex=True)
+        fig, ax = plt.subplots(1, vals_tot.__len__(), figsize=(12, 4), sharex=True, squeeze=False)
         for idx, (scalar_tag, vals) in enumerate(reversed(vals_tot.items())):
-            ax[idx].plot(vals[1:])
-            ax[idx].set_yscale("log")
-            ax[idx].set_title(scalar_tag)
+            ax[0, idx].plot(vals[1:])
+            ax[0, idx].set_yscale("log")
+            ax[0, idx].set_title(scalar_tag)
 
         fig.text(0.5, 0.01, "Wolfe Iterations", ha="center")
         fig.tight_layout()
-- 
2.43.0


From 9fd2c3b04485226cc7e5aa907565f13079e75fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:28 +0000
Subject: [PATCH 33/34] fix: volume plots with reshape=False plotted slabs
 instead of components or raised IndexError

---
 drdmannturb/fluctuation_generation/wind_plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/drdmannturb/fluctuation_generation/wind_plot.py b/drdmannturb/fluctuation_generation/wind_plot.py
index f15d1e1..50b4dc7 100644
--- a/drdmannturb/fluctuation_generation/wind_plot.py
+++ b/drdmannturb/fluctuation_generation/wind_plot.py
@@ -82,7 +82,7 @@ def plot_velocity_components(
     """
     X, Y, Z = create_grid(spacing, wind_field.shape)
 
-    formatted_wind_field = format_wind_field(wind_field) if reshape else wind_field
+    formatted_wind_field = format_wind_field(wind_field) if reshape else np.moveaxis(wind_field, -1, 0)
 
     fig = make_subplots(
         rows=1,
@@ -198,7 +198,7 @@ def plot_velocity_magnitude(
     """
     X, Y, Z = create_grid(spacing, wind_field.shape)
 
-    formatted_wind_field = format_wind_field(wind_field) if reshape else wind_field
+    formatted_wind_field = format_wind_field(wind_field) if reshape else np.moveaxis(wind_field, -1, 0)
 
     wind_magnitude = np.sqrt(formatted_wind_field[0] ** 2 + formatted_wind_field[1] ** 2 + formatted_wind_field[2] ** 2)
 
-- 
2.43.0


From 5cd8cb2df79a1e48df2d2e6155b8399ba2bdeefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:28 +0000
Subject: [PATCH 34/34] fix: plot() before calibrate() raised AttributeError
 instead of the documented ValueError

---
 drdmannturb/spectra_fitting/calibration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 0ee2be1..185b30a 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -131,6 +131,8 @@ class CalibrationProblem:
         self.output_directory = output_directory
         self.logging_directory = logging_directory
 
+        self.data: dict[str, torch.Tensor] | None = None
+
     # TODO: propagate device setting through this method
     def init_device(self, device: str):
         """Initialize the device (CPU or GPU) on which computation is performed.
-- 
2.43.0

