From c28952904d53e52372b83d7aa2da7d3bf7b03b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:14 +0000
Subject: [PATCH 01/23] fix: seed D1 downward recurrence above |z| (wrong a_n,
 b_n for small n_max, wrong far near-fields)

---
 src/pymiediff/special.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 8d09ec3..93625e2 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -10,6 +10,7 @@ The Peña/Yang log-derivative recurrences are also implemented for stable
 multilayer computations.
 """
 # %%
+import math
 import warnings
 from typing import Union
 
@@ -489,7 +490,11 @@ def pena_D1_n(
     # build entries without in-place tensor writes (autograd-safe)
     D_list = [None] * (n_max + 1)
 
-    n_start = n_max + int(n_add)
+    # seed well above both the requested order and the turning point n ~ |z|:
+    # the downward recurrence only forgets its seed for orders n > |z|
+    z_max = float(_z.detach().abs().max()) if _z.numel() > 0 else 0.0
+    n_turn = math.ceil(z_max + 8.0 * z_max ** (1 / 3)) if math.isfinite(z_max) else 0
+    n_start = max(n_max, n_turn) + int(n_add)
     D_next = torch.zeros_like(_z, dtype=dtype_c)
     z_safe = torch.where(_z.abs() < eps, _z + eps, _z)
 
-- 
2.43.0


From 442a9afefe362f867b96733ed53c8c8f0d6e7334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:48 +0000
Subject: [PATCH 02/23] fix: psi/D3 recurrences without small-argument
 cancellation (near field at the sphere centre)

---
 src/pymiediff/special.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 93625e2..6b5a29d 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -559,7 +559,10 @@ def pena_D3_n(
 
     z_safe = torch.where(_z.abs() < eps, _z + eps, _z)
     for nn in range(1, n_max + 1):
-        t1 = (nn / z_safe) - D1[nn - 1, ...]
+        # 1 / (D1_n + n/z) = n/z - D1_{n-1}, without the cancellation at small z
+        den = (nn / z_safe) + D1[nn, ...]
+        den = torch.where(den.abs() < eps, den + eps, den)
+        t1 = 1.0 / den
         t2 = (nn / z_safe) - D3_prev
         psi_zeta_curr = psi_zeta_prev * t1 * t2
         denom = torch.where(psi_zeta_curr.abs() < eps, psi_zeta_curr + eps, psi_zeta_curr)
@@ -691,7 +694,11 @@ def pena_psi_zeta_n(
 
     z_safe = torch.where(_z.abs() < eps, _z + eps, _z)
     for nn in range(1, n_max + 1):
-        psi_curr = psi_prev * ((nn / z_safe) - D1[nn - 1, ...])
+        # psi_n = psi_{n-1} / (D1_n + n/z); the equivalent n/z - D1_{n-1} cancels
+        # catastrophically for small z
+        den = (nn / z_safe) + D1[nn, ...]
+        den = torch.where(den.abs() < eps, den + eps, den)
+        psi_curr = psi_prev / den
         zeta_curr = zeta_prev * ((nn / z_safe) - D3[nn - 1, ...])
         psi_list.append(psi_curr)
         zeta_list.append(zeta_curr)
-- 
2.43.0


From 173a4084ea1acb6e30be9c803b2c11fe5f72c9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:19 +0000
Subject: [PATCH 03/23] fix: near fields of the torch/scipy backends for
 several particles or wavelengths

---
 src/pymiediff/multishell.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index 7c432ec..edf19af 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -1376,6 +1376,12 @@ def nearfields(
     v_n = v_n.unsqueeze(-1).unsqueeze(-1)
     w_n = w_n.unsqueeze(-1).unsqueeze(-1)
 
+    r_c = r_c.unsqueeze(0).unsqueeze(-1).unsqueeze(-1)
+    r_s = r_s.unsqueeze(0).unsqueeze(-1).unsqueeze(-1)
+    n_core = n_core.unsqueeze(0).unsqueeze(-1).unsqueeze(-1)
+    n_shell = n_shell.unsqueeze(0).unsqueeze(-1).unsqueeze(-1)
+    n_env = n_env.unsqueeze(0).unsqueeze(-1).unsqueeze(-1)
+
     # add order, particle, wavenumber, vector dimensions
     r = r.unsqueeze(0).unsqueeze(0).unsqueeze(0).unsqueeze(-1)
     idx_1 = r <= r_c  # positions in core
-- 
2.43.0


From 00b97dca463494da8c30d4be2e612d295a882ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:20 +0000
Subject: [PATCH 04/23] fix: torch spherical j_n at z = k*pi and for |z| above
 the recurrence depth

---
 src/pymiediff/special.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 6b5a29d..b5fb0ae 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -774,10 +774,16 @@ def sph_jn_torch_via_rec(
     jns = []  # use python list for Bessel orders to avoid in-place modif.
 
     j_n = torch.ones_like(_z, dtype=dtype_c) * 0.0
-    j_np1 = torch.ones_like(_z, dtype=dtype_c) * 1e-25
+    j_np1 = torch.zeros_like(_z, dtype=dtype_c)
     j_nm1 = torch.zeros_like(_z, dtype=dtype_c)
 
-    for _n in range(n_max + n_add, 0, -1):
+    # the sweep must start above the turning point n ~ |z| of each argument
+    abs_z = _z.detach().abs()
+    n_start = torch.ceil(abs_z + 8.0 * abs_z ** (1 / 3)).nan_to_num(0.0) + n_add_min
+    n_start = n_start.clamp(min=n_max + n_add)
+
+    for _n in range(int(n_start.max()), 0, -1):
+        j_np1 = torch.where(n_start == _n, 1e-25 * torch.ones_like(_z), j_np1)
         j_nm1 = ((2.0 * _n + 1.0) / _z) * j_n - j_np1
         j_np1 = j_n
         j_n = j_nm1
@@ -790,6 +796,12 @@ def sph_jn_torch_via_rec(
     # normalize
     j0_exact = torch.sin(_z[-1, ...]) / _z[-1, ...]
     scale = j0_exact / jns[0, ...]
+    if n_max > 0:
+        # j_0 vanishes at z = k*pi: use the larger one of j_0 and j_1
+        j1_exact = (j0_exact - torch.cos(_z[-1, ...])) / _z[-1, ...]
+        use_j1 = jns[1, ...].abs() > jns[0, ...].abs()
+        j1_rec = torch.where(use_j1, jns[1, ...], torch.ones_like(j1_exact))
+        scale = torch.where(use_j1, j1_exact / j1_rec, scale)
     jns = jns * scale.unsqueeze(0)  # scale: expand order dim.
 
     return jns
@@ -886,6 +898,9 @@ def sph_jn_torch(
         else:
             n_extra_use = int(n_add)
         N = n_max + n_extra_use
+        if n_add == "auto":
+            # start above the turning point n ~ |z|
+            N = max(N, int(zabs_max + 8.0 * zabs_max ** (1 / 3)) + 20)
 
         # - allocate tensors
         r_storage = torch.zeros((n_max, n_z_big), dtype=dtype_c, device=z.device)
@@ -919,6 +934,14 @@ def sph_jn_torch(
         jns_big[0, :] = j0_big
         if n_max >= 1:
             jns_big[1:, :] = j0_big.unsqueeze(0) * r_cum
+            # j_0 vanishes at z = k*pi: start from j_1 where it is the larger one
+            j1_big = (j0_big - torch.cos(z_big)) / z_big
+            r_cum_1 = torch.cumprod(
+                torch.cat((torch.ones_like(r_storage[:1]), r_storage[1:])), dim=0
+            )
+            jns_big[1:, :] = torch.where(
+                r_storage[:1].abs() > 1.0, j1_big.unsqueeze(0) * r_cum_1, jns_big[1:, :]
+            )
         jns_flat[:, idx_big] = jns_big
 
     # reshape jns_flat into original z shape plus orders axis
-- 
2.43.0


From 950caa7913d8efe3cd7974519534c9187f41341c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:24 +0000
Subject: [PATCH 05/23] fix: Pena recurrences at z = k*pi (psi_0 = 0), e.g.
 r=250nm at 500nm wavelength

---
 src/pymiediff/special.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index b5fb0ae..9cd5866 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -565,6 +565,12 @@ def pena_D3_n(
         t1 = 1.0 / den
         t2 = (nn / z_safe) - D3_prev
         psi_zeta_curr = psi_zeta_prev * t1 * t2
+        if nn == 1:
+            # psi_0 = sin(z) vanishes at z = k*pi: restart from psi_1 there
+            exp_2iz = torch.exp(2j * _z)
+            psi_1_exp_iz = (exp_2iz - 1.0) / (2j * z_safe) - (exp_2iz + 1.0) / 2.0
+            psi_zeta_1 = -1j * psi_1_exp_iz * (1.0 / z_safe - 1j)
+            psi_zeta_curr = torch.where(den.abs() < 1.0, psi_zeta_1, psi_zeta_curr)
         denom = torch.where(psi_zeta_curr.abs() < eps, psi_zeta_curr + eps, psi_zeta_curr)
         D3_curr = D1[nn, ...] + 1j / denom
         D3_list.append(D3_curr)
@@ -576,6 +582,17 @@ def pena_D3_n(
 
 
 
+def _psi_1_over_zeta_1(z, D1_1, eps):
+    """Return ``exp(-2 Im z) psi_1(z) / zeta_1(z)`` and where ``psi_0(z)`` is small."""
+    z_safe = torch.where(z.abs() < eps, z + eps, z)
+    e_a = torch.exp(-2j * z.real)
+    e_b = torch.exp(-2.0 * z.imag)
+    psi_1 = (e_b - e_a) / (2j * z_safe) - (e_b + e_a) / 2.0
+    ratio = psi_1 / (-1j * (1.0 / z_safe - 1j))
+    # accurate unless z is small (there psi_0 >> psi_1)
+    return ratio, (D1_1 + 1.0 / z_safe).abs() < 1.0
+
+
 def pena_Q_n(
     n: Union[torch.Tensor, int],
     z1: torch.Tensor,
@@ -644,6 +661,12 @@ def pena_Q_n(
         den = (_z1 * D1_z1[nn, ...] + n_c) * (n_c - _z1 * D3_z1[nn - 1, ...])
         den = torch.where(den.abs() < eps, den + eps, den)
         Q_curr = Q_prev * x_ratio_sq * (num / den)
+        if nn == 1:
+            # psi_0 = sin(z) vanishes at z = k*pi: restart from psi_1 there
+            s1, s1_restart = _psi_1_over_zeta_1(_z1, D1_z1[1, ...], eps)
+            s2, s2_restart = _psi_1_over_zeta_1(_z2, D1_z2[1, ...], eps)
+            Q_restart = (s1 / s2) * torch.exp(-2.0 * (b2 - b1))
+            Q_curr = torch.where(s1_restart | s2_restart, Q_restart, Q_curr)
         Q_list.append(Q_curr)
         Q_prev = Q_curr
 
@@ -699,6 +722,10 @@ def pena_psi_zeta_n(
         den = (nn / z_safe) + D1[nn, ...]
         den = torch.where(den.abs() < eps, den + eps, den)
         psi_curr = psi_prev / den
+        if nn == 1:
+            # psi_0 = sin(z) vanishes at z = k*pi: restart from psi_1 there
+            psi_1 = torch.sin(_z) / z_safe - torch.cos(_z)
+            psi_curr = torch.where(den.abs() < 1.0, psi_1, psi_curr)
         zeta_curr = zeta_prev * ((nn / z_safe) - D3[nn - 1, ...])
         psi_list.append(psi_curr)
         zeta_list.append(zeta_curr)
-- 
2.43.0


From 4ffca7649c7255428461af470923be20521ec355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:35 +0000
Subject: [PATCH 06/23] fix: NaN near fields (and gradients) for probes close
 to the center of large spheres

---
 src/pymiediff/multishell.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index edf19af..a1a8d7a 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -1194,13 +1194,27 @@ def nearfields(
 
         M1_o, M1_e, N1_o, N1_e = [], [], [], []
         M3_o, M3_e, N3_o, N3_e = [], [], [], []
-        for n_med in n_medium_reg:
+        for li, n_med in enumerate(n_medium_reg):
+            # probes of other regions are discarded below: move them to the region
+            # boundary, where no overflow can occur (zeta_n diverges at the center)
+            r_reg = r_sh
+            if li < L:
+                r_hi = r_layers[:, li].detach().view(1, n_p, 1, 1, 1)
+                r_reg = torch.where(r_reg > r_hi, r_hi, r_reg)
+            if li > 0:
+                r_lo = r_layers[:, li - 1].detach().view(1, n_p, 1, 1, 1)
+                r_reg = torch.where(r_reg < r_lo, r_lo, r_reg)
+
             _M1o, _M1e, _N1o, _N1e = vsh_pena(
-                n_max, k0, n_med, r_sh, theta_sh, phi_sh, kind=1, precision=precision
-            )
-            _M3o, _M3e, _N3o, _N3e = vsh_pena(
-                n_max, k0, n_med, r_sh, theta_sh, phi_sh, kind=3, precision=precision
+                n_max, k0, n_med, r_reg, theta_sh, phi_sh, kind=1, precision=precision
             )
+            if li == 0:
+                # fields are regular in the core: no zeta_n terms (a_l = b_l = 0)
+                _M3o, _M3e, _N3o, _N3e = (torch.zeros_like(_M1o),) * 4
+            else:
+                _M3o, _M3e, _N3o, _N3e = vsh_pena(
+                    n_max, k0, n_med, r_reg, theta_sh, phi_sh, kind=3, precision=precision
+                )
             M1_o.append(_M1o)
             M1_e.append(_M1e)
             N1_o.append(_N1o)
-- 
2.43.0


From 3145dfa33b68b9aa0c4584c5aa8dbe56be359bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:59 +0000
Subject: [PATCH 07/23] fix: material lookup table kept autograd graphs and
 handed out its own tensors

---
 src/pymiediff/materials/mat.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/pymiediff/materials/mat.py b/src/pymiediff/materials/mat.py
index eaece00..d8c9e75 100644
--- a/src/pymiediff/materials/mat.py
+++ b/src/pymiediff/materials/mat.py
@@ -384,17 +384,22 @@ class MatDatabase(MaterialBase):
         return eps
 
     def _get_eps_single_wl(self, wavelength):
+        # differentiable wavelength: the result belongs to the caller's autograd
+        # graph and must neither come from the lookup table nor be stored in it
+        if torch.is_grad_enabled() and getattr(wavelength, "requires_grad", False):
+            _eps = self._eval(wavelength)
+            return torch.as_tensor(_eps, dtype=DTYPE_COMPLEX, device=self.device)
+
         # memoize evaluations
         wl_key = float(wavelength)
 
-        if wl_key in self.lookup_eps:
-            eps = self.lookup_eps[wl_key]
-        else:
+        if wl_key not in self.lookup_eps:
             _eps = self._eval(wavelength)
             eps = torch.as_tensor(_eps, dtype=DTYPE_COMPLEX, device=self.device)
-            self.lookup_eps[wl_key] = eps
+            self.lookup_eps[wl_key] = eps.detach()
 
-        return eps
+        # hand out a copy: modifying a result must not alter the lookup table
+        return self.lookup_eps[wl_key].clone()
 
     def get_epsilon(self, wavelength):
         """get permittivity at `wavelength`
-- 
2.43.0


From d4e58fab896e79773cc2159b568a9cb5855b0497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:21 +0000
Subject: [PATCH 08/23] fix: gradient of spherical Bessel derivatives overwrote
 zeros in the caller's argument

---
 src/pymiediff/special.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 9cd5866..c9e2b8f 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -68,7 +68,7 @@ def bessel2ndDer(n: torch.Tensor, z: torch.Tensor, bessel, **kwargs):
     torch.Tensor
         Second derivative with respect to ``z``.
     """
-    z[z == 0] = 1e-10
+    z = np.where(z == 0, 1e-10, z)  # copy: `z` may share memory with the caller's tensor
     z = np.nan_to_num(z, nan=1e-10)
     return (1 / z**2) * ((n**2 - n - z**2) * bessel(n, z) + 2 * z * bessel(n + 1, z))
 
-- 
2.43.0


From ee7a8574fa60952cfcf6127465049f71fcc133d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:09 +0000
Subject: [PATCH 09/23] fix: TypeError when n_env is given to the torchgdm
 model extraction

---
 src/pymiediff/helper/tg.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pymiediff/helper/tg.py b/src/pymiediff/helper/tg.py
index 26ca5c4..a2cc2d8 100644
--- a/src/pymiediff/helper/tg.py
+++ b/src/pymiediff/helper/tg.py
@@ -178,8 +178,9 @@ def mie_ab_sphere_3d_AD(
     eps_env = _get_env_eps(mie_particle, wavelengths, device)
     assert torch.all(eps_env == eps_env[0]), "dispersive environment not supported yet"
     if n_env is not None:
-        assert eps_env[0] == n_env**2
-        eps_env = n_env**2
+        _eps_env = torch.full_like(eps_env, n_env**2)
+        assert torch.allclose(eps_env, _eps_env), "`n_env` differs from particle"
+        eps_env = _eps_env
     env_3d = EnvHomogeneous3D(env_material=float(eps_env[0].real), device=device)
 
     # --- get Mie coefficients from pymiediff particle
@@ -509,8 +510,9 @@ def extract_GPM_sphere_miediff(
     eps_env = _get_env_eps(mie_particle, wavelengths, device)
     assert torch.all(eps_env == eps_env[0]), "dispersive environment not supported yet"
     if n_env is not None:
-        assert eps_env[0] == n_env**2
-        eps_env = n_env**2
+        _eps_env = torch.full_like(eps_env, n_env**2)
+        assert torch.allclose(eps_env, _eps_env), "`n_env` differs from particle"
+        eps_env = _eps_env
     env_3d = EnvHomogeneous3D(env_material=float(eps_env[0].real), device=device)
 
     # full radius
-- 
2.43.0


From 4b7f5fe8b1a5da8a5fcf5faf2ea0eff5445b2a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:36 +0000
Subject: [PATCH 10/23] fix: torchgdm coefficients with n_max=1

---
 src/pymiediff/helper/tg.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pymiediff/helper/tg.py b/src/pymiediff/helper/tg.py
index a2cc2d8..7917e1c 100644
--- a/src/pymiediff/helper/tg.py
+++ b/src/pymiediff/helper/tg.py
@@ -189,10 +189,9 @@ def mie_ab_sphere_3d_AD(
     a_n = miecoeff["a_n"]
     b_n = miecoeff["b_n"]
 
-    if a_n.ndim == 1:  # single wl
-        a_n = a_n.unsqueeze(1)  # add empty wavelength dimension
-    if b_n.ndim == 1:
-        b_n = b_n.unsqueeze(1)
+    # restore dimensions squeezed for single wavelength or single order
+    a_n = a_n.reshape(n_max, len(k0))
+    b_n = b_n.reshape(n_max, len(k0))
 
     a_n = a_n.moveaxis(0, 1)
     b_n = b_n.moveaxis(0, 1)  # move Mie-order last
-- 
2.43.0


From 8ca44c36b5409f516cdf4e2c28f1b20b33258da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:04 +0000
Subject: [PATCH 11/23] fix: near fields inside small cores and behind opaque
 shells (unstable inward recursion)

---
 src/pymiediff/multishell.py | 110 +++++++++++++++++++++---------------
 1 file changed, 63 insertions(+), 47 deletions(-)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index a1a8d7a..d21e3e8 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -1088,7 +1088,48 @@ def nearfields(
             dim=1,
         )  # (Np, L+1, Nk)
 
-        eps = torch.tensor(1e-30, dtype=dtype_c, device=k0.device)
+        def _radial(z):
+            """log. derivatives and Riccati-Bessel functions at all orders"""
+            D1 = special.pena_D1_n(n_max, z, precision=precision)
+            D3 = special.pena_D3_n(n_max, z, D1=D1, precision=precision)
+            psi, zeta = special.pena_psi_zeta_n(
+                n_max, z, D1=D1, D3=D3, precision=precision
+            )
+            return D1, D3, psi, zeta
+
+        def _nonzero(x):
+            return torch.where(x == 0, torch.ones_like(x), x)
+
+        # radial functions on both sides of each interface
+        rad_in = [_radial(m_ext[:, li, :] * x_layers[:, li, :]) for li in range(L)]
+        rad_out = [_radial(m_ext[:, li + 1, :] * x_layers[:, li, :]) for li in range(L)]
+
+        # ratios a_l / d_l and b_l / c_l, l = 1 ... L. Determined from the (regular)
+        # core outwards: evaluating a_l, b_l inwards from a_L, b_L is unstable,
+        # zeta_n amplifies rounding errors in small cores or behind opaque shells.
+        ratio_a = [torch.zeros_like(a_L)]
+        ratio_b = [torch.zeros_like(b_L)]
+        u_layers = []  # radial functions u_a, u_a', u_b, u_b' at r_l (for d_l = c_l = 1)
+        for li in range(L):
+            D1, D3, psi, zeta = rad_in[li]
+            u_a = psi - ratio_a[li] * zeta
+            v_a = D1 * psi - ratio_a[li] * D3 * zeta
+            u_b = psi - ratio_b[li] * zeta
+            v_b = D1 * psi - ratio_b[li] * D3 * zeta
+            u_layers.append((u_a, v_a, u_b, v_b))
+
+            if li < L - 1:
+                m_ratio = m_ext[:, li + 1, :] / m_ext[:, li, :]
+                D1, D3, psi, zeta = rad_out[li]
+                psi_over_zeta = psi / _nonzero(zeta)
+                v_a = m_ratio * v_a
+                u_b = m_ratio * u_b
+                ratio_a.append(
+                    psi_over_zeta * (D1 * u_a - v_a) / _nonzero(D3 * u_a - v_a)
+                )
+                ratio_b.append(
+                    psi_over_zeta * (D1 * u_b - v_b) / _nonzero(D3 * u_b - v_b)
+                )
 
         # recursive expansion coefficients, l = L ... 1
         a_layers = [None] * (L + 1)
@@ -1101,57 +1142,32 @@ def nearfields(
         d_layers[L] = d_L
 
         for li in range(L - 1, -1, -1):
-            ml = m_ext[:, li, :]
-            mlp1 = m_ext[:, li + 1, :]
-            xl = x_layers[:, li, :]
-
-            z_l = ml * xl
-            z_lp1 = mlp1 * xl
-
-            D1_l = special.pena_D1_n(n_max, z_l, precision=precision)
-            D3_l = special.pena_D3_n(n_max, z_l, D1=D1_l, precision=precision)
-            psi_l, zeta_l = special.pena_psi_zeta_n(
-                n_max, z_l, D1=D1_l, D3=D3_l, precision=precision
+            D1_lp1, D3_lp1, psi_lp1, zeta_lp1 = rad_out[li]
+            m_ratio = m_ext[:, li, :] / m_ext[:, li + 1, :]
+
+            # radial functions just outside of r_l
+            u_a = d_layers[li + 1] * psi_lp1 - a_layers[li + 1] * zeta_lp1
+            u_b = c_layers[li + 1] * psi_lp1 - b_layers[li + 1] * zeta_lp1
+            v_a = d_layers[li + 1] * D1_lp1 * psi_lp1 - a_layers[li + 1] * D3_lp1 * zeta_lp1
+            v_b = c_layers[li + 1] * D1_lp1 * psi_lp1 - b_layers[li + 1] * D3_lp1 * zeta_lp1
+
+            # continuity (Ladutenko et al. 2017), of the larger one of both quantities
+            U_a, V_a, U_b, V_b = u_layers[li]
+            d_l = torch.where(
+                V_a.abs() > U_a.abs(),
+                m_ratio * v_a / _nonzero(V_a),
+                u_a / _nonzero(U_a),
             )
-
-            D1_lp1 = special.pena_D1_n(n_max, z_lp1, precision=precision)
-            D3_lp1 = special.pena_D3_n(n_max, z_lp1, D1=D1_lp1, precision=precision)
-            psi_lp1, zeta_lp1 = special.pena_psi_zeta_n(
-                n_max, z_lp1, D1=D1_lp1, D3=D3_lp1, precision=precision
+            c_l = torch.where(
+                V_b.abs() > U_b.abs(),
+                v_b / _nonzero(V_b),
+                m_ratio * u_b / _nonzero(U_b),
             )
 
-            a_nxt = a_layers[li + 1]
-            b_nxt = b_layers[li + 1]
-            c_nxt = c_layers[li + 1]
-            d_nxt = d_layers[li + 1]
-
-            T1 = a_nxt * zeta_lp1 - d_nxt * psi_lp1
-            T2 = b_nxt * zeta_lp1 - c_nxt * psi_lp1
-            T3 = d_nxt * D1_lp1 * psi_lp1 - a_nxt * D3_lp1 * zeta_lp1
-            T4 = c_nxt * D1_lp1 * psi_lp1 - b_nxt * D3_lp1 * zeta_lp1
-            U = D1_l - D3_l
-
-            den_a = zeta_l * U
-            den_c = psi_l * U
-            den_a = torch.where(den_a.abs() < eps.abs(), den_a + eps, den_a)
-            den_c = torch.where(den_c.abs() < eps.abs(), den_c + eps, den_c)
-
-            # Ladutenko et al. 2017, Eq. (7.1)-(7.4): factor m_l / m_{l+1}
-            m_ratio = ml / mlp1
-            a_l = (D1_l * T1 + T3 * m_ratio) / den_a
-            b_l = (D1_l * T2 * m_ratio + T4) / den_a
-            c_l = (D3_l * T2 * m_ratio + T4) / den_c
-            d_l = (D3_l * T1 + T3 * m_ratio) / den_c
-
-            # enforce regularity in inner core
-            if li == 0:
-                a_l = torch.zeros_like(a_l)
-                b_l = torch.zeros_like(b_l)
-
-            a_layers[li] = a_l
-            b_layers[li] = b_l
             c_layers[li] = c_l
             d_layers[li] = d_l
+            a_layers[li] = ratio_a[li] * d_l
+            b_layers[li] = ratio_b[li] * c_l
 
         # stack and remove n=0 slot for field sums
         a_reg = torch.stack(a_layers, dim=-1)[1:, ...]
-- 
2.43.0


From a3aa18208fef5db87fd5953f033b770e03656d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:44 +0000
Subject: [PATCH 12/23] fix: zeta_n lost all digits for large Im(z) (fields in
 opaque shells)

---
 src/pymiediff/special.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index c9e2b8f..b5aa66b 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -711,7 +711,8 @@ def pena_psi_zeta_n(
     _z = _z.to(dtype=dtype_c)
 
     psi_prev = torch.sin(_z)
-    zeta_prev = torch.sin(_z) - 1j * torch.cos(_z)
+    # sin(z) - i cos(z), without the cancellation for large Im(z)
+    zeta_prev = -1j * torch.exp(1j * _z)
     psi_list = [psi_prev]
     zeta_list = [zeta_prev]
 
-- 
2.43.0


From 0e67c1075285bd15a23b9db05805a3d5a4bbd472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:27 +0000
Subject: [PATCH 13/23] fix: NaN Mie coefficients (pena) for batches mixing
 small and large spheres

---
 src/pymiediff/special.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index b5aa66b..5fd1265 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -716,6 +716,9 @@ def pena_psi_zeta_n(
     psi_list = [psi_prev]
     zeta_list = [zeta_prev]
 
+    # zeta_n saturates instead of overflowing at orders far above |z|
+    zeta_sat = 1e30 if dtype_c == torch.complex64 else 1e250
+
     z_safe = torch.where(_z.abs() < eps, _z + eps, _z)
     for nn in range(1, n_max + 1):
         # psi_n = psi_{n-1} / (D1_n + n/z); the equivalent n/z - D1_{n-1} cancels
@@ -727,7 +730,10 @@ def pena_psi_zeta_n(
             # psi_0 = sin(z) vanishes at z = k*pi: restart from psi_1 there
             psi_1 = torch.sin(_z) / z_safe - torch.cos(_z)
             psi_curr = torch.where(den.abs() < 1.0, psi_1, psi_curr)
-        zeta_curr = zeta_prev * ((nn / z_safe) - D3[nn - 1, ...])
+        zeta_ratio = (nn / z_safe) - D3[nn - 1, ...]
+        saturated = zeta_prev.abs() * zeta_ratio.abs() > zeta_sat
+        zeta_ratio = torch.where(saturated, torch.ones_like(zeta_ratio), zeta_ratio)
+        zeta_curr = zeta_prev * zeta_ratio
         psi_list.append(psi_curr)
         zeta_list.append(zeta_curr)
         psi_prev = psi_curr
-- 
2.43.0


From 8c9c47dd6ce696ccf9b05620766f0420f79e2b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:54 +0000
Subject: [PATCH 14/23] fix: NaN Mie coefficients (torch, scipy) at orders far
 above the size parameter

---
 src/pymiediff/multishell.py | 32 ++++++++++++++++++++++++++++++++
 src/pymiediff/special.py    | 21 +++++++++++++++++----
 2 files changed, 49 insertions(+), 4 deletions(-)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index d21e3e8..e747fed 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -82,6 +82,21 @@ def _miecoef(
     y_m2x = sph_yn_func(n, m2 * x, precision=precision)
     y_m2y = sph_yn_func(n, m2 * y, precision=precision)
 
+    # y_n may overflow at orders far above |z| (e.g. small spheres evaluated together
+    # with large ones): the Mie coefficients (or the effect of the core) vanish there.
+    y_limit = min(torch.finfo(f.dtype).max for f in (j_y, y_y, y_m2x, y_m2y)) ** 0.8
+    y_y, y_m2x, y_m2y = [
+        torch.where(f.abs() < y_limit, f, torch.full_like(f, y_limit))
+        for f in (y_y, y_m2x, y_m2y)
+    ]
+    order = torch.arange(y_y.shape[0], device=y_y.device).view(
+        (-1,) + (1,) * (y_y.ndim - 1)
+    )
+    vanish = (y_y.abs() > y_limit**0.5) | (y_y.abs() > y_limit / y_m2y.abs())
+    vanish = vanish & (order > y.abs())
+    no_core = (j_m1x.abs() < 1 / y_limit) & (order > (m1 * x).abs())
+    no_core = no_core | ((y_m2x.abs() >= y_limit) & (order > (m2 * x).abs()))
+
     h1_y = j_y + 1j * y_y
 
     # bessel derivatives
@@ -116,6 +131,23 @@ def _miecoef(
 
     dxi_y = h1_y + y * dh1_y
 
+    # negligible core: A_n = B_n = 0
+    psi_m1x, dpsi_m1x, chi_m2x = [
+        torch.where(no_core, torch.ones_like(f), f) for f in (psi_m1x, dpsi_m1x, chi_m2x)
+    ]
+    psi_m2x, dpsi_m2x, dchi_m2x = [
+        torch.where(no_core, torch.zeros_like(f), f) for f in (psi_m2x, dpsi_m2x, dchi_m2x)
+    ]
+    # vanishing coefficients: psi_n(y) = 0, finite denominators
+    psi_y, dpsi_y = [torch.where(vanish, torch.zeros_like(f), f) for f in (psi_y, dpsi_y)]
+    xi_y, dpsi_m2y, dpsi_m1x, chi_m2x = [
+        torch.where(vanish, torch.ones_like(f), f) for f in (xi_y, dpsi_m2y, dpsi_m1x, chi_m2x)
+    ]
+    dxi_y, psi_m2y, chi_m2y, dchi_m2y, psi_m1x, psi_m2x, dpsi_m2x, dchi_m2x = [
+        torch.where(vanish, torch.zeros_like(f), f)
+        for f in (dxi_y, psi_m2y, chi_m2y, dchi_m2y, psi_m1x, psi_m2x, dpsi_m2x, dchi_m2x)
+    ]
+
     # # Mie coeffs.
     # An = (m2 * psi_m2x * dpsi_m1x - m1 * dpsi_m2x * psi_m1x) / (
     #     m2 * chi_m2x * dpsi_m1x - m1 * dchi_m2x * psi_m1x
diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 5fd1265..6aa1241 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -206,6 +206,7 @@ class _AutoDiffYn(torch.autograd.Function):
 
         # gradient of forward pass
         dz = torch.from_numpy(spherical_yn(n_np, z_np, derivative=True))
+        dz = torch.nan_to_num(dz)  # overflow at orders far above |z|
 
         # apply chain rule
         # torch convention: use conjugate!
@@ -816,8 +817,17 @@ def sph_jn_torch_via_rec(
     n_start = torch.ceil(abs_z + 8.0 * abs_z ** (1 / 3)).nan_to_num(0.0) + n_add_min
     n_start = n_start.clamp(min=n_max + n_add)
 
-    for _n in range(int(n_start.max()), 0, -1):
+    # ... but not so high that j_n overflows on its way down to n = 0: j_n / j_0
+    # is zero (within the floating point range) at those orders
+    orders = torch.arange(1, int(n_start.max()) + 1, device=_z.device)
+    growth = (2.0 * orders.view((-1,) + (1,) * abs_z[0].ndim) + 1.0) / abs_z
+    log_growth = torch.log10(growth.double()).clamp(min=0.0).cumsum(dim=0)
+    n_finite = (log_growth < (50.0 if dtype_c == torch.complex64 else 250.0)).sum(dim=0)
+    n_start = torch.minimum(n_start, n_finite.unsqueeze(0).to(n_start.dtype).clamp(min=1))
+
+    for _n in range(max(int(n_start.max()), n_max + 1), 0, -1):
         j_np1 = torch.where(n_start == _n, 1e-25 * torch.ones_like(_z), j_np1)
+        j_n = torch.where(n_start == _n, torch.zeros_like(_z), j_n)
         j_nm1 = ((2.0 * _n + 1.0) / _z) * j_n - j_np1
         j_np1 = j_n
         j_n = j_nm1
@@ -1033,10 +1043,13 @@ def sph_yn_torch(n: torch.Tensor, z: torch.Tensor, eps=1e-10, **kwargs):
 
     # recurrence for higher orders
     if n_max > 1:
+        y_largest = 1e-3 * torch.finfo(_z.dtype).max  # saturate instead of overflow
         for n_iter in range(2, n_max + 1):
-            yns.append(
-                ((2 * n_iter - 1) / _z[-1, ...]) * (yns[n_iter - 1]) - yns[n_iter - 2]
-            )
+            ratio = (2 * n_iter - 1) / _z[-1, ...]
+            saturated = ratio.abs().clamp(min=1.0) > y_largest / yns[-1].abs()
+            ratio = torch.where(saturated, torch.zeros_like(ratio), ratio)
+            y_n = ratio * yns[n_iter - 1] - yns[n_iter - 2]
+            yns.append(torch.where(saturated, yns[n_iter - 1], y_n))
 
     # convert to tensor
     yns = torch.stack(yns, dim=0)  # first dim: order n
-- 
2.43.0


From 59cadbea30c74f8374b0837d41bdb0b0f9ee926e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:44 +0000
Subject: [PATCH 15/23] fix: near fields with precision="single" (dtype
 mismatch)

---
 src/pymiediff/multishell.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index e747fed..6e47167 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -1316,8 +1316,8 @@ def nearfields(
                     - a_l * M3_e[li]
                 )
 
-            Es[masks[li]] = E_l[masks[li]]
-            Hs[masks[li]] = H_l[masks[li]]
+            Es[masks[li]] = E_l[masks[li]].to(dtype_c)
+            Hs[masks[li]] = H_l[masks[li]].to(dtype_c)
 
         # convert to Cartesian and sum over Mie orders
         Es_xyz = transform_fields_spherical_to_cartesian(
@@ -1491,9 +1491,9 @@ def nearfields(
     Es_3 = En * (1j * a_n * N3_e1n - b_n * M3_o1n)
 
     Es = torch.zeros(full_shape, dtype=a_n.dtype, device=a_n.device)
-    Es[idx_1] = Es_1[idx_1]
-    Es[idx_2] = Es_2[idx_2]
-    Es[idx_3] = Es_3[idx_3]
+    Es[idx_1] = Es_1[idx_1].to(a_n.dtype)
+    Es[idx_2] = Es_2[idx_2].to(a_n.dtype)
+    Es[idx_3] = Es_3[idx_3].to(a_n.dtype)
 
     # magnetic fields (relative to H0)
     Hs_1 = -n_core * En * (d_n * M1_e1n_c + 1j * c_n * N1_o1n_c)
@@ -1509,9 +1509,9 @@ def nearfields(
     Hs_3 = En*n_env * (1j * b_n * N3_o1n + a_n * M3_e1n)
 
     Hs = torch.zeros(full_shape, dtype=a_n.dtype, device=a_n.device)
-    Hs[idx_1] = Hs_1[idx_1]
-    Hs[idx_2] = Hs_2[idx_2]
-    Hs[idx_3] = Hs_3[idx_3]
+    Hs[idx_1] = Hs_1[idx_1].to(a_n.dtype)
+    Hs[idx_2] = Hs_2[idx_2].to(a_n.dtype)
+    Hs[idx_3] = Hs_3[idx_3].to(a_n.dtype)
 
     # convert to Cartesian
     Es_xyz = transform_fields_spherical_to_cartesian(
-- 
2.43.0


From d5abfa83c7aa5fa0c668cb037e3738bdb1479178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:12 +0000
Subject: [PATCH 16/23] fix: NaN near fields (pena) of batches mixing small and
 large spheres

---
 src/pymiediff/multishell.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index 6e47167..0207e33 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -1129,8 +1129,10 @@ def nearfields(
             )
             return D1, D3, psi, zeta
 
+        tiny = torch.finfo(dtype_c).tiny ** 0.9
+
         def _nonzero(x):
-            return torch.where(x == 0, torch.ones_like(x), x)
+            return torch.where(x.abs() < tiny, torch.ones_like(x), x)
 
         # radial functions on both sides of each interface
         rad_in = [_radial(m_ext[:, li, :] * x_layers[:, li, :]) for li in range(L)]
@@ -1157,10 +1159,10 @@ def nearfields(
                 v_a = m_ratio * v_a
                 u_b = m_ratio * u_b
                 ratio_a.append(
-                    psi_over_zeta * (D1 * u_a - v_a) / _nonzero(D3 * u_a - v_a)
+                    psi_over_zeta * ((D1 * u_a - v_a) / _nonzero(D3 * u_a - v_a))
                 )
                 ratio_b.append(
-                    psi_over_zeta * (D1 * u_b - v_b) / _nonzero(D3 * u_b - v_b)
+                    psi_over_zeta * ((D1 * u_b - v_b) / _nonzero(D3 * u_b - v_b))
                 )
 
         # recursive expansion coefficients, l = L ... 1
-- 
2.43.0


From cfae83c5d0924d52ca404a9cb485ec39576d70fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:12 +0000
Subject: [PATCH 17/23] fix: NaN near fields and gradients (torch, scipy) where
 y_n overflows

---
 src/pymiediff/special.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 6aa1241..3b603d0 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -1252,8 +1252,12 @@ def vsh(n_max, k0, n_medium, r, theta, phi, kind, epsilon=1e-8):
         raise ValueError("`kind` parameter must be either 1, 2 or 3.")
 
     # Mie orders n = 1, ..., n_max (remove zero order)
-    rho_zn = rho_zn[1:]
-    rho_zn_der = rho_zn_der[1:]
+    # and saturate where y_n overflows (the coefficients vanish at such orders)
+    z_limit = torch.finfo(rho_zn.dtype).max ** 0.8
+    rho_zn, rho_zn_der = [
+        torch.where(f.abs() < z_limit, f, torch.full_like(f, z_limit))
+        for f in (rho_zn[1:], rho_zn_der[1:])
+    ]
     rho_zn_der_over_rho = rho_zn_der / rho
     zn = rho_zn / rho
 
-- 
2.43.0


From 038960d9df1fc1dbd8b500337316855db79b59f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:51 +0000
Subject: [PATCH 18/23] fix: runtime of the Bessel recurrences for very large
 arguments

---
 src/pymiediff/special.py | 57 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 54 insertions(+), 3 deletions(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 3b603d0..5355da7 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -450,6 +450,29 @@ def _pena_nmax(n):
     return int(n)
 
 
+def _upward_stable(n_max: int, z: torch.Tensor):
+    """Mask of the arguments for which psi_0..psi_n_max can be recurred upwards.
+
+    Below the turning point (n << abs(z)) the upward recurrence is stable. This avoids
+    long downward sweeps, which have to start at orders above abs(z).
+    """
+    abs_z = z.detach().abs()
+    abs_im = z.detach().imag.abs()
+    return (abs_z > 2 * n_max + 100) & (n_max**2 * abs_im < abs_z**2)
+
+
+def _psi_scaled_upward(n_max: int, z: torch.Tensor):
+    """List of ``psi_n(z) * exp(-abs(Im z))``, n = 0..n_max, by upward recurrence."""
+    abs_im = z.imag.abs()
+    e_p = torch.exp(1j * z - abs_im)
+    e_m = torch.exp(-1j * z - abs_im)
+    psi_list = [(e_p - e_m) / 2j]
+    psi_list.append(psi_list[0] / z - (e_p + e_m) / 2.0)
+    for nn in range(1, n_max):
+        psi_list.append((2 * nn + 1) / z * psi_list[nn] - psi_list[nn - 1])
+    return psi_list[: n_max + 1]
+
+
 def pena_D1_n(
     n: Union[torch.Tensor, int],
     z: torch.Tensor,
@@ -493,11 +516,13 @@ def pena_D1_n(
 
     # seed well above both the requested order and the turning point n ~ |z|:
     # the downward recurrence only forgets its seed for orders n > |z|
-    z_max = float(_z.detach().abs().max()) if _z.numel() > 0 else 0.0
+    far = _upward_stable(n_max, _z)
+    z_max = float((_z.detach().abs() * ~far).max()) if _z.numel() > 0 else 0.0
     n_turn = math.ceil(z_max + 8.0 * z_max ** (1 / 3)) if math.isfinite(z_max) else 0
     n_start = max(n_max, n_turn) + int(n_add)
     D_next = torch.zeros_like(_z, dtype=dtype_c)
     z_safe = torch.where(_z.abs() < eps, _z + eps, _z)
+    z_safe = torch.where(far, torch.ones_like(_z), z_safe)
 
     for nn in range(n_start, 0, -1):
         num = nn / z_safe
@@ -508,7 +533,15 @@ def pena_D1_n(
             D_list[nn - 1] = D_curr
         D_next = D_curr
 
-    return torch.stack(D_list, dim=0)
+    D = torch.stack(D_list, dim=0)
+    if not far.any():
+        return D
+
+    # arguments far above the turning point: upward recurrence
+    z_far = torch.where(far, _z, torch.full_like(_z, 2.0 * n_max + 101.0))
+    psi_n = _psi_scaled_upward(n_max + 1, z_far)
+    D_far = [(nn + 1) / z_far - psi_n[nn + 1] / psi_n[nn] for nn in range(n_max + 1)]
+    return torch.where(far.unsqueeze(0), torch.stack(D_far, dim=0), D)
 
 
 def pena_D3_n(
@@ -813,6 +846,9 @@ def sph_jn_torch_via_rec(
     j_nm1 = torch.zeros_like(_z, dtype=dtype_c)
 
     # the sweep must start above the turning point n ~ |z| of each argument
+    far = _upward_stable(n_max, _z[-1, ...])
+    z_full = _z[-1, ...]
+    _z = torch.where(far.unsqueeze(0), torch.ones_like(_z), _z)
     abs_z = _z.detach().abs()
     n_start = torch.ceil(abs_z + 8.0 * abs_z ** (1 / 3)).nan_to_num(0.0) + n_add_min
     n_start = n_start.clamp(min=n_max + n_add)
@@ -848,6 +884,13 @@ def sph_jn_torch_via_rec(
         scale = torch.where(use_j1, j1_exact / j1_rec, scale)
     jns = jns * scale.unsqueeze(0)  # scale: expand order dim.
 
+    if far.any():
+        # arguments far above the turning point: upward recurrence
+        z_far = torch.where(far, z_full, torch.full_like(z_full, 2.0 * n_max + 101.0))
+        psi_n = torch.stack(_psi_scaled_upward(n_max, z_far), dim=0)
+        jns_far = psi_n * (torch.exp(z_far.imag.abs()) / z_far).unsqueeze(0)
+        jns = torch.where(far.unsqueeze(0), jns_far, jns)
+
     return jns
 
 
@@ -927,8 +970,16 @@ def sph_jn_torch(
         # for n==0, j0 = 1 (z^0 / 1 ), correct; for exact z==0, higher orders are zero
         jns_flat[:, idx_small] = jn_small
 
+    # -- arguments far above the turning point n ~ |z|: upward recurrence
+    mask_far = _upward_stable(n_max, z_flat)
+    if mask_far.any():
+        idx_far = mask_far.nonzero(as_tuple=True)[0]
+        z_far = z_flat[idx_far]
+        psi_far = torch.stack(_psi_scaled_upward(n_max, z_far), dim=0)
+        jns_flat[:, idx_far] = psi_far * (torch.exp(z_far.imag.abs()) / z_far)
+
     # -- large z: continued-fraction for ratios
-    idx_big = (~mask_small).nonzero(as_tuple=True)[0]
+    idx_big = (~mask_small & ~mask_far).nonzero(as_tuple=True)[0]
     if idx_big.numel() > 0:
         z_big = z_flat[idx_big]  # shape (Q,)
         n_z_big = z_big.shape[0]
-- 
2.43.0


From a7f88780b5527c95c04fac9e29ac1b0bea1e4989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:57 +0000
Subject: [PATCH 19/23] fix: NaN gradients of extreme requests (overflowing
 functions of discarded positions, denormal numbers)

---
 src/pymiediff/multishell.py | 35 ++++++++++++++++++++++-------------
 src/pymiediff/special.py    | 12 +++++++-----
 2 files changed, 29 insertions(+), 18 deletions(-)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index 0207e33..dd5ff0c 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -20,6 +20,11 @@ from pymiediff import special
 from pymiediff import helper
 
 
+def _abs2(z):
+    """``abs(z)**2``, also differentiable at denormal numbers (torch: NaN)"""
+    return z.real**2 + z.imag**2 if z.is_complex() else z**2
+
+
 # - Mie coefficients, private API
 def _miecoef(
     x,
@@ -893,7 +898,7 @@ def cross_sections(
 
     cs_ext_mp = prefactor * (2 * n + 1) * torch.stack((a_n.real, b_n.real))
 
-    cs_sca_mp = prefactor * (2 * n + 1) * torch.stack((a_n.abs() ** 2, b_n.abs() ** 2))
+    cs_sca_mp = prefactor * (2 * n + 1) * torch.stack((_abs2(a_n), _abs2(b_n)))
     cs_abs_mp = cs_ext_mp - cs_sca_mp
 
     # full cross-sections:
@@ -1002,8 +1007,8 @@ def angular_scattering(
     s1 = torch.sum(((2 * n + 1) / (n * (n + 1))) * (a_n * pi_n + b_n * tau_n), dim=0)
     s2 = torch.sum(((2 * n + 1) / (n * (n + 1))) * (a_n * tau_n + b_n * pi_n), dim=0)
 
-    i_per = s1.abs() ** 2
-    i_par = s2.abs() ** 2
+    i_per = _abs2(s1)
+    i_par = _abs2(s2)
 
     i_unpol = (i_par + i_per) / 2
     pol_degree = (i_per - i_par) / (i_per + i_par)
@@ -1120,6 +1125,9 @@ def nearfields(
             dim=1,
         )  # (Np, L+1, Nk)
 
+        # orders with smaller radial functions vanish (and overflow in gradients)
+        tiny = 1e-34 if dtype_c == torch.complex64 else 1e-100
+
         def _radial(z):
             """log. derivatives and Riccati-Bessel functions at all orders"""
             D1 = special.pena_D1_n(n_max, z, precision=precision)
@@ -1129,9 +1137,7 @@ def nearfields(
             )
             return D1, D3, psi, zeta
 
-        tiny = torch.finfo(dtype_c).tiny ** 0.9
-
-        def _nonzero(x):
+        def _nonzero(x, tiny=tiny):
             return torch.where(x.abs() < tiny, torch.ones_like(x), x)
 
         # radial functions on both sides of each interface
@@ -1155,7 +1161,7 @@ def nearfields(
             if li < L - 1:
                 m_ratio = m_ext[:, li + 1, :] / m_ext[:, li, :]
                 D1, D3, psi, zeta = rad_out[li]
-                psi_over_zeta = psi / _nonzero(zeta)
+                psi_over_zeta = psi / _nonzero(zeta, torch.finfo(dtype_c).tiny ** 0.9)
                 v_a = m_ratio * v_a
                 u_b = m_ratio * u_b
                 ratio_a.append(
@@ -1459,19 +1465,22 @@ def nearfields(
     n = n.view((-1,) + (r.ndim - 1) * (1,))
 
     # evaluate vector spherical harmonics
-    # Note: this is not optimum as all VSH are evaluated for all positions
-    # TODO: check positions first (inside core, inside shell, outside)
+    # Note: this is not optimum as all VSH are evaluated for all positions. Positions
+    # outside of a domain are moved to its boundary, to avoid overflows there.
+    r_in_core = torch.minimum(r, r_c.detach())
+    r_in_shell = torch.minimum(torch.maximum(r, r_c.detach()), r_s.detach())
+    r_outside = torch.maximum(r, r_s.detach())
     M1_o1n_c, M1_e1n_c, N1_o1n_c, N1_e1n_c = vsh(
-        n_max, k0, n_core, r, theta, phi, kind=1
+        n_max, k0, n_core, r_in_core, theta, phi, kind=1
     )
     M1_o1n_s, M1_e1n_s, N1_o1n_s, N1_e1n_s = vsh(
-        n_max, k0, n_shell, r, theta, phi, kind=1
+        n_max, k0, n_shell, r_in_shell, theta, phi, kind=1
     )
     M2_o1n_s, M2_e1n_s, N2_o1n_s, N2_e1n_s = vsh(
-        n_max, k0, n_shell, r, theta, phi, kind=2
+        n_max, k0, n_shell, r_in_shell, theta, phi, kind=2
     )
     M3_o1n, M3_e1n, N3_o1n, N3_e1n = vsh(
-        n_max, k0, n_sourrounding, r, theta, phi, kind=3
+        n_max, k0, n_sourrounding, r_outside, theta, phi, kind=3
     )
 
     # - scattered fields (Bohren Huffmann, Eq. 4.40, 4.45, 8.0)
diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 5355da7..b24d06c 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -751,7 +751,7 @@ def pena_psi_zeta_n(
     zeta_list = [zeta_prev]
 
     # zeta_n saturates instead of overflowing at orders far above |z|
-    zeta_sat = 1e30 if dtype_c == torch.complex64 else 1e250
+    zeta_sat = 1e30 if dtype_c == torch.complex64 else 1e120
 
     z_safe = torch.where(_z.abs() < eps, _z + eps, _z)
     for nn in range(1, n_max + 1):
@@ -875,13 +875,15 @@ def sph_jn_torch_via_rec(
 
     # normalize
     j0_exact = torch.sin(_z[-1, ...]) / _z[-1, ...]
-    scale = j0_exact / jns[0, ...]
     if n_max > 0:
         # j_0 vanishes at z = k*pi: use the larger one of j_0 and j_1
         j1_exact = (j0_exact - torch.cos(_z[-1, ...])) / _z[-1, ...]
         use_j1 = jns[1, ...].abs() > jns[0, ...].abs()
-        j1_rec = torch.where(use_j1, jns[1, ...], torch.ones_like(j1_exact))
-        scale = torch.where(use_j1, j1_exact / j1_rec, scale)
+        scale = torch.where(use_j1, j1_exact, j0_exact) / torch.where(
+            use_j1, jns[1, ...], jns[0, ...]
+        )
+    else:
+        scale = j0_exact / jns[0, ...]
     jns = jns * scale.unsqueeze(0)  # scale: expand order dim.
 
     if far.any():
@@ -1094,7 +1096,7 @@ def sph_yn_torch(n: torch.Tensor, z: torch.Tensor, eps=1e-10, **kwargs):
 
     # recurrence for higher orders
     if n_max > 1:
-        y_largest = 1e-3 * torch.finfo(_z.dtype).max  # saturate instead of overflow
+        y_largest = torch.finfo(_z.dtype).max ** 0.85  # saturate instead of overflow
         for n_iter in range(2, n_max + 1):
             ratio = (2 * n_iter - 1) / _z[-1, ...]
             saturated = ratio.abs().clamp(min=1.0) > y_largest / yns[-1].abs()
-- 
2.43.0


From 705b06e1c3ffbe56ae1bf4dea2dbf90898cd4893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:09 +0000
Subject: [PATCH 20/23] fix: loss of accuracy of pena_D3_n for tiny arguments

---
 src/pymiediff/special.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index b24d06c..b476af8 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -587,7 +587,7 @@ def pena_D3_n(
     D1 = D1.to(dtype=dtype_c)
 
     # psi0(z) * zeta0(z) = 0.5 * (1 - exp(2 i z))
-    psi_zeta_prev = 0.5 * (1.0 - torch.exp(2j * _z))
+    psi_zeta_prev = -0.5 * torch.expm1(2j * _z)
     D3_prev = 1j * torch.ones_like(_z, dtype=dtype_c)
     D3_list = [D3_prev]
 
-- 
2.43.0


From 3f469dcfe3a57a97d7e3c3ba3ac6aa7255b0c984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:53 +0000
Subject: [PATCH 21/23] fix: gradients of the recurrence j_n at tiny arguments
 and high orders (squared norm underflow)

---
 src/pymiediff/special.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index b476af8..79b1154 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -873,7 +873,9 @@ def sph_jn_torch_via_rec(
     # inverse order and convert to tensor
     jns = torch.stack(jns[::-1], dim=0)  # first dim: order n
 
-    # normalize
+    # normalize (first to order 1: the squared norm may overflow in the gradient)
+    norm = jns[:2, ...].detach().abs().amax(dim=0, keepdim=True)
+    jns = jns / torch.where(norm > 0, norm, torch.ones_like(norm))
     j0_exact = torch.sin(_z[-1, ...]) / _z[-1, ...]
     if n_max > 0:
         # j_0 vanishes at z = k*pi: use the larger one of j_0 and j_1
-- 
2.43.0


From 40ff215561e1dbaafa8aeff2d99655df3ea98426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:55 +0000
Subject: [PATCH 22/23] fix: vector spherical harmonics of kind 2 had the sign
 of -y_n

---
 src/pymiediff/multishell.py | 4 ++--
 src/pymiediff/special.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index dd5ff0c..2143286 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -1497,7 +1497,7 @@ def nearfields(
     # electric fields (relative to E0)
     Es_1 = En * (c_n * M1_o1n_c - 1j * d_n * N1_e1n_c)
     Es_2 = En * (
-        (f_n * M1_o1n_s - 1j * g_n * N1_e1n_s) - (v_n * M2_o1n_s - 1j * w_n * N2_e1n_s)
+        (f_n * M1_o1n_s - 1j * g_n * N1_e1n_s) + (v_n * M2_o1n_s - 1j * w_n * N2_e1n_s)
     )
     Es_3 = En * (1j * a_n * N3_e1n - b_n * M3_o1n)
 
@@ -1514,7 +1514,7 @@ def nearfields(
         * En
         * (
             (g_n * M1_e1n_s + 1j * f_n * N1_o1n_s)
-            - (w_n * M2_e1n_s + 1j * v_n * N2_o1n_s)
+            + (w_n * M2_e1n_s + 1j * v_n * N2_o1n_s)
         )
     )
     Hs_3 = En*n_env * (1j * b_n * N3_o1n + a_n * M3_e1n)
diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 79b1154..ed838d7 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -1298,8 +1298,8 @@ def vsh(n_max, k0, n_medium, r, theta, phi, kind, epsilon=1e-8):
         # using j_n
         rho_zn, rho_zn_der = psi_torch(n_max, rho[0])
     elif kind == 2:
-        # using y_n
-        rho_zn, rho_zn_der = chi_torch(n_max, rho[0])
+        # using y_n (chi_n = -rho * y_n)
+        rho_zn, rho_zn_der = [-f for f in chi_torch(n_max, rho[0])]
     elif kind == 3:
         # using h1_n
         rho_zn, rho_zn_der = xi_torch(n_max, rho[0])
-- 
2.43.0


From 4062ced6bc0b70ecbd715480eab9ba8da564dbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:48 +0000
Subject: [PATCH 23/23] fix: results shared memory with the caller's arguments
 (k0, theta, radii, permittivities)

---
 src/pymiediff/multishell.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index 2143286..f16f50b 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -830,6 +830,12 @@ def mie_coefficients(
         L=torch.as_tensor(r_layers.shape[1], device=k0.device),
     )
 
+    # the result owns its data: it must not share memory with the caller's arguments
+    return_dict = {
+        key: val.clone() if isinstance(val, torch.Tensor) else val
+        for key, val in return_dict.items()
+    }
+
     for k in mie_coef_result:
         return_dict[k] = mie_coef_result[k]
 
@@ -1016,7 +1022,7 @@ def angular_scattering(
     return dict(
         wavelength=2 * torch.pi / k0.squeeze(),
         k0=k0.squeeze(),
-        theta=theta.squeeze(),
+        theta=theta.squeeze().clone(),
         # observables
         S1=s1,
         S2=s2,
-- 
2.43.0

