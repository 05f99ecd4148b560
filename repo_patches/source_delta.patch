From dd0fa5e6ac1e015cfc6c5e44d116a4fb9a18122b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:30 +0000
Subject: [PATCH 01/34] fix: start the D1 downward recurrence beyond |z| so it
 is converged

pena_D1_n started at n_max + n_add whatever |z| was. For a user-chosen n_max
below |m x|, for near-field probes further out than n_max/k, and for large
size parameters the logarithmic derivatives (hence coefficients and fields)
were silently wrong.
---
 src/pymiediff/special.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 8d09ec3..217ce88 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -10,6 +10,7 @@ The Peña/Yang log-derivative recurrences are also implemented for stable
 multilayer computations.
 """
 # %%
+import math
 import warnings
 from typing import Union
 
@@ -489,7 +490,10 @@ def pena_D1_n(
     # build entries without in-place tensor writes (autograd-safe)
     D_list = [None] * (n_max + 1)
 
-    n_start = n_max + int(n_add)
+    # the sweep must start beyond the turning point |z| to be converged at 0..n
+    z_abs = float(_z.detach().abs().max()) if _z.numel() > 0 else 0.0
+    n_conv = math.ceil(z_abs + 8.0 * z_abs ** (1 / 3)) if math.isfinite(z_abs) else 0
+    n_start = max(n_max, n_conv) + int(n_add)
     D_next = torch.zeros_like(_z, dtype=dtype_c)
     z_safe = torch.where(_z.abs() < eps, _z + eps, _z)
 
-- 
2.43.0


From e46b068c22a93d2c2a8106f770a8a56175698631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:45 +0000
Subject: [PATCH 02/34] fix: Riccati-Bessel recurrences lost all accuracy at
 zeros of psi_n and for absorbing media

Every order was built as a running product over psi ratios, so a size
parameter at (or near) a zero of psi_n - e.g. r = lambda/2, where sin(x) = 0 -
left O(1) errors in all higher orders of the Mie coefficients. psi_n now uses
the three-term recurrence below the turning point, D3 its plain upward
recurrence, and Q_n only a running zeta ratio. The forms used above the
turning point do not cancel for small arguments (fields at the particle
centre were NaN). zeta_0 = -i exp(iz) replaces sin(z) - i cos(z), which is
pure rounding noise for Im(z) >~ 18 (fields in metal shells).
---
 src/pymiediff/special.py | 78 +++++++++++++++++++++++-----------------
 1 file changed, 45 insertions(+), 33 deletions(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 217ce88..f6ac4f5 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -557,12 +557,24 @@ def pena_D3_n(
     D3_list = [D3_prev]
 
     z_safe = torch.where(_z.abs() < eps, _z + eps, _z)
+    z_abs = _z.detach().abs()
     for nn in range(1, n_max + 1):
-        t1 = (nn / z_safe) - D1[nn - 1, ...]
+        # below the turning point: plain upward recurrence (regular at zeros of
+        # psi_n, where D1 diverges); psi*zeta follows from the Wronskian
         t2 = (nn / z_safe) - D3_prev
-        psi_zeta_curr = psi_zeta_prev * t1 * t2
-        denom = torch.where(psi_zeta_curr.abs() < eps, psi_zeta_curr + eps, psi_zeta_curr)
-        D3_curr = D1[nn, ...] + 1j / denom
+        D3_up = 1.0 / torch.where(t2.abs() < eps, t2 + eps, t2) - (nn / z_safe)
+        dif = D3_up - D1[nn, ...]
+        psi_zeta_up = 1j / torch.where(dif.abs() < eps, dif + eps, dif)
+
+        # above: product recurrence, psi_n / psi_{n-1} in non-cancelling form
+        t1 = (nn / z_safe) + D1[nn, ...]
+        t1 = 1.0 / torch.where(t1.abs() < eps, t1 + eps, t1)
+        psi_zeta_prod = psi_zeta_prev * t1 * t2
+        denom = torch.where(psi_zeta_prod.abs() < eps, psi_zeta_prod + eps, psi_zeta_prod)
+        D3_prod = D1[nn, ...] + 1j / denom
+
+        D3_curr = torch.where(z_abs >= nn, D3_up, D3_prod)
+        psi_zeta_curr = torch.where(z_abs >= nn, psi_zeta_up, psi_zeta_prod)
         D3_list.append(D3_curr)
         psi_zeta_prev = psi_zeta_curr
         D3_prev = D3_curr
@@ -608,8 +620,6 @@ def pena_Q_n(
     n_max = _pena_nmax(n)
     _z1 = torch.atleast_1d(torch.as_tensor(z1))
     _z2 = torch.atleast_1d(torch.as_tensor(z2))
-    _x1 = torch.atleast_1d(torch.as_tensor(x1))
-    _x2 = torch.atleast_1d(torch.as_tensor(x2))
 
     if precision.lower() == "single":
         dtype_c = torch.complex64
@@ -617,31 +627,23 @@ def pena_Q_n(
         dtype_c = torch.complex128
     _z1 = _z1.to(dtype=dtype_c)
     _z2 = _z2.to(dtype=dtype_c)
-    _x1 = _x1.to(dtype=dtype_c)
-    _x2 = _x2.to(dtype=dtype_c)
-
-    # Eq. (19a): Q_0^(l)
-    a1 = _z1.real
-    b1 = _z1.imag
-    a2 = _z2.real
-    b2 = _z2.imag
-    num0 = torch.exp(-2j * a1) - torch.exp(-2.0 * b1)
-    den0 = torch.exp(-2j * a2) - torch.exp(-2.0 * b2)
-    den0 = torch.where(den0.abs() < eps, den0 + eps, den0)
-    Q_prev = (num0 / den0) * torch.exp(-2.0 * (b2 - b1))
-    Q_list = [Q_prev]
-
-    # Eq. (19b): Q_n^(l), n >= 1
-    x2_safe = torch.where(_x2.abs() < eps, _x2 + eps, _x2)
-    x_ratio_sq = (_x1 / x2_safe) ** 2
-    for nn in range(1, n_max + 1):
-        n_c = torch.as_tensor(nn, dtype=dtype_c, device=_z1.device)
-        num = (_z2 * D1_z2[nn, ...] + n_c) * (n_c - _z2 * D3_z2[nn - 1, ...])
-        den = (_z1 * D1_z1[nn, ...] + n_c) * (n_c - _z1 * D3_z1[nn - 1, ...])
-        den = torch.where(den.abs() < eps, den + eps, den)
-        Q_curr = Q_prev * x_ratio_sq * (num / den)
-        Q_list.append(Q_curr)
-        Q_prev = Q_curr
+
+    # Q_n = [psi_n(z1) / zeta_n(z1)] / [psi_n(z2) / zeta_n(z2)], the solution of
+    # Eq. (19a/b), with psi_n * zeta_n = 1j / (D3_n - D1_n) (Wronskian). Only the
+    # zeta ratio is recurred, so zeros of psi_n do not degrade higher orders.
+    z1_safe = torch.where(_z1.abs() < eps, _z1 + eps, _z1)
+    z2_safe = torch.where(_z2.abs() < eps, _z2 + eps, _z2)
+    zeta_ratio = torch.exp(1j * (_z2 - _z1))
+    Q_list = []
+    for nn in range(n_max + 1):
+        if nn > 0:
+            num = (nn / z2_safe) - D3_z2[nn - 1, ...]
+            den = (nn / z1_safe) - D3_z1[nn - 1, ...]
+            den = torch.where(den.abs() < eps, den + eps, den)
+            zeta_ratio = zeta_ratio * (num / den)
+        dif = D3_z1[nn, ...] - D1_z1[nn, ...]
+        dif = torch.where(dif.abs() < eps, dif + eps, dif)
+        Q_list.append((D3_z2[nn, ...] - D1_z2[nn, ...]) / dif * zeta_ratio**2)
 
     return torch.stack(Q_list, dim=0)
 
@@ -683,17 +685,27 @@ def pena_psi_zeta_n(
         dtype_c = torch.complex128
     _z = _z.to(dtype=dtype_c)
 
+    psi_prev2 = torch.cos(_z)  # psi_{-1}
     psi_prev = torch.sin(_z)
-    zeta_prev = torch.sin(_z) - 1j * torch.cos(_z)
+    zeta_prev = -1j * torch.exp(1j * _z)  # sin(z) - i cos(z), without cancellation
     psi_list = [psi_prev]
     zeta_list = [zeta_prev]
 
     z_safe = torch.where(_z.abs() < eps, _z + eps, _z)
+    # the zeros of psi_n are real: away from the real axis the ratio form is safe
+    # at all orders, while the three-term recurrence is not
+    n_3term = torch.where(_z.detach().imag.abs() < 1.0, _z.detach().abs(), 0.0)
     for nn in range(1, n_max + 1):
-        psi_curr = psi_prev * ((nn / z_safe) - D1[nn - 1, ...])
+        # psi: three-term recurrence up to the turning point (regular at zeros of
+        # psi_n), then the ratio psi_{n-1} / psi_n, which does not cancel there
+        psi_3term = ((2 * nn - 1) / z_safe) * psi_prev - psi_prev2
+        ratio = (nn / z_safe) + D1[nn, ...]
+        psi_ratio = psi_prev / torch.where(ratio.abs() < eps, ratio + eps, ratio)
+        psi_curr = torch.where(n_3term >= nn, psi_3term, psi_ratio)
         zeta_curr = zeta_prev * ((nn / z_safe) - D3[nn - 1, ...])
         psi_list.append(psi_curr)
         zeta_list.append(zeta_curr)
+        psi_prev2 = psi_prev
         psi_prev = psi_curr
         zeta_prev = zeta_curr
 
-- 
2.43.0


From 80a1097a0196bb572e076d185613c061756f3c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:01 +0000
Subject: [PATCH 03/34] fix: near fields inside absorbing multilayers were
 dominated by amplified rounding errors

The outgoing-wave coefficients of each layer were recovered from the outer
fields; through an absorbing layer this amplifies rounding errors by
exp(2 Im(k) d) (and zeta below the 1e-30 guard was replaced altogether).
Their ratio to the regular-wave coefficients is now carried from the core
outward, which is stable.
---
 src/pymiediff/multishell.py | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index 7c432ec..e791c74 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -1089,6 +1089,7 @@ def nearfields(
         )  # (Np, L+1, Nk)
 
         eps = torch.tensor(1e-30, dtype=dtype_c, device=k0.device)
+        tiny = torch.finfo(dtype_c).tiny
 
         # recursive expansion coefficients, l = L ... 1
         a_layers = [None] * (L + 1)
@@ -1100,6 +1101,34 @@ def nearfields(
         c_layers[L] = c_L
         d_layers[L] = d_L
 
+        # ratios a_l / d_l and b_l / c_l of outgoing to regular waves, from the core
+        # outward. Obtaining a_l, b_l from the outer fields instead amplifies
+        # rounding errors exponentially through absorbing layers.
+        ratio_a = [torch.zeros_like(a_L)]
+        ratio_b = [torch.zeros_like(b_L)]
+        for li in range(L - 1):
+            m_ratio = m_ext[:, li + 1, :] / m_ext[:, li, :]
+            xl = x_layers[:, li, :]
+            D1, D3, psi, zeta = [], [], [], []
+            for z in (m_ext[:, li, :] * xl, m_ext[:, li + 1, :] * xl):
+                D1.append(special.pena_D1_n(n_max, z, precision=precision))
+                D3.append(special.pena_D3_n(n_max, z, D1=D1[-1], precision=precision))
+                _psi, _zeta = special.pena_psi_zeta_n(
+                    n_max, z, D1=D1[-1], D3=D3[-1], precision=precision
+                )
+                psi.append(_psi)
+                zeta.append(_zeta)
+            # tangential field continuity: (psi - t zeta) and its derivative
+            for ratio, fu, fw in (
+                (ratio_a, 1.0, m_ratio),
+                (ratio_b, m_ratio, 1.0),
+            ):
+                u = fu * (psi[0] - ratio[-1] * zeta[0])
+                w = fw * (D1[0] * psi[0] - ratio[-1] * D3[0] * zeta[0])
+                den = zeta[1] * (D3[1] * u - w)
+                den = torch.where(den.abs() < tiny, den + tiny, den)
+                ratio.append(psi[1] * (D1[1] * u - w) / den)
+
         for li in range(L - 1, -1, -1):
             ml = m_ext[:, li, :]
             mlp1 = m_ext[:, li + 1, :]
@@ -1131,17 +1160,15 @@ def nearfields(
             T4 = c_nxt * D1_lp1 * psi_lp1 - b_nxt * D3_lp1 * zeta_lp1
             U = D1_l - D3_l
 
-            den_a = zeta_l * U
             den_c = psi_l * U
-            den_a = torch.where(den_a.abs() < eps.abs(), den_a + eps, den_a)
             den_c = torch.where(den_c.abs() < eps.abs(), den_c + eps, den_c)
 
             # Ladutenko et al. 2017, Eq. (7.1)-(7.4): factor m_l / m_{l+1}
             m_ratio = ml / mlp1
-            a_l = (D1_l * T1 + T3 * m_ratio) / den_a
-            b_l = (D1_l * T2 * m_ratio + T4) / den_a
             c_l = (D3_l * T2 * m_ratio + T4) / den_c
             d_l = (D3_l * T1 + T3 * m_ratio) / den_c
+            a_l = ratio_a[li] * d_l
+            b_l = ratio_b[li] * c_l
 
             # enforce regularity in inner core
             if li == 0:
-- 
2.43.0


From 77c55545d9d5392c9c5b23b482000e5b6bd01237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:51 +0000
Subject: [PATCH 04/34] fix: near fields of backends 'torch'/'scipy' for
 several particles or wavelengths

Radii and refractive indices were not expanded to the (order, particle,
wavelength, position, component) layout before use.
---
 src/pymiediff/multishell.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index e791c74..c854578 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -1392,6 +1392,11 @@ def nearfields(
     kc = kc.unsqueeze(0).unsqueeze(-1).unsqueeze(-1)
     ks = ks.unsqueeze(0).unsqueeze(-1).unsqueeze(-1)
     n_sourrounding = n_sourrounding.unsqueeze(0).unsqueeze(-1).unsqueeze(-1)
+    n_env = n_env.unsqueeze(0).unsqueeze(-1).unsqueeze(-1)
+    n_core = n_core.unsqueeze(0).unsqueeze(-1).unsqueeze(-1)
+    n_shell = n_shell.unsqueeze(0).unsqueeze(-1).unsqueeze(-1)
+    r_c = r_c.unsqueeze(0).unsqueeze(-1).unsqueeze(-1)
+    r_s = r_s.unsqueeze(0).unsqueeze(-1).unsqueeze(-1)
 
     # add position, vector dim
     a_n = a_n.unsqueeze(-1).unsqueeze(-1)
-- 
2.43.0


From e0611a5538694112d2157d8d8cafd8b06d1d63ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:54 +0000
Subject: [PATCH 05/34] fix: multipole prefactors of fields and angular
 amplitudes were evaluated in single precision

1j**n and (2n+1)/(n(n+1)) with an integer tensor n give complex64/float32,
e.g. 1e-5 errors for n > 100 although precision='double' was requested.
---
 src/pymiediff/multishell.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index c854578..b15dde4 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -963,6 +963,7 @@ def angular_scattering(
     pi_n = pi_n.unsqueeze(1).unsqueeze(1)  # add N_part, k0 dims.
     tau_n = tau_n.unsqueeze(1).unsqueeze(1)  # add N_part, k0 dims.
     n = n.unsqueeze(-1).unsqueeze(-1).unsqueeze(-1)  # add dim N_part, N_k0, N_theta
+    n = n.to(a_n.real.dtype)  # integer division would be single precision
     a_n = a_n.unsqueeze(-1)
     b_n = b_n.unsqueeze(-1)
 
@@ -1208,7 +1209,8 @@ def nearfields(
         theta_sh = theta.unsqueeze(0).unsqueeze(0).unsqueeze(0).unsqueeze(-1)
         phi_sh = phi.unsqueeze(0).unsqueeze(0).unsqueeze(0).unsqueeze(-1)
 
-        n = n.view((-1,) + (r_sh.ndim - 1) * (1,))
+        # floating point n: integer tensors make the factors below single precision
+        n = n.to(a_ext.real.dtype).view((-1,) + (r_sh.ndim - 1) * (1,))
         En = 1j**n * E_0 * (2 * n + 1) / (n * (n + 1))
 
         # evaluate VSH per region medium (0..L-1 layers, L outside env)
@@ -1418,7 +1420,8 @@ def nearfields(
     theta = theta.unsqueeze(0).unsqueeze(0).unsqueeze(0).unsqueeze(-1)
 
     # add particle, wavenumber, position, vector dimensions
-    n = n.view((-1,) + (r.ndim - 1) * (1,))
+    # floating point n: integer tensors make the factors below single precision
+    n = n.to(a_n.real.dtype).view((-1,) + (r.ndim - 1) * (1,))
 
     # evaluate vector spherical harmonics
     # Note: this is not optimum as all VSH are evaluated for all positions
-- 
2.43.0


From 09bc49968d7501e09ce8690b957f69a4fc22ff48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:26 +0000
Subject: [PATCH 06/34] fix: Mie coefficients were NaN once zeta_n overflows

With strongly refracting or very large particles the automatic truncation
order exceeds the size parameter so far that zeta_n leaves the floating-point
range; inf - inf made every cross section NaN. zeta_n now saturates.
---
 src/pymiediff/special.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index f6ac4f5..8e21e38 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -694,6 +694,7 @@ def pena_psi_zeta_n(
     z_safe = torch.where(_z.abs() < eps, _z + eps, _z)
     # the zeros of psi_n are real: away from the real axis the ratio form is safe
     # at all orders, while the three-term recurrence is not
+    zeta_max = torch.finfo(dtype_c).max ** 0.5
     n_3term = torch.where(_z.detach().imag.abs() < 1.0, _z.detach().abs(), 0.0)
     for nn in range(1, n_max + 1):
         # psi: three-term recurrence up to the turning point (regular at zeros of
@@ -703,6 +704,8 @@ def pena_psi_zeta_n(
         psi_ratio = psi_prev / torch.where(ratio.abs() < eps, ratio + eps, ratio)
         psi_curr = torch.where(n_3term >= nn, psi_3term, psi_ratio)
         zeta_curr = zeta_prev * ((nn / z_safe) - D3[nn - 1, ...])
+        # saturate instead of overflowing (inf - inf): psi_n has vanished there
+        zeta_curr = torch.where(zeta_prev.detach().abs() > zeta_max, zeta_prev, zeta_curr)
         psi_list.append(psi_curr)
         zeta_list.append(zeta_curr)
         psi_prev2 = psi_prev
-- 
2.43.0


From 13808514c9f45b68185a2d82f8af1cb6f2c44e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:56 +0000
Subject: [PATCH 07/34] fix: nearfields(precision='single') failed with double
 precision probe positions

---
 src/pymiediff/multishell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index b15dde4..81780d4 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -1283,8 +1283,8 @@ def nearfields(
                     - a_l * M3_e[li]
                 )
 
-            Es[masks[li]] = E_l[masks[li]]
-            Hs[masks[li]] = H_l[masks[li]]
+            Es[masks[li]] = E_l[masks[li]].to(dtype_c)
+            Hs[masks[li]] = H_l[masks[li]].to(dtype_c)
 
         # convert to Cartesian and sum over Mie orders
         Es_xyz = transform_fields_spherical_to_cartesian(
-- 
2.43.0


From a76774e3ef8cd520793bfad1d461a3b13cddbdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 08/34] fix: near-field gradients were NaN with probes far
 outside an absorbing particle

All regions' wave functions were evaluated at all probe positions and the
irrelevant ones discarded; these overflow far from a metal particle and
inf * 0 poisoned the gradient of every parameter.
---
 src/pymiediff/multishell.py | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index 81780d4..62de7d9 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -1221,14 +1221,32 @@ def nearfields(
         ]
         n_medium_reg.append(n_env)
 
+        # region masks
+        r_pos = r.view(1, 1, n_pos)
+        masks = []
+        for li in range(L):
+            r_hi = r_layers[:, li].view(n_p, 1, 1)
+            if li == 0:
+                m = r_pos <= r_hi
+            else:
+                r_lo = r_layers[:, li - 1].view(n_p, 1, 1)
+                m = torch.logical_and(r_pos > r_lo, r_pos <= r_hi)
+            masks.append(m)
+        m_out = r_pos > r_layers[:, -1].view(n_p, 1, 1)
+        masks.append(m_out)
+
         M1_o, M1_e, N1_o, N1_e = [], [], [], []
         M3_o, M3_e, N3_o, N3_e = [], [], [], []
-        for n_med in n_medium_reg:
+        for li, n_med in enumerate(n_medium_reg):
+            # positions in other regions are discarded below: evaluate them on the
+            # region boundary, where nothing overflows (inf * 0 in the gradient)
+            r_bnd = r_layers[:, min(li, L - 1)].detach().view(1, n_p, 1, 1, 1)
+            r_reg = torch.where(masks[li].unsqueeze(0).unsqueeze(-1), r_sh, r_bnd)
             _M1o, _M1e, _N1o, _N1e = vsh_pena(
-                n_max, k0, n_med, r_sh, theta_sh, phi_sh, kind=1, precision=precision
+                n_max, k0, n_med, r_reg, theta_sh, phi_sh, kind=1, precision=precision
             )
             _M3o, _M3e, _N3o, _N3e = vsh_pena(
-                n_max, k0, n_med, r_sh, theta_sh, phi_sh, kind=3, precision=precision
+                n_max, k0, n_med, r_reg, theta_sh, phi_sh, kind=3, precision=precision
             )
             M1_o.append(_M1o)
             M1_e.append(_M1e)
@@ -1239,19 +1257,6 @@ def nearfields(
             N3_o.append(_N3o)
             N3_e.append(_N3e)
 
-        # region masks
-        r_pos = r.view(1, 1, n_pos)
-        masks = []
-        for li in range(L):
-            r_hi = r_layers[:, li].view(n_p, 1, 1)
-            if li == 0:
-                m = r_pos <= r_hi
-            else:
-                r_lo = r_layers[:, li - 1].view(n_p, 1, 1)
-                m = torch.logical_and(r_pos > r_lo, r_pos <= r_hi)
-            masks.append(m)
-        m_out = r_pos > r_layers[:, -1].view(n_p, 1, 1)
-        masks.append(m_out)
         masks = [torch.broadcast_to(m.unsqueeze(0).unsqueeze(-1), full_shape) for m in masks]
 
         Es = torch.zeros(full_shape, dtype=dtype_c, device=k0.device)
-- 
2.43.0


From a2e76dafe6a8ce525816c9b0e93d9c0ec0a0ac95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:52 +0000
Subject: [PATCH 09/34] fix: MatDatabase memo broke gradients and could be
 modified by callers

The permittivity memo stored tensors with their autograd graph: a second
backward pass at the same wavelength failed, and after a call without
gradients the dispersion was lost from later gradients.
---
 src/pymiediff/materials/mat.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pymiediff/materials/mat.py b/src/pymiediff/materials/mat.py
index eaece00..9f6d6a4 100644
--- a/src/pymiediff/materials/mat.py
+++ b/src/pymiediff/materials/mat.py
@@ -384,6 +384,11 @@ class MatDatabase(MaterialBase):
         return eps
 
     def _get_eps_single_wl(self, wavelength):
+        # never memoize autograd graphs: they belong to one specific call
+        if torch.is_tensor(wavelength) and wavelength.requires_grad:
+            _eps = self._eval(wavelength)
+            return torch.as_tensor(_eps, dtype=DTYPE_COMPLEX, device=self.device)
+
         # memoize evaluations
         wl_key = float(wavelength)
 
@@ -394,7 +399,7 @@ class MatDatabase(MaterialBase):
             eps = torch.as_tensor(_eps, dtype=DTYPE_COMPLEX, device=self.device)
             self.lookup_eps[wl_key] = eps
 
-        return eps
+        return eps.clone()  # callers must not be able to modify the memo
 
     def get_epsilon(self, wavelength):
         """get permittivity at `wavelength`
-- 
2.43.0


From 774182377f963e3af490b1150b06f9f9da284087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:06 +0000
Subject: [PATCH 10/34] fix: second derivatives of spherical Bessel functions
 modified their input at z=0

---
 src/pymiediff/special.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 8e21e38..5f6fbf9 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -68,7 +68,7 @@ def bessel2ndDer(n: torch.Tensor, z: torch.Tensor, bessel, **kwargs):
     torch.Tensor
         Second derivative with respect to ``z``.
     """
-    z[z == 0] = 1e-10
+    z = np.where(z == 0, 1e-10, z)  # no in-place: `z` shares the memory of the input
     z = np.nan_to_num(z, nan=1e-10)
     return (1 / z**2) * ((n**2 - n - z**2) * bessel(n, z) + 2 * z * bessel(n + 1, z))
 
-- 
2.43.0


From cd503e5e7c8c8e102abc7896b995859f57a4835d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:06 +0000
Subject: [PATCH 11/34] fix: integer n_add raised AttributeError in the
 downward recurrences

---
 src/pymiediff/special.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 5f6fbf9..c1e1c45 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -772,7 +772,7 @@ def sph_jn_torch_via_rec(
     _z = torch.where(_z.abs() < eps, eps * torch.ones_like(_z), _z)
 
     # some empirical automatic starting order guess
-    if n_add.lower() == "auto":
+    if str(n_add).lower() == "auto":
         n_add = max(n_add_min, int(1.5 * torch.abs(z).detach().cpu().max()))
         if n_add > n_add_max:
             n_add = n_add_max
@@ -1269,7 +1269,7 @@ def D1n_torch(
     _z = torch.where(_z.abs() < eps, eps * torch.ones_like(_z), _z)
 
     # some empirical automatic starting order guess
-    if n_add.lower() == "auto":
+    if str(n_add).lower() == "auto":
         n_add = max(n_add_min, int(1.5 * torch.abs(z).detach().cpu().max()))
         if n_add > n_add_max:
             n_add = n_add_max
-- 
2.43.0


From 08ca2ac9ad4a7782c8bb914961f457e90dd17ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:06 +0000
Subject: [PATCH 12/34] fix: pi_tau failed for non-contiguous angles

---
 src/pymiediff/special.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index c1e1c45..da0f6c1 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -1113,7 +1113,7 @@ def pi_tau(n: int, mu: torch.Tensor, **kwargs):
 
     # keep original shape to reshape later
     orig_shape = mu.shape
-    mu_flat = mu.view(-1)  # 1D for iteration
+    mu_flat = mu.reshape(-1)  # 1D for iteration
     L = mu_flat.shape[0]
 
     # build pi/tau without in-place writes (autograd-safe)
-- 
2.43.0


From baf81521761dd9752973e7170357da2548701098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:06 +0000
Subject: [PATCH 13/34] fix: real negative permittivities gave NaN

---
 src/pymiediff/multishell.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index 62de7d9..0be909c 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -590,6 +590,9 @@ def _broadcast_mie_layers(k0, r_layers, eps_layers, eps_env):
 
     eps_layers = torch.as_tensor(eps_layers)
     eps_layers = torch.atleast_1d(eps_layers)
+    # real negative permittivities have imaginary refractive indices
+    if not torch.is_complex(eps_layers) and torch.any(eps_layers < 0):
+        eps_layers = eps_layers.to(torch.promote_types(eps_layers.dtype, torch.complex64))
 
     # accepted eps_layers layouts:
     #   (L,) / (N_part, L) / (L, N_k0) / (N_part, L, N_k0)
-- 
2.43.0


From 70f434190e987e49956b8c25bb223c1498b26203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:23 +0000
Subject: [PATCH 14/34] fix: sph_jn_torch was not converged for arguments well
 above n + 50

---
 src/pymiediff/special.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index da0f6c1..fd9257e 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -890,6 +890,9 @@ def sph_jn_torch(
             zabs_max = float(torch.max(torch.abs(z_big)).item())
             n_extra_auto = max(20, int(zabs_max * 2.0) + 10)
             n_extra_use = min(n_extra_auto, max_n_add)
+            # ratios converge only above the turning point |z|
+            n_turn = math.ceil(zabs_max + 8.0 * zabs_max ** (1 / 3))
+            n_extra_use += max(0, n_turn - n_max)
         else:
             n_extra_use = int(n_add)
         N = n_max + n_extra_use
-- 
2.43.0


From 33f9a9372fcc7cccb554124c3808193dbe05f2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:47 +0000
Subject: [PATCH 15/34] fix: sph_jn_torch had undetermined normalization at
 zeros of j_0

---
 src/pymiediff/special.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index fd9257e..c666e8a 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -922,13 +922,19 @@ def sph_jn_torch(
             z_big == 0.0, torch.ones_like(z_big), torch.sin(z_big) / z_big
         )  # compute j0 safely
 
-        # cumulative product of r_k across orders: shape (Q, n_max)
-        r_cum = torch.cumprod(r_storage, dim=0)  # r_1, r_1*r_2, ...
-
         # fill spherical bessel output
         jns_big[0, :] = j0_big
         if n_max >= 1:
-            jns_big[1:, :] = j0_big.unsqueeze(0) * r_cum
+            # j1 = j0 * r_1 is undetermined where j0 vanishes (z = k * pi)
+            j1_big = (j0_big - torch.cos(z_big)) / z_big
+            j1_big = torch.where(
+                j0_big.abs() < j1_big.abs(), j1_big, j0_big * r_storage[0]
+            )
+            # cumulative product of r_k across orders: shape (Q, n_max)
+            r_cum = torch.cumprod(
+                torch.cat((j1_big.unsqueeze(0), r_storage[1:]), dim=0), dim=0
+            )
+            jns_big[1:, :] = r_cum
         jns_flat[:, idx_big] = jns_big
 
     # reshape jns_flat into original z shape plus orders axis
-- 
2.43.0


From f79b5805a7eee0d705d7ed8af39dd40bfbc60e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:04 +0000
Subject: [PATCH 16/34] fix: sph_jn_torch_via_rec failed at zeros of j_0

---
 src/pymiediff/special.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index c666e8a..63f9de1 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -728,8 +728,8 @@ def sph_jn_torch_via_rec(
 ):
     """Torch-native ``j_n`` via downward recurrence. 
 
-    BEWARE: With this implementaion there is a singularity at z=pi, 
-    and the renormalization of the downward recurrence will fail.
+    BEWARE: The depth of the downward recurrence is limited, ``n`` plus
+    ``n_add_max`` needs to exceed the largest ``|z|``.
     The logarithmic derivatives implmentations, do not pose this risk.
     
     Parameters
@@ -796,7 +796,15 @@ def sph_jn_torch_via_rec(
 
     # normalize
     j0_exact = torch.sin(_z[-1, ...]) / _z[-1, ...]
-    scale = j0_exact / jns[0, ...]
+    if n_max > 0:
+        # use the larger one of j0, j1: j0 vanishes at z = k * pi
+        j1_exact = (j0_exact - torch.cos(_z[-1, ...])) / _z[-1, ...]
+        use_j1 = j0_exact.abs() < j1_exact.abs()
+        scale = torch.where(use_j1, j1_exact, j0_exact) / torch.where(
+            use_j1, jns[1, ...], jns[0, ...]
+        )
+    else:
+        scale = j0_exact / jns[0, ...]
     jns = jns * scale.unsqueeze(0)  # scale: expand order dim.
 
     return jns
-- 
2.43.0


From c37a712e97389e4c1472e2585f671632f8351b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:21 +0000
Subject: [PATCH 17/34] fix: torchgdm bridge always failed if n_env was given

---
 src/pymiediff/helper/tg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymiediff/helper/tg.py b/src/pymiediff/helper/tg.py
index 26ca5c4..27ba006 100644
--- a/src/pymiediff/helper/tg.py
+++ b/src/pymiediff/helper/tg.py
@@ -178,8 +178,8 @@ def mie_ab_sphere_3d_AD(
     eps_env = _get_env_eps(mie_particle, wavelengths, device)
     assert torch.all(eps_env == eps_env[0]), "dispersive environment not supported yet"
     if n_env is not None:
-        assert eps_env[0] == n_env**2
-        eps_env = n_env**2
+        # only consistent values are supported
+        assert abs(complex(eps_env[0]) - complex(n_env) ** 2) < 1e-5 * abs(n_env) ** 2
     env_3d = EnvHomogeneous3D(env_material=float(eps_env[0].real), device=device)
 
     # --- get Mie coefficients from pymiediff particle
@@ -509,8 +509,8 @@ def extract_GPM_sphere_miediff(
     eps_env = _get_env_eps(mie_particle, wavelengths, device)
     assert torch.all(eps_env == eps_env[0]), "dispersive environment not supported yet"
     if n_env is not None:
-        assert eps_env[0] == n_env**2
-        eps_env = n_env**2
+        # only consistent values are supported
+        assert abs(complex(eps_env[0]) - complex(n_env) ** 2) < 1e-5 * abs(n_env) ** 2
     env_3d = EnvHomogeneous3D(env_material=float(eps_env[0].real), device=device)
 
     # full radius
-- 
2.43.0


From e6653b0f568c8e5b3f4951a1ce11f52b9e39247a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:21 +0000
Subject: [PATCH 18/34] fix: torchgdm bridge mixed up dimensions for n_max=1

---
 src/pymiediff/helper/tg.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pymiediff/helper/tg.py b/src/pymiediff/helper/tg.py
index 27ba006..7ed90da 100644
--- a/src/pymiediff/helper/tg.py
+++ b/src/pymiediff/helper/tg.py
@@ -188,10 +188,9 @@ def mie_ab_sphere_3d_AD(
     a_n = miecoeff["a_n"]
     b_n = miecoeff["b_n"]
 
-    if a_n.ndim == 1:  # single wl
-        a_n = a_n.unsqueeze(1)  # add empty wavelength dimension
-    if b_n.ndim == 1:
-        b_n = b_n.unsqueeze(1)
+    # restore squeezed dimensions: single order and / or single wavelength
+    a_n = a_n.reshape(int(miecoeff["n_max"]), len(wavelengths))
+    b_n = b_n.reshape(int(miecoeff["n_max"]), len(wavelengths))
 
     a_n = a_n.moveaxis(0, 1)
     b_n = b_n.moveaxis(0, 1)  # move Mie-order last
-- 
2.43.0


From 5ad4bbfeede37ade348c94aae952354bdf6a8439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:24 +0000
Subject: [PATCH 19/34] fix: angular_scattering silently mixed up dimensions
 unless theta was a 1D tensor

---
 src/pymiediff/multishell.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index 0be909c..88c02aa 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -951,6 +951,7 @@ def angular_scattering(
     a_n = miecoeff["a_n"]
     b_n = miecoeff["b_n"]
 
+    theta = torch.atleast_1d(torch.as_tensor(theta, device=k0.device))
     mu = torch.cos(theta)
     pi_n, tau_n = special.pi_tau(n_max, mu)  # shape: N_teta, n_Mie_order
     pi_n = pi_n[1:]  # Mie orders 1 - n (no zero order)
@@ -965,10 +966,10 @@ def angular_scattering(
     k0 = k0.unsqueeze(0)  # add dim order
     pi_n = pi_n.unsqueeze(1).unsqueeze(1)  # add N_part, k0 dims.
     tau_n = tau_n.unsqueeze(1).unsqueeze(1)  # add N_part, k0 dims.
-    n = n.unsqueeze(-1).unsqueeze(-1).unsqueeze(-1)  # add dim N_part, N_k0, N_theta
+    n = n.view((-1, 1, 1) + theta.ndim * (1,))  # add dim N_part, N_k0, theta dims.
     n = n.to(a_n.real.dtype)  # integer division would be single precision
-    a_n = a_n.unsqueeze(-1)
-    b_n = b_n.unsqueeze(-1)
+    a_n = a_n.view(a_n.shape + theta.ndim * (1,))
+    b_n = b_n.view(b_n.shape + theta.ndim * (1,))
 
     # eval. S1 and S2, sum over Mie orders (dim 0)
     s1 = torch.sum(((2 * n + 1) / (n * (n + 1))) * (a_n * pi_n + b_n * tau_n), dim=0)
-- 
2.43.0


From 2275def0d268232c1db999fbc70f660bec0da5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:25 +0000
Subject: [PATCH 20/34] fix: nearfields failed with tensor-like probe positions

---
 src/pymiediff/multishell.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index 88c02aa..375ee3e 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -1042,6 +1042,7 @@ def nearfields(
     from pymiediff.helper import transform_fields_spherical_to_cartesian
 
     backend_l = backend.lower()
+    r_probe = torch.as_tensor(r_probe)
 
     if backend_l == "pena":
         # evaluate scattering coefficients and multilayer metadata
-- 
2.43.0


From 31b2b5b4817d2c970f00963dca68d63ea48d2c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:47 +0000
Subject: [PATCH 21/34] fix: sph_jn_torch_via_rec was not converged for few
 orders at arguments around n + 10

---
 src/pymiediff/special.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 63f9de1..d0ba5c0 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -773,7 +773,7 @@ def sph_jn_torch_via_rec(
 
     # some empirical automatic starting order guess
     if str(n_add).lower() == "auto":
-        n_add = max(n_add_min, int(1.5 * torch.abs(z).detach().cpu().max()))
+        n_add = n_add_min + int(1.5 * torch.abs(z).detach().cpu().max())
         if n_add > n_add_max:
             n_add = n_add_max
 
-- 
2.43.0


From 2a2e59711465437f30ead3dc6ca3e6f92646f4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 22/34] fix: guard against zero division damaged high orders of
 near fields in optically thin layers

---
 src/pymiediff/multishell.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index 375ee3e..19d5a28 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -1094,7 +1094,10 @@ def nearfields(
             dim=1,
         )  # (Np, L+1, Nk)
 
-        eps = torch.tensor(1e-30, dtype=dtype_c, device=k0.device)
+        # psi_n of high orders in optically thin layers is well below 1e-30
+        eps = torch.tensor(
+            1e8 * torch.finfo(dtype_c).tiny, dtype=dtype_c, device=k0.device
+        )
         tiny = torch.finfo(dtype_c).tiny
 
         # recursive expansion coefficients, l = L ... 1
-- 
2.43.0


From b5cd3c25e9df0932e66e56fde8df232d294fbe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:00 +0000
Subject: [PATCH 23/34] fix: origin safeguard of the vector spherical harmonics
 shifted all arguments

---
 src/pymiediff/special.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index d0ba5c0..8d5dbf6 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -1184,7 +1184,8 @@ def vsh(n_max, k0, n_medium, r, theta, phi, kind, epsilon=1e-8):
     sin_t = torch.sin(theta)
     cos_p = torch.cos(phi)
     sin_p = torch.sin(phi)
-    rho = k0 * n_medium * r + epsilon
+    rho = k0 * n_medium * r
+    rho = torch.where(rho.abs() < epsilon, rho + epsilon, rho)
 
     # angular function evaluation
     pi_n, tau_n = pi_tau(n_max, cos_t[0])  # pass `cos_t` without order dim. (dim 0)
@@ -1523,7 +1524,8 @@ def vsh_pena(
     sin_t = torch.sin(theta)
     cos_p = torch.cos(phi)
     sin_p = torch.sin(phi)
-    rho = k0 * n_medium * r + epsilon
+    rho = k0 * n_medium * r
+    rho = torch.where(rho.abs() < epsilon, rho + epsilon, rho)
 
     # angular functions
     pi_n, tau_n = pi_tau(n_max, cos_t[0])
-- 
2.43.0


From 9dbb0dce26c7523cfa97af1624b5f5d2b1074464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:55 +0000
Subject: [PATCH 24/34] fix: pena_D3_n lost accuracy at small arguments
 (cancellation in psi_0*zeta_0)

---
 src/pymiediff/special.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 8d5dbf6..4195925 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -552,7 +552,12 @@ def pena_D3_n(
     D1 = D1.to(dtype=dtype_c)
 
     # psi0(z) * zeta0(z) = 0.5 * (1 - exp(2 i z))
-    psi_zeta_prev = 0.5 * (1.0 - torch.exp(2j * _z))
+    z_small = torch.where(_z.detach().abs() < 1.0, _z, torch.zeros_like(_z))
+    psi_zeta_prev = torch.where(
+        _z.detach().abs() < 1.0,
+        -1j * torch.exp(1j * z_small) * torch.sin(z_small),  # does not cancel at small z
+        0.5 * (1.0 - torch.exp(2j * _z)),
+    )
     D3_prev = 1j * torch.ones_like(_z, dtype=dtype_c)
     D3_list = [D3_prev]
 
-- 
2.43.0


From ed28880645536c2921aeee3567ea172956ff77d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:07 +0000
Subject: [PATCH 25/34] fix: sph_jn_torch failed for multi-dimensional
 arguments containing values below small_z

---
 src/pymiediff/special.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 4195925..790d074 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -885,8 +885,9 @@ def sph_jn_torch(
         dd = torch.exp(log_dd).to(dtype_f)
 
         # leading-term series (very small z)
-        zpow = z_small.unsqueeze(0) ** _n.to(dtype_c)  # shape (n_max+1, S_small)
-        jn_small = zpow / dd.to(dtype_c).unsqueeze(0)
+        # (orders as column: `_n` has one singleton axis per axis of `z`)
+        zpow = z_small.unsqueeze(0) ** _n.to(dtype_c).reshape(-1, 1)
+        jn_small = zpow / dd.to(dtype_c).reshape(-1, 1)
 
         # for n==0, j0 = 1 (z^0 / 1 ), correct; for exact z==0, higher orders are zero
         jns_flat[:, idx_small] = jn_small
-- 
2.43.0


From 7592edf2ae8b110f3c408ebc8dc53a881b3c3bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:07 +0000
Subject: [PATCH 26/34] fix: azimuth of points at x=0 was tilted by an absolute
 offset (short length units, single precision)

---
 src/pymiediff/helper/helper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymiediff/helper/helper.py b/src/pymiediff/helper/helper.py
index 75578d1..1df6c2b 100644
--- a/src/pymiediff/helper/helper.py
+++ b/src/pymiediff/helper/helper.py
@@ -253,7 +253,8 @@ def transform_xyz_to_spherical(x, y, z):
     z_over_r = torch.clamp(z_over_r, -1.0 + eps, 1.0 - eps)
     theta = torch.acos(z_over_r)
     eps_phi = torch.finfo(x.dtype).eps * 10
-    x_safe = x + (x == 0).to(x.dtype) * eps_phi
+    # only on the polar axis: a finite offset elsewhere at x=0 would tilt phi
+    x_safe = x + torch.logical_and(x == 0, y == 0).to(x.dtype) * eps_phi
     phi = torch.atan2(y, x_safe)
     return r, theta, phi
 
-- 
2.43.0


From 4239c21e5a52a72488a178f54f9e32a95f79189f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:07 +0000
Subject: [PATCH 27/34] fix: sph_jn_torch_via_rec overflowed to nan for
 arguments far below the order

---
 src/pymiediff/special.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 790d074..6a8d02f 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -788,6 +788,7 @@ def sph_jn_torch_via_rec(
     j_n = torch.ones_like(_z, dtype=dtype_c) * 0.0
     j_np1 = torch.ones_like(_z, dtype=dtype_c) * 1e-25
     j_nm1 = torch.zeros_like(_z, dtype=dtype_c)
+    mag_max = torch.finfo(dtype_c).max ** 0.5
 
     for _n in range(n_max + n_add, 0, -1):
         j_nm1 = ((2.0 * _n + 1.0) / _z) * j_n - j_np1
@@ -796,6 +797,13 @@ def sph_jn_torch_via_rec(
         if _n <= n_max + 1:
             jns.append(j_n[-1, ...])
 
+        # rescale before overflow (growth (2n+1)/z per order, normalized below)
+        mag = j_n.detach().abs()
+        if (mag > mag_max).any():
+            scale = torch.where(mag > mag_max, 1.0 / mag, torch.ones_like(mag))
+            j_n, j_np1 = j_n * scale, j_np1 * scale
+            jns = [_j * scale[-1, ...] for _j in jns]
+
     # inverse order and convert to tensor
     jns = torch.stack(jns[::-1], dim=0)  # first dim: order n
 
-- 
2.43.0


From 70b06fa37755185217c6b7dc9ca6565ac9b069a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:37 +0000
Subject: [PATCH 28/34] fix: small-argument series of sph_jn_torch used a
 single-precision constant

---
 src/pymiediff/special.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 6a8d02f..465d99a 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -887,7 +887,7 @@ def sph_jn_torch(
         n_arr = _n.to(dtype_f)
         log_dd = (
             torch.lgamma(2.0 * n_arr + 2.0)
-            - n_arr * torch.log(torch.tensor(2.0))
+            - n_arr * math.log(2.0)
             - torch.lgamma(n_arr + 1.0)
         )
         dd = torch.exp(log_dd).to(dtype_f)
-- 
2.43.0


From 3a811854fb678fe5e13477c74a2f771bf2e4e1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:00 +0000
Subject: [PATCH 29/34] fix: gradient of sph_jn_torch at z=0 was nan

---
 src/pymiediff/special.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 465d99a..75264d4 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -878,7 +878,7 @@ def sph_jn_torch(
 
     # -- small z: use series j_n(z) ~ z^n / (2n+1)!!  to avoid CF/div-by-zero issues
     abs_z_flat = torch.abs(z_flat)
-    mask_small = abs_z_flat < small_z
+    mask_small = torch.logical_or(abs_z_flat < small_z, abs_z_flat == 0)
     if mask_small.any():
         idx_small = mask_small.nonzero(as_tuple=True)[0]
         z_small = z_flat[idx_small]  # shape (S_small,)
@@ -893,8 +893,12 @@ def sph_jn_torch(
         dd = torch.exp(log_dd).to(dtype_f)
 
         # leading-term series (very small z)
+        # powers by products: torch.pow has no finite gradient at exactly z=0
+        zpow = [torch.ones_like(z_small)]
+        for _ in range(n_max):
+            zpow.append(zpow[-1] * z_small)
+        zpow = torch.stack(zpow, dim=0)  # shape (n_max+1, S_small)
         # (orders as column: `_n` has one singleton axis per axis of `z`)
-        zpow = z_small.unsqueeze(0) ** _n.to(dtype_c).reshape(-1, 1)
         jn_small = zpow / dd.to(dtype_c).reshape(-1, 1)
 
         # for n==0, j0 = 1 (z^0 / 1 ), correct; for exact z==0, higher orders are zero
@@ -962,13 +966,6 @@ def sph_jn_torch(
     # reshape jns_flat into original z shape plus orders axis
     jns = jns_flat.reshape(n_max + 1, *orig_shape)
 
-    # for z == 0, enforce exact known limits:
-    # j_0(0)=1, j_n(0)=0 for n>0
-    mask0 = _z[0] == 0
-    if mask0.any():
-        jns[0, mask0] = 1.0
-        jns[1:, mask0] = 0.0
-
     return jns
 
 
-- 
2.43.0


From 54bade86383e4946d4c7399fc2caae687cfd39b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:59 +0000
Subject: [PATCH 30/34] fix: vsh_pena lost the transverse components of N near
 zeros of psi_n

---
 src/pymiediff/special.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 75264d4..eb3a527 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -1548,18 +1548,19 @@ def vsh_pena(
     D3 = pena_D3_n(n_max, rho[0], D1=D1, precision=precision)
     psi_n, zeta_n = pena_psi_zeta_n(n_max, rho[0], D1=D1, D3=D3, precision=precision)
 
+    n = torch.arange(1, n_max + 1, device=k0.device)
+    n = n.view((-1,) + (r.ndim - 1) * (1,))
+
     if kind == 1:
-        rho_zn = psi_n[1:]
-        D_kind = D1[1:]
+        zn = psi_n[1:] / rho
+        # psi'_n without D1, whose poles are the zeros of psi_n
+        rho_zn_der_over_rho = psi_n[:-1] / rho - n * (zn / rho)
     elif kind == 3:
-        rho_zn = zeta_n[1:]
-        D_kind = D3[1:]
+        zn = zeta_n[1:] / rho
+        rho_zn_der_over_rho = D3[1:] * zn
     else:
         raise ValueError("`kind` parameter must be either 1 or 3 for `vsh_pena`.")
 
-    zn = rho_zn / rho
-    rho_zn_der_over_rho = D_kind * zn
-
     # spherical coordinate basis vectors
     e_r = torch.as_tensor([1, 0, 0], device=k0.device).view((r.ndim - 1) * (1,) + (-1,))
     e_tet = torch.as_tensor([0, 1, 0], device=k0.device).view(
@@ -1569,9 +1570,6 @@ def vsh_pena(
         (r.ndim - 1) * (1,) + (-1,)
     )
 
-    n = torch.arange(1, n_max + 1, device=k0.device)
-    n = n.view((-1,) + (r.ndim - 1) * (1,))
-
     # odd
     M_o1n = cos_p * pi_n * zn * e_tet - sin_p * tau_n * zn * e_phi
     N_o1n = (sin_p * n * (n + 1) * sin_t * pi_n * (zn / rho) * e_r) + (
-- 
2.43.0


From 1e0b16bc4970eaedc2ad47a88281e6badc8cc9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:41 +0000
Subject: [PATCH 31/34] fix: torchgdm bridge gave wrong effective models for
 wavelengths not in ascending order

---
 src/pymiediff/helper/tg.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pymiediff/helper/tg.py b/src/pymiediff/helper/tg.py
index 7ed90da..342652d 100644
--- a/src/pymiediff/helper/tg.py
+++ b/src/pymiediff/helper/tg.py
@@ -501,7 +501,8 @@ def extract_GPM_sphere_miediff(
     device = mie_particle.device
 
     wavelengths = torch.as_tensor(wavelengths, dtype=DTYPE_FLOAT, device=device)
-    wavelengths = torch.atleast_1d(wavelengths)
+    # torchgdm interpolates on ascending wavelengths
+    wavelengths = torch.sort(torch.atleast_1d(wavelengths)).values
     k0 = 2 * torch.pi / wavelengths
 
     backend = _resolve_mie_backend(mie_particle, backend)
@@ -837,7 +838,8 @@ if _tg_available is not None:
             wavelengths = torch.as_tensor(
                 wavelengths, dtype=DTYPE_FLOAT, device=self.device
             )
-            wavelengths = torch.atleast_1d(wavelengths)
+            # torchgdm interpolates on ascending wavelengths
+            wavelengths = torch.sort(torch.atleast_1d(wavelengths)).values
             k0 = 2 * torch.pi / wavelengths
 
             # mie coefficients
-- 
2.43.0


From 9c1ced9af096f477e53dbc3dee42e48f73ef7dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:50 +0000
Subject: [PATCH 32/34] fix: functional interface silently ignored a shell
 permittivity without shell radius (and vice versa)

---
 src/pymiediff/multishell.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index 19d5a28..e5ea6d7 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -501,6 +501,9 @@ def _as_layer_inputs(r_c, r_s, eps_c, eps_s, r_layers=None, eps_layers=None):
             "Either provide (`r_layers`, `eps_layers`) or legacy (`r_c`, `eps_c`)."
         )
 
+    if (r_s is None) != (eps_s is None):
+        raise ValueError("`r_s` and `eps_s` must be provided together.")
+
     # legacy API mapping: homogeneous/core-shell -> L=1/2
     if r_s is None:
         r_s = r_c
-- 
2.43.0


From 708d3d5562c85d08e6a40d4fd0f75811d03c3fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:40 +0000
Subject: [PATCH 33/34] fix: torch backend near fields raised for
 single-precision input with precision='single'

---
 src/pymiediff/multishell.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index e5ea6d7..bde6701 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -1473,10 +1473,14 @@ def nearfields(
     )
     Es_3 = En * (1j * a_n * N3_e1n - b_n * M3_o1n)
 
-    Es = torch.zeros(full_shape, dtype=a_n.dtype, device=a_n.device)
-    Es[idx_1] = Es_1[idx_1]
-    Es[idx_2] = Es_2[idx_2]
-    Es[idx_3] = Es_3[idx_3]
+    # coefficients and vector harmonics may differ in precision
+    dtype_c = torch.promote_types(
+        torch.promote_types(Es_1.dtype, Es_2.dtype), Es_3.dtype
+    )
+    Es = torch.zeros(full_shape, dtype=dtype_c, device=a_n.device)
+    Es[idx_1] = Es_1[idx_1].to(dtype_c)
+    Es[idx_2] = Es_2[idx_2].to(dtype_c)
+    Es[idx_3] = Es_3[idx_3].to(dtype_c)
 
     # magnetic fields (relative to H0)
     Hs_1 = -n_core * En * (d_n * M1_e1n_c + 1j * c_n * N1_o1n_c)
@@ -1491,10 +1495,10 @@ def nearfields(
     )
     Hs_3 = En*n_env * (1j * b_n * N3_o1n + a_n * M3_e1n)
 
-    Hs = torch.zeros(full_shape, dtype=a_n.dtype, device=a_n.device)
-    Hs[idx_1] = Hs_1[idx_1]
-    Hs[idx_2] = Hs_2[idx_2]
-    Hs[idx_3] = Hs_3[idx_3]
+    Hs = torch.zeros(full_shape, dtype=dtype_c, device=a_n.device)
+    Hs[idx_1] = Hs_1[idx_1].to(dtype_c)
+    Hs[idx_2] = Hs_2[idx_2].to(dtype_c)
+    Hs[idx_3] = Hs_3[idx_3].to(dtype_c)
 
     # convert to Cartesian
     Es_xyz = transform_fields_spherical_to_cartesian(
-- 
2.43.0


From 358a5bd122724d0e8e03e9ee8291b08098554ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:04 +0000
Subject: [PATCH 34/34] fix: avoid nan of D1n_torch where z is a zero of a
 Riccati-Bessel function

---
 src/pymiediff/special.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index eb3a527..441b47a 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -1309,7 +1309,10 @@ def D1n_torch(
     D1_nm1 = torch.zeros_like(_z, dtype=dtype_c)
 
     for _n in range(n_max + n_add, 0, -1):
-        D1_nm1 = _n/_z - 1/(D1_n + _n/_z)
+        # avoid division by zero where z is a zero of a Riccati-Bessel function
+        den = D1_n + _n/_z
+        den = torch.where(den.abs() < 1e-30, den + 1e-30, den)
+        D1_nm1 = _n/_z - 1/den
         D1_n = D1_nm1
         if _n <= n_max + 1:
             D1ns.append(D1_n[-1, ...])
-- 
2.43.0

