"""Behaviour-preserving rewrites (rounding, order, helpers, loops) for trying the checks: refactor.py <copy of /repo>; then MIEMON_REPO=<copy> ./run.sh ..."""
import sys
R = sys.argv[1] + "/src/pymiediff/"
def ed(f,*prs):
    s=open(R+f).read()
    for a,b in prs:
        assert a in s,(f,a)
        s=s.replace(a,b,1)
    open(R+f,"w").write(s)
ed("multishell.py",
("    # layer-specific refractive index\n    n_layers_rel = eps_layers**0.5\n    n_env = eps_env**0.5\n","    # layer-specific refractive index\n    n_layers_rel = torch.sqrt(eps_layers)\n    n_env = torch.sqrt(eps_env)\n"),
("    x_layers = k.unsqueeze(1) * r_layers.unsqueeze(-1).to(dtype=dtype_c)\n    m_layers = torch.sqrt(eps_layers) / n_env.unsqueeze(1)\n    n_part, n_layers, n_k0 = x_layers.shape\n","    x_layers = torch.einsum('pk,pl->plk', k.expand(r_layers.shape[0], -1), r_layers.to(dtype=dtype_c))\n    m_layers = torch.sqrt(eps_layers) * (1.0 / n_env.unsqueeze(1))\n    n_layers = x_layers.shape[1]\n\n    def _guard(den):\n        small = den.abs() < eps.abs()\n        return torch.where(small, den + eps, den)\n"),
("        den_a = G2 - Q * G1\n        den_a = torch.where(den_a.abs() < eps.abs(), den_a + eps, den_a)\n        H_a = (G2 * D1_curr - Q * G1 * D3_curr) / den_a\n","        QG1 = Q * G1\n        H_a = (G2 * D1_curr - QG1 * D3_curr) / _guard(G2 - QG1)\n"),
("        den_b = Gt2 - Q * Gt1\n        den_b = torch.where(den_b.abs() < eps.abs(), den_b + eps, den_b)\n        H_b = (Gt2 * D1_curr - Q * Gt1 * D3_curr) / den_b\n","        QGt1 = Gt1 * Q\n        H_b = (D1_curr * Gt2 - D3_curr * QGt1) / _guard(Gt2 - QGt1)\n"),
("    term_a = H_a / mL.unsqueeze(0) + (n_arr / xL_safe.unsqueeze(0))\n","    n_over_x = n_arr * (1.0 / xL_safe.unsqueeze(0))\n    term_a = n_over_x + H_a / mL.unsqueeze(0)\n"),
("    term_b = mL.unsqueeze(0) * H_b + (n_arr / xL_safe.unsqueeze(0))\n","    term_b = n_over_x + H_b * mL.unsqueeze(0)\n"),
("    cs_ext_mp = prefactor * (2 * n + 1) * torch.stack((a_n.real, b_n.real))\n\n    cs_sca_mp = prefactor * (2 * n + 1) * torch.stack((a_n.abs() ** 2, b_n.abs() ** 2))\n","    coef = torch.stack((a_n, b_n))\n    cs_ext_mp = (2 * n + 1) * coef.real * prefactor\n    cs_sca_mp = (2 * n + 1) * (coef.real**2 + coef.imag**2) * prefactor\n"),
("    cs_ext = torch.sum(cs_ext_mp, (0, 1)).real\n    cs_abs = torch.sum(cs_abs_mp, (0, 1)).real\n    cs_sca = torch.sum(cs_sca_mp, (0, 1)).real\n","    def _total(mp):\n        return (mp[0].flip(0).sum(0) + mp[1].flip(0).sum(0)).real\n\n    cs_ext, cs_abs, cs_sca = (_total(c) for c in (cs_ext_mp, cs_abs_mp, cs_sca_mp))\n"),
("    s1 = torch.sum(((2 * n + 1) / (n * (n + 1))) * (a_n * pi_n + b_n * tau_n), dim=0)\n    s2 = torch.sum(((2 * n + 1) / (n * (n + 1))) * (a_n * tau_n + b_n * pi_n), dim=0)\n\n    i_per = s1.abs() ** 2\n    i_par = s2.abs() ** 2\n","    weight = (2 * n + 1) / (n * (n + 1))\n    wa, wb = weight * a_n, weight * b_n\n    s1 = (wa * pi_n).sum(0) + (wb * tau_n).sum(0)\n    s2 = (wa * tau_n).sum(0) + (wb * pi_n).sum(0)\n\n    i_per = s1.real**2 + s1.imag**2\n    i_par = s2.real**2 + s2.imag**2\n"),
("    i_unpol = (i_par + i_per) / 2\n","    i_unpol = 0.5 * i_per + 0.5 * i_par\n"),
# near fields
("        c_L = torch.ones_like(a_L)\n        d_L = torch.ones_like(a_L)\n","        c_L = d_L = torch.ones_like(a_L)\n"),
("            c_l = (D3_l * T2 * m_ratio + T4) / den_c\n            d_l = (D3_l * T1 + T3 * m_ratio) / den_c\n","            inv = 1.0 / den_c\n            c_l = T4 * inv + D3_l * (m_ratio * T2) * inv\n            d_l = (m_ratio * T3 + T1 * D3_l) * inv\n"),
("            Es[masks[li]] = E_l[masks[li]].to(dtype_c)\n            Hs[masks[li]] = H_l[masks[li]].to(dtype_c)\n","            Es = torch.where(masks[li], E_l.to(dtype_c), Es)\n            Hs = torch.where(masks[li], H_l.to(dtype_c), Hs)\n"),
("        Es_xyz = transform_fields_spherical_to_cartesian(\n            Es[..., 0], Es[..., 1], Es[..., 2], r_sh[..., 0], theta_sh[..., 0], phi_sh[..., 0]\n        )\n        Es_xyz = torch.stack(Es_xyz, dim=-1).sum(dim=0)\n","        Es, Hs = Es.sum(dim=0), Hs.sum(dim=0)\n        Es_xyz = transform_fields_spherical_to_cartesian(\n            Es[..., 0], Es[..., 1], Es[..., 2], r_sh[0, ..., 0], theta_sh[0, ..., 0], phi_sh[0, ..., 0]\n        )\n        Es_xyz = torch.stack(Es_xyz, dim=-1)\n"),
("        Hs_xyz = transform_fields_spherical_to_cartesian(\n            Hs[..., 0], Hs[..., 1], Hs[..., 2], r_sh[..., 0], theta_sh[..., 0], phi_sh[..., 0]\n        )\n        Hs_xyz = torch.stack(Hs_xyz, dim=-1).sum(dim=0)\n","        Hs_xyz = transform_fields_spherical_to_cartesian(\n            Hs[..., 0], Hs[..., 1], Hs[..., 2], r_sh[0, ..., 0], theta_sh[0, ..., 0], phi_sh[0, ..., 0]\n        )\n        Hs_xyz = torch.stack(Hs_xyz, dim=-1)\n"),
("        Etot = Es_xyz.clone()\n        Htot = Hs_xyz.clone()\n        idx_out = masks[-1][0, ...]\n        Etot[idx_out] += Ei[idx_out]\n        Htot[idx_out] += Hi[idx_out]\n","        outside = masks[-1][0, ...]\n        Etot = torch.where(outside, Es_xyz + Ei, Es_xyz)\n        Htot = torch.where(outside, Hs_xyz + Hi, Hs_xyz)\n"),
# legacy kernel
("    psi_m1x = (m1 * x) * j_m1x\n    psi_m2x = (m2 * x) * j_m2x\n","    z_1x, z_2x = m1 * x, m2 * x\n    psi_m1x = j_m1x * z_1x\n    psi_m2x = j_m2x * z_2x\n"),
("    an = x30 * (\n        dpsi_y * x15\n        - dpsi_y * x24\n        - x0 * x16\n        + x0 * x4\n","    an = x30 * (\n        dpsi_y * (x15 - x24)\n        + x0 * (x4 - x16)\n"),
)
ed("special.py",
("        t2 = (nn / z_safe) - D3_prev\n        D3_up = 1.0 / torch.where(t2.abs() < eps, t2 + eps, t2) - (nn / z_safe)\n","        n_over_z = nn * (1.0 / z_safe)\n        t2 = n_over_z - D3_prev\n        D3_up = 1.0 / torch.where(t2.abs() < eps, t2 + eps, t2) - n_over_z\n"),
("        Q_list.append((D3_z2[nn, ...] - D1_z2[nn, ...]) / dif * zeta_ratio**2)","        Q_list.append(zeta_ratio * zeta_ratio * (D3_z2[nn, ...] - D1_z2[nn, ...]) / dif)"),
)
ed("helper/helper.py",
("    x = r * torch.sin(theta) * torch.cos(phi)\n    y = r * torch.sin(theta) * torch.sin(phi)\n","    rho = r * torch.sin(theta)\n    x = rho * torch.cos(phi)\n    y = rho * torch.sin(phi)\n"),
("    Ex = E_r * (st * cp) + E_t * (ct * cp) + E_ph * (-sp)\n    Ey = E_r * (st * sp) + E_t * (ct * sp) + E_ph * (cp)\n","    E_rho = E_r * st + E_t * ct\n    Ex = E_rho * cp - E_ph * sp\n    Ey = E_rho * sp + E_ph * cp\n"),
("    y_eval = (y_l * dist_r + y_r * dist_l) / sum_d_l_r\n","    w_r = dist_l / sum_d_l_r\n    w_l = dist_r / sum_d_l_r\n    y_eval = y_l * w_l + y_r * w_r\n"),
("    for k in results_dict:\n        if type(results_dict[k]) == torch.Tensor:\n            results_dict[k] = results_dict[k].squeeze()\n    return results_dict","    tensors = {k: v.squeeze() for k, v in results_dict.items() if isinstance(v, torch.Tensor)}\n    results_dict.update(tensors)\n    return results_dict"),
("    a_pw_n = 1j**n_all * (2 * n_all + 1) / (n_all * (n_all + 1))","    a_pw_n = (1.0 / n_all + 1.0 / (n_all + 1)) * 1j**n_all"),
)
ed("materials/mat.py",
("            eps = 1 + self.coeff[0]\n\n            def g(c1, c2, w):\n                return c1 * (w**2) / (w**2 - c2**2)\n\n            for i in range(1, len(self.coeff), 2):\n                # wavelength factor 1/1000: nm --> microns\n                wl_mu = wavelength / 1000.0\n                eps += g(self.coeff[i], self.coeff[i + 1], wl_mu)\n",
 "            w2 = (wavelength / 1000.0) ** 2  # nm --> microns\n            pairs = zip(self.coeff[1::2], self.coeff[2::2])\n            eps = 1 + self.coeff[0] + sum(c1 * w2 / (w2 - c2 * c2) for c1, c2 in pairs)\n"),
("        if len(torch.as_tensor(wavelength).shape) == 1:\n            eps = torch.stack([self._get_eps_single_wl(wl) for wl in wavelength], dim=0)\n        else:\n            eps = self._get_eps_single_wl(wavelength)\n",
 "        eps = torch.as_tensor(self._eval(wavelength), dtype=DTYPE_COMPLEX, device=self.device)\n"),
("    wl = []\n    eps = []\n    for s in splitrows:\n        if len(s) > 0:\n            wl.append(1000.0 * float(s[0]))  # microns --> nm\n            _n = float(s[1])\n            if len(s) > 2:\n                _k = float(s[2])\n            else:\n                _k = 0.0\n            eps.append((_n + 1j * _k) ** 2)\n    return wl, eps",
 "    rows = [[float(v) for v in s] for s in splitrows if s]\n    wl = [1e3 * s[0] for s in rows]\n    index = [complex(s[1], s[2] if len(s) > 2 else 0.0) for s in rows]\n    return wl, [m * m for m in index]"),
)
ed("main.py",
("""        # single particle: remove empty dimension
        from pymiediff.helper.helper import _squeeze_dimensions

        res_nf = _squeeze_dimensions(res_nf)

        return res_nf
""","""        return self._single(res_nf)

    @staticmethod
    def _single(results):
        # single particle: remove empty dimension
        from pymiediff.helper.helper import _squeeze_dimensions

        return _squeeze_dimensions(results)
"""),
("""        from pymiediff.helper.helper import _squeeze_dimensions

        res_angSca = _squeeze_dimensions(res_angSca)

        return res_angSca
""","""        return self._single(res_angSca)
"""),
)
ed("materials/mat.py",("sum(c1 * w2 / (w2 - c2 * c2) for c1, c2 in pairs)\n","sum(c1 * w2 / (w2 - c2 * c2) for c1, c2 in pairs) + 0 * w2\n"))
ed("special.py",
("    n_start = max(n_max, n_conv) + int(n_add)\n","    n_start = max(n_max, n_conv) + 2 * int(n_add)\n"),
("        num = nn / z_safe\n        den = D_next + num\n","        num = nn * inv_z\n        den = num + D_next\n"),
("    for nn in range(n_start, 0, -1):\n        num","    inv_z = 1.0 / z_safe\n    for nn in range(n_start, 0, -1):\n        num"),
("        pi_next = (\n            (2 * nn + 1) * mu_flat * pi_list[nn]\n            - (nn + 1) * pi_list[nn - 1]\n        ) / nn\n        pi_list.append(pi_next)\n\n    tau_list = [zero]\n    for nn in range(1, n_max + 1):\n        tau_next = nn * mu_flat * pi_list[nn] - (nn + 1) * pi_list[nn - 1]\n        tau_list.append(tau_next)\n",
 "        s = mu_flat * pi_list[nn]\n        t = s - pi_list[nn - 1]\n        pi_list.append(s + t + t / nn)\n\n    tau_list = [zero] + [\n        nn * (mu_flat * pi_list[nn] - pi_list[nn - 1]) - pi_list[nn - 1]\n        for nn in range(1, n_max + 1)\n    ]\n"),
("    psi = _z * jn\n    psi_der = jn + _z * jn_der\n\n    return psi, psi_der\n\n\ndef chi_torch","    psi_der = _z * jn_der + jn\n\n    return jn * _z, psi_der\n\n\ndef chi_torch"),
("    _z = torch.where(_z.abs() < eps, eps * torch.ones_like(_z), _z)\n\n    # allocate tensors\n    yns = []  # use python list for Bessel orders to avoid in-place modif.\n\n    # zero order\n    yns.append(-1 * (torch.cos(_z[-1, ...]) / _z[-1, ...]))\n",
 "    _z = torch.where(_z.abs() < eps, eps * torch.ones_like(_z), _z)\n    zz = _z[-1, ...]\n\n    # use python list for Bessel orders to avoid in-place modif.\n    yns = [-torch.cos(zz) / zz]\n"),
("        yns.append(\n            -1\n            * (\n                (torch.cos(_z[-1, ...]) / _z[-1, ...] ** 2)\n                + (torch.sin(_z[-1, ...]) / _z[-1, ...])\n            )\n        )\n","        yns.append((yns[0] - torch.sin(zz)) / zz)\n"),
("            yns.append(\n                ((2 * n_iter - 1) / _z[-1, ...]) * (yns[n_iter - 1]) - yns[n_iter - 2]\n            )\n","            yns.append((2 * n_iter - 1) * yns[-1] / zz - yns[-2])\n"),
("        psi_3term = ((2 * nn - 1) / z_safe) * psi_prev - psi_prev2\n","        psi_3term = (2 * nn - 1) * psi_prev / z_safe - psi_prev2\n"),
)
ed("helper/tg.py",
("    inc_fields_conf = []\n    for angle in torch.linspace(0, 2 * torch.pi, n_angles + 1)[:-1]:\n        for inc in inc_planes:\n            for pol in [\"s\", \"p\"]:\n                inc_fields_conf.append(\n                    dict(angle=angle, inc_plane=inc, polarization=pol)\n                )\n    return inc_fields_conf\n",
 "    angles = torch.linspace(0, 2 * torch.pi, n_angles + 1)[:-1]\n    return [\n        dict(angle=angle, inc_plane=inc, polarization=pol)\n        for pol in (\"p\", \"s\")\n        for inc in inc_planes\n        for angle in angles\n    ]\n"),
("    h_dir = -torch.linalg.cross(e_dir, k_dir)\n","    h_dir = torch.linalg.cross(k_dir, e_dir)\n"),
("    frame = torch.stack([e_dir, h_dir, k_dir], dim=0)\n    return frame.T\n","    return torch.stack([e_dir, h_dir, k_dir], dim=1)\n"),
("    fields_sca = mie_particle.get_nearfields(\n        k0,\n        r_probe_rot,\n        n_max=n_max,\n        backend=backend,\n    )\n    fields_inc = mie_particle.get_nearfields(\n        k0,\n        r_gpm_rot,\n        n_max=n_max,\n        backend=backend,\n    )\n",
 "    fields_inc, fields_sca = (\n        mie_particle.get_nearfields(k0, pos, n_max=n_max, backend=backend)\n        for pos in (r_gpm_rot, r_probe_rot)\n    )\n"),
)
