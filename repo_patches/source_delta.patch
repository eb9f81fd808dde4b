From d10e9a4eda83743794c84bf8ece1e3f6449693d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:10 +0000
Subject: [PATCH 01/32] fix: number cells in the tensors' own (z fastest) order
 everywhere

---
 src/simulator/reservoir.py  |  2 +-
 src/simulator/simulation.py | 24 ++++++++++++------------
 src/simulator/well.py       |  2 +-
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/simulator/reservoir.py b/src/simulator/reservoir.py
index 9a8eb32..d64f1b4 100644
--- a/src/simulator/reservoir.py
+++ b/src/simulator/reservoir.py
@@ -77,4 +77,4 @@ class Reservoir:
         Returns:
             Линейный индекс ячейки
         """
-        return i + j * self.nx + k * self.nx * self.ny
+        return (i * self.ny + j) * self.nz + k
diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 6fc5c70..f15da13 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -567,8 +567,8 @@ class Simulator:
         for i in range(nx-1):
             for j in range(ny):
                 for k in range(nz):
-                    idx1 = i + j * nx + k * nx * ny
-                    idx2 = (i+1) + j * nx + k * nx * ny
+                    idx1 = (i * ny + j) * nz + k
+                    idx2 = ((i+1) * ny + j) * nz + k
                     
                     # Средние значения
                     avg_perm = 2 * perm_x_vec[idx1] * perm_x_vec[idx2] / (perm_x_vec[idx1] + perm_x_vec[idx2] + 1e-10)
@@ -604,8 +604,8 @@ class Simulator:
         for j in range(ny-1):
             for i in range(nx):
                 for k in range(nz):
-                    idx1 = i + j * nx + k * nx * ny
-                    idx2 = i + (j+1) * nx + k * nx * ny
+                    idx1 = (i * ny + j) * nz + k
+                    idx2 = (i * ny + (j+1)) * nz + k
                     
                     avg_perm = 2 * perm_y_vec[idx1] * perm_y_vec[idx2] / (perm_y_vec[idx1] + perm_y_vec[idx2] + 1e-10)
                     avg_rho_w = 0.5 * (rho_w[idx1] + rho_w[idx2])
@@ -636,8 +636,8 @@ class Simulator:
         for k in range(nz-1):
             for i in range(nx):
                 for j in range(ny):
-                    idx1 = i + j * nx + k * nx * ny
-                    idx2 = i + j * nx + (k+1) * nx * ny
+                    idx1 = (i * ny + j) * nz + k
+                    idx2 = (i * ny + j) * nz + (k+1)
                     
                     avg_perm = 2 * perm_z_vec[idx1] * perm_z_vec[idx2] / (perm_z_vec[idx1] + perm_z_vec[idx2] + 1e-10)
                     avg_rho_w = 0.5 * (rho_w[idx1] + rho_w[idx2])
@@ -1752,8 +1752,8 @@ class Simulator:
         for i in range(nx-1):
             for j in range(ny):
                 for k in range(nz):
-                    idx1 = i + j * nx + k * nx * ny
-                    idx2 = (i+1) + j * nx + k * nx * ny
+                    idx1 = (i * ny + j) * nz + k
+                    idx2 = ((i+1) * ny + j) * nz + k
                     
                     # Средние значения
                     avg_perm = 2 * perm_x_vec[idx1] * perm_x_vec[idx2] / (perm_x_vec[idx1] + perm_x_vec[idx2] + 1e-10)
@@ -1846,8 +1846,8 @@ class Simulator:
         for j in range(ny-1):
             for i in range(nx):
                 for k in range(nz):
-                    idx1 = i + j * nx + k * nx * ny
-                    idx2 = i + (j+1) * nx + k * nx * ny
+                    idx1 = (i * ny + j) * nz + k
+                    idx2 = (i * ny + (j+1)) * nz + k
                     
                     avg_perm = 2 * perm_y_vec[idx1] * perm_y_vec[idx2] / (perm_y_vec[idx1] + perm_y_vec[idx2] + 1e-10)
                     avg_rho_w = 0.5 * (rho_w[idx1] + rho_w[idx2])
@@ -1937,8 +1937,8 @@ class Simulator:
         for k in range(nz-1):
             for i in range(nx):
                 for j in range(ny):
-                    idx1 = i + j * nx + k * nx * ny
-                    idx2 = i + j * nx + (k+1) * nx * ny
+                    idx1 = (i * ny + j) * nz + k
+                    idx2 = (i * ny + j) * nz + (k+1)
                     
                     avg_perm = 2 * perm_z_vec[idx1] * perm_z_vec[idx2] / (perm_z_vec[idx1] + perm_z_vec[idx2] + 1e-10)
                     avg_rho_w = 0.5 * (rho_w[idx1] + rho_w[idx2])
diff --git a/src/simulator/well.py b/src/simulator/well.py
index 8c51591..e5000de 100644
--- a/src/simulator/well.py
+++ b/src/simulator/well.py
@@ -37,7 +37,7 @@ class Well:
         
         nx, ny, nz = reservoir_dimensions
         self.cell_index = (i, j, k)
-        self.cell_index_flat = i + j * nx + k * nx * ny
+        self.cell_index_flat = (i * ny + j) * nz + k
         
         # Определяем реальные размеры ячейки из reservoir_dimensions
         # Для Peaceman нужно знать dx, dy. Полагаем кубические ячейки и берём 1 м, если размеры не переданы.
-- 
2.43.0


From f59fb720a475980302439b814b8221b462a29d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:10 +0000
Subject: [PATCH 02/32] fix: fully implicit step reported success when Newton
 had not converged

---
 src/simulator/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index f15da13..e5f1835 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -163,7 +163,7 @@ class Simulator:
             print(f"Попытка шага с dt = {current_dt/86400:.2f} дней (Попытка {attempt+1}/{max_attempts})")
             
             # Выполняем шаг с текущим значением dt
-            converged = self._fully_implicit_newton_step(current_dt)
+            converged, _ = self._fully_implicit_newton_step(current_dt)
             
             if converged:
                 print(f"Шаг успешно выполнен с dt = {current_dt/86400:.2f} дней.")
-- 
2.43.0


From f61dbfe52e656ac806e1815d25bf6c7860c290d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:10 +0000
Subject: [PATCH 03/32] fix: Newton settings from the configuration were never
 used

---
 src/simulator/simulation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index e5f1835..9e33b30 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -196,9 +196,9 @@ class Simulator:
         print("Не удалось добиться сходимости даже с минимальным шагом. Симуляция остановлена.")
         return False
         
-    def _fully_implicit_newton_step(self, dt, max_iter=20, tol=1e-3, 
-                                    damping_factor=0.7, jac_reg=1e-7, 
-                                    line_search_factors=None, use_cuda=False):
+    def _fully_implicit_newton_step(self, dt, max_iter=None, tol=None, 
+                                    damping_factor=None, jac_reg=None, 
+                                    line_search_factors=None, use_cuda=None):
         """
         Выполняет один шаг метода Ньютона для полностью неявной схемы.
         Максимально оптимизированная реализация с улучшенным методом line search.
-- 
2.43.0


From 8a80a3845a31acff7200e037bd120e61c77232fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:10 +0000
Subject: [PATCH 04/32] fix: fully implicit scheme left oil saturation
 inconsistent with gas and with rollbacks

---
 src/simulator/simulation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 9e33b30..3c66705 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -186,7 +186,7 @@ class Simulator:
             # Неудачная попытка - восстанавливаем начальное состояние
             self.fluid.pressure = initial_pressure.clone()
             self.fluid.s_w = initial_saturation.clone()
-            self.fluid.s_o = 1.0 - self.fluid.s_w
+            self.fluid.s_o = 1.0 - self.fluid.s_w - self.fluid.s_g
             
             print("Решатель не сошелся. Уменьшаем шаг времени.")
             current_dt /= dt_reduction_factor
@@ -465,6 +465,7 @@ class Simulator:
                         # Восстанавливаем исходное состояние
                         self.fluid.pressure = current_p.clone()
                         self.fluid.s_w = current_sw.clone()
+                        self.fluid.s_o = 1.0 - self.fluid.s_w - self.fluid.s_g
                         setattr(self, '_stagnation_count', 0)
                         return False, iter_idx + 1
                     else:
@@ -479,7 +480,7 @@ class Simulator:
             # Ограничиваем значения физическими пределами
             self.fluid.s_w.clamp_(self.fluid.sw_cr, 1.0 - self.fluid.so_r)
             self.fluid.pressure.clamp_(1e5, 100e6)  # От 0.1 МПа до 100 МПа
-            self.fluid.s_o = 1.0 - self.fluid.s_w  # Обновляем нефтенасыщенность
+            self.fluid.s_o = 1.0 - self.fluid.s_w - self.fluid.s_g  # Обновляем нефтенасыщенность
             
             # Вычисляем время, затраченное на итерацию
             iter_time = time.time() - start_time
@@ -495,6 +496,7 @@ class Simulator:
             # Восстанавливаем исходное состояние
             self.fluid.pressure = current_p.clone()
             self.fluid.s_w = current_sw.clone()
+            self.fluid.s_o = 1.0 - self.fluid.s_w - self.fluid.s_g
             return False, max_iter
 
     def _compute_residual_fast(self, dt, nx, ny, nz, dx, dy, dz):
@@ -767,7 +769,7 @@ class Simulator:
         self.fluid.s_w.clamp_(self.fluid.sw_cr, 1.0 - self.fluid.so_r)
         
         # Обновляем также нефтенасыщенность
-        self.fluid.s_o = 1.0 - self.fluid.s_w
+        self.fluid.s_o = 1.0 - self.fluid.s_w - self.fluid.s_g
         
         # Подсчитываем количество ограниченных значений
         p_limited = torch.sum(p_delta != p_delta_raw).item()
-- 
2.43.0


From e5b0ee67cc3dac8b87c2a7c2811812b9dcb4007b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:53 +0000
Subject: [PATCH 05/32] fix: Newton increments were read block-wise from an
 interleaved system

---
 src/simulator/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 3c66705..8d9a7bd 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -747,8 +747,8 @@ class Simulator:
         old_sw = self.fluid.s_w.clone().reshape(-1)
         
         # Применяем приращения с заданным фактором
-        p_delta_raw = delta[:num_cells].reshape(-1) * factor
-        sw_delta_raw = delta[num_cells:].reshape(-1) * factor
+        p_delta_raw = delta[0::2].reshape(-1) * factor
+        sw_delta_raw = delta[1::2].reshape(-1) * factor
         
         # Ограничиваем изменения давления (не более 10% от текущего значения и не более 2 МПа)
         max_p_change_rel = 0.1 * torch.abs(old_p)
-- 
2.43.0


From b0024c233cbe5a86b43d19fa70c85a68f8968aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:53 +0000
Subject: [PATCH 06/32] fix: line search restarted every Newton iteration from
 the initial state

---
 src/simulator/simulation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 8d9a7bd..9f8d8e4 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -418,6 +418,8 @@ class Simulator:
             # Line search для улучшения сходимости
             best_factor = None
             best_residual_norm = float('inf')
+            iter_p = self.fluid.pressure.clone()
+            iter_sw = self.fluid.s_w.clone()
             
             # Применяем демпфирование перед line search для стабильности
             if damping_factor < 1.0:
@@ -434,8 +436,8 @@ class Simulator:
                 new_residual_norm = torch.norm(new_residual).item()
                 
                 # Откатываем изменения
-                self.fluid.pressure = current_p.clone()
-                self.fluid.s_w = current_sw.clone()
+                self.fluid.pressure = iter_p.clone()
+                self.fluid.s_w = iter_sw.clone()
                 
                 # Проверяем, улучшает ли этот фактор сходимость
                 if new_residual_norm < best_residual_norm:
-- 
2.43.0


From d470335ded0df91e674b8bc9edd298bf435449e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:15 +0000
Subject: [PATCH 07/32] fix: oil derivative used before assignment in the
 y-direction Jacobian

---
 src/simulator/simulation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 9f8d8e4..79c3d4a 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1921,6 +1921,7 @@ class Simulator:
                         
                     else:
                         dfw_dsw2 = trans * dlambda_w_dsw[idx2] * (dp - dp_cap + gravity_term_w)
+                        dfo_dsw2 = trans * dlambda_o_dsw[idx2] * (dp + gravity_term_o)
                         
                         if self.fluid.pc_scale > 0:
                             dfw_dsw1 = trans * lambda_w_up * (-dpc_dsw[idx1])
-- 
2.43.0


From 1bf18054e001ff067d812facd535afa43b37a126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:15 +0000
Subject: [PATCH 08/32] fix: division guard of the harmonic permeability was as
 large as the permeability

---
 src/simulator/simulation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 79c3d4a..f2a818d 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -62,15 +62,15 @@ class Simulator:
             
             # Расчет проводимостей
             for i in range(nx-1):
-                k_harmonic = 2 * k_x[i, :, :] * k_x[i+1, :, :] / (k_x[i, :, :] + k_x[i+1, :, :] + 1e-15)
+                k_harmonic = 2 * k_x[i, :, :] * k_x[i+1, :, :] / (k_x[i, :, :] + k_x[i+1, :, :] + 1e-30)
                 self.T_x[i, :, :] = k_harmonic * dy * dz / dx
             
             for j in range(ny-1):
-                k_harmonic = 2 * k_y[:, j, :] * k_y[:, j+1, :] / (k_y[:, j, :] + k_y[:, j+1, :] + 1e-15)
+                k_harmonic = 2 * k_y[:, j, :] * k_y[:, j+1, :] / (k_y[:, j, :] + k_y[:, j+1, :] + 1e-30)
                 self.T_y[:, j, :] = k_harmonic * dx * dz / dy
             
             for k in range(nz-1):
-                k_harmonic = 2 * k_z[:, :, k] * k_z[:, :, k+1] / (k_z[:, :, k] + k_z[:, :, k+1] + 1e-15)
+                k_harmonic = 2 * k_z[:, :, k] * k_z[:, :, k+1] / (k_z[:, :, k] + k_z[:, :, k+1] + 1e-30)
                 self.T_z[:, :, k] = k_harmonic * dx * dy / dz
         
         # Объем пористой среды для расчетов IMPES
-- 
2.43.0


From 0697df17614b4f246249f84509c15d6c54cd3ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:15 +0000
Subject: [PATCH 09/32] fix: component balance booked every well twice per step

---
 src/simulator/simulation.py | 111 ------------------------------------
 1 file changed, 111 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index f2a818d..9cee370 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1397,117 +1397,6 @@ class Simulator:
             sg_max_t = (1.0 - so_r - S_w_cur)
             S_g_cur = torch.clamp(S_g_cur, min=sg_min_t, max=sg_max_t)
 
-            # Подшаговая интеграция компонентного баланса с учётом текущих S
-            try:
-                if self.fluid.pvt is not None:
-                    # Обновляем временно насыщенности для расчёта кривых
-                    self.fluid.s_w = S_w_cur
-                    self.fluid.s_g = S_g_cur
-                    self.fluid.s_o = 1.0 - self.fluid.s_w - self.fluid.s_g
-                    # Мобилизации и доли
-                    mu_w = self.fluid._eval_pvt(P_new, 'mu_w')
-                    mu_o = self.fluid._eval_pvt(P_new, 'mu_o')
-                    mu_g = self.fluid._eval_pvt(P_new, 'mu_g')
-                    krw = self.fluid.calc_water_kr(self.fluid.s_w)
-                    kro = self.fluid.calc_oil_kr(self.fluid.s_w, self.fluid.s_g)
-                    krg = self.fluid.calc_gas_kr(self.fluid.s_g)
-                    mob_w_cur = krw / (mu_w + 1e-12)
-                    mob_o_cur = kro / (mu_o + 1e-12)
-                    mob_g_cur = krg / (mu_g + 1e-12)
-                    mob_t_cur = mob_w_cur + mob_o_cur + mob_g_cur
-                    fw_cur = mob_w_cur / (mob_t_cur + 1e-12)
-                    fg_cur = mob_g_cur / (mob_t_cur + 1e-12)
-                    fo_cur = mob_o_cur / (mob_t_cur + 1e-12)
-                    # PVT на текущем P
-                    Bo = self.fluid._eval_pvt(P_new, 'Bo'); Bw = self.fluid._eval_pvt(P_new, 'Bw'); Bg = self.fluid._eval_pvt(P_new, 'Bg')
-                    Rs = self.fluid._eval_pvt(P_new, 'Rs')
-                    try:
-                        Rv = self.fluid._eval_pvt(P_new, 'Rv')
-                    except Exception:
-                        Rv = torch.zeros_like(Bg)
-                    dt_sub = dt / N
-                    # Скважины: вклад за подшаг
-                    for well in self.well_manager.get_wells():
-                        i, j, k = well.i, well.j, well.k
-                        if i >= self.reservoir.nx or j >= self.reservoir.ny or k >= self.reservoir.nz:
-                            continue
-                        Bo_cell = float(Bo[i, j, k]); Bw_cell = float(Bw[i, j, k]); Bg_cell = float(Bg[i, j, k])
-                        Rs_cell = float(Rs[i, j, k])
-                        try:
-                            Rv_cell = float(Rv[i, j, k])
-                        except Exception:
-                            Rv_cell = 0.0
-                        fo_ = float(fo_cur[i, j, k]); fw_ = float(fw_cur[i, j, k]); fg_ = float(fg_cur[i, j, k])
-                        # Вычисляем q_total для подшага по текущим долям
-                        if well.control_type == 'rate':
-                            rate_scale = float(self.sim_params.get('global_rate_scale', 1.0))
-                            q_base = (well.control_value * rate_scale) / 86400.0
-                            if well.type == 'injector':
-                                if getattr(well, 'rate_type', 'reservoir') == 'surface':
-                                    if getattr(well, 'injected_phase', 'water') == 'gas':
-                                        q_total_sub = q_base * Bg_cell
-                                    else:
-                                        q_total_sub = q_base * Bw_cell
-                                else:
-                                    q_total_sub = q_base
-                                q_total_sub *= 1.0
-                                # IN для газа/воды
-                                if getattr(well, 'injected_phase', 'water') == 'gas':
-                                    qg_surf = max(q_total_sub, 0.0) / max(Bg_cell, 1e-12) * 86400.0
-                                    self.component_balance['gas']['in'] += float(qg_surf * (dt_sub / 86400.0))
-                                    self.component_balance['oil']['in'] += float(Rv_cell * qg_surf * (dt_sub / 86400.0))
-                                else:
-                                    qw_surf = max(q_total_sub, 0.0) / max(Bw_cell, 1e-12) * 86400.0
-                                    self.component_balance['oil']['in'] += 0.0
-                                    self.component_balance['gas']['in'] += 0.0
-                            else:
-                                # producer
-                                if getattr(well, 'rate_type', 'reservoir') == 'surface':
-                                    sp = (well.surface_phase or 'liquid').lower()
-                                    if sp == 'oil':
-                                        denom = (fo_ / max(Bo_cell, 1e-12) + fg_ * Rv_cell / max(Bg_cell, 1e-12))
-                                        q_total_sub = - (q_base / max(denom, 1e-12))
-                                    elif sp == 'water':
-                                        q_w_res = q_base * Bw_cell
-                                        q_total_sub = - q_w_res / max(fw_, 1e-12)
-                                    elif sp == 'gas':
-                                        denom = (fg_ / max(Bg_cell, 1e-12) + fo_ * Rs_cell / max(Bo_cell, 1e-12))
-                                        q_total_sub = - (q_base / max(denom, 1e-12))
-                                    else:
-                                        denom = (fo_ / max(Bo_cell, 1e-12) + fg_ * Rv_cell / max(Bg_cell, 1e-12) + fw_ / max(Bw_cell, 1e-12))
-                                        q_total_sub = - (q_base / max(denom, 1e-12))
-                                else:
-                                    q_total_sub = -q_base
-                                qo_res = max((-q_total_sub * fo_), 0.0)
-                                qg_res = max((-q_total_sub * fg_), 0.0)
-                                oil_delta = dt_sub * (qo_res / max(Bo_cell, 1e-12) + Rv_cell * qg_res / max(Bg_cell, 1e-12))
-                                gas_delta = dt_sub * (qg_res / max(Bg_cell, 1e-12) + Rs_cell * qo_res / max(Bo_cell, 1e-12))
-                                self.component_balance['oil']['out'] += float(oil_delta)
-                                self.component_balance['gas']['out'] += float(gas_delta)
-                        elif well.control_type == 'bhp':
-                            # оценим total по текущим долям (Mobility-weighted WI уже учтён на шаге давления)
-                            wi = well.well_index
-                            p_bhp = well.control_value * 1e6
-                            p_block = float(P_new[i, j, k])
-                            # приблизим mob_t по текущим долям (линейно): используем mob_t_cur
-                            mob_t_cell = float(mob_t_cur[i, j, k])
-                            q_total_sub = wi * mob_t_cell * (p_block - p_bhp)
-                            if well.type == 'injector':
-                                if getattr(well, 'injected_phase', 'water') == 'gas':
-                                    qg_surf = max(-q_total_sub, 0.0) / max(Bg_cell, 1e-12) * 86400.0
-                                    self.component_balance['gas']['in'] += float(qg_surf * (dt_sub / 86400.0))
-                                    self.component_balance['oil']['in'] += float(Rv_cell * qg_surf * (dt_sub / 86400.0))
-                            else:
-                                qabs = abs(q_total_sub)
-                                qo_res = qabs * fo_
-                                qg_res = qabs * fg_
-                                oil_delta = dt_sub * (qo_res / max(Bo_cell, 1e-12) + Rv_cell * qg_res / max(Bg_cell, 1e-12))
-                                gas_delta = dt_sub * (qg_res / max(Bg_cell, 1e-12) + Rs_cell * qo_res / max(Bo_cell, 1e-12))
-                                self.component_balance['oil']['out'] += float(oil_delta)
-                                self.component_balance['gas']['out'] += float(gas_delta)
-            except Exception:
-                pass
-
         self.fluid.s_w = S_w_cur
         self.fluid.s_g = S_g_cur
         self.fluid.s_o = 1.0 - self.fluid.s_w - self.fluid.s_g
-- 
2.43.0


From d79c75b9290bb522d0fec5d7e91c80b72d152c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:15 +0000
Subject: [PATCH 10/32] fix: saturation limits could be undercut when both
 phases overshoot in one substep

---
 src/simulator/simulation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 9cee370..7617863 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1390,6 +1390,7 @@ class Simulator:
             S_w_cur = S_w_cur + dSw_sub
             S_g_cur = S_g_cur + dSg_sub
             # мягкие клампы на случай численной погрешности (min/max как тензоры одной формы)
+            S_g_cur = torch.clamp(S_g_cur, min=float(sg_cr), max=1.0 - so_r - sw_cr)
             sw_min_t = torch.full_like(S_w_cur, float(sw_cr))
             sw_max_t = (1.0 - so_r - S_g_cur)
             S_w_cur = torch.clamp(S_w_cur, min=sw_min_t, max=sw_max_t)
-- 
2.43.0


From 37ffcb98ac2627521f7c64eecf0a81322fc0b844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:15 +0000
Subject: [PATCH 11/32] fix: bhp_min limit never took effect

---
 src/simulator/simulation.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 7617863..e328678 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1057,7 +1057,9 @@ class Simulator:
             if i >= self.reservoir.nx or j >= self.reservoir.ny or k >= self.reservoir.nz:
                 continue
 
-            if well.control_type == 'rate':
+            # Добывающая скважина, переключённая на bhp_min на шаге давления
+            on_bhp_min = well.control_type == 'rate' and well.last_mode == 'bhp'
+            if well.control_type == 'rate' and not on_bhp_min:
                 # Базовый дебит в м3/с
                 rate_scale = float(self.sim_params.get('global_rate_scale', 1.0))
                 q_base = (well.control_value * rate_scale) / 86400.0
@@ -1295,8 +1297,8 @@ class Simulator:
                     q_w[i, j, k] += qw_loc
                     q_g[i, j, k] += qg_loc
                     q_o[i, j, k] += qo_loc
-            elif well.control_type == 'bhp':
-                p_bhp = well.control_value * 1e6
+            elif well.control_type == 'bhp' or on_bhp_min:
+                p_bhp = (well.bhp_min if on_bhp_min else well.control_value) * 1e6
                 p_block = P_new[i, j, k]
                 q_total = well.well_index * mob_t[i, j, k] * (p_block - p_bhp)
                 if well.type == 'injector':
@@ -1532,9 +1534,9 @@ class Simulator:
                     mob_t_well = mob_t.view(-1)[idx]
                     wi = well.well_index
                     # Требуемый BHP для обеспечения заданного rate
-                    # q = wi * mob_t * (p_block - p_bhp) => p_bhp_req = p_block - q/(wi*mob_t)
+                    # q = wi * mob_t * (p_block - p_bhp), q = -rate_si => p_bhp_req = p_block + rate_si/(wi*mob_t)
                     denom = wi * mob_t_well + 1e-12
-                    p_bhp_req = p_block - rate_si / denom
+                    p_bhp_req = p_block + rate_si / denom
                     p_bhp_min = well.bhp_min * 1e6
                     if p_bhp_req < p_bhp_min:
                         # Переключаемся на BHP-контроль на этом шаге
-- 
2.43.0


From 2a9c7e62641f3de7d588f67cb4b0181d271dd2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:45 +0000
Subject: [PATCH 12/32] fix: phase mobilities were upwinded by pressure instead
 of the phase potential

---
 src/simulator/simulation.py | 38 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index e328678..233af91 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -992,11 +992,6 @@ class Simulator:
 
         mob_w_x = torch.where(dp_x > 0, mob_w[:-1,:,:], mob_w[1:,:,:])
         mob_w_y = torch.where(dp_y > 0, mob_w[:,:-1,:], mob_w[:,1:,:])
-        mob_w_z = torch.where(dp_z > 0, mob_w[:,:,:-1], mob_w[:,:,1:])
-
-        mob_g_x = torch.where(dp_x > 0, mob_g[:-1,:,:], mob_g[1:,:,:])
-        mob_g_y = torch.where(dp_y > 0, mob_g[:,:-1,:], mob_g[:,1:,:])
-        mob_g_z = torch.where(dp_z > 0, mob_g[:,:,:-1], mob_g[:,:,1:])
 
         # 2. Потенциалы с учётом гравитации
         _, _, dz = self.reservoir.grid_size
@@ -1008,25 +1003,28 @@ class Simulator:
         else:
             pot_w_z = dp_z
             pot_g_z = dp_z
+        pot_g_x = dp_x
+        pot_g_y = dp_y
+        # Капиллярное давление нефть-газ: корректируем потенциал газа
+        if getattr(self.fluid, 'pc_og_scale', 0.0) > 0:
+            pcog = self.fluid.get_capillary_pressure_og(self.fluid.s_g)
+            pot_g_x = pot_g_x - (pcog[1:,:,:] - pcog[:-1,:,:])
+            pot_g_y = pot_g_y - (pcog[:,1:,:] - pcog[:,:-1,:])
+            pot_g_z = pot_g_z - (pcog[:,:,1:] - pcog[:,:,:-1])
+
+        # Апстрим выбирается по потенциалу той же фазы
+        mob_w_z = torch.where(pot_w_z > 0, mob_w[:,:,:-1], mob_w[:,:,1:])
+        mob_g_x = torch.where(pot_g_x > 0, mob_g[:-1,:,:], mob_g[1:,:,:])
+        mob_g_y = torch.where(pot_g_y > 0, mob_g[:,:-1,:], mob_g[:,1:,:])
+        mob_g_z = torch.where(pot_g_z > 0, mob_g[:,:,:-1], mob_g[:,:,1:])
 
-        # 3. Расходы воды
+        # 3. Расходы воды и газа
         flow_w_x = self.T_x * mob_w_x * dp_x
         flow_w_y = self.T_y * mob_w_y * dp_y
         flow_w_z = self.T_z * mob_w_z * pot_w_z
-
-        # Капиллярное давление нефть-газ: корректируем потенциал газа
-        if getattr(self.fluid, 'pc_og_scale', 0.0) > 0:
-            pcog = self.fluid.get_capillary_pressure_og(self.fluid.s_g)
-            dpcg_x = pcog[1:,:,:] - pcog[:-1,:,:]
-            dpcg_y = pcog[:,1:,:] - pcog[:,:-1,:]
-            dpcg_z = pcog[:,:,1:] - pcog[:,:,:-1]
-            flow_g_x = self.T_x * mob_g_x * (dp_x - dpcg_x)
-            flow_g_y = self.T_y * mob_g_y * (dp_y - dpcg_y)
-            flow_g_z = self.T_z * mob_g_z * (pot_g_z - dpcg_z)
-        else:
-            flow_g_x = self.T_x * mob_g_x * dp_x
-            flow_g_y = self.T_y * mob_g_y * dp_y
-            flow_g_z = self.T_z * mob_g_z * pot_g_z
+        flow_g_x = self.T_x * mob_g_x * pot_g_x
+        flow_g_y = self.T_y * mob_g_y * pot_g_y
+        flow_g_z = self.T_z * mob_g_z * pot_g_z
 
         # 4. Дивергенция
         div_w = torch.zeros_like(S_w_old)
-- 
2.43.0


From cd160d9f104c01a6a4e16b5603c83821865dc7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:17 +0000
Subject: [PATCH 13/32] fix: rounding in total_time/time_step dropped the last
 step

---
 src/simulator/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 233af91..e6eb066 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -2041,7 +2041,7 @@ class Simulator:
         animation_fps = self.sim_params.get('animation_fps', 5)
         
         # Рассчитываем количество шагов
-        num_steps = int(total_time_days / time_step_days)
+        num_steps = int(total_time_days / time_step_days + 1e-9)
         
         # Создаем уникальную директорию для данного запуска
         timestamp = datetime.datetime.now().strftime("%Y%m%d_%H%M%S")
-- 
2.43.0


From 555e237781c30ae965e52cd004c5e33f12167df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:17 +0000
Subject: [PATCH 14/32] fix: run kept counting steps after an IMPES step had
 failed

---
 src/simulator/simulation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index e6eb066..68cec37 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -2073,6 +2073,9 @@ class Simulator:
                 if not success:
                     print(f"  Шаг {i+1} не сошелся даже с уменьшенным шагом. Завершаем симуляцию.")
                     break
+            elif not success:
+                print(f"  Шаг {i+1} не сошелся. Завершаем симуляцию.")
+                break
             
             # Сохранение промежуточных результатов
             if (i + 1) % save_interval == 0 and save_interval < num_steps:
-- 
2.43.0


From ae920a13b88ecde191031d5ab9681bb476db5a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:17 +0000
Subject: [PATCH 15/32] fix: VTK export used an undefined results directory

---
 src/simulator/simulation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 68cec37..6a88aa1 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -2153,7 +2153,7 @@ class Simulator:
         # Сохранение результатов в VTK (если указано)
         if save_vtk:
             try:
-                self._save_to_vtk(output_filename)
+                self._save_to_vtk(output_filename, results_dir)
             except ImportError:
                 print("Не удалось сохранить в формате VTK: отсутствуют необходимые модули.")
         
@@ -2166,12 +2166,13 @@ class Simulator:
             except ImportError:
                 print("Не удалось создать анимацию: отсутствует модуль imageio.")
 
-    def _save_to_vtk(self, output_filename):
+    def _save_to_vtk(self, output_filename, results_dir):
         """
         Сохраняет результаты в формате VTK.
         
         Args:
             output_filename: Имя файла для сохранения
+            results_dir: Директория результатов запуска
         """
         try:
             import vtk
-- 
2.43.0


From a7549466523298f5ad04057a6dc2fc79a1217746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:17 +0000
Subject: [PATCH 16/32] fix: VTK point data were not in the x-fastest order of
 the points

---
 src/simulator/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 6a88aa1..522a3b4 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -2192,13 +2192,13 @@ class Simulator:
             grid.SetPoints(points)
             
             # Добавляем данные давления
-            pressure_array = self.fluid.pressure.cpu().numpy().flatten()
+            pressure_array = self.fluid.pressure.cpu().numpy().flatten(order='F')
             vtk_pressure = numpy_support.numpy_to_vtk(pressure_array)
             vtk_pressure.SetName("Pressure")
             grid.GetPointData().AddArray(vtk_pressure)
             
             # Добавляем данные насыщенности
-            sw_array = self.fluid.s_w.cpu().numpy().flatten()
+            sw_array = self.fluid.s_w.cpu().numpy().flatten(order='F')
             vtk_sw = numpy_support.numpy_to_vtk(sw_array)
             vtk_sw.SetName("Water_Saturation")
             grid.GetPointData().AddArray(vtk_sw)
-- 
2.43.0


From bfd13f2069200550bee3abe5ab7fcef61a8d8f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:17 +0000
Subject: [PATCH 17/32] fix: permeability was read from attributes the
 reservoir does not have

---
 src/output/vtk_writer.py    | 4 ++--
 src/simulator/simulation.py | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/output/vtk_writer.py b/src/output/vtk_writer.py
index f50e524..73435f9 100644
--- a/src/output/vtk_writer.py
+++ b/src/output/vtk_writer.py
@@ -31,8 +31,8 @@ def save_to_vtk(reservoir, fluid, filename="simulation_results"):
     pressure_reshaped = pressure_mpa.reshape((nx, ny, nz), order='F')
     saturation_w_reshaped = saturation_w.reshape((nx, ny, nz), order='F')
     saturation_o_reshaped = saturation_o.reshape((nx, ny, nz), order='F')
-    perm_h_reshaped = reservoir.perm_h.cpu().numpy().reshape((nx, ny, nz), order='F')
-    perm_v_reshaped = reservoir.perm_v.cpu().numpy().reshape((nx, ny, nz), order='F')
+    perm_h_reshaped = reservoir.permeability_x.cpu().numpy().reshape((nx, ny, nz), order='F')
+    perm_v_reshaped = reservoir.permeability_z.cpu().numpy().reshape((nx, ny, nz), order='F')
     
     # Создаем словарь с данными для ячеек
     cell_data = {
diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 522a3b4..fc6a76d 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -108,8 +108,9 @@ class Simulator:
     def _move_data_to_device(self):
         """Переносит данные на текущее устройство (CPU или GPU)"""
         # Переносим данные из резервуара
-        self.reservoir.perm_h = self.reservoir.perm_h.to(self.device)
-        self.reservoir.perm_v = self.reservoir.perm_v.to(self.device)
+        self.reservoir.permeability_x = self.reservoir.permeability_x.to(self.device)
+        self.reservoir.permeability_y = self.reservoir.permeability_y.to(self.device)
+        self.reservoir.permeability_z = self.reservoir.permeability_z.to(self.device)
         self.reservoir.porous_volume = self.reservoir.porous_volume.to(self.device)
         
         # Переносим данные из флюида
-- 
2.43.0


From 01547b5614b1c51aa8f2aa59a9cad6f4e4a8fb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:17 +0000
Subject: [PATCH 18/32] fix: rounding could add a node to the exported grid

---
 src/output/vtk_writer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/output/vtk_writer.py b/src/output/vtk_writer.py
index 73435f9..b38d872 100644
--- a/src/output/vtk_writer.py
+++ b/src/output/vtk_writer.py
@@ -17,9 +17,9 @@ def save_to_vtk(reservoir, fluid, filename="simulation_results"):
 
     # Создаем координаты узлов сетки.
     # VTK ожидает координаты узлов, поэтому массив должен быть на 1 больше, чем число ячеек.
-    x = np.arange(0, (nx + 1) * dx, dx)
-    y = np.arange(0, (ny + 1) * dy, dy)
-    z = np.arange(0, (nz + 1) * dz, dz)
+    x = np.arange(nx + 1) * dx
+    y = np.arange(ny + 1) * dy
+    z = np.arange(nz + 1) * dz
 
     # Получаем данные с устройства и конвертируем в NumPy
     pressure_mpa = fluid.pressure.cpu().numpy() / 1e6 # Конвертируем в МПа для удобства
-- 
2.43.0


From 0d1bd81ec4599ab35107df5856e9242d5d2c0015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:17 +0000
Subject: [PATCH 19/32] fix: calc_gas_density ignored the oil vaporised in the
 gas

---
 src/simulator/fluid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simulator/fluid.py b/src/simulator/fluid.py
index 4933565..6ac1707 100644
--- a/src/simulator/fluid.py
+++ b/src/simulator/fluid.py
@@ -371,7 +371,8 @@ class Fluid:
         """
         if self.pvt is not None:
             bg = self._eval_pvt(pressure, key='Bg')
-            return self.rho_gas_ref / (bg + 1e-12)
+            rv = self._eval_pvt(pressure, key='Rv')
+            return (self.rho_gas_ref + rv * self.rho_oil_ref) / (bg + 1e-12)
         return self.rho_gas_ref * (1.0 + self.gas_compressibility * (pressure - 1e5))
 
     def calc_water_kr(self, s_w):
-- 
2.43.0


From a971aa0fd4fe33200253f38b70403a09af251d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:17 +0000
Subject: [PATCH 20/32] fix: wells outside the grid were accepted and put into
 another cell

---
 src/simulator/well.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simulator/well.py b/src/simulator/well.py
index e5000de..d9c4462 100644
--- a/src/simulator/well.py
+++ b/src/simulator/well.py
@@ -36,6 +36,8 @@ class Well:
         self.bhp_min = bhp_min  # МПа, если задано
         
         nx, ny, nz = reservoir_dimensions
+        if not (0 <= i < nx and 0 <= j < ny and 0 <= k < nz):
+            raise ValueError(f"Скважина '{name}' вне сетки: ({i}, {j}, {k}), размеры {nx}x{ny}x{nz}")
         self.cell_index = (i, j, k)
         self.cell_index_flat = (i * ny + j) * nz + k
         
-- 
2.43.0


From 5137f5461589fb83227290906418946283b119e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:17 +0000
Subject: [PATCH 21/32] fix: PVT tables with unsorted pressures were
 interpolated to nonsense

---
 src/simulator/pvt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simulator/pvt.py b/src/simulator/pvt.py
index e92e9dc..56de17a 100644
--- a/src/simulator/pvt.py
+++ b/src/simulator/pvt.py
@@ -35,6 +35,8 @@ class PVTTable:
 
         # Базовые проверки
         n = len(self.P)
+        if n == 0 or np.any(np.diff(self.P) <= 0):
+            raise ValueError("PVT: давления должны строго возрастать")
         for arr, name in [
             (self.Bo, "Bo"), (self.Bw, "Bw"), (self.Bg, "Bg"),
             (self.mu_o, "mu_o_cP"), (self.mu_w, "mu_w_cP"), (self.mu_g, "mu_g_cP"),
-- 
2.43.0


From 5a4731c30aab370d8e6dcd9dbc70ac687b626ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:17 +0000
Subject: [PATCH 22/32] fix: AMG results depended on the global random state

---
 src/solver/classical_amg.py | 2 +-
 src/solver/pressure_amg.py  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/solver/classical_amg.py b/src/solver/classical_amg.py
index 95b7078..c5981be 100644
--- a/src/solver/classical_amg.py
+++ b/src/solver/classical_amg.py
@@ -122,7 +122,7 @@ def classical_coarsening(A_csr: torch.Tensor, theta: float = 0.25) -> Tuple[torc
     deg.scatter_add_(0, jj, torch.ones_like(jj, dtype=torch.float32))
     
     # Случайный tie-breaker
-    w = torch.rand(n, device=device)
+    w = torch.rand(n, generator=torch.Generator(device=device).manual_seed(0), device=device)
     score = deg + 1e-3 * w  # лексикографическое сравнение
     
     # Максимум score среди соседей (для обоих направлений)
diff --git a/src/solver/pressure_amg.py b/src/solver/pressure_amg.py
index 70f08d3..99dcfc9 100644
--- a/src/solver/pressure_amg.py
+++ b/src/solver/pressure_amg.py
@@ -111,7 +111,8 @@ def amg_preconditioner(
         n = A_mat.size(0)
         v_const = torch.ones(n, dtype=torch.float64, device=amg_obj.device)
         tests.append(v_const / (v_const.norm() + 1e-30))
-        v_rand = torch.randn(n, dtype=torch.float64, device=amg_obj.device)
+        rng = torch.Generator(device=amg_obj.device).manual_seed(0)
+        v_rand = torch.randn(n, generator=rng, dtype=torch.float64, device=amg_obj.device)
         tests.append(v_rand / (v_rand.norm() + 1e-30))
         v_grad = torch.linspace(0, 1, n, dtype=torch.float64, device=amg_obj.device)
         tests.append(v_grad / (v_grad.norm() + 1e-30))
-- 
2.43.0


From df127e2aa66eac28a52f822230ff6230eca83160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:35 +0000
Subject: [PATCH 23/32] fix: backflow into a BHP producer was booked as
 produced oil and gas

---
 src/simulator/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index fc6a76d..c62d688 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1334,7 +1334,7 @@ class Simulator:
                         except Exception:
                             Rv_cell = 0.0
                         fo_ = fo[i, j, k].item(); fw_ = fw[i, j, k].item(); fg_ = fg[i, j, k].item()
-                        qabs = abs(q_total)
+                        qabs = max(float(q_total), 0.0)  # обратный поток — не добыча
                         oil_surf = qabs * (fo_ / max(Bo_cell, 1e-12) + fg_ * Rv_cell / max(Bg_cell, 1e-12)) * 86400.0
                         gas_surf = qabs * (fg_ / max(Bg_cell, 1e-12) + fo_ * Rs_cell / max(Bo_cell, 1e-12)) * 86400.0
                         # Компоненты OUT по фактическим reservoir-дебитам при BHP
-- 
2.43.0


From 42128c40c9a5096dbcbd704cbc33ac894553bd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:59 +0000
Subject: [PATCH 24/32] fix: a phase a producer does not move choked it to zero

---
 src/simulator/simulation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index c62d688..4530846 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1165,11 +1165,11 @@ class Simulator:
                         alpha = 1.0
                         if dSw_well > 0.0:
                             alpha = min(alpha, sw_up / max(dSw_well, 1e-12))
-                        else:
+                        elif dSw_well < 0.0:
                             alpha = min(alpha, sw_dn / max(abs(dSw_well), 1e-12))
                         if dSg_well > 0.0:
                             alpha = min(alpha, sg_up / max(dSg_well, 1e-12))
-                        else:
+                        elif dSg_well < 0.0:
                             alpha = min(alpha, sg_dn / max(abs(dSg_well), 1e-12))
                         alpha = max(0.0, min(1.0, alpha))
                         q_total *= alpha
@@ -1244,11 +1244,11 @@ class Simulator:
                             alpha = 1.0
                             if dSw_well > 0.0:
                                 alpha = min(alpha, sw_up / max(dSw_well, 1e-12))
-                            else:
+                            elif dSw_well < 0.0:
                                 alpha = min(alpha, sw_dn / max(abs(dSw_well), 1e-12))
                             if dSg_well > 0.0:
                                 alpha = min(alpha, sg_up / max(dSg_well, 1e-12))
-                            else:
+                            elif dSg_well < 0.0:
                                 alpha = min(alpha, sg_dn / max(abs(dSg_well), 1e-12))
                             alpha = max(0.0, min(1.0, alpha))
                             q_total *= alpha
-- 
2.43.0


From 8eb3a78c06927ad0d39c39f71eb5c61cca0af415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:10 +0000
Subject: [PATCH 25/32] fix: derivatives were non-zero where the clamped curves
 are constant

---
 src/simulator/fluid.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/simulator/fluid.py b/src/simulator/fluid.py
index 6ac1707..0fd32c2 100644
--- a/src/simulator/fluid.py
+++ b/src/simulator/fluid.py
@@ -265,8 +265,10 @@ class Fluid:
         dkro_dsw = -self.no * ((1 - s_norm) ** (self.no - 1)) * dsw_norm_dsw
         
         # Обработка особых случаев на границах
-        dkrw_dsw = torch.where(s_norm <= 0, torch.zeros_like(dkrw_dsw), dkrw_dsw)
-        dkro_dsw = torch.where(s_norm >= 1, torch.zeros_like(dkro_dsw), dkro_dsw)
+        # Вне подвижного диапазона кривые постоянны (s_norm ограничена)
+        outside = (s_w < self.sw_cr) | (s_w > 1.0 - self.so_r)
+        dkrw_dsw = torch.where((s_norm <= 0) | outside, torch.zeros_like(dkrw_dsw), dkrw_dsw)
+        dkro_dsw = torch.where((s_norm >= 1) | outside, torch.zeros_like(dkro_dsw), dkro_dsw)
         
         return dkro_dsw, dkrw_dsw
 
@@ -324,7 +326,7 @@ class Fluid:
         dpc_dsn = self.pc_scale * self.pc_exponent * (1.0 - s_norm + 1e-6) ** (-self.pc_exponent - 1)
         
         dpc_dsw = dpc_dsn * dsw_norm_dsw
-        dpc_dsw = torch.where(s_norm >= 1, torch.zeros_like(dpc_dsw), dpc_dsw)
+        dpc_dsw = torch.where((s_norm >= 1) | (s_w < self.sw_cr), torch.zeros_like(dpc_dsw), dpc_dsw)
         return dpc_dsw
 
     def calc_water_density(self, pressure):
-- 
2.43.0


From f72c4c3d7f1a3e86cdee17e48904b8075fa34c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:58 +0000
Subject: [PATCH 26/32] fix: pictures showed y along the axis labelled x
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

imshow puts the first array index on the vertical axis; the slices are (x, y) arrays, so grids
with nx != ny were drawn transposed under the labels 'Ячейка X' and 'Ячейка Y'.
---
 src/plotting/plotter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/plotting/plotter.py b/src/plotting/plotter.py
index 8b80b98..d8fcca7 100644
--- a/src/plotting/plotter.py
+++ b/src/plotting/plotter.py
@@ -47,7 +47,7 @@ class Plotter:
             title_suffix = f" ({time_info}, Срез Z={z_slice_idx})"
 
         # График давления
-        im1 = ax1.imshow(p_slice / 1e6, cmap='jet', origin='lower', aspect='auto')
+        im1 = ax1.imshow(p_slice.T / 1e6, cmap='jet', origin='lower', aspect='auto')
         ax1.set_title(f'Давление (МПа){title_suffix}')
         ax1.set_xlabel('Ячейка X')
         ax1.set_ylabel('Ячейка Y')
@@ -59,7 +59,7 @@ class Plotter:
         if abs(vmax_w - vmin_w) < 1e-4:
             vmin_w = max(0.0, vmin_w - 0.05)
             vmax_w = min(1.0, vmax_w + 0.05)
-        im2 = ax2.imshow(sw_slice, cmap='viridis', origin='lower', vmin=vmin_w, vmax=vmax_w, aspect='auto')
+        im2 = ax2.imshow(sw_slice.T, cmap='viridis', origin='lower', vmin=vmin_w, vmax=vmax_w, aspect='auto')
         ax2.set_title(f'Насыщенность водой{title_suffix}')
         ax2.set_xlabel('Ячейка X')
         ax2.set_ylabel('Ячейка Y')
@@ -72,7 +72,7 @@ class Plotter:
             if abs(vmax_g - vmin_g) < 1e-4:
                 vmin_g = max(0.0, vmin_g - 0.05)
                 vmax_g = min(1.0, vmax_g + 0.05)
-            im3 = ax3.imshow(sg_slice, cmap='plasma', origin='lower', vmin=vmin_g, vmax=vmax_g, aspect='auto')
+            im3 = ax3.imshow(sg_slice.T, cmap='plasma', origin='lower', vmin=vmin_g, vmax=vmax_g, aspect='auto')
             ax3.set_title(f'Насыщенность газом{title_suffix}')
             ax3.set_xlabel('Ячейка X')
             ax3.set_ylabel('Ячейка Y')
-- 
2.43.0


From f14e087c64fed3ef34d6e7dbf60ffe8d60c0a310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:40 +0000
Subject: [PATCH 27/32] fix: the animation was empty when the output name
 contains glob characters

---
 src/simulator/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 4530846..f826424 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -2231,7 +2231,7 @@ class Simulator:
         # а не лексикографически, чтобы кадры шли в правильном хронологическом порядке
         regex = re.compile(r'_step_(\d+)\.png$')
         step_files = []
-        for path in glob.glob(os.path.join(images_dir, "*_step_*.png")):
+        for path in glob.glob(os.path.join(glob.escape(images_dir), "*_step_*.png")):
             m = regex.search(os.path.basename(path))
             if m:
                 step_files.append((int(m.group(1)), path))
@@ -2241,7 +2241,7 @@ class Simulator:
         images = [p for _, p in step_files]
         
         # Добавляем финальный кадр, если существует (лежит в родительской директории)
-        final_candidates = glob.glob(os.path.join(os.path.dirname(images_dir), f"{os.path.basename(images_dir).split(os.sep)[-1].replace('intermediate','')}*_final.png"))
+        final_candidates = glob.glob(os.path.join(glob.escape(os.path.dirname(images_dir)), f"{os.path.basename(images_dir).split(os.sep)[-1].replace('intermediate','')}*_final.png"))
         if final_candidates:
             images.append(final_candidates[0])
         
-- 
2.43.0


From d7f16d159a40db599ef6648a1dedc189cbd9f8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:30 +0000
Subject: [PATCH 28/32] fix: the coarsest multigrid level pinned the first
 unknown to zero for regular matrices

---
 src/solver/classical_amg.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/solver/classical_amg.py b/src/solver/classical_amg.py
index c5981be..d79e269 100644
--- a/src/solver/classical_amg.py
+++ b/src/solver/classical_amg.py
@@ -1043,18 +1043,22 @@ class ClassicalAMG:
             print(f"  [V-CYCLE L{lvl}] ВХОД: ||x||={x.norm():.3e}, ||b||={b.norm():.3e}, n={level['n']}")
         
         if level['is_coarsest']:
-            # Прямое решение на coarsest уровне (фиксируем первую степень свободы)
+            # Прямое решение на coarsest уровне
             n = level['n']
-            A_dense = level['A'].to_dense().clone()
-            b_local = b.clone()
-            x = torch.zeros_like(b_local)
-            if n > 0:
+            if n <= 500:
+                A_dense = level['A'].to_dense().clone()
+                try:
+                    x = torch.linalg.solve(A_dense, b)
+                    if (b - A_dense @ x).norm() <= 1e-8 * b.norm():
+                        return x
+                except RuntimeError:
+                    pass
+                # Матрица вырождена (чистая задача Неймана): фиксируем первую степень свободы
+                b_local = b.clone()
                 A_dense[0, :] = 0.0
                 A_dense[:, 0] = 0.0
                 A_dense[0, 0] = 1.0
                 b_local[0] = 0.0
-
-            if n <= 500:
                 try:
                     x = torch.linalg.solve(A_dense, b_local)
                 except RuntimeError:
@@ -1063,7 +1067,7 @@ class ClassicalAMG:
                 inv_relax = level['inv_relax']
                 omega = 0.7
                 for it in range(50):
-                    r = b_local - self._spmv_csr(level['A'], x)
+                    r = b - self._spmv_csr(level['A'], x)
                     delta = omega * inv_relax * r
                     x = x + delta
             return x
-- 
2.43.0


From 345635fcdd9744a9a0402ffd9aa28bafeac59d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 29/32] fix: conjugate gradients reported convergence from a
 fixed threshold instead of the given tolerance

---
 src/simulator/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index f826424..f9c18ce 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1570,7 +1570,7 @@ class Simulator:
             z = r.clone()
         p = z.clone()
         rs_old = torch.dot(r, z)
-        if rs_old < 1e-10:
+        if torch.sqrt(rs_old) < tol:
             return x, True
         for i in range(max_iter):
             Ap = torch.sparse.mm(A, p.unsqueeze(1)).squeeze(1)
-- 
2.43.0


From 5b6010613d538aa6c49c1ad80d4f2a5e7f18df6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:35 +0000
Subject: [PATCH 30/32] fix: line search upwinds vertical flow by the phase
 potential, like the Newton residual

---
 src/simulator/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index f9c18ce..b34e086 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -655,8 +655,8 @@ class Simulator:
                     gravity_term_w = avg_rho_w * gravity[2] * dz
                     gravity_term_o = avg_rho_o * gravity[2] * dz
                     
-                    lambda_w_up = lambda_w[idx1] if dp >= 0 else lambda_w[idx2]
-                    lambda_o_up = lambda_o[idx1] if dp >= 0 else lambda_o[idx2]
+                    lambda_w_up = lambda_w[idx1] if dp - dp_cap + gravity_term_w >= 0 else lambda_w[idx2]
+                    lambda_o_up = lambda_o[idx1] if dp + gravity_term_o >= 0 else lambda_o[idx2]
                     
                     trans = tz_const * avg_perm
                     
-- 
2.43.0


From f67d78f9fda292fdd33771accc48888ab0ecd170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:41 +0000
Subject: [PATCH 31/32] fix: sign of the capillary pressure terms in the fully
 implicit Jacobian

---
 src/simulator/simulation.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index b34e086..e5c1e7f 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1704,8 +1704,8 @@ class Simulator:
                         dfo_dsw1 = trans * dlambda_o_dsw[idx1] * (dp + gravity_term_o)
                         
                         if self.fluid.pc_scale > 0:
-                            dfw_dsw1 += trans * lambda_w_up * (-dpc_dsw[idx1])
-                            dfw_dsw2 = trans * lambda_w_up * dpc_dsw[idx2]
+                            dfw_dsw1 += trans * lambda_w_up * dpc_dsw[idx1]
+                            dfw_dsw2 = trans * lambda_w_up * (-dpc_dsw[idx2])
                             
                             jacobian[2*idx1, 2*idx1+1] -= dfw_dsw1
                             jacobian[2*idx1, 2*idx2+1] -= dfw_dsw2
@@ -1723,8 +1723,8 @@ class Simulator:
                         dfo_dsw2 = trans * dlambda_o_dsw[idx2] * (dp + gravity_term_o)
                         
                         if self.fluid.pc_scale > 0:
-                            dfw_dsw1 = trans * lambda_w_up * (-dpc_dsw[idx1])
-                            dfw_dsw2 += trans * lambda_w_up * dpc_dsw[idx2]
+                            dfw_dsw1 = trans * lambda_w_up * dpc_dsw[idx1]
+                            dfw_dsw2 += trans * lambda_w_up * (-dpc_dsw[idx2])
                             
                             jacobian[2*idx1, 2*idx1+1] -= dfw_dsw1
                             jacobian[2*idx1, 2*idx2+1] -= dfw_dsw2
@@ -1796,8 +1796,8 @@ class Simulator:
                         dfo_dsw1 = trans * dlambda_o_dsw[idx1] * (dp + gravity_term_o)
                         
                         if self.fluid.pc_scale > 0:
-                            dfw_dsw1 += trans * lambda_w_up * (-dpc_dsw[idx1])
-                            dfw_dsw2 = trans * lambda_w_up * dpc_dsw[idx2]
+                            dfw_dsw1 += trans * lambda_w_up * dpc_dsw[idx1]
+                            dfw_dsw2 = trans * lambda_w_up * (-dpc_dsw[idx2])
                             
                             jacobian[2*idx1, 2*idx1+1] -= dfw_dsw1
                             jacobian[2*idx1, 2*idx2+1] -= dfw_dsw2
@@ -1815,8 +1815,8 @@ class Simulator:
                         dfo_dsw2 = trans * dlambda_o_dsw[idx2] * (dp + gravity_term_o)
                         
                         if self.fluid.pc_scale > 0:
-                            dfw_dsw1 = trans * lambda_w_up * (-dpc_dsw[idx1])
-                            dfw_dsw2 += trans * lambda_w_up * dpc_dsw[idx2]
+                            dfw_dsw1 = trans * lambda_w_up * dpc_dsw[idx1]
+                            dfw_dsw2 += trans * lambda_w_up * (-dpc_dsw[idx2])
                             
                             jacobian[2*idx1, 2*idx1+1] -= dfw_dsw1
                             jacobian[2*idx1, 2*idx2+1] -= dfw_dsw2
@@ -1887,8 +1887,8 @@ class Simulator:
                         dfw_dsw1 = trans * dlambda_w_dsw[idx1] * (dp - dp_cap + gravity_term_w)
                         
                         if self.fluid.pc_scale > 0:
-                            dfw_dsw1 += trans * lambda_w_up * (-dpc_dsw[idx1])
-                            dfw_dsw2 = trans * lambda_w_up * dpc_dsw[idx2]
+                            dfw_dsw1 += trans * lambda_w_up * dpc_dsw[idx1]
+                            dfw_dsw2 = trans * lambda_w_up * (-dpc_dsw[idx2])
                             
                             jacobian[2*idx1, 2*idx1+1] -= dfw_dsw1
                             jacobian[2*idx1, 2*idx2+1] -= dfw_dsw2
@@ -1901,8 +1901,8 @@ class Simulator:
                         dfw_dsw2 = trans * dlambda_w_dsw[idx2] * (dp - dp_cap + gravity_term_w)
                         
                         if self.fluid.pc_scale > 0:
-                            dfw_dsw1 = trans * lambda_w_up * (-dpc_dsw[idx1])
-                            dfw_dsw2 += trans * lambda_w_up * dpc_dsw[idx2]
+                            dfw_dsw1 = trans * lambda_w_up * dpc_dsw[idx1]
+                            dfw_dsw2 += trans * lambda_w_up * (-dpc_dsw[idx2])
                             
                             jacobian[2*idx1, 2*idx1+1] -= dfw_dsw1
                             jacobian[2*idx1, 2*idx2+1] -= dfw_dsw2
-- 
2.43.0


From 53c68ac45da08ccbeaef86576a1ee78245c06a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:59 +0000
Subject: [PATCH 32/32] fix: the guard of the harmonic mean swamped the
 permeability in the fully implicit scheme

---
 src/simulator/simulation.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index e5c1e7f..92304a0 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -576,7 +576,7 @@ class Simulator:
                     idx2 = ((i+1) * ny + j) * nz + k
                     
                     # Средние значения
-                    avg_perm = 2 * perm_x_vec[idx1] * perm_x_vec[idx2] / (perm_x_vec[idx1] + perm_x_vec[idx2] + 1e-10)
+                    avg_perm = 2 * perm_x_vec[idx1] * perm_x_vec[idx2] / (perm_x_vec[idx1] + perm_x_vec[idx2] + 1e-30)
                     avg_rho_w = 0.5 * (rho_w[idx1] + rho_w[idx2])
                     avg_rho_o = 0.5 * (rho_o[idx1] + rho_o[idx2])
                     
@@ -612,7 +612,7 @@ class Simulator:
                     idx1 = (i * ny + j) * nz + k
                     idx2 = (i * ny + (j+1)) * nz + k
                     
-                    avg_perm = 2 * perm_y_vec[idx1] * perm_y_vec[idx2] / (perm_y_vec[idx1] + perm_y_vec[idx2] + 1e-10)
+                    avg_perm = 2 * perm_y_vec[idx1] * perm_y_vec[idx2] / (perm_y_vec[idx1] + perm_y_vec[idx2] + 1e-30)
                     avg_rho_w = 0.5 * (rho_w[idx1] + rho_w[idx2])
                     avg_rho_o = 0.5 * (rho_o[idx1] + rho_o[idx2])
                     
@@ -644,7 +644,7 @@ class Simulator:
                     idx1 = (i * ny + j) * nz + k
                     idx2 = (i * ny + j) * nz + (k+1)
                     
-                    avg_perm = 2 * perm_z_vec[idx1] * perm_z_vec[idx2] / (perm_z_vec[idx1] + perm_z_vec[idx2] + 1e-10)
+                    avg_perm = 2 * perm_z_vec[idx1] * perm_z_vec[idx2] / (perm_z_vec[idx1] + perm_z_vec[idx2] + 1e-30)
                     avg_rho_w = 0.5 * (rho_w[idx1] + rho_w[idx2])
                     avg_rho_o = 0.5 * (rho_o[idx1] + rho_o[idx2])
                     
@@ -1651,7 +1651,7 @@ class Simulator:
                     idx2 = ((i+1) * ny + j) * nz + k
                     
                     # Средние значения
-                    avg_perm = 2 * perm_x_vec[idx1] * perm_x_vec[idx2] / (perm_x_vec[idx1] + perm_x_vec[idx2] + 1e-10)
+                    avg_perm = 2 * perm_x_vec[idx1] * perm_x_vec[idx2] / (perm_x_vec[idx1] + perm_x_vec[idx2] + 1e-30)
                     avg_rho_w = 0.5 * (rho_w[idx1] + rho_w[idx2])
                     avg_rho_o = 0.5 * (rho_o[idx1] + rho_o[idx2])
                     
@@ -1744,7 +1744,7 @@ class Simulator:
                     idx1 = (i * ny + j) * nz + k
                     idx2 = (i * ny + (j+1)) * nz + k
                     
-                    avg_perm = 2 * perm_y_vec[idx1] * perm_y_vec[idx2] / (perm_y_vec[idx1] + perm_y_vec[idx2] + 1e-10)
+                    avg_perm = 2 * perm_y_vec[idx1] * perm_y_vec[idx2] / (perm_y_vec[idx1] + perm_y_vec[idx2] + 1e-30)
                     avg_rho_w = 0.5 * (rho_w[idx1] + rho_w[idx2])
                     avg_rho_o = 0.5 * (rho_o[idx1] + rho_o[idx2])
                     
@@ -1836,7 +1836,7 @@ class Simulator:
                     idx1 = (i * ny + j) * nz + k
                     idx2 = (i * ny + j) * nz + (k+1)
                     
-                    avg_perm = 2 * perm_z_vec[idx1] * perm_z_vec[idx2] / (perm_z_vec[idx1] + perm_z_vec[idx2] + 1e-10)
+                    avg_perm = 2 * perm_z_vec[idx1] * perm_z_vec[idx2] / (perm_z_vec[idx1] + perm_z_vec[idx2] + 1e-30)
                     avg_rho_w = 0.5 * (rho_w[idx1] + rho_w[idx2])
                     avg_rho_o = 0.5 * (rho_o[idx1] + rho_o[idx2])
                     
-- 
2.43.0

