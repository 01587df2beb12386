From a208b61820d797373ee9efcdf1ca49fd0172bbc5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:34:32 +0000
Subject: [PATCH 01/20] fix: simulate rooms with radiant cooling or without
 cooling equipment

The maximum capacity of radiant cooling was read from a key no input file has,
and rooms without a convective cooler were rejected with a KeyError.
---
 heat_load_calc/core/heat_exchanger.py      |  3 ++-
 heat_load_calc/core/pre_calc_parameters.py | 11 ++++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/heat_load_calc/core/heat_exchanger.py b/heat_load_calc/core/heat_exchanger.py
index 3b66479..fdd9bc0 100644
--- a/heat_load_calc/core/heat_exchanger.py
+++ b/heat_load_calc/core/heat_exchanger.py
@@ -11,7 +11,8 @@ def get_dehumid_coeff(lcs_is_n, theta_r_is_npls, rac_spec, x_r_non_dh_is_n):
     # 以下の取り扱いを簡単にするため（冷房負荷を正とするため）、正負を反転させる
     qs_is_n = -lcs_is_n
 
-    dh = qs_is_n > 1.0e-3
+    # 対流冷房が設置されていない室（仕様が nan の室）では除湿しない。
+    dh = (qs_is_n > 1.0e-3) & np.logical_not(np.isnan(rac_spec['v_max']))
 
     v_ac_is_n = np.zeros_like(lcs_is_n, dtype=float)
 
diff --git a/heat_load_calc/core/pre_calc_parameters.py b/heat_load_calc/core/pre_calc_parameters.py
index c76f653..51fd68a 100644
--- a/heat_load_calc/core/pre_calc_parameters.py
+++ b/heat_load_calc/core/pre_calc_parameters.py
@@ -277,7 +277,7 @@ def make_pre_calc_parameters(delta_t: float, data_directory: str) -> (PreCalcPar
     for i, s in enumerate(ss):
         if s['equipment']['cooling']['radiative']['installed']:
             is_radiative_cooling_is_list.append(True)
-            radiative_cooling_max_capacity_is_list.append(s['equipment']['cooling']['max_capacity'])
+            radiative_cooling_max_capacity_is_list.append(s['equipment']['cooling']['radiative']['max_capacity'])
         else:
             is_radiative_cooling_is_list.append(False)
             radiative_cooling_max_capacity_is_list.append(0.0)
@@ -287,10 +287,11 @@ def make_pre_calc_parameters(delta_t: float, data_directory: str) -> (PreCalcPar
     is_radiative_cooling_is = np.array(is_radiative_cooling_is_list)
     lr_cs_max_cap_is = np.array(radiative_cooling_max_capacity_is_list)
 
-    qmin_c_is = np.array([s['equipment']['cooling']['convective']['q_min'] for s in ss]).reshape(-1, 1)
-    qmax_c_is = np.array([s['equipment']['cooling']['convective']['q_max'] for s in ss]).reshape(-1, 1)
-    Vmin_is = np.array([s['equipment']['cooling']['convective']['v_min'] for s in ss]).reshape(-1, 1)
-    Vmax_is = np.array([s['equipment']['cooling']['convective']['v_max'] for s in ss]).reshape(-1, 1)
+    # 対流冷房が設置されていない室（放射冷房の室や冷房が設置されていない室）には仕様が無いため、nan とする。
+    qmin_c_is = np.array([s['equipment']['cooling']['convective'].get('q_min', np.nan) for s in ss]).reshape(-1, 1)
+    qmax_c_is = np.array([s['equipment']['cooling']['convective'].get('q_max', np.nan) for s in ss]).reshape(-1, 1)
+    Vmin_is = np.array([s['equipment']['cooling']['convective'].get('v_min', np.nan) for s in ss]).reshape(-1, 1)
+    Vmax_is = np.array([s['equipment']['cooling']['convective'].get('v_max', np.nan) for s in ss]).reshape(-1, 1)
 
     # endregion
 
-- 
2.43.0


From 1f8acd0b5bb3aed1e2fcea6b7808ed4ebd5c490c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:34:32 +0000
Subject: [PATCH 02/20] fix: assign radiative coefficients to the right
 boundary in any listing order

The coefficients were concatenated room by room, so they went to the wrong
boundaries whenever boundaries of one room were not listed together.
---
 heat_load_calc/core/shape_factor.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/heat_load_calc/core/shape_factor.py b/heat_load_calc/core/shape_factor.py
index a5b73f0..3a318e1 100644
--- a/heat_load_calc/core/shape_factor.py
+++ b/heat_load_calc/core/shape_factor.py
@@ -23,9 +23,10 @@ def get_h_r_js(a_srf_js: np.ndarray, p_js_is: np.ndarray) -> np.ndarray:
 
     # 微小点に対する境界jの形態係数
     # 永田先生の方法
-    f_js = np.concatenate([
-        _get_f_i_js(a_srf_js=a_srf_js.flatten()[p_js_is[:, i] == 1])
-        for i in range(n_spaces)])
+    # 境界は室ごとにまとまって並んでいるとは限らないため、境界の順に格納する。
+    f_js = np.zeros(a_srf_js.size, dtype=float)
+    for i in range(n_spaces):
+        f_js[p_js_is[:, i] == 1] = _get_f_i_js(a_srf_js=a_srf_js.flatten()[p_js_is[:, i] == 1])
 
     # 境界間の放射熱伝達率を決定する際、平均放射温度を20℃固定値であるとして計算する。
     t_mrt = 273.15 + 20.0
-- 
2.43.0


From 5d224c16ed47380db455027f9a3747f16e91d92a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:34:32 +0000
Subject: [PATCH 03/20] fix: keep the full precision of the rear side weight of
 partly exposed boundaries

Rounding to one decimal made the weights of the two sides not add up to one
for temperature difference coefficients such as 0.05 or 0.15.
---
 heat_load_calc/initializer/initializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat_load_calc/initializer/initializer.py b/heat_load_calc/initializer/initializer.py
index a6fc2ea..da8fd1e 100644
--- a/heat_load_calc/initializer/initializer.py
+++ b/heat_load_calc/initializer/initializer.py
@@ -639,7 +639,7 @@ def _make_boundaries(bss2: List[BoundarySimple], rooms: List[Dict], boundaries:
             # 温度差係数が1.0でない場合はk_ei_jsに値を代入する。
             # id は自分自身の境界IDとし、自分自身の表面の影響は1.0から温度差係数を減じた値になる。
             if bs.h_td < 1.0:
-                k_ei_js.append({'id': bs.id, 'coef': round(1.0 - bs.h_td, 1)})
+                k_ei_js.append({'id': bs.id, 'coef': 1.0 - bs.h_td})
             else:
                 # 温度差係数が1.0の場合はNoneとする。
                 k_ei_js.append(None)
-- 
2.43.0


From aa31e1886730bfed7cd90a50e71fbb96140a9ae9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:34:32 +0000
Subject: [PATCH 04/20] fix: give rooms with radiant cooling only a surface
 that radiates

The share of radiant heat per surface was zero without radiant heating, which
made the system of equations singular when the radiant cooling ran.
---
 heat_load_calc/initializer/initializer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/heat_load_calc/initializer/initializer.py b/heat_load_calc/initializer/initializer.py
index da8fd1e..5396fda 100644
--- a/heat_load_calc/initializer/initializer.py
+++ b/heat_load_calc/initializer/initializer.py
@@ -663,6 +663,8 @@ def _make_boundaries(bss2: List[BoundarySimple], rooms: List[Dict], boundaries:
     # 暖房設備仕様の読み込み
     # 放射暖房有無（Trueなら放射暖房あり）
     is_radiative_heating_is = [a22.read_is_radiative_heating(room) for room in rooms]
+    # 放射冷房有無（Trueなら放射冷房あり）
+    is_radiative_cooling_is = [a22.read_is_radiative_cooling(room) for room in rooms]
 
     # 放射暖房の発熱部位の設定（とりあえず床発熱） 表7
     # TODO: 発熱部位を指定して、面積按分するように変更すべき。
@@ -671,7 +673,7 @@ def _make_boundaries(bss2: List[BoundarySimple], rooms: List[Dict], boundaries:
         is_connected = np.array([bs.connected_room_id == i for bs in bss2])
         flr_js[is_connected] = a12.get_flr_i_js(
             area_i_js=np.array([bs.area for bs in np.array(bss2)[is_connected]]),
-            is_radiative_heating=is_radiative_heating_is[i],
+            is_radiative_heating=is_radiative_heating_is[i] or is_radiative_cooling_is[i],
             is_floor_i_js=np.array([bs.is_floor for bs in np.array(bss2)[is_connected]])
         )
 
-- 
2.43.0


From 06abf8a51633fe23248bd02eadd96cebaa8c57bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:12 +0000
Subject: [PATCH 05/20] fix: limit radiant loads by the mode of each room and
 until no room exceeds its capacity

---
 heat_load_calc/core/next_condition.py | 34 +++++++++++++--------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/heat_load_calc/core/next_condition.py b/heat_load_calc/core/next_condition.py
index 7e03e23..a82c218 100644
--- a/heat_load_calc/core/next_condition.py
+++ b/heat_load_calc/core/next_condition.py
@@ -103,29 +103,29 @@ def calc_next_temp_and_load(
     # lr 放射空調負荷, W, [i, 1]
     theta, lc, lr = get_load_and_temp(kt, kc, kr, k, nt, theta_set, c, lc_set, r, lr_set)
 
-    # 計算された放射空調負荷が最大放熱量を上回る場合は、放熱量を最大放熱量に固定して、対流空調負荷を未知数として再計算する。
-    over_lr = lr > lr_h_max_cap_is
+    # ある室の放熱量を最大放熱量に固定すると隣室の負荷も変わるため、最大放熱量を上回る室がなくなるまで繰り返す。
+    while True:
 
-    # 対流負荷を未知数とする。
-    c[over_lr] = 1
+        # 計算された放射空調負荷が最大放熱量を上回る場合は、放熱量を最大放熱量に固定して、対流空調負荷を未知数として再計算する。
+        over_lr = is_heating & (r == 1) & (lr > lr_h_max_cap_is)
 
-    # 放射負荷を最大放熱量に指定する。
-    r[over_lr] = 0
-    lr_set[over_lr] = lr_h_max_cap_is[over_lr]
+        # 計算された放射空調負荷が最大放熱量を下回る場合は、放熱量を最大放熱量に固定して、対流空調負荷を未知数として再計算する。
+        # 注意：冷房の最大放熱量は正の値で指定される。一方、計算される負荷（lr）は、冷房の場合、負の値で指定される。
+        under_lr = is_cooling & (r == 1) & (lr < -lr_cs_max_cap_is)
 
-    # 計算された放射空調負荷が最大放熱量を下回る場合は、放熱量を最大放熱量に固定して、対流空調負荷を未知数として再計算する。
-    # 注意：冷房の最大放熱量は正の値で指定される。一方、計算される負荷（lr）は、冷房の場合、負の値で指定される。
-    under_lr = lr < -lr_cs_max_cap_is
+        if not np.any(over_lr | under_lr):
+            break
 
-    # 対流負荷を未知数とする。
-    c[under_lr] = 1
+        # 対流負荷を未知数とする。
+        c[over_lr | under_lr] = 1
 
-    # 放射負荷を最大放熱量に指定する。
-    r[under_lr] = 0
-    lr_set[under_lr] = -lr_cs_max_cap_is[under_lr]
+        # 放射負荷を最大放熱量に指定する。
+        r[over_lr | under_lr] = 0
+        lr_set[over_lr] = lr_h_max_cap_is[over_lr]
+        lr_set[under_lr] = -lr_cs_max_cap_is[under_lr]
 
-    # 放射暖房を最大放熱量に指定して再計算する。
-    theta, lc, lr = get_load_and_temp(kt, kc, kr, k, nt, theta_set, c, lc_set, r, lr_set)
+        # 放射空調を最大放熱量に指定して再計算する。
+        theta, lc, lr = get_load_and_temp(kt, kc, kr, k, nt, theta_set, c, lc_set, r, lr_set)
 
     return theta, lc, lr
 
-- 
2.43.0


From 78f2bf5d24007dd7c08418bbefb520408efacff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:28 +0000
Subject: [PATCH 06/20] fix: hand the transmission state of the ground over
 from the ground run-up

---
 heat_load_calc/core/conditions.py          | 14 ++++++++++++--
 heat_load_calc/core/core.py                |  2 +-
 heat_load_calc/core/pre_calc_parameters.py |  4 ++++
 heat_load_calc/core/sequence_ground.py     |  4 ++++
 4 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/heat_load_calc/core/conditions.py b/heat_load_calc/core/conditions.py
index ff3238b..754a2b0 100644
--- a/heat_load_calc/core/conditions.py
+++ b/heat_load_calc/core/conditions.py
@@ -59,7 +59,7 @@ class Conditions:
 
 class GroundConditions:
 
-    def __init__(self, theta_dsh_srf_a_js_ms_n, q_srf_js_n):
+    def __init__(self, theta_dsh_srf_a_js_ms_n, q_srf_js_n, theta_dsh_srf_t_js_ms_n):
 
         # ステップnの境界jにおける項別公比法の指数項mの吸熱応答の項別成分, degree C, [j, m] (m=12)
         self.theta_dsh_srf_a_js_ms_n = theta_dsh_srf_a_js_ms_n
@@ -67,6 +67,9 @@ class GroundConditions:
         # ステップnの境界jにおける表面熱流（壁体吸熱を正とする）, W/m2, [j, 1]
         self.q_srf_js_n = q_srf_js_n
 
+        # ステップnの境界jにおける項別公比法の指数項mの貫流応答の項別成分, degree C, [j, m] (m=12)
+        self.theta_dsh_srf_t_js_ms_n = theta_dsh_srf_t_js_ms_n
+
 
 def initialize_conditions(n_spaces: int, n_bdries: int):
 
@@ -136,9 +139,14 @@ def initialize_ground_conditions(n_grounds: int):
     # 初期値を0.0W/m2とする。
     q_srf_js_n0 = np.zeros((n_grounds, 1), dtype=float)
 
+    # ステップnの統合された境界j*における指数項mの貫流応答の項別成分, degree C, [j*, 12]
+    # 初期値を0.0℃とする。
+    theta_dsh_srf_t_js_ms_n0 = np.full((n_grounds, 12), 0.0)
+
     return GroundConditions(
         theta_dsh_srf_a_js_ms_n=theta_dsh_srf_a_js_ms_n0,
-        q_srf_js_n=q_srf_js_n0
+        q_srf_js_n=q_srf_js_n0,
+        theta_dsh_srf_t_js_ms_n=theta_dsh_srf_t_js_ms_n0
     )
 
 
@@ -148,4 +156,6 @@ def update_conditions_by_ground_conditions(is_ground: np.array, c: Conditions, g
 
     c.q_srf_js_n[is_ground, :] = gc.q_srf_js_n
 
+    c.theta_dsh_srf_t_js_ms_n[is_ground, :] = gc.theta_dsh_srf_t_js_ms_n
+
     return c
diff --git a/heat_load_calc/core/core.py b/heat_load_calc/core/core.py
index 9c42906..18213f9 100644
--- a/heat_load_calc/core/core.py
+++ b/heat_load_calc/core/core.py
@@ -69,7 +69,7 @@ def calc(
     # 建物を計算するにあたって初期値を与える
     c_n = conditions.initialize_conditions(n_spaces=pp.n_spaces, n_bdries=pp.n_bdries)
 
-    # 地盤計算の結果（項別公比法の指数項mの吸熱応答の項別成分・表面熱流）を建物の計算に引き継ぐ
+    # 地盤計算の結果（項別公比法の指数項mの吸熱応答及び貫流応答の項別成分・表面熱流）を建物の計算に引き継ぐ
     c_n = conditions.update_conditions_by_ground_conditions(
         is_ground=pp.is_ground_js.flatten(),
         c=c_n,
diff --git a/heat_load_calc/core/pre_calc_parameters.py b/heat_load_calc/core/pre_calc_parameters.py
index 51fd68a..fec45d7 100644
--- a/heat_load_calc/core/pre_calc_parameters.py
+++ b/heat_load_calc/core/pre_calc_parameters.py
@@ -199,6 +199,9 @@ class PreCalcParametersGround:
     # 地盤jの項別公比法における項mの吸熱応答係数の第一項 , m2K/W, [j, 12]
     phi_a1_js_ms: np.ndarray
 
+    # 地盤jの項別公比法における項mの貫流応答係数の第一項, [j, 12]
+    phi_t1_js_ms: np.ndarray
+
     # 地盤jにおける室内側放射熱伝達率, W/m2K, [j, 1]
     h_r_js: np.ndarray
 
@@ -614,6 +617,7 @@ def make_pre_calc_parameters(delta_t: float, data_directory: str) -> (PreCalcPar
         r_js_ms=r_js_ms[is_ground_js.flatten(), :],
         phi_a0_js=phi_a0_js[is_ground_js.flatten(), :],
         phi_a1_js_ms=phi_a1_js_ms[is_ground_js.flatten(), :],
+        phi_t1_js_ms=phi_t1_js_ms[is_ground_js.flatten(), :],
         h_r_js=h_r_js[is_ground_js.flatten(), :],
         h_c_js=h_c_js[is_ground_js.flatten(), :],
         theta_o_ns=theta_o_ns,
diff --git a/heat_load_calc/core/sequence_ground.py b/heat_load_calc/core/sequence_ground.py
index 23da37f..8eb33c3 100644
--- a/heat_load_calc/core/sequence_ground.py
+++ b/heat_load_calc/core/sequence_ground.py
@@ -18,9 +18,13 @@ def run_tick(gc_n: GroundConditions, ss: PreCalcParametersGround, n: int):
     # TODO: ここの外気温度は n+1 を使用する必要があるのではないか。
     q_srf_js_n = h_i_js * (ss.theta_o_ns[n] - theta_s_js_npls)
 
+    # 年平均外気温度に対する貫流応答の項別成分（定常値）
+    theta_dsh_srf_t_js_ms_npls = ss.phi_t1_js_ms / (1.0 - ss.r_js_ms) * ss.theta_o_ave
+
     return GroundConditions(
         theta_dsh_srf_a_js_ms_n=theta_dsh_srf_a_js_ms_npls,
         q_srf_js_n=q_srf_js_n,
+        theta_dsh_srf_t_js_ms_n=theta_dsh_srf_t_js_ms_npls
     )
 
 
-- 
2.43.0


From 0c4123629d085c00edcba1629f68a67c2918801a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:10 +0000
Subject: [PATCH 07/20] fix: keep the sine of the solar altitude within [-1, 1]
 so that the altitude is defined at the zenith

---
 heat_load_calc/weather/solar_position.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/heat_load_calc/weather/solar_position.py b/heat_load_calc/weather/solar_position.py
index 5e0edc1..8dc2b1a 100644
--- a/heat_load_calc/weather/solar_position.py
+++ b/heat_load_calc/weather/solar_position.py
@@ -290,7 +290,10 @@ def get_h_sun_ns(phi_loc: float, omega_ns: np.ndarray, delta_ns: np.ndarray) ->
         太陽高度はマイナスの値もとり得る。（太陽が沈んでいる場合）
     """
 
-    h_sun_ns = np.arcsin(np.sin(phi_loc) * np.sin(delta_ns) + np.cos(phi_loc) * np.cos(delta_ns) * np.cos(omega_ns))
+    # 太陽が天頂にある場合に丸め誤差で正弦が1を超え、高度が未定義になることを避ける。
+    sin_h_sun_ns = np.sin(phi_loc) * np.sin(delta_ns) + np.cos(phi_loc) * np.cos(delta_ns) * np.cos(omega_ns)
+
+    h_sun_ns = np.arcsin(np.clip(sin_h_sun_ns, -1.0, 1.0))
 
     return h_sun_ns
 
-- 
2.43.0


From e642f9c55ff4ef3062f6ad86033f97a24177d8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:10 +0000
Subject: [PATCH 08/20] fix: keep the incidence angle defined for a sun on the
 surface normal or at the zenith

---
 .../initializer/inclined_surface_solar_radiation.py        | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/heat_load_calc/initializer/inclined_surface_solar_radiation.py b/heat_load_calc/initializer/inclined_surface_solar_radiation.py
index 8593111..26d34fc 100644
--- a/heat_load_calc/initializer/inclined_surface_solar_radiation.py
+++ b/heat_load_calc/initializer/inclined_surface_solar_radiation.py
@@ -98,10 +98,10 @@ def get_theta_aoi_j_n(
     """
 
     # ステップnの境界jにおける傾斜面に入射する太陽の入射角のコサイン, [8760 * 4]
-    # h_sun_ns == 1.0 の場合は太陽が天頂にある時であり、太陽の方位角が定義されない。
+    # h_sun_ns == π/2 の場合は太陽が天頂にある時であり、太陽の方位角が定義されない。
     # その場合、cos(h_sun_ns)がゼロとなり、下式の第2項・第3項がゼロになる。
     cos_theta_aoi_j_n = np.where(
-        np.cos(h_sun_ns) == 0.0,
+        h_sun_ns == np.pi / 2,
         np.sin(h_sun_ns) * np.cos(w_beta_j),
         np.sin(h_sun_ns) * np.cos(w_beta_j)
         + np.cos(h_sun_ns) * np.sin(a_sun_ns) * np.sin(w_beta_j) * np.sin(w_alpha_j)
@@ -109,7 +109,8 @@ def get_theta_aoi_j_n(
     )
 
     # cos がマイナスの場合は入射角が90°～270°、つまり傾斜面の裏面に太陽が位置していることになるため、ゼロにする。
-    cos_theta_aoi_j_n = np.clip(cos_theta_aoi_j_n, 0.0, None)
+    # 丸め誤差で1を超えた場合は入射角が未定義になるため、1とする。
+    cos_theta_aoi_j_n = np.clip(cos_theta_aoi_j_n, 0.0, 1.0)
 
     # cos から radian に変換する。
     theta_aoi_j_n = np.arccos(cos_theta_aoi_j_n)
-- 
2.43.0


From c5529814b7185a9028a1cc86d4a6701f56512eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:42 +0000
Subject: [PATCH 09/20] fix: keep the shaded fraction under an eave defined for
 a sun at the zenith

---
 heat_load_calc/initializer/solar_shading.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/heat_load_calc/initializer/solar_shading.py b/heat_load_calc/initializer/solar_shading.py
index 1966c96..b60ce3b 100644
--- a/heat_load_calc/initializer/solar_shading.py
+++ b/heat_load_calc/initializer/solar_shading.py
@@ -126,7 +126,8 @@ class SolarShadingSimple(SolarShading):
         """
 
         h_s_n = np.where(h_sun_n > 0.0, h_sun_n, 0.0)
-        a_s_n = np.where(h_sun_n > 0.0, a_sun_n, 0.0)
+        # 太陽が天頂にある場合は方位角が定義されない。
+        a_s_n = np.where((h_sun_n > 0.0) & (h_sun_n != np.pi / 2), a_sun_n, 0.0)
 
         # プロファイル角, tangent
         # TODO: cos が 0 になる可能性を整理して条件式を追加する必要あり。
-- 
2.43.0


From 89bb1503da951b68e9ac1b9b65efa761e4b40d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:15 +0000
Subject: [PATCH 10/20] fix: derive part values from indices for attached
 houses

---
 heat_load_calc/convert/ees_house.py              | 12 ++++++++----
 .../convert/get_u_psi_eta_from_u_a_and_eta_a.py  | 16 +++++++++++-----
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/heat_load_calc/convert/ees_house.py b/heat_load_calc/convert/ees_house.py
index b94fd24..7fbc5a7 100644
--- a/heat_load_calc/convert/ees_house.py
+++ b/heat_load_calc/convert/ees_house.py
@@ -1696,10 +1696,14 @@ class Window(WindowNoSpec, IGetQ, IGetM):
         return self._window_spec.get_eta_d(season=season)
 
     def get_m(self, region: int, season: str) -> float:
-        return self.get_eta_d(season=season) \
-               * self.area \
-               * self.sunshade.get_f(region=region, season=season, direction=self.direction) \
-               * self.get_nu(region=region, season=season)
+
+        if self.next_space == NextSpace.OUTDOOR:
+            return self.get_eta_d(season=season) \
+                   * self.area \
+                   * self.sunshade.get_f(region=region, season=season, direction=self.direction) \
+                   * self.get_nu(region=region, season=season)
+        else:
+            return 0.0
 
     def get_as_dict(self):
 
diff --git a/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py b/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py
index 521ab5e..313390e 100644
--- a/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py
+++ b/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py
@@ -41,7 +41,9 @@ def get_u_psi(u_psi: PartType, key: str) -> float:
         'floor': u_psi.floor,
         'boundary_ceiling': u_psi.boundary_ceiling,
         'boundary_wall': u_psi.boundary_wall,
-        'boundary_floor': u_psi.boundary_wall,
+        'boundary_floor': u_psi.boundary_floor,
+        'upward_boundary_floor': u_psi.boundary_ceiling,
+        'downward_boundary_floor': u_psi.boundary_floor,
         'window': u_psi.window,
         'door': u_psi.door,
         'earthfloor_perimeter': u_psi.earthfloor_perimeter,
@@ -192,13 +194,15 @@ def get_m_opq(
         不透明部位のm値の合計, W/K （暖房期・冷房期）
     """
 
+    u_psi = PartType(**u_psi_value)
+
     m_opq_h_general_part = sum([
-        s.area * 0.034 * u_psi_value[s.general_part_type.value] * s.get_nu(region=region, season='heating')
+        s.area * 0.034 * get_u_psi(u_psi, s.general_part_type.value) * s.get_nu(region=region, season='heating')
         for s in gps
     ])
 
     m_opq_c_general_part = sum([
-        s.area * 0.034 * u_psi_value[s.general_part_type.value] * s.get_nu(region=region, season='cooling')
+        s.area * 0.034 * get_u_psi(u_psi, s.general_part_type.value) * s.get_nu(region=region, season='cooling')
         for s in gps
     ])
 
@@ -228,11 +232,13 @@ def get_eta_d_each(
     """
 
     sum_a_f_nu_h = sum(
-        s.area * s.get_f(region=region, season='heating') * s.get_nu(region=region, season='heating') for s in ws
+        s.area * s.get_f(region=region, season='heating') * s.get_nu(region=region, season='heating')
+        for s in ws if s.next_space == NextSpace.OUTDOOR
     )
 
     sum_a_f_nu_c = sum(
-        s.area * s.get_f(region=region, season='cooling') * s.get_nu(region=region, season='cooling') for s in ws
+        s.area * s.get_f(region=region, season='cooling') * s.get_nu(region=region, season='cooling')
+        for s in ws if s.next_space == NextSpace.OUTDOOR
     )
 
     eta_d_h = np.clip((m_h - m_h_opq) / sum_a_f_nu_h, 0.0, 0.88)
-- 
2.43.0


From 9f9d5fc72dda5adebbcd14fcd29af53b59a62932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:28 +0000
Subject: [PATCH 11/20] fix: derive part values from indices in region 8, which
 has no heating season

---
 .../get_u_psi_eta_from_u_a_and_eta_a.py       | 28 +++++++++++++------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py b/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py
index 313390e..4442f17 100644
--- a/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py
+++ b/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py
@@ -196,9 +196,12 @@ def get_m_opq(
 
     u_psi = PartType(**u_psi_value)
 
+    # 8地域では暖房期の方位係数は定義されないため、暖房期のm値は計算しない。
+    is_heating_defined = region != 8
+
     m_opq_h_general_part = sum([
         s.area * 0.034 * get_u_psi(u_psi, s.general_part_type.value) * s.get_nu(region=region, season='heating')
-        for s in gps
+        for s in gps if is_heating_defined
     ])
 
     m_opq_c_general_part = sum([
@@ -206,7 +209,10 @@ def get_m_opq(
         for s in gps
     ])
 
-    m_opq_h_door = sum([s.area * 0.034 * u_psi_value['door'] * s.get_nu(region=region, season='heating') for s in ds])
+    m_opq_h_door = sum([
+        s.area * 0.034 * u_psi_value['door'] * s.get_nu(region=region, season='heating')
+        for s in ds if is_heating_defined
+    ])
 
     m_opq_c_door = sum([s.area * 0.034 * u_psi_value['door'] * s.get_nu(region=region, season='cooling') for s in ds])
 
@@ -231,18 +237,23 @@ def get_eta_d_each(
         η_d,h・η_d,c 値, (W/m2)/(W/m2)
     """
 
-    sum_a_f_nu_h = sum(
-        s.area * s.get_f(region=region, season='heating') * s.get_nu(region=region, season='heating')
+    sum_a_f_nu_c = sum(
+        s.area * s.get_f(region=region, season='cooling') * s.get_nu(region=region, season='cooling')
         for s in ws if s.next_space == NextSpace.OUTDOOR
     )
 
-    sum_a_f_nu_c = sum(
-        s.area * s.get_f(region=region, season='cooling') * s.get_nu(region=region, season='cooling')
+    eta_d_c = np.clip((m_c - m_c_opq) / sum_a_f_nu_c, 0.0, 0.88)
+
+    # 8地域では暖房期の値は定義されないため、冷房期の値を用いる。
+    if region == 8:
+        return float(eta_d_c), float(eta_d_c)
+
+    sum_a_f_nu_h = sum(
+        s.area * s.get_f(region=region, season='heating') * s.get_nu(region=region, season='heating')
         for s in ws if s.next_space == NextSpace.OUTDOOR
     )
 
     eta_d_h = np.clip((m_h - m_h_opq) / sum_a_f_nu_h, 0.0, 0.88)
-    eta_d_c = np.clip((m_c - m_c_opq) / sum_a_f_nu_c, 0.0, 0.88)
 
     return float(eta_d_h), float(eta_d_c)
 
@@ -298,7 +309,8 @@ def calc_parts_spec(
     q = _get_q(a_evp_total=a_evp_total, u_a=u_a_target)
 
     # m値, W/(W/m2)
-    m_h = _get_m_h(a_evp_total=a_evp_total, eta_a_h=eta_a_h_target)
+    # （8地域では暖房期の値は定義されない。）
+    m_h = _get_m_h(a_evp_total=a_evp_total, eta_a_h=eta_a_h_target) if region != 8 else None
     m_c = _get_m_c(a_evp_total=a_evp_total, eta_a_c=eta_a_c_target)
 
     # 各部位の基準U値・ψ値に対するq値, W/K
-- 
2.43.0


From 0dc55cf5ac575a828b1845ca8b6518572867e4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:28 +0000
Subject: [PATCH 12/20] fix: read and write the sunshades of windows that exist
 in detail or not at all

---
 heat_load_calc/convert/factor_f.py | 50 ++++++++++++++----------------
 1 file changed, 23 insertions(+), 27 deletions(-)

diff --git a/heat_load_calc/convert/factor_f.py b/heat_load_calc/convert/factor_f.py
index 13b25ac..7a5e792 100644
--- a/heat_load_calc/convert/factor_f.py
+++ b/heat_load_calc/convert/factor_f.py
@@ -241,18 +241,16 @@ class SunshadeOpaqueInput(SunshadeOpaque):
         return {
             'is_defined': True,
             'input': 'complex',
-            'spec': {
-                'x1': self._sunshade_complex_kernel.x1,
-                'x2': self._sunshade_complex_kernel.x2,
-                'x3': self._sunshade_complex_kernel.x3,
-                'y1': self._sunshade_complex_kernel.y1,
-                'y2': self._sunshade_complex_kernel.y2,
-                'y3': self._sunshade_complex_kernel.y3,
-                'z_x_pls': self._sunshade_complex_kernel.z_x_pls,
-                'z_x_mns': self._sunshade_complex_kernel.z_x_mns,
-                'z_y_pls': self._sunshade_complex_kernel.z_y_pls,
-                'z_y_mns': self._sunshade_complex_kernel.z_y_mns
-            }
+            'x1': self._sunshade_complex_kernel.x1,
+            'x2': self._sunshade_complex_kernel.x2,
+            'x3': self._sunshade_complex_kernel.x3,
+            'y1': self._sunshade_complex_kernel.y1,
+            'y2': self._sunshade_complex_kernel.y2,
+            'y3': self._sunshade_complex_kernel.y3,
+            'z_x_pls': self._sunshade_complex_kernel.z_x_pls,
+            'z_x_mns': self._sunshade_complex_kernel.z_x_mns,
+            'z_y_pls': self._sunshade_complex_kernel.z_y_pls,
+            'z_y_mns': self._sunshade_complex_kernel.z_y_mns
         }
 
     def make_initializer_dict(self):
@@ -293,11 +291,11 @@ class SunshadeTransient:
             if d['input'] == 'not_input':
                 return SunshadeTransientNotInput()
             elif d['input'] == 'not_exist':
-                raise SunshadeTransientNotExist()
+                return SunshadeTransientNotExist()
             elif d['input'] == 'simple':
                 return SunshadeTransientExistSimple(depth=d['depth'], d_h=d['d_h'], d_e=d['d_e'])
             elif d['input'] == 'complex':
-                raise SunshadeTransientExistDetail(
+                return SunshadeTransientExistDetail(
                     x1=d['x1'],
                     x2=d['x2'],
                     x3=d['x3'],
@@ -519,25 +517,23 @@ class SunshadeTransientExistDetail(SunshadeTransient):
             f値
         """
 
-        return self._sunshade_complex_kernel.get_f_sh(region=region, season=season)
+        return self._sunshade_complex_kernel.get_f_sh(region=region, season=season, direction=direction)
 
     def get_as_dict(self):
 
         return {
             'is_defined': True,
             'input': 'complex',
-            'spec': {
-                'x1': self._sunshade_complex_kernel.x1,
-                'x2': self._sunshade_complex_kernel.x2,
-                'x3': self._sunshade_complex_kernel.x3,
-                'y1': self._sunshade_complex_kernel.y1,
-                'y2': self._sunshade_complex_kernel.y2,
-                'y3': self._sunshade_complex_kernel.y3,
-                'z_x_pls': self._sunshade_complex_kernel.z_x_pls,
-                'z_x_mns': self._sunshade_complex_kernel.z_x_mns,
-                'z_y_pls': self._sunshade_complex_kernel.z_y_pls,
-                'z_y_mns': self._sunshade_complex_kernel.z_y_mns
-            }
+            'x1': self._sunshade_complex_kernel.x1,
+            'x2': self._sunshade_complex_kernel.x2,
+            'x3': self._sunshade_complex_kernel.x3,
+            'y1': self._sunshade_complex_kernel.y1,
+            'y2': self._sunshade_complex_kernel.y2,
+            'y3': self._sunshade_complex_kernel.y3,
+            'z_x_pls': self._sunshade_complex_kernel.z_x_pls,
+            'z_x_mns': self._sunshade_complex_kernel.z_x_mns,
+            'z_y_pls': self._sunshade_complex_kernel.z_y_pls,
+            'z_y_mns': self._sunshade_complex_kernel.z_y_mns
         }
 
     def make_initializer_dict(self):
-- 
2.43.0


From b000c3a88e022500ae09ced600837d3b4ab3766c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:28 +0000
Subject: [PATCH 13/20] fix: name the connected room of a window as for every
 other part

---
 heat_load_calc/convert/ees_house.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat_load_calc/convert/ees_house.py b/heat_load_calc/convert/ees_house.py
index 7fbc5a7..e957d95 100644
--- a/heat_load_calc/convert/ees_house.py
+++ b/heat_load_calc/convert/ees_house.py
@@ -1724,7 +1724,7 @@ class Window(WindowNoSpec, IGetQ, IGetM):
         # TODO: 下記の表面熱伝達抵抗や長波長放射率についてはきちんと整理しないといけない。
         d = {
             'name': self.name,
-            'connected_id': self.space_type.get_connected_id(),
+            'connected_room_id': self.space_type.get_connected_id(),
             'boundary_type': 'external_transparent_part',
             'area': self.area,
             'is_sun_striked_outside': is_sun_striked_outside,
-- 
2.43.0


From 17e01e9f4b087b75187db7aac748e15b1582c3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:27 +0000
Subject: [PATCH 14/20] fix: list the parts of a house with insulated
 foundations whatever the rounding of its floor area

---
 heat_load_calc/convert/model_house.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/heat_load_calc/convert/model_house.py b/heat_load_calc/convert/model_house.py
index 8ddd6ba..a3da3ce 100644
--- a/heat_load_calc/convert/model_house.py
+++ b/heat_load_calc/convert/model_house.py
@@ -1154,9 +1154,12 @@ def _get_a_evp_f_total(
 
 
 def _get_a_evp_f_other(
+        house_type: str, floor_ins_type: str,
         a_f: List[float], a_evp_f_etrc: float, a_evp_f_bath: float, a_evp_ef_total: float) -> float:
     """
     Args:
+        house_type: 住戸の種類
+        floor_ins_type: 床の断熱の種類
         a_f: 各階の床面積, m2
         a_evp_f_etrc: 玄関の断熱した床の面積, m2
         a_evp_f_bath: 浴室の断熱した床の面積, m2
@@ -1165,7 +1168,11 @@ def _get_a_evp_f_other(
         断熱した床の面積の合計, m2
     """
 
-    return a_f[0] - a_evp_ef_total - a_evp_f_etrc - a_evp_f_bath
+    # 基礎断熱の戸建住戸では1階の床はすべて土間床である。（引き算による丸め誤差を残さない。）
+    if house_type == 'detached' and floor_ins_type == 'base':
+        return 0.0
+    else:
+        return a_f[0] - a_evp_ef_total - a_evp_f_etrc - a_evp_f_bath
 
 
 def _get_a_evp_ef_total(a_evp_ef_bath: float, a_evp_ef_etrc: float, a_evp_ef_other: float) -> float:
@@ -1327,7 +1334,8 @@ def calc_area(
     a_evp_ef_total = _get_a_evp_ef_total(a_evp_ef_bath, a_evp_ef_etrc, a_evp_ef_other)
 
     # その他の断熱した床面積, m2
-    a_evp_f_other = _get_a_evp_f_other(a_f, a_evp_f_etrc, a_evp_f_bath, a_evp_ef_total)
+    a_evp_f_other = _get_a_evp_f_other(
+        house_type, floor_ins_type, a_f, a_evp_f_etrc, a_evp_f_bath, a_evp_ef_total)
 
     # 断熱した床面積の合計, m2
     a_evp_f_total = _get_a_evp_f_total(a_evp_f_etrc, a_evp_f_bath, a_evp_f_other)
-- 
2.43.0


From a5212d01da2bc1292a243baef0e3d783550e593c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:09 +0000
Subject: [PATCH 15/20] fix: divide houses without non-occupant rooms, whatever
 the rounding of their floor areas

---
 heat_load_calc/convert/a_06_common_items.py  | 21 ++++++++++++++++++++
 heat_load_calc/convert/convert_lv2_to_lv3.py |  5 +++--
 heat_load_calc/convert/convert_lv3_to_lv4.py |  9 +++++----
 3 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/heat_load_calc/convert/a_06_common_items.py b/heat_load_calc/convert/a_06_common_items.py
index 1e0541e..b7c7eba 100644
--- a/heat_load_calc/convert/a_06_common_items.py
+++ b/heat_load_calc/convert/a_06_common_items.py
@@ -82,3 +82,24 @@ def get_r_surf(general_part_type: str, next_space: str) -> (float, float):
     else:
 
         raise ValueError()
+
+
+def get_a_nr(a_a: float, a_mr: float, a_or: float) -> float:
+    """
+    非居室の床面積を取得する。
+
+    Args:
+        a_a: 床面積の合計, m2
+        a_mr: 主たる居室の床面積, m2
+        a_or: その他の居室の床面積, m2
+
+    Returns:
+        非居室の床面積, m2
+
+    Notes:
+        非居室がない場合に、引き算による丸め誤差が非居室の床面積として残らないようにする。
+    """
+
+    a_nr = a_a - a_mr - a_or
+
+    return 0.0 if abs(a_nr) <= 1.0e-9 * a_a else a_nr
diff --git a/heat_load_calc/convert/convert_lv2_to_lv3.py b/heat_load_calc/convert/convert_lv2_to_lv3.py
index 7d8d1fc..d2e31bd 100644
--- a/heat_load_calc/convert/convert_lv2_to_lv3.py
+++ b/heat_load_calc/convert/convert_lv2_to_lv3.py
@@ -1,6 +1,7 @@
 from typing import Dict, List
 
 from heat_load_calc.convert import ees_house
+from heat_load_calc.convert.a_06_common_items import get_a_nr
 from heat_load_calc.convert.ees_house import GeneralPartType, SpaceType
 from heat_load_calc.convert.ees_house import GeneralPart
 from heat_load_calc.convert.ees_house import Window
@@ -27,7 +28,7 @@ def get_separated_areas(a_evlp: float, a_f_mr: float, a_f_or: float, a_f_total:
 
     a_evlp_mr_i = a_f_mr / a_f_total * a_evlp
     a_evlp_or_i = a_f_or / a_f_total * a_evlp
-    a_evlp_nr_i = (a_f_total - a_f_mr - a_f_or) / a_f_total * a_evlp
+    a_evlp_nr_i = get_a_nr(a_a=a_f_total, a_mr=a_f_mr, a_or=a_f_or) / a_f_total * a_evlp
 
     return a_evlp_mr_i, a_evlp_or_i, a_evlp_nr_i
 
@@ -49,7 +50,7 @@ def get_separated_lengths(l_evlp: float, a_f_mr: float, a_f_or: float, a_f_total
 
     l_evlp_mr_i = a_f_mr / a_f_total * l_evlp
     l_evlp_or_i = a_f_or / a_f_total * l_evlp
-    l_evlp_nr_i = (a_f_total - a_f_mr - a_f_or) / a_f_total * l_evlp
+    l_evlp_nr_i = get_a_nr(a_a=a_f_total, a_mr=a_f_mr, a_or=a_f_or) / a_f_total * l_evlp
 
     return l_evlp_mr_i, l_evlp_or_i, l_evlp_nr_i
 
diff --git a/heat_load_calc/convert/convert_lv3_to_lv4.py b/heat_load_calc/convert/convert_lv3_to_lv4.py
index a797509..c4291b2 100644
--- a/heat_load_calc/convert/convert_lv3_to_lv4.py
+++ b/heat_load_calc/convert/convert_lv3_to_lv4.py
@@ -1,6 +1,7 @@
 from typing import Dict, Tuple, List
 import copy
 
+from heat_load_calc.convert.a_06_common_items import get_a_nr
 from heat_load_calc.convert.ees_house import SpaceType
 from heat_load_calc.convert.ees_house import UpperArealEnvelope
 from heat_load_calc.convert.ees_house import GeneralPart
@@ -114,7 +115,7 @@ def get_inner_floor_total_area(
 
     a_if_mr = max(0.0, a_mr - a_evlp_down_mr - a_ef_mr)
     a_if_or = max(0.0, a_or - a_evlp_down_or - a_ef_or)
-    a_if_nr = max(0.0, a_a - a_mr - a_or - a_evlp_down_nr - a_ef_nr)
+    a_if_nr = max(0.0, get_a_nr(a_a=a_a, a_mr=a_mr, a_or=a_or) - a_evlp_down_nr - a_ef_nr)
 
     return a_if_mr, a_if_or, a_if_nr
 
@@ -170,7 +171,7 @@ def get_inner_floor_between_rooms(
             (6) 床上側が非居室に接し床下側がその他の居室に接する間仕切り床の面積の合計, m2
     """
 
-    a_nr = a_a - a_mr - a_or
+    a_nr = get_a_nr(a_a=a_a, a_mr=a_mr, a_or=a_or)
 
     if a_mr <= 0.0:
         raise ValueError('主たる居室の面積に0又は負の値が指定されました。主たる居室は必ず0より大きい値を指定する必要があります。')
@@ -289,7 +290,7 @@ def get_inner_wall_total_area(a_mr, a_or, a_a, a_evlp_hzt_mr, a_evlp_hzt_or, a_e
 
     a_iw_mr = max(0.0, 4 * r_iw_mr * h_iw * a_mr ** 0.5 - a_evlp_hzt_mr)
     a_iw_or = max(0.0, 4 * r_iw_or * h_iw * a_or ** 0.5 - a_evlp_hzt_or)
-    a_iw_nr = max(0.0, 4 * r_iw_nr * h_iw * (a_a - a_mr - a_or) ** 0.5 - a_evlp_hzt_nr)
+    a_iw_nr = max(0.0, 4 * r_iw_nr * h_iw * get_a_nr(a_a=a_a, a_mr=a_mr, a_or=a_or) ** 0.5 - a_evlp_hzt_nr)
 
     return a_iw_mr, a_iw_or, a_iw_nr
 
@@ -312,7 +313,7 @@ def get_inner_wall_total_area_between_rooms(
             (3) その他の居室と非居室に接する間仕切り壁の面積の合計, m2
     """
 
-    a_nr = a_a - a_mr - a_or
+    a_nr = get_a_nr(a_a=a_a, a_mr=a_mr, a_or=a_or)
 
     if a_mr <= 0.0:
         raise ValueError('主たる居室の面積に0又は負の値が指定されました。主たる居室は必ず0より大きい値を指定する必要があります。')
-- 
2.43.0


From 6ec516b323b44008e654a91d5172b95d79653a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:38 +0000
Subject: [PATCH 16/20] fix: give the same response factors however often a
 wall is asked for them

---
 heat_load_calc/initializer/response_factor.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/heat_load_calc/initializer/response_factor.py b/heat_load_calc/initializer/response_factor.py
index ecbbc83..e852d9d 100644
--- a/heat_load_calc/initializer/response_factor.py
+++ b/heat_load_calc/initializer/response_factor.py
@@ -400,12 +400,10 @@ class ResponseFactorFactoryTransientEnvelope(ResponseFactorFactory):
 
         is_ground = False
 
-        c = self._cs
-        c.append(0.0)
+        c = self._cs + [0.0]
         c_layer_i_k_l = np.array(c) * 1000.0
 
-        r = self._rs
-        r.append(self._r_o)
+        r = self._rs + [self._r_o]
         r_layer_i_k_l = np.array(r)
 
         # 応答係数
@@ -433,12 +431,10 @@ class ResponseFactorFactoryTransientGround(ResponseFactorFactory):
 
         is_ground = True
 
-        c = self._cs
-        c.append(3300.0 * 3.0)
+        c = self._cs + [3300.0 * 3.0]
         c_layer_i_k_l = np.array(c) * 1000.0
 
-        r = self._rs
-        r.append(3.0 / 1.0)
+        r = self._rs + [3.0 / 1.0]
         r_layer_i_k_l = np.array(r)
 
         # 応答係数
-- 
2.43.0


From f8d6216910e917f2bd30a73c5c0b24e18b557607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:37 +0000
Subject: [PATCH 17/20] fix: film on the room side of a glazing uses the
 emissivity of the room-side face

---
 notebook/initializer/shgc_window/glass_thermal_balance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/notebook/initializer/shgc_window/glass_thermal_balance.py b/notebook/initializer/shgc_window/glass_thermal_balance.py
index 7d3fe69..8aac9d5 100644
--- a/notebook/initializer/shgc_window/glass_thermal_balance.py
+++ b/notebook/initializer/shgc_window/glass_thermal_balance.py
@@ -777,7 +777,7 @@ class Glass:
         if surface_method == 'JIS_A2103':
             t_s = theta_s + ABSOLUTE_ZERO
             t_r_i = theta_r_i + ABSOLUTE_ZERO
-            h_r = self._gls[0].sff.eps * get_sigma() * (t_s ** 3 + t_s ** 2 * t_r_i + t_s * t_r_i ** 2 + t_r_i ** 3)
+            h_r = self._gls[-1].sfb.eps * get_sigma() * (t_s ** 3 + t_s ** 2 * t_r_i + t_s * t_r_i ** 2 + t_r_i ** 3)
             h_c = {
                 'summer': 2.5,
                 'winter': 3.6
-- 
2.43.0


From 8703d431e5d276fb2b8dc7534d40d83e1b6fe09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:37 +0000
Subject: [PATCH 18/20] fix: accept gas mixtures that add up to 100 percent
 within rounding

---
 notebook/initializer/shgc_window/glass_thermal_balance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/notebook/initializer/shgc_window/glass_thermal_balance.py b/notebook/initializer/shgc_window/glass_thermal_balance.py
index 8aac9d5..ef403b6 100644
--- a/notebook/initializer/shgc_window/glass_thermal_balance.py
+++ b/notebook/initializer/shgc_window/glass_thermal_balance.py
@@ -302,7 +302,7 @@ class MixedAirProperty:
         """
 
         # confirm that the sum of the volumetric ratio of each air property equals to 100%.
-        if c_air + c_argon + c_sf6 + c_krypton != 100.0:
+        if abs(c_air + c_argon + c_sf6 + c_krypton - 100.0) > 0.000001:
             raise ValueError('気体の容積割合の合計は100.0になる必要があります')
 
         self._c_air = c_air
-- 
2.43.0


From b31353d179886dfbba53fc1fdac6e5266fb5b15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:37 +0000
Subject: [PATCH 19/20] fix: date the results at the calculation step asked for

---
 heat_load_calc/core/core.py | 5 +++--
 heat_load_calc/core/log.py  | 6 +++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/heat_load_calc/core/core.py b/heat_load_calc/core/core.py
index 18213f9..7c4b563 100644
--- a/heat_load_calc/core/core.py
+++ b/heat_load_calc/core/core.py
@@ -91,7 +91,7 @@ def calc(
     print('ログ作成')
 
     # ds: data simple, 1時間間隔で主要なパラメータのみを抽出した pd.DataFrame
-    # dd: data detail, 15分間隔のすべてのパラメータ pd.DataFrame
+    # dd: data detail, 計算間隔ごとのすべてのパラメータ pd.DataFrame
     ds, dd = log.record(
         pps=pp,
         logger=logger,
@@ -99,7 +99,8 @@ def calc(
         show_simple_result=show_simple_result,
         show_detail_result=show_detail_result,
         n_step_main=n_step_main,
-        n_d_main=n_d_main
+        n_d_main=n_d_main,
+        n_step_hourly=n_step_hourly
     )
 
     return ds, dd
diff --git a/heat_load_calc/core/log.py b/heat_load_calc/core/log.py
index acc4839..5a456f2 100644
--- a/heat_load_calc/core/log.py
+++ b/heat_load_calc/core/log.py
@@ -152,11 +152,11 @@ class Logger:
         self.q_l_frt = ss.g_lh_frt_is * (self.x_r - self.x_frt)
 
 
-def record(pps: PreCalcParameters, logger: Logger, output_data_dir: str, show_simple_result: bool, show_detail_result: bool, n_step_main: int, n_d_main: int):
+def record(pps: PreCalcParameters, logger: Logger, output_data_dir: str, show_simple_result: bool, show_detail_result: bool, n_step_main: int, n_d_main: int, n_step_hourly: int = 4):
 
-    date_index_15min = pd.date_range(start='1/1/1989', periods=n_step_main, freq='15min')
+    date_index_step = pd.date_range(start='1/1/1989', periods=n_step_main, freq=pd.Timedelta(hours=1) / n_step_hourly)
 
-    dd = pd.DataFrame(index=date_index_15min)
+    dd = pd.DataFrame(index=date_index_step)
 
     dd['out_temp'] = logger.theta_o_ns[0:n_step_main]
     dd['out_abs_humid'] = logger.x_o_ns[0:n_step_main]
-- 
2.43.0


From de1786bdfdee3dbda28309cec92f69b39805eadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:37 +0000
Subject: [PATCH 20/20] fix: response factors of walls are made for the
 calculation step asked for

---
 heat_load_calc/core/pre_calc_parameters.py    |  6 ++--
 heat_load_calc/initializer/response_factor.py | 36 +++++++++----------
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/heat_load_calc/core/pre_calc_parameters.py b/heat_load_calc/core/pre_calc_parameters.py
index fec45d7..ff1d032 100644
--- a/heat_load_calc/core/pre_calc_parameters.py
+++ b/heat_load_calc/core/pre_calc_parameters.py
@@ -323,7 +323,7 @@ def make_pre_calc_parameters(delta_t: float, data_directory: str) -> (PreCalcPar
     a_srf_js = np.array([b['area'] for b in bs]).reshape(-1, 1)
 
     # 応答係数を取得する。
-    phi_a0_js, phi_a1_js_ms, phi_t0_js, phi_t1_js_ms, r_js_ms = _get_responsfactors(bs)
+    phi_a0_js, phi_a1_js_ms, phi_t0_js, phi_t1_js_ms, r_js_ms = _get_responsfactors(bs, delta_t)
 
     # 境界jの室内側表面対流熱伝達率, W/m2K, [j, 1]
     h_c_js = np.array([b['h_c'] for b in bs]).reshape(-1, 1)
@@ -627,7 +627,7 @@ def make_pre_calc_parameters(delta_t: float, data_directory: str) -> (PreCalcPar
     return pre_calc_parameters, pre_calc_parameters_ground
 
 
-def _get_responsfactors(bs):
+def _get_responsfactors(bs, delta_t: float):
 
     # 境界jの吸熱応答係数の初項, m2K/W, [j, 1]
     phi_a0_js = []
@@ -642,7 +642,7 @@ def _get_responsfactors(bs):
 
     for b in bs:
         rff = response_factor.ResponseFactorFactory.create(spec=b['spec'])
-        rf = rff.get_response_factors()
+        rf = rff.get_response_factors(delta_t=delta_t)
         phi_a0_js.append(rf.rfa0)
         phi_a1_js_ms.append(rf.rfa1)
         phi_t0_js.append(rf.rft0)
diff --git a/heat_load_calc/initializer/response_factor.py b/heat_load_calc/initializer/response_factor.py
index e852d9d..9eeeeea 100644
--- a/heat_load_calc/initializer/response_factor.py
+++ b/heat_load_calc/initializer/response_factor.py
@@ -94,14 +94,14 @@ def get_alpha_m(is_ground: bool) -> np.ndarray:
 
 
 # 壁体の単位応答の計算
-def get_step_reps_of_wall(C_i_k_p, R_i_k_p, laps: List[float], alp: List[float], M: int):
+def get_step_reps_of_wall(C_i_k_p, R_i_k_p, laps: List[float], alp: List[float], M: int, delta_t: float = 900.0):
     """
     :param layers: 壁体構成部材
     :param laps: ラプラス変数
     :param alp: 固定根
     :param nroot: 根の数
     :param M: 応答係数で作成する項数
-    :param DTime: 計算時間間隔[s]
+    :param delta_t: 計算時間間隔[s]
     :return:
     """
 
@@ -207,8 +207,8 @@ def get_step_reps_of_wall(C_i_k_p, R_i_k_p, laps: List[float], alp: List[float],
         dblATstep[lngJ] = dblAT0
         dblAAstep[lngJ] = dblAA0
         for lngK, root in enumerate(alp):
-            dblATstep[lngJ] = dblATstep[lngJ] + dblAT[lngK] * math.exp(-root * lngJ * 900)
-            dblAAstep[lngJ] = dblAAstep[lngJ] + dblAA[lngK] * math.exp(-root * lngJ * 900)
+            dblATstep[lngJ] = dblATstep[lngJ] + dblAT[lngK] * math.exp(-root * lngJ * delta_t)
+            dblAAstep[lngJ] = dblAAstep[lngJ] + dblAA[lngK] * math.exp(-root * lngJ * delta_t)
 
     # デバッグ用
     # print('四端子基本行列：', matFi)
@@ -229,13 +229,13 @@ def get_step_reps_of_wall(C_i_k_p, R_i_k_p, laps: List[float], alp: List[float],
 
 
 # 二等辺三角波励振の応答係数、指数項別応答係数、公比の計算
-def get_RFTRI(alp, AT0, AA0, AT, AA, M):
+def get_RFTRI(alp, AT0, AA0, AT, AA, M, delta_t=900.0):
     # 二等辺三角波励振の応答係数の配列を初期化
     dblRFT = np.zeros(M)
     dblRFA = np.zeros(M)
 
     # 二等辺三角波励振の応答係数の初項を計算
-    dblTemp = np.array(alp) * 900
+    dblTemp = np.array(alp) * delta_t
     dblE1 = (1.0 - np.exp(-dblTemp)) / dblTemp
     dblRFT[0] = AT0 + np.sum(dblE1 * AT)
     dblRFA[0] = AA0 + np.sum(dblE1 * AA)
@@ -263,7 +263,7 @@ def get_RFTRI(alp, AT0, AA0, AT, AA, M):
 
 
 # 応答係数
-def calc_response_factor(is_ground: bool, C_i_k_p, R_i_k_p):
+def calc_response_factor(is_ground: bool, C_i_k_p, R_i_k_p, delta_t: float = 900.0):
     """
     VBAからの主な変更点：
     (1)二次元配列（objArray）で壁体の情報を受け取っていたが、壁体情報クラスで受け取るように変更
@@ -271,12 +271,12 @@ def calc_response_factor(is_ground: bool, C_i_k_p, R_i_k_p):
     (3)固定根はシートから読み込んでいたが、初期化時に配列として与えるように変更
     (4)伝達関数近似のA0の周期は使用しない
     :param WallType: 壁体種類, 'wall' or 'soil'
-    :param DTime: 計算時間間隔[s]
+    :param delta_t: 計算時間間隔[s]
     :param wall: 壁体基本情報クラス
     """
 
     NcalTime = 50  # 応答係数を作成する時間数[h]
-    M = int(NcalTime * 3600 / 900) + 1  # 応答係数で作成する項数
+    M = int(NcalTime * 3600 / delta_t) + 1  # 応答係数で作成する項数
 
     # 固定根, 一般部位の場合[8], 地盤の場合[10]
     alpha_m = get_alpha_m(is_ground)
@@ -285,10 +285,10 @@ def calc_response_factor(is_ground: bool, C_i_k_p, R_i_k_p):
     laps = get_laps(alpha_m)
 
     # 単位応答の計算
-    AT0, AA0, AT, AA, ATstep, AAstep = get_step_reps_of_wall(C_i_k_p, R_i_k_p, laps, alpha_m, M)
+    AT0, AA0, AT, AA, ATstep, AAstep = get_step_reps_of_wall(C_i_k_p, R_i_k_p, laps, alpha_m, M, delta_t)
 
     # 二等辺三角波励振の応答係数、指数項別応答係数、公比の計算
-    RFT, RFA, RFT1, RFA1, Row = get_RFTRI(alpha_m, AT0, AA0, AT, AA, M)
+    RFT, RFA, RFT1, RFA1, Row = get_RFTRI(alpha_m, AT0, AA0, AT, AA, M, delta_t)
 
     RFT0 = RFT[0]  # 貫流応答係数の初項
     RFA0 = RFA[0]  # 吸熱応答係数の初項
@@ -353,7 +353,7 @@ class ResponseFactorFactory:
             else:
                 raise KeyError()
 
-    def get_response_factors(self) -> ResponseFactor:
+    def get_response_factors(self, delta_t: float = 900.0) -> ResponseFactor:
 
         raise NotImplementedError()
 
@@ -368,7 +368,7 @@ class ResponseFactorFactoryDirect(ResponseFactorFactory):
         self._row = row
         self._n_root = n_root
 
-    def get_response_factors(self) -> ResponseFactor:
+    def get_response_factors(self, delta_t: float = 900.0) -> ResponseFactor:
 
         return ResponseFactor(
             rft0=self._rft0,
@@ -396,7 +396,7 @@ class ResponseFactorFactoryTransientEnvelope(ResponseFactorFactory):
         self._rs = rs
         self._r_o = r_o
 
-    def get_response_factors(self) -> ResponseFactor:
+    def get_response_factors(self, delta_t: float = 900.0) -> ResponseFactor:
 
         is_ground = False
 
@@ -408,7 +408,7 @@ class ResponseFactorFactoryTransientEnvelope(ResponseFactorFactory):
 
         # 応答係数
         _RFT0, _RFA0, _RFT1, _RFA1, _Row, _n_root_i_js = \
-            calc_response_factor(is_ground, c_layer_i_k_l, r_layer_i_k_l)
+            calc_response_factor(is_ground, c_layer_i_k_l, r_layer_i_k_l, delta_t)
 
         return ResponseFactor(rft0=_RFT0, rfa0=_RFA0, rft1=_RFT1, rfa1=_RFA1, row=_Row, n_root=_n_root_i_js)
 
@@ -427,7 +427,7 @@ class ResponseFactorFactoryTransientGround(ResponseFactorFactory):
         self._cs = cs
         self._rs = rs
 
-    def get_response_factors(self) -> ResponseFactor:
+    def get_response_factors(self, delta_t: float = 900.0) -> ResponseFactor:
 
         is_ground = True
 
@@ -439,7 +439,7 @@ class ResponseFactorFactoryTransientGround(ResponseFactorFactory):
 
         # 応答係数
         _RFT0, _RFA0, _RFT1, _RFA1, _Row, _n_root_i_js = \
-            calc_response_factor(is_ground, c_layer_i_k_l, r_layer_i_k_l)
+            calc_response_factor(is_ground, c_layer_i_k_l, r_layer_i_k_l, delta_t)
 
         return ResponseFactor(rft0=_RFT0, rfa0=_RFA0, rft1=_RFT1, rfa1=_RFA1, row=_Row, n_root=_n_root_i_js)
 
@@ -458,7 +458,7 @@ class ResponseFactorFactorySteady(ResponseFactorFactory):
         self._u_w = u_w
         self._r_i = r_i
 
-    def get_response_factors(self) -> ResponseFactor:
+    def get_response_factors(self, delta_t: float = 900.0) -> ResponseFactor:
 
         # 開口部の室内表面から屋外までの熱貫流率, W/m2K
         u_so = 1.0 / (1.0 / self._u_w - self._r_i)
-- 
2.43.0

