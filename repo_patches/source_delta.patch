From 31d5c37a8bcc1adf94aa045fecd23fb8fc104278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:34 +0000
Subject: [PATCH 01/53] fix: chi with own red five gets its own action index

---
 MahjongAI/draw.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/MahjongAI/draw.py b/MahjongAI/draw.py
index f90474f..d8dcbdd 100644
--- a/MahjongAI/draw.py
+++ b/MahjongAI/draw.py
@@ -244,8 +244,14 @@ class Naki(Draw):
         if self.is_chi():
             color, number, which, has_red, _, _ = self.pattern_chi()
             if has_red and number + which != 4:
+                # number is 2-4 here; two claimed positions per number remain
                 return (
-                    CHI_START + 63 + 6 * color + number * 2 + (number + which - 3) // 2
+                    CHI_START
+                    + 63
+                    + 6 * color
+                    + (number - 2) * 2
+                    + which
+                    - (which > 4 - number)
                 )
             else:
                 return CHI_START + color * 21 + number * 3 + which
-- 
2.43.0


From 0346d97c07cd5e0e5987ce4e5c15b4879dce2872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:34 +0000
Subject: [PATCH 02/53] fix: pon with own red five gets the red pon index for
 every claimed copy

---
 MahjongAI/draw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MahjongAI/draw.py b/MahjongAI/draw.py
index d8dcbdd..3a1456a 100644
--- a/MahjongAI/draw.py
+++ b/MahjongAI/draw.py
@@ -260,7 +260,7 @@ class Naki(Draw):
             color, number, which, has_red, _, acquired = self.pattern_pon()
             if color == 3:
                 return PON_START + 30 + number
-            elif has_red and acquired % 4 == 3:
+            elif has_red and acquired % 4 != 0:  # red five laid down from hand
                 return PON_START + 27 + color
             else:
                 return PON_START + 9 * color + number
-- 
2.43.0


From f0bbf77ba8350044b7a9727b419240f121a2b394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:46 +0000
Subject: [PATCH 03/53] fix: canonical pon code ignores which copies were used

---
 MahjongAI/draw.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MahjongAI/draw.py b/MahjongAI/draw.py
index 3a1456a..3d916f1 100644
--- a/MahjongAI/draw.py
+++ b/MahjongAI/draw.py
@@ -91,6 +91,8 @@ class Naki(Draw):
             code += 0x60
             if which:
                 code -= (which - 1) << 9
+        else:
+            code -= which << 9
         return code
 
     def _clean_kakan(self):
-- 
2.43.0


From 29a2e47ce99cd22595cf09134c085541ba20cb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 04/53] fix: canonical kakan code ignores source seat and
 copies used

---
 MahjongAI/draw.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/MahjongAI/draw.py b/MahjongAI/draw.py
index 3d916f1..b799b7a 100644
--- a/MahjongAI/draw.py
+++ b/MahjongAI/draw.py
@@ -96,10 +96,15 @@ class Naki(Draw):
         return code
 
     def _clean_kakan(self):
-        _, _, which, red, *_ = self.pattern_kakan()
-        code = self.naki_code & ~(0x60)
-        if not red or which:
+        _, _, which, red, exposed, _ = self.pattern_kakan()
+        # the source of the underlying pon and the copies used are irrelevant
+        code = self.naki_code & ~(0x63)
+        code -= which << 9
+        if not red:
+            code |= 0x20
+        elif exposed[0] % 4 != 0:  # red was in the exposed pon
             code |= 0x20
+            code += 1 << 9
         return code
 
     def _clean_minkan(self):
-- 
2.43.0


From 276c143c1d27d6923d30f277907a87d3f95e1a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:08 +0000
Subject: [PATCH 05/53] fix: open quad options use the canonical code of the
 claimed tile

---
 MahjongAI/decision.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/MahjongAI/decision.py b/MahjongAI/decision.py
index 4dd7032..f00757a 100644
--- a/MahjongAI/decision.py
+++ b/MahjongAI/decision.py
@@ -88,7 +88,7 @@ def _one_and_nine_mask(
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
@@ -123,7 +123,7 @@ def _two_and_eight_mask(
             decisions[p].append(NakiDecision(p, naki, False))
 
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
@@ -185,7 +185,7 @@ def _three_and_seven_mask(
             decisions[p].append(NakiDecision(p, naki, False))
 
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
@@ -263,7 +263,7 @@ def _four_and_six_mask(
             decisions[p].append(NakiDecision(p, naki, False))
 
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
@@ -317,7 +317,7 @@ def _five_mask(
                 decisions[p].append(NakiDecision(p, naki, False))
 
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1 if is_red else 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0 if is_red else 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
@@ -336,7 +336,7 @@ def _jihai_mask(player: int, hand_tensors: np.ndarray, tile_idx: int):
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
-- 
2.43.0


From 948efff7d7446aefa11d83dd4074900df45061ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:08 +0000
Subject: [PATCH 06/53] fix: offer pon with three copies in hand, and with the
 right red five

---
 MahjongAI/decision.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/MahjongAI/decision.py b/MahjongAI/decision.py
index f00757a..8b4b826 100644
--- a/MahjongAI/decision.py
+++ b/MahjongAI/decision.py
@@ -83,7 +83,7 @@ def _one_and_nine_mask(
             )
             assert naki.is_chi()
             decisions[p].append(NakiDecision(p, naki, False))
-        if hand_tensor[tile_idx] == 2.0:
+        if hand_tensor[tile_idx] >= 2.0:
             naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
@@ -117,7 +117,7 @@ def _two_and_eight_mask(
                 assert naki.is_chi()
                 decisions[p].append(NakiDecision(p, naki, False))
 
-        if hand_tensor[tile_idx] == 2.0:
+        if hand_tensor[tile_idx] >= 2.0:
             naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
@@ -179,7 +179,7 @@ def _three_and_seven_mask(
                     assert naki.is_chi()
                     decisions[p].append(NakiDecision(p, naki, False))
 
-        if hand_tensor[tile_idx] == 2.0:
+        if hand_tensor[tile_idx] >= 2.0:
             naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
@@ -257,7 +257,7 @@ def _four_and_six_mask(
                     assert naki.is_chi()
                     decisions[p].append(NakiDecision(p, naki, False))
 
-        if hand_tensor[tile_idx] == 2.0:
+        if hand_tensor[tile_idx] >= 2.0:
             naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
@@ -300,19 +300,17 @@ def _five_mask(
                 decisions[p].append(NakiDecision(p, naki, False))
 
         if player_has_red:
-            if hand_tensor[tile_idx] == 2.0:
+            if hand_tensor[tile_idx] >= 2.0:
                 naki = Naki.from_pon_info(tile_idx, 1, True, (player - p) % 4)
                 assert naki.is_pon()
                 decisions[p].append(NakiDecision(p, naki, False))
-            if black_fives == 2.0:
+            if black_fives >= 2.0:
                 naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
                 assert naki.is_pon()
                 decisions[p].append(NakiDecision(p, naki, False))
         else:
-            if hand_tensor[tile_idx] == 2.0:
-                naki = Naki.from_pon_info(
-                    tile_idx, 1 if is_red else 0, is_red, (player - p) % 4
-                )
+            if hand_tensor[tile_idx] >= 2.0:
+                naki = Naki.from_pon_info(tile_idx, 0, is_red, (player - p) % 4)
                 assert naki.is_pon()
                 decisions[p].append(NakiDecision(p, naki, False))
 
@@ -331,7 +329,7 @@ def _jihai_mask(player: int, hand_tensors: np.ndarray, tile_idx: int):
         if p == player:
             continue
 
-        if hand_tensor[tile_idx] == 2.0:
+        if hand_tensor[tile_idx] >= 2.0:
             naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
-- 
2.43.0


From f4185aec129538c60875f93479233419fa5acf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:54 +0000
Subject: [PATCH 07/53] fix: chi options with red fives look at the five, and
 at the right claimed position

---
 MahjongAI/decision.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/MahjongAI/decision.py b/MahjongAI/decision.py
index 8b4b826..36bda50 100644
--- a/MahjongAI/decision.py
+++ b/MahjongAI/decision.py
@@ -144,7 +144,7 @@ def _three_and_seven_mask(
             continue
 
         player_has_red = hand_tensors[p][34 + tile_idx // 9] > 0.0
-        black_fives = hand_tensor[tile_idx] - float(player_has_red)
+        black_fives = hand_tensor[tile_idx + 2 * coef] - float(player_has_red)
 
         if (p - player) % 4 == 1:
             if hand_tensor[tile_idx - 2 * coef] * hand_tensor[tile_idx - coef]:
@@ -206,7 +206,7 @@ def _four_and_six_mask(
             continue
 
         player_has_red = hand_tensors[p][34 + tile_idx // 9] > 0.0
-        black_fives = hand_tensor[tile_idx] - float(player_has_red)
+        black_fives = hand_tensor[tile_idx + coef] - float(player_has_red)
 
         if (p - player) % 4 == 1:
             if hand_tensor[tile_idx - 2 * coef] * hand_tensor[tile_idx - coef]:
@@ -218,16 +218,13 @@ def _four_and_six_mask(
             if hand_tensor[tile_idx - 1] * hand_tensor[tile_idx + 1]:
                 if player_has_red:
                     naki = Naki.from_chi_info(
-                        tile_idx // 9, 2 if is_four else 4, 0 if is_four else 2, True
+                        tile_idx // 9, 2 if is_four else 4, 1, True
                     )
                     assert naki.is_chi()
                     decisions[p].append(NakiDecision(p, naki, False))
                     if black_fives > 0:
                         naki = Naki.from_chi_info(
-                            tile_idx // 9,
-                            2 if is_four else 4,
-                            0 if is_four else 2,
-                            False,
+                            tile_idx // 9, 2 if is_four else 4, 1, False
                         )
                         assert naki.is_chi()
                         decisions[p].append(NakiDecision(p, naki, False))
-- 
2.43.0


From 9353071c3c9dd78194dae932116973569a694a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:39 +0000
Subject: [PATCH 08/53] fix: discard tokens carry the discard event type

---
 MahjongAI/process_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 5df14da..e0a6ccf 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -595,7 +595,7 @@ def discard2idx(who: int, tile_idx: int, is_tsumogiri: bool):
     assert 0 <= tile_idx < 37
     return (
         EventStateTypes.DISCARD << 13
-        | EventTypes.NAKI << 10
+        | EventTypes.DISCARD << 10
         | who << 8
         | int(is_tsumogiri) << 7
         | tile_idx
-- 
2.43.0


From f1f3296bf987a00f5487b9870cc068bcb90d7518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:39 +0000
Subject: [PATCH 09/53] fix: a revealed red five dora indicator also leaves the
 unseen red fives

---
 MahjongAI/process_xml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index e0a6ccf..cdce1f2 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -124,13 +124,13 @@ def process(file_path: str, verbose: bool = False):
 
             if eventtype == "DORA":
                 tile = int(event["attr"]["hai"])
-                tile_idx = TILE2IDX[tile][0]
+                tile_idx = TILE2IDX[tile]
                 doras = doras[:] + [tile]
                 remaining_tiles[tile_idx] -= 1
                 for pov in remaining_tiles_pov:
                     pov[tile_idx] -= 1
                 remaining_tsumo -= 1
-                encoding_tokens.append(new_dora2idx(tile_idx))
+                encoding_tokens.append(new_dora2idx(tile_idx[0]))
 
             elif eventtype == "REACH":
                 assert curr_halfturn is not None
-- 
2.43.0


From 16e68e8ac4417d977f0282ff522d73fbc01ce57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:39 +0000
Subject: [PATCH 10/53] fix: only drawn tiles count down the remaining draws

---
 MahjongAI/process_xml.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index cdce1f2..fb9b32b 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -129,7 +129,6 @@ def process(file_path: str, verbose: bool = False):
                 remaining_tiles[tile_idx] -= 1
                 for pov in remaining_tiles_pov:
                     pov[tile_idx] -= 1
-                remaining_tsumo -= 1
                 encoding_tokens.append(new_dora2idx(tile_idx[0]))
 
             elif eventtype == "REACH":
@@ -199,9 +198,6 @@ def process(file_path: str, verbose: bool = False):
                                 decision.executed = True
                                 break
 
-                if not naki.is_chi() and not naki.is_pon():
-                    remaining_tsumo -= 1
-
                 exposed, acquired = naki.get_exposed()
                 exposed_idx = TILE2IDX[exposed]
 
-- 
2.43.0


From 01e2f93dbf83019a0377793a34d6fe1f5824f579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:39 +0000
Subject: [PATCH 11/53] fix: a win on the tile drawn after a quad counts as
 dead wall draw

---
 MahjongAI/process_xml.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index fb9b32b..b917f56 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -106,6 +106,7 @@ def process(file_path: str, verbose: bool = False):
         is_menzen = [1] * 4
         curr_halfturn = None
         cycles = 0
+        is_rinshan = False  # next draw comes from the dead wall
         acquired = None
         result_idx = None
 
@@ -299,6 +300,7 @@ def process(file_path: str, verbose: bool = False):
                 if naki.is_minkan() or naki.is_ankan() or naki.is_kakan():
                     cycles += 1
                     acquired = None
+                    is_rinshan = True
 
             elif eventtype[0] in ["T", "U", "V", "W"]:
                 assert acquired is None
@@ -331,8 +333,8 @@ def process(file_path: str, verbose: bool = False):
                     doras=doras,
                     reaches=reaches,
                     ippatsu=ippatsu,
-                    is_haitei=(remaining_tsumo == 0),
-                    is_rinshan=False,
+                    is_haitei=(remaining_tsumo == 0 and not is_rinshan),
+                    is_rinshan=is_rinshan,
                     double_reaches=double_reaches,
                     is_tenhou=(cycles == 1),
                     is_chiihou=(2 <= cycles <= 4 and min(is_menzen)),
@@ -342,6 +344,8 @@ def process(file_path: str, verbose: bool = False):
                     honba=honba,
                 )
 
+                is_rinshan = False
+
                 # check if reach is possible
                 reach_decisions = []
                 if not reaches[player] and is_menzen[player]:
-- 
2.43.0


From f996b4e0005ec5fe8bad3585268ce95571f924d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:39 +0000
Subject: [PATCH 12/53] fix: a win on the last discard counts as houtei

---
 MahjongAI/utils/agari.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/utils/agari.py b/MahjongAI/utils/agari.py
index 7e2b2d7..085f6f5 100644
--- a/MahjongAI/utils/agari.py
+++ b/MahjongAI/utils/agari.py
@@ -124,8 +124,8 @@ def evaluate_ron(
             is_ippatsu=ippatsu[p],
             is_rinshan=False,
             is_chankan=is_chankan,
-            is_haitei=is_haitei,
-            is_houtei=False,
+            is_haitei=False,
+            is_houtei=is_haitei,
             is_daburu_riichi=double_reaches[p],
             is_renhou=is_renhou[p],
             player_wind=player_wind,
-- 
2.43.0


From 61f74f64e62c0041278e974dcc0d06d992eb5bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:39 +0000
Subject: [PATCH 13/53] fix: every call ends the first uninterrupted go-around

---
 MahjongAI/process_xml.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index b917f56..b4d39b6 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -166,8 +166,7 @@ def process(file_path: str, verbose: bool = False):
 
                 naki = Naki(int(event["attr"]["m"]))
                 player = int(event["attr"]["who"])
-                from_who = naki.from_who()
-                cycles += (player - from_who) % 4
+                cycles += 4  # any call ends the uninterrupted first go-around
                 melds[player] = melds[player][:] + [naki]
 
                 encoding_tokens.append(naki2idx(player, naki))
-- 
2.43.0


From 3ed086f7c009ff96410a44cf761d83fadb10f0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:39 +0000
Subject: [PATCH 14/53] fix: renhou is no winning hand under the rules in force

---
 MahjongAI/process_xml.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index b4d39b6..6795a4b 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -466,10 +466,7 @@ def process(file_path: str, verbose: bool = False):
                     is_chankan=False,
                     is_haitei=(remaining_tsumo == 0),
                     double_reaches=double_reaches,
-                    is_renhou=[
-                        (cycles <= 3 and player >= cycles and min(is_menzen))
-                        for _ in range(4)
-                    ],
+                    is_renhou=[False] * 4,
                     player_wind=roundinfo.player_wind,
                     round_wind=roundinfo.round_wind,
                     kyotaku=kyotaku,
-- 
2.43.0


From 09635061ea6a41c10f80d965f885a89c72ca0536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:39 +0000
Subject: [PATCH 15/53] fix: ippatsu lasts from the accepted riichi to the next
 call or own discard

---
 MahjongAI/process_xml.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 6795a4b..ac6c7d9 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -156,9 +156,8 @@ def process(file_path: str, verbose: bool = False):
                         double_reaches = double_reaches[:]
                         double_reaches[player] = 1
                     encoding_tokens.append(reach2idx(player))
-
-                ippatsu = ippatsu[:]
-                ippatsu[player] = 1
+                    ippatsu = ippatsu[:]
+                    ippatsu[player] = 1
 
             elif eventtype == "N":
                 assert curr_halfturn is not None
@@ -319,10 +318,6 @@ def process(file_path: str, verbose: bool = False):
                 hand_tensors_full[player][tile_idx] += 1.0
                 assert int(hand_tensors[player][:34].sum()) % 3 == 2
 
-                if ippatsu[player]:
-                    ippatsu = ippatsu[:]
-                    ippatsu[player] = 0
-
                 # check if tsumo is possible
                 agari_decisions = evaluate_tsumo(
                     player=player,
@@ -414,8 +409,6 @@ def process(file_path: str, verbose: bool = False):
 
                 halfturns.append(halfturn)
                 curr_halfturn = halfturn  # carry over
-                if sum(ippatsu):
-                    ippatsu = [0] * 4
 
             elif eventtype[0] in ["D", "E", "F", "G"]:
                 assert acquired is not None
@@ -439,6 +432,10 @@ def process(file_path: str, verbose: bool = False):
                 )
                 halfturns.append(half_turn)
 
+                if ippatsu[player]:
+                    ippatsu = ippatsu[:]
+                    ippatsu[player] = 0
+
                 hands[player, tile] = 0.0
                 hand_tensors[player][tile_idx] -= 1.0
                 hand_tensors_full[player][tile_idx] -= 1.0
-- 
2.43.0


From 6659329f3f4062a31f0a1ade6a4021c9743d367d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:39 +0000
Subject: [PATCH 16/53] fix: offer an added quad when the fourth tile is in
 hand

---
 MahjongAI/process_xml.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index ac6c7d9..6730cfa 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -361,13 +361,15 @@ def process(file_path: str, verbose: bool = False):
                 for meld in melds[player]:
                     if meld.is_pon():
                         color, number, *_ = meld.pattern_pon()
-                        if hands[player, 9 * color + number] == 1.0:
+                        kind = 9 * color + number
+                        copies = hands[player, 4 * kind : 4 * kind + 4]
+                        if copies.any():
+                            # which = 1 if the red five was in the exposed pon
+                            which = int(number == 4 and color != 3 and not copies[0])
                             naki_decisions.append(
                                 NakiDecision(
                                     player,
-                                    Naki.from_kakan_info(
-                                        9 * color + number, 0
-                                    ),  # TODO get accurate "which" value
+                                    Naki.from_kakan_info(kind, which),
                                     executed=False,
                                 )
                             )
-- 
2.43.0


From 7dfd65432ed543fe05e415cc92e491d0f77b99bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:39 +0000
Subject: [PATCH 17/53] fix: the winner's own win option is marked as taken

---
 MahjongAI/process_xml.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 6730cfa..5d133d9 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -290,10 +290,8 @@ def process(file_path: str, verbose: bool = False):
                     halfturns.append(curr_halfturn)
 
                 # TODO: add logic for ankan kokushi ron
-                if naki.is_ankan():
-                    pass
-
-                curr_halfturn = None
+                else:
+                    curr_halfturn = None
 
                 if naki.is_minkan() or naki.is_ankan() or naki.is_kakan():
                     cycles += 1
@@ -517,7 +515,12 @@ def process(file_path: str, verbose: bool = False):
                 result.append(
                     AgariResult(list(map(int, event["attr"]["sc"].split(","))))
                 )
-                # TODO: make decision executed = True
+                winner = int(event["attr"]["who"])
+                decisions = curr_halfturn.decisions
+                if winner != int(event["attr"]["fromWho"]):
+                    decisions = decisions[winner]
+                for decision in decisions[DECISION_AGARI_IDX]:
+                    decision.executed = True
 
             elif event["event"] == "RYUUKYOKU":
                 result.append(
-- 
2.43.0


From 1bd49692ce8c5f1de164cb0f5f8464e9df422139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 18/53] fix: riichi needs 1000 points and four drawable tiles

---
 MahjongAI/process_xml.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 5d133d9..ddc3249 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -340,7 +340,12 @@ def process(file_path: str, verbose: bool = False):
 
                 # check if reach is possible
                 reach_decisions = []
-                if not reaches[player] and is_menzen[player]:
+                if (
+                    not reaches[player]
+                    and is_menzen[player]
+                    and scores[player] >= 10
+                    and remaining_tsumo >= 4
+                ):
                     shanten = shanten_solver.calculate_shanten(
                         hand_tensors[player][:34]
                     )
-- 
2.43.0


From b94d00de30cad0e8dad37b11bb60a8533497e05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 19/53] fix: no call options after riichi or on the last
 discard

---
 MahjongAI/process_xml.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index ddc3249..465beac 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -487,7 +487,9 @@ def process(file_path: str, verbose: bool = False):
                     if p == player:
                         assert len(decision_lst) == 0
                         continue
-                    post_decisions[p][DECISION_NAKI_IDX] = decision_lst
+                    # no calls after riichi or on the last discard
+                    if not reaches[p] and remaining_tsumo > 0:
+                        post_decisions[p][DECISION_NAKI_IDX] = decision_lst
 
                 half_turn = PostTurn(
                     player=player,
-- 
2.43.0


From 976ce84e23738f6dac1fcf01ec518da4d72c495f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 20/53] fix: no quad options without a replacement tile

---
 MahjongAI/process_xml.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 465beac..cc05b65 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -354,8 +354,10 @@ def process(file_path: str, verbose: bool = False):
 
                 # check if naki is possible
                 naki_decisions = []
-                # check if ankan is possible
+                # check if ankan is possible, quads need a replacement tile
                 for i in np.where(hand_tensors[player] == 4.0)[0]:
+                    if remaining_tsumo == 0:
+                        break
                     naki_decisions.append(
                         NakiDecision(player, Naki.from_ankan_info(i), executed=False)
                     )
@@ -366,7 +368,7 @@ def process(file_path: str, verbose: bool = False):
                         color, number, *_ = meld.pattern_pon()
                         kind = 9 * color + number
                         copies = hands[player, 4 * kind : 4 * kind + 4]
-                        if copies.any():
+                        if copies.any() and remaining_tsumo > 0:
                             # which = 1 if the red five was in the exposed pon
                             which = int(number == 4 and color != 3 and not copies[0])
                             naki_decisions.append(
-- 
2.43.0


From 2f07a3de4d1d0a75d3074511abec1991dda91b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 21/53] fix: closed quads after riichi only with the drawn tile
 and unchanged waits

---
 MahjongAI/process_xml.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index cc05b65..bb63719 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -358,6 +358,10 @@ def process(file_path: str, verbose: bool = False):
                 for i in np.where(hand_tensors[player] == 4.0)[0]:
                     if remaining_tsumo == 0:
                         break
+                    if reaches[player] and not _keeps_waits(
+                        hand_tensors[player], i, tile_idx[0]
+                    ):
+                        continue
                     naki_decisions.append(
                         NakiDecision(player, Naki.from_ankan_info(i), executed=False)
                     )
@@ -551,6 +555,29 @@ def process(file_path: str, verbose: bool = False):
     return all_halfturns, all_encoding_tokens
 
 
+def _keeps_waits(hand_tensor: np.ndarray, quad: int, drawn: int):
+    # after riichi only the tile just drawn may complete a closed quad,
+    # and the waits have to stay the same
+    if quad != drawn:
+        return False
+    before = hand_tensor[:34].copy()
+    before[drawn] -= 1
+    after = hand_tensor[:34].copy()
+    after[quad] = 0
+    return _waits(before) == _waits(after)
+
+
+def _waits(hand: np.ndarray):
+    waits = []
+    for i in range(34):
+        if hand[i] < 4:
+            hand[i] += 1
+            if shanten_solver.calculate_shanten(hand) == -1:
+                waits.append(i)
+            hand[i] -= 1
+    return waits
+
+
 def _get_rounds(file_path: str):
     with open(file_path, "rb") as file:
         tree = ET.parse(file)
-- 
2.43.0


From 606c48ac3fe5a6841fb8830501714184367cc255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 22/53] fix: win evaluation names the winning tile by a copy
 the evaluated hand has

---
 MahjongAI/utils/agari.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/utils/agari.py b/MahjongAI/utils/agari.py
index 085f6f5..496e254 100644
--- a/MahjongAI/utils/agari.py
+++ b/MahjongAI/utils/agari.py
@@ -138,7 +138,7 @@ def evaluate_ron(
         # TODO: use Agari.is_agari instead for better performance
         result: HandResponse = hand_calculator.estimate_hand_value(
             tiles=tiles,
-            win_tile=discarded_tile,
+            win_tile=next(t for t in tiles if t // 4 == discarded_tile_idx),
             melds=melds,
             dora_indicators=doras,
             config=config,
@@ -244,7 +244,7 @@ def evaluate_tsumo(
 
     result: HandResponse = hand_calculator.estimate_hand_value(
         tiles=tiles,
-        win_tile=tsumo_tile,
+        win_tile=next(t for t in tiles if t // 4 == tsumo_tile // 4),
         melds=melds,
         dora_indicators=doras,
         config=config,
-- 
2.43.0


From 71ce9e2d5a4a3e8213fe0775bc198fbff34adfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 23/53] fix: win evaluation uses the seat wind of the winner
 and the real round wind

---
 MahjongAI/utils/agari.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/MahjongAI/utils/agari.py b/MahjongAI/utils/agari.py
index 496e254..6e51f35 100644
--- a/MahjongAI/utils/agari.py
+++ b/MahjongAI/utils/agari.py
@@ -3,6 +3,7 @@ import sys
 
 sys.path.append("../../")
 
+from mahjong.constants import EAST
 from mahjong.tile import TilesConverter
 from mahjong.hand_calculating.hand import HandCalculator
 from mahjong.hand_calculating.hand_response import HandResponse
@@ -128,8 +129,8 @@ def evaluate_ron(
             is_houtei=is_haitei,
             is_daburu_riichi=double_reaches[p],
             is_renhou=is_renhou[p],
-            player_wind=player_wind,
-            round_wind=round_wind,
+            player_wind=EAST + (p - player_wind) % 4,
+            round_wind=EAST + round_wind,
             kyoutaku_number=kyotaku,
             tsumi_number=honba,
             options=OPTIONS,
@@ -235,8 +236,8 @@ def evaluate_tsumo(
         is_tenhou=is_tenhou,
         is_chiihou=is_chiihou,
         is_renhou=False,
-        player_wind=player_wind,
-        round_wind=round_wind,
+        player_wind=EAST + (player - player_wind) % 4,
+        round_wind=EAST + round_wind,
         kyoutaku_number=kyotaku,
         tsumi_number=honba,
         options=OPTIONS,
-- 
2.43.0


From 6711ed9ff0973560f043c097e131f9344e4849ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:34 +0000
Subject: [PATCH 24/53] fix: every decision keeps its own snapshot, reactions
 the reacting player's view

---
 MahjongAI/agents/transformer.py              |  8 ++-
 MahjongAI/agents/transformer_conv.py         |  8 ++-
 MahjongAI/agents/transformer_conv_large.py   |  8 ++-
 MahjongAI/agents/transformer_conv_ordered.py |  8 ++-
 MahjongAI/process_xml.py                     | 76 ++++++++------------
 MahjongAI/turn.py                            |  5 +-
 6 files changed, 51 insertions(+), 62 deletions(-)

diff --git a/MahjongAI/agents/transformer.py b/MahjongAI/agents/transformer.py
index a677569..f1aa4f1 100644
--- a/MahjongAI/agents/transformer.py
+++ b/MahjongAI/agents/transformer.py
@@ -944,9 +944,6 @@ class TransformerTensorProcessor:
                 0
             )  # Shape: (1, 150)
 
-            # Create state object tensor
-            x1, x2, x3 = self._convert_state_obj_to_tensors(turn.stateObj)
-
             # TODO: instead of going player by player, go decision type by decision type
             action_player = turn.player
             for player_idx in players[action_player + 1 :] + players[:action_player]:
@@ -987,6 +984,11 @@ class TransformerTensorProcessor:
                     else:
                         raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
+                # Create state object tensor from the reacting player's own view
+                x1, x2, x3 = self._convert_state_obj_to_tensors(
+                    turn.stateObjs[player_idx]
+                )
+
                 X_embeddings.append(masked_encoding_token_tensor)
                 state_obj_tensors.append((x1, x2, x3))
                 filter_tensors.append(decision_mask)
diff --git a/MahjongAI/agents/transformer_conv.py b/MahjongAI/agents/transformer_conv.py
index 04d844f..360c73f 100644
--- a/MahjongAI/agents/transformer_conv.py
+++ b/MahjongAI/agents/transformer_conv.py
@@ -923,9 +923,6 @@ class TransformerTensorProcessor:
                 0
             )  # Shape: (1, 150)
 
-            # Create state object tensor
-            x1, x2, x3 = self._convert_state_obj_to_tensors(turn.stateObj)
-
             # TODO: instead of going player by player, go decision type by decision type
             action_player = turn.player
             for player_idx in players[action_player + 1 :] + players[:action_player]:
@@ -966,6 +963,11 @@ class TransformerTensorProcessor:
                     else:
                         raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
+                # Create state object tensor from the reacting player's own view
+                x1, x2, x3 = self._convert_state_obj_to_tensors(
+                    turn.stateObjs[player_idx]
+                )
+
                 X_embeddings.append(masked_encoding_token_tensor)
                 state_obj_tensors.append((x1, x2, x3))
                 filter_tensors.append(decision_mask)
diff --git a/MahjongAI/agents/transformer_conv_large.py b/MahjongAI/agents/transformer_conv_large.py
index 75bbec1..7f5ac41 100644
--- a/MahjongAI/agents/transformer_conv_large.py
+++ b/MahjongAI/agents/transformer_conv_large.py
@@ -923,9 +923,6 @@ class TransformerTensorProcessor:
                 0
             )  # Shape: (1, 150)
 
-            # Create state object tensor
-            x1, x2, x3 = self._convert_state_obj_to_tensors(turn.stateObj)
-
             # TODO: instead of going player by player, go decision type by decision type
             action_player = turn.player
             for player_idx in players[action_player + 1 :] + players[:action_player]:
@@ -966,6 +963,11 @@ class TransformerTensorProcessor:
                     else:
                         raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
+                # Create state object tensor from the reacting player's own view
+                x1, x2, x3 = self._convert_state_obj_to_tensors(
+                    turn.stateObjs[player_idx]
+                )
+
                 X_embeddings.append(masked_encoding_token_tensor)
                 state_obj_tensors.append((x1, x2, x3))
                 filter_tensors.append(decision_mask)
diff --git a/MahjongAI/agents/transformer_conv_ordered.py b/MahjongAI/agents/transformer_conv_ordered.py
index 1c146c8..75b7e6d 100644
--- a/MahjongAI/agents/transformer_conv_ordered.py
+++ b/MahjongAI/agents/transformer_conv_ordered.py
@@ -1048,9 +1048,6 @@ class TransformerTensorProcessor:
                 0
             )  # Shape: (1, 150)
 
-            # Create state object tensor
-            x1, x2, x3 = self._convert_state_obj_to_tensors(turn.stateObj)
-
             # Iterate through players in order
             action_player = turn.player
             ordered_players = players[action_player + 1 :] + players[:action_player]
@@ -1100,6 +1097,11 @@ class TransformerTensorProcessor:
                     else:
                         raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
+                # Create state object tensor from the reacting player's own view
+                x1, x2, x3 = self._convert_state_obj_to_tensors(
+                    turn.stateObjs[player_idx]
+                )
+
                 X_embeddings.append(masked_encoding_token_tensor)
                 state_obj_tensors.append((x1, x2, x3))
                 filter_tensors.append(decision_mask)
diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index bb63719..969906c 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -110,6 +110,30 @@ def process(file_path: str, verbose: bool = False):
         acquired = None
         result_idx = None
 
+        def snapshot(player: int):
+            # later events must not change what a decision recorded
+            return StateObject(
+                remaining_turns=remaining_tsumo,
+                hand_tensor=hand_tensors[player].copy(),
+                remaining_tiles=remaining_tiles.copy(),
+                remaining_tiles_pov=remaining_tiles_pov[player].copy(),
+                sutehai_tensors=sutehai_tensors.copy(),
+                is_menzen=is_menzen[:],
+                double_reaches=double_reaches[:],
+                reaches=reaches[:],
+                ippatsu=ippatsu[:],
+                melds=[meld_lst[:] for meld_lst in melds],
+                scores=scores[:],
+                kyotaku=kyotaku,
+                honba=honba,
+                dora=doras[:],
+                parent_tensor=parent_tensor.copy(),
+                rounds_remaining=rounds_remaining,
+                parent_rounds_remaining=parent_rounds_remaining[:],
+                remaining_tsumo=remaining_tsumo,
+                player=player,
+            )
+
         if verbose:
             print(f"Scores: {scores}")
             print(f"Parent: {parent}")
@@ -215,28 +239,6 @@ def process(file_path: str, verbose: bool = False):
                 if acquired is not None:
                     hand_tensors_full[player][TILE2IDX[acquired]] += 1.0
 
-                stateObj = StateObject(
-                    remaining_turns=remaining_tsumo,
-                    hand_tensor=hand_tensors[player],
-                    remaining_tiles=remaining_tiles,
-                    remaining_tiles_pov=remaining_tiles_pov[player][:],
-                    sutehai_tensors=np.copy(sutehai_tensors),
-                    is_menzen=is_menzen,
-                    double_reaches=double_reaches,
-                    reaches=reaches,  # share same reach list
-                    ippatsu=ippatsu,  # share same ippatsu list
-                    melds=melds,
-                    scores=scores,
-                    kyotaku=kyotaku,
-                    honba=honba,
-                    dora=doras,  # share same dora list
-                    parent_tensor=parent_tensor,
-                    rounds_remaining=rounds_remaining,
-                    parent_rounds_remaining=parent_rounds_remaining,
-                    remaining_tsumo=remaining_tsumo,
-                    player=player,
-                )
-
                 if naki.from_who() != 0:
                     is_menzen[player] = 0
                 if sum(ippatsu):
@@ -282,7 +284,7 @@ def process(file_path: str, verbose: bool = False):
 
                     curr_halfturn = PostTurn(
                         player=player,
-                        stateObj=stateObj,
+                        stateObjs=[snapshot(p) for p in range(4)],
                         decisions=new_post_decisions,
                         encoding_idx=len(encoding_tokens),
                     )
@@ -389,31 +391,9 @@ def process(file_path: str, verbose: bool = False):
                     naki_decisions,
                 ]
 
-                stateObj = StateObject(
-                    remaining_turns=remaining_tsumo,
-                    hand_tensor=hand_tensors[player],
-                    remaining_tiles=remaining_tiles,
-                    remaining_tiles_pov=remaining_tiles_pov[player][:],
-                    sutehai_tensors=np.copy(sutehai_tensors),
-                    is_menzen=is_menzen,
-                    double_reaches=double_reaches,
-                    reaches=reaches,  # share same reach list
-                    ippatsu=ippatsu,  # share same ippatsu list
-                    melds=melds,
-                    scores=scores,
-                    kyotaku=kyotaku,
-                    honba=honba,
-                    dora=doras,  # share same dora list
-                    parent_tensor=parent_tensor,
-                    rounds_remaining=rounds_remaining,
-                    parent_rounds_remaining=parent_rounds_remaining,
-                    remaining_tsumo=remaining_tsumo,
-                    player=player,
-                )
-
                 halfturn = DuringTurn(
                     player=player,
-                    stateObj=stateObj,
+                    stateObj=snapshot(player),
                     decisions=during_decisions,
                     encoding_idx=len(encoding_tokens),
                 )
@@ -437,7 +417,7 @@ def process(file_path: str, verbose: bool = False):
 
                 half_turn = DiscardTurn(
                     player=player,
-                    stateObj=stateObj,
+                    stateObj=snapshot(player),
                     discarded_tile=tile,
                     encoding_idx=len(encoding_tokens),
                 )
@@ -499,7 +479,7 @@ def process(file_path: str, verbose: bool = False):
 
                 half_turn = PostTurn(
                     player=player,
-                    stateObj=stateObj,
+                    stateObjs=[snapshot(p) for p in range(4)],
                     decisions=post_decisions,
                     encoding_idx=len(encoding_tokens),
                 )
diff --git a/MahjongAI/turn.py b/MahjongAI/turn.py
index 6b10a21..24f81e6 100644
--- a/MahjongAI/turn.py
+++ b/MahjongAI/turn.py
@@ -61,11 +61,12 @@ class PostTurn(HalfTurn):
     def __init__(
         self,
         player: int,
-        stateObj: StateObject,
+        stateObjs: List[StateObject],  # one per player, as each of them sees it
         decisions: List[List[List[Decision]]],
         encoding_idx: int,
     ):
-        super().__init__(player, HalfTurn.POST, stateObj, encoding_idx)
+        super().__init__(player, HalfTurn.POST, stateObjs[player], encoding_idx)
+        self.stateObjs = stateObjs
         self.decisions = decisions
 
     def __repr__(self):
-- 
2.43.0


From 929895c11a9ea806e8befd9e5b8dcf0b103c4413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:34 +0000
Subject: [PATCH 25/53] fix: reactions see the discard they react to in the
 history

---
 MahjongAI/process_xml.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 969906c..1ede702 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -477,6 +477,10 @@ def process(file_path: str, verbose: bool = False):
                     if not reaches[p] and remaining_tsumo > 0:
                         post_decisions[p][DECISION_NAKI_IDX] = decision_lst
 
+                encoding_tokens.append(
+                    discard2idx(player, tile_idx[0], tile == acquired)
+                )
+
                 half_turn = PostTurn(
                     player=player,
                     stateObjs=[snapshot(p) for p in range(4)],
@@ -486,9 +490,6 @@ def process(file_path: str, verbose: bool = False):
                 halfturns.append(half_turn)
                 curr_halfturn = half_turn  # carry over
 
-                encoding_tokens.append(
-                    discard2idx(player, tile_idx[0], tile == acquired)
-                )
                 acquired = None
 
             elif eventtype == "AGARI" or eventtype == "RYUUKYOKU":
-- 
2.43.0


From 0a86ac34dbda1963be894dfbfc8758ea0d980020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 26/53] fix: no win on a discard while any wait is among the
 own discards

---
 MahjongAI/utils/agari.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/MahjongAI/utils/agari.py b/MahjongAI/utils/agari.py
index 6e51f35..1fba114 100644
--- a/MahjongAI/utils/agari.py
+++ b/MahjongAI/utils/agari.py
@@ -3,6 +3,7 @@ import sys
 
 sys.path.append("../../")
 
+from mahjong.agari import Agari
 from mahjong.constants import EAST
 from mahjong.tile import TilesConverter
 from mahjong.hand_calculating.hand import HandCalculator
@@ -148,12 +149,28 @@ def evaluate_ron(
         if verbose:
             print(result)
 
-        if result.error is None:
+        # any other wait among the own discards makes the player furiten as well
+        if result.error is None and not _discarded_wait(
+            hand_tensor, melds, sutehai_tensor[p]
+        ):
             rons[p] = AgariDecision(p, False)
 
     return rons
 
 
+def _discarded_wait(hand_tensor, melds, sutehai) -> bool:
+    counts = [int(n) for n in hand_tensor[:34]]
+    open_sets = [meld.tiles_34 for meld in melds]
+    for i in np.where(sutehai[:34] > 0)[0]:
+        if counts[i] < 4:
+            counts[i] += 1
+            is_wait = Agari.is_agari(counts, open_sets)
+            counts[i] -= 1
+            if is_wait:
+                return True
+    return False
+
+
 def evaluate_tsumo(
     player,
     hand_tensors_full: List[np.ndarray],
-- 
2.43.0


From fc8eabb7fa5752e3b86af729842050a2a82f4771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 27/53] fix: no win on a discard after letting a completing
 tile pass

---
 MahjongAI/process_xml.py | 6 ++++++
 MahjongAI/utils/agari.py | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 1ede702..6c23026 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -107,6 +107,7 @@ def process(file_path: str, verbose: bool = False):
         curr_halfturn = None
         cycles = 0
         is_rinshan = False  # next draw comes from the dead wall
+        missed_rons = [0] * 4  # temporary furiten
         acquired = None
         result_idx = None
 
@@ -274,6 +275,7 @@ def process(file_path: str, verbose: bool = False):
                         round_wind=roundinfo.round_wind,
                         kyotaku=kyotaku,
                         honba=honba,
+                        missed_rons=missed_rons,
                     )
 
                     for decision in decisions:
@@ -318,6 +320,9 @@ def process(file_path: str, verbose: bool = False):
                 hand_tensors_full[player][tile_idx] += 1.0
                 assert int(hand_tensors[player][:34].sum()) % 3 == 2
 
+                if not reaches[player]:
+                    missed_rons[player] = 0
+
                 # check if tsumo is possible
                 agari_decisions = evaluate_tsumo(
                     player=player,
@@ -459,6 +464,7 @@ def process(file_path: str, verbose: bool = False):
                     round_wind=roundinfo.round_wind,
                     kyotaku=kyotaku,
                     honba=honba,
+                    missed_rons=missed_rons,
                 )
 
                 for ron in rons:
diff --git a/MahjongAI/utils/agari.py b/MahjongAI/utils/agari.py
index 1fba114..ecc1e3a 100644
--- a/MahjongAI/utils/agari.py
+++ b/MahjongAI/utils/agari.py
@@ -56,8 +56,10 @@ def evaluate_ron(
     round_wind: int,
     kyotaku: int,
     honba: int,
+    missed_rons: List[int] = None,
     verbose: bool = False,
 ) -> List[AgariDecision]:
+    # missed_rons: players who let a completing tile pass, updated for the next one
     rons = [None for _ in range(4)]
     discarded_tile_idx = TILE2IDX[discarded_tile][0]
 
@@ -149,6 +151,11 @@ def evaluate_ron(
         if verbose:
             print(result)
 
+        if missed_rons is not None and result.error != HandCalculator.ERR_HAND_NOT_WINNING:
+            if missed_rons[p]:
+                continue
+            missed_rons[p] = 1
+
         # any other wait among the own discards makes the player furiten as well
         if result.error is None and not _discarded_wait(
             hand_tensor, melds, sutehai_tensor[p]
-- 
2.43.0


From ae358ae3ab8840308d6b92d1d94df20454307759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 28/53] fix: own-turn labels are the action taken, not the
 option list index

---
 MahjongAI/agents/transformer.py              | 10 +++++-----
 MahjongAI/agents/transformer_conv.py         | 10 +++++-----
 MahjongAI/agents/transformer_conv_large.py   | 10 +++++-----
 MahjongAI/agents/transformer_conv_ordered.py | 10 +++++-----
 4 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/MahjongAI/agents/transformer.py b/MahjongAI/agents/transformer.py
index f1aa4f1..afa0504 100644
--- a/MahjongAI/agents/transformer.py
+++ b/MahjongAI/agents/transformer.py
@@ -819,7 +819,7 @@ class TransformerTensorProcessor:
             filter_tensor = torch.zeros(71, dtype=torch.float32, device=device)
             filter_tensor[0] = 1.0  # pass
 
-            decision_idx = 0
+            result = 0
 
             for decision_idx, decision_type in enumerate(turn.decisions):
                 if not decision_type:
@@ -830,12 +830,12 @@ class TransformerTensorProcessor:
                 if decision_idx == DECISION_AGARI_IDX:
                     filter_tensor[1] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 1
+                        result = 1
 
                 elif decision_idx == DECISION_REACH_IDX:
                     filter_tensor[2] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 2
+                        result = 2
 
                 elif decision_idx == DECISION_NAKI_IDX:
                     for decision in decision_type:
@@ -844,12 +844,12 @@ class TransformerTensorProcessor:
                         idx = meld.get_during_turn_filter_idx()
                         filter_tensor[idx] = 1.0
                         if decision.executed:
-                            decision_idx = idx
+                            result = idx
 
                 else:
                     raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
-            y.append(decision_idx)
+            y.append(result)
             filter_tensors.append(filter_tensor)  # Shape: (71,)
 
         encoding_tokens_batch = (
diff --git a/MahjongAI/agents/transformer_conv.py b/MahjongAI/agents/transformer_conv.py
index 360c73f..a3a48f5 100644
--- a/MahjongAI/agents/transformer_conv.py
+++ b/MahjongAI/agents/transformer_conv.py
@@ -798,7 +798,7 @@ class TransformerTensorProcessor:
             filter_tensor = torch.zeros(71, dtype=torch.float32, device=device)
             filter_tensor[0] = 1.0  # pass
 
-            decision_idx = 0
+            result = 0
 
             for decision_idx, decision_type in enumerate(turn.decisions):
                 if not decision_type:
@@ -809,12 +809,12 @@ class TransformerTensorProcessor:
                 if decision_idx == DECISION_AGARI_IDX:
                     filter_tensor[1] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 1
+                        result = 1
 
                 elif decision_idx == DECISION_REACH_IDX:
                     filter_tensor[2] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 2
+                        result = 2
 
                 elif decision_idx == DECISION_NAKI_IDX:
                     for decision in decision_type:
@@ -823,12 +823,12 @@ class TransformerTensorProcessor:
                         idx = meld.get_during_turn_filter_idx()
                         filter_tensor[idx] = 1.0
                         if decision.executed:
-                            decision_idx = idx
+                            result = idx
 
                 else:
                     raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
-            y.append(decision_idx)
+            y.append(result)
             filter_tensors.append(filter_tensor)  # Shape: (71,)
 
         encoding_tokens_batch = (
diff --git a/MahjongAI/agents/transformer_conv_large.py b/MahjongAI/agents/transformer_conv_large.py
index 7f5ac41..4505dbe 100644
--- a/MahjongAI/agents/transformer_conv_large.py
+++ b/MahjongAI/agents/transformer_conv_large.py
@@ -798,7 +798,7 @@ class TransformerTensorProcessor:
             filter_tensor = torch.zeros(71, dtype=torch.float32, device=device)
             filter_tensor[0] = 1.0  # pass
 
-            decision_idx = 0
+            result = 0
 
             for decision_idx, decision_type in enumerate(turn.decisions):
                 if not decision_type:
@@ -809,12 +809,12 @@ class TransformerTensorProcessor:
                 if decision_idx == DECISION_AGARI_IDX:
                     filter_tensor[1] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 1
+                        result = 1
 
                 elif decision_idx == DECISION_REACH_IDX:
                     filter_tensor[2] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 2
+                        result = 2
 
                 elif decision_idx == DECISION_NAKI_IDX:
                     for decision in decision_type:
@@ -823,12 +823,12 @@ class TransformerTensorProcessor:
                         idx = meld.get_during_turn_filter_idx()
                         filter_tensor[idx] = 1.0
                         if decision.executed:
-                            decision_idx = idx
+                            result = idx
 
                 else:
                     raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
-            y.append(decision_idx)
+            y.append(result)
             filter_tensors.append(filter_tensor)  # Shape: (71,)
 
         encoding_tokens_batch = (
diff --git a/MahjongAI/agents/transformer_conv_ordered.py b/MahjongAI/agents/transformer_conv_ordered.py
index 75b7e6d..9f9f9e6 100644
--- a/MahjongAI/agents/transformer_conv_ordered.py
+++ b/MahjongAI/agents/transformer_conv_ordered.py
@@ -909,7 +909,7 @@ class TransformerTensorProcessor:
             )
             filter_tensor[0] = 1.0  # pass
 
-            decision_idx = 0
+            result = 0
 
             for decision_idx, decision_type in enumerate(turn.decisions):
                 if not decision_type:
@@ -920,12 +920,12 @@ class TransformerTensorProcessor:
                 if decision_idx == DECISION_AGARI_IDX:
                     filter_tensor[1] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 1
+                        result = 1
 
                 elif decision_idx == DECISION_REACH_IDX:
                     filter_tensor[2] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 2
+                        result = 2
 
                 elif decision_idx == DECISION_NAKI_IDX:
                     for decision in decision_type:
@@ -939,12 +939,12 @@ class TransformerTensorProcessor:
                         ), f"Filter idx {idx} out of range for DURING_TURN_ACTION_DIM"
                         filter_tensor[idx] = 1.0
                         if decision.executed:
-                            decision_idx = idx
+                            result = idx
 
                 else:
                     raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
-            y.append(decision_idx)
+            y.append(result)
             filter_tensors.append(filter_tensor)  # Shape: (71,)
             player_tensor.append(turn.player)
 
-- 
2.43.0


From 19ad46f2d865a34a3ea13e6c21f20ddca2c2172d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 29/53] fix: history embeddings are kept for the events they
 describe

---
 MahjongAI/agents/transformer.py            | 18 +++++++++---------
 MahjongAI/agents/transformer_conv.py       | 18 +++++++++---------
 MahjongAI/agents/transformer_conv_large.py | 18 +++++++++---------
 3 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/MahjongAI/agents/transformer.py b/MahjongAI/agents/transformer.py
index afa0504..db8d735 100644
--- a/MahjongAI/agents/transformer.py
+++ b/MahjongAI/agents/transformer.py
@@ -197,7 +197,7 @@ class Encoder(nn.Module):
         type_emb = self.type_embedding(
             adjusted_embedding_type
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = event_type == EventStateTypes.EMPTY
+        mask = event_type != EventStateTypes.EMPTY
         type_emb = type_emb * mask.unsqueeze(-1).float()
 
         # retrieve tile embeddings if event_type is DISCARD or NEW_DORA
@@ -206,8 +206,8 @@ class Encoder(nn.Module):
         tile_emb = self.tile_embedding(
             adjusted_tile_encoding
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) & (
-            event_type != EventStateTypes.NEW_DORA
+        mask = (event_type == EventStateTypes.DISCARD) | (
+            event_type == EventStateTypes.NEW_DORA
         )
         tile_emb = tile_emb * mask.unsqueeze(-1).float()
 
@@ -215,9 +215,9 @@ class Encoder(nn.Module):
         player_idx = player_idx.to(self.player_coding_table.device)
         player_emb = self.player_coding_table[player_idx]  # Shape: (B, T, EMBD_SIZE)
         mask = (
-            (event_type != EventStateTypes.DISCARD)
-            & (event_type != EventStateTypes.DURING)
-            & (event_type != EventStateTypes.POST)
+            (event_type == EventStateTypes.DISCARD)
+            | (event_type == EventStateTypes.DURING)
+            | (event_type == EventStateTypes.POST)
         ).to(player_emb.device)
         player_emb = player_emb * mask.unsqueeze(-1).float()
         player_emb = player_emb.to(device)
@@ -226,7 +226,7 @@ class Encoder(nn.Module):
         tsumogiri_emb = self.tsumogiri_embedding(
             torch.tensor([0], device=device)
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) | (tsumogiri == 0)
+        mask = (event_type == EventStateTypes.DISCARD) & (tsumogiri != 0)
         tsumogiri_emb = tsumogiri_emb * mask.unsqueeze(-1).float()
 
         # Retrieve position encodings (shape: (150, EMBD_SIZE)) if embedding type is not EMPTY
@@ -242,7 +242,7 @@ class Encoder(nn.Module):
         during_naki_emb = self.during_naki_embedding(
             adjusted_during_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DURING) | (naki_idx < 3)
+        mask = (event_type == EventStateTypes.DURING) & (naki_idx >= 3)
         during_naki_emb = during_naki_emb * mask.unsqueeze(-1).float()
 
         # retrieve post naki encodings if event_type is POST and naki_idx is >= 2
@@ -250,7 +250,7 @@ class Encoder(nn.Module):
         post_naki_emb = self.post_naki_embedding(
             adjusted_post_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.POST) | (naki_idx < 2)
+        mask = (event_type == EventStateTypes.POST) & (naki_idx >= 2)
         post_naki_emb = post_naki_emb * mask.unsqueeze(-1).float()
 
         x = (
diff --git a/MahjongAI/agents/transformer_conv.py b/MahjongAI/agents/transformer_conv.py
index a3a48f5..7e52106 100644
--- a/MahjongAI/agents/transformer_conv.py
+++ b/MahjongAI/agents/transformer_conv.py
@@ -197,7 +197,7 @@ class Encoder(nn.Module):
         type_emb = self.type_embedding(
             adjusted_embedding_type
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = event_type == EventStateTypes.EMPTY
+        mask = event_type != EventStateTypes.EMPTY
         type_emb = type_emb * mask.unsqueeze(-1).float()
 
         # retrieve tile embeddings if event_type is DISCARD or NEW_DORA
@@ -206,8 +206,8 @@ class Encoder(nn.Module):
         tile_emb = self.tile_embedding(
             adjusted_tile_encoding
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) & (
-            event_type != EventStateTypes.NEW_DORA
+        mask = (event_type == EventStateTypes.DISCARD) | (
+            event_type == EventStateTypes.NEW_DORA
         )
         tile_emb = tile_emb * mask.unsqueeze(-1).float()
 
@@ -215,9 +215,9 @@ class Encoder(nn.Module):
         player_idx = player_idx.to(self.player_coding_table.device)
         player_emb = self.player_coding_table[player_idx]  # Shape: (B, T, EMBD_SIZE)
         mask = (
-            (event_type != EventStateTypes.DISCARD)
-            & (event_type != EventStateTypes.DURING)
-            & (event_type != EventStateTypes.POST)
+            (event_type == EventStateTypes.DISCARD)
+            | (event_type == EventStateTypes.DURING)
+            | (event_type == EventStateTypes.POST)
         ).to(player_emb.device)
         player_emb = player_emb * mask.unsqueeze(-1).float()
         player_emb = player_emb.to(device)
@@ -226,7 +226,7 @@ class Encoder(nn.Module):
         tsumogiri_emb = self.tsumogiri_embedding(
             torch.tensor([0], device=device)
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) | (tsumogiri == 0)
+        mask = (event_type == EventStateTypes.DISCARD) & (tsumogiri != 0)
         tsumogiri_emb = tsumogiri_emb * mask.unsqueeze(-1).float()
 
         # Retrieve position encodings (shape: (150, EMBD_SIZE)) if embedding type is not EMPTY
@@ -242,7 +242,7 @@ class Encoder(nn.Module):
         during_naki_emb = self.during_naki_embedding(
             adjusted_during_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DURING) | (naki_idx < 3)
+        mask = (event_type == EventStateTypes.DURING) & (naki_idx >= 3)
         during_naki_emb = during_naki_emb * mask.unsqueeze(-1).float()
 
         # retrieve post naki encodings if event_type is POST and naki_idx is >= 2
@@ -250,7 +250,7 @@ class Encoder(nn.Module):
         post_naki_emb = self.post_naki_embedding(
             adjusted_post_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.POST) | (naki_idx < 2)
+        mask = (event_type == EventStateTypes.POST) & (naki_idx >= 2)
         post_naki_emb = post_naki_emb * mask.unsqueeze(-1).float()
 
         x = (
diff --git a/MahjongAI/agents/transformer_conv_large.py b/MahjongAI/agents/transformer_conv_large.py
index 4505dbe..80c7cd1 100644
--- a/MahjongAI/agents/transformer_conv_large.py
+++ b/MahjongAI/agents/transformer_conv_large.py
@@ -197,7 +197,7 @@ class Encoder(nn.Module):
         type_emb = self.type_embedding(
             adjusted_embedding_type
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = event_type == EventStateTypes.EMPTY
+        mask = event_type != EventStateTypes.EMPTY
         type_emb = type_emb * mask.unsqueeze(-1).float()
 
         # retrieve tile embeddings if event_type is DISCARD or NEW_DORA
@@ -206,8 +206,8 @@ class Encoder(nn.Module):
         tile_emb = self.tile_embedding(
             adjusted_tile_encoding
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) & (
-            event_type != EventStateTypes.NEW_DORA
+        mask = (event_type == EventStateTypes.DISCARD) | (
+            event_type == EventStateTypes.NEW_DORA
         )
         tile_emb = tile_emb * mask.unsqueeze(-1).float()
 
@@ -215,9 +215,9 @@ class Encoder(nn.Module):
         player_idx = player_idx.to(self.player_coding_table.device)
         player_emb = self.player_coding_table[player_idx]  # Shape: (B, T, EMBD_SIZE)
         mask = (
-            (event_type != EventStateTypes.DISCARD)
-            & (event_type != EventStateTypes.DURING)
-            & (event_type != EventStateTypes.POST)
+            (event_type == EventStateTypes.DISCARD)
+            | (event_type == EventStateTypes.DURING)
+            | (event_type == EventStateTypes.POST)
         ).to(player_emb.device)
         player_emb = player_emb * mask.unsqueeze(-1).float()
         player_emb = player_emb.to(device)
@@ -226,7 +226,7 @@ class Encoder(nn.Module):
         tsumogiri_emb = self.tsumogiri_embedding(
             torch.tensor([0], device=device)
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) | (tsumogiri == 0)
+        mask = (event_type == EventStateTypes.DISCARD) & (tsumogiri != 0)
         tsumogiri_emb = tsumogiri_emb * mask.unsqueeze(-1).float()
 
         # Retrieve position encodings (shape: (150, EMBD_SIZE)) if embedding type is not EMPTY
@@ -242,7 +242,7 @@ class Encoder(nn.Module):
         during_naki_emb = self.during_naki_embedding(
             adjusted_during_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DURING) | (naki_idx < 3)
+        mask = (event_type == EventStateTypes.DURING) & (naki_idx >= 3)
         during_naki_emb = during_naki_emb * mask.unsqueeze(-1).float()
 
         # retrieve post naki encodings if event_type is POST and naki_idx is >= 2
@@ -250,7 +250,7 @@ class Encoder(nn.Module):
         post_naki_emb = self.post_naki_embedding(
             adjusted_post_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.POST) | (naki_idx < 2)
+        mask = (event_type == EventStateTypes.POST) & (naki_idx >= 2)
         post_naki_emb = post_naki_emb * mask.unsqueeze(-1).float()
 
         x = (
-- 
2.43.0


From 652613dd1fa56eb8ad5124efc296758262229df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 30/53] fix: a batch without rounds has no rows instead of
 failing

---
 MahjongAI/agents/transformer.py            | 3 +++
 MahjongAI/agents/transformer_conv.py       | 3 +++
 MahjongAI/agents/transformer_conv_large.py | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/MahjongAI/agents/transformer.py b/MahjongAI/agents/transformer.py
index db8d735..edeb489 100644
--- a/MahjongAI/agents/transformer.py
+++ b/MahjongAI/agents/transformer.py
@@ -550,6 +550,9 @@ class TransformerTensorProcessor:
                 tensors_discard_batch.append(tensors_discard)
                 tensors_post_batch.append(tensors_post)
 
+        if not tensors_during_batch:
+            return self.build_tensors([], [])
+
         return self.stack_batches(
             tensors_during_batch, tensors_discard_batch, tensors_post_batch
         )
diff --git a/MahjongAI/agents/transformer_conv.py b/MahjongAI/agents/transformer_conv.py
index 7e52106..4005e75 100644
--- a/MahjongAI/agents/transformer_conv.py
+++ b/MahjongAI/agents/transformer_conv.py
@@ -555,6 +555,9 @@ class TransformerTensorProcessor:
                 tensors_discard_batch.append(tensors_discard)
                 tensors_post_batch.append(tensors_post)
 
+        if not tensors_during_batch:
+            return self.build_tensors([], [])
+
         return self.stack_batches(
             tensors_during_batch, tensors_discard_batch, tensors_post_batch
         )
diff --git a/MahjongAI/agents/transformer_conv_large.py b/MahjongAI/agents/transformer_conv_large.py
index 80c7cd1..b867eea 100644
--- a/MahjongAI/agents/transformer_conv_large.py
+++ b/MahjongAI/agents/transformer_conv_large.py
@@ -555,6 +555,9 @@ class TransformerTensorProcessor:
                 tensors_discard_batch.append(tensors_discard)
                 tensors_post_batch.append(tensors_post)
 
+        if not tensors_during_batch:
+            return self.build_tensors([], [])
+
         return self.stack_batches(
             tensors_during_batch, tensors_discard_batch, tensors_post_batch
         )
-- 
2.43.0


From 4b8fce2ec274491c869a22b3d50710a4d0455817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 31/53] fix: the data loader skips inconsistent logs instead of
 exiting

---
 MahjongAI/utils/dataloader.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/MahjongAI/utils/dataloader.py b/MahjongAI/utils/dataloader.py
index e330fdd..ed6c462 100644
--- a/MahjongAI/utils/dataloader.py
+++ b/MahjongAI/utils/dataloader.py
@@ -1,5 +1,4 @@
 import os
-import sys
 import torch
 
 from MahjongAI.process_xml import process, InvalidGameException
@@ -39,7 +38,7 @@ class DataLoader:
                 continue  # Skip to the next file
             except AssertionError as e:
                 print(f"Assertion error: {e} happened in {filename}")
-                sys.exit(1) # TODO: remove this line
+                continue
             except Exception as e:
                 print(f"Unexpected error: {e} happened in {filename}")
                 continue
-- 
2.43.0


From 0f9f9f3af61912a9b233207a6e47f8208ca56795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 32/53] fix: the data loader never yields an empty batch

---
 MahjongAI/utils/dataloader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MahjongAI/utils/dataloader.py b/MahjongAI/utils/dataloader.py
index ed6c462..ce18841 100644
--- a/MahjongAI/utils/dataloader.py
+++ b/MahjongAI/utils/dataloader.py
@@ -47,6 +47,9 @@ class DataLoader:
             all_halfturns_list.append(all_halfturns)
             all_encoding_tokens_list.append(all_encoding_tokens)
 
+        if not all_halfturns_list:  # only unusable files were left
+            raise StopIteration
+
         self.log_func(f"{self.__repr__()} - Batch {self.batch_count}")
 
         return all_halfturns_list, all_encoding_tokens_list
-- 
2.43.0


From ed68457d1a6e3a3fbb669bd8fb16bcc2efdc9838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:03 +0000
Subject: [PATCH 33/53] fix: checkpoints appear under their name only when
 completely written

---
 MahjongAI/supervised_learning.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MahjongAI/supervised_learning.py b/MahjongAI/supervised_learning.py
index beb9ae8..c5fda9d 100644
--- a/MahjongAI/supervised_learning.py
+++ b/MahjongAI/supervised_learning.py
@@ -179,7 +179,9 @@ def train(model_name: str, max_iters: int, verbose: bool = True):
             model_path = os.path.join(
                 checkpoint_dir, f"model_{model_name}_checkpoint_iter_{iter}.pt"
             )
-            torch.save(model.state_dict(), model_path)
+            # an interrupted save must not look like the newest checkpoint
+            torch.save(model.state_dict(), model_path + ".tmp")
+            os.replace(model_path + ".tmp", model_path)
             log_message(f"Model saved at {model_path}")
 
         train_dataloader.reset()
-- 
2.43.0


From 219c8519de221e0512634b5688938cf5a7ad2592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:41 +0000
Subject: [PATCH 34/53] fix: the red five flag is no terminal or honor

---
 MahjongAI/utils/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MahjongAI/utils/constants.py b/MahjongAI/utils/constants.py
index 52381ca..0b10960 100644
--- a/MahjongAI/utils/constants.py
+++ b/MahjongAI/utils/constants.py
@@ -17,7 +17,7 @@ MAX_SEQUENCE_LENGTH = 150
 
 
 YAOCHU_TENSOR = np.zeros(37)
-YAOCHU_TENSOR[[0, 8, 9, 17, 18, 26, 27, 28, 29, 30, 31, 32, 33, 34]] = 1.0
+YAOCHU_TENSOR[[0, 8, 9, 17, 18, 26, 27, 28, 29, 30, 31, 32, 33]] = 1.0
 
 
 DECISION_AGARI_IDX = 0
-- 
2.43.0


From 9672d7a0840dcfe80851e27ee3b880a64e39711e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:41 +0000
Subject: [PATCH 35/53] fix: shanten does not count a red five twice

---
 MahjongAI/utils/shanten.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MahjongAI/utils/shanten.py b/MahjongAI/utils/shanten.py
index e699159..d0bf034 100644
--- a/MahjongAI/utils/shanten.py
+++ b/MahjongAI/utils/shanten.py
@@ -9,7 +9,7 @@ from MahjongAI.utils.constants import YAOCHU_TENSOR
 class ShantenSolver:
     def _init(self, hand_tensor: np.ndarray):
         self.hand_tensor = hand_tensor
-        self.n_melds = (14 - self.hand_tensor.sum()) // 3
+        self.n_melds = (14 - self.hand_tensor[:34].sum()) // 3
         self.n_mentsu = self.n_melds + sum(self.hand_tensor[27:] >= 3.0)
         self.n_taatsu = 0
         self.n_toitsu = sum(self.hand_tensor[27:] == 2.0)
-- 
2.43.0


From 0f64b61c7a100a72fd81277961a9b5199410119d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:41 +0000
Subject: [PATCH 36/53] fix: thirteen orphans need a single pair, more copies
 do not help

---
 MahjongAI/utils/shanten.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MahjongAI/utils/shanten.py b/MahjongAI/utils/shanten.py
index d0bf034..f9e144a 100644
--- a/MahjongAI/utils/shanten.py
+++ b/MahjongAI/utils/shanten.py
@@ -137,7 +137,7 @@ class ShantenSolver:
     def solve_kokushi(self):
         yaochu_arr = self.hand_tensor * YAOCHU_TENSOR
         self.best_shanten = min(
-            self.best_shanten, 13 - sum(yaochu_arr >= 1.0) - (max(yaochu_arr) - 1.0)
+            self.best_shanten, 13 - sum(yaochu_arr >= 1.0) - any(yaochu_arr >= 2.0)
         )
 
     def solve(self):
-- 
2.43.0


From c1200f499a509dcc0d59de2f5e2f3529982c4378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:41 +0000
Subject: [PATCH 37/53] fix: seven pairs and thirteen orphans need a closed
 hand

---
 MahjongAI/utils/shanten.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/utils/shanten.py b/MahjongAI/utils/shanten.py
index f9e144a..8b44490 100644
--- a/MahjongAI/utils/shanten.py
+++ b/MahjongAI/utils/shanten.py
@@ -142,8 +142,9 @@ class ShantenSolver:
 
     def solve(self):
         self.solve_normal()
-        self.solve_chitoitsu()
-        self.solve_kokushi()
+        if not self.n_melds:
+            self.solve_chitoitsu()
+            self.solve_kokushi()
 
         return self.best_shanten
 
-- 
2.43.0


From 0b41aa294eb6b8f01103d9e74411261234b1f5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:41 +0000
Subject: [PATCH 38/53] fix: seven pairs need seven different kinds

---
 MahjongAI/utils/shanten.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/MahjongAI/utils/shanten.py b/MahjongAI/utils/shanten.py
index 8b44490..93fca2e 100644
--- a/MahjongAI/utils/shanten.py
+++ b/MahjongAI/utils/shanten.py
@@ -132,7 +132,12 @@ class ShantenSolver:
             process_shuntsu(idx)
 
     def solve_chitoitsu(self):
-        self.best_shanten = min(self.best_shanten, 6 - sum(self.hand_tensor >= 2.0))
+        # the seven pairs have to be of different kinds
+        n_kinds = sum(self.hand_tensor[:34] >= 1.0)
+        self.best_shanten = min(
+            self.best_shanten,
+            6 - sum(self.hand_tensor >= 2.0) + max(0, 7 - n_kinds),
+        )
 
     def solve_kokushi(self):
         yaochu_arr = self.hand_tensor * YAOCHU_TENSOR
-- 
2.43.0


From e85d01709551d5f136fdd6a8858f778ada938822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 39/53] fix: shanten tries sequences for each of three equal
 tiles

---
 MahjongAI/utils/shanten.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MahjongAI/utils/shanten.py b/MahjongAI/utils/shanten.py
index 93fca2e..a2ac54d 100644
--- a/MahjongAI/utils/shanten.py
+++ b/MahjongAI/utils/shanten.py
@@ -121,6 +121,8 @@ class ShantenSolver:
             self.solve_normal(idx)
             self.remove_toitsu(idx)
 
+            process_shuntsu(idx)
+
         elif self.hand_tensor[idx] == 2:
             self.add_toitsu(idx)
             self.solve_normal(idx + 1)
-- 
2.43.0


From 4a5f361e92e6e256a0f99c553ebd018878a96df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:49 +0000
Subject: [PATCH 40/53] fix: a ready hand cannot wait for a fifth copy of a
 tile

---
 MahjongAI/utils/shanten.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/MahjongAI/utils/shanten.py b/MahjongAI/utils/shanten.py
index a2ac54d..e7d7f75 100644
--- a/MahjongAI/utils/shanten.py
+++ b/MahjongAI/utils/shanten.py
@@ -9,13 +9,16 @@ from MahjongAI.utils.constants import YAOCHU_TENSOR
 class ShantenSolver:
     def _init(self, hand_tensor: np.ndarray):
         self.hand_tensor = hand_tensor
-        self.n_melds = (14 - self.hand_tensor[:34].sum()) // 3
+        self.n_tiles = self.hand_tensor[:34].sum()
+        self.n_melds = (14 - self.n_tiles) // 3
         self.n_mentsu = self.n_melds + sum(self.hand_tensor[27:] >= 3.0)
         self.n_taatsu = 0
         self.n_toitsu = sum(self.hand_tensor[27:] == 2.0)
-        self.n_kuttsuki = 0
+        # the fourth copy of an honor can neither be paired nor start a sequence
+        self.n_honor_quads = sum(self.hand_tensor[27:] == 4.0)
+        self.n_kuttsuki = sum(self.hand_tensor[27:34] == 1.0) + self.n_honor_quads
         self.best_shanten = 14
-        self.tune = 0
+        self.tune = self.n_honor_quads
 
     def add_shuntsu(self, idx: int):
         self.hand_tensor[idx : idx + 3] -= 1
@@ -76,8 +79,12 @@ class ShantenSolver:
             potential_mentsu = max(0, self.n_toitsu - 1) + self.n_taatsu
             if potential_mentsu + self.n_mentsu > 4:
                 shanten += potential_mentsu + self.n_mentsu - 4
-            if self.tune and not self.n_toitsu:
+            # no single tile is left that could still become the pair
+            if self.tune and self.tune == self.n_kuttsuki and not self.n_toitsu:
                 shanten += 1
+            dead_tiles = self.n_honor_quads - (self.n_tiles % 3 == 2)
+            if shanten != -1 and shanten < dead_tiles:
+                shanten = dead_tiles
             self.best_shanten = min(self.best_shanten, shanten)
             return
 
@@ -105,7 +112,6 @@ class ShantenSolver:
         if self.hand_tensor[idx] == 4:
             self.add_koutsu(idx)
             process_shuntsu(idx, tune=True)
-            self.solve_normal(idx + 1)
             self.remove_koutsu(idx)
 
             self.add_toitsu(idx)
-- 
2.43.0


From 2fb067238feb28e3f93f5afd795eb6f5fd9c30f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:49 +0000
Subject: [PATCH 41/53] fix: count the fourth five of a suit as a five when
 checking wins

---
 MahjongAI/utils/agari.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/MahjongAI/utils/agari.py b/MahjongAI/utils/agari.py
index ecc1e3a..3aa7e80 100644
--- a/MahjongAI/utils/agari.py
+++ b/MahjongAI/utils/agari.py
@@ -74,13 +74,9 @@ def evaluate_ron(
             continue
 
         hand_tensor[discarded_tile_idx] += 1
-        man, pin, sou, honors = hand_tensor2strs(hand_tensor)
+        tiles = hand_tensor2tiles(hand_tensor)
         hand_tensor[discarded_tile_idx] -= 1
 
-        tiles = TilesConverter.string_to_136_array(
-            man=man, pin=pin, sou=sou, honors=honors, has_aka_dora=True
-        )
-
         melds = []
         for naki in nakis:
             if naki.is_chi():
@@ -200,11 +196,7 @@ def evaluate_tsumo(
     decisions = []
     hand_tensor = hand_tensors_full[player]
 
-    man, pin, sou, honors = hand_tensor2strs(hand_tensor)
-
-    tiles = TilesConverter.string_to_136_array(
-        man=man, pin=pin, sou=sou, honors=honors, has_aka_dora=True
-    )
+    tiles = hand_tensor2tiles(hand_tensor)
     nakis = naki_list[player]
 
     melds = []
@@ -284,6 +276,15 @@ def evaluate_tsumo(
     return decisions
 
 
+def hand_tensor2tiles(hand_tensor):
+    *suits, honors = hand_tensor2strs(hand_tensor)
+    # only three fives are black, so four of a suit include the red one
+    man, pin, sou = [s.replace("5555", "r555") for s in suits]
+    return TilesConverter.string_to_136_array(
+        man=man, pin=pin, sou=sou, honors=honors, has_aka_dora=True
+    )
+
+
 def hand_tensor2strs(hand_tensor):
     tile_strs = []
 
-- 
2.43.0


From 68b8172268b34a35964876b7e5b936e53d3b169c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:49 +0000
Subject: [PATCH 42/53] fix: the viewer seat in a log link is no part of the
 game identifier

---
 MahjongAI/data/scrape_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MahjongAI/data/scrape_data.py b/MahjongAI/data/scrape_data.py
index 731c60e..29f2848 100644
--- a/MahjongAI/data/scrape_data.py
+++ b/MahjongAI/data/scrape_data.py
@@ -19,7 +19,7 @@ for filename in os.listdir(dir_name):
         for url in urls:
             if url.startswith("http://tenhou.net/0/?log="):
                 # Modify the URL
-                gid = url.split("=")[1]
+                gid = url.split("=")[1].split("&")[0]
                 modified_url = "https://tenhou.net/0/log/?" + gid
                 # print(f"Downloading data from: {modified_url}")
 
-- 
2.43.0


From 449b8ec538c52bc530c72dab7f48a9f927a6dad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:42 +0000
Subject: [PATCH 43/53] fix: no closed or added quad is offered once all four
 replacement tiles are used

---
 MahjongAI/process_xml.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 6c23026..36a8865 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -107,6 +107,7 @@ def process(file_path: str, verbose: bool = False):
         curr_halfturn = None
         cycles = 0
         is_rinshan = False  # next draw comes from the dead wall
+        n_quads = 0  # there are four replacement tiles for all players together
         missed_rons = [0] * 4  # temporary furiten
         acquired = None
         result_idx = None
@@ -301,6 +302,7 @@ def process(file_path: str, verbose: bool = False):
                     cycles += 1
                     acquired = None
                     is_rinshan = True
+                    n_quads += 1
 
             elif eventtype[0] in ["T", "U", "V", "W"]:
                 assert acquired is None
@@ -363,7 +365,7 @@ def process(file_path: str, verbose: bool = False):
                 naki_decisions = []
                 # check if ankan is possible, quads need a replacement tile
                 for i in np.where(hand_tensors[player] == 4.0)[0]:
-                    if remaining_tsumo == 0:
+                    if remaining_tsumo == 0 or n_quads == 4:
                         break
                     if reaches[player] and not _keeps_waits(
                         hand_tensors[player], i, tile_idx[0]
@@ -379,7 +381,7 @@ def process(file_path: str, verbose: bool = False):
                         color, number, *_ = meld.pattern_pon()
                         kind = 9 * color + number
                         copies = hands[player, 4 * kind : 4 * kind + 4]
-                        if copies.any() and remaining_tsumo > 0:
+                        if copies.any() and remaining_tsumo > 0 and n_quads < 4:
                             # which = 1 if the red five was in the exposed pon
                             which = int(number == 4 and color != 3 and not copies[0])
                             naki_decisions.append(
-- 
2.43.0


From 2313d3713d50530e74c657fa151df411aa2e140a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:42 +0000
Subject: [PATCH 44/53] fix: no open quad is offered once all four replacement
 tiles are used

---
 MahjongAI/process_xml.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 36a8865..788ae42 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -483,7 +483,11 @@ def process(file_path: str, verbose: bool = False):
                         continue
                     # no calls after riichi or on the last discard
                     if not reaches[p] and remaining_tsumo > 0:
-                        post_decisions[p][DECISION_NAKI_IDX] = decision_lst
+                        post_decisions[p][DECISION_NAKI_IDX] = [
+                            decision
+                            for decision in decision_lst
+                            if n_quads < 4 or not decision.naki.is_minkan()
+                        ]
 
                 encoding_tokens.append(
                     discard2idx(player, tile_idx[0], tile == acquired)
-- 
2.43.0


From b73de6bae6cf6f4d346d9a95b54e5f2d34aeb642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:56 +0000
Subject: [PATCH 45/53] fix: refuse logs that deal one tile to two players

---
 MahjongAI/process_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 788ae42..bfd521d 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -91,7 +91,7 @@ def process(file_path: str, verbose: bool = False):
         hands[player_indices, hand_indices] = 1.0
 
         assert np.allclose(hands.sum(axis=1), [13.0, 13.0, 13.0, 13.0])
-        assert np.max(hands) == 1.0
+        assert np.max(hands.sum(axis=0)) == 1.0  # no tile is dealt twice
         assert sum(remaining_tiles[:34]) == 83
 
         halfturns = []
-- 
2.43.0


From 971bee5cd64ec83c672ac1b0020eaef21b52d02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:01 +0000
Subject: [PATCH 46/53] fix: refuse logs in which a tile leaves the wall twice

---
 MahjongAI/process_xml.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index bfd521d..940f8d2 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -93,6 +93,8 @@ def process(file_path: str, verbose: bool = False):
         assert np.allclose(hands.sum(axis=1), [13.0, 13.0, 13.0, 13.0])
         assert np.max(hands.sum(axis=0)) == 1.0  # no tile is dealt twice
         assert sum(remaining_tiles[:34]) == 83
+        seen = {dora}.union(*hand_indices)  # tiles that left the wall
+        assert len(seen) == 53
 
         halfturns = []
         encoding_tokens = []
@@ -151,6 +153,8 @@ def process(file_path: str, verbose: bool = False):
 
             if eventtype == "DORA":
                 tile = int(event["attr"]["hai"])
+                assert tile not in seen
+                seen.add(tile)
                 tile_idx = TILE2IDX[tile]
                 doras = doras[:] + [tile]
                 remaining_tiles[tile_idx] -= 1
@@ -315,7 +319,8 @@ def process(file_path: str, verbose: bool = False):
                 remaining_tiles[tile_idx] -= 1
                 remaining_tiles_pov[player][tile_idx] -= 1
                 remaining_tsumo -= 1
-                assert hands[player, acquired] == 0.0
+                assert acquired not in seen
+                seen.add(acquired)
 
                 hands[player, acquired] = 1.0
                 hand_tensors[player][tile_idx] += 1.0
-- 
2.43.0


From e2c5e6d9d6cb4f41557e961a80abdabf69b88c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:16 +0000
Subject: [PATCH 47/53] fix: refuse logs in which another tile than the last
 discard is called

---
 MahjongAI/process_xml.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 940f8d2..f3a66f9 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -243,6 +243,9 @@ def process(file_path: str, verbose: bool = False):
                     hand_tensors[player][TILE2IDX[e]] -= 1.0
 
                 if acquired is not None:
+                    # only the last discard can be called
+                    assert acquired == halfturns[-2].discarded_tile
+                    assert (player + naki.from_who()) % 4 == curr_halfturn.player
                     hand_tensors_full[player][TILE2IDX[acquired]] += 1.0
 
                 if naki.from_who() != 0:
-- 
2.43.0


From 78684be60a243514f3565cd4970d8f8d4955647e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:41 +0000
Subject: [PATCH 48/53] fix: refuse logs with an added quad that extends no pon

---
 MahjongAI/process_xml.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index f3a66f9..75814d8 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -262,6 +262,8 @@ def process(file_path: str, verbose: bool = False):
                             if color * 9 + number == exposed[0] // 4:
                                 melds[player].pop(i)
                                 break
+                    else:
+                        raise ValueError("Kakan without the pon it extends")
 
                     new_post_decisions = [[[] for _ in range(3)] for _ in range(4)]
 
-- 
2.43.0


From 406c050173eeec960aeea8a00fa4d2f0ff8f6a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:56 +0000
Subject: [PATCH 49/53] fix: refuse logs with draws past the end of the wall

---
 MahjongAI/process_xml.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 75814d8..5247fa9 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -324,6 +324,7 @@ def process(file_path: str, verbose: bool = False):
                 remaining_tiles[tile_idx] -= 1
                 remaining_tiles_pov[player][tile_idx] -= 1
                 remaining_tsumo -= 1
+                assert remaining_tsumo >= 0
                 assert acquired not in seen
                 seen.add(acquired)
 
-- 
2.43.0


From 7fd894b9c03c477ca48e212a0e9a12c323f721da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:03 +0000
Subject: [PATCH 50/53] fix: refuse logs in which a seat acts out of turn

---
 MahjongAI/process_xml.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 5247fa9..000be51 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -112,6 +112,7 @@ def process(file_path: str, verbose: bool = False):
         n_quads = 0  # there are four replacement tiles for all players together
         missed_rons = [0] * 4  # temporary furiten
         acquired = None
+        turn = int(parent)  # the seat to draw or discard
         result_idx = None
 
         def snapshot(player: int):
@@ -166,6 +167,8 @@ def process(file_path: str, verbose: bool = False):
                 assert curr_halfturn is not None
                 player = int(event["attr"]["who"])
 
+                assert player == curr_halfturn.player
+
                 if event["attr"]["step"] == "1":
                     assert isinstance(curr_halfturn, DuringTurn)
                     assert acquired is not None
@@ -194,7 +197,7 @@ def process(file_path: str, verbose: bool = False):
                 acquired = None
 
                 naki = Naki(int(event["attr"]["m"]))
-                player = int(event["attr"]["who"])
+                player = turn = int(event["attr"]["who"])
                 cycles += 4  # any call ends the uninterrupted first go-around
                 melds[player] = melds[player][:] + [naki]
 
@@ -318,6 +321,7 @@ def process(file_path: str, verbose: bool = False):
                 curr_halfturn = None
 
                 player = ["T", "U", "V", "W"].index(eventtype[0])
+                assert player == turn
                 cycles += 1
                 acquired = int(eventtype[1:])
                 tile_idx = TILE2IDX[acquired]
@@ -428,6 +432,8 @@ def process(file_path: str, verbose: bool = False):
                 curr_halfturn = None
 
                 player = ["D", "E", "F", "G"].index(eventtype[0])
+                assert player == turn
+                turn = (player + 1) % 4
 
                 tile = int(eventtype[1:])
                 tile_idx = TILE2IDX[tile]
-- 
2.43.0


From 4251b751cf27eb084893ea0767b34bf44bdc2f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:42 +0000
Subject: [PATCH 51/53] fix: a run must not empty the log of a run that started
 in the same second

---
 MahjongAI/supervised_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MahjongAI/supervised_learning.py b/MahjongAI/supervised_learning.py
index c5fda9d..87fad62 100644
--- a/MahjongAI/supervised_learning.py
+++ b/MahjongAI/supervised_learning.py
@@ -21,7 +21,7 @@ device = torch.device("cuda" if torch.cuda.is_available() else "cpu")
 
 # Create log file
 log_file = f"training_log_{datetime.now().strftime('%Y%m%d_%H%M%S')}.txt"
-with open(log_file, "w") as f:
+with open(log_file, "a") as f:  # another run may have the same name
     f.write("Training log started\n")
 
 
-- 
2.43.0


From 49befa48aa76b37de0c6e0bd019a0d463dfd1b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:42 +0000
Subject: [PATCH 52/53] fix: refuse logs with tile numbers below zero

---
 MahjongAI/process_xml.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 000be51..0e5b622 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -93,8 +93,8 @@ def process(file_path: str, verbose: bool = False):
         assert np.allclose(hands.sum(axis=1), [13.0, 13.0, 13.0, 13.0])
         assert np.max(hands.sum(axis=0)) == 1.0  # no tile is dealt twice
         assert sum(remaining_tiles[:34]) == 83
-        seen = {dora}.union(*hand_indices)  # tiles that left the wall
-        assert len(seen) == 53
+        wall = set(range(136)).difference([dora], *hand_indices)
+        assert len(wall) == 83
 
         halfturns = []
         encoding_tokens = []
@@ -154,8 +154,7 @@ def process(file_path: str, verbose: bool = False):
 
             if eventtype == "DORA":
                 tile = int(event["attr"]["hai"])
-                assert tile not in seen
-                seen.add(tile)
+                wall.remove(tile)
                 tile_idx = TILE2IDX[tile]
                 doras = doras[:] + [tile]
                 remaining_tiles[tile_idx] -= 1
@@ -329,8 +328,7 @@ def process(file_path: str, verbose: bool = False):
                 remaining_tiles_pov[player][tile_idx] -= 1
                 remaining_tsumo -= 1
                 assert remaining_tsumo >= 0
-                assert acquired not in seen
-                seen.add(acquired)
+                wall.remove(acquired)
 
                 hands[player, acquired] = 1.0
                 hand_tensors[player][tile_idx] += 1.0
-- 
2.43.0


From be8dfc28400908b60b987db137736394e22fcaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:40 +0000
Subject: [PATCH 53/53] fix: refuse logs in which a seat declares a quad in
 another seat's turn

---
 MahjongAI/process_xml.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 0e5b622..bcd38f1 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -205,6 +205,7 @@ def process(file_path: str, verbose: bool = False):
                 # change executed to True
                 if naki.is_ankan() or naki.is_kakan():
                     assert isinstance(curr_halfturn, DuringTurn)
+                    assert player == curr_halfturn.player
 
                     for decision in curr_halfturn.decisions[DECISION_NAKI_IDX]:
                         assert isinstance(decision, NakiDecision)
-- 
2.43.0

