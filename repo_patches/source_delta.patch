From de06516ec6bbcdc9e6e7f3fd8569e8a5b85802d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:34 +0000
Subject: [PATCH 01/30] fix: award odd chips of a split pot to an eligible
 player at any button position

---
 clubs/poker/engine.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index c18e6e3..548f28e 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -696,7 +696,6 @@ class Dealer:
         # sort hands by hand strength and pot commits
         hands = sorted(hands, key=operator.itemgetter(1, 2))
         pot = self.pot
-        remainder = 0
         payouts = [0] * self.num_players
         worst_hand = self.evaluator.table.max_rank + 1
         # iterate over hand strength and
@@ -716,7 +715,14 @@ class Dealer:
             remain = split_pot % len(eligible)
             for player_idx in eligible:
                 payouts[player_idx] += split
-            remainder += remain
+            if remain:
+                # give remainder chips to worst position player, i.e. the
+                # first player after button eligible for this part of the pot
+                worst_player = min(
+                    eligible,
+                    key=lambda idx: (idx - self.button - 1) % self.num_players,
+                )
+                payouts[worst_player] += remain
             # remove chips from players and pot
             for idx in range(len(cut)):
                 hands[idx][2] -= cut[idx]
@@ -725,13 +731,6 @@ class Dealer:
             hands[hand_idx][1] = worst_hand
             if pot == 0:
                 break
-        # give worst position player remainder chips
-        if remainder:
-            # worst player is first player after button involved in pot
-            for player_idx in range(1, self.num_players + 1):
-                if payouts[player_idx + self.button % self.num_players]:
-                    payouts[player_idx] += remainder
-                    break
         return payouts
 
     def _move_action(self) -> "Dealer":
-- 
2.43.0


From 7c0f10561fbad9d72e44d139b2811e3cb3064f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:34 +0000
Subject: [PATCH 02/30] fix: cap forced bets at the stack size so stacks never
 turn negative

---
 clubs/poker/engine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 548f28e..a104803 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -591,8 +591,9 @@ class Dealer:
     ) -> None:
         # roll list to action
         bets = bets[-self.action :] + bets[: -self.action]  # noqa: E203
+        # bets only as large as stack sizes
         bets = [
-            (stack > 0) * active * bet
+            min(stack, active * bet)
             for stack, active, bet in zip(self.stacks, self.active, bets)
         ]
         if street_commits:
-- 
2.43.0


From dc1fdedae714883c9b89b66af1a2436f80383c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:34 +0000
Subject: [PATCH 03/30] fix: post blinds and antes from the players in the hand
 when a seat is busted

---
 clubs/poker/engine.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index a104803..cb37d12 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -589,12 +589,16 @@ class Dealer:
     def _collect_multiple_bets(
         self, bets: List[int], street_commits: bool = True
     ) -> None:
-        # roll list to action
-        bets = bets[-self.action :] + bets[: -self.action]  # noqa: E203
+        # distribute bets to active players starting at action
+        players = [
+            (self.action + idx) % self.num_players for idx in range(self.num_players)
+        ]
+        active_players = [player for player in players if self.active[player]]
+        forced_bets = dict(zip(active_players, bets))
         # bets only as large as stack sizes
         bets = [
-            min(stack, active * bet)
-            for stack, active, bet in zip(self.stacks, self.active, bets)
+            min(stack, forced_bets.get(player, 0))
+            for player, stack in enumerate(self.stacks)
         ]
         if street_commits:
             self.street_commits = [
-- 
2.43.0


From 1fb4e95e86f4ee832437e2489bd0c66a56e2b919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:34 +0000
Subject: [PATCH 04/30] fix: play out the hand when all players are all in
 before all have acted

---
 clubs/poker/engine.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index cb37d12..ab1b316 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -524,6 +524,11 @@ class Dealer:
         return win_probs
 
     def _all_agreed(self) -> bool:
+        # all agreed if no player left in the hand has chips to bet
+        if not any(
+            active and stack > 0 for active, stack in zip(self.active, self.stacks)
+        ):
+            return True
         # not all agreed if not all players had chance to act
         if not all(self.street_option):
             return False
-- 
2.43.0


From 239ab9ce88d2a899052ca92e579b6d2dc0282d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:34 +0000
Subject: [PATCH 05/30] fix: keep payouts of a hand won without showdown after
 the pot is paid out

---
 clubs/poker/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index ab1b316..aa49c7d 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -663,7 +663,7 @@ class Dealer:
         # if only one player left give that player all chips
         if sum(self.active) == 1:
             payouts = [
-                payout + active * (self.pot - pot_commit)
+                payout + active * (sum(self.pot_commits) - pot_commit)
                 for payout, active, pot_commit in zip(
                     payouts, self.active, self.pot_commits
                 )
-- 
2.43.0


From d30bf6c28bd6165dee4aadb3e7ac2fe0cee575fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:34 +0000
Subject: [PATCH 06/30] fix: record whether the player folded in the hand
 history

---
 clubs/poker/engine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index aa49c7d..ee0bbf2 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -373,7 +373,8 @@ class Dealer:
         bet = self._clean_bet(bet, call, min_raise, max_raise)
 
         # only fold if player cannot check
-        if call and ((bet < call) or fold):
+        fold = bool(call and ((bet < call) or fold))
+        if fold:
             self.active[self.action] = False
             bet = 0
 
@@ -384,7 +385,7 @@ class Dealer:
 
         self._collect_bet(bet)
 
-        self.history.append((self.action, int(bet), bool(fold)))
+        self.history.append((self.action, int(bet), fold))
 
         self.street_option[self.action] = True
         self._move_action()
-- 
2.43.0


From 7b96d7c907ceb5cf3f0b8dfb51a95272938fe5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 07/30] fix: never pay chips of an over-committed folded player
 to players not in the hand

---
 clubs/poker/engine.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index ee0bbf2..d075c8d 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -709,6 +709,7 @@ class Dealer:
         pot = self.pot
         payouts = [0] * self.num_players
         worst_hand = self.evaluator.table.max_rank + 1
+        winners: List[int] = []
         # iterate over hand strength and
         # pot commits from smallest to largest
         for hand_idx, (_, strength, pot_commit) in enumerate(hands):
@@ -722,6 +723,10 @@ class Dealer:
             split_pot = sum(cut)
             if not split_pot:
                 continue
+            # chips only folded players committed go to the last winners
+            if strength == worst_hand:
+                eligible = winners
+            winners = eligible
             split = split_pot // len(eligible)
             remain = split_pot % len(eligible)
             for player_idx in eligible:
-- 
2.43.0


From b00c64bfe35ae11de78688c921637e614afbbd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 08/30] fix: count every full raise towards the maximum number
 of raises

---
 clubs/poker/engine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index d075c8d..7350be9 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -379,7 +379,9 @@ class Dealer:
             bet = 0
 
         # if bet is full raise record as largest raise
-        if bet and (bet - call) >= self.largest_raise:
+        raise_size = self.raise_sizes[self.street]
+        full_raise = raise_size if isinstance(raise_size, int) else self.largest_raise
+        if bet > call and (bet - call) >= full_raise:
             self.largest_raise = bet - call
             self.street_raises += 1
 
-- 
2.43.0


From e9afdc1f135307d470eac3099893ee4a50583712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 09/30] fix: round to the closest valid bet when the minimum
 raise is not larger than the call

---
 clubs/poker/engine.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 7350be9..d08a4e7 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -584,15 +584,10 @@ class Dealer:
         # find closest bet size to actual bet
         # round down for tie, order is fold/check -> call -> raise
         bet = max(0, bet)
-        idx = argmin([abs(value - bet) for value in [0, call, min_raise, max_raise]])
-        # if call closest
-        if idx == 1:
-            return call
-        # if min raise or max raise closest
-        if idx in (2, 3):
-            return round(min(max_raise, max(min_raise, bet)))
-        # if check/fold closest
-        return 0
+        # closest raise to actual bet
+        raise_bet = round(min(max_raise, max(min_raise, bet)))
+        bets = [0, call, raise_bet]
+        return bets[argmin([abs(value - bet) for value in bets])]
 
     def _collect_multiple_bets(
         self, bets: List[int], street_commits: bool = True
-- 
2.43.0


From 4eb0bd9e750fce4d04e02984c018ed3500b5326b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 10/30] fix: always round bets half way between two valid bet
 sizes down

---
 clubs/poker/engine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index d08a4e7..516a728 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -1,5 +1,6 @@
 """Classes and functions for running poker games"""
 import itertools
+import math
 import operator
 import sys
 from typing import Any, List, Optional, Tuple, Type, Union
@@ -366,7 +367,8 @@ class Dealer:
             raise error.TableResetError("call reset() before calling first step()")
 
         fold = bet < 0
-        bet = round(bet)
+        # closest number of chips, round down for tie
+        bet = math.ceil(bet - 0.5)
 
         call, min_raise, max_raise = self._bet_sizes()
         # round bet to nearest sizing
-- 
2.43.0


From 7a64a075b756bc1f199c6d7d862de7b1c6e931a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 11/30] fix: accept the documented float('inf') raise size

---
 clubs/poker/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 516a728..ae13c69 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -175,7 +175,7 @@ class Dealer:
         def clean_rs(
             raise_size: Union[int, Literal["pot", "inf"]]
         ) -> Union[float, Literal["pot"]]:
-            if raise_size == "inf":
+            if raise_size in ("inf", float("inf")):
                 return float(raise_size)
             if raise_size == "pot":
                 return raise_size
-- 
2.43.0


From 694762860bd64aa11e5c64a421b159fc3c6112f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 12/30] fix: never offer a minimum raise above the pot limit

---
 clubs/poker/engine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index ae13c69..9671f8c 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -564,6 +564,7 @@ class Dealer:
             min_raise = max(self.big_blind, self.largest_raise + call)
             if raise_size == "pot":
                 max_raise = self.pot + call * 2
+                min_raise = min(min_raise, max_raise)
             elif raise_size == float("inf"):
                 max_raise = self.stacks[self.action]
         # if maximum number of raises in street
-- 
2.43.0


From a723eefe548472a607a79bd40acf8c7a9ea8fd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 13/30] fix: keep the tricked order when all cards of the deck
 are tricked

---
 clubs/poker/card.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/card.py b/clubs/poker/card.py
index de54134..ea3d573 100644
--- a/clubs/poker/card.py
+++ b/clubs/poker/card.py
@@ -216,7 +216,7 @@ class Deck:
             self
         """
         self.cards = list(self.full_deck)
-        if self._tricked and self._top_idcs and self._bottom_idcs:
+        if self._tricked:
             top_cards = [self.full_deck[idx] for idx in self._top_idcs]
             bottom_cards = [self.full_deck[idx] for idx in self._bottom_idcs]
             random.shuffle(bottom_cards)
-- 
2.43.0


From 174eeee3b5e5927d1a135295303945c8c9333d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:32 +0000
Subject: [PATCH 14/30] fix: count same suit high cards if the hand is too
 small for flushes

---
 clubs/poker/evaluator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clubs/poker/evaluator.py b/clubs/poker/evaluator.py
index 8b4b1e2..4a104c3 100644
--- a/clubs/poker/evaluator.py
+++ b/clubs/poker/evaluator.py
@@ -468,8 +468,9 @@ class LookupTable:
         # any combination of rank and subtract straights
         unsuited = _ncr(ranks, cards_for_hand) - straights
         # multiplied with suit choices for all cards
-        # all same suits not allowed
-        suited = max(unsuited, unsuited * (suits ** cards_for_hand - suits))
+        # all same suits not allowed if flushes are possible
+        flushes = suits if cards_for_hand > 2 else 0
+        suited = max(unsuited, unsuited * (suits ** cards_for_hand - flushes))
         if suits < 2:
             suited = unsuited
         return int(suited), int(unsuited)
-- 
2.43.0


From 194870a0029ec1c01f44e74a9502d300ecb39107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:32 +0000
Subject: [PATCH 15/30] fix: support decks with at most as many ranks as cards
 in a hand

---
 clubs/poker/evaluator.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/clubs/poker/evaluator.py b/clubs/poker/evaluator.py
index 4a104c3..02c1bf9 100644
--- a/clubs/poker/evaluator.py
+++ b/clubs/poker/evaluator.py
@@ -315,7 +315,7 @@ class LookupTable:
 
         # if suited hands aren't relevant set the suited
         # lookup table equal to the unsuited table
-        if not self.hand_dict["flush"]["cumulative unsuited"]:
+        if not suited_lookup:
             suited_lookup = unsuited_lookup
 
         self.suited_lookup = suited_lookup
@@ -349,7 +349,7 @@ class LookupTable:
         if cards_for_hand < 3 or suits < 2:
             return 0, 0
         # number of smallest cards which start straight
-        unsuited = ranks - (cards_for_hand - 1) + low_end_straight
+        unsuited = _num_straights(ranks, cards_for_hand, low_end_straight)
         # multiplied with number of suits
         suited = max(unsuited, unsuited * suits)
         return int(suited), int(unsuited)
@@ -389,7 +389,7 @@ class LookupTable:
         if cards_for_hand < 3 or suits < 2:
             return 0, 0
         # all straight combinations
-        straight_flushes = ranks - (cards_for_hand - 1) + low_end_straight
+        straight_flushes = _num_straights(ranks, cards_for_hand, low_end_straight)
         # choose all cards from ranks minus straight flushes
         unsuited = _ncr(ranks, cards_for_hand) - straight_flushes
         # multiplied by number of suits
@@ -403,7 +403,7 @@ class LookupTable:
         if cards_for_hand < 3:
             return 0, 0
         # number of smallest cards which start straight
-        unsuited = ranks - (cards_for_hand - 1) + low_end_straight
+        unsuited = _num_straights(ranks, cards_for_hand, low_end_straight)
         # straight flush combinations
         straight_flushes = 0
         if suits > 1:
@@ -464,7 +464,7 @@ class LookupTable:
         # number of smallest cards which start straight
         straights = 0
         if cards_for_hand > 2:
-            straights = ranks - (cards_for_hand - 1) + low_end_straight
+            straights = _num_straights(ranks, cards_for_hand, low_end_straight)
         # any combination of rank and subtract straights
         unsuited = _ncr(ranks, cards_for_hand) - straights
         # multiplied with suit choices for all cards
@@ -487,7 +487,7 @@ class LookupTable:
         for _ in range(ranks - (cards_for_hand - 1)):
             straight_flushes.append(int(bin_num_str, 2))
             bin_num_str = bin_num_str[:-1]
-        if low_end_straight:
+        if low_end_straight and ranks > cards_for_hand:
             # add low end straight
             bin_num_str = (
                 "0b1"
@@ -661,7 +661,16 @@ def _lexographic_next_bit(bits: int) -> Iterator[int]:
         yield lex
 
 
+def _num_straights(ranks: int, cards_for_hand: int, low_end_straight: bool) -> int:
+    if ranks < cards_for_hand:
+        return 0
+    # low end straight is identical to the only straight if it uses all ranks
+    return ranks - (cards_for_hand - 1) + (low_end_straight and ranks > cards_for_hand)
+
+
 def _ncr(n: int, r: int) -> int:
+    if r > n:
+        return 0
     r = min(r, n - r)
     numer = functools.reduce(operator.mul, range(n, n - r, -1), 1)
     denom = functools.reduce(operator.mul, range(1, r + 1), 1)
-- 
2.43.0


From c945b42f4527728056311b42c3a933073ac38561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:32 +0000
Subject: [PATCH 16/30] fix: support custom orders which rank impossible hands
 above possible ones

---
 clubs/poker/evaluator.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/clubs/poker/evaluator.py b/clubs/poker/evaluator.py
index 02c1bf9..6b690dd 100644
--- a/clubs/poker/evaluator.py
+++ b/clubs/poker/evaluator.py
@@ -298,7 +298,7 @@ class LookupTable:
             hand_rank = u_hand[1]
             cumulative_hands += u_hand[0]
             self.hand_dict[hand_rank]["cumulative unsuited"] = cumulative_hands
-            if cumulative_hands > 0:
+            if u_hand[0] > 0:
                 self.hand_dict[hand_rank]["rank"] = rank
                 rank += 1
                 ranked_hands.append(hand_rank)
@@ -524,8 +524,8 @@ class LookupTable:
     ) -> Tuple[Dict[int, int], Dict[int, int]]:
         straight_flushes = []
         if (
-            self.hand_dict["straight flush"]["cumulative unsuited"]
-            or self.hand_dict["straight"]["cumulative unsuited"]
+            self.hand_dict["straight flush"]["unsuited"]
+            or self.hand_dict["straight"]["unsuited"]
         ):
             straight_flushes = self._gen_straight_flush(
                 cards_for_hand, ranks, low_end_straight
@@ -534,15 +534,15 @@ class LookupTable:
         # flushes (including straight flushes)
         flushes = []
         if (
-            self.hand_dict["flush"]["cumulative unsuited"]
-            or self.hand_dict["high card"]["cumulative unsuited"]
+            self.hand_dict["flush"]["unsuited"]
+            or self.hand_dict["high card"]["unsuited"]
         ):
             flushes = self._gen_flush(cards_for_hand, ranks, straight_flushes)
 
         def add_to_dict(
             rank_string: str, rank_bits: List[int], lookup: Dict[int, int],
         ) -> Dict[int, int]:
-            if not self.hand_dict[rank_string]["cumulative unsuited"]:
+            if not self.hand_dict[rank_string]["unsuited"]:
                 return lookup
             num_ranks = len(rank_bits)
             assert num_ranks == self.hand_dict[rank_string]["unsuited"]
@@ -570,7 +570,7 @@ class LookupTable:
         ) -> Dict[int, int]:
             # inverse ranks, A - 2
             backwards_ranks = list(range(13 - 1, 13 - 1 - ranks, -1))
-            if not self.hand_dict[rank_string]["cumulative unsuited"]:
+            if not self.hand_dict[rank_string]["unsuited"]:
                 return unsuited_lookup
             # get cumulative hand rank
             hand_rank = self._get_rank(rank_string)
-- 
2.43.0


From e81bfaa1a7f431223cd53e7e147555a34d6827ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:32 +0000
Subject: [PATCH 17/30] fix: reject custom orders which are not a permutation
 of all hands

---
 clubs/poker/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/evaluator.py b/clubs/poker/evaluator.py
index 6b690dd..a902606 100644
--- a/clubs/poker/evaluator.py
+++ b/clubs/poker/evaluator.py
@@ -213,7 +213,7 @@ class LookupTable:
     ):
 
         if order is not None:
-            if any(string not in order for string in self.ORDER_STRINGS):
+            if sorted(order) != sorted(self.ORDER_STRINGS):
                 raise error.InvalidOrderError(
                     (
                         f"invalid order list {order},"
-- 
2.43.0


From a94d4da7d05d2e73124d81211df0de75c37c7dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:42 +0000
Subject: [PATCH 18/30] fix: return observations which do not change when the
 hand continues

---
 clubs/poker/engine.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 9671f8c..75a5919 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -642,16 +642,16 @@ class Dealer:
             call, min_raise, max_raise = self._bet_sizes()
         observation: ObservationDict = {
             "action": self.action,
-            "active": self.active,
+            "active": list(self.active),
             "button": self.button,
             "call": call,
-            "community_cards": self.community_cards,
-            "hole_cards": self.hole_cards[self.action],
+            "community_cards": list(self.community_cards),
+            "hole_cards": list(self.hole_cards[self.action]),
             "max_raise": max_raise,
             "min_raise": min_raise,
             "pot": self.pot,
-            "stacks": self.stacks,
-            "street_commits": self.street_commits,
+            "stacks": list(self.stacks),
+            "street_commits": list(self.street_commits),
         }
         return observation
 
-- 
2.43.0


From abcf8c26b2e60b79e1c33a6881953d711b695382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:42 +0000
Subject: [PATCH 19/30] fix: do not share lists of the configuration with the
 dealer

---
 clubs/poker/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 75a5919..9f3d964 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -146,7 +146,7 @@ class Dealer:
             if isinstance(var, list):
                 if len(var) != expect_num:
                     raise error.InvalidConfigError(error_msg)
-                return var
+                return list(var)
             return [var] * expect_num
 
         error_msg = "incorrect {} distribution, expected list of length {}, got {}"
-- 
2.43.0


From d0b32a54850dea40365cd4e0e2b774a099cc14c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:42 +0000
Subject: [PATCH 20/30] fix: leave the table untouched if a reset is refused

---
 clubs/poker/engine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 9f3d964..9151afb 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -284,11 +284,12 @@ class Dealer:
             self.active = [True] * self.num_players
             self.stacks = [self.start_stack] * self.num_players
         else:
-            self.active = [stack > 0 for stack in self.stacks]
-            if sum(self.active) <= 1:
+            active = [stack > 0 for stack in self.stacks]
+            if sum(active) <= 1:
                 raise error.TooFewActivePlayersError(
                     "not enough players have chips, set reset_stacks=True"
                 )
+            self.active = active
         if reset_button:
             self.button = 0
         else:
-- 
2.43.0


From df51cef06132ab22bc4a5eea0ae187e441aa2c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:42 +0000
Subject: [PATCH 21/30] fix: serve the graphic viewer on the requested host

---
 clubs/render/graphic.py | 1366 +++++++++++++++++++--------------------
 1 file changed, 683 insertions(+), 683 deletions(-)

diff --git a/clubs/render/graphic.py b/clubs/render/graphic.py
index 9eda291..359e913 100644
--- a/clubs/render/graphic.py
+++ b/clubs/render/graphic.py
@@ -1,683 +1,683 @@
-import copy
-import http.client
-import imp
-import math
-import multiprocessing
-import os
-import socket
-import time
-import urllib.error
-import urllib.request
-from multiprocessing import connection
-from typing import Any, Dict, List, Optional, Tuple, Union, overload
-from xml.etree import ElementTree as et
-
-from .. import error, poker
-from . import viewer
-
-try:
-    imp.find_module("gevent")
-    imp.find_module("flask")
-    imp.find_module("flask_socketio")
-    REQUIREMENTS = True
-except ImportError:
-    REQUIREMENTS = False
-
-
-class GraphicViewer(viewer.PokerViewer):
-    def __init__(
-        self,
-        num_players: int,
-        num_hole_cards: int,
-        num_community_cards: int,
-        host: str = "127.0.0.1",
-        port: int = 0,
-        **kwargs: Any,
-    ):
-        super(GraphicViewer, self).__init__(
-            num_players, num_hole_cards, num_community_cards, **kwargs
-        )
-        if not REQUIREMENTS:
-            raise error.MissingImportsError(
-                "unable to use web server rendering, make sure flask, "
-                "flask_socketio and gevent are installed"
-            )
-
-        self.host = host
-        if port:
-            self.port = port
-        else:
-            tmp_socket = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
-            tmp_socket.bind(("", 0))
-            self.port = tmp_socket.getsockname()[1]
-            tmp_socket.close()
-
-        self.svg_poker = _SVGPoker(
-            self.num_players, self.num_hole_cards, self.num_community_cards
-        )
-
-        self.process = multiprocessing.Process(target=self._run_flask)
-        self.process.start()
-
-        self._test_socket_conn()
-        self._test_flask_conn()
-        print(f"clubs table openend at http://{self.host}:{self.port}")
-
-    def _test_socket_conn(self) -> None:
-        start = time.time()
-        while True:
-            try:
-                self.socket = connection.Client((self.host, self.port + 1))
-                break
-            except (ConnectionRefusedError, OSError):
-                time.sleep(0.01)
-                if time.time() - start > 10:
-                    raise error.RenderInitializationError(
-                        "unable to connect to flask process socket"
-                    )
-
-    def _test_flask_conn(self) -> None:
-        start = time.time()
-        response: Optional[http.client.HTTPResponse] = None
-        while True:
-            try:
-                response = urllib.request.urlopen(f"http://{self.host}:{self.port}")
-                break
-            except urllib.error.URLError:
-                time.sleep(0.01)
-                if time.time() - start > 10:
-                    raise error.RenderInitializationError(
-                        "unable to connect to flask server"
-                    )
-
-        assert response and response.status == 200
-
-    def close(self) -> None:
-        if self.process.is_alive():
-            self.socket.send({"content": "close"})
-            self.process.terminate()
-            self.process.join()
-
-    def __del__(self) -> None:
-        self.close()
-
-    def _run_flask(self) -> None:
-        from gevent import monkey
-
-        monkey.patch_all()
-        import flask
-        import flask_socketio
-        import markupsafe
-
-        config: Dict[str, Any] = {}
-        dir_path = os.path.dirname(os.path.realpath(__file__))
-        templates_path = os.path.join(dir_path, "resources", "templates")
-        static_path = os.path.join(dir_path, "resources", "static")
-        app = flask.Flask(
-            "clubs", template_folder=templates_path, static_folder=static_path
-        )
-        socketio = flask_socketio.SocketIO(app)
-
-        @socketio.on("connect")
-        def connect():  # type: ignore
-            socketio.emit("config", config)
-
-        @app.route("/")
-        def index():  # type: ignore
-            svg = str(self.svg_poker.base_svg)
-            return flask.render_template("index.html", svg=markupsafe.Markup(svg))
-
-        def listener() -> None:
-            nonlocal config
-            socket = connection.Listener((self.host, self.port + 1))
-            conn = socket.accept()
-            while True:
-                if conn.poll():
-                    message: Dict[str, Any] = conn.recv()
-                    if message["content"] == "close":
-                        conn.close()
-                        break
-                    else:
-                        config = message["content"]
-                        socketio.emit("config", config, broadcast=True)
-                socketio.sleep(0.0001)
-            socket.close()
-
-        socketio.start_background_task(listener)
-
-        socketio.run(app, port=self.port)
-
-    def render(self, config: viewer.RenderConfig, sleep: float = 0) -> None:
-        """Render the table in browser based on the table configuration
-
-        Parameters
-        ----------
-        config : viewer.RenderConfig
-            game configuration dictionary
-
-        sleep : float, optional
-            sleep time after render, by default 0
-
-        Examples
-        --------
-        >>> from clubs import Card
-        >>> config = {
-        ...     'action': 0, # int - position of active player
-        ...     'active': [True, True], # List[bool] - list of active players
-        ...     'all_in': [False, False], # List[bool] - list of all in players
-        ...     'community_cards': [], # List[Card] - list of community cards
-        ...     'button': 0, # int - position of dealer button
-        ...     'done': False, # bool - toggle if hand is completed
-        ...     'hole_cards': [[Card("Ah")], [Card("Ac")]], # List[List[Card]] -
-        ...                                                 # list of list of hole card
-        ...     'pot': 10, # int - chips in pot
-        ...     'payouts': [0, 0], # List[int] - list of chips won for each player
-        ...     'prev_action': (1, 10, False], # Tuple[int, int, int] -
-        ...                                    # last position bet and fold
-        ...     'street_commits': [10, 20], # List[int] - list of number of
-        ...                                 # chips added to pot from each
-        ...                                 # player on current street
-        ...     'stacks': [100, 100] # List[int] - list of stack sizes
-        ... }
-        """
-        self.socket.send({"content": _jsonify(config)})
-        if sleep:
-            time.sleep(sleep)
-
-
-@overload
-def _convert_hands(hands: List[poker.Card]) -> List[str]:
-    ...  # pragma: no cover
-
-
-@overload
-def _convert_hands(hands: List[List[poker.Card]]) -> List[List[str]]:
-    ...  # pragma: no cover
-
-
-def _convert_hands(
-    hands: Union[List[poker.Card], List[List[poker.Card]]]
-) -> Union[List[str], List[List[str]]]:
-    _hands: List[List[str]] = []
-    _cards: List[str] = []
-    for hand in hands:
-        if isinstance(hand, poker.Card):
-            _cards.append(str(hand))
-        else:
-            _cards = []
-            for card in hand:
-                _cards.append(str(card))
-            _hands.append(_cards)
-    if _hands:
-        return _hands
-    return _cards
-
-
-def _jsonify(config: viewer.RenderConfig) -> Dict[str, Any]:
-    _config: Dict[str, Any] = {**config}
-    _config["hole_cards"] = _convert_hands(_config["hole_cards"])
-    _config["community_cards"] = _convert_hands(_config["community_cards"])
-    return _config
-
-
-class _RoundedRectangle:
-    def __init__(self, x: float, y: float, width: float, height: float) -> None:
-        self.x = x
-        self.y = y
-        self.width = width
-        self.height = height
-        self.center_x = width * 0.5
-        self.center_y = height * 0.5
-
-    def edge(self, frac: float) -> Tuple[float, float]:
-        frac = frac % 1
-        x, y = 0.0, 0.0
-        perimeter_frac = frac * self.perimeter
-        if perimeter_frac < self.straight_width * 0.5:
-            x = -perimeter_frac
-            y = self.radius_height
-        elif perimeter_frac < self.straight_width * 0.5 + self.circle_perimeter * 0.5:
-            circle_frac = (perimeter_frac - self.straight_width * 0.5) / (
-                self.circle_perimeter * 0.5
-            )
-            angle = math.pi * 0.5 + math.pi * circle_frac
-            x = self.radius_height * math.cos(angle) - self.straight_width * 0.5
-            y = self.radius_height * math.sin(angle)
-        elif perimeter_frac < self.straight_width * 1.5 + self.circle_perimeter * 0.5:
-            straight_frac = (
-                perimeter_frac - self.straight_width * 0.5 - self.circle_perimeter * 0.5
-            ) / self.straight_width
-            x = (straight_frac - 0.5) * self.straight_width
-            y = -self.radius_height
-        elif perimeter_frac < self.straight_width * 1.5 + self.circle_perimeter:
-            circle_frac = (
-                perimeter_frac - self.straight_width * 1.5 + self.circle_perimeter * 0.5
-            ) / (self.circle_perimeter * 0.5)
-            angle = math.pi * 1.5 + math.pi * circle_frac
-            x = self.radius_height * math.cos(angle) + self.straight_width * 0.5
-            y = self.radius_height * math.sin(angle)
-        elif frac <= 1:
-            straight_frac = (
-                perimeter_frac - self.straight_width * 1.5 - self.circle_perimeter
-            ) / self.straight_width
-            x = (-straight_frac + 0.5) * self.straight_width
-            y = self.radius_height
-        x += self.center_x + self.x
-        y += self.center_y + self.y
-        return round(x, 2), round(y, 2)
-
-    @property
-    def radius_height(self) -> float:
-        return float(self.height * 0.5)
-
-    @property
-    def circle_perimeter(self) -> float:
-        return float(math.pi * self.height)
-
-    @property
-    def straight_width(self) -> float:
-        return float(self.width - self.height)
-
-    @property
-    def perimeter(self) -> float:
-        return float(self.straight_width * 2 + 2 * math.pi * self.radius_height)
-
-
-class _SVGElement:
-
-    SVGS_PATH = os.path.join(
-        os.path.dirname(os.path.realpath(__file__)), "resources", "static", "images"
-    )
-
-    def __init__(self, name: str, svg: Optional[et.Element] = None) -> None:
-        if svg is None:
-            svg_path = os.path.join(self.SVGS_PATH, f"{name}.svg")
-            with open(svg_path, "r") as file:
-                svg_str = file.read()
-            self.svg = et.fromstring(svg_str)
-        else:
-            self.svg = svg
-        self.name = name
-
-    def __str__(self) -> str:
-        string: str = et.tostring(self.svg, encoding="utf8", method="xml").decode(
-            "utf8"
-        )
-        return string
-
-    def __repr__(self) -> str:
-        return f"_SVGElement<name={self.name}, id={id(self)}>"
-
-    @staticmethod
-    def _x_path(name: str, attr_name: Optional[str] = None) -> str:
-        if attr_name is not None:
-            return f".//*[@{attr_name}='{name}']"
-        return f".//{name}"
-
-    def get_sub_svg(self, name: str, attr_name: Optional[str] = None) -> "_SVGElement":
-        xpath = self._x_path(name, attr_name)
-        svg = self.svg.find(xpath)
-        if svg is None:
-            raise KeyError(f"unable to find sub svg with arguments {name}")
-        return _SVGElement(name, svg)
-
-    def get_sub_svgs(
-        self, name: str, attr_name: Optional[str] = None
-    ) -> List["_SVGElement"]:
-        xpath = self._x_path(name, attr_name)
-        svgs = self.svg.findall(xpath)
-        if not svgs:
-            raise KeyError(f"unable to find sub svg with arguments {name}")
-        return [_SVGElement(name, svg) for svg in svgs]
-
-    def get_svg_attr(self, tag_name: str) -> Optional[str]:
-        return self.svg.get(tag_name, None)
-
-    def set_svg_attr(self, tag_name: str, value: str) -> "_SVGElement":
-        self.svg.set(tag_name, value)
-        return self
-
-    @property
-    def x(self) -> float:
-        value = self.get_svg_attr("x")
-        if value is None:
-            return 0
-        return float(value)
-
-    @x.setter
-    def x(self, x: float) -> None:
-        self.set_svg_attr("x", str(x))
-
-    @property
-    def y(self) -> float:
-        value = self.get_svg_attr("y")
-        if value is None:
-            return 0
-        return float(value)
-
-    @y.setter
-    def y(self, y: float) -> None:
-        self.set_svg_attr("y", str(y))
-
-    @property
-    def width(self) -> float:
-        value = self.get_svg_attr("width")
-        if value is None:
-            return 0
-        return float(value)
-
-    @width.setter
-    def width(self, width: float) -> None:
-        self.set_svg_attr("width", str(width))
-
-    @property
-    def height(self) -> float:
-        value = self.get_svg_attr("height")
-        if value is None:
-            return 0
-        return float(value)
-
-    @height.setter
-    def height(self, height: float) -> None:
-        self.set_svg_attr("height", str(height))
-
-    @property
-    def id(self) -> Optional[str]:
-        return self.get_svg_attr("id")
-
-    @id.setter
-    def id(self, id: str) -> None:
-        self.set_svg_attr("id", str(id))
-
-    @property
-    def view_box(self) -> Optional[str]:
-        return self.get_svg_attr("viewBox")
-
-    @view_box.setter
-    def view_box(self, view_box: str) -> None:
-        self.set_svg_attr("viewBox", view_box)
-
-    @property
-    def view_box_x(self) -> Optional[float]:
-        view_box = self.view_box
-        if view_box is None:
-            return view_box
-        return float(view_box.split(" ")[0])
-
-    @view_box_x.setter
-    def view_box_x(self, view_box_x: float) -> None:
-        if self.view_box is not None:
-            split_view_box = self.view_box.split(" ")
-            split_view_box[0] = str(view_box_x)
-            view_box = " ".join(split_view_box)
-            self.set_svg_attr("viewBox", view_box)
-
-    @property
-    def view_box_y(self) -> Optional[float]:
-        view_box = self.view_box
-        if view_box is None:
-            return view_box
-        return float(view_box.split(" ")[1])
-
-    @view_box_y.setter
-    def view_box_y(self, view_box_y: float) -> None:
-        if self.view_box is not None:
-            split_view_box = self.view_box.split(" ")
-            split_view_box[1] = str(view_box_y)
-            view_box = " ".join(split_view_box)
-            self.set_svg_attr("viewBox", view_box)
-
-    @property
-    def view_box_width(self) -> Optional[float]:
-        view_box = self.view_box
-        if view_box is None:
-            return view_box
-        return float(view_box.split(" ")[2])
-
-    @view_box_width.setter
-    def view_box_width(self, view_box_width: float) -> None:
-        if self.view_box is not None:
-            split_view_box = self.view_box.split(" ")
-            split_view_box[2] = str(view_box_width)
-            view_box = " ".join(split_view_box)
-            self.set_svg_attr("viewBox", view_box)
-
-    @property
-    def view_box_height(self) -> Optional[float]:
-        view_box = self.view_box
-        if view_box is None:
-            return view_box
-        return float(view_box.split(" ")[3])
-
-    @view_box_height.setter
-    def view_box_height(self, view_box_height: float) -> None:
-        if self.view_box is not None:
-            split_view_box = self.view_box.split(" ")
-            split_view_box[3] = str(view_box_height)
-            view_box = " ".join(split_view_box)
-            self.set_svg_attr("viewBox", view_box)
-
-    def center_x(
-        self, other: Optional["_SVGElement"] = None, x: Optional[float] = None
-    ) -> "_SVGElement":
-        if other is not None:
-            if other.view_box_width is not None:
-                other_width = other.view_box_width
-            else:
-                other_width = other.width
-            self.x = (other_width - self.width) / 2
-        if x is not None:
-            self.x = x - self.width / 2
-        return self
-
-    def center_y(
-        self, other: Optional["_SVGElement"] = None, y: Optional[float] = None
-    ) -> "_SVGElement":
-        if other is not None:
-            if other.view_box_height is not None:
-                other_height = other.view_box_height
-            else:
-                other_height = other.height
-            self.y = (other_height - self.height) / 2
-        if y is not None:
-            self.y = y - self.height / 2
-        return self
-
-    def center(
-        self,
-        other: Optional["_SVGElement"] = None,
-        x: Optional[float] = None,
-        y: Optional[float] = None,
-    ) -> "_SVGElement":
-        self.center_x(other, x)
-        self.center_y(other, y)
-        return self
-
-    def extend(
-        self, other: Union[List["_SVGElement"], List[et.Element]]
-    ) -> "_SVGElement":
-        for element in other:
-            self.append(element)
-        return self
-
-    def append(self, other: Union["_SVGElement", et.Element]) -> "_SVGElement":
-        if isinstance(other, _SVGElement):
-            other = other.svg
-        self.svg.append(other)
-        return self
-
-    def remove(self, other: "_SVGElement") -> "_SVGElement":
-        self.svg.remove(other.svg)
-        return self
-
-    def copy(self) -> "_SVGElement":
-        return copy.deepcopy(self)
-
-
-class _SVGPoker:
-    def __init__(
-        self, num_players: int, num_hole_cards: int, num_community_cards: int
-    ) -> None:
-        self.num_players = num_players
-        self.num_hole_cards = num_hole_cards
-        self.num_community_cards = num_community_cards
-        self.base_svg = self._base_svg()
-
-    def _base_svg(self) -> "_SVGElement":
-        base = _SVGElement("base")
-        table = _SVGElement("table")
-        player = _SVGElement("player")
-        card = _SVGElement("card")
-        street_commit = _SVGElement("street_commit")
-        for pattern in _SVGElement("patterns").get_sub_svgs("pattern"):
-            base.append(pattern)
-
-        table.center(other=base)
-        base.append(table)
-
-        player_rectangle = _RoundedRectangle(
-            table.x, table.y, table.width, table.height
-        )
-        player_rectangle.width += 100
-        player_rectangle.height += 100
-        street_commit_rectangle = _RoundedRectangle(
-            table.x, table.y, table.width, table.height
-        )
-        street_commit_rectangle.width -= 225
-        street_commit_rectangle.height -= 185
-
-        players = self.add_players(player, card, player_rectangle)
-        street_commits = self.add_street_commits(street_commit, street_commit_rectangle)
-        community = self.add_community(player, card)
-        community.center(other=table)
-        community.x += table.x
-        community.y += table.y - 40
-
-        base.extend(players)
-        base.extend(street_commits)
-        base.append(community)
-
-        return base
-
-    @staticmethod
-    def new_player(
-        player: _SVGElement, label: str, card: _SVGElement, num_cards: int
-    ) -> _SVGElement:
-        new_player = player.copy()
-        new_player.id = label
-        card_width = card.width
-        cards = new_player.get_sub_svg("cards", "class")
-        cards.id = f"cards-{label}"
-
-        player_background = new_player.get_sub_svg("player-background", "class")
-        player_background.id = f"player-background-{label}"
-        chips = new_player.get_sub_svg("chips", "class")
-        chips.id = f"chips-{label}"
-        chips_background = chips.get_sub_svg("chips-background", "class")
-        chips_background.id = f"chips-background-{label}"
-        chips_text = chips.get_sub_svg("chips-text", "class")
-        chips_text.id = f"chips-text-{label}"
-        for card_idx in range(num_cards):
-            new_card = card.copy()
-            new_card.center_x(cards)
-            offset = (-card_width * num_cards / 2) + card_width * (card_idx + 0.5)
-            new_card.x += offset
-            new_card.id = f"card-{label}-{card_idx}"
-            card_background = new_card.get_sub_svg("card-background", "class")
-            card_background.id = f"card-background-{label}-{card_idx}"
-            card_text = new_card.get_sub_svg("card-text", "class")
-            card_text.id = f"card-text-{label}-{card_idx}"
-            cards.append(new_card)
-        return new_player
-
-    def add_players(
-        self,
-        player: _SVGElement,
-        card: _SVGElement,
-        player_rectangle: _RoundedRectangle,
-    ) -> List[_SVGElement]:
-        players = []
-        player = player.copy()
-        card = card.copy()
-        player.width = max(
-            0 if player.width is None else player.width,
-            card.width * self.num_hole_cards + 20,
-        )
-
-        player_background = player.get_sub_svg("player-background", "class")
-        player_background.width = player.width - 10
-        player_background.height = player_background.height - 10
-
-        cards = player.get_sub_svg("cards", "class")
-        cards.width = self.num_hole_cards * card.width
-        cards.center_x(player)
-
-        card_background = card.get_sub_svg("card-background", "class")
-        card_background.set_svg_attr("fill", "url(#card-back)")
-
-        chips = player.get_sub_svg("chips", "class")
-        chips.width = player.width - 20
-        chips.center_x(player)
-
-        for player_idx in range(self.num_players):
-            x, y = player_rectangle.edge(player_idx / (self.num_players))
-            new_player = self.new_player(
-                player, str(player_idx), card, self.num_hole_cards
-            )
-            new_player.center(x=round(x), y=round(y))
-            players.append(new_player)
-        return players
-
-    def add_community(self, player: _SVGElement, card: _SVGElement) -> _SVGElement:
-        community = player.copy()
-        card = card.copy()
-
-        community.width = card.width * (self.num_community_cards + 1) + 20
-        cards = community.get_sub_svg("cards", "class")
-        cards.width = community.width
-        card_background = card.get_sub_svg("card-background", "class")
-        card_background.set_svg_attr("fill", "url(#card-blank)")
-        cards.center_x(community)
-
-        community = self.new_player(
-            community, "community", card, self.num_community_cards + 1
-        )
-
-        community_background = community.get_sub_svg("player-background", "class")
-        community.remove(community_background)
-
-        chips = community.get_sub_svg("chips", "class")
-        chips.width = community.width - 60
-        chips.center_x(community)
-        chips.id = "pot"
-        chips.get_sub_svg("chips-background", "class").id = "pot-background"
-        chips.get_sub_svg("chips-text", "class").id = "pot-text"
-        community.set_svg_attr("class", "community")
-        card_0 = community.get_sub_svg("card-community-0", "id")
-        card_0.get_sub_svg("card-background", "class").set_svg_attr(
-            "fill", "url(#card-back)"
-        )
-        card_0.x -= 10
-        return community
-
-    def add_street_commits(
-        self, street_commit: _SVGElement, street_commit_retangle: _RoundedRectangle
-    ) -> List[_SVGElement]:
-        street_commits = []
-        for player_idx in range(self.num_players):
-            x, y = street_commit_retangle.edge(player_idx / (self.num_players))
-            new_street_commit = street_commit.copy()
-            new_street_commit.id = f"street-commit-{player_idx}"
-            street_commit_background = new_street_commit.get_sub_svg(
-                "chips-background", "class"
-            )
-            street_commit_background.id = f"street-commit-background-{player_idx}"
-            street_commit_text = new_street_commit.get_sub_svg("chips-text", "class")
-            street_commit_text.id = f"street-commit-text-{player_idx}"
-            button = new_street_commit.get_sub_svg("button", "class")
-            button.id = f"button-{player_idx}"
-            button_background = button.get_sub_svg("button-background", "class")
-            button_background.id = f"button-background-{player_idx}"
-            new_street_commit.center(x=round(x), y=round(y))
-            street_commits.append(new_street_commit)
-        return street_commits
+import copy
+import http.client
+import imp
+import math
+import multiprocessing
+import os
+import socket
+import time
+import urllib.error
+import urllib.request
+from multiprocessing import connection
+from typing import Any, Dict, List, Optional, Tuple, Union, overload
+from xml.etree import ElementTree as et
+
+from .. import error, poker
+from . import viewer
+
+try:
+    imp.find_module("gevent")
+    imp.find_module("flask")
+    imp.find_module("flask_socketio")
+    REQUIREMENTS = True
+except ImportError:
+    REQUIREMENTS = False
+
+
+class GraphicViewer(viewer.PokerViewer):
+    def __init__(
+        self,
+        num_players: int,
+        num_hole_cards: int,
+        num_community_cards: int,
+        host: str = "127.0.0.1",
+        port: int = 0,
+        **kwargs: Any,
+    ):
+        super(GraphicViewer, self).__init__(
+            num_players, num_hole_cards, num_community_cards, **kwargs
+        )
+        if not REQUIREMENTS:
+            raise error.MissingImportsError(
+                "unable to use web server rendering, make sure flask, "
+                "flask_socketio and gevent are installed"
+            )
+
+        self.host = host
+        if port:
+            self.port = port
+        else:
+            tmp_socket = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
+            tmp_socket.bind(("", 0))
+            self.port = tmp_socket.getsockname()[1]
+            tmp_socket.close()
+
+        self.svg_poker = _SVGPoker(
+            self.num_players, self.num_hole_cards, self.num_community_cards
+        )
+
+        self.process = multiprocessing.Process(target=self._run_flask)
+        self.process.start()
+
+        self._test_socket_conn()
+        self._test_flask_conn()
+        print(f"clubs table openend at http://{self.host}:{self.port}")
+
+    def _test_socket_conn(self) -> None:
+        start = time.time()
+        while True:
+            try:
+                self.socket = connection.Client((self.host, self.port + 1))
+                break
+            except (ConnectionRefusedError, OSError):
+                time.sleep(0.01)
+                if time.time() - start > 10:
+                    raise error.RenderInitializationError(
+                        "unable to connect to flask process socket"
+                    )
+
+    def _test_flask_conn(self) -> None:
+        start = time.time()
+        response: Optional[http.client.HTTPResponse] = None
+        while True:
+            try:
+                response = urllib.request.urlopen(f"http://{self.host}:{self.port}")
+                break
+            except urllib.error.URLError:
+                time.sleep(0.01)
+                if time.time() - start > 10:
+                    raise error.RenderInitializationError(
+                        "unable to connect to flask server"
+                    )
+
+        assert response and response.status == 200
+
+    def close(self) -> None:
+        if self.process.is_alive():
+            self.socket.send({"content": "close"})
+            self.process.terminate()
+            self.process.join()
+
+    def __del__(self) -> None:
+        self.close()
+
+    def _run_flask(self) -> None:
+        from gevent import monkey
+
+        monkey.patch_all()
+        import flask
+        import flask_socketio
+        import markupsafe
+
+        config: Dict[str, Any] = {}
+        dir_path = os.path.dirname(os.path.realpath(__file__))
+        templates_path = os.path.join(dir_path, "resources", "templates")
+        static_path = os.path.join(dir_path, "resources", "static")
+        app = flask.Flask(
+            "clubs", template_folder=templates_path, static_folder=static_path
+        )
+        socketio = flask_socketio.SocketIO(app)
+
+        @socketio.on("connect")
+        def connect():  # type: ignore
+            socketio.emit("config", config)
+
+        @app.route("/")
+        def index():  # type: ignore
+            svg = str(self.svg_poker.base_svg)
+            return flask.render_template("index.html", svg=markupsafe.Markup(svg))
+
+        def listener() -> None:
+            nonlocal config
+            socket = connection.Listener((self.host, self.port + 1))
+            conn = socket.accept()
+            while True:
+                if conn.poll():
+                    message: Dict[str, Any] = conn.recv()
+                    if message["content"] == "close":
+                        conn.close()
+                        break
+                    else:
+                        config = message["content"]
+                        socketio.emit("config", config, broadcast=True)
+                socketio.sleep(0.0001)
+            socket.close()
+
+        socketio.start_background_task(listener)
+
+        socketio.run(app, host=self.host, port=self.port)
+
+    def render(self, config: viewer.RenderConfig, sleep: float = 0) -> None:
+        """Render the table in browser based on the table configuration
+
+        Parameters
+        ----------
+        config : viewer.RenderConfig
+            game configuration dictionary
+
+        sleep : float, optional
+            sleep time after render, by default 0
+
+        Examples
+        --------
+        >>> from clubs import Card
+        >>> config = {
+        ...     'action': 0, # int - position of active player
+        ...     'active': [True, True], # List[bool] - list of active players
+        ...     'all_in': [False, False], # List[bool] - list of all in players
+        ...     'community_cards': [], # List[Card] - list of community cards
+        ...     'button': 0, # int - position of dealer button
+        ...     'done': False, # bool - toggle if hand is completed
+        ...     'hole_cards': [[Card("Ah")], [Card("Ac")]], # List[List[Card]] -
+        ...                                                 # list of list of hole card
+        ...     'pot': 10, # int - chips in pot
+        ...     'payouts': [0, 0], # List[int] - list of chips won for each player
+        ...     'prev_action': (1, 10, False], # Tuple[int, int, int] -
+        ...                                    # last position bet and fold
+        ...     'street_commits': [10, 20], # List[int] - list of number of
+        ...                                 # chips added to pot from each
+        ...                                 # player on current street
+        ...     'stacks': [100, 100] # List[int] - list of stack sizes
+        ... }
+        """
+        self.socket.send({"content": _jsonify(config)})
+        if sleep:
+            time.sleep(sleep)
+
+
+@overload
+def _convert_hands(hands: List[poker.Card]) -> List[str]:
+    ...  # pragma: no cover
+
+
+@overload
+def _convert_hands(hands: List[List[poker.Card]]) -> List[List[str]]:
+    ...  # pragma: no cover
+
+
+def _convert_hands(
+    hands: Union[List[poker.Card], List[List[poker.Card]]]
+) -> Union[List[str], List[List[str]]]:
+    _hands: List[List[str]] = []
+    _cards: List[str] = []
+    for hand in hands:
+        if isinstance(hand, poker.Card):
+            _cards.append(str(hand))
+        else:
+            _cards = []
+            for card in hand:
+                _cards.append(str(card))
+            _hands.append(_cards)
+    if _hands:
+        return _hands
+    return _cards
+
+
+def _jsonify(config: viewer.RenderConfig) -> Dict[str, Any]:
+    _config: Dict[str, Any] = {**config}
+    _config["hole_cards"] = _convert_hands(_config["hole_cards"])
+    _config["community_cards"] = _convert_hands(_config["community_cards"])
+    return _config
+
+
+class _RoundedRectangle:
+    def __init__(self, x: float, y: float, width: float, height: float) -> None:
+        self.x = x
+        self.y = y
+        self.width = width
+        self.height = height
+        self.center_x = width * 0.5
+        self.center_y = height * 0.5
+
+    def edge(self, frac: float) -> Tuple[float, float]:
+        frac = frac % 1
+        x, y = 0.0, 0.0
+        perimeter_frac = frac * self.perimeter
+        if perimeter_frac < self.straight_width * 0.5:
+            x = -perimeter_frac
+            y = self.radius_height
+        elif perimeter_frac < self.straight_width * 0.5 + self.circle_perimeter * 0.5:
+            circle_frac = (perimeter_frac - self.straight_width * 0.5) / (
+                self.circle_perimeter * 0.5
+            )
+            angle = math.pi * 0.5 + math.pi * circle_frac
+            x = self.radius_height * math.cos(angle) - self.straight_width * 0.5
+            y = self.radius_height * math.sin(angle)
+        elif perimeter_frac < self.straight_width * 1.5 + self.circle_perimeter * 0.5:
+            straight_frac = (
+                perimeter_frac - self.straight_width * 0.5 - self.circle_perimeter * 0.5
+            ) / self.straight_width
+            x = (straight_frac - 0.5) * self.straight_width
+            y = -self.radius_height
+        elif perimeter_frac < self.straight_width * 1.5 + self.circle_perimeter:
+            circle_frac = (
+                perimeter_frac - self.straight_width * 1.5 + self.circle_perimeter * 0.5
+            ) / (self.circle_perimeter * 0.5)
+            angle = math.pi * 1.5 + math.pi * circle_frac
+            x = self.radius_height * math.cos(angle) + self.straight_width * 0.5
+            y = self.radius_height * math.sin(angle)
+        elif frac <= 1:
+            straight_frac = (
+                perimeter_frac - self.straight_width * 1.5 - self.circle_perimeter
+            ) / self.straight_width
+            x = (-straight_frac + 0.5) * self.straight_width
+            y = self.radius_height
+        x += self.center_x + self.x
+        y += self.center_y + self.y
+        return round(x, 2), round(y, 2)
+
+    @property
+    def radius_height(self) -> float:
+        return float(self.height * 0.5)
+
+    @property
+    def circle_perimeter(self) -> float:
+        return float(math.pi * self.height)
+
+    @property
+    def straight_width(self) -> float:
+        return float(self.width - self.height)
+
+    @property
+    def perimeter(self) -> float:
+        return float(self.straight_width * 2 + 2 * math.pi * self.radius_height)
+
+
+class _SVGElement:
+
+    SVGS_PATH = os.path.join(
+        os.path.dirname(os.path.realpath(__file__)), "resources", "static", "images"
+    )
+
+    def __init__(self, name: str, svg: Optional[et.Element] = None) -> None:
+        if svg is None:
+            svg_path = os.path.join(self.SVGS_PATH, f"{name}.svg")
+            with open(svg_path, "r") as file:
+                svg_str = file.read()
+            self.svg = et.fromstring(svg_str)
+        else:
+            self.svg = svg
+        self.name = name
+
+    def __str__(self) -> str:
+        string: str = et.tostring(self.svg, encoding="utf8", method="xml").decode(
+            "utf8"
+        )
+        return string
+
+    def __repr__(self) -> str:
+        return f"_SVGElement<name={self.name}, id={id(self)}>"
+
+    @staticmethod
+    def _x_path(name: str, attr_name: Optional[str] = None) -> str:
+        if attr_name is not None:
+            return f".//*[@{attr_name}='{name}']"
+        return f".//{name}"
+
+    def get_sub_svg(self, name: str, attr_name: Optional[str] = None) -> "_SVGElement":
+        xpath = self._x_path(name, attr_name)
+        svg = self.svg.find(xpath)
+        if svg is None:
+            raise KeyError(f"unable to find sub svg with arguments {name}")
+        return _SVGElement(name, svg)
+
+    def get_sub_svgs(
+        self, name: str, attr_name: Optional[str] = None
+    ) -> List["_SVGElement"]:
+        xpath = self._x_path(name, attr_name)
+        svgs = self.svg.findall(xpath)
+        if not svgs:
+            raise KeyError(f"unable to find sub svg with arguments {name}")
+        return [_SVGElement(name, svg) for svg in svgs]
+
+    def get_svg_attr(self, tag_name: str) -> Optional[str]:
+        return self.svg.get(tag_name, None)
+
+    def set_svg_attr(self, tag_name: str, value: str) -> "_SVGElement":
+        self.svg.set(tag_name, value)
+        return self
+
+    @property
+    def x(self) -> float:
+        value = self.get_svg_attr("x")
+        if value is None:
+            return 0
+        return float(value)
+
+    @x.setter
+    def x(self, x: float) -> None:
+        self.set_svg_attr("x", str(x))
+
+    @property
+    def y(self) -> float:
+        value = self.get_svg_attr("y")
+        if value is None:
+            return 0
+        return float(value)
+
+    @y.setter
+    def y(self, y: float) -> None:
+        self.set_svg_attr("y", str(y))
+
+    @property
+    def width(self) -> float:
+        value = self.get_svg_attr("width")
+        if value is None:
+            return 0
+        return float(value)
+
+    @width.setter
+    def width(self, width: float) -> None:
+        self.set_svg_attr("width", str(width))
+
+    @property
+    def height(self) -> float:
+        value = self.get_svg_attr("height")
+        if value is None:
+            return 0
+        return float(value)
+
+    @height.setter
+    def height(self, height: float) -> None:
+        self.set_svg_attr("height", str(height))
+
+    @property
+    def id(self) -> Optional[str]:
+        return self.get_svg_attr("id")
+
+    @id.setter
+    def id(self, id: str) -> None:
+        self.set_svg_attr("id", str(id))
+
+    @property
+    def view_box(self) -> Optional[str]:
+        return self.get_svg_attr("viewBox")
+
+    @view_box.setter
+    def view_box(self, view_box: str) -> None:
+        self.set_svg_attr("viewBox", view_box)
+
+    @property
+    def view_box_x(self) -> Optional[float]:
+        view_box = self.view_box
+        if view_box is None:
+            return view_box
+        return float(view_box.split(" ")[0])
+
+    @view_box_x.setter
+    def view_box_x(self, view_box_x: float) -> None:
+        if self.view_box is not None:
+            split_view_box = self.view_box.split(" ")
+            split_view_box[0] = str(view_box_x)
+            view_box = " ".join(split_view_box)
+            self.set_svg_attr("viewBox", view_box)
+
+    @property
+    def view_box_y(self) -> Optional[float]:
+        view_box = self.view_box
+        if view_box is None:
+            return view_box
+        return float(view_box.split(" ")[1])
+
+    @view_box_y.setter
+    def view_box_y(self, view_box_y: float) -> None:
+        if self.view_box is not None:
+            split_view_box = self.view_box.split(" ")
+            split_view_box[1] = str(view_box_y)
+            view_box = " ".join(split_view_box)
+            self.set_svg_attr("viewBox", view_box)
+
+    @property
+    def view_box_width(self) -> Optional[float]:
+        view_box = self.view_box
+        if view_box is None:
+            return view_box
+        return float(view_box.split(" ")[2])
+
+    @view_box_width.setter
+    def view_box_width(self, view_box_width: float) -> None:
+        if self.view_box is not None:
+            split_view_box = self.view_box.split(" ")
+            split_view_box[2] = str(view_box_width)
+            view_box = " ".join(split_view_box)
+            self.set_svg_attr("viewBox", view_box)
+
+    @property
+    def view_box_height(self) -> Optional[float]:
+        view_box = self.view_box
+        if view_box is None:
+            return view_box
+        return float(view_box.split(" ")[3])
+
+    @view_box_height.setter
+    def view_box_height(self, view_box_height: float) -> None:
+        if self.view_box is not None:
+            split_view_box = self.view_box.split(" ")
+            split_view_box[3] = str(view_box_height)
+            view_box = " ".join(split_view_box)
+            self.set_svg_attr("viewBox", view_box)
+
+    def center_x(
+        self, other: Optional["_SVGElement"] = None, x: Optional[float] = None
+    ) -> "_SVGElement":
+        if other is not None:
+            if other.view_box_width is not None:
+                other_width = other.view_box_width
+            else:
+                other_width = other.width
+            self.x = (other_width - self.width) / 2
+        if x is not None:
+            self.x = x - self.width / 2
+        return self
+
+    def center_y(
+        self, other: Optional["_SVGElement"] = None, y: Optional[float] = None
+    ) -> "_SVGElement":
+        if other is not None:
+            if other.view_box_height is not None:
+                other_height = other.view_box_height
+            else:
+                other_height = other.height
+            self.y = (other_height - self.height) / 2
+        if y is not None:
+            self.y = y - self.height / 2
+        return self
+
+    def center(
+        self,
+        other: Optional["_SVGElement"] = None,
+        x: Optional[float] = None,
+        y: Optional[float] = None,
+    ) -> "_SVGElement":
+        self.center_x(other, x)
+        self.center_y(other, y)
+        return self
+
+    def extend(
+        self, other: Union[List["_SVGElement"], List[et.Element]]
+    ) -> "_SVGElement":
+        for element in other:
+            self.append(element)
+        return self
+
+    def append(self, other: Union["_SVGElement", et.Element]) -> "_SVGElement":
+        if isinstance(other, _SVGElement):
+            other = other.svg
+        self.svg.append(other)
+        return self
+
+    def remove(self, other: "_SVGElement") -> "_SVGElement":
+        self.svg.remove(other.svg)
+        return self
+
+    def copy(self) -> "_SVGElement":
+        return copy.deepcopy(self)
+
+
+class _SVGPoker:
+    def __init__(
+        self, num_players: int, num_hole_cards: int, num_community_cards: int
+    ) -> None:
+        self.num_players = num_players
+        self.num_hole_cards = num_hole_cards
+        self.num_community_cards = num_community_cards
+        self.base_svg = self._base_svg()
+
+    def _base_svg(self) -> "_SVGElement":
+        base = _SVGElement("base")
+        table = _SVGElement("table")
+        player = _SVGElement("player")
+        card = _SVGElement("card")
+        street_commit = _SVGElement("street_commit")
+        for pattern in _SVGElement("patterns").get_sub_svgs("pattern"):
+            base.append(pattern)
+
+        table.center(other=base)
+        base.append(table)
+
+        player_rectangle = _RoundedRectangle(
+            table.x, table.y, table.width, table.height
+        )
+        player_rectangle.width += 100
+        player_rectangle.height += 100
+        street_commit_rectangle = _RoundedRectangle(
+            table.x, table.y, table.width, table.height
+        )
+        street_commit_rectangle.width -= 225
+        street_commit_rectangle.height -= 185
+
+        players = self.add_players(player, card, player_rectangle)
+        street_commits = self.add_street_commits(street_commit, street_commit_rectangle)
+        community = self.add_community(player, card)
+        community.center(other=table)
+        community.x += table.x
+        community.y += table.y - 40
+
+        base.extend(players)
+        base.extend(street_commits)
+        base.append(community)
+
+        return base
+
+    @staticmethod
+    def new_player(
+        player: _SVGElement, label: str, card: _SVGElement, num_cards: int
+    ) -> _SVGElement:
+        new_player = player.copy()
+        new_player.id = label
+        card_width = card.width
+        cards = new_player.get_sub_svg("cards", "class")
+        cards.id = f"cards-{label}"
+
+        player_background = new_player.get_sub_svg("player-background", "class")
+        player_background.id = f"player-background-{label}"
+        chips = new_player.get_sub_svg("chips", "class")
+        chips.id = f"chips-{label}"
+        chips_background = chips.get_sub_svg("chips-background", "class")
+        chips_background.id = f"chips-background-{label}"
+        chips_text = chips.get_sub_svg("chips-text", "class")
+        chips_text.id = f"chips-text-{label}"
+        for card_idx in range(num_cards):
+            new_card = card.copy()
+            new_card.center_x(cards)
+            offset = (-card_width * num_cards / 2) + card_width * (card_idx + 0.5)
+            new_card.x += offset
+            new_card.id = f"card-{label}-{card_idx}"
+            card_background = new_card.get_sub_svg("card-background", "class")
+            card_background.id = f"card-background-{label}-{card_idx}"
+            card_text = new_card.get_sub_svg("card-text", "class")
+            card_text.id = f"card-text-{label}-{card_idx}"
+            cards.append(new_card)
+        return new_player
+
+    def add_players(
+        self,
+        player: _SVGElement,
+        card: _SVGElement,
+        player_rectangle: _RoundedRectangle,
+    ) -> List[_SVGElement]:
+        players = []
+        player = player.copy()
+        card = card.copy()
+        player.width = max(
+            0 if player.width is None else player.width,
+            card.width * self.num_hole_cards + 20,
+        )
+
+        player_background = player.get_sub_svg("player-background", "class")
+        player_background.width = player.width - 10
+        player_background.height = player_background.height - 10
+
+        cards = player.get_sub_svg("cards", "class")
+        cards.width = self.num_hole_cards * card.width
+        cards.center_x(player)
+
+        card_background = card.get_sub_svg("card-background", "class")
+        card_background.set_svg_attr("fill", "url(#card-back)")
+
+        chips = player.get_sub_svg("chips", "class")
+        chips.width = player.width - 20
+        chips.center_x(player)
+
+        for player_idx in range(self.num_players):
+            x, y = player_rectangle.edge(player_idx / (self.num_players))
+            new_player = self.new_player(
+                player, str(player_idx), card, self.num_hole_cards
+            )
+            new_player.center(x=round(x), y=round(y))
+            players.append(new_player)
+        return players
+
+    def add_community(self, player: _SVGElement, card: _SVGElement) -> _SVGElement:
+        community = player.copy()
+        card = card.copy()
+
+        community.width = card.width * (self.num_community_cards + 1) + 20
+        cards = community.get_sub_svg("cards", "class")
+        cards.width = community.width
+        card_background = card.get_sub_svg("card-background", "class")
+        card_background.set_svg_attr("fill", "url(#card-blank)")
+        cards.center_x(community)
+
+        community = self.new_player(
+            community, "community", card, self.num_community_cards + 1
+        )
+
+        community_background = community.get_sub_svg("player-background", "class")
+        community.remove(community_background)
+
+        chips = community.get_sub_svg("chips", "class")
+        chips.width = community.width - 60
+        chips.center_x(community)
+        chips.id = "pot"
+        chips.get_sub_svg("chips-background", "class").id = "pot-background"
+        chips.get_sub_svg("chips-text", "class").id = "pot-text"
+        community.set_svg_attr("class", "community")
+        card_0 = community.get_sub_svg("card-community-0", "id")
+        card_0.get_sub_svg("card-background", "class").set_svg_attr(
+            "fill", "url(#card-back)"
+        )
+        card_0.x -= 10
+        return community
+
+    def add_street_commits(
+        self, street_commit: _SVGElement, street_commit_retangle: _RoundedRectangle
+    ) -> List[_SVGElement]:
+        street_commits = []
+        for player_idx in range(self.num_players):
+            x, y = street_commit_retangle.edge(player_idx / (self.num_players))
+            new_street_commit = street_commit.copy()
+            new_street_commit.id = f"street-commit-{player_idx}"
+            street_commit_background = new_street_commit.get_sub_svg(
+                "chips-background", "class"
+            )
+            street_commit_background.id = f"street-commit-background-{player_idx}"
+            street_commit_text = new_street_commit.get_sub_svg("chips-text", "class")
+            street_commit_text.id = f"street-commit-text-{player_idx}"
+            button = new_street_commit.get_sub_svg("button", "class")
+            button.id = f"button-{player_idx}"
+            button_background = button.get_sub_svg("button-background", "class")
+            button_background.id = f"button-background-{player_idx}"
+            new_street_commit.center(x=round(x), y=round(y))
+            street_commits.append(new_street_commit)
+        return street_commits
-- 
2.43.0


From 74a8cf756422ce3127097d0efc86e12299e9cd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:24 +0000
Subject: [PATCH 22/30] fix: exclude tied players from side pots they have not
 contributed to

---
 clubs/poker/engine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 9151afb..9a1805e 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -722,6 +722,8 @@ class Dealer:
             # cut can only be as large as lowest player commit amount
             cut = [min(hand[2], pot_commit) for hand in hands]
             split_pot = sum(cut)
+            # remove player from next split pot
+            hands[hand_idx][1] = worst_hand
             if not split_pot:
                 continue
             # chips only folded players committed go to the last winners
@@ -744,8 +746,6 @@ class Dealer:
             for idx in range(len(cut)):
                 hands[idx][2] -= cut[idx]
             pot -= split_pot
-            # remove player from next split pot
-            hands[hand_idx][1] = worst_hand
             if pot == 0:
                 break
         return payouts
-- 
2.43.0


From 414b9d1d99bb8dc9533241c191f43b8f1a4c5c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:17 +0000
Subject: [PATCH 23/30] fix: render the hand as running if everybody is all in
 by forced bets

---
 clubs/poker/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 9a1805e..5a4594d 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -443,7 +443,7 @@ class Dealer:
         ]
         community_cards = self.community_cards
         button = int(self.button)
-        done = all(self._done())
+        done = self.action == -1
         hole_cards = self.hole_cards
         pot = int(self.pot)
         payouts = self._payouts()
-- 
2.43.0


From 20c45fc4b7ab851b5801b7a2f6356adfaa27355b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:06 +0000
Subject: [PATCH 24/30] fix: reject the long s as suit of a card

---
 clubs/poker/card.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clubs/poker/card.py b/clubs/poker/card.py
index ea3d573..b97902c 100644
--- a/clubs/poker/card.py
+++ b/clubs/poker/card.py
@@ -59,7 +59,8 @@ class Card:
     def __init__(self, string: str) -> None:
 
         rank_char = string[0].upper()
-        suit_char = string[1].upper()
+        # some non-ascii letters have a valid suit as upper case, e.g. long s
+        suit_char = string[1].upper() if string[1] < chr(128) else string[1]
         try:
             rank_int = CHAR_RANK_TO_INT_RANK[rank_char]
         except KeyError:
-- 
2.43.0


From 6a2635426bc5059ac2c66a9fc73e89d7499bf475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:46 +0000
Subject: [PATCH 25/30] fix: send the state to the connecting browser only, not
 to all of them again

---
 clubs/render/graphic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/render/graphic.py b/clubs/render/graphic.py
index 359e913..a3dd3a4 100644
--- a/clubs/render/graphic.py
+++ b/clubs/render/graphic.py
@@ -120,7 +120,7 @@ class GraphicViewer(viewer.PokerViewer):
 
         @socketio.on("connect")
         def connect():  # type: ignore
-            socketio.emit("config", config)
+            flask_socketio.emit("config", config)
 
         @app.route("/")
         def index():  # type: ignore
-- 
2.43.0


From 409ca5b4435de15295f054e5e125ebe400b36589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:21 +0000
Subject: [PATCH 26/30] fix: reset the shown street commits if there is no
 state

---
 clubs/render/resources/static/parse_config.js | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clubs/render/resources/static/parse_config.js b/clubs/render/resources/static/parse_config.js
index 178b379..9b6164a 100644
--- a/clubs/render/resources/static/parse_config.js
+++ b/clubs/render/resources/static/parse_config.js
@@ -6,6 +6,7 @@
     for (let player_idx = 0; player_idx < players.length; player_idx++) {
       let player = players[player_idx];
       player.getElementById(`chips-text-${player_idx}`).innerHTML = 0;
+      document.getElementById(`street-commit-text-${player_idx}`).innerHTML = 0;
       let card_backgrounds = player.getElementsByClassName("card-background");
       for (let card_background of card_backgrounds) {
         card_background.setAttribute("fill", "url(#card-back)");
-- 
2.43.0


From 992b3f2088cf91163451bc7739ed6c72c7dced9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:29 +0000
Subject: [PATCH 27/30] fix: restore the line endings of graphic.py, changed by
 accident with the host fix

---
 clubs/render/graphic.py | 1366 +++++++++++++++++++--------------------
 1 file changed, 683 insertions(+), 683 deletions(-)

diff --git a/clubs/render/graphic.py b/clubs/render/graphic.py
index a3dd3a4..40dff62 100644
--- a/clubs/render/graphic.py
+++ b/clubs/render/graphic.py
@@ -1,683 +1,683 @@
-import copy
-import http.client
-import imp
-import math
-import multiprocessing
-import os
-import socket
-import time
-import urllib.error
-import urllib.request
-from multiprocessing import connection
-from typing import Any, Dict, List, Optional, Tuple, Union, overload
-from xml.etree import ElementTree as et
-
-from .. import error, poker
-from . import viewer
-
-try:
-    imp.find_module("gevent")
-    imp.find_module("flask")
-    imp.find_module("flask_socketio")
-    REQUIREMENTS = True
-except ImportError:
-    REQUIREMENTS = False
-
-
-class GraphicViewer(viewer.PokerViewer):
-    def __init__(
-        self,
-        num_players: int,
-        num_hole_cards: int,
-        num_community_cards: int,
-        host: str = "127.0.0.1",
-        port: int = 0,
-        **kwargs: Any,
-    ):
-        super(GraphicViewer, self).__init__(
-            num_players, num_hole_cards, num_community_cards, **kwargs
-        )
-        if not REQUIREMENTS:
-            raise error.MissingImportsError(
-                "unable to use web server rendering, make sure flask, "
-                "flask_socketio and gevent are installed"
-            )
-
-        self.host = host
-        if port:
-            self.port = port
-        else:
-            tmp_socket = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
-            tmp_socket.bind(("", 0))
-            self.port = tmp_socket.getsockname()[1]
-            tmp_socket.close()
-
-        self.svg_poker = _SVGPoker(
-            self.num_players, self.num_hole_cards, self.num_community_cards
-        )
-
-        self.process = multiprocessing.Process(target=self._run_flask)
-        self.process.start()
-
-        self._test_socket_conn()
-        self._test_flask_conn()
-        print(f"clubs table openend at http://{self.host}:{self.port}")
-
-    def _test_socket_conn(self) -> None:
-        start = time.time()
-        while True:
-            try:
-                self.socket = connection.Client((self.host, self.port + 1))
-                break
-            except (ConnectionRefusedError, OSError):
-                time.sleep(0.01)
-                if time.time() - start > 10:
-                    raise error.RenderInitializationError(
-                        "unable to connect to flask process socket"
-                    )
-
-    def _test_flask_conn(self) -> None:
-        start = time.time()
-        response: Optional[http.client.HTTPResponse] = None
-        while True:
-            try:
-                response = urllib.request.urlopen(f"http://{self.host}:{self.port}")
-                break
-            except urllib.error.URLError:
-                time.sleep(0.01)
-                if time.time() - start > 10:
-                    raise error.RenderInitializationError(
-                        "unable to connect to flask server"
-                    )
-
-        assert response and response.status == 200
-
-    def close(self) -> None:
-        if self.process.is_alive():
-            self.socket.send({"content": "close"})
-            self.process.terminate()
-            self.process.join()
-
-    def __del__(self) -> None:
-        self.close()
-
-    def _run_flask(self) -> None:
-        from gevent import monkey
-
-        monkey.patch_all()
-        import flask
-        import flask_socketio
-        import markupsafe
-
-        config: Dict[str, Any] = {}
-        dir_path = os.path.dirname(os.path.realpath(__file__))
-        templates_path = os.path.join(dir_path, "resources", "templates")
-        static_path = os.path.join(dir_path, "resources", "static")
-        app = flask.Flask(
-            "clubs", template_folder=templates_path, static_folder=static_path
-        )
-        socketio = flask_socketio.SocketIO(app)
-
-        @socketio.on("connect")
-        def connect():  # type: ignore
-            flask_socketio.emit("config", config)
-
-        @app.route("/")
-        def index():  # type: ignore
-            svg = str(self.svg_poker.base_svg)
-            return flask.render_template("index.html", svg=markupsafe.Markup(svg))
-
-        def listener() -> None:
-            nonlocal config
-            socket = connection.Listener((self.host, self.port + 1))
-            conn = socket.accept()
-            while True:
-                if conn.poll():
-                    message: Dict[str, Any] = conn.recv()
-                    if message["content"] == "close":
-                        conn.close()
-                        break
-                    else:
-                        config = message["content"]
-                        socketio.emit("config", config, broadcast=True)
-                socketio.sleep(0.0001)
-            socket.close()
-
-        socketio.start_background_task(listener)
-
-        socketio.run(app, host=self.host, port=self.port)
-
-    def render(self, config: viewer.RenderConfig, sleep: float = 0) -> None:
-        """Render the table in browser based on the table configuration
-
-        Parameters
-        ----------
-        config : viewer.RenderConfig
-            game configuration dictionary
-
-        sleep : float, optional
-            sleep time after render, by default 0
-
-        Examples
-        --------
-        >>> from clubs import Card
-        >>> config = {
-        ...     'action': 0, # int - position of active player
-        ...     'active': [True, True], # List[bool] - list of active players
-        ...     'all_in': [False, False], # List[bool] - list of all in players
-        ...     'community_cards': [], # List[Card] - list of community cards
-        ...     'button': 0, # int - position of dealer button
-        ...     'done': False, # bool - toggle if hand is completed
-        ...     'hole_cards': [[Card("Ah")], [Card("Ac")]], # List[List[Card]] -
-        ...                                                 # list of list of hole card
-        ...     'pot': 10, # int - chips in pot
-        ...     'payouts': [0, 0], # List[int] - list of chips won for each player
-        ...     'prev_action': (1, 10, False], # Tuple[int, int, int] -
-        ...                                    # last position bet and fold
-        ...     'street_commits': [10, 20], # List[int] - list of number of
-        ...                                 # chips added to pot from each
-        ...                                 # player on current street
-        ...     'stacks': [100, 100] # List[int] - list of stack sizes
-        ... }
-        """
-        self.socket.send({"content": _jsonify(config)})
-        if sleep:
-            time.sleep(sleep)
-
-
-@overload
-def _convert_hands(hands: List[poker.Card]) -> List[str]:
-    ...  # pragma: no cover
-
-
-@overload
-def _convert_hands(hands: List[List[poker.Card]]) -> List[List[str]]:
-    ...  # pragma: no cover
-
-
-def _convert_hands(
-    hands: Union[List[poker.Card], List[List[poker.Card]]]
-) -> Union[List[str], List[List[str]]]:
-    _hands: List[List[str]] = []
-    _cards: List[str] = []
-    for hand in hands:
-        if isinstance(hand, poker.Card):
-            _cards.append(str(hand))
-        else:
-            _cards = []
-            for card in hand:
-                _cards.append(str(card))
-            _hands.append(_cards)
-    if _hands:
-        return _hands
-    return _cards
-
-
-def _jsonify(config: viewer.RenderConfig) -> Dict[str, Any]:
-    _config: Dict[str, Any] = {**config}
-    _config["hole_cards"] = _convert_hands(_config["hole_cards"])
-    _config["community_cards"] = _convert_hands(_config["community_cards"])
-    return _config
-
-
-class _RoundedRectangle:
-    def __init__(self, x: float, y: float, width: float, height: float) -> None:
-        self.x = x
-        self.y = y
-        self.width = width
-        self.height = height
-        self.center_x = width * 0.5
-        self.center_y = height * 0.5
-
-    def edge(self, frac: float) -> Tuple[float, float]:
-        frac = frac % 1
-        x, y = 0.0, 0.0
-        perimeter_frac = frac * self.perimeter
-        if perimeter_frac < self.straight_width * 0.5:
-            x = -perimeter_frac
-            y = self.radius_height
-        elif perimeter_frac < self.straight_width * 0.5 + self.circle_perimeter * 0.5:
-            circle_frac = (perimeter_frac - self.straight_width * 0.5) / (
-                self.circle_perimeter * 0.5
-            )
-            angle = math.pi * 0.5 + math.pi * circle_frac
-            x = self.radius_height * math.cos(angle) - self.straight_width * 0.5
-            y = self.radius_height * math.sin(angle)
-        elif perimeter_frac < self.straight_width * 1.5 + self.circle_perimeter * 0.5:
-            straight_frac = (
-                perimeter_frac - self.straight_width * 0.5 - self.circle_perimeter * 0.5
-            ) / self.straight_width
-            x = (straight_frac - 0.5) * self.straight_width
-            y = -self.radius_height
-        elif perimeter_frac < self.straight_width * 1.5 + self.circle_perimeter:
-            circle_frac = (
-                perimeter_frac - self.straight_width * 1.5 + self.circle_perimeter * 0.5
-            ) / (self.circle_perimeter * 0.5)
-            angle = math.pi * 1.5 + math.pi * circle_frac
-            x = self.radius_height * math.cos(angle) + self.straight_width * 0.5
-            y = self.radius_height * math.sin(angle)
-        elif frac <= 1:
-            straight_frac = (
-                perimeter_frac - self.straight_width * 1.5 - self.circle_perimeter
-            ) / self.straight_width
-            x = (-straight_frac + 0.5) * self.straight_width
-            y = self.radius_height
-        x += self.center_x + self.x
-        y += self.center_y + self.y
-        return round(x, 2), round(y, 2)
-
-    @property
-    def radius_height(self) -> float:
-        return float(self.height * 0.5)
-
-    @property
-    def circle_perimeter(self) -> float:
-        return float(math.pi * self.height)
-
-    @property
-    def straight_width(self) -> float:
-        return float(self.width - self.height)
-
-    @property
-    def perimeter(self) -> float:
-        return float(self.straight_width * 2 + 2 * math.pi * self.radius_height)
-
-
-class _SVGElement:
-
-    SVGS_PATH = os.path.join(
-        os.path.dirname(os.path.realpath(__file__)), "resources", "static", "images"
-    )
-
-    def __init__(self, name: str, svg: Optional[et.Element] = None) -> None:
-        if svg is None:
-            svg_path = os.path.join(self.SVGS_PATH, f"{name}.svg")
-            with open(svg_path, "r") as file:
-                svg_str = file.read()
-            self.svg = et.fromstring(svg_str)
-        else:
-            self.svg = svg
-        self.name = name
-
-    def __str__(self) -> str:
-        string: str = et.tostring(self.svg, encoding="utf8", method="xml").decode(
-            "utf8"
-        )
-        return string
-
-    def __repr__(self) -> str:
-        return f"_SVGElement<name={self.name}, id={id(self)}>"
-
-    @staticmethod
-    def _x_path(name: str, attr_name: Optional[str] = None) -> str:
-        if attr_name is not None:
-            return f".//*[@{attr_name}='{name}']"
-        return f".//{name}"
-
-    def get_sub_svg(self, name: str, attr_name: Optional[str] = None) -> "_SVGElement":
-        xpath = self._x_path(name, attr_name)
-        svg = self.svg.find(xpath)
-        if svg is None:
-            raise KeyError(f"unable to find sub svg with arguments {name}")
-        return _SVGElement(name, svg)
-
-    def get_sub_svgs(
-        self, name: str, attr_name: Optional[str] = None
-    ) -> List["_SVGElement"]:
-        xpath = self._x_path(name, attr_name)
-        svgs = self.svg.findall(xpath)
-        if not svgs:
-            raise KeyError(f"unable to find sub svg with arguments {name}")
-        return [_SVGElement(name, svg) for svg in svgs]
-
-    def get_svg_attr(self, tag_name: str) -> Optional[str]:
-        return self.svg.get(tag_name, None)
-
-    def set_svg_attr(self, tag_name: str, value: str) -> "_SVGElement":
-        self.svg.set(tag_name, value)
-        return self
-
-    @property
-    def x(self) -> float:
-        value = self.get_svg_attr("x")
-        if value is None:
-            return 0
-        return float(value)
-
-    @x.setter
-    def x(self, x: float) -> None:
-        self.set_svg_attr("x", str(x))
-
-    @property
-    def y(self) -> float:
-        value = self.get_svg_attr("y")
-        if value is None:
-            return 0
-        return float(value)
-
-    @y.setter
-    def y(self, y: float) -> None:
-        self.set_svg_attr("y", str(y))
-
-    @property
-    def width(self) -> float:
-        value = self.get_svg_attr("width")
-        if value is None:
-            return 0
-        return float(value)
-
-    @width.setter
-    def width(self, width: float) -> None:
-        self.set_svg_attr("width", str(width))
-
-    @property
-    def height(self) -> float:
-        value = self.get_svg_attr("height")
-        if value is None:
-            return 0
-        return float(value)
-
-    @height.setter
-    def height(self, height: float) -> None:
-        self.set_svg_attr("height", str(height))
-
-    @property
-    def id(self) -> Optional[str]:
-        return self.get_svg_attr("id")
-
-    @id.setter
-    def id(self, id: str) -> None:
-        self.set_svg_attr("id", str(id))
-
-    @property
-    def view_box(self) -> Optional[str]:
-        return self.get_svg_attr("viewBox")
-
-    @view_box.setter
-    def view_box(self, view_box: str) -> None:
-        self.set_svg_attr("viewBox", view_box)
-
-    @property
-    def view_box_x(self) -> Optional[float]:
-        view_box = self.view_box
-        if view_box is None:
-            return view_box
-        return float(view_box.split(" ")[0])
-
-    @view_box_x.setter
-    def view_box_x(self, view_box_x: float) -> None:
-        if self.view_box is not None:
-            split_view_box = self.view_box.split(" ")
-            split_view_box[0] = str(view_box_x)
-            view_box = " ".join(split_view_box)
-            self.set_svg_attr("viewBox", view_box)
-
-    @property
-    def view_box_y(self) -> Optional[float]:
-        view_box = self.view_box
-        if view_box is None:
-            return view_box
-        return float(view_box.split(" ")[1])
-
-    @view_box_y.setter
-    def view_box_y(self, view_box_y: float) -> None:
-        if self.view_box is not None:
-            split_view_box = self.view_box.split(" ")
-            split_view_box[1] = str(view_box_y)
-            view_box = " ".join(split_view_box)
-            self.set_svg_attr("viewBox", view_box)
-
-    @property
-    def view_box_width(self) -> Optional[float]:
-        view_box = self.view_box
-        if view_box is None:
-            return view_box
-        return float(view_box.split(" ")[2])
-
-    @view_box_width.setter
-    def view_box_width(self, view_box_width: float) -> None:
-        if self.view_box is not None:
-            split_view_box = self.view_box.split(" ")
-            split_view_box[2] = str(view_box_width)
-            view_box = " ".join(split_view_box)
-            self.set_svg_attr("viewBox", view_box)
-
-    @property
-    def view_box_height(self) -> Optional[float]:
-        view_box = self.view_box
-        if view_box is None:
-            return view_box
-        return float(view_box.split(" ")[3])
-
-    @view_box_height.setter
-    def view_box_height(self, view_box_height: float) -> None:
-        if self.view_box is not None:
-            split_view_box = self.view_box.split(" ")
-            split_view_box[3] = str(view_box_height)
-            view_box = " ".join(split_view_box)
-            self.set_svg_attr("viewBox", view_box)
-
-    def center_x(
-        self, other: Optional["_SVGElement"] = None, x: Optional[float] = None
-    ) -> "_SVGElement":
-        if other is not None:
-            if other.view_box_width is not None:
-                other_width = other.view_box_width
-            else:
-                other_width = other.width
-            self.x = (other_width - self.width) / 2
-        if x is not None:
-            self.x = x - self.width / 2
-        return self
-
-    def center_y(
-        self, other: Optional["_SVGElement"] = None, y: Optional[float] = None
-    ) -> "_SVGElement":
-        if other is not None:
-            if other.view_box_height is not None:
-                other_height = other.view_box_height
-            else:
-                other_height = other.height
-            self.y = (other_height - self.height) / 2
-        if y is not None:
-            self.y = y - self.height / 2
-        return self
-
-    def center(
-        self,
-        other: Optional["_SVGElement"] = None,
-        x: Optional[float] = None,
-        y: Optional[float] = None,
-    ) -> "_SVGElement":
-        self.center_x(other, x)
-        self.center_y(other, y)
-        return self
-
-    def extend(
-        self, other: Union[List["_SVGElement"], List[et.Element]]
-    ) -> "_SVGElement":
-        for element in other:
-            self.append(element)
-        return self
-
-    def append(self, other: Union["_SVGElement", et.Element]) -> "_SVGElement":
-        if isinstance(other, _SVGElement):
-            other = other.svg
-        self.svg.append(other)
-        return self
-
-    def remove(self, other: "_SVGElement") -> "_SVGElement":
-        self.svg.remove(other.svg)
-        return self
-
-    def copy(self) -> "_SVGElement":
-        return copy.deepcopy(self)
-
-
-class _SVGPoker:
-    def __init__(
-        self, num_players: int, num_hole_cards: int, num_community_cards: int
-    ) -> None:
-        self.num_players = num_players
-        self.num_hole_cards = num_hole_cards
-        self.num_community_cards = num_community_cards
-        self.base_svg = self._base_svg()
-
-    def _base_svg(self) -> "_SVGElement":
-        base = _SVGElement("base")
-        table = _SVGElement("table")
-        player = _SVGElement("player")
-        card = _SVGElement("card")
-        street_commit = _SVGElement("street_commit")
-        for pattern in _SVGElement("patterns").get_sub_svgs("pattern"):
-            base.append(pattern)
-
-        table.center(other=base)
-        base.append(table)
-
-        player_rectangle = _RoundedRectangle(
-            table.x, table.y, table.width, table.height
-        )
-        player_rectangle.width += 100
-        player_rectangle.height += 100
-        street_commit_rectangle = _RoundedRectangle(
-            table.x, table.y, table.width, table.height
-        )
-        street_commit_rectangle.width -= 225
-        street_commit_rectangle.height -= 185
-
-        players = self.add_players(player, card, player_rectangle)
-        street_commits = self.add_street_commits(street_commit, street_commit_rectangle)
-        community = self.add_community(player, card)
-        community.center(other=table)
-        community.x += table.x
-        community.y += table.y - 40
-
-        base.extend(players)
-        base.extend(street_commits)
-        base.append(community)
-
-        return base
-
-    @staticmethod
-    def new_player(
-        player: _SVGElement, label: str, card: _SVGElement, num_cards: int
-    ) -> _SVGElement:
-        new_player = player.copy()
-        new_player.id = label
-        card_width = card.width
-        cards = new_player.get_sub_svg("cards", "class")
-        cards.id = f"cards-{label}"
-
-        player_background = new_player.get_sub_svg("player-background", "class")
-        player_background.id = f"player-background-{label}"
-        chips = new_player.get_sub_svg("chips", "class")
-        chips.id = f"chips-{label}"
-        chips_background = chips.get_sub_svg("chips-background", "class")
-        chips_background.id = f"chips-background-{label}"
-        chips_text = chips.get_sub_svg("chips-text", "class")
-        chips_text.id = f"chips-text-{label}"
-        for card_idx in range(num_cards):
-            new_card = card.copy()
-            new_card.center_x(cards)
-            offset = (-card_width * num_cards / 2) + card_width * (card_idx + 0.5)
-            new_card.x += offset
-            new_card.id = f"card-{label}-{card_idx}"
-            card_background = new_card.get_sub_svg("card-background", "class")
-            card_background.id = f"card-background-{label}-{card_idx}"
-            card_text = new_card.get_sub_svg("card-text", "class")
-            card_text.id = f"card-text-{label}-{card_idx}"
-            cards.append(new_card)
-        return new_player
-
-    def add_players(
-        self,
-        player: _SVGElement,
-        card: _SVGElement,
-        player_rectangle: _RoundedRectangle,
-    ) -> List[_SVGElement]:
-        players = []
-        player = player.copy()
-        card = card.copy()
-        player.width = max(
-            0 if player.width is None else player.width,
-            card.width * self.num_hole_cards + 20,
-        )
-
-        player_background = player.get_sub_svg("player-background", "class")
-        player_background.width = player.width - 10
-        player_background.height = player_background.height - 10
-
-        cards = player.get_sub_svg("cards", "class")
-        cards.width = self.num_hole_cards * card.width
-        cards.center_x(player)
-
-        card_background = card.get_sub_svg("card-background", "class")
-        card_background.set_svg_attr("fill", "url(#card-back)")
-
-        chips = player.get_sub_svg("chips", "class")
-        chips.width = player.width - 20
-        chips.center_x(player)
-
-        for player_idx in range(self.num_players):
-            x, y = player_rectangle.edge(player_idx / (self.num_players))
-            new_player = self.new_player(
-                player, str(player_idx), card, self.num_hole_cards
-            )
-            new_player.center(x=round(x), y=round(y))
-            players.append(new_player)
-        return players
-
-    def add_community(self, player: _SVGElement, card: _SVGElement) -> _SVGElement:
-        community = player.copy()
-        card = card.copy()
-
-        community.width = card.width * (self.num_community_cards + 1) + 20
-        cards = community.get_sub_svg("cards", "class")
-        cards.width = community.width
-        card_background = card.get_sub_svg("card-background", "class")
-        card_background.set_svg_attr("fill", "url(#card-blank)")
-        cards.center_x(community)
-
-        community = self.new_player(
-            community, "community", card, self.num_community_cards + 1
-        )
-
-        community_background = community.get_sub_svg("player-background", "class")
-        community.remove(community_background)
-
-        chips = community.get_sub_svg("chips", "class")
-        chips.width = community.width - 60
-        chips.center_x(community)
-        chips.id = "pot"
-        chips.get_sub_svg("chips-background", "class").id = "pot-background"
-        chips.get_sub_svg("chips-text", "class").id = "pot-text"
-        community.set_svg_attr("class", "community")
-        card_0 = community.get_sub_svg("card-community-0", "id")
-        card_0.get_sub_svg("card-background", "class").set_svg_attr(
-            "fill", "url(#card-back)"
-        )
-        card_0.x -= 10
-        return community
-
-    def add_street_commits(
-        self, street_commit: _SVGElement, street_commit_retangle: _RoundedRectangle
-    ) -> List[_SVGElement]:
-        street_commits = []
-        for player_idx in range(self.num_players):
-            x, y = street_commit_retangle.edge(player_idx / (self.num_players))
-            new_street_commit = street_commit.copy()
-            new_street_commit.id = f"street-commit-{player_idx}"
-            street_commit_background = new_street_commit.get_sub_svg(
-                "chips-background", "class"
-            )
-            street_commit_background.id = f"street-commit-background-{player_idx}"
-            street_commit_text = new_street_commit.get_sub_svg("chips-text", "class")
-            street_commit_text.id = f"street-commit-text-{player_idx}"
-            button = new_street_commit.get_sub_svg("button", "class")
-            button.id = f"button-{player_idx}"
-            button_background = button.get_sub_svg("button-background", "class")
-            button_background.id = f"button-background-{player_idx}"
-            new_street_commit.center(x=round(x), y=round(y))
-            street_commits.append(new_street_commit)
-        return street_commits
+import copy
+import http.client
+import imp
+import math
+import multiprocessing
+import os
+import socket
+import time
+import urllib.error
+import urllib.request
+from multiprocessing import connection
+from typing import Any, Dict, List, Optional, Tuple, Union, overload
+from xml.etree import ElementTree as et
+
+from .. import error, poker
+from . import viewer
+
+try:
+    imp.find_module("gevent")
+    imp.find_module("flask")
+    imp.find_module("flask_socketio")
+    REQUIREMENTS = True
+except ImportError:
+    REQUIREMENTS = False
+
+
+class GraphicViewer(viewer.PokerViewer):
+    def __init__(
+        self,
+        num_players: int,
+        num_hole_cards: int,
+        num_community_cards: int,
+        host: str = "127.0.0.1",
+        port: int = 0,
+        **kwargs: Any,
+    ):
+        super(GraphicViewer, self).__init__(
+            num_players, num_hole_cards, num_community_cards, **kwargs
+        )
+        if not REQUIREMENTS:
+            raise error.MissingImportsError(
+                "unable to use web server rendering, make sure flask, "
+                "flask_socketio and gevent are installed"
+            )
+
+        self.host = host
+        if port:
+            self.port = port
+        else:
+            tmp_socket = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
+            tmp_socket.bind(("", 0))
+            self.port = tmp_socket.getsockname()[1]
+            tmp_socket.close()
+
+        self.svg_poker = _SVGPoker(
+            self.num_players, self.num_hole_cards, self.num_community_cards
+        )
+
+        self.process = multiprocessing.Process(target=self._run_flask)
+        self.process.start()
+
+        self._test_socket_conn()
+        self._test_flask_conn()
+        print(f"clubs table openend at http://{self.host}:{self.port}")
+
+    def _test_socket_conn(self) -> None:
+        start = time.time()
+        while True:
+            try:
+                self.socket = connection.Client((self.host, self.port + 1))
+                break
+            except (ConnectionRefusedError, OSError):
+                time.sleep(0.01)
+                if time.time() - start > 10:
+                    raise error.RenderInitializationError(
+                        "unable to connect to flask process socket"
+                    )
+
+    def _test_flask_conn(self) -> None:
+        start = time.time()
+        response: Optional[http.client.HTTPResponse] = None
+        while True:
+            try:
+                response = urllib.request.urlopen(f"http://{self.host}:{self.port}")
+                break
+            except urllib.error.URLError:
+                time.sleep(0.01)
+                if time.time() - start > 10:
+                    raise error.RenderInitializationError(
+                        "unable to connect to flask server"
+                    )
+
+        assert response and response.status == 200
+
+    def close(self) -> None:
+        if self.process.is_alive():
+            self.socket.send({"content": "close"})
+            self.process.terminate()
+            self.process.join()
+
+    def __del__(self) -> None:
+        self.close()
+
+    def _run_flask(self) -> None:
+        from gevent import monkey
+
+        monkey.patch_all()
+        import flask
+        import flask_socketio
+        import markupsafe
+
+        config: Dict[str, Any] = {}
+        dir_path = os.path.dirname(os.path.realpath(__file__))
+        templates_path = os.path.join(dir_path, "resources", "templates")
+        static_path = os.path.join(dir_path, "resources", "static")
+        app = flask.Flask(
+            "clubs", template_folder=templates_path, static_folder=static_path
+        )
+        socketio = flask_socketio.SocketIO(app)
+
+        @socketio.on("connect")
+        def connect():  # type: ignore
+            flask_socketio.emit("config", config)
+
+        @app.route("/")
+        def index():  # type: ignore
+            svg = str(self.svg_poker.base_svg)
+            return flask.render_template("index.html", svg=markupsafe.Markup(svg))
+
+        def listener() -> None:
+            nonlocal config
+            socket = connection.Listener((self.host, self.port + 1))
+            conn = socket.accept()
+            while True:
+                if conn.poll():
+                    message: Dict[str, Any] = conn.recv()
+                    if message["content"] == "close":
+                        conn.close()
+                        break
+                    else:
+                        config = message["content"]
+                        socketio.emit("config", config, broadcast=True)
+                socketio.sleep(0.0001)
+            socket.close()
+
+        socketio.start_background_task(listener)
+
+        socketio.run(app, host=self.host, port=self.port)
+
+    def render(self, config: viewer.RenderConfig, sleep: float = 0) -> None:
+        """Render the table in browser based on the table configuration
+
+        Parameters
+        ----------
+        config : viewer.RenderConfig
+            game configuration dictionary
+
+        sleep : float, optional
+            sleep time after render, by default 0
+
+        Examples
+        --------
+        >>> from clubs import Card
+        >>> config = {
+        ...     'action': 0, # int - position of active player
+        ...     'active': [True, True], # List[bool] - list of active players
+        ...     'all_in': [False, False], # List[bool] - list of all in players
+        ...     'community_cards': [], # List[Card] - list of community cards
+        ...     'button': 0, # int - position of dealer button
+        ...     'done': False, # bool - toggle if hand is completed
+        ...     'hole_cards': [[Card("Ah")], [Card("Ac")]], # List[List[Card]] -
+        ...                                                 # list of list of hole card
+        ...     'pot': 10, # int - chips in pot
+        ...     'payouts': [0, 0], # List[int] - list of chips won for each player
+        ...     'prev_action': (1, 10, False], # Tuple[int, int, int] -
+        ...                                    # last position bet and fold
+        ...     'street_commits': [10, 20], # List[int] - list of number of
+        ...                                 # chips added to pot from each
+        ...                                 # player on current street
+        ...     'stacks': [100, 100] # List[int] - list of stack sizes
+        ... }
+        """
+        self.socket.send({"content": _jsonify(config)})
+        if sleep:
+            time.sleep(sleep)
+
+
+@overload
+def _convert_hands(hands: List[poker.Card]) -> List[str]:
+    ...  # pragma: no cover
+
+
+@overload
+def _convert_hands(hands: List[List[poker.Card]]) -> List[List[str]]:
+    ...  # pragma: no cover
+
+
+def _convert_hands(
+    hands: Union[List[poker.Card], List[List[poker.Card]]]
+) -> Union[List[str], List[List[str]]]:
+    _hands: List[List[str]] = []
+    _cards: List[str] = []
+    for hand in hands:
+        if isinstance(hand, poker.Card):
+            _cards.append(str(hand))
+        else:
+            _cards = []
+            for card in hand:
+                _cards.append(str(card))
+            _hands.append(_cards)
+    if _hands:
+        return _hands
+    return _cards
+
+
+def _jsonify(config: viewer.RenderConfig) -> Dict[str, Any]:
+    _config: Dict[str, Any] = {**config}
+    _config["hole_cards"] = _convert_hands(_config["hole_cards"])
+    _config["community_cards"] = _convert_hands(_config["community_cards"])
+    return _config
+
+
+class _RoundedRectangle:
+    def __init__(self, x: float, y: float, width: float, height: float) -> None:
+        self.x = x
+        self.y = y
+        self.width = width
+        self.height = height
+        self.center_x = width * 0.5
+        self.center_y = height * 0.5
+
+    def edge(self, frac: float) -> Tuple[float, float]:
+        frac = frac % 1
+        x, y = 0.0, 0.0
+        perimeter_frac = frac * self.perimeter
+        if perimeter_frac < self.straight_width * 0.5:
+            x = -perimeter_frac
+            y = self.radius_height
+        elif perimeter_frac < self.straight_width * 0.5 + self.circle_perimeter * 0.5:
+            circle_frac = (perimeter_frac - self.straight_width * 0.5) / (
+                self.circle_perimeter * 0.5
+            )
+            angle = math.pi * 0.5 + math.pi * circle_frac
+            x = self.radius_height * math.cos(angle) - self.straight_width * 0.5
+            y = self.radius_height * math.sin(angle)
+        elif perimeter_frac < self.straight_width * 1.5 + self.circle_perimeter * 0.5:
+            straight_frac = (
+                perimeter_frac - self.straight_width * 0.5 - self.circle_perimeter * 0.5
+            ) / self.straight_width
+            x = (straight_frac - 0.5) * self.straight_width
+            y = -self.radius_height
+        elif perimeter_frac < self.straight_width * 1.5 + self.circle_perimeter:
+            circle_frac = (
+                perimeter_frac - self.straight_width * 1.5 + self.circle_perimeter * 0.5
+            ) / (self.circle_perimeter * 0.5)
+            angle = math.pi * 1.5 + math.pi * circle_frac
+            x = self.radius_height * math.cos(angle) + self.straight_width * 0.5
+            y = self.radius_height * math.sin(angle)
+        elif frac <= 1:
+            straight_frac = (
+                perimeter_frac - self.straight_width * 1.5 - self.circle_perimeter
+            ) / self.straight_width
+            x = (-straight_frac + 0.5) * self.straight_width
+            y = self.radius_height
+        x += self.center_x + self.x
+        y += self.center_y + self.y
+        return round(x, 2), round(y, 2)
+
+    @property
+    def radius_height(self) -> float:
+        return float(self.height * 0.5)
+
+    @property
+    def circle_perimeter(self) -> float:
+        return float(math.pi * self.height)
+
+    @property
+    def straight_width(self) -> float:
+        return float(self.width - self.height)
+
+    @property
+    def perimeter(self) -> float:
+        return float(self.straight_width * 2 + 2 * math.pi * self.radius_height)
+
+
+class _SVGElement:
+
+    SVGS_PATH = os.path.join(
+        os.path.dirname(os.path.realpath(__file__)), "resources", "static", "images"
+    )
+
+    def __init__(self, name: str, svg: Optional[et.Element] = None) -> None:
+        if svg is None:
+            svg_path = os.path.join(self.SVGS_PATH, f"{name}.svg")
+            with open(svg_path, "r") as file:
+                svg_str = file.read()
+            self.svg = et.fromstring(svg_str)
+        else:
+            self.svg = svg
+        self.name = name
+
+    def __str__(self) -> str:
+        string: str = et.tostring(self.svg, encoding="utf8", method="xml").decode(
+            "utf8"
+        )
+        return string
+
+    def __repr__(self) -> str:
+        return f"_SVGElement<name={self.name}, id={id(self)}>"
+
+    @staticmethod
+    def _x_path(name: str, attr_name: Optional[str] = None) -> str:
+        if attr_name is not None:
+            return f".//*[@{attr_name}='{name}']"
+        return f".//{name}"
+
+    def get_sub_svg(self, name: str, attr_name: Optional[str] = None) -> "_SVGElement":
+        xpath = self._x_path(name, attr_name)
+        svg = self.svg.find(xpath)
+        if svg is None:
+            raise KeyError(f"unable to find sub svg with arguments {name}")
+        return _SVGElement(name, svg)
+
+    def get_sub_svgs(
+        self, name: str, attr_name: Optional[str] = None
+    ) -> List["_SVGElement"]:
+        xpath = self._x_path(name, attr_name)
+        svgs = self.svg.findall(xpath)
+        if not svgs:
+            raise KeyError(f"unable to find sub svg with arguments {name}")
+        return [_SVGElement(name, svg) for svg in svgs]
+
+    def get_svg_attr(self, tag_name: str) -> Optional[str]:
+        return self.svg.get(tag_name, None)
+
+    def set_svg_attr(self, tag_name: str, value: str) -> "_SVGElement":
+        self.svg.set(tag_name, value)
+        return self
+
+    @property
+    def x(self) -> float:
+        value = self.get_svg_attr("x")
+        if value is None:
+            return 0
+        return float(value)
+
+    @x.setter
+    def x(self, x: float) -> None:
+        self.set_svg_attr("x", str(x))
+
+    @property
+    def y(self) -> float:
+        value = self.get_svg_attr("y")
+        if value is None:
+            return 0
+        return float(value)
+
+    @y.setter
+    def y(self, y: float) -> None:
+        self.set_svg_attr("y", str(y))
+
+    @property
+    def width(self) -> float:
+        value = self.get_svg_attr("width")
+        if value is None:
+            return 0
+        return float(value)
+
+    @width.setter
+    def width(self, width: float) -> None:
+        self.set_svg_attr("width", str(width))
+
+    @property
+    def height(self) -> float:
+        value = self.get_svg_attr("height")
+        if value is None:
+            return 0
+        return float(value)
+
+    @height.setter
+    def height(self, height: float) -> None:
+        self.set_svg_attr("height", str(height))
+
+    @property
+    def id(self) -> Optional[str]:
+        return self.get_svg_attr("id")
+
+    @id.setter
+    def id(self, id: str) -> None:
+        self.set_svg_attr("id", str(id))
+
+    @property
+    def view_box(self) -> Optional[str]:
+        return self.get_svg_attr("viewBox")
+
+    @view_box.setter
+    def view_box(self, view_box: str) -> None:
+        self.set_svg_attr("viewBox", view_box)
+
+    @property
+    def view_box_x(self) -> Optional[float]:
+        view_box = self.view_box
+        if view_box is None:
+            return view_box
+        return float(view_box.split(" ")[0])
+
+    @view_box_x.setter
+    def view_box_x(self, view_box_x: float) -> None:
+        if self.view_box is not None:
+            split_view_box = self.view_box.split(" ")
+            split_view_box[0] = str(view_box_x)
+            view_box = " ".join(split_view_box)
+            self.set_svg_attr("viewBox", view_box)
+
+    @property
+    def view_box_y(self) -> Optional[float]:
+        view_box = self.view_box
+        if view_box is None:
+            return view_box
+        return float(view_box.split(" ")[1])
+
+    @view_box_y.setter
+    def view_box_y(self, view_box_y: float) -> None:
+        if self.view_box is not None:
+            split_view_box = self.view_box.split(" ")
+            split_view_box[1] = str(view_box_y)
+            view_box = " ".join(split_view_box)
+            self.set_svg_attr("viewBox", view_box)
+
+    @property
+    def view_box_width(self) -> Optional[float]:
+        view_box = self.view_box
+        if view_box is None:
+            return view_box
+        return float(view_box.split(" ")[2])
+
+    @view_box_width.setter
+    def view_box_width(self, view_box_width: float) -> None:
+        if self.view_box is not None:
+            split_view_box = self.view_box.split(" ")
+            split_view_box[2] = str(view_box_width)
+            view_box = " ".join(split_view_box)
+            self.set_svg_attr("viewBox", view_box)
+
+    @property
+    def view_box_height(self) -> Optional[float]:
+        view_box = self.view_box
+        if view_box is None:
+            return view_box
+        return float(view_box.split(" ")[3])
+
+    @view_box_height.setter
+    def view_box_height(self, view_box_height: float) -> None:
+        if self.view_box is not None:
+            split_view_box = self.view_box.split(" ")
+            split_view_box[3] = str(view_box_height)
+            view_box = " ".join(split_view_box)
+            self.set_svg_attr("viewBox", view_box)
+
+    def center_x(
+        self, other: Optional["_SVGElement"] = None, x: Optional[float] = None
+    ) -> "_SVGElement":
+        if other is not None:
+            if other.view_box_width is not None:
+                other_width = other.view_box_width
+            else:
+                other_width = other.width
+            self.x = (other_width - self.width) / 2
+        if x is not None:
+            self.x = x - self.width / 2
+        return self
+
+    def center_y(
+        self, other: Optional["_SVGElement"] = None, y: Optional[float] = None
+    ) -> "_SVGElement":
+        if other is not None:
+            if other.view_box_height is not None:
+                other_height = other.view_box_height
+            else:
+                other_height = other.height
+            self.y = (other_height - self.height) / 2
+        if y is not None:
+            self.y = y - self.height / 2
+        return self
+
+    def center(
+        self,
+        other: Optional["_SVGElement"] = None,
+        x: Optional[float] = None,
+        y: Optional[float] = None,
+    ) -> "_SVGElement":
+        self.center_x(other, x)
+        self.center_y(other, y)
+        return self
+
+    def extend(
+        self, other: Union[List["_SVGElement"], List[et.Element]]
+    ) -> "_SVGElement":
+        for element in other:
+            self.append(element)
+        return self
+
+    def append(self, other: Union["_SVGElement", et.Element]) -> "_SVGElement":
+        if isinstance(other, _SVGElement):
+            other = other.svg
+        self.svg.append(other)
+        return self
+
+    def remove(self, other: "_SVGElement") -> "_SVGElement":
+        self.svg.remove(other.svg)
+        return self
+
+    def copy(self) -> "_SVGElement":
+        return copy.deepcopy(self)
+
+
+class _SVGPoker:
+    def __init__(
+        self, num_players: int, num_hole_cards: int, num_community_cards: int
+    ) -> None:
+        self.num_players = num_players
+        self.num_hole_cards = num_hole_cards
+        self.num_community_cards = num_community_cards
+        self.base_svg = self._base_svg()
+
+    def _base_svg(self) -> "_SVGElement":
+        base = _SVGElement("base")
+        table = _SVGElement("table")
+        player = _SVGElement("player")
+        card = _SVGElement("card")
+        street_commit = _SVGElement("street_commit")
+        for pattern in _SVGElement("patterns").get_sub_svgs("pattern"):
+            base.append(pattern)
+
+        table.center(other=base)
+        base.append(table)
+
+        player_rectangle = _RoundedRectangle(
+            table.x, table.y, table.width, table.height
+        )
+        player_rectangle.width += 100
+        player_rectangle.height += 100
+        street_commit_rectangle = _RoundedRectangle(
+            table.x, table.y, table.width, table.height
+        )
+        street_commit_rectangle.width -= 225
+        street_commit_rectangle.height -= 185
+
+        players = self.add_players(player, card, player_rectangle)
+        street_commits = self.add_street_commits(street_commit, street_commit_rectangle)
+        community = self.add_community(player, card)
+        community.center(other=table)
+        community.x += table.x
+        community.y += table.y - 40
+
+        base.extend(players)
+        base.extend(street_commits)
+        base.append(community)
+
+        return base
+
+    @staticmethod
+    def new_player(
+        player: _SVGElement, label: str, card: _SVGElement, num_cards: int
+    ) -> _SVGElement:
+        new_player = player.copy()
+        new_player.id = label
+        card_width = card.width
+        cards = new_player.get_sub_svg("cards", "class")
+        cards.id = f"cards-{label}"
+
+        player_background = new_player.get_sub_svg("player-background", "class")
+        player_background.id = f"player-background-{label}"
+        chips = new_player.get_sub_svg("chips", "class")
+        chips.id = f"chips-{label}"
+        chips_background = chips.get_sub_svg("chips-background", "class")
+        chips_background.id = f"chips-background-{label}"
+        chips_text = chips.get_sub_svg("chips-text", "class")
+        chips_text.id = f"chips-text-{label}"
+        for card_idx in range(num_cards):
+            new_card = card.copy()
+            new_card.center_x(cards)
+            offset = (-card_width * num_cards / 2) + card_width * (card_idx + 0.5)
+            new_card.x += offset
+            new_card.id = f"card-{label}-{card_idx}"
+            card_background = new_card.get_sub_svg("card-background", "class")
+            card_background.id = f"card-background-{label}-{card_idx}"
+            card_text = new_card.get_sub_svg("card-text", "class")
+            card_text.id = f"card-text-{label}-{card_idx}"
+            cards.append(new_card)
+        return new_player
+
+    def add_players(
+        self,
+        player: _SVGElement,
+        card: _SVGElement,
+        player_rectangle: _RoundedRectangle,
+    ) -> List[_SVGElement]:
+        players = []
+        player = player.copy()
+        card = card.copy()
+        player.width = max(
+            0 if player.width is None else player.width,
+            card.width * self.num_hole_cards + 20,
+        )
+
+        player_background = player.get_sub_svg("player-background", "class")
+        player_background.width = player.width - 10
+        player_background.height = player_background.height - 10
+
+        cards = player.get_sub_svg("cards", "class")
+        cards.width = self.num_hole_cards * card.width
+        cards.center_x(player)
+
+        card_background = card.get_sub_svg("card-background", "class")
+        card_background.set_svg_attr("fill", "url(#card-back)")
+
+        chips = player.get_sub_svg("chips", "class")
+        chips.width = player.width - 20
+        chips.center_x(player)
+
+        for player_idx in range(self.num_players):
+            x, y = player_rectangle.edge(player_idx / (self.num_players))
+            new_player = self.new_player(
+                player, str(player_idx), card, self.num_hole_cards
+            )
+            new_player.center(x=round(x), y=round(y))
+            players.append(new_player)
+        return players
+
+    def add_community(self, player: _SVGElement, card: _SVGElement) -> _SVGElement:
+        community = player.copy()
+        card = card.copy()
+
+        community.width = card.width * (self.num_community_cards + 1) + 20
+        cards = community.get_sub_svg("cards", "class")
+        cards.width = community.width
+        card_background = card.get_sub_svg("card-background", "class")
+        card_background.set_svg_attr("fill", "url(#card-blank)")
+        cards.center_x(community)
+
+        community = self.new_player(
+            community, "community", card, self.num_community_cards + 1
+        )
+
+        community_background = community.get_sub_svg("player-background", "class")
+        community.remove(community_background)
+
+        chips = community.get_sub_svg("chips", "class")
+        chips.width = community.width - 60
+        chips.center_x(community)
+        chips.id = "pot"
+        chips.get_sub_svg("chips-background", "class").id = "pot-background"
+        chips.get_sub_svg("chips-text", "class").id = "pot-text"
+        community.set_svg_attr("class", "community")
+        card_0 = community.get_sub_svg("card-community-0", "id")
+        card_0.get_sub_svg("card-background", "class").set_svg_attr(
+            "fill", "url(#card-back)"
+        )
+        card_0.x -= 10
+        return community
+
+    def add_street_commits(
+        self, street_commit: _SVGElement, street_commit_retangle: _RoundedRectangle
+    ) -> List[_SVGElement]:
+        street_commits = []
+        for player_idx in range(self.num_players):
+            x, y = street_commit_retangle.edge(player_idx / (self.num_players))
+            new_street_commit = street_commit.copy()
+            new_street_commit.id = f"street-commit-{player_idx}"
+            street_commit_background = new_street_commit.get_sub_svg(
+                "chips-background", "class"
+            )
+            street_commit_background.id = f"street-commit-background-{player_idx}"
+            street_commit_text = new_street_commit.get_sub_svg("chips-text", "class")
+            street_commit_text.id = f"street-commit-text-{player_idx}"
+            button = new_street_commit.get_sub_svg("button", "class")
+            button.id = f"button-{player_idx}"
+            button_background = button.get_sub_svg("button-background", "class")
+            button_background.id = f"button-background-{player_idx}"
+            new_street_commit.center(x=round(x), y=round(y))
+            street_commits.append(new_street_commit)
+        return street_commits
-- 
2.43.0


From c1006f2d479f728286a5943094583bac75e395aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:39 +0000
Subject: [PATCH 28/30] fix: end the server process if the graphic viewer
 cannot be opened

---
 clubs/render/graphic.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/clubs/render/graphic.py b/clubs/render/graphic.py
index 40dff62..2ecbe6c 100644
--- a/clubs/render/graphic.py
+++ b/clubs/render/graphic.py
@@ -59,8 +59,13 @@ class GraphicViewer(viewer.PokerViewer):
         self.process = multiprocessing.Process(target=self._run_flask)
         self.process.start()
 
-        self._test_socket_conn()
-        self._test_flask_conn()
+        try:
+            self._test_socket_conn()
+            self._test_flask_conn()
+        except error.RenderInitializationError:
+            self.process.terminate()
+            self.process.join()
+            raise
         print(f"clubs table openend at http://{self.host}:{self.port}")
 
     def _test_socket_conn(self) -> None:
-- 
2.43.0


From eaff16cadcc67d9db5947e2c0d9cc91b9b4f2196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:42 +0000
Subject: [PATCH 29/30] fix: keep whole bets exact beyond the precision of
 floats

---
 clubs/poker/engine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 5a4594d..291643f 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -369,7 +369,8 @@ class Dealer:
 
         fold = bet < 0
         # closest number of chips, round down for tie
-        bet = math.ceil(bet - 0.5)
+        whole = math.floor(bet)
+        bet = whole + (bet - whole > 0.5)
 
         call, min_raise, max_raise = self._bet_sizes()
         # round bet to nearest sizing
-- 
2.43.0


From f18082b82a438cb7340a98e500323fbc9d622199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:44 +0000
Subject: [PATCH 30/30] fix: fail cleanly if the page of the web viewer is
 answered by garbage or never

---
 clubs/render/graphic.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/clubs/render/graphic.py b/clubs/render/graphic.py
index 2ecbe6c..d62e38e 100644
--- a/clubs/render/graphic.py
+++ b/clubs/render/graphic.py
@@ -6,7 +6,6 @@ import multiprocessing
 import os
 import socket
 import time
-import urllib.error
 import urllib.request
 from multiprocessing import connection
 from typing import Any, Dict, List, Optional, Tuple, Union, overload
@@ -86,9 +85,11 @@ class GraphicViewer(viewer.PokerViewer):
         response: Optional[http.client.HTTPResponse] = None
         while True:
             try:
-                response = urllib.request.urlopen(f"http://{self.host}:{self.port}")
+                response = urllib.request.urlopen(
+                    f"http://{self.host}:{self.port}", timeout=10
+                )
                 break
-            except urllib.error.URLError:
+            except (OSError, http.client.HTTPException):
                 time.sleep(0.01)
                 if time.time() - start > 10:
                     raise error.RenderInitializationError(
-- 
2.43.0

