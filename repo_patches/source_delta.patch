From eb2adfd27c408b05d4bc1d515214cbe51326ccec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:32 +0000
Subject: [PATCH 01/27] fix: stop closing opposite trades once the new backtest
 trade is exhausted

---
 estrade/trade_provider.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/estrade/trade_provider.py b/estrade/trade_provider.py
index dc3c60a..4874770 100644
--- a/estrade/trade_provider.py
+++ b/estrade/trade_provider.py
@@ -164,6 +164,8 @@ class TradeProviderBacktests(BaseTradeProvider):
         )
 
         for open_trade in self.opened_trades:
+            if trade.open_quantity <= 0:
+                break
             if open_trade.direction == opposite_direction:
                 logger.info(
                     "A trade was opened when another is still open in "
-- 
2.43.0


From 7f4c8afe25f8abe618183f9680af3edcb9f9865a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:37 +0000
Subject: [PATCH 02/27] fix: compare tick instants in UTC so ticks of a
 repeated local hour are accepted

---
 estrade/epic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estrade/epic.py b/estrade/epic.py
index b5cf6d0..70bb469 100644
--- a/estrade/epic.py
+++ b/estrade/epic.py
@@ -242,7 +242,7 @@ class Epic(RefMixin):
         """
         # set tick timezone
         tick.datetime = tick.datetime.to(self.timezone)
-        if tick.datetime < self.last_tick.datetime:
+        if tick.datetime_utc < self.last_tick.datetime_utc:
             raise EpicException(
                 "Cannot handle a tick anterior to the last received tick."
             )
-- 
2.43.0


From 81eeab08c9809758bbbd0add7b658a6d346f33b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:44 +0000
Subject: [PATCH 03/27] fix: start a new tick-count frame when the day changes

---
 estrade/graph/frame_set.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/estrade/graph/frame_set.py b/estrade/graph/frame_set.py
index b80ec9f..f79dd33 100644
--- a/estrade/graph/frame_set.py
+++ b/estrade/graph/frame_set.py
@@ -171,6 +171,7 @@ class FrameSet(TimeframeMixin, RefMixin):
             self._create_new_frame_func = self._create_new_frame_tick
 
         self.epic: Optional["Epic"] = None
+        self.last_tick: Optional["Tick"] = None
         self.frames: List[Frame] = []
         self.indicators: Dict[str, "BaseIndicator"] = {}
         self.max_frames_in_memory = max_frames_in_memory
@@ -250,10 +251,11 @@ class FrameSet(TimeframeMixin, RefMixin):
             not self.current
             or self.current.nb_ticks >= self.unit_quantity
             or self.epic is None
-            or tick.datetime.date() > self.epic.last_tick.datetime.date()
         ):
             return True
-        return False
+        # epic.last_tick is already the new tick when it is dispatched by the epic
+        previous_tick = self.last_tick or self.epic.last_tick
+        return tick.datetime.date() > previous_tick.datetime.date()
 
     def add_tick_to_last(self, tick: "Tick") -> None:
         if self.current:
@@ -277,6 +279,7 @@ class FrameSet(TimeframeMixin, RefMixin):
             self._create_new_frame_func(tick)
         else:
             self.add_tick_to_last(tick)
+        self.last_tick = tick
 
     def __getitem__(self, frame_index: int) -> Optional[Frame]:
         try:
-- 
2.43.0


From aee34d12b63b4401eb1154a71d6611b99aaf8ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:49 +0000
Subject: [PATCH 04/27] fix: keep no previous change for a RSI on a single
 period

---
 estrade/graph/indicators/rsi.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/estrade/graph/indicators/rsi.py b/estrade/graph/indicators/rsi.py
index 504feb8..76b5018 100644
--- a/estrade/graph/indicators/rsi.py
+++ b/estrade/graph/indicators/rsi.py
@@ -48,7 +48,11 @@ class RSIValue(BaseIndicatorValue):
 
         if self.rsi_periods:
             max_last_changes_size = self.rsi_periods - 1
-            self.last_changes = self.last_changes[(max_last_changes_size * -1) :]
+            self.last_changes = (
+                self.last_changes[(max_last_changes_size * -1) :]
+                if max_last_changes_size
+                else []
+            )
 
             self._update_rsi()
 
-- 
2.43.0


From 8478b57120c9d64e1d5497862cf66c99939deb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:54 +0000
Subject: [PATCH 05/27] fix: keep no previous close for a moving average
 limited to one period

---
 estrade/graph/indicators/simple_moving_average.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/estrade/graph/indicators/simple_moving_average.py b/estrade/graph/indicators/simple_moving_average.py
index 45ddf61..b38cba9 100644
--- a/estrade/graph/indicators/simple_moving_average.py
+++ b/estrade/graph/indicators/simple_moving_average.py
@@ -38,7 +38,11 @@ class SimpleMovingAverageValue(BaseIndicatorValue):
             self.last_closes = self.previous.extended_closes[:]  # type: ignore
 
         max_last_closes_size = self.indicator.max_periods - 1  # type: ignore
-        self.last_closes = self.last_closes[(max_last_closes_size * -1) :]
+        self.last_closes = (
+            self.last_closes[(max_last_closes_size * -1) :]
+            if max_last_closes_size
+            else []
+        )
 
     @property
     def extended_closes(self) -> List[float]:
-- 
2.43.0


From 6c6b7c8224dcf661e4fbcae824e9d0aa3c30a2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:00 +0000
Subject: [PATCH 06/27] fix: compute supports and resistances of a zero pivot

---
 estrade/graph/indicators/pivot.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/estrade/graph/indicators/pivot.py b/estrade/graph/indicators/pivot.py
index a605f0c..2db0b1a 100644
--- a/estrade/graph/indicators/pivot.py
+++ b/estrade/graph/indicators/pivot.py
@@ -117,7 +117,7 @@ class PivotTypeClassic(BasePivotType):
             Support 1 value (pivot * 2 - high).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round((pivot * 2) - self.previous.high_tick.value, 2)  # type: ignore
         return None
 
@@ -130,7 +130,7 @@ class PivotTypeClassic(BasePivotType):
             Support 2 value (pivot - (high - low)).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round(
                 pivot
                 - (
@@ -150,7 +150,7 @@ class PivotTypeClassic(BasePivotType):
             Support 3 value (low - (high - pivot) * 2).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round(
                 self.previous.low_tick.value  # type: ignore
                 - ((self.previous.high_tick.value - pivot) * 2),  # type: ignore
@@ -167,7 +167,7 @@ class PivotTypeClassic(BasePivotType):
             Resistance 1 value (pivot * 2 - low).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round((pivot * 2) - self.previous.low_tick.value, 2)  # type: ignore
         return None
 
@@ -180,7 +180,7 @@ class PivotTypeClassic(BasePivotType):
             Resistance 2 value (pivot - (high - low)).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round(
                 pivot
                 + (
@@ -200,7 +200,7 @@ class PivotTypeClassic(BasePivotType):
             Resistance 3 value (high + (pivot - low) * 2).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round(
                 self.previous.high_tick.value  # type: ignore
                 + ((pivot - self.previous.low_tick.value) * 2),  # type: ignore
-- 
2.43.0


From 1fbd2ffb9b5b6c1b0a21a963cb4109467a346614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:05 +0000
Subject: [PATCH 07/27] fix: compute color and shape of candles opening or
 ending at zero

---
 estrade/graph/indicators/candle_set.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/estrade/graph/indicators/candle_set.py b/estrade/graph/indicators/candle_set.py
index 5d178e2..3495e5c 100644
--- a/estrade/graph/indicators/candle_set.py
+++ b/estrade/graph/indicators/candle_set.py
@@ -55,7 +55,7 @@ class BaseCandle(BaseIndicatorValue):
         Returns:
             Color as [`CandleColor`][estrade.enums.CandleColor] enum.
         """
-        if not self.open or not self.last:
+        if self.open is None or self.last is None:
             return None
 
         if self.last > self.open:
@@ -100,7 +100,7 @@ class BaseCandle(BaseIndicatorValue):
                 |
         ```
         """
-        if not self.open or not self.last:
+        if self.open is None or self.last is None:
             return None
 
         return round(abs(self.open - self.last), 2)
@@ -122,7 +122,7 @@ class BaseCandle(BaseIndicatorValue):
                 |
         ```
         """
-        if not self.open or not self.last:
+        if self.open is None or self.last is None:
             return None
         return round(self.high - (max(self.open, self.last)), 2)
 
@@ -143,7 +143,7 @@ class BaseCandle(BaseIndicatorValue):
                 |  ┘
         ```
         """
-        if not self.open or not self.last:
+        if self.open is None or self.last is None:
             return None
 
         return round(min(self.open, self.last) - self.low, 2)
-- 
2.43.0


From 13efc5e15b6ef827b1ecbad52a3872604ab55222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:10 +0000
Subject: [PATCH 08/27] fix: keep a zero closing value when a trade is created

---
 estrade/trade.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/estrade/trade.py b/estrade/trade.py
index fbe1114..51116ca 100644
--- a/estrade/trade.py
+++ b/estrade/trade.py
@@ -75,7 +75,9 @@ class Trade(MetaMixin, TimedMixin, RefMixin, TransactionMixin):
         self.closes: List[TradeClose] = []
 
         self.open_value = open_value
-        self.current_close_value = current_close_value or open_value
+        self.current_close_value = (
+            open_value if current_close_value is None else current_close_value
+        )
 
         self.max_result: float = self.result
         self.min_result: float = self.result
-- 
2.43.0


From f6e0f587394671f43daa6f45d9dedf9d028900e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:16 +0000
Subject: [PATCH 09/27] fix: do not close a whole trade when asked to close
 zero quantity

---
 estrade/trade.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/estrade/trade.py b/estrade/trade.py
index 51116ca..d88ca6b 100644
--- a/estrade/trade.py
+++ b/estrade/trade.py
@@ -232,7 +232,8 @@ class Trade(MetaMixin, TimedMixin, RefMixin, TransactionMixin):
             The [`TradeClose`][estrade.trade.TradeClose] instance created.
 
         """
-        quantity = quantity or self.opened_quantities
+        if quantity is None:
+            quantity = self.opened_quantities
 
         if quantity > self.opened_quantities:
             logger.error(
@@ -359,7 +360,7 @@ class Trade(MetaMixin, TimedMixin, RefMixin, TransactionMixin):
         """
         return round(
             sum(close.result for close in self.closes) / self.closed_quantities
-            if self.closes
+            if self.closed_quantities
             else 0,
             2,
         )
-- 
2.43.0


From cf3fa3f4b9b38f9b556f97f65eb6e88edf8f0ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:21 +0000
Subject: [PATCH 10/27] fix: an empty list of trades has no result and no
 profit

---
 estrade/strategy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/estrade/strategy.py b/estrade/strategy.py
index db06314..66cc04d 100644
--- a/estrade/strategy.py
+++ b/estrade/strategy.py
@@ -145,7 +145,7 @@ class BaseStrategy(RefMixin):
         Returns:
             Result of the input list of trades.
         """
-        if not trades:
+        if trades is None:
             trades = self.trades
 
         result = 0.0
@@ -167,7 +167,7 @@ class BaseStrategy(RefMixin):
         Returns:
             Profit factor of the input list of trades.
         """
-        if not trades:
+        if trades is None:
             trades = self.trades
 
         sum_positive = 0.0
-- 
2.43.0


From 7aee4f59f89d2497f1275a388200d8d4e7ce6c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:26 +0000
Subject: [PATCH 11/27] fix: write report rows when the file already exists

---
 estrade/reporting/csv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/estrade/reporting/csv.py b/estrade/reporting/csv.py
index b133b0d..d9aa42a 100644
--- a/estrade/reporting/csv.py
+++ b/estrade/reporting/csv.py
@@ -34,8 +34,8 @@ class CSVWriter:
             writer = csv.DictWriter(f, fieldnames=headers)
             if not file_exists:
                 writer.writeheader()
-                for d in dict_list:
-                    writer.writerow(d)
+            for d in dict_list:
+                writer.writerow(d)
 
 
 class ReportingCSV:
-- 
2.43.0


From 66227896365e64c8aa792917364655907ee02002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:33 +0000
Subject: [PATCH 12/27] fix: do not revalue trades of other epics sharing the
 trade provider

---
 estrade/epic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/estrade/epic.py b/estrade/epic.py
index 70bb469..6671b27 100644
--- a/estrade/epic.py
+++ b/estrade/epic.py
@@ -209,7 +209,8 @@ class Epic(RefMixin):
 
     def _update_open_trades(self, new_tick: "Tick") -> None:
         for trade in self.trade_provider.opened_trades:
-            trade.update_from_tick(new_tick)
+            if trade.epic is self:
+                trade.update_from_tick(new_tick)
 
     def _execute_strategies(self, market_open_before_new_tick: bool) -> None:
         for _, strategy in self.strategies.items():
-- 
2.43.0


From f5e621e80525dacab3316bab0dadfdeccb701383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:55 +0000
Subject: [PATCH 13/27] fix: reset the result extremes of a trade reduced by
 opposite trades

---
 estrade/trade_provider.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/estrade/trade_provider.py b/estrade/trade_provider.py
index 4874770..fe4c10f 100644
--- a/estrade/trade_provider.py
+++ b/estrade/trade_provider.py
@@ -186,6 +186,8 @@ class TradeProviderBacktests(BaseTradeProvider):
                 self.close_trade(trade_close=trade_close)
 
                 trade.open_quantity -= quantities_to_close
+                # the result extremes only apply to the quantity really opened
+                trade.max_result = trade.min_result = trade.result
 
         # if after decrement, the trade to open has a zero quantity, stop
         if trade.open_quantity <= 0:
-- 
2.43.0


From 42c7306eb5d4c89b9495a91284f49a92499aaa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:01 +0000
Subject: [PATCH 14/27] fix: average result of a trade entirely absorbed by
 opposite trades

---
 estrade/trade.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/estrade/trade.py b/estrade/trade.py
index d88ca6b..63b7624 100644
--- a/estrade/trade.py
+++ b/estrade/trade.py
@@ -393,6 +393,8 @@ class Trade(MetaMixin, TimedMixin, RefMixin, TransactionMixin):
         return:
             trade average result (does not takes quantities into account)
         """
+        if not self.open_quantity:
+            return 0.0
         return round(self.result / self.open_quantity, 2)
 
 
-- 
2.43.0


From 6fcbdc1b031593d622dcd2da6d1ce2d4e16ef997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:08 +0000
Subject: [PATCH 15/27] fix: compare the end of a pause as an instant

---
 estrade/strategy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estrade/strategy.py b/estrade/strategy.py
index 66cc04d..b862e55 100644
--- a/estrade/strategy.py
+++ b/estrade/strategy.py
@@ -62,7 +62,7 @@ class BaseStrategy(RefMixin):
     def _is_paused(self, new_tick_date: "Arrow") -> bool:
         if not self.paused_until:
             return False
-        is_still_paused = new_tick_date < self.paused_until
+        is_still_paused = new_tick_date.to("UTC") < self.paused_until
         if not is_still_paused:
             self.paused_until = None
         return is_still_paused
-- 
2.43.0


From 87ba58477d42a2ac01fdad9cfd17d77fabe307f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:45 +0000
Subject: [PATCH 16/27] fix: compare the opening of trades with only_after as
 instants

---
 estrade/strategy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estrade/strategy.py b/estrade/strategy.py
index b862e55..e8f7894 100644
--- a/estrade/strategy.py
+++ b/estrade/strategy.py
@@ -128,7 +128,7 @@ class BaseStrategy(RefMixin):
             if (epics is None or trade.epic in epics) and (
                 open_only is False or trade.closed is False
             ):
-                if only_after is not None and trade.datetime < only_after:
+                if only_after is not None and trade.datetime.to("UTC") < only_after:
                     break
                 yield trade
 
-- 
2.43.0


From 26609c4b2716bf8946c2de2e66a44e0156217dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:51 +0000
Subject: [PATCH 17/27] fix: do not net backtest trades of different epics

---
 estrade/trade_provider.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/estrade/trade_provider.py b/estrade/trade_provider.py
index fe4c10f..89d7c53 100644
--- a/estrade/trade_provider.py
+++ b/estrade/trade_provider.py
@@ -171,6 +171,11 @@ class TradeProviderBacktests(BaseTradeProvider):
                     "A trade was opened when another is still open in "
                     "the opposite direction."
                 )
+                if getattr(open_trade, "epic", None) is not getattr(
+                    trade, "epic", None
+                ):
+                    # trades on different epics do not offset each other
+                    continue
                 if open_trade.strategy != trade.strategy:
                     logger.info(
                         "As both trades does not belongs to the same strategy, "
-- 
2.43.0


From 52a591dad312f8fe357a70961b9c046cdb6bea28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:37 +0000
Subject: [PATCH 18/27] fix: keep timed frames contiguous around skipped local
 hours

---
 estrade/graph/frame_set.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/estrade/graph/frame_set.py b/estrade/graph/frame_set.py
index f79dd33..d7ace7f 100644
--- a/estrade/graph/frame_set.py
+++ b/estrade/graph/frame_set.py
@@ -224,13 +224,16 @@ class FrameSet(TimeframeMixin, RefMixin):
         period_end = self.get_frame_end(period_start)
         if self.current:
             while period_start > self.current.period_end:
+                # a period end moved out of a skipped local hour is not on the grid
+                next_start = self.get_frame_start(self.current.period_end)
                 self.create_new_frame(
                     self.current.last_tick,
                     self.current.period_end,
-                    self.get_frame_end(self.current.period_end),
+                    self.get_frame_end(next_start),
                 )
 
-        self.create_new_frame(tick, period_start, period_end)
+        # move a start lying in a skipped local hour to the end of the gap
+        self.create_new_frame(tick, period_start.shift(), period_end)
 
     def _create_new_frame_tick(self, tick: "Tick"):
         period_start = tick.datetime
-- 
2.43.0


From 517f8cd3ef69215b1465fc48a6987fcd78121054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:30 +0000
Subject: [PATCH 19/27] fix: do not keep an indicator refused by the frame set

---
 estrade/graph/frame_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estrade/graph/frame_set.py b/estrade/graph/frame_set.py
index d7ace7f..9cb3d42 100644
--- a/estrade/graph/frame_set.py
+++ b/estrade/graph/frame_set.py
@@ -188,8 +188,8 @@ class FrameSet(TimeframeMixin, RefMixin):
         return bool(self.epic and self.epic.market_open)
 
     def add_indicator(self, indicator: "BaseIndicator"):
-        self.indicators[indicator.ref] = indicator
         indicator.set_frame_set(self)
+        self.indicators[indicator.ref] = indicator
 
     def clean_old_frames(self):
         import gc
-- 
2.43.0


From ca726997d91a2f01ad0eb6bf33ea04722536d19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:32 +0000
Subject: [PATCH 20/27] fix: refuse datetimes that are neither python nor arrow
 datetimes

---
 estrade/mixins/timed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estrade/mixins/timed.py b/estrade/mixins/timed.py
index 281a8e0..ea9f06a 100644
--- a/estrade/mixins/timed.py
+++ b/estrade/mixins/timed.py
@@ -29,7 +29,7 @@ class TimedMixin:
             estrade.exceptions.TimeException: if datetime has no timezone defined.
 
         """
-        if not hasattr(dt, "tzinfo") or dt.tzinfo is None:
+        if not isinstance(dt, (pydatetime, arrow.Arrow)) or dt.tzinfo is None:
             raise TimeException(
                 f"Invalid {self.__class__.__name__} datetime, "
                 f"a timezoned datetime is required."
-- 
2.43.0


From 8b60f13d1148787d07c875141cc9fecc236487d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:11 +0000
Subject: [PATCH 21/27] fix: keep the instant of pytz datetimes in a repeated
 hour

---
 estrade/mixins/timed.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/estrade/mixins/timed.py b/estrade/mixins/timed.py
index ea9f06a..19db288 100644
--- a/estrade/mixins/timed.py
+++ b/estrade/mixins/timed.py
@@ -36,7 +36,12 @@ class TimedMixin:
             )
         # convert to arrow.Arrow
         if isinstance(dt, pydatetime):
+            utcoffset = dt.utcoffset()
             dt = arrow.get(dt)
+            # a pytz datetime tells a repeated hour by its offset, not by its fold
+            if dt.utcoffset() != utcoffset:
+                later = dt.replace(fold=1)
+                dt = later if later.utcoffset() == utcoffset else dt
 
         self._datetime = dt
 
-- 
2.43.0


From 6203f0f20cee942a446ef6177f4ddf279ae117e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:27 +0000
Subject: [PATCH 22/27] fix: refuse timeframe quantities below one

---
 estrade/mixins/timeframe.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/estrade/mixins/timeframe.py b/estrade/mixins/timeframe.py
index 13107ae..92cbab0 100644
--- a/estrade/mixins/timeframe.py
+++ b/estrade/mixins/timeframe.py
@@ -34,6 +34,8 @@ class TimeframeMixin:
         self._check_unit_consistency()
 
     def _check_unit_consistency(self) -> None:
+        if self.unit_quantity < 1:
+            raise TimeFrameException("Invalid timeframe quantity")
         if self.unit in [Unit.TICK, Unit.YEAR]:
             return
 
-- 
2.43.0


From 2613a760efd6058bf61520c3d863756fc7def061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:04 +0000
Subject: [PATCH 23/27] fix: strategies may register others on the ticked epic

---
 estrade/epic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/estrade/epic.py b/estrade/epic.py
index 6671b27..83fde91 100644
--- a/estrade/epic.py
+++ b/estrade/epic.py
@@ -213,7 +213,8 @@ class Epic(RefMixin):
                 trade.update_from_tick(new_tick)
 
     def _execute_strategies(self, market_open_before_new_tick: bool) -> None:
-        for _, strategy in self.strategies.items():
+        # a strategy may register others on this epic: they start with the next tick
+        for strategy in list(self.strategies.values()):
             if strategy.is_active(self.last_tick.datetime):
                 if market_open_before_new_tick != self.market_open:
                     if market_open_before_new_tick is True:
-- 
2.43.0


From a7e7cc8098b49e727e205d498eec97fc7cdebe45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:51 +0000
Subject: [PATCH 24/27] fix: record the trades of a strategy whatever its truth
 value

A strategy defining __len__ or __bool__ (say, the number of its trades) was taken for no
strategy at all as long as it was falsy: its trades were not recorded in it, reported
without it, and a second strategy with its reference was accepted.
---
 estrade/epic.py           | 2 +-
 estrade/trade.py          | 2 +-
 estrade/trade_provider.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/estrade/epic.py b/estrade/epic.py
index 83fde91..a03af69 100644
--- a/estrade/epic.py
+++ b/estrade/epic.py
@@ -141,7 +141,7 @@ class Epic(RefMixin):
         self.frame_sets[frame_set.ref] = frame_set
 
     def add_strategy(self, strategy: "BaseStrategy") -> None:
-        if self.strategies.get(strategy.ref):
+        if strategy.ref in self.strategies:
             raise EpicException(
                 f"Cannot add 2 Strategies with the same ref ({strategy.ref}) to epic."
             )
diff --git a/estrade/trade.py b/estrade/trade.py
index 63b7624..7c22bf8 100644
--- a/estrade/trade.py
+++ b/estrade/trade.py
@@ -97,7 +97,7 @@ class Trade(MetaMixin, TimedMixin, RefMixin, TransactionMixin):
             "ref": self.ref,
             "status": self.status,
             "epic": self.epic.ref,
-            "strategy": self.strategy.ref if self.strategy else "undefined",
+            "strategy": "undefined" if self.strategy is None else self.strategy.ref,
             "open_date": self.datetime.format("YYYY-MM-DD HH:mm:ss"),
             "direction": self.direction,
             "open_quantity": self.open_quantity,
diff --git a/estrade/trade_provider.py b/estrade/trade_provider.py
index 89d7c53..c0011a1 100644
--- a/estrade/trade_provider.py
+++ b/estrade/trade_provider.py
@@ -71,7 +71,7 @@ class BaseTradeProvider(RefMixin):
             trade: New trade to create.
         """
         self.trades.append(trade)
-        if trade.strategy:
+        if trade.strategy is not None:
             trade.strategy.trades.append(trade)
 
         thr = threading.Thread(
-- 
2.43.0


From 21271ff9f26c6d82132d75a4ce4f8c6d2b88992c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:58 +0000
Subject: [PATCH 25/27] fix: keep the trade provider given to an epic whatever
 its truth value

A provider defining __len__ (say, the number of its trades) is falsy while it has none, and
was silently replaced by a backtest provider.
---
 estrade/epic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/estrade/epic.py b/estrade/epic.py
index a03af69..3386bca 100644
--- a/estrade/epic.py
+++ b/estrade/epic.py
@@ -81,7 +81,9 @@ class Epic(RefMixin):
         self.close_time = close_time
         self.trade_days = trade_days or [0, 1, 2, 3, 4]
         self.holidays = holidays or []
-        self.trade_provider = trade_provider or TradeProviderBacktests()
+        self.trade_provider = (
+            TradeProviderBacktests() if trade_provider is None else trade_provider
+        )
 
         # create a fake tick to init last_tick attribute
         self.last_tick: Tick = Tick(
-- 
2.43.0


From d44aee3fa290689484e43f75796a0e75ed78bc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:05 +0000
Subject: [PATCH 26/27] fix: update an indicator value whatever its truth value

A value defining __len__ or __bool__ was replaced by a new one on each tick as long as it
was falsy, losing the ticks it had seen.
---
 estrade/graph/frame_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estrade/graph/frame_set.py b/estrade/graph/frame_set.py
index 9cb3d42..3e70580 100644
--- a/estrade/graph/frame_set.py
+++ b/estrade/graph/frame_set.py
@@ -95,7 +95,7 @@ class Frame:
         market_open = self.parent_frameset.epic_market_open
         for indicator_ref, indicator in self.parent_frameset.indicators.items():
             current_indicator_value = self.indicators.get(indicator_ref, None)
-            if current_indicator_value:
+            if current_indicator_value is not None:
                 current_indicator_value.on_new_tick(tick, market_open)
             else:
                 self._create_new_indicator_value(indicator, market_open)
-- 
2.43.0


From d67a129d6368ac5374189ed54dbc9995f21f779e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:11 +0000
Subject: [PATCH 27/27] fix: use the epic and the frame set given whatever
 their truth value

An epic (frame set) defining __len__ or __bool__ was ignored while falsy: its market-open-only
indicators got no value, and a second frame set with the same reference was accepted.
---
 estrade/epic.py                 | 2 +-
 estrade/graph/base_indicator.py | 2 +-
 estrade/graph/frame_set.py      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/estrade/epic.py b/estrade/epic.py
index 3386bca..a52ae0f 100644
--- a/estrade/epic.py
+++ b/estrade/epic.py
@@ -134,7 +134,7 @@ class Epic(RefMixin):
             raise EpicException(f"Invalid timezone : {timezone}")
 
     def add_frame_set(self, frame_set: "FrameSet") -> None:
-        if self.frame_sets.get(frame_set.ref):
+        if frame_set.ref in self.frame_sets:
             raise EpicException(
                 f"Cannot add 2 FrameSet with the same ref ({frame_set.ref}) to epic."
             )
diff --git a/estrade/graph/base_indicator.py b/estrade/graph/base_indicator.py
index 5fd4f4f..db4a92f 100644
--- a/estrade/graph/base_indicator.py
+++ b/estrade/graph/base_indicator.py
@@ -146,7 +146,7 @@ class BaseIndicator(RefMixin):
         Returns:
             Epic associated to this instance.
         """
-        if not self.frame_set:
+        if self.frame_set is None:
             return None
         return self.frame_set.epic
 
diff --git a/estrade/graph/frame_set.py b/estrade/graph/frame_set.py
index 3e70580..1b2412f 100644
--- a/estrade/graph/frame_set.py
+++ b/estrade/graph/frame_set.py
@@ -185,7 +185,7 @@ class FrameSet(TimeframeMixin, RefMixin):
 
     @property
     def epic_market_open(self) -> bool:
-        return bool(self.epic and self.epic.market_open)
+        return self.epic is not None and bool(self.epic.market_open)
 
     def add_indicator(self, indicator: "BaseIndicator"):
         indicator.set_frame_set(self)
-- 
2.43.0

